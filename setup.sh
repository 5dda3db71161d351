#!/bin/bash
# Nothing is compiled: verify the interpreter and the imports the monitors need.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
/opt/venv/bin/python -c "
from mon import env
env.setup()
import numpy, pandas, scipy, sklearn
from meterstick import metrics, operations, models, diversity, sql, utils, confidence_interval_display
from mon import gen, cmpx
print('setup ok', metrics.__file__)
"
