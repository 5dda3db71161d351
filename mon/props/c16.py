"""C16: PoissonBootstrap replicates and their spread."""
from mon import bootprops as B

METHOD = 'PoissonBootstrap'
RULE = ('tables received by a recording user-defined metric below a bootstrap; '
        'draw counts over 400 replicates; the reported error against the exact '
        'distribution over all enumerated resamples (Bernstein bound, false '
        'alarm 1e-10 per comparison); distinct = (spec, grouping, size)')
ASSUMPTIONS = [
    'random draws come from numpy\'s global generator, seeded per case',
    'filters inside the child do not leave a resample without rows in a slice '
    'that has some (the value of nothing is undocumented)',
    'units and grouping values are never missing']
LIMITS = {'quick': (500, 45), 'thorough': (20000, 700)}
MIN_EVENTS = {'tables': 1000, 'resampled_slices': 2200, 'exact_spreads': 150,
              'count_tests': 150, 'pair_tests': 200, 'spread_tight': 40,
              'spread_shortcut': 20, 'with_companion': 15, 'named_spreads': 20,
              'digits_shortcut': 10, 'digits_tables': 10}
FINDINGS = {'missing-units': B.finding_missing(METHOD),
            'preagg-filtered-slices': B.finding_filtered(METHOD)}
FAMILIES = [('tables', 4, B.f_tables(METHOD)), ('counts', 1, B.f_counts(METHOD)),
            ('spread', 4, B.f_spread(METHOD)), ('named', 1, B.f_named(METHOD)),
            ('digits', 2, B.f_digits(METHOD))]
