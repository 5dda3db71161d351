"""A small interpreter of the BigQuery dialect, used as the database under test.

Written from the GoogleSQL reference, not from the code under test. Everything
the dialect leaves open (row order without ORDER BY, order of ties) is shuffled.
Errors of the query are SqlError; real features that are not implemented are
Unsupported, which makes a case inconclusive.
"""
import datetime
import hashlib
import itertools
import math
import random
import re

import numpy as np
import pandas as pd


class SqlError(Exception):
  """The database would reject the query or fail while running it."""


class Unsupported(Exception):
  """A construct this interpreter does not know."""


RESERVED = set('''ALL AND ANY ARRAY AS ASC ASSERT_ROWS_MODIFIED AT BETWEEN BY CASE
CAST COLLATE CONTAINS CREATE CROSS CUBE CURRENT DEFAULT DEFINE DESC DISTINCT ELSE
END ENUM ESCAPE EXCEPT EXCLUDE EXISTS EXTRACT FALSE FETCH FOLLOWING FOR FROM FULL
GROUP GROUPING GROUPS HASH HAVING IF IGNORE IN INNER INTERSECT INTERVAL INTO IS
JOIN LATERAL LEFT LIKE LIMIT LOOKUP MERGE NATURAL NEW NO NOT NULL NULLS OF ON OR
ORDER OUTER OVER PARTITION PRECEDING PROTO QUALIFY RANGE RECURSIVE RESPECT RIGHT
ROLLUP ROWS SELECT SET SOME STRUCT TABLESAMPLE THEN TO TREAT TRUE UNBOUNDED UNION
UNNEST USING WHEN WHERE WINDOW WITH WITHIN'''.split())

TOKEN = re.compile(r'''
  (?P<ws>\s+|--[^\n]*|\#[^\n]*|/\*.*?\*/)
 |(?P<bt>`[^`]+`)
 |(?P<str>"""(?:\\.|[^\\])*?"""|\'\'\'(?:\\.|[^\\])*?\'\'\'
    |"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^'\\\n])*\')
 |(?P<num>0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><>|!=|<=|>=|\|\||<<|>>|[-+*/=<>(),.\[\];|&^~@])
''', re.X | re.S)
ESC = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', "'": "'", '"': '"', '`': '`',
       '?': '?', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v'}


def tokenize(text):
  out, i = [], 0
  while i < len(text):
    m = TOKEN.match(text, i)
    if not m:
      raise SqlError('Syntax error: illegal input at %r' % text[i:i + 30])
    kind, val = m.lastgroup, m.group()
    i = m.end()
    if kind == 'ws':
      continue
    if kind == 'num' and i < len(text) and (text[i].isalnum() or text[i] == '_'):
      raise SqlError('Syntax error: missing whitespace after number at %r' %
                     text[i - len(val):i + 20])
    if kind == 'str':
      q = 3 if val[:3] in ('"""', "'''") else 1
      body = val[q:-q]
      def esc(m):
        if m.group(1) not in ESC:
          raise SqlError('Syntax error: illegal escape sequence \\%s' % m.group(1))
        return ESC[m.group(1)]
      val = re.sub(r'\\(.)', esc, body, flags=re.S)
    elif kind == 'bt':
      val = val[1:-1]
    out.append((kind, val))
  out.append(('end', ''))
  return out


class Parser:

  def __init__(self, text):
    self.t = tokenize(text)
    self.i = 0
    self.text = text

  def fail(self, msg=''):
    near = ' '.join(str(v) for _, v in self.t[max(0, self.i - 4):self.i + 5])
    raise SqlError('Syntax error: %s near "%s"' % (msg or 'unexpected', near))

  def peek(self, k=0):
    return self.t[min(self.i + k, len(self.t) - 1)]

  def kw(self, *words):
    """Whether the next tokens are these keywords."""
    for j, w in enumerate(words):
      k, v = self.peek(j)
      if k != 'id' or v.upper() != w:
        return False
    return True

  def take_kw(self, *words):
    if self.kw(*words):
      self.i += len(words)
      return True
    return False

  def op(self, v):
    return self.peek() == ('op', v)

  def take(self, v):
    if self.op(v):
      self.i += 1
      return True
    return False

  def need(self, v):
    if not self.take(v):
      self.fail('expected "%s"' % v)

  def need_kw(self, *w):
    if not self.take_kw(*w):
      self.fail('expected %s' % ' '.join(w))

  def ident(self, what='identifier', any_word=False):
    k, v = self.peek()
    if k == 'bt' or (k == 'id' and (any_word or v.upper() not in RESERVED)):
      self.i += 1
      return v
    self.fail('expected %s' % what)

  # Queries.
  def statement(self):
    q = self.query()
    self.take(';')
    if self.peek()[0] != 'end':
      self.fail('expected end of input')
    return q

  def query(self):
    ctes = []
    if self.take_kw('WITH'):
      if self.kw('RECURSIVE'):
        raise Unsupported('WITH RECURSIVE')
      while True:
        name = self.ident('a WITH name')
        self.need_kw('AS')
        self.need('(')
        ctes.append((name, self.query()))
        self.need(')')
        if not self.take(','):
          break
    body = self.query_term()
    while self.kw('UNION') or self.kw('INTERSECT') or self.kw('EXCEPT'):
      if not self.take_kw('UNION', 'ALL'):
        raise Unsupported('set operation')
      body = {'union': [body, self.query_term()]}
    q = {'ctes': ctes, 'body': body, 'order': [], 'limit': None}
    if self.take_kw('ORDER', 'BY'):
      q['order'] = self.order_items()
    if self.take_kw('LIMIT'):
      k, v = self.peek()
      if k != 'num':
        self.fail('LIMIT expects an integer')
      self.i += 1
      q['limit'] = int(v)
    return q

  def query_term(self):
    if self.take('('):
      q = self.query()
      self.need(')')
      return q
    return self.select()

  def select(self):
    self.need_kw('SELECT')
    s = {'distinct': False, 'items': [], 'from': None, 'where': None,
         'group': None, 'having': None}
    if self.take_kw('DISTINCT'):
      s['distinct'] = True
    else:
      self.take_kw('ALL')
    if self.kw('AS', 'STRUCT') or self.kw('AS', 'VALUE'):
      raise Unsupported('SELECT AS')
    while True:
      s['items'].append(self.select_item())
      if not self.take(','):
        break
      if self.kw('FROM'):  # A trailing comma is allowed.
        break
    if self.take_kw('FROM'):
      s['from'] = self.from_clause()
    if self.take_kw('WHERE'):
      s['where'] = self.expr()
    if self.take_kw('GROUP', 'BY'):
      if self.kw('ALL') or self.kw('ROLLUP') or self.kw('CUBE') or self.kw(
          'GROUPING'):
        raise Unsupported('GROUP BY form')
      s['group'] = [self.expr()]
      while self.take(','):
        s['group'].append(self.expr())
    if self.take_kw('HAVING'):
      s['having'] = self.expr()
    if self.kw('QUALIFY') or self.kw('WINDOW'):
      raise Unsupported('QUALIFY/WINDOW')
    return s

  def star_tail(self, qual):
    exc = []
    if self.take_kw('EXCEPT'):
      self.need('(')
      exc = [self.ident()]
      while self.take(','):
        exc.append(self.ident())
      self.need(')')
    if self.kw('REPLACE'):
      raise Unsupported('REPLACE')
    return ('star', qual, exc)

  def select_item(self):
    if self.take('*'):
      return self.star_tail(None)
    k, v = self.peek()
    if (k == 'bt' or (k == 'id' and v.upper() not in RESERVED)) and self.peek(
        1) == ('op', '.') and self.peek(2) == ('op', '*'):
      self.i += 3
      return self.star_tail(v)
    e = self.expr()
    return ('item', e, self.alias())

  def alias(self):
    if self.take_kw('AS'):
      return self.ident('an alias')
    k, v = self.peek()
    if k == 'bt' or (k == 'id' and v.upper() not in RESERVED):
      self.i += 1
      return v
    return None

  def from_clause(self):
    left = self.from_item()
    while True:
      if self.take(','):
        left = ('join', 'CROSS', left, self.from_item(), None, None)
        continue
      kind = None
      if self.take_kw('CROSS', 'JOIN'):
        kind = 'CROSS'
      elif self.take_kw('INNER', 'JOIN') or self.take_kw('JOIN'):
        kind = 'INNER'
      else:
        for k in ('LEFT', 'RIGHT', 'FULL'):
          if self.take_kw(k, 'OUTER', 'JOIN') or self.take_kw(k, 'JOIN'):
            kind = k
      if kind is None:
        return left
      right = self.from_item()
      on = using = None
      if self.take_kw('ON'):
        on = self.expr()
      elif self.take_kw('USING'):
        self.need('(')
        using = [self.ident()]
        while self.take(','):
          using.append(self.ident())
        self.need(')')
      if kind == 'CROSS' and (on is not None or using):
        self.fail('CROSS JOIN with a condition')
      left = ('join', kind, left, right, on, using)

  def from_item(self):
    if self.take_kw('UNNEST'):
      self.need('(')
      e = self.expr()
      self.need(')')
      a = self.alias()
      if self.kw('WITH', 'OFFSET'):
        raise Unsupported('WITH OFFSET')
      return ('unnest', e, a)
    if self.op('('):
      self.i += 1
      if self.kw('SELECT') or self.kw('WITH') or self.op('('):
        q = self.query()
        self.need(')')
        return ('subq', q, self.alias())
      j = self.from_clause()
      self.need(')')
      return j
    parts = [self.ident('a table name')]
    while self.take('.'):
      parts.append(self.ident(any_word=True))
    return ('table', '.'.join(parts), self.alias())

  def order_items(self):
    out = []
    while True:
      e = self.expr()
      desc = False
      if self.take_kw('DESC'):
        desc = True
      else:
        self.take_kw('ASC')
      nulls = None
      if self.take_kw('NULLS', 'FIRST'):
        nulls = 'first'
      elif self.take_kw('NULLS', 'LAST'):
        nulls = 'last'
      out.append((e, desc, nulls))
      if not self.take(','):
        return out

  # Expressions.
  def expr(self):
    e = self.and_()
    while self.take_kw('OR'):
      e = ('or', e, self.and_())
    return e

  def and_(self):
    e = self.not_()
    while self.take_kw('AND'):
      e = ('and', e, self.not_())
    return e

  def not_(self):
    if self.take_kw('NOT'):
      return ('not', self.not_())
    return self.cmp()

  def cmp(self):
    e = self.bitor()
    k, v = self.peek()
    if k == 'op' and v in ('=', '!=', '<>', '<', '>', '<=', '>='):
      self.i += 1
      r = ('cmp', '!=' if v == '<>' else v, e, self.bitor())
    elif self.kw('IS'):
      self.i += 1
      neg = self.take_kw('NOT')
      if self.take_kw('NULL'):
        r = ('isnull', e, neg)
      elif self.take_kw('TRUE'):
        r = ('isbool', e, True, neg)
      elif self.take_kw('FALSE'):
        r = ('isbool', e, False, neg)
      else:
        self.fail('IS')
    else:
      neg = self.kw('NOT') and (self.peek(1)[1].upper() in (
          'BETWEEN', 'IN', 'LIKE'))
      if neg:
        self.i += 1
      if self.take_kw('BETWEEN'):
        a = self.bitor()
        self.need_kw('AND')
        r = ('between', e, a, self.bitor())
      elif self.take_kw('IN'):
        if self.kw('UNNEST'):
          self.i += 1
          self.need('(')
          r = ('inarr', e, self.expr())
          self.need(')')
        else:
          self.need('(')
          if self.kw('SELECT') or self.kw('WITH'):
            r = ('insub', e, self.query())
          else:
            xs = [self.expr()]
            while self.take(','):
              xs.append(self.expr())
            r = ('in', e, tuple(xs))
          self.need(')')
      elif self.take_kw('LIKE'):
        raise Unsupported('LIKE')
      else:
        return e
      if neg:
        r = ('not', r)
      return r
    k, v = self.peek()
    if k == 'op' and v in ('=', '!=', '<>', '<', '>', '<=', '>='):
      self.fail('comparisons do not chain')
    return r

  def bitor(self):
    e = self.bitand()
    while self.op('|') or self.op('^'):
      o = self.peek()[1]
      self.i += 1
      e = ('bin', o, e, self.bitand())
    return e

  def bitand(self):
    e = self.shift()
    while self.op('&'):
      self.i += 1
      e = ('bin', '&', e, self.shift())
    return e

  def shift(self):
    e = self.add()
    while self.op('<<') or self.op('>>'):
      raise Unsupported('shift')
    return e

  def add(self):
    e = self.mul()
    while self.op('+') or self.op('-'):
      o = self.peek()[1]
      self.i += 1
      e = ('bin', o, e, self.mul())
    return e

  def mul(self):
    e = self.unary()
    while self.op('*') or self.op('/') or self.op('||'):
      o = self.peek()[1]
      self.i += 1
      e = ('bin', o, e, self.unary())
    return e

  def unary(self):
    if self.take('-'):
      return ('neg', self.unary())
    if self.take('+'):
      return self.unary()
    if self.take('~'):
      raise Unsupported('~')
    return self.postfix()

  def postfix(self):
    e = self.primary()
    while True:
      if self.take('['):
        k = 'none'
        if self.peek()[0] == 'id' and self.peek()[1].upper() in (
            'OFFSET', 'SAFE_OFFSET', 'ORDINAL', 'SAFE_ORDINAL'):
          k = self.peek()[1].upper()
          self.i += 1
          self.need('(')
          i = self.expr()
          self.need(')')
        else:
          i = self.expr()
        self.need(']')
        e = ('idx', e, k, i)
      else:
        return e

  def primary(self):
    k, v = self.peek()
    if k == 'num':
      self.i += 1
      if v[:2].lower() == '0x':
        n = int(v, 16)
        return ('lit', n if n < 2**63 else float(n))
      if re.fullmatch(r'\d+', v):
        return ('lit', int(v))
      return ('lit', float(v))
    if k == 'str':
      self.i += 1
      return ('lit', v)
    if self.take('('):
      if self.kw('SELECT') or self.kw('WITH'):
        q = self.query()
        self.need(')')
        return ('scalar', q)
      e = self.expr()
      if self.op(','):
        raise Unsupported('struct')
      self.need(')')
      return e
    if self.take('['):
      xs = []
      if not self.op(']'):
        xs.append(self.expr())
        while self.take(','):
          xs.append(self.expr())
      self.need(']')
      return ('array', tuple(xs))
    if k == 'bt':
      return self.path()
    if k != 'id':
      self.fail('unexpected "%s"' % v)
    u = v.upper()
    if u in ('TRUE', 'FALSE'):
      self.i += 1
      return ('lit', u == 'TRUE')
    if u == 'NULL':
      self.i += 1
      return ('lit', None)
    if u == 'CASE':
      return self.case()
    if u in ('CAST', 'SAFE_CAST') and self.peek(1) == ('op', '('):
      self.i += 2
      e = self.expr()
      self.need_kw('AS')
      t = self.ident('a type', any_word=True).upper()
      self.need(')')
      return ('cast', e, t, u == 'SAFE_CAST')
    if u == 'EXISTS':
      self.i += 1
      self.need('(')
      q = self.query()
      self.need(')')
      return ('exists', q)
    if u == 'ARRAY' and self.peek(1) == ('op', '('):
      self.i += 2
      q = self.query()
      self.need(')')
      return ('arraysub', q)
    if u == 'ARRAY' and self.peek(1) == ('op', '['):
      self.i += 1
      return self.primary()
    if u in ('DATE', 'TIMESTAMP', 'DATETIME') and self.peek(1)[0] == 'str':
      v = to_timestamp(self.peek(1)[1], {
          'DATE': datetime.date(1, 1, 1), 'TIMESTAMP': pd.Timestamp(0),
          'DATETIME': datetime.datetime(1, 1, 1)}[u])
      self.i += 2
      return ('lit', v)
    if u in ('INTERVAL', 'EXTRACT', 'STRUCT', 'DATE', 'TIMESTAMP', 'DATETIME',
             'TIME', 'NUMERIC', 'BIGNUMERIC', 'JSON') and (
                 u in ('INTERVAL', 'EXTRACT', 'STRUCT') or
                 self.peek(1)[0] == 'str'):
      raise Unsupported(u)
    if self.peek(1) == ('op', '(') and (u not in RESERVED or u in (
        'IF', 'LEFT', 'RIGHT')):
      self.i += 1
      return self.call(u, False)
    if u == 'SAFE' and self.peek(1) == ('op', '.'):
      self.i += 2
      name = self.ident('a function', any_word=True).upper()
      return self.call(name, True)
    if u in RESERVED:
      self.fail('unexpected keyword %s' % u)
    return self.path()

  def path(self):
    parts = [self.ident()]
    while self.op('.') and self.peek(1)[0] in ('id', 'bt'):
      self.i += 1
      parts.append(self.ident(any_word=True))
    if self.op('(') and len(parts) > 1:
      if parts[0].upper() not in ('SAFE', 'NET', 'HLL_COUNT', 'KEYS', 'AEAD'):
        raise SqlError('Function not found: %s' % '.'.join(parts))
      raise Unsupported('function %s' % '.'.join(parts))
    return ('name', tuple(parts))

  def case(self):
    self.need_kw('CASE')
    operand = None if self.kw('WHEN') else self.expr()
    whens = []
    while self.take_kw('WHEN'):
      w = self.expr()
      self.need_kw('THEN')
      whens.append((w, self.expr()))
    if not whens:
      self.fail('CASE without WHEN')
    els = self.expr() if self.take_kw('ELSE') else None
    self.need_kw('END')
    return ('case', operand, tuple(whens), els)

  def call(self, name, safe):
    self.need('(')
    star = distinct = False
    args, order, limit, nulls = [], (), None, None
    if self.take('*'):
      star = True
    elif not self.op(')'):
      distinct = self.take_kw('DISTINCT')
      args.append(self.expr())
      while self.take(','):
        args.append(self.expr())
      if self.take_kw('IGNORE', 'NULLS'):
        nulls = 'ignore'
      elif self.take_kw('RESPECT', 'NULLS'):
        nulls = 'respect'
      if self.kw('HAVING'):
        raise Unsupported('HAVING in aggregate')
      if self.take_kw('ORDER', 'BY'):
        order = tuple(self.order_items())
      if self.take_kw('LIMIT'):
        k, v = self.peek()
        if k != 'num':
          self.fail('LIMIT')
        self.i += 1
        limit = int(v)
    self.need(')')
    c = ('call', name, tuple(args), star, distinct, nulls, order, limit, safe)
    if self.take_kw('OVER'):
      self.need('(')
      part, worder, frame = (), (), None
      if self.take_kw('PARTITION', 'BY'):
        part = [self.expr()]
        while self.take(','):
          part.append(self.expr())
      if self.take_kw('ORDER', 'BY'):
        worder = self.order_items()
      if self.kw('ROWS') or self.kw('RANGE'):
        unit = self.peek()[1].upper()
        self.i += 1
        if self.take_kw('BETWEEN'):
          a = self.bound()
          self.need_kw('AND')
          b = self.bound()
        else:
          a, b = self.bound(), ('cur',)
        frame = (unit, a, b)
      self.need(')')
      return ('win', c, tuple(part), tuple(worder), frame)
    return c

  def bound(self):
    if self.take_kw('UNBOUNDED', 'PRECEDING'):
      return ('start',)
    if self.take_kw('UNBOUNDED', 'FOLLOWING'):
      return ('stop',)
    if self.take_kw('CURRENT', 'ROW'):
      return ('cur',)
    k, v = self.peek()
    if k != 'num':
      self.fail('frame bound')
    self.i += 1
    if self.take_kw('PRECEDING'):
      return ('off', -int(v))
    self.need_kw('FOLLOWING')
    return ('off', int(v))


# Values.
def is_num(v):
  return isinstance(v, (int, float)) and not isinstance(v, bool)


def type_of(v):
  if isinstance(v, bool):
    return 'BOOL'
  if isinstance(v, int):
    return 'INT64'
  if isinstance(v, float):
    return 'FLOAT64'
  if isinstance(v, str):
    return 'STRING'
  if isinstance(v, list):
    return 'ARRAY'
  if isinstance(v, datetime.datetime):
    return 'TIMESTAMP'
  if isinstance(v, datetime.date):
    return 'DATE'
  return type(v).__name__


def num(v, what):
  if not is_num(v):
    raise SqlError('No matching signature for %s with argument type %s' % (
        what, type_of(v)))
  return v


def finite(r, *args):
  if isinstance(r, float) and not math.isfinite(r) and all(
      math.isfinite(a) for a in args):
    raise SqlError('floating point overflow or domain error')
  if isinstance(r, int) and not isinstance(r, bool) and not (
      -2**63 <= r < 2**63):
    raise SqlError('int64 overflow')
  return r


def arith(op, a, b):
  if op == '||':
    if a is None or b is None:
      return None
    if isinstance(a, str) and isinstance(b, str):
      return a + b
    raise Unsupported('|| of %s' % type_of(a))
  for v in (a, b):
    if v is not None:
      num(v, 'operator ' + op)
  if a is None or b is None:
    return None
  if op == '+':
    return finite(a + b, a, b)
  if op == '-':
    return finite(a - b, a, b)
  if op == '*':
    return finite(a * b, a, b)
  if op == '/':
    if b == 0:
      raise SqlError('division by zero: %r / %r' % (a, b))
    return finite(float(a) / float(b), a, b)
  raise Unsupported('operator ' + op)


def comparable(a, b):
  if is_num(a) and is_num(b):
    return True
  return type_of(a) == type_of(b)


def compare(op, a, b):
  if a is None or b is None:
    return None
  if isinstance(a, str) and isinstance(b, datetime.date):
    a = to_timestamp(a, b)
  elif isinstance(b, str) and isinstance(a, datetime.date):
    b = to_timestamp(b, a)
  if not comparable(a, b):
    raise SqlError('No matching signature for operator %s for argument types '
                   '%s, %s (%r, %r)' % (op, type_of(a), type_of(b), a, b))
  if isinstance(a, list):
    raise SqlError('Equality is not defined for ARRAY')
  return {'=': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b,
          '>=': a >= b}[op]


def to_timestamp(s, like=None):
  """String literals coerce to the type of the time they are compared to."""
  try:
    v = type(like or datetime.datetime(1, 1, 1)).fromisoformat(s)
  except ValueError:
    raise SqlError('Could not cast literal %r to a time' % s)
  return v


def truth(v, what='condition'):
  if v is not None and not isinstance(v, bool):
    raise SqlError('%s should be BOOL but is %s' % (what, type_of(v)))
  return v


def to_string(v):
  if v is None:
    return None
  if isinstance(v, bool):
    return 'true' if v else 'false'
  if isinstance(v, float):
    if v.is_integer() and abs(v) < 1e15:
      return repr(int(v))
    return repr(v)
  if isinstance(v, list):
    raise SqlError('Invalid cast from ARRAY to STRING')
  return str(v)


def cast(v, t):
  if v is None:
    return None
  if t == 'STRING':
    return to_string(v)
  if t in ('FLOAT64', 'FLOAT'):
    if isinstance(v, bool):
      raise SqlError('Invalid cast from BOOL to FLOAT64')
    try:
      return float(v)
    except (TypeError, ValueError):
      raise SqlError('Bad double value: %r' % (v,))
  if t in ('INT64', 'INT', 'INTEGER'):
    if isinstance(v, bool):
      return int(v)
    if isinstance(v, float):
      if not math.isfinite(v):
        raise SqlError('Illegal conversion of %r to int64' % v)
      return int(math.floor(abs(v) + .5) * (1 if v >= 0 else -1))
    try:
      return int(v)
    except (TypeError, ValueError):
      raise SqlError('Bad int64 value: %r' % (v,))
  if t in ('BOOL', 'BOOLEAN'):
    if isinstance(v, bool):
      return v
    if isinstance(v, int):
      return v != 0
    if isinstance(v, str) and v.lower() in ('true', 'false'):
      return v.lower() == 'true'
    raise SqlError('Invalid cast to BOOL of %r' % (v,))
  raise Unsupported('CAST AS ' + t)


def fingerprint(s):
  h = hashlib.blake2b(s.encode(), digest_size=8).digest()
  return int.from_bytes(h, 'big', signed=True)


def f_power(a, b):
  if a < 0 and not float(b).is_integer():
    raise SqlError('Floating point error in function: POW(%r, %r)' % (a, b))
  if a == 0 and b < 0:
    raise SqlError('Floating point error in function: POW(%r, %r)' % (a, b))
  try:
    return finite(float(a) ** float(b), a, b)
  except OverflowError:
    raise SqlError('Floating point overflow in POW')


def f_exp(a):
  try:
    return math.exp(a)
  except OverflowError:
    raise SqlError('Floating point overflow in EXP')


def f_log(a, b=None):
  if a <= 0 or (b is not None and (b <= 0 or b == 1)):
    raise SqlError('Floating point error in function: LOG(%r)' % a)
  return math.log(a) if b is None else math.log(a) / math.log(b)


def f_sqrt(a):
  if a < 0:
    raise SqlError('Argument to SQRT cannot be negative')
  return math.sqrt(a)


def f_mod(a, b):
  if b == 0:
    raise SqlError('division by zero: MOD')
  return int(math.fmod(a, b))


# Functions whose NULL argument gives NULL: name -> (min args, max args, fn).
STRICT_NUM = {
    'SQRT': (1, 1, f_sqrt), 'POWER': (2, 2, f_power), 'POW': (2, 2, f_power),
    'LOG': (1, 2, f_log), 'LN': (1, 1, f_log),
    'LOG10': (1, 1, lambda a: f_log(a, 10)),
    'EXP': (1, 1, f_exp), 'ABS': (1, 1, abs),
    'SIGN': (1, 1, lambda a: (a > 0) - (a < 0)),
    'CEILING': (1, 1, lambda a: float(math.ceil(a))),
    'CEIL': (1, 1, lambda a: float(math.ceil(a))),
    'FLOOR': (1, 1, lambda a: float(math.floor(a))),
    'MOD': (2, 2, f_mod),
    'SAFE_DIVIDE': (2, 2, lambda a, b: None if b == 0 else float(a) / float(b)),
    'IEEE_DIVIDE': (2, 2, lambda a, b: float(np.float64(a) / np.float64(b))),
    'SAFE_ADD': (2, 2, lambda a, b: a + b),
    'SAFE_SUBTRACT': (2, 2, lambda a, b: a - b),
    'SAFE_MULTIPLY': (2, 2, lambda a, b: a * b),
    'SAFE_NEGATE': (1, 1, lambda a: -a),
    'DIV': (2, 2, lambda a, b: int(a / b)),
    'GREATEST': (1, 99, max), 'LEAST': (1, 99, min),
    'GENERATE_ARRAY': (2, 3, lambda a, b, c=1: _gen_array(a, b, c)),
}


def _gen_array(a, b, c):
  if c == 0:
    raise SqlError('Sequence step cannot be 0.')
  out = []
  while (a <= b) if c > 0 else (a >= b):
    out.append(a)
    a += c
    if len(out) > 10**6:
      raise Unsupported('huge GENERATE_ARRAY')
  return out


AGGS = {'SUM', 'AVG', 'COUNT', 'MIN', 'MAX', 'COUNTIF', 'VAR_SAMP', 'VAR_POP',
        'VARIANCE', 'STDDEV', 'STDDEV_SAMP', 'STDDEV_POP', 'COVAR_SAMP',
        'COVAR_POP', 'CORR', 'APPROX_QUANTILES', 'ARRAY_AGG', 'ANY_VALUE',
        'LOGICAL_AND', 'LOGICAL_OR', 'APPROX_COUNT_DISTINCT', 'STRING_AGG'}
WINDOW_ONLY = {'ROW_NUMBER', 'RANK', 'DENSE_RANK', 'LAG', 'LEAD', 'FIRST_VALUE',
               'LAST_VALUE', 'NTH_VALUE', 'PERCENTILE_CONT', 'PERCENTILE_DISC',
               'NTILE', 'CUME_DIST', 'PERCENT_RANK'}
OTHER_FUNCS = {'IF', 'COALESCE', 'IFNULL', 'NULLIF', 'CONCAT', 'FARM_FINGERPRINT',
               'RAND', 'ARRAY_LENGTH', 'TIMESTAMP', 'LOWER', 'UPPER', 'LENGTH', 'ISNULL',
               'IS_NAN', 'IS_INF', 'ROUND', 'TRUNC', 'ARRAY_CONCAT', 'STARTS_WITH',
               'SUBSTR', 'REPLACE', 'FORMAT', 'GENERATE_UUID', 'REGEXP_CONTAINS',
               'TRIM', 'DATE', 'ARRAY_REVERSE', 'HLL_COUNT', 'TO_JSON_STRING',
               'MD5', 'SHA256', 'SIN', 'COS', 'TAN', 'TANH', 'SINH', 'COSH', 'SAFE'}


def fsum(xs):
  if all(isinstance(x, int) for x in xs):
    return finite(sum(xs))
  return math.fsum(xs)


def moments(xs):
  n = len(xs)
  m = math.fsum(xs) / n
  return n, m, math.fsum((x - m) ** 2 for x in xs)


def quantile(xs, p):
  xs = sorted(xs)
  h = (len(xs) - 1) * p
  lo = int(math.floor(h + 1e-12))
  hi = min(lo + 1, len(xs) - 1)
  return xs[lo] + (xs[hi] - xs[lo]) * max(0.0, h - lo)


class OrdKey:
  """Sort key of one ORDER BY item; NULLs are the smallest values."""
  __slots__ = ('v', 'desc', 'nulls')

  def __init__(self, v, desc, nulls):
    self.v, self.desc, self.nulls = v, desc, nulls

  def __lt__(self, o):
    a, b = self.v, o.v
    if a is None or b is None:
      if a is None and b is None:
        return False
      first = self.nulls == 'first' or (self.nulls is None and not self.desc)
      return (a is None) == first
    if not comparable(a, b):
      raise SqlError('ORDER BY mixes types')
    return b < a if self.desc else a < b

  def __eq__(self, o):
    return (self.v is None) == (o.v is None) and self.v == o.v


class Col:
  __slots__ = ('quals', 'name', 'vis')

  def __init__(self, quals, name, vis=True):
    self.quals, self.name, self.vis = quals, name, vis


class Rel:

  def __init__(self, cols, rows):
    self.cols, self.rows = cols, rows


def find(cols, parts):
  """Index of the column a name means, or None."""
  low = [p.lower() for p in parts]
  if len(low) == 1:
    hits = [i for i, c in enumerate(cols) if c.vis and c.name is not None and
            c.name.lower() == low[0]]
  else:
    q = '.'.join(low[:-1])
    hits = [i for i, c in enumerate(cols) if c.name is not None and
            c.name.lower() == low[-1] and q in c.quals]
  if len(hits) > 1:
    raise SqlError('Column name %s is ambiguous' % '.'.join(parts))
  return hits[0] if hits else None


class Engine:
  """Runs queries over named tables."""

  def __init__(self, tables, seed=0, shuffle=True, log=None):
    self.tables = {k.lower(): v for k, v in tables.items()}
    self.rng = random.Random(seed)
    self.shuffle = shuffle
    self.queries = []
    self.trace = log          # name -> (columns, rows) of every WITH table
    self.ops = 0

  # Execution of queries. scopes: list of column lists, innermost last; env:
  # tuple of rows matching scopes.
  def execute(self, text):
    text = str(text)
    self.queries.append(text)
    q = Parser(text).statement()
    if self.trace is not None:
      self.trace.append({})
    cols, rows = self.run(q, {}, (), (), top=True)
    seen = set()
    for c in cols:
      if c is None:
        continue
      if c.lower() in seen:
        raise SqlError('Duplicate column names in the result are not supported. '
                       'Found duplicate(s): %s' % c)
      seen.add(c.lower())
    cols = [c if c is not None else 'f%d_' % i for i, c in enumerate(cols)]
    return frame(cols, rows)

  def mixed(self, rows):
    if self.shuffle:
      rows = list(rows)
      self.rng.shuffle(rows)
    return rows

  def run(self, q, ctes, scopes, env, top=False):
    if 'union' in q:
      cols = rows = None
      for b in q['union']:
        c, r = self.run(b, ctes, scopes, env)
        if cols is None:
          cols, rows = c, list(r)
        elif len(c) != len(cols):
          raise SqlError('Queries in UNION ALL have mismatched column count')
        else:
          rows += r
      return cols, rows
    if 'body' not in q:
      return self.run_select(q, ctes, scopes, env, [], None)
    ctes = dict(ctes)
    names = set()
    for name, sub in q['ctes']:
      low = name.lower()
      if low in names:
        raise SqlError('Duplicate alias %s for WITH subquery' % name)
      names.add(low)
      cols, rows = self.run(sub, ctes, scopes, env)
      ctes[low] = (cols, rows)
      if self.trace is not None and self.trace:
        self.trace[-1][name] = (cols, rows)
    body = q['body']
    if 'items' in body:
      return self.run_select(body, ctes, scopes, env, q['order'], q['limit'])
    cols, rows = self.run(body, ctes, scopes, env)
    if q['order']:
      inner = [Col((), c) for c in cols]
      keys = [(self.comp(self.bind(e, [inner], None, ctes)), d, n)
              for e, d, n in q['order']]
      rows = sorted(rows, key=lambda r: [OrdKey(f((r,)), d, n)
                                         for f, d, n in keys])
    if q['limit'] is not None:
      rows = rows[:q['limit']]
    return cols, rows

  def source(self, f, ctes, scopes, env):
    kind = f[0]
    if kind == 'table':
      name, alias = f[1], f[2]
      low = name.lower()
      if low in ctes:
        cols, rows = ctes[low]
      elif low in self.tables:
        cols, rows = self.tables[low]
      else:
        raise SqlError('Table "%s" not found' % name)
      q = (alias or name.split('.')[-1]).lower()
      return Rel([Col((q,), c) for c in cols], self.mixed(rows)), {q}
    if kind == 'subq':
      cols, rows = self.run(f[1], ctes, scopes, env)
      qs = (f[2].lower(),) if f[2] else ()
      return Rel([Col(qs, c) for c in cols], rows), set(qs)
    if kind == 'unnest':
      arr = self.comp(self.bind(f[1], list(scopes), None, ctes))(env)
      if arr is not None and not isinstance(arr, list):
        raise SqlError('Values referenced in UNNEST must be arrays')
      q = (f[2].lower(),) if f[2] else ()
      return Rel([Col(q, f[2])], self.mixed([(v,) for v in arr or []])), set(q)
    if kind == 'join':
      return self.join(f, ctes, scopes, env)
    raise Unsupported(kind)

  def join(self, f, ctes, scopes, env):
    _, kind, lf, rf, on, using = f
    left, lq = self.source(lf, ctes, scopes, env)
    lateral = rf[0] == 'unnest'
    if lateral:
      q = (rf[2].lower(),) if rf[2] else ()
      rq = set(q)
      rcols = [Col(q, rf[2])]
      arr = self.comp(self.bind(rf[1], list(scopes) + [left.cols], None, ctes))
      if kind not in ('INNER', 'CROSS', 'LEFT'):
        raise SqlError('Array scan is not allowed with %s JOIN' % kind)

      def right_rows(row):
        a = arr(tuple(env) + (row,))
        if a is not None and not isinstance(a, list):
          raise SqlError('Values referenced in UNNEST must be arrays')
        return [(v,) for v in a or []]
    else:
      right, rq = self.source(rf, ctes, scopes, env)
      rcols = right.cols
      if kind == 'INNER' and on is None and not using:
        raise SqlError('INNER JOIN must have an immediately following ON or '
                       'USING clause')
      if kind in ('LEFT', 'RIGHT', 'FULL') and on is None and not using:
        raise SqlError('%s JOIN must have an ON or USING clause' % kind)
    if lq & rq:
      raise SqlError('Duplicate table alias %s in the same FROM clause' %
                     sorted(lq & rq)[0])
    lw, rw = len(left.cols), len(rcols)
    cols = left.cols + rcols
    if using:
      li = [find(left.cols, [u]) for u in using]
      ri = [find(rcols, [u]) for u in using]
      for u, a, b in zip(using, li, ri):
        if a is None or b is None:
          raise SqlError('Column %s in USING clause not found on the %s side of '
                         'the join' % (u, 'left' if a is None else 'right'))
      if len(set(li)) < len(li):
        raise SqlError('Duplicate column in USING')
    elif on is not None:
      cond = self.comp(self.bind(on, list(scopes) + [cols], None, ctes))
    out = []
    if lateral:
      for l in left.rows:
        hit = False
        for r in right_rows(l):
          row = l + r
          if on is None or truth(cond(tuple(env) + (row,)), 'JOIN ON clause'):
            out.append(row)
            hit = True
        if kind == 'LEFT' and not hit:
          out.append(l + (None,) * rw)
    else:
      matched = set()
      index = None
      if using:
        index = {}
        for j, r in enumerate(right.rows):
          k = tuple(r[i] for i in ri)
          if None not in k:
            index.setdefault(tuple(map(join_key, k)), []).append(j)
      for l in left.rows:
        hit = False
        if using:
          k = tuple(l[i] for i in li)
          for v in k:
            if isinstance(v, list):
              raise SqlError('ARRAY in USING')
          cand = index.get(tuple(map(join_key, k)), ()) if None not in k else ()
        else:
          cand = range(len(right.rows))
        for j in cand:
          row = l + right.rows[j]
          if on is not None and not truth(cond(tuple(env) + (row,)),
                                          'JOIN ON clause'):
            continue
          out.append(row)
          matched.add(j)
          hit = True
        if not hit and kind in ('LEFT', 'FULL'):
          out.append(l + (None,) * rw)
      if kind in ('RIGHT', 'FULL'):
        for j, r in enumerate(right.rows):
          if j not in matched:
            out.append((None,) * lw + r)
      if using and index and left.rows:
        for i, j in zip(li, ri):
          a = next((l[i] for l in left.rows if l[i] is not None), None)
          b = next((r[j] for r in right.rows if r[j] is not None), None)
          if a is not None and b is not None and not comparable(a, b):
            raise SqlError('USING column has incompatible types %s and %s' % (
                type_of(a), type_of(b)))
    if using:
      merged = [Col((), u) for u in using]
      keep = []
      for i, c in enumerate(cols):
        hide = i in li or (i - lw) in ri and i >= lw
        keep.append(Col(c.quals, c.name, c.vis and not hide))
      if kind == 'RIGHT':
        pick = lambda row: tuple(row[lw + j] for j in ri)
      elif kind == 'FULL':
        pick = lambda row: tuple(row[i] if row[i] is not None else row[lw + j]
                                 for i, j in zip(li, ri))
      else:
        pick = lambda row: tuple(row[i] for i in li)
      out = [pick(row) + row for row in out]
      cols = merged + keep
    return Rel(cols, self.mixed(out)), lq | rq

  def run_select(self, s, ctes, scopes, env, order, limit):
    scopes = tuple(scopes)
    env = tuple(env)
    if s['from'] is not None:
      rel, _ = self.source(s['from'], ctes, scopes, env)
    else:
      rel = Rel([], [()])
    inner = list(scopes) + [rel.cols]
    rows = rel.rows
    self.ops += len(rows)
    if s['where'] is not None:
      w = self.bind(s['where'], inner, 'WHERE', ctes)
      f = self.comp(w)
      rows = [r for r in rows if truth(f(env + (r,)), 'WHERE clause')]
    # Expand stars.
    items = []
    for it in s['items']:
      if it[0] == 'star':
        if s['from'] is None:
          raise SqlError('SELECT * must have a FROM clause')
        exc = [x.lower() for x in it[2]]
        names = [(c.name or '').lower() for c in rel.cols]
        for x in exc:
          if x not in names:
            raise SqlError('Column %s in SELECT * EXCEPT list does not exist' % x)
        qual = it[1].lower() if it[1] else None
        found = False
        for i, c in enumerate(rel.cols):
          if qual is None:
            ok = c.vis
          else:
            ok = qual in c.quals
          if ok:
            found = True
            if (c.name or '').lower() not in exc:
              items.append((('col', len(scopes), i), c.name))
        if qual and not found:
          raise SqlError('Unrecognized name: %s' % it[1])
      else:
        e, alias = it[1], it[2]
        b = self.bind(e, inner, 'SELECT', ctes)
        if alias is None and e[0] == 'name':
          alias = e[1][-1]
        items.append((b, alias))
    aliases = {}
    for b, a in items:
      if a:
        aliases.setdefault(a.lower(), []).append(b)

    def bind_out(e, what):
      """Binds in GROUP BY, HAVING or ORDER BY, where aliases win."""
      if e[0] == 'name' and len(e[1]) == 1 and e[1][0].lower() in aliases:
        bs = aliases[e[1][0].lower()]
        if any(b != bs[0] for b in bs):
          raise SqlError('Name %s is ambiguous in %s' % (e[1][0], what))
        return bs[0]
      if e[0] == 'lit' and isinstance(e[1], int) and what != 'HAVING':
        if not 1 <= e[1] <= len(items):
          raise SqlError('%s is out of range in %s' % (e[1], what))
        return items[e[1] - 1][0]
      return self.bind(e, inner, what, ctes, aliases)

    having = bind_out(s['having'], 'HAVING') if s['having'] is not None else None
    orders = [(bind_out(e, 'ORDER BY'), d, n) for e, d, n in order]
    exprs = [b for b, _ in items] + [o[0] for o in orders] + (
        [having] if having is not None else [])
    keys = [bind_out(e, 'GROUP BY') for e in s['group'] or []]
    for k in keys:
      if has_agg(k) or has_win(k):
        raise SqlError('GROUP BY expression contains an aggregate or window '
                       'function')
    depth = len(scopes)
    grouped = s['group'] is not None or any(map(has_agg, exprs))
    if s['having'] is not None and not grouped:
      raise SqlError('HAVING without GROUP BY')
    if grouped:
      aggs = []
      for e in exprs:
        collect_aggs(e, aggs)
      kf = [self.comp(k) for k in keys]
      af = [self.agg(a) for a in aggs]
      groups = {}
      if s['group'] is None:
        groups[()] = ((), rows)
      else:
        for r in rows:
          k = tuple(f(env + (r,)) for f in kf)
          for v in k:
            if isinstance(v, list):
              raise SqlError('Grouping by expressions of type ARRAY is not '
                             'allowed')
          groups.setdefault(tuple(map(group_key, k)), (k, []))[1].append(r)
      new = []
      for k, rs in groups.values():
        new.append(k + tuple(f([env + (r,) for r in rs]) for f in af))
      rows = new
      slots = {}
      for i, k in enumerate(keys):
        slots.setdefault(k, ('col', depth, i))
      for i, a in enumerate(aggs):
        slots.setdefault(a, ('col', depth, len(keys) + i))
      rewrite = lambda e: replace_slots(e, slots, depth)
      items = [(rewrite(b), a) for b, a in items]
      orders = [(rewrite(b), d, n) for b, d, n in orders]
      if having is not None:
        f = self.comp(rewrite(having))
        rows = [r for r in rows if truth(f(env + (r,)), 'HAVING clause')]
    # Window functions.
    wins = []
    for e in [b for b, _ in items] + [o[0] for o in orders]:
      collect_wins(e, wins)
    if wins:
      rows = self.mixed(rows)
      width = len(rows[0]) if rows else 0
      extra = [self.window(w, rows, env) for w in wins]
      rows = [r + tuple(x[i] for x in extra) for i, r in enumerate(rows)]
      slots = {w: ('col', depth, width + i) for i, w in enumerate(wins)}
      rewrite = lambda e: replace_slots(e, slots, None)
      items = [(rewrite(b), a) for b, a in items]
      orders = [(rewrite(b), d, n) for b, d, n in orders]
    fs = [self.comp(b) for b, _ in items]
    of = [(self.comp(b), d, n) for b, d, n in orders]
    rows = self.mixed(rows)
    out = []
    for r in rows:
      e = env + (r,)
      out.append((tuple(f(e) for f in fs),
                  [OrdKey(f(e), d, n) for f, d, n in of]))
    if s['distinct']:
      seen = {}
      for o in out:
        for v in o[0]:
          if isinstance(v, list):
            raise SqlError('SELECT DISTINCT of ARRAY')
        seen.setdefault(tuple(map(group_key, o[0])), o)
      out = list(seen.values())
    if of:
      out.sort(key=lambda o: o[1])
    if limit is not None:
      out = out[:limit]
    return [a for _, a in items], [o[0] for o in out]

  # Binding: names -> ('col', depth, index).
  def bind(self, e, scopes, where, ctes, aliases=None):
    """where: the clause, which decides what is allowed."""
    b = lambda x: self.bind(x, scopes, where, ctes, aliases)
    k = e[0]
    if k == 'lit':
      return e
    if k == 'name':
      parts = e[1]
      if aliases and len(parts) == 1 and parts[0].lower() in aliases:
        bs = aliases[parts[0].lower()]
        if any(x != bs[0] for x in bs):
          raise SqlError('Name %s is ambiguous' % parts[0])
        return bs[0]
      for d in range(len(scopes) - 1, -1, -1):
        i = find(scopes[d], parts)
        if i is not None:
          return ('col', d, i)
      raise SqlError('Unrecognized name: %s' % '.'.join(parts))
    if k == 'call':
      _, name, args, star, distinct, nulls, order, limit, safe = e
      if name in AGGS:
        if where not in ('SELECT', 'HAVING', 'ORDER BY'):
          raise SqlError('Aggregate function %s not allowed in %s' % (
              name, where or 'FROM clause'))
      elif name in WINDOW_ONLY:
        raise SqlError('%s cannot be called without an OVER clause' % name)
      elif name not in STRICT_NUM and name not in OTHER_FUNCS:
        raise SqlError('Function not found: %s' % name)
      elif star or distinct or order or limit or nulls:
        raise SqlError('Bad arguments of %s' % name)
      inner = where if name not in AGGS else 'aggregate'
      g = lambda x: self.bind(x, scopes, inner, ctes, None if name in AGGS
                              else aliases)
      return ('call', name, tuple(map(g, args)), star, distinct, nulls,
              tuple((g(x), d, n) for x, d, n in order), limit, safe)
    if k == 'win':
      _, c, part, order, frame_ = e
      if where not in ('SELECT', 'ORDER BY'):
        raise SqlError('Analytic function not allowed in %s' % where)
      name = c[1]
      if name not in AGGS and name not in WINDOW_ONLY:
        raise SqlError('%s does not support an OVER clause' % name)
      g = lambda x: self.bind(x, scopes, 'SELECT', ctes)
      args = tuple(map(g, c[2]))
      for x in list(args) + [p for p in part]:
        if has_win(x):
          raise SqlError('Analytic functions cannot be nested')
      c2 = ('wcall', name, args, c[3], c[4], c[5], (), None, c[8])
      if c[6] or c[7]:
        raise SqlError('ORDER BY/LIMIT in an analytic aggregate')
      return ('win', c2, tuple(map(g, part)),
              tuple((g(x), d, n) for x, d, n in order), frame_)
    if k in ('scalar', 'exists', 'arraysub'):
      return (k, Sub(e[1], list(scopes), ctes))
    if k == 'insub':
      return (k, b(e[1]), Sub(e[2], list(scopes), ctes))
    if k == 'case':
      return ('case', b(e[1]) if e[1] is not None else None,
              tuple((b(w), b(t)) for w, t in e[2]),
              b(e[3]) if e[3] is not None else None)
    if k in ('in',):
      return ('in', b(e[1]), tuple(map(b, e[2])))
    if k == 'array':
      return ('array', tuple(map(b, e[1])))
    if k == 'cast':
      return ('cast', b(e[1]), e[2], e[3])
    if k in ('cmp', 'bin'):
      return (k, e[1], b(e[2]), b(e[3]))
    if k in ('and', 'or', 'inarr'):
      return (k, b(e[1]), b(e[2]))
    if k in ('not', 'neg'):
      return (k, b(e[1]))
    if k == 'isnull':
      return (k, b(e[1]), e[2])
    if k == 'isbool':
      return (k, b(e[1]), e[2], e[3])
    if k == 'between':
      return (k, b(e[1]), b(e[2]), b(e[3]))
    if k == 'idx':
      return (k, b(e[1]), e[2], b(e[3]))
    raise Unsupported(k)

  # Compilation: bound expression -> fn(env).
  def comp(self, e):
    k = e[0]
    c = self.comp
    if k == 'lit':
      v = e[1]
      return lambda env: v
    if k == 'col':
      d, i = e[1], e[2]
      return lambda env: env[d][i]
    if k == 'bin':
      op, f, g = e[1], c(e[2]), c(e[3])
      return lambda env: arith(op, f(env), g(env))
    if k == 'neg':
      f = c(e[1])
      def neg(env):
        v = f(env)
        return None if v is None else -num(v, 'unary minus')
      return neg
    if k == 'cmp':
      op, f, g = e[1], c(e[2]), c(e[3])
      return lambda env: compare(op, f(env), g(env))
    if k == 'and':
      f, g = c(e[1]), c(e[2])
      def and_(env):
        a = truth(f(env), 'AND argument')
        if a is False:
          return False
        b = truth(g(env), 'AND argument')
        if b is False:
          return False
        return None if a is None or b is None else True
      return and_
    if k == 'or':
      f, g = c(e[1]), c(e[2])
      def or_(env):
        a = truth(f(env), 'OR argument')
        if a is True:
          return True
        b = truth(g(env), 'OR argument')
        if b is True:
          return True
        return None if a is None or b is None else False
      return or_
    if k == 'not':
      f = c(e[1])
      def not_(env):
        a = truth(f(env), 'NOT argument')
        return None if a is None else not a
      return not_
    if k == 'isnull':
      f, neg_ = c(e[1]), e[2]
      return lambda env: (f(env) is None) != neg_
    if k == 'isbool':
      f, v, neg_ = c(e[1]), e[2], e[3]
      return lambda env: (truth(f(env)) is v) != neg_
    if k == 'between':
      f, g, h = c(e[1]), c(e[2]), c(e[3])
      def between(env):
        v = f(env)
        a, b = compare('>=', v, g(env)), compare('<=', v, h(env))
        if a is False or b is False:
          return False
        return None if a is None or b is None else True
      return between
    if k == 'in':
      f, gs = c(e[1]), [c(x) for x in e[2]]
      return lambda env: in_list(f(env), [g(env) for g in gs])
    if k == 'inarr':
      f, g = c(e[1]), c(e[2])
      return lambda env: in_list(f(env), g(env) or [])
    if k == 'array':
      gs = [c(x) for x in e[1]]
      return lambda env: [g(env) for g in gs]
    if k == 'cast':
      f, t, safe = c(e[1]), e[2], e[3]
      if safe:
        def sc(env):
          try:
            return cast(f(env), t)
          except SqlError:
            return None
        return sc
      return lambda env: cast(f(env), t)
    if k == 'case':
      whens = [(c(w), c(t)) for w, t in e[2]]
      els = c(e[3]) if e[3] is not None else (lambda env: None)
      if e[1] is None:
        def case(env):
          for w, t in whens:
            if truth(w(env), 'CASE condition'):
              return t(env)
          return els(env)
        return case
      f = c(e[1])
      def case_op(env):
        v = f(env)
        for w, t in whens:
          if compare('=', v, w(env)):
            return t(env)
        return els(env)
      return case_op
    if k == 'idx':
      f, kind, g = c(e[1]), e[2], c(e[3])
      def idx(env):
        arr, i = f(env), g(env)
        if arr is None or i is None:
          return None
        if not isinstance(arr, list):
          raise SqlError('Element access on %s' % type_of(arr))
        if not isinstance(i, int):
          raise SqlError('Array position must be INT64')
        if 'ORDINAL' in kind:
          i -= 1
        if 0 <= i < len(arr):
          return arr[i]
        if kind.startswith('SAFE'):
          return None
        raise SqlError('Array index %d is out of bounds' % i)
      return idx
    if k == 'scalar':
      sub = e[1]
      def scalar(env):
        cols, rows = self.run(sub.q, sub.ctes, sub.scopes, env)
        if len(cols) != 1:
          raise SqlError('Scalar subquery must have one column')
        if len(rows) > 1:
          raise SqlError('Scalar subquery produced more than one element')
        return rows[0][0] if rows else None
      return scalar
    if k == 'exists':
      sub = e[1]
      return lambda env: bool(self.run(sub.q, sub.ctes, sub.scopes, env)[1])
    if k == 'arraysub':
      sub = e[1]
      def arr_sub(env):
        cols, rows = self.run(sub.q, sub.ctes, sub.scopes, env)
        if len(cols) != 1:
          raise SqlError('ARRAY subquery must have one column')
        return [r[0] for r in rows]
      return arr_sub
    if k == 'insub':
      f, sub = c(e[1]), e[2]
      return lambda env: in_list(f(env), [
          r[0] for r in self.run(sub.q, sub.ctes, sub.scopes, env)[1]])
    if k == 'call':
      return self.comp_call(e)
    raise Unsupported('expression ' + k)

  def comp_call(self, e):
    name, args, safe = e[1], e[2], e[8]
    if name in AGGS:
      raise SqlError('Aggregate function %s in a wrong place' % name)
    fs = [self.comp(a) for a in args]
    f = self.scalar_fn(name, fs)
    if not safe:
      return f
    def safe_f(env):
      try:
        return f(env)
      except SqlError as err:
        if 'No matching' in str(err) or 'should be BOOL' in str(err):
          raise
        return None
    return safe_f

  def scalar_fn(self, name, fs):
    n = len(fs)

    def arity(lo, hi):
      if not lo <= n <= hi:
        raise SqlError('No matching signature for function %s with %d arguments'
                       % (name, n))
    if name in STRICT_NUM:
      lo, hi, fn = STRICT_NUM[name]
      arity(lo, hi)
      def strict(env):
        vs = [f(env) for f in fs]
        for v in vs:
          if v is not None and name not in ('GREATEST', 'LEAST'):
            num(v, name)
        if None in vs:
          return None
        return fn(*vs)
      return strict
    if name == 'IF':
      arity(3, 3)
      a, b, c = fs
      return lambda env: b(env) if truth(a(env), 'IF condition') else c(env)
    if name == 'COALESCE' or name == 'IFNULL':
      arity(1 if name == 'COALESCE' else 2, 99 if name == 'COALESCE' else 2)
      def coalesce(env):
        for f in fs:
          v = f(env)
          if v is not None:
            return v
        return None
      return coalesce
    if name == 'NULLIF':
      arity(2, 2)
      def nullif(env):
        a = fs[0](env)
        return None if compare('=', a, fs[1](env)) else a
      return nullif
    if name == 'CONCAT':
      arity(1, 99)
      def concat(env):
        vs = [f(env) for f in fs]
        for v in vs:
          if v is not None and not isinstance(v, str):
            raise SqlError('No matching signature for function CONCAT with %s' %
                           type_of(v))
        return None if None in vs else ''.join(vs)
      return concat
    if name == 'FARM_FINGERPRINT':
      arity(1, 1)
      def farm(env):
        v = fs[0](env)
        if v is None:
          return None
        if not isinstance(v, str):
          raise SqlError('No matching signature for FARM_FINGERPRINT with %s' %
                         type_of(v))
        return fingerprint(v)
      return farm
    if name == 'RAND':
      arity(0, 0)
      return lambda env: self.rng.random()
    if name == 'ARRAY_LENGTH':
      arity(1, 1)
      def alen(env):
        v = fs[0](env)
        return None if v is None else len(v)
      return alen
    if name == 'TIMESTAMP':
      arity(1, 1)
      def ts(env):
        v = fs[0](env)
        return to_timestamp(v, pd.Timestamp(0)) if isinstance(v, str) else v
      return ts
    if name in ('LOWER', 'UPPER', 'LENGTH'):
      arity(1, 1)
      fn = {'LOWER': str.lower, 'UPPER': str.upper, 'LENGTH': len}[name]
      def strf(env):
        v = fs[0](env)
        return None if v is None else fn(v)
      return strf
    if name in ('IS_NAN', 'IS_INF'):
      arity(1, 1)
      fn = math.isnan if name == 'IS_NAN' else math.isinf
      def isf(env):
        v = fs[0](env)
        return None if v is None else fn(v)
      return isf
    if name == 'ROUND':
      arity(1, 2)
      def rnd(env):
        v = fs[0](env)
        d = fs[1](env) if n > 1 else 0
        if v is None or d is None:
          return None
        m = 10.0 ** d
        return math.floor(abs(v) * m + .5) / m * (1 if v >= 0 else -1)
      return rnd
    raise Unsupported('function ' + name)

  def agg(self, e):
    """fn(list of envs) -> value of an aggregate call."""
    _, name, args, star, distinct, nulls, order, limit, _ = e
    for a in args:
      if has_agg(a):
        raise SqlError('Aggregations of aggregations are not allowed')
      if has_win(a):
        raise SqlError('Analytic function cannot be inside an aggregate')
    fs = [self.comp(a) for a in args]
    of = [(self.comp(x), d, n) for x, d, n in order]
    n = len(fs)
    if star and name != 'COUNT':
      raise SqlError('Argument * can only be used in COUNT(*)')
    want = {'COVAR_SAMP': 2, 'COVAR_POP': 2, 'CORR': 2, 'APPROX_QUANTILES': 2}
    if name == 'COUNT' and star:
      return len
    if n != want.get(name, 1):
      raise SqlError('No matching signature for aggregate function %s with %d '
                     'arguments' % (name, n))
    if (order or limit) and name not in ('ARRAY_AGG', 'STRING_AGG'):
      raise SqlError('%s does not support ORDER BY or LIMIT' % name)
    if nulls and name not in ('ARRAY_AGG', 'APPROX_QUANTILES'):
      raise SqlError('%s does not support IGNORE NULLS' % name)
    if name in ('COVAR_SAMP', 'COVAR_POP', 'CORR'):
      def cov(envs):
        ps = [(fs[0](v), fs[1](v)) for v in envs]
        for p in ps:
          for x in p:
            if x is not None:
              num(x, name)
        return covariance(name, [p for p in ps if None not in p])
      return cov
    f = fs[0]
    if name == 'APPROX_QUANTILES':
      if args[1][0] != 'lit':
        raise SqlError('Argument 2 of APPROX_QUANTILES must be a literal')
      parts = args[1][1]
      def quant(envs):
        xs = [x for x in (f(v) for v in envs) if x is not None]
        for x in xs:
          num(x, name)
        if not xs:
          return None
        return [quantile(xs, i / parts) for i in range(parts + 1)]
      return quant
    if name == 'ARRAY_AGG':
      def array(envs):
        if of:
          envs = sorted(envs, key=lambda v: [OrdKey(g(v), d, m)
                                             for g, d, m in of])
        xs = [f(v) for v in envs]
        if nulls == 'ignore':
          xs = [x for x in xs if x is not None]
        if distinct:
          raise Unsupported('ARRAY_AGG DISTINCT')
        if limit is not None:
          xs = xs[:limit]
        return xs or None
      return array
    return lambda envs: plain_agg(name, [f(v) for v in envs], distinct)

  def window(self, w, rows, env):
    """Values of a window function for each row."""
    _, c, part, order, fr = w
    name, args, star, distinct = c[1], c[2], c[3], c[4]
    for x in list(args) + list(part) + [o[0] for o in order]:
      if has_agg(x):
        raise SqlError('aggregate in a window function after grouping')
    pf = [self.comp(p) for p in part]
    of = [(self.comp(x), d, n) for x, d, n in order]
    fs = [self.comp(a) for a in args]
    groups = {}
    for i, r in enumerate(rows):
      e = env + (r,)
      k = []
      for f in pf:
        v = f(e)
        if isinstance(v, float):
          raise SqlError('Partitioning by expressions of type FLOAT64 is not '
                         'allowed')
        if isinstance(v, list):
          raise SqlError('Partitioning by ARRAY')
        k.append(v)
      groups.setdefault(tuple(k), []).append(i)
    out = [None] * len(rows)
    for idx in groups.values():
      if of:
        ks = {i: [OrdKey(f(env + (rows[i],)), d, n) for f, d, n in of]
              for i in idx}
        idx = sorted(idx, key=lambda i: ks[i])
      n = len(idx)
      if name == 'ROW_NUMBER':
        for p, i in enumerate(idx):
          out[i] = p + 1
        continue
      if name in ('RANK', 'DENSE_RANK'):
        if not of:
          raise SqlError('%s needs ORDER BY' % name)
        rank = dense = 0
        for p, i in enumerate(idx):
          if p == 0 or not same_keys(ks[i], ks[idx[p - 1]]):
            rank, dense = p + 1, dense + 1
          out[i] = rank if name == 'RANK' else dense
        continue
      if name in ('LAG', 'LEAD'):
        if not of:
          raise SqlError('Window ORDER BY is required for %s' % name)
        if fr:
          raise SqlError('%s does not support a window frame' % name)
        off = 1
        if len(args) > 1:
          if args[1][0] not in ('lit',):
            raise Unsupported('offset expression')
          off = args[1][1]
          if not isinstance(off, int) or off < 0:
            raise SqlError('The offset of %s must be a non-negative integer' %
                           name)
        step = -off if name == 'LAG' else off
        for p, i in enumerate(idx):
          q = p + step
          if 0 <= q < n:
            out[i] = fs[0](env + (rows[idx[q]],))
          elif len(args) > 2:
            out[i] = fs[2](env + (rows[i],))
        continue
      if name in ('FIRST_VALUE', 'LAST_VALUE'):
        frame_fn = lambda vs: (vs[0] if name == 'FIRST_VALUE' else vs[-1]
                               ) if vs else None
      elif name in AGGS:
        if name in ('APPROX_QUANTILES', 'ARRAY_AGG'):
          raise SqlError('%s does not support an OVER clause' % name)
        if star:
          frame_fn = len
        elif name in ('COVAR_SAMP', 'COVAR_POP', 'CORR'):
          frame_fn = lambda vs: covariance(name, [v for v in vs
                                                  if None not in v])
        else:
          frame_fn = lambda vs: plain_agg(name, vs, distinct)
      else:
        raise Unsupported('window function ' + name)
      if star:
        vals = [1] * n
      elif len(fs) == 1:
        vals = [fs[0](env + (rows[i],)) for i in idx]
      else:
        vals = [tuple(f(env + (rows[i],)) for f in fs) for i in idx]
      spec = fr or (('RANGE', ('start',), ('cur',)) if of else
                    ('ROWS', ('start',), ('stop',)))
      if spec[0] == 'RANGE' and any(b[0] == 'off' for b in spec[1:]):
        raise Unsupported('RANGE offset')
      memo = None
      for p, i in enumerate(idx):
        lo, hi = self.bound(spec, 1, p, idx, n, of and ks), self.bound(
            spec, 2, p, idx, n, of and ks)
        if (lo, hi) != (memo and memo[0]):
          memo = ((lo, hi), frame_fn(vals[max(lo, 0):max(hi + 1, 0)]))
        out[i] = memo[1]
    return out

  @staticmethod
  def bound(spec, which, p, idx, n, ks):
    b = spec[which]
    if b[0] == 'start':
      return 0
    if b[0] == 'stop':
      return n - 1
    if b[0] == 'off':
      return p + b[1]
    if spec[0] == 'ROWS':
      return p
    if not ks:
      return 0 if which == 1 else n - 1
    step = -1 if which == 1 else 1
    q = p
    while 0 <= q + step < n and same_keys(ks[idx[q + step]], ks[idx[p]]):
      q += step
    return q


class Sub:
  """A sub-query bound to the scopes around it."""

  def __init__(self, q, scopes, ctes):
    self.q, self.scopes, self.ctes = q, scopes, ctes


def same_keys(a, b):
  return all(x == y for x, y in zip(a, b))


def join_key(v):
  return ('n', float(v)) if is_num(v) else (type_of(v), v)


def group_key(v):
  if isinstance(v, list):
    return ('a', tuple(v))
  return ('n', v) if is_num(v) else (type_of(v), v)


def in_list(v, xs):
  if v is None:
    return None
  unknown = False
  for x in xs:
    r = compare('=', v, x)
    if r:
      return True
    unknown |= r is None
  return None if unknown else False


def covariance(name, ps):
  n = len(ps)
  if n == 0 or (name != 'COVAR_POP' and n < 2):
    return None
  mx = math.fsum(p[0] for p in ps) / n
  my = math.fsum(p[1] for p in ps) / n
  sxy = math.fsum((p[0] - mx) * (p[1] - my) for p in ps)
  if name == 'CORR':
    sx = math.fsum((p[0] - mx) ** 2 for p in ps)
    sy = math.fsum((p[1] - my) ** 2 for p in ps)
    d = math.sqrt(sx * sy)
    return sxy / d if d else float('nan')
  return sxy / (n - 1 if name == 'COVAR_SAMP' else n)


def plain_agg(name, vals, distinct):
  """Aggregates of one argument."""
  if name == 'COUNTIF':
    return sum(1 for v in vals if truth(v, 'COUNTIF argument'))
  vals = [v for v in vals if v is not None]
  if distinct:
    vals = list({group_key(v): v for v in vals}.values())
  if name == 'COUNT':
    return len(vals)
  if name == 'APPROX_COUNT_DISTINCT':
    return len({group_key(v) for v in vals})
  if name in ('LOGICAL_AND', 'LOGICAL_OR'):
    for v in vals:
      truth(v, name)
    if not vals:
      return None
    return all(vals) if name == 'LOGICAL_AND' else any(vals)
  if name == 'STRING_AGG':
    raise Unsupported(name)
  if not vals:
    return None
  if name == 'ANY_VALUE':
    return vals[0]
  if name in ('MIN', 'MAX'):
    for v in vals[1:]:
      if not comparable(vals[0], v):
        raise SqlError('%s over mixed types' % name)
    return min(vals) if name == 'MIN' else max(vals)
  for v in vals:
    num(v, 'aggregate function ' + name)
  if name == 'SUM':
    return fsum(vals)
  if name == 'AVG':
    return math.fsum(vals) / len(vals)
  n, m, ss = moments(vals)
  if name in ('VAR_POP', 'STDDEV_POP'):
    v = ss / n
  else:
    if n < 2:
      return None
    v = ss / (n - 1)
  return math.sqrt(v) if name.startswith('STDDEV') else v


def children(e):
  """Sub-expressions of a bound expression (not into sub-queries)."""
  k = e[0]
  if k in ('lit', 'col', 'scalar', 'exists', 'arraysub'):
    return []
  if k in ('call', 'wcall'):
    return list(e[2]) + [o[0] for o in e[6]]
  if k == 'win':
    return list(e[1][2]) + list(e[2]) + [o[0] for o in e[3]]
  if k == 'case':
    return [x for x in [e[1], e[3]] if x is not None] + [
        y for w in e[2] for y in w]
  if k == 'in':
    return [e[1]] + list(e[2])
  if k == 'array':
    return list(e[1])
  return [x for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)]


def has_agg(e):
  if e[0] == 'call' and e[1] in AGGS:
    return True
  return any(map(has_agg, children(e)))


def has_win(e):
  return e[0] == 'win' or any(map(has_win, children(e)))


def collect_aggs(e, out):
  if e[0] == 'call' and e[1] in AGGS:
    if e not in out:
      out.append(e)
    return
  for c in children(e):
    collect_aggs(c, out)


def collect_wins(e, out):
  if e[0] == 'win':
    if e not in out:
      out.append(e)
    return
  for c in children(e):
    collect_wins(c, out)


def replace_slots(e, slots, depth):
  """Replaces group keys and aggregates; other columns of depth are errors."""
  try:
    if e in slots:
      return slots[e]
  except TypeError:
    pass
  k = e[0]
  r = lambda x: replace_slots(x, slots, depth)
  if k == 'col':
    if depth is not None and e[1] == depth:
      raise SqlError('SELECT list expression references a column which is neither '
                     'grouped nor aggregated (column #%d)' % e[2])
    return e
  if k in ('lit',):
    return e
  if k in ('scalar', 'exists', 'arraysub'):
    if depth is not None and sub_uses(e[1], depth):
      raise Unsupported('correlated sub-query in an aggregation')
    return e
  if k in ('call', 'wcall'):
    return e[:2] + (tuple(map(r, e[2])),) + e[3:6] + (
        tuple((r(x), d, n) for x, d, n in e[6]),) + e[7:]
  if k == 'win':
    return ('win', r(e[1]), tuple(map(r, e[2])),
            tuple((r(x), d, n) for x, d, n in e[3]), e[4])
  if k == 'case':
    return ('case', r(e[1]) if e[1] is not None else None,
            tuple((r(a), r(b)) for a, b in e[2]),
            r(e[3]) if e[3] is not None else None)
  if k == 'in':
    return ('in', r(e[1]), tuple(map(r, e[2])))
  if k == 'array':
    return ('array', tuple(map(r, e[1])))
  return tuple(r(x) if isinstance(x, tuple) and x and isinstance(x[0], str)
               else x for x in e)


def sub_uses(sub, depth):
  return bool(sub.scopes and len(sub.scopes) > depth and sub.scopes[depth])


# Tables.
def load(df):
  """A table of the database from a DataFrame; missing values are NULL."""
  cols = [str(c) for c in df.columns]
  data = []
  for i in range(df.shape[1]):
    s = df.iloc[:, i]
    vals = []
    for v in s.tolist():
      if v is None or v is pd.NaT or (isinstance(v, float) and math.isnan(v)):
        vals.append(None)
      elif isinstance(v, (np.bool_, bool)):
        vals.append(bool(v))
      elif isinstance(v, (np.integer, int)):
        vals.append(int(v))
      elif isinstance(v, (np.floating, float)):
        vals.append(float(v))
      else:
        vals.append(v)
    data.append(vals)
  return cols, list(zip(*data)) if data else []


def frame(cols, rows):
  """The DataFrame a client library would return."""
  data = {}
  for i, c in enumerate(cols):
    vals = [r[i] for r in rows]
    for v in vals:
      if isinstance(v, list) and None in v:
        raise SqlError('Array cannot have a null element')
    some = [v for v in vals if v is not None]
    if some and all(is_num(v) for v in some):
      if any(isinstance(v, float) for v in some) or len(some) < len(vals):
        vals = [float('nan') if v is None else float(v) for v in vals]
      data[i] = pd.Series(vals)
    elif not some and vals:
      data[i] = pd.Series([float('nan')] * len(vals))
    elif not vals:
      data[i] = pd.Series([], dtype='float64')
    elif all(isinstance(v, bool) for v in vals):
      data[i] = pd.Series(vals, dtype=bool)
    else:
      data[i] = pd.Series(vals, dtype=object)
  df = pd.DataFrame(data)
  df.columns = list(cols)
  return df


def database(tables, seed=0, shuffle=True, log=None):
  """An engine whose .execute is what compute_on_sql takes."""
  return Engine({k: load(v) for k, v in tables.items()}, seed, shuffle, log)
