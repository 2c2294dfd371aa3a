"""A small polyhedral domain: conjunctions of linear inequalities.

An expression is a dict symbol -> integer coefficient, with the constant under
the key 1. A constraint is an expression that is >= 0. Entailment is decided
by Fourier-Motzkin elimination over the rationals (with strict integer
negation), which is sound for integers.
"""

from fractions import Fraction


def const(i):
  return {1: Fraction(i)} if i else {}


def sym(s):
  return {s: Fraction(1)}


def add(a, b, k=1):
  out = dict(a)
  for s, c in b.items():
    v = out.get(s, 0) + k * c
    if v:
      out[s] = v
    else:
      out.pop(s, None)
  return out


def scale(a, k):
  return {s: c * k for s, c in a.items()} if k else {}


def is_const(a):
  return all(s == 1 for s in a)


def value(a):
  return int(a.get(1, 0))


def feasible(cons):
  """False when the constraints cannot hold together."""
  cons = [dict(c) for c in cons]
  while True:
    keep = []
    for c in cons:
      if is_const(c):
        if c.get(1, 0) < 0:
          return False
      else:
        keep.append(c)
    cons = keep
    if not cons:
      return True
    count = {}
    for c in cons:
      for s in c:
        if s != 1:
          p, n = count.get(s, (0, 0))
          count[s] = (p + (c[s] > 0), n + (c[s] < 0))
    s = min(count, key=lambda x: (count[x][0] * count[x][1], str(x)))
    pos = [c for c in cons if c.get(s, 0) > 0]
    neg = [c for c in cons if c.get(s, 0) < 0]
    rest = [c for c in cons if s not in c]
    for p in pos:
      for n in neg:
        rest.append(add(scale(p, -n[s]), scale(n, p[s])))
    uniq = {}
    for c in rest:
      uniq[tuple(sorted(c.items(), key=str))] = c
    cons = list(uniq.values())
    if len(cons) > 4000:
      return True


def entails(cons, goal):
  """Whether goal >= 0 follows."""
  neg = add(scale(goal, -1), const(-1))
  return not feasible(list(cons) + [neg])


def entails_eq(cons, a, b):
  d = add(a, b, -1)
  return entails(cons, d) and entails(cons, scale(d, -1))
