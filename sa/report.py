"""Verdicts: findings, known findings, evidence."""

import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
EVIDENCE = os.path.join(VERIF, 'evidence')


class Finding:
  """A construct that breaks a rule."""

  def __init__(self, rule, where, construct, text, line=0):
    self.rule = rule
    self.where = where          # file:function
    self.construct = construct
    self.text = text
    self.line = line

  @property
  def key(self):
    return '%s | %s | %s' % (self.rule, self.where, self.construct)

  def as_dict(self):
    return {'rule': self.rule, 'where': self.where, 'line': self.line,
            'construct': self.construct, 'text': self.text, 'key': self.key}


def known():
  """property -> set of keys of the findings that were not repaired."""
  out = {}
  if os.path.exists(KNOWN):
    with open(KNOWN, encoding='utf8') as f:
      for line in f:
        line = line.strip()
        if line.startswith('known: property='):
          pid, _, key = line[len('known: property='):].partition(' ')
          out.setdefault(pid, set()).add(key.strip())
  return out


class Report:
  """Collects what one check did."""

  def __init__(self, pid, tier='quick'):
    self.pid = pid
    self.tier = tier
    self.findings = {}
    self.counts = {}
    self.rules = []
    self.assumptions = []
    self.samples = []
    self.t0 = time.time()

  def rule(self, text):
    if text not in self.rules:
      self.rules.append(text)

  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + n

  def sample(self, text):
    if len(self.samples) < 20:
      self.samples.append(text)

  def assume(self, text):
    if text not in self.assumptions:
      self.assumptions.append(text)

  def add(self, rule, where, construct, text, line=0):
    f = Finding(rule, where, construct, text, line)
    self.findings.setdefault(f.key, f)

  def need(self, name, minimum):
    """The analysis is blind when fewer instances than this were seen."""
    if self.counts.get(name, 0) < minimum:
      raise Broken('only %d %s were found (at least %d expected): the '
                   'analysis can give no verdict' % (
                       self.counts.get(name, 0), name, minimum))

  def finish(self):
    os.makedirs(EVIDENCE, exist_ok=True)
    kn = known().get(self.pid, set())
    new = [f for k, f in sorted(self.findings.items()) if k not in kn]
    old = [f for k, f in sorted(self.findings.items()) if k in kn]
    if new:
      source_lines(new)
    for f in old:
      print('KNOWN-FINDING: property=%s %s %s' % (
          self.pid, f.key, f.text))
    wall = time.time() - self.t0
    ev = {
        'property': self.pid,
        'tier': self.tier,
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the source in /repo. Rules: ' +
                           ' '.join(self.rules),
            'obligations': sum(
                v for k, v in self.counts.items() if k.startswith('ob:')) or
                           sum(self.counts.values()),
            'analysed': {k.replace('ob:', ''): v
                         for k, v in sorted(self.counts.items())},
            'samples': self.samples[:20],
            'known_findings': [f.key for f in old],
            'findings': [f.as_dict() for f in new],
        },
        'assumptions': self.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    path = os.path.join(EVIDENCE, self.pid + '.json')
    with open(path, 'w', encoding='utf8') as f:
      json.dump(ev, f, indent=1, sort_keys=True)
      f.write('\n')
    print('%s: %s' % (self.pid, ', '.join(
        '%s %d' % (k.replace('ob:', ''), v)
        for k, v in sorted(self.counts.items()))))
    if not new:
      print('%s: holds (%d known findings, %.1f s)' % (
          self.pid, len(old), wall))
      return 0
    replay = os.path.join(EVIDENCE, self.pid + '.violations.txt')
    with open(replay, 'w', encoding='utf8') as f:
      for x in new:
        f.write('%s:%d: [%s] %s: %s\n' % (
            x.where, x.line, x.rule, x.construct, x.text))
    for x in new[:40]:
      print('%s:%d: [%s] %s: %s' % (
          x.where, x.line, x.rule, x.construct, x.text))
    print('VIOLATION property=%s replay=%s' % (self.pid, replay))
    return 1


def source_lines(findings):
  """Gives findings the lines of the source as it is in the repository."""
  from sa import inline  # pylint: disable=import-outside-toplevel
  try:
    table = inline.source_lines()
  except (OSError, SyntaxError, ValueError):
    return
  for f in findings:
    lines = table.get(f.where.split(':')[0])
    if lines:
      f.line = lines.get(f.line, f.line)


class Broken(Exception):
  """No verdict."""
