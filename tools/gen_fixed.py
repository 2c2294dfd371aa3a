"""Writes the "fixed:" entries of known_findings.txt from /repo's history."""
import re
import subprocess

PATH = '/verif/known_findings.txt'


def main():
  log = subprocess.run(
      ['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x1f%s%x1f%b%x1e'],
      capture_output=True, text=True, check=True).stdout
  lines = []
  for entry in log.split('\x1e'):
    parts = entry.strip().split('\x1f')
    if len(parts) < 3 or not parts[1].startswith('fix:'):
      continue
    for m in re.finditer(
        r'property=((?:C\d\d)(?:,? *C\d\d)*),?\s*(.*)', parts[2]):
      text = m.group(2).strip() or parts[1][5:]
      for p in re.findall(r'C\d\d', m.group(1)):
        lines.append('fixed: property=%s %s %s' % (p, parts[0], text))
  try:
    with open(PATH, encoding='utf-8') as f:
      old = f.read().splitlines()
  except OSError:
    old = []
  keep = [x for x in old if not x.startswith('fixed:')]
  with open(PATH, 'w', encoding='utf-8') as f:
    f.write('\n'.join(keep + lines) + '\n')
  print(len(lines), 'fixed entries', len([
      x for x in keep if x.startswith('known:')]), 'known')


main()
