"""Writes MANIFEST.json."""
import json

CHECKS = {
    'C01': ('whole-program constant propagation of layout names and decoding '
            'contexts, and closure of the definitions that are reached',
            'every request for a data type and every decoding call site is '
            'resolved to the definitions that can reach it'),
    'C02': ('whole-program abstract interpretation that types each decoded '
            'structure by its layout',
            'every field read is checked against every layout that can reach '
            'it'),
    'C03': ('abstract interpretation with debug output enabled, over the '
            'debug definitions as data',
            'every entry of every definition that is printed is resolved to '
            'a field and a formatter, and the formatter is analysed with the '
            'type of the field'),
    'C04': ('whole-program effect and control dependence analysis of the code '
            'that only runs when debug output is enabled',
            'every construct, effect, name and file position under a debug '
            'branch is followed to its uses'),
    'C05': ('whole-program exception flow analysis: origins of exceptions are '
            'derived from abstract values and followed to entry points',
            'every operation that can raise is judged and every exception '
            'that can leave a public method is reported with its origin'),
    'C06': ('interprocedural taint and typestate analysis of data that a read '
            'can return short',
            'every read is followed to each use of its data'),
    'C07': ('ranking measures of loops and recursions by an interprocedural '
            'relational dataflow analysis',
            'every while loop, every for loop and every call on a cycle of '
            'the call graph needs a measure on each path'),
    'C09': ('whole-program effect analysis of ambient inputs and of unordered '
            'iterations',
            'every library call, iteration, text form and open is judged'),
    'C11': ('interprocedural typestate and ownership analysis of open files '
            'over every path, with exception edges from whole-program '
            'exception flow',
            'every opening call is followed to every exit; every owner class '
            'is checked in every state its open methods can leave'),
    'C12': ('whole-program abstract interpretation of the readers of a format '
            'with a field restricted to the values that are not supported, '
            'and a typestate of the states that met such data; the layouts '
            'that are reached for each supported value',
            'every value of each listed field is covered by an interval or '
            'set; versions that are composed as text by representative '
            'numbers'),
    'C13': ('normalisation of every data definition and comparison with the '
            'documented tables and the reviewed layouts; whole-program '
            'constant propagation of the layouts that are asked for',
            'every definition and every documented table that has one; '
            'layouts with no table are compared with the reviewed layout '
            'only'),
    'C14': ('whole-program type, shape and definedness inference in both '
            'debug modes',
            'every expression of every analysed function is typed per calling '
            'context'),
    'C08': ('whole-program effect analysis (abstract interpretation of every '
            'entry point) plus an allow list over every external reference',
            'every function reachable from an entry point is analysed; the '
            'modes of file opens come from the abstract values'),
    'C10': ('whole-program abstract interpretation with allocation-site '
            'ownership of class and module level objects',
            'every write to a list, dict or set that a class or module owns '
            'is found through aliases and calls'),
    'C15': ('disjunctive linear-inequality analysis of the DataRange methods',
            'each path of each method is checked against the range contract'),
    'C16': ('interval analysis of the return values of the hash functions',
            'each return statement is bounded for every input'),
    'C17': ('whole-program effect and ownership analysis of file access and '
            'of the file system helper that parsers are created with',
            'every access of a file system function and every constructor '
            'call is judged'),
    'C18': ('path analysis of the Main function of every script and of the '
            'guard that turns its result into the exit status',
            'every path of Main up to its return is enumerated'),
    'C19': ('whole-program exception flow analysis of what each handler '
            'catches and whether it can complete',
            'every handler, finally clause and suppression is judged'),
    'C20': ('symbolic derivation (reaching definitions over sums of fields, '
            'constants and loop variables) of every position, size and '
            'source that data is taken from, compared with the reviewed ones',
            'every place that seeks, reads or decodes outside debug output, '
            'and all parameters, attributes and results these depend on'),
}

NOT_APPLICABLE = {}


def main():
  with open('/verif/properties.jsonl', encoding='utf-8') as f:
    ids = [json.loads(x)['id'] for x in f if x.strip()]
  checks = []
  for i in ids:
    if i in CHECKS:
      technique, note = CHECKS[i]
      checks.append({
          'property': i, 'quick_cmd': './run.py %s quick' % i,
          'thorough_cmd': './run.py %s thorough' % i,
          'technique': 'static analysis: ' + technique,
          'level': 'other', 'level_note': note})
  na = [{'property': i, 'reason': NOT_APPLICABLE.get(
      i, 'no check is built for it yet')} for i in ids if i not in CHECKS]
  with open('/verif/MANIFEST.json', 'w', encoding='utf-8') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
               'not_applicable': na}, f, indent=2)
    f.write('\n')


main()
