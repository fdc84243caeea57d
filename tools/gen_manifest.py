'''regenerate MANIFEST.json from properties.jsonl and the check modules'''
import importlib.util
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'order': 'explicit-state model checking: exhaustive enumeration of '
             'operation histories / partial orders up to a bound, every one '
             'executed on the real code and compared with a reference model',
    'space': 'explicit-state model checking: exhaustive enumeration of all '
             'point configurations on finite coordinate lattices and of all '
             'parameter settings up to a bound, executed on the real code and '
             'compared with an independent reference model',
    'rng': 'stateless model checking: the random generator is replaced by a '
           'controlled one and all tapes of outcomes on a finite grid are '
           'explored on the real code',
    'plot': 'explicit-state model checking: exhaustive enumeration of plot '
            'states (causets x options) with recording axes, compared with a '
            'reference model of what has to be drawn',
}
KIND = {}
for i in range(1, 14):
    KIND['C%02d' % i] = 'order'
for i in (14, 15, 16, 19, 23, 24, 25, 26):
    KIND['C%02d' % i] = 'space'
KIND['C27'] = 'order'
for i in (17, 18):
    KIND['C%02d' % i] = 'rng'
for i in (20, 21, 22):
    KIND['C%02d' % i] = 'plot'
NOTE = ('Holds for every element of the finite space described in the '
        'evidence (families, bounds, exhaustive flag), each executed on the '
        'code in /repo; nothing is claimed beyond these bounds. Trusts the '
        'reference model in mc/ and CPython/numpy/matplotlib.')


def main():
    props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(R, 'mc', 'checks', i.lower() + '.py')
        if not os.path.exists(f):
            na.append({'property': i, 'reason': 'no check has been built yet'})
            continue
        checks.append({
            'property': i,
            'quick_cmd': './run.sh %s' % i,
            'thorough_cmd': './run.sh %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH[KIND[i]],
            'level': 'model_checking',
            'level_note': NOTE})
    m = {'version': 1, 'setup_cmd': './run.sh --selftest',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: everything is observed through the '
                  'public interface. See DESIGN.md.'}
    with open(os.path.join(R, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
