'''regenerate the list of fixed defects in known_findings.json'''
import json
import os
import subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {'27fef91': 'C02', 'a35766e': 'C02', '94d52b2': 'C02', '0b6ad66': 'C01',
     '560ea2d': 'C02', 'c260900': 'C26', 'ba14d9f': 'C03', 'a10c56e': 'C06',
     '0e7978a': 'C07', 'fd7525a': 'C04', '555941a': 'C04', 'ab64df5': 'C02',
     '425c9e6': 'C11', '05de26a': 'C02', '03c4557': 'C14', '3de7825': 'C23',
     'e5c039a': 'C25', 'bbae9fe': 'C15', '768f7bf': 'C19', '1f6fa3e': 'C15',
     'e052c4c': 'C15', '41a8bee': 'C22', 'ed366dd': 'C22', '72f0210': 'C17',
     'c9ddbd7': 'C17', '8fc3029': 'C17', '2f08803': 'C17', '0c87226': 'C17',
     '4a3d6c9': 'C21', '6a098cc': 'C21', '86d1fc0': 'C21', 'ef711ac': 'C03',
     '6ba89e7': 'C13'}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
                     capture_output=True, text=True).stdout.split('\n')
f = os.path.join(R, 'known_findings.json')
d = json.load(open(f)) if os.path.exists(f) else {'findings': []}
extra = os.path.join(R, 'tools', 'fixed_map.json')
if os.path.exists(extra):
    P.update(json.load(open(extra)))
d['fixed'] = []
for l in log:
    h, _, s = l.partition(' ')
    if s.startswith('fix:'):
        d['fixed'].append('fixed: property=%s %s %s'
                          % (P[h[:7]], h, s[5:]))
json.dump(d, open(f, 'w'), indent=1)
