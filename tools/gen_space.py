'''update the columns S / T / R and wall of the table in section 2 of DESIGN.md
from the evidence of the last runs of the quick tier'''
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def short(n):
    return '%.1fM' % (n / 1e6) if n >= 1e6 else \
        '%dk' % round(n / 1e3) if n >= 1000 else str(n)


out = []
for line in open(R + '/DESIGN.md').read().split('\n'):
    m = re.match(r'\| (C\d\d) \|', line)
    f = R + '/evidence/%s.json' % (m and m.group(1))
    if m and line.count('|') == 6 and os.path.exists(f):
        e = json.load(open(f))
        c = e['coverage']
        if e['tier'] == 'quick':
            p = line.split('|')
            p[4] = ' %s / %s / %s ' % (
                short(c['states']), short(c['transitions']),
                short(c['traces_validated_against_impl']))
            p[5] = ' %d s ' % round(e['wall_s'])
            line = '|'.join(p)
    out.append(line)
open(R + '/DESIGN.md', 'w').write('\n'.join(out))
