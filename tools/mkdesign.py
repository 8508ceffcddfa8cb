#!/usr/bin/env python3
"""Write the tail of DESIGN.md (everything after the mark) from tools/design_src.py and the last evidence"""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(D + '/tools/design_src.py').read(), ns)
props = {json.loads(l)['id']: json.loads(l) for l in open(D + '/properties.jsonl')}
out = [ns['tail']]
for pid, short, text in ns['P']:
    ev = D + '/evidence/%s.json' % pid
    out.append('### %s %s\n%s\n' % (pid, short, text))
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e['coverage']
        out.append('Cost (quick): %d cases, %d paths, %d goals (%d by normal form, %d by z3), %.0f s wall. Outside: %s.\n' % (
            len(c['cases']), c['states'], c['goals'], c['goals_by_polynomial_normal_form'], c['goals_by_z3'], e['wall_s'], c['outside']))
    out.append('Beyond the tests: %s\n' % props[pid]['why_tests_cant'].strip())
out.append(ns['end'])
s = open(D + '/DESIGN.md').read()
M = '<!-- generated: tools/mkdesign.py -->\n'
open(D + '/DESIGN.md', 'w').write(s.split(M)[0].rstrip() + '\n\n' + M + '\n'.join(out))
