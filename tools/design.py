"""assembles DESIGN.md from its parts, the findings file and the planted bugs"""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
rd = lambda p: open(os.path.join(H, p)).read().rstrip() + '\n\n'
out = rd('design_body.md') + rd('design_props.md')
out += '## Planted bugs and the checks that catch them\n\nAll are caught by the quick check of their property.\n\n| id | check | needs |\n|---|---|---|\n'
ms = []
for p in glob.glob(os.path.join(R, 'seeded', '*', 'meta.json')):
    m = json.load(open(p)); ms.append((m['property'], os.path.basename(os.path.dirname(p)), m['needs']))
for p, i, n in sorted(ms): out += '| %s | %s | %s |\n' % (i, p, n.replace('|', '/').replace('\n', ' '))
k = [l.rstrip() for l in open(glob.glob(os.path.join(R, 'known_findings*'))[0])]
out += '\n## Genuine defects\n\n%d were repaired in /repo (commits "fix: ..."; listed one by one in the findings file). Recorded and not repaired:\n\n' % sum(l.startswith('fixed:') for l in k)
for l in k:
    if l.startswith('finding:'): out += '* ' + l[9:] + '\n'
out += '\n' + rd('design_tail.md')
open(os.path.join(R, 'DESIGN.md'), 'w').write(out.rstrip() + '\n')
