"""rewrites the table of seeded changes at the end of DESIGN.md"""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = here + '/DESIGN.md'; L = open(p).read().split('\n')
i = max(n for n, l in enumerate(L) if l.startswith('| C') and n > next(k for k, l in enumerate(L) if l.startswith('## 7. Seeded')))
j = i
while L[j].startswith('| C'): j -= 1
rows = ['| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '\\|'))
        for d in sorted(glob.glob(here + '/seeded/*/meta.json')) for m in [json.load(open(d))]]
open(p, 'w').write('\n'.join(L[:j + 1] + rows + L[i + 1:]))
