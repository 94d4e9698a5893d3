#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/."""
import json, glob, os, re
from collections import defaultdict
d = defaultdict(list)
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)))
t = '\n'.join('| %s | %s |' % (k, ', '.join(x[4:] for x in v)) for k, v in sorted(d.items()))
p = '/verif/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\|---\|---\|\n)(\| R\d\d .*\n)+', lambda m: m.group(1) + t + '\n', s)
open(p, 'w').write(s)
