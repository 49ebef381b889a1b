#!/usr/bin/env python3
"""Records in design/seeds.json whether the check of a property caught a planted bug."""
import json, sys
f = '/verif/design/seeds.json'
try: d = json.load(open(f))
except OSError: d = {}
i, p, ok = sys.argv[1:]
s = set(d.get(i, []))
s.add(p) if ok == '1' else s.discard(p)
d[i] = sorted(s)
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
