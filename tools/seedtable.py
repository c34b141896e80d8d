#!/usr/bin/env python3
"""prints the table of planted bugs (catch results are in tools/caught.json)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
print('| planted bug | breaks | needs | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    print('| %s | %s: %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], ', '.join(c.get(d, [])) or '**missed**'))
