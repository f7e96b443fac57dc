#!/usr/bin/env python3
# rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| Planted change | Caught by | Needs | What it breaks |','|---|---|---|---|']
for d in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(R+'/seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s | %s |'%(d,m['property'],m['needs'],m['what_it_breaks']))
t=open(R+'/DESIGN.md').read()
i=t.index('| Planted change |') if '| Planted change |' in t else t.index('@@SEEDS@@')
j=t.index('\n## 4.')
open(R+'/DESIGN.md','w').write(t[:i]+'\n'.join(rows)+'\n\nSurvivors of further hand-made changes (about 250) and of a mutation campaign were used to strengthen the checks; those that stay undetected at the quick size are rare numerical paths (e.g. a stale fractional flow in the compressible transport solver over multi-step epochs) or have no observable effect.\n'+t[j:])
