#!/usr/bin/env python3
# rewrites the table of planted changes in DESIGN.md (between the two markers)
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| change | needs | breaks | caught by |','|---|---|---|---|']
for d in sorted(glob.glob(R+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append('| %s | %s | %s | %s |'%(os.path.basename(d),m['needs'],m['what_it_breaks'],m.get('caught_by',m['property'])))
p=R+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:'<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->',s,flags=re.S); open(p,'w').write(s)
