import json,glob,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| id | property | what it needs |','|---|---|---|']
for d in sorted(glob.glob(ROOT+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
s=open(ROOT+'/DESIGN.md').read()
import re
if '@@BUGS@@' in s: s=s.replace('@@BUGS@@','<!-- bugs -->\n'+'\n'.join(rows)+'\n<!-- /bugs -->')
else: s=re.sub(r'<!-- bugs -->.*?<!-- /bugs -->',lambda m:'<!-- bugs -->\n'+'\n'.join(rows)+'\n<!-- /bugs -->',s,flags=re.S)
open(ROOT+'/DESIGN.md','w').write(s)
