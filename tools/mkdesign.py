import json,glob,os,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
txt=open('/verif/tools/design_body.md').read()
kf=[l.strip() for l in open('/verif/known_findings.txt') if l.startswith(('fixed:','known:'))]
find='\n'.join('* '+l for l in kf)
rows=[]
res={}
try:
    for l in open('/verif/tools/seeds/results.txt'):
        a=l.split()
        if len(a)>3: res[a[0]]=(a[1],a[3],a[2])
except OSError: pass
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d))
    r=res.get(i)
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],(m['needs'] if isinstance(m['needs'],str) else '; '.join(m['needs']))[:170].replace('|','/').replace('\n',' '),('%s (%s)'%(r[1],r[2]) if r else 'not rerun on the last state')))
txt=txt.replace('@FINDINGS@',find).replace('@SEEDS@','| change | check | needs | result (quick tier) |\n|---|---|---|---|\n'+'\n'.join(rows))
open('/verif/DESIGN.md','w').write(txt)
