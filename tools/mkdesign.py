import json,re,glob,os,sys
V='/verif'
s=open(V+'/DESIGN.md').read()
i=s.index('No solver, no execution of repository code')
head=s[:i]+'No solver, no execution of repository code, no test generation.\n'
rows=['| planted bug | caught by | needs |','|---|---|---|']
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),d['property'],d['needs'].replace('|','/')))
fx=[]
for l in open(V+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fx.append('* %s `%s` %s'%m.groups())
t=open(V+'/tools/design_tail.md').read().replace('@@TABLE@@','\n'.join(rows)).replace('@@FIXED@@','\n'.join(fx))
open(V+'/DESIGN.md','w').write(head+t)
