import json,os,glob
T=open('/verif/tools/design.txt').read()
seeds={}
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.setdefault(d['property'],[]).append(os.path.basename(os.path.dirname(m)))
known={}; fixed={}
for l in open('/verif/known_findings.txt'):
    for k,dst in (('known',known),('fixed',fixed)):
        if l.startswith(k+': property='):
            p=l.split('property=')[1][:3]; dst.setdefault(p,[]).append(l.split(' ',2)[2].strip())
for p in sorted(set(seeds)|set(known)|set(fixed)|{json.loads(l)['id'] for l in open('/verif/properties.jsonl')}):
    t='' 
    if p in seeds: t+='*Planted bugs caught:* '+', '.join('`%s`'%s for s in seeds[p])+'.\n'
    if p in fixed: t+='*Defects repaired:* %d (see the list below).\n'%len(fixed[p])
    if p in known: t+='*Known findings:* %d (see below).\n'%len(known[p])
    assert '{%s}'%p in T,p
    T=T.replace('{%s}\n'%p,t)
T=T.replace('{FIXED}','\n'.join('* %s — `%s` %s'%(p,f.split(' ',1)[0],f.split(' ',1)[1]) for p in sorted(fixed) for f in fixed[p]))
open('/verif/DESIGN.md','w').write(T)
