import sys, time, importlib
sys.path.insert(0,'/verif')
import numpy as np
from pyvc import contract as C
for m in sys.argv[1].split(','):
    importlib.import_module('contracts.'+m)
only=sys.argv[2:] 
for p,cs in C.REGISTRY.items():
    if p.lower() not in sys.argv[1].split(','): continue
    for con in cs:
        if only and con.name not in only: continue
        if con.prove:
            r=C.run_symbolic(con)
            print(p,con.name,r['status'],r['error'],'paths',r['paths'],'wall',r['wall_s'],'q',r['queries'],'reached',r['reached'],'dead',r.get('dead'))
            for o in r['obligations']:
                print('   ',o['name'],o['proved'],o['refuted'],o['unknown'],round(o['secs'],2),o['detail'][:300])
                if o['refuted'] or o['unknown']: print('       path',o.get('path'))
            for nm,m in r['counterexamples']:
                try: st=C.run_concrete(con,np.random.default_rng(0),m)
                except BaseException as e: st=(repr(e),0)
                print('   CX',nm,m,st[:2])
        if con.rac:
            t=time.time(); cnt={}
            for i in range(400):
                st,f,k=C.run_concrete(con,np.random.default_rng([1,i]))
                cnt[st]=cnt.get(st,0)+1
                if st=='fail' and cnt[st]<=2: print('   RAC FAIL',i,f.name,f.detail,k.log)
                if time.time()-t>10: break
            print('   rac',cnt,round(time.time()-t,2))
