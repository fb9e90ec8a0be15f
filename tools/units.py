import sys; import os; _h=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[_h+"/cvc",_h+"/spec"]; sys.setrecursionlimit(100000)
import importlib, cv, time, fnmatch
from concurrent.futures import ProcessPoolExecutor
def go(a):
    m,k=a; sys.setrecursionlimit(100000); t=time.time()
    M=importlib.import_module(m)
    try: r=cv.run_unit(k,M.UNITS[k])
    except Exception as e:
        import traceback; return m,k,time.time()-t,0,[dict(name='EXC',status='exc',detail=traceback.format_exc()[-700:])]
    bad=[o for o in r.obs if o['status']!='proved']
    return m,k,time.time()-t,len(r.obs),bad
if __name__=='__main__':
    js=[]
    for s in sys.argv[1:]:
        m,g=s.split(':'); M=importlib.import_module(m); js+=[(m,k) for k in M.UNITS if fnmatch.fnmatchcase(k,g)]
    t=time.time()
    with ProcessPoolExecutor(8) as p:
        for r in p.map(go,js): print(r[0],r[1],round(r[2],1),r[3],[(o['name'][:60],o['status'],o['detail'][:800]) for o in r[4]],flush=True)
    print('wall',time.time()-t)
