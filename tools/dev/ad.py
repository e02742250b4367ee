import sys; sys.path.insert(0,'/verif')
from vf.core import *
c=Ctx("X","quick")
def t(spec,consts,**kw):
    t0=time.time()
    try:
        r=c.tlc(spec,consts,**kw); print(spec,r['states'],r['diameter'],len(r['gen']),round(time.time()-t0,1),r['gen'][:2])
        return r
    except CheckError as e: print(str(e)[-1500:])
