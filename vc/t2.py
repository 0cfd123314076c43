import sys
from vc.t1 import *
import importlib
from contracts import utils_c, abs as A
def load(mod):
    return importlib.import_module('contracts.'+mod)
if __name__=='__main__':
    M=load(sys.argv[1])
    CONC=getattr(M,'CONC',{}); VIEW=getattr(M,'VIEW',{})
    names=sys.argv[2:] or list(CONC)+list(VIEW)
    for n in names:
        if n in VIEW:
            c=VIEW[n]; base=dict(A.ABS); 
            base.update({k:v for k,v in utils_c.CONC.items() if not getattr(v,'concrete',False) or k in('bc_strdup','bc_strndup')})
            base.update(VIEW); base.pop(n,None); ab=True
        else:
            c=CONC[n]; base=dict(utils_c.CONC); base.update(CONC); base.pop(n,None); ab=False
        try: go(c, base, ab)
        except Exception as ex:
            import traceback; traceback.print_exc(); print(n,'EXC',ex)
