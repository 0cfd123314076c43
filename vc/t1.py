import sys,time
from vc.sym import *
from vc import cast, lib
from vc.lib import C
prog=cast.Program('/tmp/inc')
U='src/common/utils.c'
def go(c, contracts={}, abstract=False):
    e=Engine(prog,contracts,lib.TRUSTED,abstract=abstract)
    e.fnptr_handler=getattr(c,"fnptr",None)
    t=time.time()
    e.verify(c)
    print(c.name,'ob',e.nob,e.by,'fail',[(f.name(),f.line,f.status) for f in e.failures],'cov',e.covers,'t=%.2f'%(time.time()-t), e.terms, 'returns',e.nreturns)
    for f in e.failures[:3]: print('   ',f.formula[:300], f.path[-6:], f.inputs)
if __name__=='__main__':
    go(C('bc_isspace','c',file=U,ensures=lambda c:[Iff(Eq(c.result,1), Or(*[Eq(c.a('c'),x) for x in (32,9,10,11,12,13)]))]))
    go(C('bc_str_find','str c',file=U, requires=lambda c:[Or(Eq(c.a('str').o,0),c.isstr(c.a('str')))], ensures=lambda c:[Or(Eq(c.result.o,0),And(Eq(c.result.o,c.a('str').o),c.byte(c.result)==c.a('c')))]))
    go(C('bc_str_lstrip','str',file=U, requires=lambda c:[c.nullstr(c.a('str')), c.slen(c.a('str'))<2**31-1], ensures=lambda c:[Eq(c.result.o,c.a('str').o)],
      loops={0:Loop(inv=lambda c:[c.i>=0, c.i<=c.str_len])}))
