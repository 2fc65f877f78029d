import sys; sys.path.insert(0,'/verif/sa')
sys.setrecursionlimit(20000)
from core import *
cx=Ctx('/tmp/o.json')
def show_st(e,s,v,ev=True):
    print('  --', {show(k):x for k,x in s.variants.items()}, 'facts', s.facts, 'eq', {show(ATOMS[a]):x for a,x in s.eqc.items()}, 'note', s.imprecise)
    if ev:
        for x in s.events: print('      ev', x)
    print('     =>', v)
if __name__=='__main__':
    tr,m,T=sys.argv[1:4]
    tr={'E':ENC,'A':AENC,'D':DEC,'F':DECF,'AD':ADEC}[tr]
    cx.fix_zero()
    t=cx.P.tystr[T]
    if tr in (ENC,AENC): e,r=cx.outcomes(tr,m,t)
    else: e,r=cx.decode_outcomes(tr,m,t)
    if isinstance(r,Undecided): print('UNDECIDED',r)
    else:
        print(len(r))
        for s,v in r[:int(sys.argv[4]) if len(sys.argv)>4 else 10]:
            show_st(e,s,v)
            if 'buf' in s.cells:
                for it in s.cells['buf'][4]: print('        emit',it)
    for k,o in e.oblig.items(): print('OB',k,o[:2], str(o[2])[:100])
    for c in e.caps: print('CAP',c[:3])
