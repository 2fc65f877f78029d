"""Symbolic runs of arbitrary functions of the crate, on unknown arguments."""
from core import *
from rules_effects import local_insts, short, bodies, callees, cpath, calls

def arg_kinds(P, I): return [P.types[I['locals'][k + 1]] for k in range(I['argc'])]

def ret_type(I): return I['locals'][0]

def closure_args(P, I):
    """does a parameter have a concrete closure type (the generic instance covers those)"""
    return any(t['k'] == 'closure' for t in arg_kinds(P, I))

def is_closure(I): return I['kind'] == 'Closure' or '{closure' in I['path']

def run_fn(cx, i, **opts):
    """(engine, outcomes | Undecided); argument k is the term ('arg','a<k>'), what references point to is in the cell 'a<k>'"""
    key = ('fn', i, tuple(sorted(opts.items())))
    r = cx.cache.get(key)
    if r is not None: return r
    P = cx.P
    I = P.inst[i]
    e = cx.eng(**opts)
    st = State()
    args = []
    for k in range(I['argc']):
        t = I['locals'][k + 1]
        ty = e.ty(t)
        n = 'a%d' % k
        if ty['k'] == 'ref':
            v = e.mk(('arg', n), ty['to'])
            if v[0] == 'sl' or e.ty(ty['to'])['k'] == 'dyn': args.append(v)
            elif P.ts(ty['to']) == 'bytes::BytesMut':
                st.cells[n] = outbuf()
                args.append(('ref', n, (), True))
            else:
                st.cells[n] = v
                args.append(('ref', n, (), bool(ty.get('mut'))))
        else: args.append(e.mk(('arg', n), t))
    r = (e, cx.go(e, i, args, st))
    cx.absorb(e)
    cx.cache[key] = r
    return r

def walk(x):
    """all tuples inside a value"""
    if isinstance(x, tuple):
        yield x
        for y in x:
            for z in walk(y): yield z
    elif isinstance(x, Lin):
        for a in x.atoms():
            for z in walk(a): yield z

def mentions(x, pred): return any(pred(y) for y in walk(x))

def has_top(x): return any(y and y[0] in ('top', 'opq', 'hv', 'lr') for y in walk(x))

def field_names(P, t, variant=0):
    ty = P.types[t]
    return [f['name'] for f in P.adts[ty['path']]['variants'][variant]['fields']]
