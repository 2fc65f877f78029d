"""C24: accessors, builders, conversions, replies and copies touch exactly what they name."""
from fns import *
import eng as E
from eng import neg
from builtins_ import as_slice, full, SEC_LO, SEC_HI
from rules_size import fmt_state
from rules_decode import opaque_state
from rules_obs import memo_types
from rules_text import is_text_type, precise
from rules_spec import local_type, opt_inner

DEFINITE = ('arg', 'fld', 'elem', 'at', 'into', 'upd', 'ret', 'get', 'dv', 'cellval')

def concrete(t):
    """a term that names one particular value (and not the result of something that is not modelled)"""
    return isinstance(t, tuple) and t and t[0] in DEFINITE and not has_top(t)

def mt(e, v):
    k = v[0]
    if k == 't': return v[2]
    if k in ('agg', 'vec', 'map'): return v[1]
    return None

def text_of(cx, e, s, v):
    if v[0] in ('sl', 'own'): return as_slice(e, s, v)
    t = mt(e, v)
    if t is not None and v[0] == 't' and e.ty(t).get('path') == 'bytes::bytes::Bytes': return as_slice(e, s, v)
    if t is not None and v[0] == 't' and e.ty(t).get('path') == 'uuid::Uuid': return ('sl', ('cont', v[1]), ZERO, Lin(16), 'b')
    if t is None or e.ty(t)['k'] not in ('adt', 'str') or not is_text_type(cx, e, t): return None
    while v[0] == 'agg' and len(v[3]) == 1: v = full(e, s, v[3][0])
    if v[0] == 'agg': return None
    return as_slice(e, s, v)

SPECIAL = None     # (cx, e, s, v, w) -> 'no' or whether two values of different variants count as the same

def other(cx, e, s, v, w):
    r = SPECIAL(cx, e, s, v, w) if SPECIAL is not None else 'no'
    return False if r == 'no' else r

def veq(cx, e, s, v, w, d=0):
    """are two values the same in state s?  True, False (different for sure), None (not modelled)"""
    v, w = full(e, s, v), full(e, s, w)
    if d > 30: return None
    while v[0] == 'box': v = full(e, s, v[1])
    while w[0] == 'box': w = full(e, s, w[1])
    if v[0] == 't' and v[1][0] == 'iocopy': v = ('t', v[1][1], v[2])
    if v == w: return True if not has_top(v) else None
    x, y = text_of(cx, e, s, v), text_of(cx, e, s, w)
    if x is not None and y is not None:
        if x[1] == y[1] and s.equal(x[2], y[2]) and s.equal(x[3], y[3]): return True
        if has_top(x[1]) or has_top(y[1]) or e.imprecise_lin(x[2]) or e.imprecise_lin(x[3]): return None
        if x[1][0] == 'cont' and not concrete(x[1][1]): return None
        return False
    if v[0] == 'top' or w[0] == 'top': return None
    if v[0] == 'i' and w[0] == 'i':
        if s.equal(v[1], w[1]): return True
        return None if e.imprecise_lin(v[1]) or has_top(tuple(v[1].atoms())) or has_top(tuple(w[1].atoms())) else False
    if v[0] == 'b' and w[0] == 'b':
        if v[1] == w[1]: return True
        a, b = s.tv(v[1]), s.tv(w[1])
        if a is not None and a == b: return True
        return None if has_top(v) or has_top(w) else False
    if v[0] == 'ts' and w[0] == 't' or v[0] == 't' and w[0] == 'ts':
        if v[0] == 't': v, w = w, v
        # a time is its seconds and milliseconds, finer parts are not looked at
        a, b = v[1] - atom(('secs', w[1]), SEC_LO, SEC_HI), v[2] - atom(('subms', w[1]), 0, 999).scale(1000000)
        if s.equal(a, ZERO) and s.equal(b, ZERO): return True
        return None if e.imprecise_lin(a) or e.imprecise_lin(b) else False
    if v[0] == 'ts' or w[0] == 'ts':
        return v[0] == w[0] and s.equal(v[1], w[1]) and s.equal(v[2], w[2]) or None
    if SPECIAL is not None and v[0] == 'agg' and v[1] is not None and w[0] in ('agg', 't'):
        r = SPECIAL(cx, e, s, v, w, True)
        if r != 'no': return r
    if v[0] == 'agg' and w[0] == 'agg':
        if v[2] != w[2]: return other(cx, e, s, v, w)
        if len(v[3]) != len(w[3]): return None
        return all3(veq(cx, e, s, a, b, d + 1) for a, b in zip(v[3], w[3]))
    if v[0] == 't' and w[0] == 'agg': v, w = w, v
    if v[0] == 'agg' and w[0] == 't':
        if v[1] is None:
            if e.ty(w[2])['k'] != 'tuple': return None
            return veq(cx, e, s, v, e.mk(w[1], w[2]), d + 1)
        a = e.adt(w[2])
        if a is None: return None
        if a['kind'] == 'enum':
            known = s.variants.get(w[1])
            if known is None:
                left = [i for i in range(len(a['variants'])) if i not in s.nvar.get(w[1], ())]
                if len(left) == 1: known = left[0]
            if known is None and SPECIAL is not None and concrete(w[1]):
                rs = []
                for i in left:
                    x = e.expand(s, w, i)
                    if x is None: return None
                    s2 = s.copy()
                    if e.set_variant(s2, w[1], w[2], i): rs.append(veq(cx, e, s2, v, x, d + 1))
                return all3(rs)
            if known is None: return False if concrete(w[1]) else None   # other variants remain possible here
            if known != v[2]:
                x = e.expand(s, w, known)
                return other(cx, e, s, v, x) if x is not None else False
        else: known = None
        x = e.expand(s, w, v[2] if a['kind'] == 'enum' else None)
        if x is None or len(x[3]) != len(v[3]): return None
        return all3(veq(cx, e, s, p, q, d + 1) for p, q in zip(v[3], x[3]))
    if v[0] in ('vec', 'map') or w[0] in ('vec', 'map'):
        x, y = items_of(v), items_of(w)
        if x is None or y is None: return None
        if v[0] != 't' and w[0] == 't' and all(i[0] == 'one' for i in x):
            # a list with a known number of elements
            n = s.norm(e.lenof(w[1]))
            if n.is_const():
                if n.c != len(x): return False
                ws = [entry(e, w, i) for i in range(n.c)]
                if None in ws: return None
                return all3(veq(cx, e, s, a[1], b, d + 1) for a, b in zip(x, ws))
        if len(x) != len(y) and all(i[0] in ('one', 'base') for i in x + y) and not has_top(v) and not has_top(w):
            n = Lin(0)
            for k, its in ((1, x), (-1, y)):
                for i in its: n = n + (Lin(1) if i[0] == 'one' else e.lenof(i[1])).scale(k)
            n = s.norm(n)
            if not e.imprecise_lin(n) and all(concrete(i[1]) for i in x + y if i[0] == 'base') and not s.equal(n, ZERO): return False
        if len(x) != len(y): return None if has_top(v) or has_top(w) or any(i[0] not in ('one', 'base') for i in x + y) or len([i for i in x if i[0] == 'base']) != len([i for i in y if i[0] == 'base']) else False
        return all3(item_eq(cx, e, s, a, b, d) for a, b in zip(x, y))
    if v[0] == 't' and w[0] == 't':
        if v[1] == w[1]: return True
        return False if concrete(v[1]) and concrete(w[1]) else None
    return None

def entry(e, w, i):
    """the i-th element of a collection"""
    t = e.ty(w[2])
    if t['k'] == 'adt' and t['path'] == 'hashbrown::map::HashMap':
        return ('agg', None, 0, tuple(e.mk(('fld', ('at', w[1], Lin(i)), '', str(k)), t['args'][k]) for k in (0, 1)))
    et = e.elem_ty(w[2])
    return e.mk(('at', w[1], Lin(i)), et) if et is not None else None

def items_of(v):
    if v[0] in ('vec', 'map'): return v[2]
    if v[0] == 't': return (('base', v[1]),)
    return None

def item_eq(cx, e, s, a, b, d):
    if a == b: return True
    if a[0] != b[0]: return None if {'star', 'lv'} & {a[0], b[0]} or has_top(a) or has_top(b) else False
    if a[0] == 'one': return veq(cx, e, s, a[1], b[1], d + 1)
    if a[0] == 'base': return False if concrete(a[1]) and concrete(b[1]) else None
    return None

def all3(xs):
    r = True
    for x in xs:
        if x is False: return False
        if x is None: r = None
    return r

def pname(I): return short(I['path'])

def runs(cx, rep, i, w):
    e, r = run_fn(cx, i)
    if isinstance(r, Undecided):
        rep.undec(w, r)
        return
    for s, v in r:
        yield e, s, v

def judge(cx, rep, e, s, w, q, good, key, text):
    if q is True: rep.good('%s: %s' % (w, good))
    elif q is False and precise(e, s): rep.bad('%s: %s' % (w, key), '%s: %s, on the path: %s' % (w, text, fmt_state(e, s)))
    else: rep.undec(w, 'not modelled')

def strip_ref(P, t):
    n = 0
    while P.types[t]['k'] == 'ref': t = P.types[t]['to']; n += 1
    return t, n

def local_struct(P, t):
    ty = P.types[t]
    if ty['k'] != 'adt': return None
    a = P.adts.get(ty['path'])
    return a if a and a['local'] and a['kind'] == 'struct' else None

def inherent(P):
    """public inherent functions: (i, inst, self type or None)"""
    for i, I in local_insts(P):
        if I.get('trait') or I['kind'] == 'Closure' or is_closure(I) or not I['pub'] or closure_args(P, I): continue
        yield i, I

def self_of(cx, i, k=0):
    """the value argument k refers to, as it is on entry"""
    P = cx.P
    I = P.inst[i]
    t, n = strip_ref(P, I['locals'][k + 1])
    return t, n

def arg_val(cx, e, i, k):
    t, n = self_of(cx, i, k)
    return e.mk(('arg', 'a%d' % k), t)

def fld(cx, e, s, v, name, variant=None):
    """a named field of a value"""
    v = full(e, s, v)
    a = e.adt(mt(e, v))
    for idx, f in enumerate(a['variants'][variant or 0]['fields']):
        if f['name'] == name:
            x = e.expand(s, v, variant if a['kind'] == 'enum' else None)
            return x[3][idx]
    return None

def optional(cx, e, s, v, w):
    """w is an optional: Option<&T> / Option<T> results carry its content"""
    return veq(cx, e, s, v, w)

# ---- accessors ----

def accessors(cx, rep):
    P = cx.P
    seen = 0
    for i, I in inherent(P):
        if I['argc'] != 1: continue
        t, n = strip_ref(P, I['locals'][1])
        a = local_struct(P, t)
        if a is None: continue
        names = [f['name'] for f in a['variants'][0]['fields']]
        if I['name'] not in names: continue
        ft, rt = a['variants'][0]['fields'][names.index(I['name'])]['tid'], strip_ref(P, I['locals'][0])[0]
        opt = lambda x: P.types[x].get('path') == 'core::option::Option'
        if opt(rt) and not opt(strip_ref(P, ft)[0]): continue   # a lookup, not the field as such
        w = pname(I)
        seen += 1
        for e, s, v in runs(cx, rep, i, w):
            f = fld(cx, e, s, arg_val(cx, e, i, 0), I['name'])
            # the parts of the field that the caller sees are those of the same field of the same value
            q = veq(cx, e, s, v, f)
            judge(cx, rep, e, s, w, q, 'returns the field %s' % I['name'], 'does not return the field it is named after', 'returns something else than the field %s (%s)' % (I['name'], shown(e, v)))
            unchanged(cx, rep, e, s, i, w)
    rep.cov['accessors named after a field'] = seen

def unchanged(cx, rep, e, s, i, w):
    """reading through &mut self leaves the value alone"""
    P = cx.P
    t, n = strip_ref(P, P.inst[i]['locals'][1])
    if n and 'a0' in s.cells:
        q = veq(cx, e, s, s.cells['a0'], e.mk(('arg', 'a0'), t))
        if q is not True and P.types[P.inst[i]['locals'][1]].get('mut'):
            judge(cx, rep, e, s, w, q, '', 'changes the value', 'reading changes the value')

def shown(e, v):
    t = str(e.term(v)) if v[0] in ('t', 'i', 'b') else None
    try:
        if v[0] == 't': return E.show(v[1])
    except Exception: pass
    n = None
    if v[0] == 'agg' and v[1] is not None and e.adt(v[1]): n = e.adt(v[1])['variants'][v[2]]['name']
    if n: return '%s%s' % (n, '(%s)' % ', '.join(shown(e, x) for x in v[3][:4]) if v[3] else '')
    if v[0] in ('sl', 'own'):
        sl = v[2] if v[0] == 'own' else v
        if sl[1][0] == 'cont': return '%s[%s..+%s]' % (E.show(sl[1][1]), sl[2], sl[3])
        if sl[1][0] == 'const': return repr(sl[1][1])
    if v[0] == 'ref': return '&' + '.'.join(str(x[2]) for x in v[2])
    if v[0] in ('i', 'b'): return str(v[1])[:80]
    return v[0]


class Api:
    """named functions with a specific meaning"""
    def __init__(self, cx, rep):
        self.cx, self.rep, self.P = cx, rep, cx.P
        self.table = {}
        self.used = set()
    def find(self, tname, fname):
        """public inherent functions `fname` of the local type `tname`"""
        out = []
        for i, I in inherent(self.P):
            if I['name'] == fname and self.owner(I) == tname: out.append((i, I))
        return out
    def owner(self, I):
        """the local type an inherent function belongs to"""
        p = I['path']
        import re
        m = re.search(r"<impl (?:.*::)?([A-Za-z0-9_]+)(?:<.*>)?>::[A-Za-z0-9_]+$", p)
        if m: return m.group(1)
        p = re.sub(r'::<[^<>]*>', '', p)
        parts = p.split('::')
        return parts[-2] if len(parts) > 1 else ''
    def each(self, tname, fname):
        fs = self.find(tname, fname)
        if not fs: self.rep.cov.setdefault('functions looked for and not present', 0); self.rep.cov['functions looked for and not present'] += 1
        for i, I in fs:
            w = pname(I)
            self.used.add(i)
            for e, s, v in runs(self.cx, self.rep, i, w): yield i, I, w, e, s, v
    def is_(self, w, e, s, v, x, good, key=None, text=None):
        q = veq(self.cx, e, s, v, x) if x is not None else None
        judge(self.cx, self.rep, e, s, w, q, good, key or 'wrong result', text or 'does not %s (result %s)' % (good.replace('returns', 'return', 1), shown(e, v)))
    def arg(self, e, i, k): return arg_val(self.cx, e, i, k)
    def fld(self, e, s, v, *names):
        for n in names:
            v = fld(self.cx, e, s, v, n)
            if v is None: return None
        return v

def eng_opt(e, tid, x):
    """Option value None / Some(x)"""
    return ('agg', tid, 0, ()) if x is None else ('agg', tid, 1, (x,))

# ---- builders ----

def struct_with(cx, rep, e, s, w, v, base, changes, what):
    """v is the struct `base` with only the fields in `changes` (name -> check) replaced"""
    v = full(e, s, v)
    t = mt(e, v)
    if v[0] == 't' and not changes:
        judge(cx, rep, e, s, w, veq(cx, e, s, v, base), what, 'changes something', 'returns another value')
        return
    a = e.adt(t) if t is not None else None
    if a is None or a['kind'] != 'struct': rep.undec(w, 'not modelled: %s' % v[0]); return
    memo = {f['name'] for _, f in memo_types(cx.P).get(e.ty(t)['path'], [])}
    got = e.expand(s, v, None)
    ref = e.expand(s, full(e, s, base), None)
    for idx, f in enumerate(a['variants'][0]['fields']):
        if f['name'] in memo: continue
        if f['name'] in changes:
            q = changes[f['name']](got[3][idx])
            judge(cx, rep, e, s, w, q, 'sets %s' % f['name'], '%s not set as asked' % f['name'], '%s is not what was asked for (%s)' % (f['name'], shown(e, full(e, s, got[3][idx]))))
        else:
            q = veq(cx, e, s, got[3][idx], ref[3][idx])
            judge(cx, rep, e, s, w, q, 'leaves %s alone' % f['name'], 'changes %s' % f['name'], 'also changes %s' % f['name'])

def default_of(cx, tid):
    """the default value of a type: (engine state, value) when its Default is a single path"""
    k = ('default', tid)
    if k not in cx.cache:
        r = None
        j = cx.P.resolve.get(('core::default::Default', 'default', tid))
        if j is None:
            for i, I in enumerate(cx.P.inst):
                if I['name'] == 'default' and I['argc'] == 0 and I['locals'][0] == tid: j = i
        if j is not None:
            e, o = run_fn(cx, j)
            if not isinstance(o, Undecided) and len(o) == 1: r = o[0][1]
        cx.cache[k] = r
    return cx.cache[k]

def empty(cx, e, s, v, d=0):
    """nothing in it: None, an empty collection, zero, or a struct of such fields"""
    v = full(e, s, v)
    if d > 10: return None
    if v[0] in ('vec', 'map'): return not v[2] or (None if has_top(v) else False)
    if v[0] == 'i': return s.equal(v[1], ZERO) or None
    if v[0] == 'agg':
        a = e.adt(v[1]) if v[1] is not None else None
        if a and a['kind'] == 'enum': return True if not v[3] else False
        return all3(empty(cx, e, s, x, d + 1) for x in v[3])
    return None

def messages(cx, rep, A):
    P = cx.P
    for T in ('InMessage', 'OutMessage'):
        path = next((p for p, a in P.adts.items() if a['local'] and p.rsplit('::', 1)[-1] == T), None)
        if path is None: rep.cov['no ' + T] = 1; continue
        tid = next((t for t, ty in enumerate(P.types) if ty['k'] == 'adt' and ty['path'] == path), None)
        a = P.adts[path]
        ft = {f['name']: f['tid'] for f in a['variants'][0]['fields']}
        dflt = default_of(cx, tid)
        # an empty message
        if dflt is not None:
            for i, I in enumerate(P.inst):
                if I['name'] == 'default' and I['argc'] == 0 and I['locals'][0] == tid:
                    for e, s, v in runs(cx, rep, i, pname(I)):
                        if v[0] != 'agg': rep.undec(pname(I), 'not modelled'); continue
                        for f, x in zip(a['variants'][0]['fields'], v[3]):
                            judge(cx, rep, e, s, pname(I), empty(cx, e, s, x), '%s starts empty' % f['name'], '%s does not start empty' % f['name'], 'a new message already has %s' % f['name'])
                    break
        else: rep.undec(T, 'no default')
        body0 = None
        for fname, sec in (('with_body', 'data'), ('with_messages', 'messages')):
            for i, I, w, e, s, v in A.each(T, fname):
                if dflt is None: rep.undec(w, 'no default'); continue
                def body(x, sec=sec, e=e, s=s, i=i):
                    x = full(e, s, x)
                    if x[0] != 'agg': return None
                    b = e.adt(x[1])
                    q = []
                    for f, y in zip(b['variants'][0]['fields'], x[3]):
                        if f['name'] == sec:
                            arg = A.arg(e, i, 0)
                            want = ('vec', f['tid'], (('one', arg),)) if sec == 'data' else arg
                            q.append(veq(cx, e, s, y, want))
                        else: q.append(empty(cx, e, s, y))
                    return all3(q)
                struct_with(cx, rep, e, s, w, v, dflt, {'body': body}, '')
        for i, I, w, e, s, v in A.each(T, 'set_header'):
            struct_with(cx, rep, e, s, w, v, A.arg(e, i, 0), {'header': lambda x: veq(cx, e, s, x, eng_opt(e, ft['header'], A.arg(e, i, 1)))}, '')
        for i, I, w, e, s, v in A.each(T, 'set_properties'):
            old = A.fld(e, s, A.arg(e, i, 0), 'properties')
            struct_with(cx, rep, e, s, w, v, A.arg(e, i, 0), {'properties': lambda x: updated(cx, e, s, x, old, 'a1', default_of(cx, opt_inner_t(P, ft['properties'])))}, '')
        for i, I, w, e, s, v in A.each(T, 'set_body'):
            old = A.fld(e, s, A.arg(e, i, 0), 'body')
            struct_with(cx, rep, e, s, w, v, A.arg(e, i, 0), {'body': lambda x: is_upd(cx, e, s, x, 'a1', old)}, '')
        for i, I, w, e, s, v in A.each(T, 'set_value'):
            def body(x, e=e, s=s, i=i):
                old = A.fld(e, s, A.arg(e, i, 0), 'body')
                x = full(e, s, x)
                if x[0] != 'agg': return None
                ref = e.expand(s, old, None)
                q = []
                for f, y, z in zip(e.adt(x[1])['variants'][0]['fields'], x[3], ref[3]):
                    if f['name'] == 'value':
                        y = full(e, s, y)
                        q.append(converted(cx, e, s, y[3][0], 'a1') if y[0] == 'agg' and y[2] == 1 else False if y[0] == 'agg' else None)
                    else: q.append(veq(cx, e, s, y, z))
                return all3(q)
            struct_with(cx, rep, e, s, w, v, A.arg(e, i, 0), {'body': body}, '')
        for i, I, w, e, s, v in A.each(T, 'set_app_property'):
            old = A.fld(e, s, A.arg(e, i, 0), 'application_properties')
            struct_with(cx, rep, e, s, w, v, A.arg(e, i, 0), {'application_properties': lambda x: appended(cx, e, s, x, old, ('a1', 'a2'))}, '')
        for i, I, w, e, s, v in A.each(T, 'update'):
            q = is_ret(cx, e, s, v, 'a1', [A.arg(e, i, 0)])
            judge(cx, rep, e, s, w, q, 'applies the given function to the message', 'wrong result', 'does not return what the given function makes of the message')
        for i, I, w, e, s, v in A.each(T, 'if_some'):
            opt = A.arg(e, i, 1)
            k = s.variants.get(('arg', 'a1'))
            if k == 0: q = veq(cx, e, s, v, A.arg(e, i, 0))
            elif k == 1: q = is_ret(cx, e, s, v, 'a2', [A.arg(e, i, 0), e.expand(s, opt, 1)[3][0]])
            else: q = False if concrete_result(v) else None
            judge(cx, rep, e, s, w, q, 'applies the given function exactly when there is a value', 'wrong result', 'applies the function not exactly when there is a value')
        for i, I, w, e, s, v in A.each(T, 'value'):
            A.is_(w, e, s, v, A.fld(e, s, A.arg(e, i, 0), 'body', 'value'), 'returns the value of the body')
        for i, I, w, e, s, v in A.each(T, 'app_properties'):
            A.is_(w, e, s, v, A.fld(e, s, A.arg(e, i, 0), 'application_properties'), 'returns the application properties')
        for i, I, w, e, s, v in A.each(T, 'app_property'):
            term = ('fld', ('arg', 'a0'), '', 'application_properties')
            k = s.variants.get(term)
            if k == 0: q = (v[0] == 'agg' and v[2] == 0) if v[0] in ('agg', 't') else None
            elif k == 1:
                x = full(e, s, v)
                want = ('get', ('fld', term, 'Some', '0'), ('arg', 'a1'))
                if x[0] == 't': q = True if x[1] == want else False if concrete(x[1]) else None
                elif x[0] == 'agg' and x[2] == 0: q = True if s.variants.get(want) == 0 else False if precise(e, s) and not s.preds else None
                elif x[0] == 'agg' and x[2] == 1: q = veq(cx, e, s, x[3][0], e.mk(('fld', want, 'Some', '0'), mt(e, full(e, s, x[3][0])))) if mt(e, full(e, s, x[3][0])) is not None else None
                else: q = None
            else: q = None
            judge(cx, rep, e, s, w, q, 'looks the given name up in the application properties', 'wrong result', 'returns something else than the application property of that name')
        for i, I, w, e, s, v in A.each(T, 'reply_message'):
            reply(cx, rep, A, i, w, e, s, v)

def concrete_result(v): return v[0] == 'agg' or v[0] == 't' and concrete(v[1])

def opt_inner_t(P, t):
    ty = P.types[t]
    return ty['args'][0] if ty['k'] == 'adt' and ty['path'] == 'core::option::Option' else None

def is_upd(cx, e, s, x, fn, old):
    """x is what the caller's function made of `old`"""
    x = full(e, s, x)
    if x[0] == 't' and x[1][0] == 'upd' and x[1][1] == ('arg', fn): return all3([len(x[1][3]) == 1 or None, veq_term(cx, e, s, x[1][3][0], old)])
    if x[0] == 't' and concrete(x[1]) or x[0] == 'agg' and not mentions(x, lambda y: len(y) > 1 and y[0] == 'upd' and y[1] == ('arg', fn)): return False if not has_top(x) else None
    return None

def is_ret(cx, e, s, v, fn, args):
    v = full(e, s, v)
    if v[0] == 't' and v[1][0] == 'ret' and v[1][1] == ('arg', fn):
        if len(v[1][2]) != len(args): return None
        return all3(veq_term(cx, e, s, x, y) for x, y in zip(v[1][2], args))
    if concrete_result(v) and not has_top(v): return False
    return None

def veq_term(cx, e, s, x, want):
    """x: what was handed to the caller's function (a term or a value)"""
    if isinstance(x, tuple) and x and x[0] in ('agg', 'i', 'b', 'sl', 'own', 'vec', 'map', 'rv', 'ref', 'box', 'ts'): return veq_memo(cx, e, s, x, want)
    w = full(e, s, want)
    if w[0] == 't': return True if x == w[1] else (False if concrete(x) else None)
    t = e.term(w)
    return True if t == x else None

def veq_memo(cx, e, s, x, want):
    """equality, the remembered size aside"""
    x = full(e, s, x)
    want = full(e, s, want)
    if x[0] == 'agg' and mt(e, x) is not None:
        memo = memo_types(cx.P).get(e.ty(x[1]).get('path'))
        if memo:
            w = e.expand(s, want, None)
            skip = {i for i, _ in memo}
            return all3(veq(cx, e, s, a, b) for k, (a, b) in enumerate(zip(x[3], w[3])) if k not in skip)
    return veq(cx, e, s, x, want)

def updated(cx, e, s, x, old, fn, dflt):
    """x = Some(fn(content of old, or the default))"""
    x = full(e, s, x)
    if x[0] == 't': return False if concrete(x[1]) else None
    if x[0] != 'agg': return None
    if x[2] != 1: return False
    o = full(e, s, old)
    k = s.variants.get(o[1]) if o[0] == 't' else o[2] if o[0] == 'agg' else None
    if k == 1: return is_upd(cx, e, s, x[3][0], fn, e.expand(s, o, 1)[3][0])
    if k == 0: return is_upd(cx, e, s, x[3][0], fn, dflt) if dflt is not None else None
    # the old content is not looked at
    y = full(e, s, x[3][0])
    if y[0] == 't' and y[1][0] == 'upd' and not mentions(y, lambda z: z and z[0] == 'fld'): return False
    return None

def converted(cx, e, s, x, argname):
    x = full(e, s, x)
    if x[0] == 't':
        if x[1][0] == 'into': return True if x[1][2] == ('arg', argname) else False
        if x[1] == ('arg', argname): return True
        return False if concrete(x[1]) else None
    if x[0] == 'agg' and not mentions(x, lambda y: y == ('arg', argname)) and not has_top(x): return False
    return None

def appended(cx, e, s, x, old, names):
    """x = Some(old entries, then the new one)"""
    x = full(e, s, x)
    if x[0] == 't': return False if concrete(x[1]) else None
    if x[0] != 'agg': return None
    if x[2] != 1: return False
    m = full(e, s, x[3][0])
    while m[0] == 'agg' and len(m[3]) == 1: m = full(e, s, m[3][0])
    o = full(e, s, old)
    k = s.variants.get(o[1]) if o[0] == 't' else None
    if m[0] == 't': return False if concrete(m[1]) else None
    if m[0] not in ('vec', 'map'): return None
    items = list(m[2])
    if k == 1:
        base = ('fld', o[1], 'Some', '0')
        if ('base', base) not in items: return False if all(y[0] in ('one', 'base') for y in items) and not has_top(m) else None
        if items[0] != ('base', base): return False if m[0] == 'vec' else None
        items = items[1:]
    elif k is None:
        if any(y[0] == 'base' for y in items): return None
        return False if all(y[0] == 'one' for y in items) else None
    if len(items) != 1 or items[0][0] != 'one': return False if not has_top(m) and all(y[0] in ('one', 'base') for y in items) else None
    p = full(e, s, items[0][1])
    if p[0] != 'agg' or len(p[3]) != 2: return None
    return all3(converted(cx, e, s, y, n) for y, n in zip(p[3], names))

def reply(cx, rep, A, i, w, e, s, v):
    P = cx.P
    v = full(e, s, v)
    if v[0] != 'agg': rep.undec(w, 'not modelled'); return
    t = v[1]
    dflt = default_of(cx, t)
    if dflt is None: rep.undec(w, 'no default'); return
    term = ('fld', ('arg', 'a0'), '', 'properties')
    k = s.variants.get(term)
    def props(x):
        x = full(e, s, x)
        if x[0] != 'agg': return None if not (x[0] == 't' and concrete(x[1])) else False
        if k == 0: return x[2] == 0
        if k is None: return False if x[2] == 1 else None
        if x[2] != 1: 
            # no correlation although the request has properties: only right when it has no message id
            return True if s.variants.get(('fld', ('fld', term, 'Some', '0'), '', 'message_id')) == 0 else False
        y = full(e, s, x[3][0])
        if y[0] != 'agg': return False if y[0] == 't' and concrete(y[1]) else None
        pd = default_of(cx, y[1])
        req = e.expand(s, e.mk(term, x[1]), 1)[3][0]
        ft = [f['name'] for f in e.adt(y[1])['variants'][0]['fields']]
        ref = e.expand(s, full(e, s, pd), None) if pd is not None else None
        if ref is None: return None
        q = []
        for n, a, b in zip(ft, y[3], ref[3]):
            q.append(veq(cx, e, s, a, fld(cx, e, s, req, 'message_id')) if n == 'correlation_id' else veq(cx, e, s, a, b))
        return all3(q)
    struct_with(cx, rep, e, s, w, v, dflt, {'properties': props}, '')

# ---- constructors, parts, lookups ----

def others(cx, rep, A):
    P = cx.P
    # constructors whose parameters are exactly the fields
    n = 0
    for i, I in inherent(P):
        rt = I['locals'][0]
        a = local_struct(P, rt)
        if a is None or I['argc'] == 0: continue
        fs = a['variants'][0]['fields']
        ats = [I['locals'][k + 1] for k in range(I['argc'])]
        if any(P.types[t]['k'] == 'ref' for t in ats): continue
        if I['name'] != 'new': continue
        fts = [f['tid'] for f in fs]
        if sorted(fts) == sorted(ats) and len(set(ats)) == len(ats): perm = [ats.index(t) for t in fts]
        elif fts == ats: perm = list(range(len(ats)))
        else: continue
        w = pname(I)
        n += 1
        for e, s, v in runs(cx, rep, i, w):
            x = full(e, s, v)
            if x[0] == 't':
                A.is_(w, e, s, v, A.arg(e, i, perm[0]) if len(perm) == 1 else None, 'stores its argument')
                continue
            if x[0] != 'agg': rep.undec(w, 'not modelled'); continue
            for k, f in enumerate(fs):
                A.is_(w, e, s, x[3][k], A.arg(e, i, perm[k]), 'stores %s' % f['name'], '%s is not the argument given' % f['name'])
    rep.cov['constructors'] = n
    for i, I, w, e, s, v in A.each('AmqpFrame', 'into_parts'):
        x = full(e, s, v)
        if x[0] != 'agg' or len(x[3]) != 2: rep.undec(w, 'not modelled'); continue
        for k, f in enumerate(('channel_id', 'performative')):
            A.is_(w, e, s, x[3][k], A.fld(e, s, A.arg(e, i, 0), f), 'returns %s' % f, 'part %d is not %s' % (k, f))
    for i, I, w, e, s, v in A.each('MessageBody', 'data'):
        # the first data section, if there is one
        d = ('fld', ('arg', 'a0'), '', 'data')
        n = e.lenof(d)
        none = s.equal(n, ZERO)
        some = s.implies(n - 1)
        x = full(e, s, v)
        if x[0] != 'agg': rep.undec(w, 'not modelled'); continue
        if x[2] == 0: q = True if none else False if not s.implies(ZERO - n) and precise(e, s) else None
        else:
            y = full(e, s, x[3][0])
            q = None
            if y[0] == 't' and y[1][:2] == ('at', d):
                at = y[1][2] if isinstance(y[1][2], Lin) else Lin(y[1][2])
                q = s.equal(at, ZERO) and bool(some) or (False if not e.imprecise_lin(at) else None)
            elif y[0] == 't' and concrete(y[1]): q = False
        judge(cx, rep, e, s, w, q, 'returns the first data section', 'wrong result', 'does not return the first data section')
    for i, I, w, e, s, v in A.each('MessageBody', 'set_data'):
        def one(x, e=e, s=s, i=i): return veq(cx, e, s, x, ('vec', None, (('one', A.arg(e, i, 1)),)))
        t = strip_ref(P, I['locals'][1])[0]
        struct_with(cx, rep, e, s, w, s.cells.get('a0', ('top', '')), e.mk(('arg', 'a0'), t), {'data': one}, '')
    for i, I, w, e, s, v in A.each('TransferBody', 'len'):
        t = strip_ref(P, I['locals'][1])[0]
        want = e.size_atom('codec::Encode', e.P.ts(t), ('arg', 'a0'))
        A.is_(w, e, s, v, ('i', want), 'returns the encoded length')
    for i, I, w, e, s, v in A.each('TransferBody', 'message_format'):
        t = strip_ref(P, I['locals'][1])[0]
        names = e.variant_names(t)
        k = s.variants.get(('arg', 'a0'))
        if k is None:
            left = [x for x in range(len(names)) if x not in s.nvar.get(('arg', 'a0'), ())]
            if len(left) == 1: k = left[0]
        if k is None: rep.undec(w, 'several kinds of body'); continue
        b = e.expand(s, e.mk(('arg', 'a0'), t), k)[3][0]
        if names[k] == 'Data': A.is_(w, e, s, v, ('agg', I['locals'][0], 0, ()), 'returns no format for plain data')
        else: A.is_(w, e, s, v, fld(cx, e, s, b, 'message_format'), "returns the message's format")
    # text
    for T in ('Str', 'Symbol'):
        for f in ('from_str', 'from_slice', 'as_bytes', 'as_str', 'as_bytes_str'):
            for i, I, w, e, s, v in A.each(T, f): A.is_(w, e, s, v, A.arg(e, i, 0), 'returns the whole text')
        for i, I, w, e, s, v in A.each(T, 'len'):
            sl = text_of(cx, e, s, A.arg(e, i, 0))
            A.is_(w, e, s, v, ('i', sl[3]) if sl is not None else None, 'returns the length of the text')
    for f in ('as_str', 'as_bytes_str'):
        for i, I, w, e, s, v in A.each('Variant', f):
            t = strip_ref(P, I['locals'][1])[0]
            names = e.variant_names(t)
            k = s.variants.get(('arg', 'a0'))
            x = full(e, s, v)
            if x[0] != 'agg': rep.undec(w, 'not modelled'); continue
            text = {n for n, vv in zip(names, e.adt(t)['variants']) if len(vv['fields']) == 1 and is_text_type(cx, e, vv['fields'][0]['tid'])}
            if x[2] == 0:
                left = [names[j] for j in range(len(names)) if (j == k if k is not None else j not in s.nvar.get(('arg', 'a0'), ()))]
                q = False if any(n in ('String', 'Symbol') for n in left) and precise(e, s) and not s.preds else True
            elif k is None: q = False if concrete_result(x) else None
            else: q = veq(cx, e, s, x[3][0], e.expand(s, e.mk(('arg', 'a0'), t), k)[3][0])
            judge(cx, rep, e, s, w, q, 'returns the text of a string or symbol', 'wrong result', 'does not return exactly the text of a string or symbol (%s)' % shown(e, x))
    # collections
    for T in ('List', 'Multiple'):
        for i, I, w, e, s, v in A.each(T, 'len'):
            A.is_(w, e, s, v, ('i', e.lenof(('arg', 'a0'))), 'returns the number of elements')
        for i, I, w, e, s, v in A.each(T, 'is_empty'):
            n = e.lenof(('arg', 'a0'))
            q = None
            if v[0] == 'b':
                z = s.tv(v[1])
                if v[1] == ('eq', n): q = True
                elif z is True: q = True if s.equal(n, ZERO) else False
                elif z is False: q = True if s.implies(n - 1) else False
                else:
                    q = True
                    for val, cond in ((True, v[1]), (False, neg(v[1]))):
                        for u in s.copy().assume(cond):
                            if u is None: continue
                            if val and not u.equal(n, ZERO) or not val and not u.implies(n - 1): q = False if precise(e, u) else None
            judge(cx, rep, e, s, w, q, 'is true exactly for no elements', 'wrong result', 'does not tell whether there are no elements')
        for i, I, w, e, s, v in A.each(T, 'iter'):
            q = None
            if v[0] == 'it' and v[1] == 'coll': q = v[2] == ('arg', 'a0') and v[-1] == ZERO or (False if concrete(v[2]) else None)
            elif v[0] == 'it': q = False if v[1] in ('rev', 'skip', 'take') else None
            judge(cx, rep, e, s, w, q, 'visits the elements in order', 'wrong result', 'does not visit all elements in order')
    for i, I in local_insts(P):
        if (I.get('trait') or '').startswith('core::ops::deref::Deref') and I['name'] in ('deref', 'deref_mut') and I['argc'] == 1:
            t, n = strip_ref(P, I['locals'][1])
            a = local_struct(P, t)
            if a is None or len(a['variants'][0]['fields']) != 1: continue
            w = pname(I)
            for e, s, v in runs(cx, rep, i, w):
                if v[0] == 'ref' and v[1] == 'a0': rep.good('%s: gives the content' % w)
                else: A.is_(w, e, s, v, e.expand(s, e.mk(('arg', 'a0'), t), None)[3][0], 'gives the content')
    # names of performatives
    for i, I, w, e, s, v in A.each('Frame', 'name'):
        t = strip_ref(P, I['locals'][1])[0]
        names = e.variant_names(t)
        k = s.variants.get(('arg', 'a0'))
        if k is None:
            left = [x for x in range(len(names)) if x not in s.nvar.get(('arg', 'a0'), ())]
            if len(left) == 1: k = left[0]
        if k is None: rep.undec(w, 'several kinds'); continue
        sl = as_slice(e, s, full(e, s, v))
        q = None
        if sl is not None and sl[1][0] == 'const' and sl[2].is_const() and sl[3].is_const(): q = sl[1][1][sl[2].c:sl[2].c + sl[3].c].decode('utf8', 'replace') == names[k]
        judge(cx, rep, e, s, w, q, 'names the performative', 'wrong name', 'a %s is called %s' % (names[k], shown(e, v)))

# ---- conversions ----

NAMED = {('Frame', '()'): 'Empty', ('Variant', '()'): 'Null'}

def conversions(cx, rep):
    P = cx.P
    n = 0
    for i, I in local_insts(P):
        if I['name'] not in ('from', 'into') or not (I.get('trait') or '').startswith(('core::convert::From', 'core::convert::Into')) or I['argc'] != 1 or closure_args(P, I): continue
        at, rt = I['locals'][1], I['locals'][0]
        if P.types[rt]['k'] != 'adt': continue
        w = pname(I)
        n += 1
        for e, s, v in runs(cx, rep, i, w):
            wrap(cx, rep, e, s, w, v, e.mk(('arg', 'a0'), at), at, rt)
    rep.cov['conversions'] = n

def exact(P, a, at):
    """variants of which the argument is exactly the content"""
    out = []
    want = [at]
    tup = P.types[at]['elems'] if P.types[at]['k'] == 'tuple' else None
    for vi, v in enumerate(a['variants']):
        ts = [f['tid'] for f in v['fields']]
        if ts == want or tup and len(tup) > 1 and ts == list(tup): out.append(vi)
    return out

def wrap(cx, rep, e, s, w, v, arg, at, rt, d=0):
    P = cx.P
    v = full(e, s, v)
    while v[0] == 'box': v = full(e, s, v[1])
    unit = P.types[at]['k'] == 'tuple' and not P.types[at]['elems']
    q0 = None
    if not unit:
        q0 = veq(cx, e, s, v, arg)
        if q0 is True: rep.good('%s: wraps its argument' % w); return
    if v[0] == 'agg' and v[1] is not None and e.adt(v[1]) is not None and d < 6:
        a = e.adt(v[1])
        T = e.ty(v[1])['path'].rsplit('::', 1)[-1]
        name = a['variants'][v[2]]['name']
        if a['kind'] == 'enum' and e.ty(v[1])['path'].split('::')[0] not in ('core', 'std', 'alloc'):
            ex = exact(P, a, at)
            if unit: ok = NAMED.get((T, '()'), name) == name and not v[3]
            elif ex: ok = v[2] in ex
            elif text_arg(cx, e, at) and d == 0:
                # a plain text becomes a string, not a symbol
                ts = [j for j, x in enumerate(a['variants']) if len(x['fields']) == 1 and is_text_type(cx, e, x['fields'][0]['tid'])]
                strs = [j for j in ts if a['variants'][j]['name'] == 'String']
                ok = v[2] in (strs or ts) if ts else True
            else: ok = True
            if not ok:
                q = False if precise(e, s) else None
                judge(cx, rep, e, s, w, q, '', 'wrong kind', 'gives %s::%s' % (T, name))
                return
            if unit: rep.good('%s: the empty kind' % w); return
            if ex and len(a['variants'][v[2]]['fields']) > 1:
                parts = [e.mk(('fld', ('arg', 'a0'), '', str(k)), t) for k, t in enumerate(P.types[at]['elems'])]
                judge(cx, rep, e, s, w, all3(veq(cx, e, s, x, y) for x, y in zip(v[3], parts)), 'wraps its arguments in order', 'loses or mixes up its argument', 'does not carry the parts of its argument in order')
                return
        if unit and a['kind'] != 'enum': rep.good('%s: nothing to carry' % w); return
        inner = [x for x in v[3]]
        if len(inner) == 1:
            wrap(cx, rep, e, s, w, inner[0], arg, at, rt, d + 1)
            return
        if a['kind'] == 'struct' and len(inner) > 1:
            # exactly one field takes the argument
            got = [veq(cx, e, s, x, arg) for x in inner]
            if any(g is True for g in got): rep.good('%s: carries its argument' % w)
            elif any(g is None for g in got): rep.undec(w, 'not modelled')
            else: judge(cx, rep, e, s, w, False, '', 'loses its argument', 'does not carry its argument')
            return
    judge(cx, rep, e, s, w, q0, 'wraps its argument', 'does not carry its argument', 'does not carry its argument (%s)' % shown(e, v))

def text_arg(cx, e, at):
    ty = cx.P.types[at]
    return ty['k'] in ('ref', 'str') and is_text_type(cx, e, at) or ty['k'] == 'adt' and ty['path'] in ('string::String', 'alloc::string::String')

def copies(cx, rep):
    P = cx.P
    n = 0
    for i, I in local_insts(P):
        if I['name'] not in ('clone', 'clone_from') or I.get('trait') != 'core::clone::Clone' or I['argc'] != 1 or closure_args(P, I): continue
        t, k = strip_ref(P, I['locals'][1])
        w = pname(I)
        n += 1
        for e, s, v in runs(cx, rep, i, w):
            src = e.mk(('arg', 'a0'), t)
            x = full(e, s, v)
            q = veq_memo(cx, e, s, x, src)
            judge(cx, rep, e, s, w, q, 'the copy is the same', 'the copy differs', 'the copy is not the same (%s)' % shown(e, x))
    rep.cov['Clone implementations'] = n

def c24(cx, rep):
    A = Api(cx, rep)
    accessors(cx, rep)
    messages(cx, rep, A)
    others(cx, rep, A)
    conversions(cx, rep)
    copies(cx, rep)
