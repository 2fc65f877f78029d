"""C16 (remembered sizes), C17 (observation changes nothing), C21 (text comparison)."""
from fns import *
from eng import neg
from loops import subst
from rules_size import fmt_state, pairs, imprecise_items
from rules_decode import opaque_state, has_opq

CELLS = ('Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'LazyCell', 'OnceLock', 'LazyLock', 'Mutex', 'RwLock', 'Once', 'Condvar', 'SyncUnsafeCell')

def cell_path(p):
    n = p.rsplit('::', 1)[-1]
    return n in CELLS and p.startswith(('core::', 'std::', 'alloc::')) or p.startswith('core::sync::atomic::') or p.startswith('std::sync::atomic::')

def memo_fields(P, path):
    """fields of a struct that are themselves a Cell"""
    a = P.adts[path]
    if not a['local'] or a['kind'] != 'struct': return []
    return [(i, f) for i, f in enumerate(a['variants'][0]['fields']) if P.types[f['tid']]['k'] == 'adt' and P.types[f['tid']]['path'] == 'core::cell::Cell']

def memo_types(P):
    out = {}
    for path in P.adts:
        m = memo_fields(P, path)
        if m: out[path] = m
    return out

def plainref(P, t):
    ty = P.types[t]
    while ty['k'] == 'ref': ty = P.types[ty['to']]
    return ty

def cell_source(v):
    """the term whose remembered value this is"""
    if v[0] == 't':
        t = v[1]
        return t
    if v[0] == 'i':
        a = v[1].single()
        if a is not None and a[0] == 'v' and isinstance(a[1], tuple) and a[1][0] == 'cellval': return a[1][1]
    return None

def same_as(e, s, v, term, depth=0):
    """is value v the content of term?  True, False (different for sure), None (not modelled)"""
    if v[0] == 't': return True if v[1] == term else (None if has_top(v[1]) else False)
    if v[0] == 'i':
        L = s.norm(v[1])
        a = L.single()
        if a is not None and a[0] == 'v' and a[1] == term: return True
        if any(x[0] == 'v' and x[1] == term for x in L.atoms()): return False if len(list(L.atoms())) == 1 else None
        return None if e.imprecise_lin(L) else False
    if v[0] == 'top': return None
    if v[0] == 'agg':
        if v[1] is None or e.ty(v[1])['k'] != 'adt': 
            return None
        vi = v[2]
        names = [x['name'] for x in e.adt(v[1])['variants']]
        if len(names) > 1 and s.variants.get(term) != vi: return False
        vn = names[vi] if e.adt(v[1])['kind'] == 'enum' else ''
        r = True
        for f, x in zip(e.adt(v[1])['variants'][vi]['fields'], v[3]):
            q = same_as(e, s, x, ('fld', term, vn, f['name']), depth + 1)
            if q is False: return False
            if q is None: r = None
        return r
    if v[0] in ('vec', 'map'):
        it = v[2]
        if len(it) == 1 and it[0] == ('base', term): return True
        return None if has_top(v) else False
    if v[0] in ('sl', 'own'):
        sl = v[2] if v[0] == 'own' else v
        if sl[1] == ('cont', term): return True
        return None if has_top(v) else False
    if v[0] == 'rv': return same_as(e, s, v[1], term, depth)
    if v[0] == 'box': return same_as(e, s, v[1], ('fld', term, '', '*'), depth) or None
    return None

class Memo:
    """the rule a value of a memo type must satisfy: the remembered size is unknown (0), or belongs to exactly this content"""
    def __init__(self, cx, rep, path, memo, content):
        self.cx, self.rep, self.path, self.memo, self.content = cx, rep, path, memo, content
        self.n = 0

    def value(self, e, s, v, where, computed=None):
        """v: a value of the memo type"""
        P, rep = self.cx.P, self.rep
        self.n += 1
        if v[0] == 't':
            if has_top(v): rep.undec(where, 'value not modelled')
            else: rep.good('%s: an existing message, as it was' % where)
            return
        if v[0] != 'agg': rep.undec(where, 'value not modelled'); return
        fields = P.adts[self.path]['variants'][0]['fields']
        for mi, mf in self.memo:
            c = v[3][mi]
            if c[0] == 'i':
                L = s.norm(c[1])
                if L == ZERO: rep.good('%s: the size is forgotten' % where); continue
                if computed is not None and s.equal(L, computed): rep.good('%s: remembers the size it has just computed' % where); continue
                if L.is_const():
                    if opaque_state(e, s): rep.undec(where, opaque_state(e, s))
                    else: rep.bad('%s: remembered size %d' % (where, L.c), '%s leaves the constant %d as remembered size (%s)' % (where, L.c, fmt_state(e, s)))
                    continue
            if computed is not None and c[0] == 'i' and cell_source(c) is None:
                d = s.norm(c[1] - computed)
                if e.sum_equal(s, d): rep.good('%s: remembers the size it has just computed' % where)
                elif opaque_state(e, s) or e.imprecise_lin(d): rep.undec(where, 'remembers %r, computes %r' % (s.norm(c[1]), s.norm(computed)))
                else: rep.bad('%s: remembers another size' % where, '%s remembers %r but computes %r (%s)' % (where, s.norm(c[1]), s.norm(computed), fmt_state(e, s)))
                continue
            if c[0] == 'agg' and e.ty(c[1])['k'] == 'adt' and e.ty(c[1])['path'] == 'core::option::Option' and c[2] == 0:
                rep.good('%s: the size is forgotten' % where); continue
            src = cell_source(c)
            if src is None or src[0] != 'fld' or src[3] != mf['name']:
                rep.undec(where, 'remembered size not modelled: %s' % (str(c)[:120],)); continue
            X = src[1]
            # is the remembered value known to be unset on this path?
            worst = True
            for i, f in enumerate(fields):
                if f['name'] not in self.content: continue
                q = same_as(e, s, v[3][i], ('fld', X, '', f['name']))
                if q is False:
                    if opaque_state(e, s): worst = None; continue
                    worst = False
                    rep.bad('%s: %s changed, size kept' % (where, f['name']), '%s changes %s but keeps the remembered size (field %s) of the old content (%s)' % (where, f['name'], mf['name'], fmt_state(e, s)))
                elif q is None and worst: worst = None
            if worst: rep.good('%s: content and remembered size both unchanged' % where)
            elif worst is None: rep.undec(where, 'content not modelled')

    def keeps(self, e, s, v):
        """may a remembered size be left in v"""
        if v[0] != 'agg': return True
        return any(not (v[3][mi][0] == 'i' and s.norm(v[3][mi][1]) == ZERO) for mi, _ in self.memo)

    def find(self, e, s, v, where):
        """messages inside a value"""
        if not isinstance(v, tuple) or not v: return
        if v[0] == 'agg' and v[1] is not None and e.ty(v[1])['k'] == 'adt' and e.ty(v[1])['path'] == self.path:
            self.value(e, s, v, where)
            return
        if v[0] == 'fn': return
        for x in v:
            if isinstance(x, tuple): self.find(e, s, x, where)

def c16(cx, rep):
    P = cx.P
    mt = memo_types(P)
    rep.cov['remembering_types'] = sorted(mt)
    if not mt: rep.good('no type remembers its size')
    nf = 0
    for path, memo in sorted(mt.items()):
        T = path
        t = P.tystr.get(T)
        fields = P.adts[path]['variants'][0]['fields']
        if t is None or (ENC, 'encoded_size', t) not in P.resolve: rep.undec(T, 'not encodable'); continue
        nm = T.rsplit('::', 1)[-1]
        # 1. what the size and the encoding depend on
        content = set()
        for m in ('encoded_size', 'encode'):
            e, r = cx.outcomes(ENC, m, t)
            if isinstance(r, Undecided): rep.undec('%s::%s' % (nm, m), r); content |= {f['name'] for f in fields}; continue
            for s, v in r:
                seen = [v, tuple(s.variants), tuple(x for x in s.events)] + ([s.cells['buf']] if m == 'encode' else [])
                for f in fields:
                    if any(mentions(x, lambda y: y == ('fld', ('arg', 'self'), '', f['name'])) for x in seen): content.add(f['name'])
        content -= {f['name'] for _, f in memo}
        for f in fields:
            if f['name'] in content and f['pub']:
                rep.bad('%s.%s is public' % (nm, f['name']), '%s.%s is part of the encoding and public: callers can change it and the remembered size stays' % (T, f['name']))
            elif f['name'] in content: rep.good('%s.%s can only be changed through methods' % (nm, f['name']))
        for _, f in memo:
            if f['pub']: rep.bad('%s.%s is public' % (nm, f['name']), '%s.%s, the remembered size, is public' % (T, f['name']))
            else: rep.good('%s.%s is private' % (nm, f['name']))
        M = Memo(cx, rep, path, memo, content)
        # 2. the size function
        e, r = cx.outcomes(ENC, 'encoded_size', t)
        if not isinstance(r, Undecided):
            for s, v in r:
                where = '%s::encoded_size' % nm
                w = opaque_state(e, s)
                if v[0] != 'i': rep.undec(where, 'result not modelled'); continue
                L = s.norm(v[1])
                after = s.cells['self']
                if is_cached(L):
                    a = L.single()
                    if a is not None and a[0] == 'v' and a[1][1][0] == 'fld' and a[1][1][1] == ('arg', 'self'):
                        if s.implies(L - 1): rep.good('%s: answers with the remembered size when there is one' % where)
                        elif w: rep.undec(where, w)
                        else: rep.bad('%s: 0 remembered' % where, '%s answers with the remembered size also when none is remembered (%s)' % (where, fmt_state(e, s)))
                        M.value(e, s, after, where)
                    elif w or e.imprecise_lin(L): rep.undec(where, w or 'size %r' % L)
                    else: rep.bad('%s: altered memory' % where, '%s returns %r, which is not the remembered size (%s)' % (where, L, fmt_state(e, s)))
                    continue
                M.value(e, s, after, where, L)
        # computed sizes are true
        for e, s, s1, v1, s2, v2 in pairs(cx, rep, ENC, t, 'encoded_size', 'encode'):
            if v1[0] != 'i' or is_cached(v1[1]): continue
            buf = s2.cells['buf']
            where = '%s: computed size' % nm
            if buf[0] != 'bm': rep.undec(where, 'buffer not modelled'); continue
            d = s.norm(v1[1] - e.items_len(buf[4]))
            if e.sum_equal(s, d): rep.good('%s is the number of bytes of the current content' % where)
            elif s.imprecise or any(x[0] == 'lostput' for x in s2.events) or e.imprecise_lin(d) or imprecise_items(e, buf[4]): rep.undec(where, '%s' % (s.imprecise,))
            else: rep.bad('%s wrong' % where, '%s announces %r for content of %r bytes (%s)' % (T, s.norm(v1[1]), s.norm(e.items_len(buf[4])), fmt_state(e, s)))
        # 3. everything that makes, changes or sees such a value
        for i, I in local_insts(P):
            if is_closure(I) or not I['pub'] or closure_args(P, I) or I['name'] == 'encoded_size' and I.get('trait') == ENC: continue
            tys = [plainref(P, I['locals'][k]) for k in range(I['argc'] + 1)]
            if not any(ty['k'] == 'adt' and (ty['path'] == path or any(a is not None and mentions_type(P, a, path) for a in ty.get('args') or [])) for ty in tys) : continue
            where = short(I['path'])
            e, r = run_fn(cx, i)
            nf += 1
            if isinstance(r, Undecided): rep.undec(where, r); continue
            for s, v in r:
                if has_top(v) and plainref(P, I['locals'][0]).get('path') == path: rep.undec(where, 'result not modelled: %s' % (s.imprecise,))
                else: M.find(e, s, v, where)
                for k in range(I['argc']):
                    ty = P.types[I['locals'][k + 1]]
                    if ty['k'] == 'ref' and plainref(P, I['locals'][k + 1]).get('path') == path:
                        now = s.cells.get('a%d' % k, ('top', ''))
                        M.value(e, s, now, where)
                        for x in walk(v):
                            # a mutable reference to part of the content leaves the function: the size must be forgotten
                            if x[:1] == ('ref',) and len(x) == 4 and x[1] == 'a%d' % k and x[3] and x[2] and M.keeps(e, s, now):
                                fn = [y for y in x[2] if isinstance(y, tuple) and y[0] == 'f']
                                f = fields[fn[0][2]]['name'] if fn else '?'
                                if f not in content: continue
                                if opaque_state(e, s): rep.undec(where, 'hands out a mutable reference')
                                else: rep.bad('%s: %s open to change, size kept' % (where, f), '%s hands out a mutable reference into %s but keeps the remembered size (%s)' % (where, f, fmt_state(e, s)))
                for x in s.events:
                    if x[0] == 'fcall': M.find(e, s, x[2], '%s, handed to the caller\'s function' % where)
        rep.cov['values_checked:' + nm] = M.n
        rep.cov['content:' + nm] = sorted(content)
    rep.cov['functions'] = nf

def mentions_type(P, t, path, seen=None):
    seen = set() if seen is None else seen
    if t in seen: return False
    seen.add(t)
    ty = P.types[t]
    if ty['k'] == 'adt' and ty['path'] == path: return True
    for x in list(ty.get('args') or []) + [ty[k] for k in ('to', 'elem') if k in ty] + list(ty.get('elems') or []):
        if isinstance(x, int) and mentions_type(P, x, path, seen): return True
    return False

# ---------------------------------------------------------------- C17
def is_cellval(x): return isinstance(x, tuple) and len(x) == 2 and x[0] == 'cellval'

def retarget(x, m, memo):
    """replace the term m[0] by m[1], except inside remembered values"""
    if isinstance(x, Lin):
        r = memo.get(x)
        if r is None:
            r = Lin(x.c)
            for a, k in x.t:
                at = ATOMS[a]
                n = retarget(at, m, memo)
                r = r + (Lin(0, ((a, k),)) if n == at else atom(n, BLO[a], BHI[a]).scale(k))
            memo[x] = r
        return r
    if isinstance(x, tuple):
        if x == m[0]: return m[1]
        if is_cellval(x): return x
        o = tuple(retarget(y, m, memo) if isinstance(y, (tuple, Lin)) else y for y in x)
        return o if o != x else x
    return x

def moved(s, m):
    """the conditions of s with one term replaced by another; None when they contradict each other"""
    memo = {}
    r = lambda x: retarget(x, m, memo)
    n = State()
    for t, v in s.variants.items():
        t = r(t)
        if n.variants.get(t, v) != v: return None
        n.variants[t] = v
    for t, ex in s.nvar.items():
        t = r(t)
        n.nvar[t] = tuple(set(n.nvar.get(t, ())) | set(ex))
    for t, v in n.variants.items():
        if v in n.nvar.get(t, ()): return None
    for k, v in s.preds.items():
        k = r(k)
        if k[0] == 'eqv' and k[1] == k[2] and not v: return None
        if not n.setpred(k, v): return None
    for a, v in s.eqc.items():
        if not n.addeq(r(Lin(-v, ((a, 1),)))): return None
    for f in s.facts:
        if not n.add(r(f)): return None
    for f in s.nes:
        if not n.addne(r(f)): return None
    for x in s.imprecise: n.note(x)
    return n

def cell_atoms(s, *more):
    out = {}
    for L in list(s.facts) + list(s.nes) + [Lin(0, ((a, 1),)) for a in s.eqc] + [x for x in more if isinstance(x, Lin)]:
        for a, _ in L.t:
            at = ATOMS[a]
            if at[0] == 'v' and is_cellval(at[1]): out[a] = at[1][1]
    return out

def with_cells(e, s, tp, who, v=None):
    """all ways the remembered sizes can be - unknown, or the size of the content -: [(state, value)]"""
    todo = [(s, v, s)]
    ids = cell_atoms(s, *lins(v))
    for a, t in sorted(ids.items()):
        nxt = []
        X = retarget(t[1], who, {}) if who else t[1]
        own = X in (('arg', 'a0'), ('arg', 'a1'), ('arg', 'self'))
        S = e.size_atom(ENC, tp if own else '?', X)
        for q, w, _ in todo:
            for new in (Lin(0), S):
                z = resub(q, {a: new})
                if z is None: continue
                if new is S and not z.add(S - 1): continue
                nxt.append((z, subst(w, {a: new}, None, {}) if w is not None else None, q))
        todo = nxt
    return [(q, w) for q, w, _ in todo]

def lins(x):
    if isinstance(x, Lin): yield x
    elif isinstance(x, tuple):
        for y in x: yield from lins(y)

def resub(s, m):
    """the state with atoms replaced; None when infeasible"""
    r = lambda x: subst(x, m, None, {})
    n = s.copy()
    n.facts, n.nes, n.eqc = (), (), {}
    for a, v in s.eqc.items():
        if not n.addeq(r(Lin(-v, ((a, 1),)))): return None
    for f in s.facts:
        if not n.add(r(f)): return None
    for f in s.nes:
        if not n.addne(r(f)): return None
    for f in n.nes:
        if n.implies(f) and n.implies(-f): return None
    return n

def truths(s, c):
    """[(state, truth)]: the ways a returned condition can come out"""
    if c is True or c is False: return [(s, c)]
    if isinstance(c, tuple) and c[0] in ('p', 'np') and isinstance(c[1], tuple):
        pos = c[0] == 'p'
        if c[1][0] == 'eqv' and c[1][1] == c[1][2]: return [(s, pos)]
        out = []
        for val in (True, False):
            z = s.copy()
            if z.setpred(c[1], val): out.append((z, val == pos))
        return out
    if isinstance(c, tuple) and c[0] in ('and', 'or'):
        stop = c[0] == 'or'
        live = [s]
        out = []
        for x in c[1:]:
            nxt = []
            for z in live:
                for y, val in truths(z, x):
                    if val is None: out.append((y, None))
                    elif val == stop: out.append((y, stop))
                    else: nxt.append(y)
            live = nxt
        return out + [(z, not stop) for z in live]
    tv = s.tv(c)
    if tv is not None: return [(s, tv)]
    return [(z, True) for z in s.copy().assume(c)] + [(z, False) for z in s.copy().assume(neg(c))]

def result_true(s, v):
    """truth of a returned bool, None when either"""
    if v[0] != 'b': return None
    got = {x for _, x in truths(s, v[1])}
    return got.pop() if len(got) == 1 else None

def forget_cells(s):
    """drop what is only known about remembered values"""
    n = s.copy()
    ids = set(cell_atoms(s))
    n.facts = tuple(f for f in n.facts if not any(a in ids for a, _ in f.t))
    n.nes = tuple(f for f in n.nes if not any(a in ids for a, _ in f.t))
    n.eqc = {a: v for a, v in n.eqc.items() if a not in ids}
    return n

def eq_impls(P):
    """(instance, self type, other type) of the local equality functions"""
    for i, I in local_insts(P):
        if I['name'] in ('eq', 'ne') and I.get('trait') == 'core::cmp::PartialEq' and I['argc'] == 2:
            yield i, I, plain_tid(P, I['locals'][1]), plain_tid(P, I['locals'][2])

def plain_tid(P, t):
    while P.types[t]['k'] == 'ref': t = P.types[t]['to']
    return t

def holds_cells(P, t, path=(), seen=None):
    """fields through which a value of the type owns interior-mutable storage: [(adt, field, cell type)]"""
    seen = set() if seen is None else seen
    if t in seen: return []
    seen.add(t)
    ty = P.types[t]
    out = []
    if ty['k'] == 'adt':
        a = P.adts.get(ty['path'])
        if a is not None and a['local']:
            for v in a['variants']:
                for f in v['fields']:
                    ft = P.types[f['tid']]
                    if ft['k'] == 'adt' and cell_path(ft['path']): out.append((ty['path'], f['name'], P.ts(f['tid'])))
                    else: out += holds_cells(P, f['tid'], path, seen)
        for x in ty.get('args') or []:
            if isinstance(x, int):
                xt = P.types[x]
                if xt['k'] == 'adt' and cell_path(xt['path']): out.append((ty['path'], '', P.ts(x)))
                else: out += holds_cells(P, x, path, seen)
    else:
        for x in [ty[k] for k in ('to', 'elem') if k in ty] + list(ty.get('elems') or []):
            if isinstance(x, int): out += holds_cells(P, x, path, seen)
    return out

def c17(cx, rep):
    P = cx.P
    mt = memo_types(P)
    rep.cov['remembering_types'] = sorted(mt)
    # 1. interior mutability is confined to the remembered sizes
    cells = set()
    for path, a in sorted(P.adts.items()):
        if not a['local']: continue
        for v in a['variants']:
            for f in v['fields']:
                hc = [(path, f['name'], P.ts(f['tid']))] if P.types[f['tid']]['k'] == 'adt' and cell_path(P.types[f['tid']]['path']) else []
                if not hc and any(cell_path(P.types[x]['path']) for x in subtypes(P, f['tid']) if P.types[x]['k'] == 'adt'): hc = [(path, f['name'], P.ts(f['tid']))]
                if not hc: rep.good('%s.%s: no interior mutability' % (path, f['name'])); continue
                cells.add((path, f['name']))
                if path in mt and any(x['name'] == f['name'] for _, x in mt[path]): rep.good('%s.%s: a cell, its influence is checked below' % (path, f['name']))
                else: rep.undec('%s.%s' % (path, f['name']), 'interior mutability through %s' % hc[0][2])
    rep.cov['cells'] = sorted('%s.%s' % c for c in cells)
    # 2. read-only methods change nothing but the remembered size
    nro = 0
    for path, memo in sorted(mt.items()):
        fields = P.adts[path]['variants'][0]['fields']
        mnames = {f['name'] for _, f in memo}
        for i, I in local_insts(P):
            if is_closure(I) or not I['pub'] or closure_args(P, I): continue
            ks = [k for k in range(I['argc']) if P.types[I['locals'][k + 1]]['k'] == 'ref' and not P.types[I['locals'][k + 1]].get('mut') and P.types[P.types[I['locals'][k + 1]]['to']].get('path') == path]
            if not ks: continue
            e, r = run_fn(cx, i)
            where = short(I['path'])
            if isinstance(r, Undecided): rep.undec(where, r); continue
            for s, v in r:
                for k in ks:
                    now = s.cells.get('a%d' % k)
                    nro += 1
                    if now is None: rep.undec(where, 'argument not modelled'); continue
                    if now[0] != 'agg': 
                        rep.good('%s leaves its argument alone' % where) if not has_top(now) else rep.undec(where, 'argument not modelled')
                        continue
                    for j, f in enumerate(fields):
                        if f['name'] in mnames: continue
                        q = same_as(e, s, now[3][j], ('fld', ('arg', 'a%d' % k), '', f['name']))
                        if q is False and not opaque_state(e, s): rep.bad('%s changes %s' % (where, f['name']), '%s changes %s through a shared reference (%s)' % (where, f['name'], fmt_state(e, s)))
                        elif q: rep.good('%s leaves %s alone' % (where, f['name']))
                        else: rep.undec(where, '%s not modelled' % f['name'])
    rep.cov['read_only_paths'] = nro
    # 3. equality: equal content is equal, whatever is remembered
    neq = 0
    for i, I, ta, tb in eq_impls(P):
        if ta != tb or cx.isparam(ta): continue
        where = short(I['path'])
        T = P.ts(ta)
        e, r = run_fn(cx, i)
        if isinstance(r, Undecided): rep.undec(where, r); continue
        neg = I['name'] == 'ne'
        anycell = False
        for s, v in r:
            neq += 1
            anycell = anycell or bool(cell_atoms(s, *lins(v)))
            m = moved(s, (('arg', 'a1'), ('arg', 'a0')))
            if m is None: rep.good('%s: not reachable with equal content' % where); continue
            live = with_cells(e, m, T, (('arg', 'a1'), ('arg', 'a0')), retarget(v, (('arg', 'a1'), ('arg', 'a0')), {}))
            for q, vv in live:
                tr = result_true(q, vv)
                if tr is not None and neg: tr = not tr
                if tr is True: rep.good('%s: equal content compares equal' % where)
                elif tr is None or opaque_state(e, s) or e_imprecise(e, q): rep.undec(where, opaque_state(e, s) or 'result not modelled: %s' % (str(v)[:100],))
                else: rep.bad('%s: equal content differs' % where, '%s says two values of the same content differ: %s' % (where, fmt_state(e, s)))
            if not live: rep.good('%s: not reachable with equal content' % where)
        if anycell and ta_is(P, ta, mt): history(cx, rep, e, r, where, T, mt[P.types[ta]['path']], P)
    rep.cov['equality_paths'] = neq
    # 4. what is written and hashed does not depend on what is remembered
    for tr, t in cx.enc_roots():
        T = P.ts(t)
        m = 'encode' if tr == ENC else 'array_encode'
        e, r = cx.outcomes(tr, m, t)
        if isinstance(r, Undecided): rep.undec('%s::%s' % (T, m), r); continue
        dep = [(s, v) for s, v in r if cell_atoms(s) or mentions(s.cells['buf'], is_cellval)]
        if not dep: rep.good('%s: what is written does not depend on a remembered size' % T); continue
        written(cx, rep, e, r, dep, T, t)
    for i, I in local_insts(P):
        if I['name'] != 'hash' or I.get('trait') != 'core::hash::Hash' or not I['pub']: continue
        hc = holds_cells(P, plain_tid(P, I['locals'][1]))
        if not hc: rep.good('%s: hashes immutable content only' % short(I['path'])); continue
        for b in bodies(I):
            for c in calls(I):
                if cpath(c).startswith('core::cell::Cell') and cpath(c).endswith('::get'):
                    rep.bad('%s hashes a remembered value' % short(I['path']), '%s reads a cell (%s)' % (short(I['path']), cpath(c)))

def e_imprecise(e, s): return any(e.imprecise_lin(f) for f in s.facts + s.nes)

def ta_is(P, t, mt): return P.types[t]['k'] == 'adt' and P.types[t]['path'] in mt

def subtypes(P, t, seen=None):
    """type arguments of a type, transitively"""
    seen = set() if seen is None else seen
    if t in seen: return seen
    seen.add(t)
    ty = P.types[t]
    for x in list(ty.get('args') or []) + [ty[k] for k in ('to', 'elem') if k in ty] + list(ty.get('elems') or []):
        if isinstance(x, int): subtypes(P, x, seen)
    return seen

def history(cx, rep, e, r, where, T, memo, P):
    """the answer for the same two contents must not depend on what is remembered"""
    fields = [f['name'] for f in P.adts[P.types[P.tystr[T]]['path']]['variants'][0]['fields'] if f['name'] not in {x['name'] for _, x in memo}]
    out = []
    for s, v in r:
        if opaque_state(e, s) or e_imprecise(e, s): rep.undec(where, 'outcome not modelled'); return
        for q, w in with_cells(e, s, T, None, v):
            if v[0] != 'b': rep.undec(where, 'result not modelled'); return
            for z, val in truths(q, w[1]):
                if val is None: rep.undec(where, 'result not modelled'); return
                out.append((forget_cells(z), val, s))
    bad = None
    for i, (x, a, sx) in enumerate(out):
        for y, b, sy in out[i + 1:]:
            if a == b: continue
            m = merge(x, y)
            if m is None: continue
            if all(m.preds.get(('eqv', ('fld', ('arg', 'a0'), '', f), ('fld', ('arg', 'a1'), '', f))) for f in fields):
                d = e.size_atom(ENC, T, ('arg', 'a0')) - e.size_atom(ENC, T, ('arg', 'a1'))
                if not m.addeq(d): continue
            bad = (sx, sy)
    if bad: rep.bad('%s: depends on what was asked before' % where, '%s answers differently for the same two contents depending on the remembered sizes: paths [%s] and [%s]' % (where, fmt_state(e, bad[0]), fmt_state(e, bad[1])))
    else: rep.good('%s: the answer does not depend on what is remembered' % where)

def written(cx, rep, e, r, dep, T, t):
    where = '%s: what is written' % T
    if (ENC, 'encoded_size', t) not in cx.P.resolve: rep.undec(where, 'depends on a remembered value'); return
    e2, sz = cx.outcomes(ENC, 'encoded_size', t)
    if isinstance(sz, Undecided): rep.undec(where, sz); return
    full = [(s, s.norm(v[1])) for s, v in sz if v[0] == 'i' and not is_cached(v[1])]
    bad = None
    n = 0
    import time
    t0 = time.time()
    for s, v in dep:
        if opaque_state(e, s): rep.undec(where, opaque_state(e, s)); continue
        # the contents this path is taken for, with a remembered size
        for sf, S in full:
            q = merge(s, forget_cells(sf))
            if q is None: continue
            ok = True
            for a, X in cell_atoms(s).items():
                if X[1] != ('arg', 'self'): ok = False
                elif not q.addeq(Lin(0, ((a, 1),)) - S): ok = None; break
            if ok is None: continue
            if not ok: rep.undec(where, 'depends on a remembered value'); return
            q = forget_cells(q)
            for s2, v2 in r:
                if s2 is s: continue
                if s2.cells['buf'] == s.cells['buf']: continue
                z2 = s2.copy()
                good = True
                for a in cell_atoms(s2):
                    if not z2.addeq(Lin(0, ((a, 1),))): good = False
                if not good: continue
                m = merge(q, forget_cells(z2))
                n += 1
                if m is not None and not opaque_state(e, s2):
                    if s.cells['buf'][0] != 'bm' or s2.cells['buf'][0] != 'bm': continue
                    bad = (s, s2, m)
                    break
                if time.time() - t0 > 120: rep.undec(where, 'too many combinations'); return
            if bad: break
        if bad: break
    if bad: rep.bad('%s depends on what was asked before' % where, '%s: for the same content [%s] different bytes are written once its size has been asked for: paths [%s] and [%s]' % (where, fmt_state(e, bad[2]), fmt_state(e, bad[0]), fmt_state(e, bad[1])))
    else: rep.good('%s does not depend on what is remembered (%d combinations)' % (where, n))
