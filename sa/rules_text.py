"""C21: strings and symbols compare, hash and order by content alone."""
from fns import *
from eng import neg
from builtins_ import as_slice, full
from rules_size import fmt_state
from rules_decode import opaque_state, has_opq
from rules_obs import truths, moved, retarget, plain_tid, eq_impls

def is_text_type(cx, e, t, seen=()):
    """str, or a local type that is nothing but one text, whatever its representation"""
    ty = cx.P.types[t]
    if ty['k'] == 'str': return True
    if ty['k'] == 'ref': return is_text_type(cx, e, ty['to'], seen)
    if ty['k'] != 'adt' or t in seen: return False
    if ty['path'] in ('string::String', 'alloc::string::String'): return True
    a = cx.P.adts.get(ty['path'])
    if a is None or not a['local'] or not a['variants']: return False
    return all(len(v['fields']) == 1 and is_text_type(cx, e, v['fields'][0]['tid'], seen + (t,)) for v in a['variants'])

def key(s, sl): return ('sl', sl[1], s.norm(sl[2]), s.norm(sl[3]))

def whole(e, s, term, t):
    """the complete text of an argument"""
    v = as_slice(e, s, e.mk(term, t))
    return None if v is None else key(s, v)

def equal_known(s, A, B):
    if A == B: return True
    v = s.getpred(('eqv',) + tuple(sorted((A, B), key=repr)))
    if v is not None: return v
    for k, v in s.preds.items():
        if k[0] == 'eqv' and all(isinstance(x, tuple) and x and x[0] == 'sl' for x in k[1:]):
            for x, y in (k[1:], k[:0:-1]):
                if x[1] == A[1] and y[1] == B[1] and all(s.equal(p, q) for p, q in zip(x[2:4] + y[2:4], A[2:4] + B[2:4])): return v
    return None

def precise(e, s):
    if opaque_state(e, s) or any(e.imprecise_lin(f) for f in s.facts + s.nes): return False
    return not any(has_top(k) for k in s.preds)

def can_be_equal(e, s, ta, tb):
    """can the conditions of a path hold when both terms have the same content"""
    s = s.copy()
    # the representation of a text is no part of its content
    s.variants = {t: v for t, v in s.variants.items() if t not in (ta, tb)}
    s.nvar = {t: v for t, v in s.nvar.items() if t not in (ta, tb)}
    rep = lambda a: ATOMS[a][0] == 'disc' and ATOMS[a][1] in (ta, tb)
    s.eqc = {a: v for a, v in s.eqc.items() if not rep(a)}
    s.facts = tuple(f for f in s.facts if not any(rep(a) for a, _ in f.t))
    s.nes = tuple(f for f in s.nes if not any(rep(a) for a, _ in f.t))
    m = moved(s, (tb, ta))
    if m is None: return False
    for f in m.nes:
        if m.implies(f) and m.implies(-f): return False
    return True

def name(I): return short(I['path'])

def arg_types(P, I): return [plain_tid(P, I['locals'][k + 1]) for k in range(I['argc'])]

def check_eq(cx, rep, i, I):
    P = cx.P
    ta, tb = arg_types(P, I)
    w = '%s (%s, %s)' % (name(I), P.ts(ta), P.ts(tb))
    e, r = run_watched(cx, i)
    if isinstance(r, Undecided): rep.undec(w, r); return
    if recursion(rep, e, w): return
    A, B = (('arg', 'a0'), ('arg', 'a1'))
    for s, v in r:
        if v[0] != 'b': rep.undec(w, 'result not modelled'); continue
        for z, val in truths(s, v[1]):
            if I['name'] == 'ne' and val is not None: val = not val
            for z, SA, SB in contents(cx, e, z, ta, tb):
                if SA is None: # not a textual value
                    if val is True and precise(e, z): rep.bad('%s: equal to a text without being one' % w, '%s is true for a value that is not that text: %s' % (w, fmt_state(e, z)))
                    elif val is None or not precise(e, z): rep.undec(w, 'not modelled')
                    else: rep.good('%s: other kinds of value differ from a text' % w)
                    continue
                if val is None or not precise(e, z): rep.undec(w, opaque_state(e, z) or 'not modelled'); continue
                if val: 
                    if equal_known(z, SA, SB): rep.good('%s: true only for the same text' % w)
                    else: rep.bad('%s: true for different texts' % w, '%s is true without the texts being compared in full: %s%s' % (w, fmt_state(e, z), preds_text(z)))
                else:
                    if equal_known(z, SA, SB) is False or not can_be_equal(e, z, SA[1][1], SB[1][1]): rep.good('%s: false only for different texts' % w)
                    else: rep.bad('%s: false for the same text' % w, '%s is false for values of the same text: %s%s' % (w, fmt_state(e, z), preds_text(z)))

def preds_text(s):
    ps = ['%s %s(%s)' % ('' if v else 'not', k[0], ', '.join(E.show(x) if not (isinstance(x, tuple) and x and x[0] == 'sl') else 'text of ' + E.show(x[1][1]) for x in k[1:] if isinstance(x, tuple))) for k, v in s.preds.items()]
    return '; ' + ', '.join(ps) if ps else ''

def contents(cx, e, s, ta, tb):
    """(state, text of a0 | None, text of a1 | None) for the textual variants the arguments can be"""
    out = []
    for z, x in sides(cx, e, s, ('arg', 'a0'), ta):
        for q, y in sides(cx, e, z, ('arg', 'a1'), tb):
            out.append((q, x if y is not None else None, y))
    return out

def sides(cx, e, s, term, t):
    if is_text_type(cx, e, t): return [(s, whole(e, s, term, t))]
    a = cx.P.adts[cx.P.types[t]['path']]
    out = []
    for vi, v in enumerate(a['variants']):
        if s.variants.get(term, vi) != vi or vi in s.nvar.get(term, ()): continue
        z = s.copy()
        z.variants = dict(z.variants)
        z.variants[term] = vi
        x = None
        if len(v['fields']) == 1 and is_text_type(cx, e, v['fields'][0]['tid']):
            g = e.expand(z, e.mk(term, t), vi)
            sl = as_slice(e, z, g[3][0])
            if sl is not None: x = key(z, sl)
        out.append((z, x))
    return out

def run_watched(cx, i):
    k = ('watched', i)
    if k not in cx.cache:
        P = cx.P
        I = P.inst[i]
        e = cx.eng()
        e.opts_watch = True
        st = State()
        args = []
        for n in range(I['argc']):
            t = I['locals'][n + 1]
            ty = e.ty(t)
            c = 'a%d' % n
            if ty['k'] == 'ref':
                while e.ty(ty['to'])['k'] == 'ref': ty = e.ty(ty['to'])
                v = e.mk(('arg', c), ty['to'])
                if v[0] == 'sl': args.append(v)
                else:
                    st.cells[c] = v
                    args.append(('ref', c, (), bool(ty.get('mut'))))
            else: args.append(e.mk(('arg', c), t))
        r = cx.go(e, i, args, st)
        cx.absorb(e)
        cx.cache[k] = (e, r)
    return cx.cache[k]

def recursion(rep, e, w):
    if not e.endless: rep.good('%s: terminates' % w); return False
    chain, _ = e.endless[0]
    rep.bad('%s: endless recursion' % w, '%s calls itself on the same arguments: %s' % (w, ' -> '.join(chain)))
    return True

def ordering(e, s, v):
    """('L'|'E'|'G') or ('ord', x, y) of a value of type Ordering, after looking at what is known about it"""
    if v[0] == 'agg': return 'LEG'[v[2]]
    if v[0] == 't' and v[1][0] == 'ord':
        k = s.variants.get(v[1])
        return 'LEG'[k] if k is not None else v[1]
    return None

def ord_facts(s):
    """outcomes of comparisons the path has looked at"""
    out = {}
    for t, v in s.variants.items():
        if isinstance(t, tuple) and t and t[0] == 'ord': out[(t[1], t[2])] = 'LEG'[v]
    return out

def check_cmp(cx, rep, i, I):
    P = cx.P
    ta, tb = arg_types(P, I)
    w = '%s (%s)' % (name(I), P.ts(ta))
    e, r = run_watched(cx, i)
    if isinstance(r, Undecided): rep.undec(w, r); return None
    if recursion(rep, e, w): return None
    A, B = ('arg', 'a0'), ('arg', 'a1')
    out = []
    for s, v in r:
        if I['name'] == 'partial_cmp':
            if v[0] == 'agg' and v[2] == 0:
                rep.bad('%s: no order' % w, '%s answers None: %s' % (w, fmt_state(e, s))) if precise(e, s) else rep.undec(w, 'not modelled')
                continue
            v = v[3][0] if v[0] == 'agg' else v
        o = ordering(e, s, v)
        SA, SB = whole(e, s, A, ta), whole(e, s, B, tb)
        if o is None or not precise(e, s) or SA is None or SB is None: rep.undec(w, 'result not modelled'); continue
        if isinstance(o, tuple):
            if {o[1], o[2]} == {A, B}: rep.good('%s: the order of the texts' % w)
            elif (o[1], o[2]) in ((SA, SB), (SB, SA)): rep.good('%s: the order of the texts' % w)
            else: rep.undec(w, 'order of %s and %s' % (E.show(o[1]), E.show(o[2])))
            out.append((s, ('o', o[1] == A or o[1] == SA)))
            continue
        of = {k: x for k, x in ord_facts(s).items() if k in ((A, B), (B, A), (SA, SB), (SB, SA))}
        eq = equal_known(s, SA, SB)
        if eq is None and 'E' in of.values(): eq = True
        if eq is None and of: eq = False
        if o == 'E':
            if eq: rep.good('%s: equal only for the same text' % w)
            else: rep.bad('%s: different texts are ordered equal' % w, '%s answers Equal without the texts being the same: %s%s' % (w, fmt_state(e, s), preds_text(s)))
        else:
            if eq is False or eq is None and not can_be_equal(e, s, SA[1][1], SB[1][1]): rep.good('%s: the same text is never ordered apart' % w)
            else: rep.bad('%s: the same text is ordered apart' % w, '%s answers %s for values that can have the same text: %s%s' % (w, {'L': 'Less', 'G': 'Greater'}[o], fmt_state(e, s), preds_text(s)))
        x = o
        out.append((s, ('c', o)))
    # the order of (a, b) is the reverse of that of (b, a)
    for n, (s, x) in enumerate(out):
        for q, y in out[n:]:
            z = swapped(q)
            m = merge(s, z) if z is not None else None
            if m is None: continue
            if x[0] == 'c' and y[0] == 'c':
                if {x[1], y[1]} in ({'L', 'G'}, {'E'}): rep.good('%s: antisymmetric' % w)
                elif not m.facts and not m.nes: rep.bad('%s: not antisymmetric' % w, '%s answers %s for (a, b) and %s for (b, a): %s' % (w, x[1], y[1], fmt_state(e, m)))
                else: rep.undec(w, 'antisymmetry')
            elif x[0] == 'o' and y[0] == 'o':
                if x[1] == y[1]: rep.good('%s: antisymmetric' % w)
                else: rep.bad('%s: not antisymmetric' % w, '%s compares (a, b) one way round and (b, a) the other: %s' % (w, fmt_state(e, m)))
            else:
                if not m.facts and not m.nes and not m.preds: rep.bad('%s: not antisymmetric' % w, '%s has a fixed answer for (a, b) and one by content for (b, a): %s' % (w, fmt_state(e, m)))
                else: rep.undec(w, 'antisymmetry')
    return e, out

def swapped(s):
    t = ('arg', 'swap')
    a = moved(s, (('arg', 'a0'), t))
    a = a and moved(a, (('arg', 'a1'), ('arg', 'a0')))
    return a and moved(a, (t, ('arg', 'a1')))

def hash_events(s):
    out = []
    for x in s.events:
        if x[0] not in ('hash', 'hwrite'):
            if x[0] == 'loop' and mentions(x, lambda y: y and y[0] in ('hash', 'hwrite')): out.append(('loop', '', x))
            continue
        if x == ('hwrite', 'u8', ('i', Lin(255))) and out and out[-1][:2] == ('hwrite', 'bytes'): out[-1] = ('hash', 'str', out[-1][2])
        else: out.append(x)
    return out

def check_text_hash(cx, rep, i, I):
    P = cx.P
    t = plain_tid(P, I['locals'][1])
    w = '%s' % name(I)
    e, r = run_watched(cx, i)
    if isinstance(r, Undecided): rep.undec(w, r); return
    if recursion(rep, e, w): return
    for s, v in r:
        A = whole(e, s, ('arg', 'a0'), t)
        H = [(x[0], x[1], x[2]) for x in hash_events(s)]
        if A is None or not precise(e, s): rep.undec(w, opaque_state(e, s) or 'not modelled'); continue
        as_str = [('hash', 'str', A)]
        spelt = [('hwrite', 'bytes', A), ('hwrite', 'u8', ('i', Lin(255)))]
        if H == as_str or H == spelt: rep.good('%s: hashes as its text' % w)
        elif any(has_top(x) for x in H): rep.undec(w, 'not modelled')
        else: rep.bad('%s: does not hash as its text' % w, '%s feeds the hasher [%s], a borrowed text feeds [%s]: %s' % (w, show_hash(H), show_hash(as_str), fmt_state(e, s)))

def show_hash(H): return '; '.join('one item after the other in iteration order' if x[0] == 'loop' else '%s %s' % (x[1], 'of ' + E.show(x[2][1][1]) if x[2][0] == 'sl' and x[2][1][0] == 'cont' else str(x[2])[:80]) for x in H)

def check_hash_eq(cx, rep, ih, Ih, ie, Ie):
    """values that compare equal feed the same to a hasher"""
    P = cx.P
    t = plain_tid(P, Ih['locals'][1])
    w = '%s: hash agrees with equality' % P.ts(t)
    eh, rh = run_watched(cx, ih)
    ee, re_ = run_watched(cx, ie)
    if isinstance(rh, Undecided) or isinstance(re_, Undecided): rep.undec(w, rh if isinstance(rh, Undecided) else re_); return
    if eh.endless or ee.endless: return
    A, B = ('arg', 'a0'), ('arg', 'a1')
    hs = [(s, hash_events(s)) for s, _ in rh]
    other = []
    for s, h in hs:
        m = moved(s, (A, B))
        other.append((m, retarget(tuple(h), (A, B), {})))
    import time
    t0 = time.time()
    for s, v in re_:
        if v[0] != 'b': rep.undec(w, 'result not modelled'); continue
        for z, val in truths(s, v[1]):
            if val is False: continue
            if val is None: rep.undec(w, 'result not modelled'); continue
            for sx, hx in hs:
                m1 = merge(z, sx)
                if m1 is None: continue
                for sy, hy in other:
                    m = merge(m1, sy)
                    if m is None: continue
                    if time.time() - t0 > 60: rep.undec(w, 'too many combinations'); return
                    q = same_hash(eh, m, hx, hy)
                    if q: rep.good(w)
                    elif q is None or not precise(eh, m): rep.undec(w, 'not modelled')
                    else: rep.bad(w, '%s: equal values feed a hasher [%s] and [%s]: %s%s' % (P.ts(t), show_hash(hx), show_hash(hy), fmt_state(ee, m), preds_text(m)))

def same_hash(e, m, hx, hy):
    if len(hx) != len(hy): return False
    eqs = [k[1:] for k, v in m.preds.items() if k[0] == 'eqv' and v]
    for x, y in zip(hx, hy):
        if x[:2] != y[:2]: return False
        a, b = x[2], y[2]
        if a == b: continue
        if mentions((a, b), lambda z: z and z[0] == 'capof'): return False
        if x[0] == 'loop' and mentions((a, b), lambda z: len(z) == 2 and z[0] == 'elem' and z[1] in e.unordered): return False
        if isinstance(a, tuple) and isinstance(b, tuple) and m.getpred(('eqv',) + tuple(sorted((a, b), key=repr))): continue
        if a[0] == 'i' and b[0] == 'i' and m.equal(a[1], b[1]): continue
        ok = False
        c = b
        for p, q in eqs:      # congruence: equal parts make equal wholes
            if isinstance(p, tuple) and isinstance(q, tuple):
                if p and p[0] == 'sl' and q[0] == 'sl' and p[1][0] == 'cont' and q[1][0] == 'cont': p, q = p[1][1], q[1][1]
                c2 = retarget(c, (q, p), {})
                c = c2 if c2 != c else retarget(c, (p, q), {})
        if has_top(a) or has_top(b): return None
        if c == a: continue
        if a[0] == 'b' and b[0] == 'b' and m.tv(a[1]) is not None and m.tv(a[1]) == m.tv(b[1]): continue
        if a[0] == 'b' and b[0] == 'b':
            # the equality established may be "both" or "neither"
            ta, tb = [x[1] for x in (a, b)]
            return None
        if has_top(a) or has_top(b): return None
        return False
    return True

def c21(cx, rep):
    P = cx.P
    e0 = cx.eng()
    text = sorted({t for im in P.impls for t in [im['self']] if P.types[t]['k'] == 'adt' and P.types[t]['path'] in P.adts and P.adts[P.types[t]['path']]['local'] and is_text_type(cx, e0, t)}, key=lambda t: P.ts(t))
    rep.cov['text_types'] = [P.ts(t) for t in text]
    eqs, hashes, cmps, pcmps = {}, {}, {}, {}
    n = {'eq': 0, 'hash': 0, 'order': 0, 'borrow': 0}
    for i, I in local_insts(P):
        if is_closure(I): continue
        tr = I.get('trait')
        if tr == 'core::cmp::PartialEq' and I['name'] in ('eq', 'ne') and I['argc'] == 2:
            ta, tb = arg_types(P, I)
            if ta == tb and I['name'] == 'eq': eqs[ta] = (i, I)
            xa, xb = is_text_type(cx, e0, ta), is_text_type(cx, e0, tb)
            if xa and xb or xb and P.types[ta]['k'] == 'adt' and P.adts[P.types[ta]['path']]['kind'] == 'enum' or xa and P.types[tb]['k'] == 'adt' and P.adts[P.types[tb]['path']]['kind'] == 'enum':
                n['eq'] += 1
                check_eq(cx, rep, i, I)
        elif tr == 'core::hash::Hash' and I['name'] == 'hash':
            t = plain_tid(P, I['locals'][1])
            hashes.setdefault(t, (i, I))
            if is_text_type(cx, e0, t) and I['pub']:
                n['hash'] += 1
                check_text_hash(cx, rep, i, I)
        elif tr in ('core::cmp::Ord', 'core::cmp::PartialOrd') and I['name'] in ('cmp', 'partial_cmp'):
            t = plain_tid(P, I['locals'][1])
            if is_text_type(cx, e0, t) and plain_tid(P, I['locals'][2]) == t:
                n['order'] += 1
                (cmps if I['name'] == 'cmp' else pcmps)[t] = check_cmp(cx, rep, i, I)
            elif is_text_type(cx, e0, t): rep.undec(name(I), 'order between different types')
        elif tr in ('core::cmp::Ord', 'core::cmp::PartialOrd'):
            if is_text_type(cx, e0, plain_tid(P, I['locals'][1])): rep.undec(name(I), 'overridden order method')
        elif tr == 'core::borrow::Borrow' and I['name'] == 'borrow':
            t = plain_tid(P, I['locals'][1])
            if not is_text_type(cx, e0, t): continue
            n['borrow'] += 1
            e, r = run_watched(cx, i)
            if isinstance(r, Undecided): rep.undec(name(I), r); continue
            if recursion(rep, e, name(I)): continue
            for s, v in r:
                A = whole(e, s, ('arg', 'a0'), t)
                x = as_slice(e, s, full(e, s, v))
                if x is None or not precise(e, s) or has_top(x): rep.undec(name(I), 'not modelled')
                elif key(s, x)[1:] == A[1:]: rep.good('%s: the whole text' % name(I))
                else: rep.bad('%s: not the whole text' % name(I), '%s does not borrow the whole text: %s' % (name(I), fmt_state(e, s)))
    for t in cmps:
        if not cmps[t] or not pcmps.get(t): continue
        e, a = cmps[t]
        _, b = pcmps[t]
        w = '%s: partial_cmp agrees with cmp' % P.ts(t)
        for s, x in a:
            for q, y in b:
                m = merge(s, q)
                if m is None: continue
                if x == y: rep.good(w)
                elif x[0] == 'c' and y[0] == 'c' and not m.facts and not m.nes or x[0] == 'o' and y[0] == 'o': rep.bad(w, '%s: cmp and partial_cmp disagree: %s' % (P.ts(t), fmt_state(e, m)))
                elif not m.facts and not m.nes and not m.preds: rep.bad(w, '%s: cmp and partial_cmp disagree: %s' % (P.ts(t), fmt_state(e, m)))
                else: rep.undec(w, 'not modelled')
    np = 0
    for t, (ih, Ih) in sorted(hashes.items()):
        if t not in eqs or cx.isparam(t) and not P.types[t]['k'] == 'adt': continue
        np += 1
        check_hash_eq(cx, rep, ih, Ih, *eqs[t])
    n['hash_and_eq'] = np
    rep.cov.update(n)
