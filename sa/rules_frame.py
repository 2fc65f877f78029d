"""C18, C19, C20, C28, C29: frames, the stream decoder, protocol headers, SASL PLAIN, transfer payloads."""
from core import *
from rules_size import fmt_state
from rules_decode import opaque_state, has_opq
from rules_prim import same, definite, codes_of
from rules_spec import COMP, local_type, camel, fieldname, struct_fields, ok_payload, Spec11, IN

def vname(e, v):
    if v[0] != 'agg': return None
    try: return e.adt(v[1])['variants'][v[2]]['name']
    except Exception: return None

def classify(e, v):
    """result of a stream operation: ('none',) ('some', x) ('err', x) ('ok', x) or None"""
    n = vname(e, v)
    if n == 'Err': return ('err', v[3][0])
    if n == 'Ok':
        x = v[3][0]
        m = vname(e, x)
        if m == 'None': return ('none',)
        if m == 'Some': return ('some', x[3][0])
        return ('ok', x)
    return None

def leaf(e, v):
    """innermost value of an error and the names on the way: conversions only wrap"""
    names = []
    while v[0] in ('agg', 'rv', 'box'):
        if v[0] != 'agg': v = v[1]; continue
        names.append(vname(e, v))
        if len(v[3]) == 1 and v[3][0][0] in ('agg', 't', 'rv', 'box'): v = v[3][0]
        else: break
    return v, names

def fixed(s, base, vals):
    """(state, vague) in which these bytes have these values; state None when excluded.  vague: a condition on these bytes was not evaluated"""
    t = s.copy()
    vag = False
    for o, b in vals.items():
        if not t.addeq(atom(('rd', base, Lin(o), 1), 0, 255) - b): return None, False
    seen = set()
    for L in list(t.facts) + list(t.nes) + [atom(ATOMS[i]) for i in t.eqc]:
        for i, _ in L.t: seen.add(i)
    for i in seen:
        a = ATOMS[i]
        if a[0] in ('rd', 'rds') and a[1] == base and a[3] > 1:
            o = t.norm(a[2])
            if o.is_const() and all(o.c + j in vals for j in range(a[3])):
                x = int.from_bytes(bytes(vals[o.c + j] for j in range(a[3])), 'big', signed=a[0] == 'rds')
                if not t.addeq(Lin(0, ((i, 1),)) - x): return None, False
            else: vag = True
    for k, v in s.preds.items():
        if k[0] == 'beq' and k[1][0] == 'sl' and k[1][1] == base:
            o, n = t.norm(k[1][2]), t.norm(k[1][3])
            if o.is_const() and n.is_const():
                if n.c != len(k[2]): r = False
                elif all(o.c + j in vals for j in range(n.c)): r = bytes(vals[o.c + j] for j in range(n.c)) == k[2]
                elif any(o.c + j in vals and vals[o.c + j] != k[2][j] for j in range(n.c)): r = False
                else:
                    if not v: vag = True     # some byte differs, which one is open
                    continue
                if r != v: return None, False
            else: vag = True
        elif contains_term(k, base): vag = True
    if infeasible(t.allfacts(ZERO)): return None, False
    return t, vag

def contains_term(x, t):
    if x == t: return True
    if isinstance(x, Lin): return any(contains_term(a, t) for a in x.atoms())
    if isinstance(x, tuple): return any(contains_term(y, t) for y in x)
    return False

class J:
    def __init__(self, rep): self.rep = rep
    def ok(self, key): self.rep.good(key)
    def bad(self, w, key, text):
        if w: self.rep.undec(key, '%s; %s' % (w, text))
        else: self.rep.bad(key, text)

# ---------------------------------------------------------------- C20
MAGIC, VERSION = b'AMQP', b'\x01\x00\x00'
IDS = {'Amqp': 0, 'AmqpTls': 2, 'AmqpSasl': 3}

def c20(cx, rep):
    P = cx.P
    j = J(rep)
    e, r = cx.stream('protocol', 'decode')
    SRC = ('in', 'src')
    n = 'protocol header decode'
    full = dict(enumerate(MAGIC))
    vers = {5 + i: b for i, b in enumerate(VERSION)}
    if isinstance(r, Undecided): rep.undec(n, r)
    else:
        L = e.lenof(('arg', 'src'))
        rep.cov['decode outcomes'] = len(r)
        got = set()
        for s, v in r:
            w = opaque_state(e, s)
            at = fmt_state(e, s)
            c = classify(e, v)
            buf = s.cells['src']
            if c is None or buf[0] != 'bm' or buf[1] != SRC or buf[4]: rep.undec(n, 'outcome not modelled'); continue
            used = s.norm(buf[2])
            left = s.norm(buf[3])
            t = s.copy()
            if c[0] == 'none':
                if used == ZERO and s.norm(left - L) == ZERO: j.ok('%s: an incomplete header stays untouched (%s)' % (n, at))
                else: j.bad(w, 'incomplete header consumed', '%s: asks for more bytes after taking %r bytes (%s)' % (n, used, at))
                if s.implies(Lin(7) - L): j.ok('%s: waits only below eight bytes' % n)
                elif t.add(L - 8): j.bad(w, 'complete header ignored', '%s: asks for more bytes although eight are there (%s)' % (n, at))
                else: j.ok('%s: waits only below eight bytes' % n)
                continue
            if s.implies(L - 8): j.ok('%s: judged on eight bytes (%s)' % (n, at))
            elif t.add(Lin(7) - L): j.bad(w, 'short header judged', '%s: a result is given with fewer than eight bytes (%s)' % (n, at))
            if used.is_const() and used.c == 8 and s.norm(left - L + 8) == ZERO: j.ok('%s: takes exactly eight bytes (%s)' % (n, at))
            elif s.implies(L - 8): j.bad(w or not definite(used), 'header length', '%s: takes %r bytes (%s)' % (n, used, at))
            if c[0] == 'some':
                x, _ = c[1], 0
                if x[0] == 'rv': x = x[1]
                name = vname(e, x)
                if name not in IDS: rep.undec(n, 'protocol id not modelled'); continue
                valid = dict(full); valid.update(vers); valid[4] = IDS[name]
                t, vg = fixed(s, SRC, valid)
                if t is None: j.bad(w, '%s id' % name, '%s: %s is reported although the id byte cannot be %d here (%s; %s)' % (n, name, IDS[name], at, show_preds(s))); continue
                got.add(name)
                for p in range(8):
                    for b in (range(256) if p == 4 else (valid[p] ^ 1, valid[p] ^ 0x20, 0, 255, valid[p] + 1)):
                        if b == valid[p]: continue
                        x2 = dict(valid); x2[p] = b
                        t, vg = fixed(s, SRC, x2)
                        if t is None: continue
                        j.bad(w or (vg and 'condition'), '%s accepts' % name, '%s: %s is reported for header %s (%s)' % (n, name, bytes(x2[i] for i in range(8)).hex(' '), at))
                        break
                    else: j.ok('%s: %s needs byte %d to be 0x%02x' % (n, name, p, valid[p]))
                continue
            if c[0] == 'err':
                x, names = leaf(e, c[1])
                name = names[-1] if names else None
                tests = {'InvalidHeader': [('magic', full)], 'Incompatible': [('version', vers)], 'Unknown': [('id %d' % i, {4: i}) for i in IDS.values()]}.get(name)
                if tests is None: j.bad(w or (x[0] != 'agg' and 'error not modelled'), 'error kind %s' % name, '%s: error %s (%s)' % (n, name, at)); continue
                for what, vals in tests:
                    t, vg = fixed(s, SRC, vals)
                    if t is None: j.ok('%s: %s only with a wrong %s' % (n, name, what.split()[0])); continue
                    # the cheapest witness: everything else valid too, then one other part wrong
                    hit = None
                    for other in ([full, vers, {4: 0}], [{**full, 0: 0x42}, vers, {4: 0}], [full, {**vers, 5: 2}, {4: 0}], [full, vers, {4: 9}], [full, vers, {4: 2}], [full, vers, {4: 3}]):
                        x2 = {}
                        for o in other: x2.update(o)
                        x2.update(vals)
                        t, vg = fixed(s, SRC, x2)
                        if t is not None and not vg: hit = x2; break
                    if hit: j.bad(w, '%s for a right %s' % (name, what.split()[0]), '%s: error %s for header %s, whose %s is right (%s)' % (n, name, bytes(hit[i] for i in range(8)).hex(' '), what, at))
                    else: rep.undec('%s %s' % (n, name), 'condition on the %s not evaluated' % what)
                continue
            rep.undec(n, 'result not modelled')
        for i in IDS:
            if i in got: j.ok('%s: %s is recognised' % (n, i))
            elif not any(u for u, _ in rep.undecided if u == n) and not rep.violations: rep.bad('%s never' % i, '%s: no path reports protocol %s' % (n, i))
    panics(cx, rep, j, n, e)
    i = P.find('<io::ProtocolIdCodec as tokio_io::codec::encoder::Encoder>::encode')
    n = 'protocol header encode'
    if i is None: rep.undec(n, 'not found'); return
    b = P.inst[i]
    tid = b['locals'][2]
    e = cx.eng()
    for vi, var in enumerate(e.adt(tid)['variants']):
        key = '%s: %s' % (n, var['name'])
        if var['name'] not in IDS or var['fields']: rep.undec(key, 'unknown protocol'); continue
        want = MAGIC + bytes([IDS[var['name']]]) + VERSION
        e = cx.eng()
        st = State()
        L = e.lenof(('arg', 'src'))
        st.cells = {'self': e.mk(('arg', 'self'), e.ty(b['locals'][1])['to']), 'src': ('bm', SRC, ZERO, L, (), None)}
        r = cx.go(e, i, [('ref', 'self', (), True), ('agg', tid, vi, ()), ('ref', 'src', (), True)], st)
        cx.absorb(e)
        if isinstance(r, Undecided): rep.undec(key, r); continue
        panics(cx, rep, j, n, e)
        for s, v in r:
            w = opaque_state(e, s) or ('write not modelled' if any(x[0] == 'lostput' for x in s.events) else None)
            at = fmt_state(e, s)
            c = classify(e, v)
            buf = s.cells['src']
            if c is None or buf[0] != 'bm': rep.undec(key, 'outcome not modelled'); continue
            if c[0] != 'ok': j.bad(w, 'encode fails', '%s: fails (%s)' % (key, at)); continue
            if not (buf[1] == SRC and s.norm(buf[2]) == ZERO and s.norm(buf[3] - L) == ZERO): rep.undec(key, 'destination not modelled'); continue
            out, why = flatten(e, s, buf[4])
            if out is None: rep.undec(key, why)
            elif out == want: j.ok('%s is written as %s' % (key, want.hex(' ')))
            else: j.bad(w, key, '%s is written as %s, specified is %s (%s)' % (key, out.hex(' '), want.hex(' '), at))

def panics(cx, rep, j, name, e):
    """a site that is reached in a state in which it must panic for some input"""
    for site, (stat, text, det, stack) in e.oblig.items():
        if stat == 'fail': rep.bad('%s: %s' % (site[0], site[2]), '%s can panic in %s (line %s): %s [call path: %s]' % (name, site[0], site[1], text, ' > '.join(stack)))
        elif stat == 'ok': j.ok('%s: %s cannot fail' % (name, text[:60]))

def show_preds(s): return ', '.join('%s%s' % ('' if v else 'not ', show(k)[:80]) for k, v in list(s.preds.items())[:4])

def flatten(e, s, items):
    """constant bytes written, or (None, why)"""
    out = b''
    for it in items:
        if it[0] in ('int', 'intle'):
            L = s.norm(it[2])
            q = L.single()
            if q is not None and q[0] == 'wrap': 
                x = s.norm(q[2])
                if x.is_const(): L = x
            if not L.is_const(): return None, 'byte %r' % L
            out += (L.c % 256 ** it[1]).to_bytes(it[1], 'big' if it[0] == 'int' else 'little')
        elif it[0] == 'raw' and it[1][0] == 'sl' and it[1][1][0] == 'const':
            a, n = s.norm(it[1][2]), s.norm(it[1][3])
            if not (a.is_const() and n.is_const()): return None, 'bytes'
            out += it[1][1][1][a.c:a.c + n.c]
        else: return None, 'item %s %s' % (it[0], str(it[1])[:300])
    return out, ''

# ---------------------------------------------------------------- C19
def plain(v, P):
    """a codec state without its type markers"""
    if not isinstance(v, tuple): return v
    if v and v[0] in ('agg', 't') and isinstance(v[1 if v[0] == 'agg' else 2], int):
        s = P.ts(v[1] if v[0] == 'agg' else v[2])
        if 'PhantomData' in s.split('<')[0]: return ('phantom',)
    return tuple(plain(x, P) for x in v)

def c19(cx, rep):
    P = cx.P
    j = J(rep)
    i = P.find('<io::AmqpCodec<T> as tokio_io::codec::decoder::Decoder>::decode')
    new = P.find('io::AmqpCodec::<T>::new')
    if i is None or new is None: rep.undec('frame stream decoder', 'not found'); return
    e = cx.eng()
    r = cx.go(e, new, [], State())
    if isinstance(r, Undecided) or len(r) != 1: rep.undec('frame stream decoder', 'initial state not modelled'); return
    s0 = r[0][1]
    start = plain(s0, P)
    df = P.find('<io::AmqpCodec<T> as std::default::Default>::default')
    if df is not None:
        r = cx.go(e, df, [], State())
        if isinstance(r, Undecided) or any(plain(v, P) != start for _, v in r): rep.undec('default', 'a default codec starts differently from a new one')
        else: j.ok('a default codec starts like a new one')
    T = None
    done, todo = set(), [(s0, State(), 0, None, 0)]
    nout = 0
    while todo:
        sv, st, c, S, k = todo.pop()
        sig = (plain(sv, P), c)
        if sig in done: continue
        done.add(sig)
        if k > 12: rep.undec('frame stream decoder', 'too many different states'); return
        st = st.copy()
        st.events = ()
        src = ('in', 'src%d' % k)
        L = e.lenof(('arg', 'src%d' % k))
        st.cells = {'self': sv, 'src': ('bm', src, ZERO, L, (), None)}
        if S is not None:
            lastL, S0, taken = S
            st.add(L - lastL + taken)     # what was left is still there
            if c == 0 and S0 is not None: st.addeq(atom(('rd', src, ZERO, 4), 0, 2 ** 32 - 1) - S0)
        size = S[1] if c == 4 else None
        r = cx.go(e, i, [('ref', 'self', (), True), ('ref', 'src', (), True)], st)
        cx.absorb(e)
        where = 'the stream decoder, %s' % ('between frames' if sig[0] == start and c == 0 else 'after the length prefix' if c == 4 else 'in the state left behind by an earlier frame')
        if isinstance(r, Undecided): rep.undec(where, r); continue
        panics(cx, rep, j, where, e)
        for s, v in r:
            nout += 1
            outcome(cx, rep, j, e, s, v, src, L, c, size, where, start, todo, P, k)
    rep.cov['decoder states'] = len(done)
    rep.cov['outcomes'] = nout

def outcome(cx, rep, j, e, s, v, src, L, c, size, where, start, todo, P, k):
    w = opaque_state(e, s)
    at = fmt_state(e, s)
    cl = classify(e, v)
    buf = s.cells['src']
    if cl is None or buf[0] != 'bm' or buf[1] != src or buf[4]: rep.undec(where, 'outcome not modelled'); return
    used, left = s.norm(buf[2]), s.norm(buf[3])
    if s.norm(left + used - L) != ZERO: rep.undec(where, 'bytes dropped at the end'); return
    S = size if size is not None else e.read(s, src, ZERO, 4, False)
    if has_opq(used): w = w or 'consumption not modelled'
    S = s.norm(S)
    now = s.cells['self']
    if cl[0] == 'none':
        if used.is_const() and used.c in (0, 4 - c): j.ok('%s: waiting takes nothing but the length prefix (%s)' % (where, at))
        else: j.bad(w, 'waiting consumes', '%s: asks for more bytes after taking %r bytes (%s)' % (where, used, at)); return
        t = s.copy()
        if t.add(L + c - 8) and t.add(L + c - S): 
            j.bad(w, 'waits for a complete frame', '%s: asks for more bytes although the frame of %r bytes is complete (%s)' % (where, S, at)); return
        j.ok('%s: waits only while the frame is incomplete' % where)
        c2 = c + used.c
        todo.append((now, s, c2, (L, S if (c2 == 4 or s.implies(L - 4)) else None, used.c), k + 1))
        return
    if cl[0] == 'err':
        x, names = leaf(e, cl[1])
        if 'InvalidSize' in names and x[0] == 'agg':
            t = s.copy()
            if s.implies(Lin(7) - S): j.ok('%s: a length below eight is rejected' % where)
            elif t.add(S - 8): j.bad(w, 'possible length rejected', '%s: rejects frame length %r as impossible (%s)' % (where, S, at))
            return
    # a frame was read, or found to be wrong
    t = s.copy()
    what = {'some': 'a frame is returned', 'err': 'an error is reported'}.get(cl[0], 'a result is given')
    if s.norm(used - S + c) == ZERO: j.ok('%s: %s and exactly the announced bytes are consumed (%s)' % (where, what, at))
    else: j.bad(w, 'frame consumption', '%s: %s, %r bytes are consumed, announced are %r (%s)' % (where, what, used + c, S, at)); return
    if s.implies(S - 8): j.ok('%s: only possible lengths are decoded' % where)
    elif t.add(Lin(7) - S): j.bad(w, 'impossible length accepted', '%s: a frame of announced length below eight is decoded (%s)' % (where, at))
    todo.append((now, State(), 0, None, k + 1))
    decs = [x for x in s.events if x[0] == 'dec']
    if len(decs) != 1 or decs[0][1] != 'decode': rep.undec(where, 'frame decoding not modelled'); return
    d = decs[0]
    p, n = s.norm(d[4] - (4 - c)), s.norm(d[5] - (S - 4))
    if d[3] == src and p == ZERO and n == ZERO: j.ok('%s: the decoder of the frame sees exactly the frame' % where)
    else: j.bad(w or has_opq(d[4]) or has_opq(d[5]), 'frame region', '%s: the frame decoder is given bytes %r.. of length %r, the frame body has %r bytes at %d (%s)' % (where, d[4], d[5], S - 4, 4 - c, at)); return
    ua = atom(('used', d[1], d[2], d[3], d[4], d[5], d[6]))
    if cl[0] == 'some':
        x = cl[1]
        if not d[7]: j.bad(w, 'frame from an error', '%s: a frame is returned although decoding failed (%s)' % (where, at)); return
        if not (x[0] == 't' and x[1][0] == 'dv' and x[1][1:5] == (d[1], d[2], d[3], d[4])): rep.undec(where, 'frame value not modelled'); return
        if s.implies(ua - d[5]): j.ok('%s: a frame is returned only when it was parsed completely' % where)
        else: j.bad(w, 'leftover bytes accepted', '%s: a frame is returned although bytes of it were left over (%s)' % (where, at))
        return
    x, names = leaf(e, cl[1])
    if not d[7]:
        if x[0] == 't' and x[1][0] == 'derr': j.ok('%s: the error of the frame is reported' % where)
        else: rep.undec(where, 'another error')
        return
    t = s.copy()
    if 'UnparsedBytesLeft' in names:
        if t.addeq(ua - d[5]): j.bad(w, 'complete frame rejected', '%s: reports leftover bytes although the frame was parsed completely (%s)' % (where, at))
        else: j.ok('%s: leftover bytes are reported as such' % where)
    elif t.addeq(ua - d[5]): j.bad(w, 'complete frame rejected', '%s: error %s for a completely parsed frame (%s)' % (where, names, at))
    else: j.ok('%s: leftover bytes are an error' % where)

# ---------------------------------------------------------------- C18
FRAMES = {'AmqpFrame': (0, 'Frame'), 'SaslFrame': (1, 'SaslFrameBody')}

def any_type(P, name):
    c = [T for T in P.tystr if T.endswith('::' + name) and '<' not in T and (DEC, 'decode', P.tystr[T]) in P.resolve]
    return min(c, key=len) if c else None

def c18(cx, rep):
    P = cx.P
    j = J(rep)
    # the length field is taken from the announced size, which must be what the parts write
    from rules_size import c04
    c04(cx, rep, pre='frame length ')
    for F, (typ, body) in FRAMES.items():
        TF, TB = any_type(P, F), local_type(P, body)
        if TF is None or TB is None: rep.undec(F, 'no such type'); continue
        c18_enc(cx, rep, j, F, TF, TB, typ)
        c18_dec(cx, rep, j, F, TF, TB, typ)
    # the empty body
    TB = local_type(P, 'Frame')
    if TB is None: return
    e, r = cx.decode_outcomes(DEC, 'decode', P.tystr[TB])
    n = e.lenof(('arg', 'input'))
    if isinstance(r, Undecided): rep.undec('empty body', r)
    else:
        seen = False
        for s, v in r:
            w = opaque_state(e, s)
            pl = ok_payload(v)
            t = s.copy()
            empty = vname(e, pl[1]) == 'Empty' if pl else False
            can = t.addeq(n)
            if empty:
                t2 = s.copy()
                if t2.add(n - 1): j.bad(w, 'heartbeat from bytes', 'a body of at least one byte decodes as the empty frame (%s)' % fmt_state(e, s))
                else: seen = True; j.ok('only the empty body is the empty frame')
            elif can: j.bad(w, 'empty body', 'an empty body decodes as %s, not as the empty frame (%s)' % ('an error' if not pl else vname(e, pl[1]), fmt_state(e, s)))
            else: j.ok('no bytes: not this path')
        if not seen and not rep.undecided: rep.bad('no heartbeat', 'no path decodes an empty body as the empty frame')
    e, r = cx.outcomes(ENC, 'encode', P.tystr[TB])
    if isinstance(r, Undecided): rep.undec('empty body written', r); return
    for s, v in r:
        vi = s.variants.get(('arg', 'self'))
        if vi is None: continue
        name = e.adt(P.tystr[TB])['variants'][vi]['name']
        if name != 'Empty': continue
        if s.cells['buf'][0] == 'bm' and not s.cells['buf'][4]: j.ok('the empty frame has no body')
        else: j.bad(opaque_state(e, s), 'heartbeat body', 'the empty frame is written with a body')

def own_size(cx, e, tr, T, s, L):
    """cases of L with the codec's own size function put in"""
    a = [x for x in s.norm(L).atoms() if x[0] == 'size' and x[1] == T and x[2] == ('arg', 'self')]
    if not a: return [s]
    e2, r2 = cx.outcomes(tr, 'encoded_size', cx.P.tystr[T])
    if isinstance(r2, Undecided): return None
    out = []
    for s2, v2 in r2:
        if v2[0] != 'i' or is_cached(v2[1]): return None
        t = merge(s, s2)
        if t is None: continue
        out.append((t, atom(a[0]), v2[1]))
    return out

def c18_enc(cx, rep, j, F, TF, TB, typ):
    P = cx.P
    n = '%s written' % F
    e, r = cx.outcomes(ENC, 'encode', P.tystr[TF])
    if isinstance(r, Undecided): rep.undec(n, r); return
    panics(cx, rep, j, n, e)
    for s, v in r:
        w = opaque_state(e, s) or ('write not modelled' if any(x[0] == 'lostput' for x in s.events) else None)
        at = fmt_state(e, s)
        buf = s.cells['buf']
        if buf[0] != 'bm': rep.undec(n, 'buffer'); continue
        items = list(buf[4])
        hdr, i, off = [], 0, 0
        for it in items:
            if off >= 8: break
            if it[0] == 'int': hdr.append((off, it[1], s.norm(it[2]))); off += it[1]
            elif it[0] == 'intle' and E.swapped(s.norm(it[2]), it[1]) is not None: hdr.append((off, it[1], E.swapped(s.norm(it[2]), it[1]))); off += it[1]
            elif it[0] == 'raw' and it[1][0] == 'sl' and it[1][1][0] == 'const' and s.norm(it[1][2]).is_const() and s.norm(it[1][3]).is_const():
                b = it[1][1][1][s.norm(it[1][2]).c:][:s.norm(it[1][3]).c]
                hdr.append((off, len(b), Lin(int.from_bytes(b, 'big')))); off += len(b)
            else: break
            i += 1
        if off != 8:
            if off < 8 and i < len(items) and items[i][0] in ('Enc', 'raw') and not w: rep.bad('%s header' % F, '%s: the frame header has %d bytes before the body (%s)' % (n, off, at))
            else: rep.undec(n, w or 'header not modelled')
            continue
        # header as one number: size 4, doff 1, type 1, channel 2
        def field(o, k):
            L = Lin(0)
            for (p, ww, x) in hdr:
                if p + ww <= o or p >= o + k: continue
                if p >= o and p + ww <= o + k: L = L + x.scale(256 ** (o + k - p - ww))
                elif x.is_const():
                    b = (x.c % 256 ** ww).to_bytes(ww, 'big')
                    lo, hi = max(o, p), min(o + k, p + ww)
                    L = L + int.from_bytes(b[lo - p:hi - p], 'big') * 256 ** (o + k - hi)
                else: return None
            return L
        tot, doff, ty, ch = field(0, 4), field(4, 1), field(5, 1), field(6, 2)
        for nm, got, want in (('data offset', doff, Lin(2)), ('frame type', ty, Lin(typ))):
            if got is None: rep.undec(n, nm); continue
            d = s.norm(got - want)
            if d == ZERO: j.ok('%s: %s %r' % (n, nm, want))
            else: j.bad(w or (not definite(d) and 'value'), '%s %s' % (F, nm), '%s: the %s is %r, specified is %r (%s)' % (n, nm, got, want, at))
        sv = s.cells['self']
        if F == 'SaslFrame': want = ZERO
        else:
            want = None
            fs = struct_fields(P, TF)
            for k, f in enumerate(fs):
                if P.ts(f['tid']) == 'u16':
                    x = e.field_of(s, sv, 0, k, f['tid'])
                    if x[0] == 'i': want = x[1]
        if ch is None or want is None: rep.undec(n, 'channel')
        else:
            r2 = same(s, ch, want)
            if r2: j.ok('%s: channel %r' % (n, want))
            else: j.bad(w or (r2 is None and 'value'), '%s channel' % F, '%s: the channel field is %r, the frame has channel %r (%s)' % (n, ch, want, at))
        total = e.items_len(items)
        if tot is None: rep.undec(n, 'length')
        else:
            cs = own_size(cx, e, ENC, TF, s, tot)
            if cs is None: rep.undec(n, 'length from a remembered size')
            for cse in cs or []:
                t, lin = (cse, tot) if not isinstance(cse, tuple) else (cse[0], tot - cse[1] + cse[2])
                q = t.norm(lin).single()
                if q is not None and q[0] == 'wrap' and q[1] >= 1 << 32: lin = q[2]
                d = t.norm(lin - total)
                if e.sum_equal(t, d): j.ok('%s: the length field covers the whole frame' % n)
                else: j.bad(w or (e.imprecise_lin(d) and 'length'), '%s length' % F, '%s: the length field is %r, the frame has %r bytes (%s)' % (n, t.norm(lin), t.norm(total), at))
        rest = items[i:]
        want = body_term(e, s, P, sv, TF, TB)
        if len(rest) == 1 and rest[0][0] == 'Enc' and rest[0][1] == TB and rest[0][2] in want: j.ok('%s: the body follows' % n)
        elif len(rest) == 0 or any(x[0] == 'Enc' and x[1] == TB for x in rest): j.bad(w, '%s body' % F, '%s: after the header come %d items, not just the body (%s)' % (n, len(rest), at))
        else: rep.undec(n, 'body written in parts')

def body_term(e, s, P, sv, TF, TB):
    out = [('arg', 'self')]
    for k, f in enumerate(struct_fields(P, TF)):
        if P.ts(f['tid']) == TB:
            x = e.field_of(s, sv, 0, k, f['tid'])
            out.append(e.term(x))
            if x[0] == 't': out.append(x[1])
    return [x for x in out if x is not None]

def c18_dec(cx, rep, j, F, TF, TB, typ):
    P = cx.P
    n = '%s read' % F
    e, r = cx.decode_outcomes(DEC, 'decode', P.tystr[TF])
    if isinstance(r, Undecided): rep.undec(n, r); return
    panics(cx, rep, j, n, e)
    N = e.lenof(('arg', 'input'))
    for s, v in r:
        w = opaque_state(e, s)
        at = fmt_state(e, s)
        rd = lambda o, k: e.read(s, IN, Lin(o), k, False)
        doff, ty, ch = rd(0, 1), rd(1, 1), rd(2, 2)
        pl = ok_payload(v)
        bs = s.norm(doff.scale(4) - 4)
        if pl is None:
            c = classify(e, v)
            if c is None or c[0] != 'err': rep.undec(n, 'outcome not modelled'); continue
            x, names = leaf(e, c[1])
            if x[0] == 't' and x[1][0] == 'derr':
                d = x[1]
                dec = [q for q in s.events if q[0] == 'dec']
                okp = d[2] == TB and s.norm(d[4] - bs) == ZERO and dec and s.norm(dec[-1][5] - (N - bs)) == ZERO
                if okp: j.ok('%s: the error of the body is reported' % n)
                else: j.bad(w or (d[2] != TB and 'body read in parts'), '%s body region' % F, '%s: the body is decoded at %r, the header says %r (%s)' % (n, d[4], bs, at))
                continue
            t, vg = fixed(s, IN, {1: typ})
            if t is not None and t.add(t.norm(doff) - 2) and t.add(N - t.norm(doff).scale(4) + 4):
                j.bad(w or (vg and 'condition'), '%s rejected' % F, '%s: a valid frame header is rejected with %s (%s)' % (n, names, at))
            else: j.ok('%s: %s only for a wrong header (%s)' % (n, names[-1] if names else 'error', at))
            continue
        for what, L, test in (('another frame type', ty - typ, 'ne'), ('a data offset below 2', Lin(1) - doff, 'ge'), ('a header longer than the frame', bs - N - 1, 'ge')):
            t = s.copy()
            hit = t.addne(L) if test == 'ne' else t.add(L)
            if not hit: j.ok('%s: %s is rejected' % (n, what))
            else: j.bad(w, '%s accepts %s' % (F, what), '%s: %s is accepted (%s)' % (n, what, at))
        rest, val = pl
        if val[0] == 'rv': val = val[1]
        if val[0] != 'agg': rep.undec(n, 'value'); continue
        for k, f in enumerate(struct_fields(P, TF)):
            x = val[3][k]
            T = P.ts(f['tid'])
            if T == 'u16':
                r2 = same(s, x[1], ch) if x[0] == 'i' else None
                if r2: j.ok('%s: the channel is bytes 2 and 3, big-endian' % n)
                else: j.bad(w or (r2 is None and 'value'), '%s channel read' % F, '%s: the channel becomes %s, the header says %r (%s)' % (n, show(x), ch, at))
            elif T == TB:
                if x[0] == 't' and x[1][0] == 'dv' and x[1][2] == TB:
                    d = x[1]
                    if d[3] == IN and s.norm(d[4] - bs) == ZERO: j.ok('%s: the body starts after the header and its extension' % n)
                    else: j.bad(w or has_opq(d[4]), '%s body region' % F, '%s: the body is decoded at %r, the header says %r (%s)' % (n, d[4], bs, at)); continue
                    dec = [q for q in s.events if q[0] == 'dec' and q[2] == TB]
                    if dec and s.norm(dec[-1][5] - (N - bs)) == ZERO and rest[0] == 'sl' and rest[1] == IN:
                        q = dec[-1]
                        end = bs + atom(('used', q[1], q[2], q[3], q[4], q[5], q[6]))
                        if s.norm(rest[2] - end) == ZERO: j.ok('%s: what the body did not take is the remainder' % n)
                        else: j.bad(w or has_opq(rest[2]), '%s remainder' % F, '%s: the remainder starts at %r, the body ends at %r (%s)' % (n, rest[2], end, at))
                    else: rep.undec(n, 'remainder')
                else: rep.undec(n, 'body read in parts')

# ---------------------------------------------------------------- C28
def c28(cx, rep):
    P = cx.P
    j = J(rep)
    fs = [k for k, I in enumerate(P.inst) if I['path'].rsplit('::', 1)[-1] == 'prepare_response']
    if not fs: rep.undec('SASL PLAIN response', 'no function prepare_response'); return
    for k in fs:
        I = P.inst[k]
        e = cx.eng()
        if I['argc'] != 3 if 'argc' in I else False: rep.undec('SASL PLAIN response', 'arity'); continue
        names = ['authz_id', 'authn_id', 'password']
        args = [e.mk(('arg', n), I['locals'][i + 1]) for i, n in enumerate(names)]
        r = cx.go(e, k, args, State())
        cx.absorb(e)
        if isinstance(r, Undecided): rep.undec('SASL PLAIN response', r); continue
        panics(cx, rep, j, 'prepare_response', e)
        want = ('authz_id', b'\0', 'authn_id', b'\0', 'password')
        for s, v in r:
            w = opaque_state(e, s) or ('write not modelled' if any(x[0] == 'lostput' for x in s.events) else None)
            from rules_prim import content
            sl = content(v)
            parts = slice_parts(e, s, sl)
            if parts is None: rep.undec('SASL PLAIN response', w or 'result not modelled'); continue
            if parts == list(want): j.ok('SASL PLAIN response is authz_id NUL authn_id NUL password (%s)' % fmt_state(e, s))
            else: j.bad(w, 'SASL PLAIN layout', 'prepare_response returns %s, specified is authz_id, 0x00, authn_id, 0x00, password (%s)' % (', '.join(x if isinstance(x, str) else repr(x) for x in parts), fmt_state(e, s)))

def slice_parts(e, s, sl):
    """the pieces of a byte string: names of whole arguments and constants"""
    if sl is None or sl[0] != 'sl': return None
    b = sl[1]
    a, n = s.norm(sl[2]), s.norm(sl[3])
    if b[0] == 'cont':
        t = b[1]
        if t[0] == 'arg':
            if a == ZERO and s.norm(n - e.lenof(t)) == ZERO: return [t[1]]
            if definite(a) and definite(n): return ['%s[%r..][..%r]' % (t[1], a, n)]
        # a function of a text that is not the identity
        if t[0] == 'strfn' and a == ZERO and s.norm(n - e.lenof(t)) == ZERO:
            x = slice_parts(e, s, t[2])
            if x is not None: return ['%s of (%s)' % (t[1], ', '.join(map(str, x)))]
        return None
    if b[0] == 'const':
        if a.is_const() and n.is_const(): return [b[1][a.c:a.c + n.c]]
        return None
    if b[0] == 'emit':
        tot = e.items_len(b[1])
        if a != ZERO or s.norm(n - tot) != ZERO: return None
        out = []
        for it in b[1]:
            if it[0] == 'raw': p = slice_parts(e, s, it[1])
            elif it[0] == 'int' and s.norm(it[2]).is_const(): p = [(s.norm(it[2]).c % 256 ** it[1]).to_bytes(it[1], 'big')]
            else: p = None
            if p is None: return None
            for x in p:
                if isinstance(x, bytes) and out and isinstance(out[-1], bytes): out[-1] += x
                elif x != b'': out.append(x)
        return out
    return None

# ---------------------------------------------------------------- C29
def payload_types(cx, T, TB):
    """a transfer, its payload type, and the types a payload can be"""
    P = cx.P
    out = {T, TB}
    for v in cx.eng().adt(P.tystr[TB])['variants']:
        out |= {P.ts(f['tid']) for f in v['fields']}
    return out

def c29(cx, rep):
    P = cx.P
    j = J(rep)
    T = local_type(P, 'Transfer')
    TB = local_type(P, 'TransferBody')
    if T is None or TB is None: rep.undec('transfer', 'no such type'); return
    # written: the body right after the list, as it is
    e, r = cx.outcomes(ENC, 'encode', P.tystr[T])
    n = 'transfer written'
    fs = struct_fields(P, T)
    bi = [k for k, f in enumerate(fs) if TB in P.ts(f['tid'])]
    if isinstance(r, Undecided): rep.undec(n, r)
    elif len(bi) != 1: rep.undec(n, 'no payload field')
    else:
        fname = fs[bi[0]]['name']
        bt = ('fld', ('arg', 'self'), '', fname)
        for s, v in r:
            w = opaque_state(e, s) or ('write not modelled' if any(x[0] == 'lostput' for x in s.events) else None)
            at = fmt_state(e, s)[:600]
            buf = s.cells['buf']
            if buf[0] != 'bm': rep.undec(n, 'buffer'); continue
            items = buf[4]
            # where does the list end
            k = list_end(e, s, items)
            if k is None: rep.undec(n, 'list not modelled'); continue
            tail = items[k:]
            has = s.variants.get(bt)
            if has is None and not tail: rep.undec(n, 'payload presence not tested'); continue
            name = None if has is None else e.adt(fs[bi[0]]['tid'])['variants'][has]['name']
            if name == 'None':
                if not tail: j.ok('%s: no payload, nothing after the list (%s)' % (n, at))
                else: j.bad(w, 'bytes without payload', '%s: without payload %d items follow the list (%s)' % (n, len(tail), at))
            elif name == 'Some':
                pt = ('fld', bt, 'Some', '0')
                if len(tail) == 1 and tail[0][0] == 'Enc' and tail[0][1] == TB and tail[0][2] in (pt, bt): j.ok('%s: the payload follows the list (%s)' % (n, at))
                elif len(tail) == 1 and tail[0][0] == 'raw' and contains_term(tail[0], pt): rep.undec(n, 'payload written in parts')
                else: j.bad(w or (any(contains_term(x, pt) for x in tail) and len(tail) != 0 and 'payload written in parts'), 'payload position', '%s: after the list come %s, not the payload (%s)' % (n, [x[:2] if x[0] == 'Enc' else x[0] for x in tail], at))
            else: rep.undec(n, 'payload presence not modelled')
            if any(x[0] == 'Enc' and x[1] == TB for x in items[:k]): j.bad(w, 'payload inside the list', '%s: the payload is written inside the field list (%s)' % (n, at))
    # the payload itself has no framing
    e, r = cx.outcomes(ENC, 'encode', P.tystr[TB])
    n = 'payload written'
    if isinstance(r, Undecided): rep.undec(n, r)
    else:
        adt = e.adt(P.tystr[TB])
        for s, v in r:
            w = opaque_state(e, s) or ('write not modelled' if any(x[0] == 'lostput' for x in s.events) else None)
            vi = s.variants.get(('arg', 'self'))
            if vi is None or s.cells['buf'][0] != 'bm': rep.undec(n, 'not modelled'); continue
            var = adt['variants'][vi]
            items = s.cells['buf'][4]
            term = ('fld', ('arg', 'self'), var['name'], '0')
            FT = P.ts(var['fields'][0]['tid'])
            if FT == 'bytes::Bytes':
                good = len(items) == 1 and items[0][0] == 'raw' and items[0][1][1] == ('cont', term) and s.norm(items[0][1][2]) == ZERO and s.norm(items[0][1][3] - e.lenof(term)) == ZERO
                clear = all(x[0] in ('int', 'raw', 'Enc') for x in items)
            else:
                good = len(items) == 1 and items[0] == ('Enc', FT, term)
                clear = any(x == ('Enc', FT, term) for x in items) or not items
            if good: j.ok('%s: %s is written as it is' % (n, var['name']))
            else: j.bad(w or (not clear and 'payload'), 'payload %s' % var['name'], '%s: %s is written as %s' % (n, var['name'], [x[0] for x in items]))
    # counted: the size announced for a transfer, and for each kind of payload, is what is written
    from rules_size import c04
    kinds = payload_types(cx, T, TB)
    c04(cx, rep, only=lambda x: x in kinds, pre='size ')
    # read
    c = Spec11(cx, rep)
    for name in COMP:
        TN = local_type(P, camel(name))
        if TN is None or (DECF, 'decode_with_format', P.tystr[TN]) not in P.resolve: continue
        e, r = cx.decode_outcomes(DECF, 'decode_with_format', P.tystr[TN])
        if isinstance(r, Undecided): rep.undec(name, r); continue
        N = e.lenof(('arg', 'input'))
        for s, v in r:
            pl = ok_payload(v)
            if not pl: continue
            p = c.list_at(s)
            if p is None: rep.undec(name, 'descriptor not recognised'); continue
            w = opaque_state(e, s)
            rest, val = pl
            if val[0] == 'rv': val = val[1]
            if val[0] != 'agg': rep.undec(name, 'value'); continue
            for t, b, end, cnt, code in c.header(e, s, p):
                if b is None: continue
                at = fmt_state(e, t)[:500]
                key = '%s after 0x%02x' % (name, code)
                if name != 'transfer':
                    if rest[0] == 'sl' and rest[1] == IN and t.norm(rest[2] - end) == ZERO and t.norm(rest[3] - (N - end)) == ZERO: j.ok('%s: what follows the list is left alone' % key)
                    else:
                        vague = rest[0] != 'sl' or (rest[1] == IN and (has_opq(rest[2]) or has_opq(rest[3])))
                        j.bad(w or (vague and 'remainder'), '%s absorbs' % name, '%s: the remainder is %s, the list ends at %r of %r bytes (%s)' % (key, show_rest(rest), t.norm(end), N, at))
                    continue
                body = val[3][bi[0]] if len(bi) == 1 else ('top', '')
                m = vname(e, body)
                left = N - end
                u = t.copy()
                if m == 'None':
                    if not u.add(left - 1): j.ok('%s: no payload only when nothing follows' % key)
                    else: j.bad(w, 'payload dropped', '%s: no payload although bytes may follow the list (%s)' % (key, at))
                    gone = 'sl'
                    if not (rest[0] == 'sl' and (t.implies(-rest[3]) or rest[1] == IN and t.norm(rest[2] - end) == ZERO)): rep.undec(key, 'remainder')
                elif m == 'Some':
                    x = body[3][0]
                    if not u.addeq(left): j.ok('%s: payload only when bytes follow' % key)
                    else: j.bad(w, 'empty payload', '%s: a payload is made from nothing (%s)' % (key, at))
                    from rules_prim import content
                    sl = content(x)
                    if vname(e, x) is None or sl is None: rep.undec(key, 'payload not modelled'); continue
                    if vname(e, x) != 'Data': rep.undec(key, 'payload kind'); continue
                    if sl[1] == IN and t.norm(sl[2] - end) == ZERO and t.norm(sl[3] - left) == ZERO: j.ok('%s: the payload is all bytes after the list' % key)
                    else: j.bad(w or (sl[1] != IN and 'payload') or has_opq(sl[2]) or has_opq(sl[3]), 'payload region', '%s: the payload is bytes %r.. of length %r; after the list there are %r bytes at %r (%s)' % (key, t.norm(sl[2]), t.norm(sl[3]), t.norm(left), t.norm(end), at))
                    if rest[0] == 'sl' and t.implies(-rest[3]): j.ok('%s: nothing remains' % key)
                    elif rest[0] == 'sl' and not has_opq(rest[3]): j.bad(w, 'payload remains', '%s: the payload bytes are also returned as remainder (%s)' % (key, at))
                    else: rep.undec(key, 'remainder')
                else: rep.undec(key, 'payload not modelled')

def show_rest(r): return '%r.. of length %r' % (r[2], r[3]) if r[0] == 'sl' else r[0]

def list_end(e, s, items):
    """index of the first item after descriptor and field list"""
    i = 0
    def c(L):
        L = s.norm(L)
        return L.c if L.is_const() else None
    if not items or items[0][0] != 'int' or items[0][1] != 1 or c(items[0][2]) != 0: return None
    i = 1
    if i < len(items) and items[i][0] == 'Enc': i += 1
    elif i < len(items) and items[i][0] == 'int':
        d = c(items[i][2])
        w = {0x53: 1, 0x80: 8, 0x44: 0}.get(d)
        if w is None or items[i][1] != 1: return None
        i += 1
        if w:
            if i >= len(items) or items[i][0] != 'int' or items[i][1] != w: return None
            i += 1
    else: return None
    if i >= len(items) or items[i][0] != 'int' or items[i][1] != 1: return None
    k = c(items[i][2])
    i += 1
    if k == 0x45: return i
    w = {0xc0: 1, 0xd0: 4}.get(k)
    if w is None or i >= len(items) or items[i][0] != 'int' or items[i][1] != w: return None
    size = s.norm(items[i][2])
    i += 1
    rem = size
    while i < len(items):
        d = s.norm(rem)
        if d == ZERO or e.sum_equal(s, d): return i
        rem = rem - e.item_len(items[i])
        i += 1
    d = s.norm(rem)
    return i if d == ZERO or e.sum_equal(s, d) else None
