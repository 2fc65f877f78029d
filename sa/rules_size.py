"""C04, C06: announced sizes and length/size/count fields."""
from core import *

def fmt_state(e, s):
    v = ', '.join('%s is %s' % (show(t), variant_name(e, t, x)) for t, x in s.variants.items())
    f = ', '.join('%r >= 0' % (x,) for x in s.facts[:6])
    c = ', '.join('%s = %d' % (show(ATOMS[a]), x) for a, x in list(s.eqc.items())[:8] if ATOMS[a][0] != 'disc')
    return '; '.join(x for x in (v, f, c) if x) or 'any value'

def variant_name(e, t, x):
    tid = e.enums.get(t)
    if tid is None: return str(x)
    try: return e.adt(tid)['variants'][x]['name']
    except Exception: return str(x)

def imprecise_items(e, items):
    for it in items:
        if it[0] in ('lv', 'base'): return True
        if it[0] == 'star' and any(imprecise_items(e, o[3]) for o in it[2]): return True
        if e.imprecise_lin(e.item_len(it)): return True
    return False

def pairs(cx, rep, tr, t, m1, m2):
    P = cx.P
    e1, r1 = cx.outcomes(tr, m1, t)
    e2, r2 = cx.outcomes(tr, m2, t)
    T = P.ts(t)
    for r, m in ((r1, m1), (r2, m2)):
        if isinstance(r, Undecided):
            rep.undec('%s::%s' % (T, m), r)
            return
    for s1, v1 in r1:
        for s2, v2 in r2:
            s = merge(s1, s2)
            if s is not None: yield e2, s, s1, v1, s2, v2

def c04(cx, rep, short=False, only=None, pre=''):
    n = 0
    for tr, t in cx.enc_roots():
        T = cx.P.ts(t)
        if only is not None and not only(T): continue
        if cx.P.types[t]['k'] == 'param': continue
        m1, m2 = ('encoded_size', 'encode') if tr == ENC else ('array_encoded_size', 'array_encode')
        form = 'stand-alone' if tr == ENC else 'array element'
        for e, s, s1, v1, s2, v2 in pairs(cx, rep, tr, t, m1, m2):
            n += 1
            key = '%s%s (%s)' % (pre, T, form)
            if v1[0] != 'i': rep.undec(key, 'size not modelled'); continue
            if is_cached(v1[1]): continue     # a remembered size: C16 shows it equals the computed one
            buf = s2.cells['buf']
            if buf[0] != 'bm': rep.undec(key, 'buffer not modelled'); continue
            total = e.items_len(buf[4])
            d = s.norm(v1[1] - total)
            if e.sum_equal(s, d) or short and s.implies(d): rep.good(key if not short else '%s: the room reserved from its announced size suffices' % key); continue
            lost = any(x[0] == 'lostput' for x in s2.events)
            if s.imprecise or lost or e.imprecise_lin(d) or imprecise_items(e, buf[4]):
                rep.undec(key, 'size %r, written %r: %s' % (v1[1], total, s.imprecise)); continue
            w = s.copy()
            if not w.unwrap() or e.sum_equal(w, w.norm(d)): continue
            rep.bad('%s%s %s' % (pre, T, form), 'for %s (%s) with %s: announced size %r but %r bytes are written (difference %r)' % (T, form, fmt_state(e, s), s.norm(v1[1]), s.norm(total), d))
    rep.cov['pairs'] = n

# ---------------------------------------------------------------- C06
def c06(cx, rep):
    from wire import Wire, Bad, Unk, Cur
    W = Wire(cx)
    P = cx.P
    n = 0
    for tr, t in cx.enc_roots():
        T = P.ts(t)
        if P.types[t]['k'] == 'param': continue
        name = '%s (%s)' % (T, 'stand-alone' if tr == ENC else 'array element')
        e, r = cx.outcomes(tr, 'encode' if tr == ENC else 'array_encode', t)
        if isinstance(r, Undecided): rep.undec(name, r); continue
        for s, v in r:
            n += 1
            buf = s.cells['buf']
            if buf[0] != 'bm': rep.undec(name, 'buffer not modelled'); continue
            if any(x[0] == 'lostput' for x in s.events): rep.undec(name, 'write not modelled'); continue
            w = opaque(e, s)
            try:
                items = buf[4]
                if tr == ENC:
                    if raw_type(cx, e, s, T, items): rep.good(name); continue
                    if frame_type(T, items): items = frame(cx, W, e, s, items)
                    W.seq(e, s, items, True)
                else:
                    code = P.assoc.get((AENC, 'ARRAY_FORMAT_CODE', t))
                    if not isinstance(code, int): rep.undec(name, 'array constructor unknown'); continue
                    c = Cur(W, e, s, items)
                    W.body(c, code)
                    if not c.done(): raise Bad('bytes are written after the element of constructor 0x%02x' % code)
                rep.good(name)
            except Unk as x: rep.undec(name, x)
            except Bad as x:
                if w: rep.undec(name, '%s; %s' % (w, x))
                else: rep.bad(name, '%s: %s (%s)' % (name, x, fmt_state(e, s)))
    rep.cov['outcomes'] = n

def opaque(e, s):
    from rules_decode import opaque_state
    return opaque_state(e, s)

def raw_type(cx, e, s, T, items):
    """payload types: bytes without any framing of their own"""
    return T == 'protocol::TransferBody' and all(i[0] == 'raw' or i[0] == 'Enc' for i in items)

def frame_type(T, items):
    return T.rsplit('::', 1)[-1] in ('AmqpFrame', 'SaslFrame')

def frame(cx, W, e, s, items):
    from wire import Cur, Bad, Unk
    c = Cur(W, e, s, items)
    size = c.take_int(4, 'the frame size')
    tot = e.items_len(items)
    d = s.norm(size - tot)
    if not e.sum_equal(s, d):
        # the announced size is the codec's own size function, which C04 shows to be the number of bytes written
        a = s.norm(size).single()
        if not (a is not None and a[0] == 'size' and a[2] == ('arg', 'self')):
            if e.imprecise_lin(d): raise Unk('frame size %r' % size)
            raise Bad('the frame size field says %r, but the frame has %r bytes' % (s.norm(size), s.norm(tot)))
    doff = c.take_int(1, 'the data offset')
    if not (doff.is_const() and doff.c == 2): raise Bad('the data offset is %r, the header takes 8 bytes' % doff)
    c.take_int(1, 'the frame type')
    c.take_int(2, 'the channel')
    return tuple(c.items[c.p:])

# ---------------------------------------------------------------- C05
def c05(cx, rep):
    P = cx.P
    roots = [('%s::encode through the stream' % {'amqp': 'AmqpCodec', 'protocol': 'ProtocolIdCodec'}[k],) + cx.stream(k, 'encode', room=True) for k in ('amqp', 'protocol')]
    nob = 0
    for name, e, r in roots:
        if isinstance(r, Undecided): rep.undec(name, r); continue
        L = e.lenof(('arg', 'src'))
        for s, v in r:
            w = opaque(e, s) or ('write not modelled' if any(x[0] == 'lostput' for x in s.events) else None)
            d = s.cells['src']
            if d[0] != 'bm': rep.undec(name, 'destination not modelled'); continue
            keep = d[1] == ('in', 'src') and s.norm(d[2]) == ZERO and s.norm(d[3] - L) == ZERO
            if keep: rep.good('%s: the bytes already in the destination stay (%s)' % (name, fmt_state(e, s)))
            elif w: rep.undec(name, w)
            else: rep.bad('%s overwrites' % name, '%s: bytes already in the destination do not survive: %r of the original bytes remain (%s)' % (name, s.norm(d[3]), fmt_state(e, s)))
            if v[0] == 'agg' and v[2] == 0: rep.good('%s: succeeds (%s)' % (name, fmt_state(e, s)))
            elif v[0] == 'agg' and not w: rep.bad('%s fails' % name, '%s returns an error (%s)' % (name, fmt_state(e, s)))
            else: rep.undec(name, w or 'result not modelled')
    for tr, t in cx.enc_roots():
        T = P.ts(t)
        name = '%s (%s)' % (T, 'stand-alone' if tr == ENC else 'array element')
        for m in (('encode', 'encoded_size') if tr == ENC else ('array_encode', 'array_encoded_size')):
            e, r = cx.outcomes(tr, m, t, room=True)
            roots.append(('%s::%s' % (name, m), e, r))
        if isinstance(r, Undecided): continue
        e, r = cx.outcomes(tr, 'encode' if tr == ENC else 'array_encode', t, room=True)
        if isinstance(r, Undecided): continue
        for s, v in r:
            buf = s.cells['buf']
            if buf[0] == 'bm' and buf[1] == ('const', b'') and s.norm(buf[3]) == ZERO and buf[2] == ZERO: rep.good('%s: only appends' % name)
            else: rep.undec(name, 'destination not modelled')
    for name, e, r in roots:
        if isinstance(r, Undecided): rep.undec(name, r); continue
        rep.good('%s: every path analysed' % name)
        for site, (stat, text, det, stack) in e.oblig.items():
            nob += 1
            key = '%s: %s' % (site[0], site[2])
            if stat == 'ok': rep.good('%s in %s' % (text[:80], name))
            elif stat == 'unknown': rep.undec('%s in %s' % (key, name), text)
            else: rep.bad(key, '%s can panic in %s (line %s): %s; %s [call path: %s]' % (name, site[0], site[1], text, det, ' > '.join(stack)))
        for u in e.unknown: rep.undec('%s calls %s' % (name, u), 'callee not modelled')
    rep.cov['sites'] = nob
    c04(cx, rep, True)
