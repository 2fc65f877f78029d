"""composition of an encoder with the decoder of the same type: the decoder is analysed on exactly the bytes the encoder
emits (followed by arbitrary further bytes).  Nested values are handled by structural induction: what Enc(T, x) emitted,
the decoder of T turns back into x."""
from core import *
from eng import *
from builtins_ import full
from fns import mentions

TAIL = ('arg', 'tail')
ENC, AENC, DEC, DFM, ADEC = CODEC

class Expand(Exception):
    """an emitted nested value has to be looked into"""
    def __init__(self, base, idx, why): self.base, self.idx, self.why = base, idx, why

class Firsts:
    """the bytes an encoding of a type can start with"""
    def __init__(self, cx): self.cx, self.memo = cx, {}
    def of(self, Ts):
        if Ts in self.memo: return self.memo[Ts]
        self.memo[Ts] = None        # recursive types: unknown until known
        self.memo[Ts] = r = self.compute(Ts)
        return r
    def compute(self, Ts):
        cx, P = self.cx, self.cx.P
        t = P.tystr.get(Ts)
        if t is None or (ENC, 'encode', t) not in P.resolve: return None
        e, r = cx.outcomes(ENC, 'encode', t)
        if isinstance(r, Undecided): return None
        out = set()
        for s, v in r:
            b = s.cells.get('buf')
            if b is None or b[0] != 'bm' or not b[4]: return None
            it = b[4][0]
            if it[0] == 'int' and it[1] == 1:
                L = s.norm(it[2])
                if not L.is_const(): return None
                out.add(L.c)
            elif it[0] == 'Enc':
                f = self.of(it[1])
                if f is None: return None
                out |= f
            else: return None
        return frozenset(out)

_prefix = {}
def prefix(e, items):
    """where each item starts, and the end"""
    r = _prefix.get(id(items))
    if r is not None and r[0] is items: return r[1]
    out, pos = [], ZERO
    for it in items:
        out.append(pos)
        pos = pos + e.item_len(it)
    out.append(pos)
    if len(_prefix) > 2000: _prefix.clear()
    _prefix[id(items)] = (items, out)
    return out

def locate(e, st, items, off, base=None):
    """(index, offset within the item) of a position, or None"""
    off = st.norm(off)
    starts = prefix(e, items)
    for i, p in enumerate(starts[:-1]):
        if (p if not st.eqc else st.norm(p)) == off:
            n = e.item_len(items[i])
            if n.is_const() and n.c > 0 or not st.equal(n, ZERO): return i, ZERO
    pos = ZERO
    for i, it in enumerate(items):
        n = e.item_len(it)
        d = st.norm(off - pos)
        if d.is_const() and d.c < 0: return None
        empty = st.equal(n, ZERO)
        if d == ZERO and not empty: return (i, ZERO) if n.is_const() or it[0] != 'raw' or st.implies(n - 1) else (i, ZERO)
        if not empty and st.implies(d) and st.implies(n - d - 1): return i, d
        if not empty and base is not None and it[0] in ('Enc', 'AEnc') and not st.implies(d - n): raise Expand(base, i, 'part of a nested %s is looked at' % it[1])
        pos = pos + n
    d = st.norm(off - pos)
    if st.implies(d): return len(items), d
    return None

def install(cx, e, firsts, root):
    """root: the (trait, type) under test"""
    P = cx.P

    def emit_read(st, base, off, width, signed):
        items = base[1]
        p = locate(e, st, items, off, base)
        if p is None or p[0] >= len(items): return None
        i, d = p
        it = items[i]
        if it[0] == 'raw':
            sl = it[1]
            if not st.implies(sl[3] - d - width): return None
            return e.read(st, sl[1], sl[2] + d, width, signed)
        if it[0] in ('Enc', 'AEnc'):
            if width == 1 and d == ZERO and it[0] == 'Enc' and not signed:
                f = firsts.of(it[1])
                x = atom(('rd', base, st.norm(off), 1), 0, 255)
                if f:
                    if len(f) == 1: return Lin(min(f))
                    DOM[x.t[0][0]] = tuple(sorted(f))
                return st.norm(x)
            raise Expand(base, i, 'bytes of a nested %s are looked at' % it[1])
        if it[0] == 'intle':
            L = swapped(st.norm(it[2]), it[1])
            if L is None: return None
            it = ('int', it[1], L)
        if it[0] in ('flt', 'int'):
            if d == ZERO and it[1] == width:
                if it[0] == 'flt': return atom(('fbits', it[2], width), 0, 256 ** width - 1)
                L = st.norm(it[2])
                m = 256 ** width
                lo, hi = (-m // 2, m // 2 - 1) if signed else (0, m - 1)
                if L.is_const(): return Lin((L.c - lo) % m + lo)
                if st.implies(L - lo) and st.implies(Lin(hi) - L): return L
                a = L.single()
                if a is not None and a[0] == 'wrap' and a[1] == m and st.implies(a[2] - lo) and st.implies(Lin(hi) - a[2]): return a[2]
                if signed and st.implies(L - hi - 1) and st.implies(Lin(m - 1) - L): return L - m
                if not signed and st.implies(Lin(-1) - L) and st.implies(L + m // 2): return L + m
                return atom(('wrap', m, L, lo), lo, hi)
            # byte by byte
            if width > 1 and d.is_const():
                acc = ZERO
                for k in range(width):
                    b = emit_read(st, base, off + k, 1, signed and k == 0)
                    if b is None: return None
                    acc = acc.scale(256) + b
                return acc
            if it[0] == 'int' and d.is_const() and d.c < it[1] and width == 1:
                L = st.norm(it[2])
                if L.is_const():
                    b = (L.c >> (8 * (it[1] - 1 - d.c))) & 255
                    return Lin(b - 256 if signed and b > 127 else b)
        return None
    e.emit_read = emit_read

    rf = e.read_float
    def read_float(st, base, off, w):
        if base[0] == 'emit':
            p = locate(e, st, base[1], off, base)
            if p and p[0] < len(base[1]) and p[1] == ZERO:
                it = base[1][p[0]]
                if it[0] == 'flt' and it[1] == w: return it[2]
                if it[0] == 'raw': return read_float(st, it[1][1], it[1][2], w)
                if it[0] in ('Enc', 'AEnc'): raise Expand(base, p[0], 'bytes of a nested %s are read' % it[1])
        return rf(st, base, off, w)
    e.read_float = read_float

    def emit_slice(st, sl):
        """a part that lies within one run of emitted bytes is a part of those bytes"""
        items = sl[1][1]
        pos = ZERO
        if sl[2].is_const() and sl[3].is_const() and sl[3].c > 0:
            bs = const_bytes(e, items, sl[2].c, sl[3].c)
            if bs is not None: return ('sl', ('const', bs), ZERO, Lin(len(bs)), sl[4])
        for i, it in enumerate(items):
            n = e.item_len(it)
            d = st.norm(sl[2] - pos)
            if d.is_const() and d.c < 0: return sl
            if it[0] == 'raw' and st.implies(d) and st.implies(n - d - sl[3]) and (not st.equal(sl[3], ZERO) or st.equal(n, ZERO)):
                r = it[1]
                k = sl[4]
                if r[4] == 's' and st.equal(d, ZERO) and st.equal(n, sl[3]): st.setpred(('utf8', r[1], st.norm(r[2]), st.norm(sl[3])), True)
                out = ('sl', r[1], st.norm(r[2] + d), st.norm(sl[3]), k)
                return emit_slice(st, out) if out[1][0] == 'emit' else out
            pos = pos + n
        return sl
    e.emit_slice = emit_slice

    def ih(cx_, tr, m, T, Ts, sl, fmt):
        if sl[1][0] == 'const' and cx_.f.get('inst') is not None: return None
        if sl[1][0] != 'emit': return 'opaque'
        st = cx_.st
        items = sl[1][1]
        p = locate(e, st, items, sl[2] if m != 'decode_with_format' else sl[2] - 1, sl[1])
        if p is None or p[0] >= len(items) or p[1] != ZERO: return None if cx_.f.get('inst') is not None else 'opaque'
        it = items[p[0]]
        want = {'decode': 'Enc', 'decode_with_format': 'Enc', 'array_decode': 'AEnc'}[m]
        if it[0] not in ('Enc', 'AEnc'): return None if cx_.f.get('inst') is not None else 'opaque'
        if it[0] != want or it[1] != Ts:
            if cx_.f.get('inst') is not None: return None    # the decoder itself decides what to make of it
            raise Expand(sl[1], p[0], '%s is read as %s' % (it[1], Ts))
        n = e.item_len(it)
        start = sl[2]
        end = sl[2] + n
        if m == 'decode_with_format':
            x = emit_read(st, sl[1], sl[2] - 1, 1, False)
            if fmt is None or x is None or not st.equal(fmt, x): raise Expand(sl[1], p[0], '%s is read with a constructor that was not written' % it[1])
            end = end - 1
        # the whole value must be available
        if not st.implies(sl[2] + sl[3] - end): raise Expand(sl[1], p[0], 'part of %s is read' % it[1])
        val = e.mk(it[2], T)
        tup = e.ty(cx_.rty)['args'][0]
        rest = ('sl', sl[1], st.norm(end), st.norm(sl[2] + sl[3] - end), sl[4])
        st.ev(('ih', Ts, it[2]))
        return [(st, ('agg', cx_.rty, 0, (('agg', tup, 0, (rest, val)),)))]
    e.ih = ih

def const_bytes(e, items, off, n):
    out = b''
    pos = 0
    for it in items:
        L = e.item_len(it)
        if pos >= off + n: break
        if not L.is_const(): return None
        if pos + L.c > off:
            if it[0] == 'int' and it[2].is_const(): b = (it[2].c % 256 ** it[1]).to_bytes(it[1], 'big')
            elif it[0] == 'raw' and it[1][1][0] == 'const' and it[1][2].is_const(): b = it[1][1][1][it[1][2].c:it[1][2].c + L.c]
            else: return None
            out += b[max(0, off - pos):off + n - pos]
        pos += L.c
    return out if len(out) == n else None

def replace(items, i, new): return items[:i] + tuple(new) + items[i + 1:]

class Compose:
    def __init__(self, cx):
        self.cx, self.P = cx, cx.P
        self.firsts = Firsts(cx)
        self.ran = 0
        self.opened = 0

    def encode(self, t, pins=(), tr=ENC, m='encode', variants=()):
        """[(engine, state, items)]"""
        cx, P = self.cx, self.P
        e = cx.eng(unroll=True)
        st = State()
        v = e.mk(('arg', 'self'), t)
        st.cells['self'] = v
        st.cells['buf'] = outbuf()
        for term, n in pins:
            if not st.addeq(e.lenof(term) - n): return e, []
        for term, tid, vi in variants:
            if not e.set_variant(st, term, tid, vi): return e, []
        args = [v if v[0] == 'sl' else ('ref', 'self', (), True), ('ref', 'buf', (), True)]
        r = cx.go(e, P.resolve[(tr, m, t)], args, st)
        cx.absorb(e)
        if isinstance(r, Undecided): return e, r
        out = []
        for s, _ in r:
            b = s.cells['buf']
            if b[0] != 'bm': return e, Undecided('output not modelled')
            q = self.open_self(t, s, b[4])
            if isinstance(q, Undecided): return e, q
            out += q
        return e, out

    def open_self(self, t, s, items):
        """the array-format encoding of the value itself is looked into"""
        i = next((i for i, it in enumerate(items) if it[0] == 'AEnc' and (AENC, 'array_encode', self.P.tystr.get(it[1])) in self.P.resolve), None)
        if i is None: return [(s, items)]
        r = self.nested(s, items[i])
        if isinstance(r, Undecided): return r
        out = []
        for s2, its in r:
            if ('AEnc', items[i][1], items[i][2]) in its: return Undecided('recursive')
            q = self.open_self(t, s2, replace(items, i, its))
            if isinstance(q, Undecided): return q
            out += q
        return out

    def nested(self, s, it):
        """what a nested value is written as: [(state, items)]"""
        cx, P = self.cx, self.P
        k = (ENC, 'encode') if it[0] == 'Enc' else (AENC, 'array_encode')
        tid = P.tystr.get(it[1])
        if tid is None or k + (tid,) not in P.resolve: return Undecided('no encoder of %s' % it[1])
        self.opened += 1
        e = cx.eng(unroll=True)
        s = s.copy()
        s.cells = dict(s.cells)
        v = e.mk(it[2], tid)
        s.cells['nested'] = v
        s.cells['buf'] = outbuf()
        r = cx.go(e, P.resolve[k + (tid,)], [v if v[0] == 'sl' else ('ref', 'nested', (), True), ('ref', 'buf', (), True)], s)
        cx.absorb(e)
        if isinstance(r, Undecided): return r
        out = []
        for s2, _ in r:
            b = s2.cells['buf']
            if b[0] != 'bm': return Undecided('output not modelled')
            # the announced size is the size written (C06)
            if s2.addeq(e.item_len(it) - e.items_len(b[4])): out.append((s2, b[4]))
        return out

    def decode(self, t, s, items, m='decode', tr=DEC, fmt=None, extra=(), depth=0, tail=None):
        """[(engine, items, state, value)] or Undecided: what the decoder of t makes of the items in state s"""
        cx, P = self.cx, self.P
        tail0 = tail
        e = cx.eng(unroll='strict')
        e.collect = False
        install(cx, e, self.firsts, (tr, P.ts(t)))
        st = s.copy()
        st.events = ()
        st.cells = {k: v for k, v in st.cells.items() if k in ('self',)}
        tail = e.lenof(TAIL) if tail is None else Lin(tail)
        sl = ('sl', ('emit', items), ZERO, e.items_len(items) + tail, 'b')
        args = [sl]
        if m == 'decode_with_format': args.append(('i', fmt))
        args += list(extra)
        self.ran += 1
        try: r = cx.go(e, P.resolve[(tr, m, t)], args, st)
        except Expand as x:
            cx.absorb(e)
            if depth > 6: return Undecided('nested too deep: ' + x.why)
            base_items = x.base[1]
            if base_items != items: return Undecided('a part of the emitted bytes has to be looked into')
            r2 = self.nested(s, items[x.idx])
            if isinstance(r2, Undecided): return r2
            out = []
            for s3, its in r2:
                q = self.open_self(t, s3, replace(items, x.idx, its))
                if isinstance(q, Undecided): return q
                for s4, its2 in q:
                    r3 = self.decode(t, s4, its2, m, tr, fmt, extra, depth + 1, tail0)
                    if isinstance(r3, Undecided): return r3
                    out += r3
            return out
        cx.absorb(e)
        if isinstance(r, Undecided): return r
        return [(e, items, s2, v2) for s2, v2 in r]
