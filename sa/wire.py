"""The AMQP 1.0 type encoding (part 1 of the specification) as a grammar over abstract emissions."""
from core import *
from rules_decode import has_opq, opaque_state

class Bad(Exception): pass       # not a well-formed encoding
class Unk(Exception): pass       # the domain cannot tell

FIXED = {0x4: 0, 0x5: 1, 0x6: 2, 0x7: 4, 0x8: 8, 0x9: 16}
VAR = {0xa: 1, 0xb: 4}
COMP = {0xc: 1, 0xd: 4}
ARR = {0xe: 1, 0xf: 4}
KNOWN = {0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x81, 0x82, 0x83,
         0x84, 0x94, 0x98, 0xa0, 0xb0, 0xa1, 0xb1, 0xa3, 0xb3, 0xc0, 0xd0, 0xc1, 0xd1, 0xe0, 0xf0}

def norm_items(e, s, items):
    """constant byte strings become single bytes, constant wide integers stay"""
    out = []
    for it in items:
        if it[0] == 'raw' and it[1][0] == 'sl' and it[1][1][0] == 'const':
            b, o, n = it[1][1][1], s.norm(it[1][2]), s.norm(it[1][3])
            if o.is_const() and n.is_const():
                out += [('int', 1, Lin(x)) for x in b[o.c:o.c + n.c]]
                continue
        if it[0] == 'raw' and it[1][0] == 'sl' and s.norm(it[1][3]) == ZERO: continue
        out.append(it)
    return tuple(out)

class Cur:
    def __init__(self, w, e, s, items):
        self.w, self.e, self.s = w, e, s
        self.items = list(norm_items(e, s, items))
        self.p = 0
    def done(self): return self.p >= len(self.items)
    def peek(self): return self.items[self.p]
    def take_int(self, n, what):
        """an integer field of n bytes, or n constant bytes"""
        if self.done(): raise Bad('%s is missing' % what)
        it = self.items[self.p]
        if it[0] == 'int' and it[1] == n:
            self.p += 1
            return self.s.norm(it[2])
        if it[0] == 'int' and it[1] < n:
            v, k = Lin(0), 0
            while k < n:
                if self.done(): raise Bad('%s is cut short' % what)
                it = self.items[self.p]
                if it[0] != 'int' or k + it[1] > n: break
                x = self.s.norm(it[2])
                v = v.scale(256 ** it[1]) + x
                k += it[1]
                self.p += 1
            if k == n: return v
        if it[0] == 'int' and it[1] > n:
            x = self.s.norm(it[2])
            if x.is_const():
                b = (x.c % 256 ** it[1]).to_bytes(it[1], 'big')
                self.items[self.p:self.p + 1] = [('int', 1, Lin(y)) for y in b]
                return self.take_int(n, what)
        if it[0] == 'intle' : raise Bad('%s is written in little-endian order' % what)
        if it[0] == 'int': raise Bad('%s should take %d bytes, %d are written' % (what, n, it[1]))
        raise (Unk if it[0] in ('lv', 'top', 'raw') else Bad)('%s of %d bytes expected, %s found' % (what, n, show_item(it)))

def show_item(it):
    if it[0] in ('Enc', 'AEnc'): return 'the encoding of %s (%s)' % (E.show(it[2]), it[1])
    if it[0] in ('int', 'intle'): return 'a %d-byte integer %r' % (it[1], it[2])
    if it[0] == 'star': return 'a repetition'
    return str(it)[:80]

class Wire:
    def __init__(self, cx):
        self.cx = cx
        self.kinds = {}

    def ctx_state(self, s, o):
        """state inside one case of a repetition"""
        t = s.copy()
        for f in o[0]:
            if not t.add(f): return None
        for k, v in o[1]:
            if t.variants.get(k, v) != v: return None
            t.variants[k] = v
        for k, v in o[2]:
            if not t.setpred(k, v): return None
        return t

    def kind(self, T):
        """'value': one complete value; 'prefix': the 0x00 constructor and a descriptor; 'seq': zero or more values back to back or raw bytes"""
        k = self.kinds.get(T)
        if k is None:
            self.kinds[T] = 'value'
            tid = self.cx.P.tystr.get(T)
            if tid is None or (ENC, 'encode', tid) not in self.cx.P.resolve: return 'value'
            e, r = self.cx.outcomes(ENC, 'encode', tid)
            if isinstance(r, Undecided): self.kinds[T] = 'unknown'; return 'unknown'
            k = 'value'
            for s, v in r:
                buf = s.cells['buf']
                if buf[0] != 'bm': k = 'unknown'; break
                try:
                    ns = self.seq(e, s, buf[4], True)
                    if len(ns) == 1 and ns[0][0] == 'pre': k = 'prefix'; break
                    if len(ns) != 1 or ns[0][0] == 'star': k = 'seq'; break
                except Bad: 
                    k = 'value' if k == 'value' and T not in self.cx.zero_ok else 'seq'
                except Unk: k = 'unknown'; break
            self.kinds[T] = k
        return k

    # a run of values
    def seq(self, e, s, items, root=False):
        c = Cur(self, e, s, items)
        out = []
        while not c.done(): out.append(self.value(c))
        if any(x[0] == 'pre' for x in out) and not (root and len(out) == 1): raise Bad('a described value is missing its value')
        return out

    def value(self, c):
        if c.done(): raise Bad('a value is missing')
        it = c.peek()
        if it[0] == 'Enc':
            c.p += 1
            x = ('enc', it[1], it[2])
            if self.kind(it[1]) == 'prefix':
                if c.done(): return ('pre', x)
                return ('desc', x, self.value(c))
            return x
        if it[0] == 'star':
            c.p += 1
            outs = []
            for o in it[2]:
                st = self.ctx_state(c.s, o)
                if st is None: continue
                outs.append((o[:3], self.seq(c.e, st, o[3])))
            return ('star', it[1], outs)
        if it[0] in ('lv', 'top'): raise Unk('repetition not modelled')
        code = c.take_int(1, 'a constructor')
        if not code.is_const():
            raise Unk('constructor %r' % code)
        code = code.c
        if code == 0:
            d = self.value(c)
            if c.done(): return ('pre', d)
            v = self.value(c)
            if v[0] == 'star': raise Bad('a described value is missing its value')
            return ('desc', d, v)
        return self.body(c, code)

    def body(self, c, code):
        if code not in KNOWN: raise Bad('0x%02x is not a constructor' % code)
        h = code >> 4
        if not c.done() and c.peek()[0] == 'AEnc':
            it = c.peek()
            a = self.assoc_code(it[1])
            if not isinstance(a, int): raise Unk('element form of %s' % it[1])
            if a != code: raise Bad('constructor 0x%02x is followed by %s in the form of constructor 0x%02x' % (code, it[1], a))
            c.p += 1
            return ('prim', code, ('aenc', it[1], it[2]))
        if h in FIXED:
            return ('prim', code, self.fixed(c, FIXED[h], code))
        w = VAR.get(h) or COMP.get(h) or ARR.get(h)
        size = c.take_int(w, 'the size field of constructor 0x%02x' % code)
        e, s = c.e, c.s
        if h in VAR:
            inner = self.extent(c, size, code, size)
            return ('var', code, size, inner)
        count = c.take_int(w, 'the count field of constructor 0x%02x' % code)
        inner = self.extent(c, size - w, code, size)
        if h in COMP:
            ns = self.seq(e, s, inner)
            n = self.count(e, s, ns)
            d = s.norm(n - count)
            if not e.sum_equal(s, d):
                if opaque_state(e, s) or has_opq(d): raise Unk('count not modelled')
                raise Bad('the count field of constructor 0x%02x says %r but %r values follow' % (code, s.norm(count), s.norm(n)))
            return ('comp', code, size, count, ns)
        ci = Cur(self, e, s, inner)
        ctor = ci.take_int(1, 'the element constructor of an array')
        rest = tuple(ci.items[ci.p:])
        n = ZERO
        elems = []
        for it in rest:
            if it[0] == 'AEnc':
                n = n + 1
                elems.append(it)
                self.ctor_of(s, it[1], ctor)
            elif it[0] == 'star':
                cnts = []
                for o in it[2]:
                    if any(y[0] != 'AEnc' for y in o[3]): raise (Unk if any(y[0] in ('lv', 'top', 'raw') for y in o[3]) else Bad)('an array element is not written in array form')
                    for y in o[3]: self.ctor_of(s, y[1], ctor)
                    cnts.append((o[0], o[1], o[2], Lin(len(o[3]))))
                n = n + e.sum_over(it[1], cnts)
                elems.append(it)
            elif it[0] == 'Enc': raise Bad('array elements carry constructors of their own')
            else: raise Unk('array content')
        d = s.norm(n - count)
        if not e.sum_equal(s, d):
            if opaque_state(e, s) or has_opq(d): raise Unk('count not modelled')
            raise Bad('the count field of an array says %r but %r elements follow' % (s.norm(count), s.norm(n)))
        return ('array', code, size, count, ctor, tuple(elems))

    def assoc_code(self, T):
        P = self.cx.P
        return P.assoc.get((AENC, 'ARRAY_FORMAT_CODE', P.tystr.get(T)))

    def ctor_of(self, s, T, ctor):
        a = self.assoc_code(T)
        if isinstance(a, int):
            if ctor.is_const() and ctor.c != a: raise Bad('array of %s announces constructor 0x%02x, its elements are written for 0x%02x' % (T, ctor.c, a))
            if not ctor.is_const() and has_opq(ctor): raise Unk('element constructor')

    def fixed(self, c, n, code):
        if n == 0: return None
        if c.done(): raise Bad('the %d bytes of constructor 0x%02x are missing' % (n, code))
        it = c.peek()
        if it[0] == 'fltle': raise Bad('the value of constructor 0x%02x is written in little-endian order' % code)
        if it[0] == 'flt':
            if it[1] != n: raise Bad('constructor 0x%02x takes %d bytes, a float of %d is written' % (code, n, it[1]))
            c.p += 1
            return it
        if it[0] == 'raw':
            L = c.s.norm(it[1][3])
            if it[1][1][0] == 'emit' and it[1][2] == ZERO and c.s.norm(c.e.items_len(it[1][1][1]) - L) == ZERO:
                c.items[c.p:c.p + 1] = list(it[1][1][1])
                return self.fixed(c, n, code)
            if L.is_const() and L.c == n:
                c.p += 1
                return it
            if L.is_const(): raise Bad('constructor 0x%02x takes %d bytes, %d are written' % (code, n, L.c))
            raise Unk('raw bytes after constructor 0x%02x' % code)
        return ('int', n, c.take_int(n, 'the value of constructor 0x%02x' % code))

    def extent(self, c, want, code, size):
        """the items that make up exactly `want` bytes"""
        e, s = c.e, c.s
        best = None
        tot = ZERO
        items = c.items[c.p:]
        best = None
        for k in range(len(items) + 1):
            if e.sum_equal(s, tot - want): best = k
            if k < len(items): tot = tot + e.item_len(items[k])
        if best is None:
            w = opaque_state(e, s)
            d = s.norm(tot - want)
            if w or e.imprecise_lin(d) or any(i[0] in ('lv', 'top') for i in items): raise Unk(w or 'size %r' % size)
            raise Bad('the size field after constructor 0x%02x says %r, but the content that follows has %r bytes where %r are announced' % (code, s.norm(size), s.norm(tot), s.norm(want)))
        c.p += best
        return tuple(items[:best])

    def count(self, e, s, ns):
        n = ZERO
        for x in ns:
            if x[0] == 'star':
                outs = []
                for o, inner in x[2]:
                    st = self.ctx_state(s, o)
                    outs.append((o[0], o[1], o[2], self.count(e, st, inner)))
                n = n + e.sum_over(x[1], outs)
            else:
                if x[0] == 'enc' and self.kind(x[1]) == 'seq': raise Bad('%s is not a single value' % x[1])
                n = n + 1
        return n
