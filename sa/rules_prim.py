"""C07: primitive values against the AMQP 1.0 type tables (OASIS AMQP 1.0, part 1, section 1.6)."""
from core import *
from rules_size import fmt_state
from rules_decode import opaque_state, has_opq
from wire import Wire, Bad, Unk, Cur

# constructor -> (value width, reading)
TABLE = {
 'bool':      {0x41: (0, True), 0x42: (0, False), 0x56: (1, 'bool')},
 'ubyte':     {0x50: (1, 'u')},
 'ushort':    {0x60: (2, 'u')},
 'uint':      {0x70: (4, 'u'), 0x52: (1, 'u'), 0x43: (0, 0)},
 'ulong':     {0x80: (8, 'u'), 0x53: (1, 'u'), 0x44: (0, 0)},
 'byte':      {0x51: (1, 's')},
 'short':     {0x61: (2, 's')},
 'int':       {0x71: (4, 's'), 0x54: (1, 's')},
 'long':      {0x81: (8, 's'), 0x55: (1, 's')},
 'float':     {0x72: (4, 'f')},
 'double':    {0x82: (8, 'f')},
 'char':      {0x73: (4, 'u')},
 'timestamp': {0x83: (8, 'ms')},
 'uuid':      {0x98: (16, 'raw')},
 'binary':    {0xa0: (1, 'var'), 0xb0: (4, 'var')},
 'string':    {0xa1: (1, 'var'), 0xb1: (4, 'var')},
 'symbol':    {0xa3: (1, 'var'), 0xb3: (4, 'var')},
}
KIND = {'bool': 'bool', 'u8': 'ubyte', 'u16': 'ushort', 'u32': 'uint', 'u64': 'ulong', 'i8': 'byte', 'i16': 'short', 'i32': 'int', 'i64': 'long', 'f32': 'float', 'f64': 'double',
        'char': 'char', 'chrono::DateTime<chrono::Utc>': 'timestamp', 'uuid::Uuid': 'uuid', 'bytes::Bytes': 'binary', 'string::String<bytes::Bytes>': 'string', 'types::Str': 'string', 'str': 'string',
        'types::symbol::Symbol': 'symbol', 'types::symbol::StaticSymbol': 'symbol'}
VARIANT = {'bool': 'Boolean', 'ubyte': 'Ubyte', 'ushort': 'Ushort', 'uint': 'Uint', 'ulong': 'Ulong', 'byte': 'Byte', 'short': 'Short', 'int': 'Int', 'long': 'Long', 'float': 'Float', 'double': 'Double',
           'char': 'Char', 'timestamp': 'Timestamp', 'uuid': 'Uuid', 'binary': 'Binary', 'string': 'String', 'symbol': 'Symbol'}
VCODES = {c: VARIANT[k] for k, t in TABLE.items() for c in t}
VCODES.update({0x40: 'Null', 0x45: 'List', 0xc0: 'List', 0xd0: 'List', 0xc1: 'Map', 0xd1: 'Map', 0x00: 'Described'})

def base_name(T):
    return T.rsplit('::', 1)[-1] if '<' not in T else T

def prims(P):
    return [(t, T, KIND[T]) for T, t in sorted(P.tystr.items()) if T in KIND]

def bytewise(L):
    """integer reads as sums of byte reads"""
    out = Lin(L.c)
    for i, k in L.t:
        a = ATOMS[i]
        if a[0] == 'rd' and a[3] > 1:
            for j in range(a[3]): out = out + atom(('rd', a[1], a[2] + j, 1), 0, 255).scale(k * 256 ** (a[3] - 1 - j))
        elif a[0] == 'rds':
            for j in range(a[3]): out = out + atom(('rd', a[1], a[2] + j, 1), 0, 255).scale(k * 256 ** (a[3] - 1 - j))
            out = out - atom(('sgn', a[1], a[2]), 0, 1).scale(k * 256 ** a[3])
        elif a[0] == 'fromle':
            r = a[2]
            for j in range(r[3]): out = out + atom(('rd', r[1], r[2] + j, 1), 0, 255).scale(k * 256 ** j)
            if a[1]: out = out - atom(('sgn', r[1], r[2] + (r[3] - 1)), 0, 1).scale(k * 256 ** r[3])
        elif a[0] == 'wrap' and a[1] in (1 << 8, 1 << 16, 1 << 32, 1 << 64):
            x = bytewise(a[2])
            w = {1 << 8: 1, 1 << 16: 2, 1 << 32: 4, 1 << 64: 8}[a[1]]
            s = [ATOMS[j] for j, m in x.t if m == 256 ** (w - 1) and ATOMS[j][0] == 'rd']
            exact = len(s) == 1 and all(ATOMS[j][0] == 'rd' for j, _ in x.t) and sum(255 * m for _, m in x.t) == a[1] - 1 and x.c == 0
            if exact and a[3] == 0: out = out + x.scale(k)
            elif exact and a[3] == -(a[1] // 2): out = out + (x - atom(('sgn', s[0][1], s[0][2]), 0, 1).scale(a[1])).scale(k)
            elif a[3] == 0 and (bounds(a[2])[0] or 0) >= 0 and bounds(a[2])[0] is not None:
                # x mod n = x - n * (x div n)
                q = atom(('quot', x, a[1]), 0, None)
                if q.t[0][0] not in E.AX: E.AX[q.t[0][0]] = [x - q.scale(a[1]), q.scale(a[1]) + (a[1] - 1) - x]
                out = out + (x - q.scale(a[1])).scale(k)
            else: out = out + Lin(0, ((i, k),))
        else: out = out + Lin(0, ((i, k),))
    return out

FREE = ('rd', 'rds', 'v', 'len', 'secs', 'subms', 'disc', 'sgn', 'size', 'used')
class Open(Exception): pass

def value(L, env):
    """the value of a form when the free quantities have these values"""
    r = L.c
    for i, k in L.t: r += k * avalue(i, env)
    return r

def avalue(i, env):
    if i in env: return env[i]
    a = ATOMS[i]
    if a[0] == 'quot': return value(a[1], env) // a[2]
    if a[0] == 'fdiv': return value(a[1], env) // a[2]
    if a[0] == 'tadj':
        x = value(a[1], env)
        return 1 if x < 0 and x % a[2] else 0
    if a[0] == 'wrap': return (value(a[2], env) - a[3]) % a[1] + a[3]
    if a[0] == 'opq' and a[1] in ('and', 'or', 'BitXor', 'BitAnd', 'BitOr') and len(a) == 4:
        x, y = (value(z, env) if isinstance(z, Lin) else z for z in a[2:])
        if isinstance(x, int) and isinstance(y, int): return x & y if a[1] in ('and', 'BitAnd') else x | y if a[1] in ('or', 'BitOr') else x ^ y
    raise Open(a[0])

def free(L, out):
    for i, _ in L.t:
        a = ATOMS[i]
        if a[0] in FREE: out.add(i)
        elif a[0] in ('quot', 'fdiv', 'tadj'): free(a[1], out)
        elif a[0] == 'wrap': free(a[2], out)
        elif a[0] == 'opq' and a[1] in ('and', 'or', 'BitXor', 'BitAnd', 'BitOr') and len(a) == 4:
            for z in a[2:]:
                if isinstance(z, Lin): free(z, out)
        else: raise Open(a[0])

def witness(s, d):
    """values of the quantities in d, allowed on this path, for which d is not zero; None when none was found"""
    import itertools
    try:
        vs = set()
        free(d, vs)
        if not 0 < len(vs) <= 3: return None
        conds = []
        for kind, Ls in (('ge', s.facts), ('ne', s.nes)):
            for L in Ls:
                L = s.norm(L)
                f = set()
                try: free(L, f)
                except Open:
                    if any(mentions_atom(L, i) for i in vs): return None
                    continue
                if f & vs:
                    if f - vs: return None
                    conds.append((kind, L))
        for i, v in s.eqc.items():
            f = set()
            L = Lin(0, ((i, 1),))
            try: free(L, f)
            except Open: continue
            if f & vs:
                if f - vs: return None
                conds.append(('eq', L - v))
        cand = []
        for i in vs:
            lo, hi = BLO[i] or 0, BHI[i] if BHI[i] is not None else (1 << 32)
            c = {lo, hi, lo + 1, hi - 1}
            for k in range(1, 65):
                for x in (1 << k, (1 << k) - 1, (1 << k) + 1, -(1 << k), -(1 << k) - 1, (1 << k) + (1 << (k // 2))): c.add(x)
            cand.append(sorted(x for x in c if lo <= x <= hi)[:400])
        if len(vs) > 1: cand = [c[::max(1, len(c) // 24)] + c[-2:] for c in cand]
        for xs in itertools.product(*cand):
            env = dict(zip(vs, xs))
            if value(d, env) == 0: continue
            if all((value(L, env) >= 0) if k == 'ge' else (value(L, env) != 0) if k == 'ne' else value(L, env) == 0 for k, L in conds): return env
    except Open: return None
    return None

def mentions_atom(L, i):
    a = ATOMS[i]
    def m(x):
        if isinstance(x, Lin): return any(ATOMS[j] == a or m(ATOMS[j]) for j, _ in x.t)
        if isinstance(x, tuple): return x == a or any(m(y) for y in x)
        return False
    return m(L)

def definite(L):
    """differences over plain reads and inputs can be judged; anything else cannot"""
    return all(ATOMS[i][0] in ('rd', 'sgn', 'v', 'len', 'secs', 'subms', 'disc') for i, _ in L.t)

def same(s, a, b, w=8):
    """True / False / None: two integer values agree on every input of this path"""
    d = bytewise(s.norm(s.norm(a) - s.norm(b)))
    if d == ZERO: return True
    d2 = bytewise(s.norm(a)) - bytewise(s.norm(b))
    if d2 == ZERO: return True
    d = s.norm(d2)
    if d == ZERO: return True
    if d.is_const(): return False
    # a truncated value differs exactly when the truncation loses something
    for x, y in ((s.norm(a), s.norm(b)), (s.norm(b), s.norm(a))):
        q = x.single()
        if q is not None and q[0] == 'wrap':
            n, inner, lo = q[1], q[2], q[3]
            if s.norm(inner - y) == ZERO:
                # same bits at the width written
                if s.implies(y - lo) and s.implies(Lin(lo + n - 1) - y): return True
                t1, t2 = s.copy(), s.copy()
                if t1.add(y - (lo + n)) and definite(y) or t2.add(Lin(lo - 1) - y) and definite(y): return False
                return None
    return False if definite(d) or witness(s, d) else None

def samebits(s, L, v, w):
    """an integer field of w bytes holds v (two's complement when negative)"""
    r = same(s, L, v)
    if r: return r
    q = s.norm(L).single()
    if q is not None and q[0] == 'wrap' and q[1] == 256 ** w:
        r2 = same(s, q[2], v)
        if r2:
            if q[3] < 0 or not s.implies(v): lo, hi = -(256 ** w) // 2, 256 ** w // 2 - 1
            else: lo, hi = 0, 256 ** w - 1
            if s.implies(v - lo) and s.implies(Lin(hi) - v): return True
            t1, t2 = s.copy(), s.copy()
            if definite(v) and (t1.add(v - (hi + 1)) or t2.add(Lin(lo - 1) - v)): return False
            return None
        return r2
    return r

def strip(v):
    n = 0
    while n < 10:
        n += 1
        if v[0] == 'agg' and len(v[3]) == 1: v = v[3][0]
        elif v[0] in ('rv', 'box'): v = v[1]
        else: break
    return v

def content(v):
    v = strip(v)
    if v[0] == 'own': return v[2]
    if v[0] == 'sl': return v
    return None

class Judge:
    def __init__(self, rep): self.rep = rep
    def __call__(self, r, ok, key, text, why=''):
        if r is True: self.rep.good(ok)
        elif r is False: self.rep.bad(key, text)
        else: self.rep.undec(key, why or text)

def inl(names): return {(tr, T) for T in names for tr in (ENC, AENC, DEC, DECF, ADEC)}

def run_enc(cx, tr, m, t, inline):
    P = cx.P
    e = cx.eng()
    e.inline_root = inline
    st = State()
    v = e.mk(('arg', 'self'), t)
    st.cells['self'] = v
    st.cells['buf'] = outbuf()
    a = v if v[0] == 'sl' else ('ref', 'self', (), False)
    try: r = e.run(P.resolve[(tr, m, t)], [a, ('ref', 'buf', (), True)], st)
    except Undecided as x: r = x
    cx.absorb(e)
    return e, r, v

def run_dec(cx, tr, m, t, inline):
    P = cx.P
    e = cx.eng()
    e.inline_root = inline
    st = State()
    args = [('sl', ('in', 'input'), ZERO, e.lenof(('arg', 'input')), 'b')]
    if m == 'decode_with_format': args.append(e.mk(('arg', 'fmt'), P.tystr['u8']))
    try: r = e.run(P.resolve[(tr, m, t)], args, st)
    except Undecided as x: r = x
    cx.absorb(e)
    return e, r

def codes_of(s, L):
    """the constructor bytes this path is taken for"""
    L = s.norm(L)
    if L.is_const(): return [L.c]
    out = []
    for c in range(256):
        t = s.copy()
        if t.addeq(L - c): out.append(c)
    return out

# ---- what is written
def check_written(cx, rep, J, T, kind, e, s, code, node, selfv, name, term=('arg', 'self')):
    """node: parsed body of a value of this constructor"""
    tab = TABLE[kind]
    w = opaque_state(e, s)
    if code not in tab:
        if w: rep.undec(name, w)
        else: rep.bad('%s code' % name, '%s is written with constructor 0x%02x, which does not belong to AMQP type %s (%s)' % (T, code, kind, fmt_state(e, s)))
        return
    width, rd = tab[code]
    key = '%s value after 0x%02x' % (name, code)
    txt = lambda what: '%s, constructor 0x%02x: %s (%s)' % (name, code, what, fmt_state(e, s))
    okk = '%s: 0x%02x carries the value in network order' % (name, code)
    def j(r, what):
        if r is False and w: r = None
        J(r, okk, key, txt(what), w or what)
    if rd is True or rd is False:
        t = s.copy()
        c = selfv[1]
        bad = t.assume(c if not rd else neg(c))
        j(not bad if not bad else False, 'chosen for the wrong truth value')
        return
    p = node[2] if node[0] == 'prim' else None
    if width == 0 and rd == 0:
        j(same(s, selfv[1], ZERO), 'chosen for a value other than zero'); return
    if rd == 'bool':
        if p and p[0] == 'int':
            L = s.norm(p[2])
            if L.is_const():
                t = s.copy()
                bad = t.assume(neg(selfv[1]) if L.c else selfv[1])
                j(True if not bad and L.c in (0, 1) else False, 'wrong truth value'); return
            m = L.single()
            if m is not None and m[0] == 'bint' and m[1] == selfv[1]: j(True, ''); return
        j(None, 'boolean value'); return
    if rd in ('u', 's'):
        if not p or p[0] != 'int': j(None, 'value not an integer'); return
        j(samebits(s, p[2], selfv[1], width), 'value %r written for %r' % (s.norm(p[2]), selfv[1])); return
    if rd == 'ms':
        if not p or p[0] != 'int': j(None, 'value not an integer'); return
        want = atom(('secs', term)).scale(1000) + atom(('subms', term))
        j(same(s, p[2], want), 'value %r written, milliseconds since the epoch are %r' % (s.norm(p[2]), want)); return
    if rd == 'f':
        j(True if p and p[0] == 'flt' and p[2] == term else None, 'float value'); return
    if rd == 'raw':
        if p and p[0] == 'raw' and p[1][1] == ('cont', term): j(True if s.norm(p[1][2]) == ZERO else False, 'bytes of the value'); return
        j(None, 'bytes of the value'); return
    if rd == 'var':
        inner = node[3]
        n = e.lenof(term)
        if s.norm(node[2] - n) != ZERO:
            j(False if definite(s.norm(node[2] - n)) else None, 'length %r announced for contents of %r' % (s.norm(node[2]), n)); return
        if len(inner) == 0: j(True if s.norm(n) == ZERO else None, 'no content'); return
        if len(inner) == 1 and inner[0][0] == 'raw' and inner[0][1][1] == ('cont', term):
            sl = inner[0][1]
            j(True if s.norm(sl[2]) == ZERO and s.norm(sl[3] - n) == ZERO else False, 'part of the content'); return
        j(None, 'content'); return

def neg(c):
    from eng import neg as n
    return n(c)

def c07(cx, rep):
    P = cx.P
    W = Wire(cx)
    J = Judge(rep)
    ps = prims(P)
    inline = inl([T for _, T, _ in ps])
    rep.cov['primitive_types'] = len(ps)
    for t, T, kind in ps:
        # writing
        for tr, m, form in ((ENC, 'encode', 'stand-alone'), (AENC, 'array_encode', 'array element')):
            if (tr, m, t) not in P.resolve: continue
            name = '%s (%s)' % (T, form)
            e, r, selfv = run_enc(cx, tr, m, t, inline)
            if isinstance(r, Undecided): rep.undec(name, r); continue
            for s, v in r:
                buf = s.cells['buf']
                w = opaque_state(e, s)
                try:
                    if buf[0] != 'bm' or any(x[0] == 'lostput' for x in s.events): raise Unk('write not modelled')
                    c = Cur(W, e, s, buf[4])
                    if tr == ENC:
                        code = c.take_int(1, 'a constructor')
                        if not code.is_const(): raise Unk('constructor %r' % code)
                        code = code.c
                    else:
                        code = P.assoc.get((AENC, 'ARRAY_FORMAT_CODE', t))
                        if not isinstance(code, int): raise Unk('array constructor')
                    if code not in TABLE[kind]: node = None
                    else:
                        node = W.body(c, code)
                        if not c.done(): raise Bad('more bytes follow')
                    check_written(cx, rep, J, T, kind, e, s, code, node, selfv, name)
                except Unk as x: rep.undec(name, x)
                except Bad as x:
                    if w: rep.undec(name, '%s; %s' % (w, x))
                    else: rep.bad('%s layout' % name, '%s: %s (%s)' % (name, x, fmt_state(e, s)))
        # reading
        if (DECF, 'decode_with_format', t) in P.resolve:
            e, r = run_dec(cx, DECF, 'decode_with_format', t, inline)
            name = '%s after its constructor' % T
            if isinstance(r, Undecided): rep.undec(name, r)
            else: check_read(cx, rep, J, T, kind, e, r, name, e.mk(('arg', 'fmt'), P.tystr['u8'])[1], ZERO)
        if (DEC, 'decode', t) in P.resolve:
            e, r = run_dec(cx, DEC, 'decode', t, inline)
            name = '%s with its constructor' % T
            if isinstance(r, Undecided): rep.undec(name, r)
            else: check_read(cx, rep, J, T, kind, e, r, name, atom(('rd', ('in', 'input'), ZERO, 1), 0, 255), Lin(1))
    variant_codes(cx, rep, J, inline)
    variant_written(cx, rep, J, W, inline)

def check_read(cx, rep, J, T, kind, e, r, name, fmtL, off):
    tab = TABLE[kind]
    n = e.lenof(('arg', 'input'))
    IN = ('in', 'input')
    seen = {c: False for c in tab}
    for s, v in r:
        w = opaque_state(e, s)
        if off != ZERO:
            s = s.copy()
            if not s.add(n - 1):
                if v[0] == 'agg' and v[2] == 0: rep.bad('%s empty' % name, '%s is accepted from no bytes' % name)
                continue
        okv = v[0] == 'agg' and v[2] == 0
        err = v[0] == 'agg' and v[2] == 1
        cs = codes_of(s, fmtL)
        alien = [c for c in cs if c not in tab]
        if okv:
            if alien:
                if w: rep.undec(name, w)
                else: rep.bad('%s accepts' % name, '%s accepts constructor%s %s, which do not belong to AMQP type %s (%s)' % (name, 's' if len(alien) > 1 else '', ', '.join('0x%02x' % c for c in alien[:6]), kind, fmt_state(e, s)))
            else: rep.good('%s: success only for its constructors %s' % (name, ['0x%02x' % c for c in cs]))
            val = v[3][0][3][1]
            rest = v[3][0][3][0]
            for c in cs:
                if c not in tab: continue
                seen[c] = True
                t = s.copy()
                if not t.addeq(fmtL - c): continue
                read_value(rep, J, e, t, kind, c, val, rest, off, n, name, w)
        elif err:
            for c in cs:
                if c not in tab: continue
                t = s.copy()
                if not t.addeq(fmtL - c): continue
                width, rd = tab[c]
                # with the whole value present, only invalid text, characters, times or truth values may be refused
                need = Lin(width)
                if rd == 'var': need = need + e.read(t, IN, off, width, False)
                if not t.add(n - off - width): rep.good('%s: 0x%02x cut short is refused' % (name, c)); continue
                if not t.add(n - off - need): rep.good('%s: 0x%02x cut short is refused' % (name, c)); continue
                if refusable(kind, c, e, t, off): rep.good('%s: 0x%02x with invalid content is refused' % (name, c)); continue
                if w: rep.undec(name, w); continue
                rep.bad('%s rejects 0x%02x' % (name, c), '%s: constructor 0x%02x of AMQP type %s is refused although the whole value is present (%s)' % (name, c, kind, fmt_state(e, t)))
        else: rep.undec(name, 'result not modelled')
    for c, x in seen.items():
        if x: rep.good('%s: 0x%02x is accepted' % (name, c))
        else:
            if any(opaque_state(e, s) for s, _ in r): rep.undec(name, 'acceptance of 0x%02x' % c)
            else: rep.bad('%s rejects 0x%02x' % (name, c), '%s: constructor 0x%02x of AMQP type %s is never accepted' % (name, c, kind))

def refusable(kind, c, e, t, off):
    if kind in ('string', 'symbol'):
        return any(k[0] == 'utf8' and v is False for k, v in t.preds.items() if isinstance(k, tuple)) or any(x[0] == 'utf8' for x in t.events) and any('utf8' in repr(k) and v is False for k, v in t.preds.items())
    if kind == 'char':
        return any(isinstance(k, tuple) and k[0] == 'scalar' and v is False for k, v in t.preds.items())
    if kind == 'timestamp':
        # outside the range of the date library
        ms = e.read(t, ('in', 'input'), off, 8, True)
        u = t.copy()
        if not (u.add(ms + 8334632851200000) and u.add(Lin(8210298412799999) - ms)): return True
        return False
    if kind == 'bool' and c == 0x56:
        L = e.read(t, ('in', 'input'), off, 1, False)
        for b in (0, 1):
            u = t.copy()
            if u.addeq(L - b): return False
        return True
    return False

def read_value(rep, J, e, s, kind, c, val, rest, off, n, name, w):
    width, rd = TABLE[kind][c]
    IN = ('in', 'input')
    key = '%s meaning of 0x%02x' % (name, c)
    okk = '%s: 0x%02x read with its meaning' % (name, c)
    def j(r, what):
        if r is False and w: r = None
        J(r, okk, key, '%s, constructor 0x%02x: %s (%s)' % (name, c, what, fmt_state(e, s)), w or what)
    need = Lin(width)
    if rd == 'var': need = need + e.read(s, IN, off, width, False)
    if rest[0] == 'sl' and rest[1] == IN:
        j(same(s, rest[2], off + need), 'continues at byte %r, the value ends at %r' % (s.norm(rest[2]), s.norm(off + need)))
    else: j(None, 'remainder')
    val = strip(val)
    if rd is True or rd is False:
        j((val[1] is rd if val[1] in (True, False) else None) if val[0] == 'b' else None, 'yields %s' % (val[1],)); return
    if rd == 'bool':
        L = e.read(s, IN, off, 1, False)
        for b in (0, 1):
            t = s.copy()
            if not t.addeq(L - b): continue
            if val[0] != 'b': j(None, 'value'); continue
            tv = t.tv(val[1])
            j(tv == bool(b) if tv in (True, False) else None, 'byte %d yields %s' % (b, val[1]))
        return
    if rd == 0: j(same(s, val[1], ZERO) if val[0] == 'i' else None, 'yields %r' % (val[1],)); return
    if rd in ('u', 's'):
        if val[0] != 'i': j(None, 'value'); return
        j(same(s, val[1], e.read(s, IN, off, width, rd == 's')), 'yields %r' % (s.norm(val[1]),)); return
    if rd == 'f':
        want = ('rdf', IN, s.norm(off), width)
        if val[0] == 't' and val[1] == want: j(True, '')
        elif val[0] == 't' and val[1][0] in ('rdf', 'rdfle'): j(False, 'yields the float read %s' % (val[1],))
        else: j(None, 'float')
        return
    if rd == 'ms':
        if val[0] != 'ts': j(None, 'timestamp'); return
        ms = e.read(s, IN, off, 8, True)
        d = s.norm(val[1].scale(1000000000) + val[2] - ms.scale(1000000))
        j(True if d == ZERO else (False if ts_definite(d) else None), 'yields an instant that differs by %r ns' % d); return
    if rd in ('raw', 'var'):
        sl = content(val)
        if sl is None or sl[1] != IN: j(None, 'content'); return
        st = off if rd == 'raw' else off + width
        ln = Lin(16) if rd == 'raw' else e.read(s, IN, off, width, False)
        a, b = same(s, sl[2], st), same(s, sl[3], ln)
        j(False if False in (a, b) else True if a and b else None, 'content is bytes %r..+%r' % (s.norm(sl[2]), s.norm(sl[3]))); return

def ts_definite(d):
    return all(ATOMS[i][0] in ('rd', 'rds', 'v', 'fdiv', 'tadj') for i, _ in d.t)

# ---- the dynamically typed container
def variant_codes(cx, rep, J, inline):
    P = cx.P
    T = variant_type(P)
    if T is None: rep.undec('Variant', 'type not found'); return
    t = P.tystr[T]
    e, r = run_dec(cx, DECF, 'decode_with_format', t, inline)
    name = 'Variant'
    if isinstance(r, Undecided): rep.undec(name, r); return
    fmtL = e.mk(('arg', 'fmt'), P.tystr['u8'])[1]
    n = e.lenof(('arg', 'input'))
    names = e.variant_names(t)
    by = {c: k for k, tab in TABLE.items() for c in tab}
    seen = set()
    for s, v in r:
        w = opaque_state(e, s)
        cs = codes_of(s, fmtL)
        if v[0] == 'agg' and v[2] == 0:
            rest, val = v[3][0][3]
            val = val[1] if val[0] == 'rv' else val
            for c in cs:
                vn = names[val[2]] if val[0] == 'agg' and val[1] == t else None
                want = VCODES.get(c)
                key = 'Variant for 0x%02x' % c
                if vn is None: rep.undec(key, 'value not modelled'); continue
                seen.add(c)
                if vn != want:
                    if w: rep.undec(key, w)
                    else: rep.bad(key, 'Variant: constructor 0x%02x becomes %s, %s expected' % (c, vn, want or 'an error'))
                    continue
                rep.good('Variant: 0x%02x becomes %s' % (c, vn))
                if c in by:
                    u = s.copy()
                    if u.addeq(fmtL - c): read_value(rep, J, e, u, by[c], c, val[3][0], rest, ZERO, n, name, w)
        elif v[0] == 'agg' and v[2] == 1:
            for c in cs:
                if c not in by: continue
                u = s.copy()
                if not u.addeq(fmtL - c): continue
                width, rd = TABLE[by[c]][c]
                need = Lin(width)
                if rd == 'var': need = need + e.read(u, ('in', 'input'), ZERO, width, False)
                if not (u.add(n - width) and u.add(n - need)) or refusable(by[c], c, e, u, ZERO): rep.good('Variant: 0x%02x cut short or with invalid content is refused' % c)
                elif w: rep.undec('Variant for 0x%02x' % c, w)
                else: rep.bad('Variant for 0x%02x' % c, 'Variant: constructor 0x%02x (%s) is refused although the whole value is present (%s)' % (c, VCODES[c], fmt_state(e, u)))
    for c in VCODES:
        if c not in seen:
            if any(opaque_state(e, s) for s, _ in r): rep.undec('Variant for 0x%02x' % c, 'not seen')
            else: rep.bad('Variant for 0x%02x' % c, 'Variant: constructor 0x%02x (%s) is never accepted' % (c, VCODES[c]))

def variant_type(P):
    return next((x for x in P.tystr if x.endswith('::Variant') and 'types' in x and '<' not in x), None)

def variant_written(cx, rep, J, W, inline):
    P = cx.P
    T = variant_type(P)
    if T is None: return
    t = P.tystr[T]
    e, r, selfv = run_enc(cx, ENC, 'encode', t, inline | inl([T]))
    if isinstance(r, Undecided): rep.undec('Variant (stand-alone)', r); return
    names = e.variant_names(t)
    kinds = {v: k for k, v in VARIANT.items()}
    kinds['StaticSymbol'] = 'symbol'
    seen = set()
    for s, v in r:
        vi = s.variants.get(('arg', 'self'))
        w = opaque_state(e, s)
        if vi is None: rep.undec('Variant', 'variant not told apart'); continue
        vn = names[vi]
        name = 'Variant::%s' % vn
        buf = s.cells['buf']
        if vn not in kinds and vn != 'Null': continue
        seen.add(vn)
        try:
            if buf[0] != 'bm' or any(x[0] == 'lostput' for x in s.events): raise Unk('write not modelled')
            c = Cur(W, e, s, buf[4])
            code = c.take_int(1, 'a constructor')
            if not code.is_const(): raise Unk('constructor %r' % code)
            code = code.c
            if vn == 'Null':
                if code == 0x40 and c.done(): rep.good('Variant::Null is 0x40')
                elif w: rep.undec(name, w)
                else: rep.bad(name, 'Variant::Null is written with constructor 0x%02x' % code)
                continue
            kind = kinds[vn]
            node = None
            if code in TABLE[kind]:
                node = W.body(c, code)
                if not c.done(): raise Bad('more bytes follow')
            pv = strip(e.expand(s, selfv, vi)[3][0])
            term = ('fld', ('arg', 'self'), vn, '0')
            while pv[0] == 't' and pv[1] != term and pv[1][0] == 'fld' and pv[1][1] == term: term = pv[1]
            check_written(cx, rep, J, T, kind, e, s, code, node, pv, name, term)
        except Unk as x: rep.undec(name, x)
        except Bad as x:
            if w: rep.undec(name, '%s; %s' % (w, x))
            else: rep.bad('%s layout' % name, '%s: %s (%s)' % (name, x, fmt_state(e, s)))
