"""C10 C11 C12 C13 C25: composite types, descriptors and restricted types against AMQP 1.0 (oracle/amqp10.json)."""
import os, json, re
from core import *
from rules_size import fmt_state
from rules_decode import opaque_state, has_opq
from rules_prim import KIND, TABLE, variant_type, check_written, codes_of, Judge, strip, neg, inl, run_enc, run_dec, definite, bytewise
from wire import Wire, Bad, Unk, Cur

ORACLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle', 'amqp10.json')))
COMP, RESTR, SECT, GROUPS = ORACLE['composites'], ORACLE['restricted'], ORACLE['sections'], ORACLE['groups']
DESCR = dict(COMP)
DESCR.update(SECT)

def camel(n): return ''.join(x[:1].upper() + x[1:] for x in n.split('-'))
def snake(n): return n.replace('-', '_')
def fieldname(x): return x.rstrip('_').replace('-', '_').lower()

RTYPE = {'std-dist-mode': 'DistributionMode'}
GTYPE = {'frame': 'Frame', 'sasl-frame-body': 'SaslFrameBody', 'section': 'Section', 'delivery-state': 'DeliveryState', 'outcome': 'Outcome'}

def local_type(P, name):
    """the crate's type of that name"""
    c = [T for T in P.tystr if T.endswith('::' + name) and T.startswith('protocol::') and '<' not in T]
    return min(c, key=len) if c else None

def rust_kind(P, T):
    """AMQP type a Rust type stands for"""
    if T in KIND: return 'boolean' if T == 'bool' else KIND[T]
    m = re.match(r'^types::Multiple<(.*)>$', T)
    if m: return ('multiple', rust_kind(P, m.group(1)))
    m = re.match(r'^hashbrown::HashMap<([^<>,]*(?:<.*?>)?), (.*)>$', T)
    if m: return 'map<%s>' % rust_kind(P, m.group(1))
    if T.startswith('protocol::'):
        n = T.rsplit('::', 1)[-1]
        for k in COMP:
            if camel(k) == n: return 'composite:' + k
        for k in RESTR:
            if RTYPE.get(k, camel(k)) == n: return 'restricted:' + k if k != 'std-dist-mode' else 'distribution-mode'
        for g, t in GTYPE.items():
            if t == n: return 'poly:' + g
        if n == 'MessageId': return 'message-id'
        if n == 'ErrorCondition': return 'error-condition'
    if T == 'types::variant::Variant' or T.endswith('::Variant'): return '*'
    if T.endswith('types::List'): return 'list'
    if T.endswith('VecVariantMap') or T.endswith('VecStringMap'): return 'map<string>' if 'String' not in T else 'map<symbol>'
    if T.endswith('VariantMap'): return 'map<*>'
    return None

def kind_fits(P, T, f):
    k = rust_kind(P, T)
    if k is None: return None
    want = ('multiple', f['kind']) if f.get('multiple') else f['kind']
    if k == want: return True
    if want == 'map' and isinstance(k, str) and k.startswith('map'): return True
    return False

def opt_inner(T):
    m = re.match(r'^std::option::Option<(.*)>$', T)
    return m.group(1) if m else None

def struct_fields(P, T):
    a = P.adts.get(T)
    if a is None or a['kind'] != 'struct': return None
    return a['variants'][0]['fields']

def spec_name(T, table, names):
    n = T.rsplit('::', 1)[-1]
    for k in table:
        if names.get(k, camel(k)) == n: return k
    return None

def rust_fields(P, T, spec):
    """{spec field: (rust field name, type)}"""
    fs = struct_fields(P, T)
    by = {fieldname(f['name']): dict(f, newtype=len(fs) == 1) for f in fs or []}
    return {f['name']: by.get(fieldname(f['name'])) for f in spec['fields']}

# ---------------------------------------------------------------- C10
class Spec10:
    def __init__(self, cx, rep):
        self.cx, self.rep, self.P = cx, rep, cx.P
        self.W = Wire(cx)
        self.J = Judge(rep)

    def field(self, e, s, name, f, rf, node, owner):
        """the value written at a field's position"""
        rep = self.rep
        key = '%s.%s' % (name, f['name'])
        w = opaque_state(e, s)
        def bad(t):
            if w: rep.undec(key, w + '; ' + t)
            else: rep.bad(key, '%s: %s (%s)' % (key, t, fmt_state(e, s)))
        if rf is None: bad('the library has no such field'); return
        want = owner if rf['newtype'] else ('fld', owner, '', rf['name'])
        T = self.P.ts(rf['tid'])
        inner = opt_inner(T)
        fits = kind_fits(self.P, inner or T, f)
        if fits is False: bad('is of type %s, AMQP type %s expected' % (T, f['kind'])); return
        if fits is None: rep.undec(key, 'AMQP type of %s' % T)
        if node[0] == 'enc':
            if node[2] == want:
                if node[1] == T: rep.good('%s: field %s written at its position' % (name, f['name'])); return
                k = kind_fits(self.P, opt_inner(node[1]) or node[1], f)
                if k is False: bad('is written as %s, AMQP type %s expected' % (node[1], f['kind'])); return
                if k and bool(opt_inner(node[1])) == bool(inner): rep.good('%s: field %s written at its position' % (name, f['name'])); return
                rep.undec(key, 'written as %s' % node[1]); return
            if inner and node[2] == ('fld', want, 'Some', '0') and s.variants.get(want) == 1:
                k = kind_fits(self.P, node[1], f)
                if k is False: bad('is written as %s, AMQP type %s expected' % (node[1], f['kind'])); return
                rep.good('%s: field %s written at its position' % (name, f['name'])); return
            if has_opq(node[2]): rep.undec(key, 'value not modelled'); return
            bad('%s is written at its position' % E.show(node[2])); return
        if inner and node == ('prim', 0x40, None):
            if s.variants.get(want) == 0: rep.good('%s: absent %s is null' % (name, f['name']))
            else:
                t = s.copy()
                if want in t.variants and t.variants[want] == 1 or want not in t.variants and 1 not in t.nvar.get(want, ()): bad('null is written although the field may be present')
            return
        kd = {'boolean': 'bool'}.get(f['kind'], f['kind']) if not f.get('multiple') else None
        if node[0] in ('prim', 'var') and kd in TABLE:
            t, term = (self.P.tystr.get(inner), ('fld', want, 'Some', '0')) if inner else (rf['tid'], want)
            if inner and s.variants.get(want) != 1: rep.undec(key, 'presence not told apart'); return
            check_written(self.cx, rep, self.J, '%s.%s' % (name, f['name']), kd, e, s, node[1], node, e.mk(term, t), key, term)
            return
        if node[0] == 'prim' and node[1] == 0x40: bad('null is written for a field that is never absent'); return
        rep.undec(key, 'form of the value not recognised')

    def composite(self, e, s, name, node, owner, T):
        """a described list"""
        rep, P = self.rep, self.P
        spec = COMP[name]
        w = opaque_state(e, s)
        def bad(key, t):
            if w: rep.undec(key, w + '; ' + t)
            else: rep.bad(key, '%s: %s (%s)' % (name, t, fmt_state(e, s)))
        if node[0] != 'desc': bad(name + ' layout', 'is not written as a described value'); return
        if not self.descriptor(e, s, name, node[1], spec['code'], bad): return
        v = node[2]
        if v[0] == 'prim' and v[1] == 0x45: nodes = []
        elif v[0] == 'comp' and v[1] in (0xc0, 0xd0): nodes = v[4]
        else: bad(name + ' layout', 'the descriptor is followed by constructor %s instead of a list' % (hex(v[1]) if v[0] in ('prim', 'comp', 'var', 'array') else v[0])); return
        if any(x[0] in ('star', 'lv') for x in nodes): rep.undec(name, 'fields written by a repetition'); return
        rf = rust_fields(P, T, spec)
        if len(nodes) != len(spec['fields']):
            names = [E.show(x[2]) for x in nodes if x[0] == 'enc']
            bad(name + ' fields', '%d fields are written (%s), %d are specified' % (len(nodes), ', '.join(names), len(spec['fields']))); return
        for f, x in zip(spec['fields'], nodes): self.field(e, s, name, f, rf[f['name']], x, owner)
        rep.good('%s: descriptor 0x%02x and %d fields in order' % (name, spec['code'], len(nodes)))

    def descriptor(self, e, s, name, d, code, bad):
        if d[0] == 'prim' and d[1] in (0x44, 0x53, 0x80):
            n = ZERO if d[1] == 0x44 else s.norm(d[2][2])
            if n.is_const() and n.c == code: return True
            if n.is_const() or definite(n): bad(name + ' descriptor', 'descriptor %r is written, 0x%02x is specified' % (n, code))
            else: self.rep.undec(name + ' descriptor', repr(n))
            return False
        if d[0] == 'enc': self.rep.undec(name + ' descriptor', 'descriptor not constant'); return False
        bad(name + ' descriptor', 'the descriptor is not the specified number')
        return False

    def section(self, e, s, name, node, term, T=None):
        rep = self.rep
        spec = SECT[name]
        w = opaque_state(e, s)
        def bad(key, t):
            if w: rep.undec(key, w + '; ' + t)
            else: rep.bad(key, '%s: %s (%s)' % (name, t, fmt_state(e, s)))
        if node[0] != 'desc': bad(name + ' layout', 'is not written as a described value'); return
        if not self.descriptor(e, s, name, node[1], spec['code'], bad): return
        v = node[2]
        if v[0] != 'enc': rep.undec(name, 'content written in place'); return
        k = kind_fits(self.P, v[1], {'kind': spec['kind']})
        if k is False: bad(name + ' type', 'is written as %s, %s is specified' % (v[1], spec['kind'])); return
        if k is None: rep.undec(name, 'AMQP type of ' + v[1]); return
        if term is not None and v[2] != term:
            if has_opq(v[2]): rep.undec(name, 'content')
            else: bad(name + ' content', '%s is written' % E.show(v[2]))
            return
        rep.good('section %s: descriptor 0x%02x and its content' % (name, spec['code']))

    def parse(self, e, s, name):
        buf = s.cells['buf']
        if buf[0] != 'bm' or any(x[0] == 'lostput' for x in s.events): raise Unk('write not modelled')
        return self.W.seq(e, s, buf[4], True)

    def root(self, name, T):
        """one composite type written on its own"""
        cx, rep, P = self.cx, self.rep, self.P
        t = P.tystr[T]
        e, r = cx.outcomes(ENC, 'encode', t)
        if isinstance(r, Undecided): rep.undec(name, r); return
        for s, v in r:
            w = opaque_state(e, s)
            try: ns = self.parse(e, s, name)
            except Unk as x: rep.undec(name, x); continue
            except Bad as x:
                if w: rep.undec(name, w)
                else: rep.bad(name + ' layout', '%s: %s (%s)' % (name, x, fmt_state(e, s)))
                continue
            if name == 'transfer' and len(ns) > 1: ns = ns[:1]          # the payload is C29's
            if len(ns) != 1: (rep.undec if w else rep.bad)(name + ' layout', '%s is written as %d values' % (name, len(ns))); continue
            self.composite(e, s, name, ns[0], ('arg', 'self'), T)

    def group(self, g, T):
        cx, rep, P = self.cx, self.rep, self.P
        t = P.tystr[T]
        if (ENC, 'encode', t) not in P.resolve: return
        e, r = cx.outcomes(ENC, 'encode', t)
        if isinstance(r, Undecided): rep.undec(T, r); return
        names = e.variant_names(t)
        seen = set()
        for s, v in r:
            vi = s.variants.get(('arg', 'self'))
            if vi is None: rep.undec(T, 'variant not told apart'); continue
            vn = names[vi]
            n = next((k for k in GROUPS[g] if camel(k) == vn), None)
            if n is None:
                if vn == 'Empty' and g == 'frame':
                    buf = s.cells['buf']
                    if buf[0] == 'bm' and not buf[4]: rep.good('empty frame has no body')
                    elif buf[0] == 'bm' and not opaque_state(e, s): rep.bad('empty frame', 'the empty frame is written with a body')
                continue
            seen.add(n)
            w = opaque_state(e, s)
            try: ns = self.parse(e, s, n)
            except Unk as x: rep.undec(n, x); continue
            except Bad as x:
                if w: rep.undec(n, w)
                else: rep.bad('%s in %s layout' % (n, T), '%s: %s (%s)' % (n, x, fmt_state(e, s)))
                continue
            if n == 'transfer' and len(ns) > 1: ns = ns[:1]
            if len(ns) == 1 and ns[0][0] == 'enc':
                # delegated to the composite's own implementation
                if ns[0][2] == ('fld', ('arg', 'self'), vn, '0') and rust_kind(P, ns[0][1]) == 'composite:' + n: rep.good('%s::%s delegates' % (T, vn)); continue
            if len(ns) != 1:
                if w: rep.undec(n, w)
                else: rep.bad('%s in %s layout' % (n, T), '%s is written as %d values' % (n, len(ns)))
                continue
            owner = ('fld', ('arg', 'self'), vn, '0')
            if n in COMP:
                self.composite(e, s, n, ns[0], owner, P.ts(e.adt(t)['variants'][vi]['fields'][0]['tid']))
            else: self.section(e, s, n, ns[0], owner)
        for n in GROUPS[g]:
            if n not in seen: (rep.undec(T, '%s not seen' % n) if any(opaque_state(e, s) for s, _ in r) else rep.bad('%s in %s' % (n, T), '%s has no form for %s' % (T, n)))

def c10(cx, rep):
    P = cx.P
    c = Spec10(cx, rep)
    for n in COMP:
        T = local_type(P, camel(n))
        if T is None or (ENC, 'encode', P.tystr[T]) not in P.resolve: rep.undec(n, 'no encodable type of that name'); continue
        c.root(n, T)
    for g, t in GTYPE.items():
        T = local_type(P, t)
        if T is None: rep.undec(g, 'type not found'); continue
        c.group(g, T)
    # absent optional values are null
    for t in cx.types(ENC, 'encode'):
        T = P.ts(t)
        if not opt_inner(T) or cx.isparam(t): continue
        e, r = cx.outcomes(ENC, 'encode', t)
        if isinstance(r, Undecided): rep.undec(T, r); continue
        for s, v in r:
            w = opaque_state(e, s)
            vi = s.variants.get(('arg', 'self'))
            try: ns = c.parse(e, s, T)
            except (Unk, Bad) as x:
                rep.undec(T, x); continue
            if vi == 0:
                if ns == [('prim', 0x40, None)]: rep.good('%s: None is null' % T)
                elif w: rep.undec(T, w)
                else: rep.bad('%s absent' % T, '%s: None is written as %s, null expected' % (T, ns))
            elif vi == 1:
                if len(ns) == 1 and ns[0][0] == 'enc' and ns[0][2] == ('fld', ('arg', 'self'), 'Some', '0'): rep.good('%s: Some is its value' % T)
                elif len(ns) == 1 and ns[0] == ('prim', 0x40, None) and not w: rep.bad('%s present' % T, '%s: a present value is written as null (%s)' % (T, fmt_state(e, s)))
                else: rep.undec(T, w or 'present value not recognised')
            else: rep.undec(T, 'presence not told apart')
    rep.cov['composites'] = len(COMP)
    rep.cov['sections'] = len(SECT)

# ---------------------------------------------------------------- C11
def used_atom(s, base, start, T, m, fmt=None):
    """the successful decode of T at that place on this path"""
    for x in s.events:
        if x[0] == 'dec' and x[7] and x[3] == base and x[1] == m and x[2] == T and s.norm(x[4] - start) == ZERO and (fmt is None or x[6] is not None and s.norm(x[6] - fmt) == ZERO):
            return x, atom(('used', x[1], x[2], x[3], x[4], x[5], x[6]))
    return None, None

IN = ('in', 'input')

class Spec11:
    def __init__(self, cx, rep): self.cx, self.rep, self.P = cx, rep, cx.P

    def failed_before(self, s):
        return any(x[0] == 'dec' and not x[7] for x in s.events) or any(x[0] == 'utf8' and len(x) > 2 and x[-1] is False for x in s.events)

    def header(self, e, s, p):
        """cases of the list header at p: (state, begin, end, count)"""
        n = e.lenof(('arg', 'input'))
        out = []
        F = e.read(s, IN, p, 1, False)
        for c in codes_of(s, F):
            t = s.copy()
            if not t.addeq(F - c): continue
            if c == 0x45: out.append((t, p + 1, p + 1, ZERO, c))
            elif c in (0xc0, 0xd0):
                w = 1 if c == 0xc0 else 4
                out.append((t, p + 1 + 2 * w, p + 1 + w + e.read(t, IN, p + 1, w, False), e.read(t, IN, p + 1 + w, w, False), c))
            else: out.append((t, None, None, None, c))
        return out

    def list_at(self, s):
        """where the list starts: just after the descriptor"""
        for x in s.events:
            if x[0] == 'dec' and x[7] and x[2] == 'types::Descriptor' and x[3] == IN:
                return s.norm(x[4] + atom(('used', x[1], x[2], x[3], x[4], x[5], x[6])))
        return None

    def payload(self, e, s, name, T, val, rest, p, where):
        """a decoded composite value against the bytes at p"""
        rep, P = self.rep, self.P
        spec = COMP[name]
        w = opaque_state(e, s)
        if val[0] == 'rv': val = val[1]
        if val[0] != 'agg' or P.ts(val[1]) != T:
            rep.undec(where, 'value not modelled'); return
        fs = struct_fields(P, T)
        byname = {fieldname(f['name']): val[3][i] for i, f in enumerate(fs)}
        ftype = {fieldname(f['name']): P.ts(f['tid']) for f in fs}
        for t, b, end, cnt, code in self.header(e, s, p):
            if b is None:
                self.bad(w, '%s list' % name, '%s: decoded from constructor 0x%02x, which is not a list (%s)' % (where, code, fmt_state(e, t)))
                continue
            if cnt != ZERO and spec['fields']:
                # the region must be there
                pass
            if name != 'transfer':
                if rest[0] == 'sl' and rest[1] == IN:
                    d = t.norm(t.norm(rest[2]) - t.norm(end))
                    if d == ZERO: rep.good('%s: later data starts right after the list (0x%02x)' % (where, code))
                    else: self.bad(w or (has_opq(d) and 'remainder'), '%s remainder' % name, '%s: later data continues at %r, the list ends at %r (%s)' % (where, t.norm(rest[2]), t.norm(end), fmt_state(e, t)))
                else: rep.undec(where, 'remainder')
            self.walk(e, t, name, spec, byname, ftype, b, cnt, where, w)

    def bad(self, w, key, text):
        if w: self.rep.undec(key, '%s; %s' % (w, text))
        else: self.rep.bad(key, text)

    def walk(self, e, s, name, spec, byname, ftype, pos, cnt, where, w, i=0):
        rep = self.rep
        for i in range(i, len(spec['fields'])):
            f = spec['fields'][i]
            fn = fieldname(f['name'])
            key = '%s.%s' % (name, f['name'])
            if fn not in byname: self.bad(w, key, '%s: the library has no such field' % key); return
            val, T = byname[fn], ftype[fn]
            sent = s.copy()
            has = sent.add(cnt - (i + 1))
            un = s.copy()
            if un.add(Lin(i) - cnt):
                # this and the rest are not sent
                self.unsent(e, un, spec, i, byname, ftype, name, where, w)
            if not has: return
            pos2 = self.sent(e, sent, f, key, val, T, pos, where, w)
            if pos2 is None: return
            s, pos = sent, pos2

    def unsent(self, e, s, spec, i, byname, ftype, name, where, w):
        for f in spec['fields'][i:]:
            fn = fieldname(f['name'])
            key = '%s.%s' % (name, f['name'])
            if fn not in byname: return
            if f['mandatory']:
                self.bad(w, key + ' omitted', '%s: the value is decoded although mandatory field %s was not sent (%s)' % (where, f['name'], fmt_state(e, s)))
                return
            self.default(e, s, f, key, byname[fn], ftype[fn], where, w, 'not sent')

    def default(self, e, s, f, key, val, T, where, w, what):
        rep = self.rep
        ok = self.is_default(e, s, f, val, T)
        if ok: rep.good('%s: %s is %s when %s' % (where, f['name'], f['default'] or 'absent', what))
        elif ok is None or has_opq(val): rep.undec(key, 'value when %s' % what)
        else: self.bad(w, key + ' ' + what, '%s: field %s becomes %s when %s, %s is specified (%s)' % (where, f['name'], self.showv(e, s, val), what, f['default'] or 'absent', fmt_state(e, s)))

    def showv(self, e, s, val):
        if val[0] == 'i': return repr(s.norm(val[1]))
        if val[0] == 'b': return str(val[1])
        if val[0] == 'agg':
            n = e.variant_names(val[1])
            return n[val[2]] if n else str(val)[:60]
        return E.show(e.term(val))[:120] if val[0] == 't' else str(val)[:80]

    def is_default(self, e, s, f, val, T):
        d = f['default']
        if d is None:
            if val[0] == 'agg': return val[2] == 0
            if val[0] == 't': 
                v = s.variants.get(val[1])
                if v is not None: return v == 0
                return False
            return None
        k = f['kind']
        if k == 'boolean':
            if val[0] != 'b': return None
            x = s.tv(val[1])
            return x == (d == 'true') if x in (True, False) else False
        if k.startswith('restricted:'):
            if val[0] == 'agg': return e.variant_names(val[1])[val[2]] == camel(d)
            if val[0] == 't' and val[1] in s.variants:
                return e.variant_names(val[2])[s.variants[val[1]]] == camel(d)
            return False if val[0] == 't' else None
        if val[0] == 'i':
            x = s.norm(val[1] - int(d))
            return x == ZERO
        return None

    def sent(self, e, s, f, key, val, T, pos, where, w):
        """field present on the wire at pos; returns where the next one starts"""
        rep, P = self.rep, self.P
        inner = opt_inner(T)
        optional = f['default'] is None and not f['mandatory']
        if optional and not inner or not optional and inner:
            self.bad(w, key, '%s: field %s is %s in the library, %s in the specification' % (where, f['name'], 'optional' if inner else 'always present', 'optional' if optional else 'mandatory or defaulted')); return None
        base = inner or T
        k = kind_fits(P, base, f)
        if k is False: self.bad(w, key, '%s: field %s is of type %s, %s is specified' % (where, f['name'], T, f['kind'])); return None
        OT = 'std::option::Option<%s>' % base
        ev = next((x for x in s.events if x[0] == 'dec' and x[7] and x[3] == IN and s.norm(x[4] - pos) == ZERO and x[1] == 'decode'), None)
        F = e.read(s, IN, pos, 1, False)
        if ev is None:
            # the constructor was read separately
            fe = next((x for x in s.events if x[0] == 'dec' and x[7] and x[3] == IN and s.norm(x[4] - pos - 1) == ZERO and x[1] == 'decode_with_format'), None)
            if fe is not None and fe[6] is not None and s.norm(fe[6] - F) == ZERO: ev = fe
            elif s.norm(F) == Lin(0x40):
                # null
                if f['mandatory']: self.bad(w, key + ' null', '%s: null is accepted for mandatory field %s' % (where, f['name'])); return None
                self.default(e, s, f, key, val, T, where, w, 'null')
                return pos + 1
            else:
                seen = [x for x in s.events if x[0] == 'dec' and x[7] and x[3] == IN]
                if w or any(x[0] == 'loop' for x in s.events): rep.undec(key, w or 'read in a loop'); return None
                # nothing was decoded at the field's position
                last = seen[-1] if seen else None
                if val[0] == 't' and val[1][0] == 'dv' and val[1][3] == IN or e.term(val) and isinstance(e.term(val), tuple) and e.term(val)[0] in ('dv', 'fld'):
                    rep.bad(key, '%s: field %s is not read from its position %r but is %s (%s)' % (where, f['name'], s.norm(pos), E.show(e.term(val))[:200], fmt_state(e, s))); return None
                if self.is_default(e, s, f, val, T): rep.bad(key, '%s: field %s is %s although it was sent (%s)' % (where, f['name'], self.showv(e, s, val), fmt_state(e, s)))
                else: rep.undec(key, 'how the field is read')
                return None
        m, D = ev[1], ev[2]
        dv = ('dv', m, D, ev[3], ev[4], ev[6])
        nxt = s.norm(ev[4] + atom(('used',) + tuple(ev[1:7])))
        okk = '%s: %s read from its position' % (where, f['name'])
        kd = kind_fits(P, opt_inner(D) or D, f)
        if kd is False: self.bad(w, key, '%s: field %s is read as %s, %s is specified' % (where, f['name'], D, f['kind'])); return None
        tv = e.term(val)
        def other():
            if has_opq(val): rep.undec(key, 'value'); return
            self.bad(w, key, '%s: field %s is %s, the value at its position was read as %s (%s)' % (where, f['name'], self.showv(e, s, val), D, fmt_state(e, s)))
        if inner:
            if opt_inner(D):
                if tv == dv: rep.good(okk)
                elif val[0] == 'agg' and s.variants.get(dv) == val[2] and (val[2] == 0 or e.term(val[3][0]) == ('fld', dv, 'Some', '0')): rep.good(okk)
                else: other()
            else:
                if val[0] == 'agg' and val[2] == 1 and e.term(val[3][0]) == dv: rep.good(okk)
                else: other()
        elif f['default'] is not None:
            if opt_inner(D):
                vv = s.variants.get(dv)
                if vv == 1:
                    if tv == ('fld', dv, 'Some', '0'): rep.good(okk)
                    else: other()
                elif vv == 0: self.default(e, s, f, key, val, T, where, w, 'null')
                else: other()
            elif tv == dv:
                if m == 'decode': self.bad(w, key + ' null', '%s: null is not accepted for field %s, which has a default' % (where, f['name']))
                else: rep.good(okk)
            else: other()
        else:
            if tv == dv: rep.good(okk)
            elif opt_inner(D) and s.variants.get(dv) == 1 and tv == ('fld', dv, 'Some', '0'): rep.good(okk)
            else: other()
        return nxt

    def error(self, e, s, name, T, err, p, where):
        """a refused composite"""
        rep, P = self.rep, self.P
        spec = COMP[name]
        w = opaque_state(e, s)
        n = e.lenof(('arg', 'input'))
        if self.failed_before(s): rep.good('%s: refused because a part is malformed' % where); return
        en = e.variant_names(err[1])[err[2]] if err[0] == 'agg' and e.variant_names(err[1]) else None
        t = s.copy()
        if not t.add(n - p - 1): rep.good('%s: refused when cut short' % where); return
        for t, b, end, cnt, code in self.header(e, t, p):
            if b is None: rep.good('%s: 0x%02x is not a list' % (where, code)); continue
            if not t.add(n - b) or not t.add(n - end) or not t.add(end - b): rep.good('%s: refused when cut short' % where); continue
            # a mandatory field is missing?
            t2 = t.copy()
            mand = [i for i, f in enumerate(spec['fields']) if f['mandatory']]
            missing = [i for i in mand if t.implies(Lin(i) - cnt)]
            if mand and not t.implies(Lin(mand[-1]) - cnt):
                u = t.copy()
                if u.add(cnt - (mand[-1] + 1)):
                    if self.null_mandatory(e, u, spec): rep.good('%s: refused for a null mandatory field' % where); continue
                    self.bad(w, '%s refused' % name, '%s: refused (%s) although every mandatory field was sent and nothing is malformed (%s)' % (where, en or 'error', fmt_state(e, u))); continue
            if not mand:
                self.bad(w, '%s refused' % name, '%s: refused (%s) although nothing is malformed (%s)' % (where, en or 'error', fmt_state(e, t))); continue
            if en is None: rep.undec(where, 'error not modelled'); continue
            if en != 'RequiredFieldOmitted':
                self.bad(w, '%s omission' % name, '%s: omitting a mandatory field is reported as %s (%s)' % (where, en, fmt_state(e, t))); continue
            sl = err[3][0]
            if not (sl[0] == 'sl' and sl[1][0] == 'const'): rep.undec(where, 'field name in the error'); continue
            got = sl[1][1][sl[2].c:sl[2].c + sl[3].c].decode('latin1')
            names = [fieldname(spec['fields'][i]['name']) for i in missing]
            if fieldname(got) in names: rep.good('%s: omission of %s is reported by name' % (where, got))
            else: self.bad(w, '%s omission' % name, '%s: omission of %s is reported as %s' % (where, ' or '.join(names) or 'nothing', got))

    def null_mandatory(self, e, s, spec):
        return any(x[0] == 'dec' and x[7] and opt_inner(x[2]) and s.variants.get(('dv',) + tuple(x[1:5]) + (x[6],)) == 0 for x in s.events)

def ok_payload(v):
    if v[0] == 'agg' and v[2] == 0 and v[3] and v[3][0][0] == 'agg' and len(v[3][0][3]) == 2: return v[3][0][3]
    return None

def c11(cx, rep):
    P = cx.P
    c = Spec11(cx, rep)
    for n in COMP:
        T = local_type(P, camel(n))
        if T is None or (DECF, 'decode_with_format', P.tystr[T]) not in P.resolve: rep.undec(n, 'no decodable type of that name'); continue
        e, r = cx.decode_outcomes(DECF, 'decode_with_format', P.tystr[T])
        if isinstance(r, Undecided): rep.undec(n, r); continue
        for s, v in r:
            p = c.list_at(s)
            pl = ok_payload(v)
            if pl:
                if p is None: rep.undec(n, 'descriptor not recognised'); continue
                c.payload(e, s, n, T, pl[1], pl[0], p, n)
            elif v[0] == 'agg' and v[2] == 1:
                if p is None: continue                      # before the list
                if mismatch(e, s, n): continue
                c.error(e, s, n, T, v[3][0], p, n)
            else: rep.undec(n, 'result not modelled')
    for g, t in GTYPE.items():
        T = local_type(P, t)
        if T is None: continue
        e, r = group_outcomes(cx, T)
        if r is None: continue
        if isinstance(r, Undecided): rep.undec(T, r); continue
        for s, v in r:
            pl = ok_payload(v)
            if not pl: continue
            val = pl[1][1] if pl[1][0] == 'rv' else pl[1]
            if val[0] != 'agg' or P.ts(val[1]) != T: rep.undec(T, 'value not modelled'); continue
            vn = e.variant_names(val[1])[val[2]]
            n = next((k for k in GROUPS[g] if camel(k) == vn), None)
            if n not in COMP: continue
            p = c.list_at(s)
            if p is None: rep.undec(T, 'descriptor not recognised'); continue
            inner = val[3][0]
            if inner[0] == 't':
                # delegated
                continue
            c.payload(e, s, n, P.ts(e.adt(val[1])['variants'][val[2]]['fields'][0]['tid']), inner, pl[0], p, '%s in %s' % (n, t))

def group_outcomes(cx, T):
    P = cx.P
    t = P.tystr[T]
    for tr, m in ((DECF, 'decode_with_format'), (DEC, 'decode')):
        if (tr, m, t) in P.resolve: return cx.decode_outcomes(tr, m, t)
    return None, None

# ---------------------------------------------------------------- C12
def descriptor_term(s):
    for x in s.events:
        if x[0] == 'dec' and x[2] == 'types::Descriptor':
            return ('dv', x[1], x[2], x[3], x[4], x[6]), x[7]
    return None, None

def sym_pred(e, s, d, text):
    """truth of 'the symbol of descriptor d is text' on this path; None when open"""
    got = None
    for k, v in s.preds.items():
        if not (isinstance(k, tuple) and k[0] == 'beq' and mentions_term(k[1], d) and isinstance(k[2], bytes)): continue
        sl = k[1]
        if sl[1][0] != 'cont' or not s.norm(sl[2]).is_const(): continue
        o = s.norm(sl[2]).c
        n = e.lenof(sl[1][1])
        whole = o == 0 and s.norm(sl[3] - n) == ZERO
        if not whole and o == 0 and s.norm(n).is_const() and s.norm(n).c == len(k[2]): whole = True
        if whole and k[2] == text: return v
        if v and text[o:o + len(k[2])] != k[2]: got = False       # equal to, or starting with, another text
        if v and whole: got = False
        if not v and text[o:o + len(k[2])] == k[2] and s.norm(sl[3]).is_const() and s.norm(sl[3]).c == len(k[2]): got = False
    if got is None:
        # looked at byte by byte
        for b in {ATOMS[i][1] for i in s.eqc if ATOMS[i][0] == 'rd'} | {a[1] for n in s.nes for a in n.atoms() if a[0] == 'rd'}:
            if b[0] == 'cont' and mentions_term(b, d):
                u = s.unlike(('sl', b, ZERO, e.lenof(b[1])), text)
                if u is not None: got = u
    if got is None:
        lens = {a for L in list(s.facts) + list(s.nes) for a in L.atoms() if a[0] == 'len' and mentions_term(a[1], d)} | {ATOMS[i] for i in s.eqc if ATOMS[i][0] == 'len' and mentions_term(ATOMS[i][1], d)}
        for a in lens:
            t = s.copy()
            if not t.addeq(atom(a) - len(text)): got = False
    return got

PLAIN = ('v', 'len', 'used', 'rd', 'rds', 'disc', 'size')

def vague(s, d):
    """conditions on functions of the descriptor that the domain does not evaluate"""
    for L in list(s.facts) + list(s.nes) + [atom(ATOMS[i]) for i in s.eqc]:
        for a in L.atoms():
            if a[0] not in PLAIN and mentions_term(a, d): return True
    for k, b in s.preds.items():
        if isinstance(k, tuple) and k[0] != 'beq' and not (k[0] == 'utf8' and b) and mentions_term(k, d): return True
    return False

def mentions_term(x, t):
    if x == t: return True
    if isinstance(x, Lin): return any(mentions_term(a, t) for a in x.atoms())
    if isinstance(x, tuple): return any(mentions_term(y, t) for y in x)
    return False

def desc_cases(e, s, d):
    """'num' / 'sym' possibilities of the descriptor on this path"""
    vi = s.variants.get(d)
    nv = s.nvar.get(d, ())
    out = []
    if vi in (None, 0) and 0 not in nv: out.append('num')
    if vi in (None, 1) and 1 not in nv: out.append('sym')
    return out

def num_of(d): return atom(('v', ('fld', d, 'Ulong', '0'), 0, (1 << 64) - 1), 0, (1 << 64) - 1)

def mismatch(e, s, n):
    """the path has a descriptor other than that of n"""
    d, ok = descriptor_term(s)
    if d is None or not ok: return True
    spec = DESCR[n]
    for k in desc_cases(e, s, d):
        if k == 'num':
            t = s.copy()
            if t.addeq(num_of(d) - spec['code']): return False
        elif sym_pred(e, s, d, spec['symbol'].encode()) is not False: return False
    return True

def c12(cx, rep):
    P = cx.P
    roots = []
    for n in COMP:
        T = local_type(P, camel(n))
        if T and (DECF, 'decode_with_format', P.tystr[T]) in P.resolve:
            e, r = cx.decode_outcomes(DECF, 'decode_with_format', P.tystr[T])
            roots.append((n, T, e, r, {n: None}))
        else: rep.undec(n, 'no decodable type of that name')
    for g, t in GTYPE.items():
        T = local_type(P, t)
        if T is None: rep.undec(g, 'type not found'); continue
        e, r = group_outcomes(cx, T)
        if r is None: rep.undec(g, 'no decoder'); continue
        roots.append((g, T, e, r, {n: camel(n) for n in GROUPS[g]}))
    rep.cov['polymorphic_positions'] = len(GTYPE)
    for name, T, e, r, members in roots:
        if isinstance(r, Undecided): rep.undec(name, r); continue
        t = P.tystr[T]
        seen = set()
        open_ = False
        for s, v in r:
            w = opaque_state(e, s)
            d, ok = descriptor_term(s)
            if w is None and d is not None and not ok_payload(v) and vague(s, d): w = 'condition on the descriptor'
            if w: open_ = True
            pl = ok_payload(v)
            if d is None:
                if pl:
                    val = pl[1]
                    if name == 'frame' and val[0] == 'agg' and e.variant_names(val[1])[val[2]] == 'Empty': continue
                    rep.undec(name, 'decoded without a descriptor being recognised')
                    open_ = True
                continue
            if not ok: continue
            if pl:
                val = pl[1][1] if pl[1][0] == 'rv' else pl[1]
                if val[0] != 'agg' or val[1] != t: rep.undec(name, 'value not modelled'); open_ = True; continue
                got = name if members.get(name, 0) is None else next((n for n, vn in members.items() if e.variant_names(t)[val[2]] == vn), e.variant_names(t)[val[2]])
                if got not in members: 
                    if w: rep.undec(name, w)
                    else: rep.bad('%s yields %s' % (name, got), '%s: a described value is decoded as %s (%s)' % (name, got, fmt_state(e, s)))
                    continue
                spec = DESCR[got]
                for k in desc_cases(e, s, d):
                    if k == 'num':
                        L = num_of(d)
                        t1, t2 = s.copy(), s.copy()
                        if t1.add(L - spec['code'] - 1) or t2.add(Lin(spec['code'] - 1) - L):
                            x = s.norm(L)
                            if w: rep.undec('%s: %s' % (name, got), w)
                            else: rep.bad('%s: %s by number' % (name, got), '%s: descriptor %s is taken for %s, whose descriptor is 0x%02x (%s)' % (name, repr(x) if x.is_const() else 'other than 0x%02x' % spec['code'], got, spec['code'], fmt_state(e, s)))
                        else:
                            seen.add((got, 'num'))
                            rep.good('%s: 0x%02x is %s' % (name, spec['code'], got))
                    else:
                        q = sym_pred(e, s, d, spec['symbol'].encode())
                        if q is True:
                            seen.add((got, 'sym'))
                            rep.good('%s: "%s" is %s' % (name, spec['symbol'], got))
                        elif w: rep.undec('%s: %s' % (name, got), w)
                        else:
                            other = [k2[2].decode('latin1') for k2, v2 in s.preds.items() if isinstance(k2, tuple) and k2[0] == 'beq' and v2 and mentions_term(k2[1], d)]
                            rep.bad('%s: %s by name' % (name, got), '%s: symbolic descriptor %s is taken for %s, whose descriptor is "%s"' % (name, '"%s"' % other[0] if other else 'of any text', got, spec['symbol']))
            elif v[0] == 'agg' and v[2] == 1:
                err = v[3][0]
                en = e.variant_names(err[1])[err[2]] if err[0] == 'agg' and e.variant_names(err[1]) else None
                foreign = True
                cur = None
                for n in members:
                    spec = DESCR[n]
                    for k in desc_cases(e, s, d):
                        if k == 'num':
                            u = s.copy()
                            if u.addeq(num_of(d) - spec['code']): foreign, cur = False, n
                        elif sym_pred(e, s, d, spec['symbol'].encode()) is not False: foreign, cur = False, n
                if en == 'InvalidDescriptor':
                    if not foreign:
                        if w: rep.undec(name, w)
                        else: rep.bad('%s refuses %s' % (name, cur), '%s: the descriptor of %s is refused (%s)' % (name, cur, fmt_state(e, s)))
                        continue
                    if e.term(err[3][0]) == d: rep.good('%s: other descriptors are refused with the descriptor' % name)
                    elif err[3][0][0] == 'agg' and carries(e, s, err[3][0], d): rep.good('%s: other descriptors are refused with the descriptor' % name)
                    elif has_opq(err[3][0]): rep.undec(name, 'descriptor in the error')
                    elif w: rep.undec(name, w)
                    else: rep.bad('%s error' % name, '%s: the error for an unknown descriptor carries %s' % (name, E.show(e.term(err[3][0]))[:200]))
                elif foreign and desc_cases(e, s, d):
                    if w or en is None: rep.undec(name, w or 'error not modelled')
                    else: rep.bad('%s unknown descriptor' % name, '%s: a descriptor that is not specified here is reported as %s instead of with the descriptor (%s)' % (name, en, fmt_state(e, s)))
        for n in members:
            for k in ('num', 'sym'):
                if (n, k) not in seen:
                    if open_: rep.undec('%s: %s' % (name, n), 'not seen')
                    else: rep.bad('%s: %s by %s' % (name, n, 'number' if k == 'num' else 'name'), '%s: the %s descriptor of %s (%s) is never accepted' % (name, 'numeric' if k == 'num' else 'symbolic', n, '0x%02x' % DESCR[n]['code'] if k == 'num' else DESCR[n]['symbol']))
    # the section types other than composites: content of the announced type
    section_contents(cx, rep)

def carries(e, s, v, d):
    if v[0] != 'agg': return False
    vi = s.variants.get(d)
    return vi == v[2] and len(v[3]) == 1 and e.term(v[3][0]) == ('fld', d, e.variant_names(v[1])[vi], '0')

def section_contents(cx, rep):
    P = cx.P
    T = local_type(P, 'Section')
    if T is None: return
    e, r = group_outcomes(cx, T)
    if r is None or isinstance(r, Undecided): return
    c = Spec11(cx, rep)
    for s, v in r:
        pl = ok_payload(v)
        if not pl: continue
        val = pl[1]
        if val[0] != 'agg' or P.ts(val[1]) != T: continue
        n = next((k for k in GROUPS['section'] if camel(k) == e.variant_names(val[1])[val[2]]), None)
        if n not in SECT: continue
        w = opaque_state(e, s)
        p = c.list_at(s)
        if p is None: rep.undec(n, 'descriptor not recognised'); continue
        tv = e.term(val[3][0])
        ev = next((x for x in s.events if x[0] == 'dec' and x[7] and x[3] == IN and s.norm(x[4] - p) == ZERO and x[1] == 'decode'), None)
        if ev is None: rep.undec(n, 'content not recognised'); continue
        dv = ('dv',) + tuple(ev[1:5]) + (ev[6],)
        k = kind_fits(P, ev[2], {'kind': SECT[n]['kind']})
        if tv != dv: c.bad(w or (has_opq(tv) and 'content'), 'section %s' % n, 'section %s: content is %s' % (n, E.show(tv)[:200]))
        elif k is False: c.bad(w, 'section %s' % n, 'section %s: content is read as %s, %s is specified' % (n, ev[2], SECT[n]['kind']))
        else: rep.good('section %s: content is the value after the descriptor' % n)

# ---------------------------------------------------------------- C13
def const_value(s, node):
    """(AMQP type, constant) written by this node"""
    if node[0] == 'prim':
        for k, tab in TABLE.items():
            if node[1] in tab:
                w, rd = tab[node[1]]
                if rd is True or rd is False: return k, rd
                if rd == 0 and w == 0: return k, 0
                if node[2] and node[2][0] == 'int':
                    x = s.norm(node[2][2])
                    if x.is_const(): return k, (bool(x.c) if rd == 'bool' and x.c in (0, 1) else x.c)
                return k, None
    if node[0] == 'var':
        k = next((k for k, tab in TABLE.items() if node[1] in tab), None)
        out = b''
        for it in node[3]:
            if it[0] == 'int' and s.norm(it[2]).is_const(): out += (s.norm(it[2]).c % 256 ** it[1]).to_bytes(it[1], 'big')
            elif it[0] == 'raw' and it[1][1][0] == 'const' and s.norm(it[1][2]).is_const() and s.norm(it[1][3]).is_const():
                o, n = s.norm(it[1][2]).c, s.norm(it[1][3]).c
                out += it[1][1][1][o:o + n]
            else: return k, None
        return k, out
    return None, None

def choice_values(name):
    """{choice: value} with values as written"""
    src = RESTR[name]['source']
    k = {'boolean': 'bool'}.get(src, src)
    conv = {'bool': lambda x: x == 'true', 'symbol': lambda x: x.encode()}.get(k, int)
    return k, {c: conv(v) for c, v in RESTR[name]['choices']}

HOLDS = {'error-condition': ('ErrorCondition', {'amqp-error': 'AmqpError', 'connection-error': 'ConnectionError', 'session-error': 'SessionError', 'link-error': 'LinkError'}),
         'distribution-mode': ('DistributionMode', None)}

def c13(cx, rep):
    P = cx.P
    W = Wire(cx)
    names = [k for k in RESTR if k != 'std-dist-mode']
    rep.cov['restricted_types'] = len(RESTR)
    for n in names:
        T = local_type(P, camel(n))
        if T is None: rep.undec(n, 'no type of that name'); continue
        k, vals = choice_values(n)
        restricted_enc(cx, rep, W, n, T, k, {(camel(c),): v for c, v in vals.items()})
        restricted_dec(cx, rep, n, T, k, {(camel(c),): v for c, v in vals.items()}, None)
    T = local_type(P, 'DistributionMode')
    k, vals = choice_values('std-dist-mode')
    tab = {(camel(c),): v for c, v in vals.items()}
    if T:
        restricted_enc(cx, rep, W, 'distribution-mode', T, k, tab, custom='Custom')
        restricted_dec(cx, rep, 'distribution-mode', T, k, tab, 'Custom')
    T = local_type(P, 'ErrorCondition')
    tab = {}
    for n in ('amqp-error', 'connection-error', 'session-error', 'link-error'):
        k, vals = choice_values(n)
        for c, v in vals.items(): tab[(camel(n), camel(c))] = v
    if T:
        restricted_enc(cx, rep, W, 'error-condition', T, 'symbol', tab, custom='Custom')
        restricted_dec(cx, rep, 'error-condition', T, 'symbol', tab, 'Custom')

def restricted_enc(cx, rep, W, n, T, kind, tab, custom=None):
    P = cx.P
    t = P.tystr[T]
    if (ENC, 'encode', t) not in P.resolve: rep.undec(n, 'not encodable'); return
    e, r = cx.outcomes(ENC, 'encode', t)
    if isinstance(r, Undecided): rep.undec(n, r); return
    seen = set()
    vnames = e.variant_names(t)
    for s, v in r:
        w = opaque_state(e, s)
        vi = s.variants.get(('arg', 'self'))
        if vi is None: rep.undec(n, 'choice not told apart'); continue
        vn = vnames[vi]
        buf = s.cells['buf']
        key = '%s %s written' % (n, vn)
        try:
            if buf[0] != 'bm' or any(x[0] == 'lostput' for x in s.events): raise Unk('write not modelled')
            ns = W.seq(e, s, buf[4], True)
        except Unk as x: rep.undec(key, x); continue
        except Bad as x:
            (rep.undec(key, w) if w else rep.bad(key, '%s %s: %s' % (n, vn, x))); continue
        fld = ('fld', ('arg', 'self'), vn, '0')
        if len(ns) == 1 and ns[0][0] == 'enc':
            # handed to the type of the content
            inner = [x for x in tab if x[0] == vn and len(x) == 2]
            if ns[0][2] == fld and (vn == custom and rust_kind(P, ns[0][1]) == kind or inner and rust_kind(P, ns[0][1]) == 'restricted:' + next(k for k in RESTR if camel(k) == vn)):
                rep.good('%s %s: its content is written' % (n, vn))
                seen |= set(inner) or {(vn,)}
            elif has_opq(ns[0][2]) or w: rep.undec(key, 'content')
            else: rep.bad(key, '%s %s: %s (%s) is written' % (n, vn, E.show(ns[0][2]), ns[0][1]))
            continue
        if vn == custom:
            rep.undec(key, 'form of the content'); continue
        c = (vn,)
        if len(vnames) and any(len(x) == 2 and x[0] == vn for x in tab):
            it = e.enums.get(fld)
            iv = s.variants.get(fld)
            if it is None or iv is None: rep.undec(key, 'choice not told apart'); continue
            c = (vn, e.variant_names(it)[iv])
        if c not in tab:
            if w: rep.undec(key, w)
            else: rep.bad(key, '%s has a choice %s that is not specified' % (n, vn))
            continue
        k, val = const_value(s, ns[0]) if len(ns) == 1 else (None, None)
        if val is None:
            rep.undec(key, 'value not constant'); continue
        seen.add(c)
        if k != kind or val != tab[c]:
            if w: rep.undec(key, w)
            else: rep.bad(key, '%s %s is written as %s %r, %s %r is specified' % (n, ' '.join(c), k, val, kind, tab[c]))
        else: rep.good('%s %s is %s %r' % (n, ' '.join(c), kind, val))
    for c in tab:
        if c not in seen: rep.undec('%s %s written' % (n, ' '.join(c)), 'not seen')

def choice_of(e, s, val):
    """path of variant names of a choice value"""
    if val[0] == 'rv': val = val[1]
    if val[0] == 't' and val[1] in s.variants: return (e.variant_names(val[2])[s.variants[val[1]]],), None
    if val[0] != 'agg': return None, None
    vn = e.variant_names(val[1])
    if vn is None: return None, None
    if not val[3]: return (vn[val[2]],), None
    p, x = choice_of(e, s, val[3][0]) if val[3][0][0] == 'agg' else (None, None)
    if p is not None: return (vn[val[2]],) + p, x
    return (vn[val[2]],), val[3][0]

def base_state(e, s, d, kind, val):
    """can the base value be `val` on this path? True/False/None; and is it implied?"""
    if kind == 'symbol':
        q = sym_pred(e, s, d, val)
        return q is not False, q is True
    if kind == 'bool':
        q = s.getpred(('v', d))
        return q is None or q == val, q == val
    w = {'ubyte': 1, 'ushort': 2, 'uint': 4, 'ulong': 8}[kind]
    L = atom(('v', d, 0, 256 ** w - 1), 0, 256 ** w - 1)
    t = s.copy()
    can = t.addeq(L - val)
    t1, t2 = s.copy(), s.copy()
    return can, can and not (t1.add(L - (val + 1)) or t2.add(Lin(val - 1) - L))

def restricted_dec(cx, rep, n, T, kind, tab, custom):
    P = cx.P
    t = P.tystr[T]
    roots = []
    if (DECF, 'decode_with_format', t) in P.resolve:
        e, r = cx.decode_outcomes(DECF, 'decode_with_format', t)
        if isinstance(r, Undecided): rep.undec(n, r)
        else: roots.append(('decode', e, r, None))
    else: rep.undec(n, 'not decodable')
    i = P.find('%s::try_from' % T)
    if i is not None and len(P.inst[i].get('locals', [])) > 1:
        e = cx.eng()
        st = State()
        a = P.inst[i]['locals'][1]
        st.cells['v'] = e.mk(('arg', 'v'), e.ty(a)['to'] if e.ty(a)['k'] == 'ref' else a)
        arg = ('ref', 'v', (), False) if e.ty(a)['k'] == 'ref' else st.cells['v']
        try: roots.append(('try_from', e, e.run(i, [arg], st), ('arg', 'v')))
        except Undecided as x: rep.undec(n + ' try_from', x)
        cx.absorb(e)
    for what, e, r, d0 in roots:
        seen = {}
        open_ = False
        for s, v in r:
            w = opaque_state(e, s)
            key = '%s %s' % (n, what)
            d = d0
            if d is None:
                ev = next((x for x in s.events if x[0] == 'dec' and x[3] == IN and rust_kind(P, x[2]) in (kind, {'bool': 'boolean'}.get(kind))), None)
                if ev is None:
                    rep.undec(key, 'base value not recognised'); open_ = True; continue
                if not ev[7]: continue
                d = ('dv',) + tuple(ev[1:5]) + (ev[6],)
            if w is None and vague(s, d) and kind != 'bool': w = 'condition on the base value'
            if w: open_ = True
            if v[0] == 'agg' and v[2] == 0:
                val = v[3][0]
                if d0 is None:
                    if ok_payload(v) is None: rep.undec(key, 'value'); open_ = True; continue
                    val = ok_payload(v)[1]
                c, extra = choice_of(e, s, val)
                if c is None: rep.undec(key, 'value not modelled'); open_ = True; continue
                if custom and c == (custom,):
                    for k, x in tab.items():
                        can, must = base_state(e, s, d, kind, x)
                        if can and not w: rep.bad('%s %s as custom' % (n, ' '.join(k)), '%s: %r is read as custom instead of %s' % (n, x, ' '.join(k)))
                    if extra is not None and e.term(extra) == d: rep.good('%s: other values are kept as custom' % n)
                    elif w or extra is None or has_opq(extra): rep.undec(key, 'custom value')
                    else: rep.bad('%s custom' % n, '%s: another value is kept as %s' % (n, E.show(e.term(extra))[:200]))
                    continue
                if c not in tab:
                    if w: rep.undec(key, w)
                    else: rep.bad('%s %s read' % (n, ' '.join(c)), '%s: a value is read as %s, which is not specified' % (n, ' '.join(c)))
                    continue
                can, must = base_state(e, s, d, kind, tab[c])
                if must:
                    seen[c] = True
                    rep.good('%s: %r is read as %s' % (n, tab[c], ' '.join(c)))
                elif w: rep.undec(key, w)
                else: rep.bad('%s %s read' % (n, ' '.join(c)), '%s: %s is read from a value other than %r (%s)' % (n, ' '.join(c), tab[c], fmt_state(e, s)))
            elif v[0] == 'agg' and v[2] == 1:
                if custom and not w: rep.bad('%s refused' % n, '%s: a value is refused although any symbol is allowed (%s)' % (n, fmt_state(e, s))); continue
                for k, x in tab.items():
                    can, must = base_state(e, s, d, kind, x)
                    if can:
                        if w: rep.undec(key, w)
                        else: rep.bad('%s %s refused' % (n, ' '.join(k)), '%s: %r is refused, it is %s (%s)' % (n, x, ' '.join(k), fmt_state(e, s)))
                        break
                else: rep.good('%s: other values are refused' % n)
            else: rep.undec(key, 'result'); open_ = True
        for c in tab:
            if c not in seen:
                if open_: rep.undec('%s %s' % (n, ' '.join(c)), 'not seen')
                else: rep.bad('%s %s never read' % (n, ' '.join(c)), '%s: nothing is read as %s (%s)' % (n, ' '.join(c), what))
