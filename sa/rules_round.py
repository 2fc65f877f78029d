"""C08, C09, C32: what an encoder writes, the decoder of the same type turns back into an equal value.

The encoder of a type is analysed on an arbitrary value; then the decoder of the type is analysed on exactly the items
the encoder appended, followed by arbitrary further bytes (TAIL).  Nested values are covered by structural induction.
Every joint path must end in a value equal to the one that was encoded and leave exactly TAIL unread."""
from fns import *
import eng as E
import rules_api as A
from builtins_ import full, as_slice
from compose import *
from rules_size import fmt_state
from rules_decode import opaque_state
from rules_text import precise, is_text_type
from rules_spec import opt_inner
from rules_msg import message_types
from rules_obs import memo_types
from rules_api import veq, text_of

import itertools

MAXN = {'quick': 3, 'thorough': 5}
SCALARS = {'bool', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'char', 'chrono::DateTime<chrono::Utc>', 'uuid::Uuid',
           'bytes::Bytes', 'string::String<bytes::Bytes>', 'types::Str', 'types::symbol::Symbol', 'types::symbol::StaticSymbol', 'types::Descriptor',
           'protocol::MessageId'}
COLLECTIONS = ('std::vec::Vec', 'hashbrown::HashMap', 'types::List', 'types::variant::VecVariantMap', 'types::Multiple')
VARIANT = 'types::variant::Variant'
# what is not part of the encoding the decoder of the same type reads: dropped items at the front
FRONT = {'types::Descriptor': 'the 0x00 marker in front of a descriptor is read by the caller', 'framing::AmqpFrame': 'the frame size is read by the codec', 'framing::SaslFrame': 'the frame size is read by the codec'}

def group(cx, T):
    """C08, C09 or C32"""
    i = opt_inner(T)
    if i: return group(cx, i)
    if T in SCALARS: return 'C08'
    if T == VARIANT: return 'variant'
    if T.startswith(COLLECTIONS): return 'C09'
    P = cx.P
    t = P.tystr.get(T)
    a = P.adts.get(P.types[t].get('path')) if t is not None and P.types[t]['k'] == 'adt' else None
    if a is not None and a['kind'] == 'enum':
        # restricted types: every variant is a plain choice, a text, or another restricted type
        for v in a['variants']:
            for f in v['fields']:
                F = P.ts(f['tid'])
                if F not in SCALARS and group(cx, F) != 'C08': return 'C32'
        return 'C08'
    return 'C32'

def pieced(x):
    """several bytes of one written integer, combined in a way the domain does not resolve"""
    if isinstance(x, tuple): return any(pieced(y) for y in x)
    return isinstance(x, Lin) and sum(ATOMS[i][0] in ('rd', 'rds') and ATOMS[i][1][0] == 'emit' for i, _ in x.t) > 1

class Round:
    def __init__(self, cx, rep):
        self.cx, self.rep, self.P = cx, rep, cx.P
        self.C = Compose(cx)
        self.paths = 0
        self.alias = 0
        self.msgs, self.bodies = message_types(cx.P)

    # -- equality of the decoded value with the encoded one, up to the documented differences
    def special(self, cx, e, s, v, w, whole=False):
        P = self.P
        if whole: return self.message(cx, e, s, v, w)
        if v[0] != 'agg' or w[0] != 'agg' or v[1] is None or v[2] == w[2]: return 'no'
        a = e.adt(w[1]) if w[1] is not None else None
        if a is None or a['kind'] != 'enum': return 'no'
        T = P.ts(w[1])
        nv, nw = a['variants'][v[2]]['name'], a['variants'][w[2]]['name']
        if nv == 'None' and nw == 'Some' and opt_inner(T) == VARIANT:
            # a null value is no value
            x = full(e, s, w[3][0])
            return True if x[0] == 'agg' and P.adts[VARIANT]['variants'][x[2]]['name'] == 'Null' or x[0] == 't' and s.variants.get(x[1]) == next(i for i, q in enumerate(P.adts[VARIANT]['variants']) if q['name'] == 'Null') else 'no'
        if T == 'std::option::Option<protocol::TransferBody>' and {nv, nw} == {'None', 'Some'}:
            x = full(e, s, (v if nv == 'Some' else w)[3][0])
            n = [self.body_len(e, s, x)]
            if x[0] == 't': n.append(e.item_len(('Enc', 'protocol::TransferBody', x[1])))
            if any(k is not None and s.equal(k, ZERO) for k in n): return True
            return None if n == [None] else 'no'
        if len(w[3]) != 1: return 'no'
        x = text_of(cx, e, s, full(e, s, w[3][0]))
        if x is None: return 'no'
        if len(v[3]) == 1:
            y = text_of(cx, e, s, full(e, s, v[3][0]))
            # the same text held in another way
            if y is not None: return veq(cx, e, s, v[3][0], w[3][0]) if {nv, nw} == {'Symbol', 'StaticSymbol'} else 'no'
        # a custom value spelled like a predefined one
        t = self.choice_text(e, v)
        if t is None or x[1][0] == 'const': return 'no'
        if s.equal(x[3], Lin(len(t))) and any(self.says_equal(e, s, k, b, x, t) for k, b in s.preds.items()):
            self.alias += 1
            return True
        return 'no'

    def message(self, cx, e, s, v, w):
        """messages: the message format travels outside the bytes, the remembered size is no part of the message"""
        P = self.P
        if P.types[v[1]].get('path') == 'protocol::TransferBody' and w[0] == 't': return self.payload(e, s, v, w)
        if v[1] not in self.msgs and v[1] not in self.bodies: return 'no'
        x = w if w[0] == 'agg' else e.expand(s, w, None)
        if x is None or x[1] is None or P.types[x[1]].get('path') != P.types[v[1]].get('path') or len(x[3]) != len(v[3]): return 'no'
        T = P.types[v[1]]['path']
        names = [f['name'] for f in P.adts[T]['variants'][0]['fields']]
        memo = {f['name'] for _, f in memo_types(P).get(T, [])}
        if v[1] in self.msgs:
            return A.all3(veq(cx, e, s, p, q, 1) for n, p, q in zip(names, v[3], x[3]) if n not in memo and n != 'message_format')
        a, b = dict(zip(names, v[3])), dict(zip(names, x[3]))
        n = {k: self.count(e, s, b[k]) for k in ('data', 'sequence', 'messages') if k in b}
        if any(k is None for k in n.values()): return None
        val = full(e, s, b['value'])
        none = val[0] == 'agg' and val[2] == 0 or val[0] == 't' and s.variants.get(val[1]) == 0
        data = full(e, s, a['data'])
        if data[0] not in ('vec', 't'): return None
        got = A.items_of(data)
        if not all(i[0] == 'one' for i in got): return None
        rs = [veq(cx, e, s, a[k], b[k], 1) for k in names if k not in ('data', 'messages') and k not in memo]
        if not any(n.values()) and none:
            # a body without sections is written as one empty data section
            if len(got) != 1: return False
            y = as_slice(e, s, full(e, s, got[0][1]))
            return A.all3(rs + [None if y is None else s.equal(y[3], ZERO) or False])
        if len(got) != n['data'] + n.get('messages', 0): return False
        want = [A.entry(e, full(e, s, b['data']), i) for i in range(n['data'])]
        if None in want: return None
        rs += [veq(cx, e, s, p[1], q, 1) for p, q in zip(got, want)]
        # a message in a body comes back as the data it was written as
        for i in range(n.get('messages', 0)):
            y = as_slice(e, s, full(e, s, got[n['data'] + i][1]))
            m = A.entry(e, full(e, s, b['messages']), i)
            if y is None or m is None or m[0] != 't' or y[1][0] != 'emit': return None
            try: p = locate(e, s, y[1][1], y[2])
            except Expand: return None
            if not p or p[0] >= len(y[1][1]) or p[1] != ZERO: return None
            it = y[1][1][p[0]]
            if it[0] != 'Enc' or it[2] != m[1]: return False if it[0] == 'Enc' else None
            rs.append(s.equal(y[3], e.item_len(it)) or None)
        return A.all3(rs)

    def payload(self, e, s, v, w):
        """the payload of a transfer comes back as the bytes it was written as"""
        P = self.P
        vs = P.adts['protocol::TransferBody']['variants']
        if vs[v[2]]['name'] != 'Data': return 'no'
        y = as_slice(e, s, full(e, s, v[3][0]))
        if y is None or y[1][0] != 'emit': return 'no'
        try: p = locate(e, s, y[1][1], y[2])
        except Expand: return 'no'
        if not p or p[0] >= len(y[1][1]) or p[1] != ZERO: return 'no'
        it = y[1][1][p[0]]
        if it != ('Enc', 'protocol::TransferBody', w[1]) or not s.equal(y[3], e.item_len(it)): return 'no'
        rs = []
        for i, q in enumerate(vs):
            s2 = s.copy()
            if not e.set_variant(s2, w[1], w[2], i): continue
            r = self.C.nested(s2, it)
            if isinstance(r, Undecided): return None
            for s3, items in r:
                f = ('fld', w[1], q['name'], '0')
                if len(items) != 1: rs.append(False if all(i[0] in ('raw', 'int', 'Enc') for i in items) and items else None)
                elif items[0][0] == 'raw': rs.append(items[0][1][1] == ('cont', f) and s3.equal(items[0][1][2], ZERO) and s3.equal(items[0][1][3], e.lenof(f)))
                elif items[0][0] == 'Enc': rs.append(items[0][2] == f)
                else: rs.append(None)
        return A.all3(rs)

    def count(self, e, s, v):
        v = full(e, s, v)
        if v[0] != 't': return None
        n = s.norm(e.lenof(v[1]))
        return n.c if n.is_const() else None

    def body_len(self, e, s, v):
        """bytes of a transfer body"""
        x = v
        if x[0] == 't':
            vi = s.variants.get(x[1])
            x = e.expand(s, x, vi)
            if x is None: return None
        y = full(e, s, x[3][0])
        while y[0] == 'box': y = full(e, s, y[1])
        q = as_slice(e, s, y)
        if q is not None: return q[3]
        return None

    def says_equal(self, e, s, k, b, x, t):
        if not b or k[0] != 'beq': return False
        return k[2] == t and k[1][0] == 'sl' and k[1][1] == x[1] and s.equal(k[1][2], x[2]) and s.equal(k[1][3], x[3])

    def choice_text(self, e, v):
        """text a predefined choice is written as"""
        P = self.P
        x = v
        while x[0] == 'agg' and len(x[3]) == 1: x = x[3][0]
        if x[0] != 'agg' or x[3]: return None
        t = v[1]
        k = (ENC, 'encode', t)
        if k not in P.resolve: return None
        e2 = self.cx.eng()
        st = State()
        st.cells['self'] = v
        st.cells['buf'] = outbuf()
        r = self.cx.go(e2, P.resolve[k], [('ref', 'self', (), True), ('ref', 'buf', (), True)], st)
        if isinstance(r, Undecided) or len(r) != 1: return None
        b = r[0][0].cells['buf']
        if b[0] != 'bm': return None
        n = e2.items_len(b[4])
        n = r[0][0].norm(n)
        if not n.is_const(): return self.enc_text(e2, r[0][0], b[4])
        q = const_bytes(e2, b[4], 0, n.c)
        return q[2:] if q is not None and len(q) > 1 and q[0] == 0xa3 else None

    def enc_text(self, e, s, items):
        if len(items) == 1 and items[0][0] == 'Enc':
            x = items[0][2]
            if isinstance(x, tuple) and x and x[0] == 'lit' and isinstance(x[1], bytes): return x[1]
        return None

    # -- one type
    def check(self, name, t, cases, tr=ENC, m='encode', dtr=DEC, dm='decode', fmt=None, drop=0, whole=False, open_=None):
        """cases: [(label, pins, variants)]"""
        cx, rep, C = self.cx, self.rep, self.C
        for label, pins, variants in cases:
            key = name + (' ' + label if label else '')
            e, r = C.encode(t, pins=pins, variants=variants, tr=tr, m=m)
            if isinstance(r, Undecided):
                rep.undec(key, r)
                continue
            if open_ is not None:
                # a part that is looked into from the start
                r2 = []
                for s, items in r:
                    q = C.nested(s, open_)
                    if isinstance(q, Undecided):
                        rep.undec(key, q)
                        continue
                    for s3, new in q:
                        i = next((i for i, x in enumerate(items) if x == open_), None)
                        r2.append((s3, items if i is None else replace(items, i, new)))
                r = r2
            for s, items in r:
                alts = [items[drop:]] if drop else [items]
                if drop: alts.append(items)
                res = []
                for its in alts:
                    q = self.outcome(key, t, s, its, dtr, dm, fmt, whole)
                    res.append(q)
                    if not any(k == 'bad' for k, _ in q): break
                best = res[0] if len(res) == 1 or not any(k == 'bad' for k, _ in res[0]) else (res[1] if not any(k == 'bad' for k, _ in res[1]) else res[0])
                for k, text in best:
                    if k == 'ok': rep.good('%s (%s)' % (key, fmt_state(e, s)[:160]))
                    elif k == 'bad': rep.bad(key, '%s: %s' % (name, text))
                    else: rep.undec(key, text)

    def outcome(self, key, t, s, items, dtr, dm, fmt, whole, depth=0):
        """[(ok|bad|undec, text)] for what the decoder makes of the items"""
        cx, C = self.cx, self.C
        q = C.decode(t, s, items, m=dm, tr=dtr, fmt=fmt, tail=0 if whole else None)
        if isinstance(q, Undecided): return [('undec', q)]
        if not q: return [('undec', 'no joint path')]
        out = []
        js = [self.judge(e, t, its, s2, v, whole) for e, its, s2, v in q]
        # refused on every joint path: whatever the nested bytes are
        if all(k == 'bad' and x.startswith('what was written is refused') for k, x in js): return js[:1]
        for (e, its, s2, v), (k, text) in zip(q, js):
            self.paths += 1
            if k == 'bad' and depth < 4:
                # a nested value whose first byte was looked at
                i = self.peeked(e, s2, its)
                if i is not None:
                    r = C.nested(s, its[i]) if its == items else C.nested(s2, its[i])
                    if isinstance(r, Undecided): out.append(('undec', r))
                    else:
                        for s3, new in r: out += self.outcome(key, t, s3, replace(its, i, new), dtr, dm, fmt, whole, depth + 1)
                    continue
            out.append((k, text))
        return out

    def peeked(self, e, s, items):
        """index of a nested value whose bytes were looked at on this path"""
        seen = set()
        for a in list(s.eqc) + [a for f in s.facts + s.nes for a, _ in f.t]:
            x = ATOMS[a]
            if x[0] == 'rd' and x[1] == ('emit', items): seen.add(x[2])
        for off in sorted(seen, key=str):
            try: p = locate(e, s, items, off)
            except Expand: continue
            if p and p[0] < len(items) and items[p[0]][0] == 'Enc' and (ENC, 'encode', self.P.tystr.get(items[p[0]][1])) in self.P.resolve: return p[0]
        return None

    def judge(self, e, t, items, s, v, whole):
        cx = self.cx
        v = full(e, s, v)
        sure = precise(e, s)
        at = fmt_state(e, s)[:300]
        if v[0] != 'agg': return 'undec', 'result not modelled'
        if v[2] != 0:
            return ('bad', 'what was written is refused: %s, on the path %s' % (shown(v), at)) if sure else ('undec', 'refused on a path that is not precisely modelled')
        x = full(e, s, v[3][0])
        if x[0] != 'agg' or len(x[3]) != 2: return 'undec', 'result not modelled'
        rest, val = full(e, s, x[3][0]), x[3][1]
        A.SPECIAL = self.special
        try: w = veq(cx, e, s, val, e.mk(('arg', 'self'), t))
        finally: A.SPECIAL = None
        r = None
        if rest[0] == 'sl':
            left = ZERO if whole else e.lenof(TAIL)
            if rest[1] == ('emit', items): r = s.equal(rest[2], e.items_len(items)) and s.equal(rest[3], left) or (s.equal(rest[3], ZERO) and s.equal(left, ZERO))
            else: r = s.equal(rest[3], left) and s.equal(left, ZERO)
            if not r and (e.imprecise_lin(rest[2]) or e.imprecise_lin(rest[3])): r = None
        if w is True and r is True: return 'ok', ''
        if w is False and (pieced(val) or any(pieced(f) for f in s.facts + s.nes)): return 'undec', 'a value pieced together from single bytes: ' + at
        if w is False: return ('bad', 'another value comes back: %s, on the path %s' % (shown(val), at)) if sure else ('undec', 'differs on a path that is not precisely modelled: ' + at)
        if r is False: return ('bad', 'the unread rest is not what follows the value, on the path %s' % at) if sure else ('undec', 'rest on a path that is not precisely modelled')
        return 'undec', 'equality not decided: %s (%s)' % (shown(val), at)

def shown(v): return str(v)[:200]

def pairs(cx):
    P = cx.P
    a = {t for (tr, m, t) in P.resolve if tr == ENC and m == 'encode'}
    b = {t for (tr, m, t) in P.resolve if tr == DEC and m == 'decode'}
    return sorted(a & b, key=lambda t: P.ts(t))

def starred(cx, t, tr=ENC, m='encode'):
    """does the encoder of t write a run of elements?"""
    e, r = cx.outcomes(tr, m, t)
    if isinstance(r, Undecided): return False
    return any(it[0] == 'star' or it[0] == 'AEnc' for s, _ in r if s.cells['buf'][0] == 'bm' for it in s.cells['buf'][4])

def nested_option(T):
    i = opt_inner(T)
    return i is not None and opt_inner(i) is not None

def variant_of(P, name):
    return next((i for i, q in enumerate(P.adts[VARIANT]['variants']) if q['name'] == name), None)

def sizes(cx):
    n = MAXN.get(getattr(cx, 'tier', 'quick'), 3)
    return [('with %d elements' % k, [(('arg', 'self'), k)], ()) for k in range(n + 1)]

COMPOUND = ('List', 'Map', 'Described', 'Array')

def finish(rep, R, extra=''):
    rep.cov.update(encodings_decoded=R.C.ran, nested_encodings_opened=R.C.opened, joint_paths=R.paths)
    rep.notes.append('each encoder is composed with the decoder of its type on exactly the bytes written; nested values by structural induction' + extra)

def c08(cx, rep):
    R = Round(cx, rep)
    P = cx.P
    for t in pairs(cx):
        T = P.ts(t)
        if group(cx, T) == 'C08' and not nested_option(T): R.check(T, t, [('', (), ())], drop=1 if T in FRONT else 0)
        elif T == VARIANT:
            for i, q in enumerate(P.adts[VARIANT]['variants']):
                if q['name'] in COMPOUND: continue
                R.check('%s::%s' % (T, q['name']), t, [('', (), [(('arg', 'self'), t, i)])])
        elif opt_inner(T) == VARIANT: R.check(T, t, [('', (), ())])
    finish(rep, R)

WIDE = {0xe0: (1, 1), 0xc0: (1, 1), 0xc1: (1, 1), 0xf0: (4, 4), 0xd0: (4, 4), 0xd1: (4, 4)}

def any_count(cx, rep):
    """collections of any size: the decoder's repetition runs once per announced element and appends exactly what it decodes, in order"""
    P = cx.P
    steps = 0
    for (tr, m, t) in sorted(P.resolve, key=lambda k: (str(k[0]), str(k[1]), P.ts(k[2]))):
        T = P.ts(t)
        if (tr, m) != (DFM, 'decode_with_format') or group(cx, T) != 'C09' or opt_inner(T) or T.startswith('types::Multiple'): continue
        name = '%s of any size' % T
        e, r = cx.decode_outcomes(DFM, 'decode_with_format', t)
        if isinstance(r, Undecided):
            rep.undec(name, r)
            continue
        maps = 'Map' in T
        fmt = e.mk(('arg', 'fmt'), P.tystr['u8'])[1]
        for s, v in r:
            v = full(e, s, v)
            if v[0] != 'agg' or v[2] != 0: continue
            x = full(e, s, v[3][0])
            val = full(e, s, x[3][1]) if x[0] == 'agg' and len(x[3]) == 2 else None
            while val is not None and val[0] == 'agg' and len(val[3]) == 1: val = full(e, s, val[3][0])
            if val is None or val[0] not in ('vec', 'map'):
                rep.undec(name, 'result not modelled')
                continue
            sure = precise(e, s)
            items, at = val[2], fmt_state(e, s)[-200:]
            f = s.norm(fmt)
            f = f.c if f.is_const() else None
            def say(ok, text):
                if ok: rep.good('%s (%s)' % (name, at))
                elif ok is None or not sure: rep.undec(name, text)
                else: rep.bad(name, '%s, on the path %s' % (text, at))
            if f == 0x45 and items == ():
                say(True, '')
                continue
            if f not in WIDE:
                say(None, 'constructor %s' % f)
                continue
            off, w = WIDE[f]
            want = atom(('rd', ('in', 'input'), Lin(off), w), 0, 256 ** w - 1)
            if maps: want = e.div(s, want, Lin(2)) if hasattr(e, 'div') else atom(('quot', want, 2), 0, 256 ** w // 2)
            if items == (): n = ZERO
            elif len(items) == 1 and items[0][0] == 'lv':
                ls = [q for q in s.events if q[0] == 'loop']
                n = ls[-1][1] if ls else None
            elif all(i[0] == 'one' for i in items): n = Lin(len(items))
            else: n = None
            if n is None or not isinstance(n, Lin): say(None, 'number of elements not modelled')
            else:
                q = s.equal(n, want)
                say(q or (None if e.imprecise_lin(n) else False), 'the number of elements is %s instead of the announced count %s' % (n, want))
        for lg in e.looplog:
            if not lg['collect']: continue
            for c, G in sorted(lg['gvals'].items(), key=str):
                if G[0] not in ('vec', 'map') or len(G[2]) != 1 or G[2][0][0] != 'lv': continue
                for adv, s in lg['backs']:
                    steps += 1
                    cur = full(e, s, s.cells.get(c, ('top', '')))
                    ev = s.events[len(lg['before'].events):]
                    decs = [q for q in ev if q[0] == 'dec' and q[7]]
                    sure = precise(e, s) and not any(q[0] == 'loop' for q in ev)
                    key = '%s, one element' % name
                    if cur[0] not in ('vec', 'map'):
                        rep.undec(key, 'collection not modelled')
                        continue
                    got = cur[2]
                    exp = [('dv', q[1], q[2], q[3], q[4], q[6]) for q in decs]
                    if len(exp) != (2 if maps else 1):
                        rep.undec(key, '%d decodes per element' % len(exp))
                        continue
                    if len(got) == 2 and got[0] == G[2][0] and got[1][0] == 'one':
                        y = full(e, s, got[1][1])
                        ys = [full(e, s, z) for z in y[3]] if maps and y[0] == 'agg' and len(y[3]) == 2 else [y]
                        if len(ys) == len(exp) and all(y[0] == 't' and y[1] == x for y, x in zip(ys, exp)):
                            rep.good('%s (%s)' % (key, fmt_state(e, s)[-160:]))
                            continue
                        if any(has_top(y) and not (y[0] == 't' and y[1][0] == 'dv') or y[0] != 't' for y in ys):
                            rep.undec(key, 'element not modelled')
                            continue
                        why = 'what is appended is not what was decoded: %s' % str(ys)[:200]
                    elif got == G[2]: why = 'an element that was decoded is not appended'
                    elif all(i == G[2][0] or i[0] == 'one' for i in got): why = 'an element is not appended once at the end'
                    else:
                        rep.undec(key, 'collection not modelled')
                        continue
                    if sure: rep.bad(key, '%s, on the path %s' % (why, fmt_state(e, s)[-200:]))
                    else: rep.undec(key, why)
    rep.cov['element_steps'] = steps

def c09(cx, rep):
    R = Round(cx, rep)
    P = cx.P
    any_count(cx, rep)
    for t in pairs(cx):
        T = P.ts(t)
        if group(cx, T) == 'C09': R.check(T, t, sizes(cx) if starred(cx, t) else [('', (), ())])
        elif T == VARIANT:
            for i, q in enumerate(P.adts[VARIANT]['variants']):
                if q['name'] in COMPOUND: R.check('%s::%s' % (T, q['name']), t, [('', (), [(('arg', 'self'), t, i)])])
    # elements of arrays
    for (tr, m, t) in sorted(P.resolve, key=lambda k: (str(k[0]), str(k[1]), P.ts(k[2]))):
        if (tr, m) != (AENC, 'array_encode'): continue
        T = P.ts(t)
        code = P.assoc.get((AENC, 'ARRAY_FORMAT_CODE', t))
        cases = sizes(cx) if starred(cx, t, AENC, 'array_encode') else [('', (), ())]
        if isinstance(code, int) and (DFM, 'decode_with_format', t) in P.resolve:
            R.check('%s as an array element' % T, t, cases, AENC, 'array_encode', DFM, 'decode_with_format', fmt=Lin(code))
        if (ADEC, 'array_decode', t) in P.resolve:
            R.check('%s as an array element (array decoder)' % T, t, cases, AENC, 'array_encode', ADEC, 'array_decode')
    finish(rep, R, '; collections with %d elements and fewer are composed as a whole' % MAXN.get(getattr(cx, 'tier', 'quick'), 3))

def c32(cx, rep):
    R = Round(cx, rep)
    P = cx.P
    msgs, bodies = message_types(P)
    for t in pairs(cx):
        T = P.ts(t)
        if T == VARIANT or nested_option(T) or group(cx, T) != 'C32': continue
        if t in msgs:
            B = body_type(P, t)
            R.check(T, t, body_cases(cx, t), whole=True, open_=('Enc', P.ts(B), ('fld', ('arg', 'self'), '', 'body')))
            continue
        R.check(T, t, sizes(cx) if starred(cx, t) else [('', (), ())], drop=1 if T in FRONT else 0, whole=whole_input(cx, t))
    finish(rep, R)

def whole_input(cx, t, seen=()):
    """the rest of the input belongs to the value"""
    P = cx.P
    T = P.ts(t)
    return T.startswith(('framing::', 'message::')) or T in ('protocol::definitions::Transfer', 'protocol::definitions::Frame')

def body_type(P, t): return next(f['tid'] for f in P.adts[P.types[t]['path']]['variants'][0]['fields'] if f['name'] == 'body')

def body_cases(cx, t):
    """bodies of a few sections; every subset of the other sections around a one-section body, all and none of them around the others"""
    P = cx.P
    B = body_type(P, t)
    bf = {f['name']: f['tid'] for f in P.adts[P.types[B]['path']]['variants'][0]['fields']}
    body = ('fld', ('arg', 'self'), '', 'body')
    fs = [(f['name'], f['tid']) for f in P.adts[P.types[t]['path']]['variants'][0]['fields']]
    opts = [(n, f) for n, f in fs if opt_inner(P.ts(f)) and n != 'message_format']
    # maps that are read back as another kind of map
    maps = [n for n, f in opts if opt_inner(P.ts(f)) == 'types::variant::VecVariantMap']
    deep = getattr(cx, 'tier', 'quick') == 'thorough'
    combos = [(0, 0, 0, 0), (2, 0, 0, 0), (0, 1, 0, 0), (0, 2, 0, 0), (0, 0, 1, 0), (1, 1, 0, 1), (0, 0, 0, 1), (1, 0, 1, 0), (0, 1, 1, 1)]
    if deep: combos += [c for c in itertools.product(range(4), range(3), range(3), range(2)) if c not in combos and sum(c) <= 6]
    out = []
    def case(c, sections, n):
        pins, vs, lab = [], [], []
        for name, k in zip(('data', 'sequence', 'messages'), c[:3]):
            if name in bf:
                pins.append((('fld', body, '', name), k))
                if k: lab.append('%d %s' % (k, name))
        if 'value' in bf:
            vs.append((('fld', body, '', 'value'), bf['value'], c[3]))
            if c[3]: lab.append('a value')
        for m in maps: pins.append((('fld', ('fld', ('arg', 'self'), '', m), 'Some', '0'), n))
        if sections is not None: vs += [(('fld', ('arg', 'self'), '', m), f, sections) for m, f in opts]
        out.append(('with %s%s%s' % (', '.join(lab or ['no body']), {None: '', 0: ', no other section', 1: ', all other sections'}[sections], ', %d properties' % n if maps and sections != 0 else ''), pins, vs))
    case((1, 0, 0, 0), None, 1)
    for c in combos:
        for k in (0, 1): case(c, k, 1)
    if maps:
        for n in ((0, 2, 3, 4) if deep else (0, 2)): case((1, 0, 0, 0), 1, n)
    return out
