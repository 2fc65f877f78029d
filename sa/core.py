"""Shared driver: roots, contracts and result collection for the rules."""
import os, sys, time, json
from lin import Lin, atom, ZERO, ATOMS, BLO, BHI, entails, infeasible, bounds, show
import eng as E
from eng import Eng, State, Undecided, I, B, Lin
from ir import Prog

ENC, AENC, DEC, DECF, ADEC = 'codec::Encode', 'codec::ArrayEncode', 'codec::Decode', 'codec::DecodeFormatted', 'codec::ArrayDecode'

class Rep:
    """what one check did"""
    def __init__(self, prop):
        self.prop = prop
        self.violations = []     # (key, text)
        self.ok = []             # obligations discharged
        self.undecided = []      # obligations the analysis could not decide
        self.notes = []
        self.cov = {}
    def samples(self): return (self.ok[:6] + self.ok[len(self.ok) // 2:len(self.ok) // 2 + 3]) or [k for k, _ in self.violations[:3]]
    def good(self, key): self.ok.append(key)
    def bad(self, key, text):
        if key not in [k for k, _ in self.violations]: self.violations.append((key, text))
    def undec(self, key, why=''): self.undecided.append((key, str(why)[:300]))

def outbuf(): return ('bm', ('const', b''), ZERO, ZERO, (), None)

class Ctx:
    def __init__(self, path):
        self.P = Prog(path)
        self.zero_ok = set()
        self.zero_dec = set()
        self.zero_fmt = None
        self.cache = {}
        self.analysed = set()
        self.steps = 0
        self.assumed4g = False
        self.tier = "quick"
        self.unknown = {}

    def types(self, tr, m):
        return sorted((t for (r, n, t) in self.P.resolve if r == tr and n == m), key=lambda t: self.P.ts(t))

    def eng(self, **opts):
        o = {'zero_ok': self.zero_ok, 'zero_dec': self.zero_dec, 'zero_fmt': self.zero_fmt}
        o.update(opts)
        return Eng(self.P, o)

    def go(self, e, inst, args, st):
        """outcomes, or why there are none"""
        try: return e.run(inst, args, st)
        except Undecided as x: return x
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, RecursionError) as x:
            if os.environ.get('SA_STRICT'): raise
            return Undecided('analysis failed: %s: %s' % (type(x).__name__, x))

    def absorb(self, e):
        self.analysed |= e.touched
        self.steps += e.steps
        self.assumed4g = self.assumed4g or e.assumed4g
        for k, v in e.unknown.items(): self.unknown[k] = self.unknown.get(k, 0) + v

    def isparam(self, t):
        P = self.P
        ty = P.types[t]
        if ty['k'] == 'param': return True
        return any(self.isparam(x) for x in list(ty.get('args') or []) + ([ty['to']] if 'to' in ty else []) + ([ty['elem']] if 'elem' in ty else []) + list(ty.get('elems') or []))

    def outcomes(self, tr, m, t, **opts):
        """(engine, [(state, value)]) of an encode-side method on an arbitrary value, or an Undecided"""
        k = (tr, m, t, tuple(sorted(opts.items())))
        r = self.cache.get(k)
        if r is None:
            e = self.eng(**opts)
            inst = self.P.resolve[(tr, m, t)]
            st = State()
            v = e.mk(('arg', 'self'), t)
            args = [v if v[0] == 'sl' else ('ref', 'self', (), True)]
            st.cells['self'] = v
            if m.endswith('encode'):
                st.cells['buf'] = outbuf()
                args.append(('ref', 'buf', (), True))
            r = (e, self.go(e, inst, args, st))
            self.absorb(e)
            self.cache[k] = r
        return r

    def decode_outcomes(self, tr, m, t, **opts):
        k = (tr, m, t, tuple(sorted(opts.items())))
        r = self.cache.get(k)
        if r is None:
            e = self.eng(**opts)
            inst = self.P.resolve[(tr, m, t)]
            st = State()
            n = e.lenof(('arg', 'input'))
            args = [('sl', ('in', 'input'), ZERO, n, 'b')]
            if m == 'decode_with_format': args.append(e.mk(('arg', 'fmt'), self.P.tystr['u8']))
            r = (e, self.go(e, inst, args, st))
            self.absorb(e)
            self.cache[k] = r
        return r

    def stream(self, kind, m, **opts):
        k = ('stream', kind, m, tuple(sorted(opts.items())))
        r = self.cache.get(k)
        if r is None:
            P = self.P
            ty = {'amqp': 'io::AmqpCodec<T>', 'protocol': 'io::ProtocolIdCodec'}[kind]
            tr = {'decode': 'tokio_io::codec::decoder::Decoder', 'encode': 'tokio_io::codec::encoder::Encoder'}[m]
            i = P.find('<%s as %s>::%s' % (ty, tr, m))
            e = self.eng(**opts)
            if i is None: return e, Undecided('no ' + kind + ' ' + m)
            st = State()
            b = P.inst[i]
            st.cells['self'] = e.mk(('arg', 'self'), e.ty(b['locals'][1])['to'])
            n = e.lenof(('arg', 'src'))
            st.cells['src'] = ('bm', ('in', 'src'), ZERO, n, (), atom(('hv', 'room', 'src', 'sfx'), 0, 1 << 50) if opts.get('room') else None)
            args = [('ref', 'self', (), True), ('ref', 'src', (), True)]
            if m == 'encode':
                st.cells['item'] = e.mk(('arg', 'item'), b['locals'][2])
                args = [args[0], st.cells['item'], args[1]]
            r = (e, self.go(e, i, args, st))
            self.absorb(e)
            self.cache[k] = r
        return r

    def enc_roots(self):
        """(trait, type) of everything that can be written"""
        r = [(ENC, t) for t in self.types(ENC, 'encode')] + [(AENC, t) for t in self.types(AENC, 'array_encode')]
        return r

    def fix_zero(self):
        """types whose encoding may be empty: least set such that all other announced sizes are at least one"""
        while True:
            bad = set()
            for tr, t in self.enc_roots():
                T = self.P.ts(t)
                if T in self.zero_ok: continue
                e, r = self.outcomes(tr, 'encoded_size' if tr == ENC else 'array_encoded_size', t)
                if isinstance(r, Undecided): bad.add(T); continue
                for s, v in r:
                    if v[0] == 'i' and is_cached(v[1]): continue
                    if v[0] != 'i' or not s.implies(v[1] - 1): bad.add(T)
            if not bad: return
            self.zero_ok |= bad
            self.cache.clear()
            from lin import AID
            for i, a in enumerate(ATOMS):
                if a[0] in ('size', 'asize') and a[1] in self.zero_ok: BLO[i] = 0
            E.AX.clear()

    def fix_zero_dec(self):
        """types whose successful decode may consume nothing"""
        while True:
            bad = set()
            for t in self.types(DEC, 'decode'):
                T = self.P.ts(t)
                if T in self.zero_dec: continue
                e, r = self.decode_outcomes(DEC, 'decode', t)
                if isinstance(r, Undecided): bad.add(T); continue
                for s, v in r:
                    rest = result_rest(v)
                    if rest is None: continue
                    if rest[0] != 'sl' or not s.implies(e.lenof(('arg', 'input')) - rest[3] - 1): bad.add(T)
            if not bad: return
            self.zero_dec |= bad
            self.cache.clear()
            for i, a in enumerate(ATOMS):
                if a[0] == 'used' and a[1] == 'decode' and a[2] in self.zero_dec: BLO[i] = 0

def is_cached(L):
    return any(a[0] == 'v' and isinstance(a[1], tuple) and a[1][0] == 'cellval' for a in L.atoms())

def result_rest(v):
    """remainder of an Ok((rest, value)) outcome, None for Err"""
    if v[0] == 'agg' and v[2] == 0 and v[3] and v[3][0][0] == 'agg' and len(v[3][0][3]) == 2: return v[3][0][3][0]
    if v[0] == 'agg' and v[2] == 1: return None
    return ('top', 'result')

def merge(s1, s2):
    """states in which both hold, or None when they exclude each other"""
    s = s1.copy()
    for t, v in s2.variants.items():
        if s.variants.get(t, v) != v or v in s.nvar.get(t, ()): return None
    for t, ex in s2.nvar.items():
        if s.variants.get(t) in ex and t in s.variants: return None
    s.variants = dict(s.variants)
    s.variants.update(s2.variants)
    for k, v in s2.preds.items():
        if not s.setpred(k, v): return None
    for a, v in s2.eqc.items():
        if not s.addeq(Lin(-v, ((a, 1),))): return None
    for f in s2.facts:
        if not s.add(f): return None
    for f in s2.nes:
        if not s.addne(f): return None
    for n in s2.imprecise: s.note(n)
    return s
