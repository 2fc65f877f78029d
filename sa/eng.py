"""Abstract interpretation of exported MIR.

Domain: per program point a bounded set of abstract states (trace partitioning); each state maps
memory cells to abstract values built from linear forms over named quantities (Lin), views into byte
regions, lazily refined values of algebraic type, and append-only output buffers, together with a
conjunction of linear inequalities, variant facts and predicate facts.  Loops are not unrolled: the
loop state is generalised (suffix views, induction offsets, append-only sequences) and the invariant
re-checked.  Calls of the codec traits on not further known values are replaced by their contracts.
"""
import re, sys
from lin import AID, Lin, atom, atom_id, const, ZERO, ATOMS, BLO, BHI, entails, infeasible, relevant, bounds, show
sys.setrecursionlimit(20000)

MAXLEN = 1 << 47
TADJ = {}        # atom id -> (dividend, divisor)
AX = {}          # atom id -> [Lin >= 0]  facts that hold by construction of the quantity

class Undecided(Exception): pass

def I(n): return ('i', Lin(n) if isinstance(n, int) else n)
def B(c): return ('b', c)
TOP = ('top', '')
def top(why): return ('top', why)

def neg(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == 'ge': return ('ge', -c[1] - 1)
    if k == 'eq': return ('ne', c[1])
    if k == 'ne': return ('eq', c[1])
    if k == 'p': return ('np', c[1])
    if k == 'np': return ('p', c[1])
    if k == 'and': return ('or', neg(c[1]), neg(c[2]))
    if k == 'or': return ('and', neg(c[1]), neg(c[2]))
    raise Exception(k)

DOM = {}   # quantity -> the only values it can have
DISCR = {} # discriminant atom -> the values of its variants

class State:
    __slots__ = ('cells', 'facts', 'nes', 'eqc', 'variants', 'nvar', 'preds', 'events', 'loops', 'ctr', 'expand', 'imprecise', 'star', 'invs')
    def __init__(self):
        self.cells = {}
        self.facts = ()
        self.nes = ()
        self.eqc = {}
        self.variants = {}
        self.nvar = {}
        self.preds = {}
        self.events = ()
        self.loops = {}
        self.expand = {}
        self.star = {}
        self.imprecise = ()
        self.ctr = 0
    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.facts = self.facts
        s.nes = self.nes
        s.eqc = self.eqc
        s.variants = self.variants
        s.nvar = self.nvar
        s.preds = self.preds
        s.events = self.events
        s.loops = self.loops
        s.expand = self.expand
        s.star = self.star
        s.imprecise = self.imprecise
        s.ctr = self.ctr
        return s
    # --- facts
    def norm(self, L):
        if not self.eqc or not L.t: return L
        hit = False
        for a, k in L.t:
            if a in self.eqc: hit = True; break
        if not hit: return L
        c = L.c
        t = []
        for a, k in L.t:
            v = self.eqc.get(a)
            if v is None: t.append((a, k))
            else: c += k * v
        return Lin(c, tuple(t))
    def allfacts(self, L):
        # axioms (facts that hold by construction) of every quantity in sight
        seen = set()
        todo = [a for a, _ in L.t]
        for f in self.facts: todo += [a for a, _ in f.t]
        ax = []
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            for x in AX.get(a, ()):
                ax.append(self.norm(x))
                todo += [b for b, _ in x.t]
        return relevant(self.facts + tuple(ax), L)
    def implies(self, L):
        L = self.norm(L)
        if not L.t: return L.c >= 0
        lo, hi = bounds(L)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        return entails(self.allfacts(L), L)
    def equal(self, a, b):
        d = self.norm(a - b)
        if not d.t: return d.c == 0
        return self.implies(d) and self.implies(-d)
    def add(self, L):
        """assume L >= 0; False when contradictory"""
        L = self.norm(L)
        if not L.t: return L.c >= 0
        lo, hi = bounds(L)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        if L in self.facts: return True
        self.facts = self.facts + (L,)
        if infeasible(self.allfacts(L)): return False
        for a, _ in L.t:
            if a in TADJ and not self.settle(a): return False
        # a single quantity pinned to one value becomes that value
        if len(L.t) == 1 and abs(L.t[0][1]) == 1:
            a = L.t[0][0]
            if a in DOM: return self.dom(a)
            x = Lin(0, ((a, 1),))
            los = [-f.c for f in self.facts if f.t == ((a, 1),)]
            his = [f.c for f in self.facts if f.t == ((a, -1),)]
            if BLO[a] is not None: los.append(BLO[a])
            if BHI[a] is not None: his.append(BHI[a])
            if los and his and max(los) == min(his): return self.pin(a, max(los))
            for n in self.nes:
                if len(n.t) == 1 and n.t[0][0] == a: return self.addne(n)
        return True
    def unwrap(self):
        """truncated quantities whose operand is known to fit: equal to it; False when that is contradictory"""
        seen = set()
        for f in self.facts + self.nes:
            for a, _ in f.t:
                if a in seen or ATOMS[a][0] != 'wrap': continue
                seen.add(a)
                _, n, L, lo = ATOMS[a]
                for k in (0, 1, -1):
                    M = L - k * n
                    if self.implies(M - lo) and self.implies(Lin(lo + n - 1) - M):
                        d = self.norm(Lin(0, ((a, 1),)) - M)
                        if not self.addeq(d): return False
                        for g in self.nes:
                            if any(b == a for b, _ in g.t):
                                c = dict(g.t)[a]
                                r = self.norm(g - d.scale(c))
                                if not r.t and r.c == 0: return False
                        break
        return True
    def settle(self, a):
        """a truncation correction is 0 or 1: take the one the facts leave"""
        x = Lin(0, ((a, 1),))
        left = [v for v in (0, 1) if not infeasible(self.allfacts(x) + [x - v, -x + v])]
        if not left: return False
        if len(left) == 1 and self.norm(x).t:
            if not self.pin(a, left[0]): return False
            if left[0] == 1: return self.add(-TADJ[a][0] - 1)
        return True
    def dom(self, a):
        left = []
        for v in DOM[a]:
            if all(f.c + f.t[0][1] * v >= 0 for f in self.facts if len(f.t) == 1 and f.t[0][0] == a) and all(n.c + n.t[0][1] * v != 0 for n in self.nes if len(n.t) == 1 and n.t[0][0] == a): left.append(v)
        if not left: return False
        return self.pin(a, left[0]) if len(left) == 1 else True
    def spelled(self, base):
        """the bytes of a text all of whose bytes are known"""
        n = self.norm(atom(('len', base[1])))
        if not n.is_const() or n.c > 4096: return None
        out = []
        for i in range(n.c):
            a = AID.get(('rd', base, Lin(i), 1))
            v = self.eqc.get(a)
            if v is None: return None
            out.append(v)
        return bytes(out)
    def unlike(self, sl, y):
        """a byte is known to differ from y, or all of them to agree"""
        if not isinstance(y, bytes) or not self.norm(sl[2]).is_const() or sl[1][0] not in ('cont', 'in'): return None
        o = self.norm(sl[2]).c
        left = False
        for i, b in enumerate(y):
            a = AID.get(('rd', sl[1], Lin(o + i), 1))
            if a is None: left = True; continue
            v = self.eqc.get(a)
            if v is not None and v != b: return False
            if v is None:
                left = True
                d = Lin(-b, ((a, 1),))
                if d in self.nes or -d in self.nes: return False
        n = self.norm(sl[3])
        return None if left or not n.is_const() or n.c != len(y) else True
    def pin(self, a, v):
        if a in DOM and v not in DOM[a]: return False
        at = ATOMS[a]
        if at[0] == 'disc' and at in DISCR:
            ds = DISCR[at]
            if v not in ds: return False
            vi, cur = ds.index(v), self.variants.get(at[1])
            if cur is not None and cur != vi or vi in self.nvar.get(at[1], ()): return False
            if cur is None:
                self.variants = dict(self.variants)
                self.variants[at[1]] = vi
        self.eqc = dict(self.eqc)
        self.eqc[a] = v
        fs = []
        for f in self.facts:
            n = self.norm(f)
            if n.t: fs.append(n)
            elif n.c < 0: return False
        self.facts = tuple(fs)
        ns = []
        for f in self.nes:
            n = self.norm(f)
            if n.t: ns.append(n)
            elif n.c == 0: return False
        self.nes = tuple(ns)
        if at[0] in ('quot', 'fdiv'):
            # what held by construction of the quotient would go out of sight with it
            for x in AX.get(a, ()):
                if not self.add(x): return False
        if at[0] == 'rd' and at[3] == 1 and at[1][0] == 'cont' or at[0] == 'len':
            base = at[1] if at[0] == 'rd' else ('cont', at[1])
            t = self.spelled(base)
            if t is not None:
                k = ('beq', ('sl', base, ZERO, Lin(len(t))), t)
                if self.preds.get(k) is False: return False
                self.preds = dict(self.preds)
                self.preds[k] = True
        return True
    def addeq(self, L):
        L = self.norm(L)
        if not L.t: return L.c == 0
        for n in self.nes:
            if n == L or n == -L: return False
        if len(L.t) == 1:
            a, k = L.t[0]
            if L.c % k: return False
            v = -L.c // k
            if (BLO[a] is not None and v < BLO[a]) or (BHI[a] is not None and v > BHI[a]): return False
            return self.pin(a, v)
        return self.add(L) and self.add(-L)
    def addne(self, L):
        L = self.norm(L)
        if not L.t: return L.c != 0
        if self.implies(L): 
            if L not in self.nes: self.nes = self.nes + (L,)
            return self.add(L - 1)
        if self.implies(-L):
            if L not in self.nes: self.nes = self.nes + (L,)
            return self.add(-L - 1)
        if L not in self.nes and -L not in self.nes: self.nes = self.nes + (L,)
        if len(L.t) == 1 and L.t[0][0] in DOM: return self.dom(L.t[0][0])
        return True
    def setpred(self, t, v):
        cur = self.getpred(t)
        if cur is not None: return cur == v
        self.preds = dict(self.preds)
        self.preds[t] = v
        if t[0] == 'beq' and v and isinstance(t[1], tuple) and t[1][0] == 'sl':
            if not self.addeq(t[1][3] - len(t[2])): return False
        return True
    def getpred(self, t):
        r = self.preds.get(t)
        if r is None and t[0] == 'beq':
            sl = t[1]
            if sl[0] == 'sl':
                n = self.norm(sl[3])
                if n.is_const() and n.c != len(t[2]): return False
            for k, v in self.preds.items():
                if v and k[0] == 'beq' and k[1] == sl and k[2] != t[2]: return False
            if sl[0] == 'sl' and self.unlike(sl, t[2]) is not None: return self.unlike(sl, t[2])
        return r
    def tv(self, c):
        """truth of a condition: True / False / None"""
        if c is True or c is False: return c
        k = c[0]
        if k == 'ge':
            L = self.norm(c[1])
            if not L.t: return L.c >= 0
            if self.implies(L): return True
            if self.implies(-L - 1): return False
            return None
        if k in ('eq', 'ne'):
            L = self.norm(c[1])
            r = None
            if not L.t: r = L.c == 0
            elif L in self.nes or -L in self.nes: r = False
            else:
                a, b = self.implies(L), self.implies(-L)
                if a and b: r = True
                elif (a and self.implies(L - 1)) or (b and self.implies(-L - 1)): r = False
            if r is None: return None
            return r if k == 'eq' else not r
        if k == 'p': return self.getpred(c[1])
        if k == 'np':
            r = self.getpred(c[1])
            return None if r is None else not r
        if k in ('and', 'or'):
            a, b = self.tv(c[1]), self.tv(c[2])
            if k == 'and':
                if a is False or b is False: return False
                if a and b: return True
            else:
                if a or b: return True
                if a is False and b is False: return False
            return None
        raise Exception(k)
    def assume(self, c):
        """list of states in which c holds (self is consumed)"""
        if c is True: return [self]
        if c is False: return []
        k = c[0]
        if k == 'ge': return [self] if self.add(c[1]) else []
        if k == 'eq': return [self] if self.addeq(c[1]) else []
        if k == 'ne': return [self] if self.addne(c[1]) else []
        if k == 'p': return [self] if self.setpred(c[1], True) else []
        if k == 'np': return [self] if self.setpred(c[1], False) else []
        if k == 'and': return [s2 for s in self.assume(c[1]) for s2 in s.assume(c[2])]
        if k == 'or':
            s2 = self.copy()
            r = self.assume(c[1])
            return r + [y for x in s2.assume(neg(c[1])) for y in x.assume(c[2])]
        raise Exception(k)
    def ev(self, e): self.events = self.events + (e,)
    def note(self, w):
        if w not in self.imprecise: self.imprecise = self.imprecise + (w,)

INTB = {}
def tybounds(t):
    if t['k'] == 'int':
        b = t['bits']
        if t['name'] == 'usize': return 0, (1 << 64) - 1
        if t['signed']: return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1
    if t['k'] == 'char': return 0, 0x10ffff
    if t['k'] == 'bool': return 0, 1
    return None, None

class Frame:
    __slots__ = ('inst', 'fid', 'body', 'I', 'depth', 'loops')

class Body:
    def __init__(self, b):
        self.blocks = b['blocks']
        self.locals = b['locals']
        self.argc = b['argc']
        self.loops = find_loops(self.blocks)

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    return []

def find_loops(blocks):
    n = len(blocks)
    sc = [succs(b['t']) for b in blocks]
    # dominators (iterative)
    order = []
    seen = set()
    st = [(0, iter(sc[0]))]
    seen.add(0)
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen:
                seen.add(y)
                st.append((y, iter(sc[y])))
                break
        else:
            order.append(x)
            st.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in sc[b]: preds[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps: continue
            d = ps[0]
            for p in ps[1:]:
                a = d
                while a != p:
                    while idx[a] > idx[p]: a = idom[a]
                    while idx[p] > idx[a]: p = idom[p]
                d = a
            if idom.get(b) != d: idom[b] = d; ch = True
    def dom(a, b):
        while b != a:
            if b == 0: return False
            b = idom[b]
        return True
    loops = {}
    for b in order:
        for s in sc[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += preds[x]
    return loops

CODEC = ('codec::Encode', 'codec::ArrayEncode', 'codec::Decode', 'codec::DecodeFormatted', 'codec::ArrayDecode')

IMP = {}
FNTR = ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce')
def strip_lt(s): return re.sub(r"'[a-z_]\w*\s?", '', s)

class Eng:
    def __init__(self, P, opts=None):
        self.P = P
        self.opts = opts or {}
        self.bodies = {}
        self.fid = 0
        self.steps = 0
        self.limit = 400000
        self.oblig = {}          # site -> (status, text)
        self.caps = []           # capacity requests
        self.looplog = []
        self.unroll_max = 0   # > 0: follow at most that many repetitions of loops without a symbolic iterator
        self.cut = 0
        self.impmemo = IMP
        self.unknown = {}
        self.stack = []
        self.inline_root = set() # (trait, type string) inlined although its value is not known
        self.collect = True
        self.touched = set()     # functions analysed
        self.ih = None           # set in composition mode
        self.emit_slice = None
        import builtins_ as bi
        self.bi = bi.table(self)
        self.from_impl = {}
        for im in P.impls:
            if im['trait'] == 'core::convert::From':
                k = (strip_lt(P.ts(im['self'])), strip_lt(P.ts(im['traitargs'][1])))
                self.from_impl[k] = im['items'][0]['inst']
        self.enums = {}
        self.assumed4g = False
        self.clo = {}
        for i, x in enumerate(P.inst):
            if x['kind'] == 'Closure':
                t = x['locals'][1]
                if P.types[t]['k'] == 'ref': t = P.types[t]['to']
                self.clo.setdefault(t, i)
        self.eq_impl = {}
        self.hash_impl = {strip_lt(P.ts(im['self'])): it['inst'] for im in P.impls if im['trait'] == 'core::hash::Hash' for it in im['items'] if it['name'] == 'hash' and it.get('inst') is not None}
        self.opts_watch = False
        self.argstack = []
        self.endless = []
        self.unordered = set()
        for im in P.impls:
            if im['trait'] == 'core::cmp::PartialEq':
                for it in im['items']:
                    if it['name'] == 'eq' and it.get('inst') is not None:
                        k = (strip_lt(P.ts(im['self'])), strip_lt(P.ts(im['traitargs'][1] if len(im['traitargs']) > 1 else im['self'])))
                        self.eq_impl[k] = it['inst']

    def closure_inst(self, tid): return self.clo.get(tid)
    def retty(self, f):
        i = f.get('inst')
        if i is not None: return self.P.inst[i]['locals'][0]
        return None
    def unitish(self, tid):
        a = self.adt(tid)
        return bool(a) and a['kind'] == 'enum' and all(not v['fields'] for v in a['variants'])
    def read_float(self, st, base, off, w):
        return ('rdf', base, st.norm(off), w)
    def cap(self, cx, kind, n):
        self.caps.append((self.site, kind, n, cx.st.copy(), tuple(self.fname(i) for i in self.stack)))

    # ---------- types
    def ty(self, i): return self.P.types[i]
    def ts(self, i): return self.P.types[i]['s']
    def adt(self, tid):
        t = self.ty(tid)
        return self.P.adts.get(t['path']) if t['k'] == 'adt' else None
    def is_newtype(self, tid):
        t = self.ty(tid)
        if t['k'] != 'adt': return False
        if t['path'] in ('types::Str', 'alloc::boxed::Box', 'core::cell::Cell', 'ordered_float::OrderedFloat'): return True
        a = self.P.adts.get(t['path'])
        return bool(a) and a['kind'] == 'struct' and a['local'] and len(a['variants'][0]['fields']) == 1
    def is_text(self, tid):
        t = self.ty(tid)
        return t['k'] == 'adt' and (t['path'] in ('types::Str', 'types::symbol::Symbol', 'types::symbol::StaticSymbol', 'string::String', 'bytes::bytes::Bytes', 'alloc::string::String'))
    def variant_names(self, tid):
        a = self.adt(tid)
        return [v['name'] for v in a['variants']] if a else None

    def mk(self, term, tid):
        """value of type tid named by term"""
        t = self.ty(tid)
        k = t['k']
        # the name of a computed value is the value
        if k in ('int', 'char') and term[0] == 'i' and isinstance(term[1], Lin): return term
        if k == 'bool' and term[0] == 'b' and len(term) == 2: return term
        if k in ('int', 'char'):
            lo, hi = tybounds(t)
            return ('i', atom(('v', term, lo, hi), lo, hi))
        if k == 'bool': return ('b', ('p', ('v', term)))
        if k == 'tuple':
            return ('agg', tid, 0, tuple(self.mk(('fld', term, '', str(i)), e) for i, e in enumerate(t['elems'])))
        if k == 'str': return ('sl', ('cont', term), ZERO, self.lenof(term), 's')
        if k == 'slice':
            ek = self.ty(t['elem'])
            if ek['k'] == 'int' and ek['bits'] == 8: return ('sl', ('cont', term), ZERO, self.lenof(term), 'b')
            return ('t', term, tid)
        if k == 'array' and t.get('len') is not None and self.ty(t['elem']).get('bits') == 8:
            return ('sl', ('cont', term), ZERO, Lin(t['len']), 'b')
        if k in ('ref', 'ptr'):
            to = self.ty(t['to'])
            if to['k'] in ('str',) or (to['k'] == 'slice' and self.ty(to['elem']).get('bits') == 8): return self.mk(term, t['to'])
            return ('rv', self.mk(term, t['to']))
        if k == 'never': return TOP
        if k in ('closure', 'fndef'): return ('agg', tid, 0, ())
        return ('t', term, tid)

    def lenof(self, term): return atom(('len', term), 0, MAXLEN)

    def content(self, v, st=None):
        """byte content of a text/bytes value as a slice"""
        if v[0] == 'sl': return v
        if v[0] == 'own': return v[2]
        if v[0] == 't': return ('sl', ('cont', v[1]), ZERO, self.lenof(v[1]), 'b')
        if v[0] == 'agg' and len(v[3]) == 1: return self.content(v[3][0])
        if v[0] == 'rv': return self.content(v[1])
        return None

    def term(self, v):
        if v[0] == 't': return v[1]
        if v[0] == 'i':
            a = v[1].single()
            if a is not None and a[0] == 'v': return a[1]
            return v
        if v[0] == 'b':
            c = v[1]
            if isinstance(c, tuple) and c[0] == 'p' and c[1][0] == 'v': return c[1][1]
            return v
        if v[0] == 'sl' and v[1][0] == 'cont' and v[2] == ZERO and v[3] == self.lenof(v[1][1]): return v[1][1]
        if v[0] == 'own':
            s = v[2]
            if s[1][0] == 'cont' and s[2] == ZERO and s[3] == self.lenof(s[1][1]): return s[1][1]
            return ('own', s[1:4])
        if v[0] == 'rv': return self.term(v[1])
        if v[0] == 'box': return self.term(v[1])
        return v

    def closed(self, v):
        """structure known: worth following the codec implementation instead of its contract"""
        k = v[0]
        if k == 'i': return v[1].is_const()
        # a computed condition has no name of its own: the implementation is followed on each of its outcomes
        if k == 'b': return v[1] in (True, False) or not (isinstance(v[1], tuple) and v[1][0] == 'p' and v[1][1][0] == 'v')
        if k == 'sl': return v[1][0] == 'const'
        if k in ('agg', 'vec'): return True
        if k == 'own': return v[2][1][0] == 'const'
        if k == 'box': return self.closed(v[1])
        if k == 'rv': return self.closed(v[1])
        return False

    # ---------- memory
    def field_of(self, st, v, variant, idx, ty):
        k = v[0]
        if k == 'agg':
            if idx < len(v[3]): return v[3][idx]
            return top('field')
        if k == 't':
            if self.is_newtype(v[2]): return self.mk(v[1], ty)
            a = self.adt(v[2])
            vn = fn = ''
            if a:
                if a['kind'] == 'enum' and variant is not None: vn = a['variants'][variant]['name']
                vi = variant if variant is not None else 0
                fs = a['variants'][vi]['fields']
                fn = fs[idx]['name'] if idx < len(fs) else str(idx)
            else: fn = str(idx)
            return self.mk(('fld', v[1], vn, fn), ty)
        if k in ('box', 'rv', 'ref'): return v
        if k == 'own': return v
        return top('field of ' + k)

    def elem(self, st, v, L, ty=None):
        L = st.norm(L)
        if v[0] == 'sl':
            return ('i', self.read(st, v[1], v[2] + L, 1, False))
        if v[0] == 'agg' and L.is_const() and 0 <= L.c < len(v[3]): return v[3][L.c]
        if v[0] == 'vec':
            if L.is_const() and all(x[0] == 'one' for x in v[2]) and 0 <= L.c < len(v[2]): return v[2][L.c][1]
        if v[0] == 'vsl': return self.elem(st, v[1], L, ty)
        if v[0] == 't':
            et = self.elem_ty(v[2])
            if et is not None:
                a = L.single()
                if a is not None and a[0] == 'hv':
                    st.loops = dict(st.loops)
                    st.loops[('idx', a)] = v[1]
                    return self.mk(('elem', v[1]), et)
                return self.mk(('at', v[1], L), et)
        return top('element')

    def elem_ty(self, tid):
        t = self.ty(tid)
        if t['k'] in ('slice', 'array'): return t['elem']
        if t['k'] == 'adt':
            if t['path'] in ('alloc::vec::Vec',): return t['args'][0]
            a = self.P.adts.get(t['path'])
            if a and a['local'] and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == 1:
                f = a['variants'][0]['fields'][0]['tid']
                if f is not None:
                    # generic newtype over Vec<T>
                    ft = self.ty(f)
                    if ft['k'] == 'adt' and ft['path'] == 'alloc::vec::Vec':
                        et = self.ty(ft['args'][0])
                        if et['k'] == 'param' and t['args']: return t['args'][0]
                        return ft['args'][0]
        if t['k'] in ('ref', 'ptr'): return self.elem_ty(t['to'])
        return None

    def read(self, st, base, off, width, signed):
        """integer read from a byte region, big endian"""
        off = st.norm(off)
        if base[0] == 'const' and off.is_const() and 0 <= off.c and off.c + width <= len(base[1]):
            return Lin(int.from_bytes(base[1][off.c:off.c + width], 'big', signed=signed))
        if base[0] == 'emit':
            r = self.emit_read(st, base, off, width, signed)
            if r is not None: return r
        if signed: return atom(('rds', base, off, width), -(1 << (8 * width - 1)), (1 << (8 * width - 1)) - 1)
        return atom(('rd', base, off, width), 0, (1 << (8 * width)) - 1)

    def fold_reads(self, st, L):
        """adjacent big-endian reads combined by shifting are one wider read"""
        again = True
        while again:
            again = False
            rds = [(ATOMS[i], k) for i, k in L.t if ATOMS[i][0] in ('rd', 'rds')]
            for a, k in rds:
                for b, m in rds:
                    if a is b or b[0] != 'rd' or a[1] != b[1] or a[3] + b[3] > 8: continue
                    if k == m * 256 ** b[3] and b[2] == a[2] + a[3]:
                        w = a[3] + b[3]
                        n = atom((a[0], a[1], a[2], w), -(1 << (8 * w - 1)) if a[0] == 'rds' else 0, (1 << (8 * w - (a[0] == 'rds'))) - 1)
                        if a[1][0] == 'emit': n = self.read(st, a[1], a[2], w, a[0] == 'rds')
                        L = L - atom(a).scale(k) - atom(b).scale(m) + n.scale(m)
                        again = True
                        break
                if again: break
        return L

    def emit_read(self, st, base, off, width, signed): return None

    def proj(self, st, v, e):
        if e[0] == 'f': return self.field_of(st, v, e[1], e[2], e[3])
        if e[0] == 'x': return self.elem(st, v, e[1])
        if e[0] == 'B': return v[1] if v[0] == 'box' else v
        if e[0] == 'sub':
            if v[0] == 'sl': return ('sl', v[1], v[2] + e[1], e[2], v[4])
        return top('proj')

    def lread(self, st, lv):
        if lv[0] == 'cell':
            v = st.cells.get(lv[1], TOP)
        else: v = lv[1]
        for e in lv[2]: v = self.proj(st, v, e)
        return v

    def expand(self, st, v, variant):
        """one-level structural expansion of a lazily known value"""
        if v[0] == 'agg': return v
        if v[0] == 't':
            a = self.adt(v[2])
            if a is None: return None
            vi = variant if variant is not None else (st.variants.get(v[1], 0) if a['kind'] == 'enum' else 0)
            fs = a['variants'][vi]['fields']
            out = []
            t = self.ty(v[2])
            for i, f in enumerate(fs):
                ft = f['tid']
                if ft is None or self.ty(ft)['k'] == 'param':
                    if len(t['args']) > i and len(fs) == 1: ft = t['args'][0] if t['path'] == 'core::option::Option' else t['args'][i]
                    elif len(t['args']) == 1: ft = t['args'][0]
                    else: return None
                out.append(self.field_of(st, v, vi if a['kind'] == 'enum' else None, i, ft))
            return ('agg', v[2], vi, tuple(out))
        return None

    def lwrite(self, st, lv, val):
        if lv[0] != 'cell':
            st.note('write through an immutable view')
            return
        if not lv[2]:
            st.cells[lv[1]] = val
            return
        st.cells[lv[1]] = self.rebuild(st, st.cells.get(lv[1], TOP), lv[2], val)

    def rebuild(self, st, v, path, val):
        if not path: return val
        e = path[0]
        if e[0] == 'f':
            if v[0] == 'top' and (len(path) == 1 or v[1] == 'uninit' and path[1][0] == 'f'):
                # initialisation field by field
                d = {e[2]: val if len(path) == 1 else self.rebuild(st, ('top', 'uninit'), path[1:], val)}
                return ('agg', None, e[1] or 0, tuple(d.get(i, TOP) for i in range(e[2] + 1)))
            if v[0] == 'agg' and v[1] is None and e[2] >= len(v[3]):
                v = ('agg', None, v[2], v[3] + (TOP,) * (e[2] + 1 - len(v[3])))
            x = self.expand(st, v, e[1])
            if x is None:
                if v[0] == 'box': return v
                return top('write')
            fs = list(x[3])
            if e[2] >= len(fs): return top('write')
            fs[e[2]] = self.rebuild(st, fs[e[2]], path[1:], val)
            return ('agg', x[1], x[2], tuple(fs))
        if e[0] == 'B':
            if v[0] == 'box': return ('box', self.rebuild(st, v[1], path[1:], val))
        if e[0] == 'x' and v[0] == 'agg' and st.norm(e[1]).is_const():
            i = st.norm(e[1]).c
            fs = list(v[3])
            if 0 <= i < len(fs):
                fs[i] = self.rebuild(st, fs[i], path[1:], val)
                return ('agg', v[1], v[2], tuple(fs))
        if e[0] == 'x' and v[0] == 'sl' and len(path) == 1 and val[0] == 'i' and st.norm(e[1]).is_const():
            # an array of bytes: its constant, or what was written so far
            i, n, o = st.norm(e[1]).c, st.norm(v[3]), st.norm(v[2])
            its = None
            if v[1][0] == 'const' and n.is_const() and o.is_const() and n.c <= 64: its = [('int', 1, Lin(b)) for b in v[1][1][o.c:o.c + n.c]]
            elif v[1][0] == 'emit' and o == ZERO and all(x[0] == 'int' and x[1] == 1 for x in v[1][1]): its = list(v[1][1])
            if its is not None and 0 <= i < len(its):
                its[i] = ('int', 1, val[1])
                return ('sl', ('emit', tuple(its)), ZERO, Lin(len(its)), v[4])
        return top('write')

    def lvalue(self, st, fr, place):
        l, proj = place
        lv = ['cell', (fr.fid, l), []]
        pend = None
        for e in proj:
            k = e[0]
            if k == '*':
                v = self.lread(st, lv)
                if v[0] == 'ref': lv = ['cell', v[1], list(v[2])]
                elif v[0] == 'rv': lv = ['val', v[1], []]
                elif v[0] == 'box': lv[2] = lv[2] + [('B',)]
                elif v[0] in ('sl', 'vsl'): lv = ['val', v, []]
                elif v[0] == 't':
                    t = self.ty(v[2])
                    if t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box': lv = ['val', self.mk(v[1], t['args'][0]), []]
                    else: lv = ['val', v, []]
                else: lv = ['val', top('deref of ' + str(v[0]) + (v[1] if v[0] == 'top' else '')), []]
                pend = None
            elif k == 'dc': pend = e[1]
            elif k == 'f':
                lv[2] = lv[2] + [('f', pend, e[1], e[2])]
                pend = None
            elif k == 'idx':
                iv = st.cells.get((fr.fid, e[1]), TOP)
                if iv[0] == 'i': lv[2] = lv[2] + [('x', iv[1])]
                else: lv = ['val', top('index'), []]
            elif k == 'cidx':
                v = self.lread(st, lv)
                off = Lin(e[1])
                if e[3]:
                    n = self.length(st, v)
                    if n is None: lv = ['val', top('cidx'), []]; continue
                    off = n - e[1]
                lv[2] = lv[2] + [('x', off)]
            elif k == 'sub':
                v = self.lread(st, lv)
                n = self.length(st, v)
                if v[0] == 'sl' and n is not None:
                    to = (n - e[2]) if e[3] else Lin(e[2])
                    lv = ['val', ('sl', v[1], v[2] + e[1], to - e[1], v[4]), []]
                else: lv = ['val', top('subslice'), []]
            else: lv = ['val', top('projection'), []]
        return lv

    def length(self, st, v):
        k = v[0]
        if k == 'sl': return v[3]
        if k == 'own': return v[2][3]
        if k == 't': return self.lenof(v[1])
        if k == 'vsl': return self.length(st, v[1])
        if k == 'vec': return self.items_count(v[2])
        if k == 'map': return self.items_count(v[2])
        if k == 'agg':
            t = self.ty(v[1]) if v[1] is not None else None
            if t and t['k'] == 'array': return Lin(len(v[3]))
            if len(v[3]) == 1: return self.length(st, v[3][0])
        if k == 'bm': return v[3] + self.items_len(v[4])
        if k == 'rv': return self.length(st, v[1])
        return None

    def items_count(self, items):
        n = ZERO
        for it in items:
            if it[0] == 'one': n = n + 1
            elif it[0] == 'star':
                cnt = {len(o[3]) for o in it[2]}
                if len(cnt) != 1: return None
                n = n + self.driver_count(it[1]).scale(cnt.pop())
            else: return None
        return n

    def driver_count(self, d):
        if d[0] == 'coll': return self.lenof(d[1])
        if d[0] == 'range': return d[1]
        return atom(('iters', d), 0, MAXLEN)

    # ---------- sizes of emissions
    def size_atom(self, tr, T, term):
        lo = 1
        k = 'size' if tr == 'codec::Encode' else 'asize'
        if T in self.opts.get('zero_ok', ()): lo = 0
        return atom((k, T, term), lo, 1 << 50)

    def item_len(self, it):
        k = it[0]
        if k in ('int', 'intle'): return Lin(it[1])
        if k in ('flt', 'fltle'): return Lin(it[1])
        if k == 'raw': return it[1][3]
        if k == 'Enc': return self.size_atom('codec::Encode', it[1], it[2])
        if k == 'AEnc': return self.size_atom('codec::ArrayEncode', it[1], it[2])
        if k == 'star': return self.sum_over(it[1], [(o[0], o[1], o[2], self.items_len(o[3])) for o in it[2]])
        if k == 'lv': return atom(('lvlen', it[1]), 0, 1 << 50)
        return atom(('lenof', it), 0, 1 << 50)

    def items_len(self, items):
        n = ZERO
        for it in items: n = n + self.item_len(it)
        return n

    def mentions(self, x, t):
        if isinstance(x, Lin): return any(self.mentions(a, t) for a in x.atoms())
        if x == t: return True
        if isinstance(x, tuple): return any(self.mentions(y, t) for y in x)
        return False

    def sum_over(self, driver, outs):
        """sum over all iterations of a per-iteration quantity given by cases [(facts, variants, preds, Lin)]"""
        n = self.driver_count(driver)
        el = ('elem', driver[1]) if driver[0] == 'coll' else None
        if not outs: return ZERO
        first = outs[0][3]
        if all(o[3] == first for o in outs): outs = [((), (), (), first)]
        res = ZERO
        if len(outs) == 1:
            L = outs[0][3]
            res = n.scale(L.c)
            for a, k in L.t:
                at = ATOMS[a]
                lo = BLO[a]
                s = atom(('sum', driver, at), 0 if lo is not None and lo >= 0 else None, 1 << 50)
                sid = s.t[0][0]
                if sid not in AX and lo is not None: AX[sid] = [s - n.scale(lo)]
                res = res + s.scale(k)
            return res
        # split off the part common to all cases
        common = dict(first.t)
        for o in outs[1:]:
            d = dict(o[3].t)
            common = {a: k for a, k in common.items() if d.get(a) == k}
        com = Lin(0, tuple(sorted(common.items())))
        if com.t: res = self.sum_over(driver, [((), (), (), com)])
        rest = tuple(sorted(((o[0], o[1], o[2], o[3] - com) for o in outs), key=repr))
        los = [bounds(o[3])[0] for o in rest]
        lo = min(los) if all(x is not None for x in los) else None
        s = atom(('sumc', driver, rest), 0 if lo is not None and lo >= 0 else None, 1 << 50)
        sid = s.t[0][0]
        if sid not in AX and lo is not None: AX[sid] = [s - n.scale(lo)]
        return res + s

    def sum_equal(self, st, d):
        """is the difference d zero, pairing case-wise sums over the same elements"""
        d = st.norm(d)
        if not d.t: return d.c == 0
        if st.implies(d) and st.implies(-d): return True
        cs = [(a, k) for a, k in d.t if ATOMS[a][0] == 'sumc']
        for i, (a, k) in enumerate(cs):
            for b, k2 in cs[i + 1:]:
                if k + k2 == 0 and ATOMS[a][1] == ATOMS[b][1]:
                    if self.cases_equal(ATOMS[a][2], ATOMS[b][2]):
                        return self.sum_equal(st, d - Lin(0, ((a, k), (b, k2)) if a < b else ((b, k2), (a, k))))
        return False

    def cases_equal(self, A, Bc):
        for a in A:
            for b in Bc:
                s = State()
                ok = True
                for f in a[0] + b[0]: ok = ok and s.add(f)
                va = dict(a[1])
                for t, v in b[1]:
                    if t in va and va[t] != v: ok = False
                pa = dict(a[2])
                for t, v in b[2]:
                    if t in pa and pa[t] != v: ok = False
                if ok and not self.sum_equal(s, a[3] - b[3]): return False
        return True

    # ---------- obligations
    def obligation(self, st, kind, need, text, fr=None, unknown=False):
        """need: list of Lin that must be >= 0, or None when the operands are not modelled"""
        site = self.site + (kind,)
        if not self.collect: return
        if need is None or unknown: stat = 'unknown'; det = ''
        else:
            stat = 'ok'
            det = ''
            for L in need:
                if not st.implies(L):
                    stat = 'fail'
                    Ln = st.norm(L)
                    det = '%r >= 0 does not follow from %s' % (Ln, [repr(f) for f in st.allfacts(Ln)][:12])
                    if self.imprecise_lin(Ln): stat = 'unknown'
                    break
        old = self.oblig.get(site)
        rank = {'ok': 0, 'unknown': 1, 'fail': 2}
        if old is None or rank[stat] > rank[old[0]]: self.oblig[site] = (stat, text, det, tuple(self.fname(i) for i in self.stack))
        return stat

    def imprecise_lin(self, L):
        memo = self.impmemo
        def bad(x):
            if isinstance(x, Lin):
                for i, _ in x.t:
                    r = memo.get(i)
                    if r is None: r = memo[i] = bad(ATOMS[i])
                    if r: return True
                return False
            if isinstance(x, tuple):
                if x and x[0] in ('hv', 'opq', 'lvlen', 'lenof', 'top', 'uf'): return not (x[0] == 'hv' and x[-1] == 'sfx')
                return any(bad(y) for y in x)
            return False
        return bad(L)

    def fname(self, i): return self.P.inst[i]['path']

    # ---------- running
    def body(self, i):
        b = self.bodies.get(i)
        if b is None: b = self.bodies[i] = Body(self.P.inst[i])
        return b

    def run(self, i, args, st):
        """outcomes [(state, value)] of instance i on args"""
        if len(self.stack) > 60: raise Undecided('call depth')
        if self.opts_watch:
            from builtins_ import full
            ts = tuple(self.term(full(self, st, a)) for a in args)
            if (i, ts) in self.argstack and not any(self.vague_term(x) for x in ts):
                self.endless.append(([self.fname(j) for j, _ in self.argstack[self.argstack.index((i, ts)):]] + [self.fname(i)], ts))
                return []
            self.argstack.append((i, ts))
            try: return self.run1(i, args, st)
            finally: self.argstack.pop()
        return self.run1(i, args, st)

    def vague_term(self, x):
        if isinstance(x, tuple): return bool(x) and x[0] in ('top', 'opq', 'hv', 'lr', 'lv') or any(self.vague_term(y) for y in x)
        if isinstance(x, Lin): return any(self.vague_term(y) for y in x.atoms())
        return False

    def run1(self, i, args, st):
        if self.stack.count(i) >= 3: raise Undecided('recursion in ' + self.fname(i))
        fr = Frame()
        self.fid += 1
        fr.inst = i
        fr.fid = self.fid
        fr.I = self.P.inst[i]
        fr.body = self.body(i)
        if fr.I['file'].startswith('src'): self.touched.add(i)
        argc = fr.body.argc
        if len(args) != argc and fr.I['kind'] == 'Closure' and len(args) == 2 and args[1][0] == 'agg':
            args = [args[0]] + list(args[1][3])
        if len(args) != argc: raise Undecided('arity of ' + fr.I['path'])
        if fr.I['kind'] == 'Closure':
            t0 = self.ty(fr.body.locals[1])
            if t0['k'] == 'ref' and args[0][0] == 'agg':
                # closure handed by value to a body taking it by reference
                c = ('clo', self.newfid())
                st.cells[c] = args[0]
                args = [('ref', c, (), True)] + args[1:]
            elif t0['k'] == 'closure' and args[0][0] in ('ref', 'rv'):
                args = [self.deref(st, args[0])] + args[1:]
        for n, a in enumerate(args): st.cells[(fr.fid, n + 1)] = a
        self.stack.append(i)
        old = getattr(self, 'site', None)
        try:
            rets, exits, backs = self.walk(fr, 0, st, None, None)
        finally:
            self.stack.pop()
            self.site = old
        out = []
        for s in rets:
            v = s.cells.get((fr.fid, 0))
            if v is None:
                v = self.unit(fr.body.locals[0])
            for l in range(len(fr.body.locals)): s.cells.pop((fr.fid, l), None)
            out.append((s, v))
        return out

    def newfid(self):
        self.fid += 1
        return self.fid

    def unit(self, tid):
        t = self.ty(tid)
        if t['k'] == 'tuple' and not t['elems']: return ('agg', tid, 0, ())
        return top('uninit')

    def deref(self, st, v):
        if v[0] == 'ref': return self.lread(st, ['cell', v[1], list(v[2])])
        if v[0] == 'rv': return v[1]
        return v

    def walk(self, fr, bb, st, region, head):
        rets = []
        exits = []
        backs = []
        work = [(bb, st, True)]
        loops = fr.body.loops
        while work:
            bb, st, first = work.pop()
            if region is not None and bb not in region:
                exits.append((bb, st))
                continue
            if bb == head and not first:
                backs.append(st)
                continue
            if bb in loops and bb != head:
                r, e = self.exec_loop(fr, bb, st)
                rets += r
                for b2, s2 in e: work.append((b2, s2, False))
                continue
            self.steps += 1
            if self.steps > self.limit: raise Undecided('too many states')
            for b2, s2 in self.block(fr, bb, st):
                if b2 == 'ret': rets.append(s2)
                else: work.append((b2, s2, False))
        return rets, exits, backs

    # ---------- statements
    def block(self, fr, bb, st):
        blk = fr.body.blocks[bb]
        sts = [st]
        for s in blk['s']:
            k = s[0]
            if k == '=':
                self.site = (fr.I['path'], s[3] if len(s) > 3 else 0)
                nxt = []
                for x in sts:
                    for y, v in self.rvalue(fr, x, s[2], s[1]):
                        self.lwrite(y, self.lvalue(y, fr, s[1]), v)
                        nxt.append(y)
                sts = nxt
            elif k == 'sd':
                for x in sts: x.note('setdiscriminant')
            # intrinsics (assume) carry no effect
        out = []
        self.site = (fr.I['path'], blk.get('line', 0))
        for x in sts: out += self.terminator(fr, x, blk['t'], bb)
        return out

    def operand(self, fr, st, o):
        if o[0] in ('c', 'm'): return self.lread(st, self.lvalue(st, fr, o[1]))
        if o[0] == 'k': return self.constant(fr, st, o[1])
        if o[0] == 'rt': return B(False)
        return top('operand')

    def constant(self, fr, st, c):
        v = c.get('v')
        if v is not None:
            if 'int' in v: return I(v['int'])
            if 'bool' in v: return B(bool(v['bool']))
            if 'char' in v: return I(v['char'])
            if 'float' in v: return ('t', ('fconst', v['float']), c['ty'])
            if 'str' in v:
                b = bytes(v['str'])
                return ('sl', ('const', b), ZERO, Lin(len(b)), 's')
            if 'bytes' in v or 'bytearray' in v:
                b = bytes(v.get('bytes', v.get('bytearray')))
                return ('sl', ('const', b), ZERO, Lin(len(b)), 'b')
            if 'unitvariant' in v: return ('agg', c['ty'], v['unitvariant'], ())
            if 'adt' in v: return ('agg', c['ty'], v['adt'], tuple(self.constant(fr, st, x) for x in v['fields']))
            if 'zst' in v and 'fn' not in c:
                return ('agg', c['ty'], 0, ())
        if 'fn' in c: return ('fn', FnRef(c['fn']))
        if 'promoted' in c:
            B2 = self.P.inst[fr.inst]['promoted'][c['promoted']]
            r = self.promoted(fr, st, B2, (fr.inst, c['promoted']))
            if r is not None: return r
        if 'assoc' in c:
            return ('i', atom(('assoc',) + tuple(str(x) for x in (c['assoc'] if isinstance(c['assoc'], (list, tuple)) else [c['assoc']])), *tybounds(self.ty(c['ty']))))
        if 'cinst' in c:
            r = self.run(c['cinst'], [], st.copy())
            if len(r) == 1: return r[0][1]
        if 'def' in c and c['def'] in self.P.consts: return I(self.P.consts[c['def']])
        return self.mk(('const', repr(sorted((k, str(x)) for k, x in c.items() if k != 'ty'))), c['ty'])

    def promoted(self, fr, st, B2, key):
        b = self.bodies.get(('prom',) + key)
        if b is None: b = self.bodies[('prom',) + key] = Body(B2)
        f2 = Frame()
        f2.inst = fr.inst
        f2.fid = self.newfid()
        f2.I = fr.I
        f2.body = b
        s = State()
        try: rets, _, _ = self.walk(f2, 0, s, None, None)
        except Undecided: return None
        if len(rets) != 1: return None
        v = rets[0].cells.get((f2.fid, 0))
        # promoted values are immutable: detach from the cells
        return self.freeze(rets[0], v)

    def freeze(self, st, v):
        if v[0] == 'ref':
            x = self.freeze(st, self.deref(st, v))
            if x[0] in ('sl',): return x
            return ('rv', x)
        if v[0] == 'agg': return ('agg', v[1], v[2], tuple(self.freeze(st, x) for x in v[3]))
        return v

    def place_ty(self, fr, place):
        t = fr.body.locals[place[0]]
        for e in place[1]:
            if e[0] == 'f': t = e[2]
            elif e[0] == '*':
                ty = self.ty(t)
                t = ty['to'] if ty['k'] in ('ref', 'ptr') else (ty['args'][0] if ty['k'] == 'adt' and ty['args'] else t)
            elif e[0] in ('idx', 'cidx'): t = self.elem_ty(t) or t
        return t

    def rvalue(self, fr, st, rv, dest):
        k = rv[0]
        if k == 'use': return [(st, self.operand(fr, st, rv[1]))]
        if k == 'ref' or k == 'rawptr':
            lv = self.lvalue(st, fr, rv[2])
            if lv[0] == 'val':
                v = self.lread(st, lv)
                if v[0] in ('sl', 'vsl'): return [(st, v)]
                return [(st, ('rv', v))]
            if lv[2]:
                v = self.lread(st, lv)
                if v[0] in ('sl', 'vsl') and self.ty(self.place_ty(fr, rv[2]))['k'] in ('str', 'slice'): return [(st, v)]
            return [(st, ('ref', lv[1], tuple(lv[2]), bool(rv[1])))]
        if k == 'bin': return self.binop(fr, st, rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]), rv[4], dest)
        if k == 'un':
            op = rv[1]
            v = self.operand(fr, st, rv[2])
            if op == 'Not':
                if v[0] == 'b': return [(st, B(neg(v[1])))]
                if v[0] == 'i' and v[1].is_const():
                    lo, hi = tybounds(self.ty(rv[3]))
                    return [(st, I(hi - v[1].c if lo == 0 else -1 - v[1].c))]
            if op == 'Neg' and v[0] == 'i': return [(st, ('i', -v[1]))]
            if op == 'PtrMetadata':
                n = self.length(st, self.deref(st, v))
                if n is not None: return [(st, ('i', n))]
            return [(st, self.unk(st, fr, dest, 'un' + op, [v]))]
        if k == 'cast': return self.cast(fr, st, rv, dest)
        if k == 'discr':
            v = self.lread(st, self.lvalue(st, fr, rv[1]))
            return [(st, self.discr(st, v))]
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in rv[2]]
            kk = rv[1]
            dt = self.place_ty(fr, dest)
            if kk[0] == 'array':
                if all(o[0] == 'i' and o[1].is_const() and 0 <= o[1].c < 256 for o in ops) and self.ty(dt).get('elem') is not None and self.ty(self.ty(dt)['elem']).get('bits') == 8 and not self.ty(self.ty(dt)['elem']).get('signed'):
                    b = bytes(o[1].c for o in ops)
                    return [(st, ('sl', ('const', b), ZERO, Lin(len(b)), 'b'))]
                return [(st, ('agg', dt, 0, tuple(ops)))]
            if kk[0] == 'tuple': return [(st, ('agg', dt, 0, tuple(ops)))]
            if kk[0] == 'adt':
                return [(st, ('agg', kk[1], kk[2], tuple(ops)))]
            if kk[0] == 'closure': return [(st, ('agg', dt, 0, tuple(ops)))]
            return [(st, top('aggregate'))]
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            dt = self.ty(self.place_ty(fr, dest))
            n = dt.get('len')
            if n is not None and v[0] == 'i' and v[1].is_const() and 0 <= v[1].c < 256:
                return [(st, ('sl', ('const', bytes([v[1].c]) * n), ZERO, Lin(n), 'b'))]
            if n is not None and n <= 64: return [(st, ('agg', self.place_ty(fr, dest), 0, (v,) * n))]
        return [(st, self.unk(st, fr, dest, 'rvalue ' + k, []))]

    def unk(self, st, fr, dest, what, args):
        tid = self.place_ty(fr, dest)
        st.note(what)
        return self.mk(('opq', what, tuple(self.term(a) for a in args)), tid)

    def discr(self, st, v):
        if v[0] == 'agg':
            if v[1] is None: return I(v[2])
            a = self.adt(v[1])
            if a: return I(a['variants'][v[2]]['discr'])
            return I(v[2])
        if v[0] == 't':
            a = self.adt(v[2])
            if a:
                vi = st.variants.get(v[1])
                if vi is not None: return I(a['variants'][vi]['discr'])
                ds = [x['discr'] for x in a['variants']]
                self.enums[v[1]] = v[2]
                DISCR[('disc', v[1], self.ts(v[2]))] = ds
                return ('i', atom(('disc', v[1], self.ts(v[2])), min(ds), max(ds)))
        return ('i', atom(('opq', 'discr', self.term(v))))

    def cast(self, fr, st, rv, dest):
        kind, op, frm, to = rv[1], rv[2], rv[3], rv[4]
        v = self.operand(fr, st, op)
        tt = self.ty(to)
        ft = self.ty(frm)
        if kind.startswith('PointerCoercion') or kind.startswith('coerce:') or kind in ('PtrToPtr', 'Subtype') or 'Transmute' in kind or kind.startswith('Pointer'):
            if kind == 'BoxDerefTransmute':
                # &*box
                lv = self.lvalue(st, fr, [op[1][0], op[1][1][:-1] if op[1][1] and op[1][1][-1][0] == 'f' else op[1][1]])
                # strip the projections into the box's pointer
                pl = op[1]
                base = [pl[0], list(pl[1])]
                while base[1] and base[1][-1][0] == 'f':
                    lv = self.lvalue(st, fr, base)
                    bt = self.ty(self.place_ty(fr, base))
                    if bt['k'] == 'adt' and bt['path'] == 'alloc::boxed::Box': break
                    base[1].pop()
                lv = self.lvalue(st, fr, base)
                bv = self.lread(st, lv)
                if bv[0] == 'box' and lv[0] == 'cell': return [(st, ('ref', lv[1], tuple(lv[2]) + (('B',),), True))]
                if bv[0] == 'box': return [(st, ('rv', bv[1]))]
                if bv[0] == 't':
                    bt = self.ty(bv[2])
                    return [(st, ('rv', self.mk(bv[1], bt['args'][0])))]
                return [(st, top('box'))]
            if v[0] in ('ref', 'rv', 'sl', 'vsl', 'box', 'fn', 'agg'):
                # &[T; N] -> &[T]
                return [(st, v)]
            return [(st, self.unk(st, fr, dest, 'cast ' + kind, [v]))]
        if kind == 'IntToInt':
            if v[0] == 'b':
                if v[1] in (True, False): return [(st, I(int(v[1])))]
                out = []
                for val in (True, False):
                    for s in st.copy().assume(v[1] if val else neg(v[1])): out.append((s, I(int(val))))
                return out
            if v[0] == 'agg': v = self.discr(st, v)
            if v[0] == 't': v = self.discr(st, v)
            if v[0] == 'i': return [(st, ('i', self.intcast(st, v[1], ft, tt)))]
        if kind in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            return [(st, self.mk(('fcast', kind, self.ts(frm), self.ts(to), self.term(v)), to))]
        return [(st, self.unk(st, fr, dest, 'cast ' + kind, [v]))]

    def intcast(self, st, L, ft, tt):
        lo, hi = tybounds(tt)
        flo, fhi = tybounds(ft)
        L = st.norm(L)
        if flo is not None and flo >= lo and fhi <= hi: return L
        if L.is_const():
            n = hi - lo + 1
            return Lin((L.c - lo) % n + lo)
        # a wrapped reinterpretation undone
        a = L.single()
        if a is not None and a[0] == 'wrap':
            x = a[2]
            if a[1] == hi - lo + 1 and st.implies(x - lo) and st.implies(Lin(hi) - x): return x
        if a is not None and a[0] == 'fromle' and tt['bits'] == 8 * a[2][3]:
            return atom(('fromle', tt.get('signed', False), a[2]), lo, hi)
        if a is not None and a[0] == 'rd' and tt.get('signed') and tt['bits'] == 8 * a[3]:
            return self.read(st, a[1], a[2], a[3], True)
        if a is not None and a[0] == 'rds' and not tt.get('signed') and tt.get('bits') == 8 * a[3]:
            return self.read(st, a[1], a[2], a[3], False)
        if st.implies(L - lo) and st.implies(Lin(hi) - L): return L
        if ft.get('bits') == 64 and tt.get('bits') == 32 and not tt.get('signed') and self.sizeish(L):
            # assumption: contents, with everything wrapped around them, stay below 4 GiB
            self.assumed4g = True
            st2 = st.copy()
            if st2.add(Lin(hi - 65536) - L) and st2.add(L):
                st.facts = st2.facts
                st.eqc = st2.eqc
                return L
        return atom(('wrap', hi - lo + 1, L, lo), lo, hi)

    def sizeish(self, L):
        return all(a[0] in ('len', 'size', 'asize', 'sum', 'sumc', 'hv') for a in L.atoms()) and bool(L.t)

    def cmp(self, st, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            d = st.norm(a[1] - b[1])
            if op == 'Eq': c = ('eq', d)
            elif op == 'Ne': c = ('ne', d)
            elif op == 'Lt': c = ('ge', -d - 1)
            elif op == 'Le': c = ('ge', -d)
            elif op == 'Gt': c = ('ge', d - 1)
            elif op == 'Ge': c = ('ge', d)
            else: return None
            return self.fold(st, c)
        if a[0] == 'b' and b[0] == 'b':
            if op in ('Eq', 'Ne'):
                x, y = a[1], b[1]
                if y in (True, False): x, y = y, x
                if x in (True, False):
                    r = y if x else neg(y)
                else:
                    r = True if x == y else ('or', ('and', x, y), ('and', neg(x), neg(y)))
                return r if op == 'Eq' else neg(r)
        if op in ('Eq', 'Ne'):
            x, y = self.term(a), self.term(b)
            if x == y: return op == 'Eq'
            k = ('eqv',) + tuple(sorted((x, y), key=repr))
            return ('p', k) if op == 'Eq' else ('np', k)
        return ('p', ('cmp', op, self.term(a), self.term(b)))

    def fold(self, st, c):
        if c[0] == 'ge':
            L = c[1]
            if not L.t: return L.c >= 0
            lo, hi = bounds(L)
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
        elif c[0] in ('eq', 'ne'):
            L = c[1]
            if not L.t: return (L.c == 0) == (c[0] == 'eq')
            lo, hi = bounds(L)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return c[0] == 'ne'
        return c

    def binop(self, fr, st, op, a, b, tid, dest):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            c = self.cmp(st, op, a, b)
            if c is not None: return [(st, B(c))]
            return [(st, self.unk(st, fr, dest, op, [a, b]))]
        t = self.ty(tid)
        base = op
        chk = False
        for suf in ('WithOverflow', 'Unchecked'):
            if op.endswith(suf):
                base = op[:-len(suf)]
                chk = suf == 'WithOverflow'
        if a[0] == 'b' and b[0] == 'b' and base in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = a[1], b[1]
            if base == 'BitXor': return [(st, B(self.cmp(st, 'Ne', a, b)))]
            if base == 'BitAnd':
                c = (y if x is True else x if y is True else False if (x is False or y is False) else ('and', x, y))
            else:
                c = (y if x is False else x if y is False else True if (x is True or y is True) else ('or', x, y))
            return [(st, B(c))]
        if a[0] == 'i' and b[0] == 'i':
            x, y = st.norm(a[1]), st.norm(b[1])
            lo, hi = tybounds(t)
            r = None
            if base == 'Add': r = x + y
            elif base == 'Sub': r = x - y
            elif base == 'Mul':
                if x.is_const(): r = y.scale(x.c)
                elif y.is_const(): r = x.scale(y.c)
                else: r = atom(('opq', 'mul', x, y))
            elif base == 'Div':
                r = self.div(st, x, y)
            elif base == 'Rem':
                r = self.rem(st, x, y)
            elif base == 'Shl' and y.is_const() and 0 <= y.c < 64: r = x.scale(1 << y.c)
            elif base == 'Shr' and y.is_const() and st.implies(x): r = self.div(st, x, Lin(1 << y.c))
            elif base == 'BitAnd':
                if y.is_const() and x.is_const(): r = Lin(x.c & y.c)
                else:
                    if x.is_const(): x, y = y, x
                    if y.is_const() and y.c >= 0 and (y.c & (y.c + 1)) == 0 and st.implies(x):
                        r = x if st.implies(Lin(y.c) - x) else self.rem(st, x, Lin(y.c + 1))
                    elif y.is_const() and y.c >= 0: r = atom(('opq', 'and', x, y.c), 0, y.c)
                    else: r = atom(('opq', 'and', x, y), lo, hi)
            elif base == 'BitOr':
                if x.is_const() and y.is_const(): r = Lin(x.c | y.c)
                elif x == ZERO: r = y
                elif y == ZERO: r = x
                else:
                    # disjoint bits: high part a multiple of 2^k, low part below 2^k
                    for p, q in ((x, y), (y, x)):
                        g = 0
                        from math import gcd
                        for _, k in p.t: g = gcd(g, k)
                        g = gcd(g, p.c)
                        if g and (g & -g) > 1 and st.implies(q) and st.implies(Lin((g & -g) - 1) - q) and st.implies(p):
                            r = p + q
                            break
                    if r is None: r = atom(('opq', 'or', x, y), lo, hi)
            elif base == 'BitXor' and x.is_const() and y.is_const(): r = Lin(x.c ^ y.c)
            if r is None: r = atom(('opq', base, x, y), lo, hi)
            if base in ('Add', 'BitOr', 'BitXor') and len(r.t) > 1: r = self.fold_reads(st, r)
            if chk:
                if lo is not None and st.implies(r - lo) and st.implies(Lin(hi) - r): ov = False
                elif r.is_const(): ov = not (lo <= r.c <= hi)
                else: ov = ('or', ('ge', Lin(lo - 1) - r), ('ge', r - hi - 1))
                return [(st, ('agg', self.place_ty(fr, dest), 0, (('i', r), B(ov))))]
            if base in ('Add', 'Sub', 'Mul', 'Shl') and not op.endswith('Unchecked'):
                if r.is_const():
                    n = hi - lo + 1
                    r = Lin((r.c - lo) % n + lo)
                elif not (st.implies(r - lo) and st.implies(Lin(hi) - r)):
                    r = atom(('wrap', hi - lo + 1, r, lo), lo, hi)
            return [(st, ('i', r))]
        if base == 'Offset' or t['k'] == 'float':
            return [(st, self.mk(('fop', base, self.term(a), self.term(b)), self.place_ty(fr, dest)))]
        return [(st, self.unk(st, fr, dest, 'bin ' + op, [a, b]))]

    def div(self, st, x, y):
        """truncated division"""
        if x.is_const() and y.is_const() and y.c:
            q = abs(x.c) // abs(y.c)
            return Lin(q if (x.c < 0) == (y.c < 0) else -q)
        if y.is_const() and y.c > 0:
            if st.implies(x):
                r = self.exact_div(st, x, y.c)
                if r is not None: return r
                a = x.single()
                if a is not None and a[0] == 'quot': return self.div(st, a[1], Lin(a[2] * y.c))
                q = atom(('quot', x, y.c), 0, None)
                qi = q.t[0][0]
                lo, hi = bounds(x)
                if hi is not None: atom_id(('quot', x, y.c), 0, hi // y.c)
                if qi not in AX: AX[qi] = [x - q.scale(y.c), q.scale(y.c) + (y.c - 1) - x]
                return q
            return self.fdiv(st, x, y.c) + self.tadj(st, x, y.c)
        return atom(('opq', 'div', x, y))

    def fdiv(self, st, x, n):
        """floor division by a positive constant"""
        if x.is_const(): return Lin(x.c // n)
        r = self.exact_div(st, x, n)
        if r is not None: return r
        lo, hi = bounds(x)
        q = atom(('fdiv', x, n), None if lo is None else lo // n, None if hi is None else hi // n)
        qi = q.t[0][0]
        if qi not in AX: AX[qi] = [x - q.scale(n), q.scale(n) + (n - 1) - x]
        return q

    def tadj(self, st, x, n):
        """what truncation adds to floor division: 1 for a negative dividend that leaves a rest, else 0"""
        if st.implies(-x - 1):
            r = x - self.fdiv(st, x, n).scale(n)
            if st.equal(r, ZERO): return ZERO
            if st.implies(r - 1): return Lin(1)
        d = atom(('tadj', x, n), 0, 1)
        di = d.t[0][0]
        if di not in AX:
            lo, hi = bounds(x)
            AX[di] = [x - self.fdiv(st, x, n).scale(n) - d]
            if hi is not None: AX[di].append(-x - 1 + (Lin(1) - d).scale(max(hi, -1) + 1))
        TADJ[di] = (x, n)
        return d

    def exact_div(self, st, x, n):
        """x = n*q + r with 0<=r<n visible in the form"""
        qs = []
        rest = Lin(x.c % n)
        q = Lin((x.c - x.c % n) // n)
        for a, k in x.t:
            one = Lin(0, ((a, 1),))
            if k % n == 0: q = q + one.scale(k // n)
            else: rest = rest + one.scale(k)
        if st.implies(rest) and st.implies(Lin(n - 1) - rest): return q
        return None

    def rem(self, st, x, y):
        if x.is_const() and y.is_const() and y.c:
            r = abs(x.c) % abs(y.c)
            return Lin(r if x.c >= 0 else -r)
        if y.is_const() and y.c > 0 and st.implies(x): return x - self.div(st, x, y).scale(y.c)
        if y.is_const() and y.c > 0: return x - self.div(st, x, y).scale(y.c)
        return atom(('opq', 'rem', x, y))

    # ---------- terminators
    def terminator(self, fr, st, t, bb):
        k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'drop': return [(t[2], st)]
        if k == 'return': return [('ret', st)]
        if k in ('unreachable', 'resume', 'abort', 'other'): return []
        if k == 'switch': return self.switch(fr, st, t)
        if k == 'assert':
            v = self.operand(fr, st, t[1])
            exp = bool(t[2])
            msg = t[3]
            kind = msg[0] if msg[0] != 'other' else 'assert'
            if v[0] != 'b':
                self.obligation(st, kind, None, str(msg[0]))
                return [(t[4], st)]
            c = v[1] if exp else neg(v[1])
            r = st.tv(c)
            if r is True:
                self.obligation(st, kind, [], self.msgtext(fr, st, msg))
                return [(t[4], st)]
            need = self.cond_lins(c)
            self.obligation(st, kind, need, self.msgtext(fr, st, msg))
            return [(t[4], s) for s in st.assume(c)]
        if k == 'call': return self.call(fr, st, t)
        raise Exception(k)

    def msgtext(self, fr, st, msg):
        r = []
        for x in msg[1:]:
            if isinstance(x, list) and x and x[0] in ('c', 'm', 'k'):
                v = self.operand(fr, st, x)
                r.append(repr(st.norm(v[1])) if v[0] == 'i' else v[0])
            else: r.append(str(x))
        return '%s(%s)' % (msg[0], ', '.join(r))

    def cond_lins(self, c):
        if c is True: return []
        if c is False: return [Lin(-1)]
        if c[0] == 'ge': return [c[1]]
        if c[0] == 'eq': return [c[1], -c[1]]
        if c[0] == 'and':
            a, b = self.cond_lins(c[1]), self.cond_lins(c[2])
            return None if a is None or b is None else a + b
        if c[0] == 'ne': return None
        return None

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        out = []
        if v[0] == 'b':
            seen = set()
            for val, b in t[2]:
                seen.add(val)
                for s in st.copy().assume(v[1] if val else neg(v[1])): out.append((b, s))
            for val in (0, 1):
                if val not in seen:
                    for s in st.copy().assume(v[1] if val else neg(v[1])): out.append((t[3], s))
            return out
        if v[0] == 'i':
            L = st.norm(v[1])
            a = L.single()
            if a is not None and a[0] == 'disc':
                term = a[1]
                tid = self.enums[term] if term in self.enums else self.P.tystr[a[2]]
                vs = self.P.adts[self.ty(tid)['path']]['variants']
                excl = st.nvar.get(term, frozenset())
                used = set()
                for val, b in t[2]:
                    vi = next((i for i, x in enumerate(vs) if x['discr'] == val), None)
                    if vi is None: continue
                    used.add(vi)
                    if vi in excl: continue
                    s = st.copy()
                    if self.set_variant(s, term, tid, vi): out.append((b, s))
                rest = [i for i in range(len(vs)) if i not in used and i not in excl]
                # one trace per remaining variant when few, else one merged
                if len(rest) == 1:
                    s = st.copy()
                    if self.set_variant(s, term, tid, rest[0]): out.append((t[3], s))
                elif rest:
                    s = st.copy()
                    s.nvar = dict(s.nvar)
                    s.nvar[term] = excl | frozenset(used)
                    out.append((t[3], s))
                return out
            if L.is_const():
                for val, b in t[2]:
                    if self.sw_val(val, t, L.c): return [(b, st)]
                return [(t[3], st)]
            o = st.copy()
            ok = True
            byb = {}
            for val, b in t[2]:
                vv = self.sw_signed(val, t)
                s = st.copy()
                if s.addeq(L - vv): out.append((b, s))
                if ok: ok = o.addne(L - vv)
            if ok: out.append((t[3], o))
            return out
        # unknown scrutinee: all branches
        st.note('switch on unmodelled value')
        return [(b, st.copy()) for _, b in t[2]] + [(t[3], st)]

    def sw_signed(self, val, t):
        ty = self.ty(t[4]) if len(t) > 4 and t[4] is not None else None
        if ty and ty['k'] == 'int' and ty['signed'] and val >= 1 << (ty['bits'] - 1): return val - (1 << ty['bits'])
        return val
    def sw_val(self, val, t, c): return self.sw_signed(val, t) == c

    def set_variant(self, st, term, tid, vi):
        cur = st.variants.get(term)
        if cur is not None: return cur == vi
        if vi in st.nvar.get(term, ()): return False
        st.variants = dict(st.variants)
        st.variants[term] = vi
        a = self.P.adts[self.ty(tid)['path']]
        aid = ('disc', term, self.ts(tid))
        from lin import AID
        if aid in AID: return st.addeq(atom(aid) - a['variants'][vi]['discr'])
        return True

    # ---------- calls
    def call(self, fr, st, t):
        f, aops, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(fr, st, o) for o in aops]
        if 'indirect' in f:
            fv = self.operand(fr, st, f['indirect'])
            if fv[0] == 'fn': res = self.dispatch(fr, st, fv[1].f, args, dest)
            else: res = [(st, self.unk(st, fr, dest, 'indirect call', args))]
        else:
            res = self.dispatch(fr, st, f, args, dest)
        if target is None: return []
        out = []
        for s, v in res:
            self.lwrite(s, self.lvalue(s, fr, dest), v)
            out.append((target, s))
        return out

    def dispatch(self, fr, st, f, args, dest, rty=None):
        if rty is None: rty = self.place_ty(fr, dest)
        cx = CallCx(self, fr, st, f, args, rty)
        path = f.get('rpath') or f['path']
        tr = f.get('trait')
        if tr in CODEC:
            v = self.deref(st, args[0])
            while v[0] in ('rv', 'ref'): v = self.deref(st, v)
            a = st.norm(v[1]).single() if v[0] == 'i' else None
            if a is not None and a[0] == 'disc':
                # the number of an enum's variant: one case for each
                tid = self.P.tystr[a[2]]
                out = []
                for vi in range(len(self.P.adts[self.ty(tid)['path']]['variants'])):
                    s = st.copy()
                    if vi not in st.nvar.get(a[1], ()) and self.set_variant(s, a[1], tid, vi): out += self.dispatch(fr, s, f, args, dest, rty)
                return out
            r = self.codec_call(cx, tr, f['path'].rsplit('::', 1)[1])
            if r is not None: return r
        for p in (path, f['path']):
            h = self.bi.get(p)
            if h is not None:
                r = h(cx)
                if r is not None: return r
        if 'ctor' in f: return [(st, ('agg', rty, f['ctor'], tuple(args)))]
        i = f.get('inst', f.get('cinst'))
        if i is not None:
            if tr in FNTR and self.P.inst[i]['kind'] == 'Closure' and len(args) == 2 and args[1][0] == 'agg': args = [args[0]] + list(args[1][3])
            if self.stack.count(i) >= 2:
                return self.uncall(cx, 'recursive call')
            return self.run(i, args, st)
        if tr in FNTR:
            return self.bi['call'](cx)
        if self.ty(rty)['k'] == 'never': return self.bi['core::panicking::panic'](cx)      # never returns: a panic by another name
        r = self.bi['fallback'](cx)
        if r is not None: return r
        return self.uncall(cx, 'unknown callee')

    def uncall(self, cx, why):
        st = cx.st
        path = cx.f.get('rpath') or cx.f['path']
        self.unknown[path] = self.unknown.get(path, 0) + 1
        terms = tuple(self.term(self.deref(st, a)) for a in cx.args)
        st.note('call of ' + path)
        for n, a in enumerate(cx.args):
            if a[0] == 'ref' and a[3]:
                lv = ['cell', a[1], list(a[2])]
                v = self.lread(st, lv)
                tid = self.vty(v)
                if tid is not None: self.lwrite(st, lv, self.mk(('opq', path, terms, n), tid))
                else: self.lwrite(st, lv, top('changed by ' + path))
        return [(st, self.mk(('opq', path, terms), cx.rty))]

    def vty(self, v):
        if v[0] in ('agg',): return v[1]
        if v[0] == 't': return v[2]
        return None

    # ---------- contracts of the codec traits
    def codec_call(self, cx, tr, m):
        st = cx.st
        f = cx.f
        T = f['args'][0]
        Ts = self.ts(T)
        if m in ('encoded_size', 'array_encoded_size', 'encode', 'array_encode'):
            v = self.deref(st, cx.args[0])
            while v[0] in ('rv', 'ref'): v = self.deref(st, v)
            if v[0] == 'i' and not v[1].is_const() and (v[1].single() or ('disc',))[0] == 'disc': v = ('i', st.norm(v[1]))
            opaque = not self.closed(v) and (tr, Ts) not in self.inline_root
            if f.get('inst') is None: opaque = True
            if opaque and v[0] == 'top': st.note('codec call on unmodelled value')
            if not opaque: return None
            term = self.term(v)
            if m.endswith('encoded_size'):
                st.ev(('size', tr, Ts, term))
                return [(st, ('i', self.size_atom(tr, Ts, term)))]
            buf = self.deref(st, cx.args[1])
            while buf[0] in ('rv', 'ref'): buf = self.deref(st, buf)
            it = ('Enc' if tr == 'codec::Encode' else 'AEnc', Ts, term)
            st.ev(('enc', tr, Ts, term))
            self.bi['append'](cx, cx.args[1], it)
            return [(st, ('agg', cx.rty, 0, ()))]
        if m in ('decode', 'decode_with_format', 'array_decode'):
            return self.decode_call(cx, tr, m, T, Ts)
        return None

    def decode_call(self, cx, tr, m, T, Ts):
        st = cx.st
        sl = self.deref(st, cx.args[0])
        fmt = cx.args[1][1] if m == 'decode_with_format' and cx.args[1][0] == 'i' else None
        if (tr, Ts) in self.inline_root and cx.f.get('inst') is not None: return None
        if sl[0] != 'sl':
            st.note('decode of unmodelled bytes')
            return None if cx.f.get('inst') is not None else self.uncall(cx, 'decode')
        if self.ih is not None:
            r = self.ih(cx, tr, m, T, Ts, sl, fmt)
            if r != 'opaque': return r
        return self.decode_contract(cx, tr, m, T, Ts, sl, fmt)

    def decode_contract(self, cx, tr, m, T, Ts, sl, fmt):
        st = cx.st
        base, start, n, k = sl[1], st.norm(sl[2]), st.norm(sl[3]), sl[4]
        if fmt is not None: fmt = st.norm(fmt)
        key = ('dv', m, Ts, base, start, fmt)
        lo = 1 if m == 'decode' and Ts not in self.opts.get('zero_dec', ()) else 0
        zf = self.opts.get('zero_fmt')
        if m == 'decode_with_format' and zf is not None and Ts not in zf: lo = 1
        used = atom(('used', m, Ts, base, start, n, fmt), lo, MAXLEN)
        out = []
        # success
        s = st.copy()
        s.ev(('dec', m, Ts, base, start, n, fmt, True))
        if s.add(n - used):
            val = self.mk(key, T)
            rest = ('sl', base, start + used, n - used, k)
            tup = self.ty(cx.rty)['args'][0]
            out.append((s, ('agg', cx.rty, 0, (('agg', tup, 0, (rest, val)),))))
        # failure
        s = st.copy()
        s.ev(('dec', m, Ts, base, start, n, fmt, False))
        err = self.mk(('derr', m, Ts, base, start, fmt), self.ty(cx.rty)['args'][1])
        out.append((s, ('agg', cx.rty, 1, (err,))))
        return out

    # ---------- loops
    def exec_loop(self, fr, head, st):
        from loops import exec_loop
        return exec_loop(self, fr, head, st)

class FnRef:
    __slots__ = ('f', 'k')
    def __init__(self, f):
        self.f = f
        self.k = (f.get('rpath') or f['path'], f.get('inst'))
    def __hash__(self): return hash(self.k)
    def __eq__(self, o): return isinstance(o, FnRef) and self.k == o.k
    def __repr__(self): return 'fn %s' % (self.k[0],)

def swapped(L, w):
    """the number read big endian where L was written little endian; None when L may not fit"""
    if L.is_const(): return Lin(int.from_bytes((L.c % 256 ** w).to_bytes(w, 'little'), 'big'))
    lo, hi = bounds(L)
    if lo is None or hi is None or lo < 0 or hi >= 256 ** w: return None
    def q(k):
        if k == 0: return L
        if k == w: return ZERO
        x = atom(('quot', L, 256 ** k), 0, hi // 256 ** k)
        i = x.t[0][0]
        if i not in AX: AX[i] = [L - x.scale(256 ** k), x.scale(256 ** k) + (256 ** k - 1) - L]
        return x
    r = ZERO
    for k in range(w): r = r + (q(k) - q(k + 1).scale(256)).scale(256 ** (w - 1 - k))
    return r

class CallCx:
    __slots__ = ('e', 'fr', 'st', 'f', 'args', 'rty')
    def __init__(self, e, fr, st, f, args, rty):
        self.e, self.fr, self.st, self.f, self.args, self.rty = e, fr, st, f, args, rty
