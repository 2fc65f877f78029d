"""Linear forms over named quantities, and entailment in the linear-inequality (polyhedra) domain."""
from fractions import Fraction

ATOMS = []
AID = {}
BLO = []
BHI = []

def atom_id(a, lo=None, hi=None):
    i = AID.get(a)
    if i is None:
        i = len(ATOMS)
        AID[a] = i
        ATOMS.append(a)
        BLO.append(lo)
        BHI.append(hi)
    else:
        if lo is not None and (BLO[i] is None or lo > BLO[i]): BLO[i] = lo
        if hi is not None and (BHI[i] is None or hi < BHI[i]): BHI[i] = hi
    return i

class Lin:
    __slots__ = ('c', 't', 'h')
    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t
    def is_const(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n: d[a] = n
            else: d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    def __neg__(self): return Lin(-self.c, tuple((a, -k) for a, k in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + (-o)
    def scale(self, k):
        if k == 0: return Lin(0)
        return Lin(self.c * k, tuple((a, b * k) for a, b in self.t))
    def atoms(self): return [ATOMS[a] for a, _ in self.t]
    def single(self):
        """the atom if this form is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1: return ATOMS[self.t[0][0]]
        return None
    def __repr__(self):
        s = []
        for a, k in self.t:
            n = aname(a)
            s.append(n if k == 1 else ('-' + n if k == -1 else '%d*%s' % (k, n)))
        if self.c or not s: s.append(str(self.c))
        return ' + '.join(s).replace('+ -', '- ')

NAMES = {}
def aname(a):
    n = NAMES.get(a)
    if n is None:
        n = show(ATOMS[a])
        if len(n) > 170: n = '%s...<%d>' % (n[:150], a)
        NAMES[a] = n
    return n

def show(t):
    if isinstance(t, Lin): return repr(t)
    if isinstance(t, bytes): return repr(t)
    if isinstance(t, tuple):
        if not t: return '()'
        if t[0] == 'v': return show(t[1])
        if t[0] == 'fld': return '%s.%s%s' % (show(t[1]), ('%s:' % t[2]) if t[2] else '', t[3])
        if t[0] == 'arg': return str(t[1])
        if isinstance(t[0], str): return '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:]))
        return '(%s)' % ', '.join(show(x) for x in t)
    return str(t)

def const(n): return Lin(n)
def atom(a, lo=None, hi=None): return Lin(0, ((atom_id(a, lo, hi), 1),))
ZERO = Lin(0)

def bounds(L):
    """interval of L from the bounds of its atoms (None = unbounded)"""
    lo = hi = L.c
    for a, k in L.t:
        l, h = BLO[a], BHI[a]
        if k < 0: l, h = h, l
        lo = None if (lo is None or l is None) else lo + k * l
        hi = None if (hi is None or h is None) else hi + k * h
    return lo, hi

STATS = {'lp': 0, 'fast': 0}
_cache = {}

def infeasible(facts):
    """facts: iterable of Lin meaning >= 0. True when their conjunction with the atom bounds has no solution."""
    facts = frozenset(facts)
    r = _cache.get(facts)
    if r is None:
        r = _infeasible(facts)
        if len(_cache) > 200000: _cache.clear()
        _cache[facts] = r
    return r

def _infeasible(facts):
    fs = []
    for f in facts:
        lo, hi = bounds(f)
        if hi is not None and hi < 0: STATS['fast'] += 1; return True
        if lo is not None and lo >= 0: continue
        fs.append(f)
    if not fs: return False
    STATS['lp'] += 1
    return _lp(fs)

def _lp(fs):
    # variables with shifted lower bounds; free variables are split
    vs = {}
    rows = []
    ats = sorted({a for f in fs for a, _ in f.t})
    ncol = 0
    col = {}
    for a in ats:
        if BLO[a] is not None: col[a] = (ncol, None, BLO[a]); ncol += 1
        else: col[a] = (ncol, ncol + 1, 0); ncol += 2
    cons = []  # sum coef*x >= rhs
    for f in fs:
        r = [0] * ncol
        rhs = -f.c
        for a, k in f.t:
            p, n, s = col[a]
            r[p] += k
            if n is not None: r[n] -= k
            rhs -= k * s
        cons.append((r, rhs))
    for a in ats:
        p, n, s = col[a]
        if BHI[a] is not None:
            r = [0] * ncol
            r[p] = -1
            if n is not None: r[n] = 1
            cons.append((r, -(BHI[a] - s)))
    # A x - s + art = b  (b>=0 after sign), phase 1 simplex with Bland's rule
    m = len(cons)
    total = ncol + m
    T = []
    basis = []
    nart = 0
    arts = []
    for i, (r, rhs) in enumerate(cons):
        row = [Fraction(x) for x in r] + [Fraction(0)] * m
        row[ncol + i] = Fraction(-1)
        b = Fraction(rhs)
        if b <= 0:
            row = [-x for x in row]
            b = -b
            basis.append(ncol + i)
            arts.append(None)
        else:
            basis.append(None)
            arts.append(nart)
            nart += 1
        T.append((row, b))
    if nart == 0: return False
    rows = []
    for i, (row, b) in enumerate(T):
        ext = [Fraction(0)] * nart
        if arts[i] is not None:
            ext[arts[i]] = Fraction(1)
            basis[i] = total + arts[i]
        rows.append(row + ext + [b])
    N = total + nart
    obj = [Fraction(0)] * (N + 1)
    for i in range(m):
        if basis[i] >= total:
            for j in range(N + 1): obj[j] += rows[i][j]
    for k in range(total, N): obj[k] = Fraction(0)
    it = 0
    while True:
        it += 1
        if it > 2000: return False
        e = -1
        for j in range(total):
            if obj[j] > 0: e = j; break
        if e < 0: break
        best = None
        l = -1
        for i in range(m):
            if rows[i][e] > 0:
                q = rows[i][N] / rows[i][e]
                if best is None or q < best or (q == best and basis[i] < basis[l]): best = q; l = i
        if l < 0: return False
        p = rows[l][e]
        rows[l] = [x / p for x in rows[l]]
        rl = rows[l]
        nz = [j for j in range(N + 1) if rl[j]]
        for i in range(m):
            if i != l and rows[i][e]:
                k = rows[i][e]
                ri = rows[i]
                for j in nz: ri[j] -= k * rl[j]
        k = obj[e]
        if k:
            for j in nz: obj[j] -= k * rl[j]
        basis[l] = e
    return obj[N] > 0

def relevant(facts, goal):
    """facts connected to goal by shared atoms"""
    seen = {a for a, _ in goal.t}
    rest = list(facts)
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            if any(a in seen for a, _ in f.t):
                out.append(f)
                for a, _ in f.t: seen.add(a)
                ch = True
            else: nr.append(f)
        rest = nr
    return out

def entails(facts, L):
    """do the facts (each >= 0) imply L >= 0 ?"""
    if not L.t: 
        if L.c >= 0: return True
        return False if not facts else infeasible(facts)
    lo, hi = bounds(L)
    if lo is not None and lo >= 0: return True
    if L in facts: return True
    neg = -L - 1
    return infeasible(relevant(facts, L) + [neg])
