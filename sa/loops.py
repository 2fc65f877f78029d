"""Loops: bounded unrolling when the trip count is concrete, otherwise generalisation with checked invariants and
closed forms (iteration counter, suffix views, append-only sequences, case-wise sums)."""
from lin import Lin, atom, ZERO, ATOMS, AID, BLO, BHI, bounds
import eng as E

def mentions_ids(x, ids, memo=None):
    """does a structure mention one of the atoms, at any depth"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            if a in ids or mentions_ids(ATOMS[a], ids): return True
        return False
    if isinstance(x, tuple): return any(mentions_ids(y, ids) for y in x)
    return False

def subst(x, m, lv, memo):
    """replace atoms (by id) and lv-items in a structure"""
    if isinstance(x, Lin):
        r = memo.get(x)
        if r is not None: return r
        out = Lin(x.c)
        for a, k in x.t:
            if a in m: out = out + m[a].scale(k)
            else:
                at = ATOMS[a]
                n = subst(at, m, lv, memo)
                if n is at or n == at: out = out + Lin(0, ((a, k),))
                else: out = out + atom(n, BLO[a], BHI[a]).scale(k)
        memo[x] = out
        return out
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'lv' and x[1] in lv: return lv[x[1]]
        ch = False
        o = []
        for y in x:
            if isinstance(y, (tuple, Lin)):
                z = subst(y, m, lv, memo)
                if z is not y: ch = True
                o.append(z)
            else: o.append(y)
        return tuple(o) if ch else x
    return x

def subst_state(s, m, lv):
    memo = {}
    s.cells = {c: subst(v, m, lv, memo) for c, v in s.cells.items()}
    fs = []
    for f in s.facts:
        n = subst(f, m, lv, memo)
        if n.t and n not in fs: fs.append(n)
    s.facts = tuple(fs)
    s.nes = tuple(x for x in (subst(f, m, lv, memo) for f in s.nes) if x.t)
    s.events = tuple(subst(x, m, lv, memo) for x in s.events)
    s.preds = {subst(k, m, lv, memo): v for k, v in s.preds.items()}
    s.variants = {subst(k, m, lv, memo): v for k, v in s.variants.items()}

class Gen:
    def __init__(self, e, key):
        self.e = e
        self.key = key
        self.levels = {}
        self.init = {}        # path -> initial Lin of hv / sfx
        self.katom = atom(('hv', key, 'k'), 0, E.MAXLEN)
        self.kid = self.katom.t[0][0]
        self.changed = False

    def hv(self, path, sfx=False):
        n = ('hv', (self.key, path)) + (('sfx',) if sfx else ())
        return atom(n, 0 if sfx else None, E.MAXLEN if sfx else None)

    def raise_(self, path, lvl):
        if self.levels.get(path) != lvl:
            self.levels[path] = lvl
            self.changed = True

    # the generalised value
    def glin(self, L, path):
        lvl = self.levels.get(path)
        if lvl is None: return L
        if lvl[0] == 'step': return L + self.katom.scale(lvl[1])
        self.init[path] = L
        return self.hv(path)

    def gval(self, v, path):
        lvl = self.levels.get(path)
        if lvl == ('top',): return ('top', 'loop')
        if lvl is not None and lvl[0] == 'fresh':
            t = lvl[1]
            if t == 'bool': return ('b', ('p', ('v', ('hvt', self.key, path))))
            return self.e.mk(('hvt', self.key, path), t)
        k = v[0]
        if k == 'i': return ('i', self.glin(v[1], path))
        if k == 'agg': return ('agg', v[1], v[2], tuple(self.gval(x, path + (i,)) for i, x in enumerate(v[3])))
        if k == 'sl':
            if lvl == ('sfx',):
                h = self.hv(path, True)
                self.init[path] = ZERO
                return ('sl', v[1], v[2] + h, v[3] - h, v[4])
            return v
        if k == 'bm':
            b, s, n, its, room = v[1:]
            if lvl == ('sfx',) or (path + ('s',)) in self.levels:
                h = self.hv(path, True)
                self.init[path] = ZERO
                s, n = s + h, n - h
            if (path + ('a',)) in self.levels: its = its + (('lv', (self.key, path)),)
            if (path + ('r',)) in self.levels: room = None
            return ('bm', b, s, n, its, room)
        if k in ('vec', 'map'):
            if lvl == ('append',): return (k, v[1], v[2] + (('lv', (self.key, path)),))
            return v
        if k == 'it':
            return ('it',) + tuple(self.gcomp(x, path + (i,)) for i, x in enumerate(v[1:]))
        if k in ('rv', 'box'): return (k, self.gval(v[1], path + ('d',)))
        return v
    def gcomp(self, x, path):
        if isinstance(x, Lin): return self.glin(x, path)
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('it', 'i', 'agg', 'sl'): return self.gval(x, path)
        return x

    # comparison of the value after one iteration with the generalised one
    def mlin(self, s, G, V, path, L0=None):
        V = s.norm(V)
        Gn = s.norm(G)
        lvl = self.levels.get(path)
        d = V - Gn
        if lvl is None:
            if d == ZERO or s.equal(V, Gn): return
            if d.is_const(): self.raise_(path, ('step', d.c))
            else: self.raise_(path, ('hv',))
        elif lvl[0] == 'step':
            if not (d.is_const() and d.c == lvl[1]): self.raise_(path, ('hv',))

    def match(self, s, G, V, path):
        lvl = self.levels.get(path)
        if lvl == ('top',) or (lvl is not None and lvl[0] == 'fresh'): return
        if G == V and lvl is None and not self.sub(path): return
        if G[0] != V[0]:
            return self.fresh(G, V, path)
        k = G[0]
        if k == 'i': return self.mlin(s, G[1], V[1], path)
        if k == 'b': return self.raise_(path, ('fresh', 'bool'))
        if k == 'agg':
            if G[1] != V[1] or G[2] != V[2] or len(G[3]) != len(V[3]): return self.fresh(G, V, path)
            for i, (a, b) in enumerate(zip(G[3], V[3])): self.match(s, a, b, path + (i,))
            return
        if k == 'sl':
            if G[1] == V[1] and G[4] == V[4] and s.equal(G[2] + G[3], V[2] + V[3]): return self.raise_(path, ('sfx',)) if lvl is None and G != V else None
            return self.raise_(path, ('top',))
        if k == 'bm':
            if G[1] != V[1]: return self.raise_(path, ('top',))
            if s.norm(G[2]) != s.norm(V[2]):
                if s.equal(G[2] + G[3], V[2] + V[3]): self.raise_(path + ('s',), ('sfx',))
                else: return self.raise_(path, ('top',))
            if G[4] != V[4]:
                if V[4][:len(G[4])] == G[4]: self.raise_(path + ('a',), ('append',))
                else: return self.raise_(path, ('top',))
            if G[5] != V[5]: self.raise_(path + ('r',), ('room',))
            return
        if k in ('vec', 'map'):
            if G[2] != V[2]:
                if V[2][:len(G[2])] == G[2]: return self.raise_(path, ('append',))
                t = G[1]
                return self.raise_(path, ('fresh', t) if t is not None else ('top',))
            return
        if k == 'it':
            if len(G) != len(V): return self.raise_(path, ('top',))
            for i, (a, b) in enumerate(zip(G[1:], V[1:])): self.mcomp(s, a, b, path + (i,), path)
            return
        if k in ('rv', 'box'): return self.match(s, G[1], V[1], path + ('d',))
        if k == 't' and G[2] == V[2]: return self.raise_(path, ('fresh', G[2]))
        return self.raise_(path, ('top',))
    def mcomp(self, s, a, b, path, up):
        if isinstance(a, Lin) and isinstance(b, Lin): return self.mlin(s, a, b, path)
        if a == b and not self.sub(path): return
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in ('it', 'i', 'agg', 'sl'): return self.match(s, a, b, path)
        self.raise_(up, ('top',))
    def sub(self, path):
        n = len(path)
        return any(p[:n] == path for p in self.levels)
    def fresh(self, G, V, path):
        t = self.e.vty(G)
        if t is None: t = self.e.vty(V)
        if t is None and G[0] in ('vec', 'map'): t = G[1]
        if t is None and V[0] in ('vec', 'map'): t = V[1]
        self.raise_(path, ('fresh', t) if t is not None else ('top',))

    # lists of (path, G Lin, V Lin) of hv quantities
    def pairs(self, s, G, V, path, out):
        lvl = self.levels.get(path)
        if lvl is not None and lvl[0] in ('top', 'fresh'): return
        k = G[0]
        if k == 'i':
            if lvl == ('hv',): out.append((path, 'hv', V[1]))
        elif k == 'agg':
            for i, (a, b) in enumerate(zip(G[3], V[3])): self.pairs(s, a, b, path + (i,), out)
        elif k == 'sl':
            if lvl == ('sfx',): out.append((path, 'sfx', V[2] - (G[2] - self.hv(path, True))))
        elif k == 'bm':
            if (path + ('s',)) in self.levels: out.append((path, 'sfx', V[2] - (G[2] - self.hv(path, True))))
            if (path + ('a',)) in self.levels: out.append((path, 'app', V[4][len(G[4]):]))
        elif k in ('vec', 'map'):
            if lvl == ('append',): out.append((path, 'app', V[2][len(G[2]):]))
        elif k == 'it':
            for i, (a, b) in enumerate(zip(G[1:], V[1:])):
                if isinstance(a, Lin):
                    if self.levels.get(path + (i,)) == ('hv',): out.append((path + (i,), 'hv', b))
                elif isinstance(a, tuple) and a and a[0] in ('it', 'i', 'agg', 'sl'): self.pairs(s, a, b, path + (i,), out)
        elif k in ('rv', 'box'): self.pairs(s, G[1], V[1], path + ('d',), out)

def symbolic_iter(e, v):
    if v[0] == 'it':
        if v[1] in ('coll', 'bytes', 'seq'): return True
        return any(isinstance(x, tuple) and x and x[0] in ('it', 'agg') and symbolic_iter(e, x) for x in v[2:])
    if v[0] == 'agg' and v[1] is not None and e.ty(v[1])['k'] == 'adt' and e.ty(v[1])['path'].endswith('ops::range::Range'):
        f = v[3]
        return len(f) == 2 and f[0][0] == 'i' and f[1][0] == 'i' and not (f[0][1].is_const() and f[1][1].is_const() and f[1][1].c - f[0][1].c <= 40)
    return False

def mem_iter(e, v):
    if v[0] == 'it':
        if v[1] in ('coll', 'bytes', 'seq', 'list'): return True
        return any(isinstance(x, tuple) and x and x[0] == 'it' and mem_iter(e, x) for x in v[2:])
    return False

def finite_iter(e, v):
    if v[0] == 'it' and v[1] == 'list': return True
    if v[0] == 'it': return any(isinstance(x, tuple) and x and x[0] == 'it' and finite_iter(e, x) for x in v[2:])
    if v[0] == 'agg' and v[1] is not None and e.ty(v[1])['k'] == 'adt' and e.ty(v[1])['path'].endswith('ops::range::Range'): return True
    return False

def run_loop(e, st0, iterate, what):
    """iterate(state) -> (rets, exits, backs) ; returns (rets, exits)"""
    save = e.collect
    # first pass: what changes
    e.collect = False
    try: r, x, b = iterate(st0.copy())
    finally: e.collect = save
    if not b:
        return iterate(st0)[:2]
    sym = fin = False
    for s in b:
        for c, v in st0.cells.items():
            if v is not s.cells.get(c) and v != s.cells.get(c):
                if symbolic_iter(e, v): sym = True
                if finite_iter(e, v): fin = True
    if not sym and e.unroll_max:
        # bounded view: runs that need more repetitions are left out
        rets, exits, front = [], [], [st0.copy()]
        for i in range(e.unroll_max):
            nxt = []
            for s in front:
                r, x, b = iterate(s)
                rets += r
                exits += x
                nxt += b
            front = nxt
        e.cut += len(front)
        return rets, exits
    if sym and e.opts.get('unroll'):
        # the number of repetitions is known here
        e.collect = False
        try: res = unroll(e, st0, iterate, 6)
        finally: e.collect = save
        if res is not None: return unroll(e, st0, iterate, 6) if save else res
    if not sym:
        e.collect = False
        mark = (len(e.caps),)
        try:
            k = 64 if fin else 24 if e.opts.get('unroll') else 5
            res = unroll(e, st0, iterate, k)
        finally: e.collect = save
        if res is not None:
            if save: return unroll(e, st0, iterate, k)
            return res
    if e.opts.get('unroll') == 'strict': raise E.Undecided('a loop is not bounded by the bytes written')
    return generalise(e, st0, iterate, what)

def unroll(e, st0, iterate, n):
    rets, exits = [], []
    front = [st0.copy()]
    for i in range(n):
        nxt = []
        for s in front:
            r, x, b = iterate(s)
            rets += r
            exits += x
            nxt += b
        if not nxt: return rets, exits
        if len(nxt) > 64 or len(rets) + len(exits) > 400: return None
        front = nxt
    return None

def generalise(e, st0, iterate, what):
    key = e.newfid()
    g = Gen(e, key)
    save = e.collect
    e.collect = False
    cands = None
    try:
        for rnd in range(16):
            g.changed = False
            gs, gvals = build(e, g, st0, cands)
            r, x, b = iterate(gs.copy())
            for s in b:
                for c, G in gvals.items():
                    V = s.cells.get(c)
                    if V is None: V = ('top', 'lost')
                    if V is G: continue
                    g.match(s, G, V, (c,))
            if g.changed:
                cands = None
                continue
            # invariant candidates
            if cands is None:
                cands = candidates(e, g, st0, gs, gvals, b)
                cands = [c for c in cands if holds_init(g, st0, c)]
                if cands: continue
                break
            keep = [c for c in cands if all(holds_next(e, g, s, gvals, c) for s in b)]
            if len(keep) == len(cands): break
            cands = keep
            if not cands: continue
        else:
            raise E.Undecided('loop does not stabilise in ' + what)
    finally:
        e.collect = save
    gs, gvals = build(e, g, st0, cands)
    r, x, b = iterate(gs.copy())
    # per-iteration effects
    ids = {g.kid}
    for p, l in g.levels.items():
        if l == ('hv',): ids.add(g.hv(p).t[0][0])
        if l == ('sfx',): 
            ids.add(g.hv(p, True).t[0][0])
            if p[-1] == 's': ids.add(g.hv(p[:-1], True).t[0][0])
    lvkeys = set()
    deltas = {}
    notes = ()
    evs = []
    for s in b:
        out = []
        for c, G in gvals.items():
            V = s.cells.get(c)
            if V is not None: g.pairs(s, G, V, (c,), out)
        ctx = context(gs, s, ids)
        for p, kind, d in out:
            deltas.setdefault((p, kind), []).append((ctx, s, d))
        for n in s.imprecise:
            if n not in notes: notes += (n,)
        ev = s.events[len(gs.events):]
        evs.append((ctx, ev))
    log = {'what': what, 'stack': tuple(e.fname(i) for i in e.stack), 'backs': [], 'trips': [], 'collect': e.collect,
           'iter_mem': any(G != st0.cells[c] and mem_iter(e, G) for c, G in gvals.items())}
    for s in b:
        adv = []
        out = []
        for c, G in gvals.items():
            V = s.cells.get(c)
            if V is not None: g.pairs(s, G, V, (c,), out)
        for p, kind, d in out:
            if kind == 'sfx':
                q = p[:-1] if p[-1] == 's' else p
                dd = s.norm(d - g.hv(q, True))
                adv.append((s.implies(dd - 1), dd))
        log['backs'].append((adv, s))
    log['gvals'], log['init'], log['before'] = gvals, st0, gs
    e.looplog.append(log)
    res = []
    for kind, lst in (('r', r), ('x', x)):
        for item in lst:
            s = item if kind == 'r' else item[1]
            for n in notes: s.note(n)
            N = trip(g, s, ids)
            log['trips'].append((N, s))
            if len(evs) and any(ev for _, ev in evs): 
                pre = s.events[:len(gs.events)]
                s.events = pre + (('loop', N, tuple(ev for _, ev in evs)),) + s.events[len(gs.events):]
            if N is not None:
                m, lv = {g.kid: N}, {}
                a = N.single()
                # elements named generically belong to one collection
                T = None
                if a is not None and a[0] == 'len': T = a[1]
                driver = ('coll', T) if T is not None else ('range', N)
                for (p, kd), cs in deltas.items():
                    if kd == 'hv':
                        hid = g.hv(p).t[0][0]
                        L0 = g.init.get(p)
                        outs = []
                        for ctx, bs, V in cs:
                            d = bs.norm(V) - g.hv(p)
                            if mentions_ids(d, ids): outs = None; break
                            outs.append(ctx + (d,))
                        if outs is None or L0 is None or mentions_lv(outs, g.key): continue
                        if not elems_ok(outs, driver): s.note('elements of another collection'); continue
                        m[hid] = L0 + e.sum_over(driver, dedupe(outs))
                    elif kd == 'app':
                        outs = []
                        for ctx, bs, items in cs:
                            outs.append(ctx + (items,))
                        if mentions_ids(tuple(outs), ids) : continue
                        if not elems_ok(outs, driver): s.note('elements of another collection'); continue
                        lv[(g.key, p)] = ('star', driver, tuple(dedupe(outs)))
                subst_state(s, m, lv)
            res.append((kind, item))
    return [i for k, i in res if k == 'r'], [i for k, i in res if k == 'x']

def dedupe(outs):
    o = []
    for x in outs:
        if x not in o: o.append(x)
    if len(o) > 1 and all(y[3] == o[0][3] for y in o): o = [((), (), (), o[0][3])]
    return tuple(o)

def mentions_lv(x, key):
    if isinstance(x, Lin): return any(mentions_lv(ATOMS[a], key) for a, _ in x.t)
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'lvlen' and x[1][0] == key: return True
        return any(mentions_lv(y, key) for y in x)
    return False

def elem_terms(x, out):
    if isinstance(x, Lin):
        for a, _ in x.t: elem_terms(ATOMS[a], out)
    elif isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'elem': out.add(x[1])
        else:
            for y in x: elem_terms(y, out)

def elems_ok(outs, driver):
    s = set()
    for o in outs: elem_terms(o[3], s)
    if not s: return True
    if driver[0] == 'coll':
        # outer elements may appear below; the driving collection must cover what is named
        return all(t == driver[1] or contains_elem(driver[1]) for t in s)
    return False

def contains_elem(t):
    s = set()
    elem_terms((t,), s)
    return bool(s)

def context(gs, s, ids):
    facts = []
    for f in s.facts:
        if f not in gs.facts and not mentions_ids(f, ids): facts.append(f)
    for a, v in s.eqc.items():
        if a not in gs.eqc and a not in ids:
            one = Lin(-v, ((a, 1),))
            if not mentions_ids(ATOMS[a], ids): facts += [one, -one]
    va = tuple(sorted(((t, v) for t, v in s.variants.items() if t not in gs.variants and not mentions_ids(t, ids)), key=repr))
    pr = tuple(sorted(((t, v) for t, v in s.preds.items() if t not in gs.preds and not mentions_ids(t, ids)), key=repr))
    return (tuple(facts), va, pr)

def trip(g, s, ids):
    """number of complete iterations at this exit, as a quantity free of the loop's own atoms"""
    if g.kid in s.eqc: return Lin(s.eqc[g.kid])
    k = Lin(0, ((g.kid, 1),))
    for f in s.facts:
        d = dict(f.t)
        c = d.get(g.kid)
        if c not in (1, -1): continue
        B = (k - f) if c == 1 else (k + f)      # f = k - B  or  f = B - k
        if mentions_ids(B, ids): continue
        if s.implies(k - B) and s.implies(B - k): return B
    return None

def build(e, g, st0, cands):
    gs = st0.copy()
    gvals = {}
    for c, v in st0.cells.items():
        gvals[c] = gs.cells[c] = g.gval(v, (c,))
    ok = True
    if cands:
        for L in cands: ok = gs.add(L) and ok
    gs.invs = None if False else None
    return gs, gvals

def sub_init(g):
    m = {g.kid: ZERO}
    for p, l in g.levels.items():
        if l == ('hv',) and p in g.init: m[g.hv(p).t[0][0]] = g.init[p]
        if l == ('sfx',):
            q = p[:-1] if p[-1] == 's' else p
            m[g.hv(q, True).t[0][0]] = ZERO
    return m

def apply(L, m):
    out = Lin(L.c)
    for a, k in L.t:
        if a in m: out = out + m[a].scale(k)
        else: out = out + Lin(0, ((a, k),))
    return out

def holds_init(g, st0, c):
    return st0.implies(apply(c, sub_init(g)))

def holds_next(e, g, s, gvals, c):
    m = {g.kid: g.katom + 1}
    out = []
    for cell, G in gvals.items():
        V = s.cells.get(cell)
        if V is not None: g.pairs(s, G, V, (cell,), out)
    for p, kind, v in out:
        if kind == 'hv': m[g.hv(p).t[0][0]] = s.norm(v)
        elif kind == 'sfx': m[g.hv(p, True).t[0][0]] = s.norm(v)
    return s.implies(apply(c, m))

def candidates(e, g, st0, gs, gvals, b):
    out = []
    def walk(v0, G, path):
        k = G[0] if isinstance(G, tuple) and G else None
        if k == 'sl' and g.levels.get(path) == ('sfx',): out.append(G[3])
        elif k == 'bm':
            if (path + ('s',)) in g.levels: out.append(G[3])
        elif k == 'agg':
            if G[1] is not None and e.ty(G[1])['k'] == 'adt' and e.ty(G[1])['path'].endswith('ops::range::Range') and len(G[3]) == 2 and G[3][0][0] == 'i' and G[3][1][0] == 'i':
                out.append(G[3][1][1] - G[3][0][1])
            for i, x in enumerate(G[3]): walk(None, x, path + (i,))
        elif k == 'it':
            if G[1] == 'coll': out.append(e.lenof(G[2]) - G[-1])
            elif G[1] in ('bytes', 'seq'):
                n = e.length(gs, G[2])
                if n is not None: out.append(n - G[-1])
            for i, x in enumerate(G[1:]): walk(None, x, path + (i,))
        elif k == 'i':
            lvl = g.levels.get(path)
            if lvl == ('hv',):
                out.append(G[1] - g.init[path])
                out.append(g.init[path] - G[1])
                out.append(G[1])
        elif k in ('rv', 'box'): walk(None, G[1], path + ('d',))
    for c, G in gvals.items():
        if G != st0.cells[c]: walk(st0.cells[c], G, (c,))
    ids = {g.kid}
    for p, l in g.levels.items():
        if l == ('hv',): ids.add(g.hv(p).t[0][0])
    # guards of the back edges, seen one iteration later
    for s in b:
        for f in s.facts:
            if f in gs.facts: continue
            d = dict(f.t)
            if g.kid in d and not any(a in ids and a != g.kid for a in d) and not any(mentions_ids(ATOMS[a], ids) for a in d):
                out.append(f - d[g.kid])
    r = []
    for c in out:
        if c.t and c not in r: r.append(c)
    return r[:40]

def exec_loop(e, fr, head, st):
    region = fr.body.loops[head]
    def iterate(s):
        return e.walk(fr, head, s, region, head)
    return run_loop(e, st, iterate, '%s bb%d' % (fr.I['path'], head))

def fold_loop(e, cx, it, step, acc0):
    n = e.newfid()
    ci, ca = ('fl', n, 'it'), ('fl', n, 'acc')
    st = cx.st
    st.cells[ci] = it
    st.cells[ca] = acc0
    probe = e.nxt(cx, st.copy(), it)
    if probe is None: return None
    class Bad(Exception): pass
    def iterate(s):
        exits, backs = [], []
        for s1, x, i2 in e.nxt(cx, s, s.cells[ci]):
            if x is None:
                exits.append(('done', s1))
                continue
            s1.cells[ci] = i2
            res = step(s1, x, s1.cells[ca])
            if res is None: raise Bad()
            for s2, acc in res:
                s2.cells[ca] = acc
                backs.append(s2)
        return [], exits, backs
    try: r, x = run_loop(e, st, iterate, 'iterator in ' + (cx.fr.I['path'] if cx.fr else '?'))
    except Bad: return None
    out = []
    for _, s in x:
        v = s.cells.pop(ca)
        s.cells.pop(ci, None)
        out.append((s, v))
    return out
