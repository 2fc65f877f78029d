"""Models of the external functions the code under analysis calls (std, bytes, byteorder, hashbrown, chrono, uuid, string)."""
from lin import Lin, atom, atom_id, const, ZERO, ATOMS, BLO, BHI, bounds
import lin as _l

def I(n): return ('i', Lin(n) if isinstance(n, int) else n)
def B(c): return ('b', c)

SEC_LO, SEC_HI = -8334632851200, 8210298412799

def full(e, st, v):
    n = 0
    while v[0] in ('ref', 'rv') and n < 20:
        v = e.deref(st, v)
        n += 1
    return v

def arg(cx, i): return full(cx.e, cx.st, cx.args[i])

def place_of(e, st, v):
    """the memory location behind a chain of mutable references"""
    last = None
    n = 0
    while v[0] in ('ref', 'rv') and n < 20:
        n += 1
        if v[0] == 'ref':
            last = ['cell', v[1], list(v[2])]
            v = e.lread(st, last)
        else:
            last = ['val', v[1], []]
            v = v[1]
    return last, v

def unit(cx): return ('agg', cx.rty, 0, ())
def targ(e, tid, n): 
    t = e.ty(tid)
    return t['args'][n] if t['k'] == 'adt' and n < len(t['args']) else None
def some(cx, v): return ('agg', cx.rty, 1, (v,))
def none(cx): return ('agg', cx.rty, 0, ())
def ok(cx, v): return ('agg', cx.rty, 0, (v,))
def err(cx, v): return ('agg', cx.rty, 1, (v,))

def bytesof(cx, i):
    """argument as a byte slice"""
    v = arg(cx, i)
    return as_slice(cx.e, cx.st, v)

def as_slice(e, st, v):
    if v[0] == 'sl': return e.emit_slice(st, v) if v[1][0] == 'emit' and e.emit_slice is not None else v
    if v[0] == 'bm':
        if not v[4]: return ('sl', v[1], v[2], v[3], 'b')
        if v[3] == ZERO: return ('sl', ('emit', v[4]), ZERO, e.items_len(v[4]), 'b')
        return None
    if v[0] == 'own': return v[2]
    if v[0] == 't':
        t = e.ty(v[2])
        if t['k'] in ('slice', 'str') or e.is_text(v[2]) or (t['k'] == 'adt' and (t['path'] == 'alloc::vec::Vec' or e.is_newtype(v[2]))):
            et = e.elem_ty(v[2])
            if et is not None and not (e.ty(et)['k'] == 'int' and e.ty(et)['bits'] == 8): return None
            if et is None and t['k'] == 'adt' and not e.is_text(v[2]) and t['path'] in ('core::cell::Cell', 'ordered_float::OrderedFloat'): return None
            return ('sl', ('cont', v[1]), ZERO, e.lenof(v[1]), 'b')
        return None
    if v[0] == 'agg':
        t = e.ty(v[1]) if v[1] is not None else None
        if t and t['k'] == 'array':
            # an array of integers built element by element
            if all(x[0] == 'i' for x in v[3]):
                its = tuple(('int', 1, x[1]) for x in v[3])
                m = merge_reads([st.norm(x[1]) for x in v[3]])
                if m is not None: return m
                return ('sl', ('emit', its), ZERO, Lin(len(its)), 'b')
            return None
        if len(v[3]) == 1: return as_slice(e, st, full(e, st, v[3][0]))
    if v[0] == 'vec':
        if all(x[0] == 'one' and x[1][0] == 'i' for x in v[2]):
            its = tuple(('int', 1, x[1][1]) for x in v[2])
            return ('sl', ('emit', its), ZERO, Lin(len(its)), 'b')
    return None

def merge_reads(ls):
    """consecutive single byte reads of one region"""
    if not ls: return None
    a0 = ls[0].single()
    if a0 is None or a0[0] != 'rd' or a0[3] != 1: return None
    for i, L in enumerate(ls):
        a = L.single()
        if a is None or a[0] != 'rd' or a[3] != 1 or a[1] != a0[1] or a[2] != a0[2] + i: return None
    return ('sl', a0[1], a0[2], Lin(len(ls)), 'b')

def beq(cx, a, b):
    """condition: two byte sequences are equal"""
    e, st = cx.e, cx.st
    if a == b: return True
    if b[1][0] != 'const' and a[1][0] == 'const': a, b = b, a
    d = st.norm(a[3] - b[3])
    if d.is_const() and d.c != 0: return False
    if b[1][0] == 'const' and b[2].is_const() and b[3].is_const():
        y = b[1][1][b[2].c:b[2].c + b[3].c]
        if a[1][0] == 'const' and a[2].is_const() and a[3].is_const():
            return a[1][1][a[2].c:a[2].c + a[3].c] == y
        k = ('sl', a[1], st.norm(a[2]), st.norm(a[3]))
        return ('p', ('beq', k, y))
    if a[1] == b[1] and st.equal(a[2], b[2]) and st.equal(a[3], b[3]): return True
    x, y = ('sl', a[1], st.norm(a[2]), st.norm(a[3])), ('sl', b[1], st.norm(b[2]), st.norm(b[3]))
    return ('p', ('eqv',) + tuple(sorted((x, y), key=repr)))

def split(cx, cond, yes, no):
    out = []
    for s in cx.st.copy().assume(cond): out.append((s, yes))
    for s in cx.st.copy().assume(neg(cond)): out.append((s, no))
    return out

def neg(c):
    from eng import neg as n
    return n(c)

def table(e):
    T = {}
    def reg(*names):
        def d(f):
            for n in names: T[n] = f
            return f
        return d

    # ----- control
    @reg('<core::result::Result<T, E> as core::ops::try_trait::Try>::branch')
    def branch(cx):
        v = arg(cx, 0)
        for s, vi, pay in variants2(cx, v, cx.f['args'][0]):
            pass
        out = []
        for s, vi, pay in variants2(cx, v, cx.f['args'][0]):
            if vi == 0: out.append((s, ('agg', cx.rty, 0, (pay,))))
            else: out.append((s, ('agg', cx.rty, 1, (('agg', e.ty(cx.rty)['args'][0], 1, (pay,)),))))
        return out

    @reg('<core::option::Option<T> as core::ops::try_trait::Try>::branch')
    def branch_o(cx):
        v = arg(cx, 0)
        out = []
        for s, vi, pay in variants2(cx, v, cx.f['args'][0]):
            if vi == 1: out.append((s, ('agg', cx.rty, 0, (pay,))))
            else: out.append((s, ('agg', cx.rty, 1, (('agg', e.ty(cx.rty)['args'][0], 0, ()),))))
        return out

    def variants2(cx, v, tid):
        """the two cases of an Option / Result: (state, variant, payload)"""
        if v[0] == 'agg': return [(cx.st, v[2], v[3][0] if v[3] else None)]
        if v[0] == 't':
            out = []
            e.enums[v[1]] = v[2]
            t = e.ty(v[2])
            isopt = t['path'] == 'core::option::Option'
            for vi in (0, 1):
                s = cx.st.copy()
                if e.set_variant(s, v[1], v[2], vi):
                    pay = None
                    if not (isopt and vi == 0):
                        pt = t['args'][0] if isopt else t['args'][vi]
                        nm = 'Some' if isopt else ('Ok', 'Err')[vi]
                        pay = e.mk(('fld', v[1], nm, '0'), pt)
                    out.append((s, vi, pay))
            return out
        # unknown: both, with unknown payloads
        cx.st.note('match on unmodelled value')
        t = e.ty(tid)
        isopt = t['path'] == 'core::option::Option'
        key = ('opq', 'payload', e.term(v))
        out = []
        for vi in (0, 1):
            s = cx.st.copy()
            pay = None if (isopt and vi == 0) else e.mk(key + (vi,), t['args'][0 if isopt else vi])
            out.append((s, vi, pay))
        return out
    e.variants2 = variants2

    @reg('<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual',
         '<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<core::convert::Infallible, E>>>::from_residual')
    def from_residual(cx):
        v = arg(cx, 0)
        ev = v[3][0] if v[0] == 'agg' and v[3] else None
        if ev is None: ev = e.mk(('opq', 'residual', e.term(v)), e.ty(cx.rty)['args'][1])
        ft = e.ty(cx.rty)['args'][1]
        st_ = e.ty(cx.f['args'][2] if len(cx.f['args']) > 2 else cx.f['args'][-1])
        et = None
        for a in cx.f['args']:
            t = e.ty(a)
            if t['k'] == 'adt' and t['path'] == 'core::result::Result' and a != cx.rty and e.ty(t['args'][0])['k'] in ('never', 'adt') and e.ts(t['args'][0]) in ('!', 'std::convert::Infallible'):
                et = t['args'][1]
        if et is None: et = e.vty(ev)
        return [(s, err(cx, x)) for s, x in convert(cx, ev, et, ft)]

    @reg('<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<core::convert::Infallible>>>::from_residual',
         '<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual')
    def from_residual_o(cx): return [(cx.st, none(cx))]

    def convert(cx, v, frm, to, st=None):
        from eng import strip_lt
        st = st or cx.st
        if frm is None: return [(st, e.mk(('opq', 'from', e.term(v)), to))]
        fs, ts = strip_lt(e.ts(frm)), strip_lt(e.ts(to))
        if fs == ts: return [(st, v)]
        i = e.from_impl.get((ts, fs))
        if i is not None and e.stack.count(i) < 2: return e.run(i, [v], st)
        a, b = e.ty(frm), e.ty(to)
        if a['k'] == 'int' and b['k'] == 'int' and v[0] == 'i': return [(st, v)]
        if a['k'] == 'char' and b['k'] == 'int': return [(st, v)]
        if b['k'] == 'adt' and b['path'] == 'core::option::Option' and b['args'][0] == frm: return [(st, ('agg', to, 1, (v,)))]
        if e.is_text(to):
            s = as_slice(e, st, full(e, st, v))
            if s is not None: return [(st, ('own', 'text', s))]
        return [(st, e.mk(('conv', ts, e.term(v)), to))]
    e.convert = convert

    @reg('<T as core::convert::Into<U>>::into')
    def into(cx): return convert(cx, cx.args[0], cx.f['args'][0], cx.f['args'][1])
    @reg('core::convert::Into::into')
    def into2(cx):
        if e.ty(cx.f['args'][0])['k'] == 'param': return [(cx.st, e.mk(('into', e.ts(cx.rty), e.term(cx.args[0])), cx.rty))]
        return convert(cx, cx.args[0], cx.f['args'][0], cx.f['args'][1])
    @reg('<T as core::convert::From<T>>::from')
    def from_id(cx): return [(cx.st, cx.args[0])]

    def ident(cx): return [(cx.st, cx.args[0])]
    for n in ('core::hint::must_use', '<I as core::iter::traits::collect::IntoIterator>::into_iter', 'core::hint::black_box', 'core::convert::identity'):
        T[n] = ident

    # ----- clones, refs, defaults
    @reg('core::clone::Clone::clone')
    def clone(cx):
        i = cx.f.get('inst')
        if i is not None and not e.P.inst[i]['derived']: return None
        return [(cx.st, e.deref(cx.st, cx.args[0]))]
    for n in ('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::ops::deref::Deref::deref', 'core::borrow::ToOwned::to_owned',
              'alloc::vec::Vec::<T, A>::as_slice', 'core::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec', 'core::ops::deref::DerefMut::deref_mut'):
        def h(cx, n=n):
            if cx.f.get('inst') is not None: return None
            v = arg(cx, 0)
            t = e.ty(cx.rty)
            if n.endswith('_mut') and cx.args[0][0] == 'ref' and v[0] in ('vec', 'map', 'bm', 'own', 't'):
                # writes through the result change the original
                if v[0] == 'vec' or v[0] == 't' and e.ty(v[2]).get('path') == 'alloc::vec::Vec' or v[0] == 't' and e.ty(v[2]).get('path') == 'std::vec::Vec': return [(cx.st, cx.args[0])]
                if v[0] != 't' or e.ty(v[2])['k'] == 'adt' and e.is_text(v[2]): return None
            if t['k'] == 'ref':
                to = e.ty(t['to'])
                if to['k'] in ('str',) or (to['k'] == 'slice' and e.ty(to['elem']).get('bits') == 8):
                    s = as_slice(e, cx.st, v)
                    if s is not None:
                        if to['k'] == 'str' or v[0] == 'sl' and v[4] == 's' or v[0] == 't' and (e.ty(v[2])['k'] == 'str' or e.is_text(v[2]) and e.ty(v[2])['path'] != 'bytes::bytes::Bytes'):
                            cx.st.setpred(('utf8', s[1], s[2], s[3]), True)
                        return [(cx.st, s[:4] + ('s' if to['k'] == 'str' else 'b',))]
                    return None
                if v[0] == 'vec': return [(cx.st, ('vsl', v))]
                if v[0] == 't':
                    vt = e.ty(v[2])
                    if vt['k'] == 'adt' and e.is_newtype(v[2]) and vt['path'].startswith(('ordered_float', 'alloc::boxed')):
                        return [(cx.st, ('rv', e.mk(v[1], t['to'])))]
                    if to['k'] == 'slice': return [(cx.st, v)]
                    if e.vty(v) == t['to'] or n.endswith(('as_ref', 'borrow')): return [(cx.st, cx.args[0])]
                if v[0] == 'agg' and v[1] is not None:
                    vt = e.ty(v[1])
                    if vt['k'] == 'adt' and vt['path'].startswith('ordered_float'): return [(cx.st, ('rv', v[3][0]))]
                    if vt['k'] == 'array': return [(cx.st, ('rv', v))]
                if v[0] == 'box': return [(cx.st, ('rv', v[1]))]
                return None
            s = as_slice(e, cx.st, v)
            if s is not None: return [(cx.st, ('own', 'owned', s))]
            return None
        T[n] = h

    @reg('core::default::Default::default')
    def default(cx):
        if cx.f.get('inst') is not None: return None
        return dflt(cx, cx.rty)
    def dflt(cx, tid):
        t = e.ty(tid)
        if t['k'] == 'int': return [(cx.st, I(0))]
        if t['k'] == 'bool': return [(cx.st, B(False))]
        if t['k'] == 'tuple' and not t['elems']: return [(cx.st, ('agg', tid, 0, ()))]
        if t['k'] == 'adt':
            p = t['path']
            if p == 'core::option::Option': return [(cx.st, ('agg', tid, 0, ()))]
            if p == 'alloc::vec::Vec': return [(cx.st, ('vec', tid, ()))]
            if p == 'hashbrown::map::HashMap': return [(cx.st, ('map', tid, ()))]
            if p == 'core::cell::Cell': return dflt(cx, t['args'][0])
            if p in ('bytes::bytes::Bytes', 'string::String', 'alloc::string::String'): return [(cx.st, ('own', 'owned', ('sl', ('const', b''), ZERO, ZERO, 'b')))]
            if p == 'core::hash::BuildHasherDefault': return [(cx.st, ('agg', tid, 0, ()))]
        return None
    for n in ('<alloc::vec::Vec<T> as core::default::Default>::default', '<core::cell::Cell<T> as core::default::Default>::default',
              '<core::hash::BuildHasherDefault<H> as core::default::Default>::default', '<core::option::Option<T> as core::default::Default>::default'):
        T[n] = default

    # ----- integers
    @reg('core::cmp::min', 'core::cmp::Ord::min')
    def cmin(cx): return minmax(cx, True)
    @reg('core::cmp::max', 'core::cmp::Ord::max')
    def cmax(cx): return minmax(cx, False)
    def minmax(cx, mn):
        a, b = cx.args[0], cx.args[1]
        if a[0] != 'i' or b[0] != 'i': return None
        c = e.fold(cx.st, ('ge', cx.st.norm(b[1] - a[1])))   # a <= b
        t = cx.st.tv(c) if c not in (True, False) else c
        lo, hi = (a, b) if mn else (b, a)
        if t is True: return [(cx.st, lo)]
        if t is False: return [(cx.st, hi)]
        return split(cx, c, lo, hi)

    def euclid(cx):
        a, b = cx.args[0], cx.args[1]
        if a[0] != 'i' or b[0] != 'i' or not b[1].is_const() or b[1].c <= 0: return None
        return fdiv(cx.st, cx.st.norm(a[1]), b[1].c)
    fdiv = e.fdiv
    for w in ('i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize'):
        pre = 'core::num::<impl %s>::' % w
        bits = 64 if w.endswith('size') else int(w[1:])
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if w[0] == 'i' else (0, (1 << bits) - 1)
        def div_e(cx):
            q = euclid(cx)
            return None if q is None else [(cx.st, ('i', q))]
        def rem_e(cx):
            q = euclid(cx)
            return None if q is None else [(cx.st, ('i', cx.st.norm(cx.args[0][1] - q.scale(cx.args[1][1].c))))]
        T[pre + 'div_euclid'] = div_e
        T[pre + 'rem_euclid'] = rem_e
        def mkop(op, mode, lo=lo, hi=hi):
            def f(cx):
                a, b = cx.args[0], cx.args[1]
                if a[0] != 'i' or b[0] != 'i': return None
                x, y = cx.st.norm(a[1]), cx.st.norm(b[1])
                if op == '+': r = x + y
                elif op == '-': r = x - y
                else:
                    if x.is_const(): r = y.scale(x.c)
                    elif y.is_const(): r = x.scale(y.c)
                    else: return None
                fits = ('and', ('ge', r - lo), ('ge', Lin(hi) - r))
                tv = cx.st.tv(fits)
                if mode == 'checked':
                    if tv is True: return [(cx.st, some(cx, ('i', r)))]
                    if tv is False: return [(cx.st, none(cx))]
                    return split(cx, fits, some(cx, ('i', r)), none(cx))
                if tv is True:
                    v = ('i', r)
                    return [(cx.st, v if mode != 'overflowing' else ('agg', cx.rty, 0, (v, B(False))))]
                if mode == 'saturating':
                    out = []
                    for s in cx.st.copy().assume(fits): out.append((s, ('i', r)))
                    for s in cx.st.copy().assume(('ge', Lin(lo - 1) - r)): out.append((s, I(lo)))
                    for s in cx.st.copy().assume(('ge', r - hi - 1)): out.append((s, I(hi)))
                    return out
                if mode == 'wrapping':
                    if r.is_const(): return [(cx.st, I((r.c - lo) % (hi - lo + 1) + lo))]
                    return [(cx.st, ('i', atom(('wrap', hi - lo + 1, r, lo), lo, hi)))]
                return None
            return f
        def signs(cx, f, lo=lo):
            a = cx.args[0]
            if a[0] != 'i': return None
            x = cx.st.norm(a[1])
            out = []
            for c, k in ((('ge', x - 1), 1), (('and', ('ge', x), ('ge', -x)), 0), (('ge', -x - 1), -1)):
                for s in cx.st.copy().assume(c): out += f(s, x, k)
            return out
        if w[0] == 'i':
            def absf(cx, lo=lo):
                if cx.args[0][0] == 'i': e.obligation(cx.st, 'overflow', [cx.st.norm(cx.args[0][1]) - lo - 1], 'absolute value')
                return signs(cx, lambda s, x, k: [(s, ('i', x if k >= 0 else -x))])
            T[pre + 'abs'] = absf
            T[pre + 'unsigned_abs'] = lambda cx: signs(cx, lambda s, x, k: [(s, ('i', x if k >= 0 else -x))])
            T[pre + 'signum'] = lambda cx: signs(cx, lambda s, x, k: [(s, I(k))])
            T[pre + 'is_negative'] = lambda cx: signs(cx, lambda s, x, k: [(s, B(k < 0))])
            T[pre + 'is_positive'] = lambda cx: signs(cx, lambda s, x, k: [(s, B(k > 0))])
        for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*')):
            for mode in ('checked', 'saturating', 'wrapping', 'overflowing'):
                T[pre + mode + '_' + nm] = mkop(op, mode)
        def be(cx, w=w, bits=bits):
            if cx.args[0][0] != 'i': return None
            its = (('int', bits // 8, cx.st.norm(cx.args[0][1])),)
            return [(cx.st, ('sl', ('emit', its), ZERO, Lin(bits // 8), 'b'))]
        T[pre + 'to_be_bytes'] = be
        def le(cx, w=w, bits=bits):
            if cx.args[0][0] != 'i': return None
            its = (('intle' if bits > 8 else 'int', bits // 8, cx.st.norm(cx.args[0][1])),)
            return [(cx.st, ('sl', ('emit', its), ZERO, Lin(bits // 8), 'b'))]
        T[pre + 'to_le_bytes'] = le
        T[pre + 'to_ne_bytes'] = le
        def fle(cx, w=w, bits=bits):
            s = as_slice(e, cx.st, arg(cx, 0))
            if s is None: return None
            return [(cx.st, ('i', read_le(cx.st, s, bits // 8, w[0] == 'i')))]
        T[pre + 'from_le_bytes'] = fle
        T[pre + 'from_ne_bytes'] = fle
        def fbe(cx, w=w, bits=bits):
            s = as_slice(e, cx.st, arg(cx, 0))
            if s is None: return None
            return [(cx.st, ('i', e.read(cx.st, s[1], s[2], bits // 8, w[0] == 'i')))]
        T[pre + 'from_be_bytes'] = fbe
        T[pre + 'min_value'] = lambda cx, lo=lo: [(cx.st, I(lo))]
        T[pre + 'max_value'] = lambda cx, hi=hi: [(cx.st, I(hi))]
        def swap(cx): return None
    @reg('core::convert::From::from')
    def from_num(cx):
        if cx.f.get('inst') is not None: return None
        p = cx.f.get('rpath') or ''
        if p.startswith('core::convert::num::') and cx.args[0][0] in ('i', 'b'):
            if cx.args[0][0] == 'b': return None
            return [(cx.st, cx.args[0])]
        if e.ty(cx.rty)['k'] == 'int' and cx.args[0][0] == 'i': return [(cx.st, cx.args[0])]
        if e.is_text(cx.rty):
            s = as_slice(e, cx.st, arg(cx, 0))
            if s is not None: return [(cx.st, ('own', 'text', s))]
        if len(cx.f['args']) > 1: return convert(cx, cx.args[0], cx.f['args'][1], cx.f['args'][0])
        return None
    @reg('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
    def try_from(cx):
        if cx.f.get('inst') is not None: return None
        t = e.ty(cx.rty)
        if cx.args[0][0] == 'i' and t.get('path') == 'core::result::Result' and e.ty(t['args'][0])['k'] == 'int':
            from eng import tybounds
            lo, hi = tybounds(e.ty(t['args'][0]))
            x = cx.st.norm(cx.args[0][1])
            fits = ('and', ('ge', x - lo), ('ge', Lin(hi) - x))
            good = ok(cx, ('i', x))
            bad = err(cx, e.mk(('opq', 'tryfromint', x), t['args'][1]))
            tv = cx.st.tv(fits)
            if tv is True: return [(cx.st, good)]
            if tv is False: return [(cx.st, bad)]
            return split(cx, fits, good, bad)
        return None

    # ----- slices and text
    @reg('core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::vec::Vec::<T, A>::len', 'bytes::bytes::Bytes::len', 'bytes::bytes::BytesMut::len',
         'hashbrown::map::HashMap::<K, V, S>::len', 'alloc::string::String::len', 'core::iter::traits::exact_size::ExactSizeIterator::len')
    def length(cx):
        v = arg(cx, 0)
        if v[0] == 'it': return None
        n = e.length(cx.st, v)
        if n is None: return None
        return [(cx.st, ('i', cx.st.norm(n)))]
    @reg('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty', 'bytes::bytes::Bytes::is_empty',
         'bytes::bytes::BytesMut::is_empty', 'hashbrown::map::HashMap::<K, V, S>::is_empty')
    def is_empty(cx):
        n = e.length(cx.st, arg(cx, 0))
        if n is None: return None
        return [(cx.st, B(e.fold(cx.st, ('eq', cx.st.norm(n)))))]
    @reg('core::str::<impl str>::as_bytes', 'alloc::string::String::as_bytes', 'alloc::string::String::as_str')
    def as_bytes(cx):
        s = bytesof(cx, 0)
        if s is None: return None
        cx.st.setpred(('utf8', s[1], s[2], s[3]), True)
        return [(cx.st, s[:4] + ('b',))]
    @reg('core::slice::<impl [T]>::split_at')
    def split_at(cx):
        s = bytesof(cx, 0)
        m = cx.args[1]
        if s is None or m[0] != 'i': 
            e.obligation(cx.st, 'split_at', None, 'split_at of unmodelled slice')
            return None
        e.obligation(cx.st, 'split_at', [s[3] - m[1]], 'split_at(%r) of length %r' % (cx.st.norm(m[1]), cx.st.norm(s[3])))
        tid = cx.rty
        return [(x, ('agg', tid, 0, (('sl', s[1], s[2], m[1], s[4]), ('sl', s[1], s[2] + m[1], s[3] - m[1], s[4])))) for x in cx.st.assume(('ge', s[3] - m[1]))]
    @reg('core::slice::<impl [T]>::split_first')
    def split_first(cx):
        s = bytesof(cx, 0)
        if s is None: return None
        out = []
        for x in cx.st.copy().assume(('ge', s[3] - 1)):
            v = ('agg', targ(e, cx.rty, 0), 0, (('rv', ('i', e.read(x, s[1], s[2], 1, False))), ('sl', s[1], s[2] + 1, s[3] - 1, s[4])))
            out.append((x, some(cx, v)))
        for x in cx.st.copy().assume(('ge', -s[3])): out.append((x, none(cx)))
        return out
    @reg('core::slice::<impl [T]>::first')
    def first(cx): return at_opt(cx, ZERO)
    @reg('core::slice::<impl [T]>::last')
    def last(cx):
        n = e.length(cx.st, arg(cx, 0))
        return None if n is None else at_opt(cx, n - 1)
    def at_opt(cx, L):
        v = arg(cx, 0)
        n = e.length(cx.st, v)
        if n is None: return None
        out = []
        for x in cx.st.copy().assume(('and', ('ge', n - L - 1), ('ge', L))): out.append((x, some(cx, ('rv', e.elem(x, v, L)))))
        for x in cx.st.copy().assume(('or', ('ge', L - n), ('ge', -L - 1))): out.append((x, none(cx)))
        return out
    def rng(cx, idx, tid, n):
        """(start, end, conditions) of a range index value"""
        t = e.ty(tid)
        if t['k'] != 'adt' or idx[0] != 'agg': return None
        p = t['path'].rsplit('::', 1)[1]
        f = idx[3]
        if any(x[0] != 'i' for x in f[:2] if p != 'RangeFull'): return None
        if p == 'Range': return f[0][1], f[1][1]
        if p == 'RangeFrom': return f[0][1], n
        if p == 'RangeTo': return ZERO, f[0][1]
        if p == 'RangeFull': return ZERO, n
        if p == 'RangeToInclusive': return ZERO, f[0][1] + 1
        if p == 'RangeInclusive': return f[0][1], f[1][1] + 1
        return None
    @reg('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', '<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', 'core::ops::index::Index::index',
         'core::str::traits::<impl core::ops::index::Index<I> for str>::index')
    def index(cx):
        if cx.f.get('inst') is not None: return None
        v = arg(cx, 0)
        idx = arg(cx, 1)
        n = e.length(cx.st, v)
        it = cx.f['args'][-1]
        if n is None:
            e.obligation(cx.st, 'index', None, 'index of unmodelled value')
            return None
        if idx[0] == 'i':
            e.obligation(cx.st, 'index', [n - idx[1] - 1, idx[1]], 'index %r of length %r' % (cx.st.norm(idx[1]), cx.st.norm(n)))
            return [(x, ('rv', e.elem(x, v, idx[1]))) for x in cx.st.assume(('ge', n - idx[1] - 1))]
        it = next((a for a in reversed(cx.f['args']) if e.ty(a)['k'] == 'adt' and 'ops::range' in e.ty(a)['path']), it)
        r = rng(cx, idx, it, n)
        s = as_slice(e, cx.st, v)
        if s is None and r is not None and e.ty(it)['path'].endswith('RangeFull') and v[0] in ('t', 'vec', 'vsl'):
            return [(cx.st, ('vsl', v) if v[0] == 'vec' else v)]
        if r is None or s is None:
            e.obligation(cx.st, 'index', None, 'range index')
            return None
        a, b = r
        e.obligation(cx.st, 'range', [n - b, b - a, a], 'range %r..%r of length %r' % (cx.st.norm(a), cx.st.norm(b), cx.st.norm(n)))
        out = []
        for x in cx.st.assume(('and', ('ge', n - b), ('ge', b - a))):
            out.append((x, ('sl', s[1], s[2] + a, b - a, s[4])))
        return out
    @reg('core::slice::<impl [T]>::get', 'core::str::<impl str>::get')
    def get(cx):
        v = arg(cx, 0)
        idx = arg(cx, 1)
        if idx[0] == 'i': return at_opt(cx, idx[1])
        n = e.length(cx.st, v)
        s = as_slice(e, cx.st, v)
        it = next((a for a in reversed(cx.f['args']) if e.ty(a)['k'] == 'adt' and 'ops::range' in e.ty(a)['path']), None)
        if n is None or s is None or it is None: return None
        r = rng(cx, idx, it, n)
        if r is None: return None
        a, b = r
        c = ('and', ('ge', n - b), ('ge', b - a))
        return split(cx, c, some(cx, ('sl', s[1], s[2] + a, b - a, s[4])), none(cx))
    @reg('core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::starts_with')
    def starts(cx):
        s, p = bytesof(cx, 0), bytesof(cx, 1)
        if s is None or p is None: return None
        c = ('and', ('ge', s[3] - p[3]), beq(cx, ('sl', s[1], s[2], p[3], 'b'), p))
        return [(cx.st, B(c))]
    @reg('core::slice::<impl [T]>::ends_with', 'core::str::<impl str>::ends_with')
    def ends(cx):
        s, p = bytesof(cx, 0), bytesof(cx, 1)
        if s is None or p is None: return None
        out = []
        for x in cx.st.copy().assume(('ge', p[3] - s[3] - 1)): out.append((x, B(False)))
        for x in cx.st.copy().assume(('ge', s[3] - p[3])):
            cx.st = x
            out.append((x, B(beq(cx, ('sl', s[1], s[2] + s[3] - p[3], p[3], 'b'), p))))
        return out
    @reg('core::str::converts::from_utf8', 'core::str::<impl str>::from_utf8')
    def from_utf8(cx):
        s = bytesof(cx, 0)
        if s is None: return None
        k = ('utf8', s[1], cx.st.norm(s[2]), cx.st.norm(s[3]))
        g = ok(cx, s[:4] + ('s',))
        b = err(cx, e.mk(('utf8err', s[1], s[2], s[3]), targ(e, cx.rty, 1)))
        if s[1][0] == 'const' and s[2].is_const() and s[3].is_const():
            try:
                s[1][1][s[2].c:s[2].c + s[3].c].decode('utf8')
                return [(cx.st, g)]
            except UnicodeDecodeError: return [(cx.st, b)]
        cx.st.ev(('utf8', s[1], k[2], k[3]))
        return split(cx, ('p', k), g, b) if cx.st.getpred(k) is None else [(cx.st, g if cx.st.getpred(k) else b)]
    @reg('core::str::error::Utf8Error::valid_up_to')
    def valid_up_to(cx):
        v = arg(cx, 0)
        if v[0] != 't' or not (isinstance(v[1], tuple) and v[1][0] == 'utf8err'): return None
        _, b, s, n = v[1]
        L = atom(('v', ('validupto', b, s, n), 0, 1 << 62), 0, 1 << 62)
        out = []
        for t in cx.st.copy().assume(('ge', n - L - 1)):
            t.setpred(('utf8', b, t.norm(s), t.norm(L)), True)
            out.append((t, ('i', L)))
        return out
    @reg('core::char::from_u32', 'core::char::methods::<impl char>::from_u32', 'core::char::convert::from_u32')
    def from_u32(cx):
        if cx.args[0][0] != 'i': return None
        L = cx.st.norm(cx.args[0][1])
        a = L.single()
        if L.is_const():
            good = 0 <= L.c <= 0x10ffff and not 0xd800 <= L.c <= 0xdfff
            return [(cx.st, some(cx, ('i', L)) if good else none(cx))]
        if a is not None and a[0] == 'v' and bounds(L)[1] == 0x10ffff: return [(cx.st, some(cx, ('i', L)))]
        cx.st.ev(('charcheck', L))
        out = []
        s = cx.st.copy()
        if s.add(Lin(0x10ffff) - L) and s.setpred(('scalar', L), True): out.append((s, some(cx, ('i', L))))
        s = cx.st.copy()
        if s.setpred(('scalar', L), False): out.append((s, none(cx)))
        return out
    def read_le(st, s, w, sg):
        if w == 1: return e.read(st, s[1], s[2], 1, sg)
        return atom(('fromle', sg, ('rd', s[1], st.norm(s[2]), w)), -(1 << (8 * w - 1)) if sg else 0, (1 << (8 * w - sg)) - 1)
    def little(cx): return 'Little' in (cx.f.get('rpath') or '') + ' '.join(e.ts(x) for x in cx.f['args'] if isinstance(x, int))
    for nm, w, sg in (('u16', 2, False), ('u32', 4, False), ('u64', 8, False), ('i16', 2, True), ('i32', 4, True), ('i64', 8, True)):
        def rd(cx, w=w, sg=sg, nm=nm):
            s = bytesof(cx, 0)
            if s is None:
                e.obligation(cx.st, 'read', None, 'read_%s of unmodelled bytes' % nm)
                return None
            e.obligation(cx.st, 'read', [s[3] - w], 'read_%s from %r bytes' % (nm, cx.st.norm(s[3])))
            if little(cx): return [(x, ('i', read_le(x, s, w, sg))) for x in cx.st.assume(('ge', s[3] - w))]
            return [(x, ('i', e.read(x, s[1], s[2], w, sg))) for x in cx.st.assume(('ge', s[3] - w))]
        T['byteorder::ByteOrder::read_' + nm] = rd
    for nm, w in (('f32', 4), ('f64', 8)):
        def rdf(cx, w=w):
            s = bytesof(cx, 0)
            if s is None: return None
            e.obligation(cx.st, 'read', [s[3] - w], 'read_f from %r bytes' % (cx.st.norm(s[3]),))
            out = []
            for x in cx.st.assume(('ge', s[3] - w)):
                r = e.read_float(x, s[1], s[2], w) if not little(cx) else ('rdfle', s[1], x.norm(s[2]), w)
                out.append((x, ('t', r, cx.rty)))
            return out
        T['byteorder::ByteOrder::read_' + nm] = rdf

    for nm, w in (('f32', 4), ('f64', 8)):
        for pre in ('core::num::<impl %s>::' % nm, 'core::%s::<impl %s>::' % (nm, nm), 'std::%s::<impl %s>::' % (nm, nm)):
            def tobits(cx, w=w):
                return [(cx.st, ('i', atom(('fbits', e.term(arg(cx, 0)), w), 0, 256 ** w - 1)))]
            def frombits(cx, w=w):
                v = cx.args[0]
                if v[0] != 'i': return None
                a = cx.st.norm(v[1]).single()
                if a is not None and a[0] == 'rd' and a[3] == w: return [(cx.st, ('t', ('rdf',) + a[1:], cx.rty))]
                if a is not None and a[0] == 'fromle': return [(cx.st, ('t', ('rdfle',) + a[2][1:], cx.rty))]
                if a is not None and a[0] == 'fbits': return [(cx.st, e.mk(a[1], cx.rty))]
                return [(cx.st, ('t', ('frombits', cx.st.norm(v[1])), cx.rty))]
            T[pre + 'to_bits'] = tobits
            T[pre + 'from_bits'] = frombits

    # equality of values
    @reg('core::cmp::PartialEq::eq')
    def eq(cx): return eqv(cx, False)
    @reg('core::cmp::PartialEq::ne')
    def ne(cx): return eqv(cx, True)
    def eqv(cx, n):
        i = cx.f.get('inst')
        a, b = arg(cx, 0), arg(cx, 1)
        ta, tb = cx.f['args'][0], cx.f['args'][1] if len(cx.f['args']) > 1 else cx.f['args'][0]
        while e.ty(ta)['k'] == 'ref': ta = e.ty(ta)['to']
        while e.ty(tb)['k'] == 'ref': tb = e.ty(tb)['to']
        from eng import strip_lt
        if i is None:
            i = e.eq_impl.get((strip_lt(e.ts(ta)), strip_lt(e.ts(tb))))
        if i is not None and e.P.inst[i]['derived']:
            i = None
        if i is not None:
            if e.stack.count(i) >= 1 and not e.opts_watch: return None
            r = e.run(i, [rvref(a), rvref(b)], cx.st)
            if not n: return r
            return [(s, B(neg(v[1])) if v[0] == 'b' else v) for s, v in r]
        c = None
        if e.ty(ta).get('path') == 'core::cell::Cell' and ta == tb:
            ta = tb = e.ty(ta)['args'][0]
            a, b = (e.mk(('cellval', v[1]), ta) if v[0] == 't' and e.ty(v[2]).get('path') == 'core::cell::Cell' else v for v in (a, b))
        if e.opts_watch and e.ty(ta).get('path') == 'string::String' and e.ty(tb)['k'] == 'str':
            # string 0.1: `impl PartialEq<str> for String<T>` is `&*self == other`, which is itself
            e.endless.append((['<string::String<T> as PartialEq<str>>::eq (string 0.1, calls itself)'], (e.term(a), e.term(b))))
            return []
        if a[0] == 'i' and b[0] == 'i' or a[0] == 'b' and b[0] == 'b': c = e.cmp(cx.st, 'Eq', a, b)
        elif a[0] == b[0] == 'agg' and a[1] == b[1] and a[2] != b[2] and e.ty(a[1]).get('path') in ('core::option::Option', 'core::result::Result'): c = False
        elif e.unitish(ta):
            x, y = e.discr(cx.st, a), e.discr(cx.st, b)
            c = e.cmp(cx.st, 'Eq', x, y)
        else:
            x, y = as_slice(e, cx.st, a), as_slice(e, cx.st, b)
            if x is not None and y is not None: c = beq(cx, x, y)
        if c is None:
            x, y = e.term(a), e.term(b)
            cx.st.ev(('eq', strip_lt(e.ts(ta)), x, y))
            c = True if x == y else ('p', ('eqv',) + tuple(sorted((x, y), key=repr)))
        return [(cx.st, B(neg(c) if n else c))]
    def rvref(v): return v if v[0] in ('sl', 'vsl') else ('rv', v)
    @reg('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
    def ocmp(cx):
        if cx.f.get('inst') is not None: return None
        a, b = arg(cx, 0), arg(cx, 1)
        opt = e.ty(cx.rty)['path'] == 'core::option::Option'
        ot = targ(e, cx.rty, 0) if opt else cx.rty
        if not e.ty(ot).get('path', '').endswith('Ordering'): return None
        wrap = (lambda v: some(cx, v)) if opt else (lambda v: v)
        if a[0] == 'i' and b[0] == 'i':
            out = []
            for n, c in enumerate((('ge', b[1] - a[1] - 1), ('eq', a[1] - b[1]), ('ge', a[1] - b[1] - 1))):
                for s in cx.st.copy().assume(c): out.append((s, wrap(('agg', ot, n, ()))))
            return out
        x, y = as_slice(e, cx.st, a) or a, as_slice(e, cx.st, b) or b
        i = None
        t = cx.f['args'][0]
        while e.ty(t)['k'] == 'ref': t = e.ty(t)['to']
        if e.ty(t)['k'] == 'adt' and e.adt(t) and e.adt(t)['local']: return None
        return [(cx.st, wrap(e.mk(('ord', e.term(x), e.term(y)), ot)))]
    @reg('core::cmp::Ordering::reverse')
    def orev(cx):
        v = arg(cx, 0)
        if v[0] == 'agg': return [(cx.st, ('agg', cx.rty, 2 - v[2], ()))]
        if v[0] == 't' and v[1][0] == 'ord': return [(cx.st, e.mk(('ord', v[1][2], v[1][1]), cx.rty))]
        return None
    @reg('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
    def eqic(cx):
        x, y = bytesof(cx, 0), bytesof(cx, 1)
        if x is None or y is None: return None
        c = beq(cx, x, y)
        if c is True: return [(cx.st, B(True))]
        k = lambda s: ('sl', s[1], cx.st.norm(s[2]), cx.st.norm(s[3]))
        out = [(s, B(True)) for s in cx.st.copy().assume(c)]
        for s in cx.st.copy().assume(neg(c)): out.append((s, B(('p', ('eqic',) + tuple(sorted((k(x), k(y)), key=repr))))))
        return out

    @reg('hashbrown::map::HashMap::<K, V, S>::capacity')
    def mcap(cx):
        v = arg(cx, 0)
        return [(cx.st, e.mk(('capof', e.term(v)), cx.rty))]
    # text functions: an unrelated text determined by the argument
    def strfn(n):
        def f(cx):
            x = bytesof(cx, 0)
            if x is None: return None
            v = ('strfn', n, ('sl', x[1], cx.st.norm(x[2]), cx.st.norm(x[3]))) + tuple(e.term(arg(cx, k)) for k in range(1, len(cx.args)))
            t = cx.rty
            while e.ty(t)['k'] == 'ref': t = e.ty(t)['to']
            return [(cx.st, e.mk(v, t))]
        return f
    for n in ('trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left_matches',
              'trim_right_matches', 'replace', 'replacen', 'repeat', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase'):
        for pre in ('core::str::<impl str>::', 'alloc::str::<impl str>::'): T[pre + n] = strfn(n)

    # hashing
    @reg('core::hash::Hash::hash')
    def hhash(cx):
        t = cx.f['args'][0]
        v = arg(cx, 0)
        while e.ty(t)['k'] == 'ref' or e.ty(t).get('path') == 'alloc::boxed::Box':
            t = e.ty(t)['to'] if e.ty(t)['k'] == 'ref' else e.ty(t)['args'][0]
        if v[0] == 'box': v = v[1]
        from eng import strip_lt
        i = cx.f.get('inst')
        if i is None: i = e.hash_impl.get(strip_lt(e.ts(t)))
        if i is not None and not e.P.inst[i]['derived'] or i is not None and e.is_text(t):
            if e.stack.count(i) >= 1 and not e.opts_watch: return None
            return [(s, unit(cx)) for s, _ in e.run(i, [rvref(v), cx.args[1]], cx.st)]
        ty = e.ty(t)
        if ty['k'] == 'str' or ty.get('path') in ('string::String', 'alloc::string::String'): kind, w = 'str', as_slice(e, cx.st, v)
        elif ty['k'] in ('int', 'char', 'bool'): kind, w = ty.get('name', ty['k']), v
        else:
            w = as_slice(e, cx.st, v)
            kind = 'bytes' if w is not None else e.ts(t)
            if w is None: w = e.term(v)
        if w is None: return None
        if isinstance(w, tuple) and w and w[0] == 'sl': w = ('sl', w[1], cx.st.norm(w[2]), cx.st.norm(w[3]))
        cx.st.ev(('hash', kind, w))
        return [(cx.st, unit(cx))]
    def hwrite(kind):
        def f(cx):
            v = arg(cx, 1)
            w = as_slice(e, cx.st, v) if kind == 'bytes' else v
            if w is None: return None
            if w[0] == 'sl': w = ('sl', w[1], cx.st.norm(w[2]), cx.st.norm(w[3]))
            cx.st.ev(('hwrite', kind, w))
            return [(cx.st, unit(cx))]
        return f
    for n in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
        T['core::hash::Hasher::write_' + n] = hwrite(n)
    T['core::hash::Hasher::write'] = hwrite('bytes')

    # ----- output buffers
    def append(cx, bufarg, item):
        lv, v = place_of(e, cx.st, bufarg)
        if v[0] != 'bm' or lv is None or lv[0] != 'cell':
            if v[0] == 'vec' and lv is not None and lv[0] == 'cell':
                e.lwrite(cx.st, lv, ('vec', v[1], v[2] + (('bytes', item),)))
                return
            cx.st.note('output to unmodelled buffer')
            cx.st.ev(('lostput', item))
            return
        w = e.item_len(item)
        room = v[5]
        if room is not None:
            if e.opts.get('room'): e.obligation(cx.st, 'room', [room - w], 'room for %s' % (item[0],))
            room = room - w
        e.lwrite(cx.st, lv, ('bm', v[1], v[2], v[3], v[4] + (item,), room))
    T['append'] = append
    for nm, w in (('u8', 1), ('i8', 1), ('u16_be', 2), ('i16_be', 2), ('u32_be', 4), ('i32_be', 4), ('u64_be', 8), ('i64_be', 8),
                  ('u16_le', 2), ('u32_le', 4), ('u64_le', 8), ('i16_le', 2), ('i32_le', 4), ('i64_le', 8),
                  ('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8)):
        def put(cx, w=w, nm=nm):
            v = cx.args[1]
            if v[0] == 'b':
                return None
            L = cx.st.norm(v[1]) if v[0] == 'i' else atom(('opq', 'put', e.term(v)))
            a = L.single()
            if a is not None and a[0] == 'fbits' and a[2] == w: append(cx, cx.args[0], ('flt' if not nm.endswith('_le') and not little(cx) else 'fltle', w, a[1]))
            else: append(cx, cx.args[0], ('int' if w == 1 or not nm.endswith('_le') and not little(cx) else 'intle', w, L))
            return [(cx.st, unit(cx))]
        T['bytes::buf::buf_mut::BufMut::put_' + nm] = put
    for nm, w in (('f32_be', 4), ('f64_be', 8), ('f32', 4), ('f64', 8), ('f32_le', 4), ('f64_le', 8)):
        def putf(cx, w=w, nm=nm):
            append(cx, cx.args[0], ('flt' if not nm.endswith('_le') and not little(cx) else 'fltle', w, e.term(cx.args[1])))
            return [(cx.st, unit(cx))]
        T['bytes::buf::buf_mut::BufMut::put_' + nm] = putf
    @reg('bytes::buf::buf_mut::BufMut::put_slice', 'bytes::bytes::BytesMut::extend_from_slice', 'bytes::buf::buf_mut::BufMut::put')
    def put_slice(cx):
        s = bytesof(cx, 1)
        if s is None:
            cx.st.note('put of unmodelled bytes')
            s = ('sl', ('cont', ('opq', 'bytes', e.term(arg(cx, 1)))), ZERO, e.lenof(('opq', 'bytes', e.term(arg(cx, 1)))), 'b')
        if 'extend' in cx.f['path']:
            lv, v = place_of(e, cx.st, cx.args[0])
            # grows by itself: never short of room
            if v[0] == 'bm' and lv[0] == 'cell' and v[5] is not None:
                its = flat(s)
                L = fresh_room(cx, v[5] - s[3])
                e.lwrite(cx.st, lv, ('bm', v[1], v[2], v[3], v[4] + its, L))
                return [(cx.st, unit(cx))]
        for it in flat(s): append(cx, cx.args[0], it)
        return [(cx.st, unit(cx))]
    def flat(s):
        if s[1][0] == 'emit' and s[2] == ZERO and s[3] == e.items_len(s[1][1]): return s[1][1]
        if s[1][0] == 'const' and s[2].is_const() and s[3].is_const() and s[3].c <= 8:
            return tuple(('int', 1, Lin(x)) for x in s[1][1][s[2].c:s[2].c + s[3].c])
        return (('raw', s),)
    @reg('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
    def copy_slice(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        src = bytesof(cx, 1)
        if lv is None or lv[0] != 'cell' or src is None: return None
        n = e.length(cx.st, v)
        if n is None or v[0] not in ('agg', 'sl', 'own'): return None
        e.obligation(cx.st, 'copy_from_slice', [n - src[3], src[3] - n], 'copy of %r bytes into %r' % (cx.st.norm(src[3]), cx.st.norm(n)))
        if not cx.st.addeq(n - src[3]): return []
        e.lwrite(cx.st, lv, ('sl', src[1], src[2], src[3], 'b'))
        return [(cx.st, unit(cx))]
    @reg('bytes::buf::buf_mut::BufMut::remaining_mut')
    def remaining_mut(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        if v[0] != 'bm' or lv[0] != 'cell': return None
        if v[5] is not None: return [(cx.st, ('i', v[5]))]
        L = fresh_room(cx)
        e.lwrite(cx.st, lv, v[:5] + (L,))
        return [(cx.st, ('i', L))]
    def fresh_room(cx, least=None):
        L = atom(('hv', 'room', e.newfid(), 'sfx'), 0, 1 << 50)
        if least is not None: cx.st.add(L - least)
        return L
    @reg('bytes::bytes::BytesMut::reserve')
    def reserve(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        n = cx.args[1]
        e.cap(cx, 'reserve', n)
        if v[0] == 'bm' and lv[0] == 'cell' and n[0] == 'i':
            L = fresh_room(cx, v[5])
            cx.st.add(L - n[1])
            e.lwrite(cx.st, lv, v[:5] + (L,))
        return [(cx.st, unit(cx))]
    @reg('bytes::bytes::BytesMut::split_to', 'bytes::bytes::BytesMut::split_off')
    def split_to(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        n = cx.args[1]
        if v[0] != 'bm' or lv[0] != 'cell' or n[0] != 'i' or v[4]:
            e.obligation(cx.st, 'split_to', None, 'split of unmodelled buffer')
            return None
        e.obligation(cx.st, 'split_to', [v[3] - n[1]], 'split_to(%r) of length %r' % (cx.st.norm(n[1]), cx.st.norm(v[3])))
        out = []
        to = not cx.f['path'].endswith('split_off')
        for x in cx.st.assume(('ge', v[3] - n[1])):
            a = ('bm', v[1], v[2], n[1], (), None)
            b = ('bm', v[1], v[2] + n[1], v[3] - n[1], (), None)
            x.ev(('split', v[1], v[2], n[1]))
            e.lwrite(x, lv, b if to else a)
            out.append((x, a if to else b))
        return out
    @reg('bytes::bytes::BytesMut::advance', 'bytes::buf::buf::Buf::advance')
    def advance(cx):
        r = split_to(cx)
        return None if r is None else [(s, unit(cx)) for s, _ in r]
    @reg('bytes::bytes::BytesMut::capacity')
    def bm_capacity(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        if v[0] != 'bm' or lv[0] != 'cell': return None
        r = remaining_mut(cx)
        lv, v = place_of(e, cx.st, cx.args[0])
        return [(cx.st, ('i', v[5] + v[3] + e.items_len(v[4])))]
    @reg('bytes::bytes::BytesMut::clear')
    def bm_clear(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        if v[0] != 'bm' or lv[0] != 'cell': return None
        room = None if v[5] is None else v[5] + v[3] + e.items_len(v[4])
        e.lwrite(cx.st, lv, ('bm', v[1], v[2], ZERO, (), room))
        return [(cx.st, unit(cx))]
    @reg('bytes::bytes::BytesMut::truncate')
    def bm_truncate(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        n = cx.args[1]
        if v[0] != 'bm' or lv[0] != 'cell' or n[0] != 'i' or v[4]: return None
        out = []
        for x in cx.st.copy().assume(('ge', n[1] - v[3])): out.append((x, unit(cx)))
        for x in cx.st.copy().assume(('ge', v[3] - n[1] - 1)):
            e.lwrite(x, lv, ('bm', v[1], v[2], n[1], (), v[5]))
            out.append((x, unit(cx)))
        return out
    @reg('bytes::bytes::BytesMut::with_capacity')
    def bm_cap(cx):
        e.cap(cx, 'with_capacity', cx.args[0])
        return [(cx.st, ('bm', ('const', b''), ZERO, ZERO, (), cx.args[0][1] if cx.args[0][0] == 'i' else None))]
    @reg('bytes::bytes::BytesMut::new')
    def bm_new(cx): return [(cx.st, ('bm', ('const', b''), ZERO, ZERO, (), None))]
    @reg('bytes::bytes::BytesMut::freeze')
    def freeze(cx):
        s = as_slice(e, cx.st, arg(cx, 0))
        return None if s is None else [(cx.st, ('own', 'bytes', s))]
    @reg('bytes::bytes::Bytes::from_static', 'string::String::<T>::from_str', '<string::String<T> as core::convert::From<&str>>::from')
    def own(cx):
        s = bytesof(cx, 0)
        return None if s is None else [(cx.st, ('own', 'bytes', s))]
    @reg('<string::String<T> as string::TryFrom<T>>::try_from', 'string::TryFrom::try_from')
    def try_text(cx):
        s = bytesof(cx, 0)
        if s is None: return None
        k = ('utf8', s[1], cx.st.norm(s[2]), cx.st.norm(s[3]))
        cx.st.ev(('utf8', s[1], k[2], k[3]))
        g = ok(cx, ('own', 'text', s))
        b = err(cx, e.mk(('utf8err', s[1], s[2], s[3]), targ(e, cx.rty, 1)))
        if cx.st.getpred(k) is True: return [(cx.st, g)]
        return split(cx, ('p', k), g, b)
    @reg('string::String::<T>::from_utf8_unchecked')
    def uncheck(cx): return None
    @reg('string::String::<T>::into_inner', 'string::String::<T>::get_ref')
    def inner(cx):
        v = arg(cx, 0)
        return [(cx.st, ('rv', v) if e.ty(cx.rty)['k'] == 'ref' else v)]

    # ----- vectors and maps
    @reg('alloc::vec::Vec::<T>::with_capacity')
    def vec_cap(cx):
        e.cap(cx, 'with_capacity', cx.args[0])
        return [(cx.st, ('vec', cx.rty, ()))]
    @reg('alloc::vec::Vec::<T>::new')
    def vec_new(cx): return [(cx.st, ('vec', cx.rty, ()))]
    @reg('alloc::vec::Vec::<T, A>::reserve')
    def vec_res(cx):
        e.cap(cx, 'reserve', cx.args[1])
        return [(cx.st, unit(cx))]
    @reg('alloc::vec::Vec::<T, A>::push')
    def push(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        if lv is None or lv[0] != 'cell': return None
        if v[0] == 'agg' and len(v[3]) == 1:
            lv = ['cell', lv[1], lv[2] + [('f', None, 0, None)]]
            v = v[3][0]
        if v[0] == 'vec': n = ('vec', v[1], v[2] + (('one', cx.args[1]),))
        elif v[0] == 't': n = ('vec', v[2], (('base', v[1]), ('one', cx.args[1])))
        else: return None
        e.lwrite(cx.st, lv, n)
        return [(cx.st, unit(cx))]
    def vec_place(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        if lv is None or lv[0] != 'cell': return None
        while v[0] == 'agg' and len(v[3]) == 1:
            lv = ['cell', lv[1], lv[2] + [('f', None, 0, None)]]
            v = v[3][0]
        if v[0] == 'vec': return lv, v[1], v[2]
        if v[0] == 't' and e.ty(v[2]).get('path') == 'alloc::vec::Vec': return lv, v[2], (('base', v[1]),)
        return None
    @reg('alloc::vec::Vec::<T, A>::insert')
    def vec_insert(cx):
        p = vec_place(cx)
        if p is None or cx.args[1][0] != 'i': return None
        lv, t, items = p
        at = cx.st.norm(cx.args[1][1])
        new = (('one', cx.args[2]),)
        if at == ZERO: items = new + items
        elif at.is_const() and all(x[0] == 'one' for x in items[:at.c]) and at.c <= len(items): items = items[:at.c] + new + items[at.c:]
        elif all(x[0] in ('one', 'base') for x in items) and cx.st.equal(at, Lin(sum(x[0] == 'one' for x in items)) + sum((e.lenof(x[1]) for x in items if x[0] == 'base'), ZERO)): items = items + new
        else: return None
        e.lwrite(cx.st, lv, ('vec', t, items))
        return [(cx.st, unit(cx))]
    def ones(p): return p is not None and all(x[0] == 'one' for x in p[2])
    @reg('core::slice::<impl [T]>::reverse')
    def vec_reverse(cx):
        p = vec_place(cx)
        if not ones(p): return None
        e.lwrite(cx.st, p[0], ('vec', p[1], p[2][::-1]))
        return [(cx.st, unit(cx))]
    @reg('core::slice::<impl [T]>::swap')
    def vec_swap(cx):
        p = vec_place(cx)
        if not ones(p) or any(x[0] != 'i' for x in cx.args[1:]): return None
        i, j = (cx.st.norm(x[1]) for x in cx.args[1:])
        if not (i.is_const() and j.is_const() and 0 <= i.c < len(p[2]) and 0 <= j.c < len(p[2])): return None
        q = list(p[2])
        q[i.c], q[j.c] = q[j.c], q[i.c]
        e.lwrite(cx.st, p[0], ('vec', p[1], tuple(q)))
        return [(cx.st, unit(cx))]
    @reg('alloc::vec::Vec::<T, A>::truncate')
    def vec_truncate(cx):
        p = vec_place(cx)
        if not ones(p) or cx.args[1][0] != 'i': return None
        n = cx.st.norm(cx.args[1][1])
        k = len(p[2])
        if n.is_const(): k = min(k, n.c)
        elif not cx.st.implies(n - k): return None
        e.lwrite(cx.st, p[0], ('vec', p[1], p[2][:k]))
        return [(cx.st, unit(cx))]
    @reg('alloc::vec::Vec::<T, A>::pop')
    def vec_pop(cx):
        p = vec_place(cx)
        if p is None: return None
        if p[2] == (): return [(cx.st, ('agg', cx.rty, 0, ()))]
        if p[2][-1][0] != 'one': return None
        e.lwrite(cx.st, p[0], ('vec', p[1], p[2][:-1]))
        return [(cx.st, ('agg', cx.rty, 1, (p[2][-1][1],)))]
    @reg('alloc::vec::Vec::<T, A>::remove')
    def vec_remove(cx):
        p = vec_place(cx)
        if not ones(p) or cx.args[1][0] != 'i': return None
        i = cx.st.norm(cx.args[1][1])
        if not i.is_const() or not 0 <= i.c < len(p[2]): return None
        q = list(p[2])
        x = q.pop(i.c)
        e.lwrite(cx.st, p[0], ('vec', p[1], tuple(q)))
        return [(cx.st, x[1])]
    @reg('alloc::vec::Vec::<T, A>::append')
    def vec_append(cx):
        p = vec_place(cx)
        q = place_of(e, cx.st, cx.args[1])
        if p is None or q[0] is None or q[0][0] != 'cell': return None
        v = q[1]
        if v[0] == 'vec': x = v[2]
        elif v[0] == 't': x = (('base', v[1]),)
        else: return None
        e.lwrite(cx.st, p[0], ('vec', p[1], p[2] + x))
        e.lwrite(cx.st, q[0], ('vec', p[1], ()))
        return [(cx.st, unit(cx))]
    @reg("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::count", 'core::iter::traits::iterator::Iterator::count')
    def chars_count(cx):
        v = arg(cx, 0)
        if v[0] == 'it' and v[1] == 'chars':
            a = ('nchars', v[2])
            n = atom(a, 0, None)
            return [(cx.st, I(n))]
        return None
    # I/O errors cannot be copied: a new one with the kind and the text of another stands for it
    def io_term(cx, k):
        v = arg(cx, k)
        ty = e.vty(v)
        return v[1] if v[0] == 't' and ty is not None and (e.ty(ty).get('path') or '').endswith('io::error::Error') else None
    @reg('core::io::error::Error::kind', 'std::io::error::Error::kind')
    def iokind(cx):
        x = io_term(cx, 0)
        return None if x is None else [(cx.st, e.mk(('iokind', x), cx.rty))]
    @reg('<T as alloc::string::ToString>::to_string', 'alloc::string::ToString::to_string')
    def iotext(cx):
        x = io_term(cx, 0)
        return None if x is None else [(cx.st, e.mk(('iotext', x), cx.rty))]
    @reg('alloc::io::error::<impl core::io::error::Error>::new', 'std::io::error::Error::new')
    def ionew(cx):
        k, x = e.term(arg(cx, 0)), e.term(arg(cx, 1))
        if isinstance(k, tuple) and isinstance(x, tuple) and k[0] == 'iokind' and x[0] == 'iotext' and k[1] == x[1]: return [(cx.st, e.mk(('iocopy', k[1]), cx.rty))]
        return None
    @reg('core::str::<impl str>::chars')
    def chars(cx):
        x = bytesof(cx, 0)
        if x is None: return None
        return [(cx.st, ('it', 'chars', ('sl', x[1], cx.st.norm(x[2]), cx.st.norm(x[3]))))]
    @reg('alloc::vec::Vec::<T, A>::clear')
    def clear(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        t = e.vty(v) if v[0] != 'vec' else v[1]
        if lv is None or lv[0] != 'cell' or t is None: return None
        e.lwrite(cx.st, lv, ('vec', t, ()))
        return [(cx.st, unit(cx))]
    @reg('alloc::boxed::box_assume_init_into_vec_unsafe')
    def box_vec(cx):
        v = cx.args[0]
        v = v[1] if v[0] == 'box' else v
        a = full(e, cx.st, v)
        # the array sits in the initialised storage
        for _ in range(6):
            if a[0] == 'agg' and a[1] is not None and e.ty(a[1])['k'] == 'array': break
            if a[0] == 'sl': break
            if a[0] == 'agg' and a[3]: a = a[3][-1]
            else: break
        if a[0] == 'agg' and a[1] is not None and e.ty(a[1])['k'] == 'array': return [(cx.st, ('vec', cx.rty, tuple(('one', x) for x in a[3])))]
        if a[0] == 'sl' and a[1][0] == 'const': return [(cx.st, ('vec', cx.rty, tuple(('one', I(x)) for x in a[1][1])))]
        return None
    @reg('alloc::boxed::Box::<T>::new_uninit')
    def box_un(cx): return [(cx.st, ('box', ('top', 'uninit')))]
    @reg('alloc::boxed::Box::<T>::new')
    def box_new(cx): return [(cx.st, ('box', cx.args[0]))]
    @reg('hashbrown::map::HashMap::<K, V, S>::with_capacity_and_hasher', 'hashbrown::map::HashMap::<K, V>::with_capacity')
    def map_cap(cx):
        e.cap(cx, 'with_capacity', cx.args[0])
        return [(cx.st, ('map', cx.rty, ()))]
    @reg('hashbrown::map::HashMap::<K, V>::new', 'hashbrown::map::HashMap::<K, V, S>::with_hasher')
    def map_new(cx): return [(cx.st, ('map', cx.rty, ()))]
    @reg('hashbrown::map::HashMap::<K, V, S>::reserve')
    def map_res(cx):
        e.cap(cx, 'reserve', cx.args[1])
        return [(cx.st, unit(cx))]
    @reg('hashbrown::map::HashMap::<K, V, S>::insert')
    def insert(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        if lv is None or lv[0] != 'cell': return None
        kv = ('agg', None, 0, (cx.args[1], cx.args[2]))
        if v[0] == 'map': n = ('map', v[1], v[2] + (('one', kv),))
        elif v[0] == 't': n = ('map', v[2], (('base', v[1]), ('one', kv)))
        else: return None
        e.lwrite(cx.st, lv, n)
        return [(cx.st, e.mk(('prev', e.term(kv)), cx.rty))]
    @reg('hashbrown::map::HashMap::<K, V, S>::get')
    def mget(cx):
        v = arg(cx, 0)
        return [(cx.st, e.mk(('get', e.term(v), e.term(arg(cx, 1))), cx.rty))]

    # ----- iterators: ('it', 'coll', term, mode, elemtid, consumed) | ('it','list',(values)) | ('it','map',inner,fn) | ('it','enum',inner,n) | ('it','vec',value,mode,consumed)
    def mkiter(cx, v, mode, ety=None):
        if v[0] == 'vsl': v = v[1]
        if v[0] == 'agg' and v[1] is not None and e.ty(v[1])['k'] != 'array' and len(v[3]) == 1: return mkiter(cx, full(e, cx.st, v[3][0]), mode, ety)
        if v[0] == 't':
            et = e.elem_ty(v[2])
            t = e.ty(v[2])
            if t['k'] == 'adt' and t['path'] == 'hashbrown::map::HashMap':
                e.unordered.add(v[1])
                return ('it', 'coll', v[1], 'kv' if mode == 'ref' else 'kvo', tuple(t['args'][:2]), ZERO)
            if t['k'] == 'adt' and e.is_newtype(v[2]) and t['path'].startswith('types'):
                a = e.P.adts[t['path']]['variants'][0]['fields'][0]
                if a['tid'] is not None and e.ty(a['tid'])['k'] == 'adt' and e.ty(a['tid'])['path'] == 'hashbrown::map::HashMap':
                    return mkiter(cx, e.mk(v[1], a['tid']), mode, ety)
            if et is None: return None
            return ('it', 'coll', v[1], mode, et, ZERO)
        if v[0] in ('vec', 'map'):
            if all(x[0] == 'one' for x in v[2]):
                if v[0] == 'map' and mode == 'ref': return ('it', 'list', tuple(('agg', None, 0, (('rv', x[1][3][0]), ('rv', x[1][3][1]))) for x in v[2]))
                return ('it', 'list', tuple((('rv', x[1]) if mode == 'ref' else x[1]) for x in v[2]))
            return ('it', 'seq', v, mode, ZERO)
        if v[0] == 'agg' and v[1] is not None and e.ty(v[1])['k'] == 'array':
            return ('it', 'list', tuple((('rv', x) if mode == 'ref' else x) for x in v[3]))
        if v[0] == 'sl':
            return ('it', 'bytes', v, mode, ZERO)
        if v[0] == 'own': return mkiter(cx, v[2], mode, ety)
        return None
    @reg('core::slice::<impl [T]>::iter', 'hashbrown::map::HashMap::<K, V, S>::iter', '<&\'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
         '<&\'a hashbrown::map::HashMap<K, V, S> as core::iter::traits::collect::IntoIterator>::into_iter',
         'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a [T]>::into_iter',
         'core::array::<impl core::iter::traits::collect::IntoIterator for &\'a [T; N]>::into_iter')
    def it_ref(cx):
        r = mkiter(cx, arg(cx, 0), 'ref')
        return None if r is None else [(cx.st, r)]
    @reg('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', '<hashbrown::map::HashMap<K, V, S> as core::iter::traits::collect::IntoIterator>::into_iter',
         'core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter')
    def it_own(cx):
        r = mkiter(cx, arg(cx, 0), 'own')
        return None if r is None else [(cx.st, r)]
    @reg('hashbrown::map::HashMap::<K, V, S>::values', 'hashbrown::map::HashMap::<K, V, S>::keys')
    def it_half(cx):
        r = mkiter(cx, arg(cx, 0), 'ref')
        if r is None or r[1] != 'coll': return None
        return [(cx.st, ('it', 'half', r, 1 if cx.f['path'].endswith('values') else 0))]
    @reg('core::iter::traits::iterator::Iterator::map')
    def it_map(cx):
        v = arg(cx, 0)
        return [(cx.st, ('it', 'map', as_iter(v), cx.args[1]))] if as_iter(v) else None
    @reg('core::iter::traits::iterator::Iterator::enumerate')
    def it_enum(cx):
        v = arg(cx, 0)
        return [(cx.st, ('it', 'enum', as_iter(v), ('i', ZERO)))] if as_iter(v) else None
    @reg('core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied')
    def it_cp(cx):
        v = arg(cx, 0)
        return [(cx.st, ('it', 'cp', as_iter(v)))] if as_iter(v) else None
    @reg('core::iter::traits::iterator::Iterator::by_ref')
    def by_ref(cx): return [(cx.st, cx.args[0])]
    def as_iter(v):
        if v[0] == 'it': return v
        if v[0] == 'agg' and v[1] is not None and e.ty(v[1])['k'] == 'adt' and 'ops::range::Range' in e.ty(v[1])['path']: return v
        return None
    def nxt(cx, st, v):
        """[(state, item or None, iterator)]"""
        if v[0] == 'agg':
            p = e.ty(v[1])['path'] if v[1] is not None else ''
            if p.endswith('::Range') and v[3][0][0] == 'i' and v[3][1][0] == 'i':
                a, b = v[3][0][1], v[3][1][1]
                out = []
                for s in st.copy().assume(('ge', b - a - 1)): out.append((s, ('i', s.norm(a)), ('agg', v[1], 0, (('i', s.norm(a + 1)), v[3][1]))))
                for s in st.copy().assume(('ge', a - b)): out.append((s, None, v))
                return out
            return None
        if v[0] != 'it': return None
        k = v[1]
        if k == 'list':
            if not v[2]: return [(st, None, v)]
            return [(st, v[2][0], ('it', 'list', v[2][1:]))]
        if k in ('coll', 'bytes', 'seq'):
            c = v[-1]
            n = e.lenof(v[2]) if k == 'coll' else e.length(st, v[2])
            if n is None: return None
            out = []
            for s in st.copy().assume(('ge', n - c - 1)):
                c2 = s.norm(c)
                if k == 'coll':
                    a = c2.single()
                    if a is not None and a[0] == 'hv':
                        et = ('elem', v[2])
                        s.loops = dict(s.loops)
                        s.loops[('idx', a)] = v[2]
                    else: et = ('at', v[2], c2)
                    if v[3] == 'kv': x = ('agg', None, 0, tuple(('rv', e.mk(('fld', et, '', str(i)), t)) for i, t in enumerate(v[4])))
                    elif v[3] == 'kvo': x = ('agg', None, 0, tuple(e.mk(('fld', et, '', str(i)), t) for i, t in enumerate(v[4])))
                    else:
                        x = e.mk(et, v[4])
                        if v[3] == 'ref': x = x if x[0] == 'sl' else ('rv', x)
                elif k == 'bytes':
                    x = ('i', e.read(s, v[2][1], v[2][2] + c2, 1, False))
                    if v[3] == 'ref': x = ('rv', x)
                else:
                    x = e.elem(s, v[2], c2)
                    if v[3] == 'ref': x = ('rv', x)
                out.append((s, x, v[:-1] + (s.norm(c + 1),)))
            for s in st.copy().assume(('ge', c - n)): out.append((s, None, v))
            return out
        if k == 'map':
            r = nxt(cx, st, v[2])
            if r is None: return None
            out = []
            for s, x, i2 in r:
                if x is None: out.append((s, None, v)); continue
                for s2, y in callfn(cx, s, v[3], [x]): out.append((s2, y, ('it', 'map', i2, v[3])))
            return out
        if k == 'half':
            r = nxt(cx, st, v[2])
            return None if r is None else [(s, None if x is None else x[3][v[3]], ('it', 'half', i2, v[3])) for s, x, i2 in r]
        if k == 'cp':
            r = nxt(cx, st, v[2])
            return None if r is None else [(s, None if x is None else full(e, s, x), ('it', 'cp', i2)) for s, x, i2 in r]
        if k == 'enum':
            r = nxt(cx, st, v[2])
            return None if r is None else [(s, None if x is None else ('agg', None, 0, (v[3], x)), ('it', 'enum', i2, ('i', v[3][1] + 1) if x is not None else v[3])) for s, x, i2 in r]
        return None
    e.nxt = nxt
    @reg('core::iter::traits::iterator::Iterator::next')
    def it_next(cx):
        if cx.f.get('inst') is not None: return None
        lv, v = place_of(e, cx.st, cx.args[0])
        if lv is None or lv[0] != 'cell': return None
        r = nxt(cx, cx.st, v)
        if r is None:
            return None
        out = []
        for s, x, i2 in r:
            e.lwrite(s, lv, i2)
            if x is None: out.append((s, none(cx)))
            else:
                if x[0] == 'agg' and x[1] is None: x = ('agg', targ(e, cx.rty, 0), 0, x[3])
                out.append((s, some(cx, x)))
        return out

    def callfn(cx, st, fv, args):
        """apply a closure / function value"""
        g = full(e, st, fv)
        if g[0] == 'fn':
            f = g[1].f
            return e.dispatch(cx.fr, st, f, args, None, rty=e.retty(f))
        if g[0] == 'agg' and g[1] is not None and e.ty(g[1])['k'] == 'closure':
            i = e.closure_inst(g[1])
            if i is not None:
                return e.run(i, [fv if fv[0] in ('ref', 'rv') else g] + list(args), st)
        return None
    e.callfn = callfn
    @reg('call')
    def call(cx):
        a = cx.args[1]
        args = list(a[3]) if a[0] == 'agg' else [a]
        r = callfn(cx, cx.st, cx.args[0], args)
        if r is not None: return r
        r = fcall(cx, args)
        return r if r is not None else e.uncall(cx, 'indirect')

    def fcall(cx, args):
        """call of an unknown caller-supplied function: what it may write through its mutable references becomes a function of
        itself and of what was there before"""
        st = cx.st
        g = full(e, st, cx.args[0])
        t = g[2] if g[0] == 't' else None
        if t is None or e.ty(t)['k'] != 'param': return None
        ft = e.term(g)
        vals = [full(e, st, a) if a[0] in ('ref', 'rv') else a for a in args]
        terms = tuple(e.term(v) for v in vals)
        if any(v[0] == 'top' for v in vals): return None
        for n, a in enumerate(args):
            if a[0] == 'ref' and a[3]:
                lv = ['cell', a[1], list(a[2])]
                v = e.lread(st, lv)
                tid = e.vty(v)
                if tid is None: return None
                e.lwrite(st, lv, e.mk(('upd', ft, n, terms), tid))
        st.ev(('fcall', ft, tuple(vals)))
        return [(st, e.mk(('ret', ft, terms), cx.rty))]

    def loop_over(cx, it, step, acc0):
        """fold-like loops: step(state, item, acc) -> [(state, acc)]"""
        from loops import fold_loop
        return fold_loop(e, cx, it, step, acc0)
    @reg('core::iter::traits::iterator::Iterator::fold')
    def fold(cx):
        it = as_iter(arg(cx, 0))
        if it is None: return None
        fv = cx.args[2]
        c = ('clo', e.newfid())
        if fv[0] == 'agg':
            cx.st.cells[c] = fv
            fv = ('ref', c, (), True)
        return loop_over(cx, it, lambda s, x, acc: callfn(cx, s, fv, [acc, x]), cx.args[1])
    @reg('core::iter::traits::iterator::Iterator::for_each')
    def for_each(cx):
        it = as_iter(arg(cx, 0))
        if it is None: return None
        fv = cx.args[1]
        c = ('clo', e.newfid())
        if fv[0] == 'agg':
            cx.st.cells[c] = fv
            fv = ('ref', c, (), True)
        r = loop_over(cx, it, lambda s, x, acc: [(s2, acc) for s2, _ in callfn(cx, s, fv, [x])], unit(cx))
        return r
    @reg('core::iter::traits::iterator::Iterator::sum')
    def isum(cx):
        it = as_iter(arg(cx, 0))
        if it is None or e.ty(cx.rty)['k'] != 'int': return None
        def stp(s, x, acc):
            x = full(e, s, x)
            if x[0] != 'i' or acc[0] != 'i': return [(s, ('top', 'sum'))]
            return [(s, ('i', acc[1] + x[1]))]
        return loop_over(cx, it, stp, I(0))
    @reg('core::iter::traits::iterator::Iterator::count')
    def icount(cx):
        it = as_iter(arg(cx, 0))
        if it is None: return None
        return loop_over(cx, it, lambda s, x, acc: [(s, ('i', acc[1] + 1))], I(0))
    @reg('core::iter::traits::iterator::Iterator::collect')
    def collect(cx):
        it = as_iter(arg(cx, 0))
        t = e.ty(cx.rty)
        if it is None or t['k'] != 'adt': return None
        if t['path'] == 'alloc::vec::Vec':
            return loop_over(cx, it, lambda s, x, acc: [(s, ('vec', cx.rty, acc[2] + (('one', x),)))], ('vec', cx.rty, ()))
        if t['path'] == 'hashbrown::map::HashMap':
            return loop_over(cx, it, lambda s, x, acc: [(s, ('map', cx.rty, acc[2] + (('one', x),)))], ('map', cx.rty, ()))
        return None

    # ----- cells
    @reg('core::cell::Cell::<T>::get')
    def cget(cx):
        v = arg(cx, 0)
        if v[0] == 't' and e.ty(v[2])['k'] == 'adt' and e.ty(v[2])['path'] == 'core::cell::Cell': v = e.mk(('cellval', v[1]), e.ty(v[2])['args'][0])
        return [(cx.st, v)]
    @reg('core::cell::Cell::<T>::set')
    def cset(cx):
        lv, v = place_of(e, cx.st, cx.args[0])
        if lv is None: return None
        e.lwrite(cx.st, lv, cx.args[1])
        cx.st.ev(('cellset', cx.args[1]))
        return [(cx.st, unit(cx))]
    @reg('core::cell::Cell::<T>::new', 'core::cell::Cell::<T>::into_inner')
    def cnew(cx): return [(cx.st, cx.args[0])]

    # ----- uuid, time
    @reg('uuid::Uuid::as_bytes')
    def uuid_bytes(cx):
        v = arg(cx, 0)
        if v[0] == 'own': return [(cx.st, v[2])]
        return [(cx.st, ('sl', ('cont', e.term(v)), ZERO, Lin(16), 'b'))]
    @reg('uuid::Uuid::from_slice', 'uuid::Uuid::from_bytes')
    def uuid_from(cx):
        s = bytesof(cx, 0)
        if s is None: return None
        g = ('own', 'uuid', s)
        if cx.f['path'].endswith('from_bytes'): return [(cx.st, g)]
        b = err(cx, e.mk(('uuiderr', s[1], s[2]), targ(e, cx.rty, 1)))
        c = e.fold(cx.st, ('eq', cx.st.norm(s[3] - 16)))
        tv = c if c in (True, False) else cx.st.tv(c)
        if tv is True: return [(cx.st, ok(cx, g))]
        if tv is False: return [(cx.st, b)]
        return split(cx, c, ok(cx, g), b)
    @reg('chrono::datetime::DateTime::<Tz>::timestamp')
    def ts(cx):
        v = arg(cx, 0)
        if v[0] == 'ts': return [(cx.st, ('i', v[1]))]
        return [(cx.st, ('i', atom(('secs', e.term(v)), SEC_LO, SEC_HI)))]
    @reg('chrono::datetime::DateTime::<Tz>::timestamp_subsec_millis')
    def tsms(cx):
        v = arg(cx, 0)
        return [(cx.st, ('i', atom(('subms', e.term(v)), 0, 999)))]
    @reg('chrono::datetime::DateTime::<Tz>::timestamp_millis')
    def tsm(cx):
        v = arg(cx, 0)
        return [(cx.st, ('i', atom(('secs', e.term(v)), SEC_LO, SEC_HI).scale(1000) + atom(('subms', e.term(v)), 0, 999)))]
    @reg('chrono::offset::TimeZone::timestamp_opt', 'chrono::offset::TimeZone::timestamp')
    def ts_opt(cx):
        s, n = cx.args[1], cx.args[2]
        if s[0] != 'i' or n[0] != 'i': return None
        if cx.f['path'].endswith('::timestamp'):
            e.obligation(cx.st, 'timestamp', [s[1] - SEC_LO, Lin(SEC_HI) - s[1], n[1], Lin(1999999999) - n[1]], 'seconds in range of the calendar')
        return [(cx.st, ('lr', s[1], n[1]) if cx.f['path'].endswith('_opt') else ('ts', s[1], n[1]))]
    @reg('chrono::offset::TimeZone::timestamp_millis', 'chrono::offset::TimeZone::timestamp_millis_opt')
    def ts_ms(cx):
        m = cx.args[1]
        if m[0] != 'i': return None
        q = fdiv(cx.st, cx.st.norm(m[1]), 1000)
        r = (m[1] - q.scale(1000)).scale(1000000)
        if cx.f['path'].endswith('_millis'):
            e.obligation(cx.st, 'timestamp', [q - SEC_LO, Lin(SEC_HI) - q], 'seconds in range of the calendar')
            return [(cx.st, ('ts', q, r))]
        return [(cx.st, ('lr', q, r))]
    @reg('chrono::offset::LocalResult::<T>::single', 'chrono::offset::LocalResult::<T>::earliest', 'chrono::offset::LocalResult::<T>::latest')
    def single(cx):
        v = arg(cx, 0)
        if v[0] != 'lr': return None
        c = ('and', ('and', ('ge', v[1] - SEC_LO), ('ge', Lin(SEC_HI) - v[1])), ('and', ('ge', v[2]), ('ge', Lin(1999999999) - v[2])))
        return split(cx, c, some(cx, ('ts', v[1], v[2])), none(cx))
    @reg('chrono::offset::LocalResult::<T>::unwrap')
    def lr_unwrap(cx):
        v = arg(cx, 0)
        if v[0] != 'lr': return None
        e.obligation(cx.st, 'timestamp', [v[1] - SEC_LO, Lin(SEC_HI) - v[1], v[2], Lin(1999999999) - v[2]], 'seconds in range of the calendar')
        return [(cx.st, ('ts', v[1], v[2]))]

    # ----- diverging
    def diverge(cx):
        kind = cx.f['path'].rsplit('::', 1)[1]
        e.obligation(cx.st, 'panic', [Lin(-1)] if not cx.st.imprecise else None, 'reaches ' + cx.f['path'])
        return []
    for n in ('core::result::unwrap_failed', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::panicking::panic', 'core::panicking::panic_fmt',
              'core::panicking::panic_explicit', 'std::rt::begin_panic', 'core::panicking::unreachable_display', 'core::panicking::panic_display', 'std::rt::panic_fmt',
              'core::panicking::assert_failed', 'core::panicking::panic_bounds_check', 'core::panicking::panic_str_2015', 'std::rt::begin_panic_fmt', 'std::process::abort', 'std::process::exit'):
        T[n] = diverge
    @reg('core::mem::replace')
    def mreplace(cx):
        lv, v = place_of1(cx, cx.args[0])
        if lv is None: return None
        e.lwrite(cx.st, lv, cx.args[1])
        return [(cx.st, v)]
    @reg('core::mem::take')
    def mtake(cx):
        lv, v = place_of1(cx, cx.args[0])
        d = dflt(cx, cx.rty)
        if lv is None or d is None: return None
        e.lwrite(cx.st, lv, d[0][1])
        return [(cx.st, v)]
    def place_of1(cx, a):
        if a[0] != 'ref': return None, None
        lv = ['cell', a[1], list(a[2])]
        return lv, e.lread(cx.st, lv)
    @reg('core::mem::drop', 'core::mem::forget')
    def mdrop(cx): return [(cx.st, unit(cx))]

    # ----- formatting
    @reg('core::fmt::rt::Argument::<\'_>::new_display')
    def fa(cx): return [(cx.st, ('fmtarg', arg(cx, 0)))]
    @reg('core::fmt::Arguments::<\'a>::new')
    def fargs(cx):
        t = bytesof(cx, 0)
        a = arg(cx, 1)
        if t is None or t[1][0] != 'const' or a[0] != 'agg': return None
        out = []
        b = t[1][1]
        i = 0
        n = 0
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0: break
            if c < 128:
                out.append(('raw', ('sl', ('const', b[i:i + c]), ZERO, Lin(c), 'b')))
                i += c
            elif c == 128:
                ln = b[i] | b[i + 1] << 8
                i += 2
                out.append(('raw', ('sl', ('const', b[i:i + ln]), ZERO, Lin(ln), 'b')))
                i += ln
            elif c >= 192:
                opt = []
                for bit, ln, name in ((1, 4, 'flags'), (2, 2, 'width'), (4, 2, 'precision'), (8, 2, 'index')):
                    if not c & bit: continue
                    q = int.from_bytes(b[i:i + ln], 'little')
                    i += ln
                    if name == 'index': n = q
                    elif name == 'precision' or name == 'width' and (q or c & 16): opt.append('%s %s' % (name, 'given by an argument' if c & (16 if name == 'width' else 32) else q))
                    elif name == 'flags' and c & 2: pass
                if n >= len(a[3]): return None
                v = full(e, cx.st, a[3][n])
                n += 1
                if v[0] != 'fmtarg': return None
                x = v[1]
                s = as_slice(e, cx.st, x)
                if s is not None and opt:
                    # padded or cut: another text
                    u = ('strfn', ', '.join(opt), ('sl', s[1], cx.st.norm(s[2]), cx.st.norm(s[3])))
                    s = ('sl', ('cont', u), ZERO, e.lenof(u), 's')
                elif c & 1 and s is None: return None
                if s is not None: out.append(('raw', s))
                elif opt: return None
                else: out.append(('disp', e.term(x)))
            else: return None
        return [(cx.st, ('fmtargs', tuple(out)))]
    @reg('core::fmt::Arguments::<\'a>::from_str')
    def fstr(cx):
        s = bytesof(cx, 0)
        return None if s is None else [(cx.st, ('fmtargs', (('raw', s),)))]
    @reg('alloc::fmt::format')
    def fmt(cx):
        v = arg(cx, 0)
        if v[0] != 'fmtargs': return None
        its = v[1]
        return [(cx.st, ('own', 'text', ('sl', ('emit', its), ZERO, e.items_len(its), 's')))]

    @reg('fallback')
    def fallback(cx):
        p = cx.f['path']
        if p == 'core::ops::function::Fn::call' or p.startswith('core::ops::function::'): return call(cx)
        return None
    return T
