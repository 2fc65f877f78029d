"""C22 (valid text, no unsafe), C26 (purity), C27 (owned, Send): type-system, effect and gating rules over the whole crate."""
import re
from core import *
from rules_size import fmt_state
from rules_decode import opaque_state, has_opq, contains, flat
import rules_spec as R

def short(p): return re.sub(r'\b(?:[a-z_]\w*::)+', '', p)

def local_insts(P):
    return [(i, I) for i, I in enumerate(P.inst) if I['file'].startswith('src')]

def bodies(I): return [I] + list(I['promoted'])

def calls(I):
    for b in bodies(I):
        for k in b['blocks']:
            if k['cleanup']: continue
            t = k['t']
            if t[0] == 'call': yield t[1]

def fn_operands(x):
    """functions mentioned as values (passed as arguments, stored)"""
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], dict): yield x['fn']
        for y in x.values():
            for z in fn_operands(y): yield z
    elif isinstance(x, list):
        for y in x:
            for z in fn_operands(y): yield z

def callees(I):
    for f in calls(I):
        yield f
        for z in fn_operands(f.get('indirect')): yield z
    for b in bodies(I):
        for k in b['blocks']:
            if k['cleanup']: continue
            for st in k['s']:
                for z in fn_operands(st): yield z
            t = k['t']
            if t[0] == 'call':
                for z in fn_operands(t[2]): yield z
            for st in k['s']:
                if st[0] == '=' and st[2][0] == 'agg' and isinstance(st[2][1], list) and st[2][1] and st[2][1][0] == 'closure': yield {'inst': st[2][1][1]}

def cpath(f): return f.get('rpath') or f.get('path') or ''

def reach(P, roots):
    """instances reachable through resolved calls"""
    seen, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        for f in callees(P.inst[i]):
            if 'inst' in f and f['inst'] not in seen: todo.append(f['inst'])
    return seen

def decode_roots(P):
    r = [i for (tr, m, t), i in P.resolve.items() if tr in (DEC, DECF, ADEC)]
    for i, I in local_insts(P):
        if I.get('trait', '').endswith('::Decoder') and I['name'] == 'decode': r.append(i)
    return r

def unsafe_uses(P):
    out = []
    for kind, where, loc in P.d.get('unsafe', []):
        if kind == 'unsafe impl' and 'TrivialClone' in where: continue      # made by #[derive(Clone, Copy)]
        out.append((kind, where, loc))
    return out

LOSSY = ('from_utf8_lossy', 'from_utf8_lossy_owned', 'to_string_lossy', 'utf8_chunks', 'from_utf16_lossy', 'valid_up_to', 'from_u32_unchecked', 'from_utf8_unchecked', 'from_digit')

def c22(cx, rep):
    P = cx.P
    # 1. no unsafe operations at all: then text and char types can only be made by the checked constructors
    us = unsafe_uses(P)
    for kind, where, loc in us: rep.bad('%s in %s' % (kind, where), '%s (%s, %s): values could be built without their checks' % (where, kind, loc))
    n = len(P.d.get('traits', [])) + len(local_insts(P))
    rep.cov['functions_scanned'] = len(local_insts(P))
    rep.cov['unsafe_uses'] = len(us)
    for i, I in local_insts(P):
        if not any(w == I['path'] or I['path'].startswith(w + '::') for _, w, _ in us): rep.good('%s: no unsafe operation' % short(I['path']))
    # 2. decoders do not patch invalid text
    dr = reach(P, decode_roots(P))
    for i in sorted(dr):
        I = P.inst[i]
        if not I['file'].startswith('src'): continue
        for f in callees(I):
            m = cpath(f).rsplit('::', 1)[-1]
            if m in LOSSY and not (m == 'valid_up_to'):
                rep.bad('%s in %s' % (m, short(I['path'])), '%s, reached when decoding, calls %s: invalid text is not refused' % (I['path'], cpath(f)))
    rep.cov['decoder_functions'] = len([i for i in dr if P.inst[i]['file'].startswith('src')])
    # 3. each text or char read from the input is the value that was checked
    from rules_decode import all_decoders
    for name, e, r in all_decoders(cx):
        if isinstance(r, Undecided): rep.undec(name, r); continue
        for s, v in r:
            w = opaque_state(e, s)
            okv = v[0] == 'agg' and v[2] == 0
            if not okv: continue
            # an unsuccessful check never leads to a value
            failed = [k for k, x in s.preds.items() if isinstance(k, tuple) and k[0] in ('utf8', 'scalar') and x is False]
            if failed:
                k = failed[0]
                if w: rep.undec(name, w); continue
                rep.bad('%s: invalid %s accepted' % (name, 'text' if k[0] == 'utf8' else 'char'), '%s succeeds although the bytes are not %s (%s)' % (name, 'valid UTF-8' if k[0] == 'utf8' else 'a Unicode scalar value', fmt_state(e, s)))
                continue
            rep.good('%s: text and chars are checked' % name)
    # the text and char primitives themselves
    for T in ('string::String<bytes::Bytes>', 'types::Str', 'types::symbol::Symbol', 'char'):
        t = P.tystr.get(T)
        if t is None or (DECF, 'decode_with_format', t) not in P.resolve: rep.undec(T, 'no decoder'); continue
        e, r = cx.decode_outcomes(DECF, 'decode_with_format', t)
        if isinstance(r, Undecided): rep.undec(T, r); continue
        for s, v in r:
            if not (v[0] == 'agg' and v[2] == 0 and v[3] and v[3][0][0] == 'agg' and len(v[3][0][3]) == 2): continue
            w = opaque_state(e, s)
            val = v[3][0][3][1]
            while val[0] == 'agg' and len(val[3]) == 1: val = val[3][0]
            if val[0] == 'own': val = val[2]
            if T == 'char':
                if val[0] != 'i': rep.undec(T, 'value not modelled'); continue
                L = s.norm(val[1])
                if s.preds.get(('scalar', L)) is True or L.is_const() or any(a[0] == 'v' for a in L.atoms()): rep.good('char: checked value')
                elif any(x[0] == 'charcheck' for x in s.events): rep.bad('char: other value', 'the char %r is not the value that was checked (%s)' % (L, fmt_state(e, s)))
                else: rep.undec(T, w or 'origin of the char')
                continue
            if val[0] == 't' and isinstance(val[1], tuple) and val[1][0] == 'dv': rep.good('%s: read by %s' % (T, val[1][2])); continue
            if val[0] != 'sl': rep.undec(T, 'value not modelled'); continue
            k = ('utf8', val[1], s.norm(val[2]), s.norm(val[3]))
            if s.preds.get(k) is True or s.norm(val[3]) == ZERO: rep.good('%s: checked text' % T)
            elif val[1] == IN0 and not w:
                # text made from other bytes than the checked ones can only come from an unchecked conversion
                rep.undec(T, 'text is not the checked region')
            else: rep.undec(T, w or 'text is not the checked region')

IN0 = ('in', 'input')

# ---------------------------------------------------------------- C26
EFFECTS = [
    (r'^std::time::|^core::time::.*now|SystemTime|Instant::now', 'reads the clock'),
    (r'^chrono::.*(::now|::today)$|chrono::offset::utc::Utc::now|Local::now', 'reads the clock'),
    (r'^std::env::|^std::os::', 'reads the environment'),
    (r'^std::fs::|^std::net::|^std::process::|^std::io::(stdio|_print|_eprint|stdin|stdout|stderr|copy|util)|^std::io::stdio|::_print$|::_eprint$', 'performs I/O'),
    (r'^std::thread::|LocalKey', 'uses thread state'),
    (r'^rand|getrandom|Uuid::new_v[1-7]|RandomState', 'uses randomness'),
    (r'^std::sync::(mutex|rwlock|once|lazy_lock|once_lock|mpmc|mpsc|poison|condvar)|^std::sync::Mutex|^core::sync::atomic|^std::sync::poison', 'uses shared state'),
    (r'backtrace|panic::Location|type_id$', 'depends on the build'),
]
PURE_CRATES = {'core', 'alloc', 'bytes', 'byteorder', 'string', 'uuid', 'chrono', 'hashbrown', 'ordered_float', 'std', 'iovec', 'tokio_io', 'num_traits', 'either'}

def crate_of(p):
    q = re.sub(r"^[<&'a-z ]*?(?:mut )?<*", '', p) if p.startswith('<') else p
    m = re.match(r'([a-z_0-9]+)::', q)
    return m.group(1) if m else None

def c26(cx, rep):
    P = cx.P
    seen = {}
    for st in P.statics:
        if st['mut']: rep.bad('static %s' % st['path'], 'global mutable state: static mut %s' % st['path'])
        elif not st['freeze']: rep.bad('static %s' % st['path'], 'global state with interior mutability: %s' % st['path'])
        else: rep.good('static %s is immutable' % st['path'])
    locals_ = {I['path'].split('::')[0].lstrip('<') for _, I in local_insts(P)}
    for i, I in local_insts(P):
        clean = True
        for f in callees(I):
            p = cpath(f)
            if not p or ('inst' in f and P.inst[f['inst']]['file'].startswith('src')): continue
            seen[p] = seen.get(p, 0) + 1
            for rx, what in EFFECTS:
                if re.search(rx, p):
                    if what == 'depends on the build': continue
                    rep.bad('%s calls %s' % (short(I['path']), short(p)), '%s (%s) calls %s, which %s' % (I['path'], I['file'], p, what))
                    clean = False
        for b in bodies(I):
            for k in b['blocks']:
                for st in k['s']:
                    if st[0] == '=' and st[2][0] == 'cast' and 'PointerExposeProvenance' in str(st[2][1]) or st[0] == '=' and st[2][0] == 'cast' and 'PointerExpose' in str(st[2]):
                        rep.bad('%s uses an address' % short(I['path']), '%s turns an address into a number: what it does may depend on where values are stored' % I['path'])
                        clean = False
        if clean: rep.good('%s: no effect outside its arguments' % short(I['path']))
    for T in sorted({x['s'] for x in P.types}):
        if 'hash_map::RandomState' in T or re.search(r'std::collections::(HashMap|HashSet)<', T) and 'BuildHasherDefault' not in T:
            rep.bad('type %s' % T[:80], 'a map whose order depends on a random seed is used: %s' % T)
    unknown = sorted(p for p in seen if crate_of(p) not in PURE_CRATES and crate_of(p) not in locals_ and '::' in p and crate_of(p) is not None)
    for p in unknown: rep.undec(p, 'callee of another crate without a contract')
    rep.cov['functions_scanned'] = len(local_insts(P))
    rep.cov['foreign_callees'] = len(seen)
    rep.cov['statics'] = len(P.statics)

# ---------------------------------------------------------------- C27
def c27(cx, rep):
    P = cx.P
    n = 0
    for t in P.d.get('traits', []):
        if not t['pub']: continue
        n += 1
        name = t['path']
        if t['lifetimes']:
            rep.bad('%s borrows' % name, 'public type %s has lifetime parameter %s: values of it borrow' % (name, ', '.join(t['lifetimes'])))
        else: rep.good('%s is owned' % name)
        if t['send']: rep.good('%s is Send' % name)
        else:
            w = [f for f in t['fields'] if not f[3]]
            rep.bad('%s is not Send' % name, 'public type %s cannot be sent to another thread: %s' % (name, ', '.join('%s.%s: %s' % (f[0], f[1], f[2]) for f in w[:3]) or 'negative impl'))
    rep.cov['public_types'] = n
    for (tr, m, ty), i in sorted(P.resolve.items()):
        if tr not in (DEC, DECF, ADEC): continue
        T = P.ts(ty)
        if T.startswith('&') or '&' in T and "&'static" not in T: rep.bad('%s is decoded as a borrow' % T, 'decoding yields %s, which borrows' % T)
        else: rep.good('%s: decoded values are owned' % T)
    dr = reach(P, decode_roots(P))
    paths = {P.inst[i]['path'] for i in dr} | {P.inst[i].get('owner') for i in dr}
    for kind, where, loc in unsafe_uses(P):
        if kind == 'unsafe impl': rep.bad('unsafe impl %s' % where, '%s (%s): thread safety is asserted, not derived' % (where, loc)) if re.search(r'Send|Sync', where) else None
        elif where in paths: rep.bad('unsafe in %s' % where, '%s (%s), reached when decoding, uses unsafe operations: a decoded value could alias the input' % (where, loc))
    for i in sorted(dr):
        I = P.inst[i]
        if I['file'].startswith('src'):
            for f in callees(I):
                p = cpath(f)
                if re.search(r'(^|::)(transmute|transmute_copy|leak|from_raw_parts|into_raw|forget)$', p):
                    if p.endswith('leak') or p.endswith('forget'): rep.undec(p, 'in ' + I['path'])
                    else: rep.bad('%s in %s' % (p, short(I['path'])), '%s, reached when decoding, calls %s' % (I['path'], p))
    rep.cov['decoder_functions'] = len([i for i in dr if P.inst[i]['file'].startswith('src')])
