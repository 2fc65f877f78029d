"""C15: messages as sequences of sections."""
from fns import *
import eng as E
from builtins_ import full
from rules_size import fmt_state
from rules_decode import opaque_state, has_opq
from rules_obs import memo_types
from rules_text import precise
from rules_spec import SECT, COMP, DESCR, camel, snake, fieldname, local_type, ok_payload, section_contents, GROUPS, sym_pred
from rules_api import veq, empty, concrete, all3, shown
from wire import Wire, Bad, Unk

ORDER = ['header', 'delivery-annotations', 'message-annotations', 'properties', 'application-properties', 'body', 'footer']
BODY = {'data': 'data', 'sequence': 'amqp-sequence', 'value': 'amqp-value', 'messages': 'data'}
BODYKINDS = ('data', 'amqp-sequence', 'amqp-value')
UNROLL = {'quick': 3, 'thorough': 4}
ENC, DECODE = 'codec::Encode', 'codec::Decode'

def rank(k): return ORDER.index('body' if k in BODYKINDS or k == 'body' else k)

def message_types(P):
    """local structs that carry the sections of a message, and their body type"""
    out, bodies = [], set()
    for t, ty in enumerate(P.types):
        if ty['k'] != 'adt' or (ENC, 'encode', t) not in P.resolve: continue
        a = P.adts.get(ty['path'])
        if a is None or not a['local'] or a['kind'] != 'struct': continue
        fs = {f['name']: f['tid'] for f in a['variants'][0]['fields']}
        if 'body' in fs and 'header' in fs and 'footer' in fs:
            out.append(t)
            bodies.add(fs['body'])
    return out, bodies

class Enc15:
    def __init__(self, cx, rep):
        self.cx, self.rep, self.P = cx, rep, cx.P
        self.msgs, self.bodies = message_types(cx.P)
        self.bodynames = {cx.P.ts(t) for t in self.bodies}
        self.w = Wire(cx)
        self.comp = {}
        for n in ('header', 'properties'):
            T = local_type(cx.P, camel(n))
            if T: self.comp[T] = n

    def kind_of(self, s, d):
        """section a descriptor stands for"""
        if d[0] == 'prim' and d[1] in (0x80, 0x53) and d[2][0] == 'int':
            x = s.norm(d[2][2])
            if x.is_const():
                for n in ORDER + list(BODYKINDS):
                    if n != 'body' and DESCR[n]['code'] == x.c: return n
                return 'unknown (descriptor %d)' % x.c
        if d[0] == 'prim' and d[1] == 0x44: return 'unknown (descriptor 0)'
        return None

    def sections(self, e, s, nodes):
        out = []
        for n in nodes:
            if n[0] == 'enc' and n[1] in self.comp: out.append((self.comp[n[1]], n))
            elif n[0] == 'enc' and n[1] in self.bodynames: out.append(('body', n))
            elif n[0] == 'desc':
                k = self.kind_of(s, n[1])
                if k is None: raise Unk('descriptor')
                out.append((k, n[2]))
            elif n[0] == 'star':
                alts = []
                for ctx, inner in n[2]: alts.append(self.sections(e, s, inner))
                out.append(('many', n[1], alts))
            elif n[0] == 'enc': out.append(('not a section (%s)' % n[1], n))
            elif n[0] == 'pre': raise Unk('pre-encoded')
            else: out.append(('not a section (constructor 0x%02x)' % n[1] if isinstance(n[1], int) else 'not a section', n))
        return out

    def content(self, node):
        """the value a section carries"""
        if node[0] == 'enc': return node[2]
        if node[0] == 'var' and len(node[3]) == 1 and node[3][0][0] == 'Enc': return node[3][0][2]
        return None

    def judge(self, e, s, name, secs, owner, fields, isbody):
        """secs: what is written; fields: name -> (section, optional?, tid)"""
        rep = self.rep
        vag = opaque_state(e, s)
        def bad(key, text):
            if vag or not precise(e, s): rep.undec(name, vag or 'conditions not modelled')
            else: rep.bad('%s: %s' % (name, key), '%s: %s, for a value with %s' % (name, text, fmt_state(e, s)))
        seen = {}
        last = None
        lits = 0
        certain = False
        for x in secs:
            if x[0] == 'many':
                drv = x[1]
                f = next((n for n in fields if drv == ('coll', ('fld', owner, '', n))), None)
                alts = x[2]
                if f is None:
                    if drv[0] == 'coll' and concrete(drv[1]): bad('sections for something else', 'writes sections for each element of %s' % E.show(drv[1]))
                    else: rep.undec(name, 'a repeated section for %s' % str(drv)[:80])
                    continue
                el = ('elem', drv[1])
                kind = fields[f][0]
                ok = True
                for a in alts:
                    if len(a) != 1 or a[0][0] == 'many':
                        ok = False
                        bad('elements of %s' % f, 'an element of %s is written as %d sections' % (f, len(a)))
                    elif a[0][0] != kind:
                        ok = False
                        bad('section for %s' % f, '%s is written as section %s, %s is specified' % (f, a[0][0], kind))
                    else:
                        c = self.content(a[0][1])
                        if c == el: continue
                        ok = False
                        if c is not None and concrete(c): bad('elements of %s' % f, 'an element of %s is written with the content %s' % (f, E.show(c)))
                        else: rep.undec(name, 'content of the sections for %s' % f)
                if ok: rep.good('%s: every element of %s is one %s section' % (name, f, kind))
                seen[f] = seen.get(f, 0) + 1
                k = kind
            else:
                k, node = x
                if k not in ORDER and k not in BODYKINDS:
                    bad('unspecified section', 'writes something that is %s' % k if k.startswith('not') else 'writes the section %s' % k)
                    continue
                c = self.content(node)
                f = next((n for n, d in fields.items() if c is not None and c in (('fld', owner, '', n), ('fld', ('fld', owner, '', n), 'Some', '0'))), None)
                if f is None:
                    if node[0] == 'var' and not node[3] and k == 'data' or node[0] in ('prim', 'comp') and k in BODYKINDS and not mentions(node, lambda y: y == ('arg', 'self')):
                        lits += 1
                        certain = True
                        if last is not None and rank(last) > rank(k): bad('order', 'writes %s after %s' % (k, last))
                        last = k
                        if not self.nobody(e, s, owner, fields): bad('a body that is not there', 'writes a %s section of its own although the message may have a body' % k)
                        else: rep.good('%s: an empty body section stands for no body' % name)
                        continue
                    if c is not None and concrete(c): bad('content of %s' % k, 'section %s carries %s' % (k, E.show(c)))
                    else: rep.undec(name, 'content of section %s' % k)
                    if last is not None and rank(last) > rank(k): bad('order', 'writes %s after %s' % (k, last))
                    last = k
                    continue
                if fields[f][0] != k: bad('section for %s' % f, '%s is written as section %s, %s is specified' % (f, k, fields[f][0]))
                else: rep.good('%s: %s is the %s section' % (name, f, k))
                seen[f] = seen.get(f, 0) + 1
                if k == 'body' and self.body_size_known(e, s, owner, f, fields[f][2]) or k in BODYKINDS: certain = True
            if last is not None and rank(last) > rank(k): bad('order', 'writes %s after %s' % (k, last))
            elif last is not None: rep.good('%s: %s after %s' % (name, k, last))
            last = k
        for f, (k, opt, t) in fields.items():
            n = seen.get(f, 0)
            term = ('fld', owner, '', f)
            if opt:
                v = s.variants.get(term)
                if v is None and 1 in s.nvar.get(term, ()): v = 0
                if v == 0: need = 0
                else: need = 1 # may well be present
            elif k == 'body': need = 0 if self.nobody(e, s, owner, fields) else 1
            else: need = 0 if s.equal(e.lenof(term), ZERO) else 1
            if n > 1: bad('%s twice' % f, 'writes %s %d times' % (f, n))
            elif n < need: bad('%s missing' % f, 'does not write %s' % f)
            else: rep.good('%s: %s %s' % (name, f, 'written once' if n else 'absent'))
        if not isbody:
            if not certain: certain = self.infeasible(e, s, owner, fields)
            if certain: rep.good('%s: has a body' % name)
            else: bad('no body', 'may be written without any body section')

    def body_term(self, owner, f): return ('fld', owner, '', f)

    def body_size_known(self, e, s, owner, f, t):
        return s.implies(e.size_atom(ENC, self.P.ts(t), self.body_term(owner, f)) - 1)

    def body_fields(self, fields):
        b = next(((f, t) for f, (k, o, t) in fields.items() if k == 'body'), None)
        return b

    def nobody(self, e, s, owner, fields):
        """the message has nothing in its body for sure"""
        b = self.body_fields(fields)
        if b is None: return True
        f, t = b
        if s.equal(e.size_atom(ENC, self.P.ts(t), self.body_term(owner, f)), ZERO): return True
        a = self.P.adts.get(self.P.types[t].get('path'))
        if a is None: return False
        for g in a['variants'][0]['fields']:
            term = ('fld', self.body_term(owner, f), '', g['name'])
            if self.P.types[g['tid']].get('path') == 'core::option::Option':
                if not (s.variants.get(term) == 0 or 1 in s.nvar.get(term, ())): return False
            elif not s.equal(e.lenof(term), ZERO): return False
        return True

    def infeasible(self, e, s, owner, fields):
        """no empty body is possible on this path"""
        b = self.body_fields(fields)
        if b is None: return None
        f, t = b
        z = s.copy()
        if not z.addeq(e.size_atom(ENC, self.P.ts(t), self.body_term(owner, f))): return True
        a = self.P.adts.get(self.P.types[t].get('path'))
        for g in a['variants'][0]['fields'] if a else ():
            term = ('fld', self.body_term(owner, f), '', g['name'])
            if self.P.types[g['tid']].get('path') == 'core::option::Option':
                if z.variants.get(term) == 1: return True
            elif not z.addeq(e.lenof(term)): return True
        return False

    def run(self):
        rep, P = self.rep, self.P
        for t in self.msgs: self.one(t, False)
        for t in self.bodies: self.one(t, True)
        rep.cov['message types'] = len(self.msgs)
        rep.cov['body types'] = len(self.bodies)

    def one(self, t, isbody):
        rep, P, cx = self.rep, self.P, self.cx
        name = P.ts(t).rsplit('::', 1)[-1]
        if (ENC, 'encode', t) not in P.resolve: rep.undec(name, 'no encoder'); return
        fields = {}
        memo = {f['name'] for _, f in memo_types(P).get(P.types[t]['path'], [])}
        for f in P.adts[P.types[t]['path']]['variants'][0]['fields']:
            n = f['name']
            if n in memo: continue
            opt = P.types[f['tid']].get('path') == 'core::option::Option'
            if isbody:
                if n in BODY: fields[n] = (BODY[n], opt, f['tid'])
                else: rep.undec(name, 'part %s is not known' % n)
            elif n == 'body': fields[n] = ('body', False, f['tid'])
            else:
                k = n.replace('_', '-')
                if k in ORDER: fields[n] = (k, opt, f['tid'])
                else: rep.cov.setdefault('parts that are no section', []).append('%s.%s' % (name, n))
        e, r = cx.outcomes(ENC, 'encode', t)
        if isinstance(r, Undecided): rep.undec(name, r); return
        owner = ('arg', 'self')
        for s, v in r:
            b = s.cells['buf']
            if b[0] != 'bm': rep.undec(name, 'output not modelled'); continue
            try: secs = self.sections(e, s, self.w.seq(e, s, b[4], P.ts(t)))
            except Bad as x:
                if opaque_state(e, s): rep.undec(name, opaque_state(e, s))
                else: rep.bad('%s: not a sequence of sections' % name, '%s: %s, for a value with %s' % (name, x, fmt_state(e, s)))
                continue
            except Unk as x: rep.undec(name, str(x)); continue
            self.judge(e, s, name, secs, owner, fields, isbody)

# ---- reading ----

class Dec15:
    def __init__(self, cx, rep):
        self.cx, self.rep, self.P = cx, rep, cx.P
        self.msgs, self.bodies = message_types(cx.P)
        self.S = local_type(cx.P, 'Section')
        self.kinds = {camel(k): k for k in GROUPS['section']}

    def events(self, evs):
        return [x for x in evs if x[0] == 'dec' and x[2] == self.S]

    def payload(self, e, s, dv):
        k = s.variants.get(dv)
        names = e.variant_names(self.P.tystr[self.S])
        if k is None:
            left = [i for i in range(len(names)) if i not in s.nvar.get(dv, ())]
            if len(left) != 1: return None, None
            k = left[0]
        return self.kinds.get(names[k]), e.expand(s, ('t', dv, self.P.tystr[self.S]), k)[3][0]

    def same(self, e, s, x, want):
        """x has the content of want, possibly in another container"""
        if full(e, s, x) == full(e, s, want): return True
        q = veq(self.cx, e, s, x, want)
        if q is True: return True
        x = full(e, s, x)
        while x[0] == 'agg' and len(x[3]) == 1: x = full(e, s, x[3][0])
        w = full(e, s, want)
        if x[0] in ('vec', 'map') and w[0] == 't':
            if len(x[2]) == 1 and x[2][0][0] == 'base': return x[2][0][1] == w[1]
            if len(x[2]) == 1 and x[2][0][0] == 'star' and x[2][0][1] == ('coll', w[1]):
                el = ('elem', w[1])
                outs = x[2][0][2]
                if len(outs) == 1 and len(outs[0][3]) == 1 and not any(outs[0][:3]):
                    it = outs[0][3][0]
                    if it[0] == 'one':
                        y = full(e, s, it[1])
                        if y[0] == 'agg' and len(y[3]) == 2:
                            a = all3(True if e.term(full(e, s, z)) == ('fld', el, '', str(k)) else False if concrete(e.term(full(e, s, z))) else None for k, z in enumerate(y[3]))
                            return a
                        if e.term(y) == el: return True
                if any(len(o[3]) != 1 for o in outs): return False if not has_top(outs) else None
            if not x[2]: return False
            return None
        return q

    def field(self, e, s, x, got, isopt):
        """got: payloads of the sections of that kind in order.  None when not judged"""
        x = full(e, s, x)
        if isopt:
            if len(got) == 0: return empty(self.cx, e, s, x)
            if len(got) > 1: return 'skip'
            if x[0] == 't': return False if concrete(x[1]) else None
            if x[0] != 'agg': return None
            if x[2] != 1: return False
            return self.same(e, s, x[3][0], got[0])
        if x[0] == 'vec':
            if has_top(x): return None
            if all(y[0] == 'one' for y in x[2]):
                if len(x[2]) != len(got): return False
                return all3(veq(self.cx, e, s, a[1], b) for a, b in zip(x[2], got))
        return None

    def parts(self, e, s, val):
        """(field, section kind, value, optional)"""
        P = self.P
        val = full(e, s, val)
        if val[0] != 'agg': return None
        out = []
        a = e.adt(val[1])
        for f, x in zip(a['variants'][0]['fields'], val[3]):
            opt = P.types[f['tid']].get('path') == 'core::option::Option'
            if f['name'] == 'body':
                x = full(e, s, x)
                if x[0] == 't': x = e.expand(s, x, None)
                if x[0] != 'agg': return None
                for g, y in zip(e.adt(x[1])['variants'][0]['fields'], x[3]):
                    o = P.types[g['tid']].get('path') == 'core::option::Option'
                    if g['name'] == 'messages': out.append(('body.messages', None, y, o))
                    elif g['name'] in BODY: out.append(('body.' + g['name'], BODY[g['name']], y, o))
            elif f['name'].replace('_', '-') in ORDER: out.append((f['name'], f['name'].replace('_', '-'), x, opt))
        return out

    def run(self):
        rep, cx, P = self.rep, self.cx, self.P
        if self.S is None: rep.undec('sections', 'no Section type'); return
        names = {v['name'] for v in P.adts[P.types[P.tystr[self.S]]['path']]['variants']}
        for n in self.kinds:
            if n not in names: rep.bad('Section: no %s' % n, 'the section type has no kind for %s' % n)
        section_contents(cx, rep)
        total = 0
        for t in self.msgs:
            if (DECODE, 'decode', t) not in P.resolve: continue
            total += self.bounded(t)
            self.step(t)
        rep.cov['section sequences followed (up to %d sections)' % UNROLL[self.cx.tier]] = total

    def bounded(self, t):
        rep, cx, P = self.rep, self.cx, self.P
        name = P.ts(t).rsplit('::', 1)[-1]
        k = ('dec15', t)
        if k not in cx.cache:
            e = cx.eng()
            e.unroll_max = UNROLL[cx.tier]
            st = State()
            r = cx.go(e, P.resolve[(DECODE, 'decode', t)], [('sl', ('in', 'input'), ZERO, e.lenof(('arg', 'input')), 'b')], st)
            cx.absorb(e)
            cx.cache[k] = e, r
        e, r = cx.cache[k]
        if isinstance(r, Undecided): rep.undec(name, r); return 0
        n = 0
        for s, v in r:
            evs = self.events(s.events)
            if any(x[0] == 'loop' for x in s.events if mentions(x, lambda y: len(y) > 2 and y[0] == 'dec' and y[2] == self.S)): rep.undec(name, 'sections read in a loop that is not followed'); continue
            vag = opaque_state(e, s)
            def bad(key, text):
                if vag or not precise(e, s): rep.undec(name, vag or 'conditions not modelled')
                else: rep.bad('%s: %s' % (name, key), '%s, after the sections %s: %s' % (name, ', '.join(map(str, ks)) or 'none', text))
            got = []
            ks = []
            okk = True
            for x in evs:
                dv = ('dv',) + tuple(x[1:5]) + (x[6],)
                if not x[7]: continue
                kind, pl = self.payload(e, s, dv)
                if kind is None: okk = False; break
                got.append((kind, pl))
                ks.append(kind)
            if not okk: rep.undec(name, 'kind of a section not decided'); continue
            n += 1
            fail = any(not x[7] for x in evs)
            pl = ok_payload(v)
            if pl is None:
                if v[0] == 'agg' and v[2] == 1:
                    if fail: rep.good('%s: an unreadable section is an error' % name); continue
                    rs = [rank(k) for k in ks]
                    if not evs: rep.good('%s: nothing read' % name); continue
                    if rs == sorted(rs) and all(ks.count(k) == 1 for k in ks if k not in BODYKINDS) and len(set(k for k in ks if k in BODYKINDS)) <= 1 and ks.count('amqp-value') <= 1: bad('refused', 'a well-formed sequence of sections is refused')
                    else: rep.good('%s: refused' % name)
                else: rep.undec(name, 'result not modelled')
                continue
            if fail: bad('unreadable section accepted', 'a section that cannot be read is passed over'); continue
            ps = self.parts(e, s, pl[1])
            if ps is None: rep.undec(name, 'message not modelled'); continue
            for f, kind, x, opt in ps:
                q = self.field(e, s, x, [p for k, p in got if k == kind], opt)
                if q == 'skip': continue
                if q is True: rep.good('%s: %s has what was read' % (name, f))
                elif q is False: bad('%s is not what was read' % f, '%s is not what was read (%s)' % (f, shown(e, full(e, s, x))))
                else: rep.undec(name, '%s not modelled' % f)
            rest = full(e, s, pl[0])
            if rest[0] == 'sl':
                if s.equal(rest[3], ZERO): rep.good('%s: read to the end' % name)
                elif ks and ks[-1] != 'footer': bad('stops early', 'more sections may follow and are not read')
        return n

    def step(self, t):
        """any number of sections: what one more section does to a message read so far"""
        rep, cx, P = self.rep, self.cx, self.P
        name = P.ts(t).rsplit('::', 1)[-1]
        e, r = cx.decode_outcomes(DECODE, 'decode', t)
        if isinstance(r, Undecided): rep.undec(name, r); return
        n = 0
        for lg in e.looplog:
            if not lg['collect']: continue
            cells = [c for c, G in lg['gvals'].items() if G[0] == 'agg' and G[1] == t]
            if len(cells) != 1: continue
            c = cells[0]
            G = lg['gvals'][c]
            nb = len(lg['before'].events)
            for adv, s in lg['backs']:
                n += self.transition(e, s, name, self.events(s.events[nb:]), G, s.cells.get(c), 'continuing')
            for s, v in r:
                pl = ok_payload(v)
                if not pl: continue
                i = max([k for k, x in enumerate(s.events) if x[0] == 'loop'], default=-1)
                n += self.transition(e, s, name, self.events(s.events[i + 1:]), G, pl[1], 'at the end')
        rep.cov.setdefault('steps of the reading loop', 0)
        rep.cov['steps of the reading loop'] += n

    def transition(self, e, s, name, evs, G, V, where):
        rep = self.rep
        vag = opaque_state(e, s)
        if V is None or len(evs) != 1 or not evs[0][7]: return 0
        x = evs[0]
        kind, pl = self.payload(e, s, ('dv',) + tuple(x[1:5]) + (x[6],))
        if kind is None: return 0
        a, b = self.parts(e, s, G), self.parts(e, s, V)
        if a is None or b is None: return 0
        for (f, k, p, opt), (_, _, q, _) in zip(a, b):
            p, q = full(e, s, p), full(e, s, q)
            if k == kind:
                if opt: r = self.field(e, s, q, [pl], True)
                elif q[0] == 'vec' and q[2] and q[2][-1][0] == 'one' and items(p) == q[2][:-1]: r = self.same(e, s, q[2][-1][1], pl)
                elif items(q) is not None and items(q) == items(p): r = False
                else: r = None
                if r is True: rep.good('%s: %s takes the section (%s)' % (name, f, where))
                elif r is False and not vag: rep.bad('%s: %s is not what was read' % (name, f), '%s: a further %s section does not end up in %s (%s)' % (name, kind, f, shown(e, q)))
                else: rep.undec(name, '%s not modelled in the loop' % f)
            else:
                if q == p or items(q) is not None and items(q) == items(p): rep.good('%s: %s is left alone by %s (%s)' % (name, f, kind, where))
                elif q[0] == 'agg' and q[2] == 0 and not q[3] or items(q) == (): 
                    if not vag: rep.bad('%s: %s lost' % (name, f), '%s: a %s section clears %s' % (name, kind, f))
                    else: rep.undec(name, vag)
                else: rep.undec(name, '%s not modelled in the loop' % f)
        return 1

def items(v):
    if v[0] in ('vec', 'map'): return v[2]
    if v[0] == 't': return (('base', v[1]),)
    return None

def c15(cx, rep):
    Enc15(cx, rep).run()
    Dec15(cx, rep).run()
