"""C25: the library against the machine-readable specification bundled in the repository (read on every run)."""
import os, json, re
from core import *
import rules_spec as R
from rules_spec import camel, fieldname, local_type, rust_kind, kind_fits, opt_inner, struct_fields

PRIMS = {'null', 'boolean', 'ubyte', 'ushort', 'uint', 'ulong', 'byte', 'short', 'int', 'long', 'float', 'double', 'char', 'timestamp', 'uuid', 'binary', 'string', 'symbol', 'list', 'map', 'array'}
MAPS = {'fields': 'map<symbol>', 'annotations': 'map<symbol>', 'string-variant-map': 'map<string>'}

def load():
    repo = os.environ.get('REPO', '/repo')
    return json.load(open(os.path.join(repo, 'codegen', 'specification.json')))

class Bundled:
    def __init__(self, entries):
        self.by = {}
        for x in entries: self.by[x['name']] = x
        self.comp, self.restr, self.sect, self.groups, self.alias = {}, {}, {}, {}, {}
        prov = {}
        for n, x in self.by.items():
            for g in [y.strip() for y in (x.get('provides') or '').split(',') if y.strip()]: prov.setdefault(g, []).append(n)
        self.prov = prov
        self.problems = []
        for n, x in self.by.items():
            d = x.get('descriptor')
            if x.get('class') == 'composite':
                fs = []
                for f in x.get('field', []):
                    dflt = f.get('default')
                    fs.append({'name': f['name'], 'kind': self.kind(f['type'], f.get('requires')), 'mandatory': f.get('mandatory') == 'true', 'multiple': f.get('multiple') == 'true', 'default': dflt})
                self.comp[n] = {'code': self.code(d), 'symbol': d['name'], 'fields': fs}
            elif 'choice' in x:
                self.restr[n] = {'source': x['source'], 'choices': [[c['name'], c['value']] for c in x['choice']]}
            elif d: self.sect[n] = {'code': self.code(d), 'symbol': d['name'], 'kind': self.kind(x['source'], None)}
            else: self.alias[n] = self.kind(n, None)
        for g, ms in prov.items():
            if g in R.GTYPE: self.groups[g] = ms

    def code(self, d):
        a, b = d['code'].split(':')
        return (int(a, 16) << 32) + int(b, 16)

    def kind(self, ty, req):
        if req:
            ms = self.prov_of(req)
            if req in R.GTYPE: return 'poly:' + req
            if req in ('message-id', 'error-condition', 'distribution-mode'): return req
            if len(ms) == 1: return self.kind(ms[0], None)
            return None
        if ty == '*': return '*'
        if ty in MAPS: return MAPS[ty]
        if ty in PRIMS: return ty
        x = self.by.get(ty)
        if x is None: return None
        if x.get('class') == 'composite': return 'composite:' + ty
        if 'choice' in x: return 'restricted:' + ty
        return self.kind(x['source'], None)

    def prov_of(self, g):
        return [n for n, x in self.by.items() if g in [y.strip() for y in (x.get('provides') or '').split(',')]]

def declared(cx, rep, B):
    """what the type declarations say"""
    P = cx.P
    al = {k.rsplit('::', 1)[-1]: P.ts(v) for k, v in P.d.get('aliases', {}).items()}
    names = {a.rsplit('::', 1)[-1] for a in P.adts}
    for n, spec in B.comp.items():
        T = local_type(P, camel(n))
        fs = T and struct_fields(P, T)
        if not fs and fs != []:
            if T is None and camel(n) not in names: rep.bad(n, 'the library has no type for the composite %s' % n)
            else: rep.undec(n, 'not a plain struct')
            continue
        by = {fieldname(f['name']): f for f in fs}
        for f in spec['fields']:
            k = '%s.%s' % (n, f['name'])
            g = by.pop(fieldname(f['name']), None)
            if g is None: rep.bad(k, '%s: the library has no field %s' % (n, f['name'])); continue
            FT = P.ts(g['tid'])
            opt = opt_inner(FT)
            want = not f['mandatory'] and f['default'] is None
            if bool(opt) != want: rep.bad(k, '%s: field %s is %s in the specification, its type is %s' % (n, f['name'], 'optional' if want else 'always present', FT)); continue
            fits = kind_fits(P, opt or FT, f) if f['kind'] else None
            if fits is None: rep.undec(k, 'AMQP type of %s' % FT)
            elif fits: rep.good('%s: declared with the specified optionality and type' % k)
            else: rep.bad(k, '%s: field %s is specified as %s, its type is %s' % (n, f['name'], f['kind'], FT))
        for x in by:
            if (n, x) == ('transfer', 'body'): rep.good('transfer.body is the payload'); continue
            rep.bad('%s.%s' % (n, x), '%s: field %s is not in the specification' % (n, x))
    for n, spec in B.restr.items():
        T = local_type(P, camel(n))
        a = P.adts.get(T) if T else None
        if a is None:
            if camel(n) not in names: rep.bad(n, 'the library has no type for %s' % n)
            else: rep.undec(n, 'not found')
            continue
        if a['kind'] != 'enum': rep.undec(n, 'not an enumeration'); continue
        have, want = {v['name'] for v in a['variants']}, {camel(c) for c, _ in spec['choices']}
        for x in sorted(want - have): rep.bad('%s %s' % (n, x), '%s: the library has no choice %s' % (n, x))
        for x in sorted(have - want): rep.bad('%s %s' % (n, x), '%s: choice %s is not in the specification' % (n, x))
        for x in sorted(want & have): rep.good('%s: choice %s exists' % (n, x))
    for g, ms in B.groups.items():
        T = local_type(P, R.GTYPE[g])
        a = P.adts.get(T) if T else None
        if a is None or a['kind'] != 'enum': rep.undec(g, 'no enumeration'); continue
        have = {v['name'] for v in a['variants']} - ({'Empty'} if g == 'frame' else set())
        want = {camel(m) for m in ms}
        for x in sorted(want - have): rep.bad('%s %s' % (g, x), '%s: the library does not provide for %s' % (g, x))
        for x in sorted(have - want): rep.bad('%s %s' % (g, x), '%s: %s is not one in the specification' % (g, x))
        for x in sorted(want & have): rep.good('%s: %s is one' % (g, x))
    for n, k in list(B.alias.items()) + [(n, s['kind']) for n, s in B.sect.items()]:
        T = al.get(camel(n))
        if T is None:
            if camel(n) in names: rep.undec(n, 'a type of its own')
            else: rep.bad(n, 'the library has no type named %s' % camel(n))
            continue
        fits = kind_fits(P, T, {'kind': k}) if k else None
        if fits is None: rep.undec(n, 'AMQP type of %s' % T)
        elif fits: rep.good('%s is %s' % (n, k))
        else: rep.bad(n, '%s is specified as %s, the library has %s' % (n, k, T))
    T = local_type(P, 'ErrorCondition')
    a = P.adts.get(T) if T else None
    if a:
        have = {v['name'] for v in a['variants']}
        for n in B.prov_of('error-condition'):
            if camel(n) in have: rep.good('error-condition: %s is one' % n)
            else: rep.bad('error-condition %s' % n, 'error conditions do not include %s' % n)

def c25(cx, rep):
    try: B = Bundled(load())
    except (OSError, ValueError, KeyError, TypeError) as x:
        rep.undec('specification', 'the bundled specification cannot be read: %r' % x)
        return
    declared(cx, rep, B)
    rep.cov['composites'], rep.cov['restricted'], rep.cov['sections'], rep.cov['aliases'] = len(B.comp), len(B.restr), len(B.sect), len(B.alias)
    restr = dict(B.restr)
    restr['std-dist-mode'] = R.RESTR['std-dist-mode']
    saved = R.COMP, R.RESTR, R.SECT, R.GROUPS, R.DESCR
    try:
        R.COMP, R.RESTR, R.SECT = B.comp, restr, B.sect
        R.GROUPS = {g: B.groups.get(g, saved[3][g]) for g in saved[3]}
        R.DESCR = dict(B.comp)
        R.DESCR.update(B.sect)
        R.c10(cx, rep)
        R.c11(cx, rep)
        R.c12(cx, rep)
        R.c13(cx, rep)
    finally: R.COMP, R.RESTR, R.SECT, R.GROUPS, R.DESCR = saved
