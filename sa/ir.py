"""Loader for the exported, type-resolved program (MIR + resolved callees)."""
import json

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']
        self.adts = {a['path']: a for a in d['adts']}
        self.inst = d['instances']
        self.roots = d['roots']
        self.impls = d['impls']
        self.consts = d['consts']
        self.statics = d['statics']
        self.resolve = {}
        self.assoc = {}
        for tr, name, t, r in d['resolve']:
            if isinstance(r, dict):
                self.assoc[(tr, name, t)] = r['const']
            else:
                self.resolve[(tr, name, t)] = r
        self.tystr = {}
        for i, t in enumerate(self.types):
            self.tystr[t['s']] = i
    def find(self, path):
        """instance by path, modules ignored"""
        import re
        strip = lambda x: re.sub(r'\b(?:[a-z_]\w*::)+', '', x)
        for i, I in enumerate(self.inst):
            if I['path'] == path: return i
        for i, I in enumerate(self.inst):
            if I['file'].startswith('src') and strip(I['path']) == strip(path): return i
        return None
    def ts(self, i):
        return self.types[i]['s']
    def ty(self, i):
        return self.types[i]

def fmt_place(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == '*': s = '(*%s)' % s
        elif e[0] == 'f': s += '.%d' % e[1]
        elif e[0] == 'dc': s += '@%d' % e[1]
        else: s += str(e)
    return s
def fmt_op(P, o):
    if o[0] in 'cm': return fmt_place(o[1])
    if o[0] == 'k':
        c = o[1]
        if 'v' in c: return 'const(%s%s)' % (json.dumps(c['v']), (' '+c['def']) if 'def' in c else '')
        if 'fn' in c: return 'fn ' + c['fn'].get('rpath', c['fn']['path'])
        return 'const(%s:%s)' % ({k: v for k, v in c.items() if k != 'ty'}, P.ts(c['ty']))
    return str(o)
def dump(P, i, out=None):
    import sys
    out = out or sys.stdout
    I = P.inst[i]
    print('== #%d %s [%s] args=%s %s:%d' % (i, I['path'], P.ts(I['self']) if 'self' in I else '', [P.ts(a) for a in I['args']], I['file'], I['line']), file=out)
    def body(B):
        for n, l in enumerate(B['locals']):
            print('   let _%d: %s' % (n, P.ts(l)), file=out)
        for bi, b in enumerate(B['blocks']):
            if b['cleanup']: continue
            print('  bb%d:' % bi, file=out)
            for s in b['s']:
                if s[0] == '=':
                    rv = s[2]
                    r = []
                    for x in rv[1:]:
                        if isinstance(x, list) and x and x[0] in ('c', 'm', 'k') and len(x) == 2: r.append(fmt_op(P, x))
                        elif isinstance(x, list) and len(x) == 2 and isinstance(x[0], int): r.append(fmt_place(x))
                        elif rv[0] == 'agg' and isinstance(x, list) and x and isinstance(x[0], list): r.append('[' + ', '.join(fmt_op(P, y) for y in x) + ']')
                        else: r.append(str(x))
                    print('    %s = %s(%s)' % (fmt_place(s[1]), rv[0], ', '.join(r)), file=out)
                else: print('   ', s, file=out)
            t = b['t']
            if t[0] == 'call':
                f = t[1]
                print('    %s = CALL %s%s<%s>(%s) -> %s' % (fmt_place(t[3]), f.get('rpath', f.get('path', f.get('indirect'))), '#%d' % f['inst'] if 'inst' in f else '', ', '.join(P.ts(a) for a in f.get('args', [])), ', '.join(fmt_op(P, a) for a in t[2]), t[4]), file=out)
            else:
                r = []
                for x in t[1:]:
                    if isinstance(x, list) and x and x[0] in ('c', 'm', 'k') and len(x) == 2: r.append(fmt_op(P, x))
                    else: r.append(str(x))
                print('    %s %s' % (t[0], ', '.join(r)), file=out)
    body(I)
    for k, p in enumerate(I['promoted']):
        print('  promoted', k, file=out)
        body(p)
if __name__ == '__main__':
    import sys
    P = Prog(sys.argv[1])
    for i, I in enumerate(P.inst):
        if len(sys.argv) < 3 or sys.argv[2] in I['path'] or sys.argv[2] == str(i): dump(P, i)
