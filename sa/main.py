"""check driver: main.py PROPERTY [EXPORT.json]   (tier and seed from the environment)"""
import sys, os, json, time, subprocess, tempfile, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from core import *
import registry

class Late(Exception): pass

def known():
    """{(property, key): text} of the recorded findings; 'fixed' lines suppress nothing"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('finding: property='):
            head, _, text = l[len('finding: property='):].partition(' :: ')
            prop, _, key = head.partition(' ')
            out[(prop, key.strip())] = text
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = None
    if len(sys.argv) > 2: path = sys.argv[2]
    else:
        fd, tmp = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        path = tmp
        r = subprocess.run(['bash', os.path.join(ROOT, 'export.sh'), path])
        if r.returncode != 0:
            print('the repository could not be analysed: it does not type-check (or the exporter failed)')
            return 2
    try:
        rule = registry.RULES[prop]
        cx = Ctx(path)
        cx.tier = tier
        rep = Rep(prop)
        def late(*a): raise Late('time limit of the check')
        signal.signal(signal.SIGALRM, late)
        signal.alarm(600)
        try:
            if 'zero' in rule.need: cx.fix_zero()
            if 'zero_dec' in rule.need: cx.fix_zero_dec()
            rule.run(cx, rep)
        except Exception as x:
            # a program shape the analysis does not expect: what is left stays undecided
            if os.environ.get('SA_STRICT') or not isinstance(x, Late) and not rep.ok and not rep.violations: raise
            rep.undec('analysis', 'stopped: %s: %s' % (type(x).__name__, x))
            traceback.print_exc(file=sys.stderr)
        signal.alarm(0)
    finally:
        if tmp: os.unlink(tmp)
    kf = known()
    viol, listed = [], []
    for k, t in rep.violations:
        (listed if (prop, k) in kf else viol).append((k, t))
    for k, t in listed: print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k, kf[(prop, k)]))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    fns = sorted({cx.P.inst[i]['path'] for i in cx.analysed})
    total = len(rep.ok) + len(rep.undecided) + len(rep.violations)
    cov = {
        'explanation': rule.explain,
        'obligations': total, 'discharged': len(rep.ok), 'undecided': len(rep.undecided),
        'known_findings': [k for k, _ in listed],
        'functions_analysed': len(fns), 'functions': fns[:400],
        'abstract_steps': cx.steps,
        'samples': [str(x)[:300] for x in rep.samples()],
        'undecided_list': [[k, w] for k, w in rep.undecided[:60]],
        'unmodelled_callees': cx.unknown,
        'counts': rep.cov,
        'notes': rep.notes[:40],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': rule.assume,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d known findings; %d functions analysed, %.1fs' % (
        prop, total, len(rep.ok), len(rep.undecided), len(viol), len(listed), len(fns), time.time() - t0))
    if os.environ.get('SA_DEBUG'):
        for k, w in rep.undecided[:int(os.environ['SA_DEBUG']) * 20]: print('  undecided', k, '--', w)
        for n in rep.notes[:40]: print('  note', n)
        print('  cov', rep.cov)
    if viol:
        rp = os.path.join(ROOT, 'evidence', prop + '.violations.txt')
        with open(rp, 'w') as f:
            for k, t in viol: f.write('%s\n    %s\n\n' % (k, t))
        for k, t in viol[:25]:
            print('  violated: %s\n    %s' % (k, t[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
