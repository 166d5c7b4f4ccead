"""check.py PROPERTY: decides one property on the facts of the current tree."""
import fcntl, hashlib, importlib, json, os, subprocess, sys, time
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.setrecursionlimit(20000)


def extract(repo, out):
    os.makedirs(os.path.join(root, '.build'), exist_ok=True)
    with open(os.path.join(root, '.build', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for cmd in ([os.path.join(root, 'bin', 'extract.sh'), out, repo], [os.path.join(root, 'bin', 'build_models.sh')]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-4000:])
                sys.exit(3)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    repo = os.environ.get('SEAM_REPO', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--facts' in sys.argv: fd = sys.argv[sys.argv.index('--facts') + 1]
    else:
        fd = os.path.join(root, '.build', 'facts-%s-%d' % (pid, os.getpid()))
        extract(repo, fd)
    from facts import Facts
    from common import Ctx, spanstr
    F = Facts().load(fd + '/seam-lib.json').load(fd + '/seam-bin.json').load(os.path.join(root, '.build/models/models-lib.json'))
    pm = fd + '/seam_argparse_proc_macro-pm.json'
    F.pm = Facts().load(pm) if os.path.exists(pm) else None
    if '--facts' not in sys.argv:
        subprocess.run(['find', fd, '-delete'])
    ctx = Ctx(pid, F, tier)
    mod = importlib.import_module('props.' + pid)
    try: mod.check(ctx)
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        if os.environ.get('SEAM_DEBUG'): traceback.print_exc()
        ctx.violation('undecided', pid, None, 'the analysis cannot decide this tree: %s: %s (%s)' % (type(x).__name__, str(x)[:300], ', '.join('%s:%d' % (os.path.basename(t.filename), t.lineno) for t in tb[-3:])))
    if getattr(mod, 'MIN_OBLIGATIONS', 0): ctx.floor('obligations', len(ctx.obligations), mod.MIN_OBLIGATIONS)
    ctx.floor('functions', len(ctx.functions), getattr(mod, 'MIN_FUNCTIONS', 1))
    known = {}
    for l in open(os.path.join(root, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('known: property=%s ' % pid):
            key = l.split(' ', 2)[2].split(' :: ')[0]
            known[key] = l.split(' :: ', 1)[1] if ' :: ' in l else ''
    evd = os.path.join(root, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    bad = 0
    for key, v in ctx.violations.items():
        if key in known:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, key, known[key]))
            continue
        bad += 1
        rp = os.path.join(evd, 'replay', '%s-%s.txt' % (pid, hashlib.sha1(key.encode()).hexdigest()[:8]))
        with open(rp, 'w') as f:
            f.write('property: %s\nrule: %s\nfunction: %s\nat: %s\n%s\n' % (pid, v['rule'], v['function'], spanstr(v['span']), v['message']))
            if v['trace']: f.write('path: ' + ' | '.join(str(x) for x in v['trace']) + '\n')
        print('%s: %s: [%s] %s' % (spanstr(v['span']), v['function'], v['rule'], v['message'][:1200]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    good = sum(1 for o in ctx.obligations if o[2])
    rules = {}
    for r, w, okk, d in ctx.obligations: rules.setdefault(r, []).append(w)
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip() + ' Decided on the MIR of the current tree; nothing is executed.',
            'obligations': len(ctx.obligations), 'discharged': good,
            'functions_analysed': len(ctx.functions), 'functions': sorted(ctx.functions)[:80],
            'abstract_states': ctx.states, 'abstract_edges': ctx.edges, 'labelled_steps': ctx.sites,
            'rules': {r: len(w) for r, w in sorted(rules.items())},
            'samples': ['%s @ %s: %s' % (o[0], o[1], 'held' if o[2] else 'VIOLATED') for o in ctx.obligations[:12]],
        },
        'assumptions': getattr(mod, 'ASSUMES', []) + ['the models of the standard library in /verif/models and /verif/analysis/models.py', 'rustc builds MIR faithfully'],
        'wall_s': round(time.time() - t0, 2), 'violations': bad,
    }
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %d abstract states, %.1fs' % (pid, len(ctx.obligations), good, len(ctx.functions), ctx.states, time.time() - t0))
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
