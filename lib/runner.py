#!/opt/venv/bin/python
"""Runs the cases of one check in parallel, collects what the monitors saw, writes evidence and the verdict."""
import sys, os, json, time, hashlib, traceback, signal, importlib, random, resource, tempfile
sys.dont_write_bytecode = True
LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
sys.path[:0] = [LIB, os.path.join(ROOT, 'checks')]
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

class Violation(Exception):
    def __init__(self, msg, key = None, detail = None):
        Exception.__init__(self, msg)
        self.msg, self.key, self.detail = msg, key or msg, detail

class Report:
    """what one case observed"""
    def __init__(self, seed):
        self.seed = seed
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.viol = []
        self.evals = 0
    def count(self, k, n = 1):
        self.counts[k] = self.counts.get(k, 0) + n
    def ev(self, sig = None, nontrivial = True):
        """one evaluation of the oracle; sig identifies what was different about it"""
        self.evals += 1
        if nontrivial and sig is not None:
            self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size = 8).hexdigest())
    def sample(self, s):
        if len(self.samples) < 2: self.samples.append(s if isinstance(s, (str, dict, list)) else repr(s))
    def fail(self, msg, key = None, detail = None):
        self.viol.append((key or msg, msg, detail))
        if len(self.viol) > 20: raise Violation(msg, key, detail)
    def check(self, cond, msg, key = None, detail = None):
        if not cond: self.fail(msg, key, detail() if callable(detail) else detail)
        return cond

class Inconclusive(Exception):
    pass

def in_sut(tb):
    r = os.path.realpath(REPO) + os.sep + 'sippy'
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(r): return True
    return False

def run_case(mod, seed, tier, cpu):
    R = Report(seed)
    from vsim import Hang
    def on_cpu(s, f):
        raise Hang('no progress for %s s of processor time' % cpu)
    old = signal.signal(signal.SIGVTALRM, on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    err = None
    try:
        mod.case(seed, R, tier)
    except Violation as e:
        if (e.key, e.msg, e.detail) not in R.viol: R.viol.append((e.key, e.msg, e.detail))
    except Hang as e:
        R.viol.append(('hang', 'the code under test did not come back: %s' % e, traceback.format_exc()[-2500:]))
    except Inconclusive as e:
        err = 'inconclusive: %s' % e
    except Exception as e:
        if in_sut(sys.exc_info()[2]):
            R.viol.append(('exception %s' % type(e).__name__, 'unexpected exception out of the code under test: %r' % e, traceback.format_exc()[-2500:]))
        else:
            err = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        try:
            from vsim import clock
            clock.virtual = False
        except Exception: pass
    return R, err

def case_seed(prop, vseed, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%d' % (prop, vseed, i)).encode()).digest()[:6], 'big')

def worker(mod, prop, vseed, tier, idxs, deadline, out, cpu, logf):
    devnull = open(logf, 'a', buffering = 1)
    sys.stdout = devnull
    os.dup2(devnull.fileno(), 1)
    if not os.environ.get('VERIF_DEBUG'): os.dup2(devnull.fileno(), 2)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)) if hasattr(mod, 'RLIMIT') else None
    cov = os.environ.get('VERIF_COV')
    if cov:
        import covmon
        covmon.start()
    if hasattr(mod, 'worker_init'): mod.worker_init()
    f = os.fdopen(out, 'w')
    nviol = 0
    known = set(k for k, text in load_known(prop))
    unknown = lambda v: any(k not in known for k, m, d in v)
    for i in idxs:
        if time.monotonic() > deadline: break
        seed = case_seed(prop, vseed, i)
        R, err = run_case(mod, seed, tier, cpu)
        if unknown(R.viol) and getattr(mod, 'CONFIRM', False):
            # real threads and sockets: only what happens again counts
            again = 0
            for _ in range(2):
                R2, e2 = run_case(mod, seed, tier, cpu)
                keys = set(k for k, m, d in R2.viol)
                if keys: again += 1
            if again == 0:
                R.counts['unconfirmed'] = 1
                R.viol = []
        f.write(json.dumps({'i': i, 'seed': seed, 'counts': R.counts, 'sigs': sorted(R.sigs), 'samples': R.samples, 'viol': R.viol[:10], 'evals': R.evals, 'err': err}, default = repr) + '\n')
        f.flush()
        if unknown(R.viol):
            nviol += 1
            if nviol >= 12: break
    f.close()
    if cov: covmon.dump(prop)
    os._exit(0)

def load_known(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                assert key.startswith('key='), l
                out.append((key[4:], text))
    return out

def main():
    import argparse
    if '--selftest' in sys.argv:
        import tmworld, b2bworld, peers, sippy
        print('code under test: %s' % os.path.dirname(sippy.__file__))
        sys.exit(0)
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default = os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    ap.add_argument('--n', type = int)
    ap.add_argument('--jobs', type = int, default = int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--one', type = int, help = 'case seed, in this process')
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.monotonic()
    mod = importlib.import_module(prop.lower())
    import vsim
    cpu = getattr(mod, 'CPU', 30)
    if a.replay or a.one is not None:
        seed = json.load(open(a.replay))['seed'] if a.replay else a.one
        if a.replay: tier = json.load(open(a.replay)).get('tier', tier)
        R, err = run_case(mod, seed, tier, cpu)
        print(json.dumps({'counts': R.counts, 'evals': R.evals, 'samples': R.samples}, indent = 1, default = repr))
        for k, m, d in R.viol:
            print('VIOLATION property=%s replay=%s' % (prop, a.replay or seed)); print(' key:', k); print(' ', m)
            if d: print(d if isinstance(d, str) else json.dumps(d, indent = 1, default = repr))
        if err: print(err)
        sys.stdout.flush()
        os._exit(1 if R.viol else (2 if err else 0))
    n = a.n or mod.N[tier]
    budget = getattr(mod, 'BUDGET', {'quick': 300, 'thorough': 780})[tier]
    deadline = t0 + budget
    jobs = min(a.jobs, getattr(mod, 'JOBS', 8), n)
    rdir = os.path.join(ROOT, 'replays'); os.makedirs(rdir, exist_ok = True)
    logf = os.path.join(rdir, '%s.log' % prop)
    open(logf, 'w').close()
    procs = []
    for j in range(jobs):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(mod, prop, a.seed, tier, range(j, n, jobs), deadline, w, cpu, logf)
            except BaseException:
                open(logf, 'a').write(traceback.format_exc())
                os._exit(3)
        os.close(w)
        procs.append((pid, r))
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in procs:
        sel.register(r, selectors.EVENT_READ, pid)
        bufs[r] = b''
    ncase = evals = nv = 0
    counts, sigs, errs, samp = {}, set(), {}, {}
    vrec = {}               # key -> (case number, case seed, message, detail), the first case by number
    hard = t0 + min(budget + 90, 880)
    broken = None
    stop = int(os.environ.get('VERIF_STOP', 40))
    kset = set(k for k, text in load_known(prop))
    def take(r):
        nonlocal ncase, evals, nv
        ncase += 1
        evals += r['evals']
        for k, v in r['counts'].items():
            if isinstance(v, (int, float)) and not k.startswith('max '): counts[k] = counts.get(k, 0) + v
            else: counts[k] = max(counts.get(k, 0), v)
        sigs.update(int(x, 16) for x in r['sigs'])
        if r['samples'] and r['i'] < 64: samp[r['i']] = r['samples'][0]
        if r['err'] and len(errs) < 1000: errs[r['i']] = (r['seed'], r['err'])
        if any(v[0] not in kset for v in r['viol']): nv += 1
        for k, m, d in r['viol']:
            if k not in vrec or vrec[k][0] > r['i']: vrec[k] = (r['i'], r['seed'], m, d)
    while bufs:
        left = hard - time.monotonic()
        if left <= 0:
            broken = 'workers did not finish in time'
            break
        for key, _ in sel.select(min(left, 5)):
            d = os.read(key.fd, 1 << 16)
            if not d:
                sel.unregister(key.fd); os.close(key.fd); bufs.pop(key.fd)
                continue
            b = bufs[key.fd] + d
            *ls, bufs[key.fd] = b.split(b'\n')
            for l in ls: take(json.loads(l))
        if nv >= stop: break
    for pid, r in procs:
        try: os.kill(pid, signal.SIGKILL) if bufs else None
        except OSError: pass
    for pid, r in procs:
        try:
            _, st = os.waitpid(pid, 0)
            if st != 0 and not bufs and broken is None: broken = 'a worker ended with status %#x (see %s)' % (st, logf)
        except ChildProcessError: pass
    samples = [samp[i] for i in sorted(samp)][:6]
    errs = [errs[i] for i in sorted(errs)]
    known = load_known(prop)
    seen_known, viol = set(), {}
    for k, (i, seed, m, d) in sorted(vrec.items(), key = lambda x: x[1][0]):
        if k in kset: seen_known.add(k)
        else: viol[k] = (seed, m, d)
    for kk, text in known:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, text, '' if kk in seen_known else ' (not reached by this run)'))
    rc = 0
    for k, (seed, m, d) in list(viol.items())[:8]:
        p = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(k.encode()).hexdigest()[:8]))
        json.dump({'property': prop, 'seed': seed, 'tier': tier, 'key': k, 'msg': m, 'detail': d}, open(p, 'w'), indent = 1, default = repr)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s' % m[:600])
        rc = 1
    ev = {'property': prop, 'tier': tier, 'seed': int(a.seed) if str(a.seed).lstrip('-').isdigit() else 0, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE, 'samples': samples or ['none'],
                       'cases': ncase, 'observed': dict(sorted(counts.items()))},
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(time.monotonic() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok = True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent = 1)
    print('%s %s: %d cases, %d evaluations, %d distinct, %d violations, %.1f s' % (prop, tier, ncase, evals, len(sigs), len(viol), time.monotonic() - t0))
    if rc == 0:
        if errs:
            print('harness error in %d cases, first: case seed %d\n%s' % (len(errs), errs[0][0], errs[0][1]))
            rc = 2
        elif broken:
            print(broken); rc = 2
        elif not ncase:
            print('no cases ran'); rc = 2
        else:
            for k, lo in getattr(mod, 'NEED', {}).items():
                if counts.get(k, 0) < lo:
                    print('too little was observed: %s = %s < %s' % (k, counts.get(k, 0), lo)); rc = 2
    if os.environ.get('VERIF_COUNTS'): print(json.dumps(counts, indent = 1, sort_keys = True))
    sys.stdout.flush()
    os._exit(rc)

if __name__ == '__main__':
    sys.modules['runner'] = sys.modules['__main__']
    main()
