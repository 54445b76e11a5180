"""C22: logs of real helper processes against the callbacks the pool made
The real pool with 1-6 helper processes under random thread delays; offline checker over the helpers' own logs and the callback record: every block whole, in one helper, once; every answer to its own callback, once, in the loop's thread; a helper that exits costs the request it had (empty answer), no other."""
import random, os, sys, shutil, tempfile, threading, time
import stress
from stress import Jitter, ED2
from sippy.External_command import External_command
RULE = 'seeded pools of 1-6 helper processes, 5-60 requests of 0-12 lines answered by 0-8 lines at once or piecemeal after 0-20 ms, submitted from the loop, from other threads and from callbacks, cancelled before, around and after their start, callbacks that fail, helpers that exit before, in and after an answer; line-level thread delays in the pool and dispatcher code. Distinct by the sequence of delays hit.'
N = {'quick': 400, 'thorough': 6000}
NEED = {'requests': 3000, 'answers': 3000, 'cancelled in time': 100, 'cancelled late': 30, 'parallel': 25, 'threads': 40, 'failing callback': 100, 'delays': 3000, 'die now': 30, 'die half': 30, 'bye': 30}
CONFIRM = True
CPU = 120
BUDGET = {'quick': 240, 'thorough': 780}
HELPER = os.path.join(os.path.dirname(os.path.abspath(stress.__file__)), 'helper.py')

def case(seed, R, tier):
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix = 'c22.')
    ec = None
    try:
        with stress.noisy():
            with Jitter(('External_command.py', 'Core/EventDispatcher.py'), seed, rng.choice([0, .02, .1, .3]), rng.choice([.0005, .003])) as j:
                nw = rng.choice([1, 1, 2, 3, 6])
                ec = External_command((sys.executable, '-S', '-E', HELPER, d), max_workers = nw)
                body(R, rng, ec, d, nw)
            R.ev((nw, j.sig, j.hits))
            R.count('delays', j.hits)
    finally:
        for i in range(64): open(os.path.join(d, 'go%d' % i), 'w').close()
        if ec is not None: ec.shutdown()
        shutil.rmtree(d, ignore_errors = True)

def body(R, rng, ec, d, nw):
    me = threading.get_ident()
    reqs, calls, errs = {}, [], []
    nid = [0]
    lock = threading.Lock()
    deaths = rng.choice([0, 0, 0, .05, .3])
    talk = rng.random() < .5
    def submit(extra = (), lines = None):
        with lock:
            i = nid[0]; nid[0] += 1
            data = ['id %d' % i] + list(extra)
            ans = [b'%d' % i]
            data.append('say %d' % i)
            for _ in range(rng.choice([0, 0, 1, 3, 10])):
                k = rng.random()
                if k < .5:
                    a = 'a%d' % rng.randrange(10**rng.choice([1, 6])) + rng.choice(['', ' = \'x\'', ' é', '="'])
                    data.append('say ' + a); ans.append(a.encode())
                elif k < .6: data.append('slow')
                elif k < .63 and talk: data.append('grumble %d' % rng.choice([1, 100, 3000])); R.count('complaints')
                else: data.append('x' * rng.choice([1, 30, 5000 if rng.random() < .1 else 60]) + '="é"')
            die = None
            if rng.random() < deaths and not extra:
                die = rng.choice(['die now', 'die half', 'bye'])
                data.append(die); R.count(die)
            if rng.random() < .3: data.append('sleep %f' % (rng.random() * .02))
            q = dict(id = i, data = data, ans = [x.strip() for x in ans], die = die, boom = rng.random() < .1, par = tuple(rng.randrange(9) for _ in range(rng.choice([0, 0, 2]))), cancel = None, nested = rng.random() < .05)
            reqs[i] = q
        def cb(res, *par):
            calls.append((i, res, par, threading.get_ident()))
            if q['nested']: submit()
            if q['boom']: R.count('failing callback'); raise ValueError('callback %d' % i)
        q['wi'] = ec.process_command(data, cb, *q['par'])
        return q
    # helpers busy: what is cancelled now must never start
    if rng.random() < .6:
        hold = [submit(['wait go%d' % k]) for k in range(nw)]
        e = time.monotonic() + 30
        while started(d) < nw and time.monotonic() < e: time.sleep(.002)
        if started(d) < nw:
            R.fail('%d requests for %d idle helpers: only %d were given out' % (nw, nw, started(d)), 'given out'); return
        for _ in range(rng.randrange(1, 12)):
            q = submit()
            if rng.random() < .5: q['wi'].cancel(); q['cancel'] = 'early'; R.count('cancelled in time')
        late = rng.choice(hold)
        if rng.random() < .5: late['wi'].cancel(); late['cancel'] = 'late'; R.count('cancelled late')
        ks = list(range(nw))
        rng.shuffle(ks)
        def release():
            for k in ks: open(os.path.join(d, 'go%d' % k), 'w').close(); time.sleep(rng.random() * .003)
        if rng.random() < .5: release()
        else: threading.Thread(target = release).start()
    # several submitters
    ths = []
    if rng.random() < .5:
        def many(n):
            for _ in range(n): submit()
        for _ in range(rng.choice([1, 2, 4])):
            t = threading.Thread(target = many, args = (rng.randrange(1, 12),))
            ths.append(t); R.count('threads')
    for t in ths: t.start()
    for _ in range(rng.randrange(4, 30)):
        q = submit()
        if rng.random() < .1: q['wi'].cancel(); q['cancel'] = 'race'
    for t in ths: t.join()
    done = lambda: len(calls) >= sum(1 for q in list(reqs.values()) if q['cancel'] in (None, 'late')) and quiet()
    last = [0, 0]
    def quiet():
        # no cancelled request is still making up its mind
        return len(getattr(ec, 'work', ())) == 0 and not any(q['cancel'] is None and q['id'] not in set(c[0] for c in calls) for q in list(reqs.values()))
    ok = stress.loop(done, 45)
    if nw > 1 and not deaths:
        m = [submit(['meet %d m' % nw]) for _ in range(nw)]
        for q in m: q['ans'].insert(0, b'met')
        R.count('parallel')
        ok = stress.loop(done, 45) and ok
    stress.loop(lambda: False, .02)
    det = lambda: dict(workers = nw, reqs = {i: {k: v for k, v in q.items() if k in ('data', 'ans', 'cancel', 'boom')} for i, q in reqs.items() if i in bad}, calls = [c[:3] for c in calls if c[0] in bad], ok = ok)
    bad = set()
    R.count('requests', len(reqs))
    R.count('answers', len(calls))
    got = {}
    for i, res, par, th in calls:
        got.setdefault(i, []).append(res)
        if th != me: bad.add(i); R.fail('callback in another thread', 'thread', det())
        if par != reqs[i]['par']: bad.add(i); R.fail('callback parameters %s, expected %s' % (par, reqs[i]['par']), 'parameters', det())
    blocks = {}
    for f in os.listdir(d):
        if f[0] != 'h': continue
        for blk in parse(os.path.join(d, f)):
            t = blk[0].split()
            if len(t) != 2 or t[0] != b'id' or int(t[1]) not in reqs: R.fail('helper got %r' % blk[:3], 'block', det()); continue
            blocks.setdefault(int(t[1]), []).append((f, blk))
    lost = sum(1 for q in reqs.values() if q['die'] == 'bye')
    for i, q in reqs.items():
        bad.clear(); bad.add(i)
        n, b = got.get(i, []), blocks.get(i, [])
        if not b and n == [()] and q['cancel'] in (None, 'race') and lost:
            # written to a helper that was just exiting
            lost -= 1; R.count('lost to an exiting helper')
            continue
        if q['cancel'] == 'early':
            R.check(not b, 'request sent to a helper although it was cancelled before', 'cancelled sent', det)
            R.check(not n, 'callback of a request that was cancelled before it started', 'cancelled callback', det)
            continue
        if q['cancel'] == 'race':
            R.check(len(b) <= 1 and len(n) <= len(b), 'cancelled request: sent %d times, %d callbacks' % (len(b), len(n)), 'race', det)
        elif q['cancel'] is None:
            R.check(len(n) == 1, '%d callbacks' % len(n), 'callbacks', det)
            R.check(len(b) == 1, 'sent to helpers %d times' % len(b), 'sent', det)
        else: R.check(len(n) <= 1 and len(b) == 1, '%d callbacks, sent %d times' % (len(n), len(b)), 'callbacks', det)
        for f, blk in b: R.check(blk == [x.encode() for x in q['data']], 'helper got another block %r' % blk[:20], 'block', det)
        if q['die'] in ('die now', 'die half'):
            for res in n: R.check(list(res) in ([], q['ans'][:len(res)], [b'half']), 'answer %r of a helper that died' % (res,), 'answer', det)
            continue
        for res in n: R.check(list(res) == q['ans'], 'answer %r, expected %r' % (res, q['ans']), 'answer', det)

def started(d):
    return sum(open(os.path.join(d, f), 'rb').read().count(b'>wait') for f in os.listdir(d) if f[0] == 'h')

def parse(p):
    cur, out = None, []
    for l in open(p, 'rb'):
        if l[:1] == b'>':
            if l == b'>\n': out.append(cur); cur = None
            else: cur = (cur or []) + [l[1:-1]]
    return out
