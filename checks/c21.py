"""C21: hand-overs of real threads and real signals against the record of what ran
The real loop on the real clock, with many threads handing functions over (asynchronously, synchronously, from the loop itself, while the loop is stopped), timers and functions that fail, and real signals sent to the process, under random delays at line granularity inside the dispatcher. Offline checker over the record: exactly once, on the loop's thread, in each thread's order, own result or own exception; every signal ran every handler registered at that moment once."""
import random, os, signal, threading, time
import stress
from stress import Jitter, ED2
from sippy.Signal import Signal
from sippy.Time.Timeout import Timeout
RULE = 'seeded runs: 1-8 threads x 5-150 hand-overs each (asynchronous, synchronous, nested) x failures of every kind (exceptions, exceptions outside Exception) in functions, timers and handlers x the loop stopped and restarted at random x 0-4 signal numbers with 1-4 handlers, registered, chained and cancelled in any order x random delays. Distinct by the interleaving seen at the delays.'
N = {'quick': 3000, 'thorough': 60000}
NEED = {'async': 150000, 'sync': 40000, 'sync raised': 6000, 'failed functions': 30000, 'nested': 15000, 'loop restarts': 1200, 'signals': 10000, 'handler runs': 20000, 'failed handlers': 4000, 'cancelled handlers': 1000, 'delays': 50000}
CONFIRM = True
CPU = 120
BUDGET = {'quick': 240, 'thorough': 780}
class Weird(BaseException): pass
class Own(Exception): pass
SIGS = [signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP, signal.SIGPROF, signal.SIGWINCH]

def case(seed, R, tier):
    rng = random.Random(seed)
    old = {s: signal.getsignal(s) for s in SIGS}
    # what is left when nobody is registered must not end this process
    for s in SIGS: signal.signal(s, lambda *a: None)
    try:
        with stress.noisy():
            with Jitter(('Signal.py', 'Core/EventDispatcher.py'), seed, rng.choice([0, .003, .01, .03]), rng.choice([.0003, .001])) as j:
                body(R, rng)
            R.ev(j.sig, True)
            R.count('delays', j.hits)
    finally:
        for s, h in old.items(): signal.signal(s, h)

def body(R, rng):
    me = threading.get_ident()
    ran = []                       # (thread, number, ident)
    bad = []
    handed = {}                    # thread -> numbers handed over
    done = {}
    def hand(who, trng, nested):
        n = handed.setdefault(who, [])
        i = len(n)
        n.append(i)
        fail = trng.random() < .15
        exc = trng.choice([ValueError('x'), Weird('y'), KeyError(1), Own(2), AssertionError(), GeneratorExit()])
        nest = nested and trng.random() < .1
        val = (who, i)
        def f(w, k, extra = None):
            ran.append((w, k, threading.get_ident()))
            if (w, k) != val: bad.append('%s got the arguments of %s' % (val, (w, k)))
            if nest: R.count('nested'); hand(('nested', who), trng2, False)
            if fail: raise exc
            return (val, 'result')
        trng2 = random.Random(trng.random())
        if nested and trng.random() < .2:
            try: r = ED2.callFromThreadSync(f, *val)
            except BaseException as e:
                R.count('sync raised')
                if not fail or e is not exc: bad.append('%s raised %r instead of %r' % (val, e, exc if fail else None))
            else:
                if fail: bad.append('%s returned although it raised' % (val,))
                elif r != (val, 'result'): bad.append('%s returned %r' % (val, r))
            R.count('sync')
            if not any(x[:2] == val for x in ran[-400:]): bad.append('%s came back before it ran' % (val,))
        else:
            ED2.callFromThread(f, *val)
            R.count('async')
        if fail: R.count('failed functions')
    nthr, per = rng.choice([1, 2, 4, 8]), rng.choice([5, 30, 60])
    def thread(who, s):
        trng = random.Random(s)
        for _ in range(per):
            hand(who, trng, True)
            if trng.random() < .1: time.sleep(trng.random() * .003)
        done[who] = True
    # signals
    nums = rng.sample(SIGS, rng.choice([0, 1, 2, 4]))
    hs, hlog, srng = {s: [] for s in nums}, [], random.Random(rng.random())
    def mkh(s, kind, fail):
        h = dict(s = s, kind = kind, id = len(hs[s]) + 100 * s, live = True)
        par = (h['id'], 'p')
        def f(*a):
            hlog.append((h['id'], threading.get_ident()))
            if a != par: bad.append('handler arguments %r' % (a,))
            if fail: R.count('failed handlers'); raise ValueError('handler')
        h['obj'] = Signal(s, f, *par) if kind == 'Signal' else ED2.regSignal(s, f, *par)
        hs[s].append(h)
    kinds = {s: rng.choice(['Signal', 'Signal', 'reg']) for s in nums}
    for s in nums:
        for _ in range(rng.choice([1, 1, 2, 4])): mkh(s, kinds[s], rng.random() < .25)
    def sync(f):
        q = []
        ev = threading.Event()
        def g():
            f(); ev.set()
        ED2.callFromThread(g)
        if not ev.wait(25): bad.append('the loop does not answer')
    def signaller():
        for _ in range(per // 4 + 2):
            if not nums: break
            s = srng.choice(nums)
            live = [h for h in hs[s] if h['live']]
            if live and srng.random() < .1:
                # registration and cancellation happen on the loop's thread
                h = srng.choice(live)
                def cancel():
                    h['live'] = False
                    if h['kind'] == 'Signal': h['obj'].cancel()
                    else: ED2.unregSignal(h['obj'])
                sync(cancel); R.count('cancelled handlers')
                continue
            if srng.random() < .05 or not live:
                sync(lambda: mkh(s, kinds[s], srng.random() < .25))
                continue
            want = sorted(h['id'] for h in live)
            b = len(hlog)
            os.kill(os.getpid(), s)
            R.count('signals')
            e = time.monotonic() + 25
            while len(hlog) - b < len(want) and time.monotonic() < e: time.sleep(.0005)
            if srng.random() < .2: sync(lambda: None)
            got = sorted(x[0] for x in hlog[b:])
            R.count('handler runs', len(got))
            if got != want: bad.append('signal %d ran handlers %s instead of %s' % (s, got, want))
            if any(x[1] != me for x in hlog[b:]): bad.append('a handler ran on another thread')
        done['sig'] = True
    ts = [threading.Thread(target = thread, args = (i, rng.random()), daemon = True) for i in range(nthr)]
    if nums: ts.append(threading.Thread(target = signaller, daemon = True))
    tim, ticks = [], [0]
    for _ in range(rng.choice([0, 1, 4])):
        def t(k = rng.random() < .5):
            ticks[0] += 1
            if k: raise ValueError('timer')
        tim.append(Timeout(t, rng.choice([.001, .01]), -1))
    if rng.random() < .3:
        # handed over before the loop runs
        for _ in range(5):
            hand('early', rng, False)
    for t in ts: t.start()
    stops = rng.random() < .4
    lim = [time.monotonic() + 60, 0]
    def waiting():
        # a minute without any progress is too long, on however busy a machine
        if len(ran) != lim[1]: lim[:] = time.monotonic() + 60, len(ran)
        return time.monotonic() < lim[0]
    all_ = lambda: all(not t.is_alive() for t in ts) and len(ran) >= sum(map(len, handed.values()))
    while not all_() and waiting():
        if stops and rng.random() < .9:
            # without the loop nothing runs, and nothing is lost
            who = rng.random() < .5
            stopper = Timeout(lambda: ED2.breakLoop(), rng.random() * .03)
            ED2.loop()
            stopper.cancel()
            R.count('loop restarts')
            b = len(ran)
            time.sleep(rng.random() * .005)
        else:
            b = len(ran)
            if not stress.loop(all_, 30) and len(ran) == b: break
    stress.loop(lambda: False, .03)
    for t in tim: t.cancel()
    for h in sum(hs.values(), []):
        if h['live'] and h['kind'] == 'reg': ED2.unregSignal(h['obj'])
    tot = sum(map(len, handed.values()))
    det = dict(handed = {str(k): len(v) for k, v in handed.items()}, ran = len(ran), done = {str(k): v for k, v in done.items()}, order = [x[:2] for x in ran[:60]])
    for b in bad[:3]: R.fail(b, 'mismatch', det)
    for t in ts: t.join(2)
    if any(t.is_alive() for t in ts): R.fail('a thread never came back', 'stuck', det); return
    R.check(len(ran) == tot, '%d functions ran of %d handed over' % (len(ran), tot), 'lost' if len(ran) < tot else 'repeated', det)
    R.check(len(set(x[:2] for x in ran)) == len(ran), 'a function ran twice', 'repeated', det)
    R.check(all(x[2] == me for x in ran), 'a function ran on another thread', 'thread', det)
    last = {}
    for w, k, _ in ran:
        if w[0] == 'nested' if isinstance(w, tuple) else False: continue
        if not R.check(k > last.get(w, -1), 'function %s of thread %s ran after %s' % (k, w, last.get(w)), 'order', det): break
        last[w] = k
