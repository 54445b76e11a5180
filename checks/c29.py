"""C29: timestamps compared with the clocks they were taken from
Timestamps are taken, copied, shifted, converted and compared under clocks that run, stall and (the wall clock) jump; every operation is checked against plain arithmetic on the readings. A part of the cases uses the real clocks and several threads."""
import random, math, time, calendar, threading, queue
import vsim
from vsim import Sim, clock
import sippy.Time.MonoTime as mtm
import sippy.Time.clock_dtime as cd
from sippy.Time.MonoTime import MonoTime
RULE = 'seeded sequences of 50-400 operations on a growing pool of timestamps, with monotonic steps from 0 to days and wall-clock jumps of both signs; distinct by operation and the clock history before it. Every 20th case: real clocks, 2-6 threads exchanging timestamps.'
N = {'quick': 3000, 'thorough': 150000}
NEED = {'taken': 30000, 'wall jumps': 3000, 'text round trips': 10000, 'offsets': 10000, 'comparisons': 50000, 'real': 1000, 'from wall time': 3000}
TOL = 2e-6

def real_case(rng, R):
    n = rng.randrange(2, 7)
    q, out, errs = queue.Queue(), [], []
    def work():
        last = None
        for _ in range(40):
            w0 = time.time()
            a = time.clock_gettime(4)
            m = MonoTime()
            b = time.clock_gettime(4)
            R.count('real')
            if not a - 1e-6 <= m.monot <= b + 1e-6: errs.append('monotonic reading %r outside [%r, %r]' % (m.monot, a, b))
            if last is not None and (m < last or m - last < 0): errs.append('time ran backwards in one thread')
            w = time.time()
            if not w0 - .05 <= m.realt <= w + .05: errs.append('wall time off by %r' % (m.realt - w))
            if not -1e-6 <= m.offsetFromNow() <= time.clock_gettime(4) - a + 1e-6: errs.append('offsetFromNow %r' % m.offsetFromNow())
            last = m
            q.put(m)
            try:
                o = q.get_nowait()      # taken earlier, perhaps by another thread
                x = MonoTime()
                if x < o or not x >= o: errs.append('a timestamp taken later compares earlier')
            except queue.Empty: pass
    ts = [threading.Thread(target = work) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    R.ev(('real', n))
    R.check(not errs, '; '.join(errs[:3]), 'real clocks', errs[:10])
    for _ in range(20):
        for typ in (0, 4):
            a = time.clock_gettime_ns(typ)
            i, nn, d = cd._real_i(typ) if hasattr(cd, '_real_i') else vsim._real_i(typ), vsim._real_n(typ), vsim._real_d(typ)
            b = time.clock_gettime_ns(typ)
            if typ == 0 and b - a > 10**8: continue
            R.check(a <= i[0] * 10**9 + i[1] <= nn <= b and 0 <= i[1] < 10**9, 'clock readings out of order: %r' % ((a, i, nn, b),), 'clock_dtime')
            R.check(abs(d - nn / 1e9) < .1 and d * 1e9 >= a - 1000 and d * 1e9 <= b + 1000, 'clock reading %r outside %r' % (d, (a, b)), 'clock_dtime')

def case(seed, R, tier):
    rng = random.Random(seed)
    if seed % 20 == 0:
        clock.virtual = False
        return real_case(rng, R)
    sim = Sim(seed)
    clock.mono = rng.choice([5.0, 1000.0, 1e6, 123456.789])
    clock.wall_off = rng.choice([1.7e9, 1e9, 1.9e9]) + rng.random()
    MonoTime.globals = type(MonoTime.globals)()
    pool = []           # (object, exact monotonic value, realt as first seen, taken order or None)
    order = []
    jumps = 0
    steady = True       # no wall jump so far
    def new():
        m = MonoTime()
        R.count('taken')
        det = lambda: dict(now = clock.mono, got = str(m))
        R.check(m.monot == clock.mono, 'a timestamp taken at %r reads %r' % (clock.mono, m.monot), 'monotonic', det)
        if steady: R.check(abs(m.realt - (clock.mono + clock.wall_off)) < TOL, 'wall time %r instead of %r' % (m.realt, clock.mono + clock.wall_off), 'wall', det)
        order.append((m, clock.mono))
        pool.append([m, clock.mono, m.realt])
    new()
    for k in range(rng.choice([50, 150, 400])):
        x = rng.random()
        e = rng.choice(pool)
        m, v, r = e
        op = ''
        if x < .15:
            op = 'tick'
            clock.mono += rng.choice([0, 1e-6, .001, rng.random(), rng.uniform(0, 100), rng.uniform(0, 1e5)])
        elif x < .22:
            op = 'jump'
            clock.wall_off += rng.choice([-1, 1]) * rng.choice([.001, 1, 3600, 86400 * rng.random()])
            steady = False
            R.count('wall jumps')
        elif x < .4:
            op = 'new'
            new()
        elif x < .5:
            op = 'copy'
            c = m.getCopy()
            R.check(c == m and not c != m and c.realt == m.realt and c.monot == m.monot and c is not m, 'a copy differs from the original', 'copy')
            d = rng.choice([1.5, -3, 1e-3])
            c.offset(d)
            R.check(m.monot == v and m.realt == r, 'shifting a copy changed the original', 'copy alias')
            pool.append([c, v + d, c.realt])
            R.check(abs(c.realt - (r + d)) < TOL, 'shifted copy: wall time %r, expected %r' % (c.realt, r + d), 'offset wall')
            R.count('offsets')
        elif x < .65:
            op = 'offset'
            d = rng.choice([0, 1, -1, rng.uniform(-1e5, 1e5), 1e-6, 32, .5])
            if rng.random() < .5:
                c = m.getOffsetCopy(d)
                R.check(m.monot == v and m.realt == r, 'an offset copy changed the original', 'offset alias')
                pool.append([c, v + d, c.realt])
            else:
                m.offset(d)
                c = m
                e[1] = v + d
                e[2] = c.realt
                order[:] = [o for o in order if o[0] is not m]
            R.count('offsets')
            R.check(abs(c.monot - (v + d)) < TOL and abs(c.realt - (r + d)) < TOL, 'offset by %r: %r, expected %r' % (d, (c.realt, c.monot), (r + d, v + d)), 'offset')
            R.check(abs(c.getdiff() - (r - v)) < TOL, 'the distance of the clocks changed by an offset', 'getdiff')
        elif x < .75:
            op = 'text'
            s = str(m)
            c = MonoTime(s)
            R.count('text round trips')
            R.check(abs(c.realt - r) <= 1e-6 and abs(c.monot - m.monot) <= 1e-6, 'text %s read back as %r, was %r' % (s, (c.realt, c.monot), (r, m.monot)), 'text')
            R.check(str(c) == s, 'text %s becomes %s' % (s, c), 'text fixpoint')
        elif x < .8:
            op = 'given'
            a, b = rng.uniform(1, 1e6), rng.uniform(1e9, 2e9)
            c = MonoTime(monot = a, realt = b)
            R.check((c.monot, c.realt) == (a, b), 'given clocks were not kept', 'given')
            c = MonoTime(monot = a)
            R.check(c.monot == a, 'given monotonic clock was not kept', 'given')
            if steady: R.check(abs(c.realt - (a + clock.wall_off)) < TOL, 'wall time of a monotonic instant: %r' % c.realt, 'given wall')
        elif x < .88:
            op = 'realt'
            R.count('from wall time')
            ago = rng.choice([0, 1, 10, rng.uniform(0, 1000), -5, -1000])
            w = clock.mono + clock.wall_off - ago
            new()
            c = MonoTime(realt = w) if rng.random() < .6 else MonoTime('%.6f' % w)
            now = clock.mono
            R.check(abs(c.realt - w) < TOL, 'given wall time %r was not kept: %r' % (w, c.realt), 'realt')
            R.check(c.monot <= now + TOL, 'a wall time gave an instant %r in the future' % (c.monot - now), 'realt future')
            if steady: R.check(abs(c.monot - min(now, now - ago)) < 1e-5, 'wall time %r s ago became %r s ago' % (ago, now - c.monot), 'realt monot')
            c = MonoTime(realt = w, trust_realt = True)
            if steady: R.check(abs(c.monot - (now - ago)) < 1e-5, 'trusted wall time %r s ago became %r s ago' % (ago, now - c.monot), 'realt trusted')
        elif x < .93:
            op = 'ftime'
            b = rng.choice(pool)
            base = b[0] if rng.random() < .5 else None
            rt = r if base is None else b[2] - (b[0].monot - m.monot)
            if abs(rt % 1 - .5) > 1e-4: R.check(m.ftime(base) == time.strftime('%Y-%m-%d %H:%M:%S+00', time.gmtime(round(rt))), 'ftime %s' % m.ftime(base), 'ftime')
            if .001 < rt % 1 < .999:
                R.check(m.frtime(base).replace(' 0', ' ') == time.strftime('%H:%M:%S.000 GMT %a %b %d %Y', time.gmtime(rt)).replace(' 0', ' '), 'frtime %s' % m.frtime(base), 'frtime')
                f = m.fptime(base)
                R.check(f[:-4] == time.strftime('%d %b %H:%M:%S', time.localtime(rt)) and abs(int(f[-3:]) - (rt % 1) * 1000) <= 1, 'fptime %s of %r' % (f, rt), 'fptime')
        else:
            op = 'now'
            R.check(abs(m.offsetFromNow() - (clock.mono - m.monot)) < TOL, 'offsetFromNow %r' % m.offsetFromNow(), 'offsetFromNow')
            d = rng.uniform(-1e5, 1e5)
            R.check(abs((m + d) - (v + d)) < TOL and abs((d + m) - (v + d)) < TOL and abs((m - d) - (v - d)) < TOL and abs((d - m) - (d - v)) < TOL, 'arithmetic with %r' % d, 'arith')
        # comparisons against another one
        o = rng.choice(pool)
        a, b = e[0], o[0]
        R.count('comparisons')
        R.check(abs((a - b) - (a.monot - b.monot)) < TOL and abs(a.monot - e[1]) < TOL * (1 + len(pool)) and abs((a - b) + (b - a)) < TOL, 'difference %r of %r and %r' % (a - b, e[1], o[1]), 'difference')
        if abs(e[1] - o[1]) > 1e-4:
            lt = e[1] < o[1]
            R.check(((a < b), (a <= b), (a > b), (a >= b), (a == b), (a != b)) == (lt, lt, not lt, not lt, False, True), 'comparison of %r and %r' % (e[1], o[1]), 'compare')
        R.check(a == a and a <= a and a >= a and not a < a and not a != a and a != None and not a == None, 'a timestamp does not equal itself', 'compare self')
        if len(order) > 1:
            i = rng.randrange(len(order) - 1)
            p, q = order[i], order[rng.randrange(i, len(order))]
            R.check(not q[0] < p[0] and q[0] >= p[0] and abs((q[0] - p[0]) - (q[1] - p[1])) < TOL, 'a timestamp taken %r s later differs by %r' % (q[1] - p[1], q[0] - p[0]), 'later')
        R.ev((op, steady, len(pool) > 30, k % 7))
    R.sample('%d timestamps, %s' % (len(pool), 'no wall jumps' if steady else 'with wall jumps'))
    sim.close()
