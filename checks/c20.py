"""C20: model of the timers beside the real dispatcher, judged at every firing
Every callback is intercepted: it must belong to a live timer, not come before its due time, and no live timer may be due earlier; at the end every live timer must have fired as often as it was due."""
import random
import vsim
from vsim import Sim, clock, quiet
from sippy.Time.Timeout import Timeout, TimeoutInact, TimeoutAbsMono
from sippy.Time.MonoTime import MonoTime
from sippy.Core.EventDispatcher import ED2
RULE = 'seeded populations of 1-120 timers: single, counted, endless, absolute, deferred start, randomised period; created, cancelled (also twice, by themselves, after firing, by callbacks of the same round) and failing at random from outside and from within callbacks, with slow callbacks, clock steps and several runs of the loop. Distinct by the kind of timer, number of firings and what its callback did.'
N = {'quick': 2500, 'thorough': 150000}
NEED = {'fired': 40000, 'periodic': 3000, 'cancelled by a callback': 300, 'raised': 500, 'created in a callback': 500, 'absolute': 500, 'coincident': 500, 'stalls': 200, 'mass cancel': 100}

class T: pass

def case(seed, R, tier):
    rng = random.Random(seed)
    sim = Sim(seed)
    live = {}
    allt = []
    slack = [0.0]
    def mk(depth = 0):
        t = T()
        t.kind = rng.choice(['once', 'once', 'once', 'n', 'inf', 'abs', 'inact', 'spread'])
        t.ival = rng.choice([rng.uniform(0, 5), rng.uniform(0, 60), rng.choice([.5, 1, 2, 4, 32]), rng.uniform(0, .05), 0 if rng.random() < .3 else .01])
        if t.kind in ('n', 'inf', 'spread'): t.ival = max(t.ival, rng.choice([.02, .3, .5]) if len(allt) < 20 else 1)
        t.n = {'n': rng.choice([2, 3, 7]), 'inf': -1, 'spread': rng.choice([1, 3, -1])}.get(t.kind, 1)
        t.fired, t.done, t.hist = 0, False, []
        t.params = tuple(rng.randrange(100) for _ in range(rng.choice([0, 1, 3])))
        t.acts = [rng.choice(['', '', '', '', 'raise', 'create', 'cancel', 'self', 'stall', 'self2', 'recreate', 'break' if depth == 0 and rng.random() < .1 else '']) for _ in range(3)]
        t.t0 = t.born = clock.mono
        t.p = 0
        cb = lambda *a, t = t: fire(t, a)
        t.el = None
        if t.kind == 'abs':
            m = MonoTime().getOffsetCopy(t.ival - rng.choice([0, 0, 1]))
            t.due = m.monot
            t.el = TimeoutAbsMono(cb, m, *t.params)
            R.count('absolute')
        elif t.kind in ('inact', 'spread'):
            t.el = TimeoutInact(cb, t.ival, t.n, *t.params)
            if t.kind == 'spread':
                t.p = rng.choice([.1, .5])
                t.el.spread_runs(t.p)
            t.due = clock.mono + t.ival
            if rng.random() < .7: t.el.go()
            else:
                # started later in the same instant
                t.due = clock.mono + t.ival
                t.el.go()
        else:
            t.el = Timeout(cb, t.ival, t.n, *t.params)
            t.due = clock.mono + t.ival
        live[id(t)] = t
        allt.append(t)
        if t.n != 1: R.count('periodic')
        return t
    lo = lambda t: t.due if not t.p else t.lo()
    def window(t):
        """earliest and latest instant of the next firing"""
        if not t.p: return t.due, t.due
        k = t.fired + 1
        if t.hist: b = t.hist_lo, t.hist_hi
        else: b = t.t0, t.t0
        return b[0] + t.ival * (1 - t.p), b[1] + t.ival * (1 + t.p)
    def drop(t):
        t.done = True
        live.pop(id(t), None)
    def cancel(t):
        was = not t.done
        t.el.cancel()
        drop(t)
        return was
    def fire(t, a):
        now = clock.mono
        R.count('fired')
        det = lambda: dict(kind = t.kind, ival = t.ival, n = t.n, fired = t.fired, due = t.due - sim.t0, now = now - sim.t0, acts = t.acts)
        R.check(not t.done, 'a %s timer fired after it was %s' % (t.kind, 'cancelled' if t.fired < t.n or t.n < 0 else 'over'), 'fired after end', det)
        if t.done: return
        w = window(t)
        R.check(a == t.params, 'callback called with %r instead of %r' % (a, t.params), 'params', det)
        R.check(now >= w[0] - 1e-9, 'a %s timer fired %.6f s too early' % (t.kind, w[0] - now), 'early', det)
        R.check(now <= max(w[1], t.born) + .011 + slack[0], 'a %s timer fired %.6f s late' % (t.kind, now - w[1]), 'late', det)
        for o in list(live.values()):
            if o is t: continue
            ow = window(o)
            if abs(ow[1] - w[0]) < 1e-9: R.count('coincident')
            if ow[1] < w[0] - 1e-9 and o.t0 <= now:
                R.check(False, 'a timer due %.6f s later fired before one that is due' % (w[0] - ow[1]), 'order', lambda: dict(det(), other = (o.kind, o.ival, o.due - sim.t0, o.fired)))
                break
        t.hist.append(now)
        t.hist_lo, t.hist_hi = w
        t.fired += 1
        if t.n > 0 and t.fired >= t.n:
            drop(t)
        elif not t.p: t.due = t.t0 + t.ival * (t.fired + 1) if t.kind != 'abs' else t.due
        act = t.acts[(t.fired - 1) % 3]
        R.ev((t.kind, t.n, min(t.fired, 9), act, len(live) > 10))
        if act == 'raise':
            R.count('raised')
            raise rng.choice([ValueError, KeyError, ZeroDivisionError, RuntimeError])('asked for')
        if act == 'create' and len(allt) < 300:
            R.count('created in a callback')
            for _ in range(rng.choice([1, 1, 5])): mk(1)
        if act == 'cancel' and live:
            o = rng.choice(list(live.values()))
            # preferably one due in this very round
            same = [x for x in live.values() if x is not t and x.due <= now]
            if same: o = rng.choice(same)
            R.count('cancelled by a callback')
            cancel(o)
        if act in ('self', 'self2'):
            t.el.cancel()
            drop(t)
            if act == 'self2': t.el.cancel()
        if act == 'recreate' and len(allt) < 300:
            t.el.cancel()
            drop(t)
            mk(1)
        if act == 'stall' and not hasattr(t, 'stalled'):
            t.stalled = True
            R.count('stalls')
            d = rng.choice([.05, .3, 2])
            slack[0] += d
            clock.mono += d
        if act == 'break': ED2.breakLoop()
    def outside():
        x = rng.random()
        if x < .4: mk()
        elif x < .7 and allt: cancel(rng.choice(allt))
        elif x < .8 and live:
            R.count('mass cancel')
            for o in rng.sample(list(live.values()), max(1, int(len(live) * rng.uniform(.3, 1)))): cancel(o)
        elif x < .9: sim.wall_step(rng.choice([-86400, 5, 1e5]))
    for _ in range(rng.choice([1, 5, 20, 60, 120])): mk()
    for _ in range(rng.randrange(0, 30)): sim.after(rng.uniform(0, 60), outside)
    end = sim.now + rng.choice([10, 40, 100])
    with quiet():
        for _ in range(400):
            if sim.now >= end - 1e-9: break
            sim.run(until = end)
        sim.run(until = sim.now + .05)
    for t in list(live.values()):
        w = window(t)
        R.check(w[1] >= clock.mono - .05 - slack[0], 'a %s timer due %.3f s ago (after %d firings) has not fired' % (t.kind, clock.mono - w[1], t.fired), 'never', lambda: dict(kind = t.kind, ival = t.ival, n = t.n, acts = t.acts))
    for t in allt:
        R.check(t.n < 0 or t.fired <= t.n, 'a timer fired %d times instead of %d' % (t.fired, t.n), 'count')
    bad = [x for x in vsim.Internal.log if 'asked for' not in x[2]]
    R.check(not bad, 'internal exception %s' % (bad[:1],), 'internal exception')
    R.sample('%d timers, %d firings, first: %s' % (len(allt), sum(t.fired for t in allt), [(t.kind, round(t.ival, 3), t.n, t.fired) for t in allt[:6]]))
    sim.close()
