"""C05: wire monitor over simulated whole calls of the real B2BUA (caller's view against the callee's answers)
Every answer to the caller must be explained by an event that had reached the B2BUA, and every such event must have led to it; bounded by the generated scenarios."""
import scen, siplite as S
from scen import EPS
RULE = 'seeded whole-call scenarios (1-4 calls x 1-3 routes; every provisional sequence, answer, failure, cancel, crossing, limit, operator action, loss/duplication/reordering); each response to the caller is matched with the arrival that justifies it and vice versa. Distinct by response sequences of all attempts and outcome.'
N = {'quick': 3000, 'thorough': 60000}
NEED = {'200': 500, 'failed': 500, '487': 100, 'refused': 50, 'provisionals': 1000}

def judge(run, c, R):
    det = lambda: run.story(c)
    R.ev(run.sig(c))
    if c.arr is None or run.blurred(c): return
    codes = [m.code for t, m in c.fins]
    if not R.check(len(c.fins) == 1, 'caller got final responses %s' % codes, 'final count', det): return
    T, F = c.fin
    R.count('200' if F.code < 300 else '487' if F.code == 487 else 'refused' if not c.att else 'failed')
    last = c.att[-1] if c.att else None
    near = lambda t: t is not None and abs(t - T) < EPS
    if F.code < 300:
        if not R.check(last is not None and last.ok, 'caller got %d but no attempt was answered' % F.code, '200 without answer', det): return
        R.check(near(last.fin[0]) and F.body == last.fin[1].body and F.code == last.fin[1].code, 'answer relayed at %.3f with %r, received at %.3f with %r' % (T, F.body, last.fin[0], last.fin[1].body), '200 differs', det)
    else:
        why = set()
        if near(c.canrx) or (hasattr(c, 'ebye') and F.code == 487): why.add(487)
        if c.arr is not None and near(c.arr + 300): why.add(487)
        if any(near(t) for t in c.adm): why.add(500)
        aa = c.authreq.answered if c.authreq else c.arr
        if last is None:
            if c.auth[0] in ('reject', 'error') and near(aa): why |= {401, 403}
            if near(aa) and (c.auth[0] == 'noroute' or all(run.zero(r) for r in c.routes)): why.add(500)
            if near(aa) and c.maxf <= 1: why.add(483)
        else:
            if last.fin is not None and near(last.fin[0]) and last.fin[1].code >= 300: why.add(last.fin[1].code)
            if near(last.tmo) : why.add(408)
            if any(near(t) for t in run.limits(last)): why.add(500)
        R.check(F.code in why, 'caller got %d at %.3f, explained is %s' % (F.code, T, sorted(why)), 'unexplained final %d' % F.code, det)
    # an answer in time must have reached the caller
    for a in c.att:
        if a.ok and a.fin[0] < T - EPS:
            ab = [t for t in run.limits(a) + c.adm + ([c.canrx] if c.canrx else []) + [c.arr + 300] if t <= a.fin[0] + EPS and t >= a.t - EPS]
            R.check(bool(ab) or bool(a.cancel), 'an answer was not relayed', 'answer lost', det)
    # provisional responses
    want = []
    for a in c.att:
        lim = [t for t in run.limits(a)]
        for t, m in a.prov:
            if m.code > 100: want.append((t, m.code, m.body, a))
    got = [(t, m) for t, m in c.resp if 100 < m.code < 200]
    R.count('provisionals', len(got))
    R.check(all(t <= T + EPS for t, m in got), 'provisional response after the final one', 'provisional after final', det)
    j = 0
    for t, m in got:
        while j < len(want) and not (abs(want[j][0] - t) < EPS and want[j][1] == m.code and want[j][2] == m.body): j += 1
        if not R.check(j < len(want), 'provisional %d to the caller at %.3f was not sent by the current callee' % (m.code, t - run.sim.t0), 'provisional unexplained', det): return
        j += 1
    gset = [(t, m.code, m.body) for t, m, p in run.tx.get(c.cid, []) if m.code and 100 < m.code < 200]
    for k, (t, code, body, a) in enumerate(want):
        dead = t > T - EPS or any(x <= t + EPS for x in [y for y in run.limits(a)] + c.adm + ([c.canrx] if c.canrx else []))
        dead = dead or (a.cancel and a.cancel[0][0] <= t + EPS) or hasattr(c, 'ebye')
        if dead: continue
        R.check(any(abs(g[0] - t) < .002 and g[1] == code and g[2] == body for g in gset), 'provisional %d of attempt %s was not relayed' % (code, a.route.cld), 'provisional lost', det)

def case(seed, R, tier):
    run = scen.Run(seed).run()
    for c in run.plans: judge(run, c, R)
    run.internal(R)
    if run.plans: R.sample(run.brief(run.plans[0]))
    run.close()
