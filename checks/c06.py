"""C06: wire monitor: every release on one leg must be matched on the others, once
Judged on datagram arrival and departure times at the B2BUA and on what the simulated peers believe at the end."""
import scen, siplite as S
from scen import EPS
RULE = 'seeded whole-call scenarios with every way to end a call (BYE from either side, both at once, CANCEL at any point, refusal, limits, no ACK, vanished caller, operator, re-INVITE failure, 200 crossing CANCEL, 15% packet loss); release of each leg is matched against its cause. Distinct by response sequences, releases and causes.'
N = {'quick': 3000, 'thorough': 60000}
NEED = {'established calls ended': 500, 'pending legs released': 200, 'crossings': 20, 'updates withdrawn': 40, 'late crossings': 12}

END = ('bye', 'admin', 'credit', 'noack', 'reinvite refused', 'reinvite timeout')

def judge(run, c, R):
    det = lambda: run.story(c)
    R.ev(run.sig(c) + (tuple(sorted(set(k[1] for k in run.causes(c)))),))
    if c.arr is None or run.blurred(c): return
    conn = run.connected(c)
    cn = [a.route.cld for a in conn]
    ca = [e for e in run.causes(c) if e[1] not in ('credit', 'bye') or e[2] in cn or e[2] == 'caller']
    legs = run.legs(c)
    if conn and not [e for e in ca if e[0] >= c.fin[0] - EPS and e[1] in END + ('update withdrawn',)]:
        # the caller vanished and nothing can tell: the call stays up, rightly
        R.count('calls nobody ended')
        R.check(not c.byetx and not conn[0].byetx, 'call released for no reason', 'unexplained release', det)
        return
    # at the end nobody believes in a dialog of this call
    if not c.peer.dead and not hasattr(c, 'ebye'): R.check(c.leg.state != 'est', 'the caller still has an established dialog', 'caller dialog left', det)
    for r in c.routes:
        for l in r.legs: R.check(l.state != 'est' or not l.itx.acked, 'callee %s still has an established dialog' % r.cld, 'callee dialog left', det)
    # released at most once
    for l in legs:
        R.check(len(l.byetx) <= 1, '%d BYEs sent to %s' % (len(l.byetx), l.name), 'bye twice', det)
        if l.byetx and l.byerx: R.check(l.byerx[0][0] > l.byetx[0][0] - EPS, 'BYE sent to %s after it had hung up' % l.name, 'bye after bye', det)
    for a in c.att:
        R.check(len(a.cancel) <= 1, '%d CANCELs sent to %s' % (len(a.cancel), a.route.cld), 'cancel twice', det)
        if a.cancel and a.fin: R.check(a.cancel[0][0] < a.fin[0] + EPS, 'CANCEL after the final answer', 'cancel after final', det)
        if a.cancel: R.check(a.p1 is not None and a.p1 <= a.cancel[0][0] + EPS, 'CANCEL before any answer', 'cancel before provisional', det)
        if a.byetx: R.check(a.ok, 'BYE to %s which never answered' % a.route.cld, 'bye unanswered', det)
    if conn:
        # established: both legs go at the same instant
        a = conn[0]
        T = min([t for l in (c, a) for t, m in l.byetx + l.byerx] or [None], key = lambda x: x)
        if T is None and not [e for e in ca if e[0] >= c.fin[0] - EPS and e[1] in END]: return      # withdrawing an update may leave the call as it was, but not half of it
        if not R.check(T is not None, 'an established call never ended', 'never ended', det): return
        R.count('established calls ended')
        if abs(min([t for t, k, w in ca if k == 'update withdrawn'] or [0]) - T) < EPS: R.count('updates withdrawn')
        why = [k for t, k, w in ca if abs(t - T) < EPS and k not in ('failed', 'timeout', 'limit')]
        R.check(bool(why), 'call released at %.3f for no reason' % (T - run.sim.t0), 'unexplained release', det)
        for n, l in (('caller', c), ('callee', a)):
            x = [t for t, m in l.byetx if abs(t - T) < EPS] or [t for t, m in l.byerx if abs(t - T) < EPS]
            R.check(bool(x), 'call ended at %.3f but the %s was not released then' % (T - run.sim.t0, n), 'not released', det)
        first = [e for e in ca if e[0] >= c.fin[0] - EPS and e[1] in END]
        if first: R.check(first[0][0] > T - EPS, 'call should have ended at %.3f (%s), ended at %.3f' % (first[0][0] - run.sim.t0, first[0][1], T - run.sim.t0), 'ended late', det)
    for a in c.att:
        if a in conn: continue
        if a.ok:
            R.count('crossings')
            if a.cancel and a.fin[0] > a.cancel[0][0] + 32: R.count('late crossings')
            R.check(len(a.acks) >= 1, 'an answer that crossed the release was not acknowledged', 'crossing ack', det)
            R.check(len(a.byetx) == 1 and abs(a.byetx[0][0] - a.fin[0]) < EPS, 'an answer that crossed the release was not followed by BYE', 'crossing bye', det)
        # abandoned attempts: cancelled when possible
        end = min(a.fin[0] if a.fin else float('inf'), a.tmo or float('inf'))
        gone = [t for t, k, w in ca if ((k in ('cancel', 'early bye', 'admin', 'expiry') and t >= a.t - EPS) or (k == 'limit' and w == a.route.cld)) and t < end + (EPS if a.cancel else -EPS)]
        if gone:
            R.count('pending legs released')
            g = min(gone)
            pv = [t for t, m in a.resp if m.code < 200 and t < end + (EPS if a.cancel else -EPS)]
            exp = max(g, pv[0]) if pv else None
            if exp is not None:
                R.check(len(a.cancel) == 1 and abs(a.cancel[0][0] - exp) < EPS, 'attempt %s was given up at %.3f; CANCEL sent at %s, expected %.3f' % (a.route.cld, g - run.sim.t0, [round(t - run.sim.t0, 3) for t, m in a.cancel], exp - run.sim.t0), 'cancel missing', det)
            # the caller is released too, unless another attempt follows
            if not any(b.t >= g - EPS and b is not a for b in c.att): R.check(c.fin and c.fin[0] <= g + EPS, 'attempt given up at %.3f but the caller was not answered' % (g - run.sim.t0), 'caller not answered', det)
        elif a.cancel: R.fail('CANCEL sent for no reason', 'cancel unexplained', det())

def case(seed, R, tier):
    run = scen.Run(seed, dict(p_midhang = .2, re_slow = seed % 2, p_glare = .2, p_recancel = .7, p_reinv = .5) if seed % 3 == 0 else dict(p_latecross = .7, p_crosscancel = .25)).run()
    for c in run.plans: judge(run, c, R)
    run.internal(R)
    if run.plans: R.sample(run.brief(run.plans[0]))
    run.close()
