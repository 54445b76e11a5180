"""C10: clock monitor: every release caused by a limit happens at its limit, and none happens without one
Virtual time is exact, so 'on time' means within a millisecond; wall-clock steps are injected throughout."""
import scen, siplite as S, vsim
from scen import EPS
RULE = 'seeded whole-call scenarios with credit limits (route, RADIUS grant, configured maximum), answer/progress/reply limits, route groups with a common limit, answers placed around the limits and wall-clock steps; each limit reached must release exactly then, each release without another cause must be at a limit. Distinct by limits, outcome and instant.'
N = {'quick': 2500, 'thorough': 50000}
NEED = {'credit ended a call': 250, 'reply limit': 60, 'progress limit': 60, 'answer limit': 120, 'group limit': 60, 'released before its limit': 200, 'wall clock stepped': 200}
PROF = dict(routes = (1, 3), p_hs = .05, p_zero = .02, calls = (1, 3), p_reinv = .1, p_info = 0, p_limits = .75, p_credit = .5, maxcredit = .3, p_wallstep = .5, p_radcredit = .35, p_noack = .02, p_vanish = .03)

def judge(run, c, R):
    det = lambda: run.story(c)
    if c.arr is None or c.fin is None or run.blurred(c): return
    t0 = run.sim.t0
    gone = min(([c.canrx] if c.canrx else []) + c.adm + [c.arr + 300] + ([t for t, m in c.byerx] if hasattr(c, 'ebye') else []))
    for k, a in enumerate(c.att):
        lim = run.limits(a)
        cr = run.credit(a)
        R.ev((a.route.expires, a.route.np, a.route.nr, cr, a.ok, a.fin and a.fin[1].code, bool(a.cancel), bool(a.byetx), bool(a.byerx), c.late, run.lossy))
        conn = a in run.connected(c)
        if lim and lim[0] < gone - EPS:
            t = lim[0]
            if a.fin and abs(t - a.fin[0]) < EPS and not a.cancel: continue         # a tie of limit and answer
            for n, v in (('reply limit', a.route.nr), ('progress limit', a.route.np), ('answer limit', a.route.expires)):
                if v is not None and abs(a.t + v - t) < EPS: R.count(n)
            pv = [x for x, m in a.resp if m.code < 200 and x <= t + EPS]
            if pv: R.check(len(a.cancel) == 1 and abs(a.cancel[0][0] - t) < EPS, 'limit reached at %.3f, CANCEL at %s' % (t - t0, [x - t0 for x, m in a.cancel]), 'limit not kept', det)
            nxt = c.att[k + 1].t if k + 1 < len(c.att) else c.fin[0]
            R.check(abs(nxt - t) < EPS, 'limit reached at %.3f, attempt given up at %.3f' % (t - t0, nxt - t0), 'limit not kept', det)
        elif a.cancel:
            t = a.cancel[0][0]
            p = [x for x, m in a.resp if m.code < 200]
            R.check(gone <= t + EPS and (abs(gone - t) < EPS or (p and abs(p[0] - t) < EPS)), 'CANCEL at %.3f although no limit was reached' % (t - t0), 'given up early', det)
        elif k + 1 < len(c.att) and not (a.fin or a.tmo and a.tmo <= c.att[k + 1].t + EPS): R.fail('attempt %d given up at %.3f although no limit was reached' % (k + 1, c.att[k + 1].t - t0), 'given up early', det())
        if conn:
            ends = sorted([t for l in (c, a) for t, m in l.byetx + l.byerx])
            T0 = run.conn_t(c, a)
            if cr is not None and T0 != float('inf'):
                T = T0 + cr
                other = [t for t, w, who in run.causes(c) if w in ('bye', 'admin', 'noack', 'reinvite refused', 'reinvite timeout') and t > c.fin[0] - EPS and (w != 'bye' or who in ('caller', a.route.cld))]
                if not other or min(other) > T + 2 * EPS:
                    R.count('credit ended a call')
                    for n, l in (('caller', c), ('callee', a)):
                        b = [t for t, m in l.byetx]
                        R.check(len(b) == 1 and abs(b[0] - T) < EPS, '%s: credit of %s s since %.3f, BYE at %s' % (n, cr, T0 - t0, [x - t0 for x in b]), 'credit time', det)
                else:
                    R.count('released before its limit')
                    if min(other) < T - 2 * EPS and ends: R.check(ends[0] > min(other) - EPS, 'released at %.3f before anything asked for it' % (ends[0] - t0), 'released early', det)
    if run.wsteps: R.count('wall clock stepped')

def groups(seed, R):
    """three to five routes, the first of which opens a group with a common limit"""
    import random
    rng = random.Random(seed)
    run = scen.Run(seed, dict(PROF, calls = (1, 1), routes = (3, 5), p_limits = 0, p_credit = 0, p_zero = .15, static = 0, p_cancel = .1, p_hs = 0, p_redirect = 0, p_refuse_auth = 0, p_loss = 0, p_admin_restart = 0, p_hup = 0, p_hop = 0, maxcredit = 0, p_late = 0))
    c = run.plans[0]
    n = len(c.routes)
    gt, skip = rng.choice([1, 3, 10, 35, 60]), rng.randrange(1, n + 2)
    s0 = run.rstr
    run.rstr = lambda r: s0(r) + (';gt=%d,%d' % (gt, skip) if r is c.routes[0] else '')
    run.run()
    det = lambda: dict(run.story(c), gt = gt, skip = skip)
    R.ev(('gt', gt, skip, run.sig(c)))
    if c.fin is None or not c.att or c.att[0].route is not c.routes[0]:
        run.close()
        return
    T = c.att[0].t + gt
    exp = [r for r in c.routes if not run.zero(r)]
    gone = min(([c.canrx] if c.canrx else []) + c.adm + [c.arr + 300] + ([t for t, m in c.byerx] if hasattr(c, 'ebye') else []))
    near = lambda t: t is not None and abs(t - T) < 5 * EPS
    rest = []
    cur = [a for a in c.att if a.t < T - 5 * EPS]
    if not any(near(t) for a in c.att for t in [a.t, a.fin and a.fin[0], a.tmo]) and not near(gone) and gone > T and c.fin[0] > T - EPS and cur:
        k = exp.index(cur[-1].route)
        rest = exp[k + 1:]
        tgt = 1 + skip          # the number of the route to go on with
        num = lambda r: c.routes.index(r) + 1
        a = cur[-1]
        live = (a.fin is None or a.fin[0] > T) and (a.tmo is None or a.tmo > T)
        if live and rest and num(rest[0]) <= tgt:
            R.count('group limit')
            if tgt > num(rest[-1]):
                # last group: the attempt goes on, nothing follows
                R.check(not [b for b in c.att if b.t > T], 'another attempt after the limit of the last group', 'last group', det)
                R.check(not (a.cancel and abs(a.cancel[0][0] - T) < EPS), 'attempt of the last group cancelled at the group limit', 'last group cancelled', det)
            else:
                w = [r for r in rest if num(r) >= tgt][0]
                nx = [b for b in c.att if b.t > T - EPS]
                R.check(bool(nx) and nx[0].route is w and abs(nx[0].t - T) < EPS, 'group limit at %.3f: next attempt %s, expected %s then' % (T - run.sim.t0, [(b.route.cld, b.t - run.sim.t0) for b in nx], w.cld), 'group limit', det)
    run.internal(R)
    run.close()

def case(seed, R, tier):
    if seed % 6 == 0: return groups(seed, R)
    run = scen.Run(seed, PROF).run()
    for c in run.plans: judge(run, c, R)
    run.internal(R)
    if run.plans: R.sample(run.brief(run.plans[0]))
    run.close()
