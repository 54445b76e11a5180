"""C09: sequence monitor over the attempts of each call, as seen on the wire
The routes handed out, the instants and outcomes of the attempts and the end of the caller's leg decide which attempt may come next and when."""
import scen, siplite as S
from scen import EPS
RULE = 'seeded whole-call scenarios with 1-5 routes per call, most of them failing in different ways (refusal, silence, limits, redirection, hunt-stop codes, zero limits, caller giving up at any point); the attempts observed must be exactly those the routing answer implies, in order and at the right instants. Distinct by outcomes of all attempts.'
N = {'quick': 2500, 'thorough': 50000}
NEED = {'attempts': 2500, 'hunted on': 800, 'stopped by code': 50, 'skipped': 80, 'redirected': 30}
PROF = dict(routes = (1, 5), p_hs = .35, p_zero = .15, p_redirect = .08, calls = (1, 3), p_reinv = 0, p_info = 0, p_limits = .4)

def judge(run, c, R):
    det = lambda: run.story(c)
    R.ev(run.sig(c))
    if c.arr is None or c.fin is None or run.blurred(c): return
    exp = [r for r in c.routes if not run.zero(r)]
    T = c.fin[0]
    if run.w.gc['auth_enable']:
        ok = c.auth[0] in (('ok', 'noroute') if run.static else ('ok',)) and c.authreq and c.authreq.answered
        t1 = c.authreq.answered if ok else None
    else: ok, t1 = True, c.arr
    if not ok or not exp or c.maxf <= 1:
        R.check(not c.att, 'attempt made although none was allowed', 'attempt forbidden', det)
        return
    R.count('skipped', sum(1 for r in c.routes if run.zero(r)))
    names = [a.route.cld for a in c.att]
    if not R.check(names == [r.cld for r in exp[:len(names)]], 'attempts made: %s, routes: %s' % (names, [r.cld for r in exp]), 'order', det): return
    gone = [t for t in ([c.canrx] if c.canrx else []) + c.adm + [c.arr + 300] + ([t for t, m in c.byerx] if hasattr(c, 'ebye') else [])]
    gone = min(gone)
    def expect(k, t, why):
        """attempt number k has to start at t unless the caller has gone before"""
        if gone < t - EPS or k >= len(exp): return
        if abs(gone - t) < EPS: return          # a tie
        if R.check(k < len(c.att), 'attempt %d (%s) was not made at %.3f after %s' % (k + 1, exp[k].cld, t - run.sim.t0, why), 'attempt missing', det):
            R.check(abs(c.att[k].t - t) < EPS, 'attempt %d made at %.3f, expected at %.3f after %s' % (k + 1, c.att[k].t - run.sim.t0, t - run.sim.t0, why), 'attempt at the wrong time', det)
    def never(k, why):
        R.check(len(c.att) <= k, 'attempt %d made although %s' % (k + 1, why), 'attempt after ' + why.split(' (')[0], det)
    expect(0, t1, 'acceptance')
    for k, a in enumerate(c.att):
        R.count('attempts')
        R.check(a.t < gone + EPS, 'attempt %d made after the caller was gone' % (k + 1), 'attempt after caller gone', det)
        end = min([t for t in (a.fin[0] if a.fin else None, a.tmo) if t is not None] or [float('inf')])
        lim = [t for t in run.limits(a)]
        t = min(lim + [end])
        nxt = c.att[k + 1].t if k + 1 < len(c.att) else None
        if nxt is not None: R.check(nxt >= t - EPS, 'attempt %d made while attempt %d was still in progress' % (k + 2, k + 1), 'two attempts at once', det)
        if t == float('inf'): continue
        if gone < t - EPS:
            never(k + 1, 'the caller was gone')
        elif lim and lim[0] < end - EPS:
            R.count('hunted on')
            expect(k + 1, t, 'a limit')
        elif lim and abs(lim[0] - end) < EPS: continue          # a tie of limit and answer
        elif a.tmo is not None and a.tmo <= end:
            if 408 in (a.route.hs or ()): never(k + 1, 'the code is a hunt-stop code (408)')
            else: expect(k + 1, t, 'silence')
        elif a.ok: never(k + 1, 'attempt was answered')
        else:
            code = a.fin[1].code
            if code in (300, 301, 302):
                R.count('redirected')
                never(k + 1, 'attempt was redirected')
            elif code in (a.route.hs or ()):
                R.count('stopped by code')
                never(k + 1, 'the code is a hunt-stop code (%d)' % code)
            else:
                R.count('hunted on')
                expect(k + 1, t, str(code))
    a = c.att[-1] if c.att else None
    if a is not None and a.fin and not a.ok and not c.ok and a.fin[0] < gone - EPS and not run.limits(a):
        R.check(c.fin[1].code == a.fin[1].code and abs(c.fin[0] - a.fin[0]) < EPS, 'last attempt failed with %d, caller got %d' % (a.fin[1].code, c.fin[1].code), 'last failure', det)

def case(seed, R, tier):
    run = scen.Run(seed, PROF).run()
    for c in run.plans: judge(run, c, R)
    run.internal(R)
    if run.plans: R.sample(run.brief(run.plans[0]))
    run.close()
