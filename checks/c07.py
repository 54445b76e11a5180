"""C07: resource monitor over whole-call histories: tables, caches and timers return to their initial state
Table sizes are read through the public attributes; pending timers are counted in the dispatcher's heap and compared with a fresh instance."""
import scen, siplite as S, vsim
RULE = 'seeded whole-call scenarios (all endings, also in the middle of an update, limits that outlive the calls, loss, keep-alives, operator actions, refused and malformed calls); after 1400 s of virtual time every table must be as on a fresh instance and a new call must work. Distinct by history of the calls.'
N = {'quick': 2000, 'thorough': 40000}
NEED = {'calls': 1500, 'new call worked': 500}

def case(seed, R, tier):
    run = scen.Run(seed, dict(p_hup = .1, vanish_bye = True, p_long = [0, .3][seed // 3 % 2], p_midhang = .25, re_slow = seed // 3 % 2, p_nofinal = .1 if seed // 3 % 2 == 0 else 0,  ka = [(0, 0), (32, 0), (32, 32)][seed % 3]))
    w = run.w
    run.run(1400)
    for c in run.plans:
        R.count('calls')
        R.ev(run.sig(c))
    sz = w.sizes()
    det = lambda: {'sizes': sz, 'calls': [run.story(c) for c in run.plans[:3]], 'timers': [repr(getattr(x, 'cb_func', None)) for x in vsim.ED2.tlisteners if x.cb_func is not None][:10], 'internal': vsim.Internal.log[:2]}
    for k, v in sz.items(): R.check(v == run.base.get(k, 0), '%s has %d entries after all calls are over' % (k, v), 'left in ' + k, det)
    R.check(run.timers() <= run.base_timers, '%d timers pending, %d on a fresh instance' % (run.timers(), run.base_timers), 'timers left', det)
    run.internal(R)
    # a new call works
    n0 = len(run.sim.wire)
    c = scen.gen_call(run.rng, dict(run.P, p_refuse_auth = 0, routes = (1, 1)), 77)
    c.att = []
    c.t0, c.auth, c.cancel, c.noack, c.vanish, c.mids, c.hang, c.late = 0, ('ok', 0, 0.01), None, False, None, [], ('caller', 5), False
    c.maxf = 70
    r = c.routes[0]
    r.credit, r.expires, r.np, r.nr, r.hs = None, None, None, None, None
    r.host = '10.0.2.200'
    r.beh = scen.O(steps = [(0.1, 180, False)], fin = ('ok', 1.0, 200), canc = 'normal', dead = False, rr = [])
    r.call, r.legs = c, []
    c.host = '10.0.1.200'
    c.peer = w.peer(c.host, 'new')
    q = w.peer(r.host, 'b')
    q.on_invite = run.on_invite
    run.bycld[r.cld] = r
    run.sim.default_link = vsim.Link()
    if run.static:
        w.gc['_static_routes'] = {'': scen.vsim and __import__('sippy.B2B.Route', fromlist = ['B2BRoute']).B2BRoute(run.rstr(r))}
    run.start(c)
    w.run(100)
    ok = c.leg.final == 200 and c.leg.state == 'ended' and r.legs and r.legs[0].state == 'ended'
    R.check(ok, 'a new call did not work afterwards (%s)' % c.leg.final, 'new call', det)
    if ok: R.count('new call worked')
    R.sample(run.brief(run.plans[0]))
    run.close()
