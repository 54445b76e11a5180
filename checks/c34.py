"""C34: the probes each leg receives, and what follows them, against an independent schedule kept per leg
Whole calls of minutes to hours on the simulated network; every in-dialog INVITE that the other side did not ask for must be a probe that is due, must repeat the description last given to that leg, and must leave no trace at the other leg."""
import random, hashlib, re
import vsim, siplite as S
from siplite import response
from b2bworld import World
RULE = 'seeded calls with keep-alive on either, both or neither leg (periods 20 s to 30 min) x per-probe answers (200 with or without description, 100 first, 4xx/5xx/3xx, challenges with good and bad outcome, 408/481/486, silence) x re-INVITEs by either side x end by either side, at any point. Distinct by periods and per-leg (answer sequence, end).'
N = {'quick': 3500, 'thorough': 60000}
NEED = {'probes': 6000, 'two legs': 500, 'released': 250, 'first unanswered': 200, 'silent': 120, 'challenged': 200, 'updates': 600, 'none': 100, 'provisional': 150, 'other failure': 400, 'mid-probe end': 60, 'late': 150}
EPS = .6
DEAD = (408, 481, 486)

def cred_ok(m, user, pw, realm, nonce, proxy):
    h = m.hs('proxy-authorization' if proxy else 'authorization')
    if len(h) != 1: return 'credentials: %r' % (h,)
    g = lambda k: (re.search(r'%s="([^"]*)"' % k, h[0]) or re.search(r'%s=([^,\s"]+)' % k, h[0]) or [None, None])[1]
    md = lambda s: hashlib.md5(s.encode()).hexdigest()
    ha1 = md('%s:%s:%s' % (user, realm, pw))
    ha2 = md('%s:%s' % (m.method, g('uri')))
    exp = md('%s:%s:%s' % (ha1, nonce, ha2)) if g(' ?qop') is None else md(':'.join((ha1, nonce, g('nc'), g('cnonce'), g('qop'), ha2)))
    if (g('username'), g('realm'), g('nonce')) != (user, realm, nonce): return 'credentials %r' % h[0]
    if g('uri') != m.uri: return 'credentials for %s in a request for %s' % (g('uri'), m.uri)
    if g('response') != exp: return 'wrong response digest'

class Side: pass

def case(seed, R, tier):
    rng = random.Random(seed)
    per = lambda: rng.choice([20, 32, 45, 60, 300, 1800])
    ka, ko = rng.choice([(per(), 0), (0, per()), (per(), per()), (per(), per()), (0, 0) if rng.random() < .4 else (per(), per())])
    auth = rng.random() < .5
    w = World(seed, auth = False, acct = False, ka_ans = ka, ka_orig = ko, route = '10.0.2.1' + (';auth=bob:secret' if auth else ''))
    try: body(rng, R, w, ka, ko, auth)
    finally: w.close()

def body(rng, R, w, ka, ko, auth):
    sim = w.sim
    A, B = w.peer('10.0.1.1'), w.peer('10.0.2.1')
    late = rng.random() < .15
    sides = []
    def side(peer, leg, period, name):
        s = Side()
        s.peer, s.leg, s.period, s.name = peer, leg, period, name
        s.due = None; s.probes = 0; s.answered = 0; s.open = None; s.seq = []; s.rel = None; s.chal = None; s.off = False; s.told = None; s.n = 0
        leg.on_request = lambda l, stx: on_request(s, stx)
        sides.append(s)
        return s
    def idle(s):
        """the leg has just exchanged descriptions: probing starts afresh"""
        s.due = sim.now + s.period if s.period else None
        s.answered, s.off = 0, False
    upd = dict(open = False, last = -99, bad = False)
    T = lambda: round(sim.now - sim.t0, 2)
    err = []
    over = lambda: end['at'] is not None
    end = dict(at = None, how = None)
    def on_request(s, stx):
        m = stx.req
        if m.method == 'BYE':
            if s.rel is None: s.rel = sim.now
            return False
        if m.method != 'INVITE' or s.leg.state != 'est':
            if m.method != 'INVITE': err.append(('%s received by the %s' % (m.method, s.name), 'other request'))
            return False
        o = [x for x in sides if x is not s][0]
        if upd['open'] and upd['who'] is o and not m.body == s.told:
            # the update the other side asked for
            s.told = m.body
            s.leg.app.setdefault('itxs', [s.leg.itx] if s.leg.role == 'uas' else []).append(stx)
            code = upd['code']
            if code == 200:
                s.leg.sdpv = getattr(s.leg, 'sdpv', 1) + 1
                s.leg.lsdp = S.mksdp(s.peer.addr[0], 30000, s.leg.sdpv)
                sim.after(.05, lambda: stx.reply(response(m, 200, None, s.leg.ltag, [('contact', '<%s>' % s.leg.contact_uri), ('content-type', 'application/sdp')], s.leg.lsdp)))
                idle(s)
            else:
                s.told = upd['told']
                sim.after(.05, lambda: stx.reply(response(m, code, None, s.leg.ltag)))
                idle(s)
            return True
        # anything else has to be a probe
        s.probes += 1
        R.count('probes')
        now = sim.now
        if s.open is not None: err.append(('%s: a probe at %s before the one of %s was answered' % (s.name, T(), round(s.open - sim.t0, 2)), 'two probes'))
        elif s.chal is not None:
            if now - s.chal[0] > 2: err.append(('%s: repeated %.1f s after the challenge' % (s.name, now - s.chal[0]), 'challenge'))
        elif s.due is None or s.off: err.append(('%s: unexpected INVITE at %s' % (s.name, T()), 'unexpected probe'))
        elif abs(now - s.due) > EPS: err.append(('%s: probe at %s, due at %.2f' % (s.name, T(), s.due - sim.t0), 'probe time'))
        if late and not s.told and s.leg.acks: s.told = s.leg.acks[0][1].body
        if m.body != s.told: err.append(('%s: the probe carries %r, the description given last is %r' % (s.name, m.body[:300], (s.told or b'')[:300]), 'probe description'))
        s.due = None
        act = None
        if s.chal is not None:
            e = cred_ok(m, 'bob', 'secret', *s.chal[1:])
            if e: err.append(('%s: %s' % (s.name, e), 'challenge'))
            s.chal = None
            act = rng.choice(['200', '200', 'again', 'dead'])
        else:
            if m.hs('authorization') + m.hs('proxy-authorization') and False: pass
            act = rng.choice(['200'] * 10 + ['bare', '100', '100', 'fail', 'fail', 'chal', 'chal', 'dead', 'silent', '100silent'])
            if s.n >= 6 and act in ('200', '100', 'bare', 'fail') : act = rng.choice(['dead', 'silent', '200'])
        s.n += 1
        s.seq.append(act)
        s.open = now
        s.leg.app.setdefault('itxs', [s.leg.itx] if s.leg.role == 'uas' else []).append(stx)
        ok = [('contact', '<%s>' % s.leg.contact_uri)]
        def done(code):
            s.open = None
            if over() or s.rel is not None: return
            if code in DEAD:
                dead()
            else:
                s.answered += 1
                s.due = sim.now + s.period
        def dead():
            s.open = None
            if over() or s.rel is not None: return
            if s.answered:
                R.count('released')
                end['at'], end['how'] = sim.now, 'dead'
            else:
                R.count('first unanswered')
                s.off = True
                s.answered = 1      # (any later one would count as established)
                k = sim.now + 600
                def later():
                    if not over(): end['at'], end['how'] = sim.now, 'dead later'
                end.setdefault('later', []).append(k)
                sim.after(599.9, later)
        def fin(code, hd = (), b = b''):
            if s.leg.state != 'est': 
                stx.reply(response(m, code, None, s.leg.ltag, list(hd), b)) if stx.final is None else None
                s.open = None
                return
            if stx.final is not None: return
            stx.reply(response(m, code, None, s.leg.ltag, list(hd), b))
            if code in (401, 407) and s.leg.role == 'uas' and auth and act == 'chal':
                s.open = None
                s.chal = (sim.now, 'peer', nonce, code == 407)
            else: done(code)
        nonce = 'n%d' % rng.randrange(10**9)
        d = rng.choice([.02, .02, .3, 3])
        if act in ('200', '100'):
            if act == '100':
                R.count('provisional')
                stx.reply(response(m, rng.choice([100, 180]), None, s.leg.ltag))
                d = rng.choice([.5, 10, 40])
            sim.after(d, fin, 200, ok + [('content-type', 'application/sdp')], s.leg.lsdp)
        elif act == 'bare': sim.after(d, fin, 200, ok)
        elif act == 'fail':
            R.count('other failure')
            sim.after(d, fin, rng.choice([400, 403, 404, 480, 487, 488, 491, 500, 501, 503, 603, 302]))
        elif act in ('chal', 'again'):
            if s.leg.role == 'uas' and auth: R.count('challenged')
            c = rng.choice([401, 407])
            q = rng.choice(['', ', qop="auth"', ', algorithm=MD5'])
            sim.after(d, fin, c, [('www-authenticate' if c == 401 else 'proxy-authenticate', 'Digest realm="peer", nonce="%s"%s' % (nonce, q))])
        elif act == 'dead': sim.after(d, fin, rng.choice(DEAD))
        else:
            R.count('silent')
            k = 32
            if act == '100silent':
                stx.reply(response(m, 100, None, s.leg.ltag))
                k = 300
            def gone():
                if s.open == now: dead()
            sim.after(k - .1, gone)
        return True
    st = {}
    def on_invite(leg, m):
        s = st['b'] = side(B, leg, ko, 'callee')
        s.told = m.body
        leg.lsdp = S.mksdp(B.addr[0], 30000)
        sim.after(.1, lambda: leg.provisional(180))
        def ans():
            leg.answer(leg.lsdp)
            idle(s)
        sim.after(rng.choice([.5, 5, 20]), ans)
    B.on_invite = on_invite
    leg = A.call(w.addr, '1000', 'alice', None if late else S.mksdp(A.addr[0], 20000))
    a = side(A, leg, ka, 'caller')
    if late:
        R.count('late')
        leg.app['ack_body'] = S.mksdp(A.addr[0], 20000)
    def conn(l, m):
        a.told = m.body
        idle(a)
    leg.app['on_final'] = conn
    w.run(30)
    if not R.check(leg.state == 'est' and st.get('b') is not None and st['b'].leg.state == 'est', 'call not set up: %s' % leg.final, 'setup'): return
    b = st['b']
    if late:
        leg.lsdp = leg.app['ack_body']
        b.told = b.told or b.leg.acks[-1][1].body
    if ka and ko: R.count('two legs')
    if not ka and not ko: R.count('none')
    # updates and the end
    def update(s):
        o = a if s is b else b
        if over() or a.open is not None or b.open is not None or a.chal or b.chal or upd['open'] or s.leg.state != 'est' or a.off or b.off: return
        if any(x.due is not None and x.due < sim.now + 4 for x in (a, b)): return
        R.count('updates')
        upd.update(open = True, who = s, code = rng.choice([200, 200, 200, 488]), told = o.told)
        old = s.leg.lsdp
        s.leg.sdpv = getattr(s.leg, 'sdpv', 1) + 1
        s.leg.lsdp = S.mksdp(s.peer.addr[0], 20000 + s.leg.sdpv * 2, s.leg.sdpv)
        def cb(l, resp, tx):
            upd['open'] = False
            if resp is not None and resp.code == 200: s.told = resp.body
            else: l.lsdp = old
            if not over() and (resp is None or resp.code != upd['code']): err.append(('the update got %s' % (resp and resp.code), 'update'))
            idle(s)
        s.leg.reinvite(s.leg.lsdp, cb = cb)
    span = max(ka, ko, 60) * rng.choice([.7, 2.5, 4, 7]) + rng.choice([0, 0, 700])
    span = min(span, 6 * 3600)
    for _ in range(rng.choice([0, 0, 1, 2])):
        sim.after(rng.uniform(1, span), update, rng.choice([a, b]))
    who = rng.choice([a, b])
    def hang():
        if over(): return
        end['at'], end['how'] = sim.now, 'hangup'
        if a.open is not None or b.open is not None: R.count('mid-probe end')
        who.leg.bye()
    sim.after(span, hang)
    t0 = sim.now
    miss = []
    def watch():
        for s in (a, b):
            if s.due is not None and not s.off and not over() and sim.now > s.due + 2:
                miss.append('%s: no probe, due at %.2f' % (s.name, s.due - sim.t0))
                s.due = None
            if s.chal is not None and not over() and sim.now > s.chal[0] + 2:
                miss.append('%s: no repeated probe after the challenge of %.2f' % (s.name, s.chal[0] - sim.t0))
                s.chal = None
        if not over(): sim.after(1, watch)
        for s in (a, b):
            if s.rel is not None and not over() : 
                miss.append('%s: released at %.2f for no reason' % (s.name, s.rel - sim.t0)); end['at'], end['how'] = sim.now, 'unexplained'
    watch()
    for _ in range(4000):
        w.run(30)
        if over(): break
    det = lambda: dict(periods = (ka, ko), auth = auth, late = late, end = (end['how'], round((end['at'] or 0) - sim.t0, 2)), **{s.name: [(round(h[0] - sim.t0, 2),) + h[1:2] + tuple(str(x)[:60] for x in h[2:]) for h in s.leg.hist][-40:] for s in (a, b)}, answers = [(s.name, s.seq) for s in (a, b)])
    n0 = len(A.log) + len(B.log)
    w.run(40)
    for e, k in err: R.fail(e, k, det())
    for e in miss: R.fail(e, 'no probe' if 'no probe' in e else 'challenge' if 'challenge' in e else 'released', det())
    if not err and not miss:
        for s in (a, b):
            if end['how'] == 'hangup' and s is who: continue
            R.check(s.leg.state == 'ended' and s.rel is not None and s.rel - end['at'] < EPS, 'call over at %.2f (%s): the %s was released %s' % (end['at'] - sim.t0, end['how'], s.name, s.rel and round(s.rel - sim.t0, 2)), 'not released', det)
        for p in (a, b):
            R.check(not p.leg.errors, '%s: %s' % (p.name, p.leg.errors[:2]), 'dialog', det)
        # nothing goes on after the call
        w.run(700)
        m = len(A.log) + len(B.log)
        w.run(4000)
        R.check(len(A.log) + len(B.log) == m, 'messages long after the call', 'after the end', det)
        R.check(not w.cmap.ccmap, 'the call is still listed', 'still listed', det)
    if len(sides) == 2: R.sample(dict(periods = (ka, ko), answers = [(s.name, s.seq) for s in (a, b)], end = end['how']))
    R.ev((ka, ko, end['how'], tuple(a.seq), tuple(b.seq)), a.probes + b.probes > 0)
