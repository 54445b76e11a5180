"""C36: what the instance does to each call, and to new ones, after a stop, hang-up-all or restart request
Several calls, each in a chosen state at the moment the signal arrives, on the simulated network; the monitor compares every leg's record with what the request means for that state. The replacement of the process is recorded, not carried out."""
import random, signal, sys
import vsim, siplite as S
from siplite import response
from b2bworld import World, routing_lines, _OsShim
RULE = 'seeded sets of 1-6 calls x state at the request (verdict pending, forwarded, ringing, connected, being updated, awaiting the ACK, being released, cancelled, failing over, over) x SIGHUP, SIGTERM, SIGPROF, also repeated or one after the other x new calls before and after x accounting. Distinct by request and the multiset of states.'
N = {'quick': 2200, 'thorough': 80000}
NEED = {'hangup': 500, 'stop': 500, 'restart': 500, 'pending': 400, 'forwarded': 300, 'ringing': 400, 'connected': 800, 'updating': 250, 'noack': 250, 'releasing': 250, 'cancelled': 200, 'failover': 250, 'refused new': 500, 'accepted new': 400, 'restarted': 300, 'stopped': 400, 'second request': 150}
STATES = ['pending', 'forwarded', 'ringing', 'connected', 'connected', 'updating', 'noack', 'releasing', 'cancelled', 'failover', 'over']
EPS = .3

class C: pass

def case(seed, R, tier):
    rng = random.Random(seed)
    auth = rng.random() < .6
    w = World(seed, auth = auth, acct = rng.random() < .5, route = None if auth else '10.0.2.1', digest = False)
    try: body(rng, R, w, auth)
    finally: w.close()

def body(rng, R, w, auth):
    sim = w.sim
    A, B = w.peer('10.0.1.1'), w.peer('10.0.2.1')
    calls = {}
    def on_auth(q):
        c = calls[q.get('Called-Station-Id')]
        c.q = q
        rts = ['%s@10.0.2.1' % c.num] if c.state != 'failover' else ['%sf@10.0.2.1' % c.num, '%s@10.0.2.1' % c.num]
        return (0, c.verdict, routing_lines(rts))
    w.radius.on_auth = on_auth
    TS = rng.choice([20.0, 50.0, 59.0])
    def on_invite(leg, m):
        n = S.split_uri(m.uri)['user'] if isinstance(S.split_uri(m.uri), dict) else S.split_uri(m.uri)[1]
        c = calls[n.rstrip('f')]
        c.b.append(leg)
        leg.app['n'] = n
        def req(l, stx):
            if stx.req.method == 'INVITE' and l.state == 'est' and c.state == 'updating':
                l.app.setdefault('itxs', [l.itx]).append(stx)
                c.stx = stx
                stx.reply(response(stx.req, 100, None, None))
                def fin():
                    if stx.final is None: stx.reply(response(stx.req, 200, None, l.ltag, [('contact', '<%s>' % l.contact_uri), ('content-type', 'application/sdp')], l.lsdp))
                sim.after(c.late, fin)
                return True
            if stx.req.method == 'BYE' and c.state == 'releasing' and c.who == 'A': return True if sim.now < c.giveup else False
        leg.on_request = req
        if c.state == 'forwarded':
            leg.provisional(100)
            sim.after(c.late, lambda: leg.answer(S.mksdp(B.addr[0], 30000)))
            return
        if n.endswith('f'):
            leg.provisional(180)
            sim.after(c.late, leg.refuse, 503)
            return
        leg.provisional(180)
        sim.after(c.ans, lambda: leg.answer(S.mksdp(B.addr[0], 30000)))
    B.on_invite = on_invite
    def place(num, state, t0):
        c = calls[num] = C()
        c.num, c.state, c.b, c.stx, c.q = num, state, [], None, None
        c.verdict, c.ans, c.late, c.who, c.giveup = .05, .5, 1, rng.choice('AB'), 0
        if state == 'pending': c.verdict = TS - t0 + rng.uniform(1, 20) if auth else .05
        elif state == 'forwarded': c.late = TS - t0 + rng.uniform(1, 20)
        elif state == 'ringing': c.ans = TS - t0 + rng.uniform(1, 20)
        elif state == 'updating': c.late = rng.uniform(1, 12)
        elif state == 'failover': c.late = TS - t0 + rng.uniform(1, 20)
        c.talk = rng.uniform(5, 100)
        c.refused = None
        def start():
            c.leg = A.call(w.addr, num, 'alice', S.mksdp(A.addr[0], 20000))
            c.leg.app['on_final'] = lambda l, m: sim.after(max(TS + sim.t0 - sim.now, 0) + c.talk, c.hang) if m is not None and m.code < 300 else None
            if state == 'noack': c.leg.app['ack'] = False
        def hang():
            if c.leg.state != 'est': return
            (c.leg if c.who == 'A' or not c.b else c.b[-1]).bye()
            c.hung = True
        c.hang, c.hung = hang, False
        sim.after(t0, start)
        if state == 'updating':
            sim.after(TS - .5, lambda: c.leg.reinvite(S.mksdp(A.addr[0], 20000, 2)) if c.leg.state == 'est' else None)
        elif state == 'releasing':
            # one side's BYE is never answered
            c.giveup = sim.t0 + TS + 40
            sim.after(TS - rng.uniform(.1, 15), hang)
            c.who = 'A'
        elif state == 'cancelled': 
            c.ans = 200
            sim.after(TS - rng.uniform(.05, .9), lambda: c.leg.cancel())
        elif state == 'over': sim.after(TS - 6, hang)
        elif state == 'noack': 
            # answered shortly before; the ACK comes afterwards, or never
            c.ans = TS - t0 - 1
            c.ackat = rng.choice([.5, 3, 10])
            def ack():
                if c.leg.state == 'est':
                    c.leg.app['ack'] = True
                    c.leg.send_ack()
            sim.after(TS + c.ackat, ack)
        return c
    old = []
    for i in range(rng.randrange(1, 7)):
        st = rng.choice(STATES)
        if st == 'pending' and not auth or st == 'failover' and not auth: st = 'ringing'
        old.append(place('10%d' % i, st, rng.uniform(0, 4)))
    kind = rng.choice(['hangup', 'stop', 'restart'])
    R.count(kind)
    for c in old:
        if c.state == 'cancelled': c.canc = True
        R.count(c.state)
    w.run(TS - .001)
    snap = {}
    for c in old:
        b = c.b[-1] if c.b else None
        snap[c.num] = (c.leg.state, b and b.state)
    nA, nB = len(A.log), len(B.log)
    t = sim.now
    sig = {'hangup': signal.SIGHUP, 'stop': signal.SIGTERM, 'restart': signal.SIGPROF}
    w.signal(sig[kind])
    second = None
    if kind == 'restart' and rng.random() < .3:
        second = (rng.uniform(.1, 30), rng.choice(['stop', 'hangup']))
        def again():
            if not w.stopped and not _OsShim.log: w.signal(sig[second[1]])
        sim.after(second[0], again)
        R.count('second request')
    if kind != 'restart' and rng.random() < .15: sim.after(.2, w.signal, sig[kind]); second = (.2, kind)
    new = []
    for i in range(rng.choice([1, 1, 2])):
        new.append(place('20%d' % i, 'connected', rng.uniform(.001, .3) if kind == 'stop' else rng.uniform(.01, 20)))
    execs = _OsShim.log
    det = lambda: dict(request = kind, at = TS, second = second, auth = auth, stop_at = w.stopped and round(w.stop_at - sim.t0, 3), sessions = [(c.num, c.state, round(c.talk, 2), snap.get(c.num), [(round(h[0] - sim.t0, 2),) + h[1:3] for h in c.leg.hist if len(str(h)) < 3000][:25] if hasattr(c, 'leg') else None, [[(round(h[0] - sim.t0, 2),) + h[1:3] for h in b.hist][:25] for b in c.b]) for c in old + new])
    def trim(): pass
    tx = lambda c: [(h[0], h[1]) for h in c.leg.hist]
    restart_at = None
    for _ in range(3000):
        w.run(.5)
        if w.stopped or execs or sim.now > t + 420: break
        if kind == 'hangup' and sim.now > t + 60: break
    if execs: restart_at = sim.now
    released = lambda l, since, within: l is None or l.state in ('ended', 'failed') and l.end_at is not None and l.end_at <= since + within
    # new calls
    for c in new:
        if not hasattr(c, 'leg'): continue
        at = c.leg.hist[0][0]
        if kind == 'hangup':
            if second and at < t + second[0] + .1: continue
            if R.check(c.leg.final == 200 and c.b, 'a call placed after everything was hung up got %s' % c.leg.final, 'new call', det): R.count('accepted new')
        elif (not w.stopped or at < w.stop_at - .05) and (restart_at is None or at < restart_at - 1):
            if R.check(c.leg.final == 503, 'a call placed %.2f s after the %s request got %s' % (at - t, kind, c.leg.final), 'new call', det): R.count('refused new')
            R.check(not c.b, 'a call placed after the %s request reached the callee' % kind, 'new call forwarded', det)
    def hung(c, since):
        """was this call released as by an operator, at once"""
        a, b = snap[c.num]
        if c.state in ('over', 'releasing') or a in ('ended', 'failed'): return
        R.check(released(c.leg, since, EPS), '%s: the caller was not released by the %s request' % (c.state, kind), 'caller not released', det)
        if a == 'est': R.check(c.leg.end_by == 'remote', '%s: no BYE to the caller' % c.state, 'caller not released', det)
        elif c.state != 'cancelled': R.check(c.leg.final is not None and 500 <= c.leg.final, '%s: the caller got %s' % (c.state, c.leg.final), 'caller not released', det)
        for l in c.b:
            R.check(released(l, since, EPS), '%s: the callee was not released by the %s request (%s)' % (c.state, kind, l.state), 'callee not released', det)
        R.check(len(c.b) <= 1, 'the call went on to another destination', 'went on', det)
        if c.state == 'pending' and c.q is not None:
            R.check(not c.b, 'released while the verdict was pending, yet it was forwarded', 'went on', det)
    if kind in ('hangup', 'stop'):
        for c in old: hung(c, t)
        if kind == 'hangup': R.check(not w.stopped and not execs, 'hanging up all calls ended the instance', 'ended', det)
        else:
            if R.check(w.stopped, 'the instance did not stop', 'no stop', det):
                R.count('stopped')
                R.check(w.stop_at - t <= 4, 'the stop took %.1f s' % (w.stop_at - t), 'slow stop', det)
            R.check(not execs, 'restarted instead of stopping', 'restart', det)
    else:
        st = second[0] + t if second else None
        # every call in progress goes on as its parties want
        for c in old:
            lim = st if st is not None else 1e99
            def by_us(l):
                """did the B2BUA end this leg for a reason of its own"""
                if l.end_at is None or l.end_at < t or l.end_at >= lim - .01: return False
                return True
            if c.state in ('over', 'releasing', 'cancelled', 'failover'): pass
            if restart_at is not None and st is None:
                busy = c.leg.state not in ('ended', 'failed')
                R.check(not busy, '%s: the instance was replaced with the caller %s' % (c.state, c.leg.state), 'replaced under a call', det)
            if c.state in ('pending', 'forwarded', 'ringing', 'failover'):
                e = c.leg.end_at
                if c.leg.final is not None and c.leg.final != 200 and not (st is not None and e >= lim - .01):
                    R.fail('%s: the call in progress ended with %s at the restart request' % (c.state, c.leg.final), 'in progress', det())
            if c.state in ('connected', 'updating', 'noack') and snap[c.num][0] == 'est':
                e = c.leg.end_at
                if e is not None and e < lim - .01 and e < t + c.talk - .01:
                    R.fail('%s: released %.2f s after the restart request' % (c.state, e - t), 'in progress', det())
        if st is None:
            ends = [c.leg.end_at for c in old] 
            if all(e is not None for e in ends):
                last = max(ends)
                if R.check(restart_at is not None, 'all calls over at %.1f, not restarted by %.1f' % (last - sim.t0, sim.now - sim.t0), 'no restart', det):
                    R.count('restarted')
                    R.check(restart_at - max(last, t) <= 100, 'restarted %.1f s after the last call' % (restart_at - last), 'slow restart', det)
                    R.check([e for e in execs if e[0] == 'execv'] == [('execv', sys.executable, (sys.executable, 'b2bua.py', '-x'))] and ('chdir', '/nonexistent') in execs, 'restarted as %r' % execs, 'command line', det)
        elif second[1] == 'stop' and restart_at is None:
            R.check(w.stopped and w.stop_at - st <= 4, 'stop after restart request: %s' % (w.stopped and w.stop_at - st), 'slow stop', det)
    R.sample(dict(request = kind, second = second, states = [c.state for c in old]))
    R.ev((kind, second and second[1], tuple(sorted(c.state for c in old))), True)
