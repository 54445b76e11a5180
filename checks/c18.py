"""C18: calls through a media relay: every description on the wire against the relay's answers, and every command against the life of its call
Whole calls on the simulated network with the real UDP relay client and a scripted relay that hands out a fresh port for every command, so that each stream put on the wire names the command it came from. The monitor compares descriptions with their sources, the commands of a call with its identifiers and with one another, the streams deleted with the streams created, and what both ends see of a failing relay."""
import random, re, urllib.parse
import vsim, rtppworld, siplite as S
from vsim import Link, Internal
from siplite import response
from b2bworld import World, routing_lines, B2BSimpleAPI
from rtppworld import Relay, Rtp_proxy_client
RULE = 'seeded sets of 1-3 concurrent calls (one route or fail-over, 183/200 with description, 0-3 re-INVITEs by either side incl. holds, hang-up, cancel, refusal, late offers) x descriptions of 1-4 streams (RTP, SAVP, udptl, transports the relay does not handle, closed streams, IPv4, IPv6, rtcp, ptime attributes) x relay replies (with or without an address, IPv6, slow, lost, in duplicate) x failures of the relay (error codes, port 0, nonsense, silence, outage) at any command x relay without optional capabilities x media timeouts reported by the relay for any stream at any time (while ringing, connected, updating, after the end). Distinct by streams, updates, failures and outcome.'
N = {'quick': 5000, 'thorough': 80000}
NEED = {'no relay': 150, 'no description': 60, 'calls': 3000, 'descriptions': 5000, 'streams': 10000, 'foreign streams': 300, 'deleted': 3000, 'updates': 900, 'holds': 100, 'relay failed offer': 100, 'relay failed answer': 100, 'relay failed update': 60, 'cancelled': 100, 'failed over': 100, 'ipv6': 200, 'no relay route': 100, 'slow relay': 300, 'retransmitted commands': 300, 'media timeouts': 120, 'timeout of a later stream': 25}
KNOWN_TR = ('rtp/avp', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf', 'udp', 'udptl', 'udp/bfcp')
EPS = 1e-6

class Src: pass
class C: pass

class Gen:
    """session descriptions of one party; every stream has a port of its own"""
    port = 10000
    def __init__(self, rng, host):
        self.rng, self.host, self.sid, self.ver = rng, host, rng.randrange(1, 1 << 40), rng.randrange(1000)
        self.n = rng.choice([1, 1, 1, 2, 2, 3, 4])
        self.kinds = ['RTP/AVP'] + [rng.choice(['RTP/AVP', 'RTP/AVP', 'RTP/SAVP', 'udptl', 'TCP/MSRP', 'UDP/TLS/RTP/SAVPF', 'rtp/avp']) for _ in range(self.n - 1)]
        if rng.random() < .06: rng.shuffle(self.kinds)
        if rng.random() < .04: self.kinds = ['TCP/MSRP']
        self.v6 = rng.random() < .1
        self.rtcp = rng.random() < .3
        self.place = rng.choice(['session', 'media'])
    def make(self, hold = None):
        rng = self.rng
        self.ver += 1
        addr = self.host if not self.v6 else '2001:db8::%x' % rng.randrange(1, 65535)
        fam = 'IP6' if self.v6 else 'IP4'
        if hold == 'zero': addr = '::' if self.v6 else '0.0.0.0'
        c = 'c=IN %s %s' % (fam, addr)
        L = ['v=0', 'o=- %d %d IN %s %s' % (self.sid, self.ver, fam, self.host if not self.v6 else '2001:db8::1'), 's=-']
        if self.place == 'session': L.append(c)
        L.append('t=0 0')
        s = Src()
        s.secs, s.hold = [], hold
        for i, k in enumerate(self.kinds):
            Gen.port += 2
            p = Gen.port
            if i and rng.random() < .08: p = 0
            if k.lower().startswith(('rtp', 'udp/tls')):
                pts = rng.sample([0, 8, 18, 101, 97], rng.randint(1, 4))
                L.append('m=%s %d %s %s' % ('audio' if i == 0 else rng.choice(['audio', 'video']), p, k, ' '.join(map(str, pts))))
            elif k == 'udptl': L.append('m=image %d udptl t38' % p)
            else: L.append('m=message %d TCP/MSRP *' % p)
            if self.place == 'media': L.append(c)
            if k.lower().startswith(('rtp', 'udp/tls')):
                if self.rtcp: L.append('a=rtcp:%d IN %s %s' % (p + 1, fam, addr))
                for x in pts:
                    if x > 96: L.append('a=rtpmap:%d %s' % (x, 'telephone-event/8000' if x == 101 else 'iLBC/8000'))
                if rng.random() < .3: L.append('a=ptime:20')
                d = {None: rng.choice([None, 'sendrecv']), 'zero': rng.choice([None, 'sendrecv', 'sendonly']), 'sendonly': 'sendonly', 'inactive': 'inactive'}[hold]
                if d: L.append('a=' + d)
            if rng.random() < .1: L.append('a=x-%d:%s' % (i, rng.randrange(1 << 30)))
            s.secs.append((k, addr, p))
        s.text = '\r\n'.join(L) + '\r\n'
        s.body = s.text.encode()
        s.ver = self.ver
        s.gen = self
        return s

def secs_of(text):
    """[(m, address, family, [other lines])], session lines without c and o, o"""
    top, o, sc, secs = [], None, None, []
    for l in text.split('\r\n'):
        if not l: continue
        if l[0] == 'm': secs.append([l[2:].split(), None, []])
        elif l[0] == 'c':
            if secs: secs[-1][1] = l[2:].split()
            else: sc = l[2:].split()
        elif secs: secs[-1][2].append(l)
        elif l[0] == 'o': o = l[2:].split()
        else: top.append(l)
    for s in secs:
        if s[1] is None: s[1] = sc
    return top, o, secs

def case(seed, R, tier):
    rng = random.Random(seed)
    Gen.port = 10000 + rng.randrange(5000) * 2
    auth = rng.random() < .5
    rtpp = rng.random() < .93
    static = '10.0.2.1' + ('' if rtpp else ';rtpp=0')
    w = World(seed, auth = auth, acct = rng.random() < .3, route = None if auth else static, digest = False)
    try: (refusals if rtpp and rng.random() < .12 else body)(rng, R, w, auth, rtpp)
    finally: w.close()

def refusals(rng, R, w, auth, rtpp):
    """calls whose media cannot be set up at all: without a relay online, with offers that are no descriptions"""
    sim = w.sim
    relay = Relay(sim)
    up = rng.random() < .5
    dead = [not up]
    relay.on_cmd = lambda r, cookie, cmd: None if dead[0] else (.01, r.default(cmd))
    w.gc['_rtp_proxy_clients'] = [Rtp_proxy_client(w.gc, spath = 'udp:10.9.0.1:22222') for _ in range(rng.choice([1, 2]))]
    w.run(5)
    if up and rng.random() < .4:
        dead[0], up = True, False
        w.run(30)
    A, B = w.peer('10.0.1.1'), w.peer('10.0.2.1')
    rung = []
    def on_invite(leg, m):
        rung.append(m.uri)
        leg.answer(Gen(rng, '10.5.0.2').make().body)
    B.on_invite = on_invite
    n = rng.choice([1, 1, 2, 3])
    w.radius.on_auth = lambda req: (0, rng.uniform(.001, .1), routing_lines(['10.0.2.1'] * n))
    calls = []
    for i in range(rng.choice([1, 2, 3])):
        g = Gen(rng, '10.4.0.1')
        g.kinds[0] = 'RTP/AVP'
        t = g.make().text
        k = rng.choice(['ok', 'port', 'no c', 'line', 'c', 'junk', 'o', 'late']) if up else rng.choice(['ok', 'ok', 'port', 'late'])
        b = {'ok': t, 'late': '', 'port': re.sub(r'm=audio \d+', 'm=audio ' + rng.choice(['x', '', '1x']), t), 'no c': re.sub(r'c=.*\r\n', '', t), 'line': t.replace('m=', rng.choice(['x\r\nm=', 'q=1\r\nm=']), 1), 'c': re.sub(r'c=.*\r\n', 'c=IN\r\n', t), 'junk': rng.choice(['\0\1', 'hello', 'v=1']), 'o': re.sub(r'o=.*\r\n', 'o=x\r\n', t)}[k]
        c = C()
        c.k, c.text, c.finals = k, b, []
        calls.append(c)
        def go(c = c, b = b, i = i):
            c.leg = A.call(w.addr, 'n%d' % i, 'al', b.encode() or None, start = False)
            def fin(l, m):
                c.finals.append(m.code if m is not None else 408)
                if c.k == 'late' and c.finals[-1] == 200: c.leg.late_body = None
            c.leg.app['on_final'] = fin
            c.leg.app['on_prov'] = None
            c.leg.itx.start()
            sim.after(20, lambda: c.leg.state == 'est' and c.leg.bye())
        sim.after(rng.uniform(0, 2), go)
    w.run(60)
    for c in calls:
        det = lambda: {'kind': c.k, 'relay': up, 'routes': n, 'auth': auth, 'text': c.text, 'finals': c.finals, 'hist': c.leg.hist, 'dumped': [x[-500:] for t, m, x in Internal.log[:3]]}
        R.check(len(c.finals) == 1, 'the caller got the final answers %s' % c.finals, 'refusal answers', det)
        if not c.finals: continue
        if not up:
            R.count('no relay')
            R.check(c.finals[0] >= 400, 'without a relay the caller got %s' % c.finals, 'connected without a relay', det)
        elif c.k in ('port', 'no c', 'c'):
            R.count('no description')
            R.check(c.finals[0] >= 400, 'an offer that is no description (%s) was answered %s' % (c.k, c.finals), 'connected without a description', det)
        elif c.k == 'ok': R.check(c.finals[0] == 200, 'an ordinary call was answered %s' % c.finals, 'not answered', det)
    w.run(80)
    z = w.sizes()
    for x in ('ccmap', 'req_consumers', 'tserver', 'tclient'): R.check(z[x] == 0, '%d left in %s after calls without media' % (z[x], x), 'left in ' + x, lambda: {'sizes': z, 'calls': [(c.k, c.finals) for c in calls], 'relay': up, 'dumped': [x[-500:] for t, m, x in Internal.log[:3]]})
    R.ev(('refusals', up, n, auth, tuple((c.k, tuple(c.finals)) for c in calls)), True)

def body(rng, R, w, auth, rtpp):
    sim = w.sim
    caps = dict((v, rng.random() < .8) for v in ('20071218', '20080403', '20081224', '20090810', '20150617', '20250523'))
    relay = Relay(sim, caps = caps)
    relay.delay = rng.choice([(.0005, .005), (.001, .02), (.05, .3), (.2, .9)])
    slow = relay.delay[1] > .1
    if slow: R.count('slow relay')
    lossy = rng.random() < .3
    client = Rtp_proxy_client(w.gc, spath = 'udp:10.9.0.1:22222')
    client.notify_socket = '/run/b2b.sock'
    sent = []       # commands handed to the client: [t, text, done at, result]
    orig = client.rtpp_class.send_command
    class Cls(client.rtpp_class):
        def send_command(self, command, cb = None, *a):
            e = [sim.now, command, None, None]
            sent.append(e)
            def fin(res, *a, **k):
                e[2], e[3] = sim.now, res
                if cb is not None: return cb(res, *a, **k)
            orig(self, command, fin, *a)
    client.rtpp_class = Cls
    w.gc['_rtp_proxy_clients'] = [client]
    w.run(2)
    assert client.online, 'relay client did not come up'
    if lossy:
        caddr = client.worker.sim_addr
        for k in ((caddr, relay.addr), (relay.addr, caddr)): sim.links[k] = Link(loss = rng.choice([.05, .2, .35]), dup = rng.choice([0, .2]), delay = (.001, .02))
    A, B = w.peer('10.0.1.1'), w.peer('10.0.2.1')
    calls, bycid, cmd_n = {}, {}, {}
    ports = {}          # port on the relay -> (command, address)
    addrmode = rng.choice(['addr', 'addr', 'none', 'mixed', 'v6'])
    plain = relay.default
    def on_cmd(r, cookie, cmd):
        ws = cmd.split('&&')[0].split()
        if cmd[0] in 'VI': return r.sim.rng.uniform(*r.delay), plain(cmd)
        cid = ws[1].rsplit('-', 1)[0]
        c = bycid.get(cid)
        d = rng.uniform(*r.delay)
        if cmd[0] == 'U':
            if c is not None:
                c.nu += 1
                if c.nu == c.fail_at:
                    c.failed = (sim.now, cmd, c.fail_kind)
                    if c.fail_kind == 'silent': return None
                    return d, {'error': 'E7', 'error2': 'E1', 'zero': '0', 'garbage': rng.choice(['foo', '-', '12x 1.2.3.4', '?? 1'])}[c.fail_kind]
            r.port += 2
            m = addrmode if addrmode != 'mixed' else rng.choice(['addr', 'none', 'v6'])
            a = {'addr': r.media, 'none': None, 'v6': '2001:db8:9::1'}[m]
            ports[r.port] = (cmd, a or r.addr[0], 'IP6' if m == 'v6' else 'IP4')
            r.sessions.setdefault(ws[1], {})
            return d, '%d' % r.port + ('' if a is None else ' ' + a + (' 6' if m == 'v6' else ''))
        return d, plain(cmd)
    relay.on_cmd = on_cmd
    ncalls = rng.choice([1, 1, 2, 3])
    def on_auth(q):
        c = calls[q.get('Called-Station-Id')]
        return 0, .05, routing_lines(['%s%s@10.0.2.1%s' % (c.num, 'x' * (c.nroutes - i - 1), '' if rtpp else ';rtpp=0') for i in range(c.nroutes)])
    w.radius.on_auth = on_auth
    for i in range(ncalls):
        c = C()
        c.num = '90%04d' % i
        calls[c.num] = c
        c.nroutes = rng.choice([1, 1, 2]) if auth else 1
        c.a, c.b = Gen(rng, '10.0.1.1'), Gen(rng, '10.0.2.1')
        c.b.kinds = list(c.a.kinds)
        c.late = rng.random() < .06
        c.nu, c.fail_at, c.failed, c.fail_kind = 0, 0, None, rng.choice(['error', 'error2', 'zero', 'garbage', 'silent', 'silent'])
        if rng.random() < .35: c.fail_at = rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
        c.early = rng.random() < .35 and not c.late
        c.outcome = rng.choice(['answer'] * 7 + ['refuse', 'cancel'])
        c.blegs, c.re, c.log = [], [], []
        c.srcs = {'A': [], 'B': []}
        c.plan = [(rng.uniform(1, 12), rng.choice('AB'), rng.choice([None, None, 'zero', 'sendonly', 'inactive', 'same'])) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        c.glare = rng.random() < .3
        if c.glare and len(c.plan) > 1:
            t0 = rng.choice([rng.uniform(0, .5), rng.uniform(1, 8)])
            c.plan = [(t0 + rng.uniform(0, 1.5), s, h) for t, s, h in c.plan]
        c.talk = rng.choice([rng.uniform(.001, 1.), rng.uniform(3, 20), rng.uniform(14, 40)])
        c.t0 = rng.uniform(0, 3)
        c.talk_by = rng.choice('AB')
        c.ringt, c.anst = rng.uniform(.05, .5), rng.uniform(.5, 3)
        c.cancelt = rng.choice([rng.uniform(0, .2), rng.uniform(.2, 3)])
        c.mto, c.mtor = (rng.uniform(.5, 15) if rng.random() < .15 and caps['20081224'] and rtpp else None), None
    def reinv(c, leg, side, hold):
        if leg.state != 'est' or c.busy.get(side) or (not c.glare and c.busy): return
        if c.srcs[side] and hold == 'same': s = c.srcs[side][-1]
        else:
            s = (c.a if side == 'A' else c.b).make(hold if hold != 'same' else None)
            c.srcs[side].append(s)
        if hold == 'zero': R.count('holds')
        R.count('updates')
        rec = {'t': sim.now, 'side': side, 'final': None, 'at': None, 'src': s}
        c.re.append(rec)
        if c.busy: R.count('glare')
        c.busy[side] = True
        def cb(l, resp, tx):
            rec['final'], rec['at'] = (resp.code if resp is not None else 408), sim.now
            c.busy.pop(side)
        leg.reinvite(s.body, cb = cb)
    def on_request_for(c, side):
        def f(leg, stx):
            if stx.req.method == 'INVITE' and leg.state == 'est':
                leg.app.setdefault('itxs', [leg.itx] if leg.role == 'uas' else []).append(stx)
                s = (c.a if side == 'A' else c.b).make()
                c.srcs[side].append(s)
                leg.rsdp = stx.req.body
                c.log.append((sim.now, 'rx re-INVITE', side))
                sim.after(rng.uniform(.01, .4), lambda: stx.reply(response(stx.req, 200, None, leg.ltag, [('contact', '<%s>' % leg.contact_uri), ('content-type', 'application/sdp')], s.body)))
                return True
            return False
        return f
    def on_invite(leg, m):
        n = S.split_uri(m.uri)[1]
        c = calls[n.rstrip('x')]
        c.blegs.append(leg)
        leg.on_request = on_request_for(c, 'B')
        if n.endswith('x'):
            R.count('failed over')
            leg.provisional(180)
            sim.after(rng.uniform(.01, .5), leg.refuse, 503)
            return
        s1 = c.b.make()
        def ring():
            if leg.itx.final is not None: return
            if c.early:
                c.srcs['B'].append(s1)
                leg.provisional(183, s1.body)
            else: leg.provisional(180)
        sim.after(c.ringt, ring)
        def ans():
            if leg.itx.final is not None: return
            if c.outcome == 'refuse': return leg.refuse(486)
            s = s1
            if not c.early or rng.random() < .5: s = c.b.make()
            if s not in c.srcs['B']: c.srcs['B'].append(s)
            leg.answer(s.body)
        if c.outcome != 'noanswer': sim.after(c.anst, ans)
    B.on_invite = on_invite
    def place(c):
        s = c.a.make()
        c.srcs['A'].append(s)
        c.busy = {}
        c.leg = A.call(w.addr, c.num, 'alice', s.body if not c.late else b'', start = False)
        c.leg.on_request = on_request_for(c, 'A')
        bycid[c.leg.callid] = c
        c.final_at = None
        def final(l, m):
            c.final_at = sim.now
            if m is not None and m.code < 300:
                for dt, side, hold in c.plan: sim.after(dt, lambda side = side, hold = hold: reinv(c, c.leg if side == 'A' else c.blegs[-1], side, hold))
                def hang():
                    l = c.leg if c.talk_by == 'A' else c.blegs[-1]
                    if l.state == 'est':
                        l.bye()
                        c.hung = sim.now
                sim.after(c.talk, hang)
        c.leg.app['on_final'] = final
        c.hung = None
        if c.late:
            s2 = c.a.make()
            c.srcs['A'].append(s2)
            c.leg.app['ack_body'] = s2.body
        c.leg.itx.start()
        if c.outcome == 'cancel': sim.after(c.cancelt, c.leg.cancel)
    api = B2BSimpleAPI.__new__(B2BSimpleAPI)
    api.global_config = w.gc
    def mtimeout(c):
        # the relay has dropped a stream for lack of media and says so on the notification socket
        mine = [(ws[1], e[1]) for e, ws in ((e, e[1].split('&&')[0].split()) for e in sent) if ws[0][0] == 'U' and ws[1] in relay.sessions and ws[1].rsplit('-', 1)[0] == c.leg.callid and '/run/b2b.sock' in ws]
        if not mine or not relay.up: return
        if any(e[2] is None for e in sent if ' ' + c.leg.callid in e[1]):
            # (the relay is not that fast: a stream is not dropped in the middle of an update)
            sim.after(1, mtimeout, c); return
        sid = rng.choice(sorted(set(x[0] for x in mine)))
        cmd = [x[1] for x in mine if x[0] == sid][-1].split('&&')[0].split()
        del relay.sessions[sid]
        out = []
        class Clim: send = staticmethod(out.append)
        up = [l for l in [c.leg] + c.blegs if l.state not in ('ended', 'failed')]
        c.mtor = [sim.now, sid, out, c.leg.state, [l.state for l in c.blegs], [id(e) for e in sent], up]
        with vsim.quiet(): api.recvCommand(Clim, urllib.parse.unquote(cmd[-1]))
    for c in calls.values(): sim.after(c.t0, place, c)
    for c in calls.values():
        if c.mto is not None: sim.after(c.t0 + c.mto, mtimeout, c)
    outage = None
    if rng.random() < .12:
        a = rng.uniform(0, 20)
        outage = (a, a + rng.choice([rng.uniform(.5, 3), rng.uniform(5, 30)]))
        sim.after(outage[0], setattr, relay, 'up', False)
        sim.after(outage[1], setattr, relay, 'up', True)
    w.run(60)
    over = 100
    w.run(130)
    judge(rng, R, w, sim, relay, client, calls, sent, ports, outage, lossy, rtpp, caps, auth)

def judge(rng, R, w, sim, relay, client, calls, sent, ports, outage, lossy, rtpp, caps, auth):
    T = lambda t: None if t is None else round(t - sim.t0, 3)
    exc = [x for x in Internal.log]
    def det(c = None):
        d = {'outage': outage, 'lossy': lossy, 'internal': [(T(t), m, x[-600:]) for t, m, x in exc[:4]]}
        if c is not None:
            d['plan'] = {'early': c.early, 'outcome': c.outcome, 'glare': c.glare, 'fail_at': c.fail_at, 'kind': c.fail_kind, 'failed': c.failed and (T(c.failed[0]), c.failed[1]), 'late': c.late, 'updates': [(T(x['t']), x['side'], x['final'], T(x['at'])) for x in c.re]}
            d['commands'] = [(T(e[0]), e[1], T(e[2]), e[3]) for e in sent if ' ' + c.leg.callid in e[1]]
            d['caller'] = [(T(h[0]),) + tuple(x.decode()[:400] if isinstance(x, bytes) else x for x in h[1:]) for h in c.leg.hist]
            d['callee'] = [[(T(h[0]),) + tuple(x.decode()[:400] if isinstance(x, bytes) else x for x in h[1:]) for h in l.hist] for l in c.blegs]
        return d
    # retransmissions seen by the relay
    R.count('retransmitted commands', sum(1 for x in relay.cmds if x[3]))
    sess = {}
    for e in sent:
        if e[1][0] in 'VIG': continue
        ws = e[1].split('&&')[0].split()
        sess.setdefault(ws[1].rsplit('-', 1)[0], []).append((e, ws))
    known = dict((c.leg.callid, c) for c in calls.values())
    for cid in sess: R.check(cid in known, 'commands were sent for a call that does not exist: %r' % cid, 'unknown call', det())
    alltags = {}
    for c in calls.values():
        R.count('calls')
        es = sess.get(c.leg.callid, [])
        det_c = lambda: det(c)
        if not rtpp:
            R.count('no relay route')
            R.check(not es, 'the relay was used for a route that excludes it', 'relay not wanted', det_c)
        # one at a time, in order
        for (e1, w1), (e2, w2) in zip(es, es[1:]):
            R.check(e1[2] is not None and e1[2] <= e2[0] + EPS, 'a command was sent before the one before it had completed: %r after %r' % (e2[1], e1[1]), 'two at a time', det_c)
        # identifiers
        us = [(e, ws) for e, ws in es if ws[0][0] == 'U']
        ft = us[0][1][4] if us else None
        tags = set()
        if us:
            first = us[0][1]
            # the side of a command is told by its first tag
            for e, ws in us:
                tl = [x for x in ws[4:6] if not x.startswith('/run/b2b.sock')]
                tags.update(tl)
                rest = ws[4 + len(tl):]
                idx = ws[1].rsplit('-', 1)[1]
                if caps['20081224']:
                    R.check(len(rest) == 2 and rest[0] == '/run/b2b.sock' and urllib.parse.unquote(rest[1]).split()[:1] == ['r'] and (urllib.parse.unquote(rest[1]).split()[2:] == ([] if idx == '0' else [idx])), 'the notification part of a command is %r' % rest, 'notification', det_c)
                else: R.check(rest == [], 'a relay that does not support notifications got %r' % rest, 'notification', det_c)
            R.check(len(tags) <= 2, 'the commands of a call carry %d tags' % len(tags), 'tags', det_c)
        for t in tags: R.check(alltags.setdefault(t, c) is c, 'two calls share a tag', 'tags shared', det_c)
        # deletions
        created = []
        for e, ws in es:
            if ws[0][0] == 'U' and ws[1] not in created: created.append(ws[1])
        dels = [ws[1] for e, ws in es if ws[0] == 'D']
        if c.mtor:
            judge_timeout(R, c, es, created, dels, sim, w, det_c, T)
        for x in created:
            if c.mtor and c.mtor[1] == x: continue
            R.check(dels.count(x) == 1, 'the stream %s was deleted %d times' % (x, dels.count(x)), 'deleted %d times' % min(dels.count(x), 2), det_c)
            R.count('deleted')
        for x in dels: R.check(x in created, 'a stream was deleted that had not been created', 'deleted without creation', det_c)
        dead = False
        for e, ws in es:
            if ws[0] == 'D':
                dead = True
                R.check(set(ws[2:4]) >= tags and len(ws) == 4, 'a deletion carries the tags %r, the call %r' % (ws[2:], tags), 'deletion tags', det_c)
            else: R.check(not dead, 'a command followed the deletion of the streams', 'after deletion', det_c)
        # ends
        legs = [c.leg] + c.blegs
        R.check(c.leg.final is not None, 'the caller never got a final answer', 'no final answer', det_c)
        R.check(all(l.state in ('ended', 'failed') for l in legs), 'a leg is still up at the end: %r' % [l.state for l in legs], 'left up', det_c)
        for rec in c.re: R.check(rec['final'] is not None, 'an update was never answered', 'update unanswered', det_c)
        end = max([l.end_at or 0 for l in legs])
        dts = [e[0] for e, ws in es if ws[0] == 'D']
        if dts and not outage and end: R.check(dts[0] <= end + 40, 'the streams were deleted %.1f s after the call' % (dts[0] - end), 'deleted late', det_c)
        if dts and all(l.state in ('ended', 'failed') for l in legs): 
            R.check(dts[0] >= min([l.end_at for l in legs if l.end_at] or [0]) - 20, 'the streams were deleted before the call ended', 'deleted early', det_c)
        # a failing command
        bad = [(e, ws) for e, ws in us if e[2] is not None and (e[3] is None or not re.match(r'[1-9]\d*( |$)', e[3]))]
        if bad:
            judge_failure(R, c, bad, us, det_c, T, sim)
        elif not outage and not c.re and c.outcome == 'answer' and not c.mtor and not any(e[2] is not None and e[3] is None for e in sent):
            R.check(c.leg.final == 200, 'the relay did its part and the caller got %r' % c.leg.final, 'not answered', det_c)
        # what was put on the wire
        first = {}
        for i, pk in enumerate(sim.wire):
            if pk.src == w.addr and pk.msg: first.setdefault(pk.msg.body, i)
        for side, leg in [('B', c.leg)] + [('A', l) for l in c.blegs]:
            vers = []
            for t, what, *d in leg.hist:
                if what not in ('rx_invite', 'prov', 'final', 'rx', 'rx_ack', 're_final'): continue
                b = d[-1]
                if not isinstance(b, bytes) or not b: continue
                R.count('descriptions')
                o = judge_sdp(R, c, side, b.decode(), t, us, ports, rtpp, det_c)
                # (in the order they were sent: datagrams may overtake each other)
                if o: vers.append((first.get(b, 0), o))
            vers.sort(key = lambda x: x[0])
            for (_, a), (_, b) in zip(vers, vers[1:]):
                if a[1] == b[1]: R.check(int(b[2]) >= int(a[2]), 'the version of a session went from %s to %s' % (a[2], b[2]), 'version', det_c)
        if c.outcome == 'cancel': R.count('cancelled')
        R.ev((len(c.a.kinds), len(c.re), bool(bad) and c.fail_kind, c.leg.final, c.early, c.late, c.outcome), bool(es) or not rtpp)
    for q in w.radius.accts:
        v = q.get('Acct-Session-Time')
        if v is not None: R.check(int(v) >= 0, 'a record counts %s seconds' % v, 'negative time', lambda: {'record': q.attrs})
    left = [x for x in relay.sessions]
    if not lossy and not outage: R.check(not left, 'the relay still holds %r at the end' % left, 'left on the relay', det())
    R.check(not w.cmap.ccmap, '%d calls are left in the list' % len(w.cmap.ccmap), 'left in the list', det())
    R.sample({'calls': [(c.outcome, c.leg.final, len(c.re)) for c in calls.values()], 'commands': len(sent)})

def judge_timeout(R, c, es, created, dels, sim, w, det, T):
    t, sid, out, st, bst, before, up = c.mtor
    R.count('media timeouts')
    if not sid.endswith('-0'): R.count('timeout of a later stream')
    again = [e for e, ws in es if ws[0][0] == 'U' and ws[1] == sid and id(e) not in before]
    n = dels.count(sid)
    if any(ws[0] == 'D' and e[0] <= t for e, ws in es): return        # the call was over by then
    R.check(''.join(out) == 'OK\n', 'a media timeout was answered %r' % out, 'timeout answer', det)
    if again: R.check(n == 1, 'the stream %s was set up again after its timeout and deleted %d times' % (sid, n), 'timed out stream deleted %d times' % min(n, 2), det)
    elif st == 'est' and 'est' in bst:
        R.count('connected timeouts')
        R.check(n == 0, 'the stream %s the relay had dropped itself was deleted' % sid, 'dropped stream deleted', det)
        for l in [c.leg] + c.blegs: R.check(l.end_at is not None and l.end_at <= t + 40, 'a leg ended at %r, the media timeout was at %r' % (T(l.end_at), T(t)), 'not released on a media timeout', det)
        if c.leg.end_at: R.check(c.leg.end_at <= t + 2 or c.busy, 'the caller was released at %r, the media timeout was at %r' % (T(c.leg.end_at), T(t)), 'released late on a media timeout', det)

def judge_failure(R, c, bad, us, det, T, sim):
    """an offer or an answer that the relay fails is refused (the next route may be tried); an update that it fails is refused, or the call is released, and never half of it"""
    est = c.leg.est_at
    att, prev = {}, (None, 99)      # the commands made for one description
    for e, ws in us:
        cur = (ws[4], int(ws[1].rsplit('-', 1)[1]))
        if cur[0] != prev[0] or cur[1] <= prev[1]: n = len(att)
        att[id(e)], prev = n, cur
    first = [x for x in bad if est is None or x[0][2] < est + EPS]
    nfirst = len(set(att[id(x[0])] for x in first))
    for e, ws in bad:
        t = e[2]
        before = est is None or est > t
        if before:
            isoffer = any(int(ws[3]) == q[2] for s in c.srcs['A'] for q in s.secs if q[2])
            if c.nroutes > 1 and nfirst < c.nroutes and (isoffer or c.leg.final == 200): continue     # the next route was tried
            if isoffer:
                R.count('relay failed offer')
                R.check(len(c.blegs) < c.nroutes, 'the callee was called although the relay failed', 'called anyway', det)
            else: R.count('relay failed answer')
            if e is first[-1][0]:
                R.check(c.leg.final is not None and c.leg.final >= 400, 'the relay failed before the answer and the caller got %r' % c.leg.final, 'failure outcome', det)
                if c.leg.end_at: R.check(c.leg.end_at <= t + 5 or c.outcome == 'cancel', 'the caller was told %.1f s after the relay had failed' % (c.leg.end_at - t), 'told late', det)
                for l in c.blegs: R.check(l.end_at is not None and l.end_at <= t + 40, 'the relay failed at %s, the legs ended at %r' % (T(t), [T(l.end_at) for l in c.blegs]), 'not released', det)
        else:
            R.count('relay failed update')
            mine = 'A' if any(int(ws[3]) == q[2] for s in c.srcs['A'] for q in s.secs if q[2]) else 'B'
            up = [x for x in c.re if x['t'] <= t and x['side'] == mine and any(int(ws[3]) == q[2] for q in x['src'].secs if q[2])] or [x for x in c.re if x['t'] <= t and x['side'] != mine][-1:]
            R.check(all(x['at'] is not None and x['at'] < t + 5 for x in up), 'the relay failed at %s, the update was answered at %r' % (T(t), [T(x['at']) for x in up]), 'update not refused', det)
            if c.blegs:
                a, b = c.leg.end_at, c.blegs[-1].end_at
                R.check(a is not None and b is not None and abs(a - b) < 40, 'the relay failed at %s, the legs ended at %r and %r' % (T(t), T(a), T(b)), 'half released', det)

def judge_sdp(R, c, side, text, t, us, ports, rtpp, det):
    """side: whose description this is"""
    top, o, secs = secs_of(text)
    srcs = c.srcs[side]
    if not rtpp:
        R.check(any(s.text == text for s in srcs), 'without a relay a description came out different', 'changed without relay', det)
        return o
    if top and 'a=nortpproxy:yes' in text:
        pass
    # find the source through the first relayed stream
    cand = None
    rel = [i for i, s in enumerate(secs) if s[0][2].lower() in KNOWN_TR]
    idx = dict((j, i) for i, j in enumerate(rel))
    for j in rel:
        p = int(secs[j][0][1])
        if p == 0: continue
        if p not in ports:
            R.fail('a stream points at port %d, which the relay did not return' % p, 'not a relay port', det()); return o
        cmd = ports[p][0].split('&&')[0].split()
        m = [s for s in srcs if j < len(s.secs) and s.secs[j][2] == int(cmd[3])]
        R.check(m, 'a stream came from a command that was not made for a description of this side', 'foreign command', det)
        if m: cand = m[0]; break
    if cand is None:
        m = [s for s in srcs if [x[2] for x in secs_of(s.text)[2] and s.secs] == [int(x[0][1]) for x in secs]]
        if not rel: cand = m[0] if m else None
        R.check(cand is not None or rel, 'a description without relayed streams came out different', 'unrelayed changed', det)
        if cand is None: return o
    stop, so, ssecs = secs_of(cand.text)
    R.check(len(secs) == len(ssecs), 'a description of %d streams was relayed with %d' % (len(ssecs), len(secs)), 'streams', det)
    R.check(top == stop, 'the session part was relayed as %r instead of %r' % (top, stop), 'session part', det)
    for j, (s, q) in enumerate(zip(secs, ssecs)):
        R.count('streams')
        want = [l for l in q[2]]
        got = [l for l in s[2]]
        if j == len(secs) - 1 and got and got[-1] == 'a=nortpproxy:yes': got.pop()
        R.check(s[0][0] == q[0][0] and s[0][2:] == q[0][2:], 'the stream %r was relayed as %r' % (q[0], s[0]), 'media line', det)
        if j not in idx:
            R.count('foreign streams')
            R.check(s[0] == q[0] and s[1] == q[1] and got == want, 'a stream the relay does not handle was changed: %r -> %r' % (q, s), 'foreign stream changed', det)
            continue
        cmds = [(e, ws) for e, ws in us if ws[1].endswith('-%d' % idx[j]) and int(ws[3]) == int(q[0][1]) and ws[2] == q[1][2]]
        p = int(s[0][1])
        if int(q[0][1]) == 0:
            R.check(p == 0, 'a closed stream was relayed with port %d' % p, 'closed stream', det)
            continue
        if p not in ports:
            R.fail('a stream points at port %d, which the relay did not return' % p, 'not a relay port', det()); continue
        cmd, addr, fam = ports[p]
        ws = cmd.split('&&')[0].split()
        R.check(ws[1] == '%s-%d' % (c.leg.callid, idx[j]) and int(ws[3]) == int(q[0][1]) and ws[2] == q[1][2], 'a stream at %s:%s was given the port the relay returned for %r' % (q[1][2], q[0][1], cmd), 'other port', det)
        R.check(('6' in re.sub(r'[RL][0-9.]+', '', ws[0][1:])) == (q[1][1] == 'IP6'), 'the command for an %s stream was %r' % (q[1][1], cmd), 'family option', det)
        R.check(s[1] == ['IN', fam, addr], 'a stream points at %r instead of %r' % (s[1], addr), 'address', det)
        if fam == 'IP6' or q[1][1] == 'IP6': R.count('ipv6')
        zero = q[1][2] in ('0.0.0.0', '::')
        if zero:
            want = [l for l in want if l != 'a=sendrecv']
            if 'a=sendonly' not in want: want.append('a=sendonly')
        want = [re.sub(r'^a=rtcp:.*', 'a=rtcp:%d IN %s %s' % (p + 1, fam, addr), l) for l in want]
        R.check(got == want, 'a stream was relayed with %r instead of %r' % (got, want), 'attributes', det)
    return o
