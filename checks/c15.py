"""C15: the same calls run with and without hostile datagrams around them; everything their parties see must be the same, hostile requests be refused, and nothing be left behind
Differential monitor on whole instances on the simulated network: scripted calls with fixed link delays are run twice from the same seed, the second time with malformed datagrams from other addresses and malformed participants in other calls; the event logs of the scripted calls are compared, every request handed to the application is matched with the hostile datagrams, and answers and internal tables are examined at the end."""
import random
import vsim, siplite as S, hostile, peers
from hostile import spoil
from vsim import Link, Sim
from kit import SDP
from b2bworld import World, routing_lines
RULE = 'seeded configurations (RADIUS or static route, digest, NAT traversal, passed headers, allowed payload types, call-id hiding, helper proxy) x 2-3 scripted calls x 5-60 hostile datagrams: random bytes, requests and responses with broken, missing, repeated, truncated, huge or undecodable parts, broken copies of packets of the scripted calls, callers and callees whose every message may be malformed. Distinct by configuration and kinds of breakage.'
N = {'quick': 1600, 'thorough': 60000}
NEED = {'scripted calls': 4000, 'hostile': 15000, 'broken messages of parties': 2500, 'compared': 50000, 'answerable': 3000, 'short body': 60, 'unreadable length': 60, 'class bad': 5000, 'class junk': 1500}
CPU = 60
HOST = '10.66.0.%d'

class Bad(peers.Peer):
    """a party whose messages come out broken now and then"""
    p = .3
    brng = None
    sent = ()
    def _out(self, src, dst, data, msg, retrans = False):
        if self.dead: return
        again = self.memo.get(data)
        if again is not None and self.stubborn:
            self.sim.send(src, dst, again)
            return
        if msg is not None and self.brng.random() < self.p:
            good = data
            data, cls, what = spoil(self.brng, msg, self.brng.choice(['ok', 'ok', 'ok', None]))
            self.sent.append((self.sim.now, cls, what, data))
            self.memo[good] = data
            msg = None
        if msg is not None: self.log.append((self.sim.now, 'out', msg, src, dst, retrans))
        self.sim.send(src, dst, data)

def plan(rng):
    P = dict(auth = rng.random() < .5, digest = rng.random() < .5, opts = [], heads = [], proxy = rng.random() < .2)
    if rng.random() < .4: P['opts'].append(('nat_traversal', 'yes'))
    if rng.random() < .3: P['opts'].append(('hide_call_id', 'yes'))
    if rng.random() < .3: P['opts'].append(('allowed_pts', '0,8,101'))
    if rng.random() < .3: P['heads'] = ['X-Any', 'Remote-Party-ID']
    if rng.random() < .3: P['opts'].append(('keepalive_ans', '40'))
    P['calls'] = []
    for i in range(rng.choice([2, 3])):
        c = dict(i = i, num = '700%d' % i, t0 = rng.uniform(0, 30) if i else 0.0, ring = rng.choice([180, 183, None]), tr = rng.uniform(.1, 1), ans = rng.uniform(1.2, 20), code = rng.choice([200, 200, 200, 200, 486]), re = rng.choice([None, rng.uniform(1, 10)]), info = rng.choice([None, rng.uniform(1, 10)]), rewho = rng.randrange(2),
                 bye = rng.uniform(12, 40), who = rng.randrange(2), cancel = rng.choice([None] * 5 + [rng.uniform(.2, 1.5)]))
        P['calls'].append(c)
    # after everything hostile is over
    P['calls'].append(dict(i = 3, num = '7003', t0 = 110.0, ring = 180, tr = .5, ans = 2.0, code = 200, re = 4.0, info = 5.0, rewho = 0, bye = 20.0, who = rng.randrange(2), cancel = None))
    return P

class Track: pass

def run(seed, P, hseed, R = None):
    """one run; with hseed None nothing hostile happens"""
    w = World(seed, auth = P['auth'], acct = P['auth'], digest = P['digest'], opts = P['opts'] + [('max_credit_time', '70')], pass_headers = P['heads'], route = None if P['auth'] else '10.0.2.1', proxy = ('10.0.3.1', 5060) if P['proxy'] else None)
    T = Track()
    T.w = w
    try:
        sim = w.sim
        sim.default_link = Link(delay = (.01, .01))
        hr = random.Random(hseed)
        T.hs, T.bad, T.given = [], [], []
        spec = {c['num']: c for c in P['calls']}
        callee = w.peer('10.0.2.1', 'callee')
        if P['proxy']: pp = w.peer('10.0.3.1', 'prox'); pp.on_other = lambda p, stx: (stx.reply(S.response(stx.req, 200, None, 'pt')), True)[1]
        badcallee = None
        T.legs = {}
        def on_invite(leg, m):
            u = S.split_uri(m.uri)[1]
            c = spec.get(u)
            if c is None:
                # a hostile call that got through
                sim.after(.3, lambda: leg.answer(SDP('10.0.2.1')) if hr.random() < .7 else leg.refuse(480))
                return
            T.legs[u, 'b'] = leg
            leg.on_request = None
            if c['ring']: sim.after(c['tr'], lambda: leg.provisional(c['ring'], SDP('10.0.2.1', 6000) if c['ring'] == 183 else b''))
            def ans():
                if c['code'] != 200: leg.refuse(c['code']); return
                leg.answer(SDP('10.0.2.1', 6000))
            sim.after(c['ans'], ans)
            if c['who'] == 1: sim.after(c['ans'] + c['bye'], lambda: leg.state == 'est' and leg.bye())
            if c['re'] and c['rewho'] == 1: sim.after(c['ans'] + c['re'], lambda: leg.state == 'est' and leg.reinvite(SDP('10.0.2.1', 6100)))
            if c['info'] and c['rewho'] == 0: sim.after(c['ans'] + c['info'], lambda: leg.state == 'est' and leg.request('INFO', b'Signal=5\r\n', ctype = 'application/dtmf-relay'))
        callee.on_invite = on_invite
        w.radius.on_auth = lambda q: (0, .02, routing_lines(['10.0.2.66;credit-time=60' if (q.get('Called-Station-Id') or '').startswith('66') else '10.0.2.1;credit-time=70']))
        def start(c):
            p = T.callers[c['i']]
            leg = p.call(w.addr, c['num'], 'alice', SDP('10.0.1.%d' % c['i'], 5000))
            T.legs[c['num'], 'a'] = leg
            if c['cancel']: sim.after(c['cancel'], leg.cancel)
            def fin(l, m):
                if m is None or m.code != 200: return
                if c['who'] == 0: sim.after(c['bye'], lambda: l.state == 'est' and l.bye())
                if c['re'] and c['rewho'] == 0: sim.after(c['re'], lambda: l.state == 'est' and l.reinvite(SDP('10.0.1.%d' % c['i'], 5100)))
                if c['info'] and c['rewho'] == 1: sim.after(c['info'], lambda: l.state == 'est' and l.request('INFO', b'Signal=5\r\n', ctype = 'application/dtmf-relay'))
            leg.app['on_final'] = fin
        T.callers = [w.peer('10.0.1.%d' % i, 'caller%d' % i) for i in range(4)]
        for c in P['calls']: sim.after(c['t0'], start, c)
        # everything the application is given
        orig = w.tm.req_cb
        def req_cb(req, sip_t):
            T.given.append((sim.now, str(req)))
            return orig(req, sip_t)
        w.tm.req_cb = req_cb
        if hseed is not None: T.end = hostiles(w, P, T, hr, sim)
        w.run(100)
        if hseed is not None:
            for p in T.party: p.dead = True
            for p in T.party: [setattr(l, 'state', 'ended') for l in p.legs]
        w.run(760)
        T.sizes = w.sizes()
        T.log = events(w, P, T)
        T.internal = list(vsim.Internal.log)
        return T
    finally:
        w.close()

def events(w, P, T):
    """what the parties of the scripted calls saw: per leg, in order"""
    out = {}
    ids = {}
    for (u, s), leg in T.legs.items(): ids[leg.callid, s] = (u, s)
    for p, s in [(p, 'a') for p in T.callers] + [(w_callee(w, T), 'b')]:
        for e in p.log:
            t, d, m, src, dst, re = e
            if m is None: continue
            k = ids.get((m.callid, s))
            if k is None: continue
            out.setdefault(k, []).append((round(t - w.sim.t0, 3), d, m.method or m.code, m.reason, m.cseq[1], m.body.replace(b'', b'')))
    acct = {}
    for a in w.radius.accts:
        n = a.get('Called-Station-Id') or a.get('called-station-id')
        acct.setdefault(n, []).append((round(a.t - w.sim.t0, 2), a.get('h323-call-origin'), a.get('Acct-Session-Time'), a.get('h323-disconnect-cause'), a.get('Acct-Status-Type')))
    for n in [c['num'] for c in P['calls']]: out[n, 'acct'] = sorted(map(repr, acct.get(n, [])))
    for k, l in T.legs.items(): out[k + ('end',)] = (l.state, l.end_by, l.final, [x for x in l.errors])
    return out
def w_callee(w, T):
    for (u, s), l in T.legs.items():
        if s == 'b': return l.peer
    class E: log = ()
    return E

def base(hr, i, host, w):
    me = hr.choice(['INVITE'] * 8 + ['REGISTER', 'OPTIONS', 'BYE', 'ACK', 'CANCEL', 'UPDATE', 'INFO', 'SUBSCRIBE', 'NOTIFY', 'PING', 'MESSAGE', 'FOO'])
    num = '66%03d' % i if hr.random() < .3 else '55%03d' % i
    m = S.request(me, 'sip:%s@10.0.0.1' % num, [('via', 'SIP/2.0/UDP %s:5060;branch=z9hG4bK%x%s' % (host, hr.getrandbits(64), hr.choice(['', ';rport']))), ('max-forwards', '70'), ('from', '<sip:eve@%s>;tag=%x' % (host, hr.getrandbits(64))),
        ('to', '<sip:%s@10.0.0.1>%s' % (num, ';tag=%x' % hr.getrandbits(32) if hr.random() < (.7 if me in ('BYE', 'INFO', 'UPDATE') else .05) else '')), ('call-id', 'h%d-%x@x' % (i, hr.getrandbits(64))), ('cseq', '%d %s' % (hr.randrange(1, 99999), me)), ('contact', '<sip:eve@%s:5060>' % host)])
    if me in ('INVITE', 'UPDATE') and hr.random() < .9:
        m.add('content-type', 'application/sdp'); m.body = S.mksdp(host, 4000)
    if me == 'INVITE' and hr.random() < .5: m.add('expires', '60')
    if me == 'REGISTER': m.add('expires', '3600')
    return m

def hostiles(w, P, T, hr, sim):
    T.party = []
    hosts = [HOST % i for i in range(1, 4)]
    T.rx = {}
    for h in hosts:
        sim.bind((h, 5060), lambda d, s, h = h: T.rx.setdefault(h, []).append((sim.now, d)))
    n = hr.choice([5, 15, 15, 30, 60])
    def fire(i):
        host = hr.choice(hosts)
        x = hostile.H()
        k = hr.random()
        if k < .7:
            m = base(hr, i, host, w)
            x.data, x.cls, x.what = spoil(hr, m)
            x.msg = m
        else:
            # a broken copy of something that was just sent in a scripted call
            pk = [p for p in sim.wire[-60:] if (p.src[0].startswith('10.0.1.') or p.src[0].startswith('10.0.2.1')) and p.msg]
            m = hr.choice(pk).msg if pk else base(hr, i, host, w)
            x.data, x.cls, x.what = spoil(hr, m, 'bad')
            x.msg = m
            x.what.append('copy')
        x.tx = sim.now
        T.hs.append(x)
        sim.send((host, 5060), w.addr, x.data)
        if hr.random() < .3: sim.after(hr.choice([.1, .5, 33]), sim.send, (host, 5060), w.addr, x.data)
    for i in range(n): sim.after(hr.uniform(0, 60), fire, i)
    # participants of other calls whose messages are broken
    bc = Bad(sim, ('10.0.2.66', 5060), 'evil')
    bc.brng, bc.sent, bc.memo, bc.stubborn = hr, T.bad, {}, hr.random() < .6
    def on_invite(leg, m):
        sim.after(hr.uniform(.1, 1), lambda: leg.provisional(hr.choice([180, 183]), SDP('10.0.2.66') if hr.random() < .5 else b''))
        k = hr.random()
        if k < .7: sim.after(hr.uniform(1, 6), lambda: leg.answer(SDP('10.0.2.66')))
        else: sim.after(hr.uniform(1, 6), lambda: leg.refuse(hr.choice([302, 486, 401, 407, 603]), headers = [('contact', '<sip:x@y>')]))
        sim.after(hr.uniform(3, 40), lambda: leg.state == 'est' and leg.reinvite(SDP('10.0.2.66', 7000)))
        sim.after(hr.uniform(3, 40), lambda: leg.state == 'est' and leg.request('INFO', b'x', ctype = 'text/plain'))
        sim.after(hr.uniform(5, 60), lambda: leg.state == 'est' and leg.bye())
    bc.on_invite = on_invite
    T.party.append(bc)
    for j in range(hr.choice([0, 1, 2, 3])):
        p = Bad(sim, ('10.66.1.%d' % j, 5060), 'evil%d' % j)
        p.memo, p.stubborn = {}, hr.random() < .6
        p.brng, p.sent, p.p = hr, T.bad, hr.choice([0, .2, .5, 1])
        T.party.append(p)
        def go(p = p, j = j):
            late = hr.random() < .25
            leg = p.call(w.addr, '66%d' % j, 'mallory', None if late else SDP(p.addr[0]))
            if late: leg.app['ack_body'] = hr.choice([SDP(p.addr[0]), hostile.sdpodd(hr, SDP(p.addr[0])), b'xx', b'v=0\r\n', b'', b'\xc3\xa9' * 9])
            sim.after(hr.uniform(2, 30), lambda: leg.state == 'est' and leg.reinvite(SDP(p.addr[0], 7000)))
            sim.after(hr.uniform(2, 30), lambda: leg.state == 'est' and leg.request('INFO', b'x', ctype = 'text/plain'))
            if not late or hr.random() < .4: sim.after(hr.uniform(2, 50), lambda: leg.state == 'est' and leg.bye())
            if hr.random() < .3: sim.after(hr.uniform(0, 5), leg.cancel)
        sim.after(hr.uniform(0, 40), go)

def show(v):
    return repr(v)[:700]
def case(seed, R, tier):
    rng = random.Random(seed)
    P = plan(rng)
    A = run(seed, P, None)
    B = run(seed, P, rng.getrandbits(48))
    det = lambda: dict(plan = {k: str(v)[:1500] for k, v in P.items()}, hostile = [(round(x.tx - B.w.sim.t0, 3), repr(x)) for x in B.hs][:70], parties = [(round(t - B.w.sim.t0, 3), c, wh, d[:1500]) for t, c, wh, d in B.bad], dumped = [(round(t - B.w.sim.t0, 3), m, x[-600:]) for t, m, x in B.internal][:12])
    R.count('scripted calls', len(P['calls'])); R.count('hostile', len(B.hs)); R.count('broken messages of parties', len(B.bad))
    for k in A.log:
        if A.log[k] != B.log.get(k):
            a, b = A.log[k], B.log.get(k)
            d = next(((x, y) for x, y in zip(a, b or []) if x != y), (a[len(b or []):][:1], (b or [])[len(a):][:1])) if isinstance(a, list) else (a, b)
            R.fail('a call nobody attacked went differently: %s was %s, with hostile traffic %s' % (k, show(d[0]), show(d[1])), 'disturbed', det())
        R.count('compared', len(A.log[k]))
    R.check(set(A.log) == set(B.log), 'legs %s without, %s with hostile traffic' % (sorted(A.log), sorted(B.log)), 'disturbed', det)
    last = A.log.get(('7003', 'a', 'end'))
    R.check(last is not None and last[2] == 200, 'the last call did not work: %s' % (last,), 'harness', det)
    seen = {}
    for t, s in B.given: seen[S_callid(s)] = s
    for x in B.hs:
        cid = x.msg.callid
        R.count('class ' + x.cls)
        if x.cls == 'bad' and 'copy' not in x.what:
            R.check(cid not in seen, 'a request without readable essentials (%s) was handed to the application' % x.what, 'handed over', lambda: dict(det(), it = x.data))
        if x.cls == 'ok' and x.msg.is_req and x.msg.method != 'ACK' and 'copy' not in x.what:
            R.count('answerable')
            fin = []
            for h, l in B.rx.items():
                for t, d in l:
                    if cid.encode() in d and d.startswith(b'SIP/2.0 ') and not d.startswith(b'SIP/2.0 1'): fin.append(d[:11])
            R.check(fin, 'a %s with readable essentials (%s) was never answered' % (x.msg.method, x.what), 'no answer', lambda: dict(det(), it = x.data))
            if x.what in (['short'], ['clen']):
                R.count('short body' if x.what[0] == 'short' else 'unreadable length')
                R.check(all(f.startswith(b'SIP/2.0 400') for f in fin) and cid not in seen, 'a %s with a bad Content-Length (%s) was answered %s%s' % (x.msg.method, x.what[0], fin, ' and handed to the application' if cid in seen else ''), 'truncated', lambda: dict(det(), it = x.data))
    for n in ('ccmap', 'tclient', 'tserver', 'req_consumers'):
        R.check(B.sizes[n] == 0, '%d left in %s at the end' % (B.sizes[n], n), 'left ' + n, det)
    R.ev((tuple(sorted((k, str(v)) for k, v in P.items() if k not in ('calls',))), tuple(sorted(set(w.split('=')[0] for x in B.hs for w in x.what)))), True)
    R.sample('%d hostile datagrams (%s ...), %d broken messages from parties; scripted calls saw %d events either way' % (len(B.hs), B.hs[0].what if B.hs else '', len(B.bad), sum(len(v) for v in A.log.values())))

def S_callid(s):
    for l in s.split('\r\n'):
        if l.lower().startswith('call-id:') or l.lower().startswith('i:'): return l.split(':', 1)[1].strip()
