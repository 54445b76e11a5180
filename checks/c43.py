"""C43: calls between browsers and plain phones through the relay: every description and every relay command recomputed from what the other side sent
Whole calls on the simulated network: browsers on a simulated websocket transport (the real transaction manager, dialogs, call control and relay session above it), plain phones, and a scripted relay that speaks the DTLS and ICE sub-commands and hands out distinct fingerprints, credentials, candidates and ports for every command. Each description seen by a party is matched by its relay port with the command and so with the description it came from; the attributes, the transport, the sub-commands and their arguments are recomputed independently. Descriptions with missing or unusable parameters and every kind of relay failure are mixed in; calls concerned must fail cleanly. Not reached: real DTLS/ICE negotiation, which is the relay's."""
import random, urllib.parse
import vsim, wssim, siplite as S
from vsim import Link
from b2bworld import World, B2BRoute
from siplite import response
from rtppworld import Relay, Rtp_proxy_client
from sippy.B2B.Route import SRC_PROXY, DST_WSS_UA
RULE = 'seeded sets of 1-3 concurrent calls browser to phone, phone to browser (through the proxy) or phone to phone with browser-like descriptions x 1-2 streams, attributes at either level, candidates of every kind x early descriptions x re-INVITEs by either side x missing/broken parameters x relay results complete, shortened, failed at any position, too many, missing x hang-up by either side. Distinct by kinds of calls and failures.'
N = {'quick': 5000, 'thorough': 50000}
NEED = {'calls': 2500, 'to browser': 1500, 'to phone': 1500, 'plain': 1000, 'two streams': 500, 'updates': 600, 'bad offer': 100, 'bad answer': 100, 'relay failed': 150, 'shortened': 500, 'candidates left out': 300, 'answered': 1500, 'early': 150}
DTLS_TR = ('UDP/TLS/RTP/SAVP', 'UDP/TLS/RTP/SAVPF')
# what only means something to a browser, by name
SEC = ('setup', 'fingerprint')
ICE = ('ice-ufrag', 'ice-pwd', 'candidate', 'ice-options', 'end-of-candidates', 'rtcp-mux', 'ice-lite')
WEB = ('extmap', 'extmap-allow-mixed', 'msid', 'msid-semantic', 'mid', 'group', 'rtcp-fb')

class C: pass
class D: pass

class Gen:
    """descriptions of one party"""
    port = 10000
    def __init__(self, rng, host, web, n):
        self.rng, self.host, self.web, self.n = rng, host, web, n
        self.sid, self.ver = rng.randrange(1, 1 << 40), 0
        self.tr = rng.choice(DTLS_TR) if web else 'RTP/AVP'
        self.lvl = {k: rng.random() < .3 for k in ('fingerprint', 'setup', 'ice-options')}
        self.both = rng.random() < .08
    def cand(self, i):
        rng = self.rng
        k = rng.random()
        a = '%d.%d.%d.%d' % (rng.choice([10, 172, 203]), rng.randrange(256), rng.randrange(256), rng.randrange(1, 255))
        if k < .15: a = '192.0.0.%d' % rng.randrange(256)
        elif k < .3: a = '192.168.%d.%d' % (rng.randrange(256), rng.randrange(256))
        elif k < .4: a = '2001:db8::%x' % rng.randrange(65536)
        elif k < .5: a = '%x-%x.local' % (rng.getrandbits(32), rng.getrandbits(16))
        t = rng.choice(['udp', 'udp', 'udp', 'UDP', 'tcp', 'TCP'])
        rest = rng.choice(['typ host', 'typ srflx raddr 10.0.0.9 rport 9999', 'typ relay raddr 0.0.0.0 rport 0 generation 0 network-cost 999', 'typ host tcptype active', 'typ host generation 0 ufrag x'])
        v = '%d 1 %s %d %s %d %s' % (i + 1, t, rng.randrange(1 << 31), a, rng.randrange(1024, 65536), rest)
        return v, t.lower() == 'udp' and not (a.startswith('192.') and not a.startswith('192.168.'))
    def make(self, broken = None):
        rng = self.rng
        self.ver += 1
        d = D()
        d.gen, d.broken, d.secs, d.cmds = self, broken, [], []
        L = ['v=0', 'o=- %d %d IN IP4 %s' % (self.sid, self.ver, self.host), 's=-', 't=0 0']
        top = []
        fp, st = 'sha-256 ' + ':'.join('%02X' % rng.randrange(256) for _ in range(4)), rng.choice(['actpass', 'active', 'passive'])
        if self.web:
            if rng.random() < .6: top.append('group:BUNDLE 0')
            if rng.random() < .4: top.append('msid-semantic: WMS x')
            if rng.random() < .2: top.append('extmap-allow-mixed')
            if self.both: top.append('fingerprint:sha-1 %02X' % rng.randrange(256))      # (the one of the stream counts)
            elif self.lvl['fingerprint']: top.append('fingerprint:' + fp)
            if self.lvl['setup']: top.append('setup:' + st)
            if self.lvl['ice-options']: top.append('ice-options:trickle')
        if rng.random() < .3: top.append('x-top:%d' % rng.randrange(1 << 30))
        rng.shuffle(top)
        d.top = top
        L += ['a=' + x for x in top]
        bad = rng.randrange(self.n)
        for i in range(self.n):
            s = D()
            Gen.port += 2
            s.d, s.i, s.port = d, i, Gen.port
            s.addr = '10.%d.%d.%d' % (rng.randrange(20, 99), rng.randrange(256), rng.randrange(1, 255))
            pts = rng.sample([0, 8, 9, 18, 101, 111], rng.randint(1, 4))
            s.tr, s.pts = self.tr, [str(p) for p in pts]
            s.fp, s.setup, s.ufrag, s.pwd, s.cands, s.ssrc = fp, st, '%x' % rng.getrandbits(24), '%x+/' % rng.getrandbits(90), [], None
            A = []
            for p in pts:
                if p > 96: A.append('rtpmap:%d %s' % (p, 'telephone-event/8000' if p == 101 else 'opus/48000/2'))
            if 101 in pts and rng.random() < .5: A.append('fmtp:101 0-16')
            if rng.random() < .3: A.append('ptime:20')
            A.append(rng.choice(['sendrecv', 'sendrecv', 'sendonly', 'inactive', 'recvonly']))
            if rng.random() < .2: A.append('x-%d:%s' % (i, rng.choice(['', 'a b', '1:2'])) + '%d' % rng.randrange(1 << 20))
            if self.web:
                if not self.lvl['fingerprint'] or self.both: s.fp = fp; A.append('fingerprint:' + s.fp)
                if not self.lvl['setup']: A.append('setup:' + s.setup)
                A += ['ice-ufrag:' + s.ufrag, 'ice-pwd:' + s.pwd]
                if not self.lvl['ice-options'] and rng.random() < .5: A.append('ice-options:trickle')
                for j in range(rng.choice([0, 1, 2, 5])):
                    v, ok = self.cand(j)
                    A.append('candidate:' + v)
                    s.cands.append((v, ok))
                if rng.random() < .3: A.append('end-of-candidates')
                if rng.random() < .8: A.append('rtcp-mux')
                if rng.random() < .5: A.append('rtcp:9 IN IP4 0.0.0.0')
                if rng.random() < .5: A.append('extmap:1 urn:ietf:params:rtp-hdrext:ssrc-audio-level')
                if rng.random() < .5: A.append('mid:%d' % i)
                if rng.random() < .4: A.append('msid:x y')
                if rng.random() < .4: A.append('rtcp-fb:%d transport-cc' % pts[0])
            elif rng.random() < .4: A.append('rtcp:%d IN IP4 %s' % (s.port + 1, s.addr))
            if rng.random() < (.6 if self.web else .1):
                s.ssrc = str(rng.randrange(1, 1 << 32))
                A.append('ssrc:%s cname:%x' % (s.ssrc, rng.getrandbits(40)))
                s.late = ['ssrc:%s %s' % (s.ssrc, x) for x in rng.sample(['msid:x y', 'MSID:a b', 'mslabel:q', 'label:z'], rng.randint(0, 3))]
                A += s.late
            # (the order of lines with one name is kept)
            names = {}
            for a in A: names.setdefault(a.split(':')[0], []).append(a)
            order = [a.split(':')[0] for a in A]
            rng.shuffle(order)
            A = [names[x].pop(0) for x in order]
            if broken is not None and i == bad and self.web:
                drop = {'no fingerprint': 'fingerprint', 'no setup': 'setup', 'no ufrag': 'ice-ufrag', 'no pwd': 'ice-pwd'}.get(broken)
                if drop:
                    A = [a for a in A if a.split(':')[0] != drop]
                    L = [l for l in L if not l.startswith('a=' + drop)]
                    d.top = [x for x in d.top if x.split(':')[0] != drop]
                elif broken == 'setup':
                    A = [a for a in A if not a.startswith('setup')] + ['setup:' + rng.choice(['holdconn', 'foo', '', 'ACTIVE PASSIVE'])]
                    if rng.random() < .5: A = A[-1:] + A[:-1]
                elif broken == 'candidate':
                    A.insert(rng.randrange(len(A) + 1), rng.choice(['candidate', 'candidate:', 'candidate:1', 'candidate:1 1 udp', 'candidate:1 1 udp 77']))
                elif broken == 'no value':
                    nm = rng.choice(['fingerprint', 'setup', 'ice-ufrag', 'ice-pwd'])
                    A = [a for a in A if a.split(':')[0] != nm]
                    L = [l for l in L if not l.startswith('a=' + nm)]
                    d.top = [x for x in d.top if x.split(':')[0] != nm]
                    A.append(nm)
            s.attrs = A
            d.secs.append(s)
            L.append('m=%s %d %s %s' % ('audio' if i == 0 else 'video', s.port, s.tr, ' '.join(s.pts)))
            L.append('c=IN IP4 ' + s.addr)
            L += ['a=' + a for a in A]
        d.text = '\r\n'.join(L) + '\r\n'
        d.body = d.text.encode()
        return d

def parse(text):
    top, secs = [], []
    for l in text.split('\r\n'):
        if not l: continue
        if l[0] == 'm': secs.append([l[2:].split(), None, []])
        elif l[0] == 'c' and secs: secs[-1][1] = l[2:].split()
        elif l[0] == 'c': top.append(l)
        elif l[0] == 'a': (secs[-1][2] if secs else top).append(l[2:])
    sc = next((l[2:].split() for l in top if l.startswith('c=')), None)
    for s in secs:
        if s[1] is None: s[1] = sc
    return [l for l in top if not l.startswith('c=')], secs

def name(a): return a.split(':')[0]

def case(seed, R, tier):
    rng = random.Random(seed)
    Gen.port = 10000 + rng.randrange(9000) * 2
    w = World(seed, auth = False, acct = False, route = '10.0.2.1', proxy = ('10.0.3.1', 5060), digest = False)
    try: body(rng, R, w)
    finally: w.close()

def body(rng, R, w):
    sim = w.sim
    ws = wssim.SimWss(w)
    w.gc['_static_routes'][SRC_PROXY] = B2BRoute(DST_WSS_UA)
    relay = Relay(sim)
    relay.delay = rng.choice([(.0005, .005), (.001, .02), (.05, .3)])
    w.gc['_rtp_proxy_clients'] = [Rtp_proxy_client(w.gc, spath = 'udp:10.9.0.1:22222')]
    w.run(2)
    B, P, A = w.peer('10.0.2.1'), w.peer('10.0.3.1'), w.peer('10.0.1.1')
    calls, bynum, bycid, streams, ports, ends = [], {}, {}, {}, {}, {}
    noise = []
    for i in range(rng.choice([1, 1, 2, 3])):
        c = C()
        c.kind = rng.choice(['w2s', 's2w', 'w2s', 's2w', 'plain'])
        c.i, c.num = i, 'n%d' % i
        c.n = rng.choice([1, 1, 1, 2])
        c.wc = '%08x-%04x.invalid' % (rng.getrandbits(32), i)
        waddr = ('10.7.0.%d' % (i + 1), 40000 + i)
        if c.kind != 'plain':
            c.W = w.peer(waddr[0], port = waddr[1])
            ws.connect(waddr, c.wc)
        web = [c.kind == 'w2s', c.kind == 's2w']
        if c.kind == 'plain': web = [rng.random() < .5] * 2
        c.gen = [Gen(rng, '10.5.0.%d' % (2 * i + k), web[k], c.n) for k in (0, 1)]
        c.web = [c.kind == 'w2s', c.kind == 's2w']      # the sides that are browsers to the gateway
        k = rng.random()
        kinds = ['no fingerprint', 'no setup', 'no ufrag', 'no pwd', 'setup', 'candidate', 'no value']
        c.badside, c.badat = None, 0
        if c.kind != 'plain' and k < .2:
            c.badside = 0 if c.kind == 'w2s' else 1
            c.badat, c.bad = rng.choice([1, 1, 1, 2]), rng.choice(kinds)
        c.fail_at, c.nu, c.failed = 0, 0, None
        if .2 < k < .35: c.fail_at, c.fail_kind = rng.choice([1, 1, 2, 2, 3, 4]), rng.choice(['minus', 'minus', 'many', 'missing', 'few', 'E', 'silent'])
        c.early = rng.random() < .3
        c.made = [0, 0]
        c.seen, c.legs, c.finals, c.re, c.broken = [], [None, None], [], [], []
        c.t0, c.at, c.talk, c.by = rng.uniform(0, 3), rng.uniform(.3, 2), rng.uniform(8, 20), rng.randrange(2)
        c.plan = [(rng.uniform(.5, 7), rng.randrange(2)) for _ in range(rng.choice([0, 0, 1, 2]))]
        if c.kind == 's2w': bynum['u%d' % i] = c
        bynum[c.num] = c
        calls.append(c)
        R.count('calls')
        if c.n == 2: R.count('two streams')
        if c.kind == 'plain': R.count('plain')
    def make(c, side):
        c.made[side] += 1
        br = c.bad if c.badside == side and c.badat == c.made[side] else None
        d = c.gen[side].make(br)
        d.c, d.side = c, side
        if br: c.broken.append((sim.now, d)); R.count('bad offer' if side == 0 else 'bad answer')
        for s in d.secs: streams[s.port] = s
        return d
    prob = lambda c, msg, key, **kw: R.fail(msg, key, dict(kind = c.kind, bad = (c.badside, c.badat, getattr(c, 'bad', None)), fail = (c.fail_at, getattr(c, 'fail_kind', None), c.failed), finals = c.finals, **kw))
    def want(s):
        """the sub-commands a stream calls for"""
        c, side = s.d.c, s.d.side
        out = []
        if c.web[1 - side]: out += ['M4:1 S', 'M5:1 S']
        if c.web[side]:
            out.append('M4:1 %s %s' % ('P' if s.setup == 'passive' else 'A', s.fp) + (' ' + s.ssrc if s.ssrc else ''))
            out.append('M5:1 A %s %s' % (s.ufrag, s.pwd))
            out += ['M5:1 C ' + v for v, ok in s.cands if ok]
            if any(not ok for v, ok in s.cands): R.count('candidates left out')
        return out
    def on_cmd(r, cookie, cmd):
        parts = cmd.split(' && ')
        h = parts[0].split()
        d = rng.uniform(*r.delay)
        if cmd[0] == 'D':
            ends.setdefault(h[1], []).append(sim.now)
            return d, '0'
        if cmd[0] != 'U': return d, r.default(cmd)
        s = streams.get(int(h[3]))
        cid = h[1].rsplit('-', 1)[0]
        c = bycid.get(cid)
        if s is None or c is None or s.d.c is not c:
            R.fail('the relay was told about a stream nobody offered: %s' % cmd, 'command', dict(cmd = cmd))
            return d, '0'
        ends.setdefault(h[1], [])
        R.check(h[2] == s.addr and h[1] == '%s-%d' % (cid, s.i), 'the relay was told %s for a stream at %s:%d (stream %d)' % (parts[0], s.addr, s.port, s.i), 'command', lambda: dict(cmd = cmd, text = s.d.text))
        exp = want(s)
        if s.d.broken is None:
            R.check(sorted(exp) == sorted(parts[1:]), 'a stream calls for %s, the relay was told %s' % ([x for x in exp if x not in parts[1:]], [x for x in parts[1:] if x not in exp]), 'sub-commands', lambda: dict(kind = c.kind, side = s.d.side, cmd = cmd, text = s.d.text))
        else:
            R.fail('a description with a fault (%s) was handed to the relay' % s.d.broken, 'fault passed', dict(cmd = cmd, text = s.d.text))
        # where the other side is to be reached from
        o = h[0][1:]
        far = ('10.0.2.1' if c.kind != 's2w' else '10.0.0.1') if s.d.side == 0 else {'w2s': '10.7.0.%d' % (c.i + 1), 's2w': '10.0.3.1', 'plain': '10.0.1.1'}[c.kind]
        R.check('R' + far in o, 'the relay was told to face %s, the other side is at %s' % (o, far), 'facing', lambda: dict(cmd = cmd))
        res, g = [], D()
        g.s, g.mode, g.fp, g.ufrag, g.pwd, g.cands = s, rng.choice(['actpass', 'active', 'passive']), 'sha-256 %02X:%02X' % (rng.randrange(256), rng.randrange(256)), '%x' % rng.getrandbits(30), '%x%%' % rng.getrandbits(60), []
        for j in range(rng.choice([1, 1, 2, 4])): g.cands.append('%d 1 UDP %d 10.9.0.100 %d typ host' % (j, rng.randrange(1 << 31), rng.randrange(1024, 65535)))
        for x in parts[1:]:
            if x == 'M4:1 S': res.append('%s %s' % (g.mode, g.fp))
            elif x == 'M5:1 S': res.append('%s %s %s' % (g.ufrag, g.pwd, ' '.join('h:' + urllib.parse.quote(v, safe = rng.choice(['', '/', ':'])) for v in g.cands)))
            else: res.append('0')
        r.port += 2
        ports[r.port] = g
        out = '%d %s' % (r.port, r.media)
        c.nu += 1
        if c.nu == c.fail_at:
            k = c.fail_kind
            if not exp and k in ('minus', 'many', 'missing', 'few'): k = 'E'
            if k == 'silent': c.failed = (sim.now, k, s); R.count('relay failed'); return None
            if k == 'E': out, res = 'E%d' % rng.randrange(1, 99), []
            elif k == 'minus': j = rng.randrange(len(res)); res = res[:j] + ['-1']
            elif k == 'many': res += ['0']
            elif k == 'missing':
                j = next((j for j, x in enumerate(parts[1:]) if x.endswith(' S')), None)
                if j is None: res[rng.randrange(len(res))] = rng.choice(['1', 'E5', 'x'])
                else: res[j] = rng.choice(['0', '', 'x'])
            else:
                if any(x.endswith(' S') for x in parts[1:]): res = res[:rng.randrange(sum(x.endswith(' S') for x in parts[1:]))]
                else: res[-1] = 'x'
            c.failed = (sim.now, k, s)
            R.count('relay failed')
        elif res and res[-1] == '0' and rng.random() < .4:
            R.count('shortened')
            while res and res[-1] == '0' and rng.random() < .8: res.pop()
        return d, out + ''.join(rng.choice([' && ', ' && ', '&&']) + x for x in res)
    relay.on_cmd = on_cmd
    def judge(c, to, body, what):
        """a description that reached the party 'to'"""
        text = body.decode()
        top, secs = parse(text)
        det = lambda: dict(kind = c.kind, to = to, what = what, got = text, src = gs[0].s.d.text if gs and gs[0] else None)
        gs = [ports.get(int(s[0][1])) for s in secs]
        if not all(gs) or not gs:
            prob(c, 'the %s got a description with a port that is not the relay\'s' % what, 'bypassed', got = text); return None
        d = gs[0].s.d
        R.check(d.c is c and d.side == 1 - to and [g.s.i for g in gs] == list(range(d.gen.n)) and all(g.s.d is d for g in gs), 'the %s describes other streams than those of one description of the other party' % what, 'mixed up', det)
        R.check(not d.broken, 'a description with a fault (%s) got through' % d.broken, 'fault passed', det)
        conv = c.web[0] or c.web[1]
        gone = SEC + ICE + WEB if conv else ()
        for (m, conn, attrs), g in zip(secs, gs):
            s = g.s
            R.check(conn[2] == relay.media and m[3:] == s.pts, 'a stream is at %s with formats %s, the relay is at %s and the formats were %s' % (conn, m[3:], relay.media, s.pts), 'stream', det)
            exp = [a for a in s.attrs if name(a) not in gone]
            if conv:
                exp = [a for a in exp if name(a) != 'rtcp']
                if c.web[d.side]: exp = [a for a in exp if not (name(a) == 'ssrc' and a.split(None, 1)[1].lower().startswith('msid:'))]
            else: attrs, exp = [a for a in attrs if a != 'nortpproxy:yes'], [a if name(a) != 'rtcp' else 'rtcp:%s IN IP4 %s' % (int(m[1]) + 1, relay.media) for a in exp]
            if c.web[to]:
                exp += ['setup:' + g.mode, 'fingerprint:' + g.fp, 'rtcp-mux', 'ice-lite', 'ice-ufrag:' + g.ufrag, 'ice-pwd:' + g.pwd] + ['candidate:' + v for v in g.cands]
                R.check(m[2] in DTLS_TR, 'a browser was offered %s' % m[2], 'transport', det)
                R.count('to browser')
            elif conv:
                R.check(m[2] == 'RTP/AVP', 'a plain phone was offered %s' % m[2], 'transport', det)
                R.count('to phone')
            else: R.check(m[2] == s.tr, 'the transport %s became %s' % (s.tr, m[2]), 'transport', det)
            R.check(sorted(exp) == sorted(attrs), 'attributes of a stream: missing %s, too many %s' % ([x for x in exp if x not in attrs], [x for x in attrs if x not in exp] or attrs), 'attributes', det)
            R.check([a for a in attrs if a in exp and name(a) in ('rtpmap', 'fmtp', 'candidate')] == [a for a in exp if name(a) in ('rtpmap', 'fmtp', 'candidate')], 'the order of attributes changed', 'order', det)
        R.check(sorted(top) == sorted(x for x in d.top if name(x) not in gone), 'session attributes %s became %s' % (d.top, top), 'session', det)
        return d
    def on_request_for(c, side):
        def f(leg, stx):
            if stx.req.method == 'INVITE' and leg.state == 'est':
                judge(c, side, stx.req.body, 're-INVITE')
                d = make(c, side)
                sim.after(rng.uniform(.01, .3), lambda: stx.reply(response(stx.req, 200, None, leg.ltag, [('contact', '<%s>' % leg.contact_uri), ('content-type', 'application/sdp')], d.body)))
                return True
        return f
    def est(c, leg, side):
        for t, s in c.plan:
            if s != side: continue
            def go():
                if leg.state != 'est' or getattr(c, 'busy', None): return
                d = make(c, side)
                r = [sim.now, side, None, d]
                c.busy = True
                c.re.append(r)
                R.count('updates')
                def cb(l, resp, tx):
                    c.busy = None
                    r[2] = resp.code if resp is not None else 408
                    if resp is not None and resp.code == 200: judge(c, side, resp.body, 'answer to a re-INVITE')
                leg.reinvite(d.body, cb = cb)
            sim.after(t, go)
        if c.by == side: sim.after(c.talk, lambda: leg.state == 'est' and leg.bye())
    def on_invite(leg, m):
        u = S.split_uri(m.uri)[1]
        c = bynum.get(u)
        if c is None: R.fail('an INVITE for %s nobody sent' % m.uri, 'stray'); return
        if c.kind == 's2w': leg.contact_uri = 'sip:%s@%s;transport=ws' % (u, c.wc)
        c.legs[1] = leg
        leg.on_request = on_request_for(c, 1)
        d0 = judge(c, 1, m.body, 'offer')
        d = make(c, 1)
        if c.early:
            R.count('early')
            sim.after(c.at * .6, lambda: leg.provisional(183, d.body))
        def ans():
            if leg.state in ('ended', 'failed'): return
            leg.answer(d.body)
            est(c, leg, 1)
        sim.after(c.at, ans)
    B.on_invite = on_invite
    for c in calls:
        if c.kind == 's2w': c.W.on_invite = on_invite
        def go(c = c):
            p, dst, kw = {'w2s': (c.kind != 'plain' and c.W, ws.laddr, dict(contact = 'sip:%s@%s;transport=ws' % (c.num, c.wc))), 's2w': (P, w.addr, dict(uri = 'sip:u%d@%s;transport=ws' % (c.i, c.wc))), 'plain': (A, w.addr, {})}[c.kind]
            d = make(c, 0)
            leg = p.call(dst, c.num, 'al', d.body, start = False, **kw)
            bycid[leg.callid] = c
            c.legs[0] = leg
            leg.on_request = on_request_for(c, 0)
            def fin(l, m):
                c.finals.append(m.code if m is not None else 408)
                if m is not None and m.code == 200:
                    R.count('answered')
                    judge(c, 0, m.body, 'answer')
                    est(c, l, 0)
            leg.app['on_final'] = fin
            leg.app['on_prov'] = None
            leg.itx.start()
        sim.after(c.t0, go)
    w.run(60)
    # (a relay that keeps silent is taken for dead, for every call)
    off = any(c.failed and c.failed[1] == 'silent' for c in calls)
    for c in calls:
        bad0 = c.badside == 0 and c.badat == 1
        bad1 = c.badside == 1 and c.badat == 1
        early_fail = c.failed is not None and c.failed[2].d.gen.ver and c.failed[2].d is not None
        a, b = c.legs
        det = lambda: dict(kind = c.kind, hist = [[(round(h[0] - sim.t0, 2),) + tuple(str(x)[:60] for x in h[1:]) for h in l.hist] for l in c.legs if l], finals = c.finals, bad = (c.badside, c.badat, getattr(c, 'bad', None)), failed = str(c.failed), text = c.broken and c.broken[0][1].text, dumped = [x[-700:] for t, m, x in vsim.Internal.log][:3])
        R.check(len(c.finals) == 1, 'the caller got the final answers %s' % c.finals, 'finals', det)
        if not c.finals: continue
        if bad0:
            R.check(c.finals[0] >= 400, 'an offer with a fault (%s) was answered %s' % (c.bad, c.finals), 'fault answered', det)
            R.check(b is None, 'an offer with a fault (%s) made the other party ring' % c.bad, 'fault passed', det)
        elif bad1 and b is not None:
            R.check(c.finals[0] >= 400, 'an answer with a fault (%s) connected the call' % c.bad, 'fault answered', det)
        elif c.failed is None and c.badside is None and not off:
            R.check(c.finals[0] == 200, 'nothing went wrong, the caller got %s' % c.finals, 'failed', det)
        for l in c.legs:
            if l is not None: R.check(l.state in ('ended', 'failed'), 'a party is left in %s' % l.state, 'left up', det)
        if c.failed is None and c.badside is None and not off:
            for r in c.re: R.check(r[2] == 200 or (r[2] in (491, 481, 408, 487, 500) and True), 'a re-INVITE was answered %s' % r[2], 'update', det)
        for r in c.re:
            if r[3].broken: R.check(r[2] is None or r[2] >= 400, 'an update with a fault (%s) was answered %s' % (r[3].broken, r[2]), 'fault answered', det)
    w.run(70)
    z = w.sizes()
    for n in ('ccmap', 'tclient', 'tserver', 'req_consumers'): R.check(z[n] == 0, '%d left in %s' % (z[n], n), 'left ' + n, lambda: dict(sizes = z, them = [(c.kind, c.finals, c.failed, c.bad if c.badside is not None else None) for c in calls]))
    for cid, l in ends.items():
        R.check(len(l) == 1, 'the relay was told %d times that %s is over' % (len(l), cid), 'deleted', lambda: dict(cmds = [(round(x[0] - sim.t0, 3), x[2]) for x in relay.cmds if cid in x[2]]))
    R.check(not ws.lost, 'a browser that is there was not found: %s' % (ws.lost[:1],), 'lost')
    R.ev(tuple((c.kind, c.n, c.gen[0].web, c.badside, c.badat, getattr(c, 'bad', None), c.failed and c.failed[1], len(c.re), tuple(sorted(c.gen[0].lvl.items())), c.early, c.by, c.finals[:1] and c.finals[0]) for c in calls), True)
    R.sample(', '.join('%s: %d streams -> %s' % (c.kind, c.n, c.finals) for c in calls))
