"""Whole-call scenarios: seeded plans of callers, callees, the RADIUS server, operators and the network, run against
the real B2BUA, and the per-call record of what was on the wire at the B2BUA, on which the monitors judge."""
import random, signal
import vsim, siplite as S
from vsim import Link, clock, Internal
from b2bworld import World, routing_lines, B2BSimpleAPI
EPS = 1e-3

class O:
    """plain record"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def __repr__(self): return repr(self.__dict__)

DEFAULT = dict(calls = (1, 4), routes = (1, 3), p_cancel = .2, p_loss = .25, p_noack = .04, p_vanish = .04, p_refuse_auth = .08, p_limits = .35, p_credit = .25,
               p_hs = .15, p_zero = .06, p_hup = .06, p_op = .1, p_reinv = .2, p_info = .15, p_late = .08, p_tie = .1, p_bodychg = .5, p_rr = .25, p_redirect = .04,
               p_crosscancel = .15, p_igncancel = .06, p_deadhost = .06, p_silent = .08, acct = True, start_acct = None, alive = None, ka = (0, 0), static = .15, hide = .2,
               p_nofinal = .1, p_glare = .15, p_admin_restart = 0., p_early_bye = .03, maxcredit = .1, p_hop = .05, p_wallstep = .1, precise = None, vanish_bye = False, p_fof = .1, p_radcredit = .1)

def uni(rng, a, b): return rng.uniform(a, b)

def tpick(rng, *a):
    return rng.choice(a)

def gen_rr(rng):
    """proxies on the way to a peer; {h} is the peer's address, {p} one of its own it uses only for proxies"""
    return rng.choice([['<sip:{p};lr>'], ['<sip:{p}:5060;lr>', '<sip:{h};lr;x=1>'], ['<sip:{p}>'], ['<sip:{h}>', '<sip:{p};lr>'], ['<sip:a%40b@{p}:5060;lr=on;y>', '<sip:{h}:5080;lr>', '<sip:{p};lr>'], ['<sip:{h};lr>', '<sip:{p}>']])
def phost(h): return h.replace('10.0.', '10.1.', 1)

def gen_beh(rng, P):
    b = O(steps = [], fin = None, canc = 'normal', dead = False, sdpn = 0, rr = [], code2 = None)
    if rng.random() < P['p_deadhost']:
        b.dead = True
        return b
    t = 0.0
    if rng.random() < P['p_silent']:
        pass        # nothing before the final
    else:
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            t += tpick(rng, uni(rng, 0.001, 0.4), uni(rng, 0.1, 3), uni(rng, 0.5, 12))
            b.steps.append((t, rng.choice([100, 100, 180, 180, 183, 183, 181, 182, 199]), rng.random() < .35))
    if rng.random() < P['p_nofinal']: b.fin = None
    else:
        t += tpick(rng, uni(rng, 0.001, 0.5), uni(rng, 0.2, 5), uni(rng, 1, 40))
        if rng.random() < .55: b.fin = ('ok', t, rng.choice([200, 200, 200, 200, 202]))
        else:
            c = rng.choice([404, 480, 486, 503, 600, 603, 500, 408, 487, 403, 401, 407, 488])
            if rng.random() < P['p_redirect']: c = rng.choice([300, 301, 302])
            b.fin = ('fail', t, c)
    x = rng.random()
    if x < P['p_crosscancel']: b.canc = 'cross'
    elif x < P['p_crosscancel'] + P['p_igncancel']: b.canc = 'ignore'
    if rng.random() < P['p_rr']:
        b.rr = gen_rr(rng)
    return b

def gen_call(rng, P, i):
    c = O(i = i)
    c.num = '7%05d%d' % (rng.randrange(100000), i)
    c.host = '10.0.1.%d' % (i + 1)
    c.frm = 'u%d' % rng.randrange(1000, 9999)
    c.t0 = 0.0 if i == 0 else uni(rng, 0, 20) if rng.random() < .8 else 0.0
    c.sdp = S.mksdp(c.host, 20000 + 2 * i, 1, 100 + i, rng.choice([(0, 8, 101), (8,), (18, 0), (0,)]))
    c.late = rng.random() < P['p_late']
    c.rr = [x.format(h = c.host, p = phost(c.host)) for x in gen_rr(rng)] if rng.random() < P['p_rr'] else []
    c.auth = ('ok', rng.choice([0, 0.01]), tpick(rng, 0.0, uni(rng, 0.001, 0.3), uni(rng, 0.1, 8)))
    if rng.random() < P['p_refuse_auth']:
        c.auth = rng.choice([('reject', 0, uni(rng, 0.001, 1)), ('error', 0, uni(rng, 0.001, 1)), ('never', 0, 0), ('noroute', 0, 0.1)])
    c.routes = []
    for j in range(rng.randrange(P['routes'][0], P['routes'][1] + 1)):
        r = O(j = j, cld = 'x%dr%d' % (i, j), host = '10.0.2.%d' % rng.randrange(1, 5), port = 5060, beh = gen_beh(rng, P), credit = None, expires = None, np = None, nr = None, hs = None, fof = False)
        if rng.random() < P['p_limits']:
            if rng.random() < .6: r.expires = rng.choice([1, 2, 5, 10, 30, 60])
            if rng.random() < .4: r.np = rng.choice([1, 2, 4, 8, 20, 60])
            if rng.random() < .4: r.nr = rng.choice([1, 2, 3, 5, 31, 32, 40])
        if rng.random() < P['p_credit']: r.credit = rng.choice([1, 3, 10, 30, 90])
        if rng.random() < P['p_zero']: r.__setattr__(rng.choice(['credit', 'expires']), 0)
        if rng.random() < P['p_hs']: r.hs = rng.sample([404, 480, 486, 503, 600, 603, 408, 401], rng.choice([1, 2, 4]))
        if rng.random() < P['p_fof']: r.fof = True
        c.routes.append(r)
    c.hang = (rng.choice(['caller', 'callee', 'caller', 'callee', 'both' if rng.random() < P['p_glare'] * 3 else 'caller']), tpick(rng, uni(rng, 0.01, 1), uni(rng, 1, 40), uni(rng, 10, 130)))
    if rng.random() < P['p_op']: c.hang = ('d', c.hang[1])
    elif P['p_credit'] and rng.random() < .3: c.hang = ('caller', 170.0)
    c.cancel = None
    if rng.random() < P['p_cancel']: c.cancel = tpick(rng, uni(rng, 0.001, 0.3), uni(rng, 0.05, 5), uni(rng, 1, 40))
    elif rng.random() < P['p_early_bye']: c.cancel = -uni(rng, 0.5, 5)
    c.noack = rng.random() < P['p_noack']
    c.vanish = uni(rng, 0.05, 30) if rng.random() < P['p_vanish'] else None
    c.mids = []
    if rng.random() < P['p_reinv']:
        for _ in range(rng.choice([1, 1, 2, 3])):
            c.mids.append((uni(rng, 0.05, 30), rng.choice(['A', 'B']), rng.choice(['re', 're', 'same', 'hold', 'ref']) if P['p_bodychg'] else 'same', uni(rng, 0, 1.5) if rng.random() < .5 else 0))
    if rng.random() < P['p_info']:
        for _ in range(rng.choice([1, 2])): c.mids.append((uni(rng, 0.05, 30), rng.choice(['A', 'B']), 'info', 0))
    if P.get('p_long'):
        # limits that outlive the calls
        for r in c.routes:
            if rng.random() < P['p_long']: r.credit = rng.choice([5000, 100000])
            if rng.random() < P['p_long']: r.expires = 5000
            if rng.random() < P['p_long'] / 2: r.np = 4000
    if P.get('p_midhang') and rng.random() < P['p_midhang']:
        # the call is ended while an update by either side waits for its answer
        if c.hang[1] < 1: c.hang = (c.hang[0], c.hang[1] + 1)
        c.mids.append((c.hang[1] - uni(rng, .05, .9), rng.choice('AB'), rng.choice(['re', 're', 'hold', 'ref']), 0))
    c.mids.sort()
    c.maxf = rng.choice([70, 10, 3, 2, 1, 0]) if rng.random() < P['p_hop'] else 70
    c.radc = rng.choice([2, 5, 40, 200]) if rng.random() < P['p_radcredit'] else None
    return c

class Run:
    def __init__(self, seed, prof = None, **over):
        P = dict(DEFAULT)
        P.update(prof or {})
        P.update(over)
        self.P, self.seed = P, seed
        rng = self.rng = random.Random(seed)
        self.plans = [gen_call(rng, P, i) for i in range(rng.randrange(P['calls'][0], P['calls'][1] + 1))]
        self.hide = rng.random() < P['hide']
        self.static = rng.random() < P['static']
        self.lossy = rng.random() < P['p_loss']
        self.hup = uni(rng, 0.1, 40) if rng.random() < P['p_hup'] else None
        self.maxcredit = rng.choice([2, 20, 60]) if rng.random() < P['maxcredit'] else None
        self.start_acct = (rng.random() < .5) if P['start_acct'] is None else P['start_acct']
        self.alive = P['alive']
        self.precise = (rng.random() < .5) if P['precise'] is None else P['precise']
        self.wsteps = [(uni(rng, 0, 60), rng.choice([-86400, -5, 3, 3600, 1e6])) for _ in range(rng.choice([1, 3]))] if rng.random() < P['p_wallstep'] else []
        opts = []
        if self.hide: opts.append(('hide_call_id', 'on'))
        if self.maxcredit: opts.append(('max_credit_time', str(self.maxcredit)))
        if self.alive: opts.append(('alive_acct_int', str(self.alive)))
        if self.precise: opts.append(('precise_acct', 'on'))
        opts += P.get('opts', [])
        if self.static:
            # one static route for all calls: everybody gets the same destination, the called number passes through
            self.sroute = self.plans[0].routes[0]
            self.sroute.cld = None
            for c in self.plans:
                r = O(**self.sroute.__dict__)
                r.beh = c.routes[0].beh
                r.cld = c.num
                r.j = 0
                c.routes = [r]
        w = self.w = World(seed, auth = not (self.static and rng.random() < .5), acct = P['acct'], route = self.rstr(self.sroute) if self.static else None, opts = opts,
                           start_acct = self.start_acct, ka_ans = P['ka'][0], ka_orig = P['ka'][1], setup = P.get('setup'))
        sim = self.sim = w.sim
        if self.lossy:
            l = rng.choice([0.05, 0.12])
            sim.default_link = Link(loss = l, dup = rng.choice([0, 0.1]), delay = (0.005, 0.05), reorder = rng.choice([0, 0.05]), big = 1.0)
        else: sim.default_link = Link(delay = rng.choice([(0.0, 0.0), (0.002, 0.02), (0.01, 0.3)]))
        self.base_timers = self.timers()
        self.base = w.sizes()
        self.admin = []         # (t, what, callid)
        self.api = B2BSimpleAPI.__new__(B2BSimpleAPI)
        self.api.global_config = w.gc
        w.radius.on_auth = self.on_auth
        w.radius.on_acct = lambda q: (0.0, 0.01, ['0'])
        self.byid, self.bycld = {}, {}
        self.callees, self.peers = {}, {}
        for c in self.plans:
            c.att = []
            p = c.peer = self.peers[c.host] = w.peer(c.host, 'a%d' % c.i, extra_addrs = [(phost(c.host), 5060)])
            for r in c.routes:
                r.call = c
                r.legs = []
                self.bycld[r.cld] = r
                if r.host not in self.callees:
                    q = self.callees[r.host] = w.peer(r.host, 'b', extra_addrs = [(phost(r.host), 5060), (r.host, 5080)])
                    q.on_invite = self.on_invite
            sim.after(c.t0, self.start, c)
        if self.hup is not None: sim.after(self.hup, self.do_hup)
        for t, d in self.wsteps: sim.after(t, sim.wall_step, d)
    def rstr(self, r):
        s = ('%s@' % r.cld if r.cld else '') + r.host
        if r.port != 5060: s += ':%d' % r.port
        for k, v in (('credit-time', r.credit), ('expires', r.expires), ('np_expires', r.np), ('nr_expires', r.nr)):
            if v is not None: s += ';%s=%d' % (k, v)
        if r.hs: s += ';hs_scodes=%s' % ','.join(map(str, r.hs))
        if r.fof: s += ';forward_on_fail=1'
        return s
    def on_auth(self, q):
        cid = q.get('call-id')
        c = self.byid.get(cid)
        if c is None: return None
        c.authq = q
        k, pick, d = c.auth
        if k == 'never': return None
        if k == 'ok': lines = routing_lines([self.rstr(r) for r in c.routes], rng = self.rng, credit = c.radc)
        elif k == 'reject': lines = ['Reply-Message = "no"', '1']
        elif k == 'noroute': lines = ['0']
        else: lines = ['2']
        return (pick, d, lines)
    def start(self, c):
        hd = []
        m = c.peer.call(self.w.addr, c.num, c.frm, None if c.late else c.sdp, start = False, rr = c.rr)
        c.leg = m
        m.invite.set('max-forwards', str(c.maxf))
        m.itx.data = m.invite.enc()
        m.plan = c
        m.on_request = self.callee_request
        if c.noack: m.app['ack'] = False
        if c.late: m.app['ack_body'] = c.sdp
        self.byid[m.callid] = c
        m.app['on_final'] = lambda leg, resp: self.caller_final(c, leg, resp)
        m.itx.start()
        if c.cancel is not None:
            if c.cancel > 0: self.sim.after(c.cancel, m.cancel)
            else: self.sim.after(-c.cancel, self.early_bye, c)
        if c.vanish is not None: self.sim.after(c.vanish, self.vanish, c)
        if self.P.get('on_start'): self.P['on_start'](self, c)
    def early_bye(self, c):
        l = c.leg
        if l.state == 'early' and l.final is None and not l.app.get('cancelled_at'):
            pv = [m for t, d, m, *_ in l.peer.log if d == 'in' and m is not None and m.code and 100 < m.code < 200 and m.ttag and m.callid == l.callid]
            if not pv: return
            c.ebye = self.sim.now
            l.rtag = pv[-1].ttag
            l.target = S.uri_of(pv[-1].h('contact'))
            l.request('BYE')
    def vanish(self, c):
        c.peer.dead = True
        c.vanished = self.sim.now
        if self.P['vanish_bye']: self.sim.after(80, self.callee_bye, c)
    def caller_final(self, c, leg, resp):
        if leg.state != 'est': return
        who, dt = c.hang
        s = self.sim
        if who in ('caller', 'both'): s.after(dt, leg.bye)
        if who in ('callee', 'both'):
            s.after(dt + (self.rng.uniform(-0.01, 0.01) if who == 'both' and self.rng.random() < .7 else 0), self.callee_bye, c)
        if who == 'd': s.after(dt, self.do_d, c)
        for t, side, what, d2 in c.mids: s.after(t, self.mid, c, side, what, d2)
    def callee_leg(self, c):
        for r in c.routes:
            for l in r.legs:
                if l.state == 'est' and l.itx.acked: return l
    def callee_bye(self, c, tries = 0):
        l = self.callee_leg(c)
        if l is not None: l.bye()
        elif tries < 400 and any(l.state == 'est' for r in c.routes for l in r.legs): self.sim.after(0.1, self.callee_bye, c, tries + 1)    # not before the ACK
    def do_d(self, c):
        self.admin.append((self.sim.now, 'd', c.leg.callid))
        out = []
        with vsim.quiet(): self.api.recvCommand(O(send = out.append, close = lambda: None), 'd %s' % c.leg.callid)
        self.admin_out = out
    def do_hup(self):
        self.admin.append((self.sim.now, 'hup', None))
        self.w.signal(signal.SIGHUP)
    def mid(self, c, side, what, d2):
        leg = c.leg if side == 'A' else self.callee_leg(c)
        if leg is None or leg.state != 'est' or leg.peer.dead: return
        if leg.role == 'uas' and not leg.itx.acked: return
        if leg.role == 'uac' and not leg.app.get('ack_msg'): return
        if callable(what): return what(self, c, leg)
        if what == 'info':
            leg.request('INFO', b'Signal=%d\r\n' % self.rng.randrange(10), ctype = 'application/dtmf-relay')
            return
        other = self.callee_leg(c) if side == 'A' else c.leg
        if leg.app.get('re_busy'): return
        leg.app['re_busy'] = True
        if what != 'same':
            leg.sdpver += 1
            codecs = self.rng.choice([(0,), (8, 101), (18, 8), (0, 8)])
            leg.lsdp = S.mksdp(leg.peer.addr[0] if what != 'hold' else '0.0.0.0', 30000 + 2 * leg.sdpver, leg.sdpver, 7, codecs)
        if what == 'ref' and other is not None: other.app['refuse_re'] = self.rng.choice(self.P.get('re_codes', [488, 403, 415]))
        if self.P.get('re_slow') and other is not None:
            # the other side takes its time: provisional answers, then the final one
            other.app['re_slow'] = (self.rng.choice([(), (), (180,), (183,), (100,), (100, 183)]), uni(self.rng, 0.01, 3) if self.rng.random() < .7 else 0)
        if what == 'none':
            leg.reinvite(b'', cb = lambda l, resp, tx: l.app.__setitem__('re_busy', False), ack_body = leg.lsdp)
            return
        def done(l, resp, tx): l.app['re_busy'] = False
        tx = leg.reinvite(leg.lsdp, cb = done)
        if self.P.get('p_recancel') and self.rng.random() < self.P['p_recancel']: self.sim.after(self.rng.choice([0, .03, .2, 1]), self.recancel, leg, tx)
    def recancel(self, leg, tx):
        """the sender of an update withdraws it"""
        if leg.state != 'est' or leg.peer.dead or tx.final is not None or not tx.prov: return
        leg.cancel_tx(tx)
    # --- callee side
    def on_invite(self, leg, m):
        user = S.split_uri(m.uri)[1]
        r = self.bycld.get(user)
        if r is None:
            leg.refuse(404); self.unknown = getattr(self, 'unknown', []) + [m]
            return
        r.legs.append(leg)
        leg.route = r
        b = r.beh
        s = self.sim
        leg.on_request = self.callee_request
        leg.rr = [x.format(h = r.host, p = phost(r.host)) for x in b.rr]
        leg.sdpbase = S.mksdp(r.host, 40000 + 2 * r.j, 1, 50 + r.call.i, self.rng.choice([(0, 101), (8,), (0, 8)]))
        if b.dead:
            leg.app['dead'] = True
            return
        if b.canc == 'ignore': leg.app['ignore_cancel'] = True
        if b.canc == 'cross':
            leg.app['ignore_cancel'] = True
            leg.app['cross'] = True
            leg.on_state = None
        rrh = [('record-route', x) for x in leg.rr] if self.rng.random() < .6 else [('record-route', ', '.join(leg.rr))] if leg.rr else []
        for t, code, wb in b.steps:
            s.after(t, lambda code = code, wb = wb: leg.state in ('init', 'early') and not leg.app.get('cancels') and leg.provisional(code, leg.sdpbase if wb and code > 100 else b''))
        if b.fin is not None:
            s.after(b.fin[1], self.callee_final, leg, rrh)
        if b.canc == 'cross': self.poll_cross(leg, rrh)
    def poll_cross(self, leg, rrh):
        """answers 200 to the INVITE on receiving CANCEL, as when the two crossed"""
        if leg.final is not None: return
        if leg.app.get('cancels'):
            self.sim.after(self.rng.choice([0, 0.01, 0.5, 3] if self.rng.random() >= self.P.get('p_latecross', 0) else [33, 45, 120, 250]), leg.answer, leg.sdpbase, rrh)
            return
        if self.sim.rel < 500: self.sim.after(0.01, self.poll_cross, leg, rrh)
    def callee_final(self, leg, rrh):
        if leg.final is not None: return
        b = leg.route.beh
        if leg.app.get('cancels') and not leg.app.get('cross') : return
        if b.fin[0] == 'ok':
            leg.answer(leg.sdpbase, rrh, b.fin[2])
        else:
            hd = []
            code = b.fin[2]
            if code in (300, 301, 302): hd.append(('contact', '<sip:other@10.9.9.9>'))
            if code == 401: hd.append(('www-authenticate', 'Digest realm="r",nonce="%x"' % self.rng.getrandbits(60)))
            if code == 407: hd.append(('proxy-authenticate', 'Digest realm="r",nonce="%x"' % self.rng.getrandbits(60)))
            leg.refuse(code, None, hd)
    def callee_request(self, leg, stx):
        m = stx.req
        if m.method == 'INVITE' and leg.state == 'est' and leg.app.get('re_slow'):
            prov, d = leg.app.pop('re_slow')
            for k, code in enumerate(prov):
                if code == 183: self.sim.after(d * k / 3, lambda: leg.state == 'est' and stx.reply(S.response(m, 183, None, leg.ltag, [('contact', '<%s>' % leg.contact_uri), ('content-type', 'application/sdp')], leg.lsdp or b'')))
                else: self.sim.after(d * k / 3, lambda code = code: leg.state == 'est' and stx.reply(S.response(m, code, None, leg.ltag)))
            self.sim.after(d, self.re_final, leg, stx)
            return True
        if m.method == 'INVITE' and leg.state == 'est' and leg.app.get('refuse_re'):
            self.re_final(leg, stx)
            return True
        return False
    def re_final(self, leg, stx):
        m = stx.req
        if stx.final is not None: return
        if leg.state != 'est':
            stx.reply(S.response(m, 487, None, leg.ltag))
        elif leg.app.get('refuse_re'):
            code = leg.app.pop('refuse_re')
            stx.reply(S.response(m, code, None, leg.ltag, [('contact', '<sip:elsewhere@10.9.9.9>')] if code in (301, 302) else []))
        else: leg.default_request(stx)
    # --- end
    def timers(self):
        return len([1 for x in vsim.ED2.tlisteners if x.cb_func is not None])
    def run(self, dt = 1100):
        self.w.run(dt)
        self.index()
        return self
    def index(self):
        """what the B2BUA received and sent, per Call-ID"""
        w = self.w
        self.tx, self.rx = {}, {}
        for p in self.sim.wire:
            if p.src == w.addr and p.msg:
                self.tx.setdefault(p.msg.callid, []).append((p.t, p.msg, p))
        for t, p in self.sim.delivered:
            if p.dst == w.addr and p.msg: self.rx.setdefault(p.msg.callid, []).append((t, p.msg, p))
        for c in self.plans:
            c.cid = c.leg.callid if hasattr(c, 'leg') else None
        owner = {}
        for c in self.plans:
            for r in c.routes: owner[r.cld] = (c, r)
        self.atts = []
        for cid, l in self.tx.items():
            seen = set()
            for t, m, p in l:
                if m.method == 'INVITE' and m.ttag is None and m.cseq not in seen:
                    seen.add(m.cseq)
                    o = owner.get(S.split_uri(m.uri)[1])
                    if o is None: continue
                    a = O(call = o[0], route = o[1], cid = cid, t = t, inv = m, dst = p.dst)
                    self.fill(a)
                    o[0].att.append(a)
                    self.atts.append(a)
        for c in self.plans:
            c.att.sort(key = lambda a: a.t)
            if c.cid: self.fill_caller(c)
    def firsts(self, evs):
        seen, out = set(), []
        for t, m, p in evs:
            if p.data in seen: continue
            seen.add(p.data)
            out.append((t, m))
        return out
    def fill(self, a):
        tx, rx = self.firsts(self.tx.get(a.cid, [])), self.firsts(self.rx.get(a.cid, []))
        n = a.inv.cseq[0]
        a.resp = [(t, m) for t, m in rx if m.code and m.cseq == (n, 'INVITE')]
        fin = [(t, m) for t, m in a.resp if m.code >= 200]
        prov = [(t, m) for t, m in a.resp if m.code < 200]
        a.p1 = prov[0][0] if prov else None
        # the transaction is over 32 s after the first transmission if nothing came; 300 s after the last provisional one
        a.fin = fin[0] if fin else None
        a.tmo = None
        lim = a.t + 32
        for t, m in prov:
            if t < lim: lim = t + 300
        a.lim = lim
        if a.fin is None or a.fin[0] > lim - EPS: a.tmo, a.late = lim, a.fin; a.fin = None
        a.prov = [(t, m) for t, m in prov if (a.fin is None or t < a.fin[0]) and (a.tmo is None or t < a.tmo)]
        a.cancel = [(t, m) for t, m in tx if m.method == 'CANCEL' and m.cseq[0] == n]
        a.acks = [(t, m) for t, m in tx if m.method == 'ACK' and m.cseq[0] == n]
        a.byetx = [(t, m) for t, m in tx if m.method == 'BYE']
        a.byerx = [(t, m) for t, m in rx if m.method == 'BYE']
        a.tx, a.rx = tx, rx
        a.ok = a.fin is not None and a.fin[1].code < 300
    def fill_caller(self, c):
        tx, rx = self.firsts(self.tx.get(c.cid, [])), self.firsts(self.rx.get(c.cid, []))
        n = c.leg.invite.cseq[0]
        c.arr = [t for t, m in rx if m.method == 'INVITE' and m.cseq[0] == n]
        c.arr = c.arr[0] if c.arr else None
        c.resp = [(t, m) for t, m in tx if m.code and m.cseq == (n, 'INVITE')]
        c.fins = [(t, m) for t, m in c.resp if m.code >= 200]
        c.fin = c.fins[0] if c.fins else None
        c.canrx = [t for t, m in rx if m.method == 'CANCEL' and m.cseq[0] == n]
        c.canrx = c.canrx[0] if c.canrx else None
        c.ackrx = [t for t, m in rx if m.method == 'ACK' and m.cseq[0] == n]
        c.byetx = [(t, m) for t, m in tx if m.method == 'BYE']
        c.byerx = [(t, m) for t, m in rx if m.method == 'BYE']
        c.tx, c.rx = tx, rx
        c.ok = c.fin is not None and c.fin[1].code < 300
        c.authreq = getattr(c, 'authq', None)
        c.adm = [t for t, k, cid in self.admin if (cid is None or cid == c.cid) and c.arr is not None and t >= c.arr - 1e-9]
    def story(self, c):
        """everything about one call, for a report"""
        t0 = self.sim.t0
        ev = []
        def line(t, d, leg, m): ev.append((t, '%.4f %s %s %s' % (t - t0, leg, d, ('%s %s' % (m.code, m.cseq) if m.code else '%s %s' % (m.method, m.cseq[0])) + (' +sdp' if m.body else ''))))
        for t, m in c.tx: line(t, '<-', 'A', m)
        for t, m in c.rx: line(t, '->', 'A', m)
        for k, a in enumerate(c.att):
            for t, m in a.tx: line(t, '->', 'O%d(%s)' % (k + 1, a.route.cld), m)
            for t, m in a.rx: line(t, '<-', 'O%d(%s)' % (k + 1, a.route.cld), m)
        for t, k, cid in self.admin:
            if cid in (None, c.cid): ev.append((t, '%.4f admin %s' % (t - t0, k)))
        if c.authreq: ev.append((c.authreq.t, '%.4f auth request' % (c.authreq.t - t0)))
        if c.authreq and c.authreq.answered: ev.append((c.authreq.answered, '%.4f auth answer %s' % (c.authreq.answered - t0, c.auth[0])))
        ev.sort(key = lambda e: e[0])
        return {'routes': [self.rstr(r) for r in c.routes], 'beh': [repr(r.beh) for r in c.routes], 'cancel': c.cancel, 'hang': c.hang, 'noack': c.noack, 'vanish': c.vanish, 'mids': c.mids, 'static': self.static,
                'lossy': self.lossy, 'maxcredit': self.maxcredit, 'events': [e[1] for e in ev][:120]}
    def sig(self, c):
        """what was different about this call"""
        return (c.auth[0], tuple((a.route.j, tuple(m.code for t, m in a.prov), a.fin and a.fin[1].code, bool(a.cancel), bool(a.byetx), bool(a.byerx)) for a in c.att), c.fin and c.fin[1].code,
                c.canrx is not None, bool(c.byetx), bool(c.byerx), bool(c.adm), self.lossy)
    def brief(self, c):
        return 'routes %s -> %s; caller got %s' % ([self.rstr(r) for r in c.routes], [(a.route.cld, [m.code for t, m in a.resp], 'CANCEL' if a.cancel else '', 'BYE' if a.byetx or a.byerx else '') for a in c.att], [m.code for t, m in c.resp])
    def close(self): self.w.close()
    def internal(self, R, key = 'internal exception'):
        R.check(not Internal.log, 'the stack caught an internal exception: %s' % (Internal.log[0][1:] if Internal.log else '',), key)

def zero(self, r):
    return r.credit == 0 or r.expires == 0
def limits(self, a):
    """the instants at which an attempt has to be given up because of its route's limits, as far as they were reached"""
    r = a.route
    firstfin = a.fin[0] if a.fin else a.tmo
    end = min(x for x in (firstfin, float('inf')) if x is not None)
    p100 = a.prov[0][0] if a.prov else None                 # any reply
    p101 = [t for t, m in a.prov if m.code > 100]           # progress
    p101 = p101[0] if p101 else None
    exp = r.expires
    np, nr = r.np, r.nr
    if exp is not None and np is not None and np >= exp: np = None
    if nr is not None and (nr >= 32 or (exp is not None and nr >= exp) or (np is not None and nr >= np)): nr = None
    out = []
    def add(lim, stop):
        if lim is None: return
        t = a.t + lim
        if t > end + EPS: return
        if stop is not None and stop < t - EPS: return
        out.append(t)
    add(nr, p100)
    add(np, p101)
    add(exp, None)
    return out[:] if not out else [min(out)]
def tight(self, a):
    """a response arrived so close to a limit (not exactly at it) that the order on the wire decides nothing"""
    r = a.route
    ls = [a.t + x for x in (r.expires, r.np, r.nr) if x is not None] + ([a.call.arr + 300] if a.call.arr else []) + [a.t + 32, a.lim]
    return any(1e-7 < abs(t - x) < 5 * EPS for t, m in a.resp for x in ls)
def blurred(self, c):
    """two decisive instants of this call are so close together (but not the same) that their order decides nothing a monitor should judge"""
    pts = [c.canrx, c.arr and c.arr + 300, c.authreq and c.authreq.answered] + c.adm + [t for l in [c] + c.att for t, m in l.byerx[:1]]
    for a in c.att: pts += [a.fin and a.fin[0], a.tmo] + self.limits(a)
    if c.ackrx: pts.append(c.ackrx[0])
    pts += [t for t, k in run_recancels(c)]
    if run_recancels(c, True): return True
    pts = sorted(t for t in pts if t)
    return any(self.tight(a) for a in c.att) or any(1e-7 < y - x < 6 * EPS for x, y in zip(pts, pts[1:]))
def connected(self, c):
    """[the attempt whose answer connected the caller]"""
    if not c.ok: return []
    l = [a for a in c.att if a.ok and abs(a.fin[0] - c.fin[0]) < EPS and not [t for t, m in a.cancel if t < a.fin[0] - EPS]]
    return l[-1:]
Run.zero, Run.limits, Run.tight, Run.blurred, Run.connected = zero, limits, tight, blurred, connected

def credit(self, a):
    own = a.route.credit
    if own is None and a.call.authreq and a.call.auth[0] == 'ok': own = a.call.radc
    v = [x for x in (own, self.maxcredit) if x is not None]
    return min(v) if v else None
def conn_t(self, c, a):
    """when the call counts as connected: the answer, or with a late offer the caller's ACK"""
    if c.late and a.fin[1].body: return c.ackrx[0] if c.ackrx else float('inf')
    return a.fin[0]
def legs(self, c):
    """the caller's leg and every attempt, with a common view of their end"""
    out = []
    if c.arr is not None: out.append(O(name = 'caller', o = c, byetx = c.byetx, byerx = c.byerx))
    for a in c.att: out.append(O(name = a.route.cld, o = a, byetx = a.byetx, byerx = a.byerx))
    return out
def run_recancels(c, ties = False):
    """updates withdrawn by their sender while they waited for their answer (or just when it was given)"""
    out = []
    for side, lt in [('caller', c)] + [(a.route.cld, a) for a in c.att]:
        for t, m in lt.rx:
            if m.method != 'CANCEL': continue
            q = [tt for tt, r in lt.rx if r.method == 'INVITE' and r.cseq[0] == m.cseq[0] and r.ttag is not None and tt <= t]
            f = [tt for tt, r in lt.tx if r.code and r.code >= 200 and r.cseq == (m.cseq[0], 'INVITE')]
            if ties:
                if q and [1 for tt in f if tt <= t + 6 * EPS and t <= tt + 6 * EPS] and not [1 for tt in f if abs(tt - t) < 1e-7 and f_is_487(lt, m)]: out.append(t)
            elif q and not [1 for tt in f if tt < t - EPS]: out.append((t, side))
    return out
def f_is_487(lt, m):
    return [1 for tt, r in lt.tx if r.code == 487 and r.cseq == (m.cseq[0], 'INVITE')]
def causes(self, c):
    """[(t, what, who)]: everything that had reached the B2BUA and ends the call or the current attempt"""
    out = []
    T = c.fin[0] if c.fin else float('inf')
    if c.canrx is not None and c.canrx < T + EPS: out.append((c.canrx, 'cancel', 'caller'))
    if hasattr(c, 'ebye'): out += [(t, 'early bye' if t < T - EPS or not c.ok else 'bye', 'caller') for t, m in c.byerx]
    elif c.byerx: out.append((c.byerx[0][0], 'bye', 'caller'))
    out += [(t, 'admin', None) for t in c.adm]
    if c.arr is not None and T > c.arr + 300 - EPS: out.append((c.arr + 300, 'expiry', None))
    if c.ok and not [t for t in c.ackrx if t <= c.fin[0] + 32 + EPS]: out.append((c.fin[0] + 32, 'noack', None))
    for lt in [c] + c.att:
        # answers to in-dialog INVITEs that were never acknowledged
        seen = set()
        for t, m in lt.tx:
            if m.code and m.code >= 200 and m.cseq[1] == 'INVITE' and m.cseq not in seen:
                seen.add(m.cseq)
                q = [tt for tt, r in lt.rx if r.method == 'INVITE' and r.cseq == m.cseq and r.ttag is not None]
                if q and not [1 for tt, r in lt.rx if r.method == 'ACK' and r.cseq[0] == m.cseq[0] and t - EPS <= tt <= t + 32 + EPS]: out.append((t + 32, 'noack', None))
    for t, side in run_recancels(c): out.append((t, 'update withdrawn', side))
    for side, lt in [('caller', c)] + [(a.route.cld, a) for a in c.att]:
        # in-dialog INVITEs of the B2BUA that were answered 408/481 or not at all
        n0 = None if lt is c else lt.inv.cseq[0]
        for t, m in lt.tx:
            if m.method == 'INVITE' and m.ttag is not None:
                rs = [(tt, r) for tt, r in lt.rx if r.code and r.cseq == m.cseq]
                fs = [(tt, r) for tt, r in rs if r.code >= 200]
                pv = [tt for tt, r in rs if r.code < 200 and tt < t + 32]
                lim = (pv[-1] + 300) if pv else t + 32
                if fs and fs[0][0] < lim:
                    if fs[0][1].code in (408, 481): out.append((fs[0][0], 'reinvite refused', side))
                else: out.append((lim, 'reinvite timeout', side))
    for a in c.att:
        for t in self.limits(a): out.append((t, 'limit', a.route.cld))
        if a.byerx: out.append((a.byerx[0][0], 'bye', a.route.cld))
        if a.ok and self.credit(a) is not None: out.append((self.conn_t(c, a) + self.credit(a), 'credit', a.route.cld))
        if a.fin and not a.ok: out.append((a.fin[0], 'failed', a.route.cld))
        if a.tmo: out.append((a.tmo, 'timeout', a.route.cld))
    out.sort(key = lambda e: e[0])
    return out
Run.credit, Run.legs, Run.causes, Run.conn_t = credit, legs, causes, conn_t
