"""Independent simulated SIP user agents (RFC 3261 endpoints) with scriptable behaviour."""
import siplite as S
from siplite import Msg, request, response

T1, T2, TB = 0.5, 4.0, 32.0

class CTxn:
    """client transaction of a peer"""
    def __init__(self, peer, req, dst, cb, src):
        self.peer, self.req, self.dst, self.cb, self.src = peer, req, dst, cb, src
        self.data = req.enc()
        self.invite = req.method == 'INVITE'
        self.t = T1
        self.final = None
        self.prov = False
        self.ack = None
        self.t_start = peer.sim.now
        self.timer = self.tmo = None
        self.dead = False
    def start(self, retrans = True):
        p = self.peer
        p.ctx[(self.req.branch, self.req.method)] = self
        p._out(self.src, self.dst, self.data, self.req)
        if retrans:
            self.timer = p.sim.after(self.t, self._retr)
        self.tmo = p.sim.after(TB, self._timeout)
    def _retr(self):
        if self.final is not None or self.dead or (self.invite and self.prov): return
        self.peer._out(self.src, self.dst, self.data, self.req, retrans = True)
        self.t = self.t * 2 if self.invite else min(self.t * 2, T2)
        self.timer = self.peer.sim.after(self.t, self._retr)
    def _timeout(self):
        if self.final is not None or (self.invite and self.prov): return
        self.final = 408
        self.dead = True
        if self.cb: self.cb(None, self)
    def recv(self, resp):
        if resp.code < 200:
            self.prov = True
            if self.final is None and self.cb: self.cb(resp, self)
            return
        new = self.final is None
        if self.dead and self.final == 408:
            pass
        if self.invite and resp.code >= 300:
            if self.ack is None:
                a = request('ACK', self.req.uri, [])
                a.add('via', self.req.h('via'))
                a.add('max-forwards', '70')
                a.add('from', self.req.h('from')).add('to', resp.h('to')).add('call-id', self.req.callid)
                a.add('cseq', '%d ACK' % self.req.cseq[0])
                for r in self.req.hs('route'): a.add('route', r)
                self.ack = a
            if not self.peer.mute_ack:
                self.peer._out(self.src, self.dst, self.ack.enc(), self.ack)
        if new:
            self.final = resp.code
            if self.cb: self.cb(resp, self)
        elif self.invite and resp.code < 300 and self.cb:
            self.cb(resp, self)     # retransmitted 2xx: leg re-ACKs

class STxn:
    """server transaction of a peer"""
    def __init__(self, peer, req, src, at):
        self.peer, self.req, self.src, self.at = peer, req, src, at
        self.invite = req.method == 'INVITE'
        self.last = None
        self.final = None
        self.acked = False
        self.cancelled = False
        self.t = T1
        self.leg = None
        self.t_start = peer.sim.now
        self.dst = S.resp_addr(req.vias[0])
    def reply(self, resp, raw = None):
        data = raw if raw is not None else resp.enc()
        self.last = data
        if resp.code >= 200:
            if self.final is not None and self.final != resp.code: return
            first = self.final is None
            self.final = resp.code
            self.final_at = self.peer.sim.now
            if self.invite and first:
                self.peer.sim.after(self.t, self._retr)
        self.peer._out(self.at, self.dst, data, resp)
    def _retr(self):
        if self.acked or self.peer.dead: return
        if self.peer.sim.now - self.final_at > TB:
            if self.final < 300 and self.leg is not None: self.leg._noack(self)
            return
        self.peer._out(self.at, self.dst, self.last, None, retrans = True)
        self.t = min(self.t * 2, T2)
        self.peer.sim.after(self.t, self._retr)

class Leg:
    def __init__(self, peer, role, callid, ltag):
        self.peer, self.role, self.callid, self.ltag = peer, role, callid, ltag
        self.sim = peer.sim
        self.rtag = None
        self.lcseq = 0
        self.rcseq = None
        self.lhdr = self.rhdr = None
        self.target = None
        self.routes = []
        self.state = 'init'         # init early est ended failed
        self.hist = []              # (t, what, detail)
        self.invite = None          # initial INVITE message
        self.itx = None
        self.est_at = self.end_at = None
        self.end_by = None
        self.final = None
        self.acks = []              # ACK messages received for our 2xx
        self.errors = []
        self.lsdp = None
        self.rsdp = None
        self.sdpver = 1
        self.on_request = None      # f(leg, stx) -> True if handled
        self.on_state = None
        self.pending_stx = None
        self.contact_uri = None
        self.rr = []                # record-route we present (uas) / presented (uac)
        self.branches = set()
        self.app = {}
        self.exp_target = None
        self.old_contacts, self.stale_target = [], []
        self.ignore_bye = False
        peer.legs.append(self)
    def log(self, what, *d):
        self.hist.append((self.sim.now, what) + d)
    def setstate(self, s):
        if s == 'est' and self.est_at is None: self.est_at = self.sim.now
        if s in ('ended', 'failed') and self.end_at is None: self.end_at = self.sim.now
        self.state = s
        self.log('state', s)
        if self.on_state: self.on_state(self, s)
    # ---- building requests
    def mkreq(self, method, body = b'', ctype = None, extra = (), cseq = None):
        p = self.peer
        if cseq is None:
            self.lcseq += 1
            cseq = self.lcseq
        m = request(method, self.target, [])
        m.add('via', p.via(self))
        m.add('max-forwards', str(self.app.get('maxf', 70)))
        m.add('from', self.lhdr).add('to', self.rhdr + (';tag=' + self.rtag if self.rtag and S.tagof(self.rhdr) is None else ''))
        m.add('call-id', self.callid)
        m.add('cseq', '%d %s' % (cseq, method))
        if method in ('INVITE', 'UPDATE', 'REFER'): m.add('contact', '<%s>' % self.contact_uri)
        for r in self.hops: m.add('route', r)
        for n, v in extra: m.add(n, v)
        if body:
            m.add('content-type', ctype or 'application/sdp')
            m.body = body
        return m
    @property
    def hops(self):
        # proxies next to this peer are played by the peer itself: what leaves here has passed them
        return [r for r in self.routes if S.uri_addr(S.uri_of(r)) not in self.peer.addrs]
    def nexthop(self):
        if self.hops: return S.uri_addr(S.uri_of(self.hops[0]))
        return S.uri_addr(self.target)
    def request(self, method, body = b'', cb = None, ctype = None, extra = (), retrans = True, dst = None):
        m = self.mkreq(method, body, ctype, extra)
        tx = CTxn(self.peer, m, dst or self.nexthop(), cb, self.peer.addr)
        self.log('tx', method, m.cseq[0])
        tx.start(retrans)
        return tx
    def bye(self, cb = None, extra = (), retrans = True):
        if self.state in ('ended', 'failed'): return
        self.end_by = 'local'
        tx = self.request('BYE', cb = cb, extra = extra, retrans = retrans)
        self.setstate('ended')
        return tx
    # ---- UAC
    def _uac_resp(self, resp, tx):
        if resp is None:
            self.log('timeout')
            self.final = 408
            if self.state in ('init', 'early'): self.setstate('failed')
            self._cb('final', None)
            return
        if resp.code < 200:
            self.log('prov', resp.code, resp.body)
            if self.state == 'init': self.setstate('early')
            if self.app.get('cancel_pending') and not self.app.get('cancel_sent'):
                self._send_cancel()
            self._cb('prov', resp)
            return
        if 200 <= resp.code < 300:
            if self.final is None:
                self.final = resp.code
                self.rtag = resp.ttag
                self.rhdr = resp.h('to')
                c = resp.h('contact')
                if c: self.target = S.uri_of(c)
                self.routes = [r for v in resp.hs('record-route') for r in S.split_commas(v)][::-1]
                self.final_msg = resp
                self.rsdp = resp.body
                self.log('final', resp.code, resp.body)
                if self.state != 'ended': self.setstate('est')      # (a BYE may have overtaken the answer)
                self._cb('final', resp)
                if self.app.get('ack', True): self.send_ack()
            else:
                if self.app.get('ack', True) and self.app.get('ack_msg') is not None and resp.ttag == self.rtag:
                    self.peer._out(self.peer.addr, self.nexthop_ack, self.app['ack_msg'].enc(), self.app['ack_msg'], retrans = True)
            return
        if self.final is None:
            self.final = resp.code
            self.final_msg = resp
            self.log('final', resp.code, resp.body)
            self.setstate('failed')
            self._cb('final', resp)
    def _cb(self, what, m):
        f = self.app.get('on_' + what)
        if f: f(self, m)
    def send_ack(self, body = None, tx = None):
        if body is None: body = self.app.get('ack_body', b'')
        if body: self.lsdp = body
        tx = tx or self.itx
        m = self.mkreq('ACK', body, cseq = tx.req.cseq[0])
        for n, v in tx.req.headers:
            if n == 'authorization': m.add(n, v)
        self.nexthop_ack = self.nexthop()
        if tx is self.itx: self.app['ack_msg'] = m
        self.log('ack')
        self.app.setdefault('ack_at', self.sim.now)
        self.peer._out(self.peer.addr, self.nexthop_ack, m.enc(), m)
    def cancel(self):
        if self.final is not None or self.state not in ('init', 'early'): return False
        self.log('cancel')
        self.app['cancelled_at'] = self.sim.now
        self.app['cancel_pending'] = True
        if self.state == 'early' or self.itx.prov: self._send_cancel()
        return True
    def _send_cancel(self):
        if self.app.get('cancel_sent'): return
        self.app['cancel_sent'] = self.sim.now
        q = self.itx.req
        m = request('CANCEL', q.uri, [('via', q.h('via')), ('max-forwards', '70'), ('from', q.h('from')), ('to', q.h('to')), ('call-id', q.callid),
                                      ('cseq', '%d CANCEL' % q.cseq[0])])
        for r in q.hs('route'): m.add('route', r)
        for n, v in self.app.get('cancel_extra', ()): m.add(n, v)
        tx = CTxn(self.peer, m, self.itx.dst, self._cancel_resp, self.peer.addr)
        self.ctx_cancel = tx
        tx.start()
    def cancel_tx(self, tx0):
        """CANCEL for a request other than the first"""
        q = tx0.req
        m = request('CANCEL', q.uri, [('via', q.h('via')), ('max-forwards', '70'), ('from', q.h('from')), ('to', q.h('to')), ('call-id', q.callid),
                                      ('cseq', '%d CANCEL' % q.cseq[0])])
        for r in q.hs('route'): m.add('route', r)
        self.log('recancel')
        tx = CTxn(self.peer, m, tx0.dst, lambda resp, tx: None, self.peer.addr)
        tx.start()
        return tx
    def _cancel_resp(self, resp, tx):
        self.app['cancel_code'] = resp.code if resp is not None else 408
        self.log('cancel_resp', self.app['cancel_code'])
    def reinvite(self, body = b'', cb = None, extra = (), ack_body = b'', ctype = None):
        def h(resp, tx):
            if resp is None:
                self.log('re_final', 408, b'')
            elif resp.code < 200:
                self.log('re_prov', resp.code); return
            else:
                if resp.code < 300:
                    c = resp.h('contact')
                    if c: self.target = S.uri_of(c)
                    m = getattr(tx, 'ackm', None)
                    if m is None:
                        m = tx.ackm = self.mkreq('ACK', ack_body, cseq = tx.req.cseq[0])
                        first = True
                    else: first = False
                    self.peer._out(self.peer.addr, self.nexthop(), m.enc(), m, retrans = not first)
                    if not first: return
                    if self.state == 'est': self.rsdp = resp.body
                self.log('re_final', resp.code, resp.body)
            if cb: cb(self, resp, tx)
        return self.request('INVITE', body, cb = h, extra = extra, ctype = ctype)
    # ---- UAS
    def provisional(self, code, body = b'', headers = (), totag = True, ctype = None):
        stx = self.itx
        if stx.final is not None: return
        hd = []
        if code > 100: hd.append(('contact', '<%s>' % self.contact_uri))
        hd += list(headers)
        if body: hd.append(('content-type', ctype or 'application/sdp'))
        r = response(stx.req, code, None, self.ltag if code > 100 and totag else None, hd, body)
        self.log('tx_prov', code, body)
        if self.state == 'init': self.setstate('early')
        stx.reply(r)
    def answer(self, body = b'', headers = (), code = 200, ctype = None):
        stx = self.itx
        if stx.final is not None: return
        hd = [('contact', '<%s>' % self.contact_uri)] + list(headers)
        if body: hd.append(('content-type', ctype or 'application/sdp'))
        r = response(stx.req, code, None, self.ltag, hd, body)
        self.lsdp = body
        self.log('tx_final', code, body)
        self.final = code
        self.setstate('est')
        stx.reply(r)
    def refuse(self, code, reason = None, headers = (), body = b''):
        stx = self.itx
        if stx.final is not None: return
        r = response(stx.req, code, reason, self.ltag, list(headers), body)
        self.log('tx_final', code, body)
        self.final = code
        stx.reply(r)
        self.setstate('failed')
    def _noack(self, stx):
        self.log('noack')
        if self.state == 'est':
            if stx is self.itx:
                self.app['noack'] = True
            self.bye()
            self.end_by = 'noack'
    # ---- common incoming in-dialog
    def _check(self, m, at):
        """dialog identity of a request received inside this dialog"""
        e = self.errors
        if m.callid != self.callid: e.append('call-id')
        if m.ttag != self.ltag: e.append('%s: to-tag %r is not ours %r' % (m.method, m.ttag, self.ltag))
        if m.ftag != self.rtag and self.rtag is not None: e.append('%s: from-tag %r is not the peer\'s %r' % (m.method, m.ftag, self.rtag))
        exp_t, exp_r, exp_nh = self.expect
        got_r = [r for v in m.hs('route') for r in S.split_commas(v)]
        nr = lambda l: [_nuri(S.uri_of(x)) for x in l]
        for t in self.old_contacts:
            # addressed by a Contact this peer has replaced since
            o_t, o_r, o_nh = self.expect_for(t)
            if (_nuri(m.uri), nr(got_r), at) == (_nuri(o_t), nr(o_r), o_nh):
                if (_nuri(o_t), nr(o_r)) != (_nuri(exp_t), nr(exp_r)): self.stale_target.append((self.sim.now, m.method, t))
                return
        if _nuri(m.uri) != _nuri(exp_t): e.append('%s: request-URI %s, expected %s' % (m.method, m.uri, exp_t))
        if [_nuri(S.uri_of(x)) for x in got_r] != [_nuri(S.uri_of(x)) for x in exp_r]:
            e.append('%s: route set %s, expected %s' % (m.method, got_r, exp_r))
        if at != exp_nh: e.append('%s: sent to %s, expected %s' % (m.method, at, exp_nh))
    @property
    def expect(self):
        return self.expect_for(self.exp_target or self.contact_uri)
    def expect_for(self, t):
        """(request-URI, routes, next hop) the other end must use towards us"""
        rs = list(self.rr)
        if self.role == 'uas': rs = rs[::-1]
        if not rs: return t, [], S.uri_addr(t)
        first = S.uri_of(rs[0])
        if 'lr' in [p.partition('=')[0] for p in S.split_uri(first)[4]]:
            return t, rs, S.uri_addr(first)
        return first, rs[1:] + ['<%s>' % t], S.uri_addr(first)

def _nuri(u):
    s = S.split_uri(u)
    return (s[0], s[1], s[2], s[3] or 5060, tuple(sorted('lr' if x.partition('=')[0] == 'lr' else x for x in s[4])), s[5])

class Peer:
    _n = 0
    def __init__(self, sim, addr, name = 'peer', extra_addrs = ()):
        self.sim, self.addr, self.name = sim, addr, name
        self.addrs = [addr] + list(extra_addrs)
        for a in self.addrs:
            sim.bind(a, lambda d, s, a = a: self._rx(d, s, a))
        self.ctx, self.stx, self.legs = {}, {}, []
        self.log = []               # (t, 'in'/'out', msg, src, dst, retrans)
        self.on_invite = None
        self.on_other = None        # out-of-dialog, f(peer, stx) -> True
        self.mute_ack = False       # never ACK negative answers
        self.dead = False           # host down: neither receives nor sends
        self.unparsable = []
        self.stray = []             # requests for no known dialog
    def uid(self, p = ''):
        return p + '%016x' % self.sim.rng.getrandbits(64)
    def via(self, leg = None, branch = None):
        b = branch or 'z9hG4bK' + self.uid()
        return 'SIP/2.0/UDP %s:%d;branch=%s;rport' % (self.addr[0], self.addr[1], b)
    def _out(self, src, dst, data, msg, retrans = False):
        if self.dead: return
        self.log.append((self.sim.now, 'out', msg, src, dst, retrans))
        self.sim.send(src, dst, data)
    def raw(self, dst, data):
        self.sim.send(self.addr, dst, data)
    # ---- outgoing call
    def call(self, dst, user = '1000', frm = 'alice', body = None, headers = (), start = True, rr = (), name = None, ctype = None, callid = None, contact = None, via_extra = (), uri = None, ruri_host = None):
        leg = Leg(self, 'uac', callid or self.uid('c') + '@' + self.addr[0].strip('[]'), self.uid('t'))
        leg.contact_uri = contact or 'sip:%s@%s:%d' % (frm, self.addr[0], self.addr[1])
        leg.lhdr = '%s<sip:%s@%s>;tag=%s' % ('"%s" ' % name if name else '', frm, self.addr[0], leg.ltag)
        host = ruri_host or dst[0]
        leg.rhdr = '<sip:%s@%s>' % (user, host)
        leg.target = uri or 'sip:%s@%s:%d' % (user, host, dst[1])
        leg.lcseq = self.sim.rng.randrange(1, 2**20)
        leg.rr = list(rr)
        leg.lsdp = body or b''
        ex = [('record-route', r) for r in rr] + list(headers)
        m = leg.mkreq('INVITE', body or b'', ctype, extra = ex)
        for v in via_extra: m.headers.insert([i for i, x in enumerate(m.headers) if x[0] == 'via'][-1] + 1, ('via', v))
        leg.invite = m
        leg.itx = CTxn(self, m, dst, leg._uac_resp, self.addr)
        if start: leg.itx.start()
        leg.log('invite')
        return leg
    def ooreq(self, method, dst, uri = None, cb = None, headers = (), body = b'', frm = 'alice', to = None):
        m = request(method, uri or 'sip:%s:%d' % dst, [('via', self.via()), ('max-forwards', '70'), ('from', '<sip:%s@%s>;tag=%s' % (frm, self.addr[0], self.uid('t'))),
                    ('to', to or '<sip:%s@%s>' % (frm, dst[0])), ('call-id', self.uid('o')), ('cseq', '%d %s' % (self.sim.rng.randrange(1, 9999), method)), ('contact', '<sip:%s@%s:%d>' % (frm, *self.addr))])
        m.headers += list(headers)
        m.body = body
        tx = CTxn(self, m, dst, cb, self.addr)
        tx.start()
        return tx
    # ---- receiving
    def _rx(self, data, src, at):
        if self.dead: return
        try:
            m = S.parse(data)
            m.key(), m.vias[0]
        except Exception as e:
            self.unparsable.append((self.sim.now, src, data, repr(e)))
            return
        self.log.append((self.sim.now, 'in', m, src, at, None))
        if not m.is_req:
            tx = self.ctx.get((m.branch, m.cseq[1]))
            if tx is not None: tx.recv(m)
            return
        mm = 'INVITE' if m.method in ('ACK', 'CANCEL') else m.method
        stx = self.stx.get((m.branch, mm))
        if m.method == 'ACK':
            if stx is not None and stx.final is not None and stx.final >= 300:
                stx.acked = True
                stx.ackmsg = m
                return
            for leg in self._legs(m):
                tx = None
                for s in leg.app.get('itxs', [leg.itx] if leg.role == 'uas' else []):
                    if s.req.cseq[0] == m.cseq[0]: tx = s
                if tx is not None and tx.final is not None and tx.final < 300:
                    if not tx.acked:
                        leg._check(m, at)
                    tx.acked = True
                    leg.log('rx_ack', m.body)
                    leg.acks.append((self.sim.now, m))
                    return
            self.stray.append((self.sim.now, m))
            return
        if m.method == 'CANCEL':
            if stx is None:
                c = STxn(self, m, src, at)
                c.reply(response(m, 481, None, self.uid('x')))
                return
            cs = self.stx.get((m.branch, 'CANCEL'))
            if cs is not None:
                cs.reply_again() if False else self._out(at, cs.dst, cs.last, None, retrans = True)
                return
            cs = self.stx[(m.branch, 'CANCEL')] = STxn(self, m, src, at)
            leg = stx.leg
            cs.reply(response(m, 200, None, leg.ltag if leg else None))
            if leg is not None:
                leg.log('rx_cancel')
                leg.app['cancel_msg'] = m
                leg.app.setdefault('cancels', []).append(m)
                if stx.final is None and not leg.app.get('ignore_cancel'):
                    if stx is leg.itx:
                        leg.refuse(487)
                    else:
                        stx.reply(response(stx.req, 487, None, leg.ltag))
            return
        if stx is not None:
            if stx.last is not None: self._out(at, stx.dst, stx.last, None, retrans = True)
            return
        stx = self.stx[(m.branch, m.method)] = STxn(self, m, src, at)
        if m.ttag is not None:
            for leg in self._legs(m):
                leg._indialog(stx)
                return
            self.stray.append((self.sim.now, m))
            stx.reply(response(m, 481, None, self.uid('x')))
            return
        if m.method == 'INVITE' and self.on_invite is not None:
            leg = Leg(self, 'uas', m.callid, self.uid('t'))
            leg.contact_uri = 'sip:%s@%s:%d' % (self.name, self.addr[0], self.addr[1])
            leg.rtag = m.ftag
            leg.rhdr = m.h('from')
            leg.lhdr = m.h('to') + ';tag=' + leg.ltag
            leg.target = S.uri_of(m.h('contact')) if m.h('contact') else None
            leg.routes = [r for v in m.hs('record-route') for r in S.split_commas(v)]
            leg.lcseq = self.sim.rng.randrange(1, 2**20)
            leg.rcseq = m.cseq[0]
            leg.branches.add(m.branch)
            leg.invite = m
            leg.itx = stx
            stx.leg = leg
            leg.rsdp = m.body
            leg.log('rx_invite', m.body)
            self.on_invite(leg, m)
            return
        if self.on_other and self.on_other(self, stx): return
        stx.reply(response(m, 501 if m.method != 'OPTIONS' else 200, None, self.uid('x')))
    def _legs(self, m):
        return [l for l in self.legs if l.callid == m.callid and l.ltag == m.ttag]

def _indialog(self, stx):
    m = stx.req
    stx.leg = self
    self._check(m, stx.at)
    self.rcseq = max(self.rcseq or 0, m.cseq[0])
    if m.branch in self.branches: self.errors.append('%s: branch reused' % m.method)
    self.branches.add(m.branch)
    self.log('rx', m.method, m.body)
    if m.h('contact') and m.method in ('INVITE', 'UPDATE'): self.target = S.uri_of(m.h('contact'))
    if self.on_request and self.on_request(self, stx): return
    self.default_request(stx)

def default_request(self, stx):
    m = stx.req
    if m.method == 'BYE':
        if self.ignore_bye: return
        if self.state in ('ended',):
            stx.reply(response(m, 481 if self.end_by == 'remote' else 200, None, self.ltag)); return
        self.end_by = 'remote'
        self.app['bye_msg'] = m
        stx.reply(response(m, 200, None, self.ltag))
        if self.itx is not None and self.role == 'uas' and self.itx.final is None:
            self.refuse(487)
        self.setstate('ended')
    elif m.method == 'INVITE':
        if self.state != 'est':
            stx.reply(response(m, 481, None, self.ltag)); return
        self.app.setdefault('itxs', [self.itx] if self.role == 'uas' else []).append(stx)
        b = self.lsdp if self.lsdp else b''
        if m.body: self.rsdp = m.body
        stx.reply(response(m, 200, None, self.ltag, [('contact', '<%s>' % self.contact_uri)] + ([('content-type', 'application/sdp')] if b else []), b))
    else:
        stx.reply(response(m, 200, None, self.ltag))

Leg._indialog = _indialog
Leg.default_request = default_request
