"""C23: every in-dialog request is compared with an independent model of the dialog held by the receiving peer
Each simulated peer keeps its own dialog state (tags, CSeq, branches, the route set it recorded, its Contact) and judges every request on arrival; stale and foreign requests are injected and their answer and lack of effect are observed."""
import scen, siplite as S
from scen import EPS
RULE = 'seeded whole-call scenarios with proxies (loose and strict, one to three, comma-joined or not) on either side, re-INVITEs, INFO, ACK, BYE from either leg, crossing releases and losses; stale CSeq numbers and unknown tags or Call-IDs injected. Distinct by route sets, methods and CSeq history of both legs.'
N = {'quick': 2500, 'thorough': 50000}
NEED = {'requests judged': 5000, 'with routes': 1500, 'strict': 300, 'stale': 120, 'unknown': 250, 'other': 150, 'ACK judged': 1500}
PROF = dict(calls = (1, 3), routes = (1, 2), p_rr = .6, p_reinv = .6, p_info = .5, p_cancel = .1, p_limits = .1, p_credit = .1, p_refuse_auth = .02, p_hs = 0, p_fof = .3, p_late = .1, static = .1)

def stale(run, c, leg):
    # only once the B2BUA has certainly seen a request of this peer in the dialog
    done = [h for h in leg.hist if h[1] in ('re_final', 'inforesp')] if leg.role == 'uas' else [1]
    if not done: return
    rng = run.rng
    meth = rng.choice(['INFO', 'BYE', 'INVITE', 'OPTIONS', 'INFO'])
    n = run_low(leg) - rng.choice([0, 0, 1, 7])
    if n < 0: return
    m = leg.mkreq(meth, b'x=1\r\n' if meth == 'INFO' else S.mksdp(leg.peer.addr[0], 31000, 99, 7) if meth == 'INVITE' else b'', None if meth == 'INVITE' else 'application/dtmf-relay', cseq = n)
    send(run, c, leg, m, 'stale', 500)
def refresh(run, c, leg):
    """a re-INVITE that moves this peer's Contact"""
    if leg.app.get('re_busy'): return
    leg.app['re_busy'] = True
    old, new = leg.contact_uri, leg.contact_uri.replace('sip:', 'sip:n%d' % run.rng.randrange(10))
    def cb(l, resp, tx):
        l.app['re_busy'] = False
        if resp is None or resp.code >= 300:
            l.contact_uri = old
            l.old_contacts.append(new)
        else: l.app.setdefault('moved', run.sim.now)
    leg.contact_uri = new
    leg.old_contacts.append(old)
    leg.reinvite(leg.lsdp, cb = cb)
def run_low(leg):
    """the highest CSeq the B2BUA has certainly seen from this peer"""
    if leg.role == 'uac': return max([leg.invite.cseq[0]] + [h[2] for h in leg.hist if h[1] == 'seen'])
    return max([h[2] for h in leg.hist if h[1] == 'seen'] or [-1])
def unknown(run, c, leg):
    rng = run.rng
    meth = rng.choice(['INFO', 'BYE', 'INVITE', 'OPTIONS'])
    m = leg.mkreq(meth, b'', cseq = leg.lcseq + rng.choice([0, 1, 5]))
    k = rng.randrange(4)
    if k == 0: m.set('to', m.h('to').replace('tag=' + leg.rtag, 'tag=' + leg.rtag[:-1]))
    elif k == 1: m.set('from', m.h('from').replace('tag=' + leg.ltag, 'tag=' + leg.ltag + 'x'))
    elif k == 2: m.set('call-id', m.h('call-id')[:-1])
    else: m.set('call-id', 'other' + m.h('call-id'))
    send(run, c, leg, m, 'unknown', 481)
def other(run, c, leg):
    """a request the B2BUA has no use for"""
    m = leg.mkreq(run.rng.choice(['MESSAGE', 'UPDATE', 'NOTIFY', 'SUBSCRIBE', 'PUBLISH', 'FOO']), run.rng.choice([b'', b'x=1\r\n']), 'text/plain')
    send(run, c, leg, m, 'other', None)
def send(run, c, leg, m, kind, want):
    from peers import CTxn
    def cb(resp, tx):
        if resp is not None and resp.code < 200: return
        c.inj.append((kind, m, want, resp, run.sim.now))
    CTxn(leg.peer, m, leg.nexthop(), cb, leg.peer.addr).start()
    c.sent.append((kind, m))

def case(seed, R, tier):
    run = scen.Run(seed, PROF)
    rng = run.rng
    for c in run.plans:
        c.inj, c.sent = [], []
        for _ in range(rng.choice([0, 1, 2])):
            c.mids.append((rng.uniform(.3, 30), rng.choice('AB'), rng.choice([stale, unknown, stale, unknown, refresh, other, other]), 0))
        c.hang = (c.hang[0], max(c.hang[1], rng.choice([1, 5, 40])))
    import peers
    CT = peers.CTxn
    orig = CT.recv
    def recv(self, resp):
        # what the B2BUA has certainly seen: requests it has answered finally
        if resp.code >= 200 and self.final is None:
            for l in self.peer.legs:
                if l.callid == self.req.callid and l.ltag == self.req.ftag and self.req.method not in ('CANCEL',) and (resp.code not in (481, 500)): l.log('seen', self.req.cseq[0])
        return orig(self, resp)
    CT.recv = recv
    try: run.run()
    finally: CT.recv = orig
    for c in run.plans: judge(run, c, R)
    for p in run.peers.values(): strays(run, p, R)
    for p in run.callees.values(): strays(run, p, R)
    run.internal(R)
    if run.plans: R.sample(run.brief(run.plans[0]))
    run.close()

def strays(run, p, R):
    bad = [m for t, m in p.stray if not (m.method == 'ACK')]
    R.check(not bad, '%s received %s for no dialog it knows' % (p.addr, [(m.method, m.callid) for m in bad]), 'request outside any dialog', lambda: [run.story(c) for c in run.plans[:2]])

def judge(run, c, R):
    det = lambda: run.story(c)
    if c.arr is None: return
    legs = [c.leg] + [l for r in c.routes for l in r.legs]
    for l in legs:
        R.check(not l.errors, '%s of %s: %s' % (l.role, l.peer.addr[0], '; '.join(l.errors[:3])), 'identity', lambda: dict(run.story(c), rr = l.rr))
        if 'moved' in l.app:
            R.count('moved')
            bad = [x for x in l.stale_target if x[0] > l.app['moved'] + 33]
            R.check(not bad, '%s sent to %s although the peer has moved to %s' % ((bad[0][1:] if bad else ('', '')) + (l.contact_uri,)), 'target refresh', det)
        rx = [h[2] for h in l.hist if h[1] == 'rx']
        R.count('requests judged', len(rx) + len(l.acks))
        R.count('ACK judged', len(l.acks))
        if l.rr: R.count('with routes', len(rx) + len(l.acks))
        if l.rr and ';lr' not in (l.rr if l.role == 'uac' else l.rr[::-1])[0]: R.count('strict', len(rx) + len(l.acks))
        R.ev((l.role, tuple(l.rr), tuple(rx), tuple(h[2] for h in l.hist if h[1] == 'tx')), bool(rx or l.acks))
    # ACKs to 2xx: one CSeq number and one new branch per answered INVITE
    for lt in [c] + c.att:
        last = lt.inv.cseq[0] if lt is not c else -1
        for t, m in lt.tx:
            if m.method and m.method not in ('ACK', 'CANCEL') and m.ttag is not None:
                R.check(m.cseq[0] > last, '%s with CSeq %d after %d' % (m.method, m.cseq[0], last), 'cseq', det)
                R.check(m.cseq[1] == m.method, '%s with CSeq method %s' % (m.method, m.cseq[1]), 'cseq method', det)
                last = max(last, m.cseq[0])
        inv = {}
        for t, m in lt.tx:
            if m.method == 'INVITE': inv[m.cseq[0]] = m
        for t, m in lt.tx:
            if m.method == 'ACK':
                i = inv.get(m.cseq[0])
                if R.check(i is not None, 'ACK with CSeq %d, no INVITE has that' % m.cseq[0], 'ack cseq', det):
                    ok = [r for tt, r in lt.rx if r.code and r.cseq == i.cseq and 200 <= r.code < 300 and tt <= t + EPS]
                    if ok: R.check(m.branch != i.branch, 'ACK to a 2xx with the branch of the INVITE', 'ack branch', det)
    for kind, m, want, resp, t in c.inj:
        if resp is None: continue
        rtimes = [tt for tt, mm in run.firsts(run.rx.get(m.callid, [])) if mm.method == m.method and mm.branch == m.branch]
        if not rtimes: continue
        ta = rtimes[0]
        if kind == 'stale':
            # a dialog that has ended in the meantime answers 481 or nothing
            over = [x for lt in [c] + c.att for x, q in lt.byetx + lt.byerx if x < ta + EPS]
            if over: continue
        R.count(kind)
        if kind == 'other':
            R.check(400 <= resp.code < 600, '%s answered %d' % (m.method, resp.code), kind, lambda: dict(det(), injected = m.enc().decode()))
            R.check(any(p.src == run.w.addr and abs(p.t - ta) < 1e-3 and S.parse(p.data).code and S.parse(p.data).branch == m.branch for p in run.sim.wire), 'the first copy of a %s inside the call is not answered' % m.method, 'silent', lambda: dict(det(), injected = m.enc().decode()))
        else: R.check(resp.code == want, '%s %s answered %d, expected %d' % (kind, m.method, resp.code, want), kind, lambda: dict(det(), injected = m.enc().decode()))
        # no effect: nothing else leaves the B2BUA for this call on that occasion
        for lt in [c] + c.att:
            for tt, q in lt.tx:
                if abs(tt - ta) < 1e-6 and not (q.code and q.branch == m.branch) and not any(abs(x - ta) < 1e-6 and not (y.method == m.method and y.branch == m.branch) for l2 in [c] + c.att for x, y in l2.rx) and tt not in c.adm:
                    R.fail('%s %s made the B2BUA send %s' % (kind, m.method, q.method or q.code), kind + ' effect', dict(det(), injected = m.enc().decode()))
