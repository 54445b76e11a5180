"""C24: model of a call's two session descriptions, run over the datagrams in and out of the B2BUA
For every mid-call INVITE and INFO that reached the B2BUA the model says what must leave it, where and with which body; everything that did leave is compared with that."""
import re
import scen, siplite as S
from scen import EPS
RULE = 'seeded whole-call scenarios with 1-6 re-INVITEs (changed, unchanged, hold, without description, refused, redirected, slow, with provisional answers) and INFOs from both sides, crossing each other, with losses and releases. Distinct by the sequence of mid-call events and the model state in which they arrived.'
N = {'quick': 2500, 'thorough': 50000}
NEED = {'relayed': 1500, 'unchanged': 250, 'crossed': 60, 'refused': 250, 'INFO relayed': 500, 'provisional': 150, 'without description': 80}
PROF = dict(calls = (1, 2), routes = (1, 1), p_reinv = .9, p_info = .6, p_cancel = 0, p_limits = 0, p_credit = .05, p_refuse_auth = 0, p_hs = 0, p_fof = 0, p_late = .15, static = .1, p_silent = .5, p_nofinal = 0, p_deadhost = 0,
            p_noack = .02, p_vanish = .01, re_slow = True, re_codes = [488, 403, 415, 500, 302, 301, 300, 603, 491, 487], maxcredit = .02)

def hold(body):
    return re.sub(rb'(?m)^c=IN IP4 \S+', b'c=IN IP4 0.0.0.0', body)
def canon(b):
    # the order of session and media level connection lines is not at stake here
    return sorted(l for l in b.replace(b'\r\n', b'\n').split(b'\n') if l and not l.startswith(b'c='))

def judge(run, c, R):
    det = lambda: dict(run.story(c), model = log)
    log = []
    conn = run.connected(c) if c.arr is not None else []
    if not conn or run.blurred(c): return
    a = conn[0]
    T0 = c.fin[0]
    ends = [t for l in (c, a) for t, m in l.byetx + l.byerx]
    ends += [t for t, w, who in run.causes(c) if t > T0 + EPS and w in ('bye', 'admin', 'credit', 'noack', 'reinvite refused', 'reinvite timeout')]
    E = min(ends) if ends else run.sim.now
    other = {c: a, a: c}
    name = {c: 'caller', a: 'callee'}
    rs = {c: c.leg.invite.body, a: a.fin[1].body}
    ls = {c: c.fin[1].body, a: c.leg.invite.body}
    ack_pend = bool(c.late and a.fin[1].body)
    upd = {c: None, a: None}        # ('uas', the INVITE) / ('uac', body)
    prev = {}
    expout = {c: [], a: []}         # (t, kind, body) INVITE/INFO that must have been sent
    evs = []
    for l in (c, a):
        for t, m in l.rx:
            if T0 + 1e-9 < t < E - EPS or (m.method == 'ACK' and abs(t - T0) <= 1e-9): evs.append((t, l, m))
    evs.sort(key = lambda e: e[0])
    for (t1, l1, m1), (t2, l2, m2) in zip(evs, evs[1:]):
        if l1 is not l2 and t2 - t1 < 1e-9: return           # arrived at the same instant: the order is not on the wire
    def sent(l, t, pred):
        return [m for tt, m in l.tx if abs(tt - t) < 1e-6 and pred(m)]
    def resp(l, t, req, code, body, why):
        got = sent(l, t, lambda m: m.code and m.code > 100 and m.branch == req.branch and m.cseq == req.cseq)
        R.check(any(m.code == code for m in got), '%s at %.3f: the %s got %s, expected %d' % (why, t - run.sim.t0, name[l], [m.code for m in got], code), why, det)
        if code == 200 and req.method == 'INVITE':
            m = [m for m in got if m.code == code]
            if m: R.check(len(m[0].hs('contact')) == 1 and '10.0.0.1' in m[0].h('contact'), '%s at %.3f: answered 200 with Contact %s' % (why, t - run.sim.t0, m[0].hs('contact')), 'contact', det)
            if m: R.check(m[0].body == body, '%s at %.3f: the %s got another description than the other side\'s' % (why, t - run.sim.t0, name[l]), why + ' body', lambda: dict(det(), got = m[0].body.decode(), expected = (body or b'').decode()))
    for t, l, m in evs:
        y = other[l]
        if m.method == 'ACK' and l is c and ack_pend and m.cseq[0] == c.leg.invite.cseq[0]:
            ack_pend = False
            rs[c], ls[a] = m.body, m.body
        elif m.method == 'INVITE' and m.ttag is not None:
            if m.cseq in [q.cseq for tt, q in l.rx if q.method and tt < t]: continue
            st = (bool(upd[l]), m.body == rs[l], bool(m.body), ack_pend)
            R.ev((name[l],) + st + (len(log),))
            log.append('%.3f INVITE from the %s %s' % (t - run.sim.t0, name[l], st))
            if any(q.cseq[0] >= m.cseq[0] and q.method not in (None, 'ACK', 'CANCEL') for tt, q in l.rx if q.method and tt < t): continue        # overtaken: refused as stale (C23)
            if ack_pend and l is a: return
            if upd[l] or ack_pend:
                R.count('crossed')
                resp(l, t, m, 491, None, 'crossing re-INVITE')
            elif m.body and m.body == rs[l]:
                R.count('unchanged')
                resp(l, t, m, 200, ls[l], 'unchanged re-INVITE')
            else:
                b = m.body
                if not b:
                    R.count('without description')
                    q = sent(y, t, lambda m: m.method == 'INVITE')
                    if not q and ls[y] and canon(ls[y]) == canon(rs[l]) and hold(ls[y]) == ls[y]:
                        # that side is on hold already
                        R.count('already known')
                        rs[l] = ls[y]
                        resp(l, t, m, 200, rs[y], 'description already known')
                        ls[l] = rs[y]
                        continue
                    if not R.check(len(q) == 1 and canon(q[0].body) == canon(rs[l]) and hold(q[0].body) == q[0].body, 're-INVITE without a description from the %s at %.3f was not relayed as a hold' % (name[l], t - run.sim.t0), 'hold', det): return
                    b = q[0].body
                prev[l] = rs[l]
                rs[l] = b
                if b == ls[y]:
                    R.count('already known')
                    resp(l, t, m, 200, rs[y], 'description already known')
                    ls[l] = rs[y]
                    continue
                upd[l], upd[y] = ('uas', m), ('uac', b)
                prev[y] = ls[y]
                ls[y] = b
                expout[y].append((t, 'INVITE', b))
                R.count('relayed')
                q = sent(y, t, lambda m: m.method == 'INVITE')
                if not R.check(len(q) == 1 and q[0].body == b, 'changed re-INVITE from the %s at %.3f was not relayed' % (name[l], t - run.sim.t0), 'relay', det): return
                mf = int(m.h('max-forwards'))
                R.check(q[0].hs('max-forwards') == [str(mf - 1)], 'a re-INVITE with Max-Forwards %d from the %s was relayed with %s' % (mf, name[l], q[0].hs('max-forwards')), 'max-forwards', det)
                upd[y] = ('uac', b, q[0])
        elif m.code and upd[l] and upd[l][0] == 'uac' and m.cseq == upd[l][2].cseq:
            log.append('%.3f %d from the %s' % (t - run.sim.t0, m.code, name[l]))
            req = upd[y][1]
            if m.code < 200:
                if m.code > 100:
                    R.count('provisional')
                    got = sent(y, t, lambda q: q.code == m.code and q.branch == req.branch)
                    R.check(len(got) == 1 and got[0].body == m.body, 'provisional answer %d to a re-INVITE was not relayed' % m.code, 're provisional', det)
                continue
            if m.code < 300:
                rs[l] = m.body
                ls[y] = m.body
                upd[l] = upd[y] = None
                resp(y, t, req, 200, m.body, 'accepted change')
                R.count('accepted')
            else:
                ls[l] = prev[l]
                rs[y] = prev[y]
                upd[l] = upd[y] = None
                R.count('refused')
                resp(y, t, req, m.code, None, 'refused change')
        elif m.method == 'INFO':
            if m.cseq in [q.cseq for tt, q in l.rx if q.method and tt < t]: continue
            if any(q.cseq[0] >= m.cseq[0] and q.method not in (None, 'ACK', 'CANCEL') for tt, q in l.rx if q.method and tt < t): continue
            R.ev((name[l], 'INFO', bool(upd[l]), len(log)))
            if upd[l] or ack_pend:
                # a change is in progress: nothing is promised but that it is not relayed twice
                R.count('INFO during a change')
                expout[y].append((t, 'INFO?', m.body))
                continue
            resp(l, t, m, 200, None, 'INFO')
            q = sent(y, t, lambda m: m.method == 'INFO')
            if R.check(len(q) == 1 and q[0].body == m.body and q[0].h('content-type') == m.h('content-type'), 'INFO from the %s at %.3f was relayed as %s' % (name[l], t - run.sim.t0, [(x.body, x.h('content-type')) for x in q]), 'INFO relay', det): R.count('INFO relayed')
            expout[y].append((t, 'INFO', m.body))
    # nothing else
    for l in (c, a):
        got = [(t, m) for t, m in l.tx if m.method in ('INVITE', 'INFO') and m.ttag is not None and T0 + 1e-9 < t < E - EPS]
        for t, m in got:
            ok = [e for e in expout[l] if abs(e[0] - t) < 1e-6 and e[1].rstrip('?') == m.method] or (m.method == 'INVITE' and not m.body) or [1 for tt, ll, q in evs if abs(tt - t) < 1e-6 and q.method == 'INVITE' and not q.body]
            R.check(bool(ok), '%s sent to the %s at %.3f for no reason' % (m.method, name[l], t - run.sim.t0), 'unexplained ' + m.method, det)
        # refused or not, the call stays up: no BYE before its time
        R.check(not [t for t, m in l.byetx if t < E - EPS], 'call released', 'released', det)
    R.check(all(t > E - EPS for l in (c, a) for t, m in l.byetx), 'call released without a cause', 'released', det)

def case(seed, R, tier):
    run = scen.Run(seed, PROF)
    rng = run.rng
    for c in run.plans:
        n = rng.choice([1, 2, 4, 6])
        base = rng.uniform(.05, 20)
        for _ in range(n):
            t = base + rng.choice([rng.uniform(0, 1), rng.uniform(0, 4), rng.uniform(0, 20)])
            c.mids.append((t, rng.choice('AB'), rng.choice(['re', 're', 'same', 'hold', 'ref', 'none', 'info']), 0))
        c.mids.sort(key = lambda x: x[0])
        c.hang = (c.hang[0], max(c.hang[1], rng.choice([5, 20, 60])))
        r = c.routes[0]
        r.credit = r.expires = None
        r.beh.fin = ('ok', rng.uniform(0, 2), 200)
    run.P['on_start'] = lambda r, c: c.leg.app.__setitem__('maxf', rng.choice([70, 70, 69, 10, 2]))
    run.run()
    for c in run.plans: judge(run, c, R)
    run.internal(R)
    if run.plans: R.sample(run.brief(run.plans[0]))
    run.close()
