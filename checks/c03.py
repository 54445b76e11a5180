"""C03: server transactions: once-only delivery, replayed answers, final-response retransmission, missing ACK."""
import random
import siplite as S
from tmworld import *
RULE = 'seeded batches of 1-3 concurrent incoming requests (any method), each received several times at random instants, answered by the application at scheduled times with provisional and final responses, ACKed (same branch for negative, fresh branch for 2xx), ACKed late or never; deliveries to the application, every datagram sent back and the ack / no-ack callbacks are compared with an RFC model. Distinct by method, answer schedule, repetition pattern and ACK behaviour.'
N = {'quick': 16000, 'thorough': 60000}
NEED = {'repeats': 1000, 'acked': 100, 'noack': 100, 'given up': 100, 'repeated provisional': 1000, 'replays': 500}
EPS = 1e-4
METHODS = ['INVITE', 'INVITE', 'INVITE', 'BYE', 'OPTIONS', 'INFO', 'REGISTER', 'MESSAGE', 'SUBSCRIBE', 'REFER']

def times_fin(t): return t.answers[-1][0]

def case(seed, R, tier):
    rng = random.Random(seed)
    calls = []
    by = {}
    def req_cb(req, st):
        cid = str(req.getHFBody('call-id'))
        t = by[cid]
        t.app.append(sim.now)
        t.req, t.st = req, st
        st.ack_missing = None
        if t.method == 'INVITE' or t.later:
            for dt, code in t.answers: sim.after(dt, answer, t, code)
            if t.method == 'INVITE' and t.immediate:
                r = req.genResponse(t.immediate, 'Now')
                note(t, t.immediate)
                return (r, t.cancel, t.noack)
            return (None, t.cancel, t.noack)
        note(t, t.answers[-1][1])
        return (req.genResponse(t.answers[-1][1], 'Direct'), None, None)
    def note(t, code):
        t.sent.append((sim.now, code))
        if code >= 200: t.tfin = sim.now
    def answer(t, code):
        if t.cancels: return        # the application has been told that the request is over
        r = t.req.genResponse(code, 'Later', body = MsgBody('v=0\r\n') if rng.random() < .3 else None)
        if t.useack and code >= 200:
            tm.sendResponse(r, ack_cb = t.ackcb)
        else: tm.sendResponse(r)
        note(t, code)
    w = TmWorld(seed, req_cb)
    sim, tm = w.sim, w.tm
    sim.default_link.delay = (0, 0)
    again = rng.choice([0, 0, 0, 2, 7, 60])     # provisional answers repeated every so many seconds
    if again: tm.provisional_retr = again; R.count('provisional repetition')
    class T: pass
    ts = []
    for i in range(rng.randrange(1, 4)):
        t = T()
        t.src = ('10.0.1.%d' % (i + 1), rng.choice([5060, 5061]))
        t.app, t.sent, t.tfin = [], [], None
        t.acks, t.noacks, t.cancels = [], [], []
        def cancelled(rt, rq, t = t):
            t.cancels.append(sim.now)
            note(t, 487)
        t.cancel = cancelled
        t.noack = lambda t = t: t.noacks.append(sim.now)
        t.ackcb = lambda rq, t = t: t.acks.append(sim.now)
        t.method = rng.choice(METHODS)
        t.later = rng.random() < .5
        t.useack = rng.random() < .6
        t.immediate = None
        nprov = rng.choice([0, 1, 2, 4])
        times = sorted(rng.choice([rng.uniform(0, 2), rng.uniform(0, 100)]) for _ in range(nprov + 1))
        t.answers = [(x, rng.choice([100, 180, 183, 199])) for x in times[:-1]] + [(times[-1], rng.choice([200, 200, 202, 302, 401, 404, 486, 500, 603]))]
        if rng.random() < .2: t.immediate = rng.choice([100, 180])
        via = 'SIP/2.0/UDP %s:%d;branch=z9hG4bK%x%s' % (t.src[0], t.src[1], rng.getrandbits(50), rng.choice(['', ';rport']))
        t.branch_via = via
        m = S.request(t.method, 'sip:svc@10.0.0.1', [('via', via)] + ([('via', 'SIP/2.0/UDP 10.7.7.7;branch=z9hG4bKq%d' % i)] if rng.random() < .2 else []) +
                      [('max-forwards', '70'), ('from', '"A" <sip:a@10.0.1.1>;tag=f%d' % i), ('to', '<sip:svc@10.0.0.1>' + rng.choice(['', ';tag=dlg'])), ('call-id', 'k%d-%x' % (i, rng.getrandbits(40))),
                       ('cseq', '%d %s' % (rng.randrange(1, 1000), t.method)), ('contact', '<sip:a@%s:%d>' % t.src)])
        t.m, t.data = m, m.enc()
        by[m.callid] = t
        t.t0 = sim.now + rng.uniform(0, 40)
        fin = t.t0 + times[-1] if (t.method == 'INVITE' or t.later) else t.t0
        t.expires = t.canat = None
        if t.method == 'INVITE' and rng.random() < .4:
            # given up by the caller, or not answered in the time it has set
            if rng.random() < .5:
                t.expires = rng.choice([1, 2, 5, 20])
                m.add('expires', str(t.expires))
                t.data = m.enc()
            if rng.random() < .6: t.canat = t.t0 + rng.choice([rng.uniform(.001, 2), rng.uniform(0, 30)])
        t.ends = [x for x in (t.expires and t.t0 + t.expires, t.canat) if x is not None]
        t.given_up = bool(t.ends) and min(t.ends) < fin
        if t.given_up: fin = min(t.ends)
        t.arr = [t.t0]
        for _ in range(rng.choice([0, 1, 3, 6])):
            k = rng.randrange(3)
            x = rng.uniform(t.t0, fin) if k == 0 else fin + rng.uniform(0, 31.8) if k == 1 else t.t0 + rng.choice([0.5, 1.5, 3.5, 0.0005])
            if x < fin + 31.8: t.arr.append(x)
        t.arr.sort()
        t.ackat = None
        if t.method == 'INVITE':
            k = rng.randrange(4)
            t.ackat = None if k == 0 else fin + rng.choice([0.001, 0.4, rng.uniform(0, 31.9), rng.uniform(0, 5)]) if k < 3 else fin + rng.uniform(32.1, 60)
        t.ackrep = rng.random() < .4
        def rx(d, s, t = t): pass
        sim.bind(t.src, rx)
        for x in t.arr: sim.at(x, sim.send, t.src, w.addr, t.data)
        if t.canat is not None:
            cm = S.request('CANCEL', m.uri, [('via', m.h('via')), ('max-forwards', '70'), ('from', m.h('from')), ('to', m.h('to')), ('call-id', m.callid), ('cseq', '%d CANCEL' % m.cseq[0])])
            sim.at(t.canat, sim.send, t.src, w.addr, cm.enc())
        ts.append(t)
        if t.ackat is not None:
            def ack(t = t):
                d = [p for p in sim.wire if p.src == w.addr and p.dst == t.src and S.parse(p.data).code >= 200 and S.parse(p.data).cseq[1] == 'INVITE']
                if not d: return
                fr = S.parse(d[-1].data)
                t.ackt = sim.now
                v = t.branch_via if fr.code >= 300 else t.branch_via.replace('z9hG4bK', 'z9hG4bKack')
                a = S.request('ACK', 'sip:svc@10.0.0.1', [('via', v), ('max-forwards', '70'), ('from', t.m.h('from')), ('to', fr.h('to')), ('call-id', t.m.callid), ('cseq', '%d ACK' % t.m.cseq[0])])
                sim.send(t.src, w.addr, a.enc())
                if t.ackrep:
                    sim.after(0.2, sim.send, t.src, w.addr, a.enc()); sim.after(2, sim.send, t.src, w.addr, a.enc())
            sim.at(t.ackat, ack)
    w.run(320)
    for t in ts:
        out = [p for p in sim.wire if p.src == w.addr and S.parse(p.data).callid == t.m.callid]
        can = [p for p in out if S.parse(p.data).cseq[1] == 'CANCEL']
        out = [p for p in out if S.parse(p.data).cseq[1] != 'CANCEL']
        det = lambda: {'method': t.method, 'arrivals': [round(x - t.t0, 4) for x in t.arr], 'answers': [(round(a - t.t0, 4), c) for a, c in t.sent], 'ack': t.ackat and round(t.ackat - t.t0, 4),
                       'sent': [(round(p.t - t.t0, 4), p.dst, p.data[:40].decode()) for p in out], 'app': len(t.app), 'acks': len(t.acks), 'noacks': len(t.noacks)}
        R.ev((t.method, t.later, t.immediate, tuple(c for _, c in t.sent), t.expires, t.canat and t.given_up, len(t.arr), None if t.ackat is None else t.ackat - t.tfin > 32, t.useack))
        if not R.check(len(t.app) == 1, 'a %s received %d times was handed to the application %d times' % (t.method, len(t.arr), len(t.app)), 'delivered', det): continue
        R.count('repeats', len(t.arr) - 1)
        acked = t.ackat is not None and t.ackat < t.tfin + 32
        evs = [(x, 'answer', c) for x, c in t.sent] + [(x, 'dup', None) for x in t.arr[1:]]
        if t.method == 'INVITE':
            x, k = 0.5, t.tfin + 0.5
            while k < t.tfin + 32 and not (acked and k > t.ackat):
                evs.append((k, 'rtx', None)); x *= 2; k += x
        tf, tie = None, False
        for x, c in t.sent:
            while again and tf is not None and tf < x: evs.append((tf, 'rep', None)); tf += again; R.count('repeated provisional')
            tie = tie or (tf is not None and abs(tf - x) < 2e-4)
            if c >= 200: break
            if c > 100: tf = x + again
        evs.sort(key = lambda e: e[0])
        exp = []
        last = None
        for e in evs:
            if e[1] == 'answer':
                last = e[2]; exp.append((e[0], e[2]))
            elif last is not None:
                exp.append((e[0], last))
                if e[1] == 'dup': R.count('replays')
        got = [(p.t, S.parse(p.data).code) for p in out]
        close = tie or (len(t.ends) and t.canat is not None and abs(t.canat - (t.t0 + times_fin(t))) < 2e-4) or any(abs(a[0] - b[0]) < 2e-4 for a, b in zip(evs, evs[1:])) or (acked and any(abs(t.ackat - e[0]) < 2e-4 for e in evs))
        if not close:
            R.check(len(got) == len(exp) and all(abs(a[0] - b[0]) < EPS and a[1] == b[1] for a, b in zip(got, exp)),
                    'responses sent %s, expected %s' % ([(round(a - t.t0, 3), c) for a, c in got], [(round(a - t.t0, 3), c) for a, c in exp]), 'responses', det)
            cur = None
            for p in out:
                c = S.parse(p.data).code
                if cur is not None and cur[0] == c and len([1 for _, x in t.sent if x == c]) == 1:
                    R.check(cur[1] == p.data, 'a repeated %d response differs from the first' % c, 'replay bytes', det)
                cur = (c, p.data)
        R.check(all(p.dst == t.src for p in out), 'response sent to %s instead of %s' % ([p.dst for p in out], t.src), 'dest', det)
        finals = set(p.data for p in out if S.parse(p.data).code >= 200)
        R.check(len(finals) == 1, '%d different final responses' % len(finals), 'finals', det)
        if t.method == 'INVITE':
            R.count('acked' if acked else 'noack')
            if acked:
                R.check(not t.noacks, 'application told the ACK is missing although it arrived', 'noack wrong', det)
                if t.useack and not t.given_up: R.check(len(t.acks) == 1 and abs(t.acks[0] - t.ackat) < EPS, 'ACK reported %d times' % len(t.acks), 'ack cb', det)
            else:
                R.check(len(t.noacks) == 1 and abs(t.noacks[0] - t.tfin - 32) < 0.01, 'missing ACK reported %s, expected once 32 s after the answer' % [round(x - t.tfin, 3) for x in t.noacks], 'noack', det)
                R.check(not t.acks, 'an ACK was reported that came too late or never', 'ack cb late', det)
        if t.given_up:
            R.count('given up')
            R.check(len(t.cancels) == 1 and abs(t.cancels[0] - min(t.ends)) < EPS, 'the application was told at %s that the request is over, expected once at %.4f' % ([round(x - t.t0, 4) for x in t.cancels], min(t.ends) - t.t0), 'cancel cb', det)
        else: R.check(not t.cancels, 'cancellation reported for an INVITE that was answered', 'cancel', det)
        if t.canat is not None: R.check(len(can) == 1, 'CANCEL answered by %s' % [p.data[:20] for p in can], 'cancel answer', det)
    if hasattr(tm, 'tserver'): R.check(len(tm.tserver) == 0, 'server transaction table not empty at the end: %d' % len(tm.tserver), 'left over')
    R.check(not vsim.Internal.log, 'internal exception: %s' % (vsim.Internal.log[:1],), 'internal exception')
    t = ts[0]
    R.sample('%s received at %s, answered %s, ACK %s' % (t.method, [round(x - t.t0, 2) for x in t.arr], [(round(x - t.t0, 2), c) for x, c in t.sent], t.ackat and round(t.ackat - t.t0, 2)))
    w.close()
