"""C04: cancellation, incoming and outgoing, at the transaction layer."""
import random
import siplite as S
from tmworld import *
RULE = 'seeded (a) incoming INVITEs with CANCELs before, between and after the answers, repeated, without matching INVITE, or expiring by their Expires header; (b) outgoing INVITEs abandoned by the application at random instants relative to their provisional and final answers. Answers, callbacks and generated CANCELs on the wire are compared with an RFC model. Distinct by role, relative order of events and codes.'
N = {'quick': 16000, 'thorough': 60000}
NEED = {'cancelled in': 100, 'late cancel': 50, 'unknown': 30, 'expired': 30, 'cancel sent': 100, 'cancel deferred': 50, 'cancel never': 30}
EPS = 1e-4

def uas(seed, rng, R):
    by = {}
    def req_cb(req, st):
        t = by[str(req.getHFBody('call-id'))]
        t.app.append((sim.now, req.getMethod()))
        t.req = req
        if req.getMethod() != 'INVITE': return (req.genResponse(200, 'OK'), None, None)
        for dt, code in t.answers: sim.after(dt, answer, t, code)
        return (req.genResponse(100, 'Trying'), lambda rt, rq: t.cancels.append((sim.now, rq is not None)), lambda: t.noacks.append(sim.now))
    def answer(t, code):
        if t.cancels: return
        tm.sendResponse(t.req.genResponse(code, 'R'))
        t.sent.append((sim.now, code))
    w = TmWorld(seed, req_cb)
    sim, tm = w.sim, w.tm
    sim.default_link.delay = (0, 0)
    class T: pass
    ts = []
    for i in range(rng.randrange(1, 4)):
        t = T()
        t.src = ('10.0.1.%d' % (i + 1), 5060)
        t.app, t.sent, t.cancels, t.noacks = [], [], [], []
        t.exp = rng.choice([None, None, 30, 180, 0])
        life = t.exp or 300
        t.t0 = sim.now + rng.uniform(0, 30)
        t.answers = [(rng.uniform(0.01, 60), 180) for _ in range(rng.choice([0, 1]))]
        t.fin = rng.uniform(0.05, min(life - 0.1, 100)) if rng.random() < .6 else None
        if t.fin: t.answers = [a for a in t.answers if a[0] < t.fin] + [(t.fin, rng.choice([200, 486, 404]))]
        via = 'SIP/2.0/UDP %s:%d;branch=z9hG4bK%x' % (t.src[0], t.src[1], rng.getrandbits(50))
        hd = [('via', via), ('max-forwards', '70'), ('from', '<sip:a@10.0.1.1>;tag=f%d' % i), ('to', '<sip:svc@10.0.0.1>'), ('call-id', 'k%d-%x' % (i, rng.getrandbits(40))), ('cseq', '%d INVITE' % rng.randrange(1, 1000))]
        m = S.request('INVITE', 'sip:svc@10.0.0.1', hd + [('contact', '<sip:a@%s:%d>' % t.src)] + ([('expires', str(t.exp))] if t.exp is not None else []))
        t.m = m
        by[m.callid] = t
        t.unknown = rng.random() < .15
        if not t.unknown: sim.at(t.t0, sim.send, t.src, w.addr, m.enc())
        t.tc = None
        if rng.random() < .75 or t.unknown:
            t.tc = t.t0 + rng.choice([0.002, rng.uniform(0.01, 60), rng.uniform(0.01, min(life - 0.05, 110)), (t.fin or 5) + rng.choice([-0.004, 0.004, 1, 10, 30])])
            if t.tc < t.t0 + 0.001: t.tc = t.t0 + 0.001
            c = S.request('CANCEL', 'sip:svc@10.0.0.1', [(n, v if n != 'cseq' else v.replace('INVITE', 'CANCEL')) for n, v in hd])
            if rng.random() < .3: c.add('reason', 'SIP;cause=487')
            t.cdata = c.enc()
            t.crep = [rng.uniform(0.01, 20) for _ in range(rng.choice([0, 0, 2]))]
            sim.at(t.tc, sim.send, t.src, w.addr, t.cdata)
            for d in t.crep: sim.at(t.tc + d, sim.send, t.src, w.addr, t.cdata)
        def rx(d, s, t = t):
            r = S.parse(d)
            if r.code >= 200 and r.cseq[1] == 'INVITE' and not getattr(t, 'noackmode', False):
                a = S.request('ACK', 'sip:svc@10.0.0.1', [('via', via_of(t, r)), ('max-forwards', '70'), ('from', t.m.h('from')), ('to', r.h('to')), ('call-id', t.m.callid), ('cseq', '%d ACK' % t.m.cseq[0])])
                sim.after(rng.uniform(31.0, 31.4) if t.slowack else 0.01, sim.send, t.src, w.addr, a.enc())
        t.slowack = rng.random() < .3
        sim.bind(t.src, rx)
        ts.append(t)
    def via_of(t, r): return t.m.h('via') if r.code >= 300 else t.m.h('via').replace('z9hG4bK', 'z9hG4bKa')
    w.run(420)
    for t in ts:
        out = [(p.t, S.parse(p.data)) for p in sim.wire if p.src == w.addr and p.dst == t.src]
        inv = [(a, m) for a, m in out if m.cseq[1] == 'INVITE']
        can = [(a, m) for a, m in out if m.cseq[1] == 'CANCEL']
        det = lambda: {'expires': t.exp, 'answers': t.answers, 'cancel': t.tc and round(t.tc - t.t0, 4), 'unknown': t.unknown, 'out': [(round(a - t.t0, 4), m.code, m.cseq[1]) for a, m in out], 'cancels': [round(c[0] - t.t0, 3) for c in t.cancels]}
        codes = []
        for a, m in inv:
            if m.code >= 200 and (not codes or codes[-1] != m.code): codes.append(m.code)
        fin = t.t0 + t.fin if t.fin else None
        R.ev(('uas', t.unknown, t.exp, t.tc and (fin is None or t.tc < fin), fin and t.answers[-1][1], len(t.sent), t.tc and len(t.crep)))
        R.check([x for x in t.app if x[1] == 'CANCEL'] == [], 'CANCEL handed to the application as a request', 'cancel as request', det)
        if t.tc is not None:
            ntc = 1 + len(t.crep)
            R.check(len(can) == ntc, 'CANCEL received %d times, answered %d times' % (ntc, len(can)), 'cancel answers', det)
            ec = 481 if t.unknown else 200
            life_end = (fin + 32) if fin else None
            # after the final answer was ACKed the transaction is gone: 481 is then right as well; a non-2xx/2xx still pending its ACK gets 200
            late = t.tc > (fin or t.t0 + (t.exp or 300))
            if late: R.check(all(m.code in (200, 481) for a, m in can), 'late CANCEL answered %s' % [m.code for a, m in can], 'late cancel code', det)
            else: R.check(all(m.code == ec for a, m in can), 'CANCEL answered %s, expected %d' % ([m.code for a, m in can], ec), 'cancel code', det)
        if t.unknown:
            R.count('unknown')
            R.check(not inv and not t.cancels and not t.app, 'CANCEL without INVITE had an effect', 'unknown effect', det); continue
        pend_end = t.t0 + (t.exp or 300)
        if t.tc is not None and (fin is None or t.tc < fin) and t.tc < pend_end:
            R.count('cancelled in')
            R.check(codes == [487], 'cancelled INVITE answered finally with %s' % codes, 'cancel 487', det)
            R.check(len(t.cancels) == 1 and abs(t.cancels[0][0] - t.tc) < EPS, 'cancellation reported %d times' % len(t.cancels), 'cancel cb', det)
            f = [a for a, m in inv if m.code == 487]
            R.check(f and abs(f[0] - t.tc) < EPS, '487 sent at %s, CANCEL came at %s' % (f and f[0] - t.t0, t.tc - t.t0), '487 time', det)
        elif fin is not None:
            if t.tc: R.count('late cancel')
            R.check(codes == [t.answers[-1][1]], 'INVITE answered %s, the application answered %d' % (codes, t.answers[-1][1]), 'answer kept', det)
            R.check(not t.cancels, 'late CANCEL reported to the application', 'late cancel cb', det)
        else:
            R.count('expired')
            R.check(codes == [487] and abs([a for a, m in inv if m.code == 487][0] - pend_end) < 0.01, 'unanswered INVITE (Expires %s): finals %s' % (t.exp, codes), 'expiry', det)
            R.check(len(t.cancels) == 1, 'expiry reported %d times' % len(t.cancels), 'expiry cb', det)
        R.check(not t.noacks, 'no-ACK reported', 'noack', det)
    R.check(not vsim.Internal.log, 'internal exception: %s' % (vsim.Internal.log[:1],), 'internal exception')
    t = ts[0]
    R.sample('incoming INVITE Expires=%s answers=%s CANCEL at %s' % (t.exp, [(round(a, 2), c) for a, c in t.answers], t.tc and round(t.tc - t.t0, 3)))
    w.close()

def uac(seed, rng, R):
    w = TmWorld(seed)
    sim, tm = w.sim, w.tm
    sim.default_link.delay = (0, 0)
    peer = ('10.0.2.1', 5060)
    class T: pass
    ts = []
    def rx(d, s):
        m = S.parse(d)
        if m.method == 'CANCEL':
            t = [x for x in ts if getattr(x, 'inv', None) is not None and x.inv.callid == m.callid][0]
            if t.cresp: sim.after(0.02, sim.send, peer, w.addr, S.response(m, t.cresp, None, 'x').enc())
            if t.then and not t.thend:
                t.thend = True
                sim.after(t.thdelay, final, t, t.then)
    sim.bind(peer, rx)
    def final(t, code):
        if t.fin: return
        t.fin = (sim.now, code)
        sim.send(peer, w.addr, S.response(t.inv, code, None, 'ft', [('contact', '<sip:x@10.0.2.1>')]).enc())
    def launch(t):
        n0 = len(sim.wire)
        t.t0 = sim.now
        t.tr = tm.newTransaction(t.req, lambda r: (t.cb.append((sim.now, r.getSCode()[0])), r.getSCode()[0] >= 200 and t.__setattr__('done', True)))
        t.inv = S.parse(sim.wire[n0].data)
        t.dst = sim.wire[n0].dst
        for dt, code in t.prov:
            sim.after(dt, lambda code = code: (not t.fin) and sim.send(peer, w.addr, S.response(t.inv, code, None, 'pt').enc()))
        if t.ft: sim.after(t.ft, final, t, t.fcode)
        sim.after(t.tc, cancel, t)
    def cancel(t):
        if t.done: return
        t.cancelled = sim.now
        tm.cancelTransaction(t.tr, extra_headers = [SipHeader(name = 'reason', bodys = t.reason)] if t.reason else None)
    for i in range(rng.randrange(1, 4)):
        t = T()
        t.cb, t.done, t.fin, t.cancelled, t.thend = [], False, None, None, False
        t.reason = rng.choice([None, 'SIP;cause=487;text="x"'])
        routes = ['<sip:10.0.2.1;lr>', '<sip:10.0.4.1;lr>'] if rng.random() < .3 else []
        t.req = w.invite('INVITE', 'u%d' % i, peer[0], peer[1], rng, body = 'v=0\r\n', routes = routes, target = peer if routes else None, totag = rng.choice([None, 'dlg']), expires = rng.choice([300, 60]))
        t.prov = sorted((rng.choice([rng.uniform(0.001, 0.4), rng.uniform(0.5, 31)]), rng.choice([100, 180, 183])) for _ in range(rng.choice([0, 1, 1, 2])))
        t.ft = rng.uniform(0.5, 50) if rng.random() < .4 else None
        t.fcode = rng.choice([200, 486, 480])
        t.tc = rng.choice([0.0, rng.uniform(0, 0.5), rng.uniform(0, 40)])
        t.cresp = rng.choice([200, 200, 481, None])
        t.then = rng.choice([487, 487, 200, 486, None])
        t.thdelay = rng.uniform(0.01, 5)
        ts.append(t)
        sim.after(rng.uniform(0, 30), launch, t)
    w.run(500)
    for t in ts:
        cs = [p for p in sim.wire if p.src == w.addr and p.data.startswith(b'CANCEL ') and S.parse(p.data).callid == t.inv.callid]
        det = lambda: {'prov': t.prov, 'final': t.fin and (t.fin[0] - t.t0, t.fin[1]), 'cancel': t.tc, 'cancels sent': [round(p.t - t.t0, 4) for p in cs], 'msg': cs and cs[0].data.decode(), 'cb': [(round(a - t.t0, 3), c) for a, c in t.cb]}
        pa = [t.t0 + a for a, c in t.prov if (t.fin is None or t.t0 + a < t.fin[0]) and a < 32 + (t.prov[0][0] if t.prov[0][0] < 32 else 0)]
        fp = pa[0] if pa and pa[0] < t.t0 + 32 else None
        exp_at = None
        if t.cancelled is not None and fp is not None:
            exp_at = max(t.cancelled, fp)
            if t.fin and t.fin[0] < exp_at: exp_at = None
        R.ev(('uac', t.cancelled is None, exp_at is None, exp_at is not None and exp_at == fp, t.fin and t.fin[1], t.cresp, bool(t.reason), len(t.prov), bool(t.inv.hs('route'))))
        if exp_at is None:
            R.count('cancel never')
            R.check(not cs, 'CANCEL sent although %s' % ('not abandoned' if t.cancelled is None else 'no provisional answer had come'), 'cancel unexpected', det); continue
        R.count('cancel sent')
        if exp_at > t.cancelled: R.count('cancel deferred')
        if not R.check(cs and abs(cs[0].t - exp_at) < EPS, 'abandoned at %.3f, provisional at %.3f: CANCEL sent at %s' % (t.cancelled - t.t0, fp - t.t0, [round(p.t - t.t0, 3) for p in cs]), 'cancel time', det): continue
        R.check(all(p.data == cs[0].data and p.dst == cs[0].dst for p in cs), 'several different CANCELs', 'cancel once', det)
        if t.cresp: R.check(len(cs) == 1, 'CANCEL sent %d times although answered' % len(cs), 'cancel once answered', det)
        c, i = S.parse(cs[0].data), t.inv
        R.check(cs[0].dst == t.dst, 'CANCEL sent to %s, INVITE to %s' % (cs[0].dst, t.dst), 'cancel dest', det)
        R.check((c.uri, c.callid, c.h('from'), c.h('to'), c.cseq, c.branch, c.hs('route')) == (i.uri, i.callid, i.h('from'), i.h('to'), (i.cseq[0], 'CANCEL'), i.branch, i.hs('route')) and len(c.vias) == 1,
                'CANCEL does not match the INVITE', 'cancel identity', det)
        R.check(c.h('reason') == t.reason, 'CANCEL Reason is %r, given %r' % (c.h('reason'), t.reason), 'cancel reason', det)
        if t.fin:
            fs = [x for x in t.cb if x[1] >= 200]
            R.check(len(fs) == 1 and fs[0][1] == t.fin[1], 'final outcome %s after cancelling, answer was %s' % (fs, t.fin[1]), 'final after cancel', det)
            acks = [p for p in sim.wire if p.src == w.addr and p.data.startswith(b'ACK ') and S.parse(p.data).callid == i.callid]
            R.check(len(acks) == 1, '%d ACKs for the final answer after CANCEL' % len(acks), 'ack after cancel', det)
    if hasattr(tm, 'tclient'): R.check(len(tm.tclient) == 0, 'client transaction table not empty: %d' % len(tm.tclient), 'left over')
    R.check(not vsim.Internal.log, 'internal exception: %s' % (vsim.Internal.log[:1],), 'internal exception')
    t = ts[0]
    R.sample('outgoing INVITE, provisional %s final %s abandoned at %.3f' % (t.prov, t.fin and t.fin[1], t.tc))
    w.close()

def case(seed, R, tier):
    rng = random.Random(seed)
    (uas if rng.random() < .5 else uac)(seed, rng, R)
