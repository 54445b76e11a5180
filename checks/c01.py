"""C01: client transactions of the real transaction manager against an independent timing model."""
import random
import siplite as S
from tmworld import *
RULE = 'seeded random batches of 1-4 concurrent outgoing requests (any method, with/without response callback) against scripted peers: provisional and final responses at boundary-biased times, byte-identical duplicates, late, foreign (other branch/CSeq/Call-ID/tag) and malformed responses; every datagram the stack sends and every callback is compared with an RFC timing model. Non-trivial: at least one response, timeout or duplicate was judged; distinct by method, response schedule and outcome.'
N = {'quick': 16000, 'thorough': 60000}
NEED = {'timeouts': 20, 'finals': 100, 'dups': 50, 'foreign': 50, 'retransmissions': 500}
METHODS = ['INVITE', 'INVITE', 'BYE', 'OPTIONS', 'INFO', 'REGISTER', 'SUBSCRIBE', 'PING', 'REFER', 'NOTIFY']
EPS = 1e-4

def tt(rng):
    k = rng.randrange(6)
    if k == 0: return rng.uniform(0.001, 0.6)
    if k == 1: return rng.choice([0.5, 1.5, 3.5, 7.5, 15.5, 31.5, 32.0]) + rng.choice([-0.003, 0.003, 0.2])
    if k == 2: return rng.uniform(0, 40)
    if k == 3: return rng.uniform(0.01, 5)
    if k == 4: return rng.choice([32, 64]) + rng.uniform(-1, 1)
    return rng.uniform(0, 120)

def case(seed, R, tier):
    rng = random.Random(seed)
    w = TmWorld(seed)
    sim, tm = w.sim, w.tm
    sim.default_link.delay = (0, 0)
    peer = ('10.0.2.1', 5060)
    txs = []
    def rx(data, src): pass
    sim.bind(peer, rx)
    class T: pass
    def launch(t):
        t.t0 = sim.now
        t.cb = []
        def cb1(resp): t.cb.append((sim.now, resp.getSCode()[0], resp.getSCode()[1], str(resp.getHFBody('to').getTag())))
        def cb2(resp, tr): cb1(resp)
        n0 = len(sim.wire)
        if t.nocb: tm.newTransaction(t.req)
        elif t.ver == 1: tm.newTransaction(t.req, cb1)
        else: tm.newTransaction(t.req, cb2, cb_ifver = 2)
        R.check(len(sim.wire) == n0 + 1, 'a new transaction sent %d datagrams at once' % (len(sim.wire) - n0), 'initial send')
        t.data = sim.wire[n0].data
        t.msg = S.parse(t.data)
        R.check(sim.wire[n0].dst == peer, 'sent to %s, target is %s' % (sim.wire[n0].dst, peer), 'destination')
        for (dt, kind, code, ndup, variant) in t.script:
            sim.at(t.t0 + dt, reply, t, kind, code, variant)
            for dd in ndup: sim.at(t.t0 + dt + dd, reply, t, kind, code, variant)
    def reply(t, kind, code, variant):
        m = S.response(t.msg, code, 'R%d' % variant, 'tt%d' % variant if code > 100 else None)
        if variant % 3 == 1: m.add('contact', '<sip:x@10.0.2.1:5060>')
        d = None
        if kind == 'branch': m.set('via', m.h('via').replace('branch=', 'branch=X'))
        elif kind == 'cseq': m.set('cseq', '%d %s' % (t.msg.cseq[0] + 1, t.msg.method))
        elif kind == 'method': m.set('cseq', '%d %s' % (t.msg.cseq[0], 'OPTIONS' if t.msg.method != 'OPTIONS' else 'INFO'))
        elif kind == 'callid': m.set('call-id', 'other' + m.callid)
        elif kind == 'ftag': m.set('from', m.h('from') + 'zz')
        elif kind == 'garbage': d = m.enc()[:rng.randrange(33, 60)]
        elif kind == 'code': d = m.enc().replace(b'SIP/2.0 %d ' % code, b'SIP/2.0 %d ' % rng.choice([99, 0, 7, 1000]))
        d = d or m.enc()
        ok = kind == 'ok' or kind == 'branch' and False
        t.rx.append((sim.now, ok, code, d, variant))
        sim.send(peer, w.addr, d)
    n = rng.randrange(1, 5)
    for i in range(n):
        t = T()
        m = rng.choice(METHODS)
        t.exp = rng.choice([None, None, 5, 60, 120, 0]) if m == 'INVITE' else None
        t.req = w.invite(m, 'u%d' % i, peer[0], peer[1], rng, expires = t.exp if t.exp is not None else 300 if m == 'INVITE' else None)
        if m == 'INVITE' and t.exp is None and rng.random() < .3:
            t.req.delHFs('expires')
        t.method = m
        t.nocb = rng.random() < .1
        t.ver = rng.choice([1, 2])
        t.rx = []
        t.script = []
        if rng.random() < .85:
            for _ in range(rng.randrange(1, 6)):
                kind = rng.choice(['ok'] * 8 + ['branch', 'cseq', 'method', 'callid', 'ftag', 'garbage', 'code'])
                code = rng.choice([100, 180, 183, 199, 200, 202, 302, 404, 486, 503, 600])
                dups = [rng.choice([0.001, 0.3, 5, 31, rng.uniform(0, 31)]) for _ in range(rng.choice([0, 0, 1, 3]))]
                t.script.append((tt(rng), kind, code, dups, rng.randrange(5)))
        txs.append(t)
        sim.after(rng.choice([0, 0.001, rng.uniform(0, 40)]), launch, t)
    w.run(900)
    outs = {}
    for p in sim.wire:
        if p.src == w.addr: outs.setdefault(p.data, []).append(p.t)
    for t in txs:
        exp = (t.exp if t.exp and t.exp > 0 else 300) if t.method == 'INVITE' else 32
        # --- model
        good = [r for r in t.rx if r[1]]
        fresh, last_seen = [], {}
        for r in good:          # duplicates within 32 s are absorbed; later identical ones may or may not be
            fresh.append(r)
        first = good[0][0] if good else None
        end, endc, amb = None, None, False
        hi = lo = t.t0 + 32     # timeout interval
        for (tr, ok, code, d, v) in good:
            if tr > hi + EPS: break
            if tr > lo - EPS: amb = True; break
            if code >= 200:
                end, endc = tr, (code, 'R%d' % v); break
            if d in last_seen:
                if tr - last_seen[d] > 31.9: hi = max(hi, tr + exp)
            else:
                lo = hi = tr + exp
            last_seen.setdefault(d, tr)
        if amb: R.count('ambiguous'); continue
        if end is None: tmo = True
        else: tmo = False
        # --- retransmissions
        sends = outs.get(t.data, [])
        x, sched, k = 0.5, [t.t0], t.t0
        while k + x < t.t0 + 32 - EPS:
            k += x
            if first is not None and k > first + EPS: break
            sched.append(k)
            x *= 2
        soft = first is not None and any(abs(s - first) < EPS for s in sched)
        if not soft:
            R.check(len(sends) == len(sched) and all(abs(a - b) < EPS for a, b in zip(sends, sched)),
                    '%s: sent at %s, expected at %s' % (t.method, [round(s - t.t0, 3) for s in sends], [round(s - t.t0, 3) for s in sched]), 'retransmission times',
                    lambda: {'script': t.script})
        R.count('retransmissions', len(sends) - 1)
        # --- callbacks
        R.count('dups', sum(len(s[3]) for s in t.script)); R.count('foreign', sum(1 for r in t.rx if not r[1]))
        R.count('timeouts' if tmo else 'finals')
        if t.nocb:
            R.ev(('nocb', t.method, tuple(sorted(set(s[1] for s in t.script)))), bool(t.script)); continue
        finals = [c for c in t.cb if c[1] >= 200]
        det = lambda: {'method': t.method, 'expires': t.exp, 'received': [(round(r[0] - t.t0, 4), r[1], r[2], r[4]) for r in t.rx], 'callbacks': [(round(c[0] - t.t0, 4),) + c[1:] for c in t.cb]}
        if not R.check(len(finals) == 1, '%s transaction reported %d final outcomes' % (t.method, len(finals)), 'final count %d' % len(finals), det): continue
        f = finals[0]
        R.check(t.cb[-1] is f, 'something was delivered after the final outcome', 'after final', det)
        if tmo:
            R.check(f[1] == 408 and lo - EPS <= f[0] <= hi + EPS, 'silent peer: outcome %d after %.3f s, expected 408 after %.3f..%.3f' % (f[1], f[0] - t.t0, lo - t.t0, hi - t.t0), 'timeout outcome', det)
        else:
            R.check(abs(f[0] - end) < EPS and (f[1], f[2]) == endc, 'outcome %s, the first final response was %s' % (f[1:3], endc), 'final outcome', det)
        # provisionals: each distinct one before the end, once (again only if more than 32 s later), in order
        expd, seen = [], {}
        for (tr, ok, code, d, v) in good:
            if tr > (end if end is not None else lo) + EPS: break
            edge = tr > (end if end is not None else lo) - EPS
            if code < 200:
                if d not in seen: expd.append((tr, code, 'R%d' % v, edge))
                elif tr - seen[d] > 31.9: expd.append((tr, code, 'R%d' % v, True))
                seen.setdefault(d, tr)
        got = [c for c in t.cb if c[1] < 200]
        j = 0
        bad = None
        for e in expd:
            if j < len(got) and abs(got[j][0] - e[0]) < EPS and got[j][1:3] == e[1:3]: j += 1
            elif not e[3]: bad = e; break
        if bad is None and j < len(got) and hi == lo: bad = got[j]
        R.check(bad is None, 'provisional responses delivered differ from those received (%s)' % (bad,), 'provisionals', det)
        R.ev((t.method, t.exp, tuple((round(s[0], 1), s[1], s[2], len(s[3])) for s in t.script), f[1]))
    if hasattr(tm, 'tclient'): R.check(len(tm.tclient) == 0, 'client transaction table not empty at the end: %d' % len(tm.tclient), 'left over')
    R.check(not vsim.Internal.log or all('parse' in l[1] for l in vsim.Internal.log), 'internal exception: %s' % (vsim.Internal.log[:1],), 'internal exception')
    if seed % 50 == 0 or True:
        t = txs[0]
        R.sample('%s expires=%s peer script %s -> callbacks %s, %d transmissions' % (t.method, t.exp, [(round(s[0], 2), s[1], s[2]) for s in t.script], [(round(c[0] - t.t0, 2), c[1]) for c in t.cb], len(outs.get(t.data, []))))
    w.close()
