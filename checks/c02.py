"""C02: acknowledgements of final answers to outgoing INVITEs."""
import random
import siplite as S
from tmworld import *
RULE = 'seeded random outgoing INVITEs (with/without preset Route headers, bodies, display names) answered by scripted peers with provisional answers and finals of every class carrying random To tags, Contacts and loose/strict/multi-value Record-Route lists, repeated at random instants; every ACK on the wire is parsed independently and compared with RFC 3261 construction rules. Distinct by answer class, route shape, contact shape and repetition pattern.'
N = {'quick': 16000, 'thorough': 60000}
NEED = {'acks': 300, 'acks 2xx': 100, 'acks neg': 100, 'strict': 10, 'loose': 10, 'reacks': 100}
EPS = 1e-4

def case(seed, R, tier):
    rng = random.Random(seed)
    w = TmWorld(seed)
    sim, tm = w.sim, w.tm
    sim.default_link.delay = (0, 0)
    peer = ('10.0.2.1', 5060)
    sim.bind(peer, lambda d, s: None)
    txs = []
    class T: pass
    def mkrr():
        out = []
        for i in range(rng.randrange(1, 4)):
            strict = rng.random() < .3
            u = 'sip:%s10.0.3.%d%s%s' % (rng.choice(['', 'px@']), i + 1, rng.choice(['', ':5060', ':5080']), '' if strict else ';lr' + rng.choice(['', ';ftag=ab', ';x=1']))
            out.append('<%s>' % u)
        return out
    def launch(t):
        t.t0, t.cb = sim.now, []
        n0 = len(sim.wire)
        tm.newTransaction(t.req, lambda resp: t.cb.append((sim.now, resp.getSCode()[0])))
        t.w = sim.wire[n0]
        t.inv = S.parse(t.w.data)
        R.check(t.w.dst == t.dst, 'INVITE sent to %s, expected %s' % (t.w.dst, t.dst), 'dest')
        for dt, code in t.prov: sim.at(t.t0 + dt, lambda code = code: sim.send(peer, w.addr, S.response(t.inv, code, None, 'tp').enc()))
        sim.at(t.t0 + t.ft, final, t)
    def final(t):
        hd = []
        for i in range(0, len(t.rr), 2 if t.rrcsv else 1):
            hd.append(('record-route', ', '.join(t.rr[i:i + (2 if t.rrcsv else 1)])))
        if t.contact: hd.append(('contact', t.contact))
        if t.code == 302 and not t.contact: hd.append(('contact', '<sip:z@10.9.9.9>'))
        m = S.response(t.inv, t.code, None, t.tag, hd, t.body)
        if t.body: m.add('content-type', 'application/sdp')
        t.resp = m
        t.tf = sim.now
        t.fdata = m.enc()
        sim.send(peer, w.addr, t.fdata)
        t.rep = sorted(t.rep)
        for d in t.rep: sim.after(d, lambda: sim.send(peer, w.addr, t.fdata))
    for i in range(rng.randrange(1, 4)):
        t = T()
        routes = []
        t.dst = peer
        if rng.random() < .35:
            routes = ['<sip:10.0.2.1;lr>'] + ['<sip:10.0.4.%d;lr>' % k for k in range(rng.randrange(0, 3))]
            t.req = w.invite('INVITE', 'u%d' % i, '10.0.2.77', 5070, rng, body = rng.choice([None, 'v=0\r\n']), routes = routes, target = peer)
        else:
            t.req = w.invite('INVITE', 'u%d' % i, peer[0], peer[1], rng, body = rng.choice([None, 'v=0\r\n']), totag = rng.choice([None, 'old']))
        t.code = rng.choice([200, 200, 200, 202, 299, 302, 401, 404, 480, 486, 487, 500, 503, 600, 603])
        t.tag = rng.choice(['a', 'tag-%x' % rng.getrandbits(60), 'A.b~c'])
        t.prov = [(rng.uniform(0.001, 20), rng.choice([100, 180, 183])) for _ in range(rng.choice([0, 1, 2]))]
        t.ft = rng.choice([0.001, 0.4, rng.uniform(0, 31), rng.uniform(0, 31)])
        t.rr = mkrr() if rng.random() < .5 else []
        t.rrcsv = rng.random() < .4
        t.body = rng.choice([b'', b'v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\n'])
        t.cport = rng.choice([None, 5060, 5062, 61000])
        t.chost = rng.choice(['10.0.2.9', '10.0.2.1', '[2001:db8::5]'])
        ex = rng.choice(['', ';transport=udp', ';ob;x=y'])
        t.curi = 'sip:%s%s%s%s' % (rng.choice(['bob@', 'b%20b@', '']), t.chost, ':%d' % t.cport if t.cport else '', ex)
        t.contact = rng.choice(['<%s>', '"Bob, Jr" <%s>;expires=30', '<%s>;q=0.5']) % t.curi
        if rng.random() < .08 and not t.rr: t.contact = None
        t.rep = [rng.choice([0.0005, 0.5, 1.5, 31, rng.uniform(0, 31.5)]) for _ in range(rng.choice([0, 1, 2, 4]))]
        txs.append(t)
        sim.after(rng.choice([0, rng.uniform(0, 40)]), launch, t)
    w.run(400)
    allacks = [p for p in sim.wire if p.src == w.addr and p.data.startswith(b'ACK ')]
    seen_br = set()
    for t in txs:
        acks = [p for p in allacks if S.parse(p.data).callid == t.inv.callid]
        det = lambda: {'final': t.fdata.decode(), 'invite': t.w.data.decode(), 'acks': [(round(p.t - t.tf, 4), p.dst, p.data.decode()) for p in acks]}
        R.ev((t.code, len(t.rr), [';lr' in x for x in t.rr], t.rrcsv, t.curi.split('@')[-1], bool(t.contact), len(t.rep), len(t.prov), bool(t.inv.hs('route'))))
        if not R.check(acks, 'a %d final answer was never acknowledged' % t.code, 'no ack', det): continue
        times = [t.tf] + [t.tf + d for d in t.rep]
        R.check(len(acks) == len(times) and all(abs(a.t - b) < EPS for a, b in zip(acks, times)), '%d answers received, ACKs sent at %s, answers at %s' % (len(times), [round(p.t - t.tf, 4) for p in acks], [round(x - t.tf, 4) for x in times]), 'ack per answer', det)
        R.check(all(p.data == acks[0].data and p.dst == acks[0].dst for p in acks), 'repeated ACKs differ', 'ack repeat', det)
        R.count('acks', len(acks)); R.count('reacks', len(acks) - 1)
        fin = [c for c in t.cb if c[1] >= 200]
        R.check(len(fin) == 1 and fin[0][1] == t.code, 'final answer delivered %d times (%s)' % (len(fin), fin), 'delivered', det)
        a = S.parse(acks[0].data)
        i = t.inv
        R.check(a.method == 'ACK' and a.callid == i.callid and a.cseq == (i.cseq[0], 'ACK'), 'Call-ID/CSeq of the ACK differ from the INVITE', 'ack identity', det)
        R.check(a.h('from') == i.h('from'), 'From of the ACK differs from the INVITE', 'ack from', det)
        R.check(a.ttag == t.resp.ttag and S.uri_of(a.h('to')) == S.uri_of(i.h('to')), 'To of the ACK is %r, the answer had tag %r' % (a.h('to'), t.tag), 'ack to', det)
        R.check(len(a.vias) == 1, 'ACK has %d Via values' % len(a.vias), 'ack via', det)
        got_routes = [x for h in a.hs('route') for x in S.split_commas(h)]
        if t.code >= 300:
            R.count('acks neg')
            R.check(a.uri == i.uri and a.branch == i.branch, 'ACK to a negative answer: request line/branch differ from the INVITE', 'neg line', det)
            R.check(acks[0].dst == t.w.dst, 'ACK to a negative answer sent to %s, the INVITE went to %s' % (acks[0].dst, t.w.dst), 'neg dest', det)
            R.check([S.uri_of(x) for x in got_routes] == [S.uri_of(x) for x in i.hs('route')], 'ACK to a negative answer carries routes %s, the INVITE %s' % (got_routes, i.hs('route')), 'neg routes', det)
        else:
            R.count('acks 2xx')
            R.check(a.branch not in (None, i.branch) and a.branch not in seen_br, 'ACK to a 2xx reuses a branch', '2xx branch', det)
            seen_br.add(a.branch)
            rr = t.rr[::-1]
            ct = t.curi if t.contact else i.uri
            if rr and ';lr' not in rr[0]:
                R.count('strict')
                eu, er, ed = S.uri_of(rr[0]), [S.uri_of(x) for x in rr[1:]] + [ct], S.uri_addr(S.uri_of(rr[0]))
            elif rr:
                R.count('loose')
                eu, er, ed = ct, [S.uri_of(x) for x in rr], S.uri_addr(S.uri_of(rr[0]))
            else:
                eu, er, ed = ct, [], (S.uri_addr(ct) if t.contact else t.w.dst)
            n = lambda u: (lambda s: (s[0], s[1], s[2], s[3] or 5060, sorted(s[4])))(S.split_uri(u))
            R.check(n(a.uri) == n(eu), 'ACK request-URI %s, expected %s' % (a.uri, eu), '2xx uri', det)
            R.check([n(S.uri_of(x)) for x in got_routes] == [n(x) for x in er], 'ACK routes %s, expected %s' % (got_routes, er), '2xx routes', det)
            R.check(acks[0].dst == ed, 'ACK sent to %s, expected %s' % (acks[0].dst, ed), '2xx dest', det)
    t = txs[0]
    R.sample('%d Contact %s Record-Route %s repeated at %s -> ACK %s' % (t.code, t.contact, t.rr, [round(x, 2) for x in t.rep], allacks and allacks[0].data.split(b'\r\n')[0].decode()))
    R.check(not vsim.Internal.log, 'internal exception: %s' % (vsim.Internal.log[:1],), 'internal exception')
    w.close()
