"""C30: every request on either side of the helper proxy, and every answer, against what its sender wrote
The real instance with a helper proxy on the simulated network. Senders emit REGISTER and SUBSCRIBE requests in random legal syntax and retransmit them as clients do; the proxy answers any number of times at any moment, or not at all. Every datagram between the instance and the proxy, and between the instance and the senders, is matched with the message it stands for, both interpreted by a reader that shares no code with the stack."""
import random, re
import vsim, siplite as S, sipgen
from vsim import Link
from b2bworld import World
RULE = 'seeded batches of 1-12 requests from 1-4 senders (same or different Call-ID, tag, CSeq; legal syntax with compact names, folding, joined headers, any body; refreshes; credentials) x proxies (0-4 answers of any class, with headers and bodies, early, late, repeated, joined Via, silent) x links (delay, loss, duplication, reordering). Distinct by method, answers and loss.'
N = {'quick': 5000, 'thorough': 200000}
NEED = {'requests': 12000, 'forwarded': 9000, 'answers': 8000, 'provisional': 2500, 'silent': 1000, 'path': 500, 'retransmitted': 1500, 'lossy': 1000, 'same call-id': 1000, 'no max-forwards': 500, 'no hops left': 500}
BOX, PX = ('10.0.0.1', 5060), ('10.0.3.1', 5060)

def hdrs(rng, n, req):
    out = []
    for _ in range(n):
        k = rng.choice(list(sipgen.OPT))
        if k in ('max-forwards', 'refer-to', 'also', 'replaces', 'cc-diversion', 'h323-conf-id') : continue
        if k == 'path' and not req and rng.random() < .5: continue
        v = sipgen.OPT[k](rng)
        if k == 'x-': k = 'x-' + sipgen.tok(rng, 6).lower()
        if any(x == k for x, _ in out) and k not in sipgen.MULTI and not k.startswith('x-'): continue
        out.append((k, v))
    return out

def text(rng, sl, hs, ct, body):
    hs = list(hs)
    if ct: hs.insert(rng.randrange(len(hs) + 1), ('content-type', ct))
    b = body.encode()
    if b or rng.random() < .8: hs.insert(rng.randrange(len(hs) + 1), ('content-length', str(len(b))))
    ls = [sl]
    for n, v in hs: ls.append('%s:%s%s' % (sipgen.hname(rng, n), rng.choice([' ', ' ', '', '  ']), sipgen.fold(rng, v)))
    return ('\r\n'.join(ls) + '\r\n\r\n').encode() + b

def split(m):
    """(start line, vias, max-forwards, path, other headers, content type, body)"""
    sl, hs, ct, b = m
    return sl, [v for n, v in hs if n == 'via'], [v for n, v in hs if n == 'max-forwards'], [v for n, v in hs if n == 'path'], [(n, v) for n, v in hs if n not in ('via', 'max-forwards', 'path')], ct, b

class Req: pass

def case(seed, R, tier):
    rng = random.Random(seed)
    nat = rng.random() < .2
    w = World(seed, auth = rng.random() < .3, acct = False, route = '10.0.9.9', proxy = PX, opts = [('nat_traversal', 'yes')] if nat else [])
    try: body(rng, R, w)
    finally: w.close()

def body(rng, R, w):
    sim = w.sim
    lossy = rng.random() < .35
    sim.default_link = Link(delay = (.001, rng.choice([.01, .2])), loss = rng.choice([.1, .3]) if lossy else 0, dup = rng.choice([.1, .3]) if lossy else 0)
    if lossy: R.count('lossy')
    senders = [('10.0.1.%d' % i, rng.choice([5060, 5060, 5062, 40000])) for i in range(rng.choice([1, 2, 3, 4]))]
    reqs = []
    silent_all = rng.random() < .07
    got = {}                # sender -> [(t, data)]
    for s in senders: sim.bind(s, lambda d, src, s = s: got.setdefault(s, []).append((sim.now, d, src)))
    at_px = []
    seen = {}
    answered = {}           # forwarded datagram -> its last final answer
    def px(d, src):
        at_px.append((sim.now, d, src))
        m = sipgen.read(d.decode())
        cid = dict((n, v) for n, v in m[1] if n == 'x-mark').get('x-mark')
        q = next((x for x in reqs if x.mark == cid), None)
        if q is None: return
        if d in answered:
            # a client's retransmission: as a registrar would
            if answered[d]: sim.send(PX, src, answered[d])
            return
        answered[d] = None
        q.copies.append(d)
        if len(q.copies) > 1: return
        for dt, code in q.script:
            def go(code = code):
                h = [(n, v) for n, v in m[1] if n in ('from', 'call-id', 'cseq')]
                vs = [v for n, v in m[1] if n == 'via']
                if rng.random() < .3: h.insert(rng.randrange(len(h) + 1), ('via', ', '.join(vs)))
                else:
                    i = rng.randrange(len(h) + 1)
                    h[i:i] = [('via', v) for v in vs]
                to = next(v for n, v in m[1] if n == 'to')
                h.insert(rng.randrange(len(h) + 1), ('to', to + (';tag=%x' % rng.getrandbits(30) if code > 100 and S.tagof(to) is None else '')))
                h += hdrs(rng, rng.choice([0, 1, 4]), False) + [('x-answer', str(len(q.answers)))]
                ct, b, _ = sipgen.body(rng) if rng.random() < .3 and 100 < code < 400 else (None, '', None)
                a = text(rng, 'SIP/2.0 %d %s' % (code, S.REASONS.get(code, 'Whatever')), h, ct, b)
                q.answers.append((sim.now, code, a))
                answered[d] = a
                sim.send(PX, src, a)
                for _ in range(rng.choice([0, 0, 0, 1, 2])): sim.after(rng.choice([.01, .3, 5]), sim.send, PX, src, a)
            sim.after(dt, go)
    sim.bind(PX, px)
    cid0, tag0, cs0 = 'shared@x', 'shared', rng.randrange(1, 1000)
    for i in range(rng.choice([1, 1, 2, 4, 8, 12])):
        q = Req()
        q.mark, q.copies, q.answers = 'm%d' % i, [], []
        q.src = rng.choice(senders)
        q.method = rng.choice(['REGISTER', 'REGISTER', 'SUBSCRIBE'])
        share = rng.random() < .3
        q.branch = 'z9hG4bK' + sipgen.tok(rng, 12) + '-%d-' % i
        q.callid = cid0 if share else sipgen.tok(rng) + '%d@h' % i
        if share: R.count('same call-id')
        q.t0 = rng.uniform(0, rng.choice([.01, 2, 60]))
        vias = ['SIP/2.0/UDP %s%s;branch=%s%s' % (q.src[0], '' if q.src[1] == 5060 and rng.random() < .5 else ':%d' % q.src[1], q.branch, rng.choice(['', ';rport', ';x=y']))]
        for _ in range(rng.choice([0, 0, 0, 1, 2])): vias.append('SIP/2.0/%s 192.0.2.%d:%d;branch=z9hG4bK%s' % (rng.choice(['UDP', 'TCP', 'TLS']), rng.randrange(9), rng.randrange(1024, 9999), sipgen.tok(rng)))
        aor = '<sip:%s@dom.example>' % rng.choice(['bob', 'al%20ice', '+1555'])
        base = [('from', aor + ';tag=' + (tag0 if share else sipgen.tok(rng))), ('to', aor), ('call-id', q.callid), ('cseq', '%d %s' % (cs0 if share and rng.random() < .5 else rng.randrange(1, 10**6), q.method))]
        q.mf = rng.choice([None, 70, 70, 70, 2, 10, 255, 0])
        if q.mf is not None: base.append(('max-forwards', str(q.mf)))
        base += hdrs(rng, rng.choice([0, 2, 6]), True) + [('x-mark', q.mark)]
        if rng.random() < .3 and not any(n == 'supported' for n, _ in base): base.append(('supported', rng.choice(['path', 'path, gruu', 'gruu,path', 'gruu'])))
        if rng.random() < .7 and not any(n == 'contact' for n, _ in base): base.append(('contact', rng.choice(['<sip:bob@%s:%d>' % q.src, '<sip:bob@%s:%d;transport=udp>;expires=60' % q.src, '*', '<sip:bob@%s:%d>;q=0.5;+sip.instance="<urn:x>"' % q.src])))
        # (the options of the shared text would need every sender's own Contact rewritten otherwise)
        if w.tm.nat_traversal: base = [(n, v) for n, v in base if n != 'contact'] + [('contact', '<sip:bob@%s:%d>' % q.src)]
        rng.shuffle(base)
        if rng.random() < .3: base.insert(rng.randrange(len(base) + 1), ('via', ', '.join(vias)))
        else:
            k = rng.randrange(len(base) + 1)
            base[k:k] = [('via', v) for v in vias]
        ct, b, _ = sipgen.body(rng) if rng.random() < .3 else (None, '', None)
        q.data = text(rng, '%s %s SIP/2.0' % (q.method, rng.choice(['sip:dom.example', 'sip:10.0.0.1', 'sip:dom.example;transport=udp', 'sip:bob@dom.example:5070'])), base, ct, b)
        q.script = []
        if not silent_all and rng.random() > .1:
            t = 0
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                t += rng.uniform(0, rng.choice([.2, 10])); q.script.append((t, rng.choice([100, 100, 180, 199])))
            t += rng.uniform(0, rng.choice([.3, .3, 3, 20, 40])); q.script.append((t, rng.choice([200, 200, 202, 401, 407, 403, 404, 423, 489, 500, 503, 302, 600])))
            if rng.random() < .15: q.script.append((t + rng.uniform(0, 3), rng.choice([200, 404, 180])))
        reqs.append(q)
        R.count('requests')
        def start(q = q):
            def tx(n = 0, dt = .5):
                if n and any(d.startswith(b'SIP/2.0 ') and q.branch.encode() in d and not d.startswith(b'SIP/2.0 1') for _, d, _ in got.get(q.src, [])): return
                if n > 10: return
                if n: R.count('retransmitted')
                sim.send(q.src, BOX, q.data)
                sim.after(dt, tx, n + 1, min(dt * 2, 4))
            tx()
        sim.after(q.t0, start)
    w.run(240)
    T = lambda t: round(t - sim.t0, 3)
    det = lambda q: (lambda: dict(sent = q.data, forwarded = q.copies[:3], script = q.script, answers = [(T(t), c, a) for t, c, a in q.answers], received = [(T(t), d) for t, d, s in got.get(q.src, []) if q.branch.encode() in d]))
    used = set()
    for q in reqs:
        mean = split(sipgen.meaning(q.data.decode()))
        reached = any(p.data == q.data and p.src == q.src for _, p in sim.delivered)
        if not reached:
            R.check(not q.copies, 'a request was forwarded that never arrived', 'conjured', det(q)); continue
        rx0 = min(t for t, p in sim.delivered if p.data == q.data and p.src == q.src)
        out = [p for p in sim.wire if p.dst == PX and p.src == BOX and b'X-Mark: ' + q.mark.encode() + b'\r' in re.sub(rb'(?i)x-mark: *', b'X-Mark: ', p.data)]
        if q.mf == 0:
            R.count('no hops left')
            fin = [p for p in sim.wire if p.src == BOX and p.dst == q.src and p.data.startswith(b'SIP/2.0') and q.branch.encode() in p.data]
            R.check(not out and fin and all(p.data.startswith(b'SIP/2.0 483') for p in fin), 'no hops were left, forwarded %d times, answered %s' % (len(out), [p.data[:11] for p in fin]), 'no hops', det(q))
            continue
        R.check(out, 'a %s was not forwarded' % q.method, 'not forwarded', det(q))
        if not out: continue
        kinds = sorted(set(p.data for p in out))
        R.check(len(kinds) == 1, 'a request was forwarded %d times' % len(kinds), 'forwarded again', det(q))
        R.check(abs(out[0].t - rx0) < .001, 'a request was forwarded after %.3f s' % (out[0].t - rx0), 'late', det(q))
        R.count('forwarded')
        f = split(sipgen.meaning(kinds[0].decode()))
        R.check(f[0] == mean[0], 'forwarded as %r instead of %r' % (f[0], mean[0]), 'start line', det(q))
        R.check(len(f[1]) == len(mean[1]) + 1, 'forwarded with %d Vias instead of %d' % (len(f[1]), len(mean[1]) + 1), 'vias', det(q))
        raws = [v for n, v in sipgen.read(kinds[0].decode())[1] if n == 'via']
        R.check(S.via_host(raws[0]) in (BOX, ('10.0.0.1', None)) and (S.param(raws[0], 'branch') or '').startswith('z9hG4bK') and 'UDP' in raws[0], 'the Via that was added is %r' % raws[0], 'own via', det(q))
        R.check(S.param(raws[0], 'branch') not in used, 'a branch was used twice', 'branch', det(q))
        used.add(S.param(raws[0], 'branch'))
        osl = [v for n, v in sipgen.read(q.data.decode())[1] if n == 'via']
        for a, b in zip(raws[1:], osl):
            na = [x.strip() for x in a.split(';')]; nb = [x.strip() for x in b.split(';')]
            extra = [x for x in na if x not in nb]
            R.check([x for x in nb if x not in na] in ([], ['rport']) and all(x.startswith(('received=', 'rport=')) for x in extra) and na[0].split() == nb[0].split(), 'a Via %r was forwarded as %r' % (b, a), 'via changed', det(q))
        R.check([str(x) for x in f[2]] == (['70'] if q.mf is None else [str(q.mf - 1)]), 'Max-Forwards %r was forwarded as %r' % (q.mf, f[2]), 'max-forwards', det(q))
        if q.mf is None: R.count('no max-forwards')
        caps = [x for n, v in mean[4] if n == 'supported' for x in v]
        first = next((v for n, v in mean[4] if n == 'supported'), ())
        if q.method == 'REGISTER' and 'path' in first:
            R.count('path')
            R.check(len(f[3]) == len(mean[3]) + 1 and f[3][1:] == mean[3], 'Path %r was forwarded as %r' % (mean[3], f[3]), 'path', det(q))
            ps = [v for n, v in sipgen.read(kinds[0].decode())[1] if n == 'path']
            R.check(ps and S.uri_addr(S.uri_of(ps[0])) == BOX and ';lr' in ps[0], 'the Path that was added is %r' % ps[:1], 'own path', det(q))
        elif 'path' not in caps or q.method != 'REGISTER': R.check(f[3] == mean[3], 'Path %r was forwarded as %r' % (mean[3], f[3]), 'path', det(q))
        R.check(f[4] == mean[4], 'headers were changed: %r' % [(a, b) for a, b in zip(mean[4] + [None], f[4] + [None]) if a != b][:2], 'headers', det(q))
        R.check(f[5:] == mean[5:], 'the body %r was forwarded as %r' % (mean[5:], f[5:]), 'body', det(q))
        # the way back
        tx = out[0].t
        fins = []
        arrived = []
        for t, p in sim.delivered:
            if p.src == PX and any(p.data == a for _, _, a in q.answers): arrived.append((t, p.data))
        arrived.sort(key = lambda x: x[0])
        expect, done, end = [], False, tx + 32
        for t, d in arrived:
            if done or d in [x[1] for x in expect]: continue
            if t > end + .5: break
            code = int(d[8:11])
            if abs(t - end) < .5: expect = None; break
            expect.append((t, d, code))
            if code >= 200: done = True
            else: end = t + 32
        back = [p for p in sim.wire if p.src == BOX and p.data.startswith(b'SIP/2.0') and q.branch.encode() in p.data and p.dst != PX]
        for p in back: R.check(p.dst == q.src, 'an answer went to %s:%s instead of %s:%s' % (p.dst + q.src), 'astray', det(q))
        if expect is None: continue
        seq = []
        for p in back:
            if p.data not in [x.data for x in seq]: seq.append(p)
        if not done:
            R.check(seq and seq[-1].data.startswith(b'SIP/2.0 408') and abs(seq[-1].t - end) < .6, 'the proxy never answered and the sender got %s' % [x.data[:11] for x in seq], 'no 408', det(q))
            R.count('silent')
            if seq:
                a = split(sipgen.meaning(seq[-1].data.decode()))
                R.check(len(a[1]) == len(mean[1]), 'the 408 has %d Vias' % len(a[1]), '408', det(q))
            seq = seq[:-1]
        R.check(len(seq) == len(expect), 'the proxy gave %s, the sender got %s' % ([c for _, _, c in expect], [x.data[:11] for x in seq]), 'answers', det(q))
        for (t, d, code), p in zip(expect, seq):
            R.count('provisional' if code < 200 else 'answers')
            R.check(abs(p.t - t) < .001, 'an answer took %.3f s' % (p.t - t), 'answer late', det(q))
            a, b = split(sipgen.meaning(d.decode())), split(sipgen.meaning(p.data.decode()))
            R.check(a[0] == b[0] and a[1][1:] == b[1] and a[2:] == b[2:], 'an answer %r was returned as %r' % (a, b), 'answer changed', det(q))
        R.ev((q.method, tuple(c for _, c in q.script), bool(expect), lossy, len(reqs) > 1, q.mf is None), True)
    for n in ('tclient', 'tserver', 'req_consumers', 'ccmap'): R.check(w.sizes()[n] == 0, '%d left in %s' % (w.sizes()[n], n), 'left ' + n, det(reqs[0]))
    others = [p for p in sim.wire if p.src == BOX and p.dst not in senders and p.dst != PX]
    R.check(not others, 'something was sent to %s' % [(p.dst, p.data[:60]) for p in others[:2]], 'elsewhere', det(reqs[0]))
    R.sample('%d requests, %d datagrams between instance and proxy' % (len(reqs), len(at_px)))
