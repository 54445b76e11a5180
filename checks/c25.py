"""C25: hop counts and loops observed on the wire between the real B2BUA, forwarding elements and other instances of itself
Calls with every Max-Forwards value go through single instances, through loops of stateless proxies that lead back to the sender, and through rings of instances; the monitor compares every hop."""
import random
import vsim, siplite as S
from kit import Demo, SDP
from b2bworld import World, routing_lines
RULE = 'seeded topologies: one instance with 1-3 routes; loops back to the sending instance directly or through 1-3 proxies (before a further route or as the last one); rings of 2-3 instances with 0-1 proxies between them; Max-Forwards 0 to 300 and absent, losses. Distinct by topology, Max-Forwards and outcome.'
N = {'quick': 6000, 'thorough': 150000}
NEED = {'forwarded': 1500, 'refused': 300, 'loop': 1200, 'ring': 500, 'ring hops': 3500, 'absent': 90, 'via rewritten': 500}

class Relay:
    """a stateless proxy: adds itself on top of the Via list of requests, takes itself off answers"""
    def __init__(self, sim, addr, to, style = 0):
        self.style = style
        self.sim, self.addr, self.to, self.n = sim, addr, to, 0
        sim.bind(addr, self.rx)
    def rx(self, data, src):
        try: m = S.parse(data)
        except Exception: return
        i = [k for k, (n, v) in enumerate(m.headers) if n == 'via'][0]
        if m.is_req:
            self.n += 1
            # the same branch for every copy of a request
            if self.style & 1:
                n, v = m.headers[i]
                vs = S.split_commas(v)
                vs[0] = vs[0].replace(';rport', '') + ';rport=%d;received=%s' % (src[1], src[0])
                m.headers[i] = (n, ','.join(vs))
            if self.style & 2: m.headers[i] = ('via', 'SIP/2.0/UDP %s:%d;branch=z9hG4bKr%s,%s' % (*self.addr, m.branch, m.headers[i][1]))
            else: m.headers.insert(i, ('via', 'SIP/2.0/UDP %s:%d;branch=z9hG4bKr%s' % (*self.addr, m.branch)))
            if m.h('max-forwards'): m.set('max-forwards', str(int(m.h('max-forwards')) - 1))
            self.sim.send(self.addr, self.to, m.enc())
        else:
            vs = m.vias[1:]
            m.rem('via')
            m.headers[:0] = [('via', v) for v in vs]
            if vs: self.sim.send(self.addr, S.resp_addr(vs[0]), m.enc())
            else: self.bad = data

def invites(sim, src, dst = None):
    seen, out = set(), []
    for p in sim.wire:
        if p.src != src or not p.data.startswith(b'INVITE') or (dst and p.dst != dst): continue
        m = p.msg
        if m.ttag is None and m.key() not in seen: seen.add(m.key()); out.append((p, m))
    return out

def case(seed, R, tier):
    rng = random.Random(seed)
    topo = rng.choice(['one', 'one', 'one', 'loop', 'loop', 'ring'])
    mf = rng.choice([None, 0, 1, 1, 2, 2, 3, 5, 9, 16, 70, 70, 71, 255, 300, rng.randrange(256)])
    if topo == 'ring' and (mf is None or mf > 16): mf = rng.randrange(1, 25)
    if topo == 'ring' and rng.random() < .02: mf = 70
    (one if topo == 'one' else loop if topo == 'loop' else ring)(rng, seed, R, mf)

def setmf(leg, mf, rng):
    leg.invite.rem('max-forwards')
    if mf is not None: leg.invite.headers.insert(rng.randrange(len(leg.invite.headers)), ('max-forwards', rng.choice(['%d', '%d', '0%d']) % mf))
    leg.itx.data = leg.invite.enc()

def mfs(m): return [int(v) for v in m.hs('max-forwards')]

def one(rng, seed, R, mf):
    n = rng.randrange(1, 4)
    ans = rng.randrange(1, n + 2)
    f = lambda i: lambda leg, m: d.after(rng.choice([.01, .4]), *((leg.answer, SDP('10.0.2.1')) if i == ans else (leg.refuse, rng.choice([486, 482, 483, 404]))))
    st = n == 1 and rng.random() < .3
    d = Demo([f(i + 1) for i in range(n)], routes = None if st else ['10.0.2.%d' % (i + 1) for i in range(n)], seed = seed)
    leg = d.caller.call(d.w.addr, '1000', 'alice', SDP('10.0.1.1'), start = False)
    setmf(leg, mf, rng)
    leg.itx.start()
    d.run(10)
    out = invites(d.sim, d.w.addr)
    det = lambda: dict(mf = mf, n = n, ans = ans, final = leg.final, out = [m.enc().decode() for p, m in out])
    R.ev(('one', mf, n, ans, leg.final))
    if mf is not None and mf <= 1:
        R.count('refused')
        R.check(not out, 'INVITE forwarded although Max-Forwards was %d' % mf, 'forwarded', det)
        R.check(leg.final == 483, 'caller got %s, expected 483' % leg.final, 'answer', det)
    else:
        R.count('forwarded')
        if mf is None: R.count('absent')
        R.check(len(out) == min(ans, n), '%d attempts' % len(out), 'attempts', det)
        for p, m in out:
            x = mfs(m)
            if mf is None: R.check(len(x) == 1 and 0 < x[0] <= 255, 'Max-Forwards %s' % x, 'count', det)
            else: R.check(x == [mf - 1], 'Max-Forwards %s, received %d' % (x, mf), 'count', det)
    d.w.close()

def loop(rng, seed, R, mf):
    """the route leads back here, through k proxies"""
    if mf is None: mf = 70
    k = rng.randrange(4)
    mf = max(mf, 2)
    far = rng.choice([None, None, 1, 2])
    more = rng.random() < .4
    first = '10.0.2.9' if k else '10.0.0.1'
    d = Demo([lambda leg, m: d.after(.01, leg.answer, SDP('10.0.2.1'))], routes = [first] + (['10.0.2.1'] if more else []), seed = seed)
    rl = []
    for i in range(k):
        st = rng.randrange(4)
        if st: R.count('via rewritten')
        rl.append(Relay(d.sim, ('10.0.2.9', 5060) if i == 0 else ('10.0.2.%d' % (20 + i), 5060), d.w.addr if i == k - 1 else ('10.0.2.%d' % (21 + i), 5060), st))
    if rng.random() < .3:
        d.sim.default_link = vsim.Link(loss = .15, dup = .1)
    leg = d.caller.call(d.w.addr, '1000', 'alice', SDP('10.0.1.1'), start = False)
    setmf(leg, mf, rng)
    leg.itx.start()
    d.run(33)
    out = invites(d.sim, d.w.addr)
    tome = [p for p in d.sim.delivered if p[1].dst == d.w.addr and p[1].src != ('10.0.1.1', 5060) and p[1].data.startswith(b'INVITE')]
    det = lambda: dict(mf = mf, proxies = k, more = more, final = leg.final, wire = [repr(p) for p in d.sim.wire][:40])
    R.ev(('loop', mf, k, more, leg.final))
    lost = d.sim.default_link.loss
    R.count('loop')
    R.check(len([m for p, m in out if p.dst != ('10.0.2.1', 5060)]) == 1, '%d INVITEs sent into the loop' % len(out), 'loop', det)
    r = [p for p in d.sim.wire if p.src == d.w.addr and p.data.startswith(b'SIP/2.0') and p.dst != ('10.0.1.1', 5060)]
    R.check(not any(hasattr(x, 'bad') for x in rl), 'answer without the Via list of the request: %s' % [x.bad for x in rl if hasattr(x, 'bad')], 'loop answer', det)
    R.check(all(p.data.startswith((b'SIP/2.0 482', b'SIP/2.0 200')) for p in r), 'looped INVITE answered %s' % [p.data[:20] for p in r if not p.data.startswith(b'SIP/2.0 482')][:2], 'loop answer', det)
    if tome and not lost: R.check(r, 'looped INVITE not answered', 'loop answer', det)
    if not lost: R.check(leg.final == (200 if more else 482), 'caller got %s' % leg.final, 'answer', det)
    else: R.check(leg.final in (None, 408, 200 if more else 482), 'caller got %s' % leg.final, 'answer', det)
    for p, m in out: R.check(mfs(m) == [mf - 1], 'Max-Forwards %s, received %d' % (mfs(m), mf), 'count', det)
    d.w.close()

def ring(rng, seed, R, mf):
    """instances that route every call to the next one"""
    n = rng.choice([2, 2, 3])
    prox = [rng.random() < .3 for _ in range(n)]
    ws = []
    for i in range(n):
        w = World(seed + i, sim = ws[0].sim if ws else None, addr = ('10.0.0.%d' % (i + 1), 5060), auth = False, acct = False,
                  route = '10.0.2.%d' % (i + 1) if prox[i] else '10.0.0.%d' % ((i + 1) % n + 1))
        ws.append(w)
    sim = ws[0].sim
    for i in range(n):
        if prox[i]: Relay(sim, ('10.0.2.%d' % (i + 1), 5060), ws[(i + 1) % n].addr)
    p = ws[0].peer('10.0.1.1')
    leg = p.call(ws[0].addr, '1000', 'alice', SDP('10.0.1.1'), start = False)
    setmf(leg, mf, rng)
    leg.itx.start()
    ws[0].run(31)
    det = lambda: dict(mf = mf, n = n, prox = prox, final = leg.final, wire = [repr(x) for x in sim.wire if x.data[:6] == b'INVITE'][:100])
    R.ev(('ring', mf, n, tuple(prox), leg.final))
    R.count('ring')
    # follow the call around
    exp, i, left = [], 0, mf
    while left > 1:
        left -= 1
        exp.append((ws[i].addr, left))
        if prox[i]: left -= 1
        i = (i + 1) % n
    got = []
    for w in ws: got += [(x.t, w.addr, mfs(m)[0]) for x, m in invites(sim, w.addr)]
    got = [(a, m) for t, a, m in sorted(got)]
    R.count('ring hops', len(got))
    R.check(got == exp, 'hops %s, expected %s' % (got, exp), 'ring', det)
    R.check(leg.final == 483, 'caller got %s, expected 483' % leg.final, 'answer', det)
    for w in ws: w.radius.close()
    ws[0].close()
