"""C37: where every answer and in-dialog request is sent, against the addresses the traffic really came from
Peers with chosen source addresses, Via and Contact contents on the simulated network; each datagram leaving the instance is judged by destination and, for answers, by what the topmost Via records."""
import random, re
import vsim, siplite as S
from siplite import response
from b2bworld import World
import peers
RULE = 'seeded calls and other requests x NAT traversal on/off x Via host (real, private of each range, just outside them, another, a name, .invalid), port (real, other, none), rport (absent, empty, stale value), stale received x Contact host (the same kinds, 255.255.255.255), port (given, 0, none) x one or two Vias, both for the caller and, in its answers, for a callee at a public or private address. Distinct by those choices.'
N = {'quick': 4000, 'thorough': 100000}
NEED = {'other transport': 1200, 'answers judged': 12000, 'corrected': 4000, 'rport': 3000, 'nated': 500, 'in-dialog judged': 6000, 'caller replaced': 400, 'callee replaced': 300, 'as given': 1500, 'via proxy': 500, 'stale received': 300, 'other requests': 600}

def priv(h):
    m = re.match(r'(\d+)\.(\d+)\.(\d+)\.(\d+)$', h)
    if not m: return False
    a, b = int(m.group(1)), int(m.group(2))
    return a == 10 or a == 172 and 16 <= b < 32 or a == 192 and b == 168

class NPeer(peers.Peer):
    def via(self, leg = None, branch = None):
        return 'SIP/2.0/UDP %s;branch=%s%s' % (self.v_hp, branch or 'z9hG4bK' + self.uid(), self.v_par)

def hosts(rng, ip, n):
    return rng.choice([ip, ip, '10.7.%d.9' % n, '192.168.1.%d' % n, '172.%d.0.%d' % (rng.randrange(16, 32), n), '172.%d.0.%d' % (rng.choice([15, 32]), n), '11.0.0.%d' % n, '192.169.1.%d' % n, '198.51.100.%d' % n, 'ua%d.example.com' % n])

def case(seed, R, tier):
    rng = random.Random(seed)
    nat = rng.random() < .65
    cip, cport = '203.0.113.%d' % rng.randrange(1, 200), rng.choice([5060, 5060, 40001, 1024])
    bip = rng.choice(['203.0.113.250', '203.0.113.250', '10.0.2.1'])
    bport = rng.choice([5060, 5070])
    w = World(seed, auth = False, acct = False, route = '%s:%d' % (bip, bport), opts = [('nat_traversal', 'yes')] if nat else [])
    try: body(rng, R, w, nat, (cip, cport), (bip, bport))
    finally: w.close()

def hp(h, p): return h if p is None else '%s:%d' % (h, p)

def body(rng, R, w, nat, ca, ba):
    sim = w.sim
    # what the caller claims
    vh = rng.choice([hosts(rng, ca[0], 1), hosts(rng, ca[0], 1), 'df7jal23ls0d.invalid'])
    vp = rng.choice([ca[1], ca[1], None, 5060, 6000])
    rp = rng.choice([None, '', '', '9'])
    rcv = rng.choice([None, None, None, '198.51.100.77'])
    par = ''.join(rng.sample([x for x in [rp is not None and (';rport=' + rp if rp else ';rport'), rcv and ';received=' + rcv, rng.random() < .3 and ';alias', rng.random() < .3 and ';x=1'] if x], k = len([x for x in [rp is not None, rcv] if x or x == ''])) if False else [x for x in [rp is not None and (';rport=' + rp if rp else ';rport'), rcv and ';received=' + rcv, rng.random() < .3 and ';alias', rng.random() < .3 and ';x=1'] if x])
    nated = nat and ca[1] != vp and (priv(vh) or vh.endswith('.invalid'))
    want_rport = rp is not None or nated
    rdst = (ca[0], ca[1] if want_rport else vp or 5060)
    two = rng.random() < .25
    ch = rng.choice([hosts(rng, ca[0], 2), hosts(rng, ca[0], 2), '255.255.255.255'])
    cp = rng.choice([ca[1], None, 5062, 0])
    if ch == '255.255.255.255' and not (nat and not two): ch = ca[0]
    if cp == 0 and not (nat and not two): cp = 5062
    tps = [''] * 5 + [';transport=udp', ';transport=UDP', ';transport=tcp', ';transport=TCP', ';transport=tls', ';transport=ws']
    tp, btp = rng.choice(tps), rng.choice(tps)
    for x in (tp, btp):
        if x and x != ';transport=udp': R.count('other transport')
    given = 'sip:alice@%s' % hp(ch, cp) + tp
    repl = nat and not two and (priv(ch) or cp == 0 or ch == '255.255.255.255')
    target = 'sip:alice@%s:%d' % ca + tp if repl else given
    extra = {rdst, S.uri_addr(target)} - {ca}
    A = NPeer(sim, ca, 'alice', extra_addrs = sorted(extra))
    A.v_hp, A.v_par = hp(vh, vp), par
    # what the callee claims in its answers
    bh = hosts(rng, ba[0], 3)
    bp = rng.choice([ba[1], None, 5064])
    bgiven = 'sip:bob@%s' % hp(bh, bp) + btp
    brepl = nat and not priv(ba[0]) and priv(bh)
    btarget = 'sip:bob@%s:%d' % ba + btp if brepl else bgiven
    B = peers.Peer(sim, ba, 'bob', extra_addrs = sorted({S.uri_addr(btarget)} - {ba}))
    kind = rng.choice(['answered'] * 6 + ['refused', 'cancelled', 'other', 'other'])
    st = {}
    def on_invite(leg, m):
        st['b'] = leg
        leg.contact_uri, leg.exp_target = bgiven, btarget
        sim.after(.05, leg.provisional, rng.choice([180, 183, 100]))
        if kind == 'refused': sim.after(.5, leg.refuse, 486)
        elif kind == 'answered': sim.after(.5, lambda: leg.answer(S.mksdp(ba[0], 30000)))
    B.on_invite = on_invite
    det = lambda: dict(nat = nat, source = ca, via = A.v_hp + A.v_par, contact = given, vias = 2 if two else 1, callee = ba, callee_contact = bgiven, kind = kind, sent = [(round(p.t - sim.t0, 2), p.dst, p.data[:60].decode(), re.findall(rb'(?im)^v(?:ia)?:.*$', p.data)[:1]) for p in sim.wire if p.src == w.addr][:30])
    via_extra = ['SIP/2.0/UDP 198.51.100.5;branch=z9hG4bKq%d' % rng.randrange(10**6)] if two else ()
    if two: R.count('via proxy')
    legs = []
    if kind == 'other':
        R.count('other requests')
        for i in range(2): A.ooreq(rng.choice(['OPTIONS', 'INFO', 'SUBSCRIBE', 'MESSAGE', 'BYE', 'NOTIFY']), w.addr, to = rng.choice([None, '<sip:x@%s>;tag=none' % w.addr[0]]))
        w.run(40)
    else:
        leg = A.call(w.addr, '100', 'alice', S.mksdp(ca[0], 20000), contact = given, via_extra = via_extra)
        leg.exp_target = target
        legs.append(leg)
        if kind == 'cancelled': sim.after(1, leg.cancel)
        w.run(5)
        if kind == 'answered':
            if R.check(leg.state == 'est' and 'b' in st and st['b'].state == 'est', 'the call was not set up: %s' % leg.final, 'setup', det):
                b = st['b']
                who = rng.choice([leg, b])
                def re_req(l, stx):
                    return False
                # requests in both directions
                for l in rng.sample([leg, b], 2):
                    k = rng.choice(['re', 'info', None])
                    if k == 're':
                        l.sdpn = getattr(l, 'sdpn', 1) + 1
                        l.lsdp = S.mksdp(l.peer.addr[0], 20000, l.sdpn)
                        l.reinvite(l.lsdp)
                    elif k == 'info': l.request('INFO', b'Signal=1\r\n', ctype = 'application/dtmf-relay')
                    w.run(3)
                who.bye()
                w.run(40)
                for l, n in ((leg, 'caller'), (b, 'callee')):
                    R.check(l.state == 'ended', 'the %s was not released' % n, 'not released', det)
        else: w.run(40)
    if 'b' in st: legs.append(st['b'])
    # answers
    for p in sim.wire:
        if p.src != w.addr: continue
        m = S.parse(p.data)
        if m.is_req: continue
        top = m.vias[0]
        h = S.via_host(top)
        if not re.search(re.escape(A.v_hp) + r'(?![\d.])', m.vias[0]): continue        # an answer to the callee
        R.count('answers judged')
        exp = rdst
        R.check(p.dst == exp, '%d was sent to %s, expected %s (Via %s)' % (m.code, p.dst, exp, top), 'answer destination', det)
        r, rpp = S.param(top, 'received'), S.param(top, 'rport')
        if vh != ca[0]:
            R.count('corrected')
            R.check(r == ca[0], 'the Via %s does not record the source %s' % (top, ca[0]), 'received', det)
        else:
            if rcv: R.count('stale received')
            R.check(r in (None, ca[0]), 'the Via %s records a source other than %s' % (top, ca[0]), 'stale received', det)
        if want_rport:
            R.count('nated' if rp is None else 'rport')
            R.check(rpp == str(ca[1]), 'the Via %s does not record the source port %d' % (top, ca[1]), 'rport', det)
        else: R.check(rpp is None, 'the Via %s got an rport nobody asked for' % top, 'rport', det)
        if two and m.cseq[1] == 'INVITE' and legs and m.cseq[0] == legs[0].invite.cseq[0]: R.check(len(m.vias) == 2 and m.vias[1].replace(' ', '') == via_extra[0].replace(' ', ''), 'Vias %s' % m.vias, 'second via', det)
    for l in legs:
        n = 'caller' if l.role == 'uac' else 'callee'
        got = [e for e in l.peer.log if e[1] == 'in' and e[2].is_req and e[2].ttag == l.ltag]
        R.count('in-dialog judged', len(got))
        if got and (repl if n == 'caller' else brepl): R.count(n + ' replaced')
        elif got: R.count('as given')
        R.check(not l.errors, '%s (%s): %s' % (n, l.contact_uri, l.errors[:2]), n + ' target', det)
    R.sample(dict(nat = nat, source = ca, via = A.v_hp + A.v_par, contact = given, callee_contact = bgiven))
    R.ev((nat, ca[1], vh[:4], vp, rp, rcv, two, ch[:4], cp, bh[:4], bp, kind), True)
