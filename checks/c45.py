"""C45: transfers and redirections followed from the party that asks for them to the party that is told, judged from the wire
Whole calls on the simulated network: REFER and BYE with Also from either side, in and out of session updates, 3xx answers to the first and to later INVITEs. What the other party was sent is compared with what was asked for, and both legs are followed to their end."""
import random
import siplite as S
from siplite import response
from vsim import Link
from b2bworld import World, routing_lines
RULE = 'seeded calls x who transfers (caller, callee) x how (REFER, BYE with Also, REFER without target, REFER while its own update is outstanding) x targets (URI parameters, embedded headers, display names, header parameters) x how the other party takes it (accepts, provisional answers first, refuses, silence, hangs up itself) x loss; and 3xx answers x contacts x routes left x earlier ringing x first or later INVITE. Distinct by kind, party, target shape and outcome.'
N = {'quick': 4000, 'thorough': 80000}
NEED = {'transfers': 1200, 'by the callee': 400, 'told with REFER': 900, 'provisional first': 120, 'silent': 60, 'other hung up': 100, 'no target': 80, 'during an update': 120, 'redirected': 500, 'several contacts': 60, 'redirected update': 80, 'with loss': 300, 'hunted on': 60}
EPS = .2
T = ['<sip:300@192.0.2.9>', '<sip:300@192.0.2.9;user=phone>', '"Bob" <sip:bob@192.0.2.9:5066>', '"Bob B. \\"x\\"" <sip:bob@192.0.2.9:5066;transport=tcp>', '<sip:b%20b@192.0.2.9>',
     '<sip:300@192.0.2.9?Replaces=abc%40x%3Bto-tag%3D1%3Bfrom-tag%3D2>', '<sip:300@192.0.2.9;x=y?Replaces=a&Require=replaces>', '<sip:192.0.2.9>', 'sip:300@192.0.2.9', '<sip:300@[2001:db8::1]:5070>', '<sip:300@example.org>;a=b;c', '<sips:300@example.org>']
CT = T[:3] + ['"Al, Bert" <sip:al@192.0.2.7;x=%41>', '<sip:300@192.0.2.9>;q=0.7', '<sip:301@192.0.2.8:5071>;q=0.3;expires=60', '<sip:@192.0.2.9>'][:3] + ['<sip:302@192.0.2.6;lr?a=b>']

def addr(v):
    """(name, uri, header parameters) of an address header value"""
    v = v.strip()
    name = ''
    if v.startswith('"'):
        i = 1
        while v[i] != '"': i += 2 if v[i] == '\\' else 1
        name, v = v[1:i], v[i + 1:].strip()
    elif '<' in v and not v.startswith('<'):
        name, v = v.split('<', 1)
        name, v = name.strip(), '<' + v
    if v.startswith('<'):
        u, _, p = v[1:].partition('>')
    else: u, _, p = v.partition(';')
    return name, u, tuple(x.strip() for x in p.split(';') if x.strip())

def brief(P, t0): return [(round(e[0] - t0, 2), e[1], (e[2].method if e[2].is_req else e[2].code, e[2].cseq, e[2].hs('refer-to'), e[2].hs('contact')) if e[2] is not None else 'again') for e in P.log][-60:]

def case(seed, R, tier):
    rng = random.Random(seed)
    w = World(seed, auth = True, digest = False, acct = rng.random() < .3)
    try: (transfer if rng.random() < .68 else redirect)(rng, R, w)
    finally: w.close()

def transfer(rng, R, w):
    sim = w.sim
    A, B = w.peer('10.0.1.1'), w.peer('10.0.2.1')
    lossy = rng.random() < .2
    if lossy: sim.default_link = Link(loss = .15, dup = .1); R.count('with loss')
    w.radius.on_auth = lambda q: (0, .01, routing_lines(['x1@10.0.2.1']))
    legs = []
    def on_invite(leg, m):
        legs.append(leg)
        sim.after(.3, lambda: leg.answer(S.mksdp('10.0.2.1', 30000, 5, 55)))
    B.on_invite = on_invite
    a = A.call(w.addr, '5000', 'alice', S.mksdp('10.0.1.1', 20000, 6, 66))
    w.run(20 if lossy else 3)
    if a.state != 'est' or not legs or legs[0].state != 'est':
        if not lossy: R.fail('call not set up: %s' % a.state, 'setup', brief(A, sim.t0))
        return
    b = legs[0]
    back = rng.random() < .4
    me, other = (b, a) if back else (a, b)
    kind = rng.choice(['refer'] * 6 + ['also'] * 3 + ['none', 'update', 'update'])
    if lossy and kind == 'update': kind = 'refer'       # the update and the REFER may overtake each other
    tgt = rng.choice(T)
    how = rng.choice(['ok', 'ok', 'ok', 'prov', 'prov', 'refuse', 'silent', 'bye', 'byefirst', 'late'])
    code = rng.choice([200, 202]) if how != 'refuse' else rng.choice([400, 405, 481, 486, 500, 501, 503, 603])
    d = 0 if how in ('ok', 'refuse') else rng.uniform(.3, 6)
    npr = rng.choice([1, 2, 3])
    refers, finals = [], []
    def on_request(leg, stx):
        if stx.req.method != 'REFER': return False
        refers.append((sim.now, stx))
        def fin():
            finals.append((sim.now, code))
            stx.reply(response(stx.req, code, None, leg.ltag))
            if how == 'bye': leg.bye()
        if how == 'silent': return True
        if how == 'prov':
            for k in range(npr): sim.after(d * k / npr, lambda: stx.reply(response(stx.req, rng.choice([100, 180, 183]), None, leg.ltag)))
        if how == 'byefirst': leg.bye()
        if d: sim.after(d, fin)
        else: fin()
        return True
    other.on_request = on_request
    res = []
    hold = rng.random() < .5
    uresp = []
    if kind == 'update':
        stuck = []
        def hold_update(leg, stx):
            if stx.req.method == 'INVITE': stuck.append(stx); return True      # never answered
            return on_request(leg, stx)
        other.on_request = hold_update
        me.request('INVITE', S.mksdp('10.0.2.1' if back else '10.0.1.1', 21000, 7, 77), cb = lambda m, tx: uresp.append(m))
        w.run(1)
        if not uresp: pass
    t = sim.now
    n0 = len(legs)
    extra = [('Refer-To' if kind != 'also' else 'Also', tgt)] if kind != 'none' else []
    if rng.random() < .3: extra.append(('Referred-By', '<sip:someone@else.where>'))
    tries = []
    def cb(m, tx): tries.append((sim.now, m))
    if kind == 'also':
        me.bye(cb = cb, extra = extra)
    else: me.request('REFER', cb = cb, extra = extra)
    w.run(90)
    det = lambda: dict(kind = kind, by = 'callee' if back else 'caller', at = round(t - sim.t0, 2), target = tgt, how = how, code = code, delay = d, loss = lossy, caller = brief(A, sim.t0), callee = brief(B, sim.t0))
    R.count('transfers')
    if back: R.count('by the callee')
    got = [(x, m.code if m is not None else None) for x, m in tries if m is None or m.code >= 200]
    P = other.peer
    told = {}
    for e in P.log:
        if e[1] == 'in' and e[2].is_req and e[2].method == 'REFER' and e[0] >= t: told.setdefault(e[2].branch, (e[0], e[2]))
    told = sorted(told.values(), key = lambda x: x[0])
    def byes(leg):
        s = {}
        for e in leg.peer.log:
            if e[1] == 'in' and e[2].is_req and e[2].method == 'BYE' and e[2].callid == leg.callid: s.setdefault(e[2].branch, e[0])
        return sorted(s.values())
    out = None
    if R.check(len(got) >= 1 and len(set(c for x, c in got)) == 1, 'the request to transfer was answered %s' % [c for x, c in got], 'not answered', det):
        want = dict(refer = 202, also = 200, none = 400, update = 202)[kind]
        R.check(got[0][1] == want and (lossy or got[0][0] - t < EPS), 'the request to transfer was answered %d after %.2f s' % (got[0][1], got[0][0] - t), 'answer', det)
        if kind == 'none':
            R.count('no target')
            R.check(not told and a.state == b.state == 'est' and not byes(a) and not byes(b), 'a REFER without a target ended the call', 'no target', det)
            out = 'refused'
        else:
            mine, theirs = byes(me), byes(other)
            if kind != 'also': R.check(len(mine) == 1 and (lossy or mine[0] - t < EPS), 'the party that transferred was sent BYE at %s' % [round(x - t, 2) for x in mine], 'transferring leg', det)
            else: R.check(not mine, 'BYE sent to the party that hung up', 'transferring leg', det)
            R.check(me.state == 'ended', 'the leg that transferred is left %s' % me.state, 'leg left', det)
            if kind == 'update':
                R.count('during an update')
                R.check(uresp and uresp[-1] is not None and uresp[-1].code == 487 and len([m for m in uresp if m is not None and m.code >= 200]) >= 1, 'the update was answered %s' % [m and m.code for m in uresp], 'update answer', det)
                R.check(len(theirs) == 1 and (lossy or theirs[0] - t < EPS or told), 'the other leg was released at %s' % [round(x - t, 2) for x in theirs], 'other leg', det)
                out = 'released'
            elif R.check(len(told) == 1 and (lossy or told[0][0] - t < EPS), 'the other party was sent %d REFER, at %s' % (len(told), [round(x - t, 2) for x, m in told]), 'told', det):
                R.count('told with REFER')
                m = told[0][1]
                rt, rb = m.hs('refer-to') + m.hs('r'), m.hs('referred-by') + m.hs('b')
                R.check(len(rt) == 1 and addr(rt[0]) == addr(tgt), 'asked for %r, the other party was told %s' % (tgt, rt), 'target', det)
                if R.check(len(rb) == 1, 'Referred-By %s' % rb, 'referred-by', det):
                    R.check(S.split_uri(addr(rb[0])[1])[1] == S.split_uri(addr(m.h('from'))[1])[1], 'Referred-By %s, the leg is from %s' % (rb[0], m.h('from')), 'referred-by', det)
                tt = refers[0][0] if refers else None
                if how == 'prov': R.count('provisional first')
                if how == 'silent': R.count('silent')
                if how in ('bye', 'byefirst'): R.count('other hung up')
                at = tt + 32 if how == 'silent' else finals[0][0] if finals else None
                if R.check(len(theirs) == 1, 'the other party was sent %d BYE, at %s' % (len(theirs), [round(x - t, 2) for x in theirs]), 'other BYE', det) and at is not None:
                    if not lossy: R.check(-.06 <= theirs[0] - at < EPS + (.5 if how == 'silent' else 0), 'the REFER was settled at %.2f, the leg was released at %.2f' % (at - t, theirs[0] - t), 'other BYE', det)
                    else: R.check(theirs[0] > tt, 'released before told', 'other BYE', det)
                out = how
            R.check(other.state == 'ended', 'the other leg is left %s' % other.state, 'leg left', det)
    R.check(len(legs) == n0, 'the transfer made a new call', 'new call', det)
    R.check(not a.errors and not b.errors, '%s' % (a.errors + b.errors)[:2], 'dialog', det)
    if kind == 'none': a.bye()
    w.run(900)
    R.check(not w.cmap.ccmap, 'the call is still listed', 'still listed', det)
    R.sample(dict(kind = kind, target = tgt, outcome = out))
    R.ev((kind, back, tgt, how, code, lossy, out), out is not None)

def contacts(rng):
    n = rng.choice([0, 1, 1, 1, 2, 3, 4])
    cs = [rng.choice(CT) for _ in range(n)]
    hs = []
    i = 0
    while i < n:
        k = rng.choice([1, 1, 2, 3])
        hs.append(('contact', ', '.join(cs[i:i + k])))
        i += k
    return cs, hs

def redirect(rng, R, w):
    sim = w.sim
    A, B = w.peer('10.0.1.1'), w.peer('10.0.2.1')
    lossy = rng.random() < .15
    if lossy: sim.default_link = Link(loss = .15, dup = .1); R.count('with loss')
    two = rng.random() < .35
    rts = ['x0@10.0.2.1'] + (['x1@10.0.2.1'] if two else [])
    w.radius.on_auth = lambda q: (0, .01, routing_lines(rts))
    legs = {}
    code = rng.choice([300, 300, 301, 301, 302, 302, 302, 305, 380])
    cs, hs = contacts(rng)
    reason = rng.choice([None, 'Go There', 'Moved  (really); "x"'])
    prov = rng.choice([0, 0, 1, 2])
    later = rng.random() < .22
    def on_invite(leg, m):
        n = S.split_uri(m.uri)[1]
        if not R.check(n not in legs, 'a route was tried twice', 'twice', lambda: brief(B, sim.t0)): return
        legs[n] = leg
        if later or n == 'x1': sim.after(.3, lambda: leg.answer(S.mksdp('10.0.2.1', 30000, 5, 55))); return
        for k in range(prov): sim.after(.2 * (k + 1), lambda: leg.provisional(rng.choice([180, 183])))
        sim.after(1, lambda: leg.refuse(code, reason, hs))
    B.on_invite = on_invite
    fin = []
    a = A.call(w.addr, '5000', 'alice', S.mksdp('10.0.1.1', 20000, 6, 66))
    a.app['on_final'] = lambda l, m: fin.append(m)
    det = lambda: dict(code = code, contacts = cs, reason = reason, routes = rts, later = later, caller = brief(A, sim.t0), callee = brief(B, sim.t0))
    keep = 'contact' in [n for n, v in hs] and code in (300, 301, 302)
    want = [addr(c) for c in (cs if code == 300 else cs[:1])] if keep else []
    def judge(m, what):
        if not R.check(m is not None, '%s was not answered' % what, 'not answered', det): return
        R.check(m.code == code and (reason is None or m.reason == reason), '%s redirected with %d %s, answered %d %s' % (what, code, reason, m.code, m.reason), 'code', det)
        got = [addr(x) for v in m.hs('contact') + m.hs('m') for x in S.split_commas(v)]
        if keep: R.check(got == want, '%s redirected to %s, the party was told %s' % (what, want, got), 'contacts', det)
    w.run(20 if lossy else 6)
    out = None
    if not later:
        R.count('redirected')
        if len(cs) > 1 and code == 300: R.count('several contacts')
        if two and not keep:
            R.count('hunted on')
            R.check('x1' in legs and (lossy or a.state == 'est'), 'refused with %d and no use for a redirection, the next route was not used' % code, 'next route', det)
            out = 'next'
        else:
            R.check('x1' not in legs, 'the next route was tried after a redirection', 'redirected and hunted', det)
            if not (lossy and not fin): judge(fin[0] if fin else None, 'the call')
            out = 'told'
    elif a.state == 'est':
        R.count('redirected update')
        b = legs['x0']
        back = rng.random() < .5
        me, other = (b, a) if back else (a, b)
        def on_request(leg, stx):
            if stx.req.method != 'INVITE': return False
            stx.reply(response(stx.req, code, reason, leg.ltag, hs))
            return True
        other.on_request = on_request
        res = []
        me.request('INVITE', S.mksdp('10.0.2.1' if back else '10.0.1.1', 21000, 7, 77), cb = lambda m, tx: res.append(m))
        w.run(40)
        f = [m for m in res if m is not None and m.code >= 200]
        if f or not lossy: judge(f[0] if f else None, 'the update')
        if not lossy: R.check(a.state == b.state == 'est', 'the call ended when an update was redirected', 'update ended the call', det)
        out = 'later'
    for l in [a] + list(legs.values()): R.check(not l.errors, '%s' % l.errors[:2], 'dialog', det)
    a.bye()
    w.run(900)
    R.check(not w.cmap.ccmap, 'the call is still listed', 'still listed', det)
    R.sample(dict(code = code, contacts = cs, outcome = out))
    R.ev(('redirect', code, tuple(cs), tuple(v for n, v in hs), reason, two, later, prov, lossy, out), out is not None)
