"""C11: wire monitor at the callees against the requests the real admission code sent to the RADIUS server and the verdicts it got
Whole instances on the simulated network; an independent model says for every INVITE whether it must be refused at once, what the server must be asked, and until when nothing may reach any callee."""
import random, re
import vsim, siplite as S
from kit import Demo, SDP
from b2bworld import World, routing_lines
RULE = 'seeded instances (RADIUS on/off, digest on/off/only, accepted addresses, extra attributes from a header, accounting) x 1-6 calls from 4 addresses, directly or through 1-2 proxies; no, complete, incomplete, foreign credentials; verdict accept/refuse/error/broken/never, at once or late, before/after CANCEL and caller expiry; challenged callers come back. Distinct by configuration and per-call (source, credentials, verdict, order of events).'
N = {'quick': 2500, 'thorough': 80000}
NEED = {'not accepted': 300, 'digest only': 200, 'refused': 500, 'accepted': 1500, 'undecided': 150, 'cancelled before verdict': 150, 'digest': 800, 'address': 1000, 'challenge': 400, 'second via': 500, 'extra attributes': 200, 'incomplete': 150, 'no authentication': 200, 'records': 500}
EPS = 1e-3
FOREIGN = ['Basic QWxhZGRpbjpvcGVu', 'Digest', 'NTLM realm="x"', 'Bearer abc']

def creds(rng, kind, realm, nonce = None):
    q = {'username': rng.choice(['bob', 'alice', '1000', 'a b', 'u@dom.test', 'x=1', 'zoë', "o'x"]), 'realm': realm, 'nonce': nonce or '%032x' % rng.getrandbits(128), 'uri': rng.choice(['sip:%s' % realm, 'sip:1000@%s' % realm, 'sip:1@h;x=1,2']), 'response': '%032x' % rng.getrandbits(128)}
    if kind == 'incomplete':
        for k in rng.sample(sorted(q), rng.choice([1, 1, 2, 4])):
            if k == 'username' and rng.random() < .5: q[k] = ''
            else: del q[k]
    ks = list(q)
    rng.shuffle(ks)
    t = ['%s="%s"' % (k, q[k]) for k in ks]
    if rng.random() < .3: t.append('algorithm=MD5')
    if rng.random() < .2: t.append('opaque="x,y"')
    return 'Digest ' + rng.choice([',', ', ']).join(t), q

def case(seed, R, tier):
    rng = random.Random(seed)
    auth = rng.random() < .85
    digest = rng.random() < .75
    only = rng.random() < .3
    acct = rng.random() < .5
    accept = rng.sample(['10.0.1.1', '10.0.1.2', '10.0.1.3', '10.0.1.4'], rng.choice([1, 2, 3])) if rng.random() < .4 else None
    xattr = rng.choice(['X-Attrs', 'x-attrs']) if rng.random() < .25 else None
    opts = []
    if accept is not None: opts.append(('accept_ips', rng.choice([',', ', ']).join(accept + (['192.0.2.77'] if rng.random() < .2 else []))))
    if only: opts.append(('digest_auth_only', 'yes'))
    if xattr: opts.append(('pre_auth_proc', 'HDR2Xattrs[%s]' % xattr))
    if rng.random() < .15: opts.append(('static_tr_in', 's/^/9/')); tr = True
    else: tr = False
    static = not auth or rng.random() < .2
    w = World(seed, auth = auth, acct = acct, digest = digest, opts = opts, route = '10.0.2.1' if static else None)
    try:
        body(rng, R, w, auth, digest, only, acct, accept, xattr, tr, static)
    finally:
        w.close()

class C: pass

def body(rng, R, w, auth, digest, only, acct, accept, xattr, tr, static):
    callees = []
    seen = []           # everything that reached a callee: (t, number, msg)
    for i in range(2):
        p = w.peer('10.0.2.%d' % (i + 1))
        def on_invite(leg, m):
            w.sim.after(rng.random() * .2, lambda: leg.provisional(180))
            w.sim.after(.3 + rng.random(), lambda: leg.answer(SDP('10.0.2.9')))
        p.on_invite = on_invite
        rx = p._rx
        callees.append(p)
    peers = [w.peer('10.0.1.%d' % (i + 1)) for i in range(4)]
    calls = []
    def reach():
        for p in callees:
            for e in p.log:
                if e[1] == 'in': yield e[0], e[2]
    def on_auth(q):
        num = q.get('Called-Station-Id')
        c = next((c for c in calls[::-1] if c.num == num and c.q is None and c.leg is not None and q.get('call-id') == c.leg.callid), None)
        if c is None:
            R.fail('the RADIUS server was asked about number %r, call-id %r: no such call' % (num, q.get('call-id')), 'unknown request', [x.show() for x in calls])
            return (0, 0, ['1'])
        c.q = q
        if c.verdict == 'never': return None
        if c.verdict == 'accept': l = routing_lines(['10.0.2.1', '10.0.2.2'] if rng.random() < .3 else ['10.0.2.1'])
        elif c.verdict == 'refuse': l = rng.choice([['1'], ["Reply-Message = 'no'", '1'], routing_lines(['10.0.2.1'], verdict = 1)])
        else: l = rng.choice([['2'], ['-1'], routing_lines(['10.0.2.1'], verdict = 2), routing_lines(['10.0.2.1'], verdict = -1)])
        return (0.0, c.vdel, l)
    w.radius.on_auth = on_auth
    def start(c):
        p = peers[c.src]
        hd = list(c.headers)
        c.leg = p.call(w.addr, c.raw, c.frm, SDP('10.0.1.%d' % (c.src + 1)), headers = hd, via_extra = c.vias, ruri_host = c.host, callid = c.callid, uri = 'sip:%s@%s' % (c.raw, c.host))
        if c.cancel is not None: w.sim.after(c.cancel, c.leg.cancel)
        if c.hangup is not None: w.sim.after(c.hangup, lambda: c.leg.state == 'est' and c.leg.bye())
        if c.again:
            def fin(leg, m):
                if m is not None and m.code == 401 and m.h('www-authenticate') and c.again:
                    c.again = False
                    n = mk(len(calls))
                    n.src, n.raw, n.num, n.frm, n.host, n.vias, n.via2, n.callid = c.src, c.raw, c.num, c.frm, c.host, c.vias, c.via2, c.leg.callid
                    mm = re.search(r'nonce="([^"]*)"', m.h('www-authenticate'))
                    n.ckind = 'digest'
                    h, n.cred = creds(rng, 'digest', c.host, mm.group(1) if mm else None)
                    n.headers = [('authorization', h)]
                    n.xa = []
                    calls.append(n)
                    w.sim.after(.05, start, n)
            c.leg.app['on_final'] = fin
    def mk(i):
        c = C()
        c.src = rng.randrange(4)
        c.raw = '55%04d%d' % (rng.randrange(10000), i)
        c.num = ('9' if tr else '') + c.raw
        c.frm = rng.choice(['alice', '1001', "x'y", 'a.b', '+1555'])
        c.host = rng.choice(['10.0.0.1', '10.0.0.1', 'dom.test'])
        c.callid = None
        c.vias = []
        k = rng.random()
        c.via2 = None
        if k < .3:
            h = '10.9.0.%d' % rng.randrange(1, 200)
            c.vias = ['SIP/2.0/UDP %s:5060;branch=z9hG4bKq%d' % (h, i)]
            c.via2 = h
            if rng.random() < .3:
                c.via2 = '192.0.2.%d' % rng.randrange(1, 200)
                c.vias[0] += ';received=' + c.via2
            if rng.random() < .4: c.vias.append('SIP/2.0/UDP 10.8.0.1;branch=z9hG4bKr%d' % i)
        k = rng.random()
        c.ckind = 'none' if k < .4 else 'digest' if k < .8 else 'incomplete' if k < .93 else 'foreign'
        c.headers, c.cred = [], None
        if c.ckind == 'foreign': c.headers.append(('authorization', rng.choice(FOREIGN)))
        elif c.ckind != 'none':
            h, c.cred = creds(rng, c.ckind, c.host)
            c.headers.append(('authorization', h))
        c.xa = []
        if xattr and rng.random() < .7:
            for _ in range(rng.choice([1, 1, 2])):
                l = [(rng.choice(['Foo', 'X-Rate', 'Class']) , rng.choice(['1', 'a b', 'x=y', 'é'])) for _ in range(rng.choice([1, 2]))]
                c.xa += l
                c.headers.append((rng.choice(['X-Attrs', 'x-ATTRS']), ';'.join('%s=%s' % x for x in l)))
        c.verdict = rng.choice(['accept'] * 6 + ['refuse'] * 3 + ['error', 'never'])
        c.vdel = rng.choice([.001, .01, .1 + rng.random(), rng.random() * 5, 20 * rng.random(), 250 + rng.random() * 100 if rng.random() < .2 else 1])
        c.cancel = rng.choice([None, None, None, rng.random(), c.vdel, c.vdel + rng.choice([-.0005, .0005, .05]), rng.random() * 10])
        if c.cancel is not None and c.cancel < 0: c.cancel = .0001
        c.hangup = rng.choice([None, 5 + rng.random() * 10])
        c.again = rng.random() < .7
        c.q, c.leg = None, None
        c.show = lambda: {k: str(v)[:200] for k, v in c.__dict__.items() if k not in ('show', 'leg', 'q')} | {'asked': c.q and (c.q.t - w.sim.t0, c.q.lines, c.q.answered and c.q.answered - w.sim.t0), 'caller': [(round(h[0] - w.sim.t0, 4),) + h[1:] for h in c.leg.hist] if c.leg else None}
        return c
    for i in range(rng.choice([1, 2, 3, 4])):
        c = mk(i)
        calls.append(c)
        w.sim.after(rng.random() * rng.choice([0, .5, 5]), start, c)
    w.run(450)
    sig = []
    reached = {}
    for t, m in reach():
        n = re.search(r'sip:([^@>;]*)@', m.h('to') or '')
        reached.setdefault(n.group(1) if n else None, []).append((t, m))
    nums = set(c.num for c in calls)
    for n in reached:
        R.check(n in nums, 'something for %r reached a callee' % n, 'stray', [repr(x[1]) for x in reached[n]][:3])
    for num in sorted(nums):
        same = [c for c in calls if c.num == num and c.leg is not None]
        got = reached.get(num, [])
        ok = False              # anything may reach the callees from now on
        for c in same:
            det = lambda: dict(call = c.show(), config = dict(auth = auth, digest = digest, only = only, accept = accept, xattr = xattr), reached = [(t - w.sim.t0, repr(m)[:200]) for t, m in got][:4])
            leg = c.leg
            fin = getattr(leg, 'final_msg', None)
            code = leg.final
            ip = '10.0.1.%d' % (c.src + 1)
            usable = c.ckind == 'digest'
            q = c.q
            def challenged(yes):
                ch = fin.hs('www-authenticate') if fin is not None else []
                if not yes: return
                R.count('challenge')
                if not R.check(len(ch) == 1, '401 with %d challenges' % len(ch), 'challenge', det): return
                R.check(ch[0].lower().startswith('digest') and 'realm="%s"' % c.host in ch[0] and re.search(r'nonce="[^"]{8,}"', ch[0]), 'challenge is %r' % ch[0], 'challenge', det)
            if accept is not None and ip not in accept:
                R.count('not accepted'); sig.append('na')
                R.check(code == 403, 'source not accepted: caller got %s' % code, 'not accepted', det)
                R.check(q is None, 'source not accepted: the RADIUS server was asked', 'not accepted asked', det)
                continue
            if auth and digest and only and not usable:
                R.count('digest only'); sig.append('do')
                R.check(code == 401, 'no credentials, digest only: caller got %s' % code, 'digest only', det)
                R.check(q is None, 'no credentials, digest only: the RADIUS server was asked', 'digest only asked', det)
                challenged(True)
                continue
            if not auth:
                R.count('no authentication'); sig.append('open')
                ok = True
                R.check(q is None, 'authentication off, but the server was asked', 'asked', det)
                R.check(code in (200, 487), 'authentication off: caller got %s' % code, 'outcome', det)
                continue
            if not R.check(q is not None, 'the RADIUS server was not asked; caller got %s' % code, 'not asked', det): continue
            # what was asked
            rip = c.via2 or ip
            if c.via2: R.count('second via')
            want = []
            if usable:
                R.count('digest')
                u = c.cred['username']
                want = [('User-Name', u), ('Digest-Realm', c.cred['realm']), ('Digest-Nonce', c.cred['nonce']), ('Digest-Method', 'INVITE'), ('Digest-URI', c.cred['uri']), ('Digest-Algorithm', 'MD5'), ('Digest-User-Name', u), ('Digest-Response', c.cred['response'])]
            else:
                R.count('address')
                if c.ckind == 'incomplete': R.count('incomplete')
                want = [('User-Name', rip), ('Password', None)]
            want += [('Calling-Station-Id', c.frm), ('Called-Station-Id', c.num), ('call-id', leg.callid), ('h323-remote-address', rip), ('h323-session-protocol', 'sipv2')] + c.xa
            if c.xa: R.count('extra attributes', len(c.xa))
            have = sorted(('Password', None) if a == 'Password' else (a, v) for a, v in q.attrs)
            R.check(have == sorted(want, key = lambda x: (x[0], x[1] or '')), 'asked %s, expected %s' % (have, sorted(want, key = str)), 'attributes', det)
            # verdict
            can = leg.app.get('cancel_sent')
            over = leg.end_at
            if q.answered is None or over is not None and q.answered > over + EPS:
                R.count('undecided')
                R.check(code in (487,) or code is None and c.verdict == 'never', 'verdict never came: caller got %s' % code, 'undecided', det)
                if can: R.count('cancelled before verdict')
                sig.append('ud')
            elif c.verdict != 'accept':
                R.count('refused'); sig.append('rf')
                exp = {401} if digest and c.ckind == 'none' else {401, 403} if digest and not usable else {403}
                if can and abs(can - q.answered) < .2: exp.add(487)
                R.check(code in exp, 'refused: caller got %s' % code, 'refused', det)
                challenged(code == 401)
            else:
                R.count('accepted'); sig.append('ok')
                # (the caller is given 300 s in all)
                exp = {200} | ({487} if can or q.answered - q.t > 285 else set())
                R.check(code in exp, 'accepted: caller got %s' % code, 'outcome', det)
                if c is same[-1] and not can: R.check(bool(got), 'accepted, but no callee was called', 'not called', det)
            if q.answered is not None and c.verdict == 'accept' and not (over is not None and q.answered > over + EPS): ok = True
            early = [x for x in got if not [d for d in same if d.q is not None and d.q.answered is not None and d.verdict == 'accept' and d.q.answered <= x[0] + EPS]]
            R.check(not early, 'a callee was contacted before the RADIUS server had accepted', 'before verdict', det)
            # the call records name who was authorised
            for a in w.radius.accts:
                if a.get('call-id') in (leg.callid,) or (a.get('call-id') or '').startswith(leg.callid + '-b2b_'):
                    if len(same) > 1: continue
                    R.count('records')
                    R.check(a.get('User-Name') == want[0][1], 'record for user %r, authorised was %r' % (a.get('User-Name'), want[0][1]), 'record user', det)
        if got and not ok:
            R.fail('a callee was contacted for a call that was not authorised: %r' % got[0][1], 'unauthorised', [c.show() for c in same])
    R.ev((auth, digest, only, accept is None, bool(xattr), tuple(sig), tuple((c.ckind, c.verdict, c.cancel is None) for c in calls)), bool(calls))
