"""C26: model of the route language against the INVITEs the real B2BUA puts on the wire
Several calls, one after another and at the same time, go through one instance with generated routes (RADIUS or static), translations and header options; an independent model says what every attempt's INVITE must be, to the last additional header."""
import random, re
from hashlib import md5
from urllib.parse import quote, unquote
import vsim, siplite as S
from kit import Demo, SDP
from b2bworld import routing_lines
RULE = 'seeded worlds of 1-4 calls through 1-4 routes each (all attempts but some last ones refused), sequential or overlapping, RADIUS or one static route; routes with every combination of destination form, called/calling number, name, headers, proxy; translation rules in and out; RADIUS CLI:/CNAM:; hidden Call-IDs; pass-through header lists; every kind of number and name. Distinct by configuration and route parameters.'
N = {'quick': 4500, 'thorough': 150000}
NEED = {'INVITE': 9000, 'later attempt': 2500, 'static': 600, 'translated out': 800, 'translated in': 500, 'erased cld': 80, 'erased cli': 400, 'erased name': 150, 'added header': 2500, 'passed header': 2000, 'hidden': 1000, 'proxy': 800, 'named host': 500,
        'back to source': 300, 'nat': 150, 'no body': 300, 'other body': 300}
vsim.HOSTS.update({'gw1.test': ['10.0.2.1'], 'gw2.test': ['fd00::2', '10.0.2.2'], 'gw3.test': ['10.0.2.3', '10.0.2.1']})
NAMES = {'gw1.test': '10.0.2.1', 'gw2.test': '10.0.2.2', 'gw3.test': '10.0.2.3'}
STD = {'via', 'max-forwards', 'from', 'to', 'call-id', 'cseq', 'contact', 'expires', 'user-agent', 'content-type', 'content-length'}
NUM = ['1000', '+15551234', '*77', 'bob', '0', '00442071838750', 'a.b-c_d', "o'neil", '(555)1', '123!', 'x~y', 'alice smith', 'al%ice', 'a/b', 'q?r', 'p@q', 'z=1&y', '$5']
TXT = ['Alice', 'Alice Smith', 'O"Neil', 'a\\b', 'a, b', '<x>', 'Zoë', '', 'a;b', "it's"]
RULES = ['s/^/99/', 's/^00//', 's/^\\+//', 's/0/9/g', 's/^1(.*)$/77\\1/', 's/[^0-9]//g', 's/$/0/', 's/^(..)(.*)$/\\2\\1/', 's/5//', 's/b/B/G', 's/^x$/y/']
XH = ['X-One: 1', 'X-Two: a, b; c=d', 'P-Charge-Info: <sip:1@a.b>;npi=1', 'Subject: hello: world', 'X-One: 2', 'X-E: caf\u00e9', 'Remote-Party-ID: "Al, Ice" <sip:a@b.c>;party=calling;privacy=off', 'X-Pass-A: fixed', 'Diversion: <sip:3@x.y>;reason=user-busy']
PASS = ['X-Pass-A', 'x-pass-b', 'SUBJECT', 'Diversion', 'X-None']

def esc(u): return quote(u, safe = "-_.!~*'()&=+$,;?/")
def apply(rules, s):
    """independent reading of the translation language: s/pattern/replacement/[g], several separated by ;"""
    if rules is None or s is None: return s
    s = s.split('#')[0]
    for r in rules:
        _, p, rep, mod = r.split('/')
        s = re.sub(p, rep, s, count = 0 if 'g' in mod.lower() else 1)
    return s

def mkroute(rng, rad):
    r = dict(par = [], hdr = [], cld = 0, cli = 0, name = 0, op = None)
    k = rng.random()
    if k < .45: h = '10.0.2.%d' % rng.randrange(1, 4); r['ip'], r['port'] = h, 5060
    elif k < .65:
        i, p = rng.randrange(1, 4), rng.choice([5060, 5062]); h = '10.0.2.%d:%d' % (i, p); r['ip'], r['port'] = '10.0.2.%d' % i, p
    elif k < .75: h = rng.choice(list(NAMES)); r['ip'], r['port'] = NAMES[h], 5060
    elif k < .85: h = rng.choice(list(NAMES)); r['ip'], r['port'] = NAMES[h], 5062; h += ':5062'
    else: h = 'sip-ua'; r['ip'], r['port'] = None, None
    r['named'] = h[:2] == 'gw'
    u = rng.random()
    if u < .3:
        r['cld'] = rng.choice([n for n in NUM if '@' not in n and "'" not in n])
        h = r['cld'] + '@' + h
    elif u < .36: r['cld'] = None; h = '@' + h
    if rng.random() < .3:
        r['cli'] = rng.choice([n for n in NUM if "'" not in n] + ['', ''])
        r['par'].append('cli=' + r['cli'])
        r['cli'] = r['cli'] or None
    if rng.random() < .25:
        r['name'] = rng.choice(TXT[1:] + [''])
        r['par'].append('cnam=' + quote(r['name'], safe = " /"))
        r['name'] = r['name'] or None
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        x = rng.choice(XH)
        n, v = x.split(':', 1)
        r['hdr'].append((n.lower(), v.strip()))
        r['par'].append('ash=' + quote(x, safe = rng.choice(['', '/<>@ '])))
    if rng.random() < .15:
        i, p = rng.randrange(1, 4), rng.choice([None, 5062])
        r['op'] = ('10.0.3.%d' % i, p or 5060)
        r['par'].append('op=10.0.3.%d' % i + (':%d' % p if p else ''))
    elif rng.random() < .05:
        r['op'] = 'src'
        r['par'].append('op=10.0.1.1')
    if rng.random() < .1: r['par'].append(rng.choice(['credit-time=50', 'expires=100', 'nr_expires=20', 'np_expires=25', 'bill-to=x', 'xyz=1', 'rtpp=0', 'hs_scodes=']))
    elif rng.random() < .07: r['par'].append(rng.choice(['credit-time=0', 'expires=0'])); r['skip'] = True
    rng.shuffle(r['par'])
    r['hdr'] = []
    for q in r['par']:
        if q.startswith('ash='):
            n, v = unquote(q[4:]).split(':', 1)
            r['hdr'].append((n.lower(), v.strip()))
    r['text'] = ';'.join([h] + r['par'])
    return r

def canon(v):
    return re.sub(r'\s*([,;=])\s*', r'\1', v.strip())

def case(seed, R, tier):
    rng = random.Random(seed)
    static = rng.random() < .25
    npass = [rng.choice(PASS) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    npass = list(dict.fromkeys(npass))
    trin = rng.sample(RULES, rng.choice([1, 1, 2])) if rng.random() < .25 else None
    trout = rng.sample(RULES, rng.choice([1, 1, 2])) if rng.random() < .3 else None
    hide = rng.random() < .25
    opts = []
    if trin: opts.append(('static_tr_in', ';'.join(trin)))
    if trout: opts.append(('static_tr_out', ';'.join(trout)))
    if hide: opts.append(('hide_call_id', 'on'))
    viaopt = rng.random() < .5
    if viaopt and npass: opts.append(('pass_headers', ', '.join(npass)))
    ncalls = rng.choice([1, 2, 2, 3, 4])
    plans = {}
    def auth(q):
        pl = plans[q.get('call-id') or q.get('Acct-Session-Id') or next(v for a, v in q.attrs if v in plans)]
        return 0.0, 0.01, routing_lines([r['text'] for r in pl['routes']], cli = pl['rcli'], cname = pl['rname'], rng = rng)
    kw = dict(opts = opts, pass_headers = () if viaopt else npass, seed = seed)
    if static:
        sr = mkroute(rng, False)
        while sr.get('skip'): sr = mkroute(rng, False)
        d = _static(sr['text'], kw)
    else:
        d = Demo([], routes = [], **kw)
        d.w.radius.on_auth = auth
    got = {}
    def on_invite(leg, m, at):
        c = next((c for c in plans.values() if m.callid.startswith(c['base'])), None)
        if c is None: got.setdefault(None, []).append((m, at)); leg.refuse(404); return
        c['got'].append((m, at))
        leg.app['c'] = c
        if len(c['got']) == c['ans']: d.after(rng.choice([.01, .5]), leg.answer, SDP(at[0]))
        else: d.after(rng.choice([.01, .2]), leg.refuse, rng.choice([486, 404, 503, 480, 600]))
    for i in (1, 2, 3):
        for net in (2, 3):
            p = d.w.peer('10.0.%d.%d' % (net, i), extra_addrs = [('10.0.%d.%d' % (net, i), 5062)])
            d.callees.append(p)
            p.on_invite = lambda leg, m: on_invite(leg, m, leg.itx.at)
    d.caller.on_invite = lambda leg, m: on_invite(leg, m, leg.itx.at)
    calls = []
    for n in range(ncalls):
        u = rng.choice(NUM)
        nat = rng.random() < .08
        frm = rng.choice(NUM)
        name = rng.choice(TXT) or None
        cid = d.caller.uid('k') + rng.choice(['@host', '', '@10.0.1.1'])
        routes = [sr] if static else [mkroute(rng, True) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if all(r.get('skip') for r in routes): routes[-1] = mkroute(random.Random(3), True)
        hd = []
        for h in PASS + ['X-Other', 'Diversion', 'Reason', 'P-Charge-Info', 'Organization']:
            while rng.random() < .4:
                v = {'Reason': 'Q.850;cause=16;text="a b"', 'Diversion': '<sip:%d@a.b>;reason=unknown' % rng.randrange(99), 'P-Charge-Info': '<sip:9@c.d>'}.get(h, 'v%d, w; x="y,z"' % rng.randrange(99))
                hd.append((h.lower(), v))
                if h == 'Reason': break
        k = rng.random()
        body, ct = SDP('10.0.1.1', 10000 + 2 * n), 'application/sdp'
        if k < .1: body = b''
        elif k < .2: body, ct = b'\x00' + b'abc\r\n' * rng.randrange(1, 9), 'application/x-test;p="q"'
        if body and b'\x00' in body: body = body[1:]
        c = dict(u = ('nat-' if nat else '') + u, frm = frm, name = name, cid = cid, routes = routes, hd = hd, body = body, ct = ct, got = [], nat = nat, num = u,
                 rcli = rng.choice([None, None, None, '', '777', 'al ice']) if not static else None, rname = rng.choice([None, None, None, '', 'Rad Name', 'R, N']) if not static else None,
                 ans = rng.randrange(1, len(routes) + 2), base = md5(cid.encode()).hexdigest() if hide else cid)
        plans[cid] = c
        calls.append(c)
    def go(c):
        leg = d.caller.call(d.w.addr, esc(c['u']), esc(c['frm']), b'', c['hd'], start = False, callid = c['cid'])
        m = leg.invite
        nm = '"%s" ' % re.sub(r'([\\"])', r'\\\1', c['name']) if c['name'] else ''
        m.set('from', '%s<sip:%s@10.0.1.1>;tag=%s' % (nm, esc(c['frm']), leg.ltag))
        if c['body']:
            m.body = c['body']; m.add('content-type', c['ct'])
        leg.itx.data = m.enc()
        leg.itx.start()
        if not c['body']: leg.app['ack_body'] = SDP('10.0.1.1')
        d.after(8, leg.bye)
    gap = rng.choice([0.0, .05, 12])
    t = 0
    for c in calls:
        d.after(t + .01, go, c)
        t += gap
    d.run(t + 15)
    det = lambda: dict(opts = opts, npass = npass, static = static, calls = [dict({k: c[k] for k in ('u', 'frm', 'name', 'cid', 'rcli', 'rname', 'hd', 'ans')}, routes = [r['text'] for r in c['routes']], body = c['body'].decode(), got = [(m.enc().decode('utf-8', 'replace'), at) for m, at in c['got']]) for c in calls])
    R.check(not got, 'INVITE of no call', 'identity', det)
    for c in calls:
        judge(R, det, c, npass, trin, trout, hide, d.w.addr)
        R.ev((static, bool(trin), bool(trout), hide, tuple(npass), tuple(r['text'] for r in c['routes']), c['u'], c['frm'], c['name'], c['rcli'], c['rname'], c['ans']))
        if static: R.count('static')
    R.check(not vsim.Internal.log, 'internal error %s' % vsim.Internal.log[:1], 'internal', det)
    d.w.close()

def _static(text, kw):
    import kit
    from b2bworld import World
    d = kit.Demo.__new__(kit.Demo)
    kw = dict(kw); seed = kw.pop('seed')
    d.w = World(seed, acct = False, auth = False, route = text, **kw)
    d.sim = d.w.sim
    d.caller = d.w.peer('10.0.1.1')
    d.callees, d.legs = [], []
    return d

def judge(R, det, c, npass, trin, trout, hide, addr):
    cld0 = apply(trin, c['num'])
    if trin: R.count('translated in')
    exp = []
    for i, r in enumerate(c['routes']):
        if not r.get('skip'): exp.append((i + 1, r))
    n = c['ans']
    want = exp[:n]
    if not R.check(len(c['got']) == len(want), '%d INVITEs, expected %d' % (len(c['got']), len(want)), 'count', det): return
    for k, ((m, at), (num, r)) in enumerate(zip(c['got'], want)):
        R.count('INVITE')
        if k: R.count('later attempt')
        cld = cld0 if r['cld'] == 0 else r['cld']
        if r['cld'] is None: R.count('erased cld')
        if trout and cld is not None: R.count('translated out'); cld = apply(trout, cld)
        if cld == '': R.count('number translated away'); continue
        cli = c['frm'] if c['rcli'] is None else c['rcli'] or None
        if r['cli'] != 0: cli = r['cli']
        if cli is None: R.count('erased cli')
        name = c['name'] if c['rname'] is None else c['rname'] or None
        if r['name'] != 0: name = r['name']
        if name is None and (r['name'] is None or c['rname'] == ''): R.count('erased name')
        ip, port = (r['ip'], r['port']) if r['ip'] else ('10.0.1.1', 5060)
        if not r['ip']: R.count('back to source')
        if r['named']: R.count('named host')
        nh = (ip, port)
        if r['op'] not in (None, 'src'): nh = r['op']; R.count('proxy')
        eq = lambda got, want, what: R.check(got == want, '%s is %r, expected %r' % (what, got, want), what, det)
        eq(at, nh, 'next hop')
        u = S.split_uri(m.uri)
        ud = lambda x: None if x is None else unquote(x)
        eq((u[0], ud(u[1]), u[2], u[3] or 5060, u[4], u[5]), ('sip', cld or None, ip, port, u[4] if u[4] == ['transport=udp'] else [], None), 'request-URI')
        t = S.split_uri(S.uri_of(m.h('to')))
        eq((ud(t[1]), t[2], S.name_of(m.h('to')), m.ttag), (cld or None, ip, None, None), 'To')
        f = S.split_uri(S.uri_of(m.h('from')))
        eq((ud(f[1]), f[2], S.name_of(m.h('from'))), (cli or None, addr[0], name), 'From')
        ct = S.split_uri(S.uri_of(m.h('contact')))
        eq((ct[2], ct[3] or 5060), addr, 'Contact')
        eq(m.callid, c['base'] + '-b2b_%d' % num, 'Call-ID')
        if hide: R.count('hidden')
        body = c['body']
        if c['nat'] and body: body += b'a=nated:yes\r\n'; R.count('nat')
        eq(m.body, body, 'body')
        if not body: R.count('no body')
        else:
            if c['ct'] != 'application/sdp': R.count('other body')
            eq(canon(m.h('content-type', '')), canon(c['ct']), 'Content-Type')
        extra = [(n, canon(v)) for n, v in m.headers if n not in STD]
        want = [(n, canon(v)) for n, v in r['hdr']]
        R.count('added header', len(want))
        for h in npass:
            ps = [(n, canon(v)) for n, v in c['hd'] if n == h.lower()]
            R.count('passed header', len(ps))
            want += ps
        want += [(n, canon(v)) for n, v in c['hd'] if n == 'reason']
        eq(sorted(extra), sorted(want), 'additional headers')
        for h in set(n for n, v in want):
            eq([v for n, v in extra if n == h], [v for n, v in want if n == h], 'order of headers')
