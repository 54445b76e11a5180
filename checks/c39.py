"""C39: bytes seen by a stand-in RADIUS helper against the attributes asked for, and what it printed against what came back
Real pool, pipe and helper process; requests by RadiusAuthorisation, RadiusAccounting and Radius_client, values of every kind a SIP message can carry (line ends included: SIP URLs are unescaped). Oracle: own encoder and decoder; a line end in a value may be dropped or replaced, it must not start another line. What a double quote inside a value means to the helper is left to it: it is passed on as it is."""
import random, os, sys, shutil, tempfile, stress, stat
from vsim import *
from sippy.RadiusAuthorisation import RadiusAuthorisation
from sippy.RadiusAccounting import RadiusAccounting
from sippy.Time.MonoTime import MonoTime
import vsim
RULE = 'seeded batches of 10-40 requests through one helper process: authorisations by digest and by address with extra attributes, accounting stops of calls, raw accounting requests over all attribute names; values of 0-2000 characters with quotes, =, commas, #, spaces, tabs, line ends, empty lines, non-ASCII; replies with 0-12 attributes, values with quotes, =, spaces at the ends, prefixed and not, verdicts 0/1/2/-1; broken replies. Distinct by request kind, value classes and reply shape.'
N = {'quick': 800, 'thorough': 30000}
NEED = {'requests': 3000, 'line end in value': 400, 'reply attributes': 5000, 'broken reply': 100, 'digest': 300, 'address': 300, 'accounting': 300}
CONFIRM = True
CPU = 120
BUDGET = {'quick': 240, 'thorough': 780}
AV = 'call-id h323-session-protocol h323-ivr-out h323-incoming-conf-id release-source alert-timepoint provisional-timepoint'.split()
VSA = 'h323-remote-address h323-conf-id h323-setup-time h323-call-origin h323-call-type h323-connect-time h323-disconnect-time h323-disconnect-cause h323-voice-quality h323-credit-time h323-return-code h323-redirect-number h323-preferred-lang h323-billing-model h323-currency'.split()
PLAIN = 'User-Name Password Digest-Realm Digest-URI Calling-Station-Id Called-Station-Id Acct-Session-Id Acct-Session-Time Acct-Status-Type Acct-Delay-Time Acct-Terminate-Cause Class X-Custom'.split()
HELPER = os.path.join(os.path.dirname(os.path.abspath(stress.__file__)), 'radhelper.py')

class Log:
    def write(self, *a, **kw): pass

class Cfg(dict):
    def getdefault(self, k, d): return self.get(k, d)

def wire(a, v):
    if a in AV: return 'Cisco-AVPair="%s=%s"' % (a, v)
    if a in VSA: return '%s="%s=%s"' % (a, a, v)
    return '%s="%s"' % (a, v)

def match(line, a, v):
    """line is the line of attribute a, value v, but for the line ends of the value"""
    exp = wire(a, v)
    if '\n' not in v and '\r' not in v: return line == exp
    i = 0
    import re
    parts = re.split('[\r\n]+', exp)
    # the pieces in order, nothing but a neutral character or two between them
    pos = 0
    for k, p in enumerate(parts):
        j = line.find(p, pos)
        if k == 0 and j != 0 or j < 0: return False
        if k and re.sub(r'[ \\rnxu0adAD%]', '', line[pos:j]): return False
        pos = j + len(p)
    return pos == len(line)

def value(rng, cls):
    k = rng.randrange(9)
    cls.add(k)
    if k == 0: return rng.choice(['alice', '12125551234', 'sip:bob@1.2.3.4:5060', '1.2.3.4', '00112233 44556677 8899aabb ccddeeff', 'a1b2@host'])
    if k == 1: return ''
    if k == 2: return rng.choice(['a', '', 'x']) + rng.choice(['\n', '\r\n', '\r', '\n\n', '\n\nAUTH\n']) + rng.choice(['User-Name="root"', '', 'b', '\n'])
    if k == 3: return ''.join(rng.choice('abc"\'=,;# \\%<>@:\t&~') for _ in range(rng.randrange(1, 20)))
    if k == 4: return ''.join(rng.choice('aé漢\U0001f600ß\u2028\x85\x0b\x0c\x1c') for _ in range(rng.randrange(1, 12)))
    if k == 5: return 'y' * rng.choice([200, 255, 2000])
    if k == 6: return rng.choice([' lead', 'trail ', ' ', '  both  '])
    if k == 7: return rng.choice(['call-id=7', 'h323-conf-id=x', '="', 'User-Name="x"', '%s %d', '{0}', '#'])
    return ''.join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(1, 40)))

class UA:
    pass

def reply(rng, cls):
    """bytes the helper prints, pairs expected (None: anything), verdict expected (None: anything but success)"""
    out, exp = [], []
    for _ in range(rng.choice([0, 0, 1, 2, 5, 12])):
        k = rng.randrange(6)
        v = ''.join(rng.choice('abcdef0123456789 @;:,=\'"-éx') for _ in range(rng.randrange(0, 25)))
        if rng.random() < .2: v = rng.choice(["o'", "'q'", "'", '', ' x ', "a = 'b'", '=', ' = ', "''"])
        cls.add(20 + k)
        if k == 0: a = rng.choice(['h323-ivr-in', 'x', 'alert']); p, q = 'Cisco-AVPair', (a, v); w = a + '=' + v
        elif k == 1: a = rng.choice(VSA); p, q = a, (a, v); w = a + '=' + v
        elif k == 2: p = rng.choice(PLAIN); q = (p, v); w = p + '=' + v
        elif k == 3:
            # not prefixed
            p = rng.choice(VSA + ['Cisco-AVPair']); v = v.replace('=', ''); q = (p, v); w = v
        else: p = rng.choice(PLAIN + ['Reply-Message', 'SIP-AOR']); q = (p, v); w = v
        if k > 3 and v.startswith(p + '='): w = q = None
        if w is None: continue
        out.append("%s = '%s'" % (p if rng.random() < .7 else p.ljust(32), w)); exp.append(q)
    code = rng.choice([0, 0, 0, 1, 2, -1])
    txt = ''.join(x + '\n' for x in out)
    b = rng.random()
    if b < .85: return (txt + '%d\n' % code).encode(), exp, code, False
    if b < .87: return b'', None, None, True
    if b < .89: return txt.encode() + b'oops\n', None, None, True
    if b < .91: return txt.encode() if txt else b'x\n', None, None, True
    if b < .95: return b'rc: warning\n' + (txt + '%d\n' % code).encode(), None, code if code else None, True
    if b < .98: return (txt + 'Reply-Message = \'').encode() + b"\xff\xfe'\n%d\n" % code, exp + [('Reply-Message', None)], code, True
    return b"Class\n" + (txt + '%d\n' % code).encode(), None, code if code else None, True

def case(seed, R, tier):
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix = 'c39.')
    rc = None
    try:
        exe = os.path.join(d, 'rc')
        with open(exe, 'w') as f: f.write('#!/bin/sh\nexec %s -S -E %s %s "$@"\n' % (sys.executable, HELPER, d))
        os.chmod(exe, 0o755)
        cfg = Cfg(radiusclient = exe, max_radiusclients = 1, _sip_logger = Log())
        if rng.random() < .3: cfg['radiusclient.conf'] = '/nonexistent'
        with stress.noisy():
            rc = RadiusAuthorisation(cfg)
            cfg['_radius_client'] = rc
            body(R, rng, rc, cfg, d)
    finally:
        if rc is not None: rc.shutdown()
        shutil.rmtree(d, ignore_errors = True)

def body(R, rng, rc, cfg, d):
    reqs, got = [], {}
    n = rng.randrange(10, 40)
    reps = []
    cls = set()
    for i in range(n):
        r = reply(rng, cls)
        reps.append(r)
        with open(os.path.join(d, 'r%d' % i), 'wb') as f: f.write(r[0])
    kinds = []
    for i in range(n):
        k = rng.choice(['digest', 'address', 'accounting', 'raw', 'raw'])
        cb = (lambda i: lambda res, *par: got.setdefault(i, []).append(res))(i)
        R.count(k)
        vals = [value(rng, cls) for _ in range(12)]
        if k in ('digest', 'address'):
            user, caller, callee, cid, ip, realm, nonce, uri, resp = vals[:9]
            if rng.random() < .2: caller = None
            ex = [(rng.choice(AV + VSA + PLAIN), v) for v in vals[9:9 + rng.randrange(4)]] if rng.random() < .5 else None
            dig = [realm, nonce, uri, resp]
            if k == 'address': dig[rng.randrange(4)] = None
            if k == 'address' and rng.random() < .6: dig = [None] * 4
            rc.do_auth(user, caller, callee, cid, ip, cb, *dig, extra_attributes = ex)
            if k == 'digest': e = [('User-Name', user), ('Digest-Realm', realm), ('Digest-Nonce', nonce), ('Digest-Method', 'INVITE'), ('Digest-URI', uri), ('Digest-Algorithm', 'MD5'), ('Digest-User-Name', user), ('Digest-Response', resp)]
            else: e = [('User-Name', ip), ('Password', 'cisco')]
            e += [('Calling-Station-Id', caller or ''), ('Called-Station-Id', callee), ('call-id', cid), ('h323-remote-address', ip), ('h323-session-protocol', 'sipv2')] + (ex or [])
            reqs.append(('AUTH', e, k))
        elif k == 'raw':
            e = [(rng.choice(AV + VSA + PLAIN), v) for v in vals[:rng.randrange(1, 12)]]
            e = [(a, rng.choice([7, 0, -1]) if rng.random() < .1 else v) for a, v in e]
            rc.do_acct(e, cb)
            reqs.append(('ACCT', [(a, str(v)) for a, v in e], k))
        else:
            acct = RadiusAccounting(cfg, rng.choice(['answer', 'originate']))
            user, caller, callee, cid, ip, icid, agent, x = vals[:8]
            acct.setParams(user, caller, callee, cid, ip, icid)
            acct.addAttributes([('Class', x)])
            if rng.random() < .5: acct.user_agent = agent
            ua = UA()
            ua.setup_ts, ua.connect_ts, ua.remote_ua, ua.p1xx_ts, ua.p100_ts = MonoTime(), None, agent if rng.random() < .5 else None, None, None
            ua.getAcct = lambda: (12, 3, True, False)
            had = acct.user_agent is not None or ua.remote_ua is not None
            acct._process_result = cb
            acct.disc(ua, MonoTime(), 'caller', 486)
            e = [('h323-call-origin', acct.origin), ('h323-call-type', 'VoIP'), ('h323-session-protocol', 'sipv2'), ('User-Name', user), ('Calling-Station-Id', caller), ('Called-Station-Id', callee), ('call-id', cid), ('Acct-Session-Id', cid), ('h323-remote-address', ip), ('h323-incoming-conf-id', icid), ('Class', x), ('Acct-Session-Time', '12'), ('h323-disconnect-cause', '11'), ('release-source', '2'), ('Acct-Status-Type', 'Stop')]
            if had: e.append(('h323-ivr-out', 'sip_ua:' + agent))
            reqs.append(('ACCT', e, k))
    R.count('requests', n)
    ok = stress.loop(lambda: len(got) >= n, 30)
    stress.loop(lambda: False, .01)
    R.ev((tuple(sorted(cls)), n, tuple(r[2] for r in reqs)))
    for i, (typ, exp, k) in enumerate(reqs):
        raw, pairs, code, broken = reps[i]
        det = lambda: dict(request = i, kind = k, attributes = exp, reply = repr(raw), got = repr(got.get(i)), sent = repr(sent)[:3000])
        try: sent = open(os.path.join(d, 'q%d' % i), 'rb').read()
        except OSError: sent = None
        if not R.check(sent is not None, 'request %d never reached the helper' % i, 'sent', det): return
        if any('\n' in v or '\r' in v for a, v in exp): R.count('line end in value')
        ls = sent.decode().split('\n')
        R.check(ls[-2:] == ['', ''] and '' not in ls[:-2], 'request not ended by one empty line', 'block end', det)
        ls = ls[:-2]
        if not R.check(ls[:1] == [typ], 'request starts with %r' % ls[:1], 'type', det): return
        if k == 'accounting':
            # times are not looked at here
            ls = [l for l in ls if not l.startswith(('h323-disconnect-time=', 'h323-connect-time=', 'h323-setup-time='))]
        rest = ls[1:]
        if not R.check(len(rest) == len(exp), '%d attributes sent for %d given' % (len(rest), len(exp)), 'attribute count', det): return
        for a, v in exp:
            m = next((l for l in rest if match(l, a, v)), None)
            if not R.check(m is not None, 'attribute %s=%r not sent as it is' % (a, v), 'attribute value', det): return
            rest.remove(m)
        g = got.get(i, [])
        if broken: R.count('broken reply')
        if not R.check(len(g) == 1, 'reply %s: callback ran %d times' % ('not in the syntax' if broken else 'fine', len(g)), 'callback broken' if broken else 'callback', det): continue
        nav, c = g[0]
        if code is not None: R.check(c == code, 'verdict %r, printed %d' % (c, code), 'verdict', det)
        elif broken and pairs is None and not raw.endswith((b'\n0\n',)): R.check(c != 0, 'a reply without a verdict counts as success', 'verdict', det)
        if pairs is not None:
            R.count('reply attributes', len(pairs))
            R.check(len(nav) == len(pairs) and all(x[0] == y[0] and y[1] in (None, x[1]) for x, y in zip(nav, pairs)), 'decoded %r, printed %r' % (nav, pairs), 'reply', det)
