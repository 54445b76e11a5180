"""C13: challenging callees with an independent digest verifier judge every INVITE the real B2BUA sends them
The callees challenge initial INVITEs and re-INVITEs under scripted, hostile and crossing conditions; an independent model says which challenge must be answered, what the repeated request may differ in and whether the credentials are right."""
import random
from kit import Demo, SDP
import vsim, siplite as S
from siplite import response
from c12 import digest, word, ALGS
RULE = 'seeded calls through routes with, without and with refused pass-through of credentials; 401/407 with 1-3 challenges (7 algorithms and unknown ones, quoted/unquoted/several qop, opaque, odd realms, unusable challenges), before and after provisional answers, on initial and in-dialog INVITEs, answered again with challenges of either kind, crossed by CANCEL and limits, with loss of answers. Distinct by challenges, credentials, reply sequence and outcome.'
N = {'quick': 4000, 'thorough': 150000}
NEED = {'answered': 1200, 'auth-int': 150, 'second challenge': 300, 'unsupported': 300, 'passed through': 300, 'answer passed': 150, 're-INVITE': 60, 'crossed by CANCEL': 100, 'several challenges': 400, 'no credentials': 150}

def mkchal(rng):
    """(header text, parameters or None if no answer can be given to it)"""
    k = rng.random()
    realm, nonce = word(rng), rng.choice([word(rng, False), 'dcd98b7102dd2f0e8b11d0f600bfb0c093==', 'a=b,c'])
    if k < .06: return 'Basic realm="%s"' % realm, None
    if k < .09: return 'Digest realm="%s"' % realm, None
    if k < .11: return 'Digest nonce="%s"' % nonce, None
    if k < .13: return 'NTLM', None
    alg = rng.choice(ALGS + [None, 'MD5', 'SHA-256', 'md5', 'AKAv1-MD5', 'SHA3', 'token'])
    qop = rng.choice([None, None, ['auth'], ['auth'], ['auth', 'auth-int'], ['auth-int', 'auth'], ['auth-int'], ['auth-conf'], ['x', 'auth']])
    p = {'realm': '"%s"' % realm, 'nonce': '"%s"' % nonce}
    if alg: p['algorithm'] = alg if rng.random() < .8 else '"%s"' % alg
    if qop: p['qop'] = '"%s"' % rng.choice([',', ', ']).join(qop) if len(qop) > 1 or rng.random() < .7 else qop[0]
    opaque = None
    if rng.random() < .4:
        opaque = rng.choice([word(rng, False), ''])
        p['opaque'] = '"%s"' % opaque
    if rng.random() < .2: p['stale'] = rng.choice(['false', 'FALSE', 'true'])
    if rng.random() < .1: p['domain'] = '"sip:a.b sip:c.d"'
    ks = list(p)
    if rng.random() < .4: rng.shuffle(ks)
    txt = 'Digest ' + rng.choice([', ', ',']).join('%s=%s' % (x if rng.random() < .95 else x.upper(), p[x]) for x in ks)
    if alg == 'md5': alg = 'MD5'
    q = [x for x in qop or () if x in ('auth', 'auth-int')]
    ok = alg in ALGS and (q or (not qop and alg in (None, 'MD5')))
    return txt, dict(realm = realm, nonce = nonce, alg = alg, qop = q[0] if q else None, opaque = opaque) if ok else None

def params(v):
    """independent reader of a credentials header"""
    sch, _, rest = v.partition(' ')
    out = {}
    for x in S.split_commas(rest):
        n, _, w = x.strip().partition('=')
        if n.lower() in out: return sch, None
        out[n.lower()] = w.strip()
    return sch, out
uq = lambda s: s[1:-1] if s is not None and len(s) > 1 and s[0] == s[-1] == '"' else s

def case(seed, R, tier):
    rng = random.Random(seed)
    mode = rng.choice(['own', 'own', 'own', 'own', 'pass', 'pass', 'nopass'])
    # characters that separate parameters of a route cannot be part of its values
    user, pw = [''.join(x for x in word(rng) if x not in ';,\'"' + z).strip() or 'u' for z in (':', '')]
    code = rng.choice([401, 407])
    chals = [mkchal(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    pick = next((p for t, p in chals if p), None)
    hn = {401: 'www-authenticate', 407: 'proxy-authenticate'}
    an = {401: 'authorization', 407: 'proxy-authorization'}
    pre = rng.choice([None, None, 180, 183, 100])
    after = rng.choice(['ok', 'ok', 'again', 'again', 'other', 'refuse'])
    d1, d2 = rng.choice([.01, .2, 1.5]), rng.choice([.01, .3])
    race = rng.random() < .12 and mode == 'own'
    limit = race and rng.random() < .4
    nodrop = rng.random() < .8
    rech = rng.random() < .3 and after == 'ok' and not race
    par = {'own': ';auth=%s:%s' % (user, pw), 'pass': '', 'nopass': ';auth=nopass'}[mode]
    if rng.random() < .3: par += ';ash=' + 'X-Info%3A%20one'
    if limit: par += ';nr_expires=3'
    got, tcall = [], {}
    code2 = 401 + 407 - code if after == 'other' else code
    chal2 = chals if rng.random() < .3 else [mkchal(rng)]
    rcode = rng.choice([401, 407]); rchals = [mkchal(rng)]; rpick = rchals[0][1]
    rgot = []
    def callee(leg, m):
        got.append((d.sim.now, m, leg))
        leg.on_request = onreq
        n = len(got)
        if n == 1:
            if race:
                d.after(3.2 if limit else .5, leg.refuse, code, None, [(hn[code], t) for t, p in chals])
                return
            if pre: leg.provisional(pre, totag = rng.random() < .5)
            d.after(d1, leg.refuse, code, None, [(hn[code], t) for t, p in chals])
        elif n == 2 and after in ('again', 'other'):
            d.after(d2, leg.refuse, code2, None, [(hn[code2], t) for t, p in chal2])
        elif n >= 2 and after == 'refuse': d.after(d2, leg.refuse, 486)
        else:
            d.after(d2, leg.answer, SDP('10.0.2.1'))
    def onreq(leg, stx):
        m = stx.req
        if m.method != 'INVITE' or not rech: return False
        rgot.append((d.sim.now, m))
        if len(rgot) == 1: r = response(m, rcode, None, leg.ltag, [(hn[rcode], t) for t, p in rchals])
        else: r = response(m, 200, None, leg.ltag, [('contact', '<%s>' % leg.contact_uri), ('content-type', 'application/sdp')], SDP('10.0.2.1', 12000, 2))
        d.after(d2, stx.reply, r)
        return True
    d = Demo([callee], routes = ['10.0.2.1' + par], seed = seed, pass_headers = ['X-Pass'])
    body = SDP('10.0.1.1') if rng.random() < .9 else b''
    if not nodrop:
        # answers of the callee get lost; its retransmissions get through
        k = [0]
        orig = d.sim.send
        def send(src, dst, data):
            if src[0] == '10.0.2.1' and data.startswith(b'SIP/2.0 4'):
                k[0] += 1
                if k[0] % 2: return
            return orig(src, dst, data)
        d.sim.send = send
    hd = [('x-pass', 'v%d' % rng.randrange(99))] if rng.random() < .5 else []
    if rng.random() < .3: hd.append(('reason', rng.choice(['SIP;cause=302;text="Moved"', 'Q.850;cause=16'])))
    if rng.random() < .3 and mode != 'own': hd.append(('authorization', 'Digest username="w",realm="r",nonce="n",uri="sip:x",response="q"'))
    leg = d.call(headers = hd, body = body)
    if not body: leg.app['ack_body'] = SDP('10.0.1.1')
    if race and not limit: d.after(.3, leg.cancel)
    chg = []
    def change():
        if leg.state == 'est': leg.reinvite(SDP('10.0.1.1', 14000, 2), extra = [('reason', 'SIP;cause=200;text="r"')] if rng.random() < .4 else (), cb = lambda l, r, t: chg.append(r))
    d.after(12, change)
    d.run(10)
    det = lambda: dict(mode = mode, chals = [t for t, p in chals], code = code, after = after, code2 = code2, chal2 = [t for t, p in chal2], race = race, got = [(t, m.enc().decode()[:900]) for t, m, l in got],
                       final = leg.final, rech = (rcode, rchals[0][0]) if rech else None, hist = [h[:3] for h in leg.hist])
    inv = [m for t, m, l in got]
    R.check(all(m.callid == inv[0].callid for m in inv), 'challenged attempt continued in another call', 'repeat', det)
    if len(chals) > 1: R.count('several challenges')
    R.ev((mode, code, tuple((p['alg'], p['qop'], p['opaque'] is None) if p else t[:4] for t, p in chals), pre, after, race, limit, leg.final, len(inv), rech, nodrop, bool(body)))
    if mode == 'own' and race:
        R.count('crossed by CANCEL')
        R.check(len(inv) == 1, 'INVITE repeated with credentials after the call was given up', 'after cancel', det)
        R.check(leg.final == (487 if not limit else leg.final) and leg.final is not None, 'caller got %s' % leg.final, 'answer', det)
    elif mode == 'own' and pick:
        R.count('answered')
        if pick['qop'] == 'auth-int': R.count('auth-int')
        if not R.check(len(inv) == 2, '%d INVITEs for one challenge' % len(inv), 'count', det): return
        repeat(R, det, inv[0], inv[1], an[code], pick, user, pw)
        R.check(not any(h in x for x in [[n for n, v in inv[0].headers]] for h in an.values()), 'credentials in the first INVITE', 'repeat', det)
        if after in ('again', 'other'): R.count('second challenge')
        exp = {'ok': 200, 'again': code2, 'other': code2, 'refuse': 486}[after]
        R.check(leg.final == exp, 'caller got %s, expected %d' % (leg.final, exp), 'answer', det)
    else:
        R.count('unsupported' if mode == 'own' else 'passed through' if mode == 'pass' else 'no credentials')
        R.check(len(inv) == 1, '%d INVITEs although the challenge cannot be answered' % len(inv), 'count', det)
        R.check(leg.final == code, 'caller got %s, expected %d' % (leg.final, code), 'answer', det)
        au = [v for v in inv[0].hs('authorization')]
        mine = [v for n, v in hd if n == 'authorization']
        R.check(au == (mine if mode == 'pass' else []), "caller's credentials %s, callee got %s" % (mine, au), 'pass credentials', det)
        if mode == 'pass' and leg.final == code:
            fm = [v for v in leg.final_msg.hs(hn[code])]
            R.check([norm(x) for x in fm] == [norm(t) for t, p in chals], 'challenges %s reached the caller as %s' % ([t for t, p in chals], fm), 'pass challenge', det)
        if mode == 'pass' and code == 401 and pick and leg.final == 401:
            # the caller answers the challenge, the callee must get exactly that
            p = dict(username = 'al', realm = pick['realm'], nonce = pick['nonce'], uri = 'sip:1000@10.0.2.1')
            if pick['alg']: p['algorithm'] = pick['alg']
            if pick['qop']: p.update(qop = pick['qop'], nc = '00000001', cnonce = 'abc')
            p['response'] = digest(p, 'pw', 'INVITE', body.decode())
            v = 'Digest ' + ', '.join('%s=%s' % (n, w if n in ('algorithm', 'qop', 'nc') else '"%s"' % w) for n, w in p.items())
            if pick['opaque'] is not None: v += ', opaque="%s"' % pick['opaque']
            n0 = len(got)
            leg2 = d.call(headers = [('authorization', v)], body = body, callid = leg.callid)
            if not body: leg2.app['ack_body'] = SDP('10.0.1.1')
            d.run(5)
            new = got[n0:]
            if R.check(len(new) == 1, 'answer to a challenge led to %d INVITEs' % len(new), 'pass answer', det):
                a = new[0][1].hs('authorization')
                R.check(len(a) == 1 and norm(a[0]) == norm(v), 'credentials %s reached the callee as %s' % (v, a), 'pass answer', det)
                R.count('answer passed')
    if rech and leg.state == 'est' and not race:
        d.run(15)
        if not R.check(rgot, 're-INVITE not relayed', 're', det): return
        R.count('re-INVITE')
        if mode == 'own' and rpick:
            if R.check(len(rgot) == 2, '%d re-INVITEs for one challenge' % len(rgot), 're count', det):
                repeat(R, det, rgot[0][1], rgot[1][1], an[rcode], rpick, user, pw)
                R.check(chg and chg[0] is not None and chg[0].code == 200, 'change answered %s' % (chg and chg[0] and chg[0].code), 're answer', det)
        else:
            R.check(len(rgot) == 1, '%d re-INVITEs although the challenge cannot be answered' % len(rgot), 're count', det)
            R.check(chg and chg[0] is not None and chg[0].code == rcode, 'change answered %s, expected %d' % (chg and chg[0] and chg[0].code, rcode), 're answer', det)
        R.check(leg.state == 'est', 'call gone after a challenged re-INVITE', 're answer', det)
    R.check(not vsim.Internal.log, 'internal error %s' % vsim.Internal.log[:1], 'internal', det)
    d.w.close()

def norm(v):
    sch, p = params(v)
    return sch, p if p is None else {n: uq(w).replace(' ', '') if n in ('qop', 'domain') else uq(w) for n, w in p.items()}

def repeat(R, det, a, b, name, pick, user, pw):
    R.check(b.cseq == (a.cseq[0] + 1, 'INVITE'), 'CSeq %s repeated as %s' % (a.cseq, b.cseq), 'repeat', det)
    R.check(b.branch != a.branch, 'repeated in the same transaction', 'repeat', det)
    R.check(a.uri == b.uri and a.body == b.body, 'request-URI or body changed', 'repeat', det)
    skip = ('via', 'cseq', 'authorization', 'proxy-authorization', 'content-length')
    ha, hb = [sorted(x for x in m.headers if x[0] not in skip) for m in (a, b)]
    R.check(ha == hb, 'other headers changed: %s' % [x for x in ha + hb if x not in ha or x not in hb], 'repeat headers', det)
    au = b.hs(name)
    oth = [n for n, v in b.headers if n in ('authorization', 'proxy-authorization') and n != name]
    if not R.check(len(au) == 1 and not oth, 'credentials %s %s' % (au, oth), 'credentials', det): return
    sch, p = params(au[0])
    if not R.check(sch == 'Digest' and p is not None, 'credentials %s' % au, 'credentials', det): return
    q = {n: uq(v) for n, v in p.items()}
    for n, v in (('realm', pick['realm']), ('nonce', pick['nonce']), ('algorithm', pick['alg']), ('opaque', pick['opaque']), ('qop', pick['qop']), ('username', user), ('uri', b.uri)):
        R.check(q.get(n) == v, 'credentials: %s is %r, expected %r' % (n, q.get(n), v), 'credentials', det)
    if pick['qop']: R.check(q.get('nc') == '00000001' and q.get('cnonce'), 'nc %s cnonce %s' % (q.get('nc'), q.get('cnonce')), 'credentials', det)
    for n in ('username', 'realm', 'nonce', 'uri', 'response', 'cnonce', 'opaque'):
        if n in p: R.check(p[n][:1] == '"', '%s must be quoted' % n, 'syntax', det)
    for n in ('algorithm', 'qop', 'nc'):
        if n in p: R.check(p[n][:1] != '"', '%s must not be quoted' % n, 'syntax', det)
    try: r = digest(q, pw, 'INVITE', b.body.decode())
    except KeyError as e: R.fail('credentials lack %s' % e, 'credentials', det()); return
    R.check(q.get('response') == r, 'wrong response', 'credentials', det)
