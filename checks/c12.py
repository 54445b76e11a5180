"""C12: independent digest client and server model around the real verifier, under a virtual clock
Challenges are issued by the real code at one instant; credentials are computed by an independent implementation (or by the real client code), written in random but legal syntax, altered in at most one respect and presented after a random age; the verdict must be the model's, and nothing may raise."""
import random, hashlib, string
import vsim
from vsim import Sim, clock
from sippy.SipAuthorization import SipAuthorization, NameList2AlgMask
from sippy.SipProxyAuthorization import SipProxyAuthorization
from sippy.SipWWWAuthenticate import SipWWWAuthenticate
from sippy.SipProxyAuthenticate import SipProxyAuthenticate
from sippy.Security.SipNonce import HashOracle, AESCipher
RULE = 'seeded challenges and credentials over 7 algorithm names x 3 qop x 30 kinds of alteration x ages around 0 and 32 s, parameter values with commas, equal signs, spaces, semicolons and non-ASCII characters; distinct by (algorithm, qop, alteration, age class, how built).'
N = {'quick': 40000, 'thorough': 4000000}
NEED = {'accepted': 5000, 'rejected': 10000, 'expired': 1000, 'forged nonce': 2000, 'missing': 1000, 'garbage': 1000, 'real client': 1000}
ALGS = [None, 'MD5', 'MD5-sess', 'SHA-256', 'SHA-256-sess', 'SHA-512-256', 'SHA-512-256-sess']
HF = {None: 'md5', 'MD5': 'md5', 'SHA-256': 'sha256', 'SHA-512-256': 'sha512_256'}
def H(alg, s):
    a = alg[:-5] if alg and alg.endswith('-sess') else alg
    return hashlib.new(HF[a], s.encode()).hexdigest()
def ha1_of(p, pw):
    a1 = H(p.get('algorithm'), ':'.join((p['username'], p['realm'], pw)))
    if (p.get('algorithm') or '').endswith('-sess'):
        a1 = H(p['algorithm'], ':'.join((a1, p['nonce'], p['cnonce'])))
    return a1
def digest(p, pw, method, body):
    al = p.get('algorithm')
    a2 = method + ':' + p['uri']
    if p.get('qop') == 'auth-int': a2 += ':' + H(al, body or '')
    mid = [p['nonce']]
    if p.get('qop'): mid += [p['nc'], p['cnonce'], p['qop']]
    return H(al, ':'.join([ha1_of(p, pw)] + mid + [H(al, a2)]))
CH = string.ascii_letters + string.digits
def word(rng, wild = True):
    n = rng.choice([1, 3, 8, 20])
    s = ''.join(rng.choice(CH) for _ in range(n))
    if wild and rng.random() < .4:
        for _ in range(rng.choice([1, 2])):
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice([',', '=', ' ', ';', 'é', '@', ':', ', a="', '\'', '/', 'nonce=', '%']).replace('"', '') + s[i:]
    return s.strip() or 'x'
def write(rng, p, extra):
    names = list(p) + list(extra)
    if rng.random() < .5: rng.shuffle(names)
    out = []
    for n in names:
        v = p[n] if n in p else extra[n]
        q = n not in ('algorithm', 'nc', 'qop') or rng.random() < .2
        nm = n if rng.random() < .8 else rng.choice([n.upper(), n.capitalize()])
        out.append('%s=%s' % (nm, '"%s"' % v if q else v))
    return 'Digest ' + rng.choice([',', ', ', ', ', ' , ']).join(out)
def other(rng, s):
    """a string differing from s"""
    while True:
        k = rng.randrange(5)
        i = rng.randrange(len(s)) if s else 0
        if k == 0: t = s[:i] + rng.choice(CH + '+/') + s[i + 1:]
        elif k == 1: t = s[:i] + s[i + 1:]
        elif k == 2: t = s[:i] + rng.choice(CH) + s[i:]
        elif k == 3: t = s + rng.choice(CH)
        else: t = word(rng, False)
        if t != s: return t

def case(seed, R, tier):
    rng = random.Random(seed)
    sim = Sim(seed)
    clock.mono = rng.choice([1000., rng.uniform(1, 1e7)])
    ho = HashOracle()
    pair = rng.choice([(SipWWWAuthenticate, SipAuthorization), (SipProxyAuthenticate, SipProxyAuthorization)])
    for _ in range(4):
        one(rng, R, ho, *pair)

def judge(R, A, txt, pw, method, body, exp, what, via = 'verify', ha1 = None):
    try:
        a = A(txt)
        if via == 'copy': a = a.getCopy()
        if via == 'reparse':
            a.parse()
            a = A(str(a))
        got = a.verifyHA1(ha1, method, body) if via == 'ha1' else a.verify(pw, method, body)
    except Exception as e:
        R.fail('%s: verification raised %r' % (what, e), 'raise', dict(credentials = txt))
        return
    R.check(got is exp or bool(got) == exp, '%s: %s, expected %s' % (what, 'accepted' if got else 'rejected', 'accept' if exp else 'reject'), 'verdict', dict(credentials = txt, method = method, body = body, pw = pw))
    R.count('accepted' if got else 'rejected')

def one(rng, R, ho, W, A):
    alg = rng.choice(ALGS)
    sess = bool(alg and alg.endswith('-sess'))
    qop = rng.choice([None, 'auth', 'auth-int'])
    realm, pw, method = word(rng), word(rng), rng.choice(['INVITE', 'REGISTER', 'BYE'])
    user, uri = word(rng), 'sip:%s@%s' % (word(rng), rng.choice(['h', '10.0.0.1:5061', 'h;transport=udp', 'h;x=a,b']))
    body = rng.choice([None, '', 'v=0\r\n', word(rng) * 9])
    mode = rng.choice(['header', 'header', 'oracle', 'multi'])
    if mode == 'header':
        ch = W(realm = realm, algorithm = alg)
        if qop: ch.qop = [qop]
        c = W(str(ch)); c.parse()
        R.check((c.realm, c.nonce, c.algorithm) == (realm, ch.nonce, alg), 'challenge changed in writing and reading', 'chal', str(ch))
        nonce = ch.nonce
    elif mode == 'oracle':
        nonce = ho.emit_challenge(NameList2AlgMask((alg,)))
    else:
        nonce = ho.emit_challenge(NameList2AlgMask(tuple({alg} | set(rng.sample(ALGS, 2)))))
    issued = clock.mono
    if mode == 'header' and rng.random() < .3 and (qop or not sess):
        # the real client answers its own kind of challenge; opaque and unknown parameters ride along
        if rng.random() < .5: c.opaque = word(rng)
        a = c.genAuthHF(user, pw, method, uri, body, qop)
        age = rng.choice([0, rng.uniform(0, 31)])
        clock.mono += age
        p = dict(username = user, realm = realm, nonce = nonce, uri = uri, algorithm = alg, qop = a.qop, nc = a.nc, cnonce = a.cnonce)
        R.check((a.username, a.realm, a.nonce, a.uri, a.algorithm) == (user, realm, nonce, uri, alg), 'client altered the parameters', 'client', str(a))
        R.check(a.response == digest(p, pw, method, body), 'client computed a wrong response', 'client', str(a))
        judge(R, A, str(a), pw, method, body, True, 'own client %s/%s' % (alg, qop), rng.choice(['verify', 'copy', 'reparse']))
        R.count('real client'); R.ev(('own', alg, qop))
        return
    p = dict(username = user, realm = realm, nonce = nonce, uri = uri)
    if alg: p['algorithm'] = alg
    if qop: p['qop'] = qop
    if qop: p['nc'] = '%08x' % rng.choice([1, 2, 300])
    if qop or sess: p['cnonce'] = word(rng)
    p['response'] = digest(p, pw, method, body)
    extra = {}
    if rng.random() < .3: extra['opaque'] = word(rng)
    if rng.random() < .1: extra[rng.choice(['x', 'auth-param'])] = word(rng)
    ac = rng.choice(['zero', 'young', 'edge-', 'young', 'young', 'edge+', 'old'])
    age = {'zero': 0, 'young': rng.uniform(0, 31.9), 'edge-': 31.9999, 'edge+': 32.0001, 'old': rng.choice([33, 64, 1e5, 1e9])}[ac]
    exp = age < 32
    if not exp: R.count('expired')
    alt = rng.choice(['none'] * 8 + ['username', 'realm', 'nonce', 'uri', 'response', 'response', 'cnonce', 'nc', 'pw', 'method', 'body', 'swapalg', 'swapqop', 'badalg', 'badqop', 'missing', 'missing',
        'forge', 'forge', 'forge', 'trunc', 'othernonce', 'foreign', 'algnonce', 'empty', 'early', 'garbage'])
    if alt == 'garbage':
        k = rng.randrange(6)
        t = write(rng, p, extra)
        g = [lambda: t[:rng.randrange(len(t))], lambda: t[7:], lambda: 'Basic ' + t[7:27], lambda: 'Digest', lambda: ''.join(rng.choice('Digest ,="\\a1;') for _ in range(rng.randrange(60))), lambda: t.replace('"', '', rng.randrange(1, 5))][k]()
        try: A(g).verify(pw, method, body); A(g).getCopy()
        except Exception as e: R.fail('unusable credentials: verification raised %r' % e, 'raise', g)
        if k in (3, 4): judge(R, A, g, pw, method, body, False, 'garbage')
        R.count('garbage'); R.ev(('garbage', k))
        return
    clock.mono += age
    m2, b2, pw2 = method, body, pw
    recompute = False
    if alt in ('username', 'realm', 'uri', 'response'):
        p[alt] = other(rng, p[alt]); exp = False
    elif alt == 'nonce':
        p['nonce'] = other(rng, nonce); exp = False
    elif alt in ('cnonce', 'nc'):
        if not qop: return
        p[alt] = other(rng, p[alt]); exp = False
    elif alt == 'pw': pw2 = other(rng, pw); exp = False
    elif alt == 'method': m2 = 'ACK'; exp = False
    elif alt == 'body':
        b2 = other(rng, body or ''); exp = exp and qop != 'auth-int'
    elif alt == 'swapalg':
        na = rng.choice(ALGS)
        if (na or 'MD5') == (alg or 'MD5'): return
        p['algorithm'] = na
        if na is None: del p['algorithm']
        exp = False
    elif alt == 'algnonce':
        # correct under an algorithm the nonce was not issued for
        if mode == 'multi': return
        na = rng.choice(ALGS)
        if (na or 'MD5') == (alg or 'MD5'): return
        p['algorithm'] = na
        if na is None: del p['algorithm']
        elif na.endswith('-sess'): p.setdefault('cnonce', 'zz')
        recompute = True; exp = False
    elif alt == 'swapqop':
        if not qop: return
        p['qop'] = {'auth': 'auth-int', 'auth-int': 'auth'}[qop]; exp = False
    elif alt == 'badalg':
        p['algorithm'] = rng.choice(['SHA', 'MD4', 'AKAv1-MD5', '', 'MD5-', 'None']); exp = False
    elif alt == 'badqop':
        if not qop: return
        p['qop'] = rng.choice(['auth-conf', 'Auth2', 'x']); recompute = rng.random() < .5; exp = False
    elif alt == 'missing':
        n = rng.choice([x for x in p if x not in ('algorithm', 'qop')])
        if n == 'cnonce' and not qop and not sess or n == 'nc' and not qop: return
        del p[n]; exp = False
        if n in ('nc', 'cnonce') and rng.random() < .6 and not sess:
            # a client that leaves the parameter out of the calculation as well
            al = p.get('algorithm')
            a2 = method + ':' + uri + (':' + H(al, body or '') if qop == 'auth-int' else '')
            p['response'] = H(al, ':'.join((ha1_of(p, pw), nonce, H(al, a2))))
        R.count('missing')
    elif alt == 'empty':
        n = rng.choice(list(p))
        if n in ('algorithm',) or not p[n]: return
        p[n] = ''; exp = False
        if n == 'qop': return
    elif alt == 'othernonce':
        p['nonce'] = HashOracle().emit_challenge(NameList2AlgMask((alg,))); exp = False
    elif alt in ('forge', 'trunc', 'foreign', 'early'):
        if alt == 'forge':
            k = rng.randrange(4)
            i = rng.randrange(len(nonce))
            n2 = nonce[:i] + rng.choice(CH + '+/') + nonce[i + 1:] if k == 0 else other(rng, nonce) if k == 1 else ''.join(rng.choice(CH) for _ in range(rng.choice([1, 4, 22, 43, 64, 65, 86, 128]))) if k == 2 else nonce[:i] + rng.choice('-_!. \t%~') + nonce[i:]
            if n2 == nonce: return
        elif alt == 'trunc':
            n2 = nonce[:rng.randrange(len(nonce))] if rng.random() < .5 else nonce[rng.randrange(1, len(nonce)):]
        elif alt == 'foreign':
            ho2 = HashOracle(); ho2.ac = AESCipher(rng.randbytes(64))
            n2 = ho2.emit_challenge(NameList2AlgMask((alg,)))
        else:
            # issued "later" than it is presented (a clock from another boot)
            keep = clock.mono; clock.mono += rng.choice([.001, 5, 1e5])
            n2 = ho.emit_challenge(NameList2AlgMask((alg,))); clock.mono = keep
        if n2.strip() != n2: return
        p['nonce'] = n2; recompute = True; exp = False
        R.count('forged nonce')
    if recompute and all(x in p for x in ('username', 'realm', 'uri')):
        if p.get('qop'): p.setdefault('nc', '1'); p.setdefault('cnonce', 'c')
        p['response'] = digest(p, pw, method, body)
    txt = write(rng, p, extra)
    via = rng.choice(['verify', 'verify', 'copy', 'ha1', 'reparse'])
    ha1 = None
    if via == 'reparse' and sess and not qop: via = 'verify'     # not a combination the protocol has
    if via in ('ha1', 'reparse') and alt in ('missing', 'empty', 'badalg', 'swapalg'): via = 'verify'
    if via == 'ha1': ha1 = ha1_of(p, pw2).encode()
    judge(R, A, txt, pw2, m2, b2, exp, '%s/%s, %s, age %s' % (alg, qop, alt, age), via, ha1)
    if mode == 'header' and exp and rng.random() < .3: clock.mono += 0
    R.ev((alg, qop, alt, ac, mode, via), alt != 'none' or ac != 'zero')
