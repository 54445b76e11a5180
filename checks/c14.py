"""C14: independent reader of messages compared with every way the real code can emit them, over parse/copy/modify histories
Well-formed messages in random legal syntax go through the real parser; a random subset of headers (and the body) is interpreted, copies are taken before and after, originals and copies are modified through the public interface; every emission (plain, local, compact) must read, by an independent reader, as what came in, copies must be equal then and unaffected afterwards."""
import random
import vsim, sipgen
from sipgen import gen, meaning, read
from sippy.SipRequest import SipRequest
from sippy.SipResponse import SipResponse
from sippy.SipHeader import SipHeader
from sippy.SipAddress import SipAddress
from sippy.SipURL import SipURL
from sippy.MsgBody import MsgBody
from sippy.ESipHeaderCSV import ESipHeaderCSV
RULE = 'seeded messages over 45 header kinds in random legal syntax (folding, blanks, quoting and escaping, lists, compact and odd-case names, IPv6, UTF-8, bodies plain/SDP/multipart) x random interleavings of parse, copy, modify, emit; distinct by (kind, history, header set size, body kind).'
N = {'quick': 15000, 'thorough': 1200000}
NEED = {'messages': 8000, 'emissions': 60000, 'copies': 8000, 'mutations': 9000, 'values': 60000, 'uris': 10000, 'multi': 500, 'sdp': 1000}
ASSUME = ['Percent-escapes of characters RFC 3261 reserves (; / ? : @ & = + $ ,) inside a user part may be written out plain; bodies of responses other than 101-399 are not carried; an empty reason phrase reads as Unspecified.']

def build(T):
    return (SipResponse if T.resp else SipRequest)(T.raw)
def emissions(m):
    la = (('192.0.2.9', 5099), 'udp')
    yield 'str', str(m)
    yield 'local', m.localStr(None)
    yield 'compact', m.localStr(None, compact = True)
    yield 'addressed', m.localStr(la, compact = False)
def diff(a, b):
    for x, y, w in zip(a, b, ('start line', 'headers', 'content type', 'body')):
        if x != y:
            if w == 'headers':
                for h, g in zip(x, y):
                    if h != g: return 'header %s: came %r, went %r' % (h[0], h[1], g)
                return 'headers: %d came, %d went' % (len(x), len(y))
            return '%s: came %r, went %r' % (w, x, y)
def same(R, want, m, T, what, which = None):
    ok = True
    for how, out in emissions(m):
        if which and how != which: continue
        R.count('emissions')
        try: got = meaning(out)
        except Exception as e:
            R.fail('%s (%s) emitted something unreadable: %r' % (what, how, e), 'unreadable', dict(came = T.raw, went = out)); return False
        d = diff(want, got)
        if not R.check(d is None, '%s (%s): %s' % (what, how, d), 'meaning', dict(came = T.raw, went = out)): ok = False
    return ok
def interpret(rng, m, p):
    n = 0
    for h in m.headers:
        if rng.random() < p: h.getBody(); n += 1
    if m.getBody() is not None and rng.random() < p:
        m.getBody().parse(); n += 1
        c = m.getBody().content
        for b in getattr(c, 'parts', ()):
            if rng.random() < p: b.parse()
    return n
def mut_url(rng, u, log):
    k = rng.randrange(10)
    log.append('url%d' % k)
    if k == 0: u.username = 'MUT'
    elif k == 1: u.host = 'mut.example'
    elif k == 2: u.port = 7777
    elif k == 3: u.other.append('mut=1')
    elif k == 4:
        if u.headers is None: u.headers = {}
        u.headers['mut'] = '1'
    elif k == 5: u.userparams.append('mut'); u.username = u.username or 'MUT'
    elif k == 6: u.lr = not u.lr
    elif k == 7: u.transport = 'mut'
    elif k == 8: u.password = 'mut'; u.username = u.username or 'MUT'
    else: u.setParams(['mut=3'])
def mut_addr(rng, a, log):
    k = rng.randrange(5)
    log.append('addr%d' % k)
    if k == 0: a.setParam('mut', 'x')
    elif k == 1: a.name = 'MUT'
    elif k == 2 and a.params_order: a.delParam(rng.choice(a.params_order))
    elif k == 3 and a.params_order: a.setParam(rng.choice(a.params_order), 'mut')
    else: mut_url(rng, a.url, log)
def mut_body(rng, b, name, log):
    """modify a header value through its public interface"""
    log.append(name)
    if name == 'contact' and getattr(b, 'asterisk', False): return
    if hasattr(b, 'address') and b.address is not None:
        if hasattr(b, 'setTag') and rng.random() < .3: b.setTag('muttag')
        else: mut_addr(rng, b.getUri(), log)
    elif name == 'via':
        rng.choice([lambda: b.setParam('mut', '1'), lambda: b.genBranch(), lambda: setattr(b, 'hostname', 'mut'), lambda: b.params.pop('branch', None)])()
    elif hasattr(b, 'incCSeqNum'): b.incCSeqNum()
    elif hasattr(b, 'incNum'): b.incNum()
    elif hasattr(b, 'methods'): b.methods.append('MUT')
    elif hasattr(b, 'caps'): b.caps.append('mut')
    elif name == 'call-id': b.genCallId()
    elif name == 'replaces': rng.choice([lambda: b.params.append('mut=1'), lambda: setattr(b, 'call_id', 'mut'), lambda: setattr(b, 'early_only', not b.early_only)])()
    elif name == 'reason': rng.choice([lambda: setattr(b, 'cause', 999), lambda: setattr(b, 'reason', 'mut')])()
    elif name == 'warning': b.text = 'mut'
    elif name in ('www-authenticate', 'proxy-authenticate'):
        if b.parsed:
            if b.qop and isinstance(b.qop, list) and rng.random() < .5: b.qop.append('mut')
            else: b.otherparams.append(('mut', '1'))
    elif name in ('authorization', 'proxy-authorization'):
        if b.parsed: rng.choice([lambda: b.otherparams.append(('mut', '1')), lambda: setattr(b, 'response', 'mut')])()
    elif name in ('user-agent', 'server'): b.name = 'mut'
    elif name in ('cisco-guid',): b.ciscoGUID = (1, 2, 3, 4)
    else: b.body = 'mut'
def mutate(rng, m, T, R):
    log = []
    for _ in range(rng.choice([1, 2, 4])):
        R.count('mutations')
        k = rng.random()
        if k < .6 and m.headers:
            h = rng.choice(m.headers)
            mut_body(rng, h.getBody(), h.name, log)
        elif k < .7: m.delHFs(rng.choice(m.headers).name) if m.headers else None
        elif k < .75: m.appendHeader(SipHeader('X-Mut: 1'))
        elif k < .78 and m.headers: m.removeHeader(m.headers[-1])
        elif k < .82: m.setBody(MsgBody('mut', SipHeader('content-type: text/plain').getBody()))
        elif k < .9 and m.getBody() is not None:
            b = m.getBody()
            log.append('body')
            b.parse()
            q = rng.random()
            if q < .2: b.mtype.params['mut'] = '1'
            elif hasattr(b.content, 'parts'):
                p = rng.choice(b.content.parts)
                if q < .4: b.content.parts.append(MsgBody('mut'))
                elif q < .6: p.mtype.params['mut'] = '1'
                elif q < .7: b.content.part_headers[0].append(SipHeader('X-Mut: 1')) if hasattr(b.content, 'part_headers') else b.content.parts.pop()
                else:
                    p.parse()
                    if hasattr(p.content, 'sections'): p.content.sections[0].m_header.port = 9
                    else: p.content = 'mut'
            elif hasattr(b.content, 'sections') and len(b.content.sections) > 0:
                s = b.content.sections[0]
                rng.choice([lambda: setattr(s.m_header, 'port', 9), lambda: b.content.sections.pop(), lambda: s.m_header.formats.append(101), lambda: s.addHeader('a', 'mut'), lambda: s.a_headers and s.a_headers.pop(),
                    lambda: setattr(b.content.o_header, 'version', 9)])()
            else: b.content = 'mut'
        elif T.resp: m.setSCode(299, 'Mut')
        else:
            if rng.random() < .2: m.method = 'MUT'
            else: mut_url(rng, m.getRURI(), log)
    return log
def attrs(m):
    return dict((k, getattr(m, k, None)) for k in ('target', 'source', 'nated', 'rtime', 'method', 'scode', 'reason', 'sipver', 'user_agent'))

def case(seed, R, tier):
    rng = random.Random(seed)
    T = gen(rng)
    want = meaning(T.raw)
    R.count('messages')
    try: m = build(T)
    except Exception as e:
        R.fail('a well-formed message was refused: %r' % e, 'refused', T.raw); return
    if T.bkind in ('multi', 'sdp'): R.count(T.bkind)
    m.rtime, m.nated = 12.5, rng.random() < .3
    m.setTarget((('192.0.2.1', 5060), 'udp'))
    hist = []
    if not same(R, want, m, T, 'untouched message'): return
    # a history of interpretation, copying and modification
    live = [m]      # messages that must still mean what came in
    gone = []       # (message, its frozen emission)
    for _ in range(rng.choice([1, 2, 4, 6])):
        a = rng.choice(['parse', 'parse', 'copy', 'copy', 'reparse', 'mutate', 'parseall'])
        x = rng.choice(live)
        hist.append(a)
        if a in ('parse', 'parseall'):
            try: interpret(rng, x, .4 if a == 'parse' else 1.1)
            except Exception as e:
                R.fail('interpreting a well-formed message failed: %r' % e, 'interpret', T.raw); return
        elif a == 'copy':
            R.count('copies')
            s0, l0 = str(x), x.localStr(None, compact = True)
            c = x.getCopy()
            R.check(str(c) == s0 and c.localStr(None, compact = True) == l0, 'copy is emitted differently', 'copy', dict(came = T.raw, copy = str(c), orig = s0))
            R.check(str(x) == s0, 'copying changed the original', 'copy', T.raw)
            R.check(attrs(c) == attrs(x), 'copy differs in %s' % [k for k in attrs(x) if attrs(x)[k] != attrs(c)[k]], 'copyattr', T.raw)
            R.check(type(c) is type(x), 'copy is of another type', 'copy', T.raw)
            live.append(c)
        elif a == 'reparse':
            s1 = str(x)
            y = type(x)(s1)
            R.check(str(y) == s1, 'emitting what was just parsed changes it', 'fixed', dict(came = s1, went = str(y)))
            interpret(rng, y, 1.1)
            s2 = str(y)
            z = type(x)(s2); interpret(rng, z, 1.1)
            R.check(str(z) == s2, 'emission of the interpreted message is not a fixed point', 'fixed', dict(came = s2, went = str(z)))
            y.rtime, y.nated = x.rtime, x.nated; y.setTarget(x.getTarget())
            live.append(y)
        elif a == 'mutate':
            # never modify the last good one
            if len(live) < 2: live.append(x.getCopy())
            frozen = [(y, str(y)) for y in live if y is not x]
            if rng.random() < .5: interpret(rng, x, .5); frozen = [(y, str(y)) for y in live if y is not x]
            log = mutate(rng, x, T, R)
            live.remove(x)
            for y, s in frozen:
                R.check(str(y) == s, 'changing a message (%s) changed another copy of it' % ' '.join(log), 'alias', dict(came = T.raw, before = s, after = str(y)))
            try: gone.append((x, str(x)))
            except Exception: pass      # modified into something that cannot be written; not the subject here
        for y, s in gone:
            R.check(str(y) == s, 'using a message changed another copy of it', 'alias', dict(came = T.raw, before = s, after = str(y)))
    for y in live:
        same(R, want, y, T, 'after ' + '+'.join(hist), rng.choice(['str', 'local', 'compact', 'addressed']))
    values(rng, R, T, want)
    R.ev((T.resp, tuple(sorted(set(hist))), min(T.nh // 3, 5), T.bkind))

def values(rng, R, T, want):
    """single header values, addresses and URIs"""
    sl, hs, ct, b = read(T.raw)
    for n, v in hs:
        if rng.random() < .5: continue
        R.count('values')
        try: h = SipHeader('%s: %s' % (n, v))
        except ESipHeaderCSV:
            R.fail('a single value was taken for a list', 'csv', '%s: %s' % (n, v)); continue
        w = sipgen.m_value(n, v)
        order = rng.choice(['copy parse', 'parse copy', 'bcopy', 'copy'])
        try:
            if order.startswith('parse'): h.getBody()
            c = h.getCopy() if order != 'bcopy' else SipHeader(name = h.name, body = h.getBCopy())
            if order.endswith('parse'): c.getBody()
        except Exception as e:
            R.fail('%s of a header value raised %r' % (order, e), 'value', '%s: %s' % (n, v)); continue
        for x, what in ((h, 'header'), (c, 'copy of a header')):
            got = str(x).partition(':')[2].strip()
            try: g = sipgen.m_value(n, got)
            except Exception as e: g = repr(e)
            R.check(g == w, '%s %s reads %r, not %r (%s)' % (what, n, g, w, order), 'value', '%s: %s' % (n, v))
        if not (n == 'contact' and v == '*'):
            frozen = str(h)
            try: mut_body(rng, c.getBody(), h.name, [])
            except Exception as e: R.fail('modifying a copy of a header value raised %r' % e, 'value', '%s: %s' % (n, v))
            R.check(str(h) == frozen, 'changing a copy of a header value changed it', 'alias', '%s: %s' % (n, v))
            if order != 'copy' and h.body.parsed:
                fc = str(c); mut_body(rng, h.getBody(), h.name, [])
                R.check(str(c) == fc, 'changing a header value changed a copy of it', 'alias', '%s: %s' % (n, v))
        if n in sipgen.NA and v != '*':
            R.count('uris')
            a = SipAddress(v)
            x = accessors(a)
            R.check(x == w, 'address reads as %r, not %r' % (x, w), 'access', v)
            d = a.getCopy()
            R.check(str(d) == str(a) and accessors(d) == x, 'copy of an address differs', 'copy', v)
            fr = str(a); mut_addr(rng, d, [])
            R.check(str(a) == fr, 'changing a copy of an address changed it', 'alias', v)
            u = SipURL(str(a.url))
            R.check(sipgen.m_uri(str(u)) == w[1], 'URI changed in a second pass: %r' % str(u), 'fixed', v)
            e = u.getCopy()
            R.check(str(e) == str(u), 'copy of a URI differs', 'copy', v)
            fr = str(u); mut_url(rng, e, [])
            R.check(str(u) == fr, 'changing a copy of a URI changed it', 'alias', v)
            fr = str(e); mut_url(rng, u, [])
            R.check(str(e) == fr, 'changing a URI changed a copy of it', 'alias', v)
        elif n == 'via':
            bd = SipHeader('via: ' + v).getBody()
            d = dict(w[5])
            R.check((bd.sipver, bd.transport, bd.hostname, bd.port) == ('%s/%s' % w[:2], w[2], w[3], w[4]) and bd.getBranch() == d.get('branch'), 'Via reads %r' % str(bd), 'access', v)
        elif n == 'cseq': R.check(SipHeader('cseq: ' + v).getBody().getCSeq() == w, 'CSeq misread', 'access', v)

def accessors(a):
    u = a.url
    P = {}
    for p in u.getParams():
        P.update(sipgen.pars([p]))
    if 'ttl' in P: P['ttl'] = int(P['ttl'])
    nm = a.name
    if nm is not None:
        nm = sipgen.re.sub(r'\\(.)', r'\1', nm, flags = sipgen.re.S)
    ps = {k.lower(): sipgen.unq(v) for k, v in a.params.items()}
    nm = nm if nm is None or '"' in nm else nm
    return (nm or None, (u.scheme, None if u.username is None else u.username, tuple(u.userparams), u.password, u.host, u.port, tuple(sorted(P.items(), key = str)), tuple(sorted((u.headers or {}).items()))), tuple(sorted(ps.items(), key = str)))
