"""Structured generator of well-formed SIP messages in random legal syntax, and an independent reading of their meaning.
gen(rng) -> Text with .raw (str), .kind; meaning(raw) -> (start line, [(header, meaning of value)], content type, body)."""
import re, string
import siplite as S
from urllib.parse import unquote
TOK = string.ascii_letters + string.digits + "-.!%*_+`'~"
def tok(rng, n = 10, cs = None):
    return ''.join(rng.choice(cs or (string.ascii_letters + string.digits)) for _ in range(rng.randrange(1, n + 1)))
def wtok(rng, n = 10): return tok(rng, n, TOK)
def ws(rng, p = .25): return rng.choice([' ', '  ', '\t']) if rng.random() < p else ''
def num(rng): return str(rng.choice([0, 1, 2, 60, 300, 3600, 65535, 2**31 - 1, rng.randrange(10**6)]))
PRINT = [chr(c) for c in range(32, 127) if chr(c) not in '"\\'] + list('éßЖ中') + ['\u2028', '\u0085', '\x0c']
def qstr(rng, n = 14, escapes = True, ctl = True):
    out = []
    for _ in range(rng.randrange(0, n)):
        k = rng.random()
        if k < .45: out.append(rng.choice(string.ascii_letters))
        elif k < .9:
            c = rng.choice(PRINT if rng.random() < .7 else list(',;<>:=@?&% \''))
            if not ctl and not c.isprintable(): c = 'x'
            out.append(c)
        elif escapes: out.append('\\' + rng.choice('"\\"\\abc,;<>'))
    return '"%s"' % ''.join(out)
HOSTS = ['example.com', 'a', '10.0.0.1', '192.0.2.55', '[::1]', '[2001:db8::9:255.255.255.255]', 'xn--p1ai.example', 'host-1.EXAMPLE.org', '1.2.3.4']
def hostport(rng, sp = False):
    h = rng.choice(HOSTS)
    if rng.random() < .4:
        return h + (ws(rng, .2) + ':' + ws(rng, .2) if sp else ':') + str(rng.choice([5060, 5061, 1, 65535, 443]))
    return h
def user(rng):
    out = []
    for _ in range(rng.randrange(1, 10)):
        k = rng.random()
        if k < .6: out.append(rng.choice(string.ascii_letters + string.digits))
        elif k < .8: out.append(rng.choice("-_.!~*'()&=+$,?/"))
        elif k < .9: out.append('%%%02X' % rng.choice([0x20, 0x22, 0x25, 0x3c, 0x3e, 0x61, 0x7e, 0x5c, 0x7b, 0x7f, 1, 0]))
        else: out.append(rng.choice(['%C3%A9', '%e4%b8%ad', '%D0%96']))
    return ''.join(out)
PCH = string.ascii_letters + string.digits + "-_.!~*'()[]/:&+$"
def uri(rng, bare = False, ruri = False):
    s = rng.choice(['sip:'] * 6 + ['sips:', 'SIP:', 'Sips:'])
    if rng.random() < .85:
        u = user(rng)
        if rng.random() < .1: u += ';' + rng.choice(['day=tuesday', 'npdi', 'par=u%40example.net', 'phone-context=+1'])
        if rng.random() < .1: u += ':' + ''.join(rng.choice(string.ascii_letters + "&=+$,-_.!~*'()") for _ in range(rng.randrange(0, 6)))
        if bare: u = u.replace(',', 'c').replace('?', 'q').replace(';', '%20')
        s += u + '@'
    s += hostport(rng)
    if bare: return s
    ps = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        ps.append(rng.choice(['transport=udp', 'transport=TCP', 'ttl=%d' % rng.randrange(256), 'maddr=239.255.255.1', 'user=phone', 'method=REGISTER', 'lr', 'lr=on', 'tag=' + tok(rng),
            tok(rng, 6, string.ascii_lowercase).upper() + 'x=' + ''.join(rng.choice(PCH) for _ in range(rng.randrange(1, 8))), 'ob', 'x' + tok(rng, 5) + '=%20%3b', 'unknown-' + tok(rng, 4)]))
    seen, ps2 = set(), []
    for p in ps:
        k = p.split('=')[0].lower()
        if k not in seen: seen.add(k); ps2.append(p)
    s += ''.join(';' + p for p in ps2)
    if not ruri and rng.random() < .15:
        hs = {}
        for _ in range(rng.randrange(1, 4)):
            hs[rng.choice(['subject', 'Route', 'priority', 'to', 'X-' + tok(rng, 4)])] = rng.choice(['', 'urgent', '%3Csip%3Aexample.com%3E', 'a%26b%3Dc', 'project%20x', 'caf%C3%A9', '[x]?/:+$'])
        s += '?' + '&'.join('%s=%s' % x for x in hs.items())
    return s
def aparams(rng, n = None, tag = None):
    out, seen = [], {'tag'}
    if tag: out.append(rng.choice(['tag=', 'tag=', 'tag =']) .replace(' ', ws(rng)) + tag)
    for _ in range(rng.choice([0, 0, 1, 2, 3]) if n is None else n):
        k = rng.choice(['x', 'expires', 'q', 'reason', 'privacy', 'handling', wtok(rng, 6), 'p' + tok(rng, 4)])
        if k.lower() in seen: continue
        seen.add(k.lower())
        r = rng.random()
        if r < .25: out.append(k)
        elif r < .6: out.append(k + ws(rng, .15) + '=' + ws(rng, .15) + wtok(rng))
        elif r < .9: out.append(k + ws(rng, .15) + '=' + ws(rng, .15) + qstr(rng))
        else: out.append(k + '=' + rng.choice(['[::1]', '10.0.0.1', 'host.example']))
    if rng.random() < .3: rng.shuffle(out)
    return ''.join(ws(rng, .2) + ';' + ws(rng, .2) + p for p in out)
def naddr(rng, tag = None, allow_bare = True):
    r = rng.random()
    if r < .15 and allow_bare: return uri(rng, True) + aparams(rng, tag = tag)
    if r < .45: n = qstr(rng, ctl = False) + ws(rng, .8)
    elif r < .7: n = ' '.join(wtok(rng, 7) for _ in range(rng.randrange(1, 4))) + ' '
    else: n = ''
    return n + '<' + uri(rng) + '>' + aparams(rng, tag = tag)
def via(rng):
    s = 'SIP/2.0/' if rng.random() < .8 else 'SIP' + ws(rng) + '/' + ws(rng) + '2.0' + ws(rng) + '/' + ws(rng)
    s += rng.choice(['UDP', 'TCP', 'TLS', 'WSS', 'SCTP', 'udp', 'UNKNOWN']) + rng.choice([' ', ' ', '  ', '\t']) + hostport(rng, True)
    ps = ['branch=z9hG4bK' + wtok(rng, 20)]
    for p in ['rport', 'rport=5062', 'received=10.1.2.3', 'ttl=16', 'maddr=224.2.0.1', 'received=[::2]', tok(rng, 6) + 'x=' + wtok(rng), 'unk-' + tok(rng, 5), 'ext' + tok(rng, 3) + '=' + qstr(rng)]:
        if rng.random() < .15 and not any(x.split('=')[0] == p.split('=')[0] for x in ps): ps.append(p)
    if rng.random() < .4: rng.shuffle(ps)
    return s + ''.join(ws(rng, .15) + ';' + ws(rng, .15) + (p if rng.random() < .9 or '"' in p else p.replace('=', ws(rng) + '=' + ws(rng), 1)) for p in ps)
def authp(rng, ps):
    out = []
    for n, v in ps:
        out.append('%s%s=%s%s' % (n if rng.random() < .8 else rng.choice([n.upper(), n.capitalize()]), ws(rng, .1), ws(rng, .1), v))
    return (rng.choice([',', ', ', ', ', ' , '])).join(out)
def creds(rng):
    if rng.random() < .12: return rng.choice(['Basic QWxhZGRpbjpvcGVu', 'Bearer ab.cd_ef~', 'NewScheme a=1, b="2"', 'NTLM qop="auth", realm="SIP", targetname="x"'])
    q = lambda: qstr(rng)
    ps = [('username', q()), ('realm', q()), ('nonce', q()), ('uri', '"%s"' % uri(rng, True)), ('response', '"%032x"' % rng.randrange(1 << 128))]
    if rng.random() < .1: ps.pop(rng.randrange(len(ps)))
    if rng.random() < .5: ps.append(('algorithm', rng.choice(['MD5', 'SHA-256', 'MD5-sess', 'XYZ'])))
    if rng.random() < .5: ps += [('qop', 'auth'), ('nc', '%08x' % rng.randrange(1000)), ('cnonce', q())]
    if rng.random() < .4: ps.append(('opaque', q()))
    if rng.random() < .2: ps.append(('x-' + tok(rng, 4), rng.choice([wtok(rng), q()])))
    if rng.random() < .5: rng.shuffle(ps)
    return rng.choice(['Digest ', 'Digest ', 'Digest  ', 'digest ', 'DIGEST ']) + authp(rng, ps)
def chal(rng):
    if rng.random() < .12: return rng.choice(['Basic realm="x"', 'Bearer authz_server="https://a.b/c", scope="x y"', 'NTLM realm="SIP Communications Service", targetname="srv", version=4'])
    q = lambda: qstr(rng)
    ps = [('realm', q()), ('nonce', q())]
    if rng.random() < .5: ps.append(('algorithm', rng.choice(['MD5', 'SHA-256', 'SHA-512-256', 'MD5-sess'])))
    if rng.random() < .6: ps.append(('qop', rng.choice(['"auth"', '"auth,auth-int"', '"auth, auth-int"', '"auth-int"', 'auth'])))
    if rng.random() < .4: ps.append(('opaque', q()))
    if rng.random() < .3: ps.append(('stale', rng.choice(['FALSE', 'true'])))
    if rng.random() < .2: ps.append(('domain', '"sip:a.b sip:c.d"'))
    if rng.random() < .5: rng.shuffle(ps)
    return rng.choice(['Digest ', 'Digest ', 'Digest  ', 'digest ']) + authp(rng, ps)
def toks(rng, sep, pool): return sep.join(rng.sample(pool, rng.randrange(1, len(pool))))
METHODS = ['INVITE', 'ACK', 'BYE', 'CANCEL', 'OPTIONS', 'REGISTER', 'INFO', 'UPDATE', 'REFER', 'NOTIFY', 'PRACK', 'SUBSCRIBE', 'MESSAGE', "!x-Foo.1*_+`'~%"]
def gentext(rng):
    s = ''.join(rng.choice(PRINT) if rng.random() < .5 else rng.choice(string.ascii_letters + '  ') for _ in range(rng.randrange(1, 30)))
    return re.sub(r'\s*\Z|\A\s*', '', s) or 'x'
OPT = {
    'max-forwards': lambda r: str(r.choice([0, 1, 70, 255])), 'expires': num, 'contact': lambda r: naddr(r), 'route': lambda r: naddr(r, allow_bare = False), 'record-route': lambda r: naddr(r, allow_bare = False), 'path': lambda r: naddr(r, allow_bare = False),
    'user-agent': lambda r: gentext(r), 'server': lambda r: gentext(r), 'allow': lambda r: toks(r, r.choice([',', ', ', ' , ']), METHODS), 'supported': lambda r: toks(r, r.choice([',', ', ', ' , ']), ['100rel', 'timer', 'replaces', 'path', 'x.y']),
    'www-authenticate': chal, 'proxy-authenticate': chal, 'authorization': creds, 'proxy-authorization': creds, 'refer-to': lambda r: naddr(r), 'referred-by': lambda r: naddr(r), 'also': lambda r: naddr(r), 'cc-diversion': lambda r: naddr(r),
    'diversion': lambda r: naddr(r), 'p-asserted-identity': lambda r: naddr(r), 'cisco-guid': lambda r: '-'.join(str(r.randrange(1 << 32)) for _ in range(4)), 'h323-conf-id': lambda r: '-'.join(str(r.randrange(1 << 32)) for _ in range(4)),
    'replaces': lambda r: wtok(r) + '@' + wtok(r) + ''.join(ws(r, .2) + ';' + ws(r, .2) + p for p in r.sample(['from-tag=' + wtok(r), 'to-tag' + ws(r, .2) + '=' + wtok(r)], 2) + r.choice([[], ['early-only'], ['x=' + qstr(r)], ['early-only', 'zz']])),
    'reason': lambda r: r.choice(['SIP', 'Q.850', wtok(r)]) + ''.join(ws(r) + ';' + ws(r) + p for p in r.sample(['cause%s=%s%d' % (ws(r, .2), ws(r, .2), r.randrange(1000)), 'text%s=%s%s' % (ws(r, .2), ws(r, .2), qstr(r)), 'x-%s=%s' % (tok(r, 3), wtok(r))], r.randrange(1, 4))),
    'warning': lambda r: '%d %s %s' % (r.randrange(300, 400), r.choice([hostport(r), tok(r)]), qstr(r)), 'rseq': num, 'rack': lambda r: '%s%s%s%s%s' % (num(r), r.choice([' ', '  ']), num(r), r.choice([' ', '\t']), r.choice(METHODS)),
    'subject': gentext, 'date': lambda r: 'Sat, 13 Nov 2010 23:29:00 GMT', 'accept': lambda r: 'application/sdp;level=1, application/x-private, text/html', 'event': lambda r: 'refer;id=93809824', 'session-expires': lambda r: '1800;refresher=uas',
    'x-' : gentext, 'mime-version': lambda r: '1.0', 'organization': gentext, 'content-disposition': lambda r: 'session;handling=optional', 'unsupported': lambda r: 'a,b , c', 'call-info': lambda r: '<http://a.b/x,y>;purpose=icon, <mailto:z@y>', 'subscription-state': lambda r: 'terminated;reason=noresource', 'p-charging-vector': lambda r: 'icid-value="a,;b"'}
CSVOK = ('contact', 'route', 'record-route', 'path', 'refer-to', 'diversion', 'p-asserted-identity', 'cc-diversion', 'reason', 'warning', 'via')
MULTI = CSVOK + ('www-authenticate', 'proxy-authenticate', 'authorization', 'proxy-authorization', 'x-', 'subject', 'allow', 'supported', 'also', 'accept', 'call-info')
LONG2SHORT = {v: k for k, v in S.COMPACT.items()}
ODD = {'call-id': 'Call-ID', 'cseq': 'CSeq', 'www-authenticate': 'WWW-Authenticate', 'rack': 'RAck', 'rseq': 'RSeq', 'cisco-guid': 'cisco-GUID'}
def hname(rng, n):
    r = rng.random()
    if n in LONG2SHORT and r < .25: n = LONG2SHORT[n]; return n if rng.random() < .8 else n.upper()
    if r < .85: return ODD.get(n) or '-'.join(x.capitalize() for x in n.split('-'))
    return rng.choice([n, n.upper(), ''.join(c.upper() if rng.random() < .5 else c for c in n)])
def fold(rng, v):
    """fold at blanks (folding white space stands for one blank)"""
    if rng.random() > .15: return v
    # never inside a quoted string: there the folded blanks become part of the text
    out, q, esc = [], False, False
    for i, c in enumerate(v):
        if esc: esc = False
        elif q and c == '\\': esc = True
        elif c == '"': q = not q
        elif c == ' ' and not q and 0 < i < len(v) - 1 and v[i - 1] not in ' \t' and v[i + 1] not in ' \t' and rng.random() < .5:
            out.append(rng.choice(['\r\n ', '\r\n\t', '\r\n   '])); continue
        out.append(c)
    return ''.join(out)
SDP = 'v=0\r\no=- %d %d IN IP4 10.0.0.1\r\ns=%s\r\nc=IN IP4 10.0.0.1\r\nt=0 0\r\nm=audio %d RTP/AVP 0 8\r\na=rtpmap:0 PCMU/8000\r\na=sendrecv\r\n'
def sdp(rng): return SDP % (rng.randrange(1 << 31), rng.randrange(1 << 31), rng.choice(['-', 'call', 'é']), rng.randrange(1024, 65000, 2))
def body(rng):
    """(content type text, body text, kind)"""
    r = rng.random()
    if r < .3: return None, '', 'none'
    if r < .55: return rng.choice(['application/sdp', 'Application/SDP', 'application / sdp', 'application/sdp;charset=utf-8']), sdp(rng), 'sdp'
    if r < .7:
        return rng.choice(['text/plain', 'text/plain; charset="utf-8"', 'message/sipfrag;version=2.0', 'application/dtmf-relay', 'text/plain;x;y="a;b"']), rng.choice(['Signal=1\r\nDuration=100\r\n', 'caf\u00e9 \u4e2d\u6587\r\n', '\r\n\r\nx\r\n\r\n', '\n\n', 'SIP/2.0 200 OK\r\n', gentext(rng), '\u2028\x0b\x1c']), 'text'
    b = rng.choice(['boundary42', 'OSS-unique-boundary-42', 'x' + tok(rng)])
    parts = []
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < .5: parts.append(('Content-Type: application/sdp\r\n' + rng.choice(['', 'Content-Disposition: session\r\n']), sdp(rng)))
        else: parts.append((rng.choice(['Content-Type: text/plain\r\n', 'Content-Type: text/plain;charset=utf-8\r\nContent-ID: <a@b>\r\n', 'content-type: application/x-y\r\n']), rng.choice(['hello\r\n', 'h\u00e9\r\n', 'a: b\r\n\r\nc\r\n'])))
    t = ''.join('--%s\r\n%s\r\n%s' % (b, h, c) for h, c in parts) + '--%s--\r\n' % b
    return 'multipart/mixed' + rng.choice([';', '; ', ' ; ']) + 'boundary=' + (b if rng.random() < .6 else '"%s"' % b), t, 'multi'
class Text: pass
def gen(rng, resp = None, nhdr = None):
    T = Text()
    T.resp = rng.random() < .4 if resp is None else resp
    m = rng.choice(METHODS)
    T.method = m
    if T.resp:
        T.code = rng.choice([100, 180, 183, 200, 202, 302, 399, 401, 407, 404, 486, 500, 503, 603, 699])
        T.reason = rng.choice(['OK', 'Not Found', 'Busy Here', gentext(rng), 'caf\u00e9', '= 2**3 * 999 "x"', 'SIP/2.0'])
        sl = 'SIP/2.0 %d %s' % (T.code, T.reason)
    else:
        sl = '%s %s SIP/2.0' % (m, uri(rng, ruri = True))
    hs = [('from', naddr(rng, tag = wtok(rng, 12))), ('to', naddr(rng, tag = wtok(rng, 12) if rng.random() < .5 else None)), ('call-id', wtok(rng, 20) + rng.choice(['', '@' + tok(rng), '@[::1]', '<>/?{}'])), ('cseq', num(rng) + rng.choice([' ', ' ', '  ', '\t']) + m)]
    for _ in range(rng.choice([1, 1, 2, 3])): hs.append(('via', via(rng)))
    for _ in range(rng.choice([0, 2, 5, 12]) if nhdr is None else nhdr):
        n = rng.choice(list(OPT))
        v = OPT[n](rng)
        if n == 'x-': n = 'x-' + tok(rng, 6).lower()
        if any(x == n for x, _ in hs) and n not in MULTI and not n.startswith('x-'): continue
        hs.append((n, v))
    if rng.random() < .05 and not any(n == 'contact' for n, _ in hs): hs.append(('contact', '*'))
    if rng.random() < .6: rng.shuffle(hs)
    else: hs.sort(key = lambda x: x[0] != 'via')
    # join neighbours of list headers now and then
    out = []
    for n, v in hs:
        if out and out[-1][0] == n and n in CSVOK and rng.random() < .5 and '*' not in (v, out[-1][1]):
            out[-1] = (n, out[-1][1] + rng.choice([',', ', ', ' , ', ',  ']) + v)
        else: out.append((n, v))
    ct, b, T.bkind = body(rng)
    if T.resp and not 100 < T.code < 400: ct, b, T.bkind = None, '', 'none'
    bl = len(b.encode())
    if ct: out.insert(rng.randrange(len(out) + 1), ('content-type', ct))
    if b or rng.random() < .7: out.insert(rng.randrange(len(out) + 1), ('content-length', str(bl)))
    T.nh = len(out)
    lines = [sl]
    for n, v in out:
        lines.append('%s%s:%s%s%s' % (hname(rng, n), ws(rng, .05), rng.choice([' ', ' ', ' ', '', '  ', '\t']), fold(rng, v), ws(rng, .03)))
    T.raw = '\r\n'.join(lines) + '\r\n\r\n' + b
    return T

# ---- meaning ---------------------------------------------------------------
def split_q(s, sep):
    out, cur, q, esc = [], '', False, False
    for c in s:
        if esc: cur += c; esc = False; continue
        if q and c == '\\': cur += c; esc = True; continue
        if c == '"': q = not q
        if c == sep and not q: out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()]
def unq(v):
    if v is not None and len(v) > 1 and v[0] == v[-1] == '"': return ('q', re.sub(r'\\(.)', r'\1', v[1:-1], flags = re.S))
    return v
def pars(l, ci = True):
    out = {}
    for p in l:
        if not p: continue
        k, s, v = p.partition('=')
        out[k.strip().lower() if ci else k.strip()] = unq(v.strip()) if s else None
    return out
def m_uri(u):
    scheme, usr, host, port, ps, hdrs = S.split_uri(u.strip())
    up = pw = None
    if usr is not None:
        up0, s, pw = usr.partition(':')
        if not s: pw = None
        us = up0.split(';')
        usr, up = unquote(us[0], errors = 'surrogateescape'), us[1:]
    P = pars(ps)
    if 'lr' in P: P['lr'] = None
    if 'ttl' in P: P['ttl'] = int(P['ttl'])
    H = sorted((h.partition('=')[0], unquote(h.partition('=')[2])) for h in hdrs.split('&')) if hdrs else []
    return (scheme, usr, tuple(up or ()), pw, host, port, tuple(sorted(P.items(), key = str)), tuple(H))
def m_na(v):
    v = v.strip()
    if v == '*': return '*'
    name = None
    if v[0] == '"':
        m = re.match(r'"((?:[^"\\]|\\.)*)"\s*', v, re.S)
        name, rest = re.sub(r'\\(.)', r'\1', m.group(1), flags = re.S), v[m.end():]
        assert rest[0] == '<', v
    elif '<' in v and '"' not in v.split('<')[0] and ';' not in v.split('<')[0]:
        i = v.index('<')
        name, rest = ' '.join(v[:i].split()), v[i:]
    else: rest = v
    if rest[0] == '<':
        i = rest.index('>')
        u, ps = rest[1:i], rest[i + 1:].strip()
        assert ps == '' or ps[0] == ';', v
        ps = split_q(ps, ';')[1:]
    else:
        l = split_q(rest, ';')
        u, ps = l[0], l[1:]
    return (name or None, m_uri(u), tuple(sorted(pars(ps).items(), key = str)))
def m_via(v):
    l = split_q(v, ';')
    m = re.match(r'\s*(\w+)\s*/\s*([\w.]+)\s*/\s*(\S+)\s+(\S.*)\Z', l[0], re.S)
    hp = re.match(r'(\[[^\]]*\]|[^:\s]+)\s*(?::\s*(\d+))?\s*\Z', m.group(4))
    return (m.group(1), m.group(2), m.group(3), hp.group(1), int(hp.group(2)) if hp.group(2) else None, tuple(sorted(pars(l[1:]).items(), key = str)))
def m_auth(v):
    scheme, _, rest = v.strip().partition(' ')
    if scheme.lower() != 'digest': return v.strip()
    P = pars(split_q(rest, ','))
    for k in P:
        if isinstance(P[k], tuple): P[k] = P[k][1]
    if 'qop' in P: P['qop'] = tuple(x.strip() for x in P['qop'].split(','))
    return tuple(sorted(P.items(), key = str))
def m_reason(v):
    l = split_q(v, ';')
    P = pars(l[1:])
    if 'cause' in P: P['cause'] = int(P['cause'])
    return (l[0], tuple(sorted(P.items(), key = str)))
def m_warn(v):
    a = v.split(None, 2)
    return (int(a[0]), a[1], unq(a[2].strip()))
def m_plist(v):
    l = split_q(v, ';')
    return (re.sub(r'\s*/\s*', '/', l[0]), tuple(sorted(pars(l[1:]).items(), key = str)))
NA = ('from', 'to', 'contact', 'route', 'record-route', 'path', 'refer-to', 'referred-by', 'also', 'cc-diversion', 'diversion', 'p-asserted-identity')
def lst(v): return tuple(x.strip() for x in v.split(','))
def m_value(n, v):
    if n in NA: return m_na(v)
    if n == 'via': return m_via(v)
    if n in ('expires', 'max-forwards', 'rseq', 'content-length'): return int(v)
    if n in ('cseq', 'rack'): return tuple(int(x) if x.isdigit() else x for x in v.split())
    if n in ('authorization', 'proxy-authorization', 'www-authenticate', 'proxy-authenticate'): return m_auth(v)
    if n == 'reason': return m_reason(v)
    if n == 'warning': return m_warn(v)
    if n in ('replaces', 'content-type'): return m_plist(v)
    if n in ('allow', 'supported'): return lst(v)
    if n == 'cisco-guid': return tuple(int(x) for x in v.split('-'))
    return v
def read(raw):
    """(start line, [(name, value text)], content type text, body bytes) of a message, by an independent reader"""
    data = raw.encode('utf-8')
    i = data.find(b'\r\n\r\n')
    head, b = data[:i].decode(), data[i + 4:]
    head = re.sub('\r\n[ \t]+', ' ', head)
    lines = head.split('\r\n')
    hs, ct, cl = [], None, None
    for l in lines[1:]:
        n, v = l.split(':', 1)
        n, v = n.strip().lower(), v.strip(' \t')
        n = S.COMPACT.get(n, n)
        if n == 'h323-conf-id': n = 'cisco-guid'
        if n == 'content-type': ct = v
        elif n == 'content-length': cl = int(v)
        elif n in CSVOK and v != '*': hs += [(n, x) for x in S.split_commas(v)]
        else: hs.append((n, v))
    if cl is not None: assert cl == len(b), 'Content-Length %d, body of %d bytes' % (cl, len(b))
    return lines[0], hs, ct, b
def meaning(raw):
    sl, hs, ct, b = read(raw)
    if not sl.startswith('SIP/2.0 '):
        a = sl.split(' ')
        sl = (a[0], m_uri(a[1]), a[2])
    return sl, [(n, m_value(n, v)) for n, v in hs], m_plist(ct) if ct and b else None, m_body(ct, b)
def m_body(ct, b):
    if not ct or not b or not m_plist(ct)[0].lower().startswith('multipart/'): return b
    bd = dict(m_plist(ct)[1])['boundary']
    if isinstance(bd, tuple): bd = bd[1]
    t = b.decode().split('--%s' % bd)
    assert t[0] == '' and t[-1] == '--\r\n', t
    out = []
    for p in t[1:-1]:
        h, c = p[2:].split('\r\n\r\n', 1)
        hs = [l.split(':', 1) for l in h.split('\r\n')]
        hs = [(n.strip().lower(), m_plist(v.strip()) if n.strip().lower() == 'content-type' else v.strip()) for n, v in hs]
        out.append((sorted(hs, key = str), c))
    return out
