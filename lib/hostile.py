"""Malformed traffic: datagrams broken on purpose, with what was broken known by construction."""
import siplite as S
import sipgen

# headers a request cannot be answered without
ESS = ('via', 'from', 'to', 'call-id', 'cseq')
ODD = ['', ' ', ',', ';', ':', '<', '>', '"', '"unclosed', '<sip:', '<sip:>', 'sip:', 'sip:@', '@', '<>', '<sip:a@b', 'a@b>', '"x <sip:a@b>', '=', ';;;', ',,,', '\\', '"\\"', '%', '%zz', '%00', '\x00', '\x7f\x01',
       '\u00b2', '\u0660\u0661', '\ufffd', 'null', 'None', '-1', '0', '00', '-99999999999999999999', '99999999999999999999', '1e5', '0x10', '1 2 3', 'abc', 'A' * 3000, '(' * 200, '<' * 200, '"' * 201, '[', '[::', '[::1', ']', 'sip:[::1', 'sip:h:port', 'sip:h:', 'sip:h:999999', 'sip::5060',
       'sip:u@h?x', 'sip:u@h?x=%', 'tel:', 'tel:+1', 'http://x/', 'sips:a@b', 'SIP/2.0', 'SIP/2.0/UDP', 'SIP/2.0/UDP ;branch=x', 'SIP/3.0/UDP h', 'multipart/mixed', 'multipart/mixed;boundary=', 'multipart/mixed;boundary="', 'application/', '/', 'application/sdp;charset="',
       'Digest', 'Digest ', 'Digest ,', 'Digest username', 'Digest username=', 'Digest username="', 'Digest username="x",realm', 'Basic', 'Digest realm="a",nonce="b",username="c",uri="d",response="e",qop=zz,nc=q,cnonce=', '*', '*;q=1', 'lr', '\u2028', '\x85', '\u0130', 'x\ty', '; ;', 'a;b;c;=;d=', 'Q.850', 'SIP;cause=', 'SIP;cause=abc;text="', '1 INVITE 2']
NAMES = {'contact': .18, 'max-forwards': .06, 'expires': .06, 'content-length': .08, 'content-type': .08, 'authorization': .08, 'record-route': .06, 'route': .05, 'reason': .03, 'diversion': .02, 'p-asserted-identity': .02, 'replaces': .03, 'also': .02, 'refer-to': .02,
         'supported': .02, 'allow': .02, 'cisco-guid': .03, 'rack': .02, 'rseq': .02, 'warning': .02, 'path': .02, 'proxy-authorization': .03, 'user-agent': .02, 'remote-party-id': .01, 'h323-conf-id': .02, 'x-any': .02, 'referred-by': .02, 'cc-diversion': .02, 'www-authenticate': .02, 'event': .01, 'server': .01}
SDPODD = ['c=', 'c=IN', 'c=IN IP4', 'c=IN IP9 x', 'm=', 'm=audio', 'm=audio abc RTP/AVP 0', 'm=audio 0', 'm=audio -1 RTP/AVP 0', 'm=audio 70000 RTP/AVP 0', 'm=audio 5000 RTP/AVP', 'm=audio 5000 RTP/AVP x y', 'm=audio 5000/x RTP/AVP 0', 'o=', 'o=x', 'o=- a b IN IP4 h', 'o=- 1 1 IN IP4', 'v=', 'v=abc', 't=', 't=x', 's', '=', 'a', 'a=', 'a=rtpmap:', 'a=rtpmap:abc', 'a=candidate:', 'a=fmtp',
          'zz', 'z=\x00', 'c=IN IP4 \u00e9', 'm=audio 5000 UDP/XYZ 0', 'a=ice-ufrag', 'a=setup:', 'a=fingerprint:', 'b=', 'b=AS', 'k=', 'i=', 'r=', 'e=', 'p=', 'u=', 'm=' + 'audio ' * 100]

def odd(rng, cur = ''):
    k = rng.random()
    if k < .65: return rng.choice(ODD)
    if k < .8 and cur:
        i = rng.randrange(len(cur))
        return cur[:i]
    if k < .9 and cur:
        l = list(cur)
        for _ in range(rng.choice([1, 1, 2, 5])): l[rng.randrange(len(l))] = rng.choice('\x00\t ;,<>@"=:?%[]\\\u00e9a0')
        return ''.join(l).replace('\r', '').replace('\n', '')
    return ''.join(rng.choice(';,<>@"=:?%[]()/\\ sip.ab01') for _ in range(rng.randrange(1, 30)))

def sdpodd(rng, b):
    """an SDP body with something wrong in it"""
    ls = b.decode('utf-8', 'surrogateescape').split('\r\n')[:-1]
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.random()
        i = rng.randrange(len(ls)) if ls else 0
        if k < .2 and ls: del ls[i]
        elif k < .6: ls.insert(i, rng.choice(SDPODD))
        elif k < .8 and ls: ls[i] = rng.choice(SDPODD)
        elif k < .9 and ls: ls[i] = ls[i][:2] + odd(rng, ls[i][2:])
        elif ls: ls.insert(i, ls[rng.randrange(len(ls))])
    return '\r\n'.join(ls + ['']).encode('utf-8', 'surrogateescape')

def wr(v):
    return v.encode('utf-8', 'surrogateescape') if isinstance(v, str) else v

class H:
    """one hostile datagram: cls 'ok' (only what is not essential is broken), 'bad' (an essential header is), 'junk' (anything); what was done"""
    __slots__ = ('data', 'cls', 'what', 'msg', 'mark', 'short', 'cut', 'tx')
    def __repr__(self): return '<%s %s %r>' % (self.cls, self.what, self.data[:2000])

def emit(rng, m, clen = True):
    eol = b'\r\n'
    sl = ('%s %s SIP/2.0' % (m.method, m.uri) if m.code is None else 'SIP/2.0 %d %s' % (m.code, m.reason))
    out = [wr(sl)]
    for n, v in m.headers: out.append(wr(S._canon(n)) + b': ' + wr(v))
    if clen and m.h('content-length') is None: out.append(b'Content-Length: %d' % len(m.body))
    return eol.join(out) + eol + eol + m.body

def spoil(rng, m, want = None):
    """break a message; (bytes, class, what)"""
    m = m.copy()
    m.rem('content-length')
    k = rng.random()
    cls = want or ('ok' if k < .5 else 'bad' if k < .8 else 'junk')
    what = []
    if cls == 'ok':
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.random()
            if k < .12 and m.body:
                m.body = sdpodd(rng, m.body); what.append('sdp')
            elif k < .2:
                m.body = rng.choice([b'', b'\x00\xff\xfe' if rng.random() < .3 else b'xx', b'v=0', b'--b\r\n\r\n', b'A' * rng.choice([10, 5000])])
                what.append('body')
            elif k < .28 and m.body:
                n = len(m.body) + rng.choice([20, 100, 10**6, 10**12])
                m.set('content-length', str(n)); what.append('short')
            elif k < .3:
                m.set('content-length', rng.choice(['abc', '-5', '-1', '1 2', '0x10', '1e3', '--', '5;x', '', '12,', '"7"'])); what.append('clen')
            elif k < .33:
                for _ in range(rng.choice([2, 30, 400])): m.headers.append(('x-many', 'v'))
                what.append('many')
            else:
                n = rng.choices(list(NAMES), list(NAMES.values()))[0]
                cur = m.h(n, '')
                j = rng.random()
                v = odd(rng, cur)
                if n == 'contact' and rng.random() < .15: v = '*'
                if j < .15: m.rem(n)
                elif j < .8: m.set(n, v)
                else: m.add(n, v)
                what.append('%s=%s' % (n, v[:40]) if j >= .15 else 'no ' + n)
        if m.code is None and rng.random() < .05:
            m.uri = rng.choice(['sip:', 'tel:+1555', 'sip:h', 'sip:@', 'sip:u@', 'sip:[::1]', 'sip:u@h:x', 'urn:x', '*', 'sip:%@h', 'sip:u;p@h', 'sips:u@h']); what.append('uri')
        d = emit(rng, m)
        try: d.decode()
        except UnicodeDecodeError: cls = 'junk'
        if m.uri is not None and 'uri' in what : cls = 'junk'
        # (another Content-Length or a body line of its own may make anything of the rest)
        return d, cls, what
    if cls == 'bad':
        k = rng.random()
        n = rng.choice(ESS)
        if m.code is not None and rng.random() < .4:
            # an answer with a status there is none of
            d = emit(rng, m)
            st = rng.choice([0, 1, 9, 10, 18, 20, 99, 99, 1000, 1180, 2000, 65716])
            what.append('status')
            return (b'SIP/2.0 %d Any' % st) + d[d.index(b'\r\n'):], 'bad', what
        if k < .45: m.rem(n); what.append('no ' + n)
        elif k < .75:
            bad = {'cseq': ['', 'INVITE', 'abc INVITE', '-', '1', 'x y z', ',', '"1" INVITE'], 'via': ['', ' ', ';branch=z9hG4bKx', ';'], 'call-id': None, 'from': ['', ';tag=1', '<', '<sip:', '"x', '<sip:a@b'], 'to': ['', '<', '<sip:', '"x', '<sip:a@b']}[n]
            if bad is None: m.rem(n)
            else: m.set(n, rng.choice(bad))
            what.append('broken ' + n)
        else:
            d = emit(rng, m)
            i = d.index(b'\r\n')
            sl = rng.choice([b'', b'INVITE', b'INVITE sip:x', b'sip:x SIP/2.0', b'INVITE  ', b'\x00' * 20, b'GET / HTTP/1.1 x', b'SIP/2.0', b'SIP/2.0 ', b'SIP/2.0 abc def', b'SIP/2.0 99999 x', b'SIP/2.0 99 Low', b'SIP/2.0 10 Low', b'SIP/2.0 0 Zero', b'SIP/2.0 1000 High', b'SIP/2.0 -1 x', b'INVITE sip:a@b SIP/2.0 SIP/2.0'])
            what.append('start line')
            return sl + d[i:], 'bad', what
        return emit(rng, m), 'bad', what
    d = bytearray(emit(rng, m))
    k = rng.random()
    if k < .3:
        for _ in range(rng.choice([1, 2, 10, 60])): d[rng.randrange(len(d))] = rng.randrange(256)
        what.append('bytes')
    elif k < .55:
        d = d[:rng.randrange(len(d))]; what.append('cut')
    elif k < .65:
        i = rng.randrange(len(d)); d[i:i] = bytes(rng.choice([b'\r\n', b'\r\n\r\n', b'\n', b'\r', b'\x00', b'\xff', b'\xc3', b'\r\n ', b':']))
        what.append('insert')
    elif k < .75:
        ls = bytes(d).split(b'\r\n'); rng.shuffle(ls); d = b'\r\n'.join(ls); what.append('shuffle')
    elif k < .82: d = bytes(d).replace(b'\r\n', rng.choice([b'\n', b'\r', b'\n\r', b'\r\r\n'])); what.append('eol')
    elif k < .9:
        d = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 600))); what.append('random')
    elif k < .94:
        d = rng.choice([b'\x00' * 60, b'\r\n' * 40, b' ' * 70, b':' * 100, b'SIP/2.0 ' * 9, b'INVITE ' * 9, b'\r\n\r\n' + bytes(d), b'SIP/2.0 200 OK\r\n' + b'Via: x\r\n' * 1000, b'A: b\r\n' * 3000, b'"' * 9000]); what.append('const')
    else:
        d = wr(sipgen.gen(rng).raw); what.append('legal')
    return bytes(d), 'junk', what
