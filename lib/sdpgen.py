"""Well-formed session descriptions and an independent reading of them."""
import re, string
def w(rng, n = 8): return ''.join(rng.choice(string.ascii_letters + string.digits) for _ in range(rng.randrange(1, n + 1)))
def text(rng):
    return ''.join(rng.choice(string.ascii_letters + ' =:;,/@"<>%') if rng.random() < .9 else rng.choice(['é', '中', '\u2028', '\x0b', '\x1c', '\x85']) for _ in range(rng.randrange(1, 20))).strip() or '-'
ADDR4 = ['10.0.0.1', '192.0.2.7', '0.0.0.0', 'media.example.com', '224.2.1.1/127']
ADDR6 = ['::1', '2001:db8::1', '::', 'ff15::101/3']
def conn(rng):
    return 'IN IP4 ' + rng.choice(ADDR4) if rng.random() < .8 else 'IN IP6 ' + rng.choice(ADDR6)
NAMES = {0: 'PCMU/8000', 3: 'GSM/8000', 8: 'PCMA/8000', 9: 'G722/8000', 18: 'G729/8000', 31: 'H261/90000', 34: 'H263/90000'}
DYN = ['telephone-event/8000', 'opus/48000/2', 'iLBC/8000', 'H264/90000', 'VP8/90000', 'AMR/8000']
def attr(rng):
    return rng.choice(['sendrecv', 'sendonly', 'recvonly', 'inactive', 'ptime:20', 'maxptime:150', 'rtcp:%d IN IP4 10.0.0.1' % rng.randrange(1, 65535), 'setup:actpass', 'mid:%s' % w(rng), 'ice-ufrag:%s' % w(rng),
        'candidate:1 1 UDP 2130706431 10.0.1.1 8998 typ host', 'crypto:1 AES_CM_128_HMAC_SHA1_80 inline:%s|2^20' % w(rng, 30), 'fingerprint:sha-256 AA:BB:CC', 'rtcp-mux', 'ssrc:%d cname:%s' % (rng.randrange(1 << 32), w(rng)),
        'extmap:1 urn:ietf:x', 'X-%s' % w(rng), 'x-%s:%s' % (w(rng), text(rng)), 'rtcp-fb:* nack', 'lang:en', 'x:', 'fmtp:x y', 'rtpmap:'])
def media(rng, c, lines):
    st = rng.choice(['audio'] * 5 + ['video'] * 3 + ['image', 'message', 'application', 'Audio'])
    port = rng.choice([0, 9, 1024, 65534, rng.randrange(1024, 65000)])
    if st.lower() in ('audio', 'video'):
        tr = rng.choice(['RTP/AVP'] * 4 + ['RTP/SAVP', 'RTP/AVPF', 'UDP/TLS/RTP/SAVPF', 'rtp/avp'])
        fs = rng.sample([0, 3, 8, 9, 18, 31, 34, 96, 97, 98, 101, 126, 127, 100], rng.randrange(1, 7))
        sf = [str(f) for f in fs]
        if rng.random() < .03: tr, fs, sf = 'TCP/MRCPv2', [], ['*']
    else:
        fs = []
        tr, sf = {'image': ('udptl', ['t38']), 'message': ('TCP/MSRP', ['*']), 'application': rng.choice([('UDP/DTLS/SCTP', ['webrtc-datachannel']), ('TCP/BFCP', ['*', 'x'])])}[st]
    sp = lambda: ' ' if rng.random() < .95 else '  '
    lines.append('m=%s%s%d%s%s%s%s%s' % (st, sp(), port, '/%d' % rng.randrange(1, 5) if rng.random() < .04 else '', sp(), tr, sp(), ' '.join(sf)))
    if rng.random() < .1: lines.append('i=' + text(rng))
    if c: lines.append('c=' + conn(rng))
    for _ in range(rng.choice([0, 0, 0, 1, 2])): lines.append('b=%s:%d' % (rng.choice(['AS', 'TIAS', 'RS', 'RR', 'X-' + w(rng, 3)]), rng.randrange(1 << 20)))
    if rng.random() < .05: lines.append('k=clear:' + w(rng))
    at = []
    for f in fs:
        if rng.random() < .75: at.append('rtpmap:%d %s' % (f, NAMES.get(f) or rng.choice(DYN)))
        if rng.random() < .3: at.append('fmtp:%d %s' % (f, rng.choice(['0-15', 'mode=20', 'annexb=no', 'a=1;b=2; c="x"'])))
        if rng.random() < .1: at.append('rtcp-fb:%d nack pli' % f)
    for _ in range(rng.choice([0, 1, 2, 4])): at.append(attr(rng))
    if rng.random() < .3: rng.shuffle(at)
    lines += ['a=' + a for a in at]
def gen(rng, nm = None, cplace = None):
    L = ['v=0', 'o=%s %s %s IN %s' % (rng.choice(['-', 'user', w(rng)]), rng.choice(['0', str(rng.randrange(1 << 62)), '2890844526']), rng.randrange(1 << 62), rng.choice(['IP4 10.0.0.1', 'IP4 host.example', 'IP6 ::1']))]
    L.append('s=' + rng.choice(['-', ' ', text(rng)]))
    if rng.random() < .1: L.append('i=' + text(rng))
    if rng.random() < .1: L.append('u=http://example.com/a?b=c')
    for _ in range(rng.choice([0] * 8 + [1, 2])): L.append('e=j.doe@example.com (Jane Doe)' + w(rng))
    for _ in range(rng.choice([0] * 8 + [1, 2])): L.append('p=+1 617 555-60%d' % rng.randrange(100))
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 5]) if nm is None else nm
    place = cplace or rng.choice(['session', 'session', 'media', 'both', 'some'])
    c = conn(rng)
    if place != 'media': L.append('c=' + c)
    for _ in range(rng.choice([0] * 5 + [1, 2])): L.append('b=%s:%d' % (rng.choice(['AS', 'CT', 'TIAS']), rng.randrange(9999)))
    for i in range(rng.choice([1] * 6 + [2, 3])):
        L.append('t=%d %d' % (rng.choice([0, 2873397496 + i]), rng.choice([0, 2873404696 + i])))
        for _ in range(rng.choice([0] * 8 + [1, 2])): L.append('r=7d 1h 0 25h %d' % rng.randrange(99))
    if rng.random() < .05: L.append('z=2882844526 -1h 2898848070 0')
    if rng.random() < .05: L.append('k=prompt')
    for _ in range(rng.choice([0, 0, 1, 3])): L.append('a=' + rng.choice(['recvonly', 'sendrecv', 'group:BUNDLE 0 1', 'tool:x y', 'ice-lite', 'msid-semantic: WMS *', attr(rng)]))
    same = conn(rng)
    for i in range(n):
        lines = []
        media(rng, None, lines)
        if place == 'media' or place == 'both' or (place == 'some' and rng.random() < .5):
            cc = same if rng.random() < .6 else (c if rng.random() < .3 else conn(rng))
            k = 2 if len(lines) > 1 and lines[1].startswith('i=') else 1
            lines.insert(k, 'c=' + cc)
        L += lines
    eol = rng.choice(['\r\n'] * 6 + ['\n'])
    t = eol.join(L) + (eol if rng.random() < .95 else '')
    return t
def norm(n, v):
    """collapse the blanks of lines made of fields"""
    if n in 'omc': return ' '.join(v.split())
    return v
def meaning(t):
    """(session lines but c and a in order, session attributes in order, [(m, c in effect, other lines in order, attributes in order)])"""
    ls = [x for x in re.split('\r\n|\n', t) if x]
    top, ta, sc, secs = [], [], None, []
    for l in ls:
        n, v = l[0], l[2:]
        assert l[1] == '=', l
        v = norm(n, v)
        if n == 'm': secs.append([v, None, [], []]); continue
        if not secs:
            if n == 'c': sc = v
            elif n == 'a': ta.append(v)
            else: top.append((n, v))
        else:
            s = secs[-1]
            if n == 'c': s[1] = v
            elif n == 'a': s[3].append(v)
            else: s[2].append((n, v))
    return top, ta, (sc if not secs else None), [(s[0], s[1] or sc, s[2], s[3]) for s in secs]
