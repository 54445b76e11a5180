"""C16: independent reader of session descriptions compared with every emission of the real model, over parse/copy/edit histories
Well-formed session descriptions go through the real parser alone, in a message body and in a multi-part body; every emission must read as what came in, copies must be equal then and unaffected by later changes, and removing formats must remove exactly them and their attributes."""
import random, re
import vsim
from sdpgen import gen, meaning
from sippy.SdpBody import SdpBody
from sippy.MsgBody import MsgBody
from sippy.SipContentType import SipContentType
from sippy.Exceptions.SdpParseError import SdpParseError
RULE = 'seeded session descriptions (0-5 media sections, connection lines at every place, repeated lines, 20+ attribute kinds, odd text) x emission kind x edit history; distinct by (sections, connection placement, line kinds, history).'
N = {'quick': 50000, 'thorough': 3000000}
NEED = {'descriptions': 10000, 'emissions': 40000, 'copies': 10000, 'edits': 10000, 'removals': 5000, 'multipart': 2000, 'incomplete': 300}
LA = (('192.0.2.9', 5099), 'udp')
def ctype(t):
    c = SipContentType(t); c.parse(); return c
def show(w, g):
    for a, b, n in zip(w, g, ('session lines', 'session attributes', 'session connection', 'media')):
        if a != b:
            if n == 'media' and len(a) == len(b):
                for i, (x, y) in enumerate(zip(a, b)):
                    for p, q, k in zip(x, y, ('m=', 'connection', 'lines', 'attributes')):
                        if p != q: return 'media %d %s: came %r, went %r' % (i, k, p, q)
            return '%s: came %r, went %r' % (n, a, b)
def same(R, want, text, what, src):
    R.count('emissions')
    try: got = meaning(text)
    except Exception as e:
        R.fail('%s: emitted something unreadable: %r' % (what, e), 'unreadable', dict(came = src, went = text)); return
    d = show(want, got)
    R.check(d is None, '%s: %s' % (what, d), 'meaning', dict(came = src, went = text))
def edit(rng, b, want):
    """change the description through its model; returns what it must read as then"""
    top, ta, sc, secs = [list(x) if isinstance(x, list) else x for x in want]
    secs = [[s[0], s[1], list(s[2]), list(s[3])] for s in secs]
    k = rng.randrange(11)
    if k == 0:
        b.addHeader('a', 'mut:1'); ta.append('mut:1')
    elif k == 1 and secs:
        i = rng.randrange(len(secs)); b.sections[i].addHeader('a', 'mut'); secs[i][3].append('mut')
    elif k == 2 and secs:
        i = rng.randrange(len(secs)); b.sections[i].c_header.addr = '203.0.113.9'
        a = secs[i][1].split(); a[2] = '203.0.113.9'; secs[i][1] = ' '.join(a)
    elif k == 3 and secs:
        i = rng.randrange(len(secs)); b.sections[i].m_header.port = 4242
        a = secs[i][0].split(); a[1] = '4242' + a[1].lstrip('0123456789'); secs[i][0] = ' '.join(a)
    elif k == 4 and secs and b.sections[-1].a_headers:
        b.sections[-1].a_headers.pop(0); secs[-1][3].pop(0)
    elif k == 5:
        b += 'a=mut:2\r\n'
        (secs[-1][3] if secs else ta).append('mut:2')
    elif k == 6:
        b.o_header.version = 77
        for i, (n, v) in enumerate(top):
            if n == 'o': a = v.split(); a[2] = '77'; top[i] = (n, ' '.join(a))
    elif k == 7 and secs:
        i = rng.randrange(len(secs)); b.sections[i].insertHeader(0, 'a', 'first'); secs[i][3].insert(0, 'first')
    elif k == 8:
        # the value of an attribute, in place
        l = rng.choice([(b.a_headers, ta)] + [(x.a_headers, y[3]) for x, y in zip(b.sections, secs)])
        i = [i for i, h in enumerate(l[0]) if h.value is not None]
        if i and len(l[0]) == len(l[1]):
            i = rng.choice(i); l[0][i].value = '7 changed'; l[1][i] = l[1][i].split(':', 1)[0] + ':7 changed'
    elif k == 9 and secs:
        # the list of formats, in place
        i = rng.randrange(len(secs)); f = b.sections[i].m_header.formats
        if len(f) > 1:
            f.reverse(); a = secs[i][0].split(); a[3:] = a[:2:-1]; secs[i][0] = ' '.join(a)
    elif k == 10:
        b.o_header.address = '203.0.113.77'
        for i, (n, v) in enumerate(top):
            if n == 'o': a = v.split(); a[5] = '203.0.113.77'; top[i] = (n, ' '.join(a))
    return top, ta, sc, [tuple(s) for s in secs]
def case(seed, R, tier):
    rng = random.Random(seed)
    src = gen(rng)
    if rng.random() < .03:
        # one connection line missing
        at = [m.span() for m in re.finditer(r'(?m)^c=.*\n?', src)]
        if at: a, b = rng.choice(at); src = src[:a] + src[b:]
    want = meaning(src)
    R.count('descriptions')
    hist = []
    if any(s[1] is None for s in want[3]):
        R.count('incomplete')
        try:
            SdpBody(src)
            R.fail('a media section without any connection line was accepted', 'incomplete', src)
        except SdpParseError: pass
        except Exception as e: R.fail('a media section without any connection line: %r' % e, 'incomplete', src)
        return
    how = rng.choice(['alone', 'body', 'multi'])
    try:
        if how == 'alone': b = SdpBody(src)
        elif how == 'body':
            mb = MsgBody(src, ctype('application/sdp'))
            if rng.random() < .5:
                R.check(str(mb) == src and mb.localStr(LA) == src, 'a body not looked into was emitted differently', 'raw', src)
                R.check(str(mb.getCopy()) == src, 'copy of a body not looked into differs', 'raw', src)
            mb.parse(); b = mb.content
            cp = mb.getCopy(); R.check(str(cp) == str(mb) and cp.mtype.name == mb.mtype.name, 'copy of a body differs', 'copy', src)
        else:
            R.count('multipart')
            raw = '--b42\r\nContent-Type: application/sdp\r\n\r\n%s\r\n--b42\r\nContent-Type: text/plain\r\n\r\nhello\r\n--b42--\r\n' % src
            mb = MsgBody(raw, ctype('multipart/mixed;boundary=b42'))
            R.check(str(mb.getCopy()) == raw, 'copy of a body not looked into differs', 'raw', raw)
            mb.parse(); mb2 = mb.getCopy()
            part = mb.content.parts[0]
            same(R, want, re.search(r'sdp\r\n\r\n(.*)\r\n--b42\r\nContent-Type: text', str(mb), re.S).group(1), 'unread part', src)
            part.parse(); b = part.content
            same(R, want, re.search(r'sdp\r\n\r\n(.*)--b42\r\nContent-Type: text', str(mb), re.S).group(1), 'part', src)
            R.check(str(mb).endswith('--b42\r\nContent-Type: text/plain\r\n\r\nhello\r\n--b42--\r\n'), 'the other part changed', 'multi', str(mb))
            R.check(str(mb2) == raw, 'reading a part changed a copy of the whole', 'alias', str(mb2))
    except Exception as e:
        R.fail('a well-formed session description was refused (%s): %r' % (how, e), 'refused', src); return
    same(R, want, str(b), 'plain emission', src)
    same(R, want, b.localStr(None), 'local emission', src)
    same(R, want, b.localStr(LA), 'addressed emission', src)
    s1 = str(b)
    R.check(str(SdpBody(s1)) == s1, 'emission is not a fixed point', 'fixed', dict(came = s1, went = str(SdpBody(s1))))
    others = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        a = rng.choice(['copy', 'edit', 'edit', 'remove', 'reparse'])
        hist.append(a)
        if a == 'copy':
            c = b.getCopy()
            R.count('copies')
            R.check(str(c) == str(b) and c.localStr(LA) == b.localStr(LA), 'copy differs', 'copy', dict(orig = str(b), copy = str(c)))
            R.check(len(c.sections) == len(b.sections) and all(x.m_header.formats == y.m_header.formats and x.m_header.type is y.m_header.type and x.m_header.port == y.m_header.port for x, y in zip(b.sections, c.sections)), 'copy differs', 'copy', str(b))
            if rng.random() < .5: b, c = c, b
            others.append((c, str(c)))
        elif a == 'edit':
            R.count('edits')
            want = edit(rng, b, want)
        elif a == 'reparse': b = SdpBody(str(b))
        elif a == 'remove' and b.sections:
            i = rng.randrange(len(b.sections))
            m = b.sections[i].m_header
            nums = [f for f in m.formats if isinstance(f, int)]
            if m.stype.lower() not in ('audio', 'video') or not nums: continue
            R.count('removals')
            gone = rng.sample(nums, rng.randrange(1, len(nums) + 1))
            m.formats = [f for f in m.formats if f not in gone]
            b.sections[i].optimize_a()
            s = want[3][i]
            f = s[0].split()
            f[3:] = [x for x in f[3:] if not (x.isdigit() and int(x) in gone)]
            def dead(x):
                g = re.match(r'(rtpmap|fmtp|rtcp-fb):(\d+)(\s|\Z)', x)
                return g and int(g.group(2)) not in [int(y) for y in f[3:] if y.isdigit()]
            want = (want[0], want[1], want[2], want[3][:i] + [(' '.join(f), s[1], s[2], [x for x in s[3] if not dead(x)])] + want[3][i + 1:])
        for c, t in others:
            R.check(str(c) == t, 'changing a description (%s) changed a copy of it' % a, 'alias', dict(before = t, after = str(c)))
        same(R, want, rng.choice([str, lambda x: x.localStr(None), lambda x: x.localStr(LA)])(b), 'after ' + '+'.join(hist), src)
    R.ev((how, len(want[3]), len(set(s[1] for s in want[3])), tuple(sorted(set(n for n, _ in want[0]))), tuple(hist[:3])))
