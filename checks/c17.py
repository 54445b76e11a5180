"""C17: every session description put on the wire to either side against an independent filter of the one it came from
Whole calls on the simulated network with a list of permitted payload types configured; each description carries its own session id, so that whatever comes out is traced to what went in."""
import random, re
import vsim, siplite as S
from siplite import response
from b2bworld import World
from rtppworld import Relay, Rtp_proxy_client
import sdpgen
from sdpgen import gen, meaning, norm
RULE = 'seeded calls (early or late offer, 183/200 with description, 0-4 re-INVITEs by either side, also with early answers) x descriptions of 0-5 sections with 25+ attribute kinds, all RTP profiles and other transports, alone, in a multi-part body, other bodies x lists of 1-8 permitted numbers and names. With and without a media relay. Distinct by list and (kind, outcome) of every description.'
N = {'quick': 4000, 'thorough': 120000}
NEED = {'descriptions': 6000, 'relayed': 3000, 'filtered': 1500, 'refused offer': 150, 'refused answer': 150, 'refused update': 120, 'by name': 300, 'multi-part': 400, 'other body': 200, 'late offer': 300, 'updates': 1000, 'early': 400, 'relay': 500}

def allowed(rng):
    l = []
    for _ in range(rng.choice([1, 2, 4, 6, 8])):
        if rng.random() < .65: l.append(str(rng.choice([0, 3, 8, 9, 18, 31, 34, 96, 97, 98, 101, 126, 127, 100])))
        else: l.append('[%s]' % rng.choice(list(sdpgen.NAMES.values()) + sdpgen.DYN))
    return l

def want(text, lst):
    """what may be sent for this description: None if nothing"""
    top, ta, sc, secs = meaning(text)
    out, cut, named = [], False, False
    for m, c, other, attrs in secs:
        f = m.split()
        if 'RTP/' not in f[2].upper():
            out.append((m, c, other, attrs)); continue
        ok = set(x for x in lst if x[0] != '[')
        for a in attrs:
            x = re.match(r'rtpmap:(\d+) (.*)$', a)
            if x and '[' + x.group(2) + ']' in lst:
                ok.add(str(int(x.group(1))))
                if x.group(1) in f[3:] and x.group(1) not in lst: named = True
        keep = [x for x in f[3:] if x in ok]
        if not keep: return None, True, named
        if len(keep) < len(f[3:]):
            cut = True
            def gone(a):
                x = re.match(r'(rtpmap|fmtp|rtcp-fb):(\d+)( |$)', a)
                return x and x.group(2) not in keep
            attrs = [a for a in attrs if not gone(a)]
        out.append((' '.join(f[:3] + keep), c, other, attrs))
    return (top, ta, sc if not secs else None, out), cut, named

def descriptions(ctype, body):
    """the session descriptions in a body, independent of how deep"""
    t = body.decode()
    ct = ctype.lower()
    if ct.startswith('application/sdp'): yield t; return
    if ct.startswith('multipart/'):
        b = re.search(r'boundary="?([^";]*)', ctype).group(1)
        for part in t.split('--' + b)[1:-1]:
            h, _, x = part.partition('\r\n\r\n')
            m = re.search(r'(?im)^content-type:\s*(.*?)\s*$', h)
            if m: yield from descriptions(m.group(1), x.encode())

class Src: pass

def case(seed, R, tier):
    rng = random.Random(seed)
    lst = allowed(rng)
    relay = rng.random() < .25
    nid = [0]
    srcs = {}
    def mk(force = None):
        """(body, content type, record)"""
        s = Src()
        nid[0] += 1
        s.id = str(77000 + nid[0])
        s.kind = force or rng.choice(['sdp'] * 8 + (['other'] if relay else ['multi', 'other']))
        if s.kind == 'other':
            s.ok, s.cut = True, False
            R.count('other body')
            return (b'DATA %d\r\n' % nid[0], rng.choice(['application/isup', 'text/plain', 'application/x-sdp']), s)
        for _ in range(rng.choice([1, 4, 4])):
            t = gen(rng, cplace = 'session')
            if len(lst) > 1 and rng.random() < .5:
                # something permitted in every section
                p = [x for x in lst if x[0] != '[']
                ls = re.split('(\r\n|\n)', t)
                for i, l in enumerate(ls):
                    if l[:2] == 'm=' and 'RTP/' in l.upper() and p: 
                        f = [x for x in l.split() if x]
                        x = rng.choice(p)
                        if x not in f[3:]: f.insert(rng.randrange(3, len(f) + 1), x)
                        ls[i] = ' '.join(f)
                t = ''.join(ls)
            t = re.sub(r'(?m)^(o=\S+) \S+', r'\1 ' + s.id, t)
            if relay: t = re.sub(r'(?m)^s=[^\r\n]*', 's=' + s.id, t, count = 1)
            s.want, s.cut, named = want(t, lst)
            if s.want is not None: break
        if named: R.count('by name')
        s.text, s.ok = t, s.want is not None
        srcs[s.id] = s
        R.count('descriptions')
        if s.kind == 'multi':
            R.count('multi-part')
            b = rng.choice(['bnd', 'b-x.1', 'a' * 40])
            parts = ['Content-Type: application/sdp\r\n\r\n' + t, 'Content-Type: application/isup; version=x\r\n\r\nISUP%d\r\n' % nid[0]]
            if rng.random() < .5: parts.reverse()
            return ((''.join('--%s\r\n%s' % (b, p if p.endswith('\r\n') else p + '\r\n') for p in parts) + '--%s--\r\n' % b).encode(), 'multipart/mixed;boundary=%s' % b, s)
        return t.encode(), 'application/sdp', s
    w = World(seed, auth = False, acct = False, route = '10.0.2.1', opts = [('allowed_pts', rng.choice([',', ', ']).join(lst))])
    try:
        if relay:
            R.count('relay')
            Relay(w.sim)
            client = Rtp_proxy_client(w.gc, spath = 'udp:10.9.0.1:22222')
            w.gc['_rtp_proxy_clients'] = [client]
            w.run(2)
            assert client.online
        body(rng, R, w, lst, mk, srcs, relay)
    finally: w.close()

def formats(m):
    """what the relay has no business with: the formats and what is said about them"""
    top, ta, sc, secs = m
    return [(s[0].split()[0], s[0].split()[2:], [a for a in s[3] if re.match('(rtpmap|fmtp|rtcp-fb|ptime|maxptime)(:|$)', a)]) for s in secs]

def body(rng, R, w, lst, mk, srcs, relay):
    A, B = w.peer('10.0.1.1'), w.peer('10.0.2.1')
    sig = []
    late = rng.random() < .15
    if late: R.count('late offer')
    off = mk() if not late else (b'', None, None)
    early = mk() if rng.random() < .3 and not late else None
    ans = mk(force = 'sdp' if late else None)
    st = dict(bleg = None, refused = False)
    def on_invite(leg, m):
        st['bleg'] = leg
        leg.on_request = on_request
        w.sim.after(.1, lambda: leg.provisional(183, early[0], ctype = early[1]) if early else leg.provisional(180))
        w.sim.after(.5, lambda: leg.answer(ans[0], ctype = ans[1]) if leg.itx.final is None else None)
        if early: R.count('early')
    B.on_invite = on_invite
    rep = {}
    def on_request(leg, stx):
        m = stx.req
        if m.method != 'INVITE' or leg.state != 'est': return False
        leg.app.setdefault('itxs', [leg.itx] if leg.role == 'uas' else []).append(stx)
        b = rep['ans']
        if rep['early']:
            e = rep['early']
            stx.reply(response(m, 183, None, leg.ltag, [('contact', '<%s>' % leg.contact_uri), ('content-type', e[1])], e[0]))
        w.sim.after(.1, lambda: stx.reply(response(m, 200, None, leg.ltag, [('contact', '<%s>' % leg.contact_uri), ('content-type', b[1])], b[0])))
        return True
    leg = A.call(w.addr, '1000', 'alice', off[0] or None, ctype = off[1])
    leg.on_request = on_request
    ack = mk(force = 'sdp') if late else None
    if late: leg.app['ack_body'] = ack[0]
    w.run(6)
    got = lambda p, f, s: [e for e in p.log if e[1] == 'in' and f(e[2]) and s is not None and any(s.id in t for t in descriptions(e[2].h('content-type') or '', e[2].body))]
    det = lambda: dict(permitted = lst, caller = [(round(h[0] - w.sim.t0, 3),) + h[1:] for h in leg.hist], callee = [(round(h[0] - w.sim.t0, 3),) + h[1:] for h in st['bleg'].hist] if st['bleg'] else None)
    final = leg.final
    up = False
    if off[2] is not None and not off[2].ok:
        R.count('refused offer'); sig.append('ro')
        R.check(final == 488, 'offer without permitted formats: caller got %s' % final, 'offer not refused', det)
        R.check(st['bleg'] is None, 'a refused offer reached the callee', 'refused offer relayed', det)
    elif R.check(st['bleg'] is not None, 'the call did not reach the callee; caller got %s' % final, 'not relayed', det):
        bad = [x for x in (early, ans) if x and not x[2].ok]
        if bad:
            R.count('refused answer'); sig.append('ra')
            R.check(final is not None and final >= 300, 'answer without permitted formats: caller got %s' % final, 'answer not refused', det)
            R.check(st['bleg'].state in ('ended', 'failed'), 'answer without permitted formats: the callee is left in state %s' % st['bleg'].state, 'callee left', det)
        elif late and not ack[2].ok: sig.append('rk')
        else:
            up = R.check(final == 200, 'caller got %s' % final, 'call failed', det)
    if up:
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            R.count('updates')
            x, y = (leg, st['bleg']) if rng.random() < .5 else (st['bleg'], leg)
            n = mk(force = rng.choice([None, 'sdp', 'sdp']))
            rep['ans'] = mk(force = rng.choice([None, 'sdp', 'sdp']))
            rep['early'] = mk('sdp') if rng.random() < .2 else None
            res = []
            before = len([h for h in y.hist if h[1] == 'rx' and h[2] == 'INVITE'])
            x.reinvite(n[0], ctype = n[1], cb = lambda l, resp, tx: res.append(resp.code if resp is not None else None))
            w.run(3)
            seen = len([h for h in y.hist if h[1] == 'rx' and h[2] == 'INVITE']) - before
            if not n[2].ok:
                R.count('refused update'); sig.append('ru')
                R.check(res == [488], 'update without permitted formats answered %s' % res, 'update not refused', det)
                R.check(seen == 0, 'a refused update reached the other side', 'refused update relayed', det)
                R.check(leg.state == 'est' and st['bleg'].state == 'est', 'a refused update ended the call', 'refused update ends', det)
                continue
            R.check(seen == 1, 'the update reached the other side %d times (answer %s)' % (seen, res), 'update not relayed', det)
            if not rep['ans'][2].ok:
                sig.append('rb')
                R.check(res and res[0] is not None and res[0] >= 300, 'an update answered without permitted formats got %s' % res, 'update answer', det)
                break
            sig.append('u')
            R.check(res == [200], 'update answered %s' % res, 'update answer', det)
    # everything that came out
    for p in (A, B):
        for t, dir, m, src, at, _ in p.log:
            if dir != 'in' or not m.body: continue
            for d in descriptions(m.h('content-type') or '', m.body):
                i = re.search(r'(?m)^s=(77\d+)' if relay else r'(?m)^o=\S+ (\d+)', d)
                s = srcs.get(i.group(1)) if i else None
                if not R.check(s is not None, 'a description nobody sent: %r' % d, 'unknown', det): continue
                D = lambda: det() | dict(given = s.text, sent = d)
                if not R.check(s.ok, 'a description without permitted formats was relayed', 'refused relayed', D): continue
                R.count('relayed')
                if s.cut: R.count('filtered')
                if relay: R.check(formats(meaning(d)) == formats(s.want), 'relayed description has formats %s instead of %s' % (formats(meaning(d)), formats(s.want)), 'content', D)
                else: R.check(meaning(d) == s.want, 'relayed description differs from the permitted part: %s' % diff(meaning(d), s.want), 'content', D)
    if 'ro' in sig:
        w.run(80)
        sz = w.sizes()
        R.check(sz.get('ccmap', 0) == 0 and sz.get('req_consumers', 0) == 0, 'left behind by a refused offer: %s' % sz, 'left behind', det)
    R.ev((tuple(sorted(lst)), tuple(sig), tuple((s.kind, s.ok, s.cut) for s in srcs.values())))

def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, list) and len(x) == len(y):
                for p, q in zip(x, y):
                    if p != q: return '%r, expected %r' % (p, q)
            return '%r, expected %r' % (x, y)
