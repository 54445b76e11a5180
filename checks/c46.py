"""C46: prompts, recordings, copies and statistics of media sessions against a scripted relay: every command followed from the call that asked for it to its one answer
The real session objects and the real UDP relay client on the simulated network. Every request is matched with the commands that left for the relay, and its callback with the relay's answers."""
import random, re
import vsim, rtppworld
import siplite as S
from vsim import Sim, Link, quiet
from rtppworld import Relay, Rtp_proxy_client
from sippy.MsgBody import MsgBody
from sippy.Rtp_proxy.session import Rtp_proxy_session
RULE = 'seeded scripts of 3-25 requests (session descriptions of either side with 1-3 streams, play, stop, copy, record by name or not, statistics, version) on 1-3 sessions sharing a relay x requests in bursts or apart x slow, failing and missing answers x requests without callback x deletion with requests outstanding. Distinct by script.'
N = {'quick': 2500, 'thorough': 60000}
NEED = {'requests': 20000, 'played': 1500, 'stopped': 1000, 'copied': 1500, 'recorded': 1500, 'both sides recorded': 500, 'statistics': 1200, 'no stream yet': 1000, 'stream made first': 1500, 'stream could not be made': 100, 'error answers': 1500, 'no answer': 150, 'no callback': 2000, 'queued': 5000, 'deleted with work outstanding': 250, 'deleted': 2000}

class Cmd: pass
class Op: pass

def sdp(ip, ports, fmts):
    return 'v=0\r\no=- 1 1 IN IP4 %s\r\ns=-\r\nc=IN IP4 %s\r\nt=0 0\r\n' % (ip, ip) + ''.join('m=%s %d RTP/AVP %s\r\n' % (k, p, fmts[i]) for i, (k, p) in enumerate(zip(('audio', 'video', 'audio'), ports)))

def case(seed, R, tier):
    rng = random.Random(seed)
    sim = Sim(seed)
    try:
        with quiet(): body(rng, R, sim)
    finally: sim.close()

def body(rng, R, sim):
    sim.default_link = Link(delay = (.0002, .004))
    relay = Relay(sim, caps = dict((v, rng.random() < .6) for v in ('20071218', '20080403', '20081224', '20090810', '20150617', '20250523')))
    style = rng.choice(['plain', 'plain', 'slow', 'errors', 'errors', 'silent'])
    def on_cmd(r, cookie, cmd):
        rep = r.default(cmd)
        k = cmd[0]
        if k in 'VIG': return 'default'
        if k == 'Q': rep = ' '.join(str(rng.randrange(1000)) for _ in range(5))
        elif k in 'PSCR': rep = rng.choice(['0', '0', '1'])
        d = rng.uniform(.0005, .01)
        if style != 'plain' and rng.random() < .5: d = rng.uniform(.05, .8)
        if style == 'errors' and rng.random() < .3 and k != 'D': rep = 'E%d' % rng.randrange(1, 90)
        if style == 'silent' and rng.random() < .12: return None
        return d, rep
    relay.on_cmd = on_cmd
    cmds = []
    orig = Rtp_proxy_client.send_command
    def send_command(self, command, cb = None, *params):
        c = Cmd()
        c.text, c.t, c.end, c.result = str(command).strip(), sim.now, None, None
        def fin(result, *a, **k):
            c.end, c.result = sim.now, result
            c.n = len(cmds)
            if cb is not None: return cb(result, *a, **k)
        cmds.append(c)
        orig(self, command, fin, *params)
    Rtp_proxy_client.send_command = send_command
    try:
        rc = Rtp_proxy_client({'_sip_address': '10.0.0.1'}, spath = 'udp:10.9.0.1:22222')
        sim.run(5)
        if not R.check(rc.online, 'the relay is not online', 'online'): return
        del cmds[:]
        script(rng, R, sim, rc, relay, cmds)
    finally:
        Rtp_proxy_client.send_command = orig
        try: rc.shutdown()
        except Exception: pass

def script(rng, R, sim, rc, relay, cmds):
    gc = {'_rtp_proxy_clients': (rc,)}
    ss = [Rtp_proxy_session(gc, call_id = 'cid%d-%d' % (rng.randrange(10 ** 6), i), from_tag = 'ft%d' % rng.randrange(10 ** 6), to_tag = 'tt%d' % rng.randrange(10 ** 6)) for i in range(rng.choice([1, 1, 2, 3]))]
    info = {s: dict(cid = s.call_id, ft = s.from_tag, tt = s.to_tag) for s in ss}
    ops, uniq = [], [20000]
    streams = {s: rng.choice([1, 1, 2, 3]) for s in ss}
    fmts = {}
    tags = lambda s, side: (info[s]['ft'], info[s]['tt']) if side == 'caller' else (info[s]['tt'], info[s]['ft'])
    def exists(s, side):
        return any(c.end is not None and re.match(r'U\S* %s-\d+ \S+ \d+ %s( |$)' % (info[s]['cid'], tags(s, side)[0]), c.text) for c in cmds)
    def issue(s):
        if info[s].get('del') is not None: return
        o = Op()
        uniq[0] += 2
        o.s, o.t, o.u, o.got, o.loose = s, sim.now, uniq[0], [], False
        o.side = rng.choice(['caller', 'callee'])
        o.other = 'callee' if o.side == 'caller' else 'caller'
        o.index = rng.choice([0, 0, rng.randrange(streams[s])])
        k = o.kind = rng.choice(['sdp'] * 4 + ['play', 'play', 'stop', 'stop', 'copy', 'copy', 'rec', 'rec', 'recn', 'recn', 'stats', 'stats', 'version'])
        if k == 'play' and (s, o.side) not in fmts: k = o.kind = 'sdp'          # nothing is known of what that side can hear
        o.cb = (lambda *a, **kw: o.got.append((sim.now, a, kw))) if rng.random() < .8 or k in ('sdp', 'stats', 'version') else None
        o.nocb = o.cb is None
        if o.nocb: R.count('no callback')
        kw = {} if o.nocb else {'result_callback': o.cb}
        if o.index or rng.random() < .3: kw['index'] = o.index
        o.mine, o.theirs = exists(s, o.side), exists(s, o.other)
        o.busy = any(c.end is None and info[s]['cid'] in c.text for c in cmds)
        if o.busy: R.count('queued')
        R.count('requests')
        ops.append(o)
        f, t = tags(s, o.side)
        o.id = '%s-%d' % (info[s]['cid'], o.index)
        o.pre, o.want = None, []
        if k == 'sdp':
            n = o.n = streams[s]
            ports = [uniq[0] + 1000 * i for i in range(n)]
            uniq[0] += 10000 if uniq[0] < 22000 else 2
            ff = [' '.join(str(x) for x in rng.sample([0, 3, 8, 18, 101, 96], rng.choice([1, 2, 4]))) for _ in range(n)]
            fmts[s, o.side] = ff[0].replace(' ', ',')
            ip = '10.3.%d.%d' % (rng.randrange(250), rng.randrange(1, 250))
            o.want = [r'U\S* %s-%d %s %d %s( %s)?' % (re.escape(info[s]['cid']), i, re.escape(ip), p, f, t) for i, p in enumerate(ports)]
            getattr(s, 'on_%s_sdp_change' % o.side)(MsgBody(sdp(ip, ports, ff)), o.cb)
            return
        if k == 'play':
            times, name = rng.choice([1, 1, -1, 3]), 'prompt_%d' % o.u
            if o.mine:
                if not o.theirs: o.pre = (o.other, o.index)
                o.want = ['P%d %s %s %s %s %s' % (times, o.id, name, fmts[s, o.side] if not o.pre else r'[0-9,]+', f, t)]
            getattr(s, 'play_' + o.side)(name, times, **kw)
        elif k == 'stop':
            if o.mine: o.want = ['S %s %s %s' % (o.id, f, t)]
            getattr(s, 'stop_play_' + o.side)(**kw)
        elif k == 'copy':
            ip = '10.4.4.%d' % rng.randrange(1, 250)
            o.want = ['C %s udp:%s:%d %s %s' % (o.id, ip, o.u, f, t)]
            if not o.mine: o.pre = (o.side, o.index)
            getattr(s, 'copy_' + o.side)(ip, o.u, **kw)
        elif k in ('rec', 'recn'):
            fl = rng.choice([None, None, '', 's', 'b'])
            if k == 'rec' and rng.random() < .85: fl = 's%d' % o.u          # tells this one from the others
            elif k == 'rec': o.loose = True
            if fl is not None: kw['rflags'] = fl
            f, t = tags(s, 'caller')
            if k == 'rec': o.want = ['R%s %s %s %s' % (fl or '', o.id, f, t)]
            else:
                o.want = ['C%s %s rec_%d.a %s %s' % (fl or '', o.id, o.u, f, t), 'C%s %s rec_%d.o %s %s' % (fl or '', o.id, o.u, t, f)]
                kw['rname'] = 'rec_%d' % o.u
                if rng.random() < .4: kw['only_a'] = True; o.want.pop()
            if not (o.mine if o.side == 'caller' else o.theirs): o.pre = ('caller', o.index)
            s.start_recording(**kw)
        elif k == 'stats':
            o.params = rng.choice([(), (5,), ('a', 7)])
            f, t = info[s]['ft'], info[s]['tt']
            o.want = ['Q %s %s %s' % (o.id, f, t)]
            s.stats(o.cb, o.index, *o.params)
        else: s.version(o.cb)
    t, at = 0, []
    for _ in range(rng.randint(3, 25)):
        if rng.random() < .5: t += rng.choice([rng.uniform(0, .02), rng.uniform(.1, 2), 4])
        at.append(t)
        sim.after(t + .01, issue, rng.choice(ss))
    def delete(s):
        info[s]['del'] = sim.now
        info[s]['ndel'] = len(cmds)
        if any(c.end is None and info[s]['cid'] in c.text for c in cmds): R.count('deleted with work outstanding')
        R.count('deleted')
        s.delete()
    for s in ss:
        sim.after(rng.choice([rng.choice(at) + rng.uniform(.0101, .02), t + 20, t + 100, t + 100, t + 100]), delete, s)
    sim.run(t + 220)
    dump = lambda: dict(requests = [(round(o.t - sim.t0, 3), o.kind, info[o.s]['cid'], o.side, o.index, 'stream first' if o.pre else '', o.want, [(round(g[0] - sim.t0, 3), g[1], str(g[2])) for g in o.got]) for o in ops], commands = [(round(c.t - sim.t0, 3), c.text, c.end and round(c.end - sim.t0, 3), c.result) for c in cmds if c.text[0] not in 'VI'], deleted = [(info[s]['cid'], round(info[s]['del'] - sim.t0, 3)) for s in ss])
    used = set()
    for s in ss:
        mine = [c for c in cmds if ' %s-' % info[s]['cid'] in c.text]
        seq = [c for c in mine if c.text[0] != 'Q']
        for a, b in zip(seq, seq[1:]): R.check(a.end is not None and a.end <= b.t + 1e-9, '%r was sent before %r was answered' % (b.text, a.text), 'overlap', dump)
        implicit = {}
        for c in seq:
            m = re.match(r'U\S* %s-(\d+) 0\.0\.0\.0 0 (\S+)(.*)$' % re.escape(info[s]['cid']), c.text)
            if m: implicit.setdefault((int(m.group(1)), m.group(2)), []).append(c)
        top = -1
        gone = info[s]['del']
        firsts = []
        for o in [o for o in ops if o.s is s]:
            ended = None
            def find(w, after):
                r = [c for c in mine if id(c) not in used and re.fullmatch((w if o.kind in ('sdp', 'play') else re.escape(w)) + (r'( \S+ \S+)?' if o.kind == 'sdp' else ''), c.text) and c.t >= after - 1e-9]
                return r[0] if r else None
            after, failed = o.t, False
            if o.pre:
                R.count('stream made first')
                q = implicit.get((o.pre[1], tags(s, o.pre[0])[0]), [])
                if not R.check(bool(q), '%s: the stream of the %s was not set up first' % (o.kind, o.pre[0]), 'stream not made', dump): continue
                c = q.pop(0)
                used.add(id(c))
                if not o.loose: firsts.append(c)
                top = max(top, o.pre[1])
                after = c.end
                res = c.result
                failed = res is None or not re.match(r'[1-9]', res)
                if failed: R.count('stream could not be made')
                if res is None: R.count('no answer')
            last = None
            todo = [] if failed else o.want
            for i, w in enumerate(todo):
                c = find(w, after if o.kind != 'sdp' else o.t)
                if c is None and gone <= (after or 0) and (o.pre or i) and o.kind != 'sdp': todo = None; break      # deleted before the next step
                if not R.check(c is not None, '%s by %s, stream %d: no command %r' % (o.kind, o.side, o.index, w), 'no command', dump): todo = None; break
                used.add(id(c))
                if i == 0 and not o.pre and not o.loose and o.kind != 'stats': firsts.append(c)
                if o.kind == 'sdp': top = max(top, i)
                last = c
                after = c.end
                if c.result is None: R.count('no answer')
                elif c.result[:1] == 'E': R.count('error answers')
                if c.result is None and o.kind == 'recn': break
            if todo is None: continue
            if o.nocb: continue
            if not todo:
                if failed and gone <= after: continue
                if not o.pre and o.kind != 'version': R.count('no stream yet')
            if not R.check(len(o.got) == 1, '%s by %s: %d answers' % (o.kind, o.side, len(o.got)), 'answers', dump): continue
            g = o.got[0]
            if o.kind == 'sdp' or o.loose: continue
            if o.kind == 'version': R.check(g[1] in (('20040107',), (None,)), 'version: %s' % (g[1],), 'version', dump); continue
            if o.kind == 'stats':
                R.count('statistics')
                r = last.result.split() if last.result else []
                want = ((tuple(int(x) for x in r) if len(r) == 5 else None),) + o.params
                R.check(g[1] == want, 'statistics: the relay said %r, reported %s' % (last.result, g[1]), 'statistics', dump)
                continue
            R.count(dict(play = 'played', stop = 'stopped', copy = 'copied', rec = 'recorded', recn = 'recorded')[o.kind])
            if o.kind == 'recn' and len(o.want) == 2 and last is not None and last.text.split()[2].endswith('.o'): R.count('both sides recorded')
            R.check(g[1] == ((last.result if last is not None else None),), '%s: the relay said %r, reported %s' % (o.kind, last and last.result, g[1]), 'answer', dump)
            if last is not None: R.check(abs(g[0] - last.end) < 1e-6, '%s: answered at another time than the relay' % o.kind, 'answer late', dump)
        for a, b in zip(firsts, firsts[1:]): R.check(cmds.index(a) < cmds.index(b), '%r was asked for before %r and sent after it' % (a.text, b.text), 'order', dump)
        # the end: every stream that was made is deleted, once
        ds = [c for c in mine if c.text[0] == 'D']
        want = set('D %s-%d %s %s' % (info[s]['cid'], i, info[s]['ft'], info[s]['tt']) for i in range(top + 1))
        R.check(set(c.text for c in ds) == want and len(ds) == len(want) and all(c.t >= gone - 1e-9 for c in ds), 'deleted %s, the streams were %s' % ([c.text for c in ds], sorted(want)), 'deletion', dump)
        used.update(id(c) for c in ds)
        for c in mine: R.check(id(c) in used, 'nobody asked for %r' % c.text, 'unasked', dump)
    R.sample(dict(requests = len(ops), kinds = [o.kind for o in ops][:8], commands = [c.text for c in cmds if c.text[0] not in 'VI'][:6]))
    R.ev(tuple((o.kind, o.side, o.index, ss.index(o.s), bool(o.pre), o.nocb, o.busy) for o in ops), len(ops) > 2)
