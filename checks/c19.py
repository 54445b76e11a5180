"""C19: the real UDP relay client against a scripted relay in virtual time: exactly one answer per command
Every command handed to the client is followed from its first transmission to its completion. The monitor compares the datagrams of each cookie with one another, the answer with what the relay sent under that cookie, the number of completions with one, the time a failure takes with the schedule of the retransmissions, and the client's view of the relay (online, offline, capabilities, load) with the replies that were delivered. Relay answers take at least a tenth of a millisecond (an answer in the same instant as its command is treated as an error of the clock by the code)."""
import random
import vsim, rtppworld
from vsim import Sim, Link, clock, quiet
from rtppworld import Relay, Rtp_proxy_client
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
RULE = 'seeded scripts of 5-60 commands (U, D, P, S, Q, G, I, V, as strings and command objects, with and without callbacks, callbacks that raise or send more commands) x loss 0-70% each way, duplicates, delays up to 3 s, reordering x slow, silent, late, duplicated, foreign-cookie, malformed and non-ASCII replies x relay outages and restarts x shutdown with commands pending. Distinct by fault mix and outcomes.'
N = {'quick': 2600, 'thorough': 90000}
NEED = {'answered': 15000, 'failed': 3000, 'retransmitted': 5000, 'late reply': 500, 'duplicate reply': 1500, 'foreign reply': 800, 'garbage reply': 800, 'went offline': 800, 'came online': 1500, 'offline again online': 200, 'shutdown pending': 100, 'raising callback': 500, 'commands from callback': 500, 'outage in capability queries': 80, 'heartbeats': 20000, 'load known': 250}
EPS = 1e-6
CAPS = {'20071218': 'copy_supported', '20080403': 'stat_supported', '20081224': 'tnot_supported', '20090810': 'sbind_supported', '20150617': 'wdnt_supported', '20250523': 'copy_p_supported'}

class Cmd: pass

def case(seed, R, tier):
    rng = random.Random(seed)
    sim = Sim(seed)
    try:
        with quiet(): body(rng, R, sim)
    finally: sim.close()

def body(rng, R, sim):
    lossy = rng.random() < .6
    mk = lambda: Link(loss = rng.choice([0, .05, .2, .5, .7]), dup = rng.choice([0, 0, .1, .4]), delay = rng.choice([(.0001, .002), (.005, .02), (.05, .3), (.2, 1.5)]), reorder = rng.choice([0, .1, .3]), big = 3)
    cap = dict((v, rng.random() < .6) for v in CAPS)
    relay = Relay(sim, caps = cap)
    sim.default_link = Link(delay = (.0002, .01))
    outages = []
    t = 0.
    if rng.random() < .6:
        for _ in range(rng.randint(1, 3)):
            a = t + rng.choice([rng.uniform(0, .05), rng.uniform(.5, 60), rng.uniform(60, 140)])
            b = a + rng.choice([rng.uniform(.1, 3), rng.uniform(5, 30), rng.uniform(60, 150)])
            outages.append((a, b))
            t = b
    for a, b in outages:
        sim.after(a, setattr, relay, 'up', False)
        sim.after(b, setattr, relay, 'up', True)
    bad = {'late': 0, 'dup': 0, 'foreign': 0, 'garbage': 0}
    style = rng.choice(['plain', 'plain', 'nasty'])
    def on_cmd(r, cookie, cmd):
        if style == 'plain' or rng.random() < .5: return 'default'
        rep = r.default(cmd)
        k = rng.choice(['slow', 'silent', 'late', 'dup', 'foreign', 'garbage', 'nonascii', 'empty'])
        src = pend_src[0]
        if k == 'slow': return rng.uniform(.1, 2.5), rep
        if k == 'silent': return None if rng.random() < .5 else 'default'
        if k == 'late':
            bad['late'] += 1
            return rng.uniform(9, 15), rep
        d = rng.uniform(.001, .1)
        if k == 'dup':
            bad['dup'] += 1
            for _ in range(rng.randint(1, 3)): sim.after(d + rng.random(), r.send, src, cookie, rep)
        elif k == 'foreign':
            bad['foreign'] += 1
            sim.after(d / 2, r.send, src, '%032x' % rng.getrandbits(128), rep)
        elif k == 'garbage':
            bad['garbage'] += 1
            sim.after(d / 2, sim.send, r.addr, src, rng.choice([b'\n', b'x', b'E', b'  \n', cookie.encode(), cookie.encode() + b' \n']))
        elif k == 'nonascii':
            bad['garbage'] += 1
            sim.after(d / 2, sim.send, r.addr, src, b'\xff\xfe \x80 ' + cookie.encode())
        elif k == 'empty': sim.after(d / 2, sim.send, r.addr, src, b' ')
        return d, rep
    relay.on_cmd = on_cmd
    pend_src = [None]
    kw = {}
    if rng.random() < .3: kw['no_version_check'] = True
    if rng.random() < .3: kw['bind_address'] = ('10.0.0.1', 21999)
    # the sending side of every command is followed through the public entry point
    cmds = []
    orig = Rtp_proxy_client.send_command
    pending_internal = []
    def send_command(self, command, cb = None, *params):
        c = Cmd()
        c.text = str(command)
        c.obj, c.cb, c.params, c.t, c.done, c.internal = command, cb, params, sim.now, [], getattr(cb, '__self__', None) is not None
        c.online0 = self.online
        c.n0 = len(sim.wire)
        def fin(result, *a, **k):
            c.done.append((sim.now, result))
            if a != params: c.badargs = (a, k)
            was = self.online
            c.online_at = was
            if cb is not None: return cb(result, *a, **k)
        c.badargs = None
        cmds.append(c)
        if cb is None: orig(self, command, None)
        else: orig(self, command, fin, *params)
        new = [p for p in sim.wire[c.n0:]]
        c.first = new[0] if new else None
        return
    Rtp_proxy_client.send_command = send_command
    trans = []          # online changes
    class Watch(Rtp_proxy_client):
        def __setattr__(self, n, v):
            if n == 'online' and v != self.online: trans.append((sim.now, v))
            object.__setattr__(self, n, v)
    try:
        c = Watch({'_sip_address': '10.0.0.1'}, spath = 'udp:10.9.0.1:22222', **kw)
        addr = c.worker.sim_addr
        pend_src[0] = addr
        if lossy:
            sim.links[(addr, relay.addr)] = mk()
            sim.links[(relay.addr, addr)] = mk()
        end = rng.choice([40, 150, 300])
        extra = {'raise': 0, 'more': 0}
        def submit(depth = 0):
            if c.shut_down: return
            cid, ft, tt = 'c%d' % rng.randint(1, 6), 'ft', 'tt'
            txt = rng.choice(['U %s-0 1.2.3.4 5000 %s' % (cid, ft), 'UL1.2.3.4 %s-0 1.2.3.4 5000 %s %s' % (cid, ft, tt), 'D %s-0 %s %s' % (cid, ft, tt), 'P1 %s-0 foo 0 %s %s' % (cid, ft, tt), 'S %s-0 %s %s' % (cid, ft, tt), 'Q %s-0 %s %s' % (cid, ft, tt), 'G nsess_created', 'Gv', 'I', 'Ib', 'V', 'VF 20071218'])
            cmd = txt
            if rng.random() < .2:
                cmd = Rtp_proxy_cmd(txt)
                if rng.random() < .3: cmd.nretr = rng.randint(1, 6)
            k = rng.random()
            if k < .1: c.send_command(cmd)
            elif k < .2:
                extra['raise'] += 1
                def cb(res, *a): raise KeyError('the application')
                c.send_command(cmd, cb, 'x')
            elif k < .3 and depth < 3:
                extra['more'] += 1
                c.send_command(cmd, lambda res, *a: submit(depth + 1), 1, 2)
            else: c.send_command(cmd, lambda res, *a: None, *range(rng.randint(0, 3)))
        for _ in range(rng.randint(5, 60)): sim.after(rng.choice([rng.uniform(0, end), rng.uniform(0, 5)]), submit)
        stop = None
        def shut():
            c.shutdown()
        if rng.random() < .3:
            stop = rng.uniform(1, end)
            sim.after(stop, shut)
            if rng.random() < .7: sim.after(stop - .001, submit)
        log = []        # application exceptions are not failures of the stack
        try: sim.run(end)
        except KeyError: pass
        for _ in range(20):
            if sim.rel >= end - 1e-6: break
            try: sim.run(until = sim.t0 + end)
            except KeyError: pass
        # quiet end: let what is pending finish
        horizon = sim.now + 90 
        if not c.shut_down: shut_at = sim.now + 60
        try: sim.run(60)
        except KeyError: pass
        stop_t = None
        if not c.shut_down:
            c.shutdown()
            stop_t = sim.now
        else: stop_t = sim.t0 + stop
        try: sim.run(400)
        except KeyError: pass
        judge(rng, R, sim, relay, c, cmds, trans, outages, stop_t, addr, cap, bad, extra, kw, lossy, style)
    finally:
        Rtp_proxy_client.send_command = orig

def judge(rng, R, sim, relay, c, cmds, trans, outages, stop_t, addr, cap, bad, extra, kw, lossy, style):
    T = lambda t: round(t - sim.t0, 4)
    def det(x = None):
        d = {'outages': outages, 'online': [(T(t), v) for t, v in trans], 'stopped': T(stop_t)}
        if x is not None:
            d.update({'command': x.text, 'handed over': T(x.t), 'completed': [(T(t), r) for t, r in x.done], 'sent': [T(p.t) for p in x.tx],
              'replies delivered': [(T(t), p.data.decode('latin1')) for t, p in rx.get(x.cookie, [])]})
        return d
    tx, rx = {}, {}
    for p in sim.wire:
        if p.src == addr: tx.setdefault(p.data.split(b' ', 1)[0], []).append(p)
    for t, p in sim.delivered:
        if p.dst == addr:
            w = p.data.split(None, 1)
            if len(w) == 2 and all(b < 128 for b in p.data): rx.setdefault(w[0], []).append((t, p))
    first = {}
    for x in cmds:
        x.tx, x.cookie = [], None
        R.check(x.first is not None, 'a command was never sent: %r' % x.text, 'never sent', det())
        if x.first is None: continue
        x.cookie = x.first.data.split(b' ', 1)[0]
        R.check(x.cookie not in first, 'two commands share a cookie', 'cookie', det(x))
        first[x.cookie] = x
        x.tx = tx.pop(x.cookie, [])
        R.check(x.first.data == x.cookie + b' ' + x.text.encode() , 'the command was sent as %r, not %r' % (x.first.data, x.text), 'altered', lambda: det(x))
        R.check(all(p.data == x.first.data for p in x.tx), 'a retransmission differs from the command', 'retransmission differs', lambda: det(x))
        R.check(all(p.dst == relay.addr for p in x.tx), 'a command went to another address', 'address', lambda: det(x))
    R.check(not tx, 'datagrams were sent that belong to no command: %r' % list(tx)[:3], 'stray', det())
    nfail = 0
    for x in cmds:
        if x.cookie is None: continue
        replies = rx.get(x.cookie, [])
        gone = x.t + 1e9
        lim = 10 if x.text[0] == 'I' else 1 if x.text[0] == 'G' else 3
        nretr = getattr(x.obj, 'nretr', None)
        if x.cb is not None:
            R.check(len(x.done) == 1, 'a command completed %d times' % len(x.done), 'completions %d' % min(len(x.done), 2), lambda: det(x))
            if not x.done: continue
            R.check(x.badargs is None, 'the callback was called with other arguments: %r' % (x.badargs,), 'arguments', lambda: det(x))
            t, res = x.done[0]
            shut = t >= stop_t - EPS
            if res is None:
                nfail += 1
                x.failed = t
                R.count('failed')
                early = [r for r in replies if r[0] < min(t, stop_t) - EPS]
                R.check(not early, 'a command failed although its reply had been received', 'failed although answered', lambda: det(x))
                if x.t < stop_t <= t: R.count('shutdown pending')
            else:
                R.count('answered')
                first_r = next((r for r in replies), None)
                R.check(first_r is not None and abs(first_r[0] - t) < EPS, 'a command completed at a time at which no reply with its cookie arrived first', 'not its reply', lambda: det(x))
                if first_r is not None:
                    want = first_r[1].data.split(None, 1)[1].decode().strip()
                    R.check(res == want, 'a command completed with %r, the relay answered %r' % (res, want), 'other reply', lambda: det(x))
                if len(replies) > 1: R.count('duplicate reply', len(replies) - 1)
            if res is None: R.count('late reply', len(replies))
            donet = t
        else:
            donet = replies[0][0] if replies else None
            shut = True
        # schedule of the retransmissions
        ts = [p.t for p in x.tx]
        gaps = [b - a for a, b in zip(ts, ts[1:])]
        if len(ts) > 1: R.count('retransmitted', len(ts) - 1)
        for a, b in zip(gaps, gaps[1:]):
            R.check(abs(b - 2 * a) < 1e-4 * b + 1e-5, 'the intervals between retransmissions are %r' % [round(g, 4) for g in gaps], 'backoff', lambda: det(x))
        if donet is not None:
            R.check(not ts or ts[-1] <= donet + EPS, 'a command was retransmitted after it had completed', 'retransmitted after the end', lambda: det(x))
        if x.cb is not None and x.done[0][1] is None and x.done[0][0] < stop_t - EPS:
            n, tot = len(ts), x.done[0][0] - x.t
            f = tot / (2 ** n - 1)
            if nretr is not None: R.check(n == max(nretr, 1), 'a command limited to %d transmissions was sent %d times' % (nretr, n), 'limit', lambda: det(x))
            else:
                R.check(n == 1 or tot <= lim + 1e-3, 'a command of the kind that is given up after %d s was given up after %.3f s' % (lim, tot), 'given up late', lambda: det(x))
                R.check(f * (2 ** (n + 1) - 1) > lim - 1e-3, 'a command was given up after %.3f s and %d transmissions, with time left' % (tot, n), 'given up early', lambda: det(x))
            if gaps: R.check(abs(gaps[0] - f) < 1e-3 * f + 1e-5, 'a command was given up at the wrong time', 'given up time', lambda: det(x))
    # the client's view of the relay
    for k, n in bad.items():
        if n: R.count({'late': 'late reply', 'dup': 'duplicate reply', 'foreign': 'foreign reply', 'garbage': 'garbage reply'}[k], n)
    R.count('raising callback', extra['raise'])
    R.count('commands from callback', extra['more'])
    evs = []
    for x in cmds:
        if x.cookie is None: continue
        if x.cb is not None and x.done and x.done[0][1] is None and x.done[0][0] < stop_t - EPS: evs.append((x.done[0][0], 'fail', x))
    on = bool(kw.get('no_version_check'))
    tr = [(t, v) for t, v in trans if t < stop_t]
    if kw.get('no_version_check') and tr and tr[0][1] and T(tr[0][0]) == 0: tr = tr[1:]
    for t, v in tr:
        if not v:
            R.count('went offline')
            fails = [1 for x in cmds if (x.cb is None or (x.done and x.done[0][1] is None)) and x.cookie and x.tx and x.tx[0].t < t]
            badv = [1 for x in cmds if x.text == 'V' and x.internal and x.done and x.done[0][1] != '20040107' and abs(x.done[0][0] - t) < EPS]
            R.check(fails or badv, 'the relay was taken offline and no command had failed', 'offline without a failure', det())
        else:
            R.count('came online')
            vs = [x for x in cmds if x.text == 'V' and x.internal and x.done and x.done[0][1] == '20040107' and x.done[0][0] <= t + EPS]
            R.check(vs, 'the relay was taken online before it had answered the version check', 'online unasked', det())
            cs = [x for x in cmds if x.text.startswith('VF') and getattr(x.cb, '__name__', '') == 'caps_query_done']
            lastc = {}
            for x in cs:
                if x.done and x.done[0][0] <= t + EPS: lastc[x.text.split()[1]] = x.done[0][1]
            if any(x.done and x.done[0][1] is None for x in cs): R.count('outage in capability queries')
            R.check(kw.get('no_version_check') or len(lastc) == len(CAPS) and None not in lastc.values(), 'the relay was taken online although it had not answered: %r' % lastc, 'online unanswered', det())
    if len([1 for t, v in tr if v]) > 1: R.count('offline again online')
    state = [(sim.t0, on)] + tr
    def online_at(t, before = False):
        r = on
        for tt, v in tr:
            if tt < t - EPS or (not before and tt <= t + EPS): r = v
        return r
    for t, k, x in evs:
        R.check(not online_at(t), 'the relay is still considered online after a command failed', 'online after failure', lambda: det(x))
    # while online a heartbeat is due every second, while offline a version check every minute
    pts = sorted([t for t, v in tr] + [stop_t])
    cur, start = on, sim.t0
    for t, v in tr + [(stop_t, None)]:
        if t - start > 130 and not cur:
            vs = [x.t for x in cmds if x.text == 'V' and x.internal and start - 1 <= x.t <= t]
            R.check(len(vs) >= int((t - start) / 80), 'an offline relay was asked only %d times in %.0f s' % (len(vs), t - start), 'not asked again', det())
        cur, start = v, t
    # a reachable relay comes back: last internal version check answered => online
    done_v = [x for x in cmds if x.text == 'V' and x.internal and x.done and x.done[0][1] == '20040107' and x.done[0][0] < stop_t - 10]
    if not lossy and style == 'plain':
        for x in done_v:
            if any(a - 1 < x.done[0][0] - sim.t0 < b + 5 or a - 6 < x.done[0][0] - sim.t0 < b for a, b in outages): continue
            R.check(online_at(x.done[0][0] + 4), 'the relay answered and is not considered online', 'not online', lambda: det(x))
    if tr and tr[-1][1] and not kw.get('no_version_check'):
        for v, n in CAPS.items():
            R.check(getattr(c, n) == cap[v], 'the relay %s %s, the client believes otherwise' % ('supports' if cap[v] else 'does not support', n), 'capabilities', det())
    hb = [x for x in cmds if x.text == 'Ib' and x.internal]
    good = [x for x in hb if x.done and x.done[0][1] is not None and x.done[0][0] < stop_t - EPS and online_at(x.done[0][0], True)]
    for x in good:
        t = x.done[0][0]
        if t + 1.2 < stop_t and not any(not v and t - EPS < tt < t + 1.2 for tt, v in tr):
            R.count('heartbeats')
            R.check(any(t < y.t < t + 1.2 for y in hb), 'an online relay was not asked for its state again within 1.2 s', 'heartbeat', lambda: det(x))
    last = [x for x in hb if x.done and x.done[0][0] < stop_t - EPS]
    if last and last[-1] in good and not any(x is not last[-1] and x.done[0][0] >= last[-1].done[0][0] for x in last):
        st = dict(l.split(': ') for l in last[-1].done[0][1].split('\n'))
        got = (c.sessions_created, c.active_sessions, c.active_streams, c.preceived, c.ptransmitted)
        want = tuple(int(st[k]) for k in ('sessions created', 'active sessions', 'active streams', 'packets received', 'packets transmitted'))
        R.count('load known')
        R.check(got == want, 'the load of the relay is %r, its last report said %r' % (got, want), 'load', det())
    late = [p for p in sim.wire if p.src == addr and p.t > stop_t + EPS]
    R.check(not late, 'commands were sent after the client was shut down', 'after shutdown', det())
    R.check(not c.pending_requests, '%d commands are still pending at the end' % len(c.pending_requests), 'pending', det())
    R.ev((lossy, style, len(outages), min(nfail, 5), len(tr), tuple(sorted(k for k in bad if bad[k]))), len(cmds) > 5)
    R.sample({'commands': len(cmds), 'failed': nfail, 'online': [(T(t), v) for t, v in trans], 'outages': outages})
