"""C40: real relay clients, real worker threads and a relay stand-in that cuts, delays, resets and restarts
The client submits commands over local stream sockets, TCP (IPv4 and IPv6) and the in-process socket, with 1 to 4 workers under random thread delays, to a relay stand-in that answers in pieces, in several lines, at length, closes or resets the connection before, inside or after an answer, and goes down and comes back. Offline checker over both ends' logs: every command arrived whole and in order with one worker, every callback ran once on the loop's thread with the answer to its own command, and with none only if the relay was away."""
import random, os, socket, struct, threading, time, sys, types, tempfile, shutil
import stress
from stress import Jitter, ED2
rtpio = types.ModuleType('rtp.io')
class _fake:
    """stand-in for the in-process relay, which is not installed: only its socket"""
    nxt = None
    def __init__(self, **kw): self.rtpp_sock, self.kw = _fake.nxt, kw
rtpio.rtpproxy = _fake
sys.modules['rtp'] = types.ModuleType('rtp')
sys.modules['rtp.io'] = rtpio
from sippy.Rtp_proxy.Client.stream import Rtp_proxy_client_stream
from sippy.Rtp_proxy.Client.internal import Rtp_proxy_client_internal
from sippy.Rtp_proxy.client import Rtp_proxy_client, CAPSTABLE
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
RULE = 'seeded: local/TCP/TCP6/in-process socket x bare client or the whole client with version checks and heartbeats x 1-4 workers x 10-60 commands of up to 200 kB as text or objects from 1-3 threads x answers whole, in pieces, long, of many lines, empty x closing or resetting before, inside and after an answer x up to 3 relay outages x callbacks that fail or are absent x shutting down with commands pending. Distinct by the interleaving seen at the delays and the relay log.'
N = {'quick': 1600, 'thorough': 16000}
NEED = {'commands': 20000, 'answers': 20000, 'no answer': 300, 'pieces': 3000, 'long answers': 1500, 'many lines': 1000, 'closed before': 1500, 'closed inside': 800, 'closed after': 1500, 'outages': 500, 'failed callbacks': 800, 'no callback': 500, 'objects': 2000, 'long commands': 300, 'shutdown pending': 80, 'internal': 100, 'whole client': 150, 'came back': 60, 'given up': 50, 'delays': 20000}
CONFIRM = True
CPU = 120
BUDGET = {'quick': 300, 'thorough': 800}
class Weird(BaseException): pass

def worker_init():
    c = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {c[os.getpid() % len(c)]})

class Relay:
    def __init__(self, rng, R, fam, addr, p):
        self.rng, self.R, self.fam, self.addr, self.p = rng, R, fam, addr, p
        self.lock = threading.Lock()
        self.log, self.faults, self.conns, self.answers = [], {}, set(), {}
        self.calm = False
        self.ls = None
        self.downs = []      # [from, to]
        self.stats = [0] * 5
    def start(self):
        ls = socket.socket(self.fam, socket.SOCK_STREAM)
        if self.fam != socket.AF_UNIX: ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        ls.bind(self.addr)
        ls.listen(50)
        if self.fam != socket.AF_UNIX: self.addr = ls.getsockname()[:2]
        self.ls = ls
        self.thr = threading.Thread(target = self.accept, args = (ls,), daemon = True)
        self.thr.start()
        if self.downs and self.downs[-1][1] is None: self.downs[-1][1] = time.monotonic()
    def stop(self):
        self.downs.append([time.monotonic(), None])
        ls, self.ls = self.ls, None
        try: ls.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        ls.close()
        self.thr.join()
        if self.fam == socket.AF_UNIX: os.unlink(self.addr)
        with self.lock: cs = list(self.conns); self.conns = set()
        for c in cs:
            try: c.shutdown(socket.SHUT_RDWR)
            except OSError: pass
    def accept(self, ls):
        while True:
            try: c, a = ls.accept()
            except OSError: return
            if self.ls is not ls: c.close(); return
            with self.lock: self.conns.add(c)
            threading.Thread(target = self.serve, args = (c,), daemon = True).start()
    def serve(self, c):
        try:
            buf = b''
            while True:
                d = c.recv(self.rng.choice([100, 4096, 70000]))
                if not d: break
                buf += d
                while b'\n' in buf:
                    l, buf = buf.split(b'\n', 1)
                    if not self.one(c, l): return
        except OSError: pass
        finally:
            with self.lock: self.conns.discard(c)
            c.close()
    def reset(self, c):
        if self.rng.random() < .5 and self.fam != socket.AF_UNIX: c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    def one(self, c, l):
        rng, R = self.rng, self.R
        cmd = l.decode(errors = 'replace')
        with self.lock: self.log.append(cmd)
        out = self.answer(cmd)
        p = 0 if self.calm else self.p
        n = self.faults.get(cmd, 0)
        if ' doom' in cmd: R.count('closed before'); return False
        x = rng.random()
        if rng.random() < .3: time.sleep(rng.random() * .002)
        if n < 4 and x < p:
            self.faults[cmd] = n + 1
            R.count('closed before')
            self.reset(c)
            return False
        if n < 4 and x < p * 1.5 and len(out) > 1 and out.count(b'\n') == 1:
            self.faults[cmd] = n + 1
            R.count('closed inside')
            c.sendall(out[:rng.randrange(1, len(out))])
            if rng.random() < .5: time.sleep(rng.random() * .002)
            self.reset(c)
            return False
        if x < p * 2.5 + .1 and out.count(b'\n') == 1 and len(out) > 2:
            R.count('pieces')
            i = 0
            while i < len(out):
                k = rng.randrange(1, len(out) - i + 1)
                c.sendall(out[i:i + k]); i += k
                time.sleep(rng.random() * .002)
        else: c.sendall(out)
        if rng.random() < p * 1.5: R.count('closed after'); return False
        return True
    def answer(self, cmd):
        if cmd == 'V': return b'20040107\n'
        if cmd.startswith('VF '): return b'1\n' if int(cmd[3:]) % 2 else b'0\n'
        if cmd == 'Ib':
            self.stats = [self.rng.randrange(10 ** 6) for i in range(5)]
            return b'sessions created: %d\nactive sessions: %d\nactive streams: %d\npackets received: %d\npackets transmitted: %d\n' % tuple(self.stats)
        with self.lock:
            if cmd not in self.answers: self.answers[cmd] = self.make(cmd)
            return self.answers[cmd]
    def make(self, cmd):
        x, rng, R = self.rng.random(), self.rng, self.R
        tag = b'%08x' % rng.getrandbits(32)
        if cmd.startswith('I'):
            R.count('many lines')
            return b''.join(b'%s %d: %s\n' % (tag, i, b'x' * rng.randrange(40)) for i in range(rng.choice([2, 5, 60])))
        if x < .05: return b'\n'
        if x < .2:
            R.count('long answers')
            return tag + b'y' * rng.choice([1010, 1014, 1015, 1016, 1017, 2039, 2040, 5000, 60000]) + b'\n'
        if x < .6: return b'%d 127.0.0.1 %s\n' % (rng.randrange(1024, 65536), tag)
        return tag + b'\n'

def case(seed, R, tier):
    rng = random.Random(seed)
    ends = []
    try:
        with stress.noisy():
            with Jitter(('Rtp_proxy/Client/stream.py', 'Rtp_proxy/Client/internal.py', 'Rtp_proxy/Client/Worker/external.py', 'Rtp_proxy/Client/Worker/internal.py', 'Rtp_proxy/client.py', 'Core/EventDispatcher.py'), seed, rng.choice([0, .01, .05, .2]), rng.choice([.0003, .002])) as j:
                log = body(R, rng, ends)
            R.ev(hash((j.sig, tuple(log or ()))), True)
            R.count('delays', j.hits)
    finally:
        for e in reversed(ends): e()

def body(R, rng, ends):
    me = threading.get_ident()
    d = tempfile.mkdtemp(prefix = 'c40')
    ends.append(lambda: shutil.rmtree(d, ignore_errors = True))
    kind = rng.choice(['unix', 'unix', 'tcp', 'tcp', 'tcp6', 'internal'])
    p = os.getpid()
    host = '127.%d.%d.1' % (p >> 8 & 255, p & 255)
    fam, addr = {'unix': (socket.AF_UNIX, d + '/s'), 'tcp': (socket.AF_INET, (host, 0)), 'tcp6': (socket.AF_INET6, ('::1', 0)), 'internal': (socket.AF_UNIX, None)}[kind]
    rel = Relay(random.Random(rng.random()), R, fam, addr, rng.choice([0, .03, .1, .25]) if kind != 'internal' else 0)
    nw = rng.choice([1, 1, 2, 4])
    whole = rng.random() < .25
    gc = {'_sip_address': '127.0.0.1'}
    if kind == 'internal':
        R.count('internal')
        a, b = socket.socketpair()
        _fake.nxt = a
        ends.append(a.close)
        t = threading.Thread(target = rel.serve, args = (b,), daemon = True); t.start()
        nw = 1
        rc = Rtp_proxy_client(gc, spath = 'rtp.io:') if whole else Rtp_proxy_client_internal(gc)
    else:
        rel.start()
        ends.append(lambda: rel.ls and rel.stop())
        if kind == 'unix': sp, ad = rng.choice(['unix:', 'cunix:', '']) + addr, addr
        elif kind == 'tcp': sp, ad = 'tcp:%s:%d' % rel.addr, rel.addr
        else: sp, ad = 'tcp6:[%s]:%d' % rel.addr, ('[%s]' % rel.addr[0], rel.addr[1])
        if whole: rc = Rtp_proxy_client(gc, spath = sp, nworkers = nw)
        else: rc = Rtp_proxy_client_stream(gc, address = ad, nworkers = nw, family = fam)
    if whole:
        R.count('whole client')
        rc.hrtb_ival, rc.hrtb_retr_ival = .02, .05
    shut = []
    def kill():
        if kind == 'internal':
            try: b.shutdown(socket.SHUT_RDWR)
            except OSError: pass
        elif rel.ls: rel.stop()
    def shutdown():
        # a command waiting for ever would hold it for ever
        w = threading.Timer(8, kill)
        w.start()
        ws = rc.workers
        rc.shutdown()
        w.cancel()
        shut.extend(ws)
        return ws
    def fin():
        if not shut: kill(); rc.shutdown()
        for t in shut or []: t.join(5)
    ends.append(fin)
    det = lambda: dict(kind = kind, workers = nw, whole = whole, downs = rel.downs, log = [x[:100] for x in rel.log[-60:]], outstanding = [c['cmd'][:100] for c in cmds if c['cb'] and not c['got']][:10])
    cmds = []
    lock = threading.Lock()
    def submit(t, n, r):
        x = r.random()
        ident = '%d_%d_%x' % (t, n, r.getrandbits(30))
        if x < .1: cmd = 'I' + ident
        elif x < .4: cmd = 'UL10.0.0.1c0,8 %s 10.1.1.1 5000 ft%s' % (ident, ident)
        elif x < .5: cmd = 'D %s ft tt' % ident
        elif x < .55: cmd = 'P %s /x/%s session ft' % (ident, 'z' * r.choice([1000, 9000, 70000, 200000])); R.count('long commands')
        elif x < .57 and kind != 'internal': cmd = 'D %s doom x' % ident
        elif x < .65: cmd = 'G nsess_%s total' % ident
        else: cmd = 'Q %s ft tt' % ident
        c = dict(cmd = cmd, t = t, n = n, got = [], cb = r.random() < .93, boom = r.random() < .08, at = time.monotonic())
        args = tuple(r.choice([None, 5, 'x', ident, cmds]) for i in range(r.choice([0, 0, 1, 3])))
        def cb(data, *a, ex = None):
            c['got'].append((data, a, ex, threading.get_ident(), time.monotonic()))
            with lock: done.append(c)
            if c['boom']:
                R.count('failed callbacks')
                raise r.choice([ValueError('callback'), Weird('callback'), KeyError(2)])
        c['args'] = args
        y = r.random()
        sub = cmd
        if y < .25: sub = Rtp_proxy_cmd(cmd); R.count('objects')
        elif y < .4: sub = cmd + '\n'
        with lock:
            cmds.append(c)
            if c['cb']: rc.send_command(sub, cb, *args)
            else: R.count('no callback'); rc.send_command(sub)
        R.count('commands')
    done = []
    if whole:
        if not R.check(stress.loop(lambda: rc.online, 8), 'the client did not find the relay in 8 s', 'online', det): return rel.log
        R.check(all(getattr(rc, a) == bool(int(v) % 2) for v, a in CAPSTABLE.items()), 'wrong capabilities', 'caps', det)
    per = rng.choice([10, 25, 60])
    stop = []
    def thread(t, s):
        r = random.Random(s)
        for n in range(per):
            submit(t, n, r)
            if r.random() < .4: time.sleep(r.random() * .004)
    ts = [threading.Thread(target = thread, args = (i, rng.random()), daemon = True) for i in range(rng.choice([1, 1, 3]))]
    nout = rng.choice([0, 0, 1, 3]) if kind != 'internal' else 0
    r2 = random.Random(rng.random())
    def outages():
        for i in range(nout):
            time.sleep(r2.random() * .03)
            R.count('outages')
            rel.stop()
            time.sleep(r2.choice([.001, .005, .03]) if not whole else r2.choice([.005, .3]))
            rel.start()
    to = threading.Thread(target = outages, daemon = True)
    for t in ts + [to]: t.start()
    early = rng.random() < .12
    fin_ = lambda: all(not t.is_alive() for t in ts + [to])
    if early:
        stress.loop(fin_, 10)
        for n in range(20): submit(9, n, r2)
        if any(c['cb'] and not c['got'] for c in cmds): R.count('shutdown pending')
        ws = shutdown()
        stress.loop(lambda: all(c['got'] for c in cmds if c['cb']), 3)
    else:
        if not R.check(stress.loop(lambda: fin_() and all(c['got'] for c in cmds if c['cb']), 8), 'no callback', 'once', det): return rel.log
        if whole:
            if not R.check(stress.loop(lambda: rc.online, 8), 'the client did not find the relay again in 8 s', 'online', det): return rel.log
            if nout: R.count('came back')
            rel.calm = True
            n0 = rel.log.count('Ib')
            R.check(stress.loop(lambda: rel.log.count('Ib') > n0 + 2, 5), 'an online relay is not watched', 'heartbeat', det)
            st = rel.stats
            R.check(stress.loop(lambda: [rc.sessions_created, rc.active_sessions, rc.active_streams, rc.preceived, rc.ptransmitted] in (st, rel.stats), 5), 'the relay says %s, the client has %s' % (rel.stats, [rc.sessions_created, rc.active_sessions, rc.active_streams, rc.preceived, rc.ptransmitted]), 'stats', det)
            if kind != 'internal' and rng.random() < .5:
                rel.stop()
                R.check(stress.loop(lambda: not rc.online, 5), 'the relay is gone, the client still takes it for usable', 'offline', det)
                if rng.random() < .5:
                    rel.start()
                    R.check(stress.loop(lambda: rc.online, 5), 'the relay is back, the client does not use it', 'online', det)
        rel.calm = True
        ws = shutdown()
        stress.loop(lambda: all(c['got'] for c in cmds if c['cb']), 3)
    for w in ws: w.join(5)
    R.check(not any(w.is_alive() for w in ws), 'a worker outlives the client', 'shutdown', det)
    stress.loop(lambda: False, .01)
    known = {c['cmd'] for c in cmds}
    for l in rel.log:
        if not R.check(l in known or l in ('V', 'Ib') or l.startswith('VF '), 'the relay got %r, which nobody sent' % l[:200], 'modified', det): return rel.log
    first = {}
    for i, l in enumerate(rel.log): first.setdefault(l, i)
    gone = lambda a, b: any(x <= b and (y is None or y >= a) for x, y in rel.downs)
    for c in cmds:
        end = c['got'][0][4] if c['got'] else time.monotonic()
        ok = not gone(c['at'], end)
        if ok and not R.check(c['cmd'] in first, 'the command %r never reached the relay' % c['cmd'][:100], 'lost', det): return rel.log
        if not c['cb']: continue
        if not R.check(len(c['got']) == 1, 'the callback for %r ran %d times' % (c['cmd'][:100], len(c['got'])), 'once', det): return rel.log
        data, a, ex, ident, at = c['got'][0]
        R.check(ident == me, 'a callback on another thread', 'thread', det)
        R.check(a == c['args'], 'callback arguments %s instead of %s' % (a, c['args']), 'args', det)
        want = rel.answers.get(c['cmd'], b'').decode().strip()
        if data is None:
            R.count('no answer')
            if ' doom' in c['cmd']: R.count('given up'); continue
            R.check(want == '' and c['cmd'] in first or not ok, 'no answer for %r although the relay was there: %r' % (c['cmd'][:100], ex), 'no answer', det)
            R.check(want == '' or ex is not None or kind == 'internal', 'no answer and no reason for it', 'reason', det)
        else:
            R.count('answers')
            if not R.check(data == want and want, 'the answer to %r is %d bytes %r, the callback got %d bytes %r' % (c['cmd'][:100], len(want), want[:100], len(data), data[:100]), 'answer', det): return rel.log
            R.check(ex is None, 'an answer and an error', 'reason', det)
    if nw == 1:
        order = [first[c['cmd']] for c in cmds if c['cmd'] in first]
        R.check(order == sorted(order), 'commands arrived in another order', 'order', det)
        R.check([id(c) for c in done] == [id(c) for c in cmds if c['got']], 'callbacks ran in another order', 'order', det)
    return rel.log
