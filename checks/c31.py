"""C31: operators on real sockets and threads, and operators on calls in progress on the simulated network
Three monitored workloads. Transport: several connections (local and TCP) send command lines in arbitrary pieces to the real command server, half-close, vanish, reset or stop reading, under random thread delays and injected accept errors; the log of executions and answers is compared with what was sent. Calls: commands are given at random moments of whole calls and the listing, the answer and the wire at that moment are compared with the calls' own record. Media timeouts: the same with calls through a relay."""
import random, os, socket, struct, threading, time, tempfile, shutil, re, urllib.parse, errno, fcntl
import vsim, scen, stress, siplite as S, rtppworld
from vsim import Link, Internal
from scen import EPS
from stress import Jitter, ED2
from b2bworld import World, B2BSimpleAPI
from rtppworld import Relay, Rtp_proxy_client
from sippy.CLIManager import CLIConnectionManager
RULE = 'seeded: 1-6 connections x 1-30 lines (commands of every kind, blanks, rubbish, non-ASCII, up to 5000 bytes) x pieces of 1 byte to all at once x endings (half-close, close, reset, quit, stuck) x failing handlers x accept errors x refused addresses; scenarios of 2-6 concurrent calls x 3-12 commands at random moments; 2-4 calls through a relay x media timeouts by number and stream. Distinct by interleaving, command answers and call states.'
N = {'quick': 2400, 'thorough': 24000}
NEED = {'lines': 15000, 'answers': 10000, 'half-closed': 1000, 'reset': 300, 'closed': 300, 'quit': 300, 'stuck': 150, 'handler failed': 300, 'accept failed': 150, 'refused address': 50, 'non-ascii': 400, 'split': 1000,
        'listings': 1500, 'calls listed': 2500, 'connected listed': 600, 'd one': 500, 'd all': 200, 'd nobody': 500, 'unknown': 500, 'media timeout': 200, 'r nobody': 200, 'transactions': 400}
CPU = 120
CONFIRM = True
BUDGET = {'quick': 300, 'thorough': 800}
PROF = dict(calls = (2, 6), p_loss = 0, p_op = 0, p_hup = 0, p_vanish = .02, p_noack = .02, p_rr = .1, hide = .2, static = .15, p_refuse_auth = .12)
class Weird(BaseException): pass

def worker_init():
    c = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {c[os.getpid() % len(c)]})

def case(seed, R, tier):
    k = seed % 8
    if k < 3: transport(seed, R)
    elif k < 7: calls(seed, R)
    else: media(seed, R)

# ---- transport
class Faulty:
    def __init__(self, s, rng, R): self.s, self.rng, self.R, self.n = s, rng, R, 0
    def accept(self):
        if self.n < 2 and self.rng.random() < .5:
            self.n += 1
            self.R.count('accept failed')
            raise OSError(self.rng.choice([errno.EMFILE, errno.ENFILE, errno.ECONNABORTED, errno.ENOBUFS, errno.EPERM]), 'injected')
        return self.s.accept()
    def __getattr__(self, n): return getattr(self.s, n)

class Call:
    def __init__(self, id, cid, log): self.id, self.cId, self.log, self.proxied, self.state = id, cid, log, False, None
    def disconnect(self, *a, **k): self.log.append((self, threading.get_ident()))

class Cmap:
    def __init__(self, rng):
        self.log = []
        ids = ['a@b', 'c-1', 'ыё@дом', 'x' * 200, '*x', 'q']
        self.ccmap = [Call(i, rng.choice(ids), self.log) for i in range(rng.randrange(1, 9))]
    def discAll(self, signum = None):
        for c in list(self.ccmap): c.disconnect()
    def listActiveCalls(self):
        return tuple((c.cId, 'Connected', ('Connected', 'udp', '10.0.0.%d' % c.id, 5060, 'ж%d' % c.id, 'b'), None) for c in self.ccmap)

def transport(seed, R):
    rng = random.Random(seed)
    ends = []
    before = threading.active_count()
    try:
        with stress.noisy():
            with Jitter(('CLIManager.py', 'B2B/SimpleAPI.py', 'Core/EventDispatcher.py'), seed, rng.choice([0, .01, .05, .2]), rng.choice([.0003, .002])) as j:
                tbody(R, rng, ends, before)
            R.ev(j.sig, True)
    finally:
        for e in reversed(ends): e()

def tbody(R, rng, ends, before):
    me = threading.get_ident()
    d = tempfile.mkdtemp(prefix = 'c31')
    ends.append(lambda: shutil.rmtree(d, ignore_errors = True))
    p = os.getpid()
    host = '127.%d.%d.1' % (p >> 8 & 255, p & 255)
    tcp = rng.random() < .5
    api = rng.random() < .5
    runs = []          # (conn key, line) as executed
    lock = threading.Lock()
    def handler(clim, cmd):
        # every line starts with its connection's key
        key = cmd.split(' ', 1)[0]
        runs.append((key, cmd, threading.get_ident(), id(clim)))
        if ' boom' in cmd:
            R.count('handler failed')
            raise rng.choice([ValueError('x'), Weird('x'), KeyError(1)])
        if ' quit' in cmd: clim.close(); return
        n = re.search(r' big(\d+)', cmd)
        rep = 're %s%s\n' % (cmd, ' ' + 'z' * int(n.group(1)) if n else '')
        if rng.random() < .5: clim.send(rep)
        else:
            k = rng.randrange(len(rep))
            clim.write(rep[:k]); clim.send(rep[k:].encode())
    cm = Cmap(rng)
    while True:
        port = 31000 + p % 40 * 700 + rng.randrange(700)
        try:
            addr = (host, port) if tcp else d + '/s'
            if api: srv = B2BSimpleAPI({'b2bua_socket': ('tcp:%s:%d' % addr) if tcp else rng.choice(['unix:', '']) + addr, '_cmap': cm})
            else: srv = CLIConnectionManager(handler, addr, tcp = tcp)
            break
        except OSError as e:
            if e.errno != errno.EADDRINUSE: raise
    ends.append(srv.shutdown)
    allowed = None
    if tcp and rng.random() < .3:
        allowed = srv.accept_list = [host]
    if rng.random() < .4:
        srv.serversock = Faulty(srv.serversock, random.Random(rng.random()), R)
    conns = []
    class C: pass
    def gen(c, r):
        out = []
        n = r.choice([1, 3, 10, 30])
        for i in range(n):
            if api:
                x = r.random()
                cid = r.choice(['a@b', 'c-1', 'ыё@дом', 'x' * 200, '*x', 'q', 'nobody', '**'])
                if x < .3: l = 'd ' + cid
                elif x < .35: l = 'd *'
                elif x < .5: l = r.choice(['l', 'L', ' l '])
                elif x < .6: l = r.choice(['d', 'd a b', 'r', 'r x', 'r 1 y', 'r 1 2 3', 'R 7777', 'r 1', 'r 1 1'])
                elif x < .7: l = r.choice(['', ' ', '\t', '\r'])
                else: l = r.choice(['foo', 'ld', 'да', '\x01', 'd*', 'l' * 5000, 'quit', '?', '\udc80\udcff', 'lx a b'])
                if '\udc80' in l or 'ы' in l or 'д' in l: R.count('non-ascii')
            else:
                l = '%s %d' % (c.key, i)
                x = r.random()
                if x < .1: l += ' big%d' % r.choice([2000, 100000, 400000])
                elif x < .13: l += ' boom'; c.boom.append(l)
                elif x < .2: l += ' é☎'; R.count('non-ascii')
                elif x < .25: l += ' ' + 'y' * 5000
                elif x < .3: out.append(r.choice(['', '  ', '\r']))
                elif x < .35: l = '  ' + l + ' \r'
            out.append(l)
        return out
    def client(c, r):
        try:
            s = c.s = socket.socket(socket.AF_INET if tcp else socket.AF_UNIX, socket.SOCK_STREAM)
            if tcp: s.bind((host[:-1] + '2' if c.bad else host, 0))
            s.settimeout(8)
            s.connect(addr)
            data = b''.join(l.encode(errors = 'surrogateescape') + b'\n' for l in c.lines)
            if c.end == 'quit': data += b'q\n' if api else ('%s quit\n' % c.key).encode()
            elif r.random() < .3: c.tail = True; data += b'l' if api else ('%s tail' % c.key).encode()
            stop = []
            def rx():
                try:
                    while not stop:
                        b = s.recv(r.choice([1, 100, 65536]))
                        if not b: c.eof = True; break
                        c.got += b
                except OSError as e: c.err = e
            t = threading.Thread(target = rx, daemon = True)
            if c.end not in ('stuck', 'reset', 'closed'): t.start()
            mode = r.choice(['all', 'bytes', 'pieces', 'pieces'])
            if mode == 'bytes' and len(data) > 400: mode = 'pieces'
            if mode != 'all': R.count('split')
            i = 0
            while i < len(data):
                k = len(data) if mode == 'all' else 1 if mode == 'bytes' else r.randrange(1, 1 + min(len(data), 2000))
                s.sendall(data[i:i + k]); i += k
                if mode == 'pieces' and r.random() < .4: time.sleep(r.random() * .002)
            c.sent = True
            if c.end == 'half-closed': s.shutdown(socket.SHUT_WR)
            elif c.end in ('reset', 'closed'):
                if r.random() < .5: time.sleep(r.random() * .01)
                if c.end == 'reset' and tcp: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                s.close()
            elif c.end == 'stuck':
                c.hold.wait(12); s.close()
            if c.end in ('half-closed', 'quit'): t.join(8); s.close()
        except OSError as e: c.err = c.err or e
        finally: c.done = True
    ts = []
    for i in range(rng.choice([1, 2, 3, 6])):
        c = C(); conns.append(c)
        c.sent, c.key, c.got, c.eof, c.err, c.done, c.tail, c.boom = False, 'k%d' % i, b'', False, None, False, False, []
        c.bad = allowed is not None and rng.random() < .4
        c.end = rng.choice(['half-closed', 'half-closed', 'half-closed', 'closed', 'reset', 'quit', 'stuck'])
        c.hold = threading.Event()
        if c.bad: R.count('refused address')
        else: R.count(c.end)
        r = random.Random(rng.random())
        c.lines = gen(c, r)
        R.count('lines', len(c.lines))
        t = threading.Thread(target = client, args = (c, r), daemon = True)
        ts.append(t)
    for t in ts: t.start()
    slow = [t for t, c in zip(ts, conns) if c.end != 'stuck']
    det = lambda: dict(tcp = tcp, api = api, conns = [(c.key, c.end, c.bad, c.done, c.eof, str(c.err), len(c.lines), c.got[-100:]) for c in conns], runs = [r[:2] for r in runs[-30:]])
    if not R.check(stress.loop(lambda: all(not t.is_alive() for t in slow), 12), 'clients are not served', 'stuck', det):
        for c in conns: c.hold.set()
        return
    stress.loop(lambda: all(c.sent or c.done for c in conns), 8)
    if not api:
        # clients that do not read are served all the same
        due = [c for c in conns if c.end == 'stuck' and not c.boom and not c.bad]
        stress.loop(lambda: all(len([x for x in runs if x[0] == c.key]) >= len([l for l in c.lines if l.strip()]) for c in due), 6)
    stress.loop(lambda: False, .03)
    for c in conns: c.hold.set()
    for t in ts: t.join(3)
    # no connection outlives its client: the acceptor is the only thread left
    R.check(stress.loop(lambda: threading.active_count() <= before + 1, 6), '%d threads left although every client is gone' % (threading.active_count() - before - 1), 'leak', det)
    if api: return japi(R, cm, conns, det, me)
    for c in conns:
        want = [l.strip() for l in c.lines if l.strip()]
        mine = [x for x in runs if x[0] == c.key]
        ran = [x[1] for x in mine]
        if not R.check(all(x[2] == me for x in mine), 'a command ran on another thread', 'thread', det): return
        if c.bad:
            R.check(not ran and not c.got, 'a command from a refused address ran', 'refused', det); continue
        if ran and ran[-1] == c.key + ' quit': ran.pop()
        if not R.check(ran == want[:len(ran)], 'commands %s were run, not %s' % ([x[:40] for x in ran[-3:]], [x[:40] for x in want[:len(ran)][-3:]]), 'executed', det): return
        if c.end in ('half-closed', 'quit'):
            full = not c.boom
            R.check(not full or len(ran) == len(want), '%d of %d commands were run' % (len(ran), len(want)), 'executed', det)
            R.check(len({x[3] for x in mine}) <= 1, 'one connection, several managers', 'connection', det)
            stop = want.index(c.boom[0].strip()) if c.boom else len(want)
            rep = b''
            for l in want[:stop]:
                n = re.search(r' big(\d+)', l)
                rep += ('re %s%s\n' % (l, ' ' + 'z' * int(n.group(1)) if n else '')).encode()
            R.count('answers', stop)
            # after a failed handler the connection ends at an arbitrary later command
            ok = c.got == rep if full else c.got[:len(rep)] == rep
            R.check(ok and (c.eof or not full), 'answers of %d bytes instead of %d, end %s' % (len(c.got), len(rep), c.eof or c.err), 'answers', det)
            if not full: R.check(c.eof or isinstance(c.err, ConnectionError), 'the connection of a failed handler stays', 'answers', det)
        elif c.end == 'stuck' and not c.boom: R.check(len(ran) == len(want), '%d of %d commands of a client that does not read were run' % (len(ran), len(want)), 'executed', det)

def japi(R, cm, conns, det, me):
    need = {}
    sure = all(c.end in ('half-closed', 'quit') and not c.bad for c in conns)
    for c in conns:
        rep = []
        for l in c.lines:
            a = l.encode(errors = 'surrogateescape').decode('utf-8', 'replace').split()
            if not a: continue
            k = a[0].lower()
            if k == 'q': rep.append(('', None)); break
            if k == 'l': rep.append('In-memory calls:\n' + ''.join('%s: Connected (Connected udp:10.0.0.%d:5060 ж%d b -> N/A)\n' % (x.cId, x.id, x.id) for x in cm.ccmap) + 'Total: %d\n' % len(cm.ccmap))
            elif k == 'd':
                if len(a) != 2: rep.append('ERROR: '); continue
                t = cm.ccmap if a[1] == '*' else [x for x in cm.ccmap if x.cId == a[1]]
                for x in t: need[x.id] = need.get(x.id, 0) + 1
                rep.append('OK\n' if t or a[1] == '*' else 'ERROR: ')
            elif k == 'r':
                if len(a) in (2, 3) and all(x.isdigit() for x in a[1:]) and any(x.id == int(a[1]) for x in cm.ccmap): rep.append('OK\n')
                else: rep.append('ERROR: ')
            elif k in ('lt', 'llt'): pass
            else: rep.append('ERROR: ')
        if c.bad: R.check(not c.got, 'a refused address was answered', 'refused', det); continue
        if c.end in ('half-closed', 'quit'):
            g = c.got.decode()
            for x in rep:
                if isinstance(x, tuple): break
                y = g[:len(x)]
                if not R.check(y == x, 'answered %r instead of %r' % (y[-60:], x[-60:]), 'answers', det): return
                R.count('answers')
                g = g[len(x):]
                if x == 'ERROR: ': g = g[g.index('\n') + 1:]
            R.check(not g and c.eof, 'answered %r too much, end %s' % (g[:60], c.eof or c.err), 'answers', det)
    have = {}
    for x, ident in cm.log:
        have[x.id] = have.get(x.id, 0) + 1
        R.check(ident == me, 'a call was released on another thread', 'thread', det)
    for x in cm.ccmap:
        h, n = have.get(x.id, 0), need.get(x.id, 0)
        R.check(h == n if sure else h <= n, 'call %s released %d times, asked for %d' % (x.cId[:20], h, n), 'executed', det)

# ---- calls in progress
def run_cmd(R, api, cmd):
    out, closed = [], []
    try:
        with vsim.quiet(): api.recvCommand(scen.O(send = out.append, close = lambda: closed.append(1)), cmd)
    except Exception as e: R.fail('the command %r failed: %r' % (cmd, e), 'command failed')
    return ''.join(out), closed

LINE = re.compile(r'^(\S+): (\S+) \((?:N/A|(\S+) (\S+?):(\S+):(\d+) (\S+) (\S+)) -> (?:N/A|(\S+) (\S+?):(\S+):(\d+) (\S+) (\S+))\)$')

def calls(seed, R):
    run = scen.Run(seed, PROF)
    rng = random.Random(seed ^ 0x55aa)
    acts = []
    def act(kind):
        c = rng.choice(run.plans)
        cid = c.leg.callid if hasattr(c, 'leg') else 'notyet'
        T = run.sim.now
        cmd = {'l': rng.choice(['l', 'L']), 'd': 'd ' + cid, 'd*': 'd *', 'nobody': rng.choice(['d ' + cid + 'x', 'd ' + cid[:-1], 'd', 'd a b', 'd ' + cid.swapcase() + 'Z']), 'unknown': rng.choice(['x', 'dd ' + cid, 'list', 'D* *', 'q q', 'disconnect *']),
               'r': rng.choice(['r 99999999', 'r -1', 'r x', 'r', 'r 1 x', 'r 1 2 3']), 'lt': rng.choice(['lt', 'llt'])}[kind]
        n = len(run.w.tm.tserver) + len(run.w.tm.tclient)
        out, cl = run_cmd(R, run.api, cmd)
        acts.append((T, kind, cmd, out, c if kind == 'd' and cid != 'notyet' else None, n, cl))
        if kind == 'd' and cid != 'notyet': run.admin.append((T, 'd', cid))
        if kind == 'd*': run.admin.append((T, 'hup', None))
    for i in range(rng.choice([3, 6, 12])):
        kind = rng.choices(['l', 'd', 'd*', 'nobody', 'unknown', 'r', 'lt'], [8, 2, .5, 2, 1.5, 1, 2])[0]
        run.sim.after(rng.choice([rng.uniform(0, 3), rng.uniform(0, 40), rng.uniform(0, 150)]), act, kind)
    run.run()
    try: jcalls(run, acts, R)
    finally: run.close()

def jcalls(run, acts, R):
    T0 = run.sim.t0
    det = lambda: dict(acts = [(t - T0, cmd, out[:400]) for t, k, cmd, out, *_ in acts], calls = [run.story(c) for c in run.plans])
    sig = []
    legcids = {}
    for c in run.plans:
        for k in [c] + c.att:
            x = c.cid if k is c else k.inv.callid
            legcids.setdefault(x, []).append(c)
    tx = {}
    for p in run.sim.wire:
        if p.src == run.w.addr and p.msg: tx.setdefault(round(p.t, 9), []).append(p.msg)
    def ends(c):
        """when the call's end began, as the wire shows"""
        l = []
        if c.canrx is not None: l.append(c.canrx)
        l += c.adm
        if c.fin and not c.ok: l.append(c.fin[0])
        for k in [c] + c.att:
            if k is c or k.ok: l += [t for t, m in k.byetx + k.byerx]
        return min(l) if l else float('inf')
    for T, kind, cmd, out, tgt, n, cl in acts:
        ended = [c for c in run.plans if c.arr is not None and c.arr < T - EPS]
        live = [c for c in ended if ends(c) > T + EPS or any(abs(t - T) < 1e-9 for t in c.adm) and ends(c) > T - 1e-9]
        live = [c for c in live if c.maxf > 1]
        wire = tx.get(round(T, 9), [])
        if kind == 'l':
            R.count('listings')
            L = out.split('\n')
            if not R.check(len(L) >= 3 and L[0] == 'In-memory calls:' and L[-1] == '' and L[-2] == 'Total: %d' % (len(L) - 3), 'the listing is %r' % out[:300], 'listing', det): return
            rows = {}
            for l in L[1:-2]:
                m = LINE.match(l)
                if not R.check(bool(m), 'a line of the listing is %r' % l, 'listing', det): return
                if not R.check(m.group(1) not in rows, 'call %s is listed twice' % m.group(1), 'listed twice', det): return
                rows[m.group(1)] = m.groups()
            for c in live:
                if not R.check(c.cid in rows, 'call %s (since %.3f) is not listed at %.3f' % (c.cid, c.arr - T0, T - T0), 'not listed', det): return
            for cid, g in rows.items():
                cc = [c for c in run.plans if c.cid == cid]
                if not R.check(cc and cc[0].arr is not None and cc[0].arr < T + EPS, 'a call %s nobody made is listed' % cid, 'nobody', det): return
                c = cc[0]
                if c not in live or run.blurred(c): continue
                R.count('calls listed')
                sig.append(g[1:3] + g[8:9])
                R.check(g[3:8] in [('udp', h, '5060', c.frm, c.num) for h in ([c.host] if not c.rr else [c.host, scen.phost(c.host)])], 'the caller of %s is %s' % (cid, g[3:8]), 'caller', det)
                a = [x for x in c.att if x.t < T - EPS and (x.fin is None or x.fin[0] > T + EPS or x.ok) and (x.tmo is None or x.tmo > T) and not [t for t, m in x.cancel if t < T]]
                if not a and not [x for x in c.att if x.t < T + EPS]:
                    if c.authreq and (c.authreq.answered is None or c.authreq.answered > T + EPS) and c.authreq.t < T - EPS:
                        R.check(g[1] == 'WaitRoute' and g[8] is None, 'a call waiting for its authorisation is listed as %s' % (g[1:],), 'state', det)
                elif len(a) == 1:
                    a = a[0]
                    con = a in run.connected(c) and c.fin[0] < T - EPS and not c.late
                    if con:
                        R.count('connected listed')
                        R.check(g[1] == 'Connected' and all(x and (x == 'Connected' or x.startswith('Updating')) for x in (g[2], g[8])), 'a connected call is listed as %s' % (g[1:],), 'state', det)
                    elif not a.fin: R.check(g[1] == 'ARComplete' and g[8] not in (None, 'Connected'), 'a call being placed is listed as %s' % (g[1:],), 'state', det)
                    if a.fin is None or a.fin[0] > T + EPS or con:
                        R.check(g[9:] == ('udp', a.route.host, str(a.route.port), c.frm, a.route.cld if a.route.cld else c.num), 'the callee of %s is %s' % (cid, g[8:]), 'callee', det)
        elif kind in ('d', 'd*'):
            R.count('d one' if kind == 'd' else 'd all')
            vict = live if kind == 'd*' else [c for c in live if c is tgt]
            if kind == 'd*' or vict: R.check(out == 'OK\n', 'answered %r' % out, 'answer', det)
            for m in wire:
                own = legcids.get(m.callid, [])
                if kind == 'd' and not R.check(tgt in own, 'releasing %s made the B2BUA send %s %s for another call' % (tgt and tgt.cid, m.method or m.code, m.cseq), 'another call', det): return
            for c in vict:
                if run.blurred(c) or hasattr(c, 'ebye'): continue
                if any(t < T - 1e-9 for t in c.adm): continue
                if c.fin is None or c.fin[0] > T - 1e-9:
                    R.check(c.fin is not None and abs(c.fin[0] - T) < EPS and not c.ok, 'call %s disconnected at %.3f, its caller was answered at %s' % (c.cid, T - T0, c.fin and (c.fin[0] - T0, c.fin[1].code)), 'not released', det)
                    for a in c.att:
                        if a.t > T + EPS: R.fail('another attempt after the call was disconnected', 'not released', det())
                else:
                    R.check([t for t, m in c.byetx if abs(t - T) < EPS], 'call %s disconnected at %.3f, no BYE to its caller then' % (c.cid, T - T0), 'not released', det)
                    for a in run.connected(c): R.check([t for t, m in a.byetx if abs(t - T) < EPS], 'call %s disconnected at %.3f, no BYE to its callee then' % (c.cid, T - T0), 'not released', det)
        else:
            R.count({'nobody': 'd nobody', 'unknown': 'unknown', 'r': 'r nobody', 'lt': 'transactions'}[kind])
            R.check(not wire, '%r made the B2BUA send %s' % (cmd, [(m.method or m.code, m.cseq) for m in wire]), 'not without effect', det)
            if kind == 'lt':
                L = out.split('\n')
                k = len([l for l in L if l and not l.startswith('In-memory')])
                R.check(k == n if cmd == 'lt' else k <= n, '%d of %d transactions listed' % (k, n), 'transactions', det)
            elif cmd[0] == 'q': R.check(cl and not out, 'q did not close', 'answer', det)
            else: R.check(out.startswith('ERROR') and out.count('\n') == 1 and not cl, '%r was answered %r' % (cmd, out), 'answer', det)
    R.ev((tuple(sig), tuple(a[1] for a in acts)))

# ---- media timeouts
def media(seed, R):
    rng = random.Random(seed)
    w = World(seed, auth = False, acct = False, route = '10.0.2.1', digest = False)
    sim = w.sim
    sim.default_link = Link(delay = (.001, .01))
    try:
        relay = Relay(sim)
        client = Rtp_proxy_client(w.gc, spath = 'udp:10.9.0.1:22222')
        w.gc['_rtp_proxy_clients'] = [client]
        w.run(8)
        api = B2BSimpleAPI.__new__(B2BSimpleAPI)
        api.global_config = w.gc
        q = w.peer('10.0.2.1', 'b')
        def on_invite(leg, *a):
            k = re.search(r'sip:n(\d+)@', leg.invite.uri)
            c = cs[int(k.group(1))]
            c.b = leg
            sim.after(.1, leg.provisional, 180)
            if c.answer is not None: sim.after(c.answer, leg.answer, c.sdpb)
        q.on_invite = on_invite
        cs = []
        n = rng.choice([2, 3, 4])
        for i in range(n):
            c = scen.O(i = i, b = None, answer = rng.choice([.5, 1, 2, 2, None]), nstr = rng.choice([1, 1, 2]), late = None)
            cs.append(c)
            pa = w.peer('10.0.1.%d' % (i + 1), 'a%d' % i)
            def sdp(host, c = c):
                t = S.mksdp(host, 20000 + 10 * c.i, 1, 5 + c.i, (0, 8))
                return t + (b'm=video 30000 RTP/AVP 31\r\n' if c.nstr == 2 else b'')
            c.sdpb = sdp('10.0.2.1')
            c.a = pa.call(w.addr, 'n%d' % i, 'u%d' % i, sdp('10.0.1.%d' % (i + 1)))
        w.run(6)
        # the notification tags are given only with a notification socket: the number is the call's own otherwise
        num = {str(x.cId): x.id for x in w.cmap.ccmap}
        order = rng.sample(cs, len(cs))
        det = lambda: dict(calls = [(c.i, c.answer, c.nstr, c.a.callid) for c in cs], done = done, cmds = [(t - sim.t0, x) for t, k, x, r in relay.cmds if x[0] in 'UD'][-20:], wire = ['%.3f %s %s %s' % (p.t - sim.t0, p.dst, p.msg.method or p.msg.code, p.msg.callid) for p in sim.wire if p.src == w.addr and p.msg and p.msg.callid][-30:])
        done = []
        for c in order[:rng.randrange(1, len(order) + 1)]:
            idx = num[c.a.callid]
            mi = rng.choice([None, 0, 1]) if c.nstr == 2 else rng.choice([None, 0])
            T = sim.now
            mark = len(relay.cmds)
            wm = len(sim.wire)
            out, cl = run_cmd(R, api, 'r %d%s' % (idx, '' if mi is None else ' %d' % mi))
            done.append((c.i, mi, T - sim.t0, out))
            R.count('media timeout')
            R.check(out == 'OK\n', 'answered %r' % out, 'answer', det)
            w.run(rng.choice([2, 40]))
            if c.answer is not None:
                for nm, leg in (('caller', c.a), ('callee', c.b)):
                    by = [p for p in sim.wire[wm:] if p.src == w.addr and p.msg and p.msg.method == 'BYE' and p.msg.callid == leg.callid]
                    R.check(by and abs(by[0].t - T) < EPS, 'media timeout of call %d at %.3f, no BYE to its %s then' % (c.i, T - sim.t0, nm), 'not released', det)
            else:
                by = [p for p in sim.wire[wm:] if p.src == w.addr and p.msg and p.msg.method == 'CANCEL' and p.msg.callid == c.b.callid]
                R.check(by and abs(by[0].t - T) < EPS, 'media timeout of call %d being placed, its attempt is not given up' % c.i, 'not released', det)
            mine = {c.a.callid, c.b.callid}
            for p in sim.wire[wm:]:
                if p.src == w.addr and p.msg and p.msg.callid and abs(p.t - T) < EPS:
                    if not R.check(p.msg.callid in mine, 'a media timeout of call %d made the B2BUA send %s %s for another call' % (c.i, p.msg.method or p.msg.code, p.msg.cseq), 'another call', det): return
            dels = [x.split()[1] for t, k, x, rt in relay.cmds[mark:] if x[0] == 'D' and not rt]
            want = {'%s-%d' % (c.a.callid, k) for k in range(c.nstr) if k != (mi or 0)}
            R.check(set(dels) == want, 'after the timeout of stream %s the relay was told to delete %s, not %s' % (mi, dels, sorted(want)), 'deleted', det)
        left = [c for c in cs if c.i not in [d[0] for d in done]]
        for c in left:
            if c.answer is not None: R.check(not [p for p in sim.wire if p.src == w.addr and p.msg and p.msg.method == 'BYE' and p.msg.callid in (c.a.callid, c.b.callid)], 'a call nobody named was released', 'another call', det)
        out, cl = run_cmd(R, api, 'r %d' % (max(num.values()) + rng.randrange(1, 1000)))
        R.count('r nobody')
        R.check(out.startswith('ERROR'), 'answered %r' % out, 'answer', det)
        R.ev((tuple((c.answer, c.nstr) for c in cs), tuple(done)))
        R.check(not Internal.log, 'the stack caught an internal exception: %s' % (Internal.log[0][1:] if Internal.log else '',), 'internal exception')
        client.shutdown()
    finally: w.close()
