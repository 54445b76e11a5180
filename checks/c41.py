"""C41: datagrams through real sockets and threads, compared with what was handed over at the other end
Real UDP servers (IPv4 and IPv6, one and several workers) exchange datagrams with plain sockets and with each other on the loopback under random thread delays and socket errors injected at the system-call boundary. Offline checker: every datagram arrived once, unmodified, from the true address, on the loop's thread, and in order where there is one worker."""
import random, os, socket, threading, time, errno
import stress
from stress import Jitter, ED2
from sippy.Udp_server import Udp_server, Udp_server_opts
from sippy.Network_server import RTP_port_allocator
RULE = 'seeded sets of 1-4 servers (IPv4/IPv6, fixed, any or allocated port, 1 or 3 workers) and 1-3 plain peers x 1-4 sending threads x 10-80 datagrams of 1 byte to the largest possible, text and bytes x callbacks that fail x injected EAGAIN, ENOBUFS, EINTR, unreachable destinations and other socket errors x random delays. Distinct by the interleaving seen at the delays.'
N = {'quick': 1600, 'thorough': 16000}
NEED = {'out': 45000, 'in': 15000, 'big': 6000, 'text': 12000, 'failed callbacks': 4000, 'send errors': 2500, 'receive errors': 20000, 'unreachable': 4500, 'one worker': 1500, 'several workers': 800, 'ipv6': 500, 'delays': 100000}
CONFIRM = True
CPU = 120
BUDGET = {'quick': 240, 'thorough': 780}
class Weird(BaseException): pass

def worker_init():
    # on several processors the loopback itself delivers out of order
    c = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {c[os.getpid() % len(c)]})

def HOST():
    p = os.getpid()
    return '127.%d.%d.1' % (p >> 8 & 255, p & 255)

class Faulty:
    """the server's socket with errors now and then"""
    def __init__(self, s, rng, R, p): self.s, self.rng, self.R, self.p, self.n, self.lost = s, rng, R, p, {}, []
    def sendto(self, data, addr):
        k = (data, addr)
        if self.rng.random() < self.p and self.n.get(k, 0) < 5:
            self.n[k] = self.n.get(k, 0) + 1
            self.R.count('send errors')
            raise OSError(self.rng.choice([errno.EAGAIN, errno.ENOBUFS, errno.EWOULDBLOCK]), 'injected')
        return self.s.sendto(data, addr)
    def recvfrom(self, n):
        if self.rng.random() < self.p:
            self.R.count('receive errors')
            raise OSError(self.rng.choice([errno.EINTR, errno.EINTR, errno.ENOMEM, errno.ENOBUFS, errno.EHOSTUNREACH]), 'injected')
        return self.s.recvfrom(n)
    def __getattr__(self, n): return getattr(self.s, n)

def case(seed, R, tier):
    rng = random.Random(seed)
    ends = []
    try:
        with stress.noisy():
            with Jitter(('Udp_server.py', 'Network_server.py', 'Core/EventDispatcher.py'), seed, rng.choice([0, .01, .05, .2]), rng.choice([.0003, .002])) as j:
                body(R, rng, ends)
            R.ev(j.sig, True)
            R.count('delays', j.hits)
    finally:
        for e in ends: e()

def body(R, rng, ends):
    me = threading.get_ident()
    lock = threading.Lock()
    got = []              # (receiver, data, source address, ident, rtime, server)
    booms = set()
    class E: pass
    def fam(v6): return socket.AF_INET6 if v6 else socket.AF_INET
    eps = []
    for i in range(rng.choice([1, 2, 2, 4])):
        e = E(); eps.append(e)
        e.i, e.kind, e.v6 = i, 'server', rng.random() < .25
        # addresses and ports no other process of this check uses: the system lets several sockets share a port
        e.host = '[::1]' if e.v6 else HOST()
        if e.v6: R.count('ipv6')
        how = rng.random()
        lo = 2000 + os.getpid() % 40 * 700 + rng.randrange(0, 5) * 100
        used = [x.addr[1] for x in eps[:-1]]
        if how < .4 and not e.v6: port = 0
        elif how < .7: port = RTP_port_allocator(lo, lo + 199); port = lambda n, a = port: next(p for p in iter(lambda: a(n), None) if p not in used)
        else: port = next(p for p in iter(lambda: rng.randrange(lo, lo + 200), None) if p not in used)
        def cb(data, ra, srv, rtime, e = e):
            with lock: got.append((e.i, data, ra, threading.get_ident(), rtime, srv))
            if data in booms:
                R.count('failed callbacks')
                raise rng.choice([ValueError('callback'), Weird('callback'), KeyError(2)])
        o = Udp_server_opts((e.host, port), cb)
        e.nw = o.nworkers = rng.choice([1, 1, 3])
        R.count('one worker' if e.nw == 1 else 'several workers')
        e.srv = Udp_server({}, o)
        ends.append(e.srv.shutdown)
        real = e.srv.skt.getsockname()
        a = e.srv.getSIPaddr()
        R.check(a[1] == 'udp' and tuple(a[0])[:2] == (e.host, real[1]) and (callable(port) or port in (0, real[1])), 'bound to %s, says %s, was asked for %s' % (real, a, port), 'bound', '')
        if callable(port): R.check(real[1] % 2 == 0 and lo <= real[1] <= lo + 199, 'port %s of %d-%d' % (real[1], lo, lo + 199), 'bound', '')
        e.addr = (e.host, real[1])
        e.faulty = rng.random() < .4
        if e.faulty: e.srv.skt = Faulty(e.srv.skt, random.Random(rng.random()), R, rng.choice([.05, .2]))
    stop = []
    for i in range(len(eps), len(eps) + rng.choice([1, 2, 3])):
        e = E(); eps.append(e)
        e.i, e.kind, e.v6, e.nw = i, 'plain', rng.random() < .25, 1
        e.host = '[::1]' if e.v6 else HOST()
        e.skt = socket.socket(fam(e.v6), socket.SOCK_DGRAM)
        while True:
            try: e.skt.bind((e.host.strip('[]'), 30000 + os.getpid() % 40 * 700 + rng.randrange(700) if e.v6 else 0)); break
            except OSError: pass
        e.skt.settimeout(.2)
        e.addr = (e.host, e.skt.getsockname()[1])
        def rx(e = e):
            while not stop:
                try: d, a = e.skt.recvfrom(66000)
                except TimeoutError: continue
                except OSError: return
                with lock: got.append((e.i, d, a, None, None, None))
        e.thr = threading.Thread(target = rx, daemon = True)
        e.thr.start()
        def fin(e = e): stop.append(1); e.thr.join(); e.skt.close()
        ends.append(fin)
    sent = []          # (sender ep, receiver ep, data, thread, number)
    outst = lambda: len(sent) - len(got)
    def thread(t, s, per):
        r = random.Random(s)
        for n in range(per):
            src = r.choice(eps)
            dst = r.choice([e for e in eps if e.v6 == src.v6])
            if src.kind == 'plain' and dst.kind == 'plain': continue
            size = r.choice([1, 20, 500, 1500, 8191, 8192, 8193, 9000, 30000, 65000 if not src.v6 else 40000]) if r.random() < .2 else r.randrange(20, 1200)
            tag = b'%d.%d.%d.' % (t, n, r.getrandbits(40))
            if r.random() < .2:
                data = (tag.decode() + ''.join(r.choice('abc é\r\n☎') for _ in range(max(0, size // 3)))); R.count('text')
                raw = data.encode()
            else: raw = data = tag + r.randbytes(max(0, size - len(tag)))
            if r.random() < .1 and dst.kind == 'server': booms.add(raw)
            if len(raw) > 8000: R.count('big')
            e = time.monotonic() + 6
            # not more than the system's buffers hold
            while time.monotonic() < e:
                with lock:
                    if outst() < (30 if len(raw) < 2000 else 1):
                        sent.append((src.i, dst.i, raw, t, n)); break
                time.sleep(.0005)
            else: return     # something was lost
            if src.kind == 'server':
                if r.random() < .1:
                    R.count('unreachable')
                    bad = r.choice([('[::ffff:1.2.3.400]', 5), ('[zz]', 5060), ('[::1]', 99999)] if src.v6 else [('no.such.invalid', 5060), ('1.2.3.400', 5), ('127.0.0.1', 99999), ('x' * 300, 1)])
                    src.srv.send_to(b'lost', bad)
                src.srv.send_to(data, dst.addr); R.count('out')
            else:
                src.skt.sendto(raw, (dst.host.strip('[]'), dst.addr[1])); R.count('in')
            if r.random() < .1: time.sleep(r.random() * .002)
    per = rng.choice([10, 30, 80])
    ts = [threading.Thread(target = thread, args = (i, rng.random(), per), daemon = True) for i in range(rng.choice([1, 2, 4]))]
    for t in ts: t.start()
    stress.loop(lambda: all(not t.is_alive() for t in ts) and len(got) >= len(sent), 10)
    for t in ts: t.join(1)
    stress.loop(lambda: False, .02)
    lost = {}
    det = lambda: dict(eps = [(e.i, e.kind, e.addr, e.nw, getattr(e, 'faulty', None)) for e in eps], sent = len(sent), got = len(got), missing = [(s[0], s[1], len(s[2]), s[3:]) for s in sent if s[2] not in seen][:10])
    seen = {}
    for n, g in enumerate(got): seen.setdefault(g[1], []).append((n, g))
    bysent = {}
    for s in sent: bysent.setdefault(s[2], []).append(s)
    for d in seen:
        if not R.check(d in bysent, 'a datagram of %d bytes nobody sent was received' % len(d), 'modified', det): return
    last = {}
    for s in sent:
        src, dst = eps[s[0]], eps[s[1]]
        gs = seen.get(s[2], [])
        # one-byte datagrams may be equal
        if len(bysent[s[2]]) != len(gs): R.fail('a datagram of %d bytes from %s to %s arrived %d times' % (len(s[2]), src.kind, dst.kind, len(gs)), 'lost' if not gs else 'repeated', det()); return
        if len(gs) != 1: continue
        n, (rec, d, ra, ident, rtime, srv) = gs[0]
        if not R.check(rec == dst.i, 'a datagram for %s arrived at %s' % (dst.addr, eps[rec].addr), 'misdelivered', det): return
        if dst.kind == 'server':
            R.check(ident == me, 'a datagram was delivered on another thread', 'thread', det)
            R.check(tuple(ra.address) == src.addr and ra.transport == 'udp', 'a datagram from %s is said to come from %s' % (src.addr, ra), 'source', det)
            R.check(srv is dst.srv and rtime is not None, 'delivered for another server', 'server', det)
        else: R.check(ra[:2] == (src.host.strip('[]'), src.addr[1]), 'a datagram from %s came from %s' % (src.addr, ra), 'source', det)
        if src.nw == 1 and dst.nw == 1:
            k = (s[0], s[1], s[3])
            if not R.check(n > last.get(k, -1), 'datagrams from %s to %s arrived out of order' % (src.addr, dst.addr), 'order', det): return
            last[k] = n
