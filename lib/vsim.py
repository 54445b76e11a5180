"""Virtual time and simulated datagram network underneath the real sippy code.

The real event dispatcher (ED2.loop, its timer heap and its thread-call queue) runs; only its idle
primitive (ElPeriodic.procrastinate), the clocks and the UDP sockets are replaced.
"""
import os, sys, random, heapq, io, traceback
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import time as _time
import secrets as _secrets

import socket as _socket
HOSTS = {}          # name -> addresses, for the simulated network
_real_gai = _socket.getaddrinfo
def v_getaddrinfo(host, port, family = 0, *a, **kw):
    if host not in HOSTS: return _real_gai(host, port, family, *a, **kw)
    r = []
    for ip in HOSTS[host]: r += [x for x in _real_gai(ip, port, 0, *a, **kw) if family in (0, x[0])]
    return r
_socket.getaddrinfo = v_getaddrinfo

class _Clock:
    mono = 1000.0
    wall_off = 1.7e9
    virtual = False
clock = _Clock()

import sippy.Time.clock_dtime as _cd
_real_d, _real_n, _real_i = _cd.clock_getdtime, _cd.clock_getntime, _cd.clock_getitime
_rt, _rm, _rtns, _rmns = _time.time, _time.monotonic, _time.time_ns, _time.monotonic_ns

def v_dtime(t):
    if not clock.virtual: return _real_d(t)
    return clock.mono + clock.wall_off if t == 0 else clock.mono
def v_ntime(t):
    if not clock.virtual: return _real_n(t)
    return int(round(v_dtime(t) * 1e9))
def v_itime(t):
    if not clock.virtual: return _real_i(t)
    n = v_ntime(t)
    return (n // 10**9, n % 10**9)
def v_time():
    return clock.mono + clock.wall_off if clock.virtual else _rt()
def v_monotonic():
    return clock.mono if clock.virtual else _rm()
def v_time_ns():
    return int(v_time() * 1e9) if clock.virtual else _rtns()
def v_monotonic_ns():
    return int(clock.mono * 1e9) if clock.virtual else _rmns()
_cd.clock_getdtime = v_dtime
_cd.clock_getntime = v_ntime
_cd.clock_getitime = v_itime

class _Tok:
    """deterministic stand-ins for `secrets` while a simulation runs"""
    rng = random.Random(0)
def v_token_hex(n = 32):
    return _Tok.rng.randbytes(32 if n is None else n).hex() if clock.virtual else _secrets_token_hex(n)
def v_token_bytes(n = 32):
    return _Tok.rng.randbytes(32 if n is None else n) if clock.virtual else _secrets_token_bytes(n)
def v_randbelow(n):
    return _Tok.rng.randrange(n) if clock.virtual else _secrets_randbelow(n)
_secrets_token_hex, _secrets_token_bytes, _secrets_randbelow = _secrets.token_hex, _secrets.token_bytes, _secrets.randbelow

from sippy.Core.EventDispatcher import ED2
import sippy.Core.Exceptions as _ce
from sippy.Time import MonoTime as _mt_mod
from sippy.Time.MonoTime import MonoTime

_REPL = {id(_rt): v_time, id(_rm): v_monotonic, id(_rtns): v_time_ns, id(_rmns): v_monotonic_ns,
         id(_real_d): v_dtime, id(_real_n): v_ntime, id(_real_i): v_itime,
         id(_secrets_token_hex): v_token_hex, id(_secrets_token_bytes): v_token_bytes, id(_secrets_randbelow): v_randbelow}

class _TimeShim:
    def __getattr__(self, n):
        if n in ('time', 'monotonic', 'time_ns', 'monotonic_ns'):
            return {'time': v_time, 'monotonic': v_monotonic, 'time_ns': v_time_ns, 'monotonic_ns': v_monotonic_ns}[n]
        return getattr(_time, n)
_shim = _TimeShim()

class Internal:
    """exceptions the stack caught and dumped"""
    log = []

_real_dump = _ce.dump_exception
def v_dump_exception(msg, f = sys.stdout, extra = None, *a, **kw):
    try:
        et, ev, tb = sys.exc_info()
        if isinstance(ev, (Hang,)):
            raise ev
        Internal.log.append((clock.mono, str(msg), ''.join(traceback.format_exception(et, ev, tb))[-1500:]))
    except Hang:
        raise
    except Exception:
        pass
    if len(Internal.log) > 2000:
        del Internal.log[:1000]

class Hang(BaseException):
    pass

_done = set()
def sweep():
    """replace clock, token and exception-dump references in every loaded sippy module"""
    for name, m in list(sys.modules.items()):
        if not (name == 'sippy' or name.startswith('sippy.')) or m is None:
            continue
        key = (name, len(vars(m)))
        if key in _done: continue
        _done.add(key)
        for k, v in list(vars(m).items()):
            if v is _time:
                setattr(m, k, _shim)
            elif v is _real_dump and name != 'sippy.Core.Exceptions':
                setattr(m, k, v_dump_exception)
            elif id(v) in _REPL and name != 'sippy.Time.clock_dtime' and callable(v):
                setattr(m, k, _REPL[id(v)])
sweep()

class FakeElp:
    sim = None
    def procrastinate(self):
        self.sim._idle()
    def call_from_thread(self, f, *args):
        self.sim._tcalls.append((f, args))
    def addband(self, freq): return 1
    def useband(self, n): pass
    def CFT_enable(self, *a): pass

_felp = FakeElp()
_real_elp = ED2.elp

class NoLogger:
    def write(self, *a, **kw): pass
    def shutdown(self, *a): pass

class Pkt:
    __slots__ = ('t', 'src', 'dst', 'data', 'copies', 'n', '_m')
    def __init__(self, t, src, dst, data, copies, n):
        self.t, self.src, self.dst, self.data, self.copies, self.n, self._m = t, src, dst, data, copies, n, None
    @property
    def msg(self):
        if self._m is None:
            import siplite
            try: self._m = siplite.parse(self.data)
            except Exception: self._m = False
        return self._m
    def __repr__(self):
        return '%.4f %s:%s->%s:%s %r' % (self.t, *self.src, *self.dst, self.data[:60])

class Link:
    """fault profile of one direction"""
    def __init__(self, loss = 0.0, dup = 0.0, delay = (0.005, 0.02), reorder = 0.0, big = 3.0):
        self.loss, self.dup, self.delay, self.reorder, self.big = loss, dup, delay, reorder, big

WALL0 = 1.7e9           # the wall clock at the start of a run

class Sim:
    cur = None
    def __init__(self, seed = 0):
        self.rng = random.Random(seed)
        _Tok.rng = random.Random(seed ^ 0x5eed)
        random.seed(seed)
        clock.virtual = True
        clock.mono = 1000.0 + self.rng.random() * 100
        clock.wall_off = WALL0
        MonoTime.globals = type(MonoTime.globals)()
        ED2.tlisteners = []
        ED2.slisteners = []
        ED2.signals_pending = []
        ED2.twasted = 0
        ED2.elp = _felp
        ED2.endloop = False
        _felp.sim = self
        Sim.cur = self
        Internal.log = []
        self._heap = []
        self._n = 0
        self._tcalls = []
        self.until = None
        self.endpoints = {}
        self.links = {}
        self.default_link = Link()
        self.wire = []
        self.delivered = []     # (t, src, dst, data, wire index)
        self.filters = []       # f(src,dst,data,n) -> None | list of delays
        self.t0 = clock.mono
        self.steps = 0
    # --- scheduling
    @property
    def now(self):
        return clock.mono
    @property
    def rel(self):
        return clock.mono - self.t0
    def at(self, t, f, *a):
        self._n += 1
        ev = [max(t, clock.mono), self._n, f, a]
        heapq.heappush(self._heap, ev)
        return ev
    def after(self, dt, f, *a):
        return self.at(clock.mono + dt, f, *a)
    @staticmethod
    def cancel(ev):
        if ev is not None: ev[2] = None
    def wall_step(self, d):
        clock.wall_off += d
    # --- event loop
    def _idle(self):
        self.steps += 1
        if self._tcalls:
            calls, self._tcalls = self._tcalls, []
            for f, a in calls: f(*a)
            return
        t = self.until
        while self._heap and self._heap[0][2] is None:
            heapq.heappop(self._heap)
        if self._heap and self._heap[0][0] < t:
            t = self._heap[0][0]
        tl = ED2.tlisteners
        try:
            while tl and tl[0].cb_func is None:
                heapq.heappop(tl); ED2.twasted -= 1
            if tl:
                tt = tl[0].etime.monot
                if tt < t: t = tt
        except AttributeError:
            t = min(t, clock.mono + 0.01)
        if t > clock.mono:
            clock.mono = t
        n = 0
        while self._heap and self._heap[0][0] <= clock.mono and n < 64:
            ev = heapq.heappop(self._heap)
            if ev[2] is not None:
                n += 1
                ev[2](*ev[3])
                if self._tcalls: break
        if clock.mono >= self.until and not (self._heap and self._heap[0][0] <= clock.mono) and not self._tcalls:
            ED2.breakLoop()
    def run(self, dt = None, until = None):
        self.until = until if until is not None else clock.mono + dt
        sweep()
        ED2.loop()
    # --- network
    def bind(self, addr, cb):
        assert addr not in self.endpoints, addr
        self.endpoints[addr] = cb
    def link(self, src, dst):
        return self.links.get((src, dst)) or self.links.get((None, dst)) or self.links.get((src, None)) or self.default_link
    def send(self, src, dst, data):
        if isinstance(data, str): data = data.encode()
        l = self.link(src, dst)
        n = len(self.wire)
        copies = None
        for f in self.filters:
            copies = f(src, dst, data, n)
            if copies is not None: break
        if copies is None:
            copies = []
            if self.rng.random() >= l.loss:
                copies.append(self._delay(l))
                while self.rng.random() < l.dup and len(copies) < 4:
                    copies.append(self._delay(l) + self.rng.random() * 2)
        p = Pkt(clock.mono, src, dst, data, copies, n)
        self.wire.append(p)
        for d in copies:
            self.after(d, self._deliver, p)
        return p
    def _delay(self, l):
        d = self.rng.uniform(*l.delay)
        if l.reorder and self.rng.random() < l.reorder:
            d += self.rng.random() * l.big
        return d
    def _deliver(self, p):
        cb = self.endpoints.get(p.dst)
        self.delivered.append((clock.mono, p))
        if cb is not None:
            cb(p.data, p.src)
    def close(self):
        clock.virtual = False
        ED2.tlisteners = []
        ED2.slisteners = []
        ED2.twasted = 0
        ED2.elp = _real_elp
        _felp.sim = Sim.cur = None
        self.wire, self.delivered, self._heap, self.endpoints, self.filters, self._tcalls = [], [], [], {}, [], []
        MonoTime.globals = type(MonoTime.globals)()

from sippy.Network_server import Network_server, Remote_address
from sippy.Udp_server import Udp_server_opts

class _SQ:
    def __init__(self, us): self.us = us
    def put(self, item):
        if item is None: return
        data, address = item
        self.us._tx(data, address)

class SimUdpServer(Network_server):
    """The real Network_server on a simulated socket"""
    transport = 'udp'
    def __init__(self, global_config, uopts):
        super().__init__(uopts)
        self.sendqueue = _SQ(self)
        la = self.uopts.laddress
        self.sim_addr = (str(la[0]), int(la[1]))
        self.sim = Sim.cur
        self.sim.endpoints[self.sim_addr] = self._rx
        self.closed = False
    def _rx(self, data, src):
        self.handle_read(data, Remote_address(src, self.transport), MonoTime())
    def _tx(self, data, address):
        self.sim.send(self.sim_addr, (str(address[0]), int(address[1])), data)
    def join(self): pass
    def shutdown(self):
        self.closed = True
        if self.sim.endpoints.get(self.sim_addr) == self._rx:
            del self.sim.endpoints[self.sim_addr]
        self.uopts.data_callback = None

class quiet:
    """swallow what the stack prints"""
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()
        return self
    def __exit__(self, *a):
        sys.stdout = self.o
