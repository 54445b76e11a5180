"""The real B2BUA (CallMap, CallController, UA, transaction manager, RADIUS client code) on the simulated network."""
import os, sys, signal, io
import vsim
from vsim import Sim, Link, clock, Internal, quiet, ED2
import siplite as S
import peers

import sippy.b2bua as _b2b
from sippy.b2bua import CallMap, CallController
from sippy.MyConfigParser import MyConfigParser
from sippy.SipTransactionManager import SipTransactionManager
from sippy.RadiusAuthorisation import RadiusAuthorisation
import sippy.External_command as _ec
from sippy.External_command import External_command
from sippy.Udp_server import Udp_server_opts
from sippy.B2B.Route import B2BRoute
from sippy.B2B.SimpleAPI import B2BSimpleAPI
from sippy.StatefulProxy import StatefulProxy
vsim.sweep()

SipTransactionManager.model_udp_server = (vsim.SimUdpServer, Udp_server_opts)

class ExecStop(Exception):
    pass

class _OsShim:
    """keeps the restart path from replacing the process"""
    log = []
    def __getattr__(self, n): return getattr(os, n)
    def chdir(self, p): self.log.append(('chdir', p))
    def execv(self, p, a): self.log.append(('execv', p, tuple(a)))
_shim = _OsShim()
_b2b.os = _shim

class Aaa:
    """one request handed to the helper pool"""
    __slots__ = ('t', 'kind', 'attrs', 'lines', 'wi', 'answered', 'picked', 'rc')
    def get(self, name):
        for a, v in self.attrs:
            if a == name: return v
    def all(self, name):
        return [v for a, v in self.attrs if a == name]

def decode_line(l):
    a, v = l.split('="', 1)
    if not v.endswith('"'): raise ValueError(l)
    v = v[:-1]
    if a == 'Cisco-AVPair' or a.startswith('h323-'):
        t = v.split('=', 1)
        if a == 'Cisco-AVPair': a, v = t
        elif len(t) > 1 and t[0] == a: v = t[1]
    return a, v

class FakeRadius:
    def __init__(self, world):
        self.w = world
        self.auths, self.accts = [], []
        self.on_auth = None         # f(req) -> (pickup delay, answer delay, lines) or None: never answered
        self.on_acct = None
        self.orig = External_command.process_command
        External_command.process_command = self._hook()
    def _hook(self):
        fr = self
        def process_command(ec, data, result_callback, *callback_parameters):
            wi = fr.orig(ec, data, result_callback, *callback_parameters)
            try: ec.work.remove(wi)
            except Exception: pass
            fr.submit(ec, wi)
            return wi
        return process_command
    def submit(self, ec, wi):
        q = Aaa()
        q.t, q.wi, q.rc, q.answered, q.picked = clock.mono, wi, ec, None, None
        q.lines = list(wi.data)
        q.kind = q.lines[0]
        q.attrs = [decode_line(l) for l in q.lines[1:]]
        (self.auths if q.kind == 'AUTH' else self.accts).append(q)
        f = self.on_auth if q.kind == 'AUTH' else self.on_acct
        r = f(q) if f else (0.0, 0.01, ['0'])
        if r is None: return
        self.w.sim.after(r[0], self.pick, q, r[1], r[2])
    def pick(self, q, d, lines):
        if q.wi.is_cancelled():
            q.picked = False
            return
        q.picked = clock.mono
        self.w.sim.after(d, self.answer, q, lines)
    def answer(self, q, lines):
        q.answered = clock.mono
        ED2.callFromThread(q.rc.process_result, q.wi.result_callback, tuple(x.encode() if isinstance(x, str) else x for x in lines), *q.wi.callback_parameters)
    def close(self):
        External_command.process_command = self.orig

class World:
    def __init__(self, seed, auth = True, acct = True, route = None, addr = ('10.0.0.1', 5060), opts = (), pass_headers = (), digest = True, start_acct = False,
                 ka_ans = 0, ka_orig = 0, proxy = None, sim = None, setup = None):
        self.sim = sim or Sim(seed)
        self.addr = addr
        _OsShim.log = []
        gc = self.gc = MyConfigParser()
        gc['digest_auth'] = digest
        gc['start_acct_enable'] = start_acct
        gc['keepalive_ans'] = ka_ans
        gc['keepalive_orig'] = ka_orig
        gc['auth_enable'] = auth
        gc['acct_enable'] = acct
        gc['_pass_headers'] = []
        gc['_orig_argv'] = ['b2bua.py', '-x']
        gc['_orig_cwd'] = '/nonexistent'
        gc['_my_pid'] = 4242
        gc['foreground'] = True
        gc['_sip_address'] = addr[0]
        gc['_sip_port'] = addr[1]
        gc['max_radiusclients'] = 0
        for k, v in opts:
            gc.check_and_set(k, v)
        for h in pass_headers:
            gc.check_and_set('pass_header', h)
        if route is not None:
            gc['static_route'] = route
        if 'static_route' in gc:
            gc['_static_routes'] = {'': B2BRoute(gc['static_route'])}
        gc['_sip_logger'] = vsim.NoLogger()
        self.radius = FakeRadius(self)
        if auth or acct:
            gc['_radius_client'] = RadiusAuthorisation(gc)
        gc['_uaname'] = 'Sippy B2BUA (RADIUS)'
        if setup: setup(gc)
        with quiet():
            self.cmap = gc['_cmap'] = CallMap(gc)
            if proxy is not None:
                gc['_sip_proxy'] = proxy
                self.cmap.proxy = StatefulProxy(gc, proxy)
            vsim.sweep()
            self.tm = gc['_sip_tm'] = SipTransactionManager(gc, self.cmap.recvRequest)
            self.tm.nat_traversal = gc.getdefault('nat_traversal', False)
        self.reqs = []              # INVITEs handed to the application
        self.stopped = False
        vsim.sweep()
    def run(self, dt):
        end = self.sim.now + dt
        with quiet():
            while self.sim.now < end - 1e-9:
                t = self.sim.now
                self.sim.run(until = end)
                if self.sim.now >= end - 1e-9: break
                self.stopped = True     # the application left the loop by itself
                self.stop_at = self.sim.now
                if self.sim.now == t: break
                break
    def peer(self, host, name = 'peer', port = 5060, **kw):
        return peers.Peer(self.sim, (host, port), name, **kw)
    def close(self):
        self.radius.close()
        self.sim.close()
        # (each handler keeps the one before it, and so everything that ever was, alive)
        for s in (signal.SIGHUP, signal.SIGUSR2, signal.SIGPROF, signal.SIGTERM): signal.signal(s, signal.SIG_DFL)
    # -- observable sizes of the public tables
    def sizes(self):
        r = {}
        for o, n in ((self.cmap, 'ccmap'), (self.tm, 'tclient'), (self.tm, 'tserver'), (self.tm, 'req_consumers'), (self.tm, 'l1rcache'), (self.tm, 'l2rcache')):
            v = getattr(o, n, None)
            if v is not None: r[n] = len(v)
        return r
    def listing(self):
        with quiet(): return self.cmap.listActiveCalls()
    def signal(self, signum):
        """as if the signal had been delivered: through the handler the application installed"""
        signal.getsignal(signum)(signum, None)

def routing_lines(routes, credit = None, cli = None, cname = None, rng = None, verdict = 0):
    out = []
    def av(a, v):
        k = rng.randrange(3) if rng else 0
        if k == 0: out.append("%s = '%s=%s'" % (a, a, v))
        elif k == 1 and a == 'h323-ivr-in': out.append("Cisco-AVPair = '%s=%s'" % (a, v))
        else: out.append("%s = '%s=%s'" % (a, a, v))
    for r in routes: av('h323-ivr-in', 'Routing:' + r)
    if cli is not None: av('h323-ivr-in', 'CLI:' + cli)
    if cname is not None: av('h323-ivr-in', 'CNAM:' + cname)
    if credit is not None: av('h323-credit-time', credit)
    if rng and rng.random() < .3:
        # attributes that are not for routing, whatever their values look like
        for x in rng.sample(["Reply-Message = 'CNAM:decoy'", "h323-redirect-number = 'h323-redirect-number=CLI:000decoy'", "Reply-Message = 'Routing:decoy@10.0.2.250'", "Class = 'h323-credit-time=1'", "h323-return-code = 'h323-return-code=0'"], 2):
            out.insert(rng.randint(0, len(out)), x)
    out.append(str(verdict))
    return out
