"""Small whole-call demonstrations on the simulated network."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import b2bworld, peers, vsim, siplite as S
from b2bworld import World, routing_lines
from siplite import response

SDP = lambda host, port = 10000, ver = 1: S.mksdp(host, port, ver, 7, (0, 8, 101))

class Demo:
    """a B2BUA, one caller, some callees (10.0.2.1, ...) and what the callees do: f(leg, msg)"""
    def __init__(self, callees, routes = None, acct = False, seed = 1, **kw):
        if routes is None: kw.update(route = '10.0.2.1', auth = False)
        self.w = World(seed, acct = acct, **kw)
        self.sim = self.w.sim
        if routes is not None: self.w.radius.on_auth = lambda q: (0.0, 0.01, routing_lines(routes))
        self.caller = self.w.peer('10.0.1.1')
        self.callees, self.legs = [], []
        for i, f in enumerate(callees):
            p = self.w.peer('10.0.2.%d' % (i + 1))
            def on_invite(leg, m, f = f):
                self.legs.append(leg)
                f(leg, m)
            p.on_invite = on_invite
            self.callees.append(p)
    def call(self, user = '1000', body = None, **kw):
        self.leg = self.caller.call(self.w.addr, user, 'alice', SDP('10.0.1.1') if body is None else body, **kw)
        return self.leg
    def after(self, dt, f, *a): self.sim.after(dt, f, *a)
    def run(self, dt): self.w.run(dt)
    def stops(self, kind = 'Stop'):
        return [q for q in self.w.radius.accts if q.get('Acct-Status-Type') == kind]

def verdict(ok, *what):
    print(*what)
    sys.exit(0 if ok else 1)
