"""The real transaction manager alone on the simulated network."""
import vsim
from vsim import Sim, Link, clock, quiet, Internal
import siplite as S
from sippy.SipTransactionManager import SipTransactionManager
from sippy.Udp_server import Udp_server_opts
from sippy.SipRequest import SipRequest
from sippy.SipURL import SipURL
from sippy.SipTo import SipTo
from sippy.SipFrom import SipFrom
from sippy.SipAddress import SipAddress
from sippy.SipCallId import SipCallId
from sippy.SipExpires import SipExpires
from sippy.SipContact import SipContact
from sippy.SipHeader import SipHeader
from sippy.SipRoute import SipRoute
from sippy.MsgBody import MsgBody
from sippy.MyConfigParser import MyConfigParser
SipTransactionManager.model_udp_server = (vsim.SimUdpServer, Udp_server_opts)
vsim.sweep()

class TmWorld:
    def __init__(self, seed, req_cb = None, addr = ('10.0.0.1', 5060), sim = None, nat = False):
        self.sim = sim or Sim(seed)
        self.addr = addr
        gc = self.gc = MyConfigParser()
        gc['_sip_address'], gc['_sip_port'] = addr
        gc['_sip_logger'] = vsim.NoLogger()
        with quiet():
            self.tm = gc['_sip_tm'] = SipTransactionManager(gc, req_cb)
        self.tm.nat_traversal = nat
        vsim.sweep()
    def run(self, dt):
        with quiet(): self.sim.run(dt)
    def close(self): self.sim.close()
    def invite(self, method, user, host, port, rng, body = None, expires = None, routes = (), callid = None, target = None, frm = 'u1', totag = None, cseq = None):
        url = SipURL(username = user, host = host, port = port)
        to = SipTo(address = SipAddress(url = SipURL(username = user, host = host), hadbrace = True))
        if totag: to.setTag(totag)
        fr = SipFrom(address = SipAddress(url = SipURL(username = frm, host = self.addr[0]), hadbrace = True))
        fr.setTag('t%x' % rng.getrandbits(48))
        kw = {}
        if expires is not None: kw['expires'] = SipExpires(number = expires)
        r = SipRequest(method = method, ruri = url, to = to, fr0m = fr, callid = SipCallId(callid or 'c%x@h' % rng.getrandbits(64)), contact = SipContact(),
                       cseq = cseq or rng.randrange(1, 99999), routes = tuple(SipRoute(x) for x in routes), target = target and (target, 'udp'), **kw)
        if body is not None: r.setBody(MsgBody(body))
        return r
