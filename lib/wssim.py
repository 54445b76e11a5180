"""A websocket transport on the simulated network: stands in for the real server's sockets, everything above it is real."""
import vsim
from vsim import Sim
from sippy.Network_server import Network_server, Network_server_opts, Remote_address
from sippy.Time.MonoTime import MonoTime

class SimWss(Network_server):
    transport = 'wss'
    def __init__(self, w, laddr = ('10.0.0.1', 7443)):
        Network_server.__init__(self, Network_server_opts(laddr, w.tm.handleIncoming))
        self.w, self.laddr = w, laddr
        self.ids, self.addrs = {}, {}
        self.lost = []          # what was addressed to nobody
        w.sim.bind(laddr, self.rx)
        w.gc['_wss_server'] = self
    def connect(self, addr, cid):
        self.ids[addr], self.addrs[cid] = cid, addr
    def rx(self, data, src):
        ra = Remote_address(src, self.transport)
        ra.received = self.ids[src]
        self.handle_read(data.decode(), ra, MonoTime())
    def send_to(self, data, address, delayed = False):
        if not isinstance(data, bytes): data = data.encode()
        a = self.addrs.get(address[0])
        if a is None: self.lost.append((self.w.sim.now, address, data)); return
        self.w.sim.send(self.laddr, a, data)
    def addr2str(self, address): return 'wss:%s' % (address[0],)
    def join(self): pass
