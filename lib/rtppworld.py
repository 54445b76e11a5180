"""A media relay on the simulated network, and the real UDP relay client on a simulated socket."""
import vsim
from vsim import Sim, clock
import sippy.Rtp_proxy.Client.udp as _udp
from sippy.Rtp_proxy.client import Rtp_proxy_client
import sippy.Rtp_proxy.session, sippy.Rtp_proxy.Session.webrtc

class RtppUdp(vsim.SimUdpServer):
    """the relay client's socket; a wildcard bind gets an address of this host"""
    n = 0
    def __init__(self, gc, uopts):
        if uopts.laddress is None:
            RtppUdp.n += 1
            uopts = uopts.getCopy()
            uopts.laddress = ('10.0.0.1', 20000 + RtppUdp.n % 20000)
        super().__init__(gc, uopts)
_udp.Udp_server = RtppUdp
vsim.sweep()

class Relay:
    """Answers relay commands; remembers everything it received."""
    def __init__(self, sim, addr = ('10.9.0.1', 22222), media = '10.9.0.100', caps = None):
        self.sim, self.addr, self.media = sim, addr, media
        self.caps = caps if caps is not None else dict((v, True) for v in ('20071218', '20080403', '20081224', '20090810', '20150617', '20250523'))
        self.cmds = []              # (t, cookie, command, retransmission)
        self.seen = {}              # cookie -> reply
        self.on_cmd = None          # f(relay, cookie, cmd) -> (delay, reply) | None: no reply | 'default'
        self.up = True
        self.port = 30000
        self.sessions = {}          # call-id -> {tag: port}
        self.delay = (.001, .01)
        sim.bind(addr, self.rx)
    def rx(self, data, src):
        cookie, cmd = data.decode().split(None, 1)
        rt = cookie in self.seen
        self.cmds.append((self.sim.now, cookie, cmd.strip(), rt))
        if not self.up: return
        if rt:
            if self.seen[cookie] is not None: self.sim.after(self.sim.rng.uniform(*self.delay), self.send, src, cookie, self.seen[cookie])
            return
        r = self.on_cmd(self, cookie, cmd.strip()) if self.on_cmd else 'default'
        if r == 'default': r = (self.sim.rng.uniform(*self.delay), self.default(cmd.strip()))
        self.seen[cookie] = r and r[1]
        if r is not None: self.sim.after(r[0], self.send, src, cookie, r[1])
    def send(self, dst, cookie, reply):
        if self.up: self.sim.send(self.addr, dst, '%s %s\n' % (cookie, reply))
    def default(self, cmd):
        c = cmd[0].upper()
        if c == 'V':
            w = cmd.split()
            if w[0] == 'V': return '20040107'
            return '1' if self.caps.get(w[1]) else '0'
        if c == 'I':
            return 'sessions created: %d\nactive sessions: %d\nactive streams: %d\npackets received: 10\npackets transmitted: 20' % (len(self.sessions) + 7, len(self.sessions), 2 * len(self.sessions))
        if c == 'U':
            head = cmd.split('&&')[0].split()
            s = self.sessions.setdefault(head[1], {})
            tag = head[4]
            if tag not in s:
                self.port += 2
                s[tag] = self.port
            return '%d %s' % (s[tag], self.media)
        if c == 'D':
            w = cmd.split()
            return '0' if self.sessions.pop(w[1], None) is not None else 'E8'
        return '0'
