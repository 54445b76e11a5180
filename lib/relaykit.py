"""A media relay for a simulated world."""
from rtppworld import Relay, Rtp_proxy_client

def add(w):
    r = Relay(w.sim)
    c = Rtp_proxy_client(w.gc, spath = 'udp:10.9.0.1:22222')
    w.gc['_rtp_proxy_clients'] = [c]
    w.run(2)
    return r
