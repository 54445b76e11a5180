"""The part of vsim.Sim the scripted peers need, over real UDP sockets and real time"""
import socket, select, time, heapq, random

class Timer:
    def __init__(self, f, a): self.f, self.a, self.dead = f, a, False
    def cancel(self): self.dead = True

def sa(a): return (a[0].strip('[]'), a[1])

class RealNet:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.t0 = time.monotonic()
        self.q, self.n = [], 0
        self.socks = {}             # (host, port) -> socket
        self.cbs = {}
        self.seen = []              # (t, data, source, at)
        self.tap = None
    @property
    def now(self): return time.monotonic() - self.t0
    def after(self, dt, f, *a):
        t = Timer(f, a)
        self.n += 1
        heapq.heappush(self.q, (self.now + dt, self.n, t))
        return t
    def bind(self, addr, cb):
        s = socket.socket(socket.AF_INET6 if addr[0].startswith('[') else socket.AF_INET, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        s.bind(sa(addr))
        s.setblocking(False)
        self.socks[addr], self.cbs[s] = s, (cb, addr)
    def send(self, src, dst, data):
        try: self.socks[src].sendto(data, sa(dst))
        except OSError: pass
    def step(self, limit):
        now = self.now
        while self.q and self.q[0][0] <= now:
            t = heapq.heappop(self.q)[2]
            if not t.dead: t.f(*t.a)
        d = min(limit, max(0, self.q[0][0] - self.now)) if self.q else limit
        for s in select.select(list(self.cbs), [], [], max(0, d))[0]:
            while True:
                try: data, a = s.recvfrom(65535)
                except BlockingIOError: break
                except OSError: continue
                cb, at = self.cbs[s]
                src = ('[%s]' % a[0] if ':' in a[0] else a[0], a[1])
                self.seen.append((self.now, data, src, at))
                if self.tap: self.tap(data, src, at)
                cb(data, src)
    def run(self, dt):
        end = self.now + dt
        while self.now < end: self.step(end - self.now)
    def until(self, f, limit):
        end = self.now + limit
        while not f():
            if self.now > end: return False
            self.step(.05)
        return True
    def close(self):
        for s in self.cbs: s.close()
