"""C42: websocket clients on real sockets, the real server thread, compared message by message
Several websocket clients (plain and TLS) talk to the real server at once under random thread delays, leave cleanly or abruptly at any moment, and are answered by a stand-in application that also writes to connections already gone, or by the real transaction manager. The checker compares what every client sent and got with what the application saw, in order and per connection."""
import random, os, asyncio, threading, time, ssl, warnings, logging, hashlib
warnings.simplefilter('ignore', DeprecationWarning)
import stress, siplite as S
from stress import Jitter, ED2
import websockets
from sippy.Wss_server import Wss_server, Wss_server_opts
from sippy.SipTransactionManager import SipTransactionManager
from sippy.SipLogger import SipLogger
from sippy.MyConfigParser import MyConfigParser
logging.getLogger('websockets').setLevel(logging.CRITICAL)
logging.getLogger('asyncio').setLevel(logging.CRITICAL)
RULE = 'seeded: 1-8 clients (plain or TLS) x 3-40 messages each, text and binary, 1 byte to 200 kB x 0-3 answers each, answers at once or later x leaving cleanly, abruptly, or when the server stops x failing callbacks x answers to connections gone, unknown or malformed addresses x the real transaction manager with Via hosts of every kind and malformed requests. Distinct by the interleaving of messages and answers.'
N = {'quick': 900, 'thorough': 9000}
NEED = {'clients': 2500, 'received': 20000, 'answers': 20000, 'binary': 4000, 'big': 500, 'left cleanly': 700, 'left abruptly': 500, 'to the gone': 700, 'to nobody': 800, 'failed callbacks': 500, 'sip requests': 3000, 'tls': 150, 'malformed': 200, 'stayed': 700}
CONFIRM = True
CPU = 120
BUDGET = {'quick': 300, 'thorough': 800}
TLS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'tls')

def worker_init():
    c = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {c[os.getpid() % len(c)]})

def case(seed, R, tier):
    rng = random.Random(seed)
    ends = []
    try:
        with stress.noisy():
            with Jitter(('Wss_server.py', 'Network_server.py', 'Core/EventDispatcher.py'), seed, rng.choice([0, .01, .05, .1]), rng.choice([.0003, .001])) as j:
                log = body(R, rng, ends)
            R.ev(hash((j.sig, tuple(log or ()))), True)
    finally:
        for e in reversed(ends): e()

class C: pass
class NoLog:
    def write(self, *a, **k): pass

def body(R, rng, ends):
    me = threading.get_ident()
    p = os.getpid()
    host = '127.%d.%d.1' % (p >> 8 & 255, p & 255)
    tls = rng.random() < .25
    sip = rng.random() < .4
    wild = rng.random() < .1
    if tls: R.count('tls')
    got = []        # (received id, data, thread)
    who = {}        # message key -> client
    lock = threading.Lock()
    sent = {}       # connection id -> [answers in order]
    gone = []
    later = []
    if not sip:
        def cb(data, ra, srv, rtime):
            got.append((ra.received, data, threading.get_ident(), ra.transport, rtime))
            addr = (ra.received, ra.address[1])
            raw = data if isinstance(data, bytes) else data.encode()
            r = random.Random(hashlib.md5(raw).digest())
            for i in range(r.choice([0, 1, 1, 1, 2, 3])):
                rep = b'%d:' % i + raw
                if r.random() < .5: rep = rep.decode(errors = 'replace')
                if r.random() < .2: later.append((rep, addr, srv))
                else: send(srv, rep, addr)
            if r.random() < .15 and later:
                rep, a, s = later.pop(r.randrange(len(later)))
                send(s, rep, a)
            if r.random() < .1:
                R.count('to nobody')
                a = r.choice([('no.such.invalid', 5060), ('127.0.0.1', 5), ('', 0), ('00000000-0000-0000-0000-000000000000.invalid', 1)])
                srv.send_to('lost', a)
            if r.random() < .1:
                R.count('failed callbacks')
                raise r.choice([ValueError('callback'), KeyError(2)])
        def send(srv, rep, addr):
            sent.setdefault(addr[0], []).append(rep if isinstance(rep, bytes) else rep.encode())
            srv.send_to(rep, addr)
    else:
        gc = MyConfigParser()
        gc['_sip_address'], gc['_sip_port'], gc['_sip_logger'] = host, 10000 + p % 30 * 700 + rng.randrange(700), NoLog()
        def recvRequest(req, t):
            got.append((str(req.getHFBody('call-id')), None, threading.get_ident(), 'wss', None))
            resp = req.genResponse(200, 'OK')
            return (resp, None, None)
        while True:
            try: tm = SipTransactionManager(gc, recvRequest); break
            except OSError: gc['_sip_port'] += 1
        ends.append(tm.shutdown)
        def cb(data, ra, srv, rtime): tm.handleIncoming(data, ra, srv, rtime)
    while True:
        port = 10000 + p % 30 * 700 + rng.randrange(700)
        import socket
        s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try: s.bind(("0.0.0.0" if wild else host, port)); break
        except OSError: pass
        finally: s.close()
    o = Wss_server_opts(('0.0.0.0' if wild else host, port), cb, **(dict(certfile = TLS + '/cert.pem', keyfile = TLS + '/key.pem') if tls else {}))
    srv = Wss_server({}, o)
    down = []
    def stop():
        if not down: down.append(1); srv.shutdown()
    ends.append(stop)
    ctx = None
    if tls:
        ctx = ssl.create_default_context(); ctx.check_hostname = False; ctx.verify_mode = ssl.CERT_NONE
    cs = []
    nmsg = rng.choice([3, 10, 40])
    bodies = {}
    for i in range(rng.choice([1, 2, 4, 8])):
        c = C(); cs.append(c)
        R.count('clients')
        c.i, c.rx, c.n, c.up, c.err, c.closed, c.done, c.late = i, [], 0, False, None, False, False, rng.random() < .3
        c.end = rng.choice(['clean', 'clean', 'abrupt', 'stay', 'stay'])
        r = random.Random(rng.random())
        c.r, c.bad = r, set()
        c.msgs = []
        for n in range(r.randrange(1, nmsg + 1)):
            if sip:
                cid = 'c%d.%d.%d' % (i, n, r.getrandbits(40))
                bad = r.random() < .1
                if bad: c.bad.add(cid); R.count('malformed')
                via = r.choice(['x%d.invalid' % i, host, '127.0.0.1', '10.0.0.1', host + ':5060', 'x.invalid:0'])
                x = r.random()
                m = 'MESSAGE sip:a@b SIP/2.0\r\nVia: SIP/2.0/WSS %s;branch=z9hG4bK%s%s\r\nFrom: <sip:u@x>;tag=%s\r\nTo: <sip:a@b>\r\nCall-ID: %s\r\nCSeq: %d MESSAGE\r\nMax-Forwards: 70\r\nContent-Length: %s\r\n\r\n' % (
                    via, cid, r.choice(['', ';rport', ';received=10.1.1.1']), cid, cid, n + 1, '0' if not bad else '5')
                c.msgs.append((cid, m if r.random() < .7 else m.encode()))
            else:
                k = '%d.%d.%x ' % (i, n, r.getrandbits(40))
                size = r.choice([0, 20, 500, 9000, 200000]) if r.random() < .2 else r.randrange(0, 800)
                if size > 8000: R.count('big')
                if r.random() < .3: m = k.encode() + r.randbytes(size); R.count('binary')
                else: m = k + ''.join(r.choice('abc é\r\n☎') for _ in range(size))
                c.msgs.append((k, m))
    wake = []
    async def client(c):
        try:
            if c.late: await asyncio.sleep(c.r.random() * .05)
            w = None
            for k in range(100):
                try: w = await websockets.connect('%s://%s:%d' % ('wss' if tls else 'ws', host, port), subprotocols = ['sip'], ssl = ctx, max_size = None); break
                except ConnectionRefusedError: await asyncio.sleep(.02)
            c.up = True
            async def rx():
                try:
                    while True: c.rx.append(await w.recv())
                except websockets.ConnectionClosed: c.closed = True
            t = asyncio.create_task(rx())
            for k, m in c.msgs:
                await w.send(m); c.n += 1
                if c.r.random() < .2: await asyncio.sleep(c.r.random() * .003)
            if c.end == 'clean':
                if c.r.random() < .5: await asyncio.sleep(c.r.random() * .05)
                await w.close()
            elif c.end == 'abrupt':
                if c.r.random() < .5: await asyncio.sleep(c.r.random() * .02)
                w.transport.abort()
            c.done = True
            if c.end == 'stay':
                ev = asyncio.Event()
                wake.append((asyncio.get_running_loop(), ev))
                await ev.wait()
                w.transport.abort()
            await t
        except BaseException as e: c.err = e
        finally: c.done = True
    async def allc(): await asyncio.gather(*[client(c) for c in cs])
    def run():
        asyncio.run(allc())
    th = threading.Thread(target = run, daemon = True)
    th.start()
    key = lambda d: (d if isinstance(d, str) else d[:60].decode(errors = 'replace')).split(' ', 1)[0] + ' '
    det = lambda: dict(tls = tls, sip = sip, wild = wild, got = len(got), clients = [(c.i, c.end, c.up, c.n, len(c.msgs), len(c.rx), c.closed, repr(c.err)) for c in cs])
    def settled():
        if not all(c.done for c in cs): return False
        if sip:
            ids = {g[0] for g in got}
            return all(k in ids for c in cs for k, m in c.msgs if c.end != 'abrupt' and k not in c.bad) and all(len(c.rx) >= len(c.msgs) for c in cs if c.end == 'stay')
        ks = {key(g[1]) for g in got}
        if not all(k in ks for c in cs for k, m in c.msgs if c.end != 'abrupt'): return False
        byc = {}
        for g in got: byc.setdefault(int(key(g[1]).split('.')[0]), g[0])
        while later:
            rep, a, s = later.pop(0)
            send(s, rep, a)
        return all(len(c.rx) >= len(sent.get(byc.get(c.i), [])) for c in cs if c.end == 'stay')
    ok = stress.loop(settled, 10)
    for c in cs:
        if not R.check(c.up and c.err is None, 'client %d failed: %r' % (c.i, c.err), 'client', det): return
    # answers to those who have left
    ids = {g[0] for g in got}
    if not sip:
        byc = {}
        for g in got:
            i = int(key(g[1]).split('.')[0])
            if not R.check(byc.setdefault(i, g[0]) == g[0], 'a connection has two identities', 'identity', det): return
        if not R.check(len(set(byc.values())) == len(byc), 'two connections have one identity', 'identity', det): return
        stress.loop(lambda: all(c.closed for c in cs if c.end == 'clean'), 3)
        for c in cs:
            if c.end != 'stay' and c.i in byc:
                for k in range(2): srv.send_to(b'to the gone', (byc[c.i], 1)); R.count('to the gone')
        for c in cs:
            if c.end == 'stay' and c.i in byc: send(srv, b'last', (byc[c.i], 1))
        stress.loop(lambda: all(c.rx and c.rx[-1] == b'last' for c in cs if c.end == 'stay'), 5)
    if wild: R.check(srv.getSIPaddr() == ((host, port), 'wss') or not got, 'the server says it is at %s' % (srv.getSIPaddr(),), 'address', det)
    stop()
    R.check(not srv.is_alive(), 'the server outlives its shutdown', 'shutdown', det)
    for l, ev in list(wake):
        try: l.call_soon_threadsafe(ev.set)
        except RuntimeError: pass    # that loop has ended
    th.join(5)
    log = []
    for c in cs:
        ctr = {'clean': 'left cleanly', 'abrupt': 'left abruptly', 'stay': 'stayed'}[c.end]
        R.count(ctr)
        if sip:
            R.count('sip requests', len(c.msgs))
            seen = []
            for m in c.rx:
                t = m if isinstance(m, str) else m.decode()
                seen.append((t.split(' ', 2)[1], [l.split(':', 1)[1].strip() for l in t.split('\r\n') if l.lower().startswith('call-id:')][0]))
            want = [('400' if k in c.bad else '200', k) for k, m in c.msgs]
            # the transaction manager answers in order
            if c.end == 'stay': R.check(seen == want, 'client %d got %d answers %s to %d requests' % (c.i, len(seen), seen[:3], len(want)), 'answers', det)
            else: R.check(seen == want[:len(seen)], 'client %d got %s' % (c.i, seen[:3]), 'answers', det)
            R.count('answers', len(seen)); R.count('received', len(want))
            g = [x[0] for x in got if x[0].startswith('c%d.' % c.i)]
            good = [k for k, m in c.msgs if k not in c.bad]
            R.check(g == good[:len(g)] and (c.end == 'abrupt' or len(g) == len(good)), 'of %d requests of client %d %d arrived' % (len(c.msgs), c.i, len(g)), 'received', det)
            continue
        mine = [g for g in got if g[0] == byc.get(c.i)] if c.i in byc else []
        R.count('received', len(mine))
        if not R.check([g[1] for g in mine] == [m for k, m in c.msgs][:len(mine)], 'client %d sent %d messages, others arrived' % (c.i, len(c.msgs)), 'received', det): return log
        R.check(c.end == 'abrupt' or len(mine) == len(c.msgs), 'of %d messages of client %d %d arrived' % (len(c.msgs), c.i, len(mine)), 'received', det)
        want = sent.get(byc.get(c.i), [])
        rx = [x if isinstance(x, bytes) else x.encode() for x in c.rx]
        R.count('answers', len(rx))
        if c.end == 'stay': R.check(rx == want, 'client %d got %d answers of %d' % (c.i, len(rx), len(want)), 'answers', det)
        else: R.check(rx == want[:len(rx)], 'client %d got answers not for it or out of order' % c.i, 'answers', det)
        R.check(all(g[3] == 'wss' for g in mine) and all(g[2] == me for g in got), 'delivered on another thread', 'thread', det)
        log.append((c.i, len(mine), len(rx)))
    log.append(tuple(g[0] if sip else key(g[1]) for g in got[:60]))
    return log
