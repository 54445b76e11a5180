"""C32: port allocator, RTP output and RTP input against exact models, plus real endpoints on the loopback
The real allocator, output worker, input stream and codecs are driven tick by tick and packet by packet: ports, sequence numbers, timestamps, payloads and the audio that comes out are compared with models that use an independent G.711 implementation and the G.722 library. Some cases run real endpoints with their real threads and sockets."""
import random, struct, time, socket, warnings
from array import array
import vsim
import rtpsynth.RtpProc as RP
REAL = RP.RtpProc
class Chan:
    def __init__(self, f): self.f, self.closed = f, False
    def close(self): self.closed = True
class Proc:
    """stands in for the packet clock unless a case wants the real one"""
    real = False
    last = None
    def __new__(cls): return REAL() if cls.real else object.__new__(cls)
    def create_channel(self, proc_in):
        Proc.last = Chan(proc_in)
        return Proc.last
    def shutdown(self): pass
RP.RtpProc = Proc
from sippy.Network_server import RTP_port_allocator, PortAllocationError
from sippy.Rtp.OutputWorker import RTPOutputWorker
from sippy.Rtp.Params import RTPParams
from sippy.Rtp.Conf import RTPConf
from sippy.Rtp.EPoint import RTPEPoint
from sippy.Rtp.Codecs.G711 import G711Codec
from sippy.Rtp.Codecs.G722 import G722Codec
from sippy.Rtp.Core.AudioChunk import AudioChunk
from sippy.Rtp.Ingest import RTPInStream
from G722 import G722
RULE = 'seeded: port ranges (tiny to full, odd ends, single ports, empty) with enough draws to cover small ranges; output: codec x packet time x chunks of 1 sample to seconds at 8-48 kHz x ticks with and without audio x the moment of the end; input: codec x packet time x output rate x reordering, duplication, loss, garbage, sequence and timestamp wrap-around; real endpoints: both directions, foreign senders, retargeting, hold and resume. Distinct by kind and parameters.'
N = {'quick': 4000, 'thorough': 150000}
NEED = {'draws': 60000, 'ranges covered': 250, 'packets out': 50000, 'resampled chunks': 3000, 'silent periods': 10000, 'packets in': 50000, 'packets lost': 1500, 'packets reordered': 5000, 'endpoint cases': 40, 'foreign packets': 100}
CONFIRM = True

def udec(b):
    b = ~b & 255
    v = ((((b & 15) << 3) + 0x84) << (b >> 4 & 7)) - 0x84
    return -v if b & 128 else v
UDEC = [udec(b) for b in range(256)]
def tol(y): return 4 << max(0, (abs(y) + 0x84).bit_length() - 8)
def uenc(x):
    """nearest code"""
    s = 128 if x < 0 else 0
    m = min(abs(x), 32635) + 0x84
    e = m.bit_length() - 8
    return ~(s | e << 4 | (m >> e + 3) & 15) & 255

def case(seed, R, tier):
    rng = random.Random(seed)
    k = rng.random()
    if k < .2: ports(rng, R)
    elif k < .6: output(rng, R)
    elif k < .98: ingest(rng, R)
    else: endpoints(rng, R)

def ports(rng, R):
    lo = rng.choice([None, 1024, 1025, 2, 10000, 10001, 65534, 65535, rng.randrange(1, 65536)])
    hi = rng.choice([None, 65535, 65534] + ([lo, lo + 1, lo + 2, lo + 3, lo + rng.randrange(40)] if lo else []))
    if hi is not None and hi > 65535: hi = 65535
    flo, fhi = lo or 1024, 65535 if hi is None else hi
    want = set(range(flo + flo % 2, fhi + 1, 2))
    try: a = RTP_port_allocator(lo, hi)
    except AssertionError:
        R.check(not want, 'range %s-%s was refused' % (lo, hi), 'refused', '')
        R.count('empty ranges')
        return
    if not R.check(want, 'range %s-%s was accepted' % (lo, hi), 'accepted', ''): return
    small = len(want) <= 24
    n = len(want) * 40 if small else 200
    seen = set()
    for i in range(n):
        p = a(rng.randrange(len(want)))
        seen.add(p)
        R.count('draws')
        if not R.check(p in want, 'port %r for range %s-%s' % (p, lo, hi), 'port', ''): return
    if small:
        R.count('ranges covered')
        R.check(seen == want, 'ports %s of range %s-%s never came up in %d draws' % (sorted(want - seen), lo, hi, n), 'uncovered', '')
    else: R.check(len(seen) > min(100, len(want)) * .5, 'only %d ports of range %s-%s in 200 draws' % (len(seen), lo, hi), 'uncovered', '')
    try: a(len(want) + rng.randrange(1, 5))
    except PortAllocationError: pass
    else: R.fail('range %s-%s goes on for ever' % (lo, hi), 'endless', '')
    R.ev(('ports', len(want) if small else 99, flo % 2, fhi % 2), True)

def signal(rng, n):
    k = rng.random()
    if k < .3: return array('h', [rng.randrange(-32768, 32768) for _ in range(n)]), False
    a, b = rng.randrange(-30000, 30000), rng.randrange(-30000, 30000)
    return array('h', [a + (b - a) * i // max(1, n - 1) for i in range(n)]), True

def params(codec, pt = 20, sr = 8000, target = None):
    p = RTPParams(target, out_ptime = pt, out_sr = sr)
    p.codec = codec
    return p

def output(rng, R):
    codec = rng.choice([G711Codec, G711Codec, G722Codec])
    pt = rng.choice([10, 20, 20, 30, 40, 60])
    w = RTPOutputWorker(params(codec, pt))
    try: output1(rng, R, codec, pt, w)
    finally:
        w.end()
        w.join()
    R.check(Proc.last.closed, 'the packet clock was not released', 'release', '')

def output1(rng, R, codec, pt, w):
    out = []
    w.set_pkt_send_f(out.append)
    w.start()
    f = Proc.last.f
    size = 8 * pt
    g722 = G722(8000, 64000, use_numpy = False) if codec is G722Codec else None
    # the model: packets due = [(samples, exact)]
    due, tick, now, dl = [], 0, 10**9, 0
    started, pending, frames = False, [], 0
    sent = []                     # (tick number, packet)
    handed, log = [], []
    ended = None
    nt = rng.randrange(10, 120)
    burst = rng.random() < .3
    endat = rng.randrange(5, nt) if rng.random() < .3 else None
    i, idle = -1, 0
    while i < nt or (ended is None and idle < 4 and i < 9999):
        i += 1
        if i < nt - 20 and rng.random() < (.1 if burst else .4):
            for _ in range(rng.choice([1, 1, 2, 5])):
                n = rng.choice([1, rng.randrange(1, 400), size, size * 2, 160, rng.randrange(1, 3000)])
                sr = rng.choice([8000, 8000, 8000, 16000, 24000, 48000, 11025, 44100])
                x, smooth = signal(rng, n)
                keep = array('h', x)
                w.soundout(AudioChunk(x, sr))
                handed.append((keep, sr, smooth))
                log.append((i, n, sr))
                frames += n
                if sr != 8000: R.count('resampled chunks')
        if endat == i:
            w.end()
            ended = i
        b = len(out)
        try: r = f(now, dl)
        except Exception as e:
            R.fail('the packet clock broke: %r' % e, 'broke', str(log)); return
        if ended is None:
            if not R.check(r is not None and r == (dl or now) + pt * 1000000, 'the next packet is due at %r, not %r' % (r, (dl or now) + pt * 1000000), 'due', str(log)): return
            if not R.check(len(out) - b <= 1, '%d packets in one packet time' % (len(out) - b), 'several', str(log)): return
        else:
            R.check(r is None and len(out) == b, 'sending goes on after the end', 'after end', str(log))
            break
        for p in out[b:]: sent.append((i, bytes(p)))
        idle = idle + 1 if len(out) == b else 0
        if idle: R.count('silent periods')
        dl = r
        now = dl + rng.choice([0, 0, 1000, 5000000])
    # what was sent
    R.count('packets out', len(sent))
    det = lambda: dict(log = log, pt = pt, codec = codec.__name__, sent = [(t, p[:12].hex(), len(p)) for t, p in sent][:60])
    first = None
    for n, (t, p) in enumerate(sent):
        if not R.check(len(p) == 12 + size and p[0] == 0x80, 'a packet of %d bytes starting %02x' % (len(p), p[0]), 'packet', det): return
        _, mpt, seq, ts, ssrc = struct.unpack('!BBHII', p[:12])
        R.check(mpt & 127 == (9 if g722 else 0), 'payload type %d' % (mpt & 127), 'type', det)
        if n:
            if not R.check(ssrc == first[2] and seq == (first[0] + n) & 65535, 'packet %d has number %d and source %x; the first had %d and %x' % (n, seq, ssrc, first[0], first[2]), 'sequence', det): return
            if not R.check(ts == (first[1] + (t - sent[0][0]) * size) & 0xffffffff, 'packet %d in period %d (first %d) has timestamp first+%d' % (n, t, sent[0][0], (ts - first[1]) & 0xffffffff), 'timestamp', det): return
        else: first = (seq, ts, ssrc)
    got = b''.join(p[12:] for t, p in sent)
    pos, enc = 0, array('h')
    complete = ended is None
    for x, sr, smooth in handed:
        if sr == 8000: lens = [len(x)]
        else:
            z = len(x) * 8000 / sr
            lens = [max(1, int(z))] if z == int(z) or z < 1 else [int(z), int(z) + 1]
        pads = {(l + size - 1) // size * size for l in lens}
        if pos >= len(got):
            if complete: R.check(0 in pads, 'a chunk of %d samples at %d Hz was not sent' % (len(x), sr), 'missing audio', det)
            break
        # the length a resampled chunk took: any of the possible ones that fits what follows
        L = max(pads) if len(pads) == 1 else None
        if L is None: return       # a borderline length: what follows cannot be attributed
        seg = got[pos:pos + L]
        if len(seg) < L and complete: R.fail('%d of %d bytes of a chunk were sent' % (len(seg), L), 'missing audio', det); return
        pos += L
        l = lens[-1]
        if g722:
            if sr != 8000: enc = None
            if enc is not None: enc.extend(x); enc.extend(array('h', [0]) * (L - len(x)))
            continue
        for j, c in enumerate(seg):
            y = UDEC[c]
            if j >= l: want, tl = 0, 0
            elif sr == 8000: want, tl = x[j], 0
            elif smooth and j < lens[0]:
                q = min(len(x) - 1, j * sr / 8000)
                want, tl = x[int(q)], abs(x[-1] - x[0]) * (sr / 8000 + 2) / len(x) + 8
            elif j < lens[0]: continue
            else: continue
            want = max(-32635, min(32635, want))
            if abs(y - want) > tol(y) + tl + 1 and abs(y - want) > tol(want) + tl + 1:
                R.fail('sample %d of a chunk of %d at %d Hz came out as %d instead of %d' % (j, len(x), sr, y, want), 'audio', det); return
    else:
        if complete: R.check(pos == len(got), '%d bytes more than the audio handed over' % (len(got) - pos), 'extra audio', det)
    if g722 and enc is not None and len(enc):
        want = bytes(g722.encode(enc))
        if complete or len(got) <= len(want): R.check(want[:len(got)] == got, 'the G.722 payload differs from the encoded audio at byte %d' % next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), -1), 'audio', det)
    c = w.get_frm_ctrs()
    R.check(c[0] == frames and c[1] <= c[0] and (not complete or c[1] == frames), 'counted %s of %d samples' % (c, frames), 'counters', det)
    R.ev(('out', codec.__name__, pt, len(log) // 4, ended is not None, len({s for a, b, s in log})), bool(sent))

def ingest(rng, R):
    codec = rng.choice([G711Codec, G711Codec, G722Codec])
    pt, sr = rng.choice([10, 20, 20, 30, 60]), rng.choice([8000, 8000, 16000, 48000])
    got = []
    rs = RTPInStream(params(codec, pt, sr), got.append)
    size = 8 * pt
    n = rng.randrange(20, 120)
    x, smooth = signal(rng, n * size)
    g722 = G722(8000, 64000, use_numpy = False) if codec is G722Codec else None
    pay = bytes(g722.encode(x)) if g722 else bytes(map(uenc, x))
    s0, t0, ssrc = rng.choice([0, 65530, rng.randrange(65536)]), rng.choice([0, 2**32 - 500, rng.randrange(2**32)]), rng.getrandbits(32)
    pk = lambda i: struct.pack('!BBHII', 0x80, (9 if g722 else 0) | (128 if i == 0 else 0), (s0 + i) & 65535, (t0 + i * size) & 0xffffffff, ssrc) + pay[i * size:(i + 1) * size]
    loss = rng.choice([0, 0, .02, .1])
    order = [i for i in range(n) if i == 0 or rng.random() >= loss]
    lost = set(range(n)) - set(order)
    R.count('packets lost', len(lost))
    if rng.random() < .5:
        k, j = rng.choice([2, 3, 4]), 1
        while j < len(order):
            z = order[j:j + k]
            if rng.random() < .5: rng.shuffle(z); R.count('packets reordered', sum(a != b for a, b in zip(z, sorted(z))))
            order[j:j + k] = z
            j += k
    if rng.random() < .4:
        for i in list(order):
            if rng.random() < .1: order.insert(min(len(order), order.index(i) + rng.choice([1, 1, 2, 5])), i)
    sent, bad = 0, rng.random() < .3
    det = lambda: dict(codec = codec.__name__, pt = pt, rate = sr, order = order, lost = sorted(lost), s0 = s0, t0 = t0, chunks = [c.nframes for c in got])
    for m, i in enumerate(order):
        try:
            rs.rtp_received(pk(i), ('192.0.2.1', 4000), 100 + m * pt / 1000)
            if bad and rng.random() < .1: rs.rtp_received(rng.choice([b'', b'x', b'\x00' * 12, b'\x40' + b'z' * 40, b'\x80\x00\x00']), ('192.0.2.1', 4000), 100 + m * pt / 1000)
        except Exception as e:
            R.fail('reception broke: %r' % e, 'reception broke', det()); return
        R.count('packets in')
    for c in got:
        if not R.check(c.nframes == sr // 10 and c.samplerate == sr, 'a piece of %d samples at %d Hz' % (c.nframes, c.samplerate), 'piece', det): return
    total = sum(c.nframes for c in got) * 8000 // sr
    last = max(order)
    if not lost: want = (last + 1) * size // 800 * 800; ok = total == want
    else:
        # what comes after a recent loss may still be waiting for the packet that is missing
        recent = [l for l in lost if l < last]
        first = next((l for l in sorted(lost) if len(set(i for i in order if i > l)) <= 9), None)
        hi = (last + 1) * size // 800 * 800
        lo = (min(last + 1, first if first is not None else n)) * size // 800 * 800
        ok, want = lo <= total <= hi, (lo, hi)
    if not R.check(ok, '%d samples came out instead of %s' % (total, want), 'amount', det): return
    # the samples themselves
    if g722:
        if not lost and sr == 8000:
            d, ref = G722(8000, 64000, use_numpy = False), array('h')
            for i in range(0, total, 800): ref.extend(array('h', d.decode(pay[i:i + 800])))
            R.check(b''.join(c.to_bytes() for c in got) == ref.tobytes(), 'decoded G.722 differs', 'audio in', det)
    else:
        ideal = [UDEC[b] for b in pay]
        for l in lost: ideal[l * size:(l + 1) * size] = [0] * size
        f = sr // 8000
        a = array('h')
        for c in got: a.extend(c.audio)
        for j in range(0, len(a), 1):
            q = j // f
            w = ideal[q]
            if f == 1: good = a[j] == w
            else:
                z = ideal[q + 1] if q + 1 < len(ideal) and (q + 1) % 800 else w
                good = min(w, z) - 2 <= a[j] <= max(w, z) + 2
            if not good: R.fail('sample %d is %d instead of %d' % (j, a[j], w), 'audio in', det()); return
    R.ev(('in', codec.__name__, pt, sr, len(lost) // 3, order == sorted(order)), bool(got))

def endpoints(rng, R):
    R.count('endpoint cases')
    Proc.real = True
    eps, skts = [], []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            real(rng, R, eps, skts)
    finally:
        for e in eps: e.shutdown()
        for s in skts: s.close()
        time.sleep(.01)
        Proc.real = False

def wait(cond, tmo):
    end = time.monotonic() + tmo
    while time.monotonic() < end:
        if cond(): return True
        time.sleep(.005)
    return cond()

def real(rng, R, eps, skts):
    pt = rng.choice([10, 20])
    lo = rng.randrange(20000, 50000)
    hi = lo + rng.choice([9, 40, 400])
    rc = RTPConf(lo, hi)
    got = {}
    def mk(name):
        got[name] = []
        p = params(G711Codec, pt, 8000)
        e = RTPEPoint(rc, p, got[name].append)
        eps.append(e)
        port = e.rtp_params.rtp_lport
        R.check(port % 2 == 0 and lo <= port <= hi, 'port %r for range %d-%d' % (port, lo, hi), 'port', '')
        return e, ('127.0.0.1', port)
    a, aa = mk('a'); b, ba = mk('b'); c, ca = mk('c')
    R.check(len({aa, ba, ca}) == 3, 'one port twice', 'port', '')
    def point(e, t):
        p = params(G711Codec, pt, 8000, t)
        e.update(p)
    point(a, ba); point(b, aa)
    def talk(src, dst, others, v):
        n = rng.choice([800, 1600])
        before = {k: len(x) for k, x in got.items()}
        x = array('h', [v] * n)
        src.soundout(AudioChunk(x, 8000))
        # in two pieces
        src.soundout(AudioChunk(array('h', [v] * 800), 8000))
        k = n // 800 + 1
        R.check(wait(lambda: len(got[dst]) - before[dst] >= k, 5), '%d of %d pieces arrived' % (len(got[dst]) - before[dst], k), 'not received', str((aa, ba, ca, pt)))
        y = UDEC[uenc(v)]
        for ch in got[dst][before[dst]:]:
            R.check(ch.nframes == 800 and all(abs(s - y) <= 1 or s == 0 for s in ch.audio) and sum(s != y for s in ch.audio) == 0, 'something else was received: %s instead of %d' % (set(ch.audio), y), 'received', '')
        for o in others: R.check(len(got[o]) == before[o], 'audio was received by another endpoint', 'stray', '')
    talk(a, 'b', 'c', rng.randrange(100, 9000))
    talk(b, 'a', 'c', rng.randrange(-9000, -100))
    # someone else sends to a
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); skts.append(s)
    s.bind(('127.0.0.1', 0))
    n = len(got['a'])
    for i in range(20):
        s.sendto(struct.pack('!BBHII', 0x80, 0, 30000 + i, 77 + i * 160, 5) + b'\x10' * 160, aa)
        R.count('foreign packets')
    time.sleep(.08)
    wait(lambda: True, 0)
    talk(b, 'a', 'c', rng.randrange(-9000, -100))
    y = UDEC[0x10]
    R.check(not any(y in ch.audio for ch in got['a'][n:]), 'a foreign sender was heard', 'foreign', '')
    # retarget, hold, resume
    time.sleep(.25)
    point(a, ca); point(c, aa)
    talk(a, 'c', '', rng.randrange(100, 9000))
    time.sleep(.25)
    point(a, None)
    n = len(got['c'])
    R.check(a.soundout(AudioChunk(array('h', [5] * 1600), 8000)) is None, 'audio is taken while on hold', 'hold', '')
    time.sleep(.1)
    R.check(len(got['c']) == n, 'audio is sent while on hold', 'hold', '')
    point(a, ca)
    point(c, aa)
    talk(a, 'c', 'b', rng.randrange(100, 9000))
    R.ev(('endpoints', pt, hi - lo), True)
