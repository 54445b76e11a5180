"""C44: the SIP log against everything that was handed to it and everything that was on the wire
Two parts. The real log writer with its real thread on real files in a scratch directory: several threads write records of every size and level while the file is rotated (rename, then reopen by call or by SIGUSR1), locked by somebody else, missing, or unwritable; the files are parsed back record by record and compared with what was written, when, and with what came before and after. Whole calls on the simulated network with a recording log: one record for each datagram received and sent, in order, whole, with the peer's address and the time. The syslog writer is not run (no syslog daemon here)."""
import os, random, re, shutil, signal, tempfile, threading, time, fcntl
import vsim, scen, stress
from sippy.SipLogger import SipLogger, SIPLOG_DBUG, SIPLOG_INFO, SIPLOG_WARN, SIPLOG_ERR, SIPLOG_CRIT
from sippy.Core.EventDispatcher import ED2
RULE = 'seeded log lives (1-4 writing threads x 0-300 records of 0-20000 characters, any text, five levels, with or without time and call-id, absolute or relative time) x 0-4 rotations by call or signal x a lock held elsewhere x bursts beyond the backlog x missing directory, full disk; seeded whole-call scenarios with losses, duplicates and junk. Distinct by what happened.'
N = {'quick': 3000, 'thorough': 30000}
NEED = {'records': 100000, 'rotations': 800, 'by signal': 200, 'locked': 200, 'overflow': 50, 'overflow after a rotation': 60, 'filtered': 5000, 'relative': 100, 'late file': 60, 'full disk': 60, 'received': 12000, 'sent': 15000, 'duplicates': 300}
CPU = 60
LEVELS = ['DBUG', 'INFO', 'WARN', 'ERR', 'CRIT']
VAL = dict(zip(LEVELS, (SIPLOG_DBUG, SIPLOG_INFO, SIPLOG_WARN, SIPLOG_ERR, SIPLOG_CRIT)))

def case(seed, R, tier):
    rng = random.Random(seed)
    (wire if rng.random() < .5 else writer)(seed, rng, R)

class Rec: pass
class Hung(Exception): pass

def stamp(t, start):
    ms = int((t % 1) * 1000)
    if start is None: return time.strftime('%d %b %H:%M:%S', time.localtime(t)) + '.%03d' % ms
    t -= start
    ms = int((t % 1) * 1000)
    s = int(t)
    return '%02d:%02d:%02d.%03d' % (s // 3600, s // 60 % 60, s % 60, ms)

def text(rng, n):
    k = rng.random()
    if k < .1: return ''
    if k < .5: return 'INVITE sip:%x@10.0.0.1 SIP/2.0\r\nVia: %x\r\n\r\n' % (rng.getrandbits(40), rng.getrandbits(60)) * rng.choice([1, 1, 3])
    if k < .6: return 'x' * rng.choice([100, 5000, 20000])
    if k < .7: return ''.join(chr(rng.choice([0, 7, 10, 13, 0x7f, 0xe9, 0x416, 0x20ac, 0x1f600, 65])) for _ in range(rng.randrange(30)))
    if k < .75: return '01 Jan 00:00:00.000/GLOBAL/b2bua: B%d E%d\n' % (n, n)
    return 'message %x' % rng.getrandbits(64)

def writer(seed, rng, R):
    d = tempfile.mkdtemp(prefix = 'siplog.')
    old = signal.getsignal(signal.SIGUSR1)
    env = dict((k, os.environ.get(k)) for k in ('SIPLOG_BEND', 'SIPLOG_TFORM', 'SIPLOG_TSTART', 'SIPLOG_LVL', 'SIPLOG_LOGFILE_FILE'))
    def hung(*a): raise Hung()
    alrm = signal.signal(signal.SIGALRM, hung)
    try:
        with stress.noisy():
            with stress.Jitter(('SipLogger.py',), seed, rng.choice([0, .01, .1]), rng.choice([.0003, .002])) as j: life(seed, rng, R, d)
        R.count('delays', j.hits)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, alrm)
        signal.signal(signal.SIGUSR1, old)
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None: os.environ[k] = v
        shutil.rmtree(d, True)

def life(seed, rng, R, d):
    path = d + '/sip.log'
    mode = rng.choices(['normal', 'late', 'full'], [.8, .1, .1])[0]
    if mode == 'late': path = d + '/sub/sip.log'
    elif mode == 'full': os.symlink('/dev/full', path)
    lvl = rng.choice(LEVELS)
    rel = rng.random() < .3
    start = rng.choice([None, time.time() - rng.choice([0, 5, 100000, 400000])]) if rel else None
    os.environ.update(SIPLOG_BEND = rng.choice(['file', 'logfile', 'FILE']), SIPLOG_LVL = lvl, SIPLOG_TFORM = rng.choice(['rel', 'REL']) if rel else 'abs')
    os.environ.pop('SIPLOG_TSTART', None)
    os.environ.pop('SIPLOG_LOGFILE_FILE', None)
    if start is not None: os.environ['SIPLOG_TSTART'] = repr(start)
    if rng.random() < .5: os.environ['SIPLOG_LOGFILE_FILE'], arg = path, d + '/other.log'
    else: arg = path
    app, gcid = rng.choice(['b2bua', 'x', 'Signal::t']), rng.choice(['GLOBAL', 'abc@h', ''])
    fd0 = len(os.listdir('/proc/self/fd'))
    log = SipLogger(app, gcid, arg)
    if rel and start is None: start = log.itime
    seen, which, write = set(), [None], log.write
    def write_(*a, **kw):
        if str(a[0]).startswith('Dispatching'): seen.add(which[0])
        return write(*a, **kw)
    log.write = write_
    writers = rng.choice([1, 1, 2, 3, 4])
    plan = [[rng.choice([0, 0, 0, 0, .0002, .002]) for _ in range(rng.choice([0, 1, 5, 30, 100]))] for _ in range(writers)]
    seeds = [rng.getrandbits(60) for _ in plan]
    allrec, serial = [], iter(range(1 << 30))
    def put(r, w):
        x = Rec()
        x.w, x.n = w, next(serial)
        x.level = r.choice([None, None, None] + LEVELS)
        x.cid = r.choice([None, '%x@h' % r.getrandbits(32)])
        x.lt = r.choice([None, time.time(), time.time() - (0 if rel else 1000.5)])
        parts = ['B%d ' % x.n, text(r, x.n), 'E%d' % x.n]
        x.text = ''.join(parts)
        if r.random() < .2: parts.insert(1, 7); x.text = 'B%d 7' % x.n + ''.join(parts[2:])
        kw = {}
        if x.level: kw['level'] = VAL[x.level]
        if x.cid: kw['call_id'] = x.cid
        if x.lt: kw['ltime'] = x.lt
        x.a, x.wa = time.monotonic(), time.time()
        log.write(*parts, **kw)
        x.b = time.monotonic()
        x.due = VAL[x.level or 'INFO'] >= VAL[lvl]
        allrec.append(x)
    def run(i):
        r = random.Random(seeds[i])
        for dt in plan[i]:
            if dt: time.sleep(dt)
            put(r, i)
    ts = [threading.Thread(target = run, args = (i,), daemon = True) for i in range(writers)]
    for t in ts: t.start()
    rots, files, cur = [], [], path         # (began, returned), files in order
    locked = over = False
    bursts = 0
    own = [None]        # records the log writes about itself
    def rotate():
        if mode == 'late': os.makedirs(d + '/sub', exist_ok = True)
        end = time.monotonic() + .02
        while not os.path.lexists(path) and time.monotonic() < end: time.sleep(.001)
        # (not opened yet, perhaps: a rotation now would not be one)
        if not os.path.lexists(path): return
        if os.path.islink(path):
            os.unlink(path)
            files.append(None)
        else:
            files.append(path + '.%d' % len(rots))
            os.rename(path, files[-1])
        a = time.monotonic()
        if rng.random() < .4:
            n = len(rots)
            which[0] = n
            os.kill(os.getpid(), signal.SIGUSR1)
            stress.loop(lambda: n in seen, 20, .0005)
            own.append(n)
            R.count('by signal')
        else: log.reopen()
        rots.append((a, time.monotonic()))
        R.count('rotations')
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        k = rng.random()
        time.sleep(rng.choice([0, 0, .001, .005]))
        if k < .45 and mode == 'normal' or k < .2: rotate()
        elif k < .7 and os.path.isfile(path):
            with open(path, 'a') as f:
                fcntl.flock(f, fcntl.LOCK_EX)
                locked = True
                if rng.random() < .4:
                    over = True
                    n = rng.choice([900, 1100, 2500])
                    m = rng.choice([None, 0, 5, 300, n])
                    for l in range(n):
                        if l == m: rotate(); R.count('overflow after a rotation')
                        put(rng, -1)
                else: time.sleep(rng.choice([.001, .01]))
                fcntl.flock(f, fcntl.LOCK_UN)
            R.count('locked')
        else:
            for _ in range(rng.choice([10, 300])): put(rng, -1)
    for t in ts: t.join()
    mended = None
    if mode == 'late' and not os.path.isdir(d + '/sub'):
        time.sleep(.005)
        os.mkdir(d + '/sub')
        mended = time.monotonic()
        for _ in range(30): put(rng, -1)
        R.count('late file')
    elif mode == 'full' and os.path.islink(path):
        os.unlink(path)
        log.reopen()
        mended = time.monotonic()
        for _ in range(30): put(rng, -1)
        R.count('full disk')
    signal.setitimer(signal.ITIMER_REAL, 40)
    try: log.shutdown()
    except Hung: R.fail('the log does not shut down', 'shutdown', dict(mode = mode, over = over, rotations = len(rots)))
    signal.setitimer(signal.ITIMER_REAL, 0)
    det = lambda: {'mode': mode, 'level': lvl, 'writers': writers, 'plan': [len(p) for p in plan], 'rotations': len(rots), 'locked': locked, 'overflow': over, 'discarded': log.discarded, 'records': len(allrec), 'found': len(found)}
    found = {}
    order = []
    files.append(path)
    byn = {x.n: x for x in allrec}
    for fi, f in enumerate(files):
        if f is None or not os.path.isfile(f): continue
        s = open(f, newline = '').read()
        p = 0
        while p < len(s):
            m = re.compile(r'(\d\d \w\w\w \d\d:\d\d:\d\d\.\d\d\d|\d+:\d\d:\d\d\.\d\d\d)/(.*?)/%s: ' % re.escape(app)).match(s, p)
            if not m: R.fail('the log holds %r where a record should start' % s[p:p + 80], 'not a record', det()); return
            q = m.end()
            if re.match('(Registering|Dispatching) signal', s[q:q + 40]):
                p = s.index('\n', q) + 1
                own.pop()
                continue
            m2 = re.compile(r'B(\d+) ').match(s, q)
            x = byn.get(int(m2.group(1))) if m2 else None
            if x is None: R.fail('the log holds %r, which nobody wrote' % s[q:q + 80], 'not a record', det()); return
            if not s.startswith(x.text + '\n', q):
                R.fail('the record %r reads %r' % (x.text[:200], s[q:q + len(x.text) + 1][:200]), 'changed', det()); return
            p = q + len(x.text) + 1
            R.check(x.n not in found, 'a record is there twice', 'twice', det)
            R.check(x.due, 'a record of level %s is there, %s was asked for' % (x.level, lvl), 'level', det)
            found[x.n] = (len(order), fi)
            order.append(x)
            R.check(m.group(2) == (x.cid or gcid), 'a record of %r is filed under %r' % (x.cid or gcid, m.group(2)), 'call-id', det)
            if x.lt: R.check(m.group(1) == stamp(x.lt, start if rel else None), 'a record of %r is stamped %s' % (stamp(x.lt, start if rel else None), m.group(1)), 'time', det)
            elif not rel:
                t = time.strptime('%d ' % time.localtime(x.wa).tm_year + m.group(1)[:-4], '%Y %d %b %H:%M:%S')
                dt = time.mktime(t) - x.wa
                R.check(-1.5 <= dt < 60 or abs(dt) > 86400 * 300, 'a record is stamped %.1f s off' % dt, 'time', det)
    R.count('records', len(found))
    R.count('filtered', sum(not x.due for x in allrec))
    if rel: R.count('relative')
    missing = [x for x in allrec if x.due and x.n not in found]
    if log.discarded: R.count('overflow')
    if mode == 'normal':
        n = len(missing) + (len(own) if VAL['INFO'] >= VAL[lvl] else 0)
        R.check(n == log.discarded, '%d records are missing, %d were given up' % (n, log.discarded), 'missing', lambda: dict(det(), missing = [(x.n, x.w) for x in missing[:5]]))
        if missing:
            due = [x for x in allrec if x.due]
            R.check(over and len(due) > 1000, '%d records are missing without there having been too many' % len(missing), 'given up without need', det)
            # nothing but the oldest of a backlog is given up
            last = max(x.b for x in missing)
            R.check(sum(x.b > last for x in due) >= 900, 'a record was given up with %d after it' % sum(x.b > last for x in due), 'given up early', det)
    elif mended is not None:
        late = [x for x in missing if x.a > mended]
        R.check(len(late) <= (1 if mode == 'late' else 0), '%d records written after the file was usable again are missing' % len(late), 'not resumed', det)
    # the order: never against the order of the calls
    best = None
    for x in reversed(order):
        if best is not None and best < x.a: R.fail('a record written %.6f s later comes first' % (x.a - best), 'order', det()); break
        best = x.b if best is None else min(best, x.b)
    for i, (a, b) in enumerate(rots):
        for x in order:
            fi = found[x.n][1]
            if x.a > b and fi <= i: R.fail('a record written after the log had been told to reopen is in the old file', 'rotation', det()); break
            if x.b < a and fi > i: R.fail('a record written before the log was told to reopen is in the new file', 'rotation', det()); break
    R.ev((mode, lvl, writers, tuple(len(p) for p in plan), len(rots), locked, over, rel, bool(missing), len(allrec)), bool(allrec))
    R.sample('%s: %d records, %d found, %d rotations, %d given up' % (mode, len(allrec), len(found), len(rots), log.discarded))

class RecLog:
    def __init__(self, sim): self.sim, self.l = sim, []
    def write(self, *a, **kw): self.l.append((self.sim.now, ''.join(str(x) for x in a), kw))
    def shutdown(self, *a): pass

def wire(seed, rng, R):
    r = scen.Run(seed)
    try:
        w, sim = r.w, r.sim
        lg = w.gc['_sip_logger'] = RecLog(sim)
        rx = []
        n0 = len(sim.wire)
        orig = sim.endpoints[w.addr]
        def on_rx(data, src, *a):
            rx.append((sim.now, src, data))
            return orig(data, src, *a)
        sim.endpoints[w.addr] = on_rx
        for _ in range(rng.randrange(4)):
            def junk():
                b = rng.choice([b'\r\n\r\n', b'x' * rng.choice([31, 32, 40]), b'INVITE sip:a@b SIP/2.0\r\n\xff\xfe garbage' + b'\0' * 20, b'OPTIONS sip:\xd0\x96@10.0.0.1 SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.1.9;branch=z9hG4bK%d\r\n\r\n' % rng.randrange(99)])
                sim.send(('10.0.1.9', rng.choice([5060, 7777])), w.addr, b)
            sim.after(rng.uniform(0, 30), junk)
        r.run()
        tx = [p for p in sim.wire[n0:] if p.src == w.addr]
        got_rx = [x for x in lg.l if x[1].startswith('RECEIVED')]
        got_tx = [x for x in lg.l if x[1].startswith('SENDING')]
        det = lambda: {'rx': len(rx), 'tx': len(tx), 'got': (len(got_rx), len(got_tx))}
        exp = [(t, 'RECEIVED message from udp:%s:%d:\n' % s + d.decode(errors = 'backslashreplace')) for t, s, d in rx if len(d) >= 32]
        R.check(len(exp) == len(got_rx), '%d messages came in, %d are in the log' % (len(exp), len(got_rx)), 'received', det)
        for e, g in zip(exp, got_rx):
            if not R.check(e[1] == g[1] and e[0] == g[0], 'the message received is %r, the log says %r' % (e[1][:150], g[1][:150]), 'received', det): break
            lt = g[2].get('ltime')
            R.check(lt is None or abs(lt - (e[0] + vsim.clock.wall_off)) < 1 or r.wsteps, 'a message received at %.3f is logged at %.3f' % (e[0] + vsim.clock.wall_off, lt or 0), 'time', det)
            R.count('received')
        exp = [(p.t, 'SENDING message to udp:%s:%d:\n' % p.dst + p.data.decode()) for p in tx]
        R.check(len(exp) == len(got_tx), '%d messages went out, %d are in the log' % (len(exp), len(got_tx)), 'sent', det)
        for e, g in zip(exp, got_tx):
            if not R.check(e[1] == g[1] and e[0] == g[0], 'the message sent is %r, the log says %r' % (e[1][:150], g[1][:150]), 'sent', det): break
            R.count('sent')
        R.count('duplicates', len(rx) - len(set(d for t, s, d in rx)))
        R.ev(('wire', len(rx), len(tx)), bool(rx))
    finally: r.close()
