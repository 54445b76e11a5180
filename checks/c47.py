"""C47: the real program on real loopback sockets, driven by scripted phones, signals and kills, watched from outside
Each case starts the program itself (command line or configuration file; one address, every address, IPv6; foreground or background) in a scratch directory and plays callers and callees on real sockets. The monitor judges what the phones receive (outcomes, both legs, source address of every packet against the addresses the program gives in Via and Contact), what the process table shows (detached session, working directory, exit code, time to end), and the files (PID, log before and after a reopen, control socket). Real time: waits are generous and a finding counts only when the case fails again."""
import random, os, sys, time, subprocess, signal, socket, tempfile, shutil, ctypes, re
import siplite as S
from realnet import RealNet
from peers import Peer
RULE = 'seeded: listening address (127.x.y.z, all, [::1]) x command line, long options or configuration file x foreground or background x SIP log (none, stderr, file) x 1-6 calls (answered and ended by either side, time-limited, refused, cancelled, held) x what happens with calls up (hang-up-all, debug toggle, log rotation, control socket, second instance, kill and start again, restart request) x stop with calls up'
N = {'quick': 260, 'thorough': 3200}
NEED = {'started': 200, 'calls': 700, 'answered': 500, 'everywhere': 30, 'ipv6': 90, 'background': 60, 'config file': 40, 'hup': 8, 'usr2': 15, 'usr1': 12, 'not moved': 2, 'sip log rotated': 5, 'cli': 25, 'second': 12, 'taken': 8, 'killed': 8, 'restart asked': 8, 'stopped with calls': 80, 'source checked': 4000, 'limit': 20}
CONFIRM = True
CPU = 300
BUDGET = {'quick': 420, 'thorough': 800}
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
PATIENCE = 12

def worker_init():
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)        # what the program leaves behind becomes our child

def alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f: return f.read().rpartition(')')[2].split()[0] not in 'ZX'
    except OSError: return False

def stat(pid):
    with open('/proc/%d/stat' % pid) as f: st = f.read().rpartition(')')[2].split()
    return {'ppid': int(st[1]), 'sid': int(st[3]), 'tty': int(st[4])}

class Svc:
    """one start of the program"""
    def __init__(self, c):
        self.c = c
        self.pid = self.rc = None
        self.out = open(c.dir + '/out', 'ab')
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'SIPLOG_BEND': c.bend, 'SIPLOG_LOGFILE_FILE': c.dir + '/sip.log', 'PYTHONUNBUFFERED': '1'}
        self.t0 = time.monotonic()
        self.p = subprocess.Popen([PY, REPO + '/sippy/b2bua.py'] + c.args, env = env, cwd = c.dir, stdin = subprocess.DEVNULL, stdout = self.out, stderr = self.out)
        if not c.bg: self.pid = self.p.pid
    def find(self):
        """background: the pid the program wrote"""
        try:
            with open(self.c.dir + '/pid') as f: s = f.read()
            return int(s) if s.endswith('\n') else None
        except (OSError, ValueError): return None
    def exited(self):
        if self.rc is not None: return True
        if not self.c.bg:
            self.rc = self.p.poll()
            return self.rc is not None
        try: p, st = os.waitpid(self.pid, os.WNOHANG)
        except ChildProcessError:
            if alive(self.pid): return False
            self.rc = 'lost'
            return True
        if p: self.rc = os.waitstatus_to_exitcode(st)
        return bool(p)
    def kill(self):
        for pid in {self.p.pid, self.pid or self.p.pid}:
            if pid == self.p.pid:
                if self.p.poll() is None: self.p.kill(); self.p.wait()
            elif alive(pid):
                try: os.kill(pid, 9)
                except OSError: pass
        self.out.close()

def reap():
    while True:
        try: p, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError: return
        if not p: return

class Box: pass

def case(seed, R, tier):
    rng = random.Random(seed)
    c = Box()
    c.rng, c.R, c.tier, c.svcs, c.calls, c.net, c.note = rng, R, tier, [], [], RealNet(seed), []
    c.dir = tempfile.mkdtemp(prefix = 'c47.')
    try: body(c, rng, R)
    finally:
        for s in c.svcs: s.kill()
        for pid in leftovers(c):
            try: os.kill(pid, 9)
            except OSError: pass
        c.net.close()
        shutil.rmtree(c.dir, ignore_errors = True)
        time.sleep(.01)
        reap()

def leftovers(c):
    """processes of ours started from this case's directory"""
    me = []
    for d in os.listdir('/proc'):
        if not d.isdigit(): continue
        try:
            with open('/proc/%s/cmdline' % d, 'rb') as f: s = f.read()
        except OSError: continue
        if os.path.basename(c.dir).encode() in s: me.append(int(d))
    return me

def free(host, port):
    for fam, h in ((socket.AF_INET, host), (socket.AF_INET6, host)):
        if (':' in h) != (fam == socket.AF_INET6): continue
        s = socket.socket(fam, socket.SOCK_DGRAM)
        try: s.bind((h, port))
        except OSError: return False
        finally: s.close()
    return True

def body(c, rng, R):
    p = os.getpid()
    net = c.net
    lo = '127.%d.%d.' % (20 + (p >> 8 & 127), p & 255)
    c.port = 10000 + p % 1100 * 20 + rng.randrange(3)
    c.listen = rng.choice(['one', 'one', 'all', 'six'])
    c.bg = rng.random() < .4
    c.bend = rng.choice(['none', 'none', 'stderr', 'file'])
    if c.listen == 'all': R.count('everywhere')
    if c.bg: R.count('background')
    c.here = {'one': [(lo + '9', c.port)], 'six': [('[::1]', c.port)], 'all': [('127.0.0.1', c.port), ('[::1]', c.port)]}[c.listen]
    def host(n):
        six = c.listen == 'six' or c.listen == 'all' and rng.random() < .4
        if six: R.count('ipv6')
        return ('[::1]' if six else lo + str(n), c.port + 3 + n)
    c.callee = Peer(net, host(1), 'callee')
    c.callers = [Peer(net, host(2 + i), 'caller%d' % i) for i in range(rng.choice([1, 1, 2]))]
    for a in c.callers: a.to = next(h for h in c.here if (h[0] == '[::1]') == (a.addr[0] == '[::1]'))
    net.tap = lambda d, s, at: seen(c, d, s, at)
    c.callee.on_invite = lambda leg, m: invited(c, leg, m)
    c.limit = rng.choice([None, None, None, 1])
    opts = [('sip_port', '-p', str(c.port)), ('b2bua_socket', '-c', c.dir + '/sock'), ('static_route', '-s', '%s:%d' % c.callee.addr)]
    if c.listen == 'one': opts.append(('sip_address', '-l', lo + '9'))
    if c.listen == 'six': opts.append(('sip_address', '-l', '[::1]'))
    if c.listen == 'all' and rng.random() < .5: opts.append(('sip_address', '-l', '*'))
    if c.bg: opts += [('pidfile', '-P', c.dir + '/pid'), ('logfile', '-L', c.dir + '/log')]
    if c.limit: opts.append(('max_credit_time', '-m', str(c.limit)))
    rng.shuffle(opts)
    args = [] if c.bg else ['-f']
    how = rng.choice(['short', 'long', 'file'])
    if how == 'file':
        R.count('config file')
        c.conf = c.dir + '/conf.' + os.path.basename(c.dir)
        with open(c.conf, 'w') as f:
            f.write('[general]\n' + ''.join('%s = %s\n' % (n, v) for n, s, v in opts) + 'auth_enable = off\nacct_enable = off\n')
        args += ['-C', rng.choice([c.conf, os.path.basename(c.conf)])]
    else:
        args += ['-u', '-A', '0']
        for n, s, v in opts: args += [s, v] if how == 'short' else ['--%s=%s' % (n, v)]
    c.args = args
    for h in (['127.0.0.1', '0.0.0.0', '::'] if c.listen == 'all' else ['::1'] if c.listen == 'six' else [lo + '9']):
        if not free(h, c.port): raise RuntimeError('port %d of %s is taken' % (c.port, h))
    if rng.random() < (.25 if c.listen == 'all' else .08):
        # somebody else has the port at one of the addresses
        R.count('taken')
        h = rng.choice(c.here)
        f = socket.socket(socket.AF_INET6 if h[0] == '[::1]' else socket.AF_INET, socket.SOCK_DGRAM)
        if rng.random() < .7:       # as another program of this kind would
            f.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            f.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
        f.bind((h[0].strip('[]'), h[1]))
        fails(c, 'the port of %s is taken' % h[0])
        f.close()
    if not start(c): return
    # calls that live and end by themselves
    for _ in range(rng.choice([1, 1, 2, 3])): place(c, rng.choice(['talk', 'talk', 'refuse', 'cancel', 'hold' if c.limit else 'talk']))
    settle(c)
    # something happens with calls up
    held = [place(c, 'hold') for _ in range(rng.choice([0, 1, 1, 2]))]
    if rng.random() < .3: held.append(place(c, 'ring'))
    up(c, held)
    op = 'usr1' if c.bg and rng.random() < .3 else rng.choice(['hup', 'usr2', 'usr1', 'cli', 'second', 'killed', 'prof', 'none'])
    if op == 'usr1' and not c.bg: op = rng.choice(['cli', 'usr2', 'second'])
    c.note.append(op)
    OPS[op](c, held, rng)
    if c.dead: return
    # still serving
    if op != 'prof' or c.restarted: place(c, rng.choice(['talk', 'refuse']))
    release(c, held, rng)
    settle(c)
    # the end
    held = []
    if op != 'prof' or c.restarted: held = [place(c, 'hold') for _ in range(rng.choice([0, 1, 1, 2]))]
    up(c, held)
    if held: R.count('stopped with calls')
    stop(c, held)
    R.ev((c.listen, c.bg, c.bend, how, op, len(c.calls), c.limit), True)

# ---- the program
def start(c, again = False):
    R, net = c.R, c.net
    c.dead, c.restarted = False, getattr(c, 'restarted', False)
    if c.bg and os.path.exists(c.dir + '/pid') and not again: os.remove(c.dir + '/pid')
    old = Svc.find(c.svc) if again and c.bg else None
    s = c.svc = Svc(c)
    c.svcs.append(s)
    R.count('started')
    if not ready(c):
        R.check(False, 'the program does not answer within %d s of its start' % PATIENCE, 'no start', detail(c))
        c.dead = True
        return False
    if c.bg:
        if not net.until(lambda: s.find() not in (None, old), PATIENCE):
            R.fail('no process ID in the PID file of a background start', 'pid file', detail(c)); c.dead = True
            return False
        s.pid = s.find()
        R.check(net.until(lambda: s.p.poll() is not None, PATIENCE) and s.p.returncode == 0, 'the starting process of a background start ended with %r' % s.p.returncode, 'daemon parent', detail(c))
        if not alive(s.pid):
            R.fail('the PID file names no running process', 'pid file', detail(c)); c.dead = True
            return False
        st = stat(s.pid)
        R.check(st['sid'] not in (os.getsid(0), s.pid) and st['tty'] == 0, 'the background process is not detached: %r' % st, 'daemon session', detail(c))
        R.check(os.readlink('/proc/%d/cwd' % s.pid) == '/', 'the background process keeps the directory %s' % os.readlink('/proc/%d/cwd' % s.pid), 'daemon cwd', None)
        fds = [os.readlink('/proc/%d/fd/%d' % (s.pid, i)) for i in range(3)]
        R.check(fds == ['/dev/null', c.dir + '/log', c.dir + '/log'], 'standard streams of the background process: %r' % fds, 'daemon streams', None)
    return True

def ready(c):
    """PING until answered"""
    a = c.callers[0]
    end = c.net.now + PATIENCE
    while c.net.now < end:
        got = []
        tx = a.ooreq('PING', a.to, cb = lambda r, t: got.append(r))
        if tx.timer: tx.timer.cancel()
        if tx.tmo: tx.tmo.cancel()
        if c.net.until(lambda: got or c.svc.p.poll() not in (None, 0), .15) and got and got[0] is not None:
            c.R.check(got[0].code == 200, 'PING answered with %d' % got[0].code, 'ping', detail(c))
            return True
        if c.svc.p.poll() not in (None, 0): return False
    return False

def stop(c, held):
    R, net, s = c.R, c.net, c.svc
    t = time.monotonic()
    R.count('stop')
    os.kill(s.pid, signal.SIGTERM)
    gone = net.until(s.exited, PATIENCE)
    if not R.check(gone, 'still running %d s after the stop request' % PATIENCE, 'stop', detail(c)): return
    R.check(s.rc == 0, 'the stopped program ended with %r' % s.rc, 'exit code', detail(c))
    over(c, held, 'the stop request')
    R.check(not leftovers(c), 'processes left after the stop', 'left running', None)
    R.check(not os.path.exists(c.dir + '/sock'), 'the control socket is left after an orderly stop', 'socket left', None)
    R.check(all(free(h.strip('[]'), p) for h, p in c.here), 'the port is still taken after the stop', 'port left', None)
    if c.bg or c.bend == 'none': watch(c)

def watch(c):
    """nothing went wrong unseen: no traceback on its output"""
    for fn in ('out', 'log', 'log.1'):
        try:
            with open(c.dir + '/' + fn, errors = 'replace') as f: s = f.read()
        except OSError: continue
        if 'Traceback' in s: c.R.fail('a traceback in the output', 'traceback', s[s.index('Traceback'):][:1500])

def detail(c):
    d = 'args %s; %s; ops %s\n' % (' '.join(c.args), c.bend, c.note)
    for fn in ('out', 'log', 'log.1'):
        try:
            with open(c.dir + '/' + fn, errors = 'replace') as f: d += '%s: %s\n' % (fn, f.read()[-1200:])
        except OSError: pass
    return d

def seen(c, data, src, at):
    if len(data) < 32: return
    c.R.count('source checked')
    six = at[0] == '[::1]'
    exp = next(h for h in c.here if (h[0] == '[::1]') == six)
    if not c.R.check(src == exp, 'a packet to %s:%d comes from %s:%d, not %s:%d' % (at + src + exp), 'source', data[:600]): return
    m = S.parse(data)
    if m.method:
        h, p = S.via_host(m.vias[0])
        c.R.check((h, p or 5060) == exp, 'sent from %s:%d with Via %s:%s' % (exp + (h, p)), 'via', data[:600])
    ct = m.h('contact')
    if ct and (m.method == 'INVITE' or not m.method and 200 <= m.code < 300):
        a = S.uri_addr(S.uri_of(ct))
        c.R.check(a == exp, 'sent from %s:%d with Contact %s' % (exp + (ct,)), 'contact', data[:600])

# ---- calls
def sdp(host): 
    h = host.strip('[]')
    return ('v=0\r\no=- 1 1 IN IP%d %s\r\ns=-\r\nc=IN IP%d %s\r\nt=0 0\r\nm=audio 20000 RTP/AVP 0\r\n' % ((6, h) * 2 if ':' in h else (4, h) * 2)).encode()

def place(c, kind):
    c.R.count('calls')
    k = Box()
    k.kind, k.b = kind, None
    k.n = len(c.calls)
    k.a = c.rng.choice(c.callers)
    k.d, k.talk, k.who, k.code = c.rng.choice([0, .05, .2]), c.rng.choice([0, .1, .3]), c.rng.choice('ab'), c.rng.choice([486, 404, 603, 503])
    c.calls.append(k)
    k.leg = k.a.call(k.a.to, user = 'u%d' % k.n, body = sdp(k.a.addr[0]))
    return k

def invited(c, leg, m):
    k = next((k for k in c.calls if S.split_uri(m.uri)[1] == 'u%d' % k.n), None)
    if not c.R.check(k is not None and k.b is None, 'an INVITE nobody asked for at the callee: %s' % m.uri, 'conjured', m.enc()[:600]): return
    k.b = leg
    leg.itx.reply(S.response(m, 180, None, leg.ltag))
    if k.kind in ('talk', 'hold'): c.net.after(k.d, leg.answer, sdp(leg.peer.addr[0]))
    elif k.kind == 'refuse': c.net.after(k.d, leg.refuse, k.code)
    elif k.kind == 'cancel': c.net.after(k.d, k.leg.cancel)

def isup(k): return k.leg.state == 'est' and k.b is not None and k.b.state == 'est'
def isdown(k): return k.leg.state in ('ended', 'failed') and (k.b is None or k.b.state in ('ended', 'failed') )

def settle(c):
    """every call that is to end by itself does, as it should"""
    R, net = c.R, c.net
    for k in c.calls:
        if getattr(k, 'done', False): continue
        if k.kind == 'talk':
            if not R.check(net.until(lambda: isup(k) or isdown(k), PATIENCE) and k.leg.final == 200, 'call %d: no connection (%s, %r)' % (k.n, k.leg.final, k.b and k.b.state), 'no connection', detail(c)): k.done = True; continue
            R.count('answered')
            if isup(k):
                net.run(k.talk)
                if isup(k): (k.leg if k.who == 'a' else k.b).bye()
        elif k.kind == 'hold' and not c.limit: continue
        elif k.kind == 'ring': continue
        elif k.kind == 'hold':
            R.count('limit')
            if not R.check(net.until(lambda: k.leg.est_at is not None and k.b.est_at is not None, PATIENCE), 'call %d: no connection (%s)' % (k.n, k.leg.final), 'no connection', detail(c)): k.done = True; continue
            R.count('answered')
        if R.check(net.until(lambda: isdown(k), PATIENCE), 'call %d (%s) does not end: %s / %s' % (k.n, k.kind, k.leg.state, k.b and k.b.state), 'no end', detail(c)):
            if k.kind == 'refuse': R.check(k.leg.final == k.code, 'call %d: refused with %d, the caller got %s' % (k.n, k.code, k.leg.final), 'outcome', detail(c))
            if k.kind == 'cancel': R.check(k.leg.final == 487 and k.b.final == 487, 'call %d: cancelled, final answers %s / %s' % (k.n, k.leg.final, k.b.final), 'outcome', detail(c))
            if k.kind == 'hold':
                d = max(k.leg.end_at, k.b.end_at) - k.b.est_at
                R.check(k.leg.end_by == 'remote' and k.b.end_by == 'remote' and c.limit - .3 <= d <= c.limit + 5, 'call %d: limit %d s, ended by %s/%s after %.2f' % (k.n, c.limit, k.leg.end_by, k.b.end_by, d), 'limit', detail(c))
        k.done = True

def up(c, ks):
    for k in ks:
        if k.kind == 'ring': ok = c.net.until(lambda: k.b is not None and k.leg.state == 'early', PATIENCE)
        else: ok = c.net.until(lambda: isup(k) or c.limit and isdown(k) and k.leg.est_at is not None, PATIENCE)
        c.R.check(ok, 'held call %d (%s): %s / %s' % (k.n, k.kind, k.leg.state, k.b and k.b.state), 'no connection', detail(c))
        if ok and k.kind == 'hold': c.R.count('answered')

def over(c, ks, why):
    for k in ks:
        if not c.R.check(c.net.until(lambda: isdown(k), PATIENCE), 'call %d (%s) survives %s: %s / %s' % (k.n, k.kind, why, k.leg.state, k.b and k.b.state), 'survives', detail(c)): continue
        if k.kind == 'hold': c.R.check(k.leg.end_by == 'remote' and k.b.end_by == 'remote', 'call %d after %s ended by %s / %s' % (k.n, why, k.leg.end_by, k.b.end_by), 'survives', detail(c))
        else: c.R.check(k.leg.final >= 400 and k.b.final == 487, 'ringing call %d after %s: %s / %s' % (k.n, why, k.leg.final, k.b.final), 'outcome', detail(c))
        k.done = True

def release(c, ks, rng):
    """end what is still up from outside"""
    for k in ks:
        if getattr(k, 'done', False): continue
        if k.kind == 'ring': k.kind = 'cancel'; k.leg.cancel()
        elif not c.limit:
            c.R.check(isup(k), 'call %d did not stay up: %s / %s (%s)' % (k.n, k.leg.state, k.b and k.b.state, c.note), 'dropped', detail(c))
            k.kind, k.who = 'talk', rng.choice('ab')

def output(c):
    s = ''
    for fn in ('log',) if c.bg else ('out',):
        try:
            with open(c.dir + '/' + fn, errors = 'replace') as f: s += f.read()
        except OSError: pass
    return s

# ---- what happens
def hup(c, held, rng):
    c.R.count('hup')
    os.kill(c.svc.pid, signal.SIGHUP)
    if not held: c.net.until(lambda: 'disconnecting all' in output(c), 3)       # (calls made before it took effect are hung up too)
    over(c, held, 'the hang-up request')

def usr2(c, held, rng):
    c.R.count('usr2')
    n = rng.choice([1, 2])
    for _ in range(n):
        os.kill(c.svc.pid, signal.SIGUSR2)
        c.net.run(.2)
    c.R.check(c.net.until(lambda: 'debug' in output(c), PATIENCE), 'no trace of the debug switch in the output', 'no output', detail(c))

def usr1(c, held, rng):
    c.R.count('usr1')
    L, F = c.dir + '/log', c.dir + '/sip.log'
    def read(fn):
        try:
            with open(fn, errors = 'replace') as f: return f.read()
        except OSError: return ''
    moved = rng.random() < .7
    before, fbefore = read(L), read(F)
    if moved:
        os.rename(L, L + '.1')
        if c.bend == 'file': os.rename(F, F + '.1')
    else: c.R.count('not moved')
    os.kill(c.svc.pid, signal.SIGUSR1)
    if not c.R.check(c.net.until(lambda: os.path.exists(L), PATIENCE), 'no new log file after the rotation request', 'rotate', detail(c)): return
    c.net.run(.2)
    old, fold = read(L + '.1'), read(F + '.1')
    os.kill(c.svc.pid, signal.SIGUSR2)
    c.R.check(c.net.until(lambda: 'debug' in output(c), PATIENCE), 'output does not go to the new log file', 'rotate', detail(c))
    k = place(c, 'refuse')
    k.code = 486
    where = F if c.bend == 'file' else L
    if c.bend != 'none':
        c.R.count('sip log rotated')
        c.R.check(c.net.until(lambda: k.leg.callid in read(where), PATIENCE), 'the SIP log (%s) is not written to the new file after the rotation request' % c.bend, 'rotate sip', detail(c))
    c.R.check(read(L + '.1') == old and read(F + '.1') == fold, 'output still goes to the old log file', 'rotate', detail(c))
    if not moved: c.R.check(read(L).startswith(before) and read(F).startswith(fbefore), 'reopening a log file loses what it held', 'rotate loses', detail(c))

def cli(c, held, rng, n = 0):
    c.R.count('cli')
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(PATIENCE)
    try:
        s.connect(c.dir + '/sock')
        s.sendall(b'l\n')
        d = b''
        while not re.search(rb'Total: \d+\n', d):
            x = s.recv(65536)
            if not x: break
            d += x
    except OSError as e:
        c.R.fail('the control socket does not answer: %r' % e, 'control socket', detail(c)); return
    t = d.decode(errors = 'replace')
    if not c.limit:
        for k in held: c.R.check(k.leg.callid in t, 'call %d (%s) is missing in the list of calls' % (k.n, k.kind), 'call list', t)
    m = re.search(r'Total: (\d+)\n', t)
    c.R.check(m and int(m.group(1)) == t.count('\n') - 2, 'the list of calls does not match its total', 'call list', t)
    k = next((k for k in held if k.kind == 'hold'), None)
    if k and not c.limit and rng.random() < .6:
        s.sendall(('d %s\n' % k.leg.callid).encode())
        over(c, [k], 'the operator\'s command')
    s.close()

def second(c, held, rng):
    """another start on the same port fails and leaves the first alone"""
    c.R.count('second')
    fails(c, 'the first start is running')

def fails(c, why):
    def other(t):
        for n in ('sock', 'pid', 'log'): t = t.replace(c.dir + '/' + n, c.dir + '/' + n + '2')
        return t
    args = [other(a) for a in c.args]
    if '-C' in args:
        with open(c.conf) as f: t = f.read()
        with open(c.conf + '2', 'w') as f: f.write(other(t))
        args[args.index('-C') + 1] += '2'
    out = open(c.dir + '/out2', 'wb')
    # in the foreground, so that its end is seen
    p = subprocess.Popen([PY, REPO + '/sippy/b2bua.py'] + (['-f'] if c.bg else []) + args, env = {'PATH': os.environ.get('PATH', ''), 'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'SIPLOG_BEND': 'none'}, cwd = c.dir, stdin = subprocess.DEVNULL, stdout = out, stderr = out)
    ok = c.net.until(lambda: p.poll() is not None, PATIENCE)
    if not ok: p.kill(); p.wait()
    out.close()
    c.R.check(ok and p.returncode != 0, 'a start while %s %s' % (why, 'ended with 0' if ok else 'keeps running'), 'second start', open(c.dir + '/out2', errors = 'replace').read()[-800:])

def killed(c, held, rng):
    """the process dies, and is started again the same way over what it left"""
    c.R.count('killed')
    s = c.svc
    os.kill(s.pid, 9)
    c.net.until(s.exited, PATIENCE)
    for k in c.calls:
        if not getattr(k, 'done', False):
            k.done = True
            for l in (k.leg, k.b):
                if l: l.state = 'ended'
    if not start(c, True): return
    cli(c, [], rng)

def prof(c, held, rng):
    """restart request: calls stay, new ones are refused; once none is left the program starts anew"""
    c.R.count('restart asked')
    os.kill(c.svc.pid, signal.SIGPROF)
    c.net.until(lambda: 'safe restart' in output(c), PATIENCE)
    k = place(c, 'none')
    if c.net.until(lambda: k.leg.final is not None, PATIENCE): c.R.check(k.leg.final == 503 and k.b is None, 'a new call after the restart request got %s' % k.leg.final, 'restart refuses', detail(c))
    else: c.R.fail('no answer to a call after the restart request', 'restart refuses', detail(c))
    k.done = True
    if c.rng.random() < (.04 if c.tier == 'quick' else .1):
        release(c, held, rng)
        settle(c)
        c.R.count('restarted')
        old = c.svc
        pid = old.pid
        def fresh():
            got = []
            a = c.callers[0]
            j = place(c, 'refuse')
            j.code = 486
            c.net.until(lambda: j.leg.final is not None, 1)
            j.done = True
            return j.leg.final == j.code
        ok = False
        end = c.net.now + 75
        while c.net.now < end and not ok:
            c.net.run(1)
            ok = fresh()
        if c.R.check(ok, 'no calls accepted 75 s after the restart request', 'restart', detail(c)):
            c.restarted = True
            if c.bg:
                c.R.check(c.net.until(lambda: old.find() not in (None, pid), PATIENCE), 'the PID file still names the process before the restart', 'pid file', detail(c))
                old.pid, old.rc = old.find(), None
            for j in c.calls: j.done = True

def none(c, held, rng): pass
OPS = {'hup': hup, 'usr2': usr2, 'usr1': usr1, 'cli': cli, 'second': second, 'killed': killed, 'prof': prof, 'none': none}
