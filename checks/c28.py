"""C28: the real start-up code on random command lines and configuration files, against an independent reading of them
main_func() of the B2BUA runs with the option parser, the configuration class and its own wiring as they are; the parts it starts (transaction manager, RADIUS client, relay clients, helper proxy, web UI, secure websockets, event loop) are replaced by recorders. A model computes from the documented options what each must be afterwards; a second start from the file written by the first must come out the same; refused settings are compared with a snapshot taken before."""
import random, os, sys, io, types, shutil, tempfile
import vsim
from vsim import quiet
import sippy.b2bua as B
from sippy.MyConfigParser import MyConfigParser, SUPPORTED_OPTIONS
from sippy.SipConf import SipConf
RULE = 'seeded starts with 0-25 settings drawn from all 38 options, as short options, long options, abbreviated long options and lines of 0-2 configuration files (with comments, blank lines, upper case, = and :), repeated and in any order, values with surrounding spaces, every spelling of a boolean, signs and separators inside strings, non-ASCII; then written out and read back; invalid values and unknown options tried on the result. Distinct by the sets of options and forms used.'
N = {'quick': 5000, 'thorough': 200000}
NEED = {'settings': 40000, 'files read': 4000, 'written and read': 2500, 'refused': 30000, 'repeated': 4000, 'short': 8000, 'abbreviated': 2000, 'refused start': 300, 'ui': 400, 'wss': 200, 'proxy': 500, 'relays': 1300}
BOOL = {'on': 1, 'off': 0, 'yes': 1, 'no': 0, 'true': 1, 'false': 0, '1': 1, '0': 0}
OPTS = {'B': 'acct_enable precise_acct auth_enable digest_auth foreground hide_call_id start_acct_enable digest_auth_only nat_traversal ui'.split(),
  'I': 'alive_acct_int keepalive_ans keepalive_orig max_credit_time max_radiusclients sip_port xmpp_b2bua_id'.split(),
  'S': 'b2bua_socket logfile pidfile radiusclient.conf sip_address static_route static_tr_in static_tr_out allowed_pts pass_headers accept_ips rtp_proxy_clients sip_proxy wss_socket pre_auth_proc uiparams'.split()}
TYPE = dict((o, t) for t, os_ in OPTS.items() for o in os_)
SHORT = {'l': 'sip_address', 'p': 'sip_port', 'P': 'pidfile', 'L': 'logfile', 's': 'static_route', 'a': 'accept_ips', 't': 'static_tr_in', 'T': 'static_tr_out', 'm': 'max_credit_time', 'F': 'allowed_pts', 'R': 'radiusclient.conf', 'x': 'pre_auth_proc', 'c': 'b2bua_socket', 'M': 'max_radiusclients'}
LONG = sorted(TYPE) + ['config']

class Rec: pass
rec = None
tmp = None

def worker_init():
    global tmp
    tmp = tempfile.mkdtemp(prefix = 'c28-')
    import atexit
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(tmp, True))
    def mk(name):
        class Stub:
            def __init__(self, *a, **kw):
                rec.made.append((name, a, kw))
                if name == 'tm': rec.gc, rec.tm = a[0], self
            def __getattr__(self, n):
                if n.startswith('__'): raise AttributeError(n)
                return lambda *a, **kw: None
        Stub.__name__ = name
        return Stub
    B.SipLogger, B.RadiusAuthorisation, B.CallMap, B.B2BSimpleAPI, B.Rtp_proxy_client = mk('logger'), mk('radius'), mk('cmap'), mk('cli'), mk('relay')
    B.StatefulProxy, B.SipTransactionManager, B.Wss_server, B.Signal = mk('proxy'), mk('tm'), mk('wss'), mk('signal')
    B.Wss_server_opts = mk('wssopts')
    class Loop:
        def loop(self, *a): rec.looped = True
    B.ED2 = Loop()
    B.daemonize = lambda logfile = None, **kw: rec.made.append(('daemonize', (logfile,), kw))
    def op(path, mode = 'r', *a, **kw):
        if str(path).startswith(tmp): return open(path, mode, *a, **kw)
        rec.opened.append((path, mode))
        return io.StringIO()
    B.open = op
    m = types.ModuleType('sippy.UI.Controller')
    m.UIController = mk('ui')
    sys.modules['sippy.UI.Controller'] = m

def start(argv):
    """(outcome, record)"""
    global rec
    rec = Rec()
    rec.made, rec.opened, rec.gc, rec.tm, rec.looped = [], [], None, None, False
    sv = sys.argv, sys.__stderr__
    sys.argv = ['b2bua.py'] + argv
    sys.__stderr__ = io.StringIO()
    try:
        with quiet():
            try: B.main_func()
            except SystemExit as e: return 'exit', rec
            except (ValueError, KeyError) as e: return 'refused', rec
        return 'ok', rec
    finally: sys.argv, sys.__stderr__ = sv

def pad(rng, v): return rng.choice(['', '', '', ' ', '\t', '  ']) + v + rng.choice(['', '', '', ' ', '\t'])

def value(rng, o):
    t = TYPE[o]
    if t == 'B':
        v = rng.choice(list(BOOL))
        return rng.choice([v, v.upper(), v.title()]), bool(BOOL[v])
    if t == 'I':
        n = rng.choice([0, 1, 2, 5, 32, 5060, 65535, rng.randrange(1, 65536)])
        if o in ('sip_port', 'max_credit_time') and n == 0: n = 1
        if o == 'alive_acct_int' and rng.random() < .1: n = -n
        if o == 'max_credit_time' and rng.random() < .2: n = 10 ** 9
        return rng.choice(['%d', '%d', '%d', '+%d' if n >= 0 else '%d', '%07d']) % n, n
    if o == 'sip_address': v = rng.choice(['*', '0.0.0.0', '::', '10.1.2.3', '2001:db8::1', 'sip.example.com'])
    elif o == 'static_route': v = rng.choice(['10.0.0.%d', '10.0.0.%d:5070', 'x@10.0.0.%d;credit-time=90', '10.0.1.%d;expires=30;rtpp=0', '[2001:db8::%d]:5061']) % rng.randrange(1, 200)
    elif o == 'allowed_pts': v = rng.choice([',', ', ', ' , ']).join(rng.choice(['0', '8', '18', '101', '[G729/8000]', '[opus/48000/2]']) for _ in range(rng.randint(1, 5)))
    elif o == 'pass_headers': v = rng.choice([',', ', ']).join(rng.choice(['X-Foo', 'P-Asserted-Identity', 'x-bar', 'Diversion', 'Subject']) for _ in range(rng.randint(1, 4)))
    elif o == 'accept_ips': v = rng.choice([',', ', ']).join('10.%d.0.1' % rng.randrange(256) for _ in range(rng.randint(1, 4)))
    elif o == 'rtp_proxy_clients': v = rng.choice([',', ', ']).join(relay(rng) for _ in range(rng.randint(1, 3)))
    elif o == 'sip_proxy': v = rng.choice(['10.9.9.9', '10.9.9.9:5062', 'proxy.example.com:1', 'proxy.example.com'])
    elif o == 'wss_socket': v = '%s:%d:/etc/%s.pem:/etc/%s' % (rng.choice(['0.0.0.0', '10.0.0.7']), rng.randrange(1, 65536), rng.choice(['c', 'my cert']), rng.choice(['k.pem', 'k:1.pem']))
    elif o == 'pre_auth_proc': v = rng.choice(['HDR2Xattrs[X-foo-hdr]', 'VAL2Xattrs[foo=bar,baz=xxx]', 'Nop[]', 'VAL2XattrsA[a=b=c]', 'VAL2XattrsO[k=[v]]'])
    elif o == 'static_tr_in' or o == 'static_tr_out': v = rng.choice(['s/^00//', 's/^\\+//;s/^1/011/', 's|^0|=:#|', 's/a;b/%s/'])
    elif o == 'b2bua_socket': v = rng.choice(['/var/run/b2bua.sock', 'udp:127.0.0.1:9999', 'tcp:[::1]:1', '/tmp/a b.sock'])
    elif o == 'uiparams': v = rng.choice(['host=0.0.0.0;port=8080', 'a=b;c', '; x'])
    else: v = rng.choice(['/var/log/b2bua.log', '/a/b c', '#not a comment', 'x = y', '%(here)s/f', 'a:b', '[general]', 'é漢', '"quoted"', "it's", '-f', '=', 'a # b', 'a ; b', 'CaSe'])
    return v, v

def relay(rng): return rng.choice(['/var/run/rtpproxy%d.sock', 'udp:10.0.0.%d', 'udp:10.0.0.%d:22222', 'rtp.io:-m%d', 'tcp:h%d:1']) % rng.randrange(1, 100)

class Model:
    """what the documentation says the options mean"""
    def __init__(self):
        self.v = {'digest_auth': True, 'start_acct_enable': False, 'keepalive_ans': 0, 'keepalive_orig': 0, 'auth_enable': True, 'acct_enable': True, 'foreground': False, 'pidfile': '/var/run/b2bua.pid', 'logfile': '/var/log/b2bua.log', 'b2bua_socket': '/var/run/b2bua.sock'}
        self.hdrs, self.relays = None, None
    def set(self, o, v):
        if o == 'pass_headers': self.hdrs = [x.strip().lower() for x in v.split(',')]
        if o == 'rtp_proxy_clients': self.relays = [x.strip() for x in v.split(',')]
        self.v[o] = v
    def add(self, o, v):
        if o == 'pass_headers': self.hdrs = (self.hdrs or []) + [v.lower()]
        else: self.relays = (self.relays or []) + [v]
        self.v[o] = self.v[o] + ',' + v if o in self.v else v

def case(seed, R, tier):
    rng = random.Random(seed)
    global tmp
    if tmp is None: worker_init()
    m = Model()
    argv, used, forms, nfile = [], [], set(), 0
    d = os.path.join(tmp, '%d' % (seed % 1000000007))
    os.mkdir(d)
    try: body(rng, R, m, argv, used, forms, d)
    finally: shutil.rmtree(d, True)

def abbreviate(rng, o):
    c = [o[:k] for k in range(2, len(o)) if [x for x in LONG if x.startswith(o[:k])] == [o]]
    return rng.choice(c) if c else o

def body(rng, R, m, argv, used, forms, d):
    nfile = 0
    def one(o, form):
        v, val = value(rng, o)
        if o in used: R.count('repeated')
        used.append(o)
        forms.add(form)
        R.count('settings')
        if form in ('long', 'abbr') and rng.random() < .5 and not v.startswith('-'): argv.extend(['--' + (o if form == 'long' else abbreviate(rng, o)), pad(rng, v)])
        elif form in ('long', 'abbr'): argv.append('--%s=%s' % (o if form == 'long' else abbreviate(rng, o), pad(rng, v)))
        if form == 'abbr': R.count('abbreviated')
        m.set(o, val)
    for _ in range(rng.choice([0, 2, 5, 10, 25])):
        k = rng.random()
        if k < .3:
            R.count('short')
            R.count('settings')
            c = rng.choice(list('fDuHAkhr') + list(SHORT) * 2)
            forms.add(c)
            def put(x):
                if rng.random() < .5: argv.append('-%s%s' % (c, x))
                else: argv.extend(['-' + c, x])
            if c == 'f': argv.append('-f'); m.set('foreground', True)
            elif c == 'D': argv.append('-D'); m.set('digest_auth', False)
            elif c == 'u': argv.append('-u'); m.set('auth_enable', False)
            elif c == 'H': argv.append('-H'); m.set('hide_call_id', True)
            elif c == 'A':
                n = rng.randrange(3)
                put('%d' % n)
                m.set('acct_enable', n > 0); m.set('start_acct_enable', n > 1)
            elif c == 'k':
                n = rng.randrange(4)
                put('%d' % n)
                if n & 1: m.set('keepalive_ans', 32)
                if n & 2: m.set('keepalive_orig', 32)
            elif c == 'h':
                hs = [rng.choice(['X-One', 'Subject', 'x-two']) for _ in range(rng.randint(1, 3))]
                put(','.join(hs))
                for h in hs: m.add('pass_headers', h)
            elif c == 'r':
                r = relay(rng)
                put(r)
                m.add('rtp_proxy_clients', r)
            else:
                v, val = value(rng, SHORT[c])
                used.append(SHORT[c])
                put(pad(rng, v))
                m.set(SHORT[c], val)
        elif k < .85 or nfile >= 2: one(rng.choice(list(TYPE)), rng.choice(['long', 'long', 'abbr']))
        else:
            nfile += 1
            p = os.path.join(d, 'in%d.conf' % nfile)
            os_ = rng.sample(list(TYPE), rng.randrange(0, 10))
            L = rng.choice([[], ['# a comment', ''], ['; another']]) + ['[general]']
            # options set before stay set and are processed again when a file is read: the order within a file does not matter
            for o in os_:
                v, val = value(rng, o)
                if o in used: R.count('repeated')
                used.append(o)
                R.count('settings')
                forms.add('file')
                L.append((o if rng.random() < .8 else o.upper()) + rng.choice(['=', ' = ', ': ', ' :', '=  ', ' =\t']) + v + rng.choice(['', '', ' ', '\t']))
                if rng.random() < .2: L.append(rng.choice(['', '# x = y', ';pidfile=/x', '#']))
                m.set(o, val)
            with open(p, 'w') as f: f.write('\n'.join(L) + rng.choice(['', '\n', '\n\n']))
            R.count('files read')
            argv.extend(rng.choice([['-C', p], ['-C' + p], ['--config=' + p], ['--config', p]]))
    if 'sip_address' in m.v and m.v['sip_address'] is None: pass
    wpath = os.path.join(d, 'out.conf')
    write = rng.random() < .6
    bad = None
    if rng.random() < .08:
        bad = rng.choice(['--nosuch=1', '--sip_port=0', '--sip_port=65536', '-p', '--acct_enable=maybe', '--max_credit_time=0', '-A3', '-k4', '--keepalive_ans=-1', '--pre_auth_proc=foo', '-Z', '--s=1', '--max_radiusclients=ten'])
        argv.append(bad)
    elif write: argv.extend(['-W', wpath])
    det = lambda: {'argv': argv, 'files': [open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))], 'model': dict((k, repr(v)) for k, v in m.v.items())}
    out, r = start(argv)
    need_route = 'static_route' not in m.v and not m.v['auth_enable']
    if bad or need_route:
        R.count('refused start')
        R.check(out != 'ok' and not r.looped, 'the program started although it had to refuse %r' % (bad or 'no route'), 'started anyway', det)
        R.ev(('bad', bad, need_route), True)
        return
    R.check(out == 'ok' and r.looped, 'the program did not start (%s)' % out, 'did not start', det)
    if out != 'ok': return
    judge(R, m, r, det)
    gc = r.gc
    refuse(rng, R, gc, det)
    if write:
        R.count('written and read')
        cfg1 = snapshot(gc)
        out, r2 = start(['-C', wpath])
        R.check(out == 'ok', 'a configuration that was written out could not be read back (%s)' % out, 'not read back', det)
        if out == 'ok':
            judge(R, m, r2, det)
    R.ev((tuple(sorted(forms)), len(set(used))), bool(used))
    R.sample({'argv': argv[:12]})

def judge(R, m, r, det):
    gc = r.gc
    for o, t in TYPE.items():
        R.check((o in gc) == (o in m.v) and gc.has_key(o) == (o in m.v), 'the option %s is %s' % (o, 'set' if o in gc else 'not set'), 'presence', det)
        if o not in gc or o not in m.v: continue
        want = m.v[o]
        if o == 'sip_address' and want in ('*', '0.0.0.0', '::') and gc[o] == '*': want = '*'
        got = gc[o]
        R.check(type(got) is type(want) and got == want, 'the option %s is %r instead of %r' % (o, got, want), 'value', det)
        R.check(gc.getdefault(o, 'dflt') == got and gc.get(o) == got, 'two ways to ask for an option differ', 'ways', det)
    made = {}
    for n, a, kw in r.made: made.setdefault(n, []).append((a, kw))
    sa = m.v.get('sip_address')
    want = SipConf.my_address if sa in (None, '*', '0.0.0.0', '::') else sa
    R.check(gc['_sip_address'] is want or (sa and gc['_sip_address'] == want), 'the address to listen on is %r' % gc['_sip_address'], 'address', det)
    R.check(gc['_sip_port'] == m.v.get('sip_port', SipConf.my_port), 'the port to listen on is %r' % (gc['_sip_port'],), 'port', det)
    R.check(gc['_pass_headers'] == (m.hdrs or []), 'the headers to pass are %r instead of %r' % (gc['_pass_headers'], m.hdrs), 'headers', det)
    R.check(('_accept_ips' in gc) == ('accept_ips' in m.v) and ('accept_ips' not in m.v or gc['_accept_ips'] == [x.strip() for x in m.v['accept_ips'].split(',')]), 'the addresses accepted are wrong', 'accept', det)
    R.check(('_allowed_pts' in gc) == ('allowed_pts' in m.v) and ('allowed_pts' not in m.v or gc['_allowed_pts'] == [int(x) if x.isdigit() else x[1:-1] for x in [y.strip() for y in m.v['allowed_pts'].split(',')]]), 'the payload types are wrong', 'pts', det)
    relays = made.get('relay', [])
    R.check([kw.get('spath') for a, kw in relays] == (m.relays or []), 'the relays are %r instead of %r' % ([kw.get('spath') for a, kw in relays], m.relays), 'relays', det)
    if relays: R.count('relays')
    R.check(('proxy' in made) == ('sip_proxy' in m.v), 'a helper proxy is %sused' % ('' if 'proxy' in made else 'not '), 'proxy', det)
    if 'proxy' in made and 'sip_proxy' in m.v:
        R.count('proxy')
        h, _, p = m.v['sip_proxy'].partition(':')
        R.check(gc['_sip_proxy'] == (h, int(p or 5060)), 'the helper proxy is %r' % (gc['_sip_proxy'],), 'proxy', det)
    R.check(('ui' in made) == bool(m.v.get('ui')), 'the web UI was %sstarted' % ('' if 'ui' in made else 'not '), 'ui', det)
    if m.v.get('ui') is not None: R.count('ui')
    R.check(('wss' in made) == ('wss_socket' in m.v), 'secure websockets were %sstarted' % ('' if 'wss' in made else 'not '), 'wss', det)
    if 'wssopts' in made and 'wss_socket' in m.v:
        R.count('wss')
        h, p, c, k = m.v['wss_socket'].split(':', 3)
        a, kw = made['wssopts'][0]
        R.check(a[0] == (h, int(p)) and kw == {'certfile': c, 'keyfile': k}, 'secure websockets were started with %r' % ((a, kw),), 'wss', det)
    R.check(('radius' in made) == (m.v['auth_enable'] or m.v['acct_enable']), 'RADIUS is %sused' % ('' if 'radius' in made else 'not '), 'radius', det)
    R.check(bool(r.tm.nat_traversal) == bool(m.v.get('nat_traversal', False)) if not callable(r.tm.nat_traversal) else False, 'NAT traversal is %r' % (r.tm.nat_traversal,), 'nat', det)
    R.check(('_xmpp_mode' in gc) == ('xmpp_b2bua_id' in m.v), 'the XMPP mode is wrong', 'xmpp', det)
    R.check(('_static_routes' in gc) == ('static_route' in m.v), 'the static route is wrong', 'route', det)
    dm = made.get('daemonize', [])
    R.check(bool(dm) != m.v['foreground'] and (not dm or dm[0][0][0] == m.v['logfile']), 'the program runs in the %s' % ('background' if dm else 'foreground'), 'foreground', det)
    if dm: R.check((m.v['pidfile'], 'w') in r.opened, 'the PID file is another: %r' % r.opened, 'pidfile', det)

def snapshot(gc):
    s = dict((o, repr(gc[o])) for o in SUPPORTED_OPTIONS if o in gc)
    for k in ('_sip_address', '_sip_port', '_pass_headers', '_accept_ips', '_allowed_pts', '_rtp_proxy_clients', '_pre_auth_proc'):
        s[k] = repr(gc[k]) if k in gc else None
    return s

BAD = [(o, v) for o in OPTS['B'] for v in ('maybe', '', '2', 'onn')] + [(o, v) for o in OPTS['I'] for v in ('abc', '', '1.5', '0x10', '1 2')] \
  + [('keepalive_ans', '-1'), ('keepalive_orig', '-5'), ('max_credit_time', '0'), ('max_credit_time', '-3'), ('sip_port', '0'), ('sip_port', '-1'), ('sip_port', '65536'), ('allowed_pts', 'x'), ('allowed_pts', '0,8,pcmu'), ('allowed_pts', ''), ('allowed_pts', '[G729'),
     ('pre_auth_proc', 'foo'), ('pre_auth_proc', 'Nop[x'), ('pre_auth_proc', 'NoSuchThing[x]'), ('pre_auth_proc', 'VAL2Xattrs[abc]'), ('nosuch', '1'), ('SIP_port', '5060'), ('', 'x'), ('acct', 'on')]

def refuse(rng, R, gc, det):
    for o, v in rng.sample(BAD, 8):
        before = snapshot(gc)
        R.count('refused')
        try: gc.check_and_set(o, v)
        except Exception as e: ok = True
        else: ok = False
        R.check(ok, 'the setting %s=%r was accepted' % (o, v), 'accepted', det)
        R.check(snapshot(gc) == before, 'a refused setting %s=%r changed the configuration' % (o, v), 'changed by a refused setting', det)
