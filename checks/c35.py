"""C35: generated media-relay commands parsed and formatted again, compared field by field with what was written
The monitor keeps the fields each command was composed from, and compares the parsed object and an independently tokenised form of the formatted string with them; statistics replies are added up beside the accumulator under test. Option letters that are not followed by an argument are compared as a multiset, since formatting may reorder options. Addresses in options are IPv4 or bracketed IPv6."""
import random, re
import siplite
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd, UpdateLookupOpts, Rtpp_stats
RULE = 'seeded commands of every type (U, L, D, P, S, R, C, Q, G, V, I, X) with all combinations of remote and local address options (IPv4, IPv6), codecs, flag options with and without numbers in any order, tags, notification socket and tag, subcommands, upper and lower case, and extra white space; copies re-parsed twice; tags swapped; statistics blocks. Distinct by type and set of fields present.'
N = {'quick': 60000, 'thorough': 3000000}
NEED = {'U': 5000, 'L': 5000, 'D': 2000, 'P': 2000, 'S': 2000, 'R': 2000, 'C': 2000, 'Q': 2000, 'G': 2000, 'other': 2000, 'ipv6 option': 3000, 'notify': 3000, 'subargs': 3000, 'swapped': 2000, 'local after flags': 2000, 'stats': 2000, 'codecs': 3000}
W = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'

def word(rng, extra = '-._@%;'):
    return rng.choice(W) + ''.join(rng.choice(W + extra) for _ in range(rng.randint(0, 20)))
def ip4(rng): return '.'.join(str(rng.randint(0, 255)) for _ in range(4))
def ip6(rng): return ':'.join('%x' % rng.randint(0, 65535) for _ in range(8)) if rng.random() < .5 else '2001:db8::%x' % rng.randint(0, 65535)

FLAGS = ('a', 'e', 'i', 's', 'w', 'S', 'W', 'N', 'y', 'd', 'k', 'b', '6', 'z%d', 't%d', 'p%d', 'v')

def tok_opts(s):
    """Independent reading of an option string: addresses, codecs, and the multiset of flags with their numbers."""
    res = {'R': None, 'L': None, 'c': None, 'flags': []}
    while s:
        m = re.match(r'([RL])(\[[0-9a-fA-F:.]+\]|[0-9.]+)', s)
        if m: res[m.group(1)] = m.group(2)
        else:
            m = re.match(r'c([0-9]+(?:,[0-9]+)*)', s)
            if m: res['c'] = [int(x) for x in m.group(1).split(',')]
            else:
                m = re.match(r'6|[A-Za-z][0-9]*', s)
                if m is None: return None
                res['flags'].append(m.group(0))
        s = s[m.end():]
    res['flags'].sort()
    return res

def case(seed, R, tier):
    rng = random.Random(seed)
    if rng.random() < .06: return stats(rng, R)
    typ = rng.choice('UUUULLLLDPSRCQGO')
    sp = lambda: ' ' if rng.random() < .93 else ' ' * rng.randint(2, 3)
    t = typ if rng.random() < .9 else typ.lower()
    cid, ft, tt = word(rng) + '@' + ip4(rng), word(rng), word(rng)
    R.count(typ if typ != 'O' else 'other')
    if typ in 'UL': return upd(rng, R, typ, t, sp, cid, ft, tt)
    o = rng.choice(['', '', 'w', 'v', 'a1'])
    if typ == 'O':
        body = rng.choice(['V', 'VF 20081224', 'VF %d' % rng.randint(1, 10 ** 8), 'I', 'Ib', 'X'])
        c = Rtp_proxy_cmd(body)
        det = {'command': body, 'formatted': str(c)}
        R.check(str(c) == body and c.type == body[0], 'a command came out different: %r -> %r' % (body, str(c)), 'other', det)
        R.check(str(Rtp_proxy_cmd(str(c))) == str(c), 'formatting is not a fixed point', 'fixed point', det)
        R.ev(('O', body[:2]))
        return
    if typ == 'G':
        names = rng.sample(['nsess_created', 'nsess_destroyed', 'total_duration', 'npkts_rcvd', 'ncmds_rcvd'], rng.randint(0, 4))
        o = rng.choice(['', 'v'])
        want = ['G' + o] + names
        body = sp().join([t + o] + names)
    else:
        args = {'D': [ft], 'P': [word(rng), rng.choice(['0,8,18', '0', 'session']), ft], 'S': [ft], 'R': [ft], 'C': [word(rng, '-._/'), ft], 'Q': [ft]}[typ]
        if rng.random() < .6: args = args + [tt]
        if typ == 'P': o = str(rng.randint(1, 20)) if rng.random() < .7 else ''
        want = [typ + o, cid] + args
        body = sp().join([t + o, cid] + args)
    det = {'command': body}
    c = Rtp_proxy_cmd(body)
    f = det['formatted'] = str(c)
    R.check(f.split() == want, 'the formatted command differs: %r -> %r' % (body, f), 'plain', det)
    R.check(c.type == typ, 'the parsed type is %r' % c.type, 'type', det)
    if typ != 'G': R.check(c.call_id == cid, 'the parsed call-id is %r' % c.call_id, 'call-id', det)
    f2 = str(Rtp_proxy_cmd(f))
    R.check(f2 == f, 'formatting is not a fixed point: %r -> %r' % (f, f2), 'fixed point', det)
    R.ev((typ, o != '', len(want)))

def upd(rng, R, typ, t, sp, cid, ft, tt):
    parts = []
    flags = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
        x = rng.choice(FLAGS)
        if '%d' in x: x = x % rng.randint(0, 400)
        flags.append(x)
    parts = list(flags)
    remote = local = codecs = None
    addr = lambda: ip4(rng) if rng.random() < .75 else '[%s]' % ip6(rng)
    if rng.random() < .5:
        remote = addr()
        parts.append('R' + remote)
    if rng.random() < .5:
        local = addr()
        parts.append('L' + local)
    if rng.random() < .4:
        codecs = [rng.randint(0, 127) for _ in range(rng.randint(1, 6))]
        parts.append('c' + ','.join(str(x) for x in codecs))
        R.count('codecs')
    # a flag that is a digit cannot be told from the end of a number before it, so it comes first, as the code that makes these commands does
    rng.shuffle(parts)
    parts.sort(key = lambda x: not x[0].isdigit())
    if len(parts) > 1 and parts[1][0].isdigit(): parts = [parts[0]] + [x for x in parts[1:] if not x[0].isdigit()]
    flags = sorted(x for x in parts if not x[0] in 'RLc' or x in flags)
    opts = ''.join(parts)
    if '[' in opts: R.count('ipv6 option')
    if local and parts[0] in flags: R.count('local after flags')
    rip = ip4(rng) if rng.random() < .8 else ip6(rng)
    rport = str(rng.choice([0, 1, 5004, 65535, rng.randint(0, 65535)]))
    words = [t + opts, cid, rip, rport, ft]
    to = tt if rng.random() < .5 else None
    ns = nt = None
    if to: words.append(to)
    if rng.random() < .4:
        ns, nt = rng.choice(['tcp:%%CC_SELF%%:22223', 'unix:/var/run/x.sock', '/tmp/n']), word(rng, '%_')
        words += [ns, nt]
        R.count('notify')
    body = sp().join(words)
    sub = None
    if rng.random() < .35:
        sub = ' && '.join(rng.choice(['M0:0', 'M4:1 S', 'M4:1 A sha-256 AB:CD', 'M5:1 1 2 UDP 3']) for _ in range(rng.randint(1, 3)))
        body += ' && ' + sub
        R.count('subargs')
    det = {'command': body}
    c = Rtp_proxy_cmd(body)
    f = det['formatted'] = str(c)
    u = c.ul_opts
    R.check(c.type == typ and c.call_id == cid, 'type or call-id parsed as %r %r' % (c.type, c.call_id), 'type', det)
    for nm, got, want in (('remote address', u.remote_ip, rip), ('remote port', str(u.remote_port), rport), ('from tag', u.from_tag, ft), ('to tag', u.to_tag, to), ('notification socket', u.notify_socket, ns), ('notification tag', u.notify_tag, nt),
      ('subcommands', u.subargs, sub), ('local address option', u.local_ip, local), ('destination address option', u.destination_ip, remote), ('codecs', u.codecs, codecs)):
        R.check(got == want, 'the %s was %r and was parsed as %r' % (nm, want, got), nm, det)
    def cmp(f, w, what):
        head, _, s = f.partition(' && ')
        hw = head.split()
        R.check(hw[0][0] == typ and hw[1:] == w and (s or None) == sub, '%s differs: %r -> %r' % (what, body, f), what, det)
        o, want = tok_opts(hw[0][1:]), {'R': remote, 'L': local, 'c': codecs, 'flags': flags}
        R.check(o == want, '%s carries other options: %r -> %r (%r instead of %r)' % (what, body, f, o, want), what + ' options', det)
    cmp(f, words[1:], 'the formatted command')
    f2 = str(Rtp_proxy_cmd(f))
    R.check(f2 == f, 'formatting is not a fixed point: %r -> %r' % (f, f2), 'fixed point', det)
    if to and rng.random() < .4:
        cmp(typ + u.getstr(cid, swaptags = True), [cid, rip, rport, to, ft] + ([ns, nt] if ns else []), 'the command with its tags swapped')
        R.count('swapped')
    if rng.random() < .2:
        cmp(typ + u.getstr(cid, skipnotify = True), [cid, rip, rport, ft] + ([to] if to else []), 'the command without its notification')
    R.ev((typ, remote is not None, local is not None, codecs is not None, len(flags), to is not None, ns is not None, sub is not None))
    R.sample({'command': body, 'formatted': f})

def stats(rng, R):
    names = rng.sample(['nsess_created', 'nsess_destroyed', 'nsess_timeout', 'nsess_complete', 'total_duration', 'npkts_rcvd', 'npkts_relayed', 'ncmds_rcvd'], rng.randint(1, 8))
    def one():
        st, tot = Rtpp_stats(names), dict((n, 0) for n in names)
        log = []
        for _ in range(rng.randint(0, 5)):
            vals = dict((n, rng.randint(0, 10 ** 9) if n != 'total_duration' else rng.randint(0, 10 ** 6) / 4) for n in names)
            for n in names: tot[n] += vals[n]
            s = ' '.join(('%.2f' if n == 'total_duration' else '%d') % vals[n] for n in names)
            log.append(s)
            st.parseAndAdd(s)
        return st, tot, log
    a, ta, la = one()
    b, tb, lb = one()
    R.count('stats')
    det = {'names': names, 'replies a': la, 'replies b': lb}
    def chk(st, tot, what):
        st.verbose = False
        w = str(st).split()
        R.check(len(w) == len(names) and all(float(x) == tot[n] for x, n in zip(w, names)), '%s: statistics are %r, not %r' % (what, str(st), tot), 'stats', det)
        st.verbose = True
        R.check(str(st).split() == ['%s=%s' % (n, x) for n, x in zip(names, w)], '%s: verbose statistics are %r' % (what, str(st)), 'stats', det)
    chk(a, ta, 'added up')
    chk(b, tb, 'added up')
    a += b
    chk(a, dict((n, ta[n] + tb[n]) for n in names), 'two accumulators added')
    chk(b, tb, 'after being added to another')
    R.ev(('stats', len(names), len(la)))
