"""C33: the requests and reports of registration agents against a model of what each reply asks for
The real agents on the real transaction manager, with scripted registrars on the simulated network. For every attempt the model says from the replies that arrived what must follow, when, and with which credentials; requests, reports and their moments are compared with it, and credentials are verified by an independent digest implementation."""
import random
import vsim, siplite as S
from vsim import Link, clock, quiet
from tmworld import TmWorld, SipURL
from sippy.SipRegistrationAgent import SipRegistrationAgent
from c12 import digest, word
from c13 import mkchal, params, uq
vsim.sweep()
RULE = 'seeded batches of 1-4 agents over minutes to hours x registrars (2xx with own binding, other bindings, Expires header, neither, unreadable expiry; 1-6 challenges of either kind in a row, several in one reply, unusable ones; other failures; silence; provisional answers; late and repeated replies) x links (delay, loss, duplication) x wall-clock steps x the moment of the stop. Distinct by the sequence of replies.'
N = {'quick': 5000, 'thorough': 200000}
NEED = {'agents': 7000, 'registered': 12000, 'challenged': 3000, 'answered': 3000, 'failed': 11000, 'silent': 2500, 'stopped': 3000, 'stopped in flight': 900, 'several bindings': 4000, 'unreadable expiry': 1200, 'renewed': 18000}
BOX = ('10.0.0.1', 5060)
class A: pass

def case(seed, R, tier):
    rng = random.Random(seed)
    w = TmWorld(seed)
    try: body(rng, R, w)
    finally: w.close()

def body(rng, R, w):
    sim = w.sim
    lossy = rng.random() < .3
    sim.default_link = Link(delay = (.001, rng.choice([.01, .3])), loss = rng.choice([.05, .2]) if lossy else 0, dup = rng.choice([0, .2]) if lossy else 0)
    agents = []
    for i in range(rng.choice([1, 1, 2, 4])):
        a = A()
        a.i, a.reg = i, ('10.0.7.%d' % rng.randrange(1, 3), rng.choice([5060, 5070]))
        a.user = rng.choice(['bob%d', 'al ice%d', '+1%d']) % i
        a.cred = (word(rng).replace(':', '') or 'u', word(rng)) if rng.random() < .75 else (None, None)
        a.exp = rng.choice([180, 60, 3600, 20, None])
        a.rep, a.seen, a.log, a.arg = [], [], [], object()
        a.mood = rng.choice(['mixed', 'mixed', 'good', 'challenge', 'bad'])
        a.stop = None
        aor = SipURL(username = a.user, host = a.reg[0] if rng.random() < .5 else 'dom%d.example' % i, port = rng.choice([None, 5060, 5080]))
        a.aor = (aor.username, aor.host)
        a.contact = (a.user, '10.0.0.1', rng.choice([5060, 5062]))
        kw = {} if a.exp is None else {'exp': a.exp}
        if a.exp is None: a.exp = 180
        a.cbs = rng.random() < .9
        def ok(t, c, arg, a = a): a.rep.append(('ok', sim.now, t, c, arg, clock.wall_off))
        def bad(sl, arg, a = a): a.rep.append(('fail', sim.now, sl, arg))
        if a.cbs: kw.update(rok_cb = ok, rfail_cb = bad, cb_arg = a.arg)
        with quiet(): a.ag = SipRegistrationAgent(w.gc, aor, SipURL(username = a.user, host = '10.0.0.1', port = a.contact[2]), user = a.cred[0], passw = a.cred[1], target = (a.reg, 'udp'), **kw)
        vsim.sweep()
        a.t0 = rng.uniform(0, 5)
        agents.append(a)
    # registrars
    def rx(d, src, reg):
        m = S.parse(d)
        if m.method != 'REGISTER': return
        a = next((a for a in agents if S.split_uri(S.uri_of(m.h('contact')))[1] in (a.user, a.user.replace(' ', '%20')) and a.reg == reg), None)
        if a is None:
            R.fail('a REGISTER nobody sent', 'conjured', d); return
        for x in a.seen:
            if x.data == d:
                if x.last: sim.send(reg, src, x.last)
                return
        x = A()
        x.data, x.m, x.last, x.replies, x.arr = d, m, None, [], sim.now
        a.seen.append(x)
        k = rng.random()
        script = []
        had = m.h('authorization') or m.h('proxy-authorization')
        t = rng.choice([.001, .05, .05, 2, rng.uniform(0, 31)])
        for _ in range(rng.choice([0, 0, 0, 1])): script.append((t * rng.random(), 100, [], None))
        if a.mood == 'good': kind = 'ok'
        elif a.mood == 'challenge': kind = 'ok' if had and rng.random() < .8 else 'ch'
        elif a.mood == 'bad': kind = rng.choice(['fail', 'silent', 'ch', 'ok'])
        else: kind = rng.choice(['ok', 'ok', 'ok', 'ch', 'ch', 'fail', 'silent', 'authfailed'])
        if kind == 'ok':
            h, g = [], None
            own = '<sip:%s@%s:%d>' % (a.user.replace(' ', '%20'), a.contact[1], a.contact[2])
            if a.contact[2] == 5060 and rng.random() < .3: own = own.replace(':5060', '')
            gr = rng.choice([1, 5, 30, 60, 60, 180, 3600])
            j = rng.random()
            cs = []
            if j < .6: cs = [own + rng.choice(['', ';q=0.5', ';+sip.instance="<urn:x,y>"']) + ';expires=%d' % gr]; x.grant = gr
            elif j < .8:
                x.grant = a.exp
                if rng.random() < .6: cs = [own]
                if rng.random() < .6: h.append(('expires', str(gr))); x.grant = gr
            elif j < .9:
                cs = [own + ';expires=' + rng.choice(['abc', '', '1m', '"60"', '-'])] if rng.random() < .7 else []
                if not cs: h.append(('expires', rng.choice(['abc', 'x 5', '1.5.'])))
                x.grant = a.exp; R.count('unreadable expiry')
            else: x.grant = a.exp
            if cs and rng.random() < .4:
                R.count('several bindings')
                for _ in range(rng.choice([1, 2])): cs.insert(rng.randrange(len(cs) + 1), rng.choice(['<sip:other@10.0.0.1:5060>;expires=7', '<sip:%s@192.0.2.7>;expires=9000' % a.user.replace(' ', '%20'), '<sip:%s@10.0.0.1:5999>' % a.user.replace(' ', '%20')]))
            x.own = bool(cs)
            if cs and rng.random() < .4: h.append(('contact', ', '.join(cs)))
            else: h += [('contact', c) for c in cs]
            script.append((t, rng.choice([200, 200, 200, 202]), h, None)); x.kind = 'ok'
        elif kind == 'ch':
            code = rng.choice([401, 401, 407])
            ch = [mkchal(rng) for _ in range(rng.choice([1, 1, 1, 2, 3, 0]))]
            x.pick = next((p for tx, p in ch if p), None)
            h = [({401: 'www-authenticate', 407: 'proxy-authenticate'}[code], tx) for tx, p in ch]
            if rng.random() < .1: h.append(({407: 'www-authenticate', 401: 'proxy-authenticate'}[code], mkchal(rng)[0]))
            script.append((t, code, h, None)); x.kind, x.code = 'ch', code
        elif kind == 'authfailed': script.append((t, 200, [], 'Auth Failed')); x.kind = 'fail'
        elif kind == 'fail': script.append((t, rng.choice([403, 404, 423, 500, 503, 302, 603, 400]), [], None)); x.kind = 'fail'
        else: x.kind = 'silent'
        for tt, code, h, reason in sorted(script, key = lambda s: s[0]):
            def go(code = code, h = h, reason = reason):
                r = S.response(m, code, reason, 'rt%x' % rng.getrandbits(20), h).enc()
                if code >= 200 or not x.last: x.last = r
                x.replies.append((code, r))
                sim.send(reg, src, r)
                for _ in range(rng.choice([0, 0, 0, 1, 2])): sim.after(rng.choice([.01, 1, 20]), sim.send, reg, src, r)
            sim.after(tt, go)
    for reg in set(a.reg for a in agents): sim.bind(reg, lambda d, s, reg = reg: rx(d, s, reg))
    for a in agents:
        sim.after(a.t0, a.ag.doregister)
        if rng.random() < .5:
            def st(a = a):
                a.stop = sim.now
                a.ag.stopregister()
            sim.after(a.t0 + rng.choice([rng.uniform(0, 2), rng.uniform(0, 70), rng.uniform(0, 600)]), st)
    w.steps = rng.choice([0, 0, 1, 3])
    for _ in range(w.steps): sim.after(rng.uniform(0, 300), sim.wall_step, rng.choice([-5000, 4000, 30]))
    tend = sim.now + rng.choice([120, 400, 900])
    w.run(tend - sim.now)
    T = lambda t: round(t - sim.t0, 3)
    for a in agents: judge(R, w, a, tend, T, lossy)
    R.sample('%d agents: %s' % (len(agents), [[x.kind for x in a.seen][:12] for a in agents]))

def judge(R, w, a, tend, T, lossy):
    sim = w.sim
    R.count('agents')
    det = lambda: dict(exp = a.exp, cred = a.cred, stop = a.stop and T(a.stop), reports = [(r[0], T(r[1])) + tuple(map(str, r[2:])) for r in a.rep], attempts = [(T(x.arr), x.kind, getattr(x, 'grant', None), x.data, [r for c, r in x.replies]) for x in a.seen][:12])
    # requests in the order they were first sent
    txs, known = [], {}
    for p in sim.wire:
        if p.src == BOX and p.dst == a.reg and p.data.startswith(b'REGISTER ') and S.split_uri(S.uri_of(p.msg.h('contact')))[1] in (a.user, a.user.replace(' ', '%20')):
            if p.data not in known:
                known[p.data] = p
                txs.append(p)
    R.check(txs and abs(txs[0].t - sim.t0 - a.t0) < .001 if a.stop is None or a.stop > sim.t0 + a.t0 else not txs, 'the first REGISTER was sent at %s instead of %s' % (txs and T(txs[0].t), a.t0), 'first', det)
    if not txs: return
    nrep, cseq, tries = 0, None, 0
    callid, ftag = txs[0].msg.callid, S.tagof(txs[0].msg.h('from'))
    branches = set()
    due = txs[0].t
    want_auth = None
    sig = []
    if a.stop is not None: R.count('stopped')
    for n, p in enumerate(txs):
        m = p.msg
        # form
        R.check(m.uri in ('sip:%s' % a.aor[1], 'sip:%s:5060' % a.aor[1], 'sip:%s:5080' % a.aor[1]), 'registers with %r' % m.uri, 'uri', det)
        R.check(m.callid == callid and S.tagof(m.h('from')) == ftag and S.tagof(m.h('to')) is None, 'another identity', 'identity', det)
        for hn in ('from', 'to'):
            u = S.split_uri(S.uri_of(m.h(hn)))
            R.check(u[1].replace('%20', ' ') == a.aor[0] and a.aor[1] in m.h(hn), '%s is %r' % (hn, m.h(hn)), 'aor', det)
        c = S.split_uri(S.uri_of(m.h('contact')))
        R.check(S.param(m.h('contact'), 'expires') == str(a.exp) and len(m.hs('contact')) == 1, 'the binding asked for is %r' % m.h('contact'), 'contact', det)
        R.check(S.uri_addr(S.uri_of(m.h('contact'))) == a.contact[1:], 'the binding asked for is %r' % m.h('contact'), 'contact', det)
        if cseq is not None: R.check(m.cseq[0] > cseq, 'CSeq %d after %d' % (m.cseq[0], cseq), 'cseq', det)
        cseq = m.cseq[0]
        R.check(m.branch not in branches, 'a branch was used again', 'branch', det)
        branches.add(m.branch)
        # moment
        R.check(abs(p.t - due) < .001, 'a REGISTER was sent at %s instead of %s' % (T(p.t), T(due)), 'moment', det)
        R.check(a.stop is None or p.t <= a.stop, 'a REGISTER was sent after the stop', 'after stop', det)
        if n and not want_auth: R.count('renewed')
        # credentials
        if want_auth:
            hn, ch = want_auth
            vs = m.hs(hn)
            R.count('answered')
            R.check(len(vs) == 1, '%d %s headers' % (len(vs), hn), 'credentials', det)
            for v in vs[:1]:
                sch, q = params(v)
                if not R.check(sch.lower() == 'digest' and q is not None, 'credentials are %r' % v, 'credentials', det): continue
                q = {k: uq(x) for k, x in q.items()}
                r = q.get('response')
                R.check(q.get('username') == a.cred[0] and q.get('realm') == ch['realm'] and q.get('nonce') == ch['nonce'] and q.get('opaque') == ch['opaque'] and q.get('qop') == ch['qop'] and (q.get('algorithm') or None) == ch['alg'] and q.get('uri') == m.uri, 'credentials %r for challenge %r' % (q, ch), 'credentials', det)
                try: good = digest(q, a.cred[1], 'REGISTER', '')
                except Exception as e: good = repr(e)
                R.check(r == good, 'the response is %r instead of %r' % (r, good), 'response', det)
        want_auth = None
        # what came back, as it arrived
        seen = next((x for x in a.seen if x.data == p.data), None)
        end, fin = p.t + 32, None
        got = []
        for t, pk in sim.delivered:
            if pk.dst == BOX and pk.src == a.reg and seen and any(pk.data == r for c, r in seen.replies): got.append((t, pk.data))
        for t, d in got:
            code = int(d[8:11])
            if abs(t - end) < .02: return       # too close to tell
            if t > end: break
            if code < 200: end = max(end, t + 32) if d not in [x[1] for x in got if x[0] < t] else end
            else: fin = (t, code, d); break
        when = fin[0] if fin else end
        if when > tend - .01 or (n == len(txs) - 1 and when > tend - .01): return
        if a.stop is not None and abs(a.stop - when) < .001: return
        dead = a.stop is not None and a.stop < when
        sig.append((seen.kind if seen else 'lost', bool(fin)))
        if dead:
            R.count('stopped in flight')
            R.check(n == len(txs) - 1, 'a REGISTER was sent after the stop', 'after stop', det)
            R.check(len(a.rep) == nrep, 'a result was reported after the stop', 'report after stop', det)
            break
        rep = None
        if fin and 200 <= fin[1] < 300 and seen.kind == 'ok':
            R.count('registered')
            rep, due, tries = 'ok', when + seen.grant, 0
        elif fin and seen.kind == 'ch' and a.cred[0] is not None and seen.pick and tries < 3:
            R.count('challenged')
            tries += 1
            due = when
            want_auth = ({401: 'authorization', 407: 'proxy-authorization'}[fin[1]], seen.pick)
        else:
            R.count('failed')
            if not fin: R.count('silent')
            rep, due, tries = 'fail', when + 60, 0
        if rep and a.cbs:
            if R.check(len(a.rep) > nrep, 'a %s was not reported' % rep, 'not reported', det):
                r = a.rep[nrep]
                R.check(r[0] == rep and abs(r[1] - when) < .001, '%s at %s was reported as %s at %s' % (rep, T(when), r[0], T(r[1])), 'report', det)
                R.check((r[4] if r[0] == 'ok' else r[3]) is a.arg, 'reported with another argument', 'report', det)
                if r[0] == 'ok' == rep:
                    # the clock library smooths steps of the wall clock out
                    if not w.steps: R.check(abs(r[2] - (due + r[5])) < .01, 'the next registration was announced for %.3f instead of %.3f' % (r[2], due + r[5]), 'announced', det)
                    if seen.own: R.check(r[3] is not None and S.uri_addr('sip:x@%s:%s' % (r[3].getUrl().host, r[3].getUrl().getPort())) == a.contact[1:] and str(r[3].getUrl().username) == a.user, 'another binding was reported: %s' % r[3], 'binding', det)
                if r[0] == 'fail' == rep: R.check(('408' if not fin else str(fin[1])) in str(r[2]), 'reported %s' % (r[2],), 'report', det)
            nrep += 1
        if n == len(txs) - 1:
            lim = tend if a.stop is None else min(tend, a.stop)
            R.check(due >= lim - .01, 'the REGISTER due at %s was not sent' % T(due), 'not sent', det)
            R.check(not a.cbs or len(a.rep) == nrep, '%d reports instead of %d' % (len(a.rep), nrep), 'too many reports', det)
    R.ev((tuple(sig[:10]), a.cred[0] is None, lossy), True)
