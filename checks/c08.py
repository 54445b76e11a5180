"""C08: offline checker of the accounting records against the call as seen on the wire
The records are taken where they are handed to the RADIUS helper pool; answer, release and their causes are computed from datagrams alone. Absolute times are compared to the precision the configuration promises, and only in runs without wall-clock steps."""
import calendar, time, re
import scen, vsim, siplite as S
from scen import EPS
RULE = 'seeded whole-call scenarios (every way to end or fail, several routes, forward_on_fail, Start and Alive records on and off, precise times on and off, late offers, wall-clock steps, slow and failing authorisation); per leg the set of records and every field is recomputed from the wire. Distinct by endings, outcomes and record types.'
N = {'quick': 2500, 'thorough': 50000}
NEED = {'answered Stop': 1500, 'unanswered Stop': 1000, 'Start': 700, 'Alive': 300, 'absolute times': 800, 'abandoned': 200, 'progress times': 1500}
CAUSE = {400: '7f', 401: '39', 402: '15', 403: '39', 404: '1', 405: '7f', 406: '7f', 407: '15', 408: '66', 409: '29', 410: '1', 411: '7f', 413: '7f', 414: '7f', 415: '4f', 420: '7f', 480: '12', 481: '7f', 482: '7f', 483: '7f', 484: '1c',
         485: '1', 486: '11', 487: '12', 488: '7f', 500: '29', 501: '4f', 502: '26', 503: '3f', 504: '66', 505: '7f', 580: '2f', 600: '11', 603: '15', 604: '1', 606: '3a'}
def cause(code): return '10' if code < 200 else '0' if code < 400 else CAUSE.get(code, '7f')

def ptime(s):
    m = re.fullmatch(r'(\d\d):(\d\d):(\d\d)\.(\d{3}) GMT (\w{3}) (\w{3}) (\d{1,2}) (\d{4})', s)
    if not m: raise ValueError('time %r' % s)
    t = calendar.timegm(time.strptime('%s %s %s %s:%s:%s' % (m[7], m[6], m[8], m[1], m[2], m[3]), '%d %b %Y %H:%M:%S'))
    if time.strftime('%a', time.gmtime(t)) != m[5]: raise ValueError('weekday in %r' % s)
    return t + int(m[4]) / 1000.

def judge(run, c, R):
    if c.arr is None or c.fin is None or run.blurred(c): return
    recs = [q for q in run.w.radius.accts if q.get('call-id') == c.cid]
    det = lambda: dict(run.story(c), records = ['%.3f %s' % (q.t - run.sim.t0, q.attrs) for q in recs], start_acct = run.start_acct, precise = run.precise, alive = run.alive)
    off = vsim.WALL0
    authd = c.authreq is not None or not run.w.gc['auth_enable']
    if c.authreq: okd = c.auth[0] in ('ok', 'noroute') and c.authreq.answered is not None
    else: okd = not run.w.gc['auth_enable']
    conn = run.connected(c)
    T = c.fin[0]
    gone = min(([c.canrx] if c.canrx else []) + c.adm + [c.arr + 300] + ([t for t, m in c.byerx] if hasattr(c, 'ebye') else []))
    ends = run.causes(c)
    # instants that are nearly but not exactly the same leave the order to the network: not judged
    pts = [T, gone] + ([c.authreq.answered] if c.authreq and c.authreq.answered else []) + [t for t, w, who in ends]
    if any(0 < abs(x - y) < 6 * EPS for x in (T, gone) for y in pts):
        R.count('near ties skipped')
        return
    legs = [('answer', c, None)] + [('originate', a, a) for a in c.att if not a.route.fof]
    want = {}
    R.ev((run.sig(c), run.start_acct, run.alive, tuple(sorted(set(q.get('Acct-Status-Type') for q in recs)))))
    for q in recs:
        R.check(q.get('Acct-Status-Type') in ('Start', 'Stop', 'Alive'), 'record of type %s' % q.get('Acct-Status-Type'), 'type', det)
        R.check(q.get('h323-call-origin') in ('answer', 'originate'), 'record with origin %s' % q.get('h323-call-origin'), 'origin', det)
    used = 0
    for kind, l, a in legs:
        mine = [q for q in recs if q.get('h323-call-origin') == kind and (a is None or q.get('Called-Station-Id') == a.route.cld)]
        used += len(mine)
        stops = [q for q in mine if q.get('Acct-Status-Type') == 'Stop']
        starts = [q for q in mine if q.get('Acct-Status-Type') == 'Start']
        alive = [q for q in mine if q.get('Acct-Status-Type') == 'Alive']
        if kind == 'answer' and not okd:
            R.check(not mine, 'records for a call that was never authorised', 'unauthorised', det)
            continue
        isconn = bool(conn) and (a is None or a is conn[0])
        T0 = run.conn_t(c, conn[0]) if isconn else None
        rel = None
        if isconn:
            rel = sorted([t for x in (c, conn[0]) for t, m in x.byetx + x.byerx if t > T - EPS])
            rel = rel[0] if rel else None
            if T0 == float('inf') or (rel is not None and T0 > rel): T0 = None
        elif a is None: rel = max(T, c.authreq.answered if c.authreq else 0)
        else:
            rel = min([t for t in run.limits(a) + [gone if gone > a.t - EPS else None, a.fin and a.fin[0], a.tmo] if t is not None])
        if rel is None:
            # nobody ended the call within the run
            R.check(not stops, 'Stop for a call still up', 'early stop', det)
        else:
            if not R.check(len(stops) == 1, '%d Stop records for the %s leg%s' % (len(stops), kind, ' to ' + a.route.cld if a else ''), 'stop count', det): continue
            q = stops[0]
            if not R.check(abs(q.t - rel) < 3 * EPS, '%s: Stop at %.3f, leg released at %.3f' % (kind, q.t - run.sim.t0, rel - run.sim.t0), 'stop time', det): continue
            R.count('answered Stop' if T0 else 'unanswered Stop')
        if isconn and T0 is not None:
            ns = 1 if run.start_acct else 0
            R.check(len(starts) == ns and all(abs(q.t - T0) < 3 * EPS for q in starts), '%d Start records at %s, answered at %.3f' % (len(starts), [q.t - run.sim.t0 for q in starts], T0 - run.sim.t0), 'start', det)
            R.count('Start', len(starts))
            end = rel if rel is not None else run.sim.now
            wt = []
            if run.alive:
                k = 1
                while T0 + k * run.alive < end - 3 * EPS:
                    wt.append(T0 + k * run.alive)
                    k += 1
            ok = len(alive) in (len(wt), len(wt) + (abs(T0 + (len(wt) + 1) * run.alive - end) < 5 * EPS if run.alive else 0)) and all(abs(q.t - t) < 0.05 for q, t in zip(alive, wt))
            R.check(ok, 'Alive records at %s, expected at %s' % ([round(q.t - run.sim.t0, 2) for q in alive], [round(t - run.sim.t0, 2) for t in wt]), 'alive', det)
            R.count('Alive', len(alive))
            for q in alive:
                v = q.get('Acct-Session-Time')
                R.check(v is not None and abs(float(v) - (q.t - T0)) <= .51, 'Alive %.3f s after the answer reports %s s' % (q.t - T0, v), 'alive time', det)
        else: R.check(not starts and not alive, 'Start or Alive record for a leg that was not answered', 'start unanswered', det)
        dur = (rel - T0) if rel is not None and T0 is not None else 0
        for q in mine:
            ty = q.get('Acct-Status-Type')
            # identity
            want = [('call-id', c.cid), ('Acct-Session-Id', c.cid), ('h323-call-type', 'VoIP'), ('h323-session-protocol', 'sipv2'), ('User-Name', c.host), ('Calling-Station-Id', c.frm),
                    ('Called-Station-Id', c.num if a is None else a.route.cld), ('h323-remote-address', c.host if a is None else a.route.host)]
            for n, v in want: R.check(q.all(n) == [v], '%s record of the %s leg: %s is %s, expected %r' % (ty, kind, n, q.all(n), v), 'field ' + n, det)
            names = [n for n, v in q.attrs]
            dups = set(n for n in names if names.count(n) > 1) - {'Cisco-AVPair', 'h323-ivr-out'}
            R.check(not dups, 'attributes repeated: %s' % sorted(dups), 'repeated', det)
            if ty == 'Stop':
                v = q.get('Acct-Session-Time')
                R.check(v is not None and v.isdigit() and abs(int(v) - dur) <= .51, '%s leg: session time %s, was connected %.3f s' % (kind, v, dur), 'session time', det)
                # cause
                if isconn: code = 0
                elif a is None:
                    F = c.fin[1]
                    bycause = F.code
                    code = F.code
                    near = lambda t: t is not None and abs(t - T) < EPS
                    if near(gone) or (c.att and any(near(t) for t in run.limits(c.att[-1]))): code = 0
                elif a.fin is not None and abs(a.fin[0] - rel) < EPS and not a.ok and not a.cancel: code = a.fin[1].code
                elif a.tmo is not None and abs(a.tmo - rel) < EPS and not a.cancel: code = 408
                else:
                    code = 0
                    R.count('abandoned')
                ambiguous = a is not None and not isconn and a.fin is not None and abs(a.fin[0] - rel) < EPS and bool(a.cancel)
                if not ambiguous: R.check(q.get('h323-disconnect-cause') == cause(code), '%s leg ended with %s: disconnect cause %s, expected %s' % (kind, code or 'normal release', q.get('h323-disconnect-cause'), cause(code)), 'cause', det)
                # who
                w = set()
                for t, what, who in ends:
                    if abs(t - rel) > 3 * EPS: continue
                    if what in ('cancel', 'early bye', 'expiry'): w.add('2')
                    elif what == 'bye': w.add('2' if who == 'caller' else '4')
                    elif what in ('failed', 'timeout'): w.add('4')
                    elif what in ('reinvite refused', 'reinvite timeout'): w |= {'2', '4', '8'}
                    else: w.add('8')
                if not isconn and a is None and not c.att: w.add('8')
                if not isconn and a is None and gone <= T + EPS and abs(rel - T) > EPS: w.add('2')
                R.check(q.get('release-source') in w, '%s leg released by %s, record says %s' % (kind, sorted(w), q.get('release-source')), 'release-source', det)
            # absolute times
            if run.wsteps: continue
            if ty == 'Stop' and rel is not None or ty == 'Alive' or (ty == 'Start' and isconn):
                # the first signs of life of the called side
                pv = [(t, m.code) for t, m in (c.resp if a is None else a.prov) if m.code < 200 and t <= q.t + EPS]
                p1 = next((t for t, k in pv if k > 100), None)
                p0 = pv[0][0] if pv and pv[0][1] == 100 and a is not None else None
                if ty == 'Alive':
                    pv = [x for x in pv if x[0] < T0]
                tie = any(abs(t - q.t) < 6 * EPS for t, k in pv) or (not isconn and a is not None and any(abs(t - a.t - x) < 6 * EPS for t, k in pv for x in (a.route.expires, a.route.np, a.route.nr) if x is not None))
                if not tie:
                    v = q.get('Acct-Delay-Time')
                    R.check((v is None) == (p1 is None) and (v is None or abs(float(v) - (p1 + off)) <= .52), '%s record of the %s leg: Acct-Delay-Time %s, first ringing at %s' % (ty, kind, v, p1 and p1 + off), 'progress time', det)
                    v = q.get('provisional-timepoint')
                    R.check((v is None) == (p0 is None), '%s record of the %s leg: provisional-timepoint %s, first answer at %s' % (ty, kind, v, p0 and p0 + off), 'provisional time', det)
                    if v is not None and p0 is not None:
                        try: R.check(-1.02 <= ptime(v) - (p0 + off) <= .02, '%s record of the %s leg: provisional-timepoint is %.3f s off' % (ty, kind, ptime(v) - p0 - off), 'provisional time', det)
                        except ValueError: R.fail('provisional-timepoint is %r' % v, 'time format', det())
                    if p1: R.count('progress times')
            setup = c.arr if a is None else a.t
            cn = T0 if T0 is not None else rel
            prec = run.precise
            def near_abs(n, t, tol):
                try: v = ptime(q.get(n))
                except Exception as e:
                    R.fail('%s: %s is %r' % (ty, n, q.get(n)), 'time format', det())
                    return
                d = v - (t + off)
                lo, hi = (-.012, .002) if prec else (-1.01 - tol, .01 + tol)
                R.check(lo <= d <= hi, '%s record of the %s leg: %s is %.3f s off' % (ty, kind, n, d), 'time ' + n, det)
            R.count('absolute times')
            near_abs('h323-setup-time', setup, 0)
            if ty != 'Stop' or rel is not None:
                if a is None and not isconn and c.authreq and c.fin[0] < c.authreq.answered - EPS: cn2 = c.fin[0]
                else: cn2 = cn
                near_abs('h323-connect-time', cn2, .51)
                if ty == 'Stop': near_abs('h323-disconnect-time', cn2 + dur, 1.02)
                if ty == 'Alive': near_abs('h323-disconnect-time', q.t, 1.02)
    R.check(used == len(recs), '%d records of this call belong to no leg of it' % (len(recs) - used), 'stray record', det)

def case(seed, R, tier):
    # any day of the year, leap days and years' ends too
    vsim.WALL0 = [1.7e9, 1709166000., 1704060000., 1.7e9 + 86400 * (seed // 16 % 500) + seed % 86400][seed // 4 % 4]
    run = scen.Run(seed, dict(alive = [None, 1, 7, 30][seed % 4], p_zero = .03, p_wallstep = .2, p_midhang = .2 if seed % 3 == 0 else 0, re_slow = seed % 2)).run()
    for c in run.plans: judge(run, c, R)
    run.internal(R)
    if run.plans: R.sample(run.brief(run.plans[0]))
    run.close()
