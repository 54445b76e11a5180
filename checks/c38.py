"""C38: the order of offer, answer and acknowledgement on both legs of late-offer calls, judged from the wire and the accounting records
Whole calls on the simulated network whose INVITE has no session description: what each leg was sent, when, against what the other leg had sent by then."""
import random, re
import vsim, siplite as S
from siplite import response
from vsim import Link
from b2bworld import World, routing_lines
RULE = 'seeded late-offer calls x callee (100/180/183 with or without description, refusal, answer with offer after 0-20 s, first route failing) x caller (ACK with answer at once, after up to 31 s, never, without description; CANCEL or BYE before or after the answer) x callee BYE before or after the ACK x packet loss and duplication x credit x accounting x final codes. Distinct by the course of both legs.'
N = {'quick': 3500, 'thorough': 100000}
NEED = {'calls': 3000, 'completed': 1200, 'delayed ACK': 500, 'never acknowledged': 150, 'caller gone first': 150, 'callee gone first': 100, 'cancelled': 150, 'refused': 100, 'with loss': 500, 'credit': 150, 'second route': 200, 'records': 800, 'empty ACK': 80}
EPS = .2
TB = 32

def attr(q, n):
    v = [x for a, x in q.attrs if a.lower() == n]
    return v[0] if v else None

def case(seed, R, tier):
    rng = random.Random(seed)
    acct = rng.random() < .5
    credit = rng.choice([None, None, 2, 7, 40])
    two = rng.random() < .2
    w = World(seed, auth = True, digest = False, acct = acct, start_acct = acct)
    try: body(rng, R, w, acct, credit, two)
    finally: w.close()

def body(rng, R, w, acct, credit, two):
    sim = w.sim
    A, B = w.peer('10.0.1.1'), w.peer('10.0.2.1')
    lossy = rng.random() < .25
    if lossy: sim.default_link = Link(loss = .15, dup = .1)
    rts = ['x0@10.0.2.1', 'x1@10.0.2.1'] if two else ['x1@10.0.2.1']
    if credit: rts = [r + ';credit-time=%d' % credit for r in rts]
    w.radius.on_auth = lambda q: (0, .01, routing_lines(rts))
    legs = {}
    ansd = rng.choice([.1, 1, 5, 20])
    offer = S.mksdp('10.0.2.1', 30000, 5, 55)
    answer = S.mksdp('10.0.1.1', 20000, 6, 66)
    refuse = rng.random() < .06
    prov = [(rng.uniform(.01, ansd), rng.choice([100, 180, 183, 183])) for _ in range(rng.choice([0, 1, 1, 2]))]
    early = rng.random() < .3
    def on_invite(leg, m):
        n = S.split_uri(m.uri)
        n = n['user'] if isinstance(n, dict) else n[1]
        legs.setdefault(n, leg)
        if n == 'x0':
            sim.after(.3, leg.refuse, 503); return
        for t, c in prov: sim.after(t, lambda c = c: leg.provisional(c, offer if c == 183 and early else b''))
        sim.after(ansd, lambda: leg.refuse(486) if refuse else leg.answer(offer, code = rng.choice([200, 200, 202])))
    B.on_invite = on_invite
    ackd = rng.choice([0, 0, .4, 2, 10, 25, 31, None])
    empty = rng.random() < .06
    k = rng.random()
    canc = rng.uniform(.05, ansd * .95 + .1) if k < .12 else None
    abye = rng.uniform(.05, ackd if ackd else 20) if .12 < k < .2 else None     # after the answer, before the ACK
    bbye = rng.uniform(.02, ackd if ackd else 20) if .2 < k < .27 else None
    talk = rng.choice([3, 30, 60])
    a = A.call(w.addr, '5000', 'alice', None)
    a.app['ack'] = False
    fin = []
    def on_final(l, m):
        if m is None or m.code >= 300: return
        fin.append((sim.now, m))
        def ack():
            if a.state != 'est': return
            a.app['ack'] = True
            a.send_ack(b'' if empty else answer)
        if empty: a.app['ack_body'] = b''
        else: a.app['ack_body'] = answer
        if ackd is not None: sim.after(ackd, ack)
        if abye is not None: sim.after(abye, lambda: a.bye() if a.state == 'est' else None)
        if bbye is not None: sim.after(bbye, lambda: legs['x1'].bye() if legs['x1'].state == 'est' else None)
        if ackd is not None: sim.after(ackd + talk, lambda: a.bye() if a.state == 'est' else None)
    a.app['on_final'] = on_final
    if canc is not None:
        sim.after(canc, a.cancel)
    w.run(200)
    b = legs.get('x1')
    R.count('calls')
    rel = lambda h: [(round(x[0] - sim.t0, 2),) + tuple(str(y)[:50] for y in x[1:]) for x in h]
    det = lambda: dict(ack = ackd, empty = empty, caller_bye = abye, callee_bye = bbye, cancel = canc, credit = credit, loss = lossy, caller = rel(a.hist), callee = rel(b.hist) if b else None, records = [(round(q.t - sim.t0, 2), q.get('Acct-Status-Type'), q.attrs) for q in w.radius.accts])
    if lossy: R.count('with loss')
    if two and b: R.count('second route')
    if credit and b: R.count('credit')
    own = w.addr
    # what left for the callee
    inB = [(e[0], e[2]) for e in B.log if e[1] == 'in']
    inA = [(e[0], e[2]) for e in A.log if e[1] == 'in']
    outA = [(e[0], e[2], e[5]) for e in A.log if e[1] == 'out']
    for t, m in inB:
        if m.is_req and m.method == 'INVITE': R.check(not m.body, 'an INVITE without description was forwarded with one', 'invite body', det)
    for t, m in inA:
        if not m.is_req and m.cseq[1] == 'INVITE' and m.code < 300 and m.body:
            R.check(m.body == offer, 'the caller got %r' % m.body[:200], 'offer changed', det)
    acks = [(t, m) for t, m in inB if m.is_req and m.method == 'ACK' and b is not None and m.ttag == b.ltag and b.final is not None and b.final < 300]
    # the moment the caller's ACK reached the instance
    acked_at = next((t for t, p in sim.delivered if p.src == A.addr and p.dst == w.addr and p.data[:4] == b'ACK ' and a.callid.encode() in p.data and b'CSeq: %d ' % a.itx.req.cseq[0] in re.sub(rb'(?i)cseq:', b'CSeq:', p.data)), None) if a.app.get('ack_at') is not None else None
    if a.app.get('ack_at') is not None and not lossy: R.check(acked_at is not None, 'harness: no ACK seen', 'harness', det)
    sig = []
    if b is not None and not refuse:
        ans_at = next((h[0] for h in b.hist if h[1] == 'tx_final' and h[2] < 300), None)
        if ans_at is not None and fin: R.check(fin[0][1].body == offer and fin[0][1].code == b.final, 'the caller got %d with %r' % (fin[0][1].code, fin[0][1].body[:200]), 'offer not relayed', det)
        # when did the call end before it was acknowledged, if so
        byeB = [t for t, m in inB if m.is_req and m.method == 'BYE' and m.ttag == b.ltag]
        byeA = [t for t, m in inA if m.is_req and m.method == 'BYE']
        with_ans = [x for x in acks if x[1].body]
        R.check(all(m.body == answer for t, m in with_ans), 'the callee was acknowledged with %r' % (with_ans and with_ans[0][1].body[:200]), 'answer changed', det)
        R.check(len(set(m.raw if hasattr(m, 'raw') else m.enc() for t, m in acks)) <= 1, '%d different ACKs sent to the callee' % len(set(m.enc() for t, m in acks)), 'different ACKs', det)
        if not lossy:
            R.check(len(acks) <= 1 + len([1 for e in B.log if e[1] == 'out' and e[5] and not isinstance(e[2], type(None))]) + 20, 'many ACKs', 'acks', det)
        gone = sorted([t for t, what in [(h[0], h[1]) for h in a.hist] if what == 'cancel' and a.final == 487] + [h[0] for h in a.hist if h[1] == 'tx' and h[2] == 'BYE'] + [h[0] for h in b.hist if h[1] == 'tx' and h[2] == 'BYE'] + byeA[:1] + byeB[:1])
        gone = gone[0] if gone else None
        if acks and (acked_at is None or acks[0][0] < acked_at - 1e-6):
            R.check(gone is not None and gone <= acks[0][0] + .05 or lossy and acks[0][0] >= ans_at + TB - 1, 'the callee was acknowledged at %.2f, the caller had not acknowledged' % (acks[0][0] - sim.t0), 'early ack', det)
        if acked_at is not None and ans_at is not None and (gone is None or gone > acked_at + .3):
            # acknowledged while the call was up
            R.count('empty ACK' if empty else 'completed')
            if ackd: R.count('delayed ACK')
            sig.append('done')
            want = b'' if empty else answer
            if not lossy:
                if R.check(acks and acks[0][0] <= acked_at + EPS, 'ACK not passed on', 'ack not passed', det):
                    R.check(acks[0][1].body == want, 'the callee was acknowledged with %r' % acks[0][1].body[:200], 'answer changed', det)
            elif gone is None or gone > acked_at + 12 and acked_at < ans_at + 9: R.check(any(m.body == want for t, m in acks), 'ACK never passed on', 'ack not passed', det)
            if credit and not lossy:
                ends = [x for x in byeA[:1] + byeB[:1]]
                if credit < talk - .5 and bbye is None and abye is None:
                    R.check(len(ends) == 2 and all(abs(x - acked_at - credit) < EPS for x in ends), 'credit of %d s from the ACK at %.2f: released %s' % (credit, acked_at - sim.t0, [round(x - sim.t0, 2) for x in ends]), 'credit', det)
                elif bbye is None and abye is None: R.check(not [x for x in ends if x < acked_at + min(credit, talk) - EPS], 'released before the credit was used', 'credit', det)
        elif ans_at is not None:
            # never completed: both legs must be gone in time, the callee acknowledged
            if abye is not None: R.count('caller gone first'); sig.append('abye')
            elif bbye is not None: R.count('callee gone first'); sig.append('bbye')
            elif canc is not None and a.final == 487: sig.append('canc')
            elif ackd is None: R.count('never acknowledged'); sig.append('noack')
            if not lossy or gone is not None and gone < ans_at + 15: R.check(bool(acks), 'the callee was never acknowledged', 'callee not acknowledged', det)
            R.check(b.state in ('ended', 'failed'), 'the callee is left %s' % b.state, 'callee left', det)
            R.check(a.state in ('ended', 'failed'), 'the caller is left %s' % a.state, 'caller left', det)
            if ackd is None and abye is None and bbye is None and canc is None and not lossy and fin:
                R.check(byeB and byeA and abs(byeA[0] - fin[0][0] - TB) < 1 and abs(byeB[0] - fin[0][0] - TB) < 1, 'not acknowledged: released at %s' % [round(x - sim.t0, 2) for x in byeA[:1] + byeB[:1]], 'no-ACK release', det)
            if not lossy and acks and byeB: R.check(acks[0][0] <= byeB[0] + .05, 'BYE before ACK', 'bye before ack', det)
            if not lossy and gone is not None and fin and bbye is None: 
                R.check(byeB and byeB[0] < gone + EPS, 'call over at %.2f, the callee was released %s' % (gone - sim.t0, byeB and round(byeB[0] - sim.t0, 2)), 'callee released late', det)
    elif refuse:
        R.count('refused')
        if canc is None: R.check(a.final == 486, 'callee refused with 486, caller got %s' % a.final, 'refusal', det)
        sig.append('ref')
    if canc is not None and a.final == 487:
        R.count('cancelled')
        if b is not None: R.check(b.state in ('ended', 'failed'), 'cancelled; the callee is left %s' % b.state, 'callee left', det)
    if acct and not lossy and b is not None and not refuse and 'done' in sig:
        # the call counts from the ACK
        R.count('records')
        mine = [q for q in w.radius.accts]
        for q in mine:
            st = (q.get('Acct-Status-Type') or '').lower()
            if st == 'start': R.check(acked_at is not None and q.t >= acked_at - .01, 'Start record at %.2f, before the ACK at %s' % (q.t - sim.t0, acked_at and round(acked_at - sim.t0, 2)), 'start early', det)
            if st == 'stop':
                d = attr(q, 'acct-session-time')
                end = min([x for x in (a.end_at, b.end_at) if x is not None])
                if d is not None and int(d) > 0 or 'x0' not in str(q.attrs):
                    if d is not None and q.get('h323-disconnect-cause') != '22' and abs(int(d) - (end - acked_at)) > 1.1 and not (int(d) == 0 and two):
                        R.fail('Stop record says %s s, acknowledged at %.2f, over at %.2f' % (d, acked_at - sim.t0, end - sim.t0), 'duration', det())
    elif acct and not lossy and b is not None and sig:
        for q in w.radius.accts:
            st = (q.get('Acct-Status-Type') or '').lower()
            R.check(st != 'start' or acked_at is not None and acked_at <= gone + .1, 'Start record for a call that was never acknowledged', 'start without ack', det)
            if st == 'stop' and acked_at is None: R.check(int(attr(q, 'acct-session-time') or 0) == 0, 'Stop record counts %s s for a call that was never acknowledged' % attr(q, 'acct-session-time'), 'duration without ack', det)
    for l in [a] + list(legs.values()):
        R.check(not l.errors, '%s' % l.errors[:2], 'dialog', det)
    w.run(900)
    R.check(not w.cmap.ccmap, 'the call is still listed', 'still listed', det)
    R.sample(dict(ack = ackd, course = sig, final = a.final))
    R.ev((tuple(sig), ackd, abye is None, bbye is None, canc is None, tuple(c for t, c in sorted(prov)), refuse, two, credit, lossy), bool(b))
