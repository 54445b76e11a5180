"""stand-in for an external helper program: logs every block it gets, answers as the block's lines tell it"""
import sys, os, time
d = sys.argv[1]
log = open(os.path.join(d, 'h%d' % os.getpid()), 'wb', buffering = 0)
inp, out = sys.stdin.buffer, sys.stdout.buffer
while True:
    blk = []
    while True:
        l = inp.readline()
        if not l: sys.exit(0)
        blk.append(l)
        if l == b'\n': break
    log.write(b'%d\n' % time.monotonic_ns() + b''.join(b'>' + x for x in blk))
    ans, bye = [], False
    for l in blk:
        w = l.rstrip(b'\n').split(b' ', 1)
        if w[0] == b'sleep': time.sleep(float(w[1]))
        elif w[0] == b'wait':
            p = os.path.join(d, w[1].decode())
            e = time.monotonic() + 60
            while not os.path.exists(p) and time.monotonic() < e: time.sleep(.002)
        elif w[0] == b'meet':
            # n helpers have to be here at the same time
            n, name = w[1].decode().split()
            open(os.path.join(d, '%s.%d' % (name, os.getpid())), 'w').close()
            e = time.monotonic() + 40
            while True:
                k = len([x for x in os.listdir(d) if x.startswith(name + '.')])
                if k >= int(n): ans.append(b'met'); break
                if time.monotonic() > e: ans.append(b'alone'); break
                time.sleep(.002)
        elif w[0] == b'grumble': sys.stderr.buffer.write(b'error: something\n' * int(w[1])); sys.stderr.flush()
        elif w[0] == b'say': ans.append(w[1])
        elif w[0] == b'die':
            if w[1] == b'half': out.write(b'half\n'); out.flush()
            os._exit(1)
        elif w[0] == b'bye': bye = True
        elif w[0] == b'slow': ans.append(None)
    for a in ans:
        if a is None: out.flush(); time.sleep(.003)
        else:
            out.write(a + b'\n')
    out.write(b'\n')
    out.flush()
    log.write(b'<%d\n' % time.monotonic_ns())
    if bye: os._exit(0)
