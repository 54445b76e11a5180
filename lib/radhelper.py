"""stand-in for radiusclient: keeps the bytes of each request, answers with the bytes prepared for it"""
import sys, os
d = sys.argv[1]
inp, out = sys.stdin.buffer, sys.stdout.buffer
n = 0
while True:
    blk = b''
    while True:
        l = inp.readline()
        if not l: sys.exit(0)
        blk += l
        if l == b'\n': break
    with open(os.path.join(d, 'q%d.tmp' % n), 'wb') as f: f.write(blk)
    os.rename(os.path.join(d, 'q%d.tmp' % n), os.path.join(d, 'q%d' % n))
    try: a = open(os.path.join(d, 'r%d' % n), 'rb').read()
    except OSError: a = b'0\n'
    n += 1
    if a == b'die': sys.exit(0)
    out.write(a + b'\n')
    out.flush()
