#!/usr/bin/env python3
"""plant.py FILE: a python file with plant(id, prop, file, [(old, new)], needs, breaks, demo) calls; each is validated in a scratch copy and, when its demonstration tells the two trees apart, kept under seeded/."""
import sys, os, shutil, subprocess, json
V = '/verif'; W = '/tmp/plant.%d' % os.getpid()
def sh(c, cwd = None, env = {}, tmo = 900):
    p = subprocess.run(['timeout', str(tmo), 'bash', '-c', c], cwd = cwd, env = dict(os.environ, **env), stdout = subprocess.PIPE, stderr = subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors = 'replace')
ORIG = '728859b'
DEMO = open(V + '/seeded/s08/demo.sh').read()
only = sys.argv[2:]
def plant(id, prop, edits, needs, breaks, demo, checks = (), world = True):
    if only and id not in only: return
    shutil.rmtree(W, True); shutil.copytree('/repo', W, symlinks = True)
    for f, old, new in edits:
        p = W + '/' + f; s = open(p).read()
        if s.count(old) != 1: print(id, 'BAD EDIT', f, s.count(old)); return
        for l in old.split('\n'):
            pass
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', W)[1]
    # changed lines have to be original ones
    orig_ok = True
    for l in diff.split('\n'):
        if l.startswith('-') and not l.startswith('---'):
            if not any(l[1:] in sh('git show %s:%s' % (ORIG, f), '/repo')[1].split('\n') for f, o, n in edits): orig_ok = False; print(id, 'not an original line:', l[1:])
    d = V + '/seeded/' + id
    shutil.rmtree(d, True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    if world:
        for f in ('vsim', 'siplite', 'peers', 'b2bworld', 'tmworld', 'kit', 'rtppworld', 'relaykit', 'wssim'): shutil.copy(V + '/lib/%s.py' % f, d)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent = 1)
    t = W + '.demo'; shutil.rmtree(t, True); shutil.copytree(d, t)
    a, oa = sh('bash %s/demo.sh' % t, '/repo'); b, ob = sh('bash %s/demo.sh' % t, W)
    shutil.rmtree(t)
    if os.environ.get("NOCHECK"): print(id, "demo", a, b, orig_ok, oa[:900] if a else "", ob[-200:]); return
    c, oc = sh('./run.sh %s --tier quick --seed 1 2>&1' % prop, V, {'VERIF_REPO': W, 'VERIF_STOP': '1'})
    x = ''
    for ch in checks:
        cc, occ = sh('./run.sh %s --tier quick --seed 1 2>&1' % ch, V, {'VERIF_REPO': W, 'VERIF_STOP': '1'})
        x += ' %s:%d' % (ch, cc)
    v = [l for l in oc.split('\n')]
    k = [i for i, l in enumerate(v) if 'VIOLATION' in l]
    print('%s %s: demo %d/%d check %d%s %s' % (id, prop, a, b, c, x, v[k[0] + 1][:150] if k else oc[-300:]), '' if a == 0 and b != 0 and orig_ok else 'INVALID', flush = True)
    if a: print(oa[-600:])
    if not b: print(ob[-300:])
    shutil.rmtree(W)
exec(open(sys.argv[1]).read())
