#!/usr/bin/env python3
"""Writes and verifies the planted changes of seeds.py under /verif/seeded.  usage: mkseed.py [ID...]"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds
import atexit, tempfile
TMP = tempfile.mkdtemp(prefix='mkseed-')
atexit.register(shutil.rmtree, TMP, True)
R = os.path.join(TMP, 'repo')        # a copy: other things may be looking at /repo
subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
BASE = '6ba7b2b'
HEAD = "import os, sys\nsys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'kit'))\nfrom dk import *\n\n"

def sh(*a, **k):
    k.setdefault('cwd', R)
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): return sh('git', 'status', '--porcelain', '--untracked-files=no').stdout == b''

def one(s):
    d = os.path.join(V, 'seeded', s['id'])
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(os.path.join(d, 'kit', 'emu'))
    for x in ('build.py', 'include', 'sdk', 'm32'):
        a, b = os.path.join(V, 'emu', x), os.path.join(d, 'kit', 'emu', x)
        shutil.copytree(a, b, ignore=shutil.ignore_patterns('__pycache__')) if os.path.isdir(a) else shutil.copy(a, b)
    for x in ('device.py', 'ref.py'): shutil.copy(os.path.join(V, 'lib', x), os.path.join(d, 'kit', x))
    shutil.copy(os.path.join(V, 'tools', 'seedkit', 'dk.py'), os.path.join(d, 'kit', 'dk.py'))
    shutil.copy(os.path.join(V, 'tools', 'seedkit', 'stubs.c'), os.path.join(d, 'kit', 'stubs.c'))
    shutil.copy(os.path.join(V, 'tools', 'seedkit', 'demo.sh'), os.path.join(d, 'demo.sh'))
    open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].strip('\n') + '\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    def demo(): return sh('bash', os.path.join(d, 'demo.sh'), timeout=280)
    t = time.time()
    r = demo()
    if r.returncode: return 'demo fails on the unchanged tree: %d %s' % (r.returncode, r.stdout.decode()[-1500:])
    t0 = time.time() - t
    try:
        for f, old, new in s['edits']:
            p = os.path.join(R, 'src', f)
            x = open(p).read()
            if x.count(old) != 1: return '%d places for the edit in %s: %s' % (x.count(old), f, old)
            open(p, 'w').write(x.replace(old, new))
        diff = sh('git', 'diff').stdout.decode()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # changed lines have to be lines of the base commit
        f = None; n = 0; mine = []
        for l in diff.splitlines():
            if l.startswith('--- a/'): f = l[6:]
            m = re.match(r'@@ -(\d+)', l)
            if m: n = int(m.group(1)); continue
            if l.startswith('-') and not l.startswith('---'):
                b = sh('git', 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', f).stdout.decode()
                if not b.startswith('^' + BASE) and not b.startswith(BASE): mine.append(b)
                n += 1
            elif l.startswith(' '): n += 1
        if mine: return 'changes lines of fix commits: %s' % mine
        env = dict(os.environ, CC='gcc')
        sh('cmake', '-S', R + '/unit-tests', '-B', R + '/_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DBUILD_TESTING=ON', env=env)
        r = sh('ninja', '-C', R + '/_build')
        if r.returncode: return 'does not build: ' + r.stdout.decode()[-1500:]
        r = subprocess.run(['python3', '/opt/vp/run_cmocka.py', R + '/_build'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base['stable'] if 'stable' in base else base['passed'])
        bad = want - {x[5:] for x in r.stdout.decode().splitlines() if x.startswith('PASS ')}
        if bad: return 'tests fail: %s' % sorted(bad)[:5]
        t = time.time()
        r = demo()
        t1 = time.time() - t
        if r.returncode == 0: return 'demo passes with the patch'
        if r.returncode != 1: return 'demo ended with %d: %s' % (r.returncode, r.stdout.decode()[-1500:])
        return None, '%.1f/%.1f s %s' % (t0, t1, r.stdout.decode().strip().splitlines()[-1][:230])
    finally:
        sh('git', 'checkout', '--', '.')

if sh('git', 'status', '--porcelain', '--untracked-files=no', cwd='/repo').stdout: sys.exit('/repo is not clean')
want = sys.argv[1:]
bad = 0
for s in seeds.SEEDS:
    if want and not any(s['id'] == w or s['id'].startswith(w + '_') for w in want): continue
    r = one(s)
    if isinstance(r, tuple): print('%-28s ok  %s' % (s['id'], r[1]))
    else: bad += 1; print('%-28s BAD %s' % (s['id'], r))
    sys.stdout.flush()
sys.exit(bad != 0)
