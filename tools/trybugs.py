#!/usr/bin/env python3
"""Applies every planted change in turn to a scratch copy of /repo and runs its property's check there.  usage: trybugs.py [-j N] [-p PROP[,PROP..]] [ID...]
(the registered checks run against /repo; VERIF_REPO and VERIF_OUT redirect this one)"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; jobs = 2; props = None
while a and a[0] in ('-j', '-p'):
    if a[0] == '-j': jobs = int(a[1])
    else: props = a[1].split(',')
    a = a[2:]
def one(i):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='try-')
    try:
        r = os.path.join(tmp, 'repo'); shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('build'))
        subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r)
        v = os.path.join(tmp, 'verif'); shutil.copytree(V, v, ignore=shutil.ignore_patterns('seeded', 'build', '.git', 'evidence', 'replays'))
        out = []
        for p in props or [meta['property']]:
            t = time.time()
            x = subprocess.run([os.path.join(v, 'check'), p, 'quick'], cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick'))
            o = x.stdout.decode(errors='replace').strip().splitlines()
            hit = x.returncode == 1 and any(l.startswith('VIOLATION property=%s ' % p) for l in o)
            out.append('%-24s %s %-6s %4.0f s  %s' % (i, p, 'caught' if hit else 'MISSED', time.time() - t, '' if not o else ' | '.join(o[:2])[:260]))
        return out
    finally:
        shutil.rmtree(tmp)
ids = sorted(os.listdir(os.path.join(V, 'seeded')))
if a: ids = [i for i in ids if any(i == w or i.startswith(w + '_') for w in a)]
with ThreadPoolExecutor(jobs) as ex:
    for o in ex.map(one, ids):
        for l in o: print(l); sys.stdout.flush()
