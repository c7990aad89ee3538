#!/usr/bin/env python3
"""Builds every variant of the application and every harness once, so that the checks find them ready."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'emu')]
import build, native, props
jobs = set()
for p in props.PROPS.values():
    for w in p.get('work', ()): jobs.add((build.build, w[1]))
    for h, s, *_ in p.get('native', ()): jobs.add((native.make, h, s))
with ThreadPoolExecutor(4) as ex:
    for f in [ex.submit(j[0], *j[1:]) for j in sorted(jobs, key=str)]:
        print(f.result())
