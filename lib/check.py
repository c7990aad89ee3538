"""Decides one property: runs its workloads on the instrumented application, lets the oracles watch, reports.

  check <ID>                 exit 0 held on everything explored, 1 violated, 2 no verdict (machinery problem)
  check <ID> --replay FILE   runs one recorded history again and prints what the oracles say
"""
import collections, fnmatch, hashlib, json, multiprocessing, os, random, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'emu')]
import build, device, gen, ref, run, scen, props, native
from run import Stop

EVID = os.path.join(VERIF, 'evidence')
SCALE = 3
KNOWN = os.path.join(VERIF, 'known_findings.txt')

def match(pats, key): return any(fnmatch.fnmatchcase(key, p) for p in pats)
GONE = ('crash', 'hang', 'assert', 'silent', 'liveness')
WANTED = ('screen', 'data', 'refused', 'noprompt', 'prompted')
def owns(pats, key):
    """does this verdict break the property?  Ending, hanging or not answering where the property demands an answer or a screen does"""
    if match(pats, key): return True
    cls, tag = key.split(':', 1)
    return cls in GONE and any(c in WANTED and t != '*' and fnmatch.fnmatchcase(tag, t) for c, t in (p.split(':', 1) for p in pats if ':' in p))

class Worker:
    def __init__(self, exes, scratch, version, name):
        self.exes, self.scratch, self.version, self.name = exes, scratch, version, name
        self.devs = {}
    def dev(self, variant):
        d = self.devs.get(variant)
        if d is None: d = self.devs[variant] = device.Device(self.exes[variant], self.scratch)
        return d
    def drop(self, variant):
        d = self.devs.pop(variant, None)
        if d: d.close()
    def case(self, sc, variant, opts, cid, control=False):
        """one case; returns (runner, error text or None)"""
        d = self.dev(variant)
        o = dict(opts)
        if control: o['control'] = True
        dseed = int.from_bytes(hashlib.sha256(cid.encode()).digest()[:4], 'big')
        g = gen.G(cid)
        g.index = int(cid.rsplit('/', 1)[1])
        r, err = None, None
        try:
            r = run.Runner.__new__(run.Runner)
            r.mis, r.keys, r.exps, r.trace = [], collections.Counter(), [], []
            r.__init__(d, dseed, variant == 'asan_s', self.version + (('debug',) if variant == 'asan_d' else ()), self.name)
            scen.SCEN[sc](r, g, o)
        except Stop:
            pass
        except device.DeviceError as e:
            err = 'device: %s' % e
            self.drop(variant)
            return r, err
        except Exception:
            err = traceback.format_exc()
        d.quit()
        return r, err

W = None
def w_init(exes, scratch, version, name):
    global W
    W = Worker(exes, scratch, version, name)
def w_task(t):
    sc, variant, opts, ids, pid = t
    p = props.PROPS[pid]
    out = dict(n=0, keys=collections.Counter(), owned=[], other=collections.Counter(), sigs=set(), err=[], sample=None,
               apdu=0, press=0, other_ex={}, ids=collections.Counter())
    hangs = 0
    for cid in ids:
        r, err = W.case(sc, variant, opts, cid)
        out['n'] += 1
        if r is None or err and not r.mis:
            out['err'].append('%s: %s' % (cid, err))
            if len(out['err']) > 3: break
            continue
        mis = r.mis
        if mis and p.get('control') and sc in p['control']:
            # the same workload without the disturbance: what also shows there has another cause
            rc, ec = W.case(sc, variant, opts, cid, True)
            bad = {m.key for m in rc.mis} if rc is not None else set()
            mis = [m for m in mis if m.key not in bad]
            if p.get('relabel'):
                for m in mis: m.tag, m.cls = m.key, p['relabel']
            for m in r.mis:
                if m.key in bad: out['other'][m.key] += 1; out['other_ex'].setdefault(m.key, '%s %s' % (cid, m.detail[:200]))
        f = False
        for k, v in r.keys.items():
            out['keys'][k] += v
            if not f and match(p['focus'], k): f = True
        for e in r.exps:
            if e.kind == 'sw' and e.sw == 0x9000 and e.tag.endswith('.session'): out['keys']['sessions'] += 1
        for x in getattr(r, 'session_ids', ()): out['ids'][x] += 1
        if f:
            h = hashlib.sha256('|'.join(e.kind[0] + e.tag for e in r.exps).encode() + repr(sorted(r.keys.items())).encode()).digest()[:8]
            out['sigs'].add(h)
            if out['sample'] is None and not mis:
                out['sample'] = dict(case=cid, workload=sc, build=variant, steps=len(r.trace),
                                     history=[' '.join(map(str, s))[:120] for s in r.trace[:10]],
                                     expected=[e.kind + ':' + e.tag for e in r.exps[:10]])
        out['apdu'] += sum(1 for s in r.trace if s[0] == 'A')
        out['press'] += sum(1 for s in r.trace if s[0] in 'LRB')
        for m in mis:
            if owns(p['own'], m.key): out['owned'].append((m.key, m.detail, m.step, sc, variant, cid))
            else:
                out['other'][m.key] += 1
                out['other_ex'].setdefault(m.key, '%s %s' % (cid, m.detail[:200]))
            if m.cls == 'hang': hangs += 1
        if out['owned'] or hangs >= 2: break
    return out

def known_findings():
    out = []
    try:
        for l in open(KNOWN):
            if l.startswith('known: '): out.append(json.loads(l[7:]))
    except OSError: pass
    return out

def write_evidence(pid, ev):
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, pid + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(p + '.tmp', p)

def main():
    pid = sys.argv[1]
    if pid not in props.PROPS: print('unknown property', pid); return 2
    p = props.PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay': return do_replay(pid, p, sys.argv[3], scratch)
        if p.get('native'):
            try: return finish(pid, p, tier, seed, t0, *native.run_checks(p, tier, seed, scratch))
            except build.BuildError as e:
                print('the harness does not build, judging by what the device does instead:', str(e).splitlines()[-1][:200])
                p = props.PROPS[pid] = p['instead']
        return finish(pid, p, tier, seed, t0, *explore(pid, p, tier, seed, scratch))
    except build.BuildError as e:
        print('BUILD FAILED', e); return 2
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)

def explore(pid, p, tier, seed, scratch):
    name, version = build.version_defines()
    work = [(s[0], s[1], s[2] * SCALE if tier == 'quick' else s[3], s[4] if len(s) > 4 else {}) for s in p['work']]
    exes = {v: build.build(v) for v in sorted({w[1] for w in work})}
    tasks = []
    for sc, variant, n, opts in work:
        if not n: continue
        size = max(1, min(60, n // 16))
        ids = ['%d/%s/%s/%d' % (seed, sc, variant, i) for i in range(n)]
        tasks += [(sc, variant, dict(opts), ids[i:i + size], pid) for i in range(0, n, size)]
    # interleave the workloads, so that an early stop has seen all of them
    random.Random(seed).shuffle(tasks)
    tot = dict(n=0, keys=collections.Counter(), owned=[], other=collections.Counter(), sigs=set(), err=[], samples=[], apdu=0, press=0,
               other_ex={}, per=collections.Counter(), ids=collections.Counter())
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(min(8, os.cpu_count() or 1), w_init, (exes, scratch, version, name))
    hangs = 0
    try:
        for t, o in pool.imap_unordered(w_pair, tasks):
            tot['n'] += o['n']; tot['keys'] += o['keys']; tot['owned'] += o['owned']; tot['other'] += o['other']
            tot['sigs'] |= o['sigs']; tot['err'] += o['err']; tot['apdu'] += o['apdu']; tot['press'] += o['press']
            tot['ids'] += o['ids']
            for k, v in o['other_ex'].items(): tot['other_ex'].setdefault(k, v)
            tot['per']['%s (%s)' % (t[0], t[1])] += o['n']
            if o['sample'] and len(tot['samples']) < 3 and all(s['workload'] != t[0] for s in tot['samples']): tot['samples'].append(o['sample'])
            hangs += sum(v for k, v in o['other'].items() if k.startswith('hang:'))
            if tot['owned'] or len(tot['err']) > 20 or hangs > 12: break
    finally:
        pool.terminate(); pool.join()
    # nothing is reported before it has happened again, from the beginning, in a fresh process
    viol, flaky = [], []
    if tot['owned']:
        w = Worker(exes, scratch, version, name)
        seen = set()
        for key, detail, step, sc, variant, cid in sorted(tot['owned'], key=lambda x: x[2]):
            if key in seen or len(viol) >= 3: continue
            seen.add(key)
            opts = next(x[3] for x in work if x[0] == sc and x[1] == variant)
            w.drop(variant)
            r, err = w.case(sc, variant, dict(opts), cid)
            if r is not None and any(key in (m.key, '%s:%s' % (p.get('relabel'), m.key)) for m in r.mis):
                viol.append(dict(key=key, detail=detail, step=step, workload=sc, build=variant, case=cid, trace=r.trace))
            else: flaky.append((key, detail, cid, err))
        for v in list(w.devs): w.drop(v)
    agg = p.get('aggregate')
    if agg and not viol:
        for key, detail in agg(tot): viol.append(dict(key=key, detail=detail, step=0, workload='all', build='', case='aggregate', trace=[]))
    focus = {k: v for k, v in sorted(tot['keys'].items()) if match(p['focus'], k)}
    missing = [f for f in p['focus'] if not any(fnmatch.fnmatchcase(k, f) for k in tot['keys'])]
    cov = dict(evaluations=tot['n'], distinct_nontrivial=len(tot['sigs']), rule=p['rule'], samples=tot['samples'],
               requests_sent=tot['apdu'], buttons_pressed=tot['press'], observed=focus, cases_per_workload=dict(tot['per']),
               other_disagreements={k: dict(count=v, example=tot['other_ex'].get(k, '')) for k, v in tot['other'].items()})
    return viol, flaky, tot['err'], missing, cov

def w_pair(t): return t, w_task(t)

def finish(pid, p, tier, seed, t0, viol, flaky, errs, missing, cov):
    known = [k for k in known_findings() if k.get('property') == pid]
    new, old = [], []
    for v in viol:
        k = next((k for k in known if k.get('key') == v['key'] and k.get('contains', '') in v['detail']), None)
        (old if k else new).append((v, k))
    if pid == 'P21' : level = 'fault_enumeration'
    else: level = p.get('level', 'exploration')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=p.get('assumptions', props.ASSUME),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if errs: cov['cases_lost'] = len(errs)
    write_evidence(pid, ev)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    for v, k in old: print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', v['key'])))
    for k, x in sorted(cov.get('other_disagreements', {}).items())[:8]: print('note: %s %s' % (k, x))
    for f in flaky: print('inconclusive: seen once and not again:', f)
    for e in errs[:5]: print('harness problem:', e)
    if new:
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        for v, _ in new:
            path = os.path.join(EVID, 'replay', '%s-%s.json' % (pid, ''.join(c if c.isalnum() else '_' for c in v['key'])))
            with open(path, 'w') as f: json.dump(dict(v, property=pid, seed=seed), f, indent=1)
            print('  %s: %s' % (v['key'], v['detail'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    # a case the workload generator itself could not complete is lost, and said to be; many of them are no verdict
    if flaky or len(errs) > max(2, cov['evaluations'] // 500): return 2
    if missing:
        print('nothing observed of:', missing); return 2
    return 0

def do_replay(pid, p, path, scratch):
    v = json.load(open(path))
    if p.get('native') and not v['trace']: return native.replay(p, v, scratch)
    name, version = build.version_defines()
    exe = build.build(v['build'])
    w = Worker({v['build']: exe}, scratch, version, name)
    opts = next((s[4] for s in p.get('work', ()) if s[0] == v['workload'] and len(s) > 4), {})
    r, err = w.case(v['workload'], v['build'], dict(opts), v['case'])
    for i, s in enumerate(r.trace): print('%4d %s' % (i, ' '.join(map(str, s))))
    for m in r.mis: print(m)
    for d in list(w.devs): w.drop(d)
    if any(m.key == v['key'] for m in r.mis):
        print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
    print('not reproduced'); return 0

if __name__ == '__main__':
    sys.exit(main())
