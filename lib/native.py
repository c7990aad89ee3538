"""Library monitors: C harnesses (native/) linked with the sources of /repo, under sanitizers."""
import collections, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import build
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAT = os.path.join(VERIF, 'native')
LIB = ['src/common/', 'src/ergo/address.c', 'src/ergo/ergo_tree.c', 'src/ergo/tx_ser_box.c', 'src/ergo/tx_ser_full.c', 'src/ergo/tx_ser_input.c',
       'src/ergo/tx_ser_table.c', 'src/helpers/blake2b.c', 'src/helpers/input_frame.c']
SAN = {
    'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,function', '-fno-sanitize-recover=all', '-fstrict-flex-arrays=3', '-DEMU_MEMBERS', '-fno-omit-frame-pointer'],
    'asan_o2': ['-O2', '-g', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,function', '-fno-sanitize-recover=all', '-fstrict-flex-arrays=3', '-DEMU_MEMBERS', '-fno-omit-frame-pointer'],
    'msan': ['-O1', '-g', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-omit-frame-pointer'],
}

# 32-bit pointers and sizes, like the device
SAN['asan32'] = build.M32[0] + SAN['asan'] + ['-fno-sanitize-link-runtime'] + build.M32[1] + [os.path.join(build.HERE, 'm32', 'start.c')] if build.M32 else SAN['asan']
LAST = {'asan32': build.M32[2]} if build.M32 else {}

def sources():
    """the library part of the application: everything that needs no command and no screen"""
    out = []
    for p in LIB:
        f = os.path.join(build.REPO, p)
        if p.endswith('/'): out += [os.path.join(f, x) for x in sorted(os.listdir(f)) if x.endswith('.c')]
        elif os.path.exists(f): out.append(f)
    # files added next to them, except those that use keys or the screen
    d = os.path.join(build.REPO, 'src/ergo')
    out += [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.c') and x != 'schnorr.c' and os.path.join(d, x) not in out]
    return out

def everything(cmd, d, last):
    try:
        build.run(cmd + last)
    except build.BuildError as e:
        missing = sorted(set(re.findall(r"undefined (?:reference to `|symbol: )(\w+)", e.full)))
        if not missing: raise
        f = os.path.join(d, 'missing.c')
        open(f, 'w').write('void abort(void);\n' + ''.join('void %s(void) { abort(); }\n' % m for m in missing))
        build.run(cmd + ['-fno-builtin', f] + last)

def make(harness, san):
    h = build.tree_hash('native', harness, SAN[san], [open(os.path.join(NAT, f)).read() for f in ('n.c', 'n.h', harness + '.c')])
    d = os.path.join(build.OUT, 'n_%s_%s-%s' % (harness, san, h))
    exe = os.path.join(d, 'harness')
    lock = build.locked(d)
    try:
        if os.path.exists(exe): return exe
        os.makedirs(d, exist_ok=True)
        emu = build.HERE
        cmd = (['clang', '-std=gnu11', '-w', '-fno-common', '-ffunction-sections', '-fdata-sections', '-Wl,--gc-sections', '-include', os.path.join(emu, 'include', 'emu_prefix.h')] +
               build.defines() + SAN[san] + ['-I' + os.path.join(emu, 'include'), '-I' + os.path.join(emu, 'sdk'), '-isystem', os.path.join(build.REPO, 'src'), '-I' + NAT,
               os.path.join(NAT, 'n.c'), os.path.join(NAT, harness + '.c')] +
               [os.path.join(emu, 'sdk', x + '.c') for x in ('buffer', 'bip32', 'read', 'write', 'varint', 'crypto_prims')] + ['-o', exe + '.tmp'])
        try:
            build.run(cmd + sources() + LAST.get(san, []))
        except build.BuildError:
            # a part of the library moved to another file: take everything, what needs the device stays unresolved and uncalled
            everything(cmd + build.app_sources(), d, LAST.get(san, []))
        os.rename(exe + '.tmp', exe)
        return exe
    finally:
        lock.close()

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', MSAN_OPTIONS='exitcode=77')

def run(exe, seed, first, count, scratch, timeout=600):
    try:
        r = subprocess.run([exe, str(seed), str(first), str(count)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=scratch, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(fails=[], saw={}, focus=[], done=0, distinct=0, err='no answer within %d s' % timeout)
    o = dict(fails=[], saw=collections.Counter(), focus=[], done=0, distinct=0, err=None)
    case = None
    for l in r.stdout.decode(errors='replace').splitlines():
        f = l.split('\t')
        if f[0] == 'FAIL': o['fails'].append((int(f[1]), f[2], f[3]))
        elif f[0] == 'SAW': o['saw'][f[1]] += int(f[2])
        elif f[0] == 'FOCUS': o['focus'].append(f[1])
        elif f[0] == 'DONE': o['done'], o['distinct'] = int(f[1]), int(f[2])
        elif f[0] in ('DIED', 'HANG'): case = (f[0], int(f[1]))
    if not o['done']:
        err = r.stderr.decode(errors='replace')
        if case and case[0] == 'HANG': o['fails'].append((case[1], 'hang', 'no end within 60 s'))
        elif case or r.returncode == 77:
            m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|ERROR: [^\n]*)', err)
            fr = [x for x in re.findall(r'#\d+ \S+ in (\S+) ([^\s)]+)', err) if '/src/' in x[1]]
            o['fails'].append((case[1] if case else -1, 'crash', '%s in %s' % (re.sub(r'0x[0-9a-f]+', '0x..', m.group(1)) if m else 'abnormal end', fr[0][0] if fr else '?')))
        elif not o['fails']: o['err'] = 'ended with %d: %s' % (r.returncode, err[-500:])
    return o

def run_checks(p, tier, seed, scratch):
    tasks, missing_f = [], []
    for harness, san, quick, thorough in p['native']:
        n = quick if tier == 'quick' else thorough
        size = max(1, -(-n // 8))
        for first in range(0, n, size): tasks.append((harness, san, first, min(size, n - first)))
    exes = {}
    with ThreadPoolExecutor(8) as ex:
        for (h, s), e in zip(sorted({t[:2] for t in tasks}), ex.map(lambda k: make(*k), sorted({t[:2] for t in tasks}))): exes[h, s] = e
    saw, focus, errs, cand = collections.Counter(), set(), [], []
    n = distinct = 0
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: run(exes[t[0], t[1]], seed, t[2], t[3], scratch, 900 if tier == 'quick' else 7200), tasks))
    per = collections.Counter()
    for t, o in zip(tasks, res):
        saw += collections.Counter(o['saw']); focus |= set(o['focus']); n += o['done']
        if t[1] == p['native'][0][1]: distinct += o['distinct']
        per['%s (%s)' % t[:2]] += o['done']
        if o['err']: errs.append('%s %s from %d: %s' % (t[0], t[1], t[2], o['err']))
        for case, key, detail in o['fails']: cand.append((key, detail, t[0], t[1], case))
    viol, flaky, seen = [], [], set()
    for key, detail, h, s, case in cand:
        if key in seen or len(viol) >= 3: continue
        seen.add(key)
        o = run(exes[h, s], seed, case, 1, scratch)
        if any(f[1] == key for f in o['fails']):
            viol.append(dict(key=key, detail=detail, workload=h, build=s, case=case, step=0, trace=[]))
        else: flaky.append((key, detail, '%s/%s/%d' % (h, s, case), o['err']))
    samples = [dict(harness=h, build=s, seed=seed, case=c, replay='%s %d %d 1' % (os.path.basename(os.path.dirname(exes[h, s])), seed, c)) for h, s, c, _ in tasks[:2]]
    missing = sorted(f for f in focus if not saw[f])
    cov = dict(evaluations=n, distinct_nontrivial=distinct,
               rule='Seeded random cases given to the library functions themselves, each compared with the definition written in the harness; '
                    'two cases are the same when the operations, sizes and outcomes that went into their signature are equal (counted in the first build only, per process).',
               samples=samples, observed=dict(sorted(saw.items())), cases_per_workload=dict(per))
    return viol, flaky, errs, missing, cov

def replay(p, v, scratch):
    exe = make(v['workload'], v['build'])
    o = run(exe, v['seed'], v['case'], 1, scratch)
    for f in o['fails']: print('case %d: %s: %s' % f)
    if any(f[1] == v['key'] for f in o['fails']):
        print('VIOLATION property=%s replay=%s' % (v['property'], v.get('path', ''))); return 1
    print('not reproduced'); return 0
