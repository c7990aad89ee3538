#!/usr/bin/env python3
"""Mechanical mutants of /repo's sources, as a measure of the oracles: which compile, pass the unit tests, and are not noticed?

usage: mutate.py OUT.jsonl [-k 1|2 (kind of changes)] [-n COUNT] [-s SEED] [-j JOBS] [-f FILE-SUBSTRING]
Every mutant lives in a scratch copy below /tmp.  One line per mutant: file, line, change, verdict
(nobuild, unit, emu: keys, native: keys, survived)."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, collections, hashlib
from multiprocessing import Process, Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; out = a.pop(0); N, SEED, J, FILT, FAM = 100, 1, 8, '', '1'
while a:
    k = a.pop(0); v = a.pop(0)
    if k == '-n': N = int(v)
    elif k == '-s': SEED = int(v)
    elif k == '-j': J = int(v)
    elif k == '-f': FILT = v
    elif k == '-k': FAM = v

def candidates(path):
    ls = open(path).read().split('\n'); res = []
    depth_comment = False; body = False
    for i, l in enumerate(ls):
        s = l.strip()
        if s.startswith('/*'): depth_comment = True
        if depth_comment:
            if '*/' in s: depth_comment = False
            continue
        if not s or s.startswith(('#', '//', '*', 'static const', 'extern', 'typedef')): continue
        if re.search(r'\bSTATIC_ASSERT|_Static_assert|UNUSED\(|printf|PRINTF', s): continue
        code = re.sub(r'//.*', '', l)
        def add(new, kind):
            if new != l: res.append((i, l, new, kind))
        for m in re.finditer(r'(?<![<>=!-])(==|!=|<=|>=|<|>)(?![<>=])', code):
            if '#include' in code or re.search(r'"[^"]*$', code[:m.start()]): continue
            o = m.group(1)
            for n in {'==': ['!='], '!=': ['=='], '<': ['<=', '>='], '<=': ['<'], '>': ['>='], '>=': ['>']}[o]:
                add(l[:m.start()] + n + l[m.end():], 'rel')
        for m in re.finditer(r'&&|\|\|', code): add(l[:m.start()] + ('||' if m.group() == '&&' else '&&') + l[m.end():], 'logic')
        for m in re.finditer(r'(?<=[\w\)\] ])([+\-])(?=[ \w\(])(?![+\-=>])', code):
            if code[m.start() - 1] in '+-(' or re.search(r'(return|[=,(]) ?$', code[:m.start()]): continue
            add(l[:m.start()] + ('-' if m.group() == '+' else '+') + l[m.end():], 'arith')
        for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."xX])', code):
            if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
            n = int(m.group(1)); add(l[:m.start()] + str(n + 1) + l[m.end():], 'const')
            if n: add(l[:m.start()] + str(n - 1) + l[m.end():], 'const')
        m = re.match(r'^(\s*)(?!return|break|continue|goto|case|default|else|if|while|for|do|\}|const|static|u?int|bool|size_t|char|struct|cx_)([\w\(\*].*;)\s*$', code)
        if m and not re.match(r'^\s*[\w]+(\s+|\s*\*\s*)\w+(\[[^\]]*\])?(\s*=.*)?;\s*$', code) and (ls[i - 1].strip().endswith((';', '{', '}', ':')) or not ls[i - 1].strip()):
            add(m.group(1) + ';', 'delete')
        m = re.match(r'^(\s*)(break);\s*$', code)
        if m: add(m.group(1) + ';', 'delbreak')
        m = re.match(r'^(\s*(?:\} else )?(?:else )?(?:if|while) \()(.*)(\) \{\s*)$', code)
        if m:
            add(m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'neg')
            if 'while' not in m.group(1): add(m.group(1) + '0' + m.group(3), 'never'); add(m.group(1) + '1' + m.group(3), 'always')
        m = re.match(r'^(\s*(?:else )?if \()(.*)(\) (?:break|continue|return\b.*);\s*)$', code)
        if m: add(m.group(1) + '0' + m.group(3), 'never'); add(m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'neg')
        m = re.match(r'^(\s*return )(.+)(;\s*)$', code)
        if m:
            v = m.group(2)
            if v in ('true', 'false'): add(m.group(1) + ('false' if v == 'true' else 'true') + m.group(3), 'ret')
        m = re.match(r'^\s*(CHECK_\w+|RET_\w+|return_|if_)', code)
        for m in re.finditer(r'\b(true|false)\b', code):
            if not code.strip().startswith('return'): add(l[:m.start()] + ('false' if m.group() == 'true' else 'true') + l[m.end():], 'bool')
        for m in re.finditer(r'\bsizeof\(([^()]*)\)', code): add(l[:m.end()] + ' - 1' + l[m.end():], 'size')
        for m in re.finditer(r'\b(HARDENED|UINT64_MAX|INT64_MAX|MAX_\w+)\b', code): add(l[:m.end()] + ' - 1' + l[m.end():], 'max')
    return res

def candidates2(path):
    """changes of meaning rather than of a token: types narrowed, conditions dropped, byte order, names of the same family, statements swapped or done twice, arguments swapped, lengths"""
    ls = open(path).read().split('\n'); res = []
    whole = '\n'.join(ls)
    names = sorted(set(re.findall(r'\b[A-Z][A-Z0-9]+(?:_[A-Z0-9]+)+\b', whole)))
    comment = False
    stmt = re.compile(r'^(\s{4,})(?!return|break|continue|goto|case|default|else|if|while|for|do\b|\}|const|static|u?int\w* |bool |size_t |char |struct|cx_\w+_t |\w+_[te] )[\w\(\*][^{}]*;\s*$')
    full = lambda l: l.count('(') == l.count(')') and bool(stmt.match(l))
    for i, l in enumerate(ls):
        st = l.strip()
        if st.startswith('/*'): comment = True
        if comment:
            if '*/' in st: comment = False
            continue
        if not st or st.startswith(('#', '//', '*', 'extern', 'typedef')) or re.search(r'\bSTATIC_ASSERT|_Static_assert|UNUSED\(|PRINTF|LEDGER_ASSERT', st) or st.endswith('\\'): continue
        code = re.sub(r'//.*', '', l)
        def add(new, kind):
            if new != l: res.append((i, l, new, kind))
        for a, b in (('uint64_t', 'uint32_t'), ('uint32_t', 'uint16_t'), ('uint16_t', 'uint8_t'), ('size_t', 'uint8_t'), ('int64_t', 'int32_t')):
            for m in re.finditer(r'\b' + a + r'\b(?! ?\*| *\w+\[)', code): add(l[:m.start()] + b + l[m.end():], 'narrow')
        for m in re.finditer(r'\b(BE|LE)\b', code): add(l[:m.start()] + ('LE' if m.group() == 'BE' else 'BE') + l[m.end():], 'endian')
        m = re.match(r'^(\s*(?:\} else )?(?:else )?if \()(.*)(\).*)$', code)
        if m and m.group(2).count('(') == m.group(2).count(')'):
            for op in (' && ', ' || '):
                parts = m.group(2).split(op)
                if len(parts) > 1 and all(x.count('(') == x.count(')') for x in parts):
                    for k in range(len(parts)): add(m.group(1) + op.join(parts[:k] + parts[k + 1:]) + m.group(3), 'operand')
        for m in re.finditer(r'(&&|\|\|)\s*$', code):      # a condition of several lines: without this part
            if '(' in code and code[:m.start()].count('(') == code[:m.start()].count(')'): add(re.match(r'\s*', l).group(), 'operand')
        for m in re.finditer(r'\b[A-Z][A-Z0-9]+(?:_[A-Z0-9]+)+\b', code):
            w = m.group(); pre = w.rsplit('_', 1)[0]
            sib = [x for x in names if x != w and x.startswith(pre + '_')]
            if not sib and pre.count('_') > 1: sib = [x for x in names if x != w and x.startswith(pre.rsplit('_', 1)[0] + '_')]
            if sib and not code.strip().startswith('case'): add(l[:m.start()] + random.Random(i).choice(sib) + l[m.end():], 'name')
        for m in re.finditer(r'(\w+_LEN|\w+_SIZE|sizeof\([^()]*\))(?=\)+;|\) [!=]=|,)', code): add(l[:m.end()] + ' - 1' + l[m.end():], 'len')
        if full(l):
            if '(' in st or re.search(r'\+|-=', st): add(l + ' ' + st, 'twice')
            if i + 1 < len(ls) and full(ls[i + 1]) and re.match(r'\s*', l).group() == re.match(r'\s*', ls[i + 1]).group(): add(ls[i + 1] + '\0' + l, 'swap')
        for m in re.finditer(r'\((\w+(?:->\w+|\.\w+)*), (\w+(?:->\w+|\.\w+)*)\)', code):
            if not re.search(r'\b(static|inline|bool|void|u?int\w+)\b', code[:m.start()]): add(l[:m.start()] + '(%s, %s)' % (m.group(2), m.group(1)) + l[m.end():], 'args')
        for a, b in ((' += ', ' = '), (' -= ', ' += '), ('++', '--'), ('--;', '++;'), (' |= ', ' = '), (' << ', ' >> '), (' & ', ' | '), (' / ', ' * '), (' * ', ' + '), ('[i]', '[0]'), ('&ctx->', '&ctx->'), (' = true', ' = false')):
            if a in code and '"' not in code: add(l.replace(a, b, 1), 'op')
        m = re.match(r'^(\s*)(\w[\w\->.\[\]]* = )(?!0;)([^;{]*);\s*$', code)
        if m: add(m.group(1) + m.group(2) + '0;', 'zero')
    return res
if FAM == '2': candidates = candidates2

COMBO = [('valid', 60), ('stages', 60), ('mutated', 60), ('limits', 60), ('change', 60), ('tokens_many', 25), ('overflow', 70), ('rejecting', 40), ('several', 25), ('frames', 70),
         ('forged', 40), ('attest', 60), ('attest_mut', 60), ('consent', 60), ('extpub', 20), ('address', 30), ('paths', 50), ('change_paths', 40), ('headers', 15), ('hostile', 50),
         ('nav', 50), ('exhaustive_nav', 40), ('nonces', 15), ('sessions', 15), ('boots', 5), ('isolation', 30), ('stale', 40), ('big', 6), ('fault', 120), ('fault_enum', 2400), ('sweep', 1), ('wrong_id', 60), ('noisy', 10)]
NAT = ['codec', 'buffers', 'paths', 'serial', 'trees', 'numbers']

def worker(idx, tasks, results):
    tmp = tempfile.mkdtemp(prefix='mut%d-' % idx)
    repo = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('_build', 'build', '.git'))
    os.environ['VERIF_REPO'] = repo
    sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'emu')]
    import build, device, gen, run as runm, scen, native, check
    build.OUT = os.path.join(tmp, 'out')
    sh = lambda cmd, t=120: subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    env = dict(os.environ, CC='gcc')
    subprocess.run(['cmake', '-S', repo + '/unit-tests', '-B', repo + '/_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DBUILD_TESTING=ON'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
    name, version = build.version_defines()
    # incremental emulator build
    flags, pflags, defs, lflags = build.VARIANTS['asan']
    ob = os.path.join(tmp, 'obj'); os.makedirs(ob)
    inc = ['-I' + os.path.join(build.HERE, 'include'), '-I' + os.path.join(build.HERE, 'sdk'), '-isystem', os.path.join(repo, 'src')]
    common = ['clang', '-std=gnu11', '-w', '-fno-common', '-include', os.path.join(build.HERE, 'include', 'emu_prefix.h')] + build.defines() + defs + inc
    def cc(s, fl):
        o = os.path.join(ob, hashlib.sha256(s.encode()).hexdigest()[:10] + '.o')
        r = sh(common + fl + ['-c', s, '-o', o])
        return (o, None) if r.returncode == 0 else (o, r.stdout.decode(errors='replace')[-800:])
    sdk = [os.path.join(build.HERE, 'sdk', s) for s in os.listdir(os.path.join(build.HERE, 'sdk')) if s.endswith('.c')]
    for s in sdk: cc(s, pflags if s.endswith('crypto_prims.c') else flags)
    for s in build.app_sources(): cc(s, flags)
    exe = os.path.join(tmp, 'emu')
    def one(f, line, old, new):
        p = os.path.join(repo, f); src = open(p).read(); ls = src.split('\n')
        assert ls[line] == old
        for k, x in enumerate(new.split('\0')): ls[line + k] = x
        open(p, 'w').write('\n'.join(ls))
        touched = [p] if f.endswith('.c') else build.app_sources()
        try:
            for s in touched:
                o, e = cc(s, flags)
                if e: return dict(verdict='nobuild')
            r = sh(['ninja', '-C', repo + '/_build'])
            if r.returncode: return dict(verdict='nobuild')
            r = subprocess.run(['python3', '/opt/vp/run_cmocka.py', repo + '/_build'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
            passed = {x[5:] for x in r.stdout.decode().splitlines() if x.startswith('PASS ')}
            if stable - passed: return dict(verdict='unit')
            objs = [os.path.join(ob, x) for x in os.listdir(ob) if x.endswith('.o')]
            r = sh(['clang', '-fuse-ld=bfd'] + lflags + objs + ['-o', exe])
            if r.returncode: return dict(verdict='nolink')
            keys = collections.Counter(); where = {}; cases = 0; bad = 0; errs = 0
            w = check.Worker({'asan': exe}, tmp, version, name)
            order = [(s, i) for s, n in COMBO for i in range(n)]
            random.Random(7).shuffle(order)
            t0 = time.time()
            for s, i in order:
                cid = '1/%s/asan/%d' % (s, i)
                rr, err = w.case(s, 'asan', {}, cid)
                cases += 1
                if err and not (rr and rr.mis): errs += 1; where.setdefault('error', err[-200:])
                mis = rr.mis if rr else []
                if mis and s in ('fault', 'isolation', 'noisy'):
                    rc, ec = w.case(s, 'asan', {}, cid, True)
                if mis:
                    bad += 1
                    for m in mis: keys[m.key] += 1; where.setdefault(m.key, s)
                if bad >= 6 or errs > 5 or any(k.startswith('hang') for k in keys) and bad >= 2: break
                if time.time() - t0 > 120: break
            for v in list(w.devs): w.drop(v)
            res = dict(cases=cases, bad=bad, errs=errs, keys=dict(keys), where=where)
            lib = any(f.startswith(x) or x.startswith(f) for x in native.LIB) or f.endswith('.h')
            nk = {}
            if lib:
                for h in NAT:
                    try: e = native.make(h, 'asan')
                    except build.BuildError: nk[h] = 'nobuild'; continue
                    o = native.run(e, 1, 0, 12000 if h == 'serial' else 60000, tmp, 200)
                    if o['fails']: nk[h] = sorted({x[1] for x in o['fails']})[:6]
                    elif o['err']: nk[h] = ['err ' + o['err'][:80]]
                shutil.rmtree(build.OUT, ignore_errors=True)
            res['native'] = nk
            res['verdict'] = 'caught' if keys or nk else 'survived'
            return res
        finally:
            open(p, 'w').write(src)
            for s in touched: cc(s, flags)
    while True:
        t = tasks.get()
        if t is None: break
        t0 = time.time()
        try: r = one(*t[:4])
        except subprocess.TimeoutExpired: r = dict(verdict='timeout')
        except Exception as e: r = dict(verdict='error', err=repr(e)[:300])
        r.update(file=t[0], line=t[1] + 1, old=t[2].strip(), new=t[3].strip(), kind=t[4], s=round(time.time() - t0, 1))
        results.put(r)
    shutil.rmtree(tmp)
    results.put(None)

if __name__ == '__main__':
    allc = []
    for d, _, fs in os.walk('/repo/src'):
        for f in sorted(fs):
            if f.endswith(('.c', '.h')):
                p = os.path.join(d, f); rel = os.path.relpath(p, '/repo')
                if f.endswith('.h') and 'inline' not in open(p).read(): continue
                if FILT in rel: allc += [(rel,) + c for c in candidates(p)]
    random.Random(SEED).shuffle(allc)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l); done.add((x['file'], x['line'], x['new']))
    todo = [c for c in allc if (c[0], c[1] + 1, c[3].strip()) not in done][:N]
    print('%d candidates, %d to run' % (len(allc), len(todo)))
    tq, rq = Queue(), Queue()
    for c in todo: tq.put(c)
    for _ in range(J): tq.put(None)
    ps = [Process(target=worker, args=(i, tq, rq)) for i in range(J)]
    for p in ps: p.start()
    left = J; cnt = collections.Counter()
    with open(out, 'a') as f:
        while left:
            r = rq.get()
            if r is None: left -= 1; continue
            cnt[r['verdict']] += 1
            f.write(json.dumps(r) + '\n'); f.flush()
    print(dict(cnt))
