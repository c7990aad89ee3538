#!/usr/bin/env python3
"""Builds the emulator with the application sources of /repo's working tree.

Usage from Python: build.build('asan') -> path of the executable.  Output goes to /verif/build/<hash>/.
"""
import hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')

class BuildError(Exception):
    full = ''

SAN_ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,function',
            '-fsanitize=bounds', '-fstrict-flex-arrays=3', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {
    # name: (flags for application and SDK code, flags for the crypto primitives, extra defines, link flags)
    # locals nobody sets hold 0xAA..: as a key, a count, an amount it shows, where what happens to be on the stack may be harmless
    'asan':    (['-O1', '-g', '-ftrivial-auto-var-init=pattern'] + SAN_ASAN, ['-O2'], [], SAN_ASAN),
    'asan_s':  (['-O1', '-g'] + SAN_ASAN, ['-O2'], ['-DTARGET_NANOS'], SAN_ASAN),
    'asan_d':  (['-O1', '-g'] + SAN_ASAN, ['-O2'], ['-DDEBUG_BUILD=1'], SAN_ASAN),
    'msan':    (['-O1', '-g', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-omit-frame-pointer'],
                ['-O2', '-fsanitize=memory'], [], ['-fsanitize=memory']),
    'residue': (['-O0', '-g', '-fno-stack-protector'], ['-O2'], ['-DEMU_RESIDUE'], ['-static']),
    'residue_o2': (['-Os', '-g', '-fno-stack-protector'], ['-O2'], ['-DEMU_RESIDUE'], ['-static']),
    'plain':   (['-O2', '-g'], ['-O2'], [], []),
}

def m32():
    """compiler and linker options for a 32-bit executable with the address sanitizer, or None where that cannot be built"""
    lib = '/usr/lib32'
    rt = subprocess.run(['clang', '-print-resource-dir'], stdout=subprocess.PIPE).stdout.decode().strip() + '/lib/linux'
    a, b = rt + '/libclang_rt.asan-i386.a', rt + '/libclang_rt.builtins-i386.a'
    libs = [os.path.join(lib, x) for x in ('libm.so.6', 'libc.so.6', 'ld-linux.so.2', 'libgcc_s.so.1')]
    arch = '/usr/include/x86_64-linux-gnu'
    if not all(os.path.exists(x) for x in libs + [a, b, arch]): return None
    # -fsanitize at the link would bring in the start files and libraries of the missing package
    return (['-m32', '-msse2', '-funsigned-char', '-fshort-enums', '-isystem', os.path.join(HERE, 'm32', 'include'), '-idirafter', arch],
            ['-m32', '-nostdlib', '-no-pie', '-Wl,-z,noexecstack', '-Wl,--whole-archive', a, '-Wl,--no-whole-archive'],
            [b] + libs + ['-Wl,--export-dynamic', '-Wl,-dynamic-linker,/lib/ld-linux.so.2'])
M32 = m32()
if M32:
    VARIANTS['asan32'] = (M32[0] + ['-O1', '-g'] + SAN_ASAN, M32[0] + ['-O2'], [], M32[1])
else:   # judged by the 64-bit build alone
    VARIANTS['asan32'] = VARIANTS['asan']

def app_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        out += [os.path.join(d, f) for f in fs if f.endswith('.c')]
    return sorted(out)

def version_defines():
    m = n = p = None
    name = 'Ergo'
    try:
        t = open(os.path.join(REPO, 'Makefile')).read()
        m = re.search(r'^APPVERSION_M\s*=\s*(\d+)', t, re.M).group(1)
        n = re.search(r'^APPVERSION_N\s*=\s*(\d+)', t, re.M).group(1)
        p = re.search(r'^APPVERSION_P\s*=\s*(\d+)', t, re.M).group(1)
        name = re.search(r'^APPNAME\s*=\s*"([^"]*)"', t, re.M).group(1)
    except Exception:
        m, n, p = m or '0', n or '0', p or '5'
    return name, (int(m), int(n), int(p))

def defines():
    name, (m, n, p) = version_defines()
    return ['-DAPPNAME="%s"' % name, '-DAPPVERSION="%d.%d.%d"' % (m, n, p), '-DMAJOR_VERSION=%d' % m,
            '-DMINOR_VERSION=%d' % n, '-DPATCH_VERSION=%d' % p, '-DHAVE_BAGL', '-DHAVE_UX_FLOW',
            '-DIO_APDU_BUFFER_SIZE=260', '-DTARGET_EMU']

def tree_hash(*extra):
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, 'src'), HERE):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs if f.endswith(('.c', '.h') if root != HERE else ('.c', '.h', '.py'))]
    files.append(os.path.join(REPO, 'Makefile'))
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        try:
            h.update(open(f, 'rb').read())
        except OSError:
            pass
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        e = BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-3000:])
        e.full = r.stdout.decode(errors='replace')
        raise e

def compile_all(jobs, link, d):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
    run(link)

def locked(d):
    os.makedirs(OUT, exist_ok=True)
    f = open(d + '.lock', 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def build(variant):
    flags, pflags, defs, lflags = VARIANTS[variant]
    d = os.path.join(OUT, variant + '-' + tree_hash(VARIANTS[variant], defines()))
    exe = os.path.join(d, 'emu')
    lock = locked(d)
    try:
        if os.path.exists(exe):
            return exe
        os.makedirs(d, exist_ok=True)
        inc = ['-I' + os.path.join(HERE, 'include'), '-I' + os.path.join(HERE, 'sdk'), '-isystem', os.path.join(REPO, 'src')]
        common = ['clang', '-std=gnu11', '-w', '-fno-common', '-include', os.path.join(HERE, 'include', 'emu_prefix.h')] + defines() + defs + inc
        jobs, objs = [], []
        for i, s in enumerate(app_sources()):
            o = os.path.join(d, 'a%02d_%s.o' % (i, os.path.basename(s)[:-2]))
            jobs.append(common + flags + (['-finstrument-functions', '-fno-omit-frame-pointer'] if variant == 'residue' else ['-DEMU_MEMBERS'] if 'asan' in variant else []) + ['-c', s, '-o', o])
            objs.append(o)
        for s in sorted(os.listdir(os.path.join(HERE, 'sdk'))):
            if not s.endswith('.c'):
                continue
            o = os.path.join(d, 's_' + s[:-2] + '.o')
            jobs.append(common + (pflags if s == 'crypto_prims.c' else flags) + (['-fzero-call-used-regs=all'] if '-DEMU_RESIDUE' in defs else []) + ['-c', os.path.join(HERE, 'sdk', s), '-o', o])
            objs.append(o)
        if '-DEMU_RESIDUE' in defs:
            lflags = lflags + ['-Wl,--wrap=' + f for f in re.findall(r'^TRAMPOLINE\((\w+)\)', open(os.path.join(HERE, 'sdk', 'wrapped.h')).read(), re.M)]
        if variant == 'asan32' and M32:
            o = os.path.join(d, 'start.o')
            jobs.append(['clang', '-m32', '-O1', '-c', os.path.join(HERE, 'm32', 'start.c'), '-o', o])
            objs.append(o)
        tmp = exe + '.tmp'
        compile_all(jobs, ['clang', '-fuse-ld=bfd'] + lflags + objs + (M32[2] if variant == 'asan32' and M32 else []) + ['-o', tmp], d)
        os.rename(tmp, exe)
        for o in objs:
            try: os.unlink(o)
            except OSError: pass
        return exe
    finally:
        lock.close()

if __name__ == '__main__':
    for v in (sys.argv[1:] or ['asan']):
        print(build(v))
