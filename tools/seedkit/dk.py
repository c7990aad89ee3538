"""Small driver for demonstrations: the application of ./src (cwd) on the emulated device in kit/."""
import os, shutil, sys, tempfile
KIT = os.path.dirname(os.path.abspath(__file__))
os.environ['VERIF_REPO'] = os.getcwd()
sys.dont_write_bytecode = True
sys.path[:0] = [KIT, os.path.join(KIT, 'emu')]
import build, device, ref
TMP = tempfile.mkdtemp(prefix='demo-')
build.OUT = os.path.join(TMP, 'build')
H = 0x80000000
PATH = [H + 44, H + 429, H + 0, 0, 3]
FEE = ref.FEE_TREE
def be(n, w): return n.to_bytes(w, 'big')
def encp(p): return bytes([len(p)]) + b''.join(be(x, 4) for x in p)
def chunks(b): return [b[i:i + 255] for i in range(0, len(b), 255)]

class Dead(Exception): pass
class Refused(Exception): pass

def finish(ok, why=''):
    shutil.rmtree(TMP, ignore_errors=True)
    print('OK' if ok else 'BROKEN: ' + str(why))
    sys.stdout.flush()
    os._exit(0 if ok else 1)

def main(f):
    """f() returns None when all is well, otherwise what is broken"""
    try:
        r = f()
    except build.BuildError as e:
        shutil.rmtree(TMP, ignore_errors=True); print(str(e)[-3000:]); os._exit(3)
    except Dead as e: r = 'the device ended: %s' % e
    except Refused as e: r = 'refused: %s' % e
    finish(r is None, r)

class Box:
    def __init__(self, value, toks=(), txid=b'\x11' * 32, index=0, tree=None, height=100, regs=b''):
        self.value, self.toks, self.txid, self.index = value, list(toks), txid, index
        self.tree = tree if tree is not None else ref.p2pk_tree(b'\x02' + b'\x77' * 32)
        self.height, self.regs = height, regs
    def id(self): return ref.box_id(ref.box_body(self.value, self.tree, self.height, self.toks, self.regs), self.txid, self.index)
    def nframes(self): return max(1, (len(self.toks) + 3) // 4)

class D:
    def __init__(self, variant='plain', seed=1):
        self.seed = seed
        self.dev = device.Device(build.build(variant), TMP)
        self.page = None
        self.ev = self._see(self.dev.boot(seed))
    def _see(self, evs):
        if evs.screens: self.page = evs.screens[-1][1:]
        self.ev = evs
        if evs.exit is not None: raise Dead(self.dev.stderr()[-1500:] or 'exit %x' % evs.exit)
        return evs
    def raw(self, b):
        evs = self._see(self.dev.send('A', bytes(b)))
        if not evs.responses: return None
        _, data, sw = evs.responses[0]
        return sw, data
    def apdu(self, ins, p1, p2, data=b''): return self.raw(bytes([0xE0, ins, p1, p2, len(data)]) + data)
    def ok(self, ins, p1, p2, data=b''):
        r = self.apdu(ins, p1, p2, data)
        if r is None or r[0] != 0x9000: raise Refused('ins %02x p1 %02x: %s' % (ins, p1, 'prompt' if r is None else '%04x' % r[0]))
        return r[1]
    def press(self, b):
        evs = self._see(self.dev.send(b))
        if not evs.responses: return None
        _, data, sw = evs.responses[0]
        return sw, data
    def pages(self, b='R', n=80):
        """all pages of the open prompt, browsing until the first one comes again"""
        out = [self.page]
        for _ in range(n):
            if self.press(b) is not None: return out
            if self.page == out[0]: return out
            out.append(self.page)
        return out
    def goto(self, what, b='R'):
        for _ in range(120):
            if what in ' '.join(x for x in self.page if x).lower() and not self.page[1]: return True
            if self.press(b) is not None: return False
        return False
    def approve(self): return self.press('B') if self.goto('approve') and self.page[0].strip().lower() == 'approve' else self._next('approve')
    def _next(self, w):
        for _ in range(120):
            self.press('R')
            if self.page[0].strip().lower() == w: return self.press('B')
    def reject(self):
        for _ in range(120):
            if self.page[0].strip().lower() == 'reject': return self.press('B')
            self.press('R')
    # ---- commands
    def attest_stream(self, b, token=None):
        """everything up to the frame count; answers (session, number of frames)"""
        r = self.apdu(0x20, 1, 1 if token is None else 2, b.txid + be(b.index, 2) + be(b.value, 8) + be(len(b.tree), 4) + be(b.height, 4) +
                      bytes([len(b.toks)]) + be(len(b.regs), 4) + (b'' if token is None else be(token, 4)))
        if r is None: r = self.approve()
        if r is None or r[0] != 0x9000: raise Refused('attest %s' % (r,))
        s = r[1][0]; last = b''
        for c in chunks(b.tree): last = self.ok(0x20, 2, s, c)
        for i in range(0, len(b.toks), 6): last = self.ok(0x20, 3, s, b''.join(t + be(v, 8) for t, v in b.toks[i:i + 6]))
        for c in chunks(b.regs): last = self.ok(0x20, 4, s, c)
        return s, last[0] if last else 0
    def attest(self, b, token=None):
        s, n = self.attest_stream(b, token)
        return [self.ok(0x20, 5, s, bytes([i])) for i in range(n)]
    def sign_open(self, path=PATH, net=0, token=None):
        r = self.apdu(0x21, 1, 1 if token is None else 2, bytes([net]) + encp(path) + (b'' if token is None else be(token, 4)))
        if r is None: r = self.approve()
        if r is None or r[0] != 0x9000: raise Refused('sign %s' % (r,))
        return r[1][0]
    def start(self, s, ni, nd, nt, no): return self.ok(0x21, 0x10, s, be(ni, 2) + be(nd, 2) + bytes([nt]) + be(no, 2))
    def tokens(self, s, ids):
        for i in range(0, len(ids), 7): self.ok(0x21, 0x11, s, b''.join(ids[i:i + 7]))
    def inp(self, s, frames, ext=b''):
        for i, f in enumerate(frames): self.ok(0x21, 0x12, s, f + (be(len(ext), 4) if i == 0 else b''))
        for c in chunks(ext): self.ok(0x21, 0x13, s, c)
    def data_inputs(self, s, ids):
        for i in range(0, len(ids), 7): self.ok(0x21, 0x14, s, b''.join(ids[i:i + 7]))
    def out(self, s, value, kind, x=b'', toks=(), height=50, regs=b'', answer=True):
        """kind: tree (x = script), change (x = path), fee.  answer: approve the prompt, if any.
        -> True when a prompt came"""
        self.ok(0x21, 0x15, s, be(value, 8) + be(len(x) if kind == 'tree' else 0, 4) + be(height, 4) + bytes([len(toks)]) + be(len(regs), 4))
        q = [(0x16, c) for c in chunks(x)] if kind == 'tree' else [(0x17, b'')] if kind == 'fee' else [(0x18, encp(x))]
        if kind == 'tree' and not q: q = [(0x16, b'')]
        for i in range(0, len(toks), 6): q.append((0x19, b''.join(be(t, 4) + be(v, 8) for t, v in toks[i:i + 6])))
        for c in chunks(regs): q.append((0x1a, c))
        prompted = False
        for p1, d in q:
            r = self.apdu(0x21, p1, s, d)
            if r is None:
                prompted = True
                if not answer: return True
                r = self.approve()
            if r is None or r[0] != 0x9000: raise Refused('output %02x: %s' % (p1, r))
        return prompted
    def confirm(self, s):
        r = self.apdu(0x21, 0x20, s)
        if r is not None: raise Refused('confirm %04x' % r[0])
    def sign(self, s):
        self.confirm(s)
        r = self.approve()
        if r is None or r[0] != 0x9000: raise Refused('signature %s' % (r,))
        return r[1]
    def pk(self, path=PATH): return ref.pubkey(self.seed, path)
    def verify(self, sig, msg, path=PATH): return ref.sig_verify(sig, ref.pubpoint(self.seed, path), msg)[0]
    def close(self): self.dev.close()

def out_bytes(value, tree, toks=(), height=50, regs=b''): return ref.box_body(value, tree, height, list(toks), regs, idx=True)

def ids(*ns): return [bytes([n]) * 32 for n in ns]

def full(o):
    """(value, kind[, script or path[, tokens[, height[, registers]]]])"""
    return tuple(o) + (b'', (), 50, b'')[len(o) - 2:]

class Tx:
    """one transaction: everything but the answers to the prompts is streamed by go()"""
    def __init__(self, d, ins, outs, tokens=(), dins=(), path=PATH, net=0):
        self.d, self.ins, self.outs, self.tokens, self.dins, self.path, self.net = d, [x if isinstance(x, tuple) else (x, b'') for x in ins], outs, list(tokens), list(dins), path, net
        self.prompts = []; self.shown = []
    def begin(self, frames=None):
        d = self.d
        self.frames = frames or [d.attest(b) for b, _ in self.ins]
        self.s = d.sign_open(self.path, self.net)
        d.start(self.s, len(self.ins), len(self.dins), len(self.tokens), len(self.outs))
        d.tokens(self.s, self.tokens)
        for (b, ext), f in zip(self.ins, self.frames): d.inp(self.s, f, ext)
        d.data_inputs(self.s, self.dins)
        return self
    def output(self, o, answer=True):
        v, kind, x, toks, height, regs = full(o)
        r = self.d.out(self.s, v, kind, x, toks, height, regs, answer)
        self.prompts.append(r)
        return r
    def finish(self):
        """the summary: pages into .pages, then approval; -> signature"""
        self.d.confirm(self.s)
        self.pages = self.d.pages()
        r = self.d.approve()
        if r is None or r[0] != 0x9000: raise Refused('signature %s' % (r,))
        self.sig = r[1]
        return self.sig
    def go(self):
        self.begin()
        for o in self.outs: self.output(o)
        return self.finish()
    def message(self):
        bo = []
        for o in self.outs:
            v, kind, x, toks, height, regs = full(o)
            tree = x if kind == 'tree' else FEE if kind == 'fee' else ref.p2pk_tree(self.d.pk(x))
            bo.append(out_bytes(v, tree, toks, height, regs))
        return ref.tx_bytes([(b.id(), e) for b, e in self.ins], self.dins, self.tokens, bo)
    def good(self): return self.d.verify(self.sig, self.message(), self.path)

def shown(pages, title):
    """text of the pages with this title, joined"""
    return ''.join(b for a, b in pages if a == title or a.startswith(title + ' ('))

def script(n, b=0x51): return bytes([0x10 + (i * 7 + b) % 97 for i in range(n)])

def cprog(code, san='address,undefined', opt='-O1', libs=True):
    """compiles the program with the library part of the application and runs it; -> None or what it printed"""
    import subprocess
    repo = os.environ['VERIF_REPO']
    src = os.path.join(TMP, 'demo.c'); exe = os.path.join(TMP, 'demo')
    open(src, 'w').write(code)
    d = os.path.join(repo, 'src/common'); e = os.path.join(repo, 'src/ergo')
    fs = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.c')] + \
         [os.path.join(e, x) for x in sorted(os.listdir(e)) if x.endswith('.c') and x != 'schnorr.c'] + \
         [os.path.join(repo, 'src/helpers', x) for x in ('blake2b.c', 'input_frame.c')]
    emu = os.path.join(KIT, 'emu')
    build.run(['clang', '-std=gnu11', '-w', '-g', opt, '-ffunction-sections', '-fdata-sections', '-Wl,--gc-sections', '-fsanitize=' + san, '-fno-sanitize=pointer-overflow,function', '-fno-sanitize-recover=all',
               '-include', os.path.join(emu, 'include', 'emu_prefix.h')] + build.defines() +
              ['-I' + os.path.join(emu, 'include'), '-I' + os.path.join(emu, 'sdk'), '-I' + os.path.join(repo, 'src'), src] + fs +
              [os.path.join(KIT, 'stubs.c')] + [os.path.join(emu, 'sdk', x + '.c') for x in ('buffer', 'bip32', 'read', 'write', 'varint', 'crypto_prims')] + ['-o', exe])
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    return None if r.returncode == 0 else r.stdout.decode(errors='replace')[-1500:] or 'ended with %d' % r.returncode
