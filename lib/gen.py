"""Workload generation: transactions, boxes, navigation, mutations and hostile requests."""
import random
import ref
from run import Stop
H = 0x80000000
TOKMAX = 20

def be(n, w): return (n % (1 << (8 * w))).to_bytes(w, 'big')
def enc_path(p): return bytes([len(p)]) + b''.join(be(x, 4) for x in p)

VALS = [0, 1, 2, 9, 10, 127, 128, 999999999, 10**9, 10**9 + 1, 2**32 - 1, 2**32, 2**53 + 1, 10**18, 2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1]

class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self._ids = [self.bytes(32) for _ in range(15)]
        while len(self._ids) < 24:      # and some that differ little from another one
            x = self.r.choice(self._ids); k = self.r.randint(0, 4); i = self.r.randint(1, 31)
            if k == 0: x = x[:i] + self.bytes(32 - i)
            elif k == 1: x = self.bytes(i) + x[i:]
            elif k == 4: x = bytes([self.pick(0, 0, 255)]) * 32
            elif k == 2: x = bytearray(x); x[self.r.randint(0, 31)] ^= 1 << self.r.randint(0, 7)
            else: x = x[:i] + bytes(32 - i)
            x = bytes(x)
            if x not in self._ids: self._ids.append(x)
    def bytes(self, n): return self.r.randbytes(n)
    def p(self, x): return self.r.random() < x
    def pick(self, *a): return self.r.choice(a)
    def u64(self, big=.1):
        if self.p(big): return self.r.choice(VALS)
        return self.r.getrandbits(self.r.randint(1, 40))
    def u64any(self):
        return self.r.choice(VALS) if self.p(.5) else self.r.getrandbits(self.r.randint(1, 64))
    def u32(self):
        return self.r.choice([0, 1, 127, 128, 16383, 16384, 2**31 - 1, 2**31, 2**32 - 1]) if self.p(.3) else self.r.getrandbits(self.r.randint(1, 32))
    def hard(self):
        return H + (self.r.choice([0, 1, 2, 255, 256, 65536, 2**24, 2**31 - 1]) if self.p(.7) else self.r.getrandbits(31))
    def soft(self):
        return self.r.choice([0, 1, 19, 20, 21, 255, 256, 65536, 2**24, 2**31 - 1, 2**31 - 20, 2**31 - 21]) if self.p(.7) else self.r.getrandbits(31)
    def account_path(self, n=None):
        n = n or self.pick(3, 3, 3, 3, 4, 5, 6, 9, 10)
        return [H + 44, H + 429] + [self.hard() if n > 4 or self.p(.5) else H + self.r.randint(0, 9) for _ in range(n - 2)]
    def path(self, n=None, small=False):
        n = n or (5 if self.p(.7) else self.pick(5, 6, 7, 8, 9, 10))
        a = H + self.r.randint(0, 3) if small or self.p(.4) else self.hard()
        s = (lambda: self.r.randint(0, 30)) if small or self.p(.5) else self.soft
        return [H + 44, H + 429, a, self.r.randint(0, 1)] + [s() for _ in range(n - 4)]
    def bad_path(self):
        k = self.r.randint(0, 9)
        p = self.path()
        if k == 0: p[0] = self.pick(44, H + 43, H + 45, 0, H)
        elif k == 1: p[1] = self.pick(429, H + 428, H + 60, 0, H)
        elif k == 2: p[2] = p[2] & ~H
        elif k == 3: p[3] = self.pick(2, 3, H, H + 1, 255, 256)
        elif k == 4: p[self.r.randint(4, len(p) - 1)] |= H
        elif k == 5: p = p[:self.r.randint(0, 4)]
        elif k == 6: p = [self.r.getrandbits(32) for _ in range(self.r.randint(0, 10))]
        elif k == 7: p = self.account_path(self.r.randint(2, 10))
        elif k == 8: p = p[:2]
        else: p[self.r.randrange(len(p))] ^= 1 << self.r.randint(0, 31)
        return p
    def token(self): return self.r.choice(self._ids)
    def app_token(self): return self.r.choice([0, 1, 0x7fffffff, 0xffffffff, 0x01000000, 0xa1b2c3d4]) if self.p(.5) else self.r.getrandbits(32)

    # ---- trees ----
    def tree(self):
        k = self.r.random()
        pk = bytes([self.pick(2, 3)]) + self.bytes(32)
        if k < .3: return ref.p2pk_tree(pk)
        if k < .45: return ref.P2SH_PREFIX + self.bytes(24) + ref.P2SH_SUFFIX
        if k < .5: return ref.FEE_TREE
        if k < .75:     # near misses
            b = bytearray(self.pick(ref.p2pk_tree(pk), ref.p2pk_tree(pk), ref.P2SH_PREFIX + self.bytes(24) + ref.P2SH_SUFFIX))
            j = self.r.randint(0, 5)
            if j == 0: b = b[:-1]
            elif j == 1: b.append(self.r.getrandbits(8))
            elif j == 2: b[self.r.randrange(min(len(b), 18))] ^= 1 << self.r.randint(0, 7)
            elif j == 3: b[-self.r.randint(1, 4)] ^= 1 << self.r.randint(0, 7)
            elif j == 4: b[3] = self.pick(0, 1, 4, 5, 6, 7, 255) if len(b) == 36 else b[3] ^ 1
            else: b = b[:self.r.randint(0, len(b))]
            return bytes(b)
        return self.bytes(self.pick(0, 1, 2, 35, 36, 37, 43, 44, 45, 100, 254, 255, 256, 300, 509, 510, 511, 800) if self.p(.7) else self.r.randint(0, 1200))

class Step:
    """one request of a plan; data may be a function of the plan context"""
    __slots__ = ('ins', 'p1', 'p2', 'data', 'note')
    def __init__(self, ins, p1, p2, data=b'', note=''):
        self.ins, self.p1, self.p2, self.data, self.note = ins, p1, p2, data, note

class Ctx:
    def __init__(self): self.session, self.frames = 0, {}

def chunks(b, n=255):
    return [b[i:i + n] for i in range(0, len(b), n)] or [b'']
def split(g, b, lo=1, hi=255):
    out, i = [], 0
    while i < len(b):
        k = g.r.randint(lo, hi) if g.p(.6) else hi
        out.append(b[i:i + k]); i += k
    return out
def groups(g, items, hi):
    out, i = [], 0
    while i < len(items):
        k = g.r.randint(1, hi)
        out.append(items[i:i + k]); i += k
        if g.p(.05): out.append([])
    return out

class InBox:
    def __init__(self, g, ntok=None, value=None, big=.05, tokens=None):
        self.txid = g.bytes(32); self.index = g.pick(0, 1, 127, 128, 300, 65535) if g.p(.5) else g.r.getrandbits(16)
        self.value = g.u64(big) if value is None else value
        self.tree = g.tree(); self.height = g.u32()
        if tokens is None:
            n = g.pick(0, 0, 0, 1, 2, 3, 4, 5, 8, 9, 20) if ntok is None else ntok
            ids = g.r.sample(g._ids, n)
            tokens = [(t, g.u64(big)) for t in ids]
        self.toks = tokens
        self.regs = b'' if g.p(.6) else g.bytes(g.pick(1, 2, 30, 254, 255, 256, 600))
        self.frames = []
    def nframes(self): return max(1, (len(self.toks) + 3) // 4)

def attest_plan(g, box, key, token=None, order=None):
    s = [Step(0x20, 1, 1 if token is None else 2,
              box.txid + be(box.index, 2) + be(box.value, 8) + be(len(box.tree), 4) + be(box.height, 4) +
              bytes([len(box.toks)]) + be(len(box.regs), 4) + (b'' if token is None else be(token, 4)), 'init')]
    for c in chunks(box.tree): s.append(Step(0x20, 2, 'S', c))
    for t in groups(g, box.toks, 6): s.append(Step(0x20, 3, 'S', b''.join(a + be(v, 8) for a, v in t)))
    for c in split(g, box.regs): s.append(Step(0x20, 4, 'S', c))
    idx = list(range(box.nframes()))
    if order: g.r.shuffle(idx)
    for i in idx: s.append(Step(0x20, 5, 'S', bytes([i]), ('frame', key, i)))
    return s

def run_plan(r, g, plan, ctx, approve=None, noise=0.0, between=None):
    """runs the steps; approve(kind) -> 'approve'/'reject'/None (leave) decides prompts.  Returns last result."""
    res = None
    for st in plan:
        if noise and g.p(noise): noise_step(r, g)
        if between: between(r)
        p1 = st.p1
        p2 = ctx.session if st.p2 == 'S' else st.p2
        data = st.data(ctx) if callable(st.data) else st.data
        res = r.apdu(st.ins, p1, p2, data)
        if r.prompt:
            if noise and g.p(noise): noise_step(r, g)
            if between: between(r)
            act = approve(r.prompt.kind) if approve else 'approve'
            if act: res = r.answer(act, g.r)
        if res and res[0] == 0x9000:
            if p1 == 1 and st.ins in (0x20, 0x21) and len(res[1]) == 1: ctx.session = res[1][0]
            if isinstance(st.note, tuple) and st.note[0] == 'frame': ctx.frames[st.note[1:]] = res[1]
        elif res and approve is None and st.note != 'mut' and not getattr(ctx, 'keep_going', False):
            return res
    return res

def noise_step(r, g):
    """requests that must not disturb anything: version and name, malformed headers"""
    k = g.r.randint(0, 7)
    if k <= 1: r.apdu(1, 0, 0)
    elif k == 2: r.apdu(2, 0, 0)
    elif k == 3: r.apdu(g.pick(1, 2), g.r.randint(1, 255), g.r.randint(0, 255))
    elif k == 4: r.raw(bytes([g.pick(0, 0xe1, 0xff), g.pick(1, 0x10, 0x20, 0x21), 1, 1, 0]))
    elif k == 5: r.raw(bytes([0xe0, 0x21, 0x10, 1, 7, 1])[:g.r.randint(0, 6)])
    elif k == 6: r.apdu(0x21, 1, g.pick(0, 3, 0x10, 0x80, 0xff), g.pick(b'', bytes([1]) + enc_path(g.path())))
    else: r.apdu(g.pick(0, 3, 0x12, 0x22, 0xff), 1, 1)

class Tx:
    """a random transaction and the requests that stream it"""
    def __init__(self, g, **kw):
        o = dict(nin=None, ndata=None, nout=None, big=.03, changes=True, small=False, tokens=True, weird=.0, twice=.004, fullpath=False)
        o.update(kw)
        self.g, self.o = g, o
        self.net = g.pick(0, 0x10)
        self.path = g.path(small=not o['fullpath'] and g.p(.5))
        nin = o['nin'] or (g.r.randint(1, 4) if not g.p(.02) else g.pick(127, 128, 130))
        self.inputs = [InBox(g, None if o['tokens'] and nin < 10 else 0, None, o['big']) for _ in range(nin)]
        if not o['big']:
            for b in self.inputs: b.value = min(b.value, 2**50)
        # keep the number of distinct tokens within what a transaction may have, most of the time
        seen = []
        for b in self.inputs:
            if not g.p(.05):
                b.toks = [t for t in b.toks if t[0] in seen or (len(seen) < 14 and not seen.append(t[0]))]
        self.seen = seen
        self.ext = [b'' if g.p(.75) else g.bytes(g.pick(2, 3, 40, 255, 256, 511)) for _ in self.inputs]
        if not g.p(.03): self.ext = [e if len(e) != 1 else b'' for e in self.ext]
        nd = o['ndata'] if o['ndata'] is not None else (g.pick(0, 0, 0, 1, 2, 7, 8, 15) if not g.p(.01) else 129)
        self.data = [g.bytes(32) for _ in range(nd)]
        k = g.r.randint(0, min(6, len(seen)))
        self.tokens = g.r.sample(seen, k) if o['tokens'] else []
        mint = g.p(.3) and o['tokens']
        if mint: self.tokens.append(g.bytes(32))
        if o['tokens'] and g.p(.05):
            while len(self.tokens) < 20: self.tokens.append(g.bytes(32))
        g.r.shuffle(self.tokens)
        nout = o['nout'] or (g.r.randint(1, 5) if not g.p(.02) else g.pick(20, 127, 128))
        total = sum(b.value for b in self.inputs)
        self.outs = []
        left = total
        last = None
        for i in range(nout):
            kind = g.pick('tree', 'tree', 'fee', 'change', 'change') if nout < 15 else g.pick('fee', 'change', 'change', 'change', 'change', 'tree')
            if not o['changes'] and kind == 'change': kind = 'tree'
            if kind == 'tree': v = g.u64any() if g.p(.3) else g.u64(.1)
            else:
                v = g.r.randint(0, max(0, left)) if g.p(.7) else min(left, g.u64(.1))
                if nout > 15: v = min(v, left // 8)
                if g.p(.02 + o['weird']): v = g.u64any()
                left -= min(v, left)
            toks = []
            if self.tokens and g.p(.6):
                for j in g.r.sample(range(len(self.tokens)), g.r.randint(1, min(len(self.tokens), 10))):
                    toks.append((j, g.u64(.15) if g.p(.9) else 0))
                if g.p(o['twice']): toks.insert(g.r.randint(0, len(toks)), g.pick(g.r.choice(toks), (g.r.choice(toks)[0], g.u64() if g.p(.8) else 0)))
            path = None
            if kind == 'change':
                path = self.change_path(last)
                last = path
            self.outs.append(dict(kind=kind, value=v, height=g.u32(), toks=toks, path=path,
                                  tree=g.tree() if kind == 'tree' else b'',
                                  regs=b'' if g.p(.7) else g.bytes(g.pick(1, 2, 33, 255, 256, 500))))
    def change_path(self, last):
        g, p = self.g, self.path
        k = g.r.random()
        base = p[:5]
        lim = (1 << 31) - 1
        if k < .22: return base[:4] + [min(lim, base[4] + g.r.randint(0, 19))]
        if k < .32: return base[:4] + [g.r.randint(0, base[4])]
        if k < .42: return base[:4] + [min(lim, base[4] + g.pick(19, 20, 21, 255, 256, 2**16, 2**24))]
        if k < .52: return base[:3] + [1 - base[3], base[4]]
        if k < .62: return base[:2] + [base[2] ^ (1 << g.r.randint(0, 30))] + base[3:]
        if k < .74 and last: return list(last)
        if k < .84 and last:
            q = list(last)
            i = g.r.randint(2, len(q) - 1)
            q[i] ^= (1 if i == 3 else 1 << g.r.randint(0, 30))
            return q
        if k < .88: return list(p)
        if k < .92: return p[:5] + [g.soft() for _ in range(g.r.randint(0, 5))]
        return g.path()
    def plan_attest(self):
        s = []
        for i, b in enumerate(self.inputs): s.append(attest_plan(self.g, b, i, order=True))
        return s
    def plan_sign(self, token=None):
        g = self.g
        s = [Step(0x21, 1, 1 if token is None else 2, bytes([self.net]) + enc_path(self.path) + (b'' if token is None else be(token, 4)), 'init'),
             Step(0x21, 0x10, 'S', be(len(self.inputs), 2) + be(len(self.data), 2) + bytes([len(self.tokens)]) + be(len(self.outs), 2), 'start')]
        for t in groups(g, self.tokens, 7): s.append(Step(0x21, 0x11, 'S', b''.join(t), 'tokens'))
        for i, b in enumerate(self.inputs):
            for f in range(b.nframes()):
                s.append(Step(0x21, 0x12, 'S', self.frame(i, f, be(len(self.ext[i]), 4) if f == 0 else b''), 'input'))
            for c in split(g, self.ext[i]): s.append(Step(0x21, 0x13, 'S', c, 'ext'))
        for t in groups(g, self.data, 7): s.append(Step(0x21, 0x14, 'S', b''.join(t), 'data'))
        for o in self.outs: s += self.plan_out(o)
        s.append(Step(0x21, 0x20, 'S', b'', 'confirm'))
        return s
    def frame(self, i, f, tail):
        return lambda ctx: ctx.frames.get((i, f), bytes(59)) + tail
    def plan_out(self, o):
        g = self.g
        ts = len(o['tree'])
        if o['kind'] != 'tree' and g.p(.3): ts = g.pick(0, 36, 105)
        s = [Step(0x21, 0x15, 'S', be(o['value'], 8) + be(ts, 4) + be(o['height'], 4) + bytes([len(o['toks'])]) + be(len(o['regs']), 4), 'out')]
        if o['kind'] == 'tree':
            for c in chunks(o['tree']): s.append(Step(0x21, 0x16, 'S', c, 'tree'))
        elif o['kind'] == 'fee': s.append(Step(0x21, 0x17, 'S', b'', 'fee'))
        else: s.append(Step(0x21, 0x18, 'S', enc_path(o['path']), 'change'))
        for t in groups(g, o['toks'], 20): s.append(Step(0x21, 0x19, 'S', b''.join(be(i, 4) + be(v, 8) for i, v in t), 'otok'))
        for c in split(g, o['regs']): s.append(Step(0x21, 0x1A, 'S', c, 'regs'))
        return s

def attest_all(r, g, tx, ctx, token=None, noise=0.0):
    for i, b in enumerate(tx.inputs):
        c = Ctx()
        run_plan(r, g, attest_plan(g, b, i, token, order=True), c, noise=noise)
        ctx.frames.update(c.frames)

def corrupt(g, d):
    """a damaged version of a request's data"""
    d = bytearray(d)
    k = g.r.randint(0, 7)
    if k == 0 and d: del d[g.r.randrange(len(d)):]
    elif k == 1: d += g.bytes(g.r.randint(1, 8))
    elif k == 2 and d: d[g.r.randrange(len(d))] ^= 1 << g.r.randint(0, 7)
    elif k == 3 and d: d[g.r.randrange(len(d))] = g.pick(0, 1, 0x7f, 0x80, 0xff)
    elif k == 4 and len(d) > 1: del d[-1]
    elif k == 5: d = bytearray()
    elif k == 6 and d:
        i = g.r.randrange(len(d)); w = g.pick(1, 2, 4, 8)
        d[i:i + w] = be(g.pick(0, 1, 0xff, 2**15, 2**15 + 1, 2**16, 2**31, 2**32 - 1, 2**63, 2**64 - 1), w)
    else: d += bytes(255 - len(d)) if len(d) < 255 else b''
    return bytes(d[:255])

def mutate(g, plan, pool=()):
    """one structural change to a plan"""
    s = list(plan)
    n = len(s)
    if not n: return s
    k = g.r.randint(0, 11)
    i = g.r.randrange(n)
    if k == 0: del s[i]
    elif k == 1: s.insert(i, s[i])
    elif k == 2 and n > 1:
        j = min(n - 1, i + 1); s[i], s[j] = s[j], s[i]
    elif k == 3:
        a = s[i]; s[i] = Step(a.ins, a.p1, (lambda: 0) and g.r.randint(0, 255), a.data, 'mut')
    elif k in (4, 5, 6):
        a = s[i]
        s[i] = Step(a.ins, a.p1, a.p2, (lambda ctx, a=a: corrupt(g, a.data(ctx) if callable(a.data) else a.data)), 'mut')
    elif k == 7:
        j = g.r.randrange(n); x = s.pop(i); s.insert(min(j, len(s)), x)
    elif k == 8 and pool:
        s.insert(i, g.r.choice(pool))
    elif k == 9:
        a = s[i]; s[i] = Step(a.ins, g.pick(2, 3, 4, 5, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x20, 6, 0x1b, 0xff), a.p2, a.data, 'mut')
    elif k == 10:
        j = g.r.randint(i, n); s = s[:i] + s[j:]      # drop a stretch
        if not s: s = list(plan)
    else:
        a = s[i]; s[i] = Step(0x41 - a.ins if a.ins in (0x20, 0x21) else a.ins, a.p1, a.p2, a.data, 'mut')
    return s

# ---- hostile single requests ----
def random_request(g, r, ctx):
    m = r.m
    sess = m.ctx.session if m.ctx is not None and m.ctx.session else ctx.session
    if g.p(.1): sess = g.r.randint(0, 255)
    k = g.r.random()
    if k < .04:
        return r.raw(g.bytes(g.r.randint(0, 12)))
    if k < .08:
        b = bytes([g.pick(0xe0, 0xe0, g.r.getrandbits(8)), g.pick(1, 2, 0x10, 0x11, 0x20, 0x21, g.r.getrandbits(8)), g.pick(0, 1, 2, 3, g.r.getrandbits(8)),
                   g.pick(0, 1, 2, sess, g.r.getrandbits(8))])
        d = g.bytes(g.r.randint(0, 255))
        return r.raw(b + bytes([len(d)]) + d)
    if k < .12:
        d = enc_path(g.account_path() if g.p(.6) else g.bad_path()); tok = g.p(.5)
        d += be(g.app_token(), 4) if tok else b''
        return r.apdu(0x10, 2 if tok else 1, 0, (corrupt(g, d) if g.p(.3) else d)[:255])
    if k < .18:
        tok = g.p(.5)
        d = bytes([g.pick(0, 16, 252, 253, 254, 255, g.r.getrandbits(8))]) + enc_path(g.path() if g.p(.6) else g.bad_path())
        d += be(g.app_token(), 4) if tok else b''
        return r.apdu(0x11, g.pick(1, 2), 2 if tok else 1, corrupt(g, d) if g.p(.3) else d)
    if k < .25:
        tok = g.p(.5)
        d = g.bytes(32) + be(g.r.getrandbits(16), 2) + be(g.u64any(), 8) + be(g.pick(0, 1, 36, 100, 255, 256, 32768, 32769, 2**32 - 1), 4) + be(g.u32(), 4) + \
            bytes([g.pick(0, 1, 2, 20, 21, 255)]) + be(g.pick(0, 1, 5, 255, 300, 32768, 32769, 2**32 - 1), 4) + (be(g.app_token(), 4) if tok else b'')
        res = r.apdu(0x20, 1, 2 if tok else 1, (corrupt(g, d) if g.p(.2) else d)[:255])
    elif k < .45:
        sub = g.pick(2, 2, 3, 3, 4, 4, 5, 5, 6, 0x10)
        if sub == 3: d = b''.join(g.token() + be(g.u64any(), 8) for _ in range(g.r.randint(0, 6)))
        elif sub == 5: d = bytes([g.pick(0, 0, 1, 2, 4, 5, 6, 255)])
        else: d = g.bytes(g.pick(0, 1, 36, 100, 255, 255, g.r.randint(0, 255)))
        res = r.apdu(0x20, sub, sess, (corrupt(g, d) if g.p(.15) else d)[:255])
    elif k < .53:
        tok = g.p(.4)
        d = bytes([g.pick(0, 16, 0, 16, 0, 16, 1, 255)]) + enc_path(g.path() if g.p(.8) else g.bad_path()) + (be(g.app_token(), 4) if tok else b'')
        res = r.apdu(0x21, 1, 2 if tok else 1, (corrupt(g, d) if g.p(.15) else d)[:255])
    else:
        sub = g.r.choice([0x10, 0x10, 0x11, 0x12, 0x12, 0x13, 0x14, 0x15, 0x15, 0x16, 0x16, 0x17, 0x18, 0x19, 0x19, 0x1a, 0x20])
        st = getattr(m.ctx, 'st', None)
        if g.p(.75) and m.cmd == 'sign' and m.ctx is not None:   # what comes next
            c = m.ctx
            if c.st == 'init': sub = 0x10
            elif c.st == 'tokens': sub = 0x11
            elif c.st == 'inputs': sub = 0x12 if c.cur_in is None or c.cur_in[2] < c.cur_in[1] else 0x13
            elif c.st == 'data': sub = 0x14
            elif c.st == 'outputs':
                if c.out is None: sub = 0x15
                else: sub = {'tree': g.pick(0x16, 0x17, 0x18), 'tokens': 0x19, 'regs': 0x1a}.get(c.out.box.st, 0x15)
            elif c.st == 'finished': sub = 0x20
        if sub == 0x10: d = be(g.pick(0, 1, 1, 1, 2, 65535), 2) + be(g.pick(0, 0, 0, 1, 65535), 2) + bytes([g.pick(0, 0, 1, 2, 20, 21)]) + be(g.pick(0, 1, 1, 2, 3, 65535), 2)
        elif sub == 0x11: d = b''.join(g.token() for _ in range(g.r.randint(0, 7)))
        elif sub == 0x12:
            fr = list(ctx.frames.values())
            d = (g.r.choice(fr) if fr and g.p(.95) else g.bytes(g.r.randint(50, 255)))
            if g.p(.8): d += be(g.pick(0, 0, 0, 0, 1, 2, 3, 300, 32768, 32769), 4)
        elif sub == 0x14: d = b''.join(g.bytes(32) for _ in range(g.r.randint(0, 7)))
        elif sub == 0x15: d = be(g.u64any() if g.p(.3) else g.r.getrandbits(20), 8) + be(g.pick(0, 1, 36, 36, 44, 100, 255, 256, 32768, 32769, 2**32 - 1), 4) + be(g.u32(), 4) + bytes([g.pick(0, 0, 0, 1, 2, 20, 21)]) + be(g.pick(0, 0, 1, 5, 300, 32768, 32769), 4)
        elif sub == 0x18: d = enc_path(g.path() if g.p(.9) else g.bad_path())
        elif sub == 0x19: d = b''.join(be(g.pick(0, 0, 1, 2, 19, 20, 2**32 - 1), 4) + be(g.u64any(), 8) for _ in range(g.r.randint(0, 21)))[:255]
        elif sub in (0x17, 0x20): d = b'' if g.p(.9) else g.bytes(3)
        else:
            want = None
            if m.cmd == 'sign' and m.ctx is not None:
                c = m.ctx
                if sub == 0x13 and c.cur_in: want = c.cur_in[3]
                if c.out is not None and sub == 0x16: want = c.out.box.tree_left
                if c.out is not None and sub == 0x1a: want = c.out.box.regs_left
            d = g.bytes(min(255, want) if want is not None and g.p(.85) else g.pick(0, 1, 36, 255, g.r.randint(0, 255)))
            if sub == 0x16 and len(d) == 36 and g.p(.7): d = ref.p2pk_tree(bytes([g.pick(2, 3)]) + g.bytes(32))
        res = r.apdu(0x21, sub, sess, (corrupt(g, d) if g.p(.08) else d)[:255])
    return res
