"""Scenarios: each drives one device from power-on, together with the specification.
A scenario is a function (r, g, o): runner, generator, options.  Extra findings are reported with r.bad()."""
import ref, gen
from gen import *
from run import Stop, Runner
from model import SW_OK

def recover(r, g, full=True):
    """a plain session after whatever happened must work as on a fresh device"""
    for _ in range(3):
        if r.prompt: r.answer('reject', None)
    mini(r, g, full)

def mini(r, g, full=True, path=None):
    box = InBox(g, g.pick(0, 1, 2), 1000, 0)
    box.toks = [(t, 5) for t, _ in box.toks]
    c = Ctx()
    run_plan(r, g, attest_plan(g, box, 0), c)
    if not full: return None
    p = path or [H + 44, H + 429, H + 0, 0, g.r.randint(0, 20)]
    s = Ctx(); s.frames = c.frames
    plan = [Step(0x21, 1, 1, bytes([0]) + enc_path(p)),
            Step(0x21, 0x10, 'S', be(1, 2) + be(0, 2) + bytes([0]) + be(2, 2))]
    for f in range(box.nframes()):
        plan.append(Step(0x21, 0x12, 'S', c.frames.get((0, f), b'') + (be(0, 4) if f == 0 else b'')))
    plan += [Step(0x21, 0x15, 'S', be(600, 8) + be(0, 4) + be(77, 4) + b'\0' + be(0, 4)), Step(0x21, 0x18, 'S', enc_path(p)),
             Step(0x21, 0x15, 'S', be(g.r.randint(1, 100), 8) + be(36, 4) + be(77, 4) + b'\0' + be(0, 4)),
             Step(0x21, 0x16, 'S', ref.p2pk_tree(b'\x02' + g.bytes(32))), Step(0x21, 0x20, 'S', b'')]
    return run_plan(r, g, plan, s)

# ---------------------------------------------------------------- signing
def valid(r, g, o):
    tx = Tx(g, **o.get('tx', {}))
    tok = None if g.p(.6) else g.app_token()
    noise = g.pick(0, 0, .05)
    c = Ctx()
    attest_all(r, g, tx, c, tok if g.p(.7) else None, noise)
    c.session = 0
    run_plan(r, g, tx.plan_sign(tok), c, noise=noise)
    if g.p(.15): recover(r, g)

def noisy(r, g, o):
    """sessions with requests in between that must not have any effect (left out in the control run)"""
    g2 = G('noise%s' % g.index)
    def between(r):
        for _ in range(g2.pick(0, 0, 1, 1, 2, 4)):
            st = g.r.getstate()
            if not o.get('control'): noise_step(r, g2); r.keys['noise'] += 1
            g.r.setstate(st)
    box = InBox(g, g.pick(0, 2, 5), None, 0)
    tx = Tx(g, nin=g.r.randint(1, 2), nout=g.r.randint(1, 3), big=0)
    c = Ctx()
    if g.p(.3): run_plan(r, g, attest_plan(g, box, 9, order=True), c, between=between)
    for i, b in enumerate(tx.inputs):
        ci = Ctx(); run_plan(r, g, attest_plan(g, b, i, order=True), ci, between=between); c.frames.update(ci.frames)
    run_plan(r, g, tx.plan_sign(), c, between=between)

def several(r, g, o):
    """several transactions in a row on one device, some abandoned, some rejected, some faulty"""
    for _ in range(g.r.randint(2, 4)):
        tx = Tx(g, nin=g.r.randint(1, 2), nout=g.r.randint(1, 3))
        c = Ctx()
        attest_all(r, g, tx, c)
        plan = tx.plan_sign()
        k = g.r.randint(0, 4)
        if k == 0: plan = plan[:g.r.randint(1, len(plan))]
        if k == 1: plan = mutate(g, plan)
        ap = None
        if k == 2: ap = lambda kind: 'reject' if g.p(.3) else 'approve'
        if r.prompt: r.answer('reject')
        run_plan(r, g, plan, c, approve=ap)
        if r.prompt: r.answer(g.pick('approve', 'reject'), g.r)

def mutated(r, g, o):
    tx = Tx(g, nin=g.r.randint(1, 2), nout=g.r.randint(1, 3))
    c = Ctx()
    attest_all(r, g, tx, c)
    plan = tx.plan_sign()
    pool = plan
    if g.p(.5):
        t2 = Tx(g, nin=1, nout=2); pool = t2.plan_sign()
    for _ in range(g.pick(1, 1, 1, 2, 3)): plan = mutate(g, plan, pool)
    c.keep_going = g.p(.3)
    run_plan(r, g, plan, c)
    if g.p(.3): recover(r, g)

def stages(r, g, o):
    """every request in every stage: go to a random point of a valid session, send one other request there"""
    tx = Tx(g, nin=g.r.randint(1, 2), nout=g.r.randint(1, 2), big=0)
    c = Ctx()
    attest_all(r, g, tx, c)
    plan = tx.plan_sign()
    k = g.r.randint(0, len(plan))
    run_plan(r, g, plan[:k], c)
    if r.prompt: return
    alien = [s for s in Tx(g, nin=1, nout=3, ndata=2).plan_sign()[1:] + plan[1:]]
    s = g.r.choice(alien)
    run_plan(r, g, [Step(s.ins, s.p1, s.p2, s.data, 'mut')], c)
    c.keep_going = True
    run_plan(r, g, plan[k:], c)

def rejecting(r, g, o):
    tx = Tx(g, nin=g.r.randint(1, 2), nout=g.r.randint(1, 4), big=0)
    c = Ctx()
    attest_all(r, g, tx, c)
    n = [0]; at = g.r.randint(0, 4)
    def ap(kind):
        n[0] += 1
        return 'reject' if n[0] - 1 == at or (kind == 'confirm' and g.p(.7)) else 'approve'
    plan = tx.plan_sign()
    c.keep_going = True
    run_plan(r, g, plan, c, approve=ap)
    if g.p(.6):   # the dead session must stay dead
        for s in g.r.sample(plan[1:], min(3, len(plan) - 1)):
            run_plan(r, g, [s], c, approve=lambda k: 'reject')
    if g.p(.3): recover(r, g)

def change(r, g, o):
    """many change outputs around the boundary of what is accepted silently"""
    tx = Tx(g, nin=1, nout=g.r.randint(3, 8), big=0, ndata=0, tokens=g.p(.4), fullpath=True)
    last = None
    for x in tx.outs:
        if g.p(.8):
            x.update(kind='change', tree=b'', path=tx.change_path(last)); last = x['path']
        elif g.p(.6): x.update(kind='fee', tree=b'')
        x['value'] = 0 if g.p(.2) else min(x['value'], 1 + tx.inputs[0].value // 10)
        x['regs'] = x['regs'][:40]
    # a script hash shaped like a stored path, approved just before the change to that very path: approving one is not approving the other
    for x, y in zip(tx.outs, tx.outs[1:]):
        if y['kind'] == 'change' and len(y['path']) == 5 and g.p(.3):
            if g.p(.7): y['path'] = tx.change_path(None); y['path'] = list(y['path'][:2]) + [0x80000000 | g.r.randint(0, 500), g.r.randint(0, 1), g.r.randint(0, 2000)]
            w = b''.join(v.to_bytes(4, g.pick('little', 'little', 'little', 'big')) for v in y['path'])
            h = g.pick(b'\5' + g.bytes(3) + w, b'\5\0\0\0' + w, w + b'\5\0\0\0', b'\5' + w + g.bytes(3)) if g.p(.6) else b'\5' + g.bytes(3) + w
            x.update(kind='tree', tree=ref.P2SH_PREFIX + h + ref.P2SH_SUFFIX)
    c = Ctx()
    attest_all(r, g, tx, c)
    ap = None
    if g.p(.2): ap = lambda kind: 'reject' if kind == 'output' and g.p(.3) else 'approve'
    run_plan(r, g, tx.plan_sign(), c, approve=ap)

def overflow(r, g, o):
    tx = Tx(g, nin=g.r.randint(1, 4), nout=g.r.randint(1, 5), big=.6, weird=.25)
    # concentrate tokens on few identifiers so that their sums cross the limits
    ids = g.r.sample(g._ids, 2)
    for b in tx.inputs:
        if g.p(.5): b.value = g.r.choice(VALS)
        k = g.r.randint(0, 2)
        b.toks = [(t, g.r.choice(VALS) if g.p(.6) else g.u64any()) for t in ids[:k]]
    tx.tokens = ids[:g.r.randint(0, 2)]
    for x in tx.outs:
        x['toks'] = [(i, g.r.choice(VALS) if g.p(.6) else g.u64any()) for i in range(len(tx.tokens)) if g.p(.7)]
        if g.p(.4): x['value'] = g.r.choice(VALS)
    c = Ctx()
    attest_all(r, g, tx, c)
    run_plan(r, g, tx.plan_sign(), c)

def tokens_many(r, g, o):
    """the token table at its limit: up to 20 distinct tokens, summaries with many pages"""
    tx = Tx(g, nin=g.r.randint(1, 4), nout=g.r.randint(1, 3), big=.05)
    ids = list(g._ids) ; g.r.shuffle(ids)
    n = g.pick(18, 19, 20, 20, 20, 21, 22)
    ids = ids[:n]
    for b in tx.inputs:
        k = g.r.randint(0, 20)
        b.toks = [(t, g.u64(.1)) for t in g.r.sample(ids, min(k, len(ids)))]
    tx.tokens = g.r.sample(ids, g.r.randint(0, min(20, len(ids))))
    for x in tx.outs:
        m = min(len(tx.tokens), g.r.randint(0, 20))
        x['toks'] = [(i, g.u64(.05)) for i in g.r.sample(range(len(tx.tokens)), m)]
    over = g.p(.12)
    if over and len(ids) >= 20: tx.tokens = ids[:20]
    c = Ctx()
    attest_all(r, g, tx, c)
    plan = tx.plan_sign()
    if over:   # one or more ids beyond the declared ones, in the piece that brings the last of them
        at = [j for j, s in enumerate(plan) if s.note == 'tokens']
        if at:
            s = plan[at[-1]]
            plan[at[-1]] = Step(s.ins, s.p1, s.p2, s.data + g.bytes(32 * g.r.randint(1, max(1, 7 - len(s.data) // 32))) if len(s.data) <= 192 else s.data + g.bytes(g.r.randint(1, 31)), s.note)
            c.keep_going = g.p(.5)
    run_plan(r, g, plan, c)

def rechunk(g, plan, p1):
    """one part of a plan (script, registers, extension) in other chunks, around the size of a whole one"""
    plan = list(plan)
    runs, j = [], 0
    while j < len(plan):
        k = j
        while k < len(plan) and plan[k].p1 == p1 and not callable(plan[k].data) and plan[k].ins == plan[j].ins: k += 1
        if k > j: runs.append((j, k))
        j = max(k, j + 1)
    if not runs: return plan
    long = [x for x in runs if x[1] - x[0] > 1]
    a, b = g.r.choice(long if long and g.p(.8) else runs)
    s = plan[a]
    whole = b''.join(x.data for x in plan[a:b])
    out = []
    while True:
        k = g.pick(255, 255, 254, 254, 253, 256 - len(out), 1, 0, len(whole) - 1, len(whole)) if g.p(.8) else g.r.randint(0, 255)
        k = min(max(k, 0), 255)
        out.append(whole[:k]); whole = whole[k:]
        if not whole or len(out) > 40: break
    if whole: out += chunks(whole)
    plan[a:b] = [Step(s.ins, s.p1, s.p2, x, s.note) for x in out]
    return plan

def limits(r, g, o):
    """counts and sizes at and just beyond what is declared or allowed"""
    tx = Tx(g, nin=g.r.randint(1, 3), nout=g.r.randint(1, 3), big=0, twice=.2)
    c = Ctx()
    attest_all(r, g, tx, c)
    plan = tx.plan_sign()
    k = g.r.randint(0, 10)
    start = plan[1]
    ni, nd, nt, no = len(tx.inputs), len(tx.data), len(tx.tokens), len(tx.outs)
    def restart(a, b, d, e): plan[1] = Step(0x21, 0x10, 'S', be(a, 2) + be(b, 2) + bytes([d & 255]) + be(e, 2), 'start')
    if k == 0: restart(max(0, ni + g.pick(-1, 1)), nd, nt, no)
    elif k == 1: restart(ni, max(0, nd + g.pick(-1, 1, 2)), nt, no)
    elif k == 2: restart(ni, nd, max(0, nt + g.pick(-1, 1)) if g.p(.7) else g.pick(20, 21, 255), no)
    elif k == 3: restart(ni, nd, nt, max(0, no + g.pick(-1, 1)))
    elif k == 4: restart(*[g.pick(0, x) for x in (ni, nd, nt, no)])
    elif k == 5:   # sizes of an output
        i = g.r.choice([j for j, s in enumerate(plan) if s.note == 'out'])
        d = bytearray(plan[i].data)
        at, w = g.pick((8, 4), (17, 4), (16, 1))
        old = int.from_bytes(d[at:at + w], 'big')
        d[at:at + w] = be(max(0, old + g.pick(-1, 1, 2, 255)) if g.p(.7) else g.pick(0, 20, 21, 32768, 32769), w)
        plan[i] = Step(0x21, 0x15, 'S', bytes(d), 'out')
    elif k == 6:   # extension length
        idx = [j for j, s in enumerate(plan) if s.note == 'input']
        i = g.r.choice(idx)
        f = plan[i].data
        v = g.pick(1, 2, 3, 255, 32767, 32768, 32769, 2**31, 2**32 - 1)
        plan[i] = Step(0x21, 0x12, 'S', lambda ctx: f(ctx)[:-4] + be(v, 4), 'input')
        if v < 1000 or v in (32767, 32768):
            ins = [Step(0x21, 0x13, 'S', x, 'ext') for x in chunks(g.bytes(v))]
            plan[i + 1:i + 1] = ins
    elif k == 7:   # empty pieces and pieces in excess
        i = g.r.randrange(2, len(plan))
        s = plan[i]
        if callable(s.data): pass
        else: plan.insert(i + g.r.randint(0, 1), Step(s.ins, s.p1, s.p2, g.pick(b'', s.data), s.note))
    elif k < 10:   # chunk rule of the script: only whole chunks before the last
        plan = rechunk(g, plan, 0x16)
    c.keep_going = g.p(.3)
    run_plan(r, g, plan, c)

def big(r, g, o):
    """long transactions: counts that need two-byte encodings, parts of maximum size"""
    k = g.r.randint(0, 4)
    kw = dict(nin=1, nout=1, ndata=0, big=0, tokens=False, weird=-1 if o.get('huge') else .0)
    if o.get('huge'):    # counts over all sixteen bits
        k = g.pick(0, 1, 2)
        if k == 0: kw['nin'] = g.r.randint(1, 9) + g.pick(512, 1024, 2048, 4096, 8192, 32768)
        elif k == 1: kw['nout'] = g.r.randint(1, 9) + g.pick(512, 1024, 2048, 4096, 8192, 32768)
        else: kw['ndata'] = g.pick(1024, 2048, 4096, 8192, 16384, 32768, 65535) - g.r.randint(0, 9)
    elif k == 0: kw['nin'] = g.pick(127, 128, 129, 200, 255, 256, 257, 300)
    elif k == 1: kw['nout'] = g.pick(127, 128, 129, 255, 256, 257)
    elif k == 2: kw['ndata'] = g.pick(127, 128, 255, 256, 300, 1000)
    tx = Tx(g, **kw)
    if k == 0:
        # one attested box used for every input keeps this affordable
        tx.inputs = [tx.inputs[0]] * len(tx.inputs)
        b = tx.inputs[0]; b.value = min(b.value, 2**40)
        c = Ctx()
        run_plan(r, g, attest_plan(g, b, 0), c)
        for i in range(len(tx.inputs)):
            for f in range(b.nframes()): c.frames[(i, f)] = c.frames[(0, f)]
        tx.ext = [b'' for _ in tx.inputs]
    else:
        if k == 3:
            tx.outs[0].update(kind='tree', path=None, tree=g.bytes(g.pick(32767, 32768, 16383, 16384)))
        if k == 4:
            tx.outs[0]['regs'] = g.bytes(g.pick(32767, 32768, 20000))
            tx.ext[0] = g.bytes(g.pick(32768, 5000, 16384))
        if k == 1:
            for x in tx.outs:
                if x['kind'] == 'tree': x.update(kind='fee', tree=b'', value=0)
        c = Ctx()
        attest_all(r, g, tx, c)
    run_plan(r, g, tx.plan_sign(), c)

def huge(r, g, o):
    """counts over all the sixteen bits of their fields"""
    big(r, g, dict(o, huge=1))

# ---------------------------------------------------------------- frames
def frames(r, g, o):
    """input frames that are forged, altered, mixed, repeated, out of order or from another power cycle"""
    nb = g.r.randint(1, 3)
    boxes = [InBox(g, g.pick(0, 1, 4, 5, 8, 9, 12), None, .02) for _ in range(nb)]
    c = Ctx()
    if g.p(.15):
        other = InBox(g, g.pick(0, 5)); co = Ctx()
        run_plan(r, g, attest_plan(g, other, 9), co)
        r.reboot(r.seed + 1000003)
        c.frames.update(co.frames)
    for i, b in enumerate(boxes):
        cc = Ctx()
        run_plan(r, g, attest_plan(g, b, i, order=True), cc)
        c.frames.update(cc.frames)
        if g.p(.2):   # the same box attested twice gives the same frames
            c2 = Ctx(); run_plan(r, g, attest_plan(g, b, i), c2)
    p = g.path(small=True)
    run_plan(r, g, [Step(0x21, 1, 1, bytes([0]) + enc_path(p)),
                    Step(0x21, 0x10, 'S', be(nb + g.pick(0, 0, 1), 2) + be(0, 2) + bytes([0]) + be(1, 2))], c)
    seq = [(i, f) for i, b in enumerate(boxes) for f in range(b.nframes())]
    k = g.r.randint(0, 9)
    if k == 0: g.r.shuffle(seq)
    elif k == 1: i = g.r.randrange(len(seq)); seq.insert(i, seq[i])
    elif k == 2: i = g.r.randrange(len(seq)); del seq[i]
    elif k == 3 and len(seq) > 1:
        i = g.r.randrange(len(seq) - 1); seq[i], seq[i + 1] = seq[i + 1], seq[i]
    elif k == 4 and (9, 0) in c.frames: seq.insert(g.r.randint(0, len(seq)), (9, 0))
    elif k == 5: seq.append(g.r.choice(seq))
    hit = g.r.randrange(max(1, len(seq))) if k >= 6 else None
    for n, (i, f) in enumerate(seq):
        if (i, f) not in c.frames: return
        d = c.frames[(i, f)]
        if n == hit:
            m = g.r.randint(0, 8); b = bytearray(d)
            if m == 0: b[g.r.randrange(len(b))] ^= 1 << g.r.randint(0, 7)
            elif m == 1: b[-g.r.randint(1, 16)] ^= 1 << g.r.randint(0, 7)
            elif m == 2: b[34:42] = be(g.u64any(), 8)
            elif m == 3: b[-16:] = bytes(16) if g.p(.5) else g.bytes(16)
            elif m == 4: b[32:34] = bytes([g.r.randint(0, 6), g.r.randint(0, 6)])
            elif m == 5:
                o2 = g.r.choice(list(c.frames.values())); b[-16:] = o2[-16:]
            elif m < 8: b = b[:-g.r.randint(1, 16)]; r.keys['cut:frame'] += 1
            else: b = b[:-16] + b[-16:-g.r.randint(1, 16)] if g.p(.5) else b[:g.r.randint(0, len(b) - 1)]
            d = bytes(b)
        x = be(g.pick(0, 0, 0, 4), 4) if f == 0 or g.p(.05) else b''
        if n == hit and len(d) < len(c.frames[(i, f)]) and g.p(.7): x = b''
        if f == 0 and g.p(.03): x = x[:g.r.randint(0, 3)]
        if len(d) + len(x) > 255: return
        res = r.apdu(0x21, 0x12, c.session, d + x)
        if not res or res[0] != SW_OK:
            if g.p(.7): return
        m = r.m
        if m.cmd == 'sign' and m.ctx.cur_in is not None and m.ctx.cur_in[2] >= m.ctx.cur_in[1] and m.ctx.cur_in[3]:
            r.apdu(0x21, 0x13, c.session, g.bytes(m.ctx.cur_in[3]))
    # if everything was taken, finish the transaction and let the signature be checked
    if r.m.cmd == 'sign' and r.m.ctx.st == 'outputs':
        run_plan(r, g, [Step(0x21, 0x15, 'S', be(1, 8) + be(0, 4) + be(7, 4) + b'\0' + be(0, 4)), Step(0x21, 0x17, 'S', b''),
                        Step(0x21, 0x20, 'S', b'')], c)

def forged(r, g, o):
    """the attestation key is one byte string unknown to the host: frames tagged with other keys are refused,
    whatever they contain; a frame with a correct tag but another layout must not do any harm"""
    for _ in range(4): forged_session(r, g)

def forged_session(r, g):
    key = g.pick(bytes(16), b'\xff' * 16, g.bytes(16), b'', r.m.session_key, r.m.session_key, r.m.session_key)
    p = g.path(small=True); c = Ctx()
    run_plan(r, g, [Step(0x21, 1, 1, bytes([0]) + enc_path(p)),
                    Step(0x21, 0x10, 'S', be(g.pick(1, 2), 2) + be(0, 2) + bytes([0]) + be(1, 2))], c)
    bid = g.bytes(32); gen = key == r.m.session_key and g.p(.6)
    base = g.pick(2, 3, 5); off = g.r.randint(1, 5)
    for at in range(g.r.randint(1, 5)):
        nt = g.r.randint(0, 4)
        fc = g.pick(1, 1, 1, 2, 5) ; fi = g.pick(0, 0, 0, 1, 4)
        if gen: # frames that go on properly for a while
            fc, fi = base, at
            if at == off: fc, fi, bid = g.pick((g.pick(1, 2, base - 1, base + 1, 255), at, bid), (base, g.pick(at - 1, at + 1, 255, base), bid), (base, at, bid[:31] + bytes([bid[31] ^ 1])), (base, at, bytes([bid[0] ^ 128]) + bid[1:]))
        body = (bid if gen or g.p(.3) else g.bytes(32)) + bytes([fc, fi]) + be(g.u64any(), 8) + bytes([nt]) + b''.join(g.token() + be(g.u64any(), 8) for _ in range(nt))
        d = body + ref.hmac_sha256(key, body)[:16 if gen and not g.p(.05) else g.pick(16, 16, 16, 15)] + (b'' if gen and at else be(g.pick(0, 0, 0, 5), 4))
        if not gen and key == r.m.session_key and g.p(.5): d = d[:-5] + bytes([d[-5] ^ 1]) + d[-4:]
        r.apdu(0x21, 0x12, c.session, d[:255])

# ---------------------------------------------------------------- attestation
def attest(r, g, o):
    for _ in range(g.r.randint(1, 3)):
        b = InBox(g, g.pick(0, 0, 1, 3, 4, 5, 8, 9, 16, 19, 20), None, .2)
        if g.p(.02): b.tree = g.bytes(g.pick(32767, 32768, 32769))
        if g.p(.02): b.regs = g.bytes(g.pick(32767, 32768, 32769))
        if g.p(.15) and len(b.toks) > 1: b.toks[-1] = (b.toks[g.r.randrange(len(b.toks) - 1)][0], b.toks[-1][1])
        if g.p(.05): b.toks = [(g.bytes(32), 1) for _ in range(21)]
        tok = None if g.p(.5) else g.app_token()
        c = Ctx()
        plan = attest_plan(g, b, 0, tok, order=True)
        if g.p(.2): plan = plan[:-1]
        res = run_plan(r, g, plan, c, noise=.03)
        if res and res[0] == SW_OK and g.p(.4):   # frames can be fetched again, in any order
            for _ in range(g.r.randint(1, 6)):
                if r.apdu(0x20, 5, c.session, bytes([g.pick(0, 1, 2, 3, 4, 5, 255)]) if g.p(.3) else bytes([g.r.randrange(b.nframes())]))[0] != SW_OK: break

def attest_mut(r, g, o):
    b = InBox(g, g.pick(0, 1, 3, 5, 9, 20), None, .1)
    tok = None if g.p(.5) else g.app_token()
    plan = attest_plan(g, b, 0, tok, order=True)
    b2 = InBox(g, g.pick(0, 1, 6), None, .1)
    pool = attest_plan(g, b2, 1)
    if g.p(.25): plan = rechunk(g, plan, g.pick(2, 2, 4))
    else:
        for _ in range(g.pick(1, 1, 2)): plan = mutate(g, plan, pool)
    if g.p(.3):
        d = bytearray(plan[0].data) if plan and plan[0].p1 == 1 and not callable(plan[0].data) else None
        if d and len(d) >= 55:
            at, w = g.pick((42, 4), (50, 1), (51, 4))
            old = int.from_bytes(d[at:at + w], 'big')
            d[at:at + w] = be(max(0, old + g.pick(-1, 1, 2, 255)) if g.p(.7) else g.pick(0, 20, 21, 255, 32768, 32769, 65536, 2**32 - 1), w)
            plan[0] = Step(0x20, 1, plan[0].p2, bytes(d), 'init')
    c = Ctx(); c.keep_going = True
    ap = None
    if g.p(.15): ap = lambda k: 'reject'
    run_plan(r, g, plan, c, approve=ap)
    if g.p(.3): recover(r, g, False)

# ---------------------------------------------------------------- keys and addresses
def req_extpub(r, g, bad=0.0, tok=None):
    d = enc_path(g.bad_path() if g.p(bad) else g.account_path())
    if tok is not None: d += be(tok, 4)
    return r.apdu(0x10, 2 if tok is not None else 1, 0, d)
def req_derive(r, g, bad=0.0, tok=None, display=None):
    net = g.r.randint(0, 252) if g.p(.35) else g.pick(0, 16, 0, 16, 1, 128, 251, 252) if g.p(.85) else g.pick(253, 254, 255)
    d = bytes([net]) + enc_path(g.bad_path() if g.p(bad) else g.path())
    if tok is not None: d += be(tok, 4)
    return r.apdu(0x11, display or g.pick(1, 2), 2 if tok is not None else 1, d)
def req_attest(r, g, tok=None, bad=0.0):
    b = InBox(g, g.pick(0, 1))
    d = attest_plan(g, b, 0, tok)[0].data
    return r.apdu(0x20, 1, 2 if tok is not None else 1, corrupt(g, d) if g.p(bad) else d)
def req_sign(r, g, tok=None, bad=0.0):
    d = bytes([g.pick(0, 16)]) + enc_path(g.bad_path() if g.p(bad) else g.path())
    if g.p(bad / 2): d = bytes([g.r.getrandbits(8)]) + d[1:]
    if tok is not None: d += be(tok, 4)
    return r.apdu(0x21, 1, 2 if tok is not None else 1, d)

def paths(r, g, o):
    kinds = o.get('kinds', ('extpub', 'derive', 'sign'))
    for _ in range(12):
        k = g.r.choice(kinds)
        tok = None if g.p(.7) else g.app_token()
        bad = o.get('bad', .6)
        if k == 'extpub': req_extpub(r, g, bad, tok)
        elif k == 'derive': req_derive(r, g, bad, tok)
        elif k == 'sign': req_sign(r, g, tok, bad)
        if r.prompt:
            if k == 'sign' and g.p(.2): r.press('B')
            else: r.answer(g.pick('approve', 'approve', 'reject'), g.r if g.p(.4) else None)

def change_paths(r, g, o):
    """path rules for change outputs"""
    c = Ctx()
    b = InBox(g, 0, 1000); run_plan(r, g, attest_plan(g, b, 0), c)
    fr = c.frames.get((0, 0))
    for _ in range(4):
        p = g.path()
        run_plan(r, g, [Step(0x21, 1, 1, bytes([0]) + enc_path(p)), Step(0x21, 0x10, 'S', be(1, 2) + be(0, 2) + b'\0' + be(3, 2)),
                        Step(0x21, 0x12, 'S', fr + be(0, 4)), Step(0x21, 0x15, 'S', be(1, 8) + be(0, 4) + be(7, 4) + b'\0' + be(0, 4))], c)
        if r.prompt or r.m.cmd != 'sign': continue
        q = g.bad_path() if g.p(.8) else g.path()
        r.apdu(0x21, 0x18, c.session, enc_path(q))
        if r.prompt: r.answer(g.pick('approve', 'reject'), g.r)

def consent(r, g, o):
    """application tokens and the user's answers"""
    toks = [g.app_token() for _ in range(3)] + [0, None]
    for _ in range(14):
        tok = g.r.choice(toks); k = g.r.randint(0, 4)
        if k == 0: req_extpub(r, g, .05, tok)
        elif k == 1: req_derive(r, g, .05, tok, g.pick(1, 1, 2))
        elif k == 2: req_attest(r, g, tok, .05)
        elif k == 3: req_sign(r, g, tok, .05)
        else: req_derive(r, g, .0, tok, 1)
        if r.prompt:
            if g.p(.15): noise_step(r, g)
            if g.p(.15): random_request(g, r, Ctx())
            r.answer(g.pick('approve', 'approve', 'reject'), g.r if g.p(.5) else None)
        if r.m.session_key is not None and g.p(.03): r.reboot(r.seed)

def extpub(r, g, o):
    for _ in range(8):
        tok = None if g.p(.5) else g.app_token()
        req_extpub(r, g, .1, tok)
        if g.p(.3) and r.prompt: req_derive(r, g, 0, tok)
        if r.prompt: r.answer(g.pick('approve', 'approve', 'approve', 'reject'), g.r)
        if g.p(.4) and tok: req_extpub(r, g, 0, tok)
        if r.prompt: r.answer('approve')

def address(r, g, o):
    for _ in range(8):
        tok = None if g.p(.5) else g.app_token()
        req_derive(r, g, .1, tok)
        if g.p(.3) and r.prompt: req_extpub(r, g, 0, tok)
        if r.prompt: r.answer(g.pick('approve', 'approve', 'approve', 'reject'), g.r)
        if g.p(.4) and tok: req_derive(r, g, 0, tok, g.pick(1, 1, 2))
        if r.prompt: r.answer('approve')

# ---------------------------------------------------------------- dispatch
def headers(r, g, o):
    """requests with every kind of header"""
    for _ in range(60):
        k = g.r.randint(0, 9)
        if k == 0: r.raw(g.bytes(g.r.randint(0, 8)))
        elif k == 1:
            n = g.r.randint(0, 255); l = g.pick(n, n ^ 1, (n + 1) & 255, 0, 255)
            r.raw(bytes([0xe0, g.pick(1, 2, 0x10, 0x11, 0x20, 0x21), g.r.randint(0, 2), g.r.randint(0, 2), l]) + g.bytes(n))
        elif k == 2: r.apdu(g.pick(1, 2), g.pick(0, 0, 1), g.pick(0, 0, 1), b'' if g.p(.6) else g.bytes(g.r.randint(1, 5)))
        elif k == 3: r.raw(bytes([g.r.getrandbits(8), g.r.getrandbits(8), g.r.getrandbits(8), g.r.getrandbits(8), 0]))
        elif k == 4: r.apdu(0x10, g.r.randint(0, 4), g.r.randint(0, 2), g.bytes(g.r.randint(0, 30)))
        elif k == 5: r.apdu(0x11, g.r.randint(0, 4), g.r.randint(0, 3), g.bytes(g.r.randint(0, 30)))
        elif k == 6: r.apdu(g.pick(0x20, 0x21), g.r.getrandbits(8), g.r.getrandbits(8), g.bytes(g.r.randint(0, 40)))
        elif k == 7: r.apdu(g.pick(0x20, 0x21), g.r.randint(0, 0x21), g.r.randint(0, 3), g.bytes(g.r.randint(0, 70)))
        elif k == 8: r.apdu(g.r.getrandbits(8), g.r.randint(0, 2), g.r.randint(0, 2))
        else:
            if g.p(.5): req_sign(r, g, None if g.p(.5) else 7)
            else: req_attest(r, g, None if g.p(.5) else 7)
            if g.p(.5) and r.prompt: r.answer(g.pick('approve', 'reject'))
        if r.prompt and g.p(.3): r.answer('reject')

def sweep(r, g, o):
    """all instruction bytes, and all P1/P2 values of each known instruction"""
    n = g.r.randint(0, 255)
    for i in range(256):
        r.apdu(i, g.pick(0, 1), g.pick(0, 1)) if i not in (0x10, 0x11, 0x20, 0x21) else r.apdu(i, n, g.r.getrandbits(8))
        if r.prompt: r.answer('reject')
    for ins in (1, 2, 0x10, 0x11, 0x20, 0x21):
        for p in range(256):
            r.apdu(ins, p, 1 if p & 1 else n)
            if r.prompt: r.answer('reject')
            r.apdu(ins, n, p)
            if r.prompt: r.answer('reject')

def hostile(r, g, o):
    ctx = Ctx()
    if g.p(.7):
        for i in range(g.r.randint(1, 2)):
            cc = Ctx()
            run_plan(r, g, attest_plan(g, InBox(g, g.pick(0, 1, 2, 5), None, .1), i), cc)
            ctx.frames.update(cc.frames)
    for _ in range(o.get('n', 60)):
        if r.prompt:
            k = g.r.random()
            if k < .25: r.press(g.pick('L', 'R'))
            elif k < .35: r.press('B')
            elif k < .75: r.answer('approve', g.r if g.p(.3) else None)
            elif k < .82: r.answer('reject')
            else: random_request(g, r, ctx)
        elif g.p(.05) and r.m.menu is not None:
            b = g.pick('L', 'R', 'B')
            if b == 'B' and r.m.MENU[r.m.menu][r.m.pos] == 'Quit': b = 'R'
            r.press(b)
        else:
            res = random_request(g, r, ctx)
            if res and res[0] == SW_OK and r.m.cmd == 'attest' and len(res[1]) > 58: ctx.frames[(g.r.randint(0, 9), 0)] = res[1]
    if g.p(.3): recover(r, g)

# ---------------------------------------------------------------- user interface
def some_prompt(r, g):
    k = g.r.randint(0, 5)
    tok = None if g.p(.5) else g.app_token()
    if k == 0: req_extpub(r, g, 0, tok)
    elif k == 1: req_derive(r, g, 0, tok)
    elif k == 2: req_attest(r, g, tok)
    elif k == 3: req_sign(r, g, tok)
    else:
        tx = Tx(g, nin=1, nout=g.r.randint(1, 2), big=.02)
        c = Ctx()
        attest_all(r, g, tx, c)
        plan = tx.plan_sign()
        stop = g.pick('output', 'confirm', 'any')
        def ap(kind):
            return 'approve' if kind in ('sign', 'attest') or (kind == 'output' and stop == 'confirm') else None
        for s in plan:
            run_plan(r, g, [s], c, approve=ap)
            if r.prompt: break
    return r.prompt

def goto_about(r):
    """leaves the second menu open, as a user may when a request comes"""
    for _ in range(4):
        if r.m.MENU[r.m.menu][r.m.pos] == 'About' or r.m.menu != 'main': break
        r.press('R')
    if r.m.menu == 'main': r.press('B')
    r.keys['about-open'] += r.m.menu != 'main'

def nav(r, g, o):
    """random walks over every prompt; requests while a prompt is open; both ends reachable from everywhere"""
    p = some_prompt(r, g)
    if not p: return
    for _ in range(g.r.randint(0, 40)):
        k = g.r.random()
        if k < .78: b = g.pick('L', 'R')
        elif k < .9:
            b = 'B'
            if p.pages[r.m.pos].act in ('approve', 'reject'): b = 'R'
        else:
            if g.p(.5): noise_step(r, g)
            else: random_request(g, r, Ctx())
            continue
        r.press(b)
        if r.prompt is not p: break
    if r.prompt is p:
        n = len(p.pages)
        d = g.pick('L', 'R')
        act = g.pick('approve', 'reject')
        if not r.goto(act, d): r.bad('nav', 'unreachable', '%s page not reached within %d presses' % (act, 2 * n + 2)); return
        r.press('B')
    # back at the home screen: the menu works and the device answers
    for _ in range(g.r.randint(0, 8)):
        b = g.pick('L', 'R', 'R', 'B')
        if b == 'B' and not r.prompt and r.m.MENU[r.m.menu][r.m.pos] == 'Quit' and g.p(.8): b = 'R'
        if r.prompt: break
        r.press(b)
    if g.p(.3) and not r.prompt and r.up:
        goto_about(r)
    r.apdu(1, 0, 0)
    some_prompt(r, g)

def exhaustive_nav(r, g, o):
    """every page of a prompt reached both ways, then the decision; every page pressed"""
    p = some_prompt(r, g)
    if not p: return
    n = len(p.pages)
    for d in 'RL':
        for _ in range(n):
            r.press(d)
            if r.prompt is not p: return
            if p.pages[r.m.pos].act in (None, 'skip') and g.p(.5):
                r.press('B')
                if r.prompt is not p: return
    r.answer(g.pick('approve', 'reject'))

# ---------------------------------------------------------------- randomness
def sessions(r, g, o):
    """session identifiers, also when the random generator returns awkward values"""
    for _ in range(6):
        z = g.pick(b'', bytes(1), bytes(3), bytes(9), b'\xff' * 4, bytes([0, 0, 0, 0, 0, 7]))
        k = g.r.randint(0, 1)
        if r.session_ids and g.p(.5):   # the generator gives the identifier of the session before
            z = bytes([r.session_ids[-1]]) * g.r.randint(1, 4)
            r.keys['id-repeated-draw'] += 1
        if z: r.queue_rng(z)
        if k: req_attest(r, g, None)
        else: req_sign(r, g, None)
        if r.prompt: r.answer('approve')
        if z: r.queue_rng(b'')

NONCES = [bytes(32), ref.N.to_bytes(32, 'big'), (ref.N + 1).to_bytes(32, 'big'), b'\xff' * 32, (ref.N - 1).to_bytes(32, 'big'),
          (1).to_bytes(32, 'big'), (ref.N + 2**64).to_bytes(32, 'big')]
def nonces(r, g, o):
    """several signatures on one device: every one uses its own fresh, unreduced, non-zero nonce"""
    seen = {}
    path = [H + 44, H + 429, H + g.r.randint(0, 2), 0, g.r.randint(0, 9)]
    st = g.r.getstate()
    for i in range(o.get('n', 4)):
        if g.p(.5): g.r.setstate(st)      # the very same transaction again
        first = len(r.rng_events)
        nsig = len(r.m.signatures)
        z = b''
        if g.p(.5):
            z = b''.join(g.r.choice(NONCES) for _ in range(g.r.randint(1, 6)))
        signed_with(r, g, path, z)
        for w, match in nonce_source(r, first, nsig):
            if w in seen and not (match and any(b in seen[w] for _, b in match)):   # the generator itself may repeat
                r.bad('nonce', 'reuse', 'two signatures share the commitment %s' % w.hex())
            seen.setdefault(w, set()).update(b for _, b in match)

def nonce_source(r, first, nsig):
    """where the nonces of the signatures since then come from: a random draw of 32 bytes within the scalar range, as it is"""
    out = []
    for w, msg, p, sig in r.m.signatures[nsig:]:
        draws = [(s, b) for s, b in r.rng_events[first:] if len(b) == 32]
        match = [(s, b) for s, b in draws if int.from_bytes(b, 'big') % ref.N and ref.compress(ref.gmul(int.from_bytes(b, 'big') % ref.N)) == w]
        if not match:
            r.bad('nonce', 'source', 'the nonce of a signature is not among the 32-byte random draws of its session')
        elif all(int.from_bytes(b, 'big') >= ref.N for _, b in match):
            r.bad('nonce', 'range', 'the nonce was reduced from a random value outside the scalar range: %s' % match[-1][1].hex())
        elif not r.faults:
            # with the platform working, nothing but a value outside the range is a reason to draw again: choosing among good ones is a bias
            good = [b for _, b in draws if 0 < int.from_bytes(b, 'big') < ref.N]
            if all(b != good[0] for _, b in match): r.bad('nonce', 'chosen', 'a good random value %s was drawn and passed over for %s' % (good[0].hex(), match[-1][1].hex()))
        r.keys['nonce-checked'] += 1
        out.append((w, match))
    return out

def safe_gmul(k): return ref.gmul(k) if k % ref.N else None

def signed_with(r, g, path, z):
    """a minimal signed transaction, with z as the random bytes drawn from the request that starts the data"""
    box = InBox(g, 0, 1000, 0)
    c = Ctx()
    run_plan(r, g, attest_plan(g, box, 0), c)
    if z: r.queue_rng((b'' if g.p(.5) else bytes([g.r.randint(1, 255)])) + z)
    first = len(r.rng_events)
    run_plan(r, g, [Step(0x21, 1, 1, bytes([0]) + enc_path(path))], c)
    if any(len(b) == 32 and int.from_bytes(b, 'big') >= ref.N for _, b in r.rng_events[first:]): r.keys['nonce-toolarge'] += 1
    if any(b == bytes(32) for _, b in r.rng_events[first:]): r.keys['nonce-zero'] += 1
    plan = [Step(0x21, 0x10, 'S', be(1, 2) + be(0, 2) + bytes([0]) + be(1, 2)),
            Step(0x21, 0x12, 'S', c.frames.get((0, 0), b'') + be(0, 4)),
            Step(0x21, 0x15, 'S', be(600, 8) + be(0, 4) + be(77, 4) + b'\0' + be(0, 4)), Step(0x21, 0x18, 'S', enc_path(path)),
            Step(0x21, 0x20, 'S', b'')]
    run_plan(r, g, plan, c)
    if z: r.queue_rng(b'')
    # a session gives one signature, no more
    if g.p(.5):
        for s in (plan[4], plan[0], plan[1]): run_plan(r, g, [s], c)

def boots(r, g, o):
    """the attestation key differs from one power cycle to the next and old frames are useless"""
    keys = {}; old = {}
    for i in range(4):
        if i: r.reboot(r.seed + g.r.randint(1, 10**6))
        k = r.m.session_key
        if k is None or len(k) < 16: r.bad('bootkey', 'length', 'no 16-byte attestation key drawn at start')
        elif k in keys: r.bad('bootkey', 'repeat', 'attestation key repeated')
        keys[k] = 1
        r.keys['boot-checked'] += 1
        c = Ctx(); b = InBox(g, g.pick(0, 1, 5))
        run_plan(r, g, attest_plan(g, b, 0), c)
        if old:
            run_plan(r, g, [Step(0x21, 1, 1, bytes([0]) + enc_path(g.path(small=True))), Step(0x21, 0x10, 'S', be(1, 2) + be(0, 2) + bytes([0]) + be(1, 2)),
                            Step(0x21, 0x12, 'S', old[(0, 0)] + be(0, 4))], Ctx())
        old = c.frames if (0, 0) in c.frames else old

# ---------------------------------------------------------------- isolation
def isolation(r, g, o):
    """after any history, a session behaves exactly as on a freshly started device"""
    if g.p(.5): return restarted(r, g, o)
    hostile(r, g, dict(n=g.r.randint(5, 50)))
    for _ in range(4):
        if r.prompt: r.answer('reject')
    if o.get('control'): r.reboot()
    r.keys['history'] += 1
    several(r, g, o)

def restarted(r, g, o):
    """a session cut off at any point, then at once another one of the same command (or of any other)"""
    r.keys['history'] += 1
    b1, b2 = InBox(g, g.pick(0, 1, 4, 5, 9, 20), None, .1), InBox(g, g.pick(0, 1, 4, 5, 9, 20), None, .1)
    if g.p(.3): b2.toks = list(b1.toks)
    p1, p2 = attest_plan(g, b1, 0, order=True), attest_plan(g, b2, 0, order=True)
    k = g.r.randint(1, len(p1))
    act = g.pick('approve', 'reject')
    if g.p(.3):
        if not o.get('control'):
            run_plan(r, g, p1[:k], Ctx())
            if r.prompt: r.answer(act)
        run_plan(r, g, p2, Ctx())
        return
    t1, t2 = [Tx(g, nin=g.r.randint(1, 2), nout=g.r.randint(1, 3), big=0) for _ in range(2)]
    if g.p(.4): t2 = t1
    c1, c2 = Ctx(), Ctx()
    attest_all(r, g, t1, c1); attest_all(r, g, t2, c2)
    q1, q2 = t1.plan_sign(), t2.plan_sign()
    k = g.r.randint(1, len(q1)); j = g.r.randint(0, 3); last = g.pick('approve', 'reject', 'leave')
    if not o.get('control'):
        run_plan(r, g, q1[:k - 1], c1)
        if not r.prompt: run_plan(r, g, q1[k - 1:k], c1, approve=lambda kind: None)
        if r.prompt:
            if last == 'leave': r.apdu(0x21, 1, 1, bytes([0]) + enc_path(t2.path))
            r.answer('reject' if last == 'reject' else 'approve')
    if j == 0: run_plan(r, g, p2, Ctx())
    run_plan(r, g, q2, c2)

def stale(r, g, o):
    """requests carrying the identifier of a session that is over, or of another command"""
    tx = Tx(g, nin=1, nout=2, big=0)
    c = Ctx()
    attest_all(r, g, tx, c)
    plan = tx.plan_sign()
    k = g.r.randint(1, len(plan) - 1)
    run_plan(r, g, plan[:k], c)
    old = c.session
    if r.prompt: r.answer(g.pick('approve', 'reject'))
    j = g.r.randint(0, 6)
    if j == 0: req_derive(r, g, .3)
    elif j == 1: req_extpub(r, g, .3)
    elif j == 2: req_attest(r, g, None, .3)
    elif j == 3: req_sign(r, g, None, .3)
    elif j == 4: r.apdu(0x21, g.pick(0x10, 0x15, 0x20), old, g.bytes(5))
    elif j == 5: r.apdu(0x20, g.pick(2, 5), old, b'')
    else: r.apdu(0x21, plan[k].p1, (old % 255) + 1, b'')
    if r.prompt: r.answer(g.pick('approve', 'reject'))
    for s in plan[k:]:
        d = s.data(c) if callable(s.data) else s.data
        r.apdu(s.ins, s.p1, old if s.p2 == 'S' else s.p2, d)
        if r.prompt: r.answer(g.pick('approve', 'reject'))

ALLSUB = [(0x20, x) for x in (2, 3, 4, 5)] + [(0x21, x) for x in (0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x20)]
def wrong_id(r, g, o):
    """every kind of request, at the moment it would be right but for its session identifier or its command"""
    ins, sub = ALLSUB[g.index % len(ALLSUB)]
    for _ in range(60):
        if ins == 0x20:
            b = InBox(g, g.pick(0, 1, 3, 7), None, .1)
            plan = attest_plan(g, b, 0)
        else:
            tx = Tx(g, nin=g.r.randint(1, 2), nout=g.r.randint(1, 3), big=0)
            plan = tx.plan_sign()
        at = [j for j, s in enumerate(plan) if s.p1 == sub and j > 0]
        if at: break
    else: return
    c = Ctx(); c.keep_going = True
    if ins == 0x21: attest_all(r, g, tx, c)
    before = c.session
    j = g.r.choice(at)
    run_plan(r, g, plan[:j], c)
    if r.prompt: return
    own = c.session
    s = plan[j]
    d = s.data(c) if callable(s.data) else s.data
    k = g.r.randint(0, 3)
    if k == 0:      # another identifier
        r.apdu(ins, sub, g.pick(own % 255 + 1, (own - 2) % 255 + 1, own ^ 0x80, own ^ 1, 0, before, g.r.getrandbits(8)), d)
    elif k == 1:    # the session of the other command is the current one
        if ins == 0x20: req_sign(r, g)
        else: req_attest(r, g)
        if r.prompt: r.answer('approve')
        r.apdu(ins, sub, own, d)
        r.keys['othercommand'] += 1
    elif k == 2:    # the current session of the other command is named
        if ins == 0x20: req_sign(r, g)
        else: req_attest(r, g)
        res = r.answer('approve') if r.prompt else None
        if res and res[0] == 0x9000 and len(res[1]) == 1: r.apdu(ins, sub, res[1][0], d)
        r.keys['othercommand'] += 1
    else:           # the command is over
        if g.p(.5): req_derive(r, g)
        else: req_extpub(r, g)
        if r.prompt: r.answer(g.pick('approve', 'reject'))
        r.apdu(ins, sub, own, d)
        r.keys['overcommand'] += 1
    if r.prompt: r.answer(g.pick('approve', 'reject'))
    r.keys['wrongid:%02x.%02x' % (ins, sub)] += 1
    if g.p(.6): run_plan(r, g, plan[j:], c)

# ---------------------------------------------------------------- faults
ALL = 2**32 - 1
NEXT = 2**32 - 2     # all calls of the request or button press in which the first of them is
def fault(r, g, o):
    """a failing SDK call (or several in a row) at a random point of a session, then an ordinary session"""
    n = g.r.randint(1, 220) if g.p(.6) else g.r.randint(1, 40)
    many = g.pick(1, 1, 1, 2, 3, 7, ALL, NEXT)
    wild = g.r.randint(0, 1)
    if not o.get('control'): r.arm(n, many, wild)
    k = g.r.randint(0, 5)
    if k == 0: consent(r, g, o)
    elif k == 1: attest(r, g, o)
    else:
        tx = Tx(g, nin=g.r.randint(1, 2), nout=g.r.randint(1, 3), big=0)
        c = Ctx()
        attest_all(r, g, tx, c)
        run_plan(r, g, tx.plan_sign(), c)
    if not o.get('control'): r.arm(0)
    for _, f in r.faults: r.keys['fault:' + f] += 1
    if not r.faults and r.prompt: r.answer('reject')
    if r.faults and not r.prompt and r.up and g.p(.6):   # whatever is on the screen now, the buttons do nothing but browse the menu
        for _ in range(g.r.randint(1, 12)):
            b = g.pick('L', 'R', 'R', 'B')
            if b == 'B' and r.m.MENU[r.m.menu][r.m.pos] == 'Quit': b = 'R'
            r.press(b)
    recover(r, g)

FIXED = ('extpub', 'display', 'send', 'attest', 'attest5', 'fee', 'p2pk', 'p2sh', 'script', 'change', 'all', 'badnonce')
FIXED_N = 100      # more than any of them has calls that can fail: 'enum:*:beyond' is observed for each
def fault_enum(r, g, o):
    """the n-th fallible SDK call of a fixed session fails (alone, with the next one, with all that follow in the same request, or with all that follow), for every n; then an ordinary session"""
    kind = FIXED[g.index % len(FIXED)]; n = g.index // len(FIXED) % FIXED_N + 1
    mode = g.index // (FIXED_N * len(FIXED)) % 8
    many, wild = ((1, 1), (NEXT, 0), (ALL, 1), (1, 0), (2, 0), (ALL, 0), (2, 1), (NEXT, 1))[mode]
    g = G('fixed-' + kind)
    if not o.get('control'): r.arm(n, many, wild)
    r.keys['enum-many:%s%s' % ('next' if many == NEXT else min(many, 3), 'w' if wild else '')] += 1
    tok = 0x1234
    if kind == 'extpub':
        r.apdu(0x10, 2, 0, enc_path([H + 44, H + 429, H + 1]) + be(tok, 4))
        if r.prompt: r.answer('approve')
    elif kind in ('display', 'send'):
        r.apdu(0x11, 2 if kind == 'display' else 1, 2, b'\0' + enc_path([H + 44, H + 429, H, 0, 3]) + be(tok, 4))
        if r.prompt: r.answer('approve')
    elif kind in ('attest', 'attest5'):
        b = InBox(g, 5 if kind == 'attest5' else 0, 1000, 0); b.tree = g.bytes(300); b.regs = g.bytes(20)
        run_plan(r, g, attest_plan(g, b, 0, tok), Ctx())
    else:
        box = InBox(g, 0 if kind != 'all' else 2, 10**6, 0); box.toks = [(t, 9) for t, _ in box.toks]
        c = Ctx()
        run_plan(r, g, attest_plan(g, box, 0), c)
        p = [H + 44, H + 429, H, 0, 7]
        outs = {'fee': [('fee', b'')], 'p2pk': [('tree', ref.p2pk_tree(b'\2' + g.bytes(32)))], 'p2sh': [('tree', ref.P2SH_PREFIX + g.bytes(24) + ref.P2SH_SUFFIX)],
                'script': [('tree', g.bytes(260))], 'change': [('change', p), ('change', p[:4] + [90])]}
        outs['all'] = [x for k in ('fee', 'p2pk', 'script', 'change') for x in outs[k]]
        outs = outs.get(kind, [('fee', b'')])
        toks = box.toks[:1]
        plan = [Step(0x21, 1, 2, b'\0' + enc_path(p) + be(tok, 4)),
                Step(0x21, 0x10, 'S', be(1, 2) + be(1 if kind == 'all' else 0, 2) + bytes([len(toks)]) + be(len(outs), 2))]
        if toks: plan.append(Step(0x21, 0x11, 'S', toks[0][0]))
        plan.append(Step(0x21, 0x12, 'S', lambda ctx: ctx.frames.get((0, 0), bytes(59)) + be(3 if kind == 'all' else 0, 4)))
        if kind == 'all': plan += [Step(0x21, 0x13, 'S', b'abc'), Step(0x21, 0x14, 'S', g.bytes(32))]
        for i, (k, x) in enumerate(outs):
            tt = toks if i == 1 else []
            plan.append(Step(0x21, 0x15, 'S', be(1000 + i, 8) + be(len(x) if k == 'tree' else 0, 4) + be(5, 4) + bytes([len(tt)]) + be(0, 4)))
            if k == 'tree': plan += [Step(0x21, 0x16, 'S', y) for y in chunks(x)]
            elif k == 'fee': plan.append(Step(0x21, 0x17, 'S', b''))
            else: plan.append(Step(0x21, 0x18, 'S', enc_path(x)))
            if tt: plan.append(Step(0x21, 0x19, 'S', be(0, 4) + be(4, 8)))
        plan.append(Step(0x21, 0x20, 'S', b''))
        c.session = 0
        first, nsig = len(r.rng_events), len(r.m.signatures)
        if kind == 'badnonce':      # the random generator gives unusable numbers first: the calls of the second and third attempt fail as well
            r.queue_rng(ref.N.to_bytes(32, 'big') + bytes(32) + b'\xff' * 32 + (ref.N - 2).to_bytes(32, 'big'))
            r.keys['enum:badnonce'] += 1
        run_plan(r, g, plan, c)
        if kind == 'badnonce':
            r.queue_rng(b'')
            nonce_source(r, first, nsig)
    if not o.get('control'): r.arm(0)
    for _, f in r.faults: r.keys['fault:' + f] += 1
    r.keys['enum:' + kind + (':fired' if r.faults else ':beyond')] += 1
    recover(r, g)

SCEN = {k: v for k, v in globals().items() if callable(v) and getattr(v, '__module__', '') == __name__}
