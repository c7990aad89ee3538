"""Executable specification of the application, at the level of its APDU and screen interface.

Model.apdu(bytes) returns the Exp(ected) outcome of an APDU given the history so far, and
Model.press(button) the expected outcome of a button press.  Every expectation carries a tag naming the
rule it comes from; a disagreement between expectation and observation is classified by that tag.
"""
import ref
H = 0x80000000

SW_OK, SW_DENY = 0x9000, 0x6985
SW_P1P2, SW_LEN, SW_INS, SW_CLA = 0x6A86, 0x6A87, 0x6D00, 0x6E00
SW_BUSY, SW_SESSION, SW_SUBCMD, SW_STATE = 0xB000, 0xB002, 0xB003, 0xB0FF
TOKMAX = 20
PARTMAX = 32768
U64 = 2**64

class Exp:
    """kind: 'sw' (answered now), 'prompt' (a prompt appears, no answer yet), 'screen' (no answer, a page
    changes), 'exit' (the application ends)"""
    __slots__ = ('kind', 'sw', 'data', 'tag', 'prompt', 'onmatch', 'alt')
    def __init__(self, kind, sw=None, data=b'', tag='', prompt=None, onmatch=None, alt=None):
        self.kind, self.sw, self.data, self.tag, self.prompt, self.onmatch, self.alt = \
            kind, sw, data, tag, prompt, onmatch, alt

class Page:
    """One page the user can look at.  kind: 'n' text, 'b' button, 'p' paged text, '2' two lines."""
    __slots__ = ('title', 'text', 'act', 'tag', 'err', 'dyn')
    def __init__(self, title, text='', act=None, tag='page', err=None, dyn=False):
        self.title, self.text, self.act, self.tag, self.err, self.dyn = title, text, act, tag, err, dyn

class Prompt:
    def __init__(self, kind, pages, on_approve, on_reject):
        self.kind, self.pages = kind, pages
        self.on_approve, self.on_reject = on_approve, on_reject
        self.seen = set()

class Err(Exception):
    def __init__(self, sw, tag):
        self.sw, self.tag = sw, tag

class Rd:
    def __init__(self, b):
        self.b, self.o = b, 0
    def left(self):
        return len(self.b) - self.o
    def take(self, n, sw=0xE014, tag='short'):
        if self.left() < n: raise Err(sw, tag)
        r = self.b[self.o:self.o + n]; self.o += n
        return r
    def u(self, n, sw=0xE014, tag='short'):
        return int.from_bytes(self.take(n, sw, tag), 'big')
    def path(self, sw=0xE014, tag='short'):
        n = self.u(1, sw, tag)
        if not 0 < n <= 10: raise Err(sw, 'pathlen')
        return [self.u(4, sw, tag) for _ in range(n)]
    def end(self):
        if self.left(): raise Err(0xE015, 'trailing')

def path_ok_account(p):
    return len(p) >= 3 and p[0] == H + 44 and p[1] == H + 429 and all(x >= H for x in p[2:])
def path_ok_address(p, exact=False):
    return (len(p) == 5 if exact else len(p) >= 5) and p[0] == H + 44 and p[1] == H + 429 and p[2] >= H \
        and p[3] in (0, 1) and all(x < H for x in p[4:])

class Box:
    """A box being streamed (attested input or output)."""
    def __init__(self, value, treesize, height, ntok, regsize):
        if ntok > TOKMAX: raise Err(0xE00A, 'limit.tokens')
        if treesize > PARTMAX: raise Err(0xE015, 'limit.tree')
        if regsize > PARTMAX: raise Err(0xE015, 'limit.regs')
        self.value, self.tree_left, self.height, self.ntok, self.regs_left = value, treesize, height, ntok, regsize
        self.tok_left = ntok
        self.tree, self.toks, self.regs = b'', [], b''
        self.hasregs = regsize > 0
        self.chunks = 0
        self.st = 'tree'
    def tree_done(self):
        if self.tok_left: self.st = 'tokens'
        elif self.regs_left: self.st = 'regs'
        else: self.st = 'done'
    def add_tree(self, c):
        if self.st != 'tree': raise Err(SW_STATE, 'order')
        if len(c) > self.tree_left: raise Err(0xE015, 'size.tree')
        if len(c) < self.tree_left and len(c) < 255: raise Err(0xE01A, 'smallchunk')
        self.tree += c; self.tree_left -= len(c); self.chunks += 1
        if self.tree_left == 0:
            self.tree_done(); return True
        return False
    def tokens_done(self):
        if self.tok_left == 0:
            self.st = 'regs' if self.regs_left else 'done'
    def add_regs(self, c):
        if self.st != 'regs': raise Err(SW_STATE, 'order')
        if len(c) > self.regs_left: raise Err(0xE015, 'size.regs')
        self.regs += c; self.regs_left -= len(c)
        if self.regs_left == 0: self.st = 'done'
    def body(self, idx=False):
        return ref.box_body(self.value, self.tree, self.height, self.toks, self.regs, idx)

class Attest:
    def __init__(self, txid, index, box):
        self.txid, self.index, self.box = txid, index, box
        self.session = None
        self.approved = False
        self.done = False
    def frames(self):
        return max(1, (len(self.box.toks) + 3) // 4)
    def frame_body(self, i, bid):
        t = self.box.toks[4 * i:4 * i + 4]
        return bid + bytes([self.frames(), i]) + self.box.value.to_bytes(8, 'big') + bytes([len(t)]) + \
            b''.join(a + v.to_bytes(8, 'big') for a, v in t)

class Sign:
    def __init__(self, net, path):
        self.net, self.path = net, path
        self.session = None
        self.approved = False
        self.st = 'init'      # init, tokens, inputs, data, outputs, finished, final
        self.counts = None
        self.inputs, self.data_inputs, self.tokens, self.outputs = [], [], [], []
        self.table = []       # declared then discovered token ids
        self.net_tok = {}     # table index -> net amount (inputs - outputs)
        self.value = 0        # inputs - change - fee
        self.fee = 0
        self.cur_in = None    # [id, frames, done, ext_left, ext]
        self.out = None
        self.last_change = None
        self.used_op = False

class Out:
    def __init__(self, box):
        self.box = box
        self.kind = None      # tree / fee / change
        self.path = None
        self.amounts = {}     # table index -> amount

class Model:
    def __init__(self, seed, small=False, version=(0, 0, 5), name=b'Ergo'):
        self.seed, self.small = seed, small
        self.version, self.name = version, name
        self.known = 0
        self.cmd = None
        self.ctx = None
        self.prompt = None
        self.pos = 0
        self.session_key = None
        self.menu = 'main'
        self.signatures = []
        self.stats = {}
        self.history = []

    # ---------- helpers ----------
    def abort(self):
        self.cmd, self.ctx = None, None
    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1
    def err(self, sw, tag):
        return Exp('sw', sw, b'', tag)
    def ok(self, data=b'', tag='ok', onmatch=None):
        return Exp('sw', SW_OK, data, tag, onmatch=onmatch)
    def show(self, prompt, tag):
        self.prompt, self.pos = prompt, 0
        prompt.seen.add(0)
        return Exp('prompt', tag=tag, prompt=prompt)
    def app_page(self, token, kind):
        return Page('Application', '0x%08x' % token, tag=kind + '.application')
    def ar(self, kind):
        return [Page('Approve', act='approve', tag=kind + '.approve'), Page('Reject', act='reject', tag=kind + '.reject')]
    def knows(self, token):
        return token != 0 and self.known == token

    # ---------- requests ----------
    def apdu(self, raw):
        e = self._apdu(raw)
        self.count('apdu')
        if e.kind == 'sw' and e.sw != SW_OK: self.count('err.' + e.tag)
        return e

    def _apdu(self, raw):
        if len(raw) < 5 or len(raw) - 5 != raw[4]:
            return self.err(SW_LEN, 'hdr.length')
        cla, ins, p1, p2 = raw[0], raw[1], raw[2], raw[3]
        data = bytes(raw[5:])
        if cla != 0xE0: return self.err(SW_CLA, 'hdr.cla')
        if ins in (1, 2):
            if p1 or p2: return self.err(SW_P1P2, 'hdr.p1p2')
            if data: return self.err(SW_LEN, 'hdr.lc')
            if ins == 1: return self.ok(bytes(self.version[:3]) + bytes([len(self.version) > 3]), 'version')
            return self.ok(self.name, 'name')
        if ins == 0x10:
            if p1 not in (1, 2) or p2: return self.err(SW_P1P2, 'hdr.p1p2')
        elif ins == 0x11:
            if p1 not in (1, 2) or p2 not in (1, 2): return self.err(SW_P1P2, 'hdr.p1p2')
        elif ins in (0x20, 0x21):
            if p1 == 0 or p2 == 0: return self.err(SW_P1P2, 'hdr.p1p2')
        else:
            return self.err(SW_INS, 'hdr.ins')
        if self.prompt: return self.err(SW_BUSY, 'busy')
        try:
            if ins == 0x10: return self.ext_pubkey(Rd(data), p1 == 2)
            if ins == 0x11: return self.derive(Rd(data), p1 == 2, p2 == 2)
            if ins == 0x20: return self.attest(Rd(data), p1, p2)
            return self.sign(Rd(data), p1, p2)
        except Err as x:
            self.abort()
            return self.err(x.sw, x.tag)

    def ext_pubkey(self, r, has):
        self.abort()
        path = r.path()
        token = r.u(4) if has else 0
        r.end()
        if not path_ok_account(path): raise Err(0xE012, 'path.account')
        data = ref.pubkey(self.seed, path) + ref.chain(self.seed, path)
        if self.knows(token): return self.ok(data, 'extpubkey')
        s = ref.path_str(path)
        if len(s) > 59: raise Err(0xE101, 'longpath')
        pages = [Page('Ext PubKey Export', tag='extpubkey.title'), Page('Path', s, 'skip', tag='extpubkey.path')]
        if token: pages.append(self.app_page(token, 'extpubkey'))
        def approve():
            self.known = token
            self.abort()
            return self.ok(data, 'extpubkey')
        return self.show(Prompt('extpubkey', pages + self.ar('extpubkey'), approve, self.deny), 'consent.extpubkey')

    def deny(self):
        self.abort()
        return self.err(SW_DENY, 'deny')

    def derive(self, r, display, has):
        self.abort()
        net = r.u(1)
        path = r.path()
        token = r.u(4) if has else 0
        r.end()
        if not path_ok_address(path): raise Err(0xE012, 'path.address')
        if net > 252: raise Err(0xE016, 'net.address')
        raw = ref.p2pk_address(net, ref.pubkey(self.seed, path))
        if not display and self.knows(token): return self.ok(raw, 'address')
        s = ref.path_str(path)
        if len(s) > 59: raise Err(0xE101, 'longpath')
        pages = [Page('Confirm Address' if display else 'Confirm Send Address', tag='address.title'),
                 Page('Path', s, 'skip', tag='address.path')]
        if display: pages.append(Page('Address', ref.b58(raw), tag='address.text'))
        if token: pages.append(self.app_page(token, 'address'))
        def approve():
            self.known = token
            self.abort()
            return self.ok(b'' if display else raw, 'address')
        return self.show(Prompt('address', pages + self.ar('address'), approve, self.deny), 'consent.address')

    # ---------- input attestation ----------
    def new_session(self, ctx, tag):
        def check(d):
            if len(d) != 1 or d[0] == 0: return 'session id must be one non-zero byte, got ' + d.hex()
            ctx.session = d[0]
        return self.ok(check, tag)

    def attest(self, r, sub, sp):
        if sub == 1:
            if sp not in (1, 2): raise Err(SW_P1P2, 'hdr.p2sub')
            self.abort()
            self.cmd = 'attest'
            txid = r.take(32); index = r.u(2); value = r.u(8); ts = r.u(4); ht = r.u(4); nt = r.u(1); rs = r.u(4)
            token = r.u(4) if sp == 2 else 0
            r.end()
            ctx = self.ctx = Attest(txid, index, Box(value, ts, ht, nt, rs))
            if self.knows(token):
                ctx.approved = True
                return self.new_session(ctx, 'attest.session')
            pages = [Page('Confirm Attest Input', tag='attest.title')]
            if token: pages.append(self.app_page(token, 'attest'))
            def approve():
                self.known = token
                ctx.approved = True
                return self.new_session(ctx, 'attest.session')
            return self.show(Prompt('attest', pages + self.ar('attest'), approve, self.deny), 'consent.attest')
        if sub not in (2, 3, 4, 5): raise Err(SW_SUBCMD, 'hdr.subcmd')
        if self.cmd != 'attest': raise Err(SW_STATE, 'nocmd')
        c = self.ctx
        if sp != c.session: raise Err(SW_SESSION, 'session')
        b = c.box
        if sub == 5:
            if not c.done: raise Err(SW_STATE, 'order')
            i = r.u(1); r.end()
            if i >= c.frames(): raise Err(0xE007, 'frame.range')
            body = c.frame_body(i, ref.box_id(b.body(), c.txid, c.index))
            key = self.session_key
            def check(d):
                if len(d) != len(body) + 16: return 'frame length %d, expected %d' % (len(d), len(body) + 16)
                if d[:-16] != body: return 'frame content %s, expected %s' % (d[:-16].hex(), body.hex())
                if key is not None and d[-16:] != ref.hmac_sha256(key, body)[:16]: return 'frame tag is not the keyed hash of the frame'
                c.history_ok = True
            return self.ok(check, 'attest.frame')
        if c.done: raise Err(SW_STATE, 'order')
        if sub == 2: b.add_tree(r.take(r.left()))
        elif sub == 4: b.add_regs(r.take(r.left()))
        else:
            if b.st != 'tokens': raise Err(SW_STATE, 'order')
            while r.left():
                if b.tok_left == 0: raise Err(0xE00A, 'count.tokens')
                tid = r.take(32, 0xE001, 'tok.short'); v = r.u(8, 0xE002, 'tok.short')
                if tid in [t for t, _ in b.toks]: raise Err(0xE001, 'tok.dup')
                b.toks.append((tid, v)); b.tok_left -= 1
            b.tokens_done()
        if b.st == 'done':
            c.done = True
            self.count('attested')
            return self.ok(bytes([c.frames()]), 'attest.frames')
        return self.ok(b'', 'attest.step')

    # ---------- transaction signing ----------
    def sign(self, r, sub, sp):
        if sub == 1:
            if sp not in (1, 2): return self.err(SW_P1P2, 'hdr.p2sub')
            self.abort()
            self.cmd = 'sign'
            net = r.u(1)
            path = r.path(0xE010)
            token = r.u(4) if sp == 2 else 0
            r.end()
            if not path_ok_address(path): raise Err(0xE012, 'path.sign')
            if net not in (0, 0x10): raise Err(0xE019, 'net.sign')
            s = ref.path_str(path)
            if len(s) > 59: raise Err(0xE101, 'longpath')
            ctx = self.ctx = Sign(net, path)
            pages = [Page('P2PK Signing', s, 'approve', tag='sign.path')]
            if not self.knows(token): pages.append(self.app_page(token, 'sign'))
            def approve():
                self.known = token
                ctx.approved = True
                return self.new_session(ctx, 'sign.session')
            return self.show(Prompt('sign', pages + self.ar('sign'), approve, self.deny), 'consent.sign')
        if not 0x10 <= sub <= 0x1A and sub != 0x20: raise Err(SW_SUBCMD, 'hdr.subcmd')
        if self.cmd != 'sign': raise Err(SW_STATE, 'nocmd')
        c = self.ctx
        if sp != c.session: raise Err(SW_SESSION, 'session')
        return {0x10: self.s_start, 0x11: self.s_tokens, 0x12: self.s_input, 0x13: self.s_ext, 0x14: self.s_data,
                0x15: self.s_out, 0x16: self.s_tree, 0x17: self.s_fee, 0x18: self.s_change, 0x19: self.s_otok,
                0x1A: self.s_regs, 0x20: self.s_confirm}[sub](c, r)

    def s_start(self, c, r):
        ni, nd, nt, no = r.u(2), r.u(2), r.u(1), r.u(2)
        r.end()
        if c.st != 'init': raise Err(SW_STATE, 'order')
        if ni == 0: raise Err(0xE008, 'count.inputs0')
        if no == 0: raise Err(0xE009, 'count.outputs0')
        if nt > TOKMAX: raise Err(0xE00A, 'limit.tokens')
        c.counts = (ni, nd, nt, no)
        c.st = 'tokens' if nt else 'inputs'
        return self.ok(b'', 'sign.start')

    def s_tokens(self, c, r):
        if c.st != 'tokens': raise Err(SW_STATE, 'order')
        while r.left():
            if len(c.tokens) >= c.counts[2]: raise Err(0xE00A, 'count.tokens')
            c.tokens.append(r.take(32, 0xE001, 'tok.short'))
        c.table = list(c.tokens)
        if len(c.tokens) == c.counts[2]: c.st = 'inputs'
        return self.ok(b'', 'sign.tokens')

    def s_input(self, c, r):
        whole = r.b
        if len(whole) < 59: raise Err(0xE014, 'short')
        nt = whole[42]
        n = 43 + 40 * nt
        if len(whole) < n + 16:
            # a token count of 6 or more cannot belong to a genuine frame; which error is reported is not specified
            raise Err(0xE014 if nt < 6 else None, 'short')
        if self.session_key is None: raise Err(None, 'frame.mac')
        if ref.hmac_sha256(self.session_key, whole[:n])[:16] != whole[n:n + 16]: raise Err(0xE018, 'frame.mac')
        bid, fc, fi, value = whole[:32], whole[32], whole[33], int.from_bytes(whole[34:42], 'big')
        toks = [(whole[43 + 40 * i:75 + 40 * i], int.from_bytes(whole[75 + 40 * i:83 + 40 * i], 'big')) for i in range(nt)]
        r.take(n + 16)
        if fi == 0:
            ext = r.u(4)
            if c.st != 'inputs' or c.cur_in is not None: raise Err(SW_STATE, 'order.frame')
            if ext == 1 or ext > PARTMAX: raise Err(0xE003, 'limit.ext')
            c.cur_in = [bid, fc, 0, ext, b'', value]
            if c.value + value >= U64: raise Err(0xE011, 'overflow.value')
            c.value += value
        # bytes after the frame are ignored by the application
        if c.st != 'inputs' or c.cur_in is None or c.cur_in[2] >= c.cur_in[1]: raise Err(SW_STATE, 'order.frame')
        if c.cur_in[0] != bid: raise Err(0xE005, 'frame.box')
        if fi >= c.cur_in[1]: raise Err(0xE00D, 'frame.range')
        if fi != c.cur_in[2]: raise Err(0xE007, 'frame.order')
        for t, v in toks:
            if t in c.table: k = c.table.index(t)
            else:
                if len(c.table) >= TOKMAX: raise Err(0xE00A, 'limit.table')
                k = len(c.table); c.table.append(t)
            s = c.net_tok.get(k, 0) + v
            if s >= 2**63: raise Err(0xE011, 'overflow.tokenin')
            c.net_tok[k] = s
        c.cur_in[2] += 1
        if c.cur_in[2] == c.cur_in[1] and c.cur_in[3] == 0: self.input_done(c)
        return self.ok(b'', 'sign.input')

    def input_done(self, c):
        c.inputs.append((c.cur_in[0], c.cur_in[4]))
        c.cur_in = None
        self.count('tx.input')
        if len(c.inputs) == c.counts[0]:
            c.st = 'data' if c.counts[1] else 'outputs'

    def s_ext(self, c, r):
        if c.st != 'inputs' or c.cur_in is None or c.cur_in[2] < c.cur_in[1]: raise Err(SW_STATE, 'order')
        d = r.take(r.left())
        if len(d) > c.cur_in[3]: raise Err(0xE015, 'size.ext')
        c.cur_in[3] -= len(d); c.cur_in[4] += d
        if c.cur_in[3] == 0: self.input_done(c)
        return self.ok(b'', 'sign.ext')

    def s_data(self, c, r):
        if c.st != 'data': raise Err(SW_STATE, 'order')
        while r.left():
            if len(c.data_inputs) >= c.counts[1]: raise Err(0xE00C, 'count.data')
            c.data_inputs.append(r.take(32, 0xE004, 'data.short'))
        if len(c.data_inputs) == c.counts[1]: c.st = 'outputs'
        return self.ok(b'', 'sign.data')

    def s_out(self, c, r):
        v = r.u(8); ts = r.u(4); ht = r.u(4); nt = r.u(1); rs = r.u(4)
        r.end()
        if c.st != 'outputs': raise Err(SW_STATE, 'order')
        if c.out is not None: raise Err(SW_STATE, 'order.output')
        c.out = Out(Box(v, ts, ht, nt, rs))
        return self.ok(b'', 'sign.output')

    def cur_out(self, c):
        if c.st != 'outputs' or c.out is None: raise Err(SW_STATE, 'order')
        return c.out

    def s_tree(self, c, r):
        o = self.cur_out(c)
        o.box.add_tree(r.take(r.left()))
        if o.box.st != 'tree': o.kind = 'tree'
        return self.out_step(c, 'sign.tree')

    def sub(self, c, o):
        if o.box.value > c.value: raise Err(0xE011, 'overflow.out')
        c.value -= o.box.value

    def fresh_tree(self, c, o):
        if o.box.st != 'tree' or o.box.chunks:
            # where the amount is refused as well, either error will do
            both = o.box.value > c.value or c.fee + o.box.value >= U64
            raise Err(None if both else SW_STATE, 'order')

    def s_fee(self, c, r):
        r.end()
        o = self.cur_out(c)
        self.fresh_tree(c, o)
        o.kind = 'fee'; o.box.tree = ref.FEE_TREE
        self.sub(c, o)
        if c.fee + o.box.value >= U64: raise Err(0xE011, 'overflow.fee')
        c.fee += o.box.value
        o.box.tree_done()
        return self.out_step(c, 'sign.fee')

    def s_change(self, c, r):
        path = r.path(0xE010)
        # bytes after the path are ignored by the application
        if not path_ok_address(path): raise Err(0xE012, 'path.change')
        o = self.cur_out(c)
        self.fresh_tree(c, o)
        o.kind = 'change'; o.path = path
        o.box.tree = ref.p2pk_tree(ref.pubkey(self.seed, path))
        self.sub(c, o)
        o.box.tree_done()
        return self.out_step(c, 'sign.change')

    def s_otok(self, c, r):
        o = self.cur_out(c)
        b = o.box
        if b.st != 'tokens': raise Err(SW_STATE, 'order')
        while r.left():
            if b.tok_left == 0: raise Err(0xE00A, 'count.tokens')
            i = r.u(4, 0xE006, 'tok.short')
            if i >= c.counts[2]: raise Err(0xE006, 'tok.index')
            v = r.u(8, 0xE002, 'tok.short')
            k = c.table.index(c.table[i])
            if o.amounts.get(k, 0): raise Err(0xE002, 'tok.dup')
            o.amounts[k] = v
            s = c.net_tok.get(k, 0) - v
            if s < -2**63: raise Err(0xE011, 'overflow.tokenout')
            c.net_tok[k] = s
            b.toks.append((i, v)); b.tok_left -= 1
        b.tokens_done()
        return self.out_step(c, 'sign.otokens')

    def s_regs(self, c, r):
        o = self.cur_out(c)
        o.box.add_regs(r.take(r.left()))
        return self.out_step(c, 'sign.regs')

    def out_tokens(self, c, o):
        return [(k, o.amounts[k]) for k in sorted(o.amounts) if o.amounts[k]]

    def silent(self, c, o):
        """may this output be accepted without showing it?"""
        if o.kind == 'fee': return not self.out_tokens(c, o)
        if o.kind == 'change' and path_ok_address(o.path, True):
            if c.last_change is not None and c.last_change == o.path: return True
            return o.path[:3] == c.path[:3] and o.path[3] == c.path[3] and o.path[4] < c.path[4] + 20
        return False

    def out_step(self, c, tag):
        o = c.out
        if o.box.st != 'done': return self.ok(b'', tag)
        c.outputs.append(o.box.body(True))
        c.out = None
        if len(c.outputs) == c.counts[3]: c.st = 'finished'
        self.count('tx.out.' + o.kind)
        if self.silent(c, o):
            self.count('tx.silent.' + o.kind)
            return self.ok(b'', 'silent.' + o.kind)
        c.last_change = None
        pages = [Page('Confirm Output', tag='output.title')]
        if o.kind == 'change':
            s = ref.path_str(o.path)
            pages.append(Page('Change', s, tag='output.change', err=0xE101 if len(s) > 69 else None, dyn=True))
        else:
            t = o.box.tree
            if o.kind == 'fee': pages.append(Page('Fee', 'Miners Fee', tag='output.fee', dyn=True))
            elif len(t) == 36 and t[:3] == ref.P2PK_PREFIX and t[3] in (2, 3):
                pages.append(Page('Address', ref.b58(ref.p2pk_address(c.net, t[3:])), tag='output.address', dyn=True))
            else:
                if len(t) == 44 and t.startswith(ref.P2SH_PREFIX) and t.endswith(ref.P2SH_SUFFIX):
                    h = t[17:41]
                else:
                    h = ref.blake2b256(t)[:24]
                pages.append(Page('Script Hash', ref.b58(ref.p2sh_address(c.net, h)), tag='output.script', dyn=True))
            pages.append(Page('Output Value', ref.erg(o.box.value), tag='output.value', dyn=True))
            for n, (k, v) in enumerate(self.out_tokens(c, o)):
                pages.append(Page('Token [%d]' % (n + 1), ref.hexid(c.table[k], self.small), tag='output.token', dyn=True))
                pages.append(Page('Token [%d] Value' % (n + 1), str(v), tag='output.tokenvalue', dyn=True))
        def approve():
            if o.kind == 'change': c.last_change = o.path
            self.count('tx.approved.' + o.kind)
            return self.ok(b'', 'output.approved')
        return self.show(Prompt('output', pages + self.ar('output'), approve, self.deny), 'consent.output.' + o.kind)

    def message(self, c):
        return ref.tx_bytes(c.inputs, c.data_inputs, c.tokens, c.outputs)

    def s_confirm(self, c, r):
        # bytes in the request are ignored by the application
        if c.st != 'finished': raise Err(SW_STATE, 'order.confirm')
        pages = [Page('Approve Signing', tag='confirm.title'),
                 Page('P2PK Path', ref.path_str(c.path), tag='summary.path', dyn=True),
                 Page('Transaction Amount', ref.erg(c.value), tag='summary.amount', dyn=True),
                 Page('Transaction Fee', ref.erg(c.fee), tag='summary.fee', dyn=True)]
        n = 0
        for k in sorted(c.net_tok):
            v = c.net_tok[k]
            if not v: continue
            n += 1
            pages.append(Page('Token [%d]' % n, ref.hexid(c.table[k], self.small), tag='summary.token', dyn=True))
            pages.append(Page('Token [%d] Value' % n, ('Minting: %d' % -v) if v < 0 else ('Burning: %d' % v),
                              tag='summary.tokenvalue', dyn=True))
        msg = self.message(c)
        pk = ref.pubpoint(self.seed, c.path)
        c.st = 'final'
        def approve():
            self.abort()
            def check(d):
                good, w = ref.sig_verify(d, pk, msg)
                if not good: return 'signature %s does not verify for the transaction streamed (%d bytes %s)' % (d.hex(), len(msg), msg.hex()[:400])
                self.signatures.append((w, msg, tuple(c.path), d))
                self.count('signed')
            return self.ok(check, 'signature')
        return self.show(Prompt('confirm', pages + self.ar('confirm'), approve, self.deny), 'consent.confirm')

    # ---------- buttons ----------
    def press(self, b):
        """expected outcome of a button press; 'L', 'R' or 'B'"""
        self.count('press')
        if not self.prompt:
            return self.press_menu(b)
        p = self.prompt
        if b in 'LR':
            self.pos = (self.pos + (1 if b == 'R' else -1)) % len(p.pages)
            pg = p.pages[self.pos]
            p.seen.add(self.pos)
            if pg.err:
                self.prompt = None
                self.abort()
                self.menu, self.pos = 'main', 0
                return Exp('sw', pg.err, b'', 'page.error')
            return Exp('screen', tag=pg.tag, prompt=pg)
        pg = p.pages[self.pos]
        if pg.act in ('approve', 'reject'):
            self.prompt = None
            self.menu, self.pos = 'main', 0
            return p.on_approve() if pg.act == 'approve' else p.on_reject()
        if pg.act == 'skip':   # stays on the page or moves on to the next one
            nxt = p.pages[(self.pos + 1) % len(p.pages)]
            def moved():
                self.pos = (self.pos + 1) % len(p.pages); p.seen.add(self.pos)
            return Exp('screen', tag=pg.tag, prompt=pg, alt=(nxt, moved))
        return Exp('none', tag='press.noop')

    MENU = {'main': ['Ergo', 'About', 'Quit'], 'about': ['Ergo App', 'Version', 'Back']}
    def press_menu(self, b):
        m = self.MENU[self.menu]
        if b in 'LR':
            self.pos = (self.pos + (1 if b == 'R' else -1)) % 3
            return Exp('screen', tag='menu', prompt=Page(m[self.pos], None, tag='menu'))
        if m[self.pos] == 'About':
            self.menu, self.pos = 'about', 0
            return Exp('screen', tag='menu', prompt=Page('Ergo App', None, tag='menu'))
        if m[self.pos] == 'Back':
            self.menu, self.pos = 'main', 0
            return Exp('screen', tag='menu', prompt=Page('Ergo', None, tag='menu'))
        if m[self.pos] == 'Quit':
            return Exp('exit', tag='menu.quit')
        return Exp('none', tag='press.noop')
