"""Runs one scenario on the emulated device and on the executable specification together and records
every disagreement.  A scenario is any sequence of APDUs, button presses and emulator commands."""
import re, collections
from model import Model, Page, Exp, SW_OK, path_ok_account, path_ok_address
import ref

class Stop(Exception):
    """the scenario cannot go on (device gone, or device and specification no longer in step)"""

class Mismatch:
    __slots__ = ('cls', 'tag', 'detail', 'step')
    def __init__(self, cls, tag, detail, step):
        self.cls, self.tag, self.detail, self.step = cls, tag, detail, step
    @property
    def key(self): return self.cls + ':' + self.tag
    def __repr__(self): return '%s @%d %s' % (self.key, self.step, self.detail)

HOME = Page('Ergo', None, tag='menu')

def san_summary(err):
    m = re.search(r'(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*)', err)
    fr = [x for x in re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', err) if '/compiler-rt/' not in x[1]]
    loc = ' <- '.join(a + '@' + b.split('/')[-1] for a, b in fr[:4])
    return ((m.group(1) if m else '').strip() + ' ' + loc).strip()

class Runner:
    def __init__(self, dev, seed, small=False, version=(0, 0, 5), name='Ergo', monitor=None):
        self.dev, self.seed, self.small = dev, seed, small
        self.version, self.name = version, name
        self.trace = []          # concrete steps, for replay
        self.mis = []
        self.exps = []           # expected outcomes, for coverage
        self.keys = collections.Counter()
        self.rng_events = []     # bytes the app drew
        self.derived = []        # paths the app derived, in order: (step, path)
        self.sign_ctx, self.live = None, set()
        self.chain_asked, self.chain_given = set(), set()
        self.faults = []
        self.fallible = 0
        self.last_screen = None
        self.pressed = False
        self.session_ids = []
        self.inits, self.last_id = 0, (-1, None)   # requests for a session so far; when the last identifier was given, and which
        self.boot()

    # ---- life cycle ----
    def boot(self):
        self.trace.append(('T', self.seed))
        self.m = Model(self.seed, self.small, self.version, self.name.encode())
        self.up = True
        self.last_id = (-1, None)
        self.chain_asked, self.chain_given = set(), set()
        evs = self.dev.boot(self.seed)
        self._common(evs, Exp('none', tag='boot'))
        g = [p for p in evs.of('g')]
        k = [p for p in g if len(p) == 16] or g
        self.m.session_key = k[0] if k and len(k[0]) == 16 else b''.join(g) or None
        if evs.responses:
            self.bad('response', 'boot', 'an answer before any request')
        sc = evs.screens
        if not sc or 'Ergo' not in (sc[-1][1] + ' ' + sc[-1][2]):
            self.bad('screen', 'menu', 'home screen is %r' % (sc[-1:],))

    def reboot(self, seed=None):
        """power cycle, possibly with different internal randomness but the same keys (same seed)"""
        self.dev.quit()
        if seed is not None: self.seed = seed
        self.boot()

    # ---- bookkeeping ----
    def bad(self, cls, tag, detail, stop=False):
        self.mis.append(Mismatch(cls, tag, detail, len(self.trace) - 1))
        if stop: raise Stop()

    def _common(self, evs, exp):
        """everything that must hold whatever was asked"""
        for p in evs.of('g'):
            self.rng_events.append((len(self.trace) - 1, p))
        for p in evs.of('d'):
            path = tuple(int.from_bytes(p[i:i + 4], 'little') for i in range(0, len(p), 4))
            self.derived.append((len(self.trace) - 1, path))
            self.keys['derived'] += 1
            if not (path_ok_account(path) or path_ok_address(path)):
                self.bad('derive', 'offpolicy', 'a key was derived for %s' % ref.path_str(path))
        for p in evs.of('f'):
            self.faults.append((len(self.trace) - 1, p.decode()))
        for t, cls in (('a', 'assert'), ('h', 'hash'), ('u', 'ux')):
            for p in evs.of(t):
                self.bad(cls, exp.tag, p.decode('latin1'))
        if evs.waiting: self.fallible = evs.waiting[0]
        if evs.exit is not None:
            self.up = False
            clean = bool(evs.of('e')) and evs.exit == 0
            if not (clean and exp.kind == 'exit'):
                err = self.dev.stderr()
                sig = evs.exit & 127
                what = san_summary(err) or ('signal %d' % sig if sig else
                       'app_main returned' if evs.of('o') else 'exit status %d' % (evs.exit >> 8))
                if sig == 27: self.bad('hang', exp.tag, 'no progress within 10 s of CPU time', True)
                self.bad('crash', exp.tag, what, True)

    # ---- comparing ----
    def page_ok(self, pg, sc):
        """does the screen show this page?"""
        if sc is None: return 'nothing is shown'
        kind, a, b = sc
        if pg.text is None:
            return None if pg.title.split()[0] in (a + ' ' + b) else 'shows %r / %r, expected %r' % (a, b, pg.title)
        if pg.act in ('approve', 'reject') and not pg.text:
            return None if pg.act in a.lower() else 'shows %r, expected %s' % (a, pg.title)
        if pg.tag.endswith('.title'):
            got = ' '.join((a + ' ' + b).split())
            return None if got == pg.title else 'title %r, expected %r' % (got, pg.title)
        if a != pg.title: return 'title %r, expected %r' % (a, pg.title)
        if pg.tag.endswith('.application'):
            return None if b.lower() == pg.text.lower() else 'text %r, expected %r' % (b, pg.text)
        if b != pg.text: return 'text %r, expected %r' % (b, pg.text)
        return None

    KINDS = ('private key', 'nonce', 'product of a private key', 'session key', 'chain code nobody was given')
    def step(self, exp, evs, descr):
        try:
            return self._step(exp, evs, descr)
        finally:
            self._residue(exp, evs, descr)

    def _residue(self, exp, evs, descr):
        """what is left in memory while the device waits for the next request or button"""
        if not self.up: return
        signing = self.m.ctx if self.m.cmd == 'sign' else None
        if signing is not self.sign_ctx: self.sign_ctx, self.live = signing, set()
        if signing is not None: self.live |= {p[1] for p in evs.of('k') if p[0] == 1}
        if evs.waiting: self.keys['scan'] += 1
        for k in {p[0] for p in evs.of('k')}: self.keys['secret:%d' % k] += 1
        # a chain code is the host's once it was exported, and the request's while its export is being decided
        export = exp.tag.endswith('extpubkey')
        if export: self.chain_asked |= {p[1] for p in evs.of('k') if p[0] == 4}
        if export and any(r[2] == SW_OK for r in evs.responses):
            self.chain_given |= self.chain_asked; self.keys['chain-given'] += 1
        if not self.m.prompt: self.chain_asked = set()
        seen = set()
        for p in evs.of('m'):
            where, kind, idx = p[0], p[1], p[2]
            off = int.from_bytes(p[3:7], 'little')
            if kind == 3: self.keys['sessionkey-found'] += 1; continue
            if kind == 4 and (idx in self.chain_given or idx in self.chain_asked): self.keys['chain-allowed'] += 1; continue
            if kind == 1 and where == 1 and signing is not None and idx in self.live:
                self.keys['nonce-live'] += 1; continue
            if (kind, where) in seen: continue
            seen.add((kind, where))
            self.bad('residue', ('key', 'nonce', 'product', '', 'chain')[kind] + ('.stack', '.memory', '.frame')[where],
                     '%s: %s (all of it or part) readable in %s (offset %d) %s %s' % (descr, self.KINDS[kind],
                     'static memory' if where == 1 else 'abandoned stack memory', off, 'when a routine returned or called a platform service during' if where == 2 else 'while waiting after', exp.tag))

    def _step(self, exp, evs, descr):
        self.exps.append(exp)
        self.keys[exp.kind + ':' + exp.tag] += 1
        self._common(evs, exp)
        if exp.kind == 'sw' and exp.sw != SW_OK and (exp.tag.startswith('path') or exp.tag == 'net.sign'):
            self.keys['early-checked'] += 1
            if evs.of('d'): self.bad('derive', 'early', '%s: a key is derived although the request is to be refused (%s)' % (descr, exp.tag))
        rs = evs.responses
        if len(rs) == 1 and rs[0][2] == 0xB000 and (exp.sw if exp.kind == 'sw' else 0) != 0xB000:
            self.bad('busy', 'spurious', '%s: refused as busy although no decision is pending' % descr)
        if evs.screens:
            self.last_screen = evs.screens[-1]
            k, _, text = self.last_screen
            if k in 'pq' and len(text) > (34 if self.small else 48):   # does not fit on the display at once
                self.keys['longtext'] += 1
                if k == 'q' and self.pressed != 'L':
                    self.bad('nav', exp.tag, '%s: a long text starts with its last part, the rest is skipped going forward: %r' % (descr, text))
        if evs.of('f') and len(rs) == 1 and rs[0][2] != SW_OK:
            # an SDK call failed during this step: answering with an error ends the command
            _, data, sw = rs[0]
            if data: self.bad('faultdata', exp.tag, '%s: error %04x carries data %s' % (descr, sw, data.hex()))
            self.m.abort(); self.m.prompt = None; self.m.menu, self.m.pos = 'main', 0
            self.keys['faulted:' + exp.tag] += 1
            if self.pressed: self.keys['home-after-error'] += 1
            if evs.screens or self.pressed:
                if not evs.screens or self.page_ok(HOME, evs.screens[-1]):
                    self.bad('screen', 'menu', '%s: after the error %04x the screen shows %r, expected the home screen' % (descr, sw, evs.screens[-1:]))
            return (sw, data)
        if exp.kind == 'exit':
            if self.up: self.bad('liveness', exp.tag, 'the application did not end')
            raise Stop()
        if len(rs) > 1:
            self.bad('response', exp.tag, '%s: %d answers' % (descr, len(rs)), True)
        for st, _, _ in rs:
            if st != 1 and exp.kind != 'sw':
                self.bad('response', exp.tag, '%s: unsolicited answer' % descr)
        if exp.kind == 'sw':
            if not rs:
                if evs.screens and (self.pressed or self.page_ok(HOME, evs.screens[-1]) is None):   # the menu or another page, not a question
                    self.bad('silent', exp.tag, '%s: no answer, expected %s (screen %r)' % (descr, hexsw(exp.sw), evs.screens[-1]), True)
                if evs.screens:
                    self.bad('prompted', exp.tag, '%s: a screen %r instead of the answer %s' % (descr, evs.screens[-1], hexsw(exp.sw)), True)
                self.bad('silent', exp.tag, '%s: no answer, expected %s' % (descr, hexsw(exp.sw)), True)
            st, data, sw = rs[0]
            if st == 1 and self.m.prompt and evs.screens:
                self.bad('nav', 'disturbed', '%s: the screen changes to %r under an open prompt' % (descr, evs.screens[-1]))
            if self.pressed and not self.m.prompt:
                self.keys['home-after-decision'] += 1
                if not evs.screens or self.page_ok(HOME, evs.screens[-1]):
                    self.bad('screen', 'menu', '%s: after the decision the screen shows %r, expected the home screen' % (descr, evs.screens[-1:]))
            if exp.sw == SW_OK:
                if sw != SW_OK:
                    self.bad('refused', exp.tag, '%s: answered %04x, expected 9000' % (descr, sw), True)
                if exp.tag.endswith('.session') and len(data) == 1:
                    self.session_ids.append(data[0])
                    if self.last_id[0] == self.inits - 1:
                        self.keys['id-followed'] += 1
                        if self.last_id[1] == data[0]: self.bad('sessionid', 'same', '%s: the new session gets the identifier %d of the session before' % (descr, data[0]))
                    self.last_id = (self.inits, data[0])
                if callable(exp.data):
                    e = exp.data(data)
                    if e: self.bad('data', exp.tag, '%s: %s' % (descr, e), exp.tag.endswith('session') or exp.tag == 'signature')
                elif data != exp.data:
                    self.bad('data', exp.tag, '%s: data %s, expected %s' % (descr, data.hex(), exp.data.hex()))
            else:
                if sw == SW_OK:
                    self.bad('accepted', exp.tag, '%s: answered 9000 %s, expected error %s' % (descr, data.hex(), hexsw(exp.sw)), True)
                if data: self.bad('errdata', exp.tag, '%s: error %04x carries data %s' % (descr, sw, data.hex()))
                if exp.sw is not None and sw != exp.sw:
                    self.bad('status', exp.tag, '%s: error %04x, expected %04x' % (descr, sw, exp.sw))
            return (sw, data)
        # no answer expected
        if rs:
            _, data, sw = rs[0]
            if exp.kind == 'prompt':
                self.bad('noprompt' if sw == SW_OK else 'refused', exp.tag, '%s: answered %04x %s, expected a prompt' % (descr, sw, data.hex()), True)
            self.bad('response', exp.tag, '%s: answered %04x %s on a press that must not answer' % (descr, sw, data.hex()),
                     True)
        if exp.kind == 'prompt':
            if not evs.screens: self.bad('silent', exp.tag, '%s: neither answer nor screen' % descr, True)
            e = self.page_ok(exp.prompt.pages[0], self.last_screen)
            if e: self.bad('screen', exp.prompt.pages[0].tag, e)
        elif exp.kind == 'screen':
            if exp.alt is None:
                if not evs.screens: self.bad('nav', exp.tag, '%s: screen does not change' % descr)
                e = self.page_ok(exp.prompt, self.last_screen)
                if e: self.bad('screen', exp.tag, e)
            else:
                e = self.page_ok(exp.prompt, self.last_screen) if evs.screens else None
                if e:
                    e2 = self.page_ok(exp.alt[0], self.last_screen)
                    if e2 is None: exp.alt[1]()
                    else: self.bad('nav', exp.tag, '%s: %s' % (descr, e))
        return None

    # ---- scenario interface ----
    def raw(self, b):
        b = bytes(b)
        if len(b) > 4 and b[0] == 0xE0 and b[1] in (0x20, 0x21) and b[2] == 1: self.inits += 1
        self.trace.append(('A', b.hex()))
        exp = self.m.apdu(b)
        return self.step(exp, self.dev.send('A', b), 'APDU ' + b[:5].hex() + ' ' + b[5:25].hex() + ('..' if len(b) > 25 else ''))
    def apdu(self, ins, p1, p2, data=b''):
        return self.raw(bytes([0xE0, ins, p1 & 255, p2 & 255, len(data)]) + data)
    def press(self, b):
        self.trace.append((b,))
        exp = self.m.press(b)
        self.pressed = b
        try: return self.step(exp, self.dev.send(b), 'button ' + b)
        finally: self.pressed = False
    def queue_rng(self, b):
        self.trace.append(('G', b.hex()))
        self._common(self.dev.send('G', b), Exp('none', tag='rngq'))
    def arm(self, n, count=1, wild=0):
        """the n-th fallible platform call from here on fails, and so many in all; wild: leaving plausible nonsense in its results"""
        self.trace.append(('F', n, count, wild))
        self._common(self.dev.send('F', n.to_bytes(4, 'little') + count.to_bytes(4, 'little') + bytes([wild])), Exp('none', tag='arm'))

    @property
    def prompt(self): return self.m.prompt

    def goto(self, act, direction='R'):
        p = self.m.prompt
        for _ in range(2 * len(p.pages) + 2):
            pg = p.pages[self.m.pos]
            if pg.act == act and pg.tag != 'sign.path': return True
            self.press(direction)
            if self.m.prompt is not p: return False
        return False
    def answer(self, act='approve', rnd=None):
        """browse the current prompt and approve or reject it"""
        p = self.m.prompt
        if p is None: return None
        if rnd is not None:
            for _ in range(rnd.choice((0, 0, 1, 3, 2 * len(p.pages)))):
                b = rnd.choice('LRRR')
                if rnd.random() < .08 and p.pages[self.m.pos].act not in ('approve', 'reject'): b = 'B'
                r = self.press(b)
                if self.m.prompt is not p: return r
        if not self.goto(act, 'R' if rnd is None or rnd.random() < .7 else 'L'): return None
        return self.press('B')

def hexsw(s): return 'any error' if s is None else '%04x' % s

def replay(dev, trace, small=False, version=(0, 0, 5), name='Ergo'):
    """re-executes a recorded trace; returns the runner"""
    r = Runner(dev, trace[0][1], small, version, name)
    try:
        for s in trace[1:]:
            if s[0] == 'T': r.reboot(s[1])
            elif s[0] == 'A': r.raw(bytes.fromhex(s[1]))
            elif s[0] == 'G': r.queue_rng(bytes.fromhex(s[1]))
            elif s[0] == 'F': r.arm(*s[1:])
            else: r.press(s[0])
    except Stop:
        pass
    return r
