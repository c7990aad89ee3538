"""Driver of one emulator process: boots the application, sends APDUs and button presses, returns events."""
import os, select, struct, subprocess, tempfile

class DeviceError(Exception):
    """the machinery itself failed (not a verdict about the application)"""

class Events:
    __slots__ = ('all', 'waiting', 'exit')
    def __init__(self, evs):
        self.all = evs
        self.waiting = None
        self.exit = None
        for t, p in evs:
            if t == 'W': self.waiting = struct.unpack('<IB', p[:5])
            elif t == 'X': self.exit = struct.unpack('<I', p)[0]
    def of(self, *types):
        return [p for t, p in self.all if t in types]
    @property
    def responses(self):
        """[(io_state, data, sw)]"""
        return [(p[0], p[1:-2], (p[-2] << 8) | p[-1]) for t, p in self.all if t == 'r']
    @property
    def screens(self):
        out = []
        for t, p in self.all:
            if t == 's':
                a, _, b = p[1:].partition(b'\0')
                out.append((chr(p[0]), a.decode('latin1'), b.decode('latin1')))
        return out

class Device:
    def __init__(self, exe, scratch):
        self.exe = exe
        fd, self.errpath = tempfile.mkstemp(prefix='emu', suffix='.err', dir=scratch)
        self.errfd = fd
        env = {'PATH': os.environ.get('PATH', ''), 'LANG': 'C',
               'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:'
                               'strict_string_checks=0:allocator_may_return_null=1:handle_segv=1:symbolize=0',
               'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99:symbolize=0',
               'MSAN_OPTIONS': 'exitcode=99:halt_on_error=1:symbolize=0'}
        env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('symbolize=0', 'symbolize=1')
        env['UBSAN_OPTIONS'] = env['UBSAN_OPTIONS'].replace('symbolize=0', 'symbolize=1')
        env['MSAN_OPTIONS'] = env['MSAN_OPTIONS'].replace('symbolize=0', 'symbolize=1')
        for d in ('/usr/lib/llvm-18/bin/llvm-symbolizer', '/usr/bin/llvm-symbolizer-18'):
            if os.path.exists(d):
                env['ASAN_SYMBOLIZER_PATH'] = env['MSAN_SYMBOLIZER_PATH'] = d
                break
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=fd,
                                  bufsize=0, env=env, close_fds=True)
        self.w = self.p.stdin
        self.rbuf = b''
        self.alive = False
    def _read(self, n):
        while len(self.rbuf) < n:
            if not select.select([self.p.stdout], [], [], 180)[0]:
                raise DeviceError('emulator silent for 180 s')
            c = os.read(self.p.stdout.fileno(), 1 << 16)
            if not c:
                raise DeviceError('emulator process ended: ' + self.stderr()[-2000:])
            self.rbuf += c
        r, self.rbuf = self.rbuf[:n], self.rbuf[n:]
        return r
    def _collect(self):
        evs = []
        while True:
            h = self._read(5)
            t = chr(h[0]); n = struct.unpack('<I', h[1:])[0]
            evs.append((t, self._read(n) if n else b''))
            if t == 'X':
                self.alive = False
                break
            if t == 'W':
                break
        return Events(evs)
    def send(self, t, payload=b''):
        self.w.write(t.encode() + struct.pack('<H', len(payload)) + payload)
        return self._collect()
    def boot(self, seed):
        assert not self.alive
        os.ftruncate(self.errfd, 0); os.lseek(self.errfd, 0, 0)
        self.alive = True
        return self.send('T', struct.pack('<Q', seed))
    def quit(self):
        if self.alive:
            return self.send('Q')
    def stderr(self):
        try:
            with open(self.errpath, 'rb') as f:
                return f.read().decode(errors='replace').strip('\0')
        except OSError:
            return ''
    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill(); self.p.wait()
        try:
            self.p.stdout.close(); os.close(self.errfd); os.unlink(self.errpath)
        except OSError:
            pass
