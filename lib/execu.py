"""Parent side of the worker: runs programs with crash isolation and time limit."""
import build, subprocess, os, sys, struct, pickle, select, tempfile, shutil, atexit, signal, glob

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable


class Crash(Exception):
    """The process died (or hung) while executing the program."""
    def __init__(self, what, pos, err):
        self.what, self.pos, self.err = what, pos, err
        super().__init__('%s at op %s' % (what, pos))


def asan_rt():
    r = subprocess.run(['clang++', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True).stdout.strip()
    if not os.path.isabs(r) or not os.path.exists(r):
        c = glob.glob('/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.asan-x86_64.so')
        r = c[0]
    return r


class Exec:
    def __init__(self, libdir, asan=False, worker='worker.py', timeout=60, mem_mb=3000, extra_env=None):
        self.lib = os.path.join(libdir, 'libcapypdf.so')
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix='capyv', dir=base)
        atexit.register(shutil.rmtree, self.root, True)
        self.scratch = os.path.join(self.root, 's')
        os.mkdir(self.scratch)
        self.asan, self.timeout, self.mem_mb = asan, timeout, mem_mb
        self.worker = os.path.join(HERE, worker)
        self.extra_env = extra_env or {}
        self.p = None
        self.starts = 0

    def start(self):
        env = dict(os.environ)
        env.update(LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', TMPDIR=self.root, LOCPATH=build.locales(), TZ='XYZ-5:30')
        for k in ('CAPY_DEBUG_PDF', 'SOURCE_DATE_EPOCH', 'CAPY_SCRAPE_PROTECT'):
            env.pop(k, None)
        if self.asan:
            env['LD_PRELOAD'] = asan_rt()
            env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_abort=0:'
                                   'max_allocation_size_mb=1500:detect_odr_violation=0:alloc_dealloc_mismatch=0')
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
            env['PYTHONMALLOC'] = 'malloc'
        env.update(self.extra_env)

        def limits():
            import resource
            if not self.asan:
                resource.setrlimit(resource.RLIMIT_AS, (self.mem_mb << 20, self.mem_mb << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        self.p = subprocess.Popen([PY, self.worker, self.lib, self.scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, preexec_fn=limits, close_fds=True)
        self.starts += 1

    def stop(self):
        if self.p:
            try: self.p.kill()
            except OSError: pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try: f.close()
                except OSError: pass
            self.p = None

    def _read(self, n):
        buf = b''
        fd = self.p.stdout.fileno()
        while len(buf) < n:
            r, _, _ = select.select([fd], [], [], self.timeout)
            if not r: raise TimeoutError
            c = os.read(fd, min(1 << 20, n - len(buf)))
            if not c: raise EOFError
            buf += c
        return buf

    def errtext(self):
        try:
            t = open(self.scratch + '.err', 'rb').read().decode('latin-1')
            return t if len(t) < 6000 else t[:4000] + '\n...\n' + t[-1500:]
        except OSError:
            return ''

    def run(self, prog):
        if self.p is None:
            self.start()
        data = pickle.dumps(prog, 4)
        try:
            self.p.stdin.write(struct.pack('<I', len(data)) + data)
            self.p.stdin.flush()
            n = struct.unpack('<I', self._read(4))[0]
            return pickle.loads(self._read(n))
        except (EOFError, BrokenPipeError, TimeoutError) as e:
            what = 'hang' if isinstance(e, TimeoutError) else None
            if what is None:
                try: self.p.wait(5)
                except subprocess.TimeoutExpired: pass
                rc = self.p.poll()
                what = 'died(%s)' % (signal.Signals(-rc).name if rc is not None and rc < 0 else rc)
            err = self.errtext()
            try: pos = struct.unpack('<i', open(self.scratch + '.pos', 'rb').read(4))[0]
            except Exception: pos = None
            self.stop()
            for f in os.listdir(self.scratch):
                try: os.unlink(os.path.join(self.scratch, f))
                except OSError: pass
            raise Crash(what, pos, err)
