"""Worker that can also carry out the writing of a document under injected faults (fuzz/faultshim.c).

op ['#faults', generator var, file name, old, stale, seed, limit, size of incompressible data, plans]:  runs capy_generator_write in forked children, once per plan,
and judges the destination directory after each.  The result is (0, {...}).  Nothing is written outside the scratch directory."""
import ctypes as C, os, sys, random, struct, re, errno, signal, stat, shutil
import worker

IDRE = re.compile(rb'/ID *\[[^\]]*\]', re.S)
CLS = ['', 'open for writing', 'open', 'write', 'sync', 'close of a written file', 'close', 'rename', 'link', 'unlink', 'truncate', 'seek', 'stat', 'read', 'map']
OPENW, OPENR, WRITE, SYNC, CLOSEW, CLOSE, RENAME, LINK, UNLINK, TRUNC, SEEK, STAT, READ, MMAP = range(1, 15)
MUST = (OPENW, WRITE, SYNC, CLOSEW, RENAME)      # an error of these has to be reported
KIND = {1: 'fails', 2: 'fails from then on', 3: 'is cut short', 4: 'process dies before', 5: 'process dies half way through', 6: 'process dies right after', 7: 'disk full after %d bytes'}
MAXEV = 4000


class Ev(C.Structure):
    _fields_ = [('cls', C.c_int32), ('nr', C.c_int32), ('fd', C.c_int32), ('fault', C.c_int32), ('arg', C.c_int64), ('ret', C.c_int64), ('p1', C.c_char * 192), ('p2', C.c_char * 192)]


class Shared(C.Structure):
    _fields_ = [('n', C.c_int32), ('done', C.c_int32), ('rc', C.c_int32), ('maxev', C.c_int32), ('injected', C.c_int32), ('_', C.c_int32), ('ev', Ev * MAXEV)]


SHIM = None


def shim():
    global SHIM
    if SHIM is None:
        l = C.CDLL(os.environ['CAPYV_SHIM'])
        l.fs_shared.restype = C.c_void_p
        l.fs_run.argtypes = [C.c_void_p, C.c_void_p, C.c_void_p, C.c_int, C.c_int, C.c_int64]
        p = l.fs_shared(MAXEV)
        SHIM = (l, p, Shared.from_address(p))
    return SHIM


def mask(d): return None if d is None else IDRE.sub(b'/ID[]', d)


def old_content(kind, rng):
    if kind == 'none': return None
    if kind == 'empty': return b''
    if kind == 'short': return b'precious old content\n'
    if kind == 'pdf': return b'%PDF-1.4\n1 0 obj\n<<>>\nendobj\ntrailer\n<<>>\n%%EOF\n'
    return bytes(rng.getrandbits(8) for _ in range(1000)) * 700


class FEnv(worker.Env):
    def run(self, prog, progress=None):
        res = []
        for i, op in enumerate(prog):
            if progress is not None: progress[0:4] = struct.pack('<i', i)
            if op[0] == '#make':
                p = self.path(op[2])
                if op[1] == 'dir': os.mkdir(p)
                elif op[1] == 'link': os.symlink(op[3], p)
                elif op[1] == 'file': open(p, 'wb').write(op[3].encode('latin-1'))
                elif op[1] == 'readonly': open(p, 'wb').write(op[3].encode('latin-1')); os.chmod(p, 0o400)
                res.append((0, None)); continue
            if op[0] == '#tree':
                res.append((0, self.tree())); continue
            if op[0] != '#faults':
                res += super().run([op]); continue
            v = self.vars.get(op[1])
            res.append((0, self.faults(v[1], *op[2:]) if v else None))
        return res

    def tree(self):
        t = {}
        for d, ds, fs in os.walk(self.scratch):
            for n in ds + fs:
                p = os.path.join(d, n)
                r = os.path.relpath(p, self.scratch)
                if os.path.islink(p): t[r] = ('link', os.readlink(p))
                elif os.path.isdir(p): t[r] = ('dir', None)
                else: t[r] = ('file', open(p, 'rb').read())
        return t

    def cleanup(self):
        super().cleanup()
        for n in os.listdir(self.scratch): shutil.rmtree(os.path.join(self.scratch, n))

    def faults(self, gen, fname, oldkind, stalekind, seed, limit, blobs=0, plans=None):
        l, sp, sh = shim()
        rng = random.Random(seed)
        base = os.path.dirname(self.path(fname)) or self.scratch
        dest = self.path(fname)
        old = old_content(oldkind, rng)
        stale = old_content(stalekind, rng)
        fn = C.cast(self.lib.fn['generator_write'], C.c_void_p).value
        names = sorted(os.listdir(base))
        before = {}
        for n in names:
            p = os.path.join(base, n)
            before[n] = open(p, 'rb').read() if os.path.isfile(p) else None
        out = dict(early=[n for n in (os.path.basename(dest), os.path.basename(dest) + '~') if n in names], issues=[], runs=0, faults=0, killed=0, failed=0, kinds={})
        sentinel = {os.path.basename(dest) + '.bak': b'other file', 'x' + os.path.basename(dest): b'another', os.path.basename(dest)[:-1] or '_': b'third'}
        for n, d in sentinel.items():
            if n not in before and n != os.path.basename(dest): open(os.path.join(base, n), 'wb').write(d); before[n] = d

        def reset():
            for n in os.listdir(base):
                p = os.path.join(base, n)
                if n not in before:
                    if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
                    else: os.unlink(p)
            for n, d in before.items():
                p = os.path.join(base, n)
                if d is not None and n in sentinel and (not os.path.isfile(p)): open(p, 'wb').write(d)
            if oldkind == 'link':
                pass
            if old is not None: open(dest, 'wb').write(old)
            if stale is not None: open(dest + '~', 'wb').write(stale)

        def state():
            try: return open(dest, 'rb').read()
            except FileNotFoundError: return None

        def bad(code, msg):
            if len(out['issues']) < 20: out['issues'].append((code, msg))

        def others():
            for n, d in before.items():
                p = os.path.join(base, n)
                if d is None or n == os.path.basename(dest) or n == os.path.basename(dest) + '~': continue
                try: now = open(p, 'rb').read()
                except OSError: now = None
                if now != d: return n

        def run(at, kind, arg):
            reset()
            st = l.fs_run(fn, gen, sp, at, kind, arg)
            out['runs'] += 1
            if sh.rc <= -100 and sh.rc > -110: raise Exception('seccomp is not available (%d)' % sh.rc)
            return st

        st = run(-1, 0, 0)
        if st != 0 or not sh.done:
            bad('trace', 'writing ended with wait status %d' % st)
            return out
        rc0 = sh.rc
        evs = [(e.cls, e.fd, e.arg, e.ret, e.p1, e.p2) for e in sh.ev[:min(sh.n, MAXEV)]]
        n = sh.n
        new = state()
        o = others()
        if o: bad('other-file', 'writing changed the unrelated file %s' % o)
        out.update(rc=rc0, calls=n, size=len(new or b''), trace=[(CLS[e[0]], e[1], e[2], e[3], e[4].decode('latin-1'), e[5].decode('latin-1')) for e in evs[:60]])
        if rc0 != 0:
            if new != old: bad('failed-write', 'writing failed with code %d, yet the destination changed' % rc0)
        else:
            if new is None: bad('nofile', 'writing succeeded but there is no file'); return out
            extra = [x for x in os.listdir(base) if x not in before and x != os.path.basename(dest) and not (stale is not None and x == os.path.basename(dest) + '~')]
            if extra: bad('left', 'a successful write leaves other files behind: %r' % extra)
            self.durable(evs, dest, bad)
        ref = mask(new)
        # the plans
        if plans is None:
            plans = []
            for k in range(min(n, MAXEV)):
                c = evs[k][0]
                plans.append((k, 4, 0))
                e = rng.choice({WRITE: [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG], OPENW: [errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS],
                                SYNC: [errno.EIO, errno.ENOSPC], CLOSEW: [errno.EIO, errno.EDQUOT, errno.ENOSPC], RENAME: [errno.EACCES, errno.ENOSPC, errno.EXDEV, errno.EIO],
                                SEEK: [errno.EIO, errno.ESPIPE], OPENR: [errno.EMFILE, errno.ENOENT, errno.EACCES], MMAP: [errno.ENOMEM], STAT: [errno.EIO, errno.ENOENT]}.get(c, [errno.EIO]))
                plans.append((k, 1, e)); plans.append((k, 2, e))
                if c == WRITE: plans += [(k, 3, 0), (k, 5, 0)]
            if n: plans.append((min(n, MAXEV) - 1, 6, 0))
            if rc0 == 0:
                for _ in range(6): plans.append((-1, 7, rng.choice([0, 1, rng.randrange(len(new) + 1), rng.randrange(len(new) + 1), len(new) - 1, max(0, len(new) - rng.randint(1, 300))])))
            if len(new or b'') > 120000 + blobs: limit = min(limit, 25)     # a colour profile: slow to write
            if len(plans) > limit:
                # keep the ends, which hold the interesting calls, and a sample of the middle
                w = [p for p in plans if p[0] < 0 or p[0] >= n - 8 or p[0] < 2]
                m = [p for p in plans if p not in w]
                rng.shuffle(w)
                plans = w[:limit * 2 // 3] + rng.sample(m, max(0, min(len(m), limit - limit * 2 // 3)))
        for at, kind, arg in plans:
            st = run(at, kind, arg)
            c = evs[at][0] if 0 <= at < len(evs) else WRITE
            what = ('%s call no. %d (%s) %s' % (CLS[c], at, evs[at][4].decode('latin-1').replace(self.scratch, '') if 0 <= at < len(evs) else '', KIND[kind]) if kind != 7 else KIND[7] % arg)
            if kind in (1, 2): what += ' with ' + errno.errorcode[arg]
            if sh.injected:
                out['faults'] += 1
                k = CLS[c] + '/' + KIND[kind].split(' %')[0]
                out['kinds'][k] = out['kinds'].get(k, 0) + 1
            now = state()
            o = others()
            if o: bad('other-file', '%s: the unrelated file %s changed' % (what, o))
            if st == -2: bad('hang', what + ': writing does not end'); continue
            if kind in (4, 5, 6) and sh.injected:
                out['killed'] += 1
                if now != old and not (rc0 == 0 and mask(now) == ref):
                    bad('torn', '%s: the destination is neither the old nor the new file (%s)' % (what, self.desc(now, new)))
                continue
            if not sh.done:
                bad('died', '%s: the process died, wait status %d' % (what, st)); continue
            rc = sh.rc
            if rc != 0:
                out['failed'] += 1
                if now != old and not (rc0 == 0 and mask(now) == ref):
                    bad('torn', '%s: error %d was reported and the destination is neither the old nor the new file (%s)' % (what, rc, self.desc(now, new)))
            else:
                if rc0 == 0 and mask(now) != ref:
                    bad('false-success', '%s: success was reported but the destination does not hold the complete document (%s)' % (what, self.desc(now, new) if now != old else 'old content'))
                elif sh.injected and c in MUST and kind in (1, 2, 7):
                    bad('unreported', '%s: success was reported' % what)
        reset()
        for nme in (os.path.basename(dest), os.path.basename(dest) + '~', *sentinel):
            try: os.unlink(os.path.join(base, nme))
            except OSError: pass
        return out

    @staticmethod
    def desc(now, new):
        if now is None: return 'no file'
        if new is None: return '%d bytes' % len(now)
        a, b = mask(now), mask(new)
        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return '%d bytes where the complete file has %d, first difference at %d' % (len(now), len(new), k)

    def durable(self, evs, dest, bad):
        """the data that the rename to the destination publishes was synced before"""
        fds, dirty, seen = {}, {}, set()
        for c, fd, arg, ret, p1, p2 in evs:
            if c == OPENW and ret >= 0:
                fds[ret] = p1; dirty.setdefault(p1, False); seen.add(p1)
                if p1 == os.fsencode(dest): bad('direct', 'the destination itself is opened for writing')
            elif c in (WRITE, TRUNC) and fd in fds: dirty[fds[fd]] = True
            elif c == SYNC and fd in fds and ret == 0: dirty[fds[fd]] = False
            elif c == CLOSEW: fds.pop(fd, None)
            elif c == RENAME and p2 == os.fsencode(dest) and ret == 0:
                if dirty.get(p1): bad('unsynced', 'the file renamed to the destination has data that was not synced before')


def main():
    worker.Env = FEnv
    worker.main()


if __name__ == '__main__':
    main()
