"""Native executor: C++ generated from api.json that runs serialized programs, one thread each (no interpreter lock in between).

usage of the binary:  native MODE SCRATCH PROG...      MODE: t (one thread per program, started together) or s (one after the other)
Per program a result file PROG.res is written: int32 per op (return code; -999 skipped)."""
import os, struct, json, subprocess
import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = json.load(open(os.path.join(HERE, 'api.json')))['api']
NAMES = list(SPEC)
IDX = {n: i for i, n in enumerate(NAMES)}
CTY = {'f': 'double', 'i': 'int32_t', 'u': 'uint32_t', 'l': 'int64_t', 'U': 'uint64_t', 'e': 'int32_t', 'id': 'Id', 'str': 'const char *', 'h': 'void *',
       'ph': 'void *', 'pf': 'void *', 'pid': 'void *', 'pe': 'void *', 'pi': 'void *'}
PRE = r'''
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <thread>
#include <atomic>
#include <memory>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <malloc.h>
struct Id { int32_t id; };
struct Skip {};
struct Var { bool set = false; void *h = nullptr; int32_t id = -1; };
struct Out { int var; int kind; };
struct Run {
    std::vector<char> d; size_t p = 0; std::string scratch; std::vector<Var> vars; std::vector<int32_t> res;
    std::vector<std::unique_ptr<char[]>> keep;
    struct Pend { int var; int kind; void *slot; };
    std::vector<Pend> pend;
    template <class T> T rd() { T v; memcpy(&v, d.data() + p, sizeof v); p += sizeof v; return v; }
    void *mem(size_t n) { keep.emplace_back(new char[n ? n : 1]()); return keep.back().get(); }
    Var &var(int i) { if(i >= (int)vars.size()) vars.resize(i + 1); return vars[i]; }
    Var &need(int i) { Var &v = var(i); if(!v.set) bad = true; return v; }
    bool bad = false;
    double A_f() { return rd<double>(); }
    int64_t A_n() { return rd<int64_t>(); }
    Id A_id() { int t = rd<uint8_t>(); int32_t v = rd<int32_t>(); if(t == 0) return Id{v}; return Id{need(v).id}; }
    const char *A_str() {
        int t = rd<uint8_t>(); if(t == 0) return nullptr;
        uint32_t n = rd<uint32_t>(); std::string s(d.data() + p, n); p += n;
        if(t == 2) s = scratch + "/" + s;
        char *c = (char *)mem(s.size() + 1); memcpy(c, s.data(), s.size()); return c;
    }
    void *A_h() { int t = rd<uint8_t>(); int32_t v = rd<int32_t>(); if(t == 0) return nullptr; return need(v).h; }
    void *A_p(int kind) {   // 0 NULL, 1 out var, 2 list of doubles, 3 list of ids, 4 list of handles, 5 uint32 value
        int t = rd<uint8_t>();
        if(t == 0) return nullptr;
        if(t == 1) { int v = rd<int32_t>(); void *m = mem(16); if(kind == 1) *(int32_t *)m = -77; pend.push_back({v, kind, m}); return m; }
        uint32_t n = rd<uint32_t>();
        if(t == 2) { double *m = (double *)mem(8 * n); for(uint32_t i = 0; i < n; ++i) m[i] = rd<double>(); return m; }
        if(t == 3) { Id *m = (Id *)mem(4 * n); for(uint32_t i = 0; i < n; ++i) m[i] = A_id(); return m; }
        if(t == 4) { void **m = (void **)mem(8 * n); for(uint32_t i = 0; i < n; ++i) m[i] = A_h(); return m; }
        uint32_t *m = (uint32_t *)mem(4); *m = n; return m;
    }
    int32_t call(int fn, size_t end);
    void done(int32_t ec) {
        if(ec == 0) for(auto &q : pend) { if(q.kind == 2) continue; Var &v = var(q.var); v.set = true; if(q.kind == 0) v.h = *(void **)q.slot; else v.id = *(int32_t *)q.slot; }
        pend.clear(); keep.clear();
    }
    void run() {
        while(p < d.size()) {
            uint16_t fn = rd<uint16_t>(); uint32_t len = rd<uint32_t>(); size_t end = p + len;
            int32_t ec;
            bad = false;
            if(fn == 0xffff) {      // file
                std::string n = scratch + "/" + A_str(); uint32_t l = rd<uint32_t>();
                unlink(n.c_str()); FILE *f = fopen(n.c_str(), "wb"); if(f) { fwrite(d.data() + p, 1, l, f); fclose(f); } ec = 0;
            } else if(fn == 0xfffd) { ec = 0; const char *s = A_str(); FILE *f = fopen((scratch + "/" + s).c_str(), "wb"); if(f) fclose(f);
            } else if(fn == 0xfffc) { int64_t n = A_n(); rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n < 0 ? l.rlim_max : (rlim_t)n; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); ec = 0;
            } else if(fn == 0xfffb) { mkdir((scratch + "/" + A_str()).c_str(), 0700); ec = 0;
            } else ec = call(fn, end);
            done(ec);
            p = end; res.push_back(ec);
        }
    }
};
'''


def source():
    o = [PRE, 'extern "C" {']
    for n in NAMES:
        o.append('%s capy_%s(%s) __attribute__((weak));' % ('const char *' if n == 'error_message' else 'int32_t', n, ', '.join(CTY[a[0]] for a in SPEC[n])))
    o.append('}\nint32_t Run::call(int fn, size_t end) {\n switch(fn) {')
    for i, n in enumerate(NAMES):
        dec, args = [], []
        for j, (k, base, _) in enumerate(SPEC[n]):
            v = 'a%d' % j
            if k == 'f': e = 'A_f()'
            elif k in 'iulUe': e = '(%s)A_n()' % CTY[k]
            elif k == 'id': e = 'A_id()'
            elif k == 'str': e = 'A_str()'
            elif k == 'h': e = 'A_h()'
            else: e = 'A_p(%d)' % {'ph': 0, 'pid': 1}.get(k, 2)
            dec.append('auto %s = %s;' % (v, e)); args.append(v)
        if n == 'error_message': body = 'capy_error_message(a0); return 0;'
        else:
            body = 'int32_t r = capy_%s(%s);' % (n, ', '.join(args))
            body += ' return r;'
        o.append(' case %d: { %s if(bad || !&capy_%s) { pend.clear(); return -999; } %s }' % (i, ' '.join(dec), n, body))
    o.append(r''' }
 return -999;
}
struct Stat { size_t mem; int fds, maps; };
static Stat stat_now() {
    Stat s{};
    if(DIR *d = opendir("/proc/self/fd")) { while(readdir(d)) ++s.fds; closedir(d); }
    if(FILE *f = fopen("/proc/self/maps", "r")) { char b[4096]; while(fgets(b, sizeof b, f)) if(strchr(b, '/')) ++s.maps; fclose(f); }
    auto m = mallinfo2(); s.mem = m.uordblks + m.hblkhd;
    return s;
}
static std::vector<char> slurp(const char *n) { std::vector<char> v; FILE *f = fopen(n, "rb"); if(!f) exit(9); char b[65536]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0) v.insert(v.end(), b, b + k); fclose(f); return v; }
int main(int argc, char **argv) {
    if(argv[1][0] == 'l') {      // the same programs again and again: what stays allocated, mapped and open after each round
        for(int i = 3; i < argc; ++i) {
            for(int k = 0; k < 5; ++k) {
                Stat st{};
                { Run r; r.d = slurp(argv[i]); r.scratch = argv[2]; r.run(); if(k == 4) { FILE *f = fopen((std::string(argv[i]) + ".res").c_str(), "wb"); fwrite(r.res.data(), 4, r.res.size(), f); fclose(f); } }
                st = stat_now();
                fprintf(stderr, "STAT %d %d %zu %d %d\n", i - 3, k, st.mem, st.fds, st.maps);
            }
        }
        fflush(stderr);
        _exit(0);
    }
    bool threads = argv[1][0] == 't';
    std::vector<std::unique_ptr<Run>> rs;
    for(int i = 3; i < argc; ++i) { rs.emplace_back(new Run); rs.back()->d = slurp(argv[i]); rs.back()->scratch = argv[2]; }
    if(threads) {
        std::atomic<int> ready{0}; int n = rs.size();
        std::vector<std::thread> ts;
        for(auto &r : rs) ts.emplace_back([&ready, n, p = r.get()] { ++ready; while(ready.load(std::memory_order_relaxed) < n) {} p->run(); });
        for(auto &t : ts) t.join();
    } else for(auto &r : rs) r->run();
    for(int i = 3; i < argc; ++i) { FILE *f = fopen((std::string(argv[i]) + ".res").c_str(), "wb"); fwrite(rs[i - 3]->res.data(), 4, rs[i - 3]->res.size(), f); fclose(f); }
    fflush(stdout); fflush(stderr);
    _exit(0);
}
''')
    return '\n'.join(o)


def build(flavor):
    d = os.path.join(B.BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'native.cpp')
    s = source()
    if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)
    return B.build(flavor, [('native', [p], '', '-pthread')])


class Ser:
    """serializes one program"""

    def __init__(self): self.vars = {}

    def v(self, n): return self.vars.setdefault(n, len(self.vars))

    def b(self, a):
        if a is None: return b'\0'
        t = 1
        if isinstance(a, dict):
            if 'f' in a:
                x = os.fsencode(a['f'])
                if not os.path.isabs(a['f']): t = 2
            else: x = a['b'].encode('latin-1')
        else: x = a.encode('utf-8', 'surrogatepass')
        return bytes([t]) + struct.pack('<I', len(x)) + x

    def id(self, a):
        if isinstance(a, str): return b'\1' + struct.pack('<i', self.v(a))
        return b'\0' + struct.pack('<i', a)

    def op(self, op):
        n = op[0]
        if n == '#file':
            x = op[2].encode('latin-1') if isinstance(op[2], str) else op[2]
            return 0xffff, self.b(op[1]) + struct.pack('<I', len(x)) + x
        if n == '#fsize': return 0xfffc, struct.pack('<q', op[1])
        if n == '#mkdir': return 0xfffb, self.b(op[1])
        if n[0] == '#': return None
        o = b''
        for (k, base, _), a in zip(SPEC[n], op[1:]):
            if k == 'f': o += struct.pack('<d', float(a))
            elif k in 'iulUe': o += struct.pack('<q', a if a < 2 ** 63 else a - 2 ** 64)
            elif k == 'id': o += self.id(a)
            elif k == 'str': o += self.b(a)
            elif k == 'h': o += b'\0' + struct.pack('<i', 0) if a is None else b'\1' + struct.pack('<i', self.v(a))
            elif a is None: o += b'\0'
            elif isinstance(a, dict): o += b'\1' + struct.pack('<i', self.v(a['o']))
            elif k == 'pf': o += b'\2' + struct.pack('<I', len(a)) + b''.join(struct.pack('<d', float(x)) for x in a)
            elif k == 'pid':
                l = a if isinstance(a, list) else [a]
                o += b'\3' + struct.pack('<I', len(l)) + b''.join(self.id(x) for x in l)
            elif k == 'ph': o += b'\4' + struct.pack('<I', len(a)) + b''.join(b'\1' + struct.pack('<i', self.v(x)) for x in a)
            else: o += b'\5' + struct.pack('<I', a[0] & 0xffffffff)
        return IDX[n], o

    def prog(self, prog):
        out, ops = [], []
        for i, op in enumerate(prog):
            r = self.op(op)
            if r is None: continue
            out.append(struct.pack('<HI', r[0], len(r[1])) + r[1]); ops.append(i)
        return b''.join(out), ops


def env_of(prog):
    return {op[1]: op[2] for op in prog if op[0] == '#env' and op[2] is not None}


class Native:
    def __init__(self, d, tsan=False, timeout=120):
        import tempfile, shutil, atexit
        self.exe, self.tsan, self.timeout = os.path.join(d, 'native'), tsan, timeout
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix='capyn', dir=base)
        atexit.register(shutil.rmtree, self.root, True)
        self.scratch = os.path.join(self.root, 's')

    def run(self, progs, mode='t', env=None, reads=None, wrap=None, keep=False):
        """(return code, stderr, [results by op], {name: bytes})"""
        import shutil
        shutil.rmtree(self.scratch, True) if not keep else None
        os.makedirs(self.scratch, exist_ok=True)
        files, opss = [], []
        for i, p in enumerate(progs):
            data, ops = Ser().prog(p)
            f = os.path.join(self.root, 'p%d' % i)
            open(f, 'wb').write(data); files.append(f); opss.append(ops)
            try: os.unlink(f + '.res')
            except OSError: pass
        e = {k: v for k, v in os.environ.items() if k not in ('CAPY_DEBUG_PDF', 'SOURCE_DATE_EPOCH', 'CAPY_SCRAPE_PROTECT')}
        e.update(LC_ALL='C.UTF-8', TZ='XYZ-5:30')
        if self.tsan: e['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1'
        e.update(env or {})

        def limits():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            r = subprocess.run([self.exe, mode, self.scratch] + files, env=e, capture_output=True, timeout=self.timeout, preexec_fn=limits)
            rc, err = r.returncode, r.stderr.decode('latin-1')
        except subprocess.TimeoutExpired as x:
            rc, err = 'timeout', (x.stderr or b'').decode('latin-1')
        res = []
        for f, ops, p in zip(files, opss, progs):
            try: b = open(f + '.res', 'rb').read()
            except OSError: b = b''
            v = struct.unpack('<%di' % (len(b) // 4), b[:len(b) // 4 * 4])
            d = [None] * len(p)
            for k, i in enumerate(ops):
                if k < len(v): d[i] = v[k] if v[k] != -999 else None
            res.append(d)
        out = {}
        for n in os.listdir(self.scratch):
            q = os.path.join(self.scratch, n)
            if os.path.isfile(q): out[n] = open(q, 'rb').read()
        return rc, err, res, out
