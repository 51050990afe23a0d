"""C27: what is destroyed gives everything back.  One history of calls that destroys all it made is executed five times in one process:
the memory in use, the open files and the mappings after each round must stop growing."""
import random, re
import native, runner, docs, fuzz, model as M
from docpart import DocPart

DESTROY = {s[0][1]: n for n, s in M.SPEC.items() if n.endswith('_destroy')}
STAT = re.compile(r'STAT 0 (\d+) (\d+) (\d+) (\d+)')


def close(prog):
    """destroys every handle that is still alive: the latest first, documents last"""
    live = {}
    for op in prog:
        if op[0][0] == '#': continue
        if op[0].endswith('_destroy'): live.pop(op[1], None); continue
        for s, a in zip(M.SPEC[op[0]], op[1:]):
            if s[0] == 'ph' and isinstance(a, dict) and 'o' in a: live[a['o']] = DESTROY[s[1]]
    l = list(reversed(live.items()))
    return prog + [[f, v] for v, f in l if f != 'generator_destroy'] + [[f, v] for v, f in l if f == 'generator_destroy']


class Leak(DocPart):
    def prepare(self): self.dir = native.build('plain')
    def open(self): self.n = native.Native(self.dir)
    def close(self): pass

    def gen(self, r, i):
        p = super().gen(r, i)
        k = r.random()
        w = [j for j, op in enumerate(p) if op[0] == 'generator_write']
        if k < .15: p = p[:r.randrange(len(p) + 1)]       # given up half way
        elif k < .3 and w: p[w[0]:w[0] + 1] = [['#fsize', r.choice([0, 10, 500, 4096, 5000, 20000])], p[w[0]], ['#fsize', -1]]
        elif k < .4:
            for op in p:
                if op[0] == 'generator_new' and isinstance(op[1], dict) and 'f' in op[1]:
                    if r.random() < .5: op[1] = {'f': 'nodir/x.pdf'}
                    else: op[1] = {'f': 'adir'}; p = [['#mkdir', 'adir']] + p; break
        return p

    def run(self, prog):
        p = close(prog)
        env = dict(native.env_of(p), GLIBC_TUNABLES='glibc.malloc.tcache_count=0')
        rc, err, res, out = self.n.run([p], 'l', env)
        res = res[0] if res else []
        st = [tuple(int(x) for x in m) for m in STAT.findall(err)]
        if rc != 0 or len(st) != 5: return runner.Out([(('*',), 'died', 'the process ended with %s: %s' % (rc, err[-200:]), 0)], True, {})
        iss = []
        for j, what, code in ((1, 'bytes of memory in use', 'memory'), (2, 'open file descriptors', 'files'), (3, 'file mappings', 'maps')):
            v = [s[j] for s in st]
            if v[2] < v[3] < v[4]: iss.append((('C27',), code, 'the same calls again and again, everything destroyed: %s after each round: %s' % (what, v), 0))
        ok = sum(1 for x in res if x == 0)
        f = {'calls': len(p), 'calls_ok': ok, 'refused': sum(1 for x in res if x not in (0, None)), 'destroyed': len([1 for o, x in zip(p, res) if o[0].endswith('_destroy') and x == 0]),
             'written': len([1 for o, x in zip(p, res) if o[0] == 'generator_write' and x == 0]), 'write_failed': len([1 for o, x in zip(p, res) if o[0] == 'generator_write' and x not in (0, None)])}
        return runner.Out(iss, f['destroyed'] >= 4, {k: v for k, v in f.items() if v})

    def shrink(self, prog, fails): return runner.shrink_prog(prog, fails, args=False)


class Damaged(Leak):
    """the same with damaged files"""
    def gen(self, r, i):
        k = r.choice(['font', 'image', 'icc'])
        return fuzz.MutDoc(k, 0, 0).gen(r, i)


NAMES = [c for c in docs.DEFS if c not in ('C01',)]


def any_kw(r):
    d = dict(docs.DEFS[r.choice(NAMES)][0](r))
    d['perr'] = r.choice([0, .05, .2])
    d['p_bigembed'] = .001; d['p_hugeimg'] = 0
    return d


def parts():
    rule = 'executed five times in one process, everything destroyed each time; memory in use, open files and mappings must not grow in each of the last rounds; non-trivial: at least 4 objects destroyed'
    return [Leak('histories', any_kw, None, 'a random history (with failing calls, given up half way, or with a write that fails) ' + rule, 9000, 100000),
            Damaged('damaged', any_kw, None, 'damaged fonts, images and profiles are loaded and used; ' + rule, 5000, 60000, weight=.5)]
