"""Parts that drive whole documents through the library and compare the file with the model."""
import build, execu, case, gen, runner


class DocPart(runner.Part):
    """kw(rng) -> generator weights; nontrivial(stats) -> bool"""

    def __init__(self, name, kw, nontrivial, rule, quick=4000, thorough=60000, flavor='plain', fonts=True, weight=1.0, gencls=None, comparer=None):
        self.name, self.kw, self.nontriv, self.quick, self.thorough, self.flavor, self.fonts, self.weight = name, kw, nontrivial, quick, thorough, flavor, fonts, weight
        self.rule, self.comparer = rule, comparer
        self.gencls = gencls or gen.G

    def prepare(self): self.dir = build.build(self.flavor)

    def open(self): self.ex = execu.Exec(self.dir, asan=self.flavor == 'asan')

    def close(self): self.ex.stop()

    def gen(self, rng, i):
        kw = self.kw(rng)
        sub = rng.getrandbits(64)
        import random
        return self.gencls(random.Random(sub), **kw).document()

    def run(self, prog):
        iss, st, m = case.run(self.ex, prog, fonts=self.fonts, comparer=self.comparer)
        f = dict(st)
        if m is not None:
            for k, v in m.cls.items(): f['m.' + k] = v
            f['calls'], f['calls_rejected'] = m.nops, m.nbad
        f = {k: v for k, v in f.items() if v}
        return runner.Out(iss, bool(m is not None and self.nontriv(f)), f)

    def shrink(self, prog, fails): return runner.shrink_prog(prog, fails)

    def sample(self, prog):
        def s(op): return '%s(%s)' % (op[0], ', '.join((repr(a) if len(repr(a)) < 60 else repr(a)[:57] + '...') for a in op[1:]))
        l = [s(op) for op in prog]
        return l if len(l) <= 60 else l[:40] + ['... %d more ...' % (len(l) - 55)] + l[-15:]
