"""Metamorphic checks on whole documents: C15 (failed calls leave no trace), C24 (independence), C25 (reproducibility)."""
import re, random, os, copy, time
import build, execu, case, gen, runner, pdf, model as M
from docpart import DocPart
import docs

IDRE = re.compile(rb'/ID *\[[^\]]*\]', re.S)
SDE = ['#env', 'SOURCE_DATE_EPOCH', '1700000000']


def noid(data):
    return None if data is None else IDRE.sub(b'/ID[]', data)


def reads(prog, res):
    return [(prog[i][1], res[i][1]) for i in range(len(prog)) if prog[i][0] == '#read' and res[i][0] is not None]


DATE = re.compile(rb'^D:\d{14}(Z|[+-]\d\d\'?\d\d\'?)?$')
XDATE = re.compile(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\+\d\d:\d\d|Z)?')


def canon(data, mask=False):
    """{object number: comparable} of the decoded objects; without Length, Filter, DecodeParms, xref and object streams"""
    p = pdf.Pdf(data)
    out = {}

    def c(o):
        if isinstance(o, pdf.Stream): return ('stream', c({k: v for k, v in o.d.items() if k not in ('Length', 'Filter', 'DecodeParms')}))
        if isinstance(o, dict): return ('d', tuple(sorted((k, c(v)) for k, v in o.items())))
        if isinstance(o, list): return ('a', tuple(c(x) for x in o))
        if mask and isinstance(o, bytes) and DATE.match(o): return 'DATE'
        return repr(o)
    for n, o in p.objs.items():
        if isinstance(o, pdf.Stream) and o.d.get('Type') in ('XRef', 'ObjStm'): continue
        v = c(o)
        if isinstance(o, pdf.Stream):
            d = p.data(o)
            if mask and o.d.get('Type') == 'Metadata': d = XDATE.sub(b'DATE', d)
            v = (v, d)
        out[n] = v
    tr = {k: v for k, v in p.trailer.items() if k in ('Root', 'Info')}
    return out, c(tr), p


def cmpcanon(a, b, mask=False, relaxed=()):
    """differences between two files as text, or None"""
    ca, ta, pa = canon(a, mask)
    cb, tb, pb = canon(b, mask)
    if ta != tb: return 'trailers differ: %s / %s' % (ta, tb)
    if pa.version != pb.version: return 'versions differ'
    for n in sorted(set(ca) | set(cb)):
        if n not in ca or n not in cb: return 'object %d is only in one file' % n
        if ca[n] != cb[n]:
            x, y = ca[n], cb[n]
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and isinstance(x[1], bytes) and isinstance(y[1], bytes) and x[1] != y[1]:
                k = next((i for i in range(min(len(x[1]), len(y[1]))) if x[1][i] != y[1][i]), min(len(x[1]), len(y[1])))
                return 'stream %d differs at byte %d: %r / %r (dictionary %s)' % (n, k, x[1][max(0, k - 40):k + 40], y[1][max(0, k - 40):k + 40], str(x[0])[:200])
            return 'object %d differs: %s / %s' % (n, str(x)[:400], str(y)[:400])
    return None


class Twice(DocPart):
    """base of the checks that run variants of one history"""

    def open(self):
        self.ex = execu.Exec(self.dir)
        self.ex2 = execu.Exec(self.dir, extra_env={'MALLOC_PERTURB_': '165', 'MALLOC_ARENA_MAX': '1', 'CAPYV_PADDING': 'x' * 3000})

    def close(self): self.ex.stop(); self.ex2.stop()


def dates(data):
    """the dates that the library puts in: those of the info dictionary and of the pages"""
    p = pdf.Pdf(data)
    i = p.get(p.trailer.get('Info')) if 'Info' in p.trailer else {}
    out = [(k, i[k].decode('latin-1')) for k in ('CreationDate', 'ModDate') if k in i]
    for o in p.objs.values():
        if isinstance(o, dict) and o.get('Type') == 'Page' and 'LastModified' in o: out.append(('LastModified', o['LastModified'].decode('latin-1')))
    return out


class Repeat(Twice):
    def gen(self, rng, i):
        prog = super().gen(rng, i)
        return {'prog': prog, 'sde': rng.choice(['1700000000', '1700000000', '0', '1', '951782400', '4102444800', None]), 'twice': rng.choice(['', '', '86400', '1700000000', None])}

    def run(self, c):
        pre = [['#env', 'SOURCE_DATE_EPOCH', c['sde']]]
        prog = pre + c['prog']
        try:
            if c['twice'] != '': self.ex.run([['#env', 'SOURCE_DATE_EPOCH', c['twice']]] + c['prog'])        # the process has a history
            A = self.ex.run(prog); B = self.ex2.run(prog)
        except execu.Crash as e:
            return runner.Out([(('C25',), 'crash', 'died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        iss = []
        if [r[0] for r in A] != [r[0] for r in B]:
            k = next(i for i in range(len(A)) if A[i][0] != B[i][0])
            iss.append((('C25',), 'results', 'the same history returned different results: %s' % M.opstr(prog[k]), k))
        n = 0
        for (fa, a), (fb, b) in zip(reads(prog, A), reads(prog, B)):
            if (a is None) != (b is None): iss.append((('C25',), 'presence', 'file written only once', 0)); continue
            if a is None: continue
            n += 1
            if len(IDRE.findall(a)) != 1: iss.append((('C25',), 'id', 'not exactly one file identifier', 0)); continue
            if c['sde'] is None:
                d = cmpcanon(a, b, True)
                if d: iss.append((('C25',), 'repeat-nodate', d, 0))
                continue
            when = 'D:' + time.strftime('%Y%m%d%H%M%SZ', time.gmtime(int(c['sde'])))
            for what, d in dates(a):
                if d != when: iss.append((('C25',), 'date', '%s is %r, SOURCE_DATE_EPOCH asks for %r' % (what, d, when), 0)); break
            if noid(a) != noid(b):
                x, y = noid(a), noid(b)
                k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                d = None
                try: d = cmpcanon(a, b)
                except Exception as e: d = str(e)
                iss.append((('C25',), 'repeat', 'files differ at byte %d: %s' % (k, d or 'only in the encoding'), 0))
        return runner.Out(iss, n > 0, {'written': n, 'with_history': int(c['twice'] != ''), 'nodate': int(c['sde'] is None), 'ops': len(prog), 'seq:%s' % c['sde']: 1})

    def shrink(self, c, fails):
        def f(p): return fails(dict(c, prog=p))
        return dict(c, prog=runner.shrink_prog(c['prog'], f, args=False))

    def sample(self, c): return super().sample(c['prog'])


class Debug(Twice):
    """CAPY_DEBUG_PDF changes only the encoding of streams; the date stays"""

    def gen(self, rng, i):
        prog = [o for o in super().gen(rng, i) if o[:2] != ['#env', 'CAPY_DEBUG_PDF']]
        return {'prog': prog, 'val': rng.choice(['1', '0', '', 'yes'])}

    def run(self, c):
        p1 = [SDE] + c['prog']
        p2 = [SDE, ['#env', 'CAPY_DEBUG_PDF', c['val']]] + c['prog']
        try: A = self.ex.run(p1); B = self.ex2.run(p2)
        except execu.Crash as e:
            return runner.Out([(('C25',), 'crash', 'died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        iss = []
        if [r[0] for r in A[1:]] != [r[0] for r in B[2:]]: iss.append((('C25',), 'debug-results', 'results differ with CAPY_DEBUG_PDF', 0))
        n = unc = 0
        for (fa, a), (fb, b) in zip(reads(p1, A), reads(p2, B)):
            if (a is None) != (b is None): iss.append((('C25',), 'debug-presence', 'file written in one mode only', 0)); continue
            if a is None: continue
            n += 1
            try: d = cmpcanon(a, b)
            except Exception as e: d = 'unparsable: %r' % e
            if d: iss.append((('C25',), 'debug', 'debug mode changes the document: ' + d, 0))
            if len(b) != len(a): unc += 1
        return runner.Out(iss, n > 0, {'written': n, 'encoding_differs': unc})

    shrink = Repeat.shrink
    sample = Repeat.sample


def C25(r):
    d = docs.C15(r); d['perr'] = r.choice([0, 0, .05]); d['subtype'] = r.choice([None, .5]); d['debug'] = .3
    if d['subtype'] is None: del d['subtype']
    return d


# ------------------------------------------------------------------ C15
class Without(Twice):
    """the history without its failed calls writes the same file"""

    def run(self, prog):
        prog = [SDE] + prog
        try:
            A = self.ex.run(prog)
        except execu.Crash as e:
            return runner.Out([(('C15',), 'crash:%s' % (prog[e.pos][0] if e.pos is not None and 0 <= e.pos < len(prog) else '?'),
                                'died: %s in %s %s' % (e.what, M.opstr(prog[e.pos]) if e.pos is not None and 0 <= e.pos < len(prog) else '?', case.crashkey(e.err)), e.pos)], True, {})
        # text that fails half way may leave unused glyphs in the font subset; those calls stay in (the docs part judges them against the model)
        good = [i for i in range(len(prog)) if A[i][0] == 0 or prog[i][0][0] == '#' or (A[i][0] and prog[i][0] in ('dc_render_text', 'dc_render_text_obj'))]
        nbad = sum(1 for i, r in enumerate(A) if r[0] not in (0, None) and i not in set(good))
        feats = {'failed_calls': nbad}
        for i, r in enumerate(A):
            if r[0] not in (0, None): feats['err%d' % r[0]] = feats.get('err%d' % r[0], 0) + 1
        if not nbad: return runner.Out([], False, feats)
        q = [prog[i] for i in good]
        try: B = self.ex2.run(q)
        except execu.Crash as e:
            return runner.Out([(('C15',), 'crash2', 'died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        iss = []
        for k, i in enumerate(good):
            if A[i][0] != B[k][0]:
                iss.append((('C15',), 'outcome:' + prog[i][0], 'without the failed calls %s returns %s instead of %s' % (M.opstr(prog[i]), B[k][0], A[i][0]), i)); break
        n = 0
        for (fa, a), (fb, b) in zip(reads(prog, A), reads(q, B)):
            if (a is None) != (b is None):
                if not iss: iss.append((('C15',), 'presence', 'file is only written with(out) the failed calls', 0))
                continue
            if a is None: continue
            n += 1
            if noid(a) != noid(b) and not iss:
                try: d = cmpcanon(a, b)
                except Exception as e: d = 'unparsable: %r' % e
                iss.append((('C15',), 'trace', 'failed calls leave a trace in the file: %s' % (d or 'only encoding'), 0))
        feats['written'] = n
        return runner.Out(iss, n > 0, feats)


# ------------------------------------------------------------------ C24
def renamed(prog, pre):
    """variables and scratch files of a program get a prefix"""
    out = []
    for op in prog:
        n = op[0]
        if n == '#file': out.append([n, pre + op[1], op[2]]); continue
        if n == '#read': out.append([n, pre + op[1]]); continue
        if n[0] == '#': out.append(op); continue
        q = [n]
        for (k, base, _), a in zip(M.SPEC[n], op[1:]):
            if isinstance(a, dict):
                a = dict(a)
                if 'o' in a: a['o'] = pre + a['o']
                elif 'f' in a and not a['f'].startswith('/'): a['f'] = pre + a['f']
            elif k in ('h', 'id', 'ph', 'pid'):
                if isinstance(a, str): a = pre + a
                elif isinstance(a, list): a = [pre + x if isinstance(x, str) else x for x in a]
            q.append(a)
        out.append(q)
    return out


def noenv(prog): return [o for o in prog if o[0] not in ('#env', '#locale')]


def C24(r):
    d = docs.C15(r); d['perr'] = r.choice([0, 0, .05]); d['sizes'] = [5, 10, 20, 40]; d['p_locale'] = 0
    return d


class Inter(Twice):
    """several documents, calls interleaved in one process, against each alone in a fresh process state"""

    def gen(self, rng, i):
        k = rng.choice([2, 2, 3])
        ps = [renamed(noenv(DocPart.gen(self, rng, i)), 'abc'[j] + '_') for j in range(k)]
        if rng.random() < .25: ps[1] = renamed([o[:1] + [x for x in o[1:]] for o in noenv(unprefixed(ps[0], 'a_'))], 'b_')     # twins
        idx = [0] * k; order = []
        mode = rng.choice(['fine', 'fine', 'runs', 'nested'])
        left = [len(p) for p in ps]
        if mode == 'nested':   # one complete document in the middle of another
            cut = rng.randrange(left[0])
            order = [0] * cut + [j for j in range(1, k) for _ in range(left[j])] + [0] * (left[0] - cut)
        else:
            while any(left):
                j = rng.choice([x for x in range(k) if left[x]])
                n = 1 if mode == 'fine' else rng.randint(1, 12)
                n = min(n, left[j]); left[j] -= n; order += [j] * n
        return {'progs': ps, 'order': order, 'mode': mode}

    def run(self, c):
        ps, idx = c['progs'], [0] * len(c['progs'])
        mixed, back = [SDE], []
        for j in c['order']:
            if idx[j] < len(ps[j]): mixed.append(ps[j][idx[j]]); back.append((j, idx[j])); idx[j] += 1
        try:
            R = self.ex.run(mixed)
            solo = [self.ex2.run([SDE] + p) for p in ps]
        except execu.Crash as e:
            return runner.Out([(('C24',), 'crash', 'died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        iss = []; n = 0
        for q, (j, k) in enumerate(back):
            a, b = R[1 + q], solo[j][1 + k]
            op = ps[j][k]
            if op[0] == '#read':
                if (a[1] is None) != (b[1] is None): iss.append((('C24',), 'presence', 'document %d written only in one setting' % j, 0))
                elif a[1] is not None:
                    n += 1
                    if noid(a[1]) != noid(b[1]):
                        try: d = cmpcanon(a[1], b[1])
                        except Exception as e: d = 'unparsable: %r' % e
                        iss.append((('C24',), 'interleaved', 'document %d differs from the one made alone: %s' % (j, d or 'only encoding'), 0))
            elif a != b:
                iss.append((('C24',), 'result:' + op[0], '%s returns %r instead of %r' % (M.opstr(op), a, b), 0)); break
        return runner.Out(iss, n >= 2, {'docs': len(ps), 'written': n, 'mode:' + c['mode']: 1})

    def shrink(self, c, fails):
        c = dict(c)
        for j in range(len(c['progs'])):
            def f(p, j=j):
                d = dict(c); d['progs'] = list(c['progs']); d['progs'][j] = p; return fails(d)
            ps = list(c['progs']); ps[j] = runner.ddmin(list(ps[j]), f); c['progs'] = ps
        return c

    def sample(self, c): return {'mode': c['mode'], 'order': ''.join(map(str, c['order']))[:200], 'progs': [DocPart.sample(self, p)[:25] for p in c['progs']]}


def unprefixed(prog, pre):
    """inverse of renamed"""
    out = []
    n = len(pre)
    for op in prog:
        f = op[0]
        if f in ('#file', '#read'): out.append([f, op[1][n:]] + list(op[2:])); continue
        q = [f]
        for (k, base, _), a in zip(M.SPEC[f], op[1:]):
            if isinstance(a, dict):
                a = dict(a)
                if 'o' in a: a['o'] = a['o'][n:]
                elif 'f' in a and not a['f'].startswith('/'): a['f'] = a['f'][n:]
            elif k in ('h', 'id', 'ph', 'pid'):
                if isinstance(a, str): a = a[n:]
                elif isinstance(a, list): a = [x[n:] if isinstance(x, str) else x for x in a]
            q.append(a)
        out.append(q)
    return out


SHARED = ('BDC', 'text', 'annotate', 'navigation', 'Tj')


class Mutate(Twice):
    """after its last use every builder is modified, destroyed and its memory reused"""

    def gen(self, rng, i):
        prog = noenv(super().gen(rng, i))
        base = {}; last = {}; setters = {}
        for k, op in enumerate(prog):
            if op[0][0] == '#': continue
            for p, ((kd, b, _), a) in enumerate(zip(M.SPEC[op[0]], op[1:])):
                if kd == 'ph' and isinstance(a, dict): base[a['o']] = b; last[a['o']] = (k, 'new')
                elif kd == 'h' and isinstance(a, str):
                    if not op[0].endswith('_destroy'): last[a] = (k, 'used' if p else 'first')
                elif kd == 'ph' and isinstance(a, list):
                    for x in a: last[x] = (k, 'used')
            s = M.SPEC[op[0]]
            if s and s[0][0] == 'h' and not op[0].endswith('_destroy') and not any(x[0] in ('h', 'ph') for x in s[1:]) and s[0][1] not in ('Generator',):
                if s[0][1] == 'DrawContext' and any(t in op[0] for t in SHARED): continue
                if s[0][1] == 'RasterImageBuilder' and op[0].endswith('_build'): continue
                setters.setdefault(s[0][1], []).append(op)
        import worker
        ins = {}; dead = set(); n = 0
        for v, (k, how) in last.items():
            b = base.get(v)
            if how != 'used' or b in (None, 'Generator', 'RasterImage') or k >= len(prog) - 3: continue
            if rng.random() < .15: continue
            l = []
            for _ in range(rng.randint(0, 4)):
                c = setters.get(b)
                if c: l.append(perturb(rng, rng.choice(c), v))
            if rng.random() < .6:
                l.append([worker.DESTROY[b], v]); dead.add(v)
                c = [o for o in prog if o[0][0] != '#' and M.SPEC[o[0]] and len(M.SPEC[o[0]]) == 1 and M.SPEC[o[0]][0][:2] == ['ph', b]]
                for _ in range(rng.randint(0, 3)):
                    if not c: break
                    n += 1; w = 'zz%d' % n
                    l.append([c[0][0], {'o': w}])
                    for _ in range(rng.randint(0, 3)):
                        if setters.get(b): l.append(perturb(rng, rng.choice(setters[b]), w))
            at = k if rng.random() < .6 else rng.randint(k, len(prog) - 4)
            if l: ins.setdefault(at, []).extend(l)
        return {'prog': prog, 'ins': {str(k): v for k, v in ins.items()}, 'dead': sorted(dead)}

    def run(self, c):
        prog = [SDE] + c['prog']
        mut = [SDE]; pos = [0]
        dead = set(c['dead'])
        gone = set()
        for k, op in enumerate(c['prog']):
            if op[0].endswith('_destroy') and op[1] in gone: mut.append(None); pos.append(None); mut.pop(); pos.pop()
            else: mut.append(op); pos.append(k + 1)
            for o in c['ins'].get(str(k), []):
                mut.append(o); pos.append(None)
                if o[0].endswith('_destroy'): gone.add(o[1])
        try: A = self.ex.run(prog); B = self.ex2.run(mut)
        except execu.Crash as e:
            return runner.Out([(('C24',), 'crash', 'died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        iss = []; n = 0
        for j, k in enumerate(pos):
            if k is None: continue
            a, b = A[k], B[j]; op = prog[k]
            if op[0] == '#read':
                if (a[1] is None) != (b[1] is None): iss.append((('C24',), 'mutated-presence', 'written only in one setting', 0))
                elif a[1] is not None:
                    n += 1
                    if noid(a[1]) != noid(b[1]):
                        try: d = cmpcanon(a[1], b[1])
                        except Exception as e: d = 'unparsable: %r' % e
                        iss.append((('C24',), 'mutated', 'changing or destroying builders after their use changes the file: %s' % (d or 'only encoding'), 0))
            elif a != b and not op[0].endswith('_destroy'):
                iss.append((('C24',), 'mutated-result:' + op[0], '%s returns %r instead of %r after builders were changed' % (M.opstr(op), b, a), 0)); break
        ni = sum(len(v) for v in c['ins'].values())
        ok = sum(1 for j, k in enumerate(pos) if k is None and B[j][0] == 0)
        return runner.Out(iss, n > 0 and ni > 2, {'written': n, 'inserted': ni, 'inserted_ok': ok, 'destroyed_early': len(dead)})

    def shrink(self, c, fails):
        keys = runner.ddmin(list(c['ins']), lambda ks: fails(dict(c, ins={k: c['ins'][k] for k in ks})))
        c = dict(c, ins={k: c['ins'][k] for k in keys})
        for k in keys:
            l = runner.ddmin(list(c['ins'][k]), lambda l: fails(dict(c, ins=dict(c['ins'], **{k: l}))))
            c = dict(c, ins=dict(c['ins'], **{k: l}))
        return c

    def sample(self, c): return {'prog': DocPart.sample(self, c['prog'])[:25], 'inserted': {k: DocPart.sample(self, v) for k, v in list(c['ins'].items())[:5]}}


def perturb(rng, op, v):
    q = [op[0], v]
    for (k, base, _), a in zip(M.SPEC[op[0]][1:], op[2:]):
        if k == 'f' and rng.random() < .7: a = round(float(a) * rng.choice([.5, 2, -1]) + rng.uniform(-3, 3), 3)
        elif k in ('i', 'e', 'u') and isinstance(a, int) and rng.random() < .4 and base != 'strsize': a = a if k == 'i' else max(0, a + rng.choice([-1, 1]))
        elif isinstance(a, dict) and 'o' in a: a = {'o': 'zo%d' % rng.randrange(10 ** 9)}
        q.append(a)
    return q


class Threads(DocPart):
    """documents built at the same time in different threads, under ThreadSanitizer, against each alone"""

    def prepare(self):
        import native
        self.dir = build.build('plain'); self.tdir = native.build('tsan'); self.pdir = native.build('plain')

    def open(self):
        import native
        self.ex = execu.Exec(self.dir); self.nt = native.Native(self.tdir, True); self.np = native.Native(self.pdir)

    def close(self): self.ex.stop()

    def gen(self, rng, i):
        k = rng.choice([2, 3, 4])
        ps = [renamed(noenv(DocPart.gen(self, rng, i)), 'abcd'[j] + '_') for j in range(k)]
        for j in range(1, k):
            if rng.random() < .4: ps[j] = renamed(unprefixed(ps[0], 'a_'), 'abcd'[j] + '_')
        return {'progs': ps, 'tsan': rng.random() < .6}

    def run(self, c):
        ps = c['progs']
        try: solo = [self.ex.run([SDE] + p)[1:] for p in ps]
        except execu.Crash as e:
            return runner.Out([(('C24',), 'crash', 'died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        rc, err, res, files = (self.nt if c['tsan'] else self.np).run(ps, 't', {'SOURCE_DATE_EPOCH': '1700000000'})
        iss = []; n = 0
        if 'WARNING: ThreadSanitizer' in err:
            import re as R
            w = R.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', err)[1].strip()
            loc = [x for x in R.findall(r'#\d+ (.*?) (/\S+?):(\d+)', err) if '/src/' in x[1]][:4]
            iss.append((('C24',), 'race', 'ThreadSanitizer: %s at %s' % (w, ' < '.join('%s %s:%s' % (a.split('(')[0], os.path.basename(b), l) for a, b, l in loc)), 0))
        elif rc != 0:
            iss.append((('C24',), 'threads-died', 'process with threads ended with %s: %s' % (rc, err[-300:]), 0))
            return runner.Out(iss, True, {})
        for j, p in enumerate(ps):
            for k, op in enumerate(p):
                if op[0] == '#read':
                    b = solo[j][k][1]; a = files.get(op[1])
                    if (a is None) != (b is None): iss.append((('C24',), 'threads-presence', 'document written only in one setting', 0))
                    elif a is not None:
                        n += 1
                        if noid(a) != noid(b):
                            try: d = cmpcanon(a, b)
                            except Exception as e: d = 'unparsable: %r' % e
                            iss.append((('C24',), 'threads', 'a document made beside others in another thread differs: %s' % (d or 'only encoding'), 0))
                elif op[0][0] != '#' and op[0] != 'error_message' and res[j][k] != solo[j][k][0] and solo[j][k][0] is not None:
                    iss.append((('C24',), 'threads-result:' + op[0], '%s returns %r instead of %r' % (M.opstr(op), res[j][k], solo[j][k][0]), 0)); break
        return runner.Out(iss, n >= 2, {'docs': len(ps), 'written': n, 'tsan': int(c['tsan'])})

    shrink = Inter.shrink
    def sample(self, c): return {'tsan': c['tsan'], 'progs': [DocPart.sample(self, p)[:25] for p in c['progs']]}


COMMITS = {'generator_add_page', 'generator_add_transparency_group', 'generator_add_tiling_pattern', 'generator_add_form_xobject'}
CREATE = {'page_draw_context_new', 'form_xobject_new', 'transparency_group_new', 'tiling_pattern_context_new'}


class Fresh(Twice):
    """a context used again after its content was committed writes what a new context writes"""

    def run(self, prog):
        prog = [SDE] + prog
        try: A = self.ex.run(prog)
        except execu.Crash as e:
            return runner.Out([(('C24',), 'crash', 'died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        made, cur, mut, pos, n, fresh, users = {}, {}, [], [], 0, 0, {}
        for k, op in enumerate(prog):
            q = op
            if op[0][0] != '#':
                q = [op[0]] + [cur.get(a, a) if s[0] == 'h' and isinstance(a, str) else a for s, a in zip(M.SPEC[op[0]], op[1:])]
                if A[k][0] is not None and q is not None:
                    for s, a in zip(M.SPEC[op[0]], q[1:]):
                        if s[0] == 'h' and isinstance(a, str) and '~' in a: users[a] = users.get(a, 0) + 1
                if op[0] in CREATE:
                    v = next(a['o'] for a in op[1:] if isinstance(a, dict))
                    made[v] = op; cur.pop(v, None)
            mut.append(q); pos.append(k)
            if op[0] in COMMITS and A[k][0] == 0:
                v = op[2]
                c = made.get(v)
                if c is not None:
                    n += 1; w = '%s~%d' % (v, n); cur[v] = w
                    mut.append([c[0]] + [{'o': w} if isinstance(a, dict) else a for a in c[1:]]); pos.append(None)
        # contexts nobody uses again are not created
        used = set(users)
        keep = [j for j in range(len(mut)) if pos[j] is not None or next(a['o'] for a in mut[j][1:] if isinstance(a, dict)) in used]
        mut = [mut[j] for j in keep]; pos = [pos[j] for j in keep]
        fresh = sum(1 for k in pos if k is None)
        if not fresh: return runner.Out([], False, {'unreused': 1})
        try: B = self.ex2.run(mut)
        except execu.Crash as e:
            return runner.Out([(('C24',), 'crash', 'died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        iss, w = [], 0
        for j, k in enumerate(pos):
            if k is None: continue
            a, b, op = A[k], B[j], prog[k]
            if op[0] == '#read':
                if (a[1] is None) != (b[1] is None): iss.append((('C24',), 'reuse-presence', 'written only in one setting', 0))
                elif a[1] is not None:
                    w += 1
                    if noid(a[1]) != noid(b[1]):
                        try: d = cmpcanon(a[1], b[1])
                        except Exception as e: d = 'unparsable: %r' % e
                        iss.append((('C24',), 'reuse', 'a context used again after a commit writes something else than a new one: %s' % (d or 'only encoding'), 0))
            elif a != b and not op[0].endswith('_destroy'):
                iss.append((('C24',), 'reuse-result:' + op[0], '%s returns %r with the reused context and %r with a new one' % (M.opstr(op), a, b), 0)); break
        return runner.Out(iss, w > 0, {'written': w, 'reused': fresh})

    def shrink(self, prog, fails): return runner.shrink_prog(prog, fails, args=False)


def C24R(r):
    d = docs.C02(r); d['perr'] = r.choice([0, 0, .05]); d['p_trans'] = .5; d['p_nav'] = .4; d['p_annot'] = .3; d['p_locale'] = 0
    d['steps'] = docs.steps(draw=16, newpage=4, commit=12, ocg=1, form=1.5, struct=1)
    return d
