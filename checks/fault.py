"""C23: writing under injected faults, and destinations of all kinds."""
import os, subprocess, random
import build, execu, case, gen, runner, pdf, model as M
from docpart import DocPart
import docs

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def C23(r):
    d = docs.C01(r); d.update(debug=0, npages=r.choice([1, 2, 5]), sizes=[1, 2, 5, 15, 40], perr=r.choice([0, 0, .1]), p_hugeimg=0); return d


def shim():
    d = build.build('plain')
    so, src = os.path.join(d, 'faultshim.so'), os.path.join(V, 'fuzz/faultshim.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        subprocess.run(['gcc', '-O1', '-g', '-shared', '-fPIC', '-o', so + '.new', src], check=True)
        os.replace(so + '.new', so)
    return d, so


def blob(rng, n): return rng.randbytes(n).decode('latin-1')


class Faults(DocPart):
    def prepare(self): self.dir, self.so = shim()

    def open(self): self.ex = execu.Exec(self.dir, worker='faultworker.py', extra_env={'CAPYV_SHIM': self.so}, timeout=120)

    def gen(self, rng, i):
        return {'prog': super().gen(rng, i), 'blobs': [rng.choice([1, 5000, 70000, 300000]) for _ in range(rng.choice([0, 0, 1, 1, 3]))],
                'old': rng.choice(['none', 'none', 'short', 'pdf', 'long', 'empty']), 'stale': rng.choice(['none'] * 5 + ['short', 'long']), 'seed': rng.getrandbits(32),
                'limit': rng.choice([30, 60, 60, 150])}

    def program(self, c):
        out, where = [['#env', 'SOURCE_DATE_EPOCH', '1700000000']], []
        rng = random.Random(c['seed'])
        names, seen = {}, set()
        for op in c['prog']:
            if op[0] == 'generator_write' and op[1] in names and op[1] not in seen and list(names.values()).count(names[op[1]]) == 1:
                seen.add(op[1])
                where.append(len(out))
                out.append(['#faults', op[1], names[op[1]], c['old'], c['stale'], c['seed'], c['limit'], sum(c['blobs'])])
            out.append(op)
            if op[0] == 'generator_new' and isinstance(op[-1], dict):
                names[op[-1]['o']] = op[1]['f']
                for k, n in enumerate(c['blobs']):
                    v = 'blob%s%d' % (op[-1]['o'], k)
                    out += [['embedded_file_new', {'o': v}], ['embedded_file_set_contents', v, {'b': blob(rng, n)}, n], ['embedded_file_set_pdf_name', v, 'blob %d' % k, -1],
                            ['generator_embed_file', op[-1]['o'], v, {'o': v + 'i'}]]
        return out, where

    def run(self, c):
        prog, where = self.program(c)
        try: res = self.ex.run(prog)
        except execu.Crash as e:
            return runner.Out([(('C23',), 'crash', 'died: %s %s' % (e.what, e.err[-800:]), e.pos)], True, {})
        iss, f = [], {}
        nt = False
        for w in where:
            r = res[w][1]
            if r is None: continue
            for x in r['early']: iss.append((('C23',), 'early', 'the file %s exists before the document was asked to be written' % x, w))
            for code, msg in r['issues']: iss.append((('C23',), code, msg, w))
            for k in ('runs', 'faults', 'killed', 'failed'): f[k] = f.get(k, 0) + r[k]
            for k, v in r['kinds'].items(): f['k.' + k] = f.get('k.' + k, 0) + v
            f['calls'] = f.get('calls', 0) + r.get('calls', 0)
            f['docs'] = f.get('docs', 0) + 1
            if r.get('rc'): f['refused_docs'] = f.get('refused_docs', 0) + 1
            f['old.' + c['old']] = f.get('old.' + c['old'], 0) + 1
            if r['killed'] >= 3 and r['failed'] >= 3 and r.get('rc') == 0: nt = True
        return runner.Out(iss, nt, f)

    def shrink(self, c, fails):
        c = dict(c)
        for b in ([], c['blobs'][:1]):
            if fails(dict(c, blobs=b)): c['blobs'] = b; break
        if fails(dict(c, stale='none')): c['stale'] = 'none'
        c['prog'] = runner.shrink_prog(c['prog'], lambda p: fails(dict(c, prog=p)), args=False)
        return c

    def sample(self, c): return {'prog': super().sample(c['prog']), **{k: v for k, v in c.items() if k != 'prog'}}


OLD = 'precious old content\n'
N = 'out.pdf'
# name of the destination, things made before; the destination must end up written (True), refused (False) or either (None)
PLACES = {
    'plain': (N, [], True), 'old': (N, [['#make', 'file', N, OLD]], True), 'readonly': (N, [['#make', 'readonly', N, OLD]], True),
    'nodir': ('no/such/dir/' + N, [], False), 'isdir': (N, [['#make', 'dir', N]], False), 'isdirfull': (N, [['#make', 'dir', N], ['#make', 'file', N + '/x', OLD]], False),
    'underfile': ('f/' + N, [['#make', 'file', 'f', OLD]], False), 'subdir': ('d/' + N, [['#make', 'dir', 'd']], True),
    'dots': ('d/../d/./' + N, [['#make', 'dir', 'd']], True), 'tmpisdir': (N, [['#make', 'dir', N + '~'], ['#make', 'file', N, OLD]], None),
    'link': (N, [['#make', 'file', 'target', OLD], ['#make', 'link', N, 'target']], True), 'dangling': (N, [['#make', 'link', N, 'nothing']], True),
    'loop': (N, [['#make', 'link', N, N]], None), 'linkdir': ('l/' + N, [['#make', 'dir', 'd'], ['#make', 'link', 'l', 'd']], True),
    'long': ('a' * 254, [], True), 'toolong': ('a' * 255, [], None), 'waytoolong': ('a' * 3000, [], False), 'utf8': ('d\u00e9j\u00e0 vu \u65e5\u672c.pdf', [], True),
    'quotes': ('a "b" $(c) \'d\'\n.pdf', [], True), 'notpdf': ('noext', [], True), 'tilde': ('x~', [['#make', 'file', 'x', OLD]], True), 'dash': ('-f', [], True),
    'stale': (N, [['#make', 'file', N + '~', OLD * 9000]], True), 'slash': ('d/', [['#make', 'dir', 'd']], None), 'hidden': ('.x', [], True),
}


class Places(DocPart):
    """one small document per case, the destination varies"""
    def prepare(self): self.dir, self.so = shim()

    def open(self): self.ex = execu.Exec(self.dir, worker='faultworker.py', extra_env={'CAPYV_SHIM': self.so})

    def gen(self, rng, i):
        return {'prog': super().gen(rng, i), 'place': sorted(PLACES)[i // 8 % len(PLACES)]}

    def run(self, c):
        name, pre, expect = PLACES[c['place']]
        prog, first, names, writes = [], True, {}, []
        for op in c['prog']:
            if op[0] == 'generator_new' and isinstance(op[1], dict) and isinstance(op[-1], dict):
                op = list(op)
                if first:
                    prog += pre; first = False
                    orig = op[1]['f']
                    op[1] = {'f': name}; target = op[-1]['o']
                names[op[-1]['o']] = op[1]['f']
            if op[0] == 'generator_write' and op[1] in names:
                prog += [['#tree'], op, ['#tree']]; writes.append((len(prog) - 2, names[op[1]]))
                continue
            if op[0] == '#read': continue
            prog.append(op)
        try: res = self.ex.run(prog)
        except execu.Crash as e:
            return runner.Out([(('C23',), 'crash', 'died: %s %s' % (e.what, e.err[-800:]), e.pos)], True, {})
        iss, n = [], 0
        done = set()
        for w, fn in writes:
            a, (ec, _), b = res[w - 1][1], res[w], res[w + 1][1]
            if ec is None: continue

            def get(t, q):
                for _ in range(8):
                    parts, cur = [x for x in os.path.normpath(q).split('/')], ''
                    for k, x in enumerate(parts):
                        cur = os.path.join(cur, x)
                        e = t.get(cur)
                        if e and e[0] == 'link':
                            q = os.path.join(os.path.dirname(cur), e[1], *parts[k + 1:]); break
                    else:
                        e = t.get(os.path.normpath(q)); return e and e[1]
                return None
            ch = {k for k in set(a) | set(b) if a.get(k) != b.get(k)}
            norm = os.path.normpath(fn)
            if ec == 0:
                d = get(b, fn)
                if d is None: iss.append((('C23',), 'place-nofile', 'success was reported, but %r holds no file' % fn, w)); continue
                if d == get(a, fn): iss.append((('C23',), 'place-old', 'success was reported, but the old file is still there', w)); continue
                n += 1
                try: pdf.Pdf(d)
                except Exception as e: iss.append((('C23',), 'place-broken', 'the written file is broken: %r' % e, w))
                exp = {norm}
                e = norm
                for k in range(4):
                    x = a.get(e)
                    par = os.path.dirname(e)
                    if x and x[0] == 'link': e = os.path.normpath(os.path.join(par, x[1])); exp.add(e)
                    elif par in a and a[par][0] == 'link': e = os.path.join(a[par][1], os.path.basename(e)); exp.add(e)
                exp |= {x + '~' for x in exp if x + '~' in a}
                if fn == name and expect is False: iss.append((('C23',), 'place-accepted', 'success reported for a destination that cannot be written: %s' % c['place'], w))
                if ch - exp: iss.append((('C23',), 'place-other', 'a successful write changed other files: %r' % sorted(ch - exp)[:3], w))
            else:
                if fn == name: n += 1
                x = {k for k in ch if k in a or not k.endswith('~')}
                x -= {norm + '~'}
                if x: iss.append((('C23',), 'place-failed', 'a failed write changed %r' % sorted(x)[:3], w))
        f = {'place.' + c['place']: 1}
        if expect is True and writes and writes[0][1] == name and res[writes[0][0]][0] not in (0, None):
            ref = self.ex.run([['#env', 'SOURCE_DATE_EPOCH', None]] + c['prog'])
            k = [r for op, r in zip(c['prog'], ref[1:]) if op[0] == 'generator_write']
            if k and k[0][0] == 0: iss.append((('C23',), 'place-refused', 'the destination %s is refused with code %d' % (c['place'], res[writes[0][0]][0]), writes[0][0]))
        return runner.Out(iss, n > 0, f)

    def shrink(self, c, fails): return dict(c, prog=runner.shrink_prog(c['prog'], lambda p: fails(dict(c, prog=p)), args=False))

    def sample(self, c): return {'place': c['place'], 'prog': super().sample(c['prog'])[:12]}
