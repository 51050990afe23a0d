"""C26: the Python module and the C++ header express the C API.  One history is executed through the C functions and through the binding;
every call must have the same result and the documents must be the same."""
import os, re, math, random, ctypes
import build, execu, case, gen, runner, hppexec, model as M
from docpart import DocPart
from meta import noid, reads, cmpcanon
import docs

REPO = os.environ.get('CAPY_REPO', '/repo')
SDE = ['#env', 'SOURCE_DATE_EPOCH', '1700000000']
AMSTEL = '/repo/testdata/fonts/AmstelVar-Roman.ttf'
IMGS = ['/repo/testdata/images/' + x for x in ('simple.jpg', 'flame_gradient.png', '1bit_noalpha.png', 'gray_alpha.png', 'cmyk_tiff.tif', 'rgb_tiff.tif', 'comic-lines.png')]
IMGS = [x for x in IMGS if os.path.getsize(x) < 300000]


def C26(r):
    d = docs.C01(r)
    d['perr'] = r.choice([0, .03, .1]); d['debug'] = 0; d['p_locale'] = 0
    return d


def enrich(prog, r):
    """adds what the document generator does not use: the forms of cm, image queries, images from files, font properties"""
    out, n = [], 0
    gens, seen = [], set()
    for op in prog:
        if op[:2] == ['#env', 'CAPY_DEBUG_PDF']: continue
        if op[0] == 'dc_cmd_cm':
            k = r.random()
            f = lambda: round(r.uniform(-5, 5), r.choice([0, 1, 3]))
            if k < .2: op = [op[0], op[1], 1.0, 0.0, 0.0, 1.0, f(), f()]
            elif k < .4: op = [op[0], op[1], f(), 0.0, 0.0, f(), 0.0, 0.0]
            elif k < .6:
                a = r.choice([f(), math.pi / 2, 0.0, 1.0])
                op = [op[0], op[1], math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0.0, 0.0, {'rot': a}]
        out.append(op)
        if op[0] == 'generator_new': gens.append(op[3]['o'])
        v = None
        if op[0] == 'raster_image_builder_build' and r.random() < .6: v = op[2]['o']
        elif gens and op[0].startswith('generator_add') and r.random() < .04:
            n += 1; v = 'ld%d' % n
            out.append(['generator_load_image', gens[-1], r.choice(IMGS + ['/nonexistent.png']), {'o': v}])
        if v:
            out.append(['raster_image_get_size', v, {'o': v + 'w'}, {'o': v + 'h'}])
            out.append(['raster_image_get_colorspace', v, {'o': v + 'c'}])
            out.append(['raster_image_has_profile', v, {'o': v + 'p'}])
            if gens and r.random() < .6:
                out.append(['generator_convert_image', gens[-1], v, r.randint(0, 2), r.randint(0, 3), {'o': v + 'x'}])
                out.append(['raster_image_get_size', v + 'x', {'o': v + 'xw'}, {'o': v + 'xh'}])
                out.append(['raster_image_get_colorspace', v + 'x', {'o': v + 'xc'}])
                if r.random() < .7: v = v + 'x'
            if v[0] == 'l' and gens:
                out.append(['image_pdf_properties_new', {'o': v + 'q'}])
                out.append(['generator_add_image', gens[-1], v, v + 'q', {'o': v + 'i'}])
        if gens and op[0].startswith('generator_add') and r.random() < .05:
            n += 1; q = 'fq%d' % n
            out.append(['font_properties_new', {'o': q}])
            if r.random() < .5: out.append(['font_properties_set_subfont', q, r.choice([0, 0, 0, 1, 65535, 65536, -1])])
            if r.random() < .5: out.append(['font_properties_set_named_instance', q, r.choice([0, 1, 2, 5, 10000])])
            for ax in ('wght', 'wdth', 'opsz', 'GRAD', 'bad', 'abcde')[:r.randint(0, 6)]:
                if r.random() < .4: out.append(['font_properties_set_variation', q, ax, len(ax), r.choice([100, 400, 900, 0, 14])])
            out.append(['generator_load_font', gens[-1], r.choice([AMSTEL, AMSTEL, '/repo/testdata/fonts/NotoSans-Regular.ttf']), q, {'o': q + 'f'}])
            out.append(['generator_text_width', gens[-1], 'Bright', 6, q + 'f', 12.0, {'o': q + 'w'}])
    return out


class Py(DocPart):
    def open(self):
        self.ex = execu.Exec(self.dir); self.py = execu.Exec(self.dir, worker='pyworker.py')
        self.msgs = {i: r[1] for i, r in enumerate(self.ex.run([['error_message', i] for i in range(120)]))}
        self.texts = set(self.msgs.values())

    def close(self): self.ex.stop(); self.py.stop()

    def gen(self, rng, i):
        p = super().gen(rng, i)
        return [SDE] + enrich(p, rng)

    def run(self, p):
        try: a = self.ex.run(p)
        except execu.Crash as e: return runner.Out([], False, {'c_crash': 1})       # other checks report it
        try: b = self.py.run(p)
        except execu.Crash as e:
            return runner.Out([(('C26',), 'py-crash', 'the Python module died: %s %s' % (e.what, case.crashkey(e.err)), e.pos)], True, {})
        iss, f = [], {}
        for k, (op, x, y) in enumerate(zip(p, a, b)):
            if op[0][0] == '#': continue
            via = y[2] if len(y) > 2 else None
            if via: f['via'] = f.get('via', 0) + 1; f['m.' + via] = f.get('m.' + via, 0) + 1
            if x[0] is None and y[0] is None: continue
            if x[0] == 0 and y[0] == 0:
                if x[1] != y[1] and not (isinstance(x[1], float) and x[1] != x[1]): iss.append((('C26',), 'py-value:' + (via or op[0]), '%s: C gave %r, %s gave %r' % (M.opstr(op), x[1], via, y[1]), k)); break
                continue
            if x[0] not in (0, None) and y[0] == x[0] and not via: continue
            if x[0] not in (0, None) and y[0] == 'E':
                f['errors'] = f.get('errors', 0) + 1
                if y[1] != self.msgs.get(x[0]) and y[1] in self.texts: iss.append((('C26',), 'py-message:' + via, '%s: C failed with %r, %s raised %r' % (M.opstr(op), self.msgs.get(x[0]), via, y[1]), k)); break
                continue
            iss.append((('C26',), 'py-result:' + (via or op[0]), '%s: C returned %r, %s gave %r' % (M.opstr(op), x, via, y[:2]), k)); break
        n = 0
        if not iss:
            for (fn, x), (gn, y) in zip(reads(p, a), reads(p, b)):
                n += x is not None
                if x != y and (x is None or y is None or noid(x) != noid(y)):
                    iss.append((('C26',), 'py-file', 'the document made through Python differs: %s' % (diff(x, y)), 0))
        f['written'] = n
        return runner.Out(iss, bool(n and f.get('via', 0) >= 10), f)

    def shrink(self, prog, fails): return runner.shrink_prog(prog, fails, args=False)


def diff(x, y):
    if x is None or y is None: return 'only one was written'
    try: return cmpcanon(x, y) or 'only in the encoding'
    except Exception as e: return 'unparsable: %r' % e


class Cpp(DocPart):
    def prepare(self): self.dir = hppexec.build('plain')

    def open(self): self.ex = execu.Exec(self.dir); self.hpp = hppexec.Hpp(self.dir)

    def close(self): self.ex.stop(); self.hpp.close() if hasattr(self.hpp, 'close') else None

    def gen(self, rng, i): return enrich(super().gen(rng, i), rng)

    def run(self, p):
        try: a = self.ex.run([SDE] + p)[1:]
        except execu.Crash as e: return runner.Out([], False, {'c_crash': 1})
        rc, err, b, files = self.hpp.go(p, {'SOURCE_DATE_EPOCH': '1700000000'})
        if rc != 0: return runner.Out([(('C26',), 'cpp-crash', 'the C++ program died: %s %s' % (rc, err[-300:]), 0)], True, {})
        iss, f = [], {}
        for w in ('never destroyed: ', 'CapyPDF failure on destruction: '):
            l = [x for x in err.split('\n') if x.startswith(w)]
            if l: iss.append((('C26',), 'cpp-destroy', 'at the end of the program: %s' % l[0], 0))
        for k, (op, x, y) in enumerate(zip(p, a, b)):
            if op[0][0] == '#': continue
            via = y is not None and y[1] == 1
            if via: f['via'] = f.get('via', 0) + 1; f['m.' + op[0]] = f.get('m.' + op[0], 0) + 1
            if x[0] is None and y is None: continue
            if x[0] is None or y is None or x[0] != y[0]:
                iss.append((('C26',), 'cpp-result:' + op[0], '%s: C returned %r, C++ %s' % (M.opstr(op), x, 'nothing' if y is None else 'an unknown message' if y[0] == -997 else y[0]), k)); break
            if via and x[0] == 0 and x[1] is not None and x[1] != 'h':
                v = x[1]
                if isinstance(v, (list, tuple)): v = v[0] + 1048576. * v[1]
                if isinstance(v, (int, float)) and v != y[2] and v == v: iss.append((('C26',), 'cpp-value:' + op[0], '%s: C gave %r, C++ gave %r' % (M.opstr(op), x[1], y[2]), k)); break
            if x[0]: f['errors'] = f.get('errors', 0) + 1
        n = 0
        if not iss:
            for fn, x in reads(p, a):
                n += x is not None
                y = files.get(fn)
                if (x or b'') != (y or b'') and (not x or not y or noid(x) != noid(y)):
                    iss.append((('C26',), 'cpp-file', 'the document made through C++ differs: %s' % diff(x or None, y or None), 0))
        f['written'] = n
        return runner.Out(iss, bool(n and f.get('via', 0) >= 10), f)

    def shrink(self, prog, fails): return runner.shrink_prog(prog, fails, args=False)


class Symbols(runner.Part):
    """every function the headers declare can be called: it is in the library"""
    name, quick, thorough = 'symbols', 1000, 1000
    rule = 'one case per function declared in capypdf.h (all of them, in a fixed order; further cases are trivial)'
    weight = .05

    def prepare(self): self.dir = build.build('plain')

    def open(self):
        h = open(os.path.join(REPO, 'include/capypdf.h.in')).read() if os.path.exists(os.path.join(REPO, 'include/capypdf.h.in')) else open(os.path.join(REPO, 'include/capypdf.h')).read()
        h = re.sub(r'/\*.*?\*/|//[^\n]*', '', h, flags=re.S)
        self.names = sorted(set(re.findall(r'\bcapy_\w+(?=\s*\()', h)))
        self.lib = ctypes.CDLL(os.path.join(self.dir, 'libcapypdf.so'))

    def gen(self, rng, i): return i

    def run(self, i):
        if not isinstance(i, int) or i >= len(self.names): return runner.Out([], False, {}, key=str(i))
        n = self.names[i]
        iss = [] if hasattr(self.lib, n) else [(('C26',), 'missing:' + n[5:], '%s is declared but not in the library' % n, 0)]
        return runner.Out(iss, True, {'functions': 1})


def parts():
    rule = 'a random document history plus image queries, conversions, files, font properties and the forms of cm, executed with the C functions and through the %s; results, messages and files must be equal; ' \
           'non-trivial: a file was written and at least 10 calls went through the binding'
    return [Py('python', C26, None, rule % 'Python module', 2000, 30000), Cpp('cpp', C26, None, rule % 'C++ header', 2000, 30000), Symbols()]
