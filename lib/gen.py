"""Generates histories of API calls.  The model runs along, so that most calls are meaningful; a share of the
calls is made invalid on purpose."""
import math, random, os, glob, zlib, string
import model as M, ftlib
from model import Ent

FONTS = [f for f in ['/repo/testdata/fonts/NotoSans-Regular.ttf', '/repo/testdata/fonts/NotoSans-Bold.ttf', '/repo/testdata/fonts/NotoSerif-Regular.ttf',
                     '/repo/testdata/fonts/P052-Roman.otf', '/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf', '/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf',
                     '/usr/share/fonts/opentype/urw-base35/NimbusSans-Regular.otf', '/usr/share/fonts/opentype/urw-base35/C059-Bold.otf'] if os.path.exists(f)]
SMALLFONTS = FONTS[:4] or FONTS
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ICC = {0: '/repo/testdata/icc/compatibleWithAdobeRGB1998.icc', 1: VERIF + '/data/gray.icc', 2: '/repo/testdata/icc/FOGRA29L.icc'}
MOREICC = {0: [ICC[0], VERIF + '/data/rgb_wide.icc'], 1: [ICC[1], VERIF + '/data/gray24.icc'], 2: [ICC[2], '/repo/testdata/icc/FOGRA30L.icc']}

ASCII_SPECIAL = list('()\\<>[]{}/%# \t\n\r') + ['\\(', '\\)', '((', '))', '\r\n', '\\\r', '\\101', '(\\', '#20', '%%EOF', 'endobj', '&<>"\'', '\b\f', '\x01', '\x7f', '\x1f']
UNI = ['ä', 'é', 'ß', '€', 'Ω', 'я', '中', '日本', '\u0b95', '\u200d', '\ufeff', '\ufffd', '\ufffe', '😀', '𝄞', '\U0010ffff', '\U00010000', '\u00a0', '\u0080', '\u00ff', '\u07ff', '\u0800', '\ud7ff', '\ue000', 'ﬁ']

PATH = 'dc_cmd_'


class G:
    def __init__(self, rng, **w):
        self.r = rng
        self.m = M.Model()
        self.prog = []
        self.n = 0
        self.bykind = {}
        self.vps, self.measures, self.colls, self.schemas, self.hts = [], [], [], [], []
        self.perr = w.get('perr', 0.0)
        self.w = w
        self.ctxs = []       # [(var, gen var)]
        self.gens = []
        self.texts = {}
        self.pre = ''
        self.heavy = w.get('heavy', 1.0)

    # ---- primitives
    def var(self, p):
        self.n += 1
        return '%s%s%d' % (self.pre, p, self.n)

    def raw(self, *op):
        self.prog.append(list(op))
        return self.m.step(list(op))

    def call(self, name, *args):
        if self.perr and self.r.random() < self.perr: self.mutant(name, list(args))
        return self.raw(name, *args)

    AGAIN = {'generator_add_' + x for x in 'annotation form_field function graphics_state optional_content_group outline shading shading_pattern soft_mask structure_item lab_colorspace 3d_stream'.split()} | {'generator_embed_file'}
    again = False

    def id(self, name, prefix, *args):
        """call whose last argument is an output; returns the variable or None"""
        v = self.var(prefix)
        ok = self.call(name, *args, {'o': v})
        if ok and name in self.AGAIN and self.chance(self.w.get('p_again', .06)) and not self.again:
            # the builder may be used again, changed or not
            self.again = True
            if name == 'generator_embed_file' and self.chance(.8): self.call('embedded_file_set_pdf_name', args[1], *self.S(self.uni(False)))
            self.id(name, prefix, *args)
            self.again = False
        if ok:
            base = M.SPEC[name][-1][1]
            if name in ('tiling_pattern_context_new',): base = 'DrawContext'
            self.bykind.setdefault((self.cur if name.startswith('generator_') else None, base), []).append(v)
            return v
        return None

    def some(self, base, gen=None):
        l = self.bykind.get((gen or self.cur, base))
        return self.r.choice(l) if l else None

    def chance(self, p): return self.r.random() < p

    def cnt(self, lo, hi):
        """how many: a few, or now and then far more than fit one line, block or byte"""
        if self.r.random() < self.w.get('p_many', .006): return self.r.choice([31, 33, 40, 70, 130])
        return self.r.randint(lo, hi)

    # ---- values
    def num(self, big=False):
        r = self.r; k = r.random()
        if k < .25: return float(r.randint(-20, 600))
        if k < .55: return round(r.uniform(-50, 600), r.randint(1, 6))
        if k < .7: return r.uniform(-1, 1)
        if k < .8: return r.choice([0.0, 1.0, -1.0, 0.5, -0.0, 1e-6, -1e-6, 4e-7, 1e-9, 0.999999, 0.9999999, 100000.0, 123456.789])
        if k < .9: return r.uniform(-1e5, 1e5)
        if k < .95: return float(r.randint(-10 ** 9, 10 ** 9))
        return r.choice([-1, 1]) * 10 ** r.uniform(-8, 12)

    def unit(self):
        r = self.r; k = r.random()
        if k < .5: return round(r.random(), r.randint(1, 5))
        if k < .7: return r.choice([0.0, 1.0, .5])
        if k < .85: return r.random()
        return r.choice([-0.1, 1.1, -5.0, 2.0, 1e9, -1e9, 1.0000001, -1e-9, 0.99999999])

    def rb(self, lo, hi, nd=3, p=.25):
        """a number from the range, often one of its special points"""
        r = self.r
        if r.random() < p: return float(r.choice([lo, hi, 0 if lo <= 0 <= hi else lo, (lo + hi) / 2, 1 if lo <= 1 <= hi else hi]))
        return round(r.uniform(lo, hi), nd)

    def rect(self):
        r = self.r
        x, y = round(r.uniform(-100, 300), r.randint(0, 3)), round(r.uniform(-100, 300), r.randint(0, 3))
        return [x, y, x + round(r.uniform(1, 500), r.randint(0, 3)) + .5, y + round(r.uniform(1, 500), r.randint(0, 3)) + .5]

    def ascii(self, empty=True):
        r = self.r
        if empty and r.random() < .04: return ''
        n = r.choice([1, 2, 3, 5, 9, 20])
        if r.random() < .01: n = r.choice([127, 128, 255, 256, 300, 300, 1000])
        if r.random() < self.w.get('p_longstr', .0004): n = r.choice([4095, 4096, 32768, 65536, 70000])
        out = []
        for _ in range(n):
            k = r.random()
            if k < .6: out.append(r.choice(string.ascii_letters + string.digits + ' .-_'))
            elif k < .9: out.append(r.choice(ASCII_SPECIAL))
            else: out.append(chr(r.randint(1, 127)))
        return ''.join(out)

    def uni(self, empty=True):
        r = self.r; k = r.random()
        if k < .35: return self.ascii(empty)
        if empty and k < .38: return ''
        n = r.choice([1, 2, 4, 8])
        if r.random() < .01: n = r.choice([64, 127, 128, 255, 256, 500])
        if r.random() < self.w.get('p_longstr', .0004): n = r.choice([4096, 32768, 65536])
        out = []
        for _ in range(n):
            j = r.random()
            if j < .3: out.append(r.choice(string.ascii_letters + ' '))
            elif j < .45: out.append(r.choice(ASCII_SPECIAL))
            elif j < .85: out.append(r.choice(UNI))
            else:
                c = r.randint(0x80, 0x10ffff)
                out.append(chr(c if not 0xd800 <= c < 0xe000 else 0xd7ff))
        return ''.join(out)

    def word(self): return ''.join(self.r.choice(string.ascii_letters) for _ in range(self.r.randint(1, 8)))

    def S(self, s):
        """(argument, size) of a string"""
        b = s.encode('utf-8')
        k = self.r.random()
        if k < .5 : return [s, -1]
        if k < .8: return [s, len(b)]
        return [{'b': (b + b'JUNK\xff(').decode('latin-1')}, len(b)]

    def badstr(self, ascii=False):
        r = self.r
        c = ['utf8', 'nul', 'neg', 'over', 'surr', 'trunc', 'cont', 'beyond']
        if ascii: c += ['nonascii'] * 4
        k = r.choice(c)
        s = self.word() if r.random() < .8 else self.word() * r.randint(2, 60)
        if k == 'utf8': return [{'b': s + '\xff\xfe'}, r.choice([-1, len(s) + 2])]
        if k == 'nul':
            b = r.choice([s + '\0' + s, s + '\0', '\0' + s, '\0', s + '\0\0'])
            return [{'b': b}, len(b)]
        if k == 'neg': return [s, r.choice([-2, -3, -100, -2 ** 31])]
        if k == 'over': x = r.choice(['\xc0\x80', '\xc1\xbf', '\xe0\x80\xaf', '\xe0\x9f\xbf', '\xf0\x80\x80\xaf', '\xf0\x8f\xbf\xbf'])
        elif k == 'surr': x = r.choice(['\xed\xa0\x80', '\xed\xbf\xbf', '\xed\xa0\xbd\xed\xb8\x80'])
        elif k == 'trunc': x = r.choice(['\xc3', '\xe2\x82', '\xf0\x9f\x98', '\xe2', '\xf0'])
        elif k == 'cont': x = r.choice(['\x80', '\xbf', 'a\x80b', '\xc3(', '\xe2\x82(', '\xe2(\x82'])
        elif k == 'beyond': x = r.choice(['\xf4\x90\x80\x80', '\xf5\x80\x80\x80', '\xf8\x88\x80\x80\x80', '\xfe', '\xff'])
        else: x = r.choice(['\xc3\xa4', '\xe2\x82\xac', '\xf0\x9f\x98\x80', '\x80', '\xe4'])
        b = (s if r.random() < .6 else '') + x
        if r.random() < .4 and k != 'trunc': b += self.word()
        if k == 'trunc' and r.random() < .5:      # explicit size cuts a valid character
            return [{'b': b + '\xac\x80\x80'}, len(b)]
        return [{'b': b}, r.choice([-1, len(b)])]

    def matrix(self):
        return [self.num() for _ in range(6)]

    # ---- invalid variants
    def mutant(self, name, args):
        spec = M.SPEC[name]
        r = self.r
        # a program with a fresh output variable, so that later calls do not use a stale one
        args = [{'o': self.var('x')} if isinstance(a, dict) and 'o' in a else a for a in args]
        cand = []
        for i, (k, base, an) in enumerate(spec):
            if i >= len(args) or (isinstance(args[i], dict) and 'o' in args[i]): continue
            if k == 'id' or (k == 'pid' and args[i] is not None): cand.append((i, 'id'))
            elif k == 'e': cand.append((i, 'e'))
            elif k == 'pe' and args[i] is not None: cand.append((i, 'pe'))
            elif k == 'str' and i + 1 < len(spec) and spec[i + 1][0] == 'i' and ('size' in spec[i + 1][2] or 'len' in spec[i + 1][2]): cand.append((i, 'str'))
            elif k == 'i' and an in ('value', 'I', 'K', 'is_tagged', 'is_opaque', 'as_mask', 'V', 'E', 'starting', 'ending'): cand.append((i, 'b'))
            elif k == 'h' and base == 'DrawContext': cand.append((i, 'ctx'))
            elif k == 'f' and name in RANGED: cand.append((i, 'f'))
            if k in ('f', 'pf') and args[i] not in (None, []) and name not in M.CLAMPED: cand.append((i, 'nan'))
        mk = self.w.get('mut')
        if mk: cand = [c for c in cand if c[1] in mk]
        if not cand: return
        i, k = r.choice(cand)
        a = list(args)
        if k == 'id':
            bad = r.choice([-1, -2, 4999, 123456, 2 ** 31 - 1, -2 ** 31])
            # soft masks of images take image ids, too
            if r.random() < .5 and spec[i][1] != 'ImageId': bad = r.choice([r.randint(0, 60), self.m.entcount(getattr(self, 'cur', None), spec[i][1]) + r.choice([-1, 0, 0, 0, 1])])
            if spec[i][0] == 'pid':
                l = list(a[i]) if isinstance(a[i], list) else [a[i]]
                if not l: return
                l[r.randrange(len(l))] = bad; a[i] = l
            else: a[i] = bad
        elif k == 'e':
            mx = M.ENUMMAX.get(spec[i][1])
            if mx is None: return
            if spec[i][1] == 'Annotation_Flags': return
            a[i] = r.choice([mx + 1, -1, mx + 100, 2 ** 31 - 1, -2 ** 31])
        elif k == 'pe':
            a[i] = [r.choice([M.ENUMMAX[spec[i][1]] + 1, -1, 1000])]
        elif k == 'str':
            s = self.badstr(name in ASCIIFN)
            if name in NAMEFN and s[1] >= -1 and '\0' not in str(s[0]['b'] if isinstance(s[0], dict) else s[0]): return     # bytes of names are free
            a[i], a[i + 1] = s
        elif k == 'b': a[i] = r.choice([2, -1, 255, 2 ** 31 - 1])
        elif k == 'f': a[i] = r.choice([-1.0, -0.001, 1e9, 100.5, 1.5])
        elif k == 'nan':
            v = r.choice([math.nan, math.inf, -math.inf])
            if isinstance(a[i], list): a[i] = list(a[i]); a[i][r.randrange(len(a[i]))] = v
            else: a[i] = v
        elif k == 'ctx':
            return
        ok = self.raw(name, *a)
        # ids kept by builders are looked at when the builder is used
        if k != 'id' or not ok: return
        b, h = (spec[-1][1], a[-1]['o']) if spec[-1][0] == 'ph' and isinstance(a[-1], dict) and 'o' in a[-1] else (spec[0][1], a[0])
        if b in self.ADDERS: self.raw(self.ADDERS[b], self.cur, h, {'o': self.var('x')})
        elif b == 'Color':
            c = [c for c in self.ctxs if c[1] == self.cur]
            if c: self.raw('dc_set_' + r.choice(['stroke', 'nonstroke']), r.choice(c)[0], h)

    ADDERS = dict(Function='generator_add_function', Shading='generator_add_shading', SoftMask='generator_add_soft_mask', ShadingPattern='generator_add_shading_pattern',
                  Annotation='generator_add_annotation', Outline='generator_add_outline', GraphicsState='generator_add_graphics_state', FormField='generator_add_form_field')

    # ---- documents
    def docprops(self):
        r = self.r; dp = self.var('dp')
        self.raw('document_properties_new', {'o': dp})
        p = self.w.get('p_prop', .25)
        if self.chance(p):
            for n in ('title', 'author', 'creator'):
                if self.chance(.6): self.call('document_properties_set_' + n, dp, *self.S(self.uni()))
        if self.chance(p): self.call('document_properties_set_language', dp, *self.S(r.choice(['en-US', 'fi', 'de-CH-1996', self.ascii()])))
        if self.chance(p): self.call('document_properties_set_tagged', dp, r.randint(0, 1))
        if self.chance(p * .4): self.call('document_properties_set_metadata_xml', dp, *self.S(self.xmp()))
        if self.chance(p): self.call('document_properties_set_page_layout', dp, r.randint(0, M.ENUMMAX['Page_Layout']))
        if self.chance(p): self.call('document_properties_set_page_mode', dp, r.randint(0, M.ENUMMAX['Page_Mode']))
        st = self.w.get('subtype', .15)
        cs = 0
        if self.chance(st):
            k = r.random()
            cs = r.choice([0, 1, 2])
            good = self.chance(.85)
            if good or self.chance(.5):
                self.call('document_properties_set_device_profile', dp, cs, self.iccfile(cs))
            if good or self.chance(.5): self.call('document_properties_set_output_intent', dp, *self.S(r.choice([self.word(), self.uni(False)])))
            self.call('document_properties_set_colorspace', dp, cs)
            if k < .45: self.call('document_properties_set_pdfx', dp, r.randint(0, M.ENUMMAX['PDFX_Type']))
            elif k < .95: self.call('document_properties_set_pdfa', dp, r.randint(0, M.ENUMMAX['PDFA_Type']))
        elif self.chance(p * .6):
            cs = r.choice([0, 1, 2])
            if cs == 2 or self.chance(.4): self.call('document_properties_set_device_profile', dp, cs, self.iccfile(cs))
            self.call('document_properties_set_colorspace', dp, cs)
        self.cs = cs
        for k in range(3):
            if k != cs and self.chance(self.w.get('p_prof', 0)): self.call('document_properties_set_device_profile', dp, k, self.iccfile(k))
        if self.chance(self.w.get('p_badprof', 0)):
            k = r.randint(0, 2)
            f = self.var('badicc')
            data = r.choice([b'', r.randbytes(40), open(self.iccfile((k + 1) % 3), 'rb').read(), open(self.iccfile(k), 'rb').read()[:r.choice([20, 100, 127])]])
            self.file(f, data)
            self.call('document_properties_set_device_profile', dp, k, {'f': f})
        if self.chance(self.w.get('p_defpage', .3)):
            pp = self.pageprops(True)
            self.call('document_properties_set_default_page_properties', dp, pp)
            if self.chance(.2): self.call('page_properties_set_pagebox', pp, r.randint(0, 4), *self.rect())   # later change of the builder
        return dp

    def pageprops(self, media):
        r = self.r; pp = self.var('pp')
        self.raw('page_properties_new', {'o': pp})
        if media: self.call('page_properties_set_pagebox', pp, 0, *self.rect())
        for b in range(0 if not media else 1, 5):
            if self.chance(.35): self.call('page_properties_set_pagebox', pp, b, *self.rect())
        if self.chance(.25):
            tg = self.tgprops()
            self.call('page_properties_set_transparency_group_properties', pp, tg)
        return pp

    def tgprops(self):
        tg = self.var('tp'); r = self.r
        self.raw('transparency_group_properties_new', {'o': tg})
        if self.chance(.6): self.call('transparency_group_properties_set_CS', tg, r.randint(0, 2))
        if self.chance(.5): self.call('transparency_group_properties_set_I', tg, r.randint(0, 1))
        if self.chance(.5): self.call('transparency_group_properties_set_K', tg, r.randint(0, 1))
        return tg

    def newdoc(self, fname=None):
        dp = self.docprops()
        g = self.var('g')
        fname = fname or 'out%d.pdf' % len(self.gens)
        self.cur = g
        if not self.call('generator_new', {'f': fname}, dp, {'o': g}):
            dp = self.var('dp'); self.raw('document_properties_new', {'o': dp}); self.cs = 0
            self.raw('generator_new', {'f': fname}, dp, {'o': g})
        if self.chance(.5): self.raw('document_properties_destroy', dp)
        self.gens.append((g, fname))
        self.gs = {}
        return g

    # ---- contexts
    def newctx(self, kind='page'):
        c = self.var('c')
        if kind == 'page': self.call('page_draw_context_new', self.cur, {'o': c})
        elif kind == 'form': self.call('form_xobject_new', self.cur, *self.rect(), {'o': c})
        elif kind == 'tiling': self.call('tiling_pattern_context_new', self.cur, {'o': c}, *self.rect())
        else: self.call('transparency_group_new', self.cur, *self.rect(), {'o': c})
        self.ctxs.append((c, self.cur, kind))
        return c

    def O(self, v): return self.m.vars[v]

    def close(self, c):
        o = self.O(c)
        while o.stack:
            self.raw('dc_cmd_Q' if o.stack[-1] == 'q' else 'dc_cmd_EMC', c)

    ADD = {'form': ('generator_add_form_xobject', 'fx'), 'trgroup': ('generator_add_transparency_group', 'tr'), 'tiling': ('generator_add_tiling_pattern', 'pt')}

    def commit(self, i=None):
        if not self.ctxs: return
        i = self.r.randrange(len(self.ctxs)) if i is None else i
        c, g, kind = self.ctxs[i]
        sv = self.cur; self.cur = g
        if kind in ('form', 'trgroup', 'tiling') and self.chance(.3): self.call('dc_set_group_matrix', c, *self.matrix())
        if self.perr and self.chance(self.perr * 3):     # calls that this kind of context refuses
            k = self.r.randint(0, 4); an = self.some('AnnotationId')
            if kind == 'page': self.raw('dc_set_group_matrix', c, *self.matrix())
            elif k == 0: self.raw('dc_set_page_transition', c, self.transition())
            elif k == 1: self.raw('dc_set_custom_page_properties', c, self.pageprops(False))
            elif k == 2: self.raw('dc_append_viewport', c, self.viewport())
            elif k == 3 and an: self.raw('dc_annotate', c, an)
            elif kind == 'trgroup': self.raw('dc_add_simple_navigation', c, [], 0, None)
            else: self.raw('dc_set_transparency_group_properties', c, self.tgprops())
        if kind in ('trgroup', 'page') and self.chance(self.w.get('p_tg', .15)): self.call('dc_set_transparency_group_properties', c, self.tgprops())
        if self.O(c).stack and self.chance(.25):     # must be refused
            self.raw('generator_add_page', g, c) if kind == 'page' else self.raw(self.ADD[kind][0], g, c, {'o': self.var('x')})
        self.close(c)
        if kind == 'page':
            self.pageattrs(c)
            if self.chance(.04): self.pageattrs(c)
            self.call('generator_add_page', g, c)
        else: self.id(self.ADD[kind][0], self.ADD[kind][1], g, c)
        if self.chance(.35):
            self.raw('dc_destroy', c); self.ctxs.pop(i)
        self.cur = sv

    def pageattrs(self, c):
        w = self.w
        if self.chance(w.get('p_custom', .12)): self.call('dc_set_custom_page_properties', c, self.pageprops(False))
        if self.chance(w.get('p_trans', .08)): self.call('dc_set_page_transition', c, self.transition())
        if self.chance(w.get('p_vp', .06)):
            for _ in range(self.cnt(1, 3)): self.call('dc_append_viewport', c, self.viewport())
        if self.chance(w.get('p_nav', .06)):
            o = [v for v in self.bykind.get((self.cur, 'OptionalContentGroupId'), []) if self.m.vars[v].ent in self.O(c).ocgs]
            if o:
                k = self.r.sample(o, self.r.randint(1, len(o)))
                self.call('dc_add_simple_navigation', c, k, len(k), self.transition() if self.chance(.6) else None)
        if self.chance(w.get('p_annot', .1)):
            l = self.bykind.get((self.cur, 'AnnotationId'), [])
            for _ in range(self.cnt(1, 4)):
                if l: self.call('dc_annotate', c, self.r.choice(l))

    def transition(self):
        r = self.r; t = self.var('tn')
        self.raw('transition_new', {'o': t})
        if self.chance(.8): self.call('transition_set_S', t, r.randint(0, M.ENUMMAX['Transition_Type']))
        if self.chance(.5): self.call('transition_set_D', t, self.num())
        if self.chance(.4): self.call('transition_set_Dm', t, r.randint(0, 1))
        if self.chance(.4): self.call('transition_set_M', t, r.randint(0, 1))
        if self.chance(.4): self.call('transition_set_Di', t, r.choice([0, 90, 180, 270, 315]))
        if self.chance(.4): self.call('transition_set_SS', t, self.num())
        if self.chance(.4): self.call('transition_set_B', t, r.randint(0, 1))
        return t

    def viewport(self):
        r = self.r
        if self.vps and self.chance(.2): return r.choice(self.vps)      # used again
        v = self.var('vp')
        self.call('viewport_new', *self.rect(), {'o': v})
        self.vps.append(v)
        if self.measures and self.chance(.2): self.call('viewport_set_measure', v, r.choice(self.measures))
        elif self.chance(.6):
            me = self.var('me'); self.raw('measure_new', {'o': me})
            nf = None
            for k in 'XYDA':
                for _ in range(r.choice([0, 1, 1, 2])):
                    if nf and self.chance(.3): self.call('measure_append_' + k, me, nf); continue
                    nf = self.var('nf')
                    if self.call('number_format_new', *self.S(self.uni()), self.num(), {'o': nf}): self.call('measure_append_' + k, me, nf)
                    else: nf = None
            self.call('viewport_set_measure', v, me)
            self.measures.append(me)
        return v

    # ---- drawing
    DRAW = dict(path=30, color=14, state=14, q=8, Q=7, res=14, setcolor=10, mc=6, emc=6, text=3, textobj=3)

    def draw(self, c, n=1):
        w = self.w.get('draw', self.DRAW)
        ks, ws = list(w), list(w.values())
        for _ in range(n):
            k = self.r.choices(ks, ws)[0]
            getattr(self, 'd_' + k)(c)

    def d_path(self, c):
        n = self.r.choice(['b', 'B', 'bstar', 'Bstar', 'f', 'fstar', 'h', 'n', 's', 'S', 'W', 'Wstar', 'c', 'l', 'm', 're', 'v', 'y', 'l', 'm', 're'])
        k = len(M.SPEC['dc_cmd_' + n]) - 1
        self.call('dc_cmd_' + n, c, *[self.num() for _ in range(k)])

    def d_color(self, c):
        n = self.r.choice(['G', 'g', 'RG', 'rg', 'K', 'k'])
        self.call('dc_cmd_' + n, c, *[self.unit() for _ in range(len(M.SPEC['dc_cmd_' + n]) - 1)])

    def d_state(self, c):
        r = self.r; n = r.choice(['cm', 'd', 'i', 'j', 'J', 'M', 'ri', 'w'])
        if n == 'cm': self.call('dc_cmd_cm', c, *self.matrix())
        elif n == 'd':
            a = [abs(self.num()) for _ in range(self.cnt(1, 5))]
            if self.chance(.05): a[0] = -1.0
            self.call('dc_cmd_d', c, a, r.choice([len(a), len(a), r.randint(0, len(a))]), self.num())
        elif n == 'i': self.call('dc_cmd_i', c, r.choice([0.0, 100.0, round(r.uniform(0, 100), 3), -1.0, 100.1]))
        elif n == 'j': self.call('dc_cmd_j', c, r.randint(0, 2))
        elif n == 'J': self.call('dc_cmd_J', c, r.randint(0, 2))
        elif n == 'ri': self.call('dc_cmd_ri', c, r.randint(0, 3))
        elif n == 'M': self.call('dc_cmd_M', c, self.num())
        else: self.call('dc_cmd_w', c, abs(self.num()) if self.chance(.9) else self.num())

    def d_q(self, c): self.call('dc_cmd_q', c)
    def d_Q(self, c):
        if self.O(c).stack[-1:] == ['q'] or self.chance(.15): self.call('dc_cmd_Q', c)
    def d_emc(self, c):
        if self.O(c).stack[-1:] == ['mc'] or self.chance(.15): self.call('dc_cmd_EMC', c)

    def d_mc(self, c):
        if 'mc' in self.O(c).stack and self.chance(.85): return
        r = self.r
        k = r.choice(['struct', 'struct', 'ocg', 'BMC', 'testing'])
        if k == 'struct':
            s = self.some('StructureItemId')
            if s is None: s = self.r_struct()
            if s: self.call('dc_cmd_BDC_builtin', c, s, self.tags() if self.chance(.3) else None)
        elif k == 'ocg':
            s = self.some('OptionalContentGroupId') or self.r_ocg()
            if s: self.call('dc_cmd_BDC_ocg', c, s)
        elif k == 'BMC':
            self.call('dc_cmd_BMC', c, r.choice([self.word() + 'x', self.bmctag(), '/x', 'a']))
        else: self.call('dc_cmd_BDC_testing', c, *self.S(self.word()), self.tags())

    def bmctag(self):
        s = self.ascii(False)
        return s if len(s) > 1 and '\0' not in s else 'xy'

    def tags(self):
        t = self.var('tg')
        self.raw('bdc_tags_new', {'o': t})
        for _ in range(self.cnt(0, 3)):
            k = self.r.choice([self.word(), self.ascii(False).replace('/', '') or 'k'])
            if k == 'MCID': k = 'MCIDx'
            a, b = self.S(k), self.S(self.ascii())
            self.call('bdc_tags_add_tag', t, a[0], a[1], b[0], b[1])
        return t

    def d_res(self, c):
        k = self.r.choice([('Do_trgroup', 'TransparencyGroupId', 'r_trgroup'), ('Do_image', 'ImageId', 'r_image'), ('gs', 'GraphicsStateId', 'r_gs'), ('sh', 'ShadingId', 'r_shading')])
        v = self.some(k[1])
        if v is None or self.chance(.15):
            v = getattr(self, k[2])() or v
        if v: self.call('dc_cmd_' + k[0], c, v)

    def d_setcolor(self, c):
        col = self.color()
        self.call(self.r.choice(['dc_set_stroke', 'dc_set_nonstroke']), c, col)
        if self.chance(.3): self.raw('color_destroy', col)

    def plaincolor(self, kind):
        v = self.var('co'); self.raw('color_new', {'o': v})
        n = {0: 'rgb', 1: 'gray', 2: 'cmyk'}[kind]
        if kind == 0 and self.chance(.05): return v
        self.call('color_set_' + n, v, *[self.unit() for _ in range(M.NCOMP[kind])])
        return v

    def color(self):
        r = self.r
        k = r.choices(['rgb', 'gray', 'cmyk', 'icc', 'sep', 'pat', 'lab'], [3, 2, 3, 2, 2, 3, 2])[0]
        if k in ('rgb', 'gray', 'cmyk'): return self.plaincolor(['rgb', 'gray', 'cmyk'].index(k))
        base, mk = {'icc': ('IccColorSpaceId', self.r_icc), 'sep': ('SeparationId', self.r_sep), 'pat': ('PatternId', self.r_pattern), 'lab': ('LabColorSpaceId', self.r_lab)}[k]
        s = self.some(base)
        if s is None or self.chance(.1): s = mk() or s
        v = self.var('co'); self.raw('color_new', {'o': v})
        if not s: return v
        if k == 'icc':
            n = self.m.vars[s].ent.n
            if self.chance(.05): n = r.choice([1, 2, 3, 4, 5])
            vals = [self.rb(0, 1, 4) for _ in range(n)]
            self.call('color_set_icc', v, s, vals, n)
        elif k == 'sep': self.call('color_set_separation', v, s, self.rb(0, 1, 5) if self.chance(.9) else r.choice([-.1, 1.1]))
        elif k == 'pat': self.call('color_set_pattern', v, s)
        else: self.call('color_set_lab', v, s, self.rb(0, 100), self.rb(-100, 100), self.rb(-100, 100))
        return v

    # ---- resources
    def r_trgroup(self):
        c = self.newctx('trgroup')
        self.draw(c, self.r.randint(0, 4)) if self.depth() else None
        return self.fincommit(c)

    def r_form(self):
        c = self.newctx('form')
        if self.depth(): self.draw(c, self.r.randint(0, 4))
        return self.fincommit(c)

    def depth(self): return len([1 for c, g, k in self.ctxs if k != 'page']) <= 2

    def fincommit(self, c):
        i = next(i for i, x in enumerate(self.ctxs) if x[0] == c)
        n = len(self.ctxs)
        kind = self.ctxs[i][2]
        if self.chance(.3): self.call('dc_set_group_matrix', c, *self.matrix())
        if kind == 'trgroup' and self.chance(.5): self.call('dc_set_transparency_group_properties', c, self.tgprops())
        self.close(c)
        v = self.id(self.ADD[kind][0], self.ADD[kind][1], self.cur, c)
        if self.chance(.7):
            self.raw('dc_destroy', c); self.ctxs.pop(i)
        return v

    def r_gs(self):
        r = self.r; g = self.var('gs')
        self.raw('graphics_state_new', {'o': g})
        S = 'graphics_state_set_'
        for k in ('CA', 'ca', 'BM', 'op', 'OP', 'OPM', 'SMask', 'FL', 'HT', 'SM', 'AIS', 'TK', 'blackpoint_compensation'):
            if not self.chance(.3): continue
            if k in ('CA', 'ca'): self.call(S + k, g, self.unit())
            elif k == 'BM': self.call(S + k, g, r.randint(0, M.ENUMMAX['Blend_Mode']))
            elif k in ('op', 'OP', 'OPM', 'AIS', 'TK'): self.call(S + k, g, r.randint(0, 1))
            elif k == 'FL': self.call(S + k, g, self.rb(0, 100, 2))
            elif k == 'SM': self.call(S + k, g, self.rb(0, 1, 4))
            elif k == 'blackpoint_compensation': self.call(S + k, g, r.randint(0, 2))
            elif k == 'HT':
                if self.hts and self.chance(.3): self.call(S + k, g, r.choice(self.hts)); continue
                h = self.var('ht'); self.raw('halftone_new', {'o': h}); self.hts.append(h)
                if self.chance(.3): self.call('halftone_set_default', h)
                else: self.call('halftone_set_type1', h, self.num(), self.num(), r.randint(0, M.ENUMMAX['Halftone_Spot_Function']))
                self.call(S + k, g, h)
            elif k == 'SMask':
                s = self.some('SoftMaskId') or self.r_softmask()
                if s: self.call(S + k, g, s)
        return self.id('generator_add_graphics_state', 'G', self.cur, g)

    def r_softmask(self):
        t = self.some('TransparencyGroupId') or self.r_trgroup()
        if not t: return None
        s = self.var('sm')
        self.call('soft_mask_new', self.r.randint(0, 1), t, {'o': s})
        return self.id('generator_add_soft_mask', 'SM', self.cur, s)

    def r_function(self, cs=None, four=False):
        r = self.r; f = self.var('f')
        k = 4 if four else r.choice([2, 2, 2, 3, 4])
        dom = [0.0, 1.0] if self.chance(.7) else [round(r.uniform(-1, 0), 3), round(r.uniform(.1, 2), 3)]
        if k == 2:
            cs = r.randint(0, 2) if cs is None else cs
            c1, c2 = self.plaincolor(cs), self.plaincolor(cs if self.chance(.95) else r.randint(0, 2))
            self.call('type2_function_new', dom, 2, c1, c2, self.num(), {'o': f})
        elif k == 3:
            n = self.cnt(1, 3)
            fs = [self.some('FunctionId') or self.r_function(cs) for _ in range(n)]
            fs = [x for x in fs if x]
            if not fs: return None
            n = len(fs)
            b = sorted(self.rb(0, 1, p=.1) for _ in range(n - 1))
            self.call('type3_function_new', dom, 2, fs, n, b or [0.0], n - 1, [self.rb(0, 1, p=.4) for _ in range(2 * n)], 2 * n, {'o': f})
        else:
            rng = [0.0, 1.0] * (r.choice([1, 3, 4]) if self.cnt(0, 1) < 2 else 40)
            self.call('type4_function_new', dom, 2, rng, len(rng), *self.S(r.choice(['{ dup 0.5 mul exch }', '{}', '{ 1 exch sub dup dup %d }' % r.randint(0, 9)])), {'o': f})
        if f not in self.m.vars: return None
        return self.id('generator_add_function', 'F', self.cur, f)

    def r_shading(self):
        r = self.r; s = self.var('sh'); cs = r.randint(0, 2)
        k = r.choice([2, 3, 4, 6])
        if k in (2, 3):
            f = self.some('FunctionId')
            if f is None or self.chance(.3): f = self.r_function(cs) or f
            if not f: return None
            if k == 2: self.call('type2_shading_new', cs, self.num(), self.num(), self.num(), self.num(), f, {'o': s})
            else: self.call('type3_shading_new', cs, [self.num() for _ in range(6)], f, {'o': s})
            if s not in self.m.vars: return None
            if self.chance(.5): self.call('shading_set_extend', s, r.randint(0, 1), r.randint(0, 1))
            if self.chance(.5): self.call('shading_set_domain', s, self.num(), self.num())
        else:
            x1, y1, x2, y2 = self.rect()
            self.call('type%d_shading_new' % k, cs, x1, y1, x2, y2, {'o': s})
            if s not in self.m.vars: return None
            def pt():
                if self.chance(.06): return [self.num(), self.num()]
                return [r.choice([x1, x2, r.uniform(x1, x2)]), r.choice([y1, y2, r.uniform(y1, y2)])]
            def pts(n):
                o = []
                for _ in range(n): o += pt()
                return o
            def cols(n): return [self.plaincolor(cs if self.chance(.98) else r.randint(0, 2)) for _ in range(n)]
            for i in range(r.choice([1, 1, 2, 4] * 8 + [40, 100])):
                if k == 4:
                    if i == 0 or self.chance(.3): self.call('type4_shading_add_triangle', s, pts(3), cols(3))
                    else: self.call('type4_shading_extend', s, r.randint(1, 2), pts(1), cols(1)[0])
                elif i == 0 or self.chance(.8): self.call('type6_shading_add_patch', s, pts(12), cols(4))
                elif self.chance(.2): self.call('type6_shading_extend', s, r.randint(1, 3), pts(8), cols(2))
        return self.id('generator_add_shading', 'SH', self.cur, s)

    def r_pattern(self):
        if self.chance(.5):
            sh = self.some('ShadingId') or self.r_shading()
            if not sh: return None
            p = self.var('sp')
            self.call('shading_pattern_new', sh, {'o': p})
            if self.chance(.5): self.call('shading_pattern_set_matrix', p, *self.matrix())
            return self.id('generator_add_shading_pattern', 'P', self.cur, p)
        c = self.newctx('tiling')
        if self.depth(): self.draw(c, self.r.randint(0, 4))
        return self.fincommit(c)

    def r_lab(self):
        r = self.r
        return self.id('generator_add_lab_colorspace', 'LAB', self.cur, round(r.uniform(.1, 1.2), 4), 1.0, round(r.uniform(.1, 1.2), 4), *[round(v, 3) for v in (r.uniform(-128, -1), r.uniform(1, 127), r.uniform(-128, -1), r.uniform(1, 127))])

    def r_sep(self):
        f = self.r_function(four=True)
        if not f: return None
        return self.id('generator_add_separation', 'SEP', self.cur, *self.S(self.r.choice([self.word(), self.ascii(False)])), self.r.randint(0, 2), f)

    def iccfile(self, cs):
        return self.r.choice(MOREICC[cs]) if self.w.get('iccs') else ICC[cs]

    def iccvariant(self, d):
        """another valid profile of the same length and header: a letter of the copyright text differs"""
        k = d.find(b'cprt', 128, 600)
        if k < 0: return d
        off, ln = int.from_bytes(d[k + 4:k + 8], 'big'), int.from_bytes(d[k + 8:k + 12], 'big')
        p = [i for i in range(off + 28, min(off + ln, len(d))) if chr(d[i]).isalpha()]
        if not p: return d
        i = self.r.choice([p[0], p[-1]])
        return d[:i] + bytes([d[i] ^ 1 if chr(d[i] ^ 1).isalpha() else d[i] ^ 32]) + d[i + 1:]

    def file(self, name, data, spec=None):
        op = ['#file', name, data.decode('latin-1')] + ([spec] if spec else [])
        self.prog.append(op); self.m.files[name] = data; self.m.step(op)

    def query(self, im):
        for n in ('get_size', 'get_colorspace', 'has_profile'):
            if self.chance(.5): self.call('raster_image_' + n, im, *[{'o': self.var('q')} for _ in range(2 if n == 'get_size' else 1)])

    def convert(self, im):
        v = self.var('cv')
        if self.call('generator_convert_image', self.cur, im, self.r.randint(0, 2), self.r.randint(0, 3), {'o': v}): self.query(v); return v
        return im

    def imgprops(self, mask=False):
        p = self.var('ip'); self.raw('image_pdf_properties_new', {'o': p})
        if mask and self.chance(.9) or self.chance(.03): self.call('image_pdf_properties_set_mask', p, 1)
        if self.chance(.4): self.call('image_pdf_properties_set_interpolate', p, self.r.randint(0, 2))
        return p

    def r_fimage(self):
        """an image file, loaded by name, from memory or both"""
        import imggen
        r = self.r
        d, spec = imggen.any_file(r)
        name, kind = imggen.name(r, spec, len(self.prog))
        mode = r.choice('fmb')
        self.file(name, d, spec)
        ims = []
        if mode in 'fb':
            v = self.var('fi')
            if self.chance(.02): self.call('generator_load_image', self.cur, {'f': 'missing%d%s' % (r.randint(0, 99), r.choice(imggen.EXT[kind]))}, {'o': self.var('no')})
            if self.call('generator_load_image', self.cur, {'f': name}, {'o': v}) or spec['expect'] == 'either': ims.append(v)
        if mode in 'mb':
            v = self.var('fi')
            if self.raw('generator_load_image_from_memory', self.cur, {'b': d.decode('latin-1')}, len(d), {'o': v}) or spec['expect'] == 'either': ims.append(v)
        for v in ims:
            self.query(v)
            if self.chance(self.w.get('p_conv', .1)): v = self.convert(v)
            self.show(self.id('generator_add_image', 'IM', self.cur, v, self.imgprops(self.chance(.1))) or self.prog[-1][-1]['o'])

    def show(self, v):
        cand = [c for c in self.ctxs if c[1] == self.cur and c[2] == 'page']
        if not cand: self.newctx('page')
        cand = [c for c in self.ctxs if c[1] == self.cur and c[2] == 'page']
        if cand and self.chance(.85): self.raw('dc_cmd_Do_image', self.r.choice(cand)[0], v)

    def r_cimage(self):
        """samples converted to another space"""
        im, mask = self.rasterimage()
        self.query(im)
        v = self.convert(im)
        if self.chance(.2): v = self.convert(v)
        i = self.id('generator_add_image', 'IM', self.cur, v, self.imgprops(mask))
        if i: self.show(i)

    def r_iccmem(self):
        r = self.r; k = r.randint(0, 2)
        d = open(self.iccfile(k), 'rb').read()
        if self.chance(.35): d = self.iccvariant(d)
        bad = self.chance(.25)
        n = M.NCOMP[k]
        if bad:
            if self.chance(.4):
                s = r.choice([b'Lab ', b'XYZ ', b'HSV ', b'YCbr', b'CMY ', b'2CLR', b'3CLR', b'4CLR', b'5CLR', b'FCLR', b'GRAY', b'RGB ', b'CMYK', b'grey'])
                d = d[:16] + s + d[20:]; n = {b'GRAY': 1, b'CMYK': 4, b'4CLR': 4, b'2CLR': 2, b'5CLR': 5, b'FCLR': 15}.get(s, 3)
            elif self.chance(.5): n = r.choice([1, 3, 4, 0, 2, -1])
            else: d = r.choice([b"", r.randbytes(200), d[:r.choice([1, 40, 127])]])
        if self.chance(.5): return self.id('generator_add_icc_profile', 'ICC', self.cur, {'b': d.decode('latin-1')}, len(d), n)
        f = self.var('icc'); self.file(f, d)
        if bad and self.chance(.2): f += 'x'
        return self.id('generator_load_icc_profile', 'ICC', self.cur, {'f': f})

    def r_icc(self):
        return self.id('generator_load_icc_profile', 'ICC', self.cur, self.iccfile(self.r.choice(list(ICC))))

    def rasterimage(self, cs=None, good=True):
        r = self.r; b = self.var('b')
        self.raw('raster_image_builder_new', {'o': b})
        w, h = r.randint(1, 9), r.randint(1, 6)
        if self.chance(.02): w, h = r.choice([(100, 3), (1, 200), (257, 1), (40, 40)])
        if self.chance(self.w.get('p_bigimg', 0)): w, h = r.randint(1, 300), r.randint(1, 200)
        if self.chance(self.w.get('p_hugeimg', 0)): w, h = r.randint(500, 1300), r.randint(500, 900)
        cs = r.randint(0, 2) if cs is None else cs
        depth = r.choice([8, 8, 8, 16, 1, 2, 4]) if not self.chance(self.w.get('p_8bit', 0)) else 8
        mask = self.chance(.12)
        if mask: cs, depth = 1, 1
        P = 'raster_image_builder_'
        wrong = not good or self.chance(self.w.get('p_badsize', .04))
        calls = [[P + 'set_size', b, w, h]]
        if depth != 8 or self.chance(.3): calls.append([P + 'set_pixel_depth', b, depth])
        if cs != 0 or self.chance(.5): calls.append([P + 'set_colorspace', b, cs])
        n = M.rowbytes(w, M.NCOMP[cs], depth) * h
        bad = lambda n, c, d: max(0, r.choice([n - 1, n + 1, 0, 2 * n, n + 3, (w * h * c * d + 7) // 8, M.rowbytes(h, c, d) * w, w * h, w * h * 3, w * h * 4, n * 8, n // 3]))
        whatbad = r.choice('pppa') if wrong else ''
        if whatbad == 'p': n = bad(n, M.NCOMP[cs], depth)
        px = r.randbytes(n) if self.chance(.7) else (r.randbytes(r.choice([1, 2, 3, 7, 16])) * (n // 1 + 1))[:n]
        comp = self.chance(.15)
        if comp:
            px = zlib.compress(px, r.randint(0, 9)); calls.append([P + 'set_input_data_compression_format', b, 1])
        calls.append([P + 'set_pixel_data', b, {'b': px.decode('latin-1')}, len(px)])
        if self.chance(.35 if not mask else .05):
            ad = r.choice([8, 8, 8, 1, 2, 4, 16])
            calls.append([P + 'set_alpha_depth', b, ad])
            n = M.rowbytes(w, 1, ad) * h
            if whatbad == 'a': n = bad(n, 1, ad)
            al = r.randbytes(n)
            if comp: al = zlib.compress(al, r.randint(0, 9))
            calls.append([P + 'set_alpha_data', b, {'b': al.decode('latin-1')}, len(al)])
        if self.chance(.3): r.shuffle(calls)
        for c in calls: self.call(*c)
        im = self.var('im')
        self.call(P + 'build', b, {'o': im})
        return im, mask

    def r_image(self):
        im, mask = self.rasterimage()
        if self.chance(.1): self.query(im)
        i = self.id('generator_add_image', 'IM', self.cur, im, self.imgprops(mask if not self.chance(.03) else not mask))
        if i and self.chance(self.w.get('p_show', 0)): self.show(i)
        return i

    def r_ocg(self):
        o = self.var('oc')
        self.call('optional_content_group_new', {'o': o}, self.uni(False)) if self.perr == 0 else self.raw('optional_content_group_new', {'o': o}, self.uni(False))
        if o not in self.m.vars: return None
        return self.id('generator_add_optional_content_group', 'OC', self.cur, o)

    def r_struct(self):
        r = self.r
        par = self.some('StructureItemId') if self.chance(.6) else None
        x = None
        if self.chance(.4):
            x = self.var('ex'); self.raw('struct_item_extra_data_new', {'o': x})
            for k in ('t', 'alt', 'actual_text'):
                if self.chance(.5): self.call('struct_item_extra_data_set_' + k, x, *self.S(self.uni()))
            if self.chance(.4): self.call('struct_item_extra_data_set_lang', x, *self.S(self.ascii()))
        if self.chance(.2):
            ro = self.some('RoleId')
            if ro is None or self.chance(.4):
                nm = r.choice([self.word() + str(r.randint(0, 99)), self.ascii(False).lstrip('/') or 'z'])
                if nm[:1] == '/' or not nm: nm = 'zz'
                ro = self.id('generator_add_rolemap_entry', 'RO', self.cur, *self.S(nm), r.randint(0, M.ENUMMAX['Structure_Type'])) or ro
            if ro: return self.id('generator_add_custom_structure_item', 'ST', self.cur, ro, [par] if par else None, x)
        return self.id('generator_add_structure_item', 'ST', self.cur, r.randint(0, M.ENUMMAX['Structure_Type']), [par] if par else None, x)

    def r_embed(self):
        r = self.r; e = self.var('ef')
        self.raw('embedded_file_new', {'o': e})
        if self.chance(.25):
            fn = self.word() + r.choice(['.txt', '', '.x y'])
            data = r.randbytes(r.randint(0, 80))
            self.prog.append(['#file', fn, data.decode('latin-1')]); self.m.files[fn] = data; self.m.pos += 1
            self.call('embedded_file_load_file', e, {'f': fn})
        else:
            data = r.randbytes(r.choice([0, 1, 5, 50, 300])) if self.chance(.7) else b'text %d\n' % r.randint(0, 9) * r.randint(1, 50)
            if self.chance(self.w.get('p_bigembed', .003)):       # around the sizes of buffers
                n = r.choice([4096, 1 << 16, 1 << 20, 1 << 20, 2 << 20]) + r.choice([-1, 0, 0, 1])
                data = r.randbytes(n) if self.chance(.5) else (r.randbytes(r.randint(1, 900)) * n)[:n]
            tail = b'\0tail' if self.chance(.2) else b''
            if b'\0' not in data and self.chance(.2): self.call('embedded_file_set_contents', e, {'b': data.decode('latin-1')}, -1)
            else: self.call('embedded_file_set_contents', e, {'b': (data + tail).decode('latin-1')}, len(data))
        if self.chance(.85): self.call('embedded_file_set_pdf_name', e, *self.S(r.choice([self.uni(False), self.word() + '.txt', r.choice('abcXYZ')])))
        if self.chance(.5): self.call('embedded_file_set_subtype', e, *self.S(r.choice(['text/plain', 'application/xml', 'image/svg+xml', self.ascii(False)])))
        return self.id('generator_embed_file', 'EF', self.cur, e)

    def dest(self):
        r = self.r; d = self.var('de')
        self.raw('destination_new', {'o': d})
        npg = max(1, self.w.get('npages', 4))
        pn = r.randrange(npg)
        if self.chance(.05): return d
        if self.chance(.4): self.call('destination_set_page_fit', d, pn)
        else: self.call('destination_set_page_xyz', d, pn, *[[self.num()] if self.chance(.7) else None for _ in range(3)])
        return d

    def r_outline(self):
        o = self.var('ol'); r = self.r
        self.raw('outline_new', {'o': o})
        self.call('outline_set_title', o, *self.S(self.uni(self.chance(.1))))
        if self.chance(.5): self.call('outline_set_destination', o, self.dest())
        if self.chance(.3): self.call('outline_set_C', o, self.unit(), self.unit(), self.unit())
        if self.chance(.3): self.call('outline_set_F', o, r.choice([0, 1, 2, 3]))
        if self.chance(.6):
            p = self.some('OutlineId')
            if p: self.call('outline_set_parent', o, p)
        return self.id('generator_add_outline', 'OL', self.cur, o)

    def r_annot(self):
        r = self.r; a = self.var('an')
        k = r.choice(['text', 'link', 'link', 'line', 'file', 'widget', 'widget', 'printer', '3d'])
        if k == 'text': self.call('text_annotation_new', *self.S(self.uni()), {'o': a})
        elif k == 'link': self.call('link_annotation_new', {'o': a})
        elif k == 'line': self.call('line_annotation_new', *self.S(self.uni()), self.num(), self.num(), self.num(), self.num(), {'o': a})
        elif k == 'file':
            e = self.some('EmbeddedFileId') or self.r_embed()
            if not e: return None
            self.call('file_attachment_annotation_new', e, {'o': a})
        elif k == 'printer':
            e = self.some('FormXObjectId') or self.r_form()
            if not e: return None
            self.call('printers_mark_annotation_new', e, {'o': a})
        elif k == '3d':
            d3 = self.some('3DStreamId')
            if d3 is None or self.chance(.5): d3 = self.r_3d() or d3
            if not d3: return None
            self.call('3d_annotation_new', {'o': a})
            if self.chance(.95): self.call('annotation_set_3d_stream', a, d3)
        else: self.call('widget_annotation_new', {'o': a})
        if a not in self.m.vars: return None
        if self.chance(.97): self.call('annotation_set_rectangle', a, *self.rect())
        if self.chance(.5): self.call('annotation_set_flags', a, self.bits(10))
        if k == 'link':
            if self.chance(.5): self.call('annotation_set_uri', a, *self.S(r.choice(['https://example.com/a?b=(c)', self.ascii()])))
            if self.chance(.5): self.call('annotation_set_destination', a, self.dest())
        if k == 'line':
            if self.chance(.5): self.call('annotation_set_line_leader', a, self.num(), self.num())
            if self.chance(.5): self.call('annotation_set_line_endings', a, r.randint(0, M.ENUMMAX['Line_Annotation_End_Style']), r.randint(0, M.ENUMMAX['Line_Annotation_End_Style']))
        if k == 'widget':
            f = self.some('FormFieldId') or self.r_field()
            if f and self.chance(.85): self.call('annotation_set_parent_field', a, f)
            if self.chance(.5):
                on = self.some('FormXObjectId') or self.r_form(); off = self.some('FormXObjectId')
                if on and off: self.call('annotation_set_widget_button_appearance', a, on, off, *self.S(r.choice(['Yes', self.word() + 'q', self.uni(False)])))
        elif self.chance(.05): self.call('annotation_set_line_leader', a, 1.0, 2.0)
        return self.id('generator_add_annotation', 'AN', self.cur, a)

    def r_3d(self):
        r = self.r
        fn = self.word() + '.u3d'; data = r.randbytes(r.randint(1, 60))
        self.prog.append(['#file', fn, data.decode('latin-1')]); self.m.files[fn] = data; self.m.pos += 1
        s = self.var('d3')
        self.call('3d_stream_new', {'f': fn}, r.randint(0, 1), {'o': s})
        if s not in self.m.vars: return None
        return self.id('generator_add_3d_stream', 'D3', self.cur, s)

    def bits(self, n):
        r = self.r; k = r.random()
        if k < .6: return 1 << r.randrange(n)
        if k < .7: return 0
        if k < .8: return (1 << n) - 1
        return r.getrandbits(n)

    def r_field(self):
        r = self.r; f = self.var('ff'); t = r.randint(0, M.ENUMMAX['Form_Field_Type'])
        self.call('form_field_new', t, {'o': f})
        if f not in self.m.vars: return None
        if self.chance(.8): self.call('form_field_set_T', f, *self.S(self.uni()))
        if self.chance(.4): self.call('form_field_set_Ff', f, self.bits(27))
        if self.chance(.5): self.call('form_field_set_V', f, *self.S(self.uni(False).lstrip('/') or 'v'))
        if t == 2:
            for _ in range(self.cnt(0, 3)): self.call('form_field_add_Opt_entry', f, *self.S(self.uni()))
        if self.chance(.4):
            p = self.some('FormFieldId')
            if p: self.call('form_field_set_parent', f, p)
        return self.id('generator_add_form_field', 'FF', self.cur, f)

    def r_collection(self):
        r = self.r
        if self.colls and self.chance(.5): self.call('generator_set_collection', self.cur, r.choice(self.colls)); return
        c = self.var('cl')
        self.colls.append(c)
        self.raw('collection_new', {'o': c})
        if self.chance(.5): self.call('collection_set_D', c, *self.S(self.ascii()))
        if self.chance(.7): self.call('collection_set_view', c, r.randint(0, M.ENUMMAX['Collection_View']))
        if self.chance(.8):
            s = self.var('cs'); self.raw('collection_schema_new', {'o': s})
            for _ in range(self.cnt(0, 4)):
                f = self.var('cf')
                if not self.call('collection_field_new', r.randint(0, M.ENUMMAX['Collection_Subtype']), *self.S(self.uni()), {'o': f}): continue
                if self.chance(.5): self.call('collection_field_set_O', f, r.randint(0, 9))
                if self.chance(.5): self.call('collection_field_set_V', f, r.randint(0, 1))
                if self.chance(.5): self.call('collection_field_set_E', f, r.randint(0, 1))
                k = r.choice([self.word() + 'k', self.ascii(False)])
                if k in ('Type',) or k[:1] == '/': k = 'Tt'
                self.call('collection_schema_add_entry', s, *self.S(k), f)
            self.call('collection_set_schema', c, s)
            self.schemas.append(s)
        elif self.schemas and self.chance(.5): self.call('collection_set_schema', c, r.choice(self.schemas))
        self.call('generator_set_collection', self.cur, c)

    def r_label(self):
        r = self.r
        last = self.m.vars[self.cur].labels
        st = (last[-1][0] if last else 0) + r.choice([0, 1, 1, 2, 5])
        if last and st == last[-1][0]: st += 1
        if not last and self.chance(.7): st = 0
        p = self.S(self.uni()) if self.chance(.6) else [None, -1]
        self.call('generator_add_page_labeling', self.cur, st, [r.randint(0, 4)] if self.chance(.8) else None, p[0], p[1], [r.choice([1, 2, 5, 100])] if self.chance(.6) else None)
        if self.chance(.15) and st > 0: self.call('generator_add_page_labeling', self.cur, st - r.randint(0, 1), None, None, -1, None)

    # ---- text
    def xmp(self):
        r = self.r
        pr = '<pdf:Producer>CapyPDF%s</pdf:Producer>' % r.choice(['', ' 0.1', ' ' + self.word()])
        if self.perr and self.chance(.1): pr = r.choice(['', '<pdf:Producer>Capy</pdf:Producer>', '<pdf:producer>CapyPDF</pdf:producer>', '<pdf:Producer> CapyPDF</pdf:Producer>'])
        if self.chance(.2): return pr or 'x'
        t = ['<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>', '\r\n', '\n', '<x:xmpmeta xmlns:x="adobe:ns:meta/">', '<!-- ' + self.uni() + ' -->', 'endstream endobj', pr, '</x:xmpmeta>', '   ' * r.randint(0, 60),
             '<?xpacket end="w"?>', '\n' * r.randint(0, 3)]
        return ''.join(x for x in t if x == pr or self.chance(.8))

    def r_font(self):
        r = self.r
        fl = self.w.get('fonts') or SMALLFONTS
        path = r.choice(fl); d = None
        if self.chance(self.w.get('p_genfont', 0)):
            import fontgen
            d, kind = fontgen.any_font(r)
            name = self.var('fnt') + (r.choice(['.ttf', '.otf', '', '.ttc']) if kind != 'seac' else 'seac.otf'); self.file(name, d)
            path = {'f': name}
        props = None
        if self.chance(self.w.get('p_fontprop', 0)):
            d = d or open(path, 'rb').read()
            props = self.var('fp')
            self.raw('font_properties_new', {'o': props})
            n = int.from_bytes(d[8:12], 'big') if d[:4] == b'ttcf' else 1
            sub = r.randrange(n)
            if sub or self.chance(.1): self.call('font_properties_set_subfont', props, sub)
            if self.perr and self.chance(.1): sub = r.choice([n, n + 1, 65535, -1]); self.call('font_properties_set_subfont', props, sub)
            tags = ftlib.axistags(d, sub) if 0 <= sub < n else []
            if tags and self.chance(.4) or self.chance(.02): self.call('font_properties_set_named_instance', props, r.choice([0, 1, 2, 3, 1]) if self.chance(.95) else r.choice([50, 1 << 20]))
            if tags:
                for t in r.sample(tags, r.randint(0, len(tags))):
                    v = r.choice([r.randint(-100, 100), r.randint(-1000, 3000), 0, 100, 400, 700, 32767, 32768, -32768, 65536, 1 << 30, -(1 << 31), (1 << 31) - 1])
                    self.call('font_properties_set_variation', props, *self.S(t.decode('latin-1')), v)
            if self.chance(.03): self.call('font_properties_set_variation', props, *self.S(r.choice(['nope', 'wgh', 'wghtt', 'WGHT', ''])), 5)
        i = self.id('generator_load_font', 'FO', self.cur, path, props)
        if props and self.chance(.3): self.raw('font_properties_destroy', props)
        return i

    def font(self):
        f = self.some('FontId')
        if f is None or self.chance(.12): f = self.r_font() or f
        return f

    def fonttext(self, f, n=None):
        ent = self.m.vars[f].ent
        cm = chars(ent)
        if n is None and self.chance(self.w.get('p_long', 0)):
            n = min(self.r.choice([40, 60, 120, 300, 600, 3000]), len(cm))
            return ''.join(map(chr, self.r.sample(cm, n)))
        n = n or self.r.choice([1, 2, 4, 7])
        if self.chance(.45): t = ''.join(self.r.choice('AVTo fiWA.y,') for _ in range(n))
        else: t = ''.join(chr(self.r.choice(cm)) for _ in range(n))
        t = ''.join(ch for ch in t if ent.face.gid(ord(ch))) or chr(cm[0])
        if self.chance(.04): t += self.r.choice(['\ue123', '\U0010fffd', '\u0378'])
        return t

    def d_text(self, c):
        f = self.font()
        if f: self.call('dc_render_text', c, *self.S(self.fonttext(f)), f, self.ptsize(), self.num(), self.num())

    def edgecp(self): return self.r.choice([1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x10fc00, 0x10ffff])
    def ptsize(self): return round(self.r.uniform(1, 40), 2) if self.chance(.85) else self.r.choice([0.0, 1.0, 12.0, 100.0, 0.25, -12.0, self.num()])
    def badcp(self): return self.r.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x110041, 0x10ffff, 2 ** 32 - 1, self.r.randrange(0xd800, 0xe000)])

    def seq(self, f):
        r = self.r; s = self.var('ts')
        self.raw('text_sequence_new', {'o': s})
        ent = self.m.vars[f].ent
        cm = chars(ent)
        P = 'text_sequence_append_'
        for _ in range(self.cnt(0, 6)):
            k = r.choice(['cp', 'str', 'kern', 'kern', 'at', 'gid', 'lig'])
            if k == 'cp': self.call(P + 'codepoint', s, r.choice(cm) if self.chance(.97) else r.choice([0xe123, 0xe123, self.badcp()]))
            elif k == 'str': self.call(P + 'string', s, *self.S(self.fonttext(f)))
            elif k == 'kern': self.call(P + 'kerning', s, r.choice([r.randint(-500, 500), 0, 1, -1]))
            elif k == 'at':
                o = self.m.vars[s]
                if o.at and self.chance(.9): self.call(P + 'actualtext_end', s)
                elif not o.at or self.chance(.1): self.call(P + 'actualtext_start', s, *self.S(self.uni()))
            elif self.w.get('gids', True):
                g = r.randrange(1, min(ent.face.num_glyphs, 400)) if self.chance(.96) else r.choice([0, 65535, ent.face.num_glyphs, ent.face.num_glyphs - 1])
                if k == 'gid': self.call(P + 'raw_glyph', s, g, r.choice(cm) if self.chance(.85) else self.edgecp() if self.chance(.7) else self.badcp())
                else: self.call(P + 'ligature_glyph', s, g, *self.S(self.word() if self.chance(.6) else self.uni(False)))
        if self.m.vars[s].at and self.chance(.95): self.call(P + 'actualtext_end', s)
        return s

    def d_textobj(self, c):
        r = self.r; t = self.var('tx')
        self.call('dc_text_new', c, {'o': t})
        if t not in self.m.vars: return
        f = None; mc = False
        n = self.cnt(0, 8)
        for _ in range(n):
            k = r.choice(['Tf', 'Tj', 'Tj', 'TJ', 'op', 'op', 'state', 'color', 'bdc', 'gs', 'd'])
            if k == 'Tf' or (k in ('Tj', 'TJ') and f is None and self.chance(.96)):
                f = self.font()
                if f: self.call('text_cmd_Tf', t, f, self.ptsize())
            if f and k == 'Tj': self.call('text_cmd_Tj', t, *self.S(self.fonttext(f)))
            elif f and k == 'TJ': self.call('text_cmd_TJ', t, self.seq(f))
            elif k == 'op':
                o = r.choice(['Tc', 'Td', 'TD', 'TL', 'Tm', 'w', 'M', 'Tstar'])
                a = [self.num() for _ in range(len(M.SPEC['text_cmd_' + o]) - 1)]
                if o == 'w' and not (self.perr and self.chance(.05)): a = [abs(a[0])]
                self.call('text_cmd_' + o, t, *a)
            elif k == 'state':
                o = r.choice([('Tr', 7), ('j', 2), ('J', 2)])
                self.call('text_cmd_' + o[0], t, r.randint(0, o[1]))
            elif k == 'color': self.call(r.choice(['text_set_stroke', 'text_set_nonstroke']), t, self.color())
            elif k == 'gs':
                g = self.some('GraphicsStateId') or self.r_gs()
                if g: self.call('text_cmd_gs', t, g)
            elif k == 'd':
                a = [abs(self.num()) for _ in range(self.cnt(1, 3))]
                if self.perr and self.chance(.05): a[-1] = -1.5
                self.call('text_cmd_d', t, a, len(a), self.num())
            elif k == 'bdc':
                if mc and self.chance(.85): self.call('text_cmd_EMC', t); mc = False
                else:
                    s = self.some('StructureItemId') or self.r_struct()
                    if s and ('mc' not in self.O(c).stack or self.chance(.1)): self.call('text_cmd_BDC_builtin', t, s); mc = True
        if mc and self.chance(.95): self.call('text_cmd_EMC', t)
        self.call('dc_render_text_obj', c, t)
        if self.chance(.1): self.call('dc_render_text_obj', c, t)
        if self.chance(.7): self.raw('text_destroy', t)

    # ---- many of a kind
    def burst(self):
        """one thing so often that it fills more than one line, block, byte or node of anything"""
        r = self.r; n = r.choice([33, 40, 70, 130, 270]) if self.chance(.97) else 700
        pages = [c for c, g, k in self.ctxs if g == self.cur and k == 'page']
        if not pages: self.newctx('page'); pages = [self.ctxs[-1][0]]
        c = r.choice(pages); k = r.choice(['annot', 'struct', 'nav', 'vp', 'draw', 'draw', 'draw', 'step', 'step', 'step', 'step', 'pages', 'dash', 'kids', 'nest', 'use', 'use', 'use'])
        if c not in self.m.vars: return
        if k == 'annot':
            for _ in range(min(n, 130)):
                a = self.r_annot()
                if a and self.chance(.9): self.call('dc_annotate', c, a)
        elif k in ('struct', 'kids'):
            par = self.some('StructureItemId')
            for _ in range(n):
                s = self.id('generator_add_structure_item', 'ST', self.cur, r.randint(0, M.ENUMMAX['Structure_Type']), [par] if par and k == 'kids' else None, None)
                if s and 'mc' not in self.O(c).stack and self.chance(.9):
                    if self.call('dc_cmd_BDC_builtin', c, s, None): self.raw('dc_cmd_EMC', c)
        elif k == 'nav':
            o = []
            for _ in range(min(n, 70)):
                v = self.r_ocg()
                if v and 'mc' not in self.O(c).stack and self.call('dc_cmd_BDC_ocg', c, v): self.raw('dc_cmd_EMC', c); o.append(v)
            if o and self.chance(.7): self.call('dc_add_simple_navigation', c, o, len(o), self.transition() if self.chance(.6) else None)
        elif k == 'vp':
            for _ in range(min(n, 70)): self.call('dc_append_viewport', c, self.viewport())
        elif k == 'draw':
            d = r.choice(list(self.w.get('draw', self.DRAW)))
            for _ in range(min(n, 130)): getattr(self, 'd_' + d)(c)
        elif k == 'dash':
            a = [abs(self.num()) for _ in range(n)]
            self.call('dc_cmd_d', c, a, n, self.num())
        elif k == 'nest':
            n = min(n, 130)
            for _ in range(n): self.raw('dc_cmd_q', c)
            self.draw(c, 2)
            for _ in range(n): self.call('dc_cmd_Q', c)
        elif k == 'pages':
            tag = self.chance(.5)
            for _ in range(min(n, 130)):
                v = self.var('c'); self.raw('page_draw_context_new', self.cur, {'o': v}); self.call('dc_cmd_w', v, abs(self.num()))
                if tag:
                    s = self.id('generator_add_structure_item', 'ST', self.cur, r.randint(0, M.ENUMMAX['Structure_Type']), None, None)
                    if s and self.call('dc_cmd_BDC_builtin', v, s, None): self.raw('dc_cmd_EMC', v)
                self.raw('generator_add_page', self.cur, v); self.raw('dc_destroy', v)
        elif k == 'use':          # many different resources of one kind, each used here
            mk, base, op = r.choice([('r_image', 'ImageId', 'dc_cmd_Do_image'), ('r_gs', 'GraphicsStateId', 'dc_cmd_gs'), ('r_shading', 'ShadingId', 'dc_cmd_sh'), ('r_trgroup', 'TransparencyGroupId', 'dc_cmd_Do_trgroup'),
                                     ('r_pattern', 'PatternId', 'color_set_pattern'), ('r_sep', 'SeparationId', 'color_set_separation'), ('r_lab', 'LabColorSpaceId', 'color_set_lab'), ('r_ocg', 'OptionalContentGroupId', 'dc_cmd_BDC_ocg'),
                                     ('r_font', 'FontId', 'dc_render_text')])
            for _ in range(min(n, 40 if mk != 'r_font' else 33)): getattr(self, mk)()
            for v in list(self.bykind.get((self.cur, base), []))[-130:]:
                if op == 'dc_cmd_BDC_ocg':
                    if 'mc' not in self.O(c).stack and self.call(op, c, v): self.raw('dc_cmd_EMC', c)
                elif op == 'dc_render_text': self.call(op, c, *self.S(self.fonttext(v)), v, self.ptsize(), self.num(), self.num())
                elif op.startswith('color_'):
                    co = self.var('co'); self.raw('color_new', {'o': co})
                    if op == 'color_set_pattern': self.call(op, co, v)
                    elif op == 'color_set_separation': self.call(op, co, v, self.rb(0, 1, 5))
                    else: self.call(op, co, v, self.rb(0, 100), self.rb(-100, 100), self.rb(-100, 100))
                    self.call(r.choice(['dc_set_stroke', 'dc_set_nonstroke']), c, co)
                else: self.call(op, c, v)
        else:
            s = r.choice([x for x in self.w.get('steps', self.STEPS) if x not in ('draw', 'newpage', 'commit')] or ['gs'])
            if s in ('fimage', 'cimage', 'iccmem', 'font', 'icc', 'image', 'collection'): n = min(n, 40)
            for _ in range(n):
                if s == 'width': break
                getattr(self, 'r_' + s)()

    # ---- near duplicates
    def twin(self):
        """something added before is built and added again, the same or with one difference: nothing may be mixed up because of what is the same"""
        r = self.r; P = self.prog
        adds = [i for i, op in enumerate(P) if op[0].startswith(('generator_add_', 'generator_load_font', 'generator_load_icc', 'generator_embed_file')) and len(op) > 2 and op[1] == self.cur and isinstance(op[-1], dict) and 'o' in op[-1]
                and op[0] not in ('generator_add_tiling_pattern', 'generator_add_transparency_group', 'generator_add_form_xobject')]
        if not adds: return
        i = r.choice(adds[-12:])
        made = {}
        for j in range(i):
            op = P[j]
            for a in op[1:]:
                if isinstance(a, dict) and 'o' in a: made[a['o']] = j
        def used(op):
            for a in op[1:]:
                for x in (a if isinstance(a, list) else [a]):
                    if isinstance(x, str) and x in made: yield x
        clone = {}; todo = list(used(P[i]))
        while todo:
            v = todo.pop()
            c = P[made[v]][0]
            if v in clone or c.startswith('generator_') and c not in ('generator_load_image', 'generator_convert_image') or c.endswith('context_new'): continue
            clone[v] = self.var('tw')
            for j in range(made[v], i):
                op = P[j]
                if j == made[v] or len(op) > 1 and op[1] == v and not op[0].startswith('generator_'): todo += used(op)
        ops = [j for j in range(i) if any(made[v] == j for v in clone) or len(P[j]) > 1 and isinstance(P[j][1], str) and P[j][1] in clone and not P[j][0].startswith('generator_')]
        ops = [j for j in ops if not any(x in P[j][0] for x in ('_destroy', '_get_', '_has_'))] + [i]
        if len(ops) > 60 or sum(len(str(P[j])) for j in ops) > 200000: return
        ren = {}
        def rn(x):
            if isinstance(x, list): return [rn(y) for y in x]
            if isinstance(x, dict) and 'o' in x:
                v = x['o']
                if v not in clone and v not in ren: ren[v] = self.var('tw')
                return {'o': clone.get(v) or ren[v]}
            return clone.get(x, x) if isinstance(x, str) else x
        new = [(j, [P[j][0]] + [rn(a) for a in P[j][1:]]) for j in ops]
        if self.chance(.75) and not any('compression' in op[0] for _, op in new):
            cand = []
            for n, (j, op) in enumerate(new):
                spec = M.SPEC.get(op[0])
                if not spec: continue
                if not any(isinstance(a, dict) and 'o' in a for a in op[1:]): cand.append((n, None))
                for k, (kind, base, an) in enumerate(spec):
                    if k + 1 >= len(op): break
                    a = op[k + 1]
                    if kind == 'f' or kind == 'pf' and isinstance(a, list) and a and an not in ('domain', 'range', 'bounds'): cand += [(n, k)] * 2
                    elif kind == 'e' and M.ENUMMAX.get(base): cand += [(n, k)] * 2
                    elif kind == 'id' or kind == 'i' and an in ('value', 'I', 'K', 'is_opaque', 'as_mask', 'starting', 'ending'): cand += [(n, k)] * 2
                    elif kind == 'str' and isinstance(a, str) and len(a) and a.isascii() and 'generator_load' not in op[0]: cand += [(n, k)] * 3
                    elif kind == 'str' and isinstance(a, dict) and 'b' in a and 'data' in op[0] and len(a['b']): cand += [(n, k)] * 3
                    elif kind == 'h' and k > 0 and isinstance(a, str) and op[0].startswith('generator_load_font'): cand += [(n, k)] * 5
            if cand:
                n, k = r.choice(cand); op = new[n][1]
                if k is None: del new[n]
                else:
                    kind, base, an = M.SPEC[op[0]][k]; a = op[k + 1]
                    if kind == 'f': a = self.num() if self.chance(.5) else a + 1
                    elif kind == 'pf': a = list(a); a[r.randrange(len(a))] = self.unit() if self.chance(.5) else self.num()
                    elif kind == 'e': a = r.randint(0, M.ENUMMAX[base])
                    elif kind == 'i': a = 1 - a if a in (0, 1) else a
                    elif kind == 'id': a = self.some(base) or a
                    elif kind == 'h': a = None
                    elif isinstance(a, dict):
                        q = r.randrange(len(a['b'])); a = {'b': a['b'][:q] + chr(r.randrange(256)) + a['b'][q + 1:]}
                    else:
                        q = r.randrange(len(a)); a = a[:q] + r.choice('abzAZ') + a[q + 1:]
                    op[k + 1] = a
        for j, op in new[:-1]:
            self.raw(*op)
            if any(isinstance(a, dict) and 'o' in a and a['o'] not in self.m.vars for a in op[1:]): return
        op = new[-1][1]
        if op[0].startswith('generator_') and isinstance(op[-1], dict): self.id(op[0], 'tw', *op[1:-1])

    # ---- whole histories
    STEPS = dict(draw=30, newpage=3, commit=3, ocg=.6, struct=1, embed=.5, outline=1, annot=1.2, field=.5, label=.3, collection=.1, form=.5, gs=.8, shading=.6,
                 pattern=.4, image=.8, icc=.3, lab=.3, sep=.3, width=.5, function=.3, softmask=.2)

    def step(self):
        st = self.w.get('steps', self.STEPS)
        k = self.r.choices(list(st), list(st.values()))[0]
        if k == 'draw':
            cand = [c for c in self.ctxs if c[1] == self.cur]
            if not cand: self.newctx('page'); return
            self.draw(self.r.choice(cand)[0], self.r.randint(1, 5))
        elif k == 'newpage':
            if len(self.ctxs) < 4: self.newctx(self.r.choices(['page', 'form', 'trgroup', 'tiling'], [6, 1, 1, 1])[0])
        elif k == 'commit':
            cand = [i for i, c in enumerate(self.ctxs) if c[1] == self.cur]
            if cand: self.commit(self.r.choice(cand))
        elif k == 'width':
            f = self.font()
            if f: self.call('generator_text_width', self.cur, *self.S(self.fonttext(f)), f, self.r.choice([round(self.r.uniform(1, 40), 2)] * 3 + [1.0, 0.0, -12.0, self.r.uniform(0, 1), self.r.uniform(-1000, 1000), 10 ** self.r.uniform(-3, 9)]), {'o': self.var('w')})
        else: getattr(self, 'r_' + k)()

    def finish(self, g, fname):
        self.cur = g
        for i in reversed(range(len(self.ctxs))):
            if self.ctxs[i][1] != g: continue
            c, _, kind = self.ctxs[i]
            if kind == 'page' and self.chance(.9):
                self.close(c); self.pageattrs(c); self.call('generator_add_page', g, c)
        gen = self.m.vars[g]
        maxd = max([e.dest.page for e in gen.of('outline') if e.dest] + [e.a.dest.page for e in gen.of('annot') if getattr(e.a, 'dest', None)] + [0])
        while not gen.pages or (len(gen.pages) <= maxd and self.chance(.98)):
            c = self.var('c'); self.raw('page_draw_context_new', g, {'o': c}); self.draw(c, 1); self.close(c)
            if not self.raw('generator_add_page', g, c): break
        self.raw('generator_write', g)
        self.prog.append(['#read', fname]); self.m.pos += 1
        if self.chance(.05): self.raw('generator_write', g)

    def mega(self):
        r = self.r
        if self.chance(.4):       # offsets beyond 24 bits
            e = self.var('ef')
            self.raw('embedded_file_new', {'o': e})
            data = r.randbytes((17 << 20) + r.randint(0, 999))
            self.raw('embedded_file_set_contents', e, {'b': data.decode('latin-1')}, len(data))
            self.raw('embedded_file_set_pdf_name', e, 'big', -1)
            self.id('generator_embed_file', 'EF', self.cur, e)
        else:                     # object numbers beyond 16 bits
            o = self.var('oc')
            self.raw('optional_content_group_new', {'o': o}, 'group')
            for _ in range(r.randint(65600, 67000)): self.raw('generator_add_optional_content_group', self.cur, o, {'o': self.var('OC')})

    def document(self, steps=None):
        r = self.r
        if self.chance(self.w.get('p_locale', .12)): self.prog.append(['#locale', 'de_DE.UTF-8']); self.m.pos += 1
        if self.w.get('debug', .3) > r.random(): self.prog.append(['#env', 'CAPY_DEBUG_PDF', '1']); self.m.pos += 1
        self.newdoc()
        n = steps or r.choice(self.w.get('sizes', [3, 8, 15, 30, 60]))
        if self.chance(self.w.get('p_mega', 0)): self.mega()
        if self.chance(.8): self.newctx('page')
        for _ in range(n):
            self.step()
            if self.chance(self.w.get('p_twin', .06)): self.twin()
            if self.chance(self.w.get('p_burst', .0015)): self.burst()
        self.finish(*self.gens[0])
        return self.prog


def chars(ent):
    f = ent.face
    if not hasattr(f, '_chars'):
        cm = [c for c in sorted(f.charmap()) if c >= 32 and not 0xd800 <= c < 0xe000 and c < 0x110000]
        f._chars = cm[:2500] or [65]
    return f._chars


ASCIIFN = {'document_properties_set_language', 'embedded_file_set_subtype', 'struct_item_extra_data_set_lang', 'annotation_set_uri', 'generator_add_separation',
           'bdc_tags_add_tag', 'collection_schema_add_entry', 'dc_cmd_BDC_testing'}
NAMEFN = {'annotation_set_widget_button_appearance'}
RANGED = {'graphics_state_set_FL', 'graphics_state_set_SM', 'dc_cmd_i', 'color_set_separation'}
