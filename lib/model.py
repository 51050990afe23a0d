"""Executable model of the C API: what every call must return and what the written document must contain.

The model interprets the same program the library executes.  It holds no code of the library; the tables
are written from the PDF specification and the names of the enumeration constants."""
import math, json, os, re
import ftlib

HERE = os.path.dirname(os.path.abspath(__file__))
_J = json.load(open(os.path.join(HERE, 'api.json')))
SPEC, ENUMS = _J['api'], _J['enums']
ENUMMAX = {k: max(v for _, v in e) for k, e in ENUMS.items()}
ENUMMAX['Structure_Type'] = dict(ENUMS['Structure_Type'])['CAPY_STRUCTURE_TYPE_ARTIFACT']
FMAX = 3.4e38


def camel(name, prefix, special={}):
    n = name[len(prefix):]
    return special.get(n, ''.join(p.capitalize() for p in n.split('_')))


STRUCT = {}
for _n, _v in ENUMS['Structure_Type']:
    STRUCT[_v] = camel(_n, 'CAPY_STRUCTURE_TYPE_', {
        'NONSTRUCT': 'NonStruct', 'FENOTE': 'FENote', 'BLOCKQUOTE': 'BlockQuote', 'BIBENTRY': 'BibEntry', 'TOC': 'TOC', 'TOCI': 'TOCI', 'TR': 'TR', 'TH': 'TH', 'TD': 'TD',
        'THEAD': 'THead', 'TBODY': 'TBody', 'TFOOT': 'TFoot', 'RB': 'RB', 'RT': 'RT', 'RP': 'RP', 'WT': 'WT', 'WP': 'WP', 'LI': 'LI', 'LBODY': 'LBody'})
BLEND = {v: camel(n, 'CAPY_BM_', {'COLORDODGE': 'ColorDodge', 'COLORBURN': 'ColorBurn', 'HARDLIGHT': 'HardLight', 'SOFTLIGHT': 'SoftLight'}) for n, v in ENUMS['Blend_Mode']}
SPOT = {v: camel(n, 'CAPY_HT_FUNC_', {}) for n, v in ENUMS['Halftone_Spot_Function']}
_SP = {'SIMPLEDOT': 'SimpleDot', 'DOUBLEDOT': 'DoubleDot', 'COSINEDOT': 'CosineDot', 'LINEX': 'LineX', 'LINEY': 'LineY', 'ELLIPSEA': 'EllipseA',
       'ELLIPSEB': 'EllipseB', 'ELLIPSEC': 'EllipseC'}
for _n, _v in ENUMS['Halftone_Spot_Function']:
    _b = _n[len('CAPY_HT_FUNC_'):]; _i = _b.startswith('INVERTED_')
    if _i: _b = _b[9:]
    SPOT[_v] = ('Inverted' if _i else '') + _SP.get(_b, _b.capitalize())
TRANS = {v: camel(n, 'CAPY_TR_') for n, v in ENUMS['Transition_Type']}
LAYOUT = {v: camel(n, 'CAPY_PAGE_LAYOUT_') for n, v in ENUMS['Page_Layout']}
MODE = {0: 'UseNone', 1: 'UseOutlines', 2: 'UseThumbs', 3: 'FullScreen', 4: 'UseOC', 5: 'UseAttachments'}
LINEEND = {v: camel(n, 'CAPY_LINE_ANNOTATION_END_', {'R_OPEN_ARROW': 'ROpenArrow', 'R_CLOSED_ARROW': 'RClosedArrow'}) for n, v in ENUMS['Line_Annotation_End_Style']}
RI = {v: camel(n, 'CAPY_RI_') for n, v in ENUMS['Rendering_Intent']}
LABEL = {0: 'D', 1: 'R', 2: 'r', 3: 'A', 4: 'a'}
DEVCS = {0: 'DeviceRGB', 1: 'DeviceGray', 2: 'DeviceCMYK'}
NCOMP = {0: 3, 1: 1, 2: 4}
COLSUB = {0: 'S', 1: 'D', 2: 'N', 3: 'F', 4: 'Desc', 5: 'ModDate', 6: 'CreationDate', 7: 'Size', 8: 'CompressedSize'}
COLVIEW = {0: 'D', 1: 'T', 2: 'H', 3: 'C'}
PDFXNAMES = ['PDF/X-1:2001', 'PDF/X-1a:2001', 'PDF/X-1a:2003', 'PDF/X-3:2002', 'PDF/X-3:2003', 'PDF/X-4', 'PDF/X-4p', 'PDF/X-5g', 'PDF/X-5pg',
             'PDF/X-6', 'PDF/X-6p', 'PDF/X-6n']
PDFA = {n: (n[len('CAPY_PDFA_'):][0], n[-1].upper()) for n, v in ENUMS['PDFA_Type']}
PDFA = {v: PDFA[n] for n, v in ENUMS['PDFA_Type']}
BOXES = ['MediaBox', 'CropBox', 'BleedBox', 'TrimBox', 'ArtBox']


class Name(str):
    __slots__ = ()
    def __repr__(self): return '/' + str(self)


class T:
    """an expected text string"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'T(%r)' % self.s


class R:
    """an expected resource name: category, entity"""
    __slots__ = ('cat', 'ent')
    def __init__(self, cat, ent): self.cat, self.ent = cat, ent
    def __repr__(self): return 'R(%s,%r)' % (self.cat, self.ent)


class Gl:
    """an expected glyph: gid or code point, of the current font"""
    __slots__ = ('gid', 'text')
    def __init__(self, gid, text): self.gid, self.text = gid, text
    def __repr__(self): return 'Gl(%s,%r)' % (self.gid, self.text)


class Ent:
    """a thing added to a document"""
    n = 0
    def __init__(self, kind, gen, **kw):
        self.kind, self.gen = kind, gen
        self.__dict__.update(kw)
        Ent.n += 1
        self.serial = Ent.n
    def __repr__(self): return '<%s#%d>' % (self.kind, self.serial)


class Obj:
    """a builder"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)
    def snap(self):
        o = Obj(self.kind)
        for k, v in self.__dict__.items(): o.__dict__[k] = cp(v)
        return o


def cp(v):
    """copy of builder state; entities, documents and leaf values are shared"""
    t = type(v)
    if t is list: return [cp(x) for x in v]
    if t is dict: return {k: cp(x) for k, x in v.items()}
    if t is set: return set(v)
    if t is tuple: return tuple(cp(x) for x in v)
    if t is Obj: return v.snap()
    return v


class Gen:
    def __init__(self, fname, props):
        self.fname, self.props = fname, props
        self.ids = {}      # base -> {value: Ent}
        self.made = {}
        self.order = []    # entities in order of addition
        self.pages = []
        self.labels = []
        self.collection = None
        self.written = 0
        self.attempted = False
        self.used_annots = set()
        self.used_structs = {}
        self.taint = False
        self.embnames = set()
        self.rolenames = set()
        self.widths = []

    def of(self, kind): return [e for e in self.order if e.kind == kind]


def clamp(v): return 0.0 if v < 0 else 1.0 if v > 1 else v


def check_str(a, size, mode):
    """returns (bad property or None, str)"""
    if a is None: return 'C15', None
    if size < -1: return 'C07', None
    if size == -1:
        i = a.find(b'\0')
        if i >= 0: a = a[:i]
    else:
        assert size <= len(a), 'program passes a size beyond the string'
        a = a[:size]
    if b'\0' in a: return 'C07', None
    if mode == 'raw': return None, a.decode('latin-1')
    if mode == 'ascii':
        if any(c > 127 for c in a): return 'C07', None
        return None, a.decode('ascii')
    try:
        s = a.decode('utf-8')
    except UnicodeDecodeError:
        return 'C07', None
    return None, s


def check_name(a, size):
    """PdfName: UTF-8, optional leading slash"""
    bad, s = check_str(a, size, 'utf8')
    if bad: return bad, s
    if s.startswith('/'): s = s[1:]
    if s == '': return 'C15', None
    return None, s


# these replace numbers that are out of range by the nearest valid ones
CLAMPED = {'color_set_rgb', 'color_set_gray', 'color_set_cmyk', 'dc_cmd_g', 'dc_cmd_G', 'dc_cmd_rg', 'dc_cmd_RG', 'dc_cmd_k', 'dc_cmd_K', 'generator_text_width'}


def nonfinite(name, args):
    sp = SPEC[name]
    for i, ((k, _, _), a) in enumerate(zip(sp, args)):
        if k == 'f' and not math.isfinite(a): return True
        if k == 'pf' and isinstance(a, list):
            n = args[i + 1] if i + 1 < len(sp) and sp[i + 1][0] == 'i' else len(a)
            if any(not math.isfinite(x) for x in a[:max(0, n)]): return True
    return False


class Model:
    def __init__(self):
        self.vars = {}
        self.gens = []
        self.issues = []       # (props, code, msg, op index)
        self.pos = -1
        self.files, self.imgs, self.memimgs = {}, {}, {}
        self.nops = self.nok = self.nbad = 0
        self.cls = {}          # class counters

    def count(self, k, n=1): self.cls[k] = self.cls.get(k, 0) + n

    def issue(self, props, code, msg):
        self.issues.append((props if isinstance(props, tuple) else (props,), code, msg, self.pos))

    # -- execution ---------------------------------------------------------------------------------
    def resolve(self, op):
        """arguments by name; returns None when a variable is undefined"""
        name = op[0]
        A = []
        out = []
        for (k, base, an), a in zip(SPEC[name], op[1:]):
            if isinstance(a, dict) and 'o' in a:
                out.append((a['o'], base, k)); continue
            if k == 'h' or (k == 'ph' and a is not None and not isinstance(a, list)):
                if a is None: A.append(None); continue
                if a not in self.vars: return None
                A.append(self.vars[a])
            elif k == 'ph' and isinstance(a, list):
                r = []
                for v in a:
                    if v not in self.vars: return None
                    r.append(self.vars[v])
                A.append(r)
            elif k == 'id':
                if isinstance(a, str):
                    if a not in self.vars: return None
                    a = self.vars[a]
                A.append(a)
            elif k == 'pid':
                if a is None: A.append(None); continue
                r = []
                for v in (a if isinstance(a, list) else [a]):
                    if isinstance(v, str):
                        if v not in self.vars: return None
                        v = self.vars[v]
                    r.append(v)
                A.append(r)
            elif k == 'str':
                if isinstance(a, dict):
                    a = a['b'].encode('latin-1') if 'b' in a else ('path', a['f'])
                elif isinstance(a, str): a = a.encode('utf-8', 'surrogatepass')
                A.append(a)
            elif k in ('pe', 'pi'):
                A.append(None if a is None else a[0])
            elif k == 'i' or k == 'e':
                A.append(((a + (1 << 31)) & 0xffffffff) - (1 << 31))
            else:
                A.append(a)
        return A, out

    def step(self, op, res=None):
        """res: (ec, out) of the real call, or None in generation mode.  Returns True if the op took effect."""
        self.pos += 1
        name = op[0]
        if name[0] == '#':
            if name == '#file' and len(op) > 3 and op[3]: self.imagefile(op[1], op[2], op[3])
            return True
        if res is not None and res[0] is None: return False
        r = self.resolve(op)
        if r is None:
            return False
        A, outs = r
        if name == 'error_message':
            if res is not None and (res[1] is None or res[1] == '' ): self.issue('C15', 'errmsg', 'no message for error code %r' % A[0])
            return True
        self.nops += 1
        if name.endswith('_destroy'):
            self.vars.pop(op[1], None)
            if res is not None and res[0] != 0: self.issue('C15', 'destroy', '%s returned %d' % (name, res[0]))
            return True
        h = HANDLERS[name]
        if name not in CLAMPED and nonfinite(name, op[1:]):
            bad, apply = ('C15',), None          # PDF has no way to write these
        else: bad, apply = h(self, *A)
        if res is None:
            ok = bad is None
            ov = None
        else:
            ok = res[0] == 0
            ov = res[1]
            if ok and bad not in (None, '?'):
                self.issue(bad, 'accepted:' + name, '%s succeeded although it must fail' % (opstr(op),))
                return False
            if not ok and bad is None:
                self.issue(OWNER.get(name, ('C15',)), 'rejected:' + name, '%s failed with error %d' % (opstr(op), res[0]))
        if ok:
            self.nok += 1
            if apply: v = apply() if ov is None or not outs else apply_out(apply, ov)
            else: v = None
            if outs:
                if len(outs) == 1:
                    var, base, k = outs[0]
                    if k == 'pid':
                        ent = v
                        if isinstance(ent, Ent):
                            if ov is not None:
                                g = ent.gen
                                d = g.ids.setdefault(base, {})
                                if ov in d and d[ov] is not ent: self.issue('C15', 'dupid', '%s returned id %d again' % (name, ov))
                                d[ov] = ent
                            else: ent.gen.made.setdefault(base, {})[id(ent)] = ent
                            self.vars[var] = IdVal(base, ov, ent)
                    elif k == 'ph':
                        self.vars[var] = v
                        if res is not None and ov != 'h': self.issue('C15', 'nullout', '%s returned a null object' % name)
            return True
        self.nbad += 1
        self.count('rejected:%s' % bad)
        return False

    def imagefile(self, name, data, spec):
        if isinstance(data, str): data = data.encode('latin-1')
        im = img_of(spec)
        self.imgs[name] = self.memimgs[data] = (spec['expect'], im)

    def entcount(self, gen, base):
        """how many ids of a kind the document has (in generation mode)"""
        g = self.vars.get(gen)
        return len(g.made.get(base, ())) if g is not None else 0

    def ent(self, gen, base, idv):
        """the entity an id argument designates in the given document, or None"""
        if isinstance(idv, IdVal):
            if idv.val is None:            # generation mode: identity of the entity decides
                return idv.ent if idv.ent.gen is gen and idv.base == base else None
            idv = idv.val
        return gen.ids.get(base, {}).get(idv)


class IdVal:
    __slots__ = ('base', 'val', 'ent')
    def __init__(self, base, val, ent): self.base, self.val, self.ent = base, val, ent


def apply_out(apply, ov):
    if getattr(apply, 'wants', False): return apply(ov)
    return apply()


def opstr(op): return '%s(%s)' % (op[0], ', '.join(repr(a)[:80] for a in op[1:]))


HANDLERS, OWNER = {}, {}


def op(name, owner=('C15',)):
    def d(f):
        for n in name.split():
            HANDLERS[n] = f; OWNER[n] = owner if isinstance(owner, tuple) else (owner,)
        return f
    return d


OKNOP = (None, None)


def new(fname_, kind_, **kw):
    def h(m):
        return None, lambda: Obj(kind_, **cp(kw))
    HANDLERS[fname_] = h; OWNER[fname_] = ('C15',)


def enum_bad(v, e): return None if 0 <= v <= ENUMMAX[e] else 'C15'
def bool_bad(v): return None if v in (0, 1) else 'C15'


def setter(name, attr, check=None, owner=('C15',), conv=None):
    def h(m, o, v, *rest):
        b = check(v) if check else None
        def ap(): setattr(o, attr, conv(v) if conv else v)
        return b, ap
    HANDLERS[name] = h; OWNER[name] = owner


def strsetter(name, attr, mode='utf8', owner=('C06',)):
    def h(m, o, s, n):
        b, v = check_name(s, n) if mode == 'name' else check_str(s, n, mode)
        def ap(): setattr(o, attr, v)
        return b, ap
    HANDLERS[name] = h; OWNER[name] = owner


# ---------------------------------------------------------------- document properties
new('document_properties_new', 'DocumentProperties', title='', author='', creator='', lang='', profiles={}, cs=0, intent='', subtype=None,
    page=None, tagged=False, layout=None, mode=None, xml='')
for a in ('title', 'author', 'creator'): strsetter('document_properties_set_' + a, a)
strsetter('document_properties_set_language', 'lang', 'ascii')
strsetter('document_properties_set_output_intent', 'intent')


@op('document_properties_set_metadata_xml', 'C21')
def _(m, o, s, n):
    b, v = check_str(s, n, 'utf8')
    if not b and 'pdf:Producer>CapyPDF' not in v: b = 'C21'
    return b, lambda: setattr(o, 'xml', v)


setter('document_properties_set_colorspace', 'cs', lambda v: enum_bad(v, 'Device_Colorspace'))
setter('document_properties_set_pdfx', 'subtype', lambda v: enum_bad(v, 'PDFX_Type'), conv=lambda v: ('X', v), owner=('C22', 'C15'))
setter('document_properties_set_pdfa', 'subtype', lambda v: enum_bad(v, 'PDFA_Type'), conv=lambda v: ('A', v), owner=('C22', 'C15'))
setter('document_properties_set_tagged', 'tagged', bool_bad, conv=bool)
setter('document_properties_set_page_layout', 'layout', lambda v: enum_bad(v, 'Page_Layout'))
setter('document_properties_set_page_mode', 'mode', lambda v: enum_bad(v, 'Page_Mode'))


@op('document_properties_set_device_profile', ('C10', 'C15'))
def _(m, o, cs, path):
    b = enum_bad(cs, 'Device_Colorspace')
    return b, lambda: o.profiles.__setitem__(cs, path)


@op('document_properties_set_default_page_properties', ('C02', 'C15'))
def _(m, o, pp):
    if 0 not in pp.boxes: return 'C15', None
    return None, lambda: setattr(o, 'page', pp.snap())


new('page_properties_new', 'PageProperties', boxes={}, group=None)


@op('page_properties_set_pagebox', ('C02', 'C15'))
def _(m, o, box, x1, y1, x2, y2):
    b = enum_bad(box, 'Page_Box')
    if not b and not (x1 < x2 and y1 < y2): b = 'C15'
    return b, lambda: o.boxes.__setitem__(box, [x1, y1, x2, y2])


@op('page_properties_set_transparency_group_properties', ('C02', 'C15'))
def _(m, o, tp): return None, lambda: setattr(o, 'group', tp.snap())


new('transparency_group_properties_new', 'TransparencyGroupProperties', cs=None, I=None, K=None)
setter('transparency_group_properties_set_CS', 'cs', lambda v: enum_bad(v, 'Device_Colorspace'))
setter('transparency_group_properties_set_I', 'I', bool_bad)
setter('transparency_group_properties_set_K', 'K', bool_bad)

# ---------------------------------------------------------------- document
ICCINFO = {}      # path -> (number of channels, ok)


def icc_channels(data):
    """channels of an ICC profile by its header, None if not a profile"""
    if len(data) < 128 or data[36:40] != b'acsp': return None
    return {b'GRAY': 1, b'RGB ': 3, b'CMYK': 4, b'Lab ': 3}.get(data[16:20])


def read_profile(path, m=None):
    if isinstance(path, tuple):
        path = path[1]
        if m is not None:
            d = m.files.get(path)
            return (None, None) if d is None else (icc_channels(d), d)
    p = path.decode() if isinstance(path, bytes) else path
    try:
        d = open(p, 'rb').read()
    except OSError:
        return None, None
    return icc_channels(d), d


@op('generator_new', ('C22', 'C10', 'C15'))
def _(m, fname, dp):
    bad = None
    if fname is None: return 'C15', None
    prof = {}
    for cs, path in dp.profiles.items():
        n, d = read_profile(path, m)
        prof[cs] = d
        if n is None or n != NCOMP[cs]: bad = bad or 'C10'
    st = dp.subtype
    if not bad:
        if st is not None and dp.cs not in prof: bad = 'C22'
        elif st is not None and dp.intent == '': bad = 'C22'
        elif dp.cs == 2 and 2 not in prof: bad = 'C22'
    fn = fname[1] if isinstance(fname, tuple) else fname.decode('utf-8', 'surrogateescape')
    def ap():
        g = Gen(fn, dp.snap())
        g.prof = prof
        g.iccs = {}
        for cs in prof: pass
        m.gens.append(g)
        return g
    return bad, ap


def ctx_reset(c):
    c.ops, c.stack, c.annots, c.structs, c.ocgs, c.vps, c.nav = [], [], [], [], [], [], None
    c.trans = c.custom = c.group = c.matrix = None
    c.nbad = 0


def new_ctx(kind, gen, rect):
    c = Obj('DrawContext', type=kind, gen=gen, rect=rect)
    ctx_reset(c)
    return c


@op('page_draw_context_new')
def _(m, g): return None, lambda: new_ctx('page', g, None)


def rect_bad(l, b, r, t): return None if l < r and b < t else 'C15'


@op('form_xobject_new')
def _(m, g, l, b, r, t): return rect_bad(l, b, r, t), lambda: new_ctx('form', g, [l, b, r, t])
@op('tiling_pattern_context_new')
def _(m, g, l, b, r, t): return rect_bad(l, b, r, t), lambda: new_ctx('tiling', g, [l, b, r, t])
@op('transparency_group_new')
def _(m, g, l, b, r, t): return rect_bad(l, b, r, t), lambda: new_ctx('trgroup', g, [l, b, r, t])


def finish(c):
    """the committed state of a context"""
    o = c.snap()
    return dict(ops=o.ops, annots=o.annots, structs=o.structs, vps=o.vps, nav=o.nav, trans=o.trans, custom=o.custom,
                group=o.group, matrix=o.matrix, rect=o.rect)


def commit(kind, base, ctype, owner):
    def h(m, g, c):
        bad = None
        if c.gen is not g: bad = 'C24'
        elif c.type != ctype: bad = 'C15'
        elif c.stack: bad = 'C05'
        def ap():
            e = Ent(kind, g, **finish(c)); g.order.append(e)
            ctx_reset(c)
            m.count('commit_' + kind)
            return e
        return bad, ap
    return h


for _n, _k, _t in (('generator_add_form_xobject', 'form', 'form'), ('generator_add_transparency_group', 'trgroup', 'trgroup'), ('generator_add_tiling_pattern', 'tiling', 'tiling')):
    HANDLERS[_n] = commit(_k, None, _t, None); OWNER[_n] = ('C05', 'C15')


@op('generator_add_page', ('C05', 'C15', 'C02'))
def _(m, g, c):
    bad = None
    if c.gen is not g: bad = 'C24'
    elif c.type != 'page': bad = 'C15'
    elif c.stack: bad = 'C05'
    elif any(a in g.used_annots for a in c.annots): bad = 'C19'
    elif any(s in g.used_structs for s in c.structs): bad = 'C18'
    def ap():
        e = Ent('page', g, **finish(c))
        for a in c.annots: g.used_annots.add(a); a.page = e
        for i, s in enumerate(c.structs): g.used_structs[s] = (e, i)
        g.order.append(e); g.pages.append(e)
        ctx_reset(c)
        m.count('commit_page')
    return bad, ap


@op('generator_add_page_labeling', ('C21', 'C15'))
def _(m, g, start, style, prefix, n, startnum):
    bad = None
    if style is not None: bad = enum_bad(style, 'Page_Label_Number_Style')
    p = None
    if prefix is not None:
        b, p = check_str(prefix, n, 'utf8')
        bad = bad or b
    if not bad and g.labels and start <= g.labels[-1][0]: bad = 'C15'
    return bad, lambda: g.labels.append((start, style, p, startnum))


@op('generator_write', ('C01', 'C15', 'C23'))
def _(m, g):
    bad = None
    if g.attempted: bad = 'C15'
    elif not g.pages: bad = 'C15'
    elif not dests_ok(g): bad = 'C17'
    g.attempted = True
    g.embedded_at_write = None
    def ap(): g.written += 1; m.count('write')
    return bad, ap


def dests_ok(g):
    np = len(g.pages)
    for e in g.of('outline'):
        d = e.dest
        if d is not None and d.page >= np: return False
    for e in g.of('annot'):
        d = getattr(e.a, 'dest', None)
        if d is not None and d.page >= np: return False
    return True


def adder(name, kind, fn, owner=('C15',)):
    """fn(m, g, *args) -> (bad, dict of attributes)"""
    def h(m, g, *args):
        bad, at = fn(m, g, *args)
        def ap():
            e = Ent(kind, g, **at); g.order.append(e); m.count('add_' + kind); return e
        return bad, ap
    HANDLERS[name] = h; OWNER[name] = owner


# ---- optional content, outlines, structure
@op('optional_content_group_new', 'C06')
def _(m, s):
    b, v = check_str(s, -1, 'utf8')
    return b, lambda: Obj('OptionalContentGroup', name=v)
adder('generator_add_optional_content_group', 'ocg', lambda m, g, o: (None, dict(name=o.name)), ('C21', 'C15'))

new('destination_new', 'Destination', page=0, loc=('XYZ', None, None, None))


@op('destination_set_page_fit', ('C17', 'C15'))
def _(m, d, p):
    def ap(): d.page = p; d.loc = ('Fit',)
    return ('C15' if p < 0 else None), ap
@op('destination_set_page_xyz', ('C17', 'C15'))
def _(m, d, p, x, y, z):
    g = lambda v: None if v is None else v[0]
    def ap(): d.page = p; d.loc = ('XYZ', g(x), g(y), g(z))
    return ('C15' if p < 0 else None), ap


new('outline_new', 'Outline', title='', dest=None, C=None, F=0, parent=None)
strsetter('outline_set_title', 'title', owner=('C06', 'C17'))


@op('outline_set_destination', ('C17', 'C15'))
def _(m, o, d):
    return ('C15' if d.loc is None else None), lambda: setattr(o, 'dest', d.snap())
@op('outline_set_C', 'C17')
def _(m, o, r, g, b): return None, lambda: setattr(o, 'C', [clamp(r), clamp(g), clamp(b)])
setter('outline_set_F', 'F', owner=('C17',))
setter('outline_set_parent', 'parent', owner=('C17',))


def _outline(m, g, o):
    bad = None; par = None
    if o.parent is not None:
        par = m.ent(g, 'OutlineId', o.parent)
        if par is None: bad = 'C15'
    if o.title == '': bad = 'C15'
    s = o.snap()
    return bad, dict(title=s.title, dest=s.dest, C=s.C, F=s.F, parent=par)
adder('generator_add_outline', 'outline', _outline, ('C17', 'C15'))

new('struct_item_extra_data_new', 'StructItemExtraData', T='', Lang='', Alt='', ActualText='')
strsetter('struct_item_extra_data_set_t', 'T')
strsetter('struct_item_extra_data_set_lang', 'Lang', 'ascii')
strsetter('struct_item_extra_data_set_alt', 'Alt')
strsetter('struct_item_extra_data_set_actual_text', 'ActualText')


def _struct(m, g, st, parent, extra, role=None):
    bad = None
    if role is None: bad = enum_bad(st, 'Structure_Type')
    par = None
    if parent is not None:
        par = m.ent(g, 'StructureItemId', parent[0])
        if par is None: bad = bad or 'C15'
    x = extra.snap() if extra is not None else None
    return bad, dict(st=st, role=role, parent=par, extra=x)
adder('generator_add_structure_item', 'struct', _struct, ('C18', 'C15'))


def _cstruct(m, g, role, parent, extra):
    r = m.ent(g, 'RoleId', role)
    bad, at = _struct(m, g, None, parent, extra, r or 0)
    return (bad or (None if r is not None else 'C15')), at
adder('generator_add_custom_structure_item', 'struct', _cstruct, ('C18', 'C15'))


@op('generator_add_rolemap_entry', ('C18', 'C15'))
def _(m, g, s, n, st):
    bad, v = check_str(s, n, 'raw')
    bad = bad or enum_bad(st, 'Structure_Type')
    if not bad and (v == '' or v[0] == '/' or v in g.rolenames): bad = 'C15'
    def ap():
        e = Ent('role', g, name=v, st=st); g.order.append(e); g.rolenames.add(v); return e
    return bad, ap


# ---- embedded files
new('embedded_file_new', 'EmbeddedFile', name='unnamed', subtype=None, data=b'')


@op('embedded_file_load_file', ('C16', 'C15'))
def _(m, e, path):
    fn = path[1] if isinstance(path, tuple) else path.decode('utf-8', 'surrogateescape')
    d = m.files.get(fn) if hasattr(m, 'files') else None
    if d is None:
        if os.path.isabs(fn) and os.path.isfile(fn): d = open(fn, 'rb').read()
        else: return ('C15', None)
    def ap(): e.data = d; e.name = os.path.basename(fn)
    return None, ap


@op('embedded_file_set_contents', ('C16', 'C15'))
def _(m, e, d, n):
    bad = None
    if n < -1: bad = 'C15'
    elif n == -1: d = d.split(b'\0')[0]
    else:
        assert n <= len(d); d = d[:n]
    return bad, lambda: setattr(e, 'data', d)


@op('embedded_file_set_subtype', ('C16', 'C06', 'C15'))
def _(m, e, s, n):
    bad, v = check_str(s, n, 'ascii')
    return bad, lambda: setattr(e, 'subtype', v)
strsetter('embedded_file_set_pdf_name', 'name', owner=('C16', 'C06'))


@op('generator_embed_file', ('C16', 'C15'))
def _(m, g, e):
    bad = 'C16' if e.name in g.embnames else None
    def ap():
        x = Ent('embedded', g, name=e.name, subtype=e.subtype, data=e.data)
        g.embnames.add(e.name); g.order.append(x); m.count('add_embedded'); return x
    return bad, ap


# ---- fonts
new('font_properties_new', 'FontProperties', sub=0, inst=None, var={})
setter('font_properties_set_subfont', 'sub', lambda v: None if 0 <= v <= 65535 else 'C15')
setter('font_properties_set_named_instance', 'inst')


@op('font_properties_set_variation', ('C11', 'C15'))
def _(m, o, s, n, v):
    bad, a = check_str(s, n, 'raw')
    return bad, lambda: o.var.__setitem__(a, v)


@op('generator_load_font', ('C11', 'C15'))
def _(m, g, path, props):
    fn = path[1] if isinstance(path, tuple) else path.decode('utf-8', 'surrogateescape')
    d = m.files.get(fn) if isinstance(path, tuple) else None
    if isinstance(path, tuple) and d is None: return 'C15', None
    bad = None
    sub = props.sub if props is not None else 0
    face = coords = None
    try:
        face = ftcache(d, sub) if d is not None else ftlib.face(fn, sub)
        d = face.data
        if props is not None and (props.inst is not None or props.var):
            if not face.variable(): bad = 'C11'
            else:
                tags = [t.decode('latin-1') for t in ftlib.axistags(d, sub)]
                var = {}
                for k, v in props.var.items():
                    if k in tags: var[tags.index(k)] = v
                    else: bad = 'C11'
                coords = (props.inst, tuple(sorted(var.items())))
                if bad is None: face = ftcache(d, sub, coords)
    except ftlib.FTError: bad = 'C11'
    except OSError: bad = 'C15'
    def ap():
        e = Ent('font', g, path=fn, face=face, sub=sub, data=d, coords=coords, used={})
        g.order.append(e); m.count('add_font'); return e
    return bad, ap


_ftc = {}
def ftcache(d, sub, coords=None):
    k = (hash(d), len(d), sub, coords)
    if k not in _ftc:
        if len(_ftc) > 60: _ftc.clear()
        _ftc[k] = ftlib.Face(d, sub) if coords is None else ftlib.Face(d, sub, instance=coords[0] if coords[0] is not None else 0, axes=dict(coords[1]))
    return _ftc[k]


# ---- images
new('raster_image_builder_new', 'RasterImageBuilder', w=0, h=0, depth=8, adepth=0, pixels=b'', alpha=b'', cs=0, comp=0)


@op('raster_image_builder_set_size')
def _(m, b, w, h):
    def ap(): b.w, b.h = w, h
    return None, ap
setter('raster_image_builder_set_pixel_depth', 'depth')
setter('raster_image_builder_set_alpha_depth', 'adepth')
setter('raster_image_builder_set_input_data_compression_format', 'comp', lambda v: enum_bad(v, 'Compression'))
setter('raster_image_builder_set_colorspace', 'cs', lambda v: enum_bad(v, 'Image_Colorspace'))
def _bytes(attr):
    def h(m, b, d, n):
        assert n <= len(d)
        return None, lambda: setattr(b, attr, d[:n])
    return h
HANDLERS['raster_image_builder_set_pixel_data'] = _bytes('pixels')
HANDLERS['raster_image_builder_set_alpha_data'] = _bytes('alpha')


@op('raster_image_builder_build')
def _(m, b):
    def ap():
        o = Obj('RasterImage', img=dict(w=b.w, h=b.h, depth=b.depth, adepth=b.adepth, pixels=b.pixels, alpha=b.alpha, cs=b.cs, comp=b.comp, icc=None, src='raw'))
        b.__dict__.update(w=0, h=0, depth=8, adepth=0, pixels=b'', alpha=b'', cs=0, comp=0)
        return o
    return None, ap


new('image_pdf_properties_new', 'ImagePdfProperties', mask=False, interp=0)
setter('image_pdf_properties_set_mask', 'mask', bool_bad)
setter('image_pdf_properties_set_interpolate', 'interp', lambda v: enum_bad(v, 'Image_Interpolation'))
setter('image_pdf_properties_set_conversion_intent', 'ri', lambda v: enum_bad(v, 'Rendering_Intent'))


def rowbytes(w, n, depth): return (w * n * depth + 7) // 8


def img_err(g, im, p):
    if im is None: return 'C15'
    if im == '?': return '?'
    x = g.props.subtype
    if im.get('anyspace'): return '?'
    if im['src'] == 'jpeg':
        if p.mask: return 'C15'
        if x is not None and x[0] == 'X' and im['cs'] == 0: return 'C22'
        return None
    if im['depth'] not in (1, 2, 4, 8, 16): return 'C08'
    if im['w'] == 0 or im['h'] == 0: return 'C08'
    if not im['pixels']: return 'C08'
    if im['comp'] == 0 and len(im['pixels']) != rowbytes(im['w'], NCOMP[im['cs']], im['depth']) * im['h']: return 'C08'
    if p.mask:
        if im['cs'] != 1 or im['depth'] != 1: return 'C08'
        if im['alpha']: return 'C08'
        return None
    if im['alpha']:
        if im['adepth'] not in (1, 2, 4, 8, 16): return 'C08'
        if im['comp'] == 0 and len(im['alpha']) != rowbytes(im['w'], 1, im['adepth']) * im['h']: return 'C08'
    if x is not None and x[0] == 'X' and im['cs'] == 0: return 'C22'
    return None


@op('generator_add_image', ('C08', 'C15'))
def _(m, g, ri, p):
    im = ri.img
    bad = img_err(g, im, p)
    ri.img = None if im is not None else None
    def ap():
        e = Ent('image', g, img=im, mask=bool(p.mask), interp=p.interp)
        g.order.append(e); m.count('add_image'); return e
    return bad, ap


def img_of(spec):
    e = lambda t: t.encode('latin-1') if t is not None else None
    im = dict(spec, comp=0, pixels=e(spec['pixels']), alpha=e(spec['alpha']), icc=e(spec['icc']), known=e(spec.get('known')), own=('C09',), file=True)
    if im['src'] != 'jpeg': im['src'] = 'file'
    return im


def loaded(x, own=('C09',)):
    if x is None: return '?', lambda: Obj('RasterImage', img='?')
    exp, im = x
    return {'ok': None, 'either': '?', 'bad': 'C09'}[exp], lambda: Obj('RasterImage', img=dict(im))


@op('generator_load_image', ('C09', 'C15'))
def _(m, g, path):
    fn = path[1] if isinstance(path, tuple) else path.decode('utf-8', 'surrogateescape')
    if isinstance(path, tuple) and fn not in m.files and fn not in m.imgs: return 'C09', None
    x = m.imgs.get(fn)
    if x and x[0] == 'ok':       # a name that claims another format
        ext = fn[fn.rfind('.'):].lower() if '.' in fn else ''
        k = {'.png': 'png', '.tif': 'tiff', '.tiff': 'tiff', '.jpg': 'jpeg', '.jpeg': 'jpeg'}.get(ext)
        if k and not x[1]['tag'].startswith(k): x = ('either', x[1])
    return loaded(x)


@op('generator_load_image_from_memory', ('C09', 'C15'))
def _(m, g, buf, n):
    if n < 1: return 'C09', None
    return loaded(m.memimgs.get(buf[:n]))


_conv = {}


def converted(im, g, cs, intent):
    a = im['icc'] if im['icc'] is not None else g.prof.get(im['cs'])
    k = (im['pixels'], a, im['cs'], g.prof.get(cs), cs, intent)
    h = hash(k)
    if h not in _conv:
        import icc
        if len(_conv) > 500: _conv.clear()
        _conv[h] = icc.convert(im['pixels'], a, im['cs'], g.prof.get(cs), cs, intent)
    return _conv[h]


@op('generator_convert_image', ('C10', 'C15'))
def _(m, g, ri, cs, intent):
    bad = enum_bad(cs, 'Device_Colorspace') or enum_bad(intent, 'Rendering_Intent')
    im = ri.img
    if bad: return bad, None
    unk = lambda: Obj('RasterImage', img='?')
    if im is None or im == '?': return '?', unk
    if im['src'] == 'jpeg': return 'C15', None
    if im['depth'] != 8 or im['comp'] != 0 or im.get('anyspace'): return '?' if im.get('file') else 'C10', unk
    if im['w'] * im['h'] == 0 or len(im['pixels']) != im['w'] * im['h'] * NCOMP[im['cs']]: return 'C10', None
    out = converted(im, g, cs, intent)
    if out is None: return 'C10', None
    # the conversion of an image that is in the right space already may be left out
    alt = im['pixels'] if cs == im['cs'] and im['icc'] is None else None
    return None, lambda: Obj('RasterImage', img=dict(im, cs=cs, pixels=out, icc=None, own=('C10',), src='conv', alt=alt))


def queried(name, f, jpegok=False):
    def h(m, ri):
        im = ri.img
        if im in (None, '?'): return '?', None
        if im['src'] == 'jpeg' and not jpegok: return 'C15', None
        def ap(ov=None):
            if ov is None or im.get('anyspace'): return
            e = f(im)
            if ov not in e: m.issue(tuple(im.get('own') or ('C08',)), name, '%s gives %r instead of %r' % (name, ov, e[0]))
            m.count('image_query')
        ap.wants = True
        return None, ap
    HANDLERS['raster_image_' + name] = h; OWNER['raster_image_' + name] = ('C08', 'C09', 'C15')


queried('get_size', lambda im: [(im['w'], im['h'])], True)
queried('get_colorspace', lambda im: [im['cs']])
queried('has_profile', lambda im: [1 if im['icc'] is not None else 0])


# ---- colour
new('color_new', 'Color', c=('rgb', 0.0, 0.0, 0.0))


@op('color_set_rgb')
def _(m, c, r, g, b): return None, lambda: setattr(c, 'c', ('rgb', clamp(r), clamp(g), clamp(b)))
@op('color_set_gray')
def _(m, c, v): return None, lambda: setattr(c, 'c', ('gray', clamp(v)))
@op('color_set_cmyk')
def _(m, c, a, b, d, e): return None, lambda: setattr(c, 'c', ('cmyk', clamp(a), clamp(b), clamp(d), clamp(e)))


@op('color_set_icc')
def _(m, c, i, vals, n):
    if n < 0: return '?', None
    return None, lambda: setattr(c, 'c', ('icc', i) + tuple(vals[:n]))


@op('color_set_separation')
def _(m, c, i, v): return (None if 0 <= v <= 1 else 'C15'), lambda: setattr(c, 'c', ('sep', i, v))
@op('color_set_pattern')
def _(m, c, i): return None, lambda: setattr(c, 'c', ('pat', i))
@op('color_set_lab')
def _(m, c, i, l, a, b): return None, lambda: setattr(c, 'c', ('lab', i, l, a, b))


def color_ops(m, g, col, stroke):
    """(bad, ops)"""
    k = col[0]
    if k == 'rgb': return None, [('RG' if stroke else 'rg', list(col[1:]))]
    if k == 'gray': return None, [('G' if stroke else 'g', list(col[1:]))]
    if k == 'cmyk': return None, [('K' if stroke else 'k', list(col[1:]))]
    cs, scn = ('CS', 'SCN') if stroke else ('cs', 'scn')
    base = {'icc': 'IccColorSpaceId', 'sep': 'SeparationId', 'pat': 'PatternId', 'lab': 'LabColorSpaceId'}[k]
    e = m.ent(g, base, col[1])
    if e is None: return 'C15', None
    if k == 'pat': return None, [(cs, [Name('Pattern')]), (scn, [R('Pattern', e)])]
    if k == 'icc' and len(col) - 2 != e.n: return 'C15', None
    return None, [(cs, [R('ColorSpace', e)]), (scn, list(col[2:]))]


def _lab(m, g, xw, yw, zw, amin, amax, bmin, bmax): return None, dict(v=(xw, yw, zw, amin, amax, bmin, bmax))
adder('generator_add_lab_colorspace', 'lab', _lab, ('C20', 'C15'))


def _sep(m, g, s, n, cs, f):
    bad, v = check_str(s, n, 'ascii')
    bad = bad or enum_bad(cs, 'Device_Colorspace')
    e = m.ent(g, 'FunctionId', f)
    if e is None or e.f.type != 4: bad = bad or 'C15'
    return bad, dict(name=v, cs=cs, f=e)
adder('generator_add_separation', 'sep', _sep, ('C20', 'C15'))


def icc_add(m, g, data, n):
    # profiles are stored once; the same content gives the same id
    e = g.iccs.get(data)
    if e is None:
        e = Ent('icc', g, data=data, n=n); g.order.append(e); g.iccs[data] = e
    return e


@op('generator_load_icc_profile', ('C10', 'C15'))
def _(m, g, path):
    n, d = read_profile(path, m)
    return ('C10' if n is None else None), lambda: icc_add(m, g, d, n)


@op('generator_add_icc_profile', ('C10', 'C15'))
def _(m, g, buf, n, ch):
    d = buf[:n]
    k = icc_channels(d)
    return ('C10' if k is None or k != ch else None), lambda: icc_add(m, g, d, k)


# ---- functions, shadings, patterns
@op('type2_function_new')
def _(m, dom, dn, c1, c2, n):
    if dn < 0: return 'C15', None
    return None, lambda: Obj('Function', f=Obj('f', type=2, domain=dom[:dn], c1=c1.c, c2=c2.c, n=n))
@op('type3_function_new')
def _(m, dom, dn, fs, fn, bounds, bn, enc, en):
    if min(dn, fn, bn, en) < 0: return 'C15', None
    return None, lambda: Obj('Function', f=Obj('f', type=3, domain=dom[:dn], fs=fs[:fn], bounds=bounds[:bn], encode=enc[:en]))
@op('type4_function_new')
def _(m, dom, dn, rng, rn, code, n):
    bad, v = check_str(code, n, 'raw')
    if min(dn, rn) < 0: bad = bad or 'C15'
    return bad, lambda: Obj('Function', f=Obj('f', type=4, domain=dom[:dn], range=rng[:rn], code=v))


def _fn(m, g, fo):
    f = fo.f
    bad = None; fs = None
    if f.type == 2:
        if f.c1[0] != f.c2[0]: bad = 'C15'
        elif f.c1[0] not in ('rgb', 'gray', 'cmyk'): bad = 'C15'
    elif f.type == 3:
        fs = [m.ent(g, 'FunctionId', x) for x in f.fs]
        if not fs or any(x is None for x in fs): bad = 'C15'
    return bad, dict(f=f.snap(), fs=fs)
adder('generator_add_function', 'function', _fn, ('C20', 'C15'))


@op('type2_shading_new')
def _(m, cs, x0, y0, x1, y1, f):
    return enum_bad(cs, 'Device_Colorspace'), lambda: Obj('Shading', s=Obj('s', type=2, cs=cs, coords=[x0, y0, x1, y1], f=f, ext=None, domain=None))
@op('type3_shading_new')
def _(m, cs, coords, f):
    return enum_bad(cs, 'Device_Colorspace'), lambda: Obj('Shading', s=Obj('s', type=3, cs=cs, coords=coords[:6], f=f, ext=None, domain=None))
@op('type4_shading_new')
def _(m, cs, x1, y1, x2, y2):
    return enum_bad(cs, 'Device_Colorspace'), lambda: Obj('Shading', s=Obj('s', type=4, cs=cs, box=[x1, y1, x2, y2], els=[]))
@op('type6_shading_new')
def _(m, cs, x1, y1, x2, y2):
    return enum_bad(cs, 'Device_Colorspace'), lambda: Obj('Shading', s=Obj('s', type=6, cs=cs, box=[x1, y1, x2, y2], els=[]))


@op('shading_set_extend')
def _(m, o, a, b):
    bad = bool_bad(a) or bool_bad(b) or (None if o.s.type in (2, 3) else 'C15')
    return bad, lambda: setattr(o.s, 'ext', [bool(a), bool(b)])
@op('shading_set_domain')
def _(m, o, a, b):
    return (None if o.s.type in (2, 3) else 'C15'), lambda: setattr(o.s, 'domain', [a, b])


CKIND = {'rgb': 0, 'gray': 1, 'cmyk': 2}


def mesh_cols(s, cols):
    for c in cols:
        if CKIND.get(c.c[0]) != s.cs: return '?'  # rejected here or when the shading is added
    return None


@op('type4_shading_add_triangle', ('C20', 'C15'))
def _(m, o, co, cols):
    s = o.s
    bad = None if s.type == 4 else 'C15'
    bad = bad or mesh_cols(s, cols[:3])
    def ap():
        for i in range(3): s.els.append((0, co[2 * i:2 * i + 2], [cols[i].c]))
    return bad, ap


@op('type4_shading_extend', ('C20', 'C15'))
def _(m, o, flag, co, col):
    s = o.s
    bad = None if s.type == 4 else 'C15'
    if not bad and not s.els: bad = 'C15'
    if not bad and flag not in (1, 2): bad = 'C15'
    bad = bad or mesh_cols(s, [col])
    return bad, lambda: s.els.append((flag, co[:2], [col.c]))


@op('type6_shading_add_patch', ('C20', 'C15'))
def _(m, o, co, cols):
    s = o.s
    bad = None if s.type == 6 else 'C15'
    bad = bad or mesh_cols(s, cols[:4])
    return bad, lambda: s.els.append((0, co[:24], [c.c for c in cols[:4]]))


@op('type6_shading_extend', ('C20', 'C15'))
def _(m, o, flag, co, cols):
    s = o.s
    bad = None if s.type == 6 else 'C15'
    if not bad and not s.els: bad = 'C15'
    if not bad and flag not in (1, 2, 3): bad = 'C15'
    bad = bad or mesh_cols(s, cols[:2])
    return bad, lambda: s.els.append((flag, co[:16], [c.c for c in cols[:2]]))


def _shade(m, g, o):
    s = o.s; bad = None; f = None
    if s.type in (2, 3):
        f = m.ent(g, 'FunctionId', s.f)
        if f is None: bad = 'C15'
    else:
        if not s.els: bad = 'C15'
        elif s.box[0] == s.box[2] or s.box[1] == s.box[3]: bad = 'C15'
        elif any(CKIND.get(c[0]) != s.cs for el in s.els for c in el[2]): bad = 'C15'
        elif not (s.box[0] < s.box[2] and s.box[1] < s.box[3]) or (s.type == 6 and any(el[0] for el in s.els)): bad = '?'
    return bad, dict(s=s.snap(), f=f)
adder('generator_add_shading', 'shading', _shade, ('C20', 'C15'))


@op('shading_pattern_new')
def _(m, sid): return None, lambda: Obj('ShadingPattern', sid=sid, matrix=None)
@op('shading_pattern_set_matrix')
def _(m, o, *v): return None, lambda: setattr(o, 'matrix', list(v))


def _shp(m, g, o):
    e = m.ent(g, 'ShadingId', o.sid)
    return ('C15' if e is None else None), dict(sh=e, matrix=o.matrix)
adder('generator_add_shading_pattern', 'shpattern', _shp, ('C20', 'C15'))


@op('soft_mask_new')
def _(m, st, tr): return enum_bad(st, 'Soft_Mask_Subtype'), lambda: Obj('SoftMask', st=st, tr=tr)
def _sm(m, g, o):
    e = m.ent(g, 'TransparencyGroupId', o.tr)
    return ('C15' if e is None else None), dict(st=o.st, tr=e)
adder('generator_add_soft_mask', 'softmask', _sm, ('C20', 'C15'))

new('halftone_new', 'Halftone', t=None)


@op('halftone_set_default')
def _(m, o): return None, lambda: setattr(o, 't', ('Default',))
@op('halftone_set_type1')
def _(m, o, f, a, s): return enum_bad(s, 'Halftone_Spot_Function'), lambda: setattr(o, 't', (1, f, a, s))


new('graphics_state_new', 'GraphicsState', v={})


def gsset(name, key, check=None, conv=None):
    def h(m, o, v):
        return (check(v) if check else None), lambda: o.v.__setitem__(key, conv(v) if conv else v)
    HANDLERS[name] = h; OWNER[name] = ('C20', 'C15')


gsset('graphics_state_set_CA', 'CA', conv=clamp)
gsset('graphics_state_set_ca', 'ca', conv=clamp)
gsset('graphics_state_set_BM', 'BM', lambda v: enum_bad(v, 'Blend_Mode'), lambda v: Name(BLEND[v]))
gsset('graphics_state_set_op', 'op', bool_bad, bool)
gsset('graphics_state_set_OP', 'OP', bool_bad, bool)
gsset('graphics_state_set_OPM', 'OPM', bool_bad)
gsset('graphics_state_set_SMask', 'SMask')
gsset('graphics_state_set_FL', 'FL', lambda v: 'C15' if v < 0 else None if v <= 100 else '?')
gsset('graphics_state_set_SM', 'SM', lambda v: None if 0 <= v <= 1 else 'C15')
gsset('graphics_state_set_AIS', 'AIS', bool_bad, bool)
gsset('graphics_state_set_TK', 'TK', bool_bad, bool)
gsset('graphics_state_set_blackpoint_compensation', 'UseBlackPtComp', lambda v: enum_bad(v, 'Black_Point_Compensation'), lambda v: Name(['OFF', 'ON', 'Default'][v]))


@op('graphics_state_set_HT')
def _(m, o, ht):
    return None, lambda: o.v.__setitem__('HT', ht.t)


def _gs(m, g, o):
    v = dict(o.v); bad = None
    if 'SMask' in v:
        e = m.ent(g, 'SoftMaskId', v['SMask'])
        if e is None: bad = 'C15'
        v['SMask'] = e
    return bad, dict(v=v)
adder('generator_add_graphics_state', 'gstate', _gs, ('C20', 'C15'))


# ---- annotations and forms
def annot(st, **kw): return Obj('Annotation', st=st, rect=None, flags=0, parent=None, btn=None, **kw)


@op('text_annotation_new', ('C19', 'C06'))
def _(m, s, n):
    b, v = check_str(s, n, 'utf8'); return b, lambda: annot('Text', text=v)
@op('link_annotation_new')
def _(m): return None, lambda: annot('Link', dest=None, uri=None)
@op('line_annotation_new', ('C19', 'C06'))
def _(m, s, n, x1, y1, x2, y2):
    b, v = check_str(s, n, 'utf8'); return b, lambda: annot('Line', text=v, L=[x1, y1, x2, y2], LL=None, LE=None)
@op('file_attachment_annotation_new')
def _(m, f): return None, lambda: annot('FileAttachment', file=f)
@op('widget_annotation_new')
def _(m): return None, lambda: annot('Widget')
@op('printers_mark_annotation_new')
def _(m, f): return None, lambda: annot('PrinterMark', form=f)
@op('3d_annotation_new')
def _(m): return None, lambda: annot('3D', d3=None)


@op('annotation_set_destination', ('C19', 'C15'))
def _(m, a, d):
    bad = None if a.st == 'Link' else 'C15'
    if d.loc is None: bad = bad or 'C15'
    def ap(): a.dest = d.snap(); a.uri = None
    return bad, ap
@op('annotation_set_uri', ('C19', 'C06', 'C15'))
def _(m, a, s, n):
    bad, v = check_str(s, n, 'ascii')
    if a.st != 'Link': bad = bad or 'C15'
    def ap(): a.uri = v; a.dest = None
    return bad, ap
@op('annotation_set_rectangle', ('C19', 'C15'))
def _(m, a, x1, y1, x2, y2): return None, lambda: setattr(a, 'rect', [x1, y1, x2, y2])      # any two opposite corners
setter('annotation_set_flags', 'flags', owner=('C19', 'C15'))
@op('annotation_set_3d_stream', ('C19', 'C15'))
def _(m, a, i): return (None if a.st == '3D' else 'C15'), lambda: setattr(a, 'd3', i)
@op('annotation_set_line_leader', ('C19', 'C15'))
def _(m, a, LL, LLE): return (None if a.st == 'Line' else 'C15'), lambda: setattr(a, 'LL', [LL, LLE])
@op('annotation_set_line_endings', ('C19', 'C15'))
def _(m, a, s, e):
    bad = enum_bad(s, 'Line_Annotation_End_Style') or enum_bad(e, 'Line_Annotation_End_Style') or (None if a.st == 'Line' else 'C15')
    return bad, lambda: setattr(a, 'LE', [Name(LINEEND[s]), Name(LINEEND[e])])
@op('annotation_set_parent_field', ('C19', 'C15'))
def _(m, a, i): return (None if a.st == 'Widget' else 'C15'), lambda: setattr(a, 'parent', i)
@op('annotation_set_widget_button_appearance', ('C19', 'C15'))
def _(m, a, on, off, s, n):
    bad, v = check_name(s, n)
    if a.st != 'Widget': bad = bad or 'C15'
    return bad, lambda: setattr(a, 'btn', (on, off, v))


def _annot(m, g, a):
    s = a.snap()
    bad = None if a.rect is not None else 'C15'
    def look(base, i):
        nonlocal bad
        e = m.ent(g, base, i)
        if e is None: bad = bad or 'C15'
        return e
    if a.st == 'FileAttachment': s.file = look('EmbeddedFileId', a.file)
    elif a.st == 'PrinterMark': s.form = look('FormXObjectId', a.form)
    elif a.st == '3D':
        if a.d3 is None: bad = bad or 'C15'
        else: s.d3 = look('3DStreamId', a.d3)
    elif a.st == 'Widget':
        if a.parent is not None: s.parent = look('FormFieldId', a.parent)
        if a.btn is not None:
            s.btn = (look('FormXObjectId', a.btn[0]), look('FormXObjectId', a.btn[1]), a.btn[2])
    return bad, dict(a=s, page=None)
adder('generator_add_annotation', 'annot', _annot, ('C19', 'C15'))


@op('form_field_new')
def _(m, t): return enum_bad(t, 'Form_Field_Type'), lambda: Obj('FormField', ft=t, parent=None, T='', Ff=0, V=None, opt=[])
setter('form_field_set_parent', 'parent')
strsetter('form_field_set_T', 'T', owner=('C19', 'C06'))
setter('form_field_set_Ff', 'Ff', owner=('C19', 'C15'))


@op('form_field_set_V', ('C19', 'C06'))
def _(m, f, s, n):
    bad, v = check_str(s, n, 'utf8')
    if not bad and f.ft == 0 and v in ('/',): bad = 'C15'
    return bad, lambda: setattr(f, 'V', v)
@op('form_field_add_Opt_entry', ('C19', 'C06', 'C15'))
def _(m, f, s, n):
    bad, v = check_str(s, n, 'utf8')
    if f.ft != 2: bad = bad or 'C15'
    return bad, lambda: f.opt.append(v)


def _ff(m, g, f):
    s = f.snap(); bad = None
    if f.parent is not None:
        s.parent = m.ent(g, 'FormFieldId', f.parent)
        if s.parent is None: bad = 'C15'
    return bad, dict(f=s)
adder('generator_add_form_field', 'field', _ff, ('C19', 'C15'))


@op('3d_stream_new', ('C19', 'C15'))
def _(m, path, fmt):
    fn = path[1] if isinstance(path, tuple) else path.decode('utf-8', 'surrogateescape')
    d = m.files.get(fn) if hasattr(m, 'files') else None
    bad = enum_bad(fmt, '3D_File_Format')
    if d is None or len(d) == 0: bad = bad or 'C15'
    return bad, lambda: Obj('3DStream', data=d, fmt=fmt)
@op('generator_add_3d_stream', ('C19', 'C15'))
def _(m, g, o):
    # the stream's data may be moved out by the call
    bad = '?' if o.data is None else None
    def ap():
        e = Ent('d3', g, data=o.data, fmt=o.fmt); g.order.append(e); return e
    return bad, ap


# ---- transitions, viewports
new('transition_new', 'Transition', v={})
def trset(n, key, check=None, conv=None):
    def h(m, o, v): return (check(v) if check else None), lambda: o.v.__setitem__(key, conv(v) if conv else v)
    HANDLERS['transition_set_' + n] = h; OWNER['transition_set_' + n] = ('C02', 'C15')
trset('S', 'S', lambda v: enum_bad(v, 'Transition_Type'), lambda v: Name(TRANS[v]))
trset('D', 'D')
trset('Dm', 'Dm', lambda v: enum_bad(v, 'Transition_Dimension'), lambda v: Name('HV'[v]))
trset('M', 'M', lambda v: enum_bad(v, 'Transition_Motion'), lambda v: Name('IO'[v]))
trset('Di', 'Di')
trset('SS', 'SS')
trset('B', 'B', bool_bad, bool)


@op('number_format_new', ('C02', 'C06'))
def _(m, s, n, c):
    b, v = check_str(s, n, 'utf8'); return b, lambda: Obj('NumberFormat', U=v, C=c)
new('measure_new', 'Measure', X=[], Y=[], D=[], A=[])
for _k in 'XYDA':
    HANDLERS['measure_append_' + _k] = (lambda k: lambda m, o, f: (None, lambda: getattr(o, k).append((f.U, f.C))))(_k)


@op('viewport_new', ('C02', 'C15'))
def _(m, x1, y1, x2, y2): return rect_bad(x1, y1, x2, y2), lambda: Obj('Viewport', rect=[x1, y1, x2, y2], measure=None)
@op('viewport_set_measure', ('C02', 'C15'))
def _(m, v, me): return None, lambda: setattr(v, 'measure', me.snap())


# ---- collections
new('collection_new', 'Collection', D=None, schema=None, view=None)
@op('collection_set_D', ('C21', 'C15'))
def _(m, c, s, n):
    b, v = check_str(s, n, 'raw'); return b, lambda: setattr(c, 'D', v)
@op('collection_set_schema', ('C21', 'C15'))
def _(m, c, s): return None, lambda: setattr(c, 'schema', s.snap())
setter('collection_set_view', 'view', lambda v: enum_bad(v, 'Collection_View'))
new('collection_schema_new', 'CollectionSchema', e={})
@op('collection_schema_add_entry', ('C21', 'C06'))
def _(m, c, s, n, f):
    b, v = check_str(s, n, 'ascii'); return b, lambda: c.e.__setitem__(v, f.snap())
@op('collection_field_new', ('C21', 'C06'))
def _(m, st, s, n):
    b, v = check_str(s, n, 'utf8')
    return (b or enum_bad(st, 'Collection_Subtype')), lambda: Obj('CollectionField', st=st, N=v, O=None, V=None, E=None)
setter('collection_field_set_O', 'O')
setter('collection_field_set_V', 'V', bool_bad, conv=bool)
setter('collection_field_set_E', 'E', bool_bad, conv=bool)
@op('generator_set_collection', ('C21', 'C15'))
def _(m, g, c): return ('C21' if g.collection is not None else None), lambda: setattr(g, 'collection', c.snap())


# ---------------------------------------------------------------- drawing
def draw(c, *ops): c.ops.extend(ops)


for _n, _o in dict(b='b', B='B', bstar='b*', Bstar='B*', f='f', fstar='f*', h='h', n='n', s='s', S='S', W='W', Wstar='W*').items():
    HANDLERS['dc_cmd_' + _n] = (lambda o: lambda m, c: (None, lambda: draw(c, (o, []))))(_o); OWNER['dc_cmd_' + _n] = ('C03',)
for _n in ('c', 'cm', 'l', 'm', 're', 'v', 'y', 'M'):
    HANDLERS['dc_cmd_' + _n] = (lambda o: lambda m, c, *a: (None, lambda: draw(c, (o, list(a)))))(_n); OWNER['dc_cmd_' + _n] = ('C03',)
for _n in ('G', 'g', 'RG', 'rg', 'K', 'k'):
    HANDLERS['dc_cmd_' + _n] = (lambda o: lambda m, c, *a: (None, lambda: draw(c, (o, [clamp(x) for x in a]))))(_n); OWNER['dc_cmd_' + _n] = ('C03',)


@op('dc_cmd_w', ('C03',))
def _(m, c, w): return ('C15' if w < 0 else None), lambda: draw(c, ('w', [w]))
@op('dc_cmd_i', ('C03',))
def _(m, c, w): return (None if 0 <= w <= 100 else 'C15'), lambda: draw(c, ('i', [w]))
@op('dc_cmd_j', ('C03',))
def _(m, c, v): return enum_bad(v, 'Line_Join'), lambda: draw(c, ('j', [v]))
@op('dc_cmd_J', ('C03',))
def _(m, c, v): return enum_bad(v, 'Line_Cap'), lambda: draw(c, ('J', [v]))
@op('dc_cmd_ri', ('C03',))
def _(m, c, v): return enum_bad(v, 'Rendering_Intent'), lambda: draw(c, ('ri', [Name(RI[v])]))


def dash(arr, n): return 'C15' if n <= 0 or any(x < 0 for x in arr[:n]) else None


@op('dc_cmd_d', ('C03',))
def _(m, c, arr, n, ph): return dash(arr, n), lambda: draw(c, ('d', [list(arr[:n]), ph]))


@op('dc_cmd_q', ('C05', 'C03'))
def _(m, c):
    def ap(): draw(c, ('q', [])); c.stack.append('q')
    return None, ap
@op('dc_cmd_Q', ('C05', 'C03'))
def _(m, c):
    def ap(): draw(c, ('Q', [])); c.stack.pop()
    return (None if c.stack and c.stack[-1] == 'q' else 'C05'), ap
@op('dc_cmd_EMC', ('C05', 'C03'))
def _(m, c):
    def ap(): draw(c, ('EMC', [])); c.stack.pop()
    return (None if c.stack and c.stack[-1] == 'mc' else 'C05'), ap


def open_mc(c, o):
    draw(c, o); c.stack.append('mc')


def mc_bad(c): return 'C05' if 'mc' in c.stack else None


def tagdict(tags): return {k: T(v) for k, v in tags.items()}


def struct_tag(s): return Name(STRUCT[s.st]) if s.role is None else Name(s.role.name)


@op('dc_cmd_BDC_builtin', ('C18', 'C05', 'C03'))
def _(m, c, sid, tags):
    s = m.ent(c.gen, 'StructureItemId', sid)
    bad = None
    if s is None: bad = 'C15'
    elif mc_bad(c): bad = 'C05'
    elif s in c.structs: bad = 'C18'
    def ap():
        d = {'MCID': len(c.structs)}
        if tags is not None: d.update(tagdict(tags.t))
        c.structs.append(s)
        open_mc(c, ('BDC', [struct_tag(s), d]))
        m.count('bdc_struct')
    return bad, ap


@op('dc_cmd_BDC_testing', ('C05', 'C03', 'C06'))
def _(m, c, s, n, tags):
    bad, v = check_str(s, n, 'ascii')
    if not bad and tags is None: bad = 'C15'
    if not bad: bad = mc_bad(c)
    return bad, lambda: open_mc(c, ('BDC', [Name(v[1:] if v[:1] == '/' else v), tagdict(tags.t)]))


@op('dc_cmd_BDC_ocg', ('C05', 'C03', 'C15'))
def _(m, c, i):
    e = m.ent(c.gen, 'OptionalContentGroupId', i)
    bad = 'C15' if e is None else mc_bad(c)
    def ap():
        if e not in c.ocgs: c.ocgs.append(e)
        open_mc(c, ('BDC', [Name('OC'), R('Properties', e)]))
    return bad, ap


@op('dc_cmd_BMC', ('C05', 'C03'))
def _(m, c, s):
    bad, v = check_str(s, -1, 'raw')
    if not bad and (len(v) < 2 or v[0] == '/'): bad = 'C15'
    return bad or mc_bad(c), lambda: open_mc(c, ('BMC', [Name(v)]))


new('bdc_tags_new', 'BDCTags', t={})
@op('bdc_tags_add_tag', ('C06', 'C15'))
def _(m, o, k, kn, v, vn):
    b, kk = check_str(k, kn, 'ascii')
    b2, vv = check_str(v, vn, 'ascii')
    return b or b2, lambda: o.t.__setitem__(kk, vv)


def res_op(name, base, opname, cat):
    def h(m, c, i):
        e = m.ent(c.gen, base, i)
        return ('C15' if e is None else None), lambda: (draw(c, (opname, [R(cat, e)])), m.count('res_' + cat))
    HANDLERS[name] = h; OWNER[name] = ('C04', 'C03', 'C15')


res_op('dc_cmd_Do_trgroup', 'TransparencyGroupId', 'Do', 'XObject')
res_op('dc_cmd_Do_image', 'ImageId', 'Do', 'XObject')
res_op('dc_cmd_gs', 'GraphicsStateId', 'gs', 'ExtGState')
res_op('dc_cmd_sh', 'ShadingId', 'sh', 'Shading')


def _setcol(stroke):
    def h(m, c, col):
        bad, ops = color_ops(m, c.gen, col.c, stroke)
        return bad, lambda: (draw(c, *ops), m.count('color_' + col.c[0]))
    return h
HANDLERS['dc_set_stroke'] = _setcol(True)
HANDLERS['dc_set_nonstroke'] = _setcol(False)
OWNER['dc_set_stroke'] = OWNER['dc_set_nonstroke'] = ('C03', 'C04', 'C15')


@op('dc_set_page_transition', ('C02', 'C15'))
def _(m, c, t): return (None if c.type == 'page' else 'C15'), lambda: setattr(c, 'trans', dict(t.v))
@op('dc_add_simple_navigation', ('C02', 'C15'))
def _(m, c, ids, n, tr):
    bad = None if c.type == 'page' else 'C15'
    es = [m.ent(c.gen, 'OptionalContentGroupId', i) for i in (ids or [])[:max(n, 0)]]
    if n < 0: bad = bad or 'C15'
    if any(e is None for e in es): bad = bad or 'C15'
    elif any(e not in c.ocgs for e in es): bad = bad or 'C15'
    return bad, lambda: setattr(c, 'nav', (es, None if tr is None else dict(tr.v)) if es else None)
@op('dc_set_custom_page_properties', ('C02', 'C15'))
def _(m, c, p):
    def ap():
        c.custom = p.snap(); c.group = c.custom.group
    return (None if c.type == 'page' else 'C15'), ap
@op('dc_annotate', ('C19', 'C15'))
def _(m, c, i):
    e = m.ent(c.gen, 'AnnotationId', i)
    bad = None
    if e is None: bad = 'C15'
    elif e in c.annots: bad = 'C19'
    elif c.type != 'page': bad = 'C15'
    return bad, lambda: (c.annots.append(e), m.count('annotate'))
@op('dc_set_transparency_group_properties', ('C02', 'C20', 'C15'))
def _(m, c, t): return (None if c.type in ('page', 'trgroup') else 'C15'), lambda: setattr(c, 'group', t.snap())
@op('dc_set_group_matrix', ('C20', 'C15'))
def _(m, c, *v): return (None if c.type in ('form', 'tiling', 'trgroup') else 'C15'), lambda: setattr(c, 'matrix', list(v))
@op('dc_append_viewport', ('C02', 'C15'))
def _(m, c, v): return (None if c.type == 'page' else 'C15'), lambda: c.vps.append(v.snap())


# ---------------------------------------------------------------- text
new('text_sequence_new', 'TextSequence', e=[], at=False)


@op('text_sequence_append_codepoint', ('C12', 'C15'))
def _(m, s, cp):
    return (None if cp < 0x110000 and not 0xd800 <= cp < 0xe000 else 'C12'), lambda: s.e.append(('cp', cp))
@op('text_sequence_append_string', ('C12', 'C06'))
def _(m, s, t, n):
    b, v = check_str(t, n, 'utf8'); return b, lambda: s.e.append(('str', v))
@op('text_sequence_append_kerning', ('C12', 'C03'))
def _(m, s, k): return None, lambda: s.e.append(('kern', k))
@op('text_sequence_append_actualtext_start', ('C12', 'C06'))
def _(m, s, t, n):
    b, v = check_str(t, n, 'utf8')
    def ap(): s.e.append(('at', v)); s.at = True
    return b or ('C05' if s.at else None), ap
@op('text_sequence_append_actualtext_end', ('C12', 'C05'))
def _(m, s):
    def ap(): s.e.append(('ate',)); s.at = False
    return (None if s.at else 'C05'), ap
@op('text_sequence_append_raw_glyph', ('C12', 'C15'))
def _(m, s, gid, cp):
    return ('C12' if gid == 0 or cp >= 0x110000 or 0xd800 <= cp < 0xe000 else None), lambda: s.e.append(('gid', gid, cp))
@op('text_sequence_append_ligature_glyph', ('C12', 'C06'))
def _(m, s, gid, t, n):
    b, v = check_str(t, n, 'utf8')
    return b or ('C12' if gid == 0 else None), lambda: s.e.append(('gid', gid, v))


@op('dc_text_new')
def _(m, c): return None, lambda: Obj('Text', ctx=CtxRef(c), ev=[])


class CtxRef:
    def __init__(self, c): self.c = c


def tev(name, f, owner=('C03', 'C15')):
    def h(m, t, *a):
        bad, ev = f(m, t, *a)
        return bad, lambda: t.ev.append(ev)
    HANDLERS['text_' + name] = h; OWNER['text_' + name] = owner


def _tj(m, t, s, n):
    b, v = check_str(s, n, 'utf8'); return b, ('Tj', v)
tev('cmd_Tj', _tj, ('C12', 'C06'))
tev('set_nonstroke', lambda m, t, c: (None, ('color', c.c, False)))
tev('set_stroke', lambda m, t, c: (None, ('color', c.c, True)))
tev('cmd_BDC_builtin', lambda m, t, i: (None, ('bdc', i)))
tev('cmd_EMC', lambda m, t: (None, ('EMC',)))
for _n in ('Tc', 'Td', 'TD', 'TL', 'Tm', 'w', 'M'):
    tev('cmd_' + _n, (lambda o: lambda m, t, *a: (None, ('op', o, list(a))))(_n))
tev('cmd_Tstar', lambda m, t: (None, ('op', 'T*', [])))
tev('cmd_Tf', lambda m, t, f, s: (None, ('Tf', f, s)))
tev('cmd_Tr', lambda m, t, v: (enum_bad(v, 'Text_Mode'), ('op', 'Tr', [v])))
tev('cmd_j', lambda m, t, v: (enum_bad(v, 'Line_Join'), ('op', 'j', [v])))
tev('cmd_J', lambda m, t, v: (enum_bad(v, 'Line_Cap'), ('op', 'J', [v])))
tev('cmd_gs', lambda m, t, i: (None, ('gs', i)))


def _td(m, t, arr, n, ph):
    # an invalid dash may be reported by this call or when the text is shown
    if n < 0: return 'C15', None
    return ('?' if dash(arr, n) else None), ('d', list(arr[:n]), ph)
tev('cmd_d', _td)


@op('text_cmd_TJ', ('C12', 'C05'))
def _(m, t, s):
    def ap():
        t.ev.append(('TJ', s.e)); s.e = []; s.at = False
    return ('C05' if s.at else None), ap


def glyphs(font, text):
    out = []
    for ch in text:
        g = font.face.gid(ord(ch))
        if g == 0: return None
        out.append(Gl(g, ch))
    return out


def text_ops(m, c, ev):
    """expands a text object: (bad, ops, structs used)"""
    g = c.gen
    ops = [('BT', [])]
    st = list(c.stack) + ['T']
    structs = list(c.structs)
    font = None
    for e in ev:
        k = e[0]
        if k == 'op':
            if e[1] == 'w' and e[2][0] < 0: return 'C15', None, None
            ops.append((e[1], e[2]))
        elif k == 'd':
            if dash(e[1], len(e[1])): return 'C15', None, None
            ops.append(('d', [e[1], e[2]]))
        elif k == 'Tf':
            font = m.ent(g, 'FontId', e[1])
            if font is None: return 'C15', None, None
            ops.append(('Tf', [R('Font', font), e[2]]))
        elif k == 'gs':
            s = m.ent(g, 'GraphicsStateId', e[1])
            if s is None: return 'C15', None, None
            ops.append(('gs', [R('ExtGState', s)]))
        elif k == 'color':
            bad, co = color_ops(m, g, e[1], e[2])
            if bad: return bad, None, None
            ops.extend(co)
        elif k == 'bdc':
            s = m.ent(g, 'StructureItemId', e[1])
            if s is None: return 'C15', None, None
            if s in structs: return 'C18', None, None
            if 'mc' in st: return 'C05', None, None
            ops.append(('BDC', [struct_tag(s), {'MCID': len(structs)}]))
            structs.append(s); st.append('mc')
        elif k == 'EMC':
            if st[-1] != 'mc': return 'C05', None, None
            st.pop(); ops.append(('EMC', []))
        elif k == 'Tj':
            if font is None: return 'C15', None, None
            gl = glyphs(font, e[1])
            if gl is None: return 'C12', None, None
            ops.append(('Tj', [('G', font, gl)]))
        elif k == 'TJ':
            if font is None: return 'C15', None, None
            cur = []
            for x in e[1]:
                if x[0] == 'cp':
                    gl = glyphs(font, chr(x[1]))
                    if gl is None: return 'C12', None, None
                    cur.extend(gl)
                elif x[0] == 'str':
                    gl = glyphs(font, x[1])
                    if gl is None: return 'C12', None, None
                    cur.extend(gl)
                elif x[0] == 'kern': cur.append(x[1])
                elif x[0] == 'gid':
                    if x[1] >= font.face.num_glyphs: return 'C12', None, None
                    cur.append(Gl(x[1], x[2] if isinstance(x[2], str) else chr(x[2]) if x[2] else None))
                elif x[0] == 'at':
                    ops.append(('TJ', [('A', font, cur)])); cur = []
                    ops.append(('BDC', [Name('Span'), {'ActualText': T(x[1])}]))
                elif x[0] == 'ate':
                    ops.append(('TJ', [('A', font, cur)])); cur = []
                    ops.append(('EMC', []))
            ops.append(('TJ', [('A', font, cur)]))
    if st[-1] != 'T': return 'C05', None, None
    ops.append(('ET', []))
    return None, ops, structs


@op('dc_render_text', ('C12', 'C03', 'C15'))
def _(m, c, s, n, f, size, x, y):
    bad, v = check_str(s, n, 'utf8')
    if bad: return bad, None
    bad, ops, structs = text_ops(m, c, [('Tf', f, size), ('op', 'Td', [x, y]), ('Tj', v)])
    return bad, lambda: (draw(c, *ops), m.count('text'))


@op('dc_render_text_obj', ('C12', 'C03', 'C05', 'C15'))
def _(m, c, t):
    if t.ctx.c is not c: return 'C15', None
    bad, ops, structs = text_ops(m, c, t.ev)
    def ap():
        draw(c, *ops); c.structs = structs; m.count('textobj')
    return bad, ap


@op('generator_text_width', ('C12', 'C15'))
def _(m, g, s, n, f, size):
    bad, v = check_str(s, n, 'utf8')
    if bad: return bad, None
    e = m.ent(g, 'FontId', f)
    if v == '': return '?' if e is None else None, None
    if e is None: return 'C15', None
    gl = glyphs(e, v)
    if gl is None: return '?', None
    w = sum(e.face.glyph(x.gid)[0] for x in gl) * size / e.face.upem
    k = sum(e.face.kern(a.gid, b.gid) for a, b in zip(gl, gl[1:])) * size / e.face.upem
    def ap(ov=None):
        # kerning may count or not
        tol = 1e-9 * (sum(abs(e.face.glyph(x.gid)[0]) for x in gl) * abs(size) / e.face.upem + abs(k)) + 1e-9
        m.count('textwidth')
        if ov is not None and math.isfinite(size) and not min(abs(ov - w), abs(ov - w - k)) <= tol:
            m.issue('C12', 'textwidth', 'text width of %r is %r, expected %r' % (v, ov, w))
    ap.wants = True
    return None, ap


_missing = [n for n in SPEC if n not in HANDLERS and not n.endswith('_destroy') and n != 'error_message']
assert not _missing, _missing
for _n in SPEC: OWNER.setdefault(_n, ('C15',))
