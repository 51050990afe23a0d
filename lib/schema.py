"""Walks a parsed file from its trailer and checks every position against ISO 32000: kind of object, required keys, value types.
Written from the specification, knows nothing of the history that made the file.  Unknown keys are not an issue."""
import re
import pdf as P

NUM = (int, float)


def isnum(o): return isinstance(o, NUM) and not isinstance(o, bool)


class W:
    def __init__(self, p):
        self.p = p
        self.out = []
        self.seen = set()      # (object number, type name)
        self.role = {}         # object number -> set of type names
        self.n = 0

    def bad(self, path, msg):
        if len(self.out) < 40: self.out.append(('schema:' + re.sub(r'\d+', '#', path), '%s: %s' % (path, msg)))

    def get(self, o): return self.p.get(o)

    # ---- a spec is a string: alternatives separated by '|'; prefixes: [X array of X, {X dictionary of X, & must be a reference
    def check(self, spec, o, path):
        self.n += 1
        if '|' in spec and spec[0] not in '[{':
            for s in spec.split('|'):
                if self.kind(s, o): self.check(s, o, path); return
            self.bad(path, 'expected %s, found %s' % (spec, self.short(o))); return
        if spec[0] == '&':
            if not isinstance(o, P.Ref): self.bad(path, 'must be an indirect reference, found ' + self.short(o)); return
            spec = spec[1:]
        if not self.kind(spec, o):
            self.bad(path, 'expected %s, found %s' % (spec, self.short(o))); return
        v = self.get(o)
        if spec[0] == '[':
            for i, x in enumerate(v): self.check(spec[1:], x, '%s[%d]' % (path, i))
        elif spec[0] == '{':
            for k, x in v.items(): self.check(spec[1:], x, path + '/*')
        elif spec in T:
            key = None
            if isinstance(o, P.Ref):
                key = (int(o), spec)
                if key in self.seen: return
                self.seen.add(key)
                self.role.setdefault(int(o), set()).add(spec)
            self.typed(spec, v, spec if key else path)

    def kind(self, spec, o):
        """shallow test"""
        v = self.get(o)
        if spec[0] == '&': return isinstance(o, P.Ref) and self.kind(spec[1:], o)
        if spec[0] == '[': return isinstance(v, list)
        if spec[0] == '{': return isinstance(v, dict)
        if spec[0] == '/': return isinstance(v, P.Name) and v == spec[1:]
        f = PRIM.get(spec)
        if f: return f(v)
        t = T[spec]
        if t.get('stream'):
            if not isinstance(v, P.Stream) or not isinstance(o, P.Ref): return False
            d = v.d
        elif t.get('either') and isinstance(v, P.Stream) and isinstance(o, P.Ref): d = v.d
        else:
            if not isinstance(v, dict): return False
            d = v
        for k, s in t.get('tag', {}).items():       # discriminating entries
            x = self.get(d.get(k))
            if x is None: return False
            if isinstance(s, tuple):
                if x not in s: return False
            elif x != s: return False
        return True

    def typed(self, name, v, path):
        t = T[name]
        d = v.d if isinstance(v, P.Stream) else v
        if 'Type' in d and t.get('type') and d['Type'] != t['type']: self.bad(path, '/Type is %r' % (d['Type'],))
        for k, s in t.get('req', {}).items():
            if k not in d: self.bad(path, 'required key /%s is missing' % k)
            else: self.check(s, d[k], path + '/' + k)
        for k, s in t.get('opt', {}).items():
            if k in d: self.check(s, d[k], path + '/' + k)
        f = t.get('fn')
        if f: f(self, v, path)

    def short(self, o):
        v = self.get(o)
        s = repr(v)
        return ('%r = ' % o if isinstance(o, P.Ref) else '') + (s if len(s) < 150 else s[:140] + '...')

    def run(self):
        tr = self.p.trailer
        self.check('&Catalog', tr.get('Root'), 'trailer/Root')
        if 'Info' in tr: self.check('&Info', tr['Info'], 'trailer/Info')
        # an object cannot play incompatible roles
        for n, roles in self.role.items():
            r = {T[x].get('group', x) for x in roles}
            if len(r) > 1: self.bad('object', 'object %d is used as %s' % (n, ' and as '.join(sorted(r))))
        return self.out


def date(s):
    return isinstance(s, bytes) and bool(re.match(rb"D:\d{4}(\d\d(\d\d(\d\d(\d\d(\d\d(Z|[+-]\d\d'(\d\d'?)?)?)?)?)?)?)?$", s))


def text(s):
    if not isinstance(s, bytes): return False
    try: return P.text(s) is not None
    except Exception: return False


PRIM = {
    'name': lambda v: isinstance(v, P.Name), 'int': lambda v: isinstance(v, int) and not isinstance(v, bool), 'num': isnum,
    'uint': lambda v: isinstance(v, int) and not isinstance(v, bool) and v >= 0,
    'pint': lambda v: isinstance(v, int) and not isinstance(v, bool) and v > 0,
    'bool': lambda v: isinstance(v, bool), 'str': lambda v: isinstance(v, bytes), 'text': text, 'date': date,
    'ascii': lambda v: isinstance(v, bytes) and all(c < 128 for c in v),
    'null': lambda v: v is None,
    'rect': lambda v: isinstance(v, list) and len(v) == 4 and all(isnum(x) for x in v),
    'matrix': lambda v: isinstance(v, list) and len(v) == 6 and all(isnum(x) for x in v),
    'domain': lambda v: isinstance(v, list) and len(v) >= 2 and len(v) % 2 == 0 and all(isnum(x) for x in v) and all(v[i] <= v[i + 1] for i in range(0, len(v), 2)),
    'pairs': lambda v: isinstance(v, list) and len(v) >= 2 and len(v) % 2 == 0 and all(isnum(x) for x in v),
    'nums': lambda v: isinstance(v, list) and all(isnum(x) for x in v),
    'num3': lambda v: isinstance(v, list) and len(v) == 3 and all(isnum(x) for x in v),
    'num2': lambda v: isinstance(v, list) and len(v) == 2 and all(isnum(x) for x in v),
    'unit': lambda v: isnum(v) and 0 <= v <= 1,
    'color': lambda v: isinstance(v, list) and len(v) in (0, 1, 3, 4) and all(isnum(x) and 0 <= x <= 1 for x in v),
    'dict': lambda v: isinstance(v, dict), 'array': lambda v: isinstance(v, list), 'stream': lambda v: isinstance(v, P.Stream),
    'any': lambda v: True,
    'dest': lambda v: isinstance(v, list) and len(v) >= 2,
    'dash': lambda v: isinstance(v, list) and len(v) == 2 and isinstance(v[0], list) and all(isnum(x) for x in v[0]) and isnum(v[1]),
    'bits': lambda v: v in (1, 2, 4, 8, 16) and not isinstance(v, bool),
}


# ------------------------------------------------------------------ custom rules
def f_catalog(w, d, path):
    v = d.get('Version')
    if v is not None and v not in ('1.4', '1.5', '1.6', '1.7', '2.0'): w.bad(path, 'bad Version')
    if 'PageLayout' in d and d['PageLayout'] not in ('SinglePage', 'OneColumn', 'TwoColumnLeft', 'TwoColumnRight', 'TwoPageLeft', 'TwoPageRight'): w.bad(path, 'PageLayout %r' % d['PageLayout'])
    if 'PageMode' in d and d['PageMode'] not in ('UseNone', 'UseOutlines', 'UseThumbs', 'FullScreen', 'UseOC', 'UseAttachments'): w.bad(path, 'PageMode %r' % d['PageMode'])


def f_pages(w, d, path):
    n = 0
    for k in w.get(d.get('Kids')) or []:
        o = w.get(k)
        if not isinstance(o, dict): continue
        n += o.get('Count', 0) if o.get('Type') == 'Pages' else 1
        if w.get(o.get('Parent')) is not d: w.bad(path, 'a kid has another parent')
    if n != d.get('Count'): w.bad(path, 'Count is %r, the leaves are %d' % (d.get('Count'), n))
    kids = [int(k) for k in (w.get(d.get('Kids')) or []) if isinstance(k, P.Ref)]
    if len(set(kids)) != len(kids): w.bad(path, 'a kid occurs twice')


def f_page(w, d, path):
    mb = d; n = 0
    while mb is not None and 'MediaBox' not in mb and n < 50: mb = w.get(mb.get('Parent')); n += 1
    if not mb or 'MediaBox' not in mb: w.bad(path, 'no MediaBox')
    rs = d; n = 0
    while rs is not None and 'Resources' not in rs and n < 50: rs = w.get(rs.get('Parent')); n += 1
    if not rs or 'Resources' not in rs: w.bad(path, 'no Resources')


def f_nametree(leaf):
    def f(w, d, path):
        def walk(n, lim, depth):
            if depth > 40: w.bad(path, 'tree too deep'); return []
            keys = []
            if 'Names' in n:
                a = w.get(n['Names'])
                if not isinstance(a, list) or len(a) % 2: w.bad(path, 'Names is not an array of pairs'); return []
                for k, v in zip(a[::2], a[1::2]):
                    kk = w.get(k)
                    if not isinstance(kk, bytes): w.bad(path, 'key is not a string'); continue
                    keys.append(bytes(kk)); w.check(leaf, v, path + '/Names')
            elif 'Kids' in n:
                for k in w.get(n['Kids']): keys += walk(w.get(k), True, depth + 1)
            elif n is not d or lim: w.bad(path, 'node without Names or Kids')
            if lim:
                l = w.get(n.get('Limits'))
                if not isinstance(l, list) or len(l) != 2: w.bad(path, 'node without Limits')
                elif keys and [bytes(w.get(x)) for x in l] != [keys[0], keys[-1]]: w.bad(path, 'Limits are wrong')
            elif 'Limits' in n:
                l = w.get(n['Limits'])
                if keys and [bytes(w.get(x)) for x in l] != [keys[0], keys[-1]]: w.bad(path, 'Limits are wrong')
            return keys
        keys = walk(d, False, 0)
        if any(a >= b for a, b in zip(keys, keys[1:])): w.bad(path, 'keys are not in strictly ascending order')
    return f


def f_numtree(leaf):
    def f(w, d, path):
        def walk(n, lim, depth):
            if depth > 40: w.bad(path, 'tree too deep'); return []
            keys = []
            if 'Nums' in n:
                a = w.get(n['Nums'])
                if not isinstance(a, list) or len(a) % 2: w.bad(path, 'Nums is not an array of pairs'); return []
                for k, v in zip(a[::2], a[1::2]):
                    if not PRIM['int'](k): w.bad(path, 'key is not an integer'); continue
                    keys.append(k); w.check(leaf, v, path + '/Nums')
            elif 'Kids' in n:
                for k in w.get(n['Kids']): keys += walk(w.get(k), True, depth + 1)
            else: w.bad(path, 'node without Nums or Kids')
            if 'Limits' in n or lim:
                l = w.get(n.get('Limits'))
                if not isinstance(l, list) or len(l) != 2 or (keys and list(l) != [keys[0], keys[-1]]): w.bad(path, 'Limits are wrong')
            return keys
        keys = walk(d, False, 0)
        if any(a >= b for a, b in zip(keys, keys[1:])): w.bad(path, 'keys are not in strictly ascending order')
        return keys
    return f


def f_labels(w, d, path):
    f_numtree('PageLabel')(w, d, path)


def f_dest(w, o, path):
    a = w.get(o)
    if not isinstance(a, list) or len(a) < 2: w.bad(path, 'bad destination'); return
    w.check('&Page', a[0], path + '[0]')
    k = a[1]
    n = {'XYZ': 3, 'Fit': 0, 'FitB': 0, 'FitH': 1, 'FitV': 1, 'FitBH': 1, 'FitBV': 1, 'FitR': 4}.get(k)
    if n is None: w.bad(path, 'destination type %r' % (k,)); return
    if len(a) - 2 != n: w.bad(path, '%r has %d operands' % (k, len(a) - 2)); return
    for x in a[2:]:
        if not (isnum(w.get(x)) or (k != 'FitR' and w.get(x) is None)): w.bad(path, 'operand %r' % (x,))


def f_outlines(w, d, path):
    """root or item with children"""
    def kids(n, np):
        first, last = n.get('First'), n.get('Last')
        if (first is None) != (last is None): w.bad(np, 'First without Last'); return 0, False
        if first is None: return 0
        cur, prev, seen, vis = first, None, set(), 0
        while cur is not None:
            if not isinstance(cur, P.Ref) or int(cur) in seen: w.bad(np, 'bad sibling chain'); return vis
            seen.add(int(cur))
            w.check('&OutlineItem', cur, np)
            o = w.get(cur)
            if not isinstance(o, dict): return vis
            if w.get(o.get('Parent')) is not n: w.bad(np, 'wrong Parent')
            if (o.get('Prev') is None) != (prev is None) or (prev is not None and int(o['Prev']) != int(prev)): w.bad(np, 'wrong Prev')
            vis += 1
            sub = kids(o, np)
            c = o.get('Count')
            if sub:
                if not isinstance(c, int) or c == 0: w.bad(np, 'Count is missing')
                elif abs(c) != sub: w.bad(np, 'Count %d of an item whose visible descendants are %d' % (c, sub))
                if isinstance(c, int) and c > 0: vis += sub
            elif c not in (None, 0): w.bad(np, 'Count of an item without children')
            prev, cur = cur, o.get('Next')
        if int(prev) != int(last): w.bad(np, 'Last is not the last')
        return vis
    n = kids(d, path)
    c = d.get('Count')
    if n and c != n: w.bad(path, 'Count of the root is %r, %d items are visible' % (c, n))


def f_font(w, d, path):
    s = d.get('Subtype')
    if s == 'Type1': w.check('Type1', d, path)
    elif s == 'Type0': w.check('Type0', d, path)
    else: w.bad(path, 'font Subtype %r' % (s,))


def f_type0(w, d, path):
    ds = w.get(d.get('DescendantFonts'))
    if isinstance(ds, list) and len(ds) != 1: w.bad(path, 'DescendantFonts must have one element')


def f_cidfont(w, d, path):
    a = w.get(d.get('W'))
    i = 0
    if isinstance(a, list):
        while i < len(a):
            if not PRIM['uint'](a[i]) or i + 1 >= len(a): w.bad(path, 'W array is malformed'); return
            x = w.get(a[i + 1])
            if isinstance(x, list):
                if not all(isnum(y) for y in x): w.bad(path, 'W array is malformed')
                i += 2
            else:
                if i + 2 >= len(a) or not PRIM['uint'](x) or not isnum(a[i + 2]): w.bad(path, 'W array is malformed'); return
                i += 3
    fd = w.get(d.get('FontDescriptor'))
    if isinstance(fd, dict) and fd.get('FontName') != d.get('BaseFont'): w.bad(path, 'FontName differs from BaseFont')


def f_fontdesc(w, d, path):
    n = sum(k in d for k in ('FontFile', 'FontFile2', 'FontFile3'))
    if n != 1: w.bad(path, '%d font files' % n)
    fl = d.get('Flags')
    if isinstance(fl, int) and bool(fl & 4) == bool(fl & 32): w.bad(path, 'Flags %d: exactly one of Symbolic and Nonsymbolic must be set' % fl)


def ncomp(w, cs):
    v = w.get(cs)
    if isinstance(v, P.Name): return {'DeviceGray': 1, 'DeviceRGB': 3, 'DeviceCMYK': 4}.get(v)
    if isinstance(v, list) and v:
        k = v[0]
        if k == 'ICCBased':
            s = w.get(v[1]) if len(v) > 1 else None
            return s.d.get('N') if isinstance(s, P.Stream) else None
        return {'Lab': 3, 'CalRGB': 3, 'CalGray': 1, 'Separation': 1, 'Indexed': 1}.get(k)


def f_cs(w, o, path, pattern=False):
    v = w.get(o)
    if isinstance(v, P.Name):
        if v not in ('DeviceGray', 'DeviceRGB', 'DeviceCMYK') and not (pattern and v == 'Pattern'): w.bad(path, 'colour space %r' % v)
        return
    if not isinstance(v, list) or not v: w.bad(path, 'colour space %s' % w.short(o)); return
    k = v[0]
    if k == 'ICCBased':
        if len(v) != 2: w.bad(path, 'ICCBased array'); return
        w.check('ICC', v[1], path)
    elif k == 'Lab':
        if len(v) != 2: w.bad(path, 'Lab array'); return
        w.check('Lab', v[1], path)
    elif k == 'Separation':
        if len(v) != 4: w.bad(path, 'Separation array'); return
        if not isinstance(w.get(v[1]), P.Name): w.bad(path, 'Separation name')
        f_cs(w, v[2], path); w.check('Function', v[3], path)
        fo = w.get(v[3])
    elif k == 'Indexed' or k == 'DeviceN': pass
    else: w.bad(path, 'colour space family %r' % (k,))


def f_lab(w, d, path):
    wp = d.get('WhitePoint')
    if isinstance(wp, list) and (wp[1] != 1 or wp[0] <= 0 or wp[2] <= 0): w.stats_wp = True


def f_icc(w, s, path):
    n = s.d.get('N')
    if n not in (1, 3, 4): w.bad(path, 'N is %r' % (n,)); return
    data = w.p.data(s)
    if len(data) < 128 or data[36:40] != b'acsp': w.bad(path, 'not an ICC profile'); return
    sig = data[16:20]
    want = {b'GRAY': 1, b'RGB ': 3, b'Lab ': 3, b'CMYK': 4}.get(sig)
    if want is not None and want != n: w.bad(path, 'N %d for a %s profile' % (n, sig))


def f_function(w, v, path):
    d = v.d if isinstance(v, P.Stream) else v
    t = d.get('FunctionType')
    if t == 2: w.check('Function2', v, path)
    elif t == 3: w.check('Function3', v, path)
    elif t == 4: pass
    else: w.bad(path, 'FunctionType %r' % (t,))
    if t == 4:
        if not isinstance(v, P.Stream): w.bad(path, 'a type 4 function must be a stream')
        elif 'Range' not in d: w.bad(path, 'Range is missing')
        else: w.check('pairs', d['Range'], path + '/Range')


def f_function2(w, d, path):
    c0, c1 = w.get(d.get('C0', [0])), w.get(d.get('C1', [1]))
    if isinstance(c0, list) and isinstance(c1, list) and len(c0) != len(c1): w.bad(path, 'C0 and C1 differ in length')
    dom = w.get(d.get('Domain'))
    if isinstance(dom, list) and len(dom) != 2: w.bad(path, 'Domain of a one input function')


def f_function3(w, d, path):
    fs, b, e, dom = (w.get(d.get(k)) for k in ('Functions', 'Bounds', 'Encode', 'Domain'))
    if not (isinstance(fs, list) and isinstance(b, list) and isinstance(e, list) and isinstance(dom, list)): return
    if len(fs) < 1 or len(b) != len(fs) - 1 or len(e) != 2 * len(fs) or len(dom) != 2: w.bad(path, 'sizes: %d functions, %d bounds, %d encode, %d domain' % (len(fs), len(b), len(e), len(dom)))


def f_shading(w, v, path):
    d = v.d if isinstance(v, P.Stream) else v
    t = d.get('ShadingType')
    f_cs(w, d.get('ColorSpace'), path + '/ColorSpace')
    if t in (2, 3):
        w.check('Shading%d' % t, v, path)
    elif t in (4, 6):
        if not isinstance(v, P.Stream): w.bad(path, 'a mesh shading must be a stream'); return
        w.check('nums', d.get('Decode'), path + '/Decode')
        nc = ncomp(w, d.get('ColorSpace'))
        if isinstance(d.get('Decode'), list) and nc and len(d['Decode']) != 4 + 2 * (1 if 'Function' in d else nc): w.bad(path, 'Decode has %d entries for %d components' % (len(d['Decode']), nc))
        if d.get('BitsPerCoordinate') not in (1, 2, 4, 8, 12, 16, 24, 32): w.bad(path, 'BitsPerCoordinate')
        if d.get('BitsPerComponent') not in (1, 2, 4, 8, 12, 16): w.bad(path, 'BitsPerComponent')
        if d.get('BitsPerFlag') not in (2, 4, 8): w.bad(path, 'BitsPerFlag')
    else: w.bad(path, 'ShadingType %r' % (t,))


def f_pattern(w, v, path):
    d = v.d if isinstance(v, P.Stream) else v
    t = d.get('PatternType')
    if t == 1:
        if not isinstance(v, P.Stream): w.bad(path, 'a tiling pattern must be a stream'); return
        w.typed('Tiling', v, path)
    elif t == 2: w.typed('ShadingPattern', d, path)
    else: w.bad(path, 'PatternType %r' % (t,))


def f_tiling(w, v, path):
    d = v.d
    if d.get('PaintType') not in (1, 2) or d.get('TilingType') not in (1, 2, 3): w.bad(path, 'PaintType/TilingType')
    if d.get('XStep') == 0 or d.get('YStep') == 0: w.bad(path, 'step is zero')


def f_xobject(w, v, path):
    if not isinstance(v, P.Stream): w.bad(path, 'not a stream'); return
    s = v.d.get('Subtype')
    if s == 'Form': w.typed('Form', v, 'Form')
    elif s == 'Image': w.typed('Image', v, 'Image')
    else: w.bad(path, 'XObject Subtype %r' % (s,))


def f_image(w, v, path):
    d = v.d
    filt = w.get(d.get('Filter'))
    if isinstance(filt, list): filt = w.get(filt[-1]) if filt else None
    mask = w.get(d.get('ImageMask')) is True
    if mask:
        if d.get('BitsPerComponent', 1) != 1: w.bad(path, 'an image mask has 1 bit per component')
        if 'ColorSpace' in d: w.bad(path, 'an image mask has no colour space')
        if 'Mask' in d or 'SMask' in d: w.bad(path, 'an image mask has no mask')
        nc = 1
    else:
        if 'ColorSpace' not in d: w.bad(path, 'no ColorSpace'); return
        f_cs(w, d['ColorSpace'], path + '/ColorSpace')
        nc = ncomp(w, d['ColorSpace'])
        if d.get('BitsPerComponent') not in (1, 2, 4, 8, 16): w.bad(path, 'BitsPerComponent %r' % (d.get('BitsPerComponent'),)); return
    bpc = d.get('BitsPerComponent', 1)
    if 'SMask' in d:
        w.check('&Image', d['SMask'], path + '/SMask')
        m = w.get(d['SMask'])
        if isinstance(m, P.Stream):
            if m.d.get('ColorSpace') != 'DeviceGray': w.bad(path, 'soft mask is not DeviceGray')
            if 'SMask' in m.d or 'Mask' in m.d: w.bad(path, 'soft mask has a mask')

def f_group(w, d, path):
    if d.get('S') != 'Transparency': w.bad(path, 'group subtype %r' % (d.get('S'),))
    if 'CS' in d: f_cs(w, d['CS'], path + '/CS')


def f_resources(w, d, path):
    cs = w.get(d.get('ColorSpace'))
    if isinstance(cs, dict):
        for k, o in cs.items(): f_cs(w, o, path + '/ColorSpace', True)
    for k, o in (w.get(d.get('Properties')) or {}).items():
        v = w.get(o)
        if not isinstance(v, dict): w.bad(path, 'property list %s' % w.short(o))
        elif v.get('Type') == 'OCG': w.check('&OCG', o, path + '/Properties')


BM = ('Normal', 'Compatible', 'Multiply', 'Screen', 'Overlay', 'Darken', 'Lighten', 'ColorDodge', 'ColorBurn', 'HardLight', 'SoftLight', 'Difference', 'Exclusion', 'Hue', 'Saturation', 'Color', 'Luminosity')


def f_gs(w, d, path):
    if 'BM' in d and d['BM'] not in BM: w.bad(path, 'blend mode %r' % (d['BM'],))
    if 'LC' in d and d['LC'] not in (0, 1, 2): w.bad(path, 'LC')
    if 'LJ' in d and d['LJ'] not in (0, 1, 2): w.bad(path, 'LJ')
    if 'OPM' in d and d['OPM'] not in (0, 1): w.bad(path, 'OPM')
    if 'RI' in d and d['RI'] not in ('AbsoluteColorimetric', 'RelativeColorimetric', 'Saturation', 'Perceptual'): w.bad(path, 'RI %r' % (d['RI'],))
    if 'SMask' in d and not (w.get(d['SMask']) == 'None'): w.check('SoftMask', d['SMask'], path + '/SMask')
    if 'HT' in d and w.get(d['HT']) != 'Default': w.check('Halftone', d['HT'], path + '/HT')


def f_softmask(w, d, path):
    if d.get('S') not in ('Alpha', 'Luminosity'): w.bad(path, 'S %r' % (d.get('S'),))
    g = w.get(d.get('G'))
    if isinstance(g, P.Stream) and 'Group' not in g.d: w.bad(path, 'G is not a transparency group')


def f_annot(w, d, path):
    s = d.get('Subtype')
    if s not in ('Text', 'Link', 'Widget', 'FileAttachment', 'Screen', '3D', 'PrinterMark', 'Line', 'Square', 'Circle', 'Polygon', 'PolyLine', 'Highlight', 'Underline', 'Squiggly', 'StrikeOut', 'Popup', 'FreeText', 'Stamp', 'Caret', 'Ink', 'Sound', 'Movie', 'TrapNet', 'Watermark', 'Redact'):
        w.bad(path, 'annotation subtype %r' % (s,)); return
    if s == 'Link':
        if 'Dest' in d: f_dest(w, d['Dest'], path + '/Dest')
        if 'Dest' in d and 'A' in d: w.bad(path, 'both Dest and A')
    if s == 'FileAttachment':
        if 'FS' not in d: w.bad(path, 'no FS')
        else: w.check('Filespec', d['FS'], path + '/FS')
    if s == 'Line':
        l = w.get(d.get('L'))
        if not PRIM['rect'](l): w.bad(path, 'L %r' % (l,))
        le = w.get(d.get('LE'))
        if le is not None:
            ok = ('None', 'Square', 'Circle', 'Diamond', 'OpenArrow', 'ClosedArrow', 'Butt', 'ROpenArrow', 'RClosedArrow', 'Slash')
            if not isinstance(le, list) or len(le) != 2 or any(x not in ok for x in le): w.bad(path, 'LE %r' % (le,))
    if s == '3D':
        o = w.get(d.get('3DD'))
        if not isinstance(o, P.Stream) or o.d.get('Type') != '3D' or o.d.get('Subtype') not in ('U3D', 'PRC'): w.bad(path, '3DD is not a 3D stream: %s' % w.short(d.get('3DD')))
    if 'A' in d: w.check('Action', d['A'], path + '/A')
    if 'AP' in d:
        ap = w.get(d['AP'])
        if not isinstance(ap, dict) or 'N' not in ap: w.bad(path, 'AP without N'); return
        for k in ('N', 'R', 'D'):
            if k not in ap: continue
            v = w.get(ap[k])
            if isinstance(v, P.Stream): w.check('&Form', ap[k], path + '/AP')
            elif isinstance(v, dict):
                for x in v.values(): w.check('&Form', x, path + '/AP')
                if 'AS' in d and v and d['AS'] not in v and k == 'N': w.bad(path, 'AS %r is not an appearance' % (d['AS'],))
            else: w.bad(path, 'AP/%s is %s' % (k, w.short(ap[k])))
    if 'OC' in d: w.check('&OCG', d['OC'], path + '/OC')
    if s == 'Widget' and 'Parent' in d:
        w.check('&Field', d['Parent'], path + '/Parent')
        f = w.get(d['Parent'])
        if isinstance(f, dict) and 'T' not in d and not any(w.get(k) is d for k in (w.get(f.get('Kids')) or [])): w.bad(path, 'the widget is not among the kids of its field')


def f_action(w, d, path):
    s = d.get('S')
    if s == 'URI': w.check('ascii', d.get('URI'), path + '/URI')
    elif s == 'GoTo': f_dest(w, d.get('D'), path + '/D')
    elif s == 'Rendition': w.check('dict', d.get('R'), path + '/R')
    elif s == 'SetOCGState':
        st = w.get(d.get('State'))
        if not isinstance(st, list): w.bad(path, 'State is missing'); return
        for i, x in enumerate(st):
            if isinstance(x, P.Name):
                if x not in ('ON', 'OFF', 'Toggle'): w.bad(path, 'State %r' % x)
                if i + 1 >= len(st) or isinstance(st[i + 1], P.Name): pass
            else: w.check('&OCG', x, path + '/State')
    elif s == 'Trans': w.check('Transition', d.get('Trans'), path + '/Trans')
    elif s is None: w.bad(path, 'no S')


def f_field(w, d, path):
    ft = d; n = 0
    while isinstance(ft, dict) and 'FT' not in ft and 'Parent' in ft and n < 100: ft = w.get(ft['Parent']); n += 1
    leaf = not any(isinstance(w.get(k), dict) and 'T' in w.get(k) for k in (w.get(d.get('Kids')) or []))
    if d.get('FT') not in (None, 'Btn', 'Tx', 'Ch', 'Sig'): w.bad(path, 'FT %r' % (d.get('FT'),))
    for k in w.get(d.get('Kids')) or []:
        o = w.get(k)
        if not isinstance(o, dict): w.bad(path, 'kid %s' % w.short(k)); continue
        if w.get(o.get('Parent')) is not d: w.bad(path, 'a kid has another parent')
        if o.get('Subtype') == 'Widget': w.check('&Annot', k, path + '/Kids')
        else: w.check('&Field', k, path + '/Kids')


def f_structroot(w, d, path):
    pt = d.get('ParentTree')
    if pt is not None:
        f_numtree('[&StructElem|&StructElem')(w, w.get(pt), path + '/ParentTree')
    for k, v in (w.get(d.get('RoleMap')) or {}).items():
        if not isinstance(w.get(v), P.Name): w.bad(path, 'RoleMap value %r' % (v,))
    kids(w, d, path, d)


def kids(w, d, path, parent):
    k = w.get(d.get('K'))
    if k is None: return
    for x in (k if isinstance(k, list) else [d['K']]):
        v = w.get(x)
        if isinstance(v, int) and not isinstance(v, bool):
            if 'Pg' not in d: w.bad(path, 'marked content kid without Pg')
            elif v < 0: w.bad(path, 'negative MCID')
        elif isinstance(v, dict):
            t = v.get('Type')
            if t == 'MCR':
                w.check('&Page', v.get('Pg', d.get('Pg')), path + '/K/Pg'); w.check('uint', v.get('MCID'), path + '/K/MCID')
            elif t == 'OBJR': w.check('any', v.get('Obj'), path + '/K/Obj')
            else:
                w.check('&StructElem', x, path + '/K')
                if w.get(v.get('P')) is not parent: w.bad(path, 'kid with another parent')
        else: w.bad(path, 'kid %s' % w.short(x))


def f_structelem(w, d, path): kids(w, d, path, d)


def f_ocprops(w, d, path):
    l = w.get(d.get('OCGs'))
    if not isinstance(l, list): return
    known = {int(x) for x in l if isinstance(x, P.Ref)}
    D = w.get(d.get('D'))
    if isinstance(D, dict):
        for k in ('ON', 'OFF'):
            for x in w.get(D.get(k)) or []:
                if not isinstance(x, P.Ref) or int(x) not in known: w.bad(path, '%s lists something that is no OCG of the document' % k)
        if D.get('BaseState', 'ON') not in ('ON', 'OFF', 'Unchanged'): w.bad(path, 'BaseState')


def f_trans(w, d, path):
    if d.get('S', 'R') not in ('Split', 'Blinds', 'Box', 'Wipe', 'Dissolve', 'Glitter', 'R', 'Fly', 'Push', 'Cover', 'Uncover', 'Fade'): w.bad(path, 'S %r' % d['S'])
    if d.get('Dm', 'H') not in ('H', 'V'): w.bad(path, 'Dm %r' % d['Dm'])
    if d.get('M', 'I') not in ('I', 'O'): w.bad(path, 'M %r' % d['M'])
    if d.get('Di', 0) not in (0, 90, 180, 270, 315, 'None'): w.bad(path, 'Di %r' % d['Di'])


def f_halftone(w, v, path):
    d = v.d if isinstance(v, P.Stream) else v
    if d.get('HalftoneType') not in (1, 5, 6, 10, 16): w.bad(path, 'HalftoneType %r' % (d.get('HalftoneType'),))
    if d.get('HalftoneType') == 1:
        for k in ('Frequency', 'Angle'): w.check('num', d.get(k), path + '/' + k)
        if w.get(d.get('SpotFunction')) is None: w.bad(path, 'no SpotFunction')


def f_outputintent(w, d, path):
    if 'DestOutputProfile' in d: w.check('&ICC', d['DestOutputProfile'], path + '/DestOutputProfile')


def f_collection(w, d, path):
    s = w.get(d.get('Schema'))
    if s is not None:
        for k, v in s.items():
            if k == 'Type': continue
            w.check('CollectionField', v, path + '/Schema')


def f_cfield(w, d, path):
    if d.get('Subtype') not in ('S', 'D', 'N', 'F', 'Desc', 'ModDate', 'CreationDate', 'Size', 'CompressedSize'): w.bad(path, 'Subtype %r' % (d.get('Subtype'),))


def f_navnode(w, d, path):
    seen = 0
    for k in ('Next', 'Prev'):
        if k in d: w.check('&NavNode', d[k], path + '/' + k)


def f_embedded(w, v, path):
    pr = w.get(v.d.get('Params'))
    if isinstance(pr, dict):
        if 'Size' in pr and pr['Size'] != len(w.p.data(v)): w.bad(path, 'Params/Size is %r, the file has %d bytes' % (pr['Size'], len(w.p.data(v))))


def f_filespec(w, d, path):
    for k, v in (w.get(d.get('EF')) or {}).items():
        if k not in ('F', 'UF', 'DOS', 'Mac', 'Unix'): w.bad(path, 'EF/%s' % k)
        w.check('&EmbeddedFile', v, path + '/EF')


T = {
    'Catalog': dict(type='Catalog', tag={'Type': 'Catalog'}, req={'Pages': '&Pages'}, opt={
        'Outlines': '&Outlines', 'Names': 'Names', 'StructTreeRoot': '&StructTreeRoot', 'AcroForm': 'AcroForm', 'OCProperties': 'OCProperties', 'PageLabels': 'PageLabels',
        'Metadata': '&Metadata', 'OutputIntents': '[OutputIntent', 'Lang': 'text', 'MarkInfo': 'MarkInfo', 'Collection': 'Collection', 'PageLayout': 'name', 'PageMode': 'name', 'AF': '[Filespec', 'Version': 'name'}, fn=f_catalog),
    'Info': dict(opt={'Title': 'text', 'Author': 'text', 'Creator': 'text', 'Producer': 'text', 'Subject': 'text', 'Keywords': 'text', 'CreationDate': 'date', 'ModDate': 'date', 'Trapped': '/True|/False|/Unknown', 'GTS_PDFXVersion': 'text'}),
    'Pages': dict(type='Pages', tag={'Type': 'Pages'}, req={'Kids': '[&Pages|&Page', 'Count': 'uint'}, opt={'Parent': '&Pages', 'MediaBox': 'rect', 'CropBox': 'rect', 'Rotate': 'int', 'Resources': 'Resources'}, fn=f_pages),
    'Page': dict(type='Page', tag={'Type': 'Page'}, req={'Parent': '&Pages'}, opt={
        'Resources': 'Resources', 'MediaBox': 'rect', 'CropBox': 'rect', 'BleedBox': 'rect', 'TrimBox': 'rect', 'ArtBox': 'rect', 'Contents': 'stream|[stream', 'Annots': '[Annot', 'Trans': 'Transition',
        'Group': 'Group', 'VP': '[Viewport', 'PresSteps': '&NavNode', 'StructParents': 'uint', 'UserUnit': 'num', 'LastModified': 'date', 'Rotate': 'int', 'Tabs': 'name', 'Metadata': '&Metadata', 'Dur': 'num'}, fn=f_page),
    'Resources': dict(opt={'Font': '{Font', 'XObject': '{XObject', 'ExtGState': '{ExtGState', 'Shading': '{Shading', 'Pattern': '{Pattern', 'ColorSpace': 'dict', 'Properties': 'dict', 'ProcSet': 'array'}, fn=f_resources),
    'Font': dict(type='Font', tag={'Type': 'Font'}, fn=f_font),
    'Type1': dict(group='Font', req={'BaseFont': 'name'}, opt={'Encoding': 'name|dict', 'ToUnicode': '&stream'}),
    'Type0': dict(group='Font', req={'BaseFont': 'name', 'Encoding': 'name|stream', 'DescendantFonts': '[CIDFont'}, opt={'ToUnicode': '&stream'}, fn=f_type0),
    'CIDFont': dict(type='Font', tag={'Subtype': ('CIDFontType0', 'CIDFontType2')}, req={'Type': '/Font', 'BaseFont': 'name', 'CIDSystemInfo': 'CIDSystemInfo', 'FontDescriptor': '&FontDescriptor'}, opt={'DW': 'num', 'W': 'array', 'CIDToGIDMap': 'name|stream'}, fn=f_cidfont),
    'CIDSystemInfo': dict(req={'Registry': 'str', 'Ordering': 'str', 'Supplement': 'uint'}),
    'FontDescriptor': dict(type='FontDescriptor', tag={'Type': 'FontDescriptor'}, req={'FontName': 'name', 'Flags': 'uint', 'FontBBox': 'rect', 'ItalicAngle': 'num', 'Ascent': 'num', 'Descent': 'num', 'StemV': 'num'},
                           opt={'CapHeight': 'num', 'StemH': 'num', 'FontFile': '&stream', 'FontFile2': '&stream', 'FontFile3': '&FontFile3'}, fn=f_fontdesc),
    'FontFile3': dict(stream=True, req={'Subtype': '/Type1C|/CIDFontType0C|/OpenType'}),
    'XObject': dict(stream=True, group='XO', fn=f_xobject),
    'Form': dict(stream=True, group='XO', tag={'Subtype': 'Form'}, type='XObject', req={'BBox': 'rect'}, opt={'Matrix': 'matrix', 'Resources': 'Resources', 'Group': 'Group', 'StructParents': 'uint', 'StructParent': 'uint', 'OC': '&OCG', 'FormType': '/1|int'}),
    'Image': dict(stream=True, group='XO', tag={'Subtype': 'Image'}, type='XObject', req={'Width': 'pint', 'Height': 'pint'}, opt={'BitsPerComponent': 'bits', 'ImageMask': 'bool', 'Interpolate': 'bool', 'Decode': 'pairs', 'Intent': 'name', 'OC': '&OCG'}, fn=f_image),
    'Group': dict(type='Group', req={'S': '/Transparency'}, opt={'I': 'bool', 'K': 'bool'}, fn=f_group),
    'ExtGState': dict(type='ExtGState', opt={'LW': 'num', 'LC': 'int', 'LJ': 'int', 'ML': 'num', 'D': 'dash', 'RI': 'name', 'OP': 'bool', 'op': 'bool', 'OPM': 'int', 'FL': 'num', 'SM': 'num', 'SA': 'bool', 'BM': 'name', 'CA': 'unit', 'ca': 'unit', 'AIS': 'bool', 'TK': 'bool', 'UseBlackPtComp': 'name'}, fn=f_gs),
    'SoftMask': dict(type='Mask', req={'S': 'name', 'G': '&Form'}, opt={'BC': 'nums', 'TR': 'name|Function'}, fn=f_softmask),
    'Halftone': dict(either=True, type='Halftone', fn=f_halftone),
    'Shading': dict(either=True, fn=f_shading),
    'Shading2': dict(group='Shading', req={'Coords': 'rect', 'Function': 'Function|[Function'}, opt={'Domain': 'num2', 'Extend': '[bool', 'BBox': 'rect'}),
    'Shading3': dict(group='Shading', req={'Coords': 'matrix', 'Function': 'Function|[Function'}, opt={'Domain': 'num2', 'Extend': '[bool', 'BBox': 'rect'}),
    'Function': dict(either=True, req={'FunctionType': 'uint', 'Domain': 'domain'}, fn=f_function),
    'Function2': dict(group='Function', req={'N': 'num'}, opt={'C0': 'nums', 'C1': 'nums', 'Range': 'pairs'}, fn=f_function2),
    'Function3': dict(group='Function', req={'Functions': '[Function', 'Bounds': 'nums', 'Encode': 'nums'}, fn=f_function3),
    'Pattern': dict(either=True, type='Pattern', fn=f_pattern),
    'Tiling': dict(stream=True, group='Pattern', req={'BBox': 'rect', 'XStep': 'num', 'YStep': 'num', 'Resources': 'Resources', 'PaintType': 'pint', 'TilingType': 'pint'}, opt={'Matrix': 'matrix'}, fn=f_tiling),
    'ShadingPattern': dict(group='Pattern', req={'Shading': 'Shading'}, opt={'Matrix': 'matrix', 'ExtGState': 'ExtGState'}),
    'ICC': dict(stream=True, req={'N': 'pint'}, opt={'Alternate': 'any', 'Range': 'pairs'}, fn=f_icc),
    'Lab': dict(req={'WhitePoint': 'num3'}, opt={'Range': 'rect', 'BlackPoint': 'num3'}, fn=f_lab),
    'Annot': dict(type='Annot', group='AnnotOrField', req={'Subtype': 'name', 'Rect': 'rect'}, opt={'Contents': 'text', 'P': '&Page', 'NM': 'text', 'M': 'date|text', 'F': 'uint', 'AS': 'name', 'C': 'color', 'StructParent': 'uint', 'T': 'text'}, fn=f_annot),
    'Action': dict(type='Action', req={'S': 'name'}, fn=f_action),
    'Field': dict(group='AnnotOrField', opt={'Parent': '&Field', 'Kids': 'array', 'T': 'text', 'TU': 'text', 'TM': 'text', 'Ff': 'uint', 'MaxLen': 'uint', 'Opt': '[text|[text', 'TI': 'uint', 'I': '[uint'}, fn=f_field),
    'AcroForm': dict(req={'Fields': '[&Field'}, opt={'NeedAppearances': 'bool', 'DR': 'Resources', 'DA': 'str'}),
    'Outlines': dict(type='Outlines', fn=f_outlines),
    'OutlineItem': dict(req={'Title': 'text', 'Parent': '&dict'}, opt={'C': 'color', 'F': 'uint', 'Count': 'int', 'Dest': 'dest', 'A': 'Action'},
                        fn=lambda w, d, p: f_dest(w, d['Dest'], p + '/Dest') if 'Dest' in d else None),
    'Names': dict(opt={'EmbeddedFiles': 'NTFiles', 'Dests': 'dict'}),
    'NTFiles': dict(fn=f_nametree('Filespec')),
    'Filespec': dict(type='Filespec', req={'EF': 'dict'}, opt={'F': 'str', 'UF': 'text', 'Desc': 'text', 'AFRelationship': 'name'}, fn=f_filespec),
    'EmbeddedFile': dict(stream=True, type='EmbeddedFile', opt={'Subtype': 'name', 'Params': 'dict'}, fn=f_embedded),
    'StructTreeRoot': dict(type='StructTreeRoot', tag={'Type': 'StructTreeRoot'}, opt={'ParentTreeNextKey': 'uint', 'RoleMap': 'dict', 'K': 'any'}, fn=f_structroot),
    'StructElem': dict(type='StructElem', req={'S': 'name', 'P': '&StructTreeRoot|&StructElem'}, opt={'Pg': '&Page', 'T': 'text', 'Lang': 'text', 'Alt': 'text', 'ActualText': 'text', 'E': 'text'}, fn=f_structelem),
    'OCProperties': dict(req={'OCGs': '[&OCG', 'D': 'dict'}, fn=f_ocprops),
    'OCG': dict(type='OCG', tag={'Type': 'OCG'}, req={'Name': 'text'}, opt={'Intent': 'name|[name', 'Usage': 'dict'}),
    'PageLabels': dict(fn=f_labels),
    'PageLabel': dict(type='PageLabel', opt={'S': '/D|/R|/r|/A|/a', 'P': 'text', 'St': 'pint'}),
    'Metadata': dict(stream=True, type='Metadata', req={'Type': '/Metadata', 'Subtype': '/XML'}),
    'OutputIntent': dict(type='OutputIntent', req={'S': 'name', 'OutputConditionIdentifier': 'text'}, opt={'Info': 'text', 'RegistryName': 'text', 'OutputCondition': 'text'}, fn=f_outputintent),
    'MarkInfo': dict(opt={'Marked': 'bool', 'Suspects': 'bool'}),
    'Collection': dict(type='Collection', opt={'View': '/D|/T|/H|/C', 'D': 'str', 'Schema': 'dict'}, fn=f_collection),
    'CollectionField': dict(req={'Subtype': 'name', 'N': 'text'}, opt={'O': 'int', 'V': 'bool', 'E': 'bool'}, fn=f_cfield),
    'Transition': dict(type='Trans', opt={'D': 'num', 'S': 'name', 'Dm': 'name', 'M': 'name', 'SS': 'num', 'B': 'bool'}, fn=f_trans),
    'Viewport': dict(type='Viewport', req={'BBox': 'rect'}, opt={'Name': 'text', 'Measure': 'Measure'}),
    'Measure': dict(type='Measure', req={'R': 'text', 'X': '[NumberFormat', 'D': '[NumberFormat', 'A': '[NumberFormat'}, opt={'Y': '[NumberFormat'}),
    'NumberFormat': dict(type='NumberFormat', req={'U': 'text', 'C': 'num'}),
    'NavNode': dict(type='NavNode', opt={'NA': 'Action', 'PA': 'Action', 'Dur': 'num'}, fn=f_navnode),
}


def walk(p):
    """issues [(code, message)] and the number of positions checked"""
    w = W(p)
    try: w.run()
    except RecursionError: w.bad('depth', 'recursion')
    return w.out, w.n
