"""Checks a written font against the original font with an independent font engine (FreeType)."""
import re, ctypes as C
import pdf as P, ftlib

_ft = ftlib._ft
_ft.FT_Get_CID_From_Glyph_Index.argtypes = [ftlib.P, C.c_uint, C.POINTER(C.c_uint)]


def tounicode(data):
    """parses a ToUnicode CMap: code -> text; raises ValueError when malformed"""
    t = data.decode('latin-1')
    if not re.search(r'/CMapType\s+2\s+def', t) or 'begincmap' not in t or 'endcmap' not in t: raise ValueError('no CMap of type 2')
    m = re.search(r'(\d+)\s+begincodespacerange(.*?)endcodespacerange', t, re.S)
    if not m: raise ValueError('no code space range')
    out = {}
    body = t[m.end():]
    hexs = lambda s: bytes.fromhex(re.sub(r'\s', '', s))
    for m in re.finditer(r'(\d+)\s+begin(bfchar|bfrange)(.*?)end\2', body, re.S):
        n, kind, b = int(m[1]), m[2], m[3]
        if n > 100: raise ValueError('block of %d entries (at most 100 are allowed)' % n)
        if kind == 'bfchar':
            ents = re.findall(r'<([0-9A-Fa-f\s]*)>\s*<([0-9A-Fa-f\s]*)>', b)
            if re.sub(r'<[0-9A-Fa-f\s]*>|\s', '', b): raise ValueError('malformed bfchar block')
            if len(ents) != n: raise ValueError('bfchar block of %d entries announces %d' % (len(ents), n))
            for a, u in ents:
                ub = hexs(u)
                if len(hexs(a)) != 2: raise ValueError('code <%s>' % a)
                c = int(a, 16)
                if c in out: raise ValueError('code %d mapped twice' % c)
                out[c] = ub.decode('utf-16-be', 'strict') if ub else ''
        else:
            ents = re.findall(r'<([0-9A-Fa-f\s]*)>\s*<([0-9A-Fa-f\s]*)>\s*(<[0-9A-Fa-f\s]*>|\[[^\]]*\])', b)
            if len(ents) != n: raise ValueError('bfrange block announces %d' % n)
            for lo, hi, d in ents:
                lo, hi = int(lo, 16), int(hi, 16)
                if d[0] == '[':
                    ds = [hexs(x).decode('utf-16-be') for x in re.findall(r'<([^>]*)>', d)]
                    for i, c in enumerate(range(lo, hi + 1)): out[c] = ds[i]
                else:
                    ub = hexs(d[1:-1])
                    for i, c in enumerate(range(lo, hi + 1)):
                        v = ub[:-1] + bytes([ub[-1] + i])
                        out[c] = v.decode('utf-16-be')
    return out


def widths(w):
    out = {}
    i = 0
    while i < len(w):
        if isinstance(w[i + 1], list):
            for k, v in enumerate(w[i + 1]): out[w[i] + k] = v
            i += 2
        else:
            for k in range(w[i], w[i + 1] + 1): out[k] = w[i + 2]
            i += 3
    return out


def norm(outline):
    """outline in canonical form: each contour rotated to start at its smallest on-curve point, empty ones dropped"""
    r = []
    for c in outline:
        pts = [(x, y, t & 3) for x, y, t in c]
        # cubic engines repeat the start point at the end
        while len(pts) > 1 and pts[0][:2] == pts[-1][:2] and pts[-1][2] == 1: pts.pop()
        if len(pts) < 2: continue
        r.append(tuple(pts))
    return tuple(r)


def same(a, b, tol=0):
    if a == b: return True
    a, b = norm(a), norm(b)
    if a == b: return True
    if len(a) != len(b): return False
    for c, d in zip(a, b):
        if len(c) != len(d): return False
        for (x, y, t), (u, v, s) in zip(c, d):
            if t != s or abs(x - u) > tol or abs(y - v) > tol: return False
    return True


def load(c, obj):
    """(problem or None, dict of parts)"""
    p = c.p
    own = ('C11', 'C01')
    if not isinstance(obj, dict) or obj.get('Type') != 'Font' or obj.get('Subtype') != 'Type0': return 'font is %r' % (obj,), None
    if obj.get('Encoding') != 'Identity-H': return 'Encoding %r' % obj.get('Encoding'), None
    df = p.get(obj.get('DescendantFonts'))
    if not isinstance(df, list) or len(df) != 1: return 'DescendantFonts %r' % (df,), None
    cid = p.get(df[0])
    if not isinstance(cid, dict) or cid.get('Subtype') not in ('CIDFontType0', 'CIDFontType2'): return 'descendant font is %r' % (cid,), None
    fd = p.get(cid.get('FontDescriptor'))
    if not isinstance(fd, dict) or fd.get('Type') != 'FontDescriptor': return 'FontDescriptor is %r' % (fd,), None
    ff = None
    for k in ('FontFile', 'FontFile2', 'FontFile3'):
        if k in fd: ff = (k, p.get(fd[k]))
    if ff is None or not isinstance(ff[1], P.Stream): return 'no font file', None
    return None, dict(cid=cid, fd=fd, key=ff[0], ff=ff[1])


class Seac:
    """a font with accented characters made by the deprecated four operand endchar: the known finding cff-seac"""
    def __init__(self, c): self.c = c
    def __getattr__(self, k): return getattr(self.c, k)
    def bad(self, props, code, msg):
        if code in ('glyphload', 'outline', 'wrongglyph'): props, code, msg = 'C11', 'cff-seac', 'accented CFF glyphs made by endchar with four operands are lost in the subset'
        self.c.bad(props, code, msg)


def check(c, ent, obj, use):
    if str(ent.path).endswith('seac.otf'): c = Seac(c)
    p = c.p
    err, d = load(c, obj)
    if err: c.bad(('C11', 'C01'), 'fontdict', err); return
    cid, fd, ff = d['cid'], d['fd'], d['ff']
    bf = obj.get('BaseFont')
    if cid.get('BaseFont') != bf or fd.get('FontName') != bf: c.bad('C11', 'fontname', 'BaseFont %r, CIDFont %r, FontName %r' % (bf, cid.get('BaseFont'), fd.get('FontName')))
    if not re.match(r'[A-Z]{6}\+.', str(bf)): c.bad('C11', 'fontname', 'subset font name %r has no subset tag' % bf)
    want = ent.face.psname()
    if want and not ent.face.flags & (1 << 8) and str(bf)[7:] != want: c.bad('C11', 'fontname', 'subset font is called %r, the original %r' % (bf, want))
    key = ('fontname', str(bf))
    other = c.rev.setdefault(key, ent)
    if other is not ent: c.bad('C11', 'fontname', 'two different subsets share the name %s' % bf)
    st = cid['Subtype']
    sub = ff.d.get('Subtype')
    cff = st == 'CIDFontType0'
    if (d['key'] == 'FontFile2' and cff) or (d['key'] == 'FontFile3' and sub not in (('CIDFontType0C', 'OpenType') if cff else ('OpenType',))):
        c.bad('C11', 'fontfile', '%s with subtype %r for %s' % (d['key'], sub, st))
    if not cff and cid.get('CIDToGIDMap') != 'Identity': c.bad('C11', 'cidtogid', 'CIDToGIDMap is %r' % cid.get('CIDToGIDMap'))
    data = p.data(ff)
    if 'Length1' in ff.d and ff.d['Length1'] != len(data): c.bad('C11', 'length1', 'Length1 %r for %d bytes' % (ff.d['Length1'], len(data)))
    try:
        f = ftlib.Face(data)
    except ftlib.FTError as e:
        c.bad('C11', 'fontload', 'embedded font does not load: %s' % e); return
    try:
        _check(c, ent, obj, use, f, cid, fd, cff, data)
    finally:
        f.close()


def _check(c, ent, obj, use, f, cid, fd, cff, data):
    p = c.p
    src = ent.face
    # code -> glyph of the embedded font
    cidmap = None
    if cff and f.flags & (1 << 12):
        cidmap = {}
        v = C.c_uint()
        for g in range(f.num_glyphs):
            if _ft.FT_Get_CID_From_Glyph_Index(f.f, g, C.byref(v)) == 0: cidmap[v.value] = g
    try: w = widths(p.get(cid.get('W')) or [])
    except (TypeError, IndexError): c.bad('C11', 'W', 'malformed W %r' % (cid.get('W'),)); w = {}
    dw = cid.get('DW', 1000)
    tu = None
    s = p.get(obj.get('ToUnicode'))
    if isinstance(s, P.Stream):
        try: tu = tounicode(p.data(s))
        except (ValueError, UnicodeDecodeError) as e: c.bad('C12', 'tounicode', 'ToUnicode map: %s' % e)
    else: c.bad('C12', 'tounicode', 'no ToUnicode map')
    if not cff:
        for msg in sfnt_issues(data): c.bad('C11', 'sfnt', 'embedded font: %s' % msg)
    upem = src.upem
    if f.upem != upem: c.bad('C11', 'upem', 'embedded font has %d units per em, the original %d' % (f.upem, upem))
    if fd.get('FontBBox') is not None and src.flags & 1:
        b = fd['FontBBox']
        o = src.f.contents.bbox
        ex = [v * 1000 / upem for v in (o.a, o.b, o.c, o.d)]
        if not (isinstance(b, list) and len(b) == 4 and all(abs(x - y) <= 1.5 for x, y in zip(b, ex))) and not (cff and ent.coords):
            c.bad('C11', 'fontbbox', 'FontBBox is %r, the font says %r' % (b, [round(v, 1) for v in ex]))
    for code, us in sorted(use.items()):
        gids = {g for g, _ in us}
        if len(gids) > 1:
            c.bad('C12', 'code', 'code %d is used for different glyphs %s' % (code, sorted(gids))); continue
        gid = next(iter(gids))
        g2 = code if cidmap is None else cidmap.get(code)
        if g2 is None or g2 >= f.num_glyphs:
            c.bad(('C11', 'C12'), 'nocode', 'the embedded font has no glyph for code %d' % code); continue
        adv, out = src.glyph(gid)
        if not 0 <= adv < 65536 or any(abs(x) > 16383 or abs(y) > 16383 for ct in out for x, y, _ in ct):
            c.count('glyph_extreme'); continue          # differences of these numbers do not fit into a font file
        try:
            adv2, out2 = f.glyph(g2)
        except ftlib.FTError as e:
            c.bad('C11', 'glyphload', 'glyph for code %d of the embedded font: %s' % (code, e)); continue
        if not same(out, out2):
            # another glyph of the original?
            wrong = None
            for g in {x for u in use.values() for x, _ in u} | set(range(0, min(src.num_glyphs, 300))):
                if g != gid:
                    try:
                        if out2 and same(src.glyph(g)[1], out2): wrong = g; break
                    except ftlib.FTError: pass
            if wrong is not None: c.bad(('C12', 'C11'), 'wrongglyph', 'code %d should show glyph %d but shows glyph %d' % (code, gid, wrong))
            else: c.bad('C11', 'outline', 'the outline of glyph %d (code %d) differs: %s instead of %s' % (gid, code, str(out2)[:120], str(out)[:120]))
            continue
        if adv2 != adv: c.bad('C11', 'advance', 'the embedded advance of glyph %d (code %d) is %d instead of %d' % (gid, code, adv2, adv))
        wv = w.get(code, dw)
        if not isinstance(wv, (int, float)) or abs(wv - adv * 1000 / upem) > 1.0001: c.bad('C11', 'width', 'W of code %d (glyph %d) is %r, the advance %.3f' % (code, gid, wv, adv * 1000 / upem))
        texts = {t for _, t in us if t is not None}
        if tu is not None and texts:
            if len(texts) > 1: c.bad('C12', 'unicode', 'code %d stands for different texts %s' % (code, sorted(texts)))
            elif tu.get(code) != next(iter(texts)): c.bad('C12', 'unicode', 'ToUnicode maps code %d to %r instead of %r' % (code, tu.get(code), next(iter(texts))))
        c.count('glyphcmp')
        if len(out) and any(True for _ in out): c.count('glyphcmp_outline')
    c.count('fonts')


def sfnt_issues(b):
    """structural checks of a TrueType file"""
    import struct
    out = []
    if len(b) < 12: return ['too short']
    ver, n, sr, es, rs = struct.unpack('>IHHHH', b[:12])
    if ver not in (0x00010000, 0x74727565): out.append('sfnt version %08x' % ver)
    tabs = {}
    for i in range(n):
        t, ck, off, ln = struct.unpack('>4sIII', b[12 + 16 * i:28 + 16 * i])
        if off + ln > len(b): out.append('table %s lies outside the file' % t.decode('latin-1')); continue
        if t in tabs: out.append('table %s twice' % t)
        tabs[t] = (off, ln, ck)
    for t in (b'head', b'hhea', b'maxp', b'hmtx', b'loca', b'glyf'):
        if t not in tabs: out.append('table %s is missing' % t.decode())
    if out: return out
    p2 = 1 << (n.bit_length() - 1)
    if (sr, es, rs) != (16 * p2, p2.bit_length() - 1, 16 * n - 16 * p2): out.append('searchRange, entrySelector, rangeShift are %r for %d tables' % ((sr, es, rs), n))
    names = [b[12 + 16 * i:16 + 16 * i] for i in range(n)]
    if names != sorted(names): out.append('the table directory is not sorted: %r' % names)
    csum = lambda d: sum(struct.unpack('>%dI' % ((len(d) + 3) // 4), d + bytes(-len(d) % 4))) & 0xffffffff
    for t, (off, ln, ck) in tabs.items():
        if off % 4: out.append('table %r is not aligned' % t)
        d = b[off:off + ln]
        if t == b'head':
            if d[12:16] != b'\x5f\x0f\x3c\xf5': out.append('magic number of head is %s' % d[12:16].hex())
            adj = struct.unpack('>I', d[8:12])[0]
            d = d[:8] + bytes(4) + d[12:]
            whole = b[:off + 8] + bytes(4) + b[off + 12:]
            if (0xB1B0AFBA - csum(whole)) & 0xffffffff != adj: out.append('checkSumAdjustment')
        if csum(d) != ck: out.append('checksum of table %r' % t)
    rng = sorted((o, o + l, t) for t, (o, l, _) in tabs.items())
    for (a, e, t), (a2, e2, t2) in zip(rng, rng[1:]):
        if a2 < e: out.append('tables %s and %s overlap' % (t, t2))
    g = lambda t: b[tabs[t][0]:tabs[t][0] + tabs[t][1]]
    ng = struct.unpack('>H', g(b'maxp')[4:6])[0]
    lf = struct.unpack('>h', g(b'head')[50:52])[0]
    lo = g(b'loca')
    need = (ng + 1) * (4 if lf else 2)
    if len(lo) < need: out.append('loca has %d bytes for %d glyphs' % (len(lo), ng)); return out
    offs = list(struct.unpack('>%d%s' % (ng + 1, 'I' if lf else 'H'), lo[:need]))
    if not lf: offs = [x * 2 for x in offs]
    if any(a > e for a, e in zip(offs, offs[1:])): out.append('loca is not ascending')
    if offs[-1] > tabs[b'glyf'][1]: out.append('loca points behind glyf')
    nh = struct.unpack('>H', g(b'hhea')[34:36])[0]
    if nh < 1 or nh > ng: out.append('numberOfHMetrics %d for %d glyphs' % (nh, ng))
    elif len(g(b'hmtx')) < 4 * nh + 2 * (ng - nh): out.append('hmtx is too short')
    if b'cmap' in tabs:
        d = g(b'cmap')
        u16 = lambda o: struct.unpack('>H', d[o:o + 2])[0]
        try:
            ver, nt = u16(0), u16(2)
            if ver != 0 or nt < 1: out.append('cmap header is %r' % ((ver, nt),))
            for k in range(nt):
                pid, eid, off = struct.unpack('>HHI', d[4 + 8 * k:12 + 8 * k])
                fm = u16(off)
                if pid > 4: out.append('cmap platform %d' % pid)
                if off < 4 + 8 * nt: out.append('cmap subtable at %d' % off)
                if fm not in (0, 2, 4, 6, 8, 10, 12, 13, 14): out.append('cmap format %d' % fm); continue
                ln = u16(off + 2) if fm < 8 else struct.unpack('>I', d[off + (2 if fm == 14 else 4):][:4])[0]
                if off + ln > len(d): out.append('cmap subtable of %d bytes at %d of %d' % (ln, off, len(d))); continue
                if fm == 6:
                    first, cnt = u16(off + 6), u16(off + 8)
                    if 10 + 2 * cnt > ln or first + cnt > 65536: out.append('cmap of %d entries in %d bytes' % (cnt, ln)); continue
                    if any(u16(off + 10 + 2 * j) >= ng for j in range(cnt)): out.append('cmap leads to a glyph beyond %d' % ng)
        except struct.error: out.append('cmap is cut off')
    return out
