"""Writes small synthetic fonts: TrueType outlines (simple and composite), variable fonts, CFF (plain and CID-keyed) and collections.

Everything is valid; what a font means is judged by FreeType, not by this module."""
import struct

P = struct.pack


# ------------------------------------------------------------------ containers
def checksum(b):
    b = b + bytes(-len(b) % 4)
    return sum(struct.unpack('>%dI' % (len(b) // 4), b)) & 0xffffffff


def layout(tabs, start, r=None, flavor=0x00010000):
    """(directory, body) of an sfnt whose tables lie from file offset start on; tabs: tag -> bytes"""
    order = list(tabs)
    if r: r.shuffle(order)
    body, ent = bytearray(), {}
    for t in order:
        d = tabs[t]
        ent[t] = (checksum(d), start + len(body), len(d))
        body += d + bytes(-len(d) % 4)
        if r and r.random() < .05: body += bytes(4 * r.randint(1, 3))
    return ent, bytes(body)


def directory(ent, flavor):
    n = len(ent)
    k = n.bit_length() - 1
    d = P('>IHHHH', flavor, n, 16 << k, k, 16 * n - (16 << k))
    for t in sorted(ent): d += P('>4sIII', t, *ent[t])
    return d


def sfnt(tabs, flavor=0x00010000, r=None):
    start = 12 + 16 * len(tabs)
    ent, body = layout(tabs, start, r)
    f = bytearray(directory(ent, flavor) + body)
    adj = (0xB1B0AFBA - checksum(bytes(f))) & 0xffffffff
    o = ent[b'head'][1]
    f[o + 8:o + 12] = P('>I', adj)
    return bytes(f)


def ttc(fonts, r):
    """fonts: list of (tables, flavor); tables with equal contents are sometimes shared"""
    n = len(fonts)
    pos = 12 + 4 * n
    if r.random() < .3: hdr2 = 12; pos += hdr2
    else: hdr2 = 0
    dirpos = []
    for tabs, _ in fonts:
        dirpos.append(pos); pos += 12 + 16 * len(tabs)
    body, seen, dirs = bytearray(), {}, []
    for tabs, fl in fonts:
        ent = {}
        order = list(tabs); r.shuffle(order)
        for t in order:
            d = tabs[t]
            if d in seen and t != b'head': o = seen[d]
            else:
                o = seen[d] = pos + len(body)
                body += d + bytes(-len(d) % 4)
            ent[t] = (checksum(d), o, len(d))
        dirs.append(directory(ent, fl))
    out = b'ttcf' + P('>HHI', 2 if hdr2 else 1, 0, n) + b''.join(P('>I', p) for p in dirpos) + bytes(hdr2)
    return out + b''.join(dirs) + bytes(body)


# ------------------------------------------------------------------ shared tables
def cmap(r, m):
    """character map with a Unicode subtable for the mapping cp -> gid"""
    subs = []
    bmp = {c: g for c, g in m.items() if c < 0x10000}
    astral = len(bmp) != len(m)
    if astral or r.random() < .2: subs.append((3, 10, fmt12(m)))
    if bmp and (not astral or r.random() < .8): subs.append((3, 1, fmt4(bmp)))
    if r.random() < .4: subs.append((1, 0, fmt0({c: g for c, g in m.items() if c < 256 and g < 256}) if r.random() < .6 else fmt6(m)))
    if r.random() < .2 and bmp: subs.append((0, 3, fmt4(bmp)))
    if r.random() < .02: subs += [(1, i, fmt6(m)) for i in range(1, r.choice([32, 41]))]
    subs.sort(key=lambda s: s[:2])
    out, body, at = P('>HH', 0, len(subs)), b'', 4 + 8 * len(subs)
    for p, e, d in subs:
        out += P('>HHI', p, e, at + len(body)); body += d
    return out + body


def fmt0(m): return P('>HHH', 0, 262, 0) + bytes(m.get(i, 0) for i in range(256))
def fmt6(m):
    c = [x for x in sorted(m) if x < 256] or [65]
    lo, hi = c[0], c[-1]
    return P('>HHHHH', 6, 10 + 2 * (hi - lo + 1), 0, lo, hi - lo + 1) + b''.join(P('>H', m.get(i, 0)) for i in range(lo, hi + 1))
def fmt12(m):
    g = []
    for c in sorted(m):
        if g and g[-1][1] + 1 == c and g[-1][2] + c - g[-1][0] == m[c]: g[-1][1] = c
        else: g.append([c, c, m[c]])
    return P('>HHIII', 12, 0, 16 + 12 * len(g), 0, len(g)) + b''.join(P('>III', *x) for x in g)
def fmt4(m):
    segs = []
    for c in sorted(m):
        if c == 0xffff: continue
        d = (m[c] - c) & 0xffff
        if segs and segs[-1][1] + 1 == c and segs[-1][2] == d: segs[-1][1] = c
        else: segs.append([c, c, d])
    segs.append([0xffff, 0xffff, 1])
    n = len(segs); k = n.bit_length() - 1
    b = P('>HHHH', 2 * n, 2 << k, k, 2 * n - (2 << k))
    b += b''.join(P('>H', s[1]) for s in segs) + P('>H', 0) + b''.join(P('>H', s[0]) for s in segs) + b''.join(P('>H', s[2]) for s in segs) + bytes(2 * n)
    return P('>HHH', 4, 6 + len(b), 0) + b


def nametab(s):
    rec = [(1, s), (2, 'Regular'), (4, s), (6, s.replace(' ', ''))]
    st, recs = b'', b''
    for i, t in rec:
        e = t.encode('utf-16-be')
        recs += P('>HHHHHH', 3, 1, 0x409, i, len(e), len(st)); st += e
    return P('>HHH', 0, len(rec), 6 + len(recs)) + recs + st


def head(upem, bbox, locfmt, r):
    return P('>IIIIHHQQhhhhHHhhh', 0x10000, r.choice([0x10000, 0x00018000]), 0, 0x5F0F3CF5, r.choice([0, 3, 0xb]), upem, 3600000000, 3600000001, *bbox, 0, 8, 2, locfmt, 0)


def hhea(upem, nh, wmax):
    return P('>IhhhHhhhhhhhhhhhH', 0x10000, upem * 4 // 5, -upem // 5, 0, min(wmax, 65535), 0, 0, upem, 1, 0, 0, 0, 0, 0, 0, 0, nh)


def codepoints(r, n):
    """n different code points"""
    out = set()
    pools = [range(0x20, 0x7f), range(0xa1, 0x17f), range(0x391, 0x3c9), range(0x4e00, 0x4f00), range(0x1f600, 0x1f640), range(0xe000, 0xe040), range(0x2000, 0x2070), range(0xfb00, 0xfb05)]
    w = [8, 3, 1, 1, 1, 1, 1, 1]
    while len(out) < n:
        p = r.choices(pools, w)[0]
        if r.random() < .4 and out:
            c = max(out) + 1
            if c in (0xd800,): continue
            out.add(c)
        else: out.add(r.choice(p))
    return sorted(out)


def name(r): return r.choice(['Synth', 'Test Font', 'A', 'Fo-nt']) + str(r.randint(0, 999))


# ------------------------------------------------------------------ TrueType
def contour(r, span):
    n = r.choice([1, 2, 3, 3, 4, 4, 5, 8, 20]) if r.random() < .99 else r.choice([40, 130, 260])
    style = r.random()
    pts = []
    x, y = r.randint(-span, span), r.randint(-span, span)
    for _ in range(n):
        pts.append((x, y, 1 if style < .5 or r.random() < .6 else 0))
        k = r.random()
        dx = 0 if k < .15 else r.randint(-255, 255) if k < .6 else r.choice([255, -255, 256, -256, 1]) if k < .7 else r.randint(-span, span) // 2
        k = r.random()
        dy = 0 if k < .15 else r.randint(-255, 255) if k < .6 else r.choice([255, -255, 256, -256, 1]) if k < .7 else r.randint(-span, span) // 2
        x, y = max(-span, min(span, x + dx)), max(-span, min(span, y + dy))
    return pts


def simple(r, contours, instr=b''):
    pts = [p for c in contours for p in c]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    d = bytearray(P('>hhhhh', len(contours), min(xs), min(ys), max(xs), max(ys)))
    e = -1
    for c in contours:
        e += len(c); d += P('>H', e)
    d += P('>H', len(instr)) + instr
    flags, xb, yb = [], b'', b''
    px = py = 0
    lazy = r.random() < .2
    for i, (x, y, on) in enumerate(pts):
        f = on
        dx, dy = x - px, y - py
        px, py = x, y
        if dx == 0 and not lazy: f |= 16
        elif -255 <= dx <= 255 and dx and r.random() < .95: f |= 2 | (16 if dx > 0 else 0); xb += bytes([abs(dx)])
        else: xb += P('>h', dx)
        if dy == 0 and not lazy: f |= 32
        elif -255 <= dy <= 255 and dy and r.random() < .95: f |= 4 | (32 if dy > 0 else 0); yb += bytes([abs(dy)])
        else: yb += P('>h', dy)
        if i == 0 and r.random() < .1: f |= 64      # OVERLAP_SIMPLE
        flags.append(f)
    i = 0
    while i < len(flags):
        n = 1
        while i + n < len(flags) and flags[i + n] == flags[i] and n < 256: n += 1
        if n > 1 and r.random() < .8: d += bytes([flags[i] | 8, n - 1]); i += n
        else: d.append(flags[i]); i += 1
    return bytes(d + xb + yb)


def composite(r, comps, upem, npts, instr):
    """comps: glyph ids of the components, npts: their point counts"""
    d = bytearray(P('>hhhhh', -1, *(r.randint(-upem, upem) for _ in range(4))))
    total = 0
    hasinstr = False
    for k, g in enumerate(comps):
        f = 0x20 if k + 1 < len(comps) else 0
        if r.random() < .3: f |= 0x4
        if r.random() < .15: f |= 0x200
        if r.random() < .1: f |= 0x400
        if r.random() < .2: f |= r.choice([0x800, 0x1000])
        if total and npts[k] and r.random() < .15:       # aligned by points
            a, b = r.randrange(total), r.randrange(npts[k])
            if a > 255 or b > 255 or r.random() < .3: f |= 1; arg = P('>HH', a, b)
            else: arg = bytes([a, b])
        else:
            f |= 2
            a, b = r.choice([(0, 0), (r.randint(-128, 127), r.randint(-128, 127)), (r.randint(-upem, upem), r.randint(-upem, upem))])
            if not (-128 <= a <= 127 and -128 <= b <= 127) or r.random() < .3: f |= 1; arg = P('>hh', a, b)
            else: arg = P('>bb', a, b)
        s = r.random()
        if s < .2: f |= 8; arg += P('>h', r.choice([0x2000, -0x4000, 0x6000, 0x4000]))
        elif s < .35: f |= 0x40; arg += P('>hh', r.choice([0x2000, -0x4000]), r.choice([0x2000, 0x6000]))
        elif s < .5: f |= 0x80; arg += P('>hhhh', *(r.choice([0, 0x2000, -0x2000, 0x4000]) for _ in range(4)))
        if k + 1 == len(comps) and instr: f |= 0x100; hasinstr = True
        d += P('>HH', f, g) + arg
        total += npts[k]
    if hasinstr: d += P('>H', len(instr)) + instr
    return bytes(d)


def truetype(r, var=False, nglyphs=None, share=None):
    """tables of a font with TrueType outlines; share: tables of another font to take over parts of"""
    n = nglyphs or r.choice([2, 3, 5, 8, 13, 20, 40])
    upem = r.choice([1000, 1000, 2048, 2048, 1024, 64, 16, 777, 4096, 16384])
    span = min(upem * r.choice([1, 1, 2]), 7000)
    level = [0 if r.random() < .6 or n < 3 else r.randint(1, 4) for _ in range(n)]
    if 0 not in level: level[0] = 0
    glyphs, npts, comps = [None] * n, [0] * n, [[]] * n
    for lv in range(5):
        for g in range(n):
            if level[g] != lv: continue
            instr = r.randbytes(r.choice([0, 0, 0, 1, 3, 10]))
            if lv == 0:
                k = r.choice([0, 1, 1, 1, 2, 3]) if r.random() < .99 else 40
                if k == 0: glyphs[g] = b''; continue
                cs = [contour(r, span) for _ in range(k)]
                glyphs[g] = simple(r, cs, instr); npts[g] = sum(map(len, cs))
            else:
                low = [x for x in range(n) if level[x] < lv and npts[x] < 300]
                prev = [x for x in low if level[x] == lv - 1] or low
                if not low: glyphs[g] = b''; continue
                comps[g] = [r.choice(prev)] + [r.choice(low) for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if r.random() < .96 else r.choice([10, 33, 60]))]
                glyphs[g] = composite(r, comps[g], upem, [npts[x] for x in comps[g]], instr)
                npts[g] = sum(npts[x] for x in comps[g])
    short = r.random() < .4
    glyf, loca = bytearray(), []
    for g in glyphs:
        loca.append(len(glyf))
        glyf += g
        if short: glyf += bytes(-len(glyf) % 2)
        elif r.random() < .4: glyf += bytes(-len(glyf) % 4)
        if r.random() < .03: glyf += bytes(4)
    loca.append(len(glyf))
    if not glyf: glyf += bytes(4)
    if short and loca[-1] > 131070: short = False
    nh = n if r.random() < .5 else r.randint(1, n)
    hm = b''
    adv = [r.choice([0, upem // 2, upem, r.randint(0, min(2 * upem, 65535)), 600 * upem // 1000]) for _ in range(nh)]
    for a in adv: hm += P('>Hh', a, r.randint(-200, 200))
    for _ in range(n - nh): hm += P('>h', r.randint(-200, 200))
    cps = codepoints(r, r.randint(1, n - 1) if n > 1 else 1)
    m = {c: r.randint(1, n - 1) for c in cps}
    if r.random() < .6:
        for c, g in zip(cps, range(1, n)): m[c] = g
    t = {b'head': head(upem, (-span, -span, span, span), 0 if short else 1, r), b'hhea': hhea(upem, nh, max(adv)), b'hmtx': hm,
         b'maxp': P('>IHHHHHHHHHHHHHH', 0x10000, n, 60000, 3000, 60000, 3000, 2, 0, 0, 0, 0, 64, 100, 64, 5),
         b'cmap': cmap(r, m), b'loca': b''.join(P('>H', o // 2) if short else P('>I', o) for o in loca), b'glyf': bytes(glyf), b'name': nametab(name(r)),
         b'post': P('>IIhhIIIII', 0x30000, 0, -100, 50, 0, 0, 0, 0, 0)}
    for k in (b'cvt ', b'fpgm', b'prep'):
        if r.random() < .3: t[k] = r.randbytes(2 * r.randint(1, 9)) if k == b'cvt ' else b'\x40\x01\x00\x21'[:r.choice([4, 4])]
    if r.random() < .2: t[b'OS/2'] = bytes(78)
    if r.random() < .02:
        for i in range(r.choice([25, 40])): t[b'zz%02d' % i] = r.randbytes(r.randint(0, 9))
    if var:
        variations(r, t, n, npts, comps, glyphs)
    if share:
        for k in (b'cvt ', b'fpgm', b'prep', b'OS/2', b'post', b'name'):
            if k in share and r.random() < .5: t[k] = share[k]
    return t


def variations(r, t, n, npts, comps, glyphs):
    na = r.choice([1, 1, 2, 3])
    tags = r.sample([b'wght', b'wdth', b'slnt', b'opsz', b'ABCD', b'x y!'], na)
    axes = []
    for tag in tags:
        lo, hi = sorted(r.sample([-200, -90, -20, -1, 0, 1, 8, 50, 100, 400, 900, 1000, 3000], 2))
        df = r.choice([lo, hi, r.randint(lo, hi)])
        axes.append((tag, lo, df, hi))
    ni = r.choice([0, 0, 1, 2, 4])
    inst = [[r.choice([a[1], a[2], a[3], r.randint(a[1], a[3])]) for a in axes] for _ in range(ni)]
    ps = r.random() < .3
    b = P('>HHHHHHHH', 1, 0, 16, 2, na, 20, ni, 4 + 4 * na + (2 if ps else 0))
    for tag, lo, df, hi in axes: b += tag + P('>iiiHH', lo << 16, df << 16, hi << 16, 0, 256)
    for c in inst: b += P('>HH', 2, 0) + b''.join(P('>i', v << 16) for v in c) + (P('>H', 6) if ps else b'')
    t[b'fvar'] = b
    f14 = lambda v: P('>h', int(round(v * 16384)))
    peak = lambda: [r.choice([-1, -.5, .5, 1])] + [r.choice([-1, -.5, .5, 1, 0]) for _ in axes[1:]]     # not all zero: such a tuple would apply at the default too
    shared = [peak() for _ in range(r.randint(1, 3))]
    data, offs = b'', [0]
    for g in range(n):
        k = (npts[g] if not comps[g] else len(comps[g])) + 4
        tv = []
        for _ in range(r.choice([0, 1, 1, 2, 3]) if glyphs[g] or r.random() < .5 else 0):
            idx = r.randrange(len(shared))
            emb = r.random() < .5
            hdr = (0x8000 if emb else idx) | 0x2000
            coords = b''.join(map(f14, peak())) if emb else b''
            if r.random() < .2:
                hdr |= 0x4000
                a, p, z = [], [], []
                for _ in axes:
                    s, q, e = sorted([r.choice([0, .25, .5, 1]), r.choice([.25, .5, 1]), 1])
                    if r.random() < .4: s, q, e = -e, -q, -s
                    a.append(s); p.append(q); z.append(e)
                if emb: coords = b''.join(map(f14, p))
                else:
                    q = shared[idx]
                    a = [min(s, 0) if v <= 0 else 0 for s, v in zip([-1] * na, q)]; z = [max(v, 0) if v < 0 else 1 for v in q]
                coords += b''.join(map(f14, a)) + b''.join(map(f14, z))
            if r.random() < .4 and k > 4:
                pts = sorted(r.sample(range(k), r.randint(1, k)))
            else: pts = None
            body = packpoints(r, pts) + packdeltas(r, [r.choice([0, r.randint(-20, 20), r.randint(-300, 300)]) for _ in range(len(pts) if pts else k)])
            body += packdeltas(r, [r.choice([0, r.randint(-20, 20), r.randint(-300, 300)]) for _ in range(len(pts) if pts else k)])
            tv.append((P('>HH', len(body), hdr) + coords, body))
        if tv:
            h = b''.join(x for x, _ in tv)
            d = P('>HH', len(tv), 4 + len(h)) + h + b''.join(x for _, x in tv)
            d += bytes(-len(d) % 2)
        else: d = b''
        data += d; offs.append(len(data))
    base = 20 + 4 * (n + 1)
    sh = b''.join(f14(v) for s in shared for v in s)
    t[b'gvar'] = P('>HHHHIHHI', 1, 0, na, len(shared), base, n, 1, base + len(sh)) + b''.join(P('>I', o) for o in offs) + sh + data


def packpoints(r, pts):
    if pts is None: return b'\0'
    n = len(pts)
    b = bytes([n]) if n < 128 else P('>H', 0x8000 | n)
    i, last = 0, 0
    while i < n:
        k = min(n - i, r.randint(1, 16))
        ds = []
        for p in pts[i:i + k]: ds.append(p - last); last = p
        if max(ds) > 255: b += bytes([0x80 | (k - 1)]) + b''.join(P('>H', d) for d in ds)
        else: b += bytes([k - 1]) + bytes(ds)
        i += k
    return b


def packdeltas(r, ds):
    b, i = b'', 0
    while i < len(ds):
        k = min(len(ds) - i, r.randint(1, 30))
        run = ds[i:i + k]
        if not any(run): b += bytes([0x80 | (k - 1)])
        elif all(-128 <= d <= 127 for d in run): b += bytes([k - 1]) + P('>%db' % k, *run)
        else: b += bytes([0x40 | (k - 1)]) + P('>%dh' % k, *run)
        i += k
    return b


# ------------------------------------------------------------------ CFF
def num(v, r=None):
    """charstring or DICT integer (DICT integers beyond 16 bits use operator 29)"""
    if r and r.random() < .1 and -32768 <= v <= 32767: return b'\x1c' + P('>h', v)
    if -107 <= v <= 107: return bytes([v + 139])
    if 108 <= v <= 1131: v -= 108; return bytes([247 + (v >> 8), v & 255])
    if -1131 <= v <= -108: v = -v - 108; return bytes([251 + (v >> 8), v & 255])
    if -32768 <= v <= 32767: return b'\x1c' + P('>h', v)
    return b'\x1d' + P('>i', v)


def real(s):
    s = s.replace('e-', 'c').replace('E-', 'c')
    n = ['0123456789.ec-'.index(c) if c not in 'ec-' else {'e': 0xb, 'c': 0xc, '-': 0xe}[c] for c in s] + [0xf]
    if len(n) % 2: n.append(0xf)
    return b'\x1e' + bytes(n[i] << 4 | n[i + 1] for i in range(0, len(n), 2))


def index(items, r=None):
    if not items: return P('>H', 0)
    total = sum(map(len, items)) + 1
    sz = 1 if total < 256 else 2 if total < 65536 else 3
    if r and r.random() < .2: sz = min(4, sz + r.randint(0, 2))
    b = P('>HB', len(items), sz)
    o = 1
    for it in [b''] + list(items):
        o += len(it); b += o.to_bytes(sz, 'big')
    return b + b''.join(items)


def op(o): return bytes([12, o & 255]) if o >= 0xc00 else bytes([o])


def charstring(r, width, span, nl, ng, hints=True):
    """width: None or the difference to nominalWidthX"""
    b = b''
    w = num(width, r) if width is not None else b''
    nhints = 0
    if hints and r.random() < .3:
        k = r.choice([1, 2, 3])
        mask = r.random() < .5
        v = []
        for _ in range(k): v += [r.randint(0, 50), r.randint(1, 50)]
        b += w + b''.join(num(x, r) for x in v) + (b'\x12' if mask else b'\x01'); w = b''
        nhints += k
        if r.random() < .5:
            v = [r.randint(0, 50), r.randint(1, 50)]
            b += b''.join(num(x, r) for x in v)
            nhints += 1
            if not mask or r.random() < .5: b += b'\x17' if mask else b'\x03'
            elif mask: pass                              # implied vstemhm
        if mask: b += (b'\x13' if r.random() < .6 else b'\x14') + r.randbytes((nhints + 7) // 8)
    R = lambda: r.choice([0, r.randint(-100, 100), r.randint(-span, span), r.choice([107, 108, -107, -108, 1131, 1132, -1131, -1132])])
    C = lambda n: b''.join(num(R(), r) for _ in range(n))
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.randint(0, 2)
        b += w + [C(2) + b'\x15', C(1) + b'\x16', C(1) + b'\x04'][k]; w = b''
        for _ in range(r.randint(1, 4)):
            k = r.randint(0, 11)
            if k == 0: b += C(2 * r.randint(1, 4)) + b'\x05'
            elif k == 1: b += C(r.randint(1, 5)) + b'\x06'
            elif k == 2: b += C(r.randint(1, 5)) + b'\x07'
            elif k == 3: b += C(6 * r.randint(1, 3)) + b'\x08'
            elif k == 4: b += C(8) + b'\x18'
            elif k == 5: b += C(8) + b'\x19'
            elif k == 6: b += C(4 * r.randint(1, 2) + r.randint(0, 1)) + b'\x1a'
            elif k == 7: b += C(4 * r.randint(1, 2) + r.randint(0, 1)) + b'\x1b'
            elif k == 8: b += C(4) + b'\x1e'
            elif k == 9: b += C(5) + b'\x1f'
            elif k == 10 and nl: b += num(r.randrange(nl) - bias(nl), r) + b'\x0a'
            elif k == 11 and ng: b += num(r.randrange(ng) - bias(ng), r) + b'\x1d'
    return b + w + b'\x0e'


def bias(n): return 107 if n < 1240 else 1131 if n < 33900 else 32768


def subrs(r, n, span):
    out = []
    for _ in range(n):
        R = lambda: r.choice([0, r.randint(-100, 100), r.randint(-span, span)])
        out.append(r.choice([b''.join(num(R(), r) for _ in range(4)) + b'\x05', b''.join(num(R(), r) for _ in range(6)) + b'\x08']) + b'\x0b')
    return out


def privdict(r, dwx, nwx, local):
    """(dict, subrs index): the Subrs offset is the size of the dict"""
    b = b''
    if dwx or r.random() < .3: b += num(dwx, r) + op(20)
    if nwx or r.random() < .3: b += num(nwx, r) + op(21)
    if r.random() < .5: b += num(-15) + num(15) + num(500) + num(12) + op(6)
    if r.random() < .3: b += real(r.choice(['0.039625', '0.5', '1.5e-2', '-0.25'])) + op(0xc09)
    if r.random() < .3: b += num(r.randint(0, 7)) + op(0xc0a)
    if r.random() < .3: b += num(80) + op(10) + num(90) + op(11)
    if r.random() < .2: b += num(70) + num(20) + op(0xc0c)
    if local:
        n = len(b) + 4
        b += b'\x1c' + P('>h', n) + op(19)
        assert len(b) == n
        return b, index(local, r)
    return b, b''


def cff(r, cid=None, nglyphs=None, seac=False):
    """tables of an OpenType font with CFF outlines"""
    cid = r.random() < .5 if cid is None else cid
    n = nglyphs or r.choice([2, 3, 5, 8, 20, 40])
    if seac: cid = False; n = max(n, 5)
    upem = r.choice([1000, 1000, 2048, 256])
    span = upem
    bigsub = r.random() < .05
    gs = subrs(r, r.choice([0, 0, 1, 3, 10]) if not bigsub else 1300, span)
    nfd = r.choice([1, 1, 2, 3]) if cid else 1
    if cid and n >= 40 and r.random() < .35: nfd = r.choice([17, 35, 60, 200, 255, 256])
    fds = []
    for _ in range(nfd):
        loc = subrs(r, r.choice([0, 1, 5]) if r.random() < .95 else 1300, span)
        dwx, nwx = r.choice([0, 500, 600]), r.choice([0, 0, 550, 300])
        fds.append((dwx, nwx, loc))
    sel = []
    while len(sel) < n: sel += [r.randrange(nfd)] * r.choice([1, 1, 2, 5, 50])
    sel = sel[:n]
    adv, cs = [], []
    for g in range(n):
        dwx, nwx, loc = fds[sel[g]]
        a = dwx if r.random() < .4 else r.randint(0, upem)
        adv.append(a)
        cs.append(charstring(r, None if a == dwx and r.random() < .8 else a - nwx, span, len(loc), len(gs)))
    strings = [s.encode() for s in r.sample(['1.0', 'Full Name', 'Family', 'Bold', 'Notice (c)'], r.randint(0, 5))]
    extra = []
    sid = lambda s: 391 + (strings + extra).index(s)
    top = []
    if cid:
        extra += [b'Adobe', r.choice([b'Identity', b'Japan1'])]
        top.append(('ros', None))
    gnames = [b'gl%d' % i for i in range(1, n)] if not cid else []
    allstr = strings + extra + gnames
    tb = b''
    if cid: tb += num(391 + len(strings)) + num(391 + len(strings) + 1) + num(r.randint(0, 6)) + op(0xc1e)
    body_ops = []
    if strings and r.random() < .7: body_ops.append(num(391) + op(r.choice([0, 1, 2, 3])))
    if r.random() < .2: body_ops.append(num(r.randint(1, 390)) + op(4))
    if r.random() < .5: body_ops.append(num(-span) + num(-span) + num(span) + num(span) + op(5))
    if upem != 1000 or r.random() < .2:
        f = {1000: '0.001', 2048: '0.00048828125', 256: '0.00390625'}[upem]
        body_ops.append(real(f) + num(0) + num(0) + real(f) + num(0) + num(0) + op(0xc07))
    if r.random() < .3: body_ops.append(num(0) + op(0xc01))
    if r.random() < .3: body_ops.append(real('-12.5') + op(0xc02))
    if r.random() < .3: body_ops.append(num(-100) + op(0xc03))
    if r.random() < .2: body_ops.append(b''.join(num(r.randint(0, 9)) for _ in range(4)) + op(14))
    if cid and r.random() < .7: body_ops.append(num(max(n, 60000) if r.random() < .5 else n) + op(0xc22))
    r.shuffle(body_ops)
    tb += b''.join(body_ops)
    i5 = lambda v: b'\x1d' + P('>i', v)
    ros = i5(0) + op(15) + i5(0) + op(17) + (i5(0) + op(0xc24) + i5(0) + op(0xc25) if cid else i5(0) + i5(0) + op(18))
    nm = name(r).replace(' ', '').encode()
    if seac:
        # accented characters made of two others through endchar; the parts are named by their standard encoding (SID 1..95 is code 32..126)
        for g in range(3, n):
            if r.random() < .5: cs[g] = (num(adv[g] - fds[0][1]) if adv[g] != fds[0][0] else b'') + num(r.randint(-50, 200), r) + num(r.randint(-50, 300), r) + num(32) + num(33) + b'\x0e'
    # charset
    if not cid and (r.random() < .3 or seac) and n <= 200: charset, csoff = None, 0      # ISOAdobe
    else:
        ids = list(range(1, n)) if cid and r.random() < .6 else sorted(r.sample(range(1, 3 * n + 1), n - 1)) if cid else [391 + len(strings) + len(extra) + i for i in range(n - 1)]
        runs = []
        for v in ids:
            if runs and runs[-1][0] + runs[-1][1] + 1 == v and runs[-1][1] < 255: runs[-1][1] += 1
            else: runs.append([v, 0])
        f = r.randint(0, 2)
        charset = bytes([f]) + (b''.join(P('>H', v) for v in ids) if f == 0 else b''.join(P('>HB' if f == 1 else '>HH', *x) for x in runs))
    if charset is None: allstr = strings + extra
    strindex = index(allstr, r)
    gsx = index(gs, r)
    csx = index(cs, r)

    def build(ch, st, x, y):
        t = tb + (i5(ch) + op(15) if charset is not None else b'') + i5(st) + op(17) + (i5(x) + op(0xc24) + i5(y) + op(0xc25) if cid else i5(x) + i5(y) + op(18))
        return bytes([1, 0, 4, r0]) + nx + index([t]) + strindex + gsx
    r0 = r.randint(1, 4)
    nx = index([nm])
    pos = len(build(0, 0, 0, 0))
    tail = b''
    chp = pos + len(tail)
    if charset is not None: tail += charset
    stp = pos + len(tail); tail += csx
    if r.random() < .2: tail += bytes(r.randint(1, 5))
    privs = []
    for dwx, nwx, loc in fds:
        d, s = privdict(r, dwx, nwx, loc)
        privs.append((pos + len(tail), len(d))); tail += d + s
    if cid:
        fdx = []
        for o, l in privs:
            e = b''
            if r.random() < .4 and strings: e += num(391) + op(0xc26)
            fdx.append(e + num(l) + num(o) + op(18))
        x = pos + len(tail); tail += index(fdx, r)
        y = pos + len(tail)
        if r.random() < .5: tail += b'\0' + bytes(sel)
        else:
            rg = [[0, sel[0]]]
            for i, s in enumerate(sel):
                if s != rg[-1][1] or (r.random() < .05 and i > rg[-1][0]): rg.append([i, s])
            tail += b'\3' + P('>H', len(rg)) + b''.join(P('>HB', *q) for q in rg) + P('>H', n)
    else: x, y = privs[0][1], privs[0][0]
    data = build(chp, stp, x, y) + tail
    nh = n if r.random() < .5 else 1 + max([0] + [i for i in range(n) if adv[i] != adv[-1]])
    if nh < n and adv[nh - 1] != adv[-1]: nh += 1
    hm = b''.join(P('>Hh', a, 0) for a in adv[:nh]) + bytes(2 * (n - nh))
    cps = codepoints(r, r.randint(1, n - 1) if n > 1 else 1)
    m = {c: (g if r.random() < .8 else r.randint(1, n - 1)) for c, g in zip(cps, range(1, n))} if n > 1 else {65: 0}
    return {b'head': head(upem, (-span, -span, span, span), 0, r), b'hhea': hhea(upem, nh, max(adv)), b'hmtx': hm, b'maxp': P('>IH', 0x5000, n), b'cmap': cmap(r, m),
            b'name': nametab(name(r)), b'post': P('>IIhhIIIII', 0x30000, 0, -100, 50, 0, 0, 0, 0, 0), b'CFF ': data}


OTTO = 0x4F54544F


def usable(data, sub=0, need=1):
    """FreeType loads every glyph and knows at least one character"""
    import ftlib
    try:
        f = ftlib.Face(data, sub)
    except ftlib.FTError: return False
    try:
        for g in range(f.num_glyphs): f.glyph(g)
        return sum(1 for g in f.charmap().values() if g) >= need
    except ftlib.FTError: return False
    finally: f.close()


def any_font(r):
    """(data, kind): a font file"""
    if r.random() < .01:
        d = sfnt(cff(r, seac=True), OTTO, r)
        if usable(d): return d, 'seac'
    for _ in range(20):
        k = r.choice(['tt', 'tt', 'tt', 'var', 'cff', 'cid', 'ttc'])
        big = r.choice([None] * 12 + [60, 300])
        if k == 'tt': d = sfnt(truetype(r, nglyphs=big), 0x10000 if r.random() < .9 else 0x74727565, r)
        elif k == 'var': d = sfnt(truetype(r, var=True), 0x10000, r)
        elif k in ('cff', 'cid'): d = sfnt(cff(r, k == 'cid', nglyphs=big), OTTO, r)
        else:
            a = truetype(r)
            fs = [(a, 0x10000)] + [(truetype(r, share=a), 0x10000) if r.random() < .8 else (cff(r), OTTO) for _ in range(r.randint(0, 2))]
            r.shuffle(fs)
            d = ttc(fs, r)
            if all(usable(d, i) for i in range(len(fs))): return d, k
            continue
        if usable(d): return d, k
    raise RuntimeError('no usable font made')
