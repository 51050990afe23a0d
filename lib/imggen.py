"""Writers of PNG, TIFF and JPEG files, from the format specifications, for random images.

Each returns (file bytes, spec); spec is what a decoder must see:
 expect  'ok' (must load), 'either' (may be refused, but if loaded must be right), 'bad' (must be refused)
 w h depth adepth cs pixels alpha (rows packed as PDF samples, latin-1 strings) icc (latin-1 or None) src
 optalpha  an opaque alpha channel may be left out
 known     what a recorded finding makes of the pixels (or None)"""
import struct, zlib, io, os, random

NCOMP = {0: 3, 1: 1, 2: 4}
ICCS = {0: ['/repo/testdata/icc/compatibleWithAdobeRGB1998.icc'], 1: [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data/gray.icc')],
        2: ['/repo/testdata/icc/FOGRA29L.icc']}
_icc = {}


def icc(r, cs):
    p = r.choice(ICCS[cs])
    if p not in _icc: _icc[p] = open(p, 'rb').read()
    return _icc[p]


def pack(samples, rowlen, depth):
    """samples: flat ints, rows of rowlen samples -> PDF sample data"""
    out = bytearray()
    for i in range(0, len(samples), rowlen):
        row = samples[i:i + rowlen]
        if depth == 8: out += bytes(row)
        elif depth == 16: out += struct.pack('>%dH' % len(row), *row)
        else:
            acc = n = 0
            for s in row:
                acc = acc << depth | s; n += depth
                if n == 8: out.append(acc); acc = n = 0
            if n: out.append(acc << (8 - n))
    return bytes(out)


def unpack(data, w, n, depth, h):
    """inverse of pack; None if the size does not fit"""
    rb = (w * n * depth + 7) // 8
    if len(data) != rb * h: return None
    out = []
    for y in range(h):
        row = data[y * rb:(y + 1) * rb]
        if depth == 8: out += row
        elif depth == 16: out += struct.unpack('>%dH' % (w * n), row)
        else:
            m = (1 << depth) - 1
            v = []
            for b in row:
                for s in range(8 - depth, -1, -depth): v.append(b >> s & m)
            out += v[:w * n]
    return out


def L1(b): return b.decode('latin-1') if b is not None else None


def spec(expect, w, h, cs, depth, pix, adepth=0, alpha=None, icc=None, src='file', optalpha=False, known=None):
    s = dict(expect=expect, w=w, h=h, cs=cs, depth=depth, pixels=L1(pack(pix, w * NCOMP[cs], depth)), adepth=adepth, alpha='' if alpha is None else L1(pack(alpha, w, adepth)),
             icc=L1(icc), src=src)
    if alpha is not None and all(a == (1 << adepth) - 1 for a in alpha): s['optalpha'] = True
    if known: s['known'] = L1(known)
    return s


def size(r):
    k = r.random()
    w = r.randint(1, 9) if k < .4 else r.choice([7, 8, 9, 15, 16, 17, 24, 31, 32, 33]) if k < .7 else r.randint(1, 45)
    h = r.choice([1, 2, 3, r.randint(1, 12), r.randint(1, 20)])
    if r.random() < .04: w, h = r.choice([(w, r.randint(31, 300)), (r.randint(100, 300), h), (r.randint(31, 70), r.randint(31, 70))])
    return w, h


def samples(r, n, maxv):
    k = r.random()
    if k < .55: return [r.randint(0, maxv) for _ in range(n)]
    if k < .7: return [i * 7 % (maxv + 1) for i in range(n)]
    v = [r.randint(0, maxv), r.randint(0, maxv), 0, maxv]
    if k < .85: return [r.choice(v) for _ in range(n)]
    return [v[r.randint(0, 3)]] * n


# ------------------------------------------------------------------ PNG
def chunk(t, d, bad=0): return struct.pack('>I', len(d)) + t + d + struct.pack('>I', (zlib.crc32(t + d) ^ bad) & 0xffffffff)


def filt(r, rows, bpp, mode):
    out = bytearray(); prev = bytes(len(rows[0])) if rows else b''
    for row in rows:
        f = r.randint(0, 4) if mode is None else mode
        o = bytearray()
        for i, x in enumerate(row):
            a = row[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            if f == 0: p = 0
            elif f == 1: p = a
            elif f == 2: p = b
            elif f == 3: p = (a + b) // 2
            else:
                q = a + b - c; pa, pb, pc = abs(q - a), abs(q - b), abs(q - c)
                p = a if pa <= pb and pa <= pc else b if pb <= pc else c
            o.append((x - p) & 255)
        out.append(f); out += o
        prev = row
    return bytes(out)


ADAM = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]


def png(r, ct=None, depth=None):
    w, h = size(r)
    ct = r.choice([0, 0, 2, 2, 3, 3, 3, 4, 6]) if ct is None else ct
    depth = depth or r.choice({0: [1, 2, 4, 8, 8, 16], 2: [8, 8, 16], 3: [1, 2, 4, 8], 4: [8, 8, 16], 6: [8, 8, 16]}[ct])
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
    maxv = (1 << depth) - 1
    pal = trns = None; ck = b''
    n = w * h
    if ct == 3:
        mx = min(256, 1 << depth)
        kind = r.choice(['bw', 'bw', 'bwa', 'bwa', 'any'])
        if kind == 'bw': pal = r.choice([[(0, 0, 0), (255, 255, 255)], [(255, 255, 255), (0, 0, 0)]])
        elif kind == 'bwa':
            k = min(mx, r.choice([2, 3, 3, 4, 4]))
            pal = [r.choice([(0, 0, 0), (255, 255, 255)]) for _ in range(k)]
            trns = [r.choice([0, 255]) for _ in range(r.randint(1, k))]
            if r.random() < .4: trns = [0] + [255] * r.randint(0, k - 1)
            for i, a in enumerate(trns):
                if a == 0 and r.random() < .3: pal[i] = tuple(r.randint(0, 255) for _ in range(3))
            if r.random() < .15: trns[r.randrange(len(trns))] = r.randint(1, 254)
        else:
            k = r.randint(1, min(mx, r.choice([2, 3, 4, 5, 256])))
            pal = [tuple(r.choice([0, 255, r.randint(0, 255)]) for _ in range(3)) for _ in range(k)]
            if r.random() < .4: trns = [r.choice([0, 255, r.randint(0, 255)]) for _ in range(r.randint(1, k))]
        s = samples(r, n, len(pal) - 1)
    else:
        s = samples(r, n * ch, maxv)
    prof = None
    cs = 1 if ct in (0, 4) else 0
    if r.random() < .25:
        prof = icc(r, cs)
        name = r.choice([b'icc', b'x' * 79, b'A b'])
        ck += chunk(b'iCCP', name + b'\0\0' + zlib.compress(prof))
    elif r.random() < .2: ck += chunk(b'sRGB', bytes([r.randint(0, 3)]))
    if r.random() < .2: ck += chunk(b'gAMA', struct.pack('>I', r.choice([45455, 100000, 55555])))
    if ct == 3: ck += chunk(b'PLTE', b''.join(bytes(c) for c in pal))
    elif ct in (2, 6) and r.random() < .1: ck += chunk(b'PLTE', r.randbytes(3 * r.randint(1, 20)))
    key = None
    if ct in (0, 2) and r.random() < .3:
        key = [s[r.randrange(n) * ch + i] if r.random() < 2 else 0 for i in range(ch)]
        j = r.randrange(n) * ch
        key = s[j:j + ch] if r.random() < .8 else [r.randint(0, maxv) for _ in range(ch)]
        if ct == 2 and r.random() < .5:          # some pixels that differ from the key in one channel only
            j = r.randrange(n) * ch; s[j:j + ch] = key
            j = r.randrange(n) * ch; s[j:j + ch] = key; s[j + r.randrange(3)] ^= 1
        ck += chunk(b'tRNS', struct.pack('>%dH' % ch, *key))
    if trns is not None: ck += chunk(b'tRNS', bytes(trns))
    if r.random() < .1: ck += chunk(b'pHYs', struct.pack('>IIB', r.randint(1, 9999), r.randint(1, 9999), 1))
    if r.random() < .15: ck += chunk(b'tEXt', b'Comment\0' + r.randbytes(5).hex().encode())
    if r.random() < .05: ck += chunk(b'quUx', r.randbytes(9))
    inter = r.random() < .3
    bpp = max(1, ch * depth // 8)
    mode = r.choice([None, None, 0, 1, 2, 3, 4])

    def rows(pts): return [pack([s[(y * w + x) * ch + c] for x in xs for c in range(ch)], len(xs) * ch, depth) for y, xs in pts]
    if inter:
        raw = b''
        for x0, y0, dx, dy in ADAM:
            xs = list(range(x0, w, dx)); ys = range(y0, h, dy)
            if xs and len(ys): raw += filt(r, rows([(y, xs) for y in ys]), bpp, mode)
    else: raw = filt(r, rows([(y, range(w)) for y in range(h)]), bpp, mode)
    z = zlib.compress(raw, r.choice([0, 1, 6, 9]))
    d = b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, ct, 0, 0, int(inter))) + ck
    cut = sorted(r.randint(0, len(z)) for _ in range(r.choice([0, 0, 1, 3])))
    badcrc = r.random() < .03
    for a, b in zip([0] + cut, cut + [len(z)]): d += chunk(b'IDAT', z[a:b], 0x1000 if badcrc else 0)
    if r.random() < .1: d += chunk(b'tIME', struct.pack('>HBBBBB', 2024, 1, 2, 3, 4, 5))
    d += chunk(b'IEND', b'')
    exp = 'bad' if badcrc else 'ok'
    tag = 'png%d/%d' % (ct, depth)
    # what a decoder sees
    if ct == 0:
        al = None if key is None else [0 if v == key[0] else 255 for v in s]
        if depth < 8: pix, dd = [v * 255 // maxv for v in s], 8
        else: pix, dd = s, depth
        sp = spec(exp, w, h, 1, dd, pix, 8 if key else 0, al, prof)
    elif ct == 2:
        al = None if key is None else [0 if s[i:i + 3] == key else 255 for i in range(0, n * 3, 3)]
        sp = spec(exp, w, h, 0, depth, s, 8 if key else 0, al, prof)
    elif ct == 4: sp = spec(exp, w, h, 1, depth, s[0::2], depth, s[1::2], prof)
    elif ct == 6: sp = spec(exp, w, h, 0, depth, [v for i, v in enumerate(s) if i % 4 != 3], depth, s[3::4], prof)
    else:
        al = None if trns is None else [trns[v] if v < len(trns) else 255 for v in s]
        full = trns is not None and [trns[i] if i < len(trns) else 255 for i in range(len(pal))]
        bw = {(0, 0, 0): 0, (255, 255, 255): 1}
        if trns is None and sorted(pal) == [(0, 0, 0), (255, 255, 255)]:
            pix = [bw[pal[v]] for v in s]
            sp = spec(exp, w, h, 1, 1, pix, known=shifted(pix, w, h) if w > 8 else None)
            tag += 'bw'
        elif trns is not None and 3 <= len(pal) <= 4 and all(a in (0, 255) for a in full) and all(a == 0 or c in bw for a, c in zip(full, pal)):
            # what transparent pixels look like does not matter
            pix = [bw.get(pal[v], 0) if full[v] else None for v in s]
            sp = spec(exp, w, h, 1, 1, [p or 0 for p in pix], 1, [a and 1 for a in al])
            sp['anyhidden'] = True
            tag += 'bwa'
        else:
            # not supported at present; if it were, as RGB (or gray, if all is black and white)
            sp = spec('either' if exp == 'ok' else 'bad', w, h, 0, 8, [c for v in s for c in pal[v]], 8 if trns is not None else 0, al, prof)
            sp['anyspace'] = sp['anyhidden'] = True
            tag += 'pal'
    if inter: tag += 'i'
    sp['tag'] = tag
    return d, sp


def shifted(pix, w, h):
    """recorded finding: two-colour palette images wider than 8 lose the first pixel of each row"""
    out = bytearray()
    for y in range(h):
        cur = 0
        for i in range(w):
            cur = (cur << 1 | (1 - pix[y * w + i])) & 255
            if i % 8 == 0 and i > 0: out.append(~cur & 255); cur = 0
        if w % 8: cur = cur << (8 - w % 8) & 255
        out.append(~cur & 255)
    return bytes(out)


# ------------------------------------------------------------------ TIFF
def packbits(b):
    out = bytearray(); i = 0
    while i < len(b):
        j = i
        while j < len(b) and j - i < 128 and b[j] == b[i]: j += 1
        if j - i >= 2: out += bytes([257 - (j - i), b[i]]); i = j; continue
        j = i + 1
        while j < len(b) and j - i < 128 and not (j + 1 < len(b) and b[j] == b[j + 1]): j += 1
        out += bytes([j - i - 1]) + b[i:j]; i = j
    return bytes(out)


def lzw(b):
    acc = n = 0; out = bytearray()
    def put(code, bits):
        nonlocal acc, n
        acc = acc << bits | code; n += bits
        while n >= 8: out.append(acc >> (n - 8) & 255); n -= 8
        acc &= (1 << n) - 1
    bits = 9; put(256, 9); tab = {bytes([i]): i for i in range(256)}; nxt = 258; cur = b''
    for x in b:
        c = cur + bytes([x])
        if c in tab: cur = c; continue
        put(tab[cur], bits)
        tab[c] = nxt; nxt += 1
        if nxt == 4094:
            put(256, bits); tab = {bytes([i]): i for i in range(256)}; nxt = 258; bits = 9
        elif nxt in (512, 1024, 2048): bits += 1
        cur = bytes([x])
    if cur:
        put(tab[cur], bits); nxt += 1
        if nxt in (512, 1024, 2048): bits += 1
    put(257, bits)
    if n: out.append(acc << (8 - n) & 255)
    return bytes(out)


def tiff(r, wild=False):
    """wild: any combination of the properties a file can have, for checks that do not look at the pixels"""
    w, h = size(r)
    E = r.choice('<>')
    exp = 'ok'
    kind = r.choice(['g', 'g', 'ga', 'rgb', 'rgb', 'rgba', 'rgba', 'cmyk', 'cmyk', 'cmyka', 'odd'])
    base = kind
    bits = 8; planar = 1; tiled = False; inv = False; pal = None; extra = 0
    cs = {'g': 1, 'ga': 1, 'rgb': 0, 'rgba': 0, 'cmyk': 2, 'cmyka': 2}.get(kind)
    if kind == 'odd':
        exp = 'either'
        cs = r.choice([0, 1, 2])
        o = r.choice(['bits', 'planar', 'tiled', 'white', 'pal', 'extra'])
        if o == 'bits':
            bits = r.choice([1, 2, 4, 16])
            base = r.choice([('rgb', 'rgba'), ('g', 'ga'), ('cmyk', 'cmyka')][cs])
        elif o == 'planar': planar = 2
        elif o == 'tiled': tiled = True
        elif o == 'white': cs, inv = 1, True
        elif o == 'pal': cs = 0; pal = [[r.randint(0, 65535) // 257 * 257 for _ in range(256)] for _ in range(3)]
        else: extra = 2
        kind = o
    else: o = None
    nc = 1 if pal else NCOMP[cs]
    na = 1 if base in ('ga', 'rgba', 'cmyka') else extra
    if wild:
        if r.random() < .5: na = r.randint(0, 4)
        if r.random() < .5: bits = r.choice([1, 2, 4, 8, 8, 16])
        if r.random() < .2: planar = 2
        if r.random() < .15: tiled = True
    spp = nc + na
    maxv = (1 << bits) - 1
    s = samples(r, w * h * spp, maxv)
    comp = r.choice([1, 1, 5, 8, 32773, 32946])
    pred = 2 if comp in (5, 8, 32946) and bits == 8 and r.random() < .3 else 1

    def enc(rows, rowlen):
        raw = b''
        for row in rows:
            if bits == 16: b = struct.pack('%s%dH' % (E, len(row)), *row)
            else: b = pack(row, len(row), bits)
            if pred == 2:
                st = spp if planar == 1 else 1
                b = bytes((b[i] - (b[i - st] if i >= st else 0)) & 255 for i in range(len(b)))
            raw += b if comp != 32773 else packbits(b)
        if comp == 1 or comp == 32773: return raw
        if comp == 5: return lzw(raw)
        return zlib.compress(raw)
    blocks = []
    if tiled:
        tw, th = 16, 16
        for y0 in range(0, h, th):
            for x0 in range(0, w, tw):
                rows = [[s[(min(y, h - 1) * w + min(x, w - 1)) * spp + c] for x in range(x0, x0 + tw) for c in range(spp)] for y in range(y0, y0 + th)]
                blocks.append(enc(rows, tw * spp))
    else:
        rps = r.choice([h, h, 1, 2, r.randint(1, h), 0xffffffff])
        step = min(rps, h)
        for p in range(spp if planar == 2 else 1):
            for y0 in range(0, h, step):
                rows = []
                for y in range(y0, min(h, y0 + step)):
                    row = s[y * w * spp:(y + 1) * w * spp]
                    rows.append(row[p::spp] if planar == 2 else row)
                blocks.append(enc(rows, len(rows[0])))
    photo = 3 if pal else 0 if inv else {0: 2, 1: 1, 2: 5}[cs]
    if wild and r.random() < .3: photo = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 10])
    tags = []      # (tag, type, values)
    SH, LO, UN = 3, 4, 7
    tags += [(256, r.choice([SH, LO]), [w]), (257, r.choice([SH, LO]), [h]), (258, SH, [bits] * spp), (259, SH, [comp]), (262, SH, [photo]), (277, SH, [spp]), (284, SH, [planar])]
    if pred == 2: tags.append((317, SH, [2]))
    if na and not (wild and r.random() < .3): tags.append((338, SH, [2] * na if na == 1 else [2] + [0] * (na - 1)))
    if pal: tags.append((320, SH, [v for c in pal for v in c[:1 << bits]]))
    if cs == 2 and r.random() < .5: tags.append((332, SH, [1]))
    if r.random() < .3: tags.append((296, SH, [2]))
    prof = None
    if r.random() < .25 and not inv and not pal:
        prof = icc(r, cs); tags.append((34675, UN, prof))
    if r.random() < .2: tags.append((305, 2, b'verif\0'))
    if tiled: tags += [(322, SH, [16]), (323, SH, [16])]
    else: tags.append((278, LO, [rps]))
    body = bytearray(); offs = [0] * len(blocks)
    order = list(range(len(blocks)))
    if r.random() < .3: r.shuffle(order)
    for i in order:
        if len(body) % 2: body.append(0)
        offs[i] = 8 + len(body); body += blocks[i]
    tags += [(324 if tiled else 273, LO, offs), (325 if tiled else 279, LO, [len(b) for b in blocks])]
    tags.sort()
    ents = b''
    for t, ty, v in tags:
        if isinstance(v, bytes): b = v; cnt = len(v)
        else: b = struct.pack('%s%d%s' % (E, len(v), 'H' if ty == SH else 'I'), *v); cnt = len(v)
        if len(b) <= 4: val = b.ljust(4, b'\0')
        else:
            if len(body) % 2: body.append(0)
            val = struct.pack(E + 'I', 8 + len(body)); body += b
        ents += struct.pack(E + 'HHI', t, ty, cnt) + val
    if len(body) % 2: body.append(0)
    d = (b'II' if E == '<' else b'MM') + struct.pack(E + 'HI', 42, 8 + len(body)) + bytes(body) + struct.pack(E + 'H', len(tags)) + ents + b'\0\0\0\0'
    if wild: return d, dict(spec('either', w, h, 1, 8, []), tag='tiffwild')
    pix = [v for i, v in enumerate(s) if i % spp < nc]
    al = [v for i, v in enumerate(s) if i % spp == nc] if na == 1 else None
    if inv: pix = [maxv - v for v in pix]
    if pal: pix = [pal[c][v] // 257 for v in pix for c in range(3)]
    sp = spec(exp, w, h, cs, bits if not pal else 8, pix, bits if al else 0, al, prof)
    sp['tag'] = 'tiff%s/%d%s' % (kind, comp, 'p' if pred == 2 else '')
    return d, sp


# ------------------------------------------------------------------ JPEG
def jpeg(r):
    from PIL import Image, ImageFile
    ImageFile.MAXBLOCK = 1 << 21
    w, h = size(r)
    mode, cs = r.choice([('L', 1), ('RGB', 0), ('RGB', 0), ('CMYK', 2)])
    im = Image.frombytes(mode, (w, h), r.randbytes(w * h * len(mode)))
    kw = dict(quality=r.choice([10, 50, 90, 100]))
    if r.random() < .3: kw['progressive'] = True
    if r.random() < .3: kw['optimize'] = True
    if mode == 'RGB' and r.random() < .5: kw['subsampling'] = r.randint(0, 2)
    prof = None
    if r.random() < .3:
        prof = icc(r, cs); kw['icc_profile'] = prof
    if r.random() < .2: kw['comment'] = 'c'
    if r.random() < .2: kw['dpi'] = (72, 72)
    f = io.BytesIO(); im.save(f, 'JPEG', **kw)
    d = f.getvalue()
    if r.random() < .1: d += r.randbytes(5)
    sp = spec('ok', w, h, cs, 8, [])
    sp.update(pixels=L1(d), icc=L1(prof), src='jpeg', alpha='', tag='jpeg' + mode)
    return d, sp


def corrupt(r, d, sp):
    """a damaged file: it may be refused; if it is loaded, what is left must be right"""
    sp = dict(sp, expect='either')
    k = r.random()
    if k < .7:
        d = d[:r.randrange(len(d))]
        if sp['src'] == 'jpeg': sp['pixels'] = L1(d)
        sp['tag'] += 'cut'
    else:
        d = r.choice([b'', b'x', r.randbytes(40), b'\x89PNG\r\n\x1a\n', b'\x89PNG\r\n\x1a\n' + r.randbytes(30), b'II*\0' + r.randbytes(30), b'\xff\xd8\xff' + r.randbytes(20), b'MM' + r.randbytes(9)])
        sp = dict(sp, expect='bad', tag='garbage')
    return d, sp


def any_file(r, wild=False):
    f = r.choice([png, png, png, tiff, tiff, jpeg])
    d, sp = f(r, r.random() < .6) if wild and f is tiff else f(r)
    if sp['expect'] != 'bad' and r.random() < .06: d, sp = corrupt(r, d, sp)
    return d, sp


EXT = {'png': ['.png', '.PNG', '', '.Png', '.x'], 'tiff': ['.tif', '.tiff', '.TIF', '.TIFF', '', '.dat'], 'jpeg': ['.jpg', '.jpeg', '.JPG', '.JPEG', '', '.y']}


def name(r, sp, i):
    k = 'jpeg' if sp['src'] == 'jpeg' else 'tiff' if sp['tag'].startswith('tiff') else 'png'
    if r.random() < .02: return 'im%d%s' % (i, r.choice(['.png', '.tif', '.jpg'])), k
    return 'im%d%s' % (i, r.choice(EXT[k])), k
