"""Mutations of font, image and profile files that know the containers."""
import struct, zlib

NICE = [0, 1, 2, 3, 4, 7, 8, 12, 16, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x40000000]


def poke(r, b, lo, hi, big=True):
    if hi <= lo: return
    w = r.choice([1, 1, 2, 2, 2, 4, 4])
    o = lo + r.randrange(hi - lo)
    if r.random() < .8: o = lo + (o - lo) // w * w
    if o + w > len(b): return
    e = 'big' if big else 'little'
    v = int.from_bytes(b[o:o + w], e)
    k = r.random()
    if k < .35: v = r.choice(NICE)
    elif k < .6: v += r.choice([-4, -2, -1, 1, 2, 4, 100])
    elif k < .8: v ^= 1 << r.randrange(8 * w)
    else: v = r.getrandbits(8 * w)
    b[o:o + w] = (v % (1 << 8 * w)).to_bytes(w, e)


def splice(r, b):
    k = r.random()
    if k < .4: del b[r.randrange(len(b)):]
    elif k < .6:
        o = r.randrange(len(b)); del b[o:o + r.randint(1, 40)]
    elif k < .8:
        o = r.randrange(len(b)); b[o:o] = b[o:o + r.randint(1, 60)] or b'x'
    else:
        o, p, n = r.randrange(len(b)), r.randrange(len(b)), r.randint(1, 60)
        b[o:o + n] = b[p:p + n]


def font(r, d):
    b = bytearray(d)
    u16 = lambda o: int.from_bytes(b[o:o + 2], 'big')
    u32 = lambda o: int.from_bytes(b[o:o + 4], 'big')
    for _ in range(r.choice([1, 1, 1, 2, 4, 10])):
        if not b: break
        if r.random() < .08: splice(r, b); continue
        o = 0
        if b[:4] == b'ttcf' and u32(8): o = u32(12 + 4 * r.randrange(min(u32(8), 8)))
        n = u16(o + 4)
        if r.random() < .12 or not 0 < n < 60: poke(r, b, o, o + 12 + 16 * min(n, 20)); continue
        e = o + 12 + 16 * r.randrange(n)
        if r.random() < .06:                    # swap or rename tables
            f = o + 12 + 16 * r.randrange(n); b[e:e + 4], b[f:f + 4] = b[f:f + 4], b[e:e + 4]; continue
        t, l = u32(e + 8), u32(e + 12)
        if b[e:e + 4] in (b'OS/2', b'name', b'post') and r.random() < .8: continue
        if r.random() < .5: l = min(l, r.choice([8, 16, 40, 100]))
        poke(r, b, t, min(t + l, len(b)))
    return bytes(b)


def chunks(d):
    o, out = 8, []
    while o + 12 <= len(d):
        n = int.from_bytes(d[o:o + 4], 'big')
        out.append([d[o + 4:o + 8], d[o + 8:o + 8 + n]]); o += 12 + n
    return out


def png(r, d):
    c = chunks(d)
    if len(c) < 2 or len(c[0][1]) < 13: return jpeg(r, d)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        i = r.randrange(len(c))
        if k < .35:
            b = bytearray(c[0][1]); poke(r, b, 0 if r.random() < .3 else 8, len(b))
            if int.from_bytes(b[:4], 'big') * int.from_bytes(b[4:8], 'big') < 4000000: c[0][1] = bytes(b)
        elif k < .6:
            b = bytearray(c[i][1])
            if i == 0: continue
            if b: poke(r, b, 0, len(b))
            c[i][1] = bytes(b)
        elif k < .7: c.insert(r.randint(1, len(c)), list(c[i]))
        elif k < .8 and len(c) > 2: c.pop(r.randrange(1, len(c)))
        elif k < .9:
            j = [x for x in range(len(c)) if c[x][0] == b'IDAT']
            try: z = zlib.decompress(b''.join(c[x][1] for x in j))
            except zlib.error: continue
            z = bytearray(z)
            if r.random() < .5: z = z[:r.randrange(len(z) + 1)]
            elif r.random() < .5: z += r.randbytes(r.randint(1, 50))
            elif z: z[r.randrange(len(z))] = r.choice([0, 1, 2, 3, 4, 5, 255])
            if j:
                c[j[0]][1] = zlib.compress(bytes(z))
                for x in reversed(j[1:]): c.pop(x)
        else: c[i][0] = r.choice([b'IDAT', b'PLTE', b'tRNS', b'iCCP', b'IEND', b'gAMA', b'sBIT', b'eXIf', b'zzZz', b'IHDR'])
    out = d[:8]
    for t, x in c: out += struct.pack('>I', len(x)) + t + x + struct.pack('>I', zlib.crc32(t + x) ^ (r.random() < .02))
    if r.random() < .1: out = out[:r.randrange(len(out))]
    return out


def tiff(r, d):
    b = bytearray(d)
    e = '<' if b[:2] == b'II' else '>'
    ifd, = struct.unpack(e + 'I', b[4:8])
    if ifd + 2 > len(b): return jpeg(r, d)
    n, = struct.unpack(e + 'H', b[ifd:ifd + 2])
    if n == 0 or ifd + 2 + 12 * n > len(b): return jpeg(r, d)
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.random()
        if k < .75:
            o = ifd + 2 + 12 * r.randrange(n)
            tag, = struct.unpack(e + 'H', b[o:o + 2])
            q = r.random()
            v = r.choice(NICE[:14] if tag in (256, 257, 322, 323) else NICE)
            if tag in (256, 257) and q < .5: v = r.choice([0, 1, 2, 3, 5, 9, 17, 64, 100])
            if q < .6: b[o + 8:o + 12] = struct.pack(e + 'I', v) if struct.unpack(e + 'H', b[o + 2:o + 4])[0] == 4 else struct.pack(e + 'HH', v & 0xffff, 0)
            elif q < .75: b[o + 4:o + 8] = struct.pack(e + 'I', v)
            elif q < .85: b[o + 2:o + 4] = struct.pack(e + 'H', r.randint(0, 17))
            else: b[o:o + 2] = struct.pack(e + 'H', r.choice([254, 256, 257, 258, 259, 262, 273, 274, 277, 278, 279, 284, 317, 320, 322, 324, 338, 339, 34675]))
        elif k < .9: poke(r, b, 0, len(b), e == '>')
        else: splice(r, b)
        if len(b) < ifd + 2 + 12 * n or not b: break
    return bytes(b)


def jpeg(r, d):
    b = bytearray(d)
    for _ in range(r.choice([1, 2, 3])):
        if not b: break
        if r.random() < .2: splice(r, b)
        else: poke(r, b, 0, min(len(b), r.choice([4, 30, 200, 1000])))
    return bytes(b)


def image(r, d):
    if d[:4] == b'\x89PNG': return png(r, d)
    if d[:2] in (b'II', b'MM') and len(d) > 20: return tiff(r, d)
    return jpeg(r, d)


def icc(r, d):
    b = bytearray(d)
    n = int.from_bytes(b[128:132], 'big')
    for _ in range(r.choice([1, 1, 2, 5])):
        if len(b) < 140: break
        k = r.random()
        if k < .1: splice(r, b)
        elif k < .3: poke(r, b, 0, 128)
        elif k < .5: poke(r, b, 128, 132 + 12 * min(n, 30))
        else:
            e = 132 + 12 * r.randrange(max(1, min(n, 30)))
            o = int.from_bytes(b[e + 4:e + 8], 'big'); l = int.from_bytes(b[e + 8:e + 12], 'big')
            poke(r, b, o, min(o + (min(l, 40) if r.random() < .6 else l), len(b)))
    return bytes(b)
