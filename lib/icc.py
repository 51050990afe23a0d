"""Colour conversion oracle: Little CMS called directly (the engine whose result the property refers to)."""
import ctypes as C

L = C.CDLL('liblcms2.so.2')
V = C.c_void_p
for n, a, r in [('cmsOpenProfileFromMem', [C.c_char_p, C.c_uint32], V), ('cmsCreate_sRGBProfile', [], V), ('cmsCloseProfile', [V], C.c_int),
                ('cmsBuildGamma', [V, C.c_double], V), ('cmsCreateGrayProfile', [V, V], V), ('cmsD50_xyY', [], V), ('cmsFreeToneCurve', [V], None),
                ('cmsCreateTransform', [V, C.c_uint32, V, C.c_uint32, C.c_uint32, C.c_uint32], V), ('cmsDoTransform', [V, V, V, C.c_uint32], None),
                ('cmsDeleteTransform', [V], None), ('cmsGetColorSpace', [V], C.c_uint32), ('cmsChannelsOf', [C.c_uint32], C.c_uint32), ('cmsSetLogErrorHandler', [V], None)]:
    f = getattr(L, n); f.argtypes, f.restype = a, r
L.cmsSetLogErrorHandler(None)
FMT = {0: (4 << 16) | (3 << 3) | 1, 1: (3 << 16) | (1 << 3) | 1, 2: (6 << 16) | (4 << 3) | 1}      # RGB, gray, CMYK, 8 bits
N = {0: 3, 1: 1, 2: 4}
INTENT = {0: 1, 1: 3, 2: 2, 3: 0}       # CapyPDF: relative, absolute, saturation, perceptual -> lcms


def channels(data):
    """number of channels, or None if it is no profile"""
    h = L.cmsOpenProfileFromMem(data, len(data))
    if not h: return None
    n = L.cmsChannelsOf(L.cmsGetColorSpace(h))
    L.cmsCloseProfile(h)
    return n


def _profile(data, cs):
    if data is not None: return L.cmsOpenProfileFromMem(data, len(data))
    if cs == 0: return L.cmsCreate_sRGBProfile()
    if cs == 1:
        c = L.cmsBuildGamma(None, 1.0)
        h = L.cmsCreateGrayProfile(L.cmsD50_xyY(), c)
        L.cmsFreeToneCurve(c)
        return h
    return None


def convert(pixels, src, scs, dst, dcs, intent):
    """8 bit samples converted from profile src (None: the default for the space scs) to dst; None if that is not possible"""
    a = _profile(src, scs)
    if not a: return None
    b = _profile(dst, dcs)
    try:
        if not b: return None
        t = L.cmsCreateTransform(a, FMT[scs], b, FMT[dcs], INTENT[intent], 0)
        if not t: return None
        n = len(pixels) // N[scs]
        out = C.create_string_buffer(max(1, n * N[dcs]))
        L.cmsDoTransform(t, pixels, out, n)
        L.cmsDeleteTransform(t)
        return out.raw[:n * N[dcs]]
    finally:
        L.cmsCloseProfile(a)
        if b: L.cmsCloseProfile(b)
