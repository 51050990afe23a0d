"""Minimal ctypes binding of FreeType: character maps, unhinted unscaled outlines and advances.

Used as the independent font engine of the oracle (system libfreetype, not the code under test)."""
import ctypes as C, ctypes.util, functools

_ft = C.CDLL('libfreetype.so.6')
L, P = C.c_long, C.c_void_p


class Vec(C.Structure): _fields_ = [('x', L), ('y', L)]
class Outline(C.Structure):
    _fields_ = [('n_contours', C.c_short), ('n_points', C.c_short), ('points', C.POINTER(Vec)), ('tags', C.POINTER(C.c_ubyte)),
                ('contours', C.POINTER(C.c_short)), ('flags', C.c_int)]
class Generic(C.Structure): _fields_ = [('d', P), ('f', P)]
class BBox(C.Structure): _fields_ = [('a', L), ('b', L), ('c', L), ('d', L)]
class Metrics(C.Structure): _fields_ = [(n, L) for n in ('width', 'height', 'hbx', 'hby', 'hadv', 'vbx', 'vby', 'vadv')]
class Bitmap(C.Structure):
    _fields_ = [('rows', C.c_uint), ('width', C.c_uint), ('pitch', C.c_int), ('buffer', P), ('ng', C.c_ushort), ('pm', C.c_ubyte), ('plm', C.c_ubyte), ('pal', P)]
class Slot(C.Structure):
    _fields_ = [('library', P), ('face', P), ('next', P), ('glyph_index', C.c_uint), ('generic', Generic), ('metrics', Metrics),
                ('linearHoriAdvance', L), ('linearVertAdvance', L), ('advance', Vec), ('format', C.c_int), ('bitmap', Bitmap),
                ('bl', C.c_int), ('bt', C.c_int), ('outline', Outline)]
class Face_(C.Structure):
    _fields_ = [('num_faces', L), ('face_index', L), ('face_flags', L), ('style_flags', L), ('num_glyphs', L), ('family_name', C.c_char_p),
                ('style_name', C.c_char_p), ('num_fixed', C.c_int), ('sizes', P), ('num_charmaps', C.c_int), ('charmaps', P), ('generic', Generic),
                ('bbox', BBox), ('upem', C.c_ushort), ('ascender', C.c_short), ('descender', C.c_short), ('height', C.c_short),
                ('maw', C.c_short), ('mah', C.c_short), ('up', C.c_short), ('ut', C.c_short), ('glyph', C.POINTER(Slot))]


_lib = P()
assert _ft.FT_Init_FreeType(C.byref(_lib)) == 0
_ft.FT_New_Memory_Face.argtypes = [P, C.c_char_p, L, L, C.POINTER(C.POINTER(Face_))]
_ft.FT_Get_Char_Index.argtypes = [P, C.c_ulong]; _ft.FT_Get_Char_Index.restype = C.c_uint
_ft.FT_Load_Glyph.argtypes = [P, C.c_uint, C.c_int32]
_ft.FT_Set_Var_Design_Coordinates.argtypes = [P, C.c_uint, C.POINTER(L)]
_ft.FT_Get_Var_Design_Coordinates.argtypes = [P, C.c_uint, C.POINTER(L)]
_ft.FT_Get_First_Char.argtypes = [P, C.POINTER(C.c_uint)]; _ft.FT_Get_First_Char.restype = C.c_ulong
_ft.FT_Get_Next_Char.argtypes = [P, C.c_ulong, C.POINTER(C.c_uint)]; _ft.FT_Get_Next_Char.restype = C.c_ulong
_ft.FT_Get_Kerning.argtypes = [P, C.c_uint, C.c_uint, C.c_uint, C.POINTER(Vec)]
_ft.FT_Done_Face.argtypes = [P]
_ft.FT_Set_Named_Instance.argtypes = [P, C.c_uint]
_ft.FT_Get_Postscript_Name.argtypes = [P]; _ft.FT_Get_Postscript_Name.restype = C.c_char_p
NO_SCALE, NO_HINTING, NO_BITMAP, NO_RECURSE = 1, 2, 8, 0x400


class FTError(Exception): pass


class Face:
    def __init__(self, data, index=0, coords=None, instance=None, axes=None):
        """instance: number of a named instance; axes: {index of an axis: value} that override it"""
        self.data = data
        self.f = None
        f = C.POINTER(Face_)()
        e = _ft.FT_New_Memory_Face(_lib, data, len(data), index, C.byref(f))
        if e: raise FTError('FT_New_Memory_Face error %d' % e)
        self.f = f
        c = self.f.contents
        self.num_glyphs, self.upem, self.flags = c.num_glyphs, c.upem, c.face_flags
        self.num_faces = c.num_faces
        if coords is not None:
            arr = (L * len(coords))(*[int(x * 65536) for x in coords])
            e = _ft.FT_Set_Var_Design_Coordinates(self.f, len(coords), arr)
            if e: raise FTError('set coords %d' % e)
        if instance is not None:
            e = _ft.FT_Set_Named_Instance(self.f, instance)
            if e: raise FTError('named instance %d' % e)
        if axes:
            n = self.naxes()
            arr = (L * n)()
            if _ft.FT_Get_Var_Design_Coordinates(self.f, n, arr): raise FTError('get coords')
            for i, v in axes.items(): arr[i] = v * 65536
            if _ft.FT_Set_Var_Design_Coordinates(self.f, n, arr): raise FTError('set coords')
        self._g = {}
        self._cm = None

    def variable(self): return bool(self.flags & 256)

    def naxes(self): return len(axistags(self.data, self.f.contents.face_index & 0xffff))

    def psname(self):
        r = _ft.FT_Get_Postscript_Name(self.f)
        return r.decode('latin-1') if r else None

    def gid(self, cp):
        return _ft.FT_Get_Char_Index(self.f, cp)

    def charmap(self):
        if self._cm is None:
            m = {}
            g = C.c_uint()
            cp = _ft.FT_Get_First_Char(self.f, C.byref(g))
            while g.value:
                m[cp] = g.value
                cp = _ft.FT_Get_Next_Char(self.f, cp, C.byref(g))
            self._cm = m
        return self._cm

    def kern(self, a, b):
        v = Vec()
        if not (self.flags & (1 << 6)): return 0
        if _ft.FT_Get_Kerning(self.f, a, b, 2, C.byref(v)): raise FTError('kerning')   # FT_KERNING_UNSCALED
        return v.x

    def glyph(self, gid):
        """(advance in font units, outline) where the outline is a hashable, engine independent contour list"""
        r = self._g.get(gid)
        if r is None:
            e = _ft.FT_Load_Glyph(self.f, gid, NO_SCALE | NO_HINTING | NO_BITMAP)
            if e: raise FTError('FT_Load_Glyph(%d) error %d' % (gid, e))
            s = self.f.contents.glyph.contents
            o = s.outline
            pts = []
            start = 0
            for c in range(o.n_contours):
                end = o.contours[c]
                pts.append(tuple((o.points[i].x, o.points[i].y, o.tags[i] & 3) for i in range(start, end + 1)))
                start = end + 1
            r = self._g[gid] = (s.metrics.hadv, tuple(pts))
        return r

    def __del__(self): self.close()

    def close(self):
        if self.f:
            _ft.FT_Done_Face(self.f); self.f = None


def axistags(d, sub=0):
    """tags of the variation axes"""
    u = lambda o, n: int.from_bytes(d[o:o + n], 'big')
    o = u(12 + 4 * sub, 4) if d[:4] == b'ttcf' else 0
    for i in range(u(o + 4, 2)):
        e = o + 12 + 16 * i
        if d[e:e + 4] == b'fvar':
            t = u(e + 8, 4)
            a = t + u(t + 4, 2)
            return [d[a + k * u(t + 10, 2):][:4] for k in range(u(t + 8, 2))]
    return []


@functools.lru_cache(64)
def face(path, index=0, coords=None):
    return Face(open(path, 'rb').read(), index, coords)
