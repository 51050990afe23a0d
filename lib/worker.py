"""Executes programs (lists of C API calls) against a built libcapypdf.so.  Runs as a child process.

argv: libcapypdf.so scratchdir.  Protocol: pickled (length prefixed) programs on stdin, results on stdout."""
import ctypes as C, sys, os, pickle, struct, json

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = json.load(open(os.path.join(HERE, 'api.json')))['api']


class Id(C.Structure):
    _fields_ = [('id', C.c_int32)]


CT = {'f': C.c_double, 'i': C.c_int32, 'u': C.c_uint32, 'l': C.c_int64, 'U': C.c_uint64, 'e': C.c_int32,
      'id': Id, 'str': C.c_char_p, 'h': C.c_void_p, 'ph': C.c_void_p, 'pf': C.c_void_p, 'pid': C.c_void_p,
      'pe': C.c_void_p, 'pi': C.c_void_p}
DESTROY = {'DocumentProperties': 'document_properties_destroy', 'PageProperties': 'page_properties_destroy',
           'Generator': 'generator_destroy', 'DrawContext': 'dc_destroy', 'TextSequence': 'text_sequence_destroy',
           'Text': 'text_destroy', 'Color': 'color_destroy', 'Transition': 'transition_destroy',
           'OptionalContentGroup': 'optional_content_group_destroy', 'GraphicsState': 'graphics_state_destroy',
           'TransparencyGroupProperties': 'transparency_group_properties_destroy',
           'RasterImageBuilder': 'raster_image_builder_destroy', 'RasterImage': 'raster_image_destroy',
           'Function': 'function_destroy', 'Shading': 'shading_destroy', 'Annotation': 'annotation_destroy',
           'StructItemExtraData': 'struct_item_extra_data_destroy', 'ImagePdfProperties': 'image_pdf_properties_destroy',
           'Destination': 'destination_destroy', 'Outline': 'outline_destroy', 'ShadingPattern': 'shading_pattern_destroy',
           'SoftMask': 'soft_mask_destroy', 'EmbeddedFile': 'embedded_file_destroy', 'BDCTags': 'bdc_tags_destroy',
           'FontProperties': 'font_properties_destroy', 'Halftone': 'halftone_destroy', '3DStream': '3d_stream_destroy',
           'FormField': 'form_field_destroy', 'Viewport': 'viewport_destroy', 'Measure': 'measure_destroy',
           'NumberFormat': 'number_format_destroy', 'Collection': 'collection_destroy',
           'CollectionSchema': 'collection_schema_destroy', 'CollectionField': 'collection_field_destroy'}


class Lib:
    def __init__(self, path):
        self.l = C.CDLL(path)
        self.fn = {}
        for n, args in SPEC.items():
            try:
                f = getattr(self.l, 'capy_' + n)
            except AttributeError:
                continue
            f.argtypes = [CT[a[0]] for a in args]
            f.restype = C.c_char_p if n == 'error_message' else C.c_int32
            self.fn[n] = f


class Skip(Exception):
    pass


class Env:
    def __init__(self, lib, scratch):
        self.lib, self.scratch = lib, scratch
        self.vars = {}      # name -> (kind, value)
        self.handles = []   # (var, base, value)
        self.keep = []

    def path(self, n):
        if os.path.isabs(n):
            return n
        return os.path.join(self.scratch, n)

    def call(self, op):
        name, args = op[0], op[1:]
        spec = SPEC[name]
        conv, outs = [], []
        for (k, base, _), a in zip(spec, args):
            if k in ('f',):
                conv.append(float(a))
            elif k in ('i', 'u', 'l', 'U', 'e'):
                conv.append(a)
            elif k == 'id':
                if isinstance(a, str):
                    if a not in self.vars: raise Skip
                    a = self.vars[a][1]
                conv.append(Id(a))
            elif k == 'str':
                if isinstance(a, dict):
                    if 'f' in a: a = os.fsencode(self.path(a['f']))
                    elif 'b' in a: a = a['b'].encode('latin-1')
                elif isinstance(a, str):
                    a = a.encode('utf-8', 'surrogatepass')
                if a is None:
                    conv.append(None)
                else:
                    # exact sized heap copy, so that AddressSanitizer sees overreads
                    conv.append(a)
            elif k == 'h':
                if a is None: conv.append(None); continue
                if a not in self.vars: raise Skip
                conv.append(self.vars[a][1])
            elif k == 'ph':
                if base == 'Color' and isinstance(a, list):
                    arr = (C.c_void_p * max(1, len(a)))()
                    for i, v in enumerate(a):
                        if v not in self.vars: raise Skip
                        arr[i] = self.vars[v][1]
                    self.keep.append(arr); conv.append(C.cast(arr, C.c_void_p))
                elif a is None:
                    conv.append(None)
                else:
                    p = C.c_void_p()
                    outs.append((a['o'], base, p, 'h')); conv.append(C.cast(C.pointer(p), C.c_void_p))
            elif k == 'pf':
                if a is None: conv.append(None); continue
                if isinstance(a, dict) and 'o' in a:
                    p = C.c_double(); outs.append((a['o'], base, p, 'v'))
                    conv.append(C.cast(C.pointer(p), C.c_void_p)); continue
                arr = (C.c_double * max(1, len(a)))(*[float(x) for x in a])
                self.keep.append(arr); conv.append(C.cast(arr, C.c_void_p))
            elif k == 'pid':
                if a is None: conv.append(None); continue
                if isinstance(a, dict) and 'o' in a:
                    p = Id(-77); outs.append((a['o'], base, p, 'id'))
                    conv.append(C.cast(C.pointer(p), C.c_void_p)); continue
                lst = a if isinstance(a, list) else [a]
                arr = (Id * max(1, len(lst)))()
                for i, v in enumerate(lst):
                    if isinstance(v, str):
                        if v not in self.vars: raise Skip
                        v = self.vars[v][1]
                    arr[i] = Id(v)
                self.keep.append(arr); conv.append(C.cast(arr, C.c_void_p))
            elif k in ('pe', 'pi'):
                if a is None: conv.append(None); continue
                if isinstance(a, dict) and 'o' in a:
                    p = C.c_uint32(0); outs.append((a['o'], base, p, 'v'))
                else:
                    p = C.c_uint32(a[0])
                    self.keep.append(p)
                conv.append(C.cast(C.pointer(p), C.c_void_p))
            else:
                raise Exception('bad kind ' + k)
        fn = self.lib.fn.get(name)
        if fn is None: raise Skip
        if name.endswith('_destroy'):
            v = args[0]
            self.handles = [h for h in self.handles if h[0] != v]
            ec = fn(*conv); self.vars.pop(v, None)
            return (ec, None)
        ec = fn(*conv)
        if name == 'error_message':
            return (0, ec.decode('latin-1') if ec is not None else None)
        ov = None
        if ec == 0:
            for var, base, p, kind in outs:
                if kind == 'h':
                    old = self.vars.get(var)
                    self.vars[var] = (base, p.value); self.handles.append((var, base, p.value)); ov = 'h' if p.value else 'NULL'
                elif kind == 'id':
                    self.vars[var] = (base, p.id); ov = p.id if ov is None else (ov, p.id)
                else:
                    ov = p.value if ov is None else (ov, p.value)
        elif outs:
            ov = None
        return (ec, ov)

    def run(self, prog, progress=None):
        res = []
        for i, op in enumerate(prog):
            if progress is not None:
                progress[0:4] = struct.pack('<i', i)
            n = op[0]
            try:
                if n == '#file':
                    try: os.unlink(self.path(op[1]))     # the old one may be mapped
                    except OSError: pass
                    with open(self.path(op[1]), 'wb') as f:
                        f.write(op[2].encode('latin-1') if isinstance(op[2], str) else op[2])
                    res.append((0, None))
                elif n == '#env':
                    if op[2] is None: os.environ.pop(op[1], None)
                    else: os.environ[op[1]] = op[2]
                    res.append((0, None))
                elif n == '#locale':
                    import locale
                    try: locale.setlocale(locale.LC_ALL, op[1]); self.localized = True
                    except locale.Error: pass
                    res.append((0, None))
                elif n == '#read':
                    p = self.path(op[1])
                    res.append((0, open(p, 'rb').read() if os.path.exists(p) else None))
                elif n == '#list':
                    res.append((0, sorted(os.listdir(self.scratch))))
                else:
                    res.append(self.call(op))
                    if n == 'error_message' or not self.keep: pass
                    else: self.keep = []
            except Skip:
                res.append((None, None))
        return res

    localized = False

    def cleanup(self):
        if self.localized:
            import locale
            locale.setlocale(locale.LC_ALL, ''); self.localized = False
        for var, base, v in reversed(self.handles):
            if v:
                self.lib.fn[DESTROY[base]](v)
        self.handles = []
        for fn in os.listdir(self.scratch):
            p = os.path.join(self.scratch, fn)
            try: os.unlink(p)
            except OSError: pass
        for k in ('CAPY_DEBUG_PDF', 'SOURCE_DATE_EPOCH', 'CAPY_SCRAPE_PROTECT'):
            os.environ.pop(k, None)


def main():
    import mmap
    libpath, scratch = sys.argv[1:3]
    infd, outfd = os.dup(0), os.dup(1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    errf = os.open(os.path.join(scratch, '..', os.path.basename(scratch) + '.err'), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(errf, 1); os.dup2(errf, 2)
    pfd = os.open(os.path.join(scratch, '..', os.path.basename(scratch) + '.pos'), os.O_RDWR | os.O_CREAT, 0o600)
    os.ftruncate(pfd, 16)
    prog_pos = mmap.mmap(pfd, 16)
    fin, fout = os.fdopen(infd, 'rb'), os.fdopen(outfd, 'wb')
    lib = Lib(libpath)
    import gc
    n = 0
    while True:
        h = fin.read(4)
        if len(h) < 4: break
        prog = pickle.loads(fin.read(struct.unpack('<I', h)[0]))
        os.ftruncate(errf, 0); os.lseek(errf, 0, 0)
        env = Env(lib, scratch)
        res = env.run(prog, prog_pos)
        prog_pos[0:4] = struct.pack('<i', -2)
        data = pickle.dumps(res, 4)
        env.cleanup()
        prog_pos[0:4] = struct.pack('<i', -1)
        fout.write(struct.pack('<I', len(data))); fout.write(data); fout.flush()
        n += 1


if __name__ == '__main__':
    main()
