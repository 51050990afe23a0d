"""Executes programs through the Python module of the tree under test (python/capypdf.py) instead of through the C functions.

Same protocol as worker.py.  Calls whose arguments cannot be written in Python (bad UTF-8, values outside an enum, lengths that
differ from the data, NULL) and functions the module does not wrap go to the C function.  Results per call:
(ec, value) from the C function, (0, value) from a method that returned, ('E', message) for CapyPDFException, ('X', text) for any other exception."""
import sys, os
sys.dont_write_bytecode = True
import json
import worker as W

# member name -> value of the C constant it stands for
PYENUMS = json.load(open(os.path.join(W.HERE, 'pyenums.json')))
DIR = {}
HANDLE_CLS = {'RasterImage': 'RasterImage', 'RasterImageBuilder': 'RasterImageBuilder', '3DStream': 'ThreeDStream'}
ENUM = {'Device_Colorspace': 'DeviceColorspace', 'Image_Colorspace': 'ImageColorspace', 'Line_Cap': 'LineCapStyle', 'Line_Join': 'LineJoinStyle',
        'Soft_Mask_Subtype': 'SoftMaskSubType', 'PDFX_Type': 'PdfXType', 'PDFA_Type': 'PdfAType', '3D_File_Format': 'ThreeDFileFormat',
        'Annotation_Flags': 'AnnotationFlag', 'Form_Field_Flags': 'FormFieldFlags'}
PREFIX = [('text_sequence_', 'TextSequence'), ('text_annotation_', None), ('raster_image_builder_', 'RasterImageBuilder'), ('raster_image_', 'RasterImage'),
          ('document_properties_', 'DocumentProperties'), ('page_properties_', 'PageProperties'), ('generator_', 'Generator'), ('dc_', 'DrawContext'), ('text_', 'Text'),
          ('color_', 'Color'), ('transition_', 'Transition'), ('graphics_state_', 'GraphicsState'), ('optional_content_group_', 'OptionalContentGroup'),
          ('annotation_', 'Annotation'), ('struct_item_extra_data_', 'StructItemExtraData'), ('image_pdf_properties_', 'ImagePdfProperties'),
          ('destination_', 'Destination'), ('outline_', 'Outline'), ('shading_pattern_', 'ShadingPattern'), ('embedded_file_', 'EmbeddedFile'),
          ('font_properties_', 'FontProperties'), ('halftone_', 'Halftone'), ('form_field_', 'FormField'), ('collection_', 'Collection'),
          ('transparency_group_properties_', 'TransparencyGroupProperties'), ('shading_', 'Shading'), ('type4_shading_', 'Shading'), ('type6_shading_', 'Shading'),
          ('soft_mask_', 'SoftMask'), ('3d_stream_', 'ThreeDStream')]
RENAME = {'dc_cmd_BDC_ocg': 'cmd_BDC', 'dc_cmd_Do_trgroup': 'cmd_Do', 'dc_cmd_Do_image': 'cmd_Do', 'generator_add_custom_structure_item': 'add_structure_item',
          'transition_set_Dm': 'set_Dn', 'type4_shading_add_triangle': 'add_triangle', 'type4_shading_extend': 'extend', 'type6_shading_add_patch': 'add_patch',
          'type6_shading_extend': 'extend'}
# constructors: C function -> Python callable
CTOR = {'page_draw_context_new': ('page_draw_context', 'g'), 'form_xobject_new': ('FormXObjectDrawContext', 'c'), 'transparency_group_new': ('transparency_group_context', 'g'),
        'tiling_pattern_context_new': ('create_tiling_pattern_context', 'g'), 'dc_text_new': ('text_new', 'g'),
        'type2_function_new': ('Type2Function', 'c'), 'type3_function_new': ('Type3Function', 'c'), 'type4_function_new': ('Type4Function', 'c'),
        'type2_shading_new': ('Type2Shading', 'c'), 'type3_shading_new': ('Type3Shading', 'c'), 'type4_shading_new': ('Type4Shading', 'c'), 'type6_shading_new': ('Type6Shading', 'c'),
        'text_annotation_new': ('Annotation.new_text_annotation', 'c'), 'link_annotation_new': ('Annotation.new_link_annotation', 'c'),
        'line_annotation_new': ('Annotation.new_line_annotation', 'c'), 'file_attachment_annotation_new': ('Annotation.new_file_attachment_annotation', 'c'),
        'printers_mark_annotation_new': ('Annotation.new_printers_mark_annotation', 'c'), '3d_annotation_new': ('Annotation.new_3d_annotation', 'c'),
        'widget_annotation_new': ('Annotation.new_widget_annotation', 'c')}
ASCII = {'set_language', 'set_uri', 'add_rolemap_entry', 'set_variation'}     # methods documented to take ASCII; refused text goes to the C function
BYTES = {'set_contents', 'set_pixel_data'}
LEN = {'pf': 1, 'pid': 1}


class Raw(Exception): pass


def module():
    repo = os.environ.get('CAPY_REPO', '/repo')
    sys.path.insert(0, os.path.join(repo, 'python'))
    import capypdf
    return capypdf


class Env(W.Env):
    m = None

    def __init__(self, lib, scratch):
        super().__init__(lib, scratch)
        if Env.m is None: Env.m = module()
        self.pos = 0
        self.unraisable = []
        sys.unraisablehook = lambda u: self.unraisable.append('%s: %r' % (u.object, u.exc_value))
        self.man = {}
        self.live = {}      # address -> class of the objects made through the module and not yet destroyed
        lf = Env.m.libfile
        for c in W.SPEC:
            if not c.endswith('_destroy'): continue
            f = getattr(lf, 'capy_' + c, None)
            if f is None: continue
            def wrap(o, f=f):
                p = getattr(o, '_as_parameter_', o)
                self.live.pop(getattr(p, 'value', p), None)
                return f(o)
            setattr(lf, 'capy_' + c, wrap)

    # values of variables: raw handles (int), wrapper objects; ids are ints
    def rawval(self, v):
        if isinstance(v, (int, type(None))): return v
        return v._as_parameter_.value

    def call(self, op):
        name = op[0]
        self.used = None
        try:
            r = self.pycall(op)
        except Raw:
            self.used = None
            save = self.vars
            proxy = {k: (b, self.rawval(v)) for k, (b, v) in save.items()}
            self.vars = proxy
            nh = len(self.handles)
            try: r = super().call(op)
            finally: self.vars = save
            for k, v in proxy.items():
                if k not in save or self.rawval(save[k][1]) != v[1] or save[k][0] != v[0]:
                    self.adopt(k, v)
            for k in list(save):
                if k not in proxy: save.pop(k)
        r = r + (self.used,)
        if r[0] == 'E': self.unraisable = []        # the destructor of an object whose constructor raised
        if self.unraisable:
            r = ('X', 'exception in a destructor: ' + self.unraisable[0], self.used); self.unraisable = []
        return r

    def adopt(self, var, v): self.vars[var] = v

    def enum(self, base, v):
        n = ENUM.get(base, base.replace('_', ''))
        c = getattr(self.m, n, None)
        if c is None: raise Raw
        import enum
        tab = PYENUMS.get(n, {})
        if issubclass(c, enum.IntFlag):
            r, rest = c(0), v
            for k, x in tab.items():
                if x and v & x == x and hasattr(c, k): r |= getattr(c, k); rest &= ~x
            if rest or v < 0: raise Raw
            return r
        # by the name of the member, whatever its value is now
        for k, x in tab.items():
            if x == v and hasattr(c, k): return getattr(c, k)
        raise Raw

    def text(self, a):
        if a is None: raise Raw
        if isinstance(a, dict):
            if 'f' in a: return os.fsencode(self.path(a['f']))
            b = a['b'].encode('latin-1')
        else:
            b = a.encode('utf-8', 'surrogatepass')
        return b

    def pyargs(self, spec, args, meth):
        """Python arguments of the C arguments; Raw if they cannot be written"""
        out, i = [], 0
        while i < len(spec):
            (k, base, pn), a = spec[i], args[i]
            i += 1
            if isinstance(a, dict) and 'o' in a: continue
            nx = spec[i] if i < len(spec) else None
            if k == 'f': out.append(float(a))
            elif k in 'iulU': out.append(a)
            elif k == 'e': out.append(self.enum(base, a))
            elif k == 'id': out.append(self.mkid(base, a))
            elif k == 'str':
                b = self.text(a)
                sized = nx is not None and nx[0] in 'iUl' and ('size' in nx[2] or 'len' in nx[2])
                if sized:
                    n = args[i]; i += 1
                    if n == -1 and b'\0' not in b: n = len(b)
                    if n != len(b): raise Raw
                elif b'\0' in b: raise Raw
                if meth in BYTES or (isinstance(a, dict) and 'f' in a): out.append(b)
                else:
                    try: out.append(b.decode('utf-8'))
                    except UnicodeDecodeError: raise Raw
            elif k == 'h':
                if a is None: raise Raw
                if a not in self.vars: raise W.Skip
                v = self.vars[a][1]
                if isinstance(v, int) or v is None: raise Raw
                out.append(v)
            elif k == 'pf':
                if a is None:
                    if 'size' not in (nx[2] if nx else ''): out.append(None); continue
                    raise Raw
                if nx is not None and nx[0] in 'iu' and nx[2] not in ('flag',) and ('size' in nx[2] or nx[2].startswith('num') or nx[2].endswith('size')):
                    if args[i] != len(a): raise Raw
                    i += 1; out.append([float(x) for x in a])
                elif base == 'double' and len(a) == 1 and pn in ('x', 'y', 'z'): out.append(float(a[0]))
                else: out.append([float(x) for x in a])
            elif k == 'pid':
                if a is None: out.append(None); continue
                if nx is not None and nx[0] in 'iu' and ('size' in nx[2] or nx[2].startswith('num')):
                    l = a if isinstance(a, list) else [a]
                    if args[i] != len(l): raise Raw
                    i += 1; out.append([self.mkid(base, x) for x in l])
                else:
                    if isinstance(a, list):
                        if len(a) != 1: raise Raw
                        a = a[0]
                    out.append(self.mkid(base, a))
            elif k == 'ph':
                if a is None: raise Raw
                l = []
                for x in a:
                    if x not in self.vars: raise W.Skip
                    v = self.vars[x][1]
                    if isinstance(v, int): raise Raw
                    l.append(v)
                out.append(l)
            else: raise Raw
        return out

    def mkid(self, base, a):
        if isinstance(a, str):
            if a not in self.vars: raise W.Skip
            a = self.vars[a][1]
        c = getattr(self.m, base.replace('3DStream', 'ThreeDStream'))
        return c(id=a)

    def attempt(self, label, f, *a):
        self.used = label
        try: return (0, f(*a))
        except self.m.CapyPDFException as e: return ('E', str(e))
        except UnicodeEncodeError as e:
            if label.split('.')[-1] in ASCII: raise Raw
            return ('X', repr(e))
        except Exception as e: return ('X', '%s: %r' % (label, e))

    def store(self, spec, args, r):
        """outputs of a successful Python call"""
        import enum
        val = r[1]
        outs = [(s, a) for s, a in zip(spec, args) if isinstance(a, dict) and 'o' in a]
        if not outs: return (0, None)
        vals = val if len(outs) > 1 else (val,)
        ov = None
        for (s, a), v in zip(outs, vals):
            if s[0] == 'ph':
                old = self.vars.get(a['o'])
                self.vars[a['o']] = (s[1], v); ov = 'h' if v._as_parameter_.value else 'NULL'
                if v._as_parameter_.value: self.live[v._as_parameter_.value] = type(v).__name__
                v = old = None
            elif s[0] == 'pid':
                if type(v).__name__ != s[1].replace('3DStream', 'ThreeDStream'): return ('X', 'returned %r' % (v,))
                self.vars[a['o']] = (s[1], v.id); ov = v.id if ov is None else (ov, v.id)
            else:
                if isinstance(v, enum.Enum): v = v.value
                if isinstance(v, bool): v = int(v)
                ov = v if ov is None else (ov, v)
        return (0, ov)

    def pycall(self, op):
        name, args = op[0], op[1:]
        spec = W.SPEC[name]
        m = self.m
        if name.endswith('_destroy'):
            v = args[0]
            if v is None or v not in self.vars: raise Raw
            o = self.vars[v][1]
            if isinstance(o, int): raise Raw
            refs = sys.getrefcount(o)
            self.used = type(o).__name__ + '.__del__'
            del self.vars[v]
            self.man.pop(id(o), None)
            del o
            return (0, None)
        if name in CTOR:
            pyn, how = CTOR[name]
            if how == 'g':
                a = self.pyargs(spec, args, pyn)
                f = getattr(a[0], pyn, None)
                if f is None: raise Raw
                r = self.attempt('%s.%s' % (type(a[0]).__name__, pyn), f, *a[1:])
            else:
                f = m
                for p in pyn.split('.'): f = getattr(f, p)
                a = self.pyargs(spec, args, pyn)
                if name == 'form_xobject_new' and isinstance(a[0], int): raise Raw
                r = self.attempt(pyn, f, *a)
            return self.store(spec, args, r) if r[0] == 0 else r
        if name == 'generator_new':
            a = self.pyargs(spec, args, '')
            f = m.Generator
            r = self.attempt('Generator', f, *a)
            return self.store(spec, args, r) if r[0] == 0 else r
        if name.endswith('_new'):
            cls = None
            base = [s[1] for s, a in zip(spec, args) if isinstance(a, dict) and 'o' in a and s[0] == 'ph']
            if base: cls = getattr(m, HANDLE_CLS.get(base[0], base[0]), None)
            if cls is None: raise Raw
            a = self.pyargs(spec, args, '')
            r = self.attempt(cls.__name__, cls, *a)
            return self.store(spec, args, r) if r[0] == 0 else r
        pre = next((p for p in PREFIX if name.startswith(p[0])), None)
        if pre is None or not spec or spec[0][0] != 'h': raise Raw
        if args[0] is None: raise Raw
        if args[0] not in self.vars: raise W.Skip
        o = self.vars[args[0]][1]
        if isinstance(o, int) or o is None: raise Raw
        meth = RENAME.get(name, name[len(pre[0]):])
        f = getattr(o, meth, None)
        if f is None: raise Raw
        sp, ar = spec[1:], list(args[1:])
        # optional handles at the end
        opt = {'load_font': 1, 'add_structure_item': 2, 'add_simple_navigation': 2}.get(meth)
        if opt is not None and ar[opt] is None and sp[opt][0] == 'h':
            a = self.pyargs(sp[:opt], ar[:opt], meth)
            if self.pos % 2: a.append(None)
        elif name == 'dc_cmd_BDC_builtin':
            if ar[1] is not None: raise Raw
            a = self.pyargs(sp[:1], ar[:1], meth)
        elif name == 'text_cmd_BDC_builtin': a = self.pyargs(sp[:1], ar[:1], meth)
        else: a = self.pyargs(sp, ar, meth)
        if meth == 'set_Ff': a = [self.enum('Form_Field_Flags', a[0])]
        if meth in ('set_extend', 'set_tagged', 'set_I', 'set_K', 'set_B', 'set_mask', 'set_op', 'set_OP', 'set_TK'):
            if any(x not in (0, 1) for x in a): raise Raw
            if self.pos % 2: a = [bool(x) for x in a]
        if meth == 'set_page_xyz' and self.pos % 2:
            while a and a[-1] is None: a.pop()
        if any(x < 0 for x, s in zip(a, sp) if s[0] in 'uU' and isinstance(x, int)): raise Raw
        label = '%s.%s' % (type(o).__name__, meth)
        # the convenience methods
        ctx = isinstance(o, m.DrawContextBase)
        if ctx and name == 'dc_cmd_cm' and len(args) > 7 and isinstance(args[7], dict): return self.attempt('DrawContext.rotate', o.rotate, args[7]['rot'])
        if ctx and name == 'dc_cmd_cm' and self.pos % 2:
            if a[:4] == [1, 0, 0, 1]: return self.attempt('DrawContext.translate', o.translate, *a[4:])
            if a[1:3] == [0, 0] and a[4:] == [0, 0]: return self.attempt('DrawContext.scale', o.scale, a[0], a[3])
        st = self.man.setdefault(id(o), [])
        if ctx and name == 'dc_cmd_q' and self.pos % 2:
            r = self.attempt('DrawContext.push_gstate', o.push_gstate)
            if r[0] == 0: st.append(('q', r[1].__enter__())); return (0, None)
            return r
        if name in ('dc_cmd_BDC_builtin', 'text_cmd_BDC_builtin', 'dc_cmd_BMC', 'dc_cmd_BDC_ocg'):
            r = self.attempt(label, f, *a)
            if r[0] == 0: st.append(('m', r[1] if self.pos % 2 else None)); return (0, None)
            return r
        if name in ('dc_cmd_EMC', 'text_cmd_EMC') and st and st[-1][0] == 'm':
            mg = st[-1][1]
            r = self.attempt('MarkedContextManager', mg.__exit__, None, None, None) if mg is not None else self.attempt(label, f)
            if r[0] == 0: st.pop(); return (0, None)
            if mg is not None: st[-1] = ('m', None)
            return r
        if ctx and name == 'dc_cmd_Q' and st and st[-1][0] == 'q':
            r = self.attempt('StateContextManager', st[-1][1].__exit__, None, None, None)
            if r[0] == 0: st.pop(); return (0, None)
            return r
        if ctx and name == 'dc_cmd_q':
            r = self.attempt(label, f)
            return (0, None) if r[0] == 0 else r
        if name == 'generator_add_page' and self.pos % 2 and isinstance(a[0], m.DrawContext) and getattr(a[0], 'generator', None) is o:
            r = self.attempt('DrawContext.__exit__', a[0].__exit__, None, None, None)
            a[0].generator = o
            return (0, None) if r[0] == 0 else r
        if name == 'dc_render_text_obj' and self.pos % 2 and isinstance(a[0], m.Text) and getattr(a[0], 'dc', None) is o:
            r = self.attempt('Text.__exit__', a[0].__exit__, None, None, None)
            a[0].dc = o
            return (0, None) if r[0] == 0 else r
        r = self.attempt(label, f, *a)
        return self.store(spec, args, r) if r[0] == 0 else r

    def run(self, prog, progress=None):
        res = []
        import struct
        for i, op in enumerate(prog):
            self.pos = i
            if progress is not None: progress[0:4] = struct.pack('<i', i)
            if op[0][0] == '#': res += super().run([op])
            else:
                try: res.append(self.call(op))
                except W.Skip: res.append((None, None))
        self.release()
        if self.live or self.unraisable:
            what = self.unraisable[0] if self.unraisable else 'never destroyed: %s' % sorted(set(self.live.values()))
            for i in reversed(range(len(prog))):
                if prog[i][0][0] != '#': res[i] = ('X', 'at the end of the program: ' + what, 'destructors'); break
            self.live = {}; self.unraisable = []
        return res

    def release(self):
        import gc
        self.man = {}
        for k in reversed(list(self.vars)):
            b, v = self.vars.pop(k)
            del v
        gc.collect()

    def cleanup(self):
        self.release()
        super().cleanup()


W.Env = Env

if __name__ == '__main__':
    os.environ['CAPYPDF_SO_OVERRIDE'] = os.path.dirname(sys.argv[1])
    W.main()
