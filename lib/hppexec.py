"""Executor over the C++ header (include/capypdf.hpp): C++ generated from api.json.  Calls that the header does not wrap, or whose
arguments it cannot express, go to the C functions on the object's handle.  Same program format as native.py; per call an int32 code
(C error code; -997 exception whose text is no error message of the library, -999 skipped), a flag (1: through the header) and a double."""
import os, struct, subprocess
import build as B, native as N

SPEC, NAMES, CTY = N.SPEC, N.NAMES, N.CTY
CLS = ['DocumentProperties', 'PageProperties', 'TransparencyGroupProperties', 'Destination', 'Annotation', 'BDCTags', 'OptionalContentGroup', 'FontProperties', 'Color',
       'TextSequence', 'Text', 'GraphicsState', 'DrawContext', 'RasterImage', 'ImagePdfProperties', 'RasterImageBuilder', 'SoftMask', 'Outline', 'Generator', 'ShadingPattern']
FUNCS = ['Type2Function', 'Type3Function', 'Type4Function']
SHADES = ['Type2Shading', 'Type3Shading', 'Type4Shading', 'Type6Shading']
PREFIX = {'document_properties_': 'DocumentProperties', 'page_properties_': 'PageProperties', 'transparency_group_properties_': 'TransparencyGroupProperties',
          'destination_': 'Destination', 'annotation_': 'Annotation', 'bdc_tags_': 'BDCTags', 'font_properties_': 'FontProperties', 'color_': 'Color',
          'text_sequence_': 'TextSequence', 'text_': 'Text', 'graphics_state_': 'GraphicsState', 'dc_': 'DrawContext', 'raster_image_builder_': 'RasterImageBuilder',
          'raster_image_': 'RasterImage', 'image_pdf_properties_': 'ImagePdfProperties', 'outline_': 'Outline', 'generator_': 'Generator', 'shading_pattern_': 'ShadingPattern'}
# method lists; 's' = there is also an overload taking a byte sequence, 'b' = takes bool
METH = {
    'DocumentProperties': 'set_title:s set_author:s set_creator:s set_language:s set_device_profile set_colorspace set_output_intent:s set_pdfx set_pdfa set_default_page_properties set_tagged:b',
    'PageProperties': 'set_pagebox set_transparency_group_properties',
    'TransparencyGroupProperties': 'set_CS set_I:b set_K:b',
    'Destination': 'set_page_fit',
    'Annotation': 'set_uri:s set_rectangle set_flags set_destination',
    'BDCTags': 'add_tag',
    'FontProperties': 'set_subfont set_named_instance set_variation:s',
    'Color': 'set_rgb set_cmyk set_gray set_icc set_pattern',
    'TextSequence': 'append_codepoint append_kerning append_string:s append_actualtext_start:s append_actualtext_end append_raw_glyph append_ligature_glyph:s',
    'Text': 'cmd_Tj:s cmd_Tc cmd_Td cmd_TD cmd_Tf cmd_TJ cmd_TL cmd_Tm cmd_Tr cmd_Tstar cmd_EMC set_nonstroke set_stroke cmd_w cmd_M cmd_j cmd_J cmd_d cmd_gs',
    'GraphicsState': 'set_BM set_ca set_CA set_op set_OP set_OPM set_SMask set_TK',
    'DrawContext': 'annotate cmd_b cmd_B cmd_bstar cmd_Bstar cmd_c cmd_cm cmd_EMC cmd_f cmd_fstar cmd_g cmd_G cmd_h cmd_k cmd_K cmd_m cmd_l cmd_q cmd_Q cmd_re cmd_rg cmd_RG set_nonstroke '
                   'set_stroke cmd_w cmd_n cmd_M cmd_j cmd_J cmd_d cmd_gs cmd_s cmd_S cmd_W cmd_Wstar set_custom_page_properties set_transparency_group_properties set_group_matrix render_text:s render_text_obj',
    'ImagePdfProperties': 'set_mask:b set_interpolate',
    'RasterImageBuilder': 'set_size set_pixel_depth set_pixel_data set_alpha_depth set_alpha_data set_input_data_compression_format set_colorspace',
    'Outline': 'set_title:s set_destination',
    'ShadingPattern': 'set_matrix',
    'Generator': 'add_page write',
}
# the size has a default
DFLT = {('DocumentProperties', x) for x in 'set_title set_author set_creator set_language set_output_intent'.split()} | {
    ('TextSequence', x) for x in 'append_string append_actualtext_start append_ligature_glyph'.split()} | {('Text', 'cmd_Tj'), ('Outline', 'set_title')}
# methods returning an id: (C function, method)
IDS = ['add_annotation', 'add_graphics_state', 'add_optional_content_group', 'add_transparency_group', 'add_soft_mask', 'add_outline', 'add_shading_pattern', 'add_tiling_pattern', 'add_separation:s',
       'load_icc_profile', 'add_icc_profile:s', 'add_image']
CTOR = {'document_properties_new': 'DocumentProperties', 'page_properties_new': 'PageProperties', 'transparency_group_properties_new': 'TransparencyGroupProperties', 'destination_new': 'Destination',
        'link_annotation_new': 'Annotation', 'bdc_tags_new': 'BDCTags', 'font_properties_new': 'FontProperties', 'color_new': 'Color', 'text_sequence_new': 'TextSequence',
        'graphics_state_new': 'GraphicsState', 'image_pdf_properties_new': 'ImagePdfProperties', 'raster_image_builder_new': 'RasterImageBuilder', 'outline_new': 'Outline'}
# hand written: body using the parsed arguments a0.. and handle variables v0..; returns through DONE/NEWOBJ/NEWID, or falls through to the C call
SPECIAL = {
    'optional_content_group_new': 'if(a1) { NEWOBJ(0, OptionalContentGroup, (a1)); }',
    'shading_pattern_new': 'NEWOBJ(1, ShadingPattern, (a0));',
    'soft_mask_new': 'NEWOBJ(2, SoftMask, ((CapyPDF_Soft_Mask_Subtype)a0, a1));',
    'type2_function_new': 'if(W<Color>(v2) && W<Color>(v3)) { NEWOBJ(5, Type2Function, ((double *)a0, a1, *W<Color>(v2), *W<Color>(v3), a4)); }',
    'type3_function_new': 'NEWOBJ(8, Type3Function, ((double *)a0, a1, (CapyPDF_FunctionId *)a2, a3, (double *)a4, a5, (double *)a6, a7));',
    'type4_function_new': 'if(a4 && a5 == n4 && alt) { NEWOBJ(6, Type4Function, ((double *)a0, a1, (double *)a2, a3, std::string_view(a4, n4))); } NEWOBJ(6, Type4Function, ((double *)a0, a1, (double *)a2, a3, a4, a5));',
    'type2_shading_new': 'NEWOBJ(6, Type2Shading, ((CapyPDF_Device_Colorspace)a0, a1, a2, a3, a4, a5));',
    'type3_shading_new': 'if(c1 == 6) { NEWOBJ(3, Type3Shading, ((CapyPDF_Device_Colorspace)a0, (double *)a1, 6, a2)); }',
    'type4_shading_new': 'NEWOBJ(5, Type4Shading, ((CapyPDF_Device_Colorspace)a0, a1, a2, a3, a4));',
    'type6_shading_new': 'NEWOBJ(5, Type6Shading, ((CapyPDF_Device_Colorspace)a0, a1, a2, a3, a4));',
    'shading_set_extend': 'if((a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 1)) { if(W<Type2Shading>(v0)) DONE(W<Type2Shading>(v0)->set_extend(a1, a2)); if(W<Type3Shading>(v0)) DONE(W<Type3Shading>(v0)->set_extend(a1, a2)); }',
    'shading_set_domain': 'if(W<Type2Shading>(v0)) DONE(W<Type2Shading>(v0)->set_domain(a1, a2)); if(W<Type3Shading>(v0)) DONE(W<Type3Shading>(v0)->set_domain(a1, a2));',
    'type4_shading_add_triangle': 'if(W<Type4Shading>(v0) && c1 == 6) { Colors c(*this, l2, 3); if(c.ok) DONE(W<Type4Shading>(v0)->add_triangle((double *)a1, 6, c.c, 3)); }',
    'type4_shading_extend': 'if(W<Type4Shading>(v0) && c2 == 2 && (a1 == 1 || a1 == 2) && W<Color>(v3)) DONE(W<Type4Shading>(v0)->extend(a1, (double *)a2, 2, *W<Color>(v3)));',
    'type6_shading_add_patch': 'if(W<Type6Shading>(v0) && c1 == 24) { Colors c(*this, l2, 4); if(c.ok) DONE(W<Type6Shading>(v0)->add_patch((double *)a1, 24, c.c, 4)); }',
    'type6_shading_extend': 'if(W<Type6Shading>(v0) && c2 == 16 && a1 >= 1 && a1 <= 3) { Colors c(*this, l3, 2); if(c.ok) DONE(W<Type6Shading>(v0)->extend(a1, (double *)a2, 16, c.c, 2)); }',
    'destination_set_page_xyz': 'if(W<Destination>(v0)) DONE(W<Destination>(v0)->set_page_xyz(a1, OPT(double, a2), OPT(double, a3), OPT(double, a4)));',
    'generator_new': 'if(a0 && W<DocumentProperties>(v1)) { NEWOBJ(2, Generator, (a0, *W<DocumentProperties>(v1))); }',
    'page_draw_context_new': 'if(W<Generator>(v0)) { NEWOBJ(1, DrawContext, (W<Generator>(v0)->new_page_context())); }',
    'transparency_group_new': 'if(W<Generator>(v0)) { NEWOBJ(5, DrawContext, (W<Generator>(v0)->new_transparency_group_context(a1, a2, a3, a4))); }',
    'tiling_pattern_context_new': 'if(W<Generator>(v0)) { NEWOBJ(1, DrawContext, (W<Generator>(v0)->new_tiling_pattern_context(a2, a3, a4, a5))); }',
    'dc_text_new': 'if(W<DrawContext>(v0)) { NEWOBJ(1, Text, (W<DrawContext>(v0)->text_new())); }',
    'raster_image_builder_build': 'if(W<RasterImageBuilder>(v0)) { NEWOBJ(1, RasterImage, (W<RasterImageBuilder>(v0)->build())); }',
    'generator_load_image': 'if(W<Generator>(v0) && a1) { NEWOBJ(2, RasterImage, (W<Generator>(v0)->load_image(a1))); }',
    'generator_load_image_from_memory': 'if(W<Generator>(v0) && a1) { NEWOBJ(3, RasterImage, (W<Generator>(v0)->load_image_from_memory(a1, a2))); }',
    'dc_cmd_BDC_ocg': 'if(W<DrawContext>(v0)) DONE(W<DrawContext>(v0)->cmd_BDC(a1));',
    'dc_cmd_BDC_builtin': 'if(W<DrawContext>(v0) && (!a2 || W<BDCTags>(v2))) { if(a2) DONE(W<DrawContext>(v0)->cmd_BDC(a1, W<BDCTags>(v2))); DONE(W<DrawContext>(v0)->cmd_BDC(a1)); }',
    'dc_cmd_BDC_testing': 'if(W<DrawContext>(v0) && (!a3 || W<BDCTags>(v3))) DONE(W<DrawContext>(v0)->cmd_BDC_testing(a1, a2, a3 ? W<BDCTags>(v3) : nullptr));',
    'dc_cmd_Do_trgroup': 'if(W<DrawContext>(v0)) DONE(W<DrawContext>(v0)->cmd_Do(a1));',
    'dc_cmd_Do_image': 'if(W<DrawContext>(v0)) DONE(W<DrawContext>(v0)->cmd_Do(a1));',
    'dc_cmd_cm': 'if(W<DrawContext>(v0) && alt) { auto &d = *W<DrawContext>(v0); if(rot) DONE(d.rotate(angle)); if(a1 == 1 && a2 == 0 && a3 == 0 && a4 == 1) DONE(d.translate(a5, a6)); '
                 'if(a2 == 0 && a3 == 0 && a5 == 0 && a6 == 0) DONE(d.scale(a1, a4)); } if(W<DrawContext>(v0)) DONE(W<DrawContext>(v0)->cmd_cm(a1, a2, a3, a4, a5, a6));',
    'text_cmd_BDC_builtin': 'if(W<Text>(v0)) DONE(W<Text>(v0)->cmd_BDC(a1));',
    'raster_image_get_size': 'if(W<RasterImage>(v0)) DONE({ auto s = W<RasterImage>(v0)->get_size(); value = s.w + 1048576. * s.h; });',
    'raster_image_get_colorspace': 'if(W<RasterImage>(v0)) DONE(value = (int)W<RasterImage>(v0)->get_colorspace());',
    'raster_image_has_profile': 'if(W<RasterImage>(v0)) DONE(value = W<RasterImage>(v0)->has_profile());',
    'generator_text_width': 'if(W<Generator>(v0)) { if(alt && a2 == n1 && a1) DONE(value = W<Generator>(v0)->text_width(std::string_view(a1, n1), a3, a4)); DONE(value = W<Generator>(v0)->text_width(a1, a2, a3, a4)); }',
    'generator_add_structure_item': 'if(W<Generator>(v0)) NEWID(4, W<Generator>(v0)->add_structure_item((CapyPDF_Structure_Type)a1, (CapyPDF_StructureItemId *)a2, (CapyPDF_StructItemExtraData *)a3));',
    'generator_load_font': 'if(W<Generator>(v0) && a1) { if(!a2) NEWID(3, W<Generator>(v0)->load_font(a1)); if(W<FontProperties>(v2)) NEWID(3, W<Generator>(v0)->load_font(a1, *W<FontProperties>(v2))); }',
    'generator_add_function': 'if(W<Generator>(v0)) { %s }' % ' '.join('if(W<%s>(v1)) NEWID(2, W<Generator>(v0)->add_function(*W<%s>(v1)));' % (c, c) for c in FUNCS),
    'generator_add_shading': 'if(W<Generator>(v0)) { %s }' % ' '.join('if(W<%s>(v1)) NEWID(2, W<Generator>(v0)->add_shading(*W<%s>(v1)));' % (c, c) for c in SHADES),
    'generator_add_page_labeling': 'if(W<Generator>(v0)) { auto st = OPT(CapyPDF_Page_Label_Number_Style, a2); auto nu = OPT(uint32_t, a5); '
                                   'if(alt && a3 && a4 == n3) DONE(W<Generator>(v0)->add_page_labeling(a1, st, std::string_view(a3, n3), nu)); DONE(W<Generator>(v0)->add_page_labeling(a1, st, a3, a4, nu)); }',
}
ENUMS = {'e'}

# objects made by the header's classes and not yet destroyed
COUNT = 'static std::map<void *, const char *> g_live;\n' + '\n'.join(
    'static inline CapyPDF_EC count_%s(%s *o) { g_live.erase(o); return capy_%s(o); }\n#define capy_%s count_%s' % (n, 'CapyPDF_' + SPEC[n][0][1], n, n, n)
    for n in NAMES if n.endswith('_destroy')) + '\n'

PRE2 = r'''
struct Hold { virtual ~Hold() {} virtual void *raw() = 0; virtual const char *name() = 0; };
template <class C> struct CN; 
template <class C, class T> struct Hd : Hold { 
    struct In : C { using C::C; In(C &&c) : C(std::move(c)) {} void *raw() { return static_cast<T *>(*this); } } c;
    template <class... A> explicit Hd(A &&...a) : c(std::forward<A>(a)...) {}
    const char *name() override { return CN<C>::n; }
    void *raw() override { return c.raw(); } };
template <class C> struct CT; 
%s
template <class C> C *W(Var *v) { if(!v || !v->w) return nullptr; auto *p = dynamic_cast<Hd<C, typename CT<C>::t> *>(v->w.get()); return p ? &p->c : nullptr; }
static int code_of(const char *s) { for(int i = 1; i < 400; ++i) { const char *m = capy_error_message((CapyPDF_EC)i); if(m && strcmp(m, s) == 0) return i; } return -997; }
struct Colors { std::vector<Color> store; Color *c = nullptr; std::vector<Color *> src; bool ok = true;
    Colors(Run &r, std::vector<int> l, size_t n) { if(l.size() != n) { ok = false; return; } for(int i : l) { Color *p = W<Color>(&r.need(i)); if(!p || std::find(src.begin(), src.end(), p) != src.end()) ok = false; src.push_back(p); }
        if(ok) { for(auto *p : src) store.push_back(std::move(*p)); c = store.data(); } }
    ~Colors() { if(ok) for(size_t i = 0; i < src.size(); ++i) *src[i] = std::move(store[i]); } };
#define DONE(x) do { via = 1; try { x; } catch(const PdfException &e) { return code_of(e.what()); } pend.clear(); return 0; } while(0)
#define NEWOBJ(i, cls, args) do { if(o##i >= 0) { via = 1; try { auto *h = new Hd<cls, typename CT<cls>::t> args; put(o##i, h); } catch(const PdfException &e) { return code_of(e.what()); } pend.clear(); return 0; } } while(0)
#define NEWID(i, x) do { if(o##i >= 0) { via = 1; try { int32_t r; auto q = x; memcpy(&r, &q, 4); value = r; Var &v = var(o##i); v = Var{}; v.set = true; v.id = r; } catch(const PdfException &e) { return code_of(e.what()); } pend.clear(); return 0; } } while(0)
#define OPT(T, p) ((p) ? std::optional<T>(*(T *)(p)) : std::optional<T>())
'''


def source():
    pre = N.PRE
    pre = pre.replace('#include <unistd.h>', '#include <unistd.h>\n#include <algorithm>\n#include <string_view>\n#include <map>\n#include <capypdf.h>\n' + COUNT + '\n#include <capypdf.hpp>\nusing namespace capypdf;')
    pre = pre.replace('struct Id { int32_t id; };', 'struct Id { int32_t id; template <class T> operator T() const { T t; memcpy(&t, &id, 4); return t; } };\nstruct Hold;')
    pre = pre.replace('struct Var { bool set = false; void *h = nullptr; int32_t id = -1; };', 'struct Var { bool set = false; void *h = nullptr; int32_t id = -1; std::shared_ptr<Hold> w; };')
    pre = pre.replace('std::vector<int32_t> res;', 'std::vector<int32_t> res; std::vector<double> val; int via = 0; bool alt = false; double value = 0; bool rot = false; double angle = 0; int count = -1; std::vector<int> hl; int slen = -1; int ov = -1;\n    std::vector<std::pair<void *, int>> drop;')
    pre = pre.replace('uint32_t n = rd<uint32_t>(); std::string s(d.data() + p, n); p += n;', 'uint32_t n = rd<uint32_t>(); std::string s(d.data() + p, n); p += n; slen = n;')
    pre = pre.replace('void *A_h() {', 'Var *A_hv() { int t = rd<uint8_t>(); int32_t v = rd<int32_t>(); if(t == 0) return nullptr; return &need(v); }\n    void put(int i, Hold *h);\n    void *A_h() {')
    pre = pre.replace('    Var &var(int i) {', '    std::vector<std::unique_ptr<Var>> dummy;\n    Var &var(int i) {').replace('if(t == 1) { int v = rd<int32_t>(); void *m', 'if(t == 1) { int v = rd<int32_t>(); ov = v; void *m')
    pre = pre.replace('if(t == 2) { double *m', 'count = n; if(t == 2) { double *m').replace('for(uint32_t i = 0; i < n; ++i) m[i] = A_h(); return m;', 'for(uint32_t i = 0; i < n; ++i) { size_t q = p; m[i] = A_h(); p = q; rd<uint8_t>(); hl.push_back(rd<int32_t>()); } return m;')
    pre = pre.replace('if(q.kind == 2) continue;', 'if(q.kind == 2) { value = *(double *)q.slot; continue; }').replace('v.set = true; if(q.kind == 0)', 'v = Var{}; v.set = true; if(q.kind == 1) value = *(int32_t *)q.slot; if(q.kind == 0)')
    pre = pre.replace('bad = false;\n            if(fn', 'bad = false; via = 0; value = 0; alt = res.size() % 2; rot = false;\n            if(fn').replace('p = end; res.push_back(ec);', 'p = end; res.push_back(ec); val.push_back(value); val.push_back(via);')
    # variables must not move while pointers to them are held
    pre = pre.replace('std::vector<Var> vars;', 'std::deque<Var> vars;').replace('#include <algorithm>', '#include <algorithm>\n#include <deque>')
    o = [pre]
    ct = '\n'.join('template <> struct CT<%s> { using t = CapyPDF_%s; };' % (c, c) for c in CLS)
    ct += '\n' + '\n'.join('template <> struct CT<%s> { using t = CapyPDF_Function; };' % c for c in FUNCS)
    ct += '\n' + '\n'.join('template <> struct CT<%s> { using t = CapyPDF_Shading; };' % c for c in SHADES)
    ct += '\n' + '\n'.join('template <> struct CN<%s> { static constexpr const char *n = "%s"; };' % (c, c) for c in CLS + FUNCS + SHADES)
    o.append(PRE2.replace('%s', ct))
    o.append('void Run::put(int i, Hold *h) { Var &v = var(i); v = Var{}; v.set = true; v.w.reset(h); v.h = h->raw(); if(v.h) g_live[v.h] = h->name(); }')
    o.append('int32_t Run::call(int fn, size_t end) {\n switch(fn) {')
    for i, n in enumerate(NAMES):
        spec = SPEC[n]
        if n in ('error_message', 'image_pdf_properties_set_conversion_intent'): o.append(' case %d: return -999;' % i); continue
        dec, raw = [], []
        for j, (k, base, pn) in enumerate(spec):
            v = 'a%d' % j
            if k == 'f': dec.append('auto %s = A_f();' % v); raw.append(v)
            elif k in 'iulU': dec.append('auto %s = (%s)A_n();' % (v, CTY[k])); raw.append(v)
            elif k == 'e': dec.append('auto %s = (CapyPDF_%s)A_n();' % (v, base)); raw.append(v)
            elif k == 'id': dec.append('auto %s = (CapyPDF_%s)A_id();' % (v, base)); raw.append(v)
            elif k == 'str': dec.append('slen = 0; auto %s = A_str(); [[maybe_unused]] int n%d = slen;' % (v, j)); raw.append(v)
            elif k == 'h': dec.append('Var *v%d = A_hv(); auto %s = (CapyPDF_%s *)(v%d ? (v%d->w ? v%d->w->raw() : v%d->h) : nullptr);' % (j, v, base, j, j, j, j)); raw.append(v)
            else:
                dec.append('count = -1; ov = -1; hl.clear(); auto %s = A_p(%d); [[maybe_unused]] int c%d = count, o%d = ov; [[maybe_unused]] std::vector<int> l%d = hl;' % (v, {'ph': 0, 'pid': 1}.get(k, 2), j, j, j))
                t = {'pf': 'double', 'pe': 'CapyPDF_' + base, 'pi': base, 'pid': 'CapyPDF_' + base, 'ph': 'CapyPDF_%s *' % base}[k]
                raw.append('(%s *)%s' % (('const ' + t) if k == 'ph' and base == 'Color' and n not in ('color_new',) else t, v))
        pre = n == 'dc_cmd_cm' and 'if(p < end) { rot = true; angle = A_f(); }' or ''
        body = ''
        if n.endswith('_destroy'):
            body = 'if(v0 && v0->w) { via = 1; *v0 = Var{}; return 0; } int32_t r = capy_%s(%s); if(v0) *v0 = Var{}; return r;' % (n, ', '.join(raw))
            o.append(' case %d: { %s if(bad) return -999; %s }' % (i, ' '.join(dec), body)); continue
        if n in SPECIAL: body = SPECIAL[n]
        elif n in CTOR: body = 'NEWOBJ(0, %s, ());' % CTOR[n]
        else:
            pf = next((q for q in sorted(PREFIX, key=len, reverse=True) if n.startswith(q)), None)
            if pf:
                cls = PREFIX[pf]; m = n[len(pf):]
                fl = {x.split(':')[0]: (x.split(':') + [''])[1] for x in METH.get(cls, '').split()}
                ids = {x.split(':')[0]: (x.split(':') + [''])[1] for x in IDS} if cls == 'Generator' else {}
                if m in fl or m in ids:
                    flag = fl.get(m, ids.get(m))
                    cond, args, sargs = ['W<%s>(v0)' % cls], [], []
                    j = 1
                    while j < len(spec):
                        k, base, pn = spec[j]
                        if k == 'pid' and m in ids: j += 1; continue
                        if k == 'h':
                            cond.append('W<%s>(v%d)' % (base, j)); args.append('*W<%s>(v%d)' % (base, j)); sargs.append(args[-1])
                        elif k == 'str' and flag == 's':
                            args += ['a%d' % j, 'a%d' % (j + 1)]; sargs.append('std::string_view(a%d, n%d)' % (j, j)); snum = j; j += 1
                        elif k == 'pf': args.append('(double *)a%d' % j); sargs.append(args[-1])
                        elif k == 'str' and j + 1 < len(spec) or k != 'str': args.append('a%d' % j); sargs.append('a%d' % j)
                        else: cond.append('a%d' % j); args.append('a%d' % j); sargs.append('a%d' % j)
                        if flag == 'b' and k == 'i': cond.append('(a%d == 0 || a%d == 1)' % (j, j))
                        j += 1
                    def call(a):
                        e = 'W<%s>(v0)->%s(%s)' % (cls, m, ', '.join(a))
                        if m in ids: return 'NEWID(%d, %s);' % (len(spec) - 1, e)
                        return 'DONE(%s);' % e
                    dflt = ''
                    if (cls, m) in DFLT: dflt = 'if(!alt && a%d && a%d == -1) %s' % (snum, snum + 1, call([x for x in args if x != 'a%d' % (snum + 1)]))
                    body = 'if(%s) { %s %s %s }' % (' && '.join(cond), dflt, ('if(alt && a%d && (int64_t)a%d == n%d) %s' % (snum, snum + 1, snum, call(sargs))) if flag == 's' else '', call(args))
        o.append(' case %d: { %s %s if(bad) { pend.clear(); return -999; } %s int32_t r = capy_%s(%s); return r; }' % (i, ' '.join(dec), pre, body, n, ', '.join(raw)))
    o.append(r''' }
 return -999;
}
static std::vector<char> slurp(const char *n) { std::vector<char> v; FILE *f = fopen(n, "rb"); if(!f) exit(9); char b[65536]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0) v.insert(v.end(), b, b + k); fclose(f); return v; }
int main(int argc, char **argv) {
    for(int i = 3; i < argc; ++i) {
        Run r; r.d = slurp(argv[i]); r.scratch = argv[2]; r.run();
        for(auto it = r.vars.rbegin(); it != r.vars.rend(); ++it) it->w.reset();
        for(auto &l : g_live) fprintf(stderr, "never destroyed: %s\n", l.second);
        g_live.clear();
        FILE *f = fopen((std::string(argv[i]) + ".res").c_str(), "wb"); uint32_t n = r.res.size(); fwrite(r.res.data(), 4, n, f); fwrite(r.val.data(), 8, r.val.size(), f); fclose(f);
    }
    fflush(stdout); fflush(stderr);
    _exit(0);
}
''')
    return '\n'.join(o)


def build(flavor):
    d = os.path.join(B.BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'hppexec.cpp')
    s = source()
    if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)
    return B.build(flavor, [('hppexec', [p], '', '-pthread')])


class Ser(N.Ser):
    def op(self, op):
        r = super().op(op)
        if r and op[0] == 'dc_cmd_cm' and len(op) > 8: return r[0], r[1] + struct.pack('<d', op[8]['rot'])
        return r


class Hpp(N.Native):
    """run(prog, env) -> (rc, stderr, [(code, via, value) or None], files)"""

    def __init__(self, d, timeout=120):
        super().__init__(d, False, timeout)
        self.exe = os.path.join(d, 'hppexec')

    def go(self, prog, env=None):
        import shutil
        shutil.rmtree(self.scratch, True)
        os.makedirs(self.scratch, exist_ok=True)
        data, ops = Ser().prog(prog)
        f = os.path.join(self.root, 'p0')
        open(f, 'wb').write(data)
        try: os.unlink(f + '.res')
        except OSError: pass
        e = {k: v for k, v in os.environ.items() if k not in ('CAPY_DEBUG_PDF', 'SOURCE_DATE_EPOCH', 'CAPY_SCRAPE_PROTECT')}
        e.update(LC_ALL='C.UTF-8', TZ='XYZ-5:30'); e.update(env or {})
        try:
            r = subprocess.run([self.exe, 's', self.scratch, f], env=e, capture_output=True, timeout=self.timeout)
            rc, err = r.returncode, r.stderr.decode('latin-1')
        except subprocess.TimeoutExpired as x:
            rc, err = 'timeout', (x.stderr or b'').decode('latin-1')
        try: b = open(f + '.res', 'rb').read()
        except OSError: b = b''
        n = len(b) // 20
        c = struct.unpack('<%di' % n, b[:4 * n]); v = struct.unpack('<%dd' % (2 * n), b[4 * n:20 * n])
        res = [None] * len(prog)
        for k, i in enumerate(ops):
            if k < n and c[k] != -999: res[i] = (c[k], v[2 * k + 1], v[2 * k])
        out = {}
        for nm in os.listdir(self.scratch):
            q = os.path.join(self.scratch, nm)
            if os.path.isfile(q): out[nm] = open(q, 'rb').read()
        return rc, err, res, out
