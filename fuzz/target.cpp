// libFuzzer target: arbitrary bytes as a font, image or ICC profile, used the way an application does.
// CAPY_FUZZ=font|image|icc selects what the bytes are.  The last 8 bytes steer the use (options, glyphs).
// Errors are fine; crashes, sanitizer reports, aborts, hangs and unbounded allocations are not.
#include <capypdf.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <png.h>
#include <zlib.h>

// Allocations of more than 256 MiB fail the way they do when memory is short.
static const size_t LIMIT = 256u << 20;
__attribute__((visibility("default"))) void *operator new(size_t n) {
    if(n > LIMIT) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
__attribute__((visibility("default"))) void *operator new[](size_t n) { return operator new(n); }
__attribute__((visibility("default"))) void operator delete(void *p) noexcept { free(p); }
__attribute__((visibility("default"))) void operator delete[](void *p) noexcept { free(p); }
__attribute__((visibility("default"))) void operator delete(void *p, size_t) noexcept { free(p); }
__attribute__((visibility("default"))) void operator delete[](void *p, size_t) noexcept { free(p); }

extern "C" size_t LLVMFuzzerMutate(uint8_t *data, size_t size, size_t max);

static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static std::string dir, mode;
static uint64_t n_all, n_loaded, n_written;
static std::unordered_set<uint64_t> distinct;

static void report() {
    const char *f = getenv("CAPY_FUZZ_STATS");
    if(f) {
        FILE *o = fopen(f, "w");
        if(o) {
            fprintf(o, "%llu %llu %llu %zu\n", (unsigned long long)n_all, (unsigned long long)n_loaded, (unsigned long long)n_written, distinct.size());
            fclose(o);
        }
    }
}

static void cleanup() {
    report();
    for(const char *n : {"/in", "/in.png", "/in.tif", "/in.jpg", "/out.pdf", "/out.pdf~"}) unlink((dir + n).c_str());
    rmdir(dir.c_str());
}

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *m = getenv("CAPY_FUZZ");
    mode = m ? m : "font";
    const char *b = getenv("CAPY_FUZZ_DIR");
    std::string t = std::string(b ? b : "/tmp") + "/capyfuzz.XXXXXX";
    if(!mkdtemp(t.data())) abort();
    dir = t;
    atexit(cleanup);
    return 0;
}

static uint64_t hash(const uint8_t *d, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for(size_t i = 0; i < n; ++i) h = (h ^ d[i]) * 1099511628211ull;
    return h;
}

static std::string put(const char *name, const uint8_t *d, size_t n) {
    std::string p = dir + name;
    FILE *f = fopen(p.c_str(), "wb");
    if(!f) abort();
    if(n && fwrite(d, 1, n, f) != n) abort();
    fclose(f);
    return p;
}

struct Doc {
    CapyPDF_DocumentProperties *dp = nullptr;
    CapyPDF_Generator *g = nullptr;
    CapyPDF_DrawContext *c = nullptr;
    std::string out = dir + "/out.pdf";
    bool open() {
        if(!dp) capy_document_properties_new(&dp);
        CapyPDF_PageProperties *pp;
        capy_page_properties_new(&pp);
        capy_page_properties_set_pagebox(pp, CAPY_BOX_MEDIA, 0, 0, 200, 200);
        capy_document_properties_set_default_page_properties(dp, pp);
        capy_page_properties_destroy(pp);
        if(capy_generator_new(out.c_str(), dp, &g) != 0) { g = nullptr; return false; }
        return capy_page_draw_context_new(g, &c) == 0;
    }
    bool finish() {
        bool ok = capy_generator_add_page(g, c) == 0 && capy_generator_write(g) == 0;
        if(ok) ++n_written;
        return ok;
    }
    ~Doc() {
        if(c) capy_dc_destroy(c);
        if(g) capy_generator_destroy(g);
        if(dp) capy_document_properties_destroy(dp);
    }
};

static void font(const uint8_t *d, size_t n, const uint8_t *ctl, uint64_t h) {
    auto path = put("/in", d, n);
    Doc doc;
    if(!doc.open()) return;
    CapyPDF_FontProperties *fp = nullptr;
    if(ctl[0] & 1) {
        capy_font_properties_new(&fp);
        if(ctl[0] & 2) capy_font_properties_set_subfont(fp, ctl[1] % 5);
        if(ctl[0] & 4) capy_font_properties_set_named_instance(fp, ctl[1] / 5 % 6);
        if(ctl[0] & 8) {
            static const char *tags[] = {"wght", "wdth", "slnt", "opsz", "ABCD", "x y!"};
            capy_font_properties_set_variation(fp, tags[ctl[2] % 6], 4, (int16_t)(ctl[3] << 8 | ctl[2]));
        }
    }
    CapyPDF_FontId id;
    if(capy_generator_load_font(doc.g, path.c_str(), fp, &id) == 0) {
        ++n_loaded; distinct.insert(h);
        double w;
        capy_generator_text_width(doc.g, "AVA\xc3\x84o", -1, id, 12, &w);
        static const char *texts[] = {"A", "V", "AV", "1", " ", "fi", "\xc3\xa4", "\xd0\x96", "\xe6\x97\xa5", "~"};
        for(auto t : texts) capy_dc_render_text(doc.c, t, -1, id, 12, 10, 10);
        CapyPDF_TextSequence *ts;
        CapyPDF_Text *tx;
        capy_text_sequence_new(&ts);
        for(uint32_t gid = 0; gid < 12; ++gid) capy_text_sequence_append_raw_glyph(ts, gid, 'A' + gid);
        capy_text_sequence_append_raw_glyph(ts, ctl[4] << 8 | ctl[5], 0x3b1);
        capy_text_sequence_append_ligature_glyph(ts, ctl[6], "ffi", -1);
        capy_text_sequence_append_codepoint(ts, ctl[7] + 32);
        if(capy_dc_text_new(doc.c, &tx) == 0) {
            capy_text_cmd_Tf(tx, id, 10);
            if(capy_text_cmd_TJ(tx, ts) != 0) {
                // one of the glyphs does not exist: the ones that do
                for(uint32_t gid = 0; gid < 12; ++gid) {
                    CapyPDF_TextSequence *t1;
                    capy_text_sequence_new(&t1);
                    capy_text_sequence_append_raw_glyph(t1, gid, 'A' + gid);
                    capy_text_cmd_TJ(tx, t1);
                    capy_text_sequence_destroy(t1);
                }
            }
            capy_dc_render_text_obj(doc.c, tx);
            capy_text_destroy(tx);
        }
        capy_text_sequence_destroy(ts);
        doc.finish();
    }
    if(fp) capy_font_properties_destroy(fp);
}

static void use_image(Doc &doc, CapyPDF_RasterImage *im, const uint8_t *ctl, uint64_t h) {
    ++n_loaded; distinct.insert(h);
    uint32_t w, hh;
    int32_t prof;
    CapyPDF_Image_Colorspace cs;
    capy_raster_image_get_size(im, &w, &hh);
    capy_raster_image_get_colorspace(im, &cs);
    capy_raster_image_has_profile(im, &prof);
    CapyPDF_ImagePdfProperties *ip;
    capy_image_pdf_properties_new(&ip);
    if(ctl[1] & 1) capy_image_pdf_properties_set_mask(ip, 1);
    if(ctl[1] & 2) capy_image_pdf_properties_set_interpolate(ip, CAPY_INTERPOLATION_SMOOTH);
    CapyPDF_RasterImage *conv = nullptr;
    if(ctl[1] & 8) {
        if(capy_generator_convert_image(doc.g, im, (CapyPDF_Device_Colorspace)(ctl[2] % 3), (CapyPDF_Rendering_Intent)(ctl[3] & 3), &conv) != 0) conv = nullptr;
    }
    CapyPDF_ImageId id;
    if(capy_generator_add_image(doc.g, im, ip, &id) == 0) capy_dc_cmd_Do_image(doc.c, id);
    if(conv) {
        if(capy_generator_add_image(doc.g, conv, ip, &id) == 0) capy_dc_cmd_Do_image(doc.c, id);
        capy_raster_image_destroy(conv);
    }
    capy_image_pdf_properties_destroy(ip);
}

static void image(const uint8_t *d, size_t n, const uint8_t *ctl, uint64_t h) {
    // The memory for the announced dimensions is legitimate but too much to try.
    if(n > 24 && memcmp(d, "\x89PNG", 4) == 0 && (uint64_t)be32(d + 16) * be32(d + 20) > 16000000) return;
    static const char *names[] = {"/in", "/in.png", "/in.tif", "/in.jpg"};
    Doc doc;
    if(!doc.open()) return;
    CapyPDF_RasterImage *im = nullptr;
    int r;
    if(ctl[0] & 1) r = capy_generator_load_image_from_memory(doc.g, (const char *)d, n, &im);
    else r = capy_generator_load_image(doc.g, put((ctl[0] & 6) == 6 ? names[ctl[0] >> 3 & 3] : names[0], d, n).c_str(), &im);
    if(r == 0) {
        use_image(doc, im, ctl, h);
        capy_raster_image_destroy(im);
        doc.finish();
    }
}

static void icc(const uint8_t *d, size_t n, const uint8_t *ctl, uint64_t h) {
    auto path = put("/in", d, n);
    Doc doc;
    if(ctl[0] & 1) {
        capy_document_properties_new(&doc.dp);
        capy_document_properties_set_device_profile(doc.dp, (CapyPDF_Device_Colorspace)(ctl[1] % 3), path.c_str());
        if(ctl[0] & 2) capy_document_properties_set_colorspace(doc.dp, (CapyPDF_Device_Colorspace)(ctl[2] % 3));
    }
    if(!doc.open()) return;
    if(ctl[0] & 1) { ++n_loaded; distinct.insert(h); }
    CapyPDF_IccColorSpaceId id;
    for(int k = 0; k < 2; ++k) {
        int r = k ? capy_generator_load_icc_profile(doc.g, path.c_str(), &id) : capy_generator_add_icc_profile(doc.g, (const char *)d, n, ctl[3] % 5, &id);
        if(r != 0) continue;
        ++n_loaded; distinct.insert(h);
        CapyPDF_Color *c;
        capy_color_new(&c);
        double v[5] = {.1, .5, .9, .3, .2};
        for(int m = 1; m <= 4; ++m)
            if(capy_color_set_icc(c, id, v, m) == 0) capy_dc_set_nonstroke(doc.c, c);
        capy_color_destroy(c);
    }
    // conversions through the profile
    CapyPDF_Color *c;
    capy_color_new(&c);
    capy_color_set_rgb(c, .2, .4, .9); capy_dc_set_nonstroke(doc.c, c);
    capy_color_set_gray(c, .3); capy_dc_set_nonstroke(doc.c, c);
    capy_color_set_cmyk(c, .2, .4, .9, .1); capy_dc_set_stroke(doc.c, c);
    capy_color_destroy(c);
    CapyPDF_RasterImageBuilder *b;
    CapyPDF_RasterImage *im = nullptr;
    capy_raster_image_builder_new(&b);
    capy_raster_image_builder_set_size(b, 2, 2);
    const int cs = ctl[4] % 3;
    capy_raster_image_builder_set_colorspace(b, (CapyPDF_Image_Colorspace)cs);
    const char px[17] = "0123456789abcdef";
    capy_raster_image_builder_set_pixel_data(b, px, 4 * (cs == 0 ? 3 : cs == 1 ? 1 : 4));
    if(capy_raster_image_builder_build(b, &im) == 0) {
        for(int o = 0; o < 3; ++o) {
            CapyPDF_RasterImage *conv = nullptr;
            if(capy_generator_convert_image(doc.g, im, (CapyPDF_Device_Colorspace)o, (CapyPDF_Rendering_Intent)(ctl[5] & 3), &conv) == 0) capy_raster_image_destroy(conv);
        }
        capy_raster_image_destroy(im);
    }
    capy_raster_image_builder_destroy(b);
    doc.finish();
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if(size < 8) return 0;
    ++n_all;
    const uint8_t *ctl = data + size - 8;
    const auto h = hash(data, size);
    if(mode == "font") font(data, size - 8, ctl, h);
    else if(mode == "image") image(data, size - 8, ctl, h);
    else icc(data, size - 8, ctl, h);
    if(n_all % 256 == 0) report();
    return 0;
}

// ---- mutation that knows the containers
static uint32_t le32(const uint8_t *p) { return (uint32_t)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0]; }
static uint32_t rng;
static uint32_t rnd(uint32_t n) { rng = rng * 1664525u + 1013904223u; return n ? (rng >> 8) % n : 0; }

static void poke(uint8_t *p, size_t n, bool big) {
    if(n == 0) return;
    static const int32_t nice[] = {0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, (int32_t)0x80000000, 0x10000, 4, 8, 12, 0x40000000};
    const size_t w = rnd(3);
    const size_t o = rnd(n) & (w == 2 ? ~3u : w == 1 ? ~1u : ~0u);
    const size_t len = (size_t)1 << w;
    if(o + len > n) return;
    uint32_t v = 0;
    for(size_t i = 0; i < len; ++i) v = v << 8 | p[o + (big ? i : len - 1 - i)];
    switch(rnd(4)) {
    case 0: v = nice[rnd(sizeof(nice) / sizeof(*nice))]; break;
    case 1: v += (int32_t)rnd(9) - 4; break;
    case 2: v ^= 1u << rnd(8 * len); break;
    default: v = rnd(0x1000000) << 8 ^ rnd(0x1000000);
    }
    for(size_t i = 0; i < len; ++i) p[o + (big ? len - 1 - i : i)] = v >> 8 * i;
}

static size_t fixpng(uint8_t *d, size_t n) {
    size_t o = 8;
    while(o + 12 <= n) {
        const uint32_t l = be32(d + o);
        if(l > n - o - 12) break;
        const uint32_t c = crc32(0, d + o + 4, l + 4);
        d[o + 8 + l] = c >> 24; d[o + 9 + l] = c >> 16; d[o + 10 + l] = c >> 8; d[o + 11 + l] = c;
        o += 12 + l;
    }
    return n;
}

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max, unsigned seed) {
    rng = seed;
    if(size < 40) return LLVMFuzzerMutate(data, size, max);
    size_t n = size - 8;
    if(rnd(12) == 0) { poke(data + n, 8, true); return size; }
    const bool png = memcmp(data, "\x89PNG", 4) == 0;
    const bool sfnt = mode == "font" || mode == "icc";
    const int rounds = 1 + (rnd(3) == 0 ? rnd(6) : 0);
    for(int k = 0; k < rounds; ++k) {
        if(rnd(5) == 0 && !png) { size = LLVMFuzzerMutate(data, size, max); if(size < 40) return size; n = size - 8; continue; }
        size_t a = 0, l = n;
        if(sfnt) {
            size_t dirp = 0, rec = 16, first = 12, cnt;
            if(mode == "icc") { first = 132; rec = 12; cnt = n > 132 ? be32(data + 128) : 0; }
            else {
                if(memcmp(data, "ttcf", 4) == 0) { uint32_t f = be32(data + 8); if(f && f < 20) { uint32_t o = 12 + 4 * rnd(f); if(o + 4 <= n) dirp = be32(data + o); } }
                cnt = dirp < n - 6 ? data[dirp + 4] << 8 | data[dirp + 5] : 0;
                first += dirp;
            }
            if(cnt && cnt < 60 && rnd(8)) {
                const size_t e = first + rec * rnd(cnt) + (mode == "icc" ? 4 : 8);
                if(e + 8 <= n) {
                    const uint32_t o = be32(data + e), ln = be32(data + e + 4);
                    if(o < n && ln && ln <= n - o) { a = o; l = ln; }
                    if(rnd(10) == 0) { a = e - 8; l = 16; }
                }
            } else l = n < 300 ? n : 300;
            if(l > 64 && rnd(2)) l = 64;          // headers of tables
        } else if(png) {
            // one chunk, mostly not the image data
            size_t o = 8, best = 8;
            uint32_t seen = 0;
            while(o + 12 <= n) { if(rnd(++seen) == 0) best = o; uint32_t cl = be32(data + o); if(cl > n - o - 12) break; o += 12 + cl; }
            a = best + 8; l = best + 12 <= n ? be32(data + best) : 0;
            if(l > n - a || l == 0) { a = 16; l = 13; }
            if(rnd(30) == 0) { a = best; l = 8; }
        } else if(n > 8 && (memcmp(data, "II", 2) == 0 || memcmp(data, "MM", 2) == 0)) {
            const bool le = data[0] == 'I';
            const size_t o = le ? le32(data + 4) : be32(data + 4);
            if(o + 2 <= n && rnd(4)) { a = o; l = n - o < 200 ? n - o : 200; }
            poke(data + a, l, !le);
            continue;
        }
        if(a > n) a = 0;
        if(l > n - a) l = n - a;
        poke(data + a, l, true);
    }
    if(rnd(40) == 0 && n > 20) { const size_t cut = rnd(n); memmove(data + cut, data + n, 8); size = cut + 8; n = cut; }
    if(png && rnd(10)) fixpng(data, n);
    return size;
}
