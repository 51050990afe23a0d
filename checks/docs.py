"""The checks that compare generated documents with the reference model, one weighting per property."""
from docpart import DocPart

BASE = dict(draw=30, newpage=3, commit=3, ocg=.6, struct=1, embed=.5, outline=1, annot=1.2, field=.5, label=.3, collection=.1, form=.5, gs=.8, shading=.6,
            pattern=.4, image=.8, icc=.3, lab=.3, sep=.3, width=.5, function=.3, softmask=.2)


def steps(**k):
    d = dict(BASE); d.update(k); return d


def has(*keys):
    return lambda f: any(f.get(k) for k in keys) and f.get('page')


def mix(r): return dict(perr=r.choice([0, 0, .05]))


def C01(r):
    if r.random() < .0005:       # more objects than fit into 16 bits
        return dict(debug=.2, subtype=.2, npages=2, p_mega=1, sizes=[5])
    if r.random() < .01:         # many objects
        return dict(debug=.2, subtype=.2, p_defpage=.2, npages=3, sizes=[500, 900], steps=dict(draw=10, newpage=1, commit=1, ocg=20, embed=8, outline=12, annot=6, field=6, gs=12, function=8, struct=4))
    return dict(perr=r.choice([0, 0, .05, .2]), debug=.4, p_prop=.5, subtype=.35, p_defpage=.4, p_custom=.3, p_trans=.2, p_vp=.2, p_nav=.3, p_tg=.3, p_annot=.4, npages=r.choice([1, 3, 8]),
                sizes=[1, 3, 8, 15, 30, 60, 120],
                steps=steps(ocg=1.5, struct=3, embed=1.5, outline=3, annot=4, field=3, label=1.5, collection=.5, form=2, gs=3, shading=3, pattern=2, image=2.5,
                            icc=.8, lab=.8, sep=1.5, function=2, softmask=1.5))


def structural(m, gen, data, fonts):
    import cmp, schema
    iss, st, p = cmp.check(m, gen, data, fonts)
    out, n = schema.walk(p)
    st['positions'] = n
    return iss + [(('C01',), c, t) for c, t in out], st, p


def C02(r):
    return dict(perr=r.choice([0, 0, .03]), p_defpage=.7, p_custom=.5, p_trans=.4, p_vp=.4, p_nav=.3, p_tg=.4, p_annot=.05, subtype=.1, npages=8,
                steps=steps(draw=12, newpage=9, commit=9, ocg=2), sizes=[5, 15, 30, 60, 90])


def C03(r):
    return dict(perr=r.choice([0, 0, .05]), steps=steps(draw=60, form=1, pattern=1), p_annot=.05)


def C04(r):
    return dict(perr=r.choice([0, 0, .03]), steps=steps(draw=40, newpage=4, commit=4, form=1, gs=1.5, icc=.6, sep=.6, lab=.6, ocg=1),
                draw=dict(path=4, color=2, state=2, q=4, Q=4, res=30, setcolor=25, mc=10, emc=8, text=6, textobj=6))


def C05(r):
    return dict(perr=r.choice([0, 0, .05]), steps=steps(draw=60, newpage=4, commit=5),
                draw=dict(path=6, color=3, state=3, q=18, Q=18, res=3, setcolor=3, mc=16, emc=16, text=4, textobj=14))


def C06(r):
    return dict(perr=0, p_prop=.9, subtype=.15, p_annot=.6, p_vp=.2,
                steps=steps(draw=8, ocg=3, struct=4, embed=3, outline=4, annot=6, field=4, label=1.5, collection=1, sep=3, newpage=4, commit=4),
                draw=dict(path=5, mc=20, emc=12, textobj=12, res=3, q=2, Q=2, setcolor=6))


def C07(r):
    d = C06(r); d['perr'] = r.choice([.1, .3, .6]); d['mut'] = ('str',); return d


def C08(r):
    return dict(perr=r.choice([0, 0, .05]), p_show=.9, p_badsize=.08, p_bigimg=.03, p_hugeimg=r.choice([0, 0, 0, .01]), iccs=.3, p_prof=.3, p_prop=.3, subtype=.1, sizes=[5, 15, 30, 60],
                steps=dict(draw=6, newpage=2, commit=2, image=22, softmask=.5, pattern=1, form=.5))


def C09(r):
    return dict(perr=0, p_prop=.2, subtype=.1, p_prof=.2, p_conv=.05, sizes=[3, 8, 15, 30], steps=dict(draw=3, newpage=2, commit=2, fimage=24, image=1))


def C10(r):
    return dict(perr=r.choice([0, 0, .04]), p_prop=.3, subtype=.15, iccs=1, p_prof=.6, p_badprof=.05, p_conv=.7, p_8bit=.9, p_bigimg=.02, sizes=[3, 8, 15, 30],
                steps=dict(draw=8, newpage=2, commit=2, fimage=5, cimage=16, image=2, iccmem=4, icc=3), draw=dict(path=4, setcolor=20, res=8, q=2, Q=2, text=1, textobj=1))


def C11(r):
    real = r.random() < .35
    return dict(perr=r.choice([0, 0, .04]), p_genfont=0 if real else .8, p_fontprop=.4, p_long=r.choice([0, .05, .15]), fonts=r.sample(FONTS.system, 3) if real else None,
                steps=dict(draw=30, newpage=3, commit=3), draw=dict(path=1, text=20, textobj=20, q=2, Q=2, setcolor=1), sizes=[5, 10, 20, 40])


def C12(r):
    return dict(perr=r.choice([0, 0, .04]), p_long=r.choice([0, 0, .01]), steps=steps(draw=40, width=5), draw=dict(path=2, q=3, Q=3, text=20, textobj=26, setcolor=2, mc=4, emc=4),
                fonts=r.choice([None, FONTS.all]))


class FONTS:
    import glob as _g
    all = sorted(_g.glob('/repo/testdata/fonts/*.ttf') + _g.glob('/repo/testdata/fonts/*.otf'))
    system = all + sorted(_g.glob('/usr/share/fonts/truetype/**/*.tt[fc]', recursive=True) + _g.glob('/usr/share/fonts/opentype/**/*.otf', recursive=True))


def C15(r):
    return dict(perr=r.choice([.05, .15, .4]), p_annot=.4, p_custom=.3, p_trans=.2, p_vp=.2, p_nav=.3,
                steps=steps(ocg=1.5, struct=2, embed=1, outline=2, annot=3, field=2, label=1, collection=.6, form=1, gs=2, shading=2, pattern=1.5, image=2,
                            icc=.6, lab=.6, sep=1, width=2, function=1.5, softmask=1))


def C16(r):
    return dict(perr=r.choice([0, .05]), subtype=.2, p_annot=.6, steps=dict(draw=4, newpage=3, commit=3, embed=14, annot=6, collection=.6), sizes=[5, 15, 30, 60, 120])


def C17(r):
    return dict(perr=r.choice([0, .05]), p_annot=.4, npages=r.choice([1, 4, 12]), steps=dict(draw=3, newpage=6, commit=6, outline=20, annot=3), sizes=[5, 15, 40, 80, 160])


def C18(r):
    return dict(perr=r.choice([0, .05]), p_prop=.6, p_annot=.1, steps=dict(draw=30, newpage=5, commit=5, struct=14, form=.5), sizes=[8, 15, 40, 80, 150],
                draw=dict(path=5, mc=30, emc=26, textobj=10, q=3, Q=3, res=2))


def C19(r):
    return dict(perr=r.choice([0, .05]), p_annot=.8, steps=dict(draw=8, newpage=5, commit=5, annot=14, field=7, form=2, embed=1), sizes=[8, 15, 40, 80, 150], npages=r.choice([2, 5]))


def C20(r):
    return dict(perr=r.choice([0, .05]), steps=steps(draw=12, gs=8, shading=10, pattern=7, function=6, softmask=4, sep=4, lab=3, icc=2, form=2, newpage=3, commit=3),
                draw=dict(path=4, color=8, state=4, q=4, Q=4, res=16, setcolor=24))


def C21(r):
    return dict(perr=r.choice([0, .04]), p_prop=.8, subtype=.25, steps=dict(draw=8, newpage=6, commit=6, ocg=3, label=5, collection=1.5, outline=.5), npages=6)


def C22(r):
    return dict(perr=r.choice([0, .04]), p_prop=.4, subtype=1.0, sizes=[1, 2, 4, 8, 15], steps=steps(image=6, label=1, draw=10))


TEXT = 'a document of 3..150 random API calls (builders, contexts, commits, some invalid) is executed and the parsed file compared with the model; '

DEFS = {
    'C01': (C01, lambda f: f.get('positions', 0) >= 20, 'a document of 1..120 random API calls with all features, subtypes and the debug mode; the file is parsed strictly (xref, offsets, streams, syntax) and walked from the trailer '
            'with a typed schema of ISO 32000 besides the comparison with the model; non-trivial: at least 20 typed positions were checked', 5000, 60000),
    'C02': (C02, has('page'), TEXT + 'non-trivial: it has pages and explicit page attributes or defaults', 5000, 60000),
    'C03': (C03, lambda f: f.get('ops', 0) >= 8, TEXT + 'non-trivial: at least 8 operators were compared', 5000, 60000),
    'C04': (C04, lambda f: f.get('resuse', 0) >= 3, TEXT + 'non-trivial: at least 3 uses of named resources were resolved', 5000, 60000),
    'C05': (C05, lambda f: f.get('ops', 0) >= 8 and f.get('m.rejected:C05', 0) + f.get('m.commit_page', 0) > 1, TEXT + 'non-trivial: operators compared and a nesting violation rejected or several pages committed', 6000, 60000),
    'C06': (C06, lambda f: f.get('strings', 0) >= 4, TEXT + 'non-trivial: at least 4 strings were read back', 5000, 60000),
    'C07': (C07, lambda f: f.get('m.rejected:C07', 0) >= 1 and f.get('page', 0) > 0, TEXT + 'non-trivial: an invalid string was rejected and the document was written afterwards', 5000, 60000),
    'C08': (C08, lambda f: f.get('image', 0) >= 2, TEXT + 'non-trivial: at least 2 images built from samples were read back', 3500, 40000),
    'C09': (C09, lambda f: any(k.startswith('image_') and k not in ('image_conv', 'image_query') for k in f), TEXT + 'image files (PNG, TIFF, JPEG made by lib/imggen.py, also damaged ones) are loaded by name or from memory; '
            'non-trivial: the samples of at least one image file were compared', 3000, 40000),
    'C10': (C10, lambda f: f.get('image_conv', 0) + f.get('icc', 0) >= 2, TEXT + 'the oracle for converted samples is Little CMS called directly; non-trivial: at least 2 converted images or ICC colour spaces were compared', 2000, 30000),
    'C11': (C11, lambda f: f.get('glyphcmp_outline', 0) >= 3, TEXT + 'fonts: made by lib/fontgen.py (TrueType with composites, variable, CFF, CID-keyed CFF, collections), those of the repository and of the system, '
            'with random subfont, named instance and axis values; non-trivial: the outlines, advances and widths of at least 3 glyphs were compared with the original font', 3000, 40000),
    'C12': (C12, lambda f: f.get('glyphs', 0) >= 5, TEXT + 'non-trivial: at least 5 glyphs were shown and mapped back', 4000, 40000),
    'C16': (C16, has('attachment_bytes'), TEXT + 'non-trivial: attachments with contents were read back', 5000, 60000),
    'C17': (C17, lambda f: f.get('outline', 0) >= 2, TEXT + 'non-trivial: at least 2 outline entries', 5000, 60000),
    'C18': (C18, lambda f: f.get('structelem', 0) >= 2 and f.get('mcid', 0) >= 1, TEXT + 'non-trivial: structure elements and marked content belonging to them', 5000, 60000),
    'C19': (C19, has('annot', 'field'), TEXT + 'non-trivial: annotations or fields were compared', 5000, 60000),
    'C20': (C20, lambda f: sum(f.get(k, 0) for k in ('gstate', 'function', 'shading', 'mesh_el', 'smask')) >= 2, TEXT + 'non-trivial: at least 2 parameterised resources were compared', 5000, 60000),
    'C21': (C21, has('page'), TEXT + 'non-trivial: written and catalog, info, XMP, labels compared', 5000, 60000),
    'C22': (C22, lambda f: bool(f.get('m.write') or f.get('m.rejected:C22')), TEXT + 'non-trivial: a document of a declared subtype was written or refused', 6000, 60000),
}


LONG = ('C02', 'C03', 'C04', 'C05', 'C06', 'C12', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21')


def scaled(kw):
    """now and then a long history; half of them with few, long content streams"""
    def f(r):
        d = kw(r)
        if r.random() < .012:
            d['sizes'] = [400, 1000, 2500]
            if r.random() < .5:
                st = d['steps'] = dict(d['steps'])
                st['newpage'], st['commit'] = .1, .05
        return d
    return f


def part(c):
    kw, nt, rule, q, t = DEFS[c]
    if c in LONG: kw = scaled(kw)
    return DocPart('docs', kw, nt, rule, q, t, comparer=structural if c == 'C01' else None)


def asanpart(c, q=1200, t=12000, weight=.5):
    kw, nt, rule, _, _ = DEFS[c]
    return DocPart('docs-asan', kw, nt, 'the same with AddressSanitizer and UBSan', q, t, flavor='asan', weight=weight)
