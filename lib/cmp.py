"""Compares what the model says a document must contain with what the independent parser reads back."""
import struct, zlib, os, re, xml.etree.ElementTree as ET
import model as M, pdf as P, ftlib
from model import Name, T, R, Gl, Ent, Obj

ATOL, RTOL = 2e-6, 1e-9


class Opt:
    def __init__(self, v): self.v = v


class AnyT: pass
ANY = AnyT()


class Call:
    """an expected value decided by a function of (cmp, actual) -> list of messages"""
    def __init__(self, f): self.f = f


class Set:
    """array whose order is free"""
    def __init__(self, v): self.v = v


class NameStr:
    """either order of a text string in plain bytes"""


def numeq(a, b, tol=ATOL):
    if isinstance(b, bool) or not isinstance(b, (int, float)): return False
    return abs(a - b) <= tol + RTOL * abs(a)


def pdfname(s): return s.encode('utf-8', 'surrogatepass').decode('latin-1')


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:150] + '...'


OWN = {'page': 'C02', 'form': 'C20', 'trgroup': 'C20', 'tiling': 'C20', 'ocg': 'C21', 'outline': 'C17', 'struct': 'C18', 'role': 'C18', 'embedded': 'C16',
       'font': 'C11', 'image': 'C08', 'lab': 'C20', 'sep': 'C20', 'icc': 'C10', 'function': 'C20', 'shading': 'C20', 'shpattern': 'C20', 'softmask': 'C20',
       'gstate': 'C20', 'annot': 'C19', 'field': 'C19', 'd3': 'C19'}


class Cmp:
    def __init__(self, model, gen, pdf, fonts=True, images=True, embed=None):
        self.m, self.g, self.p = model, gen, pdf
        self.map, self.rev = {}, {}
        self.out = []
        self.stack = []
        self.fonts, self.images = fonts, images
        self.fontuse = {}      # ent -> {code: set of (gid, text)}
        self.stats = {}
        self.pagenum = {}
        self.trial = 0

    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, props, code, msg):
        if isinstance(props, str): props = (props,)
        self.out.append((tuple(dict.fromkeys(props)), code, msg))

    @staticmethod
    def same_text(act, t, want, path=''):
        b = bytes(act)
        # ASCII control characters (whose PDFDocEncoding meaning differs) may be stored as they are
        if want.isascii() and b == want.encode(): return True
        # a slash in a file specification may be marked as not being a separator
        if t is not None and path.split('/')[-1] in ('F', 'UF') and t in (want, want.replace('/', '\\/')): return True
        return False

    # ------------------------------------------------------------------ generic comparison
    def val(self, exp, act, own, path, text_prop='C06'):
        """reports mismatches; True when equal"""
        if isinstance(exp, Opt): exp = exp.v
        if exp is ANY: return True
        if isinstance(exp, Call):
            r = exp.f(self, act)
            for msg in r or []: self.bad(own, path, '%s: %s' % (path, msg))
            return not r
        if isinstance(exp, Ent):
            if not isinstance(act, P.Ref):
                self.bad(own, path, '%s is not a reference but %s' % (path, short(act))); return False
            return self.entity(exp, act, own, path)
        if isinstance(act, P.Ref): act = self.p.get(act)
        if isinstance(exp, T):
            if not isinstance(act, P.Str):
                self.bad(own, path, '%s is not a string but %s' % (path, short(act))); return False
            try: t = P.text(act)
            except UnicodeDecodeError as e: t = None
            if t != exp.s and not self.same_text(act, t, exp.s, path):
                self.bad(tuple(own) + (text_prop,), path, '%s reads %s instead of %s' % (path, short(t if t is not None else bytes(act)), short(exp.s))); return False
            self.count('strings')
            return True
        if isinstance(exp, Name):
            if not isinstance(act, P.Name) or str(act) != pdfname(exp):
                pr = tuple(own) if isinstance(act, P.Name) and exp.isalnum() else tuple(own) + (text_prop,)
                self.bad(pr, path, '%s is %s instead of /%s' % (path, short(act), short(str(exp)))); return False
            return True
        if isinstance(exp, bool) or exp is None:
            if act is not exp:
                self.bad(own, path, '%s is %s instead of %s' % (path, short(act), exp)); return False
            return True
        if isinstance(exp, (int, float)):
            if not numeq(exp, act):
                self.bad(own, path, '%s is %s instead of %r' % (path, short(act), exp)); return False
            return True
        if isinstance(exp, bytes):
            if not isinstance(act, P.Str) or bytes(act) != exp:
                self.bad(own, path, '%s is %s instead of %s' % (path, short(act), short(exp))); return False
            return True
        if isinstance(exp, Set):
            if not isinstance(act, list) or len(act) != len(exp.v):
                self.bad(own, path, '%s has %s entries instead of %d' % (path, len(act) if isinstance(act, list) else short(act), len(exp.v))); return False
            left = list(act)
            ok = True
            for e in exp.v:
                for i, a in enumerate(left):
                    if self.would(e, a): break
                else: i = 0
                ok &= self.val(e, left.pop(i), own, path + '[*]')
            return ok
        if isinstance(exp, (list, tuple)):
            if not isinstance(act, list) or len(act) != len(exp):
                self.bad(own, path, '%s is %s instead of %s' % (path, short(act), short(exp))); return False
            ok = True
            for i, (e, a) in enumerate(zip(exp, act)): ok &= self.val(e, a, own, '%s[%d]' % (path, i))
            return ok
        if isinstance(exp, dict):
            if isinstance(act, P.Stream): act = {k: v for k, v in act.d.items() if k not in ('Length', 'Filter', 'DecodeParms')}
            if not isinstance(act, dict):
                self.bad(own, path, '%s is not a dictionary but %s' % (path, short(act))); return False
            ok = True
            for k, e in exp.items():
                pk = pdfname(k)
                if pk not in act:
                    if isinstance(e, Opt): continue
                    self.bad(own, path + '/' + k, '%s lacks /%s (expected %s)' % (path, k, short(e))); ok = False
                else: ok &= self.val(e, act[pk], own, path + '/' + k)
            ks = {pdfname(k) for k in exp}
            for k in act:
                if k not in ks:
                    self.bad(own, path + '/+' + k, '%s has unexpected /%s %s' % (path, k, short(act[k]))); ok = False
            return ok
        raise TypeError(exp)

    def would(self, exp, act):
        """trial comparison without side effects"""
        sv = (dict(self.map), dict(self.rev), len(self.out), dict(self.stats), {k: dict(v) for k, v in self.fontuse.items()})
        self.trial += 1
        try:
            ok = self.val(exp, act, ('trial',), 'trial')
        finally:
            self.trial -= 1
            if sv[2] != len(self.out): ok = False
            self.map, self.rev = sv[0], sv[1]; del self.out[sv[2]:]; self.stats = sv[3]; self.fontuse = sv[4]
        return ok

    def entity(self, ent, ref, own, path):
        own = tuple(own)
        n = int(ref)
        if ent in self.map:
            if self.map[ent] != n:
                self.bad(own, 'ref:' + ent.kind, '%s refers to object %d but %r is object %d' % (path, n, ent, self.map[ent])); return False
            return True
        o = self.rev.get(n)
        if o is not None:
            self.bad(own, 'ref:' + ent.kind, '%s refers to object %d, which is %r, not %r' % (path, n, o, ent)); return False
        self.map[ent] = n; self.rev[n] = ent
        before = len(self.out)
        obj = self.p.get(ref)
        self.stack.append(ent)
        getattr(self, 'ent_' + ent.kind)(ent, obj)
        self.stack.pop()
        if len(self.out) > before and self.trial < 2:
            # does the reference designate another thing that was added?
            probs = self.out[before:]
            del self.map[ent]; del self.rev[n]
            for o in self.g.of(ent.kind):
                if o is ent or o in self.map: continue
                if ent.kind == 'image' and (o.img in (None, '?') or o.img.get('anyspace')): continue   # would match anything
                if self.would(o, P.Ref(n)):
                    del self.out[before:]
                    self.bad(own, 'ref:' + ent.kind, '%s refers to object %d, which is %r, not %r' % (path, n, o, ent))
                    return False
            self.map[ent] = n; self.rev[n] = ent
            return False
        return len(self.out) == before

    # ------------------------------------------------------------------ whole document
    def run(self):
        p, g = self.p, self.g
        cat = p.get(p.trailer.get('Root'))
        if not isinstance(cat, dict):
            self.bad('C01', 'catalog', 'no catalog'); return self.out
        self.version()
        self.info()
        # pages first: their objects are designated by everything else
        pages = p.get(cat.get('Pages'))
        if not isinstance(pages, dict) or pages.get('Type') != 'Pages':
            self.bad(('C01', 'C02'), 'pages', 'page tree root is %s' % short(pages)); return self.out
        kids = pages.get('Kids')
        leaves = self.leaves(cat.get('Pages'), None, 0)
        if leaves is None: return self.out
        if len(leaves) != len(g.pages):
            self.bad('C02', 'pagecount', 'document has %d pages instead of %d' % (len(leaves), len(g.pages))); return self.out
        for e, r in zip(g.pages, leaves):
            self.map[e] = int(r); self.rev[int(r)] = e
        self.catalog(cat)
        for e, r in zip(g.pages, leaves): self.page(e, p.get(r))
        for e in g.order:
            if e.kind in ('annot', 'field') and e in self.map: continue
        if self.fonts: self.check_fonts()
        return self.out

    def leaves(self, ref, parent, depth):
        o = self.p.get(ref)
        if not isinstance(o, dict) or depth > 20:
            self.bad(('C01', 'C02'), 'pagetree', 'page tree node is %s' % short(o)); return None
        if parent is not None and o.get('Parent') != parent:
            self.bad('C02', 'parent', 'page tree node has Parent %r instead of %r' % (o.get('Parent'), parent))
        if o.get('Type') == 'Page': return [ref]
        if o.get('Type') != 'Pages':
            self.bad(('C01', 'C02'), 'pagetree', 'page tree node has Type %r' % o.get('Type')); return None
        out = []
        for k in o.get('Kids', []):
            if not isinstance(k, P.Ref):
                self.bad(('C01', 'C02'), 'pagetree', 'page is not a reference'); return None
            l = self.leaves(k, ref, depth + 1)
            if l is None: return None
            out += l
        if o.get('Count') != len(out): self.bad('C02', 'count', 'page tree node has Count %r for %d pages' % (o.get('Count'), len(out)))
        return out

    def version(self):
        st = self.g.props.subtype
        v = '2.0'
        if st:
            if st[0] == 'X':
                n = M.PDFXNAMES[st[1]]
                v = '1.3' if re.match('PDF/X-[13]', n) else '1.6' if re.match('PDF/X-[45]', n) else '2.0'
            else: v = {'1': '1.4', '2': '1.7', '3': '1.7', '4': '2.0'}[M.PDFA[st[1]][0]]
        if self.p.version != v: self.bad('C22', 'version', 'file version is %s instead of %s' % (self.p.version, v))
        self.ver = v
        if v < '1.5' and not self.p.classic: self.bad(('C01', 'C22'), 'xreftype', 'version %s with an xref stream' % v)

    def usesrdf(self):
        st = self.g.props.subtype
        return (st is not None and st[0] == 'A') or self.g.props.xml != ''

    def info(self):
        d = self.g.props; st = d.subtype
        e4 = st is not None and st[0] == 'A' and M.PDFA[st[1]][0] == '4'
        ref = self.p.trailer.get('Info')
        if ref is None:
            if not e4: self.bad('C21', 'info', 'no info dictionary')
            return
        date = lambda c, a: None if isinstance(a, P.Str) and re.match(rb"D:\d{14}Z\Z", a) else ['bad date %r' % a]
        exp = {'ModDate': Call(date)}
        full = {}
        if d.title != '': full['Title'] = T(d.title)
        if d.author != '': full['Author'] = T(d.author)
        if d.creator != '': full['Creator'] = T(d.creator)
        full['Producer'] = Call(lambda c, a: None if isinstance(a, P.Str) and a.startswith(b'CapyPDF ') else ['is %r' % a])
        full['CreationDate'] = Call(date)
        if self.usesrdf(): full = {k: Opt(v) for k, v in full.items()}
        exp.update(full)
        if st and st[0] == 'X':
            exp['Trapped'] = Name('False')
            exp['GTS_PDFXVersion'] = Call(lambda c, a: None if a == M.PDFXNAMES[st[1]].encode() else ['is %s' % short(a)])
            if isinstance(self.p.get(ref), dict) and self.p.get(ref).get('GTS_PDFXVersion') != M.PDFXNAMES[st[1]].encode():
                self.bad('C22', 'gts', 'GTS_PDFXVersion is %s' % short(self.p.get(ref).get('GTS_PDFXVersion')))
        self.val(exp, self.p.get(ref), ('C21',), 'Info')

    def catalog(self, cat):
        g, d = self.g, self.g.props
        st = d.subtype
        exp = {'Type': Name('Catalog'), 'Pages': ANY}
        if g.labels:
            nums = []
            for start, style, prefix, num in g.labels:
                e = {}
                if style is not None: e['S'] = Name(M.LABEL[style])
                if prefix is not None: e['P'] = T(prefix) if prefix != '' else Opt(T(''))
                if num is not None: e['St'] = num if num != 1 else Opt(num)
                e['Type'] = Opt(Name('PageLabel'))
                nums += [start, e]
            exp['PageLabels'] = {'Nums': nums}
        if d.layout is not None: exp['PageLayout'] = Name(M.LAYOUT[d.layout])
        if d.mode is not None: exp['PageMode'] = Name(M.MODE[d.mode])
        if g.of('outline'): exp['Outlines'] = Call(Cmp.outlines)
        emb = g.of('embedded')
        if emb:
            exp['Names'] = Call(Cmp.names)
            exp['AF'] = Call(Cmp.af)
        else:
            exp['Names'] = Opt(Call(lambda c, a: None))
            exp['AF'] = Opt(Call(lambda c, a: None if c.p.get(a) == [] else ['has entries but no file was embedded']))
        if g.of('struct'): exp['StructTreeRoot'] = Call(Cmp.structroot)
        if d.lang != '': exp['Lang'] = T(d.lang)
        if d.tagged: exp['MarkInfo'] = {'Marked': True}
        if st is not None or d.intent != '' and d.cs in g.prof: exp['OutputIntents'] = Call(Cmp.intents)
        if st is None and 'OutputIntents' in exp: exp['OutputIntents'] = Opt(exp['OutputIntents'])
        if g.of('field'):
            top = [f for f in g.of('field') if f.f.parent is None]
            exp['AcroForm'] = {'Fields': top, 'NeedAppearances': True}
        if g.of('ocg'):
            exp['OCProperties'] = {'OCGs': g.of('ocg'), 'D': {'BaseState': Opt(Name('ON')), 'Name': Opt(ANY)}}
        if d.xml != '' or (st and st[0] == 'A'): exp['Metadata'] = Call(Cmp.metadata)
        elif st is not None: exp['Metadata'] = Opt(Call(Cmp.metadata))
        if g.collection is not None:
            c = g.collection
            e = {'Type': Opt(Name('Collection'))}
            if c.D is not None: e['D'] = c.D.encode('latin-1') if c.D else Opt(b'')
            if c.view is not None: e['View'] = Name(M.COLVIEW[c.view])
            if c.schema is not None:
                s = {'Type': Opt(Name('CollectionSchema'))}
                for k, f in c.schema.e.items():
                    x = {'Type': Opt(Name('CollectionField')), 'Subtype': Name(M.COLSUB[f.st]), 'N': T(f.N)}
                    if f.O is not None: x['O'] = f.O
                    if f.V is not None: x['V'] = f.V
                    if f.E is not None: x['E'] = f.E
                    s[k] = x
                e['Schema'] = s
            exp['Collection'] = e
        self.val(exp, cat, ('C21',), 'Catalog')

    # -- outlines
    def outlines(self, ref):
        g = self.g
        os_ = g.of('outline')
        root = self.p.get(ref)
        if not isinstance(ref, P.Ref) or not isinstance(root, dict): self.bad('C17', 'outlines', 'Outlines is %s' % short(ref)); return
        kids = {}
        for o in os_: kids.setdefault(o.parent, []).append(o)

        def level(parent, pref, pobj, depth):
            """walks a sibling list"""
            exp = kids.get(parent, [])
            if not exp:
                for k in ('First', 'Last', 'Count'):
                    if k in pobj and not (k == 'Count' and pobj[k] == 0): self.bad('C17', 'leaf', 'childless outline item has /%s' % k)
                return 0
            r = pobj.get('First'); prev = None; n = 0
            for i, e in enumerate(exp):
                o = self.p.get(r)
                if not isinstance(r, P.Ref) or not isinstance(o, dict):
                    self.bad('C17', 'chain', 'outline chain ends after %d of %d siblings' % (i, len(exp))); return n
                if int(r) in self.rev: self.bad('C17', 'chain', 'outline object %d appears twice' % r); return n
                self.map[e] = int(r); self.rev[int(r)] = e
                x = {'Title': T(e.title), 'Parent': Call(lambda c, a: None if a == pref else ['is %r instead of %r' % (a, pref)])}
                if i: x['Prev'] = Call(lambda c, a: None if a == prev else ['is %r instead of %r' % (a, prev)])
                if i + 1 < len(exp): x['Next'] = ANY
                elif 'Next' in o: self.bad('C17', 'chain', 'the last of %d siblings has a Next' % len(exp)); return n
                if e in kids: x['First'] = ANY; x['Last'] = ANY; x['Count'] = ANY
                else: x['Count'] = Opt(0)
                if e.dest is not None: x['Dest'] = self.dest(e.dest)
                if e.C is not None: x['C'] = e.C
                if e.F: x['F'] = e.F
                else: x['F'] = Opt(0)
                self.val(x, o, ('C17',), 'Outline')
                self.count('outline')
                k = level(e, r, o, depth + 1)
                if e in kids:
                    # closed items: -(number of descendants that become visible when opened), open: positive
                    c = o.get('Count')
                    if c not in (-len(kids[e]), ): self.bad('C17', 'count', 'outline item with %d children has Count %r' % (len(kids[e]), c))
                n += 1
                prev = r
                last = r
                r = o.get('Next')
            if pobj.get('Last') != last: self.bad('C17', 'last', 'Last is %r but the chain ends at %r' % (pobj.get('Last'), last))
            return n
        for k in root:
            if k not in ('Type', 'First', 'Last', 'Count'): self.bad('C17', 'root', 'unexpected /%s in the outline root' % k)
        if root.get('Type') != 'Outlines': self.bad('C17', 'root', 'Type of the outline root is %r' % root.get('Type'))
        level(None, ref, root, 0)
        n = len(kids.get(None, []))
        if root.get('Count') != n: self.bad('C17', 'count', 'outline root with %d visible items has Count %r' % (n, root.get('Count')))

    def dest(self, d):
        def f(c, a):
            a = c.p.get(a)
            exp = [c.g.pages[d.page] if d.page < len(c.g.pages) else ANY, Name(d.loc[0])] + list(d.loc[1:])
            c.val(exp, a, ('C17',) if not c.stack else ('C17', 'C19'), 'Dest')
        return Call(f)

    # -- attachments
    def filespec(self, e, af):
        x = {'Type': Name('Filespec'), 'F': T(e.name), 'UF': T(e.name), 'EF': Call(lambda c, a: c.ef(e, a)), 'Desc': Opt(ANY), 'AFRelationship': Opt(ANY)}
        return x

    def ef(self, e, a):
        a = self.p.get(a)
        if not isinstance(a, dict) or 'F' not in a: return ['EF is %s' % short(a)]
        for k, r in a.items():
            st = self.p.get(r)
            if k not in ('F', 'UF') or not isinstance(st, P.Stream): return ['EF/%s is %s' % (k, short(st))]
            if not isinstance(r, P.Ref): return ['EF/%s is no reference' % k]
            key = ('ef', e)
            if self.map.get(key, int(r)) != int(r): return ['two different file streams for one attachment']
            self.map[key] = int(r)
            if self.rev.setdefault(int(r), key) != key: return ['file stream shared between attachments']
            try: data = self.p.data(st)
            except P.Bad: return ['undecodable']
            if data != e.data: return ['attachment %r holds %d bytes instead of the %d given' % (e.name, len(data), len(e.data))]
            d = {k: v for k, v in st.d.items() if k not in ('Length', 'Filter')}
            exp = {'Type': Name('EmbeddedFile'), 'Params': Opt(Call(lambda c, q: None if not isinstance(c.p.get(q), dict) or c.p.get(q).get('Size', len(e.data)) == len(e.data) else ['Size is wrong']))}
            if e.subtype is not None: exp['Subtype'] = Name(e.subtype)
            self.val(exp, d, ('C16',), 'EmbeddedFile')
            self.count('attachment_bytes', len(data))

    def ent_embedded(self, e, o): self.val(self.filespec(e, False), o, ('C16',), 'Filespec')

    def names(self, a):
        n = self.p.get(a)
        if not isinstance(n, dict) or set(n) != {'EmbeddedFiles'}: return ['Names is %s' % short(n)]
        ents = []

        def walk(o, depth, root):
            o = self.p.get(o)
            if not isinstance(o, dict) or depth > 9: self.bad(('C16',), 'nametree', 'name tree node is %s' % short(o)); return []
            if 'Kids' in o:
                r = []
                for k in o['Kids']: r += walk(k, depth + 1, False)
            else:
                l = self.p.get(o.get('Names'))
                if not isinstance(l, list) or len(l) % 2: self.bad(('C16',), 'nametree', 'Names is %s' % short(l)); return []
                r = list(zip(l[::2], l[1::2]))
            if 'Limits' in o and r:
                if o['Limits'] != [r[0][0], r[-1][0]]: self.bad(('C16',), 'limits', 'Limits are %s for keys %s' % (short(o['Limits']), short([k for k, _ in r])))
            return r
        ents = walk(n['EmbeddedFiles'], 0, True)
        keys = [k for k, _ in ents]
        if not all(isinstance(k, P.Str) for k in keys): return ['keys are not strings']
        if any(a >= b for a, b in zip(keys, keys[1:])): self.bad(('C16', 'C01'), 'keyorder', 'name tree keys are not in ascending order: %s' % short(keys))
        exp = {e.name: e for e in self.g.of('embedded')}
        keys = {}
        for n in exp:
            for f in (n, n.replace('/', '\\/')):
                keys.setdefault(f.encode(), n); keys.setdefault(f, n)
        got = {}
        for k, v in ents:
            try: t = P.text(k)
            except UnicodeDecodeError: t = None
            c = [x for x in (bytes(k), t) if x in keys]
            n = next((keys[x] for x in c if keys[x] not in got), keys[c[0]] if c else None)
            if n is None: self.bad(('C16', 'C06'), 'nametree', 'unexpected attachment name %r' % (t if t is not None else bytes(k)))
            elif n in got: self.bad(('C16',), 'nametree', 'attachment %r is listed twice' % n)
            else:
                got[n] = v
                if isinstance(v, P.Ref): self.val(exp[n], v, ('C16',), 'EmbeddedFiles')
                else: self.val(self.filespec(exp[n], False), v, ('C16',), 'EmbeddedFiles')
        for t in exp:
            if t not in got: self.bad(('C16', 'C06'), 'nametree', 'attachment %r is not listed' % t)

    def af(self, a):
        l = self.p.get(a)
        emb = self.g.of('embedded')
        if not isinstance(l, list) or len(l) != len(emb): return ['AF has %s entries for %d files' % (len(l) if isinstance(l, list) else short(l), len(emb))]
        left = list(l)
        for e in emb:
            x = self.filespec(e, True)
            for i, o in enumerate(left):
                if self.would(x, o): break
            else: i = 0
            self.val(x, left.pop(i), ('C16',), 'AF')

    # -- structure
    def structroot(self, ref):
        g = self.g
        root = self.p.get(ref)
        items = g.of('struct')
        kids = {}
        for s in items: kids.setdefault(s.parent, []).append(s)
        if not isinstance(ref, P.Ref) or not isinstance(root, dict): return ['is %s' % short(ref)]
        self.structkids, self.structroot_ref = kids, ref
        exp = {'Type': Name('StructTreeRoot'), 'K': Call(lambda c, a: c.val(kids.get(None, []), c.p.get(a) if isinstance(c.p.get(a), list) else [a], ('C18',), 'StructTreeRoot/K') and None)}
        used = [pg for pg in g.pages if pg.structs]
        if used:
            exp['ParentTree'] = Call(Cmp.parenttree)
            exp['ParentTreeNextKey'] = Call(lambda c, a: None)
        else:
            exp['ParentTree'] = Opt(Call(Cmp.parenttree)); exp['ParentTreeNextKey'] = Opt(ANY)
        roles = g.of('role')
        if roles:
            exp['RoleMap'] = {r.name_latin(): Name(M.STRUCT[r.st]) for r in roles} if False else Call(Cmp.rolemap)
        if 'RoleMap' in root and not roles: exp['RoleMap'] = Opt(Call(lambda c, a: None if c.p.get(a) == {} else ['unexpected roles']))
        self.val(exp, root, ('C18',), 'StructTreeRoot')
        for s in items:
            if s not in self.map: self.bad('C18', 'reach', 'structure item %r is not reachable from the root' % s)

    def rolemap(self, a):
        a = self.p.get(a)
        exp = {r.name: M.STRUCT[r.st] for r in self.g.of('role')}
        if a != exp: return ['is %s instead of %s' % (short(a), short(exp))]

    def ent_struct(self, s, o):
        g = self.g
        if s.parent is not None: par = Call(lambda c, a: None if isinstance(a, P.Ref) and c.map.get(s.parent) == int(a) else ['is %s' % short(a)])
        else: par = Call(lambda c, a: None if a == c.structroot_ref else ['is %s instead of the root' % short(a)])
        exp = {'Type': Opt(Name('StructElem')), 'S': Name(M.STRUCT[s.st]) if s.role is None else Call(lambda c, a: None if isinstance(a, P.Name) and str(a) == s.role.name else ['is %s' % short(a)]), 'P': par}
        use = g.used_structs.get(s)
        ch = self.structkids.get(s, [])
        if use:
            exp['Pg'] = use[0]
            self.count('mcid')
        k = ([use[1]] if use else []) + ch
        if len(k) == 1: exp['K'] = Call(lambda c, a: c.val(k if isinstance(c.p.get(a), list) else k[0], a, ('C18',), 'StructElem/K') and None)
        elif k: exp['K'] = k
        if s.extra is not None:
            for n in ('T', 'Lang', 'Alt', 'ActualText'):
                v = getattr(s.extra, n)
                if v != '': exp[n] = T(v)
        self.val(exp, o, ('C18',), 'StructElem')
        self.count('structelem')

    def parenttree(self, a):
        t = self.p.get(a)
        if not isinstance(t, dict) or not isinstance(self.p.get(t.get('Nums')), list): return ['is %s' % short(t)]
        nums = self.p.get(t['Nums'])
        if len(nums) % 2: return ['odd Nums']
        keys = nums[::2]
        if any(not isinstance(x, int) for x in keys) or any(x >= y for x, y in zip(keys, keys[1:])): self.bad('C18', 'parenttree', 'parent tree keys %s' % short(keys))
        tree = dict(zip(keys, nums[1::2]))
        used = {}
        for pg in self.g.pages:
            po = self.p.objs.get(self.map[pg])
            if not isinstance(po, dict): continue
            k = po.get('StructParents')
            if pg.structs:
                if not isinstance(k, int) or k not in tree: self.bad('C18', 'parenttree', 'page with marked content has StructParents %r' % k); continue
                if k in used: self.bad('C18', 'parenttree', 'two pages share StructParents %d' % k)
                used[k] = pg
                self.val(list(pg.structs), tree[k], ('C18',), 'ParentTree')
            elif k is not None and k in tree and self.p.get(tree[k]) != []: self.bad('C18', 'parenttree', 'page without marked content has parent tree entries')
        for k in tree:
            if k not in used and self.p.get(tree[k]) != []: self.bad('C18', 'parenttree', 'parent tree entry %d belongs to no page' % k)
        nk = self.p.get(self.structroot_ref).get('ParentTreeNextKey')
        if nk is not None and keys and nk <= max(keys): self.bad('C18', 'parenttree', 'ParentTreeNextKey %r with keys %s' % (nk, short(keys)))

    # -- output intent, metadata
    def intents(self, a):
        g, d = self.g, self.g.props
        l = self.p.get(a)
        if not isinstance(l, list) or len(l) != 1: self.bad('C22', 'intent', 'OutputIntents is %s' % short(l)); return
        st = d.subtype
        prof = Call(lambda c, r: c.iccstream(r, g.prof[d.cs], ('C22', 'C10')))
        self.val({'Type': Name('OutputIntent'), 'S': Name('GTS_PDFX' if st and st[0] == 'X' else 'GTS_PDFA1'),
                  'OutputConditionIdentifier': T(d.intent), 'DestOutputProfile': prof, 'Info': Opt(ANY), 'OutputCondition': Opt(ANY), 'RegistryName': Opt(ANY)}, l[0], ('C22', 'C21'), 'OutputIntent')

    def iccstream(self, r, data, own):
        if not isinstance(r, P.Ref): self.bad(own, 'icc', 'profile is not a reference'); return
        st = self.p.get(r)
        if not isinstance(st, P.Stream): self.bad(own, 'icc', 'profile is %s' % short(st)); return
        try: raw = self.p.data(st)
        except P.Bad: return
        if raw != data: self.bad(own, 'icc', 'profile stream has %d bytes that are not the %d of the profile' % (len(raw), len(data)))
        n = M.icc_channels(data)
        if st.d.get('N') != n: self.bad(own, 'iccN', 'profile of %r channels has N %r' % (n, st.d.get('N')))
        o = self.map.setdefault(('icc', data), int(r))
        if o != int(r): self.bad(('C10',), 'iccdup', 'one profile is stored twice (objects %d and %d)' % (o, r))
        self.count('icc')

    def ent_icc(self, e, o):
        o = self.p.get(o)
        if not isinstance(o, list) or len(o) != 2 or o[0] != 'ICCBased': self.bad(('C10', 'C20'), 'iccspace', 'ICC colour space is %s' % short(o)); return
        self.iccstream(o[1], e.data, ('C10',))

    def metadata(self, a):
        st = self.p.get(a)
        d = self.g.props
        if not isinstance(st, P.Stream) or st.d.get('Type') != 'Metadata' or st.d.get('Subtype') != 'XML': self.bad('C21', 'xmp', 'Metadata is %s' % short(st)); return
        raw = self.p.data(st)
        if d.xml != '':
            if raw != d.xml.encode(): self.bad('C21', 'xmp', 'metadata differ from the XML given')
            return
        try: root = ET.fromstring(raw)
        except ET.ParseError as e: self.bad('C21', 'xmpform', 'XMP is not well-formed: %s' % e); return
        ns = {'rdf': 'http://www.w3.org/1999/02/22-rdf-syntax-ns#', 'dc': 'http://purl.org/dc/elements/1.1/', 'pdf': 'http://ns.adobe.com/pdf/1.3/',
              'xmp': 'http://ns.adobe.com/xap/1.0/', 'pdfaid': 'http://www.aiim.org/pdfa/ns/id/'}
        li = '{%s}li' % ns['rdf']

        def get(pref, name):
            """value of a property: element or attribute form"""
            q = '{%s}%s' % (ns[pref], name)
            out = []
            for el in root.iter():
                if el.tag == q:
                    lis = list(el.iter(li))
                    out.append((lis[0].text if lis else el.text) or '')
                for k, v in el.attrib.items():
                    if k == q: out.append(v)
            return out
        chk = lambda s: ''.join(c if ok_xml(c) else '\ufffd' for c in s)
        for (pre, nm), exp, own in ((('dc', 'title'), d.title, 'C21'), (('dc', 'creator'), d.author, 'C21'), (('xmp', 'CreatorTool'), d.creator, 'C21')):
            v = get(pre, nm)
            ex = [exp] if exp != '' else []
            if (v == [''] and not ex): continue
            # characters XML cannot carry have no prescribed replacement
            if any(not ok_xml(c) for c in exp): continue
            if [x.replace('\r\n', '\n').replace('\r', '\n') for x in v] != [x.replace('\r\n', '\n').replace('\r', '\n') for x in ex]:
                if not (pre == 'xmp' and not ex):
                    self.bad((own, 'C06'), 'xmp:' + nm, 'XMP %s:%s is %s instead of %s' % (pre, nm, short(v), short(ex)))
        v = get('pdf', 'Producer')
        if not (len(v) == 1 and v[0].startswith('CapyPDF ')): self.bad('C21', 'xmp:Producer', 'XMP producer is %s' % short(v))
        s = d.subtype
        if s and s[0] == 'A':
            part, conf = M.PDFA[s[1]]
            if get('pdfaid', 'part') != [part]: self.bad('C22', 'pdfaid', 'pdfaid:part is %s instead of %s' % (get('pdfaid', 'part'), part))
            if get('pdfaid', 'conformance') != [conf]: self.bad('C22', 'pdfaid', 'pdfaid:conformance is %s instead of %s' % (get('pdfaid', 'conformance'), conf))
            if part == '4' and get('pdfaid', 'rev') != ['2020']: self.bad('C22', 'pdfaid', 'pdfaid:rev is %s' % get('pdfaid', 'rev'))
            self.count('pdfaid')

    # ------------------------------------------------------------------ pages
    def transition(self, v):
        e = {'Type': Opt(Name('Trans')), 'S': Opt(Name('R'))}
        e.update(v)
        return e

    def boxes(self, e):
        d = self.g.props
        base = dict(d.page.boxes) if d.page is not None else {0: [0, 0, 595.28, 841.89]}
        if e.custom is not None: base.update(e.custom.boxes)
        return {M.BOXES[k]: v for k, v in base.items()}

    def group(self, t):
        x = {'Type': Opt(Name('Group')), 'S': Name('Transparency')}
        if t.cs is not None: x['CS'] = Name(M.DEVCS[t.cs])
        if t.I is not None: x['I'] = bool(t.I) if t.I else Opt(False)
        if t.K is not None: x['K'] = bool(t.K) if t.K else Opt(False)
        return x

    def page(self, e, o):
        g, d = self.g, self.g.props
        if not isinstance(o, dict): return
        exp = {'Type': Name('Page'), 'Parent': ANY, 'LastModified': Opt(ANY), 'Resources': ANY, 'Contents': ANY, 'UserUnit': Opt(1)}
        exp.update(self.boxes(e))
        grp = e.group
        if grp is None and d.page is not None and d.page.group is not None: grp = d.page.group
        if grp is not None: exp['Group'] = self.group(grp)
        if e.structs: exp['StructParents'] = ANY
        else: exp['StructParents'] = Opt(ANY)
        if e.annots: exp['Annots'] = Call(lambda c, a: c.val(Set(e.annots), c.p.get(a), ('C19',), 'Annots') and None)
        if e.trans is not None: exp['Trans'] = self.transition(e.trans)
        if e.vps:
            exp['VP'] = [self.viewport(v) for v in e.vps]
        if e.nav is not None: exp['PresSteps'] = Call(lambda c, a: c.nav(e, a))
        self.val(exp, o, ('C02',), 'Page')
        self.content(e, self.p.get(o.get('Contents')), o.get('Resources'), 'Page')
        self.count('page')

    def viewport(self, v):
        x = {'Type': Opt(Name('Viewport')), 'BBox': v.rect}
        if v.measure is not None:
            m = {'Type': Opt(Name('Measure')), 'Subtype': Opt(Name('RL')), 'R': ANY}
            for k in 'XYDA':
                l = getattr(v.measure, k)
                a = [{'Type': Opt(Name('NumberFormat')), 'U': T(u), 'C': c} for u, c in l]
                if l: m[k] = a
                else: m[k] = Opt([])
            x['Measure'] = m
        return x

    def nav(self, e, a):
        es, tr = e.nav
        state = lambda op, x: {'S': Name('SetOCGState'), 'State': [Name(op)] + list(x), 'Type': Opt(Name('Action'))}
        seq = []
        # root, one node per group, final node (order of traversal by Next)
        ref = a
        nodes = []
        seen = set()
        while isinstance(ref, P.Ref) and int(ref) not in seen:
            seen.add(int(ref)); n = self.p.get(ref)
            if not isinstance(n, dict): return ['navigation node is %s' % short(n)]
            nodes.append((ref, n)); ref = n.get('Next')
        own = ('C02',)
        if len(nodes) != len(es) + 2: return ['%d navigation nodes for %d steps' % (len(nodes), len(es))]
        t = None
        if tr is not None:
            t = dict(self.transition(tr)); t['S'] = Name('Trans')
        for i, (r, n) in enumerate(nodes):
            x = {'Type': Opt(Name('NavNode'))}
            if i == 0:
                x['NA'] = state('OFF', es); x['PA'] = state('ON', es); x['Prev'] = Call(lambda c, q: None if q == nodes[-1][0] else ['Prev of the root'])
            else:
                x['Prev'] = Call(lambda c, q, i=i: None if q == nodes[i - 1][0] else ['Prev of node %d is %s' % (i, q)])
                if i == 1: x['Prev'] = Opt(x['Prev'])
                if i <= len(es):
                    x['NA'] = dict(state('ON', [es[i - 1]]))
                    if tr is not None: x['NA']['Next'] = {'S': Name('Trans'), 'Type': Opt(Name('Action')), 'Trans': Opt(self.transition(tr)), **({k: Opt(v) for k, v in tr.items()} if True else {})}
                if i > 1: x['PA'] = state('OFF', [es[i - 2]])
            if i + 1 < len(nodes): x['Next'] = ANY
            if i > 0 and i <= len(es) and tr is not None:
                na = self.p.get(n.get('NA')); nx = self.p.get(na.get('Next')) if isinstance(na, dict) else None
                x['NA']['Next'] = Call(lambda c, q: c.navtrans(tr, q))
            self.val(x, n, own, 'NavNode')
        self.count('navnode', len(nodes))

    def navtrans(self, tr, q):
        q = self.p.get(q)
        if not isinstance(q, dict) or q.get('S') != 'Trans': return ['transition action is %s' % short(q)]
        # either a /Trans dictionary (as the format defines) or the parameters inline
        t = self.p.get(q['Trans']) if 'Trans' in q else {k: v for k, v in q.items() if k not in ('S', 'Type')}
        return None if self.val(self.transition({k: v for k, v in tr.items() if not (k == 'S' and 'Trans' not in q)}), t, ('C02',), 'NavTrans') else None

    # ------------------------------------------------------------------ content
    def xform(self, e, o, extra, own):
        if not isinstance(o, P.Stream): self.bad(own, e.kind, '%r is %s' % (e, short(o))); return
        d = {k: v for k, v in o.d.items() if k not in ('Length', 'Filter')}
        exp = {'BBox': e.rect, 'Resources': ANY}
        exp.update(extra)
        if e.matrix is not None: exp['Matrix'] = e.matrix
        else: exp['Matrix'] = Opt([1, 0, 0, 1, 0, 0])
        self.val(exp, d, own, e.kind)
        self.content(e, o, o.d.get('Resources'), e.kind)

    def ent_form(self, e, o): self.xform(e, o, {'Type': Opt(Name('XObject')), 'Subtype': Name('Form'), 'FormType': Opt(1)}, ('C20', 'C03'))

    def ent_trgroup(self, e, o):
        x = {'Type': Opt(Name('XObject')), 'Subtype': Name('Form'), 'FormType': Opt(1)}
        if e.group is not None: x['Group'] = self.group(e.group)
        else: x['Group'] = {'S': Name('Transparency'), 'Type': Opt(Name('Group'))}
        self.xform(e, o, x, ('C20', 'C03'))

    def ent_tiling(self, e, o):
        self.xform(e, o, {'Type': Opt(Name('Pattern')), 'PatternType': 1, 'PaintType': 1, 'TilingType': ANY,
                          'XStep': e.rect[2] - e.rect[0], 'YStep': e.rect[3] - e.rect[1]}, ('C20',))

    def norm(self, ops):
        return [o for o in ops if not (o[0] == 'TJ' and len(o[1]) == 1 and (o[1][0] == [] or (isinstance(o[1][0], tuple) and o[1][0][2] == [])))]

    def content(self, e, st, res, kind):
        if not isinstance(st, P.Stream): self.bad('C03', 'content', '%s has content %s' % (kind, short(st))); return
        try:
            data = self.p.data(st)
            act = P.content_ops(data)
        except P.Bad as x:
            self.bad(('C03', 'C01'), 'content:' + x.code, 'content of %s: %s' % (kind, x)); return
        res = self.p.get(res)
        if not isinstance(res, dict): self.bad(('C04', 'C01'), 'resources', 'Resources of %s is %s' % (kind, short(res))); res = {}
        self.balance(act, kind)
        self.resources(act, res, kind)
        exp = self.norm(e.ops)
        act = self.norm(act)
        self.count('ops', len(exp))
        for i in range(max(len(exp), len(act))):
            x = exp[i] if i < len(exp) else None
            a = act[i] if i < len(act) else None
            if x is None or a is None or x[0] != a[0]:
                names = {n[0] for n in (x, a) if n}
                pr = ['C03']
                if names & {'q', 'Q', 'BT', 'ET', 'BMC', 'BDC', 'EMC'}: pr.append('C05')
                if names & {'Tj', 'TJ'}: pr.append('C12')
                if any(n and n[0] == 'BDC' and any(isinstance(q, dict) and 'MCID' in q for q in n[1]) for n in (x, a)): pr.append('C18')
                if any(n and n[0] == 'BDC' and any(isinstance(q, dict) and 'ActualText' in q for q in n[1]) for n in (x, a)): pr.append('C12')
                self.bad(tuple(pr), 'op:%s/%s' % (x and x[0], a and a[0]), 'content of %s: operation %d is %s instead of %s' % (kind, i, short(a), short(x)))
                return
            if len(x[1]) != len(a[1]):
                self.bad('C03', 'args:' + x[0], 'content of %s: operation %d is %s instead of %s' % (kind, i, short(a), short(x))); return
            for j, (ex, ac) in enumerate(zip(x[1], a[1])):
                if not self.operand(x[0], ex, ac, res, '%s operation %d (%s)' % (kind, i, x[0])): return

    def operand(self, op, ex, ac, res, path):
        n = len(self.out)
        if isinstance(ex, R):
            d = self.p.get(res.get(ex.cat))
            if not isinstance(ac, P.Name): self.bad(('C03', 'C04'), 'res', '%s: operand is %s' % (path, short(ac))); return False
            if not isinstance(d, dict) or str(ac) not in d:
                self.bad(('C04',), 'res:' + ex.cat, '%s: /%s is not a %s resource' % (path, ac, ex.cat)); return False
            v = d[str(ac)]
            if not isinstance(v, P.Ref): v = self.inline_res(ex, v, path)
            else: self.entity(ex.ent, v, ('C04',), '%s /%s' % (path, ac))
            self.count('resuse')
        elif isinstance(ex, tuple) and ex and ex[0] in 'GA': self.glyphs(ex, ac, path)
        elif isinstance(ex, dict):
            own = ['C03']
            if 'MCID' in ex: own.append('C18')
            if 'ActualText' in ex: own.append('C12')
            self.val(ex, ac, tuple(own), path)
        else: self.val(ex, ac, ('C03',), path)
        return len(self.out) == n

    def inline_res(self, ex, v, path):
        """a resource given directly instead of by reference"""
        getattr(self, 'ent_' + ex.ent.kind)(ex.ent, v)

    def balance(self, ops, kind):
        st = []
        for n, _ in ops:
            if n in ('q', 'BT', 'BDC', 'BMC'): st.append({'q': 'Q', 'BT': 'ET'}.get(n, 'EMC'))
            elif n in ('Q', 'ET', 'EMC'):
                if not st or st[-1] != n: self.bad('C05', 'nesting', 'content of %s: %s while %s is open' % (kind, n, st[-1:] or 'nothing')); return
                st.pop()
        if st: self.bad('C05', 'nesting', 'content of %s ends with %s open' % (kind, st))

    RES = {'Font': lambda o: isinstance(o, dict) and o.get('Type') == 'Font', 'XObject': lambda o: isinstance(o, P.Stream) and o.d.get('Subtype') in ('Image', 'Form'),
           'ExtGState': lambda o: isinstance(o, dict), 'Shading': lambda o: isinstance(getattr(o, 'd', o), dict) and 'ShadingType' in getattr(o, 'd', o),
           'Pattern': lambda o: isinstance(getattr(o, 'd', o), dict) and 'PatternType' in getattr(o, 'd', o), 'ColorSpace': lambda o: isinstance(o, (list, P.Name)),
           'Properties': lambda o: isinstance(o, dict), 'ProcSet': None}
    USE = {'Tf': 'Font', 'Do': 'XObject', 'gs': 'ExtGState', 'sh': 'Shading'}

    def resources(self, ops, res, kind):
        for cat, d in res.items():
            if cat not in self.RES: self.bad(('C04', 'C01'), 'rescat', 'unknown resource category %s' % cat); continue
            if self.RES[cat] is None: continue
            d = self.p.get(d)
            if not isinstance(d, dict): self.bad('C04', 'rescat', '%s resources are %s' % (cat, short(d))); continue
            for k, v in d.items():
                o = self.p.get(v)
                if not self.RES[cat](o): self.bad('C04', 'restype:' + cat, '%s resource %s of %s is %s' % (cat, k, kind, short(o)))
                self.count('resentry')
        cs = {False: None, True: None}
        for n, a in ops:
            cat = self.USE.get(n)
            nm = a[0] if a else None
            if n in ('cs', 'CS'):
                cs[n == 'CS'] = nm
                if str(nm) in ('DeviceRGB', 'DeviceGray', 'DeviceCMYK', 'Pattern'): continue
                cat = 'ColorSpace'
            elif n in ('scn', 'SCN') and a and isinstance(a[-1], P.Name): cat, nm = 'Pattern', a[-1]
            elif n in ('BDC', 'DP') and len(a) > 1 and isinstance(a[1], P.Name): cat, nm = 'Properties', a[1]
            if cat:
                d = self.p.get(res.get(cat))
                if not isinstance(d, dict) or str(nm) not in d: self.bad('C04', 'undef:' + cat, 'content of %s uses undefined %s resource %s' % (kind, cat, nm))

    # ------------------------------------------------------------------ text
    def glyphs(self, ex, ac, path):
        _, font, exp = ex
        b = font.face is None
        items = []
        if isinstance(ac, P.Str): ac = [ac]
        if not isinstance(ac, list): self.bad(('C12', 'C03'), 'glyphs', '%s: operand is %s' % (path, short(ac))); return
        width = 2
        for x in ac:
            if isinstance(x, P.Str):
                if len(x) % width: self.bad(('C12',), 'glyphs', '%s: string of %d bytes' % (path, len(x))); return
                items += [('c', int.from_bytes(x[i:i + width], 'big')) for i in range(0, len(x), width)]
            elif isinstance(x, (int, float)): items.append(('k', x))
            else: self.bad(('C12', 'C03'), 'glyphs', '%s: element %s' % (path, short(x))); return
        e2 = [('g', x) if isinstance(x, Gl) else ('k', x) for x in exp]
        if len(e2) != len(items) or any((a[0] == 'k') != (b[0] == 'k') for a, b in zip(e2, items)):
            self.bad(('C12', 'C03'), 'glyphs', '%s: shows %s instead of %s' % (path, short(items), short(e2))); return
        for a, b in zip(e2, items):
            if a[0] == 'k':
                if not numeq(a[1], b[1]): self.bad(('C12', 'C03'), 'kern', '%s: adjustment %r instead of %r' % (path, b[1], a[1])); return
            else:
                self.fontuse.setdefault(font, {}).setdefault(b[1], set()).add((a[1].gid, a[1].text))
        self.count('glyphs', len(items))

    def ent_font(self, e, o): self.fontobj = None

    def check_fonts(self):
        import fontcmp
        for ent, use in self.fontuse.items():
            if ent in self.map: fontcmp.check(self, ent, self.p.objs.get(self.map[ent]), use)

    # ------------------------------------------------------------------ objects
    def ent_ocg(self, e, o): self.val({'Type': Name('OCG'), 'Name': T(e.name), 'Intent': Opt(ANY)}, o, ('C21',), 'OCG')
    def ent_page(self, e, o): pass
    def ent_outline(self, e, o): pass

    def ent_lab(self, e, o):
        xw, yw, zw, a1, a2, b1, b2 = e.v
        self.val([Name('Lab'), {'WhitePoint': [xw, yw, zw], 'Range': [a1, a2, b1, b2]}], o, ('C20',), 'Lab')

    def ent_sep(self, e, o):
        self.val([Name('Separation'), Name(e.name), Name(M.DEVCS[e.cs]), e.f], o, ('C20',), 'Separation', )

    def ent_function(self, e, o):
        f = e.f
        if f.type == 2:
            c = lambda c: [float(x) for x in c[1:]]
            self.val({'FunctionType': 2, 'N': f.n, 'Domain': list(f.domain), 'C0': c(f.c1), 'C1': c(f.c2)}, o, ('C20',), 'Function')
        elif f.type == 3:
            self.val({'FunctionType': 3, 'Domain': list(f.domain), 'Functions': list(e.fs), 'Bounds': list(f.bounds), 'Encode': list(f.encode)}, o, ('C20',), 'Function')
        else:
            self.val({'FunctionType': 4, 'Domain': list(f.domain), 'Range': list(f.range)}, o, ('C20',), 'Function')
            if isinstance(o, P.Stream):
                if self.p.data(o) != f.code.encode('latin-1'): self.bad('C20', 'type4code', 'function code is %s instead of %s' % (short(self.p.data(o)), short(f.code)))
            else: self.bad('C20', 'type4', 'type 4 function is no stream')
        self.count('function')

    def ent_shading(self, e, o):
        s = e.s
        exp = {'ShadingType': s.type, 'ColorSpace': Name(M.DEVCS[s.cs])}
        if s.type in (2, 3):
            exp.update(Coords=list(s.coords), Function=e.f)
            if s.ext is not None: exp['Extend'] = s.ext
            if s.domain is not None: exp['Domain'] = s.domain
            self.val(exp, o, ('C20',), 'Shading')
        else:
            n = M.NCOMP[s.cs]
            exp.update(BitsPerCoordinate=ANY, BitsPerComponent=ANY, BitsPerFlag=ANY, Decode=Call(lambda c, a: None if isinstance(a, list) and len(a) == 4 + 2 * n else ['is %s' % short(a)]))
            if self.val(exp, o, ('C20',), 'Shading') and isinstance(o, P.Stream): self.mesh(s, o, n)
            elif not isinstance(o, P.Stream): self.bad('C20', 'mesh', 'mesh shading is no stream')
        self.count('shading')

    def mesh(self, s, o, n):
        bc, bk, bf, dec = o.d['BitsPerCoordinate'], o.d['BitsPerComponent'], o.d['BitsPerFlag'], o.d['Decode']
        if bf % 8 or bc % 8 or bk % 8: self.bad('C20', 'mesh', 'odd bit sizes'); return
        data = self.p.data(o)
        pos = 0

        def num(bits, lo, hi):
            nonlocal pos
            k = bits // 8
            v = int.from_bytes(data[pos:pos + k], 'big'); pos += k
            return lo + v * (hi - lo) / (2 ** bits - 1)
        qx = abs(dec[1] - dec[0]) / (2 ** bc - 1) * 2 + 1e-5
        qy = abs(dec[3] - dec[2]) / (2 ** bc - 1) * 2 + 1e-5
        qc = 2.0 / (2 ** bk - 1) + 1e-6
        cl = lambda v, a, b: min(max(v, min(a, b)), max(a, b))
        size = 0
        for flag, co, cols in s.els:
            size += (bf + len(co) * bc + len(cols) * n * bk) // 8
        if size != len(data): self.bad('C20', 'meshsize', 'mesh data have %d bytes instead of %d' % (len(data), size)); return
        for i, (flag, co, cols) in enumerate(s.els):
            f = int.from_bytes(data[pos:pos + bf // 8], 'big'); pos += bf // 8
            if f != flag: self.bad('C20', 'meshflag', 'element %d has flag %d instead of %d' % (i, f, flag)); return
            for j in range(0, len(co), 2):
                x = num(bc, dec[0], dec[1]); y = num(bc, dec[2], dec[3])
                ex, ey = cl(co[j], s.box[0], s.box[2]), cl(co[j + 1], s.box[1], s.box[3])
                if abs(x - ex) > qx + 1e-9 * abs(ex) or abs(y - ey) > qy + 1e-9 * abs(ey):
                    self.bad('C20', 'meshcoord', 'element %d point %d decodes to (%r, %r) instead of (%r, %r)' % (i, j // 2, x, y, ex, ey)); return
            for c in cols:
                for k in range(n):
                    v = num(bk, dec[4 + 2 * k], dec[5 + 2 * k])
                    if abs(v - c[1 + k]) > qc: self.bad('C20', 'meshcolor', 'element %d colour decodes to %r instead of %r' % (i, v, c[1 + k])); return
        self.count('mesh_el', len(s.els))

    def ent_shpattern(self, e, o):
        exp = {'Type': Opt(Name('Pattern')), 'PatternType': 2, 'Shading': e.sh}
        if e.matrix is not None: exp['Matrix'] = e.matrix
        self.val(exp, o, ('C20',), 'ShadingPattern')

    def ent_softmask(self, e, o):
        self.val({'Type': Opt(Name('Mask')), 'S': Name(['Alpha', 'Luminosity'][e.st]), 'G': e.tr}, o, ('C20',), 'SoftMask')

    def ent_gstate(self, e, o):
        exp = {'Type': Opt(Name('ExtGState'))}
        for k, v in e.v.items():
            if k == 'HT':
                if v is None: exp['HT'] = Opt(ANY)
                elif v[0] == 'Default': exp['HT'] = Name('Default')
                else: exp['HT'] = {'Type': Opt(Name('Halftone')), 'HalftoneType': 1, 'Frequency': v[1], 'Angle': v[2], 'SpotFunction': Name(M.SPOT[v[3]])}
            elif k == 'SMask': exp[k] = v
            else: exp[k] = v
        self.val(exp, o, ('C20',), 'ExtGState')
        self.count('gstate')

    def ent_image(self, e, o):
        im = e.img
        if im == '?' or im is None:
            self.imgobj = o; return
        if not isinstance(o, P.Stream): self.bad('C08', 'image', 'image is %s' % short(o)); return
        self.image(im, o, e.mask, e.interp, ('C08',) if im.get('own') is None else im['own'])

    def image(self, im, o, mask, interp, own):
        d = o.d
        if im.get('anyspace'): self.count('anyspace'); return
        free = im['src'] in ('file', 'conv')        # how samples of files are stored is not prescribed
        exp = {'Type': Name('XObject'), 'Subtype': Name('Image'), 'Width': im['w'], 'Height': im['h'], 'BitsPerComponent': ANY if free else im['depth']}
        if mask: exp['ImageMask'] = True
        elif im.get('icc') is not None:
            exp['ColorSpace'] = Call(lambda c, a: c.ent_icc(Ent('icc', c.g, data=im['icc'], n=None), a))
        else: exp['ColorSpace'] = Name(M.DEVCS[im['cs']])
        if interp == 1: exp['Interpolate'] = False
        elif interp == 2: exp['Interpolate'] = True
        if im['src'] == 'jpeg' and im['cs'] == 2: exp['Decode'] = [1, 0] * 4
        if im['alpha'] and not mask:
            ax = Call(lambda c, r: c.smask(im, r, interp, own))
            exp['SMask'] = Opt(ax) if im.get('optalpha') else ax
        if mask: exp['Decode'] = Opt(ANY)
        self.val(exp, o, own, 'Image')
        if im['src'] == 'jpeg':
            if d.get('Filter') != 'DCTDecode': self.bad(own, 'jpegfilter', 'JPEG image has filter %s' % short(d.get('Filter')))
            if o.raw != im['pixels']: self.bad(own, 'jpegdata', 'JPEG data differ from the file')
        elif free:
            got = self.p.data(o)
            msg = self.samples(im, got, d.get('BitsPerComponent'))
            if msg and im.get('known') and got == im['known']: self.bad(own, 'png-mono-shift', 'pixels of a black and white palette PNG are shifted')
            elif msg: self.bad(own, 'pixels', '%s: %s' % (im.get('tag', im['src']), msg))
        else:
            px = im['pixels']
            if im.get('comp', 0) == 1:
                try: px = zlib.decompress(px)
                except zlib.error: return
            got = self.p.data(o)
            if got != px:
                i = next((i for i in range(min(len(got), len(px))) if got[i] != px[i]), min(len(got), len(px)))
                self.bad(own, 'pixels', 'image data (%d bytes) differ from the samples (%d bytes) at %d' % (len(got), len(px), i))
        self.count('image')
        if free or im['src'] == 'jpeg': self.count('image_' + (im['src'] if im['src'] != 'file' else im['tag'].split('/')[0]))

    def samples(self, im, got, bpc):
        import imggen
        if bpc not in (1, 2, 4, 8, 16): return 'BitsPerComponent is %r' % (bpc,)
        w, h, n = im['w'], im['h'], M.NCOMP[im['cs']]
        a = imggen.unpack(got, w, n, bpc, h)
        if a is None: return 'data have %d bytes, not what %dx%d with %d bits needs' % (len(got), w, h, bpc)
        hid = imggen.unpack(im['alpha'], w, 1, im['adepth'], h) if im.get('anyhidden') and im['alpha'] else None
        fa, fe = (1 << im['depth']) - 1, (1 << bpc) - 1
        for ref in (im['pixels'], im.get('alt')):
            if ref is None: continue
            e = imggen.unpack(ref, w, n, im['depth'], h)
            tol = fe if im['src'] == 'conv' else 0
            bad = [i for i in range(len(a)) if abs(a[i] * fa - e[i] * fe) > tol and not (hid and hid[i // n] == 0)]
            if not bad: return None
            m = 'sample %d is %d/%d instead of %d/%d (%d of %d differ)' % (bad[0], a[bad[0]], fe, e[bad[0]], fa, len(bad), len(a))
        return m

    def smask(self, im, r, interp, own):
        import imggen
        o = self.p.get(r)
        if not isinstance(o, P.Stream): return ['is %s' % short(o)]
        free = im['src'] in ('file', 'conv') and im.get('file')
        exp = {'Type': Name('XObject'), 'Subtype': Name('Image'), 'Width': im['w'], 'Height': im['h'], 'BitsPerComponent': ANY if free else im['adepth'], 'ColorSpace': Name('DeviceGray'), 'Interpolate': Opt(ANY)}
        self.val(exp, o, own, 'SMask')
        a = im['alpha']
        if im.get('comp', 0) == 1:
            try: a = zlib.decompress(a)
            except zlib.error: return
        got = self.p.data(o)
        if free:
            b = o.d.get('BitsPerComponent')
            x = imggen.unpack(got, im['w'], 1, b, im['h']) if b in (1, 2, 4, 8, 16) else None
            y = imggen.unpack(a, im['w'], 1, im['adepth'], im['h'])
            if x is None or any(p * ((1 << im['adepth']) - 1) != q * ((1 << b) - 1) for p, q in zip(x, y)): return ['alpha of %s differs from the file' % im['tag']]
        elif got != a: return ['alpha data differ from the samples']
        self.count('smask')

    # -- annotations, fields
    def ent_annot(self, e, o):
        a = e.a
        st = {'FileAttachment': 'FileAttachment', '3D': '3D'}.get(a.st, a.st)
        exp = {'Type': Opt(Name('Annot')), 'Subtype': Name(st), 'Rect': a.rect}
        exp['F'] = a.flags if a.flags else Opt(0)
        pg = next((p for p in self.g.pages if e in p.annots), None)
        if pg is not None: exp['P'] = Opt(pg)
        if a.st in ('Text', 'Line'): exp['Contents'] = T(a.text)
        if a.st == 'Line':
            exp['L'] = a.L
            if a.LL is not None: exp['LL'], exp['LLE'] = a.LL
            if a.LE is not None: exp['LE'] = a.LE
        if a.st == 'FileAttachment': exp['FS'] = a.file
        if a.st == 'Link':
            if a.uri is not None: exp['A'] = {'Type': Opt(Name('Action')), 'S': Name('URI'), 'URI': T(a.uri)}
            elif a.dest is not None: exp['Dest'] = self.dest(a.dest)
        if a.st == 'PrinterMark': exp['AP'] = {'N': a.form}
        if a.st == '3D':
            exp['3DD'] = a.d3
            exp['AP'] = Opt(ANY); exp['AS'] = Opt(ANY)
        if a.st == 'Widget':
            if a.parent is not None: exp['Parent'] = Call(lambda c, r: c.fieldref(a.parent, r))
            if a.btn is not None:
                on, off, nm = a.btn
                x = {nm: on, 'Off': off}
                exp['AP'] = {'N': x}
                exp['AS'] = Name('Off')
                if a.parent is None: exp['AP'] = Opt(exp['AP']); exp['AS'] = Opt(exp['AS'])
        self.val(exp, o, ('C19',), 'Annot')
        self.count('annot')

    def fieldref(self, f, r):
        if not isinstance(r, P.Ref): return ['is %s' % short(r)]
        self.entity(f, r, ('C19',), 'Parent')

    def ent_d3(self, e, o):
        if not isinstance(o, P.Stream): self.bad('C19', '3d', '3D stream is %s' % short(o)); return
        self.val({'Type': Opt(Name('3D')), 'Subtype': Name(['U3D', 'PRC'][e.fmt])}, o, ('C19',), '3DStream')
        if e.data is not None and self.p.data(o) != e.data: self.bad('C19', '3ddata', '3D stream data differ')

    def ent_field(self, e, o):
        f = e.f
        kids = [x for x in self.g.of('field') if x.f.parent is e] + [x for x in self.g.of('annot') if x.a.st == 'Widget' and x.a.parent is e]
        exp = {'FT': Opt(Name(['Btn', 'Tx', 'Ch', 'Sig'][f.ft])) if f.parent is not None else Name(['Btn', 'Tx', 'Ch', 'Sig'][f.ft])}
        if f.T != '': exp['T'] = T(f.T)
        else: exp['T'] = Opt(T(''))
        exp['Ff'] = f.Ff if f.Ff else Opt(0)
        if f.parent is not None: exp['Parent'] = Call(lambda c, r: c.fieldref(f.parent, r))
        if kids: exp['Kids'] = Set(kids)
        if f.V is not None:
            exp['V'] = T(f.V) if f.ft != 0 else Call(lambda c, a: None if (isinstance(a, P.Name) and str(a) == pdfname(f.V[1:] if f.V[:1] == '/' else f.V)) or (isinstance(a, P.Str) and P.text(a) == f.V) else ['is %s instead of %s' % (short(a), short(f.V))])
        exp['Opt'] = [T(x) for x in f.opt] if f.opt else Opt([])
        self.val(exp, o, ('C19',), 'Field')
        self.count('field')


def ok_xml(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xd7ff or 0xe000 <= o <= 0xfffd or o >= 0x10000


def check(model, gen, data, fonts=True):
    """returns (issues [(props, code, msg)], stats, Pdf)"""
    p = P.Pdf(data)
    out = [(('C01',) if c not in ('content',) else ('C01', 'C03'), 'syntax:' + c, m) for c, m in p.issues]
    c = Cmp(model, gen, p, fonts)
    if p.trailer:
        out += c.run()
    return out, c.stats, p
