"""An independent strict PDF parser (ISO 32000 syntax), used as the oracle's reader.

It never repairs anything: every deviation is recorded in .issues as (code, message)."""
import re, zlib


class Name(str):
    __slots__ = ()
    def __repr__(self): return '/' + str(self)


class Ref(int):
    __slots__ = ()
    def __repr__(self): return '%dR' % int(self)


class Kw(str):
    __slots__ = ()


class Str(bytes):
    """A string object.  .hex tells how it was written."""
    def __new__(cls, v, hex=False):
        o = bytes.__new__(cls, v); o.hex = hex
        return o


class Stream:
    def __init__(self, d, raw, num):
        self.d, self.raw, self.num = d, raw, num
        self._data = None

    def __repr__(self): return 'Stream(%r)' % (self.d,)


class Bad(Exception):
    def __init__(self, code, msg):
        self.code = code
        super().__init__('%s: %s' % (code, msg))


WS = b'\x00\t\n\x0c\r '
TOK = re.compile(rb'''[\x00\t\n\x0c\r ]*(?:%[^\r\n]*[\x00\t\n\x0c\r ]*)*(?:
   (?P<name>/[^\x00\t\n\x0c\r ()<>\[\]{}/%]*)
  |(?P<dopen><<)|(?P<dclose>>>)
  |(?P<hex><[^>]*>)
  |(?P<lit>\()
  |(?P<sep>[\[\]{}])
  |(?P<reg>[^\x00\t\n\x0c\r ()<>\[\]{}/%]+)
  |(?P<bad>[)>])
)''', re.X)
INT = re.compile(rb'[+-]?\d+\Z')
REAL = re.compile(rb'[+-]?(?:\d+\.\d*|\.\d+)\Z')
LITEND = re.compile(rb'[()\\]')
NAMEBAD = re.compile(rb'#(?![0-9A-Fa-f]{2})')
ESC = {0x6e: 10, 0x72: 13, 0x74: 9, 0x62: 8, 0x66: 12, 0x28: 0x28, 0x29: 0x29, 0x5c: 0x5c}


def parse_literal(buf, pos):
    """pos is just behind the opening parenthesis; returns (bytes, newpos)."""
    depth, start = 1, pos
    simple = True
    while True:
        m = LITEND.search(buf, pos)
        if not m: raise Bad('string', 'unterminated literal string')
        c = buf[m.start()]
        if c == 0x5c:
            pos = m.end() + 1; simple = False
        elif c == 0x28:
            depth += 1; pos = m.end()
        else:
            depth -= 1; pos = m.end()
            if depth == 0: break
    raw = buf[start:pos - 1]
    if simple and b'\r' not in raw:
        return raw, pos
    out = bytearray(); i = 0; n = len(raw)
    while i < n:
        c = raw[i]
        if c == 0x5c:
            i += 1
            if i >= n: raise Bad('string', 'dangling backslash')
            e = raw[i]
            if e in ESC: out.append(ESC[e]); i += 1
            elif 0x30 <= e <= 0x37:
                j = i; v = 0
                while j < n and j < i + 3 and 0x30 <= raw[j] <= 0x37:
                    v = v * 8 + raw[j] - 0x30; j += 1
                out.append(v & 255); i = j
            elif e == 13:
                i += 1
                if i < n and raw[i] == 10: i += 1
            elif e == 10: i += 1
            else:
                raise Bad('string', 'undefined escape \\%s' % chr(e))
        elif c == 13:       # end-of-line in a literal string reads as \n
            out.append(10); i += 1
            if i < n and raw[i] == 10: i += 1
        else:
            out.append(c); i += 1
    return bytes(out), pos


def parse_name(tok):
    if b'#' in tok:
        if NAMEBAD.search(tok): raise Bad('name', 'bad # escape in name %r' % tok)
        tok = re.sub(rb'#([0-9A-Fa-f]{2})', lambda m: bytes([int(m[1], 16)]), tok)
        if b'\0' in tok: raise Bad('name', 'NUL in name')
    return Name(tok[1:].decode('latin-1'))


class Lexer:
    def __init__(self, buf, pos=0, content=False):
        self.b, self.p, self.content = buf, pos, content

    def tok(self):
        """returns (kind, value) ; kind None at the end"""
        m = TOK.match(self.b, self.p)
        if not m:
            rest = self.b[self.p:]
            if re.match(rb'[\x00\t\n\x0c\r ]*(?:%[^\r\n]*[\x00\t\n\x0c\r ]*)*\Z', rest):
                self.p = len(self.b); return None, None
            if b'<' in rest[:50]: raise Bad('string', 'unterminated hex string')
            raise Bad('lex', 'cannot tokenise %r' % rest[:30])
        k = m.lastgroup; self.p = m.end()
        t = m.group(k)
        if k == 'reg':
            c = t[0]
            if c <= 0x39:
                if INT.match(t): return 'num', int(t)
                if REAL.match(t): return 'num', float(t)
                if not self.content or re.match(rb'[+-.\d]', t): raise Bad('token', 'bad token %r' % t[:40])
            return 'kw', t
        if k == 'name':
            return 'name', parse_name(t)
        if k == 'lit':
            v, self.p = parse_literal(self.b, self.p)
            return 'str', Str(v)
        if k == 'hex':
            h = t[1:-1].translate(None, WS)
            if not re.match(rb'[0-9A-Fa-f]*\Z', h): raise Bad('string', 'bad hex string %r' % t[:40])
            if len(h) % 2: h += b'0'
            return 'str', Str(bytes.fromhex(h.decode()), True)
        if k == 'bad':
            raise Bad('token', 'stray %r' % t)
        return k, t

    def obj(self):
        k, v = self.tok()
        return self.obj_from(k, v)

    def obj_from(self, k, v):
        if k == 'num':
            if not self.content and isinstance(v, int) and v >= 0:
                m = REFTAIL.match(self.b, self.p)
                if m:
                    self.p = m.end()
                    if m[1] != b'0': raise Bad('ref', 'generation %r' % m[1])
                    return Ref(v)
            return v
        if k == 'name' or k == 'str': return v
        if k == 'dopen':
            d = {}
            while True:
                k, v = self.tok()
                if k == 'dclose': return d
                if k != 'name': raise Bad('dict', 'dictionary key is not a name: %r' % (v,))
                k2, v2 = self.tok()
                if k2 == 'dclose': raise Bad('dict', 'key /%s without value' % v)
                val = self.obj_from(k2, v2)
                if v in d: raise Bad('dupkey', 'duplicate key /%s' % v)
                d[str(v)] = val
        if k == 'sep' and v == b'[':
            a = []
            while True:
                k, v = self.tok()
                if k == 'sep' and v == b']': return a
                if k is None: raise Bad('array', 'unterminated array')
                a.append(self.obj_from(k, v))
        if k == 'kw':
            if v == b'true': return True
            if v == b'false': return False
            if v == b'null': return None
            raise Bad('token', 'unexpected token %r' % v[:60])
        if k is None: raise Bad('eof', 'unexpected end of data')
        raise Bad('token', 'unexpected %r' % (v,))


REFTAIL = re.compile(rb'[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+R(?![^\x00\t\n\x0c\r ()<>\[\]{}/%])')
OBJHDR = re.compile(rb'(\d+) (\d+) obj[\x00\t\n\x0c\r ]')


def decode_filters(st, pdf):
    f = st.d.get('Filter')
    data = st.raw
    if f is None: fl = []
    elif isinstance(f, list): fl = f
    else: fl = [f]
    parms = st.d.get('DecodeParms')
    for x in fl:
        if x == 'FlateDecode':
            d = zlib.decompressobj()
            try:
                data = d.decompress(data) + d.flush()
            except zlib.error as e:
                raise Bad('filter', 'flate data of object %s: %s' % (st.num, e))
            if not d.eof: raise Bad('filter', 'truncated flate data in object %s' % st.num)
            if d.unused_data: raise Bad('filter', 'trailing bytes after flate data in object %s' % st.num)
        elif x == 'DCTDecode':
            return data
        else:
            raise Bad('filter', 'unknown filter %r' % x)
    return data


class Pdf:
    def __init__(self, data):
        self.b = data
        self.issues = []
        self.objs = {}
        self.where = {}
        self.trailer = {}
        self.version = None
        self._dec = {}
        try:
            self._parse()
        except Bad as e:
            self.issue(e.code, str(e))

    def issue(self, code, msg):
        self.issues.append((code, msg))

    def get(self, o):
        while isinstance(o, Ref):
            o = self.objs.get(int(o))
        return o

    def data(self, st):
        """decoded data; data that cannot be decoded are an issue of the file, and empty from then on"""
        if st._data is None:
            try: st._data = decode_filters(st, self)
            except Bad as x:
                self.issue(x.code, str(x))
                st._data = b''
        return st._data

    def _parse(self):
        b = self.b
        m = re.match(rb'%PDF-(\d\.\d)\n', b)
        if not m: raise Bad('header', 'no PDF header: %r' % b[:20])
        self.version = m[1].decode()
        m2 = re.compile(rb'%[\x80-\xff]{4,}\n').match(b, m.end())
        if not m2: self.issue('header', 'no binary marker comment')
        body_start = m2.end() if m2 else m.end()
        m = re.search(rb'startxref\r?\n(\d+)\r?\n%%EOF\r?\n?\Z', b)
        if not m: raise Bad('eof', 'file does not end with startxref/%%%%EOF: %r' % b[-40:])
        xoff = int(m[1])
        if xoff >= len(b): raise Bad('xref', 'startxref outside the file')
        regions = [(m.start(), len(b))]
        if b[xoff:xoff + 4] == b'xref':
            entries = self._classic(xoff, m.start(), regions)
        else:
            entries = self._xrefstream(xoff, regions)
        # objects
        offs = {}
        stms = {}
        for num, e in entries.items():
            if e[0] == 1:
                if e[1] in offs: self.issue('xref', 'objects %d and %d share offset %d' % (num, offs[e[1]], e[1]))
                offs[e[1]] = num
                if num in self.objs: continue     # the xref stream itself
                try:
                    o, end = self._indirect(e[1], num)
                    self.objs[num] = o; regions.append((e[1], end))
                except Bad as x:
                    self.issue(x.code, 'object %d: %s' % (num, x))
                    self.objs[num] = None
            elif e[0] == 2:
                stms.setdefault(e[1], {})[e[2]] = num
        for s, idx in stms.items():
            st = self.objs.get(s)
            if not isinstance(st, Stream) or st.d.get('Type') != 'ObjStm':
                self.issue('objstm', 'object %d is not an object stream' % s); continue
            try:
                self._objstm(st, idx)
            except Bad as x:
                self.issue(x.code, 'object stream %d: %s' % (s, x))
        # the file consists of nothing but its objects
        regions.sort()
        pos = body_start
        for a, e in regions:
            if a < pos: self.issue('layout', 'overlapping objects at offset %d' % a)
            elif b[pos:a].strip(WS): self.issue('layout', 'bytes outside any object at offset %d: %r' % (pos, b[pos:a][:40]))
            pos = max(pos, e)
        self._check_refs()

    def _classic(self, xoff, end, regions):
        b = self.b
        m = re.compile(rb'xref\r?\n(\d+) (\d+)\r?\n').match(b, xoff)
        if not m: raise Bad('xref', 'malformed xref header')
        first, n = int(m[1]), int(m[2])
        if first != 0: self.issue('xref', 'first subsection starts at %d' % first)
        pos = m.end()
        ents = {}
        for i in range(n):
            line = b[pos:pos + 20]; pos += 20
            mm = re.match(rb'(\d{10}) (\d{5}) ([nf])(?: \n| \r|\r\n)\Z', line)
            if not mm: raise Bad('xref', 'malformed xref entry %d: %r' % (i, line))
            if mm[3] == b'n':
                if mm[2] != b'00000': self.issue('xref', 'generation of object %d' % i)
                ents[first + i] = (1, int(mm[1]))
            elif i == 0 and (mm[2] != b'65535'):
                self.issue('xref', 'object 0 generation')
        if 0 in ents: self.issue('xref', 'object 0 is in use')
        m = re.compile(rb'[\x00\t\n\x0c\r ]*trailer[\x00\t\n\x0c\r ]').match(b, pos)
        if not m: raise Bad('trailer', 'no trailer keyword: %r' % b[pos:pos + 20])
        lx = Lexer(b, m.end())
        self.trailer = lx.obj()
        if not isinstance(self.trailer, dict): raise Bad('trailer', 'trailer is no dictionary')
        if b[lx.p:end].strip(WS): self.issue('trailer', 'garbage after trailer')
        regions.append((xoff, lx.p))
        if self.trailer.get('Size') != first + n: self.issue('trailer', 'Size %r but %d xref entries' % (self.trailer.get('Size'), n))
        self.classic = True
        return ents

    def _xrefstream(self, xoff, regions):
        m = OBJHDR.match(self.b, xoff)
        if not m: raise Bad('xref', 'startxref does not point at an xref section')
        num = int(m[1])
        st, end = self._indirect(xoff, num)
        if not isinstance(st, Stream) or st.d.get('Type') != 'XRef': raise Bad('xref', 'no XRef stream at startxref')
        regions.append((xoff, end))
        self.objs[num] = st
        d = st.d
        w = d.get('W'); size = d.get('Size')
        if not (isinstance(w, list) and len(w) == 3 and all(isinstance(x, int) and x >= 0 for x in w)): raise Bad('xref', 'bad W')
        if not isinstance(size, int): raise Bad('xref', 'bad Size')
        ix = d.get('Index', [0, size])
        raw = decode_filters(st, self)
        rl = sum(w)
        tot = sum(ix[1::2])
        if len(raw) != rl * tot: raise Bad('xref', 'xref stream has %d bytes for %d entries of %d' % (len(raw), tot, rl))
        ents = {}; p = 0
        for a, c in zip(ix[::2], ix[1::2]):
            for i in range(c):
                f = []
                for x in w:
                    f.append(int.from_bytes(raw[p:p + x], 'big')); p += x
                if w[0] == 0: f[0] = 1
                if f[0] == 1:
                    ents[a + i] = (1, f[1])
                    if f[2] != 0: self.issue('xref', 'generation of object %d is %d' % (a + i, f[2]))
                elif f[0] == 2: ents[a + i] = (2, f[1], f[2])
                elif f[0] != 0: self.issue('xref', 'unknown xref entry type %d' % f[0])
                if a + i >= size: self.issue('xref', 'object number %d >= Size' % (a + i))
        if 0 in ents: self.issue('xref', 'object 0 is in use')
        if num in ents and ents[num] != (1, xoff): self.issue('xref', 'xref stream entry does not point at itself: %r vs %d' % (ents[num], xoff))
        if num not in ents: self.issue('xref', 'xref stream does not list itself')
        self.trailer = {k: v for k, v in d.items()}
        self.classic = False
        return ents

    def _indirect(self, off, num):
        b = self.b
        m = OBJHDR.match(b, off)
        if not m or (off > 0 and b[off - 1] not in WS): raise Bad('xref', 'no object at offset %d: %r' % (off, b[off:off + 20]))
        if int(m[1]) != num or m[2] != b'0': raise Bad('xref', 'offset %d holds object %s' % (off, m[1]))
        lx = Lexer(b, m.end() - 1)
        o = lx.obj()
        m = re.compile(rb'[\x00\t\n\x0c\r ]*(endobj|stream)').match(b, lx.p)
        if not m: raise Bad('object', 'garbage after object %d: %r' % (num, b[lx.p:lx.p + 30]))
        if m[1] == b'stream':
            if not isinstance(o, dict): raise Bad('stream', 'stream without dictionary')
            p = m.end()
            if b[p:p + 2] == b'\r\n': p += 2
            elif b[p:p + 1] == b'\n': p += 1
            else: raise Bad('stream', 'no end of line after stream')
            ln = o.get('Length')
            if isinstance(ln, Ref): raise Bad('stream', 'indirect Length not expected')
            if not isinstance(ln, int) or ln < 0: raise Bad('stream', 'bad Length %r' % (ln,))
            m2 = re.compile(rb'(?:\r\n|\n|\r)?endstream[\x00\t\n\x0c\r ]+endobj[\x00\t\n\x0c\r ]').match(b, p + ln)
            if not m2:
                q = b.find(b'endstream', p)
                raise Bad('length', 'Length %d does not lead to endstream (next endstream after %d bytes)' % (ln, q - p))
            return Stream(o, b[p:p + ln], num), m2.end() - 1
        end = m.end()
        if b[end:end + 1] and b[end] not in WS: raise Bad('object', 'garbage after endobj')
        return o, end

    def _objstm(self, st, idx):
        raw = decode_filters(st, self)
        n, first = st.d.get('N'), st.d.get('First')
        if not isinstance(n, int) or not isinstance(first, int): raise Bad('objstm', 'N/First missing')
        hdr = raw[:first].split()
        if len(hdr) != 2 * n: raise Bad('objstm', 'header has %d numbers for N=%d' % (len(hdr), n))
        try: hdr = [int(x) for x in hdr]
        except ValueError: raise Bad('objstm', 'header is not numeric')
        nums, offs = hdr[::2], hdr[1::2]
        for i, num in enumerate(nums):
            if idx.get(i) != num: self.issue('objstm', 'index %d holds object %d but the xref says %r' % (i, num, idx.get(i)))
        for i in idx:
            if i >= n: self.issue('objstm', 'xref index %d beyond N=%d' % (i, n))
        for i, num in enumerate(nums):
            a = first + offs[i]
            e = first + offs[i + 1] if i + 1 < n else len(raw)
            if e < a or a > len(raw): raise Bad('objstm', 'offsets not ascending')
            try:
                lx = Lexer(raw[a:e], 0)
                o = lx.obj()
                if raw[a + lx.p:e].strip(WS): raise Bad('object', 'garbage after object: %r' % raw[a + lx.p:e][:40])
            except Bad as x:
                self.issue(x.code, 'object %d: %s' % (num, x)); o = None
            if idx.get(i) == num: self.objs[num] = o

    def _check_refs(self):
        missing = set()

        def walk(o):
            if isinstance(o, Ref):
                if int(o) not in self.objs: missing.add(int(o))
            elif isinstance(o, dict):
                for v in o.values(): walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
            elif isinstance(o, Stream): walk(o.d)
        for n, o in self.objs.items():
            before = len(missing)
            walk(o)
            if len(missing) > before: self.issue('ref', 'object %d refers to missing object(s) %s' % (n, sorted(missing)[:5]))
        walk(self.trailer)
        for k, t in (('Root', dict), ('Info', dict)):
            v = self.trailer.get(k)
            if k == 'Info' and v is None: continue   # optional; cmp.info knows when it is expected
            if not isinstance(v, Ref) or not isinstance(self.get(v), t): self.issue('trailer', '/%s missing or wrong' % k)
        i = self.trailer.get('ID')
        if not (isinstance(i, list) and len(i) == 2 and all(isinstance(x, Str) and len(x) >= 16 for x in i)):
            self.issue('trailer', 'bad ID')
        size = self.trailer.get('Size')
        if isinstance(size, int):
            if self.objs and size != max(self.objs) + 1:
                self.issue('trailer', 'Size %d, highest object %d' % (size, max(self.objs)))
        for n, o in self.objs.items():
            if isinstance(o, Stream):
                self.data(o)


def text(s):
    """Decodes a PDF text string."""
    if not isinstance(s, bytes): return None
    if s[:2] == b'\xfe\xff':
        return s[2:].decode('utf-16-be')      # raises for unpaired surrogates
    if s[:3] == b'\xef\xbb\xbf':
        return s[3:].decode('utf-8')
    # PDFDocEncoding
    out = []
    for c in s:
        if c in PDFDOC: out.append(PDFDOC[c])
        else: out.append(chr(c))
    return ''.join(out)


PDFDOC = {0x18: '\u02d8', 0x19: '\u02c7', 0x1a: '\u02c6', 0x1b: '\u02d9', 0x1c: '\u02dd', 0x1d: '\u02db', 0x1e: '\u02da', 0x1f: '\u02dc'}
for _i, _c in enumerate('\u2022\u2020\u2021\u2026\u2014\u2013\u0192\u2044\u2039\u203a\u2212\u2030\u201e\u201c\u201d\u2018\u2019\u201a\u2122\ufb01\ufb02\u0141\u0152\u0160\u0178\u017d\u0131\u0142\u0153\u0161\u017e'):
    PDFDOC[0x80 + _i] = _c
PDFDOC[0xa0] = '\u20ac'


def content_ops(data):
    """Parses a content stream into a list of (operator, [operands])."""
    lx = Lexer(data, 0, content=True)
    ops, args = [], []
    while True:
        k, v = lx.tok()
        if k is None:
            if args: raise Bad('content', 'operands without operator at the end: %r' % args)
            return ops
        if k == 'kw' and v not in (b'true', b'false', b'null'):
            ops.append((v.decode('latin-1'), args)); args = []
        else:
            args.append(lx.obj_from(k, v))
