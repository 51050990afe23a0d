"""Arbitrary bytes as fonts, images and profiles: coverage-guided fuzzing under the sanitizers, and mutated files whose documents are parsed."""
import os, sys, subprocess, tempfile, shutil, base64, random, re, glob, json, time
import build, execu, runner, case as casemod, fontgen, imggen, mutate, pdf as P, schema

V = build.VERIF
SHM = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
ENV = dict(ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=256:quarantine_size_mb=32:alloc_dealloc_mismatch=0:detect_odr_violation=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', CAPY_FUZZ_DIR=SHM, LC_ALL='C.UTF-8')
REALFONTS = sorted(glob.glob('/repo/testdata/fonts/*.[to]tf'))
PROFILES = sorted(glob.glob(V + '/data/*.icc') + glob.glob('/repo/testdata/icc/*.ic[cm]') + glob.glob('/usr/share/color/icc/**/*.ic[cm]', recursive=True))


def seedfile(r, kind):
    while True:
        if kind == 'font': d = fontgen.any_font(r)[0]
        elif kind == 'image': d = imggen.any_file(r, True)[0]
        else: d = open(r.choice(PROFILES), 'rb').read()
        if isinstance(d, str): d = d.encode('latin-1')
        if 8 < len(d) < (20000 if kind != 'icc' else 100000): return d


def mutant(r, kind, d): return {'font': mutate.font, 'image': mutate.image, 'icc': mutate.icc}[kind](r, d)


class FuzzPart(runner.Part):
    """sessions of libFuzzer; a case is a session or, once something was found, one input"""
    def __init__(self, kind, quick_s, thorough_s, weight=1.0):
        self.name = 'fuzz-' + kind
        self.kind, self.q, self.t, self.weight = kind, quick_s, thorough_s, weight
        self.quick = self.thorough = runner.NSHARD
        self.rule = ('libFuzzer with ASan and UBSan on %s files made by the generators, mutated with knowledge of the container; the loaded %s is used in a document that is written; '
                     'evaluations are executions; non-trivial and distinct: inputs with different bytes that the library accepted' % (kind, kind))

    def prepare(self):
        self.exe = os.path.join(build.build('asan', [('fuzzer', [V + '/fuzz/target.cpp'], '-fsanitize=fuzzer -rdynamic', '-lz')]), 'fuzzer')

    def gen(self, rng, i): return {'session': rng.getrandbits(31), 'seconds': self.q if self.tier == 'quick' else self.t}

    def go(self, args, cwd, stats=None, limit=100):
        env = dict(os.environ, **ENV); env.update(CAPY_FUZZ=self.kind, TMPDIR=SHM)
        for k in ('CAPY_DEBUG_PDF', 'SOURCE_DATE_EPOCH'): env.pop(k, None)
        if stats: env['CAPY_FUZZ_STATS'] = stats
        try:
            p = subprocess.run([self.exe] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
            return p.returncode, p.stderr.decode('latin-1')
        except subprocess.TimeoutExpired as e: return 'hang', (e.stderr or b'').decode('latin-1')

    def one(self, data, tmp):
        """judges one input: issue or None"""
        f = os.path.join(tmp, 'one'); open(f, 'wb').write(data)
        rc, err = self.go(['-timeout=60', '-rss_limit_mb=3500', '-close_fd_mask=3', f], tmp, limit=150)
        if rc == 0: return None
        return self.issue(rc, err)

    def issue(self, rc, err):
        m = re.search(r'ERROR: (?:AddressSanitizer|libFuzzer): ([\w-]+)|(runtime error: [^\n]{0,60})|(Assertion[^\n]*)', err)
        kind = (m[1] or m[2] or m[3]) if m else 'exit %s' % rc
        fr = [(a.split('(')[0].split('::')[-1], b.split('/')[-1], c) for a, b, c in re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\s:]+):(\d+)', err) if build.REPO + '/' in b]
        a = re.search(r'[^\n]*Assertion[^\n]*|terminate called[^\n]*', err)
        where = fr[0][0] if fr else '?'
        return (('*',), 'fuzz:%s:%s:%s' % (self.kind, re.sub(r'[^\w-]+', '_', kind)[:40], where), '%s in %s %s' % (kind, ' < '.join('%s %s:%s' % x for x in fr[:4]), a[0][:200] if a else ''))

    def run(self, case):
        tmp = tempfile.mkdtemp(prefix='capyfz', dir=SHM)
        try:
            if 'input' in case:
                i = self.one(base64.b64decode(case['input']), tmp)
                return runner.Out([i] if i else [], True)
            r = random.Random(case['session'])
            cd = os.path.join(tmp, 'corpus'); os.mkdir(cd)
            for k in range(60 if self.tier == 'quick' else 400):
                d = seedfile(r, self.kind)
                if k % 3 == 2: d = mutant(r, self.kind, d)
                open('%s/%04d' % (cd, k), 'wb').write(d + r.randbytes(8))
            st = os.path.join(tmp, 'stats')
            rc, err = self.go(['-seed=%d' % (case['session'] or 1), '-max_total_time=%d' % case['seconds'], '-timeout=25', '-max_len=120000', '-rss_limit_mb=3000', '-close_fd_mask=3',
                               '-reduce_inputs=0', '-artifact_prefix=%s/art-' % tmp, cd], tmp, st, case['seconds'] + 120)
            n = [0, 0, 0, 0]
            if os.path.exists(st): n = [int(x) for x in open(st).read().split()]
            cov = re.findall(r'cov: (\d+)', err)
            o = runner.Out([], False, {'executions': n[0], 'accepted': n[1], 'written': n[2], 'corpus': len(os.listdir(cd)), 'sessions': 1, 'edges_covered': int(cov[-1]) if cov else 0})
            o.n = max(1, n[0]); o.keys = ['%s%d-%d' % (self.name, case['session'], k) for k in range(n[3])]
            arts = glob.glob(tmp + '/art-*')
            if rc != 0 and arts:
                data = open(arts[0], 'rb').read()
                i = self.one(data, tmp)
                if i: o.issues.append(i); o.case = {'input': base64.b64encode(data).decode()}
                else: o.feats['_unreproduced_artifact'] = 1
            elif rc != 0: o.feats['_session_failed_%s' % rc] = 1; sys.stderr.write(err[-2000:])
            return o
        finally: shutil.rmtree(tmp, True)

    def shrink(self, case, fails):
        b = base64.b64decode(case['input'])
        enc = lambda x: {'input': base64.b64encode(bytes(x)).decode()}
        n = len(b) // 2
        while n >= 1:
            i = 0
            while i + n <= len(b) - 8:
                c = b[:i] + bytes(n) + b[i + n:] if b[i:i + n] != bytes(n) else None
                d = b[:i] + b[i + n:]
                if fails(enc(d)): b = d; continue
                if c is not None and fails(enc(c)): b = c
                i += n
            n //= 2
        return enc(b)

    def sample(self, case): return case


class MutDoc(runner.Part):
    """documents with damaged files: the calls may fail, what is written is a sound PDF file"""
    def __init__(self, kind, quick, thorough, weight=1.0):
        self.name = 'mutated-' + kind
        self.kind, self.quick, self.thorough, self.weight = kind, quick, thorough, weight
        self.rule = 'a damaged %s file is loaded (it may be refused), used, and the document written; the file is parsed strictly and walked with the typed schema%s; non-trivial: the damaged file was accepted and the document written' % (
            kind, ', and the data of every image must be exactly as large as its dimensions demand' if kind == 'image' else '')

    def prepare(self): self.dir = build.build('plain')
    def open(self): self.ex = execu.Exec(self.dir)
    def close(self): self.ex.stop()

    def gen(self, r, i):
        p = [['document_properties_new', {'o': 'dp'}]]
        if self.kind == 'icc':
            d = mutate.icc(r, seedfile(r, 'icc'))
            p.append(['#file', 'p.icc', d.decode('latin-1')])
            if r.random() < .5: p.append(['document_properties_set_device_profile', 'dp', r.randint(0, 2), {'f': 'p.icc'}])
        p += [['generator_new', {'f': 'o.pdf'}, 'dp', {'o': 'g'}], ['page_draw_context_new', 'g', {'o': 'c'}]]
        for k in range(r.choice([1, 1, 2, 3])):
            if self.kind == 'font':
                if r.random() < .15: d = open(r.choice(REALFONTS), 'rb').read()
                else: d = fontgen.any_font(r)[0]
                d = mutate.font(r, d)
                p.append(['#file', 'f%d' % k, d.decode('latin-1')])
                fp = None
                if r.random() < .4:
                    fp = 'fp%d' % k
                    p.append(['font_properties_new', {'o': fp}])
                    if r.random() < .4: p.append(['font_properties_set_subfont', fp, r.randint(0, 3)])
                    if r.random() < .4: p.append(['font_properties_set_named_instance', fp, r.randint(0, 3)])
                    if r.random() < .5:
                        import ftlib
                        try: tags = ftlib.axistags(d)[:8]
                        except Exception: tags = []
                        for t in tags: p.append(['font_properties_set_variation', fp, {'b': t.decode('latin-1')}, 4, r.choice([0, 100, 400, -50, 1000, 1 << 30])])
                F = 'F%d' % k
                p.append(['generator_load_font', 'g', {'f': 'f%d' % k}, fp, {'o': F}])
                for t in r.sample(['A', 'V', 'fi', ' ', 'é', 'Ж', '日', 'b', '0'], 4): p.append(['dc_render_text', 'c', t, -1, F, 10.0, 5.0, 5.0])
                p.append(['dc_text_new', 'c', {'o': 't%d' % k}]); p.append(['text_cmd_Tf', 't%d' % k, F, 9.0])
                for gid in r.sample(range(0, 40), 6) + [r.randrange(65536)]:
                    s = 's%d_%d' % (k, gid)
                    p += [['text_sequence_new', {'o': s}], ['text_sequence_append_raw_glyph', s, gid, 0x100 + gid % 1000], ['text_cmd_TJ', 't%d' % k, s]]
                p.append(['dc_render_text_obj', 'c', 't%d' % k])
            elif self.kind == 'image':
                d = imggen.any_file(r, True)[0]
                if isinstance(d, str): d = d.encode('latin-1')
                d = mutate.image(r, d) if len(d) > 30 and r.random() < .75 else d
                f, R = 'i%d%s' % (k, r.choice(['', '', '', '.png', '.tif', '.jpg'])), 'R%d' % k
                if r.random() < .5: p += [['#file', f, d.decode('latin-1')], ['generator_load_image', 'g', {'f': f}, {'o': R}]]
                else: p.append(['generator_load_image_from_memory', 'g', {'b': d.decode('latin-1')}, len(d), {'o': R}])
                if r.random() < .3: p.append(['generator_convert_image', 'g', R, r.randint(0, 2), r.randint(0, 3), {'o': 'C%d' % k}])
                for v in (R, 'C%d' % k):
                    q = 'q' + v
                    p += [['image_pdf_properties_new', {'o': q}]]
                    if r.random() < .2: p.append(['image_pdf_properties_set_mask', q, 1])
                    p += [['generator_add_image', 'g', v, q, {'o': 'I' + v}], ['dc_cmd_Do_image', 'c', 'I' + v]]
            else:
                if k: d = mutate.icc(r, seedfile(r, 'icc'))
                I = 'P%d' % k
                p += [['#file', 'q%d.icc' % k, d.decode('latin-1')]]
                if r.random() < .5: p.append(['generator_load_icc_profile', 'g', {'f': 'q%d.icc' % k}, {'o': I}])
                else: p.append(['generator_add_icc_profile', 'g', {'b': d.decode('latin-1')}, len(d), r.choice([1, 3, 3, 4, 0, 2]), {'o': I}])
                p += [['color_new', {'o': 'K%d' % k}], ['color_set_icc', 'K%d' % k, I, [.1, .2, .3], 3], ['dc_set_nonstroke', 'c', 'K%d' % k], ['color_new', {'o': 'G%d' % k}],
                      ['color_set_rgb', 'G%d' % k, .1, .5, .9], ['dc_set_nonstroke', 'c', 'G%d' % k]]
        p += [['generator_add_page', 'g', 'c'], ['generator_write', 'g'], ['#read', 'o.pdf']]
        return p

    def run(self, prog):
        try: res = self.ex.run(prog)
        except execu.Crash as c:
            op = prog[c.pos][0] if c.pos is not None and 0 <= c.pos < len(prog) else '?'
            return runner.Out([(('*',), 'crash:%s:%s' % ('hang' if 'hang' in c.what else 'died', op), '%s in %s %s' % (c.what, op, casemod.crashkey(c.err)))])
        ft = {}
        loads = [r for o, r in zip(prog, res) if o[0] in ('generator_load_font', 'generator_load_image', 'generator_load_image_from_memory', 'generator_load_icc_profile', 'generator_add_icc_profile')]
        ok = sum(1 for e, _ in loads if e == 0)
        ft['loads'], ft['accepted'] = len(loads), ok
        w = [r for o, r in zip(prog, res) if o[0] == 'generator_write']
        data = res[-1][1] if prog[-1][0] == '#read' else None
        iss = []
        if w and w[0][0] == 0:
            ft['written'] = 1
            if isinstance(data, str): data = data.encode('latin-1')
            if data is None: iss.append((('C01', 'C23'), 'nofile', 'no file written'))
            else:
                p = P.Pdf(data)
                own = {'font': 'C13', 'image': 'C14', 'icc': 'C14'}[self.kind]
                for c, t in p.issues: iss.append(((own, 'C01'), 'pdf:' + c, t))
                for c, t in schema.walk(p)[0]: iss.append(((own, 'C01'), c, t))
                for n, o in p.objs.items():
                    if isinstance(o, P.Stream) and o.d.get('Subtype') == 'Image':
                        m = sized(p, o)
                        ft['images'] = ft.get('images', 0) + 1
                        if m: iss.append(((own, 'C08', 'C09'), 'imagesize', m))
        return runner.Out(iss, bool(ok and ft.get('written')), ft)

    def shrink(self, prog, fails): return runner.shrink_prog(prog, fails, args=False)

    def sample(self, prog): return ['%s(%s)' % (o[0], ', '.join(repr(a) if len(repr(a)) < 60 else repr(a)[:50] + '...' for a in o[1:])) for o in prog][:40]


def sized(p, o):
    """None or what is wrong with the amount of image data"""
    d = o.d
    if d.get('Filter') == 'DCTDecode': return None
    w, h = d.get('Width'), d.get('Height')
    if not (isinstance(w, int) and isinstance(h, int) and w > 0 and h > 0): return 'dimensions %r x %r' % (w, h)
    if d.get('ImageMask') is True: n, b = 1, 1
    else:
        cs, b = p.get(d.get('ColorSpace')), d.get('BitsPerComponent')
        if isinstance(cs, list) and cs[0] == 'ICCBased': n = p.get(cs[1]).d.get('N')
        else: n = {'DeviceRGB': 3, 'DeviceGray': 1, 'DeviceCMYK': 4}.get(str(cs))
        if n is None or b not in (1, 2, 4, 8, 16): return 'colour space %r with %r bits' % (cs, b)
    try: got = len(p.data(o))
    except P.Bad as e: return str(e)
    want = (w * n * b + 7) // 8 * h
    return None if got == want else '%d x %d pixels of %d x %d bits have %d bytes instead of %d' % (w, h, n, b, got, want)
