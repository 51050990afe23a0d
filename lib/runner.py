"""Runs a check: sharded generation of cases from VERIF_SEED, judging, 3x replay, shrinking, evidence.

A check is a list of parts.  A part has
  name, quick, thorough      case counts
  prepare()                  in the parent, before the shards start (builds)
  open()                     in a shard; close()
  gen(rng, i) -> case        JSON value
  run(case) -> Out           judges a case
  shrink(case, fails)        smaller case for which fails(case) holds
"""
import os, sys, json, time, random, hashlib, collections, multiprocessing as mp, traceback, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NSHARD = 8


class Out:
    __slots__ = ('issues', 'nontrivial', 'feats', 'key', 'n', 'keys', 'case')

    def __init__(self, issues=(), nontrivial=False, feats=None, key=None):
        self.n, self.keys, self.case = 1, None, None     # evaluations, keys of distinct non-trivial ones, the case that shows the issues
        self.issues, self.nontrivial, self.feats, self.key = list(issues), nontrivial, feats or {}, key


class Part:
    name = 'part'
    quick = 100
    thorough = 1000
    share = None          # soft limits in seconds: (quick, thorough)
    rule = ''

    def prepare(self): pass
    def open(self): pass
    def close(self): pass
    def gen(self, rng, i): raise NotImplementedError
    def run(self, case): raise NotImplementedError
    def shrink(self, case, fails): return case
    def sample(self, case): return case


def known():
    """{(property, code): description} of the recorded findings"""
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                f = l.split(None, 3)
                r[(f[1].split('=')[1], f[2].split('=', 1)[1])] = f[3]
    return r


def mine(issue, prop):
    return '*' in issue[0] or prop in issue[0]


def code_of(i): return i[1]


def chash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def attempt(p, case):
    """runs a case; output the oracle cannot even take apart is a failure of the case (three replays must agree), trouble with the system is not"""
    try: return p.run(case)
    except (OSError, MemoryError, EOFError): raise
    except Exception as x:
        fr = traceback.extract_tb(x.__traceback__)[-1]
        return Out([(('*',), 'unexpected:%s:%s' % (type(x).__name__, fr.name), 'the observed behaviour cannot be interpreted: %s in %s: %s' % (type(x).__name__, fr.name, str(x)[:300]))], True, {})


def shard(prop, parts, seed, tier, k, conn, deadline, kn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    res = dict(n=0, nt=[], feats=collections.Counter(), samples=[], viol=[], known=collections.Counter(), per={}, err=None, capped=[])
    try:
        total = sum(p.weight for p in parts)
        t0 = time.time(); used = 0
        for p in parts:
            used += p.weight
            plimit = t0 + (deadline - t0) * used / total
            p.open()
            cnt = p.quick if tier == 'quick' else p.thorough
            n = 0; seen = set()
            for i in range(k, cnt, NSHARD):
                if time.time() > plimit:
                    res['capped'].append(p.name); break
                rng = random.Random('%d/%s/%s/%d' % (seed, prop, p.name, i))
                case = p.gen(rng, i)
                o = attempt(p, case)
                n += 1; res['n'] += o.n
                for f, c in o.feats.items(): res['feats'][f] += c
                if o.keys:
                    res['nt'] += o.keys
                    if len(res['samples']) < 2 and k < 2: res['samples'].append({'part': p.name, 'case': p.sample(case)})
                if o.case is not None: case = o.case
                if o.nontrivial:
                    res['nt'].append(p.name + (o.key or chash(case)))
                    if len(res['samples']) < 2 and (k < 2): res['samples'].append({'part': p.name, 'case': p.sample(case)})
                bad = []
                for iss in o.issues:
                    if not mine(iss, prop): continue
                    if (prop, code_of(iss)) in kn: res['known'][code_of(iss)] += 1
                    else: bad.append(iss)
                for iss in bad[:3]:
                    c = code_of(iss)
                    if c in seen: continue
                    seen.add(c)

                    def fails(cs, c=c):
                        return [x for x in attempt(p, cs).issues if mine(x, prop) and code_of(x) == c]
                    if not all(fails(case) for _ in range(3)):
                        res['feats']['_unreproduced'] += 1
                        sys.stderr.write('unreproduced: %s %s %s\n' % (prop, c, iss[2])); continue
                    lim = time.time() + (45 if len(res['viol']) == 0 else 10)
                    def lfails(cs):
                        return time.time() < lim and bool(fails(cs))
                    try: small = p.shrink(case, lfails)
                    except Exception: small = case
                    f = fails(small)
                    if not f: small, f = case, [iss]
                    res['viol'].append((p.name, i, c, f[0][2], small))
                if len(seen) >= 3: break
            res['per'][p.name] = res['per'].get(p.name, 0) + n
            p.close()
            if len(res['viol']) >= 3: break
    except BaseException:
        res['err'] = traceback.format_exc()
    conn.send(res)
    conn.close()


def run_check(prop, title, level, parts, assumptions=(), caps=(100, 1500), argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--seed' in argv: seed = int(argv[argv.index('--seed') + 1])
    kn = known()
    t0 = time.time()
    for p in parts:
        if not hasattr(p, 'weight'): p.weight = 1.0
        p.tier = tier
        p.prop = prop
    if '--replay' in argv:
        f = argv[argv.index('--replay') + 1]
        d = json.load(open(f))
        ps = [p for p in parts if p.name == d['part']]
        for p in ps: p.prepare()
        p = ps[0]; p.open()
        o = attempt(p, d['case']); p.close()
        rc = 0
        for iss in o.issues:
            print(iss)
            if mine(iss, prop) and (prop, code_of(iss)) not in kn: rc = 1
        if rc: print('VIOLATION property=%s replay=%s' % (prop, f))
        return rc
    if '--part' in argv:
        w = argv[argv.index('--part') + 1]; parts = [p for p in parts if p.name == w]
    for p in parts: p.prepare()
    tb = time.time()
    cap = caps[0] if tier == 'quick' else caps[1]
    deadline = tb + cap
    procs = []
    for k in range(NSHARD):
        a, b = mp.Pipe(False)
        pr = mp.get_context('fork').Process(target=shard, args=(prop, parts, seed, tier, k, b, deadline, kn))
        pr.start(); b.close()
        procs.append((pr, a))
    tot = dict(n=0, nt=set(), feats=collections.Counter(), samples=[], viol=[], known=collections.Counter(), per=collections.Counter(), capped=set())
    errs = []
    for pr, a in procs:
        try: r = a.recv()
        except EOFError:
            errs.append('a shard died'); continue
        if r['err']: errs.append(r['err'])
        tot['n'] += r['n']; tot['nt'].update(r['nt']); tot['feats'].update(r['feats']); tot['samples'] += r['samples'][:3]
        tot['viol'] += r['viol']; tot['known'].update(r['known']); tot['per'].update(r['per']); tot['capped'].update(r['capped'])
    for pr, a in procs: pr.join(10)
    for p in parts:
        for f in getattr(p, 'final', lambda t: [])(tot):
            tot['viol'].append(f)
    # one violation per code
    viols = {}
    for v in sorted(tot['viol'], key=lambda v: len(json.dumps(v[4], default=str))):
        viols.setdefault(v[2], v)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    lines = []
    for n, (pn, i, code, msg, case) in enumerate(list(viols.values())[:5]):
        path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (prop, chash(case)[:10], seed))
        json.dump({'property': prop, 'part': pn, 'seed': seed, 'index': i, 'code': code, 'message': msg, 'case': case}, open(path, 'w'), indent=1, default=str)
        print('%s: %s' % (code, msg[:600]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    wall = time.time() - t0
    cov = {'evaluations': tot['n'], 'distinct_nontrivial': len(tot['nt']),
           'rule': ' || '.join('%s: %s' % (p.name, p.rule) for p in parts),
           'samples': tot['samples'][:6], 'cases_per_part': dict(tot['per']), 'classes': dict(sorted(tot['feats'].items())),
           'build_s': round(tb - t0, 1)}
    if tot['capped']: cov['time_capped_parts'] = sorted(tot['capped'])
    for p in parts:
        cov.update(getattr(p, 'coverage', lambda: {})())
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(viols),
          'assumptions': list(assumptions)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for (pp, code), desc in kn.items():
        if pp == prop and tot['known'].get(code): print('KNOWN-FINDING: property=%s %s' % (prop, desc))
    print('%s %s: %d cases, %d distinct non-trivial, %.0f s, %d violation(s)' % (prop, tier, tot['n'], len(tot['nt']), wall, len(viols)))
    if errs:
        for e in errs: sys.stderr.write(e + '\n')
        if not lines: return 2
    for l in lines: print(l)
    sys.stdout.flush()
    return 1 if lines else 0


# ---------------------------------------------------------------- shrinking
def ddmin(items, fails):
    """greedy chunk removal"""
    n = max(1, len(items) // 2)
    while n >= 1:
        i = 0
        changed = False
        while i < len(items):
            c = items[:i] + items[i + n:]
            if c and fails(c): items = c; changed = True
            else: i += n
        if n == 1 and not changed: break
        n = n // 2 if n > 1 else (1 if changed else 0)
    return items


def simplify(v):
    """simpler values of one argument"""
    if isinstance(v, float):
        for c in (0.0, 1.0, float(int(v)) if abs(v) < 1e15 else v, round(v, 2)):
            if c != v: yield c
    elif isinstance(v, str) and len(v) > 1:
        yield v[:len(v) // 2]; yield v[len(v) // 2:]; yield v[1:]; yield v[:-1]


def shrink_prog(prog, fails, args=True):
    import model as M
    p = ddmin(list(prog), fails)
    if not args: return p
    for i in range(len(p)):
        spec = M.SPEC.get(p[i][0])
        if not spec: continue
        for j, (k, base, an) in enumerate(spec):
            if k == 'f':
                for c in simplify(p[i][j + 1]):
                    q = list(p); q[i] = list(p[i]); q[i][j + 1] = c
                    if fails(q): p = q; break
            elif k == 'str' and isinstance(p[i][j + 1], str) and len(p[i]) > j + 2 and isinstance(p[i][j + 2], int):
                again = True
                while again:
                    again = False
                    for c in simplify(p[i][j + 1]):
                        q = list(p); q[i] = list(p[i]); q[i][j + 1] = c; q[i][j + 2] = -1
                        if fails(q): p = q; again = True; break
    return p
