"""runs a mixture of the cheap checks in one process until something is found; prints KILLED ... or SURVIVED (helper of automut.py)"""
import sys, random, time, os
import docs, meta, fault, case, runner, build, execu, gen, bind, registry
known = set()
for l in open(os.path.join(build.VERIF, 'known_findings.txt')):
    if l.startswith('finding:'): known.add(l.split('key=')[1].split()[0])
seed = int(sys.argv[1])
props = list(docs.DEFS)
parts = {}
def got(c):
    if c not in parts:
        ps = [p for p in registry.get(c)[1] if not p.name.endswith('asan') and p.name not in ('threads', 'faults', 'places')]
        ok = []
        for p in ps:
            try: p.prepare(); p.open(); ok.append(p)
            except SystemExit: print('KILLED build'); sys.exit()
        parts[c] = ok
    return parts[c]
t0 = time.time(); n = 0
LIMIT = float(os.environ.get('MT_LIMIT', '110'))
ALL = props + ['C15', 'C24', 'C25'] + (['C26'] if os.environ.get('MT_BIND') else [])
if os.environ.get('MT_BIND'): ALL = ['C26']
i = 0
while time.time() - t0 < LIMIT:
    c = ALL[i % len(ALL)]; i += 1
    for p in got(c):
        for k in range(3):
            rng = random.Random('%d/%s/%s/%d/%d' % (seed, c, p.name, i, k))
            cs = p.gen(rng, n)
            try: o = p.run(cs)
            except Exception as e: print('KILLED harness %s %r' % (c, e)); sys.exit()
            n += 1
            b = [x for x in o.issues if x[1] not in known]
            if b: print('KILLED n=%d %s %s' % (n, c, str(b[0])[:150])); sys.stdout.flush(); os._exit(0)
print('SURVIVED n=%d' % n); sys.stdout.flush(); os._exit(0)
