#!/usr/bin/env python3
"""Mutation testing of the checks: makes small random changes to a copy of /repo's sources and asks whether the generated documents notice.
usage: automut.py LANE SEED SECONDS [file regex]       works in /tmp/mt/laneN; survivors are appended to /tmp/mt/survivors.txt"""
import sys, os, re, random, subprocess, shutil, time, json, signal
lane, seed, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
W = '/tmp/mt/lane' + lane
V, R = W + '/verif', W + '/repo'
if not os.path.isdir(W):
    os.makedirs(V)
    for d in ('lib', 'checks', 'data', 'fuzz', 'run.py', 'known_findings.txt'):
        subprocess.run(['cp', '-a', '/verif/' + d, V], check=True)
    subprocess.run(['cp', '-a', '/verif/build', V]); subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
os.environ['CAPY_REPO'] = R
os.environ['PYTHONPATH'] = V + '/lib:' + V + '/checks'
rng = random.Random(seed)
FILES = [f for f in sorted(os.listdir(R + '/src')) if f.endswith(('.cpp', '.hpp')) and 'fuzz' not in f and pat.search(f)] 
if len(sys.argv) > 4: FILES += [f for f in ('../include/capypdf.hpp', '../python/capypdf.py') if pat.search(f)]


def mutate():
    f = rng.choices(FILES, [os.path.getsize(R + '/src/' + x) for x in FILES])[0]
    L = open(R + '/src/' + f).read().split('\n')
    for _ in range(200):
        i = rng.randrange(len(L)); s = L[i]; t = s.strip()
        if not t or t.startswith(('//', '#', '*', '/*', 'assert', 'static_assert', 'namespace', 'using', 'return e', 'std::abort', 'fprintf')): continue
        ops = []
        for a, b in [('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), ('<=', '<'), ('>=', '>'), (' && ', ' || '), (' || ', ' && '), (' + 1', ''), (' - 1', ''), ('true', 'false'), ('false', 'true'),
                     (' + ', ' - '), ('++', '--'), (' | ', ' & '), ('begin', 'end'), ('.x1', '.x2'), ('.y1', '.y2'), ('.x2', '.x1'), ('starting', 'ending'), ('Fill', 'Stroke'), ('/FirstChar', '/LastChar')]:
            for m in re.finditer(re.escape(a), s): ops.append((m.start(), m.end(), b))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.x])', s):
            n = int(m[1]); ops.append((m.start(), m.end(), str(n + rng.choice([1, 1, -1]) if n else 1)))
        m = re.match(r'(\s*(?:\} else )?if\()(.*)(\) \{)$', s)
        if m:
            ops.append((m.start(2), m.end(2), '!(' + m[2] + ')')); ops.append((m.start(2), m.end(2), 'false && (' + m[2] + ')'))
        if re.match(r'\s+[\w.\->:\[\]()]+(\(.*\)| \+?= .*);$', s) and not re.match(r'\s*(return|auto|const|int|std::string )', s): ops += [(0, len(s), '')] * 3
        for m in re.finditer(r'([\w.]+(?:\(\))?), ([\w.]+(?:\(\))?)(?=[,)\]])', s): ops.append((m.start(), m.end(), m[2] + ', ' + m[1]))
        if f.endswith('.py') and re.match(r'\s+(check_error\(|self\.|raise )', s): ops.append((0, len(s), re.match(r'\s*', s)[0] + 'pass'))
        if t in ('break;', 'continue;'): ops.append((0, len(s), ''))
        for m in re.finditer(r'"([^"\\]{2,})"', s): ops.append((m.start(1), m.end(1), m[1][:-1] + ('x' if m[1][-1] != 'x' else 'y')))
        if not ops: continue
        a, b, n = rng.choice(ops)
        return f, i, s, s[:a] + n + s[b:]
    return None


def limits(n):
    """every loop of the sources, stopped after n rounds: does anything generated go further?"""
    for f in FILES:
        if not f.endswith('pp'): continue
        for i, s in enumerate(open(R + '/src/' + f).read().split('\n')):
            m = re.match(r'(\s+)((?:for|while)\(.*\) \{)$', s)
            if m: yield f, i, s, '%sint rounds_%d = 0; %s if(++rounds_%d > %d) break;' % (m[1], i, m[2], i, n)


def cocktail():
    r = subprocess.Popen([sys.executable, '/verif/tools/automut_run.py', str(seed)], env=os.environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: out = r.communicate(timeout=400)[0]
    except subprocess.TimeoutExpired:
        os.killpg(r.pid, signal.SIGKILL); return 'timeout'
    finally:
        try: os.killpg(r.pid, signal.SIGKILL)
        except OSError: pass
    return out.strip().split('\n')[-1]


end = time.time() + secs
todo = None
if os.environ.get('MT_ROUNDS'): todo = list(limits(int(os.environ['MT_ROUNDS'])))[seed % 8::8]
while time.time() < end:
    if todo == []: break
    m = todo.pop(0) if todo else mutate()
    if not m: continue
    f, i, old, new = m
    p = R + '/src/' + f
    src = open(p).read(); L = src.split('\n'); L[i] = new
    open(p, 'w').write('\n'.join(L))
    try:
        b = subprocess.run([sys.executable, V + '/lib/build.py', 'plain'], env=os.environ, capture_output=True, text=True)
        if b.returncode or f.endswith('.py') and subprocess.run([sys.executable, '-m', 'py_compile', p]).returncode: continue
        t = time.time()
        res = cocktail()
        line = '%s:%d | %s | %s | %.0fs %s' % (f, i + 1, old.strip(), new.strip(), time.time() - t, res[:160])
        with open('/tmp/mt/%s.txt' % ('survivors' if res.startswith('SURVIVED') else 'killed'), 'a') as o: o.write(line + '\n')
    finally:
        open(p, 'w').write(src)
