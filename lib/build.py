"""Builds libcapypdf from /repo's current working tree (never from a copy), out of tree.

Each flavour is an own ninja build below /verif/build.  Sources are the ones that
src/meson.build lists for the library, so a refactoring that adds or splits files is followed."""
import os, re, subprocess, glob, fcntl, sys

REPO = os.environ.get('CAPY_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')

FLAVORS = {
    # plain: what a user gets (asserts and hardened libstdc++ are on in the project's own build)
    'plain': dict(cxx='g++', flags='-O1 -g1', link=''),
    'asan': dict(cxx='clang++', flags='-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,fuzzer-no-link '
                 '-fsanitize=bounds,shift-exponent,null,return,unreachable,vla-bound,integer-divide-by-zero '
                 '-fno-sanitize-recover=all -D__cpp_concepts=202002L -Wno-builtin-macro-redefined', link=''),
    'tsan': dict(cxx='g++', flags='-O1 -g1 -fsanitize=thread', link=''),
}
PKGS = 'libpng zlib lcms2 libjpeg freetype2 libtiff-4'


def lib_sources():
    txt = open(os.path.join(REPO, 'src/meson.build')).read()
    txt = re.sub(r'#.*', '', txt)
    m = re.search(r"library\(\s*'capypdf'(.*?)\n\)", txt, re.S)
    names = []
    if m:
        names = [n for n in re.findall(r"'([\w./-]+\.(?:cpp|c))'", m[1])]
    srcs = [os.path.join(REPO, 'src', n) for n in names]
    srcs = [s for s in srcs if os.path.exists(s)]
    if not srcs:
        srcs = [s for s in glob.glob(os.path.join(REPO, 'src/*.cpp')) if not s.endswith('_fuzz.cpp')]
    return sorted(set(srcs))


def gen_header(dst):
    txt = open(os.path.join(REPO, 'meson.build')).read()
    m = re.search(r"version:\s*'([\d.]+)'", txt)
    v = m[1] if m else '0.0.0'
    p = (v.split('.') + ['0', '0', '0'])[:3]
    defs = {'CAPYPDF_VERSION_STR': '"%s"' % v, 'CAPYPDF_VERSION_MAJOR': p[0],
            'CAPYPDF_VERSION_MINOR': p[1], 'CAPYPDF_VERSION_MICRO': p[2]}
    out = []
    for line in open(os.path.join(REPO, 'include/capypdf.h.in')):
        m = re.match(r'#mesondefine (\w+)', line)
        if m:
            line = '#define %s %s\n' % (m[1], defs[m[1]]) if m[1] in defs else '/* #undef %s */\n' % m[1]
        out.append(line)
    out = ''.join(out)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst) or open(dst).read() != out:
        open(dst, 'w').write(out)


def pkg(flag):
    return subprocess.run(['pkg-config', flag] + PKGS.split(), capture_output=True, text=True, check=True).stdout.strip()


def locales():
    """a locale with another decimal point and digit grouping, for programs that call setlocale; returns the LOCPATH"""
    d = os.path.join(BUILD, 'locale')
    t = os.path.join(d, 'de_DE.UTF-8')
    if not os.path.isdir(t):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.isdir(t):
                try:
                    subprocess.run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', t + '.tmp'], capture_output=True, timeout=120)
                    if os.path.isdir(t + '.tmp'): os.rename(t + '.tmp', t)
                except (OSError, subprocess.TimeoutExpired): pass
    return d


def build(flavor, extra=None):
    """Builds the flavour; returns the directory (holding libcapypdf.so).
    extra: list of (output name, [sources], extra flags, extra link) of executables linked against it."""
    fl = FLAVORS[flavor]
    d = os.path.join(BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_header(os.path.join(d, 'include/capypdf.h'))
        inc = '-I%s/src -I%s/include -I%s/include' % (REPO, d, REPO)
        with open(os.path.join(d, 'build.ninja.new'), 'w') as f:
            f.write('ninja_required_version = 1.5\ncflags = -std=c++23 -fPIC -D_GLIBCXX_ASSERTIONS -DBUILDING_CAPYPDF '
                    '-w %s %s %s\nldlibs = %s\n' % (fl['flags'], inc, pkg('--cflags'), pkg('--libs')))
            f.write('rule cc\n command = %s $cflags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n' % fl['cxx'])
            f.write('rule so\n command = %s -shared %s -o $out $in $ldlibs\n' % (fl['cxx'], fl['flags']))
            f.write('rule exe\n command = %s $cflags $xflags -o $out $in $xlibs $ldlibs\n' % fl['cxx'])
            objs = []
            for s in lib_sources():
                o = 'o/' + os.path.basename(s) + '.o'
                objs.append(o)
                f.write('build %s: cc %s\n' % (o, s))
            f.write('build libcapypdf.so: so %s\n' % ' '.join(objs))
            tg = ['libcapypdf.so']
            for name, srcs, xf, xl in (extra or []):
                eo = []
                for s in srcs:
                    o = 'x/' + name + '_' + os.path.basename(s) + '.o'
                    f.write('build %s: cc %s\n' % (o, s)); eo.append(o)
                f.write('build %s: exe %s | libcapypdf.so\n xflags = %s\n xlibs = -Wl,--no-as-needed -L%s -Wl,-rpath,%s -lcapypdf %s\n'
                        % (name, ' '.join(eo), xf, d, d, xl))
                tg.append(name)
            f.write('default %s\n' % ' '.join(tg))
        os.replace(os.path.join(d, 'build.ninja.new'), os.path.join(d, 'build.ninja'))
        r = subprocess.run(['ninja', '-C', d] + tg, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:] + r.stderr[-2000:])
            raise SystemExit(3)
    return d


if __name__ == '__main__':
    locales()
    for fl in sys.argv[1:] or ['plain']:
        print(build(fl))
