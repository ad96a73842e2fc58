"""Out-of-tree builds of /repo's current working tree (library, tools, harnesses, dictionaries).

Every artefact lives in /verif/build/<kind>-<hash>, where <hash> covers the contents of every source file that goes
into it, so a change anywhere in /repo's sources makes a new build and an unchanged tree reuses the old one."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
SRC = REPO + '/libvoikko/src'
HARNESS = VERIF + '/harness'
DEBIAN_MOR = '/usr/lib/voikko/5/mor-standard/mor.vfst'

CONFIG_H = '''
#define DICTIONARY_PATH "verif-builtin-1:verif-builtin-2"
#define GCC_VISIBILITY 1
#define HAVE_EXPERIMENTAL_VFST 1
#define HAVE_GETPWUID_R 1
#define HAVE_MMAP 1
#define HAVE_VFST 1
#define HAVE_PTHREAD 1
#define HAVE_ICONV 1
#define HAVE_NL_LANGINFO 1
#define HAVE_SETLOCALE 1
#define HAVE_MBRLEN 1
#define PACKAGE "libvoikko"
#define PACKAGE_NAME "libvoikko"
#define PACKAGE_VERSION "4.3.3"
#define VERSION "4.3.3"
'''

COMMON = ['-std=c++17', '-g', '-fPIC', '-pthread', '-DHAVE_CONFIG_H', '-w', '-fvisibility=hidden']
VARIANTS = {
    # -O1/-g1: readable reports at tolerable compile time
    'plain': ('g++', ['-O2']),
    'asan': ('clang++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                         '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1',
                         '-fno-builtin']),
    'tsan': ('clang++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread']),
    'cov': ('clang++', ['-O1', '-g1', '-fprofile-instr-generate', '-fcoverage-mapping']),
    # every basic block of the library counted (the driver itself is not)
    'steps': ('clang++', ['-O1', '-g0', '-fsanitize-coverage=trace-pc-guard']),
    'fuzz': ('clang++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=fuzzer-no-link,address,undefined',
                         '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']),
}
SKIP = ('Hfst', 'Lttoolbox', 'Cg')     # back ends that need libraries this build leaves out


class BuildError(Exception):
    pass


def log(*a):
    print('[build]', *a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd),
                                     p.stdout.decode('utf-8', 'replace')[-6000:]))
    return p.stdout


def tree_hash(roots, extra=''):
    h = hashlib.sha256(extra.encode())
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dirs, names in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in ('.deps', '.libs', '__pycache__', '.git', '_build'))
                files += [os.path.join(d, n) for n in names]
        for f in sorted(files):
            if os.path.islink(f) and not os.path.exists(f):
                continue
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\1')
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name='lock'):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, '.' + name)

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def artefact(kind, key, make):
    """make(dir) fills the directory; returns its path."""
    dest = os.path.join(BUILD, '%s-%s' % (kind, key))
    with Lock('lock-' + kind):
        if os.path.exists(dest + '/.done'):
            os.utime(dest + '/.done')
            return dest
        # bound the disk: keep the two most recent builds of this kind
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.rsplit('-', 1)[0] == kind),
                     key=lambda d: os.path.getmtime(d + '/.done') if os.path.exists(d + '/.done') else 0)
        for d in old[:-1]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        t = time.time()
        try:
            make(dest)
        except BaseException:
            shutil.rmtree(dest, ignore_errors=True)
            raise
        open(dest + '/.done', 'w').close()
        log('%s built in %.1f s' % (kind, time.time() - t))
    return dest


def lib_sources():
    out = []
    for d, dirs, names in os.walk(SRC):
        dirs[:] = sorted(x for x in dirs if x != 'tools')
        out += [os.path.join(d, n) for n in sorted(names)
                if n.endswith('.cpp') and not n.startswith(SKIP)]
    return sorted(out)


def compile_all(jobs):
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(lambda c: run(c), jobs))


def lib(variant):
    """Directory holding libvoikko.a, libvoikko.so.1 (plain only) and the tools."""
    cxx, flags = VARIANTS[variant]

    def make(dest):
        with open(dest + '/config.h', 'w') as f:
            f.write(CONFIG_H)
        base = [cxx] + COMMON + flags + ['-I' + dest, '-I' + SRC, '-DVOIKKO_VERIF_HOOKS']
        jobs, objs = [], []
        for s in lib_sources():
            o = dest + '/' + os.path.relpath(s, SRC).replace('/', '__')[:-4] + '.o'
            objs.append(o)
            jobs.append(base + ['-c', s, '-o', o])
        tools = []
        for t in ('voikkospell', 'voikkogc', 'voikkohyphenate', 'voikkovfstc'):
            o = dest + '/tool__' + t + '.o'
            tools.append((t, o))
            jobs.append(base + ['-c', SRC + '/tools/' + t + '.cpp', '-o', o])
        compile_all(jobs)
        run(['ar', 'crs', dest + '/libvoikko.a'] + objs)
        links = []
        for t, o in tools:
            if variant != 'steps':
                links.append([cxx] + COMMON + flags + [o, dest + '/libvoikko.a', '-o', dest + '/' + t])
        if variant == 'plain':
            # leave out objects nothing refers to that need libraries this build does without
            need = [o for o in objs if b'hfst_ospell' not in subprocess.run(['nm', '-u', o], stdout=subprocess.PIPE).stdout]
            links.append([cxx, '-shared', '-Wl,-soname,libvoikko.so.1'] + COMMON + flags + need +
                         ['-o', dest + '/libvoikko.so.1'])
        if variant != 'fuzz':
            compile_all(links)
        for o in objs + [o for _, o in tools]:
            os.remove(o)
    return artefact('lib_' + variant, tree_hash([SRC], repr((VARIANTS[variant], CONFIG_H, COMMON, 2 if variant == 'plain' else 1))), make)


def harness(variant, name, extra=()):
    """Path of the harness binary /verif/harness/<name>.cpp linked with the library."""
    cxx, flags = VARIANTS[variant]
    ldir = lib(variant)
    src = '%s/%s.cpp' % (HARNESS, name)

    def make(dest):
        f = list(flags)
        if variant == 'steps':
            f = ['-O1', '-DCOUNT_STEPS']
        if variant == 'fuzz':
            f += ['-fsanitize=fuzzer']
        srcs = [src]
        if variant in ('asan', 'fuzz'):
            srcs.append(HARNESS + '/wcs_checked.cpp')
        run([cxx] + COMMON + f + list(extra) + ['-fno-builtin', '-I' + ldir, '-I' + SRC] + srcs +
            [ldir + '/libvoikko.a', '-o', dest + '/' + name])
    return artefact('h_%s_%s' % (variant, name), tree_hash([src, HARNESS], ldir + repr(extra)), make) + '/' + name


def tool(variant, name):
    return lib(variant) + '/' + name


INDEX = '''Voikko-Dictionary-Format: 5
Language: %s
Description: %s
%s'''


def write_index(d, lang='fi-x-full', desc='full', extra='Morphology-Backend: finnishVfst\n'):
    os.makedirs(d, exist_ok=True)
    with open(d + '/index.txt', 'w', encoding='utf-8') as f:
        f.write(INDEX % (lang, desc, extra))


def autocorr():
    """autocorr.vfst and its AT&T form, built from the repository's own word list."""
    vfi = REPO + '/voikko-fi'
    plain = lib('plain')
    roots = [vfi + '/vocabulary/autocorrect/fi.xml', vfi + '/vvfst/autocorrect_to_lexc.py',
             vfi + '/vvfst/autocorrect.foma.in', vfi + '/common']

    def make(dest):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', PYTHONPATH=vfi + '/common')
        run(['python3', vfi + '/vvfst/autocorrect_to_lexc.py', vfi + '/vocabulary/autocorrect/fi.xml',
             dest + '/autocorrect.lexc'], env=env, cwd=vfi)
        with open(vfi + '/vvfst/autocorrect.foma.in', encoding='utf-8') as f:
            txt = f.read().replace('VVFST_BUILDDIR', dest)
        with open(dest + '/autocorrect.foma', 'w', encoding='utf-8') as f:
            f.write(txt)
        run(['foma', '-f', dest + '/autocorrect.foma'], env=env)
        run('sort -n %s/autocorrect.att | %s/voikkovfstc -o %s/autocorr.vfst' % (dest, plain, dest), shell=True,
            env=dict(env, LC_ALL='C'))
    return artefact('autocorr', tree_hash(roots, plain), make)


def dict_full():
    """A dictionary path with the full Finnish lexicon (Debian's) and the repository's autocorrect list."""
    ac = autocorr()

    def make(dest):
        for variant in ('full', 'standard'):
            d = '%s/5/mor-%s' % (dest, variant)
            write_index(d, 'fi-x-' + variant, 'suomi ' + variant)
            shutil.copy(DEBIAN_MOR, d + '/mor.vfst')
            shutil.copy(ac + '/autocorr.vfst', d)
    return artefact('dict_full', tree_hash([DEBIAN_MOR], ac), make)


def dict_svfst():
    """The repository's experimental weighted test dictionary, built from its own sources."""
    src = REPO + '/tests/testdicts/fi-x-svfst'
    plain = lib('plain')

    def make(dest):
        d = dest + '/5/mor-svfst'
        os.makedirs(d)
        b = dest + '/b'
        os.makedirs(b)
        env = dict(os.environ, PATH=plain + ':' + os.environ['PATH'], LC_ALL='C.UTF-8')
        run(['make', '-C', src, 'BUILDDIR=' + b], env=env)
        run(['make', '-C', src, 'install', 'BUILDDIR=' + b, 'DESTDIR=' + dest], env=env)
        shutil.rmtree(b)
    return artefact('dict_svfst', tree_hash([src], plain), make)


def _ids_att():
    """a small lexicon whose outputs carry word identifiers, several readings per word and odd tags"""
    lines, n = [], [0]

    def path(pairs):
        cur = 0
        for k, (i, o) in enumerate(pairs):
            n[0] += 1
            lines.append((cur, n[0], i, o))
            cur = n[0]
        lines.append((cur,))
    E = '@0@'
    for k, w in enumerate(('kissa', 'koira', 'talo', 'kuusi', 'kissakoira', 'kas-vi', 'Oulu')):
        for t in range(3):
            p = [(E, '[L%s]' % ('n', 'l', 'ee')[t]), (E, '[Xp]')] + [(E, c) for c in w] + [(E, '[X]')]
            p += [(E, '[Xs]')] + [(E, c) for c in '5%d%d' % (k, t)] + [(E, '[X]')]
            p += [(c.lower(), c.lower()) for c in w]
            if k % 2:
                p += [(E, '[Bc]'), (E, '[Xs]'), (E, '7'), (E, '[X]'), (E, '[Ln]')]
            p += [(E, '[Sn]'), (E, '[Ny]')]
            path(p)
    return '\n'.join('\t'.join(str(x) for x in l) for l in sorted(lines, key=lambda l: l[0])) + '\n'


def dict_more():
    """more dictionaries: other byte order, word identifiers, back ends with fixed answers"""
    import vfst
    ac, sv, plain = autocorr(), dict_svfst(), lib('plain')

    def swap(a, b):
        with open(a, 'rb') as f, open(b, 'wb') as g:
            g.write(vfst.byteswap(f.read()))

    def make(dest):
        d = dest + '/5/mor-swap'
        write_index(d, 'fi-x-swap', 'swapped')
        swap(DEBIAN_MOR, d + '/mor.vfst')
        swap(ac + '/autocorr.vfst', d + '/autocorr.vfst')
        d = dest + '/5/mor-sswap'
        shutil.copytree(sv + '/5/mor-svfst', d)
        write_index(d, 'fi-x-sswap', 'swapped weighted', 'Morphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: null\n')
        for f in os.listdir(d):
            if f.endswith('.vfst'):
                swap(sv + '/5/mor-svfst/' + f, d + '/' + f)
        d = dest + '/5/mor-ids'
        write_index(d, 'fi-x-ids', 'identifiers')
        shutil.copy(ac + '/autocorr.vfst', d)
        with open(d + '/a.att', 'w', encoding='utf-8') as f:
            f.write(_ids_att())
        run('%s/voikkovfstc -o %s/mor.vfst < %s/a.att' % (plain, d, d), shell=True, env=dict(os.environ, LC_ALL='C.UTF-8'))
        for n, extra in (('null', 'Morphology-Backend: null\nSpeller-Backend: AllOk\nSuggestion-Backend: null\nGrammar-Backend: null\n'),
                         ('err', 'Morphology-Backend: finnishVfst\nSpeller-Backend: AllError\nSuggestion-Backend: FinnishSuggestionStrategy(currentAnalyzer)\n'),
                         ('bare', 'Morphology-Backend: finnishVfst\nSpeller-Backend: AnalyzerToSpellerAdapter(currentAnalyzer)\nGrammar-Backend: finnish\n'),
                         ('nospell', 'Morphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: null\nGrammar-Backend: finnishVfst\n')):
            d = '%s/5/mor-%s' % (dest, n)
            write_index(d, 'fi-x-' + n, n, extra)
            if n == 'nospell':
                for f in ('mor.vfst', 'spl.vfst', 'err.vfst'):
                    shutil.copy(sv + '/5/mor-svfst/' + f, d)
            elif n != 'null':
                shutil.copy(DEBIAN_MOR, d + '/mor.vfst')
            if n in ('err', 'nospell'):
                shutil.copy(ac + '/autocorr.vfst', d)
        # a weighted acceptor in which a word of n letters has 2^n paths, nearly all of them dead ends
        d = dest + '/5/mor-amb'
        write_index(d, 'fi-x-amb', 'ambiguous', 'Morphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: null\nGrammar-Backend: null\n')
        with open(d + '/a.att', 'w', encoding='utf-8') as f:
            for s in (0, 1):
                for t in (0, 1):
                    for c in 'aeä-':
                        f.write('%d\t%d\t%s\t%s\t0.%d\n' % (s, t, c, c, t + 5))
            f.write('1\t2\ts\ts\t1\n2\t1\n')
        for n in ('mor', 'spl'):
            run('%s/voikkovfstc -w prob -o %s/%s.vfst < %s/a.att' % (plain, d, n, d), shell=True, env=dict(os.environ, LC_ALL='C.UTF-8'))
    return artefact('dict_more', tree_hash([DEBIAN_MOR, VERIF + '/lib/vfst.py', VERIF + '/lib/build.py'], ac + sv + plain + _ids_att()), make)


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain', 'asan']:
        print(lib(v))
    print(dict_full())
    print(dict_svfst())
    print(dict_more())
