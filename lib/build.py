"""Build bic, with the verification hooks on, from /repo's working tree.

The build lives in /verif/build/<hash of the sources>/ so that every check in
one sandbox shares it and none ever uses a stale one."""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BIC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

CONFIG_H = '''
#define BIC_PROMPT "BIC> "
#define BUILD_LINUX 1
#define ENABLE_TREE_CHECKS 1
#define EXTRA_CPP_OPTS ""
#define HAVE_LIBREADLINE 1
#define HAVE_READLINE_HISTORY 1
#define HAVE_READLINE_HISTORY_H 1
#define HAVE_READLINE_READLINE_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "bic"
#define PACKAGE_NAME "bic"
#define PACKAGE_STRING "bic 1.0"
#define PACKAGE_VERSION "1.0"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_TARNAME "bic"
#define PACKAGE_URL ""
#define VERSION "1.0"
'''
# generator source -> (stem of the tool, its output)
GENS = {'gentypes': 'tree.def', 'genctypes': 'ctypes.def', 'gentree': 'tree-base.h',
        'genaccess': 'tree-access.h', 'gengc': 'gc-internal.c', 'gendump': 'tree-dump.c',
        'gendot': 'tree-dump-dot.c', 'genffitypes': 'ffi-types.c',
        'genspecresolver': 'spec-resolver.c'}


class BuildError(Exception):
    pass


def run(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout


def source_files():
    src = os.path.join(REPO, 'src')
    out = []
    for f in sorted(os.listdir(src)):
        p = os.path.join(src, f)
        if os.path.isfile(p) and f.rsplit('.', 1)[-1] in ('c', 'h', 'cpp', 'm4', 'lang', 'lpp', 'y', 'l'):
            out.append(f)
    return src, out


def tree_hash():
    src, files = source_files()
    h = hashlib.sha256(open(__file__, 'rb').read())
    for f in files:
        h.update(f.encode() + b'\0' + open(os.path.join(src, f), 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def _build(dst, extra):
    src, files = source_files()
    s = os.path.join(dst, 'src')
    os.makedirs(s)
    open(os.path.join(dst, 'config.h'), 'w').write(CONFIG_H)
    for f in files:
        shutil.copy(os.path.join(src, f), s)
    env = dict(os.environ, M4PATH=s)
    ex = ThreadPoolExecutor(8)

    # The generators.
    run(['flex', '--header-file=lang_lexer.h', '-o', 'lang_lexer.cpp', 'lang_lexer.lpp'], s)
    cxx = lambda f: run(['g++', '-O0', '-g', '-c', '-I.', f + '.cpp', '-o', f + '.gen.o'], s)
    common = ['lang', 'lang_lexer']
    list(ex.map(cxx, common + list(GENS)))

    def gen(g):
        run(['g++', '-o', g + '.bin', g + '.gen.o'] + [c + '.gen.o' for c in common], s)
        run(['./' + g + '.bin', 'c.lang'], s)

    def parser(target):
        for kind, ext in (('parser', 'y'), ('lex', 'l')):
            out = run(['m4', '-DTARGET=' + target, kind + '.m4'], s, env=env)
            open(os.path.join(s, target + kind + '.' + ext), 'wb').write(out)
        run(['flex', '--header-file=' + target + 'lex.h', '-o', target + 'lex.c', target + 'lex.l'], s)
        run(['bison', '--warnings=no-yacc', '-d', '-o', target + 'parser.c', target + 'parser.y'], s)

    list(ex.map(lambda j: j[0](j[1]), [(gen, g) for g in GENS] + [(parser, t) for t in ('repl', 'cscript')]))

    generated = [v for v in GENS.values() if v.endswith('.c')] + \
                [t + k + '.c' for t in ('repl', 'cscript') for k in ('parser', 'lex')]
    csrc = [f for f in files if f.endswith('.c')] + generated
    def cc(f):
        cmd = lambda *hooks: run(['gcc', '-g', '-O2', '-DHAVE_CONFIG_H', *hooks, '-D_GNU_SOURCE', '-w', '-I.', '-I..']
                                 + extra + ['-c', f, '-o', f[:-2] + '.o'], s)
        try:
            cmd('-DBIC_VERIF')
        except BuildError:
            # The code around the hooks has changed so that they don't fit any
            # more: do without them (see hooks()).
            cmd()
            open(os.path.join(dst, 'nohooks'), 'w').write(f)
    list(ex.map(cc, csrc))
    run(['gcc'] + extra + ['-o', '../bic', ] + sorted(f[:-2] + '.o' for f in csrc) +
        ['-lreadline', '-lgmp', '-lffi', '-ldl'], s)
    shutil.rmtree(s)


def build(extra=()):
    """Return the path of a bic built from the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    dst = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dst, 'bic')):
            for old in os.listdir(BUILD):           # builds of other trees
                p = os.path.join(BUILD, old)
                if os.path.isdir(p) and len(old) == 16:
                    shutil.rmtree(p, ignore_errors=True)
            tmp = dst + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            _build(tmp, list(extra))
            shutil.rmtree(dst, ignore_errors=True)
            os.rename(tmp, dst)
    return os.path.join(dst, 'bic')


def hooks(bic):
    """Whether the collector of this build can be controlled and observed."""
    return not os.path.exists(os.path.join(os.path.dirname(bic), 'nohooks'))


if __name__ == '__main__':
    print(build())
