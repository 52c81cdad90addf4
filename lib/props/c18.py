"""C18: what an invocation of bic does, from the words of its command line to
the exit status."""
import itertools, json, os, re
import engine
from engine import Scratch

CFG = 'INIT Init\nNEXT Next\nINVARIANT Verdict\nINVARIANT Untouched\nPROPERTY Progress\nCHECK_DEADLOCK FALSE\n'

P = 'int printf(const char *, ...);\n'
PRINT = '%sprintf("argc %%%%d\\n", argc);\n%sfor (i = 0; i < argc; i++) {\n%s    printf("arg");\n%s    for (j = 0; argv[i][j] != 0; j++)\n%s        printf(" %%%%d", argv[i][j] & 255);\n%s    printf("\\n");\n%s}\n'
ARGS = lambda ind: PRINT % ((ind,) * 7)
SCRIPTS = {
    'args-top': P + 'int i, j;\n' + ARGS(''),
    'args-main': P + 'int main(int argc, char *argv[])\n{\n    int i, j;\n' + ARGS('    ') + '    if (argv[argc] == 0)\n        printf("null\\n");\n    return %(v)d;\n}\n',
    'args-main2': P + 'int main(int n, char **v)\n{\n    int argc = n;\n    char **argv = v;\n    int i, j;\n' + ARGS('    ') + '    if (argv[argc] == 0)\n        printf("null\\n");\n    return %(v)d;\n}\n',
    'args-one': P + 'int main(int n)\n{\n    printf("argc %%d\\n", n);\n    return %(v)d;\n}\n',
    'args-function': P + 'void exit(int);\nint show(int argc, char **argv)\n{\n    int i, j;\n' + ARGS('    ') + '    exit(%(v)d);\n    return 0;\n}\nshow(argc, argv);\nprintf("after\\n");\n',
    'main': P + 'int main()\n{\n    printf("plain\\n");\n    return %(v)d;\n    printf("after\\n");\n}\n',
    'return': P + 'printf("plain\\n");\nreturn %(v)d;\nprintf("after\\n");\n',
    'exit': P + 'void exit(int);\nvoid f(int n) { if (n > 0) f(n - 1); else exit(%(v)d); }\nprintf("plain\\n");\nf(3);\nprintf("after\\n");\n',
    'exit-main': P + 'void exit(int);\nvoid f(int n) { if (n > 0) f(n - 1); else exit(%(v)d); }\nint main()\n{\n    printf("plain\\n");\n    f(3);\n    printf("after\\n");\n    return 1;\n}\n',
    'void-main': P + 'void main(void)\n{\n    printf("plain\\n");\n}\n', 'main-ends': P + 'int main(void)\n{\n    printf("plain\\n");\n}\n', 'top': P + 'int x = 3;\nx = %(v)d;\nprintf("plain\\n");\n',
    'declarations': P + 'int x = %(v)d;\nint f(int a)\n{\n    printf("called\\n");\n    return a;\n}\n', 'empty': '/* %(v)d */\n',
    'conf': '#include <conf.h>\n' + P + 'int main()\n{\n    printf("conf %%d\\n", CONF);\n    return %(v)d;\n}\n',
    'which': P + 'int which(void);\nint main()\n{\n    printf("which %%d\\n", which());\n    return %(v)d;\n}\n',
    'mix': P + 'int main()\n{\n    printf("main\\n");\n    return %(v)d;\n}\nprintf("top\\n");\n', 'mix2': P + 'printf("top\\n");\nint main(int argc, char **argv)\n{\n    printf("main\\n");\n    return %(v)d;\n}\n',
    'mix3': P + 'int main()\n{\n    printf("main\\n");\n    return %(v)d;\n}\nfor (;;) printf("top\\n");\n', 'mix4': P + '{ printf("top\\n"); }\nint main(void)\n{\n    printf("main\\n");\n    return %(v)d;\n}\n',
    'mix5': P + 'int x;\nint main()\n{\n    printf("main\\n");\n    return %(v)d;\n}\nx = 3;\nint y;\n', 'mix6': P + 'int f() { return 1; }\nif (f()) printf("top\\n");\nint main()\n{\n    printf("main\\n");\n    return %(v)d;\n}\n',
    'mix7': P + 'int main()\n{\n    printf("main\\n");\n    return %(v)d;\n}\nreturn 3;\n', 'mix8': P + 'int f() { return 1; }\nf();\nint main()\n{\n    printf("main\\n");\n    return %(v)d;\n}\n',
    'main2': P + 'int mainly(void) { printf("mainly\\n"); return 3; }\nint main_;\nint domain() { printf("domain\\n"); return 4; }\nint main()\n{\n    printf("plain\\n");\n    return %(v)d;\n}\nint mai() { printf("mai\\n"); return 4; }\nint main2() { printf("main2\\n"); return 4; }\n',
    'main3': P + 'int main(void);\nint g = 4;\nint main(void)\n{\n    printf("plain\\n");\n    return %(v)d;\n}\n',
    'main4': P + 'typedef int num;\nstruct s { int a; };\nenum e { A, B };\nextern int abs(int);\nstruct s *p;\nint main()\n{\n    num r = %(v)d;\n    printf("plain\\n");\n    return r;\n}\nstatic num z = B;\nunion u { char c; };\nint a, *b, c[3];\nchar *f(int x) { return 0; }\n',
    'main5': P + 'int g = %(v)d;\nint k(void) { return g; }\nint main()\n{\n    if (k() == g) {\n        printf("plain\\n");\n        while (1)\n            return k();\n    }\n    return 9;\n}\n',
    'top2': P + 'int mainly(void) { printf("mainly\\n"); return 3; }\nint domain() { printf("domain\\n"); return 4; }\nint main_ = %(v)d;\nprintf("plain\\n");\nint mai() { printf("mai\\n"); return 4; }\n', 'top3': P + 'struct main { int main; };\nstruct main x;\nx.main = %(v)d;\nprintf("plain\\n");\n', 'top4': P + 'char *main_name(int n) { return 0; }\nint **mains(void) { return 0; }\nint x;\nfor (x = 0; x < 2; x++)\n    if (x)\n        printf("plain\\n");\n',
    'return2': P + 'int f(int n) { return n; }\nint x = 0;\nwhile (1) {\n    x++;\n    if (x == 5) {\n        printf("plain\\n");\n        return f(%(v)d);\n    }\n}\nprintf("after\\n");\n', 'return3': P + 'int f(int n) { if (n) return 3; return 4; }\nf(1);\n{\n    printf("plain\\n");\n    { return %(v)d; }\n}\nprintf("after\\n");\n',
    'syntax': P + 'printf("top\\n");\nint x = %(v)d +;\n', 'unreadable': P + 'printf("top\\n");\nint x = %(v)d;\n#include <no/such/header.h>\n', 'unreadable2': P + 'printf("top\\n");\n#if 1\nint x = %(v)d;\n',
}
GETOPT = '%(e)sopterr = 0;\n%(e)sprintf("index %%%%d\\n", optind);\n%(e)swhile ((c = getopt(argc, argv, "ab:vs:")) != -1) {\n%(e)s    printf("opt %%%%d", c);\n%(e)s    if (optarg != 0) {\n%(e)s        printf(" 0");\n%(e)s        for (j = 0; optarg[j] != 0; j++)\n%(e)s            printf(" %%%%d", optarg[j] & 255);\n%(e)s    }\n%(e)s    printf("\\n");\n%(e)s}\n%(e)sprintf("index %%%%d\\n", optind);\n%(e)sfor (i = optind; i < argc; i++) {\n%(e)s    printf("arg");\n%(e)s    for (j = 0; argv[i][j] != 0; j++)\n%(e)s        printf(" %%%%d", argv[i][j] & 255);\n%(e)s    printf("\\n");\n%(e)s}\n'
GETOPT_DECLS = P + 'int getopt(int, char **, const char *);\nextern int optind, opterr;\nextern char *optarg;\nint c, i, j;\n'
SCRIPTS['getopt'] = GETOPT_DECLS + GETOPT % {'e': ''} + 'return %(v)d;\n'
SCRIPTS['getopt2'] = GETOPT_DECLS + 'int main(int argc, char *argv[])\n{\n' + GETOPT % {'e': '    '} + '    return %(v)d;\n}\n'
INPUT = '#include <conf.h>\nCONF;\nint which(void);\nwhich();\n'
LIBS = ['libodd.so', 'libtwo.so.so', 'libone.so', 'two.so', 'libtwo.so', 'lib a  b.so', 'libthree.so.so', 'libm.so', 'odd', 'libq\'"$x.so']
DIRS = ['inc', 'in c', "q'd", 'empty', '$x', '-d', 'no']        # ('no' doesn't exist)
NAMES = ['%s.c', '%s', 'a b %s', "q'%s.c", '$%s', '-%s', '%s.so', '\xe9%s']


class World:
    def __init__(self, sc, r, n):
        self.dir = 'w%d' % n
        d = sc.path(self.dir)
        os.makedirs(d)
        self.libs = [{'name': codes(l), 'id': i + 1} for i, l in enumerate(LIBS)]
        self.dirs = []
        for i, x in enumerate(DIRS):
            conf = [] if x in ('empty', 'no') else [100 + i]
            if x != 'no':
                os.makedirs(os.path.join(d, x))
            if conf:
                sc.write(os.path.join(self.dir, x, 'conf.h'), '#define CONF %d\n' % conf[0])
            self.dirs.append({'name': codes(x), 'conf': conf})
        self.scripts, self.names = [], []
        for i, k in enumerate(sorted(SCRIPTS)):
            v = r.choice([0, 1, 2, 7, 77, 127, 128, 254, 255, 256, 257, 300, -1, -2, -255, 65535])
            name = r.choice(NAMES) % ('%s%d' % (k[0], i))
            sc.write(os.path.join(self.dir, name), SCRIPTS[k] % {'v': v})
            self.scripts.append({'name': codes(name), 'kind': k.rstrip('2345678'), 'value': v})
            self.names.append(name)

    def getopts(self):
        return [n for n, s in zip(self.names, self.scripts) if s['kind'] == 'getopt']

    def data(self):
        return {'libs': self.libs, 'dirs': self.dirs, 'scripts': self.scripts}


def codes(s):
    return list(s.encode('utf-8'))


def compile_libs(sc):
    for i, l in enumerate(LIBS):
        src = sc.write('lib%d.c' % i, '#include <unistd.h>\n__attribute__((constructor)) static void f(void) { write(1, "lib %d\\n", sizeof("lib %d\\n") - 1); }\nint which(void) { return %d; }\n' % (i + 1, i + 1, i + 1))
        r = engine.run(['gcc', '-shared', '-fPIC', '-o', sc.path('libs', l), src], sc)
        if r.rc:
            raise engine.ModelError('gcc: ' + r.err)


class Invocation:
    def __init__(self, id, world, argv):
        self.id, self.world, self.argv = id, world, argv

    def text(self):
        return 'bic ' + ' '.join(engine_quote(a) for a in self.argv) + '\n'

    def run(self, bic, sc, timeout=20, **kw):
        return engine.run([bic] + [a.encode('utf-8') for a in self.argv], sc, stdin=INPUT.encode(), cwd=sc.path(self.world.dir), timeout=timeout,
                          env={'LD_LIBRARY_PATH': sc.path('libs'), 'XDG_CONFIG_HOME': sc.path('home')})

    def table(self, trace):
        return {'id': self.id, 'argv': [codes(a) for a in self.argv], 'world': self.world.data(), 'trace': trace}

    def record(self, res):
        tr, err = [], res.err
        lines = res.out.split('\n')
        repl = 'BIC> ' in res.out
        vals = []
        for l in lines:
            if l.startswith('BIC> '):
                if ['repl'] not in tr:
                    tr.append(['repl'])
                continue
            if not l:
                continue
            m = re.match(r'^(lib|argc|conf|which|index) (\d+)$', l)
            if repl and re.match(r'^-?\d+$', l):
                tr.append([['conf', 'which'][len(vals)] if len(vals) < 2 else 'value', int(l)])
                vals.append(l)
            elif m:
                tr.append([m.group(1), int(m.group(2))])
            elif re.match(r'^arg( \d+)*$', l):
                tr.append(['arg', [int(x) for x in l.split()[1:]]])
            elif re.match(r'^opt( \d+)+$', l):
                ns = [int(x) for x in l.split()[1:]]
                tr.append(['opt', ns[0], ns[1:]])
            elif l in ('null', 'plain'):
                tr.append([l])
            elif repl and res.rc == 1 or l in ('Toplevel', 'Bultins', 'main', 'which', 'Constant Bindings'):
                pass                # of the backtrace
            elif not l.startswith('tree_'):
                tr.append(['text', codes(l)])
        for what, pat in (('nolib', r'^Error: could not open library '), ('usage', r'^Usage: '), ('version', r'^This is bic'), ('mix', r'contains a mix'), ('syntax', r'^Parser Error: ')):
            if re.search(pat, err, re.M):
                tr.append([what])
        if re.search(r'^digraph \w+ \{', err) and err.rstrip().endswith('}'):
            tr.append(['dump', 'dot'])
        elif re.search(r'^<chain', err, re.M) and err.rstrip().endswith('>'):
            tr.append(['dump', 'text'])
        elif err == '' and res.out == '' and 'T' in ''.join(self.argv):
            pass
        tr.append(['exit', res.rc])
        return tr


def engine_quote(a):
    import shlex
    return shlex.quote(a)


def words(w):
    """Words of command lines."""
    s = w.names
    return ['-v', '-T', '-D', '-TD', '-l', '-s', '-I', '--', '-', '-x', 'foo', '', '--help', '-vs', '-h', '-T-', '-l two', '-Iinc', '-Ts', '-DTs', '-lone', '-ltwo.so', '-lnope']


def pairs(w):
    """An option and its value, in one word or two."""
    opts = [('l', x) for x in ('one', 'two', 'two.so', 'libtwo.so', ' a  b', 'three.so', 'three', 'odd', 'libodd.so', 'libtwo.so.so', 'nope', 'm', 'libone.so', 'libm.so', 'q\'"$x', '')] + \
           [('I', x) for x in DIRS] + [('s', x) for x in w.names + ['missing', 'missing.c', '', 'empty']]
    return opts


def random_line(w, r):
    res = []
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    for i in range(n):
        k = r.random()
        if k < .22:
            res.append(r.choice(words(w)))
        else:
            o, v = r.choice(pairs(w)) if k < .75 else (r.choice('lI'), None)
            if v is None:
                v = r.choice([x for p, x in pairs(w) if p == o])
            pre = r.choice(['', '', '', '', 'T', 'D', 'TD', 'DT'])
            if o == 's' and i < n - 1 and r.random() < .6:
                o, v = 'I', r.choice(DIRS[:3])
            res += ['-%s%s%s' % (pre, o, v)] if r.random() < .4 else ['-%s%s' % (pre, o), v]
    if r.random() < .75:
        o, v = 's', r.choice(w.names if r.random() < .7 else w.getopts())
        res += ['-s' + v] if r.random() < .25 and v else ['-s', v]
        for _ in range(r.choice([0, 0, 1, 2, 3, 8])):
            res.append(r.choice(['-a', '-b', '-bx', '-vab', '-sa', '-ab', '-s', '-vx', '-a-', '--', '-b:', '-:', 'x', '-v-s']) if r.random() < .4 and v in w.getopts() else r.choice(words(w) + ['-s', 'x', 'a b', '\xe9', 'a\nb', "q'", '"', '\\', '-l', 'one', '%d', '$HOME', '*', 'x' * 300]))
    return res


def systematic(w):
    yield []
    for a in words(w):
        yield [a]
    for o, v in pairs(w):
        yield ['-' + o, v]
        if v:
            yield ['-' + o + v]
    for s in w.names:
        for pre in (['-T'], ['-T', '-D'], ['-D'], ['-I', 'inc', '-l', 'one'], ['-lnope'], ['-v'], ['foo'], ['foo', '-Iin c', 'bar', '-ltwo']):
            yield pre + ['-s', s, '-v', '-s', 'other', '-l', 'nope']
        yield ['-s', s] + ['-T', '-D']
        yield ['-lone', '-Iempty', '-I', "q'd", '-s', s]
        yield ['-s', s, '--', 'a', '']
    for s in w.getopts():
        for pre in ([], ['-lone'], ['-Iinc', '-l', 'two', 'foo']):
            for n in range(3):
                for a in itertools.product(['-a', '-b', 'x', '-vb', '-sv', '-', '--', ''], repeat=n):
                    yield pre + ['-s', s] + list(a)
    for a, b in itertools.product(['one', 'two', 'two.so', 'odd', 'three.so', 'nope', 'm'], repeat=2):
        yield ['-l', a, '-l' + b, '-I$x', '-Iinc']
    for a, b in itertools.product(DIRS, repeat=2):
        yield ['-I', a, '-I' + b, '-lodd']


def run(c):
    r = c.rng
    runs = []
    with Scratch() as sc:
        os.makedirs(sc.path('libs'))
        compile_libs(sc)
        worlds = [World(sc, r, i) for i in range(2 if c.quick else 12)]
        invs = []
        for w in worlds:
            ls = list(systematic(w))
            if w is not worlds[0]:
                ls = r.sample(ls, 60)
            ls += [random_line(w, r) for _ in range(350 if c.quick else 3000)]
            invs += [Invocation('i%d' % (len(invs) + i), w, l) for i, l in enumerate(ls)]
        res = engine.parallel(lambda p: (p, p.run(c.bic, sc), None), invs)
        c.runs += len(res)
        c.extra['command_lines'] = len(invs)
        c.extra['kinds_of_scripts'] = len(SCRIPTS)
        c.validate(res, lambda p: p.run(c.bic, sc, timeout=60), module='Cli', cfg=CFG, var='CASES')
