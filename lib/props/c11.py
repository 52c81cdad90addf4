"""C11: the text of programs: constants, character constants and string
literals (the specification computes what they denote from their spelling),
white space, comments, names, and the separation of tokens."""
from cprog import *
from arith import *
import cgen, ctext

I = b('int')
LONG, ULONG = b('long'), b('ulong')


class Text(Program):
    """A program with a text of its own."""

    def __init__(self, p, text):
        self.__dict__.update(p.__dict__)
        self._text = text

    def text(self):
        return self._text


def consts(c, r):
    """Integer constants in all bases: value and type."""
    ns = {0, 1, 7, 8, 9, 10, 15, 16, 63, 64, 99, 100, 255, 256, 511, 512, 65535, 65536, 123456789, 0xdeadbeef, 0xcafe, 0o755, 0x7fff0000, 0xabcdef, 0xABCDEF0123}
    for k in range(0, 65):
        ns |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    for _ in range(60 if c.quick else 3000):
        ns.add(r.getrandbits(r.randrange(1, 65)))
    texts = set()
    for n in ns:
        if n < 2 ** 63:
            texts.add('%d' % n)
        if n < 2 ** 64:
            texts |= {'0x%x' % n, '0%o' % n if n else '0'}
            if r.random() < .4:
                texts |= {'0x%X' % n, '0x%s%x' % ('0' * r.choice([1, 3, 9]), n), '0%s%o' % ('0' * r.choice([1, 2, 5]), n)}
            if r.random() < .3:
                texts.add('0x' + ''.join(r.choice([ch.lower(), ch.upper()]) for ch in '%x' % n))
    texts = sorted(texts)
    r.shuffle(texts)
    P = []
    x = id_('x')
    for i in range(0, len(texts), 24):
        ss = []
        for t in texts[i:i + 24]:
            n = num_(t)
            # the value; and what wraps or compares as unsigned
            ss.append(out(('lu', cast(ULONG, n)), ('ld', cast(LONG, bin_('-', bin_('-', lit(0), cast(I, lit(1))), bin_('-', n, n)))),
                          ('d', bin_('<', un('-', lit(1)), bin_('-', n, n))), ('d', bin_('>', bin_('-', bin_('-', n, n), lit(1)), lit(0)))))
            k = r.random()
            if k < .3:
                ss += [es(asg(x, n)), out(('lu', x))]
            elif k < .5:
                ss.append(out(('lu', cast(ULONG, bin_(r.choice(['>>', '&', '|', '^']), n, lit(r.choice([0, 1, 3])))))))
        P.append(Program('const%d' % (i // 24), [fndef('main', I, [], blk(decl(dr('x', ULONG)), *ss, ret(lit(0))))]))
    return P


def escapes(r):
    """All escape sequences: pairs of spelling and what may not follow it."""
    es_ = ['\\' + ch for ch in 'ntrabfv\\?"\'']
    for n in range(256):
        es_ += ['\\%o' % n, '\\%03o' % n] + (['\\%02o' % n] if n < 64 else [])
    return sorted(set(es_))


def chars(c, r):
    texts = ["'%s'" % chr(k) for k in range(32, 127) if chr(k) not in "'\\"] + ["'%s'" % e for e in escapes(r)]
    r.shuffle(texts)
    P = []
    x = id_('x')
    for i in range(0, len(texts), 60):
        ss = []
        for j in range(i, min(i + 60, len(texts)), 6):
            g = texts[j:j + 6]
            ss.append(out(*[('d', chr_(t)) for t in g]))
            t = r.choice(g)
            ss += [es(asg(x, chr_(t))), out(('d', x), ('d', bin_('+', chr_(t), lit(1))), ('d', bin_('==', x, chr_(t))), ('lu', szt(I)))]
        P.append(Program('char%d' % (i // 60), [fndef('main', I, [], blk(decl(dr('x', b('char'))), *ss, ret(lit(0))))]))
    return P


def strings(c, r):
    """String literals: every element, as an object and as an argument."""
    E = escapes(r)
    plain = [chr(k) for k in range(32, 127) if chr(k) not in '"\\']
    lits = [''] + [e for e in E] + plain + ['%', '%d', '%%', '//', '/* x */', "it's", ';', '}', '#include <x>', 'a\\\\', '\\\\n', '\\\\\\n', '\\"', 'x\\"y', '\\1234', '\\08', '\\18', '\\0001', '?', '\\?\\?(', '<REPL>']
    for _ in range(60 if c.quick else 3000):
        s = ''
        for _ in range(r.choice([1, 2, 5, 12, 40])):
            s += r.choice(E) if r.random() < .5 else r.choice(plain)
        lits.append(s)
    # trigraphs are not recognised by gcc -E without -std
    r.shuffle(lits)
    P = []
    p = id_('p')
    for i in range(0, len(lits), 12):
        top, ss = [], []
        for j, t in enumerate(lits[i:i + 12]):
            k = r.random()
            ss.append(es(asg(p, strt(t))))
            # elements up to the end of the longest possible spelling
            n = 0
            s = t
            # as the specification computes the elements, the number of them is all that's needed here
            import re
            n = len(re.findall(r'\\[0-7]{1,3}|\\.|.', t, re.S))
            ns = list(range(n + 1))
            for q in range(0, len(ns), 8):
                ss.append(out(*[('d', idx(p, lit(z))) for z in ns[q:q + 8]]))
            if k < .4:
                f = 'f%d' % j
                top.append(fndef(f, I, [('s', ('p', b('char')))], blk(decl(dr('n', I, lit(0))), while_(idx(id_('s'), id_('n')), es(inc(id_('n')))), ret(id_('n')))))
                ss.append(out(('d', call(f, strt(t)))))
            elif k < .6:
                ss.append(out(('d', deref(p)), ('d', deref(bin_('+', p, lit(n))))))
        P.append(Program('str%d' % (i // 12), top + [fndef('main', I, [], blk(decl(dr('p', ('p', b('char')))), *ss, ret(lit(0))))]))
    # long ones
    for n in (1000, 9000) if c.quick else (1000, 9000, 17000, 70000):
        t = ''.join(r.choice('abcdefgh \\').replace('\\', '\\n') for _ in range(n))
        m = len(t) - t.count('\\n')
        P.append(Program('long%d' % n, [fndef('main', I, [], blk(decl(dr('p', ('p', b('char')), st(t.replace('\\n', '\n')))), out(*[('d', idx(p, lit(z))) for z in sorted(r.sample(range(m), 6)) + [m - 1, m]]), ret(lit(0))))]))
    return P


def floats(c, r):
    """Floating point constants that are multiples of 1/1024."""
    P = []
    cases = []
    for _ in range(60 if c.quick else 2000):
        n = r.choice([r.randrange(0, 5000), r.getrandbits(20), r.getrandbits(31)])
        f = r.randrange(0, 1024)
        sc = n * 1024 + f
        frac = '%d' % (f * 10 ** 10 // 1024)
        frac = frac.zfill(10).rstrip('0') or '0'
        text = '%d.%s' % (n, frac) + r.choice(['', '0', '00'])
        if r.random() < .2:
            text = '0' + text
        cases.append((text, sc))
    for i in range(0, len(cases), 15):
        ss = []
        for t, sc in cases[i:i + 15]:
            ss += [es(asg(id_('x'), flt(t, sc))), es(asg(id_('n'), id_('x'))), out(('ld', id_('n')), ('ld', cast(LONG, flt(t, sc)))), es(asg(id_('y'), flt(t, sc)))]
            if sc < 2 ** 24:
                ss += [out(('f', cast(b('double'), flt(t, sc))))] if 0 else []
        P.append(Program('float%d' % (i // 15), [fndef('main', I, [], blk(decl(dr('x', b('double')), dr('y', b('double'))), decl(dr('n', LONG)), *ss, ret(lit(0))))]))
    return P


def layouts(c, r, n):
    """Random programs in other spacing and with other names."""
    P = []
    for i in range(n):
        p = cgen.program(r, 'text%d' % i, types=INTS, nglob=2, nfn=2, nstm=10, depth=3,
                         feats=('decl', 'if', 'loop', 'block', 'break', 'ret', 'call', 'array', 'ptr', 'struct'))
        t = p.text()
        if r.random() < .6:
            t = ctext.rename(t, r, keep=('main', 'printf'))
        style = ['tight', 'lines', 'comments', 'blank', 'mixed'][i % 5]
        P.append(Text(p, ctext.respace(t, r, style)))
    return P


def munch(c, r):
    """Expressions that depend on how operators are separated."""
    a, b_, p, q = id_('a'), id_('b'), id_('p'), id_('q')
    E = []
    at = [lambda: a, lambda: b_, lambda: deref(p), lambda: inc(a), lambda: inc(b_, -1), lambda: inc(a, 1, True), lambda: inc(b_, -1, True), lambda: un('-', a), lambda: un('-', un('-', b_)), lambda: un('~', un('~', a)), lambda: un('!', un('!', b_)),
          lambda: un('-', inc(b_, -1, True)), lambda: lit(3), lambda: inc(deref(p), 1), lambda: deref(q) if 0 else deref(p), lambda: idx(p, lit(0)), lambda: un('!', un('-', a)), lambda: un('-', lit(5)), lambda: un('~', un('-', a))]
    ops = ['+', '-', '*', '/', '%', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '<<', '>>']
    for x in range(len(at)):
        for y in range(len(at)):
            for op in (ops if not c.quick else r.sample(ops, 4) + ['+', '-', '&']):
                E.append((op, x, y))
    r.shuffle(E)
    E = E[:400 if c.quick else len(E)]
    P = []
    for i in range(0, len(E), 20):
        ss = []
        for op, x, y in E[i:i + 20]:
            # a and b must not be used twice where one of them changes
            l, rr = at[x](), at[y]()
            used = lambda e: set(re_ids(render(e)))
            ul, ur = used(l), used(rr)
            if 'p' in ul:
                ul |= {'a'}
            if 'p' in ur:
                ur |= {'a'}
            if ul & ur and ('inc' in kinds(l) or 'inc' in kinds(rr)):
                continue
            ss += [es(asg(a, lit(r.choice([0, 1, 7, 13])))), es(asg(b_, lit(r.choice([1, 2, 5]))))]
            e = bin_(op, l, rr)
            k = r.random()
            if k < .3:
                e = cond(bin_('>', e, lit(0)), e if not ('inc' in kinds(e)) else lit(4), un('-', lit(1)))
            elif k < .5:
                e = land(e, addr(a))
            elif k < .6:
                e = bin_('-', e, un('-', un('-', lit(1))))
            ss.append(out(('ld', cast(LONG, e))))
            ss.append(out(('d', a), ('d', b_)))
            k = r.choice(['+', '-', '/', '<<', '>>', '^'])
            ss += [es(casg(k, a, un('-', lit(1)) if k in '+-' else lit(1))), out(('d', a))]
        pr = Program('munch%d' % (i // 20), [fndef('main', I, [], blk(decl(dr('a', I, lit(1)), dr('b', I, lit(1)), dr('p', ('p', I), addr(a))), *ss, ret(lit(0))))])
        P.append(Text(pr, ctext.respace(pr.text(), r, 'tight' if i % 40 else 'mixed')))
    return P


def re_ids(t):
    import re
    return [x for x in re.findall(r'[A-Za-z_]\w*', t) if x not in ('long', 'int')]


def kinds(e):
    s = {e.k}
    for f in ('a', 'b', 'c'):
        x = getattr(e, f, None)
        if isinstance(x, Node):
            s |= kinds(x)
    return s


def run(c):
    r = c.rng
    c.check(consts(c, r) + chars(c, r) + strings(c, r) + floats(c, r) + munch(c, r) + layouts(c, r, 40 if c.quick else 800))
