"""C12: external functions and variables: a part of each program is a shared
library that gcc has compiled, bic executes the rest.  The specification
executes the whole program, it doesn't know the border."""
import itertools
from cprog import *
from arith import *
import cgen

I = b('int')
D, F = b('double'), b('float')
CH = b('char')
V = b('void')
ALL = INTS + ['schar', 'llong', 'ullong']
FM = dict(FMT, float='f', double='f')
CSTR = ('p', b('char', 'const char'))


def fp(rt, *ps): return ('p', ('fn', rt, list(ps)))


def rows(fa, n=8):
    return [out(*fa[i:i + n]) for i in range(0, len(fa), n)] or [out()]


def dyadic(r, t='double'):
    """A number that %f shows exactly, and its text."""
    sc = r.choice([0, 512, 1024, 1536, r.randrange(0, 1 << (14 if t == 'float' else 30)) * 16, r.randrange(0, 4000) * 1024])
    return flt('%d.%s' % (sc // 1024, ('%.6f' % ((sc % 1024) / 1024)).split('.')[1]), sc), sc


def style(r):
    """How a script declares the contents of a library."""
    def dec(s):
        ls = stmt_decl(s, extern=r.random() < .5, names=r.random() < .5)
        if ls and r.random() < .15:
            ls = ls + ls                # more than once
        return ls
    return dec


class Libc(LibProgram):
    """Functions of the C library: the specification has definitions of its
    own of what bic finds in the real one."""

    def prepare(self, sc): return []


# ------------------------------------------------------------- signatures
class Caller:
    """Arguments of all forms for parameters of all types."""

    def __init__(self, r):
        self.r = r
        self.pre = []
        self.n = 0

    def name(self):
        self.n += 1
        return 'v%d' % self.n

    def var(self, te, e):
        n = self.name()
        self.pre.append(decl(dr(n, te, e)))
        return id_(n)

    def integer(self, t, wide=True):
        """An argument for an integer parameter of type t."""
        r = self.r
        q = r.random()
        v = r.choice(values(t, True)) if r.random() < .7 else r.randint(lo(t), hi(t))
        if q < .25:
            return literal(v, t) if t in INTS else cast(b(t), lit_any(v))
        if q < .55:
            return self.var(b(t), lit_any(v))
        if q < .75:     # of another type: it's converted
            u = r.choice(INTS)
            return self.var(b(u), lit_any(r.choice(values(u, True))))
        if q < .8:
            e, sc = dyadic(r)
            return e if sc // 1024 <= hi(t) else lit(1)
        if q < .85:
            k = r.randrange(0, 120)
            return self.var(b(r.choice(['float', 'double'])), flt('%d.5' % k, k * 1024 + 512))
        if q < .9:
            n = self.name()
            self.pre += [decl(dr(n, ('a', b(t), 3))), es(asg(idx(id_(n), lit(1)), lit_any(v)))]
            return idx(id_(n), lit(1))
        if q < .95:
            return bin_('+', cast(b('uint'), self.integer('uint')), lit(1))
        x = self.var(b(t), lit_any(v))
        return deref(self.var(('p', b(t)), addr(x)))

    def floating(self, t):
        r = self.r
        q = r.random()
        e, sc = dyadic(r, 'float')
        if q < .35:
            return e
        if q < .75:
            return self.var(b(r.choice(['float', 'double'])), e)
        if q < .9:
            return self.var(b(r.choice(['char', 'short', 'int', 'uchar'])), lit(r.randrange(-90, 120) if r.random() < .5 else 7))
        return lit(r.randrange(0, 100))

    def arg(self, p):
        if p == 'str':
            s = ''.join(self.r.choice('abcxyz 019') for _ in range(self.r.randrange(0, 9)))
            return st(s) if self.r.random() < .6 else self.var(('p', CH), st(s))
        if p == 'ptr':
            return addr(self.var(I, lit(self.r.randrange(100)))) if self.r.random() < .8 else self.var(('p', I), addr(self.var(I, lit(5))))
        if p in ('float', 'double'):
            return self.floating(p)
        return self.integer(p)


def te_of(p):
    return {'str': CSTR, 'ptr': ('p', I)}.get(p) or b(p)


def signatures(c, r):
    progs = []
    for i in range(26 if c.quick else 300):
        lib, body = [decl(dr('seen', b('ulong')))], []
        for j in range(6):
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 32]) if i % 3 else r.randrange(1, 7)
            kind = r.choice(['int', 'flt', 'mix', 'all', 'one'])
            one = r.choice(ALL + ['float', 'double'])
            pick = {'int': lambda: r.choice(ALL), 'flt': lambda: r.choice(['float', 'double']), 'one': lambda: one,
                    'mix': lambda: r.choice(['int', 'double', 'float', 'long']), 'all': lambda: r.choice(ALL + ['float', 'double', 'str', 'ptr'])}[kind]
            ps = [pick() for _ in range(n)]
            rt = r.choice(ALL + ['float', 'double', 'void'])
            f = 'f%d' % j
            h = lit(j)
            for k, p in enumerate(ps):
                if p in WIDTH:
                    h = bin_('+', bin_('*', h, cast(b('ulong'), lit(31))), cast(b('ulong'), id_('p%d' % k)))
            ss = rows([({'str': 's', 'ptr': 'd'}.get(p) or FM[p], deref(id_('p%d' % k)) if p == 'ptr' else id_('p%d' % k)) for k, p in enumerate(ps)])
            ss += [es(asg(deref(id_('p%d' % k)), lit(k + 50))) for k, p in enumerate(ps) if p == 'ptr']
            ss += [es(asg(id_('seen'), h))]
            if rt in ('float', 'double'):
                fl = [k for k, p in enumerate(ps) if p in ('float', 'double')]
                ss += [ret(id_('p%d' % r.choice(fl)) if fl else flt('%d.25' % j, j * 1024 + 256))]
            elif rt != 'void':
                ss += [ret(id_('seen'))]
            lib.append(fndef(f, b(rt), [('p%d' % k, te_of(p)) for k, p in enumerate(ps)], blk(*ss)))
            for _ in range(2):
                k = Caller(r)
                args = [k.arg(p) for p in ps]
                e = call(f, *args)
                if rt == 'void':
                    use = [es(e)]
                elif r.random() < .5:
                    use = [out((FM[rt], e))]
                else:
                    w = rt if rt in ('float', 'double') or r.random() < .5 else r.choice(INTS)
                    use = [decl(dr('res', b(w), e)), out((FM[w], id_('res')))]
                # the arguments are still what they were, except through pointers
                left = [(FM[d.ds[0].te[1]], id_(d.ds[0].n)) for d in k.pre if d.k == 'decl' and d.ds[0].te[0] == 'b']
                body.append(blk(*k.pre, *use, out(('lu', id_('seen'))), *rows(left)))
        progs.append(LibProgram('sig%d' % i, [], lib, [fndef('main', I, [], blk(*body, ret(lit(0))))], declare=style(r)))
    return progs


# -------------------------------------------------------------- variadics
def variadics(c, r):
    progs = []
    for i in range(8 if c.quick else 80):
        # vf(n, kinds, ...): fetches and shows n arguments, as the string says
        K, N_, X = id_('kinds'), id_('n'), id_('i')
        kinds = [('i', 'int'), ('u', 'uint'), ('l', 'long'), ('L', 'ulong'), ('d', 'double')]
        tests = None
        for ch, t in kinds:
            s = out((FM[t], vaarg(b(t))))
            tests = if_(bin_('==', idx(K, X), lit(ord(ch))), s, tests)
        tests = if_(bin_('==', idx(K, X), lit(ord('s'))), out(('s', vaarg(('p', CH)))), tests)
        tests = if_(bin_('==', idx(K, X), lit(ord('p'))), blk(decl(dr('q', ('p', I), vaarg(('p', I)))), out(('d', deref(id_('q')))), es(asg(deref(id_('q')), lit(99)))), tests)
        lib = [fndef('vf', I, [('n', I), ('kinds', CSTR)], blk(
            for_(decl(dr('i', I, lit(0))), idx(K, X), inc(X), tests), ret(N_)), va=True),
            fndef('vd', D, [('base', D)], blk(decl(dr('k', I, vaarg(I))), while_(k_dec(id_('k')), es(asg(id_('base'), vaarg(D)))), ret(id_('base'))), va=True),
            fndef('vl', b('long'), [('a', b('char')), ('b', b('ushort')), ('f', F)], blk(out(('d', id_('a')), ('d', id_('b')), ('f', id_('f'))), ret(vaarg(b('long')))), va=True)]
        body = []
        for _ in range(10):
            k = Caller(r)
            sel = [r.choice('iuldLspihcCHfdd') for _ in range(r.randrange(0, 12))]
            args, codes = [], ''
            for s in sel:
                if s in 'hcCH':         # promoted to int
                    t = {'h': 'short', 'c': 'char', 'C': 'uchar', 'H': 'ushort'}[s]
                    args.append(k.var(b(t), lit_any(r.choice(values(t, True)))))
                    codes += 'i'
                elif s == 'f':          # promoted to double
                    args.append(k.var(F, dyadic(r, 'float')[0]))
                    codes += 'd'
                elif s == 'd':
                    args.append(k.var(D, dyadic(r)[0]) if r.random() < .5 else dyadic(r)[0])
                    codes += 'd'
                elif s in 'sp':
                    args.append(k.arg('str' if s == 's' else 'ptr'))
                    codes += s
                else:
                    t = dict(kinds)[s]
                    v = r.choice(values(t, True))
                    args.append(r.choice([lambda: k.var(b(t), lit_any(v)), lambda: literal(v, t), lambda: cast(b(t), lit_any(v))])())
                    codes += s
            body.append(blk(*k.pre, out(('d', call('vf', lit(len(sel)), st(codes), *args))),
                            *[out((FM[d.ds[0].te[1]], id_(d.ds[0].n))) for d in k.pre if d.ds[0].te[0] == 'b']))
        body += [out(('f', call('vd', flt('0.5', 512), lit(2), flt('1.5', 1536), flt('2.5', 2560))), ('f', call('vd', lit(3), lit(0)))),
                 out(('ld', call('vl', lit(300), lit(-1), lit(2), cast(b('long'), lit(-7)))))]
        progs.append(LibProgram('va%d' % i, [], lib, [fndef('main', I, [], blk(*body, ret(lit(0))))], declare=style(r)))
    return progs


def k_dec(e): return inc(e, -1)


# -------------------------------------------------------------- callbacks
def callbacks(c, r):
    progs = []
    P = lambda pid, shared, lib, *top: progs.append(LibProgram(pid, shared, lib, list(top), declare=style(r)))
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    X, Y, N_ = id_('x'), id_('y'), id_('n')
    # every type as a parameter and as a result; more parameters than registers
    for i in range(10 if c.quick else 120):
        lib, top, body = [decl(dr('calls', I))], [], [ ]
        for j in range(5):
            n = r.choice([0, 1, 2, 3, 5, 7, 9, 12])
            ps = [r.choice(ALL + ['float', 'double']) for _ in range(n)]
            rt = r.choice(ALL + ['float', 'double', 'void'])
            T = fp(b(rt), *[b(p) for p in ps])
            g, cb = 'g%d' % j, 'cb%d' % j
            k = Caller(r)
            args = [k.arg(p) for p in ps]
            e = call('f', *args)
            h = lit(j + 3)
            for m, p in enumerate(ps):
                if p in WIDTH:
                    h = bin_('+', bin_('*', h, cast(b('ulong'), lit(29))), cast(b('ulong'), id_('p%d' % m)))
            fl = [m for m, p in enumerate(ps) if p in ('float', 'double')]
            res = [] if rt == 'void' else [ret(id_('p%d' % r.choice(fl)) if fl else lit(j + 2))] if rt in ('float', 'double') else [ret(h)]
            lib.append(fndef(g, I, [('f', T)], blk(*k.pre, es(inc(id_('calls'))), *([es(e)] if rt == 'void' else [out((FM[rt], e))]), ret(id_('calls')))))
            top.append(fndef(cb, b(rt), [('p%d' % m, b(p)) for m, p in enumerate(ps)], blk(
                *rows([(FM[p], id_('p%d' % m)) for m, p in enumerate(ps)]), *res)))
            body += [out(('d', call(g, addr(id_(cb)))))]
            body += [blk(decl(dr('q', T, addr(id_(cb)))), out(('d', call(g, id_('q')))))]
        P('cb%d' % i, [], lib, *top, main(*body, out(('d', id_('calls')))))
    FI = fp(I, I)
    # the library keeps the pointer; recursion over the border; functions of the
    # library as callbacks of the library and of the script
    tfi = [tdef('fi', FI)]
    TFI = ('td', 'fi')
    P('kept', tfi, [decl(dr('cur', TFI)), fndef('set', V, [('f', TFI)], blk(es(asg(id_('cur'), id_('f'))))), fndef('get', TFI, [], blk(ret(id_('cur')))),
                    fndef('run', I, [('x', I)], blk(ret(cond(id_('cur'), call('cur', X), lit(-1))))), fndef('dbl', I, [('x', I)], blk(ret(bin_('*', X, lit(2)))))],
      decl(dr('n', I)), fndef('a', I, [('x', I)], blk(es(inc(N_)), ret(bin_('+', X, N_)))), fndef('bb', I, [('x', I)], blk(ret(bin_('-', X, N_)))),
      main(out(('d', call('run', lit(3)))), es(call('set', addr(id_('a')))), out(('d', call('run', lit(3)))), out(('d', call('run', lit(4)))), es(call('set', addr(id_('bb')))),
           out(('d', call('run', lit(9)))), es(call('set', addr(id_('dbl')))), out(('d', call('run', lit(9)))), decl(dr('p', TFI)), es(asg(id_('p'), call('get'))),
           out(('d', call('p', lit(8))), ('d', bin_('==', id_('p'), call('get')))), es(call('set', addr(id_('a')))), es(asg(id_('p'), call('get'))),
           out(('d', call('p', lit(8))), ('d', bin_('==', id_('p'), addr(id_('a')))), ('d', bin_('==', id_('p'), addr(id_('bb'))))),
           es(asg(id_('cur'), addr(id_('bb')))), out(('d', call('run', lit(1)))), out(('d', call('cur', lit(5))))))
    P('deep', tfi, [fndef('down', I, [('f', fp(I, I, I)), ('x', I), ('y', I)], blk(if_(bin_('<=', X, lit(0)), ret(Y)), ret(call('f', bin_('-', X, lit(1)), bin_('+', Y, X)))))],
      fndef('up', I, [('x', I), ('y', I)], blk(decl(dr('k', I, bin_('*', X, lit(10)))), decl(dr('m', I, call('down', addr(id_('up')), X, Y))), out(('d', X), ('d', Y), ('d', id_('k'))), ret(id_('m')))),
      main(out(('d', call('up', lit(9), lit(0)))), out(('d', call('down', addr(id_('up')), lit(20), lit(5))))))
    # iteration with a callback; the callback changes and calls everything
    P('each', [], [fndef('each', V, [('a', ('p', I)), ('n', I), ('f', fp(V, ('p', I), I))], blk(for_(decl(dr('i', I, lit(0))), bin_('<', id_('i'), N_), inc(id_('i')), es(call('f', bin_('+', id_('a'), id_('i')), id_('i')))))),
                   fndef('fold', b('long'), [('a', ('p', I)), ('n', I), ('x', b('long')), ('f', fp(b('long'), b('long'), I))], blk(while_(inc(N_, -1), es(asg(X, call('f', X, deref(inc(id_('a'))))))), ret(X)))],
      decl(dr('sum', I)), fndef('sq', V, [('p', ('p', I)), ('i', I)], blk(es(asg(deref(id_('p')), bin_('*', id_('i'), id_('i')))))),
      fndef('add', V, [('p', ('p', I)), ('i', I)], blk(es(casg('+', id_('sum'), deref(id_('p')))))),
      fndef('mix', b('long'), [('x', b('long')), ('k', I)], blk(ret(bin_('+', bin_('*', X, lit(3)), id_('k'))))),
      fndef('row', V, [('p', ('p', I)), ('i', I)], blk(decl(dr('q', ('a', I, 3))), es(call('each', id_('q'), lit(3), addr(id_('sq')))), es(asg(deref(id_('p')), bin_('+', idx(id_('q'), lit(2)), id_('i')))))),
      main(decl(dr('v', ('a', I, 6)), dr('i', I)), es(call('each', id_('v'), lit(6), addr(id_('sq')))), es(call('each', id_('v'), lit(6), addr(id_('add')))), out(('d', id_('sum'))),
           out(('ld', call('fold', id_('v'), lit(6), lit(1), addr(id_('mix'))))), es(call('each', id_('v'), lit(4), addr(id_('row')))),
           for_(es(asg(id_('i'), lit(0))), bin_('<', id_('i'), lit(6)), inc(id_('i')), out(('d', idx(id_('v'), id_('i')))))))
    # many functions of one type: which is called?
    fns = [fndef('m%d' % i, I, [('x', I)], blk(out(('d', lit(i))), ret(bin_('+', X, lit(100 * i))))) for i in range(12)]
    order = [r.randrange(12) for _ in range(30)]
    P('many', tfi, [decl(dr('tab', ('a', TFI, 12))), fndef('put', V, [('k', I), ('f', TFI)], blk(es(asg(idx(id_('tab'), id_('k')), id_('f'))))), fndef('at', I, [('k', I), ('x', I)], blk(ret(call(idx(id_('tab'), id_('k')), X))))],
      *fns, main(*[es(call('put', lit((i * 5) % 12), addr(id_('m%d' % i)))) for i in range(12)], *[out(('d', call('at', lit(k), lit(j)))) for j, k in enumerate(order)]))
    # structures through pointers in callbacks
    SH = [sudef('struct', 'pt', [('x', CH), ('y', b('long')), ('t', ('a', b('short'), 3)), ('f', F)])]
    SP = ('p', ('tag', 'struct pt'))
    P('structs', SH, [fndef('mk', V, [('p', SP), ('k', I)], blk(es(asg(arrow(id_('p'), 'x'), id_('k'))), es(asg(arrow(id_('p'), 'y'), bin_('*', id_('k'), lit(100)))), es(asg(idx(arrow(id_('p'), 't'), lit(1)), bin_('-', id_('k'), lit(1)))), es(asg(arrow(id_('p'), 'f'), id_('k'))))),
                      fndef('with', b('long'), [('k', I), ('f', fp(b('long'), SP))], blk(decl(dr('s', ('tag', 'struct pt'))), es(call('mk', addr(id_('s')), id_('k'))), decl(dr('res', b('long'), call('f', addr(id_('s'))))), ret(bin_('+', id_('res'), mem(id_('s'), 'x'))))),
                      fndef('pick', SP, [('a', SP), ('k', I)], blk(ret(bin_('+', id_('a'), id_('k')))))],
      fndef('show', b('long'), [('p', SP)], blk(out(('d', arrow(id_('p'), 'x')), ('ld', arrow(id_('p'), 'y')), ('d', idx(arrow(id_('p'), 't'), lit(1))), ('f', arrow(id_('p'), 'f'))), es(asg(arrow(id_('p'), 'x'), lit(5))), ret(bin_('*', arrow(id_('p'), 'y'), lit(2))))),
      main(out(('ld', call('with', lit(7), addr(id_('show'))))), decl(dr('v', ('a', ('tag', 'struct pt'), 3))), *[es(call('mk', addr(idx(id_('v'), lit(k))), lit(k + 3))) for k in range(3)],
           *[out(('ld', call('show', call('pick', id_('v'), lit(k))))) for k in range(3)], *[out(('d', mem(idx(id_('v'), lit(k)), 'x')), ('d', arrow(call('pick', id_('v'), lit(k)), 'x'))) for k in range(3)],
           es(asg(arrow(call('pick', id_('v'), lit(2)), 'y'), lit(-4))), out(('ld', mem(idx(id_('v'), lit(2)), 'y')))))
    # pointers to functions that the library has and functions of it that return them
    HT = fp(I, I)
    for k in range(2 if c.quick else 10):
        m, q = r.randrange(2, 5), r.randrange(2, 9)
        P('handlers%d' % k, [], [fndef('dbl', I, [('x', I)], blk(ret(bin_('*', X, lit(q))))), decl(dr('hook', HT)), decl(dr('tab', ('a', HT, m))),
                               fndef('swap', HT, [('f', HT)], blk(decl(dr('was', HT, id_('hook'))), es(asg(id_('hook'), id_('f'))), ret(id_('was')))),
                               fndef('slot', ('p', HT), [('k', I)], blk(ret(addr(idx(id_('tab'), id_('k')))))),
                               fndef('fire', I, [('x', I)], blk(decl(dr('t', I, lit(0))), decl(dr('k', I)), for_(es(asg(id_('k'), lit(0))), bin_('<', id_('k'), lit(m)), inc(id_('k')), blk(if_(idx(id_('tab'), id_('k')), es(casg('+', id_('t'), call(idx(id_('tab'), id_('k')), X)))))), ret(bin_('+', id_('t'), call('hook', X)))))],
          fndef('neg', I, [('x', I)], blk(ret(bin_('-', lit(q), X)))), fndef('mine', HT, [('k', I)], blk(if_(id_('k'), ret(addr(id_('neg')))), ret(addr(id_('dbl'))))),
          main(es(asg(id_('hook'), addr(id_('dbl')))), out(('d', call('hook', lit(4))), ('d', call('fire', lit(3)))), *[s for j in r.sample(range(m), r.randrange(1, m)) for s in (
                   es(asg(idx(id_('tab'), lit(j)), call('mine', lit(r.randrange(2))))), out(('d', call('fire', lit(j + 2))), ('d', call(idx(id_('tab'), lit(j)), lit(6)))))],
               out(('d', call(call('swap', addr(id_('neg'))), lit(7))), ('d', call('hook', lit(7))), ('d', call('fire', lit(1)))),
               es(asg(deref(call('slot', lit(0))), call('swap', call('mine', lit(0))))), out(('d', call(deref(call('slot', lit(0))), lit(9))), ('d', call(idx(id_('tab'), lit(0)), lit(9))), ('d', bin_('==', idx(id_('tab'), lit(0)), addr(id_('neg')))), ('lu', sze(id_('tab'))), ('lu', sze(id_('hook'))))))
    # parameters of all kinds behind a pointer
    SQ = [tdef('uc', b('uchar')), tdef('up', ('p', ('td', 'uc'))), tdef('fi', FI), tdef('ua', ('a', b('short'), 2)), SH[0]]
    KP = [('s', SP), ('k', ('td', 'uc')), ('p', ('td', 'up')), ('f', TFI), ('g', fp(I, ('p', ('td', 'uc')), TFI)), ('x', b('short')), ('a', ('a', ('td', 'uc'), r.choice([0, 2, 7]))), ('z', ('td', 'ua')), ('h', ('fn', I, [I])), ('y', b('llong'))]
    KT = fp(b('llong'), *[t for _, t in KP])
    kb = blk(out(('d', arrow(id_('s'), 'x')), ('d', id_('k')), ('d', deref(id_('p'))), ('d', call('f', lit(4))), ('d', call('g', id_('p'), id_('f'))), ('d', X), ('d', idx(id_('a'), lit(0))), ('lu', sze(id_('a'))), ('lu', sze(id_('z'))), ('d', idx(id_('z'), lit(1))), ('d', call('h', lit(6)))), es(inc(deref(id_('p')))), es(casg('-', idx(id_('z'), lit(1)), lit(5))), es(inc(id_('z'))), es(inc(deref(id_('z')))),
             ret(bin_('+', bin_('*', id_('k'), lit(1000)), bin_('+', id_('y'), call('f', X)))))
    kargs = lambda f, g: [addr(id_('s')), lit(r.randrange(200, 256)), addr(id_('c')), f, g, lit(r.randrange(-99, 99)), addr(id_('c')), id_('zz'), addr(id_(r.choice(['l2', 's2']))), lit(r.randrange(-2**60, 2**60))]
    P('params', SQ, [fndef('lk', b('llong'), KP, kb), fndef('l2', I, [('x', I)], blk(ret(bin_('*', X, lit(2))))), fndef('ap', I, [('p', ('p', ('td', 'uc'))), ('f', TFI)], blk(ret(call('f', deref(id_('p')))))),
                     fndef('via', b('llong'), [('hh', KT), *KP], blk(ret(call('hh', *[id_(n) for n, _ in KP]))))],
      fndef('sk', b('llong'), KP, kb), fndef('s2', I, [('x', I)], blk(ret(bin_('*', X, lit(3))))), fndef('aq', I, [('p', ('p', ('td', 'uc'))), ('f', TFI)], blk(ret(call('f', bin_('+', deref(id_('p')), lit(1)))))),
      main(decl(dr('s', ('tag', 'struct pt'))), decl(dr('c', ('td', 'uc'), lit(7))), decl(dr('q', KT)), decl(dr('zz', ('td', 'ua'))), es(asg(idx(id_('zz'), lit(1)), lit(77))), es(asg(idx(id_('zz'), lit(0)), lit(7))), es(asg(mem(id_('s'), 'x'), lit(3))),
           *[s for f in ('lk', 'sk') for _ in range(3) for s in (out(('ld', call('via', addr(id_(f)), *kargs(addr(id_(r.choice(['l2', 's2']))), addr(id_(r.choice(['ap', 'aq']))))))),
             es(asg(id_('q'), addr(id_(f)))), out(('ld', call('q', *kargs(addr(id_(r.choice(['l2', 's2']))), addr(id_(r.choice(['ap', 'aq']))))))), out(('d', id_('c')), ('d', idx(id_('zz'), lit(1)))))]))
    # the end of the program
    AT = lambda f: es(ext('atexit', 'atexit', I, [fp(V)], addr(id_(f))))
    EXIT = lambda e: es(ext('exit', 'exit', V, [I], e))
    H = PRINTF + '\nint atexit(void (*f)(void));\nvoid exit(int);'
    H2 = PRINTF + '\n#include <stdlib.h>'
    for i in range(6 if c.quick else 40):
        names = ['h%d' % k for k in range(r.randrange(1, 5))]
        fs = [fndef(n, V, [], blk(out(('d', lit(k))), es(inc(id_('left'), -1)), out(('d', id_('left'))))) for k, n in enumerate(names)]
        regs = [AT(r.choice(names)) for _ in range(r.randrange(1, 7))]
        code = r.choice([0, 1, 3, 200, 256, -1])
        end = r.choice([ret(lit(code)), EXIT(lit(code)), if_(lit(1), blk(while_(lit(1), EXIT(lit(code))))), es(call('leave', lit(3)))])
        t = [decl(dr('left', I, lit(len(regs)))), *fs, fndef('leave', I, [('k', I)], blk(if_(id_('k'), ret(call('leave', bin_('-', id_('k'), lit(1))))), EXIT(lit(code)), out(('d', lit(1))), ret(lit(2)))),
             main(out(('d', lit(7))), *regs, out(('d', lit(8))), end)]
        progs.append(Program('atexit%d' % i, t, header=H if i % 2 else H2))
    return progs


# ------------------------------------------------------ external variables
def variables(c, r):
    progs = []
    for i in range(10 if c.quick else 100):
        SH = [sudef('struct', 'in', [('c', CH), ('d', D)]),
              sudef('struct', 'rec', [('a', b(r.choice(INTS))), ('b', b(r.choice(INTS))), ('v', ('a', b(r.choice(INTS)), 3)), ('n', ('tag', 'struct in')), ('p', ('p', I))]),
              sudef('union', 'un', [('l', b('long')), ('i', I), ('c', b('uchar'))])]
        lib, dump, poke, see, setv = [], [], [], [], []
        for k in range(7):
            t = r.choice(ALL + ['float', 'double'])
            n = 'x%d' % k
            v = r.choice(values(t, True)) if t in WIDTH else None
            init = None if r.random() < .3 else lit_any(v) if t in WIDTH else dyadic(r, 'float')[0]
            lib.append(decl(dr(n, b(t), init)))
            see.append((FM[t], id_(n)))
            w = lambda: lit_any(r.choice(values(t, True))) if t in WIDTH else dyadic(r, 'float')[0]
            poke.append(es(asg(id_(n), w())))
            setv.append(es(asg(id_(n), w())))
            if t in WIDTH:
                setv.append(es(casg('+', id_(n), cast(b('uint'), lit(1))) if not SIGNED[t] else asg(id_(n), lit(k))))
        ta = r.choice(INTS)
        m = r.randrange(2, 6)
        lib += [decl(dr('arr', ('a', b(ta), m))), decl(dr('ptr', ('p', b(ta)))), decl(dr('str', ('p', CH), st('text%d' % i))), decl(dr('rec', ('tag', 'struct rec'))), decl(dr('un', ('tag', 'union un'))),
                decl(dr('recp', ('p', ('tag', 'struct rec')), addr(id_('rec')))), decl(dr('tgt', I, lit(77)))]
        R = id_('rec')
        tb = {x[0]: x[1] for x in SH[1].ms}
        see += [(FM[ta], idx(id_('arr'), lit(k))) for k in range(m)] + [('s', id_('str')), (FM[tb['a'][1]], mem(R, 'a')), (FM[tb['b'][1]], mem(R, 'b')), ('f', mem(mem(R, 'n'), 'd')), ('d', mem(mem(R, 'n'), 'c')),
                ('d', mem(id_('un'), 'i')), ('d', mem(id_('un'), 'c'))]
        see += [(FM[tb['v'][1][1]], idx(mem(R, 'v'), lit(k))) for k in range(3)]
        def upd(q):
            RR = id_('recp') if q else R
            M = arrow if q else mem
            return [es(asg(idx(id_('arr'), lit(r.randrange(m))), lit_any(r.choice(values(ta, True))))), es(asg(id_('ptr'), addr(idx(id_('arr'), lit(m - 1))))), es(asg(deref(id_('ptr')), lit(4))),
                    es(asg(M(RR, 'a'), lit(r.randrange(100)))), es(asg(M(RR, 'b'), lit(-1))), es(asg(idx(M(RR, 'v'), lit(r.randrange(3))), lit(r.randrange(90)))), es(asg(mem(M(RR, 'n'), 'd'), dyadic(r, 'float')[0])),
                    es(asg(mem(M(RR, 'n'), 'c'), lit(r.randrange(-9, 100)))), es(asg(M(RR, 'p'), addr(id_('tgt')))), es(inc(deref(M(RR, 'p')))), es(asg(mem(id_('un'), 'l'), lit(r.getrandbits(31))))]
        lib += [fndef('dump', V, [], blk(*rows(see), out(('d', id_('tgt'))))), fndef('poke', V, [], blk(*poke, *upd(True))), fndef('same', I, [('p', ('p', V)), ('q', ('p', V))], blk(ret(bin_('==', id_('p'), id_('q'))))),
                fndef('where', ('p', V), [('k', I)], blk(if_(bin_('==', id_('k'), lit(0)), ret(cast(('p', V), addr(R)))), if_(bin_('==', id_('k'), lit(1)), ret(cast(('p', V), addr(id_('x0'))))), ret(cast(('p', V), addr(idx(id_('arr'), lit(1)))))))]
        sz = [out(('lu', sze(id_('arr'))), ('lu', sze(R)), ('lu', sze(id_('un'))), ('lu', sze(id_('x0'))))]
        ptrs = [out(('d', bin_('==', call('where', lit(0)), cast(('p', V), addr(R)))), ('d', bin_('==', call('where', lit(1)), cast(('p', V), addr(id_('x0'))))), ('d', bin_('==', call('where', lit(2)), cast(('p', V), bin_('+', id_('arr'), lit(1))))))]
        body = [*rows(see), *setv, *upd(False), es(call('dump')), *rows(see), es(call('poke')), *rows(see), *upd(True), es(call('dump')), *sz, *ptrs, out(('d', id_('tgt')), ('d', bin_('==', id_('ptr'), addr(idx(id_('arr'), lit(m - 1))))))]
        # a function of its own uses them too
        use = fndef('use', I, [], blk(es(asg(mem(R, 'a'), lit(3))), ret(bin_('==', id_('recp'), addr(R)))))
        # objects of its own hide them, and declarations bring them back
        L = {q.ds[0].n: q for q in lib if q.k == 'decl'}
        F_ = {q.n: q for q in lib if q.k == 'fndef'}

        def hide(d):
            ss = []
            for n in r.sample(['x0', 'x1', 'x2', 'arr', 'rec', 'un', 'ptr', 'tgt', 'dump', 'where'], 4):
                if r.random() < .5:
                    ss += [decl(dr(n, b(r.choice(INTS)), lit(r.randrange(99)))), es(inc(id_(n))), out(('lu', sze(id_(n))), ('ld', cast(b('long'), id_(n))))]
                elif n in F_:
                    ss += [xref(F_[n], r), es(call('dump')) if n == 'dump' else out(('d', un('!', call('where', lit(1)))))]
                else:
                    ss += [xref(L[n], r)] * r.choice([1, 2]) + [out(('lu', sze(id_(n))))]
                    t = L[n].ds[0].te
                    ss += [out((FM[t[1]], id_(n))), es(asg(id_(n), lit(r.randrange(100))) if t[1] in WIDTH else asg(id_(n), dyadic(r, 'float')[0]))] if t[0] == 'b' else \
                        [es(asg(idx(id_(n), lit(r.randrange(m))), lit(r.randrange(99)))), out((FM[ta], idx(id_(n), lit(0))))] if t[0] == 'a' else [es(asg(mem(id_(n), 'a'), lit(r.randrange(90))))] if n == 'rec' else []
            if d:
                ss += [blk(*hide(d - 1)), if_(lit(1), blk(*hide(d - 1)))]
            return ss
        hider = fndef('hider', V, [('x0', CH), ('tgt', ('p', I))], blk(blk(*hide(1)), blk(xref(L['tgt']), es(inc(id_('tgt')))), es(asg(id_('x0'), lit(1)))))
        progs.append(LibProgram('ext%d' % i, SH, lib, [use, hider, fndef('main', I, [], blk(*body, out(('d', call('use'))), es(call('dump')), es(call('hider', lit(3), addr(id_('tgt')))), es(call('dump')), *hide(1), ret(lit(0))))], declare=style(r)))
    return progs


# ---------------------------------------------------------- the C library
def libc(c, r):
    """What the functions do is written down for the specification only."""
    S, T, N_, A, B_ = id_('s'), id_('t'), id_('n'), id_('a'), id_('b')
    X, K, J = id_('x'), id_('k'), id_('j')
    CP, VP = ('p', CH), ('p', V)
    CV = ('p', b('void', 'const void'))
    UL = b('ulong')
    U = lambda e: cast(b('uchar'), e)
    PU = ('p', b('uchar'))
    ALLOC = lambda name: fndef(name, VP, [('n', UL)], blk(decl(dr('used', I), static=True), decl(dr('pool', ('a', b('long'), 120)), static=True), decl(dr('t', VP, cast(VP, bin_('+', id_('pool'), id_('used'))))),
        es(casg('+', id_('used'), cast(I, bin_('/', bin_('+', N_, lit(7)), lit(8))))), ret(T)))
    model = {
        'strlen': fndef('strlen', UL, [('s', CSTR)], blk(decl(dr('n', UL, lit(0))), while_(idx(S, N_), es(inc(N_))), ret(N_))),
        'strcpy': fndef('strcpy', CP, [('t', CP), ('s', CSTR)], blk(decl(dr('n', I, lit(0))), while_(idx(S, N_), blk(es(asg(idx(T, N_), idx(S, N_))), es(inc(N_)))), es(asg(idx(T, N_), lit(0))), ret(T))),
        'strcat': fndef('strcat', CP, [('t', CP), ('s', CSTR)], blk(decl(dr('n', I, lit(0)), dr('k', I, lit(0))), while_(idx(T, K), es(inc(K))), while_(idx(S, N_), blk(es(asg(idx(T, bin_('+', K, N_)), idx(S, N_))), es(inc(N_)))), es(asg(idx(T, bin_('+', K, N_)), lit(0))), ret(T))),
        '__builtin___strcpy_chk': fndef('__builtin___strcpy_chk', CP, [('t', CP), ('s', CSTR), ('x', UL)], blk(ret(call('strcpy', T, S)))),
        '__builtin___strcat_chk': fndef('__builtin___strcat_chk', CP, [('t', CP), ('s', CSTR), ('x', UL)], blk(ret(call('strcat', T, S)))),
        'strcmp': fndef('strcmp', I, [('s', CSTR), ('t', CSTR)], blk(decl(dr('n', I, lit(0))), while_(land(idx(S, N_), bin_('==', idx(S, N_), idx(T, N_))), es(inc(N_))), ret(bin_('-', U(idx(S, N_)), U(idx(T, N_)))))),
        'strchr': fndef('strchr', CP, [('s', CSTR), ('k', I)], blk(decl(dr('n', I, lit(0))), while_(idx(S, N_), blk(if_(bin_('==', idx(S, N_), cast(CH, K)), ret(cast(CP, bin_('+', S, N_)))), es(inc(N_)))), ret(cond(cast(CH, K), cast(CP, lit(0)), cast(CP, bin_('+', S, N_)))))),
        'memset': fndef('memset', VP, [('s', VP), ('k', I), ('n', UL)], blk(decl(dr('t', ('p', b('uchar')), cast(('p', b('uchar')), S))), while_(inc(N_, -1), es(asg(deref(inc(T)), K))), ret(S))),
        'memcpy': fndef('memcpy', VP, [('t', VP), ('s', CV), ('n', UL)], blk(decl(dr('a', ('p', b('uchar')), cast(('p', b('uchar')), T))), decl(dr('b', ('p', b('uchar')), cast(('p', b('uchar')), S))), while_(inc(N_, -1), es(asg(deref(inc(A)), deref(inc(B_))))), ret(T))),
        'abs': fndef('abs', I, [('x', I)], blk(ret(cond(bin_('<', X, lit(0)), un('-', X), X)))),
        'labs': fndef('labs', b('long'), [('x', b('long'))], blk(ret(cond(bin_('<', X, lit(0)), un('-', X), X)))),
        'toupper': fndef('toupper', I, [('x', I)], blk(ret(cond(land(bin_('>=', X, lit(97)), bin_('<=', X, lit(122))), bin_('-', X, lit(32)), X)))),
        'atoi': fndef('atoi', I, [('s', CSTR)], blk(decl(dr('n', I, lit(0)), dr('k', I, lit(0))), if_(bin_('==', deref(S), lit(45)), es(asg(K, lit(1)))), while_(land(bin_('>=', idx(S, K), lit(48)), bin_('<=', idx(S, K), lit(57))), blk(es(asg(N_, bin_('+', bin_('*', N_, lit(10)), bin_('-', idx(S, K), lit(48))))), es(inc(K)))), ret(cond(bin_('==', deref(S), lit(45)), un('-', N_), N_)))),
        # memory that nobody else has (how it is reused can't be seen)
        'alloca': ALLOC('alloca'), 'malloc': ALLOC('malloc'), 'free': fndef('free', V, [('s', VP)], blk(ret())),
        'calloc': fndef('calloc', VP, [('n', UL), ('k', UL)], blk(decl(dr('s', VP, call('malloc', bin_('*', N_, K)))), es(call('memset', S, lit(0), bin_('*', N_, K))), ret(S))),
        # any stable or unstable sort does for distinct keys
        'qsort': lambda et: fndef('qsort', V, [('s', VP), ('n', UL), ('z', UL), ('f', fp(I, CV, CV))], blk(decl(dr('a', ('p', et), cast(('p', et), S))), decl(dr('t', et)), decl(dr('k', I), dr('j', I)),
            for_(es(asg(K, lit(0))), bin_('<', K, cast(I, N_)), inc(K), for_(es(asg(J, lit(0))), bin_('<', J, bin_('-', cast(I, N_), lit(1))), inc(J),
                if_(bin_('>', call('f', cast(VP, bin_('+', A, J)), cast(VP, bin_('+', A, bin_('+', J, lit(1))))), lit(0)), blk(es(asg(T, idx(A, J))), es(asg(idx(A, J), idx(A, bin_('+', J, lit(1))))), es(asg(idx(A, bin_('+', J, lit(1))), T)))))))),
        'bsearch': lambda et: fndef('bsearch', VP, [('x', CV), ('s', CV), ('n', UL), ('z', UL), ('f', fp(I, CV, CV))], blk(decl(dr('a', ('p', et), cast(('p', et), S))), decl(dr('k', I)),
            for_(es(asg(K, lit(0))), bin_('<', K, cast(I, N_)), inc(K), if_(bin_('==', call('f', X, cast(VP, bin_('+', A, K))), lit(0)), ret(cast(VP, bin_('+', A, K))))), ret(cast(VP, lit(0))))),
    }
    progs = []

    def P(pid, fns, *top, **kw):
        inc_ = kw.get('include')
        d = (lambda s: []) if inc_ else (lambda s: stmt_decl(s, extern=r.random() < .5, names=r.random() < .5))
        progs.append(Libc(pid, [], [model[f] if not callable(model[f]) else model[f](kw['et']) for f in fns], list(top), header=PRINTF + (''.join('\n#include <%s>' % h for h in inc_) if inc_ else ''), declare=d))
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    word = lambda: ''.join(r.choice('abcdefghijXYZ019-_ ') for _ in range(r.randrange(0, 10)))
    for i in range(6 if c.quick else 60):
        use = ['strlen', 'strcpy', 'strcat', '__builtin___strcpy_chk', '__builtin___strcat_chk', 'strcmp', 'strchr', 'memset', 'memcpy', 'abs', 'labs', 'atoi', 'toupper']
        body = [decl(dr('buf', ('a', CH, 32)), dr('two', ('a', CH, 32))), decl(dr('p', CP)), decl(dr('v', ('a', I, 6)), dr('w', ('a', I, 6)))]
        BF, TW = id_('buf'), id_('two')
        sign = lambda e: ('d', bin_('-', bin_('>', e, lit(0)), bin_('<', e, lit(0))))
        for _ in range(4):
            a, b2 = word(), word()
            k = r.randrange(6)
            ch = r.choice(a or 'q')
            s3 = st(word()[:8])
            body += [decl(dr('z%d' % _, I, lit(0))), while_(bin_('<', inc(id_('z%d' % _)), lit(r.randrange(1, 3))), blk(out(('s', call('__builtin___strcpy_chk', TW, s3, cast(UL, lit(32))))), out(('s', call('__builtin___strcat_chk', TW, st(a), call('strlen', st(b2))))), out(('s', TW))))]
            body += [es(call('strcpy', BF, st(a))), out(('lu', call('strlen', BF)), ('s', BF), ('lu', call('strlen', st(b2)))), out(('s', call('strcat', BF, st(b2)))), out(('lu', call('strlen', BF))),
                     es(asg(id_('p'), call('strcpy', TW, st(b2)))), out(('s', id_('p')), ('d', bin_('==', id_('p'), TW)), sign(call('strcmp', st(a), st(b2))), sign(call('strcmp', id_('p'), st(b2))), sign(call('strcmp', BF, st(a)))),
                     es(asg(id_('p'), call('strchr', BF, lit(ord(ch))))), if_(id_('p'), blk(out(('s', id_('p')), ('ld', bin_('-', id_('p'), BF))), es(asg(deref(id_('p')), call('toupper', deref(id_('p')))))), out(('d', lit(0)))), out(('s', BF)),
                     es(call('memset', r.choice([id_('v'), addr(id_('v')), cast(VP, addr(id_('v'))), addr(idx(id_('v'), lit(0)))]), lit(r.choice([0, 1, 255, 300, 7])), r.choice([cast(UL, lit(24)), sze(id_('v'))]))), es(asg(idx(id_('v'), lit(k)), lit(r.randrange(999)))), es(call('memcpy', id_('w'), id_('v'), lit(24))),
                     out(*[('d', idx(id_('w'), lit(z))) for z in range(6)]), es(call('memset', bin_('+', id_('w'), lit(2)), lit(1), lit(4))), out(*[('d', idx(id_('w'), lit(z))) for z in range(6)]),
                     out(('d', call('abs', lit(r.randrange(-99, 99)))), ('ld', call('labs', lit(r.randrange(-2 ** 40, 9)))), ('d', call('atoi', st(str(r.randrange(-9999, 9999))))), ('d', call('atoi', st(str(r.randrange(99)) + r.choice(['', 'x', ' 7'])))))]
        P('str%d' % i, use, main(*body), include=['string.h', 'stdlib.h', 'ctype.h'] if i % 3 == 0 else None)
    for i in range(6 if c.quick else 60):
        t = r.choice(['int', 'short', 'long', 'uchar', 'uint', 'char'])
        ET = b(t)
        n = r.randrange(1, 9)
        vals = r.sample(range(0 if t[0] == 'u' else -100, 120), n)
        PE = ('p', ET)
        X_, Y_ = cast(PE, id_('x')), cast(PE, id_('y'))
        cmpf = [fndef('up', I, [('x', CV), ('y', CV)], blk(decl(dr('a', PE, X_)), decl(dr('b', PE, Y_)), if_(bin_('<', deref(id_('a')), deref(id_('b'))), ret(lit(-1))), ret(bin_('>', deref(id_('a')), deref(id_('b')))))),
                fndef('down', I, [('x', CV), ('y', CV)], blk(es(inc(id_('calls'))), ret(call('up', id_('y'), id_('x'))))),
                fndef('last', I, [('x', CV), ('y', CV)], blk(ret(cond(bin_('==', bin_('&', deref(X_), lit(1)), bin_('&', deref(Y_), lit(1))), call('up', id_('x'), id_('y')), bin_('-', cast(I, bin_('&', deref(X_), lit(1))), cast(I, bin_('&', deref(Y_), lit(1))))))))]
        show = out(*[(FMT[t], idx(id_('v'), lit(k))) for k in range(n)])
        q = lambda f: es(call('qsort', cast(VP, id_('v')) if r.random() < .5 else id_('v'), lit(n), sze(idx(id_('v'), lit(0))) if r.random() < .5 else szt(ET), addr(id_(f))))
        body = [decl(dr('v', ('a', ET, n)), dr('key', ET)), decl(dr('p', PE)), *[es(asg(idx(id_('v'), lit(k)), lit(x))) for k, x in enumerate(vals)], q('up'), show, q('down'), show, q('last'), show, q('up'), show]
        for x in r.sample(vals, min(3, n)) + [119]:
            body += [es(asg(id_('key'), lit(x))), es(asg(id_('p'), call('bsearch', addr(id_('key')), id_('v'), lit(n), szt(ET), addr(id_('up'))))), if_(id_('p'), out((FMT[t], deref(id_('p'))), ('ld', bin_('-', id_('p'), id_('v')))), out(('d', lit(-1))))]
        P('sort%d' % i, ['qsort', 'bsearch'], decl(dr('calls', I)), *cmpf, main(*body), et=ET, include=['stdlib.h'] if i % 3 == 0 else None)
    allocs(c, r, P, main)
    return progs


def allocs(c, r, P, main):
    """alloca(), malloc(), calloc() and free(): memory from them is kept until
    the function returns, or it is freed, whatever goes on in between."""
    VP = ('p', V)
    NODE = ('tag', 'struct node')
    PN = ('p', NODE)
    n, k, h, p, q, z = [id_(x) for x in 'nkhpqz']
    PI = ('p', I)
    loop = lambda m, *ss: for_(decl(dr('k', I, lit(0))), bin_('<', k, m if isinstance(m, Node) else lit(m)), inc(k), blk(*ss))
    for i in range(6 if c.quick else 60):
        ET = b(r.choice(['int', 'short', 'long', 'uchar', 'uint']))
        PE = ('p', ET)
        m = r.choice([3, 4, 6])
        noise = lambda: blk(decl(dr('z', ('a', ET, m)), dr('y', ('a', ET, m + 1))), loop(m, es(asg(idx(z, k), lit(99))), es(asg(idx(id_('y'), k), lit(98)))), es(call('churn', lit(2))))
        get = lambda f: r.choice([call(f, bin_('*', lit(m), szt(ET))), cast(PE, call(f, bin_('*', szt(ET), lit(m)))), cast(VP, call(f, cast(b('ulong'), bin_('*', szt(ET), lit(m)))))])
        show = lambda v: out(*[(FMT[ET[1]], idx(id_(v), lit(x))) for x in range(m)])
        fill = lambda v, x: loop(m, es(asg(idx(id_(v), k), bin_('+', k, lit(x)))))
        wrap = lambda s: r.choice([blk(s), if_(bin_('>', lit(1), lit(0)), s), if_(bin_('>', lit(1), lit(0)), blk(blk(s))), for_(decl(dr('w', I, lit(0))), bin_('<', id_('w'), lit(1)), inc(id_('w')), s)])
        node = lambda f: cast(PN, call(f, szt(NODE)))
        top = [sudef('struct', 'node', [('v', ET), ('next', PN)]),
               fndef('churn', I, [('n', I)], blk(decl(dr('z', ('a', ET, m))), decl(dr('s', NODE)), loop(m, es(asg(idx(z, k), n))), if_(n, es(call('churn', bin_('-', n, lit(1))))), ret(idx(z, lit(1))))),
               # lists of nodes that a loop allocates
               fndef('list', I, [('n', I)], blk(decl(dr('h', PN), dr('t', PN)), es(asg(h, cast(PN, lit(0)))), loop(n, decl(dr('p', PN, node('alloca'))), es(asg(arrow(p, 'v'), bin_('+', k, lit(3)))), es(asg(arrow(p, 'next'), h)), es(asg(h, p)), *([es(call('churn', lit(1)))] if r.random() < .5 else [])),
                   noise(), decl(dr('s', I, lit(0))), while_(h, blk(es(asg(id_('s'), bin_('+', bin_('*', id_('s'), lit(7)), arrow(h, 'v')))), es(asg(h, arrow(h, 'next'))))), ret(id_('s')))),
               # every call has its own
               fndef('rec', I, [('n', I)], blk(decl(dr('p', PE)), wrap(es(asg(p, get('alloca')))), fill('p', 10), if_(n, blk(es(casg('+', idx(p, lit(0)), n)), decl(dr('r', I, call('rec', bin_('-', n, lit(1))))), noise(), show('p'), ret(bin_('+', id_('r'), idx(p, lit(0)))))), ret(idx(p, lit(m - 1)))))]
        body = [decl(dr('p', PE), dr('q', PE)) if 0 else decl(dr('p', PE)), decl(dr('q', PE)), decl(dr('g', PE)), decl(dr('n', I, lit(0)))]
        body += [wrap(es(asg(p, get('alloca')))), fill('p', 5), noise(), wrap(es(asg(q, get('malloc')))), fill('q', 20), noise(), show('p'), show('q'),
                 out(('d', call('list', lit(r.choice([3, 5]))))), out(('d', call('rec', lit(3)))), wrap(es(asg(id_('g'), r.choice([get('alloca'), call('calloc', lit(m), szt(ET))])))), fill('g', 1),
                 es(casg('+', idx(p, lit(1)), idx(q, lit(2)))), noise(), show('p'), show('q'), show('g'), es(call('free', q)), noise(), wrap(es(asg(q, call('calloc', szt(ET), lit(m))))), show('q'), es(asg(idx(q, lit(0)), lit(4))), noise(), show('q'), show('p'), es(call('free', q))]
        P('alloc%d' % i, ['memset', 'alloca', 'malloc', 'calloc', 'free'], *top, main(*body))


# -------------------------------------------------- random programs, split
def split(c, r):
    progs = []
    for i in range(70 if c.quick else 900):
        p = cgen.program(r, 'split%d' % i, types=INTS if i % 3 else ['int', 'long'], nglob=4, nfn=5, nstm=7, depth=2, nparams=5,
                         feats=[('decl', 'if', 'loop', 'block', 'ret', 'call', 'break'), ('decl', 'call', 'array', 'struct', 'ptr', 'ret', 'if'), ('decl', 'call', 'struct', 'loop', 'static', 'ret')][i % 3])
        shared = [s for s in p.top if s.k in ('sudef', 'tdef')]
        decls = [s for s in p.top if s.k == 'decl']
        for s in decls:                 # constant initialisers only
            for d in s.ds:
                if d.i is not None and not constant(d.i):
                    d.i = None
        inits = [s for s in p.top if s.k == 'expr']
        fns = [s for s in p.top if s.k == 'fndef']
        k = r.randrange(1, len(fns))    # main is always in the script
        lib = decls + fns[:k]
        progs.append(LibProgram(p.id, shared, lib, inits + fns[k:], declare=style(r), opt=r.choice(['-O0', '-O1', '-O2'])))
    return progs


def constant(e):
    return e.k in ('lit', 'flt') or e.k == 'cast' and constant(e.a) or e.k == 'un' and constant(e.a) or e.k == 'bin' and constant(e.a) and constant(e.b)


def run(c):
    r = c.rng
    c.assumptions.append('the libraries are compiled by gcc; the functions of the C library behave as written down in lib/props/c12.py')
    progs = libc(c, r) + callbacks(c, r) + variables(c, r) + variadics(c, r) + signatures(c, r) + split(c, r)
    c.extra['programs'] = {k: sum(str(p.id).startswith(k) for p in progs) for k in ('sig', 'va', 'cb', 'ext', 'str', 'sort', 'atexit', 'alloc', 'split')}
    c.check(progs)
