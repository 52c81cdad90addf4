"""C16: headers. CMachine preprocesses what a session or a script includes: it
looks for headers in the directories, follows conditions, definitions and
nested includes, evaluates their declarations, and knows which definition of a
macro is in force when a line is typed."""
import itertools, random
from cprog import *
from arith import *
from repl import *

I = b('int')
X, Y, V_, S_ = id_('x'), id_('y'), id_('v'), id_('s')
T = lambda n: ('tag', 'struct ' + n)
td = lambda n: ('td', n)
GUARD = lambda n: Macro(n, lambda: lit(0), text='')


def guard(name, *items):
    return [('if', 'ifndef ' + name, un('!', defd(name)), [('def', GUARD(name))] + list(items), [])]


def const(n, v): return Macro(n, lambda: lit(v) if isinstance(v, int) else v)


class Env:
    """The macros of a session."""

    def __init__(self):
        self.defs, self.headers = [], []

    def d(self, m):
        self.defs.append(m)
        return ('def', m)

    def c(self, n, v): return self.d(const(n, v))
    def f(self, n, params, body, text=None): return self.d(Macro(n, body, params, text))
    def o(self, n, body, text=None): return self.d(Macro(n, body, None, text))
    def use(self, n, *args, **kw): return mac(n, self.defs, list(args) or None, **kw)

    def h(self, n, *items, dir=1, eol=True):
        self.headers.append(Header(dir, n, list(items), eol))

    def session(self, id, lines, dirs=(1,), **kw):
        return Session(id, lines, headers=self.headers, dirs=list(dirs), **kw)


def basics(c):
    out = []
    e = Env()
    U = e.use
    e.h('a.h', e.c('A', 3), e.c('NEG', -4), e.o('SUM', lambda: bin_('+', U('A'), lit(10))), e.f('SQ', ['x'], lambda x: bin_('*', x, x)), e.f('MAX', ['a', 'b'], lambda a, b_: cond(bin_('>', a, b_), a, b_)),
        e.o('STR', lambda: st('a string')), e.f('ADD', ['a', 'b'], lambda a, b_: bin_('+', a, bin_('+', b_, U('A')))), e.o('WHERE', lambda: addr(X)), e.o('FIRST', lambda: idx(V_, lit(0))), e.d(Macro('EMPTY', lambda: lit(0), text='')),
        e.f('TWICE', ['f', 'x'], lambda f, x: lit(0), 'f(f(x))'))
    e.h('b.h', e.c('B', 12), e.o('AB', lambda: bin_('*', U('A', other=lit(0)), U('B'))), eol=False)
    inc_a, inc_b = incl_('a.h'), incl_('b.h')
    uses = [ln(U('A')), ln(U('NEG')), ln(U('SUM')), ln(U('SQ', lit(5))), ln(U('SQ', bin_('-', lit(2), lit(7)))), ln(U('MAX', U('A'), lit(2))), ln(U('MAX', U('NEG'), U('SQ', U('A')))), ln(U('STR')), ln(U('ADD', lit(1), U('ADD', lit(2), lit(3)))),
            ln(bin_('-', U('A'), U('NEG'))), ln(un('-', U('NEG')))]
    dcl = [ln(decl(dr('x', I, U('SQ', lit(4))))), ln(X), ln(U('WHERE')), ln(deref(U('WHERE'))), ln(decl(dr('v', ('a', b('short'), U('SUM'))))), ln(asg(U('FIRST'), U('A'))), ln(U('FIRST')), ln(sze(V_)), ln(idx(V_, lit(0))),
           ln(U('MAX', inc(X), lit(3))), ln(X), ln(casg('+', X, U('ADD', X, U('A')))), ln(X), Line('blank', 'EMPTY;'), ln(X), ln(cond(U('A'), U('STR'), U('STR'))), ln(comma(asg(X, U('A')), U('SUM')))]
    out.append(e.session('macros', [inc_a] + uses + dcl))
    out.append(e.session('macros-again', [inc_a] + uses[:3] + [inc_a] + uses + [inc_b] + dcl + [ln(U('B')), ln(U('AB')), inc_a, ln(U('AB'))]))
    # each of two headers before and after the other one
    out.append(e.session('two-headers', [inc_a, ln(U('A')), inc_b, ln(U('A')), ln(U('B')), ln(U('AB')), inc_b, inc_a, ln(bin_('+', U('A'), U('B')))]))
    out.append(e.session('two-headers-reversed', [inc_b, ln(U('B')), inc_a, ln(U('A')), ln(U('B')), ln(U('AB'))]))
    # the spelling of the line
    for j, t in enumerate(['#include <a.h>', '  #include <a.h>', '#include   <a.h>', '#include <a.h>  ', '#include<a.h>', '#include <a.h> // why', '#include <a.h> /* why */']):
        out.append(e.session('spelling%d' % j, [incl_('a.h', t), ln(U('A')), incl_('b.h'), ln(U('A')), ln(U('B'))]))
    # lines around
    out.append(e.session('around', [ln(decl(dr('x', I, lit(1)))), inc_a, bad('x y'), ln(inc(X)), inc_b, blank(), bad(')'), ln(X), ln(U('SUM')), blank('// A'), blank('/* A */'), ln(X), inc_a, ln(U('SUM')), ln(X)]))
    out.append(e.session('in-literals', [inc_a, ln(decl(dr('q', ('p', b('char')), st('A SQ(2) STR')))), ln(id_('q')), ln(st('A')), ln(chr_("'A'")), ln(sudef('struct', 'AA', [('ABC', I)])), ln(decl(dr('AAA', T('AA')))), ln(asg(mem(id_('AAA'), 'ABC'), U('A'))), ln(id_('AAA')), ln(decl(dr('SUMM', I, U('SUM')))), ln(id_('SUMM'))]))
    out.append(e.session('no-include', [ln(decl(dr('A', I, lit(70)))), ln(U('A')), ln(bin_('+', U('A'), lit(1)))]))
    # a macro hides a name that was declared before
    out.append(e.session('hides', [ln(decl(dr('A', I, lit(70)))), ln(U('A')), inc_b, ln(U('A')), inc_a, ln(U('A')), ln(U('SUM')), ln(decl(dr('z', I, U('A')))), ln(id_('z'))]))
    # never included
    out.append(e.session('undefined', [inc_b, ln(U('B')), die('A;', 'A')]))
    out.append(e.session('undefined-function', [inc_b, ln(U('B')), die('SQ(2);', 'SQ')]))
    return out


def conditions(c):
    """Definitions that depend on other ones, on the order of the includes."""
    names = ['one.h', 'two.h', 'three.h', 'four.h', 'five.h', 'undo.h']
    perms = list(itertools.permutations(names))
    c.rng.shuffle(perms)
    def one(j, order):                  # (a scope of its own for the macros' bodies)
        e = Env()
        U = e.use
        e.h('one.h', ('if', 'ifndef LIMIT', un('!', defd('LIMIT')), [e.c('LIMIT', 100)], [e.c('SEEN', 1)]), e.o('DOUBLE', lambda: bin_('*', U('LIMIT'), lit(2))))
        e.h('two.h', e.c('LIMIT', 7))
        e.h('three.h', *guard('THREE_H', ('if', 'ifdef LIMIT', defd('LIMIT'), [e.c('KNOWN', 1)], [e.c('KNOWN', 0)]),
                              ('if', 'if LIMIT > 50', bin_('>', U('LIMIT', other=lit(0)), lit(50)), [e.c('SIZE', 8), ('st', tdef('limit_t', b('long')))], [e.c('SIZE', 2), ('st', tdef('limit_t', b('char')))])))
        e.h('four.h', ('undef', 'SIZE'), e.o('SIZE', lambda: bin_('+', U('LIMIT'), lit(1))), ('inc', 'two.h', True))
        e.h('five.h', ('if', 'if defined(KNOWN) && !defined(SEEN)', land(defd('KNOWN'), un('!', defd('SEEN'))), [('undef', 'KNOWN')], [e.c('SEEN', 5)]))
        e.h('undo.h', ('undef', 'LIMIT'), ('undef', 'NEVER'), e.c('UNDONE', 1))
        ms = ['LIMIT', 'DOUBLE', 'KNOWN', 'SIZE', 'SEEN', 'UNDONE']
        ls = [ln(decl(dr(n, I, lit(1000 + i)))) for i, n in enumerate(ms)]
        for h in order:
            ls += [incl_(h)] + [ln(U(n)) for n in ms]
        ls += [ln(szt(td('limit_t'))), ln(decl(dr('w', td('limit_t'), U('DOUBLE')))), ln(id_('w'))]
        return e.session('order%d' % j, ls)
    return [one(j, order) for j, order in enumerate(perms[:24 if c.quick else 720])]


def paths(c):
    """The same names in several directories; the order of the options."""
    out = []
    for j, ds in enumerate(itertools.permutations([1, 2, 3])):
        for k in (3, 2):
            e = Env()
            U = e.use
            for d in (1, 2, 3):
                e.h('same.h', e.c('WHICH', d), dir=d)
                if d > 1:
                    e.h('some.h', e.c('SOME', d), ('inc', 'same.h', False), ('inc', 'only%d.h' % d, True), dir=d)
                e.h('only%d.h' % d, e.c('ONLY%d' % d, d * 10), ('inc', 'same.h', d != 2), dir=d)
            ls = [ln(decl(dr(n, I, lit(-1)))) for n in ('WHICH', 'SOME', 'ONLY1', 'ONLY2', 'ONLY3')]
            show_ = [ln(U(n)) for n in ('WHICH', 'SOME', 'ONLY1', 'ONLY2', 'ONLY3')]
            ls += [incl_('same.h')] + show_ + [incl_('some.h')] + show_
            for d in c.rng.sample([1, 2, 3], 3):
                if d in ds[:k]:
                    ls += [incl_('only%d.h' % d)] + show_ + [incl_('same.h'), show_[0]]
            missing = [d for d in (1, 2, 3) if d not in ds[:k]]
            if missing:
                ls += [incl_('only%d.h' % missing[0]), ln(lit(1))]
            out.append(e.session('paths%d-%d' % (j, k), ls, ds[:k]))
    return out


def declarations(c):
    out = []
    def head():
        e = Env()
        U = e.use
        pt = T('pt')
        e.h('types.h', *guard('TYPES_H', e.c('N', 4), ('st', tdef('num', b('short'))), ('st', sudef('struct', 'pt', [('x', td('num')), ('y', td('num')), ('tag', ('a', b('int'), U('N')))])),
                              ('st', enum('col', [('RED', None), ('GREEN', bin_('+', U('N'), lit(1))), ('BLUE', None)])), ('st', sudef('union', 'un', [('l', b('uint')), ('c', b('uchar'))])), ('st', tdef('ptp', ('p', pt)))))
        norm = fndef('norm', I, [('p', td('ptp'))], blk(ret(bin_('+', arrow(id_('p'), 'x'), arrow(id_('p'), 'y')))), 'static ')
        n = id_('n')
        fill = fndef('fill', b('void'), [('p', ('p', I)), ('n', I)], blk(while_(bin_('>', n, lit(0)), blk(es(inc(n, -1)), es(asg(idx(id_('p'), n), bin_('*', n, U('N'))))))), 'static ')
        e.h('funs.h', *guard('FUNS_H', ('inc', 'types.h', True), ('st', norm), ('st', fill), ('st', decl(dr('origin', pt))), ('st', decl(dr('here', ('p', pt), addr(id_('origin'))))),
                             ('st', decl(dr('table', ('a', b('long'), bin_('*', U('N'), lit(2)))))), e.f('NORM', ['p'], lambda p: call('norm', addr(p)))))
        e.h('more.h', *guard('MORE_H', ('inc', 'types.h', False), e.c('MORE', 1), ('st', decl(dr('more', b('uchar'), lit(300)))), ('st', tdef('moret', ('a', td('num'), 3)))), eol=False)
        return e
    P_ = id_('p')
    L1 = [ln(decl(dr('a', td('num'), lit(70000)))), ln(id_('a')), ln(id_('GREEN')), ln(id_('BLUE')), ln(decl(dr('p', T('pt')))), ln(asg(mem(P_, 'x'), lit(30))), ln(asg(mem(P_, 'y'), id_('BLUE'))), ln(P_), ln(szt(T('pt'))), ln(decl(dr('k', ('tag', 'enum col'), id_('RED')))), ln(id_('k')),
          ln(decl(dr('u', ('tag', 'union un')))), ln(asg(mem(id_('u'), 'l'), lit(0x141))), ln(id_('u')), ln(decl(dr('q', td('ptp'), addr(P_)))), ln(arrow(id_('q'), 'y')), insp('a'), insp('p'), insp('q'), insp('num'), insp('k'), insp('GREEN'), insp('nothing'), insp('ptp')]
    L2 = lambda U: [ln(U('NORM', P_)), ln(call('norm', addr(P_))), ln(call('fill', mem(P_, 'tag'), U('N'))), ln(P_), ln(sze(id_('table'))), insp('here'), insp('table'), insp('norm'), insp('fill'), ln(idx(id_('table'), lit(7))), ln(id_('origin')), ln(asg(arrow(id_('here'), 'y'), lit(9))), ln(id_('origin')),
                    ln(call('norm', id_('here'))), ln(asg(idx(id_('table'), lit(3)), call('norm', id_('q')))), ln(idx(id_('table'), lit(3)))]
    L3 = [ln(id_('more')), insp('more'), ln(decl(dr('mv', td('moret')))), ln(sze(id_('mv'))), ln(asg(idx(id_('mv'), lit(2)), id_('GREEN'))), ln(idx(id_('mv'), lit(2)))]
    e = head()
    out.append(e.session('types', [incl_('types.h')] + L1).place())
    # nested; the same one again (its guard); the objects of the session stay what they are
    e = head()
    out.append(e.session('functions', [incl_('funs.h')] + L1 + L2(e.use)).place())
    e = head()
    out.append(e.session('both', [incl_('types.h')] + L1 + [incl_('funs.h')] + L1[6:9] + L1[10:11] + L2(e.use)).place())
    e = head()
    out.append(e.session('again', [incl_('types.h'), incl_('types.h')] + L1 + [incl_('more.h')] + L1[1:4] + [ln(P_), ln(mem(P_, 'y')), ln(arrow(id_('q'), 'x')), ln(id_('u'))] + L3 + [incl_('types.h'), incl_('more.h'), ln(P_), ln(id_('a')), insp('a'), insp('p'), insp('num')] + L3[:2]
                         + [incl_('funs.h')] + L2(e.use) + L3[:2]).place())
    # from within a function
    e = head()
    out.append(e.session('inside', [ln(X), incl_('types.h')] + L1 + [incl_('funs.h')] + L2(e.use) + [ln(asg(X, id_('GREEN'))), ln(X)],
                         script=[decl(dr('g', I, lit(1))), fndef('f', I, [('x', I)], blk(repl(), ret(X))), fndef('main', I, [], blk(decl(dr('x', I, call('f', lit(3)))), out_('d', X), repl(), ret(lit(2))))]).place())
    e = head()
    out.append(e.session('startup', [ln(id_('sv')), incl_('types.h')] + L1 + [ln(asg(id_('sv'), id_('BLUE'))), incl_('more.h'), ln(id_('sv')), ln(call('sf', lit(4)))] + L3, start=[decl(dr('sv', I, lit(4))), fndef('sf', I, [('a', I)], blk(ret(bin_('*', id_('a'), id_('sv')))))]).place())
    return out


def clashes(c):
    """Headers that declare names which the session has declared before, or
    declares afterwards."""
    res = []
    r = c.rng
    decls = {'level': (lambda: decl(dr('level', b('uchar'), lit(41))), [ln(id_('level')), ln(casg('+', id_('level'), lit(1))), insp('level'), ln(sze(id_('level')))]),
             'red': (lambda: decl(dr('red', b('long'), lit(-7))), [ln(id_('red')), ln(inc(id_('red'))), ln(sze(id_('red'))), insp('red')]),
             'pt': (lambda: sudef('struct', 'pt', [('c', b('char')), ('q', ('p', T('pt')))]), [ln(szt(T('pt')))]),
             'col': (lambda: enum('col', [('cyan', lit(3)), ('blue', None)]), [ln(id_('blue')), ln(szt(('tag', 'enum col')))]),
             'kf': (lambda: decl(dr('kf', ('a', b('short'), 3))), [ln(sze(id_('kf'))), ln(comma(asg(idx(id_('kf'), lit(2)), lit(5)), bin_('-', idx(id_('kf'), lit(2)), lit(9))))]),
             'table': (lambda: decl(dr('table', ('p', b('int')), cast(('p', b('int')), lit(0)))), [ln(sze(id_('table'))), insp('table')])}
    tail = [ln(id_('green')), ln(call('only', lit(2))), ln(decl(dr('fresh', T('other')))), ln(asg(mem(id_('fresh'), 'o'), lit(70001))), ln(id_('fresh')), insp('only'), insp('green')]

    def one(j, before, after):
        e = Env()
        e.h('names.h', *guard('NAMES_H', ('st', decl(dr('level', I))), ('st', enum('col2', [('red', None), ('green', lit(5))])), ('st', sudef('struct', 'pt', [('x', I), ('y', I), ('z', b('long'))])), ('st', sudef('struct', 'other', [('o', b('short'))])),
                              ('st', fndef('kf', I, [('a', I)], blk(ret(bin_('*', id_('a'), lit(2)))), 'static ')), ('st', decl(dr('table', ('a', b('char'), 8)))), ('st', fndef('only', I, [('a', I)], blk(ret(bin_('+', id_('a'), lit(9)))), 'static '))))
        e.h('col.h', *guard('COL_H', ('st', enum('col', [('violet', None)])), e.c('COL', 3)))
        ls = [ln(decls[n][0]()) for n in before]
        uses = [u for n in before for u in decls[n][1]]
        r.shuffle(uses)
        ls += uses[:4] + [incl_('names.h')] + uses + [incl_('col.h')] + uses[:5]
        ls += [x for n in after for x in [ln(decls[n][0]())] + decls[n][1]]
        ls += [incl_('names.h')] + r.sample(uses, len(uses) // 2) + tail
        if 'pt' in before:
            ls += [ln(decl(dr('mine', T('pt')))), ln(asg(mem(id_('mine'), 'c'), lit(65))), ln(asg(mem(id_('mine'), 'q'), lit(0))), ln(id_('mine')), ln(sze(id_('mine')))]
        return e.session('clash%d' % j, ls, script=None if j % 3 else [decl(dr('g', I, lit(1))), fndef('main', I, [], blk(decl(dr('x', I, lit(3))), repl(), out_('d', X), ret(lit(2))))]).place()
    names = sorted(decls)
    for j in range(14 if c.quick else 150):
        b4 = r.sample(names, r.choice([1, 2, 3, 6]))
        res.append(one(j, b4 if j else names, r.sample([n for n in names if n not in b4], min(1, 6 - len(b4))) if j % 2 else []))
    return res


def out_(f, a): return out((f, a))


def typenames(c):
    """Names of types that the session, the startup file and headers declare, in
    all orders, used after each."""
    res, r = [], c.rng
    for j in range(8 if c.quick else 80):
        e = Env()
        for k, h in enumerate(['ta.h', 'tb.h', 'tc.h']):
            items = [('st', tdef('h%d' % k, b(r.choice(['short', 'char', 'long'])))), ('st', tdef('hp%d' % k, ('p', ('td', 'h%d' % k))))]
            e.h(h, *guard('T%d_H' % k, *items))
        known, ls, n = [], [], 0
        acts = ['ta.h', 'tb.h', 'tc.h', 'td', 'td', 'tdp', 'tds', 'td', 'ta.h', 'bad']
        r.shuffle(acts)
        start = []
        for i in range(2 if j % 2 else 0):
            start.append(tdef('st%d' % i, b(r.choice(INTS))))
            known.append('st%d' % i)
        for a in acts:
            n += 1
            if a.endswith('.h'):
                ls.append(incl_(a))
                k = 'abc'.index(a[1])
                known += [x for x in ('h%d' % k,) if x not in known]
            elif a == 'bad':
                ls.append(bad('typedef int bad%d x;' % n))
            else:
                te = b(r.choice(INTS)) if a == 'td' or not known else ('a', ('td', r.choice(known)), 3) if a == 'tds' else ('td', r.choice(known))
                ls.append(ln(tdef('t%d' % n, te)))
                known.append('t%d' % n)
            for m in r.sample(known, min(len(known), 4)):
                v = 'v%d_%s' % (n, m)
                ls += [ln(szt(('td', m))), ln(decl(dr(v, ('td', m)), dr('p' + v, ('p', ('td', m))))), ln(sze(id_(v)))]
        for m in known:
            ls += [ln(szt(('td', m))), ln(decl(dr('z' + m, ('td', m)))), insp('z' + m)]
        res.append(e.session('typenames%d' % j, ls, start=start).place())
    return res


def failures(c):
    res = []
    for j, items in enumerate([None, [('err',)], [('bad', 'int x y;')], [('inc', 'nowhere.h', True)], [('inc', 'nowhere.h', False)], [('if', 'ifdef A', defd('A'), [('err',)], [('st', decl(dr('hv', I, lit(3))))])], [('bad', '}')], [('bad', 'struct { int a; } ;;; ) int k;')]]):
        for pre in (0, 1):
            e = Env()
            e.h('a.h', e.c('A', 3))
            if items is not None:
                e.h('f.h', *items)
            res.append(e.session('fails%d-%d' % (j, pre), ([incl_('a.h')] if pre else []) + [ln(decl(dr('x', I, lit(1)))), incl_('f.h'), ln(X), ln(X)]))
    return res


def system(c):
    """The headers of the C library."""
    def S(n, *items): return Header(99, n, list(items), sys=True)
    out = []
    e = Env()
    U = e.use
    lim = dict(CHAR_BIT=8, SCHAR_MAX=127, SCHAR_MIN=-128, UCHAR_MAX=255, CHAR_MAX=127, CHAR_MIN=-128, SHRT_MAX=32767, SHRT_MIN=-32768, USHRT_MAX=65535, INT_MAX=2 ** 31 - 1)
    hs = [S('limits.h', *([e.c(k, v) for k, v in lim.items()] + [e.o('INT_MIN', lambda: bin_('-', un('-', U('INT_MAX')), lit(1)))])),
          S('stdio.h', e.c('EOF', -1), e.c('BUFSIZ', 8192), e.c('SEEK_END', 2), e.o('NULL', lambda: cast(('p', b('void')), lit(0)))),
          S('stdlib.h', e.c('EXIT_FAILURE', 1), e.c('RAND_MAX', 2147483647), e.o('NULL', lambda: cast(('p', b('void')), lit(0)))),
          S('errno.h', e.c('ENOENT', 2), e.c('EINTR', 4), e.c('ERANGE', 34)),
          S('stdint.h', *([('st', tdef(n + '_t', b(t))) for n, t in [('int8', 'schar'), ('uint8', 'uchar'), ('int16', 'short'), ('uint16', 'ushort'), ('int32', 'int'), ('uint32', 'uint'), ('int64', 'long'), ('uint64', 'ulong'), ('uintptr', 'ulong')]] + [e.c('INT8_MAX', 127), e.c('INT16_MIN', -32768), e.c('INT32_MAX', 2147483647), e.c('UINT8_MAX', 255)])),
          S('stdbool.h', e.c('true', 1), e.c('false', 0)), S('stddef.h', ('st', tdef('size_t', b('ulong'))), ('st', tdef('ptrdiff_t', b('long'))), e.o('NULL', lambda: cast(('p', b('void')), lit(0)))),
          S('string.h', ('st', tdef('size_t', b('ulong'))), e.o('NULL', lambda: cast(('p', b('void')), lit(0)))), S('ctype.h'), S('sys/types.h', ('st', tdef('size_t', b('ulong'))), ('st', tdef('ssize_t', b('long'))), ('st', tdef('pid_t', I)))]
    cp = ('p', b('char'))
    x = lambda n, v, rt, *a: ext(n, 'const', rt, [], *a, v=v)
    L = {'limits.h': [ln(U(k)) for k in list(lim) + ['INT_MIN']] + [ln(decl(dr('lv', b('uchar'), U('INT_MAX')))), ln(id_('lv'))],
         'stdio.h': [ln(U('EOF')), ln(U('BUFSIZ')), ln(U('SEEK_END')), ln(decl(dr('ch', I, U('EOF')))), ln(bin_('==', id_('ch'), U('EOF'))), ln(decl(dr('np', ('p', b('void')), U('NULL')))), ln(id_('np'))],
         'stdlib.h': [ln(U('EXIT_FAILURE')), ln(U('RAND_MAX')), ln(ext('abs', 'abs', I, [I], lit(-31))), ln(x('atoi', 451, I, st('451'))), ln(x('atol', -7, b('long'), st(' -7x')))],
         'errno.h': [ln(U('ENOENT')), ln(bin_('+', U('EINTR'), U('ERANGE')))],
         'stdint.h': [ln(decl(dr('b1', td('int8_t'), lit(200)))), ln(id_('b1')), ln(decl(dr('b2', td('uint8_t'), lit(456)))), ln(id_('b2')), ln(decl(dr('b3', td('uint64_t')))), ln(asg(id_('b3'), lit(-1))), ln(id_('b3')), ln(sze(id_('b3'))), ln(U('INT8_MAX')), ln(U('INT16_MIN')), ln(U('INT32_MAX')), ln(U('UINT8_MAX')),
                      ln(szt(td('uint16_t'))), ln(cast(td('int16_t'), lit(70000))), ln(cast(td('uint32_t'), lit(-1))), ln(decl(dr('b4', ('a', td('int16_t'), U('INT8_MAX'))))), ln(sze(id_('b4')))],
         'stdbool.h': [ln(U('true')), ln(U('false')), ln(un('!', U('true')))],
         'stddef.h': [ln(decl(dr('sz', td('size_t'), szt(I)))), ln(id_('sz')), ln(szt(td('ptrdiff_t')))],
         'string.h': [ln(x('strlen', 5, b('ulong'), st('hello'))), ln(x('strcmp', 0, I, st('a'), st('a'))), ln(decl(dr('sc', td('size_t'), x('strlen', 3, b('ulong'), st('abc'))))), ln(id_('sc'))],
         'ctype.h': [ln(x('toupper', 65, I, chr_("'a'"))), ln(x('tolower', 122, I, chr_("'Z'")))],
         'sys/types.h': [ln(decl(dr('pid', td('pid_t'), lit(12)))), ln(id_('pid')), ln(szt(td('ssize_t')))]}
    for h in hs:
        out.append(Session('sys-' + h.n.split('.')[0].replace('/', '-'), [incl_(h.n)] + L[h.n], headers=hs))
    # several: everything of all of them
    for j in range(3 if c.quick else 25):
        some = c.rng.sample(sorted(L), 4 if c.quick else 6)
        ls, known = [], []
        for n in some:
            ls.append(incl_(n))
            known += L[n]
            ls += [l for l in c.rng.sample(known, min(4, len(known))) if l.s.k == 'show' and l.s.a.k == 'mac']
        declares = [l for l in known if l.s.k == 'decl'] + [l for l in known if l.s.k != 'decl']
        out.append(Session('sys%d' % j, ls + declares, headers=hs))
    return out


def scripts(c):
    """What scripts include."""
    out = []
    def one(j):
        e = Env()
        U = lambda n, *a: e.use(n, *a, typed=False)
        H = e.use
        e.h('k.h', *guard('K_H', e.c('K', 11), e.f('PLUS', ['a', 'b'], lambda a, b_: bin_('+', a, b_)), ('st', tdef('kt', b('short'))), ('st', decl(dr('kv', td('kt'), H('K')))), ('st', fndef('kf', I, [('x', I)], blk(ret(H('PLUS', X, H('K'))))))), dir=0)
        e.h('k.h', e.c('K', 22), ('st', decl(dr('other', I, H('K')))), dir=1)
        e.h('l.h', ('inc', 'k.h', j == 0), e.o('L', lambda: H('PLUS' if j == 1 else 'LL', H('K'), lit(1)) if j == 1 else bin_('-', H('K'), lit(1))), dir=0 if j == 1 else 1)
        incs = [[incl('k.h', True), incl('k.h', False)], [incl('l.h', False)], [incl('l.h', True), incl('k.h', False)]][j]
        body = [out_('d', U('K')), out_('d', bin_('*', U('K'), lit(2)))]
        body += [out_('d', call('kf', lit(4))), out_('d', id_('kv')), out_('d', U('PLUS', lit(1), call('kf', U('K'))))]
        if j:
            body.append(out_('d', U('L')))
        if j != 1:
            body.append(out_('d', id_('other')))
        ss = incs + [decl(dr('g', I, U('K'))), decl(dr('v', ('a', td('kt'), U('K')))), fndef('main', I, [], blk(*body, out_('d', id_('g')), out_('lu', sze(V_)), repl(), ret(U('K'))))]
        s = e.session('script%d' % j, [ln(id_('g')), ln(id_('kv')), ln(call('kf', lit(1)))], script=ss)
        s.headers_typed = False
        out.append(s)
        s = e.session('script-top%d' % j, [], script=incs + body + [ret(lit(7))], main=False)
        s.headers_typed = False
        out.append(s)
    for j in range(3):
        one(j)
    e = Env()
    e.h('k.h', e.c('K', 1))
    for j, i in enumerate([incl('nope.h'), incl('nope.h', False), incl('k.h', False)]):
        s = e.session('script-fails%d' % j, [], script=[i, out_('d', lit(1)), ret(lit(7))], main=False)
        s.headers_typed = False
        out.append(s)
    return out


class Gen:
    """A random set of headers."""

    def __init__(self, r, i):
        self.r, self.i, self.e, self.n = r, i, Env(), 0
        self.ms = ['M%d' % j for j in range(6)]
        self.fs = {'F%d' % j: r.randrange(1, 3) for j in range(3)}
        self.ts, self.vs, self.stable = [], [], []

    def use(self, k=6, depth=1, args=(), f=True):
        """An expression with macros whose number is less than k."""
        r = self.r
        U = self.e.use
        c = r.random()
        if args and c < .4:
            return r.choice(args)
        if depth <= 0 or c < .55:
            return U(r.choice(self.ms[:k])) if k and r.random() < .7 else lit(r.randrange(-9, 100))
        if f and c < .65 and k > 2:
            n = r.choice(sorted(self.fs))
            return U(n, *[self.use(min(k, 3), depth - 1, args, False) for _ in range(self.fs[n])])
        if c < .9:
            return bin_(r.choice(['+', '-', '*', '&', '|', '^', '<', '>', '==', '!=', '<=', '>=']), self.use(k, depth - 1, args, f), self.use(k, depth - 1, args, f))
        if c < .95:
            return cond(self.use(k, depth - 1, args, f), self.use(k, depth - 1, args, f), self.use(k, depth - 1, args, f))
        return un(r.choice(['-', '~', '!']), self.use(k, depth - 1, args, f))

    def frozen(self, make):
        """A function of the arguments that builds the same node every time."""
        seed = self.r.random()
        def body(*args):
            save, self.r = self.r, random.Random(seed)
            try:
                return make(args)
            finally:
                self.r = save
        return body

    def define(self):
        r = self.r
        if r.random() < .25:
            n = r.choice(sorted(self.fs))
            ps = ['a', 'b'][:self.fs[n]]
            k = 0 if r.random() < .7 else 1
            return self.e.d(Macro(n, self.frozen(lambda args: self.use(k, 2, args, False)), ps))
        j = r.randrange(6)
        return self.e.d(Macro(self.ms[j], self.frozen(lambda args: self.use(j if j < 3 else 2, 1, (), False)) if r.random() < .4 else (lambda v: lambda: lit(v))(r.randrange(-20, 60))))

    def condition(self):
        r = self.r
        n = r.choice(self.ms)
        U = lambda n: self.e.use(n, other=lit(0))
        c = r.random()
        if c < .3:
            return 'ifdef ' + n, defd(n)
        if c < .6:
            return 'ifndef ' + n, un('!', defd(n))
        if c < .8:
            v = r.randrange(-5, 30)
            op = r.choice(['<', '>', '==', '!=', '>='])
            t = bin_(op, U(n), lit(v))
            return 'if ' + render(t), t
        m = r.choice(self.ms)
        t = r.choice([land, lor])(defd(n), bin_('<', U(m), lit(r.randrange(0, 40))))
        return 'if ' + render(t), t

    def items(self, k, depth, later, dir, guarded):
        r = self.r
        res = []
        for _ in range(k):
            c = r.random()
            if c < .5:
                res.append(self.define())
            elif c < .6:
                res.append(('undef', r.choice(self.ms)))
            elif c < .75 and depth:
                t, n = self.condition()
                res.append(('if', t, n, self.items(r.randrange(1, 3), depth - 1, later, dir, guarded), self.items(r.randrange(0, 3), depth - 1, later, dir, guarded)))
            elif c < .88 and later:
                res.append(('inc', r.choice(later), r.random() < .6))
            elif guarded and depth:
                self.n += 1
                c = r.random()
                if c < .3:
                    self.ts.append('t%d' % self.n)
                    res.append(('st', tdef('t%d' % self.n, b(r.choice(INTS)))))
                elif c < .6:
                    self.vs.append('w%d' % self.n)
                    res.append(('st', decl(dr('w%d' % self.n, b(r.choice(INTS)), self.use(6, 1)))))
                elif c < .8:
                    self.vs.append('E%d' % self.n)
                    res.append(('st', enum('en%d' % self.n, [('E%d' % self.n, self.use(3, 1) if r.random() < .6 else None), ('EE%d' % self.n, None)])))
                else:
                    self.vs.append('f%d' % self.n)
                    res.append(('st', fndef('f%d' % self.n, I, [], blk(ret(lit(self.n))), 'static ')))
        return res

    def session(self):
        r = self.r
        nd = r.randrange(1, 4)
        names = ['h%d.h' % i for i in range(5)]
        for d in range(1, nd + 1):
            for i, n in enumerate(names):
                if d == 1 or r.random() < .4:
                    # headers include others with greater numbers, or any if they are guarded
                    g = r.choice(['guard', 'guard', 'once', 'none'])
                    items = self.items(r.randrange(1, 6), 2, names[i + 1:], d, g != 'none')
                    items = guard('GUARD_%d_%d' % (i, d), *items) if g == 'guard' else [('once',)] + items if g == 'once' else items
                    self.e.h(n, *items, dir=d, eol=r.random() < .8)
        dirs = r.sample(range(1, nd + 1), nd)
        ls = []
        for i, n in enumerate(self.ms):
            ls.append(ln(decl(dr(n, I, lit(500 + i)))))
        included = 0
        for _ in range(r.randrange(10, 25)):
            c = r.random()
            if c < .3 and included < 6:
                included += 1
                ls.append(incl_(r.choice(names)))
            elif c < .8:
                ls.append(ln(self.use(6, r.choice([0, 0, 1, 2]), (), False)))
            elif c < .9:
                v = 'x%d' % len(ls)
                ls += [ln(decl(dr(v, b(r.choice(INTS)), self.use(6, 1, (), False)))), ln(id_(v))]
            else:
                ls.append(r.choice([blank(), bad('x y;'), insp('nothing')]))
        # what needn't be defined ends the session
        tail = [ln(id_(n)) if n[0] != 'f' else ln(call(n)) for n in self.vs[:3]] + [insp(n) for n in self.vs[:3] if n[0] != 'f'] + [ln(self.use(6, 2)) for _ in range(2)]
        r.shuffle(tail)
        s = self.e.session('rnd%d' % self.i, ls + tail, dirs)
        return s.place()


def run(c):
    progs = basics(c) + conditions(c) + paths(c) + declarations(c) + clashes(c) + typenames(c) + failures(c) + system(c) + scripts(c)
    for s in progs[:3]:
        s.alone = True
    rnd = [Gen(c.rng, i).session() for i in range(120 if c.quick else 6000)]
    c.extra['sessions'] = {'systematic': len(progs), 'random': len(rnd), 'lines': sum(len(s.lines) for s in progs + rnd)}
    c.check(progs + rnd)
    some = progs[::4] + rnd[:10 if c.quick else 300]
    if not c.enough():
        c.check(some, env={'BIC_VERIF_GC': str(c.rng.choice([7, 23]))}, note='with many collections: ')
