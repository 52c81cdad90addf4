"""C15: sessions of the REPL. CMachine reads the lines of a session, evaluates
each in the scope in which the REPL was started, and shows the result; every
line that bic prints has to be the next one of the specification's. Addresses
are unified: an object has one address for the whole session and live objects
don't overlap."""
from cprog import *
from arith import *
from repl import *
import cgen

I, X, Y, P_, V_, S_ = b('int'), id_('x'), id_('y'), id_('p'), id_('v'), id_('s')
T = lambda n: ('tag', 'struct ' + n)
FEATS = ('decl', 'if', 'loop', 'block', 'ret', 'call', 'break', 'array', 'struct', 'ptr', 'static')
BAD = ['int;+', 'x +;', '1 +', ')', 'x = = 3;', 'x = "abc', 'if', 'return;', 'while (1) ;', 'x)', '"abc', '@', 'x $ 3;', 'struct {', 'int a b;',
       '5x;', "'", '}', '{ }', '{ 1; }', 'int f() { }', '? ;', '# define A', 'x y', '1 2;', '"a" b;', 'else', '[1];', '.x;', 'x.;', 'x->;']


def values(c):
    out = []
    r = c.rng
    ls = []
    for i, t in enumerate(INTS):
        lo = -2 ** (WIDTH[t] - 1) if SIGNED[t] else 0
        hi = 2 ** (WIDTH[t] - (1 if SIGNED[t] else 0)) - 1
        n = 'v%d' % i
        ls += [ln(decl(dr(n, b(t)))), ln(id_(n))]
        for v in (0, 1, -1, lo, hi, 65, 200, -129, 2 ** 31 - 1):
            ls += [ln(asg(id_(n), lit(v) if abs(v) < 2 ** 63 else un('~', lit(0)))), ln(id_(n))]
        ls += [ln(inc(id_(n), -1)), ln(id_(n)), ln(un('-', cast(I, lit(3)))), ln(un('!', id_(n))), ln(cast(b(t), lit(300)))]
    out.append(Session('ints', ls))
    fl = lambda n, d: flt('%d.%06d' % (n // 1024, n % 1024 * 1000000 // 1024), n)
    ls = [ln(decl(dr('f', b('float')), dr('g', b('float'), flt('1.5', 1536)))), ln(decl(dr('d', b('double'), flt('0.25', 256)))), ln(id_('f')), ln(id_('g')), ln(id_('d')), ln(asg(id_('f'), id_('d'))),
          ln(asg(id_('d'), lit(7))), ln(id_('d')), ln(flt('3.25', 3328)), ln(asg(id_('f'), un('-', lit(12)))), ln(id_('f')), ln(cast(b('double'), lit(3))), ln(cast(I, id_('g'))),
          ln(decl(dr('a', ('a', b('double'), 3)))), ln(asg(idx(id_('a'), lit(1)), id_('g'))), ln(idx(id_('a'), lit(1))), ln(idx(id_('a'), lit(2)))]
    out.append(Session('floats', ls))
    E = [bin_('+', lit(1), lit(2)), bin_('*', lit(7), bin_('-', lit(3), lit(9))), comma(lit(1), lit(2)), cond(X, lit(4), lit(5)), land(X, lit(0)), lor(X, lit(9)), bin_('<', X, lit(3)), szt(I),
         sze(X), szt(T('t')), chr_("'a'"), chr_("'\\n'"), un('~', X), bin_('<<', lit(1), lit(20)), num_('0x7f'), num_('017'), asg(X, asg(Y, lit(12))), casg('-', X, lit(5)), inc(X, -1, True), inc(X, 1), X, Y,
         bin_('/', X, lit(2)), bin_('%', un('-', X), lit(3)), cast(b('char'), X), bin_('==', X, Y), un('-', un('-', X)), lit(2 ** 40), bin_('+', lit(2 ** 33), X)]
    out.append(Session('expressions', [ln(sudef('struct', 't', [('a', b('char')), ('b', b('long'))])), ln(decl(dr('x', I, lit(3)), dr('y', I)))] + [ln(e) for e in E] + [ln(e, full=True) for e in E]))
    return out


def compounds(c):
    out = []
    inner = [('a', I), ('c', ('a', b('char'), 4))]
    ms = [('i', I), ('u', b('uchar')), ('in', T('in')), ('p', ('p', I)), ('f', b('float')), ('arr', ('a', b('short'), 3)), ('n', ('p', T('t'))), ('q', ('p', b('char'))), ('w', b('ulong'))]
    defs = [sudef('struct', 'in', inner), sudef('struct', 't', ms), sudef('union', 'w', [('l', b('uint')), ('c', b('char')), ('s', b('ushort'))])]
    acts = [S_, asg(mem(S_, 'i'), un('-', lit(4))), asg(mem(S_, 'u'), lit(250)), asg(mem(mem(S_, 'in'), 'a'), lit(77)), asg(mem(S_, 'p'), addr(mem(S_, 'i'))), asg(mem(S_, 'f'), flt('2.5', 2560)),
            asg(idx(mem(mem(S_, 'in'), 'c'), lit(0)), chr_("'x'")), asg(idx(mem(S_, 'arr'), lit(1)), lit(9)), asg(mem(S_, 'n'), addr(S_)), asg(mem(S_, 'q'), st('str')), S_, mem(S_, 'in'), addr(mem(S_, 'in')),
            arrow(arrow(mem(S_, 'n'), 'n'), 'in'), deref(mem(S_, 'n')), addr(mem(S_, 'w')), deref(mem(S_, 'p')), mem(S_, 'q'), idx(mem(S_, 'q'), lit(1)), mem(mem(S_, 'in'), 'c'), addr(S_),
            id_('un'), asg(mem(id_('un'), 'l'), lit(0x4241)), id_('un'), mem(id_('un'), 's'), V_, idx(V_, lit(1)), asg(arrow(bin_('+', V_, lit(1)), 'i'), lit(5)), idx(V_, lit(1)), deref(bin_('+', V_, lit(1))),
            addr(idx(V_, lit(2))), bin_('-', addr(idx(V_, lit(2))), V_), asg(id_('ps'), bin_('+', V_, lit(1))), deref(id_('ps')), inc(id_('ps')), deref(id_('ps')), sze(S_), arrow(id_('ps'), 'in')]
    ds = [decl(dr('s', T('t'))), decl(dr('v', ('a', T('t'), 3)), dr('ps', ('p', T('t')))), decl(dr('un', ('tag', 'union w')))]
    out.append(Session('compounds', [ln(d) for d in defs + ds] + [ln(e) for e in acts]))
    out.append(Session('compounds-start', [ln(e) for e in acts], start=defs + ds))
    out.append(Session('compounds-script', [ln(e) for e in acts], script=defs + ds + [fndef('main', I, [], blk(repl(), out_('d', mem(S_, 'i')), ret(lit(3))))]))
    # defined with what they declare
    d = sdef('struct', [('a', I), ('e', sdef('struct', [('x', b('char')), ('y', b('long'))])), ('k', ('a', I, 2))])
    out.append(Session('anonymous', [ln(decl(dr('s', d))), ln(S_), ln(asg(mem(mem(S_, 'e'), 'y'), lit(6))), ln(S_), ln(mem(S_, 'e')), ln(addr(mem(mem(S_, 'e'), 'y'))), ln(addr(mem(S_, 'e'))), ln(addr(idx(mem(S_, 'k'), lit(1)))),
                                     ln(decl(dr('z', sdef('struct', [('a', b('short'))], 'nz')))), ln(decl(dr('z2', T('nz')))), ln(asg(mem(id_('z2'), 'a'), lit(70000))), ln(id_('z2')), ln(id_('z'))]))
    # members of anonymous members
    C_ = b('char')
    d = sdef('struct', [('a', I), (None, sdef('struct', [('b', C_), (None, sdef('union', [('c', b('short')), ('d', C_), (None, sdef('struct', [('e', C_), ('f', ('p', I)), ('g', ('a', C_, 2))]))]))])), (None, sdef('struct', [('o', I)], 'oo')),
                        (None, edef([('AA', None), ('BB', lit(5))], 'ee')), ('h', sdef('struct', [(None, sdef('struct', [('x', C_)])), ('y', b('long'))])), (None, sdef('struct', [('z', ('tag', 'enum ee'))]))], 'hid')
    m = lambda n: mem(S_, n)
    acts = [S_, asg(m('b'), lit(300)), asg(m('c'), lit(0x4241)), m('d'), m('e'), asg(m('e'), lit(67)), m('c'), asg(m('f'), addr(m('a'))), asg(deref(m('f')), lit(12)), asg(idx(m('g'), lit(1)), lit(90)), asg(mem(m('h'), 'y'), un('-', lit(7))), asg(mem(m('h'), 'x'), lit(88)),
            m('h'), addr(mem(m('h'), 'y')), addr(m('e')), addr(m('f')), sze(S_), sze(m('h')), S_, id_('BB'), szt(T('oo'))]
    for k, src in enumerate([d, T('hid')]):
        first = [ln(sudef('struct', 'hid', d[4]))] if k else []
        out.append(Session('hidden%d' % k, first + [ln(decl(dr('s', src))), ln(decl(dr('hp', ('p', T('hid')), addr(S_)))), ln(decl(dr('ov', T('oo'))))] + [ln(e) for e in acts] + [ln(arrow(id_('hp'), 'c')), ln(inc(arrow(id_('hp'), 'e'))), ln(deref(id_('hp'))), ln(decl(dr('s2', ('a', T('hid'), 2)))), ln(mem(idx(id_('s2'), lit(1)), 'f')), ln(id_('ov'))]))
    out.append(Session('hidden-start', [ln(e) for e in acts], start=[sudef('struct', 'hid', d[4]), decl(dr('s', T('hid')))]))
    return out


def out_(f, a): return out((f, a))


def pointers(c):
    L = [ln(decl(dr('x', I, lit(5)), dr('p', ('p', I)), dr('v', ('a', I, 5)))), ln(P_), ln(asg(P_, addr(X))), ln(P_), ln(addr(X)), ln(deref(P_)), ln(asg(deref(P_), lit(8))), ln(X), ln(asg(P_, V_)), ln(V_), ln(addr(idx(V_, lit(3)))),
         ln(bin_('+', P_, lit(3))), ln(casg('+', P_, lit(2))), ln(inc(P_)), ln(P_), ln(inc(P_, -1, True)), ln(bin_('-', P_, V_)), ln(asg(deref(inc(P_)), lit(44))), ln(idx(V_, lit(2))), ln(P_), ln(asg(P_, lit(0))), ln(P_),
         ln(decl(dr('pp', ('p', ('p', I))))), ln(asg(id_('pp'), addr(P_))), ln(asg(deref(id_('pp')), addr(idx(V_, lit(1))))), ln(P_), ln(deref(deref(id_('pp')))), ln(addr(P_)), ln(cast(('p', b('void')), P_)), ln(cast(('p', b('char')), lit(0))),
         ln(decl(dr('c', ('a', b('char'), 6)), dr('q', ('p', b('char'))))), ln(id_('c')), ln(asg(idx(id_('c'), lit(0)), chr_("'h'"))), ln(asg(idx(id_('c'), lit(1)), chr_("'i'"))), ln(id_('c')), ln(asg(id_('q'), bin_('+', id_('c'), lit(1)))),
         ln(id_('q')), ln(asg(id_('q'), st('a literal'))), ln(id_('q')), ln(bin_('+', id_('q'), lit(2))), ln(deref(id_('q'))), ln(inc(id_('q'))), ln(id_('q')), ln(addr(id_('c'))) if False else ln(addr(idx(id_('c'), lit(5)))),
         ln(decl(dr('l', ('a', ('p', b('char')), 2)))), ln(idx(id_('l'), lit(1))), ln(asg(idx(id_('l'), lit(1)), id_('q'))), ln(idx(id_('l'), lit(1))), ln(id_('l')), ln(bin_('==', P_, addr(idx(V_, lit(1))))),
         ln(decl(dr('uc', ('p', b('uchar')))), ), ln(asg(id_('uc'), cast(('p', b('uchar')), id_('c')))), ln(id_('uc')), ln(st('on its own')), ln(decl(dr('q2', ('p', b('char')), st('first'))), ), ln(id_('q2'))]
    out = [Session('pointers', L)]
    # many objects: none overlaps another
    L = []
    for i in range(12):
        t = INTS[1 + i % 7]
        L += [ln(decl(dr('a%d' % i, ('a', b(t), 3 + i)), dr('b%d' % i, b(t), lit(i)))), ln(addr(id_('b%d' % i))), ln(id_('a%d' % i)) if t != 'char' else ln(addr(idx(id_('a%d' % i), lit(1))))]
    for i in range(12):
        L += [ln(addr(idx(id_('a%d' % i), lit(2 + i)))), ln(addr(id_('b%d' % i))), ln(id_('b%d' % i))]
    out.append(Session('addresses', L))
    return out


def declarations(c):
    te = ('p', I)
    td = lambda n: ('td', n)
    L = [ln(tdef('num', I)), ln(decl(dr('x', td('num'), lit(4)))), ln(X), ln(tdef('pnum', ('p', td('num')))), ln(decl(dr('p', td('pnum'), addr(X)))), ln(deref(P_)), ln(tdef('vec', ('a', b('short'), 3))), ln(decl(dr('v', td('vec')))),
         ln(asg(idx(V_, lit(1)), lit(70000))), ln(idx(V_, lit(1))), ln(szt(td('vec'))), ln(cast(td('num'), lit(9))), ln(enum('e', [('A', None), ('B', lit(5)), ('C', None)])), ln(id_('C')), ln(decl(dr('k', ('tag', 'enum e')))),
         ln(asg(id_('k'), id_('B'))), ln(id_('k')), ln(enum('#1', [('D', un('-', lit(2))), ('E_', None)]), 'enum { D = -2, E_ };'), ln(id_('E_')), ln(sudef('struct', 'm', [('a', td('num')), ('n', ('p', T('m')))])), ln(decl(dr('s', T('m')))),
         ln(tdef('ms', T('m'))), ln(decl(dr('t', td('ms')))), ln(asg(mem(id_('t'), 'n'), addr(S_))), ln(asg(arrow(mem(id_('t'), 'n'), 'a'), X)), ln(S_), ln(id_('t')), ln(sufwd('struct fw')), ln(decl(dr('fp', ('p', T('fw'))))), ln(id_('fp')),
         ln(sudef('struct', 'fw', [('z', b('char'))])), ln(decl(dr('fv', T('fw')))), ln(asg(id_('fp'), addr(id_('fv')))), ln(asg(arrow(id_('fp'), 'z'), lit(66))), ln(id_('fv')), ln(deref(id_('fp'))),
         ln(decl(dr('i', I), dr('j', I, bin_('+', X, lit(3))), dr('jj', I, id_('j')))), ln(id_('j')), ln(id_('jj')), ln(id_('i')), ln(proto('fun', I, [('a', I)])), ln(proto('abs', I, [('a', I)])), ln(ext('abs', 'abs', I, [I], un('-', X))), ln(asg(X, ext('abs', 'abs', I, [I], lit(-12)))), ln(X), ln(decl(dr('z', I, lit(2)), static=True)), ln(id_('z')),
         ln(decl(dr('uc', b('uchar'), lit(300)), dr('ud', b('uchar'), un('-', lit(1))))), ln(id_('uc')), ln(id_('ud')), ln(decl(dr('cs', b('int', 'const int'), lit(7)))), ln(id_('cs')), ln(decl(dr('ul', b('ulong', 'long unsigned int')))), ln(asg(id_('ul'), un('-', lit(1)))), ln(id_('ul'))]
    out = [Session('declarations', L), Session('declarations-no-newline', L[:3] + [ln(X)], eol=False)]
    # objects of static storage duration live as long as the session, whatever comes in between
    r = c.rng
    for rep in range(2 if c.quick else 20):
        L, show = [ln(sudef('struct', 'm', [('a', I), ('b', ('a', b('char'), 3)), ('n', ('p', T('m')))])), ln(decl(dr('x', I, lit(4))))], []
        sd = lambda n, te, e=None: ln(decl(dr(n, te, e), static=True))
        for k in range(10):
            n = 'q%d' % k
            N = id_(n)
            kind = r.choice(['int', 'arr', 'su', 'ptr', 'many', 'sarr'])
            if kind == 'int':
                t = r.choice(INTS)
                L.append(sd(n, b(t), lit(k + 50)))
                show.append(N)
            elif kind == 'arr':
                t = r.choice(INTS)
                L += [sd(n, ('a', b(t), 5)), ln(asg(idx(N, lit(3)), lit(k + 60)))]
                show += [idx(N, lit(3)), idx(N, lit(1))]
            elif kind == 'su':
                L += [sd(n, T('m')), ln(asg(mem(N, 'a'), lit(k + 70))), ln(asg(mem(N, 'n'), addr(N)))]
                show += [N, arrow(arrow(mem(N, 'n'), 'n'), 'a')]
            elif kind == 'ptr':
                L += [sd(n, ('p', I), addr(X))]
                show += [deref(N)]
            elif kind == 'sarr':
                L += [sd(n, ('a', T('m'), 2)), ln(asg(mem(idx(N, lit(1)), 'a'), lit(k))), ln(asg(idx(mem(idx(N, lit(1)), 'b'), lit(2)), lit(k)))]
                show += [idx(N, lit(1)), mem(idx(N, lit(0)), 'a')]
            else:
                L += [ln(decl(dr(n, I, lit(k)), dr('r' + n, ('a', I, 3)), dr('s' + n, I, lit(k + 1)), static=True)), ln(asg(idx(id_('r' + n), lit(2)), lit(8)))]
                show += [N, idx(id_('r' + n), lit(2)), id_('s' + n)]
            L += [ln(inc(X)), ln(r.choice(show)), ln(decl(dr('w%d' % k, ('a', b('long'), r.choice([3, 5])))))]
            L += [ln(asg(idx(id_('w%d' % k), lit(1)), lit(999)))]
        out.append(Session('statics%d' % rep, L + [ln(e) for e in show]))
    # the names of a session are those of its scope: members and tags are in other name spaces
    L = [ln(sudef('struct', 'x', [('x', I)])), ln(decl(dr('x', T('x')))), ln(asg(mem(X, 'x'), lit(3))), ln(X), ln(mem(X, 'x')), ln(decl(dr('e', ('p', T('x')), addr(X)))), ln(arrow(id_('e'), 'x')), ln(szt(T('x')))]
    out.append(Session('spaces', L))
    return out


def errors(c):
    out, r = [], c.rng
    L = [ln(decl(dr('x', I, lit(1)))), ln(sudef('struct', 'g', [('a', I)])), ln(decl(dr('s', T('g'))))]
    for i, t in enumerate(BAD):
        L += [bad(t), ln(inc(X)), ln(X)]
        if i % 3 == 0:
            L += [ln(asg(mem(S_, 'a'), X)), ln(S_), blank()]
    out.append(Session('rejected', L))
    # pairs of rejected lines, so that nothing of the first can complete the second
    for j in range(2 if c.quick else 8):
        L = [ln(decl(dr('x', I, lit(1))))]
        for _ in range(25):
            L += [bad(t) for t in r.sample(BAD, r.choice([1, 2, 3]))]
            L += r.choice([[ln(inc(X))], [ln(decl(dr('n%d' % len(L), I, X))), ln(id_('n%d' % len(L)))], [ln(casg('-', X, lit(1)), r.choice(['x -= 1;', 'x -= 1  ; ', '  x-=1;', 'x -= /* c */ 1;', '/* a */ x -= 1; /* b */', 'x -= 1; // c']))],
                           [blank(r.choice(['', ' ', '  ', '/* nothing */', '// nothing', ';'])), ln(X)]])
        out.append(Session('rejected%d' % j, L))
    # what can't be evaluated ends the session with an error
    for j, (t, n) in enumerate([('nope;', 'nope'), ('x + nope;', 'nope'), ('nope = 3;', 'nope'), ('nope(1);', 'nope'), ('int z = nope;', 'nope'), ('&nope;', 'nope'), ('nope->a;', 'nope'), ('nope_t q;', 'nope_t') if False else ('s.nope;', ''),
                                ('p->nope;', ''), ('x.a;', ''), ('*x;', ''), ('int int;', ''), ('s.nope = 3;', ''), ('s.a.b;', ''), ('struct nope z;', 'struct nope') if False else ('int x;', ''), ('x; x;', ''), ('3 = x;', ''), ('f2(1);', 'f2')]):
        out.append(Session('ends%d' % j, [ln(decl(dr('x', I, lit(1)))), ln(sudef('struct', 'g', [('a', I)])), ln(decl(dr('s', T('g')), dr('p', ('p', T('g')), addr(S_)))), bad(')'), ln(X), die(t, n), ln(X)]))
    return out


def functions(c):
    """The functions of the startup file, and of the script."""
    f = fndef('add', b('long'), [('a', b('char')), ('b', I)], blk(out_('d', id_('b')), ret(bin_('+', id_('a'), id_('b')))))
    g = fndef('count', I, [], blk(decl(dr('n', I, lit(10)), static=True), ret(inc(id_('n')))))
    fact = fndef('fact', b('ulong'), [('n', I)], blk(if_(bin_('<', id_('n'), lit(2)), ret(lit(1))), ret(bin_('*', id_('n'), call('fact', bin_('-', id_('n'), lit(1)))))))
    vd = fndef('say', b('void'), [('s', ('p', b('char')))], blk(out_('s', id_('s')), es(inc(id_('said')))))
    sp = fndef('find', ('p', T('t')), [('i', I)], blk(ret(addr(idx(id_('tab'), id_('i'))))))
    glob = [sudef('struct', 't', [('a', I), ('b', b('char'))]), decl(dr('said', I)), decl(dr('tab', ('a', T('t'), 4)))]
    fs = glob + [f, g, fact, vd, sp]
    L = [ln(call('add', lit(65), lit(3))), ln(call('add', lit(321), lit(-3))), ln(call('count')), ln(call('count')), ln(call('fact', lit(10))), ln(call('say', st('hello there'))), ln(id_('said')), ln(call('say', st(''))), ln(id_('said')),
         ln(call('find', lit(2))), ln(addr(idx(id_('tab'), lit(2)))), ln(deref(call('find', lit(1)))), ln(asg(arrow(call('find', lit(1)), 'a'), call('add', call('count'), call('fact', lit(3))))), ln(deref(call('find', lit(1)))), ln(idx(id_('tab'), lit(1))),
         ln(bin_('-', call('find', lit(3)), id_('tab'))), ln(decl(dr('r', b('char'), call('fact', lit(6))))), ln(id_('r')), ln(decl(dr('fp', ('p', ('fn', b('long'), [b('char'), I])), addr(id_('add'))))), ln(call(id_('fp'), lit(1), lit(2))),
         ln(call(deref(id_('fp')), lit(2), lit(2))), ln(id_('fp')), ln(addr(id_('add')))]
    out = [Session('functions', L, start=fs), Session('functions-script', L[:-2] + [ln(id_('fp'))], script=fs + [fndef('main', I, [], blk(repl(), out_('d', id_('said')), ret(call('count'))))])]
    return out


def places(c):
    """<REPL>; in a program: the names that are visible there, and what the
    program does afterwards."""
    res = []
    base = lambda: [decl(dr('g', I, lit(1)), dr('h', I, lit(2)))]
    L = lambda *es: [ln(e) for e in es]
    G, H, A, N_ = id_('g'), id_('h'), id_('a'), id_('n')
    main = lambda *ss: fndef('main', I, [], blk(*ss))
    sh = lambda *es: [out(*[('d', e) for e in es])]
    res.append(Session('place-top', L(G, asg(G, lit(7)), H) + [ln(decl(dr('nn', I, lit(3)))), ln(id_('nn'))], script=base() + [repl()] + sh(G, H) + [ret(G)], main=False))
    res.append(Session('place-main', L(G, asg(G, lit(7)), X, asg(X, bin_('+', G, H)), P_, deref(P_)), script=base() + [main(decl(dr('x', I, lit(20))), decl(dr('p', ('p', I), addr(X))), repl(), *sh(G, X), ret(X))]))
    res.append(Session('place-block', L(X, G, asg(X, lit(5)), asg(H, X)), script=base() + [main(decl(dr('x', I, lit(1))), blk(decl(dr('x', I, lit(2))), decl(dr('g', b('char'), lit(70))), repl(), *sh(X, G, H)), *sh(X, G, H), ret(lit(0)))]))
    res.append(Session('place-function', L(A, N_, asg(A, lit(9)), casg('+', N_, lit(1)), H), script=base() + [fndef('f', I, [('a', I)], blk(decl(dr('n', I, lit(40)), static=True), repl(), *sh(A), es(inc(N_)), ret(N_))),
               main(decl(dr('a', I, lit(3))), *sh(call('f', lit(1))), *sh(A), *sh(call('f', lit(2))), ret(lit(0)))]))
    res.append(Session('place-loop', L(N_, inc(N_), X, asg(X, N_)), script=base() + [main(decl(dr('x', I, lit(0))), for_(decl(dr('n', I, lit(0))), bin_('<', N_, lit(3)), inc(N_), blk(decl(dr('y', I, bin_('*', N_, lit(2)))), repl(), *sh(N_, X, Y))), *sh(X), ret(lit(0)))]))
    res.append(Session('place-if', L(G, X), script=base() + [main(decl(dr('x', I, lit(0))), if_(G, repl(), es(lit(0))), if_(X, repl(), *sh(X)), ret(lit(4)))]))
    res.append(Session('place-rec', L(N_, asg(N_, lit(0)), G), script=base() + [fndef('r', I, [('n', I)], blk(if_(bin_('==', N_, lit(0)), blk(repl(), ret(N_))), es(asg(H, call('r', bin_('-', N_, lit(1))))), *sh(N_, H), ret(bin_('+', H, N_)))), main(*sh(call('r', lit(3))), ret(lit(0)))]))
    # the startup file is evaluated when the first REPL starts
    for k in range(2):
        st_ = [decl(dr('sv', I, lit(11))), sudef('struct', 'sq', [('m', I)]), decl(dr('so', T('sq'))), fndef('sf', I, [('a', I)], blk(es(casg('+', id_('sv'), A)), ret(id_('sv')))), es(asg(mem(id_('so'), 'm'), lit(6)))]
        scr = base() + [main(decl(dr('a', I, lit(5))), *([repl()] * (k + 1)), *sh(A, G), ret(A))]
        res.append(Session('place-startup%d' % k, L(id_('sv'), id_('so'), call('sf', A), id_('sv'), asg(G, id_('sv')), G, asg(A, lit(8))), start=st_, script=scr))
    # and only when there is a REPL
    res.append(Session('place-none', [], start=[es(asg(id_('sx'), lit(1)))], script=base() + [main(if_(bin_('>', G, H), repl()), *sh(G, H), ret(lit(9)))]))
    # nothing is typed
    res.append(Session('place-empty', [], script=base() + [main(repl(), *sh(G, H), ret(lit(9)))]))
    res.append(Session('empty', []))
    res.append(Session('startup-empty', [ln(lit(4))], pre=['/* nothing */']))
    res.append(Session('die-in-script', [ln(G), die('nope;', 'nope')], script=base() + [main(repl(), *sh(G, H), ret(lit(9)))]))
    return res


def long_sessions(c):
    n = 60 if c.quick else 400
    r = c.rng
    L = [ln(decl(dr('x', b('long'), lit(1))))]
    for i in range(n):
        L += r.choice([[ln(asg(X, bin_('%', bin_('+', bin_('*', X, lit(37)), lit(i)), lit(10007))))], [ln(decl(dr('y%d' % i, I, X))), ln(id_('y%d' % i))], [bad(r.choice(BAD))], [ln(X)]])
    s = Session('long', L)
    s.run_ = s.run
    # few files: nothing that a line opens may stay open
    s.run = lambda bic, sc, **kw: s.run_(bic, sc, wrap=['bash', '-c', 'ulimit -n 24; exec "$@"', 'x'], **dict(kw, timeout=120))
    return [s]


def random_session(c, i):
    r = c.rng
    g = cgen.Gen(r, r.choice([INTS, ['int', 'char', 'ulong'], ['int']]), FEATS, 3)
    start = [g.struct() for _ in range(r.randrange(1, 3))]
    for _ in range(r.randrange(1, 4)):
        start += g.decl_array() if r.random() < .3 else g.decl_struct() if r.random() < .4 else [g.decl_scalar()]
    for _ in range(r.randrange(0, 3)):
        start.append(g.function(r.choice(g.types), r.randrange(0, 4), r.randrange(2, 6), .3))
    lines = []
    inside = r.random() < .4
    if inside:
        g.scopes.append([])
        g.infn = 'int'
        pre = g.stmts(3, .4)
    for _ in range(r.randrange(8, 20)):
        k = r.random()
        g.budget = 20
        if k < .25:
            lines.append(ln(g.expr(2).e, full=r.random() < .2))
        elif k < .55:
            s = g.assign()
            if s.k == 'expr':
                lines.append(ln(s.a))
        elif k < .65:
            lines.append(ln(g.decl_scalar(.3 if inside else 0)))
        elif k < .7:
            s = g.decl_pointer()
            if s.k == 'decl':       # (a char needn't be part of a string)
                lines += [ln(s)] + ([ln(id_(s.ds[0].n))] if s.ds[0].te[1] != b('char') else []) + [ln(deref(id_(s.ds[0].n)))]
        elif k < .8:
            vs = [v for v in g.vars() if v.te[0] == 'tag' and all(t != 'char' or not n for _, t, n in v.fields) or v.te[0] == 'a' and v.te[1] != b('char')]
            if vs:
                v = r.choice(vs)
                lines.append(ln(id_(v.n) if v.te[0] == 'tag' or r.random() < .5 else g.elem(id_(v.n), v.size)) if v.te[0] == 'tag' or v.size else ln(id_(v.n)))
        elif k < .85:
            lines.append(bad(r.choice(BAD)))
        elif k < .95:
            vs = g.lvalues()
            if vs:
                lines.append(ln(r.choice(vs)[0]()))
        elif not inside or True:
            t = r.choice(g.types)
            n = g.name('w')
            lines += [ln(decl(dr(n, b(t)), dr(n + 'p', ('p', b(t))))), ln(id_(n + 'p')) if not inside else blank(), ln(asg(id_(n), lit(r.randrange(0, 100) if t != 'char' else 0))), ln(asg(id_(n + 'p'), addr(id_(n)))), ln(deref(id_(n + 'p')))]
            lo, hi = cgen.ival(t)
            g.scopes[-1].append(cgen.V(n, b(t), lo, hi, len(g.scopes)))
    if not inside:
        return Session('rnd%d' % i, lines, start=start)
    rest = g.stmts(2, .0) + g.show_all()
    g.budget = 8
    main = fndef('main', I, [], blk(*pre, repl(), *rest, ret(bin_('&', g.fit(g.pure(2)).e, lit(127)))))
    return Session('rnd%d' % i, lines, script=start + [main])


def run(c):
    progs = values(c) + compounds(c) + pointers(c) + declarations(c) + errors(c) + functions(c) + places(c) + long_sessions(c)
    rnd = [random_session(c, i) for i in range(120 if c.quick else 5000)]
    c.extra['sessions'] = {'systematic': len(progs), 'random': len(rnd), 'lines': sum(len(s.lines) for s in progs + rnd)}
    c.assumptions = ['lines are shorter than the terminal is wide (COLUMNS=5000), without tabs']
    c.check(progs + rnd)
    # garbage collections don't show
    some = [s for s in progs if s.id != 'long'] + rnd[:40 if c.quick else 600]
    for n in (1, 7, 101) if not c.quick else (c.rng.choice([1, 2, 3]), c.rng.choice([7, 23, 101])):
        if not c.enough():
            c.check(some if n != 1 or not c.quick else some[::3], env={'BIC_VERIF_GC': str(n)}, note='with collections every %d allocations: ' % n)
