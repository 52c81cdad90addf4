"""C07: objects with static storage duration start as zero (or with their
initialiser), keep their value, and are one per declaration."""
from cprog import *
from arith import *
import cgen

I = b('int')


def run(c):
    r = c.rng
    P = []
    X, Y, N = id_('x'), id_('y'), id_('n')
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    d = lambda n, v=None, te=I, st=False: decl(dr(n, te, None if v is None else lit(v)), static=st)
    # zero: all types, at file scope and static in functions, after the memory
    # has been used for other things
    churn = fndef('churn', I, [('n', I)], blk(decl(dr('a', ('a', b('long'), 8))), for_(d('i', 0), bin_('<', id_('i'), lit(8)), inc(id_('i')),
                  es(asg(idx(id_('a'), id_('i')), lit(-1)))), decl(dr('z', b('long'), lit(-1))), ret(cond(N, call('churn', bin_('-', N, lit(1))), lit(0)))))
    for k in range(6 if c.quick else 40):
        top, shows, fns = [churn], [], []
        if k % 2:
            top.append(out(('d', call('churn', lit(3)))))       # at file scope, before the declarations
        ts = INTS + ['float', 'double']
        r.shuffle(ts)
        for i, t in enumerate(ts):
            fm = FMT.get(t, 'f')
            n = r.choice([1, 2, 3, 5, 8])
            ms = [('m%d' % j, b(r.choice(INTS))) for j in range(r.randrange(1, 4))] + [('arr', ('a', b(t), 3))]
            top += [decl(dr('g%d' % i, b(t))), decl(dr('v%d' % i, ('a', b(t), n))), decl(dr('p%d' % i, ('p', b(t)))),
                    sudef('struct', 's%d' % i, ms), decl(dr('s%d' % i, ('tag', 'struct s%d' % i)))]
            shows += [out((fm, id_('g%d' % i)), *[(fm, idx(id_('v%d' % i), lit(j))) for j in range(n)], ('d', bin_('==', id_('p%d' % i), lit(0)))),
                      out(*[(FMT[m[1][1]], mem(id_('s%d' % i), m[0])) for m in ms[:-1]], *[(fm, idx(mem(id_('s%d' % i), 'arr'), lit(j))) for j in range(3)])]
            fns.append(fndef('st%d' % i, I, [], blk(
                decl(dr('x', b(t)), static=True), decl(dr('v', ('a', b(t), n)), static=True), decl(dr('s', ('tag', 'struct s%d' % i)), static=True),
                out((fm, X), *[(fm, idx(id_('v'), lit(j))) for j in range(n)]),
                out(*[(FMT[m[1][1]], mem(id_('s'), m[0])) for m in ms[:-1]], *[(fm, idx(mem(id_('s'), 'arr'), lit(j))) for j in range(3)]),
                es(asg(X, lit(i + 1))), es(asg(idx(id_('v'), lit(n - 1)), lit(7))), es(asg(idx(mem(id_('s'), 'arr'), lit(1)), lit(9))), ret(lit(0)))))
        calls = [es(call('st%d' % i)) for i in range(len(ts))]
        if k % 2:
            # a script: the statements are at file scope
            P.append(Program('zero%d' % k, top + fns + shows + calls + [es(call('churn', lit(2)))] + calls + shows, main=False))
        else:
            P.append(Program('zero%d' % k, top + fns + [main(es(call('churn', lit(3))), *shows, *calls, *calls, es(call('churn', lit(2))), *calls, *shows)]))
    # initialised once, keeps its value, one per declaration
    P.append(Program('once', [
        fndef('f', I, [], blk(d('x', 5, st=True), ret(inc(X)))),
        fndef('g', I, [], blk(d('x', 50, st=True), es(casg('+', X, call('f'))), ret(X))),
        fndef('h', I, [('n', I)], blk(if_(N, blk(d('x', 1, st=True), es(inc(X)), ret(X)), blk(d('x', 100, st=True), es(inc(X)), ret(X))))),
        fndef('l', I, [('n', I)], blk(d('s', 0), for_(d('i', 0), bin_('<', id_('i'), N), inc(id_('i')), blk(d('x', 10, st=True), es(inc(X)), es(casg('+', id_('s'), X)))), ret(id_('s')))),
        main(*[out(('d', call('f')), ) for _ in range(3)], *[out(('d', call('g'))) for _ in range(3)],
             *[out(('d', call('h', lit(v)))) for v in (0, 1, 1, 0, 0, 1)], *[out(('d', call('l', lit(v)))) for v in (2, 1, 3)])]))
    P.append(Program('pointer', [
        fndef('cell', ('p', I), [], blk(d('x', 3, st=True), ret(addr(X)))),
        fndef('buf', ('p', b('char')), [('n', I)], blk(decl(dr('v', ('a', b('char'), 4)), static=True), es(asg(idx(id_('v'), N), bin_('+', lit(65), N))), ret(id_('v')))),
        main(es(casg('+', deref(call('cell')), lit(4))), out(('d', deref(call('cell')))), es(call('buf', lit(0))), es(call('buf', lit(1))),
             out(('s', call('buf', lit(2)))), out(('d', bin_('==', call('cell'), call('cell')))))]))
    P.append(Program('static-global', [d('x', 3, st=True), d('y', st=True), decl(dr('t', ('a', I, 4)), static=True),
        fndef('f', b('void'), [], blk(es(casg('+', X, lit(2))), es(inc(Y)), es(inc(idx(id_('t'), bin_('&', X, lit(3))))))),
        main(es(call('f')), es(call('f')), d('y', 77), es(call('f')), out(('d', X), ('d', Y), *[('d', idx(id_('t'), lit(j))) for j in range(4)]))]))
    # several declarators, some of them initialised
    P.append(Program('several', [decl(dr('a', I), dr('b', I, lit(4)), dr('p', ('p', I)), dr('v', ('a', I, 2)), dr('e', I, lit(-1))),
        fndef('f', I, [], blk(decl(dr('x', I, lit(2)), dr('y', I), dr('z', ('a', I, 2)), static=True), es(inc(X)), es(casg('+', Y, X)), es(casg('+', idx(id_('z'), lit(1)), Y)),
                              out(('d', X), ('d', Y), ('d', idx(id_('z'), lit(0))), ('d', idx(id_('z'), lit(1)))), ret(X))),
        main(out(('d', id_('a')), ('d', id_('b')), ('d', bin_('==', id_('p'), lit(0))), ('d', idx(id_('v'), lit(0))), ('d', idx(id_('v'), lit(1))), ('d', id_('e'))),
             es(call('f')), es(call('f')), es(call('f')))]))
    # string literals are there for the whole execution
    P.append(Program('strings', [decl(dr('g', ('p', b('char')))), fndef('f', ('p', b('char')), [('n', I)], blk(if_(N, ret(st('one'))), ret(st('zero')))),
        churn, main(es(asg(id_('g'), st('kept'))), decl(dr('p', ('p', b('char')), call('f', lit(1))), dr('q', ('p', b('char')), call('f', lit(0)))),
                    out(('d', call('churn', lit(6)))), out(('s', id_('g')), ('s', id_('p')), ('s', id_('q')), ('d', idx(id_('p'), lit(1)))))]))
    # random programs with static locals of the same names everywhere
    for i in range(50 if c.quick else 800):
        names = ['x', 'y', 'z']
        top = [decl(dr(n, b(r.choice(INTS[4:])), lit(r.randrange(9)) if r.random() < .5 else None), static=r.random() < .5) for n in names]
        fns = []
        for f in range(4):
            body = []
            for n in names:
                if r.random() < .6:
                    body.append(decl(dr(n, b(r.choice(INTS)), lit(r.randrange(50)) if r.random() < .6 else None), static=True))
            body += [es(casg('+', id_(r.choice(names)), lit(r.randrange(1, 9)))) for _ in range(3)]
            if fns and r.random() < .6:
                body.insert(r.randrange(len(body) - 2, len(body)), es(call(r.choice(fns), *[])))
            inner = r.choice(names)
            if r.random() < .5:
                body.append(if_(bin_('>', cast(I, id_(inner)), lit(r.randrange(20))), blk(decl(dr(inner, I, lit(f)), static=r.random() < .8), es(inc(id_(inner))), out(('d', id_(inner))))))
            body.append(out(*[('d', cast(I, id_(n))) for n in names]))
            fns.append('f%d' % f)
            top.append(fndef('f%d' % f, I, [], blk(*body, ret(lit(f)))))
        calls = [es(call(r.choice(fns))) for _ in range(12)]
        P.append(Program('rand%d' % i, top + [main(*calls, out(*[('d', cast(I, id_(n))) for n in names]))]))
    c.check(P)
