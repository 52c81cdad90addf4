"""C05: lexical scope.  Every use of a name refers to the innermost declaration
that is visible where the use is written; every object lives as long as its
block; nothing of a scope outlives it."""
import itertools
from cprog import *
import cgen

I = b('int')


def nest(r, depth, names, state, loop=False):
    """Random nesting of scopes that declare, use and assign the names."""
    ss = []
    for _ in range(r.randrange(2, 5)):
        q = r.random()
        n = r.choice(names)
        if q < .3:
            d = state['decl'][-1]
            if n not in d:
                d.add(n)
                state['k'] += 1
                t = r.choice([I, I, I, b('char'), b('long')])
                ss.append(decl(dr(n, t, lit(state['k']))))
        elif q < .5:
            state['k'] += 1
            ss.append(es(asg(id_(n), lit(state['k']))))
        elif q < .7:
            ss.append(out(*[('d', cast(I, id_(x))) for x in names]))
        elif depth:
            q = r.randrange(6)
            state['decl'].append(set())
            if q == 0:
                ss.append(blk(*nest(r, depth - 1, names, state, loop)))
            elif q == 1:
                state['k'] += 1
                ss.append(if_(bin_('>', id_(n), lit(state['k'] // 2)), blk(*nest(r, depth - 1, names, state, loop)),
                              blk(*nest2(r, depth - 1, names, state, loop))))
            elif q == 2:
                # a loop variable that hides another declaration
                i = state['i'] = state.get('i', 0) + 1
                c = 'n%d' % i
                state['decl'].append(set())
                ss.append(for_(decl(dr(n, I, lit(0)), dr(c, I, lit(0))), bin_('<', id_(c), lit(2)),
                               comma(inc(id_(n)), inc(id_(c))), blk(*nest(r, depth - 1, names, state, True))))
                state['decl'].pop()
            elif q == 3:
                i = state['i'] = state.get('i', 0) + 1
                c = 'w%d' % i
                b_ = nest(r, depth - 1, names, state, True)
                ss.append(decl(dr(c, I, lit(2))))
                ss.append(while_(inc(id_(c), -1), blk(*b_)))
            elif loop and q == 4:
                ss.append(if_(bin_('&', id_(n), lit(1)), blk(*nest(r, depth - 1, names, state, loop), brk())))
            else:
                ss.append(blk(blk(*nest(r, depth - 1, names, state, loop))))
            state['decl'].pop()
    ss.append(out(*[('d', cast(I, id_(x))) for x in names]))
    return ss


def nest2(r, *a):
    a[2]['decl'].append(set())
    x = nest(r, *a)
    a[2]['decl'].pop()
    return x


def random_scopes(r, pid):
    names = ['x', 'y', 'z']
    top = [decl(*[dr(n, I, lit(-1 - i)) for i, n in enumerate(names)])]
    st = {'k': 0, 'decl': [set()]}
    for f in ('f', 'g', 'h'):
        ps = r.sample(names, r.randrange(0, 3))
        st['decl'] = [set(ps)]
        body = nest(r, 2, names, st)
        if f != 'f' and r.random() < .8:
            # the caller's variables are none of the callee's business
            callee, arity = r.choice(top_fns(top))
            body.insert(r.randrange(1, len(body)), es(call(callee, *[id_(r.choice(names)) for _ in range(arity)])))
        top.append(fndef(f, I, [(p, I) for p in ps], blk(*body, ret(id_(r.choice(names))))))
    st['decl'] = [set()]
    body = nest(r, 3, names, st)
    for _ in range(3):
        callee, arity = r.choice(top_fns(top))
        body.insert(r.randrange(len(body)), out(('d', call(callee, *[id_(r.choice(names)) for _ in range(arity)]))))
    return Program(pid, top + [fndef('main', I, [], blk(*body, ret(lit(0))))])


def top_fns(top):
    return [(s.n, len(s.params)) for s in top if s.k == 'fndef']


def enumerated():
    """All ways to declare x at some of the levels (file, parameter, body,
    for, block, inner block), each used and assigned at some level."""
    progs = []
    levels = 6
    tests = []
    for mask in range(1, 1 << levels):
        if mask & 2 and mask & 4:
            continue                # a parameter and the body share a scope
        for w in range(2, levels):  # where x is assigned
            tests.append((mask, w))
    for i in range(0, len(tests), 16):
        top, body = [decl(dr('y', I, lit(9)))], []
        for n, (mask, w) in enumerate(tests[i:i + 16]):
            f = 'f%d' % n
            on = lambda k: mask >> k & 1
            # without a declaration at file scope or in the function itself
            # x would be undeclared where it is used: use y there
            x = 'x'
            name = lambda k: x if any(on(j) for j in range(k + 1)) else 'y'
            show = lambda k: out(('d', id_(name(k))))
            put = lambda k: [es(asg(id_(name(k)), lit(100 + k)))] if k == w else []
            inner = blk(*([decl(dr(x, I, lit(5)))] if on(5) else []), show(5), *put(5), show(5))
            block = blk(*([decl(dr(x, I, lit(4)))] if on(4) else []), show(4), *put(4), inner, show(4))
            loop = for_(decl(dr(x if on(3) else 'k', I, lit(3))), bin_('<', id_(x if on(3) else 'k'), lit(5)),
                        inc(id_(x if on(3) else 'k')), blk(show(3), *put(3) if not on(3) else [], block, show(3)))
            if on(3) and w in (4, 5) and not any(on(j) for j in range(4, w + 1)):
                continue            # would assign to the loop's variable
            fb = [decl(dr(x, I, lit(2)))] if on(2) else []
            fb += [show(2), *put(2), loop, show(2), ret(id_(name(2)))]
            if on(0):
                if not any(s.k == 'decl' and s.ds[0].n == 'x' for s in top):
                    top.insert(0, decl(dr('x', I, lit(1))))
            elif any(s.k == 'decl' and s.ds[0].n == 'x' for s in top):
                pass
            top.append(fndef(f, I, [(x if on(1) else 'q', I)], blk(*fb)))
            body.append(out(('d', call(f, lit(10)))))
            body.append(out(('d', id_('y'))))
        progs.append(Program('levels%d' % (i // 16), top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return progs


def fixed():
    X, Y = id_('x'), id_('y')
    P = []

    def add(pid, *top):
        P.append(Program(pid, list(top)))
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    d = lambda n, v: decl(dr(n, I, v if isinstance(v, Node) else lit(v)))
    # dynamic scope would find the caller's x
    add('dynamic', d('x', 1), fndef('get', I, [], blk(ret(X))), fndef('set', b('void'), [('v', I)], blk(es(asg(X, id_('v'))))),
        fndef('mid', I, [('x', I)], blk(es(call('set', lit(7))), ret(bin_('+', call('get'), bin_('*', X, lit(10)))))),
        main(d('x', 2), out(('d', call('get'))), es(call('set', lit(5))), out(('d', X), ('d', call('get'))),
             blk(d('x', 3), out(('d', call('get')), ('d', X)), out(('d', call('mid', lit(4))))), out(('d', X), ('d', call('get')))))
    # a new object for every entry of a block, and for every call
    add('fresh', fndef('rec', I, [('n', I)], blk(d('x', bin_('*', id_('n'), lit(10))), if_(id_('n'), es(call('rec', bin_('-', id_('n'), lit(1))))),
                                                  out(('d', X), ('d', id_('n'))), ret(X))),
        main(for_(d('i', 0), bin_('<', id_('i'), lit(3)), inc(id_('i')), blk(d('x', 0), es(inc(X)), out(('d', X), ('d', id_('i'))))),
             out(('d', call('rec', lit(3))))))
    # names of the scopes that have been left can be declared again, also with other types
    add('again', main(blk(d('x', 1), out(('d', X))), blk(decl(dr('x', b('long'), lit(1 << 40))), out(('ld', X))),
                      blk(decl(dr('x', ('a', b('char'), 3))), out(('lu', sze(X)))),
                      for_(d('x', 0), bin_('<', X, lit(1)), inc(X), blk(decl(dr('x', b('short'), lit(8))), out(('d', X)))),
                      d('x', 6), out(('d', X))))
    # types, tags and enumerators have scopes, too
    add('types', sudef('struct', 's', [('a', I)]), tdef('T', b('char')), enum('e', [('E', lit(1))]),
        fndef('f', I, [], blk(sudef('struct', 's', [('a', b('long')), ('b', b('long'))]), tdef('U', b('long')), enum('e2', [('E', lit(2))]),
                              ret(cast(I, bin_('+', bin_('*', szt(('tag', 'struct s')), lit(100)), bin_('+', bin_('*', szt(('td', 'U')), lit(10)), id_('E'))))))),
        main(out(('lu', szt(('tag', 'struct s'))), ('d', id_('E')), ('lu', szt(('td', 'T')))), out(('d', call('f'))),
             blk(enum('e3', [('E', lit(5)), ('F', None)]), out(('d', id_('E')), ('d', id_('F')))),
             blk(sudef('struct', 's', [('x', ('a', b('char'), 7))]), out(('lu', szt(('tag', 'struct s'))))),
             out(('d', id_('E')), ('lu', szt(('tag', 'struct s')))), d('E', 9), out(('d', id_('E')))))
    # an if or loop body without braces, an else, parameters against locals of callees
    add('params', fndef('a', I, [('x', I), ('y', I)], blk(ret(bin_('-', X, Y)))),
        fndef('b', I, [('y', I), ('x', I)], blk(ret(bin_('+', bin_('*', call('a', Y, X), lit(100)), call('a', X, Y))))),
        main(d('x', 7), d('y', 3), out(('d', call('a', X, Y)), ('d', call('a', Y, X)), ('d', call('b', X, Y))),
             out(('d', call('a', call('a', Y, X), call('b', Y, X))))))
    # leaving scopes with break and return
    add('leave', d('x', 1), fndef('f', I, [('n', I)], blk(for_(d('x', 0), bin_('<', X, lit(9)), inc(X),
                 blk(d('y', X), blk(d('x', 50), if_(bin_('==', id_('n'), Y), ret(bin_('+', X, Y))), if_(bin_('>', Y, lit(4)), brk())))), out(('d', X)), ret(X))),
        main(*[out(('d', call('f', lit(v)))) for v in (0, 3, 8)], out(('d', X))))
    # an initialiser is evaluated in the enclosing scopes' objects until the name is declared
    add('outer', d('x', 4), main(d('y', X), d('z', bin_('+', X, Y)), blk(d('y', bin_('*', X, lit(2))), d('x', bin_('+', Y, lit(1))), out(('d', X), ('d', Y), ('d', id_('z')))),
                                out(('d', X), ('d', Y))))
    # deep nesting
    n = 25
    s = blk(out(('d', X)))
    for i in range(n):
        s = blk(d('x', i), out(('d', X)), s, es(inc(X)), out(('d', X)))
    add('deep', d('x', -1), main(s, out(('d', X))))
    return P


def run(c):
    r = c.rng
    e = enumerated()
    c.extra['enumerated_programs'] = len(e)
    c.check(fixed() + e)
    c.check([random_scopes(r, 'scope%d' % i) for i in range(120 if c.quick else 2000)])
    c.check([cgen.program(r, 'rand%d' % i, nstm=12, nfn=3, depth=1, shadow=.9) for i in range(80 if c.quick else 1000)])
