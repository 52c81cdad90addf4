"""C06: function calls: arguments, parameters, recursion, pointers to
functions, return values."""
from cprog import *
from arith import *
import cgen

I = b('int')
CHAR = b('char')
FP = lambda rt, *ps: ('p', ('fn', rt, list(ps)))


def signatures(c, r):
    """Functions of 0 to 10 parameters of all types; arguments of all types."""
    progs = []
    for i in range(24 if c.quick else 300):
        top, body = [decl(dr('log', b('long')))], []
        for j in range(6):
            n = r.randrange(0, 11)
            ts = [r.choice(INTS) for _ in range(n)]
            rt = r.choice(INTS)
            f = 'f%d' % j
            shows = [out(*[(FMT[t], id_('p%d' % k)) for k, t in enumerate(ts)][m:m + 8]) for m in range(0, n, 8)]
            e = lit(j)
            for k, t in enumerate(ts):
                e = bin_('+', bin_('*', e, cast(b('ulong'), lit(31))), cast(b('ulong'), id_('p%d' % k)))
            # the parameters are objects of the call's own
            mod = [es(asg(id_('p%d' % k), lit(k))) for k in range(n)]
            top.append(fndef(f, b(rt), [('p%d' % k, b(t)) for k, t in enumerate(ts)], blk(
                *shows, decl(dr('res', b('ulong'), e)), *mod, out(*[('d', cast(I, id_('p%d' % k))) for k in range(min(n, 8))]),
                ret(id_('res')))))
            for _ in range(2):
                args, pre, post = [], [], []
                for k, t in enumerate(ts):
                    ta = r.choice(INTS)
                    v = r.choice(values(ta, True))
                    a = 'a%d' % k
                    pre.append(decl(dr(a, b(ta), lit_any(v))))
                    args.append(id_(a) if r.random() < .7 else bin_('+', cast(b(ta), lit_any(v)), cast(b('uint'), lit(0))) if r.random() < .3 else literal(v, ta))
                    post.append((FMT[ta], id_(a)))
                body.append(blk(*pre, out((FMT[rt], call(f, *args))), *[out(*post[m:m + 8]) for m in range(0, len(post), 8)]))
        progs.append(Program('sig%d' % i, top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return progs


def recursion(c, r):
    P = []
    X, Y, N = id_('x'), id_('y'), id_('n')
    mi = lambda e, k: bin_('-', e, lit(k))
    pl = lambda e, f: bin_('+', e, f)
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    proto_ = lambda n, rt, ps: proto(n, rt, ps)
    decls = lambda n, rt, ps: [proto(n, rt, ps, pre=r.choice(['', 'extern '])) for _ in range(r.choice([0, 1, 1, 2, 3]))]

    def add(pid, *top):
        P.append(Program(pid, list(top)))
    add('fact', fndef('f', b('long'), [('n', I)], blk(if_(bin_('<=', N, lit(1)), ret(lit(1))), ret(bin_('*', N, call('f', mi(N, 1)))))),
        main(*[out(('ld', call('f', lit(v)))) for v in (0, 1, 5, 12, 20)]))
    add('fib', fndef('f', I, [('n', I)], blk(ret(cond(bin_('<', N, lit(2)), N, pl(call('f', mi(N, 1)), call('f', mi(N, 2))))))),
        main(*[out(('d', call('f', lit(v)))) for v in (0, 1, 2, 7, 9)]))
    add('ackermann', fndef('a', I, [('x', I), ('y', I)], blk(
        if_(bin_('==', X, lit(0)), ret(pl(Y, lit(1)))), if_(bin_('==', Y, lit(0)), ret(call('a', mi(X, 1), lit(1)))),
        ret(call('a', mi(X, 1), call('a', X, mi(Y, 1)))))), main(out(('d', call('a', lit(2), lit(2))), ('d', call('a', lit(1), lit(4))))))
    add('mutual', proto_('odd', I, [('n', I)]),
        fndef('even', I, [('n', I)], blk(if_(bin_('==', N, lit(0)), ret(lit(1))), ret(call('odd', mi(N, 1))))),
        fndef('odd', I, [('n', I)], blk(if_(bin_('==', N, lit(0)), ret(lit(0))), ret(call('even', mi(N, 1))))),
        main(*[out(('d', call('even', lit(v))), ('d', call('odd', lit(v)))) for v in (0, 1, 6, 11)]))
    # functions that call each other, declared in all ways before and after they are defined
    for i in range(4 if c.quick else 40):
        names = r.sample(['fa', 'fb', 'fc', 'abs', 'toupper'], 3)
        sig = {n: (b(r.choice(INTS)), [('n', I)] + [('p%d' % k, b(r.choice(INTS))) for k in range(r.randrange(3))]) for n in names}
        top = []
        for n in names:
            top += decls(n, *sig[n]) or [proto(n, *sig[n], pre=r.choice(['', 'extern ']))]
        r.shuffle(top)
        for k, n in enumerate(names):
            o = r.choice(names)
            rest = [lit(r.randrange(100)) for _ in sig[o][1][1:]]
            q = id_('q')
            via = [decl(dr('q', ('p', ('fn', sig[o][0], [t for _, t in sig[o][1]])))), es(asg(q, addr(id_(o))))] if r.random() < .5 else []
            go = lambda: call('q' if via else o, mi(N, 1), *rest)
            top += [fndef(n, *sig[n], blk(*via, *([blk(*decls(o, *sig[o]))] if r.random() < .5 else []), out(('d', lit(k)), ('d', N)), if_(bin_('<=', N, lit(0)), ret(lit(k + 40))), ret(bin_('+', go(), lit(1)))))]
            top += [d for m in r.sample(names, 1) for d in decls(m, *sig[m])]
        body = [out((FMT[sig[n][0][1]], call(n, lit(r.randrange(5)), *[lit(7) for _ in sig[n][1][1:]]))) for n in names]
        add('declared%d' % i, *top, main(*[d for n in names for d in decls(n, *sig[n])], *body))
    add('hanoi', decl(dr('moves', I)), fndef('h', b('void'), [('n', I), ('x', I), ('y', I), ('z', I)], blk(
        if_(N, blk(es(call('h', mi(N, 1), X, id_('z'), Y)), es(inc(id_('moves'))), out(('d', N), ('d', X), ('d', Y)),
                   es(call('h', mi(N, 1), id_('z'), Y, X)))))), main(es(call('h', lit(4), lit(1), lit(2), lit(3))), out(('d', id_('moves')))))
    # locals, and the rest of an expression, survive nested calls
    add('locals', fndef('f', I, [('n', I)], blk(decl(dr('x', I, bin_('*', N, lit(3))), dr('y', I)), es(asg(Y, lit(0))),
        if_(bin_('>', N, lit(0)), es(asg(Y, call('f', mi(N, 1))))), for_(decl(dr('k', I, lit(0))), bin_('<', id_('k'), N), inc(id_('k')),
            if_(bin_('==', id_('k'), lit(2)), es(asg(X, pl(X, call('f', lit(0)))), ), es(inc(X)))), out(('d', N), ('d', X), ('d', Y)),
        ret(pl(X, Y)))), main(out(('d', call('f', lit(4))))))
    add('nestedargs', fndef('s', I, [('x', I), ('y', I)], blk(ret(bin_('-', bin_('*', X, lit(3)), Y)))),
        main(out(('d', call('s', call('s', lit(1), lit(2)), call('s', call('s', lit(3), lit(4)), lit(5)))),
                 ('d', bin_('*', call('s', lit(7), lit(1)), pl(lit(2), call('s', lit(1), call('s', lit(2), lit(2)))))))))
    # arguments are evaluated in the caller's scope, converted to the parameters
    add('names', fndef('s', I, [('a', I), ('b', I), ('c', I)], blk(ret(pl(bin_('*', id_('a'), lit(100)), pl(bin_('*', id_('b'), lit(10)), id_('c')))))),
        fndef('rot', I, [('a', I), ('b', I), ('c', I)], blk(ret(call('s', id_('b'), id_('c'), id_('a'))))),
        main(decl(dr('a', I, lit(1)), dr('b', I, lit(2)), dr('c', I, lit(3))), out(('d', call('s', id_('c'), id_('a'), id_('b'))),
             ('d', call('rot', id_('a'), id_('b'), id_('c'))), ('d', call('rot', id_('c'), id_('c'), pl(id_('a'), id_('b')))))))
    # void functions, functions whose value isn't used, returns from loops
    add('void', decl(dr('g', I)), fndef('v', b('void'), [('n', I)], blk(if_(bin_('>', N, lit(2)), ret()), es(asg(id_('g'), N)))),
        fndef('w', b('void'), [], blk(out(('d', id_('g'))))), fndef('find', I, [('n', I)], blk(
            for_(decl(dr('x', I, lit(0))), bin_('<', X, lit(6)), inc(X), for_(decl(dr('y', I, lit(0))), bin_('<', Y, lit(6)), inc(Y),
                if_(bin_('==', bin_('*', X, Y), N), blk(out(('d', X), ('d', Y)), ret(bin_('+', bin_('*', X, lit(10)), Y)))))), ret(lit(-1)))),
        main(*[s for v in (1, 5, 2, 3) for s in (es(call('v', lit(v))), es(call('w')))],
             *[out(('d', call('find', lit(v)))) for v in (6, 25, 7, 20)], es(call('find', lit(4)))))
    # returns from every place of functions with every kind of result and number of parameters
    for k, (rn, rt) in enumerate([('void', b('void')), ('int', I), ('long', b('long')), ('char', CHAR), ('uint', b('uint')), ('ptr', ('p', I))]):
        for np in (0, 1, 3):
            val = lambda v: None if rn == 'void' else lit(v) if rn != 'ptr' else addr(idx(id_('cells'), lit(v % 8)))
            top, body = [decl(dr('g', I, lit(0)), dr('cells', ('a', I, 8)))], []
            ps = [('p%d' % j, r.choice([I, b('long'), CHAR])) for j in range(np)]
            wraps = [lambda s: s, lambda s: blk(s), lambda s: if_(G, s), lambda s: if_(un('!', G), empty(), s), lambda s: while_(G, blk(s)), lambda s: for_(None, None, None, s), lambda s: for_(decl(dr('i', I, lit(0))), lit(1), inc(id_('i')), if_(bin_('==', id_('i'), lit(2)), s)),
                     lambda s: blk(decl(dr('z', I, lit(4))), blk(decl(dr('z', I, lit(5))), if_(bin_('>', G, lit(0)), blk(blk(s)))))]
            G = id_('g')
            for j, w in enumerate(wraps):
                f = 'f%d' % j
                top.append(fndef(f, rt, ps, blk(out(('d', lit(j))), w(ret(val(j + 1))), out(('d', lit(90 + j))), es(asg(G, lit(70))), ret(val(60 + j)))))
                args = [lit(r.randrange(100)) for _ in ps]
                top.append(fndef('c%d' % j, I, [('n', I)], blk(decl(dr('x', I, id_('n'))), es(call(f, *args)), es(inc(G)), out(('d', id_('x')), ('d', G)),
                    *([out(({'int': 'd', 'long': 'ld', 'char': 'd', 'uint': 'u'}[rn], call(f, *args)))] if rn not in ('void', 'ptr') else [out(('ld', bin_('-', call(f, *args), id_('cells'))))] if rn == 'ptr' else []),
                    while_(lit(1), blk(es(call(f, *args)), brk())), ret(bin_('+', id_('x'), lit(1))))))
                for g in (1, 0):
                    if g or j not in (3,):
                        body += [es(asg(G, lit(g))), out(('d', call('c%d' % j, lit(j * 10)))), out(('d', G))]
            add('return-%s-%d' % (rn, np), *top, main(*body))
    # pointers as parameters and as results
    add('pointers', decl(dr('g', I, lit(3))), fndef('swap', b('void'), [('x', ('p', I)), ('y', ('p', I))], blk(
        decl(dr('t', I, deref(X))), es(asg(deref(X), deref(Y))), es(asg(deref(Y), id_('t'))))),
        fndef('max', ('p', I), [('x', ('p', I)), ('y', ('p', I))], blk(if_(bin_('>', deref(X), deref(Y)), ret(X)), ret(Y))),
        fndef('gp', ('p', I), [], blk(ret(addr(id_('g'))))),
        main(decl(dr('x', I, lit(1)), dr('y', I, lit(2))), es(call('swap', addr(X), addr(Y))), out(('d', X), ('d', Y)),
             es(asg(deref(call('max', addr(X), addr(Y))), lit(9))), out(('d', X), ('d', Y)), es(asg(deref(call('gp')), lit(8))), out(('d', id_('g'))),
             es(call('swap', call('gp'), addr(Y))), out(('d', id_('g')), ('d', Y))))
    # pointers to functions: in variables, arrays, members, arguments
    fi = FP(I, I, I)
    add('fptr', fndef('add', I, [('x', I), ('y', I)], blk(ret(pl(X, Y)))), fndef('sub', I, [('x', I), ('y', I)], blk(ret(bin_('-', X, Y)))),
        fndef('mul', I, [('x', I), ('y', I)], blk(ret(bin_('*', X, Y)))),
        fndef('app', I, [('f', fi), ('x', I), ('y', I)], blk(ret(bin_('-', call(id_('f'), X, Y), call(deref(id_('f')), Y, X))))),
        fndef('pick', I, [('n', I), ('x', I), ('y', I)], blk(decl(dr('p', fi)), if_(bin_('==', N, lit(0)), es(asg(id_('p'), addr(id_('add')))),
              if_(bin_('==', N, lit(1)), es(asg(id_('p'), addr(id_('sub')))), es(asg(id_('p'), addr(id_('mul')))))), ret(call(id_('p'), X, Y)))),
        main(decl(dr('p', fi, addr(id_('add')))), out(('d', call(id_('p'), lit(3), lit(4)))), es(asg(id_('p'), addr(id_('sub')))),
             out(('d', call(id_('p'), lit(3), lit(4))), ('d', call('app', addr(id_('mul')), lit(3), lit(4))), ('d', call('app', id_('p'), lit(1), lit(9)))),
             *[out(('d', call('pick', lit(k), lit(7), lit(5))), ('d', call(deref(id_('p')), lit(k), lit(2)))) for k in range(3)],
             out(('d', bin_('==', id_('p'), addr(id_('sub')))), ('d', bin_('!=', id_('p'), addr(id_('add')))))))
    # pointers to functions in members, array elements, behind pointers, as results
    SO = ('tag', 'struct op')
    O, V = id_('o'), id_('v')
    add('fptr2', tdef('fi', fi), sudef('struct', 'op', [('k', I), ('f', fi), ('next', ('p', SO))]),
        fndef('add', I, [('x', I), ('y', I)], blk(ret(pl(X, Y)))), fndef('sub', I, [('x', I), ('y', I)], blk(ret(bin_('-', X, Y)))),
        fndef('mul', I, [('x', I), ('y', I)], blk(ret(bin_('*', X, Y)))),
        fndef('get', ('td', 'fi'), [('n', I)], blk(if_(bin_('==', N, lit(0)), ret(addr(id_('add')))), if_(bin_('==', N, lit(1)), ret(addr(id_('sub')))), ret(addr(id_('mul'))))),
        fndef('fold', I, [('o', ('p', SO)), ('x', I)], blk(if_(un('!', O), ret(X)), ret(call('fold', arrow(O, 'next'), call(arrow(O, 'f'), X, arrow(O, 'k')))))),
        fndef('twice', I, [('f', ('td', 'fi')), ('x', I)], blk(ret(call(id_('f'), call(id_('f'), X, lit(3)), lit(3))))),
        decl(dr('gf', ('td', 'fi'))),
        main(decl(dr('o', SO), dr('q', SO), dr('w', SO)), decl(dr('v', ('a', ('td', 'fi'), 3))), decl(dr('pf', ('p', ('td', 'fi')))), decl(dr('n', I)),
             for_(es(asg(N, lit(0))), bin_('<', N, lit(3)), inc(N), es(asg(idx(V, N), call('get', N)))),
             for_(es(asg(N, lit(0))), bin_('<', N, lit(3)), inc(N), out(('d', call(idx(V, N), lit(7), lit(5))), ('d', call(deref(idx(V, N)), lit(2), lit(9))))),
             es(asg(mem(O, 'f'), idx(V, lit(0)))), es(asg(mem(O, 'k'), lit(4))), es(asg(mem(O, 'next'), addr(id_('q')))),
             es(asg(mem(id_('q'), 'f'), idx(V, lit(2)))), es(asg(mem(id_('q'), 'k'), lit(5))), es(asg(mem(id_('q'), 'next'), addr(id_('w')))),
             es(asg(mem(id_('w'), 'f'), addr(id_('sub')))), es(asg(mem(id_('w'), 'k'), lit(6))), es(asg(mem(id_('w'), 'next'), lit(0))),
             out(('d', call('fold', addr(O), lit(1))), ('d', call('fold', arrow(addr(O), 'next'), lit(2))), ('d', call(mem(O, 'f'), lit(1), lit(2)))),
             es(asg(id_('pf'), addr(idx(V, lit(1))))), out(('d', call(deref(id_('pf')), lit(9), lit(4)))),
             es(asg(id_('gf'), idx(V, lit(2)))), out(('d', call('gf', lit(3), lit(3))), ('d', call('twice', id_('gf'), lit(2))), ('d', call('twice', addr(id_('sub')), lit(2)))),
             es(asg(deref(id_('pf')), addr(id_('mul')))), out(('d', call(idx(V, lit(1)), lit(8), lit(8))), ('d', bin_('==', idx(V, lit(1)), idx(V, lit(2)))), ('d', bin_('==', idx(V, lit(1)), idx(V, lit(0)))))))
    # functions that return pointers to functions, with no name for the type
    BIN = FP(I, I, I)
    for k, q in enumerate(['', 'pointer', 'nested']):
        pick = fndef('pick', BIN, [('n', I)], blk(decl(dr('seen', I), static=True), es(inc(id_('seen'))), if_(bin_('==', N, lit(0)), ret(addr(id_('add')))), if_(bin_('==', N, lit(1)), blk(decl(dr('f', BIN, addr(id_('sub')))), ret(id_('f')))), out(('d', id_('seen'))), ret(call('pick', mi(N, 2)))))
        top = [fndef('add', I, [('x', I), ('y', I)], blk(ret(pl(X, Y)))), fndef('sub', I, [('x', I), ('y', I)], blk(ret(bin_('-', X, Y)))), pick]
        if q == 'pointer':
            # (a pointer to a pointer to a function)
            top += [decl(dr('slot', BIN)), fndef('where', ('p', BIN), [('f', BIN)], blk(es(asg(id_('slot'), id_('f'))), ret(addr(id_('slot')))))]
            u = [out(('d', call(deref(call('where', call('pick', lit(j)))), lit(20), lit(j)))) for j in range(4)] + [es(asg(deref(call('where', addr(id_('sub')))), call('pick', lit(5)))), out(('d', call('slot', lit(8), lit(1))))]
        elif q == 'nested':
            # (one whose result returns such a pointer as well)
            top += [fndef('maker', FP(BIN, I), [('x', I), ('f', BIN)], blk(out(('d', call('f', X, lit(1)))), ret(addr(id_('pick')))))]
            u = [out(('d', call(call(call('maker', lit(4), call('pick', lit(j))), lit(j + 1)), lit(30), lit(3)))) for j in range(3)]
        else:
            u = [out(('d', call(call('pick', lit(j)), lit(20), lit(3)))) for j in range(5)] + [decl(dr('pf', FP(BIN, I), addr(id_('pick')))), out(('d', call(call('pf', lit(3)), lit(1), lit(2))))]
        u += [blk(decl(dr('pick', I, lit(2))), out(('d', id_('pick'))), blk(xref(pick, r), out(('d', call(call('pick', lit(1)), lit(9), lit(2))))))]
        add('fptr4-%d' % k, *top, main(*u))
    # ... as pointers to void and integers, converted back to call them
    V, VP, UL = id_('v'), ('p', b('void')), b('ulong')
    for k, (rn, as_) in enumerate([('typedef', ('td', 'fi')), ('plain', fi)]):
        add('fptr3-' + rn, tdef('fi', fi), decl(dr('tab', ('a', VP, 3))), fndef('add', I, [('x', I), ('y', I)], blk(ret(pl(X, Y)))), fndef('sub', I, [('x', I), ('y', I)], blk(ret(bin_('-', X, Y)))),
            fndef('len', b('long'), [('s', ('p', CHAR)), ('c', CHAR)], blk(decl(dr('n', b('long'), lit(0))), while_(bin_('!=', deref(id_('s')), id_('c')), blk(es(inc(id_('s'))), es(inc(N)))), ret(N))),
            fndef('at', ('p', I), [('p', ('p', I)), ('n', I)], blk(ret(bin_('+', id_('p'), N)))), fndef('nop', b('void'), [], blk(out(('s', st('nop'))))),
            fndef('app', I, [('v', VP), ('x', I)], blk(decl(dr('f', fi, cast(as_, V))), ret(call('f', X, lit(3))))), fndef('app2', I, [('u', UL), ('x', I)], blk(ret(call(cast(as_, id_('u')), X, lit(3))))),
            main(decl(dr('f', fi)), decl(dr('v', VP)), decl(dr('u', UL)), decl(dr('a', ('a', I, 4))), es(asg(V, addr(id_('add')))), es(asg(id_('f'), cast(as_, V))), out(('d', call('f', lit(3), lit(4))), ('d', call(cast(as_, V), lit(9), lit(4))), ('d', call(deref(cast(as_, V)), lit(8), lit(4)))),
                 es(asg(idx(id_('tab'), lit(0)), addr(id_('sub')))), es(asg(idx(id_('tab'), lit(1)), addr(id_('len')))), es(asg(idx(id_('tab'), lit(2)), addr(id_('at')))), es(asg(id_('u'), cast(UL, idx(id_('tab'), lit(0))))),
                 out(('d', call(cast(as_, idx(id_('tab'), lit(0))), lit(3), lit(4))), ('d', call(cast(as_, id_('u')), lit(30), lit(4))), ('d', call('app', V, lit(2))), ('d', call('app2', id_('u'), lit(2))), ('d', call('app2', cast(UL, V), lit(2)))),
                 out(('ld', call(cast(FP(b('long'), ('p', CHAR), CHAR), idx(id_('tab'), lit(1))), st('walk'), lit(107)))), es(asg(deref(call(cast(FP(('p', I), ('p', I), I), idx(id_('tab'), lit(2))), id_('a'), lit(2))), lit(77))), out(('d', idx(id_('a'), lit(2)))),
                 es(asg(V, addr(id_('nop')))), es(call(cast(FP(b('void')), V))), es(asg(id_('f'), cast(as_, id_('u')))), out(('d', call('f', lit(1), lit(5))), ('d', bin_('==', id_('f'), addr(id_('sub')))), ('d', bin_('==', cast(as_, V), id_('f'))), ('lu', szt(fi)), ('lu', szt(as_)))))
    # a deep recursion
    add('depth', fndef('f', I, [('n', I)], blk(if_(un('!', N), ret(lit(0))), ret(pl(lit(1), call('f', mi(N, 1)))))), main(out(('d', call('f', lit(200))))))
    # static and global state over recursion
    add('counter', decl(dr('calls', I)), fndef('f', I, [('n', I)], blk(decl(dr('own', I), static=True), es(inc(id_('own'))), es(inc(id_('calls'))),
        if_(N, es(call('f', mi(N, 1)))), out(('d', N), ('d', id_('own')), ('d', id_('calls'))), ret(id_('own')))),
        main(out(('d', call('f', lit(3)))), out(('d', call('f', lit(1))))))
    return P


def hidden(c, r):
    """Objects that hide functions, and declarations that bring them back."""
    progs = []
    for i in range(12 if c.quick else 150):
        fns = [fndef(n, b(r.choice(['int', 'long', 'char'])), [('x', b(r.choice(['int', 'short'])))], blk(ret(bin_('+', id_('v'), bin_('+', bin_('*', id_('x'), lit(10)), lit(k)))))) for k, n in enumerate('fgh')]
        obs = [decl(dr('v', b(r.choice(['int', 'short'])), lit(70))), decl(dr('w', ('a', CHAR, 3)))]
        D_ = {d.n if d.k == 'fndef' else d.ds[0].n: d for d in fns + obs}

        def use(env):
            ss = []
            for n in r.sample('fghv', 3):
                k = env[n]
                if k in ('fn', 'ptr'):
                    ss.append(out(('ld', cast(b('long'), call(n, lit(r.randrange(9)))))))
                elif k == 'obj':
                    ss += [es(inc(id_(n))), out(('ld', cast(b('long'), id_(n))))]
                elif k == 'glob':
                    ss += [out(('ld', cast(b('long'), inc(id_(n)))))]
                elif k == 'arr':
                    ss.append(out(('lu', sze(id_(n)))))
            return ss + [es(inc(idx(id_('w'), lit(1))))]

        def block(d, env, body=False):
            env, ss, here = dict(env), [], set()
            for n in r.sample('fghv', r.randrange(1, 4)):
                if r.random() < .5:
                    ss += [xref(D_[n], r)] * r.choice([1, 1, 2])
                    env[n] = 'fn' if n != 'v' else 'glob'
                else:
                    k = r.choice(['obj', 'ptr', 'arr'])
                    if k == 'ptr':
                        # (g, say, is a function where its address is taken)
                        gs = [q for q in 'fgh' if env[q] == 'fn' and q != n]
                        if not gs:
                            k = 'obj'
                        else:
                            q = r.choice(gs)
                            ss.append(decl(dr(n, FP(D_[q].rt, D_[q].params[0][1]), addr(id_(q)))))
                    if k == 'obj':
                        ss.append(decl(dr(n, b(r.choice(INTS)), lit(r.randrange(99))), static=r.random() < .2))
                    elif k == 'arr':
                        ss.append(decl(dr(n, ('a', I, r.randrange(1, 9)))))
                    env[n] = k
                ss += use(env)
            if r.random() < .3:
                ss.append(xref(obs[1]))
            if d:
                for _ in range(r.randrange(1, 3)):
                    ss.append(r.choice([lambda: blk(*block(d - 1, env)), lambda: if_(lit(1), blk(*block(d - 1, env))), lambda: for_(decl(dr('i', I, lit(0))), bin_('<', id_('i'), lit(2)), inc(id_('i')), blk(*block(d - 1, env)))])())
                ss += use(env)
            return ss
        env = {'f': 'fn', 'g': 'fn', 'h': 'fn', 'v': 'glob'}
        e2 = dict(env, f='obj', h='ptr')
        k_ = fndef('k', I, [('f', I), ('h', FP(fns[2].rt, fns[2].params[0][1]))], blk(*use(e2), blk(*block(1, e2)), blk(xref(fns[0], r), *use(dict(e2, f='fn'))), ret(id_('f'))))
        progs.append(Program('hidden%d' % i, obs + fns + [k_, fndef('main', I, [], blk(*block(2, env), out(('d', idx(id_('w'), lit(1)))), blk(*[xref(x, r) for x in fns[2:]], out(('d', call('k', lit(4), addr(id_('h')))))), ret(lit(0))))]))
    return progs


def run(c):
    r = c.rng
    c.check(recursion(c, r) + signatures(c, r) + hidden(c, r))
    c.check([cgen.program(r, 'rand%d' % i, types=INTS if i % 2 else ['int'], nfn=5, nparams=6, nstm=7, depth=2,
                          feats=('decl', 'if', 'loop', 'block', 'ret', 'call', 'break')) for i in range(110 if c.quick else 1500)])
