"""C08: pointers and arrays: addresses, dereferences, pointer arithmetic,
comparison, difference, indexing, arrays as arguments, aliasing."""
from cprog import *
from arith import *
import cgen

I = b('int')
CH = b('char')


def walks(c, r):
    """Pointer arithmetic over arrays of all element types."""
    P = []
    kinds = [(t, b(t), FMT[t]) for t in INTS] + [('double', b('double'), 'f'), ('ptr', ('p', I), None), ('su', ('tag', 'struct s'), None)]
    for name, te, fm in kinds:
        for rep in range(1 if c.quick else 6):
            n = r.choice([4, 5, 7])
            A, p, q = id_('a'), id_('p'), id_('q')
            get = (lambda e: (fm, e)) if fm else (lambda e: ('d', deref(e))) if name == 'ptr' else (lambda e: ('d', mem(e, 'm')))
            put = (lambda e, v: es(asg(e, lit(v)))) if fm else (lambda e, v: es(asg(e, addr(idx(id_('cells'), lit(v % 8)))))) if name == 'ptr' else \
                  (lambda e, v: es(asg(mem(e, 'm'), lit(v))))
            body = [decl(dr('a', ('a', te, n))) if te[0] == 'b' or te[0] == 'tag' else decl(dr('a', ('a', te, n)))]
            body += [for_(decl(dr('i', I, lit(0))), bin_('<', id_('i'), lit(8)), inc(id_('i')), es(asg(idx(id_('cells'), id_('i')), bin_('*', id_('i'), lit(11)))))]
            body += [put(idx(A, lit(i)), i + 2) for i in range(n)]
            body += [decl(dr('p', ('p', te), A)), decl(dr('q', ('p', te), addr(idx(A, lit(n - 1)))))]
            allv = lambda: out(*[get(idx(A, lit(i))) for i in range(n)])
            pos = 0
            for _ in range(14 if c.quick else 40):
                k = r.randrange(12)
                if k == 0 and pos + 1 < n:
                    pos += 1
                    body.append(es(inc(p, 1, r.random() < .5)))
                elif k == 1 and pos > 0:
                    pos -= 1
                    body.append(es(inc(p, -1, r.random() < .5)))
                elif k == 2:
                    m = r.randrange(n)
                    body.append(es(casg('+', p, lit(m - pos))) if m >= pos else es(casg('-', p, lit(pos - m))))
                    pos = m
                elif k == 3:
                    m = r.randrange(n)
                    body.append(es(asg(p, bin_('+', A, lit(m)) if r.random() < .5 else addr(idx(A, lit(m))))))
                    pos = m
                elif k == 4:
                    m = r.randrange(n)
                    body.append(put(idx(p, lit(m - pos)), r.randrange(2, 40)))
                elif k == 5:
                    m = r.randrange(n)
                    body.append(put(deref(bin_('+', p, lit(m - pos)) if m >= pos else bin_('-', p, lit(pos - m))), r.randrange(2, 40)))
                elif k == 6:
                    body.append(out(('ld', bin_('-', p, A)), ('ld', bin_('-', q, p)), ('ld', bin_('-', p, q))))
                elif k == 7:
                    m = r.randrange(n)
                    body.append(es(asg(q, bin_('+', A, lit(m)))))
                    body.append(out(*[('d', bin_(o, p, q)) for o in ('<', '>', '<=', '>=', '==', '!=')]))
                elif k == 8:
                    body.append(out(get(deref(p)), get(idx(p, lit(0))), get(idx(A, lit(pos)))))
                elif k == 9 and pos + 1 < n:
                    body.append(out(get(deref(inc(p, 1, False)))))
                    pos += 1
                elif k == 10 and pos > 0:
                    body.append(out(get(deref(inc(p, -1, True)))))
                    pos -= 1
                else:
                    m = r.randrange(n)
                    body.append(decl(dr('i%d' % len(body), b(r.choice(INTS)), lit(m))))
                    body.append(out(get(idx(A, id_('i%d' % (len(body) - 1)))), get(deref(bin_('+', id_('i%d' % (len(body) - 1)), A)))))
                if r.random() < .3:
                    body.append(allv())
            body += [allv(), ret(lit(0))]
            P.append(Program('walk-%s%d' % (name, rep), [decl(dr('cells', ('a', I, 8))), sudef('struct', 's', [('k', CH), ('m', I), ('l', CH)]),
                                                       fndef('main', I, [], blk(*body))]))
    return P


def fixed(c, r):
    P = []
    X, Y, N, p, q, A = id_('x'), id_('y'), id_('n'), id_('p'), id_('q'), id_('a')
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    pi, ppi, pc = ('p', I), ('p', ('p', I)), ('p', CH)
    d = lambda n, te, v=None: decl(dr(n, te, v))

    def add(pid, *top):
        P.append(Program(pid, list(top)))
    i = id_('i')
    loop = lambda n, *s: for_(decl(dr('i', I, lit(0))), bin_('<', i, n if isinstance(n, Node) else lit(n)), inc(i), blk(*s))
    add('alias', main(d('x', I, lit(1)), d('p', pi, addr(X)), d('q', pi, p), d('pp', ppi, addr(p)), es(asg(deref(q), lit(5))), out(('d', X), ('d', deref(p)), ('d', deref(deref(id_('pp'))))),
        d('y', I, lit(8)), es(asg(deref(id_('pp')), addr(Y))), out(('d', deref(p)), ('d', deref(q)), ('d', bin_('==', p, q))), es(inc(deref(p))), es(inc(deref(deref(id_('pp'))))),
        out(('d', X), ('d', Y)), es(asg(deref(addr(X)), deref(addr(deref(p))))), out(('d', X))))
    add('argarray', fndef('fill', b('void'), [('a', pi), ('n', I), ('v', I)], blk(loop(N, es(asg(idx(A, i), bin_('*', id_('v'), i)))))),
        fndef('sum', I, [('a', pi), ('n', I)], blk(d('s', I, lit(0)), while_(inc(N, -1), es(casg('+', id_('s'), deref(inc(A))))), ret(id_('s')))),
        fndef('rev', b('void'), [('p', pi), ('q', pi)], blk(while_(bin_('<', p, q), blk(d('t', I, deref(p)), es(asg(deref(inc(p)), deref(q))), es(asg(deref(inc(q, -1)), id_('t'))))))),
        d('g', ('a', I, 6)), main(d('a', ('a', I, 5)), es(call('fill', A, lit(5), lit(3))), es(call('fill', id_('g'), lit(6), lit(2))), out(('d', call('sum', A, lit(5))), ('d', call('sum', bin_('+', id_('g'), lit(2)), lit(3)))),
             es(call('rev', A, bin_('+', A, lit(4)))), es(call('rev', addr(idx(id_('g'), lit(1))), addr(idx(id_('g'), lit(4))))),
             out(*[('d', idx(A, lit(k))) for k in range(5)], *[('d', idx(id_('g'), lit(k))) for k in range(6)])))
    s = id_('s')
    add('strings', fndef('len', I, [('s', pc)], blk(d('n', I, lit(0)), while_(deref(inc(s)), es(inc(N))), ret(N))),
        fndef('cpy', pc, [('p', pc), ('s', pc)], blk(d('q', pc, p), while_(deref(s), es(asg(deref(inc(q)), deref(inc(s))))), es(asg(deref(q), lit(0))), ret(p))),
        fndef('cmp', I, [('p', pc), ('q', pc)], blk(while_(land(deref(p), bin_('==', deref(p), deref(q))), blk(es(inc(p)), es(inc(q)))), ret(bin_('-', deref(p), deref(q))))),
        main(d('b', ('a', CH, 16)), d('s', pc, st('walk')), out(('d', call('len', s)), ('d', call('len', st(''))), ('d', call('len', bin_('+', s, lit(2))))),
             out(('s', call('cpy', id_('b'), s)), ('s', bin_('+', id_('b'), lit(1)))), es(call('cpy', bin_('+', id_('b'), lit(4)), st('ing'))), out(('s', id_('b'))),
             es(asg(idx(id_('b'), lit(0)), lit(84))), out(('s', id_('b')), ('d', call('cmp', id_('b'), s)), ('d', call('cmp', s, st('walk'))))))
    add('sort', fndef('sort', b('void'), [('a', pi), ('n', I)], blk(loop(N, for_(decl(dr('j', I, lit(0))), bin_('<', id_('j'), bin_('-', bin_('-', N, i), lit(1))), inc(id_('j')),
        if_(bin_('>', idx(A, id_('j')), idx(A, bin_('+', id_('j'), lit(1)))), blk(d('t', I, idx(A, id_('j'))), es(asg(idx(A, id_('j')), idx(A, bin_('+', id_('j'), lit(1))))),
            es(asg(idx(A, bin_('+', id_('j'), lit(1))), id_('t')))))))), ),
        main(d('a', ('a', I, 7)), *[es(asg(idx(A, lit(k)), lit(v))) for k, v in enumerate([5, -3, 9, 0, 5, 2, -8])], es(call('sort', A, lit(7))), out(*[('d', idx(A, lit(k))) for k in range(7)])))
    NODE = ('tag', 'struct node')
    PN = ('p', NODE)
    add('list', sudef('struct', 'node', [('v', I), ('next', PN)]), d('pool', ('a', NODE, 8)), d('used', I),
        fndef('push', PN, [('p', PN), ('n', I)], blk(d('q', PN, addr(idx(id_('pool'), inc(id_('used'))))), es(asg(arrow(q, 'v'), N)), es(asg(arrow(q, 'next'), p)), ret(q))),
        fndef('rev', PN, [('p', PN)], blk(d('r', PN), es(asg(id_('r'), lit(0))), while_(p, blk(d('n', PN, arrow(p, 'next')), es(asg(arrow(p, 'next'), id_('r'))), es(asg(id_('r'), p)), es(asg(p, N)))), ret(id_('r')))),
        fndef('show', b('void'), [('p', PN)], blk(for_(None, p, asg(p, arrow(p, 'next')), out(('d', arrow(p, 'v')))))),
        main(d('h', PN), es(asg(id_('h'), lit(0))), loop(5, es(asg(id_('h'), call('push', id_('h'), bin_('*', i, i))))), es(call('show', id_('h'))), es(asg(id_('h'), call('rev', id_('h')))),
             es(call('show', id_('h'))), out(('d', arrow(arrow(arrow(id_('h'), 'next'), 'next'), 'v')), ('d', mem(deref(arrow(id_('h'), 'next')), 'v')), ('d', bin_('==', id_('h'), id_('pool'))))))
    add('bytes', main(d('x', I, lit(0x01020304)), d('p', ('p', b('uchar')), cast(('p', b('uchar')), addr(X))), out(*[('d', idx(p, lit(k))) for k in range(4)]), es(asg(idx(p, lit(1)), lit(255))), out(('d', X)),
        d('l', b('long'), lit(-2)), d('h', ('p', b('short')), cast(('p', b('short')), addr(id_('l')))), out(*[('d', idx(id_('h'), lit(k))) for k in range(4)]), es(asg(idx(id_('h'), lit(2)), lit(3))), out(('ld', id_('l'))),
        d('v', ('p', b('void')), cast(('p', b('void')), addr(X))), out(('d', deref(cast(pi, id_('v')))))))
    # the address of an array is that of its first element
    SX = ('tag', 'struct sx')
    V = ('p', b('void'))
    for t in ('int', 'char', 'long', 'ushort'):
        T = b(t)
        PT = ('p', T)
        add('addrarray-' + t, sudef('struct', 'sx', [('c', CH), ('v', ('a', T, 4))]), d('ga', ('a', T, 3)), fndef('get', T, [('v', V), ('i', I)], blk(ret(idx(cast(PT, id_('v')), i)))),
            fndef('put', V, [('v', V), ('i', I), ('n', I)], blk(es(asg(idx(cast(PT, id_('v')), i), N)), ret(id_('v')))),
            main(d('a', ('a', T, 4)), d('s', SX), d('ps', ('p', SX), addr(s)), d('pa', ('a', PT, 2)), d('p', PT, cast(PT, addr(A))), d('v', V, addr(A)), loop(4, blk(es(asg(idx(A, i), bin_('+', i, lit(30)))), es(asg(idx(mem(s, 'v'), i), bin_('+', i, lit(40)))))), es(asg(idx(p, lit(1)), lit(5))), es(call('put', addr(A), lit(2), lit(77))), es(call('put', addr(id_('ga')), lit(2), lit(78))),
                 es(call('put', addr(mem(s, 'v')), lit(3), lit(79))), es(call('put', addr(arrow(id_('ps'), 'v')), lit(0), lit(80))),
                 out(*[(FMT[t], idx(A, lit(k))) for k in range(4)], *[(FMT[t], idx(id_('ga'), lit(k))) for k in range(3)], *[(FMT[t], idx(mem(s, 'v'), lit(k))) for k in range(4)]),
                 out((FMT[t], call('get', addr(A), lit(1))), (FMT[t], call('get', addr(mem(s, 'v')), lit(3))), (FMT[t], call('get', call('put', addr(id_('ga')), lit(1), lit(3)), lit(2)))),
                 out(('ld', bin_('-', cast(pc, addr(mem(s, 'v'))), cast(pc, addr(s)))), ('ld', bin_('-', cast(pc, addr(idx(A, lit(3)))), cast(pc, addr(A)))), ('d', bin_('==', id_('v'), cast(V, A))), ('d', bin_('==', cast(pc, addr(id_('ga'))), cast(pc, addr(idx(id_('ga'), lit(0))))))),
                 es(asg(idx(id_('pa'), lit(0)), cast(PT, addr(id_('ga'))))), es(asg(idx(id_('pa'), lit(1)), bin_('+', cast(PT, addr(mem(s, 'v'))), lit(2)))), es(asg(deref(idx(id_('pa'), lit(1))), lit(9))), out((FMT[t], idx(idx(id_('pa'), lit(0)), lit(2))), (FMT[t], idx(mem(s, 'v'), lit(2)))),
                 out(('d', bin_('==', deref(cast(('p', PT), addr(id_('pa')))), id_('ga'))))))
    # void ** and what it points to
    VV = ('p', V)
    add('voidpp', d('gv', V), fndef('swap', b('void'), [('a', VV), ('b', VV)], blk(d('t', V, deref(A)), es(asg(deref(A), deref(id_('b')))), es(asg(deref(id_('b')), id_('t'))))),
        main(d('x', I, lit(5)), d('y', I, lit(6)), d('v', V, addr(X)), d('w', V, addr(Y)), d('vv', VV, addr(id_('v'))), d('t', ('a', V, 3)), d('p', pi),
             out(('d', deref(cast(pi, deref(id_('vv')))))), es(asg(deref(id_('vv')), addr(Y))), out(('d', deref(cast(pi, id_('v')))), ('d', bin_('==', id_('v'), id_('w')))),
             es(asg(deref(id_('vv')), addr(X))), es(call('swap', id_('vv'), addr(id_('w')))), out(('d', deref(cast(pi, id_('v')))), ('d', deref(cast(pi, id_('w'))))),
             es(asg(idx(id_('t'), lit(0)), addr(X))), es(asg(idx(id_('t'), lit(1)), addr(Y))), es(asg(idx(id_('t'), lit(2)), addr(idx(id_('t'), lit(0))))), es(asg(id_('gv'), id_('t'))),
             out(('d', deref(cast(pi, idx(id_('t'), lit(0))))), ('d', deref(cast(pi, idx(id_('t'), lit(1))))), ('d', deref(deref(cast(ppi, idx(id_('t'), lit(2)))))), ('d', deref(cast(pi, idx(cast(VV, id_('gv')), lit(1)))))),
             es(asg(id_('vv'), id_('t'))), es(inc(id_('vv'))), out(('d', deref(cast(pi, deref(id_('vv'))))), ('ld', bin_('-', id_('vv'), id_('t'))), ('lu', sze(deref(id_('vv'))))),
             es(call('swap', id_('t'), addr(idx(id_('t'), lit(1))))), out(('d', deref(cast(pi, idx(id_('t'), lit(0)))))), es(asg(id_('vv'), cast(VV, addr(p)))), es(asg(deref(id_('vv')), addr(X))), out(('d', deref(p)))))
    add('ptrarrays', main(d('x', I, lit(1)), d('y', I, lit(2)), d('a', ('a', pi, 3)), es(asg(idx(A, lit(0)), addr(X))), es(asg(idx(A, lit(1)), addr(Y))), es(asg(idx(A, lit(2)), idx(A, lit(0)))),
        es(casg('+', deref(idx(A, lit(2))), lit(10))), out(('d', deref(idx(A, lit(0)))), ('d', deref(deref(A))), ('d', idx(idx(A, lit(1)), lit(0)))), d('pp', ppi, A), es(inc(id_('pp'))), out(('d', deref(deref(id_('pp')))), ('ld', bin_('-', id_('pp'), A)))))
    add('ppp', main(d('x', I, lit(3)), d('p', pi, addr(X)), d('q', ppi, addr(p)), d('r', ('p', ppi), addr(q)), es(asg(deref(deref(deref(id_('r')))), lit(12))), out(('d', X), ('d', bin_('==', deref(deref(id_('r'))), addr(X))))))
    return P


def levels(c, r):
    """Pointers to pointers to ...: all levels, through void pointers, casts,
    parameters, results, members and arrays."""
    P = []
    V = ('p', b('void'))
    for t in INTS + ['double', 'struct']:
        te = b(t) if t != 'struct' else ('tag', 'struct s')
        val = (lambda e: (FMT[t], e)) if t in INTS else (lambda e: ('f', e)) if t == 'double' else (lambda e: ('d', mem(e, 'm')))
        put = (lambda e, v: es(asg(e, lit(v)))) if t != 'struct' else (lambda e, v: es(asg(mem(e, 'm'), lit(v))))

        def lv(n):
            return te if n == 0 else ('p', lv(n - 1))

        def de(e, n):
            for _ in range(n):
                e = deref(e) if r.random() < .6 else idx(e, lit(0))
            return e
        for rep in range(1 if c.quick else 6):
            top = [sudef('struct', 's', [('k', CH), ('m', I), ('l', b('short'))])]
            body = [decl(dr('v', V)), decl(dr('a', ('a', te, 5))), decl(dr('n', b('long')))]
            body += [put(idx(id_('a'), lit(k)), 10 + k) for k in range(5)]
            for n in range(1, 5):
                q = 'q%d' % n
                top += [sudef('struct', 'h%d' % n, [('c', CH), ('p', lv(n))]),
                        fndef('same%d' % n, lv(n), [('p', lv(n))], blk(ret(id_('p')))), fndef('blur%d' % n, V, [('p', lv(n))], blk(ret(id_('p')))),
                        fndef('top%d' % n, te if t != 'struct' else I, [('p', V)], blk(ret(de(cast(lv(n), id_('p')), n) if t != 'struct' else mem(de(cast(lv(n), id_('p')), n), 'm'))))]
                # q_n is an array of pointers to the elements of q_(n-1)
                below = 'a' if n == 1 else 'q%d' % (n - 1)
                body += [decl(dr(q, ('a', lv(n), 4))), decl(dr('h%d' % n, ('tag', 'struct h%d' % n)))]
                perm = [r.randrange(5 if n == 1 else 4) for _ in range(4)]
                body += [es(asg(idx(id_(q), lit(k)), addr(idx(id_(below), lit(z))) if r.random() < .5 else bin_('+', id_(below), lit(z)))) for k, z in enumerate(perm)]
                body += [out(*[val(de(idx(id_(q), lit(k)), n)) for k in range(4)])]
                # as a void pointer and back
                C = lambda: cast(lv(n + 1), id_('v'))
                k = r.randrange(4)
                body += [es(asg(id_('v'), id_(q))), out(val(de(deref(bin_('+', C(), lit(k))), n)), val(de(idx(C(), lit(3 - k)), n)), val(de(deref(deref(C())), n - 1)), ('lu', szt(lv(n + 1)))),
                         es(asg(id_('v'), idx(id_(q), lit(k)))), out(val(de(cast(lv(n), id_('v')), n)), ('d', bin_('==', cast(lv(n), id_('v')), idx(id_(q), lit(k)))), (FMT[t] if t in INTS else 'f' if t == 'double' else 'd', call('top%d' % n, id_('v')))),
                         es(asg(id_('n'), bin_('-', cast(lv(n + 1), addr(idx(id_(q), lit(3)))), id_(q)))), out(('ld', id_('n')), ('d', bin_('<', cast(lv(n + 1), id_('v')), cast(lv(n + 1), id_('v'))))),
                         out(val(de(call('same%d' % n, idx(id_(q), lit(k))), n)), val(de(cast(lv(n), call('blur%d' % n, idx(id_(q), lit(1)))), n)))]
                body += [es(asg(mem(id_('h%d' % n), 'p'), cast(lv(n), id_('v')))), out(val(de(mem(id_('h%d' % n), 'p'), n))), put(de(mem(id_('h%d' % n), 'p'), n), 40 + n), out(val(de(idx(id_(q), lit(k)), n))),
                         decl(dr('w%d' % n, lv(n + 1), cast(lv(n + 1), cast(V, id_(q))))), out(val(de(inc(id_('w%d' % n), 1, False) if 0 else idx(id_('w%d' % n), lit(1)), n))), es(inc(id_('w%d' % n), 1, r.random() < .5)),
                         out(val(de(deref(id_('w%d' % n)), n)), ('ld', bin_('-', id_('w%d' % n), id_(q)))), es(casg('+', id_('w%d' % n), lit(2))), out(val(de(id_('w%d' % n), n + 1))),
                         es(asg(deref(id_('w%d' % n)), idx(id_(q), lit(0)))), out(*[val(de(idx(id_(q), lit(k)), n)) for k in range(4)])]
                body += [out(*[val(idx(id_('a'), lit(k))) for k in range(5)])]
            P.append(Program('levels-%s%d' % (t, rep), top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


WIDE = {'long': 'long', 'ulong': 'unsigned long', 'llong': 'long long', 'ullong': 'unsigned long long'}


def integers(c, r):
    """Addresses as integers: conversions to the types that are as wide as
    pointers and back, arithmetic on them, their comparison, and pointers that
    are read and written through pointers to integers."""
    P = []
    V = ('p', b('void'))
    kinds = [(t, b(t), FMT[t], WIDTH[t] // 8) for t in ['char', 'short', 'int', 'ulong']] + [('double', b('double'), 'f', 8)]
    for (name, te, fm, w), (u, us) in [(k, x) for k in kinds for x in WIDE.items()]:
        for rep in range(1 if c.quick else 5):
            U, PT = b(u, us), ('p', te)
            A, x, y, p, v = id_('a'), id_('x'), id_('y'), id_('p'), id_('v')
            n = r.choice([4, 6])
            at = lambda k: bin_('+', A, lit(k)) if r.random() < .5 else addr(idx(A, lit(k)))
            of = lambda k: cast(U, at(k) if r.random() < .7 else cast(V, at(k)))
            get = lambda e: (fm, deref(cast(PT, e))) if r.random() < .7 else (fm, idx(cast(PT, e), lit(0)))
            top = [sudef('struct', 's', [('c', CH), ('u', U), ('p', PT)]), decl(dr('g', U)),
                   fndef('raw', U, [('p', V)], blk(ret(cast(U, id_('p'))))), fndef('same', U, [('c', CH), ('u', U), ('d', CH)], blk(ret(id_('u')))),
                   fndef('at', PT, [('u', U)], blk(ret(cast(PT, id_('u'))))), fndef('get', te, [('u', U), ('k', I)], blk(ret(deref(cast(PT, bin_('+', id_('u'), bin_('*', id_('k'), lit(w)))))))),
                   fndef('put', b('void'), [('u', U), ('k', I)], blk(es(asg(deref(cast(PT, id_('u'))), id_('k')))))]
            body = [decl(dr('a', ('a', te, n))), decl(dr('x', U)), decl(dr('y', U)), decl(dr('p', PT)), decl(dr('v', V)), decl(dr('t', ('a', U, 3))), decl(dr('s', ('tag', 'struct s'))),
                    decl(dr('pu', ('p', U)))]
            body += [es(asg(idx(A, lit(k)), lit(20 + k))) for k in range(n)]
            pos = 0
            body += [es(asg(x, of(0)))]
            for step in range(12 if c.quick else 30):
                k, m = r.randrange(13), r.randrange(n)
                if k == 0:
                    body += [es(asg(x, of(m))), out(get(x))]
                    pos = m
                elif k == 1:
                    body += [es(asg(x, bin_('+', x, lit((m - pos) * w)) if m >= pos else bin_('-', x, lit((pos - m) * w)))), out(get(x))]
                    pos = m
                elif k == 2:
                    body += [es(casg('+', x, lit((m - pos) * w)) if m >= pos else casg('-', x, lit((pos - m) * w))), out(get(x))]
                    pos = m
                elif k == 3:
                    body += [es(asg(y, of(m))), out(*[('d', bin_(o, x, y)) for o in ('==', '!=', '<', '>', '<=', '>=')])]
                elif k == 4:
                    body += [out(('ld' if SIGNED.get(u, u == 'llong') else 'lu', bin_('-', of(n - 1), x)), (fm, idx(cast(PT, bin_('+', lit((m - pos) * w), x)), lit(0))) if m >= pos else get(x))]
                elif k == 5:
                    body += [es(asg(p, cast(PT, x))), out((fm, deref(p)), ('ld', bin_('-', p, A)), ('d', bin_('==', p, at(pos))))]
                elif k == 6:
                    body += [es(asg(idx(id_('t'), lit(1)), x)), es(asg(mem(id_('s'), 'u'), idx(id_('t'), lit(1)))), es(asg(id_('g'), mem(id_('s'), 'u'))), out(get(id_('g')), ('d', bin_('==', mem(id_('s'), 'u'), of(pos))), get(idx(id_('t'), lit(1))))]
                elif k == 7:
                    body += [es(asg(v, cast(V, x))), out((fm, deref(cast(PT, v))), ('d', bin_('==', v, cast(V, at(m)))), ('d', bin_('==', cast(U, v), x)))]
                elif k == 8:
                    body += [out((fm, call('get', x, lit(0))), (fm, call('get', of(0), lit(m))), ('d', bin_('==', call('raw', cast(V, at(m))), of(m))), (fm, deref(call('at', call('same', lit(1), x, lit(2))))))]
                elif k == 9:
                    body += [es(call('put', x, lit(50 + step))), es(asg(deref(cast(PT, of(m))), lit(30 + step))), out(*[(fm, idx(A, lit(z))) for z in range(n)])]
                elif k == 10:
                    body += [if_(x, out(('d', un('!', x)), ('d', land(x, lit(1))), ('d', cond(x, lit(4), lit(5)))), out(('s', st('null'))))]
                elif k == 11:
                    # the bytes of a pointer are those of the integer
                    body += [es(asg(p, at(m))), es(asg(id_('pu'), cast(('p', U), addr(p)))), out(get(deref(id_('pu'))), ('d', bin_('==', deref(id_('pu')), of(m)))), es(asg(deref(id_('pu')), x)), out((fm, deref(p)), ('ld', bin_('-', p, A))),
                             es(casg('+', deref(id_('pu')), lit((n - 1 - pos) * w))), out((fm, deref(p)))]
                else:
                    body += [es(asg(p, lit(0))), es(asg(y, cast(U, p))), out(('d', bin_('==', y, lit(0))), ('d', bin_('!=', x, lit(0))), ('d', bin_('==', cast(V, y), cast(V, lit(0)))), ('d', un('!', y)), ('lu', sze(y)))]
            P.append(Program('integers-%s-%s%d' % (name, u, rep), top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def numbers(c, r):
    """Numbers as pointers, and back."""
    P = []
    V = ('p', b('void'))
    for i in range(4 if c.quick else 40):
        body, top = [], [fndef('num', b('long'), [('p', V)], blk(ret(cast(b('long'), id_('p'))))), fndef('ptr', ('p', CH), [('n', b('uint'))], blk(ret(cast(('p', CH), id_('n'))))),
                         sudef('struct', 's', [('m' + t, b(t)) for t in INTS] + [('p', V)])]
        body += [decl(dr('s', ('tag', 'struct s'))), decl(dr('v', V)), decl(dr('w', ('p', I)))]
        for t in INTS:
            body += [decl(dr('a', ('a', b(t), 4))) if 0 else decl(dr('a' + t, ('a', b(t), 4)))] + [es(asg(idx(id_('a' + t), lit(k)), lit(r.choice([0, 1, 5, 77, 100, 127] + ([2000, 3999] if WIDTH[t] > 8 else []))))) for k in range(4)]
        for j in range(14):
            t, k, U = r.choice(INTS), r.randrange(4), r.choice(['long', 'ulong', 'int', 'short', 'uint', 'char'])
            src = idx(id_('a' + t), lit(k))
            m = mem(id_('s'), 'm' + t)
            body += [es(asg(id_('v'), cast(V, src))), es(asg(m, src)), es(asg(mem(id_('s'), 'p'), cast(V, m))), es(asg(id_('w'), cast(('p', I), id_('v')))),
                     out(('ld', cast(b('long'), id_('v'))), ('d', bin_('==', id_('v'), mem(id_('s'), 'p'))), ('d', un('!', id_('w'))), ('ld', call('num', mem(id_('s'), 'p'))), (FMT[U], cast(b(U), cast(b('long'), id_('w')))),
                         ('ld', call('num', cast(V, src))), ('d', bin_('==', call('ptr', src), cast(('p', CH), src))), ('d', bin_('==', id_('v'), cast(V, lit(77)))))]
        P.append(Program('numbers%d' % i, top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def subscripts(c, r):
    """The operands of a subscript in either order; arrays whose size is known
    at run time; parameters that are declared as arrays."""
    P = []
    V = ('p', b('void'))
    A, N, i = id_('a'), id_('n'), id_('i')
    ST = ('tag', 'struct s')
    kinds = [(t, b(t), FMT[t], lambda e: e) for t in INTS] + [('double', b('double'), 'f', lambda e: e), ('struct', ST, 'd', lambda e: mem(e, 'm'))]
    for t, te, fm, of in kinds:
        for rep in range(1 if c.quick else 8):
            at = lambda p, k: of(idx(k, p) if r.random() < .5 else idx(p, k))
            sd = [sudef('struct', 's', [('k', CH), ('m', I), ('l', b('short'))])]
            n = r.randrange(3, 7)
            vals = lambda p, n: out(*[(fm, at(p, lit(k))) for k in range(n)])
            put = lambda p, k, v: es(asg(at(p, k), v))
            # of different sizes, in loops and in calls that are active at the same time
            size = r.choice([lambda: N, lambda: bin_('+', N, lit(1)), lambda: bin_('*', N, lit(2)), lambda: cond(N, N, lit(1)), lambda: cast(b('uchar'), N), lambda: bin_('-', sze(N), bin_('-', lit(3), N))])
            top = sd + [fndef('sum', b('long'), [('n', I), ('m', b(r.choice(INTS)))], blk(
                decl(dr('a', ('a', te, size()))), decl(dr('k', I, lit(n))), decl(dr('s', b('long'), lit(0))), for_(decl(dr('i', I, lit(0))), bin_('<', i, N), inc(i), put(A, i, bin_('+', i, id_('m')))),
                if_(bin_('>', N, lit(1)), blk(es(casg('+', id_('s'), call('sum', bin_('-', N, lit(1)), bin_('+', id_('m'), lit(10))))), vals(A, 2))),
                for_(decl(dr('i', I, lit(0))), bin_('<', i, N), inc(i), es(casg('+', id_('s'), cast(b('long'), at(A, i))))), out(('lu', sze(A)), ('d', id_('k')), ('ld', id_('s'))), ret(id_('s'))))] if t != 'double' else \
                sd + [fndef('sum', b('long'), [('n', I), ('m', I)], blk(decl(dr('a', ('a', te, size()))), put(A, lit(0), id_('m')), out(('lu', sze(A)), ('f', at(A, lit(0)))), ret(N)))]
            body = [out(('ld', call('sum', lit(n), lit(r.randrange(9)))))]
            body += [for_(decl(dr('j', I, lit(1))), bin_('<', id_('j'), lit(5)), inc(id_('j')), blk(
                decl(dr('a', ('a', te, id_('j')))), decl(dr('b', I, id_('j'))), decl(dr('p', ('a', ('p', te), bin_('+', id_('j'), lit(1))))), put(A, bin_('-', id_('j'), lit(1)), lit(n)), es(asg(idx(id_('p'), id_('j')), A)), es(inc(id_('b'))),
                out(('lu', sze(A)), ('lu', sze(id_('p'))), (fm, at(A, bin_('-', id_('b'), lit(2)))), (fm, at(idx(id_('j'), id_('p')), bin_('-', id_('j'), lit(1)))))))]
            body += [decl(dr('n', I, lit(n))), decl(dr('a', ('a', te, N))), decl(dr('x', I, lit(n))), es(asg(N, lit(1)))]
            body += [put(A, lit(k), lit(k + 5)) for k in range(n)] + [out(('lu', sze(A)), ('d', id_('x'))), vals(A, n)]
            P.append(Program('sized-%s%d' % (t, rep), top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
            # parameters
            top = sd + [tdef('arr', ('a', te, 3)), tdef('el', te), fndef('set', b('void'), [('a', ('a', te, 0)), ('i', I), ('v', I)], blk(put(A, i, id_('v')), es(asg(i, lit(0))))),
                        fndef('get', te if t != 'struct' else I, [('i', b('char')), ('a', ('a', te, 4)), ('j', b('long'))], blk(es(inc(A)), out(('lu', sze(A)), (fm, at(A, lit(0)))), es(casg('-', A, lit(1))), ret(at(A, i)))),
                        fndef('mid', ('p', te), [('x', CH), ('a', ('td', 'arr')), ('y', CH)], blk(out(('lu', sze(A)), ('d', id_('x')), ('d', id_('y'))), ret(bin_('+', A, lit(1))))),
                        fndef('pp', te if t != 'struct' else I, [('a', ('a', ('p', ('td', 'el')), 0)), ('q', ('a', ('p', te), 2))], blk(out(('d', bin_('==', idx(A, lit(0)), idx(id_('q'), lit(1))))), ret(at(idx(A, lit(1)), lit(0))))),
                        fndef('app', te if t != 'struct' else I, [('f', ('fn', te if t != 'struct' else I, [CH, ('p', te), b('long')])), ('a', ('a', te, 0)), ('k', I)], blk(ret(call('f', id_('k'), A, lit(1))))),
                        fndef('rec', b('void'), [('a', ('a', te, 0)), ('n', I)], blk(if_(bin_('>', N, lit(0)), blk(put(A, lit(0), N), es(call('rec', bin_('+', A, lit(1)), bin_('-', N, lit(1))))))))]
            body = [decl(dr('a', ('a', te, 4)), dr('q', ('a', ('p', te), 2))), decl(dr('z', ('td', 'arr')))] + [es(call('set', A, lit(k), lit(k + 7))) for k in range(4)] + [es(call('set', bin_('+', id_('z'), lit(k)), lit(0), lit(k + 2))) for k in range(3)]
            body += [vals(A, 4), vals(id_('z'), 3), out((fm, call('get', lit(2), A, lit(9)))), out((fm, call('get', lit(1), bin_('-', bin_('+', A, lit(2)), lit(1)), lit(9)))), out((fm, at(call('mid', lit(1), id_('z'), lit(2)), lit(1)))), out((fm, at(call('mid', lit(3), addr(idx(A, lit(1))), lit(4)), lit(0)))),
                     es(asg(idx(id_('q'), lit(0)), addr(idx(A, lit(3))))), es(asg(idx(lit(1), id_('q')), id_('z'))), out((fm, call('pp', id_('q'), id_('q')))), out((fm, call('app', addr(id_('get')), A, lit(0)))), es(call('rec', A, lit(4))), vals(A, 4), out(('d', bin_('==', addr(idx(lit(2), A)), bin_('+', A, lit(2)))), ('lu', sze(idx(lit(1), A)) if t != 'struct' else szt(ST)))]
            P.append(Program('params-%s%d' % (t, rep), top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def run(c):
    r = c.rng
    c.check(walks(c, r) + fixed(c, r) + levels(c, r) + integers(c, r) + numbers(c, r) + subscripts(c, r))
    c.check([cgen.program(r, 'rand%d' % i, types=INTS if i % 2 else ['int', 'char'], nglob=4, nfn=2, nstm=12, depth=2,
                          feats=('decl', 'if', 'loop', 'block', 'ret', 'call', 'array', 'ptr', 'struct')) for i in range(110 if c.quick else 1500)])
