"""C02: the structure of expressions: precedence, associativity, grouping,
short circuits, sequencing, evaluation of every operand exactly once."""
import itertools
from cprog import *
from arith import binop, OPS
import cgen

BIN = ['*', '/', '%', '+', '-', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '||']
I = b('int')


def mk(op, a, c):
    return land(a, c) if op == '&&' else lor(a, c) if op == '||' else bin_(op, a, c)


def val(e, env):
    """The value of an int expression, or None when it isn't defined."""
    k = e.k
    if k == 'lit':
        return e.v
    if k == 'id':
        return env[e.n]
    if k in ('bin', 'land', 'lor'):
        x, y = val(e.a, env), val(e.b, env)
        if k == 'land' and x == 0:
            return 0
        if k == 'lor' and x:
            return 1
        if x is None or y is None:
            return None
        op = e.op if k == 'bin' else '&&' if k == 'land' else '||'
        z = binop(op, x, 'int', y, 'int')
        return None if z is None else z[0]
    if k == 'un':
        x = val(e.a, env)
        return None if x is None else int(not x) if e.op == '!' else -x if e.op == '-' else ~x
    if k == 'cond':
        x = val(e.a, env)
        return None if x is None else val(e.b if x else e.c, env)
    if k == 'comma':
        x, y = val(e.a, env), val(e.b, env)
        return None if x is None else y
    raise ValueError(k)


TRIPLES = [(5, 3, 2), (7, 2, 1), (1, 0, 2), (0, 4, 1), (13, 6, 3), (2, 2, 2), (100, 9, 4), (0, 0, 1), (3, 1, 0), (6, 5, 7)]


def exprs_main(pid, exprs, triples, full=False):
    """A program that evaluates the expressions for all triples, where defined."""
    names = ['a', 'b', 'c', 'd']
    body = [decl(*[dr(n, I) for n in names])]
    n = 0
    for t in triples:
        env = dict(zip(names, t + (t[0] ^ 9,)))
        body += [es(asg(id_(x), lit(env[x]))) for x in names]
        ok = []
        for e in exprs:
            v = val(e, env)
            if v is not None and abs(v) < 2 ** 31:
                ok.append(('d', e))
        n += len(ok)
        body += [out(*ok[i:i + 10]) for i in range(0, len(ok), 10)]
    body.append(ret(lit(0)))
    return Program(pid, [fndef('main', I, [], blk(*body))], full=full), n


def trace_fn():
    """int t(int n, int v) prints n and returns v"""
    return fndef('t', I, [('n', I), ('v', I)], blk(out(('d', id_('n'))), ret(id_('v'))))


def run(c):
    r = c.rng
    A, B, C, D = id_('a'), id_('b'), id_('c'), id_('d')
    progs, n = [], 0
    # every pair of binary operators, both shapes
    exprs = []
    for o1, o2 in itertools.product(BIN, BIN):
        exprs.append(mk(o2, mk(o1, A, B), C))
        exprs.append(mk(o1, A, mk(o2, B, C)))
    k = 81
    for i in range(0, len(exprs), k):
        tr = TRIPLES if not c.quick else r.sample(TRIPLES, 4)
        p, m = exprs_main('pairs%d' % (i // k), exprs[i:i + k], tr)
        progs.append(p)
        n += m
    # unary, conditional and comma operators next to binary ones
    exprs = []
    for o in BIN:
        for u in '-~!':
            exprs += [mk(o, un(u, A), B), un(u, mk(o, A, B)), mk(o, A, un(u, B)), un(u, un(r.choice('-~!'), mk(o, A, B)))]
        exprs += [cond(mk(o, A, B), C, D), cond(A, mk(o, B, C), D), cond(A, B, mk(o, C, D)),
                  mk(o, cond(A, B, C), D), mk(o, A, cond(B, C, D)), mk(o, A, cond(B, C, D)),
                  mk(o, comma(A, B), C), mk(o, A, comma(B, C)), comma(mk(o, A, B), mk(o, B, C))]
    exprs += [cond(A, B, cond(C, D, A)), cond(A, cond(B, C, D), A), cond(cond(A, B, C), D, A),
              comma(A, comma(B, C)), comma(comma(A, B), C), cond(A, comma(B, C), D)]
    for i in range(0, len(exprs), 70):
        p, m = exprs_main('mixed%d' % (i // 70), exprs[i:i + 70], r.sample(TRIPLES, 4))
        progs.append(p)
        n += m
    # random trees with the fewest and with all parentheses
    for i in range(16 if c.quick else 160):
        def tree(d):
            if d == 0:
                return r.choice([A, B, C, D, lit(r.randrange(0, 9))])
            q = r.random()
            if q < .1:
                return un(r.choice('-~!'), tree(d - 1))
            if q < .18:
                return cond(tree(d - 1), tree(d - 1), tree(d - 1))
            if q < .22:
                return comma(tree(d - 1), tree(d - 1))
            return mk(r.choice(BIN), tree(r.choice([d - 1, 0])), tree(d - 1))
        p, m = exprs_main('tree%d' % i, [tree(r.randrange(2, 6)) for _ in range(40)], r.sample(TRIPLES, 3), full=i % 2 == 1)
        progs.append(p)
        n += m
    c.extra['expressions'] = n
    # which operands are evaluated, in which order: all trees of && || ?: , and !
    T = lambda i, v: call('t', lit(i), v)

    def logic(nl):
        """All trees with nl leaves over && || , (and ?: )"""
        if nl == 1:
            return ['leaf']
        res = []
        for i in range(1, nl):
            for l in logic(i):
                for q in logic(nl - i):
                    for o in ('&&', '||', ','):
                        res.append((o, l, q))
        for i in range(1, nl - 1):
            for j in range(1, nl - i):
                for x in logic(i):
                    for y in logic(j):
                        for z in logic(nl - i - j):
                            res.append(('?', x, y, z))
        return res

    def build(t, cnt, vals):
        if t == 'leaf':
            cnt[0] += 1
            return T(cnt[0], lit(vals[cnt[0] - 1]))
        xs = [build(y, cnt, vals) for y in t[1:]]
        return {'&&': lambda: land(*xs), '||': lambda: lor(*xs), ',': lambda: comma(*xs), '?': lambda: cond(*xs)}[t[0]]()
    trees = [(t, vs) for m in (2, 3) for t in logic(m) for vs in itertools.product((0, 1, 2) if m == 2 else (0, 1), repeat=m)]
    four = [(t, vs) for t in logic(4) for vs in itertools.product((0, 3), repeat=4)]
    c.extra['sequenced_trees'] = {'leaves 2-3 (all)': len(trees), 'leaves 4': len(four)}
    trees += r.sample(four, 250) if c.quick else four
    for i in range(0, len(trees), 24):
        body = []
        for t, vs in trees[i:i + 24]:
            e = build(t, [0], vs)
            q = r.randrange(4)
            if q == 0:
                body.append(es(asg(id_('x'), e)))
                body.append(out(('d', id_('x'))))
            elif q == 1:
                body.append(if_(e, out(('d', lit(-1))), out(('d', lit(-2)))))
            elif q == 2:
                body.append(out(('d', un('!', e))))
            else:
                body.append(out(('d', e)))
        progs.append(Program('seq%d' % (i // 24), [trace_fn(), fndef('main', I, [], blk(decl(dr('x', I)), *body, ret(lit(0))))]))
    # every operand exactly once, whatever the construct around it
    once = []
    x, a, p, s = id_('x'), id_('v'), id_('p'), id_('s')
    f = lambda v: T(7, v if isinstance(v, Node) else lit(v))
    for op in ['+', '-', '/', '<<', '>>', '^']:
        once += [es(casg(op, idx(a, f(1)), lit(2))), es(casg(op, deref(bin_('+', p, f(2))), lit(1))),
                 es(casg(op, mem(idx(id_('q'), f(1)), 'm'), lit(1))), es(casg(op, x, f(2)))]
    for d in (1, -1):
        for pre in (True, False):
            once += [es(inc(idx(a, f(1)), d, pre)), es(inc(mem(idx(id_('q'), f(0)), 'm'), d, pre)),
                     es(asg(x, inc(idx(a, f(3)), d, pre))), es(inc(deref(bin_('+', p, f(2))), d, pre)),
                     out(('d', inc(idx(p, f(1)), d, pre)))]
    for o in BIN:
        once += [es(asg(x, mk(o, f(9), lit(4)))), es(asg(x, mk(o, lit(9), f(4)))), es(asg(x, mk(o, f(0), lit(4))))]
    for u in '-~!':
        once += [es(asg(x, un(u, f(5))))]
    once += [es(asg(idx(a, f(2)), lit(44))), es(asg(x, idx(a, f(2)))), es(asg(x, cast(b('char'), f(300)))),
             es(asg(x, call('t', lit(3), f(8)))), es(asg(x, asg(idx(a, f(0)), lit(8)))),
             es(asg(idx(a, lit(1)), asg(x, asg(idx(a, lit(2)), f(6))))),
             es(asg(deref(addr(idx(a, f(3)))), lit(3))), es(asg(x, deref(addr(idx(a, f(3)))))),
             es(asg(x, mem(idx(id_('q'), f(1)), 'm'))), es(asg(x, arrow(bin_('+', id_('q'), f(1)), 'm'))),
             out(('lu', sze(idx(a, lit(1))))), es(asg(x, lit(77))),
             es(call('t', lit(1), f(1))), while_(land(f(1), bin_('<', inc(x, 1, True), lit(81))), es(inc(idx(a, f(1))))),
             for_(es(asg(x, f(0))), bin_('<', x, f(3)), casg('+', x, f(1)), out(('d', x))),
             if_(f(0), empty(), out(('d', f(1)))), es(cond(f(1), asg(x, f(2)), asg(x, f(3)))),
             es(cond(f(0), asg(x, f(2)), asg(x, f(3))))]
    setup = [decl(dr('x', I, lit(100)), dr('v', ('a', I, 4)), dr('p', ('p', I), id_('v'))),
             decl(dr('q', ('a', ('tag', 'struct s'), 2)))]
    setup += [es(asg(idx(a, lit(j)), lit(40 + 9 * j))) for j in range(4)]
    setup += [es(asg(mem(idx(id_('q'), lit(j)), 'm'), lit(5 + 7 * j))) for j in range(2)]
    dump = out(('d', x), *[('d', idx(a, lit(j))) for j in range(4)], *[('d', mem(idx(id_('q'), lit(j)), 'm')) for j in range(2)])
    for i in range(0, len(once), 10):
        body = [y for z in once[i:i + 10] for y in (z, dump)]
        progs.append(Program('once%d' % (i // 10), [trace_fn(), sudef('struct', 's', [('k', b('char')), ('m', I)]),
                                                  fndef('main', I, [], blk(*setup, *body, ret(lit(0))))]))
    c.check(progs)
    c.check([cgen.program(r, 'rand%d' % i, feats=('decl', 'call', 'array'), nstm=8, nfn=2, depth=5, full=i % 3 == 0)
             for i in range(60 if c.quick else 800)])
