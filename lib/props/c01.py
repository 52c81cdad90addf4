"""C01: integer arithmetic.  Every operator on every pair of types, on boundary
and random values, with the operands in variables, constants and casts."""
from cprog import *
from arith import *

ALL = INTS + ['schar', 'llong', 'ullong']
FORMS = ['vv', 'vl', 'lv', 'll']


def operand(form, v, t, name):
    if form == 'v':
        return id_(name)
    return literal(v, t)


def run(c):
    r = c.rng
    progs = []
    cases = 0
    npairs = 34 if c.quick else 260
    # (the types that only differ in their name from others: fewer pairs)
    rare = [(x, y) for x in ALL for y in ALL if x not in INTS or y not in INTS]
    for ta, tb in [(x, y) for x in INTS for y in INTS] + (r.sample(rare, 16) if c.quick else rare):
            va, vb = values(ta, not c.quick), values(tb, not c.quick)
            pairs = [(x, y) for x in va for y in vb]
            r.shuffle(pairs)
            pairs = pairs[:npairs]
            for _ in range(4 if c.quick else 40):
                pairs.append((r.randint(lo(ta), hi(ta)), r.randint(lo(tb), hi(tb))))
            # shift counts and divisors are mostly small
            small = [n for n in (0, 1, 3, 5, 7, 8, 15, 16, 31, 32, 33, 63) if inr(n, tb)]
            body = [decl(dr('a', b(ta))), decl(dr('b', b(tb)))]
            chunk = []

            def flush():
                nonlocal chunk
                for i in range(0, len(chunk), 10):
                    body.append(out(*chunk[i:i + 10]))
                chunk = []
            k = 0
            for x, y in pairs:
                body.append(es(asg(id_('a'), lit_any(x))))
                body.append(es(asg(id_('b'), lit_any(y))))
                ops = OPS if k % 3 == 0 else r.sample(OPS, 9)
                for op in ops:
                    z = y
                    f = FORMS[k % 4] if r.random() < .6 else r.choice(FORMS)
                    k += 1
                    if op in ('<<', '>>') and not 0 <= y < 64:
                        z = r.choice(small)
                        f = f[0] + 'l'
                    v = binop(op, x, ta, z, tb)
                    if v is None:
                        continue
                    cases += 1
                    e1, e2 = operand(f[0], x, ta, 'a'), operand(f[1], z, tb, 'b')
                    e = land(e1, e2) if op == '&&' else lor(e1, e2) if op == '||' else bin_(op, e1, e2)
                    chunk.append((FMT[v[1]], e))
                for op in '-~!':
                    v = unop(op, x, ta)
                    if v is not None and r.random() < .4:
                        cases += 1
                        chunk.append((FMT[v[1]], un(op, id_('a'))))
                flush()
            body.append(ret(lit(0)))
            # several functions so that no execution of the model is long
            progs.append(Program('%s-%s' % (ta, tb), [fndef('main', b('int'), [], blk(*body))]))
    c.extra['operations'] = cases
    c.extra['rule'] = 'operators x pairs of integer types x boundary and random values x operand forms'
    c.check(progs)
    # the type of a result shows when it is an operand itself
    progs = []
    for i in range(60 if c.quick else 600):
        body = [decl(dr('v%d' % j, b(t))) for j, t in enumerate(ALL)]
        val = {}
        for j, t in enumerate(ALL):
            v = r.choice(values(t, True)) if r.random() < .6 else r.randint(lo(t), hi(t))
            val[j] = v
            body.append(es(asg(id_('v%d' % j), lit_any(v))))

        def tree(d):
            if d == 0 or r.random() < .15:
                if r.random() < .8:
                    j = r.randrange(len(ALL))
                    return id_('v%d' % j), val[j], ALL[j]
                v = r.choice([0, 1, 2, 3, 7, 8, 255, 65536, 2147483647, 2147483648, 4294967296, -1, -3])
                return lit(v), v, ('int' if abs(v) < 2 ** 31 else 'long')
            for _ in range(20):
                if r.random() < .15:
                    e, v, t = tree(d - 1)
                    op = r.choice('-~!')
                    z = unop(op, v, t)
                    if z:
                        return un(op, e), z[0], z[1]
                elif r.random() < .15:
                    e, v, t = tree(d - 1)
                    t2 = r.choice(ALL)
                    return cast(b(t2), e), fit(v, t2), t2
                e1, v1, t1 = tree(d - 1)
                e2, v2, t2 = tree(d - 1)
                op = r.choice(OPS)
                if op in ('<<', '>>') and not 0 <= v2 < 32:
                    v2 = r.randrange(0, 20)
                    e2, t2 = lit(v2), 'int'
                z = binop(op, v1, t1, v2, t2)
                if z:
                    e = land(e1, e2) if op == '&&' else lor(e1, e2) if op == '||' else bin_(op, e1, e2)
                    return e, z[0], z[1]
            return tree(0)
        for _ in range(12):
            row = [tree(r.randrange(2, 5)) for _ in range(4)]
            body.append(out(*[(FMT[promote(t)], e) for e, v, t in row]))
        body.append(ret(lit(0)))
        progs.append(Program('tree%d' % i, [fndef('main', b('int'), [], blk(*body))], full=i % 2 == 1))
    c.check(progs)
