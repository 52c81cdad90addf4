"""C09: structs and unions: layout, size, access to members, copies through
pointers, nesting, arrays, forward declarations."""
import itertools
from cprog import *
from arith import *
import cgen

I = b('int')
CH = b('char')
PCH = ('p', CH)
d = lambda n, te, v=None: decl(dr(n, te, v))
TAG = lambda n: ('tag', n)


# The kinds of members: name -> (type of the member, the scalars in it as (path, type, format))
def kinds():
    K = {}
    for t in ['char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']:
        K[t] = (b(t), [([], t)])
    K['double'] = (b('double'), [([], 'double')])
    K['float'] = (b('float'), [([], 'float')])
    K['ptr'] = (('p', I), [([], 'ptr')])
    K['char3'] = (('a', CH, 3), [([('i', k)], 'char') for k in range(3)])
    K['short2'] = (('a', b('short'), 2), [([('i', k)], 'short') for k in range(2)])
    K['long2'] = (('a', b('long'), 2), [([('i', k)], 'long') for k in range(2)])
    K['ptr2'] = (('a', PCH, 2), [([('i', k)], 'ptr') for k in range(2)])
    K['sc'] = (TAG('struct sc'), [([('m', 'a')], 'char'), ([('m', 'b')], 'short'), ([('m', 'c')], 'char')])
    K['sl'] = (TAG('struct sl'), [([('m', 'a')], 'char'), ([('m', 'b')], 'long')])
    K['si2'] = (('a', TAG('struct sc'), 2), [([('i', k), ('m', n)], t) for k in range(2) for n, t in [('a', 'char'), ('b', 'short')]])
    K['un'] = (TAG('union un'), [([('m', 'l')], 'long')])
    K['us'] = (TAG('union us'), [([('m', 's')], 'short')])
    # compounds whose size is no alignment
    K['s12'] = (TAG('struct ks12'), [([('m', x)], 'int') for x in 'abc'])
    K['s10'] = (TAG('struct ks10'), [([('m', 'v'), ('i', k)], 'short') for k in (0, 4)])
    K['s3'] = (TAG('struct ks3'), [([('m', x)], 'char') for x in 'abc'])
    K['u9'] = (TAG('union ku9'), [([('m', 'i')], 'int')])
    K['s24'] = (TAG('struct ks24'), [([('m', 'l')], 'long'), ([('m', 'in'), ('m', 'c')], 'int'), ([('m', 'c')], 'char')])
    K['nn'] = (TAG('struct nn'), [([('m', 'a'), ('m', 'b')], 'char'), ([('m', 'x'), ('m', 'v'), ('i', 1)], 'short'), ([('m', 'b')], 'char')])
    K['char9'] = (('a', CH, 9), [([('i', k)], 'char') for k in (0, 8)])
    K['s3_3'] = (('a', TAG('struct ks3'), 3), [([('i', k), ('m', 'c')], 'char') for k in range(3)])
    K['s12_2'] = (('a', TAG('struct ks12'), 2), [([('i', k), ('m', 'b')], 'int') for k in range(2)])
    return K


K = kinds()
PRE = [sudef('struct', 'sc', [('a', CH), ('b', b('short')), ('c', CH)]),
       sudef('struct', 'sl', [('a', CH), ('b', b('long'))]),
       sudef('union', 'un', [('c', ('a', CH, 5)), ('l', b('long'))]),
       sudef('union', 'us', [('c', ('a', CH, 3)), ('s', b('short'))]),
       sudef('struct', 'ks12', [('a', I), ('b', I), ('c', I)]), sudef('struct', 'ks10', [('v', ('a', b('short'), 5))]), sudef('struct', 'ks3', [('a', CH), ('b', CH), ('c', CH)]),
       sudef('union', 'ku9', [('x', ('a', CH, 9)), ('i', I)]), sudef('struct', 'ks24', [('l', b('long')), ('in', TAG('struct ks12')), ('c', CH)]),
       sudef('struct', 'nn', [('a', TAG('struct ks3')), ('x', TAG('struct ks10')), ('b', CH)]),
       d('cells', ('a', I, 8))]


def path(e, p):
    for k, x in p:
        e = idx(e, lit(x)) if k == 'i' else mem(e, x)
    return e


def shown(e, t):
    if t == 'double' or t == 'float':
        return ('d', bin_('==', cast(b('long'), e), cast(b('long'), e)))
    if t == 'ptr':
        return ('d', bin_('==', e, id_('cells')))
    return (FMT[t], e)


def grouped(r, ms, ints):
    """Some of the members as those of anonymous structures and unions, and
    declarations between them that declare types only."""
    res, i = [], 0
    while i < len(ms):
        n = r.choice([1, 2, 2, 3, len(ms)])
        if r.random() < .3:
            part = ms[i:i + n]
            kind = 'union' if all(ints[i:i + n]) and r.random() < .4 else 'struct'
            res.append((None, sdef(kind, grouped(r, part, ints[i:i + n]))))
            i += n
        else:
            res.append(ms[i])
            i += 1
        if r.random() < .06:
            _tags[0] += 1
            res.append((None, r.choice([lambda: sdef('struct', [('l', b('long')), ('c', CH)], 'tt%d' % _tags[0]), lambda: sdef('union', [('l', b('long'))], 'tt%d' % _tags[0]), lambda: edef([('TT%d' % _tags[0], None)])])()))
    return res


_tags = [0]


def reentries(c, r):
    """Blocks that declare types in all ways, and are entered again and again."""
    P = []
    ids = itertools.count()
    N = id_('n')

    def form(k):
        """Declarations, and what follows them in the block."""
        j = next(ids)
        T = lambda s: '%s%d' % (s, j)
        v, w, e = id_(T('v')), id_(T('w')), r.randrange(2, 9)
        inner = lambda: sdef(r.choice(['struct', 'union']), [('x', I), ('c', r.choice([CH, ('a', CH, 3)]))], T('b'))
        en = lambda: edef([(T('A'), None), (T('B'), lit(e)), (T('C'), None)], r.choice([T('e'), None]))
        A, B, C = (id_(T(x)) for x in 'ABC')
        S = TAG('struct ' + T('a'))

        def of_inner(t):
            return [d(T('w'), TAG(t[1])), es(asg(mem(w, 'x'), bin_('+', N, lit(e)))), out(('d', mem(w, 'x')), ('lu', sze(w)), ('lu', szt(TAG(t[1]))))]
        of_enum = lambda: [d(T('z'), I, B), d(T('y'), ('a', CH, C)), out(('d', A), ('d', bin_('+', C, id_(T('z')))), ('lu', sze(id_(T('y')))))]
        if k == 0:
            t = inner()
            return [sudef('struct', T('a'), [('m', t)] + r.choice([[], [('p', ('p', t))], [('k', CH)]])), d(T('v'), S), es(asg(mem(mem(v, 'm'), 'x'), N)), out(('d', mem(mem(v, 'm'), 'x')), ('lu', sze(v)))] + of_inner(t)
        if k == 1:
            t = sdef('struct', [('x', I), ('t', ('a', CH, 3))], T('b'))
            return [decl(dr(T('v'), t), dr(T('q'), ('a', t, 2)), static=True), es(casg('+', mem(v, 'x'), N)), es(inc(mem(idx(id_(T('q')), lit(1)), 'x'))), out(('d', mem(v, 'x')), ('d', mem(idx(id_(T('q')), lit(1)), 'x')))] + of_inner(t)
        if k == 2:
            return [decl(dr(T('v'), en(), r.choice([None, lit(3)])), static=True), es(asg(v, bin_('+', v, B))), out(('d', cast(I, v)))] + of_enum()
        if k == 3:
            t = en()
            return [sudef('struct', T('a'), [('k', t), ('l', t)] + r.choice([[('z', ('a', I, C))], [('p', ('p', t))]])), d(T('v'), S), es(asg(mem(v, 'l'), C)), out(('d', cast(I, mem(v, 'l'))), ('lu', sze(v)))] + of_enum()
        if k == 4:
            t, u = inner(), en()
            return [tdef(T('T'), sdef('struct', [('k', u), ('m', ('a', t, 2))])), decl(dr(T('v'), ('td', T('T')))), es(asg(mem(idx(mem(v, 'm'), lit(1)), 'x'), bin_('+', N, B))), out(('d', mem(idx(mem(v, 'm'), lit(1)), 'x')), ('lu', sze(v)))] + of_inner(t) + of_enum()
        if k == 5:
            t, u = inner(), en()
            return [sudef('union', T('a'), [('f', b('long')), (None, t), (None, u), ('c', CH)]), d(T('v'), TAG('union ' + T('a'))), es(asg(mem(v, 'f'), N)), out(('ld', mem(v, 'f')), ('lu', sze(v)))] + of_inner(t) + of_enum()
        if k == 6:
            t, u = inner(), en()
            return [sudef('struct', T('a'), [('c', CH), (None, sdef('union', [('p', I), (None, sdef('struct', [('m', t), ('k', u)])), ('q', CH)])), ('z', CH)]), d(T('v'), S), es(asg(mem(v, 'k'), C)), es(asg(mem(mem(v, 'm'), 'x'), lit(0x1234))),
                    out(('d', mem(v, 'p')), ('d', mem(v, 'q')), ('d', cast(I, mem(v, 'k'))), ('lu', sze(v)))] + of_inner(t) + of_enum()
        if k == 7:
            t = sdef('struct', [('x', I), ('c', CH)], T('b'))
            return [sufwd('struct ' + T('b')), d(T('p'), ('p', TAG('struct ' + T('b')))), decl(dr(T('v'), t), static=True), es(asg(id_(T('p')), addr(v))), es(casg('+', mem(v, 'x'), N)), out(('d', arrow(id_(T('p')), 'x')))] + of_inner(t)
        if k == 8:
            pre = r.choice(['static ', 'const ', 'static const ', ''])
            return [sudef('struct', T('b'), [('x', I), ('l', b('long'))], pre=pre), enum(T('e'), [(T('A'), lit(e)), (T('B'), None), (T('C'), None)], pre=pre)] + of_inner(('', 'struct ' + T('b'))) + of_enum()
        if k == 9:
            t = inner()
            return [decl(dr(T('v'), sdef('struct', [('m', sdef('struct', [('o', sdef('union', [('i', t), ('l', b('long'))]))]))], T('a')))), es(asg(mem(mem(mem(v, 'm'), 'o'), 'l'), N)), out(('ld', mem(mem(mem(v, 'm'), 'o'), 'l')), ('lu', sze(v)))] + of_inner(t)

    def where(k, ss):
        return [lambda: blk(*ss), lambda: for_(decl(dr('i', I, lit(0))), bin_('<', id_('i'), lit(2)), inc(id_('i')), blk(*ss)), lambda: if_(N, blk(*ss)),
                lambda: while_(bin_('>', N, lit(0)), blk(*ss, es(inc(N, -1))))][k]()
    for k in range(10):
        for m in range(3 if c.quick else 30):
            ss = form(k) + form(r.randrange(10))
            body = ss if m == 0 else [where(r.randrange(4), ss)]
            f = fndef('f', I, [('n', I)], blk(*body, if_(bin_('>', N, lit(1)), ret(call('f', bin_('-', N, lit(1))))), ret(N)))
            P.append(Program('reentry%d-%d' % (k, m), [f, fndef('main', I, [], blk(es(call('f', lit(3))), es(call('f', lit(1))), es(call('f', lit(2))), ret(lit(0))))]))
    return P


def layouts(c, r):
    """Structs of all sequences of kinds of members."""
    names = list(K)
    seqs = [(x, y) for x in names for y in names]
    tri = list(itertools.product(names, repeat=3))
    r.shuffle(tri)
    seqs += tri[:250 if c.quick else len(tri)]
    for _ in range(40 if c.quick else 800):
        seqs.append(tuple(r.choice(names) for _ in range(r.choice([4, 5, 6]))))
    r.shuffle(seqs)
    P = []
    for i in range(0, len(seqs), 10):
        top, body = list(PRE), []
        for j, seq in enumerate(seqs[i:i + 10]):
            tag = 's%d' % j
            un = r.random() < .2
            ms = [('m%d' % k, K[n][0]) for k, n in enumerate(seq)]
            body_ = grouped(r, ms, [all(t in INTS for _, t in K[n][1]) for n in seq])
            kind = 'union' if un else 'struct'
            te = TAG(kind + ' ' + tag)
            v, p = id_('v%d' % j), id_('p%d' % j)
            ss = [d('v%d' % j, te), d('p%d' % j, ('p', te), addr(v))]
            where = r.random()
            if where < .4:
                top.append(sudef(kind, tag, body_))
            else:
                ss.insert(0, sudef(kind, tag, body_))
            ss.append(out(('lu', szt(te)), ('lu', sze(v)), ('lu', sze(deref(p)))))
            ss.append(out(*[('ld', bin_('-', cast(PCH, addr(mem(v, m))), cast(PCH, addr(v)))) for m, te_ in ms if te_[0] != 'a'] or [('d', lit(0))]))
            ss.append(out(*[('ld', bin_('-', cast(PCH, addr(path(mem(v, m), K[n][1][0][0]))), cast(PCH, p))) for (m, _), n in zip(ms, seq)]))
            ss.append(out(*[('lu', sze(mem(v, m) if r.random() < .5 else arrow(p, m))) for m, _ in ms]))
            leaves = [(('m%d' % k), pth, t) for k, n in enumerate(seq) for pth, t in K[n][1]]
            acc = lambda m, pth: path(mem(v, m) if r.random() < .5 else arrow(p, m) if r.random() < .7 else mem(deref(p), m), pth)
            if un:
                for m, pth, t in leaves:
                    if t in INTS:
                        ss.append(es(asg(acc(m, pth), lit(r.choice([-1, 1, 77, 258, 70000])))))
                        ss.append(out(shown(acc(m, pth), t)))
            else:
                order = leaves[:]
                r.shuffle(order)
                for m, pth, t in order:
                    x = flt('2.5', 2560) if t in ('double', 'float') else id_('cells') if t == 'ptr' else lit_any(r.choice(values(t, r)))
                    if t == 'ptr' and K[seq[int(m[1:])]][0] != ('p', I):
                        x = cast(PCH, x)
                    ss.append(es(asg(acc(m, pth), x)))
                ss.append(out(*[shown(acc(m, pth), t) for m, pth, t in leaves if t != 'ptr' or K[seq[int(m[1:])]][0] == ('p', I)] or [('d', lit(1))]))
            body.append(blk(*ss))
        P.append(Program('layout%d' % (i // 10), top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def fixed(c, r):
    P = []
    X, v, p, q, s, i = id_('x'), id_('v'), id_('p'), id_('q'), id_('s'), id_('i')
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    loop = lambda n, *s: for_(decl(dr('i', I, lit(0))), bin_('<', i, lit(n)), inc(i), blk(*s))

    def add(pid, *top):
        P.append(Program(pid, list(top)))
    S, PS = TAG('struct s'), ('p', TAG('struct s'))
    sS = sudef('struct', 's', [('a', CH), ('b', I), ('n', PS)])
    st_ = lambda e, v: es(asg(e, v if isinstance(v, Node) else lit(v)))
    add('unions', sudef('union', 'u', [('c', ('a', b('uchar'), 8)), ('s', b('short')), ('i', I), ('l', b('long'))]),
        main(d('v', TAG('union u')), st_(mem(v, 'l'), 0), st_(mem(v, 'i'), 0x01020304), out(*[('d', idx(mem(v, 'c'), lit(k))) for k in range(8)]), st_(mem(v, 's'), -2),
             out(('d', mem(v, 'i')), ('ld', mem(v, 'l'))), st_(idx(mem(v, 'c'), lit(7)), 128), out(('ld', mem(v, 'l')), ('d', mem(v, 'i')), ('d', mem(v, 's'))),
             out(*[('ld', bin_('-', cast(PCH, addr(mem(v, m))), cast(PCH, addr(v)))) for m in 'sil'])))
    add('selfref', sS, d('g', S), main(d('v', S), st_(mem(v, 'n'), addr(id_('g'))), st_(mem(id_('g'), 'n'), addr(v)), st_(arrow(arrow(mem(v, 'n'), 'n'), 'b'), 41),
        es(inc(arrow(arrow(arrow(mem(id_('g'), 'n'), 'n'), 'n'), 'b'))), out(('d', mem(v, 'b')), ('d', mem(id_('g'), 'b')), ('d', bin_('==', arrow(mem(v, 'n'), 'n'), addr(v))))))
    add('forward', sufwd('struct f'), sudef('struct', 'user', [('p', ('p', TAG('struct f'))), ('k', CH)]), d('gp', ('p', TAG('struct f'))), sudef('struct', 'f', [('c', CH), ('v', b('long'))]),
        d('g', TAG('struct f')), d('us', TAG('struct user')),
        main(st_(mem(id_('us'), 'p'), addr(id_('g'))), st_(id_('gp'), mem(id_('us'), 'p')), st_(arrow(mem(id_('us'), 'p'), 'v'), 8), es(casg('+', arrow(id_('gp'), 'v'), lit(2))), out(('ld', mem(id_('g'), 'v')), ('lu', sze(deref(id_('gp'))))),
             sufwd('struct t', ''), d('p', ('p', TAG('struct t'))), sudef('struct', 't', [('q', I)]), d('tt', TAG('struct t')), st_(p, addr(id_('tt'))), st_(arrow(p, 'q'), 4), out(('d', mem(id_('tt'), 'q')), ('lu', sze(deref(p))))))
    add('implicit', sufwd('struct f', ''), sudef('struct', 'user', [('p', ('p', TAG('struct f'))), ('q', ('p', TAG('struct f')))]), sudef('struct', 'f', [('c', CH), ('v', b('long'))]),
        d('g', TAG('struct f')), d('us', TAG('struct user')), main(st_(mem(id_('us'), 'q'), addr(id_('g'))), st_(arrow(mem(id_('us'), 'q'), 'v'), 8), out(('ld', mem(id_('g'), 'v')), ('lu', sze(deref(mem(id_('us'), 'q')))))))
    # The names in a definition mean what they mean there
    add('capture', sudef('struct', 'in', [('a', I), ('b', I)]), enum('e', [('N', lit(3))]), sudef('struct', 'out', [('c', CH), ('x', TAG('struct in')), ('p', ('p', TAG('struct in'))), ('v', ('a', I, 3))]),
        fndef('f', I, [('p', ('p', TAG('struct out')))], blk(sudef('struct', 'in', [('z', CH)]), d('N', I, lit(9)), d('v', TAG('struct out')), st_(mem(mem(v, 'x'), 'b'), 70000), st_(arrow(mem(v, 'p'), 'b') if 0 else idx(mem(v, 'v'), lit(2)), 5),
              ret(bin_('+', bin_('+', mem(mem(v, 'x'), 'b'), idx(mem(v, 'v'), lit(2))), bin_('+', mem(arrow(p, 'x'), 'a'), cast(I, sze(v))))))),
        main(d('v', TAG('struct out')), st_(mem(mem(v, 'x'), 'a'), 1000), out(('d', call('f', addr(v)))), sudef('struct', 'in', [('q', b('long')), ('a', CH)]), d('w', TAG('struct out')), st_(mem(mem(id_('w'), 'x'), 'a'), 70000),
             st_(mem(id_('w'), 'p'), addr(mem(v, 'x'))), out(('d', mem(mem(id_('w'), 'x'), 'a')), ('d', arrow(mem(id_('w'), 'p'), 'a')), ('lu', szt(TAG('struct in'))), ('lu', sze(id_('w'))))))
    # a declaration of a tag in a block is another type than the one outside
    inner = lambda *ss: blk(sufwd('struct f'), d('p', ('p', TAG('struct f'))), *ss)
    add('inner', sudef('struct', 'f', [('x', I)]), sudef('union', 'w', [('c', CH)]),
        fndef('g', I, [('q', ('p', TAG('struct f')))], blk(sufwd('struct f'), d('p', ('p', TAG('struct f'))), sudef('struct', 'f', [('y', ('a', CH, 3))]), d('v', TAG('struct f')), st_(p, addr(v)), st_(idx(arrow(p, 'y'), lit(1)), 4),
              ret(bin_('+', bin_('+', bin_('*', arrow(q, 'x'), lit(100)), bin_('*', cast(I, sze(deref(p))), lit(10))), cast(I, bin_('+', sze(deref(q)), idx(arrow(p, 'y'), lit(1)))))))),
        main(d('v', TAG('struct f')), st_(mem(v, 'x'), 6), out(('d', call('g', addr(v)))), inner(sudef('struct', 'f', [('z', b('long'))]), d('t', TAG('struct f')), st_(p, addr(id_('t'))), st_(arrow(p, 'z'), 1 << 40), out(('ld', arrow(p, 'z')), ('lu', szt(TAG('struct f')))),
             inner(blk(sufwd('union w'), sudef('union', 'w', [('m', I)]), out(('lu', szt(TAG('union w'))))), sudef('struct', 'f', [('k', b('short'))]), out(('lu', sze(deref(p))))), out(('lu', sze(deref(p))))),
             blk(d('p', ('p', TAG('struct f')), addr(v)), out(('d', arrow(p, 'x')))), out(('d', call('g', addr(v))), ('lu', szt(TAG('struct f'))), ('lu', szt(TAG('union w')))))) if c else None
    # two tags of the same name: a struct and a union, and a variable
    add('namespaces', sudef('struct', 's', [('s', CH), ('t', I)]), sudef('union', 't', [('s', b('short'))]), d('s', S), d('t', TAG('union t')),
        main(st_(mem(s, 's'), 3), st_(mem(s, 't'), 4), st_(mem(id_('t'), 's'), 5), out(('d', mem(s, 's')), ('d', mem(s, 't')), ('d', mem(id_('t'), 's')), ('lu', sze(s)), ('lu', sze(id_('t'))))))
    add('arrays', sS, d('g', ('a', S, 3)), main(d('a', ('a', S, 4)), d('p', PS), loop(4, st_(mem(idx(id_('a'), i), 'b'), bin_('*', i, i)), st_(mem(idx(id_('a'), i), 'a'), bin_('+', i, lit(65))), st_(mem(idx(id_('a'), i), 'n'), addr(idx(id_('a'), bin_('%', bin_('+', i, lit(1)), lit(4)))))),
        st_(p, id_('a')), loop(6, out(('d', arrow(p, 'b')), ('c', arrow(p, 'a')), ('ld', bin_('-', p, id_('a')))), st_(p, arrow(p, 'n'))), out(('lu', sze(id_('a'))), ('lu', sze(idx(id_('a'), lit(0)))), ('lu', sze(id_('g')))),
        st_(p, addr(idx(id_('a'), lit(3)))), out(('d', mem(deref(bin_('-', p, lit(1))), 'b')), ('d', mem(idx(p, lit(-3)), 'b'))), out(('d', arrow(inc(p, -1, True), 'b'))),
        out(('d', mem(idx(id_('g'), lit(2)), 'b')), ('d', bin_('==', mem(idx(id_('g'), lit(1)), 'n'), lit(0))))))
    add('params', sS, fndef('set', PS, [('p', PS), ('k', I)], blk(st_(arrow(p, 'b'), id_('k')), es(inc(arrow(p, 'a'))), ret(p))),
        fndef('sum', I, [('p', PS), ('n', I)], blk(d('t', I, lit(0)), while_(inc(id_('n'), -1), blk(es(casg('+', id_('t'), arrow(p, 'b'))), es(inc(p)))), ret(id_('t')))),
        main(d('a', ('a', S, 3)), loop(3, st_(mem(idx(id_('a'), i), 'a'), 0), es(call('set', addr(idx(id_('a'), i)), bin_('+', i, lit(7))))), out(('d', call('sum', id_('a'), lit(3)))), out(('d', arrow(call('set', addr(idx(id_('a'), lit(1))), lit(5)), 'b'))),
             out(('d', mem(deref(call('set', id_('a'), lit(6))), 'b'))), out(('d', mem(idx(id_('a'), lit(1)), 'a')), ('d', mem(idx(id_('a'), lit(0)), 'b')))))
    # Inline definitions, anonymous structs, several declarators, typedefs
    inner = sdef('struct', [('k', CH), ('d', b('long'))])
    U = sdef('union', [('q', I), ('r', ('a', CH, 5))])
    T = sdef('struct', [('x', CH), ('in', inner), ('u', U), ('arr', ('a', sdef('struct', [('m', b('short'))]), 2))])
    TT = ('td', 'T')
    add('inline', tdef('T', T), decl(dr('a', TT), dr('p', ('p', TT), addr(id_('a')))),
        main(d('b', TT), st_(mem(mem(id_('a'), 'in'), 'd'), 9), st_(mem(arrow(p, 'u'), 'q'), 0x41424344), st_(mem(idx(arrow(p, 'arr'), lit(1)), 'm'), -7), st_(arrow(p, 'x'), 3),
             out(('ld', mem(arrow(p, 'in'), 'd')), ('c', idx(mem(mem(id_('a'), 'u'), 'r'), lit(1))), ('d', mem(idx(mem(id_('a'), 'arr'), lit(1)), 'm')), ('d', mem(id_('a'), 'x'))),
             out(('lu', szt(TT)), ('lu', sze(mem(id_('a'), 'in'))), ('lu', sze(mem(id_('b'), 'u'))), ('lu', sze(arrow(p, 'arr')))),
             *[out(('ld', bin_('-', cast(PCH, addr(mem(id_('b'), m))), cast(PCH, addr(id_('b')))))) for m in ('in', 'u')]))
    two = sdef('struct', [('a', I), ('b', CH)], 'two')
    add('declarators', decl(dr('x', two), dr('y', ('a', two, 2)), dr('z', ('p', two))),
        main(d('w', TAG('struct two')), st_(id_('z'), addr(idx(id_('y'), lit(1)))), st_(arrow(id_('z'), 'a'), 5), st_(mem(id_('w'), 'b'), 300), st_(mem(X, 'a'), bin_('+', mem(idx(id_('y'), lit(1)), 'a'), mem(id_('w'), 'b'))),
             out(('d', mem(X, 'a')), ('lu', sze(id_('y'))), ('d', mem(deref(id_('z')), 'a')))))
    add('recursion', sS, fndef('f', I, [('p', PS), ('k', I)], blk(d('v', S), st_(mem(v, 'b'), id_('k')), st_(mem(v, 'n'), p), st_(mem(v, 'a'), 1), if_(bin_('==', id_('k'), lit(0)), blk(d('t', I, lit(0)), for_(None, p, asg(p, arrow(p, 'n')), es(asg(id_('t'), bin_('+', bin_('*', id_('t'), lit(3)), arrow(p, 'b'))))), ret(id_('t')))),
        ret(bin_('+', call('f', addr(v), bin_('-', id_('k'), lit(1))), mem(v, 'b'))))), main(out(('d', call('f', lit(0), lit(5))))))
    add('typedefarr', tdef('V', ('a', I, 3)), sudef('struct', 'm', [('c', CH), ('v', ('td', 'V')), ('p', ('p', ('td', 'V'))), ('w', ('td', 'V'))]),
        main(d('x', TAG('struct m')), *[st_(idx(mem(X, 'v'), lit(k)), k + 5) for k in range(3)], *[st_(idx(mem(X, 'w'), lit(k)), k * k) for k in range(3)], out(*[('d', idx(mem(X, 'v'), lit(k))) for k in range(3)], *[('d', idx(mem(X, 'w'), lit(k))) for k in range(3)], ('lu', sze(X)), ('lu', sze(mem(X, 'v'))))))
    add('statics', sS, fndef('next', PS, [], blk(decl(dr('v', S), static=True), es(inc(mem(v, 'b'))), if_(bin_('==', mem(v, 'b'), lit(2)), st_(mem(v, 'n'), addr(v))), ret(addr(v)))),
        main(loop(4, out(('d', arrow(call('next'), 'b')))), d('p', PS, call('next')), out(('d', bin_('==', arrow(p, 'n'), p)))))
    return P


def run(c):
    r = c.rng
    c.check(layouts(c, r) + reentries(c, r) + fixed(c, r))
    c.check([cgen.program(r, 'rand%d' % i, types=INTS, nglob=3, nfn=2, nstm=10, depth=2,
                          feats=('decl', 'if', 'loop', 'block', 'call', 'array', 'ptr', 'struct')) for i in range(40 if c.quick else 800)])
