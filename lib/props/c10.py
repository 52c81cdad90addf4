"""C10: declarations: specifiers in any order, qualifiers and storage classes,
declarators, several declarators, typedefs, enumerations, array sizes."""
import itertools
from cprog import *
from arith import *
import cgen

I = b('int')
CH = b('char')
V = b('void')
FMT_ = dict(FMT)
# every spelling of every integer type, as a multiset of keywords
SPELLINGS = {
    'char': ['char'], 'schar': ['signed char'], 'uchar': ['unsigned char'],
    'short': ['short', 'signed short', 'short int', 'signed short int'],
    'ushort': ['unsigned short', 'unsigned short int'],
    'int': ['int', 'signed', 'signed int'],
    'uint': ['unsigned', 'unsigned int'],
    'long': ['long', 'signed long', 'long int', 'signed long int'],
    'ulong': ['unsigned long', 'unsigned long int'],
    'llong': ['long long', 'signed long long', 'long long int', 'signed long long int'],
    'ullong': ['unsigned long long', 'unsigned long long int'],
}
FMT_.update(llong='ld', ullong='lu')
BIG = {t: (2 ** (WIDTH[t] - 1) - 1 if SIGNED[t] else 2 ** WIDTH[t] - 1) for t in WIDTH}


def orders():
    """(type, keywords) for every order of every spelling."""
    for t, sps in SPELLINGS.items():
        for sp in sps:
            for o in sorted(set(itertools.permutations(sp.split()))):
                yield t, list(o)


def mix(r, words, extra):
    w = list(words)
    for x in extra:
        w.insert(r.randrange(len(w) + 1), x)
    return ' '.join(w)


def probes(r, e, t):
    """Statements that show which type the object e has."""
    vals = [-1, BIG[t], 200, 40000, 3000000000, r.choice(values(t, r))]
    f = FMT_[t]
    ss = [out(('lu', sze(e)))]
    for v in r.sample(vals, 3) + [-1]:
        ss += [es(asg(e, lit_any(v))), out((f, e), ('d', bin_('>', e, lit(0))), (f, bin_('/', e, lit(2))))]
    return ss


def specifiers(c, r):
    cases = list(orders())
    reps = 1 if c.quick else 12
    cases = cases * reps
    P = []
    for n in range(0, len(cases), 6):
        top, body = [], []
        for j, (t, words) in enumerate(cases[n:n + 6]):
            k = '%d' % j
            ty = lambda *extra: b(t, mix(r, words, extra))
            q = r.choice([[], [], ['const'], ['volatile'], ['volatile', 'const']])
            vq = r.choice([[], [], ['volatile']])
            form = r.choice(['local', 'global', 'static', 'param', 'typedef', 'member', 'array', 'pointer', 'cast', 'ret', 'const', 'reg', 'gstatic'])
            x = id_('x' + k)
            if form == 'local':
                body.append(blk(decl(dr('x' + k, ty(*vq))), *probes(r, x, t)))
            elif form == 'reg':
                body.append(blk(decl(dr('x' + k, ty(r.choice(['register', 'auto']), *vq))), *probes(r, x, t)))
            elif form == 'global':
                top.append(decl(dr('x' + k, ty(*vq))))
                body += probes(r, x, t)
            elif form == 'gstatic':
                top.append(decl(dr('x' + k, ty('static', *vq))))
                body += probes(r, x, t)
            elif form == 'static':
                s = decl(dr('x' + k, ty('static')), static=True)
                s.text_static = False
                top.append(fndef('f' + k, b('void'), [], blk(s, out((FMT_[t], x)), es(casg('-', x, lit(3))), out((FMT_[t], x), ('d', bin_('<', x, lit(0)))))))
                body += [es(call('f' + k)), es(call('f' + k))]
            elif form == 'param':
                top.append(fndef('f' + k, b('void'), [('x' + k, ty(*q[:1]))], blk(out((FMT_[t], x), ('lu', sze(x)), ('d', bin_('<', x, lit(0)))))))
                body += [es(call('f' + k, lit_any(v))) for v in (-1, BIG[t], 40000)]
            elif form == 'ret':
                top.append(fndef('f' + k, ty(*q[:1]), [('p', b('long'))], blk(ret(id_('p')))))
                body += [out((FMT_[t], call('f' + k, lit_any(v)))) for v in (-1, 200, 40000, 3000000000)]
            elif form == 'typedef':
                (top if r.random() < .5 else body).append(group('%s T%s;' % (mix(r, words, ['typedef']), k), tdef('T' + k, b(t, ' '.join(words)))))
                body.append(blk(decl(dr('x' + k, ('td', 'T' + k))), *probes(r, x, t)))
            elif form == 'member':
                top.append(sudef('struct', 's' + k, [('c', CH), ('m', ty(*vq)), ('d', CH)]))
                body.append(blk(decl(dr('x' + k, ('tag', 'struct s' + k))), out(('lu', sze(x))), *probes(r, mem(x, 'm'), t)))
            elif form == 'array':
                body.append(blk(decl(dr('x' + k, ('a', ty(*vq), 3))), out(('lu', sze(x))), *probes(r, idx(x, lit(1)), t)))
            elif form == 'pointer':
                body.append(blk(decl(dr('y', ty(*vq))), decl(dr('x' + k, ('p', ty(*q)), addr(id_('y')))), *probes(r, id_('y'), t), out((FMT_[t], deref(x)), ('lu', sze(deref(x))))))
            elif form == 'cast':
                body += [out((FMT_[t], cast(ty(*q), lit_any(v))), ('lu', szt(ty(*q)))) for v in (-1, 200, 40000, 3000000000)]
            else:
                body.append(blk(decl(dr('x' + k, ty('const'), lit_any(r.choice([-1, 77, BIG[t]])))), out((FMT_[t], x), ('lu', sze(x)), ('d', bin_('<', x, lit(0))))))
        P.append(Program('spec%d' % (n // 6), top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def typedefs(c, r, n):
    """Chains of typedefs, redefined in inner scopes."""
    P = []
    for i in range(n):
        top, body = [], []
        known = {}                  # name -> type it denotes (with typedefs expanded)

        def derive(d, scope):
            k = r.random()
            if k < .35 or not scope:
                t = r.choice(INTS)
                return b(t), b(t)
            nm = r.choice(sorted(scope))
            base, full = ('td', nm), scope[nm]
            k = r.random()
            if k < .35:
                return base, full
            if k < .75 and full[0] != 'a':
                return ('p', base), ('p', full)
            if full[0] == 'a':
                return base, full
            return ('a', base, r.choice([2, 3])), ('a', full, 2)
        for j in range(r.choice([4, 6, 8])):
            te, full = derive(0, known)
            if te[0] == 'a':
                full = ('a', full[1], te[2])
            top.append(tdef('T%d' % j, te))
            known['T%d' % j] = full

        def uses(scope, tag):
            ss = []
            for nm in sorted(scope):
                t = scope[nm]
                if scope[nm][0] == 'x':
                    continue
                v = id_('%s_%s' % (tag, nm))
                ss.append(decl(dr(v.n, ('td', nm))))
                ss.append(out(('lu', szt(('td', nm))), ('lu', sze(v))))
                e, k, decls = v, t, 0
                # down to an integer
                while k[0] in 'pa':
                    if k[0] == 'p':
                        # an object for it to point to
                        o = '%s_o%d' % (v.n, decls)
                        decls += 1
                        if k[1][0] == 'a':
                            e = None
                            break
                        ss.append(decl(dr(o, k[1])))
                        ss.append(es(asg(e, addr(id_(o)))))
                        e, k = (deref(e) if r.random() < .7 else idx(e, lit(0))), k[1]
                    else:
                        e, k = idx(e, lit(k[2] - 1)), k[1]
                if e is not None:
                    ss.append(es(asg(e, lit_any(r.choice([-1, 200, 70000, 3000000000])))))
                    ss.append(out((FMT[k[1]], e), ('lu', sze(e))))
            return ss
        body += uses(known, 'a')
        # (a typedef name can't be declared again in bic)
        inner = dict(known)
        ss = []
        for j in range(3):
            te, full = derive(0, inner)
            if te[0] == 'a':
                full = ('a', full[1], te[2])
            ss.append(tdef('U%d' % j, te))
            inner['U%d' % j] = full
        ss += uses(inner, 'b')
        top.append(fndef('f', b('void'), [], blk(*uses(known, 'c'))))
        body += [blk(*ss, es(call('f'))), *uses(known, 'd')]
        P.append(Program('typedef%d' % i, top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def tdlists(c, r, n):
    """Typedefs of several declarators."""
    P = []
    cells = {t: 'cell_' + t for t in INTS}
    for i in range(n):
        top, body = [decl(dr('cell_' + t, b(t))) for t in INTS] + [fndef('neg', I, [('x', I)], blk(ret(un('-', id_('x')))))], []
        for j in range(4):
            t = r.choice(INTS)
            su = r.random() < .25
            B = ('tag', 'struct s%d' % j) if su else b(t)
            words = 'struct s%d' % j if su else r.choice(r.choice(SPELLINGS[t]).split() and [sp for sp in SPELLINGS[t]])
            if not su:
                B = b(t, words)
            kinds = [r.choice(['', 'p', 'a', 'ap', 'pp', 'a', 'f']) for _ in range(r.choice([2, 3, 4, 5]))]
            if su or t != 'int':
                kinds = ['p' if k == 'f' else k for k in kinds]
            ds, ss = [], []
            for m, k in enumerate(kinds):
                nm = 'T%d_%d' % (j, m)
                te = {'': B, 'p': ('p', B), 'a': ('a', B, m + 2), 'ap': ('a', ('p', B), m + 1), 'pp': ('p', ('p', B)), 'f': ('p', ('fn', B, [I]))}[k]
                ds.append((nm, te))
            dst = r.choice([top, body])
            if su:
                dst.append(sudef('struct', 's%d' % j, [('c', CH), ('m', b(t))]))
            text = 'typedef ' + decl_text(decl(*[dr(nm, te) for nm, te in ds]))
            if r.random() < .4:
                text = text.replace('typedef ' + words, words + ' typedef', 1)
            dst.append(group(text, *[tdef(nm, te) for nm, te in ds]))
            o = 'o%d' % j
            (top if dst is top else body).append(decl(dr(o, B)))
            leaf = (lambda e: mem(e, 'm')) if su else (lambda e: e)
            order = list(zip(kinds, ds))
            r.shuffle(order)
            for k, (nm, te) in order:
                v = id_('v' + nm)
                ss.append(decl(dr(v.n, ('td', nm))))
                ss.append(out(('lu', szt(('td', nm))), ('lu', sze(v))))
                if k == 'f':
                    ss += [es(asg(v, addr(id_('neg')))), out(('d', call(v, lit(m + 4))))]
                    continue
                if k == 'pp':
                    ss += [decl(dr('w' + nm, ('p', B), addr(id_(o)))), es(asg(v, addr(id_('w' + nm))))]
                if k == 'p':
                    ss.append(es(asg(v, addr(id_(o)))))
                if k == 'ap':
                    ss.append(es(asg(idx(v, lit(0)), addr(id_(o)))))
                e = {'': v, 'p': deref(v), 'a': idx(v, lit(1)), 'ap': deref(idx(v, lit(0))), 'pp': deref(deref(v))}[k]
                e = leaf(e)
                ss += [es(asg(e, lit_any(r.choice([-1, 200, 70000, 3000000000])))), out((FMT[t], e), ('lu', sze(e)), ('d', bin_('<', e, lit(0))))]
            body.append(blk(*ss))
            if dst is top and r.random() < .5:
                top.append(fndef('use%d' % j, V, [], blk(*ss)))
                body.append(es(call('use%d' % j)))
        P.append(Program('tdlist%d' % i, top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def enums(c, r, n):
    P = []

    def typed(x):
        """An enumerator is an int, whatever its value."""
        k = r.randrange(4)
        e = id_(x)
        if k == 0:
            return out(('d', bin_('<', e, lit(0))), ('ld', cast(b('long'), e)))
        if k == 1:
            return out(('d', bin_('/', e, lit(2))), ('d', bin_('>', lit(-1), e)))
        if k == 2:
            return out(('d', bin_('>>', e, lit(1))), ('d', bin_('%', e, lit(7))), ('ld', bin_('+', e, cast(b('long'), lit(0)))))
        return blk(decl(dr('lv', b('long'), e)), out(('ld', id_('lv')), ('d', bin_('==', id_('lv'), e)), ('ld', bin_('/', id_('lv'), bin_('|', e, lit(1))))))
    for i in range(n):
        top, body = [], []
        names = []
        vals = {}

        def items(pre, neg):
            nonlocal names
            its, nxt = [], 0
            for j in range(r.choice([1, 2, 3, 5])):
                nm = '%s%d' % (pre, j)
                k = r.random()
                if k < .45:
                    e = None
                    v = nxt
                elif k < .7:
                    v = r.choice([0, 1, 5, 70000, 255, 256, 2147483000] + ([-1, -5, -70000] if neg else []))
                    e = lit(v)
                elif names:
                    m = r.choice(names)
                    d = r.choice([1, 2, -1])
                    v = vals[m] + d
                    e = bin_('+', id_(m), lit(d)) if d > 0 else bin_('-', id_(m), lit(-d))
                else:
                    v = r.choice([3, 9])
                    e = bin_('*', lit(v), lit(1))
                if not (-2 ** 31 <= v < 2 ** 31 - 2) or (v < 0 and not neg):
                    e, v = lit(1), 1
                its.append((nm, e))
                vals[nm] = v
                names.append(nm)
                nxt = v + 1
            return its
        show_ = lambda ns: [out(*[('d', id_(x)) for x in ns[k:k + 6]]) for k in range(0, len(ns), 6)]
        dst = top
        for j in range(3):
            neg = r.random() < .4
            its = items('E%d_' % j, neg)
            tag = 'e%d' % j
            dst = top if dst is not body and r.random() < .6 else body
            form = r.random()
            if form < .5:
                dst.append(enum(tag, its))
                te = ('tag', 'enum ' + tag)
            elif form < .75:
                te = edef(its, tag)
            else:
                te = edef(its)
            v = id_('v%d' % j)
            f = 'd' if any(vals[x] < 0 for x, _ in its) else 'u'
            dst.append(decl(dr(v.n, te), dr('w%d' % j, te) if r.random() < .5 else dr('w%d' % j, ('p', te))))
            body.append(out(('lu', sze(v))))
            for x in r.sample([x for x, _ in its], min(3, len(its))):
                body.append(es(asg(v, id_(x))))
                body.append(out((f, v), ('d', bin_('==', v, id_(x))), ('d', bin_('-', id_(x), lit(1)))))
                body.append(typed(x))
            if f == 'd' and form < .75:
                body += [es(asg(v, lit(-3))), out(('d', v), ('d', bin_('<', v, lit(0))))]
        body += show_(names)
        # enumerators are constants of type int, and are scoped
        small = [x for x in names if 0 < vals[x] <= 256]
        if small:
            x = r.choice(small)
            body.append(decl(dr('arr', ('a', b('short'), bin_('+', id_(x), lit(1))))))
            body.append(out(('lu', sze(id_('arr'))), ('lu', szt(('a', CH, id_(x))))))
        hid = r.choice(names)
        body.append(blk(enum('e0', [(hid, lit(42)), ('fresh', None)]), out(('d', id_(hid)), ('d', id_('fresh')), ('lu', szt(('tag', 'enum e0')))), *show_(names)))
        body.append(blk(decl(dr(hid, b('char'), lit(9))), out(('d', id_(hid)), ('lu', sze(id_(hid))))))
        top.append(fndef('f', I, [('k', I)], blk(enum('loc', [('A', id_('k') if 0 else lit(7)), ('B', None)]), decl(dr('z', ('tag', 'enum loc'), id_('B'))), ret(bin_('+', cast(I, id_('z')), id_('k'))))))
        body.append(out(('d', call('f', lit(10)))))
        body += show_(names[:6])
        P.append(Program('enum%d' % i, top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    # runs of enumerators without values after values of all kinds, long lists
    top, body = [], []
    starts = [None, 0, 1, 5, 255, 65535, 70000, 2147483600, -1, -2, -3, -5, -129, -70000, -2147483647]
    for i, (s, z) in enumerate([(s, None) for s in starts] + [tuple(r.sample(starts[1:], 2)) for _ in range(8 if c.quick else 60)]):
        k = r.choice([3, 4, 6])
        its = [('R%d_%d' % (i, j), lit(s) if j == 0 and s is not None else lit(z) if j == k and z is not None else None) for j in range(k + (4 if z is not None else 0))]
        dst = r.choice([top, body])
        dst.append(enum('r%d' % i, its))
        body += show_([x for x, _ in its])
        body += [typed(x) for x, _ in its]
    many = ['M%d' % j for j in range(60)]
    top.append(enum('many', [(x, lit(-20) if j == 30 else None) for j, x in enumerate(many)]))
    body += show_(many) + [typed(x) for x in many[25:40]]
    P.append(Program('enumruns', top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def declarators(c, r, n):
    """Declarations of several declarators with initialisers that use the ones before."""
    P = []
    FN = lambda t: ('fn', t, [I, I])
    for i in range(n):
        top = [fndef('add', I, [('a', I), ('b', I)], blk(ret(bin_('+', id_('a'), id_('b'))))), fndef('sub', I, [('a', I), ('b', I)], blk(ret(bin_('-', id_('a'), id_('b'))))),
               decl(dr('cell', I, lit(11)))]
        body = []
        for where in ('top', 'body', 'block'):
            t = 'int'
            T = b(t)
            vars_ = {'i': [], 'p': ['&cell'], 'pp': [], 'a': [], 'f': [], 'ap': []}
            ds, after = [], []
            for j in range(r.choice([2, 4, 6])):
                nm = '%s%d' % (where[0], j)
                k = r.choice(['i', 'i', 'p', 'pp', 'a', 'ap', 'f', 'fa'])
                if k == 'fa' and where == 'top':
                    k = 'f'
                init = None
                if k == 'i':
                    if r.random() < .7:
                        init = lit(r.choice([0, 5, -7, 1000]))
                        if vars_['i'] and where != 'top' and r.random() < .6:
                            init = bin_('+', id_(r.choice(vars_['i'])), init)
                    te = T
                    if init is None:
                        after.append(es(asg(id_(nm), lit(j))))
                    after.append(out(('d', id_(nm))))
                    vars_['i'].append(nm) if init is not None else None
                elif k == 'p':
                    te = ('p', T)
                    tgt = id_(r.choice(vars_['i'])) if vars_['i'] else id_('cell')
                    if r.random() < .7:
                        init = addr(tgt)
                    else:
                        after.append(es(asg(id_(nm), addr(tgt))))
                    after.append(es(casg('+', deref(id_(nm)), lit(1))))
                    after.append(out(('d', deref(id_(nm))), ('d', tgt)))
                    if init is not None:
                        vars_['p'].append(nm)
                elif k == 'pp':
                    te = ('p', ('p', T))
                    if len(vars_['p']) > 1:
                        init = addr(id_(r.choice(vars_['p'][1:])))
                        after.append(out(('d', deref(deref(id_(nm))))))
                elif k == 'a':
                    te = ('a', T, r.choice([2, 5]))
                    after.append(es(asg(idx(id_(nm), lit(1)), lit(j * 3))))
                    after.append(out(('lu', sze(id_(nm))), ('d', idx(id_(nm), lit(1)))))
                elif k == 'ap':
                    te = ('a', ('p', T), 3)
                    after.append(es(asg(idx(id_(nm), lit(2)), addr(id_('cell')))))
                    after.append(es(inc(deref(idx(id_(nm), lit(2))))))
                    after.append(out(('lu', sze(id_(nm))), ('d', id_('cell'))))
                elif k == 'f':
                    te = ('p', FN(T))
                    f = r.choice(['add', 'sub'])
                    if r.random() < .6:
                        init = addr(id_(f))
                    else:
                        after.append(es(asg(id_(nm), addr(id_(f)))))
                    after.append(out(('d', call(id_(nm) if r.random() < .5 else deref(id_(nm)), lit(9), lit(j)))))
                else:
                    te = ('a', ('p', FN(T)), 2)
                    after.append(es(asg(idx(id_(nm), lit(0)), addr(id_('add')))))
                    after.append(es(asg(idx(id_(nm), lit(1)), addr(id_('sub')))))
                    after.append(out(*[('d', call(idx(id_(nm), lit(z)) if r.random() < .5 else deref(idx(id_(nm), lit(z))), lit(9), lit(2))) for z in (1, 0, 1)]))
                ds.append(dr(nm, te, init))
            if where == 'top':
                top.append(decl(*ds))
                body += after
            elif where == 'body':
                body += [decl(*ds)] + after
            else:
                body.append(blk(decl(*ds), *after))
        P.append(Program('decls%d' % i, top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def fixed(c, r):
    P = []

    def add(pid, *top):
        P.append(Program(pid, list(top)))
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    FNT = ('fn', I, [I, I])
    f = fndef('add', I, [('a', I), ('b', I)], blk(ret(bin_('+', id_('a'), id_('b')))))
    g = fndef('sub', I, [('a', I), ('b', I)], blk(ret(bin_('-', id_('a'), id_('b')))))
    OP = ('td', 'op')
    st_ = lambda e, v: es(asg(e, v if isinstance(v, Node) else lit(v)))
    add('fnptr', f, g, tdef('op', ('p', FNT)), sudef('struct', 'o', [('f', ('p', FNT)), ('n', CH), ('g', OP), ('t', ('a', OP, 2))]), decl(dr('table', ('a', OP, 2))), decl(dr('gs', ('tag', 'struct o'))),
        fndef('apply', I, [('f', OP), ('x', I)], blk(ret(call('f', id_('x'), lit(2))))), fndef('apply2', I, [('f', ('p', FNT)), ('x', I)], blk(ret(call(deref(id_('f')), id_('x'), lit(2))))),
        fndef('choose', OP, [('k', I)], blk(if_(id_('k'), ret(addr(id_('add')))), ret(addr(id_('sub'))))),
        main(decl(dr('s', ('tag', 'struct o')), dr('p', ('p', ('tag', 'struct o')), addr(id_('s')))), st_(mem(id_('s'), 'f'), addr(id_('add'))), st_(arrow(id_('p'), 'g'), mem(id_('s'), 'f')), st_(idx(id_('table'), lit(1)), addr(id_('sub'))),
             st_(idx(arrow(id_('p'), 't'), lit(1)), idx(id_('table'), lit(1))), out(('d', call(mem(id_('s'), 'f'), lit(1), lit(2))), ('d', call(mem(id_('s'), 'g'), lit(4), lit(3))), ('d', call(idx(arrow(id_('p'), 't'), lit(1)), lit(1), lit(9)))),
             out(('d', call('apply', addr(id_('add')), lit(1))), ('d', call('apply', idx(id_('table'), lit(1)), lit(1))), ('d', call('apply2', arrow(id_('p'), 'g'), lit(8)))), decl(dr('q', OP, call('choose', lit(0)))), out(('d', call('q', lit(9), lit(3)))),
             out(('lu', szt(OP)), ('lu', sze(id_('table'))), ('lu', sze(id_('s')))), out(('d', bin_('==', id_('q'), addr(id_('sub')))), ('d', bin_('==', mem(id_('gs'), 'f'), lit(0)))), out(('d', call(deref(id_('q')), lit(5), lit(1))))))
    # The size of an array is evaluated where it is declared
    N, A = id_('N'), id_('a')
    add('sizes', enum('', [('N', lit(3))]) if 0 else enum('n', [('N', lit(3)), ('M', bin_('*', id_('N'), lit(2)))]), tdef('V', ('a', b('short'), bin_('+', N, lit(1)))), decl(dr('g', ('a', I, N)), dr('h', ('a', I, id_('M')))), sudef('struct', 's', [('v', ('a', CH, bin_('-', id_('M'), lit(1)))), ('w', ('td', 'V'))]),
        fndef('f', I, [], blk(decl(dr('N', CH, lit(50))), decl(dr('v', ('td', 'V')), dr('s', ('tag', 'struct s')) if 0 else dr('w', ('td', 'V'))), decl(dr('s', ('tag', 'struct s'))), ret(cast(I, bin_('+', bin_('+', sze(id_('v')), sze(id_('s'))), sze(id_('g'))))))),
        main(out(('lu', sze(id_('g'))), ('lu', sze(id_('h'))), ('lu', szt(('td', 'V'))), ('lu', szt(('tag', 'struct s')))), out(('d', call('f'))),
             enum('i', [('N', lit(9))]), decl(dr('v', ('td', 'V')), dr('w', ('td', 'V'))), decl(dr('a', ('a', I, bin_('<<', N, lit(1))))), out(('lu', sze(id_('v'))), ('lu', sze(A)), ('lu', sze(id_('g')))),
             decl(dr('z', ('a', b('long'), cond(bin_('>', N, lit(4)), lit(2), lit(6))))), out(('lu', sze(id_('z'))))))
    # The same name as tag, variable, member, label of an enumerator
    add('names', sudef('struct', 'x', [('x', I)]), enum('y', [('z', lit(4))]), decl(dr('x', ('tag', 'struct x'))), decl(dr('y', ('tag', 'enum y'), id_('z'))),
        main(st_(mem(id_('x'), 'x'), 3), out(('d', mem(id_('x'), 'x')), ('u', id_('y'))), blk(decl(dr('x', I, lit(5))), decl(dr('w', ('tag', 'struct x'))), st_(mem(id_('w'), 'x'), id_('x')), out(('d', mem(id_('w'), 'x')))), out(('d', mem(id_('x'), 'x')))))
    # names that start like the name of a type, or that it starts with
    x, T, Tx, TT, t = id_('xT'), id_('T'), id_('Tx'), id_('TT'), id_('t')
    use = lambda: [decl(dr('T2', ('td', 'Ty'), lit(5)), dr('Tyy', ('td', 'Ty'), lit(7))), out(('d', bin_('*', id_('T2'), id_('Tyy'))), ('d', bin_('-', id_('Tyy'), cast(('td', 'Ty'), id_('T2')))), ('d', bin_('-', id_('Ty_'), id_('T2')))),
                   st_(id_('Tyy'), bin_('*', id_('Tyy'), id_('T2'))), st_(id_('T'), bin_('+', id_('Tyy'), lit(1))), out(('ld', id_('T')), ('d', id_('Tyy')), ('lu', sze(id_('Tyy'))), ('lu', szt(('td', 'Ty'))), ('lu', sze(id_('T')))),
                   st_(mem(id_('Tys'), 'Tym'), id_('T')), st_(mem(id_('Tys'), 'T'), lit(3)), out(('d', mem(id_('Tys'), 'Tym')), ('d', mem(id_('Tys'), 'T')), ('d', id_('Tye')), ('d', call('Tyf', id_('T'), id_('T2')))), es(call('Tyf', id_('T'), id_('T2')))]
    add('prefixes', decl(dr('T', b('long'))), tdef('Ty', b('short')), decl(dr('Ty_', I, lit(40))), sudef('struct', 'Tyt', [('Tym', I), ('T', ('td', 'Ty'))]), enum('Tyen', [('Tye', lit(6))]), decl(dr('Tys', ('tag', 'struct Tyt'))),
        fndef('Tyf', I, [('Tyb', ('td', 'Ty')), ('Tya', I)], blk(st_(id_('Tya'), inc(id_('Tyb'))), ret(bin_('*', id_('Tya'), id_('Tyb'))))), fndef('f', V, [], blk(*use())),
        main(*use(), es(call('f')), tdef('Tyy2', ('p', ('td', 'Ty'))), decl(dr('Tyy22', ('td', 'Ty'), lit(3))), decl(dr('p', ('td', 'Tyy2'), addr(id_('Tyy22')))), out(('d', deref(id_('p')))), for_(st_(id_('T'), 0), bin_('<', id_('T'), lit(2)), inc(id_('T')), blk(*use()))))
    # typedefs of compounds and enums, pointers to them
    add('tags', tdef('S', sdef('struct', [('a', CH), ('b', ('p', I))], 's')), tdef('E', edef([('e1', lit(7)), ('e2', None)])), tdef('PS', ('p', ('td', 'S'))), decl(dr('g', ('td', 'S')), dr('pg', ('p', ('td', 'S')), addr(id_('g')))),
        main(decl(dr('v', ('td', 'PS'), id_('pg')), dr('w', ('td', 'PS')) if 0 else dr('u', ('td', 'PS'))), decl(dr('e', ('td', 'E'), id_('e2'))), st_(arrow(id_('v'), 'a'), id_('e')), out(('d', mem(id_('g'), 'a')), ('u', id_('e')), ('lu', szt(('td', 'S'))), ('lu', szt(('td', 'E'))), ('lu', szt(('td', 'PS')))),
             decl(dr('arr', ('a', ('td', 'S'), 2))), st_(id_('u'), addr(idx(id_('arr'), lit(1)))), st_(arrow(id_('u'), 'a'), 9), out(('d', mem(idx(id_('arr'), lit(1)), 'a')), ('lu', sze(id_('arr'))))))
    return P


def typenames(c, r, n):
    """Type names with all kinds of declarators: pointers, arrays, functions."""
    P = []
    for i in range(n):
        top = [sudef('struct', 's', [('c', CH), ('v', ('a', b('short'), 3))]), sudef('union', 'u', [('l', b('long')), ('c', ('a', CH, 11))]), enum('e', [('K', lit(r.choice([3, 5, 9]))), ('L', None)]),
               tdef('TI', b(r.choice(INTS))), tdef('TP', ('p', CH)), tdef('TF', ('p', ('fn', I, [I]))), tdef('TS', ('tag', 'struct s'))]
        bases = [lambda: b(r.choice(INTS + ['double', 'float', 'llong', 'schar'])), lambda: ('tag', r.choice(['struct s', 'union u', 'enum e'])), lambda: ('td', r.choice(['TI', 'TP', 'TF', 'TS']))]
        size = lambda: r.choice([1, 2, 7, 255, 256, 4096, 65535, 65536, 70000, 1000000, id_('K'), bin_('+', id_('L'), lit(2)), bin_('*', lit(3), id_('K'))])

        def tn(d, leaf):
            # leaf: the type isn't an element or the result of anything
            k = r.random()
            if d == 0 or k < .15:
                return r.choice(bases)()
            if k < .55 or (k < .8 and not leaf):
                t = ('p', tn(d - 1, False) if r.random() < .5 else tn(d - 1, True))
                return t
            if k < .8:
                t = tn(d - 1, False)
                return ('a', t, size()) if t[0] != 'a' else t
            rt = tn(d - 1, False)
            return ('p', ('fn', rt, [r.choice(bases)() for _ in range(r.randrange(3))])) if rt[0] != 'a' else ('p', rt)
        body = []
        # no objects with pointers to arrays (see Limits)
        plain = lambda t: t[0] not in 'pa' or (not (t[0] == 'p' and t[1][0] == 'a') and (t[1][0] != 'fn' or plain(t[1][1])) and plain(t[1]))
        for j in range(20):
            t = tn(r.choice([1, 2, 3]), True)
            body.append(out(('lu', szt(t)), ('lu', szt(('p', t)))))
            if r.random() < .4 and t[0] != 'a':
                m = size()
                body += [out(('lu', szt(('a', t, m))))]
            if r.random() < .3 and plain(t):
                top.append(tdef('N%d' % j, t))
                body.append(out(('lu', szt(('td', 'N%d' % j)))))
            if t[0] == 'p' and plain(t):
                body += [decl(dr('x%d' % j, t, cast(t, lit(0)))), out(('d', un('!', id_('x%d' % j))), ('d', bin_('==', id_('x%d' % j), cast(t, lit(0)))), ('lu', sze(id_('x%d' % j))))]
        P.append(Program('typenames%d' % i, top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def scopes(c, r, n):
    """The same few names as typedefs, objects, enumerators, functions, parameters
    and members in blocks after, around and within each other. (A name isn't
    declared as something else where it is a typedef: see Limits.)"""
    P = []
    for i in range(n):
        pool = ['a', 'b', 'num', 'n_', 'T', 'Long'][:r.randrange(2, 7)]
        fresh = itertools.count()

        def declare_(n, env, top=False):
            k = r.choice(['td', 'td', 'td', 'obj', 'enum', 'tag', 'arr'] + ['tdS', 'tdE'])
            f = next(fresh)
            if k == 'td':
                t = b(r.choice(INTS))
                env[n] = ('td', t)
                return [tdef(n, t)]
            if k == 'tdS':
                env[n] = ('tdS', None)
                return [tdef(n, sdef('struct', [('m', b(r.choice(['char', 'short', 'int', 'long']))), ('k', ('p', CH))], r.choice([None, n])))]
            if k == 'tdE':
                env[n] = ('tdE', None)
                return [tdef(n, edef([('E%d' % f, lit(r.randrange(9))), ('F%d' % f, None)]))]
            if k == 'tag':
                env[n] = ('mem', None)
                return [sudef('struct', 'z%d' % f, [(n, b(r.choice(['char', 'int'])))]), decl(dr(n, TAGZ(f)), static=False), es(asg(mem(id_(n), n), lit(f % 99)))][:2 if top else 3]
            if k == 'enum':
                env[n] = ('enum', None)
                return [enum('q%d' % f, [(n, lit(f))])]
            if k == 'arr':
                env[n] = ('arr', None)
                return [decl(dr(n, ('a', CH, f % 7 + 1)))]
            t = b(r.choice(INTS))
            env[n] = ('obj', t)
            return [decl(dr(n, t, lit(f % 100)), static=not top and r.random() < .2)]
        TAGZ = lambda f: ('tag', 'struct z%d' % f)

        def use(env):
            ss = []
            for n, (k, t) in r.sample(sorted(env.items(), key=lambda p: p[0]), min(len(env), 3)):
                f = 'x%d' % next(fresh)
                T = ('td', n)
                if k == 'td':
                    ss += r.choice([lambda: [decl(dr(f, T, lit(r.randrange(100)))), es(inc(id_(f))), out((FMT[t[1]], id_(f)), ('lu', sze(id_(f))))], lambda: [out(('lu', szt(T)), ('lu', szt(('a', T, 3))), ('ld', cast(b('long'), cast(T, lit(r.randrange(1000))))))],
                                    lambda: [decl(dr(f, ('a', T, 4))), out(('lu', sze(id_(f))))]])()
                elif k == 'tdS':
                    ss += [decl(dr(f, T)), es(asg(mem(id_(f), 'm'), lit(r.randrange(1000)))), out(('ld', cast(b('long'), mem(id_(f), 'm'))), ('lu', szt(T)), ('lu', szt(('p', T))))]
                elif k == 'tdE':
                    ss += [decl(dr(f, T, lit(r.randrange(9)))), out(('d', cast(I, id_(f))), ('lu', szt(T)))]
                elif k == 'obj':
                    ss += [es(r.choice([inc(id_(n)), casg('+', id_(n), lit(1))])), out((FMT[t[1]], id_(n)))]
                elif k == 'enum':
                    ss += [out(('d', bin_('*', id_(n), lit(2))))]
                elif k == 'arr':
                    ss += [es(asg(idx(id_(n), lit(0)), lit(r.randrange(100)))), out(('d', idx(id_(n), lit(0))), ('lu', sze(id_(n))))]
                elif k == 'mem':
                    ss += [es(asg(mem(id_(n), n), lit(r.randrange(200)))), out(('d', mem(id_(n), n)))]
                elif k == 'fn':
                    ss += [out(('d', call(n, lit(r.randrange(9)))))]
            return ss

        def body(d, env):
            env, ss, here = dict(env), [], set()
            for _ in range(r.randrange(1, 3)):
                for n in r.sample(pool, r.randrange(0, 3)):
                    if n not in here and not env.get(n, ('',))[0].startswith('td'):
                        here.add(n)
                        ss += declare_(n, env)
                ss += use(env)
                if d:
                    for _ in range(r.randrange(1, 3)):
                        in_, f = body(d - 1, env), 'i%d' % next(fresh)
                        ss.append(r.choice([lambda: blk(*in_), lambda: if_(lit(1), blk(*in_), blk(*body(0, env))), lambda: if_(lit(0), blk(*body(0, env)), blk(*in_)), lambda: for_(decl(dr(f, I, lit(0))), bin_('<', id_(f), lit(2)), inc(id_(f)), blk(*in_))])())
                    ss += use(env)
            return ss
        top, env = [], {}
        for n in r.sample(pool, r.randrange(0, 2)):
            top += declare_(n, env, True)
        fns = []
        for j in range(3):
            n = r.choice(pool)
            if r.random() < .3 and n not in env:
                env[n] = ('fn', None)
                top.append(fndef(n, I, [('n', I)], blk(*body(1, {k: v for k, v in env.items() if v[0] != 'fn'}), ret(bin_('+', id_('n'), lit(j))))))
            else:
                e, ps = dict(env), []
                for q in r.sample(pool, r.randrange(0, 3)):
                    if not env.get(q, ('',))[0].startswith('td'):
                        t = b(r.choice(['int', 'char', 'long']))
                        ps.append((q, t))
                        e[q] = ('par', t)
                e2 = {k: ('obj', v[1]) if v[0] == 'par' else v for k, v in e.items()}
                # a parameter isn't declared again by the function's own block
                top.append(fndef('f%d' % j, I, ps, blk(blk(*body(r.choice([1, 1, 2]), e2)), *use(e2), ret(lit(j)))))
                fns.append(('f%d' % j, len(ps)))
        P.append(Program('scopes%d' % i, top + [fndef('main', I, [], blk(*[out(('d', call(f, *[lit(r.randrange(99)) for _ in range(k)]))) for f, k in fns], *body(1, env), ret(lit(0))))]))
    return P


def run(c):
    r = c.rng
    n = 25 if c.quick else 400
    c.check(specifiers(c, r) + typedefs(c, r, n) + tdlists(c, r, n) + enums(c, r, n) + declarators(c, r, n) + fixed(c, r) + typenames(c, r, n) + scopes(c, r, n * 2))
