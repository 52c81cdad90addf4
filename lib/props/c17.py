"""C17: the inspector. ?name in a session, for names of all kinds, in all scopes
in which the REPL can be started, at all moments: CMachine says what the type,
the value, the size and the place of the declaration are."""
from cprog import *
from arith import *
from repl import *
import c15, cgen, random

I, X, Y, P_, V_, S_ = b('int'), id_('x'), id_('y'), id_('p'), id_('v'), id_('s')
T = lambda n: ('tag', 'struct ' + n)
U = lambda n: ('tag', 'union ' + n)
SC = INTS + ['schar', 'llong', 'ullong', 'float', 'double']
FN = ('fn', I, [I])


def objects(types, pre):
    """Declarations of objects of the types, all ways of building on them."""
    ds = []
    for i, t in enumerate(types):
        for k, te in enumerate([t, ('p', t), ('a', t, 3 + i), ('p', ('p', t)), ('a', ('p', t), 2)]):
            if te[0] == 'void':
                continue
            ds.append(decl(dr('%s%d_%d' % (pre, i, k), te)))
    return ds


def kinds(c):
    out, r = [], c.rng
    for j, where in enumerate(['session', 'startup', 'file', 'static', 'session-static']):
        pre = 'n%d' % j
        types = [b(t) for t in SC]
        defs = [sudef('struct', 'sa', [('a', I), ('c', ('a', b('char'), 5))]), sudef('union', 'ub', [('a', b('char')), ('l', b('long'))]), sudef('struct', 'deep', [('a', T('sa')), ('u', U('ub')), ('s', b('short'))]),
                sudef('struct', 'hid', [('k', b('char')), (None, sdef('union', [('hl', b('short')), (None, sdef('struct', [('hc', b('char')), ('hi', I)]))])), (None, sdef('struct', [('q', I)], 'hin')), ('t', b('char'))]),
                enum('ea', [('EA', None), ('EB', lit(7))]), enum('eb', [('EC', un('-', lit(1)))]), tdef('ti', I), tdef('tp', ('p', ('p', b('uchar')))), tdef('ts', T('sa')), tdef('tpu', ('p', U('ub'))), tdef('ta', ('a', b('ulong'), 4)),
                tdef('tf', ('p', FN)), tdef('tan', sdef('struct', [('z', I)]))]
        ds = objects(types, pre) + objects([T('sa'), U('ub'), T('deep'), T('hid')], pre + 's') + objects([('td', 'ti'), ('td', 'tp'), ('td', 'tpu')], pre + 't')
        ds += [decl(dr(pre + 'ts', ('td', 'ts'))), decl(dr(pre + 'ta', ('td', 'ta'))), decl(dr(pre + 'tf', ('td', 'tf'))), decl(dr(pre + 'f', ('p', FN))), decl(dr(pre + 'pf', ('p', ('p', FN)))), decl(dr(pre + 'e', ('tag', 'enum ea'))),
               decl(dr(pre + 'e2', ('tag', 'enum eb'))), decl(dr(pre + 'v', ('p', b('void')))), decl(dr(pre + 'vv', ('p', ('p', b('void'))))), decl(dr(pre + 'an', sdef('struct', [('q', I)]))), decl(dr(pre + 'pan', ('p', sdef('struct', [('q', I)])))),
               decl(dr(pre + 'pun', ('p', sdef('union', [('q', I)])))), decl(dr(pre + 'c', b('int', 'const int'), lit(-5)), dr(pre + 'd', ('p', b('int', 'const int')))), decl(dr(pre + 'ul', b('ulong', 'unsigned long int'), un('~', lit(0)))),
               decl(dr(pre + 'ch', b('char'), chr_("'A'"))), decl(dr(pre + 'fl', b('float'), flt('0.5', 512)), dr(pre + 'pfl', ('p', b('float'))))]
        if 'static' in where:
            ds = [decl(*d.ds, static=True) for d in ds]
        names = [x.n for d in ds for x in d.ds]
        ask = [insp(n) for n in names]
        r.shuffle(ask)
        extra = [insp(n) for n in ('EA', 'EB', 'EC', 'ti', 'tp', 'ts', 'tpu', 'ta', 'tf', 'tan', 'nope', 'sa', 'deep', 'hl', 'hid', 'ea', 'a', 'z', 'q')]
        acts = [ln(asg(id_(pre + '0_0'), lit(66))), insp(pre + '0_0'), ln(asg(id_(pre + '5_1'), addr(id_(pre + '5_0')))), insp(pre + '5_1'), ln(asg(deref(id_(pre + '5_1')), lit(3000000000))), insp(pre + '5_0'),
                ln(asg(id_(pre + '0_1'), st('some text'))), insp(pre + '0_1'), ln(asg(idx(id_(pre + '0_2'), lit(0)), lit(120))), insp(pre + '0_2'), ln(asg(id_(pre + 's0_1'), addr(id_(pre + 's0_0')))), insp(pre + 's0_1'),
                ln(asg(id_(pre + 's1_1'), bin_('+', id_(pre + 's1_2'), lit(2)))), insp(pre + 's1_1'), insp(pre + 's1_2'), ln(asg(id_(pre + '11_0'), flt('2.25', 2304))), insp(pre + '11_0'), insp(pre + 'fl'), insp('nope'), bad('?'), bad('? 3;'), bad('?x y z'), insp(pre + 'ch', '? ' + pre + 'ch'),
                blank(), insp(pre + 'c', '  ?' + pre + 'c '), insp('EB', '?EB /* what is it? */')]
        if where.startswith('session'):
            out.append(Session('kinds-' + where, [ln(d) for d in defs + ds] + ask + extra + acts))
        elif where == 'startup':
            out.append(Session('kinds-' + where, ask + extra + acts, start=defs + ds).place(r))
            out.append(Session('kinds-' + where + '-plain', ask[:40] + acts, start=defs + ds).place())
        else:
            f = [fndef('fa', b('void'), [('x', I)], blk(es(X))), fndef('fb', ('p', I), [('x', b('char')), ('y', b('short'))], blk(ret(lit(0))))]
            out.append(Session('kinds-' + where, ask + extra + acts + [insp('fa'), insp('fb'), insp('main')], script=defs + ds + f + [fndef('main', I, [], blk(repl(), ret(lit(0))))]).place(r))
            out.append(Session('kinds-' + where + '-top', [insp('fb'), insp('fa')] + ask[:30] + extra + [insp('fa')], script=defs + f + ds + [repl()], main=False).place(r))
    return out


def scopes(c):
    """The names of every scope, which hide each other."""
    out, r = [], c.rng
    tys = [b(t) for t in ('char', 'short', 'uint', 'long', 'uchar')]
    n = 0
    for use in range(6):            # how deep the REPL is
        for k in range(2 if c.quick else 12):
            te = [r.choice(tys) for _ in range(6)]
            if r.random() < .5:
                te[r.randrange(6)] = ('a', r.choice(tys[1:]), 3)
            have = [r.random() < .6 for _ in range(6)]
            have[r.randrange(6)] = True
            def d(l):
                if not have[l]:
                    return []
                return [decl(dr('x', te[l], None if te[l][0] == 'a' else lit(10 + l)), static=te[l][0] == 'a')]
            ask = [insp('x'), insp('p1'), insp('q'), insp('f'), insp('later'), ln(id_('g')), insp('g')]
            body = [repl()]
            for l in (5, 4, 3):
                at = [repl()] if use == l - 3 else []
                body = [blk(*d(l), *(body if use != l - 3 else [repl()]), decl(dr('z%d' % l, I, lit(l))))]
            p = te[2] if te[2][0] != 'a' else I
            f = fndef('f', I, [('x' if have[2] else 'q', p), ('p1', b('short'))], blk(decl(dr('l', I, lit(1))), *body, ret(lit(1))))
            out.append(Session('scopes%d' % n, ask, script=[decl(dr('g', I, lit(3)))] + d(0) + [f] + [decl(dr('later', b('uchar'), lit(2)))] +
                               [fndef('main', I, [], blk(*d(1), decl(dr('hidden', I, lit(1))), es(call('f', lit(70), lit(8))), ret(lit(0))))]).place(r))
            out[-1].lines.append(insp('hidden'))
            n += 1
    # a name in turns
    lines = [insp('x'), ln(decl(dr('x', b('long'), lit(3)))), insp('x'), ln(asg(X, lit(7))), insp('x')]
    out.append(Session('turns', lines, script=[decl(dr('x', b('char'), lit(1))), fndef('main', I, [], blk(decl(dr('y', I, lit(0))), blk(repl()), out_('d', X), ret(lit(0))))]).place(r))
    out.append(Session('loop', [insp('n'), insp('sq'), ln(inc(id_('n'))), insp('n'), insp('r')], script=[fndef('main', I, [], blk(for_(decl(dr('n', I, lit(4))), bin_('<', id_('n'), lit(9)), inc(id_('n')), blk(decl(dr('sq', b('long'), bin_('*', id_('n'), id_('n')))), if_(bin_('==', id_('n'), lit(6)), repl()), out_('d', id_('n')))), ret(lit(0))))]).place(r))
    out.append(Session('recursion', [insp('n'), insp('k'), insp('r')], script=[fndef('r', I, [('n', I)], blk(decl(dr('k', b('uchar'), bin_('*', id_('n'), lit(100))), ), if_(bin_('==', id_('n'), lit(0)), repl(), es(call('r', bin_('-', id_('n'), lit(1))))), out_('d', id_('k')), ret(lit(0)))), fndef('main', I, [], blk(es(call('r', lit(4))), ret(lit(0))))]).place(r))
    return out


def externs(c):
    """External functions: declared anywhere, repeatedly, hiding and hidden."""
    out, r = [], c.rng
    L = b('long')
    fns = {'abs': (I, [('x', I)]), 'labs': (L, [('x', L)]), 'toupper': (I, [('c', I)]), 'atoi': (I, [('s', ('p', b('char')))]), 'strlen': (b('ulong'), [('s', ('p', b('char')))]), 'rand': (I, []), 'puts': (I, [('s', ('p', b('char')))]),
           'getenv': (('p', b('char')), [('n', ('p', b('char')))]), 'sprintf': (I, [('s', ('p', b('char'))), ('f', ('p', b('char')))])}
    X_ = lambda n: xfn(n, *fns[n], pre=r.choice(['', 'extern ']), va=n == 'sprintf')
    use = lambda n: ln(ext(n, 'abs', fns[n][0], [fns[n][0]], lit(r.randrange(-999, 99))))
    for i in range(6 if c.quick else 80):
        ns = r.sample(sorted(fns), 5)
        ask = [insp(n) for n in sorted(fns)] + [insp('x'), insp('s')]
        r.shuffle(ask)
        more = [l for n in ns[3:] for l in ([ln(X_(n))] + ([ln(X_(n))] if r.random() < .4 else []) + [insp(n)])]
        more += [use(n) for n in ns[3:] if n in ('abs', 'labs')] + [insp(r.choice(ns)) for _ in range(4)]
        # (a name of an inner scope hides the function, a function declared in one hides objects)
        top, loc = [X_(n) for n in ns[:2]], []
        hid = [decl(dr(ns[2], r.choice([b('short'), ('a', L, 3)])))]
        for n in r.sample(ns[:2], r.randrange(3)):
            loc.append(decl(dr(n, b('uchar'), lit(3))))
        if r.random() < .5:
            loc.append(X_(ns[2]))
        if i % 3 == 0:
            out.append(Session('externs%d' % i, ask[:5] + more + ask[5:], start=top + hid + [X_(ns[0])]).place(r))
        else:
            body = [*loc, blk(repl())] if i % 3 == 1 else [repl()]
            out.append(Session('externs%d' % i, ask[:5] + more + ask[5:], start=[X_(ns[3])] if i % 2 else [], script=top + hid + [fndef('f', I, [('k', I)], blk(*body, ret(lit(0)))), fndef('main', I, [], blk(*([] if i % 3 == 1 else loc), es(call('f', lit(1))), ret(lit(0))))]).place(r))
    return out


def out_(f, a): return out((f, a))


def random_sessions(c, n):
    res, r = [], c.rng
    for i in range(n):
        s = c15.random_session(c, i)
        lines = []
        names = []
        for d in locate.declarators(s.start + (s.script or [])[:-1], []):
            if d.k == 'fndef' or d.te[0] != 'p':
                names.append(d.n)
        glob = set(names)
        for l in s.lines:
            lines.append(l)
            if l.kind == 'stmt' and l.s.k == 'decl':
                names += [d.n for d in l.s.ds if d.i is not None]
            if names and r.random() < .4:
                lines.append(insp(r.choice(names)))
        # (an array of char needn't be a string)
        chars_ = {d.n for d in locate.declarators(s.start + (s.script or []), []) if d.k == 'dr' and d.te[0] == 'a' and d.te[1] == b('char')}
        s.lines = [l for l in lines if l.kind != 'insp' or l.n not in chars_]
        s.id = 'rnd%d' % i
        res.append(s.place(r))
    return res


def run(c):
    progs = kinds(c) + scopes(c) + externs(c)
    rnd = random_sessions(c, 60 if c.quick else 2500)
    c.extra['sessions'] = {'systematic': len(progs), 'random': len(rnd), 'questions': sum(l.kind == 'insp' for s in progs + rnd for l in s.lines)}
    c.check(progs + rnd)
