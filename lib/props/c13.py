"""C13: garbage collection is invisible. Programs of all kinds are run with
collections at different points (after every n allocations); every distinct
behaviour has to be one of CMachine, which doesn't have a collector. The
collector itself is specified in Gc.tla, which TLC checks for all histories of
small heaps."""
import copy, json
from cprog import *
from arith import *
import build, cgen, collect, engine

I = b('int')
X, Y, N = id_('x'), id_('y'), id_('n')
FEATS = ('decl', 'if', 'loop', 'block', 'ret', 'call', 'break', 'array', 'struct', 'ptr', 'static')
GC_CFG = '''CONSTANTS Obj={%s} Statics={s1} Limit=%d Flaw="%s"
SPECIFICATION Spec
INVARIANT Safe
INVARIANT Exact
INVARIANT JustSwept
INVARIANT Clean
INVARIANT Bounded
%s
CHECK_DEADLOCK FALSE
'''
HEAVY = ('long', 'deep')
FLAWS = [('none', 0), ('stack only', 1), ('statics only', 1), ('roots only', 1), ('marks stay', 1)]


def design(c):
    """The design of the collector, and that the invariants find flaws in it."""
    sizes = {}
    def one(a):
        flaw, bad, objs, lim, prop = a
        cfg = GC_CFG % (','.join('o%d' % i for i in range(objs)), lim, flaw, prop)
        rc, printed, st, text = engine.tlc('Gc', cfg, workers=4 if flaw == 'none' else 1, timeout=800, short=flaw != 'none')
        if (rc != 0) != bool(bad):
            raise engine.ModelError('Gc.tla with flaw %s: %s' % (flaw, text[-2000:]))
        return flaw, objs, lim, st
    jobs = [(f, x, 2, 1, '') for f, x in FLAWS] + [('none', 0, 2, 1, 'PROPERTY Ends')]
    if not c.quick:
        jobs += [('none', 0, 3, 0, ''), ('none', 0, 3, 1, 'PROPERTY Ends'), ('none', 0, 3, 2, '')]
    res = engine.parallel(one, jobs)
    c.extra['collector_design'] = ['%s: %d objects, limit %d: %d distinct states%s' % (f, o, l, st[1], '' if f == 'none' else ' until the invariants are violated') for f, o, l, st in res]
    c.states += sum(st[1] for f, o, l, st in res if f == 'none')


def churn(c, r):
    """Objects that are only reachable in unusual ways, and many of them."""
    P = []
    add = lambda pid, *top, **kw: P.append(Program(pid, list(top), **kw))
    main = lambda *ss: fndef('main', I, [], blk(*ss, ret(lit(0))))
    garbage = fndef('garbage', I, [('n', I)], blk(decl(dr('s', I, lit(0))), while_(inc(N, -1), blk(decl(dr('t', I, bin_('*', N, lit(3)))), es(casg('+', id_('s'), id_('t'))))), ret(id_('s'))))
    G = lambda n=40: out(('d', call('garbage', lit(n))))
    # pointers of all kinds to what has no other use
    add('ptrs', garbage, decl(dr('gp', ('p', I)), dr('pp', ('p', ('p', I)))), decl(dr('gs', ('p', b('char')))),
        fndef('st', ('p', I), [], blk(decl(dr('x', I, lit(5)), static=True), ret(addr(X)))),
        fndef('in', I, [('x', ('p', I))], blk(G(), decl(dr('y', ('a', I, 4))), es(asg(idx(Y, lit(3)), bin_('+', deref(X), lit(1)))), es(asg(id_('gp'), bin_('+', Y, lit(3)))), G(), ret(deref(id_('gp'))))),
        fndef('lit', ('p', b('char')), [], blk(ret(st('literal')))),
        main(es(asg(id_('gp'), call('st'))), G(), out(('d', deref(id_('gp')))), decl(dr('v', ('a', I, 6)), dr('x', I, lit(7))), es(asg(id_('gp'), addr(X))), G(),
             out(('d', call('in', id_('gp')))), es(asg(id_('gs'), call('lit'))), G(), out(('s', id_('gs'))), es(asg(id_('pp'), addr(id_('gp')))), es(asg(id_('gp'), bin_('+', id_('v'), lit(2)))),
             es(asg(deref(deref(id_('pp'))), lit(9))), G(), out(('d', idx(id_('v'), lit(2)))), es(asg(id_('gs'), st('other'))), G(), out(('s', bin_('+', id_('gs'), lit(2))))))
    # values in the middle of expressions
    add('middle', garbage, fndef('g', b('long'), [('n', b('long'))], blk(G(20), ret(bin_('+', N, lit(1))))),
        fndef('h', I, [('x', I), ('y', I), ('n', b('long'))], blk(G(20), ret(bin_('+', bin_('*', X, Y), cast(I, N))))),
        main(decl(dr('x', b('ulong'), bin_('<<', cast(b('ulong'), lit(1)), lit(63)))), decl(dr('v', ('a', b('long'), 3))), es(asg(idx(id_('v'), lit(1)), lit(3))),
             out(('lu', bin_('+', bin_('+', X, lit(12345678)), call('g', bin_('*', call('g', lit(3)), lit(4)))))),
             out(('d', call('h', bin_('+', lit(2), cast(I, call('g', lit(1)))), lit(5), idx(id_('v'), lit(1))))), out(('d', call('h', lit(4), idx(id_('v'), lit(1)), bin_('-', call('g', call('g', call('g', lit(7)))), idx(id_('v'), lit(1)))))),
             es(asg(idx(id_('v'), lit(2)), bin_('+', idx(id_('v'), lit(1)), call('g', lit(10))))), out(('ld', idx(id_('v'), lit(2)))),
             out(('ld', cond(land(call('g', lit(0)), lor(bin_('==', call('g', lit(2)), lit(4)), call('g', lit(1)))), bin_('*', call('g', lit(8)), lit(9)), call('g', lit(6))))),
             for_(decl(dr('i', b('long'), call('g', lit(0)))), bin_('<', id_('i'), call('g', lit(5))), asg(id_('i'), call('g', id_('i'))), out(('ld', comma(call('g', lit(1)), id_('i')))))))
    # types that are only known by the objects that have them
    S = ('tag', 'struct s')
    add('types', garbage, sudef('struct', 's', [('a', b('char')), ('n', ('p', S)), ('v', ('a', b('short'), 3)), ('f', ('p', ('fn', I, [I])))]), tdef('sp', ('p', S)), tdef('fi', ('p', ('fn', I, [I]))),
        decl(dr('g1', S), dr('tab', ('a', S, 3))), fndef('inc', I, [('n', I)], blk(G(10), ret(bin_('+', N, lit(1))))), fndef('dbl', I, [('n', I)], blk(G(10), ret(bin_('*', N, lit(2))))),
        fndef('mk', ('td', 'sp'), [('n', I)], blk(decl(dr('p', ('td', 'sp'), addr(idx(id_('tab'), N)))), es(asg(arrow(id_('p'), 'a'), bin_('+', N, lit(65)))), es(asg(arrow(id_('p'), 'n'), addr(id_('g1')))),
                                                  es(asg(idx(arrow(id_('p'), 'v'), N), lit(-4))), if_(bin_('&', N, lit(1)), es(asg(arrow(id_('p'), 'f'), addr(id_('inc')))), es(asg(arrow(id_('p'), 'f'), addr(id_('dbl'))))), ret(id_('p')))),
        main(*[s for k in range(3) for s in (G(), out(('d', arrow(call('mk', lit(k)), 'a'))), G(), out(('d', idx(mem(idx(id_('tab'), lit(k)), 'v'), lit(k))), ('d', call(mem(idx(id_('tab'), lit(k)), 'f'), lit(20)))))],
             blk(sudef('struct', 's', [('z', I)]), decl(dr('q', S)), es(asg(mem(id_('q'), 'z'), lit(3))), G(), out(('d', mem(id_('q'), 'z')), ('lu', szt(S)))),
             out(('lu', szt(S))), es(asg(mem(id_('g1'), 'a'), lit(5))), out(('d', arrow(mem(idx(id_('tab'), lit(2)), 'n'), 'a')))))
    # long loops, with the interval between collections that bic has
    add('long', garbage, decl(dr('s', b('ulong'))), main(
        for_(decl(dr('i', I, lit(0))), bin_('<', id_('i'), lit(500)), inc(id_('i')), blk(decl(dr('x', b('ulong'), bin_('*', cast(b('ulong'), id_('i')), lit(77777)))), decl(dr('p', ('p', b('ulong')), addr(X))),
             es(casg('^', id_('s'), bin_('+', deref(id_('p')), bin_('<<', id_('s'), lit(1))))), if_(bin_('==', bin_('&', id_('i'), lit(63)), lit(0)), out(('lu', id_('s')))))), out(('lu', id_('s')))))
    # much that is live at once: deep recursion, and a long text
    add('deep', garbage, fndef('f', I, [('n', I), ('x', ('p', I))], blk(decl(dr('y', I, bin_('&', bin_('+', deref(X), N), lit(0xffff)))), decl(dr('v', ('a', b('char'), 2))), es(asg(idx(id_('v'), lit(1)), bin_('&', N, lit(63)))),
        if_(N, es(casg('+', Y, call('f', bin_('-', N, lit(1)), addr(Y)))), G(8)), ret(bin_('&', bin_('+', Y, idx(id_('v'), lit(1))), lit(0xffff))))),
        main(decl(dr('k', I, lit(1))), *[out(('d', call('f', lit(v), addr(id_('k'))))) for v in (120, 3)]))
    for i, n in enumerate([300, 900] if c.quick else [300, 900, 2500]):
        vs = ['w%d' % k for k in range(20)]
        ss = []
        for _ in range(n):
            k = r.random()
            a, d, e = id_(r.choice(vs)), id_(r.choice(vs)), id_(r.choice(vs))
            if k < .5:
                ss.append(es(asg(a, bin_('&', bin_(r.choice('+-*'), d, bin_('^', e, lit(r.randrange(9999)))), lit(0x3fff)))))
            elif k < .7:
                ss.append(if_(bin_('>', a, d), es(casg('^', e, lit(r.randrange(99)))), blk(decl(dr('t', I, a)), es(asg(e, id_('t'))))))
            elif k < .8:
                ss.append(out(('d', a), ('d', d)))
            else:
                ss.append(es(asg(a, call('f%d' % r.randrange(8), d, e))))
        fs = [fndef('f%d' % k, I, [('x', I), ('y', I)], blk(decl(dr('t', I, bin_('&', bin_('+', bin_('*', X, lit(k + 2)), Y), lit(0xfff)))), ret(id_('t')))) for k in range(8)]
        add('text%d' % i, *[decl(dr(v, I, lit(k))) for k, v in enumerate(vs)], *fs, main(*ss, *[out(('d', id_(v))) for v in vs]))
        # (at file scope)
        P.append(Program('file%d' % i, [decl(dr(v, I, lit(k))) for k, v in enumerate(vs)] + fs + ss[:200] + [out(('d', id_(v))) for v in vs], main=False))
    return P


def run(c):
    r = c.rng
    c.assumptions.append('with BIC_VERIF_GC (a hook) a collection takes place after every n allocations instead of every 2000, and memory that is freed is overwritten and never reused')
    hooks = build.hooks(c.bic)
    if not hooks:
        c.assumptions.append('NOTE: the hooks do not fit this tree, only the default interval was explored')
    # (the invariants of CMachine itself are the business of the other checks)
    c.cfg = engine.CFG.replace('INVARIANT Lifetimes\nINVARIANT Cells\n', '')
    design(c)
    progs = churn(c, r)
    c.extra['programs'] = {'churn': len(progs)}
    for k in list(range(1, 13)) + [15, 16, 17, 19]:
        prop = 'C%02d' % k
        ps = collect.programs(prop, c.seed, True)
        ps = [p for p in ps if len(p.text()) < 12000]
        n = (16 if k not in (1, 2, 3, 11) else 5) if c.quick else 1000 if k < 15 else 400
        ps = ps if len(ps) <= n else r.sample(ps, n)
        c.extra['programs'][prop] = len(ps)
        for p in ps:
            p.id = '%s-%s' % (prop, p.id)
        progs += ps
    rnd = [cgen.program(r, 'rnd%d' % i, types=INTS, nfn=4, nstm=9, feats=FEATS) for i in range(40 if c.quick else 400)]
    c.extra['programs']['random'] = len(rnd)
    progs += rnd
    NS = [-1, 0, 1, 2, 3, 4, 5, 7, 11, 17, 29, 53, 101, 307, 997]
    by = {p.id: p for p in progs}
    jobs = []
    for p in progs:
        jobs.append((p, None))
        if hooks:
            big = p.id in HEAVY or len(p.text()) > 9000 or any(h.sys for h in getattr(p, 'headers', ()))
            for n in r.sample(NS[10 if big else 1:], 2 if c.quick else 4 if big else 6) + ([-1] if not big else []):
                jobs.append((p, n))
    c.extra['collection_schedules'] = len(jobs)
    # run them all; what behaves as a run that has been seen needs no other validation
    def execute(part, n, timeout):
        return c.execute(part, env={} if n is None else {'BIC_VERIF_GC': str(n)}, timeout=timeout)
    seen = {}
    for n in [None] + NS:
        part = [p for p, m in jobs if m == n]
        for p, res in execute(part, n, 120):
            tr = json.dumps(p.record(res) if hasattr(p, 'record') else engine.record(res))
            seen.setdefault(p.id, {}).setdefault(tr, (n, res))
    runs, again = [], {}
    for pid, d in seen.items():
        for j, (tr, (n, res)) in enumerate(d.items()):
            q = copy.copy(by[pid])
            q.id = pid if not j else '%s@gc%s' % (pid, n)
            again[q.id] = (by[pid], n)
            runs.append((q, res, None))
    c.extra['distinct_recordings'] = len(runs)

    def rerun(q):
        p, n = again[q.id]
        env = {} if n is None else {'BIC_VERIF_GC': str(n)}
        return c.execute([p], env=env, timeout=120, unbuffered=True)[0][1]
    # a program that doesn't behave the same with all schedules first
    runs.sort(key=lambda x: -len(seen[again[x[0].id][0].id]))
    c.validate(runs, rerun, 'with collections every n allocations: ')
