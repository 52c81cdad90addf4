"""C21: completion. Sessions at a terminal in which TAB is pressed after the
start of a name, or of that of a member: CMachine knows the names that are
visible there and the members of the object; and the session goes on as if
nothing had happened."""
from cprog import *
from arith import *
from repl import *
import c15, random, re

I, C_, X, P_, S_, V_ = b('int'), b('char'), id_('x'), id_('p'), id_('s'), id_('v')
T = lambda n: ('tag', 'struct ' + n)
U = lambda n: ('tag', 'union ' + n)
main = lambda *ss: fndef('main', I, [], blk(*ss))
sh = lambda *es: out(*[('d', e) for e in es])


AT = PRINTF + '\nint atexit(void (*h)(void));'


def atexit(f): return es(ext('atexit', 'atexit', I, [('p', ('fn', b('void'), []))], addr(id_(f))))


def tabs(*ps): return [tab(p) for p in ps]


def names(c):
    """Names of all kinds with the same starts."""
    res = []
    D = [decl(dr('alpha', I, lit(3)), dr('also', ('p', I))), decl(dr('alphabet', b('long'))), decl(dr('al', ('a', C_, 4))), tdef('alias', ('p', C_)), enum('alt', [('altair', None), ('alto', lit(7))]), enum('e2', [('beta', None)]),
         sudef('struct', 'alone', [('alm', I), ('b', C_)]), sudef('union', 'aloud', [('alu', I)]), decl(dr('allow', T('alone'))), decl(dr('allot', ('p', U('aloud')))), tdef('allied', T('alone')), decl(dr('alfa', I, lit(1)), dr('betting', I), static=True)]
    F = [fndef('aloof', I, [('alarg', I)], blk(decl(dr('alin', I, lit(2))), ret(bin_('+', id_('alin'), id_('alarg'))))), fndef('bet', b('void'), [], blk(es(inc(id_('alpha')))))]
    ps = ['a', 'al', 'alp', 'alpha', 'alphab', 'alphabet', 'alphabeta', 'ali', 'alt', 'alta', 'alo', 'all', 'allo', 'alm', 'alu', 'ala', 'alin', 'b', 'be', 'bet', 'bett', 'beta', 'c', 'al1', 'A', 'AL', 'alf', 'x', 'p', 'pr', 'e', 'm', 'ar', 'argv', 'i', 'in', 'struc', 'alia', 'z']
    use = [ln(id_('alpha')), ln(call('aloof', lit(3))), ln(asg(id_('alpha'), id_('alto'))), ln(id_('alpha')), ln(asg(mem(id_('allow'), 'alm'), lit(4))), ln(id_('allow'))]
    r = c.rng
    def mixed(ls, ps):
        ls = list(ls)
        for p in ps:
            ls.insert(r.randrange(0, len(ls) + 1), tab(p, r.choice(['', '', 'x = ', 'alpha + ', 'aloof( '])))
        return ls
    res.append(Session('names-startup', tabs(*ps) + use + tabs(*ps[:6]), start=D + F))
    res.append(Session('names-main', tabs(*ps) + use + tabs(*ps[:6]), script=D + F + [main(decl(dr('almost', I, lit(8))), repl(), sh(id_('alpha'), id_('almost')), ret(id_('alpha')))]))
    res.append(Session('names-top', tabs(*ps) + use, script=D + F + [repl(), sh(id_('alpha'))], main=False))
    res.append(Session('names-top-first', tabs(*ps) + [ln(decl(dr('altitude', I)))] + tabs('al', 'alt'), script=D[:2] + [repl(), decl(dr('alas', I)), repl()] + D[2:], main=False))
    # declared one after the other
    ls = []
    for d in D:
        ls += [ln(d)] + tabs(*r.sample(ps, 4)) + tabs('al', 'a', 'be')
    res.append(Session('names-session', ls))
    for j in range(3 if c.quick else 30):
        res.append(Session('names-mixed%d' % j, mixed([ln(d) for d in D], r.choices(ps, k=30))))
        res.append(Session('names-mixed-use%d' % j, mixed(use * 2, r.choices(ps, k=30)), start=D + F))
    # one name is the start of another one, many names
    n = 40 if c.quick else 150
    ls = []
    for i in range(n):
        ls.append(ln(decl(dr('n' * (1 + i % 12) + str(i), I, lit(i)))))
    res.append(Session('names-many', ls + tabs(*['n' * k for k in range(1, 14)], *['nnn%d' % k for k in range(1, 10)], 'nnnn3') + [ln(id_('nnn2'))]))
    # after what isn't complete or right
    res.append(Session('names-bad', [ln(D[0]), tab('al'), bad('x +;'), tab('al'), bad(')'), tab('al', ') '), bad('"abc'), tab('alp'), blank(), tab('alp', '/* '), ln(id_('alpha')), tab('al', 'nope + '), ln(id_('alpha')), bad('int;+'), tab('al', 'int ')] + [ln(id_('alpha'))]))
    return res


def scopes(c):
    """Where the REPL was started: the names of that scope and of those around
    it, of no other one."""
    res = []
    ps = ['v', 'va', 'var', 'varm', 'varb', 'vari', 'varf', 'varg', 'vars', 'f', 'fu', 'fun', 'fun2', 'm', 'varl', 'varp', 'vard']
    base = lambda: [decl(dr('varg', I, lit(1)), dr('varg2', I, lit(2)))]
    G = id_('varg')
    n_ = id_('n')
    ts = tabs(*ps)
    A = ts + [ln(G)]
    res.append(Session('scope-main', A, script=base() + [fndef('fun', I, [('varp', I)], blk(decl(dr('varf', I, lit(1))), ret(id_('varf')))), main(decl(dr('varm', I, lit(2))), blk(decl(dr('varb', I, lit(3))), sh(id_('varb'))), repl(), decl(dr('vard', I)), sh(id_('varm')), ret(lit(0)))]))
    res.append(Session('scope-block', A, script=base() + [main(decl(dr('varm', I, lit(2))), blk(decl(dr('varb', I, lit(3))), blk(decl(dr('vari', I, lit(4)), dr('varg', I, lit(65))), repl(), sh(id_('vari'))), blk(decl(dr('varl', I, lit(4))), sh(id_('varl')))), ret(lit(0)))]))
    # those of the callers aren't visible
    fs = [fndef('fun', I, [('varp', I)], blk(decl(dr('varf', I, lit(1))), decl(dr('vars', I, lit(9)), static=True), repl(), decl(dr('vard', I)), es(inc(id_('vars'))), ret(bin_('+', id_('varf'), id_('varp'))))),
          fndef('fun2', I, [('varp2', I)], blk(decl(dr('varf2', I, lit(5))), blk(decl(dr('varb', I, lit(6))), ret(call('fun', bin_('+', id_('varb'), id_('varf2')))))))]
    res.append(Session('scope-function', A, script=base() + fs + [main(decl(dr('varm', I, lit(2))), sh(call('fun', id_('varm'))), ret(lit(0)))]))
    res.append(Session('scope-functions', A + A[::-1], script=base() + fs + [main(decl(dr('varm', I, lit(2))), for_(decl(dr('varl', I, lit(0))), bin_('<', id_('varl'), lit(2)), inc(id_('varl')), blk(decl(dr('varb2', I, lit(1))), sh(call('fun2', id_('varm'))))), ret(lit(0)))]))
    res.append(Session('scope-loop', A, script=base() + [main(decl(dr('varm', I, lit(2))), for_(decl(dr('varl', I, lit(0))), bin_('<', id_('varl'), lit(1)), inc(id_('varl')), blk(decl(dr('varb', I, lit(1))), repl())), ret(lit(0)))]))
    res.append(Session('scope-after-loop', A, script=base() + [main(decl(dr('varm', I, lit(2))), for_(decl(dr('varl', I, lit(0))), bin_('<', id_('varl'), lit(1)), inc(id_('varl')), blk(decl(dr('varb', I, lit(1))), sh(id_('varb')))), while_(bin_('<', id_('varm'), lit(4)), blk(decl(dr('vari', I, lit(1))), es(inc(id_('varm'))))), repl(), ret(lit(0)))]))
    res.append(Session('scope-recursion', A, script=base() + [fndef('fun', I, [('n', I)], blk(decl(dr('varf', I, n_)), if_(bin_('==', n_, lit(0)), blk(decl(dr('varb', I, lit(1))), repl(), ret(lit(0)))), blk(decl(dr('varl', I, n_)), ret(call('fun', bin_('-', n_, lit(1))))))), main(decl(dr('varm', I, lit(0))), sh(call('fun', lit(3))), ret(lit(0)))]))
    res.append(Session('scope-if', A, script=base() + [main(decl(dr('varm', I, lit(2))), if_(G, repl(), es(lit(0))), ret(lit(4)))]))
    res.append(Session('scope-atexit', A, script=base() + [fndef('fun', b('void'), [], blk(decl(dr('varf', I, lit(1))), repl())), main(decl(dr('varm', I, lit(2))), atexit('fun'), ret(lit(0)))], header=AT))
    # what is declared there, in several REPLs
    res.append(Session('scope-several', [ln(decl(dr('varn', I, lit(5))))] + ts + tabs('varn') + [ln(id_('varn'))], script=base() + [main(decl(dr('varm', I, lit(2))), blk(repl()), repl(), ret(lit(0)))]))
    # with a startup file, which is evaluated in the outermost scope
    res.append(Session('scope-startup', A + [ln(call('fun3', lit(1)))] + tabs('varst', 'fun3', 'fun'), start=[decl(dr('varst', I, lit(11))), fndef('fun3', I, [('varq', I)], blk(decl(dr('varr', I, lit(1))), ret(bin_('+', id_('varq'), id_('varst')))))], script=base() + fs + [main(decl(dr('varm', I, lit(2))), sh(call('fun2', id_('varm'))), ret(lit(0)))]))
    res.append(Session('scope-shadow', tabs('x', 'xx', 'xxx') + [ln(X)], script=[decl(dr('x', I, lit(1)), dr('xx', I, lit(1)))] + [fndef('fun', I, [('x', C_)], blk(blk(decl(dr('xx', C_, lit(66))), decl(dr('xxx', I, lit(67))), repl()), ret(lit(3)))), main(decl(dr('xxxx', I, lit(2))), sh(call('fun', lit(67))), ret(lit(0)))]))
    return res


def members(c):
    res, r = [], c.rng
    inner = sudef('struct', 'in', [('one', I), ('other', C_), ('on', ('a', I, 2))])
    defs = [inner, sudef('union', 'un', [('once', I), ('in', T('in')), ('two', C_)]),
            sudef('struct', 't', [('a', I), ('ab', ('a', T('in'), 2)), ('abc', ('p', T('t'))), ('in', T('in')), ('u', U('un')), ('up', ('p', U('un'))), ('x', ('p', I))]), sufwd('struct fw'), tdef('tt', T('t')), tdef('ptt', ('p', T('t')))]
    ds = [decl(dr('s', T('t')), dr('p', ('p', T('t'))), dr('v', ('a', T('t'), 3))), decl(dr('x', I, lit(0)), dr('i', I, lit(1))), decl(dr('q', ('p', ('p', T('t'))))), decl(dr('un', U('un'))), decl(dr('t2', ('td', 'tt'))), decl(dr('t3', ('td', 'ptt'))), decl(dr('fw', ('p', T('fw')))),
          decl(dr('an', sdef('struct', [('k', I), ('ka', sdef('union', [('kb', I), ('kc', C_)]))])))]
    asgs = [asg(P_, addr(idx(V_, lit(1)))), asg(id_('q'), addr(P_)), asg(id_('t3'), addr(S_)), asg(mem(S_, 'abc'), V_), asg(mem(S_, 'up'), addr(id_('un'))), asg(arrow(P_, 'abc'), addr(S_)), asg(arrow(P_, 'up'), addr(mem(S_, 'u'))), asg(idx(mem(idx(mem(S_, 'ab'), lit(0)), 'on'), lit(0)), lit(1)),
            asg(mem(id_('t2'), 'abc'), addr(id_('t2')))]
    f = [fndef('f', ('p', T('t')), [('k', I)], blk(es(inc(id_('x'))), sh(X), ret(addr(idx(V_, id_('k')))))), fndef('g', ('p', U('un')), [], blk(ret(mem(S_, 'up'))))]
    i_ = id_('i')
    objs = [(S_, '.'), (P_, '->'), (idx(V_, lit(0)), '.'), (idx(V_, i_), '.'), (V_, '->'), (bin_('+', V_, i_), '->'), (deref(P_), '.'), (deref(id_('q')), '->'), (deref(deref(id_('q'))), '.'), (idx(id_('q'), lit(0)), '->'), (mem(S_, 'in'), '.'), (idx(mem(S_, 'ab'), i_), '.'), (mem(S_, 'ab'), '->'),
            (mem(S_, 'abc'), '->'), (mem(S_, 'u'), '.'), (mem(S_, 'up'), '->'), (mem(mem(S_, 'u'), 'in'), '.'), (arrow(P_, 'in'), '.'), (arrow(arrow(P_, 'abc'), 'abc'), '->'), (id_('un'), '.'), (mem(id_('un'), 'in'), '.'), (id_('t2'), '.'), (id_('t3'), '->'), (arrow(id_('t3'), 'u'), '.'), (id_('an'), '.'), (mem(id_('an'), 'ka'), '.'),
            (arrow(mem(id_('t2'), 'abc'), 'abc'), '->'), (idx(V_, arrow(id_('t3'), 'a')), '.') if False else (idx(V_, idx(mem(idx(mem(S_, 'ab'), lit(0)), 'on'), lit(0))), '.'), (addr(S_), '->'), (addr(idx(V_, lit(2))), '->')]
    ps = ['', '', 'a', 'ab', 'abc', 'abcd', 'o', 'on', 'one', 'ot', 'i', 'in', 'u', 'up', 't', 'x', 'z', 'k', 'ka', 'O']
    # the object isn't one that has members
    none = [(X, '.'), (i_, '->'), (P_, '.'), (S_, '->'), (V_, '.'), (idx(V_, lit(0)), '->'), (mem(S_, 'a'), '.'), (mem(S_, 'x'), '->'), (mem(S_, 'x'), '.'), (id_('nope'), '.'), (id_('nope'), '->'), (mem(S_, 'nope'), '.'), (arrow(P_, 'nope'), '->'), (deref(id_('q')), '.'), (lit(1), '.') if False else (id_('q'), '->')]
    texts = ['nope()', 's+', '(s', 's.', 's.in.', '1+', 'nope.nope', 's)', 'p->', 's.a.b', '"s', ')', 'v[', 'v[]', 'x=']
    def cases(objs, n):
        ls = []
        for o, op in objs:
            for p in (ps if not c.quick else r.sample(ps[2:], n) + ['']):
                ls.append(tabm(o, op, p, r.choice(['', '', 'x = ', 'i + ', 'nope + ', '( '])))
        return ls
    for w, o in enumerate([objs[:10], objs[10:20], objs[20:]]):
        ls = cases(o, 5) + [ln(X), ln(mem(S_, 'in')) if False else ln(i_)]
        res.append(Session('members-startup%d' % w, [ln(a) for a in asgs] + ls, start=defs + ds + f))
    res.append(Session('members-session', [ln(d) for d in defs + ds] + [ln(a) for a in asgs] + cases(objs, 1)))
    res.append(Session('members-main', cases(objs, 1) + [ln(X)], script=defs + ds + f + [main(*[es(a) for a in asgs], repl(), sh(X), ret(lit(0)))]))
    res.append(Session('members-local', cases(objs, 1) + [ln(X)], script=defs + [main(*ds, *[es(a) for a in asgs], repl(), sh(X), ret(lit(0)))]))
    # calls, operators with side effects: nothing has happened
    side = [(call('f', i_), '->'), (call('f', inc(i_)), '->'), (call('g'), '->'), (idx(V_, inc(i_)), '.'), (idx(V_, inc(i_, -1, True)), '.'), (inc(P_), '->'), (deref(inc(P_)), '.'), (idx(V_, asg(X, lit(2))), '.'), (asg(P_, V_), '->'), (arrow(call('f', lit(0)), 'in'), '.'), (idx(V_, casg('+', X, lit(1))), '.')]
    st_ = [ln(i_), ln(X), ln(bin_('-', P_, V_)), ln(mem(S_, 'abc'))]
    ls = []
    for o, op in side * (1 if c.quick else 4):
        for p in r.sample(ps, 2) + ['', 'in', 'on']:
            ls.append(tabm(o, op, p))
            if r.random() < .5:
                ls += r.sample(st_, 2)
        ls += st_
    res.append(Session('members-effects', [ln(a) for a in asgs] + ls, start=defs + ds + f))
    res.append(Session('members-effects-main', ls, script=defs + ds + f + [main(*[es(a) for a in asgs], repl(), sh(X, i_), ret(lit(0)))]))
    # what the program has registered isn't called
    bye = fndef('bye', b('void'), [], blk(es(inc(X)), sh(X)))
    res.append(Session('members-atexit', [tabm(S_, '.', 'a'), tabm(S_, '.', 'in'), ln(X), tabx('nope', '') if False else tabm(id_('nope'), '.', 'a'), ln(X)], start=[], script=defs + ds + f + [bye, main(*[es(a) for a in asgs], atexit('bye'), repl(), sh(X), ret(lit(0)))], header=AT))
    # no members, errors
    ls = [ln(a) for a in asgs]
    for o, op in none:
        ls += [tabm(o, op, p) for p in ('', 'a')] + ([ln(i_)] if r.random() < .3 else [])
        if r.random() < .4:
            ls.append(tabm(*r.choice(objs), 'a'))
    res.append(Session('members-none', ls, start=defs + ds + f))
    # more than a name follows
    ls = [ln(a) for a in asgs]
    for o, op in objs if not c.quick else r.sample(objs, 12):
        for p in r.sample(['a-', 'a-a', 'ab[', 'ab[0', 'a+', 'abc-', 'abc-a', 'in)', 'x-', 'abc-in', 'a,', 'a=', 'a;', 'a*', 'up-o', 'up-', 'u-', 'up-x', 'one-', 'on[', 'on-', '1', '-', '(', 'a>', 'abc>'], 5):
            ls.append(tabm(o, op, p))
        if r.random() < .4:
            ls.append(tabm(o, op, 'a'))
    res.append(Session('members-more', ls + [ln(i_)], start=defs + ds + f))
    ls = [ln(a) for a in asgs]
    for t in texts:
        for op in ('.', '->'):
            ls += [tabx(t + op, p) for p in ('', 'a')] + ([ln(i_)] if r.random() < .3 else [])
        if r.random() < .4:
            ls.append(tabm(*r.choice(objs), 'a'))
    res.append(Session('members-wrong', ls, start=defs + ds + f))
    # very many times
    n = 120 if c.quick else 1500
    ls = [ln(a) for a in asgs]
    for k in range(n):
        ls.append(tabm(*r.choice(objs), r.choice(ps)) if r.random() < .8 else tabm(*r.choice(none), 'a'))
    res.append(Session('members-many', ls + [ln(X), tab('t'), ln(i_)], start=defs + ds + f))
    # the members of structures that were declared before and after
    ls = [ln(sudef('struct', 'z%d' % k, [('m%d' % j, r.choice([I, C_, ('p', C_), ('a', I, 2)])) for j in range(k + 1)])) for k in range(6)]
    for k in range(6):
        ls += [ln(decl(dr('z%d' % k, T('z%d' % k)), dr('pz%d' % k, ('p', T('z%d' % k)))))] + [ln(asg(id_('pz%d' % k), addr(id_('z%d' % k))))]
        ls += [tabm(id_('z%d' % j), '.', p) for j in range(k + 1) for p in ('m', 'm%d' % r.randrange(6))] + [tabm(id_('pz%d' % k), '->', 'm'), tab('z'), tab('pz')]
    res.append(Session('members-several', ls))
    return res


WORD = re.compile(r'[A-Za-z]\w*')


def headers(c):
    """Names that headers declare; macros aren't offered."""
    import c16
    e = c16.Env()
    e.h('n.h', e.c('HMACRO', 3), ('st', decl(dr('hvar', I, lit(4)), dr('hvar2', ('p', I)))), ('st', sudef('struct', 'hs', [('hm', I), ('hn', C_)])), ('st', tdef('htype', T('hs'))), ('st', enum('hen', [('HONE', None), ('HTWO', None)])))
    e.h('m.h', ('inc', 'n.h', True), ('st', decl(dr('hother', I, lit(5)))))
    ps = ['h', 'hv', 'hvar', 'H', 'HM', 'HON', 'ht', 'hs', 'hother', 'he', 'hm']
    Ls = lambda h: tabs(*ps) + [incl_(h)] + tabs(*ps) + [ln(id_('hvar')), ln(decl(dr('hz', ('td', 'htype')))), tabm(id_('hz'), '.', ''), tabm(id_('hz'), '.', 'hn'), ln(e.use('HMACRO'))] + tabs(*ps)
    return [e.session('headers', Ls('n.h')), e.session('headers-nested', Ls('m.h')),
            e.session('headers-script', Ls('m.h'), script=[decl(dr('hg', I, lit(1))), main(decl(dr('hl', I, lit(2))), repl(), ret(lit(0)))]),
            e.session('headers-of-script', tabs(*ps) + [ln(id_('hvar')), tabm(id_('hz'), '.', 'h')], script=[incl('n.h'), decl(dr('hz', ('td', 'htype'))), main(decl(dr('hl', I, lit(2))), repl(), ret(lit(0)))])]


def random_session(c, i):
    """Any session, with TAB pressed between its lines."""
    r = c.rng
    s = c15.random_session(c, i)
    s.id = 'tab%d' % i
    ws = sorted(set(WORD.findall(s.start_text() + (s.script_text() if s.script is not None else '') + s.input())))
    ms = [m for x in s.start + (s.script or []) if x.k == 'sudef' for m in x.ms]
    ps = [w[:r.randrange(1, len(w) + 1)] for w in ws if w[0] not in '_']
    ls = []
    objs = []
    for l in s.lines:
        for _ in range(r.choice([0, 1, 2])):
            ls.append(tab(r.choice(ps), r.choice(['', '', 'x = ', '( '])))
        if r.random() < .4:
            n = r.choice(ws)
            ls.append(tabm(r.choice([id_(n), id_(n), idx(id_(n), lit(0))]), r.choice(['.', '.', '->']), r.choice(['', ''] + [m[0][:1] for m in ms])))
        ls.append(l)
    s.lines = ls
    return s


KEY = {'if', 'int', 'char', 'long', 'short', 'unsigned', 'signed', 'struct', 'union', 'enum', 'return', 'while', 'for', 'else', 'break', 'sizeof', 'void', 'static', 'const', 'typedef', 'float', 'double', 'extern', 'include', 'define', 'REPL', 'd', 'f'}


def run(c):
    progs = names(c) + scopes(c) + members(c) + headers(c)
    rnd = [random_session(c, i) for i in range(40 if c.quick else 1500)]
    c.extra['sessions'] = {'systematic': len(progs), 'random': len(rnd), 'lines': sum(len(s.lines) for s in progs + rnd), 'TABs': sum(l.kind == 'tab' for s in progs + rnd for l in s.lines)}
    c.assumptions = ['the terminal is dumb, 4000 columns wide, and readline lists all completions at the first TAB; there are no files in the current directory']
    c.check(progs + rnd)
    some = progs[::2] + rnd[:10 if c.quick else 300]
    for n in (1, 7, 101) if not c.quick else (c.rng.choice([7, 23, 101]),):
        if not c.enough():
            c.check(some, env={'BIC_VERIF_GC': str(n)}, note='with collections every %d allocations: ' % n)
