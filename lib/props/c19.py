"""C19: programs with errors are diagnosed where the error is, when it is
reached, and not before."""
from cprog import *
from arith import *
from diag import *
import cgen

I = b('int')
FX, FS, FQ, FP, FD = id_('fx'), id_('fs'), id_('fq'), id_('fp'), id_('fd')
T = lambda n: ('tag', 'struct ' + n)
PRELUDE = [sudef('struct', 'FS', [('fa', I), ('fn', ('p', T('FS'))), ('fc', ('a', b('char'), 3)), ('fl', b('long'))]), sufwd('struct Inc'),
           decl(dr('fx', I, lit(3))), decl(dr('fk', I, lit(0))), decl(dr('fp', ('p', I), addr(FX))), decl(dr('fs', T('FS'))), decl(dr('fq', ('p', T('FS')), addr(FS))),
           decl(dr('fd', b('double'), flt('2.5', 2560))), fndef('fv', b('void'), [('a', I)], blk(es(casg('+', id_('fk'), id_('a'))))),
           fndef('ff', I, [('a', I)], blk(ret(bin_('+', id_('a'), lit(1))))), fndef('fg', I, [], blk(ret(lit(5)))), enum('fe', [('FEA', lit(4)), ('FEB', None)])]

# Expressions that are in error
EXPRS = {
    'undeclared': lambda: id_('nope'), 'member': lambda: mem(FS, 'nope'), 'arrow': lambda: arrow(FQ, 'nope'), 'member-of-int': lambda: mem(FX, 'fa'),
    'arrow-of-int': lambda: arrow(FP, 'fa'), 'member-of-member': lambda: mem(mem(FS, 'fa'), 'fa'), 'member-member': lambda: mem(deref(mem(FS, 'nope')), 'fa'),
    'chain': lambda: arrow(arrow(FQ, 'fn2'), 'fa'), 'deref': lambda: deref(FX), 'deref2': lambda: deref(deref(FP)), 'deref-sum': lambda: deref(bin_('+', FX, lit(1))),
    'index': lambda: idx(FX, lit(1)), 'index-member': lambda: idx(mem(FS, 'fa'), lit(0)), 'index-nope': lambda: idx(mem(FS, 'fc'), id_('nope')), 'call-undeclared': lambda: call('nope', lit(1)),
    'call-undeclared0': lambda: call('nope'), 'call-int': lambda: call('fx', lit(1)), 'few': lambda: call('ff'), 'many': lambda: call('ff', lit(1), FX), 'many0': lambda: call('fg', lit(1)), 'many0-2': lambda: call('fg', FX, FX), 'sizeof': lambda: sze(id_('nope')),
    'argument': lambda: call('ff', id_('nope')), 'deep': lambda: bin_('*', bin_('+', FX, lit(2)), bin_('-', FX, un('-', id_('nope')))), 'cast': lambda: cast(b('char'), id_('nope')),
    'not': lambda: un('!', id_('nope')), 'addr': lambda: deref(addr(id_('nope'))), 'enum-tag': lambda: id_('fe'), 'struct-tag': lambda: id_('FS'), 'label': lambda: bin_('<', id_('nope'), lit(1)),
    'hidden': lambda: id_('a'), 'assign': lambda: asg(id_('nope'), lit(3)), 'assign-member': lambda: asg(mem(FS, 'nope'), lit(3)), 'add-assign': lambda: casg('+', id_('nope'), lit(1)),
    'inc': lambda: inc(id_('nope')), 'pre-inc': lambda: inc(mem(FS, 'nope'), 1, True), 'assign-deref': lambda: asg(deref(FX), lit(1)), 'inc-deref': lambda: inc(deref(FX)), 'constant': lambda: asg(lit(3), lit(4)),
    'inc-constant': lambda: inc(lit(3)), 'dec-constant': lambda: inc(lit(3), -1, True), 'inc-sum': lambda: inc(bin_('+', FX, lit(1))), 'addr-constant': lambda: deref(addr(lit(3))), 'addr-sum': lambda: deref(addr(bin_('+', FX, lit(1)))),
    'assign-rhs': lambda: asg(FX, id_('nope')), 'sub-assign-constant': lambda: casg('-', lit(2), FX),
}
# ... because of what their operands are; where exactly isn't said
EXPRS.update({
    'call-constant': lambda: call(lit(5), lit(1)), 'call-enumerator': lambda: call('FEA'), 'call-struct': lambda: call('fs'), 'call-sum': lambda: call(bin_('+', FX, lit(1)), lit(2)), 'call-member': lambda: call(mem(FS, 'fa')),
    'void': lambda: call('fv', lit(1)), 'void-pointer': lambda: call(deref(addr(id_('fv'))), lit(2)), 'void-cast': lambda: cast(b('void'), inc(id_('fk'))), 'void-sum': lambda: bin_('+', lit(1), call('fv', lit(1))), 'void-less': lambda: bin_('<', call('fv', lit(0)), lit(1)),
    'void-not': lambda: un('!', call('fv', lit(1))), 'void-minus': lambda: un('-', call('fv', lit(1))), 'void-and': lambda: land(lit(1), call('fv', lit(1))), 'void-index': lambda: idx(FP, call('fv', lit(1))), 'void-indexed': lambda: idx(call('fv', lit(1)), lit(1)),
    'void-deref': lambda: deref(call('fv', lit(1))), 'void-arrow': lambda: arrow(call('fv', lit(1)), 'fa'), 'void-shift': lambda: bin_('<<', lit(1), call('fv', lit(1))), 'void-as-pointer': lambda: cast(('p', I), call('fv', lit(1))),
    'struct-sum': lambda: bin_('+', FS, lit(1)), 'struct': lambda: FS, 'struct-cast': lambda: cast(I, FS), 'struct-equal': lambda: bin_('==', FS, FS), 'struct-not': lambda: un('!', FS), 'struct-minus': lambda: un('-', FS), 'struct-or': lambda: lor(FS, lit(1)), 'struct-index': lambda: idx(FP, FS),
    'struct-indexed': lambda: idx(FS, lit(0)), 'struct-deref': lambda: deref(FS), 'struct-cond': lambda: cond(FS, lit(1), lit(2)), 'struct-and': lambda: bin_('&', FS, lit(1)),
    'float-mod': lambda: bin_('%', FD, lit(2)), 'float-shift': lambda: bin_('<<', lit(1), FD), 'float-and': lambda: bin_('&', FD, FX), 'float-or': lambda: bin_('|', lit(1), FD), 'float-xor': lambda: bin_('^', FD, FD), 'float-not': lambda: un('~', FD),
    'float-index': lambda: idx(FP, FD), 'float-indexed': lambda: idx(FD, lit(0)), 'float-deref': lambda: deref(FD), 'float-member': lambda: mem(FD, 'fa'), 'float-pointer': lambda: cast(('p', I), FD), 'pointer-float': lambda: cast(b('double'), FP),
    'pointer-sum-float': lambda: deref(bin_('+', FP, FD)), 'call-float': lambda: call('fd', lit(1)), 'const-mod': lambda: bin_('%', flt('1.5', 1536), lit(2)), 'const-shift': lambda: bin_('>>', flt('1.5', 1536), lit(2)), 'const-index': lambda: idx(FP, flt('1.5', 1536)), 'const-not': lambda: un('~', flt('2.5', 2560)),
})
NAMES = sorted(EXPRS)

# Statements that are in error
STMTS = {
    'redeclared': lambda: blk(decl(dr('z', I, lit(1))), decl(dr('y', I), dr('z', I))), 'twice': lambda: blk(decl(dr('z', I), dr('z', I))), 'redeclared-type': lambda: blk(decl(dr('z', I)), decl(dr('z', b('char')))),
    'incomplete': lambda: blk(decl(dr('z', T('Inc')))), 'unknown-struct': lambda: blk(decl(dr('z', T('Nope')))), 'enumerators': lambda: blk(enum('ez', [('EZ', None), ('EY', lit(3)), ('EZ', None)])), 'incomplete2': lambda: blk(decl(dr('y', I)), decl(dr('z', T('Inc')))),
    'enumerator-object': lambda: blk(decl(dr('EZ', I, lit(1))), enum('ez', [('EY', None), ('EZ', None)])), 'object-enumerator': lambda: blk(enum('ez', [('EY', None), ('EZ', None)]), decl(dr('z', I), dr('EY', I))),
    'extern': lambda: blk(fault('extern int @no_such_symbol;')), 'extern-function': lambda: blk(fault('int no_such_function(int); @no_such_function(3);')), 'extern-array': lambda: blk(fault('extern char @no_such_array[];')),
    'scope': lambda: blk(blk(decl(dr('z', I, lit(1))), out(('d', id_('z')))), out(('d', id_('z')))), 'for-scope': lambda: blk(for_(decl(dr('z', I, lit(0))), bin_('<', id_('z'), lit(2)), inc(id_('z')), out(('d', id_('z')))), es(asg(id_('z'), lit(1)))),
    'later': lambda: blk(es(asg(id_('z'), lit(1))), decl(dr('z', I))), 'itself': lambda: blk(decl(dr('y', I, id_('z')), dr('z', I))), 'static': lambda: blk(decl(dr('z', I, id_('nope')), static=True)),
    'print': lambda: out(('d', FX), ('d', id_('nope'))), 'empty-loop': lambda: for_(None, bin_('>', id_('nope'), lit(0)), None, empty()), 'update': lambda: for_(None, None, asg(id_('nope'), lit(1)), out(('d', FX))),
    'while': lambda: while_(mem(FS, 'nope'), empty()), 'return': lambda: ret(deref(FX)),
}
# Declarations and calls that are in error at the place marked with @
FAULTS = {
    'unsigned2': 'unsigned @unsigned z;', 'signed2': 'signed int @signed z;', 'int2': 'int @int z;', 'long3': 'long long @long z;', 'short2': 'short @short z;', 'float2': 'float @float z;', 'char2': 'char @char z;', 'double2': 'double @double z;', 'void2': 'void @void *z;',
    'int2-pointer': 'int @int *z, y;', 'int2-static': 'static int @int z;', 'unsigned2-long': 'unsigned long @unsigned z;', 'long3-int': 'long int long @long z;', 'unsigned2-const': 'const unsigned const @unsigned z;', 'int2-typedef': 'typedef int @int zt;', 'int2-extern': 'extern int @int z;',
    'int2-for': 'for (int @int z = 0; z < 2; z++) ;', 'int2-sizeof': 'fx = sizeof(int @int);', 'unsigned2-cast': 'fx = (unsigned @unsigned)fx;', 'int2-member': 'struct Z { char a; int @int b; };',
    'signed-unsigned': '@signed unsigned z;', 'short-long': '@short long z;', 'long-short': 'int y; @long short z;', 'char-short': '@char short z;', 'unsigned-double': '@unsigned double z;', 'float-long': '@long float z;', 'void-int': '@void int *z;', 'char-int': '@char int z;', 'unsigned-void': '@unsigned void *z;', 'double-char': '@double char z;',
    'signed-float': '@signed float z;', 'long-char': '@long char z;',
    'member2': 'struct Z { int a; char @a; };', 'member2-list': 'struct Z { int a; char b, *c, @a; };', 'member2-union': 'union Z { int a; struct Y { int a; } @a; };', 'member2-array': 'struct Z { int a[2]; int @a[3]; } z;', 'member2-pointer': 'struct Z { long b; int a; int (*@a)(int); };', 'member2-inner': 'struct Z { int a; struct { int b; char @b; } c; };',
    'member2-hidden': 'struct Z { int a; struct { char @a; }; };', 'member2-hidden-before': 'struct Z { struct { char b, a; }; int @a; } z;', 'member2-hidden-both': 'union Z { struct { int x, y; }; struct { int z, *@y; }; };', 'member2-hidden-deep': 'struct Z { int a; union { long l; struct { char b; short @a; }; }; };',
    'member2-anonymous': 'struct { int a; short *@a; } z;', 'member2-typedef': 'typedef struct { int a; short @a; } Z;', 'member2-sizeof': 'fx = sizeof(struct { int a; short @a; });',
    'struct2': 'struct Z { int a; }; @struct Z { int a; };', 'struct2-object': 'struct Z { int a; } z; @struct Z { char b; } y;', 'union2': 'union Z { int a; }; union Z z; @union Z { char c; int a; };', 'struct2-forward': 'struct Z; struct Z *z; struct Z { int a; }; @struct Z { int a; };', 'struct2-typedef': 'typedef struct Z { int a; } Zt; typedef @struct Z { int a; } Zu;',
    'ext-few': 'int abs(int); @abs();', 'ext-many': 'int abs(int); @abs(1, fx);', 'ext-variadic': '@printf();', 'ext-sum': 'int abs(int); fx = 1 + @abs(1, 2);', 'ext-nested': 'int abs(int); fx = ff(@abs());', 'ext-more': 'double ldexp(double, int); fd = @ldexp(fd);', 'ext-extern': 'extern int abs(int); if (@abs()) fx = 3;', 'ext-pointer': 'int abs(int); int (*z)(int); z = &abs; @z();',
    'pointer-few': 'int (*z)(int); z = &ff; @z();', 'pointer-many': 'int (*z)(int) = &ff; fx = @z(1, 2);', 'pointer-typedef': 'typedef int zf(int); zf *z; z = &ff; @z(1, 2, 3);', 'pointer-deref': 'int (*z)(int); z = &ff; @(*z)();', 'pointer-array': 'int (*z[2])(int); z[1] = &ff; @z[1]();', 'pointer-member': 'struct Z { int (*f)(int, char); } z; @z.f(2);',
    'extern-object-function': 'extern char *optarg; extern int @optarg(int);', 'extern-function-object': 'extern int abs(int); extern int @abs;', 'extern-other': 'extern int optind; extern char *@optind;',
    'size-struct': 'char z@[fs];', 'size-float': 'int y, z@[2.5];', 'size-nope': 'int z[@nope];', 'size-member': 'struct Z { int a; int b[@nope]; };', 'size-typedef': 'typedef int Zt[@nope];', 'size-parameter': 'int z[3], y[sizeof(@nope)];',
    'enum-struct': 'enum { ZA, ZB = @fs };', 'enum-nope': 'enum ez { ZA = 3, ZB = ZA + @nope };', 'enum-float': 'enum { ZA = @2.5 };', 'enum-call': 'enum { ZA = @fv(1) };', 'enum-twice': 'enum { ZA = 1, ZB, @ZA };', 'enum-object': 'int z; enum { @z };',
    'init-struct': 'int z = @fs;', 'init-struct2': 'int y, z = @fs, x;', 'init-float-struct': 'double z = @fs;', 'init-void': 'int z = @fv(1);', 'init-pointer-struct': 'int *z = @fs;', 'init-float-pointer': 'double z = @fp;', 'init-function': 'int z = @ff;', 'function-member': 'ff@.fa;', 'function-inc': 'ff@++;', 'function-assign': 'ff @= fx;', 'function-minus': '@-ff;', 'function-dec': 'fx = @--ff;', 'function-init-float': 'double z = @ff, y;', 'ext-function-assign': 'int abs(int); abs @= 3;',
}
for k_, v_ in FAULTS.items():
    STMTS[k_] = (lambda v: lambda: blk(fault(v)))(v_)


def contexts(name):
    """All uses of an expression that is in error."""
    E = EXPRS[name]
    eff = name in ('assign', 'assign-member', 'add-assign', 'inc', 'pre-inc', 'assign-deref', 'inc-deref', 'constant', 'inc-constant', 'dec-constant', 'inc-sum', 'assign-rhs', 'sub-assign-constant')
    yield es(E())
    yield es(asg(FX, E()))
    yield out(('d', E()))
    yield if_(E(), out(('d', lit(1))), out(('d', lit(2))))
    yield blk(decl(dr('z', I, E())), out(('d', id_('z'))))
    if not name.startswith('void'):     # (there is no value to return)
        yield ret(E())
    if eff:
        return
    yield es(asg(FX, bin_('+', FX, E())))
    yield es(asg(FX, bin_('*', E(), FX)))
    yield es(asg(FX, cond(FX, E(), lit(1))))
    yield es(asg(FX, cond(bin_('==', FX, lit(99)), E(), lit(1))))
    yield es(asg(FX, land(E(), lit(1))))
    yield es(asg(FX, land(lit(0), E())))
    yield es(asg(FX, lor(lit(0), E())))
    yield es(asg(FX, lor(lit(1), E())))
    yield es(comma(asg(FX, lit(9)), E()))
    yield es(asg(FX, call('ff', E())))
    yield es(casg('-', FX, E()))
    yield es(asg(idx(mem(FS, 'fc'), E()), lit(1)))
    yield while_(E(), blk(out(('d', lit(1))), brk()))
    yield for_(None, lit(1), E(), blk(out(('d', lit(1))), es(inc(id_('fk'))), if_(bin_('>', id_('fk'), lit(3)), brk())))
    yield blk(decl(dr('z', I, lit(2)), dr('y', I, bin_('+', id_('z'), E()))))
    yield if_(lit(0), es(E()), out(('d', lit(7))))
    yield for_(es(E()), lit(0), None, empty())


def frame(pid, s, r, where, files=True):
    """s in a program that reaches it."""
    if where == 0:
        body = [fndef('main', I, [], blk(out(('d', lit(10))), s, out(('d', FX)), ret(lit(0))))]
    elif where == 1:
        body = [fndef('one', I, [('n', I)], blk(out(('d', id_('n'))), if_(bin_('==', id_('n'), lit(0)), blk(s, out(('d', FX)))), ret(lit(1)))), fndef('two', I, [('n', I)], blk(if_(bin_('>', id_('n'), lit(0)), ret(call('two', bin_('-', id_('n'), lit(1)))), ret(call('one', id_('n')))))),
                fndef('main', I, [], blk(es(call('one', lit(5))), es(call('two', lit(2))), out(('d', lit(3))), ret(lit(4))))]
    elif where == 2:
        body = [fndef('main', I, [], blk(for_(decl(dr('i', I, lit(0))), bin_('<', id_('i'), lit(4)), inc(id_('i')), blk(out(('d', id_('i'))), if_(bin_('==', id_('i'), lit(2)), s))), out(('d', FX)), ret(lit(4))))]
    else:
        body = [fndef('one', I, [('n', I)], blk(blk(blk(s)), ret(id_('n')))), out(('d', lit(1))), out(('d', call('one', lit(8)))), out(('d', FX))]
        return Diag(pid, PRELUDE + body, main=False, r=r, files=files)
    return Diag(pid, PRELUDE + body, r=r, files=files)


def systematic(c):
    progs, r, n = [], c.rng, 0
    for name in NAMES:
        for i, s in enumerate(contexts(name)):
            for where in ([n % 4] if c.quick else range(4)):
                progs.append(frame('e-%s-%d-%d' % (name, i, where), s, r, where))
                n += 1
    for name in sorted(STMTS):
        for where in range(4):
            progs.append(frame('s-%s-%d' % (name, where), STMTS[name](), r, where))
    return progs


def blocks(x):
    return [n for n in nodes(x) if n.k == 'blk']


def randoms(c, n):
    """Random programs with an error somewhere, which is reached the k-th time,
    or never."""
    progs, r = [], c.rng
    for i in range(n):
        p = cgen.program(r, 'rnd%d' % i, types=INTS if i % 2 else ['int'], feats=('decl', 'if', 'loop', 'block', 'ret', 'call', 'break', 'array', 'struct', 'ptr'), nstm=9, nfn=4, depth=2)
        top = clone(p.top)
        bs = [b_ for f in top if f.k == 'fndef' for b_ in blocks(f)]
        for _ in range(r.randrange(1, 4)):
            b_ = r.choice(bs)
            if r.random() < .3:
                s = STMTS[r.choice(sorted(STMTS))]()
            else:
                s = r.choice(list(contexts(r.choice(NAMES))))
            if r.random() < .7:
                s = if_(bin_('==', inc(id_('fk'), 1, True), lit(r.choice([1, 2, 2, 3, 5, 9]))), s)
            b_.ss.insert(r.randrange(len(b_.ss) + 1), s)
        progs.append(Diag(p.id, PRELUDE + top, r=r))
    return progs


def run(c):
    sy, rnd = systematic(c), randoms(c, 60 if c.quick else 3000)
    c.extra['programs'] = {'systematic': len(sy), 'random': len(rnd), 'kinds of errors': len(EXPRS) + len(STMTS)}
    c.check(sy + rnd)
