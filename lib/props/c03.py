"""C03: every value that is stored, passed, returned or cast is converted to
the destination's type; an assignment has the stored value."""
from cprog import *
from arith import *
import cgen

ALL = INTS + ['schar', 'llong', 'ullong']

I = b('int')


def ftext(sc):
    return '%d.%s' % (sc // 1024, ('%.10f' % ((sc % 1024) / 1024)).split('.')[1])


def floats(c, r):
    """Every pair of a floating point and an integer type, both ways, through
    every kind of destination; and between float and double."""
    P = []
    for tf in ('float', 'double'):
        bits = 24 if tf == 'float' else 53
        F = b(tf)
        for ti in ALL:
            D = b(ti)
            top = [sudef('struct', 's', [('x', b('char')), ('m', D), ('y', b('char')), ('n', F), ('z', b('char'))]),
                   fndef('toint', D, [('p', F)], blk(ret(id_('p')))), fndef('toflt', F, [('p', D)], blk(ret(id_('p')))),
                   fndef('ipar', D, [('p', D)], blk(ret(id_('p')))), fndef('fpar', F, [('p', F)], blk(ret(id_('p'))))]
            body = [decl(dr('f', F), dr('fa', ('a', F, 3))), decl(dr('d', D), dr('da', ('a', D, 3))), decl(dr('s', ('tag', 'struct s')))]
            body += [es(asg(mem(id_('s'), m), lit(k))) for k, m in enumerate('xyz')]
            body += [s for k in range(3) for s in (es(asg(idx(id_('fa'), lit(k)), lit(k + 3))), es(asg(idx(id_('da'), lit(k)), lit(k + 5))))]
            xs = [0, 1, 512, 1023, 1024, 1536, 2047, 100 * 1024 + 768, 127 * 1024 + 1000, 255 * 1024 + 512, 32767 * 1024, 65535 * 1024 + 1]
            xs += [(1 << k) * 1024 for k in (8, 16, 23, 24, 31, 32, 40, 52, 62, 63)] + [((1 << 63) + (1 << 62)) * 1024, ((1 << 64) - (1 << 43)) * 1024]
            xs += [r.getrandbits(r.randrange(1, bits)) for _ in range(4 if c.quick else 30)]
            xs = [x // 16 * 16 for x in xs]         # %f shows multiples of 1/64 exactly
            xs = [x for x in xs if x.bit_length() - (10 if x % 1024 == 0 else 0) <= bits and x // 1024 <= hi(ti)]
            if c.quick:
                xs = r.sample(xs, min(len(xs), 6)) + xs[-1:] + sorted(xs)[-2:]
            for sc in xs:
                f = flt(ftext(sc), sc)
                e = lambda: id_('f') if r.random() < .75 else cast(F, f)
                ss = [es(asg(id_('f'), f))]
                if SIGNED[ti] and sc and r.random() < .4:       # a negative one, without arithmetic on floats
                    ss = [es(asg(id_('f'), lit(-(sc // 1024))))]
                    if (sc // 1024).bit_length() > bits or sc // 1024 > 2 ** 62:
                        continue
                    e = lambda: id_('f')
                ss += [es(asg(id_('d'), e())), out((FMT[ti], id_('d')), (FMT[ti], cast(D, e())), (FMT[ti], call('toint', e())), (FMT[ti], call('ipar', e())))]
                ss += [es(asg(mem(id_('s'), 'm'), e())), es(asg(idx(id_('da'), lit(1)), e())), es(asg(mem(id_('s'), 'n'), e())), es(asg(idx(id_('fa'), lit(1)), e()))]
                ss += [decl(dr('i', D, e()), dr('pi', ('p', D), addr(id_('d')))), es(asg(deref(id_('pi')), e())), out((FMT[ti], id_('i')), (FMT[ti], id_('d')))]
                ss += [out((FMT[ti], mem(id_('s'), 'm')), ('f', mem(id_('s'), 'n')), *[('d', mem(id_('s'), m)) for m in 'xyz']),
                       out(*[(FMT[ti], idx(id_('da'), lit(k))) for k in range(3)] + [('f', idx(id_('fa'), lit(k))) for k in range(3)])]
                ss += [decl(dr('g', b('double'))), es(asg(id_('g'), id_('f'))), out(('f', id_('g')), ('f', call('fpar', id_('f'))))]
                body.append(blk(*ss))
            vs = [v for v in values(ti, True) + ([1 << 63, (1 << 64) - (1 << 43)] if hi(ti) > 1 << 63 else []) if abs(v).bit_length() <= bits or v % (1 << 43) == 0]
            for v in r.sample(vs, min(len(vs), 5)) + vs[:1] + vs[-2:] if c.quick else vs:
                ss = [es(asg(id_('d'), lit_any(v))), es(asg(id_('f'), id_('d'))), out(('f', id_('f')), ('f', cast(F, id_('d'))), ('f', call('toflt', id_('d'))), ('f', call('fpar', id_('d'))))]
                ss += [decl(dr('i', F, id_('d'))), es(asg(idx(id_('fa'), lit(1)), id_('d'))), es(asg(mem(id_('s'), 'n'), id_('d'))),
                       out(('f', id_('i')), ('f', idx(id_('fa'), lit(0))), ('f', idx(id_('fa'), lit(1))), ('f', idx(id_('fa'), lit(2))),
                           ('f', mem(id_('s'), 'n')), ('d', mem(id_('s'), 'y')), ('d', mem(id_('s'), 'z')))]
                body.append(blk(*ss))
            if ti == 'ulong':           # constants beyond the range of long, which are representable exactly
                for v in (1 << 63, (1 << 64) - (1 << 40), (1 << 63) + (1 << 45)):
                    k = lambda: r.choice([lit(v, hex(v), 'hex'), lit(v, oct(v).replace('0o', '0'), 'hex')])
                    body.append(blk(es(asg(id_('f'), k())), es(asg(idx(id_('fa'), lit(1)), k())), es(asg(mem(id_('s'), 'n'), k())), decl(dr('i', F, k())),
                                    out(('f', id_('f')), ('f', id_('i')), ('f', mem(id_('s'), 'n')), ('f', cast(F, k())), ('f', call('fpar', k()))), out(*[('f', idx(id_('fa'), lit(z))) for z in range(3)])))
            P.append(Program('%s-%s' % (tf, ti), top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def voids(c, r):
    """Values that are thrown away; the bytes of string literals."""
    VD, CH = b('void'), b('char')
    P = []
    for i in range(4 if c.quick else 40):
        top = [decl(dr('n', I, lit(0)), dr('g', I, lit(4))), sudef('struct', 's', [('a', ('a', b(r.choice(INTS)), 3)), ('d', b('double'))]), fndef('up', I, [('k', I)], blk(es(casg('+', id_('n'), id_('k'))), ret(id_('n')))), fndef('no', VD, [('k', I)], blk(es(casg('-', id_('n'), id_('k'))))),
               fndef('unused', VD, [('a', I), ('p', ('p', VD))], blk(es(cast(VD, id_('a'))), es(cast(VD, id_('p')))))]
        body = [decl(dr('x', I, lit(3)), dr('p', ('p', I), addr(id_('x')))), decl(dr('s', ('tag', 'struct s'))), decl(dr('d', b('double'), flt('1.5', 1536)))]
        kinds = [lambda: call('up', lit(r.randrange(5))), lambda: call('no', lit(r.randrange(5))), lambda: id_('x'), lambda: inc(id_('x')), lambda: asg(id_('x'), lit(r.randrange(9))), lambda: casg('+', id_('n'), id_('x')), lambda: id_('p'), lambda: deref(id_('p')),
                 lambda: lit(0), lambda: mem(id_('s'), 'a'), lambda: addr(id_('s')), lambda: id_('d'), lambda: flt('2.5', 2560), lambda: st('text'), lambda: bin_('+', id_('x'), call('up', lit(1))), lambda: cast(b('char'), call('up', lit(2))), lambda: cast(VD, call('up', lit(3))),
                 lambda: cond(id_('x'), call('up', lit(5)), call('up', lit(6))), lambda: asg(mem(id_('s'), 'd'), id_('d')), lambda: sze(id_('s')), lambda: addr(id_('no')), lambda: inc(deref(id_('p')), 1, True), lambda: asg(deref(id_('p')), lit(6))]
        for j in range(26):
            e = lambda: cast(VD, r.choice(kinds)())
            k = r.randrange(7)
            body += [es(e())] if k < 3 else [if_(id_('x'), es(e()), es(e()))] if k == 3 else [for_(es(asg(id_('g'), lit(0))), bin_('<', id_('g'), lit(2)), comma(inc(id_('g')), e()), es(e()))] if k == 4 else \
                    [es(comma(e(), call('up', lit(1))))] if k == 5 else [out(('d', comma(e(), id_('n'))))]
            body += [out(('d', id_('n')), ('d', id_('x')))]
        body += [es(call('unused', lit(3), addr(id_('s'))))]
        for j in range(8):
            t = r.choice(['char', 'uchar', 'schar'])
            w = ''.join(r.choice('abXYZ 019~') for _ in range(r.randrange(1, 7)))
            m = r.randrange(len(w) + 1)
            pt = ('p', b(t))
            body += [blk(decl(dr('q', pt, cast(pt, st(w)))), decl(dr('v', ('p', VD), cast(('p', VD), st(w)))), decl(dr('c', ('p', CH))), out(('d', idx(id_('q'), lit(m))), ('d', idx(cast(pt, st(w)), lit(m))), ('d', deref(bin_('+', cast(pt, st(w)), lit(m)))), ('s', cast(('p', CH), st(w))), ('s', cast(('p', CH), id_('v')))),
                         es(asg(id_('c'), cast(('p', CH), id_('q')))), out(('s', id_('c')), ('s', bin_('+', cast(('p', CH), st(w)), lit(m))), ('d', un('!', cast(('p', VD), st(w)))), ('d', cond(cast(('p', VD), st(w)), lit(1), lit(2)))))]
        P.append(Program('voids%d' % i, top + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    return P


def run(c):
    r = c.rng
    progs = []
    n = 0
    rare = [(x, y) for x in ALL for y in ALL if x not in INTS or y not in INTS]
    for ts, td in [(x, y) for x in INTS for y in INTS] + (r.sample(rare, 16) if c.quick else rare):
            vals = values(ts, True)
            r.shuffle(vals)
            vals = vals[:6 if c.quick else 40] + [r.randint(lo(ts), hi(ts)) for _ in range(2 if c.quick else 10)]
            vals += [v for v in (0x1ff, -0x81, 0x18000, 0x1ffffffff, -1, 0x80, 0x8000, 0x80000000) if inr(v, ts)][:5 if c.quick else 9]
            S, D = b(ts), b(td)
            fd = FMT[td]
            top = [sudef('struct', 's', [('x', b('char')), ('m', D), ('y', b('char')), ('w', ('a', D, 3))]),
                   decl(dr('g', D)),
                   fndef('param', D, [('p', D)], blk(out((fd, id_('p'))), es(asg(id_('g'), id_('p'))), ret(id_('g')))),
                   fndef('retn', D, [('p', S)], blk(ret(id_('p')))),
                   fndef('pass', S, [('p', S)], blk(ret(id_('p'))))]
            body = [decl(dr('v', S)), decl(dr('d', D, lit(0)), dr('pd', ('p', D), addr(id_('d'))), dr('a', ('a', D, 3))),
                    decl(dr('st', ('tag', 'struct s'))), decl(dr('k', b('long')))]
            for i in range(3):
                body += [es(asg(idx(id_('a'), lit(i)), lit(5))), es(asg(idx(mem(id_('st'), 'w'), lit(i)), lit(6)))]
            body += [es(asg(mem(id_('st'), 'x'), lit(1))), es(asg(mem(id_('st'), 'y'), lit(2)))]
            for x in vals:
                n += 1
                v = lambda: id_('v') if r.random() < .7 else literal(x, ts)
                q = r.randrange
                ss = [es(asg(id_('v'), lit_any(x)))]
                ss += [es(asg(id_('d'), v())), out((fd, id_('d')), (fd, cast(D, v())), (fd, call('retn', v())))]
                # the value of an assignment has the destination's type
                ss += [es(asg(id_('k'), asg(id_('d'), v()))), out(('ld', id_('k')))]
                ss += [out((fd, asg(idx(id_('a'), lit(1)), v())), (fd, call('param', v())))]
                ss += [es(asg(mem(id_('st'), 'm'), v())), es(asg(deref(id_('pd')), v())),
                       es(asg(idx(mem(id_('st'), 'w'), lit(1)), v()))]
                ss += [out((fd, mem(id_('st'), 'm')), (fd, id_('d')), (fd, idx(mem(id_('st'), 'w'), lit(1))),
                           ('d', mem(id_('st'), 'x')), ('d', mem(id_('st'), 'y')),
                           (fd, idx(id_('a'), lit(0))), (fd, idx(id_('a'), lit(1))), (fd, idx(id_('a'), lit(2))))]
                ss += [decl(dr('i', D, v())), out((fd, id_('i')), ('d', bin_('==', id_('i'), v())),
                       ('d', bin_('<', cast(D, v()), lit(0))), ('d', bin_('==', id_('k'), cast(b('long'), cast(D, v())))))]
                # a conversion on top of another one
                t3 = r.choice(ALL)
                ss += [out((FMT[t3], cast(b(t3), cast(D, v()))), (fd, cast(D, cast(b(t3), v()))))]
                body.append(blk(*ss))
            body.append(ret(lit(0)))
            progs.append(Program('%s-%s' % (ts, td), top + [fndef('main', I, [], blk(*body))]))
    c.extra['conversions'] = n
    c.check(progs)
    # compound assignment and ++/--: computed in the common type, then converted
    progs = []
    n = 0
    COMP = ['+', '-', '/', '<<', '>>', '^']
    for td in INTS:
        for ts in INTS:
            body = [decl(dr('d', b(td))), decl(dr('s', b(ts))), decl(dr('a', ('a', b(td), 3)))]
            body += [es(asg(idx(id_('a'), lit(i)), lit(7 + i))) for i in range(3)]
            fa = []
            for _ in range(10 if c.quick else 80):
                x = r.choice(values(td, True)) if r.random() < .6 else r.randint(lo(td), hi(td))
                y = r.choice(values(ts, True)) if r.random() < .6 else r.randint(lo(ts), hi(ts))
                op = r.choice(COMP)
                if op in ('<<', '>>') and not 0 <= y < 64:
                    y = r.choice([0, 1, 4, 7, 9, 15])
                z = binop(op, x, td, y, ts)
                if z is not None:
                    n += 1
                    body += [es(asg(id_('d'), lit_any(x))), es(asg(id_('s'), lit_any(y)))]
                    if r.random() < .5:
                        body += [out((FMT[td], casg(op, id_('d'), id_('s')))), out((FMT[td], id_('d')))]
                    else:
                        body += [es(asg(idx(id_('a'), lit(1)), id_('d'))), es(casg(op, idx(id_('a'), lit(1)), literal(y, ts))),
                                 out(*[(FMT[td], idx(id_('a'), lit(i))) for i in range(3)])]
            for x in r.sample(values(td, True), 4):
                for d in (1, -1):
                    if WIDTH[td] < 32 or not SIGNED[td] or inr(x + d, td):
                        n += 1
                        body += [es(asg(id_('d'), lit_any(x))), out((FMT[td], inc(id_('d'), d, r.random() < .5))), out((FMT[td], id_('d')))]
            body.append(ret(lit(0)))
            progs.append(Program('comp-%s-%s' % (td, ts), [fndef('main', I, [], blk(*body))]))
    # the type of the value of an assignment, ++ or --: as an operand
    for td in ALL:
        body = [decl(dr('d', b(td))), decl(dr('a', ('a', b(td), 3)), dr('p', ('p', b(td)), id_('a')))]
        for k in range(14 if c.quick else 120):
            x = r.choice(values(td, True))
            lv = r.choice([id_('d'), idx(id_('a'), lit(1)), deref(id_('p'))])
            form = r.randrange(4)
            if form < 2:
                d = r.choice([1, -1])
                if WIDTH[td] >= 32 and SIGNED[td] and not inr(x + d, td):
                    continue
                e, v = inc(lv, d, form == 1), (x if form == 0 else fit(x + d, td))
            elif form == 2:
                v = fit(r.choice(values('long', True)), td)
                e = asg(lv, lit_any(v))
            else:
                y = r.randint(-9, 9)
                op = r.choice('+-^')
                z = binop(op, x, td, y, 'int')
                if z is None:
                    continue
                e, v = casg(op, lv, lit(y)), fit(z[0], td)
            ty = td if form != 0 else td
            n += 1
            op = r.choice(['<', '>', '<=', '>=', '/', '%', '>>', '==', '~', '+'])
            y = r.choice([-1, -2, 3, 7, 2])
            if op == '>>':
                y = abs(y)
            z = unop('~', v, ty) if op == '~' else binop(op, v, ty, y, 'int')
            if z is None:
                continue
            body += [es(asg(lv, lit_any(x))), out((FMT[z[1]], un('~', e) if op == '~' else bin_(op, e, lit(y)))), out((FMT[td], lv))]
        body.append(ret(lit(0)))
        progs.append(Program('type-%s' % td, [fndef('main', I, [], blk(*body))]))
    # sizeof: of types, objects, members, elements
    S = [sudef('struct', 's', [('a', b('char')), ('l', b('long')), ('h', ('a', b('short'), 3))]),
         sudef('union', 'u', [('a', ('a', b('char'), 7)), ('i', I)])]
    body = []
    for t in ALL + ['float', 'double']:
        body.append(blk(decl(dr('x', b(t)), dr('p', ('p', b(t)), addr(id_('x'))), dr('v', ('a', b(t), 5)), dr('q', ('a', ('p', b(t)), 3))),
                        out(('lu', szt(b(t))), ('lu', sze(id_('x'))), ('lu', sze(id_('p'))), ('lu', sze(deref(id_('p')))),
                            ('lu', sze(id_('v'))), ('lu', sze(idx(id_('v'), lit(2)))), ('lu', sze(id_('q'))),
                            ('lu', sze(idx(id_('q'), lit(0)))), ('lu', szt(('p', b(t)))))))
    ST, UT = ('tag', 'struct s'), ('tag', 'union u')
    body.append(blk(decl(dr('s', ST), dr('p', ('p', ST), addr(id_('s'))), dr('v', ('a', ST, 4))), decl(dr('u', UT)),
                    out(('lu', szt(ST)), ('lu', sze(id_('s'))), ('lu', sze(id_('v'))), ('lu', sze(deref(id_('p')))),
                        ('lu', sze(mem(id_('s'), 'a'))), ('lu', sze(mem(id_('s'), 'l'))), ('lu', sze(mem(id_('s'), 'h'))),
                        ('lu', sze(arrow(id_('p'), 'h'))), ('lu', szt(UT)), ('lu', sze(id_('u'))), ('lu', szt(('p', UT))))))
    progs.append(Program('sizeof', S + [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    # floating point: conversions from and to integers, exact values only
    for i in range(8 if c.quick else 60):
        body = [decl(dr('f', b('float')), dr('g', b('float'))), decl(dr('d', b('double'))), decl(dr('i', I)), decl(dr('u', b('uchar'))), decl(dr('l', b('long')))]
        for _ in range(8):
            q = r.choice([0, 1, -1, 3, 100, 255, -7, 65536, 16777215, r.randint(-9999, 9999)])
            w = r.randint(0, 200) * 1024 + r.choice([0, 512, 256, 128, 896])
            txt = '%d.%s' % (w // 1024, ('%.6f' % ((w % 1024) / 1024)).split('.')[1])
            body += [es(asg(id_('i'), lit(q))), es(asg(id_('f'), id_('i'))), es(asg(id_('d'), id_('i'))), es(asg(id_('l'), id_('d'))),
                     es(asg(id_('g'), flt(txt, w))), out(('ld', id_('l')), ('f', id_('f')), ('f', id_('d')), ('f', id_('g'))),
                     es(asg(id_('u'), id_('g'))), es(asg(id_('d'), id_('g'))), out(('d', id_('u')), ('f', id_('d'))),
                     es(asg(id_('f'), flt(txt, w))), es(asg(id_('i'), id_('f'))), out(('d', id_('i')), ('f', id_('f')))]
        progs.append(Program('float%d' % i, [fndef('main', I, [], blk(*body, ret(lit(0))))]))
    progs += floats(c, r) + voids(c, r)
    c.extra['compound'] = n
    c.check(progs)
    c.check([cgen.program(r, 'rand%d' % i, types=INTS, feats=('decl', 'call', 'array', 'struct', 'ptr'), nstm=9, nfn=3, depth=2)
             for i in range(60 if c.quick else 800)])
