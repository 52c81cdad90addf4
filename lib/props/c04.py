"""C04: control flow.  All small combinations of if, else, while, for, break,
return and blocks, with all small behaviours of their conditions; and random
programs."""
import itertools
from cprog import *
import cgen

I = b('int')

# Skeletons: nested tuples.  Every statement prints a number of its own, every
# condition is decided by a script: bit i of the word s0 (a parameter).


def bodies(depth, loop, fn):
    """All statements of a depth; loop: inside a loop, fn: may return."""
    out_ = [('out',), ('empty',)] if depth == 0 else [('out',)]
    if loop:
        out_.append(('brk',))
    out_.append(('ret',))
    if depth == 0:
        return out_
    inner = bodies(depth - 1, loop, fn)
    linner = bodies(depth - 1, True, fn)
    for x in inner:
        out_.append(('if', x))
        out_.append(('seq', x, ('out',)))
        for y in inner:
            out_.append(('ife', x, y))
    for x in linner:
        out_.append(('while', x))
        out_.append(('for', x))
    return out_


class Maker:
    def __init__(self, r, brace):
        self.n = 0
        self.r, self.brace = r, brace
        self.loops = 0

    def num(self):
        self.n += 1
        return self.n

    def c(self):
        # c(k) consumes a bit of the script and prints k
        return call('c', lit(self.num()))

    def sub(self, t):
        s = self.mk(t)
        if s.k == 'blk' or (s.k not in ('multi',) and not self.r.random() < self.brace):
            return s
        return blk(s)

    def mk(self, t):
        k = t[0]
        if k == 'out':
            return out(('d', lit(self.num())))
        if k == 'empty':
            return empty() if self.r.random() < .6 else blk()
        if k == 'brk':
            return brk()
        if k == 'ret':
            return ret(lit(100 + self.num()))
        if k == 'seq':
            return blk(*[self.mk(x) for x in t[1:]])
        if k == 'if':
            return if_(self.c(), self.sub(t[1]))
        if k == 'ife':
            c = self.c()
            return if_(c, self.sub(t[1]), self.sub(t[2]))
        if k == 'while':
            return while_(self.c(), self.sub(t[1]))
        if k == 'for':
            q = self.r.randrange(4)
            i = 'i%d' % self.num()
            if q == 0:      # condition and update print
                return for_(es(self.c()), self.c(), self.c(), self.sub(t[1]))
            if q == 1:
                return for_(decl(dr(i, I, lit(0))), bin_('<', id_(i), lit(2)), inc(id_(i)), self.sub(t[1]))
            if q == 2:      # no condition: bounded by the script
                return for_(None, None, self.c(), blk(if_(un('!', self.c()), brk()), self.mk(t[1])))
            return for_(decl(dr(i, I, lit(3)), dr(i + 'b', I, lit(1))), inc(id_(i), -1),
                        es(self.c()).a, self.sub(t[1]))


def prelude():
    """c(k): prints k, consumes a bit of the script."""
    return [decl(dr('script', I), dr('used', I)),
            fndef('c', I, [('k', I)], blk(
                decl(dr('v', I, cond(bin_('<', id_('used'), lit(30)), bin_('&', bin_('>>', id_('script'), id_('used')), lit(1)), lit(0)))),
                es(inc(id_('used'))),
                out(('d', bin_('*', id_('k'), lit(-1))), ('d', id_('v'))),
                ret(id_('v'))))]


def program(r, pid, shapes, scripts, brace):
    top = prelude()
    body = []
    for n, sh in enumerate(shapes):
        m = Maker(r, brace)
        f = 'f%d' % n
        s = m.mk(sh)
        top.append(fndef(f, I, [], blk(s, out(('d', lit(50))), ret(lit(60)))))
        for sc in scripts:
            body += [es(asg(id_('script'), lit(sc))), es(asg(id_('used'), lit(0))), out(('d', call(f)))]
    return Program(pid, top + [fndef('main', I, [], blk(*body, ret(lit(0))))])


def run(c):
    r = c.rng
    shapes = bodies(2, False, True)
    total = len(shapes)
    # all of depth <= 1, a sample of depth 2 (all in thorough), some of depth 3 and 4
    small = bodies(1, False, True)
    pick = list(small) + (r.sample(shapes, 330) if c.quick else shapes)
    d2 = bodies(2, True, True)

    def rnd(d, loop):
        if d == 0 or r.random() < .1:
            return r.choice([('out',), ('out',), ('empty',), ('ret',) if r.random() < .3 else ('out',)] + ([('brk',)] if loop else []))
        k = r.choice(['if', 'ife', 'ife', 'while', 'for', 'for', 'seq', 'seq'])
        if k in ('while', 'for'):
            return (k, rnd(d - 1, True))
        if k == 'ife':
            return (k, rnd(d - 1, loop), rnd(d - 1, loop))
        if k == 'if':
            return (k, rnd(d - 1, loop))
        return (k,) + tuple(rnd(d - 1, loop) for _ in range(r.randrange(2, 4)))
    deep = [rnd(r.randrange(3, 6), False) for _ in range(150 if c.quick else 2500)]
    c.extra['skeletons'] = {'depth<=1 (all)': len(small), 'depth 2': total if not c.quick else '330 of %d' % total, 'deeper': len(deep)}
    progs = []
    # scripts are finite: once the bits are used up every condition is false
    for i in range(0, len(pick), 12):
        progs.append(program(r, 'sk%d' % (i // 12), pick[i:i + 12], [0, 1, 3, 6] if c.quick else [0, 1, 2, 3, 5, 6, 7, 11, 14], r.random()))
    for i in range(0, len(deep), 10):
        progs.append(program(r, 'deep%d' % (i // 10), deep[i:i + 10], [r.getrandbits(7) for _ in range(3)], r.random()))
    c.check(progs)
    # dangling else, empty statements, loops that don't run, nested breaks,
    # the types of conditions
    conds = []
    for t in INTS:
        for v in ([0, 1, -1, 1 << 8, 1 << 31, 1 << 32] if WIDTH[t] == 64 else [0, 1, 1 << (WIDTH[t] - 1) - 1]):
            conds += [decl(dr('x%d' % len(conds), b(t), lit(v)))]
            x = id_('x%d' % (len(conds) - 1))
            n = len(conds)
            conds += [if_(x, out(('d', lit(n))), out(('d', lit(-n)))),
                      while_(x, blk(out(('d', lit(n))), brk())),
                      for_(None, x, None, blk(out(('d', lit(n + 1))), brk())),
                      out(('d', cond(x, lit(1), lit(2))), ('d', un('!', x)), ('d', land(x, lit(1))), ('d', lor(x, lit(0))))]
    for t in ('float', 'double'):
        for txt, sc in (('0.0', 0), ('0.5', 512), ('1.0', 1024), ('256.0', 262144), ('0.25', 256)):
            for neg in (0, 1):
                v = 'x%d' % len(conds)
                x = id_(v)
                n = len(conds)
                conds += [decl(dr(v, b(t), flt(txt, sc)))]
                if neg:
                    conds += [if_(flt(txt, sc), out(('d', lit(1))), out(('d', lit(2))))]
                conds += [if_(x, out(('d', lit(n))), out(('d', lit(-n)))), while_(x, blk(out(('d', lit(n))), brk())),
                          for_(None, x, None, blk(out(('d', lit(n + 1))), brk())),
                          out(('d', cond(x, lit(1), lit(2))), ('d', un('!', x)), ('d', land(x, lit(1))), ('d', lor(x, lit(0))), ('d', land(lit(1), x)), ('d', lor(lit(0), x)))]
    conds += [decl(dr('p', ('p', I)), dr('k', I)), es(asg(id_('p'), lit(0))), if_(id_('p'), out(('d', lit(7))), out(('d', lit(8)))),
              es(asg(id_('p'), addr(id_('k')))), if_(id_('p'), out(('d', lit(7))), out(('d', lit(8)))),
              es(asg(id_('k'), lit(5))), while_(inc(id_('k'), -1), empty()), out(('d', id_('k'))),
              for_(es(asg(id_('k'), lit(0))), bin_('<', id_('k'), lit(4)), inc(id_('k')), empty()), out(('d', id_('k'))),
              if_(id_('k'), empty(), out(('d', lit(1)))), out(('d', comma(inc(id_('k')), id_('k'))))]
    c.check([Program('conditions', [fndef('main', I, [], blk(*conds, ret(lit(3))))])])
    # exit statuses, from nested statements of main and from the file scope
    progs = []
    for i, v in enumerate([0, 1, 2, 127, 128, 255, 256, 300, -1, 1000]):
        for j, w in enumerate([lambda s: s, lambda s: if_(lit(1), s), lambda s: while_(lit(1), blk(s)),
                               lambda s: for_(None, None, None, blk(blk(s))), lambda s: blk(blk(out(('d', lit(2))), s))]):
            if (i + j) % (3 if c.quick else 1) == 0:
                progs.append(Program('rc%d-%d' % (v, j), [fndef('main', I, [], blk(out(('d', lit(1))), w(ret(lit(v))), out(('d', lit(3))), ret(lit(9))))]))
    for i in range(12 if c.quick else 100):
        m = Maker(r, .4)
        m.r = r
        s = [m.mk(rnd(r.randrange(1, 4), False)) for _ in range(3)]
        progs.append(Program('script%d' % i, prelude() + [es(asg(id_('script'), lit(r.getrandbits(6))))] + s + [out(('d', lit(77)))], main=False))
    c.check(progs)
    c.check([cgen.program(r, 'rand%d' % i, types=['int', 'long', 'uchar'] if i % 2 else ['int'], nstm=12, nfn=2, depth=1)
             for i in range(80 if c.quick else 1000)])
