"""Random C programs whose behaviour is defined (most of the time: what the
specification calls undefined is discarded, so this is only about yield).

Every signed value stays within an interval the generator keeps track of."""
import random
from cprog import *

I = b('int')
CAP = 1 << 28                   # no signed intermediate result is larger


class V:                        # a variable the generator may use
    def __init__(self, n, te, lo=0, hi=0, depth=0, ro=False, size=0, target=None, fields=None):
        self.n, self.te, self.lo, self.hi, self.depth, self.ro = n, te, lo, hi, depth, ro
        self.size, self.fields = size, fields
        self.fixed = False      # not to be hidden


def ival(name):
    """The values a variable of a type is kept in."""
    return {'char': (-128, 127), 'uchar': (0, 255), 'short': (-2000, 2000), 'ushort': (0, 65535),
            'int': (-3000, 3000), 'uint': (0, 2 ** 32 - 1), 'long': (-5000, 5000),
            'ulong': (0, 2 ** 64 - 1)}[name]


def rank(t):
    return {'uint': 1, 'long': 2, 'ulong': 3}.get(t, 0)


PROM = ['int', 'uint', 'long', 'ulong']


class E:                        # an expression with its type and interval
    def __init__(self, e, t, lo, hi, fx=False):
        self.e, self.t, self.lo, self.hi, self.fx = e, t, lo, hi, fx


class Gen:
    def __init__(self, rng, types=('int',), feats=(), depth=3):
        self.r = rng
        self.types = list(types)
        self.feats = set(feats)
        self.maxd = depth
        self.cnt = 0
        self.scopes = [[]]      # of V
        self.fns = []           # (name, rt, [param types])
        self.structs = []       # (tag, [(name, type name, array size or 0)])
        self.loop = 0
        self.infn = None
        self.budget = 60
        self.pfn = False        # inside a function without side effects

    def chance(self, p): return self.r.random() < p
    def name(self, p): self.cnt += 1; return '%s%d' % (p, self.cnt)

    # ---------------------------------------------------------- expressions
    def vars(self):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.n not in seen:
                    seen.add(v.n)
                    out.append(v)
        return out

    def conv(self, x, t):
        """The interval of x after its conversion to the promoted type t."""
        if t in ('int', 'long'):
            return x.lo, x.hi
        if x.lo >= 0:
            return x.lo, x.hi
        return 0, 2 ** WIDTH[t] - 1

    def lvalues(self):
        """Scalar objects that can be read: (expression, type, lo, hi, writable)."""
        out = []
        for v in self.vars():
            te = v.te
            rw = not v.ro and not (self.pfn and v in self.scopes[0])
            if te[0] == 'b' and te[1] in WIDTH:
                out.append((lambda v=v: id_(v.n), te[1], v.lo, v.hi, rw))
            elif te[0] == 'a' and te[1][0] == 'b' and te[1][1] in WIDTH:
                out.append((lambda v=v: self.elem(id_(v.n), v.size), te[1][1], v.lo, v.hi, rw))
            elif te[0] == 'p' and te[1][0] == 'b' and te[1][1] in WIDTH:
                out.append((lambda v=v: deref(id_(v.n)) if self.chance(.7) else idx(id_(v.n), lit(0)),
                            te[1][1], v.lo, v.hi, rw))
            elif v.fields:
                for fn, ft, fs in v.fields:
                    lo, hi = ival(ft)

                    def mk(v=v, fn=fn, fs=fs, ptr=te[0] == 'p'):
                        if ptr:
                            m = arrow(id_(v.n), fn) if self.chance(.7) else mem(deref(id_(v.n)), fn)
                        elif v.te[0] == 'a':
                            m = mem(self.elem(id_(v.n), v.size), fn)
                        else:
                            m = mem(id_(v.n), fn)
                        return self.elem(m, fs) if fs else m
                    out.append((mk, ft, lo, hi, rw))
        return out

    def elem(self, a, n):
        """An element of the array a of n (a power of two) elements."""
        i = self.index(n)
        if self.chance(.2) and a.k == 'id':
            return deref(bin_('+', a, i))
        return idx(a, i)

    def index(self, n):
        c = [v for v in self.vars() if v.te[0] == 'b' and v.te[1] in WIDTH and 0 <= v.lo and v.hi < n]
        if c and self.chance(.6):
            return id_(self.r.choice(c).n)
        if self.chance(.3):
            x = self.expr(1)
            return bin_('&', x.e, lit(n - 1))
        return lit(self.r.randrange(n))

    def leaf(self):
        lv = self.lvalues()
        if lv and self.chance(.7):
            mk, t, lo, hi, _ = self.r.choice(lv)
            e = mk()
            p = 'int' if rank(t) == 0 else t
            return E(e, p, lo, hi)
        n = self.r.choice([0, 1, 2, 3, 5, 7, 8, 10, 100, 255, -1, -2, -9, self.r.randrange(-50, 300)])
        return E(lit(n), 'int', n, n)

    def fit(self, x, cap=CAP):
        """Bring a signed value back into a range that is safe."""
        if x.t in ('uint', 'ulong') or (-cap <= x.lo and x.hi <= cap):
            return x
        if self.chance(.5) and x.t == 'int':
            m = self.r.choice([15, 255, 1023])
            return E(bin_('&', x.e, lit(m)), x.t, 0, m, x.fx)
        m = self.r.choice([7, 100, 1000])
        return E(bin_('%', x.e, lit(m)), x.t, -(m - 1), m - 1, x.fx)

    def expr(self, d=None):
        d = self.maxd if d is None else d
        self.budget -= 1
        if d <= 0 or self.budget <= 0 or self.chance(.15):
            return self.leaf()
        k = self.r.random()
        if k < .5:
            return self.arith(d)
        if k < .62:
            a, c = self.expr(d - 1), self.expr(d - 1)
            op = self.r.choice(['<', '>', '<=', '>=', '==', '!='])
            return E(bin_(op, a.e, c.e), 'int', 0, 1, a.fx or c.fx)
        if k < .72:
            a, c = self.expr(d - 1), self.expr(d - 1)
            return E((land if self.chance(.5) else lor)(a.e, c.e), 'int', 0, 1)
        if k < .8:
            c, x, y = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            t = PROM[max(rank(x.t), rank(y.t))]
            if x.t != t:
                x = E(cast(b(t), x.e), t, *self.conv(x, t))
            if y.t != t:
                y = E(cast(b(t), y.e), t, *self.conv(y, t))
            return E(cond(c.e, x.e, y.e), t, min(x.lo, y.lo), max(x.hi, y.hi))
        if k < .9:
            x = self.expr(d - 1)
            op = self.r.choice('-~!')
            if op == '!':
                return E(un('!', x.e), 'int', 0, 1)
            x = self.fit(x)
            if x.t in ('uint', 'ulong'):
                return E(un(op, x.e), x.t, 0, 2 ** WIDTH[x.t] - 1)
            if op == '-':
                return E(un('-', x.e), x.t, -x.hi, -x.lo)
            return E(un('~', x.e), x.t, -x.hi - 1, -x.lo - 1)
        if k < .95 and len(self.types) > 1:
            x = self.expr(d - 1)
            t = self.r.choice(self.types)
            p = 'int' if rank(t) == 0 else t
            lo, hi = -2 ** (WIDTH[t] - 1), 2 ** (WIDTH[t] - 1) - 1
            if not SIGNED[t]:
                lo, hi = 0, 2 ** WIDTH[t] - 1
            if lo <= x.lo and x.hi <= hi:
                lo, hi = x.lo, x.hi
            return E(cast(b(t), x.e), p, lo, hi)
        if self.fns and 'call' in self.feats:
            return self.callexpr(d)
        return self.leaf()

    def callexpr(self, d, impure=False):
        fns = [f for f in self.fns if f[3] or (impure and not self.pfn)]
        if not fns:
            return self.leaf()
        n, rt, ps, pure = self.r.choice(fns)
        args = [self.argument(t, d - 1) for t in ps]
        lo, hi = ival(rt)
        return E(call(n, *args), 'int' if rank(rt) == 0 else rt, lo, hi, True)

    def argument(self, t, d):
        x = self.pure(d)
        return self.into(x, t)

    def pure(self, d):
        f = self.feats
        self.feats = f - {'call'}
        x = self.expr(d)
        self.feats = f
        return x

    def into(self, x, t):
        """An expression whose value is within the interval of the type t."""
        lo, hi = ival(t)
        if not SIGNED[t] or WIDTH[t] == 8:
            return self.fit(x).e    # converts (wraps) without trouble
        if lo <= x.lo and x.hi <= hi:
            return x.e
        if x.t in ('uint', 'ulong'):
            return bin_('%', x.e, lit(1000))
        return bin_('%', self.fit(x).e, lit(min(hi, self.r.choice([7, 100, 1000]))))

    def arith(self, d):
        op = self.r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '+', '-'])
        x, y = self.expr(d - 1), self.expr(d - 1)
        if x.fx and y.fx:           # unspecified order
            y = self.leaf()
        fx = x.fx or y.fx
        if op in ('<<', '>>'):
            n = self.r.randrange(0, 9)
            if op == '<<' and x.t in ('int', 'long') and x.lo < 0:
                x = E(bin_('&', x.e, lit(255)), x.t if x.t == 'long' else 'int', 0, 255, fx)
            if x.t in ('uint', 'ulong'):
                return E(bin_(op, x.e, lit(n)), x.t, 0, 2 ** WIDTH[x.t] - 1, fx)
            x = self.fit(x, 1 << 20)
            if op == '<<':
                return E(bin_(op, x.e, lit(n)), x.t, x.lo << n, x.hi << n, fx)
            return E(bin_(op, x.e, lit(n)), x.t, x.lo >> n, x.hi >> n, fx)
        t = PROM[max(rank(x.t), rank(y.t))]
        uns = t in ('uint', 'ulong')
        if not uns:
            x, y = self.fit(x), self.fit(y)
        if op in '/%':
            if y.lo <= 0 <= y.hi:
                if self.chance(.5):
                    n = self.r.choice([1, 2, 3, 7, 10, -3])
                    y = E(lit(n), 'int', n, n)
                    t = x.t
                    uns = t in ('uint', 'ulong')
                else:
                    y = E(bin_('|', bin_('&', y.e, lit(15)), lit(1)), y.t, 1, 15, y.fx)
            if uns:
                return E(bin_(op, x.e, y.e), t, 0, 2 ** WIDTH[t] - 1, fx)
            m = max(abs(x.lo), abs(x.hi))
            return E(bin_(op, x.e, y.e), t, -m, m, fx)
        if uns:
            return E(bin_(op, x.e, y.e), t, 0, 2 ** WIDTH[t] - 1, fx)
        if op in '&|^':
            m = 1
            while m <= max(abs(x.lo), abs(x.hi), abs(y.lo), abs(y.hi)) + 1:
                m *= 2
            if x.lo >= 0 and y.lo >= 0:
                return E(bin_(op, x.e, y.e), t, 0, m, fx)
            return E(bin_(op, x.e, y.e), t, -m, m, fx)
        if op == '*':
            x, y = self.fit(x, 5000), self.fit(y, 5000)
            c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
            return self.fit(E(bin_(op, x.e, y.e), t, min(c), max(c), fx))
        if op == '+':
            return self.fit(E(bin_(op, x.e, y.e), t, x.lo + y.lo, x.hi + y.hi, fx))
        return self.fit(E(bin_(op, x.e, y.e), t, x.lo - y.hi, x.hi - y.lo, fx))

    # ----------------------------------------------------------- statements
    def shows(self, most=6):
        """A statement that prints some of the state."""
        if self.pfn:
            return self.assign() if any(x[4] for x in self.lvalues()) else empty()
        lv = self.lvalues()
        self.r.shuffle(lv)
        fa = [(FMT[t], mk()) for mk, t, _, _, _ in lv[:self.r.randrange(1, most + 1)]]
        if not fa:
            x = self.pure(2)
            fa = [(FMT[x.t], x.e)]
        return out(*fa)

    def show_all(self):
        fa = []
        for v in self.vars():
            if v.te[0] == 'b' and v.te[1] in WIDTH:
                fa.append((FMT[v.te[1]], id_(v.n)))
            elif v.te[0] == 'a' and v.te[1][0] == 'b':
                fa += [(FMT[v.te[1][1]], idx(id_(v.n), lit(i))) for i in range(v.size)]
            elif v.te[0] == 'p' and v.te[1][0] == 'b' and v.te[1][1] in WIDTH:
                fa.append((FMT[v.te[1][1]], deref(id_(v.n))))
            elif v.fields and v.te[0] != 'a':
                for fn, ft, fs in v.fields:
                    m = arrow(id_(v.n), fn) if v.te[0] == 'p' else mem(id_(v.n), fn)
                    fa += [(FMT[ft], idx(m, lit(i)) if fs else m) for i in range(fs or 1)]
        return [out(*fa[i:i + 12]) for i in range(0, len(fa), 12)]

    def assign(self):
        lv = [x for x in self.lvalues() if x[4]]
        if not lv:
            return empty() if self.pfn else self.shows()
        mk, t, lo, hi, _ = self.r.choice(lv)
        e = mk()
        k = self.r.random()
        if k < .2 and (not SIGNED[t] or WIDTH[t] == 8):
            return es(inc(e, self.r.choice([1, -1]), self.chance(.5)))
        if k < .4 and (not SIGNED[t] or WIDTH[t] == 8):
            op = self.r.choice(['+', '-', '^', '/', '>>'])
            x = self.pure(1)
            if op == '/':
                x = E(lit(self.r.choice([1, 2, 3, 9])), 'int', 1, 9)
            elif op == '>>':
                x = E(lit(self.r.randrange(0, 8)), 'int', 0, 7)
            else:
                x = self.fit(x)
            return es(casg(op, e, x.e))
        if k < .5 and SIGNED[t]:
            n = self.r.choice([1, 2, 3])
            return es(casg(self.r.choice(['/', '>>']), e, lit(n)))
        self.budget = 30
        if self.fns and 'call' in self.feats and self.chance(.3):
            x = self.callexpr(3, True)
            if self.chance(.2):
                return es(x.e)
        else:
            x = self.expr()
        return es(asg(e, self.into(x, t)))

    def decl_scalar(self, shadow=.0, te=None, ro=False, value=None):
        t = te or self.r.choice(self.types)
        here = {v.n for v in self.scopes[-1]}
        names = [v.n for v in self.vars() if v.n not in here and v.te[0] == 'b' and not v.fixed]
        n = self.r.choice(names) if names and self.chance(shadow) else self.name('v')
        lo, hi = ival(t)
        self.budget = 20
        if value is None:
            # the initialiser is evaluated where the new variable is in scope
            saved = self.scopes
            self.scopes = [[v for v in sc if v.n != n] for sc in saved]
            value = self.into(self.pure(2) if self.infn else self.constant(), t)
            self.scopes = saved
        v = V(n, b(t), lo, hi, len(self.scopes), ro)
        self.scopes[-1].append(v)
        return decl(dr(n, b(t), value))

    def constant(self):
        n = self.r.randrange(-100, 300)
        return E(lit(n), 'int', n, n)

    def decl_array(self):
        t = self.r.choice(self.types)
        n = self.name('a')
        size = self.r.choice([2, 4, 8])
        lo, hi = ival(t)
        v = V(n, ('a', b(t), size), lo, hi, len(self.scopes), size=size)
        i = self.name('i')
        init = []
        if self.infn:
            init = [for_(decl(dr(i, I, lit(0))), bin_('<', id_(i), lit(size)), inc(id_(i)),
                         es(asg(idx(id_(n), id_(i)), bin_('-', bin_('*', id_(i), lit(self.r.choice([1, 3, 7]))), lit(self.r.randrange(0, 9))) if SIGNED[t] or 1 else id_(i))))]
        self.scopes[-1].append(v)
        return [decl(dr(n, ('a', b(t), size)))] + init

    def decl_pointer(self):
        """A pointer to something that lives at least as long."""
        c = []
        for v in self.vars():
            if v.ro or (self.pfn and v in self.scopes[0]):
                continue
            if v.te[0] == 'b':
                c.append((addr(id_(v.n)), v.te, v.lo, v.hi, None))
            elif v.te[0] == 'a' and v.te[1][0] == 'b':
                k = self.r.randrange(v.size)
                c.append((self.r.choice([bin_('+', id_(v.n), lit(k)), addr(idx(id_(v.n), lit(k)))]), v.te[1], v.lo, v.hi, None))
            elif v.fields and v.te[0] == 'tag':
                c.append((addr(id_(v.n)), v.te, 0, 0, v.fields))
                fn, ft, fs = self.r.choice(v.fields)
                if not fs:
                    c.append((addr(mem(id_(v.n), fn)), b(ft), *ival(ft), None))
        if not c:
            return self.shows()
        e, te, lo, hi, f = self.r.choice(c)
        n = self.name('p')
        self.scopes[-1].append(V(n, ('p', te), lo, hi, len(self.scopes), fields=f, ro=False))
        return decl(dr(n, ('p', te), e))

    def decl_struct(self):
        tag, ms = self.r.choice(self.structs)
        n = self.name('s')
        te = ('tag', 'struct ' + tag)
        v = V(n, te, fields=ms, depth=len(self.scopes))
        init = []
        if self.infn:
            for fn, ft, fs in ms:
                for i in range(fs or 1):
                    m = mem(id_(n), fn)
                    init.append(es(asg(idx(m, lit(i)) if fs else m, self.into(self.constant(), ft))))
        self.scopes[-1].append(v)
        return [decl(dr(n, te))] + init

    def block(self, n, shadow=.3):
        self.scopes.append([])
        ss = self.stmts(n, shadow)
        self.scopes.pop()
        return blk(*ss)

    def stmts(self, n, shadow=.3):
        ss = []
        for _ in range(n):
            x = self.statement(shadow)
            ss += x if isinstance(x, list) else [x]
        return ss

    def statement(self, shadow=.3):
        f = self.feats
        k = self.r.random()
        d = len(self.scopes)
        if k < .2:
            return self.shows()
        if k < .5:
            return self.assign()
        if k < .6 and 'decl' in f:
            return self.decl_scalar(shadow)
        if k < .65 and 'array' in f:
            return self.decl_array()
        if k < .72 and 'ptr' in f:
            return self.decl_pointer()
        if k < .76 and self.structs:
            return self.decl_struct()
        if k < .86 and 'if' in f and d < 6:
            self.budget = 15
            c = self.expr(2).e
            t = self.body(shadow)
            return if_(c, t, self.body(shadow) if self.chance(.5) else None)
        if k < .93 and 'loop' in f and self.loop < 2 and d < 6:
            return self.loop_stmt(shadow)
        if k < .96 and 'block' in f and d < 6:
            return self.block(self.r.randrange(1, 4), shadow)
        if k < .98 and self.loop and 'break' in f and self.inloop:
            self.budget = 8
            return if_(self.pure(1).e, brk())
        if self.infn and 'ret' in f and k >= .98:
            self.budget = 8
            return if_(self.pure(1).e, self.ret_stmt())
        return self.shows()

    def ret_stmt(self):
        if self.infn == 'void':
            return ret()
        self.budget = 12
        return ret(self.into(self.expr(2), self.infn))

    def body(self, shadow):
        if self.chance(.3):
            return self.shows() if self.chance(.5) else self.assign()
        return self.block(self.r.randrange(1, 3), shadow)

    def loop_stmt(self, shadow):
        self.loop += 1
        il = getattr(self, 'inloop', False)
        self.inloop = True
        n = self.name('i')
        times = self.r.randrange(0, 4)
        form = self.r.randrange(4)
        self.scopes.append([])
        self.scopes[-1].append(V(n, I, 0, max(times, 1), len(self.scopes), ro=True))
        self.scopes[-1][-1].fixed = form in (1, 3)
        if form == 0:
            s = [for_(decl(dr(n, I, lit(0))), bin_('<', id_(n), lit(times)), inc(id_(n), 1, self.chance(.5)), self.body(shadow))]
        elif form == 1:
            bdy = self.block(self.r.randrange(1, 3), shadow)
            bdy.ss.append(es(inc(id_(n))))
            s = [decl(dr(n, I, lit(0))), while_(bin_('<', id_(n), lit(times)), bdy)]
        elif form == 2:
            s = [decl(dr(n, I, lit(times))), while_(inc(id_(n), -1), self.body(shadow))]
            # n is times-1 .. 0 inside, -1 afterwards
        else:
            bdy = self.block(self.r.randrange(1, 3), shadow)
            bdy.ss.insert(0, if_(bin_('>=', id_(n), lit(times)), brk()))
            s = [decl(dr(n, I)), for_(es(asg(id_(n), lit(0))), None, casg('+', id_(n), lit(1)), bdy)]
        self.scopes.pop()
        self.inloop = il
        self.loop -= 1
        if form == 0:
            return s
        return blk(*s)

    def function(self, rt, nparams, nstm, shadow=.3):
        n = self.name('f')
        ps = []
        names = set()
        self.scopes.append([])
        for _ in range(nparams):
            t = self.r.choice(self.types)
            glob = [v.n for v in self.scopes[0] if v.te[0] == 'b' and v.n not in names]
            pn = self.r.choice(glob) if glob and self.chance(shadow * .5) else self.name('q')
            names.add(pn)
            ps.append((pn, b(t)))
            self.scopes[-1].append(V(pn, b(t), *ival(t), depth=2))
        self.infn = rt
        self.pfn = self.chance(.5)
        body = self.block_in(nstm, shadow, rt)
        self.infn = None
        self.scopes.pop()
        self.fns.append((n, rt, [t[1] for _, t in ps], self.pfn))
        self.pfn = False
        return fndef(n, b(rt), ps, body)

    def block_in(self, n, shadow, rt):
        # the body is the same scope as the parameters
        ss = self.stmts(n, shadow)
        if rt != 'void':
            ss.append(self.ret_stmt())
        return blk(*ss)

    def main(self, n, shadow=.3):
        self.scopes.append([])
        self.infn = 'int'
        ss = self.stmts(n, shadow)
        ss += self.show_all()
        self.budget = 8
        ss.append(ret(bin_('&', self.fit(self.pure(2)).e, lit(127))))
        self.infn = None
        self.scopes.pop()
        return fndef('main', I, [], blk(*ss))

    def struct(self, kind='struct'):
        tag = self.name('t')
        ms = []
        for i in range(self.r.randrange(1, 5)):
            t = self.r.choice(self.types)
            ms.append(('m%d' % i, t, self.r.choice([0, 0, 0, 2, 4])))
        self.structs.append((tag, ms))
        return sudef(kind, tag, [(n, ('a', b(t), s) if s else b(t)) for n, t, s in ms])


def program(rng, pid, types=('int',), feats=('decl', 'if', 'loop', 'block', 'break', 'ret', 'call'),
            nglob=2, nfn=2, nstm=8, nparams=3, depth=3, shadow=.3, full=False):
    g = Gen(rng, types, feats, depth)
    top = []
    if 'struct' in feats:
        for _ in range(rng.randrange(1, 3)):
            top.append(g.struct())
    for _ in range(nglob):
        if 'array' in feats and rng.random() < .4:
            top += g.decl_array()
        elif g.structs and rng.random() < .3:
            top += g.decl_struct()
        else:
            top.append(g.decl_scalar())
    for _ in range(nfn):
        rt = rng.choice(list(types))
        top.append(g.function(rt, rng.randrange(0, nparams + 1), rng.randrange(2, nstm), shadow))
    top.append(g.main(nstm, shadow))
    return Program(pid, top, full=full)
