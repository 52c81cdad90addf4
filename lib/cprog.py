"""Abstract syntax of C programs: builders, a renderer to C text, and the
translation to the node table that spec/CMachine.tla executes."""
from num import num

# ------------------------------------------------------------------ types
# A type in the text of a program: ('b', name[, spelling]), ('td', name),
# ('tag', 'struct s'), ('p', te), ('a', te, n), ('fn', te, [te...])
SPELL = {'char': 'char', 'schar': 'signed char', 'uchar': 'unsigned char', 'short': 'short',
         'ushort': 'unsigned short', 'int': 'int', 'uint': 'unsigned int', 'long': 'long',
         'ulong': 'unsigned long', 'llong': 'long long', 'ullong': 'unsigned long long',
         'float': 'float', 'double': 'double', 'ldouble': 'long double', 'void': 'void'}
WIDTH = {'char': 8, 'schar': 8, 'uchar': 8, 'short': 16, 'ushort': 16, 'int': 32, 'uint': 32,
         'long': 64, 'ulong': 64, 'llong': 64, 'ullong': 64}
SIGNED = {t: not t.startswith('u') for t in WIDTH}
INTS = ['char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']
FMT = {'int': 'd', 'uint': 'u', 'long': 'ld', 'ulong': 'lu', 'llong': 'ld', 'ullong': 'lu',
       'char': 'd', 'schar': 'd', 'uchar': 'd', 'short': 'd', 'ushort': 'd'}


def b(name, spelling=None):
    return ('b', name, spelling or SPELL[name])


def base_of(te):
    while te[0] in ('p', 'a', 'fn'):
        te = te[1]
    return te


_hidden = [0]


def sdef(kind, ms, tag=None):
    """The type that `struct [tag] { ms }' defines where it is written.  A member
    (None, sdef(..)) without a tag is an anonymous one; (None, te) just declares
    what te defines."""
    _hidden[0] += 1
    return ('def', '%s %s' % (kind, tag or '#%d' % _hidden[0]), kind, tag, ms)


def edef(items, tag=None):
    """The type that `enum [tag] { items }' defines where it is written."""
    _hidden[0] += 1
    return ('edef', 'enum %s' % (tag or '#%d' % _hidden[0]), tag, items)


def declare(te, name):
    """The C declaration (without specifiers in front) of name with type te."""
    s, inner = name, 'id'
    while te[0] in ('p', 'a', 'fn'):
        if te[0] == 'p':
            s = '*' + s
            inner = 'p'
        else:
            if inner == 'p':
                s = '(' + s + ')'
            if te[0] == 'a':
                s += '[%s]' % (render(te[2]) if isinstance(te[2], Node) else te[2] or '')
            else:
                s += '(' + (', '.join(type_name(p) for p in te[2]) or 'void') + ')'
            inner = 'post'
        te = te[1]
    return s


def spec_text(te):
    te = base_of(te)
    if te[0] == 'def':
        return '%s%s { %s }' % (te[2], ' ' + te[3] if te[3] else '',
                                ' '.join(members_text(te[4])))
    if te[0] == 'edef':
        return 'enum%s { %s }' % (' ' + te[2] if te[2] else '', enum_text(te[3]))
    return te[2] if te[0] == 'b' else te[1]


def members_text(ms):
    """Consecutive members of the same type that is defined here are declared
    together."""
    res, last = [], None
    for n, te in ms:
        t = base_of(te)
        if t is last and n and t[0] in ('def', 'edef'):
            res[-1] = res[-1][:-1] + ', %s;' % declare(te, n)
        else:
            res.append('%s %s;' % (spec_text(te), declare(te, n)) if n else spec_text(te) + ';')
        last = t if n else None
    return res


def defs_of_all(tes):
    seen, res = [], []
    for te in tes:
        if not any(base_of(te) is t for t in seen):
            seen.append(base_of(te))
            res += defs_of(te)
    return res


def members(ms):
    """Without those that only declare a type."""
    return [(n or '', t) for n, t in ms if n or t[0] == 'def' and not t[3]]


def enum_text(items):
    return ', '.join(n + ('' if i is None else ' = ' + render(i, 3)) for n, i in items)


def defs_of(te):
    """The statements that declare what the type te defines."""
    te = base_of(te)
    if te[0] == 'def':
        return defs_of_all([t for _, t in te[4]]) + [Node('sudef', un=te[2] == 'union', tag=te[1], ms=te[4], pre='')]
    if te[0] == 'edef':
        return [Node('enum', tag=te[1], es=te[3], pre='')]
    return []


def type_name(te):
    d = declare(te, '')
    return spec_text(te) + (' ' + d if d else '')


def te_json(te, flat=None):
    if te[0] == 'b':
        # a spelling of its own is left to the specification
        return ['b', te[1]] if te[2] == SPELL.get(te[1]) else ['sp', te[2].split()]
    if te[0] == 'p':
        return ['p', te_json(te[1], flat)]
    if te[0] == 'a':
        if isinstance(te[2], Node):
            return ['ax', te_json(te[1], flat), flat.e(te[2])]
        return ['a', te_json(te[1], flat), te[2]]
    if te[0] == 'fn':
        return ['fn']
    return ['tag' if te[0] in ('def', 'edef') else te[0], te[1]]


# ------------------------------------------------------------ expressions
class Node:
    def __init__(self, k, **f):
        self.k = k
        self.__dict__.update(f)

    def __repr__(self):
        return render(self) if self.k in LEVEL else '<%s>' % self.k


def lit(v, text=None, base='dec'):
    """A constant.  Negative values are a negated constant."""
    if v < 0:
        if v == -2 ** 31 or v == -2 ** 63:
            return bin_('-', un('-', lit(-v - 1)), lit(1))
        return un('-', lit(-v))
    return Node('lit', v=v, text=text or str(v), b=base)


def flt(text, scaled, ty='double'):
    return Node('flt', v=scaled, text=text)


def num_(text): return Node('num', text=text)      # the specification reads the text
def chr_(text): return Node('chr', text=text)
def strt(text): return Node('str', s=text, text='"' + text + '"', tx=True)


def id_(n): return Node('id', n=n)
def st(s): return Node('str', s=s)
def un(op, a): return Node('un', op=op, a=a)
def bin_(op, a, b): return Node('bin', op=op, a=a, b=b)
def land(a, b): return Node('land', a=a, b=b)
def lor(a, b): return Node('lor', a=a, b=b)
def cond(a, b, c): return Node('cond', a=a, b=b, c=c)
def comma(a, b): return Node('comma', a=a, b=b)
def asg(a, b): return Node('asg', a=a, b=b)
def casg(op, a, b): return Node('casg', op=op, a=a, b=b)
def inc(a, d=1, pre=False): return Node('inc', a=a, d=d, pre=pre)
def cast(te, a): return Node('cast', te=te, a=a)
def szt(te): return Node('szt', te=te)
def sze(a): return Node('sze', a=a)
def addr(a): return Node('addr', a=a)
def deref(a): return Node('deref', a=a)
def idx(a, b): return Node('idx', a=a, b=b)
def mem(a, n): return Node('mem', a=a, n=n)
def arrow(a, n): return Node('arrow', a=a, n=n)


def call(fn, *args):
    return Node('call', fn=id_(fn) if isinstance(fn, str) else fn, args=list(args), ext=False)


def ext(name, model, rt, pt, *args, **kw):
    """A call of an external function with the prototype rt name(pt...)."""
    return Node('call', fn=id_(name), args=list(args), ext=True, f=model, rt=rt, pt=pt,
                sel=kw.get('sel', 1), v=kw.get('v', 0))


def vaarg(te): return Node('vaarg', te=te)         # va_arg(ap, te), only in the functions of a library


LEVEL = {'comma': 1, 'asg': 2, 'casg': 2, 'cond': 3, 'lor': 4, 'land': 5, 'cast': 14, 'un': 15,
         'addr': 15, 'deref': 15, 'sze': 15, 'szt': 15, 'idx': 16, 'mem': 16, 'arrow': 16,
         'call': 16, 'lit': 17, 'flt': 17, 'num': 17, 'chr': 17, 'id': 17, 'str': 17, 'bin': 0, 'inc': 0, 'raw': 17, 'vaarg': 16, 'mac': 16, 'defd': 16}
BINLEVEL = {'|': 6, '^': 7, '&': 8, '==': 9, '!=': 9, '<': 10, '>': 10, '<=': 10, '>=': 10,
            '<<': 11, '>>': 11, '+': 12, '-': 12, '*': 13, '/': 13, '%': 13}


def level(e):
    if e.k == 'bin':
        return BINLEVEL[e.op]
    if e.k == 'inc':
        return 15 if e.pre else 16
    return LEVEL[e.k]


def c_string(s):
    out = ''
    for ch in s:
        o = ord(ch)
        if ch == '\n':
            out += '\\n'
        elif ch in '"\\':
            out += '\\' + ch
        elif 32 <= o < 127:
            out += ch
        else:
            out += '\\%03o' % o
    return '"' + out + '"'


def render(e, lvl=1, full=False):
    """C text of e where an expression of at least the level lvl is needed.
    With full set every operand that isn't primary is parenthesised."""
    r = lambda x, l: render(x, 17 if full and l > 2 else l, full)
    k = e.k
    mk = getattr(e, 'mk', '')           # marks the place of e (see locate.py)
    if k in ('lit', 'flt', 'raw', 'num', 'chr'):
        s = e.text
    elif k == 'id':
        s = mk + e.n
    elif k == 'str':
        s = getattr(e, 'text', None) or c_string(e.s)
    elif k == 'un':
        x = r(e.a, 14 if e.op == '-' else 15)
        s = e.op + (' ' if x.startswith(e.op) else '') + x
    elif k in ('addr', 'deref'):
        op = '&' if k == 'addr' else '*'
        x = r(e.a, 15)
        s = mk + op + (' ' if x.replace(getattr(e.a, 'mk', '~'), '').startswith(op) else '') + x
    elif k == 'bin':
        l = BINLEVEL[e.op]
        s = '%s %s %s' % (r(e.a, l), e.op, r(e.b, l + 1))
    elif k == 'land':
        s = '%s && %s' % (r(e.a, 5), r(e.b, 6))
    elif k == 'lor':
        s = '%s || %s' % (r(e.a, 4), r(e.b, 5))
    elif k == 'cond':
        s = '%s ? %s : %s' % (r(e.a, 4), r(e.b, 1), r(e.c, 3))
    elif k == 'comma':
        s = '%s, %s' % (r(e.a, 1), r(e.b, 2))
    elif k == 'asg':
        s = '%s %s= %s' % (r(e.a, 15), mk, r(e.b, 2))
    elif k == 'casg':
        s = '%s %s%s= %s' % (r(e.a, 15), mk, e.op, r(e.b, 2))
    elif k == 'inc':
        o = '++' if e.d == 1 else '--'
        if e.pre:
            x = r(e.a, 15)
            s = mk + o + (' ' if x[0] in '+-' else '') + x
        else:
            s = r(e.a, 16) + mk + o
    elif k == 'cast':
        s = '(%s)%s' % (type_name(e.te), r(e.a, 14))
    elif k == 'szt':
        s = 'sizeof(%s)' % type_name(e.te)
    elif k == 'sze':
        s = 'sizeof(%s)' % r(e.a, 1)
    elif k == 'idx':
        s = mk + '%s[%s]' % (r(e.a, 16), render(e.b, 1, full))
    elif k == 'mem':
        s = '%s%s.%s' % (r(e.a, 16), mk, e.n)
    elif k == 'arrow':
        s = '%s%s->%s' % (r(e.a, 16), mk, e.n)
    elif k == 'mac':
        s = e.n if e.args is None else '%s(%s)' % (e.n, ', '.join(render(a, 2, full) for a in e.args))
    elif k == 'defd':
        s = 'defined(%s)' % e.n
    elif k == 'vaarg':
        s = 'va_arg(ap, %s)' % type_name(e.te)
    elif k == 'call':
        s = mk + '%s(%s)' % (r(e.fn, 16), ', '.join(render(a, 2, full) for a in e.args))
    else:
        raise ValueError(k)
    return '(' + s + ')' if level(e) < lvl else s


# ------------------------------------------------------------- statements
def es(a): return Node('expr', a=a)
def empty(): return Node('empty')
def blk(*ss): return Node('blk', ss=list(ss))
def if_(c, t, e=None): return Node('if', c=c, t=t, e=e)
def while_(c, s): return Node('while', c=c, s=s)
def for_(i, c, u, s): return Node('for', i=i, c=c, u=u, s=s)
def brk(): return Node('brk')
def ret(a=None): return Node('ret', a=a)
def out(*fa): return Node('out', f=[f for f, _ in fa], a=[a for _, a in fa])
def show(a): return Node('show', a=a)
def decl(*ds, **kw): return Node('decl', ds=list(ds), static=kw.get('static', False), pre=kw.get('pre', ''))
def dr(n, te, i=None): return Node('dr', n=n, te=te, i=i)
def tdef(n, te): return Node('tdef', n=n, te=te)
def raw(text): return Node('rawst', text=text)


def sudef(kind, tag, ms, pre=''):
    """struct/union tag { ms } ; ms is a list of (name, te)."""
    return Node('sudef', un=kind == 'union', tag=kind + ' ' + tag, ms=ms, pre=pre)


def incl(h, ang=True): return Node('incl', h=h, ang=ang)
class Header:
    """items: ('def', Macro), ('undef', name), ('if', text, condition, then,
    else), ('inc', name, in angle brackets), ('once',), ('st', statement),
    ('err',), ('bad', text)."""

    def __init__(self, dir, n, items, eol=True, sys=False):
        self.dir, self.n, self.items, self.eol, self.sys = dir, n, items, eol, sys

    def statements(self, items=None):
        res = []
        for it in self.items if items is None else items:
            if it[0] == 'st':
                res.append(it[1])
            elif it[0] == 'if':
                res += self.statements(it[3]) + self.statements(it[4])
        return res

    def lines(self, items=None):
        ls = []
        for it in self.items if items is None else items:
            k = it[0]
            if k == 'def':
                ls.append(it[1].define())
            elif k == 'undef':
                ls.append('#undef ' + it[1])
            elif k == 'if':
                ls += ['#' + it[1]] + self.lines(it[3]) + (['#else'] + self.lines(it[4]) if it[4] else []) + ['#endif']
            elif k == 'inc':
                ls.append('#include <%s>' % it[1] if it[2] else '#include "%s"' % it[1])
            elif k == 'once':
                ls.append('#pragma once')
            elif k == 'st':
                ls += stmt(it[1])
            elif k == 'err':
                ls.append('#error this header is not for you')
            else:
                ls.append(it[1])
        return ls

    def text(self):
        return '\n'.join(self.lines()) + ('\n' if self.eol else '')

    def table(self, flat, items=None):
        res = []
        for it in self.items if items is None else items:
            k = it[0]
            if k == 'def':
                res.append({'k': k, 'n': it[1].n, 'd': it[1].id})
            elif k == 'undef':
                res.append({'k': k, 'n': it[1]})
            elif k == 'if':
                res.append({'k': k, 'c': flat.e(it[2]), 't': self.table(flat, it[3]), 'e': self.table(flat, it[4])})
            elif k == 'inc':
                res.append({'k': k, 'n': it[1], 'ang': it[2]})
            elif k == 'st':
                res += [{'k': k, 's': i} for i in flat.ss([it[1]])]
            else:
                res.append({'k': k})
        return res


def defd(n): return Node('defd', n=n)
def repl(): return Node('repl')                    # <REPL>;


def group(text, *ss):
    """Statements of the model with a text of their own."""
    return Node('group', text=text if isinstance(text, list) else [text], ss=list(ss))


def sufwd(tag, text=None):
    """A declaration of an incomplete type; it could be part of another one."""
    return Node('sufwd', tag=tag, text=tag + ';' if text is None else text)


def enum(tag, items, pre=''):
    return Node('enum', tag='enum ' + tag, es=items, pre=pre)


def fndef(n, rt, params, body, pre='', va=False):
    return Node('fndef', n=n, rt=rt, params=params, body=body, pre=pre, va=va)


def xfn(n, rt, params, pre='', va=False):
    """The declaration of an external function, which has a name like others."""
    return Node('xfn', n=n, rt=rt, params=params, pre=pre, va=va)


def xref(d, r=None):
    """A declaration in a block of what d, a function or an object of external
    linkage, declares at file scope: the name means that again."""
    ext = d.k == 'decl' or (r is not None and r.random() < .5)
    return Node('xref', n=d.ds[0].n if d.k == 'decl' else d.n, text=stmt_decl(d, extern=ext, names=r is not None and r.random() < .5)[0])


def proto(n, rt, params, pre='', va=False):
    return Node('proto', n=n, rt=rt, params=params, pre=pre, va=va)


def fmt_of(f):
    return "'%" + f + "'" if f in 'sc' else '%' + f


def decl_text(s):
    """Declarators of one declaration share the specifiers."""
    specs = spec_text(s.ds[0].te)
    ds = []
    for d in s.ds:
        assert spec_text(d.te) == specs, (spec_text(d.te), specs)
        t = declare(d.te, d.n)
        if d.i is not None:
            t += ' = ' + render(d.i, 2)
        ds.append(t)
    return '%s%s%s %s;' % (s.pre, 'static ' if s.static and getattr(s, 'text_static', True) else '', specs, ', '.join(ds))


def stmt(s, ind='', full=False):
    """C text (a list of lines) of a statement."""
    nx = ind + '    '
    k = s.k
    r = lambda e, l=1: render(e, l, full)
    sub = lambda t: stmt(t, ind if t.k == 'blk' else nx, full)
    if k == 'expr':
        return [ind + r(s.a) + ';']
    if k == 'show':
        return [ind + r(s.a) + ';']
    if k == 'empty':
        return [ind + ';']
    if k in ('rawst', 'fault'):
        return [ind + s.text]
    if k == 'group':
        return [ind + l for l in s.text]
    if k == 'sufwd':
        return [ind + s.text] if s.text else []
    if k == 'blk':
        return [ind + '{'] + [l for t in s.ss for l in stmt(t, nx, full)] + [ind + '}']
    if k == 'if':
        t = sub(s.t)
        if s.e is not None and dangling(s.t):
            t = [ind + '{'] + stmt(s.t, nx, full) + [ind + '}']
        return ([ind + 'if (%s)' % r(s.c)] + t +
                ([ind + 'else'] + sub(s.e) if s.e is not None else []))
    if k == 'while':
        return [ind + 'while (%s)' % r(s.c)] + sub(s.s)
    if k == 'for':
        i = ';' if s.i is None else stmt(s.i, '', full)[0]
        return [ind + 'for (%s %s; %s)' % (i, '' if s.c is None else r(s.c),
                                           '' if s.u is None else r(s.u))] + sub(s.s)
    if k == 'brk':
        return [ind + 'break;']
    if k == 'repl':
        return [ind + '<REPL>;']
    if k == 'incl':
        return ['#include <%s>' % s.h if s.ang else '#include "%s"' % s.h]
    if k == 'ret':
        return [ind + ('return;' if s.a is None else 'return %s;' % r(s.a))]
    if k == 'out':
        return [ind + 'printf("%s\\n"%s);' % (' '.join(fmt_of(f) for f in s.f) or '-',
                                              ''.join(', ' + render(a, 2, full) for a in s.a))]
    if k == 'decl':
        return [ind + decl_text(s)]
    if k == 'tdef':
        return [ind + 'typedef %s %s;' % (spec_text(s.te), declare(s.te, s.n))]
    if k == 'sudef':
        return [ind + s.pre + s.tag + ' {'] + [nx + t for t in members_text(s.ms)] + [ind + '};']
    if k == 'enum':
        return [ind + s.pre + s.tag + ' {' + enum_text(s.es) + '};']
    if k == 'xref':
        return [ind + s.text]
    if k in ('fndef', 'proto', 'xfn'):
        ps = ', '.join('%s %s' % (spec_text(te), declare(te, n)) for n, te in s.params) or 'void'
        if s.va:
            ps += ', ...'
        head = ind + s.pre + spec_text(s.rt) + ' ' + declare(s.rt, '%s(%s)' % (s.n, ps))
        if k != 'fndef':
            return [head + ';']
        body = stmt(s.body, ind, full)
        if s.va:
            body[1:1] = [nx + 'va_list ap;', nx + 'va_start(ap, %s);' % s.params[-1][0]]
        return [head] + body
    raise ValueError(k)


def dangling(s):
    """Does s end with an if without else (so that a following else is its)?"""
    while True:
        if s.k == 'if':
            if s.e is None:
                return True
            s = s.e
        elif s.k in ('while', 'for'):
            s = s.s
        else:
            return False


PRINTF = 'int printf(const char *, ...);'


class Program:
    """top: the statements of the file scope, in order (fndef, decl, ...)."""

    def __init__(self, id, top, main=True, header=PRINTF, full=False, meta=None):
        self.id, self.top, self.main, self.header, self.full = id, top, main, header, full
        self.meta = meta

    def text(self):
        lines = [self.header] if self.header else []
        for s in self.top:
            lines += stmt(s, '', self.full)
        return '\n'.join(lines) + '\n'

    def table(self, trace):
        return Flat(self).run(trace)


class LibProgram(Program):
    """A program of which a part is a shared library that gcc compiles: the
    statements of `shared' (types) are in both parts, those of `lib' in the
    library only; the script declares what it uses of it."""

    def __init__(self, id, shared, lib, top, main=True, header=PRINTF, declare=None, order=None, opt='-O1', full=False):
        Program.__init__(self, id, shared + lib + top, main, header, full)
        self.shared, self.lib, self.script, self.opt = shared, lib, top, opt
        self._text = None
        # declare(statement): the lines that declare it in the script
        self.declare = declare or (lambda s: stmt_decl(s))

    def text(self):
        if self._text is None:          # (declare() chooses at random)
            lines = [self.header] if self.header else []
            for s in self.shared:
                lines += stmt(s, '', self.full)
            for s in self.lib:
                lines += self.declare(s)
            for s in self.script:
                lines += stmt(s, '', self.full)
            self._text = '\n'.join(lines) + '\n'
        return self._text

    def lib_text(self):
        lines = ['#include <stdarg.h>', 'int printf(const char *, ...);']
        for s in self.shared + self.lib:
            lines += stmt(s)
        return '\n'.join(lines) + '\n'

    def prepare(self, sc):
        """Build the library; the options with which bic finds it."""
        import subprocess
        src = sc.write('%s-lib.c' % self.id, self.lib_text())
        so = sc.path('%s.so' % self.id)
        p = subprocess.run(['gcc', '-shared', '-fPIC', '-w', self.opt, '-fno-builtin', '-fwrapv', '-o', so, src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise NoLibrary(p.stdout.decode('utf-8', 'replace'))
        return ['-l', so]


class NoLibrary(Exception):
    pass


def stmt_decl(s, extern=None, names=True):
    """How a script declares the function or the objects that s defines in a
    library."""
    if s.k == 'fndef':
        if s.pre or s.n.startswith('__builtin'):
            return []
        ps = ', '.join('%s %s' % (spec_text(te), declare(te, n)) if names else type_name(te) for n, te in s.params) or 'void'
        if s.va:
            ps += ', ...'
        return ['%s%s %s;' % ('extern ' if extern else '', spec_text(s.rt), declare(s.rt, '%s(%s)' % (s.n, ps)))]
    if s.k == 'decl' and not s.static:
        return ['extern %s %s;' % (spec_text(s.ds[0].te), ', '.join(declare(d.te, d.n) for d in s.ds))]
    return []


def tag_chars(tag):
    n = tag.split()[1]
    return [] if n.startswith('#') else [ord(c) for c in n]


# What can be in error where it is
PLACED = {'id', 'deref', 'addr', 'idx', 'mem', 'arrow', 'call', 'asg', 'casg', 'inc'}


class Macro:
    """#define n body; or #define n(params) body: body is a function of the
    arguments (nodes). text: the body's text, if it isn't what body says."""
    count = 0

    def __init__(self, n, body, params=None, text=None):
        Macro.count += 1
        self.id, self.n, self.body, self.params, self.text = Macro.count, n, body, params, text

    def define(self):
        if self.params is None:
            t = render(self.body(), 16) if self.text is None else self.text
            return '#define %s %s' % (self.n, t)
        t = render(self.body(*[Node('raw', text='(%s)' % p) for p in self.params]), 16) if self.text is None else self.text
        return '#define %s(%s) %s' % (self.n, ', '.join(self.params), t)


def mac(n, defs, args=None, typed=None, other=None):
    """A use of the macro n, of which defs has the definitions; other: what it
    is while n isn't defined; typed: whether the line is typed (None: as what
    it is part of)."""
    return Node('mac', n=n, defs=defs, args=args, typed=typed, other=other)


class Flat:
    """Flatten a program into the node table of the specification."""

    def __init__(self, prog):
        self.p = prog
        self.nodes, self.fns, self.strs = [], [], []
        self.somewhere = []             # where things are of which the place isn't known
        self.typed = True               # what the macros in definitions of macros and in headers belong to

    def add(self, n):
        self.nodes.append(n)
        return len(self.nodes)

    def fx(self, i):
        return i != 0 and self.nodes[i - 1].get('x', False)

    def e(self, e):
        if e is None:
            return 0
        k = e.k
        n = {'k': k, 'x': False}
        if k in PLACED:
            n['loc'] = getattr(e, 'loc', self.somewhere if k in ('id', 'call') else [])
        if k == 'lit':
            n.update(v=num(e.v), b=e.b)
        elif k == 'flt':
            n.update(v=num(e.v))
        elif k in ('num', 'chr'):
            n.update(tx=[ord(c) for c in e.text])
        elif k == 'id':
            n.update(n=e.n)
        elif k == 'str':
            self.strs.append(([-1] if getattr(e, 'tx', False) else []) + [ord(c) for c in e.s])
            n.update(o=len(self.strs))
        elif k in ('un', 'addr', 'deref', 'mem', 'arrow', 'cast', 'sze'):
            n.update(a=self.e(e.a))
            if k == 'un':
                n.update(op=e.op)
            if k in ('mem', 'arrow'):
                n.update(n=e.n)
            if k == 'cast':
                n.update(te=te_json(e.te, self))
            n['x'] = k != 'sze' and self.fx(n['a'])
        elif k in ('bin', 'land', 'lor', 'comma', 'idx'):
            n.update(a=self.e(e.a), b=self.e(e.b))
            if k == 'bin':
                n.update(op=e.op)
            n['x'] = self.fx(n['a']) or self.fx(n['b'])
        elif k == 'cond':
            n.update(a=self.e(e.a), b=self.e(e.b), c=self.e(e.c))
            n['x'] = self.fx(n['a']) or self.fx(n['b']) or self.fx(n['c'])
        elif k == 'szt':
            n.update(te=te_json(e.te, self))
        elif k == 'vaarg':
            n.update(te=te_json(e.te, self), x=True)
        elif k in ('asg', 'casg'):
            n.update(a=self.e(e.a), b=self.e(e.b), x=True)
            if k == 'casg':
                n.update(op=e.op)
        elif k == 'inc':
            n.update(a=self.e(e.a), d=e.d, pre=e.pre, x=True)
        elif k == 'defd':
            n.update(n=e.n)
        elif k == 'mac':                # every definition of it is an alternative
            before, self.typed = self.typed, self.typed if e.typed is None else e.typed
            alts = [(d, self.e(d.body(*(e.args or ())))) for d in e.defs if d.n == e.n]
            self.typed = before
            name = id_(e.n) if e.other is None else e.other
            n.update(n=e.n, typed=self.typed if e.typed is None else e.typed, alts=[{'d': d.id, 'e': x} for d, x in alts], id=self.e(name))
            n['x'] = any(self.fx(x['e']) for x in n['alts']) or self.fx(n['id'])
        elif k == 'call':
            n.update(fn=self.e(e.fn), args=[self.e(a) for a in e.args], ext=e.ext, x=True)
            if e.ext:
                n.update(f=e.f, rt=te_json(e.rt, self), pt=[te_json(t, self) for t in e.pt], sel=e.sel, v=num(e.v))
        else:
            raise ValueError(k)
        return self.add(n)

    def s(self, s):
        if s is None:
            return 0
        k = s.k
        n = {'k': k}
        if k in ('expr', 'show', 'ret'):
            n.update(a=self.e(s.a))
        elif k in ('empty', 'brk', 'repl'):
            pass
        elif k == 'blk':
            n.update(ss=self.ss(s.ss))
        elif k == 'if':
            n.update(c=self.e(s.c), t=self.s(s.t), e=self.s(s.e))
        elif k == 'while':
            n.update(c=self.e(s.c), s=self.s(s.s))
        elif k == 'for':
            n.update(i=self.s(s.i), c=self.e(s.c), u=self.e(s.u), s=self.s(s.s))
        elif k == 'out':
            n.update(f=s.f, a=[self.e(a) for a in s.a])
        elif k == 'decl':
            n.update(static=s.static, ds=[{'n': d.n, 'te': te_json(d.te, self), 'i': self.e(d.i), 'loc': getattr(d, 'loc', [0, 0])} for d in s.ds])
        elif k == 'tdef':
            n.update(n=s.n, te=te_json(s.te, self))
        elif k == 'sudef':
            n.update(un=s.un, tag=s.tag, tagc=tag_chars(s.tag), ms=[{'n': m, 'te': te_json(te, self)} for m, te in members(s.ms)])
        elif k == 'sufwd':
            n.update(tag=s.tag, tagc=tag_chars(s.tag))
        elif k == 'enum':
            n.update(tag=s.tag, es=[{'n': m, 'i': self.e(i), 'loc': l} for (m, i), l in zip(s.es, getattr(s, 'locs', [[]] * len(s.es)))])
        elif k == 'fndef':
            f = {'n': s.n, 'rt': te_json(s.rt, self), 'va': s.va,
                 'params': [{'n': m, 'te': te_json(te, self), 'loc': l} for (m, te), l in zip(s.params, getattr(s, 'plocs', [[0, 0]] * len(s.params)))],
                 'loc': getattr(s, 'loc', [0, 0])}
            self.fns.append(f)
            i = len(self.fns)
            f['body'] = self.s(s.body)
            n.update(n=s.n, f=i)
        elif k == 'fault':
            n.update(loc=s.loc)
        elif k == 'incl':
            n.update(h=s.h, ang=s.ang)
        elif k == 'xfn':
            n.update(n=s.n, loc=getattr(s, 'loc', [0, 0]))
        elif k == 'xref':
            n.update(n=s.n)
        elif k in ('proto', 'rawst'):
            return 0
        else:
            raise ValueError(k)
        return self.add(n)

    def ss(self, ss):
        """A list of statements."""
        res = []
        for s in ss:
            if s.k == 'group':
                res += self.ss(s.ss)
                continue
            tes = {'decl': lambda: [d.te for d in s.ds[:1]], 'tdef': lambda: [s.te], 'sudef': lambda: [t for _, t in s.ms]}
            res += [self.s(d) for d in defs_of_all(tes.get(s.k, lambda: [])())]
            res.append(self.s(s))
        return [i for i in res if i]

    def run(self, trace):
        top = self.ss(self.p.top)
        main = 0
        if self.p.main:
            main = [i + 1 for i, f in enumerate(self.fns) if f['n'] == 'main'][0]
        return {'id': self.p.id, 'nodes': self.nodes, 'fns': self.fns, 'strs': self.strs,
                'top': top, 'main': main, 'trace': trace, 'repl': False}
