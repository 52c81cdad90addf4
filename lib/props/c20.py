"""C20: the texts that are programs, the tree that each stands for, and the
place at which any other text is rejected."""
import json, re
import engine, ctext
from engine import Scratch
from num import num

CFG = 'INIT Init\nNEXT Next\nINVARIANT Verdict\nPROPERTY Progress\nCHECK_DEADLOCK FALSE\n'

WORDS = ['auto', 'break', 'case', 'char', 'continue', 'default', 'do', 'double', 'else', 'enum', 'extern', 'float', 'for',
         'goto', 'if', 'int', '_Bool', 'long', 'register', 'return', 'short', 'signed', 'sizeof', 'static', 'struct', 'switch',
         'typedef', 'union', 'unsigned', 'void', 'while']
BINOPS = ['||', '&&', '|', '^', '&', '==', '!=', '<', '>', '<=', '>=', '<<', '>>', '+', '-', '*', '/', '%']
ASSIGNOPS = ['=', '=', '=', '+=', '-=', '/=', '<<=', '>>=', '^=']
OPS = sorted(set(BINOPS + ASSIGNOPS + list('!~?:;,.()[]{}') + ['++', '--', '->', '...']))
NAMES = ['a', 'b', 'c', 'x', 'y', 'f', 'g', 'intx', '_if', 'for1', 'R', 's_t', 'structs', 'do_', 'X9', 'veryLongIdentifierOfManyCharacters_0123456789']
TYPES = ['T', 'U', 'int_t']
BASIC = ['void', 'char', 'short', 'int', 'long', 'float', 'double', 'signed', 'unsigned', '_Bool']
# what the accessors of the properties of a type of tree start with
PREFIX = {'T_INTEGER': 'tINT', 'T_FLOAT': 'tFLOAT', 'T_STRING': 'tSTRING', 'T_IDENTIFIER': 'tID'}
PROPS = ['EXP', 'LHS', 'RHS', 'STR', 'VAL', 'TYPE', 'OBJ', 'IDX', 'MEMBER', 'ID', 'ARGS', 'COND', 'TRUE_STMT', 'FALSE_STMT', 'TRUE_STMTS',
         'ELSE_STMTS', 'STMTS', 'CHAIN', 'NEWTYPE', 'SPECS', 'DECLS', 'DECL', 'SZ', 'DECLARATOR', 'NAME', 'ENUMS', 'INIT', 'AFTER',
         'QUALIFIERS', 'RET_TYPE', 'OFFSET', 'ALIGN', 'EXPANDED', 'BASE_TYPE', 'FN_STMTS']
# what the parser doesn't determine
UNSHOWN = {('T_INTEGER', 'TYPE'), ('T_DECL', 'OFFSET'), ('T_DECL_COMPOUND', 'SZ'), ('T_DECL_COMPOUND', 'ALIGN'), ('T_DECL_COMPOUND', 'EXPANDED')}


# Tokens: (kind, value, how it is written) ---------------------------------------
def tok(s):
    return (s, '', s)


def ident(s):
    return ('ID', s, s)


def integer(r):
    v = r.choice([0, 1, 2, 3, 7, 8, 9, 10, 42, 100, 255, 4096, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807]) if r.random() < .8 else r.randrange(1 << r.randrange(1, 63))
    k = r.random()
    if k < .6:
        return ('INT', num(v), str(v))
    if k < .7 and 32 <= v < 127 and chr(v) not in '\'\\':
        return ('INT', num(v), "'%s'" % chr(v))
    if k < .75:
        c, v = r.choice([('\\n', 10), ('\\t', 9), ("\\'", 39), ('\\\\', 92), ('\\0', 0), ('\\101', 65), ('\\a', 7)])
        return ('INT', num(v), "'%s'" % c)
    s = '0%o' % v if k < .87 else '0x%x' % v if k < .95 else '0x%X' % v
    return ('UINT' if (1 << 31) <= v < (1 << 32) else 'INT', num(v), s)


def real(r):
    s = '%d.%s' % (r.choice([0, 1, 3, 10, 250, 65536]), r.choice(['5', '0', '25', '125', '000', '75', '5000']))
    if float(s) == 0:
        s = '1.5'
    return ('FLOAT', '%.6f' % float(s), s)


def string(r):
    parts = [r.choice([('a', 'a'), ('\\n', '\n'), ('\\"', '"'), ('\\\\', '\\'), (' ', ' '), ('//', '//'), ('/*', '/*'), (';', ';'), ('\\t', '\t'), ("'", "'"), ('%d', '%d'), ('<>', '<>'), ('T', 'T'), ('>', '>'), ('\\101', 'A'), ('\\?', '?')])
             for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
    return ('STR', ''.join(v for _, v in parts), '"' + ''.join(w for w, _ in parts) + '"')


class Grammar:
    """Random sentences of the grammar of scripts."""

    def __init__(self, r, size):
        self.r, self.left = r, size
        self.types = []

    def pick(self, *alts):
        """One of the alternatives; the first ones are small."""
        self.left -= 1
        if self.left <= 0:
            alts = alts[:1]
        return self.r.choice(alts)()

    def some(self, f, sep=None, n=(1, 1, 1, 2, 3)):
        res = f()
        for _ in range(self.r.choice(n) - 1 if self.left > 0 else 0):
            res += ([tok(sep)] if sep else []) + f()
        return res

    def name(self):
        return [ident(self.r.choice(NAMES))]

    # expressions
    def primary(self):
        return self.pick(self.name, lambda: [integer(self.r)], self.name, lambda: [integer(self.r)], lambda: [real(self.r)], lambda: [string(self.r)],
                         lambda: [tok('(')] + self.expr() + [tok(')')])

    def postfix(self):
        return self.pick(self.primary, self.primary, self.primary,
                         lambda: self.postfix() + [tok('['), *self.expr(), tok(']')],
                         lambda: self.postfix() + [tok('('), tok(')')],
                         lambda: self.postfix() + [tok('('), *self.some(self.assign, ','), tok(')')],
                         lambda: self.postfix() + [tok(self.r.choice(['++', '--']))],
                         lambda: self.postfix() + [tok(self.r.choice(['.', '->']))] + self.name())

    def unary(self):
        return self.pick(self.postfix, self.postfix, self.postfix, self.postfix,
                         lambda: [tok(self.r.choice(['++', '--', '!', '&', '*', '~']))] + self.unary(),
                         lambda: [tok('-')] + self.cast(),
                         lambda: [tok('sizeof')] + self.unary(),
                         lambda: [tok('sizeof'), tok('('), *self.typename(), tok(')')])

    def cast(self):
        return self.pick(self.unary, self.unary, self.unary, self.unary, lambda: [tok('(')] + self.typename() + [tok(')')] + self.cast())

    def binary(self):
        res = self.cast()
        while self.left > 0 and self.r.random() < .4:
            res += [tok(self.r.choice(BINOPS))] + self.cast()
        return res

    def conditional(self):
        return self.pick(self.binary, self.binary, self.binary, self.binary, self.binary,
                         lambda: self.binary() + [tok('?')] + self.expr() + [tok(':')] + self.conditional())

    def assign(self):
        return self.pick(self.conditional, self.conditional, lambda: self.unary() + [tok(self.r.choice(ASSIGNOPS))] + self.assign())

    def expr(self):
        return self.some(self.assign, ',', (1, 1, 1, 1, 1, 2, 3))

    # types
    def typespec(self):
        return self.pick(lambda: [tok(self.r.choice(BASIC))], lambda: [tok(self.r.choice(BASIC))], lambda: [tok(self.r.choice(BASIC))],
                         lambda: [ident(self.r.choice(self.types))] if self.types else [tok('int')],
                         self.compound, self.enum)

    def compound(self):
        w = tok(self.r.choice(['struct', 'union']))
        tag = [ident(self.r.choice(NAMES + TYPES))]
        body = lambda: [tok('{')] + self.some(self.member, None, (1, 1, 2, 3)) + [tok('}')]
        return self.pick(lambda: [w] + tag, lambda: [w] + tag, lambda: [w] + tag + body(), lambda: [w] + body())

    def member(self):
        d = lambda: self.pick(self.declarator, self.declarator, self.declarator, lambda: self.declarator() + [tok(':')] + self.conditional(),
                              lambda: [tok(':')] + self.conditional())
        return self.some(self.typespec) + self.pick(lambda: self.some(d, ','), lambda: []) + [tok(';')]

    def enum(self):
        tag = self.name()
        body = lambda: [tok('{')] + self.some(lambda: self.pick(self.name, self.name, lambda: self.name() + [tok('=')] + self.conditional()), ',') + self.r.choice([[], [tok(',')]]) + [tok('}')]
        return self.pick(lambda: [tok('enum')] + tag, lambda: [tok('enum')] + tag + body(), lambda: [tok('enum')] + body())

    def typename(self):
        return self.some(self.typespec) + self.pick(lambda: [], lambda: [], lambda: self.declarator('abstract'))

    def specs(self):
        st = lambda: [tok(self.r.choice(['extern', 'static', 'auto', 'register']))]
        return self.some(lambda: self.pick(self.typespec, self.typespec, self.typespec, self.typespec, st))

    def declarator(self, how='named'):
        stars = [tok('*')] * self.r.choice([0, 0, 0, 1, 1, 2])
        if how == 'either':
            how = self.r.choice(['named', 'abstract'])
        if how == 'abstract' and stars and self.r.random() < .6:
            return stars
        return stars + self.direct(how)

    def direct(self, how):
        suffix = lambda: self.pick(lambda: [tok('('), *self.params(), tok(')')], lambda: [tok('['), *self.assign(), tok(']')], lambda: [tok('['), tok(']')],
                                   lambda: [tok('['), tok('*'), tok(']')], lambda: [tok('('), tok(')')])
        if how == 'named':
            return self.pick(self.name, self.name, self.name, lambda: self.direct(how) + suffix(), lambda: [tok('(')] + self.declarator() + [tok(')')],
                             lambda: self.direct(how) + [tok('('), *self.some(self.name, ','), tok(')')])
        return self.pick(suffix, suffix, lambda: [tok('(')] + self.declarator(how) + [tok(')')], lambda: self.direct(how) + suffix())

    def params(self):
        one = lambda: self.specs() + self.pick(lambda: self.declarator('either'), lambda: self.declarator('either'), lambda: [])
        return self.pick(lambda: [tok('void')], lambda: self.some(one, ','), lambda: self.some(one, ','), lambda: self.some(one, ',') + [tok(','), tok('...')])

    # declarations
    def initializer(self):
        one = lambda: self.pick(self.initializer, self.initializer, lambda: self.some(self.designator) + [tok('=')] + self.initializer())
        return self.pick(self.assign, self.assign, self.assign, lambda: [tok('{')] + self.some(one, ',') + self.r.choice([[], [tok(',')]]) + [tok('}')])

    def designator(self):
        return self.pick(lambda: [tok('.')] + self.name(), lambda: [tok('[')] + self.conditional() + [tok(']')])

    def declaration(self):
        one = lambda: self.pick(self.declarator, self.declarator, lambda: self.declarator() + [tok('=')] + self.initializer())
        return self.pick(lambda: self.specs() + self.some(one, ',') + [tok(';')], lambda: self.specs() + self.some(one, ',') + [tok(';')],
                         lambda: self.specs() + [tok(';')], self.typedef)

    def typedef(self):
        s = self.some(self.typespec)
        s.insert(self.r.choice([0, 0, 0, len(s)]) if len(s) == 1 else 0, tok('typedef'))
        new = [t for t in TYPES if t not in self.types]
        if not new:
            return s + [tok(';')]
        d = self.declarator()
        i = [i for i, t in enumerate(d) if t[0] == 'ID']
        # (the name is the first identifier outside of what follows it)
        t = self.r.choice(new)
        d[i[0]] = ident(t)
        self.types.append(t)
        return s + d + [tok(';')]

    # statements
    def statement(self):
        cond = lambda: [tok('(')] + self.expr() + [tok(')')]
        def if_():
            res = [tok('if')] + cond() + self.statement()
            return res + ([tok('else')] + self.statement() if self.r.random() < .5 else [])
        exps = lambda: self.expr() + [tok(';')]
        return self.pick(exps, exps, exps, lambda: [tok(';')], if_, if_,
                         lambda: [tok('while')] + cond() + self.statement(),
                         lambda: [tok('for'), tok('(')] + self.pick(exps, lambda: [tok(';')], self.declaration) + self.pick(exps, lambda: [tok(';')]) +
                                 self.pick(self.expr, lambda: []) + [tok(')')] + self.statement(),
                         lambda: [tok('return')] + self.pick(self.expr, lambda: []) + [tok(';')], lambda: [tok('break'), tok(';')],
                         self.block)

    def block(self):
        return [tok('{')] + (self.some(lambda: self.pick(self.statement, self.statement, self.declaration)) if self.r.random() < .85 else []) + [tok('}')]

    def function(self):
        d = [tok('*')] * self.r.choice([0, 0, 0, 1, 2]) + self.name() + [tok('(')] + self.pick(lambda: [], self.params, self.params, lambda: self.some(self.name, ',')) + [tok(')')]
        while self.r.random() < .15:
            # it returns a pointer to a function
            d = [tok('('), tok('*')] + d + [tok(')'), tok('(')] + self.pick(lambda: [], self.params) + [tok(')')]
        old = self.some(self.declaration) if self.r.random() < .1 else []
        return self.specs() + d + old + self.block()

    def program(self):
        res = []
        for _ in range(self.r.choice([1, 1, 2, 3, 5])):
            res += self.pick(self.statement, self.statement, self.declaration, self.declaration, self.function)
        return res


def any_token(r, types):
    k = r.random()
    if k < .3:
        return tok(r.choice(WORDS))
    if k < .75:
        return tok(r.choice(OPS))
    if k < .9:
        return ident(r.choice(NAMES + TYPES))
    return r.choice([integer, real, string])(r) if k < .985 else r.choice([tok('@'), tok('`')])


def mutated(ts, r, others):
    ts = list(ts)
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(ts) + 1)
        k = r.random()
        if k < .3:
            del ts[i:i + r.choice([1, 1, 1, 2, 3])]
        elif k < .55:
            ts.insert(i, any_token(r, ()))
        elif k < .75:
            ts[i:i + 1] = [any_token(r, ())]
        elif k < .83 and len(ts) > 1:
            j = r.randrange(len(ts))
            i = min(i, len(ts) - 1)
            ts[i], ts[j] = ts[j], ts[i]
        elif k < .9:
            del ts[i:]
        else:
            o = r.choice(others)
            j = r.randrange(len(o))
            ts[i:i] = o[j:j + r.choice([1, 2, 3, 5])]
    return ts


class Text:
    def __init__(self, id, toks, r, one_per_line=True):
        self.id, self.toks = id, toks
        if one_per_line:
            self.s = '\n'.join(t[2] for t in toks) + '\n'
        else:
            # (white space only where it is needed)
            s, prev = '', ''
            for t in toks:
                k = r.random()
                if k < .5 and prev and (glued(prev, t[2])):
                    s += t[2]
                else:
                    s += r.choice([' ', ' ', ' ', '\n', '\t', '  ', '\n\n\n', ' /* c; */ ', ' // x }\n', '\r\n', '\f']) + t[2]
                prev = t[2]
            self.s = s.lstrip('\r\n\f ') + '\n'
        self.lines = one_per_line

    def text(self):
        return self.s

    def run(self, bic, sc, timeout=20, **kw):
        f = sc.write(self.id + '.c', self.s.encode('latin-1'))
        res = [engine.run([bic] + o + ['-s', f], sc, timeout=timeout) for o in (['-T'], ['-T', '-D'])]
        if res[0].rc == 1:          # (programs aren't run)
            res.append(engine.run([bic, '-s', f], sc, timeout=timeout))
        return res

    def record(self, res):
        return [outcome(x, self.lines, g) for x, g in zip(res, (trees_of_text, trees_of_graph, None))]

    def table(self, got):
        return {'id': self.id, 'toks': [{'k': k, 'v': v} for k, v, _ in self.toks], 'got': got, 'trace': [[g['st']] for g in got]}


WORD = re.compile(r'[A-Za-z0-9_]')


def glued(a, b):
    if WORD.match(a[-1]) and WORD.match(b[0]):
        return False
    if a[-1] in '0123456789.' and b[0] in '0123456789.+-':
        return False
    if re.match(r'\w+$', a) and b[0] in '"\'':       # L"", u'c'
        return False
    return a in ('(', ')', '[', ']', '{', '}', ';', ',', '?', '~') or b in ('(', ')', '[', ']', '{', '}', ';', ',', '?', '~') or bool(WORD.match(a[-1])) != bool(WORD.match(b[0]))


def outcome(res, lines, trees):
    m = re.match(r'^Parser Error: [^\n]*?\.c:(\d+) syntax error, ', res.err)
    if m and res.rc == 1 and res.out == '' and res.err.count('\n') == 1:
        return {'st': 'rejected', 'at': int(m.group(1)) if lines else 0}
    if res.rc == 0 and res.out == '' and trees:
        try:
            return {'st': 'ok', 'trees': trees(res.err)}
        except (ValueError, IndexError, KeyError) as e:
            return {'st': 'bad dump: %r' % (e,)}
    return {'st': 'exit %d %s' % (res.rc, (res.err or res.out)[:100])}


# The textual dump --------------------------------------------------------------
LEX = re.compile(r'\s*(?:(<null>)|<(tree) (\w+)|<(chain)|(>)|(t\w+): |"((?:[^"\\]|\\.)*)"|(-?\d+\.\d+)|(-?\d+)|(\w+))', re.S)


def unquote(s):
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t'}.get(m.group(1), m.group(1)), s, flags=re.S)


def scalar(ty, prop, s):
    if ty == 'T_INTEGER' and prop == 'VAL':
        return num(int(s))
    return s


def prop_of(name):
    for p in sorted(PROPS, key=len, reverse=True):
        if name.endswith('_' + p):
            return p
    raise ValueError(name)


def trees_of_text(s):
    ts = []
    i = 0
    s = s.rstrip()
    while i < len(s):
        m = LEX.match(s, i)
        if not m:
            raise ValueError(s[i:i + 40])
        ts.append(m)
        i = m.end()
    pos = [0]

    def node():
        m = ts[pos[0]]
        pos[0] += 1
        if m.group(1):
            return None
        if m.group(2):
            t = {'type': m.group(3)}
            while not ts[pos[0]].group(5):
                pm = ts[pos[0]]
                if not pm.group(6):
                    raise ValueError(pm.group(0))
                p = prop_of(pm.group(6))
                pos[0] += 1
                add(t, p, node())
            pos[0] += 1
            return t
        if m.group(4):
            of = []
            while not ts[pos[0]].group(5):
                of.append(node())
            pos[0] += 1
            return {'type': 'chain', 'of': of}
        for g, f in ((7, unquote), (8, str), (9, str), (10, str)):
            if m.group(g) is not None:
                return f(m.group(g))
        raise ValueError(m.group(0))

    if not ts or ts[0].group(1) and len(ts) == 1:
        return []
    t = node()
    if pos[0] != len(ts):
        raise ValueError('text after the tree')
    return t['of'] if t and t['type'] == 'chain' else [t]


def add(t, p, v):
    if (t['type'], p) in UNSHOWN or v is None:
        return
    if t['type'] == 'T_FLOAT' and p == 'VAL':
        t['neg'] = v.startswith('-')
        v = v.lstrip('-')
    t[p] = scalar(t['type'], p, v) if isinstance(v, str) else v


# The graph -----------------------------------------------------------------------
DOT = re.compile(r'\s*(?:(digraph \w+ \{|subgraph \w+ \{|\}|compound=true)|(\w+) *-> *(\w+) *\[([^\]]*)\];|(\w+) \[label="((?:[^"\\]|\\.)*)"\];)', re.S)


def trees_of_graph(s):
    i = 0
    labels, edges, nxt = {}, {}, {}
    order = []
    depth = 0
    s = s.rstrip()
    while i < len(s):
        m = DOT.match(s, i)
        if not m:
            raise ValueError(s[i:i + 60])
        i = m.end()
        if m.group(1):
            w = m.group(1)
            depth += 1 if w.endswith('{') else -1 if w == '}' else 0
            if w == '}' and depth == 0 and i < len(s):
                raise ValueError('text after the graph')
        elif m.group(2):
            a, b, at = m.group(2), m.group(3), m.group(4)
            lab = re.search(r'label="(\w+)"', at)
            if lab:
                if edges.setdefault(a, {}).setdefault(lab.group(1), (b, 'color=red' in at)) != (b, 'color=red' in at):
                    raise ValueError('two values of a property')
            elif nxt.setdefault(a, b) != b:
                raise ValueError('two successors')
        else:
            if labels.setdefault(m.group(5), unquote(m.group(6))) != unquote(m.group(6)):
                raise ValueError('two labels of %s: %s %s' % (m.group(5), labels[m.group(5)], m.group(6)))
            order.append(m.group(5))
    if depth:
        raise ValueError('not closed')
    reached = set()

    def node(n):
        reached.add(n)
        ty = labels[n]
        if n not in edges and not re.match(r'T_\w+$', ty):
            return ty
        t = {'type': ty}
        for p, (b, ch) in edges.get(n, {}).items():
            v = chain(b) if ch else node(b) if labels[b].startswith('T_') and b in tree_ids else value(b)
            add(t, p, v)
        return t

    def value(b):
        reached.add(b)
        return labels[b]

    def chain(b):
        of = []
        while b is not None:
            of.append(node(b))
            b = nxt.get(b)
        return {'type': 'chain', 'of': of}

    tree_ids = {n for n in labels if re.match(r'tree_0x[0-9a-f]+$', n)}
    top = [n for n in order if n in tree_ids][:1]
    res = chain(top[0])['of'] if top else []
    if set(labels) - reached:
        raise ValueError('not part of the tree')
    return res


# ------------------------------------------------------------------------------------
def exhaustive(r, n, vocabulary):
    if n == 0:
        yield []
        return
    for ts in exhaustive(r, n - 1, vocabulary):
        for t in vocabulary:
            yield ts + [t]


def run(c):
    r = c.rng
    texts = []
    def add_text(ts, lines=True):
        if ts:
            texts.append(Text('t%d' % len(texts), ts, r, lines))
    valid = [Grammar(r, r.choice([4, 10, 25, 60])).program() for _ in range(300 if c.quick else 4000)]
    valid = [v for v in valid if len(v) < 400]
    for v in valid:
        add_text(v, False)
    for v in [Grammar(r, r.choice([4, 10, 20])).program() for _ in range(100 if c.quick else 1000)]:
        for _ in range(5 if c.quick else 8):
            m = mutated(v, r, valid)
            if len(m) < 300:
                add_text(m)
    # short texts
    vocabulary = [tok(w) for w in WORDS + OPS + ['@']] + [ident('x'), ('INT', [1], '1'), ('FLOAT', '1.500000', '1.5'), ('STR', 'a', '"a"')]
    for t in vocabulary:
        add_text([t])
        add_text([t, tok(';')])
        for u in vocabulary if not c.quick else r.sample(vocabulary, 8):
            add_text([t, u])
    for _ in range(200 if c.quick else 4000):
        add_text([r.choice(vocabulary) for _ in range(r.choice([3, 4, 5]))])
    for pre in ([ident('x'), tok('=')], [tok('int'), ident('x')], [tok('int'), ident('f'), tok('('), tok(')'), tok('{')], [tok('if'), tok('('), ident('x'), tok(')')],
                [tok('struct'), ident('x'), tok('{')], [tok('enum'), tok('{')], [tok('for'), tok('(')], [tok('return')], [tok('typedef'), tok('int'), ident('T'), tok(';'), ident('T')],
                [tok('int'), ident('x'), tok('='), tok('{')], [ident('x'), tok('(')], [ident('x'), tok('[')], [tok('sizeof')], [tok('('), tok('int')], [tok('int'), tok('(')], [tok('int'), ident('f'), tok('(')],
                [ident('x'), tok('?')], [tok('-')], [tok('while'), tok('(')], [tok('int'), ident('a'), tok('[')]):
        for t in vocabulary:
            add_text(pre + [t])
            if not c.quick:
                for u in r.sample(vocabulary, 20):
                    add_text(pre + [t, u])
    with Scratch() as sc:
        res = engine.parallel(lambda p: (p, Runs(p.run(c.bic, sc)), None), texts)
        c.runs += 2 * len(res)
        c.extra['texts'] = len(texts)
        c.validate(res, lambda p: Runs(p.run(c.bic, sc, timeout=60)), module='Syntax', cfg=CFG, var='CASES')


class Runs(list):
    """The results of both runs, for the reports."""
    rc = property(lambda s: s[0].rc)
    out = property(lambda s: s[0].out)
    err = property(lambda s: s[0].err)
