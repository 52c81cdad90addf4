"""Programs with errors: where everything is written, in several files, and
what their diagnostics say."""
import os, re
import engine
from cprog import *
from num import num

MARK = re.compile(r'__M(\d+)_')
KINDS = PLACED | {'dr', 'fault'}


def clone(x):
    """A copy in which no node occurs twice."""
    if isinstance(x, Node):
        n = Node(x.k)
        n.__dict__.update({k: clone(v) for k, v in x.__dict__.items()})
        return n
    if isinstance(x, list):
        return [clone(y) for y in x]
    if isinstance(x, tuple):
        return tuple(clone(y) for y in x)
    return x


def nodes(x):
    if isinstance(x, Node):
        yield x
        x = list(x.__dict__.values())
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from nodes(y)


def fault(text):
    """A statement that is in error at the place marked with @."""
    return Node('fault', text=text)


class Diag(Program):
    """A program in several files. layout(r): how its text is divided."""

    def __init__(self, id, top, main=True, r=None, files=True, space=True):
        Program.__init__(self, id, clone(top), main)
        self.names = []             # of the files, 1 is the script
        self.opts = []
        self.content = {}
        self.places = {}
        self.marks = 0
        self.marked = {}
        for n in nodes(self.top):
            if n.k in KINDS:
                n.mk = self.mark(n, 'loc')
            if n.k == 'dr':
                n.n_, n.n = n.n, n.mk + n.n
            elif n.k == 'fault':
                n.text = n.text.replace('@', n.mk)
            elif n.k == 'enum':
                n.es_, n.es = n.es, [(self.mark((n, i), 'enum') + m, e) for i, (m, e) in enumerate(n.es)]
                n.locs = [[] for _ in n.es]
        self.build(self.top, 'script', r if files else None, r if space else None, 0)
        for n in nodes(self.top):
            if n.k == 'dr':
                n.n = n.n_
            elif n.k == 'enum':
                n.es = n.es_

    def mark(self, what, kind):
        self.marks += 1
        self.marked[self.marks] = (what, kind)
        return '__M%d_' % self.marks

    def file(self, name):
        self.names.append(name)
        return len(self.names)

    def build(self, ss, name, r, space, depth):
        """Write a file that contains the statements."""
        cur = self.file(name)
        lines, no = [], 1           # no: the number of the next line
        def put(t, where=True):
            nonlocal no
            for l in t.split('\n'):
                for m in MARK.finditer(l):
                    what, kind = self.marked[int(m.group(1))]
                    col = len(MARK.sub('', l[:m.start()])) + 1
                    if kind == 'loc':
                        what.loc = [cur, no, col]
                    else:
                        what[0].locs[what[1]] = [cur, no, col]
                lines.append(MARK.sub('', l))
                no += 1
        if depth == 0:
            put(PRINTF)
        i = 0
        while i < len(ss):
            k = r.random() if r else 1
            if k < .2 and depth < 3:
                n = r.randrange(1, 4)
                base, how = 'h%d_%d' % (depth, len(self.names)), r.randrange(4)
                base = r.choice(['%s.h', '%s.inc', 'a b %s.h', "q'%s.h", '%s', '$%s.h']) % base
                here = name[0] if name != 'script' else 'dir'      # of the including file
                if how == 0:
                    self.build(ss[i:i + n], (here, base), r, space, depth + 1)
                    put('#include "%s"' % base)
                elif how == 1:
                    self.build(ss[i:i + n], ('sub', base), r, space, depth + 1)
                    put('#include <%s>' % base)
                else:
                    self.build(ss[i:i + n], (here, base), r, space, depth + 1)
                    put('# include  "%s" /* c */' % base)
                i += n
                continue
            if k < .3:
                nm = 'gen%d %s' % (len(self.names), r.choice(['x.y', '.c', 'é', 'a\'b', '#']))
                to = r.choice([1, 7, 500, 100000])
                if r.random() < .3:         # the file stays the same
                    put('#line %d' % to)
                else:
                    put('#line %d "%s"' % (to, nm))
                    cur = self.file(('line', nm))
                no = to
            t = '\n'.join(stmt(ss[i], '', False))
            if space:
                t = respace(t, space)
            put(t)
            i += 1
        if name != 'script':
            self.content[name] = '\n'.join(lines) + '\n'
        else:
            self.script_text = '\n'.join(lines) + '\n'

    def text(self):
        return self.script_text + ''.join('/* ---- %s */\n%s' % (n[1], t) for n, t in self.content.items())

    def run(self, bic, sc, args=(), env=None, timeout=20, unbuffered=False, wrap=()):
        d = 'd-%s' % self.id
        script = sc.write(d + '/script.c', self.script_text)
        where = {}
        for n, t in self.content.items():
            sc.write(os.path.join(d, n[1]) if n[0] == 'dir' else os.path.join(d, 'in c', n[1]), t)
        for i, n in enumerate(self.names):
            f = script if n == 'script' else n[1] if n[0] == 'line' else sc.path(d, n[1]) if n[0] == 'dir' else sc.path(d, 'in c', n[1])
            where[f] = i + 1
        argv = (['stdbuf', '-o0'] if unbuffered else []) + [bic] + (['-I', sc.path(d, 'in c')] if self.content else []) + ['-s', script]
        res = engine.run(argv, sc, timeout=timeout, env=env)
        res.where = where
        return res

    def record(self, res):
        tr, active, failed = [], ['active'], False
        errors = []
        for l in res.err.split('\n'):
            m = re.match(r'^(.*):(\d+):(\d+): error: (.*)$', l)
            if m:
                # (the text is read as latin-1)
                f = m.group(1).encode('latin-1').decode('utf-8', 'replace')
                errors.append(['error', res.where.get(f, 99), int(m.group(2)), int(m.group(3))])
            m = re.match(r'^Parser Error: (.*):(\d+) ', l)
            if m:
                f = m.group(1).encode('latin-1').decode('utf-8', 'replace')
                errors.append(['rejected', res.where.get(f, 99), int(m.group(2))])
        fns = {n.n for n in nodes(self.top) if n.k == 'fndef'}
        for l in res.out.split('\n')[:-1]:
            if errors and l in fns:
                active.append(l)
            elif errors and re.match(r'^[A-Za-z][A-Za-z ]*$', l):
                continue            # what else is being evaluated
            else:
                tr.append(['out'] + engine.tokens(l))
        if res.out and not res.out.endswith('\n'):
            tr.append(['out', engine.GARBAGE])
        tr += errors
        if errors and errors[0][0] == 'error':
            tr.append(active)
        tr.append(['exit', num(res.rc)])
        return tr


def respace(text, r):
    """Other line breaks and indentation."""
    res = []
    for t in re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[^\s"\']+|\s+', text):
        if t == ' ' and r.random() < .12:
            t = r.choice(['\n', '\n    ', ' // c\n ', '\n\n' + ' ' * r.randrange(30), '\n' * 12, ' /* a\n  b */\n  '])
        res.append(t)
    return ''.join(res)
