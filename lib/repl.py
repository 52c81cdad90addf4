"""Sessions of the REPL: what is typed, what is evaluated before, what can be
observed."""
import copy, os, re, time
import cprog, engine, locate, terminal
from cprog import *
from engine import GARBAGE
from num import num

PROMPT = 'BIC> '


class Line:
    """A line of a session. kind: stmt, blank, bad, die, inc, insp, tab."""

    def __init__(self, kind, text, s=None, names=(), opt=False, n='', pre='', base='', a=None):
        self.pre, self.base, self.a = pre, base, a
        assert '\n' not in text and '\t' not in text, text
        self.kind, self.text, self.s, self.names, self.opt, self.n = kind, text, s, list(names), opt, n


def joined(s, full=False):
    return ' '.join(l.strip() for l in stmt(s, '', full))


def ln(s, text=None, full=False):
    """The line that consists of the statement (or expression) s."""
    if s.k in LEVEL:
        s = show(s)
    text = joined(s, full) if text is None else text
    names, opt = [], False
    if s.k == 'decl':
        names = [d.n for d in s.ds]
    elif s.k in ('tdef', 'proto', 'xfn'):
        names, opt = [s.n], True
    elif s.k in ('sudef', 'sufwd', 'enum'):
        names, opt = [s.tag, s.tag.split()[1]], True
    elif s.k == 'group':
        opt = True
        names = [n for t in s.ss for n in ([d.n for d in t.ds] if t.k == 'decl' else [t.tag.split()[1]] if t.k in ('sudef', 'enum') else [])]
    return Line('stmt', text, s, names, opt)


def insp(n, text=None): return Line('insp', text or '?' + n, n=n)
def blank(text=''): return Line('blank', text)
def bad(text): return Line('bad', text)
def incl_(h, text=None, dies=False): return Line('inc', text or '#include <%s>' % h, n=h)
def die(text, n=''): return Line('die', text, n=n)


def tab(pre, before=''):
    """TAB after the start of a name."""
    return Line('tab', before + pre, pre=pre)


def tabm(e, op, pre='', before=''):
    """TAB after the start of the name of a member of e."""
    base = render(mem(e, 'Q'))[:-2].replace(' ', '') + op
    return Line('tab', before + base + pre, pre=pre, base=base, a=e if op == '.' else deref(e))


def tabx(base, pre='', before=''):
    """TAB after an operator that has no members."""
    return Line('tab', before + base + pre, pre=pre, base=base)


def remaining(fs):
    """Those of the temporary files that are there for good."""
    end = time.time() + 3
    while fs and time.time() < end:
        time.sleep(.1)
        fs = [f for f in fs if os.path.exists('/tmp/' + f)]
    return fs


class Session:
    """start: statements of ~/.bic; lines: what is typed; script: None or the
    statements of the script in which <REPL>; occurs."""

    def __init__(self, id, lines, start=(), script=None, main=True, header=PRINTF, full=False, eol=True, pre=(), headers=(), dirs=()):
        self.id, self.lines, self.start, self.script = id, lines, list(start), script
        self.main, self.header, self.full, self.eol = main and script is not None, header, full, eol
        # the directories with headers, in the order of the options -I
        self.headers, self.dirs, self.headers_typed, self.alone = list(headers), list(dirs), True, False
        self.pre = list(pre)            # text in front of the script or the startup file

    def place(self, r=None):
        """Write the startup file and the script with other white space and
        find out where they declare what."""
        self.start, self.script = copy.deepcopy((self.start, self.script))
        a, b_ = self.start_text, self.script_text
        for i, h in enumerate(self.headers):
            if not h.sys:
                t = locate.place(h.statements(), h.text, 10 + i)
                h.text = lambda t=t: t
        if self.start:
            t1 = locate.place(self.start, a, 2, r)
            self.start_text = lambda: t1
        if self.script is not None:
            t2 = locate.place(self.script, b_, 1, r)
            self.script_text = lambda: t2
        return self

    def start_text(self):
        ls = list(self.pre)
        if self.script is None and self.header:
            ls.append(self.header)
        for s in self.start:
            ls += stmt(s, '', self.full)
        return '\n'.join(ls) + '\n' if ls else ''

    def script_text(self):
        ls = [self.header] if self.header else []
        for s in self.script:
            ls += stmt(s, '', self.full)
        return '\n'.join(ls) + '\n'

    def path(self, h):
        return '%s.d/%s' % (self.id, h.n) if h.dir == 0 else '%s.d/d%d/%s' % (self.id, h.dir, h.n)

    def input(self):
        t = '\n'.join(l.text for l in self.lines)
        return t + '\n' if t and self.eol else t

    def text(self):
        hs = ''.join('/* ---- %s */\n%s\n' % (self.path(h), h.text()) for h in self.headers if not h.sys)
        if self.dirs:
            hs += '/* ---- options: %s */\n' % ' '.join('-I d%d' % d for d in self.dirs)
        return '%s%s/* ---- script */\n%s/* ---- typed */\n%s' % (
            hs, self.start_text(), self.script_text() if self.script is not None else '', self.input())

    def others(self):
        """The names of the session that the model doesn't declare."""
        r = [s.n for s in self.start + (self.script or []) if s.k == 'proto']
        for t in self.pre + ([self.header] if self.header else []):
            r += re.findall(r'(\w+)\(', t)
        return r + (['argc', 'argv'] if self.script is not None or self.start_text() else [])

    def table(self, trace):
        f = Flat(self)
        f.somewhere = [0, 0, 0]         # (sessions don't record where errors are)
        start = f.ss(self.start)
        if self.script is None:
            top, main = [f.add({'k': 'repl'})], 0
        else:
            top = f.ss(self.script)
            main = [i + 1 for i, x in enumerate(f.fns) if x['n'] == 'main'][0] if self.main else 0
        lines = []
        for l in self.lines:
            ss = f.ss([l.s]) if l.s is not None else []
            if len(ss) > 1:             # the types that it declares too
                ss = [f.add({'k': 'seqs', 'ss': ss})]
            a = f.e(l.a)
            lines.append(f.add({'k': 'line', 'pre': l.pre, 'base': l.base, 'a': a, 'kind': l.kind, 's': ss[0] if ss else 0, 'n': l.n, 'h': l.n, 'opt': l.opt, 'name': [ord(c) for c in l.n],
                                'names': [[ord(c) for c in n] for n in l.names]}))
            if l.kind == 'stmt' and not ss:
                f.nodes[-1]['kind'] = 'stmt0'
        f.typed = self.headers_typed
        hdrs = [{'dir': h.dir, 'n': h.n, 'items': h.table(f)} for h in self.headers]
        names = {}
        for n in f.nodes:
            if n['k'] == 'sudef':
                names.update({m['n']: [ord(c) for c in m['n']] for m in n['ms'] if m['n']})
        return {'id': self.id, 'nodes': f.nodes, 'fns': f.fns, 'strs': f.strs, 'top': top, 'main': main,
                'trace': trace, 'repl': True, 'extra': self.others(), 'lines': lines, 'start': start, 'hdrs': hdrs, 'dirs': self.dirs + [99], 'names': names or {'-': []}}

    def record(self, res):
        return record(self, res)

    def run(self, bic, sc, args=(), env=None, timeout=20, unbuffered=False, wrap=()):
        home = 'home-%s' % self.id
        sc.write(home + '/x', '')
        t = self.start_text()
        if t:
            sc.write(home + '/.bic', t)
        e = {'HOME': sc.path(home), 'COLUMNS': '5000'}
        e.update(env or {})
        argv = (['stdbuf', '-o0'] if unbuffered else []) + list(wrap) + [bic] + list(args)
        where = self.id + '.c' if not self.dirs and not self.headers else self.id + '.d/script.c'
        files = {sc.path(where): 1, sc.path(home, '.bic'): 2}
        for i, h in enumerate(self.headers):
            if not h.sys:
                files[sc.write(self.path(h), h.text())] = 10 + i
        for d in self.dirs:
            os.makedirs(sc.path('%s.d/d%d' % (self.id, d)), exist_ok=True)
            argv += ['-I', sc.path('%s.d/d%d' % (self.id, d))]
        if self.script is not None:
            argv += ['-s', sc.write(where, self.script_text())]
        temp = lambda: set(f for f in os.listdir('/tmp') if f.startswith('bic.'))
        before = temp() if self.alone else None
        if any(l.kind == 'tab' for l in self.lines):
            os.makedirs(sc.path(home, 'empty'), exist_ok=True)
            res = terminal.run(argv, sc, [(l.text, l.kind == 'tab') for l in self.lines], e, sc.path(home, 'empty'), max(timeout, 40))
        else:
            res = engine.run(argv, sc, self.input().encode('latin-1'), timeout, e)
        res.files = files
        # what the session has left behind (others could run at the same time)
        res.left = remaining(temp() - before) if self.alone else []
        return res


ADDR = re.compile(r'^(0x[0-9a-f]+|\(nil\))(?: \("(.*)"\))?$')
LIT = re.compile(r'^"(.*)"$')
MEMBER = re.compile(r'^\s*\.(\w+) = (.*)$')
NAME = re.compile(r'^[A-Za-z_]\w*$')
TAG = re.compile(r'^(struct|union|enum) \w+$')
chars = lambda s: [ord(c) for c in s]


def items(line):
    """The items of a line that the REPL or the program has printed."""
    m = MEMBER.match(line)
    if m:
        return [[0, 4] + chars(m.group(1))] + items(m.group(2))
    l = line.strip()
    if l in '{}' and l:
        return [[0, 3] if l == '{' else [0, 5]]
    m = ADDR.match(l)
    if m:
        a = [0, 2] + (num(int(m.group(1), 16)) if m.group(1) != '(nil)' else [0])
        return [a] + ([[0, 0] + chars(m.group(2))] if m.group(2) is not None else [])
    m = LIT.match(l)
    if m:
        return [[0, 8] + chars(m.group(1))]
    if NAME.match(l) or TAG.match(l):
        return [[0, 6] + chars(l)]
    return engine.tokens(l)


CODES = {'signed char': 2, 'unsigned char': 3, 'signed short': 4, 'unsigned short': 5, 'signed integer': 6, 'unsigned integer': 7, 'signed long': 8, 'unsigned long': 9,
         'signed long long': 10, 'unsigned long long': 11, 'float': 12, 'double': 13, 'long double': 14, 'Void type': 15, 'Function': 20, 'External function': 20, 'Live Compound': 21,
         'Constant integer': 22, 'Incompletel type': 30, 'Array Type': 33, 'struct': 31, 'union': 32}
ISA = re.compile(r'^(\w+) is a ((?:pointer to a )*)(.*)\.$')
VALUE = re.compile(r'^value of (\w+) is (.*)$')
SIZE = re.compile(r'^sizeof\((\w+)\) = (\d+) bytes\.$')
AT = re.compile(r'^(\w+) was declared at: (.*):(\d+)$')


def inspected(l, files):
    """The items of a line that the inspector has printed."""
    if l == 'Object not found':
        return [[0, 16]]
    m = ISA.match(l)
    if m:
        n, p, d = m.groups()
        tag = d.split()[1] if TAG.match(d) else ''
        return [[0, 14] + chars(n), [0, 15] + [1] * (len(p) // len('pointer to a ')) + [CODES.get(d.split()[0] if tag else d, 99)] + chars(tag)]
    m = VALUE.match(l)
    if m:
        return [[0, 11] + chars(m.group(1))] + items(m.group(2))
    m = SIZE.match(l)
    if m:
        return [[0, 12] + chars(m.group(1)), [int(m.group(2))]]
    m = AT.match(l)
    if m:
        f = files.get(m.group(2), 9)
        return [[0, 13] + chars(m.group(1)), [f, int(m.group(3)) if f else 0]]
    return [GARBAGE]


def out_lines(res): return res.out.split('\n')


def record(ses, res):
    """The observations of a session."""
    tr, i, lines = [], 0, ses.lines
    dead = asked = False
    files = dict(res.files)
    files['<REPL>'] = 0
    failed = 'Evaluator Backtrace:' in res.err      # then the last line wasn't evaluated to its end
    last_echo = max([k for k, l in enumerate(out_lines(res)) if l.startswith(PROMPT)] + [0])
    out = out_lines(res)
    for k, l in enumerate(out):
        last = k == len(out) - 1        # without a newline
        if l.startswith('\x01'):
            tr.append(['tab'] + [n for n in l[1:].split('\x02') if n])
            continue
        while l.startswith(PROMPT.rstrip(' ')):
            rest = l[len(PROMPT):]
            if i < len(lines) and rest == lines[i].text and not last:
                i += 1
                tr.append(['echo', i])
                dead = lines[i - 1].kind == 'die' or failed and k == last_echo
                asked = lines[i - 1].kind == 'insp'
                l = ''
            else:
                tr.append(['eof'])
                asked = False
                l = rest
        if l and not dead:
            tr.append(['out'] + ([GARBAGE] if last else inspected(l, files) if asked else items(l)))
        # blank lines say nothing
    if res.left:
        tr.append(['left'])
    tr.append(['errs', [len([l for l in res.err.split('\n') if l.startswith('Parser Error')])]])
    tr.append(['exit', num(res.rc)])
    return tr
