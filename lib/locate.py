"""Where the names that a program declares are written in its text."""
import re
from cprog import Node
import ctext

MARK = re.compile(r'__M(\d+)_')
SPACES = [' ', '  ', '\t', '\n', '\n\n', '\n    ', ' /* c */ ', ' // x\n', '\n/* a\n   b */\n', '\n\n\n']


def declarators(x, acc):
    """The declarators and functions in a list of statements, in order."""
    if isinstance(x, (list, tuple)):
        for y in x:
            declarators(y, acc)
    elif isinstance(x, Node):
        if x.k in ('dr', 'fndef', 'xfn'):
            acc.append(x)
        for k, v in sorted(x.__dict__.items()):
            if k not in ('te', 'rt') and isinstance(v, (list, tuple, Node)):
                if x.k in ('fndef', 'xfn') and k == 'params':
                    continue
                declarators(v, acc)
    return acc


def place(stmts, text, fileno, r=None):
    """text(): the text of the statements. Returns a text with other white
    space (chosen by r) and sets the locations of the declarators."""
    ds = declarators(list(stmts), [])
    for i, d in enumerate(ds):
        d.n_ = d.n
        d.n = '%s__M%d_' % (d.n, 2 * i)
        if d.k == 'fndef':
            d.params_ = d.params
            d.params = [('%s__M%d_' % (n, 1000001 + 1000 * i + 2 * j), te) for j, (n, te) in enumerate(d.params)]
    try:
        t = text()
    finally:
        for d in ds:
            d.n = d.n_
            if d.k == 'fndef':
                d.params = d.params_
    if r is not None:
        t = respace(t, r)
    where = {}
    for no, l in enumerate(t.split('\n')):
        for m in MARK.finditer(l):
            where[int(m.group(1))] = no + 1
    for i, d in enumerate(ds):
        d.loc = [fileno, where[2 * i]]
        if d.k == 'fndef':
            d.plocs = [[fileno, where[1000001 + 1000 * i + 2 * j]] for j in range(len(d.params))]
    return MARK.sub('', t)


def respace(text, r):
    res = []
    for t in re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|<REPL>|[^\s"\']+|\s+', text):
        if t.isspace():
            # (a function is where its parenthesis is)
            t = r.choice(SPACES) if r.random() < .25 else t
        res.append(t)
    return ''.join(res)
