"""The same C text, written in other ways: a tokeniser for C, and programs
whose tokens are spaced, commented and named differently."""
import re

PUNCT = ['...', '<<=', '>>=', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '##',
         '//', '/*', '<:', ':>', '<%', '%>', '%:'] + list('[](){}.&*+-~!/%<>^|?:;=,#')
TOK = re.compile(r'''"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\.?\d(?:[eEpP][+-]|[\w.])*|[A-Za-z_]\w*|''' + '|'.join(re.escape(p) for p in PUNCT))
KEYWORDS = set('''auto break case char const continue default do double else enum extern float for goto if int long register return short
signed sizeof static struct switch typedef union unsigned void volatile while inline _Bool restrict'''.split())


def tokens(text):
    res, i = [], 0
    while i < len(text):
        if text[i].isspace():
            i += 1
            continue
        m = TOK.match(text, i)
        if not m:
            raise ValueError(text[i:i + 20])
        res.append(m.group(0))
        i = m.end()
    return res


def joins(a, b):
    """Can a and b be written without anything between them?"""
    try:
        return tokens(a + b) == [a, b]
    except ValueError:
        return False


COMMENTS = ['/**/', '/* x */', '/* " */', "/* it's */", '/* // */', '/* int x; */', '/***/', '/* a\n b */', '/*/ */', '// y\n', "// don't \"\n", '// /*\n', '/* } */', '// a \\\n still\n']


def respace(text, r, style):
    """The same tokens with other white space."""
    out = ''
    prev = None
    line = 0
    for t in tokens(text):
        need = prev is not None and not joins(prev, t)
        k = style if style != 'mixed' else r.choice(['tight', 'lines', 'comments', 'blank'])
        if k == 'tight':
            s = ' ' if need else ''
            if line > 200:
                s, line = '\n', 0
        elif k == 'lines':
            s = '\n'
        elif k == 'blank':
            s = r.choice([' ', '  ', '\t', ' \t ', '\n\n', '\r\n', '\f', '\v', ' \\\n ', '\\\n' if not need else ' \\\n'])
        else:
            s = r.choice(COMMENTS)
            if r.random() < .3:
                s += r.choice(COMMENTS + [' '])
            if prev == '/' :
                s = ' ' + s         # not // and not a comment
        out += s + t
        line += len(t)
        prev = t
    return out + r.choice(['\n', '\n\n', ' \n', '// end\n', '/* end */\n'])


NASTY = ['int_', 'iff', '_if', 'returns', 'forr', 'whiles', 'sizeof_', 'unsignedly', 'INT', 'If', 'e1', 'x0', '_', '__', 'L', 'u8', 'volatile1', 'inline2', 'consts', 'autos',
         'restricted', 'REPL', 'do_', 'defaults', 'struct1', 'unionize', 'enumx', 'externs', 'signedx', 'asm_', '__asmx', 'Bool', '_bool', 'charlie', 'shorty', 'longer', 'floaty',
         'doubled', 'voided', 'breaks', 'cases', 'gotos', 'switches', 'typedefs', 'registers', 'statics', 'elsewhere', 'continues', 'l', 'O0', 'I1l', 'a' * 40, 'b' * 300, 'Abc_9', '_9', 'E10', 'xFF', 'b' * 299 + 'c',
         'inlined', 'volatiles', 'constint', 'intint', 'ifelse', 'extension__', 'Nullable', 'attribute', 'argcount', 'printff', 'mainx', 'xmain']


def rename(text, r, keep=()):
    """Other names for all identifiers."""
    pool = NASTY[:]
    r.shuffle(pool)
    m = {}
    out = []
    for t in re.findall(r'''"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\.?\d(?:[eEpP][+-]|[\w.])*|[A-Za-z_]\w*|\s+|.''', text, re.S):
        if re.match(r'[A-Za-z_]', t) and t not in KEYWORDS and t not in keep:
            if t not in m:
                m[t] = pool.pop() if pool else 'n%d' % len(m)
            t = m[t]
        out.append(t)
    return ''.join(out)
