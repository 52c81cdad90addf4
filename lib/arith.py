"""Which integer operations are defined, and the type of their results (the
generators use it to leave undefined operations out; the verdict is the
specification's)."""
from cprog import WIDTH, SIGNED, INTS, FMT, b, lit

OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||']


def promote(t):
    if t in ('llong', 'ullong'):        # (as long as long, and not told apart)
        return t.replace('ll', 'l')
    return t if WIDTH[t] >= 32 else 'int'


def common(a, c):
    a, c = promote(a), promote(c)
    for t in ('ulong', 'long', 'uint'):
        if t in (a, c):
            return t
    return 'int'


def fit(v, t):
    v &= (1 << WIDTH[t]) - 1
    return v - (1 << WIDTH[t]) if SIGNED[t] and v >> (WIDTH[t] - 1) else v


def lo(t): return -(1 << (WIDTH[t] - 1)) if SIGNED[t] else 0
def hi(t): return (1 << (WIDTH[t] - (1 if SIGNED[t] else 0))) - 1


def inr(v, t): return lo(t) <= v <= hi(t)


def binop(op, x, tx, y, ty):
    """(value, type) of a defined operation, or None."""
    if op in ('&&', '||'):
        return int((x and y) != 0 if op == '&&' else bool(x or y)), 'int'
    if op in ('<<', '>>'):
        t = promote(tx)
        if not 0 <= y < WIDTH[t]:
            return None
        if op == '>>':
            return x >> y, t
        if SIGNED[t] and x < 0:
            return None
        r = x << y
    else:
        t = common(tx, ty)
        x, y = fit(x, t), fit(y, t)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return int(eval('x %s y' % op)), 'int'
        if op in '/%':
            if y == 0:
                return None
            q = abs(x) // abs(y)
            q = -q if (x < 0) != (y < 0) else q
            if not inr(q, t):
                return None
            r = q if op == '/' else x - q * y
        else:
            r = eval('x %s y' % op)
    if SIGNED[t]:
        return (r, t) if inr(r, t) else None
    return fit(r, t), t


def unop(op, x, tx):
    t = promote(tx)
    if op == '!':
        return int(x == 0), 'int'
    r = -x if op == '-' else ~x
    if SIGNED[t]:
        return (r, t) if inr(r, t) else None
    return fit(r, t), t


def values(t, more=False):
    """Boundary values of a type."""
    w = WIDTH[t]
    s = {0, 1, 2, 7, 100, hi(t), hi(t) - 1, lo(t)}
    if SIGNED[t]:
        s |= {-1, -2, -7, lo(t) + 1}
    for k in ((7, 8, 15, 16, 31, 32, 33, 62) if more else (8, 31, 32)):
        for d in ((-1, 0, 1) if more else (0,)):
            for sg in ((1, -1) if SIGNED[t] else (1,)):
                s.add(sg * ((1 << k) + d))
    return sorted(v for v in s if inr(v, t))


def literal(v, t):
    """An expression of exactly the type t with the value v."""
    from cprog import cast
    if t == 'int':
        return lit(v)
    return cast(b(t), lit_any(v))


def lit_any(v):
    if v > (1 << 63) - 1:
        return lit(v, hex(v), 'hex')
    return lit(v)
