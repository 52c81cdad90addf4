"""The tuples with which spec/Num.tla represents integers."""
B = 1 << 14


def num(n):
    if abs(n) < 1 << 30:
        return [n]
    r = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        r.append(n % B)
        n //= B
    return r


def unnum(t):
    if len(t) == 1:
        return t[0]
    n = 0
    for d in reversed(t[1:]):
        n = n * B + d
    return n * t[0]
