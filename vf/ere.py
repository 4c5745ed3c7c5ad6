"""POSIX extended regular expressions (the part used in templates) and equivalence of their search languages.

A template is the text handed to regcomp() with holes filled by the witness alternation `A|B' of two fresh symbols per
hole.  Two templates with equal search languages accept the same strings whatever (regular) languages the symbols of a
hole stand for (substitution is a homomorphism); a hole that is not grouped differs, as the alternation escapes it.
"""
import functools
BOL, EOL = -1, -2
EMPTY, EPS = ('0',), ('1',)


class Bad(Exception):
    pass


def alt(a, b):
    if a == EMPTY:
        return b
    if b == EMPTY:
        return a
    xs = set(a[1]) if a[0] == '|' else {a}
    xs |= set(b[1]) if b[0] == '|' else {b}
    return ('|', frozenset(xs)) if len(xs) > 1 else next(iter(xs))


def cat_(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == '.':
        return ('.', a[1], cat_(a[2], b))
    return ('.', a, b)


def star(a):
    if a in (EMPTY, EPS):
        return EPS
    return a if a[0] == '*' else ('*', a)


def sym(s):
    return ('s', frozenset(s)) if s else EMPTY


def parse(t, alphabet):
    """t: list of ints (bytes >= 0; holes' symbols >= 256) -> AST over the alphabet (plus BOL/EOL marks)"""
    pos = 0

    def peek():
        return t[pos] if pos < len(t) else None

    def p_alt(depth):
        nonlocal pos
        r = p_cat(depth)
        while peek() == 124:
            pos += 1
            r = alt(r, p_cat(depth))
        return r

    def p_cat(depth):
        nonlocal pos
        r = EPS
        while peek() is not None and peek() != 124 and not (peek() == 41 and depth):
            r = cat_(r, p_rep(depth))
        return r

    def p_rep(depth):
        nonlocal pos
        a = p_atom(depth)
        while peek() in (42, 43, 63, 123):
            c = peek()
            if c == 123:
                raise Bad('interval expression')
            pos += 1
            a = star(a) if c == 42 else cat_(a, star(a)) if c == 43 else alt(a, EPS)
        return a

    def p_atom(depth):
        nonlocal pos
        c = peek()
        pos += 1
        if c == 40:
            r = p_alt(depth + 1)
            if peek() != 41:
                raise Bad('unbalanced (')
            pos += 1
            return r
        if c == 41:
            raise Bad('unbalanced )')
        if c == 94:
            return ('s', frozenset([BOL]))
        if c == 36:
            return ('s', frozenset([EOL]))
        if c == 46:
            return sym(alphabet)
        if c == 91:
            neg = peek() == 94
            if neg:
                pos += 1
            xs, first = set(), True
            while True:
                c = peek()
                if c is None:
                    raise Bad('unbalanced [')
                if c == 93 and not first:
                    pos += 1
                    break
                if c == 91 or pos + 1 < len(t) and t[pos + 1] == 45 and (pos + 2 < len(t) and t[pos + 2] != 93):
                    raise Bad('bracket expression')
                xs.add(c)
                pos += 1
                first = False
            return sym(set(alphabet) - xs if neg else xs & set(alphabet))
        if c == 92:
            c = peek()
            if c is None:
                raise Bad('trailing backslash')
            pos += 1
            if 48 <= c <= 57 or 97 <= c <= 122 or 65 <= c <= 90:
                raise Bad('escape sequence')
            return sym({c})
        if c in (42, 43, 63):
            raise Bad('repetition of nothing')
        return sym({c})
    r = p_alt(0)
    if pos != len(t):
        raise Bad('trailing text')
    return r


@functools.lru_cache(None)
def nullable(a):
    k = a[0]
    return k in '1*' or k == '|' and any(nullable(x) for x in a[1]) or k == '.' and nullable(a[1]) and nullable(a[2])


@functools.lru_cache(None)
def deriv(a, c):
    k = a[0]
    if k in '01':
        return EMPTY
    if k == 's':
        return EPS if c in a[1] else EMPTY
    if k == '|':
        r = EMPTY
        for x in a[1]:
            r = alt(r, deriv(x, c))
        return r
    if k == '*':
        return cat_(deriv(a[1], c), a)
    r = cat_(deriv(a[1], c), a[2])
    return alt(r, deriv(a[2], c)) if nullable(a[1]) else r


def search(a, alphabet):
    full = star(sym(set(alphabet) | {BOL, EOL}))
    return cat_(full, cat_(a, full))


def equivalent(x, y):
    """-> None if the search languages are equal, else a distinguishing subject (list of symbols)"""
    alphabet = set(x) | set(y) | {59, 10, 300}
    alphabet -= {ord(c) for c in '()[]|*+?^$.\\'}
    alphabet |= {301}      # any other character
    al = sorted(alphabet)
    a, b = search(parse(x, al), al), search(parse(y, al), al)
    start = (deriv(a, BOL), deriv(b, BOL))
    seen, work = {start: ()}, [start]
    while work:
        p = work.pop(0)
        w = seen[p]
        if nullable(deriv(p[0], EOL)) != nullable(deriv(p[1], EOL)):
            return list(w)
        for c in al:
            q = (deriv(p[0], c), deriv(p[1], c))
            if q not in seen:
                seen[q] = w + (c,)
                work.append(q)
                if len(seen) > 20000:
                    raise Bad('too many states')
    return None


def show(w):
    return ''.join(chr(c) if c < 128 else '\\n' if c == 10 else '<%s>' % {300: 'other', 301: 'other'}.get(c, 'sym%d' % c) for c in w)


if __name__ == '__main__':
    def t(s):
        out = []
        for c in s:
            out += {'X': [1000, 124, 1001], 'Y': [1002, 124, 1003]}.get(c, [ord(c)])
        return out
    for x, y in (('^(X)\n?$', '^(X)\n?$'), ('^X\n?$', '^(X)\n?$'), ('^((X))(\n|)$', '^(X)\n?$'), ('^(X)$', '^(X)\n?$'), (
            '^(HOST;(X);.+)\n?$', '^HOST;(X);.+\n?$'), ('^(HOST;X;.+)\n?$', '^HOST;(X);.+\n?$'), ('^(HOST;(X);.*)\n?$', '^HOST;(X);.+\n?$')):
        r = equivalent(t(x), t(y))
        print(x.replace('\n', '\\n'), y.replace('\n', '\\n'), r if r is None else show(r))
