"""Contracts of the external functions the verified code calls (assumed, not proved).

Every entry is handler(eng, st, args, node) -> [(state, result)].  Handlers state the
callee's precondition as obligations (eng.check) and its postcondition as assumptions.
An empty list means that the call does not return.
"""
import re
import z3
from engine import *
import cfront
from cfront import INT, UCHAR, CHAR, ULONG, LONG

LIBC = {}
NOTES = {}      # name -> one-line statement of the assumed contract (for the evidence)


def lib(*names, note=None):
    def d(f):
        for n in names:
            LIBC[n] = f
            NOTES[n] = note or (f.__doc__ or '').strip()
        return f
    return d


# ------------------------------------------------------------------ logging / termination
def fmt_of(eng, st, p):
    if is_c(p.obj) and is_c(p.off):
        o = st.objs.get(p.obj)
        if o is not None and 'lit' in o.meta:
            b = o.meta['lit'][p.off:]
            return b[:b.index(b'\0')] if b'\0' in b else b
    return None


FMT = re.compile(rb'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])')


def parse_fmt(f):
    """-> [('lit', bytes) | ('conv', flags, width, prec, mod, c)]"""
    out, i = [], 0
    for m in FMT.finditer(f):
        if m.start() > i:
            out.append(('lit', f[i:m.start()]))
        if m.group(5) == b'%':
            out.append(('lit', b'%'))
        else:
            out.append(('conv',) + m.groups())
        i = m.end()
    if i < len(f):
        out.append(('lit', f[i:]))
    return out


def check_fmt_args(eng, st, fmt, args, node, what):
    """string arguments of a printf-like call must be live, NUL-terminated strings"""
    f = fmt_of(eng, st, fmt)
    if f is None:
        return
    k = 0
    for p in parse_fmt(f):
        if p[0] != 'conv':
            continue
        _, fl, w, prec, mod, c = p
        if w == b'*':
            k += 1
        pr = None
        if prec == b'*':
            pr = args[k] if k < len(args) else None
            k += 1
        if c == b'm':
            continue
        if k >= len(args):
            eng.check(st, False, '%s: enough arguments for the format' % what, node)
            return
        a = args[k]
        k += 1
        if c == b's' and isinstance(a, Ptr):
            if is_c(a.obj):
                o = st.objs.get(a.obj)
                if o is None or a.obj <= 0:
                    eng.check(st, False, '%s: %%s argument is a valid string' % what, node)
                elif o.alive is not True:
                    eng.check(st, o.alive, '%s: %%s argument `%s` is live' % (what, o.name), node)
                elif pr is None and prec is None:
                    log_string(eng, st, a, node, what)
            elif pr is None and prec is None:
                log_string(eng, st, a, node, what)


def log_string(eng, st, a, node, what):
    try:
        eng.strlen_of(st, a, node, '%s: %%s argument' % what)
    except Unsupported:
        pass


@lib('debug', 'info', 'notice', 'warning', 'error', 'critical', 'debug_', 'info_', 'notice_', 'warning_', 'error_',
     note='logging: no effect on the program state (its own memory safety is property C19)')
def h_log(eng, st, args, node):
    name = ''
    check_fmt_args(eng, st, args[0], args[1:], node, 'log message')
    return [(st, None)]


@lib('die', 'critical_exit', note='die(): logs and exits with a nonzero status')
def h_die(eng, st, args, node):
    check_fmt_args(eng, st, args[0], args[1:], node, 'log message')
    st.event('exit', 'die', 1)
    eng.exit_path(st)
    return []


@lib('exit', '_exit', 'abort', note='does not return')
def h_exit(eng, st, args, node):
    st.event('exit', 'exit', args[0] if args else 134)
    eng.exit_path(st)
    return []


@lib('__assert_fail', note='assertion failure: must be unreachable')
def h_assert_fail(eng, st, args, node):
    eng.check(st, False, 'assertion holds', node)
    return []


# ------------------------------------------------------------------ memory
@lib('xmalloc', note='returns a fresh block of the requested size (never NULL; dies otherwise)')
def h_xmalloc(eng, st, args, node):
    p = eng.new_obj(st, args[0], 'heap', 'malloc@%d' % st.frames[-1].unit.line(node))
    st.event('alloc', p.obj)
    return [(st, p)]


@lib('malloc', note='returns NULL or a fresh block of the requested size')
def h_malloc(eng, st, args, node):
    s2 = st.copy()
    s2.desc += ('malloc fails',)
    p = eng.new_obj(st, args[0], 'heap', 'malloc@%d' % st.frames[-1].unit.line(node))
    st.event('alloc', p.obj)
    return [(st, p), (s2, NULL)]


@lib('calloc', note='returns NULL or a fresh zeroed block')
def h_calloc(eng, st, args, node):
    s2 = st.copy()
    s2.desc += ('calloc fails',)
    p = eng.new_obj(st, mul(args[0], args[1]), 'heap', 'calloc@%d' % st.frames[-1].unit.line(node),
                    meta={'zero': True})
    eng.wr_bulk(st, p, 'fill', mul(args[0], args[1]), 0)
    st.event('alloc', p.obj)
    return [(st, p), (s2, NULL)]


@lib('xrealloc', 'realloc', note='moves a block to a fresh one of the new size, keeping the common prefix')
def h_realloc(eng, st, args, node):
    p, n = args
    q = eng.new_obj(st, n, 'heap', 'realloc@%d' % st.frames[-1].unit.line(node))
    st.event('alloc', q.obj)
    res = []
    for s, pp in eng.resolve(st, p, node):
        if is_c(pp.obj) and pp.obj == 0:
            res.append((s, q))
            continue
        if not is_c(pp.obj):
            raise Unsupported('realloc of an undetermined object')
        o = s.objs[pp.obj]
        eng.check(s, And(o.kind == 'heap', o.alive, eq(pp.off, 0)), 'realloc: block is a live heap block', node)
        old = s.copy()
        m = Ite(le(o.size, n), o.size, n) if not (is_c(o.size) and is_c(n)) else min(o.size, n)
        eng.wr_bulk(s, q, 'copy', m, lambda k, old=old, pp=pp: eng.byte_at(old, Ptr(pp.obj, k)))
        s.objs[pp.obj] = o.with_(alive=False)
        res.append((s, q))
    return res


@lib('free', note='releases a live heap block (or nothing for NULL)')
def h_free(eng, st, args, node):
    res = []
    p = args[0]
    if is_z3(p.obj) and not z3.is_app_of(simp(p.obj), z3.Z3_OP_ITE):
        if eng.proves(st, toz(p.obj) == 0):
            return [(st, None)]
    for s, q in eng.resolve(st, p, node):
        if is_c(q.obj):
            if q.obj == 0:
                res.append((s, None))
                continue
            o = s.objs.get(q.obj)
            if o is None:
                eng.check(s, False, 'free: valid pointer', node)
                continue
            eng.check(s, And(o.kind == 'heap', o.alive is True if isinstance(o.alive, bool) else o.alive,
                             eq(q.off, 0)), 'free: `%s` is a live heap block and the pointer is its start' % o.name,
                      node)
            s.objs[q.obj] = o.with_(alive=False)
            s.event('free', q.obj)
            res.append((s, None))
        else:
            h = eng.config.get('sym_free')
            if h is None:
                raise Unsupported('free of an undetermined object: %s' % s.frames[-1].unit.text(node))
            res.extend(h(eng, s, q, node))
    return res


def need_bytes(eng, st, p, n, node, what, write=False):
    """[p, p+n) accessible"""
    if is_c(n) and n == 0:
        return
    if is_c(p.obj):
        o = st.objs.get(p.obj)
        if o is None or p.obj <= 0:
            eng.check(st, eq(n, 0), '%s: valid pointer' % what, node)
            return
        if o.alive is not True:
            eng.check(st, Or(eq(n, 0), o.alive), '%s: `%s` is live' % (what, o.name), node)
        if write and o.kind == 'lit':
            eng.check(st, False, '%s: write to a literal' % what, node)
        eng.check(st, Or(eq(n, 0), And(le(0, p.off), le(add(p.off, n), o.size))),
                  '%s: within bounds of `%s`' % (what, o.name), node)
        if write and o.meta and o.meta.get('rec') and is_c(p.off):
            # a character array within a structure: not beyond its end
            for f, t, off in eng.recfields(o.meta['rec']):
                if t.k == 'array' and t.to.size == 1 and isinstance(t.n, int) and t.n > 1 and off <= p.off < off + t.n:
                    eng.check(st, Or(eq(n, 0), le(add(p.off, n), off + t.n)), '%s: within `%s` of `%s`' % (what, f, o.name), node)
    else:
        h = eng.config.get('sym_access')
        if h is None:
            raise Unsupported('%s on an undetermined object' % what)
        for lab, c in h(eng, st, p, n):
            eng.check(st, Or(eq(n, 0), c), '%s: %s' % (what, lab), node)


def bind_args(eng, st, ptrs, node):
    """resolve several pointers -> [(state, [ptr...])]"""
    res = [(st, [])]
    for p in ptrs:
        nxt = []
        for s, ps in res:
            for s2, q in eng.resolve(s, p, node):
                nxt.append((s2, ps + [q]))
        res = nxt
    return res


@lib('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove', 'bcopy_', 'mempcpy_',
     note='copies n bytes; both areas must be accessible')
def h_memcpy(eng, st, args, node):
    n = args[2]
    res = []
    name = 'memcpy'
    for s, (d, p) in bind_args(eng, st, args[:2], node):
        if is_c(d.obj) and is_c(p.obj) and d.obj == p.obj and is_c(d.off) and is_c(p.off) and d.off == p.off:
            need_bytes(eng, s, d, n, node, name)
            res.append((s, d))
            continue
        need_bytes(eng, s, p, n, node, name + ' source')
        need_bytes(eng, s, d, n, node, name + ' destination', write=True)
        old = s.copy()
        if is_c(n) and n in (1, 2, 4, 8) and False:
            pass
        eng.wr_bulk(s, d, 'copy', n, lambda k, old=old, p=p: eng.byte_at(old, Ptr(p.obj, add(p.off, k))))
        # known NUL positions travel along
        if is_c(p.obj) and is_c(d.obj):
            for ho, hoff in old.hints:
                if is_c(ho) and ho == p.obj:
                    s.hints = s.hints + ((d.obj, simp(add(d.off, sub(hoff, p.off)))),)
        if not is_c(n) or n > 0:
            res.append((s, d))
        else:
            res.append((s, d))
    return res


@lib('memset', '__builtin_memset', 'explicit_bzero_', note='fills n bytes')
def h_memset(eng, st, args, node):
    res = []
    v, n = args[1], args[2]
    for s, d in eng.resolve(st, args[0], node):
        need_bytes(eng, s, d, n, node, 'memset', write=True)
        c = (v & 255) if is_c(v) else toz(v) % 256
        eng.wr_bulk(s, d, 'fill', n, c)
        s.event('memset', d.obj, d.off, c, n)
        res.append((s, d))
    return res


@lib('explicit_bzero', 'OPENSSL_cleanse', note='fills n bytes with zeros, and the compiler keeps the call')
def h_bzero(eng, st, args, node):
    return [(s, None) for s, _ in h_memset(eng, st, [args[0], 0, args[1]], node)]


# ------------------------------------------------------------------ strings
@lib('strlen', '__builtin_strlen', note='length of a NUL-terminated string')
def h_strlen(eng, st, args, node):
    return [(s, eng.strlen_of(s, p, node, 'strlen')) for s, p in eng.resolve(st, args[0], node)]


def new_copy(eng, st, p, n, name):
    """heap string: n bytes from p plus NUL"""
    q = eng.new_obj(st, add(n, 1), 'heap', name)
    st.event('alloc', q.obj)
    old = st.copy()
    eng.wr_bulk(st, q, 'copy', n, lambda k: eng.byte_at(old, Ptr(p.obj, add(p.off, k))))
    eng.wr(st, Ptr(q.obj, n), CHAR, 0)
    return q


@lib('xstrdup', 'strdup_nofail', note='fresh copy of a string (never NULL)')
def h_xstrdup(eng, st, args, node):
    res = []
    for s, p in eng.resolve(st, args[0], node):
        n = eng.strlen_of(s, p, node, 'strdup')
        q = new_copy(eng, s, p, n, 'strdup@%d' % s.frames[-1].unit.line(node))
        if is_c(p.obj) and s.objs[p.obj].meta.get('strid') is not None and is_c(p.off) and p.off == 0:
            s.objs[q.obj].meta['strid'] = s.objs[p.obj].meta['strid']
        eng.assume_len(s, q, n)
        res.append((s, q))
    return res


@lib('strcpy', '__builtin_strcpy', note='copies a string; the destination must be large enough')
def h_strcpy(eng, st, args, node):
    res = []
    for s, (d, p) in bind_args(eng, st, args[:2], node):
        n = eng.strlen_of(s, p, node, 'strcpy')
        need_bytes(eng, s, d, add(n, 1), node, 'strcpy destination', write=True)
        old = s.copy()
        eng.wr_bulk(s, d, 'copy', n, lambda k, old=old, p=p: eng.byte_at(old, Ptr(p.obj, add(p.off, k))))
        eng.wr(s, Ptr(d.obj, add(d.off, n)), CHAR, 0)
        eng.assume_len(s, d, n)
        res.append((s, d))
    return res


@lib('stpcpy', note='copies a string; the destination must be large enough')
def h_stpcpy(eng, st, args, node):
    res = []
    for s, (d, p) in bind_args(eng, st, args[:2], node):
        n = eng.strlen_of(s, p, node, 'stpcpy')
        res += [(s2, Ptr(d.obj, add(d.off, n))) for s2, _ in h_strcpy(eng, s, [d, p], node)]
    return res


@lib('strcat', '__builtin_strcat', note='appends a string; the destination must be large enough')
def h_strcat(eng, st, args, node):
    res = []
    for s, (d, p) in bind_args(eng, st, args[:2], node):
        m = eng.strlen_of(s, d, node, 'strcat destination')
        n = eng.strlen_of(s, p, node, 'strcat')
        e = Ptr(d.obj, add(d.off, m))
        need_bytes(eng, s, e, add(n, 1), node, 'strcat destination', write=True)
        old = s.copy()
        eng.wr_bulk(s, e, 'copy', n, lambda k, old=old, p=p: eng.byte_at(old, Ptr(p.obj, add(p.off, k))))
        eng.wr(s, Ptr(d.obj, add(e.off, n)), CHAR, 0)
        eng.assume_len(s, d, add(m, n))
        res.append((s, d))
    return res


@lib('strncat', '__builtin_strncat', note='appends at most n bytes of a string; the destination must be large enough')
def h_strncat(eng, st, args, node):
    res = []
    for s, (d, p) in bind_args(eng, st, args[:2], node):
        m = eng.strlen_of(s, d, node, 'strncat destination')
        for s1, i in find_char(eng, s, p, args[2], 0, node):
            n = args[2] if i is None else i
            need_bytes(eng, s1, p, n, node, 'strncat source')
            e = Ptr(d.obj, add(d.off, m))
            need_bytes(eng, s1, e, add(n, 1), node, 'strncat destination', write=True)
            old = s1.copy()
            eng.wr_bulk(s1, e, 'copy', n, lambda k, old=old, p=p: eng.byte_at(old, Ptr(p.obj, add(p.off, k))))
            eng.wr(s1, Ptr(d.obj, add(e.off, n)), CHAR, 0)
            eng.assume_len(s1, d, add(m, n))
            res.append((s1, d))
    return res


@lib('strncpy', '__builtin_strncpy', note='copies a string, cut or NUL-padded to n bytes')
def h_strncpy(eng, st, args, node):
    res = []
    for s, (d, p) in bind_args(eng, st, args[:2], node):
        N = args[2]
        n = eng.strlen_of(s, p, node, 'strncpy')
        need_bytes(eng, s, d, N, node, 'strncpy destination', write=True)
        old = s.copy()
        m = Ite(le(n, N), n, N)
        eng.wr_bulk(s, d, 'copy', m, lambda k, old=old, p=p: eng.byte_at(old, Ptr(p.obj, add(p.off, k))))
        eng.wr_bulk(s, Ptr(d.obj, add(d.off, m)), 'fill', sub(N, m), 0)
        a, b = eng.split(s, lt(n, N), node)
        for x in a:
            eng.assume_len(x, d, n)
            res.append((x, d))
        for x in b:
            res.append((x, d))
    return res


@lib('strdup', note='NULL or a fresh copy of a string')
def h_strdup(eng, st, args, node):
    s2 = st.copy()
    s2.desc += ('strdup fails',)
    return h_xstrdup(eng, st, args, node) + [(s2, NULL)]


@lib('xstrndup', note='fresh copy of at most n bytes of a string')
def h_xstrndup(eng, st, args, node):
    res = []
    for s, p in eng.resolve(st, args[0], node):
        n = eng.strlen_of(s, p, node, 'strndup')
        m = Ite(le(n, args[1]), n, args[1])
        q = new_copy(eng, s, p, m, 'strndup@%d' % s.frames[-1].unit.line(node))
        eng.assume_len(s, q, m)
        res.append((s, q))
    return res


def lower(c):
    if is_c(c):
        return c + 32 if 65 <= c <= 90 else c
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


def byte_rng(eng, st, b):
    if is_z3(b):
        st.assume(z3.And(b >= 0, b <= 255))
    return b


def find_char(eng, st, p, n, c, node, last=False, tail=False):
    """fork: first (last) position i in [p, p+n) with byte c.  -> [(state, i or None)]"""
    res = []
    ci = c
    s1, s2 = st.copy(), st.copy()
    i = fresh_int('pos')
    s1.assume(0 <= i, lt(i, n))
    b = byte_rng(eng, s1, eng.byte_at(s1, Ptr(p.obj, add(p.off, i))))
    s1.assume(eq(b, ci))
    lo, hi = (add(i, 1), n) if last else (0, i)
    s1.assume(eng.forall_bytes(lambda k: ne(eng.byte_at(s1, Ptr(p.obj, k)), ci), add(p.off, lo), add(p.off, hi)))
    s2.assume(eng.forall_bytes(lambda k: ne(eng.byte_at(s2, Ptr(p.obj, k)), ci), p.off, add(p.off, n)))
    out = []
    if eng.feasible(s1):
        s1.desc += ('char %s found' % (chr(ci).__repr__() if is_c(ci) and 0 <= ci < 256 else '?'),)
        out.append((s1, i))
    if eng.feasible(s2):
        s2.desc += ('char %s not found' % (chr(ci).__repr__() if is_c(ci) and 0 <= ci < 256 else '?'),)
        out.append((s2, None))
    return out


def uchar(v):
    v = ival(v)
    if is_c(v):
        return v & 255
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if z3.is_app_of(c, z3.Z3_OP_GT) and c.children()[0].eq(b):
            return b
    return simp(v % 256)


@lib('strchr', '__builtin_strchr', 'index', note='first occurrence of a character in a string')
def h_strchr(eng, st, args, node):
    res = []
    c = uchar(args[1])
    for s, p in eng.resolve(st, args[0], node):
        n = eng.strlen_of(s, p, node, 'strchr')
        if is_c(c) and c == 0:
            res.append((s, Ptr(p.obj, add(p.off, n))))
            continue
        lim = n if is_c(c) else add(n, 1)
        for s1, i in find_char(eng, s, p, lim, c, node):
            res.append((s1, NULL if i is None else Ptr(p.obj, add(p.off, i))))
    return res


@lib('strchrnul', note='first occurrence of a character in a string, or its end')
def h_strchrnul(eng, st, args, node):
    res = []
    c = uchar(args[1])
    for s, p in eng.resolve(st, args[0], node):
        n = eng.strlen_of(s, p, node, 'strchrnul')
        for s1, i in find_char(eng, s, p, n, c, node):
            res.append((s1, Ptr(p.obj, add(p.off, n if i is None else i))))
    return res


@lib('memrchr', note='last occurrence of a byte in a block')
def h_memrchr(eng, st, args, node):
    res = []
    c = uchar(args[1])
    for s, p in eng.resolve(st, args[0], node):
        need_bytes(eng, s, p, args[2], node, 'memrchr')
        for s1, i in find_char(eng, s, p, args[2], c, node, last=True):
            res.append((s1, NULL if i is None else Ptr(p.obj, add(p.off, i))))
    return res


@lib('strstr', note='first occurrence of a constant string in a string')
def h_strstr(eng, st, args, node):
    lit = lit_bytes(eng, st, args[1])
    if lit is None or len(lit) == 0:
        raise Unsupported('strstr() with a variable string')
    m, res = len(lit), []
    for s, p in eng.resolve(st, args[0], node):
        n = eng.strlen_of(s, p, node, 'strstr')

        def here(x, k):
            return And(*[eq(eng.byte_at(x, Ptr(p.obj, add(k, j))), lit[j]) for j in range(m)])
        s1, s2, i = s.copy(), s.copy(), fresh_int('pos')
        s1.assume(0 <= i, le(add(i, m), n))
        s1.assume(here(s1, add(p.off, i)))
        s1.assume(eng.forall_bytes(lambda k: Not(here(s1, k)), p.off, add(p.off, i)))
        s2.assume(eng.forall_bytes(lambda k: Not(here(s2, k)), p.off, add(p.off, add(n, 1 - m))))
        for x, r in ((s1, Ptr(p.obj, add(p.off, i))), (s2, NULL)):
            if eng.feasible(x):
                res.append((x, r))
    return res


@lib('strrchr', '__builtin_strrchr', 'rindex', note='last occurrence of a character in a string')
def h_strrchr(eng, st, args, node):
    res = []
    c = uchar(args[1])
    for s, p in eng.resolve(st, args[0], node):
        n = eng.strlen_of(s, p, node, 'strrchr')
        if is_c(c) and c == 0:
            res.append((s, Ptr(p.obj, add(p.off, n))))
            continue
        for s1, i in find_char(eng, s, p, n, c, node, last=True):
            res.append((s1, NULL if i is None else Ptr(p.obj, add(p.off, i))))
    return res


@lib('memchr', '__builtin_memchr', note='first occurrence of a byte in a block')
def h_memchr(eng, st, args, node):
    res = []
    c = uchar(args[1])
    for s, p in eng.resolve(st, args[0], node):
        need_bytes(eng, s, p, args[2], node, 'memchr')
        for s1, i in find_char(eng, s, p, args[2], c, node):
            if i is not None and is_c(c) and c == 0 and is_c(p.obj):
                s1.hints = s1.hints + ((p.obj, add(p.off, i)),)
            res.append((s1, NULL if i is None else Ptr(p.obj, add(p.off, i))))
    return res


@lib('strnlen', note='length of a string, at most n')
def h_strnlen(eng, st, args, node):
    res = []
    for s, p in eng.resolve(st, args[0], node):
        for s1, i in find_char(eng, s, p, args[1], 0, node):
            res.append((s1, args[1] if i is None else i))
    return res


def lit_bytes(eng, st, p):
    return fmt_of(eng, st, p)


def in_set(b, chars):
    return Or(*[eq(b, c) for c in chars])


def span(eng, st, p, chars, node, complement, what):
    """length of the longest prefix of bytes (not) in chars"""
    n = eng.strlen_of(st, p, node, what)
    i = fresh_int('span')
    st.assume(0 <= i, le(i, n))
    b = byte_rng(eng, st, eng.byte_at(st, Ptr(p.obj, add(p.off, i))))

    def inside(x):
        r = in_set(x, chars)
        return Not(r) if complement else r
    st.assume(Or(eq(i, n), Not(inside(b))))
    st.assume(eng.forall_bytes(lambda k: inside(eng.byte_at(st, Ptr(p.obj, k))), p.off, add(p.off, i)))
    return i, n


@lib('strcspn', note='length of the prefix without characters of the set')
def h_strcspn(eng, st, args, node):
    ch = lit_bytes(eng, st, args[1])
    if ch is None:
        raise Unsupported('strcspn with a variable set')
    return [(s, span(eng, s, p, ch, node, True, 'strcspn')[0]) for s, p in eng.resolve(st, args[0], node)]


@lib('strspn', note='length of the prefix of characters of the set')
def h_strspn(eng, st, args, node):
    ch = lit_bytes(eng, st, args[1])
    if ch is None:
        raise Unsupported('strspn with a variable set')
    return [(s, span(eng, s, p, ch, node, False, 'strspn')[0]) for s, p in eng.resolve(st, args[0], node)]


@lib('strpbrk', note='first character of the set in a string')
def h_strpbrk(eng, st, args, node):
    ch = lit_bytes(eng, st, args[1])
    if ch is None:
        raise Unsupported('strpbrk with a variable set')
    res = []
    for s, p in eng.resolve(st, args[0], node):
        i, n = span(eng, s, p, ch, node, True, 'strpbrk')
        a, b = eng.split(s, lt(i, n), node)
        for x in a:
            res.append((x, Ptr(p.obj, add(p.off, i))))
        for x in b:
            res.append((x, NULL))
    return res


def cmp_lit(eng, st, lit, p, n, fold, node, what):
    """formula: the (at most n) first bytes of the string p equal those of the literal"""
    eng.strlen_of(st, p, node, what)
    conds = []
    m = len(lit) + 1 if n is None or not is_c(n) else min(n, len(lit) + 1)
    for i in range(m):
        if n is not None and not is_c(n):
            b, c = eng.byte_at(st, Ptr(p.obj, add(p.off, i))), lit[i] if i < len(lit) else 0
            if fold and is_c(c) and chr(c).isalpha():
                raise Unsupported('%s with variable length' % what)
            conds.append(Implies(gt(n, i), eq(b, c)))
            continue
        c = lit[i] if i < len(lit) else 0
        b = eng.byte_at(st, Ptr(p.obj, add(p.off, i)))
        if fold and is_c(c) and chr(c).isalpha():
            conds.append(Or(eq(b, ord(chr(c).lower())), eq(b, ord(chr(c).upper()))))
        else:
            conds.append(eq(b, c))
    return And(*conds)


def h_cmp(name, hasn, fold):
    def h(eng, st, args, node):
        n = args[2] if hasn else None
        res = []
        for s, (p, q) in bind_args(eng, st, args[:2], node):
            a, b = lit_bytes(eng, s, p), lit_bytes(eng, s, q)
            if a is None and b is not None:
                a, b, p, q = b, a, q, p
            r = fresh_int('cmp')
            s.assume(z3.And(r >= -2147483648, r <= 2147483647))
            if hasn and not is_c(n) and (a is None) == (b is None):
                raise Unsupported('%s with variable length' % name)
            if a is not None and b is not None:
                x, y = (a[:n], b[:n]) if hasn else (a, b)
                if fold:
                    x, y = x.lower(), y.lower()
                res.append((s, 0 if x == y else (-1 if x < y else 1)))
                continue
            if a is not None:
                c = cmp_lit(eng, s, a, q, n, fold, node, name)
                s.assume(Iff(eq(r, 0), c))
            elif not fold and not hasn:
                l1, l2 = eng.strlen_of(s, p, node, name), eng.strlen_of(s, q, node, name)
                s0 = s.copy()
                same = And(eq(l1, l2), eng.forall_bytes(
                    lambda k: eq(eng.byte_at(s0, Ptr(p.obj, add(p.off, k))), eng.byte_at(s0, Ptr(q.obj, add(q.off, k)))),
                    0, l1))
                s.assume(Iff(eq(r, 0), same))
            else:
                eng.strlen_of(s, p, node, name)
                eng.strlen_of(s, q, node, name)
            res.append((s, r))
        return res
    return h


for _n, _h, _f in (('strcmp', False, False), ('strncmp', True, False), ('strcasecmp', False, True),
                   ('strncasecmp', True, True), ('__builtin_strcmp', False, False),
                   ('__builtin_strncmp', True, False)):
    LIBC[_n] = h_cmp(_n, _h, _f)
    NOTES[_n] = 'compares strings'


def number_of(eng, st, p, node, name):
    """the number a string denotes: a function of the string's identity and offset"""
    eng.strlen_of(st, p, node, name)
    key = ('num',) + eng.skey(st, p)
    m = st.strmemo.get(key)
    if m is not None:
        return m[0]
    v = fresh_int('num')
    st.strmemo = dict(st.strmemo)
    st.strmemo[key] = (v, st.objs[p.obj].writes if is_c(p.obj) else st.sym[1])
    return v


@lib('atoi', note='(int)strtol(s, NULL, 10)')
def h_atoi(eng, st, args, node):
    res = []
    for s, p in eng.resolve(st, args[0], node):
        L = number_of(eng, s, p, node, 'atoi')
        v = fresh_int('atoi')
        s.assume(z3.And(v >= -2147483648, v <= 2147483647))
        s.assume(z3.Implies(z3.And(L >= -2147483648, L <= 2147483647), v == L))
        s.event('atoi', p, v, L)
        res.append((s, v))
    return res


def h_strto(name, lo, hi):
    def h(eng, st, args, node):
        res = []
        ten = is_c(args[2]) and args[2] == 10
        for s, p in eng.resolve(st, args[0], node):
            L = number_of(eng, s, p, node, name)
            n = eng.strlen_of(s, p, node, name)
            v = fresh_int(name)
            s.assume(z3.And(v >= lo, v <= hi))
            over = fresh_bool('overflow')
            if ten and lo < 0:
                s.assume(v == z3.If(L > hi, z3.IntVal(hi), z3.If(L < lo, z3.IntVal(lo), L)), over == z3.Or(L > hi, L < lo))
            elif ten:
                s.assume(z3.Implies(z3.And(L >= 0, L <= hi), z3.And(v == L, z3.Not(over))), z3.Implies(L > hi, z3.And(v == hi, over)))
            ep = errno_ptr(eng, s)
            e0 = eng.rd(s, ep, cfront.INT)
            eng.wr(s, ep, cfront.INT, Ite(over, 34, e0))
            for s2, e in eng.resolve(s, args[1], node):
                if is_c(e.obj) and e.obj == 0:
                    pass
                else:
                    k = fresh_int('end')
                    s2.assume(0 <= k, le(k, n))
                    if ten:
                        b = lambda i: byte_rng(eng, s2, eng.byte_at(s2, Ptr(p.obj, add(p.off, i))))
                        digit = lambda c: And(ge(c, 48), le(c, 57))
                        first = b(0)
                        s2.assume(Implies(digit(first), And(ge(k, 1), eng.forall_bytes(lambda i: digit(b(i)), 0, k))))
                        s2.assume(Implies(le(k, 18), And(gt(L, -10 ** 18), lt(L, 10 ** 18))))
                        s2.assume(Implies(ge(k, 1), And(Not(digit(b(k))), digit(b(sub(k, 1))))))
                        s2.assume(Implies(Not(Or(digit(first), eq(first, 43), eq(first, 45), eq(first, 32), And(ge(first, 9), le(first, 13)))), eq(k, 0)))
                    eng.deref_ok(s2, e, 8, node, name + ' end pointer', write=True)
                    eng.wr(s2, e, cfront.ptr(CHAR), Ptr(p.obj, add(p.off, k)))
                s2.event('strtol', p, v, L)
                res.append((s2, v))
        return res
    return h


for _n, _lo, _hi in (('strtol', -(1 << 63), (1 << 63) - 1), ('strtoll', -(1 << 63), (1 << 63) - 1), ('strtoul', 0, (1 << 64) - 1), ('strtoull', 0, (1 << 64) - 1)):
    LIBC[_n] = h_strto(_n, _lo, _hi)
    NOTES[_n] = 'number and end position inside the string; ERANGE if it does not fit'


@lib('__ctype_b_loc', 'isspace', 'isdigit', 'isprint', 'isalnum', 'isalpha', 'toupper', 'tolower', 'isxdigit',
     note='character classification')
def h_isx(eng, st, args, node):
    if not args:
        raise Unsupported('ctype table')
    r = fresh_int('is')
    return [(st, r)]


@lib('isspace')
def h_isspace(eng, st, args, node):
    c = ival(args[0])
    return [(st, eng.cint(Or(eq(c, 32), And(le(9, c), le(c, 13)))))]


def ctype(name, f):
    @lib(name)
    def h(eng, st, args, node):
        return [(st, f(eng, ival(args[0])))]


up, lo = lambda c: And(le(65, c), le(c, 90)), lambda c: And(le(97, c), le(c, 122))
dg = lambda c: And(le(48, c), le(c, 57))
ctype('tolower', lambda e, c: Ite(up(c), add(c, 32), c))
ctype('toupper', lambda e, c: Ite(lo(c), sub(c, 32), c))
ctype('isupper', lambda e, c: e.cint(up(c)))
ctype('islower', lambda e, c: e.cint(lo(c)))
ctype('isalpha', lambda e, c: e.cint(Or(up(c), lo(c))))
ctype('isalnum', lambda e, c: e.cint(Or(up(c), lo(c), dg(c))))
ctype('isxdigit', lambda e, c: e.cint(Or(dg(c), And(le(65, c), le(c, 70)), And(le(97, c), le(c, 102)))))
ctype('isblank', lambda e, c: e.cint(Or(eq(c, 32), eq(c, 9))))
ctype('iscntrl', lambda e, c: e.cint(Or(And(le(0, c), le(c, 31)), eq(c, 127))))
ctype('isprint', lambda e, c: e.cint(And(le(32, c), le(c, 126))))


@lib('isdigit')
def h_isdigit(eng, st, args, node):
    c = ival(args[0])
    return [(st, eng.cint(And(le(48, c), le(c, 57))))]


# ------------------------------------------------------------------ formatted output
def numlen(v):
    return uf('NUMLEN', I, I)(toz(v))


def pieces_of(eng, st, fmt, args, node, what):
    f = fmt_of(eng, st, fmt)
    if f is None:
        if is_c(fmt.obj) and fmt.obj in st.objs and 'lit' not in st.objs[fmt.obj].meta:
            eng.check(st, False, '%s: the format is a constant' % what, node)
            return []
        raise Unsupported('%s with a variable format' % what)
    out, k = [], 0
    for p in parse_fmt(f):
        if p[0] == 'lit':
            out.append(('lit', p[1]))
            continue
        _, fl, w, prec, mod, c = p
        if w == b'*':
            k += 1
        pr = None
        if prec == b'*':
            pr = args[k]
            k += 1
        elif prec is not None:
            pr = int(prec)
        if c == b'm':
            n = fresh_int('errlen')
            st.assume(n >= 0)
            out.append(('any', n))
            continue
        if k >= len(args):
            eng.check(st, False, '%s: enough arguments for the format' % what, node)
            return out
        a = args[k]
        k += 1
        if c == b's':
            if not isinstance(a, Ptr):
                raise Unsupported('%s argument')
            if w:
                raise Unsupported('width of a string')
            qs = eng.resolve(st, a, node)
            if len(qs) != 1 or not is_c(qs[0][1].obj):
                raise Unsupported('%%s of an undetermined string in %s' % what)
            q = qs[0][1]
            n = eng.strlen_of(st, q, node, what)
            if pr is not None:
                if is_c(n) and is_c(pr):
                    m = n if pr < 0 or n <= pr else pr
                else:
                    m = z3.If(z3.Or(toz(pr) < 0, toz(n) <= toz(pr)), toz(n), toz(pr))
            else:
                m = n
            out.append(('str', q, m, st.copy()))
        elif c in (b'd', b'i', b'u', b'x', b'X', b'o', b'c'):
            v = ival(a)
            if c == b'c':
                out.append(('chr', v))
            else:
                if w == b'*':
                    raise Unsupported('variable width')
                if w or c in (b'x', b'X', b'o'):
                    # a minimum width or another base: the text is not modelled as a function of the number
                    n, W = fresh_int('numlen'), int(w or 0)
                    st.assume(n >= max(1, W), n <= max(22, W), z3.Implies(z3.And(toz(v) > -10 ** 10, toz(v) < 10 ** 10), n <= max(11, W)))
                    out.append(('anynum', n))
                    continue
                if is_z3(v) and not z3.is_const(v):
                    w, v = v, fresh_int('num')
                    st.assume(v == w)
                st.assume(z3.And(numlen(v) >= 1, numlen(v) <= 22))
                if c in (b'd', b'i', b'u', b'x', b'X'):
                    st.assume(z3.Implies(z3.And(toz(v) > -10 ** 10, toz(v) < 10 ** 10), numlen(v) <= 11))
                st.assume(z3.Implies(z3.And(toz(v) >= 0, toz(v) < 10 ** 5), numlen(v) <= 5))
                out.append(('num', v, c.decode()))
        elif c in (b'f', b'g', b'e', b'p'):
            n = fresh_int('fl')
            st.assume(z3.And(n >= 1, n <= 400))
            out.append(('any', n))
        else:
            raise Unsupported('conversion %s' % c)
    return out


def piece_len(p):
    if p[0] == 'lit':
        return len(p[1])
    if p[0] == 'str':
        return p[2]
    if p[0] == 'num':
        return numlen(p[1])
    if p[0] == 'chr':
        return 1
    return p[1]


def total_len(pieces):
    t = 0
    for p in pieces:
        t = add(t, piece_len(p))
    return t


def build_string(eng, st, pieces, name, meta=None):
    """fresh heap string with the given content"""
    t = simp(total_len(pieces))
    q = eng.new_obj(st, add(t, 1), 'heap', name)
    st.event('alloc', q.obj)
    off = 0
    from cexec import _litfun
    for p in pieces:
        n = piece_len(p)
        if p[0] == 'lit':
            eng.wr_bulk(st, Ptr(q.obj, off), 'copy', n, _litfun(p[1]))
        elif p[0] == 'str':
            _, src, m, s0 = p
            eng.wr_bulk(st, Ptr(q.obj, off), 'copy', n,
                        lambda k, src=src, s0=s0: eng.byte_at(s0, Ptr(src.obj, add(src.off, k))))
        elif p[0] == 'num':
            v = toz(p[1])
            g = uf('NUMTXT', I, I, I)
            k = z3.Int('nk')
            st.assume(z3.ForAll([k], z3.And(g(v, k) >= 45, g(v, k) <= 57, g(v, k) != 47, g(v, k) != 46),
                                patterns=[g(v, k)]))
            eng.wr_bulk(st, Ptr(q.obj, off), 'copy', n, lambda k, v=v, g=g: g(v, toz(k)))
        elif p[0] == 'chr':
            eng.wr_bulk(st, Ptr(q.obj, off), 'fill', 1, uchar(p[1]))
        else:
            g = fresh_fun('TXT', I, I)
            k = z3.Int('nk')
            lo, hi = (32, 102) if p[0] == 'anynum' else (1, 255)
            st.assume(z3.ForAll([k], z3.And(g(k) >= lo, g(k) <= hi), patterns=[g(k)]))
            eng.wr_bulk(st, Ptr(q.obj, off), 'copy', n, lambda k, g=g: g(toz(k)))
        off = simp(add(off, n)) if is_z3(off) or is_z3(n) else off + n
    eng.wr(st, Ptr(q.obj, t), CHAR, 0)
    eng.assume_len(st, q, t)
    set_fmt(st, q, pieces)
    return q, t


def set_fmt(st, q, pieces):
    o = st.objs[q.obj]
    m = dict(o.meta)
    m.update(fmt=tuple(pieces), fmtwrites=o.writes)
    st.objs[q.obj] = o.with_(meta=m)


def made_of(st, p):
    """the pieces a string was formatted from, unless it was modified since"""
    o = st.objs.get(p.obj) if isinstance(p, Ptr) and is_c(p.obj) else None
    if o is None or 'fmt' not in o.meta or not (is_c(p.off) and p.off == 0) or o.meta.get('fmtwrites') is not o.writes:
        return None
    return o.meta['fmt']


@lib('xasprintf', note='fresh string with the formatted content (dies on failure)')
def h_xasprintf(eng, st, args, node):
    pc = pieces_of(eng, st, args[1], args[2:], node, 'asprintf')
    q, t = build_string(eng, st, pc, 'asprintf@%d' % st.frames[-1].unit.line(node))
    res = []
    for s, d in eng.resolve(st, args[0], node):
        eng.deref_ok(s, d, 8, node, 'asprintf result', write=True)
        eng.wr(s, d, cfront.ptr(CHAR), q)
        res.append((s, t))
    return res


@lib('asprintf', 'rpl_asprintf', note='formats into a fresh string or fails with -1')
def h_asprintf(eng, st, args, node):
    s2 = st.copy()
    return h_xasprintf(eng, st, args, node) + [(s2, -1)]


def va_args(eng, st, ap):
    if isinstance(ap, Ptr) and is_c(ap.obj):
        o = st.objs.get(ap.obj)
        if o is not None and 'va' in o.meta:
            return o.meta['va']
    raise Unsupported('va_list without known arguments')


@lib('__builtin_va_start', '__builtin_c23_va_start', note='variable arguments of the current call')
def h_va_start(eng, st, args, node):
    ap = args[0]
    p = ap.ptr if isinstance(ap, StructVal) else ap
    va = st.frames[-1].varargs
    o = st.objs[p.obj]
    m = dict(o.meta)
    m['va'] = list(va or [])
    st.objs[p.obj] = o.with_(meta=m)
    return [(st, None)]


@lib('__builtin_va_end', note='')
def h_va_end(eng, st, args, node):
    return [(st, None)]


@lib('__builtin_va_copy', note='')
def h_va_copy(eng, st, args, node):
    p, q = [a.ptr if isinstance(a, StructVal) else a for a in args]
    m = dict(st.objs[p.obj].meta)
    if 'va' in st.objs[q.obj].meta:
        m['va'] = list(st.objs[q.obj].meta['va'])
    st.objs[p.obj] = st.objs[p.obj].with_(meta=m)
    return [(st, None)]


@lib('xvasprintf', note='fresh string with the formatted content (dies on failure)')
def h_xvasprintf(eng, st, args, node):
    ap = args[2]
    ap = ap.ptr if isinstance(ap, StructVal) else ap
    va = va_args(eng, st, ap)
    try:
        pc = pieces_of(eng, st, args[1], va, node, 'vasprintf')
    except Unsupported:
        n = fresh_int('vaslen')
        st.assume(n >= 0, n < (1 << 31))
        pc = [('any', n)]
    q, t = build_string(eng, st, pc, 'vasprintf@%d' % st.frames[-1].unit.line(node))
    res = []
    for s, d in eng.resolve(st, args[0], node):
        eng.deref_ok(s, d, 8, node, 'vasprintf result', write=True)
        eng.wr(s, d, cfront.ptr(CHAR), q)
        res.append((s, t))
    return res


def bounded_print(eng, st, dst, size, pieces, node, what):
    """snprintf semantics"""
    t = total_len(pieces)
    res = []
    for s, d in eng.resolve(st, dst, node):
        need_bytes(eng, s, d, size, node, what, write=True)
        tmp, _ = build_string(eng, s, pieces, 'formatted text')
        old = s.copy()
        s.objs[tmp.obj] = s.objs[tmp.obj].with_(alive=False, kind='temp')
        m = Ite(lt(t, size), t, sub(size, 1)) if not (is_c(t) and is_c(size)) else min(t, size - 1)
        if is_c(size) and size == 0:
            res.append((s, t))
            continue
        eng.wr_bulk(s, d, 'copy', m, lambda k, old=old, tmp=tmp: eng.byte_at(old, Ptr(tmp.obj, k)))
        eng.wr(s, Ptr(d.obj, add(d.off, m)), CHAR, 0)
        if is_c(d.obj):
            eng.assume_len(s, d, m)
            if is_c(d.off) and d.off == 0 and d.obj in s.objs and eng.proves(s, lt(t, size), 300):
                set_fmt(s, d, pieces)
        res.append((s, t))
    return res


@lib('snprintf', 'rpl_snprintf', note='formats at most size-1 bytes and a NUL; returns the full length')
def h_snprintf(eng, st, args, node):
    pc = pieces_of(eng, st, args[2], args[3:], node, 'snprintf')
    return bounded_print(eng, st, args[0], args[1], pc, node, 'snprintf')


# ------------------------------------------------------------------ errno and misc
def errno_ptr(eng, st):
    oid = 900
    if oid not in st.objs:
        st.objs[oid] = Obj(oid, 4, 'static', True, None, 0, {}, 'errno')
    return Ptr(oid, 0)


def set_errno(eng, st, v=None):
    p = errno_ptr(eng, st)
    if v is None:
        v = fresh_int('errno')
        st.assume(z3.And(v >= 1, v <= 4095))
    eng.wr(st, p, INT, v)
    return v


@lib('__errno_location', note='address of errno')
def h_errno(eng, st, args, node):
    return [(st, errno_ptr(eng, st))]


@lib('getprogname', note='program name string')
def h_getprogname(eng, st, args, node):
    oid = 901
    if oid not in st.objs:
        st.objs[oid] = Obj(oid, 1 << 20, 'static', True, None, 0, {}, 'progname')
        n = z3.Int('progname.len')
        st.assume(n >= 0, n < (1 << 20))
        eng.assume_len(st, Ptr(oid, 0), n)
    return [(st, Ptr(oid, 0))]


@lib('time', note='current time (non-negative)')
def h_time(eng, st, args, node):
    v = fresh_int('time')
    st.assume(z3.And(v >= 0, v < (1 << 40)))
    st.event('time', v)
    return [(st, v)]


@lib('__builtin_expect', note='identity')
def h_expect(eng, st, args, node):
    return [(st, args[0])]


@lib('__builtin_unreachable', note='')
def h_unreach(eng, st, args, node):
    eng.check(st, False, 'unreachable code is not reached', node)
    return []


@lib('__builtin_object_size', note='')
def h_objsize(eng, st, args, node):
    return [(st, (1 << 64) - 1)]


# ------------------------------------------------------------------ libev
EVOFF = {'active': 0, 'pending': 4, 'priority': 8}


def ev_field(eng, st, w, f):
    return eng.rd(st, Ptr(w.obj, add(w.off, EVOFF[f])), INT)


def ev_set(eng, st, w, f, v):
    eng.wr(st, Ptr(w.obj, add(w.off, EVOFF[f])), INT, v)


def h_start(kind):
    def h(eng, st, args, node):
        res = []
        for s, w in eng.resolve(st, args[-1], node):
            need_bytes(eng, s, w, 16, node, 'ev_%s_start: watcher' % kind)
            hook = eng.config.get(kind + '_start')
            if hook:
                hook(eng, s, w, node)
            ev_set(eng, s, w, 'active', 1)
            s.event('ev_start', kind, w.obj, w.off, None)
            res.append((s, None))
        return res
    return h


def h_stop(kind):
    def h(eng, st, args, node):
        res = []
        for s, w in eng.resolve(st, args[-1], node):
            need_bytes(eng, s, w, 16, node, 'ev_%s_stop: watcher' % kind)
            ev_set(eng, s, w, 'active', 0)
            ev_set(eng, s, w, 'pending', 0)
            s.event('ev_stop', kind, w.obj, w.off)
            res.append((s, None))
        return res
    return h


for _k in ('io', 'timer', 'signal', 'child', 'async', 'stat', 'idle', 'prepare', 'check', 'periodic'):
    LIBC['ev_%s_start' % _k] = h_start(_k)
    LIBC['ev_%s_stop' % _k] = h_stop(_k)
    NOTES['ev_%s_start' % _k] = 'libev: marks the watcher active'
    NOTES['ev_%s_stop' % _k] = 'libev: marks the watcher inactive and clears its pending event'


@lib('ev_feed_event', note='libev: marks an event pending for the watcher')
def h_feed(eng, st, args, node):
    res = []
    for s, w in eng.resolve(st, args[0], node):
        need_bytes(eng, s, w, 16, node, 'ev_feed_event: watcher')
        ev_set(eng, s, w, 'pending', 1)
        s.event('ev_feed', w.obj, w.off, args[1])
        res.append((s, None))
    return res


@lib('ev_now', 'ev_time', note='libev: the current time (constant within a callback)')
def h_now(eng, st, args, node):
    if 'now' not in st.ghost:
        st.ghost['now'] = z3.Real('now')
    return [(st, st.ghost['now'])]


@lib('ev_default_loop_uc_', 'ev_default_loop', note='libev default loop')
def h_loop(eng, st, args, node):
    return [(st, Ptr(902, 0))]
