"""src/client/conf.c: the client's configuration file (C17), wiping what was read from it (C26)

Ghost file: FL(p) is the p-th byte of the file, N its length, fp what was read so far.  A logical line is the ghost
text J[0..m) joined from physical lines by the documented rule; a line handed to parse_conf_file() is the text b[0..n).
"""
from vtask import *
from libc import *
import libc

CONF = ['src/client/conf.c']
C17, C26 = ['C17'], ['C26']
FL = uf('FILE', I, I)
MAXFILE = 1 << 29


def live(s, p):
    return is_c(p.obj) and p.obj in s.objs and s.objs[p.obj].alive is True


def blank(c):
    return Or(eq(c, 32), eq(c, 9))


# ---------------------------------------------------------------- util.c (verified by util.skip)
def c_skip(chars):
    def h(eng, st, a, node):
        res = []
        for s, p in eng.resolve(st, a[0], node):
            i, n = libc.span(eng, s, p, chars, node, False, 'skip')
            g = s.ghost
            if 'skips' in g:
                g['skips'] = g['skips'] + ((p, i),)
            res.append((s, Ptr(p.obj, add(p.off, i))))
        return res
    return h


@task('util.skip', ['C17', 'C14', 'C13'], ['src/common/util.c'])
def t_skip(T):
    for fn, chars in (('skip_whitespace', (32, 9)), ('skip_newlines', (13, 10))):
        def inv(L, chars=chars):
            p = L.S.ghost['p']
            q = [L.eng.rd(L.S, Ptr(o, 0), t) for v in L.frame.names.values() for o, t in v[-1:] if o in L.S.objs and cat(t) == 'p']
            q = [x for x in q if x.obj is p.obj or is_c(x.obj) and x.obj == p.obj]
            out = []
            for x in q:
                out.append(('only skipped characters so far', And(le(p.off, x.off), le(x.off, add(p.off, L.S.ghost['n'])), L.eng.forall_bytes(
                    lambda k: libc.in_set(L.eng.byte_at(L.S, Ptr(p.obj, k)), chars), p.off, x.off))))
            return out

        def index(o, t, chars=chars):
            """a counter may be the position instead"""
            def f(s):
                p, i = s.ghost['p'], eng.rd(s, Ptr(o, 0), t)
                return And(le(0, i), le(i, s.ghost['n']), eng.forall_bytes(
                    lambda k: libc.in_set(eng.byte_at(s, Ptr(p.obj, k)), chars), p.off, add(p.off, i)))
            return f

        def spec(eng, st):
            return LoopSpec(inv=inv, auto=False, cands=[('position ' + nm, index(*v[-1])) for nm, v in st.frames[-1].names.items()
                                                        if v and v[-1][0] in st.objs and cat(v[-1][1]) == 'i'])
        eng = T.eng(loops={'*': spec})
        st = eng.start()
        p = eng.new_string(st, 'text', 'param')
        n = eng.strlen_of(st, p)
        k = fresh_int('from')
        st.assume(k >= 0, k <= n)
        p = Ptr(p.obj, k)
        st.ghost.update(p=p, n=sub(n, k))
        for s, r in T.run(eng, fn, st, [p]):
            eng.cover(s, fn)
            eng.check(s, And(eq(r.obj, p.obj), le(k, r.off), le(r.off, n)), '%s: a position in the text' % fn)
            eng.check(s, Not(libc.in_set(eng.byte_at(s, r), chars)), '%s: skips all of them' % fn)
            eng.check(s, eng.forall_bytes(lambda j: libc.in_set(eng.byte_at(s, Ptr(p.obj, j)), chars), k, r.off), '%s: skips nothing else' % fn)


@task('util.chomp', ['C17', 'C14'], ['src/common/util.c'])
def t_chomp(T):
    eng = T.eng()
    st = eng.start()
    p = eng.new_string(st, 'text', 'param')
    n = eng.strlen_of(st, p)
    s0 = st.copy()
    last = And(gt(n, 0), eq(eng.byte_at(s0, Ptr(p.obj, sub(n, 1))), 10))
    m = Ite(last, sub(n, 1), n)
    for s, r in T.run(eng, 'chomp', st, [p]):
        eng.cover(s, 'chomp')
        eng.check(s, And(eq(eng.byte_at(s, Ptr(p.obj, m)), 0), eng.forall_bytes(
            lambda k: eq(eng.byte_at(s, Ptr(p.obj, k)), eng.byte_at(s0, Ptr(p.obj, k))), 0, m)), 'chomp: exactly one trailing newline is removed')


def c_chomp(eng, st, a, node):
    """chomp() (verified by util.chomp)"""
    p = a[0]
    n = eng.strlen_of(st, p, node, 'chomp')
    res = []
    x, y = eng.split(st, And(gt(n, 0), eq(eng.byte_at(st, Ptr(p.obj, add(p.off, sub(n, 1)))), 10)), node)
    for s in x:
        eng.wr(s, Ptr(p.obj, add(p.off, sub(n, 1))), CHAR, 0)
        eng.assume_len(s, p, sub(n, 1))
        res.append((s, None))
    return res + [(s, None) for s in y]


# ---------------------------------------------------------------- wrappers.c
@task('wrappers.xfgets', ['C17', 'C22'], ['lib/wrappers.c'])
def t_xfgets(T):
    def c_fgets(eng, st, a, node):
        g = st.ghost
        buf, size = a[0], a[1]
        eng.check(st, And(ptr_eq(buf, g['buf']), eq(size, g['size']), ptr_eq(a[2], g['f'])), 'fgets(): the given buffer, size and stream', node)
        need_bytes(eng, st, buf, size, node, 'fgets', write=True)
        end, bad = st.copy(), st.copy()
        n = fresh_int('nread')
        st.assume(n >= 0, le(n, sub(size, 1)))
        eng.wr_bulk(st, buf, 'havoc', n, lambda k: uf('LINE', I, I)(toz(k)))
        st.assume(eng.forall_bytes(lambda k: ne(eng.byte_at(st, Ptr(buf.obj, k)), 0), buf.off, add(buf.off, n)))
        eng.wr(st, Ptr(buf.obj, add(buf.off, n)), CHAR, 0)
        eng.assume_len(st, buf, n)
        st.ghost['n'] = n
        bad.ghost['err'] = True
        return [(st, buf), (end, NULL), (bad, NULL)]
    eng = T.eng(contracts={'fgets': c_fgets, 'ferror': lambda e, s, a, n: [(s, 1 if s.ghost.get('err') else 0)]})
    st = eng.start()
    size = fresh_int('size')
    st.assume(size >= 1, size <= 2147483647)
    buf = eng.new_obj(st, size, 'param', 'buffer')
    f = eng.new_obj(st, 1, 'param', 'stream')
    st.ghost.update(buf=buf, size=size, f=f)
    for s, r in T.run(eng, 'xfgets', st, [buf, size, f]):
        eng.cover(s, 'xfgets')
        g = s.ghost
        eng.check(s, 'err' not in g, 'xfgets: an error ends the program')
        eng.check(s, eq(r, g.get('n', 0)), 'xfgets: the length of what was read, 0 at the end')
    for s in eng.exits:
        eng.check(s, s.ghost.get('err') is True, 'xfgets: only an error ends the program')


# ---------------------------------------------------------------- read_conf_line()
def c_xfgets(eng, st, a, node):
    """the next physical line, or as much of it as fits; the logical line grows by the documented rule"""
    g = st.ghost
    buf, size = a[0], a[1]
    eng.check_p(st, ge(size, 2), 'xfgets(): there is room for at least one character', C17, 'pre', node)
    need_bytes(eng, st, buf, size, node, 'xfgets', write=True)
    eng.check_p(st, g['done'] is False, 'no further line is read when a line is complete', C17, 'pre', node)
    fp, N = g['fp'], g['N']
    m, J = g['m'], g['J']
    old = st.copy()
    end = st.copy()
    n = fresh_int('len')
    st.assume(n >= 1, le(n, sub(size, 1)), le(add(fp, n), N))
    st.assume(eng.forall_bytes(lambda k: FL(toz(k)) != 10, fp, sub(add(fp, n), 1)))
    nl = FL(toz(sub(add(fp, n), 1))) == 10
    st.assume(Or(nl, eq(n, sub(size, 1)), eq(add(fp, n), N)))
    eng.wr_bulk(st, buf, 'copy', n, lambda k: FL(toz(add(fp, k))))
    eng.wr(st, Ptr(buf.obj, add(buf.off, n)), CHAR, 0)
    J2, k = fresh_fun('J', I, I), z3.Int('k')
    mz, fz = toz(m), toz(fp)
    st.assume(z3.ForAll([k], J2(k) == z3.If(k < mz, J(k), FL(fz + k - mz)), patterns=[J2(k)]))
    g['fp'] = add(fp, n)
    end.assume(eq(fp, N))
    end.ghost['done'] = True
    end.ghost['eof'] = True
    m2 = add(m, n)
    g['J'] = J2
    res = [(end, 0)]
    a_, b_ = eng.split(st, nl, node)
    for s in a_:
        cont = And(ge(m2, 2), J2(toz(sub(m2, 2))) == 92)
        c_, d_ = eng.split(s, cont, node)
        for x in c_:
            x.ghost['m'] = sub(m2, 2)
            x.desc += ('continued line',)
            res.append((x, n))
        for x in d_:
            x.ghost['m'] = Ite(And(ge(m2, 2), J2(toz(sub(m2, 2))) == 13), sub(m2, 2), sub(m2, 1))
            x.ghost['done'] = True
            x.ghost['ended'] = True
            x.desc += ('complete line',)
            res.append((x, n))
    for s in b_:
        # the buffer is full, or the file ends without a newline
        s.ghost['m'] = m2
        e_, f_ = eng.split(s, eq(n, sub(size, 1)), node)
        for x in e_:
            x.desc += ('part of a line',)
            res.append((x, n))
        for x in f_:
            x.ghost['done'] = True
            x.desc += ('unterminated last line',)
            res.append((x, n))
    return res


def text_is(eng, s, p, J, m):
    return And(eng.forall_bytes(lambda k: eq(uchar(eng.byte_at(s, Ptr(p.obj, add(p.off, k)))), J(toz(k))), 0, m))


@task('conf.read_line', ['C17'], CONF)
def t_read_line(T):
    def buffer_of(L, s):
        for v in L.frame.names.values():
            for o, t in v[-1:]:
                if o in s.objs and cat(t) == 'p':
                    p = L.eng.rd(s, Ptr(o, 0), t)
                    if is_c(p.obj) and p.obj in s.objs and s.objs[p.obj].kind == 'heap':
                        return o, t, p
        raise Unsupported('line buffer not found')

    def havoc(L):
        eng, s = L.eng, L.S
        o, t, p = buffer_of(L, L.S0)
        sz = fresh_int('size')
        s.assume(sz >= 512)
        if p.obj in s.objs:
            s.objs[p.obj] = s.objs[p.obj].with_(alive=False)
        q = eng.new_obj(s, sz, 'heap', 'line')
        eng.wr(s, Ptr(o, 0), t, q)
        g = s.ghost
        J = fresh_fun('J', I, I)
        m, fp = fresh_int('m'), fresh_int('fp')
        g.update(J=J, m=m, fp=fp, done=False)
        g.pop('eof', None)
        g.pop('ended', None)
        # the text so far is in the buffer
        s.assume(m >= 0, m < sz)
        eng.wr_bulk(s, q, 'copy', m, lambda k: J(toz(k)))
        z = fresh_int('nul')
        s.assume(z >= 0, z <= 255, z3.Implies(m > 0, z == 0))
        eng.wr(s, Ptr(q.obj, m), cfront.UCHAR, z)

    def inv(L):
        eng, s = L.eng, L.S
        g = s.ghost
        o, t, p = buffer_of(L, s)
        ob = s.objs[p.obj]
        pos, size = L.var('pos'), L.var('size')
        m = g['m']
        r = [('the line is incomplete', g['done'] is False)]
        r.append(('the buffer is live', And(ob.alive is True, eq(p.off, 0), eq(ob.size, size))))
        r.append(('room for more', And(eq(pos, m), ge(m, 0), le(m, sub(size, 2)))))
        r.append(('the size is bounded by the text', And(ge(size, 512), le(size, add(514, mul(2, g['fp']))))))
        r.append(('the file position', And(le(m, g['fp']), le(g['fp'], g['N']))))
        r.append(('the buffer holds the text so far', And(text_is(eng, s, p, g['J'], m), Implies(gt(m, 0), eq(eng.byte_at(s, Ptr(p.obj, m)), 0)))))
        r.append(('the text has neither NUL nor newline', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < toz(m)), z3.And(g['J'](K) >= 1, g['J'](K) <= 255, g['J'](K) != 10)), patterns=[g['J'](K)])))
        return r
    K = z3.Int('K')

    def c_realloc(eng, st, a, node):
        g = st.ghost
        r = libc.LIBC['xrealloc'](eng, st, a, node)
        return r
    eng = T.eng(contracts={'xfgets': c_xfgets, 'chomp': c_chomp}, loops={'*': LoopSpec(inv=inv, post_havoc=havoc, auto=False)})
    st = eng.start()
    N, fp = fresh_int('N'), fresh_int('fp')
    st.assume(N >= 0, N < MAXFILE, fp >= 0, fp <= N)
    st.assume(z3.ForAll([K], z3.And(FL(K) >= 1, FL(K) <= 255), patterns=[FL(K)]))
    f = eng.new_obj(st, 1, 'param', 'stream')
    st.ghost.update(N=N, fp=fp, m=0, J=fresh_fun('J', I, I), done=False)
    fn = 'read_conf_line'
    for s, p in T.run(eng, fn, st, [f]):
        eng.cover(s, fn)
        g = s.ghost
        m, J = g['m'], g['J']
        eng.check_p(s, g['done'] is True, fn + ': the whole logical line is read', C17)
        for x, q in eng.resolve(s, p):
            if is_c(q.obj) and q.obj == 0:
                eng.check_p(x, And(g.get('eof') is True, eq(m, 0)), fn + ': no line at the end of the file only', C17)
                heap = [o for o in x.objs.values() if o.kind == 'heap' and o.alive is True]
                eng.check_p(x, not heap, fn + ': memory is released', C17)
                continue
            eng.check_p(x, Not(And(g.get('eof') is True, eq(m, 0))), fn + ': no line is made up', C17)
            o = x.objs[q.obj]
            ok = o.alive is True and o.kind == 'heap'
            eng.check_p(x, And(ok, eq(q.off, 0), lt(m, o.size)), fn + ': a heap string', C17)
            eng.check_p(x, And(text_is(eng, x, q, J, m), eq(eng.byte_at(x, Ptr(q.obj, m)), 0)), fn + ': exactly the joined line, NUL-terminated', C17)


# ---------------------------------------------------------------- parse_conf_file()
STRINGS = ('encryption_method', 'identity', 'password', 'port', 'server', 'tls_ciphers')
NUMBERS = ('delay', 'timeout')
KEYS = STRINGS + NUMBERS
DEFAULTS = (('password', b'change-me'), ('port', b'5668'), ('server', b'localhost'), ('timeout', 15), (
    'tls_ciphers', b'PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA:PSK-3DES-EDE-CBC-SHA:PSK-RC4-SHA'))


class Line:
    """a configuration line and its documented meaning (as ghost values)"""

    def __init__(self, eng, st):
        self.p = eng.new_string(st, 'line', 'heap')
        n = self.n = eng.strlen_of(st, self.p)
        st.assume(n < MAXFILE)
        self.s0 = st.copy()
        self.eng = eng
        ob = self.p.obj
        b = self.b = lambda j: eng.byte_at(self.s0, Ptr(ob, j))

        def first(name, lo, stop):
            k = fresh_int(name)
            st.assume(le(lo, k), le(k, n), eng.forall_bytes(lambda j: Not(stop(b(j))), lo, k), Or(eq(k, n), stop(b(k))))
            return k
        nb = lambda c: Not(blank(c))
        self.k0 = k0 = first('k0', 0, nb)
        self.k1 = k1 = first('k1', k0, lambda c: Or(blank(c), eq(c, 61)))
        self.k2 = k2 = first('k2', k1, nb)
        k2n = fresh_int('k2n')
        st.assume(eq(k2n, Ite(lt(k2, n), add(k2, 1), n)))
        self.k3 = k3 = first('k3', k2n, nb)
        q = self.q = fresh_int('quote')
        self.start = fresh_int('start')
        qd = And(lt(k3, n), Or(eq(b(k3), 34), eq(b(k3), 39)))
        st.assume(eq(q, Ite(qd, b(k3), 0)), eq(self.start, Ite(qd, add(k3, 1), k3)))
        self.ES, self.OL = fresh_fun('ES', I, B), fresh_fun('OL', I, I)
        st.assume(Not(self.ES(toz(self.start))), self.OL(toz(self.start)) == 0)
        E = self.E = fresh_int('E')
        j = z3.Int('j')
        st.assume(le(self.start, E), le(E, n))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(toz(self.start) <= j, j < toz(E)), tob(Not(self.term(j)))), patterns=[self.ES(j)]))
        st.assume(Or(eq(E, n), self.term(E)))
        self.k4 = first('k4', Ite(lt(E, n), add(E, 1), n), nb)

    def term(self, i):
        """an unescaped character ends the value"""
        c = self.b(i)
        return And(Not(self.ES(toz(i))), Ite(ne(self.q, 0), eq(c, self.q), Or(blank(c), eq(c, 35))))

    def step(self, i):
        """defining equation of ES, OL at i"""
        z = toz(i)
        es = And(Not(self.ES(z)), eq(self.b(i), 92))
        return Implies(And(le(self.start, i), lt(i, self.E)), And(
            Iff(self.ES(z + 1), es), self.OL(z + 1) == self.OL(z) + z3.If(tob(es), 0, 1)))

    def emitted(self, i):
        return Or(self.ES(toz(i)), ne(self.b(i), 92))

    def empty(self):
        return Or(eq(self.k0, self.n), eq(self.b(self.k0), 35))

    def key_is(self, k):
        return And(eq(sub(self.k1, self.k0), len(k)), *[eq(self.b(add(self.k0, i)), ord(c)) for i, c in enumerate(k)])

    def syntax_ok(self):
        n, b = self.n, self.b
        return And(lt(self.k2, n), eq(b(self.k2), 61), lt(self.k3, n), ne(b(self.k3), 35))

    def rest_ok(self):
        """only blanks and a comment follow the value"""
        return Or(eq(self.k4, self.n), eq(self.b(self.k4), 35))

    def value_is(self, s, p):
        eng = self.eng
        j = z3.Int('jv')
        ol = self.OL(j)
        v = eng.byte_at(s, Ptr(p.obj, add(p.off, ol)))
        return And(eq(eng.byte_at(s, Ptr(p.obj, add(p.off, self.OL(toz(self.E))))), 0), z3.ForAll([j], z3.Implies(
            z3.And(toz(self.start) <= j, j < toz(self.E), tob(self.emitted(j))), tob(eq(v, self.b(j)))), patterns=[ol]))


def settle(eng, st, node=None):
    """the line processed last was dealt with"""
    g = st.ghost
    ln = g.get('line')
    if ln is None:
        return
    fn = 'parse_conf_file'
    sets = g['sets']
    eng.check_p(st, Implies(ln.empty(), not sets), fn + ': blank lines and comments are ignored', C17, node=node)
    eng.check_p(st, Or(ln.empty(), len(sets) == 1), fn + ': every other line sets its variable once', C17, node=node)
    eng.check_p(st, st.objs[ln.p.obj].alive is False, fn + ': the line is released', ['C17', 'C26'], node=node)
    eng.check_p(st, Or(ln.empty(), g.get('wiped') is True and ln.p.obj not in g['plain']), fn + ': the line is overwritten before it is released', C26, node=node)
    for s, key, v in sets:
        q = g.get('valp')
        if q is not None and q.obj in st.objs:
            eng.check_p(st, q.obj not in g['plain'], fn + ': the compiler must not drop the overwriting of the value', C26, node=node)
            eng.check_p(st, eng.forall_bytes(lambda k: eq(eng.byte_at(st, Ptr(q.obj, add(q.off, k))), 0), 0, ln.OL(toz(ln.E))),
                        fn + ': the copy of the value is overwritten', C26, node=node)


def c_read_conf_line(eng, st, a, node):
    eng.check_p(st, And(ptr_eq(a[0], st.ghost.get('f', NULL)), st.ghost.get('open', False)), 'read_conf_line(): reads the open file', C17, 'pre', node)
    settle(eng, st, node)
    end = st.copy()
    end.ghost.update(line=None, sets=(), eof=True)
    ln = Line(eng, st)
    st.ghost.update(line=ln, sets=(), wiped=False, valp=None, num=None, pos=None, plain=())
    return [(st, ln.p), (end, NULL)]


def lf_free(eng, st, a, node):
    g = st.ghost
    ln = g.get('line')
    res = []
    for s, p in eng.resolve(st, a[0], node):
        ln = s.ghost.get('line')
        if ln is not None and is_c(p.obj) and p.obj == ln.p.obj:
            s.ghost['wiped'] = True
            eng.check_p(s, Or(ln.empty(), eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(p.obj, k)), 0), 0, ln.n)),
                        'parse_conf_file: the whole line is overwritten before it is released', C26, node=node)
        res += libc.LIBC['free'](eng, s, [p], node)
    return res


def lf_memset(eng, st, a, node):
    """a plain memset(): the compiler may drop it if the memory isn't used afterwards"""
    res = libc.LIBC['memset'](eng, st, a, node)
    for s, d in res:
        if is_c(d.obj):
            s.ghost['plain'] = s.ghost['plain'] + (d.obj,)
    return res


def kept(h):
    """zeros that the compiler must keep"""
    def f(eng, st, a, node):
        res = []
        for s, p in eng.resolve(st, a[0], node):
            if is_c(p.obj):
                s.ghost['plain'] = tuple(o for o in s.ghost['plain'] if o != p.obj)
            res += h(eng, s, [p] + list(a[1:]), node)
        return res
    return f


def c_wipe(eng, st, a, node):
    """the contract of wipe(), shown by conf.wipe"""
    n = eng.strlen_of(st, a[0], node, 'wipe')
    eng.wr_bulk(st, a[0], 'fill', n, 0)
    return [(st, None)]


def stores(n, out):
    if isinstance(n, dict):
        if n.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('=') and n.get('opcode') not in ('==', '!=', '<=', '>='):
            out.append(n['inner'][0])
        for x in n.get('inner', []):
            stores(x, out)
    return out


@task('conf.wipe', ['C26'], CONF)
def t_wipe(T):
    u = T.unit(CONF[0])
    plain = []

    def inv(L):
        eng, s = L.eng, L.S
        p, n = s.ghost['p'], s.ghost['n']
        old = s.ghost['old']
        qs = [eng.rd(s, Ptr(o, 0), t) for v in L.frame.names.values() for o, t in v[-1:] if o in s.objs and cat(t) == 'p']
        qs = [q for q in qs if is_c(q.obj) and q.obj == p.obj]
        m = p.off
        for q in qs:
            m = Ite(lt(m, q.off), q.off, m)
        return [('within the string', And(*[And(le(p.off, q.off), le(q.off, add(p.off, n))) for q in qs])),
                ('overwritten so far', eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(p.obj, k)), 0), p.off, m)),
                ('the rest is untouched', eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(p.obj, k)), eng.byte_at(old, Ptr(p.obj, k))), m, add(add(p.off, n), 1)))]

    def memset(eng, st, a, node):
        plain.append(node)
        return libc.LIBC['memset'](eng, st, a, node)
    eng = T.eng(contracts={'memset': memset}, loops={'*': LoopSpec(inv=inv, auto=False)})
    st = eng.start()
    if 'wipe' not in u.funcs:
        eng.cover(st, 'there is no such helper (conf.parse_file judges what is used instead)')
        return
    p = eng.new_string(st, 'text', 'param')
    n = eng.strlen_of(st, p)
    k = fresh_int('from')
    st.assume(k >= 0, k <= n)
    p = Ptr(p.obj, k)
    st.ghost.update(p=p, n=sub(n, k), old=st.copy())
    eng.check(st, all('volatile' in (x.get('type') or '') for x in stores(u.funcs['wipe'].get('body') or u.funcs['wipe'], [])) and not plain,
              'wipe: the compiler must not drop the stores')
    for s, r in T.run(eng, 'wipe', st, [p]):
        eng.cover(s, 'string wiped')
        eng.check(s, not plain, 'wipe: the compiler must not drop the overwriting')
        eng.check(s, eng.forall_bytes(lambda j: eq(eng.byte_at(s, Ptr(p.obj, j)), 0), k, n), 'wipe: every byte of the string is overwritten')


def lf_set(kind):
    def h(eng, st, a, node):
        g = st.ghost
        key = libc.lit_bytes(eng, st, a[1])
        if key is None:
            raise Unsupported('name of a configuration variable')
        key = bytes(key).decode('latin-1')
        if g['cfg'] is NULL:
            g['cfg'] = a[0]
        eng.check_p(st, ptr_eq(a[0], g['cfg']), 'conf_set*(): the table', C17, 'pre', node)
        if not g['parsing']:
            v = a[2] if kind == 'int' else libc.lit_bytes(eng, st, a[2])
            g['defaults'] = g['defaults'] + ((key, a[2] if v is None else v if kind == 'int' else bytes(v), bool(g['parsed'])),)
            return [(st, None)]
        ln = g.get('line')
        fn = 'parse_conf_file'
        if ln is None:
            eng.check_p(st, False, fn + ': values come from the file', C17, 'pre', node)
            return [(st, None)]
        eng.check_p(st, Not(ln.empty()), fn + ': blank lines and comments set nothing', C17, 'pre', node)
        eng.check_p(st, ln.key_is(key), fn + ': the variable named on the line is set', C17, 'pre', node)
        eng.check_p(st, (key in STRINGS) if kind == 'str' else (key in NUMBERS), fn + ': value of the right type', C17, 'pre', node)
        eng.check_p(st, ln.syntax_ok(), fn + ': an equals sign and a value follow the name', C17, 'pre', node)
        eng.check_p(st, Or(ln.rest_ok(), And(eq(ln.q, 0), lt(ln.E, ln.n), eq(ln.b(ln.E), 35))),
                    fn + ': nothing but a comment follows the value', C17, 'pre', node)
        if kind == 'str':
            eng.check_p(st, ln.value_is(st, a[2]), fn + ': exactly the documented value', C17, 'pre', node)
            g['valp'] = a[2]
        else:
            num = g.get('num')
            if num is None:
                raise Unsupported('conversion of a number')
            eng.check_p(st, And(eq(a[2], num[0]), num[1], ge(a[2], 0), le(a[2], 2147483647)), fn + ': exactly the number denoted by the value', C17, 'pre', node)
        g['sets'] = g['sets'] + ((None, key, None),)
        return [(st, None)]
    return h


def lf_strtol(eng, st, a, node):
    g = st.ghost
    ln = g.get('line')
    if ln is not None:
        eng.check_p(st, ln.value_is(st, a[0]), 'parse_conf_file: the documented value is converted', C17, 'pre', node)
        g['valp'] = a[0]
    res = []
    for s, v in libc.LIBC['strtol'](eng, st, a, node):
        e = eng.rd(s, a[1], cfront.ptr(CHAR)) if is_c(a[1].obj) and a[1].obj != 0 else None
        s.ghost['num'] = (v, eq(eng.byte_at(s, e), 0) if e is not None else None)
        if e is None:
            raise Unsupported('strtol without an end pointer')
        res.append((s, v))
    return res


def die_cause(eng, st, parsing):
    g = st.ghost
    if g.get('cause'):
        return True
    ln = g.get('line')
    if ln is None:
        return False
    bad = [Not(Or(*[ln.key_is(k) for k in KEYS])), Not(ln.syntax_ok()), Not(ln.rest_ok())]
    if g.get('pos') is not None:
        i = g['pos']
        bad.append(And(le(ln.start, i), le(i, ln.E), lt(i, ln.n), ge(ln.OL(toz(i)), 2047)))
    if g.get('num') is not None:
        v, ok = g['num']
        bad.append(And(Or(*[ln.key_is(k) for k in NUMBERS]), Or(Not(ok), lt(v, 0), gt(v, 2147483647))))
    return And(Not(ln.empty()), Or(*bad))


def mentions(n, names):
    if isinstance(n, dict):
        if n.get('kind') == 'MemberExpr' and n.get('name') in names:
            return True
        if n.get('kind') == 'CallExpr':
            return any(mentions(x, names) for x in n.get('inner', []))
        return any(mentions(x, names) for x in n.get('inner', []) if x)
    return False


def calls(n, names):
    if isinstance(n, dict):
        if n.get('kind') == 'DeclRefExpr' and (n.get('ref') or {}).get('name') in names:
            return True
        return any(calls(x, names) for x in n.get('inner', []) if x)
    return False


@task('conf.parse_file', ['C17', 'C26'], CONF, weight=5)
def t_parse_file(T):
    names = dict(i='in', o='out', n='len', e='escape', d='done', q='quote_sign')

    def havoc(L):
        ln = L.S.ghost['line']
        i = L.var(names['i']).off
        L.S.assume(ln.step(i))
        L.S.ghost['pos'] = i

    def inv(L):
        eng, s = L.eng, L.S
        ln = s.ghost['line']
        if ln is None:
            raise Unsupported('loop outside a line')
        p = L.var('in')
        # the next output position: kept as a pointer, as a length, or both
        n = L.var('len') if L.has('len') else L.var('out').off
        out = L.var('out') if L.has('out') else Ptr(L.slot('value')[0], n)
        esc, done, q = tob(L.var('escape')), tob(L.var('done')), ival(L.var('quote_sign'))
        i = p.off
        r = []
        if not (is_c(p.obj) and p.obj == ln.p.obj and is_c(out.obj)):
            raise Unsupported('pointers of the value loop')
        r.append(('position', And(le(ln.start, i), le(i, ln.n), Ite(done, And(eq(i, add(ln.E, 1)), lt(ln.E, ln.n)), le(i, ln.E)))))
        r.append(('quote', eq(q, ln.q)))
        at = Ite(done, ln.E, i)
        r.append(('escape state', Implies(Not(done), Iff(esc, ln.ES(toz(i))))))
        r.append(('output length', And(eq(n, ln.OL(toz(at))), eq(out.off, n), ge(n, 0), le(n, 2047))))
        r.append(('no NUL in the value', eng.forall_bytes(lambda k: ne(eng.byte_at(s, Ptr(out.obj, k)), 0), 0, n)))
        j = z3.Int('jv')
        ol = ln.OL(j)
        r.append(('the value so far', z3.ForAll([j], z3.Implies(z3.And(toz(ln.start) <= j, j < toz(at), tob(ln.emitted(j))), z3.And(
            0 <= ol, ol < toz(n), tob(eq(eng.byte_at(s, Ptr(out.obj, ol)), ln.b(j))))), patterns=[ol])))
        return r

    def outer(L):
        L.S.ghost.update(line=None, sets=(), wiped=False, valp=None, num=None, pos=None, plain=())

    def outer_inv(L):
        g = L.S.ghost
        if g.get('line') is not None:
            settle(L.eng, L.S)
        return [('the file is open', And(g['open'] is True, g.get('eof') is not True)), ('parsing', g['parsing'] is True)]

    def spec(eng, st):
        n = eng.cur_loop
        if calls(n, ('read_conf_line',)):
            return LoopSpec(inv=outer_inv, post_havoc=outer, auto=False)
        if mentions(n, ('key',)) and not calls(n, ('die',)):
            return LoopSpec(unroll=12)
        return LoopSpec(inv=inv, post_havoc=havoc, auto=False)

    def fopen(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(ptr_eq(a[0], g['path']), not g['open'], not g['parsed']), 'fopen(): the given file, once', C17, 'pre', node)
        bad = st.copy()
        bad.ghost['cause'] = True
        f = eng.new_obj(st, 1, 'param', 'stream')
        g.update(f=f, open=True)
        return [(st, f), (bad, NULL)]

    def fclose(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(g['open'] is True, ptr_eq(a[0], g['f'])), 'fclose(): the open file, once', C17, 'pre', node)
        g['open'] = False
        bad = st.copy()
        bad.ghost['cause'] = True
        return [(st, 0), (bad, -1)]

    def c_parse(eng, st, a, node):
        g = st.ghost
        g.update(parsing=True)
        eng.check_p(st, ptr_eq(a[1], g['cfg']), 'parse_conf_file(): the table', C17, 'pre', node)
        eng.check_p(st, ptr_eq(a[0], g['path']), 'parse_conf_file(): the given file', C17, 'pre', node)
        for k, want in DEFAULTS:
            got = [v for kk, v, late in g['defaults'] if kk == k]
            eng.check_p(st, got[-1:] == [want], 'conf_init: default value of `%s\'' % k, C17, 'pre', node)
        eng.check_p(st, {k for k, _, _ in g['defaults']} <= {k for k, _ in DEFAULTS}, 'conf_init: no other defaults', C17, 'pre', node)
        # the table in memory: reads through `c->key' are decided by it
        rs = []
        for s, r in T.run(eng, 'parse_conf_file', st, a):
            eng.cover(s, 'file parsed')
            settle(eng, s)
            eng.check_p(s, s.ghost.get('eof') is True, 'parse_conf_file: the whole file is read', C17)
            eng.check_p(s, s.ghost['open'] is False, 'parse_conf_file: the file is closed', C17)
            s.ghost.update(parsing=False, parsed=True, line=None)
            x = s.copy()
            x.ghost['identity'] = True      # the file names an identity
            rs += [(s, None), (x, None)]
        return rs

    def getstr(eng, st, a, node):
        g = st.ghost
        key = bytes(libc.lit_bytes(eng, st, a[1]) or b'')
        if key != b'identity' or not g['parsed']:
            return [(st, eng.new_string(st, 'value', 'heap'))]
        return [(st, eng.new_string(st, 'identity', 'heap') if g.get('identity') else NULL)]

    def gethostname(eng, st, a, node):
        need_bytes(eng, st, a[0], a[1], node, 'gethostname', write=True)
        bad = st.copy()
        bad.ghost['cause'] = True
        n = fresh_int('hostlen')
        st.assume(n >= 0, lt(n, a[1]))
        eng.wr_bulk(st, a[0], 'havoc', n, lambda k: uf('HOST', I, I)(toz(k)))
        st.assume(eng.forall_bytes(lambda k: ne(eng.byte_at(st, Ptr(a[0].obj, k)), 0), a[0].off, add(a[0].off, n)))
        eng.wr(st, Ptr(a[0].obj, add(a[0].off, n)), CHAR, 0)
        eng.assume_len(st, a[0], n)
        st.ghost['host'] = a[0]
        return [(st, 0), (bad, -1)]
    eng = T.eng(units=CONF + ['src/common/util.c'], contracts={
        'wipe': kept(c_wipe), 'memset': lf_memset, 'explicit_bzero': kept(libc.LIBC['explicit_bzero']), 'OPENSSL_cleanse': kept(libc.LIBC['OPENSSL_cleanse']),
        'fopen': fopen, 'fclose': fclose, 'parse_conf_file': c_parse, 'read_conf_line': c_read_conf_line, 'free': lf_free,
        'conf_setstr': lf_set('str'), 'conf_setint': lf_set('int'), 'conf_getstr': getstr, 'gethostname': gethostname,
        'skip_whitespace': c_skip((32, 9)), 'strtol': lf_strtol, '__isoc23_strtol': lf_strtol},
        loops={'*': spec}, config={'static_init': True})
    st = eng.start()
    path = eng.new_string(st, 'path', 'param')
    st.ghost.update(path=path, open=False, parsing=False, parsed=False, plain=(), defaults=(), line=None, sets=(), cfg=NULL)
    for s, r in T.run(eng, 'conf_init', st, [path]):
        g = s.ghost
        eng.cover(s, 'configuration loaded')
        eng.check_p(s, And(g['parsed'] is True, ptr_eq(r, g['cfg'])), 'conf_init: returns the table', C17)
        late = [(k, v) for k, v, l in g['defaults'] if l]
        if g.get('identity'):
            eng.check_p(s, not late, 'conf_init: a configured identity is kept', C17)
        else:
            eng.check_p(s, len(late) == 1 and late[0][0] == 'identity' and 'host' in g and ptr_eq(late[0][1], g['host']) is True,
                        'conf_init: the identity defaults to the host name', C17)
    for s in eng.exits:
        eng.check_p(s, die_cause(eng, s, True), 'parse_conf_file: only an error ends the program', C17)


# ---------------------------------------------------------------- the table: lookup, get, set, free; forget_config()
def with_table(T, eng, st, each):
    """run each(state, table) on a loaded table with arbitrary values"""
    def c_parse(eng, st, a, node):
        st.ghost['cfg'] = a[1]
        st.ghost['vals'] = {}
        work = [st]
        t = a[1]
        size = st.objs[t.obj].size
        es = eng.recsize('conf_s')
        n = size // es
        for i in range(n):
            e = Ptr(t.obj, i * es)
            key = libc.lit_bytes(eng, st, eng.fld(st, e, 'conf_s', 'key')) if eng.fld(st, e, 'conf_s', 'key').obj != 0 else None
            if key is None:
                continue
            key = bytes(key).decode()
            vp = Ptr(t.obj, i * es + eng.fpath('conf_s', 'value')[0])
            nxt = []
            for s in work:
                vals = s.ghost['vals']
                if key in STRINGS:
                    x, y = s, s.copy()
                    p = eng.new_string(x, 'value of ' + key, 'heap')
                    eng.wr(x, vp, cfront.ptr(CHAR), p)
                    x.ghost['vals'] = dict(vals, **{key: p})
                    nxt.append(x)
                    if key in ('identity', 'encryption_method'):
                        eng.wr(y, vp, cfront.ptr(CHAR), NULL)
                        y.ghost['vals'] = dict(vals, **{key: NULL})
                        nxt.append(y)
                else:
                    v = fresh_int(key)
                    s.assume(v >= 0, v <= 2147483647)
                    eng.wr(s, vp, cfront.LONG, v)
                    s.ghost['vals'] = dict(vals, **{key: v})
                    nxt.append(s)
            work = nxt
        eng.check_p(st, set(work[0].ghost['vals']) == set(KEYS), 'conf_init: the documented variables', C17)
        return [x for s in work for x in each(s, a[1])]
    return c_parse


def mk(T, each, extra=None, units=None):
    cs = {'conf_getstr_': None}
    cs = dict(extra or {})
    holder = {}
    eng = T.eng(units=units or CONF, contracts=cs, loops={'*': lambda e, s: LoopSpec(unroll=12)}, config={'static_init': True})
    cs['parse_conf_file'] = with_table(T, eng, None, lambda s, t: each(eng, s, t))
    eng.contracts.update(cs)
    st = eng.start()
    st.ghost['quiet'] = True
    T.run(eng, 'conf_init', st, [eng.new_string(st, 'path', 'param')])
    return eng


@task('conf.access', ['C17', 'C26'], CONF)
def t_access(T):
    def each(eng, st, t):
        vals = st.ghost['vals']
        for k in KEYS:
            kp = lambda s: eng.lit_ptr(s, k.encode() + b'\0')
            s1 = st.copy()
            fn = 'conf_getstr' if k in STRINGS else 'conf_getint'
            for s, r in T.run(eng, fn, s1, [t, kp(s1)]):
                eng.cover(s, fn)
                eng.check_p(s, ptr_eq(r, vals[k]) if k in STRINGS else eq(r, vals[k]), '%s: the value of `%s\'' % (fn, k), C17)
            s1 = st.copy()
            if k in STRINGS:
                v = eng.new_string(s1, 'new value', 'param')
                n = eng.strlen_of(s1, v)
                for s, r in T.run(eng, 'conf_setstr', s1, [t, kp(s1), v]):
                    eng.cover(s, 'conf_setstr')
                    for s2, q in T.run(eng, 'conf_getstr', s, [t, kp(s)]):
                        o = s2.objs.get(q.obj)
                        eng.check_p(s2, And(o is not None and o.kind == 'heap' and o.alive is True and q.obj != vals[k].obj, eq(q.off, 0)), 'conf_setstr: a copy is stored', ['C17', 'C26'])
                        eng.check_p(s2, And(lt(n, o.size), eng.forall_bytes(lambda j: eq(eng.byte_at(s2, Ptr(q.obj, j)), eng.byte_at(s2, Ptr(v.obj, j))), 0, add(n, 1))), 'conf_setstr: the copy equals the value', C17)
                        eng.check_p(s2, vals[k].obj == 0 or s2.objs[vals[k].obj].alive is False, 'conf_setstr: the previous value is released', C26)
                        for k2 in STRINGS:
                            if k2 != k:
                                eng.check_p(s2, vals[k2].obj == 0 or s2.objs[vals[k2].obj].alive is True, 'conf_setstr: other values are kept', C26)
            else:
                v = fresh_int('value')
                s1.assume(v >= -(1 << 63), v < (1 << 63))
                for s, r in T.run(eng, 'conf_setint', s1, [t, kp(s1), v]):
                    eng.cover(s, 'conf_setint')
                    for s2, q in T.run(eng, 'conf_getint', s, [t, kp(s)]):
                        eng.check_p(s2, eq(q, v), 'conf_setint: the value is stored', C17)
        s1 = st.copy()
        for s, r in T.run(eng, 'conf_free', s1, [t]):
            eng.cover(s, 'conf_free')
            for k in STRINGS:
                eng.check_p(s, vals[k].obj == 0 or s.objs[vals[k].obj].alive is False, 'conf_free: the value of `%s\' is released' % k, C26)
        return []
    mk(T, each)


@task('send_nsca.forget', ['C26'], ['src/client/send_nsca.c', 'src/client/conf.c'])
def t_forget(T):
    def c_free(eng, st, a, node):
        vals = st.ghost.get('vals')
        res = []
        for s, p in eng.resolve(st, a[0], node):
            if vals and s.ghost.get('forget') and p.obj == vals['password'].obj:
                n = s.ghost['pwlen']
                eng.check_p(s, eng.forall_bytes(lambda j: eq(eng.byte_at(s, Ptr(p.obj, j)), 0), 0, n),
                            'forget_config: the whole password is overwritten before it is released', C26, node=node)
                s.ghost['wiped'] = True
            res += libc.LIBC['free'](eng, s, [p], node)
        return res

    def each(eng, st, t):
        vals = st.ghost['vals']
        g = st.ghost
        g['pwlen'] = eng.strlen_of(st, vals['password'])
        g['forget'] = True
        gp = eng.global_ptr(st, 'cfg', T.unit('src/client/send_nsca.c'))
        s1 = st.copy()
        eng.wr(s1, gp, cfront.ptr(cfront.VOID), t)
        for s, r in T.run(eng, 'forget_config', s1, []):
            eng.cover(s, 'configuration forgotten')
            eng.check_p(s, s.ghost.get('wiped') is True, 'forget_config: the password is overwritten', C26)
            for k in STRINGS:
                eng.check_p(s, vals[k].obj == 0 or s.objs[vals[k].obj].alive is False, 'forget_config: the value of `%s\' is released' % k, C26)
        s1 = st.copy()
        eng.wr(s1, gp, cfront.ptr(cfront.VOID), NULL)
        for s, r in T.run(eng, 'forget_config', s1, []):
            eng.cover(s, 'no configuration yet')
        return []
    mk(T, each, {'free': c_free}, units=['src/client/send_nsca.c', 'src/client/conf.c'])
