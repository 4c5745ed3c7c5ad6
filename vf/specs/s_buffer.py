"""src/common/buffer.c: the byte queue (C10).

Representation invariant over an unbounded list of blocks, held in symbolically addressed memory:
ghost block numbers h <= i < t, A(i) is the i-th block, IDX its inverse (all blocks distinct).
With K the block size, the queue holds the bytes at absolute positions [S, E), S = K*h + start_offset,
E = K*(t-1) + end_offset, and D(p) is the byte at position p.  Every operation is specified on D, S, E:
append extends D at E, the readers deliver D(S), D(S+1), ... and advance S, nothing else changes.
"""
from vtask import *
from libc import *

BUF = ['src/common/buffer.c']
P = ['C10', 'C11', 'C12', 'C07', 'C15', 'C09']


class Rep:
    """names and constants of the representation, taken from the source"""

    def __init__(self, eng):
        self.eng = eng
        self.f = {n: eng.fpath('buffer_s', n) for n in ('first', 'last', 'start_offset', 'end_offset', 'size')}
        bt = self.f['first'][1].to
        self.brec = bt.name
        u = eng.units[0]
        self.bsize = u.rec(bt.name).size
        self.do, dt = eng.fpath(bt.name, 'data')
        self.K = dt.n
        self.no, self.nt = eng.fpath(bt.name, 'next')

    def get(self, st, n):
        o, t = self.f[n]
        return self.eng.rd(st, Ptr(st.ghost['buf'].obj, o), t)

    def byte(self, st, i, o):
        return self.eng.byte_at(st, Ptr(st.ghost['A'](i), add(o, self.do)))

    def S(self, st):
        return add(mul(self.K, st.ghost['h']), self.get(st, 'start_offset'))

    def E(self, st):
        h, t = st.ghost['h'], st.ghost['t']
        return Ite(gt(t, h), add(mul(self.K, sub(t, 1)), self.get(st, 'end_offset')), mul(self.K, h))

    def inv(self, st, content=True):
        """[(label, formula)]: the block list is well formed and holds D(S..E)"""
        eng, g = self.eng, st.ghost
        h, t, A, IDX, D = g['h'], g['t'], g['A'], g['IDX'], g['D']
        first, last = self.get(st, 'first'), self.get(st, 'last')
        so, eo = self.get(st, 'start_offset'), self.get(st, 'end_offset')
        ne_ = lt(h, t)
        i = z3.Int('i!%d' % next(_cnt2))
        o = z3.Int('o!%d' % next(_cnt2))
        x = st.copy()
        x.assume(toz(h) <= i, i < toz(t), 0 <= o, o < self.K)
        nx = eng.rd(x, Ptr(A(i), self.no), self.nt)
        by = self.byte(x, i, o)
        rng = z3.And(toz(h) <= i, i < toz(t))
        SS, EE = self.S(st), self.E(st)
        r = [('blocks are counted', And(le(0, h), le(h, t))),
             ('an empty queue has no block', Implies(Not(ne_), And(eq(first.obj, 0), eq(last.obj, 0), eq(first.off, 0), eq(last.off, 0), eq(so, 0)))),
             ('first and last block', Implies(ne_, And(eq(first.obj, A(toz(h))), eq(first.off, 0),
                                                       eq(last.obj, A(toz(t) - 1)), eq(last.off, 0)))),
             ('offsets within a block', And(le(0, so), lt(so, self.K), Implies(ne_, And(le(1, eo), le(eo, self.K))))),
             ('every block is a live block of its own', z3.ForAll([i], z3.Implies(rng, z3.And(
                 A(i) > SYM, toz(eng.alive_sym(st, A(i))) if False else eng.alive_sym(st, A(i)),
                 g['SZ'](A(i)) == self.bsize, IDX(A(i)) == i)), patterns=pat(A(i), i))),
             ('the blocks are linked in order', z3.ForAll([i], z3.Implies(rng, z3.And(
                 eq(nx.obj, Ite(i + 1 < toz(t), A(i + 1), 0)), eq(nx.off, 0))), patterns=pat(A(i), i)))]
        if content:
            r.append(('the blocks hold the queued bytes', z3.ForAll([i, o], z3.Implies(
                z3.And(rng, 0 <= o, o < self.K, toz(SS) <= self.K * i + o, self.K * i + o < toz(EE)),
                by == D(self.K * i + o)), patterns=pat2(by, i, o))))
        return r


SYM = 1 << 40
_cnt2 = itertools.count()


def pat(e, i):
    """triggers: applications in e that have exactly i as an argument"""
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and any(a.eq(i) for a in x.children()):
            out.append(x)
            continue
        todo.extend(x.children())
    return out[:2]


def pat2(e, i, o):
    """triggers covering both variables"""
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 2:
            vs = set()
            t2 = [x]
            ok = True
            while t2:
                y = t2.pop()
                if y.eq(i) or y.eq(o):
                    vs.add(str(y))
                if z3.is_app_of(y, z3.Z3_OP_ITE) or z3.is_eq(y):
                    ok = False
                t2.extend(y.children())
            if len(vs) == 2 and ok:
                out.append(x)
                continue
        todo.extend(x.children())
    return out[:1]


def access(eng, st, p, n):
    return [('block is live', eng.alive_sym(st, p.obj)),
            ('within the block', And(le(0, p.off), le(add(p.off, n), st.ghost['SZ'](toz(p.obj)))))]


def c_xmalloc(eng, st, args, node):
    """a fresh object; an object of block size is the next block of the queue"""
    g = st.ghost
    o = fresh_int('new')
    rep = g['rep']
    st.assume(o > SYM, g['SZ'](o) == toz(args[0]), z3.Not(eng.alive_sym(st, o)))
    i = z3.Int('i!%d' % next(_cnt2))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(toz(g['h']) <= i, i < toz(g['t'])), g['A'](i) != o),
                        patterns=[g['A'](i)] if z3.is_app_of(g['A'](i), z3.Z3_OP_UNINTERPRETED) else pat(g['A'](i), i)))
    eng.set_alive_sym(st, o, True)
    st.event('new', o)
    if is_c(args[0]) and args[0] == rep.bsize:
        A, t = g['A'], g['t']
        st.assume(g['IDX'](o) == toz(t))
        g['A'] = lambda k, A=A, t=t, o=o: z3.If(toz(k) == toz(t), o, A(toz(k)))
        g['t'] = add(t, 1)
    else:
        st.assume(g['IDX'](o) == -1)
    return [(st, Ptr(o, 0))]


def c_free(eng, st, p, node):
    g = st.ghost
    eng.check(st, eng.alive_sym(st, p.obj), 'free: the block is live', node)
    eng.check(st, And(eq(p.obj, g['A'](toz(g['h']))), eq(p.off, 0), lt(g['h'], g['t'])),
              'free: only the first block of the queue is released', node)
    eng.set_alive_sym(st, p.obj, False)
    g['h'] = add(g['h'], 1)
    return [(st, None)]


def setup(T, contracts=None, loops=None, small=False):
    eng = T.eng(contracts=dict({'xmalloc': c_xmalloc, 'malloc': c_xmalloc}, **(contracts or {})), loops=loops or {},
                config={'sym_access': access, 'sym_free': c_free})
    st = eng.start()
    rep = Rep(eng)
    A, IDX, D, SZ = [fresh_fun(n, I, I) for n in ('A', 'IDX', 'D', 'SZ')]
    h, t = fresh_int('h'), fresh_int('t')
    k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.And(D(k) >= 0, D(k) <= 255), patterns=[D(k)]))
    buf = eng.new_struct(st, 'buffer_s', 'heap', 'buffer')
    st.objs[buf.obj] = st.objs[buf.obj].with_(addr=False)
    st.ghost.update(rep=rep, A=A, IDX=IDX, D=D, SZ=SZ, h=h, t=t, buf=buf)
    st.assume(t < (1 << 40))
    for lab, f in rep.inv(st):
        st.assume(f)
    SS, EE = rep.S(st), rep.E(st)
    size = rep.get(st, 'size')
    st.assume(eq(size, sub(EE, SS)), Implies(lt(h, t), gt(size, 0)))
    st.ghost['S0'], st.ghost['E0'] = SS, EE
    return eng, st, rep


def post_ok(eng, s, rep, fn, S1, E1):
    """the queue is well formed again and holds exactly D(S1..E1)"""
    size = rep.get(s, 'size')
    for lab, f in rep.inv(s):
        eng.check_p(s, f, '%s: %s' % (fn, lab), P)
    emp = le(E1, S1)
    eng.check_p(s, eq(size, Ite(emp, 0, sub(E1, S1))), fn + ': the byte count is exact', P)
    eng.check_p(s, Implies(lt(s.ghost['h'], s.ghost['t']), gt(size, 0)), fn + ': an empty queue keeps no block', P)
    eng.check_p(s, Implies(Not(emp), And(eq(rep.S(s), S1), eq(rep.E(s), E1))),
                fn + ': the queued bytes are exactly the expected ones', P)


def havoc_list(L):
    """after a loop the block list is some well-formed list"""
    g = L.S.ghost
    g['A'] = fresh_fun('A', I, I)


def spec_list(rep, more=None, progress=(), modt=True):
    def inv(L):
        r = [x for x in rep.inv(L.S)]
        r += more(L) if more else []
        return r

    def ph(L):
        havoc_list(L)
    return LoopSpec(inv=inv, post_havoc=ph, progress=progress)


@task('buffer.new', ['C10', 'C11', 'C12', 'C07', 'C15'], BUF)
def t_new(T):
    eng = T.eng()
    st = eng.start()
    for s, r in T.run(eng, 'buffer_new', st, []):
        eng.cover(s, 'buffer_new')
        ok = is_c(r.obj) and r.obj in s.objs and s.objs[r.obj].kind == 'heap' and s.objs[r.obj].alive is True
        eng.check_p(s, ok, 'buffer_new returns a fresh object', P)
        if not ok:
            continue
        s.ghost.update(buf=r, h=0, t=0)
        rep = Rep(eng)
        for n in ('first', 'last'):
            eng.check_p(s, ptr_eq(rep.get(s, n), NULL), 'a new queue has no block', P)
        for n in ('start_offset', 'size'):
            eng.check_p(s, eq(rep.get(s, n), 0), 'a new queue is empty', P)


@task('buffer.append', ['C10', 'C11', 'C12', 'C07', 'C15'], BUF)
def t_append(T):
    eng, st, rep = setup(T)
    g = st.ghost
    n = fresh_int('n')
    st.assume(n >= 0, n < (1 << 40))
    inp = eng.new_obj(st, n, 'param', 'input')
    D = g['D']
    E0, S0 = g['E0'], g['S0']
    k = z3.Int('k')
    ib = lambda q: eng.byte_at(st, Ptr(inp.obj, q))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), D(toz(E0) + k) == ib(k)), patterns=[ib(k)]))
    f = lambda s: sub(rep.E(s), E0)
    eng.loops['*'] = spec_list(rep, lambda L: [('the start is untouched', eq(rep.S(L.S), S0)),
                                               ('nothing is released', eq(L.S.ghost['h'], g['h'])),
                                               ('progress', And(le(0, f(L.S)), le(f(L.S), n)))], [('appended', f)])
    for s, r in T.run(eng, 'buffer_append', st, [g['buf'], inp, n]):
        eng.cover(s, 'buffer_append')
        post_ok(eng, s, rep, 'buffer_append', S0, add(E0, n))


@task('buffer.read', ['C10', 'C11', 'C07', 'C15'], BUF)
def t_read(T):
    eng, st, rep = setup(T)
    g = st.ghost
    n = fresh_int('n')
    st.assume(n >= 0, n < (1 << 64))
    cap = fresh_int('cap')
    size0 = rep.get(st, 'size')
    tot = Ite(le(n, size0), n, size0)
    # the caller provides at least min(size, n) bytes
    st.assume(cap >= 0, le(tot, cap))
    out = eng.new_obj(st, cap, 'param', 'output')
    D, E0, S0 = g['D'], g['E0'], g['S0']
    f = lambda s: sub(rep.S(s), S0)
    ob = lambda s: (lambda q: eng.byte_at(s, Ptr(out.obj, q)))
    eng.loops['*'] = spec_list(rep, lambda L: [
        ('the end is untouched', eq(rep.E(L.S), E0)), ('progress', And(le(0, f(L.S)), le(f(L.S), tot))),
        ('nothing is added', eq(L.S.ghost['t'], g['t'])),
        ('the first bytes were delivered', eng.forall_bytes(lambda q: eq(ob(L.S)(q), D(toz(S0) + q)), 0, f(L.S)))],
        [('consumed', f)])
    for s, r in T.run(eng, 'buffer_read', st, [g['buf'], out, n]):
        eng.cover(s, 'buffer_read')
        eng.check_p(s, eq(r, tot), 'buffer_read returns the number of bytes requested, or all there are', P)
        eng.check_p(s, eng.forall_bytes(lambda q: eq(ob(s)(q), D(toz(S0) + q)), 0, tot),
                    'buffer_read delivers the oldest bytes, in order', P)
        post_ok(eng, s, rep, 'buffer_read', add(S0, tot), E0)


def c_buffer_read(eng, st, args, node):
    """contract of buffer_read (proved by task buffer.read)"""
    g, rep = st.ghost, st.ghost['rep']
    buf, out, n = args
    eng.check(st, ptr_eq(buf, g['buf']), 'buffer_read: the queue', node)
    for lab, f in rep.inv(st):
        eng.check(st, f, 'buffer_read: %s' % lab, node)
    size = rep.get(st, 'size')
    S0, E0 = rep.S(st), rep.E(st)
    eng.check(st, And(eq(size, sub(E0, S0)), Implies(lt(g['h'], g['t']), gt(size, 0))), 'buffer_read: exact count', node)
    tot = Ite(le(n, size), n, size)
    need_bytes(eng, st, out, tot, node, 'buffer_read output', write=True)
    D = g['D']
    old = st.copy()
    if is_c(out.obj):
        raise Unsupported('buffer_read into a local buffer')
    # memory of the blocks changes arbitrarily except that the representation invariant holds again
    st.sym = (next(eng.ver), None)
    st.symalive = (next(eng.ver), None)
    if eng.record_mod is not None:
        eng.record_mod.symwrite()
    for n_ in ('first', 'last', 'start_offset', 'end_offset', 'size'):
        o, t = rep.f[n_]
        eng.wr(st, Ptr(buf.obj, o), t, eng.fresh(st, t, n_))
    g['A'] = fresh_fun('A', I, I)
    h, t = fresh_int('h'), fresh_int('t')
    g['h'], g['t'] = h, t
    for lab, f in rep.inv(st):
        st.assume(f)
    S1 = add(S0, tot)
    st.assume(eq(rep.get(st, 'size'), sub(E0, S1)), Implies(lt(h, t), And(eq(rep.S(st), S1), eq(rep.E(st), E0), lt(S1, E0))),
              Implies(lt(S1, E0), lt(h, t)))
    # the output object keeps its liveness; it is not a block
    st.assume(eng.alive_sym(st, out.obj))
    i = z3.Int('i!%d' % next(_cnt2))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(h <= i, i < t), g['A'](i) != toz(out.obj)), patterns=[g['A'](i)]))
    q = z3.Int('q!%d' % next(_cnt2))
    by = eng.byte_at(st, Ptr(out.obj, q))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(toz(out.off) <= q, q < toz(add(out.off, tot))),
                                        by == D(toz(S0) + q - toz(out.off))), patterns=[by]))
    st.event('read', tot)
    return [(st, tot)]


def delivered(eng, s, rep, r, n, fn, upto=None):
    """r is a block of memory of the caller's own holding the n oldest bytes"""
    g = s.ghost
    D, S0 = g['D'], g['S0']
    eng.check_p(s, And(eq(r.off, 0), ne(r.obj, 0), eng.alive_sym(s, r.obj)), fn + ': returns a live heap block', P)
    eng.check_p(s, ge(g['SZ'](toz(r.obj)), n), fn + ': the returned block is large enough', P)
    i = z3.Int('i!%d' % next(_cnt2))
    eng.check_p(s, z3.ForAll([i], z3.Implies(z3.And(toz(g['h']) <= i, i < toz(g['t'])), g['A'](i) != toz(r.obj)),
                             patterns=[g['A'](i)] if z3.is_app_of(g['A'](i), z3.Z3_OP_UNINTERPRETED) else []),
                fn + ': the returned block is no longer part of the queue', P)
    eng.check_p(s, eng.forall_bytes(lambda q: eq(eng.byte_at(s, Ptr(r.obj, q)), D(toz(S0) + q)), 0,
                                    n if upto is None else upto), fn + ': delivers the oldest bytes, in order', P)


def detach_fix(s, rep):
    """a detached block leaves the queue without being freed"""
    first = rep.get(s, 'first')
    return Ite(eq(first.obj, 0), s.ghost['t'], s.ghost['h'])


def settle(eng, s, rep):
    """ghost: when the queue has no first block all its blocks have left it"""
    g = s.ghost
    first = rep.get(s, 'first')
    a, b = eng.split(s, eq(first.obj, 0))
    for x in a:
        x.ghost['h'] = x.ghost['t']
    return a + b


@task('buffer.read_alloc', ['C10', 'C12', 'C07', 'C15'], BUF)
def t_read_alloc(T):
    for fn in ('buffer_read_alloc', 'buffer_slurp'):
        eng, st, rep = setup(T, {'buffer_read': c_buffer_read})
        g = st.ghost
        sz = eng.new_obj(st, 8, 'param', 'size')
        size0 = rep.get(st, 'size')
        if fn == 'buffer_slurp':
            n = size0
        else:
            n = fresh_int('n')
            st.assume(n >= 0, n < (1 << 40))
            eng.wr(st, sz, cfront.ULONG, n)
        S0, E0 = g['S0'], g['E0']
        tot = Ite(le(n, size0), n, size0)
        for s, r in T.run(eng, fn, st.copy(), [g['buf'], sz]):
            for x in settle(eng, s, rep):
                eng.cover(x, fn)
                got = eng.rd(x, sz, cfront.ULONG)
                eng.check_p(x, eq(got, tot), fn + ': reports the number of bytes delivered', P)
                delivered(eng, x, rep, r, tot, fn)
                post_ok(eng, x, rep, fn, add(S0, tot), E0)


def c_read_alloc(eng, st, args, node):
    """contract of buffer_read_alloc (proved by task buffer.read_alloc)"""
    g, rep = st.ghost, st.ghost['rep']
    buf, szp = args
    eng.check(st, ptr_eq(buf, g['buf']), 'buffer_read_alloc: the queue', node)
    for lab, f in rep.inv(st):
        eng.check(st, f, 'buffer_read_alloc: %s' % lab, node)
    n = eng.rd(st, szp, cfront.ULONG)
    size = rep.get(st, 'size')
    S0, E0 = rep.S(st), rep.E(st)
    eng.check(st, And(eq(size, sub(E0, S0)), Implies(lt(g['h'], g['t']), gt(size, 0))), 'buffer_read_alloc: exact count', node)
    tot = Ite(le(n, size), n, size)
    o = fresh_int('data')
    st.assume(o > SYM)
    out = Ptr(o, 0)
    st.sym = (next(eng.ver), None)
    st.symalive = (next(eng.ver), None)
    for n_ in ('first', 'last', 'start_offset', 'end_offset', 'size'):
        oo, t = rep.f[n_]
        eng.wr(st, Ptr(buf.obj, oo), t, eng.fresh(st, t, n_))
    g['A'] = fresh_fun('A', I, I)
    h, t = fresh_int('h'), fresh_int('t')
    g['h'], g['t'] = h, t
    for lab, f in rep.inv(st):
        st.assume(f)
    S1 = add(S0, tot)
    st.assume(eq(rep.get(st, 'size'), sub(E0, S1)), Implies(lt(h, t), And(eq(rep.S(st), S1), eq(rep.E(st), E0), lt(S1, E0))),
              Implies(lt(S1, E0), lt(h, t)))
    st.assume(eng.alive_sym(st, o), ge(g['SZ'](o), tot))
    i = z3.Int('i!%d' % next(_cnt2))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(h <= i, i < t), g['A'](i) != o), patterns=[g['A'](i)]))
    q = z3.Int('q!%d' % next(_cnt2))
    by = eng.byte_at(st, Ptr(o, q))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < toz(tot)), by == g['D'](toz(S0) + q)), patterns=[by]))
    eng.wr(st, szp, cfront.ULONG, tot)
    st.event('delivered', out, tot)
    return [(st, out)]


@task('buffer.read_line', ['C10', 'C11'], BUF)
def t_read_line(T):
    for fn in ('buffer_read_line', 'buffer_read_chunk'):
        eng, st, rep = setup(T, {'buffer_read_alloc': c_read_alloc, 'memchr': lambda *a: memchr(*a)})
        g = st.ghost
        D, S0, E0 = g['D'], g['S0'], g['E0']
        if fn == 'buffer_read_line':
            term, args = 10, [g['buf']]
        else:
            c = fresh_int('term')
            st.assume(c >= -128, c <= 127)
            term, args = z3.If(c < 0, c + 256, c), [g['buf'], c]

        def none_before(q):
            return eng.forall_bytes(lambda p: ne(D(p), term), S0, q)

        def memchr(eng, st, a, node, D=D):
            """memchr() in a block, in terms of the queued bytes"""
            res = []
            for s, p in eng.resolve(st, a[0], node):
                n, c = a[2], uchar(a[1])
                base = add(mul(rep.K, s.ghost['IDX'](toz(p.obj))), sub(p.off, rep.do))
                eng.check_p(s, eng.forall_bytes(lambda q: eq(eng.byte_at(s, Ptr(p.obj, add(p.off, q))), D(toz(add(base, q)))), 0, n),
                            'memchr(): searches queued bytes', P, node=node)
                for s1, r in LIBC["memchr"](eng, s, [p, a[1], n], node):
                    hi = n if r is NULL else sub(r.off, p.off)
                    s1.assume(eng.forall_bytes(lambda q: ne(D(toz(q)), c), base, add(base, hi)))
                    res.append((s1, r))
            return res

        def inv(L):
            b, pos = L.var('b'), L.var('pos')
            IDX = L.S.ghost['IDX']
            Q = add(S0, sub(pos, 1))
            idx = IDX(toz(b.obj))
            known = And(eq(L.S.ghost['A'](idx), b.obj), eq(b.off, 0), le(g['h'], idx), lt(idx, g['t']))
            if not L.has('i'):
                first = rep.get(L.S, 'first')
                return [('position', And(le(S0, Q), le(Q, E0))),
                        ('no terminator so far', none_before(Q)),
                        ('cursor', And(Implies(eq(b.obj, 0), eq(Q, E0)),
                                       Implies(ne(b.obj, 0), And(known, eq(Q, Ite(eq(b.obj, first.obj), S0, rep.K * idx))))))]
            i = L.var('i')
            return [('position', And(le(S0, Q), eq(Q, rep.K * idx + toz(i)), le(i, rep.K), le(Q, E0))),
                    ('no terminator so far', none_before(Q)), ('cursor', And(known, ne(b.obj, 0)))]
        eng.loops['*'] = LoopSpec(inv=inv)
        some = 0
        for s, r in T.run(eng, fn, st.copy(), args):
            for x in settle(eng, s, rep):
                eng.cover(x, fn)
                a, b = eng.split(x, eq(r.obj, 0))
                for y in a:
                    eng.check_p(y, none_before(E0), fn + ': nothing is returned only if no terminator is queued', P)
                    post_ok(eng, y, rep, fn, S0, E0)
                for y in b:
                    some += 1
                    dl = [e for e in y.trace if e[0] == 'delivered']
                    eng.check_p(y, len(dl) == 1 and ptr_eq(dl[0][1], r), fn + ': returns the bytes taken from the queue', P)
                    if len(dl) != 1:
                        continue
                    n = dl[0][2]
                    m = sub(n, 1)
                    eng.check_p(y, And(ge(n, 1), le(add(S0, n), E0), eq(D(toz(add(S0, m))), term)), fn + ': consumes up to a terminator', P)
                    eng.check_p(y, none_before(add(S0, m)), fn + ': consumes up to the first terminator only', P)
                    e = m
                    if fn == 'buffer_read_line':
                        e = Ite(And(ge(m, 1), eq(D(toz(add(S0, sub(m, 1)))), 13)), sub(m, 1), m)
                    eng.check_p(y, eq(eng.byte_at(y, Ptr(r.obj, e)), 0), fn + ': the terminator is replaced by a NUL', P)
                    eng.check_p(y, eng.forall_bytes(lambda q: eq(eng.byte_at(y, Ptr(r.obj, q)), D(toz(S0) + q)), 0, e),
                                fn + ': returns exactly the bytes before the terminator', P)
                    post_ok(eng, y, rep, fn, add(S0, n), E0)
        eng.check_p(st, some > 0, fn + ': can return a line', P)


@task('buffer.free', ['C10', 'C25', 'C09'], BUF)
def t_free(T):
    eng, st, rep = setup(T)
    g = st.ghost

    def inv(L):
        ps = [L.eng.rd(L.S, Ptr(l[-1][0], 0), l[-1][1]) for n, l in L.frame.names.items()
              if l[-1][1].k == 'ptr' and l[-1][1].to.k == 'rec' and l[-1][1].to.name == rep.brec and l[-1][0] in L.S.objs]
        if len(ps) < 1:
            raise Unsupported('buffer_free: no cursor')
        b = ps[0]
        h, t = L.S.ghost['h'], L.S.ghost['t']
        keep = [x for x in rep.inv(L.S) if x[0] in ('blocks are counted', 'every block is a live block of its own',
                                                      'the blocks are linked in order')]
        return keep + [('cursor', And(eq(b.obj, Ite(lt(h, t), L.S.ghost['A'](toz(h)), 0)), eq(b.off, 0))),
                       ('nothing is added', eq(t, g['t']))]
    eng.loops['*'] = LoopSpec(inv=inv)
    for s, r in T.run(eng, 'buffer_free', st, [g['buf']]):
        eng.cover(s, 'buffer_free')
        eng.check_p(s, eq(s.ghost['h'], s.ghost['t']), 'buffer_free releases every block', ['C10', 'C25'])
        eng.check_p(s, s.objs[g['buf'].obj].alive is False, 'buffer_free releases the queue itself', ['C10', 'C25'])


@task('buffer.size', ['C10', 'C09', 'C12', 'C06'], BUF)
def t_size(T):
    eng, st, rep = setup(T)
    g = st.ghost
    for s, r in T.run(eng, 'buffer_size', st, [g['buf']]):
        eng.cover(s, 'buffer_size')
        eng.check_p(s, eq(r, sub(g['E0'], g['S0'])), 'buffer_size is the number of queued bytes', P)
        post_ok(eng, s, rep, 'buffer_size', g['S0'], g['E0'])
