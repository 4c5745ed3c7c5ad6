"""src/client/parse.c, src/common/util.c: building commands (C13, C14) and the small string helpers"""
from vtask import *
import libc
from libc import *

PARSE = ['src/client/parse.c', 'src/common/util.c']
UTIL = ['src/common/util.c']


def norm(pieces):
    """merge adjacent literal pieces"""
    r = []
    for p in pieces:
        if p[0] == 'lit' and p[1] == b'':
            continue
        if p[0] == 'lit' and r and r[-1][0] == 'lit':
            r[-1] = ('lit', r[-1][1] + p[1])
        else:
            r.append(p)
    return r


def result_pieces(eng, s, r):
    o = s.objs.get(r.obj) if isinstance(r, Ptr) and is_c(r.obj) else None
    if o is None or libc.made_of(s, r) is None:
        return None
    return norm(libc.made_of(s, r))


def now_piece(eng, s, p):
    """the piece is the current time in decimal"""
    t = [e for e in s.trace if e[0] == 'time']
    if p[0] != 'num' or p[2] not in ('u', 'd') or len(t) != 1:
        return False
    return eq(p[1], t[0][1])


# ---------------------------------------------------------------- escaping
def escape_theory(eng, st, R, n):
    """ghost e(k): position of record byte k in the escaped text"""
    e, inv = fresh_fun('e', I, I), fresh_fun('einv', I, I)
    b = lambda k: eng.byte_at(st, Ptr(R.obj, k))
    special = lambda k: Or(eq(b(k), 92), eq(b(k), 10))
    k, j = z3.Int('k'), z3.Int('j')
    st.assume(e(0) == 0)
    # definition of e
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), e(k + 1) == e(k) + z3.If(special(k), 2, 1)),
                        patterns=[b(k)]))
    # lemmas (induction over k; the induction steps are obligations): e is strictly increasing, so it
    # has an inverse; e(k) >= k, with equality before the first special byte
    sub_ = st.copy()
    kk, jj = fresh_int('kk'), fresh_int('jj')
    sub_.assume(0 <= jj, jj < kk, kk < n, e(jj) < e(kk))
    eng.check(sub_, e(jj) < e(kk + 1), 'lemma: positions in the escaped text increase (induction step)', kind='lemma')
    sub2 = st.copy()
    sub2.assume(0 <= kk, kk < n, e(kk) >= kk, e(kk) <= 2 * kk)
    eng.check(sub2, z3.And(e(kk + 1) >= kk + 1, e(kk + 1) <= 2 * (kk + 1)), 'lemma: escaping lengthens at most twofold (induction step)', kind='lemma')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(e(k) >= k, e(k) <= 2 * k, inv(e(k)) == k)), patterns=[e(k)]))
    st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k <= n), e(j) < e(k)), patterns=[z3.MultiPattern(e(j), e(k))]))
    # F: the first special byte; up to there nothing moves (induction step is an obligation)
    F = fresh_int('F')
    st.assume(0 <= F, F <= n, z3.Implies(F < n, special(F)), eng.forall_bytes(lambda q: Not(special(q)), 0, F))
    sub3 = st.copy()
    sub3.assume(0 <= kk, kk < F, e(kk) == kk)
    eng.check(sub3, e(kk + 1) == kk + 1, 'lemma: nothing moves before the first special byte (induction step)', kind='lemma')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= F), e(k) == k), patterns=[e(k)]), inv(0) == 0, e(F) == F)
    st.ghost.update(e=e, einv=inv, R=R, n=n, special=special, b=b)
    return e


def escaped_at(eng, st, X, k):
    g = st.ghost
    e, b, special = g['e'], g['b'], g['special']
    x = lambda off: toz(eng.byte_at(st, Ptr(X.obj, add(X.off, off))))
    return z3.If(special(k), z3.And(x(e(k)) == 92, x(e(k) + 1) == z3.If(toz(b(k)) == 10, z3.IntVal(110), z3.IntVal(92))), x(e(k)) == toz(b(k)))


def escaped_upto(eng, st, X, base, r):
    """the text at X+base holds the escape of record bytes 0..r-1 at their positions"""
    g = st.ghost
    e, b, special = g['e'], g['b'], g['special']
    k = z3.Int('k!%d' % next(_c))
    x = lambda off: eng.byte_at(st, Ptr(X.obj, add(X.off, off)))
    body = escaped_at(eng, st, X, k)
    t = toz(x(e(k)))
    pat = [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else [e(k), b(k)]
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < toz(r)), body), patterns=pat)


_c = itertools.count()


def l_escape_count(eng, st):
    def inv(L):
        p, size = L.var('in'), L.var('size')
        g = L.S.ghost
        r = p.off
        return [('size counts the escaped bytes so far', And(le(0, r), le(r, g['n']), eq(size, g['n'] + 1 + g['e'](toz(r)) - toz(r))))]
    return LoopSpec(inv=inv)


def l_escape_copy(eng, st):
    def inv(L):
        p, q = L.var('in'), L.var('out', 'escaped')
        g = L.S.ghost
        r = p.off
        return [('the output position follows the input', And(le(0, r), le(r, g['n']), eq(q.off, g['e'](toz(r))))),
                ('everything so far is escaped', escaped_upto(L.eng, L.S, Ptr(q.obj, 0), 0, r))]
    return LoopSpec(inv=inv)


def record(eng, st):
    R = eng.new_string(st, 'record', 'param')
    n = eng.strlen_of(st, R)
    st.assume(n < (1 << 30) - 2)
    escape_theory(eng, st, R, n)
    return R, n


@task('parse.escape', ['C13'], PARSE)
def t_escape(T):
    eng = T.eng(loops={('escape', 0): l_escape_count, ('escape', 1): l_escape_copy})
    st = eng.start()
    R, n = record(eng, st)
    e = st.ghost['e']
    if 'escape' not in eng.units[0].funcs:
        raise Unsupported('function escape not found')
    for s, r in T.run(eng, 'escape', st, [R]):
        eng.cover(s, 'escape')
        own = isinstance(r, Ptr) and is_c(r.obj) and r.obj in s.objs and s.objs[r.obj].alive is True and s.objs[r.obj].kind == 'heap' and r.off == 0
        eng.check(s, own, 'escape returns a block of its own')
        if not own:
            continue
        eng.check(s, escaped_upto(eng, s, r, 0, n), 'each backslash and newline becomes two characters, everything else stays')
        eng.check(s, eq(eng.byte_at(s, Ptr(r.obj, e(n))), 0), 'the escaped text is NUL-terminated')
        eng.check(s, le(add(e(n), 1), s.objs[r.obj].size), 'the escaped text fits')


def c_escape(eng, st, args, node):
    """contract of escape() (proved by task parse.escape)"""
    g = st.ghost
    eng.check(st, ptr_eq(args[0], g['R']), 'escape: the record', node)
    e, n = g['e'], g['n']
    q = eng.new_obj(st, e(n) + 1, 'heap', 'escaped')
    st.assume(escaped_upto(eng, st, q, 0, n), eq(eng.byte_at(st, Ptr(q.obj, e(n))), 0))
    # consequence: no NUL and no newline before the end, so the text has length e(n).  Every position
    # below e(n) is e(k) or e(k)+1 of some record byte k (induction over n)
    k = z3.Int('k!%d' % next(_c))
    y = lambda off: eng.byte_at(st, Ptr(q.obj, off))
    inv = g['einv']
    low = fresh_fun('owner', I, I)
    p = z3.Int('p!%d' % next(_c))
    st.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < e(n)), z3.And(
        0 <= low(p), low(p) < n, e(low(p)) <= p, p < e(low(p) + 1))), patterns=[y(p)]))
    z = st.copy()
    pp = fresh_int('pp')
    z.assume(0 <= pp, pp < e(n))
    w = low(pp)     # instances of the facts above for the owner of the position
    z.assume(0 <= w, w < n, e(w) <= pp, pp < e(w + 1), e(w + 1) == e(w) + z3.If(g['special'](w), 2, 1), escaped_at(eng, z, q, w))
    eng.check(z, z3.And(y(pp) != 0, y(pp) != 10), 'the escaped text contains neither NUL nor newline', node, 'lemma')
    st.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < e(n)), z3.And(y(p) != 0, y(p) != 10)), patterns=[y(p)]))
    g['esc'] = q
    eng.assume_len(st, q, e(n))
    return [(st, q)]


def l_split(eng, st):
    """fields[0..n-1] are the starts of the fields found so far, in the (escaped) text"""
    def ph(L):
        eng, s = L.eng, L.S
        n = L.var('n')
        inp = L.var('input')
        fo, ft = L.slot('fields')
        for j in range(4):
            eng.wr(s, Ptr(fo, 8 * j), cfront.ptr(CHAR), Ptr(Ite(gt(n, j), inp.obj, 0), fresh_int('f%d' % j)))
        lo, lt_ = L.slot('lengths')
        for j in range(3):
            eng.wr(s, Ptr(lo, 4 * j), cfront.INT, eng.fresh(s, cfront.INT, 'len%d' % j))

    def inv(L):
        eng, s = L.eng, L.S
        g = s.ghost
        n, pos, sp, inp = L.var('n'), L.var('pos'), L.var('start_pos'), L.var('input')
        fo, ft = L.slot('fields')
        lo, lt_ = L.slot('lengths')
        e, b, inv_ = g['e'], g['b'], g['einv']
        r = inv_(toz(pos))
        d = g['d']
        out = [('number of fields', And(le(1, n), le(n, 4))),
               ('position', And(le(0, pos), le(0, r), le(r, g['n']), eq(e(r), pos)))]
        for j in range(4):
            # first delimiters of the record: d(1) < d(2) < ...; d(j) is after r or beyond the end if not found yet
            F = eng.rd(s, Ptr(fo, 8 * j), cfront.ptr(CHAR))
            start = z3.IntVal(0) if j == 0 else e(d(j)) + 1
            out.append(('start of field %d' % (j + 1), Implies(gt(n, j), And(eq(F.obj, inp.obj), eq(F.off, start)))))
            if j < 3:
                Ln = eng.rd(s, Ptr(lo, 4 * j), cfront.INT)
                out.append(('length of field %d' % (j + 1), Implies(gt(n, j + 1), eq(Ln, e(d(j + 1)) - start))))
                out.append(('delimiter %d' % (j + 1), And(Implies(gt(n, j + 1), lt(d(j + 1), r)),
                                                          Implies(eq(n, j + 1), ge(d(j + 1), r)))))
        for j in range(4):
            out.append(('start position %d' % j, Implies(eq(n, j + 1), eq(sp, 0 if j == 0 else e(d(j)) + 1))))
        return out
    return LoopSpec(inv=inv, post_havoc=ph)


def delims(eng, st, R, n, dl):
    """ghost d(1) < d(2) < d(3): the first delimiters of the record (n if there are fewer)"""
    d = fresh_fun('d', I, I)
    b = st.ghost['b']
    st.assume(d(0) == -1)
    for j in (1, 2, 3):
        st.assume(d(j) <= n, z3.If(d(j - 1) >= n, d(j) == n, z3.And(d(j) > d(j - 1), z3.Implies(d(j) < n, b(d(j)) == dl))))
        st.assume(eng.forall_bytes(lambda k: ne(b(k), dl), d(j - 1) + 1, d(j)))
    st.ghost['d'] = d
    return d


@task('parse.check_result', ['C13', 'C14'], PARSE)
def t_check_result(T):
    eng = T.eng(contracts={'escape': c_escape}, loops={('parse_check_result', 0): l_split})
    st = eng.start()
    R, n = record(eng, st)
    g = st.ghost
    e, b = g['e'], g['b']
    dl = fresh_int('delimiter')
    st.assume(dl >= -128, dl <= 127)
    raw = z3.If(dl < 0, dl + 256, dl)
    # what -d accepts
    st.assume(raw != 0, raw != 10, raw != 23, raw != 92)
    d = delims(eng, st, R, n, raw)
    P = ['C13']
    seen = set()
    for s, r in T.run(eng, 'parse_check_result', st, [R, dl]):
        eng.cover(s, 'parse_check_result')
        pcs = result_pieces(eng, s, r)
        eng.check_p(s, pcs is not None, 'the result is built from the fields', P)
        if pcs is None:
            continue
        lits = [p[1] for p in pcs if p[0] == 'lit']
        host = len(lits) > 1 and b'HOST' in lits[1]
        nf = 3 if host else 4
        seen.add(nf)
        want = [b'[', b'] PROCESS_%s_CHECK_RESULT;' % (b'HOST' if host else b'SERVICE')] + [b';'] * (nf - 1)
        shape = lits == want and [p[0] for p in pcs] == ['lit', 'num', 'lit'] + ['str', 'lit'] * (nf - 1) + ['str']
        eng.check_p(s, shape, 'the command has the documented form', P)
        if not shape:
            continue
        eng.check_p(s, now_piece(eng, s, pcs[1]), 'the command starts with the current time', ['C13', 'C14'])
        eng.check_p(s, And(d(2) < n, d(3) == n) if host else d(3) < n,
                    'three fields make a host result, four or more a service result', P)
        X = s.ghost.get('esc')
        X = R if X is None else X
        strs = [p for p in pcs if p[0] == 'str']
        for j, p in enumerate(strs):
            _, src, m, s0 = p
            start = 0 if j == 0 else e(d(j)) + 1
            last = j == len(strs) - 1
            end = e(n) if last else e(d(j + 1))
            eng.check_p(s, And(eq(src.obj, X.obj), eq(src.off, start)), 'field %d starts behind its delimiter' % (j + 1), P)
            eng.check_p(s, eq(m, end - start), 'field %d ends before the next delimiter%s' % (j + 1, ' (the last is the whole rest)' if last else ''), P)
            nl = s0.copy()
            eng.check_p(s, eng.forall_bytes(lambda k: ne(eng.byte_at(s0, Ptr(src.obj, k)), 10), src.off, toz(src.off) + toz(m)),
                        'field %d contains no raw newline' % (j + 1), P)
        if 'esc' not in s.ghost:
            eng.check_p(s, eng.forall_bytes(lambda k: Not(Or(eq(b(k), 92), eq(b(k), 10))), 0, n), 'text without backslash and newline is used as is', P)
        live = [o for o in s.objs.values() if o.kind == 'heap' and o.alive is True and o.id != r.obj]
        eng.check_p(s, not live, 'no memory is left behind', P)
    eng.check_p(st, seen == {3, 4}, 'host and service results are both produced', P)
    for s in eng.exits:
        ev = [x for x in s.trace if x[0] == 'exit'][-1]
        eng.check_p(s, ev[2] != 0, 'a malformed record ends the program with a nonzero status', P)
        eng.check_p(s, d(2) >= n, 'only records with fewer than three fields are rejected', P)
    eng.check_p(st, len(eng.exits) > 0, 'records with too few fields are rejected', P)


@task('parse.command', ['C14'], PARSE)
def t_command(T):
    eng = T.eng()
    st = eng.start()
    L = eng.new_string(st, 'line', 'param')
    n = eng.strlen_of(st, L)
    b = lambda k: eng.byte_at(st, Ptr(L.obj, k))
    W = z3.Int('W')
    blank = lambda x: Or(eq(x, 32), eq(x, 9))
    st.assume(W >= 0, W <= n, Not(blank(b(W))), eng.forall_bytes(lambda k: blank(b(k)), 0, W))
    s0 = st.copy()
    asis = stamped = 0
    for s, r in T.run(eng, 'parse_command', st, [L]):
        eng.cover(s, 'parse_command')
        own = isinstance(r, Ptr) and is_c(r.obj) and r.obj in s.objs and s.objs[r.obj].alive is True and s.objs[r.obj].kind == 'heap' and r.off == 0 and r.obj != L.obj
        eng.check(s, own, 'the command is a block of its own')
        if not own:
            continue
        pcs = result_pieces(eng, s, r)
        rl = eng.strlen_of(s, r)
        if pcs is None:
            asis += 1
            eng.check(s, eq(b(W), 91), 'only a command starting with `[\' goes without a new timestamp')
            eng.check(s, eq(rl, sub(n, W)), 'the command is sent completely')
            eng.check(s, eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(r.obj, k)), eng.byte_at(s0, Ptr(L.obj, add(W, k)))), 0, rl), 'the command is sent unmodified')
        else:
            stamped += 1
            shape = [p[0] for p in pcs] == ['lit', 'num', 'lit', 'str'] and pcs[0][1] == b'[' and pcs[2][1] == b'] '
            eng.check(s, shape, 'a timestamp is put in front of the command')
            if not shape:
                continue
            eng.check(s, ne(b(W), 91), 'only a command without timestamp gets one')
            eng.check(s, now_piece(eng, s, pcs[1]), 'the timestamp is the current time')
            _, src, m, sx = pcs[3]
            eng.check(s, And(eq(src.obj, L.obj), eq(src.off, W), eq(m, sub(n, W))), 'the complete command follows the timestamp')
    eng.check(st, asis > 0 and stamped > 0, 'both forms are possible')


@task('util.strings', ['C14', 'C02'], UTIL)
def t_util(T):
    # skip_newlines, skip_whitespace
    for fn, chars in (('skip_newlines', (13, 10)), ('skip_whitespace', (32, 9))):
        eng = T.eng()
        st = eng.start()
        L = eng.new_string(st, 'string', 'param')
        n = eng.strlen_of(st, L)
        inside = lambda x: Or(*[eq(x, c) for c in chars])
        for s, r in T.run(eng, fn, st, [L]):
            eng.cover(s, fn)
            eng.check(s, And(eq(r.obj, L.obj), le(0, r.off), le(r.off, n)), fn + ' returns a position in the string')
            eng.check(s, eng.forall_bytes(lambda k: inside(eng.byte_at(s, Ptr(L.obj, k))), 0, r.off), fn + ' skips only such characters')
            eng.check(s, Not(inside(eng.byte_at(s, r))), fn + ' skips all of them')
    # chomp
    eng = T.eng()
    st = eng.start()
    L = eng.new_string(st, 'string', 'param')
    n = eng.strlen_of(st, L)
    s0 = st.copy()
    for s, r in T.run(eng, 'chomp', st, [L]):
        eng.cover(s, 'chomp')
        nl = And(gt(n, 0), eq(eng.byte_at(s0, Ptr(L.obj, sub(n, 1))), 10))
        m = Ite(nl, sub(n, 1), n)
        eng.check(s, eq(eng.byte_at(s, Ptr(L.obj, m)), 0), 'chomp removes one trailing newline')
        eng.check(s, eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(L.obj, k)), eng.byte_at(s0, Ptr(L.obj, k))), 0, m), 'chomp changes nothing else')
    # concat
    eng = T.eng()
    st = eng.start()
    a, b = eng.new_string(st, 'a', 'param'), eng.new_string(st, 'b', 'param')
    la, lb = eng.strlen_of(st, a), eng.strlen_of(st, b)
    for s, r in T.run(eng, 'concat', st, [a, b]):
        eng.cover(s, 'concat')
        eng.check(s, eq(eng.byte_at(s, Ptr(r.obj, add(la, lb))), 0), 'concat terminates the result')
        eng.check(s, eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(r.obj, k)), eng.byte_at(st, Ptr(a.obj, k))), 0, la), 'concat copies the first string')
        eng.check(s, eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(r.obj, add(la, k))), eng.byte_at(st, Ptr(b.obj, k))), 0, lb), 'concat appends the second string')
    eng.check(st, not eng.exits, 'concat gives up for no strings that fit into memory')
