"""src/client/input.c: reading records from standard input (C15)

Ghost stream: IN(p) is the p-th byte of standard input; rd of them have been read, those from bs to be are in the
byte queue, and the records delivered so far reach up to tk.
"""
from vtask import *
from libc import *
import libc

INP = ['src/client/input.c']
C15 = ['C15']
IN = uf('STDIN', I, I)
EINTR, EAGAIN = 4, 11


def F(eng, s, n):
    return eng.fld(s, s.ghost['input'], 'input_state_s', n)


def W(eng, s, f='active'):
    p = eng.fldptr(s.ghost['input'], 'input_state_s', 'watcher')
    return eng.rd(s, Ptr(p.obj, add(p.off, EVOFF[f])), INT)


def live(s, p):
    return is_c(p.obj) and p.obj in s.objs and s.objs[p.obj].alive is True


def nosep(s, a, b):
    sep = s.ghost['sep']
    k = z3.Int('k')
    return z3.ForAll([k], z3.Implies(z3.And(toz(a) <= k, k < toz(b)), IN(k) != toz(sep)), patterns=[IN(k)])


# ---------------------------------------------------------------- buffer.c (verified by the buffer.* tasks)
def q(eng, st, p, node):
    g = st.ghost
    ok = 'buf' in g and live(st, p) and p.obj == g['buf'].obj
    eng.check_p(st, ok, 'the byte queue is live', C15, 'pre', node)
    return ok


def c_new(eng, st, a, node):
    p = eng.new_obj(st, 1, 'heap', 'byte queue')
    st.ghost.update(buf=p)
    return [(st, p)]


def c_free(eng, st, a, node):
    if not q(eng, st, a[0], node):
        return []
    st.objs[a[0].obj] = st.objs[a[0].obj].with_(alive=False)
    return [(st, None)]


def c_size(eng, st, a, node):
    if not q(eng, st, a[0], node):
        return []
    return [(st, sub(st.ghost['be'], st.ghost['bs']))]


def c_append(eng, st, a, node):
    if not q(eng, st, a[0], node):
        return []
    g = st.ghost
    need_bytes(eng, st, a[1], a[2], node, 'buffer_append')
    e, d, old = g['be'], a[1], st.copy()
    eng.check_p(st, eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(d.obj, add(d.off, k))), IN(toz(add(e, k)))), 0, a[2]),
                'the bytes queued are the next ones read', C15, 'pre', node)
    g['be'] = add(e, a[2])
    return [(st, None)]


def c_read(eng, st, a, node):
    if not q(eng, st, a[0], node):
        return []
    g = st.ghost
    have = sub(g['be'], g['bs'])
    r = Ite(le(a[2], have), a[2], have)
    need_bytes(eng, st, a[1], r, node, 'buffer_read', write=True)
    b = g['bs']
    eng.wr_bulk(st, a[1], 'copy', r, lambda k: IN(toz(add(b, k))))
    g['bs'] = add(b, r)
    return [(st, r)]


def c_slurp(eng, st, a, node):
    if not q(eng, st, a[0], node):
        return []
    g = st.ghost
    b, n = g['bs'], sub(g['be'], g['bs'])
    p = eng.new_obj(st, add(n, 1), 'heap', 'rest')
    eng.wr_bulk(st, p, 'copy', n, lambda k: IN(toz(add(b, k))))
    eng.wr(st, Ptr(p.obj, n), CHAR, 0)
    eng.wr(st, a[1], cfront.ULONG, n)
    g['bs'] = g['be']
    return [(st, p)]


def c_chunk(eng, st, a, node):
    """the bytes up to the next separator as a string of its own; NULL if there is none"""
    if not q(eng, st, a[0], node):
        return []
    g = st.ghost
    eng.check_p(st, eq(a[1], g['sep']), 'records end with the configured separator', C15, 'pre', node)
    b, e = g['bs'], g['be']
    none, some = st.copy(), st
    none.assume(nosep(none, b, e))
    nl = fresh_int('sep_at')
    some.assume(le(b, nl), lt(nl, e), IN(nl) == toz(g['sep']), nosep(some, b, nl))
    p = eng.new_obj(some, add(sub(nl, b), 1), 'heap', 'record')
    eng.wr_bulk(some, p, 'copy', sub(nl, b), lambda k: IN(toz(add(b, k))))
    eng.wr(some, Ptr(p.obj, sub(nl, b)), CHAR, 0)
    some.ghost['bs'] = add(nl, 1)
    return [(some, p), (none, NULL)]


# ---------------------------------------------------------------- system calls
def c_sysread(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, eq(a[0], 0), 'read(): from standard input', C15, 'pre', node)
    eng.check_p(st, gt(a[2], 0), 'read(): at least one byte is asked for', C15, 'pre', node)
    eng.check_p(st, eq(g['be'], g['rd']), 'read(): everything read before is kept', C15, 'pre', node)
    need_bytes(eng, st, a[1], a[2], node, 'read', write=True)
    r = fresh_int('nread')
    end, bad = st.copy(), st.copy()
    b = g['rd']
    st.assume(r >= 1, le(r, a[2]), lt(add(b, r), 1 << 60))      # standard input is shorter than 2^60 bytes
    eng.wr_bulk(st, a[1], 'copy', r, lambda k: IN(toz(add(b, k))))
    g['rd'] = add(b, r)
    end.ghost['eofseen'] = True
    out = [(st, r), (end, 0)]
    for e, nm in ((EINTR, 'EINTR'), (EAGAIN, 'EAGAIN'), (None, 'another error')):
        x = bad.copy()
        v = set_errno(eng, x, e)
        if e is None:
            x.assume(ne(v, EINTR), ne(v, EAGAIN))
        x.ghost['rderr'] = 'again' if e else 'error'
        x.desc += ('read fails with ' + nm,)
        out.append((x, -1))
    return out


def c_fcntl(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, eq(a[0], 0), 'fcntl(): standard input', C15, 'pre', node)
    bad = st.copy()
    set_errno(eng, bad)
    bad.ghost['rderr'] = 'error'
    if is_c(a[1]) and a[1] == 3:
        r = fresh_int('flags')
        st.assume(r >= 0, r < (1 << 24))
        g['flags'] = r
        return [(st, r), (bad, -1)]
    if is_c(a[1]) and a[1] == 4:
        g['setfl'] = a[2]
    return [(st, 0), (bad, -1)]


def at_free(eng, st, a, node):
    for s, p in eng.resolve(st, a[0], node) if not is_c(a[0].obj) else [(st, a[0])]:
        if 'input' in s.ghost and is_c(p.obj) and p.obj == s.ghost['input'].obj and live(s, p):
            eng.check_p(s, And(eq(W(eng, s), 0), eq(W(eng, s, 'pending'), 0)), 'the watcher is stopped before the input is released', C15, 'pre', node)
            eng.check_p(s, 'buf' not in s.ghost or not live(s, s.ghost['buf']), 'the byte queue is released with the input', C15, 'pre', node)
    return libc.LIBC['free'](eng, st, a, node)


# ---------------------------------------------------------------- handlers
def gone(st):
    for k in ('input', 'buf'):
        o = st.ghost[k].obj
        st.objs[o] = st.objs[o].with_(alive=fresh_bool(k + '_still_there'))


def h_chunk(eng, st, a, node):
    """the record handler: it owns the record, and may stop the input or ask for the next record"""
    g = st.ghost
    inp, c = a
    fn = 'delivery of a record'
    ok = ptr_eq(inp, g['input'])
    eng.check_p(st, And(ok, live(st, g['input'])), fn + ': for the live input', C15, 'pre', node)
    eng.check_p(st, g['pend'] is True, fn + ': a record was asked for, and is delivered once', C15, 'pre', node)
    eng.check_p(st, And(eq(W(eng, st), 0), eq(W(eng, st, 'pending'), 0)), fn + ': the watcher is stopped first', C15, 'pre', node)
    g['pend'] = False
    if not (is_c(c.obj) and c.obj > 0 and live(st, c) and st.objs[c.obj].kind == 'heap' and eng.proves(st, eq(c.off, 0))):
        eng.check_p(st, False, fn + ': the record is a live heap string', C15, 'pre', node)
        return []
    tk, bs, be, sep = g['tk'], g['bs'], g['be'], toz(g['sep'])
    last = And(gt(bs, tk), IN(toz(sub(bs, 1))) == sep)
    n = Ite(last, sub(sub(bs, 1), tk), sub(bs, tk))
    eng.check_p(st, Or(last, And(g['eofseen'], eq(bs, be), gt(be, tk))), fn + ': a piece ended by a separator, or the rest at the end of the input', C15, 'pre', node)
    eng.check_p(st, nosep(st, tk, add(tk, n)), fn + ': pieces are not merged', C15, 'pre', node)
    eng.check_p(st, And(lt(n, st.objs[c.obj].size), eng.forall_bytes(
        lambda k: eq(ival(eng.byte_at(st, Ptr(c.obj, k))), IN(toz(add(tk, k)))), 0, n), eq(eng.byte_at(st, Ptr(c.obj, n)), 0)),
        fn + ': exactly the bytes of the piece, NUL-terminated', C15, 'pre', node)
    g['tk'] = bs
    for lab, f in inv(eng, st):
        eng.check_p(st, f, fn + ': ' + lab, C15, 'pre', node)
    st.objs[c.obj] = st.objs[c.obj].with_(alive=False)
    g['ndel'] = g.get('ndel', 0) + 1
    gone(st)
    return [(st, None)]


def h_eof(eng, st, a, node):
    g = st.ghost
    fn = 'end of input'
    eng.check_p(st, And(ptr_eq(a[0], g['input']), live(st, g['input'])), fn + ': for the live input', C15, 'pre', node)
    eng.check_p(st, And(g['eofseen'], eq(g['bs'], g['be']), eq(g['tk'], g['be']), eq(g['be'], g['rd'])), fn + ': signalled after the last record', C15, 'pre', node)
    eng.check_p(st, g.get('neof', 0) == 0, fn + ': signalled once', C15, 'pre', node)
    g['neof'] = g.get('neof', 0) + 1
    return [(st, None)]


def c_invoke(eng, st, a, node):
    """ev_invoke() of the watcher: runs its callback, which may deliver a record, or the end of the input"""
    g = st.ghost
    w = eng.fldptr(g['input'], 'input_state_s', 'watcher')
    eng.check_p(st, And(ptr_eq(a[-2], w), live(st, g['input'])), 'the watcher of the input is invoked', C15, 'pre', node)
    eng.check_p(st, And(eq(W(eng, st), 1), is_fn(eng, F(eng, st, 'read_handler'), 'user_chunk')),
                'the request is registered before its data is looked for', C15, 'pre', node)
    eng.check_p(st, 'invoked' not in g, 'the input is looked at once', C15, 'pre', node)
    g['invoked'] = True
    g['pend'] = True
    for lab, f in inv(eng, st):
        eng.check_p(st, f, 'ev_invoke: ' + lab, C15, 'pre', node)
    gone(st)
    return [(st, None)]


def is_fn(eng, p, nm):
    return ptr_eq(p, eng.fn_ptr(nm))


def inv(eng, s):
    g = s.ghost
    f = lambda n: F(eng, s, n)
    wd = eng.fld(s, eng.fldptr(g['input'], 'input_state_s', 'watcher'), 'ev_io', 'data')
    cb = eng.fld(s, eng.fldptr(g['input'], 'input_state_s', 'watcher'), 'ev_io', 'cb')
    r = [('the byte queue belongs to the input', And(ptr_eq(f('buffer'), g['buf']), live(s, g['buf'])))]
    r.append(('the watcher belongs to the input', And(ptr_eq(wd, g['input']), is_fn(eng, cb, g['cb']))))
    r.append(('nothing read is lost or repeated', And(le(0, g['tk']), eq(g['tk'], g['bs']), le(g['bs'], g['be']), eq(g['be'], g['rd']), lt(g['rd'], 1 << 60))))
    r.append(('standard input is read', And(eq(f('fd'), 0), eq(f('separator'), g['sep']))))
    r.append(('the end of the input is remembered', And(Iff(ne(f('eof'), 0), g['eofseen']), Implies(g['eofseen'], eq(g['bs'], g['be'])))))
    r.append(('the watcher is active while a record is asked for', Iff(ne(W(eng, s), 0), g['pend'])))
    r.append(('the end-of-input handler', Or(*[ptr_eq(f('eof_handler'), x) for x in (NULL, eng.fn_ptr('user_eof'))])))
    r.append(('the record handler', Implies(g['pend'], is_fn(eng, f('read_handler'), 'user_chunk'))))
    return r


def c_xmalloc(eng, st, a, node):
    r = libc.LIBC['xmalloc'](eng, st, a, node)
    for s, p in r:
        if is_c(a[0]) and a[0] == eng.recsize('input_state_s') and 'input' not in s.ghost:
            s.ghost['input'] = p
    return r


CONTRACTS = {
    'buffer_new': c_new, 'buffer_free': c_free, 'buffer_size': c_size, 'buffer_append': c_append, 'buffer_read': c_read,
    'buffer_slurp': c_slurp, 'buffer_read_chunk': c_chunk, 'read': c_sysread, 'fcntl': c_fcntl, 'fcntl64': c_fcntl,
    'free': at_free, 'user_chunk': h_chunk, 'user_eof': h_eof, 'ev_invoke': c_invoke, 'xmalloc': c_xmalloc,
}
for _f in ('read', 'fcntl'):
    libc.NOTES.setdefault(_f, 'POSIX: any result the specification allows')


def T_eng(T, **kw):
    def linv(L):
        s = L.S
        g = s.ghost
        if 'input' not in g:
            return []
        r = [('the input is live', live(s, g['input']))]
        if not live(s, g['input']):
            return r
        r += inv(L.eng, s)
        r.append(('the request is pending', And(g['pend'], ne(W(L.eng, s), 0))))
        r.append(('no end of the input yet', Not(g['eofseen'])))
        r.append(('no failed read', g['rderr'] is None))
        for n in KEPT:
            a, b = F(L.eng, s, n), F(L.eng, L.S0, n)
            r.append(('%s stays' % n, ptr_eq(a, b) if isinstance(a, Ptr) else eq(a, b)))
        return r

    def keep(L):
        """the members the invariant fixes"""
        eng, s, s0 = L.eng, L.S, L.S0
        for n in KEPT:
            eng.setfld(s, s.ghost['input'], 'input_state_s', n, F(eng, s0, n))
        w = eng.fldptr(s.ghost['input'], 'input_state_s', 'watcher')
        for n in ('data', 'cb'):
            eng.setfld(s, w, 'ev_io', n, eng.fld(s0, w, 'ev_io', n))
        s.ghost['pend'] = s0.ghost['pend']
    return T.eng(contracts=dict(CONTRACTS, **kw), loops={'*': LoopSpec(inv=linv, post_havoc=keep, auto=False)})


KEPT = ('buffer', 'fd', 'separator', 'eof', 'eof_handler', 'read_handler')


def callback(T):
    eng = T_eng(T)
    eng.suppress += 1
    st = start0(eng, eng.start())
    for s, p in T.run(eng, 'input_start', st, [10]):
        cb = eng.fld(s, eng.fldptr(p, 'input_state_s', 'watcher'), 'ev_io', 'cb')
        if is_c(cb.obj) and cb.obj in eng.fnnames:
            T.engines.remove(eng)
            return eng.fnnames[cb.obj]
        eng.suppress -= 1
        eng.check_p(s, False, 'input_start: the watcher has a callback', C15)
        break
    raise Unsupported('the callback of the watcher is not known')


def start0(eng, st):
    sep = fresh_int('separator')
    st.assume(sep >= -128, sep <= 127)
    st.ghost.update(sep=sep, tk=0, bs=0, be=0, rd=0, eofseen=False, pend=False, rderr=None)
    return st


def mk(T, eng, pend, eof, handler):
    st = start0(eng, eng.start())
    g = st.ghost
    g['cb'] = callback(T)
    inp = eng.new_struct(st, 'input_state_s', 'heap', 'input')
    buf = eng.new_obj(st, 1, 'heap', 'byte queue')
    a, b = fresh_int('tk'), fresh_int('be')
    st.assume(a >= 0, a <= b, b < (1 << 60))
    g.update(input=inp, buf=buf, tk=a, bs=a, be=b, rd=b, pend=pend, eofseen=eof)
    if eof:
        st.assume(a == b)
    f = lambda n, v: eng.setfld(st, inp, 'input_state_s', n, v)
    f('buffer', buf)
    f('fd', 0)
    f('separator', g['sep'])
    f('eof', 1 if eof else 0)
    f('eof_handler', eng.fn_ptr('user_eof') if handler else NULL)
    f('read_handler', eng.fn_ptr('user_chunk') if pend else NULL)
    f('data', eng.new_obj(st, 1, 'param', 'client'))
    w = eng.fldptr(inp, 'input_state_s', 'watcher')
    eng.setfld(st, w, 'ev_io', 'data', inp)
    eng.setfld(st, w, 'ev_io', 'cb', eng.fn_ptr(g['cb']))
    eng.wr(st, Ptr(w.obj, add(w.off, EVOFF['active'])), INT, 1 if pend else 0)
    eng.wr(st, Ptr(w.obj, add(w.off, EVOFF['pending'])), INT, 0)
    return st, inp, w


def dead(s, k):
    return s.objs[s.ghost[k].obj].alive is False


def ended(eng, s, fn, handler):
    g = s.ghost
    eng.check_p(s, g['eofseen'], fn + ': the input is released only at its end', C15)
    eng.check_p(s, g.get('neof', 0) == (1 if handler else 0), fn + ': the end of the input is signalled once', C15)
    eng.check_p(s, dead(s, 'input') and dead(s, 'buf'), fn + ': the input is released', C15)


def exits(eng, fn):
    for s in eng.exits:
        e = [x for x in s.trace if x[0] == 'exit']
        eng.check_p(s, s.ghost['rderr'] == 'error', fn + ': the program is ended only for an error', C15)
        eng.check_p(s, bool(e) and ne(e[-1][2], 0), fn + ': with a nonzero exit status', C15)


def rest(eng, s, fn):
    """freed memory, except what was handed over"""
    bad = [o.name for i, o in s.objs.items() if o.kind == 'heap' and o.alive is True and
           i not in (s.ghost['input'].obj, s.ghost['buf'].obj)]
    eng.check_p(s, not bad, fn + ': no record is dropped', C15)


@task('input.read_cb', ['C15'], INP)
def t_read_cb(T):
    for handler in (True, False):
        eng = T_eng(T)
        st, inp, w = mk(T, eng, True, False, handler)
        fn = 'read callback'
        seen = {}
        for s, _ in T.run(eng, st.ghost['cb'], st, [w, 1]):
            eng.cover(s, fn)
            g = s.ghost
            rest(eng, s, fn)
            eng.check_p(s, g['rderr'] != 'error', fn + ': a read error ends the program', C15)
            if g.get('ndel', 0):
                seen['record'] = 1
                eng.check_p(s, g['ndel'] == 1 and 'neof' not in g, fn + ': one record is delivered for one request', C15)
            elif g.get('neof', 0) or dead(s, 'input'):
                seen['eof'] = 1
                ended(eng, s, fn, handler)
            else:
                seen['wait'] = 1
                eng.check_p(s, g['rderr'] == 'again', fn + ': reading goes on until nothing is available', C15)
                for lab, f in inv(eng, s):
                    eng.check_p(s, f, fn + ': ' + lab, C15)
                eng.check_p(s, And(g['pend'] is not False, ne(W(eng, s), 0), Not(g['eofseen'])), fn + ': the request stays pending', C15)
                eng.check_p(s, nosep(s, g['tk'], g['be']), fn + ': no complete record is held back', C15)
        exits(eng, fn)
        eng.check_p(st, len(seen) == 3 and bool(eng.exits), fn + ': all outcomes are possible', C15)


@task('input.read_chunk', ['C15'], INP)
def t_read_chunk(T):
    for eof in (False, True):
        for handler in (True, False):
            eng = T_eng(T)
            st, inp, w = mk(T, eng, False, eof, handler)
            fn = 'input_read_chunk'
            for s, _ in T.run(eng, fn, st, [inp, eng.fn_ptr('user_chunk')]):
                eng.cover(s, fn)
                if eof:
                    ended(eng, s, fn, handler)
                else:
                    eng.check_p(s, 'invoked' in s.ghost and 'neof' not in s.ghost, fn + ': available data is looked for at once', C15)
            exits(eng, fn)


@task('input.start_stop', ['C15'], INP)
def t_start(T):
    cb = callback(T)
    eng = T_eng(T)
    st = start0(eng, eng.start())
    st.ghost['cb'] = cb
    fn = 'input_start'
    for s, p in T.run(eng, fn, st, [st.ghost['sep']]):
        eng.cover(s, fn)
        g = s.ghost
        ok = 'input' in g and 'buf' in g
        eng.check_p(s, ok and ptr_eq(p, g['input']), fn + ': returns the input, which has a byte queue', C15)
        if not ok:
            continue
        for lab, f in inv(eng, s):
            eng.check_p(s, f, fn + ': ' + lab, C15)
        eng.check_p(s, And(eq(W(eng, s), 0), eq(W(eng, s, 'pending'), 0)), fn + ': nothing is read before it is asked for', C15)
        eng.check_p(s, eq(F(eng, s, 'eof_handler').obj, 0), fn + ': no handler yet', C15)
        eng.check_p(s, 'setfl' in g and 'flags' in g and eq(g['setfl'], bor(eng, g['flags'], 2048)), fn + ': standard input is made non-blocking, other flags kept', C15)
        ev = eng.fld(s, eng.fldptr(g['input'], 'input_state_s', 'watcher'), 'ev_io', 'events')
        fd = eng.fld(s, eng.fldptr(g['input'], 'input_state_s', 'watcher'), 'ev_io', 'fd')
        eng.check_p(s, And(eq(fd, 0), is_c(ev) and (ev & 3) == 1), fn + ': the watcher waits for standard input to become readable', C15)
    exits(eng, fn)
    for pend in (False, True):
        eng = T_eng(T)
        st, inp, w = mk(T, eng, pend, False, True)
        fn = 'input_stop'
        for s, _ in T.run(eng, fn, st, [inp]):
            eng.cover(s, fn)
            eng.check_p(s, dead(s, 'input') and dead(s, 'buf'), fn + ': the input is released', C15)
            eng.check_p(s, 'neof' not in s.ghost, fn + ': no end of input is signalled', C15)
        exits(eng, fn)
    eng = T_eng(T)
    st, inp, w = mk(T, eng, False, False, False)
    for s, _ in T.run(eng, 'input_on_eof', st, [inp, eng.fn_ptr('user_eof')]):
        eng.cover(s, 'input_on_eof')
        eng.check_p(s, is_fn(eng, F(eng, s, 'eof_handler'), 'user_eof'), 'input_on_eof: the handler is kept', C15)
        for lab, f in inv(eng, s):
            eng.check_p(s, f, 'input_on_eof: ' + lab, C15)


def bor(eng, a, b):
    """a | b for a power of two b"""
    k = b.bit_length() - 1
    bit = z3.Int2BV(toz(a), 32)
    return add(a, Ite(eq(mod_(div_(a, b), 2), 0), b, 0))


def div_(a, b):
    return a // b if is_c(a) else toz(a) / b


def mod_(a, b):
    return a % b if is_c(a) else toz(a) % b
