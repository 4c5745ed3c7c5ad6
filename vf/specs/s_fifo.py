"""src/server/fifo.c: the command file queue (C07, C08, C09)

Ghost stream: Q(p) is the p-th byte queued; `left` of them have left the queue (written to the pipe, given to a dump),
the chunk set aside for output holds the following output_size ones, the byte queue those from bs to be.  Data thrown
away is taken out of the stream, so positions stay contiguous.  B(p) marks the ends of submissions.
"""
from vtask import *
from libc import *
from engine import StructVal
import libc

FIFO = ['src/server/fifo.c']
C07, C08, C09 = ['C07'], ['C08'], ['C09']
PIPEBUF = 4096
EINTR, EAGAIN, EINPROGRESS = 4, 11, 115


def F(eng, s, n):
    return eng.fld(s, s.ghost['fifo'], 'fifo_state_s', n)


def setF(eng, s, n, v):
    eng.setfld(s, s.ghost['fifo'], 'fifo_state_s', n, v)


def W(eng, s, w, f='active'):
    p = eng.fldptr(s.ghost['fifo'], 'fifo_state_s', w)
    return eng.rd(s, Ptr(p.obj, add(p.off, EVOFF[f])), INT)


def setW(eng, s, w, f, v):
    p = eng.fldptr(s.ghost['fifo'], 'fifo_state_s', w)
    eng.wr(s, Ptr(p.obj, add(p.off, EVOFF[f])), INT, v)


def live(s, p):
    return is_c(p.obj) and p.obj in s.objs and s.objs[p.obj].alive is True


def stream():
    return fresh_fun('QUEUE', I, I), fresh_fun('BOUNDARY', I, z3.BoolSort())


# ---------------------------------------------------------------- buffer.c (verified by the buffer.* tasks)
def q_ok(eng, st, p, node):
    nx = st.ghost.get('next_ob')
    if nx is not None and live(st, p) and p.obj == nx.obj:
        raise Unsupported('two byte queues in use')
    ok = live(st, p) and p.obj == st.ghost['ob'].obj
    eng.check(st, ok, 'the byte queue is live', node)
    return ok


def c_size(eng, st, a, node):
    if not q_ok(eng, st, a[0], node):
        return []
    g = st.ghost
    return [(st, sub(g['be'], g['bs']))]


def c_append(eng, st, a, node):
    if not q_ok(eng, st, a[0], node):
        return []
    g = st.ghost
    need_bytes(eng, st, a[1], a[2], node, 'buffer_append')
    e, d, old, Q = g['be'], a[1], st.copy(), g['Q']
    eng.check_p(st, eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(d.obj, add(d.off, k))), Q(toz(add(e, k)))), 0, a[2]),
                'exactly the submitted bytes are queued, behind the earlier ones', C07, 'pre', node)
    g['be'] = add(e, a[2])
    return [(st, None)]


def c_read(eng, st, a, node):
    if not q_ok(eng, st, a[0], node):
        return []
    g = st.ghost
    have = sub(g['be'], g['bs'])
    r = Ite(le(a[2], have), a[2], have)
    need_bytes(eng, st, a[1], r, node, 'buffer_read', write=True)
    b, Q = g['bs'], g['Q']
    eng.wr_bulk(st, a[1], 'copy', r, lambda k: Q(toz(add(b, k))))
    g['bs'] = add(b, r)
    return [(st, r)]


def c_slurp(eng, st, a, node):
    if not q_ok(eng, st, a[0], node):
        return []
    g = st.ghost
    b, ln, Q = g['bs'], sub(g['be'], g['bs']), g['Q']
    p = eng.new_obj(st, add(ln, 1), 'heap', 'output chunk')
    eng.wr_bulk(st, p, 'copy', ln, lambda k: Q(toz(add(b, k))))
    eng.wr(st, Ptr(p.obj, ln), CHAR, 0)
    eng.wr(st, a[1], cfront.ULONG, ln)
    g['bs'] = g['be']
    return [(st, p)]


def c_new(eng, st, a, node):
    p = eng.new_obj(st, 1, 'heap', 'byte queue')
    g = st.ghost
    if 'ob' in g and live(st, g['ob']) and not g.get('stopping'):
        if g.get('next_ob') is not None:
            raise Unsupported('two byte queues in use')
        g['next_ob'] = p           # replaces the queue as soon as that is released
        return [(st, p)]
    g['ob'] = p
    if 'be' not in g:
        g['bs'] = g['be'] = 0
    return [(st, p)]


def c_bfree(eng, st, a, node):
    """releasing the queue throws away what is in it"""
    if not q_ok(eng, st, a[0], node):
        return []
    g = st.ghost
    st.objs[a[0].obj] = st.objs[a[0].obj].with_(alive=False)
    if g.get('stopping'):
        return [(st, None)]
    if g.get('next_ob') is not None:
        g['ob'], g['next_ob'] = g['next_ob'], None
    bs, be, n = g['bs'], g['be'], g.get('cursize')
    mx = F(eng, st, 'max_queue_size')
    some = gt(be, bs)
    if n is None:
        eng.check_p(st, Not(some), 'queued data is thrown away only at a submission', C09 + C07, 'pre', node)
        return [(st, None)]
    eng.check_p(st, Implies(some, And(gt(mx, 0), gt(add(sub(be, bs), n), mx))),
                'queued data is thrown away only if it would exceed the configured limit', C09 + C07, 'pre', node)
    eng.check_p(st, eq(add(be, n), g['sub']), 'the new submission itself is not thrown away', C09 + C07, 'pre', node)
    Q, B = g['Q'], g['B']
    Q2, B2 = stream()
    p = z3.Int('p')
    bz, ez = toz(bs), toz(be)
    st.assume(z3.ForAll([p], z3.And(Q2(p) == z3.If(p < bz, Q(p), Q(p + ez - bz)), B2(p) == z3.If(p <= bz, B(p), B(p + ez - bz))),
                        patterns=[Q2(p)]))
    st.assume(z3.ForAll([p], B2(p) == z3.If(p <= bz, B(p), B(p + ez - bz)), patterns=[B2(p)]))
    st.assume(B2(toz(add(bs, n))))
    g.update(Q=Q2, B=B2, be=bs, sub=add(bs, n), dropped=True)
    return [(st, None)]


# ---------------------------------------------------------------- system calls
def c_open(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, ptr_eq(a[0], F(eng, st, 'path')), 'the configured command file is opened', C07, 'pre', node)
    fl = a[1]
    eng.check_p(st, is_c(fl) and (fl & ~0x80000) == 0x801, 'opened for writing, without blocking and without creating it', C07, 'pre', node)
    eng.check_p(st, g['pipe'] is None, 'the command file is opened once', C07, 'pre', node)
    bad = st.copy()
    fd = fresh_int('fd')
    st.assume(fd >= 0, fd < 1048576)
    g['pipe'], g['isfifo'] = fd, None
    set_errno(eng, bad)
    return [(st, fd), (bad, -1)]


def c_fstat(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, g['pipe'] is not None and eq(a[0], g['pipe']), 'the type of the opened file is checked', C07, 'pre', node)
    bad = st.copy()
    need_bytes(eng, st, a[1], 144, node, 'fstat', write=True)
    eng.wr_bulk(st, a[1], 'havoc', 144, lambda k: uf('STAT', I, I)(toz(k)))
    set_errno(eng, bad)
    res = [(bad, -1)]
    for t in range(16):
        s = st.copy() if t < 15 else st
        eng.setfld(s, a[1], 'stat', 'st_mode', t * 4096 + 0o600)
        s.ghost['isfifo'] = t == 1
        s.desc += ('file type %d' % t,)
        res.append((s, 0))
    return res


def c_write(eng, st, a, node):
    if not is_c(a[1].obj):
        rs = eng.resolve(st, a[1], node)
        if len(rs) > 1 or is_c(rs[0][1].obj):
            return [x for s, q in rs for x in c_write(eng, s, [a[0], q, a[2]], node)]
    g = st.ghost
    fd, p, n = a
    need_bytes(eng, st, p, n, node, 'write')
    eng.check_p(st, g['pipe'] is not None and eq(fd, g['pipe']), 'written to the opened command file', C07, 'pre', node)
    eng.check_p(st, g['isfifo'] is True, 'nothing is written to anything but a named pipe', C07, 'pre', node)
    eng.check_p(st, And(ge(n, 1), le(n, PIPEBUF)), 'a single write is no larger than PIPE_BUF', C07, 'pre', node)
    b, Q, B, old = g['left'], g['Q'], g['B'], st.copy()
    eng.check_p(st, eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(p.obj, add(p.off, k))), Q(toz(add(b, k)))), 0, n),
                'exactly the next queued bytes are written', C07, 'pre', node)
    eng.check_p(st, And(le(add(b, n), g['sub']), B(toz(b)), B(toz(add(b, n)))), 'a write consists of whole submissions', C07, 'pre', node)
    bad = st.copy()
    g['left'] = add(b, n)
    g['progress'] = True
    set_errno(eng, bad)
    return [(st, n), (bad, -1)]


def c_close(eng, st, a, node):
    g = st.ghost
    fd = a[0]
    if g['dfd'] is not None and (g['pipe'] is None or eng.proves(st, eq(fd, g['dfd']))) and eng.proves(st, eq(fd, g['dfd'])):
        bad, intr = st.copy(), st.copy()
        g['dfd'] = None
        g['dclosed'] = True
        bad.ghost['dfd'] = None
        bad.ghost['dclosed'] = False
        e = set_errno(eng, bad)
        bad.assume(ne(eng.rd(bad, errno_ptr(eng, bad), INT), EINTR))
        set_errno(eng, intr, EINTR)
        return [(st, 0), (bad, -1), (intr, -1)]
    eng.check_p(st, g['pipe'] is not None and eq(fd, g['pipe']), 'close: an open descriptor of the writer', C07 + C08, 'pre', node)
    g['pipe'] = None
    r = fresh_int('close')
    st.assume(r >= -1, r <= 0)
    return [(st, r)]


def c_mkstemp(eng, st, a, node):
    g = st.ghost
    p = a[0]
    if not live(st, p):
        raise Unsupported('mkstemp template')
    fm = libc.made_of(st, p)
    n = eng.strlen_of(st, p)
    fm = flat(fm)
    ok = fm is not None and len(fm) == 2 and fm[0][0] == 'str' and fm[0][1].obj == F(eng, st, 'dump_dir').obj and \
        eq(fm[0][1].off, F(eng, st, 'dump_dir').off) and fm[1][0] == 'lit' and fm[1][1][:1] == b'/' and fm[1][1].count(b'/') == 1
    eng.check_p(st, ok, 'the dump file is created in the temp directory', C08, 'pre', node)
    eng.check_p(st, fm is not None and fm[-1][0] == 'lit' and fm[-1][1].endswith(b'XXXXXX'), 'mkstemp: the template ends in XXXXXX', C08, 'pre', node)
    eng.check_p(st, g['dfd'] is None, 'at most one dump file is open', C08, 'pre', node)
    bad = st.copy()
    u = fresh_fun('UNIQ', I, I)
    k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.And(u(k) >= 48, u(k) <= 122), patterns=[u(k)]))
    eng.wr_bulk(st, Ptr(p.obj, sub(n, 6)), 'copy', 6, lambda q: u(toz(q)))
    eng.assume_len(st, p, n)
    fd = fresh_int('dump_fd')
    st.assume(fd >= 0, fd < 1048576)
    if g['pipe'] is not None:
        st.assume(ne(fd, g['pipe']))
    g.update(dfd=fd, dname=p, dname_w=st.objs[p.obj].writes, dsize=0, dclosed=None)
    set_errno(eng, bad)
    lose(eng, bad)
    return [(st, fd), (bad, -1)]


def flat(fm):
    if fm is None:
        return None
    r = []
    for p in fm:
        if p[0] == 'lit' and r and r[-1][0] == 'lit':
            r[-1] = ('lit', r[-1][1] + p[1])
        else:
            r.append(p)
    return r


def lose(eng, st):
    """a failed dump: the data set aside for it is dropped"""
    g = st.ghost
    n = F(eng, st, 'output_size')
    g['left'] = add(g['left'], n)
    g['lost'] = True


def cb_field(eng, st, cb, f):
    return eng.fld(st, cb, 'aiocb', f)


def c_aio_write(eng, st, a, node):
    g = st.ghost
    cb = a[0]
    eng.check_p(st, ptr_eq(cb, eng.fldptr(g['fifo'], 'fifo_state_s', 'async_cb')), 'aio_write: the request block of the writer', C08, 'pre', node)
    eng.check_p(st, g['aio'] is None, 'at most one asynchronous write is outstanding', C08, 'pre', node)
    p, n = cb_field(eng, st, cb, 'aio_buf'), cb_field(eng, st, cb, 'aio_nbytes')
    rs = eng.resolve(st, p, node)
    if len(rs) != 1 or not is_c(rs[0][1].obj):
        raise Unsupported('aio_write of an undetermined block')
    st, p = rs[0]
    g = st.ghost
    need_bytes(eng, st, p, n, node, 'aio_write')
    eng.check_p(st, g['dfd'] is not None and eq(cb_field(eng, st, cb, 'aio_fildes'), g['dfd']), 'aio_write: to the dump file', C08, 'pre', node)
    eng.check_p(st, eq(cb_field(eng, st, cb, 'aio_offset'), 0), 'aio_write: from the start of the file', C08, 'pre', node)
    b, Q, B, old = g['left'], g['Q'], g['B'], st.copy()
    eng.check_p(st, And(ge(n, 1), eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(p.obj, add(p.off, k))), Q(toz(add(b, k)))), 0, n)),
                'exactly the next queued bytes are dumped', C07 + C08, 'pre', node)
    eng.check_p(st, And(le(add(b, n), g['sub']), B(toz(b)), B(toz(add(b, n)))), 'a dump consists of whole submissions', C07 + C08, 'pre', node)
    se = eng.fldptr(cb, 'aiocb', 'aio_sigevent')
    eng.check_p(st, And(eq(eng.fld(st, se, 'sigevent', 'sigev_notify'), 0), eq(eng.fld(st, se, 'sigevent', 'sigev_signo'), g['sig'])),
                'aio_write: completion is reported by the signal the writer handles', C08, 'pre', node)
    sv = eng.rd(st, eng.fldptr(se, 'sigevent', 'sigev_value'), cfront.ptr(cfront.VOID))
    eng.check_p(st, ptr_eq(sv, g['fifo']), 'aio_write: completion is reported to the writer', C08, 'pre', node)
    eng.check_p(st, eq(W(eng, st, 'async_watcher'), 1), 'aio_write: the completion is waited for before it can happen', C08, 'pre', node)
    bad = st.copy()
    g['left'] = add(b, n)
    g['aio'] = p
    g['aio_n'] = n
    g['aio_w'] = (st.objs[p.obj].writes, st.objs[p.obj].ver)
    g['progress'] = True
    set_errno(eng, bad)
    lose(eng, bad)
    return [(st, 0), (bad, -1)]


def c_aio_error(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, ptr_eq(a[0], eng.fldptr(g['fifo'], 'fifo_state_s', 'async_cb')) and g['aio'] is not None, 'aio_error: about the outstanding request', C08, 'pre', node)
    if g.get('aio_done'):
        e = g.get('aio_err')
        if e is None:
            e = fresh_int('aio_error')
            st.assume(e >= 0, e < 133, e != EINPROGRESS)
            g['aio_err'] = e
        return [(st, e)]
    busy = st.copy()
    e = fresh_int('aio_error')
    st.assume(e >= 0, e < 133, e != EINPROGRESS)
    g['aio_err'] = e
    g['aio_done'] = True
    return [(st, e), (busy, EINPROGRESS)]


def c_aio_return(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, g['aio'] is not None and g.get('aio_done') is True and 'aio_err' in g, 'aio_return: after completion', C08, 'pre', node)
    eng.check_p(st, 'aio_ret' not in g, 'aio_return: once', C08, 'pre', node)
    r = fresh_int('aio_return')
    st.assume(r >= -1, le(r, g['aio_n']))
    g['aio_ret'] = r
    return [(st, r)]


def c_free(eng, st, a, node):
    g = st.ghost
    p = a[0]
    if is_c(p.obj) and p.obj != 0 and 'fifo' in g:
        if g['aio'] is not None and p.obj == g['aio'].obj:
            eng.check_p(st, g.get('aio_done') is True, 'the data of an asynchronous write is not released before it has completed', C08, 'pre', node)
            o = st.objs[p.obj]
            eng.check_p(st, (o.writes, o.ver) == g['aio_w'], 'the data of an asynchronous write is not modified', C08, 'pre', node)
            g['aio_freed'] = True
        if p.obj == g['fifo'].obj:
            eng.check_p(st, g['aio'] is None or g.get('aio_done') is True, 'the writer is not released before its asynchronous write has completed', C08, 'pre', node)
    return libc.LIBC['free'](eng, st, a, node)


def c_sigaction(eng, st, a, node):
    g = st.ghost
    h = eng.rd(st, a[1], cfront.ptr(cfront.VOID))
    eng.check_p(st, is_c(h.obj) and eng.fnnames.get(h.obj) == 'async_signal_handler' or g.get('anyh'), 'the completion signal is handled', C08, 'pre', node)
    fl = eng.fld(st, a[1], 'sigaction', 'sa_flags')
    eng.check_p(st, is_c(fl) and fl & 4 == 4, 'the handler gets the signal information', C08, 'pre', node)
    g['sigset'] = a[0]
    bad = st.copy()
    set_errno(eng, bad)
    return [(st, 0), (bad, -1)]


def c_invoke(eng, st, a, node):
    """ev_invoke(): calls the callback of the watcher"""
    w = a[-2]
    cb = None
    for n in ('open_watcher', 'write_watcher'):
        q = eng.fldptr(st.ghost['fifo'], 'fifo_state_s', n)
        if eng.proves(st, ptr_eq(w, q)):
            cb = eng.fld(st, q, 'ev_timer' if n == 'open_watcher' else 'ev_io', 'cb')
    if cb is None or not (is_c(cb.obj) and cb.obj in eng.fnnames):
        raise Unsupported('undetermined watcher callback')
    return [(s, None) for s, _ in eng.call_named(st, eng.fnnames[cb.obj], [w, a[-1]], node)]


def c_xmalloc(eng, st, a, node):
    r = libc.LIBC['xmalloc'](eng, st, a, node)
    for s, p in r:
        if is_c(a[0]) and a[0] == eng.recsize('fifo_state_s') and 'fifo' not in s.ghost:
            s.ghost['fifo'] = p
    return r


SIGRTMIN = z3.Int('SIGRTMIN')


def c_rtmin(eng, st, a, node):
    st.assume(SIGRTMIN >= 33, SIGRTMIN <= 60)
    return [(st, SIGRTMIN)]


CONTRACTS = {
    'buffer_size': c_size, 'buffer_append': c_append, 'buffer_read': c_read, 'buffer_slurp': c_slurp, 'buffer_new': c_new,
    'buffer_free': c_bfree, 'open': c_open, 'open64': c_open, 'fstat': c_fstat, 'write': c_write, 'close': c_close,
    'mkstemp': c_mkstemp, 'mkstemp64': c_mkstemp, 'aio_write': c_aio_write, 'aio_write64': c_aio_write,
    'aio_error': c_aio_error, 'aio_return': c_aio_return, 'aio_error64': c_aio_error, 'aio_return64': c_aio_return,
    'aio_suspend': lambda e, s, a, n: [(s, fresh_int('r'))], 'free': c_free, 'sigaction': c_sigaction,
    'sigemptyset': lambda e, s, a, n: [(s, 0)], 'signal': lambda e, s, a, n: [(s, NULL)], 'ev_invoke': c_invoke,
    'strerror': lambda e, s, a, n: [(s, e.new_string(s, 'strerror', 'param'))], '__libc_current_sigrtmin': c_rtmin,
    'xmalloc': c_xmalloc,
}
for _f in CONTRACTS:
    libc.NOTES.setdefault(_f, 'POSIX/libev model: any result the specification allows')


# ---------------------------------------------------------------- invariant
def inv(eng, s):
    g = s.ghost
    f = lambda n: F(eng, s, n)
    Q, B = g['Q'], g['B']
    r = []
    out, osz = f('output'), f('output_size')
    if eng.proves(s, eq(g['bs'], g['be'])):
        # where an empty queue starts is a matter of notation
        g['bs'] = g['be'] = add(g['left'], osz)
    has = ne(out.obj, 0)
    r.append(('every queued byte is accounted for: passed on, set aside for output, or queued', C07 + C09, And(
        le(0, g['left']), eq(g['bs'], add(g['left'], osz)), le(g['bs'], g['be']), eq(g['be'], g['sub']))))
    r.append(('no output chunk, nothing set aside', C07, Implies(Not(has), eq(osz, 0))))
    r.append(('the parts of the queue consist of whole submissions', C07, And(
        B(toz(g['left'])), B(toz(g['bs'])), B(toz(g['be'])))))
    if is_c(out.obj):
        outs = [(True, out.obj)] if out.obj else []
    else:
        gen = g.get('generic_out')
        if gen is None:
            raise Unsupported('output chunk not determined')
        outs = [(eq(out.obj, gen), gen)]
        r.append(('the output chunk', C07, Or(eq(out.obj, 0), eq(out.obj, gen))))
    for c, oid in outs:
        o = s.objs[oid]
        fo = f('free_output')
        r.append(('the output chunk is live', C07, Implies(c, And(o.alive, eq(out.off, 0), ge(osz, 1), le(osz, o.size)))))
        r.append(('the output chunk is released with its release function', C07, Implies(c, is_c(fo.obj) and eng.fnnames.get(fo.obj) == 'free')))
        r.append(('the output chunk holds the next queued bytes', C07, Implies(c, eng.forall_bytes(
            lambda k: eq(eng.byte_at(s, Ptr(oid, k)), Q(toz(add(g['left'], k)))), 0, osz))))
    return r


def idle_inv(eng, s):
    """what holds between events"""
    g = s.ghost
    f = lambda n: F(eng, s, n)
    r = []
    fd = f('fd')
    r.append(('the descriptor is that of the open command file', C07, eq(fd, g['pipe'] if g['pipe'] is not None else -1)))
    r.append(('only a named pipe is kept open', C07, g['pipe'] is None or g['isfifo'] is True))
    wa, oa, aa = W(eng, s, 'write_watcher'), W(eng, s, 'open_watcher'), W(eng, s, 'async_watcher')
    n = sub(g['be'], g['bs'])
    osz = f('output_size')
    over = Or(gt(osz, PIPEBUF), gt(n, PIPEBUF))
    if g['pipe'] is None:
        r.append(('opening the command file is tried again', C07 + C09, eq(oa, 1)))
        r.append(('nothing is written while the command file is closed', C07, eq(wa, 0)))
    else:
        r.append(('an open command file is not opened again', C07, eq(oa, 0)))
        r.append(('pending data is being passed on', C07 + C09 + C08, Implies(gt(g['sub'], g['left']), Or(eq(wa, 1), And(over, eq(aa, 1))))))
        p = eng.fldptr(g['fifo'], 'fifo_state_s', 'write_watcher')
        r.append(('the command file is watched', C07, Implies(eq(wa, 1), And(eq(eng.fld(s, p, 'ev_io', 'fd'), fd),
                                                                        Or(eq(eng.fld(s, p, 'ev_io', 'events'), 2), eq(eng.fld(s, p, 'ev_io', 'events'), 0x82))))))
    r.append(('what is about to be written to the pipe fits PIPE_BUF', C07 + C08, Implies(eq(wa, 1), And(Not(over), gt(g['sub'], g['left'])))))
    df = f('dump_file')
    if g['aio'] is None or g.get('aio_freed'):
        r.append(('no completion is waited for without a request', C08, eq(aa, 0)))
        r.append(('no dump file stays open', C08, g['dfd'] is None))
        r.append(('no dump file name is kept', C08, is_c(df.obj) and df.obj == 0))
    else:
        r.append(('the completion is waited for', C08, eq(aa, 1)))
        o = s.objs[g['aio'].obj]
        r.append(('the data being dumped is live and unmodified', C08, o.alive is True and (o.writes, o.ver) == g['aio_w']))
        cb = eng.fldptr(g['fifo'], 'fifo_state_s', 'async_cb')
        r.append(('the request is unmodified', C08, And(ptr_eq(cb_field(eng, s, cb, 'aio_buf'), g['aio']),
                                                    eq(cb_field(eng, s, cb, 'aio_nbytes'), g['aio_n']))))
        fo = f('free_aio_buf')
        r.append(('the dumped data is released with its release function', C08, is_c(fo.obj) and eng.fnnames.get(fo.obj) == 'free'))
        r.append(('the dump file is open', C08, g['dfd'] is not None and eq(f('dump_fd'), g['dfd'])))
        r.append(('the dump file name is kept', C08, live(s, df) and df.obj == g['dname'].obj and s.objs[df.obj].writes is g['dname_w']))
    mx = f('max_queue_size')
    r.append(('the queue is bounded', C09, Or(eq(mx, 0), le(n, mx), le(n, g['maxsub']))))
    return r


def mk(eng, st, out, pipe, aio, wr=None):
    """a command file writer in any state satisfying the invariant"""
    g = st.ghost
    fifo = eng.new_struct(st, 'fifo_state_s', 'heap', 'writer')
    Q, B = stream()
    ob = eng.new_obj(st, 1, 'heap', 'byte queue')
    g.update(fifo=fifo, Q=Q, B=B, ob=ob, pipe=None, isfifo=None, aio=None, dfd=None, sig=SIGRTMIN + 1)
    for n in ('left', 'bs', 'be', 'maxsub'):
        g[n] = fresh_int(n)
        st.assume(g[n] >= 0, g[n] < (1 << 60))
    g['sub'] = g['be']
    setF(eng, st, 'output_buffer', ob)
    setF(eng, st, 'path', eng.new_string(st, 'path', 'param'))
    setF(eng, st, 'dump_dir', eng.new_string(st, 'dump_dir', 'param'))
    mx = fresh_int('max_queue_size')
    st.assume(mx >= 0, mx < (1 << 61))
    setF(eng, st, 'max_queue_size', mx)
    setF(eng, st, 'free_output', eng.fn_ptr('free'))
    setF(eng, st, 'free_aio_buf', eng.fn_ptr('free') if aio else NULL)
    osz = 0
    if out:
        osz = fresh_int('output_size')
        sz = fresh_int('chunk size')
        st.assume(osz >= 1, sz >= osz, sz < (1 << 60))
        setF(eng, st, 'output', eng.new_obj(st, sz, 'heap', 'output chunk'))
    else:
        setF(eng, st, 'output', NULL)
    setF(eng, st, 'output_size', osz)
    fd = -1
    if pipe:
        fd = fresh_int('fd')
        st.assume(fd >= 0, fd < 1048576)
        g.update(pipe=fd, isfifo=True)
    setF(eng, st, 'fd', fd)
    for w, cb, rec in (('open_watcher', 'open_cb', 'ev_timer'), ('write_watcher', 'write_cb', 'ev_io'), ('async_watcher', 'async_cb', 'ev_async')):
        p = eng.fldptr(fifo, 'fifo_state_s', w)
        eng.setfld(st, p, rec, 'data', fifo)
        eng.setfld(st, p, rec, 'cb', eng.fn_ptr(cb))
        for x in ('pending', 'priority', 'active'):
            setW(eng, st, w, x, 0)
    p = eng.fldptr(fifo, 'fifo_state_s', 'write_watcher')
    eng.setfld(st, p, 'ev_io', 'fd', fd if pipe else fresh_int('oldfd'))
    eng.setfld(st, p, 'ev_io', 'events', 2)
    setW(eng, st, 'open_watcher', 'active', 0 if pipe else 1)
    wa = wr if wr is not None else 0 if not pipe else fresh_int('write_active')
    if is_z3(wa):
        st.assume(wa >= 0, wa <= 1)
    setW(eng, st, 'write_watcher', 'active', wa)
    setF(eng, st, 'dump_file', NULL)
    setF(eng, st, 'dump_fd', -1)
    if aio:
        n = fresh_int('aio size')
        st.assume(n >= 1, n < (1 << 60))
        b = eng.new_obj(st, n, 'heap', 'data being dumped')
        dn = eng.new_string(st, 'dump file name')
        dfd = fresh_int('dump_fd')
        st.assume(dfd >= 0, dfd < 1048576)
        if pipe:
            st.assume(ne(dfd, fd))
        o = st.objs[b.obj]
        g.update(aio=b, aio_n=n, aio_w=(o.writes, o.ver), dfd=dfd, dname=dn, dname_w=st.objs[dn.obj].writes, dclosed=None)
        cb = eng.fldptr(fifo, 'fifo_state_s', 'async_cb')
        eng.setfld(st, cb, 'aiocb', 'aio_buf', b)
        eng.setfld(st, cb, 'aiocb', 'aio_nbytes', n)
        setF(eng, st, 'dump_file', dn)
        setF(eng, st, 'dump_fd', dfd)
        setW(eng, st, 'async_watcher', 'active', 1)
    for _, _, f in inv(eng, st) + idle_inv(eng, st):
        if f is False:
            raise Unsupported('writer state')
        st.assume(f)
    return fifo


def final(eng, s, fn, extra=()):
    g = s.ghost
    for lab, props, f in inv(eng, s) + idle_inv(eng, s):
        eng.check_p(s, f, '%s: %s' % (fn, lab), props)
    ok = set(extra) | {g['fifo'].obj, g['ob'].obj}
    eng.check_p(s, g.get('next_ob') is None, '%s: there is one byte queue' % fn, C07)
    out = F(eng, s, 'output')
    if is_c(out.obj):
        ok.add(out.obj)
    elif g.get('generic_out') is not None:
        ok.add(g['generic_out'])
    if g['aio'] is not None and not g.get('aio_freed'):
        ok.add(g['aio'].obj)
        ok.add(g['dname'].obj)
    leaks(eng, s, fn, ok)
    fb = F(eng, s, 'output_buffer')
    eng.check_p(s, ptr_eq(fb, g['ob']) and live(s, g['ob']), '%s: the byte queue is live' % fn, C07)
    for w in ('open_watcher', 'write_watcher', 'async_watcher'):
        p = eng.fldptr(g['fifo'], 'fifo_state_s', w)
        eng.check_p(s, ptr_eq(eng.fld(s, p, 'ev_io' if w[0] == 'w' else 'ev_timer' if w[0] == 'o' else 'ev_async', 'data'), g['fifo']),
                    '%s: the %s refers to the writer' % (fn, w), C07)


def leaks(eng, s, fn, ok):
    for i, o in s.objs.items():
        if o.kind == 'heap' and i not in ok and o.alive is not False:
            eng.check_p(s, Not(o.alive) if o.alive is not True else False, '%s: `%s` is released' % (fn, o.name), C07 + C08)


def generic_output(L):
    """loop head of the write loop: any output chunk, or none, satisfying the invariant"""
    eng, s = L.eng, L.S
    g = s.ghost
    if 'fifo' not in g or s.frames[-1].fname == 'close_dump_file':
        return
    cur = eng.fld(L.S0, g['fifo'], 'fifo_state_s', 'output')
    ids = ([cur.obj] if cur.obj else []) if is_c(cur.obj) else [g.get('generic_out')]
    sz = fresh_int('out.size')
    s.assume(sz >= 0)
    p = eng.new_obj(s, sz, 'heap', 'output chunk')
    has = fresh_bool('has_output')
    for i in ids:
        if i in s.objs:
            s.objs[i] = s.objs[i].with_(alive=False)
    s.objs[p.obj] = s.objs[p.obj].with_(alive=has)
    setF(eng, s, 'output', Ptr(z3.If(has, z3.IntVal(p.obj), z3.IntVal(0)), 0))
    g['generic_out'] = p.obj
    for k in ('left', 'bs'):
        g[k] = fresh_int(k)
    v = fresh_int('output_size')
    s.assume(v >= 0)
    setF(eng, s, 'output_size', v)
    setF(eng, s, 'free_output', eng.fn_ptr('free'))


def write_inv(L):
    eng, s = L.eng, L.S
    g = s.ghost
    r = [(lab, f) for lab, _, f in inv(eng, s)]
    n = sub(g['be'], g['bs'])
    r.append(('what is written fits PIPE_BUF', And(le(F(eng, s, 'output_size'), PIPEBUF), le(n, PIPEBUF))))
    r.append(('there is data to write', gt(g['sub'], g['left'])))
    r.append(('the command file is open', g['pipe'] is not None and And(eq(F(eng, s, 'fd'), g['pipe']), g['isfifo'] is True)))
    r.append(('the output watcher is active', And(eq(W(eng, s, 'write_watcher'), 1), eq(W(eng, s, 'open_watcher'), 0))))
    r.append(('the queue has not grown', And(ge(g['bs'], L.S0.ghost['bs']), eq(g['be'], L.S0.ghost['be']))))
    return r


def loops():
    w = LoopSpec(inv=write_inv, post_havoc=generic_output, auto=False, cands=[
        ('there is no output chunk', lambda s: None)])

    def pick(eng, st):
        # a loop that writes to the pipe gets the contract; loops that repeat interrupted calls need none
        if st.frames[-1].fname in RETRY:
            return LoopSpec(auto=False)
        return LoopSpec(inv=write_inv, post_havoc=generic_output, auto=False)
    return {'*': pick}


RETRY = ('open_cb', 'close_dump_file', 'fifo_stop')


def T_eng(T, lp=True, **kw):
    return T.eng(contracts=dict(CONTRACTS, **kw), loops=loops() if lp else {})


def submit(eng, st, n, data):
    """the next submission"""
    g = st.ghost
    e, Q, old = g['sub'], g['Q'], st.copy()
    st.assume(eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(data.obj, add(data.off, k))), Q(toz(add(e, k)))), 0, n))
    kk = z3.Int('kk')
    st.assume(z3.ForAll([kk], z3.Implies(z3.And(kk >= toz(e), kk < toz(add(e, n))), Q(kk) == toz(
        eng.byte_at(old, Ptr(data.obj, add(data.off, sub(kk, e)))))), patterns=[Q(kk)]))
    st.assume(g['B'](toz(add(e, n))))
    g['sub'] = add(e, n)
    g['cursize'] = n
    g['maxsub'] = Ite(ge(g['maxsub'], n), g['maxsub'], n)
    g['dropped'] = False


STATES = [(out, pipe, aio) for out in (False, True) for pipe in (False, True) for aio in (False, True)]


@task('fifo.write', ['C07', 'C08', 'C09'], FIFO, weight=5)
def t_write(T):
    for out, pipe, aio in STATES:
        for fr in ('free', None):
            eng = T_eng(T)
            st = eng.start()
            fifo = mk(eng, st, out, pipe, aio)
            n = fresh_int('size')
            st.assume(n >= 1, n < (1 << 60))
            data = eng.new_obj(st, n, 'heap', 'submission')
            submit(eng, st, n, data)
            fn = 'fifo_write'
            for s, _ in T.run(eng, 'fifo_write', st, [fifo, data, n, eng.fn_ptr('free') if fr else NULL]):
                eng.cover(s, fn)
                final(eng, s, fn, [] if fr else [data.obj])
                g = s.ghost
                if not fr:
                    eng.check_p(s, live(s, data), 'fifo_write: data of the caller stays with the caller', C07)


@task('fifo.write_cb', ['C07', 'C09', 'C08'], FIFO, weight=3)
def t_write_cb(T):
    for out in (False, True):
        for aio in (False, True):
            eng = T_eng(T)
            st = eng.start()
            fifo = mk(eng, st, out, True, aio, wr=1)
            w = eng.fldptr(fifo, 'fifo_state_s', 'write_watcher')
            for s, _ in T.run(eng, 'write_cb', st, [w, 2]):
                eng.cover(s, 'write callback')
                final(eng, s, 'write callback')


@task('fifo.open_cb', ['C07', 'C09', 'C08'], FIFO, weight=3)
def t_open_cb(T):
    for out in (False, True):
        for aio in (False, True):
            eng = T_eng(T)
            st = eng.start()
            fifo = mk(eng, st, out, False, aio)
            setW(eng, st, 'open_watcher', 'active', 0)
            w = eng.fldptr(fifo, 'fifo_state_s', 'open_watcher')
            for s, _ in T.run(eng, 'open_cb', st, [w, 256]):
                eng.cover(s, 'open callback')
                final(eng, s, 'open callback')


def c_command(T):
    """fifo_write() of the command that announces the dump file"""
    def h(eng, st, a, node):
        g = st.ghost
        fifo, p, n, fr = a
        if 'aio_phase' not in g:
            return T.run(eng, 'fifo_write', st, a)
        fm = flat(libc.made_of(st, p)) if live(st, p) else None
        if fm is None:
            raise Unsupported('command text')
        ok = len(fm) == 5 and fm[0] == ('lit', b'[') and fm[1][0] == 'num' and fm[2] == ('lit', b'] PROCESS_FILE;') and \
            fm[3][0] == 'str' and fm[3][1].obj == g['dname'].obj and fm[3][1].off == 0 and fm[4] == ('lit', b';1\n') and \
            fm[3][3].objs[g['dname'].obj].writes is g['dname_w']
        eng.check_p(st, ok, 'the command names exactly the dump file, with the delete flag set', C08, 'pre', node)
        eng.check_p(st, eq(fm[1][1], g.get('time', fm[1][1])), 'the command has the current time', C08, 'pre', node)
        eng.check_p(st, And('aio_err' in g and eq(g['aio_err'], 0), 'aio_ret' in g and eq(g['aio_ret'], g['aio_n'])),
                    'the command is queued only if every byte was written to the dump file', C08, 'pre', node)
        eng.check_p(st, g['dclosed'] is True, 'the command is queued only if the dump file was closed successfully', C08, 'pre', node)
        eng.check_p(st, eq(n, eng.strlen_of(st, p)) and is_c(fr.obj) and eng.fnnames.get(fr.obj) == 'free',
                    'the whole command is queued', C08 + C07, 'pre', node)
        eng.check_p(st, 'commanded' not in g, 'the command is queued once', C08, 'pre', node)
        g['commanded'] = True
        settle(eng, st)
        submit(eng, st, n, p)
        return T.run(eng, 'fifo_write', st, a)
    return h


def settle(eng, st):
    """the request is over; another one may be started"""
    g = st.ghost
    eng.check_p(st, g.get('aio_freed') is True, 'the dumped data is released', C08, 'pre', None)
    for k in ('aio_err', 'aio_ret', 'aio_freed', 'aio_phase', 'aio_done'):
        if k in g:
            g['old_' + k] = g.pop(k)
    if 'old_n' not in g:
        g['old_n'], g['old_dclosed'] = g['aio_n'], g['dclosed']
    g['aio'] = None


def c_time(eng, st, a, node):
    r = libc.LIBC['time'](eng, st, a, node)
    for s, v in r:
        s.ghost['time'] = v
    return r


@task('fifo.async_cb', ['C08', 'C07', 'C09'], FIFO, weight=5)
def t_async_cb(T):
    for out in (False, True):
        for pipe in (False, True):
            cont = {'fifo_write': c_command(T), 'time': c_time}

            def aiow(eng, st, a, node):
                if 'aio_phase' in st.ghost:
                    settle(eng, st)
                return c_aio_write(eng, st, a, node)
            for k in ('aio_write', 'aio_write64'):
                cont[k] = aiow

            def mkst(eng, st, a, node):
                if 'aio_phase' in st.ghost:
                    settle(eng, st)
                return c_mkstemp(eng, st, a, node)
            for k in ('mkstemp', 'mkstemp64'):
                cont[k] = mkst
            eng = T_eng(T, **cont)
            st = eng.start()
            fifo = mk(eng, st, out, pipe, True)
            g = st.ghost
            g['aio_phase'] = g['aio_done'] = True      # the completion signal is sent after completion
            w = eng.fldptr(fifo, 'fifo_state_s', 'async_watcher')
            fn = 'completion callback'
            for s, _ in T.run(eng, 'async_cb', st, [w, 0]):
                eng.cover(s, fn)
                g = s.ghost
                e, r = g.get('old_aio_err', g.get('aio_err')), g.get('old_aio_ret', g.get('aio_ret'))
                if 'aio_phase' in g:
                    settle(eng, s)
                eng.check_p(s, 'old_aio_freed' in g, 'completion: the dumped data is released', C08)
                if 'commanded' not in g:
                    good = And(eq(e, 0), r is not None and eq(r, g['old_n'])) if e is not None else True
                    closed = g['old_dclosed'] is True
                    eng.check_p(s, Not(good) if closed or e is None else True, 'a complete dump is announced', C08)
                final(eng, s, fn)


@task('fifo.start_stop', ['C07', 'C08', 'C09'], FIFO)
def t_start_stop(T):
    eng = T_eng(T)
    st = eng.start()
    g = st.ghost
    Q, B = stream()
    g.update(Q=Q, B=B, left=0, sub=0, maxsub=0, pipe=None, isfifo=None, aio=None, dfd=None, sig=SIGRTMIN + 1)
    st.assume(B(z3.IntVal(0)))
    path, dd = eng.new_string(st, 'path', 'param'), eng.new_string(st, 'dump_dir', 'param')
    mq = fresh_int('max_queue_size')
    st.assume(mq >= 0, mq < (1 << 40))
    for s, p in T.run(eng, 'fifo_start', st, [path, dd, mq]):
        eng.cover(s, 'fifo_start')
        g = s.ghost
        ok = 'fifo' in g and live(s, p) and p.obj == g['fifo'].obj
        eng.check_p(s, ok, 'fifo_start: returns the writer', C07)
        if not ok:
            continue
        eng.check_p(s, eq(F(eng, s, 'max_queue_size'), mul(mq, 1048576)), 'fifo_start: the limit is the configured number of megabytes', C09)
        eng.check_p(s, And(ptr_eq(F(eng, s, 'path'), path), ptr_eq(F(eng, s, 'dump_dir'), dd)), 'fifo_start: the configured paths are used', C07 + C08)
        eng.check_p(s, 'sigset' in g and eq(g['sigset'], g['sig']), 'fifo_start: the completion signal is handled', C08)
        for w, cb, rec in (('open_watcher', 'open_cb', 'ev_timer'), ('write_watcher', 'write_cb', 'ev_io'), ('async_watcher', 'async_cb', 'ev_async')):
            q = eng.fld(s, eng.fldptr(p, 'fifo_state_s', w), rec, 'cb')
            eng.check_p(s, is_c(q.obj) and eng.fnnames.get(q.obj) == cb, 'fifo_start: the %s runs its callback' % w, C07 + C08)
        final(eng, s, 'fifo_start')
    for out, pipe, aio in STATES:
        eng = T_eng(T)
        st = eng.start()
        fifo = mk(eng, st, out, pipe, aio)
        st.ghost['stopping'] = True
        for s, _ in T.run(eng, 'fifo_stop', st, [fifo]):
            eng.cover(s, 'fifo_stop')
            g = s.ghost
            eng.check_p(s, s.objs[fifo.obj].alive is False, 'fifo_stop: the writer is released', C08)
            eng.check_p(s, g['pipe'] is None and g['dfd'] is None, 'fifo_stop: the descriptors are closed', C07 + C08)
            leaks(eng, s, 'fifo_stop', set())
            for w in ('open_watcher', 'write_watcher', 'async_watcher'):
                eng.check_p(s, eq(W(eng, s, w), 0), 'fifo_stop: the %s is stopped' % w, C07 + C08)


@task('fifo.signal', ['C08'], FIFO)
def t_signal(T):
    sent = []

    def send(eng, st, a, node):
        eng.check_p(st, ptr_eq(a[-1], eng.fldptr(st.ghost['fifo'], 'fifo_state_s', 'async_watcher')), 'the completion callback of the writer is triggered', C08, 'pre', node)
        st.event('sent')
        return [(st, None)]
    eng = T_eng(T, ev_async_send=send)
    st = eng.start()
    fifo = mk(eng, st, False, True, True)
    info = eng.new_obj(st, 128, 'param', 'siginfo')
    code = fresh_int('si_code')
    st.assume(code >= -60, code <= 60)
    eng.wr(st, Ptr(info.obj, 8), INT, code)
    eng.wr(st, Ptr(info.obj, 24), cfront.ptr(cfront.VOID), fifo)
    for s, _ in T.run(eng, 'async_signal_handler', st, [fresh_int('sig'), info, NULL]):
        eng.cover(s, 'signal handler')
        eng.check_p(s, eq(code, -4) if any(e[0] == 'sent' for e in s.trace) else ne(code, -4), 'completion is reported exactly for asynchronous I/O signals', C08)
