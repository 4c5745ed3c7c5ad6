"""lib/pidfile: the PID file (C23)

Ghost: fds maps a descriptor to the identity (device, inode) of the file it refers to; `locked' is the descriptor holding
the exclusive lock; `ver' tells which descriptor's identity was last compared to the remembered one.
"""
from vtask import *
from libc import *
import libc
import z3

PID = ['lib/pidfile/pidfile.c']
FLO = ['lib/pidfile/flopen.c']
C23 = ['C23']
O_RDONLY, O_WRONLY, O_CREAT, O_TRUNC, O_NONBLOCK, O_EXCL, O_APPEND = 0, 1, 64, 512, 2048, 128, 1024
LOCK_EX, LOCK_NB = 2, 4
EAGAIN, EEXIST = 11, 17
DEV = cfront


def put_stat(eng, st, sb, dev, ino):
    eng.setfld(st, sb, 'stat', 'st_dev', dev)
    eng.setfld(st, sb, 'stat', 'st_ino', ino)


def ident(st, what):
    d, i = fresh_int('dev_' + what), fresh_int('ino_' + what)
    st.assume(d >= 0, i >= 0, d < 1 << 64, i < 1 << 64)
    return d, i


def newfd(st, name='fd'):
    f = fresh_int(name)
    st.assume(f >= 0, f <= 2147483647)
    return f


def same_term(a, b):
    """the very same value (without asking the solver)"""
    if is_c(a) or is_c(b):
        return is_c(a) and is_c(b) and a == b
    return z3.eq(a, b)


def errno_of(eng, st):
    return eng.rd(st, libc.errno_ptr(eng, st), INT)


@task('pidfile.flopen', ['C23'], FLO)
def t_flopen(T):
    for flags in (O_WRONLY | O_CREAT | O_TRUNC | O_NONBLOCK, O_WRONLY | O_CREAT | O_NONBLOCK, O_WRONLY | O_CREAT | O_TRUNC):
        fn = 'flopen(0x%x)' % flags

        def c_open(eng, st, a, node):
            g = st.ghost
            eng.check_p(st, ptr_eq(a[0], g['path']), 'open(): the given path', C23, 'pre', node)
            eng.check_p(st, eq(a[1], flags & ~O_TRUNC), 'open(): the given flags, but the file is not truncated before it is locked', C23, 'pre', node)
            eng.check_p(st, len(a) > 2 and eq(a[2], g['mode']), 'open(): the given mode', C23, 'pre', node)
            eng.check_p(st, g['fd'] is None, 'open(): no other descriptor is open', C23, 'pre', node)
            bad = st.copy()
            bad.ghost['cause'] = libc.set_errno(eng, bad)
            f = newfd(st)
            g.update(fd=f, id=ident(st, 'fd'), locked=False, same=False, truncated=False, name=None, mine=None)
            return [(st, f), (bad, -1)]

        def mine(eng, st, f, node, what):
            g = st.ghost
            eng.check_p(st, g['fd'] is not None and eq(f, g['fd']), what + ': the descriptor of the file', C23, 'pre', node)

        def c_flock(eng, st, a, node):
            g = st.ghost
            mine(eng, st, a[0], node, 'flock()')
            eng.check_p(st, eq(a[1], LOCK_EX | (LOCK_NB if flags & O_NONBLOCK else 0)), 'flock(): an exclusive lock%s' % (
                ', without waiting' if flags & O_NONBLOCK else ''), C23, 'pre', node)
            bad = st.copy()
            bad.ghost['cause'] = libc.set_errno(eng, bad)
            g['locked'] = True
            return [(st, 0), (bad, -1)]

        def c_stat(eng, st, a, node):
            g = st.ghost
            eng.check_p(st, ptr_eq(a[0], g['path']), 'stat(): the given path', C23, 'pre', node)
            bad = st.copy()
            libc.set_errno(eng, bad)
            bad.ghost['name'] = None
            bad.ghost['cause'] = None
            d, i = ident(st, 'path')
            if g['locked']:
                g['name'] = (d, i)
            put_stat(eng, st, a[1], d, i)
            return [(st, 0), (bad, -1)]

        def c_fstat(eng, st, a, node):
            g = st.ghost
            mine(eng, st, a[0], node, 'fstat()')
            bad = st.copy()
            bad.ghost['cause'] = libc.set_errno(eng, bad)
            if g['fd'] is None or g['id'] is None:
                return [(bad, -1)]
            put_stat(eng, st, a[1], *g['id'])
            g['mine'] = True
            return [(st, 0), (bad, -1)]

        def same(g):
            if g['name'] is None or g['mine'] is not True:
                return False
            return And(eq(g['name'][0], g['id'][0]), eq(g['name'][1], g['id'][1]))

        def c_trunc(eng, st, a, node):
            g = st.ghost
            mine(eng, st, a[0], node, 'ftruncate()')
            eng.check_p(st, And(eq(a[1], 0), bool(flags & O_TRUNC)), 'ftruncate(): only if requested, to size zero', C23, 'pre', node)
            eng.check_p(st, And(g['locked'], same(g)), 'ftruncate(): only the locked file the path refers to', C23, 'pre', node)
            bad = st.copy()
            bad.ghost['cause'] = libc.set_errno(eng, bad)
            g['truncated'] = True
            return [(st, 0), (bad, -1)]

        def c_close(eng, st, a, node):
            mine(eng, st, a[0], node, 'close()')
            st.ghost['fd'] = None
            libc.set_errno(eng, st)
            r = fresh_int('closed')
            st.assume(r >= -1, r <= 0)
            return [(st, r)]

        def inv(L):
            return [('no descriptor is open between attempts', L.S.ghost['fd'] is None)]
        def havoc(L):
            L.S.ghost['fd'] = None
        eng = T.eng(contracts={'open': c_open, 'flock': c_flock, 'stat': c_stat, 'fstat': c_fstat, 'ftruncate': c_trunc, 'close': c_close},
                    loops={'*': LoopSpec(inv=inv, auto=False, post_havoc=havoc)})
        st = eng.start()
        mode = fresh_int('mode')
        st.assume(mode >= 0, mode <= 4095)
        st.ghost.update(path=eng.new_string(st, 'path', 'param'), mode=mode, fd=None, cause=None, id=None, locked=False, name=None, mine=None, truncated=False, same=False)
        for s, r in T.run(eng, 'flopen', st, [st.ghost['path'], flags, mode]):
            g = s.ghost
            for good in (True, False):
                x = s.copy()
                x.assume(ne(r, -1) if good else eq(r, -1))
                if not eng.feasible(x):
                    continue
                eng.cover(x, fn + (': opened' if good else ': failed'))
                if good:
                    eng.check_p(x, And(g['fd'] is not None and eq(r, g['fd']), g['locked'], same(g)), fn + ': a descriptor is returned only if it is exclusively locked and the path refers to the locked file', C23)
                    eng.check_p(x, g['truncated'] == bool(flags & O_TRUNC), fn + ': the file is truncated if requested', C23)
                else:
                    eng.check_p(x, g['fd'] is None, fn + ': no descriptor is left open on failure', C23)
                    eng.check_p(x, g['cause'] is not None and eq(errno_of(eng, x), g['cause']), fn + ': errno tells the reason of the failure', C23)


# ---------------------------------------------------------------- pidfile.c
def c_flopen(eng, st, a, node):
    """verified by pidfile.flopen"""
    g = st.ghost
    p = a[0]
    n = eng.strlen_of(st, p, node, 'flopen')
    want = g['path']
    eng.check_p(st, And(eq(n, eng.strlen_of(st, want)), eng.forall_bytes(lambda k: eq(eng.byte_at(st, Ptr(p.obj, add(p.off, k))), eng.byte_at(st, Ptr(want.obj, k))), 0, n)),
                'flopen(): the given path', C23, 'pre', node)
    eng.check_p(st, And(is_c(a[1]), is_c(a[1]) and a[1] & O_CREAT != 0 and a[1] & O_NONBLOCK != 0 and a[1] & 3 != 0),
                'flopen(): the file is created if necessary, opened for writing, and nobody waits for the lock', C23, 'pre', node)
    eng.check_p(st, eq(a[2], g['mode']), 'flopen(): the given mode', C23, 'pre', node)
    bad = st.copy()
    bad.ghost['cause'] = libc.set_errno(eng, bad)
    f = newfd(st)
    g.update(fd=f, id=ident(st, 'fd'), pathptr=p)
    return [(st, f), (bad, -1)]


def because(eng, st):
    """a system call fails; the reason of the first failure is remembered"""
    e = libc.set_errno(eng, st)
    if st.ghost.get('why') is None:
        st.ghost['why'] = e


def contracts():
    def known(eng, st, f, node, what):
        g = st.ghost
        eng.check_p(st, g['fd'] is not None and eq(f, g['fd']), what + ': the descriptor of the PID file', C23, 'pre', node)

    def c_fstat(eng, st, a, node):
        g = st.ghost
        known(eng, st, a[0], node, 'fstat()')
        bad = st.copy()
        because(eng, bad)
        bad.ghost['seen'] = None
        g['seen'] = g['id']
        put_stat(eng, st, a[1], *g['id'])
        return [(st, 0), (bad, -1)]

    def owned(g):
        """the descriptor still refers to the file that was opened"""
        if g.get('fresh'):
            return True                # just opened and locked by this process
        if g['seen'] is None:
            return False
        return And(eq(g['seen'][0], g['rid'][0]), eq(g['seen'][1], g['rid'][1]))

    def c_trunc(eng, st, a, node):
        g = st.ghost
        known(eng, st, a[0], node, 'ftruncate()')
        eng.check_p(st, And(eq(a[1], 0), owned(g)), 'ftruncate(): only the file that was opened', C23, 'pre', node)
        bad = st.copy()
        because(eng, bad)
        g['truncated'] = True
        g['content'] = None
        return [(st, 0), (bad, -1)]

    def c_pwrite(name):
        def h(eng, st, a, node):
            g = st.ghost
            known(eng, st, a[0], node, name)
            need_bytes(eng, st, a[1], a[2], node, name)
            eng.check_p(st, And(owned(g), g.get('truncated') is True), name + ': only into the emptied file that was opened', C23, 'pre', node)
            if name == 'pwrite()':
                eng.check_p(st, eq(a[3], 0), 'pwrite(): at the start of the file', C23, 'pre', node)
            t = g.get('text')
            if t is None or not is_c(a[1].obj) or a[1].obj != t[0].obj:
                raise Unsupported('text of the PID file')
            q, pc, n, w = t
            eng.check_p(st, len(pc) == 1 and pc[0][0] == 'num' and pc[0][2] in 'diu' and And(ptr_eq(a[1], q), eq(a[2], n), eng.objs_same(st, q, w) if hasattr(eng, 'objs_same') else st.objs[q.obj].writes is w, eq(pc[0][1], g['pid'])),
                        name + ': exactly the decimal process ID', C23, 'pre', node)
            part = st.copy()
            r = fresh_int('written')
            part.assume(r >= -1, lt(r, n))
            because(eng, part)
            g['content'] = True
            return [(st, n), (part, r)]
        return h

    def c_snprintf(eng, st, a, node):
        out = []
        pc = libc.pieces_of(eng, st, a[2], a[3:], node, 'snprintf')
        for s, t in libc.bounded_print(eng, st, a[0], a[1], pc, node, 'snprintf'):
            s.ghost['text'] = (a[0], pc, t, s.objs[a[0].obj].writes)
            out.append((s, t))
        return out

    def c_getpid(eng, st, a, node):
        g = st.ghost
        if 'pid' not in g:
            v = fresh_int('pid')
            st.assume(v >= 1, v <= 1 << 30)
            g['pid'] = v
        return [(st, g['pid'])]

    def c_unlink(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, ptr_eq(a[0], g['pathptr']), 'unlink(): the path of the PID file', C23, 'pre', node)
        eng.check_p(st, And(owned(g), g['fd'] is not None), 'unlink(): only by the owner, while it holds the file that was opened', C23, 'pre', node)
        bad = st.copy()
        because(eng, bad)
        g['unlinked'] = g['unlinked'] + 1
        bad.ghost['unlinked'] = g['unlinked']
        return [(st, 0), (bad, -1)]

    def c_close(eng, st, a, node):
        g = st.ghost
        if g.get('rfd') is not None and same_term(a[0], g['rfd']):
            g['rfd'] = None
            libc.set_errno(eng, st)
            return [(st, 0)]
        known(eng, st, a[0], node, 'close()')
        eng.check_p(st, owned(g), 'close(): only the file that was opened', C23, 'pre', node)
        g['fd'] = None
        g['closed'] = g['closed'] + 1
        bad = st.copy()
        because(eng, bad)
        libc.set_errno(eng, st)
        return [(st, 0), (bad, -1)]

    def c_open(eng, st, a, node):
        """reading the PID file of the other server"""
        g = st.ghost
        eng.check_p(st, And(eq(a[1], O_RDONLY), g.get('rfd') is None), 'open(): the file of another server is only read', C23, 'pre', node)
        bad = st.copy()
        e = libc.set_errno(eng, bad)
        bad.ghost['read'] = ('open', e)
        g['rfd'] = newfd(st, 'rfd')
        return [(st, g['rfd']), (bad, -1)]

    def c_read(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, g.get('rfd') is not None and eq(a[0], g['rfd']), 'read(): the file of the other server', C23, 'pre', node)
        need_bytes(eng, st, a[1], a[2], node, 'read', write=True)
        bad = st.copy()
        e = libc.set_errno(eng, bad)
        bad.ghost['read'] = ('read', e)
        n = fresh_int('nread')
        st.assume(n >= 0, le(n, a[2]))
        txt = z3.Function('PIDTXT!%s' % fresh_int('u'), z3.IntSort(), z3.IntSort())
        eng.wr_bulk(st, a[1], 'havoc', n, lambda k: txt(toz(k)))
        g['read'] = ('ok', n, a[1])
        return [(st, n), (bad, -1)]

    def c_strtol(eng, st, a, node):
        out = []
        for s, v in libc.LIBC['strtol'](eng, st, a, node):
            s.ghost['num'] = (a[0], v, eng.rd(s, a[1], cfront.ptr(CHAR)), a[2])
            out.append((s, v))
        return out
    return {'flopen': c_flopen, 'fstat': c_fstat, 'ftruncate': c_trunc, 'pwrite': c_pwrite('pwrite()'), 'write': c_pwrite('write()'), 'snprintf': c_snprintf,
            'getpid': c_getpid, 'unlink': c_unlink, 'close': c_close, 'open': c_open, 'read': c_read, 'strtol': c_strtol, '__isoc23_strtol': c_strtol,
            'nanosleep': lambda e, s, a, n: [(s, 0)]}


def handle(eng, st, open_):
    """a struct pidfh; open_: its file was opened"""
    g = st.ghost
    p = eng.new_struct(st, 'pidfh', 'heap', 'pidfh')
    f = newfd(st)
    rid = ident(st, 'remembered')
    eng.setfld(st, p, 'pidfh', 'pf_fd', f if open_ else -1)
    eng.setfld(st, p, 'pidfh', 'pf_dev', rid[0])
    eng.setfld(st, p, 'pidfh', 'pf_ino', rid[1])
    g.update(fd=f if open_ else None, rid=rid, id=ident(st, 'descriptor'), pathptr=eng.fldptr(p, 'pidfh', 'pf_path'), seen=None,
             unlinked=0, closed=0, truncated=False, content=None, h=p)
    return p


def untouched(g):
    return g['unlinked'] == 0 and g['closed'] == 0 and not g['truncated'] and g['content'] is None


def is_own(g):
    return And(g['fd0'] is not None, eq(g['id'][0], g['rid'][0]), eq(g['id'][1], g['rid'][1]))


@task('pidfile.write', ['C23'], PID)
def t_write(T):
    for fn in ('pidfile_write', 'pidfile_remove', 'pidfile_close'):
        for kind in ('open', 'closed', 'null'):
            eng = T.eng(contracts=contracts())
            st = eng.start()
            g = st.ghost
            p = handle(eng, st, kind == 'open')
            g['fd0'] = g['fd']
            if kind == 'null':
                p = NULL
            for s, r in T.run(eng, fn, st, [p]):
                g = s.ghost
                eng.check_p(s, Or(eq(r, 0), eq(r, -1)), fn + ': success or failure', C23)
                for good in (True, False):
                    x = s.copy()
                    x.assume(eq(r, 0) if good else ne(r, 0))
                    if not eng.feasible(x):
                        continue
                    eng.cover(x, '%s(%s) %s' % (fn, kind, 'succeeds' if good else 'fails'))
                    alive = x.objs[g['h'].obj].alive is True
                    eng.check_p(x, Implies(not untouched(g), And(kind == 'open', is_own(g))), fn + ': a closed or reused descriptor is left alone', C23)
                    if fn == 'pidfile_write':
                        eng.check_p(x, alive, fn + ': the handle stays valid', C23)
                        f = eng.fld(x, g['h'], 'pidfh', 'pf_fd')
                        eng.check_p(x, eq(f, -1) if g['fd'] is None else eq(f, g['fd']), fn + ': the handle knows whether the file is open', C23)
                        if good:
                            eng.check_p(x, And(g['content'] is True, g['fd'] is not None, g['unlinked'] == 0), fn + ': succeeds only if the file consists of the process ID, and stays open (locked)', C23)
                        else:
                            eng.check_p(x, Or(untouched(g), And(g['unlinked'] == 1, g['closed'] == 1), g['seen'] is None), fn + ': a file that could not be written is removed', C23)
                    elif fn == 'pidfile_remove':
                        eng.check_p(x, Or(untouched(g), And(g['unlinked'] == 1, g['closed'] == 1, Not(alive))), fn + ': removed, closed and released together', C23)
                        eng.check_p(x, Implies(untouched(g), alive), fn + ': the handle is not released otherwise', C23)
                        if good:
                            eng.check_p(x, g['unlinked'] == 1, fn + ': succeeds only if the file is removed', C23)
                    else:
                        eng.check_p(x, And(g['unlinked'] == 0, not g['truncated']), fn + ': the file stays', C23)
                        eng.check_p(x, Or(And(g['closed'] == 1, Not(alive)), And(g['closed'] == 0, alive, not good)), fn + ': closed and released together', C23)
                    if good:
                        eng.check_p(x, g.get('why') is None, fn + ': succeeds only if no system call failed', C23)
                    if not good and kind == 'open' and g.get('why') is None:
                        eng.check_p(x, Not(is_own(g)), fn + ': fails only if a system call failed or the descriptor is not that of the file', C23)
                    if not good and kind == 'open' and 'why' in g and untouched(g):
                        eng.check_p(x, eq(errno_of(eng, x), g['why']), fn + ': errno tells the reason', C23)


@task('pidfile.open', ['C23'], PID)
def t_open(T):
    def inv(L):
        g = L.S.ghost
        r = [('nothing of the file is changed', And(g['fd'] is None, g.get('rfd') is None, g['unlinked'] == 0, not g['truncated']))]
        if L.has('count'):
            c = L.var('count')
            r.append(('retries', And(ge(c, 1), le(c, 1 << 20))))
        return r
    ghosts = ('read', 'num', 'rfd')

    def havoc(L):
        g = L.S.ghost
        g['read'] = g['num'] = g['rfd'] = None
    eng = T.eng(contracts=contracts(), loops={'*': LoopSpec(inv=inv, auto=False, post_havoc=havoc)})
    st = eng.start()
    mode = fresh_int('mode')
    st.assume(mode >= 0, mode <= 4095)
    path = eng.new_string(st, 'path', 'param')
    pid = eng.new_obj(st, 4, 'param', 'pid')
    st.ghost.update(path=path, mode=mode, fd=None, cause=None, id=None, unlinked=0, closed=0, truncated=False, content=None, rfd=None, read=None, num=None,
                    fresh=True, seen=None, pathptr=NULL)
    ids = set(st.objs)
    fn = 'pidfile_open'
    for s, p in T.run(eng, fn, st, [path, mode, pid]):
        g = s.ghost
        null = is_c(p.obj) and p.obj == 0
        live = [o.id for o in s.objs.values() if o.kind == 'heap' and o.alive is True and o.id not in ids]
        eng.cover(s, fn + (': failed' if null else ': opened'))
        if not null:
            f = lambda n: eng.fld(s, p, 'pidfh', n)
            eng.check_p(s, And(g['fd'] is not None and eq(f('pf_fd'), g['fd']), eq(f('pf_dev'), g['id'][0] if g['id'] else -1), eq(f('pf_ino'), g['id'][1] if g['id'] else -1)),
                        fn + ': the handle remembers the descriptor and the identity of the locked file', C23)
            eng.check_p(s, And(ptr_eq(g['pathptr'], eng.fldptr(p, 'pidfh', 'pf_path')), g['unlinked'] == 0, g['closed'] == 0), fn + ': the handle remembers the path', C23)
            eng.check_p(s, live == [p.obj], fn + ': the handle', C23)
        else:
            eng.check_p(s, And(g['fd'] is None, g['rfd'] is None, not live), fn + ': nothing is left open or allocated on failure', C23)
            if g['cause'] is not None:
                eng.check_p(s, g['unlinked'] == 0 and g['closed'] == 0, fn + ': the file of another server is not changed', C23)
                e = errno_of(eng, s)
                eng.check_p(s, Implies(ne(g['cause'], EAGAIN), eq(e, g['cause'])), fn + ': errno tells why the file could not be opened', C23)
                rd_ = g['read']
                running = eq(g['cause'], EAGAIN)
                if rd_ is None or rd_[0] == 'ok' and g['num'] is None:
                    empty = rd_ is not None and eq(rd_[1], 0)
                    eng.check_p(s, Implies(running, And(empty, eq(e, EEXIST), eq(eng.rd(s, pid, INT), -1))), fn + ': the file of the other server is read; no process ID is reported only if it is empty', C23)
                elif rd_[0] != 'ok':
                    eng.check_p(s, Implies(running, Ite(eq(rd_[1], EAGAIN), And(eq(e, EEXIST), eq(eng.rd(s, pid, INT), -1)), eq(e, Ite(eq(rd_[1], 0), EEXIST, rd_[1])))),
                                fn + ': errno tells why the file of the other server could not be read', C23)
                if rd_ is not None and rd_[0] == 'ok' and g['num'] is not None:
                    q, v, end, base = g['num']
                    out = eng.rd(s, pid, INT)
                    whole = ptr_eq(end, Ptr(rd_[2].obj, add(rd_[2].off, rd_[1])))
                    eng.check_p(s, And(eq(base, 10), ptr_eq(q, rd_[2])), fn + ': the content of the file is read as a decimal number', C23)
                    eng.check_p(s, Implies(And(eq(g['cause'], EAGAIN), whole, ge(v, 0), le(v, 1 << 30)), And(eq(e, EEXIST), eq(out, v))), fn + ': the other server\'s process ID is reported', C23)
                    eng.check_p(s, Implies(eq(e, EEXIST), Or(eq(g['cause'], EEXIST), And(whole, Implies(And(ge(v, 0), le(v, 1 << 30)), eq(out, v))))), fn + ': a process ID is reported only if the file consists of one', C23)


@task('pidfile.fileno', C23, PID)
def t_fileno(T):
    eng = T.eng()
    for null in (True, False):
        st = eng.start()
        h = NULL if null else eng.new_struct(st, 'pidfh', 'param', 'handle')
        for s, r in T.run(eng, 'pidfile_fileno', st, [h]):
            eng.cover(s, 'pidfile_fileno')
            eng.check(s, eq(r, -1 if null else eng.fld(s, h, 'pidfh', 'pf_fd')), 'pidfile_fileno: the descriptor, -1 if there is none')
