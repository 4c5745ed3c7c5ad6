"""src/common/tls.c: framing of input (C11), transmission of output (C12), timeouts (C21), resource release (C25)

A connection is described by ghost streams: I(p) is the p-th byte OpenSSL has delivered (rcv of them so far, dlv of
them handed to the protocol layer), O(p) the p-th byte submitted for sending (sub of them so far, acc accepted by
OpenSSL).  inv() is the representation invariant tying the struct to the streams; every callback and API function
is proved to preserve it, or to release every resource of the connection exactly once.
"""
from vtask import *
from libc import *
from engine import StructVal
import libc

TLS = ['src/common/tls.c']
READ, WRITE, CUSTOM = 1, 2, 0x01000000
IN = uf('INPUT', I, I)
OUT = uf('OUTPUT', I, I)
C11, C12, C21, C25, C04, C05, C01 = ['C11'], ['C12'], ['C21'], ['C25'], ['C04'], ['C05'], ['C01']
WATCH = ('init_watcher', 'read_watcher', 'write_watcher', 'shutdown_watcher', 'timeout_watcher')
MAXINT = 2147483647


def F(eng, s, n):
    return eng.fld(s, s.ghost['tls'], 'tls_state', n)


def setF(eng, s, n, v):
    eng.setfld(s, s.ghost['tls'], 'tls_state', n, v)


def W(eng, s, w, f='active'):
    p = eng.fldptr(s.ghost['tls'], 'tls_state', w)
    return eng.rd(s, Ptr(p.obj, add(p.off, EVOFF[f])), INT)


def setW(eng, s, w, f, v):
    p = eng.fldptr(s.ghost['tls'], 'tls_state', w)
    eng.wr(s, Ptr(p.obj, add(p.off, EVOFF[f])), INT, v)


def io_fld(eng, s, w, f):
    p = eng.fldptr(s.ghost['tls'], 'tls_state', w)
    return eng.fld(s, p, 'ev_io', f)


def live(s, p):
    return is_c(p.obj) and p.obj in s.objs and s.objs[p.obj].alive is True


def isnull(p):
    return eq(p.obj, 0)


# ---------------------------------------------------------------- contracts: buffer.c (verified by the buffer.* tasks)
def which(eng, st, p, node):
    g = st.ghost
    for n in ('ib', 'ob'):
        if n in g and is_c(p.obj) and p.obj == g[n].obj:
            eng.check(st, st.objs[p.obj].alive is True, 'byte queue is live', node)
            return n
    raise Unsupported('unknown byte queue')


def c_buf_size(eng, st, a, node):
    n = which(eng, st, a[0], node)
    return [(st, sub(st.ghost[n + 'e'], st.ghost[n + 's']))]


def rebase(eng, st):
    """the position of an empty output queue is that of the next byte to be queued"""
    g = st.ghost
    nxt = add(g['acc'], sub(F(eng, st, 'output_size'), F(eng, st, 'output_offset')))
    e = eq(g['obs'], g['obe'])
    g['obs'], g['obe'] = Ite(e, nxt, g['obs']), Ite(e, nxt, g['obe'])


def rebase_in(eng, st):
    """the position of an empty input queue is that of the next byte to be received into it"""
    g = st.ghost
    nxt = add(g['dlv'], F(eng, st, 'input_offset'))
    e = eq(g['ibs'], g['ibe'])
    g['ibs'], g['ibe'] = Ite(e, nxt, g['ibs']), Ite(e, nxt, g['ibe'])


def c_buf_append(eng, st, a, node):
    n = which(eng, st, a[0], node)
    g = st.ghost
    need_bytes(eng, st, a[1], a[2], node, 'buffer_append')
    if n == 'ob':
        rebase(eng, st)
    else:
        rebase_in(eng, st)
    e, d, old = g[n + 'e'], a[1], st.copy()
    S = IN if n == 'ib' else OUT
    eng.check_p(st, eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(d.obj, add(d.off, k))), S(toz(add(e, k)))), 0, a[2]),
                'the bytes queued are the next bytes %s' % ('received' if n == 'ib' else 'submitted'),
                C11 if n == 'ib' else C12, 'pre', node)
    g[n + 'e'] = add(e, a[2])
    return [(st, None)]


def c_buf_read(eng, st, a, node):
    n = which(eng, st, a[0], node)
    g = st.ghost
    have = sub(g[n + 'e'], g[n + 's'])
    r = Ite(le(a[2], have), a[2], have)
    need_bytes(eng, st, a[1], r, node, 'buffer_read', write=True)
    S, b = (IN if n == 'ib' else OUT), g[n + 's']
    eng.wr_bulk(st, a[1], 'copy', r, lambda k: S(toz(add(b, k))))
    g[n + 's'] = add(b, r)
    return [(st, r)]


def c_buf_slurp(eng, st, a, node):
    n = which(eng, st, a[0], node)
    g = st.ghost
    b, ln = g[n + 's'], sub(g[n + 'e'], g[n + 's'])
    S = IN if n == 'ib' else OUT
    p = eng.new_obj(st, add(ln, 1), 'heap', 'slurped data')
    eng.wr_bulk(st, p, 'copy', ln, lambda k: S(toz(add(b, k))))
    eng.wr(st, Ptr(p.obj, ln), CHAR, 0)
    eng.wr(st, a[1], cfront.ULONG, ln)
    g[n + 's'] = g[n + 'e']
    return [(st, p)]


def c_buf_line(eng, st, a, node):
    """the bytes up to the next LF as a string of its own, without LF or CRLF; NULL if there is none"""
    n = which(eng, st, a[0], node)
    g = st.ghost
    b, e = g[n + 's'], g[n + 'e']
    S = IN if n == 'ib' else OUT
    none, some = st.copy(), st
    none.assume(eng.forall_bytes(lambda k: S(toz(k)) != 10, b, e))
    none.ghost['noline'] = (b, e)
    nl = fresh_int('nl')
    some.assume(le(b, nl), lt(nl, e), S(nl) == 10, eng.forall_bytes(lambda k: S(toz(k)) != 10, b, nl))
    p = eng.new_obj(some, add(sub(nl, b), 1), 'heap', 'line')
    ln = Ite(And(gt(nl, b), eq(S(toz(sub(nl, 1))), 13)), sub(sub(nl, b), 1), sub(nl, b))
    eng.wr_bulk(some, p, 'copy', ln, lambda k: S(toz(add(b, k))))
    eng.wr(some, Ptr(p.obj, ln), CHAR, 0)
    some.ghost[n + 's'] = add(nl, 1)
    some.ghost['line'] = (p.obj, b, nl)
    return [(some, p), (none, NULL)]


def c_buf_free(eng, st, a, node):
    n = which(eng, st, a[0], node)
    st.objs[a[0].obj] = st.objs[a[0].obj].with_(alive=False)
    return [(st, None)]


def c_buf_new(eng, st, a, node):
    g = st.ghost
    n = 'ib' if g.get('newbuf', 0) == 0 else 'ob'
    if g.get('newbuf', 0) > 1:
        raise Unsupported('more than two byte queues')
    g['newbuf'] = g.get('newbuf', 0) + 1
    p = eng.new_obj(st, 1, 'heap', 'byte queue')
    g[n], g[n + 's'], g[n + 'e'] = p, 0, 0
    return [(st, p)]


# ---------------------------------------------------------------- OpenSSL
def is_ssl(eng, st, p, node, what):
    ok = live(st, p) and st.objs[p.obj].meta.get('ssl') is True
    eng.check_p(st, ok, '%s: the TLS object is live' % what, C25, 'pre', node)
    return ok


def c_ssl_read(eng, st, a, node):
    if not is_ssl(eng, st, a[0], node, 'SSL_read'):
        return []
    n, g = a[2], st.ghost
    eng.check_p(st, gt(n, 0), 'SSL_read: at least one byte is asked for', C11, 'pre', node)
    need_bytes(eng, st, a[1], n, node, 'SSL_read', write=True)
    bad = st.copy()
    r = fresh_int('nread')
    st.assume(r >= 1, le(r, n))
    b = g['rcv']
    eng.wr_bulk(st, a[1], 'copy', r, lambda k: IN(toz(add(b, k))))
    g['rcv'] = add(b, r)
    g['ssl_last'] = ('read', r)
    q = fresh_int('rd_err')
    bad.assume(q >= -1, q <= 0)
    set_errno(eng, bad)
    bad.ghost['ssl_last'] = ('read', q)
    return [(st, r), (bad, q)]


def c_ssl_write(eng, st, a, node):
    if not is_ssl(eng, st, a[0], node, 'SSL_write'):
        return []
    if not is_c(a[1].obj):
        rs = eng.resolve(st, a[1], node)
        if len(rs) > 1 or is_c(rs[0][1].obj):
            return [x for s, q in rs for x in c_ssl_write(eng, s, [a[0], q, a[2]], node)]
    p, n, g = a[1], a[2], st.ghost
    eng.check_p(st, gt(n, 0), 'SSL_write: at least one byte is written', C12, 'pre', node)
    need_bytes(eng, st, p, n, node, 'SSL_write')
    eng.check_p(st, Or(eq(g['retry'], 0), And(eq(g['retry'], n), ptr_eq(p, Ptr(g['rp_obj'], g['rp_off'])))),
                'SSL_write: a write that must be retried is repeated with the same buffer and length', C12, 'pre', node)
    old, acc = st.copy(), g['acc']
    eng.check_p(st, And(le(add(acc, n), g['sub']),
                        eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(p.obj, add(p.off, k))), OUT(toz(add(acc, k)))), 0, n)),
                'SSL_write: exactly the next submitted bytes are written', C12, 'pre', node)
    bad = st.copy()
    r = fresh_int('nwritten')
    st.assume(r >= 1, le(r, n))
    g['acc'] = add(acc, r)
    g['retry'] = 0
    g['ssl_last'] = ('write', r)
    q = fresh_int('wr_err')
    bad.assume(q >= -1, q <= 0)
    set_errno(eng, bad)
    bad.ghost.update(retry=n, rp_obj=p.obj, rp_off=p.off, ssl_last=('write', q))
    return [(st, r), (bad, q)]


def c_ssl_hs(what):
    def h(eng, st, a, node):
        if not is_ssl(eng, st, a[0], node, what):
            return []
        r = fresh_int('hs')
        st.assume(r >= -1, r <= 1)
        set_errno(eng, st)
        if what == 'SSL_shutdown':
            st.ghost['nshut'] = add(st.ghost.get('nshut', 0), 1)
            eng.check_p(st, Or(eq(st.ghost['acc'], st.ghost['sub']), eq(st.ghost.get('ssl_error', 0), 6)),
                        'the TLS shutdown is sent only after all submitted data was accepted', C12, 'pre', node)
        st.ghost['ssl_last'] = (what, r)
        if what != 'SSL_shutdown':
            st.ghost['hs_last'] = r
        if what == 'SSL_connect' and st.ghost.get('psk_want') is not None:
            q = st.ghost.get('psk_client')
            eng.check_p(st, q is not None and ptr_eq(q, st.ghost['psk_want']),
                        'SSL_connect: the identity and password callback is installed', ['C04'], 'pre', node)
        res = []
        t, f = eng.split(st, eq(r, 1), node)
        for s in t:
            if what == 'SSL_accept':
                # check_psk() may or may not have stored an identity (see auth.check_psk)
                if is_c(s.ghost['app'].obj) and s.ghost['app'].obj == 0:
                    s2 = s.copy()
                    s2.ghost['app'] = s2.ghost['idp'] = eng.new_string(s2, 'identity')
                    s.desc += ('no identity stored',)
                    s2.ghost['up'] = True
                    res.append((s2, r))
            if what in ('SSL_accept', 'SSL_connect'):
                s.ghost['up'] = True
            res.append((s, r))
        for s in f:
            if what == 'SSL_accept' and is_c(s.ghost['app'].obj) and s.ghost['app'].obj == 0:
                s2 = s.copy()
                s2.ghost['app'] = eng.new_string(s2, 'identity')
                res.append((s2, r))
            res.append((s, r))
        return res
    return h


def c_get_error(eng, st, a, node):
    if not is_ssl(eng, st, a[0], node, 'SSL_get_error'):
        return []
    last = st.ghost.get('ssl_last')
    eng.check_p(st, last is not None and eq(a[1], last[1]), 'SSL_get_error: asked about the last TLS operation', C11 + C12, 'pre', node)
    e = fresh_int('ssl_error')
    st.assume(e >= 0, e <= 12)
    st.ghost['ssl_error'] = e
    return [(st, e)]


def c_ssl_free(eng, st, a, node):
    if not is_ssl(eng, st, a[0], node, 'SSL_free'):
        return []
    st.objs[a[0].obj] = st.objs[a[0].obj].with_(alive=False)
    g = st.ghost
    if g.get('bio_in_ssl'):
        st.objs[g['bio'].obj] = st.objs[g['bio'].obj].with_(alive=False)
    return [(st, None)]


def c_bio_free(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, live(st, a[0]) and not (g.get('bio_in_ssl') and is_c(a[0].obj) and a[0].obj == g['bio'].obj),
                'BIO_free_all: the BIO is live and not owned by a TLS object', C25, 'pre', node)
    if live(st, a[0]):
        st.objs[a[0].obj] = st.objs[a[0].obj].with_(alive=False)
    return [(st, None)]


def c_set_bio(eng, st, a, node):
    if not is_ssl(eng, st, a[0], node, 'SSL_set_bio'):
        return []
    eng.check_p(st, live(st, a[1]) and And(ptr_eq(a[1], a[2]), ptr_eq(a[1], st.ghost['bio'])),
                'SSL_set_bio: the connection\'s socket is used in both directions', C25 + C12, 'pre', node)
    eng.check_p(st, not st.ghost.get('bio_in_ssl'), 'SSL_set_bio: once per connection', C25, 'pre', node)
    st.ghost['bio_in_ssl'] = True
    return [(st, None)]


def c_ssl_new(eng, st, a, node):
    none = st.copy()
    p = eng.new_obj(st, 1, 'heap', 'ssl', meta={'ssl': True})
    st.ghost.update(ssl=p, app=NULL)
    return [(st, p), (none, NULL)]


def c_get_app(eng, st, a, node):
    if not is_ssl(eng, st, a[0], node, 'SSL_get_app_data'):
        return []
    return [(st, st.ghost['app'])]


def c_set_app(eng, st, a, node):
    if not is_ssl(eng, st, a[0], node, 'SSL_set_app_data'):
        return []
    st.ghost['app'] = a[-1]
    return [(st, 1)]


def c_bio_ctrl(eng, st, a, node):
    """BIO_ctrl: get fd / set flags"""
    cmd = a[1]
    eng.check(st, live(st, a[0]), 'BIO_ctrl: BIO is live', node)
    if is_c(cmd) and cmd == 105:       # BIO_C_GET_FD
        r = fresh_int('fd')
        st.assume(r >= -1, r <= 1048576)
        if st.ghost.get('fd') is not None:
            r = st.ghost['fd']
        elif 'bio' in st.ghost:
            st.ghost['fd'] = r
        return [(st, r)]
    if is_c(cmd) and cmd == 102:       # BIO_C_SET_NBIO
        st.ghost['nbio'] = a[2]
    r = fresh_int('bioctl')
    return [(st, r)]


def c_test_flags(eng, st, a, node):
    r = fresh_int('flags')
    st.assume(r >= 0, r <= 15)
    return [(st, r)]


def c_err(kind):
    def h(eng, st, a, node):
        if kind == 'code':
            r = fresh_int('err')
            st.assume(r >= 0, r < (1 << 32))
            return [(st, r)]
        if kind == 'str':
            none = st.copy()      # not every error has a reason text
            return [(st, eng.new_string(st, 'reason', 'param')), (none, NULL)]
        return [(st, None)]
    return h


def c_getpeername(eng, st, a, node):
    a = [eng.rd(x.state, x.ptr, cfront.ptr(cfront.VOID)) if isinstance(x, StructVal) else x for x in a]
    bad = st.copy()
    need_bytes(eng, st, a[2], 4, node, 'getpeername length', write=True)
    ln = eng.rd(st, a[2], cfront.UINT)
    need_bytes(eng, st, a[1], ln, node, 'getpeername', write=True)
    g = fresh_fun('sa', I, I)
    k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.And(g(k) >= 0, g(k) <= 255), patterns=[g(k)]))
    eng.wr_bulk(st, a[1], 'copy', ln, lambda q: g(toz(q)))
    eng.wr(st, a[2], cfront.UINT, fresh_len(st, ln))
    set_errno(eng, bad)
    st.assume(ge(a[0], 0))      # it is a socket
    return [(st, 0), (bad, -1)]


def fresh_len(st, mx):
    n = fresh_int('salen')
    st.assume(n >= 0, le(n, mx))
    return n


def c_inet_ntop(eng, st, a, node):
    need_bytes(eng, st, a[1], 4, node, 'inet_ntop address')
    need_bytes(eng, st, a[2], a[3], node, 'inet_ntop', write=True)
    bad = st.copy()
    n = fresh_int('addrlen')
    st.assume(n >= 2, lt(n, a[3]), n < 46)
    g = fresh_fun('addr', I, I)
    k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.And(g(k) >= 1, g(k) <= 255), patterns=[g(k)]))
    eng.wr_bulk(st, a[2], 'copy', n, lambda q: g(toz(q)))
    eng.wr(st, Ptr(a[2].obj, add(a[2].off, n)), CHAR, 0)
    set_errno(eng, bad)
    return [(st, a[2]), (bad, NULL)]


# ---------------------------------------------------------------- the protocol layer's handlers
def request(eng, st, tls, kind, node):
    """what a handler may do: issue the next read request through the real API"""
    fn = eng.fn_ptr('user_read')
    g = st.ghost
    if kind == 'line':
        g['want'] = 0
        return [s for s, _ in eng.call_named(st, 'tls_read_line', [tls, fn], node)]
    n = fresh_int('next_size')
    st.assume(n >= 1, n <= MAXINT)
    g['want'] = n
    return [s for s, _ in eng.call_named(st, 'tls_read', [tls, fn, n], node)]


def h_user_read(eng, st, a, node):
    tls, d = a
    g = st.ghost
    eng.check_p(st, ptr_eq(tls, g['tls']), 'the read handler gets its connection', C11, 'pre', node)
    eng.check_p(st, And(eq(W(eng, st, 'read_watcher'), 0), g['delivered'] == 0),
                'a unit is delivered once, and the next one may be requested', C11, 'pre', node)
    ok = live(st, d) and st.objs[d.obj].kind == 'heap' and is_c(d.off) and d.off == 0
    eng.check_p(st, ok, 'the delivered unit is a live block of its own', C11 + C25, 'pre', node)
    if not ok:
        return []
    o = st.objs[d.obj]
    b = g['dlv']
    res = []
    if is_c(g['want']) and g['want'] == 0:
        ln = g.get('line')
        eng.check_p(st, ln is not None and ln[0] == d.obj and eq(ln[1], b),
                    'the delivered line is the text up to the next LF, following the previous unit', C11, 'pre', node)
        g['dlv'] = add(ln[2], 1) if ln else b
    else:
        n = g['want']
        eng.check_p(st, And(ge(o.size, add(n, 1)), eng.forall_bytes(
            lambda k: eq(eng.byte_at(st, Ptr(d.obj, k)), IN(toz(add(b, k)))), 0, n)),
            'the delivered block is the requested number of bytes following the previous unit', C11, 'pre', node)
        eng.check_p(st, eq(eng.byte_at(st, Ptr(d.obj, n)), 0), 'the delivered block is NUL-terminated', C11, 'pre', node)
        g['dlv'] = add(b, n)
    eng.check_p(st, le(g['dlv'], g['rcv']), 'only received bytes are delivered', C11, 'pre', node)
    g['delivered'] = 1
    st.event('deliver')
    # the handler owns the unit, and goes on with a request, or ends the connection
    st.objs[d.obj] = o.with_(alive=False)
    for i, k in enumerate(('line', 'bytes', 'stop')):
        s = st.copy()
        if k == 'stop':
            g2 = s.ghost
            g2['want'] = None
            res += [(x, None) for x, _ in eng.call_named(s, 'tls_shutdown', [tls], node)]
        else:
            res += [(x, None) for x in request(eng, s, tls, k, node)]
    return res


def h_user(name):
    def h(eng, st, a, node):
        eng.check_p(st, ptr_eq(a[0], st.ghost['tls']), '%s gets its connection' % name, [], 'pre', node)
        eng.check_p(st, live(st, st.ghost['tls']), '%s gets a live connection' % name, C25, 'pre', node)
        if name == 'drain handler':
            eng.check_p(st, And(eq(st.ghost['acc'], st.ghost['sub']), eq(W(eng, st, 'write_watcher'), 0)),
                        'the drained-handler is called only after all submitted data was accepted', C12, 'pre', node)
        if name == 'error handler':
            st.ghost['errors'] = st.ghost['errors'] + 1
        if name in ('timeout handler', 'line-too-long handler'):
            st.ghost['ended'] = add(st.ghost.get('ended', 0), 1)
            if name == 'timeout handler':
                timeout_state(eng, st, node)
            else:
                toolong_state(eng, st, node)
            # answers with a notice and shuts the connection down
            msg = submit_string(eng, st)
            st.ghost['want'] = None
            res = []
            for s, _ in eng.call_named(st, 'tls_write_line', [a[0], msg], node):
                res += eng.call_named(s, 'tls_shutdown', [a[0]], node)
            return [(s, None) for s, _ in res]
        st.event(name)
        return [(st, None)]
    return h


def h_connect(eng, st, a, node):
    """the connection is established: the protocol layer starts by reading a line"""
    tls = a[0]
    g = st.ghost
    ok = live(st, g['tls'])
    eng.check_p(st, And(ok, ptr_eq(tls, g['tls'])), 'the connect handler gets its live connection', C25 + C05, 'pre', node)
    if not ok:
        return []
    last = g.get('ssl_last')
    eng.check_p(st, last is not None and last[0] in ('SSL_accept', 'SSL_connect') and eq(last[1], 1),
                'the connect handler is called only after a successful handshake', C04 + C01, 'pre', node)
    eng.check_p(st, eq(W(eng, st, 'init_watcher'), 0), 'the handshake watcher is stopped once the handshake is done', C25 + C05, 'pre', node)
    eng.check_p(st, 'connected' not in g, 'the connect handler is called once', C05, 'pre', node)
    if g.get('role') == 'server':
        idp = F(eng, st, 'id')
        want = g.get('idp')
        eng.check_p(st, want is not None and ptr_eq(idp, want), 'the identity is the one the client authenticated with', C04 + C01, 'pre', node)
        if want is None:
            return []
        eng.check_p(st, live(st, idp), 'the identity is live', C04 + C25, 'pre', node)
        eng.check_p(st, is_c(g['app'].obj) and g['app'].obj == 0, 'the identity is owned by the connection only', C25, 'pre', node)
        pp = F(eng, st, 'peer')
        eng.check_p(st, live(st, pp), 'the peer name is set', C05 + C25, 'pre', node)
        if live(st, pp):
            n = eng.strlen_of(st, idp)
            eng.check_p(st, And(eq(eng.byte_at(st, Ptr(pp.obj, n)), 64), eng.forall_bytes(
                lambda k: eq(eng.byte_at(st, Ptr(pp.obj, k)), eng.byte_at(st, Ptr(idp.obj, k))), 0, n)),
                'the name used in log messages starts with the authenticated identity', C04, 'pre', node)
    g['connected'] = 1
    st.event('connected')
    res = []
    for k in ('line', 'stop'):
        s = st.copy()
        if k == 'stop':
            s.ghost['want'] = None
            res += [(x, None) for x, _ in eng.call_named(s, 'tls_shutdown', [tls], node)]
        else:
            res += [(x, None) for x in request(eng, s, tls, k, node)]
    return res


def timeout_state(eng, st, node):
    g = st.ghost
    for w in WATCH[:4]:
        eng.check_p(st, eq(W(eng, st, w), 0), 'timeout: the %s is stopped first' % w, C21, 'pre', node)
    eng.check_p(st, And(eq(W(eng, st, 'timeout_watcher'), 1), eq(g['timer_at'], F(eng, st, 'timeout'))),
                'timeout: the check is scheduled again for the shutdown', C21, 'pre', node)


def toolong_state(eng, st, node):
    g = st.ghost
    eng.check_p(st, And(ge(sub(g['rcv'], g['dlv']), 1920), eng.forall_bytes(lambda k: IN(toz(k)) != 10, g['dlv'], g['rcv'])),
                'only a line of more than 1920 bytes is refused as too long', ['C06'], 'pre', node)
    eng.check_p(st, eq(W(eng, st, 'read_watcher'), 0), 'line too long: reading is stopped first', ['C06', 'C11'], 'pre', node)


def submit_string(eng, st):
    m = eng.new_string(st, 'notice', 'param')
    announce(eng, st, [m])
    return m


def announce(eng, st, parts):
    """the next submitted bytes are these: fixes O beyond sub"""
    pos = st.ghost['sub']
    old = st.copy()
    for p in parts:
        if isinstance(p, bytes):
            for i, c in enumerate(p):
                st.assume(OUT(toz(add(pos, i))) == c)
            pos = add(pos, len(p))
        elif isinstance(p, tuple):
            d, n = p
            st.assume(eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(d.obj, add(d.off, k))), OUT(toz(add(pos, k)))), 0, n))
            # the same fact, usable from the stream side
            kk = z3.Int('kk!%d' % next(_n))
            st.assume(z3.ForAll([kk], z3.Implies(z3.And(kk >= toz(pos), kk < toz(add(pos, n))), OUT(kk) == toz(
                eng.byte_at(old, Ptr(d.obj, add(d.off, sub(kk, pos)))))), patterns=[OUT(kk)]))
            pos = add(pos, n)
        else:
            n = eng.strlen_of(st, p)
            d = p
            st.assume(eng.forall_bytes(lambda k: eq(eng.byte_at(old, Ptr(d.obj, add(d.off, k))), OUT(toz(add(pos, k)))), 0, n))
            pos = add(add(pos, n), 2)
            st.assume(OUT(toz(sub(pos, 2))) == 13, OUT(toz(sub(pos, 1))) == 10)
    st.ghost['sub'] = pos


_n = itertools.count()

CONTRACTS = {
    'buffer_size': c_buf_size, 'buffer_append': c_buf_append, 'buffer_read': c_buf_read, 'buffer_slurp': c_buf_slurp,
    'buffer_read_line': c_buf_line, 'buffer_free': c_buf_free, 'buffer_new': c_buf_new,
    'SSL_read': c_ssl_read, 'SSL_write': c_ssl_write, 'SSL_accept': c_ssl_hs('SSL_accept'),
    'SSL_connect': c_ssl_hs('SSL_connect'), 'SSL_shutdown': c_ssl_hs('SSL_shutdown'), 'SSL_get_error': c_get_error,
    'SSL_free': c_ssl_free, 'BIO_free_all': c_bio_free, 'SSL_set_bio': c_set_bio, 'SSL_new': c_ssl_new,
    'SSL_get_ex_data': c_get_app, 'SSL_set_ex_data': c_set_app, 'BIO_ctrl': c_bio_ctrl, 'BIO_int_ctrl': c_bio_ctrl,
    'BIO_test_flags': c_test_flags, 'ERR_peek_error': c_err('code'), 'ERR_get_error': c_err('code'),
    'ERR_reason_error_string': c_err('str'), 'ERR_clear_error': c_err(''), 'getpeername': c_getpeername,
    'inet_ntop': c_inet_ntop, 'user_read': h_user_read, 'user_drain': h_user('drain handler'),
    'user_error': h_user('error handler'), 'user_timeout': h_user('timeout handler'),
    'user_toolong': h_user('line-too-long handler'), 'user_connect': lambda e, s, a, n: h_connect(e, s, a, n),
    'tls_log': libc.LIBC['warning'],
}
for _f in list(CONTRACTS):
    libc.NOTES.setdefault(_f, 'OpenSSL/libc model: any result the manual page allows')


def timer_hook(eng, st, w, node):
    """ev_timer_start: records the programmed delay"""
    g = st.ghost
    if 'tls' not in g or not is_c(w.obj) or w.obj != g['tls'].obj:
        return
    p = eng.fldptr(g['tls'], 'tls_state', 'timeout_watcher')
    if is_c(w.off) and w.off == p.off:
        eng.check_p(st, eq(W(eng, st, 'timeout_watcher'), 0), 'the timeout check is stopped before it is programmed anew (libev ignores it otherwise)', C21, 'pre', node)
        g['timer_at'] = eng.fld(st, p, 'ev_timer', 'at')
        eng.check_p(st, eng.fld(st, p, 'ev_timer', 'repeat') == 0, 'the timeout check is a one-shot timer', C21, 'pre', node)


def io_hook(eng, st, w, node):
    """ev_io_start: what an active watcher waits for does not change"""
    g = st.ghost
    if g.get('tls') is None or not is_c(w.obj) or w.obj != g['tls'].obj or not is_c(w.off):
        return
    for n in WATCH[:4]:
        p = eng.fldptr(g['tls'], 'tls_state', n)
        if p.off == w.off:
            ev = eng.fld(st, p, 'ev_io', 'events')
            old = g.get('reg_' + n, ev)
            m = lambda x: ival(toz(x) % 128) if is_z3(x) else x % 128
            eng.check_p(st, Or(eq(W(eng, st, n), 0), eq(m(ev), m(old))), 'a watcher is stopped before what it waits for is changed (libev ignores it otherwise)', C11 + C12 + C25, 'pre', node)
            g['reg_' + n] = ev


# ---------------------------------------------------------------- invariant
def inv(eng, s, streams=True):
    """[(label, props, formula)]"""
    g = s.ghost
    f = lambda n: F(eng, s, n)
    r = []
    if 'ob' in g:
        rebase(eng, s)
        rebase_in(eng, s)
    inp, outp = f('input'), f('output')
    isz, iof, osz, oof = f('input_size'), f('input_offset'), f('output_size'), f('output_offset')
    rm = f('read_mode')
    hasin, hasout = ne(inp.obj, 0), ne(outp.obj, 0)
    r.append(('the received bytes are accounted for: delivered, being assembled, or queued', C11, And(
        le(0, g['dlv']), eq(g['ibs'], add(g['dlv'], iof)), le(g['ibs'], g['ibe']), eq(g['ibe'], g['rcv']))))
    r.append(('at most 2048 bytes of an unfinished line are kept', ['C06'], le(sub(g['ibe'], g['ibs']), 2048)))
    r.append(('no partial block without a block', C11, Implies(Not(hasin), eq(iof, 0))))
    r.append(('a line request assembles nothing outside the queue', C11, Implies(eq(rm, 0), eq(iof, 0))))
    if is_c(inp.obj) and inp.obj != 0:
        o = s.objs[inp.obj]
        r.append(('the input block is live', C25, And(o.alive, o.kind == 'heap', eq(inp.off, 0))))
        r.append(('the input block is large enough', C11, And(
            Implies(eq(rm, 0), ge(o.size, isz)), Implies(ne(rm, 0), And(ge(o.size, add(isz, 1)), le(0, iof), lt(iof, isz))))))
        r.append(('the input block holds the received bytes', C11, Implies(ne(rm, 0), eng.forall_bytes(
            lambda k: eq(eng.byte_at(s, Ptr(inp.obj, k)), IN(toz(add(g['dlv'], k)))), 0, iof))))
    elif is_z3(inp.obj):
        raise Unsupported('input block not determined')
    r.append(('the submitted bytes are accounted for: accepted, being written, or queued', C12, And(
        le(0, g['acc']), le(g['obs'], g['obe']), eq(g['obe'], g['sub']),
        eq(g['obs'], add(g['acc'], sub(osz, oof))))))
    r.append(('no output block, nothing being written', C12, Implies(Not(hasout), And(eq(osz, 0), eq(oof, 0), eq(g['retry'], 0)))))
    outs = []
    if is_c(outp.obj):
        outs = [(True, outp.obj)] if outp.obj else []
    else:
        gen = g.get('generic_out')
        if gen is None:
            raise Unsupported('output block not determined')
        outs = [(eq(outp.obj, gen), gen)]
        r.append(('the output block', C12, Or(eq(outp.obj, 0), eq(outp.obj, gen))))
    for c, oid in outs:
        o = s.objs[oid]
        r.append(('the output block is live', C25, Implies(c, And(o.alive, eq(outp.off, 0)))))
        r.append(('the output block is within bounds', C12, Implies(c, And(le(0, oof), lt(oof, osz), le(osz, o.size)))))
        r.append(('the output block holds the next submitted bytes', C12, Implies(c, eng.forall_bytes(
            lambda k: eq(eng.byte_at(s, Ptr(oid, k)), OUT(toz(add(sub(g['acc'], oof), k)))), oof, osz))))
        r.append(('an unfinished write is repeated with the same arguments', C12, Implies(And(c, ne(g['retry'], 0)), And(
            eq(g['retry'], sub(osz, oof)), eq(g['rp_obj'], oid), eq(g['rp_off'], oof)))))
    return r


def idle_inv(eng, s):
    """what additionally holds between callbacks while the connection is up"""
    g = s.ghost
    r = []
    wa = W(eng, s, 'write_watcher')
    r.append(('writing is scheduled exactly while data is unsent', C12, eq(wa, Ite(lt(g['acc'], g['sub']), 1, 0))))
    r.append(('a read request is scheduled exactly while one is outstanding', C11,
              eq(W(eng, s, 'read_watcher'), 0 if g['want'] is None else 1)))
    if g['want'] is not None:
        rm, isz = F(eng, s, 'read_mode'), F(eng, s, 'input_size')
        if is_c(g['want']) and g['want'] == 0:
            r.append(('a line is being read', C11, And(eq(rm, 0), ge(isz, 1), le(isz, 128))))
        else:
            r.append(('a block of the requested size is being read', C11, And(ne(rm, 0), eq(isz, g['want']))))
        rh = F(eng, s, 'read_handler')
        r.append(('the read handler is the one requested', C11, is_c(rh.obj) and eng.fnnames.get(rh.obj) == 'user_read'))
    r += timer_inv(eng, s)
    r.append(('shutdown starts only after all data was accepted', C12,
              Implies(eq(W(eng, s, 'shutdown_watcher'), 1), eq(g['acc'], g['sub']))))
    return r


def timer_inv(eng, s):
    t = F(eng, s, 'timeout')
    return [('the timeout check is scheduled exactly if a timeout is set', C21,
             eq(W(eng, s, 'timeout_watcher'), Ite(t > 0, 1, 0)))]


EVENTS = (READ, WRITE)


def mk_conn(eng, st, want='line', inp=None, out=None, up=True, rd=1, role='server', timer=None, wr=None):
    """a connection in any state satisfying the invariant.
    want: line | bytes | None; inp/out: whether there is an input/output block"""
    g = st.ghost
    tls = eng.new_struct(st, 'tls_state', 'heap', 'connection')
    g.update(tls=tls, delivered=0, errors=0, failing=False, up=up, nshut=0, role=role)
    ib, ob = eng.new_obj(st, 1, 'heap', 'input queue'), eng.new_obj(st, 1, 'heap', 'output queue')
    ssl = eng.new_obj(st, 1, 'heap', 'ssl', meta={'ssl': True})
    bio = eng.new_obj(st, 1, 'heap', 'bio')
    g.update(ib=ib, ob=ob, ssl=ssl, bio=bio, bio_in_ssl=True, app=NULL)
    for n in ('dlv', 'ibs', 'ibe', 'rcv', 'acc', 'sub', 'obs', 'obe'):
        g[n] = fresh_int(n)
        st.assume(g[n] >= 0)
    st.assume(g['sub'] - g['acc'] < (1 << 31))
    g.update(retry=0, rp_obj=0, rp_off=0)
    setF(eng, st, 'input_buffer', ib)
    setF(eng, st, 'output_buffer', ob)
    setF(eng, st, 'ssl', ssl)
    setF(eng, st, 'bio', bio)
    fd = fresh_int('fd')
    st.assume(fd >= 0, fd < 1048576)
    g['fd'] = fd
    setF(eng, st, 'fd', fd)
    setF(eng, st, 'addr', eng.new_string(st, 'addr') if role == 'server' else NULL)
    setF(eng, st, 'peer', eng.new_string(st, 'peer') if up or role == 'client' else NULL)
    setF(eng, st, 'id', eng.new_string(st, 'id') if up and role == 'server' else NULL)
    setF(eng, st, 'data', NULL)
    t = fresh_real('timeout')
    st.assume(t >= 0)
    setF(eng, st, 'timeout', t)
    la = fresh_real('last_activity')
    setF(eng, st, 'last_activity', la)
    for w in WATCH:
        p = eng.fldptr(tls, 'tls_state', w)
        eng.setfld(st, p, 'ev_timer' if w == 'timeout_watcher' else 'ev_io', 'data', tls)
        setW(eng, st, w, 'active', 0)
        setW(eng, st, w, 'pending', 0)
        setW(eng, st, w, 'priority', 0)
        if w != 'timeout_watcher':
            ev = fresh_int('events')
            st.assume(Or(*[ev == e for e in EVENTS]))
            eng.setfld(st, p, 'ev_io', 'events', ev)
            g['reg_' + w] = ev
            eng.setfld(st, p, 'ev_io', 'fd', fd)
    ta = fresh_int('timer_active') if timer is None else int(timer)
    st.assume(eq(ta, Ite(t > 0, 1, 0)))
    setW(eng, st, 'timeout_watcher', 'active', ta)
    g['timer_at'] = fresh_real('timer_at')
    setF(eng, st, 'read_mode', 1 if want == 'bytes' else 0)
    isz = fresh_int('input_size')
    st.assume(isz >= 0, isz <= MAXINT)
    setF(eng, st, 'input_size', isz)
    iof = fresh_int('input_offset')
    st.assume(iof >= 0)
    setF(eng, st, 'input_offset', iof)
    for n in ('output_size', 'output_offset'):
        v = fresh_int(n)
        st.assume(v >= 0)
        setF(eng, st, n, v)
    if want == 'line':
        g['want'] = 0
        # tls_read() sets the chunk size for lines
        st.assume(isz >= 1, isz <= 128)
    elif want == 'bytes':
        g['want'] = isz
        st.assume(isz >= 1)
    else:
        g['want'] = None
    if inp:
        sz = add(isz, 1) if want == 'bytes' else isz
        setF(eng, st, 'input', eng.new_obj(st, sz, 'heap', 'input block'))
    else:
        setF(eng, st, 'input', NULL)
    if out:
        osz = fresh_int('output block size')
        st.assume(osz >= 1)
        p = eng.new_obj(st, osz, 'heap', 'output block')
        setF(eng, st, 'output', p)
        retry = fresh_int('retry')
        g.update(retry=retry, rp_obj=fresh_int('rp_obj'), rp_off=fresh_int('rp_off'))
        st.assume(retry >= 0)
    else:
        setF(eng, st, 'output', NULL)
    setF(eng, st, 'free_output', eng.fn_ptr('free'))
    setF(eng, st, 'connect_handler', eng.fn_ptr('user_connect'))
    setF(eng, st, 'read_handler', eng.fn_ptr('user_read'))
    setF(eng, st, 'drain_handler', NULL)
    setF(eng, st, 'error_handler', NULL)
    setF(eng, st, 'timeout_handler', eng.fn_ptr('user_timeout'))
    setF(eng, st, 'line_too_long_handler', eng.fn_ptr('user_toolong'))
    for n in ('warning_f', 'error_f'):
        p = eng.global_ptr(st, n)
        eng.wr(st, p, cfront.ptr(cfront.VOID), eng.fn_ptr('tls_log'))
    if want is not None:
        setW(eng, st, 'read_watcher', 'active', rd)
    wa = fresh_int('write_active') if wr is None else int(wr)
    st.assume(ge(wa, 0), le(wa, 1))
    setW(eng, st, 'write_watcher', 'active', wa)
    for _, _, f in inv(eng, st):
        st.assume(f)
    if up:
        st.assume(eq(wa, Ite(lt(g['acc'], g['sub']), 1, 0)))
    g['owned'] = frozenset(i for i, o in st.objs.items() if o.kind == 'heap')
    return tls


def conn_ptrs(eng, s):
    r = []
    for n in ('input', 'output', 'addr', 'id', 'peer', 'input_buffer', 'output_buffer', 'ssl', 'bio'):
        r.append((n, F(eng, s, n)))
    return r


def final(eng, s, fn, extra=(), idle=True):
    """end of a callback: the invariant holds, or everything was released exactly once"""
    g = s.ghost
    tls = g['tls']
    ok = set(extra)
    if s.objs[tls.obj].alive is True:
        for lab, props, f in inv(eng, s):
            eng.check_p(s, f, '%s: %s' % (fn, lab), props)
        if idle:
            for lab, props, f in idle_inv(eng, s):
                eng.check_p(s, f, '%s: %s' % (fn, lab), props)
        ok.add(tls.obj)
        for n, p in conn_ptrs(eng, s):
            if is_c(p.obj):
                if p.obj:
                    eng.check_p(s, live(s, p), '%s: %s of a live connection is live' % (fn, n), C25)
                ok.add(p.obj)
            elif g.get('generic_out') is not None:
                ok.add(g['generic_out'])
        if is_c(g['app'].obj):
            ok.add(g['app'].obj)
        for w in WATCH:
            p = eng.fldptr(tls, 'tls_state', w)
            d = eng.fld(s, p, 'ev_timer' if w == 'timeout_watcher' else 'ev_io', 'data')
            eng.check_p(s, ptr_eq(d, tls), '%s: the %s refers to its connection' % (fn, w), C25)
    else:
        for w in WATCH:
            eng.check_p(s, eq(W(eng, s, w), 0), '%s: the %s of a released connection is stopped' % (fn, w), C25)
            eng.check_p(s, eq(W(eng, s, w, 'pending'), 0), '%s: no event of the %s of a released connection is pending' % (fn, w), C25)
    for i, o in s.objs.items():
        if o.kind == 'heap' and i not in ok and o.alive is not False:
            if o.meta.get('maybe'):
                continue
            eng.check_p(s, Not(o.alive) if o.alive is not True else False, '%s: `%s` is not leaked' % (fn, o.name), C25)


def generic_output(L):
    """loop head of the write loops: the output block is any block (or none) satisfying the invariant"""
    eng, s = L.eng, L.S
    g = s.ghost
    if 'tls' not in g or 'ob' not in g:
        return
    cur = eng.fld(L.S0, g['tls'], 'tls_state', 'output')
    ids = [cur.obj] if is_c(cur.obj) else [g.get('generic_out')]
    if is_c(cur.obj) and cur.obj == 0:
        ids = []
    sz = fresh_int('out.size')
    s.assume(sz >= 0)
    p = eng.new_obj(s, sz, 'heap', 'output block')
    has = fresh_bool('has_output')
    for i in ids:
        if i in s.objs:
            s.objs[i] = s.objs[i].with_(alive=False)
    s.objs[p.obj] = s.objs[p.obj].with_(alive=has)
    setF(eng, s, 'output', Ptr(z3.If(has, z3.IntVal(p.obj), z3.IntVal(0)), 0))
    g['generic_out'] = p.obj
    for k in ('retry', 'rp_obj', 'rp_off', 'acc', 'obs'):
        g[k] = fresh_int(k)
    s.assume(g['retry'] >= 0)
    for n in ('output_size', 'output_offset'):
        v = fresh_int(n)
        s.assume(v >= 0)
        setF(eng, s, n, v)
    fo = F(eng, s, 'free_output')
    setF(eng, s, 'free_output', eng.fn_ptr('free'))


def write_inv(L):
    eng, s = L.eng, L.S
    g = s.ghost
    r = [(lab, f) for lab, _, f in inv(eng, s)]
    fo = F(eng, s, 'free_output')
    r.append(('output is released with its release function', ptr_eq(fo, eng.fn_ptr('free'))))
    r.append(('the connection is live', s.objs[g['tls'].obj].alive is True))
    r.append(('OpenSSL accepted no less than before', ge(g['acc'], L.S0.ghost['acc'])))
    r.append(('there is data to write', And(lt(g['acc'], g['sub']), eq(W(eng, s, 'write_watcher'), 1))))
    return r


def write_loop(eng, st):
    return LoopSpec(inv=write_inv, post_havoc=generic_output, auto=False, cands=[
        ('there is an output block', lambda s: ne(F(eng, s, 'output').obj, 0)),
        ('there is no output block', lambda s: eq(F(eng, s, 'output').obj, 0))])


def read_inv(L):
    eng, s = L.eng, L.S
    g = s.ghost
    r = [(lab, f) for lab, _, f in inv(eng, s)]
    r.append(('the connection is live', s.objs[g['tls'].obj].alive is True))
    r.append(('the request is pending', And(eq(W(eng, s, 'read_watcher'), 1), g['delivered'] == 0)))
    r.append(('more was received', And(ge(g['rcv'], L.S0.ghost['rcv']), ge(g['dlv'], L.S0.ghost['dlv']))))
    return r


def read_loop(eng, st):
    return LoopSpec(inv=read_inv, auto=False)


def T_eng(T, loops=None, **kw):
    return T.eng(contracts=dict(CONTRACTS, **kw), loops=loops or {}, config={'timer_start': timer_hook, 'io_start': io_hook})


def cb_name(eng, T, watcher):
    """the callback registered for a watcher by tls_new()"""
    return None


def ssl_wait(eng, s, fn, watcher, props):
    """the connection goes on waiting: for the direction OpenSSL asked for, or for a pending event"""
    e = s.ghost.get('ssl_error')
    if e is None:
        last = s.ghost.get('ssl_last')
        if last is not None:
            eng.check_p(s, ge(last[1], 0 if last[0] == 'SSL_shutdown' else 1), '%s: goes on after a failed TLS operation only if the reason permits it' % fn, props + ['C21'])
        return
    ev = io_fld(eng, s, watcher, 'events')
    rd = Or(eq(ev, READ), eq(ev, READ | 0x80))
    wr = Or(eq(ev, WRITE), eq(ev, WRITE | 0x80))
    both = Or(eq(ev, 3), eq(ev, 0x83))
    eng.check_p(s, Implies(Or(e == 2, e == 8), And(eq(W(eng, s, watcher), 1), Or(rd, both))),
                '%s: waits for input when OpenSSL needs input' % fn, props)
    eng.check_p(s, Implies(Or(e == 3, e == 7), And(eq(W(eng, s, watcher), 1), Or(wr, both))),
                '%s: waits for output when OpenSSL needs to write' % fn, props)
    eng.check_p(s, Or(e == 2, e == 3, e == 7, e == 8, e == 5), '%s: goes on only if the operation is to be repeated' % fn, C25)


def gone(eng, s, fn):
    """the connection was released because of an error"""
    g = s.ghost
    if g.get('ssl_error') is not None:
        e = g['ssl_error']
        eng.check_p(s, And(e != 2, e != 3, e != 7, e != 8), '%s: not released while OpenSSL only waits for I/O' % fn, C25 + C12 + C11)
    if g['want_error']:
        eng.check_p(s, g['errors'] == 1 or g.get('toolong_default'), '%s: the error handler is called once before the release' % fn, C25 + ['C05', 'C16'])


def alive(s):
    return s.objs[s.ghost['tls'].obj].alive is True


def active_now(eng, s, fn):
    eng.check_p(s, 'now' in s.ghost and F(eng, s, 'last_activity') == s.ghost['now'], '%s: the activity is noted' % fn, C21)


def set_error_handler(eng, st, on):
    st.ghost['want_error'] = on
    setF(eng, st, 'error_handler', eng.fn_ptr('user_error') if on else NULL)


def peer_write(eng, st):
    """the opposite watcher's state"""


def feeds(eng, s, watcher):
    p = eng.fldptr(s.ghost['tls'], 'tls_state', watcher)
    return [e for e in s.trace if e[0] == 'ev_feed' and is_c(e[1]) and e[1] == p.obj and is_c(e[2]) and e[2] == p.off]


def fed_by(T, cb, watcher):
    """the event with which the I/O callback cb, run because its socket is ready, triggers the opposite watcher
    although OpenSSL made no progress (None: it does not do that)"""
    c = T.__dict__.setdefault('fedby', {})
    if (cb, watcher) not in c:
        eng = T_eng(T, loops={'*': read_loop if cb == 'read_cb' else write_loop})
        st = eng.start()
        eng.suppress += 1
        tls = mk_conn(eng, st, 'line', False, True, timer=1, wr=1)
        set_error_handler(eng, st, False)
        st.assume(st.ghost['acc'] < st.ghost['sub'])
        own = 'read_watcher' if cb == 'read_cb' else 'write_watcher'
        ev = READ if cb == 'read_cb' else WRITE
        for w, e in ((own, ev), (watcher, READ + WRITE - ev)):      # both wait for their usual direction
            st.assume(eq(io_fld(eng, st, w, 'events'), e))
            eng.setfld(st, eng.fldptr(tls, 'tls_state', w), 'ev_io', 'events', e)
            st.ghost['reg_' + w] = e
        vals = set()
        for s, _ in T.run(eng, cb, st, [eng.fldptr(tls, 'tls_state', own), ev]):
            for e in feeds(eng, s, watcher):
                if not is_c(e[3]):
                    raise Unsupported('event fed to the %s' % watcher)
                vals.add(e[3])
        T.engines.remove(eng)
        if len(vals) > 1:
            raise Unsupported('different events fed to the %s' % watcher)
        c[cb, watcher] = vals.pop() if vals else None
    return c[cb, watcher]


def no_pingpong(eng, s, s0, fn, other):
    """run because the opposite callback triggered it: without progress, it does not trigger that one in turn, so
    the two cannot keep the event loop busy between them"""
    g, g0 = s.ghost, s0.ghost
    if feeds(eng, s, other):
        eng.check_p(s, Or(gt(g['rcv'], g0['rcv']), gt(g['acc'], g0['acc'])),
                    '%s: the read and write callbacks do not trigger each other endlessly' % fn, C21 + C05)


def retried(eng, s, s0, fn, other, cond, props):
    """OpenSSL may take what the other direction waits for off the socket: that one is tried again"""
    if s.ghost.get('delivered', 0) != 0:
        return
    if not feeds(eng, s, other):
        eng.check_p(s, Not(And(eq(W(eng, s0, other), 1), eq(W(eng, s, other), 1), cond)),
                    '%s: a %s that waits for input is tried again' % (fn, 'write' if other == 'write_watcher' else 'read'), props)


def t_read(T, want):
    fed = fed_by(T, 'write_cb', 'read_watcher')
    for inp, err, out, wr, timer, rev in ((False, False, False, 0, 0, READ), (True, False, True, 1, 1, READ), (False, True, False, 1, 1, READ),
                                          (True, True, False, 0, 1, READ), (True, False, True, 1, 1, fed)):
                if rev is None:
                    continue
                eng = T_eng(T, loops={'*': read_loop})
                st = eng.start()
                tls = mk_conn(eng, st, want, inp, out, timer=timer, wr=wr)
                set_error_handler(eng, st, err)
                w = eng.fldptr(tls, 'tls_state', 'read_watcher')
                if err:
                    setF(eng, st, 'line_too_long_handler', eng.fn_ptr(default_of(T, 'line_too_long_handler')))
                s0 = st.copy()
                fn = 'read callback'
                for s, _ in T.run(eng, 'read_cb', st, [w, rev]):
                    g = s.ghost
                    if not eng.cover(s, fn):
                        continue
                    if rev == fed:
                        no_pingpong(eng, s, s0, fn, 'write_watcher')
                    elif alive(s):
                        retried(eng, s, s0, fn, 'write_watcher', eq(io_fld(eng, s0, 'write_watcher', 'events'), READ), C12)
                    if alive(s):
                        final(eng, s, fn)
                        active_now(eng, s, fn)
                        if g['delivered'] == 0 and 'ended' not in g:
                            if want == 'line':
                                eng.check_p(s, eng.forall_bytes(lambda k: IN(toz(k)) != 10, g['dlv'], g['rcv']),
                                            'a complete received line is delivered at once', C11)
                            else:
                                eng.check_p(s, lt(sub(g['rcv'], g['dlv']), g['want']), 'a complete received block is delivered at once', C11)
                            ssl_wait(eng, s, fn, 'read_watcher', C11 + ['C05'])
                        if want == 'line' and g['delivered'] == 0 and 'ended' in g:
                            eng.check_p(s, g['ended'] == 1, 'line too long: handled once', ['C06'])
                    else:
                        final(eng, s, fn)
                        if err and want == 'line' and 'ssl_last' in g and not is_c(g['ssl_last'][1]) and 'noline' in g:
                            g['toolong_default'] = eng.proves(s, sub(g['rcv'], g['dlv']) > 1920)
                        elif err and 'noline' in g:
                            g['toolong_default'] = True
                        gone(eng, s, fn)
                    eng.check_p(s, And(ge(g['dlv'], s0.ghost['dlv']), ge(g['rcv'], s0.ghost['rcv'])),
                                'units are delivered in stream order', C11)


def default_of(T, field):
    """the default handler installed by tls_new()"""
    c = T.__dict__.setdefault('defaults', {})
    if field not in c:
        eng = T_eng(T)
        st = eng.start()
        eng.suppress += 1
        r = T.run(eng, 'tls_new', st, [1, 0])
        p = r[0][1]
        for f in ('line_too_long_handler', 'timeout_handler'):
            q = eng.fld(r[0][0], p, 'tls_state', f)
            if not (is_c(q.obj) and q.obj in eng.fnnames):
                raise Unsupported('default handler')
            c[f] = eng.fnnames[q.obj]
        T.engines.remove(eng)
    return c[field]


def shutdown_fn(T):
    """the drained-handler installed by tls_shutdown()"""
    eng = T_eng(T)
    st = eng.start()
    eng.suppress += 1
    tls = mk_conn(eng, st, None, False, False)
    st.ghost['want_error'] = False
    setW(eng, st, 'write_watcher', 'active', 1)
    st.assume(st.ghost['acc'] < st.ghost['sub'])
    r = T.run(eng, 'tls_shutdown', st, [tls])
    q = F(eng, r[0][0], 'drain_handler')
    T.engines.remove(eng)
    if not (is_c(q.obj) and q.obj in eng.fnnames):
        raise Unsupported('tls_shutdown installs no drained-handler')
    return eng.fnnames[q.obj]


@task('tls.read_line', ['C11', 'C12', 'C06', 'C21', 'C25', 'C05'], TLS, weight=5)
def t_read_line(T):
    t_read(T, 'line')


@task('tls.read_bytes', ['C11', 'C21', 'C25', 'C05', 'C01'], TLS, weight=5)
def t_read_bytes(T):
    t_read(T, 'bytes')


@task('tls.write_cb', ['C12', 'C21', 'C25', 'C05'], TLS, weight=5)
def t_write_cb(T):
    sh = shutdown_fn(T)
    fed = fed_by(T, 'read_cb', 'write_watcher')
    for out, drain, err, timer, rev in ((False, None, False, 0, WRITE), (True, None, True, 1, WRITE), (True, 'user_drain', False, 1, WRITE),
                                        (False, sh, False, 1, WRITE), (True, sh, False, 0, WRITE), (True, None, False, 1, fed)):
                if rev is None:
                    continue
                eng = T_eng(T, loops={'*': write_loop})
                st = eng.start()
                tls = mk_conn(eng, st, 'line' if drain is None else None, False, out, timer=timer, wr=1)
                set_error_handler(eng, st, err)
                setF(eng, st, 'drain_handler', eng.fn_ptr(drain) if drain else NULL)
                st.assume(lt(st.ghost['acc'], st.ghost['sub']))
                w = eng.fldptr(tls, 'tls_state', 'write_watcher')
                s0 = st.copy()
                fn = 'write callback'
                for s, _ in T.run(eng, 'write_cb', st, [w, rev]):
                    g = s.ghost
                    eng.cover(s, fn)
                    if rev == fed:
                        no_pingpong(eng, s, s0, fn, 'read_watcher')
                    elif alive(s) and not any(e[0] == 'drain handler' for e in s.trace):
                        retried(eng, s, s0, fn, 'read_watcher', eq(io_fld(eng, s0, 'read_watcher', 'events'), READ), C11)
                    final(eng, s, fn)
                    if alive(s):
                        active_now(eng, s, fn)
                        done = eq(g['acc'], g['sub'])
                        a, b = eng.split(s, done)
                        for x in b:
                            ssl_wait(eng, x, fn, 'write_watcher', C12)
                        for x in a:
                            if drain == sh:
                                eng.check_p(x, eq(W(eng, x, 'shutdown_watcher'), 1), 'the shutdown starts once everything was accepted', C12)
                            if drain == 'user_drain':
                                eng.check_p(x, any(e[0] == 'drain handler' for e in x.trace), 'the drained-handler is called once everything was accepted', C12)
                    else:
                        gone(eng, s, fn)


@task('tls.shutdown_cb', ['C12', 'C21', 'C25'], TLS)
def t_shutdown_cb(T):
    def sinv(L):
        s = L.S
        r = [(lab, f) for lab, _, f in inv(L.eng, s)]
        return r + [('the connection is live', s.objs[s.ghost['tls'].obj].alive is True)]
    eng = T_eng(T, loops={'*': LoopSpec(inv=sinv, auto=False)})
    st = eng.start()
    tls = mk_conn(eng, st, None, False, False)
    set_error_handler(eng, st, False)
    setF(eng, st, 'timeout_handler', eng.fn_ptr(default_of(T, 'timeout_handler')))
    st.assume(eq(st.ghost['acc'], st.ghost['sub']))
    setW(eng, st, 'shutdown_watcher', 'active', 1)
    w = eng.fldptr(tls, 'tls_state', 'shutdown_watcher')
    fn = 'shutdown callback'
    for s, _ in T.run(eng, 'shutdown_cb', st, [w, WRITE]):
        eng.cover(s, fn)
        final(eng, s, fn)
        if alive(s):
            active_now(eng, s, fn)
            ssl_wait(eng, s, fn, 'shutdown_watcher', C12 + C25)
            eng.check_p(s, eq(W(eng, s, 'shutdown_watcher'), 1), 'shutdown callback: goes on until the shutdown is complete', C25)


@task('tls.timeout_cb', ['C21', 'C25', 'C12'], TLS)
def t_timeout_cb(T):
    dflt = default_of(T, 'timeout_handler')
    for phase in ('handshake', 'idle', 'writing', 'shutdown', 'client'):
        for handler in ('user_timeout', dflt):
            if handler == 'user_timeout' and phase in ('handshake', 'shutdown'):
                continue
            eng = T_eng(T)
            st = eng.start()
            up = phase not in ('handshake',)
            tls = mk_conn(eng, st, 'line' if phase in ('idle', 'writing', 'client') else None, False, phase == 'writing', up=up,
                          role='client' if phase == 'client' else 'server')
            g = st.ghost
            set_error_handler(eng, st, False)
            setF(eng, st, 'timeout_handler', eng.fn_ptr(handler))
            if phase == 'writing':
                st.assume(lt(g['acc'], g['sub']))
            else:
                st.assume(eq(g['acc'], g['sub']))
            setW(eng, st, 'init_watcher', 'active', 1 if phase == 'handshake' else 0)
            setW(eng, st, 'shutdown_watcher', 'active', 1 if phase == 'shutdown' else 0)
            t = F(eng, st, 'timeout')
            st.assume(t > 0)
            setW(eng, st, 'timeout_watcher', 'active', 0)
            now = g['now'] = z3.Real('now')
            la = F(eng, st, 'last_activity')
            st.assume(la <= now)
            s0 = st.copy()
            w = eng.fldptr(tls, 'tls_state', 'timeout_watcher')
            fn = 'timeout callback'
            for s, _ in T.run(eng, 'timeout_cb', st, [w, 256]):
                eng.cover(s, fn)
                g = s.ghost
                ended = not alive(s) or 'ended' in g
                late = now - la >= t
                if ended:
                    eng.check_p(s, late, 'a connection is timed out only after the configured time without activity', C21)
                    if not alive(s):
                        final(eng, s, fn)
                    else:
                        eng.check_p(s, g['ended'] == 1, 'the timeout is handled once', C21)
                        for lab, props, f in inv(eng, s) + timer_inv(eng, s):
                            eng.check_p(s, f, '%s: %s' % (fn, lab), props)
                        eng.check_p(s, eq(W(eng, s, 'read_watcher'), 0), 'a timed out connection is not read from any more', C21)
                        eng.check_p(s, eq(W(eng, s, 'write_watcher'), 1), 'the notice is sent', C21 + C12)
                else:
                    eng.check_p(s, Not(late), 'an inactive connection is timed out', C21)
                    eng.check_p(s, And(eq(W(eng, s, 'timeout_watcher'), 1), g['timer_at'] == la + t - now),
                                'the next check is scheduled for the exact remaining time', C21)
                    for wn in WATCH[:4]:
                        eng.check_p(s, eq(W(eng, s, wn), W(eng, s0, wn)), 'an active connection goes on undisturbed', C21)
                    eng.check_p(s, F(eng, s, 'last_activity') == la, 'the check itself is no activity', C21)
                    final(eng, s, fn, idle=up and phase != 'shutdown')


def api_conn(T, want=None, inp=False, out=False, loops=None, **kw):
    eng = T_eng(T, loops)
    st = eng.start()
    tls = mk_conn(eng, st, want, inp, out, **kw)
    set_error_handler(eng, st, False)
    return eng, st, tls


@task('tls.api', ['C11', 'C12', 'C21', 'C25', 'C06'], TLS)
def t_api(T):
    # reading
    for kind in ('line', 'bytes'):
        for out in (False, True):
            eng, st, tls = api_conn(T, None, False, out)
            st.assume(F(eng, st, 'input_offset') == 0)
            for s in request(eng, st, tls, kind, None):
                eng.cover(s, kind)
                final(eng, s, 'read request')
                eng.check_p(s, eq(W(eng, s, 'read_watcher', 'pending'), 1), 'read request: OpenSSL is asked first (already received data counts)', C11)
    # writing
    for out in (False, True):
        for fr in (None, 'free'):
            for rd in ('line', None):
                eng, st, tls = api_conn(T, rd, False, out)
                n = fresh_int('size')
                st.assume(n >= 1, n < (1 << 30))
                data = eng.new_obj(st, n, 'heap', 'data')
                announce(eng, st, [(data, n)])
                s0 = st.copy()
                frp = eng.fn_ptr('free') if fr else NULL
                for s, _ in T.run(eng, 'tls_write', st, [tls, data, n, frp]):
                    eng.cover(s, 'tls_write')
                    final(eng, s, 'tls_write', extra=[] if fr else [data.obj])
                    if not fr:
                        eng.check_p(s, live(s, data), 'tls_write: data of the caller stays with the caller', C12 + C25)
                    fo = F(eng, s, 'free_output')
                    eng.check_p(s, is_c(fo.obj) and eng.fnnames.get(fo.obj) == 'free', 'tls_write: the data will be released with its release function', C12)
        eng, st, tls = api_conn(T, 'line', False, out)
        msg = submit_string(eng, st)
        for s, _ in T.run(eng, 'tls_write_line', st, [tls, msg]):
            eng.cover(s, 'tls_write_line')
            final(eng, s, 'tls_write_line', extra=[msg.obj])
    # drained-handler and shutdown
    for out in (False, True):
        eng, st, tls = api_conn(T, None, False, out)
        for s, _ in T.run(eng, 'tls_on_drain', st, [tls, eng.fn_ptr('user_drain')]):
            eng.cover(s, 'tls_on_drain')
            final(eng, s, 'tls_on_drain')
            called = any(e[0] == 'drain handler' for e in s.trace)
            q = F(eng, s, 'drain_handler')
            eng.check_p(s, Implies(eq(s.ghost['acc'], s.ghost['sub']), called) if not called else True,
                        'tls_on_drain: called at once if everything was sent', C12)
            eng.check_p(s, called or (is_c(q.obj) and eng.fnnames.get(q.obj) == 'user_drain'), 'tls_on_drain: remembered otherwise', C12)
        eng, st, tls = api_conn(T, None, False, out)
        st.ghost['want_error'] = True
        setF(eng, st, 'error_handler', eng.fn_ptr('user_error'))
        dflt = default_of(T, 'timeout_handler')
        for s, _ in T.run(eng, 'tls_shutdown', st, [tls]):
            eng.cover(s, 'tls_shutdown')
            final(eng, s, 'tls_shutdown')
            g = s.ghost
            eng.check_p(s, Implies(eq(g['acc'], g['sub']), eq(W(eng, s, 'shutdown_watcher'), 1)),
                        'tls_shutdown: starts at once if everything was sent', C12)
            eh, th = F(eng, s, 'error_handler'), F(eng, s, 'timeout_handler')
            eng.check_p(s, is_c(eh.obj) and eh.obj == 0, 'tls_shutdown: the error handler is not called any more', C25)
            eng.check_p(s, is_c(th.obj) and eng.fnnames.get(th.obj) == dflt, 'tls_shutdown: a timeout now releases the connection', C21 + C25)
    # timeouts
    for act in (False, True):
        for h in ('user_timeout', None):
            eng, st, tls = api_conn(T, 'line', False, False)
            if not act:
                setW(eng, st, 'timeout_watcher', 'active', 0)
            for s, _ in T.run(eng, 'tls_on_timeout', st, [tls, eng.fn_ptr(h) if h else NULL]):
                eng.cover(s, 'tls_on_timeout')
                final(eng, s, 'tls_on_timeout')
                th = F(eng, s, 'timeout_handler')
                eng.check_p(s, is_c(th.obj) and eng.fnnames.get(th.obj) == (h or default_of(T, 'timeout_handler')),
                            'tls_on_timeout: the handler is installed', C21)
                t = F(eng, s, 'timeout')
                now = s.ghost.get('now', z3.Real('now'))
                eng.check_p(s, Implies(t > 0, And(F(eng, s, 'last_activity') == now, s.ghost['timer_at'] == t)),
                            'tls_on_timeout: the time starts now', C21)
    for name, field, h in (('tls_on_error', 'error_handler', 'user_error'), ('tls_on_line_too_long', 'line_too_long_handler', 'user_toolong')):
        eng, st, tls = api_conn(T, 'line', False, True)
        for s, _ in T.run(eng, name, st, [tls, eng.fn_ptr(h)]):
            eng.cover(s, name)
            final(eng, s, name)
            q = F(eng, s, field)
            eng.check_p(s, is_c(q.obj) and eng.fnnames.get(q.obj) == h, '%s: the handler is installed' % name, C25)
    eng, st, tls = api_conn(T, 'line', False, True)
    ident = eng.new_string(st, 'session', 'param')
    for s, _ in T.run(eng, 'tls_set_connection_id', st, [tls, ident]):
        eng.cover(s, 'tls_set_connection_id')
        final(eng, s, 'tls_set_connection_id')


# ---------------------------------------------------------------- setting up connections
def c_xmalloc(eng, st, a, node):
    """the connection record is the block of that size"""
    r = libc.LIBC['xmalloc'](eng, st, a, node)
    for s, p in r:
        if is_c(a[0]) and a[0] == eng.recsize('tls_state') and 'tls' not in s.ghost:
            s.ghost['tls'] = p
    return r


def fresh_ghost(g):
    for n in ('dlv', 'ibs', 'ibe', 'rcv', 'acc', 'sub', 'obs', 'obe', 'retry', 'rp_obj', 'rp_off', 'nshut', 'errors', 'delivered'):
        g[n] = 0
    g.update(app=NULL, want=None, want_error=False, newbuf=0)


def c_new_bio(kind):
    def h(eng, st, a, node):
        none = st.copy()
        if kind == 'connect':
            eng.check_p(st, ptr_eq(a[0], st.ghost['server']), 'the connection goes to the configured server', ['C16'], 'pre', node)
        if kind == 'accept':
            eng.check_p(st, ptr_eq(a[0], st.ghost['host']), 'the server listens on the configured address', C20, 'pre', node)
        p = eng.new_obj(st, 1, 'heap', 'bio')
        st.ghost['bio'] = p
        return [(st, p), (none, NULL)]
    return h


C20 = ['C20']


def c_psk_client(eng, st, a, node):
    if not is_ssl(eng, st, a[0], node, 'SSL_set_psk_client_callback'):
        return []
    st.ghost['psk_client'] = a[1]
    return [(st, None)]


def c_invoke(eng, st, a, node):
    """ev_invoke(): calls the callback of the watcher"""
    w = a[-2]
    p = eng.fldptr(st.ghost['tls'], 'tls_state', 'init_watcher')
    eng.check(st, ptr_eq(w, p), 'ev_invoke: a watcher of the connection', node)
    cb = eng.fld(st, w, 'ev_io', 'cb')
    if not (is_c(cb.obj) and cb.obj in eng.fnnames):
        raise Unsupported('undetermined watcher callback')
    return [(s, None) for s, _ in eng.call_named(st, eng.fnnames[cb.obj], [w, a[-1]], node)]


def hs_final(eng, s, fn, watcher_props=C25):
    """after a handshake step: connected, waiting, or released"""
    g = s.ghost
    if not alive(s):
        final(eng, s, fn)
        gone(eng, s, fn)
        return
    conn = 'connected' in g
    final(eng, s, fn, idle=conn)
    for lab, props, f in timer_inv(eng, s):
        eng.check_p(s, f, '%s: %s' % (fn, lab), props)
    if not conn:
        eng.check_p(s, eq(W(eng, s, 'init_watcher'), 1), '%s: an unfinished handshake goes on' % fn, C25 + C05)
        eng.check_p(s, ge(io_fld(eng, s, 'init_watcher', 'fd'), 0), '%s: there is a socket to wait for' % fn, C25 + ['C16'])
        ssl_wait(eng, s, fn, 'init_watcher', C05 + C25)
        for w in WATCH[1:4]:
            eng.check_p(s, eq(W(eng, s, w), 0), '%s: nothing else happens during the handshake' % fn, C05)
        eng.check_p(s, not any(e[0] == 'connected' for e in s.trace), '%s: not connected during the handshake' % fn, C04)


@task('tls.handshake', ['C04', 'C05', 'C21', 'C25', 'C01'], TLS)
def t_handshake(T):
    for role, fname in (('server', 'accept_ssl_cb'), ('client', 'connect_cb')):
        for timer in (0, 1):
            for early in (False, True):
                if early and role == 'client':
                    continue
                eng = T_eng(T)
                st = eng.start()
                tls = mk_conn(eng, st, None, False, False, up=False, role=role, timer=timer, wr=0)
                g = st.ghost
                g['bio_in_ssl'] = True
                if early:
                    g['app'] = g['idp'] = eng.new_string(st, 'identity')
                set_error_handler(eng, st, False)
                st.assume(eq(g['acc'], 0), eq(g['sub'], 0), eq(g['rcv'], 0))
                setW(eng, st, 'init_watcher', 'active', 1)
                w = eng.fldptr(tls, 'tls_state', 'init_watcher')
                fn = 'handshake callback (%s)' % role
                for s, _ in T.run(eng, fname, st, [w, READ]):
                    eng.cover(s, fn)
                    hs_final(eng, s, fn)
                    if alive(s):
                        eng.check_p(s, F(eng, s, 'last_activity') == s.ghost.get('now', -1), '%s: the activity is noted' % fn, C21)
                    if 'connected' not in s.ghost and role == 'client':
                        eng.check_p(s, ne(s.ghost['hs_last'], 1), '%s: a successful handshake is reported' % fn, C05 + ['C16'])
                    if 'connected' not in s.ghost and role == 'server':
                        eng.check_p(s, Or(ne(s.ghost['hs_last'], 1), not alive(s)), '%s: a successful handshake is reported' % fn, C05)


def no_handlers(eng, s, fn):
    dh = F(eng, s, 'drain_handler')
    eng.check_p(s, is_c(dh.obj) and dh.obj == 0, '%s: nothing is to be called when the output is drained' % fn, C12 + C25)


@task('tls.connect', ['C04', 'C21', 'C25', 'C16', 'C12'], TLS)
def t_connect(T):
    for flags in (0, 1):
        eng = T_eng(T, xmalloc=c_xmalloc, BIO_new_connect=c_new_bio('connect'), SSL_set_psk_client_callback=c_psk_client,
                    ev_invoke=c_invoke)
        st = eng.start()
        g = st.ghost
        ctx = eng.new_struct(st, 'tls_client_state', 'heap2', 'client context')
        sslctx = eng.new_obj(st, 1, 'param', 'ssl context')
        eng.setfld(st, ctx, 'tls_client_state', 'ssl', sslctx)
        eng.setfld(st, ctx, 'tls_client_state', 'data', NULL)
        server = eng.new_string(st, 'server', 'param')
        fresh_ghost(g)
        g.update(server=server, role='client', psk_want=eng.fn_ptr('user_psk'))
        t = fresh_real('timeout')
        st.assume(t >= 0)
        fn = 'tls_connect'
        for s, _ in T.run(eng, 'tls_connect', st, [ctx, server, t, flags, eng.fn_ptr('user_connect'), eng.fn_ptr('user_timeout'),
                                                   eng.fn_ptr('user_psk')]):
            eng.cover(s, fn)
            g = s.ghost
            eng.check_p(s, 'ssl_last' in g, 'tls_connect: the handshake is started', ['C16', 'C05'])
            eng.check_p(s, 'nbio' in g and ne(g['nbio'], 0), 'tls_connect: the connection does not block', C21)
            hs_final(eng, s, fn)
            if alive(s):
                eng.check_p(s, F(eng, s, 'timeout') == t, 'tls_connect: the configured timeout applies', C21)
                th = F(eng, s, 'timeout_handler')
                eng.check_p(s, And(Implies(t > 0, And(eq(W(eng, s, 'timeout_watcher'), 1), g.get('timer_at', -1) == t))),
                            'tls_connect: the time starts now', C21)
                eng.check_p(s, eq(F(eng, s, 'fd'), g.get('fd', -2)), 'tls_connect: the socket is the one of the connection', C25 + C12)
                pr = eng.fld(s, eng.fldptr(g['tls'], 'tls_state', 'timeout_watcher'), 'ev_timer', 'priority')
                if 'connected' not in g:
                    no_handlers(eng, s, fn)
                    eng.check_p(s, is_c(th.obj) and eng.fnnames.get(th.obj) == 'user_timeout', 'tls_connect: the timeout handler is installed', C21)


def accept_contracts():
    def ctrl(eng, st, a, node):
        g = st.ghost
        cmd = a[1]
        if is_c(cmd) and cmd == 101:       # BIO_C_DO_STATE_MACHINE: accept
            eng.check(st, ptr_eq(a[0], g['lbio']), 'BIO_do_accept: on the listening BIO', node)
            r = fresh_int('accepted')
            st.assume(r >= -1, r <= 1)
            out = []
            yes, no = eng.split(st, r > 0, node)
            for s in yes:
                s.ghost['waiting'] = True
            return [(s, r) for s in yes + no]
        return c_bio_ctrl(eng, st, a, node)

    def pop(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, ptr_eq(a[0], g['lbio']) and g.get('waiting') is True, 'BIO_pop: takes the accepted connection', C25, 'pre', node)
        p = eng.new_obj(st, 1, 'heap', 'bio')
        g['bio'] = p
        g['waiting'] = False
        return [(st, p)]
    return {'BIO_ctrl': ctrl, 'BIO_pop': pop, 'xmalloc': c_xmalloc}


def accept_check(eng, s, fn):
    """one accepted connection: fully set up, or fully released"""
    g = s.ghost
    if g.get('waiting') is True:
        eng.check_p(s, False, '%s: an accepted connection is taken over' % fn, C25)
    if 'tls' not in g:
        return
    tls = g['tls']
    if alive(s):
        hs_final(eng, s, fn)
        eng.check_p(s, g.get('bio_in_ssl') is True, '%s: the TLS object uses the socket' % fn, C25)
        eng.check_p(s, And(eq(W(eng, s, 'init_watcher', 'pending'), 1), ptr_eq(F(eng, s, 'ssl'), g['ssl'] if 'ssl' in g else NULL)),
                    '%s: the handshake is started at once' % fn, C05)
        for n, rec in (('fd', None),):
            eng.check_p(s, eq(F(eng, s, n), g.get('fd', -2)), '%s: the socket is the one of the connection' % fn, C25)
        eng.check_p(s, F(eng, s, 'timeout') == g['ctimeout'], '%s: the configured timeout applies, also to the handshake' % fn, C21)
        eng.check_p(s, Implies(g['ctimeout'] > 0, And(g.get('timer_at', -1) == g['ctimeout'], F(eng, s, 'last_activity') == g['now'])),
                    '%s: the time starts now' % fn, C21)
        ch = F(eng, s, 'connect_handler')
        eng.check_p(s, is_c(ch.obj) and eng.fnnames.get(ch.obj) == 'user_connect', '%s: the connect handler is installed' % fn, C05)
        eh, th = F(eng, s, 'error_handler'), F(eng, s, 'timeout_handler')
        eng.check_p(s, is_c(eh.obj) and eh.obj == 0, '%s: no error handler yet' % fn, C25)
        no_handlers(eng, s, fn)
        eng.check_p(s, is_c(th.obj) and eng.fnnames.get(th.obj) == g['dflt'], '%s: a handshake timeout releases the connection' % fn, C21 + C25)
        pr = W(eng, s, 'timeout_watcher', 'priority')
        eng.check_p(s, lt(pr, W(eng, s, 'read_watcher', 'priority')), '%s: data is checked for before the timeout' % fn, C21)
        eng.check_p(s, ptr_eq(F(eng, s, 'data'), g['cdata']), '%s: the server state is passed on' % fn, C05)
        idp = F(eng, s, 'id')
        eng.check_p(s, is_c(idp.obj) and idp.obj == 0, '%s: no identity before the handshake' % fn, C04)
        for wn, cb in g['cbs'].items():
            p = eng.fldptr(tls, 'tls_state', wn)
            q = eng.fld(s, p, 'ev_timer' if wn == 'timeout_watcher' else 'ev_io', 'cb')
            eng.check_p(s, is_c(q.obj) and eng.fnnames.get(q.obj) == cb, '%s: the %s runs its callback' % (fn, wn), C05 + C11 + C12 + C21)
    else:
        final(eng, s, fn)


@task('tls.accept_tcp', ['C21', 'C25', 'C05', 'C04', 'C11', 'C12'], TLS)
def t_accept(T):
    dflt = default_of(T, 'timeout_handler')

    def ainv(L):
        if not L.eng.suppress and 'tls' in L.S.ghost:
            accept_check(L.eng, L.S, 'accepting a connection')
        return []

    def clean(L):
        g = L.S.ghost
        for k in [k for k in g if k not in KEEP]:
            del g[k]
        fresh_ghost(g)
    eng = T_eng(T, loops={'*': LoopSpec(inv=ainv, post_havoc=clean, auto=False)}, **accept_contracts())
    st = eng.start()
    g = st.ghost
    ctx = eng.new_struct(st, 'tls_server_state', 'param', 'server context')
    f = lambda n, v: eng.setfld(st, ctx, 'tls_server_state', n, v)
    t = fresh_real('timeout')
    st.assume(t >= 0)
    data = eng.new_obj(st, 64, 'param', 'server state')
    lbio = eng.new_obj(st, 1, 'param', 'listening bio')
    f('ssl', eng.new_obj(st, 1, 'param', 'ssl context'))
    f('bio', lbio)
    f('timeout', t)
    f('data', data)
    f('connect_handler', eng.fn_ptr('user_connect'))
    w = eng.fldptr(ctx, 'tls_server_state', 'accept_watcher')
    eng.setfld(st, w, 'ev_io', 'data', ctx)
    eng.wr(st, Ptr(w.obj, add(w.off, EVOFF['active'])), INT, 1)
    fresh_ghost(g)
    now = z3.Real('now')
    g.update(role='server', ctimeout=t, cdata=data, lbio=lbio, dflt=dflt, now=now,
             cbs={'init_watcher': 'accept_ssl_cb', 'read_watcher': 'read_cb', 'write_watcher': 'write_cb',
                  'shutdown_watcher': 'shutdown_cb', 'timeout_watcher': 'timeout_cb'})
    KEEP = set(g)
    for s, _ in T.run(eng, 'accept_tcp_cb', st, [w, READ]):
        eng.cover(s, 'accept_tcp_cb')
        accept_check(eng, s, 'accepting a connection')
        eng.check_p(s, eq(eng.rd(s, Ptr(w.obj, add(w.off, EVOFF['active'])), INT), 1), 'the server goes on accepting connections', C05 + C25)


def ctx_contracts():
    g0 = {}

    def ctx_new(eng, st, a, node):
        none = st.copy()
        p = eng.new_obj(st, 1, 'heap', 'ssl context', meta={'sslctx': True})
        st.ghost['sslctx'] = p
        return [(st, p), (none, NULL)]

    def isctx(eng, st, p, node):
        ok = live(st, p) and 'sslctx' in st.ghost and is_c(p.obj) and p.obj == st.ghost['sslctx'].obj
        eng.check_p(st, ok, 'the SSL context is live', C25, 'pre', node)
        return ok

    def ciphers(eng, st, a, node):
        if not isctx(eng, st, a[0], node):
            return []
        eng.check_p(st, ptr_eq(a[1], st.ghost['ciphers']), 'the configured ciphers are used', C04, 'pre', node)
        r = fresh_int('cipher_result')
        st.assume(r >= 0, r <= 1)
        st.ghost['cset'] = r
        return [(st, r)]

    def psk(eng, st, a, node):
        if not isctx(eng, st, a[0], node):
            return []
        st.ghost['psk_server'] = a[1]
        return [(st, None)]

    def ctrl(eng, st, a, node):
        if not isctx(eng, st, a[0], node):
            return []
        if is_c(a[1]) and a[1] == 33:
            st.ghost['mode'] = a[2]
        return [(st, fresh_int('r'))]

    def opts(eng, st, a, node):
        if not isctx(eng, st, a[0], node):
            return []
        return [(st, fresh_int('r'))]

    def cfree(eng, st, a, node):
        if not isctx(eng, st, a[0], node):
            return []
        st.objs[a[0].obj] = st.objs[a[0].obj].with_(alive=False)
        return [(st, None)]

    def sig(eng, st, a, node):
        st.ghost['sigpipe'] = eq(a[0], 13) is True and is_c(a[1].obj) and a[1].obj == -1000001     # SIG_IGN
        return [(st, NULL)]

    def bctrl(eng, st, a, node):
        g = st.ghost
        eng.check(st, live(st, a[0]), 'BIO_ctrl: BIO is live', node)
        cmd = a[1]
        if is_c(cmd) and cmd == 101:
            r = fresh_int('bound')
            st.assume(r >= -1, r <= 1)
            g['bound'] = r
            return [(st, r)]
        if is_c(cmd) and cmd == 118:
            g['setacc'] = g.get('setacc', ()) + (a[2],)
            if is_c(a[2]) and a[2] == 2:
                g['accnb'] = ne(a[3].obj, 0)
        if is_c(cmd) and cmd == 102:
            g['nbio'] = a[2]
        if is_c(cmd) and cmd in (104,):
            g['setfd'] = a[3]
        return c_bio_ctrl(eng, st, a, node)

    def meth(eng, st, a, node):
        return [(st, Ptr(st.ghost['method'].obj, 0))]

    def sscanf(eng, st, a, node):
        lit = fmt_of(eng, st, a[1])
        if lit != b'descriptor=%d':
            raise Unsupported('sscanf(%r)' % lit)
        no = st.copy()
        v = fresh_int('descriptor')
        st.assume(v >= -(1 << 31), v < (1 << 31))
        eng.wr(st, a[2], INT, v)
        st.ghost['desc'] = v
        r = fresh_int('scanned')
        no.assume(r >= -1, r <= 0)
        return [(st, 1), (no, r)]
    return {'SSL_CTX_new': ctx_new, 'SSL_CTX_set_cipher_list': ciphers, 'SSL_CTX_set_psk_server_callback': psk,
            'SSL_CTX_ctrl': ctrl, 'SSL_CTX_set_options': opts, 'SSL_CTX_free': cfree, 'signal': sig, 'BIO_ctrl': bctrl,
            'BIO_int_ctrl': bctrl, 'TLS_method': meth, 'TLS_client_method': meth, 'TLS_server_method': meth, 'sscanf': sscanf,
            '__isoc99_sscanf': sscanf, 'BIO_new_accept': c_new_bio('accept'), 'BIO_new': c_new_bio(''), 'BIO_s_accept': meth}


@task('tls.start_stop', ['C04', 'C20', 'C21', 'C25', 'C12'], TLS)
def t_start_stop(T):
    for role in ('server', 'client'):
        eng = T_eng(T, **ctx_contracts())
        st = eng.start()
        g = st.ghost
        host, ciphers = eng.new_string(st, 'listen', 'param'), eng.new_string(st, 'ciphers', 'param')
        t = fresh_real('timeout')
        st.assume(t >= 0)
        g.update(host=host, ciphers=ciphers, method=eng.new_obj(st, 8, 'param', 'method'))
        fn = 'tls_%s_start' % role
        args = [host, ciphers, t, eng.fn_ptr('user_connect'), eng.fn_ptr('user_check_psk')] if role == 'server' else [ciphers]
        for s, p in T.run(eng, fn, st, args):
            eng.cover(s, fn)
            g = s.ghost
            rec = 'tls_%s_state' % role
            ok = live(s, p) and 'sslctx' in g and live(s, g['sslctx'])
            eng.check_p(s, ok, '%s: returns a live context' % fn, C25)
            if not ok:
                continue
            eng.check_p(s, eq(g.get('cset', 0), 1), '%s: the cipher list was accepted' % fn, C04)
            eng.check_p(s, 'sigpipe' in g and g['sigpipe'], '%s: SIGPIPE is ignored' % fn, C12 + C25)
            eng.check_p(s, 'mode' in g and z3.Extract(0, 0, z3.Int2BV(toz(g['mode']), 8)) == 1 if is_z3(g.get('mode')) else bool(g.get('mode', 0) & 1),
                        '%s: partial writes are enabled' % fn, C12)
            eng.check_p(s, ptr_eq(eng.fld(s, p, rec, 'ssl'), g['sslctx']), '%s: the context is kept' % fn, C25)
            if role == 'server':
                q = g.get('psk_server')
                eng.check_p(s, q is not None and is_c(q.obj) and eng.fnnames.get(q.obj) == 'user_check_psk',
                            '%s: the password callback is installed' % fn, C04)
                eng.check_p(s, g.get('accnb', False), '%s: accepting does not block' % fn, C21 + C05)
                eng.check_p(s, 'nbio' in g and ne(g['nbio'], 0), '%s: accepted connections do not block' % fn, C21 + C05)
                eng.check_p(s, 'bound' not in g or gt(g['bound'], 0), '%s: listens, or does not return' % fn, C20)
                eng.check_p(s, 'bound' in g or eq(g.get('setfd', -5), g.get('desc', -6)) if 'setfd' in g else 'bound' in g,
                            '%s: a listening socket is set up' % fn, C20)
                w = eng.fldptr(p, rec, 'accept_watcher')
                ev = eng.fld(s, w, 'ev_io', 'events')
                cb = eng.fld(s, w, 'ev_io', 'cb')
                eng.check_p(s, And(eq(eng.rd(s, Ptr(w.obj, add(w.off, 0)), INT), 1), Or(eq(ev, READ), eq(ev, 0x81)),
                                   ptr_eq(eng.fld(s, w, 'ev_io', 'data'), p), eq(eng.fld(s, w, 'ev_io', 'fd'), g['fd']),
                                   is_c(cb.obj) and eng.fnnames.get(cb.obj) == 'accept_tcp_cb'),
                            '%s: connections are accepted' % fn, C05 + C25)
                eng.check_p(s, eng.fld(s, p, rec, 'timeout') == t, '%s: the configured timeout applies' % fn, C21)
                ch = eng.fld(s, p, rec, 'connect_handler')
                eng.check_p(s, is_c(ch.obj) and eng.fnnames.get(ch.obj) == 'user_connect', '%s: the connect handler is installed' % fn, C05)
            stop = 'tls_%s_stop' % role
            for x, _ in T.run(eng, stop, s, [p]):
                eng.cover(x, stop)
                for i, o in x.objs.items():
                    if o.kind == 'heap':
                        eng.check_p(x, Not(o.alive) if o.alive is not True else False, '%s: `%s` is released' % (stop, o.name), C25)
