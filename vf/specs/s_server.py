"""src/server/server.c: the protocol conversation and the authorization gate (C01, C05, C06)"""
from vtask import *
from libc import *
import libc

SRV = ['src/server/server.c', 'src/common/util.c']


# ---------------------------------------------------------------- contracts of tls.c used by server.c
def is_conn(eng, st, p, node, what):
    eng.check(st, ptr_eq(p, Ptr(st.ghost['tls'], 0)), '%s: called for the connection being handled' % what, node)


def c_tls_read(line):
    def h(eng, st, args, node):
        tls, hnd = args[0], args[1]
        is_conn(eng, st, tls, node, 'tls_read')
        g = st.ghost
        eng.check_p(st, g['reading'] is None, 'no read request is outstanding when one is issued', ['C05', 'C25'], 'pre', node)
        eng.check_p(st, g['shutdown'] is False, 'no read request after the shutdown was initiated', ['C05'], 'pre', node)
        if not (is_c(hnd.obj) and hnd.obj in eng.fnnames):
            raise Unsupported('read handler is not a known function')
        if line:
            g['reading'] = ('line', eng.fnnames[hnd.obj], None)
        else:
            eng.check_p(st, gt(args[2], 0), 'tls_read is asked for at least one byte', ['C05', 'C11'], 'pre', node)
            g['reading'] = ('block', eng.fnnames[hnd.obj], args[2])
        return [(st, None)]
    return h


def out_pieces(eng, st, p, n=None):
    o = st.objs.get(p.obj) if is_c(p.obj) else None
    if o is None:
        raise Unsupported('unknown output data')
    if 'lit' in o.meta:
        b = o.meta['lit'][p.off:]
        b = b[:n] if n is not None else b[:b.index(b'\0')]
        return (('lit', b),)
    if n is None and libc.made_of(st, p) is not None:
        return libc.made_of(st, p)
    return (('opaque', p),)


def c_tls_write_line(eng, st, args, node):
    is_conn(eng, st, args[0], node, 'tls_write_line')
    eng.check_p(st, st.ghost['shutdown'] is False, 'nothing is written after the shutdown was initiated', ['C05'], 'pre', node)
    eng.strlen_of(st, args[1], node, 'tls_write_line')
    st.ghost['out'] = st.ghost['out'] + (out_pieces(eng, st, args[1]) + (('lit', b'\r\n'),),)
    st.event('line', out_pieces(eng, st, args[1]))
    return [(st, None)]


def c_tls_write(eng, st, args, node):
    is_conn(eng, st, args[0], node, 'tls_write')
    eng.check_p(st, st.ghost['shutdown'] is False, 'nothing is written after the shutdown was initiated', ['C05'], 'pre', node)
    if not is_c(args[2]):
        raise Unsupported('tls_write of unknown size')
    need_bytes(eng, st, args[1], args[2], node, 'tls_write')
    st.ghost['out'] = st.ghost['out'] + (out_pieces(eng, st, args[1], args[2]),)
    return [(st, None)]


def c_tls_shutdown(eng, st, args, node):
    is_conn(eng, st, args[0], node, 'tls_shutdown')
    eng.check_p(st, st.ghost['shutdown'] is False, 'the shutdown is initiated once', ['C05', 'C25'], 'pre', node)
    st.ghost['shutdown'] = True
    return [(st, None)]


def c_tls_on(name):
    def h(eng, st, args, node):
        is_conn(eng, st, args[0], node, name)
        hnd = args[1]
        st.ghost[name] = eng.fnnames.get(hnd.obj) if is_c(hnd.obj) else None
        return [(st, None)]
    return h


def c_set_id(eng, st, args, node):
    is_conn(eng, st, args[0], node, 'tls_set_connection_id')
    eng.strlen_of(st, args[1], node, 'connection id')
    old = eng.fld(st, args[0], 'tls_state', 'peer')
    o = st.objs.get(old.obj) if is_c(old.obj) else None
    if o is not None:
        st.objs[old.obj] = o.with_(alive=False)
    eng.setfld(st, args[0], 'tls_state', 'peer', eng.new_string(st, 'peer'))
    return [(st, None)]


def c_parse_line(eng, st, args, node):
    """parse_line(): true iff the line has exactly n blank-separated fields; args[i] is the i-th"""
    line, arr, n = args
    if not is_c(n):
        raise Unsupported('parse_line with a variable count')
    ln = eng.strlen_of(st, line, node, 'parse_line')
    need_bytes(eng, st, arr, 8 * n, node, 'parse_line argument vector', write=True)
    key = ('tok', line.obj)
    if key not in st.ghost:
        st.ghost[key] = fresh_int('ntok')
        st.assume(st.ghost[key] >= 0)
    nt = st.ghost[key]
    # the line is cut into tokens: blanks become NUL, everything else stays
    g = fresh_fun('cut', I, I)
    k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.And(g(k) >= 0, g(k) <= 255), patterns=[g(k)]))
    eng.wr_bulk(st, line, 'havoc', ln, lambda q: g(q))
    eng.assume_tail = None
    st.assume(eq(eng.byte_at(st, Ptr(line.obj, add(line.off, ln))), 0))
    st.hints = st.hints + ((line.obj, add(line.off, ln)),)
    t, f = eng.split(st, nt == n, node)
    res = []
    for s in t:
        for i in range(n):
            o = fresh_int('tok%d' % i)
            s.assume(o >= 0, lt(o, ln))
            eng.wr(s, Ptr(arr.obj, add(arr.off, 8 * i)), cfront.ptr(CHAR), Ptr(line.obj, add(line.off, o)))
            s.ghost[('tokoff', line.obj, i)] = add(line.off, o)
        s.event('parsed', n)
        res.append((s, 1))
    for s in f:
        eng.wr_bulk(s, arr, 'havoc', 8 * n, lambda q: fresh_int('junk'))
        res.append((s, 0))
    return res


def c_is_authorized(eng, st, args, node):
    """is_authorized(id, data): the decision for the NUL-terminated string `data`"""
    ident, data = args
    ln = eng.strlen_of(st, data, node, 'is_authorized')
    eng.strlen_of(st, ident, node, 'is_authorized')
    r = fresh_bool('authorized')
    st.event('auth', ident, data, ln, r, st.objs[data.obj].writes)
    return [(st, r)]


def c_fifo_write(eng, st, args, node):
    fifo, data, n, fr = args
    eng.check_p(st, ptr_eq(fifo, st.ghost['fifo']), 'fifo_write: the server\'s queue', ['C01', 'C07'], 'pre', node)
    need_bytes(eng, st, data, n, node, 'fifo_write')
    isfree = eng.fn_ptr('free')
    null = is_c(fr.obj) and fr.obj == 0
    if not null and not (is_c(fr.obj) and fr.obj == isfree.obj):
        raise Unsupported('release function of fifo_write')
    o = st.objs[data.obj]
    st.event('fifo', data, n, o.writes, o.alive)
    if not null:
        # ownership passes to the queue, which releases it once
        eng.check_p(st, And(o.kind == 'heap', o.alive, eq(data.off, 0)), 'fifo_write: data handed over is a live heap block',
                    ['C01', 'C25', 'C07'], 'pre', node)
        st.objs[data.obj] = st.objs[data.obj].with_(alive=False)
        st.event('handed', data.obj)
    return [(st, None)]


CONTRACTS = {
    'tls_read_line': c_tls_read(True), 'tls_read': c_tls_read(False), 'tls_write_line': c_tls_write_line,
    'tls_write': c_tls_write, 'tls_shutdown': c_tls_shutdown, 'tls_set_connection_id': c_set_id,
    'tls_on_timeout': c_tls_on('on_timeout'), 'tls_on_error': c_tls_on('on_error'),
    'tls_on_line_too_long': c_tls_on('on_line_too_long'), 'tls_on_drain': c_tls_on('on_drain'),
    'is_authorized': c_is_authorized, 'fifo_write': c_fifo_write, 'parse_line': c_parse_line,
}


# ---------------------------------------------------------------- set-up
def mk_tls(eng, st, connected=True):
    tls = eng.new_struct(st, 'tls_state', 'heap', 'tls')
    ctx = eng.new_struct(st, 'server_state_s', 'heap', 'server context')
    fifo = eng.new_obj(st, 1, 'heap', 'fifo')
    eng.setfld(st, ctx, 'server_state_s', 'fifo', fifo)
    mx = fresh_int('max_command_size')
    st.assume(mx >= 0, mx <= 2147483647)
    eng.setfld(st, ctx, 'server_state_s', 'max_command_size', mx)
    eng.setfld(st, tls, 'tls_state', 'peer', eng.new_string(st, 'peer'))
    eng.setfld(st, tls, 'tls_state', 'addr', eng.new_string(st, 'addr'))
    ident = eng.new_string(st, 'identity')
    eng.setfld(st, tls, 'tls_state', 'id', ident)
    st.ghost.update(tls=tls.obj, fifo=fifo, reading=None, shutdown=False, out=(), max=mx, ident=ident, ctx=ctx,
                    on_timeout=None, on_error=None, on_line_too_long=None, on_drain=None)
    return tls


def conn_of(eng, st, tls):
    return eng.fld(st, tls, 'tls_state', 'data')


def flat(out):
    """output of a path as one byte string, variable parts shown as markers"""
    r = b''
    for pcs in out:
        for p in pcs:
            r += p[1] if p[0] == 'lit' else b'\x00'
    return r


def lines(out):
    b = flat(out)
    if b == b'':
        return []
    if not b.endswith(b'\r\n'):
        return None
    return b[:-2].split(b'\r\n')


def discover(T):
    """follow the handler registrations from server_start on: role -> function name"""
    eng = T.eng()
    st = eng.start()
    roles = {}
    seen = {}

    def c_start(e, s, args, node):
        roles['connect'] = e.fnnames.get(args[3].obj)
        srv = e.new_struct(s, 'tls_server_state', 'heap', 'tls server')
        return [(s, srv)]
    eng.contracts = dict(CONTRACTS, tls_server_start=c_start,
                         fifo_start=lambda e, s, a, n: [(s, e.new_obj(s, 1, 'heap', 'fifo'))],
                         aio_init=lambda e, s, a, n: [(s, None)])
    a = [eng.new_string(st, 'listen'), eng.new_string(st, 'ciphers'), eng.new_string(st, 'fifo'),
         eng.new_string(st, 'tmp'), fresh_int('m'), fresh_int('q'), fresh_real('t')]
    eng.suppress += 1
    T.run(eng, 'server_start', st, a)
    if not roles.get('connect'):
        raise Unsupported('connect handler not found')
    st = eng.start()
    tls = mk_tls(eng, st)
    eng.setfld(st, tls, 'tls_state', 'data', st.ghost['ctx'])
    outs = T.run(eng, roles['connect'], st, [tls])
    s = ([x for x, _ in outs if x.ghost['reading'] is not None] or [None])[0]
    if s is None:
        if outs:
            eng.suppress -= 1
            eng.check_p(outs[0][0], False, 'connect handler: waits for a request', ['C05', 'C21'])
        raise Unsupported('connect handler issues no read')
    roles['handshake'] = s.ghost['reading'][1]
    for r in ('on_timeout', 'on_error', 'on_line_too_long'):
        roles[r] = s.ghost[r]
    for frm, to in (('handshake', 'connection'), ('connection', 'push')):
        st = eng.start()
        tls, conn, line = setup(eng, st)
        outs = T.run(eng, roles[frm], st, [tls, line])
        if outs and not any(s.ghost['reading'] for s, _ in outs):
            eng.suppress -= 1
            eng.check_p(outs[0][0], False, frm + ' handler: waits for the next request', ['C05'])
        for s, _ in outs:
            rd = s.ghost['reading']
            if rd and rd[1] not in roles.values():
                roles[to] = rd[1]
        if to not in roles:
            raise Unsupported('no handler for phase %s' % to)
    eng.obls = []
    T.engines.remove(eng)
    return roles


def conn_rec(eng):
    """record type of the per-connection state: allocated by the connect handler"""
    return 'connection_state'


def setup(eng, st, with_line=True):
    tls = mk_tls(eng, st)
    conn = eng.new_struct(st, 'connection_state', 'heap', 'connection')
    eng.setfld(st, conn, 'connection_state', 'ctx', st.ghost['ctx'])
    eng.setfld(st, tls, 'tls_state', 'data', conn)
    line = None
    if with_line:
        line = eng.new_string(st, 'line')
    return tls, conn, line


def lower_is(eng, st, p, word):
    """the string at p starts with word (any case)"""
    c = []
    for i, ch in enumerate(word):
        b = eng.byte_at(st, Ptr(p.obj, add(p.off, i)))
        c.append(Or(eq(b, ord(ch)), eq(b, ord(ch.lower()))))
    return And(*c)


def freed(st, p):
    return st.objs[p.obj].alive is False


def finish(eng, s, tls, conn, roles, fname, expect_free=None):
    """end of every handler: either the connection goes on (one read request) or it ends"""
    g = s.ghost
    P = ['C05', 'C25']
    dead = freed(s, conn)
    eng.check_p(s, dead == g['shutdown'] if not expect_free else True,
                '%s: the connection state is released exactly when the connection is shut down' % fname, P)
    eng.check_p(s, (g['reading'] is not None) != bool(g['shutdown']),
                '%s: afterwards either one read request is pending or the shutdown is in progress' % fname, ['C05'])
    eng.check_p(s, s.objs[tls.obj].alive is True, '%s: the TLS state is not released here' % fname, P)


def answers(eng, s, fname, n=1):
    ls = lines(s.ghost['out'])
    eng.check_p(s, ls is not None and len(ls) == n, '%s: exactly %d answer line(s)' % (fname, n), ['C05'])
    return ls if ls is not None else []


@task('server.connect', ['C05', 'C25'], SRV)
def t_connect(T):
    roles = discover(T)
    eng = T.eng(contracts=CONTRACTS)
    st = eng.start()
    tls = mk_tls(eng, st)
    ctx = st.ghost['ctx']
    eng.setfld(st, tls, 'tls_state', 'data', ctx)
    outs = T.run(eng, roles['connect'], st, [tls])
    for s, _ in outs:
        eng.cover(s, 'connect')
        c = conn_of(eng, s, tls)
        ok = is_c(c.obj) and c.obj in s.objs and s.objs[c.obj].kind == 'heap' and c.obj != ctx.obj
        eng.check_p(s, ok, 'connect handler: allocates a connection state of its own', ['C05', 'C25'])
        if ok:
            eng.check_p(s, ptr_eq(eng.fld(s, c, 'connection_state', 'ctx'), ctx),
                        'connect handler: the connection refers to the server context', ['C05'])
            eng.check_p(s, s.objs[c.obj].alive is True, 'connect handler: connection state is live', ['C25'])
        rd = s.ghost['reading']
        eng.check_p(s, rd is not None and rd[0] == 'line', 'connect handler: waits for a request line', ['C05'])
        for r in ('on_timeout', 'on_error', 'on_line_too_long'):
            eng.check_p(s, s.ghost[r] is not None, 'connect handler: installs the handler %s' % r, ['C05', 'C25'])
        eng.check_p(s, s.ghost['shutdown'] is False and s.ghost['out'] == (), 'connect handler: sends nothing', ['C05'])


@task('server.handshake', ['C05', 'C25'], SRV)
def t_handshake(T):
    roles = discover(T)
    eng = T.eng(contracts=CONTRACTS)
    st = eng.start()
    tls, conn, line = setup(eng, st)
    s0 = st.copy()
    moin, ping, quit_, bail = [lower_is(eng, s0, line, w) for w in ('MOIN', 'PING', 'QUIT', 'BAIL')]
    fn = 'handshake handler'
    P = ['C05']
    for s, _ in T.run(eng, roles['handshake'], st, [tls, line]):
        eng.cover(s, fn)
        finish(eng, s, tls, conn, roles, fn)
        eng.check_p(s, freed(s, line), fn + ': the request line is released', ['C05', 'C25'])
        ls = lines(s.ghost['out'])
        rd = s.ghost['reading']
        nt = s.ghost.get(('tok', line.obj))
        at = [e for e in s.trace if e[0] in ('atoi', 'strtol')]
        eng.check_p(s, ls is not None and len(ls) <= 1, fn + ': at most one answer line', P)
        a = ls[0] if ls else None
        word = a.split(b' ')[0] if a else None
        if word == b'MOIN':
            eng.check_p(s, a == b'MOIN 1', fn + ': MOIN is answered with the protocol version', P)
            eng.check_p(s, And(moin, nt == 3) if nt is not None else False,
                        fn + ': MOIN is accepted only with exactly two arguments', P)
            ok = bool(at) and ptr_eq(at[-1][1], Ptr(line.obj, s.ghost[('tokoff', line.obj, 1)]))
            eng.check_p(s, And(ok, at[-1][2] > 0) if at else False,
                        fn + ': MOIN is accepted only with a positive protocol version', P)
            eng.check_p(s, rd is not None and rd[1] == roles['connection'] and rd[0] == 'line',
                        fn + ': after MOIN the server waits for a request line', P)
        elif word == b'PONG':
            eng.check_p(s, And(ping, a == b'PONG 1'), fn + ': PONG with the protocol version answers PING', P)
            eng.check_p(s, s.ghost['shutdown'] is True, fn + ': PING closes the connection', P)
        elif word == b'OKAY':
            eng.check_p(s, quit_, fn + ': OKAY answers QUIT', P)
            eng.check_p(s, s.ghost['shutdown'] is True, fn + ': QUIT closes the connection', P)
        elif word == b'FAIL':
            bad = And(moin, Or(nt != 3, at[-1][2] <= 0 if at else False)) if nt is not None else False
            eng.check_p(s, Or(bad, Not(Or(moin, ping, quit_, bail))),
                        fn + ': FAIL only for malformed or unexpected requests', P)
            eng.check_p(s, rd is not None and rd[1] == roles['handshake'] and rd[0] == 'line',
                        fn + ': after FAIL the server waits for the next request in the same phase', P)
        else:
            eng.check_p(s, And(a is None, bail), fn + ': only BAIL gets no answer', P)
            eng.check_p(s, s.ghost['shutdown'] is True, fn + ': BAIL closes the connection', P)


@task('server.connection', ['C05', 'C06', 'C25'], SRV)
def t_connection(T):
    roles = discover(T)
    eng = T.eng(contracts=CONTRACTS)
    st = eng.start()
    tls, conn, line = setup(eng, st)
    s0 = st.copy()
    push, noop, quit_, bail = [lower_is(eng, s0, line, w) for w in ('PUSH', 'NOOP', 'QUIT', 'BAIL')]
    mx = st.ghost['max']
    fn = 'connection handler'
    P = ['C05']
    for s, _ in T.run(eng, roles['connection'], st, [tls, line]):
        eng.cover(s, fn)
        finish(eng, s, tls, conn, roles, fn)
        eng.check_p(s, freed(s, line), fn + ': the request line is released', ['C05', 'C25'])
        ls = lines(s.ghost['out'])
        rd = s.ghost['reading']
        nt = s.ghost.get(('tok', line.obj))
        at = [e for e in s.trace if e[0] in ('atoi', 'strtol')]
        eng.check_p(s, ls is not None and len(ls) <= 1, fn + ': at most one answer line', P)
        a = ls[0] if ls else None
        word = a.split(b' ')[0] if a else None
        num = None
        if at:
            eng.check_p(s, ptr_eq(at[-1][1], Ptr(line.obj, s.ghost[('tokoff', line.obj, 1)])),
                        fn + ': the size is taken from the first argument', ['C05', 'C06'])
            num = at[-1][3]
        if rd is not None and rd[0] == 'block':
            eng.check_p(s, word == b'OKAY' and a == b'OKAY', fn + ': an accepted PUSH is answered with OKAY', P)
            eng.check_p(s, rd[1] == roles['push'], fn + ': announced data is read by the push handler', P)
            eng.check_p(s, And(push, nt == 2) if nt is not None else False, fn + ': data is read only after PUSH with one argument', P)
            eng.check_p(s, num is not None and And(num >= 1, eq(rd[2], num)),
                        fn + ': exactly the announced number of bytes is read', ['C05', 'C06'])
            eng.check_p(s, num is not None and Or(mx == 0, num <= mx),
                        fn + ': no payload is read beyond max_command_size', ['C06'])
            eng.check_p(s, eq(eng.fld(s, conn, 'connection_state', 'input_length'), rd[2]),
                        fn + ': the payload size is recorded', ['C01', 'C05'])
        elif word == b'OKAY':
            eng.check_p(s, Or(And(noop, s.ghost['shutdown'] is False), And(quit_, s.ghost['shutdown'] is True)),
                        fn + ': OKAY answers NOOP (staying connected) or QUIT (closing)', P)
            if rd is not None:
                eng.check_p(s, rd[1] == roles['connection'], fn + ': after NOOP the server waits for the next request', P)
        elif word == b'FAIL':
            mal = False
            if nt is not None:
                if num is None:
                    mal = And(push, nt != 2)
                else:
                    mal = And(push, Or(nt != 2, num <= 0, And(mx > 0, num > mx), num > 2147483647))
            eng.check_p(s, Or(mal, Not(Or(push, noop, quit_, bail))),
                        fn + ': FAIL only for malformed, oversized or unexpected requests', ['C05', 'C06'])
            eng.check_p(s, rd is not None and rd[1] == roles['connection'] and rd[0] == 'line',
                        fn + ': after FAIL the server waits for the next request in the same phase', P)
        else:
            eng.check_p(s, And(a is None, bail), fn + ': only BAIL gets no answer', P)
            eng.check_p(s, s.ghost['shutdown'] is True, fn + ': BAIL closes the connection', P)


@task('server.push', ['C01', 'C05', 'C25'], SRV)
def t_push(T):
    roles = discover(T)
    eng = T.eng(contracts=CONTRACTS)
    st = eng.start()
    tls, conn, _ = setup(eng, st, False)
    n = fresh_int('input_length')
    st.assume(n >= 1, n <= 2147483647)
    eng.setfld(st, conn, 'connection_state', 'input_length', n)
    # what tls_read() delivers: n arbitrary bytes followed by a NUL
    data = eng.new_obj(st, add(n, 1), 'heap', 'pushed data')
    st.assume(eq(eng.byte_at(st, Ptr(data.obj, n)), 0))
    st.hints = ((data.obj, n),) + st.hints
    fn = 'push handler'
    content = st.objs[data.obj].writes
    ident = st.ghost['ident']
    for s, _ in T.run(eng, roles['push'], st, [tls, data]):
        eng.cover(s, fn)
        finish(eng, s, tls, conn, roles, fn)
        ls = answers(eng, s, fn)
        a = ls[0] if ls else b''
        fw = [e for e in s.trace if e[0] == 'fifo']
        au = [e for e in s.trace if e[0] == 'auth']
        handed = [e for e in s.trace if e[0] == 'handed']
        rd = s.ghost['reading']
        eng.check_p(s, len(fw) <= 1, fn + ': the data is handed over at most once', ['C01'])
        if fw:
            _, fd, flen, fcont, _al = fw[0]
            eng.check_p(s, And(ptr_eq(fd, data), eq(flen, n)), fn + ': the complete pushed data is handed over', ['C01'])
            eng.check_p(s, fcont is content, fn + ': the data is not modified before it is handed over', ['C01'])
            dec = [e for e in au if e[5] is content]
            eng.check_p(s, Or(*[And(ptr_eq(e[1], ident), ptr_eq(e[2], data), e[4]) for e in dec]),
                        fn + ': the data was authorized for the authenticated identity', ['C01'])
            eng.check_p(s, Or(*[And(ptr_eq(e[2], data), eq(e[3], n)) for e in dec]),
                        fn + ': the authorization covered every byte that is handed over', ['C01'])
            eng.check_p(s, a == b'OKAY', fn + ': queued data is answered with OKAY', ['C01', 'C05'])
        else:
            eng.check_p(s, a.startswith(b'FAIL'), fn + ': refused data is answered with FAIL', ['C01', 'C05'])
            eng.check_p(s, Or(*[And(ptr_eq(e[2], data), ptr_eq(e[1], ident), Not(e[4])) for e in au],
                              And(*[lt(e[3], n) for e in au]) if au else True) if not au else
                        Or(*[Not(e[4]) for e in au], *[lt(e[3], n) for e in au]),
                        fn + ': data is refused only if it was not authorized', ['C01', 'C05'])
            if not au:
                k = z3.Int('nulpos')
                eng.check_p(s, Not(eng.forall_bytes(lambda q: ne(eng.byte_at(s, Ptr(data.obj, q)), 0), 0, n)) if True else True,
                            fn + ': data is refused without a decision only if it contains a NUL byte', ['C01', 'C05'])
        eng.check_p(s, freed(s, data), fn + ': the data is released (or its ownership passed on) exactly once', ['C01', 'C25'])
        eng.check_p(s, rd is not None and rd[0] == 'line' and rd[1] == roles['connection'],
                    fn + ': afterwards the server waits for the next request', ['C05'])


@task('server.events', ['C05', 'C25', 'C21'], SRV)
def t_events(T):
    roles = discover(T)
    for role, text in (('on_timeout', b'BAIL'), ('on_line_too_long', b'BAIL'), ('on_error', None)):
        eng = T.eng(contracts=CONTRACTS)
        st = eng.start()
        tls, conn, _ = setup(eng, st, False)
        fn = role + ' handler'
        for s, _ in T.run(eng, roles[role], st, [tls]):
            eng.cover(s, fn)
            eng.check_p(s, freed(s, conn), fn + ': the connection state is released', ['C05', 'C25'])
            live = [o for o in s.objs.values() if o.kind == 'heap' and o.alive is True and o.name.startswith(
                ('vasprintf', 'asprintf', 'malloc', 'strdup'))]
            eng.check_p(s, not live, fn + ': no memory is left behind', ['C25'])
            ls = lines(s.ghost['out'])
            if text:
                eng.check_p(s, ls is not None and len(ls) == 1 and ls[0].split(b' ')[0] == text and b'\0' not in ls[0],
                            fn + ': the peer is told with BAIL', ['C05', 'C21'])
                eng.check_p(s, s.ghost['shutdown'] is True, fn + ': the connection is shut down', ['C05', 'C21'])
            else:
                eng.check_p(s, ls == [] and s.ghost['shutdown'] is False, fn + ': nothing is sent on a broken connection', ['C05'])
            eng.check_p(s, s.ghost['reading'] is None, fn + ': no further request is read', ['C05', 'C25'])


@task('server.start', ['C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C21', 'C22', 'C25'], SRV)
def t_start(T):
    """server_start() hands the configuration on unchanged, server_stop() stops both parts once"""
    def c_fifo(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, ptr_eq(a[0], g['a'][2]), 'fifo_start(): the configured command file', ['C01', 'C07', 'C08', 'C22'], 'pre', node)
        eng.check_p(st, ptr_eq(a[1], g['a'][3]), 'fifo_start(): the configured directory for temporary files', ['C08', 'C22'], 'pre', node)
        eng.check_p(st, eq(a[2], g['a'][5]), 'fifo_start(): the configured queue limit', ['C09', 'C22'], 'pre', node)
        eng.check_p(st, g['fifo'] is None, 'fifo_start(): one queue', ['C07'], 'pre', node)
        g['fifo'] = eng.new_obj(st, 1, 'static2', 'fifo')
        return [(st, g['fifo'])]

    def c_tls(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, ptr_eq(a[0], g['a'][0]), 'tls_server_start(): the configured address', ['C22'], 'pre', node)
        eng.check_p(st, ptr_eq(a[1], g['a'][1]), 'tls_server_start(): the configured ciphers', ['C22', 'C04'], 'pre', node)
        eng.check_p(st, eq(a[2], g['a'][6]), 'tls_server_start(): the configured timeout', ['C21', 'C22'], 'pre', node)
        n = eng.fnnames.get(a[4].obj) if is_c(a[4].obj) else None
        if n != 'check_psk' and a[4].obj:
            raise Unsupported('PSK callback')
        eng.check_p(st, n == 'check_psk', 'tls_server_start(): clients authenticate with their key', ['C04', 'C01'], 'pre', node)
        eng.check_p(st, eng.fnnames.get(a[3].obj) is not None, 'tls_server_start(): there is a connect handler', ['C05'], 'pre', node)
        eng.check_p(st, g['tls'] is None, 'tls_server_start(): one TLS server', ['C05'], 'pre', node)
        g['tls'] = eng.new_struct(st, 'tls_server_state', 'static2', 'tls server')
        return [(st, g['tls'])]
    eng = T.eng(contracts=dict(CONTRACTS, tls_server_start=c_tls, fifo_start=c_fifo, aio_init=lambda e, s, a, n: [(s, None)]))
    st = eng.start()
    a = [eng.new_string(st, 'listen', 'param'), eng.new_string(st, 'ciphers', 'param'), eng.new_string(st, 'fifo', 'param'),
         eng.new_string(st, 'tmp', 'param'), fresh_int('max_command_size'), fresh_int('max_queue_size'), fresh_real('timeout')]
    st.assume(a[4] >= 0, a[4] < 1 << 31, a[5] >= 0, a[5] < 1 << 31)
    st.ghost.update(a=a, fifo=None, tls=None)
    for s, p in T.run(eng, 'server_start', st, a):
        eng.cover(s, 'server_start')
        g = s.ghost
        ok = is_c(p.obj) and p.obj in s.objs and s.objs[p.obj].kind == 'heap' and s.objs[p.obj].alive is True
        eng.check_p(s, And(ok, g['fifo'] is not None, g['tls'] is not None), 'server_start: starts both parts and returns the server', ['C05', 'C07'])
        if ok and g['fifo'] is not None and g['tls'] is not None:
            eng.check_p(s, eq(eng.fld(s, p, 'server_state_s', 'max_command_size'), a[4]), 'server_start: the configured command size limit is used', ['C06', 'C22'])
            eng.check_p(s, ptr_eq(eng.fld(s, p, 'server_state_s', 'fifo'), g['fifo']), 'server_start: the server uses the queue', ['C01', 'C07'])
            eng.check_p(s, ptr_eq(eng.fld(s, g['tls'], 'tls_server_state', 'data'), p), 'server_start: connections find the server', ['C05', 'C01'])
        if not ok or g['fifo'] is None or g['tls'] is None:
            continue

        def stop(part, what):
            def h(e, x, b, node):
                gg = x.ghost
                e.check_p(x, And(ptr_eq(b[0], gg[part]), not gg.get(what, False)), '%s_stop(): the one that was started, once' % part, ['C25', 'C07'], 'pre', node)
                gg[what] = True
                return [(x, None)]
            return h
        eng.contracts = dict(eng.contracts, tls_server_stop=stop('tls', 'tls stopped'), fifo_stop=stop('fifo', 'fifo stopped'))
        for x, _ in T.run(eng, 'server_stop', s, [p]):
            eng.cover(x, 'server_stop')
            eng.check_p(x, x.ghost.get('tls stopped', False), 'server_stop: the TLS server is stopped', ['C25', 'C21'])
            eng.check_p(x, x.ghost.get('fifo stopped', False), 'server_stop: queued commands are written out', ['C07'])
            eng.check_p(x, freed(x, p), 'server_stop: the server is released', ['C25'])
