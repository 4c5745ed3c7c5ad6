"""src/client/client.c and src/client/input.c: the client's conversation (C16), announced sizes (C14), reading of
standard input (C15)"""
from vtask import *
from libc import *
import libc
from specs.s_server import c_parse_line, out_pieces, lower_is, flat, lines

CLI = ['src/client/client.c', 'src/common/util.c']
INP = ['src/client/input.c']
C13, C14, C15, C16 = ['C13'], ['C14'], ['C15'], ['C16']


def CF(eng, s, n, st=None):
    return eng.fld(s, s.ghost['client'], 'client_state_s', n)


def live(s, p):
    return p is not None and is_c(p.obj) and p.obj in s.objs and s.objs[p.obj].alive is True


def dead(s, p):
    return p is not None and s.objs[p.obj].alive is False


def give_away(eng, st):
    """a request for a line or a record may run any number of further callbacks at once, so that afterwards the
    client, its connection and its input may be gone"""
    g = st.ghost
    g['snap'] = st.copy()
    for k in ('client', 'tls', 'input'):
        if k in g and live(st, g[k]):
            st.objs[g[k].obj] = st.objs[g[k].obj].with_(alive=fresh_bool(k + '_still_there'))


# ---------------------------------------------------------------- tls.c, input.c, parse.c (verified by their own tasks)
def conn(eng, st, p, node, what):
    eng.check_p(st, ptr_eq(p, st.ghost['tls']), '%s: called for the client\'s connection' % what, C16, 'pre', node)
    eng.check_p(st, live(st, st.ghost['tls']) and st.ghost['shutdown'] is False, '%s: the connection is open' % what, C16 + ['C25'], 'pre', node)


def c_read_line(eng, st, a, node):
    conn(eng, st, a[0], node, 'tls_read_line')
    g = st.ghost
    eng.check_p(st, g['wait'] is None, 'one thing is waited for at a time', C16, 'pre', node)
    if not (is_c(a[1].obj) and a[1].obj in eng.fnnames):
        raise Unsupported('read handler is not a known function')
    g['wait'] = ('line', eng.fnnames[a[1].obj])
    give_away(eng, st)
    return [(st, None)]


def c_write_line(eng, st, a, node):
    conn(eng, st, a[0], node, 'tls_write_line')
    eng.strlen_of(st, a[1], node, 'tls_write_line')
    st.ghost['out'] = st.ghost['out'] + (out_pieces(eng, st, a[1]) + (('lit', b'\r\n'),),)
    return [(st, None)]


def c_write(eng, st, a, node):
    conn(eng, st, a[0], node, 'tls_write')
    need_bytes(eng, st, a[1], a[2], node, 'tls_write')
    fr = a[3]
    if is_c(a[2]):
        st.ghost['out'] = st.ghost['out'] + (out_pieces(eng, st, a[1], a[2]),)
    else:
        o = st.objs[a[1].obj] if is_c(a[1].obj) else None
        st.event('data', a[1], a[2], o and o.writes)
    if is_c(fr.obj) and fr.obj == 0:
        return [(st, None)]
    ok = is_c(fr.obj) and eng.fnnames.get(fr.obj) == 'free'
    eng.check_p(st, ok and live(st, a[1]) and st.objs[a[1].obj].kind == 'heap' and eq(a[1].off, 0),
                'tls_write: data handed over is a live heap block', C16 + C14, 'pre', node)
    if ok and is_c(a[1].obj):
        st.objs[a[1].obj] = st.objs[a[1].obj].with_(alive=False)
    return [(st, None)]


def c_shutdown(eng, st, a, node):
    conn(eng, st, a[0], node, 'tls_shutdown')
    st.ghost['shutdown'] = True
    return [(st, None)]


def c_set_id(eng, st, a, node):
    conn(eng, st, a[0], node, 'tls_set_connection_id')
    eng.strlen_of(st, a[1], node, 'connection id')
    eng.setfld(st, a[0], 'tls_state', 'peer', eng.new_string(st, 'peer', 'param'))
    return [(st, None)]


def c_client_start(eng, st, a, node):
    eng.strlen_of(st, a[0], node, 'ciphers') if not (is_c(a[0].obj) and a[0].obj == 0) else None
    p = eng.new_struct(st, 'tls_client_state', 'heap', 'tls client')
    st.ghost['tc'] = p
    return [(st, p)]


def c_client_stop(eng, st, a, node):
    tc = st.ghost['tc']
    eng.check_p(st, ptr_eq(a[0], tc) and live(st, tc), 'tls_client_stop: once', C16 + ['C25'], 'pre', node)
    st.objs[tc.obj] = st.objs[tc.obj].with_(alive=False)
    return [(st, None)]


def c_connect(eng, st, a, node):
    st.event('connect', *a)
    for k in (4, 6):
        if len(a) > k and is_c(a[k].obj) and a[k].obj in eng.fnnames:
            st.ghost.setdefault('connect_fns', []).append(eng.fnnames[a[k].obj])
    st.ghost['connected'] = a
    give_away(eng, st)
    return [(st, None)]


def c_input_start(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, 'input' not in g or g['input'] is None, 'the input is started once', C16 + C15, 'pre', node)
    p = eng.new_struct(st, 'input_state_s', 'heap', 'input')
    g['input'] = p
    g['separator_given'] = a[0]
    return [(st, p)]


def c_on_eof(eng, st, a, node):
    g = st.ghost
    eng.check_p(st, ptr_eq(a[0], g['input']), 'input_on_eof: the client\'s input', C16 + C15, 'pre', node)
    g['eof_handler'] = eng.fnnames.get(a[1].obj) if is_c(a[1].obj) else None
    return [(st, None)]


def c_input_read(eng, st, a, node):
    g = st.ghost
    ok = 'input' in g and g['input'] is not None and live(st, g['input'])
    eng.check_p(st, ok and ptr_eq(a[0], g['input']), 'input_read_chunk: the client\'s input is open', C16 + C15, 'pre', node)
    eng.check_p(st, g['wait'] is None, 'one thing is waited for at a time', C16, 'pre', node)
    if not (is_c(a[1].obj) and a[1].obj in eng.fnnames):
        raise Unsupported('input handler is not a known function')
    g['wait'] = ('record', eng.fnnames[a[1].obj])
    give_away(eng, st)
    return [(st, None)]


def c_input_stop(eng, st, a, node):
    g = st.ghost
    ok = 'input' in g and g['input'] is not None and live(st, g['input'])
    eng.check_p(st, ok and ptr_eq(a[0], g['input']), 'input_stop: the client\'s input, once', C16 + C15, 'pre', node)
    eng.check_p(st, not g.get('at_eof'), 'input_stop: not from the end-of-input handler (the input is released after it)', C15, 'pre', node)
    if ok:
        st.objs[g['input'].obj] = st.objs[g['input'].obj].with_(alive=False)
    return [(st, None)]


def c_parsed(name):
    def h(eng, st, a, node):
        """the command built from a record: a heap string of its own"""
        eng.strlen_of(st, a[0], node, name)
        st.event('parse', name, a[0], st.copy(), a[1:] and a[1])
        n = fresh_int('cmdlen')
        st.assume(n >= 0, n < (1 << 61))
        p = eng.new_obj(st, add(n, 1), 'heap', 'command')
        f = fresh_fun('CMD', I, I)
        k = z3.Int('k')
        st.assume(z3.ForAll([k], z3.And(f(k) >= 1, f(k) <= 255, f(k) != 10) if name == 'parse_check_result' else
                            z3.And(f(k) >= 1, f(k) <= 255), patterns=[f(k)]))
        eng.wr_bulk(st, p, 'copy', n, lambda q: f(toz(q)))
        eng.wr(st, Ptr(p.obj, n), CHAR, 0)
        eng.assume_len(st, p, n)
        st.ghost.update(cmd=p, cmdlen=n, CMD=f)
        return [(st, p)]
    return h


# ---------------------------------------------------------------- OpenSSL helpers of generate_session_id()
def c_rand(eng, st, a, node):
    need_bytes(eng, st, a[0], a[1], node, 'RAND_bytes', write=True)
    f = fresh_fun('RAND', I, I)
    eng.wr_bulk(st, a[0], 'copy', a[1], lambda q: f(toz(q)))
    r = fresh_int('rand')
    st.assume(r >= -1, r <= 1)
    return [(st, r)]


def c_bio_new(eng, st, a, node):
    return [(st, eng.new_obj(st, 1, 'heap', 'bio'))]


def c_bio_push(eng, st, a, node):
    st.ghost['chain'] = [a[0].obj, a[1].obj]
    return [(st, a[0])]


def c_bio_write(eng, st, a, node):
    need_bytes(eng, st, a[1], a[2], node, 'BIO_write')
    n = fresh_int('b64')
    st.assume(n >= 0, n < (1 << 31) - 8)
    st.ghost['mem_n'] = n
    return [(st, a[2])]


def c_bio_ctrl(eng, st, a, node):
    if not is_c(a[1]):
        raise Unsupported('BIO_ctrl command')
    if a[1] == 3:          # BIO_CTRL_INFO: the data of a memory BIO; OpenSSL allocates (n + 3) / 3 * 4 > n bytes for n bytes
        n = st.ghost.get('mem_n', 0)
        p = eng.new_obj(st, add(n, 1), 'param', 'bio data')
        f = fresh_fun('B64', I, I)
        k = z3.Int('k')
        st.assume(z3.ForAll([k], z3.And(f(k) >= 43, f(k) <= 122), patterns=[f(k)]))
        eng.wr_bulk(st, p, 'copy', n, lambda q: f(toz(q)))
        eng.wr(st, a[3], cfront.ptr(CHAR), p)
        return [(st, n)]
    return [(st, 1)]


def c_bio_free_all(eng, st, a, node):
    ch = st.ghost.get('chain', [a[0].obj])
    eng.check_p(st, is_c(a[0].obj) and a[0].obj == ch[0] and live(st, a[0]), 'BIO_free_all: the whole chain', C16, 'pre', node)
    for i in ch:
        st.objs[i] = st.objs[i].with_(alive=False)
    return [(st, None)]


CONTRACTS = {
    'tls_read_line': c_read_line, 'tls_write_line': c_write_line, 'tls_write': c_write, 'tls_shutdown': c_shutdown,
    'tls_set_connection_id': c_set_id, 'tls_client_start': c_client_start, 'tls_client_stop': c_client_stop, 'tls_connect': c_connect,
    'input_start': c_input_start, 'input_on_eof': c_on_eof, 'input_read_chunk': c_input_read, 'input_stop': c_input_stop,
    'parse_check_result': c_parsed('parse_check_result'), 'parse_command': c_parsed('parse_command'), 'parse_line': c_parse_line,
    'RAND_bytes': c_rand, 'RAND_pseudo_bytes': c_rand, 'BIO_new': c_bio_new, 'BIO_s_mem': lambda e, s, a, n: [(s, NULL)],
    'BIO_f_base64': lambda e, s, a, n: [(s, NULL)], 'BIO_set_flags': lambda e, s, a, n: [(s, None)], 'BIO_push': c_bio_push,
    'BIO_write': c_bio_write, 'BIO_ctrl': c_bio_ctrl, 'BIO_free_all': c_bio_free_all,
}


# ---------------------------------------------------------------- set-up
def mk(eng, st, inp=True, connected=True):
    g = st.ghost
    client = eng.new_struct(st, 'client_state_s', 'heap', 'client')
    tls = eng.new_struct(st, 'tls_state', 'heap', 'tls')
    tc = eng.new_struct(st, 'tls_client_state', 'heap', 'tls client')
    g.update(client=client, tls=tls, tc=tc, out=(), wait=None, shutdown=False, snap=None, input=None)
    eng.setfld(st, tls, 'tls_state', 'data', client)
    eng.setfld(st, tls, 'tls_state', 'peer', eng.new_string(st, 'peer', 'param'))
    eng.setfld(st, tls, 'tls_state', 'addr', eng.new_string(st, 'addr', 'param'))
    C = lambda n, v: eng.setfld(st, client, 'client_state_s', n, v)
    C('tls_client', tc)
    C('tls', tls if connected else NULL)
    C('input', NULL)
    if inp:
        p = eng.new_struct(st, 'input_state_s', 'heap', 'input')
        g['input'] = p
        eng.setfld(st, p, 'input_state_s', 'data', client)
        C('input', p)
    m = fresh_int('mode')
    st.assume(m >= 0, m <= 1)
    C('mode', m)
    for n in ('delimiter', 'separator'):
        v = fresh_int(n)
        st.assume(v >= -128, v <= 127)
        C(n, v)
        g[n] = v
    g['mode'] = m
    set_exit(eng, st, 0)
    return client, tls


def exit_ptr(eng, st):
    return eng.global_ptr(st, 'exit_code')


def set_exit(eng, st, v):
    eng.wr(st, exit_ptr(eng, st), INT, v)


def exit_code(eng, s):
    return eng.rd(s, exit_ptr(eng, s), INT)


def T_eng(T):
    return T.eng(contracts=CONTRACTS)


def command(eng, st, client):
    """a command that was announced"""
    n = fresh_int('command_length')
    st.assume(n >= 1, n < (1 << 31))
    p = eng.new_obj(st, n, 'heap', 'command')
    eng.setfld(st, client, 'client_state_s', 'command', p)
    eng.setfld(st, client, 'client_state_s', 'command_length', n)
    return p, n


def discover(T):
    """follow the handler registrations from client_start() on: phase -> function name"""
    roles = {}
    eng = T_eng(T)
    eng.suppress += 1

    def waits(s):
        return s.ghost['wait'][1] if s.ghost['wait'] else None
    st = eng.start()
    st.ghost.update(out=(), wait=None, shutdown=False, snap=None, input=None)
    a = [eng.new_string(st, 'server', 'param'), eng.new_string(st, 'ciphers', 'param'), fresh_real('timeout'), fresh_int('m'), 9, 23]
    for s, _ in T.run(eng, 'client_start', st, a):
        if 'connected' in s.ghost:
            h = s.ghost['connected'][4]
            roles['connect'] = eng.fnnames.get(h.obj) if is_c(h.obj) else None
    if not roles.get('connect'):
        raise Unsupported('connect handler not found')

    def find(frm, to, inp, line=True, cmd=False, kind='line'):
        st = eng.start()
        client, tls = mk(eng, st, inp, frm != 'connect')
        if cmd:
            command(eng, st, client)
        args = [tls, eng.new_string(st, 'line')] if line else [tls] if frm == 'connect' else [st.ghost['input']]
        if frm == 'record':
            args = [st.ghost['input'], eng.new_string(st, 'record')]
        for s, _ in T.run(eng, roles[frm], st, args):
            w = s.ghost['wait']
            if w and w[0] == kind and w[1] not in roles.values():
                roles[to] = w[1]
            if frm == 'moin' and s.ghost.get('eof_handler'):
                roles['eof'] = s.ghost['eof_handler']
        if to not in roles:
            raise Unsupported('no handler for %s' % to)
    find('connect', 'moin', False, False)
    find('moin', 'record', False, kind='record')
    find('record', 'push', True)
    find('push', 'command', True, cmd=True)
    if 'eof' not in roles:
        raise Unsupported('no end-of-input handler')
    find('eof', 'quit', True, False)
    eng.obls = []
    T.engines.remove(eng)
    return roles


def over(eng, s, fn, why):
    """the conversation ended"""
    g = s.ghost
    eng.check_p(s, g['shutdown'] is True, '%s: %s: the connection is shut down' % (fn, why), C16)
    eng.check_p(s, dead(s, g['client']) and dead(s, g['tc']), '%s: %s: the client is released' % (fn, why), C16)
    eng.check_p(s, g['input'] is None or g.get('at_eof') or dead(s, g['input']), '%s: %s: the input is released' % (fn, why), C16 + C15)
    eng.check_p(s, g['wait'] is None, '%s: %s: nothing more is waited for' % (fn, why), C16)


def failed(eng, s, fn):
    eng.check_p(s, ne(exit_code(eng, s), 0), '%s: the exit status tells the failure' % fn, C16)
    over(eng, s, fn, 'after a failure')


def going_on(eng, s, fn, role, what):
    g = s.ghost
    eng.check_p(s, g['wait'] is not None and g['wait'][1] == role, '%s: %s' % (fn, what), C16)
    eng.check_p(s, g['shutdown'] is False and eq(exit_code(eng, s), 0), '%s: the connection stays open' % fn, C16)


def leaks(eng, s, fn, keep=()):
    live_ = [o.name for i, o in s.objs.items() if o.kind == 'heap' and o.alive is True and i not in keep and
             o.name.startswith(('vasprintf', 'asprintf', 'malloc', 'xmalloc', 'strdup', 'bio'))]
    eng.check_p(s, not live_, '%s: temporary memory is released' % fn, C16)


@task('client.start', ['C16', 'C15', 'C13'], CLI)
def t_start(T):
    roles = discover(T)
    eng = T_eng(T)
    st = eng.start()
    st.ghost.update(out=(), wait=None, shutdown=False, snap=None, input=None)
    server, ciphers = eng.new_string(st, 'server', 'param'), eng.new_string(st, 'ciphers', 'param')
    tmo, mode, d, e = fresh_real('timeout'), fresh_int('mode'), fresh_int('delimiter'), fresh_int('separator')
    st.assume(mode >= 0, mode <= 1, d >= -128, d <= 127, e >= -128, e <= 127)
    fn = 'client_start'
    for s0, p in T.run(eng, fn, st, [server, ciphers, tmo, mode, d, e]):
        eng.cover(s0, fn)
        g = s0.ghost
        a = g.get('connected')
        eng.check_p(s0, a is not None, fn + ': the connection is initiated', C16)
        if a is None:
            continue
        s = g['snap']
        eng.check_p(s, And(ptr_eq(a[0], g['tc']), ptr_eq(a[1], server), eq(a[2], tmo)), fn + ': to the given server, with the given timeout', C16 + ['C21'])
        eng.check_p(s, is_c(a[3]) and a[3] & 1 == 1, fn + ': a failing connection ends the program with a nonzero status', C16)
        eng.check_p(s, is_c(a[6].obj) and eng.fnnames.get(a[6].obj) == 'set_psk', fn + ': the configured identity is presented', C16 + ['C04'])
        eng.check_p(s, is_c(a[5].obj) and a[5].obj == 0, fn + ': no default timeout handling is replaced', C16)
        c = eng.fld(s, g['tc'], 'tls_client_state', 'data')
        eng.check_p(s, And(ptr_eq(c, p), live(s, p)), fn + ': the client state is handed to the connection', C16)
        f = lambda n: eng.fld(s, p, 'client_state_s', n)
        eng.check_p(s, And(ptr_eq(f('tls_client'), g['tc']), eq(f('tls').obj, 0), eq(f('input').obj, 0), eq(f('mode'), mode)),
                    fn + ': the client state is initialised', C16)
        eng.check_p(s, eq(f('delimiter'), d), fn + ': the field delimiter is that of the options', ['C13', 'C16'])
        eng.check_p(s, eq(f('separator'), Ite(eq(mode, 1), e, 10)), fn + ': the record separator is that of the options, or a newline for raw commands', C15 + C16)


@task('client.connect', ['C16', 'C05'], CLI)
def t_connect(T):
    roles = discover(T)
    eng = T_eng(T)
    st = eng.start()
    client, tls = mk(eng, st, False, False)
    fn = 'connect handler'
    for s, _ in T.run(eng, roles['connect'], st, [tls]):
        eng.cover(s, fn)
        going_on(eng, s, fn, roles['moin'], 'the answer to MOIN is waited for')
        ls = lines(s.ghost['out'])
        eng.check_p(s, ls is not None and len(ls) == 1 and ls[0].startswith(b'MOIN 1 ') if ls and not any(p[0] == 'opaque' for q in s.ghost['out'] for p in q)
                    else moin_line(eng, s), fn + ': MOIN with protocol version 1 is sent first', C16 + ['C05'])
        z = s.ghost['snap']
        if z is not None:
            eng.check_p(z, ptr_eq(CF(eng, z, 'tls'), tls), fn + ': the client knows its connection', C16)
        leaks(eng, s, fn)


def moin_line(eng, s):
    pcs = [p for q in s.ghost['out'] for p in q]
    if len(pcs) != 2 or pcs[0][0] != 'opaque' or pcs[1] != ('lit', b'\r\n'):
        return False
    p = pcs[0][1]
    z = s.ghost['snap'] if s.ghost['snap'] is not None else s
    return And(*[eq(eng.byte_at(z, Ptr(p.obj, add(p.off, i))), c) for i, c in enumerate(b'MOIN 1 ')])


@task('client.moin', ['C16', 'C15'], CLI)
def t_moin(T):
    roles = discover(T)
    eng = T_eng(T)
    st = eng.start()
    client, tls = mk(eng, st, False)
    line = eng.new_string(st, 'line')
    moin = lower_is(eng, st.copy(), line, 'MOIN')
    fn = 'MOIN response handler'
    for s, _ in T.run(eng, roles['moin'], st, [tls, line]):
        eng.cover(s, fn)
        eng.check_p(s, dead(s, line), fn + ': the line is released', C16)
        leaks(eng, s, fn)
        g = s.ghost
        nt = g.get(('tok', line.obj))
        at = [e for e in s.trace if e[0] in ('atoi', 'strtol')]
        if g['wait'] is not None:
            going_on(eng, s, fn, roles['record'], 'the first record is asked for')
            eng.check_p(s, And(moin, nt is not None and nt == 2, bool(at) and at[-1][2] == 1 and
                               ptr_eq(at[-1][1], Ptr(line.obj, g[('tokoff', line.obj, 1)]))) if at else False,
                        fn + ': the conversation goes on only after MOIN with protocol version 1', C16)
            z = g['snap']
            eng.check_p(z, And(g['input'] is not None and ptr_eq(CF(eng, z, 'input'), g['input']),
                               ptr_eq(eng.fld(z, g['input'], 'input_state_s', 'data'), client)), fn + ': the client reads standard input', C16 + C15)
            eng.check_p(z, eq(g['separator_given'], g['separator']), fn + ': records end with the configured separator', C15)
            eng.check_p(z, g.get('eof_handler') == roles['eof'], fn + ': the end of the input is noticed', C15 + C16)
            eng.check_p(z, flat(g['out']) == b'', fn + ': nothing is sent yet', C16)
        else:
            failed(eng, s, fn)


@task('client.record', ['C14', 'C15', 'C16', 'C13'], CLI)
def t_record(T):
    roles = discover(T)
    eng = T_eng(T)
    st = eng.start()
    client, tls = mk(eng, st)
    rec = eng.new_string(st, 'record')
    n = eng.strlen_of(st, rec)
    s0 = st.copy()
    fn = 'record handler'
    sent = skipped = 0
    for s, _ in T.run(eng, roles['record'], st, [st.ghost['input'], rec]):
        eng.cover(s, fn)
        g = s.ghost
        eng.check_p(s, dead(s, rec), fn + ': the record is released', C16 + C15)
        leaks(eng, s, fn)
        ev = [e for e in s.trace if e[0] == 'parse']
        if g['wait'] is not None and g['wait'][0] == 'record':
            skipped += 1
            going_on(eng, s, fn, roles['record'], 'the next record is asked for')
            eng.check_p(s, eng.forall_bytes(lambda k: Or(eq(eng.byte_at(s0, Ptr(rec.obj, k)), 10), eq(eng.byte_at(s0, Ptr(rec.obj, k)), 13)), 0, n),
                        fn + ': only records without content are skipped', C14 + C15)
            eng.check_p(s, flat(g['out']) == b'' and not ev, fn + ': nothing is sent for an empty record', C14)
            continue
        sent += 1
        going_on(eng, s, fn, roles['push'], 'the answer to PUSH is waited for')
        eng.check_p(s, len(ev) == 1, fn + ': each record becomes one command', C14 + C15)
        if len(ev) != 1 or g['snap'] is None:
            continue
        _, name, p, w, dl = ev[0]
        eng.check_p(s, And(eq(p.obj, rec.obj), le(0, p.off), lt(p.off, n), eng.forall_bytes(
            lambda k: Or(eq(eng.byte_at(s0, Ptr(rec.obj, k)), 10), eq(eng.byte_at(s0, Ptr(rec.obj, k)), 13)), 0, p.off)),
            fn + ': nothing but leading line breaks is taken from the record', C14 + C13)
        m = eng.strlen_of(w, p)
        ob, nb = (lambda k: eng.byte_at(s0, Ptr(rec.obj, k))), (lambda k: eng.byte_at(w, Ptr(rec.obj, k)))
        eng.check_p(w, And(eng.forall_bytes(lambda k: eq(nb(k), ob(k)), p.off, add(p.off, m)),
                           eng.forall_bytes(lambda k: Or(eq(ob(k), 10), eq(ob(k), 13)), add(p.off, m), n)),
                    fn + ': nothing but trailing line breaks is taken from the record', C14 + C13)
        eng.check_p(s, eq(g['mode'], 1 if name == 'parse_check_result' else 0), fn + ': raw commands and check results are told apart by the mode', C14 + C13)
        if name == 'parse_check_result':
            eng.check_p(s, eq(dl, g['delimiter']), fn + ': fields are separated by the configured delimiter', ['C13'])
        z = g['snap']
        c, ln = CF(eng, z, 'command'), CF(eng, z, 'command_length')
        L = g['cmdlen']
        eng.check_p(z, And(ptr_eq(c, g['cmd']), eq(ln, add(L, 1))), fn + ': the command is kept with its size', C14)
        eng.check_p(z, And(live(z, g['cmd']), eng.forall_bytes(lambda k: eq(eng.byte_at(z, Ptr(c.obj, k)), g['CMD'](toz(k))), 0, L),
                           eq(eng.byte_at(z, Ptr(c.obj, L)), 10)), fn + ': exactly one newline is added to the command', C14)
        pcs = [q for o in g['out'] for q in o]
        ok = len(pcs) == 3 and pcs[0] == ('lit', b'PUSH ') and pcs[1][0] == 'num' and pcs[1][2] in ('u', 'd') and pcs[2] == ('lit', b'\r\n')
        eng.check_p(z, ok, fn + ': PUSH announces a size', C14 + C16)
        if ok:
            eng.check_p(z, eq(pcs[1][1], ln), fn + ': the announced size is the size of the data', C14)
    eng.check_p(st, sent > 0 and skipped > 0, fn + ': records are sent, empty ones skipped', C14)


def okay(eng, s0, line):
    n = eng.strlen_of(s0, line)
    return And(eq(n, 4), lower_is(eng, s0, line, 'OKAY'))


@task('client.push', ['C14', 'C16'], CLI)
def t_push(T):
    roles = discover(T)
    eng = T_eng(T)
    st = eng.start()
    client, tls = mk(eng, st)
    cmd, n = command(eng, st, client)
    line = eng.new_string(st, 'line')
    s0 = st.copy()
    ok = okay(eng, s0, line)
    w0 = st.objs[cmd.obj].writes
    fn = 'PUSH response handler'
    for s, _ in T.run(eng, roles['push'], st, [tls, line]):
        eng.cover(s, fn)
        eng.check_p(s, dead(s, line), fn + ': the line is released', C16)
        leaks(eng, s, fn)
        data = [e for e in s.trace if e[0] == 'data']
        if s.ghost['wait'] is not None:
            going_on(eng, s, fn, roles['command'], 'the acknowledgement is waited for')
            eng.check_p(s, ok, fn + ': the command is sent only after the server accepted its announcement', C16)
            eng.check_p(s, len(data) == 1 and flat(s.ghost['out']) == b'', fn + ': the command is sent once', C16 + C14)
            if len(data) == 1:
                eng.check_p(s, And(ptr_eq(data[0][1], cmd), eq(data[0][2], n), data[0][3] is w0),
                            fn + ': exactly the announced bytes are sent', C14 + C16)
        else:
            eng.check_p(s, Not(ok), fn + ': an accepted announcement is not taken for a failure', C16)
            eng.check_p(s, not data, fn + ': a command is not sent if the server refused it', C16)
            failed(eng, s, fn)


@task('client.command', ['C15', 'C16'], CLI)
def t_command(T):
    roles = discover(T)
    eng = T_eng(T)
    st = eng.start()
    client, tls = mk(eng, st)
    line = eng.new_string(st, 'line')
    ok = okay(eng, st.copy(), line)
    fn = 'acknowledgement handler'
    for s, _ in T.run(eng, roles['command'], st, [tls, line]):
        eng.cover(s, fn)
        eng.check_p(s, dead(s, line), fn + ': the line is released', C16)
        leaks(eng, s, fn)
        if s.ghost['wait'] is not None:
            going_on(eng, s, fn, roles['record'], 'the next record is asked for')
            eng.check_p(s, ok, fn + ': the next record is started only after the previous one was acknowledged', C16)
        else:
            eng.check_p(s, Not(ok), fn + ': an acknowledgement is not taken for a failure', C16)
            failed(eng, s, fn)


@task('client.eof', ['C15', 'C16'], CLI)
def t_eof(T):
    roles = discover(T)
    eng = T_eng(T)
    st = eng.start()
    client, tls = mk(eng, st)
    st.ghost['at_eof'] = True
    fn = 'end-of-input handler'
    for s, _ in T.run(eng, roles['eof'], st, [st.ghost['input']]):
        eng.cover(s, fn)
        leaks(eng, s, fn)
        going_on(eng, s, fn, roles['quit'], 'the answer to QUIT is waited for')
        eng.check_p(s, flat(s.ghost['out']) == b'QUIT\r\n', fn + ': QUIT is sent', C16)
        z = s.ghost['snap']
        if z is not None:
            eng.check_p(z, eq(CF(eng, z, 'input').obj, 0), fn + ': the client forgets the input, which is released afterwards', C15 + C16)


@task('client.quit', ['C16'], CLI)
def t_quit(T):
    roles = discover(T)
    eng = T_eng(T)
    st = eng.start()
    client, tls = mk(eng, st, False)
    line = eng.new_string(st, 'line')
    ok = okay(eng, st.copy(), line)
    fn = 'QUIT response handler'
    good = bad = 0
    for s, _ in T.run(eng, roles['quit'], st, [tls, line]):
        eng.cover(s, fn)
        eng.check_p(s, dead(s, line), fn + ': the line is released', C16)
        leaks(eng, s, fn)
        over(eng, s, fn, 'at the end')
        c = exit_code(eng, s)
        if is_c(c) and c == 0:
            good += 1
        else:
            bad += 1
        eng.check_p(s, Iff(eq(c, 0), ok), fn + ': the exit status is zero exactly if the server acknowledged QUIT', C16)
    eng.check_p(st, good > 0 and bad > 0, fn + ': both outcomes are possible', C16)
