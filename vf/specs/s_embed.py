"""python/client.c and perl/client.c: the client code embedded in the Python and Perl modules; python/nscang.c (C24)"""
from vtask import *
from libc import *
import libc

C24 = ['C24']
LANG = {'py': ['python/client.c'], 'pl': ['perl/client.c']}
CT = 'nscang_client_t'
OKAY, MOIN = 2, 1
S_NONE, S_NEW, S_MOIN = 0, 1, 2


def each(name, props=C24, **kw):
    """one task per language"""
    def d(fn):
        for l, units in LANG.items():
            task('embed.%s_%s' % (name, l), props, units, **kw)(lambda T, l=l, fn=fn: fn(T, l))
        return fn
    return d


def CF(eng, s, n):
    return eng.fld(s, s.ghost['c'], CT, n)


def mk_client(eng, st, state=None, ssl=True):
    """a connection satisfying the invariant: strings terminated, state valid"""
    c = eng.new_struct(st, CT, 'param', 'connection')
    sp = eng.new_obj(st, 1, 'heap', 'ssl', meta={'ssl': True}) if ssl else NULL
    bp = eng.new_obj(st, 1, 'heap', 'bio', meta={'bio': True}) if ssl else NULL
    ident, psk = eng.new_string(st, 'identity', 'heap'), eng.new_string(st, 'psk', 'heap')
    for n, v in (('ssl', sp), ('bio', bp), ('identity', ident), ('psk', psk)):
        eng.setfld(st, c, CT, n, v)
    if state is None:
        state = fresh_int('state')
        st.assume(state >= 0, state <= 2)
    eng.setfld(st, c, CT, 'state', state)
    es = eng.fldptr(c, CT, 'errstr')
    n = fresh_int('errlen')
    st.assume(n >= 0, n < 1024)
    eng.wr(st, Ptr(es.obj, add(es.off, n)), CHAR, 0)
    e0 = fresh_int('errno0')
    st.assume(e0 >= 0, e0 <= 200)
    eng.setfld(st, c, CT, '_errno', e0)
    st.ghost.update(c=c, ssl=sp, bio=bp, ident=ident, psk=psk)
    return c


def check_errstr(eng, s, fn):
    """the error text is a terminated string"""
    es = eng.fldptr(s.ghost['c'], CT, 'errstr')
    pos = [add(es.off, 1023)] + [h for o, h in s.hints if is_c(o) and o == es.obj]
    f = Or(*[And(ge(h, es.off), lt(h, add(es.off, 1024)), eq(eng.byte_at(s, Ptr(es.obj, h)), 0)) for h in pos])
    eng.check_p(s, f, fn + ': the error text stays a terminated string', C24)


def same_conn(eng, st, p, node, what):
    eng.check_p(st, ptr_eq(p, st.ghost['c']), what + ': called for the connection', C24, 'pre', node)


def is_ssl(eng, st, p, node, what):
    eng.check_p(st, And(ptr_eq(p, st.ghost['ssl']), ne(p.obj, 0)), what + ': the connection\'s live TLS object', C24, 'pre', node)


def c_bio_flags(eng, st, a, node):
    eng.check_p(st, And(ptr_eq(a[0], st.ghost['bio']), ne(a[0].obj, 0)), 'BIO_test_flags(): the connection\'s live BIO', C24, 'pre', node)
    r = fresh_int('bioflags')
    st.assume(r >= 0, r <= 255)
    m = a[1]
    if is_c(m) and m == 8:      # BIO_should_retry()
        st.assume(Or(eq(r, 0), eq(r, 8)))
        st.ghost['retry'] = r
    return [(st, r)]


def c_get_error(eng, st, a, node):
    is_ssl(eng, st, a[0], node, 'SSL_get_error()')
    r = fresh_int('sslerr')
    st.assume(r >= 1, r <= 8)
    st.ghost['retry'] = Ite(Or(eq(r, 2), eq(r, 3), eq(r, 7)), 1, 0)
    return [(st, r)]


def c_bio_ctrl(eng, st, a, node):
    eng.check_p(st, And(ptr_eq(a[0], st.ghost['bio']), ne(a[0].obj, 0)), 'BIO_ctrl(): the connection\'s live BIO', C24, 'pre', node)
    r = fresh_int('bioctl')
    st.assume(r >= -1, r <= 1048576)
    return [(st, r)]


def c_want(eng, st, a, node):
    is_ssl(eng, st, a[0], node, 'SSL_want()')
    r = fresh_int('want')
    st.assume(r >= 1, r <= 8)
    return [(st, r)]


def c_poll(eng, st, a, node):
    eng.check_p(st, eq(a[1], 1), 'poll(): one descriptor', C24, 'pre', node)
    need_bytes(eng, st, a[0], eng.recsize('pollfd'), node, 'poll() descriptors', write=True)
    g = st.ghost
    if 'deadline' in g:
        eng.check_p(st, And(eq(g['polls'], 0), le(g['clock'], g['deadline'])), 'waits again only after having seen that the time limit has not passed', C24, 'pre', node)
        eng.check_p(st, And(ge(a[2], 0), le(a[2], 1000)), 'each wait is short', C24, 'pre', node)
        g['polls'] = add(g['polls'], 1)
    v = fresh_int('revents')
    st.assume(v >= -32768, v <= 32767)
    eng.setfld(st, a[0], 'pollfd', 'revents', v)
    libc.set_errno(eng, st)
    r = fresh_int('poll')
    st.assume(r >= -1, r <= 1)
    return [(st, r)]


def c_select(eng, st, a, node):
    raise Unsupported('select()')


def c_lock(eng, st, a, node, again=False):
    """taken, busy (EBUSY; for reading also EAGAIN), or - only for a lock that is invalid or held by this thread already - another error"""
    eng.check_p(st, not st.ghost.get('locked'), 'the registry lock is not taken twice', C24, 'pre', node)
    busy, bad = st.copy(), st.copy()
    st.ghost['locked'] = True
    r = fresh_int('busy')
    busy.assume(Or(And(again, eq(r, 11)), eq(r, 16)))
    e = fresh_int('lockerr')
    bad.assume(e >= 1, e <= 133, ne(e, 11), ne(e, 16))
    bad.ghost['lockfail'] = True
    return [(st, 0), (busy, r), (bad, e)]


def c_unlock(eng, st, a, node):
    eng.check_p(st, st.ghost.get('locked') is True, 'only a lock that is held is released', C24, 'pre', node)
    st.ghost['locked'] = False
    return [(st, 0)]


def registry_access(eng, st, lang, node, what):
    if lang == 'py':
        eng.check_p(st, st.ghost.get('locked') is True, what + ': under the lock', C24, 'pre', node)


BASE = {'BIO_test_flags': c_bio_flags, 'BIO_ctrl': c_bio_ctrl, 'SSL_want': c_want, 'SSL_get_error': c_get_error, 'poll': c_poll, 'select': c_select,
        'pthread_rwlock_rdlock': lambda e, s, a, n: c_lock(e, s, a, n, True), 'pthread_rwlock_wrlock': c_lock, 'pthread_rwlock_unlock': c_unlock}
LOOPS = {'*': LoopSpec(auto=False)}


def timed(inv=lambda L: [], cands=(), auto=True):
    """loop that must observe the deadline"""
    def havoc(L):
        g = L.S.ghost
        if 'deadline' in g:
            g['polls'], g['clock'] = fresh_int('polls'), fresh_int('clock')
            L.S.assume(g['polls'] >= 0, g['polls'] <= 1)
    return LoopSpec(inv=lambda L: list(inv(L)) + [('waits are counted', And(ge(L.S.ghost['polls'], 0), le(L.S.ghost['polls'], 1)))], post_havoc=havoc, auto=auto,
                    cands=list(cands) + [('no wait since the clock was read', lambda s: eq(s.ghost['polls'], 0)),
                                         ('within the time limit', lambda s: le(s.ghost['clock'], s.ghost.get('deadline', s.ghost['clock'])))])


def c_clock(eng, st, a, node):
    g = st.ghost
    t = fresh_int('now')
    st.assume(t >= 0, t < (1 << 40))
    if not (is_c(a[0].obj) and a[0].obj == 0):
        need_bytes(eng, st, a[0], 8, node, 'time()', write=True)
        eng.wr(st, a[0], cfront.LONG, t)
    if 'deadline' not in g:
        g['deadline'] = add(t, g['tmo'])
    else:
        st.assume(t >= g['clock'])
    g['clock'] = t
    g['polls'] = 0
    return [(st, t)]


# ---------------------------------------------------------------- set_psk()
@each('psk')
def t_psk(T, lang):
    def c_find(eng, st, a, node):
        g = st.ghost
        registry_access(eng, st, lang, node, 'lookup')
        k = eng.rd(st, a[1], cfront.ptr(cfront.VOID))
        eng.check_p(st, And(ptr_eq(k, g['key']), eq(a[2], 8)), 'the connection is looked up by its TLS object', C24, 'pre', node)
        none = st.copy()
        g['found'] = True
        return [(st, g['c']), (none, NULL)]
    eng = T.eng(contracts=dict(BASE, vf_hash_find=c_find), loops=LOOPS)
    st = eng.start()
    c = mk_client(eng, st)
    g = st.ghost
    g['key'] = eng.new_obj(st, 1, 'heap', 'this ssl')
    mi, mp = fresh_int('max_identity'), fresh_int('max_psk')
    st.assume(mi >= 1, mi <= 4294967295, mp >= 1, mp <= 4294967295)
    bi, bp = eng.new_obj(st, mi, 'param', 'identity buffer'), eng.new_obj(st, mp, 'param', 'key buffer')
    hint = eng.new_string(st, 'hint', 'param')
    il, pl = eng.strlen_of(st, g['ident']), eng.strlen_of(st, g['psk'])
    s0 = st.copy()
    for s, r in T.run(eng, 'set_psk', st, [g['key'], hint, bi, mi, bp, mp]):
        fn = 'set_psk'
        r = ival(r)
        if s.ghost.get('found'):
            eng.cover(s, 'connection found')
            for buf, src, n, mx, lab in ((bi, g['ident'], il, mi, 'identity'), (bp, g['psk'], pl, mp, 'key')):
                m = Ite(lt(n, mx), n, sub(mx, 1))
                eng.check_p(s, And(eq(eng.byte_at(s, Ptr(buf.obj, m)), 0), eng.forall_bytes(
                    lambda k: eq(eng.byte_at(s, Ptr(buf.obj, k)), eng.byte_at(s0, Ptr(src.obj, k))), 0, m)),
                    fn + ': the %s is the configured one, cut to the buffer' % lab, C24)
            eng.check_p(s, eq(r, Ite(lt(pl, mp), pl, sub(mp, 1))), fn + ': the length of the key is returned', C24)
        else:
            eng.cover(s, 'no connection')
            eng.check_p(s, eq(r, 0), fn + ': no key for an unknown connection', C24)
        eng.check_p(s, not s.ghost.get('locked'), fn + ': the lock is released', C24)


# ---------------------------------------------------------------- nscang_client_write()
@each('write')
def t_write(T, lang):
    def c_ssl_write(eng, st, a, node):
        g = st.ghost
        is_ssl(eng, st, a[0], node, 'SSL_write()')
        eng.check_p(st, And(ptr_eq(a[1], g['buf']), eq(a[2], g['len'])), 'SSL_write(): exactly the given data', C24, 'pre', node)
        eng.check_p(st, eq(g['accepted'], 0), 'SSL_write(): nothing is sent twice', C24, 'pre', node)
        need_bytes(eng, st, a[1], a[2], node, 'SSL_write')
        r = fresh_int('written')
        st.assume(r >= -1, le(r, a[2]))
        ok, bad = eng.split(st, r > 0, node)
        for x in ok:
            x.assume(eq(r, a[2]))       # without SSL_MODE_ENABLE_PARTIAL_WRITE
            x.ghost['accepted'] = 1
        return [(x, r) for x in ok + bad]
    eng = T.eng(contracts=dict(BASE, SSL_write=c_ssl_write, time=c_clock), loops={'*': lambda e, s: timed(
        inv=lambda L: [('nothing has been sent yet', eq(L.S.ghost['accepted'], 0))], auto=False)})
    st = eng.start()
    c = mk_client(eng, st)
    n = fresh_int('len')
    st.assume(n >= 1, n <= 2147483647)
    buf = eng.new_obj(st, n, 'param', 'data')
    tmo = fresh_int('timeout')
    st.assume(tmo >= -2147483648, tmo <= 2147483647)
    st.ghost.update(buf=buf, len=n, accepted=0, tmo=tmo, polls=0, clock=0, retry=1)
    w0 = st.objs[buf.obj].writes
    for s, r in T.run(eng, 'nscang_client_write', st, [c, buf, n, tmo]):
        fn = 'nscang_client_write'
        eng.cover(s, fn)
        eng.check_p(s, Iff(ne(r, 0), eq(s.ghost['accepted'], 1)), fn + ': reports success only if the data was sent, once', C24)
        eng.check_p(s, Implies(eq(r, 0), ne(CF(eng, s, '_errno'), 0)), fn + ': a failure has a reason', C24)
        eng.check_p(s, Implies(eq(r, 0), Or(eq(s.ghost['retry'], 0), gt(s.ghost['clock'], s.ghost.get('deadline', s.ghost['clock'])))), fn + ': gives up only after a permanent failure or when the time is over', C24)
        eng.check_p(s, s.objs[buf.obj].writes is w0, fn + ': the data is not modified', C24)
        check_errstr(eng, s, fn)


# ---------------------------------------------------------------- nscang_client_response()
def c_write_any(eng, st, a, node):
    same_conn(eng, st, a[0], node, 'nscang_client_write()')
    need_bytes(eng, st, a[1], a[2], node, 'nscang_client_write')
    eng.check_p(st, ge(a[2], 1), 'nscang_client_write(): there is data to send', C24, 'pre', node)
    ok = st.copy()
    e = fresh_int('errno')
    st.assume(e >= 1, e <= 200)
    eng.setfld(st, a[0], CT, '_errno', e)
    return [(ok, 1), (st, 0)]


def c_disconnect(eng, st, a, node):
    same_conn(eng, st, a[0], node, 'nscang_client_disconnect()')
    eng.check_p(st, ne(CF(eng, st, 'ssl').obj, 0), 'nscang_client_disconnect(): there is a TLS object', C24, 'pre', node)
    eng.setfld(st, a[0], CT, 'state', S_NEW)
    e = fresh_int('errno')
    st.assume(e >= 0, e <= 200)
    eng.setfld(st, a[0], CT, '_errno', e)
    st.ghost['disconnected'] = True
    return [(st, None)]


@each('response', weight=3)
def t_response(T, lang):
    R = fresh_fun('R', I, I)

    def c_ssl_read(eng, st, a, node):
        g = st.ghost
        is_ssl(eng, st, a[0], node, 'SSL_read()')
        eng.check_p(st, ge(a[2], 1), 'SSL_read(): there is room', C24, 'pre', node)
        need_bytes(eng, st, a[1], a[2], node, 'SSL_read', write=True)
        bad = st.copy()
        r = fresh_int('received')
        st.assume(r >= 1, le(r, a[2]))
        n0 = g['rcvd']
        eng.wr_bulk(st, a[1], 'copy', r, lambda k: R(toz(add(n0, k))))
        g['rcvd'] = add(n0, r)
        e = fresh_int('readerr')
        bad.assume(e >= -1, e <= 0)
        bad.ghost['bad'] = True
        return [(st, r), (bad, e)]

    def spec(eng, st):
        fr = st.frames[-1]
        bufs = [(nm, oid) for nm, lst in fr.names.items() for oid, t in lst if t.k == 'array' and t.to.size == 1]
        cands = [('%s holds what was received' % nm, lambda s, oid=oid: eng.forall_bytes(
            lambda k: eq(eng.byte_at(s, Ptr(oid, k)), R(toz(k))), 0, s.ghost['rcvd'])) for nm, oid in bufs]
        cands += [('%s has room' % nm, lambda s, oid=oid: lt(s.ghost['rcvd'], s.objs[oid].size)) for nm, oid in bufs]
        return timed(inv=lambda L: [('bytes are received in order', ge(L.S.ghost['rcvd'], 0))], cands=cands)
    eng = T.eng(contracts=dict(BASE, SSL_read=c_ssl_read, nscang_client_write=c_write_any, nscang_client_disconnect=c_disconnect, time=c_clock), loops={'*': spec})
    st = eng.start()
    c = mk_client(eng, st)
    k = z3.Int('kr')
    st.assume(z3.ForAll([k], z3.And(R(k) >= 0, R(k) <= 255), patterns=[R(k)]))
    tmo = fresh_int('timeout')
    st.assume(tmo >= -2147483648, tmo <= 2147483647)
    st.ghost.update(rcvd=0, tmo=tmo, polls=0, clock=0, retry=1)
    eng.recog = True
    starts = lambda t: And(*[eq(R(z3.IntVal(i)), ch) for i, ch in enumerate(t)])
    seen = set()
    for s, r in T.run(eng, 'nscang_client_response', st, [c, tmo]):
        fn = 'nscang_client_response'
        r = ival(r)
        n = s.ghost['rcvd']
        for val, text, lab in ((OKAY, b'OKAY', 'okay'), (MOIN, b'MOIN 1', 'moin')):
            if eng.feasible(s, eq(r, val)):
                x = s.copy()
                x.assume(eq(r, val))
                seen.add(val)
                eng.cover(x, lab)
                eng.check_p(x, And(ge(n, len(text)), starts(text)), fn + ': reports %s only if that was the answer' % text.decode(), C24)
                eng.check_p(x, eq(R(toz(sub(n, 1))), 10), fn + ': only a complete line is an answer', C24)
                if val == MOIN:
                    b = R(z3.IntVal(6))
                    eng.check_p(x, Or(eq(b, 0), eq(b, 10), eq(b, 13)), fn + ': only version 1 of the protocol is accepted', C24)
        eng.check_p(s, Or(eq(r, 0), eq(r, OKAY), eq(r, MOIN)), fn + ': anything else is an error', C24)
        eng.check_p(s, Implies(eq(r, 0), ne(CF(eng, s, '_errno'), 0)), fn + ': an error has a reason', C24)
        late = gt(s.ghost['clock'], s.ghost.get('deadline', s.ghost['clock']))
        eng.check_p(s, Implies(And(eq(r, 0), Or(eq(n, 0), ne(R(toz(sub(n, 1))), 10))), Or(eq(s.ghost['retry'], 0), late, ge(n, 1024))),
                    fn + ': gives up waiting only after a permanent failure, when the time is over or when the answer is too long', C24)
        if eng.feasible(s, eq(r, 0)):
            for line in (b'OKAY\n', b'OKAY\r\n', b'MOIN 1\n', b'MOIN 1\r\n'):
                eng.check_p(s, Not(And(eq(r, 0), eq(n, len(line)), starts(line), le(s.ghost['clock'], s.ghost['deadline']), Or(s.ghost.get('bad') is not True, ne(s.ghost['retry'], 0)))), fn + ': a good answer is not taken for an error', C24)
        check_errstr(eng, s, fn)
    eng.check_p(st, seen == {OKAY, MOIN}, 'nscang_client_response: both answers are recognised', C24)


# ---------------------------------------------------------------- the conversation
class Conv:
    """ghost protocol: what was written, what was answered"""

    @staticmethod
    def write(eng, st, a, node):
        g = st.ghost
        same_conn(eng, st, a[0], node, 'nscang_client_write()')
        eng.check_p(st, ge(a[2], 1), 'nscang_client_write(): there is data to send', C24, 'pre', node)
        need_bytes(eng, st, a[1], a[2], node, 'nscang_client_write')
        eng.check_p(st, g['pending'] is False, 'the answer to each message is awaited', C24, 'pre', node)
        eng.check_p(st, ptr_eq(CF(eng, st, 'ssl'), g['ssl']), 'the connection is intact', C24, 'pre', node)
        bad = st.copy()
        g['sent'] = g['sent'] + ((a[1], a[2], st.copy()),)
        g['pending'] = True
        e = fresh_int('errno')
        bad.assume(e >= 1, e <= 200)
        eng.setfld(bad, a[0], CT, '_errno', e)
        bad.ghost['failed'] = True
        return [(st, 1), (bad, 0)]

    @staticmethod
    def response(eng, st, a, node):
        g = st.ghost
        same_conn(eng, st, a[0], node, 'nscang_client_response()')
        eng.check_p(st, g['pending'] is True, 'an answer is awaited only after a message', C24, 'pre', node)
        out = []
        for r in (OKAY, MOIN, 0):
            x = st.copy()
            x.ghost['pending'] = False
            x.ghost['answers'] = g['answers'] + (r,)
            if r == 0:
                e, es = fresh_int('errno'), fresh_int('state')
                x.assume(e >= 1, e <= 200, Or(eq(es, S_NEW), eq(es, CF(eng, st, 'state'))))
                eng.setfld(x, a[0], CT, '_errno', e)
                eng.setfld(x, a[0], CT, 'state', es)
            out.append((x, r))
        return out

    @staticmethod
    def moin(eng, st, a, node):
        """verified by embed.moin"""
        g = st.ghost
        same_conn(eng, st, a[0], node, 'nscang_client_send_moin()')
        eng.check_p(st, g['pending'] is False and not g['sent'], 'the greeting comes first', C24, 'pre', node)
        g['moined'] = True
        bad = st.copy()
        e, es = fresh_int('errno'), fresh_int('state')
        bad.assume(e >= 1, e <= 200, es >= 0, es <= 1)
        eng.setfld(bad, a[0], CT, '_errno', e)
        eng.setfld(bad, a[0], CT, 'state', es)
        bad.ghost['failed'] = True
        eng.setfld(st, a[0], CT, 'state', S_MOIN)
        g['moin'] = True
        return [(st, 1), (bad, 0)]


CONV = {'nscang_client_write': Conv.write, 'nscang_client_response': Conv.response}


@each('moin')
def t_moin(T, lang):
    eng = T.eng(contracts=dict(BASE, srandom=lambda e, s, a, n: [(s, None)], random=c_random, **CONV))
    st = eng.start()
    c = mk_client(eng, st)
    s0 = st.copy()
    st0 = CF(eng, st, 'state')
    st.ghost.update(sent=(), answers=(), pending=False)
    tmo = fresh_int('timeout')
    st.assume(tmo >= -2147483648, tmo <= 2147483647)
    fn = 'nscang_client_send_moin'
    for s, r in T.run(eng, fn, st, [c, tmo]):
        g = s.ghost
        eng.cover(s, fn)
        if g['sent'] or g['answers']:
            eng.check_p(s, And(eq(st0, S_NEW), len(g['sent']) == 1), fn + ': one greeting for a new connection', C24)
            p, n, x = g['sent'][0]
            txt = b'MOIN 1 '
            eng.check_p(x, And(ge(n, len(txt) + 2), *[eq(eng.byte_at(x, Ptr(p.obj, add(p.off, i))), ch) for i, ch in enumerate(txt)]), fn + ': sends MOIN 1', C24)
            eng.check_p(x, And(eq(eng.byte_at(x, Ptr(p.obj, add(p.off, sub(n, 1)))), 10), eng.forall_bytes(
                lambda k: And(ne(eng.byte_at(x, Ptr(p.obj, add(p.off, k))), 10), ne(eng.byte_at(x, Ptr(p.obj, add(p.off, k))), 0)), 0, sub(n, 1))), fn + ': sends one line', C24)
            eng.check_p(s, Iff(ne(r, 0), g['answers'] == (MOIN,)), fn + ': success only if the server answered MOIN', C24)
        else:
            eng.check_p(s, Implies(ne(r, 0), eq(st0, S_MOIN)), fn + ': no greeting only if it was exchanged before', C24)
        eng.check_p(s, Implies(ne(r, 0), eq(CF(eng, s, 'state'), S_MOIN)), fn + ': afterwards the session is established', C24)
        eng.check_p(s, Implies(eq(r, 0), And(ne(CF(eng, s, '_errno'), 0), ne(CF(eng, s, 'state'), S_MOIN))), fn + ': otherwise there is an error', C24)
        check_errstr(eng, s, fn)


def c_random(eng, st, a, node):
    v = fresh_int('random')
    st.assume(v >= 0, v <= 2147483647)
    return [(st, v)]


def announced(eng, s, fn, want):
    """the two messages: PUSH <n>, then the n bytes `want' (pieces)"""
    g = s.ghost
    if g['sent']:
        p, n, x = g['sent'][0]
    if len(g['sent']) < 2:
        return
    eng.check_p(s, len(g['sent']) == 2 and g['answers'][:1] == (OKAY,), fn + ': the command is sent after its announcement was accepted', C24)
    q, m, y = g['sent'][1]
    z = s.copy()
    e, t = libc.build_string(eng, z, want, 'expected command')
    eng.check_p(z, eq(m, t), fn + ': as many bytes are sent as the command has', C24)
    eng.check_p(z, eng.forall_bytes(lambda k: eq(eng.byte_at(y, Ptr(q.obj, add(q.off, k))), eng.byte_at(z, Ptr(e.obj, k))), 0, t),
                fn + ': exactly the command is sent, terminated by one newline', C24)
    ok = False
    for nl in (b'\n', b'\r\n'):
        z = s.copy()
        z.assume(libc.numlen(m) >= 1, libc.numlen(m) <= 22)
        e, t = libc.build_string(eng, z, [('lit', b'PUSH '), ('num', m, 'd'), ('lit', nl)], 'expected announcement')
        f = And(eq(n, t), eng.forall_bytes(lambda k: eq(eng.byte_at(x, Ptr(p.obj, add(p.off, k))), eng.byte_at(z, Ptr(e.obj, k))), 0, t))
        if eng.proves(z, f, 4000, True):
            ok = True
            break
    eng.check_p(s, ok, fn + ': exactly the number of bytes sent is announced', C24)


def closing(eng, s, r, fn, s0):
    g = s.ghost
    done = len(g['sent']) == 2 and g['answers'] == (OKAY, OKAY)
    eng.check_p(s, Iff(ne(r, 0), done), fn + ': success is reported if and only if the server answered OKAY to announcement and command', C24)
    eng.check_p(s, Implies(eq(r, 0), ne(CF(eng, s, '_errno'), 0)), fn + ': an error has a reason', C24)
    eng.check_p(s, not [o for i, o in s.objs.items() if o.kind == 'heap' and o.alive is True and i not in s0.objs], fn + ': temporary memory is released', C24)
    check_errstr(eng, s, fn)


def now(s):
    t = [e for e in s.trace if e[0] == 'time']
    return ival(toz(t[-1][1]) % 4294967296) if t else None


def result_pieces(s, host, service, status, message, stamp):
    st = lambda p, n: ('str', p, n, s)
    out = [('lit', b'['), ('num', stamp, 'u'), ('lit', b'] ')] if stamp is not None else []
    if service is None:
        return out + [('lit', b'PROCESS_HOST_CHECK_RESULT;'), st(*host), ('lit', b';'), ('num', status, 'd'), ('lit', b';'), st(*message)]
    return out + [('lit', b'PROCESS_SERVICE_CHECK_RESULT;'), st(*host), ('lit', b';'), st(*service), ('lit', b';'), ('num', status, 'd'), ('lit', b';'), st(*message)]


def start_push(eng, lang):
    st = eng.start()
    mk_client(eng, st)
    status, tmo = fresh_int('status'), fresh_int('timeout')
    st.assume(status >= -2147483648, status <= 2147483647, tmo >= -2147483648, tmo <= 2147483647)
    strs = []
    for n in ('host', 'service', 'message'):
        p = eng.new_string(st, n, 'param')
        ln = eng.strlen_of(st, p)
        st.assume(ln < (1 << 60))
        strs.append((p, ln))
    st.ghost.update(sent=(), answers=(), pending=False)
    return st, strs, status, tmo


def c_snprintf(eng, st, a, node):
    """texts longer than INT_MAX: -1 (EOVERFLOW)"""
    out = []
    for s, r in libc.h_snprintf(eng, st, a, node):
        big = lt(2147483647, r)
        x, y = eng.split(s, big, node)
        out += [(i, -1) for i in x] + [(i, r) for i in y]
    return out


@task('embed.push_py', C24, LANG['py'], weight=3)
def t_push_py(T):
    fn = 'nscang_client_send_push'
    for service in (False, True):
        eng = T.eng(contracts=dict(BASE, nscang_client_send_moin=Conv.moin, snprintf=c_snprintf, **CONV))
        st, (h, sv, m), status, tmo = start_push(eng, 'py')
        s0 = st.copy()
        for s, r in T.run(eng, fn, st, [st.ghost['c'], h[0], sv[0] if service else NULL, status, m[0], tmo]):
            eng.cover(s, fn)
            t = now(s)
            eng.check_p(s, t is not None or not s.ghost['sent'], fn + ': the command carries the time', C24)
            if t is not None:
                s.assume(libc.numlen(t) >= 1, libc.numlen(t) <= 22, libc.numlen(status) >= 1, libc.numlen(status) <= 22)
                announced(eng, s, fn, result_pieces(s0, h, sv if service else None, status, m, t) + [('lit', b'\n')])
            closing(eng, s, r, fn, s0)


@task('embed.command_pl', C24, LANG['pl'], weight=3)
def t_command_pl(T):
    fn = 'nscang_client_send_command'
    eng = T.eng(contracts=dict(BASE, nscang_client_send_moin=Conv.moin, snprintf=c_snprintf, **CONV))
    st, (cmd, _, _), status, tmo = start_push(eng, 'pl')
    s0 = st.copy()
    b = lambda k: eng.byte_at(s0, Ptr(cmd[0].obj, k))
    stamped = eq(b(0), 91)
    ended = And(gt(cmd[1], 0), eq(b(sub(cmd[1], 1)), 10))
    for s, r in T.run(eng, fn, st, [st.ghost['c'], cmd[0], tmo]):
        eng.cover(s, fn)
        t = now(s)
        if len(s.ghost['sent']) == 2:
            for pre in (True, False):
                for nl in (True, False):
                    cond = And(stamped if pre else Not(stamped), ended if nl else Not(ended))
                    if not eng.feasible(s, cond):
                        continue
                    x = s.copy()
                    x.assume(cond)
                    eng.check_p(x, pre or t is not None, fn + ': a command without time stamp gets one', C24)
                    want = [('str', cmd[0], cmd[1], s0)] + ([] if nl else [('lit', b'\n')])
                    if not pre:
                        if t is None:
                            continue
                        x.assume(libc.numlen(t) >= 1, libc.numlen(t) <= 22)
                        want = [('lit', b'['), ('num', t, 'u'), ('lit', b'] ')] + want
                    announced(eng, x, fn, want)
        closing(eng, s, r, fn, s0)
        digit = lambda c: And(ge(c, 48), le(c, 57))
        if s.ghost['sent']:
            eng.check_p(s, Implies(stamped, digit(b(1))), fn + ': a malformed time stamp is rejected', C24)
            eng.check_p(s, Not(And(stamped, digit(b(1)), Not(digit(b(2))), ne(b(2), 93))), fn + ': a malformed time stamp is rejected', C24)
        elif s.ghost.get('moined') is not True:
            eng.check_p(s, Implies(eq(CF(eng, s, '_errno'), 8), Not(Or(Not(stamped), And(digit(b(1)), eq(b(2), 93))))), fn + ': a good time stamp is not rejected', C24)


@task('embed.push_pl', C24, LANG['pl'], weight=2)
def t_push_pl(T):
    fn = 'nscang_client_send_push'

    def c_command(eng, st, a, node):
        """verified by embed.command_pl"""
        g = st.ghost
        same_conn(eng, st, a[0], node, 'nscang_client_send_command()')
        eng.check_p(st, 'result' not in g, 'one command is sent', C24, 'pre', node)
        n = eng.strlen_of(st, a[1], node, 'nscang_client_send_command')
        z = st.copy()
        z.assume(libc.numlen(g['status']) >= 1, libc.numlen(g['status']) <= 22)
        e, t = libc.build_string(eng, z, g['want'], 'expected command')
        eng.check_p(z, And(eq(n, t), eng.forall_bytes(
            lambda k: eq(eng.byte_at(z, Ptr(a[1].obj, add(a[1].off, k))), eng.byte_at(z, Ptr(e.obj, k))), 0, t)), 'exactly the command is sent', C24, 'pre', node)
        eng.check_p(st, eq(a[2], g['tmo']), 'the given timeout', C24, 'pre', node)
        r = fresh_int('result')
        st.assume(r >= 0, r <= 1)
        ee = fresh_int('errno')
        st.assume(ee >= 1, ee <= 200)
        eng.setfld(st, a[0], CT, '_errno', ee)
        g['result'] = r
        return [(st, r)]
    for service in (False, True):
        eng = T.eng(contracts=dict(BASE, nscang_client_send_command=c_command, snprintf=c_snprintf))
        st, (h, sv, m), status, tmo = start_push(eng, 'pl')
        s0 = st.copy()
        st.ghost.update(want=result_pieces(s0, h, sv if service else None, status, m, None), status=status, tmo=tmo)
        for s, r in T.run(eng, fn, st, [st.ghost['c'], h[0], sv[0] if service else NULL, status, m[0], tmo]):
            eng.cover(s, fn)
            eng.check_p(s, eq(r, s.ghost.get('result', 0)), fn + ': reports the result of sending the command', C24)
            eng.check_p(s, Implies(eq(r, 0), ne(CF(eng, s, '_errno'), 0)), fn + ': an error has a reason', C24)
            eng.check_p(s, not [o for i, o in s.objs.items() if o.kind == 'heap' and o.alive is True and i not in s0.objs], fn + ': temporary memory is released', C24)
            check_errstr(eng, s, fn)


# ---------------------------------------------------------------- nscang_client_disconnect(), nscang_client_send_quit()
def c_ssl_op(name):
    def h(eng, st, a, node):
        is_ssl(eng, st, a[0], node, name + '()')
        r = fresh_int(name)
        st.assume(r >= -1, r <= 1)
        st.ghost['ops'] = st.ghost.get('ops', ()) + (name,)
        return [(st, r)]
    return h


SSLOPS = {n: c_ssl_op(n) for n in ('SSL_shutdown', 'SSL_clear')}


@each('disconnect')
def t_disconnect(T, lang):
    def c_quit(eng, st, a, node):
        same_conn(eng, st, a[0], node, 'nscang_client_send_quit()')
        eng.check_p(st, not st.ghost.get('ops'), 'QUIT is sent before the connection is shut down', C24, 'pre', node)
        r = fresh_int('quit')
        st.assume(r >= 0, r <= 1)
        e = fresh_int('errno')
        st.assume(e >= 0, e <= 200)
        eng.setfld(st, a[0], CT, '_errno', e)
        st.ghost['quit'] = True
        return [(st, r)]
    eng = T.eng(contracts=dict(BASE, nscang_client_send_quit=c_quit, **SSLOPS))
    st = eng.start()
    c = mk_client(eng, st)
    was = CF(eng, st, 'state')
    fn = 'nscang_client_disconnect'
    for s, r in T.run(eng, fn, st, [c]):
        eng.cover(s, fn)
        eng.check_p(s, eq(CF(eng, s, 'state'), S_NEW), fn + ': the next message starts a new session', C24)
        eng.check_p(s, Implies(eq(was, S_MOIN), s.ghost.get('quit') is True), fn + ': an established session is ended with QUIT', C24)
        eng.check_p(s, 'SSL_clear' in s.ghost.get('ops', ()), fn + ': the TLS object is reset', C24)
        check_errstr(eng, s, fn)

    eng = T.eng(contracts=dict(BASE, **CONV))
    st = eng.start()
    c = mk_client(eng, st)
    st0 = CF(eng, st, 'state')
    st.ghost.update(sent=(), answers=(), pending=False)
    fn = 'nscang_client_send_quit'
    for s, r in T.run(eng, fn, st, [c]):
        eng.cover(s, fn)
        g = s.ghost
        if g['sent']:
            p, n, x = g['sent'][0]
            eng.check_p(s, And(len(g['sent']) == 1, eq(st0, S_MOIN), eq(n, 5), *[eq(eng.byte_at(x, Ptr(p.obj, add(p.off, i))), ch) for i, ch in enumerate(b'QUIT\n')]),
                        fn + ': says QUIT in an established session', C24)
        eng.check_p(s, Implies(ne(r, 0), bool(g['sent'])), fn + ': success only if it was sent', C24)


# ---------------------------------------------------------------- nscang_client_init(), nscang_client_free()
def res_new(key, what):
    def h(eng, st, a, node):
        if what == 'ssl':
            eng.check_p(st, ptr_eq(a[0], st.ghost['ctx']), 'SSL_new(): from the context', C24, 'pre', node)
        none = st.copy()
        none.ghost['cause'] = True
        p = eng.new_obj(st, 1, 'heap', what, meta={what: True})
        st.ghost[key] = p
        return [(st, p), (none, NULL)]
    return h


def alive(s, p):
    return is_c(p.obj) and p.obj in s.objs and s.objs[p.obj].alive is True


def res_free(key, what):
    def h(eng, st, a, node):
        g = st.ghost
        if is_c(a[0].obj) and a[0].obj == 0:
            return [(st, None)]
        eng.check_p(st, And(ptr_eq(a[0], g[key]), alive(st, g[key])), '%s is released once' % what, C24, 'pre', node)
        if alive(st, g[key]):
            st.objs[g[key].obj] = st.objs[g[key].obj].with_(alive=False)
        if key == 'ssl' and g.get('bio_set') and alive(st, g['bio']):
            st.objs[g['bio'].obj] = st.objs[g['bio'].obj].with_(alive=False)
        return [(st, None)]
    return h


def c_set_bio(eng, st, a, node):
    g = st.ghost
    is_ssl(eng, st, a[0], node, 'SSL_set_bio()')
    eng.check_p(st, And(ptr_eq(a[1], g['bio']), ptr_eq(a[2], g['bio']), ne(a[1].obj, 0), not g.get('bio_set')), 'SSL_set_bio(): the connection\'s BIO', C24, 'pre', node)
    g['bio_set'] = True
    return [(st, None)]


def c_cb(eng, st, a, node):
    is_ssl(eng, st, a[0], node, 'SSL_set_psk_client_callback()')
    st.ghost['psk_cb'] = eng.fnnames.get(a[1].obj) if is_c(a[1].obj) else None
    return [(st, None)]


def c_cipher(eng, st, a, node):
    eng.check_p(st, And(ptr_eq(a[0], st.ghost['ctx']), ptr_eq(a[1], st.ghost['ciphers'])), 'SSL_CTX_set_cipher_list(): the given ciphers', C24, 'pre', node)
    eng.check_p(st, ne(a[1].obj, 0), 'SSL_CTX_set_cipher_list(): there are ciphers', C24, 'pre', node)
    bad = st.copy()
    st.ghost['cset'] = True
    bad.ghost['cause'] = True
    return [(st, 1), (bad, 0)]


def c_bio_conn(eng, st, a, node):
    eng.check_p(st, And(ptr_eq(a[0], st.ghost['bio']), ne(a[0].obj, 0)), 'BIO_ctrl(): the connection\'s live BIO', C24, 'pre', node)
    if is_c(a[1]) and a[1] == 100:
        eng.strlen_of(st, a[3], node, 'BIO_set_conn')
        g = st.ghost
        if is_c(a[2]) and a[2] == 0:
            eng.check_p(st, same_text(eng, st, a[3], g['host']), 'BIO_set_conn_hostname(): the given host', C24, 'pre', node)
            g['hostset'] = True
        elif is_c(a[2]) and a[2] == 1:
            fm = libc.made_of(st, a[3])
            eng.check_p(st, decimal(st, fm, g['port']) if g['validport'] else True, 'BIO_set_conn_port(): the given port', C24, 'pre', node)
            g['portset'] = True
    if is_c(a[1]) and a[1] == 102:
        st.ghost['nbio'] = ne(a[2], 0)
    r = fresh_int('bioctl')
    st.assume(r >= -1, r <= 1048576)
    return [(st, r)]


def same_text(eng, st, p, q):
    if is_c(p.obj) and is_c(q.obj) and p.obj == q.obj:
        return eq(p.off, q.off)
    n = eng.strlen_of(st, q)
    return And(eq(eng.strlen_of(st, p), n), eng.forall_bytes(lambda k: eq(eng.byte_at(st, Ptr(p.obj, add(p.off, k))), eng.byte_at(st, Ptr(q.obj, add(q.off, k)))), 0, n))


def decimal(st, fm, v):
    if fm is None:
        return False
    fm = [x for x in fm if x != ('lit', b'')]
    return len(fm) == 1 and fm[0][0] == 'num' and eq(fm[0][1], v)


def mk_hash(lang):
    def c_add(eng, st, a, node):
        g = st.ghost
        registry_access(eng, st, lang, node, 'registration')
        k = eng.rd(st, a[1], cfront.ptr(cfront.VOID))
        eng.check_p(st, And(ptr_eq(a[3], g['c']), ptr_eq(k, g['ssl']), ne(k.obj, 0), eq(a[2], 8), not g.get('registered')),
                    'the connection is registered once, under its TLS object', C24, 'pre', node)
        g['registered'] = True
        set_tbl(eng, st, eng.new_obj(st, 1, 'static2', 'table'))
        return [(st, g['c'])]

    def c_del(eng, st, a, node):
        g = st.ghost
        registry_access(eng, st, lang, node, 'removal')
        eng.check_p(st, And(ptr_eq(a[1], g['c']), g.get('registered') is True), 'only a registered connection is removed from the registry', C24, 'pre', node)
        g['registered'] = False
        return [(st, NULL)]
    return {'vf_hash_add': c_add, 'vf_hash_del': c_del}


def set_tbl(eng, st, v):
    hh = eng.fldptr(st.ghost['c'], CT, 'hh')
    eng.setfld(st, hh, 'UT_hash_handle', 'tbl', v)


def init_contracts(lang):
    none = lambda e, s, a, n: [(s, None)]

    def on_ssl(eng, st, a, node):
        is_ssl(eng, st, a[0], node, 'SSL_set_connect_state()')
        return [(st, None)]

    def some(eng, st, a, node):
        return [(st, eng.new_obj(st, 1, 'static2', 'method'))]
    return dict(BASE, BIO_ctrl=c_bio_conn, SSL_CTX_new=res_new('ctx', 'ctx'), BIO_new=res_new('bio', 'bio'), SSL_new=res_new('ssl', 'ssl'),
                SSL_free=res_free('ssl', 'the TLS object'), SSL_CTX_free=res_free('ctx', 'the TLS context'), SSL_set_bio=c_set_bio,
                BIO_free=res_free('bio', 'the BIO'), BIO_free_all=res_free('bio', 'the BIO'), BIO_vfree=res_free('bio', 'the BIO'),
                SSL_set_connect_state=on_ssl, SSL_set_psk_client_callback=c_cb, SSL_CTX_set_cipher_list=c_cipher,
                SSL_CTX_set_options=lambda e, s, a, n: [(s, fresh_int('opts'))], TLS_client_method=some, SSLv23_client_method=some,
                BIO_s_connect=some, nscang_client_disconnect=c_disconnect, **mk_hash(lang))


@each('init', weight=2)
def t_init(T, lang):
    fn = 'nscang_client_init'
    for withc in (False, True):
        eng = T.eng(contracts=init_contracts(lang), loops=LOOPS)
        st = eng.start()
        c = eng.new_struct(st, CT, 'param', 'connection')
        host, ciph, ident, psk = [eng.new_string(st, n, 'param') for n in ('host', 'ciphers', 'identity', 'psk')]
        il, pl = eng.strlen_of(st, ident), eng.strlen_of(st, psk)
        st.assume(il < (1 << 60), pl < (1 << 60))
        port = fresh_int('port')
        st.assume(port >= -2147483648, port <= 2147483647)
        if withc:       # a port number a connection can be made to (others are cut to five characters)
            st.assume(port >= 1, port <= 65535)
        st.ghost.update(c=c, ssl=NULL, bio=NULL, ctx=NULL, ciphers=ciph if withc else NULL, host=host, port=port, validport=withc)
        s0 = st.copy()
        for s, r in T.run(eng, fn, st, [c, host, port, ciph if withc else NULL, ident, psk]):
            g = s.ghost
            good = eng.proves(s, ne(r, 0))
            eng.cover(s, fn + (': success' if good else ': failure'))
            if good:
                eng.check_p(s, And(ptr_eq(CF(eng, s, 'ssl'), g['ssl']), ptr_eq(CF(eng, s, 'bio'), g['bio']), alive(s, g['ssl']), g.get('bio_set')), fn + ': there is a TLS object with a BIO', C24)
                eng.check_p(s, g.get('registered') is True and g.get('psk_cb') == 'set_psk', fn + ': identity and key can be looked up', C24)
                eng.check_p(s, eq(CF(eng, s, 'state'), S_NEW), fn + ': a new session', C24)
                eng.check_p(s, And(g.get('hostset') is True, g.get('portset') is True), fn + ': the connection goes to the given host and port', C24)
                eng.check_p(s, g.get('nbio', False), fn + ': the connection does not block', C24)
                eng.check_p(s, (g.get('cset') is True) == withc, fn + ': the given ciphers are used', C24)
                for n, src, l in (('identity', ident, il), ('psk', psk, pl)):
                    q = CF(eng, s, n)
                    eng.check_p(s, And(alive(s, q), q.obj != src.obj, eq(eng.strlen_of(s, q), l), eng.forall_bytes(
                        lambda k: eq(eng.byte_at(s, Ptr(q.obj, k)), eng.byte_at(s0, Ptr(src.obj, k))), 0, l)), fn + ': the %s is a copy of the given one' % n, C24)
            else:
                eng.check_p(s, And(eq(r, 0), ne(CF(eng, s, '_errno'), 0)), fn + ': a failure has a reason', C24)
                eng.check_p(s, Or(g.get('cause') is True, g.get('lockfail') is True, any('fails' in d for d in s.desc)), fn + ': fails only if a library call failed', C24)
                eng.check_p(s, eq(CF(eng, s, 'state'), S_NONE), fn + ': no session after a failure', C24)
            check_errstr(eng, s, fn)
            eng.check_p(s, not s.ghost.get('locked'), fn + ': the lock is released', C24)
            # the object can be released afterwards, whatever happened
            free_check(T, eng, s, s0, c)


def free_check(T, eng, s, s0, c):
    fn = 'nscang_client_free'
    had = {k: alive(s, s.ghost.get(k, NULL)) for k in ('ssl', 'ctx')}
    for x, _ in T.run(eng, fn, s.copy(), [c]):
        eng.cover(x, fn)
        eng.check_p(x, And(*[Not(alive(x, x.ghost.get(k, NULL))) for k in ('ssl', 'ctx')]), fn + ': TLS object and context are released', C24)
        eng.check_p(x, And(*[eq(CF(eng, x, k).obj, 0) for k in ('ssl', 'ssl_ctx', 'identity', 'psk')], eq(CF(eng, x, 'state'), S_NONE)), fn + ': nothing released stays referenced', C24)
        left = [o.name for i, o in x.objs.items() if o.kind == 'heap' and o.alive is True and i not in s0.objs and not o.meta.get('bio')]
        eng.check_p(x, not left, fn + ': everything is released', C24)
        eng.check_p(x, Not(x.ghost.get('registered') is True) if not x.ghost.get('lockfail') else True, fn + ': the connection is not registered any more', C24)
        check_errstr(eng, x, fn)


@each('free')
def t_free(T, lang):
    fn = 'nscang_client_free'
    eng = T.eng(contracts=init_contracts(lang), loops=LOOPS)
    st = eng.start()
    c = mk_client(eng, st)
    g = st.ghost
    ctx = eng.new_obj(st, 1, 'heap', 'ctx')
    eng.setfld(st, c, CT, 'ssl_ctx', ctx)
    g.update(ctx=ctx, registered=True, bio_set=True)
    set_tbl(eng, st, eng.new_obj(st, 1, 'static2', 'table'))
    s0 = st.copy()
    for s, r in T.run(eng, fn, st, [c]):
        eng.cover(s, fn)
        for k in ('ssl', 'ctx', 'bio', 'ident', 'psk'):
            eng.check_p(s, s.objs[s.ghost[k].obj].alive is False, fn + ': %s is released' % k, C24)
        eng.check_p(s, And(*[eq(CF(eng, s, k).obj, 0) for k in ('ssl', 'ssl_ctx', 'identity', 'psk')], eq(CF(eng, s, 'state'), S_NONE)), fn + ': nothing released stays referenced', C24)
        eng.check_p(s, Or(s.ghost['registered'] is False, s.ghost.get('lockfail') is True), fn + ': the connection is not registered any more', C24)
        eng.check_p(s, not s.ghost.get('locked'), fn + ': the lock is released', C24)


# ---------------------------------------------------------------- nscang_client_errstr()
@each('errstr')
def t_errstr(T, lang):
    def c_reason(eng, st, a, node):
        none = st.copy()
        return [(st, eng.new_string(st, 'reason', 'static')), (none, NULL)]

    def c_code(eng, st, a, node):
        v = fresh_int('code')
        st.assume(v >= 0, v < (1 << 64))
        return [(st, v)]
    eng = T.eng(contracts=dict(BASE, ERR_reason_error_string=c_reason, ERR_peek_error=c_code, ERR_peek_last_error=c_code, ERR_get_error=c_code))
    st = eng.start()
    c = mk_client(eng, st)
    n = fresh_int('size')
    st.assume(n >= 1, n <= 2147483647)
    buf = eng.new_obj(st, n, 'param', 'buffer')
    fn = 'nscang_client_errstr'
    for s, r in T.run(eng, fn, st, [c, buf, n]):
        eng.cover(s, fn)
        eng.check_p(s, And(ptr_eq(r, buf), eq(eng.byte_at(s, Ptr(buf.obj, sub(n, 1))), 0)), fn + ': a terminated text is returned', C24)


# ---------------------------------------------------------------- python/nscang.c
PYU = ['python/nscang.c']
NT = 'NSCAngNotifyer'


def py_parse(want, vals):
    """PyArg_ParseTupleAndKeywords() per its documentation: 's' stores a pointer to a terminated string, 'I' an unsigned int;
    what follows '|' may be absent (the variable keeps its value); a failure may have stored some values and has set an exception"""
    def h(eng, st, a, node):
        eng.check_p(st, And(ptr_eq(a[0], st.ghost['args']), ptr_eq(a[1], st.ghost['kwds'])), 'the given arguments are parsed', C24, 'pre', node)
        f = libc.lit_bytes(eng, st, a[2])
        if f is None:
            raise Unsupported('unknown argument format')
        spec = f.split(b':')[0].decode()
        codes = spec.replace('|', '')
        eng.check_p(st, len(codes) == len(a) - 4 and set(codes) <= set('sI'), 'as many variables as argument codes', C24, 'pre', node)
        # the keyword list: one name per code, then NULL
        names = []
        for i in range(len(codes) + 1):
            p = eng.rd(st, Ptr(a[3].obj, add(a[3].off, 8 * i)), cfront.ptr(CHAR))
            names.append(libc.lit_bytes(eng, st, p) if not (is_c(p.obj) and p.obj == 0) else None)
        eng.check_p(st, None not in names[:-1] and names[-1] is None, 'one keyword per argument code', C24, 'pre', node)
        out = []
        bad = st.copy()
        bad.ghost['exc'] = True
        for i, c in enumerate(codes):
            p = a[4 + i]
            key = names[i].decode() if names[i] else '?'
            need_bytes(eng, st, p, 8 if c == 's' else 4, node, 'the variable for ' + key, write=True)
            if c == 's':
                v = eng.new_string(bad, key, 'param')
                eng.wr(bad, p, cfront.ptr(CHAR), v)
            else:
                v = fresh_int(key)
                bad.assume(v >= 0, v < (1 << 32))
                eng.wr(bad, p, cfront.UINT, v)
        out.append((bad, 0))
        # optional arguments: present up to some position, or by keyword in any combination
        nreq = spec.index('|') if '|' in spec else len(codes)
        opt = range(nreq, len(codes))
        for mask in range(1 << len(opt)):
            s = st.copy()
            got = {}
            for i, c in enumerate(codes):
                if i >= nreq and not mask >> (i - nreq) & 1:
                    continue
                key = names[i].decode() if names[i] else '?'
                if c == 's':
                    v = eng.new_string(s, key, 'param')
                    eng.wr(s, a[4 + i], cfront.ptr(CHAR), v)
                else:
                    v = fresh_int(key)
                    s.assume(v >= 0, v < (1 << 32))
                    eng.wr(s, a[4 + i], cfront.UINT, v)
                got[key] = v
            s.ghost['got'] = got
            s.ghost['names'] = tuple(codes[i] + ':' + (names[i] or b'?').decode() for i in range(len(codes)))
            s.ghost['nreq'] = nreq
            r = fresh_int('parsed')
            s.assume(r >= 1, r <= 1)
            out.append((s, r))
        return out
    return h


def c_exc(eng, st, a, node, text=True):
    st.ghost['exc'] = True
    eng.strlen_of(st, a[1], node, 'exception text')
    return [(st, NULL)]


def c_exc_fmt(eng, st, a, node):
    eng.check_p(st, libc.fmt_of(eng, st, a[1]) is not None, 'the format of an exception is a constant', C24, 'pre', node)
    libc.check_fmt_args(eng, st, a[1], a[2:], node, 'PyErr_Format()')
    st.ghost['exc'] = True
    return [(st, NULL)]


def c_errtext(eng, st, a, node):
    same_conn(eng, st, a[0], node, 'nscang_client_errstr()')
    need_bytes(eng, st, a[1], a[2], node, 'nscang_client_errstr', write=True)
    eng.check_p(st, gt(a[2], 0), 'nscang_client_errstr(): size of the buffer', C24, 'pre', node)
    eng.wr_bulk(st, a[1], a[2], 'havoc', None)
    eng.wr(st, Ptr(a[1].obj, add(a[1].off, sub(a[2], 1))), CHAR, 0)
    return [(st, a[1])]


def py_none(eng, st):
    return eng.global_ptr(st, '_Py_NoneStruct')


def c_incref(eng, st, a, node, ret=False):
    eng.check_p(st, ne(a[0].obj, 0), 'Py_INCREF(): an object', C24, 'pre', node)
    st.ghost['refs'] = st.ghost.get('refs', 0) + 1
    return [(st, a[0] if ret else None)]


PYOBJ = {'Py_INCREF': c_incref, 'Py_XINCREF': c_incref, 'Py_NewRef': lambda e, s, a, n: c_incref(e, s, a, n, True),
         '_Py_NewRef': lambda e, s, a, n: c_incref(e, s, a, n, True)}


@task('embed.result_py', C24, PYU)
def t_result_py(T):
    for fn, svc in (('nscang_host_result', False), ('nscang_svc_result', True)):
        def c_push(eng, st, a, node):
            g = st.ghost
            same_conn(eng, st, a[0], node, 'nscang_client_send_push()')
            eng.check_p(st, ne(a[0].obj, 0), 'nscang_client_send_push(): there is a connection', C24, 'pre', node)
            got = g['got']
            dflt = lambda k, v: got[k] if k in got else v
            eng.check_p(st, 'host_name' in got and 'return_code' in got and ('svc_description' in got) == svc, 'host name, service and status are required arguments', C24, 'pre', node)
            eng.check_p(st, ptr_eq(a[1], dflt('host_name', NULL)), 'the given host name is sent', C24, 'pre', node)
            eng.check_p(st, ptr_eq(a[2], dflt('svc_description', NULL)), 'the given service is sent', C24, 'pre', node)
            eng.check_p(st, eq(a[3] % (1 << 32), dflt('return_code', -1)), 'the given status is sent', C24, 'pre', node)
            if 'plugin_output' in got:
                eng.check_p(st, ptr_eq(a[4], got['plugin_output']), 'the given output is sent', C24, 'pre', node)
            else:
                eng.check_p(st, eq(eng.strlen_of(st, a[4]), 0), 'no output is sent if none is given', C24, 'pre', node)
            if 'timeout' in got:
                eng.check_p(st, eq(a[5] % (1 << 32), got['timeout']), 'the given timeout is used', C24, 'pre', node)
            eng.check_p(st, g['pushed'] == 0 or g.get('disc') is True, 'a failed session is closed before the result is sent again', C24, 'pre', node)
            eng.check_p(st, g.get('accepted') is not True, 'an accepted result is not sent again', C24, 'pre', node)
            g['pushed'] += 1
            bad = st.copy()
            g['accepted'] = True
            r = fresh_int('pushed')
            st.assume(r >= 1, r <= 1)
            return [(st, r), (bad, 0)]

        def c_disc(eng, st, a, node):
            same_conn(eng, st, a[0], node, 'nscang_client_disconnect()')
            st.ghost['disc'] = True
            return [(st, None)]
        for conn in (True, False):
            eng = T.eng(contracts=dict(BASE, **PYOBJ, PyArg_ParseTupleAndKeywords=py_parse(None, None), _PyArg_ParseTupleAndKeywords_SizeT=py_parse(None, None),
                                       PyErr_SetString=c_exc, PyErr_Format=c_exc_fmt, nscang_client_send_push=c_push, nscang_client_disconnect=c_disc,
                                       nscang_client_errstr=c_errtext), config={"static_init": True})
            st = eng.start()
            self = eng.new_struct(st, NT, 'param', 'notifyer')
            c = eng.new_struct(st, CT, 'param', 'connection') if conn else NULL
            eng.setfld(st, self, NT, 'client', c)
            args, kwds = eng.new_obj(st, 1, 'param', 'args'), eng.new_obj(st, 1, 'param', 'kwds')
            st.ghost.update(c=c, args=args, kwds=kwds, pushed=0)
            for s, r in T.run(eng, fn, st, [self, args, kwds]):
                g = s.ghost
                ok = eng.proves(s, ne(r.obj, 0))
                eng.cover(s, fn + (': sent' if ok else ': failure'))
                if ok:
                    eng.check_p(s, And(ptr_eq(r, py_none(eng, s)), g.get('accepted') is True, g.get('refs') == 1), fn + ': success only if the server accepted the result', C24)
                    eng.check_p(s, g.get('exc') is not True, fn + ': success without an exception', C24)
                else:
                    eng.check_p(s, And(eq(r.obj, 0), g.get('exc') is True), fn + ': a failure raises an exception', C24)
                    eng.check_p(s, g.get('accepted') is not True, fn + ': no exception for an accepted result', C24)
                if 'got' in g:
                    eng.check_p(s, g['names'][:g['nreq']] == ('s:host_name',) + (('s:svc_description',) if svc else ()) + ('I:return_code',)
                                and set(g['names'][g['nreq']:]) == {'s:plugin_output', 'I:timeout'}, fn + ': takes the documented arguments', C24)


@task('embed.object_py', C24, PYU)
def t_object_py(T):
    def c_init(eng, st, a, node):
        g = st.ghost
        got = g['got']
        eng.check_p(st, And(is_c(a[0].obj) and a[0].obj in st.objs and st.objs[a[0].obj].kind == 'heap', 'inited' not in g), 'nscang_client_init(): a new connection', C24, 'pre', node)
        need_bytes(eng, st, a[0], eng.recsize(CT), node, 'nscang_client_init', write=True)
        n = eng.strlen_of(st, a[1])
        h = got['host']
        eng.check_p(st, And(a[1].obj != h.obj, eq(n, eng.strlen_of(st, h)), eng.forall_bytes(
            lambda k: eq(eng.byte_at(st, Ptr(a[1].obj, add(a[1].off, k))), eng.byte_at(st, Ptr(h.obj, k))), 0, n)), 'nscang_client_init(): a copy of the given host', C24, 'pre', node)
        eng.check_p(st, eq(a[2] % (1 << 32), got['port']), 'nscang_client_init(): the given port', C24, 'pre', node)
        eng.check_p(st, ptr_eq(a[3], got.get('ciphers', NULL)), 'nscang_client_init(): the given ciphers', C24, 'pre', node)
        eng.check_p(st, And(ptr_eq(a[4], got['identity']), ptr_eq(a[5], got['psk'])), 'nscang_client_init(): the given identity and key', C24, 'pre', node)
        g['c'] = a[0]
        g['inited'] = True
        bad = st.copy()
        bad.ghost['badinit'] = True
        return [(st, 1), (bad, 0)]

    def c_free(eng, st, a, node):
        same_conn(eng, st, a[0], node, 'nscang_client_free()')
        eng.check_p(st, st.ghost.get('inited') is True and not st.ghost.get('cfreed'), 'nscang_client_free(): an initialized connection, once', C24, 'pre', node)
        st.ghost['cfreed'] = True
        return [(st, None)]

    def c_errtext2(eng, st, a, node):
        eng.check_p(st, not st.ghost.get('cfreed'), 'the error text is read before the connection is released', C24, 'pre', node)
        return c_errtext(eng, st, a, node)

    def c_tpfree(eng, st, a, node):
        eng.check_p(st, And(ptr_eq(a[0], st.ghost['self']), not st.ghost.get('ofreed')), 'the object itself is released once', C24, 'pre', node)
        st.ghost['ofreed'] = True
        return [(st, None)]
    CON = dict(BASE, PyArg_ParseTupleAndKeywords=py_parse(None, None), _PyArg_ParseTupleAndKeywords_SizeT=py_parse(None, None), PyErr_SetString=c_exc,
               PyErr_Format=c_exc_fmt, nscang_client_init=c_init, nscang_client_free=c_free, nscang_client_errstr=c_errtext2)

    def mk(eng, st, conn, host):
        self = eng.new_struct(st, NT, 'param', 'notifyer')
        # as allocated: zeroed, or as left by an earlier attempt; strings of earlier arguments may be gone
        c = eng.new_struct(st, CT, 'heap', 'old connection') if conn else NULL
        eng.setfld(st, self, NT, 'client', c)
        h = eng.new_string(st, 'old host', 'heap') if host else NULL
        eng.setfld(st, self, NT, 'host', h)
        st.ghost.update(self=self, c=c, oldhost=h)
        if conn:
            st.ghost['inited'] = True
        return self
    fn = 'NSCAngNotifyer_init'
    for conn, host in ((False, False), (False, True), (True, True)):
        eng = T.eng(contracts=CON, config={"static_init": True})
        st = eng.start()
        self = mk(eng, st, conn, host)
        args, kwds = eng.new_obj(st, 1, 'param', 'args'), eng.new_obj(st, 1, 'param', 'kwds')
        st.ghost.update(args=args, kwds=kwds)
        s0 = st.copy()
        for s, r in T.run(eng, fn, st, [self, args, kwds]):
            g = s.ghost
            ok = eng.proves(s, eq(r, 0))
            eng.cover(s, fn + (': success' if ok else ': failure'))
            cl, h = eng.fld(s, self, NT, 'client'), eng.fld(s, self, NT, 'host')
            if ok:
                eng.check_p(s, And(ptr_eq(cl, g['c']), g.get('inited') is True, not g.get('badinit'), not conn, alive(s, cl)), fn + ': there is an initialized connection', C24)
                eng.check_p(s, g.get('exc') is not True, fn + ': success without an exception', C24)
            else:
                eng.check_p(s, And(eq(r, -1), g.get('exc') is True), fn + ': a failure raises an exception', C24)
                eng.check_p(s, ptr_eq(cl, eng.fld(s0, self, NT, 'client')), fn + ': no connection after a failure', C24)
            eng.check_p(s, Or(eq(h.obj, 0), alive(s, h)), fn + ': the host is kept as long as the object', C24)
            keep = {x.obj for x in (cl, h) if is_c(x.obj)}
            left = [o.name for i, o in s.objs.items() if o.kind == 'heap' and o.alive is True and i not in keep]
            eng.check_p(s, not left, fn + ': nothing is leaked', C24)
            eng.check_p(s, Implies(g.get('badinit') is True, g.get('cfreed') is True), fn + ': what a failed initialization left is released', C24)
            # whatever happened, the object can be released
            dealloc(T, eng, s, self, c_tpfree)
    for conn, host in ((False, False), (False, True), (True, True)):
        eng = T.eng(contracts=CON, config={"static_init": True})
        st = eng.start()
        dealloc(T, eng, st, mk(eng, st, conn, host), c_tpfree)


def dealloc(T, eng, s, self, c_tpfree):
    fn = 'NSCAngNotifyer_dealloc'
    s = s.copy()
    ty = eng.new_struct(s, '_typeobject', 'param', 'type')
    eng.setfld(s, self, '_object', 'ob_type', ty)
    f = eng.fn_ptr('vf_tp_free')
    eng.setfld(s, ty, '_typeobject', 'tp_free', f)
    eng.contracts['vf_tp_free'] = c_tpfree
    had = eng.fld(s, self, NT, 'client')
    for k in ('cfreed', 'ofreed'):
        s.ghost.pop(k, None)
    for x, _ in T.run(eng, fn, s, [self]):
        eng.cover(x, fn)
        eng.check_p(x, x.ghost.get('ofreed') is True, fn + ': the object is released', C24)
        eng.check_p(x, Implies(ne(had.obj, 0), x.ghost.get('cfreed') is True), fn + ': the connection is released', C24)
        left = [o.name for i, o in x.objs.items() if o.kind == 'heap' and o.alive is True]
        eng.check_p(x, not left, fn + ': everything is released', C24)


@task('embed.module_py', C24, PYU)
def t_module_py(T):
    """PyInit_nscang() and the tables: the documented names run the functions verified above"""
    STR = cfront.ptr(CHAR)

    def c_ready(eng, st, a, node):
        bad = st.copy()
        st.ghost['ready'] = a[0]
        v = fresh_int('r')
        bad.assume(v < 0, v >= -2147483648)
        return [(st, 0), (bad, v)]

    def c_create(eng, st, a, node):
        bad = st.copy()
        n = eng.fld(st, a[0], 'PyModuleDef', 'm_name')
        eng.check(st, bytes(libc.lit_bytes(eng, st, n) or b'') == b'nscang', 'PyModule_Create(): the module nscang', node)
        m = eng.new_struct(st, '_object', 'static2', 'module')
        st.ghost['module'] = m
        return [(st, m), (bad, NULL)]

    def c_add(eng, st, a, node):
        g = st.ghost
        bad = st.copy()
        eng.check(st, And('ready' in g, 'module' in g), 'PyModule_AddObject(): the type and the module are ready', node)
        eng.check(st, And(ptr_eq(a[0], g['module']), ptr_eq(a[2], g['ready'])), 'PyModule_AddObject(): the type is added to the module', node)
        eng.check(st, bytes(libc.lit_bytes(eng, st, a[1]) or b'') == b'NSCAngNotifyer', 'PyModule_AddObject(): under its documented name', node)
        g['added'] = True
        v = fresh_int('r')
        bad.assume(v < 0, v >= -2147483648)
        return [(st, 0), (bad, v)]

    def void(eng, st, a, node):
        return [(st, None)]

    def none(eng, st, a, node):
        return [(st, fresh_int('r'))]
    eng = T.eng(contracts={'PyType_Ready': c_ready, 'PyModule_Create2': c_create, 'PyModule_AddObject': c_add, 'OPENSSL_init_ssl': none,
                           'OPENSSL_init_crypto': none, 'Py_DECREF': void, 'Py_INCREF': void}, config={'static_init': True})
    st = eng.start()
    u = eng.units[0]
    tables = sorted(n for n, i in u.gnames.items() if u.globals[i].get('inner') and u.globals[i].get('storageClass') == 'static')
    from engine import Frame
    st.frames = (Frame('(static data)', u, 0),)
    for n in tables:
        d = u.globals[u.gnames[n]]
        try:
            p = eng.global_ptr(st, n)
            st = eng.init_obj(st.copy(), p, u.type(d['type']), d['inner'][0])[0]
        except Unsupported:
            pass    # its content stays unknown
    st.frames = ()
    for s, r in T.run(eng, 'PyInit_nscang', st, []):
        g = s.ghost
        null = is_c(r.obj) and r.obj == 0
        eng.cover(s, 'PyInit: ' + ('failed' if null else 'ready'))
        if null:
            continue
        eng.check(s, And(g.get('added', False), ptr_eq(r, g['module'])), 'PyInit: returns the module with the type')
        if 'ready' not in g:
            continue
        ty = g['ready']
        F_ = lambda n: eng.fld(s, ty, '_typeobject', n)
        name = lambda p: eng.fnnames.get(p.obj) if is_c(p.obj) else None
        eng.check(s, name(F_('tp_init')) == 'NSCAngNotifyer_init', 'the type: objects are initialized')
        eng.check(s, name(F_('tp_dealloc')) == 'NSCAngNotifyer_dealloc', 'the type: objects are released')
        eng.check(s, eq(F_('tp_basicsize'), eng.recsize('NSCAngNotifyer')), 'the type: objects have the right size')
        mt = F_('tp_methods')
        sz = eng.recsize('PyMethodDef')
        tab = {}
        for i in range(3):
            e = Ptr(mt.obj, add(mt.off, i * sz))
            nm = eng.fld(s, e, 'PyMethodDef', 'ml_name')
            if is_c(nm.obj) and nm.obj == 0:
                break
            eng.check(s, eq(eng.fld(s, e, 'PyMethodDef', 'ml_flags'), 3), 'the methods take positional and keyword arguments')
            tab[bytes(libc.lit_bytes(eng, s, nm) or b'?')] = name(eng.fld(s, e, 'PyMethodDef', 'ml_meth'))
        eng.check(s, tab == {b'host_result': 'nscang_host_result', b'svc_result': 'nscang_svc_result'}, 'the methods host_result and svc_result run their functions, and the table ends behind them')
