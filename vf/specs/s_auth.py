"""src/server/auth.c, src/server/hash.c, client auth.c: C02, C04 (and the decision C01 relies on)"""
from vtask import *
from libc import *

AUTH = ['src/server/auth.c', 'src/common/util.c']
SETTINGS = (b'hosts', b'services', b'commands')


def mk_sections(eng, st):
    """ghost: the registered sections"""
    ids = eng.new_obj(st, 1 << 16, 'heap', 'section of the identity')
    star = eng.new_obj(st, 1 << 16, 'heap', 'fallback section')
    has_id, has_star = z3.Bool('has_id'), z3.Bool('has_star')
    st.ghost.update(sec_id=ids, sec_star=star, has_id=has_id, has_star=has_star)
    for n, o in (('sec_id', ids), ('sec_star', star)):
        st.objs[o.obj].meta['sec'] = n


def c_hash_lookup(eng, st, args, node):
    """hash_lookup(key): the section registered under key, or NULL"""
    key = args[0]
    lit = fmt_of(eng, st, key)
    g = st.ghost
    if lit is None:
        eng.check(st, ptr_eq(key, g['ident']), 'hash_lookup: the key is the identity or a fixed name', node)
        cond, sec = g['has_id'], g['sec_id']
    elif lit == b'*':
        cond, sec = g['has_star'], g['sec_star']
    else:
        cond, sec = fresh_bool('has_other'), eng.new_obj(st, 1 << 16, 'heap', 'other section')
    a, b = eng.split(st, cond, node)
    return [(s, sec) for s in a] + [(s, NULL) for s in b]


def section_ok(eng, st, p):
    """p is the section that applies to the identity"""
    g = st.ghost
    return Or(And(g['has_id'], ptr_eq(p, g['sec_id'])),
              And(Not(g['has_id']), g['has_star'], ptr_eq(p, g['sec_star'])))


def c_cfg_getopt(eng, st, args, node):
    name = fmt_of(eng, st, args[1])
    eng.check_p(st, section_ok(eng, st, args[0]), 'patterns come from the section of the identity (or the fallback)',
                ['C02', 'C01'], 'pre', node)
    if name not in SETTINGS:
        raise Unsupported('cfg_getopt of %r' % name)
    k = SETTINGS.index(name)
    key = 'opt%d' % k
    if key not in st.ghost:
        o = eng.new_obj(st, 64, 'heap', 'option %s' % name.decode())
        st.objs[o.obj].meta['opt'] = k
        st.ghost[key] = o
    return [(st, st.ghost[key])]


def c_opt_size(eng, st, args, node):
    o = st.objs.get(args[0].obj) if is_c(args[0].obj) else None
    if o is None or 'opt' not in o.meta:
        raise Unsupported('cfg_opt_size')
    return [(st, st.ghost['N%d' % o.meta['opt']])]


def c_getnptr(eng, st, args, node):
    o = st.objs.get(args[0].obj) if is_c(args[0].obj) else None
    if o is None or 'opt' not in o.meta:
        raise Unsupported('cfg_opt_getnptr')
    k = o.meta['opt']
    j = args[1]
    eng.check(st, And(le(0, j), lt(j, st.ghost['N%d' % k])), 'cfg_opt_getnptr: index within the list', node)
    pat = st.ghost['pats%d' % k]
    return [(st, Ptr(pat.obj, mul(ival(j), 64)))]


def c_regexec(eng, st, args, node):
    pat, cmd, nm, _pm, fl = args
    g = st.ghost
    o = st.objs.get(pat.obj) if is_c(pat.obj) else None
    if o is None or 'pat' not in o.meta:
        raise Unsupported('regexec of an unknown pattern')
    k = o.meta['pat']
    eng.check_p(st, And(eq(cmd.obj, g['cmd'].obj), eq(cmd.off, g['CMD'])),
                'patterns are matched against the command without the bracketed timestamp and the blanks after it',
                ['C02', 'C01'], 'pre', node)
    eng.check_p(st, eq(fl, 0), 'patterns are matched without REG_NOTBOL/REG_NOTEOL', ['C02', 'C03'], 'pre', node)
    eng.check_p(st, st.objs[cmd.obj].writes is g['content'], 'the command is matched unmodified', ['C02', 'C01'], 'pre', node)
    r = fresh_int('regexec')
    st.assume(r >= 0, r <= 20)
    p = g['denied%d' % k]
    # ghost: patterns 0..denied-1 of the setting are known not to match
    g['denied%d' % k] = z3.If(And(eq(pat.off, mul(p, 64)), ne(r, 0)), toz(p) + 1, toz(p))
    gr = g['granted']
    a, b = eng.split(st, r == 0, node)
    for s in a:
        s.ghost['granted'] = True
    return [(s, r) for s in a + b]


AUTHC = {'hash_lookup': c_hash_lookup, 'cfg_getopt': c_cfg_getopt, 'cfg_opt_size': c_opt_size,
         'cfg_opt_getnptr': c_getnptr, 'regexec': c_regexec,
         'regerror': lambda e, s, a, n: h_regerror(e, s, a, n)}


def h_regerror(eng, st, args, node):
    need_bytes(eng, st, args[2], args[3], node, 'regerror buffer', write=True)
    n = fresh_int('errlen')
    st.assume(n >= 0, lt(n, args[3]))
    eng.wr_bulk(st, args[2], 'havoc', args[3], lambda q: uf('RE_TXT', I, I)(toz(q)))
    eng.wr(st, Ptr(args[2].obj, add(args[2].off, n)), cfront.CHAR, 0)
    st.hints = st.hints + ((args[2].obj, add(args[2].off, n)),)
    return [(st, add(n, 1))]


@task('auth.is_authorized', ['C02', 'C01', 'C03'], AUTH)
def t_auth(T):
    eng = T.eng(contracts=AUTHC)
    st = eng.start()
    ident = eng.new_string(st, 'identity')
    cmd = eng.new_string(st, 'command')
    n = eng.strlen_of(st, cmd)
    mk_sections(eng, st)
    g = st.ghost
    RB, CMD = z3.Int('RB'), z3.Int('CMD')
    b = lambda k: eng.byte_at(st, Ptr(cmd.obj, k))
    blank = lambda x: Or(eq(x, 32), eq(x, 9))
    # definitions: position of the first ']' (or the end), and of the command text behind it
    st.assume(RB >= 0, RB <= n, Implies(RB < n, eq(b(RB), 93)), eng.forall_bytes(lambda k: ne(b(k), 93), 0, RB))
    st.assume(CMD > RB, Implies(RB < n, And(CMD <= n, Not(blank(b(CMD))), eng.forall_bytes(lambda k: blank(b(k)), RB + 1, CMD))))
    g.update(ident=ident, cmd=cmd, CMD=CMD, RB=RB, content=st.objs[cmd.obj].writes, granted=False)
    for k in range(3):
        N = z3.Int('N%d' % k)
        st.assume(N >= 0, N <= 100000000)
        pats = eng.new_obj(st, N * 64, 'heap', 'patterns of %s' % SETTINGS[k].decode())
        st.objs[pats.obj].meta['pat'] = k
        g['N%d' % k], g['pats%d' % k], g['denied%d' % k] = N, pats, 0
    has_sec = Or(g['has_id'], g['has_star'])
    outs = T.run(eng, 'is_authorized', st.copy(), [ident, cmd])
    yes = no = 0
    for s, r in outs:
        r = tob(r)
        eng.cover(s, 'is_authorized')
        form = And(n >= 1, eq(b(n - 1), 10), eng.forall_bytes(lambda k: ne(b(k), 10), 0, n - 1))
        alld = And(*[eq(s.ghost['denied%d' % k], s.ghost['N%d' % k]) for k in range(3)])
        for rr, cond in ((True, r), (False, Not(r))):
            if not eng.feasible(s, cond if not isinstance(cond, bool) else cond):
                continue
            x = s.copy()
            x.assume(cond)
            P = ['C02', 'C01', 'C03']
            if rr:
                yes += 1
                eng.check_p(x, has_sec, 'authorized only with a section for the identity', P)
                eng.check_p(x, form, 'authorized only if the command is one newline-terminated line', P)
                eng.check_p(x, RB < n, 'authorized only if there is a `]\'', P)
                eng.check_p(x, s.ghost['granted'], 'authorized only if a pattern of the section matched', P)
            else:
                no += 1
                eng.check_p(x, Not(s.ghost['granted']), 'a matching pattern authorizes', ['C02'])
                eng.check_p(x, Or(Not(has_sec), Not(form), Not(RB < n), alld),
                            'refused only for lack of a section, form, `]\' or because every pattern was tried and failed', ['C02'])
        eng.check_p(s, s.objs[cmd.obj].writes is g['content'], 'the command is not modified', ['C01', 'C02'])
    eng.check_p(st, yes > 0 and no > 0, 'both decisions are reachable', ['C02'])


@task('auth.check_psk', ['C04', 'C25'], AUTH)
def t_psk(T):
    for again in (False, True):
        psk_case(T, again)


def psk_case(T, again):
    def c_setapp(eng, st, args, node):
        r = fresh_int('setok')
        st.assume(r >= 0, r <= 1)
        st.event('appdata', args[-1], r)
        t, f = eng.split(st, eq(r, 1), node)
        for x in t:
            x.ghost['appdata'] = args[-1]
        return [(x, r) for x in t + f]

    def c_getapp(eng, st, args, node):
        return [(st, st.ghost['appdata'])]

    def c_getstr(eng, st, args, node):
        eng.check_p(st, section_ok(eng, st, args[0]), 'the key comes from the section of the identity (or the fallback)', ['C04'], 'pre', node)
        eng.check_p(st, fmt_of(eng, st, args[1]) == b'password', 'the key is the password setting', ['C04'], 'pre', node)
        return [(st, st.ghost['pw'])]
    eng = T.eng(contracts=dict(AUTHC, SSL_set_ex_data=c_setapp, SSL_get_ex_data=c_getapp, cfg_getstr=c_getstr))
    st = eng.start()
    ident = eng.new_string(st, 'identity')
    mk_sections(eng, st)
    g = st.ghost
    pw = eng.new_string(st, 'password')
    L = eng.strlen_of(st, pw)
    old = eng.new_string(st, 'earlier identity') if again else Ptr(0, 0)
    g.update(ident=ident, pw=pw, appdata=old)
    mx = fresh_int('max')
    st.assume(mx >= 0, mx <= 4294967295)
    buf = eng.new_obj(st, mx, 'param', 'key buffer')
    ssl = eng.new_obj(st, 1, 'heap', 'ssl')
    s0 = st.copy()
    has_sec = Or(g['has_id'], g['has_star'])
    il = eng.strlen_of(st, ident)
    some = 0
    for s, r in T.run(eng, 'check_psk', st, [ssl, ident, buf, mx]):
        eng.cover(s, 'check_psk')
        r = ival(r)
        app = [e for e in s.trace if e[0] == 'appdata']
        P = ['C04']
        a, b = eng.split(s.copy(), ne(r, 0))
        for x in a:
            some += 1
            eng.check_p(x, has_sec, 'a key is provided only for an identity with a section', P)
            eng.check_p(x, eq(r, Ite(le(L, mx), L, mx)), 'the key has the length of the password, cut to the allowed maximum', P)
            eng.check_p(x, eng.forall_bytes(lambda k: eq(eng.byte_at(x, Ptr(buf.obj, k)), eng.byte_at(s0, Ptr(pw.obj, k))), 0, r),
                        'the key is the configured password', P)
            if again:
                eng.check_p(x, x.objs[old.obj].alive is False, 'an identity stored earlier for the connection is released', ['C25'])
            eng.check_p(x, len(app) == 1 and And(eq(app[0][2], 1)), 'the identity is stored for later decisions', P)
            if len(app) == 1:
                q = app[0][1]
                o = x.objs.get(q.obj) if is_c(q.obj) else None
                eng.check_p(x, o is not None and o.kind == 'heap' and o.alive is True and q.obj != ident.obj, 'the stored identity is a copy of its own', P)
                if o is not None:
                    ql = eng.strlen_of(x, q)
                    eng.check_p(x, And(eq(ql, il), eng.forall_bytes(
                        lambda k: eq(eng.byte_at(x, Ptr(q.obj, k)), eng.byte_at(s0, Ptr(ident.obj, k))), 0, il)),
                        'the stored identity is exactly the presented one', P)
        for x in b:
            eng.check_p(x, Or(Not(has_sec), eq(L, 0), eq(mx, 0), *[eq(e[2], 0) for e in app]),
                        'no key only for an unknown identity, an empty password, or when the identity cannot be stored', P)
        eng.check_p(s, Implies(Not(has_sec), And(eq(r, 0), s.objs[buf.obj].writes is s0.objs[buf.obj].writes)),
                    'an unknown identity gets no key', P)
    eng.check_p(st, some > 0, 'a key can be provided', ['C04'])


@task('auth.hash', ['C04', 'C02', 'C22', 'C01'], ['src/server/hash.c'])
def t_hash(T):
    def c_hsearch(eng, st, args, node):
        sv, act = args
        unit = st.frames[-1].unit
        off, t = eng.fpath('entry', 'key')
        key = eng.rd(sv.state, Ptr(sv.ptr.obj, add(sv.ptr.off, off)), t)
        st.event('hsearch', key, act)
        s2 = st.copy()
        ent = eng.new_struct(st, 'entry', 'heap', 'table entry')
        st.ghost['ent'] = ent
        st.ghost['data'] = eng.fld(st, ent, 'entry', 'data')
        return [(st, ent), (s2, NULL)]
    eng = T.eng(contracts={'hsearch': c_hsearch})
    st = eng.start()
    key = eng.new_string(st, 'key')
    for s, r in T.run(eng, 'hash_lookup', st, [key]):
        eng.cover(s, 'hash_lookup')
        h = [e for e in s.trace if e[0] == 'hsearch']
        eng.check(s, len(h) == 1 and ptr_eq(h[0][1], key), 'hash_lookup searches for exactly the given key')
        eng.check(s, h[0][2] == 0, 'hash_lookup does not insert')
        if 'ent' in s.ghost:
            eng.check(s, ptr_eq(r, s.ghost['data']), 'hash_lookup returns the data registered under the key')
        else:
            eng.check(s, ptr_eq(r, NULL), 'hash_lookup returns NULL for an unknown key')
    eng = T.eng(contracts={'hsearch': c_hsearch})
    st = eng.start()
    key = eng.new_string(st, 'key')
    val = eng.new_obj(st, 8, 'heap', 'value')
    for s, r in T.run(eng, 'hash_insert', st, [key, val]):
        eng.cover(s, 'hash_insert')
        h = [e for e in s.trace if e[0] == 'hsearch']
        eng.check(s, len(h) == 1 and And(ptr_eq(h[0][1], key), h[0][2] == 1), 'hash_insert enters exactly the given key')
        eng.check(s, 'ent' in s.ghost and ptr_eq(eng.fld(s, s.ghost['ent'], 'entry', 'data'), val),
                  'hash_insert registers the value under the key')
    eng.check(st, len(eng.exits) == 1, 'hash_insert terminates the program if the table is full')


@task('client.psk', ['C04'], ['src/client/auth.c'])
def t_cpsk(T):
    def c_get(eng, st, args, node):
        nm = fmt_of(eng, st, args[-1])
        p = st.ghost.get(nm.decode())
        return [(st, eng.new_string(st, 'other') if p is None else p)]
    eng = T.eng(contracts={'conf_getstr': c_get, 'cfg_getstr': c_get})
    eng.contracts.update({})
    u = eng.units[0]
    st = eng.start()
    ident, pw = eng.new_string(st, 'identity'), eng.new_string(st, 'password')
    il, pl = eng.strlen_of(st, ident), eng.strlen_of(st, pw)
    st.ghost.update(identity=ident, password=pw)
    ml, mp = fresh_int('max_id'), fresh_int('max_pw')
    st.assume(ml >= 1, ml <= 4294967295, mp >= 0, mp <= 4294967295)
    bi = eng.new_obj(st, ml, 'param', 'identity buffer')
    bp = eng.new_obj(st, mp, 'param', 'key buffer')
    ssl = eng.new_obj(st, 1, 'heap', 'ssl')
    hint = eng.new_string(st, 'hint')
    s0 = st.copy()
    for s, r in T.run(eng, 'set_psk', st, [ssl, hint, bi, ml, bp, mp]):
        eng.cover(s, 'set_psk')
        r = ival(r)
        P = ['C04']
        a, b = eng.split(s.copy(), ne(r, 0))
        for x in b:
            eng.check_p(x, Or(eq(pl, 0), gt(pl, mp), eq(mp, 0), ge(il, ml)), 'the client presents its identity and password whenever they fit', P)
        for x in a:
            eng.check_p(x, And(eq(r, Ite(le(pl, mp), pl, mp)), eng.forall_bytes(
                lambda k: eq(eng.byte_at(x, Ptr(bp.obj, k)), eng.byte_at(s0, Ptr(pw.obj, k))), 0, r)),
                'the client presents its configured password, cut to the buffer', P)
            m = Ite(lt(il, ml), il, sub(ml, 1))
            eng.check_p(x, And(eq(eng.byte_at(x, Ptr(bi.obj, m)), 0), eng.forall_bytes(
                lambda k: eq(eng.byte_at(x, Ptr(bi.obj, k)), eng.byte_at(s0, Ptr(ident.obj, k))), 0, m)),
                'the client presents its configured identity', P)
