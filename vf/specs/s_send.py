"""src/client/send_nsca.c: option parsing (C18, C13), what is handed to the client (C16), wiping secrets (C26)"""
from vtask import *
from libc import *
import libc

SEND = ['src/client/send_nsca.c']
C13, C16, C18, C26, C27 = ['C13'], ['C16'], ['C18'], ['C26'], ['C27']


def is_ws(b):
    return Or(eq(b, 32), And(le(9, b), le(b, 13)))


def digit(b, base):
    """(condition, value) of a digit"""
    v = Ite(And(le(48, b), le(b, 57)), sub(b, 48), Ite(And(le(97, b), le(b, 122)), sub(b, 87), Ite(And(le(65, b), le(b, 90)), sub(b, 55), 99)))
    return lt(v, base), v


def strtol_exact(bs, base):
    """bytes of a short string -> [(condition, value, end)], exhaustive and disjoint (C11 7.24.1.4)"""
    L = len(bs)
    out = []

    def digits(i, b, cond, sign, start):
        val, ok = 0, True
        for j in range(i, L + 1):
            here = digit(bs[j], b) if j < L else (False, 0)
            c = And(cond, ok, Not(here[0]))
            if c is not False:
                if j == i and start is None:
                    out.append((c, 0, 0))
                elif j == i:
                    out.append((c, 0, start))       # only the 0 of the prefix
                else:
                    out.append((c, mul(sign, val), j))
            if j < L:
                ok = And(ok, here[0])
                val = add(mul(val, b), here[1])

    for i in range(L + 1):
        ws = And(*[is_ws(bs[k]) for k in range(i)], Not(is_ws(bs[i])) if i < L else True)
        if ws is False:
            continue
        if i == L:
            out.append((ws, 0, 0))
            continue
        for sign, sc, k in ((-1, eq(bs[i], 45), i + 1), (1, eq(bs[i], 43), i + 1), (1, And(ne(bs[i], 45), ne(bs[i], 43)), i)):
            cond = And(ws, sc)
            if cond is False:
                continue
            hexp = And(eq(bs[k], 48), Or(eq(bs[k + 1], 120), eq(bs[k + 1], 88))) if k + 1 < L else False
            zero = eq(bs[k], 48) if k < L else False
            if base == 16:
                if hexp is not False:
                    digits(k + 2, 16, And(cond, hexp), sign, k + 1)
                digits(k, 16, And(cond, Not(hexp)), sign, None)
            elif base == 0:
                if hexp is not False:
                    digits(k + 2, 16, And(cond, hexp), sign, k + 1)
                digits(k, 8, And(cond, Not(hexp), zero), sign, None)
                digits(k, 10, And(cond, Not(hexp), Not(zero)), sign, None)
            else:
                digits(k, base, cond, sign, None)
    return out


def c_strtol(eng, st, a, node):
    p, e, base = a
    if is_c(p.obj):
        for n in range(7):
            b = eng.byte_at(st, Ptr(p.obj, add(p.off, n)))
            if eng.proves(st, eq(b, 0)):
                eng.assume_len(st, p, n)
            elif eng.proves(st, ne(b, 0)):
                continue
            break
    n = eng.strlen_of(st, p, node, 'strtol')
    if not (is_c(n) and n <= 6 and is_c(p.obj) and is_c(base)):
        return libc.LIBC['strtol'](eng, st, a, node)
    if base not in (0, 8, 10, 16):
        raise Unsupported('strtol base %s' % base)
    bs = [ival(eng.byte_at(st, Ptr(p.obj, add(p.off, i)))) for i in range(n)]
    v, k = fresh_int('strtol'), fresh_int('end')
    alts = strtol_exact(bs, base)
    st.assume(Or(*[c for c, _, _ in alts]))
    for c, x, j in alts:
        st.assume(Implies(c, And(eq(v, x), eq(k, j))))
    st.assume(k >= 0, k <= n, v >= -(1 << 40), v <= (1 << 40))
    if not (is_c(e.obj) and e.obj == 0):
        eng.deref_ok(st, e, 8, node, 'strtol end pointer', write=True)
        eng.wr(st, e, cfront.ptr(CHAR), Ptr(p.obj, add(p.off, k)))
    return [(st, v)]


ESC = {97: 7, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11}


def meaning(bs):
    """the documented meaning of an option argument: the character's number, or -1"""
    n = len(bs)
    if n == 1:
        return bs[0]
    if n < 1 or n > 5:
        return -1
    lead = Or(eq(bs[0], 92), eq(bs[0], 48))
    hx = Or(eq(bs[1], 120), eq(bs[1], 88))

    def num(ds, base):
        ok, v = len(ds) > 0, 0
        for b in ds:
            c, d = digit(b, base)
            ok, v = And(ok, c), add(mul(v, base), d)
        return Ite(And(ok, le(v, 127)), v, -1)
    r = Ite(lead, Ite(hx, num(bs[2:], 16), num(bs[1:], 8)), -1)
    if n == 2:
        for c, v in ESC.items():
            r = Ite(And(eq(bs[0], 92), eq(bs[1], c)), v, r)
    return r


@task('send_nsca.escape', ['C18'], SEND)
def t_escape(T):
    for n in (0, 1, 2, 3, 4, 5, None):
        eng = T.eng(contracts={'strtol': c_strtol, '__isoc23_strtol': c_strtol})
        st = eng.start()
        if n is None:
            p = eng.new_string(st, 'argument', 'param')
            st.assume(eng.strlen_of(st, p) >= 6)
            bs = []
        else:
            p = eng.new_obj(st, n + 1, 'param', 'argument')
            bs = []
            for i in range(n):
                v = fresh_int('b%d' % i)
                st.assume(v >= 1, v <= 255)
                eng.wr(st, Ptr(p.obj, i), cfront.UCHAR, v)
                bs.append(v)
            eng.wr(st, Ptr(p.obj, n), CHAR, 0)
            eng.assume_len(st, p, n)
        for s, r in T.run(eng, 'parse_backslash_escape', st, [p]):
            eng.cover(s, 'argument of %s characters' % ('more than five' if n is None else n))
            eng.check_p(s, eq(ival(r), meaning(bs)), 'parse_backslash_escape: argument of %s characters' % (
                'more than five' if n is None else n), C18)


# ---------------------------------------------------------------- get_options()
from specs import optlib

LEVELS = ('log_level', 'log_target')


def schar(v):
    return Ite(ge(v, 128), sub(v, 256), v)


def c_escape(eng, st, a, node):
    """verified by send_nsca.escape: -1, or the number of the character"""
    g = st.ghost
    eng.check_p(st, g['opt'] in ('d', 'e') and ptr_eq(a[0], g['optarg']), 'the argument of the option is interpreted', C18, 'pre', node)
    bad = st.copy()
    v = fresh_int('character')
    st.assume(v >= 0, v <= 255)
    g['chr_' + g['opt']] = v
    bad.ghost['refused'] = True
    return [(st, v), (bad, -1)]


def opt_extra(eng, s):
    g = s.ghost
    f = lambda n: eng.fld(s, g['options'], 'options', n)
    d, e = g['chr_d'], g['chr_e']
    return [('the delimiter is that of the last -d', And(eq(f('delimiter'), schar(d)), 'refused' not in g)),
            ('the separator is that of the last -e', eq(f('separator'), schar(e))),
            ('the delimiter is none of NUL, newline, ETB and backslash', And(*[ne(d, x) for x in (0, 10, 23, 92)], ge(d, 0), le(d, 255), ge(e, 0), le(e, 255))),
            ('the log level is raised by every -v', And(eq(Ite(eq(f('log_level'), -1), 2, f('log_level')), g['level']), ge(g['level'], 2), le(g['level'], 5))),
            ('the log targets are those given', eq(f('log_target'), targets(g))),
            ('delay and timeout are not negative', And(ge(f('delay'), -1), ge(f('timeout'), -1)))]


def targets(g):
    S, y = tob(g['seen_S']), tob(g['seen_s'])
    return Ite(Or(S, y), add(Ite(S, 2, 0), Ite(y, 1, 0)), -1)


def on_option(s, c):
    """the log level after this option (manual: warnings by default, one level more with every -v)"""
    if c == 'v':
        v = s.ghost['level']
        s.ghost['level'] = Ite(lt(v, 5), add(v, 1), v)


def opt_ghosts(s):
    for k in ('chr_d', 'chr_e'):
        s.ghost[k] = fresh_int(k)
    s.ghost['level'] = fresh_int('level')
    s.assume(s.ghost['level'] >= 2, s.ghost['level'] <= 5)
    for k in 'sS':
        s.ghost['seen_' + k] = fresh_bool('seen_' + k)
    s.ghost.pop('refused', None)


def options():
    return optlib.Options('options', {'c': 'conf_file', 'p': 'port', 'H': 'server'}, {'D': 'delay', 'o': 'timeout'},
                          {'C': 'raw_commands'}, opt_extra, opt_ghosts)


@task('send_nsca.options', ['C13', 'C16', 'C18', 'C15', 'C27'], SEND)
def t_options(T):
    O = options()
    eng = T.eng(contracts=dict(optlib.CONTRACTS, parse_backslash_escape=c_escape, xmalloc=O.xmalloc), loops={'*': O.spec()})
    st = eng.start()
    argc, argv = optlib.mk_argv(eng, st)
    O.start(st)
    st.ghost.update(chr_d=9, chr_e=23, level=2, on=on_option, seen_s=False, seen_S=False)
    fn = 'get_options'
    for s, p in T.run(eng, fn, st, [argc, argv]):
        eng.cover(s, fn)
        eng.check_p(s, ptr_eq(p, s.ghost['options']), fn + ': the options are returned', C16)
        for lab, f in O.inv(eng, s):
            eng.check_p(s, f, fn + ': ' + lab, C27 if ' log ' in lab else C16 + C13 + C18 + ['C15'] + C27)
        optlib.returned(eng, s, fn)
        f = lambda n: eng.fld(s, p, 'options', n)
        eng.check_p(s, ne(f('delimiter'), f('separator')), fn + ': the field delimiter differs from the record separator', C13 + ['C15'])
    for s in eng.exits:
        e = [x for x in s.trace if x[0] == 'exit'][-1]
        g = s.ghost
        o = g.get('opt')
        f = lambda n: eng.fld(s, g['options'], 'options', n)
        d = g.get('chr_d')
        optlib.ended(eng, s, fn, Or('refused' in g, And(o == 'd', *([Or(*[eq(d, x) for x in (0, 10, 23, 92)])] if o == 'd' else [])),
                                    And(o in ('D', 'o'), lt(g.get('num_%s' % o), 0) if g.get('num_%s' % o) is not None else False),
                                    And(o == 'end', eq(schar(d), schar(g['chr_e'])))))
        eng.check_p(s, Or(o in ('h', 'V', None), ne(e[2], 0)), fn + ': the program ends with status 0 only after the requested information was printed', C16)
        eng.check_p(s, 'refused' not in s.ghost or ne(e[2], 0), fn + ': a bad argument of -d or -e is an error', C18)


# ---------------------------------------------------------------- main()
def conf_contracts():
    """conf.c (verified by the conf.* tasks): a mapping from names to values"""
    def key(eng, st, p):
        k = libc.fmt_of(eng, st, p)
        if k is None:
            raise Unsupported('configuration variable')
        return k.decode()

    def use(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, 'conf' in g and ptr_eq(a[0], g['conf']) and st.objs[g['conf'].obj].alive is True, 'the configuration was read', C16 + C26, 'pre', node)
        return key(eng, st, a[1])

    def init(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, 'conf' not in g, 'the configuration is read once', C16, 'pre', node)
        out = []
        for s, p in eng.resolve(st, a[0], node):
            eng.strlen_of(s, p, node, 'conf_init')
            b, h = s.ghost['opt_conf_file']
            eng.check_p(s, ptr_eq(p, h) if p.obj == h.obj else Not(b), 'conf_init(): the file given with -c, or the default one', C16 + C27, 'pre', node)
            s.ghost['conf'] = eng.new_obj(s, 1, 'static2', 'configuration')
            out.append((s, s.ghost['conf']))
        return out

    def getstr(eng, st, a, node):
        k = use(eng, st, a, node)
        g = st.ghost
        if ('s', k) not in g:
            g[('s', k)] = eng.new_string(st, 'value of ' + k, 'param')
        return [(st, g[('s', k)])]

    def getint(eng, st, a, node):
        k = use(eng, st, a, node)
        g = st.ghost
        if ('i', k) not in g:
            v = fresh_int('value of ' + k)
            st.assume(v >= 0, v <= 2147483647)         # conf.file: numbers out of range are rejected
            g[('i', k)] = v
        return [(st, g[('i', k)])]

    def setstr(eng, st, a, node):
        k = use(eng, st, a, node)
        for s, p in eng.resolve(st, a[2], node):
            n = eng.strlen_of(s, p, node, 'conf_setstr')
            q = libc.new_copy(eng, s, p, n, 'value of ' + k)
            s.objs[q.obj] = s.objs[q.obj].with_(kind='param')
            eng.assume_len(s, q, n)
            s.ghost[('s', k)] = q
            s.ghost[('from', k)] = p
            yield s, None

    def setint(eng, st, a, node):
        k = use(eng, st, a, node)
        st.ghost[('i', k)] = a[2]
        return [(st, None)]
    return {'conf_init': init, 'conf_getstr': getstr, 'conf_getint': getint, 'conf_setint': setint,
            'conf_setstr': lambda *a: list(setstr(*a))}


@task('send_nsca.main', ['C16', 'C13', 'C15', 'C26', 'C27'], SEND)
def t_main(T):
    O = options()

    def c_get(eng, st, a, node):
        g = st.ghost
        p = O.mk(eng, st)
        f = lambda n, v: eng.setfld(st, p, 'options', n, v)
        for n, lo_, hi_ in (('delimiter', -128, 127), ('separator', -128, 127), ('delay', -1, 2147483647), ('timeout', -1, 2147483647),
                            ('log_level', -1, 5), ('log_target', -1, 7), ('raw_commands', 0, 1)):
            v = fresh_int(n)
            st.assume(v >= lo_, v <= hi_)
            f(n, v)
            g['o_' + n] = v
        return [(st, p)]

    def c_start(eng, st, a, node):
        g = st.ghost
        fm = libc.made_of(st, a[0])
        eng.check_p(st, 'started' not in g and 'conf' in g, 'client_start(): once, configured', C16, 'pre', node)
        g['started'] = True
        lv, tg = g['o_log_level'], g['o_log_target']
        eng.check_p(st, eq(g.get('log_level', -9), Ite(ne(lv, -1), lv, 2)), 'client_start(): messages up to the selected level are logged (warnings by default)', C27, 'pre', node)
        eng.check_p(st, eq(g.get('log_target', -9), Ite(ne(tg, -1), tg, 2)), 'client_start(): messages go where the options say (standard error by default)', C27, 'pre', node)
        dl = g.get(('i', 'delay'))
        eng.check_p(st, And(dl is not None, *([eq(g['slept'], Ite(ne(dl, 0), 1, 0))] if dl is not None else [])), 'client_start(): after the delay, if one is configured', C27, 'pre', node)
        ok = fm is not None and len(fm) == 3 and fm[0][0] == 'str' and fm[1] == ('lit', b':') and fm[2][0] == 'str'
        eng.check_p(st, ok, 'client_start(): address of the form server:port', C16, 'pre', node)
        if ok:
            for i, k in ((0, 'server'), (2, 'port')):
                eng.check_p(st, ('s', k) in g and ptr_eq(fm[i][1], g[('s', k)]), 'client_start(): the configured %s' % k, C16, 'pre', node)
        eng.check_p(st, ('s', 'tls_ciphers') in g and ptr_eq(a[1], g[('s', 'tls_ciphers')]), 'client_start(): the configured ciphers', C16, 'pre', node)
        eng.check_p(st, ('i', 'timeout') in g and eq(a[2], z3.ToReal(toz(g[('i', 'timeout')]))), 'client_start(): the configured timeout', C16 + ['C21'], 'pre', node)
        eng.check_p(st, And(eq(a[3], Ite(ne(g['o_raw_commands'], 0), 0, 1)), eq(a[4], g['o_delimiter']), eq(a[5], g['o_separator'])),
                    'client_start(): mode, delimiter and separator of the options', C16 + C13 + ['C15'], 'pre', node)
        for k, o in (('server', 'server'), ('port', 'port')):
            b, h = g['opt_' + o]
            src = g.get(('from', k))
            eng.check_p(st, ptr_eq(src, h) if src is not None else Not(b), 'client_start(): the %s option takes precedence' % k, C16 + C27, 'pre', node)
        for o, k in (('delay', 'delay'), ('timeout', 'timeout')):
            v = g['o_' + o]
            eng.check_p(st, Implies(ne(v, -1), eq(g.get(('i', k), -2), v)), 'client_start(): the %s option takes precedence' % k, C16 + C27, 'pre', node)
        return [(st, eng.new_obj(st, 1, 'param', 'client'))]

    def c_run(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, 'started' in g and 'ran' not in g, 'ev_run(): after the client was started', C16, 'pre', node)
        v = fresh_int('exit_code')
        st.assume(v >= 0, v <= 255)
        eng.wr(st, eng.global_ptr(st, 'exit_code'), INT, v)
        g['ran'] = v
        return [(st, 0)]

    def c_atexit(eng, st, a, node):
        g = st.ghost
        g['atexit'] = g.get('atexit', ()) + (eng.fnnames.get(a[0].obj) if is_c(a[0].obj) else None,)
        bad = st.copy()
        return [(st, 0), (bad, 1)]

    def c_none(eng, st, a, node):
        return [(st, fresh_int('r'))]

    def c_logset(eng, st, a, node):
        """verified by log.set: -1 leaves a setting as it is"""
        g = st.ghost
        for k, v in (('log_level', a[0]), ('log_target', a[1])):
            g[k] = Ite(eq(v, -1), g.get(k, -9), v)
        return [(st, None)]

    def slept(eng, st, sec, nsec, node):
        g = st.ghost
        d = g.get(('i', 'delay'))
        eng.check_p(st, And('started' not in g, d is not None, eq(g['slept'], 0)), 'the delay: once, before the server is contacted', C27, 'pre', node)
        if d is not None:
            eng.check_p(st, And(le(0, sec), le(sec, d), le(0, nsec), lt(nsec, 1000000000), Or(lt(sec, d), eq(nsec, 0))), 'the delay: between 0 and the configured number of seconds', C27, 'pre', node)
        g['slept'] = 1

    def c_nanosleep(eng, st, a, node):
        f = lambda n: eng.fld(st, a[0], 'timespec', n)
        slept(eng, st, f('tv_sec'), f('tv_nsec'), node)
        return [(st, 0)]

    def c_sleep(eng, st, a, node):
        slept(eng, st, a[0], 0, node)
        return [(st, 0)]

    def c_rand(eng, st, a, node):
        need_bytes(eng, st, a[0], a[1], node, 'RAND_bytes', write=True)
        v = fresh_int('random')
        st.assume(v >= 0, v < (1 << 64))
        eng.wr(st, a[0], cfront.ULONG, v)
        return [(st, fresh_int('r'))]
    eng = T.eng(contracts=dict(conf_contracts(), get_options=c_get, client_start=c_start, ev_run=c_run, atexit=c_atexit, setprogname=c_none,
                               log_set=c_logset, nanosleep=c_nanosleep, RAND_bytes=c_rand, RAND_pseudo_bytes=c_rand, sleep=c_sleep,
                               nsca_version=optlib.CONTRACTS['nsca_version']))
    st = eng.start()
    argc, argv = optlib.mk_argv(eng, st)
    st.ghost['slept'] = 0
    fn = 'main'
    for s, r in T.run(eng, fn, st, [argc, argv]):
        eng.cover(s, fn)
        g = s.ghost
        eng.check_p(s, 'ran' in g and eq(r, g['ran']), fn + ': the exit status is that of the conversation', C16)
        eng.check_p(s, 'forget_config' in g.get('atexit', ()) and 'log_close' in g.get('atexit', ()), fn + ': secrets are wiped at exit', C26)
        eng.check_p(s, ptr_eq(eng.rd(s, eng.global_ptr(s, 'cfg'), cfront.ptr(cfront.VOID)), g['conf']), fn + ': the configuration is known to the exit handler', C26)
        bad = [o.name for i, o in s.objs.items() if o.kind == 'heap' and o.alive is True]
        eng.check_p(s, not bad, fn + ': memory is released', C16)
    for s in eng.exits:
        e = [x for x in s.trace if x[0] == 'exit'][-1]
        eng.check_p(s, ne(e[2], 0), fn + ': ends with a nonzero status for an error', C16)
        eng.check_p(s, 'conf' not in s.ghost or 'forget_config' in s.ghost.get('atexit', ()), fn + ': the exit handler is registered before the configuration is read', C26)
