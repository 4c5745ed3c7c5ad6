"""src/server/conf.c: patterns (C03), completeness and consistency of the server configuration (C22)"""
from vtask import *
from libc import *
import libc, ere
from specs.s_cconf import calls

CONF = ['src/server/conf.c']
C03, C22 = ['C03'], ['C22']
HOLES = {'X': (1000, 1001), 'S': (1002, 1003), 'H': (1004, 1005)}
SPEC = {
    'parse_command_pattern_cb': '^(X)\n?$',
    'parse_host_pattern_cb': '^PROCESS_HOST_CHECK_RESULT;(X);.+\n?$',
    'parse_service_pattern_cb': {False: '^PROCESS_SERVICE_CHECK_RESULT;[^;]+;(X);.+;.+\n?$',
                                 True: '^PROCESS_SERVICE_CHECK_RESULT;(H);(S);.+;.+\n?$'},
}


def fill(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            a, b = HOLES[p[1]]
            out += [a, 124, b]
        else:
            out += list(p)
    return out


def spec_text(s):
    out = []
    for c in s:
        out += fill([('hole', c)]) if c in HOLES and c != 'S' and c != 'H' else [ord(c)]
    # `S' and `H' are holes only as whole groups
    t, i = [], 0
    while i < len(out):
        if out[i] == 40 and i + 2 < len(out) and chr(out[i + 1]) in 'SH' and out[i + 2] == 41:
            t += [40] + fill([('hole', chr(out[i + 1]))]) + [41]
            i += 3
        else:
            t.append(out[i])
            i += 1
    return t


class Refuted(Exception):
    pass


def expand(eng, st, p, depth=0):
    """the text of a string as literal parts and holes"""
    g = st.ghost
    if depth > 5:
        raise Unsupported('text of a pattern')
    lit = libc.lit_bytes(eng, st, p)
    if lit is not None:
        return [bytes(lit)]
    n = eng.strlen_of(st, p)
    o = st.objs[p.obj]
    v, vn, at = g['value'], g['n'], g['at']
    b = lambda k: eng.byte_at(st, Ptr(p.obj, add(p.off, k)))

    def same(lo, ln):
        return eng.proves(st, And(eq(n, ln), eng.forall_bytes(lambda k: eq(b(k), g['V'](toz(add(k, lo)))), 0, ln)), 4000, True)
    if libc.made_of(st, p):
        out = []
        for x in o.meta['fmt']:
            if x[0] == 'lit':
                out.append(x[1])
            elif x[0] == 'str':
                s = x[3].copy()
                s.ghost = g
                out += expand(eng, s, x[1], depth + 1)
            else:
                raise Unsupported('number in a pattern')
        return out
    if same(0, vn):
        return [('hole', 'X')]
    if at is not None:
        if same(0, at):
            return [('hole', 'S')]
        if same(add(at, 1), sub(sub(vn, at), 1)):
            return [('hole', 'H')]
    eng.check_p(st, False, '%s: every part of the regular expression that is not fixed is the value%s' % (
        g['fn'], ', or its service or host part, which the last `@\' separates' if g['fn'].startswith('parse_service') else ''), C03, 'pre', g.get('renode'))
    raise Refuted


def c_regcomp(eng, st, a, node):
    g = st.ghost
    re, pat, flags = a
    need_bytes(eng, st, re, eng.recsize('re_pattern_buffer'), node, 'regcomp', write=True)
    eng.check_p(st, And(is_c(flags), (flags & 1) == 1 if is_c(flags) else False, (flags & ~9) == 0 if is_c(flags) else False),
                'regcomp(): an extended regular expression, matched case-sensitively, newlines being ordinary characters', C03, 'pre', node)
    fn = g['fn']
    g['renode'] = None
    try:
        parts = expand(eng, st, pat)
    except Refuted:
        return []
    want = SPEC[fn]
    if isinstance(want, dict):
        want = want[g['at'] is not None]
    try:
        w = ere.equivalent(tuple(fill(parts)), tuple(spec_text(want)))
    except ere.Bad as e:
        raise Unsupported('regular expression: %s' % e)
    shown = ''.join('<%s>' % p[1] if isinstance(p, tuple) else p.decode('latin-1') for p in parts).replace('\n', '\\n')
    eng.check_p(st, w is None, '%s: the pattern, as one unit, anchored in its place (%s)%s' % (
        fn, 'host and service part' if g['at'] is not None and fn.startswith('parse_service') else 'whole value',
        '' if w is None else ': `%s\' decides about `%s\' differently' % (shown, ere.show(w))), C03, 'pre', node)
    bad = st.copy()
    g['compiled'] = g['compiled'] + (re,)
    r = fresh_int('regcomp')
    bad.assume(r >= 1, r <= 20)
    bad.ghost['reerr'] = r
    return [(st, 0), (bad, r)]


def c_regerror(eng, st, a, node):
    from specs.s_auth import h_regerror
    g = st.ghost
    return h_regerror(eng, st, a, node)


def cfg_err(eng, st, a, node):
    libc.check_fmt_args(eng, st, a[1], a[2:], node, 'cfg_error')
    st.ghost['error'] = True
    return [(st, None)]


PAT = {'regcomp': c_regcomp, 'regerror': c_regerror, 'cfg_error': cfg_err}


@task('sconf.patterns', ['C03', 'C22', 'C02'], CONF)
def t_patterns(T):
    for fn in SPEC:
        for at in ((False, True) if fn.startswith('parse_service') else (False,)):
            eng = T.eng(contracts=dict(PAT), loops={'*': LoopSpec(auto=False)})
            st = eng.start()
            v = eng.new_string(st, 'value', 'param')
            n = eng.strlen_of(st, v)
            s0 = st.copy()
            b = lambda k: eng.byte_at(s0, Ptr(v.obj, k))
            V = fresh_fun('V', I, I)
            k = z3.Int('kv')
            st.assume(z3.ForAll([k], V(k) == toz(b(k)), patterns=[V(k)]), eng.forall_bytes(lambda j: eq(V(toz(j)), b(j)), 0, n))
            pos = None
            if fn.startswith('parse_service'):
                if at:
                    pos = fresh_int('at')
                    st.assume(pos >= 0, lt(pos, n), eq(b(pos), 64), eng.forall_bytes(lambda j: ne(b(j), 64), add(pos, 1), n))
                else:
                    st.assume(eng.forall_bytes(lambda j: ne(b(j), 64), 0, n))
            cfg, opt = eng.new_obj(st, 1 << 12, 'heap', 'cfg'), eng.new_struct(st, 'cfg_opt_t', 'heap', 'option')
            name = eng.new_string(st, 'name', 'heap')
            eng.setfld(st, opt, 'cfg_opt_t', 'name', name)
            res = eng.new_obj(st, 8, 'param', 'result')
            st.ghost.update(value=v, n=n, at=pos, V=V, fn=fn, compiled=(), error=False)
            s0 = st.copy()
            for s, r in T.run(eng, fn, st, [cfg, opt, v, res]):
                g = s.ghost
                q = eng.rd(s, res, cfront.ptr(cfront.VOID))
                for good, cond in ((True, eq(r, 0)), (False, ne(r, 0))):
                    if not eng.feasible(s, cond):
                        continue
                    x = s.copy()
                    x.assume(cond)
                    eng.cover(x, fn + (': accepted' if good else ': refused'))
                    if good:
                        ok = len(g['compiled']) == 1 and is_c(q.obj) and q.obj in x.objs and x.objs[q.obj].alive is True and x.objs[q.obj].kind == 'heap'
                        eng.check_p(x, And(ok, ptr_eq(q, g['compiled'][-1]) if g['compiled'] else False, 'reerr' not in g), fn + ': the result is the compiled pattern', C03 + C22)
                    else:
                        eng.check_p(x, And('reerr' in g, g['error']), fn + ': refused only with an error message, because the pattern is invalid', C22)
                leak = [o for o in s.objs.values() if o.kind == 'heap' and o.alive is True and o.id not in s0.objs and not (is_c(q.obj) and q.obj == o.id)]
                eng.check_p(s, not leak, fn + ': temporary strings are released', C22)
                eng.check_p(s, s.objs[v.obj].writes is s0.objs[v.obj].writes, fn + ': the value is not modified', C03)

    def c_regfree(eng, st, a, node):
        eng.check(st, And(ptr_eq(a[0], st.ghost['re']), st.objs[a[0].obj].alive is True), 'regfree(): the compiled pattern', node)
        st.ghost['freed'] = st.ghost['freed'] + 1
        return [(st, None)]
    eng = T.eng(contracts={'regfree': c_regfree})
    st = eng.start()
    re = eng.new_obj(st, 64, 'heap', 'pattern')
    st.ghost.update(re=re, freed=0)
    for s, r in T.run(eng, 'free_auth_pattern_cb', st, [re]):
        eng.cover(s, 'pattern released')
        eng.check_p(s, s.ghost['freed'] == 1 and s.objs[re.obj].alive is False, 'free_auth_pattern_cb: everything is released once', C22)


# ---------------------------------------------------------------- option tables and conf_parse()
GLOBAL = {'include': 'func', 'chroot': 'str', 'command_file': 'str', 'commands': 'str', 'hosts': 'str', 'listen': 'str', 'log_level': 'int',
          'max_command_size': 'int', 'max_queue_size': 'int', 'password': 'str', 'pid_file': 'str', 'services': 'str', 'temp_directory': 'str',
          'tls_ciphers': 'str', 'timeout': 'float', 'user': 'str', 'authorize': 'sec'}
NODEF = ('chroot', 'commands', 'hosts', 'password', 'pid_file', 'services', 'user')
TYPES = {'int': 1, 'float': 2, 'str': 3, 'sec': 5, 'func': 6, 'ptr': 7}
SECTION = {'password': ('str', None), 'commands': ('ptr', 'parse_command_pattern_cb'), 'hosts': ('ptr', 'parse_host_pattern_cb'),
           'services': ('ptr', 'parse_service_pattern_cb')}
NONNEG = {'log_level': 'validate_unsigned_int_cb', 'max_command_size': 'validate_unsigned_int_cb', 'max_queue_size': 'validate_unsigned_int_cb',
          'timeout': 'validate_unsigned_float_cb'}


def table(eng, st, p):
    out = {}
    es = eng.recsize('cfg_opt_t')
    for i in range(40):
        q = Ptr(p.obj, add(p.off, i * es))
        nm = eng.fld(st, q, 'cfg_opt_t', 'name')
        if is_c(nm.obj) and nm.obj == 0:
            return out
        lit = libc.lit_bytes(eng, st, nm)
        if lit is None:
            raise Unsupported('name of an option')
        nm = bytes(lit).decode()
        eng.check_p(st, nm not in out, 'every option is defined once', C22)
        out[nm] = {f: eng.fld(st, q, 'cfg_opt_t', f) for f in ('type', 'flags', 'subopts', 'func', 'parsecb', 'freecb')}
    raise Unsupported('option table')


def fnname(eng, p):
    return None if is_c(p.obj) and p.obj == 0 else eng.fnnames.get(p.obj, '?')


@task('sconf.parse', ['C22', 'C03', 'C02'], CONF)
def t_parse(T):
    def c_init(eng, st, a, node):
        P = C22
        t = table(eng, st, a[0])
        eng.check_p(st, set(t) == set(GLOBAL), 'cfg_init(): the documented settings', P, 'pre', node)
        for k, d in t.items():
            if k not in GLOBAL:
                continue
            eng.check_p(st, eq(d['type'], TYPES[GLOBAL[k]]), 'setting `%s\': type' % k, P, 'pre', node)
            if GLOBAL[k] == 'sec':
                eng.check_p(st, eq(d['flags'], 1 | 8 | 32), 'authorize sections: any number, with a title, without duplicates', P, 'pre', node)
                sub_ = table(eng, st, d['subopts'])
                eng.check_p(st, set(sub_) == set(SECTION), 'authorize sections: the documented settings', P, 'pre', node)
                for n, (ty, cb) in SECTION.items():
                    if n in sub_:
                        x = sub_[n]
                        eng.check_p(st, eq(x['type'], TYPES[ty]), 'authorize setting `%s\': type' % n, P, 'pre', node)
                        eng.check_p(st, eq(x['flags'], 16 | (2 if cb else 0)), 'authorize setting `%s\': no default%s' % (n, ', any number of values' if cb else ''), P, 'pre', node)
                        eng.check_p(st, fnname(eng, x['parsecb']) == cb, 'authorize setting `%s\': parsed as its kind of pattern' % n, P + C03 + ['C02'], 'pre', node)
            else:
                eng.check_p(st, eq(d['flags'], 16 if k in NODEF else 0), 'setting `%s\': default' % k, P, 'pre', node)
            eng.check_p(st, fnname(eng, d['func']) == ('include_cb' if k == 'include' else None), 'setting `%s\': function' % k, P, 'pre', node)
        c = eng.new_obj(st, 1 << 12, 'heap', 'cfg')
        st.ghost['cfg'] = c
        return [(st, c)]

    def c_setval(eng, st, a, node):
        g = st.ghost
        nm = bytes(libc.lit_bytes(eng, st, a[1]) or b'').decode()
        eng.check_p(st, ptr_eq(a[0], g['cfg']), 'cfg_set_validate_func(): the configuration', C22, 'pre', node)
        g['valid'] = dict(g['valid'], **{nm: fnname(eng, a[2])})
        return [(st, NULL)]

    def parsed(name):
        def h(eng, st, a, node):
            g = st.ghost
            eng.check_p(st, And(ptr_eq(a[0], g['cfg']), ptr_eq(a[1], g['path'])), '%s(): the given file' % name, C22, 'pre', node)
            for k, f in NONNEG.items():
                eng.check_p(st, g['valid'].get(k) == f, 'the value of `%s\' is checked' % k, C22, 'pre', node)
            eng.check_p(st, not g['parses'], 'the configuration is parsed once', C22, 'pre', node)
            g['parses'] = g['parses'] + (name,)
            r = fresh_int('status')
            st.assume(r >= -1, r <= 1)
            g['status'] = r
            return [(st, r)]
        return h

    def c_stat(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, ptr_eq(a[0], g['path']), 'stat(): the given path', C22, 'pre', node)
        bad = st.copy()
        bad.ghost['cause'] = True
        libc.set_errno(eng, bad)
        m = fresh_int('mode')
        st.assume(m >= 0, m <= 4294967295)
        eng.setfld(st, a[1], 'stat', 'st_mode', m)
        g['mode'] = m
        return [(st, 0), (bad, -1)]

    def c_process(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(ptr_eq(a[0], g['cfg']), len(g['parses']) == 1, eq(g.get('status', 1), 0)), 'process_auth_sections(): after the configuration was parsed successfully', C22, 'pre', node)
        g['processed'] = g['processed'] + 1
        return [(st, None)]

    def c_exit(eng, st, a, node):
        eng.check_p(st, ne(a[0], 0), 'errors end the program with a nonzero status', C22, 'pre', node)
        st.event('exit', 'exit', a[0])
        eng.exit_path(st)
        return []
    eng = T.eng(contracts={'cfg_init': c_init, 'cfg_set_validate_func': c_setval, 'stat': c_stat, 'cfg_parse': parsed('cfg_parse'),
                           'parse_include': parsed('parse_include'), 'process_auth_sections': c_process, 'exit': c_exit})
    st = eng.start()
    path = eng.new_string(st, 'path', 'param')
    st.ghost.update(path=path, valid={}, parses=(), processed=0, cfg=NULL)
    for s, r in T.run(eng, 'conf_parse', st, [path]):
        g = s.ghost
        eng.cover(s, 'configuration parsed')
        eng.check_p(s, And(g['processed'] == 1, ptr_eq(r, g['cfg'])), 'conf_parse: the sections are processed, the configuration is returned', C22)
        isdir = eq(ival((toz(g['mode']) / 4096) % 16), 4) if 'mode' in g else False
        eng.check_p(s, Iff(isdir, g['parses'] == ('parse_include',)), 'conf_parse: directories are included, files parsed', C22)
    for s in eng.exits:
        g = s.ghost
        eng.check_p(s, Or(g.get('cause') is True, ne(g.get('status', 0), 0)), 'conf_parse: only an error ends the program', C22)


@task('sconf.include', ['C22'], CONF)
def t_include(T):
    # parse_include()
    def c_buf(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, ptr_eq(a[0], g['cfg']), 'cfg_parse_buf(): the configuration', C22, 'pre', node)
        pc = libc.made_of(st, a[1])
        if pc is None:
            raise Unsupported('include statement')
        import re
        ok = len(pc) == 3 and pc[0][0] == 'lit' and pc[1][0] == 'str' and pc[2][0] == 'lit' and re.fullmatch(rb'\s*include\s*\(\s*\'', pc[0][1]) and re.fullmatch(rb'\'\s*\)\s*', pc[2][1])
        eng.check_p(st, And(bool(ok), ok and ptr_eq(pc[1][1], g['path']), ok and eq(pc[1][2], g['n'])), 'the include statement names the path', C22, 'pre', node)
        r = fresh_int('status')
        st.assume(r >= -1, r <= 1)
        g['status'] = r
        return [(st, r)]
    eng = T.eng(contracts={'cfg_parse_buf': c_buf})
    st = eng.start()
    path = eng.new_string(st, 'path', 'param')
    cfg = eng.new_obj(st, 1 << 12, 'heap', 'cfg')
    st.ghost.update(path=path, n=eng.strlen_of(st, path), cfg=cfg)
    s0 = st.copy()
    for s, r in T.run(eng, 'parse_include', st, [cfg, path]):
        eng.cover(s, 'parse_include')
        eng.check_p(s, eq(r, s.ghost.get('status', -9)), 'parse_include: reports the result', C22)
        eng.check_p(s, not [o for o in s.objs.values() if o.kind == 'heap' and o.alive is True and o.id not in s0.objs], 'parse_include: temporary strings are released', C22)

    # check_parse_success()
    def c_exit(eng, st, a, node):
        eng.check_p(st, ne(a[0], 0), 'errors end the program with a nonzero status', C22, 'pre', node)
        eng.exit_path(st)
        return []
    eng = T.eng(contracts={'exit': c_exit})
    st = eng.start()
    v = fresh_int('status')
    st.assume(v >= -2147483648, v <= 2147483647)
    for s, r in T.run(eng, 'check_parse_success', st, [v]):
        eng.cover(s, 'parsing succeeded')
        eng.check_p(s, eq(v, 0), 'check_parse_success: returns only after success', C22)
    for s in eng.exits:
        eng.check_p(s, ne(v, 0), 'check_parse_success: success does not end the program', C22)

    # validation callbacks
    for fn, get, real in (('validate_unsigned_int_cb', 'cfg_opt_getnint', False), ('validate_unsigned_float_cb', 'cfg_opt_getnfloat', True)):
        def c_get(eng, st, a, node):
            g = st.ghost
            eng.check_p(st, And(ptr_eq(a[0], g['opt']), eq(a[1], sub(g['N'], 1))), 'the value just set', C22, 'pre', node)
            return [(st, g['v'])]
        eng = T.eng(contracts={get: c_get, 'cfg_error': cfg_err, 'cfg_opt_size': lambda e, s, a, n: [(s, s.ghost['N'])]})
        st = eng.start()
        opt = eng.new_struct(st, 'cfg_opt_t', 'heap', 'option')
        eng.setfld(st, opt, 'cfg_opt_t', 'name', eng.new_string(st, 'name', 'heap'))
        cfg = eng.new_obj(st, 1 << 12, 'heap', 'cfg')
        N = fresh_int('N')
        v = fresh_real('v') if real else fresh_int('v')
        st.assume(N >= 1, N < 1 << 30)
        if not real:
            st.assume(v >= -(1 << 63), v < 1 << 63)
        st.ghost.update(opt=opt, N=N, v=v, error=False)
        for s, r in T.run(eng, fn, st, [cfg, opt]):
            eng.cover(s, fn)
            eng.check_p(s, Iff(eq(r, 0), v >= 0), fn + ': negative values are refused', C22)
            eng.check_p(s, Implies(ne(r, 0), s.ghost['error']), fn + ': refused with an error message', C22)

    # include_cb()
    def c_tilde(eng, st, a, node):
        bad = st.copy()
        bad.ghost['cause'] = True
        p = eng.new_string(st, 'expanded', 'heap')
        st.ghost['expanded'] = p
        return [(st, p), (bad, NULL)]

    def c_stat(eng, st, a, node):
        eng.check_p(st, ptr_eq(a[0], st.ghost.get('expanded', NULL)), 'stat(): the expanded path', C22, 'pre', node)
        bad = st.copy()
        bad.ghost['cause'] = True
        libc.set_errno(eng, bad)
        m = fresh_int('mode')
        st.assume(m >= 0, m <= 4294967295)
        eng.setfld(st, a[1], 'stat', 'st_mode', m)
        st.ghost['mode'] = m
        return [(st, 0), (bad, -1)]

    def c_incl(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(ptr_eq(a[0], g['cfg']), ptr_eq(a[1], g['opt']), eq(a[2], 1), ptr_eq(a[3], g['argv'])), 'cfg_include(): the given file', C22, 'pre', node)
        r = fresh_int('included')
        st.assume(r >= -1, r <= 1)
        g['status'] = r
        g['done'] = g['done'] + ('file',)
        return [(st, r)]

    def c_nftw(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(ptr_eq(a[0], g.get('expanded', NULL)), fnname(eng, a[1]) == 'include_file_cb'), 'nftw(): the expanded path', C22, 'pre', node)
        ip = eng.global_ptr(st, 'include_cfg')
        eng.check_p(st, ptr_eq(eng.rd(st, ip, cfront.ptr(cfront.VOID)), g['cfg']), 'nftw(): files are included into this configuration', C22, 'pre', node)
        r = fresh_int('nftw')
        st.assume(r >= -1, r <= 0)      # include_file_cb() returns 0
        g['status'] = r
        libc.set_errno(eng, st)
        g['done'] = g['done'] + ('dir',)
        return [(st, r)]
    eng = T.eng(contracts={'cfg_tilde_expand': c_tilde, 'stat': c_stat, 'cfg_include': c_incl, 'nftw': c_nftw, 'cfg_error': cfg_err,
                           'strerror': lambda e, s, a, n: [(s, e.new_string(s, 'error description', 'static'))]})
    st = eng.start()
    opt = eng.new_struct(st, 'cfg_opt_t', 'heap', 'option')
    eng.setfld(st, opt, 'cfg_opt_t', 'name', eng.new_string(st, 'name', 'heap'))
    cfg = eng.new_obj(st, 1 << 12, 'heap', 'cfg')
    arg0 = eng.new_string(st, 'argument', 'heap')
    argv = eng.new_obj(st, 8, 'param', 'argv')
    eng.wr(st, argv, cfront.ptr(CHAR), arg0)
    argc = fresh_int('argc')
    st.assume(argc >= 0, argc <= 1000)
    st.ghost.update(cfg=cfg, opt=opt, argv=argv, done=(), error=False)
    N = None
    if 'n_included' in eng.units[0].globals:
        N = fresh_int('n_included')
        st.assume(N >= 0, N < 1 << 63)
        eng.wr(st, eng.global_ptr(st, 'n_included'), cfront.ULONG, N)
    ids = set(st.objs)
    for s, r in T.run(eng, 'include_cb', st, [cfg, opt, argc, argv]):
        g = s.ghost
        fm = eq(ival((toz(g['mode']) / 4096) % 16), 8) if 'mode' in g else False
        dm = eq(ival((toz(g['mode']) / 4096) % 16), 4) if 'mode' in g else False
        a, b = eng.split(s, eq(r, 0))
        for x in a:
            eng.cover(x, 'included')
            eng.check_p(x, And(eq(argc, 1), len(g['done']) == 1, Ite(g['done'] == ('file',), fm, And(g['done'] == ('dir',), dm)), eq(g.get('status', 1), 0)),
                        'include_cb: succeeds only if the file or directory was included', C22)
        for x in b:
            eng.check_p(x, Or(g['error'], And(g['done'] == ('file',), ne(g.get('status', 0), 0))), 'include_cb: fails with an error message', C22)
            eng.check_p(x, Or(ne(argc, 1), g.get('cause', False), Not(Or(fm, dm)), ne(g.get('status', 0), 0), ge(N, 1000) if N is not None else False),
                        'include_cb: a file or directory is included unless there is an error', C22)
        if N is not None:
            eng.check_p(s, Or(ge(N, 10000000), eq(ival(eng.rd(s, eng.global_ptr(s, 'n_included'), cfront.ULONG)), add(N, 1))), 'include_cb: inclusions are counted', C22)
            eng.check_p(s, Implies(ge(N, 10000000), ne(r, 0)), 'include_cb: the number of inclusions is limited', C22)
        eng.check_p(s, not [o for o in s.objs.values() if o.kind == 'heap' and o.alive is True and o.id not in ids and 'error' not in o.name], 'include_cb: the expanded path is released', C22)

    # include_file_cb()
    def c_parse(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(ptr_eq(a[0], g['cfg']), ptr_eq(a[1], g['path'])), 'parse_include(): the file found', C22, 'pre', node)
        g['done'] = g['done'] + ('file',)
        r = fresh_int('status')
        st.assume(r >= -1, r <= 1)
        g['status'] = r
        return [(st, r)]

    def c_check(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And('status' in g, eq(a[0], g.get('status', 0))), 'the result of including the file is checked', C22, 'pre', node)
        st.assume(eq(a[0], 0))
        g['checked'] = True
        return [(st, None)]
    eng = T.eng(contracts={'parse_include': c_parse, 'check_parse_success': c_check})
    st = eng.start()
    path = eng.new_string(st, 'path', 'param')
    n = eng.strlen_of(st, path)
    b = lambda k: eng.byte_at(s0, Ptr(path.obj, k))
    cfg = eng.new_obj(st, 1 << 12, 'heap', 'cfg')
    eng.wr(st, eng.global_ptr(st, 'include_cfg'), cfront.ptr(cfront.VOID), cfg)
    s0 = st.copy()
    ends = lambda t: And(ge(n, len(t)), *[eq(b(add(sub(n, len(t)), i)), c) for i, c in enumerate(t)])
    ty = fresh_int('type')
    st.assume(ty >= 0, ty <= 10)
    st.ghost.update(cfg=cfg, path=path, done=())
    want = And(eq(ty, 0), Or(ends(b'.cfg'), ends(b'.conf')))
    for s, r in T.run(eng, 'include_file_cb', st, [path, NULL, ty, NULL]):
        g = s.ghost
        eng.cover(s, 'directory entry')
        eng.check_p(s, eq(r, 0), 'include_file_cb: the traversal goes on', C22)
        eng.check_p(s, Iff(want, len(g['done']) == 1), 'include_file_cb: exactly the .cfg and .conf files are included', C22)
        eng.check_p(s, Implies(len(g['done']) > 0, g.get('checked') is True), 'include_file_cb: errors in the file are noticed', C22)


# ---------------------------------------------------------------- sections
SET = ('hosts', 'services', 'commands', 'password')


@task('sconf.fallback', ['C22', 'C02', 'C04'], CONF)
def t_fallback(T):
    P = C22 + ['C02', 'C04']

    def which(eng, st, p):
        lit = libc.lit_bytes(eng, st, p)
        nm = bytes(lit).decode() if lit is not None else None
        if nm not in SET:
            raise Unsupported('setting %r' % nm)
        return SET.index(nm)

    def side(eng, st, p, node):
        g = st.ghost
        if ptr_eq(p, g['cfg']) is True:
            return 'G'
        if ptr_eq(p, g['auth']) is True:
            return 'A'
        raise Unsupported('configuration')

    def count(st, sd, k):
        return st.ghost['G%d' % k] if sd == 'G' else add(st.ghost['A%d' % k], st.ghost['set%d' % k])

    def c_size(eng, st, a, node):
        return [(st, count(st, side(eng, st, a[0], node), which(eng, st, a[1])))]

    def c_getopt(eng, st, a, node):
        return [(st, st.ghost['opt%s%d' % (side(eng, st, a[0], node), which(eng, st, a[1]))])]

    def optid(st, p):
        for k in range(4):
            for sd in 'GA':
                if ptr_eq(p, st.ghost['opt%s%d' % (sd, k)]) is True:
                    return sd, k
        raise Unsupported('option')

    def c_osize(eng, st, a, node):
        return [(st, count(st, *optid(st, a[0])))]

    def c_getn(eng, st, a, node):
        sd, k = optid(st, a[0])
        eng.check_p(st, And(sd == 'G', le(0, a[1]), lt(a[1], st.ghost['G%d' % k])), 'cfg_opt_getnstr(): a value of the global setting', P, 'pre', node)
        v = st.ghost['vals%d' % k]
        return [(st, Ptr(v.obj, mul(ival(a[1]), 8)))]

    def c_title(eng, st, a, node):
        return [(st, st.ghost['title'] if side(eng, st, a[0], node) == 'A' else NULL)]

    def value(eng, st, sd, k, i, node):
        g = st.ghost
        if sd == 'A':
            v = eng.new_string(st, 'value', 'heap')
            return [(st, v)]
        return [(st, Ptr(g['vals%d' % k].obj, mul(ival(i), 8)))]

    def c_getnstr(eng, st, a, node):
        sd, k = side(eng, st, a[0], node), which(eng, st, a[1])
        eng.check_p(st, And(le(0, a[2]), lt(a[2], count(st, sd, k))), 'cfg_getnstr(): a value of the setting', P, 'pre', node)
        return value(eng, st, sd, k, a[2], node)

    def c_set(eng, st, a, node):
        g = st.ghost
        sd, k = optid(st, a[1])
        eng.check_p(st, And(ptr_eq(a[0], g['auth']), sd == 'A'), 'cfg_setopt(): a setting of the section', P, 'pre', node)
        eng.check_p(st, eq(g['A%d' % k], 0), 'cfg_setopt(): settings a section has are not changed', P, 'pre', node)
        v = g['vals%d' % k]
        eng.check_p(st, And(eq(a[2].obj, v.obj), eq(a[2].off, mul(g['set%d' % k], 8))), 'cfg_setopt(): the values of the global setting of the same name, in order', P, 'pre', node)
        bad = st.copy()
        bad.ghost['failed'] = True
        g['set%d' % k] = add(g['set%d' % k], 1)
        r = eng.new_obj(st, 8, 'heap', 'value')
        return [(st, r), (bad, NULL)]

    def c_exit(eng, st, a, node):
        eng.check_p(st, And(ne(a[0], 0), st.ghost.get('failed') is True), 'exit: with a nonzero status, if a value was refused', P, 'pre', node)
        eng.exit_path(st)
        return []

    def inv(L):
        g = L.S.ghost
        j = None
        for nm, lst in L.frame.names.items():
            if nm == 'j' and lst:
                j = L.var('j')
        if j is None:
            raise Unsupported('loop variable j')
        r = []
        g0 = L.S0.ghost
        for k in range(4):
            if g['set%d' % k] is not g0['set%d' % k]:
                r.append(('values taken over', And(eq(g['set%d' % k], j), le(j, g['G%d' % k]))))
        return r

    def spec(eng, st):
        if calls(eng.cur_loop, ('cfg_opt_getnstr',)) and not calls(eng.cur_loop, ('cfg_size',)):
            return LoopSpec(inv=inv, auto=False)
        return LoopSpec(unroll=8)
    eng = T.eng(contracts={'cfg_size': c_size, 'cfg_getopt': c_getopt, 'cfg_opt_size': c_osize, 'cfg_opt_getnstr': c_getn, 'cfg_setopt': c_set, 'exit': c_exit,
                           'cfg_title': c_title, 'cfg_getnstr': c_getnstr},
                loops={'*': spec})
    st = eng.start()
    g = st.ghost
    g.update(cfg=eng.new_obj(st, 1 << 12, 'heap', 'cfg'), auth=eng.new_obj(st, 1 << 12, 'heap', 'section'),
             title=eng.new_string(st, 'title', 'heap'))
    for k in range(4):
        for sd in 'GA':
            v = z3.Int('%s%d' % (sd, k))
            st.assume(v >= 0, v < 1 << 28)
            g['%s%d' % (sd, k)] = v
            g['opt%s%d' % (sd, k)] = eng.new_obj(st, 64, 'heap', 'option')
        g['set%d' % k] = 0
        g['vals%d' % k] = eng.new_obj(st, mul(g['G%d' % k], 8), 'heap', 'values of ' + SET[k])
    for s, r in T.run(eng, 'fallback_to_defaults', st, [g['cfg'], g['auth']]):
        x = s.ghost
        eng.cover(s, 'defaults applied')
        for k in range(4):
            eng.check_p(s, Implies(eq(x['A%d' % k], 0), eq(x['set%d' % k], x['G%d' % k])), 'fallback_to_defaults: `%s\' is taken over if the section lacks it' % SET[k], P)


@task('sconf.sections', ['C22', 'C04', 'C02'], CONF)
def t_sections(T):
    P = C22 + ['C02', 'C04']
    K = 64

    def sec(eng, st, p, node, what):
        """index of the section p"""
        g = st.ghost
        eng.check_p(st, eq(p.obj, g['secs'].obj), what + ': a section', P, 'pre', node)
        return ival(simp(toz(p.off) / K)) if is_z3(p.off) else p.off // K

    def c_size(eng, st, a, node):
        g = st.ghost
        nm = bytes(libc.lit_bytes(eng, st, a[1]) or b'').decode()
        if ptr_eq(a[0], g['cfg']) is True:
            if nm != 'authorize':
                raise Unsupported('size of %s' % nm)
            return [(st, g['n'])]
        i = sec(eng, st, a[0], node, 'cfg_size()')
        if nm != 'password':
            raise Unsupported('size of %s' % nm)
        g['asked'] = i
        r = Ite(eq(g['fb'], add(i, 1)), g['PW'](toz(i)), g['PW0'](toz(i)))
        st.assume(g['PW'](toz(i)) >= 0, g['PW0'](toz(i)) >= 0, g['PW'](toz(i)) < 1 << 30, g['PW0'](toz(i)) < 1 << 30)
        return [(st, r)]

    def c_getnsec(eng, st, a, node):
        g = st.ghost
        nm = bytes(libc.lit_bytes(eng, st, a[1]) or b'').decode()
        eng.check_p(st, And(ptr_eq(a[0], g['cfg']), nm == 'authorize', le(0, a[2]), lt(a[2], g['n'])), 'cfg_getnsec(): an authorize section', P, 'pre', node)
        return [(st, Ptr(g['secs'].obj, mul(ival(a[2]), K)))]

    def c_title(eng, st, a, node):
        i = sec(eng, st, a[0], node, 'cfg_title()')
        t = st.ghost['titles'].obj
        st.assume(eq(eng.byte_at(st, Ptr(t, add(mul(i, K), K - 1))), 0))
        st.hints = st.hints + ((t, add(mul(i, K), K - 1)),)
        return [(st, Ptr(t, mul(i, K)))]

    def c_fb(eng, st, a, node):
        i = sec(eng, st, a[1], node, 'fallback_to_defaults()')
        eng.check_p(st, ptr_eq(a[0], st.ghost['cfg']), 'fallback_to_defaults(): the global settings', P, 'pre', node)
        st.ghost['fb'] = add(i, 1)
        return [(st, None)]

    def c_new(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(ge(a[0], g['n']), eq(g['table'], 0)), 'hash_new(): one table with room for every section', P, 'pre', node)
        g['table'] = 1
        return [(st, None)]

    def c_insert(eng, st, a, node):
        g = st.ghost
        d = g['done']
        eng.check_p(st, eq(g['table'], 1), 'hash_insert(): there is a table', P, 'pre', node)
        eng.check_p(st, And(eq(a[0].obj, g['titles'].obj), eq(a[0].off, mul(d, K)), eq(a[1].obj, g['secs'].obj), eq(a[1].off, mul(d, K))),
                    'hash_insert(): every section under its own title', P, 'pre', node)
        eng.check_p(st, eq(g['fb'], add(d, 1)), 'hash_insert(): the section took over global settings', P, 'pre', node)
        eng.check_p(st, g['PW'](toz(d)) > 0, 'hash_insert(): the section has a password', P, 'pre', node)
        g['done'] = add(d, 1)
        return [(st, None)]

    def inv(L):
        g = L.S.ghost
        i = L.var('i')
        return [('sections so far', And(eq(g['done'], i), le(0, i), le(i, g['n']))), ('table', eq(g['table'], 1)), ('order', le(g['fb'], i))]
    eng = T.eng(contracts={'cfg_size': c_size, 'cfg_getnsec': c_getnsec, 'cfg_title': c_title, 'fallback_to_defaults': c_fb, 'hash_new': c_new,
                           'hash_insert': c_insert}, loops={'*': LoopSpec(inv=inv, auto=False)})
    st = eng.start()
    g = st.ghost
    n = fresh_int('n')
    st.assume(n >= 0, n < 1 << 30)
    g.update(cfg=eng.new_obj(st, 1 << 12, 'heap', 'cfg'), secs=eng.new_obj(st, mul(n, K), 'heap', 'sections'), titles=eng.new_obj(st, mul(n, K), 'heap', 'titles'),
             n=n, done=0, fb=0, table=0, asked=-1, PW=fresh_fun('PW', I, I), PW0=fresh_fun('PW0', I, I))
    for s, r in T.run(eng, 'process_auth_sections', st, [g['cfg']]):
        eng.cover(s, 'sections processed')
        eng.check_p(s, And(gt(n, 0), eq(s.ghost['done'], n)), 'process_auth_sections: at least one section, all of them registered', P)
    for s in eng.exits:
        x = s.ghost
        d = x['done']
        eng.check_p(s, Or(eq(n, 0), And(eq(x['fb'], add(d, 1)), eq(x['asked'], d), x['PW'](toz(d)) <= 0)), 'process_auth_sections: ends the program only without sections or for lack of a password', P)
