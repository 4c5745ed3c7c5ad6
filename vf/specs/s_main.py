"""src/server/nsca-ng.c: startup, shutdown and restart of the server (C20, C22, C23, C26)"""
from vtask import *
from libc import *
import libc
import z3
from specs import optlib
from specs.s_pidfile import same_term, newfd
from specs.s_sconf import fnname

MAIN = ['src/server/nsca-ng.c']
C20, C22, C23, C26, C27 = ['C20'], ['C22'], ['C23'], ['C26'], ['C27']
VP = cfront.ptr(cfront.VOID)
T8 = cfront.BOOL if hasattr(cfront, 'BOOL') else cfront.UCHAR


def last_exit(s):
    return [x for x in s.trace if x[0] == 'exit'][-1]


# ---------------------------------------------------------------- options
def target_ok(eng, s):
    g = s.ghost
    v = eng.fld(s, g['options'], 'options', 'log_target')
    S, y = tob(g['seen_S']), tob(g['seen_s'])
    return [('the log targets are those given', eq(v, Ite(S, 3, Ite(y, 1, -1))))]


def opt_ghosts(s):
    for k in 'sS':
        s.ghost['seen_' + k] = fresh_bool('seen_' + k)


def options():
    return optlib.Options('options', {'b': 'bind', 'C': 'command_file', 'c': 'conf_file', 'P': 'pid_file'}, {'l': 'log_level'},
                          {'F': 'foreground'}, target_ok, opt_ghosts)


@task('main.options', ['C22', 'C23', 'C20', 'C27'], MAIN)
def t_options(T):
    O = options()
    eng = T.eng(contracts=dict(optlib.CONTRACTS, xmalloc=O.xmalloc), loops={'*': O.spec()})
    st = eng.start()
    argc, argv = optlib.mk_argv(eng, st)
    O.start(st)
    st.ghost.update(seen_s=False, seen_S=False)
    fn = 'get_options'
    for s, p in T.run(eng, fn, st, [argc, argv]):
        eng.cover(s, fn)
        eng.check_p(s, ptr_eq(p, s.ghost['options']), fn + ': the options are returned', C22)
        for lab, f in O.inv(eng, s):
            eng.check_p(s, f, fn + ': ' + lab, C27 if ' log ' in lab else C22 + C23 + C27)
        optlib.returned(eng, s, fn)
    for s in eng.exits:
        optlib.ended(eng, s, fn)
        eng.check_p(s, Or(s.ghost.get('opt') in ('h', 'V', None), ne(last_exit(s)[2], 0)),
                    fn + ': ends with status 0 only after the requested information was printed', C22)


# ---------------------------------------------------------------- drop_privileges()
@task('main.privileges', ['C20'], MAIN)
def t_privileges(T):
    P = C20

    def fail(eng, st, what):
        b = st.copy()
        libc.set_errno(eng, b)
        b.ghost['failed'] = what
        return b

    def step(name, f):
        def h(eng, st, a, node):
            g = st.ghost
            eng.check_p(st, g['failed'] is None, name + '(): not after a step that failed', P, 'pre', node)
            for lab, c in f(eng, st, a, g):
                eng.check_p(st, c, '%s(): %s' % (name, lab), P, 'pre', node)
            b = fail(eng, st, name)
            g['done'] = g['done'] + (name,)
            return [(st, 0), (b, -1)]
        return h

    def text(eng, st, p, want):
        t = libc.lit_bytes(eng, st, p)
        return t is not None and bytes(t) == want

    def c_getpwnam(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(g['user'], ptr_eq(a[0], g['userp'])), 'getpwnam(): the configured user', P, 'pre', node)
        b = st.copy()
        b.ghost['failed'] = 'getpwnam'
        e = st.copy()
        e.ghost['failed'] = 'getpwnam'
        libc.set_errno(eng, e)
        pw = eng.new_struct(st, 'passwd', 'static', 'passwd entry')
        for n, v in (('pw_uid', g['uid']), ('pw_gid', g['gid'])):
            eng.setfld(st, pw, 'passwd', n, v)
        g['done'] = g['done'] + ('getpwnam',)
        return [(st, pw), (b, NULL), (e, NULL)]

    def late(g):
        return not any(x in g['done'] for x in ('setuid', 'setgid'))
    root = lambda g: 'chroot' not in g['done'] or 'chdir' in g['done']

    def init(eng, st, a, g):
        return [('the groups of exactly that account', And(g['user'], ptr_eq(a[0], g['userp']), eq(a[1], g['gid']), 'getpwnam' in g['done'])),
                ('before the group and user are changed', late(g)), ('before the root directory is changed', 'chroot' not in g['done'])]

    def chroot(eng, st, a, g):
        return [('the configured directory', And(g['root'], ptr_eq(a[0], g['rootp']))), ('before the user is changed', 'setuid' not in g['done']),
                ('once', 'chroot' not in g['done'])]

    def chdir(eng, st, a, g):
        return [('into the new root directory', And(text(eng, st, a[0], b'/'), 'chroot' in g['done']))]

    def setgid(eng, st, a, g):
        return [('the group of exactly that account', And(g['user'], 'getpwnam' in g['done'], *[eq(x, g['gid']) for x in a])),
                ('after the supplementary groups were set', 'initgroups' in g['done']), ('before the user is changed', 'setuid' not in g['done'])]

    def setuid(eng, st, a, g):
        return [('exactly that account', And(g['user'], 'getpwnam' in g['done'], *[eq(x, g['uid']) for x in a])),
                ('after the groups were set', And('initgroups' in g['done'], 'setgid' in g['done'])),
                ('after changing root', Implies(g['root'], And('chroot' in g['done'], 'chdir' in g['done'])))]
    sg, su = step('setgid', setgid), step('setuid', setuid)
    eng = T.eng(contracts={'getpwnam': c_getpwnam, 'initgroups': step('initgroups', init), 'chroot': step('chroot', chroot), 'chdir': step('chdir', chdir),
                           'setgid': sg, 'setregid': sg, 'setresgid': sg, 'setuid': su, 'setreuid': su, 'setresuid': su})
    fn = 'drop_privileges'
    for user in (True, False):
        for root_ in (True, False):
            st = eng.start()
            up = eng.new_string(st, 'user', 'param') if user else NULL
            rp = eng.new_string(st, 'root', 'param') if root_ else NULL
            uid, gid = z3.Int('uid'), z3.Int('gid')
            st.assume(uid >= 0, uid < 1 << 32, gid >= 0, gid < 1 << 32)
            st.ghost.update(user=user, root=root_, userp=up, rootp=rp, uid=uid, gid=gid, done=(), failed=None, pathcase=(user, root_))
            for s, r in T.run(eng, fn, st, [up, rp]):
                g = s.ghost
                what = ' (%s%s)' % ('user' if user else 'no user', ', chroot' if root_ else '')
                eng.cover(s, fn + what)
                eng.check_p(s, g['failed'] is None, fn + ': returns only if no step failed' + what, P)
                for n in (('getpwnam', 'initgroups', 'setgid', 'setuid') if user else ()) + (('chroot', 'chdir') if root_ else ()):
                    eng.check_p(s, n in g['done'], fn + ': %s() was done%s' % (n, what), P)
                # nothing twice, nothing undone
                eng.check_p(s, len(set(g['done'])) == len(g['done']), fn + ': every step once' + what, P)
    for s in eng.exits:
        g = s.ghost
        eng.check_p(s, ne(last_exit(s)[2], 0), fn + ': a failing step ends the server with a nonzero status', P)
        eng.check_p(s, g['failed'] is not None, fn + ': ends the server only if a step failed', P)


# ---------------------------------------------------------------- main()
def conf_contracts(P):
    """libconfuse: a mapping from the settings to values; sconf.parse verifies what the configuration consists of"""
    STR = ('chroot', 'command_file', 'listen', 'pid_file', 'temp_directory', 'tls_ciphers', 'user')
    OPT = ('chroot', 'pid_file', 'user')
    NUM = ('log_level', 'max_command_size', 'max_queue_size')

    def key(eng, st, a, node, kinds):
        g = st.ghost
        k = libc.fmt_of(eng, st, a[1])
        k = k.decode() if k is not None else None
        eng.check_p(st, 'conf' in g and ptr_eq(a[0], g['conf']) and not g['forgotten'], 'cfg_*(): the configuration that was read', P, 'pre', node)
        if k is None:
            raise Unsupported('configuration variable')
        eng.check_p(st, k in kinds, 'cfg_*(): a setting of the right type (`%s\')' % k, P, 'pre', node)
        return k

    def size(eng, st, a, node):
        k = key(eng, st, a, node, STR + NUM + ('timeout',))
        return [(st, st.ghost['n_' + k] if k in OPT else 1)]

    def getstr(eng, st, a, node):
        k = key(eng, st, a, node, STR)
        g = st.ghost
        if k in OPT:
            eng.check_p(st, ge(g['n_' + k], 1), 'cfg_getstr(): `%s\' has a value' % k, P, 'pre', node)
        return [(st, g['s_' + k])]

    def setstr(eng, st, a, node):
        k = key(eng, st, a, node, STR)
        out = []
        for s, p in eng.resolve(st, a[2], node):
            n = eng.strlen_of(s, p, node, 'cfg_setstr')
            q = libc.new_copy(eng, s, p, n, 'value of ' + k)
            s.objs[q.obj] = s.objs[q.obj].with_(kind='param', meta=dict(s.objs[p.obj].meta) if is_c(p.obj) else {})
            eng.assume_len(s, q, n)
            s.ghost['s_' + k] = q
            o = s.objs.get(p.obj) if is_c(p.obj) else None
            pc = libc.made_of(s, p)
            if k == 'listen' and pc is not None:
                s.ghost['address'] = pc
            else:
                s.ghost['from_' + k] = p
            if k in OPT:
                s.ghost['n_' + k] = 1
            out.append((s, None))
        return out

    def getint(eng, st, a, node):
        return [(st, st.ghost['i_' + key(eng, st, a, node, NUM)])]

    def setint(eng, st, a, node):
        k = key(eng, st, a, node, NUM)
        st.ghost['i_' + k] = a[2]
        return [(st, None)]

    def getfloat(eng, st, a, node):
        key(eng, st, a, node, ('timeout',))
        return [(st, st.ghost['timeout'])]

    def parse(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, 'conf' not in g and 'options' in g, 'conf_parse(): once, after the options were read', P, 'pre', node)
        eng.check_p(st, 'forget_config' in g['atexit'], 'conf_parse(): the exit handler that wipes passwords is registered before', C26, 'pre', node)
        out = []
        for s, p in eng.resolve(st, a[0], node):
            g = s.ghost
            eng.strlen_of(s, p, node, 'conf_parse')
            b, h = g['opt_conf_file']
            eng.check_p(s, ptr_eq(p, h) if p.obj == h.obj else Not(b), 'conf_parse(): the file given with -c, or the default one', P + C27, 'pre', node)
            g['conf'] = eng.new_obj(s, 1, 'static2', 'configuration')
            for k in STR:
                g['s_' + k] = eng.new_string(s, 'value of ' + k, 'param')
                g['from_' + k] = NULL
            g['address'] = None
            for k in OPT:
                v = fresh_int('n_' + k)
                s.assume(v >= 0, v <= 1)
                g['n_' + k] = v
            for k in NUM:
                v = fresh_int(k)
                s.assume(v >= 0, v < 1 << 63)          # sconf: negative numbers are refused
                g['i_' + k] = v
            g['conf_level'] = g['i_log_level']
            g['timeout'] = fresh_real('timeout')
            s.assume(g['timeout'] >= 0)
            out.append((s, g['conf']))
        return out
    return {'conf_parse': parse, 'cfg_size': size, 'cfg_getstr': getstr, 'cfg_setstr': setstr, 'cfg_getint': getint, 'cfg_setint': setint, 'cfg_getfloat': getfloat}


def ok_or_fail(f, ok=0, bad=-1):
    def h(eng, st, a, node):
        f(eng, st, a, node)
        b = st.copy()
        libc.set_errno(eng, b)
        b.ghost['failed'] = True
        return [(st, ok), (b, bad)]
    return h


@task('main.main', ['C20', 'C22', 'C23', 'C26', 'C06', 'C09', 'C21', 'C27'], MAIN, weight=3)
def t_main(T):
    O = options()
    P = C22
    DEFPORT = b'5668'

    def c_get(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(eq(a[0], g['argc']), ptr_eq(a[1], g['argv'])), 'get_options(): the program\'s arguments', P + C27, 'pre', node)
        p = O.mk(eng, st)
        for n, lo_, hi_ in (('log_level', -2147483648, 2147483647), ('log_target', -1, 7), ('foreground', 0, 1)):
            v = fresh_int(n)
            st.assume(v >= lo_, v <= hi_)
            if n == 'log_target':
                st.assume(Or(eq(v, -1), eq(v, 1), eq(v, 3)))      # main.options
            eng.setfld(st, p, 'options', n, v)
            g['o_' + n] = v
        return [(st, p)]

    def c_listen_fds(eng, st, a, node):
        v = fresh_int('sockets')
        st.assume(v >= -4095, v <= 1 << 20)
        st.ghost['sockets'] = v
        return [(st, v)]

    def c_drop(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And('conf' in g, Not(g['dropped']), g['pidfile'] is None, g['server'] is None), 'drop_privileges(): once, after reading the configuration, before any file or socket is opened', C20, 'pre', node)
        out = []
        for s, u in eng.resolve(st, a[0], node):
            for s2, r in eng.resolve(s, a[1], node):
                g2 = s2.ghost
                for k, p in (('user', u), ('chroot', r)):
                    null = is_c(p.obj) and p.obj == 0
                    eng.check_p(s2, eq(g2['n_' + k], 0) if null else And(ge(g2['n_' + k], 1), ptr_eq(p, g2['s_' + k])), 'drop_privileges(): the configured %s' % k, C20, 'pre', node)
                g2['dropped'] = True
                out.append((s2, None))
        return out

    def dropped(st):
        g = st.ghost
        return Or(g['dropped'], And(eq(g['n_user'], 0), eq(g['n_chroot'], 0))) if 'conf' in g else False

    def privileges(eng, st, what, node):
        eng.check_p(st, dropped(st), what + ': privileges were dropped before', C20, 'pre', node)

    def precedence(eng, st, key, opt, node, what, props):
        """the option given on the command line takes precedence over the configuration file"""
        g = st.ghost
        b, h = g['opt_' + opt]
        eng.check_p(st, ptr_eq(g['from_' + key], Ptr(Ite(b, h.obj, 0), 0)), '%s: the %s option takes precedence over the configuration' % (what, opt), props, 'pre', node)

    def to_stderr(v):
        return Or(eq(v, 2), eq(v, 3), eq(v, 6), eq(v, 7))

    def misuse(g):
        """-S without -F"""
        return And(ne(g['o_log_target'], -1), to_stderr(g['o_log_target']), eq(g['o_foreground'], 0))

    def logging(eng, st, what, node, starting):
        """the log level and the log targets in effect are those selected"""
        g = st.ghost
        c, o, t = g['conf_level'], g['o_log_level'], g['o_log_target']
        lv, tg = g.get('log_level', -9), g.get('log_target', -9)
        eng.check_p(st, Not(misuse(g)), what + '-S is refused without -F', C27, 'pre', node)
        eng.check_p(st, Implies(le(c, 5), eq(lv, Ite(ne(o, -1), o, c))), what + 'messages up to the level given with -l, or else configured, are logged', C27, 'pre', node)
        want = Ite(ne(t, -1), t, Ite(ge(g['sockets'], 1), 4, Ite(ne(g['o_foreground'], 0), 2, 1)))
        if starting:
            eng.check_p(st, Or(*[eq(tg, x) for x in range(2, 8)]), what + 'startup messages go to the standard error', C27, 'pre', node)
        else:
            eng.check_p(st, eq(tg, want), what + 'messages go where the options say', C27, 'pre', node)

    def c_logset(eng, st, a, node):
        """verified by log.set: -1 leaves a setting as it is"""
        g = st.ghost
        for k, v in (('log_level', a[0]), ('log_target', a[1])):
            g[k] = Ite(eq(v, -1), g.get(k, -9), v)
        return [(st, None)]

    def c_access(eng, st, a, node):
        g = st.ghost
        privileges(eng, st, 'access()', node)
        eng.check_p(st, And(ptr_eq(a[0], g['s_temp_directory']), eq(a[1], 3)), 'access(): the temporary directory is writable', P, 'pre', node)
        b = st.copy()
        libc.set_errno(eng, b)
        b.ghost['failed'] = True
        return [(st, 0), (b, -1)]

    def c_pidopen(eng, st, a, node):
        g = st.ghost
        privileges(eng, st, 'pidfile_open()', node)
        eng.check_p(st, And(g['server'] is None, g['pidfile'] is None), 'pidfile_open(): once, before the server is started', C23, 'pre', node)
        eng.check_p(st, And(ge(g['n_pid_file'], 1), ptr_eq(a[0], g['s_pid_file']), eq(ival(toz(a[1]) % 64) if is_z3(a[1]) else a[1] % 64, 0)), 'pidfile_open(): the configured file, accessible to the owner only', C23, 'pre', node)
        precedence(eng, st, 'pid_file', 'pid_file', node, 'pidfile_open()', C23 + C22 + C27)
        need_bytes(eng, st, a[2], 4, node, 'pidfile_open', write=True)
        b = st.copy()
        libc.set_errno(eng, b)
        b.ghost['failed'] = True
        v = fresh_int('other')
        b.assume(v >= -1, v < 1 << 31)
        eng.wr(b, a[2], INT, v)
        h = eng.new_obj(st, 1, 'static2', 'PID file handle')
        g['pidfile'] = h
        return [(st, h), (b, NULL)]

    def c_start(eng, st, a, node):
        g = st.ghost
        privileges(eng, st, 'server_start()', node)
        w = 'server_start(): '
        eng.check_p(st, And('conf' in g, g['server'] is None), w + 'once, configured', C20, 'pre', node)
        eng.check_p(st, Or(g['pidfile'] is not None, And(eq(g['n_pid_file'], 0), Not(g['opt_pid_file'][0]))), w + 'the PID file, if configured, was locked before', C23, 'pre', node)
        # address
        act = ge(g['sockets'], 1)
        eng.check_p(st, ptr_eq(a[0], g['s_listen']), w + 'the configured address', P, 'pre', node)
        pc = g['address']
        precedence(eng, st, 'listen', 'bind', node, 'server_start()', P + C27)
        x, y = eng.split(st.copy(), act)
        for z in x:
            ok = pc is not None and len(pc) == 2 and pc[0] == ('lit', b'descriptor=') and pc[1][0] == 'num'
            eng.check_p(z, And(ok, eq(pc[1][1], 3) if ok else False), w + 'the socket received from the init system', P, 'pre', node)
        for z in y:
            if pc is None:
                colon = eng.strlen_of(z, a[0])
                k = z3.Int('k!colon')
                eng.check_p(z, Not(eng.forall_bytes(lambda k: ne(eng.byte_at(z, Ptr(a[0].obj, add(a[0].off, k))), 58), 0, colon)), w + 'the default port is added if none is given', P, 'pre', node)
            else:
                ok = len(pc) == 3 and pc[0][0] == 'str' and pc[1] == ('lit', b':') and pc[2][0] == 'str' or len(pc) == 2 and pc[0][0] == 'str' and pc[1] == ('lit', b':' + DEFPORT)
                if ok and len(pc) == 3:
                    t = libc.lit_bytes(eng, z, pc[2][1])
                    ok = t is not None and bytes(t) == DEFPORT
                eng.check_p(z, ok, w + 'an address without port gets the default port', P, 'pre', node)
                if ok:
                    src = pc[0][1]
                    sp = pc[0][3]
                    eng.check_p(z, eng.forall_bytes(lambda k: ne(eng.byte_at(sp, Ptr(src.obj, add(src.off, k))), 58), 0, pc[0][2]), w + 'the default port is added only if none is given', P, 'pre', node)
        eng.check_p(st, ptr_eq(a[1], g['s_tls_ciphers']), w + 'the configured ciphers', P, 'pre', node)
        eng.check_p(st, ptr_eq(a[2], g['s_command_file']), w + 'the configured command file', P, 'pre', node)
        precedence(eng, st, 'command_file', 'command_file', node, 'server_start()', P + C27)
        logging(eng, st, w, node, True)
        eng.check_p(st, ptr_eq(a[3], g['s_temp_directory']), w + 'the configured directory for temporary files', P, 'pre', node)
        eng.check_p(st, eq(a[4], g['i_max_command_size']), w + 'the configured command size limit', P + ['C06'], 'pre', node)
        eng.check_p(st, eq(a[5], g['i_max_queue_size']), w + 'the configured queue limit', P + ['C09'], 'pre', node)
        eng.check_p(st, eq(a[6], g['timeout']), w + 'the configured timeout', P + ['C21'], 'pre', node)
        s = eng.new_obj(st, 1, 'static2', 'server')
        g['server'] = s
        return [(st, s)]

    def c_daemon(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(g['server'] is not None, Not(g['daemon']), not g['written'], eq(g['o_foreground'], 0)), 'daemon(): before the process ID is recorded, unless running in the foreground', C23 + C27, 'pre', node)
        b = st.copy()
        libc.set_errno(eng, b)
        b.ghost['failed'] = True
        g['daemon'] = True
        return [(st, 0), (b, -1)]

    def c_fork(eng, st, a, node):
        st.ghost['forked'] = True
        return [(st, None)]

    def c_pidwrite(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(g['pidfile'] is not None and ptr_eq(a[0], g['pidfile']), g['server'] is not None, not g['ran']), 'pidfile_write(): the PID file of this server', C23, 'pre', node)
        b = st.copy()
        libc.set_errno(eng, b)
        b.ghost['failed'] = True
        g['written'] = True
        return [(st, 0), (b, -1)]

    def c_sigstart(eng, st, a, node):
        g = st.ghost
        w = a[-1]
        n = eng.fld(st, w, 'ev_signal', 'signum')
        cb = eng.fld(st, w, 'ev_signal', 'cb')
        eng.check_p(st, fnname(eng, cb) == 'signal_cb', 'ev_signal_start(): the handler of the termination signals', C26, 'pre', node)
        g['signals'] = g['signals'] + (n,)
        return [(st, None)]

    def c_run(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(g['server'] is not None, not g['ran']), 'ev_run(): after the server was started', C20, 'pre', node)
        logging(eng, st, 'ev_run(): ', node, False)
        privileges(eng, st, 'ev_run()', node)
        eng.check_p(st, Or(g['written'], And(g['pidfile'] is None, eq(g['n_pid_file'], 0))), 'ev_run(): the process ID was recorded, if a PID file is configured', C23, 'pre', node)
        eng.check_p(st, Or(g['daemon'], ne(g['o_foreground'], 0), ge(g['sockets'], 1)), 'ev_run(): in the background, unless asked otherwise', P + C27, 'pre', node)
        eng.check_p(st, Implies(g['daemon'], g['forked']), 'ev_run(): libev was told about the fork', ['C20'], 'pre', node)
        eng.check_p(st, all(any(eq(x, n) is True for x in g['signals']) for n in (1, 2, 15)), 'ev_run(): SIGHUP, SIGINT and SIGTERM are handled', C26, 'pre', node)
        v = fresh_bool('restart')
        eng.wr(st, eng.global_ptr(st, 'restart'), T8, z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        g['restart'] = v
        g['ran'] = True
        return [(st, fresh_int('r'))]

    def c_stop(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(g['server'] is not None and ptr_eq(a[0], g['server']), g['ran'], not g['stopped']), 'server_stop(): the server, once, after its loop ended', C26, 'pre', node)
        g['stopped'] = True
        return [(st, None)]

    def c_rmpid(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(g['ran'], not g['forgotten']), 'remove_pidfile(): while the configuration is still there', C23 + C26, 'pre', node)
        g['removed'] = True
        return [(st, None)]

    def c_forget(eng, st, a, node):
        g = st.ghost
        g['forgotten'] = True
        return [(st, None)]

    def c_exec(eng, st, a, node):
        g = st.ghost
        w = 'execvp(): '
        eng.check_p(st, And(g['ran'], g.get('restart', False)), w + 'only after a request to restart', C26, 'pre', node)
        eng.check_p(st, g['forgotten'], w + 'passwords were wiped before', C26, 'pre', node)
        eng.check_p(st, g['stopped'], w + 'the server was stopped before', C26, 'pre', node)
        eng.check_p(st, Or(g['removed'], g['pidfile'] is None), w + 'the PID file was removed before', C23, 'pre', node)
        eng.check_p(st, And(ptr_eq(a[0], eng.rd(st, g['argv'], cfront.ptr(CHAR))), ptr_eq(a[1], g['argv'])), w + 'this program, with its arguments', P + C26, 'pre', node)
        st.ghost['execs'] = True
        libc.set_errno(eng, st)
        return [(st, -1)]

    def c_atexit(eng, st, a, node):
        g = st.ghost
        bad = st.copy()
        bad.ghost['failed'] = True
        g['atexit'] = g['atexit'] + (fnname(eng, a[0]),)
        return [(st, 0), (bad, 1)]

    def none(eng, st, a, node):
        return [(st, None)]

    def c_freeopt(eng, st, a, node):
        """verified by main.freeopt"""
        g = st.ghost
        eng.check_p(st, And(ptr_eq(a[0], g['options']), Not(g['optfreed'])), 'free_options(): the options, once', C26, 'pre', node)
        g['optfreed'] = True
        for i in [g['options'].obj] + [g[k][1].obj for k in g if isinstance(k, str) and k.startswith('opt_')]:
            st.objs[i] = st.objs[i].with_(alive=False)
        return [(st, None)]

    def c_closefds(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(eq(g['sockets'], 0), g['pidfile'] is None, g['server'] is None, 'loop' not in g), 'close_descriptors(): before anything is opened, and only if no socket was passed in', C23 + C22, 'pre', node)
        return [(st, None)]

    def c_loop(eng, st, a, node):
        st.ghost['loop'] = True
        bad = st.copy()
        bad.ghost['failed'] = True
        return [(st, eng.new_obj(st, 1, 'static2', 'loop')), (bad, NULL)]
    eng = T.eng(contracts=dict(conf_contracts(P), get_options=c_get, sd_listen_fds=c_listen_fds, drop_privileges=c_drop, access=c_access, pidfile_open=c_pidopen,
                               server_start=c_start, daemon=c_daemon, ev_loop_fork=c_fork, pidfile_write=c_pidwrite, ev_signal_start=c_sigstart, ev_run=c_run,
                               server_stop=c_stop, remove_pidfile=c_rmpid, forget_config=c_forget, execvp=c_exec, atexit=c_atexit, setprogname=none, log_set=c_logset,
                               close_descriptors=c_closefds, stop_keep_alive=none, notify_systemd=none, ev_default_loop=c_loop,
                               ev_default_loop_uc_=lambda e, s, a, n: [(s, e.new_obj(s, 1, 'static2', 'loop'))],
                               nsca_version=optlib.CONTRACTS['nsca_version'],
                               free_options=c_freeopt), config={'merge': ('s_', 'from_', 'n_', 'i_', 'set_', 'dropped', 'removed', 'forked', 'daemon', 'log_')})
    st = eng.start()
    argc, argv = optlib.mk_argv(eng, st)
    for n in ('cfg', 'pfh', 'pid_file'):
        eng.wr(st, eng.global_ptr(st, n), VP, NULL)
    eng.wr(st, eng.global_ptr(st, 'restart'), T8, 0)
    st.ghost.update(atexit=(), sockets=0, dropped=False, pidfile=None, server=None, daemon=False, forked=False, written=False, ran=False, stopped=False,
                    removed=False, forgotten=False, optfreed=False, failed=None, signals=(), execs=False)
    fn = 'main'
    for s, r in T.run(eng, fn, st, [argc, argv]):
        g = s.ghost
        eng.cover(s, fn)
        eng.check_p(s, And(g['ran'], g['stopped'], eq(r, 0)), fn + ': returns after an orderly shutdown', C26)
        eng.check_p(s, Not(g.get('restart', False)), fn + ': restarts if asked to', C26)
        at = g['atexit']
        eng.check_p(s, 'forget_config' in at and 'log_close' in at, fn + ': passwords are wiped at exit', C26)
        if not g['forgotten']:
            cp = eng.rd(s, eng.global_ptr(s, 'cfg'), VP)
            eng.check_p(s, ptr_eq(cp, g['conf']), fn + ': the configuration is known to the exit handler', C26)
        if g['pidfile'] is not None and not g['removed']:
            eng.check_p(s, 'remove_pidfile' in at, fn + ': the PID file is removed at exit', C23)
            if 'remove_pidfile' in at and 'forget_config' in at:
                eng.check_p(s, at.index('remove_pidfile') > at.index('forget_config'), fn + ': the PID file is removed before its name is released', C23 + C26)
            eng.check_p(s, And(ptr_eq(eng.rd(s, eng.global_ptr(s, 'pfh'), VP), g['pidfile']), ptr_eq(eng.rd(s, eng.global_ptr(s, 'pid_file'), cfront.ptr(CHAR)), g['s_pid_file'])),
                        fn + ': the exit handler knows the PID file', C23)
    for s in eng.exits:
        g = s.ghost
        eng.check_p(s, ne(last_exit(s)[2], 0), fn + ': ends with a nonzero status for an error', C20 + C22 + C23)
        eng.check_p(s, Or(g['failed'] is not None, Not(And(ge(g['sockets'], 0), le(g['sockets'], 1))), g['execs'], misuse(g) if 'o_log_target' in g else False),
                    fn + ': refuses to start only for an error', C27 + C22)
        # which failures are fatal
        if 'conf' in g:
            eng.check_p(s, 'forget_config' in g['atexit'] or g['forgotten'], fn + ': passwords are wiped when ending for an error', C26)
            if not g['forgotten']:
                cp = eng.rd(s, eng.global_ptr(s, 'cfg'), VP)
                eng.check_p(s, ptr_eq(cp, g['conf']), fn + ': the configuration is known to the exit handler when ending for an error', C26)
    runs = [s for s in eng.exits if s.ghost['execs']]
    eng.check(st, True, 'main: restart path explored', None)
    for s in runs:
        eng.cover(s, 'restart')


@task('main.freeopt', ['C26'], MAIN)
def t_freeopt(T):
    eng = T.eng()
    st = eng.start()
    p = options().mk(eng, st)
    fn = 'free_options'
    for s, r in T.run(eng, fn, st, [p]):
        eng.cover(s, fn)
        for o in list(s.objs.values()):
            if o.kind == 'heap' and o.alive is not False:
                eng.check_p(s, Not(o.alive), fn + ': everything is released', C26)


# ---------------------------------------------------------------- remove_pidfile(), signal_cb()
@task('main.exit', ['C23', 'C26'], MAIN)
def t_exit(T):
    def c_remove(eng, st, a, node):
        g = st.ghost
        eng.check_p(st, And(g['set'], ptr_eq(a[0], g['h']), g['removed'] == 0), 'pidfile_remove(): the PID file of this server, once', C23 + C26, 'pre', node)
        g['removed'] += 1
        b = st.copy()
        libc.set_errno(eng, b)
        return [(st, 0), (b, -1)]
    eng = T.eng(contracts={'pidfile_remove': c_remove})
    fn = 'remove_pidfile'
    for isset in (True, False):
        st = eng.start()
        h = eng.new_obj(st, 1, 'static2', 'handle') if isset else NULL
        eng.wr(st, eng.global_ptr(st, 'pfh'), VP, h)
        eng.wr(st, eng.global_ptr(st, 'pid_file'), cfront.ptr(CHAR), eng.new_string(st, 'path', 'param') if isset else NULL)
        st.ghost.update(set=isset, h=h, removed=0)
        for s, r in T.run(eng, fn, st, []):
            eng.cover(s, fn)
            eng.check_p(s, s.ghost['removed'] == (1 if isset else 0), fn + ': the PID file is removed if there is one', C23)
            for s2, r2 in T.run(eng, fn, s, []):
                eng.check_p(s2, s2.ghost['removed'] == (1 if isset else 0), fn + ': not twice', C23 + C26)

    def c_sigstop(eng, st, a, node):
        st.ghost['stopped'] = st.ghost['stopped'] + (eng.fld(st, a[-1], 'ev_signal', 'signum'),)
        return [(st, None)]

    def c_break(eng, st, a, node):
        eng.check_p(st, eq(a[-1], 2), 'ev_break(): the event loop is left', C26, 'pre', node)
        st.ghost['broken'] = True
        return [(st, None)]
    eng = T.eng(contracts={'ev_signal_stop': c_sigstop, 'ev_break': c_break})
    fn = 'signal_cb'
    for name, num in (('sighup_watcher', 1), ('sigint_watcher', 2), ('sigterm_watcher', 15)):
        st = eng.start()
        for n, v in (('sighup_watcher', 1), ('sigint_watcher', 2), ('sigterm_watcher', 15)):
            eng.setfld(st, eng.global_ptr(st, n), 'ev_signal', 'signum', v)
        eng.wr(st, eng.global_ptr(st, 'restart'), T8, 0)
        st.ghost.update(stopped=(), broken=False)
        for s, r in T.run(eng, fn, st, [NULL, eng.global_ptr(st, name), 0][-len(eng.units[0].funcs[fn]['params']):]):
            eng.cover(s, '%s: signal %d' % (fn, num))
            eng.check_p(s, s.ghost['broken'], fn + ': the event loop is left', C26)
            v = eng.rd(s, eng.global_ptr(s, 'restart'), T8)
            eng.check_p(s, Iff(ne(ival(v), 0), num == 1), fn + ': SIGHUP, and only SIGHUP, requests a restart', C26)


# ---------------------------------------------------------------- forget_config()
@task('main.forget', ['C26'], MAIN)
def t_forget(T):
    P = C26
    K = 64

    sizes = {}

    def sec(eng, st, p, node):
        g = st.ghost
        eng.check_p(st, eq(p.obj, g['secs'].obj), 'cfg_*(): a section of the configuration', P, 'pre', node)
        return ival(simp(toz(p.off) / K)) if is_z3(p.off) else p.off // K

    def settle(eng, st, node=None):
        """the password obtained last must have been overwritten before anything else happens"""
        g = st.ghost
        pend = g['pending']
        if pend is not None:
            i, p, n = pend
            g['pending'] = None
            eng.check_p(st, eng.forall_bytes(lambda k: eq(eng.byte_at(st, Ptr(p.obj, k)), 0), 0, n), 'forget_config: %s password is overwritten in full' % (
                'the global' if i is None else 'each'), P, 'post', node)
            if i is None:
                g['global'] = True
            else:
                g['wiped'] = i

    def alive(eng, st, node):
        eng.check_p(st, Not(st.ghost['freed']), 'cfg_*(): the configuration was not released', P, 'pre', node)

    def c_size(eng, st, a, node):
        g = st.ghost
        alive(eng, st, node)
        settle(eng, st, node)
        nm = bytes(libc.lit_bytes(eng, st, a[1]) or b'').decode()
        if ptr_eq(a[0], g['cfg']) is True:
            if nm == 'authorize':
                return [(st, g['n'])]
            if nm == 'password':
                st.assume(g['G'] >= 0)
                return [(st, g['G'])]
        i = None if ptr_eq(a[0], g['cfg']) is True else sec(eng, st, a[0], node)
        if nm != 'password':
            if nm not in ('hosts', 'services', 'commands', 'include') and i is not None:
                raise Unsupported('size of %s' % nm)
            # other settings: any number of values
            key = 'SIZE_%s' % nm
            if i is None:
                key = 'GLOBAL_' + key
            if key not in sizes:
                sizes[key] = fresh_int(key) if i is None else fresh_fun(key, I, I)
            v = sizes[key] if i is None else sizes[key](toz(i))
            st.assume(v >= 0)
            return [(st, v)]
        st.assume(g['PW'](toz(i)) >= 0)
        return [(st, g['PW'](toz(i)))]

    def c_nsec(eng, st, a, node):
        g = st.ghost
        alive(eng, st, node)
        settle(eng, st, node)
        nm = bytes(libc.lit_bytes(eng, st, a[1]) or b'').decode()
        eng.check_p(st, And(ptr_eq(a[0], g['cfg']), nm == 'authorize', le(0, a[2]), lt(a[2], g['n'])), 'cfg_getnsec(): an authorize section', P, 'pre', node)
        return [(st, Ptr(g['secs'].obj, mul(ival(a[2]), K)))]

    def c_getstr(eng, st, a, node):
        g = st.ghost
        alive(eng, st, node)
        nm = bytes(libc.lit_bytes(eng, st, a[1]) or b'').decode()
        if nm != 'password':
            raise Unsupported('value of %s' % nm)
        if ptr_eq(a[0], g['cfg']) is True:
            i = None
            eng.check_p(st, g['G'] >= 1, 'cfg_getstr(): there is a global password', P, 'pre', node)
        else:
            i = sec(eng, st, a[0], node)
            eng.check_p(st, g['PW'](toz(i)) >= 1, 'cfg_getstr(): the section has a password', P, 'pre', node)
        pend = g['pending']
        if pend is not None and (pend[0] is None) == (i is None) and (i is None or same_term(pend[0], i)):
            return [(st, pend[1])]
        settle(eng, st, node)
        p = eng.new_string(st, 'password', 'static2')
        g['pending'] = (i, p, eng.strlen_of(st, p))
        return [(st, p)]

    def c_free(eng, st, a, node):
        g = st.ghost
        settle(eng, st, node)
        eng.check_p(st, And(ptr_eq(a[0], g['cfg']), Not(g['freed'])), 'cfg_free(): the configuration, once', P, 'pre', node)
        eng.check_p(st, eq(g['count'], g['n']), 'cfg_free(): the passwords of all sections were overwritten', P, 'pre', node)
        eng.check_p(st, Or(g['G'] <= 0, g['global']), 'cfg_free(): the global password was overwritten', P, 'pre', node)
        g['freed'] = True
        return [(st, 0)]

    # a section counts as done when its password was overwritten or it has none
    def head(L):
        g = L.S.ghost
        g['pending'] = None
        g['wiped'] = None
        g['count'] = L.var('i')

    def inv(L):
        g = L.S.ghost
        eng = L.eng
        i = L.var('i')
        if g['pending'] is not None:
            settle(eng, L.S)
        done = [('sections so far', And(le(0, i), le(i, g['n'])))]
        if g.get('at') is None:                     # before the loop
            g['at'] = True
            done.append(('from the first section', eq(i, 0)))
            g['count'] = i
        else:
            w = g['wiped']
            done.append(('every password is overwritten', Or(eq(i, g['count']), And(eq(i, add(g['count'], 1)), Or(
                eq(w, g['count']) if w is not None else False, g['PW'](toz(g['count'])) <= 0)))))
            g['count'] = i
        return done
    eng = T.eng(contracts={'cfg_size': c_size, 'cfg_getnsec': c_nsec, 'cfg_getstr': c_getstr, 'cfg_free': c_free},
                loops={'*': LoopSpec(inv=inv, auto=False, post_havoc=head)})
    fn = 'forget_config'
    for there in (True, False):
        st = eng.start()
        g = st.ghost
        n, G = fresh_int('n'), fresh_int('G')
        st.assume(n >= 0, n < 1 << 30, G >= 0, G <= 1)
        cfg = eng.new_obj(st, 1 << 12, 'static2', 'cfg') if there else NULL
        g.update(cfg=cfg, secs=eng.new_obj(st, mul(n, K), 'static2', 'sections'), n=n, G=G, PW=fresh_fun('PW', I, I), pending=None, wiped=None, count=0,
                 freed=False, at=None)
        g['global'] = False
        eng.wr(st, eng.global_ptr(st, 'cfg'), VP, cfg)
        for s, r in T.run(eng, fn, st, []):
            eng.cover(s, fn + (': wiped' if there else ': nothing to wipe'))
            eng.check_p(s, eq(s.ghost['freed'], there) if not isinstance(s.ghost['freed'], bool) else s.ghost['freed'] == there, fn + ': the configuration is released', P)
            q = eng.rd(s, eng.global_ptr(s, 'cfg'), VP)
            eng.check_p(s, eq(q.obj, 0), fn + ': the configuration is not released twice', P)


@task('main.descriptors', ['C22', 'C23', 'C19'], MAIN)
def t_descriptors(T):
    """close_descriptors() leaves the standard descriptors alone"""
    P = ['C22', 'C23', 'C19']

    def c_close(eng, st, a, node):
        eng.check_p(st, ge(a[0], 3), 'close_descriptors: standard input, output and error stay open', P, 'pre', node)
        r = fresh_int('r')
        st.assume(r >= -1, r <= 0)
        return [(st, r)]

    def num(eng, st, a, node):
        v = fresh_int('sysconf')
        st.assume(v >= -1, v < 1 << 62)
        return [(st, v)]

    def c_closefrom(eng, st, a, node):
        eng.check_p(st, ge(a[0], 3), 'close_descriptors: standard input, output and error stay open', P, 'pre', node)
        return [(st, None)]

    eng = T.eng(contracts={'close': c_close, 'closefrom': c_closefrom, 'sysconf': num, 'close_range': c_closefrom}, loops={'*': LoopSpec()})
    st = eng.start()
    for s, _ in T.run(eng, 'close_descriptors', st, []):
        eng.cover(s, 'close_descriptors')


@task('main.watchdog', ['C22', 'C25'], MAIN)
def t_watchdog(T):
    """notify_systemd(): keep-alive messages well within the requested interval, the timer is stopped at exit"""
    def c_getenv(eng, st, a, node):
        t, f = st, st.copy()
        t.ghost['env'] = True
        return [(t, eng.new_string(t, 'value', 'param')), (f, NULL)]

    def c_atol(eng, st, a, node):
        eng.strlen_of(st, a[0], node, 'atol')
        v = fresh_int('usec')
        st.assume(v >= -(1 << 63), v < 1 << 63)
        st.ghost['usec'] = v
        return [(st, v)]

    def c_start(eng, st, a, node):
        g = st.ghost
        w = a[-1]
        rep = eng.fld(st, w, 'ev_timer', 'repeat')
        at = eng.fld(st, w, 'ev_timer', 'at')
        eng.check(st, And('usec' in g, gt(toz(g['usec']), 0)) if 'usec' in g else False, 'the timer runs only if the init system asked for it', node)
        if 'usec' in g:
            # both within (0, interval / 2]
            eng.check(st, And(rep > 0, at > 0, rep * 2000000 <= z3.ToReal(toz(g['usec'])), at * 2000000 <= z3.ToReal(toz(g['usec']))),
                      'keep-alive messages are sent at least twice per interval', node)
        eng.check(st, fnname(eng, eng.fld(st, w, 'ev_timer', 'cb')) == 'keep_alive_cb', 'the timer sends keep-alive messages', node)
        eng.check(st, ptr_eq(w, eng.global_ptr(st, 'keep_alive_watcher')), 'the keep-alive timer', node)
        g['timer'] = True
        return [(st, None)]

    def c_atexit(eng, st, a, node):
        b = st.copy()
        b.ghost['failed'] = True
        st.ghost['atexit'] = fnname(eng, a[0])
        return [(st, 0), (b, 1)]

    def c_notify(eng, st, a, node):
        st.event('notify', bytes(libc.lit_bytes(eng, st, a[1]) or b''))
        return [(st, fresh_int('r'))]

    def c_stop(eng, st, a, node):
        g = st.ghost
        eng.check(st, And(ptr_eq(a[-1], eng.global_ptr(st, 'keep_alive_watcher'))), 'ev_timer_stop(): the keep-alive timer', node)
        g['stopped'] = True
        return [(st, None)]
    def c_strtol(eng, st, a, node):
        if not (is_c(a[1].obj) and a[1].obj == 0):
            need_bytes(eng, st, a[1], 8, node, 'strtol', write=True)
            e = fresh_int('end')
            n = eng.strlen_of(st, a[0], node, 'strtol')
            st.assume(e >= 0, le(e, n))
            eng.wr(st, a[1], cfront.ptr(CHAR), Ptr(a[0].obj, add(a[0].off, e)))
        return c_atol(eng, st, a, node)
    C = {'getenv': c_getenv, 'atol': c_atol, 'atoll': c_atol, 'strtol': c_strtol, 'strtoll': c_strtol, 'ev_timer_start': c_start, 'atexit': c_atexit, 'sd_notify': c_notify, 'ev_timer_stop': c_stop}
    eng = T.eng(contracts=C, config={'no_timer': True})
    st = eng.start()
    for s, _ in T.run(eng, 'notify_systemd', st, []):
        g = s.ghost
        eng.cover(s, 'notify_systemd')
        eng.check(s, [e[1] for e in s.trace if e[0] == 'notify'] == [b'READY=1'], 'the init system is told that the server is ready')
        eng.check(s, Implies(g.get('timer', False), g.get('atexit') == 'stop_keep_alive'), 'the timer is stopped at exit')
    eng = T.eng(contracts=C)
    st = eng.start()
    w = eng.global_ptr(st, 'keep_alive_watcher')
    for s, _ in T.run(eng, 'keep_alive_cb', st, [NULL, w, 0][-len(eng.units[0].funcs['keep_alive_cb']['params']):]):
        eng.cover(s, 'keep_alive_cb')
        eng.check(s, [e[1] for e in s.trace if e[0] == 'notify'] == [b'WATCHDOG=1'], 'keep_alive_cb: sends one keep-alive message')
    for act in (0, 1):
        st = eng.start()
        eng.setfld(st, eng.global_ptr(st, 'keep_alive_watcher'), 'ev_timer', 'active', act)
        for s, _ in T.run(eng, 'stop_keep_alive', st, []):
            eng.cover(s, 'stop_keep_alive')
            eng.check(s, 'stopped' in s.ghost if act else True, 'stop_keep_alive: an active timer is stopped')
