"""src/common/log.c, log.h: log messages (C19)

Ghost: the format handed in is F[0..n), the error description X[0..xl).  OL(i)/ST(i) are the length of the rewritten
format and the state of the scan before F(i) (PX(j) the same within the error description); G(p) is the character the
rewritten format must have at p.  The rewritten format must be exactly G[0..OL(n)) whenever OL(n) <= 500.
"""
from vtask import *
from libc import *
import libc
from specs.s_cconf import calls

LOG = ['src/common/log.c']
C19 = ['C19']
FITS = 500
LEVELS = {2: b'FATAL', 3: b'ERROR', 4: b'WARNING', 5: b'NOTICE', 6: b'INFO', 7: b'DEBUG'}


class Fmt:
    def __init__(self, eng, st, p, x):
        self.eng, self.p, self.x = eng, p, x
        self.n, self.xl = eng.strlen_of(st, p), eng.strlen_of(st, x)
        s0 = self.s0 = st.copy()
        self.F = lambda i: eng.byte_at(s0, Ptr(p.obj, i))
        self.X = lambda j: eng.byte_at(s0, Ptr(x.obj, j))
        self.OL, self.PX, self.G, self.ST = (fresh_fun('OL', I, I), fresh_fun('PX', I, I), fresh_fun('G', I, I), fresh_fun('ST', I, B))
        self.EL = self.PX(toz(self.xl))
        st.assume(self.OL(0) == 0, Not(self.ST(0)), self.PX(0) == 0)
        i = z3.Int('io')
        # monotonicity; inductive (see the lemma obligations of log.vlog)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= toz(self.n)), z3.And(self.OL(i) <= self.OL(toz(self.n)), 0 <= self.OL(i))), patterns=[self.OL(i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= toz(self.xl)), z3.And(self.PX(i) <= self.EL, 0 <= self.PX(i))), patterns=[self.PX(i)]))
        self.fits = self.OL(toz(self.n)) <= FITS

    def step(self, i):
        z = toz(i)
        c = self.F(i)
        st, ol = self.ST(z), self.OL(z)
        pc, m = eq(c, 37), eq(c, 109)
        emit = z3.If(tob(And(pc, st)), 2, z3.If(tob(pc), 0, z3.If(tob(And(m, st)), self.EL, z3.If(tob(st), 2, 1))))
        return Implies(And(le(0, i), lt(i, self.n)), And(
            self.OL(z + 1) == ol + emit,
            Iff(self.ST(z + 1), And(pc, Not(st))),
            Implies(And(pc, st), And(self.G(ol) == 37, self.G(ol + 1) == 37)),
            Implies(And(Not(pc), Not(st)), eq(self.G(ol), c)),
            Implies(And(Not(pc), Not(m), st), And(self.G(ol) == 37, eq(self.G(ol + 1), c)))))

    def estep(self, i, j):
        """the j-th character of the description, inserted for the conversion ending at i"""
        z = toz(j)
        c = self.X(j)
        at = self.OL(toz(i)) + self.PX(z)
        return Implies(And(le(0, j), lt(j, self.xl)), And(
            self.PX(z + 1) == self.PX(z) + z3.If(tob(eq(c, 37)), 2, 1),
            Ite(eq(c, 37), And(self.G(at) == 37, self.G(at + 1) == 37), eq(self.G(at), c))))


def sinks(eng):
    def emitted(kind):
        def h(eng, st, a, node):
            g = st.ghost
            if kind == 'syslog':
                pc = libc.pieces_of(eng, st, a[1], a[2:], node, 'syslog')
                eng.check_p(st, eq(a[0], g['level']), 'syslog(): the level of the message', C19, 'pre', node)
            else:
                pc = libc.pieces_of(eng, st, a[1], a[2:], node, 'fprintf')
            ok = False
            for p in pc:
                if p[0] == 'str' and p[1].obj == g['buf'].obj:
                    eng.check_p(st, And(eq(p[1].off, g['buf'].off), eq(p[2], g['len'])), 'the whole message is written', C19, 'pre', node)
                    ok = True
            kinds = tuple((p[0], p[1] if p[0] == 'lit' else None) for p in pc)
            if kind == 'syslog':
                k = 'syslog'
            else:
                k = 'systemd' if pc and pc[0] == ('lit', b'<') else 'stderr'
                eng.check_p(st, pc and pc[-1][0] == 'lit' and pc[-1][1].endswith(b'\n'), 'the message is terminated by a newline', C19, 'pre', node)
            eng.check_p(st, ok, 'the message is written', C19, 'pre', node)
            tail = pc[[p[0] == 'str' and p[1].obj == g['buf'].obj for p in pc].index(True) + 1:] if ok else []
            eng.check_p(st, tail == [] or k != 'syslog' and tail == [('lit', b'\n')], 'nothing is appended to the message', C19, 'pre', node)
            if k == 'systemd':
                eng.check_p(st, any(p[0] == 'num' and eq(p[1], g['level']) is True for p in pc), 'the level of the message is written', C19, 'pre', node)
            if k != 'systemd':
                lev = [p for p in pc if p[0] == 'str' and p[1].obj != g['buf'].obj]
                for want in LEVELS:
                    for p in lev[-1:]:
                        lb = libc.lit_bytes(eng, st, p[1])
                        if lb is not None:
                            eng.check_p(st, Or(ne(g['level'], want), bytes(lb) == LEVELS[want]), 'the name of the level is written', C19, 'pre', node)
                eng.check_p(st, len(lev) >= 1, 'the name of the level is written', C19, 'pre', node)
            g['out'] = g['out'] + (k,)
            r = fresh_int('printed')
            st.assume(r >= -1, r <= 2147483647)
            return [(st, r)]
        return h
    return {'fprintf': emitted('fprintf'), 'syslog': emitted('syslog'), 'fflush': lambda e, s, a, n: [(s, 0)]}


@task('log.vlog', ['C19'], LOG)
def t_vlog(T):
    def inv(L):
        eng, s = L.eng, L.S
        f = s.ghost['fmt']
        i, o, stt = L.var('in_pos'), L.var('out_pos'), ival(L.var('state'))
        ob = L.slot('out_fmt')[0]
        if ob is None:
            raise Unsupported('no variable out_fmt')
        size = s.objs[ob].size
        pct = s.ghost['pct']
        return [('position in the format', And(le(0, i), le(i, f.n))),
                ('room in the buffer', And(le(0, o), le(o, sub(size, 1)))),
                ('state', And(Or(eq(stt, pct), eq(stt, s.ghost['norm'])))),
                ('output position', Implies(f.fits, eq(o, f.OL(toz(i))))),
                ('scan state', Implies(f.fits, Iff(eq(stt, pct), f.ST(toz(i))))),
                ('rewritten so far', Implies(f.fits, eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(ob, k)), f.G(toz(k))), 0, o))),
                ('no NUL', eng.forall_bytes(lambda k: ne(eng.byte_at(s, Ptr(ob, k)), 0), 0, o))]

    def havoc(L):
        f = L.S.ghost['fmt']
        i = L.var('in_pos')
        L.S.ghost['i'] = i
        L.S.assume(f.step(i))

    def epos(L):
        """position in the error description: an index, or a pointer into it"""
        if L.has('err_pos'):
            return L.var('err_pos')
        x = L.S.ghost['x']
        for nm, lst in L.frame.names.items():
            if lst and lst[-1][0] in L.S.objs and lst[-1][1].k == 'ptr':
                v = L.eng.rd(L.S, Ptr(lst[-1][0], 0), lst[-1][1])
                if isinstance(v, Ptr) and is_c(v.obj) and v.obj == x.obj and nm != 'err_str':
                    return v.off
        raise Unsupported('no position in the error description')

    def einv(L):
        eng, s = L.eng, L.S
        f, i = s.ghost['fmt'], s.ghost['i']
        j, o = epos(L), L.var('out_pos')
        ob = L.slot('out_fmt')[0]
        size = s.objs[ob].size
        return [('position in the description', And(le(0, j), le(j, f.xl))),
                ('room in the buffer', And(le(0, o), le(o, sub(size, 1)))),
                ('output position', Implies(f.fits, eq(o, f.OL(toz(i)) + f.PX(toz(j))))),
                ('rewritten so far', Implies(f.fits, eng.forall_bytes(lambda k: eq(eng.byte_at(s, Ptr(ob, k)), f.G(toz(k))), 0, o))),
                ('no NUL', eng.forall_bytes(lambda k: ne(eng.byte_at(s, Ptr(ob, k)), 0), 0, o))]

    def ehavoc(L):
        f = L.S.ghost['fmt']
        L.S.assume(f.estep(L.S.ghost['i'], epos(L)))

    def spec(eng, st):
        if calls(eng.cur_loop, ('strerror', 'errno', '__errno_location')):
            return LoopSpec(inv=inv, post_havoc=havoc, auto=False)
        return LoopSpec(inv=einv, post_havoc=ehavoc, auto=False)

    def c_strerror(eng, st, a, node):
        eng.check_p(st, eq(a[0], st.ghost['errno']), 'strerror(): the current error', C19, 'pre', node)
        return [(st, st.ghost['x'])]

    def c_vsnprintf(eng, st, a, node):
        g = st.ghost
        f = g['fmt']
        buf, size, fmt, ap = a
        eng.check_p(st, 'buf' not in g, 'the message is formatted once', C19, 'pre', node)
        eng.check_p(st, ptr_eq(ap.ptr if isinstance(ap, StructVal) else ap, g['ap']), 'vsnprintf(): the arguments of the message', C19, 'pre', node)
        need_bytes(eng, st, buf, size, node, 'vsnprintf', write=True)
        n = eng.strlen_of(st, fmt, node, 'vsnprintf')
        eng.check_p(st, Implies(f.fits, And(eq(n, f.OL(toz(f.n))), eng.forall_bytes(
            lambda k: eq(eng.byte_at(st, Ptr(fmt.obj, add(fmt.off, k))), f.G(toz(k))), 0, n))),
            'the format: %m replaced by the error description, %% and everything else kept', C19, 'pre', node)
        t = fresh_int('t')
        st.assume(t >= 0, t <= 2147483647)
        eng.check_p(st, ge(size, 8), 'vsnprintf(): room for the mark', C19, 'pre', node)
        MSG = fresh_fun('MSG', I, I)
        m = Ite(lt(t, size), t, sub(size, 1))
        k = z3.Int('k')
        st.assume(z3.ForAll([k], z3.And(MSG(k) >= 1, MSG(k) <= 255), patterns=[MSG(k)]))
        eng.wr_bulk(st, buf, 'copy', m, lambda k: MSG(toz(k)))
        eng.wr(st, Ptr(buf.obj, add(buf.off, m)), CHAR, 0)
        eng.assume_len(st, buf, m)
        g.update(buf=buf, size=size, t=t, MSG=MSG, len=m)
        return [(st, t)]

    def after(eng, st, node):
        """content of the message when it is written"""
        g = st.ghost
        buf, size, t, MSG = g['buf'], g['size'], g['t'], g['MSG']
        b = lambda k: eng.byte_at(st, Ptr(buf.obj, add(buf.off, k)))
        full = lt(t, size)
        mark = b' [...]'
        eng.check_p(st, Implies(full, And(eq(b(t), 0), eng.forall_bytes(lambda k: eq(b(k), MSG(toz(k))), 0, t))),
                    'a message that fits is written as it is', C19, node=node)
        cut = sub(size, 1 + len(mark))
        eng.check_p(st, Or(full, And(eq(b(sub(size, 1)), 0), *[eq(b(add(cut, i)), c) for i, c in enumerate(mark)],
                                     eng.forall_bytes(lambda k: eq(b(k), MSG(toz(k))), 0, cut))),
                    'a message that does not fit is cut and marked', C19, node=node)
    sk = sinks(None)

    def wrap(h):
        def w(eng, st, a, node):
            if 'buf' not in st.ghost:
                eng.check_p(st, False, 'the message is formatted before it is written', C19, 'pre', node)
                return []
            after(eng, st, node)
            k = 1
            ok = is_c(a[k].obj) and libc.lit_bytes(eng, st, a[k]) is not None
            eng.check_p(st, ok, 'constant format for the message', C19, 'pre', node)
            if not ok:
                return []
            # the C string in the buffer
            g = st.ghost
            eng.assume_len(st, g['buf'], g['len'])
            return h(eng, st, a, node)
        return w
    cs = dict(sk, fprintf=wrap(sk['fprintf']), syslog=wrap(sk['syslog']), strerror=c_strerror, vsnprintf=c_vsnprintf)
    eng = T.eng(contracts=cs, loops={'*': spec})
    st = eng.start()
    fmt = eng.new_string(st, 'format', 'param')
    x = eng.new_string(st, 'error description', 'static')
    level = fresh_int('level')
    st.assume(level >= 2, level <= 7)
    ap = eng.new_obj(st, 24, 'param', 'arguments')
    f = Fmt(eng, st, fmt, x)
    st.assume(f.n < 1 << 31, f.xl < 1 << 31)
    # lemma: the lengths grow monotonically (inductive step)
    lem = st.copy()
    i = fresh_int('i')
    lem.assume(i >= 0, lt(i, f.n), f.step(i))
    eng.check_p(lem, f.OL(toz(i) + 1) >= f.OL(toz(i)), 'lemma: OL is monotone', C19, 'lemma')
    lem = st.copy()
    lem.assume(i >= 0, lt(i, f.xl), f.estep(0, i))
    eng.check_p(lem, f.PX(toz(i) + 1) >= f.PX(toz(i)), 'lemma: PX is monotone', C19, 'lemma')
    e = libc.set_errno(eng, st)
    u = T.unit(LOG[0])
    enums = dict(getattr(u, 'enums', {}))
    pct, norm = enums.get('STATE_PERCENT'), enums.get('STATE_NORMAL')
    if pct is None or norm is None:
        raise Unsupported('states of the scan')
    st.ghost.update(fmt=f, x=x, errno=e, ap=ap, level=level, out=(), pct=pct, norm=norm)
    tp = eng.global_ptr(st, 'log_target')
    tg = fresh_int('target')
    st.assume(tg >= 0, tg <= 7)
    eng.wr(st, tp, INT, tg)
    bit = lambda v, k: eq(ival((toz(v) / k) % 2), 1)
    seen = set()
    for s, r in T.run(eng, 'vlog', st, [level, fmt, ap]):
        g = s.ghost
        seen |= set(g['out'])
        eng.cover(s, 'message written to ' + (', '.join(g['out']) or 'nothing'))
        for k, name in ((1, 'syslog'), (2, 'stderr'), (4, 'systemd')):
            c = g['out'].count(name)
            eng.check_p(s, And(c <= 1, Iff(bit(tg, k), c == 1)), 'written to %s exactly once if that is a target' % name, C19)


@task('log.set', ['C19', 'C27'], LOG)
def t_set(T):
    def opened(eng, st, a, node):
        st.ghost['opened'] = st.ghost.get('opened', 0) + 1
        return [(st, None)]
    eng = T.eng(contracts={'openlog': opened})
    st = eng.start()
    lv, tg, l0, t0 = fresh_int('level'), fresh_int('flags'), fresh_int('l0'), fresh_int('t0')
    st.assume(lv >= -1, lv <= 1000, tg >= -1, tg <= 7, l0 >= 0, l0 <= 1000, t0 >= 0, t0 <= 7)
    lp, tp = eng.global_ptr(st, 'log_level'), eng.global_ptr(st, 'log_target')
    eng.wr(st, lp, INT, l0)
    eng.wr(st, tp, INT, t0)
    for s, r in T.run(eng, 'log_set', st, [lv, tg]):
        eng.cover(s, 'log_set')
        eng.check_p(s, eq(eng.rd(s, lp, INT), Ite(eq(lv, -1), l0, lv)), 'log_set: the level, unless it is -1', C19 + ['C27'])
        eng.check_p(s, eq(eng.rd(s, tp, INT), Ite(eq(tg, -1), t0, tg)), 'log_set: the target, unless it is -1', C19 + ['C27'])


THRESH = {'debug': (7, 5), 'info': (6, 4), 'notice': (5, 3), 'warning': (4, 2), 'error': (3, 1), 'critical': (2, None), 'die': (2, None)}


@task('log.levels', ['C19', 'C27'], LOG)
def t_levels(T):
    for fn, (prio, thr) in THRESH.items():
        def c_vlog(eng, st, a, node):
            g = st.ghost
            g['calls'] += 1
            va = a[2].ptr if isinstance(a[2], StructVal) else a[2]
            got = st.objs[va.obj].meta.get('va') if is_c(va.obj) else None
            eng.check_p(st, And(eq(a[0], prio), ptr_eq(a[1], g['f'])), '%s: the message with its level' % fn, C19, 'pre', node)
            eng.check_p(st, got is not None and len(got) == 1 and eq(got[0], g['arg']) is True, '%s: the arguments of the message' % fn, C19, 'pre', node)
            return [(st, None)]
        eng = T.eng(contracts={'vlog': c_vlog})
        st = eng.start()
        f = eng.new_string(st, 'format', 'param')
        v, lv = fresh_int('arg'), fresh_int('log_level')
        st.assume(lv >= 0, lv <= 5)
        lp = eng.global_ptr(st, 'log_level')
        eng.wr(st, lp, INT, lv)
        st.ghost.update(f=f, arg=v, calls=0)
        outs = []
        for u in eng.units:
            if fn in u.funcs:
                eng.inlined.add(fn)
                outs = [s for oc, s in eng.run_body(st, u, fn, [f, v])]
        for s in outs + list(eng.exits):
            eng.cover(s, fn)
            want = True if thr is None else ge(lv, thr)
            eng.check_p(s, Ite(want, s.ghost['calls'] == 1, s.ghost['calls'] == 0), '%s: logged once if its level is enabled' % fn, C19 + ['C27'])
        eng.check_p(st, (fn == 'die') == (not outs), '%s: only fatal messages end the program' % fn, C19)
        for s in eng.exits:
            ex = [e for e in s.trace if e[0] == 'exit']
            eng.check_p(s, len(ex) == 1 and ne(ex[0][2], 0), 'die: exits with a nonzero status', C19)


ALL = ['src/common/buffer.c', 'src/common/log.c', 'src/common/tls.c', 'src/common/util.c', 'src/client/parse.c', 'src/server/auth.c', 'src/server/conf.c',
       'src/server/fifo.c', 'src/server/hash.c', 'src/server/nsca-ng.c', 'src/server/server.c', 'src/client/auth.c', 'src/client/client.c',
       'src/client/conf.c', 'src/client/input.c', 'src/client/send_nsca.c', 'lib/wrappers.c']


def walk(n):
    yield n
    for c in n.get('inner', []) or []:
        if c:
            yield from walk(c)


def literal(eng, u, n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'PredefinedExpr') and n.get('inner'):
        n = n['inner'][0]
    if n['kind'] == 'StringLiteral':
        return eng.strlit(n)
    return None


@task('log.formats', ['C19'], ALL)
def t_formats(T):
    """every log message has a constant format whose conversions match its arguments"""
    import os
    units = [p for p in ALL if os.path.exists(os.path.join(cfront.REPO, p))]
    have = {os.path.relpath(os.path.join(d, f), cfront.REPO) for d in (
        os.path.join(cfront.REPO, 'src', x) for x in ('common', 'server', 'client')) for f in os.listdir(d) if f.endswith('.c')}
    eng = T.eng(units=sorted(set(units) | have))
    st = eng.start()
    sites = 0
    for u in eng.units:
        for fn, f in u.funcs.items():
            if not f.get('body') or eng.is_header_fn(u, fn):
                continue
            for n in walk(f['body']):
                if n.get('kind') != 'CallExpr':
                    continue
                c = n['inner'][0]
                while c['kind'] in ('ImplicitCastExpr', 'ParenExpr') and c.get('inner'):
                    c = c['inner'][0]
                name = (c.get('ref') or {}).get('name')
                if name not in THRESH:
                    continue
                sites += 1
                where = '%s: %s()' % (fn, name)
                args = n['inner'][1:]
                lit = literal(eng, u, args[0])
                eng.check_p(st, lit is not None, where + ': constant format', C19, 'pre')
                if lit is None:
                    continue
                fm = bytes(lit)
                fm = fm[:fm.index(b'\0')] if b'\0' in fm else fm
                eng.check_p(st, len(fm) <= 250, where + ': the format leaves room for an error description', C19, 'pre')
                want = []
                for p in libc.parse_fmt(fm):
                    if p[0] != 'conv':
                        continue
                    _, fl, w, prec, mod, cv = p
                    if w == b'*':
                        want.append(('i', 4))
                    if prec == b'*':
                        want.append(('i', 4))
                    if cv == b'm':
                        continue
                    if cv == b's':
                        want.append(('p', 1))
                    elif cv in b'fgeFGEa':
                        want.append(('f', 8))
                    elif cv == b'p':
                        want.append(('p', 0))
                    else:
                        want.append(('i', {None: 4, b'hh': 4, b'h': 4}.get(mod, 8)))
                eng.check_p(st, len(want) == len(args) - 1, where + ': as many arguments as conversions', C19, 'pre')
                for (k, size), a in zip(want, args[1:]):
                    t = u.type(a['type'])
                    ct = cat(t)
                    if k == 'p':
                        ok = ct == 'p' and (size == 0 or 'char' in a['type'])
                    elif k == 'f':
                        ok = ct in ('f', 'r', 'd') or 'double' in a['type'] or 'ev_tstamp' in a['type']
                    else:
                        ok = ct not in ('p', 'f', 'r') and u.sizeof(t) == size
                    eng.check_p(st, ok, where + ': argument of the type the conversion expects', C19, 'pre')
    eng.cover(st, 'log messages')
    eng.check_p(st, sites >= 50, 'log messages were found', C19)


@task('log.close', ['C19'], LOG)
def t_close(T):
    def closed(eng, st, a, node):
        st.ghost['closed'] = st.ghost.get('closed', 0) + 1
        return [(st, None)]
    eng = T.eng(contracts={'closelog': closed})
    st = eng.start()
    for s, r in T.run(eng, 'log_close', st, []):
        eng.cover(s, 'log_close')
        eng.check(s, s.ghost.get('closed') == 1, 'log_close: the system log is closed')
