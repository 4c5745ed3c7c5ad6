"""lib/wrappers.c, lib/progname.c, src/common/util.c: the helpers whose contracts the other tasks rely on"""
from vtask import *
from libc import *
import libc, cfront

ALLOC = ['C10', 'C12', 'C14', 'C07', 'C25', 'C17']
CP = cfront.ptr(CHAR)


def died(eng, what, cond):
    """the exit paths of a task: only under `cond`, and with a nonzero status"""
    n = 0
    for s in eng.exits:
        n += 1
        e = [x for x in s.trace if x[0] == 'exit']
        eng.check(s, And(cond(s), ne(e[-1][2], 0) if e else False), '%s: the program ends only when it has to' % what)
    return n


@task('wrappers.alloc', ALLOC, ['lib/wrappers.c'])
def t_alloc(T):
    """xmalloc(), xrealloc() and xstrdup(): a live block of the requested size or content, or the program ends"""
    def allocated(s):
        return [e for e in s.trace if e[0] == 'alloc']

    def c_realloc(eng, st, a, node):
        bad = st.copy()
        return LIBC['realloc'](eng, st, a, node) + [(bad, NULL)]     # on failure, the old block stays as it is

    for fn in ('xmalloc', 'xrealloc', 'xstrdup'):
        eng = T.eng(contracts={'realloc': c_realloc})
        st = eng.start()
        size = fresh_int('size')
        st.assume(size >= 0, size <= (1 << 63) - 1)
        if fn == 'xmalloc':
            args = [size]
        elif fn == 'xrealloc':
            osz = fresh_int('old')
            st.assume(osz >= 1, osz <= (1 << 40))
            old = eng.new_obj(st, osz, 'heap', 'block')
            args = [old, size]
        else:
            string = eng.new_string(st, 'string')
            size = add(eng.strlen_of(st, string, None, ''), 1)
            args = [string]
        s0 = st.copy()
        for s, r in T.run(eng, fn, st, args):
            eng.cover(s, fn)
            for x, p in eng.resolve(s, r, None):
                o = x.objs.get(p.obj) if is_c(p.obj) and p.obj else None
                if o is None:
                    eng.check(x, eq(size, 0), '%s: never returns without a block' % fn)
                    continue
                eng.check(x, And(o.kind == 'heap', o.alive, eq(p.off, 0), le(size, o.size)), '%s: a live block of the requested size' % fn)
                eng.check(x, p.obj not in s0.objs, '%s: the block is a new one' % fn)
                eng.check(x, len(allocated(x)) == 1, '%s: one block is allocated' % fn)
                if fn == 'xrealloc':
                    eng.check(x, Not(x.objs[old.obj].alive), 'xrealloc: the old block is gone')
                    eng.check(x, eng.forall_bytes(lambda k: eq(eng.byte_at(x, Ptr(p.obj, k)), eng.byte_at(s0, Ptr(old.obj, k))), 0,
                                                  Ite(le(osz, size), osz, size)), 'xrealloc: the content is kept')
                if fn == 'xstrdup':
                    eng.check(x, eng.forall_bytes(lambda k: eq(eng.byte_at(x, Ptr(p.obj, k)), eng.byte_at(s0, Ptr(string.obj, k))), 0, size),
                              'xstrdup: the copy equals the string')
        died(eng, fn, lambda s: len(allocated(s)) == 0)


@task('wrappers.format', ['C14', 'C13', 'C16', 'C24'], ['lib/wrappers.c'])
def t_format(T):
    """xasprintf() and xvasprintf(): vasprintf()'s string for exactly the given format and arguments, or the program ends"""
    def h_vasprintf(eng, st, a, node):
        g = st.ghost
        eng.check(st, And(ptr_eq(a[0], g['res']), ptr_eq(a[1], g['fmt'])), 'vasprintf(): the given result and format', node)
        ap = a[2].ptr if isinstance(a[2], StructVal) else a[2]
        va = libc.va_args(eng, st, ap)
        same = len(va) == len(g['va']) and And(*[eq(x, y) if not isinstance(y, Ptr) else ptr_eq(x, y) for x, y in zip(va, g['va'])])
        eng.check(st, same, 'vasprintf(): the given arguments', node)
        bad = st.copy()
        bad.ghost['failed'] = True
        q = eng.new_string(st, 'text')
        eng.wr(st, g['res'], CP, q)
        g['n'] = g.get('n', 0) + 1
        g['got'] = q
        n = fresh_int('vlen')
        st.assume(n >= 0, n <= (1 << 31) - 1)
        return [(st, n), (bad, -1)]
    for fn in ('xvasprintf', 'xasprintf'):
        eng = T.eng(contracts={'vasprintf': h_vasprintf})
        st = eng.start()
        res = eng.new_obj(st, 8, 'param', 'result', ctype=CP)
        fmt = eng.new_string(st, 'format')
        va = [fresh_int('va0'), eng.new_string(st, 'va1')]
        st.ghost.update(res=res, fmt=fmt, va=va)
        if fn == 'xasprintf':
            args = [res, fmt] + va
        else:
            ap = eng.new_obj(st, 24, 'param', 'ap', meta={'va': list(va)})
            args = [res, fmt, ap]
        for s, r in T.run(eng, fn, st, args):
            eng.cover(s, fn)
            g = s.ghost
            eng.check(s, 'failed' not in g and g.get('n') == 1, '%s: returns only after one successful formatting' % fn)
            if 'got' in g:
                eng.check(s, ptr_eq(eng.rd(s, g['res'], CP), g['got']), '%s: the result is the formatted string' % fn)
        died(eng, fn, lambda s: s.ghost.get('failed') is True)


@task('util.parse_line', ['C05', 'C16', 'C15'], ['src/common/util.c'])
def t_parse_line(T):
    """parse_line(): true iff the line has exactly n fields, which are stored in order"""
    def c_strtok(eng, st, a, node):
        g = st.ghost
        d = libc.fmt_of(eng, st, a[1])
        eng.check(st, d is not None and sorted(set(d)) == [9, 32], 'strtok(): fields are separated by blanks and tabs', node)
        first = g['pos'] is None
        if first:
            eng.check(st, ptr_eq(a[0], g['line']), 'strtok(): starts with the line', node)
            k = 0
        else:
            eng.check(st, ptr_eq(a[0], NULL), 'strtok(): goes on in the line', node)
            k = g['pos']
        if len(a) > 2:
            need_bytes(eng, st, a[2], 8, node, 'strtok_r', write=True)
        res = []
        more, none = eng.split(st, lt(k, g['nt']), node)
        for s in more:
            s.ghost['pos'] = add(k, 1)
            res.append((s, Ptr(g['line'].obj, add(g['line'].off, TO(toz(k))))))
        for s in none:
            s.ghost['pos'] = k
            res.append((s, NULL))
        return res
    TO = uf('TOKEN', I, I)
    for n in (1, 2, 3, 4):
        eng = T.eng(contracts={'strtok': c_strtok, 'strtok_r': c_strtok}, loops={'*': LoopSpec(unroll=n + 2)})
        st = eng.start()
        line = eng.new_string(st, 'line')
        nt = fresh_int('nt')
        st.assume(nt >= 0)
        k = z3.Int('k')
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nt), z3.And(TO(k) >= 0, TO(k) < eng.strlen_of(st, line, None, ''))), patterns=[TO(k)]))
        args = eng.new_obj(st, 8 * n, 'param', 'args', ctype=cfront.array(CP, n) if hasattr(cfront, 'array') else None)
        for j in range(n):
            eng.wr(st, Ptr(args.obj, 8 * j), CP, NULL)    # a field that was not stored is not a string
        st.ghost.update(pos=None, line=line, nt=nt)
        for s, r in T.run(eng, 'parse_line', st, [line, args, n]):
            eng.cover(s, 'parse_line')
            eng.check(s, Iff(tob(r), eq(nt, n)), 'parse_line: true iff the line has exactly the requested number of fields')
            for x in eng.split(s, tob(r), None)[0]:
                for j in range(n):
                    v = eng.rd(x, Ptr(args.obj, 8 * j), CP)
                    eng.check(x, ptr_eq(v, Ptr(line.obj, add(line.off, TO(z3.IntVal(j))))), 'parse_line: field %d of %d is stored in its place' % (j, n))


@task('util.version', ['C22', 'C16'], ['src/common/util.c'])
def t_version(T):
    """nsca_version() and what it calls: terminated, within their static buffers"""
    def c_ssl(eng, st, a, node):
        return [(st, st.ghost['ver'])]
    eng = T.eng(contracts={'SSLeay_version': c_ssl, 'OpenSSL_version': c_ssl}, loops={'*': LoopSpec()})
    st = eng.start()
    st.ghost['ver'] = eng.new_string(st, 'openssl version')
    for s, r in T.run(eng, 'get_openssl_version', st, []):
        eng.cover(s, 'get_openssl_version')
        n = eng.strlen_of(s, r, None, 'get_openssl_version: the result is a terminated string')

    def num(eng, st, a, node):
        return [(st, fresh_int('num'))]

    def text(eng, st, a, node):
        return [(st, eng.new_string(st, 'text'))]
    eng = T.eng(contracts={'ev_backend': num, 'ev_version_major': num, 'ev_version_minor': num, 'getprogname': text,
                           'get_openssl_version': text, 'ev_default_loop_uc_': lambda e, s, a, n: [(s, e.new_obj(s, 1, 'static2', 'loop'))]})
    st = eng.start()
    for s, r in T.run(eng, 'nsca_version', st, []):
        eng.cover(s, 'nsca_version')
        eng.strlen_of(s, r, None, 'nsca_version: the result is a terminated string')


@task('progname', ['C19', 'C22', 'C16'], ['lib/progname.c'])
def t_progname(T):
    """setprogname() remembers the last path component, getprogname() returns it"""
    eng = T.eng()
    st = eng.start()
    path = eng.new_string(st, 'path')
    n = eng.strlen_of(st, path, None, '')
    for s, _ in T.run(eng, 'setprogname', st, [path]):
        for x, r in T.run(eng, 'getprogname', s, []):
            eng.cover(x, 'getprogname')
            eng.check(x, And(eq(r.obj, path.obj), le(0, r.off), le(r.off, n)), 'the name is a part of the path')
            eng.check(x, eng.forall_bytes(lambda k: ne(eng.byte_at(x, Ptr(path.obj, k)), 47), r.off, n), 'the name contains no slash')
            eng.check(x, Or(eq(r.off, 0), eq(eng.byte_at(x, Ptr(path.obj, sub(r.off, 1))), 47)), 'the name starts behind the last slash')


@task('hash.new', ['C22', 'C04', 'C02'], ['src/server/hash.c'])
def t_hash_new(T):
    """hash_new(): a table with room for the given number of entries, or the server does not start"""
    def c_hcreate(eng, st, a, node):
        eng.check(st, le(st.ghost['size'], a[0]), 'hcreate(): room for all entries', node)
        bad = st.copy()
        bad.ghost['failed'] = True
        st.ghost['n'] = st.ghost.get('n', 0) + 1
        r = fresh_int('hcreate')
        st.assume(r != 0)
        return [(st, r), (bad, 0)]
    eng = T.eng(contracts={'hcreate': c_hcreate})
    st = eng.start()
    size = fresh_int('size')
    st.assume(size >= 0, size <= (1 << 62))
    st.ghost['size'] = size
    for s, r in T.run(eng, 'hash_new', st, [size]):
        eng.cover(s, 'hash_new')
        eng.check(s, 'failed' not in s.ghost and s.ghost.get('n') == 1, 'hash_new: returns only with a table')
    died(eng, 'hash_new', lambda s: s.ghost.get('failed') is True)
