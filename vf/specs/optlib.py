"""getopt(3) and the option loop, for both programs"""
from vtask import *
from libc import *
import libc


def mk_argv(eng, st):
    """argc, argv: argv[1] and any other argument are arbitrary strings"""
    argc = fresh_int('argc')
    st.assume(argc >= 1, argc < (1 << 20))
    one, other = eng.new_string(st, 'argv[1]', 'param'), eng.new_string(st, 'argv[i]', 'param')
    av = eng.new_obj(st, mul(8, add(argc, 1)), 'param', 'argv', meta={
        'ptrs': lambda off: Ptr(Ite(eq(off, mul(8, argc)), 0, Ite(eq(off, 8), one.obj, other.obj)), 0)})
    st.ghost.update(argc=argc, argv=av, opt=None, optarg=None, argv1=one)
    return argc, av


def c_getopt(eng, st, a, node):
    g = st.ghost
    eng.check(st, And(eq(a[0], g['argc']), ptr_eq(a[1], g['argv'])), 'getopt(): the program\'s arguments', node)
    f = libc.fmt_of(eng, st, a[2])
    if f is None:
        raise Unsupported('option string')
    oi = eng.global_ptr(st, 'optind')
    oa = eng.global_ptr(st, 'optarg')
    out = []
    i, chars = 0, []
    while i < len(f):
        c = f[i]
        i += 1
        if c in (58, 43, 45):
            continue
        arg = i < len(f) and f[i] == 58
        chars.append((c, arg))
    for c, arg in [(-1, False), (63, False)] + chars:
        s = st.copy()
        k = fresh_int('optind')
        s.assume(k >= 1, le(k, g['argc']))
        eng.wr(s, oi, INT, k)
        p = eng.new_string(s, 'option argument', 'param') if arg else NULL
        eng.wr(s, oa, cfront.ptr(CHAR), p)
        s.ghost['opt'] = chr(c) if c != -1 else 'end'
        s.ghost['left'] = sub(g['argc'], k)              # arguments that are no options
        s.ghost['optarg'] = p
        if c != -1:
            s.ghost['seen_' + chr(c)] = True
            if g.get('on'):
                g['on'](s, chr(c))
            if arg:
                s.ghost['arg_' + chr(c)] = p
        s.desc += ('option %s' % (chr(c) if c > 0 else 'end'),)
        out.append((s, c))
    return out


def word(eng, st, p, text):
    """the string is this text"""
    return And(eq(eng.strlen_of(st, p), len(text)), *[eq(eng.byte_at(st, Ptr(p.obj, i)), b) for i, b in enumerate(text)])


def long_info(eng, st):
    """the only argument is --help or --version"""
    p = st.ghost['argv1']
    return And(eq(st.ghost['argc'], 2), Or(word(eng, st, p, b'--help'), word(eng, st, p, b'--version')))


C27 = ['C27']


def returned(eng, s, fn):
    """get_options() returns only for an acceptable command line"""
    g = s.ghost
    eng.check_p(s, g.get('opt') == 'end', fn + ': returns when all options were processed', C27)
    if g.get('opt') == 'end':
        eng.check_p(s, eq(g['left'], 0), fn + ': an argument that is no option is refused', C27)
    eng.check_p(s, Not(long_info(eng, s)), fn + ': --help and --version print information only', C27)


def ended(eng, s, fn, refused=False):
    """... and ends the program for the reasons the manual gives"""
    g = s.ghost
    e = [x for x in s.trace if x[0] == 'exit'][-1]
    o = g.get('opt')
    printed = [x[1] for x in s.trace if x[0] == 'output']
    if o is None:                                       # before any option was looked at
        eng.check_p(s, And(long_info(eng, s), eq(e[2], 0)), fn + ': ends before the options are processed only for --help and --version, successfully', C27)
    elif o in ('h', 'V'):
        eng.check_p(s, eq(e[2], 0), fn + ': -h and -V end the program successfully', C27)
    else:
        eng.check_p(s, ne(e[2], 0), fn + ': a mistake on the command line ends the program with a nonzero status', C27)
        eng.check_p(s, Or(o == '?', refused, And(o == 'end', gt(g['left'], 0)) if 'left' in g else False),
                    fn + ': only a mistake on the command line is refused', C27)
    if o in (None, 'h', 'V'):
        eng.check_p(s, 'stdout' in printed, fn + ': the information is printed to the standard output', C27)


def c_atoi(eng, st, a, node):
    r = libc.LIBC['atoi'](eng, st, a, node)
    for s, v in r:
        if s.ghost.get('optarg') is not None and ptr_eq(a[0], s.ghost['optarg']) is True:
            s.ghost['num_' + s.ghost['opt']] = v
    return r


def out(arg):
    """puts(), fprintf(): output to the user"""
    def h(eng, st, a, node):
        std = arg is None or ptr_eq(a[arg], eng.rd(st, eng.global_ptr(st, 'stdout'), cfront.ptr(cfront.VOID))) is True
        st.event('output', 'stdout' if std else 'other')
        return [(st, fresh_int('n'))]
    return h


CONTRACTS = {'getopt': c_getopt, 'atoi': c_atoi, 'puts': out(None), 'fprintf': out(0), 'printf': out(None), 'fputs': out(1), 'fwrite': out(3),
             'nsca_version': lambda e, s, a, n: [(s, e.new_string(s, 'version', 'param'))]}
for _f in CONTRACTS:
    libc.NOTES.setdefault(_f, 'POSIX: any result the specification allows')


class Options:
    """the loop over the options: the option structure always reflects the last occurrence of each option"""

    def __init__(self, rec, strings, numbers, flags=(), extra=None, extra_ghosts=None):
        self.rec, self.strings, self.numbers, self.flags = rec, strings, numbers, flags
        self.extra, self.extra_ghosts = extra, extra_ghosts

    def start(self, st):
        for c in self.strings:
            st.ghost['arg_' + c] = None
        for c in self.numbers:
            st.ghost['num_' + c] = -1
        for c in self.flags:
            st.ghost['seen_' + c] = False

    def opt(self, s):
        return s.ghost['options']

    def F(self, eng, s, n):
        return eng.fld(s, self.opt(s), self.rec, n)

    def inv(self, eng, s, generic=None):
        """[(label, formula)]"""
        g = s.ghost
        r = []
        for c, n in self.strings.items():
            p = self.F(eng, s, n)
            want = g['arg_' + c]
            lab = '`%s` is the last argument of -%s' % (n, c)
            if isinstance(want, tuple):          # loop head: (given?, heap copy, argument)
                b, h, _ = want
                r.append((lab, And(ptr_eq(p, Ptr(z3.If(b, z3.IntVal(h.obj), z3.IntVal(0)), 0)), s.objs[h.obj].alive is b)))
                continue
            if want is None:
                r.append((lab, eq(p.obj, 0)))
                continue
            if not (is_c(p.obj) and p.obj > 0 and p.obj in s.objs):
                r.append((lab, False))
                continue
            o = s.objs[p.obj]
            n1, n2 = eng.strlen_of(s, p), eng.strlen_of(s, want)
            r.append((lab, And(o.alive is True and o.kind == 'heap', eq(p.off, 0), eq(n1, n2), eng.forall_bytes(
                lambda k: eq(eng.byte_at(s, Ptr(p.obj, k)), eng.byte_at(s, Ptr(want.obj, k))), 0, n1))))
        for c, n in self.numbers.items():
            r.append(('`%s` is the last argument of -%s' % (n, c), eq(self.F(eng, s, n), g['num_' + c])))
        for c, n in dict(self.flags).items():
            r.append(('`%s` tells whether -%s was given' % (n, c), Iff(ne(self.F(eng, s, n), 0), g['seen_' + c])))
        if self.extra:
            r += self.extra(eng, s)
        return r

    def havoc(self, L):
        eng, s = L.eng, L.S
        g = s.ghost
        g['opt'] = g['optarg'] = None
        for k in [k for k in g if isinstance(k, str) and k[:4] in ('arg_', 'num_') and k[4:] not in self.strings and k[4:] not in self.numbers]:
            g[k] = None
        for c, n in self.strings.items():
            a = eng.new_string(s, 'last argument of -' + c, 'param')
            h = libc.new_copy(eng, s, a, eng.strlen_of(s, a), 'copy of the last argument of -' + c)
            eng.assume_len(s, h, eng.strlen_of(s, a))
            b = fresh_bool('has_' + c)
            s.objs[h.obj] = s.objs[h.obj].with_(alive=b)
            eng.setfld(s, self.opt(s), self.rec, n, Ptr(z3.If(b, z3.IntVal(h.obj), z3.IntVal(0)), 0))
            g['arg_' + c] = (b, h, a)
        for c in self.numbers:
            g['num_' + c] = fresh_int('num_' + c)
        for c in dict(self.flags):
            g['seen_' + c] = fresh_bool('seen_' + c)
        if self.extra_ghosts:
            self.extra_ghosts(s)

    def spec(self):
        def pick(eng, st):
            if 'options' not in st.ghost:
                return None
            return LoopSpec(inv=lambda L: self.inv(L.eng, L.S), post_havoc=self.havoc, auto=False)
        return pick

    def xmalloc(self, eng, st, a, node):
        r = libc.LIBC['xmalloc'](eng, st, a, node)
        for s, p in r:
            if is_c(a[0]) and a[0] == eng.recsize(self.rec) and 'options' not in s.ghost:
                s.ghost['options'] = p
        return r

    def mk(self, eng, st):
        """any option structure, as get_options() returns it"""
        p = eng.new_struct(st, self.rec, 'heap', 'options')
        st.ghost['options'] = p
        for c, n in self.strings.items():
            h = eng.new_string(st, 'option ' + n)
            b = fresh_bool('has_' + n)
            st.objs[h.obj] = st.objs[h.obj].with_(alive=b)
            eng.setfld(st, p, self.rec, n, Ptr(z3.If(b, z3.IntVal(h.obj), z3.IntVal(0)), 0))
            st.ghost['opt_' + n] = (b, h)
        return p
