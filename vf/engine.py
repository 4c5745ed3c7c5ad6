"""Verification-condition generator for C functions.

Strongest-postcondition style symbolic execution over clang's AST: every path of a
function is executed on symbolic state, loops are cut at invariants, callees with a
contract are replaced by it, other project functions are executed in place (so their
current body is what is verified).  Every memory access, arithmetic operation with
undefined overflow, callee precondition, loop invariant and postcondition becomes an
obligation that is decided by the SMT solver under the path condition.
"""
import time, itertools, os, sys, re
import z3
import cfront
from cfront import CType, FrontError

z3.set_param('memory_max_size', 6000)


class Unsupported(Exception):
    """The code uses something the verifier cannot handle (or a contract does not fit)."""


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __bool__(self):
        raise TypeError('the truth value of a pointer (also of NULL) is not defined')

    def __repr__(self):
        return '<%s+%s>' % (self.obj, self.off)


NULL = Ptr(0, 0)


class StructVal:
    """value of a struct/array rvalue: snapshot of the object it was read from"""
    __slots__ = ('state', 'ptr', 'type')

    def __init__(self, state, ptr, type):
        self.state, self.ptr, self.type = state, ptr, type


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_c(x):
    return isinstance(x, int)


def simp(x):
    if is_z3(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def toz(x):
    """int-like -> z3 Int expr"""
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def ival(x):
    """value used as integer: python int or Int expr (bool -> 0/1)"""
    if isinstance(x, bool):
        return 1 if x else 0
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def tob(x):
    """value -> python bool or z3 Bool"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x != 0
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, Ptr):
        return ne(x.obj, 0)
    if is_z3(x):
        return x != 0
    raise Unsupported('truth value of %r' % (x,))


def add(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return a + b


def sub(a, b):
    if is_c(a) and is_c(b):
        return a - b
    if is_c(b) and b == 0:
        return a
    if is_z3(a) and is_z3(b) and a.eq(b):
        return 0
    return a - b


def mul(a, b):
    if is_c(a) and is_c(b):
        return a * b
    if is_c(a) and a == 1:
        return b
    if is_c(b) and b == 1:
        return a
    return a * b


def eq(a, b):
    if is_c(a) and is_c(b):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return toz(a) == toz(b)


def ne(a, b):
    return Not(eq(a, b))


def lt(a, b):
    if is_c(a) and is_c(b):
        return a < b
    return toz(a) < toz(b)


def le(a, b):
    if is_c(a) and is_c(b):
        return a <= b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return toz(a) <= toz(b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def Implies(a, b):
    if a is False or b is True:
        return True
    if a is True:
        return b
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return Ptr(Ite(c, a.obj, b.obj), Ite(c, a.off, b.off))
    if isinstance(a, (z3.BoolRef, bool)) and isinstance(b, (z3.BoolRef, bool)):
        return z3.If(c, a, b)
    a, b = toz(a), toz(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def ptr_eq(p, q):
    # NULL is the only pointer with object 0
    if is_c(p.obj) and p.obj == 0:
        return eq(q.obj, 0)
    if is_c(q.obj) and q.obj == 0:
        return eq(p.obj, 0)
    return And(eq(p.obj, q.obj), eq(p.off, q.off))


_cnt = itertools.count()


def fresh_int(name='v'):
    return z3.Int('%s!%d' % (name, next(_cnt)))


def fresh_bool(name='b'):
    return z3.Bool('%s!%d' % (name, next(_cnt)))


def fresh_real(name='r'):
    return z3.Real('%s!%d' % (name, next(_cnt)))


def fresh_fun(name, *sorts):
    return z3.Function('%s!%d' % (name, next(_cnt)), *sorts)


I = z3.IntSort()
B = z3.BoolSort()


def trange(t):
    if t.k == 'bool':
        return 0, 1
    n = t.size * 8
    if t.signed:
        return -(1 << (n - 1)), (1 << (n - 1)) - 1
    return 0, (1 << n) - 1


def cat(t):
    if t.k in ('int', 'bool'):
        return 'i'
    if t.k in ('ptr', 'func'):
        return 'p'
    if t.k == 'float':
        return 'f'
    return 's'


# ------------------------------------------------------------------ memory
BIT0 = 1 << 32      # bitfield cells live at field offset + k*BIT0


class Obj:
    __slots__ = ('id', 'size', 'kind', 'alive', 'writes', 'ver', 'meta', 'name', 'addr', 'ctype')

    def __init__(self, id, size, kind, alive=True, writes=None, ver=0, meta=None, name='', addr=True, ctype=None):
        self.id, self.size, self.kind, self.alive = id, size, kind, alive
        self.writes, self.ver, self.meta, self.name = writes, ver, meta or {}, name
        self.addr, self.ctype = addr, ctype

    def with_(self, **kw):
        o = Obj(self.id, self.size, self.kind, self.alive, self.writes, self.ver, self.meta, self.name, self.addr,
                self.ctype)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    f = _ufs.get(key)
    if f is None:
        f = _ufs[key] = z3.Function(name, *sorts)
    return f


def base_byte(o, off):
    if 'lit' in o.meta:
        b = o.meta['lit']
        if is_c(off):
            return b[off] if 0 <= off < len(b) else 0
        r = z3.IntVal(0)
        for i in range(len(b) - 1, -1, -1):
            r = z3.If(off == i, z3.IntVal(b[i]), r)
        return r
    return uf('B_%s_%s' % (o.id, o.ver), I, I)(toz(off))


class State:
    def __init__(self):
        self.pc = []
        self.objs = {}
        self.sym = (0, None)        # (base version, write chain) of symbolically addressed memory
        self.trace = ()
        self.ghost = {}
        self.nid = 100000
        self.desc = ()
        self.hints = ()             # known positions of NUL bytes: (obj, off)
        self.strmemo = {}
        self.frames = ()
        self.symalive = (0, None)
        self.calls = 0              # calls that may yield something else next time

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.objs = dict(self.objs)
        s.sym = self.sym
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.nid = self.nid
        s.desc = self.desc
        s.hints = self.hints
        s.strmemo = self.strmemo
        s.frames = self.frames
        s.symalive = self.symalive
        s.calls = self.calls
        return s

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
            elif f is True:
                pass
            elif f is False:
                self.pc.append(z3.BoolVal(False))
            else:
                self.pc.append(f)

    def event(self, *e):
        self.trace = self.trace + (e,)


class Frame:
    __slots__ = ('fname', 'unit', 'vars', 'names', 'loopno', 'varargs', 'depth')

    def __init__(self, fname, unit, depth):
        self.fname, self.unit, self.vars, self.names = fname, unit, {}, {}
        self.loopno = None
        self.varargs = None
        self.depth = depth


def has_quant(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children())
    return False


_qcache = {}


def quantified(f):
    k = f.get_id()
    r = _qcache.get(k)
    if r is None:
        r = has_quant(f)
        _qcache[k] = (r, f)
        return r
    return r[0]


def limit(s, ms):
    """bound a query by work rather than by time, so that the outcome does not depend on the load (about 2.2e6 units are one second);
    the time limit is a backstop"""
    s.set('rlimit', int(ms * 2500))
    s.set('timeout', int(ms * 5))


class Obligation:
    __slots__ = ('func', 'label', 'kind', 'line', 'status', 'backend', 'time', 'detail', 'props', 'path')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class LoopSpec:
    """Loop contract: inv(L) -> [(label, formula)], dec(L) -> Int term (optional)."""

    def __init__(self, inv=None, dec=None, ghost_havoc=(), auto=True, keep=None, mods=None, post_havoc=None,
                 progress=(), cands=(), unroll=0):
        self.unroll = unroll        # >0: unroll completely (more iterations than this: not decided)
        self.cands = cands          # optional facts [(label, state -> formula)], used if inductive
        self.inv, self.dec, self.ghost_havoc, self.auto = inv, dec, ghost_havoc, auto
        self.keep = keep
        self.mods = mods
        self.post_havoc = post_havoc
        self.progress = progress    # [(name, state -> Int term)]: ghost counters for inferred step relations


LOCALS = None


def locals_of(u, fname):
    """[(name, type)] of the parameters and local variables of a function in the order of declaration"""
    f = u.funcs[fname]
    out = [(p['name'], p['type']) for p in f['params']]
    todo = [f['body']]
    while todo:
        n = todo.pop()
        if n.get('kind') == 'VarDecl':
            t = n['type']
            t = t if isinstance(t, str) else t['qualType']
            out.append((n['name'], re.sub(r' at [^()]*', '', t)))
        todo.extend(c for c in reversed(n.get('inner', [])) if c)
    return out


def renamed(frame, name):
    """the current name of a local variable that the contract calls name, if variables were merely renamed:
    same number of variables with the same types in the same order as when the contract was written (locals.json).
    This only concerns which invariant is tried: whatever is chosen is proved."""
    global LOCALS
    if LOCALS is None:
        import json, os
        try:
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'locals.json')) as fh:
                LOCALS = json.load(fh)
        except OSError:
            LOCALS = {}
    u = frame.unit
    if frame.fname not in getattr(u, 'funcs', {}):
        return None
    old = [tuple(x) for x in LOCALS.get(frame.fname, [])]
    new = locals_of(u, frame.fname)
    if [t for _, t in old] != [t for _, t in new]:
        return None
    for (a, _), (b, _) in zip(old, new):
        if a == name and b != name:
            return b
    return None


class LoopCtx:
    def __init__(self, eng, st, frame, st0, depth_key):
        self.eng, self.S, self.frame, self.S0 = eng, st, frame, st0

    def var(self, *names):
        for n in names:
            lst = self.frame.names.get(n)
            if lst:
                oid, t = lst[-1]
                if oid in self.S.objs:
                    return self.eng.rd(self.S, Ptr(oid, 0), t)
        n2 = renamed(self.frame, names[-1])
        if n2 is not None:
            return self.var(n2)
        raise Unsupported('loop contract of %s refers to a variable %s which does not exist' % (
            self.frame.fname, '/'.join(names)))

    def var0(self, *names):
        for n in names:
            lst = self.frame.names.get(n)
            if lst:
                oid, t = lst[-1]
                return self.eng.rd(self.S0, Ptr(oid, 0), t)
        n2 = renamed(self.frame, names[-1])
        if n2 is not None:
            return self.var0(n2)
        raise Unsupported('no variable %s' % (names,))

    def slot(self, name):
        """(object, type) of a local variable"""
        lst = self.frame.names.get(name)
        if not lst:
            n2 = renamed(self.frame, name)
            lst = self.frame.names.get(n2) if n2 is not None else None
        if not lst:
            raise Unsupported('loop contract of %s refers to a variable %s which does not exist' % (self.frame.fname, name))
        return lst[-1]

    def has(self, n):
        lst = self.frame.names.get(n)
        if not lst:
            n2 = renamed(self.frame, n)
            lst = self.frame.names.get(n2) if n2 is not None else None
        return bool(lst) and lst[-1][0] in self.S.objs


class Engine:
    MAXPATHS = 3000

    def __init__(self, units, contracts=None, loops=None, timeout_ms=10000, deadline=None, config=None):
        self.units = units               # list of Unit; functions are looked up in order
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.timeout = timeout_ms
        self.deadline = deadline
        self.obls = []
        self.suppress = 0
        self.record_mod = None
        self.fnids = {}
        self.fnnames = {}
        self.gids = {}
        self.lits = {}
        self.ver = itertools.count(1)
        self.cur = None
        self.solver_time = 0.0
        self.nqueries = 0
        self.curprops = ()
        self.used_contracts = set()
        self.inlined = set()
        self.externals = set()
        self.npaths = 0
        self.gaxioms = []
        self.addr_taken_cache = {}
        self.config = config or {}
        self.loops_used = set()
        self.want_smt = None
        self.callstack = []
        self.failed_once = set()        # shared by the engines of a task (vtask)
        self.second = False
        self.second_checked = 0
        self.second_agreed = 0
        self.binding = None
        self.exits = []
        self.covers = []

    def start(self, unit=None):
        st = State()
        return st

    def exit_path(self, st):
        if not self.suppress:
            self.exits.append(st)

    def check_p(self, st, cond, label, props, kind='post', node=None):
        save = self.curprops
        self.curprops = tuple(props)
        try:
            return self.check(st, cond, label, node, kind)
        finally:
            self.curprops = save

    def cover(self, st, label):
        """vacuity guard: the state must be reachable under the assumptions"""
        r, _ = self._solve([f for f in st.pc if not quantified(f)], 5000)
        self.covers.append((label, r != z3.unsat))
        return r != z3.unsat

    # ---------------------------------------------------------- solver
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def _solve(self, fs, timeout):
        self.tick()
        s = z3.Solver()
        limit(s, timeout)
        s.set('random_seed', 7)
        s.add(self.gaxioms)
        s.add(fs)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r, s

    def _inc(self, fs, extra, timeout):
        """incremental query on the common prefix of consecutive path conditions"""
        self.tick()
        inc = getattr(self, 'inc', None)
        if inc is None or self.inc_n > 4000:
            inc = self.inc = z3.Solver()
            inc.set('random_seed', 7)
            inc.add(self.gaxioms)
            self.inc_fs, self.inc_lv, self.inc_n = [], [], 0
        self.inc_n += 1
        cur = self.inc_fs
        n = 0
        m = min(len(cur), len(fs))
        while n < m and (cur[n] is fs[n] or cur[n].eq(fs[n])):
            n += 1
        while self.inc_lv and self.inc_lv[-1] > n or len(self.inc_fs) > n and self.inc_lv:
            b = self.inc_lv.pop()
            inc.pop()
            del self.inc_fs[b:]
        k = len(self.inc_fs)
        if len(fs) > k:
            # a level of its own per chunk of new facts; the last few facts change most
            new = fs[k:]
            for chunk in ([new[:-2], new[-2:]] if len(new) > 4 else [new]):
                inc.push()
                self.inc_lv.append(len(self.inc_fs))
                inc.add(chunk)
                self.inc_fs.extend(chunk)
        limit(inc, timeout)
        t = time.time()
        inc.push()
        inc.add(extra)
        r = inc.check()
        inc.pop()
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r

    def feasible(self, st, extra=None):
        fs = [f for f in st.pc if not quantified(f)]
        ex = []
        if extra is not None:
            if extra is True:
                pass
            elif extra is False:
                return False
            else:
                ex.append(extra)
        return self._inc(fs, ex, 2000) != z3.unsat

    def feasible_full(self, st):
        r, _ = self._solve(list(st.pc), 3000)
        return r != z3.unsat

    def proves(self, st, cond, timeout=1500, quant=False):
        """quiet check (no obligation): is cond implied by the path condition?"""
        if isinstance(cond, bool):
            return cond
        if not quant and not quantified(cond):
            return self._inc([f for f in st.pc if not quantified(f)], [z3.Not(cond)], timeout) == z3.unsat
        fs = [f for f in st.pc if quant or not quantified(f)]
        fs.append(z3.Not(cond))
        r, _ = self._solve(fs, timeout)
        return r == z3.unsat

    def check(self, st, cond, label, node=None, kind='safety', hints=()):
        """an obligation"""
        if self.suppress:
            st.assume(cond)
            return True
        cond = cond if isinstance(cond, bool) else simp(cond)
        fr = st.frames[-1] if st.frames else None
        fn = fr.fname if fr else (self.cur or '?')
        line = 0
        if node is not None and fr is not None:
            line = fr.unit.line(node)
            txt = fr.unit.text(node)
        else:
            txt = ''
        ob = Obligation(func=fn, label=label, kind=kind, line=line, detail='', props=self.curprops,
                        path=st.desc)
        t0 = time.time()
        if cond is True:
            ob.status, ob.backend = 'proved', 'vf-simplifier'
        else:
            ng = z3.BoolVal(True) if cond is False else z3.Not(cond)
            # once an obligation has failed, less effort goes into finding out whether it fails on other paths, too
            r = self._prove(st, ng, brief=(fn, label) in self.failed_once)
            if r[0] != 'proved':
                self.failed_once.add((fn, label))
            if r[0] == 'proved':
                ob.status, ob.backend = 'proved', r[1]
            else:
                ob.status, ob.backend = 'failed', r[1]
                ob.detail = ('%s:%d: %s: `%s`\n  path: %s\n  solver: %s' % (
                    os.path.basename(fr.unit.path) if fr else '?', line, label, txt, ' / '.join(st.desc[-40:]), r[2]))
        ob.time = time.time() - t0
        self.obls.append(ob)
        if cond is not True and (ob.status == 'proved' or not self.curprops):
            # (a failed obligation of single properties is not assumed: it must not hide failures of the others)
            st.assume(cond)
        return ob.status == 'proved'

    def _prove(self, st, ng, brief=False):
        fs = list(st.pc) + [ng]
        qf = [f for f in st.pc if not quantified(f)]
        if not quantified(ng):
            if self._inc(qf, [ng], min(2000, self.timeout)) == z3.unsat:
                self._second(qf + [ng])
                return ('proved', 'z3')
        elif len(qf) != len(st.pc):
            r, s = self._solve(qf + [ng], min(2000, self.timeout))
            if r == z3.unsat:
                self._second(qf + [ng])
                return ('proved', 'z3')
        r, s = self._solve(fs, 1500 if brief else self.timeout)
        if r == z3.unsat:
            self._second(fs)
            return ('proved', 'z3')
        if r == z3.sat:
            m = str(s.model())
            return ('failed', 'z3', 'sat (countermodel):\n' + m[:3000])
        # second attempt with other settings, then cvc5
        why = s.reason_unknown()
        if brief:
            return ('failed', 'z3', 'z3: unknown (%s); failed before on another path' % why)
        r2 = self._z3_alt(fs)
        if r2 == 'unsat':
            return ('proved', 'z3(alt)')
        c = self._cvc5(fs)
        if c == 'unsat':
            return ('proved', 'cvc5')
        return ('failed', 'z3+cvc5', 'z3: unknown (%s); cvc5: %s' % (why, c))

    def _z3_alt(self, fs):
        s = z3.Solver()
        limit(s, self.timeout)
        s.set('smt.mbqi', False)
        s.set('smt.arith.solver', 2)
        s.set('random_seed', 11)
        s.add(self.gaxioms)
        s.add(fs)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            return 'error'
        self.solver_time += time.time() - t
        self.nqueries += 1
        return str(r)

    def _second(self, fs):
        if self.second and self.second_checked < self.second:
            self.second_checked += 1
            if self._cvc5(fs) == 'unsat':
                self.second_agreed += 1

    def _cvc5(self, fs):
        import subprocess, tempfile
        s = z3.Solver()
        s.add(self.gaxioms)
        s.add(fs)
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
            fn = f.name
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.timeout, fn], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=self.timeout / 1000 + 10)
            out = p.stdout.decode().strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            out = 'timeout'
        finally:
            os.unlink(fn)
        self.solver_time += time.time() - t
        self.nqueries += 1
        return out or 'unknown'

    # ---------------------------------------------------------- objects
    def new_obj(self, st, size, kind, name='', meta=None, ctype=None, addr=True):
        st.nid += 1
        o = Obj(st.nid, size, kind, True, None, next(self.ver), meta, name, addr, ctype)
        st.objs[o.id] = o
        return Ptr(o.id, 0)

    def fn_ptr(self, name):
        i = self.fnids.get(name)
        if i is None:
            i = -(len(self.fnids) + 1)
            self.fnids[name] = i
            self.fnnames[i] = name
        return Ptr(i, 0)

    def lit_ptr(self, st, data):
        """string literal (bytes incl. terminating NUL)"""
        oid = self.lits.get(data)
        if oid is None:
            oid = 50000 + len(self.lits)
            self.lits[data] = oid
        if oid not in st.objs:
            st.objs[oid] = Obj(oid, len(data), 'lit', True, None, 0, {'lit': data}, 'literal')
        return Ptr(oid, 0)

    def getobj(self, st, oid):
        return st.objs.get(oid)

    # ---- symbolic/concrete resolution
    def resolve(self, st, p, node=None):
        """-> list of (state, Ptr) with If() in the object part split into paths"""
        if is_c(p.obj):
            return [(st, p)]
        o = simp(p.obj)
        if is_c(o):
            return [(st, Ptr(o, p.off))]
        if z3.is_app_of(o, z3.Z3_OP_ITE):
            c, a, b = o.children()
            res = []
            for cond, sub_ in ((c, a), (z3.Not(c), b)):
                if self.feasible(st, cond):
                    s2 = st.copy()
                    s2.assume(cond)
                    off = p.off
                    if is_z3(off):
                        off = simp(z3.substitute(off, (c, z3.BoolVal(sub_ is a))))
                    res.extend(self.resolve(s2, Ptr(simp(sub_), off), node))
            return res
        # does the path condition fix it?
        for c in st.pc:
            if z3.is_eq(c):
                a, b = c.children()
                if a.eq(o) and z3.is_int_value(b):
                    return [(st, Ptr(b.as_long(), p.off))]
                if b.eq(o) and z3.is_int_value(a):
                    return [(st, Ptr(a.as_long(), p.off))]
        return [(st, Ptr(o, p.off))]

    def note_write(self, st, oid, off, size, t):
        if self.record_mod is not None:
            self.record_mod.write(oid, off, size, t)

    # ---- access check
    def deref_ok(self, st, p, size, node, what, write=False):
        if self.suppress:
            # still assume what the access implies
            if is_c(p.obj):
                o = st.objs.get(p.obj)
                if o is None or p.obj <= 0:
                    st.assume(False)
                    return
            return
        if is_c(p.obj):
            o = st.objs.get(p.obj)
            if o is None or p.obj <= 0:
                self.check(st, False, '%s: invalid pointer (%s)' % (
                    what, 'NULL' if p.obj == 0 else 'not a data object'), node)
                return
            if write and o.kind == 'lit':
                self.check(st, False, '%s: write to string literal' % what, node)
            if o.alive is not True:
                self.check(st, o.alive, '%s: object `%s` is live' % (what, o.name), node)
            if is_c(p.off) and p.off >= BIT0:
                return
            c = And(le(0, p.off), le(add(p.off, size), o.size))
            self.check(st, c, '%s: within bounds of `%s`' % (what, o.name or o.kind), node)
        else:
            h = self.config.get('sym_access')
            if h is None:
                raise Unsupported('access through a pointer whose object is not determined (%s): %s' % (
                    what, st.frames[-1].unit.text(node) if node else ''))
            for lab, c in h(self, st, p, size):
                self.check(st, c, '%s: %s' % (what, lab), node)

    # ---- raw read (no checks)
    def rd(self, st, p, t):
        """typed read without access check; p must be resolved"""
        if t.k in ('rec', 'array'):
            return StructVal(st, p, t)
        if not is_c(p.obj):
            return self.rd_sym(st, p, t)
        o = st.objs.get(p.obj)
        if o is None:
            return self.fresh(st, t)
        off = p.off
        if is_z3(off):
            off = simp(off)
        return self.from_cell(st, self._read(st, o, off, t), t)

    def _read(self, st, o, off, t):
        size, c = t.size, cat(t)
        chain = o.writes
        ites = []
        res = None
        while chain is not None:
            prev, e = chain
            if e[0] == 'w':
                _, eoff, esize, ecat, val = e
                if is_c(eoff) and is_c(off):
                    if eoff == off and esize == size:
                        res = self.recast(st, val, ecat, c, t)
                        break
                    if eoff + esize <= off or off + size <= eoff:
                        chain = prev
                        continue
                    if ecat == 'i' and c == 'i' and size == 1 and is_c(val):
                        res = (val >> (8 * (off - eoff))) & 255    # little endian
                        break
                    if val is None:
                        res = self.freshcell(st, t)
                        break
                    res = self.freshcell(st, t)
                    break
                d = simp(toz(off) == toz(eoff)) if True else None
                if d is True and esize == size:
                    res = self.recast(st, val, ecat, c, t)
                    break
                if d is False and esize == size and (size == 1 or self.aligned(eoff, off, size)):
                    chain = prev
                    continue
                if esize == size and ecat == c:
                    ites.append((toz(off) == toz(eoff), self.recast(st, val, ecat, c, t)))
                    # partial overlaps of equally sized cells: only for misaligned accesses,
                    # which typed accesses to arrays do not produce
                    chain = prev
                    continue
                if not self.may_overlap(st, eoff, esize, off, size):
                    chain = prev
                    continue
                res = self.freshcell(st, t)
                break
            elif e[0] in ('copy', 'fill', 'havoc'):
                _, eoff, n, src = e
                inside = And(le(eoff, off), le(add(off, size), add(eoff, n)))
                outside = Or(le(add(off, size), eoff), le(add(eoff, n), off))
                inside, outside = simp(inside), simp(outside)
                if outside is True:
                    chain = prev
                    continue
                if e[0] == 'fill' and c == 'i' and size > 1 and is_c(src):
                    v = 0
                    for _i in range(size):
                        v = v * 256 + src
                elif e[0] == 'fill' and c == 'p' and src == 0:
                    v = NULL
                elif e[0] == 'fill' and size == 1:
                    v = src
                elif e[0] == 'copy' and size == 1 and c == 'i':
                    v = src(sub(off, eoff))
                elif e[0] == 'havoc' and size == 1 and c == 'i':
                    v = src(toz(off))
                else:
                    v = self.freshcell(st, t)
                if inside is True:
                    res = v
                    break
                if size == 1:
                    ites.append((inside, v))
                    chain = prev
                    continue
                if not self.may_overlap(st, eoff, n, off, size):
                    chain = prev
                    continue
                if self.proves(st, inside):
                    res = v
                    break
                res = self.freshcell(st, t)
                break
            else:
                raise Unsupported('memory entry')
        if res is None:
            res = self.base(o, off, t, c)
        for cnd, v in reversed(ites):
            res = Ite(cnd, v, res) if not (c == 'f') else z3.If(cnd, v, res)
        return res

    def aligned(self, a, b, size):
        return False if size != 1 else True

    def may_overlap(self, st, aoff, asize, boff, bsize):
        d = Or(le(add(aoff, asize), boff), le(add(boff, bsize), aoff))
        d = simp(d)
        if d is True:
            return False
        if d is False:
            return True
        return not self.proves(st, d)

    def base(self, o, off, t, c):
        if c == 'i':
            if t.size == 1:
                return base_byte(o, off)
            if 'lit' in o.meta:
                raise Unsupported('wide read of literal')
            if o.meta.get('zero'):
                return 0
            return uf('I%d_%s_%s' % (t.size, o.id, o.ver), I, I)(toz(off))
        if c == 'p':
            if o.meta.get('zero'):
                return NULL
            if o.meta.get('ptrs'):
                return o.meta['ptrs'](off)
            return Ptr(uf('PO_%s_%s' % (o.id, o.ver), I, I)(toz(off)), uf('PF_%s_%s' % (o.id, o.ver), I, I)(toz(off)))
        if c == 'f':
            return uf('F%d_%s_%s' % (t.size, o.id, o.ver), I, z3.RealSort())(toz(off))
        raise Unsupported('base read')

    def recast(self, st, val, ecat, c, t):
        if val is None:
            return self.freshcell(st, t)
        if ecat == c:
            return val
        if ecat == 'i' and c == 'p' and is_c(val) and val == 0:
            return NULL
        if ecat == 'i' and c == 'f' and is_c(val) and val == 0:
            return z3.RealVal(0)
        return self.freshcell(st, t)

    def freshcell(self, st, t):
        c = cat(t)
        if c == 'i':
            return fresh_int('u')
        if c == 'p':
            return Ptr(fresh_int('po'), fresh_int('pf'))
        if c == 'f':
            return fresh_real('f')
        raise Unsupported('fresh cell of %r' % t)

    def from_cell(self, st, v, t):
        """raw cell value -> value of type t (adds the type's range as a fact)"""
        if t.k == 'int':
            if isinstance(v, (bool, z3.BoolRef)):
                return v
            if t.size == 1:
                if is_c(v):
                    v &= 255
                    return v - 256 if (t.signed and v > 127) else v
                st.assume(self.rng(v, 0, 255))
                if t.signed:
                    return z3.If(v > 127, v - 256, v)
                return v
            lo, hi = trange(t)
            if is_c(v):
                return wrap_c(v, t)
            # cells hold the value as written; a different signedness wraps
            if not z3.is_app_of(v, z3.Z3_OP_UNINTERPRETED):
                return v
            st.assume(self.rng(v, lo, hi))
            return v
        if t.k == 'bool':
            if is_c(v) or isinstance(v, (bool, z3.BoolRef)):
                return v
            st.assume(self.rng(v, 0, 1))
            return v
        return v

    _rngseen = None

    def rng(self, v, lo, hi):
        return z3.And(v >= lo, v <= hi)

    def to_cell(self, v, t):
        """value of type t -> raw cell value"""
        if t.k == 'int' and t.size == 1:
            v = ival(v)
            if is_c(v):
                return v & 255
            if t.signed:
                # inverse of from_cell
                if z3.is_app_of(v, z3.Z3_OP_ITE):
                    c, a, b = v.children()
                    if z3.is_app_of(c, z3.Z3_OP_GT) and c.children()[0].eq(b):
                        return b
                return z3.If(v < 0, v + 256, v)
            return v
        if t.k == 'bool':
            return v
        return v

    def fresh(self, st, t, name='v'):
        c = cat(t)
        if c == 'i':
            if t.k == 'bool':
                return fresh_bool(name)
            v = fresh_int(name)
            lo, hi = trange(t)
            st.assume(self.rng(v, lo, hi))
            return v
        if c == 'p':
            return Ptr(fresh_int(name + '.o'), fresh_int(name + '.f'))
        if c == 'f':
            return fresh_real(name)
        if t.k == 'void':
            return None
        raise Unsupported('fresh value of type %r' % t)

    # ---- raw write
    def wr(self, st, p, t, v):
        if t.k in ('rec', 'array'):
            if isinstance(v, StructVal):
                self.copy_struct(st, p, v, t)
                return
            raise Unsupported('aggregate write')
        if not is_c(p.obj):
            return self.wr_sym(st, p, t, v)
        o = st.objs.get(p.obj)
        if o is None:
            return
        off = simp(p.off) if is_z3(p.off) else p.off
        self.note_write(st, o.id, off, t.size, t)
        cellv = self.to_cell(v, t)
        if t.k in ('int', 'bool') and t.size == 1:
            self.hint(st, p.obj, off, cellv)
        st.objs[o.id] = o.with_(writes=(o.writes, ('w', off, t.size, cat(t), cellv)))

    def hint(self, st, obj, off, v):
        if is_c(v) and v == 0:
            st.hints = st.hints + ((obj, off),)

    def wr_bulk(self, st, p, kind, n, src):
        """kind: copy (src: offset -> byte term), fill (src: byte), havoc (src: offset -> byte)"""
        if not is_c(p.obj):
            return self.wr_sym_bulk(st, p, kind, n, src)
        o = st.objs.get(p.obj)
        if o is None:
            return
        off = simp(p.off) if is_z3(p.off) else p.off
        self.note_write(st, o.id, off, n, None)
        st.objs[o.id] = o.with_(writes=(o.writes, (kind, off, n, src)))

    def copy_struct(self, st, p, sv, t):
        """copy an aggregate cell by cell"""
        unit = st.frames[-1].unit
        if t.k == 'array':
            if t.to.k == 'int' and t.to.size == 1:
                n = t.n
                src = sv
                s0 = sv.state
                q = sv.ptr
                self.wr_bulk(st, p, 'copy', n, lambda k: self.byte_at(s0, Ptr(q.obj, add(q.off, k))))
                return
            for i in range(t.n):
                sz = unit.sizeof(t.to)
                a = Ptr(p.obj, add(p.off, i * sz))
                b = Ptr(sv.ptr.obj, add(sv.ptr.off, i * sz))
                self.wr(st, a, t.to, self.rd(sv.state, b, t.to))
            return
        r = unit.rec(t.name)
        for (n, ft, o) in r.fields:
            a = Ptr(p.obj, add(p.off, o))
            b = Ptr(sv.ptr.obj, add(sv.ptr.off, o))
            if r.union and ft.k in ('rec', 'array'):
                continue
            self.wr(st, a, ft, self.rd(sv.state, b, ft))

    def byte_at(self, st, p):
        """raw byte (0..255 term) at p; no access check"""
        if is_c(p.obj):
            o = st.objs.get(p.obj)
            if o is None:
                return fresh_int('u')
            off = simp(p.off) if is_z3(p.off) else p.off
            return self._read(st, o, off, cfront.UCHAR)
        return self._read_sym(st, p, cfront.UCHAR)

    # ---- symbolically addressed memory
    def _read_sym(self, st, p, t):
        c, size = cat(t), t.size
        ver, chain = st.sym
        ites = []
        obj, off = toz(p.obj), p.off
        res = None
        while chain is not None:
            prev, e = chain
            if e[0] == 'w':
                _, eobj, eoff, esize, ecat, val = e
                if is_c(eoff) and is_c(off) and (eoff + esize <= off or off + size <= eoff):
                    chain = prev
                    continue
                if esize != size or ecat != c:
                    # differently typed cells: distinct offsets are required
                    d = Or(ne(eobj, obj), le(add(eoff, esize), off), le(add(off, size), eoff))
                    if self.proves(st, d) or self.proves(st, d, quant=True, timeout=1500):
                        chain = prev
                        continue
                    res = self.freshcell(st, t)
                    break
                cnd = simp(And(eq(obj, eobj), eq(off, eoff)))
                if cnd is True:
                    res = val
                    break
                if cnd is not False:
                    ites.append((cnd, val))
                chain = prev
                continue
            else:
                kind, eobj, eoff, n, src = e
                if size != 1:
                    d = Or(ne(eobj, obj), le(add(eoff, n), off), le(add(off, size), eoff))
                    if not self.proves(st, d) and not self.proves(st, d, quant=True, timeout=1500):
                        res = self.freshcell(st, t)
                        break
                    chain = prev
                    continue
                cnd = simp(And(eq(obj, eobj), le(eoff, off), lt(off, add(eoff, n))))
                if cnd is not False:
                    v = src if kind == 'fill' else src(sub(off, eoff))
                    if cnd is True:
                        res = v
                        break
                    ites.append((cnd, v))
                chain = prev
        if res is None:
            if c == 'i':
                res = uf('SI%d_%s' % (size, ver), I, I, I)(obj, toz(off))
            elif c == 'p':
                res = Ptr(uf('SPO_%s' % ver, I, I, I)(obj, toz(off)), uf('SPF_%s' % ver, I, I, I)(obj, toz(off)))
            else:
                res = uf('SF_%s' % ver, I, I, z3.RealSort())(obj, toz(off))
        for cnd, v in reversed(ites):
            res = Ite(cnd, v, res)
        # concrete objects it may coincide with
        for o in st.objs.values():
            if not o.addr or o.kind in ('lit', 'static', 'stack', 'param'):
                continue
            if o.kind == 'heap' and not o.meta.get('linked'):
                d = simp(obj == o.id)
                if d is False or self.proves(st, obj != o.id):
                    continue
            d = simp(obj == o.id)
            if d is False:
                continue
            res = Ite(d, self._read(st, o, off, t), res)
        return res

    def rd_sym(self, st, p, t):
        return self.from_cell(st, self._read_sym(st, p, t), t)

    def sym_write_guard(self, st, p):
        for o in list(st.objs.values()):
            if not o.addr or o.kind in ('lit', 'static'):
                continue
            if o.kind in ('stack', 'param'):
                continue
            if not self.proves(st, toz(p.obj) != o.id, quant=True):
                raise Unsupported('write through an undetermined pointer may hit a known object')

    def wr_sym(self, st, p, t, v):
        self.sym_write_guard(st, p)
        ver, chain = st.sym
        if self.record_mod is not None:
            self.record_mod.symwrite()
        cellv = self.to_cell(v, t)
        st.sym = (ver, (chain, ('w', toz(p.obj), simp(p.off) if is_z3(p.off) else p.off, t.size, cat(t), cellv)))
        if t.k in ('int', 'bool') and t.size == 1:
            self.hint(st, p.obj, p.off, cellv)

    def wr_sym_bulk(self, st, p, kind, n, src):
        self.sym_write_guard(st, p)
        ver, chain = st.sym
        if self.record_mod is not None:
            self.record_mod.symwrite()
        st.sym = (ver, (chain, (kind, toz(p.obj), p.off, n, src)))

    # ---- liveness of symbolic objects
    def alive_sym(self, st, obj):
        ver, chain = st.symalive
        r = uf('LIVE_%s' % ver, I, B)(toz(obj))
        lst = []
        while chain is not None:
            prev, (o, v) = chain
            lst.append((o, v))
            chain = prev
        for o, v in reversed(lst):
            r = z3.If(toz(obj) == o, z3.BoolVal(v), r)
        return r

    def set_alive_sym(self, st, obj, v):
        ver, chain = st.symalive
        if self.record_mod is not None:
            self.record_mod.symwrite()
        st.symalive = (ver, (chain, (toz(obj), v)))

    # ---------------------------------------------------------- struct helpers for specs
    def U(self, st=None):
        if st is not None and st.frames:
            return st.frames[-1].unit
        return self.units[0]

    def fld(self, st, p, rec, field):
        o, t = self.fpath(rec, field)
        return self.rd(st, Ptr(p.obj, add(p.off, o)), t)

    def fldptr(self, p, rec, field):
        o, t = self.fpath(rec, field)
        return Ptr(p.obj, add(p.off, o))

    def setfld(self, st, p, rec, field, v):
        o, t = self.fpath(rec, field)
        self.wr(st, Ptr(p.obj, add(p.off, o)), t, v)

    def find_rec_unit(self, rec):
        for u in self.units:
            n = self.recname(u, rec)
            if n in u.recs and u.recs[n].complete:
                return u
        raise Unsupported('record %s not found' % rec)

    def recname(self, u, rec):
        if rec in u.recs and u.recs[rec].complete:
            return rec
        if rec in u.typedefs:
            t = u.type(u.typedefs[rec])
            if t.k == 'rec':
                return t.name
        return rec

    def fpath(self, rec, field):
        u = self.find_rec_unit(rec)
        return u.fieldpath(self.recname(u, rec), field)

    def recfields(self, rec):
        u = self.find_rec_unit(rec)
        return u.rec(self.recname(u, rec)).fields

    def recsize(self, rec):
        u = self.find_rec_unit(rec)
        return u.rec(self.recname(u, rec)).size

    def new_struct(self, st, rec, kind='param', name=None):
        return self.new_obj(st, self.recsize(rec), kind, name or rec, meta={'rec': rec})

    def new_string(self, st, name, kind='heap'):
        """a NUL-terminated string object of unknown content and length"""
        n = fresh_int(name + '.len')
        sz = fresh_int(name + '.size')
        st.assume(n >= 0, sz > n, sz < (1 << 40))
        p = self.new_obj(st, sz, kind, name)
        st.objs[p.obj].meta['str'] = True
        self.assume_len(st, p, n)
        return p

    def assume_len(self, st, p, n):
        """first NUL of the string at p is at p+n"""
        k = z3.Int('k!%d' % next(_cnt))
        e = add(p.off, n)
        bz = self.byte_at(st, Ptr(p.obj, e))
        st.assume(eq(bz, 0))
        body = self.byte_at(st, Ptr(p.obj, k))
        if is_z3(body):
            pat = self.patterns(body, k)
            f = z3.Implies(z3.And(toz(p.off) <= k, k < toz(e)), z3.And(body != 0, body >= 0, body <= 255))
            st.assume(z3.ForAll([k], f, patterns=pat) if pat else z3.ForAll([k], f))
        st.hints = st.hints + ((p.obj, e),)
        st.strmemo = dict(st.strmemo)
        st.strmemo[self.skey(st, p)] = (n, st.objs[p.obj].writes if is_c(p.obj) and p.obj in st.objs else st.sym[1])

    def skey(self, st, p):
        o = st.objs.get(p.obj) if is_c(p.obj) else None
        return (p.obj if is_c(p.obj) else p.obj.get_id(), id(o.writes) if o is not None else id(st.sym[1]),
                o.ver if o is not None else st.sym[0], p.off if is_c(p.off) else simp(p.off).get_id())

    def patterns(self, body, k):
        """base-function applications f(k) inside body, usable as triggers"""
        pats, todo, seen = [], [body], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                if any(a.eq(k) for a in x.children()):
                    pats.append(x)
                    continue
            todo.extend(x.children())
        return pats[:2]

    def forall_bytes(self, f, lo, hi, name='k'):
        """forall k in [lo,hi): f(k)   (f: Int term -> formula)"""
        k = z3.Int('%s!%d' % (name, next(_cnt)))
        body = f(k)
        if isinstance(body, bool):
            return body
        g = z3.Implies(z3.And(toz(lo) <= k, k < toz(hi)), body)
        pats = self.patterns(body, k)
        return z3.ForAll([k], g, patterns=pats) if pats else z3.ForAll([k], g)

    def strlen_of(self, st, p, node=None, what='string', check=True):
        """term for strlen(p); obligation that p is a NUL-terminated string within its object"""
        key = self.skey(st, p)
        m = st.strmemo.get(key)
        m = m[0] if m is not None else None
        if is_c(p.obj):
            o = st.objs.get(p.obj)
            if o is None or p.obj <= 0:
                if check:
                    self.check(st, False, '%s: valid pointer' % what, node)
                return fresh_int('len')
            if check and o.alive is not True:
                self.check(st, o.alive, '%s: object `%s` is live' % (what, o.name), node)
            if 'lit' in o.meta and is_c(p.off):
                b = o.meta['lit']
                if 0 <= p.off < len(b):
                    i = b.find(b'\0', p.off)
                    return i - p.off
            if m is not None:
                return m
            if self.suppress:
                n = fresh_int('len')
                st.assume(n >= 0)
                return n
            # termination: find a witness
            ok = False
            conds = []
            hs = [h for h in reversed(st.hints) if is_c(h[0]) and h[0] == p.obj]
            for (ho, hoff) in hs[:12]:
                c = And(le(p.off, hoff), lt(hoff, o.size), eq(self.byte_at(st, Ptr(p.obj, hoff)), 0), le(0, p.off))
                conds.append(c)
                if self.proves(st, c) or self.proves(st, c, quant=True, timeout=2000):
                    ok = c
                    break
            if check:
                if ok is not False:
                    self.check(st, ok, '%s: NUL-terminated within `%s`' % (what, o.name), node)
                else:
                    # general form
                    k = z3.Int('k!%d' % next(_cnt))
                    ex = z3.Exists([k], z3.And(toz(p.off) <= k, k < toz(o.size),
                                               toz(self.byte_at(st, Ptr(p.obj, k))) == 0))
                    self.check(st, And(le(0, p.off), Or(Or(*conds), ex)),
                               '%s: NUL-terminated within `%s`' % (what, o.name), node)
            n = fresh_int('len')
            st.assume(n >= 0)
            st.assume(lt(add(p.off, n), o.size))
            self.assume_len(st, p, n)
            return n
        # an object that is not statically known: a NUL byte at p or behind it, all accessible
        if m is not None:
            return m
        h = self.config.get('sym_access')
        if h is None:
            raise Unsupported('string at undetermined object (%s)' % what)
        n = fresh_int('len')
        if not self.suppress and check:
            ok = False
            for ho, hoff in [x for x in reversed(st.hints) if not is_c(x[0]) and x[0].eq(p.obj)][:12]:
                c = And(le(p.off, hoff), eq(self.byte_at(st, Ptr(p.obj, hoff)), 0),
                        *[y for _, y in h(self, st, p, add(sub(hoff, p.off), 1))])
                if self.proves(st, c) or self.proves(st, c, quant=True, timeout=2000):
                    ok = c
                    break
            self.check(st, ok, '%s: NUL-terminated' % what, node)
        st.assume(n >= 0)
        self.assume_len(st, p, n)
        return n
