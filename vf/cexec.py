"""Statement and expression semantics (mixin on top of engine.Engine)."""
import z3, re
from engine import *
from engine import Engine as _E
import cfront
from cfront import CType, INT, UINT, ULONG, LONG, CHAR, UCHAR, VOID, BOOL
import itertools
_E_cnt = itertools.count()
PURE = frozenset('''strlen strnlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr memchr strspn strcspn strstr
isspace isblank isdigit isalpha isalnum isupper islower isprint ispunct iscntrl isxdigit tolower toupper
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc abs labs skip_newlines skip_whitespace'''.split())

SIZE = ULONG


def wrap_c(v, t):
    v = int(v)
    if t.k == 'bool':
        return 1 if v else 0
    n = t.size * 8
    v &= (1 << n) - 1
    if t.signed and v >> (n - 1):
        v -= 1 << n
    return v


import engine
engine.wrap_c = wrap_c


class Mods:
    """what a loop body may change, among the things that exist at loop entry"""

    def __init__(self, oids):
        self.oids = oids
        self.cells = {}
        self.bulk = set()
        self.sym = False
        self.all = False

    def write(self, oid, off, size, t):
        if oid not in self.oids:
            return
        if is_c(off) and t is not None and t.k not in ('rec', 'array'):
            old = self.cells.get((oid, off))
            if old is not None and (old.size != t.size or cat(old) != cat(t)):
                self.bulk.add(oid)
            self.cells[(oid, off)] = t
        else:
            self.bulk.add(oid)

    def symwrite(self):
        self.sym = True


class Exec(_E):
    noauto = 0

    # ============================================================ types of nodes
    def ty(self, st, e):
        return st.frames[-1].unit.type(e['type'])

    # ============================================================ integers
    def conv_int(self, st, v, t, node=None):
        """mathematical integer -> value of unsigned/signed type t with wrap-around"""
        if t.k == 'bool':
            b = tob(v)
            return (1 if b else 0) if isinstance(b, bool) else b
        if isinstance(v, z3.BoolRef):
            return v
        if is_c(v):
            return wrap_c(v, t)
        lo, hi = trange(t)
        if self.in_range(st, v, lo, hi):
            return v
        m = 1 << (t.size * 8)
        if self.in_range(st, v, lo - m, hi + m):
            return z3.If(v > hi, v - m, z3.If(v < lo, v + m, v))
        r = v % m
        if t.signed:
            r = z3.If(r > hi, r - m, r)
        return r

    def in_range(self, st, v, lo, hi):
        if is_c(v):
            return lo <= v <= hi
        b = self.bounds(v)
        if b is not None and b[0] is not None and b[1] is not None and b[0] >= lo and b[1] <= hi:
            return True
        return self.proves(st, z3.And(v >= lo, v <= hi))

    def bounds(self, v):
        if z3.is_int_value(v):
            n = v.as_long()
            return n, n
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a = self.bounds(v.arg(1))
            b = self.bounds(v.arg(2))
            if a and b:
                return min(a[0], b[0]), max(a[1], b[1])
        return None

    def arith(self, st, op, a, b, t, node):
        """a op b in type t (operands already converted)"""
        if t.k == 'float':
            a, b = self.toreal(a), self.toreal(b)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return a / b
            raise Unsupported('float op ' + op)
        a, b = ival(a), ival(b)
        if op == '+':
            r = add(a, b)
        elif op == '-':
            r = sub(a, b)
        elif op == '*':
            r = mul(a, b)
        elif op in ('/', '%'):
            self.check(st, ne(b, 0), 'division by zero', node)
            if is_c(a) and is_c(b):
                if b == 0:
                    return 0
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == '/' else a - q * b
            else:
                za, zb = toz(a), toz(b)
                if not t.signed or self.proves(st, z3.And(za >= 0, zb > 0)):
                    r = za / zb if op == '/' else za % zb
                else:
                    q = z3.If(za >= 0, z3.If(zb > 0, za / zb, -(za / -zb)),
                              z3.If(zb > 0, -(-za / zb), (-za) / (-zb)))
                    r = q if op == '/' else za - q * zb
        elif op in ('<<', '>>'):
            if not is_c(b):
                raise Unsupported('shift by a variable amount')
            if is_c(a):
                r = a << b if op == '<<' else a >> b
            else:
                r = toz(a) * (1 << b) if op == '<<' else toz(a) / (1 << b)
        elif op in ('&', '|', '^'):
            r = self.bitop(st, op, a, b, t)
            return r
        else:
            raise Unsupported('operator ' + op)
        if t.k == 'int' and t.signed and op in '+-*/' or op == '<<' and t.signed:
            lo, hi = trange(t)
            if is_c(r):
                if not lo <= r <= hi:
                    self.check(st, False, 'signed overflow', node)
                    return wrap_c(r, t)
                return r
            self.check(st, self.rng(r, lo, hi), 'no signed overflow', node, kind='arith')
            return r
        if op == '*' and is_z3(r) and t.k == 'int':
            return self.conv_int(st, r, t)
        return self.conv_int(st, r, t)

    def bitop(self, st, op, a, b, t):
        if is_c(a) and is_c(b):
            m = (1 << (t.size * 8)) - 1
            a &= m
            b &= m
            r = a & b if op == '&' else a | b if op == '|' else a ^ b
            return wrap_c(r, t)
        if is_c(a):
            a, b = b, a
        if is_c(b):
            m = (1 << (t.size * 8)) - 1
            bb = b & m
            za = toz(a)
            u = za if not t.signed else (za % (m + 1))
            bits = [i for i in range(t.size * 8) if bb >> i & 1]
            if op == '&':
                if bb == 0:
                    return 0
                if bb == m:
                    return a
                # contiguous low mask
                if bb & (bb + 1) == 0:
                    return u % (bb + 1)
                if len(bits) <= 8:
                    r = z3.IntVal(0)
                    for i in bits:
                        r = r + ((u / (1 << i)) % 2) * (1 << i)
                    return self.signfix(r, t)
                inv = [i for i in range(t.size * 8) if not bb >> i & 1]
                if len(inv) <= 8:
                    r = u
                    for i in inv:
                        r = r - ((u / (1 << i)) % 2) * (1 << i)
                    return self.signfix(r, t)
            if op == '|':
                if bb == 0:
                    return a
                if len(bits) <= 8:
                    r = u
                    for i in bits:
                        r = r + z3.If((u / (1 << i)) % 2 == 0, z3.IntVal(1 << i), z3.IntVal(0))
                    return self.signfix(r, t)
            if op == '^' and len(bits) <= 8:
                r = u
                for i in bits:
                    r = r + z3.If((u / (1 << i)) % 2 == 0, z3.IntVal(1 << i), z3.IntVal(-(1 << i)))
                return self.signfix(r, t)
        f = uf('BIT' + {'&': 'and', '|': 'or', '^': 'xor'}[op] + str(t.size), I, I, I)
        r = f(toz(a), toz(b))
        lo, hi = trange(t)
        st.assume(self.rng(r, lo, hi))
        return r

    def signfix(self, r, t):
        if not t.signed:
            return r
        m = 1 << (t.size * 8)
        if is_c(r):
            return r
        return z3.If(r >= m // 2, r - m, r)

    def toreal(self, v):
        if isinstance(v, z3.ArithRef) and v.is_real():
            return v
        v = ival(v)
        if is_c(v):
            return z3.RealVal(v)
        return z3.ToReal(v)

    def compare(self, st, op, a, b, node):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = NULL if a == 0 else self._bad('pointer/integer comparison')
            if not isinstance(b, Ptr):
                b = NULL if b == 0 else self._bad('pointer/integer comparison')
            if op in ('==', '!='):
                r = ptr_eq(a, b)
                return self.cint(r if op == '==' else Not(r))
            if not (a.obj is b.obj or (is_c(a.obj) and is_c(b.obj) and a.obj == b.obj)):
                self.check(st, eq(a.obj, b.obj), 'relational comparison within one object', node)
            a, b = a.off, b.off
        ra = isinstance(a, z3.ArithRef) and a.is_real()
        rb = isinstance(b, z3.ArithRef) and b.is_real()
        if ra or rb:
            a, b = self.toreal(a), self.toreal(b)
            r = {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            return self.cint(simp(r))
        # comparisons of 0/1 values with constants
        if isinstance(a, z3.BoolRef) and is_c(b) and op in ('==', '!=') and b in (0, 1):
            r = a if b == 1 else z3.Not(a)
            return r if op == '==' else z3.Not(r)
        a, b = ival(a), ival(b)
        r = {'==': eq, '!=': ne, '<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)
        return self.cint(r)

    def _bad(self, m):
        raise Unsupported(m)

    def cint(self, r):
        if r is True:
            return 1
        if r is False:
            return 0
        return r

    # ============================================================ expressions
    def eval(self, st, e):
        m = getattr(self, 'e_' + e['kind'], None)
        if m is None:
            raise Unsupported('expression kind %s: %s' % (e['kind'], st.frames[-1].unit.text(e)))
        return m(st, e)

    def e_ParenExpr(self, st, e):
        return self.eval(st, e['inner'][0])

    e_ConstantExpr = e_ParenExpr

    def e_GenericSelectionExpr(self, st, e):
        raise Unsupported('_Generic')

    def e_IntegerLiteral(self, st, e):
        return [(st, int(e['value']))]

    def e_CharacterLiteral(self, st, e):
        return [(st, wrap_c(int(e['value']), INT))]

    def e_FloatingLiteral(self, st, e):
        return [(st, z3.RealVal(str(e['value'])))]

    def e_StringLiteral(self, st, e):
        raise Unsupported('string literal used as a value')

    def strlit(self, e):
        s = e['value']
        # clang prints the literal in source form; decode C escapes
        if s.startswith('"'):
            body = s[1:-1]
        else:
            raise Unsupported('literal ' + s)
        out = bytearray()
        i = 0
        raw = body.encode('utf8')
        esc = {ord('n'): 10, ord('t'): 9, ord('r'): 13, ord('a'): 7, ord('b'): 8, ord('f'): 12, ord('v'): 11,
               ord('\\'): 92, ord("'"): 39, ord('"'): 34, ord('?'): 63, ord('e'): 27}
        while i < len(raw):
            c = raw[i]
            if c != 92:
                out.append(c)
                i += 1
                continue
            c = raw[i + 1]
            if c in esc:
                out.append(esc[c])
                i += 2
            elif c == ord('x'):
                j = i + 2
                while j < len(raw) and chr(raw[j]) in '0123456789abcdefABCDEF':
                    j += 1
                out.append(int(raw[i + 2:j], 16) & 255)
                i = j
            elif 48 <= c <= 55:
                j = i + 1
                while j < len(raw) and j < i + 4 and 48 <= raw[j] <= 55:
                    j += 1
                out.append(int(raw[i + 1:j], 8) & 255)
                i = j
            else:
                raise Unsupported('escape in literal')
        return bytes(out) + b'\0'

    def e_DeclRefExpr(self, st, e):
        k = e['ref']['kind']
        if k == 'EnumConstantDecl':
            u = st.frames[-1].unit
            v = u.enums.get(e['ref']['id'], u.enums.get(e['ref']['name']))
            if v is None:
                raise Unsupported('enum constant ' + e['ref']['name'])
            return [(st, v)]
        if k == 'FunctionDecl':
            return [(st, self.fn_ptr(e['ref']['name']))]
        raise Unsupported('rvalue use of %s' % e['ref'])

    def e_PredefinedExpr(self, st, e):
        raise Unsupported('__func__ rvalue')

    def e_UnaryExprOrTypeTraitExpr(self, st, e):
        u = st.frames[-1].unit
        if e.get('name') in ('alignof', '_Alignof', '__alignof'):
            t = u.type(e['argType'])
            return [(st, u.alignof(t))]
        if 'argType' in e:
            t = u.type(e['argType'])
        else:
            t = u.type(e['inner'][0]['type'])
        return [(st, u.sizeof(t))]

    def e_ImplicitCastExpr(self, st, e):
        return self.cast(st, e)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def cast(self, st, e):
        ck = e['castKind']
        sub_ = e['inner'][0]
        if ck == 'LValueToRValue':
            res = []
            for s, p, t in self.lval(st, sub_):
                if is_c(p.obj) and is_c(p.off) and p.obj in s.objs and t.k not in ('rec', 'array'):
                    o = s.objs[p.obj]
                    if o.meta.get('uninit') == o.ver and (o.writes is None if o.meta.get('uninit_rec') else self.never_written(s, o, p.off, t.size)):
                        self.check(s, False, '`%s\' is not read before it gets a value' % o.name, e)
                res.extend(self.load(s, p, t, e))
            return res
        if ck == 'ToVoid':
            x = sub_
            while x['kind'] == 'ParenExpr' or x['kind'] == 'ImplicitCastExpr' and x['castKind'] == 'LValueToRValue':
                x = x['inner'][0]
            if x['kind'] == 'DeclRefExpr':
                return [(st, None)]
        if ck == 'ArrayToPointerDecay':
            x = sub_
            while x['kind'] == 'ParenExpr':
                x = x['inner'][0]
            if x['kind'] == 'StringLiteral':
                return [(st, self.lit_ptr(st, self.strlit(x)))]
            if x['kind'] == 'PredefinedExpr':
                return [(st, self.lit_ptr(st, st.frames[-1].fname.encode() + b'\0'))]
            return [(s, p) for s, p, t in self.lval(st, sub_)]
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            x = sub_
            while x['kind'] == 'ParenExpr':
                x = x['inner'][0]
            if x['kind'] == 'DeclRefExpr':
                return [(st, self.fn_ptr(x['ref']['name']))]
            if x['kind'] == 'UnaryOperator' and x['opcode'] == '*':
                return self.eval(st, x['inner'][0])
            raise Unsupported('function designator')
        t = self.ty(st, e)
        res = []
        for s, v in self.eval(st, sub_):
            if ck in ('NoOp', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
                res.append((s, v))
            elif ck == 'IntegralCast':
                res.append((s, self.conv_int(s, v, t, e)))
            elif ck == 'BooleanToSignedIntegral':
                res.append((s, v))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean'):
                b = tob(v)
                res.append((s, self.cint(b)))
            elif ck == 'FloatingToBoolean':
                res.append((s, self.cint(simp(v != 0))))
            elif ck == 'BitCast':
                res.append((s, v))
            elif ck == 'NullToPointer':
                res.append((s, NULL))
            elif ck == 'ToVoid':
                res.append((s, None))
            elif ck == 'IntegralToFloating':
                res.append((s, self.toreal(v)))
            elif ck == 'FloatingCast':
                res.append((s, v))
            elif ck == 'FloatingToIntegral':
                r = z3.ToInt(v)
                r = z3.If(v >= 0, r, z3.If(z3.ToReal(r) == v, r, r + 1))
                lo, hi = trange(t)
                self.check(s, self.rng(r, lo, hi), 'float to integer conversion in range', e, kind='arith')
                res.append((s, r))
            elif ck == 'IntegralToPointer':
                if is_c(v) and v == 0:
                    res.append((s, NULL))
                elif is_c(v):
                    res.append((s, Ptr(-1000000 - v, 0)))   # (void (*)())1 style constants
                else:
                    raise Unsupported('integer to pointer conversion')
            elif ck == 'PointerToIntegral':
                f = uf('PTR2INT', I, I, I)
                r = f(toz(v.obj), toz(v.off))
                lo, hi = trange(t)
                s.assume(self.rng(r, lo, hi))
                res.append((s, r))
            else:
                raise Unsupported('cast kind ' + ck)
        return res

    def load(self, st, p, t, node):
        u = st.frames[-1].unit
        if t.k in ('rec', 'array'):
            return [(st, StructVal(st.copy(), p, t))]
        if t.k == 'func':
            return [(st, p)]
        res = []
        for s, q in self.resolve(st, p, node):
            self.deref_ok(s, q, t.size, node, 'read')
            res.append((s, self.rd(s, q, t)))
        return res

    def store(self, st, p, t, v, node):
        u = st.frames[-1].unit
        res = []
        for s, q in self.resolve(st, p, node):
            self.deref_ok(s, q, u.sizeof(t), node, 'write', write=True)
            self.wr(s, q, t, v)
            res.append(s)
        return res

    # ------------------------------------------------------------ lvalues
    def lval(self, st, e):
        k = e['kind']
        u = st.frames[-1].unit
        if k == 'ParenExpr':
            return self.lval(st, e['inner'][0])
        if k == 'DeclRefExpr':
            r = e['ref']
            t = u.type(r['type'])
            fr = st.frames[-1]
            if r['id'] in fr.vars:
                return [(st, Ptr(fr.vars[r['id']], 0), t)]
            if r['kind'] == 'FunctionDecl':
                return [(st, self.fn_ptr(r['name']), t)]
            return [(st, self.gptr(st, u, r), t)]
        if k == 'MemberExpr':
            base = e['inner'][0]
            res = []
            if e.get('isArrow'):
                bt = u.type(base['type'])
                rec = bt.to.name
                o, t = u.fieldpath(rec, e['name']) if e.get('name') else (0, None)
                for s, v in self.eval(st, base):
                    if not isinstance(v, Ptr):
                        raise Unsupported('member of non-pointer')
                    res.append((s, Ptr(v.obj, add(v.off, o)), t))
            else:
                bt = u.type(base['type'])
                o, t = u.fieldpath(bt.name, e['name']) if e.get('name') else (0, None)
                for s, p, _t in self.lval(st, base):
                    res.append((s, Ptr(p.obj, add(p.off, o)), t))
            if res and res[0][2] is None or not e.get('name'):
                # anonymous member: type from the node
                t = None
                for (n, ft, fo) in u.rec(bt.to.name if e.get('isArrow') else bt.name).fields:
                    if n is None:
                        t = ft
                        off = fo
                        break
                res = [(s, Ptr(p.obj, add(p.off, off)), t) for s, p, _ in res]
            return res
        if k == 'ArraySubscriptExpr':
            a, b = e['inner']
            ta = u.type(a['type'])
            if ta.k != 'ptr':
                a, b = b, a
                ta = u.type(a['type'])
            dim = None      # the number of elements of a named array (also one within a structure)
            x = a
            while x['kind'] == 'ParenExpr':
                x = x['inner'][0]
            if x['kind'] == 'ImplicitCastExpr' and x.get('castKind') == 'ArrayToPointerDecay' and x['inner'][0]['kind'] == 'MemberExpr':
                tx = u.type(x['inner'][0]['type'])
                if tx.k == 'array' and isinstance(tx.n, int) and tx.n > 1:
                    dim = tx.n
            res = []
            addr, self.addr_of = getattr(self, 'addr_of', False), False
            for s, p in self.eval(st, a):
                for s2, i in self.eval(s, b):
                    sz = u.sizeof(ta.to)
                    if dim is not None:
                        self.check(s2, And(ge(ival(i), 0), (le if addr else lt)(ival(i), dim)), 'index within the array', e)
                    res.append((s2, Ptr(p.obj, add(p.off, mul(ival(i), sz))), ta.to))
            return res
        if k == 'UnaryOperator' and e['opcode'] == '*':
            t = u.type(e['type'])
            return [(s, p, t) for s, p in self.eval(st, e['inner'][0])]
        if k == 'PredefinedExpr':
            return [(st, self.lit_ptr(st, st.frames[-1].fname.encode() + b'\0'), u.type(e['type']))]
        if k == 'StringLiteral':
            d = self.strlit(e)
            return [(st, self.lit_ptr(st, d), u.type(e['type']))]
        if k == 'CompoundLiteralExpr':
            t = u.type(e['type'])
            p = self.new_obj(st, u.sizeof(t), 'stack', 'compound literal')
            return [(s, p, t) for s in self.init_obj(st, p, t, e['inner'][0])]
        if k == 'CallExpr' or k == 'StmtExpr' or k == 'ConditionalOperator':
            res = []
            for s, v in self.eval(st, e):
                if isinstance(v, StructVal):
                    res.append((s, v.ptr, v.type))
                else:
                    raise Unsupported('lvalue of call')
            return res
        if k == 'UnaryOperator' and e['opcode'] in ('__extension__', '__real', '__imag'):
            return self.lval(st, e['inner'][0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and e['castKind'] in ('NoOp', 'LValueBitCast'):
            t = u.type(e['type'])
            return [(s, p, t) for s, p, _ in self.lval(st, e['inner'][0])]
        raise Unsupported('lvalue kind %s: %s' % (k, u.text(e)))

    def gptr(self, st, u, r):
        """pointer to a global (or static local) variable"""
        name = r['name']
        d = u.globals.get(r['id'])
        if d is None and name in u.gnames:
            d = u.globals[u.gnames[name]]
        if d is not None and u.gnames.get(name) is not None and d.get('storageClass') == 'extern':
            d = u.globals[u.gnames[name]]
        key = ('g', name) if d is not None and d.get('storageClass') != 'static' else ('s', u.path, name)
        return self.gobj(st, u, key, name, u.type(r['type']), d)

    def gobj(self, st, u, key, name, t, d):
        oid = self.gids.get(key)
        if oid is None:
            oid = 1000 + len(self.gids)
            self.gids[key] = oid
        if oid not in st.objs:
            try:
                sz = u.sizeof(t)
            except FrontError:
                sz = 1 << 40
                if d is not None and 'type' in d:
                    try:
                        sz = u.sizeof(u.type(d['type']))
                    except FrontError:
                        pass
            st.objs[oid] = Obj(oid, sz, 'static', True, None, 0, {}, name)
            const = d is not None and d.get('type', '').startswith('const ') and '*' not in d.get('type', '')
            if const and d.get('inner'):
                self.init_obj(st, Ptr(oid, 0), u.type(d['type']), d['inner'][0])
        return Ptr(oid, 0)

    def global_ptr(self, st, name, unit=None):
        """for specs"""
        for u in ([unit] if unit else self.units):
            if name in u.gnames:
                d = u.globals[u.gnames[name]]
                return self.gptr(st, u, {'name': name, 'id': d['id'], 'type': d['type']})
        raise Unsupported('global %s not found' % name)

    def static_local_ptr(self, st, unit, fname, vname):
        """for specs: pointer to a static local variable, creating its object"""
        f = unit.funcs[fname]
        for n in _walk(f['body']):
            if n.get('kind') == 'VarDecl' and n.get('name') == vname:
                return self.gobj(st, unit, ('sl', unit.path, n['id']), vname, unit.type(n['type']), None)
        raise Unsupported('static local %s' % vname)

    # ------------------------------------------------------------ operators
    def e_UnaryOperator(self, st, e):
        op = e['opcode']
        x = e['inner'][0]
        u = st.frames[-1].unit
        if op == '&':
            y = x
            while y['kind'] == 'ParenExpr':
                y = y['inner'][0]
            if y['kind'] == 'DeclRefExpr' and y['ref']['kind'] == 'FunctionDecl':
                return [(st, self.fn_ptr(y['ref']['name']))]
            if y['kind'] == 'ArraySubscriptExpr':
                self.addr_of = True
            return [(s, p) for s, p, t in self.lval(st, y)]
        if op in ('++', '--'):
            t = u.type(e['type'])
            res = []
            for s, p, lt_ in self.lval(st, x):
                for s2, v in self.load(s, p, lt_, e):
                    if isinstance(v, Ptr):
                        sz = u.sizeof(t.to)
                        nv = Ptr(v.obj, add(v.off, sz if op == '++' else -sz))
                    elif t.k == 'float':
                        nv = v + 1 if op == '++' else v - 1
                    else:
                        tt = INT if t.size < 4 else t
                        nv = self.arith(s2, '+' if op == '++' else '-', v, 1, tt, e)
                        nv = self.conv_int(s2, nv, t)
                    for s3 in self.store(s2, p, lt_, nv, e):
                        res.append((s3, v if e.get('isPostfix') else nv))
            return res
        if op == '!':
            return [(s, self.cint(Not(tob(v)))) for s, v in self.eval(st, x)]
        if op == '-':
            t = u.type(e['type'])
            return [(s, -v if t.k == 'float' else self.arith(s, '-', 0, v, t, e)) for s, v in self.eval(st, x)]
        if op == '+' or op == '__extension__':
            return self.eval(st, x)
        if op == '~':
            t = u.type(e['type'])
            res = []
            for s, v in self.eval(st, x):
                v = ival(v)
                res.append((s, self.conv_int(s, sub(-1, v) if is_c(v) else -1 - v, t)))
            return res
        if op == '*':
            # rvalue of function pointer deref etc.
            return self.eval(st, x)
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, st, e):
        op = e['opcode']
        l, r = e['inner']
        u = st.frames[-1].unit
        if op == '=':
            res = []
            # evaluate the right-hand side first, then the location
            for s, v in self.eval(st, r):
                for s2, p, t in self.lval(s, l):
                    for s3 in self.store(s2, p, t, v, e):
                        res.append((s3, v))
            return res
        if op == ',':
            res = []
            for s, _ in self.eval(st, l):
                res.extend(self.eval(s, r))
            return res
        if op in ('&&', '||'):
            if self.pure(e):
                # no side effects or possible faults: keep as one formula
                for s, a in self.eval(st, l):
                    out = []
                    for s2, b in self.eval(s, r):
                        f = And(tob(a), tob(b)) if op == '&&' else Or(tob(a), tob(b))
                        out.append((s2, self.cint(f)))
                    return out
            ts, fs = self.branch(st, e)
            return [(s, 1) for s in ts] + [(s, 0) for s in fs]
        t = u.type(e['type'])
        res = []
        for s, a in self.eval(st, l):
            for s2, b in self.eval(s, r):
                res.append((s2, self.binop(s2, op, a, b, t, e, u.type(l['type']), u.type(r['type']))))
        return res

    def pure(self, e):
        """only literals and plain scalar locals/enum constants (no loads that could fault)"""
        k = e['kind']
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return True
        if k in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr'):
            if k == 'ImplicitCastExpr' and e.get('castKind') == 'LValueToRValue':
                x = e['inner'][0]
                return x['kind'] == 'DeclRefExpr'
            return self.pure(e['inner'][0])
        if k == 'DeclRefExpr':
            return e['ref']['kind'] == 'EnumConstantDecl'
        if k == 'BinaryOperator' and e['opcode'] in ('&&', '||', '==', '!=', '<', '<=', '>', '>='):
            return all(self.pure(x) for x in e['inner'])
        if k == 'UnaryOperator' and e['opcode'] == '!':
            return self.pure(e['inner'][0])
        return False

    def binop(self, st, op, a, b, t, e, tl, tr):
        u = st.frames[-1].unit
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(st, op, a, b, e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == '-':
                if not (is_c(a.obj) and is_c(b.obj) and a.obj == b.obj):
                    self.check(st, eq(a.obj, b.obj), 'pointer difference within one object', e)
                d = sub(a.off, b.off)
                sz = u.sizeof(tl.to)
                if sz == 1:
                    return d
                return d // sz if is_c(d) else toz(d) / sz
            raise Unsupported('pointer op')
        if isinstance(a, Ptr):
            sz = u.sizeof(tl.to)
            d = mul(ival(b), sz)
            return Ptr(a.obj, add(a.off, d) if op == '+' else sub(a.off, d))
        if isinstance(b, Ptr):
            sz = u.sizeof(tr.to)
            return Ptr(b.obj, add(b.off, mul(ival(a), sz)))
        return self.arith(st, op, a, b, t, e)

    def e_CompoundAssignOperator(self, st, e):
        op = e['opcode'][:-1]
        l, r = e['inner']
        u = st.frames[-1].unit
        t = u.type(e['type'])
        ct = u.type(e['compType']) if 'compType' in e else t
        res = []
        for s, v in self.eval(st, r):
            for s2, p, lt_ in self.lval(s, l):
                for s3, old in self.load(s2, p, lt_, e):
                    if isinstance(old, Ptr):
                        sz = u.sizeof(t.to)
                        d = mul(ival(v), sz)
                        nv = Ptr(old.obj, add(old.off, d) if op == '+' else sub(old.off, d))
                    elif t.k == 'float' or ct.k == 'float':
                        nv = self.arith(s3, op, self.toreal(old), self.toreal(v), ct, e)
                    else:
                        nv = self.arith(s3, op, self.conv_int(s3, old, ct), v, ct, e)
                        nv = self.conv_int(s3, nv, t)
                    for s4 in self.store(s3, p, lt_, nv, e):
                        res.append((s4, nv))
        return res

    def e_ConditionalOperator(self, st, e):
        c, a, b = e['inner']
        ts, fs = self.branch(st, c)
        res = []
        for s in ts:
            res.extend(self.eval(s, a))
        for s in fs:
            res.extend(self.eval(s, b))
        return res

    def e_BinaryConditionalOperator(self, st, e):
        raise Unsupported('?: with omitted operand')

    def e_StmtExpr(self, st, e):
        body = e['inner'][0]
        stm = body.get('inner', [])
        res = []
        todo = [st]
        for i, x in enumerate(stm):
            nxt = []
            last = i == len(stm) - 1
            for s in todo:
                if last and not x['kind'].endswith('Stmt') or last and x['kind'] == 'StmtExpr':
                    res.extend(self.eval(s, x))
                else:
                    for out, s2 in self.exec(s, x):
                        if out is not None:
                            raise Unsupported('jump out of a statement expression')
                        nxt.append(s2)
            if not last:
                todo = nxt
            elif x['kind'].endswith('Stmt') and x['kind'] != 'StmtExpr':
                res = [(s2, None) for s2 in nxt]
        return res

    def e_InitListExpr(self, st, e):
        t = self.ty(st, e)
        if t.k in ('rec', 'array'):
            u = st.frames[-1].unit
            p = self.new_obj(st, u.sizeof(t), 'stack', 'temporary')
            return [(s, StructVal(s.copy(), p, t)) for s in self.init_obj(st, p, t, e)]
        return self.eval(st, e['inner'][0])

    def e_CompoundLiteralExpr(self, st, e):
        return [(s, StructVal(s.copy(), p, t)) for s, p, t in self.lval(st, e)]

    def e_ImplicitValueInitExpr(self, st, e):
        t = self.ty(st, e)
        if t.k == 'ptr':
            return [(st, NULL)]
        if t.k == 'float':
            return [(st, z3.RealVal(0))]
        return [(st, 0)]

    def va_in_loop(self, fr):
        """does the function use va_arg() within a loop?"""
        c = self.__dict__.setdefault('va_loop_cache', {})
        key = (fr.unit.path, fr.fname)
        if key not in c:
            def walk(n, inl):
                if not isinstance(n, dict):
                    return False
                if n.get('kind') == 'VAArgExpr' and inl:
                    return True
                inl = inl or n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'GotoStmt', 'LabelStmt')
                return any(walk(x, inl) for x in n.get('inner', ()))
            c[key] = walk(fr.unit.funcs[fr.fname]['body'], False)
        return c[key]

    def e_VAArgExpr(self, st, e):
        t = self.ty(st, e)
        out = []
        for s, ap in (self.eval(st, e['inner'][0]) if not self.va_in_loop(st.frames[-1]) else ()):
            p = ap.ptr if isinstance(ap, StructVal) else ap
            o = s.objs.get(p.obj) if isinstance(p, Ptr) and is_c(p.obj) else None
            va = o.meta.get('va') if o is not None else None
            if not va:
                out.append((s, self.fresh(s, t, 'va')))
                continue
            m = dict(o.meta)
            m['va'] = va[1:]
            s.objs[p.obj] = o.with_(meta=m)
            v = va[0]
            out.append((s, self.conv_int(s, v, t, e) if t.k == 'int' else v))
        return out or [(st, self.fresh(st, t, 'va'))]

    def e_OffsetOfExpr(self, st, e):
        raise Unsupported('offsetof')

    # ------------------------------------------------------------ branching
    def branch(self, st, e):
        """-> (states where e is true, states where e is false)"""
        k = e['kind']
        if k == 'ParenExpr' or k == 'ConstantExpr':
            return self.branch(st, e['inner'][0])
        if k == 'ImplicitCastExpr' and e['castKind'] in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral') \
                and e['inner'][0]['kind'] in ('ParenExpr', 'BinaryOperator', 'UnaryOperator') \
                and self.ty(st, e['inner'][0]).k in ('int', 'bool') and self._is_logic(e['inner'][0]):
            return self.branch(st, e['inner'][0])
        if k == 'CStyleCastExpr' and e['castKind'] in ('IntegralToBoolean', 'IntegralCast', 'NoOp') and \
                self._is_logic(e['inner'][0]):
            return self.branch(st, e['inner'][0])
        if k == 'UnaryOperator' and e['opcode'] == '!':
            t, f = self.branch(st, e['inner'][0])
            return f, t
        if k == 'BinaryOperator' and e['opcode'] == '&&' and not self.pure(e):
            t1, f1 = self.branch(st, e['inner'][0])
            ts, fs = [], list(f1)
            for s in t1:
                t2, f2 = self.branch(s, e['inner'][1])
                ts += t2
                fs += f2
            return ts, fs
        if k == 'BinaryOperator' and e['opcode'] == '||' and not self.pure(e):
            t1, f1 = self.branch(st, e['inner'][0])
            ts, fs = list(t1), []
            for s in f1:
                t2, f2 = self.branch(s, e['inner'][1])
                ts += t2
                fs += f2
            return ts, fs
        ts, fs = [], []
        for s, v in self.eval(st, e):
            a, b = self.split(s, tob(v), e)
            ts += a
            fs += b
        return ts, fs

    def _is_logic(self, e):
        while e['kind'] in ('ParenExpr',):
            e = e['inner'][0]
        return (e['kind'] == 'BinaryOperator' and e['opcode'] in ('&&', '||', '==', '!=', '<', '>', '<=', '>=')) or \
               (e['kind'] == 'UnaryOperator' and e['opcode'] == '!')

    def split(self, st, c, node=None):
        if c is True:
            return [st], []
        if c is False:
            return [], [st]
        c = simp(c)
        if c is True:
            return [st], []
        if c is False:
            return [], [st]
        t = self.feasible(st, c)
        f = self.feasible(st, z3.Not(c))
        txt = ''
        if node is not None:
            u = st.frames[-1].unit
            txt = '%d:%s' % (u.line(node), u.text(node)[:50])
        ts, fs = [], []
        if t:
            s = st.copy() if f else st
            s.assume(c)
            if f:
                s.desc = s.desc + (txt + '=T',)
            ts.append(s)
        if f:
            s = st.copy() if t else st
            if t:
                # st itself was copied for the true side
                s = st
            s.assume(z3.Not(c))
            if t:
                s.desc = s.desc + (txt + '=F',)
            fs.append(s)
        if not t and not f:
            pass
        self.npaths += 1 if (t and f) else 0
        if self.npaths > self.MAXPATHS:
            raise Budget('too many paths')
        return ts, fs

    # ============================================================ statements
    # exec -> list of (outcome, state); outcome: None, ('break',), ('continue',), ('return', v), ('goto', label)
    def exec(self, st, n):
        m = getattr(self, 's_' + n['kind'], None)
        if m is not None:
            return m(st, n)
        if n['kind'].endswith('Stmt'):
            raise Unsupported('statement kind ' + n['kind'])
        return [(None, s) for s, _ in self.eval(st, n)]

    def s_StmtExpr(self, st, n):
        return [(None, s) for s, _ in self.eval(st, n)]

    def s_NullStmt(self, st, n):
        return [(None, st)]

    def s_AttributedStmt(self, st, n):
        return self.exec(st, n['inner'][-1])

    def s_CompoundStmt(self, st, n):
        return self.exec_list(st, n.get('inner', []), 0)

    def exec_list(self, st, stmts, i):
        """iteratively, so that path sets stay flat"""
        work = [(st, i, 0)]
        out = []
        while work:
            s, j, hops = work.pop()
            while j < len(stmts):
                r = self.exec(s, stmts[j])
                if len(r) == 1 and r[0][0] is None:
                    s = r[0][1]
                    j += 1
                    continue
                for oc, s2 in reversed(r):
                    if oc is None:
                        work.append((s2, j + 1, hops))
                    elif oc[0] == 'goto':
                        k = self.find_label(stmts, oc[1])
                        if k is None:
                            out.append((oc, s2))
                        else:
                            if hops > 3:
                                raise Unsupported('loop made of gotos')
                            work.append((s2, k, hops + 1))
                    else:
                        out.append((oc, s2))
                break
            else:
                out.append((None, s))
        return out

    def find_label(self, stmts, lab):
        for k, x in enumerate(stmts):
            if x['kind'] == 'LabelStmt' and x.get('name') == lab:
                return k
        return None

    def s_LabelStmt(self, st, n):
        return self.exec(st, n['inner'][0])

    def s_GotoStmt(self, st, n):
        lid = n.get('targetLabelDeclId')
        fr = st.frames[-1]
        # label name by id
        f = fr.unit.funcs[fr.fname]
        for x in _walk(f['body']):
            if x.get('kind') == 'LabelStmt' and (x.get('labelDeclId') == lid or x.get('declId') == lid):
                return [(('goto', x['name']), st)]
        labs = [x for x in _walk(f['body']) if x.get('kind') == 'LabelStmt']
        if len(labs) == 1:
            return [(('goto', labs[0]['name']), st)]
        raise Unsupported('goto')

    def s_DeclStmt(self, st, n):
        states = [st]
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            nxt = []
            for s in states:
                nxt.extend(self.declare(s, d))
            states = nxt
        return [(None, s) for s in states]

    def declare(self, st, d):
        fr = st.frames[-1]
        u = fr.unit
        if d.get('storageClass') == 'extern':
            p = self.gptr(st, u, {'name': d['name'], 'id': d['id'], 'type': d['type']})
            fr.vars[d['id']] = p.obj
            return [st]
        t = u.type(d['type'])
        if d.get('storageClass') == 'static':
            p = self.gobj(st, u, ('sl', u.path, d['id']), d['name'], t, None)
            fr.vars[d['id']] = p.obj
            fr.names.setdefault(d['name'], []).append((p.obj, t))
            if (d['type'].startswith('const') or self.config.get('static_init')) and d.get('inner'):
                return self.init_obj(st, p, t, d['inner'][0])
            return [st]
        if t.k == 'array' and t.n is None:
            if not d.get('inner'):
                raise Unsupported('variable length array')
            t2 = u.type(d['inner'][0]['type'])
            if t2.k != 'array' or t2.n is None:
                raise Unsupported('variable length array')
            t = t2
        p = self.new_obj(st, u.sizeof(t), 'stack', d['name'], addr=self.addr_taken(fr, d['id']) or t.k in ('rec', 'array'))
        # frames are shared between forked states: bind by declaration id (same id on every path)
        self.bind(st, d['id'], d['name'], p.obj, t)
        inits = d.get('inner')
        if inits and 'init' in d:
            return self.init_obj(st, p, t, inits[-1])
        if t.k == 'array' and (t.to.k == 'ptr' or t.to.k == 'int' and t.to.size >= 4) or t.k == 'rec' or \
                t.k not in ('rec', 'array') and not self.addr_taken(fr, d['id']):
            o = st.objs[p.obj]
            st.objs[p.obj] = o.with_(meta=dict(o.meta, uninit=o.ver, uninit_rec=t.k == 'rec'))
        return [st]

    def bind(self, st, did, name, oid, t):
        fr = st.frames[-1]
        nf = Frame(fr.fname, fr.unit, fr.depth)
        nf.vars = dict(fr.vars)
        nf.names = dict(fr.names)
        nf.varargs = fr.varargs
        nf.vars[did] = oid
        nf.names[name] = nf.names.get(name, []) + [(oid, t)]
        st.frames = st.frames[:-1] + (nf,)

    def addr_taken(self, fr, did):
        key = (fr.unit.path, fr.fname)
        c = self.addr_taken_cache.get(key)
        if c is None:
            c = set()
            f = fr.unit.funcs.get(fr.fname)
            if f:
                for x in _walk(f['body']):
                    if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
                        for y in _walk(x):
                            if y.get('kind') == 'DeclRefExpr':
                                c.add(y['ref']['id'])
            self.addr_taken_cache[key] = c
        return did in c

    def init_obj(self, st, p, t, e):
        """initialise object p of type t from initializer e -> states"""
        u = st.frames[-1].unit if st.frames else self.units[0]
        x = e
        while x['kind'] in ('ParenExpr', 'ConstantExpr'):
            x = x['inner'][0]
        if x['kind'] == 'InitListExpr' and t.k in ('rec', 'array'):
            states = [st]
            inner = x.get('inner', [])
            if x.get('filler'):
                inner = [i for i in inner if i['kind'] != 'ImplicitValueInitExpr' or True]
            if t.k == 'array':
                sz = u.sizeof(t.to)
                items = [i for i in inner]
                if x.get('filler') and items:
                    items = items[1:] if items[0]['kind'] == 'ImplicitValueInitExpr' else items
                if len(items) < (t.n or 0):
                    for s in states:
                        self.wr_bulk(s, p, 'fill', sz * t.n, 0)
                for i, it in enumerate(items):
                    if it['kind'] == 'ImplicitValueInitExpr' and t.to.k in ('rec', 'array'):
                        for s in states:
                            self.wr_bulk(s, Ptr(p.obj, add(p.off, i * sz)), 'fill', sz, 0)
                        continue
                    nxt = []
                    for s in states:
                        nxt.extend(self.init_obj(s, Ptr(p.obj, add(p.off, i * sz)), t.to, it))
                    states = nxt
                return states
            r = u.rec(t.name)
            if r.union:
                for s in states:
                    self.wr_bulk(s, p, 'fill', r.size, 0)
                if inner:
                    # first named member of matching type
                    ft = r.fields[0]
                    it = inner[0]
                    for f in r.fields:
                        if it.get('type') and repr(u.type(it['type'])) == repr(f[1]):
                            ft = f
                            break
                    nxt = []
                    for s in states:
                        nxt.extend(self.init_obj(s, p, ft[1], it))
                    states = nxt
                return states
            for (n_, ft, fo), it in zip(r.fields, inner):
                if it['kind'] == 'ImplicitValueInitExpr' and ft.k in ('rec', 'array'):
                    for s in states:
                        self.wr_bulk(s, Ptr(p.obj, add(p.off, fo)), 'fill', u.sizeof(ft), 0)
                    continue
                nxt = []
                for s in states:
                    nxt.extend(self.init_obj(s, Ptr(p.obj, add(p.off, fo)), ft, it))
                states = nxt
            return states
        if x['kind'] == 'ImplicitValueInitExpr' and t.k in ('rec', 'array'):
            self.wr_bulk(st, p, 'fill', u.sizeof(t), 0)
            return [st]
        if x['kind'] == 'StringLiteral' and t.k == 'array':
            d = self.strlit(x)
            n = t.n
            dd = (d + b'\0' * n)[:n]
            self.wr_bulk(st, p, 'copy', n, _litfun(dd))
            for i, c in enumerate(dd):
                if c == 0:
                    st.hints = st.hints + ((p.obj, add(p.off, i)),)
                    break
            return [st]
        res = []
        for s, v in self.eval(st, e):
            self.wr(s, p, t, v)
            res.append(s)
        return res

    def s_ReturnStmt(self, st, n):
        inner = n.get('inner')
        if not inner:
            return [(('return', None), st)]
        return [(('return', v), s) for s, v in self.eval(st, inner[0])]

    def s_BreakStmt(self, st, n):
        return [(('break',), st)]

    def s_ContinueStmt(self, st, n):
        return [(('continue',), st)]

    def s_IfStmt(self, st, n):
        inner = list(n['inner'])
        res = []
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with init')
        cond = inner[0]
        ts, fs = self.branch(st, cond)
        for s in ts:
            res.extend(self.exec(s, inner[1]))
        for s in fs:
            if n.get('hasElse'):
                res.extend(self.exec(s, inner[2]))
            else:
                res.append((None, s))
        if self.config.get('merge') and len(res) > 1:
            res = self.join_paths(st, res)
        return res

    # ------------------------------------------------------------ joining paths
    def join_paths(self, st0, res):
        """paths that continue after an `if' and differ only in values are continued as one (config `merge': the names of
        the ghost variables that may differ)"""
        out = []
        for oc, s in res:
            if oc is None:
                for i, (oc2, s2) in enumerate(out):
                    if oc2 is None:
                        m = self.join_two(st0, s2, s)
                        if m is not None:
                            out[i] = (None, m)
                            break
                else:
                    out.append((oc, s))
            else:
                out.append((oc, s))
        return out

    def join_two(self, st0, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        sa, sb = a.pc[n:], b.pc[n:]
        if not sa or not sb or a.trace != b.trace or a.sym is not b.sym or a.symalive is not b.symalive:
            return None
        c = sa[0]
        if not z3.is_true(z3.simplify(c == z3.Not(sb[0]))) or quantified(c):
            return None
        base = st0.nid
        if a.nid != base and b.nid != base:
            # both allocated something: fine as long as nothing of it is alive on one of the sides
            dead = lambda s: all(o.alive is False for i, o in s.objs.items() if i >= base and i not in st0.objs)
            if dead(b):
                b = b.copy()
                b.objs = {i: o for i, o in b.objs.items() if i < base or i in st0.objs}
            elif dead(a):
                a = a.copy()
                a.objs = {i: o for i, o in a.objs.items() if i < base or i in st0.objs}
            else:
                return None
        m = a.copy()
        m.nid = max(a.nid, b.nid)
        names = self.config['merge']
        g = {}
        for k in set(a.ghost) | set(b.ghost):
            if k not in a.ghost or k not in b.ghost:
                return None
            x, y = a.ghost[k], b.ghost[k]
            same = x is y
            if not same:
                if is_z3(x) or is_z3(y):
                    same = is_z3(x) and is_z3(y) and x.eq(y)
                elif isinstance(x, Ptr) and isinstance(y, Ptr):
                    same = ptr_eq(x, y) is True
                elif not isinstance(x, Ptr) and not isinstance(y, Ptr):
                    try:
                        same = bool(x == y)
                    except Exception:
                        same = False
            if same:
                g[k] = x
            elif isinstance(k, str) and any(k.startswith(p) for p in names) and x is not None and y is not None:
                try:
                    g[k] = Ite(c, x, y)
                except Exception:
                    return None
            else:
                return None
        m.ghost = g
        objs = {}
        for i in set(a.objs) | set(b.objs):
            x, y = a.objs.get(i), b.objs.get(i)
            if x is y:
                objs[i] = x
            elif x is None or y is None:
                o = x or y
                if o.alive is not False:
                    o = o.with_(alive=And(o.alive, c if y is None else z3.Not(c)))
                objs[i] = o
            else:
                o = self.join_obj(a, b, c, x, y)
                if o is None:
                    return None
                objs[i] = o
        m.objs = objs
        m.pc = a.pc[:n] + [z3.Or(z3.And(*sa), z3.And(*sb))]
        m.strmemo = {k: v for k, v in a.strmemo.items() if k in b.strmemo and b.strmemo[k] is v}
        m.hints = tuple(h for h in a.hints if h in b.hints) if a.hints is not b.hints else a.hints
        m.frames = st0.frames
        m.desc = st0.desc + ('[joined]',)
        return m

    def join_obj(self, a, b, c, x, y):
        if x.ver != y.ver or x.kind != y.kind or x.meta is not y.meta and x.meta != y.meta:
            return None
        if x.writes is y.writes:
            return x.with_(alive=Ite(c, x.alive, y.alive))
        seen = {}
        w, k = x.writes, 0
        while w is not None:
            seen[id(w)] = k
            w, k = w[0], k + 1
        w, new = y.writes, []
        while w is not None and id(w) not in seen:
            new.append(w[1])
            w = w[0]
        common = w
        w, old = x.writes, []
        while w is not common:
            old.append(w[1])
            w = w[0]
        cells = {}
        for e in old + new:
            if e[0] != 'w' or not is_c(e[1]):
                return None
            cells[(e[1], e[2])] = e[3]
        ks = sorted(cells)
        for (o1, s1), (o2, s2) in zip(ks, ks[1:]):
            if o1 + s1 > o2:
                return None
        chain = common
        for (off, size), ct in sorted(cells.items()):
            if ct == 'p':
                t = cfront.ptr(cfront.VOID)
            elif ct == 'i':
                t = {1: cfront.UCHAR, 4: cfront.INT, 8: cfront.ULONG}.get(size)
            else:
                t = None
            if t is None or t.size != size:
                return None
            chain = (chain, ('w', off, size, ct, Ite(c, self._read(a, x, off, t), self._read(b, y, off, t))))
        return x.with_(writes=chain, alive=Ite(c, x.alive, y.alive))

    def s_SwitchStmt(self, st, n):
        cond, body = n['inner'][-2], n['inner'][-1]
        stmts = []      # flat list: ('case', value expr|None) markers and statements

        def flat(x):
            if x['kind'] == 'CaseStmt':
                if len(x['inner']) > 2:
                    raise Unsupported('case range')
                stmts.append(('case', x['inner'][0]))
                flat(x['inner'][1])
            elif x['kind'] == 'DefaultStmt':
                stmts.append(('case', None))
                flat(x['inner'][0])
            else:
                stmts.append(('stmt', x))
        if body['kind'] != 'CompoundStmt':
            flat(body)
        else:
            for x in body.get('inner', []):
                flat(x)
        for k, x in stmts:
            if k == 'stmt':
                for y in _walk(x):
                    if y.get('kind') in ('CaseStmt', 'DefaultStmt') and not _inside_switch(x, y):
                        raise Unsupported('case label inside a nested statement')
        seq = [x for k, x in stmts if k == 'stmt']
        res = []
        for s, v in self.eval(st, cond):
            rest = [s]
            default = None
            targets = []
            idx = 0
            cases = []
            for k, x in stmts:
                if k == 'case':
                    if x is None:
                        default = idx
                    else:
                        cases.append((x, idx))
                else:
                    idx += 1
            for x, i in cases:
                nxt = []
                for s1 in rest:
                    for s2, cv in self.eval(s1, x):
                        c = tob(self.compare(s2, '==', ival(v), cv, x))
                        a, b = self.split(s2, c, x)
                        for s3 in a:
                            targets.append((s3, i))
                        nxt.extend(b)
                rest = nxt
            for s1 in rest:
                if default is not None:
                    targets.append((s1, default))
                else:
                    res.append((None, s1))
            for s1, i in targets:
                for oc, s2 in self.exec_list(s1, seq, i):
                    if oc == ('break',):
                        res.append((None, s2))
                    else:
                        res.append((oc, s2))
        return res

    # ------------------------------------------------------------ loops
    def loop_ord(self, st, n):
        fr = st.frames[-1]
        f = fr.unit.funcs.get(fr.fname)
        i = 0
        for x in _walk(f['body']):
            if x.get('kind') in ('WhileStmt', 'DoStmt', 'ForStmt'):
                if x is n:
                    return i
                i += 1
        return -1

    def s_WhileStmt(self, st, n):
        return self.loop(st, n, n['inner'][-2], None, n['inner'][-1], False)

    def s_DoStmt(self, st, n):
        return self.loop(st, n, n['inner'][1], None, n['inner'][0], True)

    def s_ForStmt(self, st, n):
        init, _, cond, inc, body = n['inner']
        states = [st]
        res = []
        if init:
            states = [s for oc, s in self.exec(st, init)]
        for s in states:
            res.extend(self.loop(s, n, cond, inc, body, False))
        return res

    def loop(self, st, n, cond, inc, body, isdo):
        fr = st.frames[-1]
        o = self.loop_ord(st, n)
        spec = self.loops.get((fr.fname, o), self.loops.get('*'))
        self.cur_loop = n
        if callable(spec):
            spec = spec(self, st)
        if spec is not None and spec.unroll:
            return self.unroll_all(st, cond, inc, body, isdo, spec.unroll)
        if spec is not None:
            self.loops_used.add((fr.fname, o))
        # do { } while (0): executed once
        if isdo and self.const_cond(st, cond) == 0:
            res = []
            for oc, s in self.exec(st, body):
                if oc in (('break',), ('continue',)):
                    oc = None
                res.append((oc, s))
            return res
        if spec is None:
            r = self.try_unroll(st, cond, inc, body, isdo)
            if r is not None:
                return r
            spec = LoopSpec()
        return self.loop_cut(st, n, cond, inc, body, isdo, spec, o)

    def const_cond(self, st, cond):
        if cond is None:
            return 1
        x = cond
        while x['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr'):
            x = x['inner'][0]
        if x['kind'] == 'IntegerLiteral':
            return int(x['value'])
        return None

    def try_unroll(self, st, cond, inc, body, isdo, limit=40):
        """complete unrolling of loops whose condition is decided on every iteration by constants"""
        if self.const_cond(st, cond) is not None or isdo:
            return None
        # cheap test on a copy: is the condition a constant?
        self.suppress += 1
        save = self.npaths
        try:
            r = self.eval_quiet(st.copy(), cond)
        finally:
            self.suppress -= 1
        if r is None:
            return None
        res = []
        work = [(st, 0)]
        while work:
            s, k = work.pop()
            if k > limit:
                raise Unsupported('loop needs an invariant (unrolled %d times)' % limit)
            vals = self.eval(s, cond)
            for s1, v in vals:
                b = simp(tob(v))
                if not isinstance(b, bool):
                    ts, fs = self.split(s1, b, cond)
                    if ts and fs:
                        if k == 0:
                            return None
                        raise Unsupported('loop needs an invariant')
                else:
                    ts, fs = ([s1], []) if b else ([], [s1])
                for s2 in fs:
                    res.append((None, s2))
                for s2 in ts:
                    for oc, s3 in self.exec(s2, body):
                        if oc == ('break',):
                            res.append((None, s3))
                        elif oc is None or oc == ('continue',):
                            if inc:
                                for s4, _ in self.eval(s3, inc):
                                    work.append((s4, k + 1))
                            else:
                                work.append((s3, k + 1))
                        else:
                            res.append((oc, s3))
        return res

    def unroll_all(self, st, cond, inc, body, isdo, limit):
        """complete unrolling, following every feasible path"""
        res, work = [], [(st, 0)]
        while work:
            s, k = work.pop()
            if k > limit:
                raise Unsupported('loop not unrolled completely in %d iterations' % limit)
            r = self.one_iteration(s, cond, inc, body, isdo)
            res += [(None, x) for x in r['exit']] + r['out']
            work += [(x, k + 1) for oc, x in r['back']]
        return res

    def eval_quiet(self, st, cond):
        if cond is None:
            return None
        if not self.simple_cond(cond):
            return None
        r = self.eval(st, cond)
        if len(r) != 1:
            return None
        b = simp(tob(r[0][1]))
        return b if isinstance(b, bool) else None

    def simple_cond(self, e):
        k = e['kind']
        if k in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr'):
            return False
        if k == 'BinaryOperator' and e['opcode'] in ('=', '&&', '||', ','):
            return False
        if k == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            return False
        return all(self.simple_cond(c) for c in e.get('inner', []) if c)

    def infer_mods(self, st, cond, inc, body, isdo, spec):
        """fixpoint of dry runs of the loop body; returns (mods, back-edge states)"""
        keep_obj = {}
        keys = set()
        mods_all = Mods(set(st.objs))
        ghosts = set()
        traced = False
        objmoved = set()
        for rnd in range(6):
            s = self.havoc_loop(st, mods_all, objmoved, ghosts, traced, spec, dry=True)
            rec = Mods(set(st.objs))
            outer = self.record_mod
            self.record_mod = rec
            self.suppress += 1
            self.noauto += 1
            savep = self.npaths
            head = s.copy()
            try:
                backs = self.one_iteration(s, cond, inc, body, isdo)
            finally:
                s = head
                self.suppress -= 1
                self.noauto -= 1
                self.record_mod = outer
                self.npaths = savep
            ends = [x for oc, x in backs['back']]
            changed = False
            # only what is written on some path back to the loop head matters
            cells, bulk, sym = self.back_writes(s, ends, rec)
            for k, t in cells.items():
                if k not in mods_all.cells and k[0] not in mods_all.bulk:
                    mods_all.cells[k] = t
                    changed = True
            for b in bulk:
                if b not in mods_all.bulk:
                    mods_all.bulk.add(b)
                    changed = True
            if sym and not mods_all.sym:
                mods_all.sym = True
                changed = True
            if rec.all and not mods_all.all:
                mods_all.all = True
                changed = True
            for (oid, off), t in list(mods_all.cells.items()):
                if cat(t) == 'p' and (oid, off) not in objmoved:
                    for x in ends:
                        a = self.rd(x, Ptr(oid, off), t)
                        b = self.rd(st, Ptr(oid, off), t)
                        same = (is_c(a.obj) and is_c(b.obj) and a.obj == b.obj) or \
                               (is_z3(a.obj) and is_z3(b.obj) and a.obj.eq(b.obj))
                        if not same:
                            objmoved.add((oid, off))
                            changed = True
                            break
            for x in ends:
                for g in set(x.ghost) | set(s.ghost):
                    if g not in ghosts and not self.same_ghost(x.ghost.get(g), s.ghost.get(g)):
                        ghosts.add(g)
                        changed = True
                if len(x.trace) > len(s.trace) and not traced:
                    traced = True
                    changed = True
                for oid in st.objs:
                    if oid not in x.objs or oid not in s.objs:
                        continue
                    if x.objs[oid].alive is not s.objs[oid].alive and not mods_all.all:
                        if x.objs[oid].alive is False:
                            raise Unsupported('loop releases an object that exists before the loop')
            if not changed:
                return mods_all, objmoved, ghosts, traced
        raise Unsupported('loop modification analysis does not stabilise')

    def back_writes(self, s, ends, rec):
        cells, bulk, sym = {}, set(), False
        for x in ends:
            if x.sym[0] != s.sym[0] or x.sym[1] is not s.sym[1] or x.symalive is not s.symalive:
                sym = True
            for oid in rec.oids:
                o0, o1 = s.objs.get(oid), x.objs.get(oid)
                if o0 is None or o1 is None:
                    continue
                if o0.ver != o1.ver:
                    bulk.add(oid)
                    continue
                w = o1.writes
                while w is not o0.writes:
                    if w is None:
                        bulk.add(oid)
                        break
                    e = w[1]
                    if e[0] == 'w' and is_c(e[1]) and (oid, e[1]) in rec.cells:
                        cells[(oid, e[1])] = rec.cells[(oid, e[1])]
                    else:
                        bulk.add(oid)
                    w = w[0]
        return {k: t for k, t in cells.items() if k[0] not in bulk}, bulk, sym

    def same_ghost(self, a, b):
        if a is b:
            return True
        if is_z3(a) and is_z3(b):
            return a.eq(b)
        try:
            return bool(a == b)
        except Exception:
            return False

    def havoc_loop(self, st, mods, objmoved, ghosts, traced, spec, dry=False):
        s = st.copy()
        for oid in mods.bulk:
            o = s.objs[oid]
            if self.record_mod is not None:
                self.record_mod.bulk.add(oid) if oid in self.record_mod.oids else None
            s.objs[oid] = o.with_(writes=None, ver=next(self.ver), meta={k: v for k, v in o.meta.items() if k not in ('lit', 'zero', 'fmt')})
        for (oid, off), t in mods.cells.items():
            if oid in mods.bulk:
                continue
            if cat(t) == 'p' and (oid, off) not in objmoved:
                old = self.rd(st, Ptr(oid, off), t)
                v = Ptr(old.obj, fresh_int('off'))
            elif cat(t) == 'p':
                v = Ptr(fresh_int('po'), fresh_int('pf'))
            else:
                v = self.fresh(s, t, s.objs[oid].name or 'h')
            self.wr(s, Ptr(oid, off), t, v)
        # objects with variable address: bulk objects that hold pointers keep nothing
        if mods.sym:
            s.sym = (next(self.ver), None)
            s.symalive = (next(self.ver), None)
        for g in ghosts:
            v = s.ghost.get(g)
            if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                s.ghost[g] = fresh_bool('g_' + str(g))
            elif isinstance(v, int) or is_z3(v) and v.sort() == I:
                s.ghost[g] = fresh_int('g_' + str(g))
            elif callable(v):
                s.ghost[g] = ('havoc', next(self.ver))
            else:
                s.ghost[g] = ('havoc', next(self.ver))
        if traced:
            s.trace = s.trace + (('loop',),)
        if spec.post_havoc:
            spec.post_havoc(LoopCtx(self, s, st.frames[-1], st, None))
        return s

    def one_iteration(self, s, cond, inc, body, isdo):
        """run one iteration from state s.
        -> {'back': [(oc, state)], 'exit': [state], 'out': [(oc, state)]}"""
        back, exits, outs = [], [], []
        if isdo:
            starts = [s]
        elif cond is None:
            starts = [s]
        else:
            starts, fs = self.branch(s, cond)
            exits.extend(fs)
        for s1 in starts:
            for oc, s2 in self.exec(s1, body):
                if oc == ('break',):
                    exits.append(s2)
                elif oc is None or oc == ('continue',):
                    if isdo:
                        if cond is None:
                            back.append((None, s2))
                        else:
                            ts, fs = self.branch(s2, cond)
                            exits.extend(fs)
                            back.extend((None, x) for x in ts)
                    elif inc:
                        back.extend((None, s3) for s3, _ in self.eval(s2, inc))
                    else:
                        back.append((None, s2))
                else:
                    outs.append((oc, s2))
        return {'back': back, 'exit': exits, 'out': outs}

    def candidates(self, st, mods, objmoved, cond, frame, ghosts=(), spec=None):
        """candidate facts about the loop variables: [(label, state -> formula)]; only those that turn
        out to be inductive are used"""
        c = []
        cells = []
        for (oid, off), t in mods.cells.items():
            if oid in mods.bulk or st.objs[oid].kind not in ('stack', 'param', 'heap', 'static'):
                continue
            k = cat(t)
            if k not in ('i', 'p') or t.k == 'bool':
                continue
            if k == 'p' and (oid, off) in objmoved:
                continue
            v0 = self.rd(st, Ptr(oid, off), t)
            if k == 'p' and not (is_c(v0.obj) and v0.obj > 0):
                continue
            if k == 'i' and isinstance(v0, (z3.BoolRef, bool)):
                continue

            def get(x, oid=oid, off=off, t=t, k=k):
                v = self.rd(x, Ptr(oid, off), t)
                return v.off if k == 'p' else ival(v)
            cells.append((oid, off, t, k, v0, get))
        for g in sorted(ghosts, key=str):
            v0 = st.ghost.get(g)
            if isinstance(v0, (bool, z3.BoolRef)):
                c.append(('ghost %s unchanged' % (g,), lambda x, g=g, v0=v0: Iff(x.ghost[g], v0)))
            elif is_c(v0) or (is_z3(v0) and v0.sort() == I):
                cells.append((('ghost', g), 0, None, 'i', v0, lambda x, g=g: x.ghost[g]))
        for nm, f in (spec.progress if spec is not None else ()):
            cells.append((('ghost', nm), 0, None, 'i', f(st), f))
        def nameof(oid):
            return 'ghost %s' % (oid[1],) if isinstance(oid, tuple) else st.objs[oid].name
        for (oid, off, t, k, v0, get) in cells:
            b = v0.off if k == 'p' else v0
            nm = nameof(oid)
            c.append((nm + ' >= initial', lambda x, get=get, b=b: ge(get(x), b)))
            c.append((nm + ' <= initial', lambda x, get=get, b=b: le(get(x), b)))
            if k == 'i':
                c.append((nm + ' >= 0', lambda x, get=get: ge(get(x), 0)))
            seen = set()
            for ho, hoff in st.hints:
                if not is_c(ho):
                    continue
                if k == 'p' and ho != v0.obj:
                    continue
                key = (hoff if is_c(hoff) else hoff.get_id())
                if key in seen or len(seen) > 6:
                    continue
                seen.add(key)
                c.append(('%s <= end of string' % nm, lambda x, get=get, h=hoff: le(get(x), h)))
        # advance in step
        for i in range(len(cells)):
            for j in range(len(cells)):
                if i == j:
                    continue
                a, b = cells[i], cells[j]
                a0 = a[4].off if a[3] == 'p' else a[4]
                b0 = b[4].off if b[3] == 'p' else b[4]
                if i < j:
                    c.append(('%s and %s advance together' % (nameof(a[0]), nameof(b[0])),
                              lambda x, ga=a[5], gb=b[5], a0=a0, b0=b0: eq(sub(ga(x), a0), sub(gb(x), b0))))
                    c.append(('sum of %s and %s is constant' % (nameof(a[0]), nameof(b[0])),
                              lambda x, ga=a[5], gb=b[5], a0=a0, b0=b0: eq(add(ga(x), gb(x)), add(a0, b0))))
                c.append(('%s advances at most as far as %s' % (nameof(a[0]), nameof(b[0])),
                          lambda x, ga=a[5], gb=b[5], a0=a0, b0=b0: le(sub(ga(x), a0), sub(gb(x), b0))))
        # the loop condition held at every earlier position of a variable that advances by one
        if cond is not None and self.simple_cond2(cond):
            mentioned = self.mentioned_cells(st, cond, frame)
            mod_m = [x for x in cells if x[0] in mentioned]
            others = [oid for (oid, off) in mods.cells if oid in mentioned and oid not in [x[0] for x in mod_m]]
            if len(mod_m) == 1 and not others:
                (oid, off, t, k, v0, get) = mod_m[0]
                b = v0.off if k == 'p' else v0

                def prefix(x, oid=oid, off=off, t=t, k=k, v0=v0, b=b, get=get):
                    q = z3.Int('q!%d' % next(_E_cnt))
                    y = x.copy()
                    self.wr(y, Ptr(oid, off), t, Ptr(v0.obj, q) if k == 'p' else q)
                    n0 = len(y.pc)
                    self.suppress += 1
                    save = self.npaths
                    try:
                        rs = self.eval(y, cond)
                    finally:
                        self.suppress -= 1
                        self.npaths = save
                    alts = []
                    for r, v in rs:
                        alts.append(And(*r.pc[n0:], tob(v)))
                    body = Or(*alts)
                    if isinstance(body, bool):
                        return body
                    g = z3.Implies(z3.And(toz(b) <= q, q < toz(get(x))), body)
                    pats = self.patterns(body, q)
                    return z3.ForAll([q], g, patterns=pats) if pats else z3.ForAll([q], g)
                c.append(('condition held at earlier positions', prefix))
        if cond is not None:
            # upper bound from `v < E`
            e = cond
            while e['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                e = e['inner'][0]
            conj = [e]
            while conj and any(x['kind'] == 'BinaryOperator' and x['opcode'] == '&&' for x in conj):
                conj = [z for x in conj for z in (x['inner'] if x['kind'] == 'BinaryOperator' and x['opcode'] == '&&'
                                                  else [x])]
            for x in conj:
                while x['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                    x = x['inner'][0]
                if x['kind'] == 'BinaryOperator' and x['opcode'] in ('<', '<=', '>', '>=', '!='):
                    for l, r in ((x['inner'][0], x['inner'][1]), (x['inner'][1], x['inner'][0])):
                        ml = self.mentioned_cells(st, l, frame)
                        mr = self.mentioned_cells(st, r, frame)
                        if len(ml) == 1 and not any(y[0] in mr for y in cells) and not self.has_mem(r) and \
                                l['kind'] in ('DeclRefExpr', 'ImplicitCastExpr', 'ParenExpr'):
                            for y in cells:
                                if y[0] in ml:
                                    def bound(z, r=r, get=y[5], y=y, d=0):
                                        w = z.copy()
                                        self.suppress += 1
                                        try:
                                            rv = self.eval(w, r)
                                        finally:
                                            self.suppress -= 1
                                        if len(rv) != 1 or len(rv[0][0].trace) != len(z.trace):
                                            return True
                                        v = rv[0][1]
                                        v = v.off if isinstance(v, Ptr) else ival(v)
                                        return le(get(z), v)
                                    c.append(('bounded by the loop condition', bound))
                                    c.append(('bounded below by the loop condition',
                                              lambda z, r=r, get=y[5]: self._lower(z, r, get)))
        return c

    def _lower(self, z, r, get):
        w = z.copy()
        self.suppress += 1
        try:
            rv = self.eval(w, r)
        finally:
            self.suppress -= 1
        if len(rv) != 1 or len(rv[0][0].trace) != len(z.trace):
            return True
        v = rv[0][1]
        v = v.off if isinstance(v, Ptr) else ival(v)
        return ge(get(z), v)

    def has_mem(self, e):
        for x in _walk(e):
            if x['kind'] in ('ArraySubscriptExpr', 'MemberExpr') or \
                    x['kind'] == 'UnaryOperator' and x['opcode'] in ('*', '++', '--'):
                return x['kind'] != 'MemberExpr'
        return False

    def mentioned_cells(self, st, e, frame):
        r = set()
        for x in _walk(e):
            if x.get('kind') == 'DeclRefExpr' and x['ref']['id'] in st.frames[-1].vars:
                r.add(st.frames[-1].vars[x['ref']['id']])
        return r

    def simple_cond2(self, e):
        k = e['kind']
        if k in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr'):
            return False
        if k == 'BinaryOperator' and e['opcode'] in ('=', ','):
            return False
        if k == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            return False
        return all(self.simple_cond2(c) for c in e.get('inner', []) if c)

    def houdini(self, st, cond, inc, body, isdo, spec, mods, objmoved, ghosts, traced):
        cands = list(spec.cands)
        if spec.auto and not self.config.get('no_auto'):
            cands += self.candidates(st, mods, objmoved, cond, st.frames[-1], ghosts, spec)
        keep = []
        for lab, f in cands:
            g = f(st)
            if g is True or (g is not False and self.proves(st, g, quant=True, timeout=800)):
                keep.append((lab, f))
        while keep:
            s = self.havoc_loop(st, mods, objmoved, ghosts, traced, spec, dry=True)
            if spec.inv:
                for lab, f in spec.inv(LoopCtx(self, s, st.frames[-1], st, None)):
                    s.assume(f)
            for lab, f in keep:
                s.assume(f(s))
            self.suppress += 1
            savep, outer = self.npaths, self.record_mod
            self.record_mod = None
            try:
                r = self.one_iteration(s, cond, inc, body, isdo)
            finally:
                self.suppress -= 1
                self.npaths = savep
                self.record_mod = outer
            bad = set()
            for oc, x in r['back']:
                for i, (lab, f) in enumerate(keep):
                    if i in bad:
                        continue
                    g = f(x)
                    if g is True:
                        continue
                    if g is False or not self.proves(x, g, quant=True, timeout=800):
                        bad.add(i)
            if not bad:
                return keep
            keep = [k for i, k in enumerate(keep) if i not in bad]
        return keep

    def loop_cut(self, st, n, cond, inc, body, isdo, spec, o):
        fr = st.frames[-1]
        mods, objmoved, ghosts, traced = self.infer_mods(st, cond, inc, body, isdo, spec)
        lname = 'loop %d of %s' % (o, fr.fname)
        if spec.inv:
            for lab, f in spec.inv(LoopCtx(self, st, fr, st, None)):
                self.check(st, f, '%s: invariant holds on entry: %s' % (lname, lab), n, kind='loop')
        auto = []
        if (spec.cands or spec.auto and not self.config.get('no_auto')) and not self.noauto:
            auto = self.houdini(st, cond, inc, body, isdo, spec, mods, objmoved, ghosts, traced)
        s = self.havoc_loop(st, mods, objmoved, ghosts, traced, spec)
        s.desc = s.desc + ('[%s]' % lname,)
        for lab, f in auto:
            s.assume(f(s))
        if spec.inv:
            for lab, f in spec.inv(LoopCtx(self, s, fr, st, None)):
                if f is False:
                    raise Unsupported('%s: contract cannot be assumed (%s)' % (lname, lab))
                s.assume(f)
        d0 = spec.dec(LoopCtx(self, s, fr, st, None)) if spec.dec else None
        if self.record_mod is not None:
            for k, t in mods.cells.items():
                self.record_mod.write(k[0], k[1], t.size, t)
            for b in mods.bulk:
                self.record_mod.write(b, fresh_int(), 1, None)
            if mods.sym:
                self.record_mod.symwrite()
        head = s.copy()
        r = self.one_iteration(s, cond, inc, body, isdo)
        for oc, x in r['back']:
            if self.stuck(head, x, mods, ghosts):
                self.check(x, False, '%s: every iteration changes something (the loop cannot repeat itself for ever)' % lname, n, kind='loop')
            if spec.inv:
                for lab, f in spec.inv(LoopCtx(self, x, fr, st, None)):
                    self.check(x, f, '%s: invariant preserved: %s' % (lname, lab), n, kind='loop')
            if spec.dec:
                d1 = spec.dec(LoopCtx(self, x, fr, st, None))
                self.check(x, And(lt(d1, d0), ge(d0, 0)), '%s: measure decreases' % lname, n, kind='loop')
        return [(None, x) for x in r['exit']] + r['out']

    def never_written(self, s, o, off, n):
        w = o.writes
        if w is not None and s.sym[1] is not None:
            return False
        while w is not None:
            w, e = w
            m = e[2]
            if not is_c(e[1]) or not is_c(m) or e[1] < off + n and off < e[1] + m:
                return False
        return True

    def stuck(self, s, x, mods, ghosts):
        """an iteration from s to x left everything as it was, and called nothing that may behave differently next time"""
        if x.calls != s.calls or x.trace is not s.trace or x.symalive is not s.symalive or x.sym[0] != s.sym[0] or x.sym[1] is not s.sym[1]:
            return False
        for g in set(s.ghost) | set(x.ghost):
            if not self.same_ghost(s.ghost.get(g), x.ghost.get(g)):
                return False
        for oid in s.objs:
            a, b = s.objs[oid], x.objs.get(oid)
            if a is b:
                continue
            if b is None or a.ver != b.ver or a.alive is not b.alive:
                return False
            if a.writes is b.writes:
                continue
            if oid in mods.bulk:
                return False
            for (o, off), t in mods.cells.items():
                if o == oid:
                    v, w = self.rd(s, Ptr(o, off), t), self.rd(x, Ptr(o, off), t)
                    for p, q in ((v.obj, w.obj), (v.off, w.off)) if isinstance(v, Ptr) else ((v, w),):
                        d = simp(eq(p, q)) if not isinstance(p, (bool, z3.BoolRef)) else simp(Iff(p, q))
                        if d is not True:
                            return False
        return True

    # ============================================================ calls
    def e_CallExpr(self, st, e):
        fe = e['inner'][0]
        argx = e['inner'][1:]
        u = st.frames[-1].unit
        # direct callee?
        x = fe
        while x['kind'] in ('ParenExpr',) or (x['kind'] == 'ImplicitCastExpr' and x['castKind'] in (
                'FunctionToPointerDecay', 'BuiltinFnToFnPtr')):
            x = x['inner'][0]
        states = []
        if x['kind'] == 'DeclRefExpr' and x['ref']['kind'] == 'FunctionDecl':
            states = [(st, self.fn_ptr(x['ref']['name']))]
        else:
            states = self.eval(st, fe)
        res = []
        for s, fp in states:
            if not isinstance(fp, Ptr):
                raise Unsupported('call through a non-pointer')
            argss = [(s, [])]
            ax = argx
            if is_c(fp.obj) and self.fnnames.get(fp.obj) in ('__builtin_va_start', '__builtin_c23_va_start'):
                ax = argx[:1]
            for a in ax:
                nxt = []
                for s1, vs in argss:
                    for s2, v in self.eval(s1, a):
                        nxt.append((s2, vs + [v]))
                argss = nxt
            for s1, vs in argss:
                res.extend(self.call(s1, fp, vs, e, argx))
        return res

    def call(self, st, fp, args, node, argx=()):
        self.tick()
        out = []
        for s, p in self.resolve(st, fp, node):
            if is_c(p.obj):
                if p.obj in self.fnnames:
                    out.extend(self.call_named(s, self.fnnames[p.obj], args, node, argx))
                    continue
                self.check(s, False, 'call through an invalid function pointer', node)
                continue
            # unresolved function pointer
            self.check(s, ne(p.obj, 0), 'call through NULL function pointer', node)
            h = self.config.get('callback')
            s.calls += 1
            if h is None:
                raise Unsupported('call through an undetermined function pointer: %s' % s.frames[-1].unit.text(node))
            out.extend(h(self, s, p, args, node))
        return out

    def call_named(self, st, name, args, node, argx=()):
        c = self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(name)
            if name not in PURE:
                st.calls += 1
            return c(self, st, args, node)
        from libc import LIBC
        h = LIBC.get(name)
        # a project function of that name takes precedence over the library model
        for u in self.units:
            if name in u.funcs and (not self.is_header_fn(u, name)):
                return self.inline(st, u, name, args, node)
        if h is not None:
            self.externals.add(name)
            if name not in PURE:
                st.calls += 1
            return h(self, st, args, node)
        for u in self.units:
            if name in u.funcs:
                return self.inline(st, u, name, args, node)
        raise Unsupported('no contract for external function %s' % name)

    def is_header_fn(self, u, name):
        from libc import LIBC
        return name in LIBC and u.funcs[name].get('inline', False)

    def inline(self, st, u, name, args, node):
        if len(st.frames) > 14 or [f.fname for f in st.frames].count(name) >= 2:
            raise Unsupported('recursion through %s' % name)
        self.inlined.add(name)
        res = []
        for oc, s in self.run_body(st, u, name, args):
            if oc is not None and oc[0] == 'return':
                res.append((s, oc[1]))
            elif oc is None:
                res.append((s, None))
            else:
                raise Unsupported('stray jump')
        return res

    def run_body(self, st, u, name, args):
        f = u.funcs[name]
        ft = u.type(f['type'])
        fr = Frame(name, u, len(st.frames))
        st.frames = st.frames + (fr,)
        depth = len(st.frames)
        locals0 = set(st.objs)
        for i, pd in enumerate(f['params']):
            t = u.type(pd['type'])
            if t.k == 'array':
                t = cfront.ptr(t.to)
            if t.k == 'func':
                t = cfront.ptr(t)
            p = self.new_obj(st, u.sizeof(t), 'stack', pd['name'] or 'arg', addr=self.addr_taken(fr, pd['id']))
            self.bind(st, pd['id'], pd['name'] or '_', p.obj, t)
            if i < len(args):
                v = args[i]
                if isinstance(v, StructVal):
                    self.copy_struct(st, p, v, t)
                else:
                    self.wr(st, p, t, v)
        if len(args) > len(f['params']):
            st.frames[-1].varargs = args[len(f['params']):]
        res = []
        ended = {}
        outs = self.exec(st, f['body'])
        for oc, s in outs:
            # locals of this activation end their lifetime
            frm = s.frames[depth - 1]
            for lst in frm.names.values():
                for oid, t in lst:
                    ob = s.objs.get(oid)
                    if ob is not None and ob.kind == 'stack' and ob.addr:
                        s.objs[oid] = ob.with_(alive=False)
                    elif ob is not None and ob.kind == 'stack':
                        del s.objs[oid]
            s.frames = s.frames[:depth - 1]
            res.append((oc, s))
        return res


def _litfun(b):
    def f(k):
        if is_c(k):
            return b[k] if 0 <= k < len(b) else 0
        r = z3.IntVal(0)
        for i in range(len(b) - 1, -1, -1):
            if b[i]:
                r = z3.If(k == i, z3.IntVal(b[i]), r)
        return r
    return f


def _walk(n):
    yield n
    for c in n.get('inner', []) or []:
        if c:
            yield from _walk(c)


def _inside_switch(root, target):
    """is target nested in a switch inside root?"""
    def rec(n, inside):
        if n is target:
            return inside
        for c in n.get('inner', []) or []:
            if c:
                r = rec(c, inside or n['kind'] == 'SwitchStmt')
                if r is not None:
                    return r
        return None
    return bool(rec(root, False))
