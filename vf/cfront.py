"""C front end: clang's JSON AST of the real source files -> compact Python nodes.

Nothing is dropped or rewritten: every function body that clang parsed is kept as
an expression/statement tree.  Type strings are parsed into CType, record layouts
are computed with the natural (x86-64 SysV) rules.
"""
import json, subprocess, os, re, hashlib, pickle, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CACHE = os.path.join(VERIF, 'build', 'ast')

DEFS = ['-DHAVE_CONFIG_H', '-DSYSCONFDIR="/usr/local/etc"',
        '-DLOCALSTATEDIR="/usr/local/var"', '-DNSCA_VERSION="1.7"']


def cflags(src):
    d = os.path.dirname(src)
    if os.path.basename(d) in ('python', 'perl'):
        import sysconfig
        return ['-include', VERIF + '/include/uthash_contract.h', '-I' + d, '-I' + sysconfig.get_paths()['include'],
                '-I/usr/include/python%d.%d' % sys.version_info[:2], '-D_GNU_SOURCE']
    return (['-I' + VERIF + '/include'] + DEFS +
            ['-I' + REPO + '/lib', '-I' + REPO + '/lib/ev', '-I' + REPO + '/lib/pidfile',
             '-I' + REPO + '/src/common', '-I' + d])


class FrontError(Exception):
    pass


# ------------------------------------------------------------------ types
class CType:
    __slots__ = ('k', 'size', 'signed', 'to', 'n', 'name', 'ret', 'params', 'variadic', 'const')

    def __init__(self, k, **kw):
        self.k = k
        self.size = kw.get('size')
        self.signed = kw.get('signed')
        self.to = kw.get('to')
        self.n = kw.get('n')
        self.name = kw.get('name')
        self.ret = kw.get('ret')
        self.params = kw.get('params')
        self.variadic = kw.get('variadic', False)
        self.const = False

    def __repr__(self):
        if self.k == 'int':
            return ('i' if self.signed else 'u') + str(self.size * 8)
        if self.k == 'ptr':
            return repr(self.to) + '*'
        if self.k == 'array':
            return '%r[%s]' % (self.to, self.n)
        if self.k == 'rec':
            return self.name
        if self.k == 'func':
            return 'fn(%s)' % ','.join(map(repr, self.params))
        return self.k


VOID = CType('void')
BOOL = CType('bool', size=1, signed=False)
CHAR = CType('int', size=1, signed=True)
UCHAR = CType('int', size=1, signed=False)
INT = CType('int', size=4, signed=True)
UINT = CType('int', size=4, signed=False)
LONG = CType('int', size=8, signed=True)
ULONG = CType('int', size=8, signed=False)
DOUBLE = CType('float', size=8)
FLOAT = CType('float', size=4)
LDOUBLE = CType('float', size=16)

BASE = {
    'void': VOID, '_Bool': BOOL, 'bool': BOOL, 'char': CHAR, 'signed char': CHAR, 'unsigned char': UCHAR,
    'short': CType('int', size=2, signed=True), 'unsigned short': CType('int', size=2, signed=False),
    'int': INT, 'unsigned int': UINT, 'long': LONG, 'unsigned long': ULONG,
    'long long': LONG, 'unsigned long long': ULONG, 'float': FLOAT, 'double': DOUBLE,
    'long double': LDOUBLE, '__int128': CType('int', size=16, signed=True),
    'unsigned __int128': CType('int', size=16, signed=False),
}


def ptr(t):
    return CType('ptr', size=8, to=t)


class Rec:
    __slots__ = ('name', 'union', 'fields', 'size', 'align', 'complete', 'raw', 'done')

    def __init__(self, name, union):
        self.name = name
        self.union = union
        self.fields = []    # (name, CType, offset)  ; bitfields get a cell of their own
        self.size = 0
        self.align = 1
        self.complete = False
        self.raw = None
        self.done = False

    def field(self, n):
        for f in self.fields:
            if f[0] == n:
                return f
        for f in self.fields:   # anonymous members
            if f[0] is None and f[1].k == 'rec':
                pass
        return None


TOK = re.compile(r'\s*([A-Za-z_]\w*(?:::\w+)*|\d+|\.\.\.|\([^()]*unnamed[^()]*\)|[()*\[\],&])')
QUALS = {'const', 'volatile', 'restrict', '__restrict', '__restrict__', 'register', '_Nonnull', '_Nullable',
         '__signed', 'inline', '_Noreturn'}
SPEC = {'unsigned', 'signed', 'long', 'short', 'int', 'char', 'float', 'double', 'void', '_Bool', 'bool', '__int128'}


def anon_name(s):
    """'union outer::(anonymous at f.h:1:2)' and '(unnamed union at f.h:1:2)' -> one spelling"""
    return re.sub(r'(?:\w+::)*\(anonymous ', '(unnamed ', s)


class Unit:
    """One parsed translation unit."""

    def __init__(self, path):
        self.path = path
        self.funcs = {}      # name -> node of the definition
        self.protos = {}     # name -> CType func
        self.globals = {}    # id -> VarDecl node
        self.gnames = {}     # name -> id
        self.recs = {}       # tag name -> Rec
        self.typedefs = {}   # name -> type string
        self.enums = {}      # constant id -> value
        self.tdcache = {}
        self.src = b''
        self.reccount = 0

    # -------------------------------------------------------------- type parsing
    def type(self, s):
        t = self.tdcache.get(s)
        if t is None:
            t = self._parse(s)
            self.tdcache[s] = t
        return t

    def _parse(self, s):
        s0 = s
        s = re.sub(r'__attribute__\(\(.*?\)\)', ' ', anon_name(s))
        toks, i = [], 0
        while i < len(s):
            m = TOK.match(s, i)
            if not m:
                if s[i:].strip() == '':
                    break
                raise FrontError('cannot tokenize type %r' % s0)
            toks.append(m.group(1))
            i = m.end()
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else None

        def nxt():
            t = peek()
            pos[0] += 1
            return t

        def base():
            spec = []
            while True:
                t = peek()
                if t in QUALS:
                    nxt()
                elif t in ('struct', 'union', 'enum'):
                    nxt()
                    tag = nxt()
                    while peek() in QUALS:
                        nxt()
                    if t == 'enum':
                        return UINT
                    return CType('rec', name=self._tag(tag))
                elif t in SPEC:
                    spec.append(nxt())
                elif t is not None and t.startswith('(') and 'unnamed' in t and not spec:
                    nxt()
                    if 'enum' in t:
                        return UINT
                    return CType('rec', name=self._tag(t))
                elif t is not None and re.match(r'[A-Za-z_]', t) and not spec:
                    nxt()
                    while peek() in QUALS:
                        nxt()
                    return self.named(t)
                else:
                    break
            if not spec:
                raise FrontError('no base type in %r' % s0)
            sg = 'unsigned' in spec
            r = [x for x in spec if x not in ('unsigned', 'signed')]
            if 'char' in r:
                key = 'unsigned char' if sg else 'char'
            elif 'short' in r:
                key = 'unsigned short' if sg else 'short'
            elif 'double' in r:
                key = 'long double' if 'long' in r else 'double'
            elif 'long' in r:
                key = 'unsigned long' if sg else 'long'
            elif '__int128' in r:
                key = 'unsigned __int128' if sg else '__int128'
            elif r and r[0] != 'int':
                key = r[0]
            else:
                key = 'unsigned int' if sg else 'int'
            return BASE[key]

        def declarator(t):
            while peek() == '*' or peek() in QUALS or peek() == '&':
                if nxt() == '*':
                    t = ptr(t)
            inner = None
            if peek() == '(':
                # either grouping "(*...)" or function params
                nx = toks[pos[0] + 1] if pos[0] + 1 < len(toks) else None
                if nx == '*' or nx == '(':
                    nxt()
                    start = pos[0]
                    depth = 1
                    while depth:
                        x = nxt()
                        if x == '(':
                            depth += 1
                        elif x == ')':
                            depth -= 1
                    inner = (start, pos[0] - 1)
            t = suffix(t)
            if inner is not None:
                save = pos[0]
                end = inner[1]
                pos[0] = inner[0]
                t = declarator(t)
                if pos[0] != end:
                    raise FrontError('declarator mismatch %r' % s0)
                pos[0] = save
            return t

        def suffix(t):
            if peek() == '[':
                dims = []
                while peek() == '[':
                    nxt()
                    n = None
                    while peek() != ']':
                        x = nxt()
                        if re.match(r'\d+$', x):
                            n = int(x)
                    nxt()
                    dims.append(n)
                for n in reversed(dims):
                    t = CType('array', to=t, n=n)
                return t
            if peek() == '(':
                nxt()
                params, var = [], False
                if peek() == ')':
                    nxt()
                    return CType('func', ret=t, params=[], variadic=True)
                while True:
                    if peek() == '...':
                        nxt()
                        var = True
                    else:
                        params.append(full())
                    x = nxt()
                    if x == ')':
                        break
                    if x != ',':
                        raise FrontError('bad params in %r' % s0)
                if len(params) == 1 and params[0].k == 'void':
                    params = []
                return CType('func', ret=t, params=params, variadic=var)
            return t

        def full():
            return declarator(base())

        TOKEND = None
        t = full()
        if pos[0] != len(toks):
            raise FrontError('trailing tokens in type %r' % s0)
        return t

    def _tag(self, tag):
        return tag

    def named(self, n):
        if n in BASE:
            return BASE[n]
        if n == '__builtin_va_list' or n == 'va_list' or n == '__gnuc_va_list':
            return CType('array', to=CType('rec', name='__va_list_tag'), n=1)
        if n == '__va_list_tag':
            return CType('rec', name='__va_list_tag')
        if n in self.typedefs:
            return self.type(self.typedefs[n])
        if n in self.recs:
            return CType('rec', name=n)
        if '::' in n:
            last = n.split('::')[-1]
            if last in self.recs:
                return CType('rec', name=last)
        raise FrontError('unknown type name %r' % n)

    def sizeof(self, t):
        k = t.k
        if k in ('int', 'bool', 'float', 'ptr'):
            return t.size
        if k == 'array':
            if t.n is None:
                raise FrontError('sizeof incomplete array')
            return t.n * self.sizeof(t.to)
        if k == 'rec':
            return self.rec(t.name).size
        if k in ('void', 'func'):
            return 1
        raise FrontError('sizeof %r' % t)

    def alignof(self, t):
        k = t.k
        if k in ('int', 'bool', 'float', 'ptr'):
            return t.size
        if k == 'array':
            return self.alignof(t.to)
        if k == 'rec':
            return self.rec(t.name).align
        return 1

    def rec(self, name):
        r = self.recs.get(name)
        if r is None:
            if name == '__va_list_tag':
                r = self.recs[name] = Rec(name, False)
                r.size, r.align, r.complete, r.done = 24, 8, True, True
                return r
            raise FrontError('unknown record %r' % name)
        if not r.done:
            self._layout(r)
        return r

    def _layout(self, r):
        r.done = True
        off = 0
        bitpos = None    # current bitfield storage (bits used)
        for (name, ts, bits, anon) in (r.raw or []):
            t = CType('rec', name=anon) if isinstance(anon, str) else (anon if anon else self.type(ts))
            if bits is not None:
                # every bitfield becomes a cell of its own past the packed area;
                # total size is computed with the packed rule
                tb = t.size * 8
                cur = off * 8 if bitpos is None else bitpos
                if bits == 0:
                    cur = (cur + tb - 1) // tb * tb
                elif cur // tb != (cur + bits - 1) // tb:
                    cur = (cur + tb - 1) // tb * tb
                r.fields.append((name, t, ('bit', len(r.fields), bits)))
                bitpos = cur + bits
                off = (bitpos + 7) // 8
                r.align = max(r.align, self.alignof(t))
                continue
            bitpos = None
            a = self.alignof(t)
            sz = 0 if (t.k == 'array' and t.n is None) else self.sizeof(t)
            if r.union:
                r.fields.append((name, t, 0))
                off = max(off, sz)
            else:
                off = (off + a - 1) // a * a
                r.fields.append((name, t, off))
                off += sz
            r.align = max(r.align, a)
        r.size = (off + r.align - 1) // r.align * r.align
        # bitfield cells: place them at unique fractional offsets is not possible; use
        # offsets beyond the record (size .. size+8*k), reserved by objsize rounding
        nf = []
        extra = 0
        for (name, t, o) in r.fields:
            if isinstance(o, tuple):
                o = (1 << 32) * (extra + 1)
                extra += 1
                nf.append((name, t, o))
            else:
                nf.append((name, t, o))
        r.fields = nf

    def fieldpath(self, recname, fname):
        """(offset, type) of a (possibly anonymous-nested) member."""
        r = self.rec(recname)
        for (n, t, o) in r.fields:
            if n == fname:
                return o, t
        for (n, t, o) in r.fields:
            if n is None and t.k == 'rec':
                try:
                    oo, tt = self.fieldpath(t.name, fname)
                    return o + oo, tt
                except FrontError:
                    pass
        raise FrontError('no field %s in %s' % (fname, recname))

    def line(self, node):
        o = node.get('off')
        if o is None:
            return 0
        return self.src.count(b'\n', 0, o) + 1

    def text(self, node):
        o, e = node.get('off'), node.get('end')
        if o is None or e is None:
            return node.get('kind', '?')
        return re.sub(r'\s+', ' ', self.src[o:e].decode('utf8', 'replace'))[:100]


def _loc(n):
    r = n.get('range', {})
    b, e = r.get('begin', {}), r.get('end', {})

    def o(x):
        if 'expansionLoc' in x:
            x = x['expansionLoc']
        return x.get('offset'), x.get('tokLen', 0)
    bo = o(b)
    eo = o(e)
    return bo[0], (eo[0] + eo[1]) if eo[0] is not None else None


KEEP = ('kind', 'name', 'value', 'opcode', 'isPostfix', 'castKind', 'id', 'isArrow', 'hasElse', 'hasInit', 'hasVar',
        'storageClass', 'init', 'cast', 'labelDeclId', 'targetLabelDeclId')


def slim(n):
    """compact copy of a statement/expression node"""
    if not n:
        return None
    d = {k: n[k] for k in KEEP if k in n}
    if 'type' in n:
        d['type'] = n['type'].get('qualType')
        if 'desugaredQualType' in n['type']:
            d['dtype'] = n['type']['desugaredQualType']
    if 'argType' in n:
        d['argType'] = n['argType'].get('qualType')
    if 'computeResultType' in n:
        d['compType'] = n['computeLHSType'].get('qualType')
    if 'referencedDecl' in n:
        r = n['referencedDecl']
        d['ref'] = {'id': r.get('id'), 'kind': r.get('kind'), 'name': r.get('name'),
                    'type': r.get('type', {}).get('qualType')}
    if 'referencedMemberDecl' in n:
        d['member'] = n['referencedMemberDecl']
    d['off'], d['end'] = _loc(n)
    if 'inner' in n:
        d['inner'] = [slim(c) for c in n['inner']]
    if 'array_filler' in n:
        d['inner'] = [slim(c) for c in n['array_filler']]
        d['filler'] = True
    return d


def run_clang(path, extra):
    cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + cflags(path) + extra + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (path, p.stderr.decode()[:500]))
    return json.loads(p.stdout)


def load(path, extra=()):
    extra = list(extra)
    pre = subprocess.run(['clang', '-E', '-w'] + cflags(path) + extra + [path],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode != 0:
        raise FrontError('preprocessing %s failed: %s' % (path, pre.stderr.decode()[:500]))
    me = open(__file__, 'rb').read()
    src = open(path, 'rb').read()
    key = hashlib.sha256(pre.stdout + b'\0' + src + b'\0' + me + repr(extra).encode()).hexdigest()[:24]
    cf = os.path.join(CACHE, key + '.pkl')
    if os.path.exists(cf):
        try:
            with open(cf, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    ast = run_clang(path, extra)
    u = Unit(path)
    u.src = src
    walk_top(u, ast)
    os.makedirs(CACHE, exist_ok=True)
    tmp = cf + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump(u, f)
    os.replace(tmp, cf)
    return u


def walk_top(u, ast):
    for n in ast['inner']:
        k = n['kind']
        if k == 'RecordDecl':
            do_rec(u, n)
        elif k == 'EnumDecl':
            do_enum(u, n)
        elif k == 'TypedefDecl':
            t = n['type'].get('qualType')
            # anonymous struct typedef: the tag is named after the typedef
            own = None
            for c in n.get('inner', []):
                if c.get('ownedTagDecl'):
                    own = c['ownedTagDecl']
                elif c.get('decl'):
                    own = c['decl']
            if own and own.get('id') in ANON(u):
                kind, name = ANON(u)[own['id']]
                if kind == 'enum':
                    u.typedefs[n['name']] = 'unsigned int'
                else:
                    u.recs[n['name']] = u.recs[name]
                    # keep typedef resolution via recs
                    if n['name'] in u.typedefs:
                        del u.typedefs[n['name']]
            else:
                if t != n['name'] and not (t in ('struct ' + n['name'], 'union ' + n['name'])):
                    u.typedefs[n['name']] = t
                elif t in ('struct ' + n['name'], 'union ' + n['name']):
                    u.typedefs[n['name']] = t
        elif k == 'FunctionDecl':
            nm = n['name']
            u.protos[nm] = n['type']['qualType']
            inner = n.get('inner', [])
            body = [c for c in inner if c['kind'] == 'CompoundStmt']
            if body:
                f = {'name': nm, 'type': n['type']['qualType'], 'static': n.get('storageClass') == 'static',
                     'params': [], 'body': None, 'id': n['id'], 'inline': n.get('inline', False)}
                f['off'], f['end'] = _loc(n)
                for c in inner:
                    if c['kind'] == 'ParmVarDecl':
                        f['params'].append({'name': c.get('name'), 'id': c['id'], 'type': c['type']['qualType']})
                f['body'] = slim(body[0])
                u.funcs[nm] = f
                for c in iter_nodes(body[0]):
                    if c.get('kind') == 'RecordDecl':
                        do_rec(u, c)
                    elif c.get('kind') == 'EnumDecl':
                        do_enum(u, c)
        elif k == 'VarDecl':
            d = slim(n)
            prev = u.gnames.get(n['name'])
            u.globals[n['id']] = d
            if prev is None or 'inner' in d or u.globals[prev].get('storageClass') == 'extern':
                if prev is not None and 'inner' not in d and 'inner' in u.globals[prev]:
                    pass
                else:
                    u.gnames[n['name']] = n['id']
    u.anon = None


def ANON(u):
    if not hasattr(u, 'anon') or u.anon is None:
        u.anon = {}
    return u.anon


def iter_nodes(n):
    yield n
    for c in n.get('inner', []):
        if c:
            yield from iter_nodes(c)


def do_enum(u, n):
    if 'name' not in n:
        ANON(u)[n['id']] = ('enum', None)
    v = -1
    for c in n.get('inner', []):
        if c['kind'] != 'EnumConstantDecl':
            continue
        val = None
        for e in c.get('inner', []):
            for x in iter_nodes(e):
                if 'value' in x:
                    try:
                        val = int(x['value'])
                    except ValueError:
                        pass
                    break
        v = v + 1 if val is None else val
        u.enums[c['id']] = v
        u.enums[c['name']] = v


def do_rec(u, n):
    name = n.get('name')
    if name is None:
        u.reccount += 1
        name = '<anon%d>' % u.reccount
        ANON(u)[n['id']] = ('rec', name)
    r = u.recs.get(name)
    if r is None:
        r = u.recs[name] = Rec(name, n.get('tagUsed') == 'union')
    if not n.get('completeDefinition'):
        return r
    r.complete = True
    r.union = n.get('tagUsed') == 'union'
    r.raw = []
    last = None
    for c in n.get('inner', []):
        if c['kind'] == 'RecordDecl':
            rr = do_rec(u, c)
            last = rr.name
        elif c['kind'] == 'EnumDecl':
            do_enum(u, c)
            last = UINT
        elif c['kind'] == 'FieldDecl':
            ts = anon_name(c['type']['qualType'])
            bits = None
            if c.get('isBitfield'):
                for x in iter_nodes(c['inner'][0]):
                    if 'value' in x:
                        bits = int(x['value'])
                        break
            anon = None
            if 'unnamed' in ts:
                if last is not None:
                    anon = last
                    mm = re.search(r'\([^()]*unnamed[^()]*\)', ts)
                    if mm and isinstance(last, str):
                        u.recs[mm.group(0)] = u.recs[last]
                    m = re.match(r'.*\)((?:\[\d+\])+)$', ts)
                    if '*' in ts.split(')')[-1]:
                        anon = ptr(CType('rec', name=last) if isinstance(last, str) else last)
                    elif m:
                        dims = [int(x) for x in re.findall(r'\[(\d+)\]', m.group(1))]
                        t = CType('rec', name=last) if isinstance(last, str) else last
                        for d in reversed(dims):
                            t = CType('array', to=t, n=d)
                        anon = t
            nm = c.get('name')
            r.raw.append((nm, ts, bits, anon))
    return r


if __name__ == '__main__':
    u = load(sys.argv[1], sys.argv[2:])
    print(len(u.funcs), [f for f in u.funcs][-30:])
