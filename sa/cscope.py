"""Name resolution over an emitted translation unit: every identifier used in a function body must be a parameter, a local
declared earlier in an enclosing block, a name the unit itself declares, an entity of the C/C++/Python API, or an identifier
that the user supplied.  Every local is declared once per block."""
import os, re
import cmini
from cmini import strip, text, walk, join_tokens

KEYWORDS = set('''void int char short long float double bool unsigned signed const static extern struct class union enum typedef
namespace using public private protected virtual inline template typename operator new delete this true false NULL nullptr sizeof
return if else for while do switch case default break continue goto try catch throw auto register volatile mutable explicit friend
and or not dynamic_cast static_cast const_cast reinterpret_cast typeid wchar_t'''.split())
LIBC = set('''malloc free calloc realloc memset memcpy memmove strlen strcmp strcpy strdup abort printf fprintf stderr stdout
size_t ssize_t ptrdiff_t destructor destructorfunc getiterfunc iternextfunc initproc ternaryfunc binaryfunc unaryfunc inquiry
reprfunc hashfunc cmpfunc getattrofunc setattrofunc getattrfunc setattrfunc richcmpfunc lenfunc ssizeargfunc ssizeobjargproc
objobjproc ssizessizeargfunc ssizessizeobjargproc descrgetfunc descrsetfunc allocfunc newfunc freefunc traverseproc visitproc
coercion getter setter getbufferproc releasebufferproc readbufferproc writebufferproc segcountproc charbufferproc printfunc
objobjargproc uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t
PyVarObject_HEAD PyObject_HEAD INT_MAX INT_MIN LONG_MAX UINT_MAX PRIi64 uintptr_t intptr_t errno abi NULL_ structmember Noddy offsetof'''.split())
CAPI = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'capi.txt')).read().split())
API = re.compile(r'^METH_\w+$|^T_[A-Z]+$|^READONLY$|^RO$|^RESTRICTED$|^PY_\w+$|^PyMODINIT_FUNC$|^WITH_\w+$|'
                 r'^__\w+__$|^PYBINDGEN\w*$|^_PyBindGen\w*$|^PyBindGen\w*$|^PyCObject\w*$|^nb_\w+$|^tp_\w+$|^sq_\w+$|^mp_\w+$')


def unit_names(items):
    """file-scope names declared by the unit"""
    out = set()

    def rec(its):
        for it in its:
            k = it[0]
            if k == 'func':
                out.add(it[2].split('::')[-1].split('<')[0])
                out.add(it[2].split('::')[0])
            elif k == 'ns':
                out.update(re.findall(r'\w+', it[2]))
                rec(it[3])
            elif k == 'type':
                for w in re.findall(r'\w+', it[2]):
                    out.add(w)
                for w in re.findall(r'\w+', it[4]):
                    out.add(w)
                rec(it[3])
                if 'enum' in it[2]:
                    pass
            elif k == 'declonly':
                out.update(declared(it[2]))
            elif k == 'var':
                out.add(var_name(it[2]))
    rec(items)
    return out


def declared(toks):
    """names a declaration without body introduces"""
    if not toks:
        return set()
    ids = [t.v for t in toks if t.k == 'id']
    if toks[0].v == 'typedef':
        # typedef R (*name)(..)  /  typedef X name
        for a in range(len(toks) - 2):
            if toks[a].v == '(' and toks[a + 1].v == '*' and toks[a + 2].k == 'id':
                return {toks[a + 2].v}
        return {ids[-1]} if ids else set()
    if toks[0].v in ('class', 'struct', 'enum', 'union') and len(toks) == 2:
        return {toks[1].v}
    if toks[0].v in ('friend', 'using'):
        return set(ids)
    out = set()
    d = 0
    last = None
    for t in toks:
        if t.k == 'op' and t.v in '([{':
            if d == 0 and last:
                out.add(last)
                last = None
            d += 1
        elif t.k == 'op' and t.v in ')]}':
            d -= 1
        elif d == 0 and t.k == 'op' and t.v in (',', ':', '='):
            if last:
                out.add(last)
            last = None
            if t.v == ':':
                break
        elif d == 0 and t.k == 'id':
            last = t.v
    if last:
        out.add(last)
    return out


def idents(name):
    """unqualified leading identifiers of a (possibly qualified, templated) name"""
    return [w for w in re.findall(r'(?<![\w.>:])[A-Za-z_]\w*', name)]


class Scope:
    def __init__(self, unit, user, macros=()):
        self.unit = unit
        self.user = user
        self.reports = []
        self.n = 0
        self.macros = set(macros)

    def known(self, w):
        return (w in self.unit or w in self.user or w in CAPI or w in KEYWORDS or w in LIBC or API.match(w) or w == 'std' or w in self.macros or
                w == 'boost' or w == 'Glib')

    def rep(self, rule, line, what, msg):
        self.reports.append({'rule': rule, 'line': line, 'what': what, 'msg': msg, 'func': self.fn})

    def func(self, f, members=()):
        self.fn = f[2]
        top = {}
        for ty, nm in f[4]:
            if nm:
                top[nm] = f[1]
        self.scopes = [top, dict.fromkeys(members, f[1])]
        self.labels = set()
        self.stmt(f[6], fnbody=True)

    def lookup(self, w):
        return any(w in s for s in self.scopes)

    def use_name(self, w, line):
        self.n += 1
        if self.lookup(w) or self.known(w):
            return
        self.rep('undeclared', line, w, 'identifier %s is used but nothing declares it at this point' % w)

    def use_type(self, ty, line):
        for w in idents(ty):
            if not self.known(w) and not self.lookup(w):
                self.n += 1
                self.rep('undeclared', line, w, 'type name %s is not declared' % w)

    def expr(self, e):
        if e is None:
            return
        if isinstance(e, list):
            for x in e:
                self.expr(x)
            return
        k = e[0]
        if k == 'id':
            ids = idents(e[2])
            if e[2].startswith('::'):
                ids = idents(e[2][2:])
            if ids:
                for w in ids[:1] if '<' not in e[2] else ids:
                    self.use_name(w, e[1])
            return
        if k in ('num', 'str', 'chr'):
            return
        if k == 'member':
            self.expr(e[2])
            return
        if k == 'cast':
            self.use_type(e[2], e[1])
            self.expr(e[3])
            return
        if k == 'ccast':
            self.use_type(e[3], e[1])
            self.expr(e[4])
            return
        if k == 'new':
            self.use_type(e[2], e[1])
            self.expr(e[3])
            return
        if k == 'sizeof':
            return
        if k == 'call':
            self.expr(e[2])
            self.expr(e[3])
            return
        for x in e[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                self.expr(x)
            elif isinstance(x, list):
                self.expr(x)

    def stmt(self, s, fnbody=False):
        if s is None:
            return
        k = s[0]
        if k == 'block':
            self.scopes.append({})
            for x in s[2]:
                self.stmt(x)
            self.scopes.pop()
        elif k == 'decl':
            for nm, base, ptr, arr, init, ctor in s[2]:
                self.use_type(base, s[1])
                for a in arr:
                    self.expr(a)
                cur = self.scopes[-1]
                if nm in cur or (len(self.scopes) == 3 and nm in self.scopes[0]):
                    self.rep('redeclared', s[1], nm, 'variable %s is declared twice in the same scope' % nm)
                cur[nm] = s[1]
                self.n += 1
                self.expr(init)
                if ctor is not None:
                    self.expr(ctor)
        elif k in ('expr',):
            self.expr(s[2])
        elif k == 'return':
            self.expr(s[2])
        elif k == 'if':
            self.expr(s[2])
            self.sub(s[3])
            self.sub(s[4])
        elif k == 'while':
            self.expr(s[2])
            self.sub(s[3])
        elif k == 'do':
            self.sub(s[2])
            self.expr(s[3])
        elif k == 'for':
            self.scopes.append({})
            self.stmt(s[2])
            self.expr(s[3])
            self.expr(s[4])
            self.sub(s[5])
            self.scopes.pop()
        elif k == 'switch':
            self.expr(s[2])
            self.sub(s[3])
        elif k == 'case':
            self.expr(s[2])
        elif k == 'try':
            self.stmt(s[2])
            for cl, decl, body in s[3]:
                self.scopes.append({})
                if decl and len(decl) > 1 and decl[-1].k == 'id':
                    self.scopes[-1][decl[-1].v] = cl
                    decl = decl[:-1]
                self.use_type(join_tokens(decl), cl)
                self.stmt(body)
                self.scopes.pop()

    def sub(self, s):
        if s is None:
            return
        if s[0] == 'block':
            self.stmt(s)
        else:
            self.scopes.append({})
            self.stmt(s)
            self.scopes.pop()


def globals_check(sc, items):
    """identifiers used in file-scope initialisers; duplicate definitions"""
    seen = {}

    def rec(its, prefix):
        for it in its:
            if it[0] == 'var':
                sc.fn = join_tokens(it[2])
                sc.scopes = [{}]
                sc.expr(it[3])
                nm = var_name(it[2])
                key = prefix + nm
                if key in seen and seen[key][0] == 'var':
                    sc.rep('redefined', it[1], nm, 'global %s is defined twice' % nm)
                seen[key] = ('var', it[1])
            elif it[0] == 'func':
                sig = prefix + it[2] + '(' + ','.join(re.sub(r'\s+', '', t) for t, n in it[4]) + ')' + ('const' if 'const' in it[5] else '')
                if sig in seen:
                    sc.fn = it[2]
                    sc.rep('redefined', it[1], it[2], 'function %s is defined twice' % it[2])
                seen[sig] = ('func', it[1])
            elif it[0] == 'type':
                m = re.match(r'(?:typedef )?(?:struct|class|enum|union) ?(\w*)', it[2])
                nm = it[4].strip() or (m.group(1) if m else it[2])
                if prefix + 'type ' + nm in seen:
                    sc.fn = nm
                    sc.rep('redefined', it[1], nm, 'type %s is defined twice' % nm)
                seen[prefix + 'type ' + nm] = ('type', it[1])
                rec(it[3], prefix + nm + '::')
            elif it[0] == 'ns':
                rec(it[3], prefix + (it[2] + '::' if it[2] != 'extern C' else ''))
    rec(items, '')


def var_name(toks):
    d = 0
    last = None
    for t in toks:
        if t.v == '[':
            break
        if t.k == 'id':
            last = t.v
    return last or '?'
