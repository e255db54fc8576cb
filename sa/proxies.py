"""Virtual methods and Python subclasses: the proxies of each helper class against the declared virtual methods.

proxy:   looks the method up on its Python object; calls Python only when Python overrides it, with the proxied object installed in the
         wrapper for the duration of the call; otherwise calls the parent's implementation once with all its arguments
wrapper: a call that a Python override may make to the parent implementation is not dispatched virtually to the override again
helper:  mirrors the constructors of the class, and instances made for Python subclasses are connected to their Python object"""
import re
import analyses, binding, cflow, pyformats as pf, surface, throws
from cflow import Flow, NULL, TOP
from cmini import strip, text, walk, join_tokens
from surface import ident, lit

nrm = binding.nrm


def ptypes(params):
    return tuple(nrm(pf.norm_type(t)) for t, _ in params)


def split_args(toks):
    """types of the parameters in a declaration's token list after the name"""
    out, cur, d = [], [], 0
    for t in toks:
        if t.v in '([{<':
            d += 1
        if t.v in ')]}>':
            d -= 1
        if t.v == ',' and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


class ProxyFlow(Flow):
    def __init__(self, f, parent, names, **kw):
        super().__init__(f, **kw)
        self.parent, self.names = parent, names    # qualified names of the parent implementation
        self.pycalls = 0
        self.lookup = {}

    def ev(self, e, st):
        if e[0] == 'call':
            key = throws.callee(e)
            if key[0] == 'call' and key[1] in self.parent:
                st = st.copy()
                st.marks['parent'] = st.marks.get('parent', 0) + 1
                args = [ident(a) for a in e[3]]
                want = [n for _, n in self.func[4]]
                if args != want:
                    self.rep('virtual', e[1], 'parent implementation called with other arguments', '%s(%s) in %s' % (key[1], args, want), st)
        outs = super().ev(e, st)
        if e[0] == 'assign' and ident(strip(e[3])) and any(n[0] == 'call' and ident(n[2]) == 'PyObject_GetAttrString' for n in walk(e[4])):
            outs = [(v, s.copy()) for v, s in outs]
            for v, s in outs:
                s.marks['found'] = ident(strip(e[3]))
        if e[0] == 'assign' and e[2] == '=' and (self.wrapper_obj(e[3]) or self.wrapper_obj(e[4]) or st.marks.get('saved')):
            outs = [(v, s.copy()) for v, s in outs]
            self.assign_ev(e, outs)
        return outs

    def apply(self, e, fn, name, args, vs, st, line):
        if name in ('PyObject_GetAttrString', 'PyObject_CallMethod') and len(args) > 1 and text(strip(args[0])) == 'm_pyself':
            got = lit(strip(args[1])) if strip(args[1])[0] == 'str' else lit(args[1])
            if got is None:
                m = re.search(r'"([^"]*)"', text(args[1]))
                got = m.group(1) if m else None
            if got not in self.names:
                self.rep('virtual', line, 'asks Python for another method', '%s(%r), the method is %s' % (name, got, self.names), st)
            if name == 'PyObject_CallMethod':
                self.pycalls += 1
                if not st.marks.get('swap'):
                    self.rep('virtual', line, 'object not installed', 'Python is called while the wrapper does not hold the proxied object', st)
                if st.marks.get('parent'):
                    self.rep('virtual', line, 'both implementations run', 'Python is called after the parent implementation', st)
                found = re.escape(st.marks.get('found') or '?')
                if not any(re.search(r'(Py_TYPE\(%s\)|\b%s->ob_type|PyCFunction_Check\(%s\))' % (found, found, found), k) and
                           ('PyCFunction_Type' in k or 'PyCFunction_Check' in k) and v is False for k, v in st.facts.items()):
                    self.rep('virtual', line, 'no override check', 'Python is called without having checked that Python overrides the method', st)
                st = st.copy()
                st.marks['py'] = True
        return super().apply(e, fn, name, args, vs, st, line)

    def wrapper_obj(self, e):
        t = text(strip(e)).replace(' ', '')
        return 'm_pyself' in t and t.endswith('->obj')

    def assign_ev(self, e, outs):
        """the proxied object is installed in, and the saved one restored to, the wrapper"""
        lv, rv = e[3], e[4]
        for v, s in outs:
            if self.wrapper_obj(lv):
                if any(n[0] == 'id' and n[2] == 'this' for n in walk(rv)):
                    if not s.marks.get('saved'):
                        self.rep('virtual', e[1], 'object not saved', 'the object of the wrapper is replaced without having been saved', s)
                    s.marks['swap'] = True
                elif ident(strip(rv)) is not None and ident(strip(rv)) == s.marks.get('saved'):
                    s.marks['swap'] = False
                else:
                    self.rep('virtual', e[1], 'object not restored', 'the wrapper is left with %s' % text(rv), s)
            elif ident(strip(lv)) and self.wrapper_obj(rv):
                s.marks['saved'] = ident(strip(lv)) if not s.marks.get('swap') else None
            elif ident(strip(lv)) and ident(strip(lv)) == s.marks.get('saved'):
                s.marks['saved'] = None


class Virtuals(binding.Binding):
    def __init__(self, u, S):
        super().__init__(u, S)
        self.obl = 0
        self.helpers = {}
        for it in S.p.items:
            if it[0] == 'type' and re.match(r'class \w+__PythonHelper', it[2]):
                n, _, b = it[2][6:].partition(':')
                self.helpers[n.strip()] = (it, nrm(b.replace('public', '', 1)))
        self.deprecated = bool(u.meta.get('settings', {}).get('deprecated_virtuals'))

    # ------------------------------------------------------------ declarations
    def mro(self, d):
        return [d] + self.ancestors(d)

    def virtuals(self, d):
        """[(declaration, class)] of the virtual methods of a class, most derived first"""
        out, seen = [], set()
        for x in self.mro(d):
            for k in x.of('add_method'):
                if not k.is_virtual:
                    continue
                key = (k.name, tuple(nrm(str(p.ctype)) for p in k.get('parameters') or [] if hasattr(p, 'ctype')), bool(k.is_const))
                if key in seen:
                    continue
                seen.add(key)
                out.append((k, x, key))
        return out

    def go(self):
        for d in self.log.all:
            if d.op == 'add_class' and d.ok and not d.import_from_module:
                self.cls(d)
        for h, (it, base) in self.helpers.items():
            self.obl += 1
            if not any(base == f for f in self.fulls()):
                self.bad('virtual', h, 'helper class derives from no declared class', base, it[1])
        self.helper_parts()

    def fulls(self):
        return {self.full(d) for d in self.log.all if d.op == 'add_class' and d.ok}

    def cls(self, d):
        full = self.full(d)
        ts = self.types.get(full)
        if not ts:
            return
        st, T = ts[0]
        h = st + '__PythonHelper'
        vs = self.virtuals(d)
        failed = [k for k, _, _ in vs if not k.ok]
        vs = [v for v in vs if v[0].ok]
        allow = d.allow_subclassing or self.holds_dict(st)
        off = any(x.of('set_helper_class_disabled') for x in self.mro(d)) or d.is_singleton or d.destructor_visibility == 'private' or \
            any(k.is_pure_virtual for k in failed)
        if h not in self.helpers:
            self.obl += 1
            if allow and not off and vs:
                self.bad('virtual', T, 'virtual methods cannot be overridden: no helper class', '%s: %s' % (full, sorted({k.name for k, _, _ in vs})))
            return
        it, base = self.helpers[h]
        self.obl += 1
        if base != full:
            self.bad('virtual', h, 'helper class derives from another class', '%s, not %s' % (base, full), it[1])
        self.proxies(d, full, st, h, it, vs)
        self.ctors(d, full, h, it)
        self.instances(d, full, st, T, h)
        if not self.deprecated:
            self.guards(d, full, st, T, h, vs)
        self.callers(d, full, st, T, h, vs)

    def holds_dict(self, st):
        for it in self.S.p.items:
            if it[0] == 'type' and it[2].startswith('typedef struct') and it[4] and it[4].strip() == st:
                return any(m[0] == 'declonly' and m[2] and m[2][-1].v == 'inst_dict' for m in it[3])
        return False

    # ------------------------------------------------------------ proxies
    def proxies(self, d, full, st, h, it, vs):
        S = self.S
        decls = []
        for m in it[3]:
            if m[0] == 'declonly' and m[2] and m[2][0].v == 'virtual':
                toks = m[2]
                i = next((i for i, t in enumerate(toks) if t.v == '('), None)
                if i is None:
                    continue
                depth, j = 0, i
                for j in range(i, len(toks)):
                    depth += toks[j].v == '('
                    depth -= toks[j].v == ')'
                    if depth == 0:
                        break
                ps = [nrm(pf.norm_type(join_tokens(a[:-1] if len(a) > 1 and a[-1].k == 'id' else a))) for a in split_args(toks[i + 1:j])]
                decls.append((toks[i - 1].v, tuple(ps), any(t.v == 'const' for t in toks[j:]), m[1]))
        defs = {}
        for pre, f in S.p.funcs:
            cl, _, n = f[2].rpartition('::')
            if cl == h and analyses.is_proxy(f):
                defs.setdefault(n, []).append(f)
        want = {}
        for k, x, key in vs:
            want.setdefault(k.name, []).append((k, x, key))
        for name, ks in want.items():
            n = len(ks)
            mine = [x for x in decls if x[0] == name]
            ds = defs.get(name, [])
            self.obl += 2
            if len(mine) != n:
                self.bad('virtual', h, 'proxy declarations do not match the virtual methods', '%s: %d declared, %d virtual' % (name, len(mine), n), it[1])
            if len(ds) != n:
                self.bad('virtual', h, 'proxy definitions do not match the virtual methods', '%s: %d defined, %d virtual' % (name, len(ds), n), it[1])
            if sorted(bool(x[2]) for x in mine) != sorted(bool(k.is_const) for k, _, _ in ks):
                self.bad('virtual', h, 'constness of a proxy differs from its method', name, it[1])
            for f in ds:
                sig = len(f[4]), tuple(nm for _, nm in f[4])
                k = next((y for y in ks if len(y[2][1]) == sig[0] and tuple(p.name for p in y[0].get('parameters') or []) == sig[1] and
                          bool(y[0].is_const) == ('const' in (f[5] or ''))), None) or \
                    next((y for y in ks if len(y[2][1]) == sig[0]), None)
                if k is None:
                    self.bad('virtual', f[2], 'proxy has other parameters than its method', str(f[4]), f[1])
                    continue
                self.proxy(d, f, k[0], k[1])
        for name in set(defs) - set(want):
            if name.startswith('_') or name in ('set_pyobj',):
                continue
            self.obl += 1
            if not any(k.name == name for x in self.mro(d) for k in x.of('add_method')) and not self.u.meta.get('hooks'):
                self.bad('virtual', h, 'proxy for a method that is not declared', name, it[1])
            elif any(k.name == name and not k.is_virtual for x in self.mro(d) for k in x.of('add_method')):
                self.bad('virtual', h, 'proxy for a method that is not virtual', name, it[1])

    def proxy(self, d, f, k, x):
        parents = {nrm('%s::%s' % (self.full(y), k.name)) for y in self.mro(d)[:self.mro(d).index(x) + 1]}
        names = {k.name, '_' + k.name} if self.deprecated else {k.name}
        fl = ProxyFlow(f, parents, {'_' + k.name} if self.deprecated else names, pystructs=self.S.p.pystructs, newfuncs=self.S.p.newfuncs, entry_gil=False)
        try:
            fl.run()
        except cflow.Limits as e:
            self.bad('virtual', f[2], 'analysis budget exceeded', str(e), f[1])
            return
        # the installation of the proxied object, along each path (syntactic: the assignments are matched by their text)
        self.obl += len(fl.exits) + fl.pycalls
        if not fl.pycalls:
            self.bad('virtual', f[2], 'proxy never calls Python', '', f[1])
        callable_parent = not k.is_pure_virtual and k.get('visibility', 'public') != 'private'
        for ex in fl.exits:
            m = ex['st'].marks
            n = m.get('parent', 0)
            if m.get('swap'):
                fl.rep('virtual', ex['line'], 'object not restored', 'exits with the proxied object still installed in the wrapper', ex['st'])
            if not m.get('py'):
                if callable_parent and n != 1:
                    fl.rep('virtual', ex['line'], 'parent implementation', 'without an override the parent implementation is called %d times' % n, ex['st'])
            elif n > 1:
                fl.rep('virtual', ex['line'], 'parent implementation', 'the parent implementation is called %d times after the override' % n, ex['st'])
            if n and not callable_parent:
                fl.rep('virtual', ex['line'], 'parent implementation', 'calls the implementation of a pure or private method', ex['st'])
        for r in fl.reports:
            if r['rule'] == 'virtual':
                self.bad('virtual', f[2], r['what'], r['msg'], r['line'])

    # ------------------------------------------------------------ helper class
    def ctors(self, d, full, h, it):
        have = []
        for m in it[3]:
            if m[0] == 'func' and m[2] == h:
                have.append((ptypes(m[4]), tuple(n for _, n in m[4]), m))
        own = [k for k in d.of('add_constructor', 'add_copy_constructor') if k.ok]
        self.obl += len(own)
        for sig, names, m in have:
            init = m[5] or ''
            t = nrm(init)
            w1 = nrm('%s(%s)' % (full, ','.join(names)))
            w1b = nrm('%s(%s)' % (full.rpartition('::')[2], ','.join(names)))
            if w1 not in t and w1b not in t:
                self.bad('virtual', h, 'helper constructor does not pass its arguments on', '(%s): %s' % (', '.join(names), init), m[1])
            if 'm_pyself(NULL)' not in t:
                self.bad('virtual', h, 'helper constructor leaves m_pyself unset', init, m[1])
        for k in own:
            if k.visibility == 'private':
                continue
            if k.op == 'add_copy_constructor':
                continue
            w = tuple(nrm(pf.norm_type(str(p.ctype))) for p in k.get('parameters') or [] if hasattr(p, 'ctype'))
            if not any(len(s) == len(w) and n == tuple(p.name for p in k.get('parameters') or [] if hasattr(p, 'ctype')) for s, n, _ in have):
                if not any(len(s) == len(w) for s, _, _ in have):
                    self.bad('virtual', h, 'constructor is missing in the helper class', '%s(%s)' % (full, ', '.join(w)), it[1])

    def instances(self, d, full, st, T, h):
        """instances made for Python subclasses are helpers that know their Python object"""
        S = self.S
        fn = S.slot(T, 'tp_init')
        if fn is None:
            return
        for name in S.reach(fn)[0]:
            f = S.funcs.get(name)
            if f is None:
                continue
            made = [n for n in walk(f[6]) if n[0] == 'new' and nrm(n[2] if isinstance(n[2], str) else text(n[2])).startswith(h)]
            plain = [n for n in walk(f[6]) if n[0] == 'new' and throws.callee(n)[1] == full]
            self.obl += 1
            if plain and not made:
                self.bad('virtual', name, 'Python subclasses get an object whose virtual methods cannot be overridden', full, f[1])
            if made:
                fl = InstFlow(f, h, pystructs=S.p.pystructs, newfuncs=S.p.newfuncs)
                try:
                    fl.run()
                except cflow.Limits as e:
                    self.bad('virtual', name, 'analysis budget exceeded', str(e), f[1])
                    continue
                for r in fl.reports:
                    if r['rule'] == 'virtual':
                        self.bad('virtual', name, r['what'], r['msg'], r['line'])

    def helper_parts(self):
        for h, (it, base) in self.helpers.items():
            fs = {m[2]: m for m in it[3] if m[0] == 'func'}
            self.obl += 2
            sp = fs.get('set_pyobj')
            if sp is None:
                self.bad('virtual', h, 'helper class has no set_pyobj', '', it[1])
            else:
                b = [text(n) for n in walk(sp[6]) if n[0] in ('assign', 'call')]
                p = sp[4][0][1]
                if not any(re.match(r'\(?m_pyself = %s\)?$' % p, t) for t in b) or not any('INCREF(%s)' % p in t for t in b):
                    self.bad('virtual', h, 'set_pyobj does not keep its object', str(b), sp[1])
            de = next((m for n, m in fs.items() if n.startswith('~')), None)
            if de is None or not any(n[0] == 'call' and ident(n[2]) in ('Py_CLEAR', 'Py_XDECREF', 'Py_DECREF') and ident(n[3][0]) == 'm_pyself'
                                     for n in walk(de[6])):
                self.bad('virtual', h, 'helper class does not release its Python object', '', it[1])

    # ------------------------------------------------------------ wrappers of virtual methods
    def row(self, d, name):
        """wrapper that a method name of a class leads to, looking through the method tables of its first bases"""
        x = d
        seen = set()
        while x is not None and id(x) not in seen:
            seen.add(id(x))
            ts = self.types.get(self.full(x))
            if ts:
                tab = self.S.slot(ts[0][1], 'tp_methods')
                for r in (self.S.methods(tab) if tab else None) or []:
                    if r[0] == name:
                        return r[1], x
            bs = self.bases(x)
            x = bs[0] if bs else None
        return None, None

    def guards(self, d, full, st, T, h, vs):
        for k, x, key in vs:
            if k.is_pure_virtual or k.get('visibility', 'public') != 'public':
                continue
            pub = [y for y in vs if (y[0].custom_name or y[0].name) == (k.custom_name or k.name)]
            if any(y[0].is_pure_virtual for y in pub):
                continue
            fn, owner = self.row(d, k.custom_name or k.name)
            if fn is None:
                continue
            for name in self.S.reach(fn)[0]:
                f = self.S.funcs.get(name)
                if f is None:
                    continue
                if not any(n[0] == 'call' and throws.callee(n) == ('meth', nrm(k.name)) for n in walk(f[6])):
                    continue
                self.obl += 1
                fl = GuardFlow(f, nrm(k.name), h, pystructs=self.S.p.pystructs, newfuncs=self.S.p.newfuncs)
                try:
                    fl.run()
                except cflow.Limits as e:
                    self.bad('virtual', name, 'analysis budget exceeded', str(e), f[1])
                    continue
                for r in fl.reports:
                    if r['rule'] == 'virtual':
                        self.bad('virtual', name, r['what'], r['msg'] + ' (used by %s)' % full, r['line'])

    def callers(self, d, full, st, T, h, vs):
        """protected methods are reachable for Python subclasses, through the helper class"""
        S = self.S
        it = self.helpers[h][0]
        inline = {}
        for m in it[3]:
            if m[0] == 'func' and m[2].endswith('__parent_caller'):
                inline.setdefault(m[2][:-len('__parent_caller')], []).append(m)
        for name, ms in inline.items():
            for m in ms:
                self.obl += 1
                cs = [n for n in walk(m[6]) if n[0] == 'call']
                ok = len(cs) == 1 and throws.callee(cs[0])[0] == 'call' and throws.callee(cs[0])[1].endswith('::' + name) and \
                    throws.callee(cs[0])[1].rpartition('::')[0] in {self.full(x) for x in self.mro(d)} and \
                    [ident(a) for a in cs[0][3]] == [n for _, n in m[4]]
                if not ok:
                    self.bad('virtual', h, 'parent caller does not call the parent implementation with its arguments', text(cs[0]) if cs else name, m[1])
                if nrm(m[3]).replace('inline', '') != 'void' and not any(n[0] == 'return' and n[2] is not None for n in walk(m[6])):
                    self.bad('virtual', h, 'parent caller loses the result', name, m[1])
        tab = S.slot(T, 'tp_methods')
        rows = {r[0]: r for r in (S.methods(tab) if tab else None) or []}
        cand = list(vs) + [(k, d, None) for k in d.of('add_method') if k.ok and not k.is_virtual and k.visibility == 'protected' and not k.is_static]
        for k, x, key in cand:
            vis = k.get('visibility', 'public')
            if k.is_pure_virtual and k.is_virtual:
                continue
            if not (vis == 'protected' or self.deprecated and vis == 'public' and k.is_virtual):
                continue
            self.obl += 1
            n = '_' + k.name if self.deprecated else k.name
            r = rows.get(n)
            if r is None:
                self.bad('virtual', tab or T, 'protected method is not available to Python subclasses', '%s::%s' % (full, n))
            elif k.name not in inline:
                self.bad('virtual', h, 'no parent caller', '%s::%s' % (full, k.name), it[1])
            elif not self.reaches_any(r[1], k.name + '__parent_caller'):
                self.bad('virtual', r[1], 'wrapper of a protected method does not call the parent implementation', '%s::%s' % (full, k.name), r[3])

    def reaches_any(self, fn, name):
        for f in [fn] + [x for x in self.S.funcs if x.rpartition('::')[2] == fn.rpartition('::')[2]]:
            if any(c[1].endswith(name) for c in self.S.reach(f)[1]):
                return True
        return False


class InstFlow(Flow):
    def __init__(self, f, h, **kw):
        super().__init__(f, **kw)
        self.h = h

    def ev(self, e, st):
        if e[0] == 'new':
            if throws.callee(e)[1].startswith(self.h):
                st = st.copy()
                st.marks['helper'] = 'bare'
                if self.same(st) is True:
                    self.rep('virtual', e[1], 'helper for the class itself', 'creates a proxy object although the class is not subclassed', st)
            elif self.same(st) is False:
                self.rep('virtual', e[1], 'plain object for a subclass', 'creates an object whose virtual methods cannot be overridden for a subclass', st)
        elif e[0] == 'call' and strip(e[2])[0] == 'member' and strip(e[2])[4] == 'set_pyobj':
            st = st.copy()
            if ident(e[3][0]) == 'self' or text(strip(e[3][0])).endswith('self'):
                st.marks['helper'] = 'connected'
        return super().ev(e, st)

    def same(self, st):
        for k, v in st.facts.items():
            if 'Py_TYPE(self)' in k and '==' in k:
                return v
        return None

    def exit(self, st, val, line, how):
        super().exit(st, val, line, how)
        if st.marks.get('helper') == 'bare' and val == ('int', 0):
            self.rep('virtual', line, 'proxy object is not connected', 'a proxy object was created but does not know its Python object', st)


class GuardFlow(Flow):
    """unqualified calls of a virtual method, on paths where the object may be a proxy"""

    def __init__(self, f, meth, h, **kw):
        super().__init__(f, **kw)
        self.meth, self.h = meth, h
        self.casts = set()
        for n in walk(f[6]):
            if n[0] == 'decl':
                for nm, base, ptr, arr, init, ctor in n[2]:
                    if init is not None and self.downcast(init):
                        self.casts.add(nm)
            elif n[0] == 'assign' and self.downcast(n[4]):
                self.casts.add(text(strip(n[3])))

    def downcast(self, e):
        return any(n[0] == 'ccast' and n[2] == 'dynamic_cast' and self.h in re.split(r'\W+', str(n[3])) for n in walk(e))

    def ev(self, e, st):
        if e[0] == 'call' and throws.callee(e) == ('meth', self.meth):
            if not any(st.v.get(c) == NULL or st.facts.get('(%s == NULL)' % c) or st.facts.get(c) is False for c in self.casts):
                self.rep('virtual', e[1], 'unguarded virtual call', '%s is dispatched virtually although the object may be a %s: an override calling '
                         'its parent implementation would be called again' % (self.meth, self.h), st)
        return super().ev(e, st)


def check(u, S):
    t = Virtuals(u, S)
    t.go()
    return [x for x in t.P if x[0] == 'virtual'], t.obl
