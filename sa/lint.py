"""Internal errors that the source alone shows: names that nothing defines, attributes and keywords that do not exist, wrong argument counts,
format strings that do not fit their arguments.  Rules over the syntax tree and symbol tables of every module of the package; a construct
whose meaning cannot be resolved is left alone."""
import ast, builtins, os, re, symtable

MODULE_NAMES = {'__file__', '__name__', '__doc__', '__path__', '__package__', '__builtins__', '__spec__', '__loader__', '__all__'}


class Module:
    def __init__(self, repo, rel):
        self.rel = rel
        self.name = rel[:-3].replace('/', '.')
        if self.name.endswith('.__init__'):
            self.name = self.name[:-9]
        self.package = self.name if rel.endswith('__init__.py') else self.name.rpartition('.')[0]
        with open(os.path.join(repo, rel)) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, rel)
        self.globals = {}                          # name -> node or ('import', module) or ('from', module, name) or True
        self.star = []


def modules(repo):
    out = {}
    for d, ds, fs in os.walk(os.path.join(repo, 'pybindgen')):
        ds.sort()
        if 'tests' in d or '__pycache__' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                m = Module(repo, os.path.relpath(os.path.join(d, f), repo))
                out[m.name] = m
    return out


class Lint:
    def __init__(self, repo):
        self.mods = modules(repo)
        self.out = []
        self.n = 0
        self.classes = {}                          # (module, class) -> info
        for m in self.mods.values():
            self.collect(m)
        for m in self.mods.values():
            for n in m.star:
                m.globals.update({k: v for k, v in (self.mods[n].globals if n in self.mods else {}).items() if not k.startswith('_')})

    # ------------------------------------------------------------ definitions
    def absname(self, m, node):
        if not node.level:
            return node.module
        p = m.package.split('.')
        p = p[:len(p) - (node.level - 1)]
        return '.'.join(p + ([node.module] if node.module else []))

    def collect(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                m.star.append(self.absname(m, n))

        def top(body):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    m.globals[n.name] = n
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        m.globals[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if a.name != '*':
                            m.globals[a.asname or a.name] = ('from', self.absname(m, n), a.name)
                elif isinstance(n, ast.ClassDef):
                    pass
                else:
                    for t in ast.walk(n):
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                            m.globals.setdefault(t.id, True)
                            if m.globals[t.id] is not True:
                                m.globals[t.id] = True
                    for f in ('body', 'orelse', 'finalbody'):
                        top(getattr(n, f, None) or [])
                    for h in getattr(n, 'handlers', None) or []:
                        if h.name:
                            m.globals.setdefault(h.name, True)
                        top(h.body)
        top(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    m.globals.setdefault(x, True)

    def resolve(self, m, name, seen=()):
        """what a module-level name stands for: ('mod', Module) | ('node', Module, node) | None"""
        g = m.globals.get(name)
        if g is None or g is True or (m.name, name) in seen:
            return None
        if isinstance(g, ast.AST):
            return ('node', m, g)
        if g[0] == 'import':
            x = self.mods.get(g[1])
            return ('mod', x) if x else None
        x = self.mods.get(g[1])
        y = self.mods.get('%s.%s' % (g[1], g[2]))
        if x is not None and g[2] in x.globals:
            return self.resolve(x, g[2], seen + ((m.name, name),))
        if y is not None:
            return ('mod', y)
        return None

    def bad(self, m, node, func, what, msg):
        self.out.append({'file': m.rel, 'line': node.lineno, 'func': func, 'what': what, 'msg': msg})

    # ------------------------------------------------------------ rules
    def run(self):
        for m in self.mods.values():
            self.names(m)
            self.imports(m)
            self.walk_funcs(m)
        return self.out

    def names(self, m):
        """every name read as a global is defined by the module or is a builtin"""
        known = set(m.globals) | set(dir(builtins)) | MODULE_NAMES
        guarded = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.If) and re.search(r'version|PY[23]\b', ast.unparse(n.test)) or isinstance(n, ast.FunctionDef) and n.name == '__cmp__':
                for y in ast.walk(n):
                    if isinstance(y, ast.Name) and y.id in ('basestring', 'unicode', 'long', 'xrange', 'cmp', 'raw_input', 'unichr', 'reduce', 'file'):
                        guarded.add((y.id, y.lineno))    # Python 2 names
            if isinstance(n, ast.Try) and any(h.type is None or 'NameError' in ast.unparse(h.type) or 'Exception' in ast.unparse(h.type) for h in n.handlers):
                for x in n.body:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            guarded.add((y.id, y.lineno))
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                lines.setdefault(n.id, []).append(n)
        missing = {}

        def rec(t, qual):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == 'module') and s.get_name() not in known:
                    missing.setdefault(s.get_name(), (qual, t.get_lineno()))
                self.n += 1
            for c in t.get_children():
                rec(c, (qual + '.' if qual else '') + c.get_name())
        rec(symtable.symtable(m.src, m.rel, 'exec'), '')
        for name, (qual, start) in sorted(missing.items()):
            ns = [n for n in lines.get(name, []) if (name, n.lineno) not in guarded and n.lineno >= start]
            if ns:
                self.bad(m, ns[0], qual, 'undefined name', name)

    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                a = self.absname(m, n)
                x = self.mods.get(a)
                if x is None:
                    if a and a.split('.')[0] == 'pybindgen' and a.rpartition('.')[2] != 'version':
                        self.bad(m, n, '', 'import of a module that does not exist', a)
                    continue
                for al in n.names:
                    self.n += 1
                    if al.name != '*' and al.name not in x.globals and '%s.%s' % (a, al.name) not in self.mods and al.name != 'version':
                        self.bad(m, n, '', 'import of a name that does not exist', '%s.%s' % (a, al.name))

    # -- classes
    def cinfo(self, m, node):
        k = (m.name, node.name, node.lineno)
        if k in self.classes:
            return self.classes[k]
        info = {'m': m, 'node': node, 'bases': [], 'open': False, 'methods': {}, 'attrs': set()}
        self.classes[k] = info
        for b in node.bases:
            r = None
            if isinstance(b, ast.Name):
                if b.id in ('object', 'Exception', 'type'):
                    info['attrs'] |= set(dir(getattr(builtins, b.id)))
                    continue
                r = self.resolve(m, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                x = self.resolve(m, b.value.id)
                if x and x[0] == 'mod':
                    r = self.resolve(x[1], b.attr)
            if r and r[0] == 'node' and isinstance(r[2], ast.ClassDef):
                info['bases'].append(self.cinfo(r[1], r[2]))
            else:
                info['open'] = True
        if node.keywords or node.decorator_list:
            info['open'] = True
        for s in node.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    info['attrs'].add(n.id)
            if isinstance(s, ast.FunctionDef):
                info['methods'][s.name] = s
                info['attrs'].add(s.name)
                if s.name in ('__getattr__', '__getattribute__'):
                    info['open'] = True
            elif isinstance(s, ast.ClassDef):
                info['attrs'].add(s.name)
        for s in ast.walk(node):
            if isinstance(s, ast.FunctionDef) and s.args.args:
                me = s.args.args[0].arg
                for n in ast.walk(s):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        info['attrs'].add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', '__import__'):
                        if ast.unparse(n.args[0]) == me:
                            info['open'] = True
        return info

    def mro(self, i):
        out, seen = [], set()

        def rec(x):
            if id(x) in seen:
                return
            seen.add(id(x))
            out.append(x)
            for b in x['bases']:
                rec(b)
        rec(i)
        return out

    def subclasses(self, i):
        if not hasattr(self, '_sub'):
            self._sub = {}
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ClassDef):
                        self.cinfo(m, n)
            for c in list(self.classes.values()):
                for b in self.mro(c)[1:]:
                    self._sub.setdefault(id(b), []).append(c)
        return self._sub.get(id(i), [])

    def external(self):
        """attributes assigned on objects other than self anywhere in the package"""
        if not hasattr(self, '_ext'):
            self._ext = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._ext.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and \
                            isinstance(n.args[1], ast.Constant):
                        self._ext.add(n.args[1].value)
        return self._ext

    # -- functions
    def walk_funcs(self, m):
        def rec(node, qual, cls):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef):
                    rec(n, qual + [n.name], n)
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    q = qual + [getattr(n, 'name', '<lambda>')]
                    if isinstance(n, ast.FunctionDef):
                        self.func(m, n, '.'.join(q), cls if isinstance(node, ast.ClassDef) else None)
                    rec(n, q, cls)
                else:
                    rec(n, qual, cls)
        rec(m.tree, [], None)
        self.body(m, m.tree.body, '', None, set(), None)

    def func(self, m, f, qual, cls):
        loc = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        for a in (f.args.vararg, f.args.kwarg):
            if a:
                loc.add(a.arg)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
                loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    loc.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, ast.FunctionDef):
                pass
        static = any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list)
        me = f.args.args[0].arg if cls is not None and f.args.args and not static else None
        self.body(m, f.body, qual, cls, loc, me)

    def body(self, m, stmts, qual, cls, loc, me):
        st = list(stmts)
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            self.node(m, n, qual, cls, loc, me)
            st.extend(ast.iter_child_nodes(n))

    def node(self, m, n, qual, cls, loc, me):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            self.fmt(m, n, qual)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
            if n.value.id not in loc:
                r = self.resolve(m, n.value.id)
                if r and r[0] == 'mod':
                    self.n += 1
                    if n.attr not in r[1].globals and '%s.%s' % (r[1].name, n.attr) not in self.mods and not n.attr.startswith('__') and \
                            not r[1].star and n.attr not in self.external():
                        self.bad(m, n, qual, 'attribute that does not exist', '%s.%s' % (r[1].name, n.attr))
            if me and n.value.id == me and cls is not None:
                self.selfattr(m, n, qual, cls)
        if isinstance(n, ast.Call):
            self.call(m, n, qual, cls, loc, me)

    def selfattr(self, m, n, qual, cls):
        i = self.cinfo(m, cls)
        fam = self.mro(i)
        subs = self.subclasses(i)
        for s in subs:
            fam = fam + [x for x in self.mro(s) if x not in fam]
        if any(x['open'] for x in fam):
            return
        self.n += 1
        if any(n.attr in x['attrs'] for x in fam) or n.attr in ('__class__', '__dict__', '__name__', '__doc__', '__module__'):
            return
        if n.attr in self.external():
            return
        self.bad(m, n, qual, 'attribute that nothing defines', 'self.%s' % n.attr)

    def fmt(self, m, n, qual):
        s = n.left.value
        specs = re.findall(r'%(\([^)]*\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', s)
        if '%' in re.sub(r'%(\([^)]*\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', '', s):
            self.bad(m, n, qual, 'malformed format string', s[:60])
            return
        need = [x for x in specs if x[3] != '%']
        named = [x[0][1:-1] for x in need if x[0]]
        stars = sum((x[1] == '*') + (x[2] == '*') for x in need)
        self.n += 1
        if named:
            if isinstance(n.right, ast.Dict) and all(isinstance(k, ast.Constant) for k in n.right.keys):
                miss = set(named) - {k.value for k in n.right.keys}
                if miss:
                    self.bad(m, n, qual, 'format key that is not given', ', '.join(sorted(miss)))
            elif isinstance(n.right, ast.Call) and isinstance(n.right.func, ast.Name) and n.right.func.id == 'dict' and not n.right.args:
                ks = {k.arg for k in n.right.keywords}
                miss = set(named) - ks
                if miss and None not in ks:
                    self.bad(m, n, qual, 'format key that is not given', ', '.join(sorted(miss)))
            elif isinstance(n.right, ast.Tuple):
                self.bad(m, n, qual, 'format requires a mapping', s[:60])
            return
        if isinstance(n.right, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.right.elts):
                return
            if len(n.right.elts) != len(need) + stars:
                self.bad(m, n, qual, 'format arguments', '%d values for %d in %r' % (len(n.right.elts), len(need) + stars, s[:60]))
        elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.ListComp, ast.List)):
            if len(need) + stars != 1:
                self.bad(m, n, qual, 'format arguments', '1 value for %d in %r' % (len(need), s[:60]))
        elif isinstance(n.right, (ast.Name, ast.Attribute)) and len(need) + stars == 0:
            self.bad(m, n, qual, 'format arguments', 'a value for none in %r' % s[:60])

    # -- calls
    def target(self, m, n, cls, loc, me):
        """-> (list of candidate (FunctionDef, bound)) or None"""
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in loc:
                return None
            r = self.resolve(m, f.id)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in loc:
            x = self.resolve(m, f.value.id)
            if not x or x[0] != 'mod':
                return None
            r = self.resolve(x[1], f.attr)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and cls is not None:
            i = self.cinfo(m, cls)
            cands = []
            for c in [i] + self.subclasses(i):
                ms = self.mro(c)
                if any(x['open'] for x in ms):
                    return None
                hit = next((x for x in ms if f.attr in x['attrs']), None)
                if hit is None:
                    continue
                d = hit['methods'].get(f.attr)
                if d is None:
                    return None
                cands.append(d)
            if f.attr in self.external():
                return None
            return [(d, True) for d in cands] or None
        else:
            return None
        if not r or r[0] != 'node':
            return None
        if isinstance(r[2], ast.FunctionDef):
            return [(r[2], False)]
        c = self.cinfo(r[1], r[2])
        ms = self.mro(c)
        if any(x['open'] for x in ms):
            return None
        d = next((x['methods']['__init__'] for x in ms if '__init__' in x['methods']), None)
        if any('__new__' in x['methods'] for x in ms):
            return None
        return [(d, True)] if d is not None else None

    def call(self, m, n, qual, cls, loc, me):
        if any(isinstance(a, ast.Starred) for a in n.args):
            return
        c = self.target(m, n, cls, loc, me)
        if not c:
            return
        self.n += 1
        errs = []
        for d, bound in c:
            static = [x.id for x in d.decorator_list if isinstance(x, ast.Name)]
            if d.decorator_list and not set(static) <= {'staticmethod', 'classmethod'}:
                return
            if bound and 'staticmethod' in static:
                bound = False
            errs.append(self.fits(n, d, bound))
        if all(errs):
            self.bad(m, n, qual, 'call does not fit the function', '%s: %s' % (ast.unparse(n.func), errs[0]))

    def fits(self, n, d, bound):
        a = d.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if bound:
            pos = pos[1:]
        npos = len(n.args)
        if npos > len(pos) and not a.vararg:
            return 'takes %d positional arguments, %d given' % (len(pos), npos)
        kws = [k.arg for k in n.keywords]
        if None in kws:
            return None
        allkw = set(pos) | {x.arg for x in a.kwonlyargs}
        for k in kws:
            if k not in allkw and not a.kwarg:
                return 'has no parameter %s' % k
            if k in pos[:npos]:
                return 'gets %s twice' % k
        req = pos[npos:len(pos) - len(a.defaults)] if len(pos) - len(a.defaults) > npos else []
        for k in req:
            if k not in kws:
                return 'misses the argument %s' % k
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if dflt is None and x.arg not in kws:
                return 'misses the argument %s' % x.arg
        return None


def run(repo):
    l = Lint(repo)
    l.run()
    return l


if __name__ == '__main__':
    import sys
    l = run(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    for x in l.out:
        print('%(file)s:%(line)d %(func)s: %(what)s: %(msg)s' % x)
    print(len(l.out), 'findings', l.n, 'obligations', len(l.mods), 'modules')
