"""Compare the surface of an emitted unit (surface.py) with what its configuration declared (decls.py).

check(u, S) -> (problems, obligations); a problem is (topic, emitted function or table, what, msg, line).  Names are never derived
from the generator's own name mangling: a class is found by the C++ type its instance struct holds, a function through the
method table of the module its declaration was added to, a C++ entity by its qualified name in the calls a wrapper reaches."""
import re
from cmini import strip, text, walk
import bindops
from surface import ident, is_null, lit

PUBLIC = (None, 'public')


def nrm(s):
    return re.sub(r'^::', '', re.sub(r'\s+', '', str(s or '')))


class Mod:
    def __init__(self, S, f):
        self.f, self.name = f, f[2]
        self.events = S.events(f)
        self.table = self.doc = self.pyname = None
        self.items = {}
        self.adds, self.consts, self.dicts, self.exc, self.subs, self.order = {}, {}, {}, {}, {}, []
        last = None
        for n, e in enumerate(self.events):
            k = e[1]
            if k == 'create':
                a = e[2][3]
                if len(a) >= 2:
                    self.pyname, self.table, self.doc = lit(a[0]), ident(a[1]), (lit(a[2]) if len(a) > 2 else None)
                else:
                    d = S.tables.get(ident(a[0]))
                    if d is not None and len(d.init) >= 5:
                        self.pyname, self.doc, self.table = lit(d.init[1]), lit(d.init[2]), ident(d.init[4])
            elif k == 'add':
                tgt = ident(e[4]) or text(strip(e[4]))
                if tgt == 'submodule' and last:
                    self.subs.setdefault(e[3], []).append(last)
                else:
                    self.adds.setdefault(e[3], []).append(tgt)
                self.order.append((n, 'add', e[3], tgt, e[0]))
            elif k == 'const':
                self.consts.setdefault(e[3], []).append(text(strip(e[4])))
            elif k == 'dict':
                t = re.sub(r'^\W*|\W*$', '', e[2].replace('(PyObject*)', ''))
                t = re.sub(r'\.tp_dict$|->tp_dict$', '', t)
                self.dicts.setdefault((t, e[3]), []).append((ident(e[4]) or text(strip(e[4])), n))
                self.order.append((n, 'dict', (t, e[3]), ident(e[4]) or text(strip(e[4])), e[0]))
            elif k == 'call':
                last = e[2]
            elif k == 'newexc':
                self.exc[n] = e
            elif k == 'other' and ident(e[2][2]) in ('PyTuple_SET_ITEM', 'PyTuple_SetItem') and len(e[2][3]) == 3:
                self.items.setdefault(text(strip(e[2][3][0])), {})[text(strip(e[2][3][1]))] = ident(e[2][3][2]) or text(strip(e[2][3][2]))
            elif k == 'ready':
                self.order.append((n, 'ready', e[2], None, e[0]))
            elif k == 'set':
                self.order.append((n, 'set', e[2], e[3], e[0]))

    def tuple_items(self, var):
        it = self.items.get(var) or {}
        return [it[k] for k in sorted(it, key=lambda x: (len(x), x))]

    def value_of(self, var, n):
        """last value assigned to a variable before event n"""
        for k, kind, l, v, _ in reversed(self.order):
            if k < n and kind == 'set' and l == var:
                return v
        return None


class Binding(bindops.OpsMixin):
    def __init__(self, u, S):
        self.u, self.S, self.log = u, S, u.meta['log']
        self.P = []
        self.n = 0
        self.root = dict(u.meta.get('root') or {})
        fs = S.init_funcs()
        self.mods = {f[2]: Mod(S, f) for f in fs}
        called = {c for m in self.mods.values() for e in m.events if e[1] == 'call' for c in [e[2]]}
        self.rootmod = next((m for m in self.mods.values() if m.name not in called), None)
        self.used_rows, self.used_types, self.used_adds = {}, set(), set()
        self._types()

    def bad(self, topic, func, what, msg, line=0):
        self.P.append((topic, func, what, msg, line))

    # ------------------------------------------------------------ discovery
    def _types(self):
        """C++ type held by a wrapper struct -> type object"""
        S = self.S
        holds = {}
        for it in S.p.items:
            if it[0] == 'type' and it[2].startswith('typedef struct') and it[4]:
                st = it[4].strip()
                for m in it[3]:
                    if m[0] == 'declonly' and m[2] and m[2][-1].v == 'obj':
                        t = ''.join((' ' if x.k == 'id' and y is not None and y.k == 'id' else '') + x.v
                                    for x, y in zip(m[2][:-1], [None] + list(m[2][:-2])))
                        holds[st] = t.rstrip('*').strip()
        self.holds = holds
        self.types = {}
        for t in S.of('PyTypeObject'):
            b = t.slots.get('tp_basicsize')
            m = re.match(r'sizeof\((\w+)\)', text(strip(b)) if b is not None else '')
            if m and m.group(1) in holds:
                n = nrm(re.sub(r'^.*shared_ptr<(.*)>$', r'\1', holds[m.group(1)].replace(' ', '')) if 'shared_ptr' in holds[m.group(1)]
                        else holds[m.group(1)])
                self.types.setdefault(n, []).append((m.group(1), t.name))

    def ns(self, d):
        """C++ namespace path of a module declaration"""
        if d.op == 'module':
            r = self.root.get('cpp_namespace')
            return [x for x in (r or '').split('::') if x]
        return self.ns(d.host) + [x for x in d.name.split('::') if x]

    def path(self, d):
        return () if d.op == 'module' else self.path(d.host) + (d.name,)

    def mod(self, d):
        m = self.rootmod
        for n in self.path(d):
            if m is None:
                return None
            s = m.subs.get(n)
            m = self.mods.get(s[0]) if s and len(s) == 1 else None
        return m

    def full(self, d):
        """qualified C++ name of a class-like declaration"""
        if d.foreign_cpp_namespace:
            base = [d.foreign_cpp_namespace]
        elif d.host.op in ('add_class', 'add_struct'):
            base = [self.full(d.host)]
        elif d.outer_class is not None:
            base = [self.full(d.outer_class)]
        else:
            base = self.ns(d.host)
        n = d.name
        if d.template_parameters:
            n += '<%s>' % ','.join(str(x) for x in d.template_parameters)
        return nrm('::'.join(base + [n]))

    def module_of(self, d):
        while d.op in ('add_class', 'add_struct'):
            d = d.host
        return d

    # ------------------------------------------------------------ checks
    def run(self):
        if self.rootmod is None:
            self.bad('module', '', 'no module initialisation function', '')
            return
        self.check_module(self.log.root)
        for d in self.log.all:
            if not d.ok:
                continue
            if d.op == 'add_cpp_namespace':
                self.check_module(d)
        self.check_extra()

    def reaches(self, fname, *wants):
        """does the wrapper reach one of the calls?"""
        fs, calls = self.S.reach(fname)
        flat = {(k, nrm(n)) for k, n in calls}
        return any((k, nrm(n)) in flat for k, n in wants)

    def check_module(self, d):
        m = self.mod(d)
        self.n += 1
        if m is None:
            self.bad('submodule', '', 'namespace not exposed as a submodule', '%s' % '.'.join(self.path(d)))
            return
        if d.op != 'module':
            hm = self.mod(d.host)
            s = hm.subs.get(d.name) or []
            if len(s) != 1:
                self.bad('submodule', hm.name, 'submodule registered %d times' % len(s), d.name)
        rows = self.S.methods(m.table) if m.table else None
        if rows is None:
            self.bad('module', m.name, 'module has no method table', '')
            rows = []
        names = [r[0] for r in rows]
        for x in sorted(set(n for n in names if names.count(n) > 1)):
            self.bad('function', m.table, 'name appears more than once in the module table', x)
        exp = {}
        for k in d.of('add_function', 'add_custom_function_wrapper'):
            if k.ok:
                exp.setdefault(k.custom_name or k.get('name'), []).append(k)
        for name, ks in exp.items():
            tmpl = any(k.template_parameters for k in ks) and not ks[0].custom_name
            self.n += 1
            row = [r for r in rows if r[0] == name]
            if tmpl and not row:
                row = [r for r in rows if r[0] and r[0].startswith(name)]
            if not row:
                self.bad('function', m.table, 'declared function is not in the module table', name)
                continue
            r = row[0]
            self.used_rows.setdefault(m.table, set()).update(x[0] for x in row)
            for k in ks:
                self.n += 1
                if k.op == 'add_custom_function_wrapper':
                    if not self.reaches(r[1], ('call', k.wrapper_name)) and r[1] != k.wrapper_name:
                        self.bad('function', r[1], 'custom wrapper is not reached', '%s -> %s' % (name, k.wrapper_name), r[3])
                    continue
                ns = k.foreign_cpp_namespace.split('::') if k.foreign_cpp_namespace else self.ns(d)
                q = '::'.join([x for x in ns if x] + [k.name])
                if k.template_parameters:
                    q += '<%s>' % ','.join(str(x) for x in k.template_parameters)
                if not any(self.reaches(x[1], ('call', q)) for x in row):
                    self.bad('function', r[1], 'wrapper does not call the declared function', '%s: expected a call of %s, found %s' % (
                        name, q, sorted(n for k2, n in self.S.reach(r[1])[1] if k2 == 'call' and not n.startswith(('Py', '_'))))[:300], r[3])
                if k.docstring and len(ks) == 1:
                    self.n += 1
                    if k.docstring not in (r[4] or ''):
                        self.bad('doc', r[1], 'docstring is not in the method table', '%s: %r' % (name, r[4]), r[3])
                if 'METH_STATIC' in r[2]:
                    self.bad('function', m.table, 'module function flagged METH_STATIC', name, r[3])
        doc = self.root.get('docstring') if d.op == 'module' else None
        if doc:
            self.n += 1
            if doc not in (m.doc or ''):
                self.bad('doc', m.name, 'module docstring missing', repr(m.doc))
        for k in d.kids:
            if not k.ok:
                continue
            if k.op in ('add_class', 'add_struct'):
                self.check_class(k, m)
            elif k.op == 'add_enum':
                self.check_enum(k, m)
            elif k.op == 'add_exception':
                self.check_exception(k, m)
            elif k.op == 'add_container':
                self.check_container(k, m)
            elif k.op == 'add_typedef':
                self.check_typedef(k, m)

    # ------------------------------------------------------------ classes
    def registered(self, d, m, name, T):
        """a type must be readied, then added exactly once under `name` to its module or outer class"""
        self.n += 1
        if d.host.op in ('add_class', 'add_struct') or d.outer_class is not None:
            o = d.outer_class or d.host
            OT = self.type_of(o)
            hits = [(tt, nm) for (tt, nm), v in m.dicts.items() for x, _ in v if x == T]
            if [h for h in hits if h[0] == OT and (name is None or h[1] == name)] == []:
                self.bad('class', m.name, 'nested type is not added to its outer class', '%s as %s in %s; found %s' % (T, name, OT, hits))
            elif len(hits) > 1:
                self.bad('class', m.name, 'nested type is added more than once', '%s: %s' % (T, hits))
            self.used_adds.update(('d',) + h for h in hits)
        else:
            hits = [n for n, v in m.adds.items() for x in v if x == T]
            names = {n for n in hits}
            alias = {k.alias for k in d.host.of('add_typedef') if k.wrapper is d}
            if name is not None and name not in names:
                self.bad('class', m.name, 'type is not added to the module under its name', '%s as %s; found %s' % (T, name, hits))
            elif hits.count(name) > 1 or (name is None and len([h for h in hits if h not in alias]) != 1):
                self.bad('class', m.name, 'type is added more than once', '%s: %s' % (T, hits))
            self.used_adds.update(('m', m.name, h) for h in ([name] if name else hits))
        rd = [n for n, k, t, _, _ in m.order if k == 'ready' and t == T]
        ad = [n for n, k, t, x, _ in m.order if k in ('add', 'dict') and x == T]
        self.n += 1
        if not rd:
            self.bad('class', m.name, 'PyType_Ready is never called on the type', T)
        elif len(rd) > 1:
            self.bad('class', m.name, 'PyType_Ready is called twice on the type', T)
        elif ad and min(ad) < rd[0]:
            self.bad('class', m.name, 'type is exposed before PyType_Ready', T)

    def type_of(self, d):
        ts = self.types.get(self.full(d)) or []
        return ts[0][1] if len(ts) == 1 else None

    def bases(self, d):
        p = d.parent
        if p is None:
            return []
        return [x for x in (p if isinstance(p, list) else [p])]

    def ancestors(self, d):
        out = []
        for b in self.bases(d):
            if hasattr(b, 'op') and b not in out:
                out.append(b)
                out.extend(x for x in self.ancestors(b) if x not in out)
        return out

    def check_class(self, d, m):
        S = self.S
        if d.import_from_module:
            return
        full = self.full(d)
        ts = self.types.get(full) or []
        self.n += 1
        if len(ts) != 1:
            self.bad('class', '', 'class has %d type objects' % len(ts), '%s; types: %s' % (full, sorted(self.types)))
            return
        st, T = ts[0]
        self.used_types.add(T)
        name = d.custom_name or d.get('custom_name')
        if name is None and not d.template_parameters:
            name = d.name
        self.registered(d, m, name, T)
        # bases
        bs = self.bases(d)
        first_ready = min([n for n, k, t, _, _ in m.order if k == 'ready' and t == T] or [10 ** 9])
        if bs:
            self.n += 1
            sets = {l: (n, v) for n, k, l, v, _ in m.order if k == 'set' and l in ('%s.tp_base' % T,)}
            base_set = sets.get('%s.tp_base' % T)
            want = [self.type_of(b) or (b.name if hasattr(b, 'op') else None) for b in bs]
            if base_set is None:
                self.bad('class', m.name, 'tp_base of a derived class is not set', T)
            else:
                if base_set[0] > first_ready:
                    self.bad('class', m.name, 'tp_base is set after PyType_Ready', T)
                got = ident(base_set[1]) or text(strip(base_set[1]))
                if not bs[0].import_from_module and got != want[0]:
                    self.bad('class', m.name, 'tp_base is not the first declared parent', '%s: %s, expected %s' % (T, got, want[0]))
            if len(bs) > 1:
                self.n += 1
                tup = [(n, v) for n, k, l, v, _ in m.order if k == 'set' and l == '%s.tp_bases' % T]
                if not tup:
                    self.bad('class', m.name, 'tp_bases of a class with several parents is not set', T)
                else:
                    n, v = tup[0]
                    args = m.tuple_items('%s.tp_bases' % T)
                    if n > first_ready:
                        self.bad('class', m.name, 'tp_bases is set after PyType_Ready', T)
                    v = strip(v)
                    if v[0] == 'call' and ident(v[2]) == 'PyTuple_New' and text(strip(v[3][0])) != str(len(bs)):
                        self.bad('class', m.name, 'tp_bases has not one element per parent', '%s: %s, %d parents' % (T, text(v), len(bs)), v[1])
                    own = {t.name for t in S.of('PyTypeObject')}
                    want = [a if getattr(b, 'import_from_module', None) and a.lstrip('&*') not in own | set(args[:k] + args[k + 1:]) else w
                            for k, (b, w, a) in enumerate(zip(bs, want, args))] if len(args) == len(want) else want
                    if args != want:
                        self.bad('class', m.name, 'tp_bases does not list the declared parents', '%s: %s, expected %s' % (T, args, want))
        self.check_methods(d, T, st)
        if d.of('add_container_traits'):
            it = S.slot(T, 'tp_iter')
            its = [t.name for t in S.of('PyTypeObject') if t.name != T and it in S.funcs and any(
                n[0] == 'id' and n[2] == t.name for n in walk(S.funcs[it][6]))]
            self.n += 1
            if len(its) != 1:
                self.bad('container', T, 'class with container traits has no tp_iter that creates one iterator type', str(its))
            else:
                self.used_types.add(its[0])
                self.registered(d, m, None, its[0])
        self.check_ctors(d, T, st)
        self.check_attrs(d, T, m)
        self.check_operators(d, T)
        for k in d.kids:
            if k.ok and k.op == 'add_enum':
                self.check_enum(k, m)
            elif k.ok and k.op in ('add_class', 'add_struct'):
                self.check_class(k, m)
            elif k.ok and k.op == 'add_exception':
                self.check_exception(k, m)

    SEQ = {'__len__': 'sq_length', '__getitem__': 'sq_item', '__setitem__': 'sq_ass_item', '__contains__': 'sq_contains',
           '__add__': 'sq_concat', '__mul__': 'sq_repeat', '__iadd__': 'sq_inplace_concat', '__imul__': 'sq_inplace_repeat',
           '__getslice__': 'sq_slice', '__setslice__': 'sq_ass_slice'}

    def check_methods(self, d, T, st):
        S = self.S
        tab = S.slot(T, 'tp_methods')
        rows = S.methods(tab) if tab else []
        if rows is None:
            self.bad('method', T, 'tp_methods does not name a method table', str(tab))
            return
        names = [r[0] for r in rows]
        for x in sorted(set(n for n in names if names.count(n) > 1)):
            self.bad('method', tab, 'name appears more than once in the method table', x)
        full = self.full(d)
        exp = {}
        for k in d.of('add_method', 'add_function_as_method', 'add_custom_method_wrapper'):
            if not k.ok:
                continue
            exp.setdefault(k.custom_name or k.name, []).append(k)
        helper = bool(d.allow_subclassing) or bool(self.u.meta.get('expect', {}).get('sub'))
        used = self.used_rows.setdefault(tab, set())
        for name, ks in exp.items():
            vis = [k for k in ks if k.get('visibility', 'public') == 'public']
            prot = [k for k in ks if k.visibility == 'protected']
            row = [r for r in rows if r[0] == name]
            if not row and any(k.template_parameters for k in ks) and not ks[0].custom_name:
                row = [r for r in rows if r[0] and r[0].startswith(name)]
            used.update(r[0] for r in row)
            fn = row[0][1] if row else None
            line = row[0][3] if row else 0
            if name == '__call__' and not row:
                fn = S.slot(T, 'tp_call')
            elif name in self.SEQ and not row:
                sq = S.slot(T, 'tp_as_sequence')
                t = S.tables.get(sq)
                e = t.slots.get(self.SEQ[name]) if t is not None else None
                fn = ident(e) if e is not None and not is_null(e) else None
                if self.SEQ[name] in ('sq_slice', 'sq_ass_slice') and S.cfg == 'py3':
                    continue                       # these slots do not exist in Python 3
            top = 'operator' if name in self.SEQ or name == '__call__' else 'method'
            self.n += 1
            if not vis and not prot:
                if fn is not None:
                    self.bad(top, tab, 'private method is exposed', name, line)
                continue
            if fn is None:
                if vis:
                    self.bad(top, tab, 'declared method is not exposed', '%s::%s' % (full, name))
                continue
            for k in vis:
                self.n += 1
                if k.op == 'add_custom_method_wrapper':
                    if not self.reaches(fn, ('call', k.wrapper_name)) and fn != k.wrapper_name:
                        self.bad(top, fn, 'custom wrapper is not reached', '%s -> %s' % (name, k.wrapper_name), line)
                    continue
                if k.op == 'add_function_as_method':
                    q = '::'.join(self.ns(self.module_of(d)) + [k.name])
                    if not self.reaches(fn, ('call', q), ('call', k.name)):
                        self.bad(top, fn, 'wrapper does not call the declared function', '%s -> %s' % (name, q), line)
                    continue
                n = k.name
                if k.template_parameters:
                    n += '<%s>' % ','.join(str(x) for x in k.template_parameters)
                w = [('call', '%s::%s' % (full, n))] if k.is_static else [('meth', n), ('call', '%s::%s' % (full, n))]
                if not any(self.reaches(f, *w) for f in ([r[1] for r in row] or [fn])):
                    self.bad(top, fn, 'wrapper does not call the declared method', '%s: expected %s, found %s' % (
                        name, w[0][1], sorted(n2 for k2, n2 in S.reach(fn)[1] if not n2.startswith(('Py', '_'))))[:300], line)
                if row:
                    self.n += 1
                    stat = 'METH_STATIC' in row[0][2]
                    if stat != bool(k.is_static):
                        self.bad('method', tab, 'METH_STATIC does not agree with is_static', '%s::%s' % (full, name), line)
                if k.docstring and len(ks) == 1 and row:
                    self.n += 1
                    if k.docstring not in (row[0][4] or ''):
                        self.bad('doc', tab, 'docstring is not in the method table', '%s: %r' % (name, row[0][4]), line)
        # everything else in the table is __copy__, or inherited
        inh = set()
        for a in self.ancestors(d):
            for k in a.of('add_method', 'add_function_as_method', 'add_custom_method_wrapper'):
                inh.add(k.custom_name or k.name)
        copy = [k for k in d.of('add_copy_constructor', 'add_constructor') if k.ok and self.is_copy(k, d)]
        for r in rows:
            if r[0] in used:
                continue
            if r[0] in ('__copy__', '__deepcopy__'):
                self.n += 1
                used.add(r[0])
                if d.op == 'add_struct' and not d.no_copy:
                    copy = True
                if d.of('inherit_default_constructors') and any(self.is_copy(k, a) for a in self.ancestors(d) for k in a.of(
                        'add_copy_constructor', 'add_constructor')):
                    copy = True
                if not copy:
                    self.bad('method', tab, '__copy__ of a class without a copy constructor', full, r[3])
                continue
            if r[0] in inh:
                used.add(r[0])
                continue
            if r[0][:1] == '_' and (r[0][1:] in exp or r[0][1:] in inh):
                continue                           # settings.deprecated_virtuals: the inherited implementation
            if any(r[0].startswith(n) and any(k.template_parameters for k in ks) for n, ks in exp.items()):
                continue
            self.bad('method', tab, 'undeclared method is exposed', '%s::%s' % (full, r[0]), r[3])

    def is_copy(self, k, d):
        if k.op == 'add_copy_constructor':
            return True
        ps = k.get('parameters') or []
        if len(ps) != 1 or not hasattr(ps[0], 'ctype'):
            return False
        t = nrm(re.sub(r'\bconst\b', '', str(ps[0].ctype)))
        return t.rstrip('&') in (nrm(d.name), self.full(d)) and t.endswith('&')

    def check_ctors(self, d, T, st):
        S = self.S
        fn = S.slot(T, 'tp_init')
        full = self.full(d)
        ks = [k for k in d.of('add_constructor', 'add_copy_constructor') if k.ok and k.get('visibility', 'public') == 'public']
        prot = [k for k in d.of('add_constructor') if k.ok and k.visibility == 'protected']
        self.n += 1
        if ks and fn is None:
            self.bad('ctor', T, 'class with constructors has no tp_init', full)
            return
        if fn is None:
            return
        fs, calls = S.reach(fn)
        # an instance is created by `new Class(...)`, `new Helper(...)` or a custom instance creation function
        made = {nrm(n) for k, n in calls if k == 'new'}
        helper = {nrm(n) for n in made if n.endswith('__PythonHelper')}
        custom = d.of('set_instance_creation_function') or any(a.of('set_instance_creation_function') for a in self.ancestors(d))
        self.n += 1
        pure = self.abstract(d) or d.of('set_cannot_be_constructed') or d.is_singleton
        ok = {nrm(full)} | {nrm('::std::shared_ptr<%s>' % full)}
        wrong = [x for x in made if x not in ok and x not in helper]
        if wrong:
            self.bad('ctor', fn, 'constructor creates an instance of another class', '%s: creates %s' % (full, wrong))
        if ks and not custom and not made & ok and not helper and not pure:
            smart = [n for k, n in calls if k == 'call' and 'make_shared' in n]
            if not smart:
                self.bad('ctor', fn, 'constructor never creates an instance', '%s' % full)
        # one overload per constructor: count distinct argument lists parsed
        if not pure:
            self.n += 1
            formats = self.formats(fs)
            want = len(ks)
            if d.op != 'add_struct' and not custom and formats is not None and len(formats) < min(want, 1):
                self.bad('ctor', fn, 'fewer constructor wrappers than constructors', '%s: %d of %d' % (full, len(formats), want))

    def abstract(self, d):
        """pure virtual methods of the class or its ancestors that no more derived class overrides"""
        pure, seen = False, set()
        for x in [d] + self.ancestors(d):
            for k in x.of('add_method'):
                if k.is_virtual and k.name not in seen:
                    seen.add(k.name)
                    pure |= bool(k.is_pure_virtual)
        return pure

    def formats(self, fs):
        return [f for f in fs]

    # ------------------------------------------------------------ enums, exceptions, containers, aliases
    def check_enum(self, k, m):
        if k.import_from_module:
            return
        nested = k.host.op in ('add_class', 'add_struct') or k.outer_class is not None
        outer = k.outer_class or k.host if nested else None
        pre = k.values_prefix or ''
        ns = ([self.full(outer)] if nested else self.ns(k.host)) + ([k.cpp_namespace] if k.cpp_namespace and not nested else [])
        for v in k.get('values') or []:
            self.n += 1
            if isinstance(v, (list, tuple)):
                name, val = v[0], v[1]
            else:
                name, val = v, '::'.join(ns + [pre + v])
            if nested:
                OT = self.type_of(outer)
                hit = m.dicts.get((OT, name)) or []
                vals = []
                for var, n in hit:
                    x = m.value_of(var, n)
                    x = strip(x) if x is not None else None
                    if x is not None and x[0] == 'call' and ident(x[2]) in ('PyLong_FromLong', 'PyInt_FromLong'):
                        vals.append(text(strip(x[3][0])))
                    else:
                        vals.append(None)
                self.used_adds.add(('d', OT, name))
            else:
                vals = list(m.consts.get(name) or [])
                self.used_adds.add(('c', m.name, name))
            if len(vals) != 1:
                self.bad('enum', m.name, 'enum value is registered %d times' % len(vals), '%s.%s' % (k.name, name))
            elif nrm(vals[0]).replace('(', '').replace(')', '') != nrm(val):
                self.bad('enum', m.name, 'enum value is registered with another value', '%s = %s, expected %s' % (name, vals[0], val))

    def check_exception(self, k, m):
        if k.import_from_module or k.is_standard_error:
            return
        self.n += 1
        name = k.custom_name or k.name
        nested = k.host.op in ('add_class', 'add_struct') or k.outer_class is not None
        ev = [(n, e) for n, e in m.exc.items() if (e[2] or '').split('.')[-1] == name]
        same = [x for x in k.host.of('add_exception') if x.ok and (x.custom_name or x.name) == name]
        if len(same) > 1:
            self.used_adds.add(('m', m.name, name))
            return
        if len(ev) != 1:
            self.bad('exception', m.name, 'exception type is created %d times' % len(ev), name)
            return
        n, e = ev[0]
        st = next(((x, l) for x, kk, l, v, _ in m.order if kk == 'set' and x > n and strip(v)[0] == 'call' and
                   ident(strip(v)[2]) == 'PyErr_NewException'), None)
        var = st[1] if st else None
        if nested:
            OT = self.type_of(k.outer_class or k.host)
            hit = [x for x, _ in m.dicts.get((OT, name)) or []]
            self.used_adds.add(('d', OT, name))
        else:
            hit = m.adds.get(name) or []
            self.used_adds.add(('m', m.name, name))
        if hit != [var]:
            self.bad('exception', m.name, 'exception type is not exposed once under its name', '%s: %s, created as %s' % (name, hit, var))
        if k.parent is not None and getattr(k.parent, 'op', None) == 'add_exception':
            self.n += 1
            p = k.parent
            b = ident(e[3]) or text(strip(e[3]))
            if is_null(e[3]):
                self.bad('exception', m.name, 'exception type does not derive from its declared parent', '%s: no base' % name)

    def check_container(self, k, m):
        self.n += 1
        full = nrm(k.name)
        ts = []
        for n, v in self.types.items():
            if n == full or n.endswith('::' + full):
                ts += v
        nested = k.host.op in ('add_class', 'add_struct') or k.outer_class is not None
        if len(ts) != 1:
            self.bad('container', '', 'container has %d type objects' % len(ts), '%s: %s' % (full, sorted(self.types)))
            return
        st, T = ts[0]
        self.used_types.add(T)
        name = k.custom_name
        self.registered(k, m, name, T)
        it = self.S.slot(T, 'tp_iter')
        self.n += 1
        if it is None or it not in self.S.funcs:
            self.bad('container', T, 'container has no tp_iter', full)
            return
        its = [t.name for t in self.S.of('PyTypeObject') if t.name != T and any(
            n[0] == 'id' and n[2] == t.name for n in walk(self.S.funcs[it][6]))]
        self.n += 1
        if len(its) != 1:
            self.bad('container', it, 'tp_iter does not create one iterator type', str(its))
            return
        self.used_types.add(its[0])
        nx = self.S.slot(its[0], 'tp_iternext')
        if nx is None or nx not in self.S.funcs:
            self.bad('container', its[0], 'iterator type has no tp_iternext', full)
        self.registered(k, m, None, its[0])
        if self.S.slot(T, 'tp_init') is None:
            self.bad('container', T, 'container has no tp_init', full)

    def check_typedef(self, k, m):
        w = k.wrapper
        if not hasattr(w, 'op') or w.op not in ('add_class', 'add_struct'):
            return
        self.n += 1
        hit = m.adds.get(k.alias) or []
        T = self.type_of(w)
        self.used_adds.add(('m', m.name, k.alias))
        if hit != [T]:
            self.bad('class', m.name, 'alias is not registered', '%s -> %s; found %s' % (k.alias, T, hit))

    # ------------------------------------------------------------ nothing else
    def check_extra(self):
        for m in self.mods.values():
            rows = self.S.methods(m.table) if m.table else None
            for r in rows or []:
                self.n += 1
                if r[0] not in self.used_rows.get(m.table, ()):
                    self.bad('function', m.table, 'undeclared function is exposed', str(r[0]), r[3])
            for n in m.adds:
                self.n += 1
                if ('m', m.name, n) not in self.used_adds and n not in ('_PyBindGenWrapperRegistry',):
                    if not str(m.adds[n][0]).startswith('PyCObject') and 'Capsule' not in str(m.adds[n][0]):
                        self.bad('module', m.name, 'undeclared name is added to the module', '%s = %s' % (n, m.adds[n]))
            for n in m.consts:
                self.n += 1
                if ('c', m.name, n) not in self.used_adds:
                    self.bad('enum', m.name, 'undeclared constant is added to the module', n)
            for (t, n) in m.dicts:
                self.n += 1
                if ('d', t, n) not in self.used_adds:
                    self.bad('class', m.name, 'undeclared name is added to a class', '%s.%s' % (t, n))
        for t in self.S.of('PyTypeObject'):
            self.n += 1
            if t.name not in self.used_types:
                self.bad('class', t.name, 'type object of no declared class', '', t.line)


def check(u, S):
    b = Binding(u, S)
    b.run()
    return b.P, b.n
