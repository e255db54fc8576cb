"""Operators and attributes of a class: the emitted slot functions against the declarations (mixed into binding.Binding).

Nothing is matched by the text of a template: an operator wrapper is right when every declared alternative evaluates the declared
C++ operator on an operand converted from the first Python argument and one converted from the second, under the success of
both conversions, and returns the converted result; an accessor is right when what it converts is the declared member (or the
result of the declared getter) and what it stores comes from the value it was given."""
import re
from cmini import strip, text, walk
from surface import ident, is_null
import decls

NB_OF = {'+': 'nb_add', '-': 'nb_subtract', '*': 'nb_multiply', '/': 'nb_divide', '+=': 'nb_inplace_add', '-=': 'nb_inplace_subtract',
         '*=': 'nb_inplace_multiply', '/=': 'nb_inplace_divide', '<<': 'nb_lshift', '>>': 'nb_rshift', '%': 'nb_remainder'}
UN_OF = {'-': 'nb_negative', '+': 'nb_positive', '~': 'nb_invert'}
PY_OP = {'==': 'Py_EQ', '!=': 'Py_NE', '<': 'Py_LT', '<=': 'Py_LE', '>': 'Py_GT', '>=': 'Py_GE'}


def nrm(s):
    return re.sub(r'^::', '', re.sub(r'\s+', '', str(s or '')))


def conj(e, pos=True):
    """conjuncts known true when e is true (pos) / false (not pos)"""
    e = strip(e)
    if e[0] == 'un' and e[2] == '!':
        return conj(e[3], not pos)
    if e[0] == 'bin' and e[2] == ('&&' if pos else '||'):
        return conj(e[3], pos) + conj(e[4], pos)
    return [(pos, e)]


def ends(s):
    """does a statement always leave the block?"""
    if s is None:
        return False
    if s[0] in ('return', 'goto', 'break', 'continue', 'throw'):
        return True
    if s[0] == 'block':
        return any(ends(x) for x in s[2])
    if s[0] == 'if':
        return ends(s[3]) and s[4] is not None and ends(s[4])
    return False


def guarded(s, known=()):
    """[(statement or condition node, conditions known to hold there)] in textual order"""
    out = []
    k = s[0]
    if k == 'block':
        kn = tuple(known)
        for x in s[2]:
            out += guarded(x, kn)
            if x[0] == 'if':
                if ends(x[3]):
                    kn += tuple(conj(x[2], False))
                elif x[4] is not None and ends(x[4]):
                    kn += tuple(conj(x[2], True))
    elif k == 'if':
        out.append((('cond', s[1], s[2]), tuple(known)))
        out += guarded(s[3], tuple(known) + tuple(conj(s[2], True)))
        if s[4] is not None:
            out += guarded(s[4], tuple(known) + tuple(conj(s[2], False)))
    elif k in ('while', 'for', 'do', 'switch', 'try'):
        for x in s[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                if x[0] in ('block', 'if', 'expr', 'decl', 'return', 'while', 'for', 'do', 'switch', 'try'):
                    out += guarded(x, known)
                else:
                    out.append((('cond', s[1], x), tuple(known)))
            elif isinstance(x, list):
                for y in x:
                    for z in (y if isinstance(y, (tuple, list)) else ()):
                        if isinstance(z, tuple) and z and z[0] == 'block':
                            out += guarded(z, known)
    else:
        out.append((s, tuple(known)))
    return out


def mentions(n, name):
    return any(x[0] == 'id' and x[2] == name for x in walk(n))


def stmts(s):
    """statement blocks nested in s, outermost first"""
    if s[0] == 'block':
        yield s
        for x in s[2]:
            yield from stmts(x)
    elif s[0] == 'if':
        yield from stmts(s[3])
        if s[4] is not None:
            yield from stmts(s[4])
    elif s[0] in ('while', 'for', 'do', 'switch'):
        for x in s[2:]:
            if isinstance(x, tuple) and x and x[0] in ('block', 'if', 'while', 'for', 'do', 'switch'):
                yield from stmts(x)


def taint(body, params):
    """{variable: set of parameters its value comes from}: assignments, initialisers, and by-address arguments of one call"""
    T = {p: {p} for p in params}

    def of(e):
        r = set()
        for x in walk(e):
            if x[0] == 'id' and x[2] in T:
                r |= T[x[2]]
        return r

    def add(v, s):
        if s - T.get(v, set()):
            T[v] = T.get(v, set()) | s
            return True
        return False
    for _ in range(12):
        ch = False
        for n in walk(body):
            if n[0] == 'decl':
                for nm, base, ptr, arr, init, ctor in n[2]:
                    for e in ([init] if init is not None else []) + list(ctor or []):
                        ch |= add(nm, of(e))
            elif n[0] == 'assign' and n[2] == '=':
                l = strip(n[3])
                while l[0] in ('member', 'index') or l[0] == 'un' and l[2] == '*':
                    l = strip(l[2] if l[0] in ('member', 'index') else l[3])
                if l[0] == 'id':
                    ch |= add(l[2], of(n[4]))
            elif n[0] == 'call':
                src = set()
                outs = []
                for a in n[3]:
                    b = strip(a)
                    if b[0] == 'un' and b[2] == '&':
                        v = strip(b[3])
                        while v[0] == 'member':
                            v = strip(v[2])
                        if v[0] == 'id' and not v[2].endswith('_Type'):
                            outs.append(v[2])
                            continue
                    src |= of(a)
                for o in outs:
                    if src:
                        ch |= add(o, src)
        if not ch:
            break
    return T


class OpsMixin:
    def op_type(self, x, d):
        """C++ type of a declared operand (None: the class itself)"""
        if x is None:
            return self.full(d)
        if isinstance(x, decls.Decl):
            return self.full(x)
        if isinstance(x, decls.Spec):
            x = x.ctype
        x = re.sub(r'\bconst\b', '', str(x)).replace('&', '')
        return nrm(x)

    def slots_of(self, T, table):
        t = self.S.tables.get(self.S.slot(T, table) or '')
        if t is None or t.slots is None:
            return {}
        return {k: ident(e) for k, e in t.slots.items() if not is_null(e)}

    def check_operators(self, d, T):
        S = self.S
        nb = self.slots_of(T, 'tp_as_number')
        if not nb:
            nb = self.inline_number(T)
        want = {}
        for k in d.of('add_binary_numeric_operator', 'add_inplace_numeric_operator'):
            if k.ok:
                s = NB_OF.get(k.operator)
                if s == 'nb_divide' and S.cfg == 'py3':
                    s = 'nb_true_divide'
                if s == 'nb_inplace_divide' and S.cfg == 'py3':
                    s = 'nb_inplace_true_divide'
                want.setdefault(s, []).append(k)
        for k in d.of('add_unary_numeric_operator'):
            if k.ok:
                want.setdefault(UN_OF[k.operator], []).append(k)
        for s, ks in want.items():
            self.n += 1
            fn = nb.get(s)
            f = S.funcs.get(fn)
            if f is None:
                self.bad('operator', T, 'declared operator has no function in its number slot', '%s: %s' % (s, [k.operator for k in ks]))
                continue
            alts = self.alternatives(f)
            for k in ks:
                self.n += 1
                unary = k.op.startswith('add_unary')
                rt = self.full(k.result_cppclass) if k.result_cppclass is not None else self.full(d)
                lt = self.op_type(k.left_cppclass, d)
                w = (k.operator, lt, None if unary else self.op_type(k.right, d), rt)
                if w not in [a[0] for a in alts]:
                    self.bad('operator', fn, 'no alternative evaluates the declared operator', 'wanted (operator, left, right, result) %s; '
                             'found %s' % (w, [a[0] for a in alts]))
                    continue
            decl = {(k.operator, self.op_type(k.left_cppclass, d), None if k.op.startswith('add_unary') else self.op_type(k.right, d))
                    for k in ks}
            for a, why in alts:
                self.n += 1
                if why:
                    self.bad('operator', fn, why, str(a), f[1])
                if a[:3] not in decl:
                    self.bad('operator', fn, 'alternative of an undeclared operator', str(a), f[1])
        for s, fn in nb.items():
            self.n += 1
            if s not in want and fn in S.funcs:
                self.bad('operator', T, 'number slot of an undeclared operator is filled', '%s: %s' % (s, fn))
        self.check_compare(d, T)
        st = [k for k in d.of('add_output_stream_operator') if k.ok]
        fn = S.slot(T, 'tp_str')
        self.n += 1
        if st and S.funcs.get(fn) is None:
            self.bad('operator', T, 'output stream operator without tp_str', '')
        elif st:
            f = S.funcs[fn]
            hit = [n for n in walk(f[6]) if n[0] == 'bin' and n[2] == '<<' and self.is_obj(n[4], f[4][0][1])]
            if not hit:
                self.bad('operator', fn, 'tp_str does not stream the wrapped object', '', f[1])
        elif fn is not None and not st:
            self.bad('operator', T, 'tp_str without an output stream operator', fn)

    def inline_number(self, T):
        """tp_as_number left NULL in the table: filled by assignments at initialisation"""
        out = {}
        for m in self.mods.values():
            for n, k, l, v, _ in m.order:
                mm = re.match(r'%s\.tp_as_number->(\w+)$' % re.escape(T), str(l))
                if k == 'set' and mm:
                    out[mm.group(1)] = ident(v)
        return out

    @staticmethod
    def is_obj(e, self_name):
        """*self->obj (any casts)"""
        e = strip(e)
        if e[0] != 'un' or e[2] != '*':
            return False
        e = strip(e[3])
        if e[0] == 'call' and strip(e[2])[0] == 'member' and strip(e[2])[4] == 'get':
            e = strip(strip(e[2])[2])
        if e[0] != 'member' or e[4] != 'obj':
            return False
        return ident(e[2]) == self_name

    def arg_type(self, c, v, ty):
        """problem when &v, of type ty, is passed to an emitted function that takes a pointer to another type"""
        f = self.S.funcs.get(ident(c[2]))
        if f is None or len(f[4]) != len(c[3]):
            return None
        for a, (pt, _) in zip(c[3], f[4]):
            a = strip(a)
            if a[0] == 'un' and a[2] == '&' and ident(a[3]) == v:
                pt = nrm(pt)
                if pt.endswith('*') and ty and pt[:-1] not in (ty, 'const' + ty):
                    return 'operand or result is converted by the function of another type'
        return None

    def alternatives(self, f):
        """[((operator, left type, right type, result type), problem or None)] evaluated by a number slot function"""
        ps = [p[1] for p in f[4]]
        out = []
        for b in stmts(f[6]):
            types = {}
            for x in b[2]:
                if x[0] == 'decl':
                    for nm, base, ptr, arr, init, ctor in x[2]:
                        types[nm] = nrm(base)
            if not types:
                continue
            g = guarded(b)
            T = None
            for st, kn in g:
                ex = []
                rtype = None
                if st[0] == 'decl':
                    for nm, base, ptr, arr, init, ctor in st[2]:
                        ex += [(e, nrm(base), nm) for e in ([init] if init is not None else []) + list(ctor or [])]
                elif st[0] in ('expr', 'return') and st[2] is not None:
                    ex.append((st[2], None, None))
                for e, rt, res in ex:
                    for n in walk(e):
                        op = l = r = None
                        if n[0] == 'bin' or n[0] == 'assign' and n[2] in ('+=', '-=', '*=', '/='):
                            op, l, r = n[2], ident(n[3]), ident(n[4])
                        elif n[0] == 'un' and n[2] in ('-', '+', '~', '!'):
                            op, l = n[2], ident(n[3])
                        if op is None or l not in types or (r is not None and r not in types) or (n[0] != 'un' and r is None):
                            continue
                        if T is None:
                            T = taint(b, ps)
                        why = None
                        tl, tr = T.get(l, set()), T.get(r, set()) if r else set()
                        if tl != {ps[0]}:
                            why = 'left operand is not converted from the first argument'
                        elif r is not None and (len(ps) < 2 or tr != {ps[1]}):
                            why = 'right operand is not converted from the second argument'
                        else:
                            for v in [l] + ([r] if r else []):
                                ok = any(pos and c[0] == 'call' and any(
                                    strip(a)[0] == 'un' and strip(a)[2] == '&' and ident(a) == v for a in c[3]) for pos, c in kn)
                                if not ok:
                                    why = 'operator evaluated without testing that its operand was converted'
                                elif why is None:
                                    for pos, c in kn:
                                        if c[0] == 'call':
                                            why = why or self.arg_type(c, v, types[v])
                            # the result goes back to Python
                            if why is None and res is not None:
                                back = any(s2[0] == 'return' and s2[2] is not None and mentions(s2[2], res) and strip(s2[2])[0] == 'call'
                                           for s2, _ in g)
                                if not back:
                                    why = 'result of the operator is not what the wrapper returns'
                                for s2, _ in g:
                                    if s2[0] == 'return' and s2[2] is not None and strip(s2[2])[0] == 'call':
                                        why = why or self.arg_type(strip(s2[2]), res, rt)
                        out.append(((op, types[l], types[r] if r else None, rt), why))
        return out

    def check_compare(self, d, T):
        S = self.S
        ops = {k.operator for k in d.of('add_binary_comparison_operator') if k.ok}
        fn = S.slot(T, 'tp_richcompare')
        f = S.funcs.get(fn)
        self.n += 1
        if ops and f is None:
            self.bad('operator', T, 'comparison operators without tp_richcompare', str(sorted(ops)))
            return
        if f is None:
            return
        a, b = f[4][0][1], f[4][1][1]
        found = {}
        for sw in walk(f[6]):
            if sw[0] != 'switch' or ident(sw[2]) != f[4][2][1]:
                continue
            cur, live = [], []
            for x in sw[3][2]:
                if x[0] == 'case':
                    if live and ends(('block', 0, live)):
                        cur = []
                    live = [] if not cur else live
                    cur.append(ident(x[2]) if x[2] is not None else None)
                    live = []
                    continue
                live.append(x)
                for c in cur:
                    found.setdefault(c, []).append(x)
                if ends(x):
                    cur = []
        for op, py in PY_OP.items():
            self.n += 1
            body = ('block', f[1], found.get(py, []))
            cmps = [n for n in walk(body) if n[0] == 'bin' and n[2] in PY_OP and self.is_obj(n[3], a) and self.is_obj(n[4], b)]
            swapped = [n for n in walk(body) if n[0] == 'bin' and n[2] in PY_OP and self.is_obj(n[3], b) and self.is_obj(n[4], a)]
            if op in ops:
                if swapped:
                    self.bad('operator', fn, 'comparison with its operands swapped', '%s: %s' % (py, text(swapped[0])), f[1])
                elif not cmps:
                    self.bad('operator', fn, 'declared comparison is not evaluated', '%s' % py, f[1])
                elif any(n[2] != op for n in cmps):
                    self.bad('operator', fn, 'comparison evaluates another operator', '%s: %s' % (py, text(cmps[0])), f[1])
                else:
                    # true branch -> Py_True, false branch -> Py_False
                    for st, kn in guarded(body):
                        if st[0] != 'return' or st[2] is None:
                            continue
                        v = ident(st[2])
                        pol = [pos for pos, c in kn if c in cmps]
                        if v in ('Py_True', 'Py_False') and pol and (v == 'Py_True') != pol[0]:
                            self.bad('operator', fn, 'comparison returns the opposite truth value', '%s: %s' % (py, v), st[1])
                        elif v in ('Py_True', 'Py_False') and not pol:
                            self.bad('operator', fn, 'comparison result does not depend on the operator', '%s: %s' % (py, v), st[1])
                    if not any(n[0] == 'id' and n[2] == 'Py_True' for n in walk(body)) and not any(
                            n[0] == 'call' and ident(n[2]) in ('PyBool_FromLong',) for n in walk(body)):
                        self.bad('operator', fn, 'comparison never returns True', py, f[1])
            elif cmps or swapped:
                self.bad('operator', fn, 'undeclared comparison is evaluated', '%s: %s' % (py, text((cmps or swapped)[0])), f[1])
            elif not any(n[0] == 'id' and n[2] == 'Py_NotImplemented' for n in walk(body)) and py in found:
                self.bad('operator', fn, 'undeclared comparison does not answer NotImplemented', py, f[1])
        # the other operand is only dereferenced once it is known to be an instance of the class
        self.n += 1
        for st, kn in guarded(f[6]):
            use = [n for n in walk(st) if n[0] == 'member' and n[4] == 'obj' and ident(n[2]) == b]
            if use and not any(pos and c[0] == 'call' and ident(c[2]) in ('PyObject_IsInstance', 'PyObject_TypeCheck') and
                               mentions(c, b) for pos, c in kn):
                self.bad('operator', fn, 'other operand is dereferenced without a type check', text(use[0]), st[1])
                break

    # ------------------------------------------------------------ attributes
    def check_attrs(self, d, T, m):
        S = self.S
        full = self.full(d)
        inst = [k for k in d.of('add_instance_attribute', 'add_custom_instance_attribute') if k.ok]
        stat = [k for k in d.of('add_static_attribute') if k.ok]
        tab = S.slot(T, 'tp_getset')
        rows = S.getsets(tab) if tab else []
        if rows is None:
            self.bad('attribute', T, 'tp_getset does not name a getset table', str(tab))
            rows = []
        self.attr_rows(d, full, inst, rows, tab or T, False)
        # static attributes live on the metaclass
        meta = None
        order = [x for x in m.order if x[1] in ('set', 'ready')]
        ty = [(n, v) for n, k, l, v, _ in m.order if k == 'set' and l in ('Py_TYPE(&%s)' % T, '%s.ob_type' % T)]
        if ty:
            meta = ident(ty[0][1])
        self.n += 1
        if stat and meta is None:
            self.bad('attribute', m.name, 'class with static attributes has no metaclass', T)
        if meta is not None and meta in S.tables:
            self.used_types.add(meta)
            mt = S.slot(meta, 'tp_getset')
            self.attr_rows(d, full, stat, (S.getsets(mt) if mt else []) or [], mt or meta, True)
            rm = [n for n, k, l, v, _ in order if k == 'ready' and l == meta]
            rt = [n for n, k, l, v, _ in order if k == 'ready' and l == T]
            self.n += 1
            if not rm:
                self.bad('attribute', m.name, 'PyType_Ready is never called on the metaclass', meta)
            elif rt and (rm[0] > rt[0] or ty[0][0] > rt[0]):
                self.bad('attribute', m.name, 'metaclass is installed after the class is ready', T)

    def attr_rows(self, d, full, ks, rows, tab, static):
        S = self.S
        names = [r[0] for r in rows]
        want = {}
        for k in ks:
            want.setdefault(k.custom_name or k.name, []).append(k)
        for x in sorted({x for x in names if names.count(x) > 1}, key=str):
            self.bad('attribute', tab, 'attribute appears more than once in the getset table', x)
        for r in rows:
            self.n += 1
            if r[0] not in want:
                self.bad('attribute', tab, 'undeclared attribute is exposed', '%s.%s' % (full, r[0]), r[3])
        for name, kk in want.items():
            k = kk[-1]
            self.n += 1
            row = [r for r in rows if r[0] == name]
            if not row:
                self.bad('attribute', tab, 'declared attribute is not exposed', '%s.%s' % (full, name))
                continue
            _, g, s, ln = row[0]
            custom = k.op == 'add_custom_instance_attribute'
            gf = S.funcs.get(g)
            if gf is None:
                self.bad('attribute', tab, 'attribute has no getter', '%s.%s' % (full, name), ln)
            else:
                self.n += 1
                why = self.getter(gf, d, full, k, static, custom)
                if why:
                    self.bad('attribute', g, why[0], '%s.%s: %s' % (full, name, why[1]), gf[1])
            ro = bool(k.is_const) or (k.getter is not None and k.setter is None and not custom) or (custom and k.setter is None)
            self.n += 1
            if ro and s is not None:
                self.bad('attribute', tab, 'read-only attribute has a setter', '%s.%s' % (full, name), ln)
            elif not ro and S.funcs.get(s) is None:
                self.bad('attribute', tab, 'writable attribute has no setter', '%s.%s' % (full, name), ln)
            elif s is not None:
                self.n += 3
                sf = S.funcs[s]
                for what, msg, l2 in self.setter(sf, d, full, k, static, custom):
                    self.bad('attribute', s, what, '%s.%s: %s' % (full, name, msg), l2)

    def is_member(self, e, full, k, static, self_name):
        """the C++ member the attribute stands for"""
        e = strip(e)
        if static:
            return e[0] == 'id' and nrm(e[2]) == '%s::%s' % (full, k.name)
        if e[0] != 'member' or e[4] != k.name:
            return False
        o = strip(e[2])
        return o[0] == 'member' and o[4] == 'obj' and ident(o[2]) == self_name

    def is_accessor(self, e, full, k, custom, fn, self_name, tmpl):
        """call of the declared getter or setter function -> its value arguments, else None"""
        e = strip(e)
        if e[0] != 'call':
            return None
        f = strip(e[2])
        if not custom:
            if f[0] == 'member' and f[4] == fn:
                o = strip(f[2])
                if o[0] == 'member' and o[4] == 'obj' and ident(o[2]) == self_name:
                    return e[3]
            return None
        n = fn + ('<%s>' % ','.join(tmpl) if tmpl else '')
        if f[0] == 'id' and nrm(f[2]) == nrm(n) and e[3] and self.is_obj(e[3][0], self_name):
            return e[3][1:]
        return None

    def getter(self, f, d, full, k, static, custom):
        me = f[4][0][1] if f[4] else None
        reads, wrong = 0, []
        fn = k.getter if (custom or k.getter) else None
        for n in walk(f[6]):
            if fn is None:
                if self.is_member(n, full, k, static, me):
                    reads += 1
            elif self.is_accessor(n, full, k, custom, fn, me, k.getter_template_parameters) is not None:
                reads += 1
        if not reads:
            return 'getter does not read the declared member', 'wanted %s' % (fn or k.name)
        return None

    def setter(self, f, d, full, k, static, custom):
        ps = [p[1] for p in f[4]]
        me, val = ps[0], ps[1]
        out = []
        T = taint(f[6], ps)

        def src(e):
            r = set()
            for x in walk(e):
                if x[0] == 'id' and x[2] in T:
                    r |= T[x[2]]
            return r
        fn = k.setter if (custom or k.setter) else None
        writes = []
        checked = True
        for st, kn in guarded(f[6]):
            for n in walk(st):
                if fn is not None:
                    a = self.is_accessor(n, full, k, custom, fn, me, k.setter_template_parameters)
                    if a is not None:
                        writes.append((n, st, kn, val in set().union(*[src(x) for x in a]) if a else False))
                elif n[0] == 'assign' and n[2] == '=' and self.is_member(n[3], full, k, static, me):
                    writes.append((n, st, kn, val in src(n[4])))
                elif n[0] == 'un' and n[2] == '&' and self.is_member(n[3], full, k, static, me):
                    # converted in place: by address in a conversion call
                    call = next((c for c in walk(st) if c[0] == 'call' and any(y is n for y in walk(('x', 0, c[3])))), None) or \
                        next((c for c in walk(st) if c[0] == 'call'), None)
                    writes.append((n, st, kn, call is not None and val in set().union(*[src(x) for x in call[3]])))
            if st[0] in ('cond', 'expr', 'decl', 'return') and checked:
                # a deletion (value == NULL) must be refused before the value is used
                for n in walk(st):
                    if n[0] == 'id' and n[2] == val:
                        nul = [c for c in walk(st) if c[0] == 'bin' and c[2] in ('==', '!=') and (
                            ident(c[3]) == val and is_null(c[4]) or ident(c[4]) == val and is_null(c[3])) or c[0] == 'un' and c[2] == '!' and ident(c[3]) == val]
                        known = [1 for pos, c in kn if not pos and c[0] == 'bin' and c[2] == '==' and val in (ident(c[3]), ident(c[4])) or
                                 pos and c[0] == 'bin' and c[2] == '!=' and val in (ident(c[3]), ident(c[4])) or pos and c[0] == 'id' and c[2] == val]
                        if not nul and not known:
                            out.append(('setter uses the value without refusing a deletion first', text(n), st[1]))
                            checked = False
                        break
        if not writes:
            out.append(('setter does not write the declared member', 'wanted %s' % (fn or k.name), f[1]))
        elif not any(w[3] for w in writes):
            out.append(('setter stores something else than the given value', text(writes[0][0]), writes[0][1][1]))
        return out
