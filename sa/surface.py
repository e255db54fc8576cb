"""The Python-visible surface of one emitted unit, read off its tables and initialisation functions.

Tables are read positionally against the documented layout of the CPython structs; initialisation functions are read as the
sequence of registrations they perform."""
import re
import pyformats as pf
from cmini import strip, text, walk

TYPE_SLOTS = ['ob', 'tp_name', 'tp_basicsize', 'tp_itemsize', 'tp_dealloc', 'tp_vectorcall_offset', 'tp_getattr', 'tp_setattr', 'tp_as_async',
              'tp_repr', 'tp_as_number', 'tp_as_sequence', 'tp_as_mapping', 'tp_hash', 'tp_call', 'tp_str', 'tp_getattro', 'tp_setattro',
              'tp_as_buffer', 'tp_flags', 'tp_doc', 'tp_traverse', 'tp_clear', 'tp_richcompare', 'tp_weaklistoffset', 'tp_iter',
              'tp_iternext', 'tp_methods', 'tp_members', 'tp_getset', 'tp_base', 'tp_dict', 'tp_descr_get', 'tp_descr_set',
              'tp_dictoffset', 'tp_init', 'tp_alloc', 'tp_new', 'tp_free', 'tp_is_gc', 'tp_bases', 'tp_mro', 'tp_cache', 'tp_subclasses',
              'tp_weaklist', 'tp_del', 'tp_version_tag', 'tp_finalize', 'tp_vectorcall']
NB = ['nb_add', 'nb_subtract', 'nb_multiply', 'nb_remainder', 'nb_divmod', 'nb_power', 'nb_negative', 'nb_positive', 'nb_absolute',
      'nb_bool', 'nb_invert', 'nb_lshift', 'nb_rshift', 'nb_and', 'nb_xor', 'nb_or', 'nb_int', 'nb_reserved', 'nb_float', 'nb_inplace_add',
      'nb_inplace_subtract', 'nb_inplace_multiply', 'nb_inplace_remainder', 'nb_inplace_power', 'nb_inplace_lshift', 'nb_inplace_rshift',
      'nb_inplace_and', 'nb_inplace_xor', 'nb_inplace_or', 'nb_floor_divide', 'nb_true_divide', 'nb_inplace_floor_divide',
      'nb_inplace_true_divide', 'nb_index', 'nb_matrix_multiply', 'nb_inplace_matrix_multiply']
NB2 = ['nb_add', 'nb_subtract', 'nb_multiply', 'nb_divide', 'nb_remainder', 'nb_divmod', 'nb_power', 'nb_negative', 'nb_positive',
       'nb_absolute', 'nb_nonzero', 'nb_invert', 'nb_lshift', 'nb_rshift', 'nb_and', 'nb_xor', 'nb_or', 'nb_coerce', 'nb_int', 'nb_long',
       'nb_float', 'nb_oct', 'nb_hex', 'nb_inplace_add', 'nb_inplace_subtract', 'nb_inplace_multiply', 'nb_inplace_divide',
       'nb_inplace_remainder', 'nb_inplace_power', 'nb_inplace_lshift', 'nb_inplace_rshift', 'nb_inplace_and', 'nb_inplace_xor',
       'nb_inplace_or', 'nb_floor_divide', 'nb_true_divide', 'nb_inplace_floor_divide', 'nb_inplace_true_divide', 'nb_index']
SQ = ['sq_length', 'sq_concat', 'sq_repeat', 'sq_item', 'sq_slice', 'sq_ass_item', 'sq_ass_slice', 'sq_contains', 'sq_inplace_concat',
      'sq_inplace_repeat']
MP = ['mp_length', 'mp_subscript', 'mp_ass_subscript']
# C type of each slot: (result, number of arguments)
UNARY, BINARY, TERNARY = ('PyObject*', 1), ('PyObject*', 2), ('PyObject*', 3)
SIG = {'tp_dealloc': ('void', 1), 'tp_repr': UNARY, 'tp_str': UNARY, 'tp_hash': ('Py_hash_t', 1), 'tp_call': TERNARY, 'tp_getattro': BINARY,
       'tp_setattro': ('int', 3), 'tp_traverse': ('int', 3), 'tp_clear': ('int', 1), 'tp_richcompare': TERNARY, 'tp_iter': UNARY,
       'tp_iternext': UNARY, 'tp_init': ('int', 3), 'tp_descr_get': TERNARY, 'tp_descr_set': ('int', 3), 'tp_new': TERNARY,
       'tp_compare': ('int', 2), 'tp_alloc': ('PyObject*', 2), 'tp_free': ('void', 1),
       'sq_length': ('Py_ssize_t', 1), 'sq_concat': BINARY, 'sq_repeat': BINARY, 'sq_item': BINARY, 'sq_slice': TERNARY,
       'sq_ass_item': ('int', 3), 'sq_ass_slice': ('int', 4), 'sq_contains': ('int', 2), 'sq_inplace_concat': BINARY,
       'sq_inplace_repeat': BINARY, 'mp_length': ('Py_ssize_t', 1), 'mp_subscript': BINARY, 'mp_ass_subscript': ('int', 3),
       'nb_power': TERNARY, 'nb_inplace_power': TERNARY, 'nb_bool': ('int', 1), 'nb_nonzero': ('int', 1), 'nb_coerce': ('int', 2)}
for _n in set(NB + NB2):
    if _n not in SIG:
        SIG[_n] = UNARY if _n in ('nb_negative', 'nb_positive', 'nb_absolute', 'nb_invert', 'nb_int', 'nb_long', 'nb_float', 'nb_oct', 'nb_hex',
                                  'nb_index') else BINARY
LAYOUT = {'PyTypeObject': TYPE_SLOTS, 'PySequenceMethods': SQ, 'PyMappingMethods': MP}


def is_null(e):
    e = strip(e)
    return e is None or e[0] == 'id' and e[2] in ('NULL', 'nullptr') or e[0] == 'num' and e[2] == '0'


def ident(e):
    """name an expression denotes (through casts, & and parentheses)"""
    e = strip(e)
    while e is not None and e[0] == 'un' and e[2] == '&':
        e = strip(e[3])
    return e[2] if e is not None and e[0] == 'id' else None


def lit(e):
    e = strip(e)
    return e[2] if e is not None and e[0] == 'str' else None


def unsplit(x):
    return x


class Table:
    def __init__(self, kind, name, line, init, slots=None):
        self.kind, self.name, self.line, self.init, self.slots = kind, name, line, init, slots


class Surface:
    def __init__(self, p, cfg):
        self.p, self.cfg = p, cfg
        self.tables = {}
        self.funcs = {}
        self.dups = []
        for _, f in p.funcs:
            self.funcs.setdefault(f[2], f)
        self.inits = {}
        self._collect(p.items)
        self._calls = {}

    def _collect(self, items):
        for it in items:
            if it[0] == 'ns':
                self._collect(it[3])
            elif it[0] == 'var':
                head = it[2]
                ids = [t.v for t in head if t.k == 'id']
                kind = next((x for x in ids if x in ('PyMethodDef', 'PyGetSetDef', 'PyTypeObject', 'PyNumberMethods', 'PySequenceMethods',
                                                     'PyMappingMethods', 'PyModuleDef')), None)
                if kind is None:
                    continue
                names = [x for x in ids if x not in ('static', 'const', 'extern', 'struct', kind)]
                if not names:
                    continue
                nm = names[0]
                e = strip(it[3])
                vals = list(e[2]) if e and e[0] == 'init' else None
                if vals is None:
                    continue
                slots = None
                lay = LAYOUT.get(kind)
                if kind == 'PyNumberMethods':
                    lay = NB if self.cfg == 'py3' else NB2
                if kind == 'PyTypeObject':
                    vals = self._head(vals)
                if lay:
                    slots = {k: v for k, v in zip(lay, vals)}
                if nm in self.tables:
                    self.dups.append((nm, it[1]))
                self.tables[nm] = Table(kind, nm, it[1], vals, slots)

    @staticmethod
    def _head(vals):
        return vals

    def of(self, kind):
        return [t for t in self.tables.values() if t.kind == kind]

    # ------------------------------------------------------------ tables
    def methods(self, name):
        """rows of a PyMethodDef table: [(python name, C function, flags, line)]"""
        t = self.tables.get(name)
        if t is None or t.kind != 'PyMethodDef':
            return None
        out = []
        for r in t.init:
            r = strip(r)
            if r[0] != 'init' or not r[2] or is_null(r[2][0]):
                continue
            v = r[2]
            flags = set(re.findall(r'METH_\w+', text(v[2]))) if len(v) > 2 else set()
            out.append((lit(v[0]), ident(v[1]) if len(v) > 1 else None, flags, r[1], lit(v[3]) if len(v) > 3 else None))
        return out

    def getsets(self, name):
        t = self.tables.get(name)
        if t is None or t.kind != 'PyGetSetDef':
            return None
        out = []
        for r in t.init:
            r = strip(r)
            if r[0] != 'init' or not r[2] or is_null(r[2][0]):
                continue
            v = r[2]
            g = None if is_null(v[1]) else ident(v[1])
            s = None if len(v) < 3 or is_null(v[2]) else ident(v[2])
            out.append((lit(v[0]), g, s, r[1]))
        return out

    def terminated(self, name):
        t = self.tables[name]
        if not t.init:
            return False
        r = strip(t.init[-1])
        return r[0] == 'init' and r[2] and all(is_null(x) for x in r[2])

    def slot(self, typename, slot):
        """name of the function or table in a slot of a type, or None"""
        t = self.tables.get(typename)
        if t is None or t.slots is None:
            return None
        e = t.slots.get(slot)
        if e is None or is_null(e):
            return None
        return ident(e) or text(strip(e))

    # ------------------------------------------------------------ code
    def calls(self, fname):
        """everything a function calls directly: set of ('call', qualified name) / ('new', type) / ('meth', name)"""
        if fname in self._calls:
            return self._calls[fname]
        out = set()
        f = self.funcs.get(fname)
        if f is not None:
            for n in walk(f[6]):
                if n[0] == 'call':
                    fn = strip(n[2])
                    if fn[0] == 'id':
                        out.add(('call', fn[2]))
                    elif fn[0] == 'member':
                        out.add(('meth', fn[4]))
                elif n[0] == 'new':
                    out.add(('new', n[2]))
        self._calls[fname] = out
        return out

    def reach(self, fname):
        """emitted functions reachable from fname, and all the calls they make"""
        seen, todo, out = set(), [fname], set()
        while todo:
            x = todo.pop()
            if x in seen or x not in self.funcs:
                continue
            seen.add(x)
            for c in self.calls(x):
                out.add(c)
                if c[0] == 'call':
                    todo.append(c[1])
        return seen, out

    # ------------------------------------------------------------ initialisation
    def init_funcs(self):
        """functions that create a module"""
        out = []
        for nm, f in self.funcs.items():
            if any(n[0] == 'call' and ident(n[2]) in ('PyModule_Create', 'Py_InitModule3', 'Py_InitModule') for n in walk(f[6])):
                out.append(f)
        return out

    def events(self, f):
        """[(line, what, ...)] in textual order:
        ('ready', type) ('add', name, target) ('dict', type, name, target) ('const', name, value) ('dconst', type, name, value)
        ('set', lvalue, value) ('newexc', target, qualified name, base, dict) ('call', function, result var) ('create', table or def)"""
        out = []
        alias = {}

        def rec(s):
            k = s[0]
            if k == 'block':
                for x in s[2]:
                    rec(x)
                return
            if k == 'if':
                ev(s[2])
                rec(s[3])
                if s[4] is not None:
                    rec(s[4])
                return
            if k in ('expr',):
                ev(s[2])
            elif k == 'decl':
                for nm, base, ptr, arr, init, ctor in s[2]:
                    if init is not None:
                        ev(('assign', s[1], '=', ('id', s[1], nm), init))
            elif k == 'return':
                if s[2] is not None:
                    ev(s[2])
                    out.append((s[1], 'return', text(strip(s[2]))))
            elif k in ('while', 'for', 'do'):
                for x in s[2:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        (rec if x[0] in ('block', 'expr', 'if', 'decl') else ev)(x)

        def ev(e):
            if not isinstance(e, tuple) or not e:
                return
            if e[0] == 'assign':
                ev(e[4])
                l = strip(e[3])
                out.append((e[1], 'set', text(l), e[4]))
                return
            for x in e[2:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    ev(x)
                elif isinstance(x, (tuple, list)):
                    for y in x:
                        if isinstance(y, tuple):
                            ev(y)
            if e[0] != 'call':
                return
            fn = strip(e[2])
            a = e[3]
            n = fn[2] if fn[0] == 'id' else None
            if n == 'PyType_Ready':
                out.append((e[1], 'ready', ident(a[0])))
            elif n == 'PyModule_AddObject':
                out.append((e[1], 'add', text(strip(a[0])), lit(a[1]), a[2]))
            elif n == 'PyModule_AddIntConstant':
                out.append((e[1], 'const', text(strip(a[0])), lit(a[1]), a[2]))
            elif n in ('PyDict_SetItemString',):
                out.append((e[1], 'dict', text(strip(a[0])), lit(a[1]), a[2]))
            elif n in ('PyModule_Create', 'Py_InitModule3', 'Py_InitModule'):
                out.append((e[1], 'create', e))
            elif n == 'PyErr_NewException':
                out.append((e[1], 'newexc', lit(a[0]), a[1], a[2]))
            elif n is not None and n in self.funcs:
                out.append((e[1], 'call', n))
            else:
                out.append((e[1], 'other', e))
        rec(f[6])
        return out


def used_params(f, k):
    """parameters after the first k that the body mentions (arguments no caller through the table passes)"""
    names = {n[2] for n in walk(f[6]) if n[0] == 'id'}
    return [nm for _, nm in f[4][k:] if nm in names]


def layout_problems(S):
    """[(line, what, msg)]: every table is terminated and every slot is filled with a function of the slot's C type"""
    out = []
    n = 0
    for t in S.tables.values():
        if t.kind in ('PyMethodDef', 'PyGetSetDef'):
            n += 1
            if not S.terminated(t.name):
                out.append((t.line, t.name, 'the table is not terminated by an all-NULL entry'))
        if t.kind == 'PyMethodDef':
            for nm, fn, flags, ln, doc in S.methods(t.name):
                n += 1
                f = S.funcs.get(fn)
                if f is None:
                    continue
                want = 1 if not flags - {'METH_STATIC', 'METH_CLASS', 'METH_COEXIST'} else 3 if 'METH_KEYWORDS' in flags else 2
                got = len(f[4])
                if not flags & {'METH_VARARGS', 'METH_KEYWORDS', 'METH_NOARGS', 'METH_O'}:
                    out.append((ln, nm, 'method table entry without a calling convention: %s' % sorted(flags)))
                elif got > want and used_params(f, want):
                    out.append((ln, nm, 'called with %d arguments by its flags %s, but %s uses %s' % (want, sorted(flags), fn, ', '.join(used_params(f, want)))))
                if pf.norm_type(f[3].replace('static', '').replace('inline', '')).replace(' ', '') not in ('PyObject*',):
                    out.append((ln, nm, 'the function %s does not return a PyObject*' % fn))
                if 'METH_KEYWORDS' in flags and 'METH_VARARGS' not in flags:
                    out.append((ln, nm, 'METH_KEYWORDS without METH_VARARGS'))
            names = [r[0] for r in S.methods(t.name)]
            for x in sorted({x for x in names if names.count(x) > 1}, key=str):
                out.append((t.line, x, 'two entries of the method table %s have the name %s' % (t.name, x)))
        if t.kind == 'PyGetSetDef':
            for nm, g, s, ln in S.getsets(t.name):
                n += 1
                for fn, k, ret in ((g, 2, 'PyObject*'), (s, 3, 'int')):
                    f = S.funcs.get(fn)
                    if f is not None and (len(f[4]) > k and used_params(f, k) or pf.norm_type(f[3].replace('static', '')).replace(' ', '') != ret):
                        out.append((ln, nm, 'the accessor %s does not have the C type of its slot' % fn))
        if t.slots:
            for sl, e in t.slots.items():
                sig = SIG.get(sl)
                if sig is None or is_null(e):
                    continue
                f = S.funcs.get(ident(e))
                if f is None:
                    continue
                n += 1
                if len(f[4]) > sig[1] and used_params(f, sig[1]):
                    out.append((t.line, sl, 'slot %s of %s holds %s, which uses arguments the slot is not called with: %s' % (
                        sl, t.name, f[2], ', '.join(used_params(f, sig[1])))))
                ret = pf.norm_type(f[3].replace('static', '').replace('inline', '')).replace(' ', '')
                ok = ret == sig[0] or sig[0] == 'PyObject*' and ret.endswith('*') or sig[0] in ('Py_hash_t', 'Py_ssize_t') and ret in ('long', 'Py_ssize_t', 'Py_hash_t')
                if not ok and sl != 'tp_clear':
                    out.append((t.line, sl, 'slot %s of %s holds %s, which returns %s instead of %s' % (sl, t.name, f[2], ret, sig[0])))
    return out, n
