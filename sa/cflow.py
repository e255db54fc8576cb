"""Path-sensitive typestate analysis of one emitted C/C++ function.

Domain per path: variable -> {uninit, null, obj#k, int n, top}; obj#k -> number of references the function owns;
GIL held / released, PyGILState_Ensure nesting, Python error indicator {clear, set, maybe}, truth of pure conditions.
States that agree are merged; loops are unrolled twice (the state space of the emitted loops is finite and small).
"""
import re
import cmini
import pyformats as pf
from cmini import strip, text, walk

NEW = {'PyObject_New', 'PyObject_GC_New', 'Py_BuildValue', 'PyObject_CallMethod', 'PyObject_CallObject', 'PyObject_Call',
       'PyObject_CallFunction', 'PyObject_CallFunctionObjArgs', 'PyObject_CallMethodObjArgs', 'PyObject_GetAttrString',
       'PyObject_GetAttr', 'PyObject_Str', 'PyObject_Repr', 'PyUnicode_FromString', 'PyUnicode_FromStringAndSize',
       'PyUnicode_FromFormat', 'PyString_FromString', 'PyString_FromStringAndSize', 'PyBytes_FromString',
       'PyBytes_FromStringAndSize', 'PyLong_FromLong', 'PyLong_FromUnsignedLong', 'PyLong_FromLongLong',
       'PyLong_FromUnsignedLongLong', 'PyLong_FromSize_t', 'PyLong_FromSsize_t', 'PyLong_FromDouble', 'PyInt_FromLong',
       'PyBool_FromLong', 'PyFloat_FromDouble', 'PyList_New', 'PyTuple_New', 'PyTuple_Pack', 'PyDict_New', 'PySet_New',
       'PyCapsule_New', 'PyCObject_FromVoidPtr', 'PyErr_NewException', 'PyModule_Create', 'PyObject_GetIter', 'PyIter_Next',
       'PyObject_GetItem', 'PySequence_GetItem', 'PySequence_Fast', 'PySequence_Tuple', 'PySequence_List',
       'PyImport_ImportModule', 'PyNumber_Add', 'PyNumber_Long', 'PyNumber_Float', 'PyObject_CallNoArgs', 'PyErr_GetRaisedException',
       'PyType_GenericNew', 'PyObject_RichCompare', 'Py_NewRef', 'Py_XNewRef', 'PyDict_Copy', 'PyObject_Dir', 'PyType_GenericAlloc'}
BORROWED = {'PyTuple_GET_ITEM', 'PyTuple_GetItem', 'PyList_GET_ITEM', 'PyList_GetItem', 'PyDict_GetItemString', 'PyDict_GetItem',
            'PyErr_Occurred', 'PyImport_AddModule', 'PyModule_GetDict', 'Py_InitModule3', 'Py_InitModule', 'PySys_GetObject',
            'PyEval_GetBuiltins', 'PySequence_Fast_GET_ITEM'}
STEALS = {'PyTuple_SET_ITEM': 2, 'PyTuple_SetItem': 2, 'PyList_SET_ITEM': 2, 'PyList_SetItem': 2, 'PyModule_AddObject': 2}
NO_GIL_NEEDED = {'Py_TYPE', 'PyEval_RestoreThread', 'PyGILState_Ensure', 'PyEval_ThreadsInitialized', 'PyMem_RawFree', 'PyMem_RawMalloc',
                 'PyGILState_Check', 'Py_FatalError', 'PyGILState_Release', 'Py_IsInitialized'}
PURE = {'Py_TYPE', 'Py_IsInitialized', 'Py_REFCNT', 'PyEval_ThreadsInitialized', 'PyObject_IsInstance', 'PyLong_Check', 'PyInt_Check', 'PyFloat_Check',
        'PyString_Check', 'PyUnicode_Check', 'PyList_Check', 'PyTuple_Check', 'PyObject_TypeCheck', 'PyBool_Check', 'PyDict_Check',
        'PyErr_Occurred', 'PyCapsule_CheckExact'}
ALLOC = {'PyList_New', 'PyTuple_New', 'PyDict_New', 'PySet_New'}   # fail only for lack of memory
SET_ERR = {'PyErr_SetString', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_Format', 'PyErr_NoMemory', 'PyErr_BadArgument',
           'PyErr_BadInternalCall', 'PyErr_Restore', 'PyErr_SetFromErrno'}
FAIL_ZERO = {'PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords', 'PyArg_Parse', 'PyArg_UnpackTuple', 'PyArg_VaParse'}
API = re.compile(r'^_?Py[A-Z][A-Za-z]*_\w+$|^Py_\w+$')
API_NOT = re.compile(r'_wrap_|__tp_|^Py_ssize_t$|^Py_UNICODE$')


def is_api(name):
    return bool(API.match(name)) and not API_NOT.search(name)


class St:
    __slots__ = ('v', 'o', 'gil', 'ens', 'err', 'facts', 'trace', 'nid', 'thr', 'mem', 'marks')

    def __init__(self):
        self.v, self.o, self.gil, self.ens, self.err, self.facts, self.trace = {}, {}, True, 0, 'clear', {}, ()
        self.nid = 0
        self.thr = None
        self.mem = {}
        self.marks = {}

    def copy(self):
        s = St()
        s.v = dict(self.v)
        s.o = {k: list(x) for k, x in self.o.items()}
        s.gil, s.ens, s.err, s.nid, s.thr = self.gil, self.ens, self.err, self.nid, self.thr
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.mem = dict(self.mem)
        s.marks = dict(self.marks)
        return s

    def key(self):
        return (frozenset(self.v.items()), frozenset((k, tuple(x[:2]), x[3], x[5]) for k, x in self.o.items()), self.gil, self.ens,
                self.err, frozenset(self.facts.items()), frozenset(self.mem.items()), frozenset(self.marks.items()))

    def new(self, rc, desc, line, maybe, pend=False):
        """pend: when the pointer turns out to be NULL, an exception was set where it was computed"""
        self.nid += 1
        k = self.nid
        self.o[k] = [rc, maybe, desc, rc > 0, line, pend]
        return ('obj', k)


TOP, NULL, UNINIT = ('top',), ('null',), ('uninit',)


class Limits(Exception):
    pass


class Flow:
    """Analyse one function.  `unit` gives: pystructs (set of struct names), newfuncs (emitted functions returning a new
    reference), consuming (text of variables whose reference the wrapped C call takes over)."""

    def __init__(self, func, pystructs=(), newfuncs=(), consuming=(), members=None, hooks=None, max_states=3000, entry_gil=True,
                 borrow_ok=(), globals_=None, byref=(), retrefs=None, owned_params=(), err_kind=None, null_ok=False):
        self.func = func
        self.name = func[2]
        self.ret = func[3]
        self.pystructs = set(pystructs) | {'PyObject', 'PyTypeObject'}
        self.newfuncs = set(newfuncs)
        self.consuming = set(consuming)
        self.reports = []
        self._seen = set()
        self.exits = []
        self.types = {}
        self.max_states = max_states
        self.nstates = 0
        self.hooks = hooks or {}
        self.throw_stack = []
        self.entry_gil = entry_gil
        self.borrow_ok = set(borrow_ok)
        self.calls_seen = 0
        self.globals_ = globals_ or {}
        self.byref = set(byref)
        self.retrefs = retrefs or {}
        self.owned_params = set(owned_params)
        self.tracked = 0
        self.err_kind, self.null_ok = err_kind, null_ok
        self.void = pf.norm_type(self.ret).split()[-1:] == ['void'] or not self.ret.strip()
        self.has_slot = any('**' in pf.norm_type(t) for t, _ in func[4])

    # ------------------------------------------------------------ reporting
    def rep(self, rule, line, what, msg, st=None):
        k = (rule, what, msg)
        if k in self._seen:
            return
        self._seen.add(k)
        self.reports.append({'rule': rule, 'line': line, 'what': what, 'msg': msg, 'func': self.name,
                             'path': list(st.trace) if st is not None else []})

    def is_py(self, ty):
        t = pf.norm_type(ty)
        return t.endswith('*') and not t.endswith('**') and t[:-1] in self.pystructs

    # ------------------------------------------------------------ run
    def run(self):
        st = St()
        st.gil = self.entry_gil
        for ty, nm in self.func[4]:
            if nm is None:
                continue
            self.types[nm] = ty
            if self.is_py(ty):
                st.v[nm] = st.new(1 if nm in self.owned_params else 0, 'parameter ' + nm, self.func[1],
                                  nm not in ('self', 'py_self', 'args', 'arg', 'value') and nm not in self.owned_params)
            else:
                st.v[nm] = TOP
        outs = self.stmt(self.func[6], [st])
        for s in outs['next']:
            self.exit(s, None, self.func[6][1], 'end')
        for s, val, line in outs['return']:
            self.exit(s, val, line, 'return')
        return self

    def exit(self, st, val, line, how):
        st = st.copy()
        vid = None
        if val is not None and val[0] == 'obj' and val[1] in st.o:
            o = st.o[val[1]]
            if self.is_py(self.ret) and 'PyTypeObject' not in self.ret:
                vid = val[1]
                if o[0] <= 0 and how == 'return':
                    if o[2] not in self.borrow_ok:
                        self.rep('return-borrowed', line, o[2], 'returns a reference it does not own (%s)' % o[2], st)
                o[0] -= 1
        for k, o in st.o.items():
            if o[0] > 0:
                self.rep('leak', line, o[2], 'path to exit still owns %d reference(s) to %s (from line %d)' % (o[0], o[2], o[4]), st)
        if st.gil != self.entry_gil and not st.ens:
            self.rep('gil-exit', line, '', 'exits with the interpreter lock %s' % ('held' if st.gil else 'released'), st)
        if st.ens:
            self.rep('gil-ensure', line, '', 'exits without PyGILState_Release', st)
        if how == 'return' or self.void:
            self.err_exit(st, val, line)
        self.exits.append({'line': line, 'val': val, 'st': st, 'how': how, 'vid': vid})
        h = self.hooks.get('exit')
        if h:
            h(self, st, val, line, how)

    def clear(self, st):
        st.err = 'clear'
        for o in st.o.values():
            o[5] = False

    def err_exit(self, st, val, line):
        """the error indicator agrees with what the function reports"""
        kind = self.err_kind
        if kind is None:
            return
        if kind == 'quiet':
            if st.err == 'set':
                self.rep('err-stale', line, '', 'exits to C++ with a Python exception left set', st)
            return
        if val is None or self.has_slot:
            if val is None or any(k.startswith('*') and v not in (None, NULL) for k, v in st.mem.items()):
                return
        if kind == 'ptr':
            failed = val[0] == 'null' or val == ('int', 0)
            ok = val[0] in ('obj', 'str', 'newobj')
        elif kind == 'minus1':
            failed = val[0] == 'int' and val[1] == -1
            ok = val[0] == 'int' and val[1] != -1
        else:      # 'conv'
            failed = val == ('int', 0)
            ok = val[0] == 'int' and val[1] != 0
        if failed and st.err == 'clear' and not self.null_ok:
            self.rep('err-missing', line, '', 'reports failure without setting a Python exception', st)
        if ok and st.err == 'set':
            self.rep('err-stale', line, '', 'reports success with a Python exception set', st)

    # ------------------------------------------------------------ statements
    def dedupe(self, sts):
        out, seen = [], set()
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        self.nstates += len(out)
        if self.nstates > self.max_states * 40 or len(out) > self.max_states:
            raise Limits('state budget in %s' % self.name)
        return out

    def none(self):
        return {'next': [], 'return': [], 'break': [], 'continue': []}

    def merge(self, a, b, keep_next=True):
        for k in ('return', 'break', 'continue'):
            a[k].extend(b[k])
        if keep_next:
            a['next'].extend(b['next'])
        return a

    def stmt(self, s, sts):
        k = s[0]
        out = self.none()
        if k == 'block':
            cur = sts
            shadow = {}
            for x in s[2]:
                if not cur:
                    break
                r = self.stmt(x, cur)
                self.merge(out, r, False)
                cur = self.dedupe(r['next'])
            out['next'] = cur
            return out
        if k == 'empty' or k == 'label' or k == 'case':
            out['next'] = sts
            return out
        if k == 'decl':
            cur = sts
            for nm, base, ptr, arr, init, ctor in s[2]:
                ty = base + ' ' + ptr
                self.types[nm] = ty
                nxt = []
                for st in cur:
                    if init is not None:
                        if init[0] == 'init':
                            for vs, s2 in self.evals(init[2], st):
                                s2 = s2.copy()
                                s2.v[nm] = TOP
                                if arr and self.is_py(ty) and vs and vs[-1] in (NULL, ('int', 0)):
                                    s2.mem[nm + '[*]'] = NULL
                                nxt.append(s2)
                            continue
                        for v, s2 in self.ev(init, st):
                            s2 = self.setvar(s2, nm, v, s[1])
                            nxt.append(s2)
                    elif ctor is not None:
                        for v, s2 in self.evals(ctor, st):
                            s2.v[nm] = TOP
                            nxt.append(s2)
                    else:
                        st = st.copy()
                        t = pf.norm_type(ty)
                        scalar = t.endswith('*') or t in pf.INT_TYPES or t in ('float', 'double', 'bool')
                        st.v[nm] = UNINIT if scalar and not arr else TOP
                        if arr and self.is_py(ty):
                            st.mem[nm + '[*]'] = UNINIT
                        self.kill(st, nm)
                        nxt.append(st)
                cur = self.dedupe(nxt)
            out['next'] = cur
            return out
        if k == 'expr':
            nxt = []
            for st in sts:
                for v, s2 in self.ev(s[2], st):
                    if v is not None and v[0] == 'noreturn':
                        continue
                    nxt.append(s2)
            out['next'] = self.dedupe(nxt)
            return out
        if k == 'return':
            for st in sts:
                if s[2] is None:
                    out['return'].append((st, None, s[1]))
                else:
                    for v, s2 in self.ev(s[2], st):
                        out['return'].append((s2, v, s[1]))
            return out
        if k == 'if':
            ts, fs = [], []
            for st in sts:
                for b, s2 in self.cond(s[2], st):
                    s2.trace = s2.trace + ((s[1], b),)
                    (ts if b else fs).append(s2)
            if ts:
                self.merge(out, self.stmt(s[3], self.dedupe(ts)))
            if fs:
                if s[4] is not None:
                    self.merge(out, self.stmt(s[4], self.dedupe(fs)))
                else:
                    out['next'].extend(fs)
            out['next'] = self.dedupe(out['next'])
            return out
        if k in ('while', 'for', 'do'):
            if k == 'while':
                cond, body, step, cur = s[2], s[3], None, sts
            elif k == 'do':
                cond, body, step, cur = s[3], s[2], None, sts
            else:
                cur = sts
                if s[2] is not None:
                    r = self.stmt(s[2], sts)
                    cur = r['next']
                cond, step, body = s[3], s[4], s[5]
            first = k == 'do'
            done = []
            for it in range(3):
                ent = []
                for st in cur:
                    if cond is None or first:
                        ent.append(st)
                        continue
                    # a loop condition may differ between iterations: forget facts about it
                    st = st.copy()
                    st.facts = {f: b for f, b in st.facts.items() if not self._mentions_call(f)}
                    for b, s2 in self.cond(cond, st):
                        (ent if b else done).append(s2)
                first = False
                if not ent:
                    cur = []
                    break
                r = self.stmt(body, self.dedupe(ent))
                out['return'].extend(r['return'])
                done.extend(r['break'])
                cur = r['next'] + r['continue']
                if step is not None:
                    nx = []
                    for st in cur:
                        nx.extend(s2 for _, s2 in self.ev(step, st))
                    cur = nx
                cur = self.dedupe(cur)
            if cond is not None:
                done.extend(cur)
            out['next'] = self.dedupe(done)
            return out
        if k == 'break' or k == 'continue':
            out[k] = list(sts)
            return out
        if k == 'switch':
            nxt = []
            for st in sts:
                nxt.extend(s2 for _, s2 in self.ev(s[2], st))
            body = s[3]
            groups = []
            if body[0] == 'block':
                cur = None
                has_default = False
                for x in body[2]:
                    if x[0] == 'case':
                        if x[2] is None:
                            has_default = True
                        groups.append([])
                    elif groups:
                        for g in groups:
                            g.append(x)
                for g in groups:
                    r = self.stmt(('block', s[1], g), [t.copy() for t in nxt])
                    out['return'].extend(r['return'])
                    out['continue'].extend(r['continue'])
                    out['next'].extend(r['next'] + r['break'])
                if not has_default:
                    out['next'].extend(nxt)
            out['next'] = self.dedupe(out['next'])
            return out
        if k == 'try':
            self.throw_stack.append([])
            r = self.stmt(s[2], sts)
            thrown = self.throw_stack.pop()
            self.merge(out, r)
            for cl, decl, body in s[3]:
                snaps = []
                for st in thrown:
                    st = st.copy()
                    st.trace = st.trace + ((cl, 'catch'),)
                    if decl and decl[-1].k == 'id':
                        st.v[decl[-1].v] = TOP
                    snaps.append(st)
                if snaps:
                    self.merge(out, self.stmt(body, self.dedupe(snaps)))
            out['next'] = self.dedupe(out['next'])
            return out
        if k == 'goto':
            raise Limits('goto')
        raise Limits('statement %s' % k)

    def _mentions_call(self, f):
        return '(' in f

    # ------------------------------------------------------------ variables
    def kill(self, st, nm):
        pat = re.compile(r'(?<![\w.>])%s(?!\w)' % re.escape(nm))
        for f in [f for f in st.facts if pat.search(f)]:
            del st.facts[f]

    def setvar(self, st, nm, v, line):
        st = st.copy()
        self.kill(st, nm)
        ty = self.types.get(nm, '')
        if v[0] == 'top' and False:
            pass
        st.v[nm] = v
        return st

    def use(self, st, nm, line):
        v = st.v.get(nm)
        if v is None:
            return TOP
        if v == UNINIT:
            self.rep('uninit', line, nm, 'variable %s may be used before it is given a value' % nm, st)
            return TOP
        return v

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        """-> list of (bool, state)"""
        e0 = e
        e = strip(e)
        k = e[0]
        if k == 'un' and e[2] == '!':
            return [(not b, s) for b, s in self.cond(e[3], st)]
        if k == 'bin' and e[2] in ('&&', '||'):
            out = []
            for b, s in self.cond(e[3], st):
                if (e[2] == '&&') == b:
                    out.extend(self.cond(e[4], s))
                else:
                    out.append((b, s))
            return out
        if k == 'assign' and e[2] == '=':
            out = []
            for v, s in self.ev(e, st):
                out.extend(self.truth(v, s, e[3] if e[3][0] == 'id' else None, text(e[3])))
            return out
        if k == 'bin' and e[2] in ('==', '!='):
            l, r = strip(e[3]), strip(e[4])
            if self.is_null(l):
                l, r = r, l
            if self.is_null(r):
                res = self.cond(l, st)
                return [((not b) if e[2] == '==' else b, s) for b, s in res]
        if k == 'bin' and e[2] in ('==', '!=', '<', '>', '<=', '>='):
            out = []
            for (a, b), s in self.evals2([e[3], e[4]], st):
                if a[0] == 'int' and b[0] == 'int':
                    r = {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1],
                         '>=': a[1] >= b[1]}[e[2]]
                    out.append((r, s))
                else:
                    out.extend(self.fact(self.ctext(e), s))
            return out
        if k == 'num':
            return [(e[2] not in ('0',), st)]
        out = []
        for v, s in self.ev(e, st):
            out.extend(self.truth(v, s, e if e[0] == 'id' else None, self.ctext(e)))
        return out

    def ctext(self, e):
        return text(e)

    def is_null(self, e):
        return e[0] == 'id' and e[2] in ('NULL', 'nullptr') or (e[0] == 'num' and e[2] == '0')

    def truth(self, v, st, var, txt):
        if v[0] == 'null':
            return [(False, st)]
        if v[0] == 'int':
            return [(bool(v[1]), st)]
        if v[0] == 'fail0':
            a, b = v[1], v[2]
            if not isinstance(a, list):
                a = [a]
            return [(True, x) for x in a] + [(False, b)]
        if v[0] == 'obj':
            o = st.o.get(v[1])
            if o is None or not o[1]:
                return [(True, st)]
            t, f = st.copy(), st.copy()
            t.o[v[1]][1] = False
            pend = f.o[v[1]][5]
            del f.o[v[1]]
            for n in list(f.v):
                if f.v[n] == v:
                    f.v[n] = NULL
            for n in list(f.mem):
                if f.mem[n] == v:
                    f.mem[n] = NULL
            if pend:
                f.err = 'set' if pend is True or f.err == 'set' else 'maybe'
            return [(True, t), (False, f)]
        if v[0] in ('str', 'addr', 'newobj', 'thr', 'gst'):
            return [(True, st)]
        return self.fact(txt, st, var)

    def fact(self, txt, st, var=None):
        neg = False
        m = re.match(r'^\((.*) (==|!=) (.*)\)$', txt)
        if m and m.group(2) == '!=':
            txt = '(%s == %s)' % (m.group(1), m.group(3))
            neg = True
        if txt in st.facts:
            return [(st.facts[txt] != neg, st)]
        t, f = st.copy(), st.copy()
        t.facts[txt] = True
        f.facts[txt] = False
        if var is not None:
            if f.v.get(var[2]) == TOP and pf.norm_type(self.types.get(var[2], '')).endswith('*'):
                f.v[var[2]] = NULL
        if neg:
            return [(False, t), (True, f)]
        return [(True, t), (False, f)]

    # ------------------------------------------------------------ expressions
    def evals(self, es, st):
        """evaluate a list, -> list of (vals, st)"""
        cur = [([], st)]
        for e in es:
            nx = []
            for vs, s in cur:
                for v, s2 in self.ev(e, s):
                    nx.append((vs + [v], s2))
            cur = nx
        return cur

    def evals2(self, es, st):
        return self.evals(es, st)

    def ev(self, e, st):
        k = e[0]
        if k in ('paren', 'cast', 'ccast'):
            inner = e[2] if k == 'paren' else e[3] if k == 'cast' else e[4]
            return self.ev(inner, st)
        if k == 'num':
            try:
                return [(('int', int(e[2].rstrip('uUlL'), 0)), st)]
            except ValueError:
                return [(TOP, st)]
        if k in ('str',):
            return [(('str', e[2]), st)]
        if k in ('chr', 'sizeof'):
            return [(TOP, st)]
        if k == 'id':
            n = e[2]
            if n in ('NULL', 'nullptr'):
                return [(NULL, st)]
            if n in ('true', 'True'):
                return [(('int', 1), st)]
            if n in ('false', 'False'):
                return [(('int', 0), st)]
            if n == 'Py_None' or n in ('Py_True', 'Py_False', 'Py_NotImplemented'):
                s = st
                if ('@' + n) not in s.v:
                    s = s.copy()
                    s.v['@' + n] = s.new(0, n, e[1], False)
                return [(s.v['@' + n], s)]
            if n in st.v:
                return [(self.use(st, n, e[1]), st)]
            return [(TOP, st)]
        if k == 'un':
            if e[2] == '&':
                x = strip(e[3])
                if x[0] == 'id':
                    return [(('addr', x[2]), st)]
                return [(('addr', text(x)), s) for _, s in self.ev_lv(x, st)]
            if e[2] == '!':
                return [(('int', int(b)), s) for b, s in self.cond(e, st)]
            if e[2] in ('++', '--'):
                return [(TOP, self.assign_lv(e[3], TOP, s, e[1])) for _, s in self.ev(e[3], st)]
            res = self.ev(e[3], st)
            if e[2] == '-':
                return [((('int', -v[1]) if v[0] == 'int' else TOP), s) for v, s in res]
            return [(TOP, s) for _, s in res]
        if k == 'post':
            return [(TOP, self.assign_lv(e[3], TOP, s, e[1])) for _, s in self.ev(e[3], st)]
        if k == 'bin':
            if e[2] in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                return [(('int', int(b)), s) for b, s in self.cond(e, st)]
            return [(TOP, s) for _, s in self.evals([e[3], e[4]], st)]
        if k == 'cond':
            out = []
            for b, s in self.cond(e[2], st):
                out.extend(self.ev(e[3] if b else e[4], s))
            return out
        if k == 'assign':
            out = []
            if e[2] != '=':
                for _, s in self.evals([e[3], e[4]], st):
                    out.append((TOP, self.assign_lv(e[3], TOP, s, e[1])))
                return out
            for v, s in self.ev(e[4], st):
                lv = strip(e[3])
                if lv[0] != 'id':
                    for _, s2 in self.ev_lv(lv, s):
                        out.append((v, self.assign_lv(e[3], v, s2, e[1])))
                else:
                    out.append((v, self.assign_lv(e[3], v, s, e[1])))
            return out
        if k == 'member':
            return [(self.member_val(e, v, s), s) for v, s in self.ev(e[2], st)]
        if k == 'index':
            return [(self.elem(e, s), s) for _, s in self.evals([x for x in (e[2], e[3]) if x is not None], st)]
        if k == 'comma':
            out = []
            for _, s in self.ev(e[2], st):
                out.extend(self.ev(e[3], s))
            return out
        if k == 'call':
            return self.call(e, st)
        if k == 'new':
            out = []
            for vs, s in self.evals(e[3], st):
                self.user_call(s, text(e), e[1])
                out.append((('newobj', e[2]), s))
            return out
        if k == 'delete':
            return [(TOP, s) for _, s in self.ev(e[2], st)]
        if k == 'init':
            return [(TOP, s) for _, s in self.evals(e[2], st)]
        if k == 'throw':
            return [(TOP, st)] if e[2] is None else [(TOP, s) for _, s in self.ev(e[2], st)]
        raise Limits('expression %s' % k)

    def elem(self, e, st):
        t = text(e)
        v = st.mem.get(t)
        if v is None:
            b = strip(e[2])
            if b[0] == 'id':
                v = st.mem.get(b[2] + '[*]')
        if v == UNINIT:
            self.rep('uninit', e[1], t, 'array element %s may be used before it is given a value' % t, st)
        return v if v is not None and v != UNINIT else TOP

    def member_val(self, e, v, st):
        return st.mem.get(text(e), TOP)

    def ev_lv(self, x, st):
        """evaluate the address computation of an lvalue"""
        x = strip(x)
        if x[0] == 'id':
            return [(TOP, st)]
        if x[0] == 'member':
            return self.ev(x[2], st)
        if x[0] == 'index':
            return [(TOP, s) for _, s in self.evals([x[2], x[3]], st)]
        if x[0] == 'un' and x[2] == '*':
            return self.ev(x[3], st)
        if x[0] == 'call':
            return self.ev(x, st)
        return [(TOP, st)]

    def assign_lv(self, lv, v, st, line):
        lv = strip(lv)
        if lv[0] == 'id':
            n = lv[2]
            if n in st.v or n in self.types:
                return self.setvar(st, n, v if v[0] != 'fail0' else TOP, line)
        st = st.copy()
        t = text(lv)
        for f in [f for f in st.facts if t in f]:
            del st.facts[f]
        if v[0] in ('null', 'int', 'newobj', 'addr'):
            st.mem[t] = v
        else:
            st.mem.pop(t, None)
        if v[0] == 'obj' and v[1] in st.o and not self.weak_store(t):
            o = st.o[v[1]]
            if o[0] > 0:
                o[0] -= 1
        h = self.hooks.get('store')
        if h:
            h(self, st, lv, v, line)
        return st

    def weak_store(self, t):
        return 'wrapper_registry' in t

    def user_call(self, st, txt, line):
        for ts in self.throw_stack[-1:]:
            s = st.copy()
            ts.append(s)

    # ------------------------------------------------------------ calls
    def call(self, e, st):
        fn = strip(e[2])
        name = fn[2] if fn[0] == 'id' else None
        line = e[1]
        self.calls_seen += 1
        pre = [st]
        if fn[0] == 'member':
            pre = [s for _, s in self.ev(fn[2], st)]
        elif fn[0] != 'id':
            pre = [s for _, s in self.ev(fn, st)]
        out = []
        # PyObject_New(T, &T_Type): first arg is a type name
        args = e[3]
        if name in ('PyObject_New', 'PyObject_GC_New', 'PyObject_NEW') and args:
            args = args[1:]
        if self.byref and (name is None or not is_api(name)):
            for a in args:
                a = strip(a)
                if a[0] == 'id' and a[2] in self.byref:
                    for s in pre:
                        if s.v.get(a[2]) == UNINIT:
                            s.v[a[2]] = TOP
        for p in pre:
            for vs, s in self.evals(args, p):
                out.extend(self.apply(e, fn, name, args, vs, s, line))
        return out

    def own(self, st, v, delta, line, what, xdec=False):
        """change the reference count the function owns on value v"""
        if v[0] != 'obj' or v[1] not in st.o:
            return st
        st = st.copy()
        o = st.o[v[1]]
        if delta < 0 and o[0] <= 0:
            if not o[2].startswith('@unknown'):
                self.rep('over-release', line, o[2], '%s releases a reference to %s that the function does not own' % (what, o[2]), st)
            return st
        o[0] += delta
        return st

    def apply(self, e, fn, name, args, vs, st, line):
        h = self.hooks.get('call')
        if h:
            h(self, st, e, name, args, vs, line)
        if name is not None and not st.gil and st.facts.get('PyEval_ThreadsInitialized()') is not False and (is_api(name) and name not in NO_GIL_NEEDED or name in self.newfuncs):
            self.rep('gil-api', line, name, '%s is called while the interpreter lock is released' % name, st)
        if vs and vs[-1][0] == 'addr' and '[' in vs[-1][1] and name is not None and (name in self.newfuncs or '_wrap' in name):
            return self.delegate(st, name, vs[-1][1], line)
        if name is None or not (is_api(name) or name in self.newfuncs):
            # wrapped C/C++ call (or a helper emitted elsewhere)
            s = st.copy()
            self.user_call(s, text(e), line)
            for a, v in zip(args, vs):
                if v[0] == 'addr' and v[1] in s.v:
                    s.v[v[1]] = s.v[v[1]] if s.v[v[1]][0] == 'obj' else TOP
                    self.kill(s, v[1])
                if v[0] == 'obj' and strip(a)[0] == 'id' and strip(a)[2] in self.consuming:
                    s = self.own(s, v, -1, line, 'wrapped call')
            # member state may change
            if name is None or not name.startswith('std::'):
                s.mem = {k: x for k, x in s.mem.items() if not ('->' in k and 'self' in k and False)}
            if name is not None and 'convert_py2c' in name:
                bad = s.copy()
                bad.err = 'set'
                return [(('fail0', [s], bad), s)]
            h2 = self.hooks.get('user')
            if h2:
                h2(self, s, e, name, line)
            if self.retrefs:
                last = (name if name is not None else fn[4] if fn[0] == 'member' else '').split('::')[-1]
                if last in self.retrefs:
                    return [(s.new(self.retrefs[last], 'the result of the wrapped call %s' % last, line, True), s)]
            return [(TOP, s)]
        if name in ('Py_INCREF', 'Py_XINCREF') and vs:
            return [(TOP, self.own(st, vs[0], +1, line, name))]
        if name in ('Py_DECREF', 'Py_XDECREF') and vs:
            return [(TOP, self.own(st, vs[0], -1, line, name))]
        if name == 'Py_CLEAR' and vs:
            s = self.own(st, vs[0], -1, line, name)
            return [(TOP, self.assign_lv(args[0], NULL, s, line))]
        if name in ('Py_RETURN_NONE', 'Py_RETURN_TRUE', 'Py_RETURN_FALSE'):
            s = st.copy()
            return [(s.new(1, name, line, False), s)]
        if name == 'PyEval_SaveThread':
            s = st.copy()
            if not s.gil:
                self.rep('gil-save', line, '', 'the interpreter lock is released twice', st)
            s.gil = False
            return [(('thr',), s)]
        if name == 'PyEval_RestoreThread':
            s = st.copy()
            if s.gil:
                self.rep('gil-restore', line, '', 'the interpreter lock is restored although it was not released', st)
            s.gil = True
            return [(TOP, s)]
        if name in ('Py_BEGIN_ALLOW_THREADS', 'Py_END_ALLOW_THREADS'):
            s = st.copy()
            s.gil = name.startswith('Py_END')
            return [(TOP, s)]
        if name == 'PyGILState_Ensure':
            s = st.copy()
            s.ens += 1
            s.gil = True
            return [(('gst',), s)]
        if name == 'PyGILState_Release':
            s = st.copy()
            if s.ens <= 0 and vs and vs[0] == ('gst',):
                self.rep('gil-release', line, '', 'PyGILState_Release without a matching PyGILState_Ensure', st)
            if s.ens > 0:
                s.ens -= 1
                if not s.ens:
                    s.gil = self.entry_gil
            return [(TOP, s)]
        if name in ('PyErr_ExceptionMatches', 'PyErr_Occurred'):
            if st.err == 'clear' and not any(o[5] for o in st.o.values()):
                return [(('int', 0) if name != 'PyErr_Occurred' else NULL, st)]
            a, b = st.copy(), st.copy()
            a.err = 'set'
            if name == 'PyErr_Occurred':
                self.clear(b)
            return [(('fail0', [a], b), st)]
        if name in SET_ERR:
            s = st.copy()
            s.err = 'set'
            return [(TOP, s)]
        if name in ('PyErr_Clear', 'PyErr_Print', 'PyErr_WriteUnraisable'):
            s = st.copy()
            self.clear(s)
            return [(TOP, s)]
        if name == 'PyErr_Fetch':
            s = st.copy()
            for a, v in zip(args, vs):
                if v[0] == 'addr' and v[1] in s.v:
                    s.v[v[1]] = s.new(1, 'exception state ' + v[1], line, True)
                elif strip(a)[0] == 'id' and '**' in pf.norm_type(self.types.get(strip(a)[2], '')):
                    s.mem['*' + strip(a)[2]] = TOP
            self.clear(s)
            return [(TOP, s)]
        if name == 'Py_FatalError':
            return [(('noreturn',), st)]
        if name in STEALS and len(vs) > STEALS[name]:
            s = st
            v = vs[STEALS[name]]
            if v[0] == 'obj' and v[1] in s.o:
                s = s.copy()
                o = s.o[v[1]]
                if o[0] > 0:
                    o[0] -= 1
                else:
                    self.rep('steal-borrowed', line, o[2], '%s takes over a reference to %s that the function does not own'
                             % (name, o[2]), st)
            return [(TOP, s)]
        if name in FAIL_ZERO:
            return self.parse_call(e, name, args, vs, st, line)
        if name in ('Py_BuildValue', 'PyObject_CallMethod', 'PyObject_CallFunction'):
            st = self.build_call(e, name, args, vs, st, line)
        if name in NEW or name in self.newfuncs or name == 'PyObject_NEW':
            s = st.copy()
            self.tracked += 1
            alloc = name in ('PyObject_New', 'PyObject_GC_New', 'PyObject_NEW')
            v = s.new(1, 'the result of %s' % name, line, True, 'maybe' if alloc or name in ALLOC else True)
            s.err = s.err if alloc else s.err
            return [(v, s)]
        if name in BORROWED:
            s = st.copy()
            return [(s.new(0, 'the borrowed result of %s' % name, line, True,
                          name in ('PyTuple_GetItem', 'PyList_GetItem', 'PyImport_AddModule')), s)]
        if name in PURE:
            return [(TOP, st)]
        if name in ('PyObject_IsTrue',):
            return [(TOP, st)]
        s = st.copy()
        if s.err == 'clear' and (name.endswith('AsLong') or name.startswith('PyLong_As') or name.startswith('PyFloat_As') or
                                 name.startswith('PyModule_Add') or name in ('PyType_Ready', 'PyErr_Warn', 'PyErr_WarnEx',
                                                                            'PyList_Append', 'PyObject_SetAttrString')):
            s.err = 'maybe'
        return [(TOP, s)]

    def delegate(self, st, name, slot, line):
        """a delegate of an overload set: it either completes, fails with the error indicator set, or hands a parse error
        back through its last argument"""
        py = name in self.newfuncs
        out = []
        s = st.copy()
        s.mem[slot] = NULL
        out.append((s.new(1, 'the result of the overload', line, False) if py else ('int', 0), s))
        s = st.copy()
        s.mem[slot] = NULL
        s.err = 'set'
        out.append((NULL if py else ('int', -1), s))
        s = st.copy()
        s.mem[slot] = s.new(1, 'the parse error ' + slot, line, False)
        out.append((NULL if py else ('int', -1), s))
        return out

    # ------------------------------------------------------------ format calls
    def fmt_index(self, name):
        return {'PyArg_ParseTuple': 1, 'PyArg_ParseTupleAndKeywords': 2, 'PyArg_Parse': 1, 'Py_BuildValue': 0,
                'PyObject_CallMethod': 2, 'PyObject_CallFunction': 1}.get(name)

    def vararg_start(self, name):
        return {'PyArg_ParseTuple': 2, 'PyArg_ParseTupleAndKeywords': 4, 'PyArg_Parse': 2, 'Py_BuildValue': 1,
                'PyObject_CallMethod': 3, 'PyObject_CallFunction': 2}[name]

    def parse_call(self, e, name, args, vs, st, line):
        fi = self.fmt_index(name)
        ok, bad = st.copy(), st.copy()
        bad.err = 'set'
        if fi is None or len(vs) <= fi or vs[fi][0] != 'str':
            return [(('fail0', ok, bad), st)]
        try:
            units = pf.parse_units(vs[fi][1], pf.PARSE)
        except pf.FormatError as ex:
            self.rep('format', line, vs[fi][1], str(ex), st)
            return [(('fail0', ok, bad), st)]
        i = self.vararg_start(name)
        groups = []   # one entry per unit: (optional, [(role, arg value)])
        for u, opt in units:
            g = []
            for role in pf.PARSE[u]:
                if i >= len(vs):
                    self.rep('format-arity', line, vs[fi][1], 'format %r needs more arguments than the call passes' % vs[fi][1], st)
                    return [(('fail0', ok, bad), st)]
                g.append((role, vs[i]))
                i += 1
            groups.append((opt, g))
        if i != len(vs):
            self.rep('format-arity', line, vs[fi][1], 'format %r takes %d arguments, the call passes %d'
                     % (vs[fi][1], i - self.vararg_start(name), len(vs) - self.vararg_start(name)), st)
        i = self.vararg_start(name)
        for u, _ in units:
            for role in pf.PARSE[u]:
                self.check_type(role, args[i], vs[fi][1], u, line, st, True)
                i += 1
        nopt = sum(1 for o, _ in groups if o)
        oks = []
        if nopt <= 3:
            subsets = range(1 << nopt)
        else:
            subsets = [(1 << nopt) - 1, 0] + [1 << b for b in range(nopt)]
        for sub in subsets:
            ok = st.copy()
            b = 0
            for opt, g in groups:
                given = True
                if opt:
                    given = bool(sub >> b & 1)
                    b += 1
                if not given:
                    continue
                for role, v in g:
                    if v[0] == 'addr' and v[1] in ok.v and role not in ('type', 'conv', 'enc'):
                        nm = v[1]
                        self.kill(ok, nm)
                        if role == 'obj':
                            ok.v[nm] = ok.new(0, 'the borrowed argument %s' % nm, line, False)
                        elif role in ('cstr', 'mcstr', 'ustr'):
                            ok.v[nm] = ('addr', '*' + nm)
                        else:
                            ok.v[nm] = TOP
            oks.append(ok)
        return [(('fail0', oks, bad), st)]

    def type_of(self, e):
        while e[0] == 'paren':
            e = e[2]
        if e[0] == 'id':
            return self.types.get(e[2])
        if e[0] == 'un' and e[2] == '&':
            t = self.type_of(e[3])
            return t.rstrip().rstrip('&') + ' *' if t else None
        if e[0] == 'un' and e[2] == '*':
            t = self.type_of(e[3])
            if t:
                t = t.strip().rstrip('&').rstrip()
                return t[:-1] if t.endswith('*') else None
            return None
        if e[0] == 'cast':
            return e[2]
        if e[0] == 'ccast':
            return e[3]
        return None

    def check_type(self, role, arg, fmt, unit, line, st, parse):
        t = self.type_of(arg)
        if t is None or not isinstance(t, str):
            return
        t = pf.norm_type(t)
        if role in ('type', 'conv', 'any', 'enc', 'buf'):
            return
        if t.endswith('&'):
            t = t[:-1]
        if parse:
            if not t.endswith('*'):
                self.rep('format-type', line, fmt, 'format unit %r stores through an argument that is not a pointer (%s)' % (unit, t), st)
                return
            t = t[:-1]
        ok = pf.role_matches(role, t, lambda n: n in self.pystructs) if parse else pf.build_matches(role, t, lambda n: n in self.pystructs)
        if ok is False:
            self.rep('format-type', line, fmt, 'format unit %r does not agree with a variable of type %s' % (unit, t), st)

    def build_call(self, e, name, args, vs, st, line):
        fi = self.fmt_index(name)
        if len(vs) <= fi or vs[fi][0] != 'str':
            return st
        try:
            units = pf.parse_units(vs[fi][1], pf.BUILD)
        except pf.FormatError as ex:
            self.rep('format', line, vs[fi][1], str(ex), st)
            return st
        i = self.vararg_start(name)
        for u, _ in units:
            for role in pf.BUILD[u]:
                if i >= len(vs):
                    self.rep('format-arity', line, vs[fi][1], 'format %r needs more arguments than the call passes' % vs[fi][1], st)
                    return st
                v = vs[i]
                self.check_type(role, args[i], vs[fi][1], u, line, st, False)
                if role == 'nobj' and v[0] == 'obj' and v[1] in st.o:
                    st = st.copy()
                    o = st.o[v[1]]
                    if o[0] > 0:
                        o[0] -= 1
                    else:
                        self.rep('steal-borrowed', line, o[2], 'format unit N takes over a reference to %s that the function does '
                                 'not own' % o[2], st)
                i += 1
        if i != len(vs):
            self.rep('format-arity', line, vs[fi][1], 'format %r takes %d arguments, the call passes %d'
                     % (vs[fi][1], i - self.vararg_start(name), len(vs) - self.vararg_start(name)), st)
        return st


def pystructs_of(items):
    """names of emitted struct types that start with PyObject_HEAD"""
    out = set()

    def rec(its):
        for it in its:
            if it[0] == 'type':
                body = it[3]
                if any(x[0] == 'declonly' and any(t.v == 'ob_base' for t in x[2]) for x in body):
                    nm = it[4].strip() or it[2].split()[-1]
                    out.add(nm)
                rec(body)
            elif it[0] == 'ns':
                rec(it[3])
    rec(items)
    return out


def newfuncs_of(items):
    out = set()
    for pre, f in cmini.functions(items):
        if pf.norm_type(f[3].replace('inline', '')).endswith('PyObject*'):
            out.add(f[2])
    for it in items:
        if it[0] == 'declonly':
            s = cmini.join_tokens(it[2])
            m = re.match(r'(?:extern |static )*PyObject\*?\s*\*?\s*(\w+)\(', s)
            if m:
                out.add(m.group(1))
    return out
