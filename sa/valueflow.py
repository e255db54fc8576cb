"""Def-use slices inside one emitted function: which keyword, C++ parameter or call result does an expression come from?

Flow-insensitive: a variable stands for everything ever stored in it (assignments, stores through it, out-arguments, parse calls).
Labels: ('kw', name) python argument, ('res', k) k-th value of a parsed python result, ('cp', name) C++ parameter of a proxy,
('out', i) storage handed to the wrapped call as argument i, ('ret',) result of the wrapped call, ('id', x) any other free name.
"""
import re
import pyformats as pf
from cmini import strip, text, walk

PARSERS = {'PyArg_ParseTupleAndKeywords': (2, 4), 'PyArg_ParseTuple': (1, 2), 'PyArg_Parse': (1, 2)}


SETTERS = {'PyList_SET_ITEM', 'PyList_SetItem', 'PyTuple_SET_ITEM', 'PyTuple_SetItem', 'PyList_Append', 'PyDict_SetItem',
           'PyDict_SetItemString', 'memcpy', 'strcpy', 'strncpy'}


def lit(e):
    e = strip(e)
    return e[2] if e and e[0] == 'str' else None


def callee_name(e):
    """unqualified name of the function a call expression calls"""
    fn = strip(e[2])
    if fn[0] == 'member':
        n = fn[4]
    elif fn[0] == 'id':
        n = fn[2]
    else:
        return None
    n = re.sub(r'<.*>$', '', n)
    return n.split('::')[-1].strip()


def base_var(e):
    """variable at the root of an lvalue, and whether the store goes through it (weak)"""
    weak = False
    e = strip(e)
    while True:
        if e[0] == 'id':
            return e[2], weak
        if e[0] == 'un' and e[2] in ('*', '&'):
            weak = True
            e = strip(e[3])
        elif e[0] in ('member', 'index'):
            weak = True
            e = strip(e[2])
        elif e[0] == 'call':
            return None, True
        else:
            return None, True


class Parse:
    def __init__(self, line, fmt, units, kw, src, n):
        self.line, self.fmt, self.units, self.kw, self.src, self.n = line, fmt, units, kw, src, n


class Slice:
    def __init__(self, f, is_wrapped, proxy=False):
        """is_wrapped(expr) -> True for the call (or new) expression being wrapped"""
        self.f = f
        self.is_wrapped = is_wrapped
        self.proxy = proxy
        self.defs = {}
        self.outs = {}
        self.params = [n for _, n in f[4] if n]
        self.types = {}
        self.weak = {}
        self.wrapped = []
        self.parses = []
        self.builds = []
        self.calls = []
        self.returns = []
        self.kwlists = {}
        self.scan()

    def add(self, v, d, weak=False):
        if v is None:
            return
        self.defs.setdefault(v, []).append(d)
        if weak:
            self.weak.setdefault(v, []).append(d)

    def scan(self):
        body = self.f[6]
        for n in walk(body):
            if n[0] == 'decl':
                for nm, base, ptr, arr, init, ctor in n[2]:
                    self.types[nm] = base + ' ' + ptr
                    if init is not None:
                        self.add(nm, ('expr', init))
                        if arr and strip(init)[0] == 'init':
                            self.kwlists[nm] = [lit(x) if lit(x) is not None else None for x in strip(init)[2]]
                    for c in ctor or ():
                        self.add(nm, ('expr', c))
        for n in walk(body):
            if n[0] == 'assign':
                v, weak = base_var(n[3])
                self.add(v, ('expr', n[4]), weak or v in self.params)
            elif n[0] == 'new' and self.is_wrapped(n):
                self.wrapped.append((n, n[3]))
            elif n[0] == 'call':
                self.call(n)
            elif n[0] == 'return' and len(n) > 2 and n[2] is not None:
                self.returns.append((n[1], n[2]))
        for w, args in self.wrapped:
            for i, a in enumerate(args):
                for x in walk(a):
                    if x[0] == 'id' and x[2] not in ('self', 'NULL', 'this'):
                        self.outs.setdefault(x[2], set()).add(i)
                        for d in self.defs.get(x[2], ()):     # p = &v; f(p)
                            for y in walk(d[1]) if d[0] == 'expr' else ():
                                if y[0] == 'un' and y[2] == '&':
                                    v, _ = base_var(y)
                                    if v in self.types:
                                        self.outs.setdefault(v, set()).add(i)

    def call(self, n):
        name = callee_name(n)
        args = n[3]
        if self.is_wrapped(n):
            self.wrapped.append((n, args))
            return
        if name in PARSERS:
            fi, vi = PARSERS[name]
            fmt = lit(args[fi]) if len(args) > fi else None
            if fmt is None:
                return
            try:
                units = pf.parse_units(fmt, pf.PARSE)
            except pf.FormatError:
                return
            kw = None
            if name == 'PyArg_ParseTupleAndKeywords':
                k = strip(args[3])
                kw = self.kwlists.get(k[2]) if k[0] == 'id' else None
            src = text(strip(args[0]))
            p = Parse(n[1], fmt, [], kw, src, name)
            i = vi
            for j, (u, opt) in enumerate(units):
                tg = []
                for role in pf.PARSE[u]:
                    if i >= len(args):
                        break
                    a = args[i]
                    i += 1
                    if role in ('type', 'conv', 'enc'):
                        continue
                    tg.append(a)
                    v, weak = base_var(a)
                    if name == 'PyArg_Parse':
                        self.add(v, ('expr', args[0]), v in self.params)
                        continue
                    if name == 'PyArg_ParseTupleAndKeywords':
                        lab = ('kw', kw[j] if kw and j < len(kw) else '#%d' % j)
                    elif src == 'args':
                        lab = ('kw', '#%d' % j)
                    else:
                        lab = ('res', src, j)
                    self.add(v, ('label', lab), v in self.params)
                p.units.append((u, opt, tg))
            self.parses.append(p)
            return
        if name == 'Py_BuildValue':
            b = self.items(n, 0, 1)
            if b is not None:
                self.builds.append((n, b))
            return
        if name == 'PyObject_CallMethod':
            b = self.items(n, 2, 3)
            self.calls.append((n, lit(args[1]) if len(args) > 1 else None, b))
            return
        if name in SETTERS and args:
            v, _ = base_var(args[0])
            for a in args[1:]:
                self.add(v, ('expr', a), True)
            return
        fn = strip(n[2])
        if fn[0] == 'member':      # v.push_back(e), v->insert(...)
            v, _ = base_var(fn[2])
            for a in args:
                self.add(v, ('expr', a), True)
        for a in args:             # f(x, &v)
            s = strip(a)
            if s[0] == 'un' and s[2] == '&':
                v, _ = base_var(s[3])
                if v not in self.types and v not in self.params:
                    continue
                for b in args:
                    if b is not a:
                        self.add(v, ('expr', b), True)
                if fn[0] == 'member':
                    self.add(v, ('expr', fn[2]), True)

    def items(self, n, fi, vi):
        args = n[3]
        fmt = lit(args[fi]) if len(args) > fi else None
        if fmt is None:
            return [] if len(args) <= fi else None
        try:
            units = pf.parse_units(fmt, pf.BUILD)
        except pf.FormatError:
            return None
        out = []
        i = vi
        for u, _ in units:
            k = len(pf.BUILD[u])
            out.append((u, list(args[i:i + k])))
            i += k
        return out

    # ------------------------------------------------------------ slices
    def labels(self, e, stop=()):
        """labels of everything expression e can come from"""
        out, seen = set(), set()
        self._expr(e, out, seen)
        return out

    def labels_of(self, es):
        out = set()
        for e in es:
            out |= self.labels(e)
        return out

    def labels_var(self, v, weak_only=False):
        out, seen = set(), set()
        ds = self.weak.get(v, ()) if weak_only else self.defs.get(v, ())
        for d in ds:
            self._def(d, out, seen | {v})
        return out

    def _def(self, d, out, seen):
        if d[0] == 'label':
            out.add(d[1])
        else:
            self._expr(d[1], out, seen)

    def _expr(self, e, out, seen):
        todo = [e]
        while todo:
            x = todo.pop()
            if x is None:
                continue
            if not isinstance(x, tuple):
                if isinstance(x, list):
                    todo.extend(x)
                continue
            if not x or not isinstance(x[0], str):
                todo.extend(x)
                continue
            if x[0] in ('call', 'new') and self.is_wrapped(x):
                out.add(('ret',))
                continue
            if x[0] == 'call' and callee_name(x) in PARSERS:
                continue
            if x[0] == 'call' and callee_name(x) in ('Py_BuildValue', 'PyObject_CallMethod'):
                todo.extend(x[3])
                continue
            if x[0] == 'id':
                self._var(x[2], out, seen, todo)
                continue
            if x[0] == 'call':
                fn = strip(x[2])
                todo.extend(x[3])
                if fn[0] == 'member':
                    todo.append(fn[2])
                elif fn[0] == 'id':
                    out.add(('id', fn[2]))
                continue
            if x[0] == 'member':
                todo.append(x[2])
                out.add(('mem', x[4]))
                continue
            if x[0] in ('cast',):
                todo.append(x[3])
                continue
            if x[0] == 'ccast':
                todo.append(x[4])
                continue
            if x[0] in ('num', 'str', 'chr'):
                out.add((x[0], x[2]))
                continue
            if x[0] == 'new':
                out.add(('new', x[2]))
                todo.extend(x[3])
                continue
            todo.extend(y for y in x[2:] if isinstance(y, (tuple, list)))

    def _var(self, v, out, seen, todo):
        if v in seen:
            return
        seen.add(v)
        if v in self.outs:
            out.update(('out', i) for i in self.outs[v])
        if self.proxy and v in self.params:
            out.add(('cp', v))
        if v in self.defs:
            for d in self.defs[v]:
                if d[0] == 'label':
                    out.add(d[1])
                else:
                    todo.append(d[1])
        else:
            out.add(('id', v))


# ------------------------------------------------------------------ what a wrapper must pass on
class W:
    """what the configuration asked for: C name, parameters [(name, direction, has default)], whether it returns a value"""

    def __init__(self, cname, params, ret, kind, method=None, skip=0, rparams=None, dflt=None):
        self.dflt = dflt or {}
        self.rparams = rparams or params
        self.cname, self.params, self.ret, self.kind = cname, params, ret, kind
        self.method = method or cname
        self.skip = skip      # leading C arguments that are not python arguments (functions as methods)


def is_in(d):
    return bool(d & 1)


def is_out(d):
    return bool(d & 2)


def fwd_check(sl, w):
    """-> list of (line, what, msg) for a python-to-C++ wrapper"""
    out = []
    n = 0
    names = [p[0] for p in w.params]
    req = [p[0] for p in w.params if is_in(p[1]) and not p[2]] + [p[0] for p in w.params if is_in(p[1]) and p[2]]
    kwp = [p for p in sl.parses if p.n == 'PyArg_ParseTupleAndKeywords']
    for p in kwp:
        n += 1
        if p.kw is None or p.kw[-1:] != [None]:
            out.append((p.line, 'keywords', 'the keyword list of %r is not a NULL-terminated list of names' % p.fmt))
            continue
        if [x for x in p.kw[:-1]] != req:
            out.append((p.line, 'keywords', 'python arguments are named %s, the parameters are %s' % (p.kw[:-1], req)))
        if len(p.units) != len(p.kw) - 1:
            out.append((p.line, 'keywords', 'format %r has %d units for %d keywords' % (p.fmt, len(p.units), len(p.kw) - 1)))
    if not kwp and req:
        out.append((sl.f[1], 'keywords', 'no argument is parsed for the parameters %s' % req))
    for e, args in sl.wrapped:
        n += 1
        if len(args) != len(w.params) + w.skip:
            out.append((e[1], 'arguments', 'the wrapped call passes %d arguments, the declaration has %d' % (len(args), len(w.params) + w.skip)))
            continue
        for i, (nm, d, dflt) in enumerate(w.params):
            n += 1
            labs = sl.labels(args[i + w.skip])
            kws = {l[1] for l in labs if l[0] == 'kw'}
            want = {nm} if is_in(d) else set()
            if kws != want:
                out.append((e[1], 'argument', 'argument %d of the wrapped call comes from the python argument(s) %s, expected %s'
                            % (i, sorted(map(str, kws)) or 'none', sorted(want) or 'none')))
    if not sl.wrapped:
        out.append((sl.f[1], 'call', 'the wrapper never calls the wrapped function'))
        return out, n
    # results
    exp = ([('ret',)] if w.ret else []) + [('out', i + w.skip) for i, p in enumerate(w.params) if is_out(p[1])]
    nm_of = {('out', i + w.skip): p[0] for i, p in enumerate(w.params)}
    if w.kind == 'ctor':
        return out, n
    cands = [(e, b) for e, b in sl.builds]
    good = [(e, b) for e, b in cands if len(b) == len(exp)]
    if not exp:
        for e, b in cands:
            if b and any(('ret',) in sl.labels_of(a) or any(l[0] == 'out' for l in sl.labels_of(a)) for _, a in b):
                out.append((e[1], 'results', 'builds a result of %d value(s) although there is nothing to return' % len(b)))
        return out, n
    if not good and len(exp) == 1 and not cands:
        labs = set()
        for ln, r in sl.returns:
            labs |= sl.labels(r)
        n += 1
        if exp[0] not in labs:
            out.append((sl.f[1], 'results', 'the result is not derived from %s' % desc(exp[0], nm_of)))
        return out, n
    if not good:
        out.append((sl.f[1], 'results', 'no result of %d value(s) is built (return value%s)'
                    % (len(exp), ' and '.join([''] + ['output parameter ' + nm_of[x] for x in exp if x[0] == 'out']))))
        return out, n
    if len(exp) > 1:
        for ln, r in sl.returns:
            n += 1
            if text(strip(r)) == 'Py_None':
                out.append((ln, 'results', 'a path returns None although %d values are to be returned' % len(exp)))
    for e, b in good:
        for (u, args), want in zip(b, exp):
            n += 1
            labs = sl.labels_of(args)
            prim = {l for l in labs if l in exp}
            if want not in labs:
                out.append((e[1], 'results', 'value %d of the result is not derived from %s' % (exp.index(want), desc(want, nm_of))))
            elif prim - {want}:
                out.append((e[1], 'results', 'value %d of the result mixes %s with %s' % (
                    exp.index(want), desc(want, nm_of), ', '.join(desc(x, nm_of) for x in sorted(prim - {want}, key=str)))))
            elif want[0] == 'out':
                kws = {l[1] for l in labs if l[0] == 'kw'} - {nm_of[want]}
                if kws:
                    out.append((e[1], 'results', 'the result of output parameter %s comes from the arguments %s' % (nm_of[want], sorted(kws))))
    return out, n


def desc(l, nm_of):
    return 'the return value' if l[0] == 'ret' else 'output parameter %s' % nm_of.get(l, l[1])


def rev_check(sl, w):
    """-> list of (line, what, msg) for a C++-to-python proxy"""
    out = []
    n = 0
    names = [p[0] for p in w.rparams]
    if [x for x in sl.params] != names:
        out.append((sl.f[1], 'signature', 'the proxy has parameters %s, the virtual method has %s' % (sl.params, names)))
        return out, 1
    for e, args in sl.wrapped:     # falling back to the C++ implementation
        n += 1
        got = [{l[1] for l in sl.labels(a) if l[0] == 'cp'} for a in args]
        if got != [{x} for x in names]:
            out.append((e[1], 'fallback', 'the C++ implementation is called with %s, the parameters are %s' % (
                [sorted(x) for x in got], names)))
    if not sl.calls:
        out.append((sl.f[1], 'call', 'the proxy never calls the python method'))
        return out, n
    ins = [p[0] for p in w.rparams if is_in(p[1])]
    for e, meth, items in sl.calls:
        n += 1
        if meth != w.method:
            out.append((e[1], 'call', 'calls the python method %r instead of %r' % (meth, w.method)))
        if items is None:
            continue
        if len(items) != len(ins):
            out.append((e[1], 'arguments', 'passes %d python arguments for the %d input parameters' % (len(items), len(ins))))
            continue
        for k, ((u, args), nm) in enumerate(zip(items, ins)):
            n += 1
            got = {l[1] for l in sl.labels_of(args) if l[0] == 'cp'}
            if got != {nm}:
                out.append((e[1], 'arguments', 'python argument %d comes from the parameter(s) %s, expected %s' % (k, sorted(got), nm)))
    outs = [p[0] for p in w.rparams if is_out(p[1])]
    exp = (['return'] if w.ret else []) + outs
    ps = [p for p in sl.parses if p.n == 'PyArg_ParseTuple']
    n += 1
    if not exp:
        return out, n
    if not ps:
        out.append((sl.f[1], 'results', 'the python result is never parsed'))
        return out, n
    full = [p for p in ps if len(p.units) == len(exp)]
    if not full:
        out.append((ps[0].line, 'results', 'the python result %r is parsed as %d value(s), expected %d' % (ps[0].fmt, len(ps[0].units), len(exp))))
        return out, n
    src = full[0].src
    for k, x in enumerate(exp):
        n += 1
        if x == 'return':
            got = set()
            for ln, r in sl.returns:
                got |= {l[2] for l in sl.labels(r) if l[0] == 'res' and l[1] == src}
        else:
            got = {l[2] for l in sl.labels_var(x, True) if l[0] == 'res' and l[1] == src}
        if got != {k}:
            out.append((full[0].line, 'results', '%s is set from value(s) %s of the python result, expected value %d' % (
                'the return value' if x == 'return' else 'output parameter ' + x, sorted(got) or 'none', k)))
    return out, n


def default_check(sl, w):
    """-> list of (line, what, msg): a parameter with a default may be omitted and then has that value; one without may not"""
    out = []
    n = 0
    kwp = [p for p in sl.parses if p.n == 'PyArg_ParseTupleAndKeywords']
    for p in kwp:
        if not p.kw:
            continue
        for (u, opt, tg), nm in zip(p.units, p.kw):
            n += 1
            if nm in w.dflt and not opt:
                out.append((p.line, 'optional', 'parameter %s has a default value but format %r requires it' % (nm, p.fmt)))
            if nm not in w.dflt and opt and nm in [x[0] for x in w.params]:
                out.append((p.line, 'optional', 'parameter %s has no default value but format %r lets it be omitted' % (nm, p.fmt)))
    for e, args in sl.wrapped:
        if len(args) != len(w.params) + w.skip:
            continue
        for i, (nm, d, _) in enumerate(w.params):
            if not is_in(d):
                continue
            n += 1
            labs = sl.labels(args[i + w.skip])
            atoms = {l[1] for l in labs if l[0] in ('id', 'num', 'str')}
            want = w.dflt.get(nm)
            if want is not None:
                t = want.strip('"')
                ok = t in atoms or (t == 'NULL' and atoms & {'NULL', '0', 'nullptr'})
                if not ok:
                    out.append((e[1], 'default', 'the default value of parameter %s never reaches the wrapped call' % nm))
                out += guard_findings(sl, nm, t)
            other = {v.strip('"') for k, v in w.dflt.items() if k != nm} - {(want or '').strip('"'), 'NULL'}
            if atoms & other:
                out.append((e[1], 'default', 'the default value of another parameter reaches argument %s of the wrapped call' % nm))
    return out, n


def test_of(e):
    """(variable, True when the condition holds for a non-null value) of a null test, or None"""
    e = strip(e)
    if e[0] == 'id':
        return e[2], True
    if e[0] == 'un' and e[2] == '!':
        r = test_of(e[3])
        return r and (r[0], not r[1])
    if e[0] == 'bin' and e[2] in ('!=', '=='):
        for a, b in ((e[3], e[4]), (e[4], e[3])):
            b = strip(b)
            if (b[0] == 'id' and b[2] in ('NULL', 'nullptr')) or b[0] == 'num' and b[2] in ('0', '0L'):
                r = test_of(a)
                return r and (r[0], r[1] == (e[2] == '!='))
    return None


def atoms_of(e, lits):
    out = set()
    for x in walk(e):
        if x[0] in ('id', 'num', 'str') and x[2] in lits:
            out.add(x[2])
    return out


def stores(e):
    """statements and expressions at the top of a branch, for reading what it assigns"""
    return [x for x in walk(e)] if e else []


def guard_findings(sl, nm, t):
    """a default chosen by a test is chosen exactly when the argument was left out: the tested variable is the object or pointer the
    optional unit stores, it starts out NULL, and the default is on the null side"""
    out = []
    units = [tg for p in sl.parses if p.n == 'PyArg_ParseTupleAndKeywords' and p.kw
             for (u, opt, tg), k in zip(p.units, p.kw) if k == nm and opt]
    tgs = []
    for tg in units:
        tgs.append([base_var(x)[0] for x in tg])
    if not tgs:
        return out
    every = {v for x in tgs for v in x if v}
    lits = {t}
    for n in walk(sl.f[6]):
        if n[0] == 'cond':
            c, a, b = n[2], n[3], n[4]
        elif n[0] == 'if':
            c, a, b = n[2], n[3], n[4] if len(n) > 4 else None
        else:
            continue
        r = test_of(c)
        if r is None or r[0] not in every:
            continue
        ia = bool(a) and bool(atoms_of(a, lits))
        ib = bool(b) and bool(atoms_of(b, lits))
        if ia == ib or t in every or t in ('NULL', '0') or b is None:
            continue
        var, pos = r
        ty = sl.types.get(var, '')
        if '*' not in ty:
            out.append((n[1], 'default', 'whether parameter %s was passed is decided by %s, which is not the object or pointer that is NULL only when it was left out' % (nm, var)))
            continue
        if ib != pos:
            out.append((n[1], 'default', 'the default value of parameter %s is used when it was passed, not when it was left out' % nm))
    return out
