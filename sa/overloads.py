"""Overload sets: the dispatcher of each overloaded name tries the declared overloads in declaration order, takes the first that accepts the
arguments, and an overload refuses (hands its error back to the dispatcher) exactly when it fails before the C++ entity is called."""
import analyses, binding, cflow, pyformats as pf, surface, throws
from cflow import Flow, NULL
from cmini import strip, text, walk
from surface import ident

nrm = binding.nrm


def slotted(f):
    return bool(f[4]) and pf.norm_type(f[4][-1][0]).replace(' ', '') == 'PyObject**'


def keywords(f):
    """names of the parameters that a wrapper parses"""
    ks = None
    for n in walk(f[6]):
        if n[0] == 'decl':
            for nm, base, ptr, arr, init, ctor in n[2]:
                if init is not None and strip(init)[0] == 'init' and 'char' in text(('id', 0, base)) + str(base):
                    items = strip(init)[2]
                    ls = [surface.lit(x) for x in items]
                    if ls and ls[-1] is None and all(x is not None for x in ls[:-1]):
                        ks = tuple(ls[:-1]) if ks is None else ks
    return ks


class Deleg(Flow):
    """one delegate: which paths call the declared entity, which ones hand back an error"""

    def __init__(self, f, targets, **kw):
        super().__init__(f, **kw)
        self.targets = targets
        self.slot = f[4][-1][1]
        self.seen_call = 0
        self.nexit = 0

    def mark(self, e, st):
        if throws.callee(e) in self.targets:
            self.seen_call += 1
            return True
        return False

    def ev(self, e, st):
        if e is not None and isinstance(e, tuple) and e and e[0] in ('call', 'new') and self.mark(e, st):
            st = st.copy()
            st.marks['called'] = True
        return super().ev(e, st)

    def exit(self, st, val, line, how):
        super().exit(st, val, line, how)
        self.nexit += 1
        v = st.mem.get('*' + self.slot)
        handed = v not in (None, NULL)
        called = st.marks.get('called')
        if handed and called:
            self.rep('overload', line, 'refused after the call', 'hands an error to the dispatcher after the C++ entity was called: the next '
                     'overload would run as well', st)
        if not handed and not called and how == 'return' and val is not None and (val == NULL or val == ('int', -1)):
            if any('Py_TYPE(self)' in k or 'ob_type' in k for k in st.facts):
                return                             # the class itself cannot be constructed, whatever the arguments
            self.rep('overload', line, 'failure before the call', 'fails before the C++ entity is called without handing its error to the dispatcher: '
                     'the remaining overloads are not tried', st)


class Disp(Flow):
    def __init__(self, f, order, **kw):
        super().__init__(f, **kw)
        self.order = order
        self.nexit = 0

    def delegate(self, st, name, slot, line):
        seq = st.marks.get('seq', ())
        if seq and st.marks.get('last') != 'refused':
            self.rep('overload', line, 'tries another overload', '%s is tried although %s did not refuse' % (name, seq[-1]), st)
        outs = super().delegate(st, name, slot, line)
        for i, (v, s) in enumerate(outs):
            s.marks['seq'] = seq + (name,)
            s.marks['last'] = ('done', 'failed', 'refused')[i]
            s.marks['val'] = v
        if len(seq) >= len(self.order) or self.order[len(seq)] != name:
            self.rep('overload', line, 'order', 'overloads are tried in the order %s, declared %s' % (list(seq) + [name], self.order), st)
        return outs

    def exit(self, st, val, line, how):
        super().exit(st, val, line, how)
        self.nexit += 1
        seq, last = st.marks.get('seq', ()), st.marks.get('last')
        if last == 'refused':
            if len(seq) < len(self.order):
                self.rep('overload', line, 'gives up early', 'reports failure after only %s refused' % list(seq), st)
            if st.err != 'set':
                self.rep('overload', line, 'no error', 'all overloads refused but no exception is set', st)
        elif last is None:
            if self.order:
                self.rep('overload', line, 'no overload tried', 'returns without trying an overload', st)
        elif val != st.marks.get('val'):
            self.rep('overload', line, 'result', 'does not return the result of the overload that ran', st)


class Overloads(throws.Throws):
    def group(self, d):
        """declared overload sets: (host, python name, [declarations])"""
        out = {}
        for k in self.log.all:
            if not k.ok or k.get('visibility', 'public') == 'private' or k.import_from_module:
                continue
            if k.op in ('add_function', 'add_method', 'add_function_as_method', 'add_custom_method_wrapper', 'add_custom_function_wrapper'):
                out.setdefault((id(k.host), k.custom_name or k.name), []).append(k)
            elif k.op in ('add_constructor', 'add_copy_constructor', 'add_function_as_constructor'):
                out.setdefault((id(k.host), None), []).append(k)
        return out

    def expected(self, k):
        ps = k.get('parameters')
        if ps is None or k.op in ('add_custom_method_wrapper', 'add_custom_function_wrapper', 'add_copy_constructor'):
            return None
        ps = [p for p in ps if hasattr(p, 'ctype')]
        if k.op == 'add_function_as_method':
            ps = ps[1:]
        out = []
        for p in ps:
            if p.kw.get('direction', 1) in (1, 3) and p.ctype != 'void':
                out.append(p.name)
        return tuple(out)

    def fn_of(self, k, name):
        S = self.S
        h = k.host
        if h.op in ('add_class', 'add_struct'):
            T = self.type_of(h)
            if T is None:
                return None
            if name is None:
                return S.slot(T, 'tp_init')
            if name == '__call__':
                return S.slot(T, 'tp_call')
            tab = S.slot(T, 'tp_methods')
        else:
            m = self.mod(h)
            tab = m.table if m is not None else None
        rows = S.methods(tab) if tab else None
        for r in rows or []:
            if r[0] == name:
                return r[1]
        return None

    def calls(self, f):
        """delegates of a dispatcher in textual order"""
        out = []
        for n in walk(f[6]):
            if n[0] == 'call':
                g = self.S.funcs.get(ident(n[2]))
                if g is not None and slotted(g) and n[3] and strip(n[3][-1])[0] == 'addr' or g is not None and slotted(g):
                    out.append((n[1], g[2]))
        return [x for _, x in sorted(out)]

    def overloads(self, cfg):
        S = self.S
        custom = {k.wrapper_name for k in self.log.all if k.wrapper_name}
        groups = self.group(None)
        done = set()
        for (h, name), ks in groups.items():
            ks = sorted(ks, key=lambda k: k.idx)
            fn = self.fn_of(ks[0], name)
            f = S.funcs.get(fn)
            if f is None:
                continue
            ds = self.calls(f)
            pub = [k for k in ks if k.get('visibility', 'public') == 'public']
            if name is None and (self.abstract(ks[0].host) or ks[0].host.of('set_cannot_be_constructed')) and not ds:
                continue
            if not ds:
                if len([k for k in ks if k.get('visibility', 'public') == 'public' and k.op != 'add_copy_constructor']) > 1:
                    self.bad('overload', fn, 'declared overloads are not dispatched', '%s: %d overloads' % (name, len(ks)), f[1])
                continue
            done.add(fn)
            self.obl += 1
            if len(ks) != len(ds) and len(pub) == len(ds):
                ks = pub                           # protected members are reachable through a helper class only
            want = [self.expected(k) for k in ks]
            have = [keywords(S.funcs[x]) for x in ds]
            uniq = [x for i, x in enumerate(ds) if x not in ds[:i]]
            if len(uniq) != len(ds):
                self.bad('overload', fn, 'an overload is tried twice', str(ds), f[1])
            if len(want) == len(have):
                bad = [(w, x) for w, x in zip(want, have) if w is not None and x is not None and w != x]
                if bad:
                    self.bad('overload', fn, 'overloads are not tried in declaration order', '%s: parameters %s, declared %s' % (name, have, want), f[1])
            elif len(ds) < len(pub) or not self.subseq([w for w in want if w is not None], [x for x in have if x is not None]):
                self.bad('overload', fn, 'declared overloads are not all dispatched', '%s: parameters %s, declared %s' % (name, have, want), f[1])
        nf = 0
        for pre, f in S.p.funcs:
            ds = self.calls(f)
            if slotted(f) and f[4][-1][1] == 'return_exception' and f[2] not in custom:
                self.flow(Deleg(f, self.targets, pystructs=S.p.pystructs, newfuncs=S.p.newfuncs), f)
                nf += 1
            elif ds:
                order = [x for i, x in enumerate(ds) if x not in ds[:i]]
                d = self.flow(Disp(f, order, pystructs=S.p.pystructs, newfuncs=S.p.newfuncs), f)
                nf += 1
                self.listing(f, order)
        return nf

    def subseq(self, want, have):
        it = iter(have)
        return all(w in it for w in want)

    def listing(self, f, order):
        """the error of a refused call lists what each overload said"""
        n = len(order)
        got = {}
        for x in walk(f[6]):
            if x[0] == 'call' and ident(x[2]) in ('PyList_SET_ITEM', 'PyList_SetItem') and len(x[3]) == 3:
                got[text(strip(x[3][1]))] = text(strip(x[3][2]))
        self.obl += 1
        ok = all('[%d]' % i in got.get(str(i), '') for i in range(n)) and len(got) == n
        if not ok and not any(x[0] in ('for', 'while') for x in walk(f[6])):
            self.bad('overload', f[2], 'the error does not list what each overload said', str(got), f[1])

    def flow(self, fl, f):
        try:
            fl.run()
        except cflow.Limits as e:
            self.bad('overload', f[2], 'analysis budget exceeded', str(e), f[1])
            return
        self.obl += fl.nexit
        for r in fl.reports:
            if r['rule'] == 'overload':
                self.bad('overload', f[2], r['what'], r['msg'], r['line'])


def check(u, S):
    t = Overloads(u, S)
    t.overloads(S.cfg)
    return [x for x in t.P if x[0] == 'overload'], t.obl
