"""Custodians keep their wards: on every path on which a wrapper with a custodian/ward policy succeeds, the custodian's `__wards__` list holds
a reference to the ward itself (not to an equal object), and it was stored in the custodian.  Extends the path-sensitive domain of cflow:
lists are identified by the object whose attribute they are."""
import re
import analyses, cflow, cmini
from cflow import TOP, NULL
from cmini import strip, text, walk

CONTAINS = ('PySequence_Contains', 'PySet_Contains', 'PyDict_Contains', 'PySequence_Index')
APPEND = {'PyList_Append': (0, 1)}
ITEM = ('PyList_GET_ITEM', 'PyList_GetItem', 'PySequence_Fast_GET_ITEM', 'PySequence_GetItem')


class WardFlow(cflow.Flow):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.success = []
        self.by_name = True

    def token(self, v, e):
        e = strip(e)
        while e[0] in ('cast', 'ccast'):
            e = strip(e[3] if e[0] == 'cast' else e[4])
        if e[0] == 'id' and e[2] == 'self':
            return 'self'
        if v[0] == 'obj':
            return v[1]
        if v == NULL:
            return None
        return 'text:' + text(e)

    def parse_call(self, e, name, args, vs, st, line):
        out = super().parse_call(e, name, args, vs, st, line)
        n = self.vararg_start(name)
        names = [v[1] for v in vs[n:] if v[0] == 'addr']
        for v, s in out:
            if v[0] == 'fail0':
                for ok in (v[1] if isinstance(v[1], list) else [v[1]]):
                    i = 0
                    for nm in names:
                        x = ok.v.get(nm)
                        if self.is_py(self.types.get(nm, '')):
                            ok.marks[('arg', i)] = x if x is not None else TOP
                            i += 1
        return out

    def user_call(self, st, txt, line):
        if 'uFn' in txt if self.by_name else True:
            st.marks['called'] = True
        return super().user_call(st, txt, line)

    def apply(self, e, fn, name, args, vs, st, line):
        if name == 'PyObject_GetAttrString' and len(vs) == 2 and vs[1] == ('str', '__wards__'):
            out = super().apply(e, fn, name, args, vs, st, line)
            t = self.token(vs[0], args[0])
            if t is None:
                self.rep('ward-null', line, text(args[0]), 'reads the wards of a custodian that is NULL on this path', st)
            for v, s in out:
                if v[0] == 'obj':
                    s.marks[('lst', v[1])] = t
            return out
        if name in APPEND and len(vs) == 2:
            out = super().apply(e, fn, name, args, vs, st, line)
            for v, s in out:
                if vs[0][0] == 'obj':
                    c = s.marks.get(('lst', vs[0][1]))
                    if c is not None:
                        self.keep(s, c, self.token(vs[1], args[1]), line)
            return out
        if name == 'Py_BuildValue' and vs:
            objs = tuple(self.token(v, a) if v[0] in ('obj', 'null') else None for v, a in zip(vs[1:], args[1:]))
            out = super().apply(e, fn, name, args, vs, st, line)
            for v, s in out:
                s.marks['built'] = objs
            return out
        return super().apply(e, fn, name, args, vs, st, line)

    def keep(self, st, c, w, line):
        st.marks[('has', c, w)] = 'before' if not st.marks.get('called') else 'after'

    def cond(self, e, st):
        x = strip(e)
        if x[0] == 'bin' and x[2] in ('==', '!=', '<', '>='):
            l, r = strip(x[3]), strip(x[4])
            c = l[2] if l[0] == 'call' and strip(l[2])[0] == 'id' else None
            if c is not None and strip(c)[2] == 'PyObject_SetAttrString' and len(l[3]) == 3 and text(r) in ('0', '-1', '(-1)'):
                fails_if_true = (x[2] in ('<', '!=')) if text(r) == '0' else x[2] == '=='
                out = []
                for vs, s in self.evals2(l[3], st):
                    out.extend(self.store(vs, l[3], s, fails_if_true))
                return out
            if x[2] in ('==', '!='):
                for a, b in ((l, r), (r, l)):
                    if a[0] == 'call' and strip(a[2])[0] == 'id' and strip(a[2])[2] in ITEM:
                        out = []
                        for (lst, w), s in self.evals2([a[3][0], b], st):
                            c = s.marks.get(('lst', lst[1])) if lst[0] == 'obj' else None
                            y, n = s.copy(), s.copy()
                            if c is not None:
                                self.keep(y, c, self.token(w, b), 0)
                            out += [(x[2] == '==', y), (x[2] != '==', n)]
                        return out
                    if text(b) == 'Py_None':
                        out = []
                        for (v,), s in self.evals2([a], st):
                            t = self.token(v, a)
                            if t == 'self':
                                out.append((x[2] != '==', s))
                                continue
                            if ('none', t) in s.marks:
                                out.append(((x[2] == '==') == s.marks[('none', t)], s))
                                continue
                            y, n = s.copy(), s.copy()
                            y.marks[('none', t)], n.marks[('none', t)] = True, False
                            out += [(x[2] == '==', y), (x[2] != '==', n)]
                        return out
        if x[0] == 'call' and strip(x[2])[0] == 'id' and strip(x[2])[2] == 'PyObject_SetAttrString' and len(x[3]) == 3:
            out = []
            for vs, s in self.evals2(x[3], st):
                out.extend(self.store(vs, x[3], s, True))
            return out
        return super().cond(e, st)

    def store(self, vs, es, s, fails_if_true):
        ok, bad = s.copy(), s.copy()
        bad.err = 'set'
        if vs[1] == ('str', '__wards__') and vs[2][0] == 'obj':
            ok.marks[('lst', vs[2][1])] = self.token(vs[0], es[0])
        return [(fails_if_true, bad), (not fails_if_true, ok)]

    def exit(self, st, val, line, how):
        if how == 'return' and val is not None and st.marks.get('called'):
            ok = val[0] == 'obj' if self.is_py(self.ret) else val[0] == 'int' and val[1] == 0
            if ok:
                self.success.append((st.copy(), val, line))
        return super().exit(st, val, line, how)


def pairs(u):
    """[(custodian, ward, postcall)] that the declaration asks for"""
    e = u.meta.get('expect') or {}
    if 'rel' in e:
        c, w = e['rel']
        post = e['post'] if e['post'] is not None else -1 in (c, w)
        return [(c, w, post)]
    return {'param-custodian': [(2, 1, False)], 'ret-custodian': [(1, -1, True)], 'ret-ward': [(-1, 1, True)], 'internal': [(-1, 0, True)],
            'self': [(0, 1, False)], 'two': [(-1, 1, True), (1, 2, False)]}.get(e.get('opt'), [])


def resolve(st, k, as_method, first_out, has_ret):
    """('tok', x) | None when the object does not exist on this path | 'unknown'"""
    if as_method and k > 0:                        # the first declared parameter of the function is self
        k -= 1
    if k == 0:
        return ('tok', 'self')
    if k == -1 or (first_out and k == 1):
        b = st.marks.get('built')
        i = 0 if k == -1 else int(has_ret)
        if b is None or i >= len(b):
            return 'unknown'
        return ('tok', b[i]) if b[i] is not None else None
    v = st.marks.get(('arg', k - 1 - int(first_out)))
    if v is None:
        return 'unknown'
    if v[0] == 'null' or v[0] == 'uninit':
        return None
    return ('tok', v[1]) if v[0] == 'obj' and v[1] in st.o else None


def findings(u, cfg):
    p = analyses.parsed(u, cfg)
    if isinstance(p, Exception):
        return [], 0, 0
    lines = u.text.split('\n')
    e = u.meta.get('expect') or {}
    want = pairs(u)
    out, nf, n = [], 0, 0
    if not want or u.rejected:
        return out, 0, 0
    first_out = e.get('other') == 'out'
    as_method = e.get('kind') == 'fn-as-method'
    if e.get('kind') == 'ctor':                    # constructors have no result
        want = [x for x in want if -1 not in x[:2]]
    seen = 0
    for pre, f in p.funcs:
        name = f[2]
        if analyses.is_proxy(f):
            continue
        if not any(x[0] == 'call' and strip(x[2])[0] == 'id' and strip(x[2])[2].startswith('PyArg_Parse') and any(
                'O' in text(a) for a in x[3] if '"' in text(a)) for x in walk(f[6])):
            continue
        v = analyses.variant_of(u, f)
        fl = WardFlow(f, p.pystructs, p.newfuncs, **analyses.flow_opts(u, f, v))
        fl.by_name = e.get('kind') != 'ctor'
        try:
            fl.run()
        except cflow.Limits as ex:
            out.append(analyses.finding(u, 'limit', None, name, str(ex), 'analysis budget exceeded', cfg, v))
            continue
        if not fl.success:
            continue
        nf += 1
        seen += 1

        def rep(rule, line, what, msg):
            out.append(analyses.finding(u, rule, analyses.where(u, lines, line), name, what, msg, cfg, v, line, p.line(line).strip()))
        for r in fl.reports:
            if r['rule'] == 'ward-null':
                rep(r['rule'], r['line'], r['what'], r['msg'])
        done = set()
        for st, val, line in fl.success:
            has_ret = e.get('kind') != 'ctor'
            need = set()
            built = st.marks.get('built')
            if built is None and val[0] == 'obj' and has_ret and not first_out:
                st.marks['built'] = (val[1],)
            for c, w, post in want:
                C, W = resolve(st, c, as_method, first_out, has_ret), resolve(st, w, as_method, first_out, has_ret)
                if 'unknown' in (C, W):
                    if ('unknown', line) not in done:
                        done.add(('unknown', line))
                        rep('ward', line, 'returns without the object', 'the custodian or ward of %s is not among the arguments and results of this path'
                            % ((c, w),))
                    continue
                if C is None or W is None or st.marks.get(('none', C[1])) or st.marks.get(('none', W[1])):
                    continue
                n += 1
                need.add((C[1], W[1]))
                h = st.marks.get(('has', C[1], W[1]))
                if h is None:
                    if (c, w) not in done:
                        done.add((c, w))
                        rep('ward', line, 'ward %d of %d' % (w, c), 'a path succeeds without the custodian (%d) holding a reference to the ward (%d)' % (c, w))
                elif h != ('after' if post else 'before') and (c, w, 'time') not in done:
                    done.add((c, w, 'time'))
                    rep('ward-time', line, 'ward %d of %d' % (w, c), 'the ward is stored %s the call, declared %s it' % (h, 'after' if post else 'before'))
            for k in st.marks:
                if k[0] == 'has' and k[1:] not in need and ('extra', line) not in done and not any(x is None for x in k[1:]):
                    done.add(('extra', line))
                    rep('ward-extra', line, str(k[1:]), 'an object that was not declared as ward is kept alive')
    if not seen and want:
        out.append(analyses.finding(u, 'ward', None, 'module', 'no wrapper', 'no wrapper with the declared policy was analysed', cfg, None))
    return out, nf, n


def refused(u):
    """a policy between objects that exist is refused"""
    e = u.meta.get('expect') or {}
    kind, other = e.get('kind'), e.get('other')
    for c, w, post in pairs(u):
        if 0 in (c, w) and kind in ('function', 'static') or -1 in (c, w) and (kind == 'ctor' or not post):
            return []
        if 1 in (c, w) and other == 'pyobject' or kind == 'ctor' and other == 'out' or kind == 'virtual':
            return []
    bad = [r for r in u.rejected or () if 'custodian' in str(r)]
    return [analyses.finding(u, 'ward-refused', None, 'add_custodian_and_ward', 'valid policy refused', str(r), '-', None) for r in bad[:1]]
