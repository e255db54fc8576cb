"""Declared C++ exceptions: every call of an entity declared with throw=[...] is enclosed in a try whose handlers are the declared exceptions,
and every handler sets the corresponding Python exception and leaves with the error value."""
import re
import analyses, binding, surface
from cmini import strip, text, walk
from surface import ident, is_null

nrm = binding.nrm
SETS = ('PyErr_SetNone', 'PyErr_SetString', 'PyErr_SetObject', 'PyErr_Format')


def children(n):
    for x in n:
        if isinstance(x, tuple):
            yield x
        elif isinstance(x, list):
            yield x


def calls_in(n, trys, out):
    """(call node, enclosing try nodes) in n; a handler is not inside its own try"""
    if isinstance(n, list):
        for x in n:
            calls_in(x, trys, out)
        return
    if not isinstance(n, tuple) or not n:
        return
    if n[0] == 'try':
        calls_in(n[2], trys + [n], out)
        for c in n[3]:
            calls_in(c[2], trys, out)
        return
    if n[0] in ('call', 'new'):
        out.append((n, trys))
    for x in children(n):
        calls_in(x, trys, out)


def catch_type(toks):
    if [t.v for t in toks] == ['...']:
        return '...', None
    vs = [t.v for t in toks if t.v not in ('const', '&')]
    if len(vs) > 1 and re.match(r'\w+$', vs[-1]) and vs[-2] != '::':
        return nrm(''.join(vs[:-1])), vs[-1]
    return nrm(''.join(vs)), None


def callee(n):
    """('new', type) / ('meth', name, object) / ('call', name)"""
    if n[0] == 'new':
        return ('new', nrm(re.sub(r'\(.*$', '', n[2] if isinstance(n[2], str) else text(n[2]))))
    f = strip(n[2])
    if f[0] == 'member':
        return ('meth', nrm(f[4]))
    if f[0] == 'id':
        return ('call', nrm(f[2]))
    return ('call', nrm(text(f)))


class Throws(binding.Binding):
    def __init__(self, u, S):
        super().__init__(u, S)
        self.targets = {}
        self.obl = 0
        for d in self.log.all:
            if not d.ok:
                continue
            self.target(d)

    def put(self, key, d, th):
        self.targets.setdefault(key, []).append((d, th))

    def target(self, d):
        th = [e for e in (d.get('throw') or []) if getattr(e, 'op', None) == 'add_exception']
        tm = '<%s>' % ','.join(str(x) for x in d.template_parameters) if d.get('template_parameters') and d.op != 'add_class' else ''
        if d.op == 'add_function':
            ns = self.ns(self.module_of(d.host))
            if d.foreign_cpp_namespace:
                ns = [d.foreign_cpp_namespace]
            self.put(('call', nrm('::'.join(ns + [d.name + tm]))), d, th)
        elif d.op == 'add_function_as_method':
            self.put(('call', nrm('::'.join(self.ns(self.module_of(d.host)) + [d.name + tm]))), d, th)
        elif d.op == 'add_function_as_constructor':
            self.put(('call', nrm('::'.join(self.ns(self.module_of(d.host)) + [d.name + tm]))), d, th)
        elif d.op == 'add_method':
            full = self.full(d.host)
            if d.get('visibility', 'public') == 'public':
                self.put(('meth', nrm(d.name + tm)), d, th)
                self.put(('call', nrm('%s::%s' % (full, d.name + tm))), d, th)
            self.put(('meth', nrm(d.name + '__parent_caller')), d, th)
        elif d.op in ('add_constructor', 'add_copy_constructor'):
            full = self.full(d.host)
            self.put(('new', nrm(full)), d, th)
            self.put(('new', nrm('::std::shared_ptr<%s>' % full)), d, th)
            self.put(('call', nrm('std::make_shared<%s>' % full)), d, th)
            st = next((s for s, _ in self.types.get(full, [])), None)
            if st:
                self.put(('new', nrm(st + '__PythonHelper')), d, th)

    def fullexc(self, e):
        return self.full(e)

    def var(self, e):
        """the expression that names the Python type of an exception"""
        name = e.custom_name or e.name
        if e.is_standard_error:
            return {'PyExc_' + name}
        if e.import_from_module:
            return None
        out = set()
        for m in self.mods.values():
            for n, ev in m.exc.items():
                if (ev[2] or '').split('.')[-1] != name:
                    continue
                st = next((l for x, kk, l, v, _ in m.order if kk == 'set' and x > n and strip(v)[0] == 'call' and
                           ident(strip(v)[2]) == 'PyErr_NewException'), None)
                if st:
                    out.add(st)
        return out

    def check_handler(self, f, c, e, line):
        nm = f[2]
        ty, vn = catch_type(c[1])
        body = c[2]
        sets = [n for n in walk(body) if n[0] == 'call' and ident(n[2]) in SETS]
        full = self.full(e)
        self.obl += 3
        if len(sets) != 1:
            self.bad('throw', nm, 'handler sets %d Python exceptions' % len(sets), full, line)
        else:
            a = strip(sets[0][3][0])
            got = text(a)
            want = self.var(e)
            if want is not None and got not in want:
                self.bad('throw', nm, 'handler sets the wrong Python exception', '%s: sets %s, declared as %s' % (full, got, sorted(want)), line)
            msg = e.message_rvalue
            if msg is None:
                if ident(sets[0][2]) != 'PyErr_SetNone':
                    self.bad('throw', nm, 'handler invents a message', full, line)
            else:
                t = nrm(msg % dict(EXC=vn)) if vn else None
                if len(sets[0][3]) < 2 or t not in nrm(text(strip(sets[0][3][1]))):
                    self.bad('throw', nm, 'handler does not pass the declared message', '%s: %s' % (full, msg), line)
        last = body[2][-1] if body[0] == 'block' and body[2] else None
        if last is None or last[0] != 'return' or last[2] is None:
            self.bad('throw', nm, 'handler does not leave the wrapper', full, line)
        else:
            t = text(strip(last[2]))
            ret = nrm(f[3] if isinstance(f[3], str) else '')
            if not (t in ('NULL', '0', 'nullptr') or t == '-1') or (t == '-1') != ('*' not in ret and not ret.endswith('PyObject*')) and ret:
                self.bad('throw', nm, 'handler does not return the error value', '%s: returns %s' % (full, t), line)
        for n in walk(body):
            if n[0] == 'assign' and 'return_exception' in text(n[3]):
                self.bad('throw', nm, 'handler reports a C++ exception as a refused overload', full, line)

    def go(self):
        S = self.S
        seen = set()
        for pre, f in S.p.funcs:
            nm = f[2]
            if analyses.is_proxy(f) or '__parent_caller' in nm or '__PythonHelper' in (pre or '') and not nm.startswith('_wrap'):
                continue
            out = []
            calls_in(f[6], [], out)
            for n, trys in out:
                key = callee(n)
                if key[0] == 'meth' and key not in self.targets:
                    continue
                ds = self.targets.get(key)
                if ds is None:
                    continue
                self.obl += 1
                cs = [[catch_type(c[1]) + (c,) for c in t[3]] for t in trys]
                flat = [x for t in reversed(cs) for x in t]
                got = [x[0] for x in flat]
                opts = []
                for d, th in ds:
                    opts.append(([self.full(e) for e in th], d, th))
                hit = [o for o in opts if sorted(o[0]) == sorted(got)]
                if not hit:
                    w = sorted({tuple(o[0]) for o in opts})
                    self.bad('throw', nm, 'exceptions of a call are not the declared ones',
                             '%s: handlers %s, declared %s' % (key[1], got, w), n[1])
                    continue
                for o in hit:
                    seen.add(id(o[1]))
                d, th = hit[0][1:]
                order = hit[0][0]
                for e in th:
                    p = e.parent
                    while getattr(p, 'op', None) == 'add_exception':
                        pf, ef = self.full(p), self.full(e)
                        if pf in got and got.index(pf) < got.index(ef) and order.index(ef) < order.index(pf):
                            self.bad('throw', nm, 'handler of a base exception precedes that of a derived one', '%s, %s' % (pf, ef), n[1])
                        p = p.parent
                for x in flat:
                    e = next(e for e in th if self.full(e) == x[0])
                    self.check_handler(f, x[2], e, x[2][0])
        for d in {id(x): x for v in self.targets.values() for x, th in v if th}.values():
            self.obl += 1
            if id(d) not in seen and not self.unused(d):
                self.bad('throw', '', 'no guarded call of an entity that throws', '%s %s' % (d.op, d.name))

    def unused(self, d):
        if d.visibility == 'private':
            return True
        return d.is_pure_virtual and d.visibility == 'protected'


def check(u, S):
    t = Throws(u, S)
    t.go()
    return [x for x in t.P if x[0] == 'throw'], t.obl
