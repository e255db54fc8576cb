"""Classes shared between modules (P18) and classes picked by the dynamic type of an object (P27).

For one configuration of a class that module A defines and module B imports, the emitted text of both modules is read: what A's
initialisation publishes in its namespace (the type object, the type map, the wrapper registry) against what B's initialisation takes out
of which module, and against the variable B's wrappers use for the same C++ class."""
import re
import cmini
import analyses
from cmini import strip, text, walk
from surface import Surface, ident, lit


def ptr(s):
    """the pointer behind a name that is a macro for *pointer, else the name itself"""
    s = str(s or '').replace(' ', '')
    while s[:1] in ('&', '(') or s[-1:] == ')':
        s = s[1:] if s[:1] in ('&', '(') else s[:-1]
    return s


def nrm(s):
    return re.sub(r'^::', '', re.sub(r'\s+', '', str(s or '')))


class Facts:
    """which C++ class each wrapper struct holds; which type object, type map and registry the code uses for each struct"""

    def __init__(self, p, cfg, utext):
        self.S = S = Surface(p, cfg)
        self.p = p
        self.holds = {}
        for it in p.items:
            if it[0] == 'type' and it[2].startswith('typedef struct') and it[4]:
                for m in it[3]:
                    if m[0] == 'declonly' and m[2] and m[2][-1].v == 'obj':
                        t = ''.join(x.v if x.k != 'id' else x.v + ' ' for x in m[2][:-1])
                        t = nrm(t).rstrip('*')
                        self.holds[it[4].strip()] = nrm(re.sub(r'^.*shared_ptr<(.*)>$', r'\1', t) if 'shared_ptr' in t else t)
        self.types = {}     # C++ class -> {type object}
        self.maps = {}      # C++ class -> {type map}
        self.regs = {}      # C++ class -> {registry}
        self.lookups = []   # (function, line, map, typeid argument, fallback type, struct allocated)
        for t in S.of('PyTypeObject'):
            b = t.slots.get('tp_basicsize')
            m = re.match(r'sizeof\((\w+)\)', text(strip(b)) if b is not None else '')
            if m and m.group(1) in self.holds:
                self.types.setdefault(self.holds[m.group(1)], set()).add(t.name)
        for pre, f in p.funcs:
            self.func(f)

    def func(self, f):
        var = {}
        for n in walk(f[6]):
            if n[0] == 'decl':
                for nm, base, ptr, arr, init, ctor in n[2]:
                    var[nm] = base.strip()
        for ty, nm in f[4] or ():
            var[nm] = str(ty).replace('*', '').strip()
        wt = {}
        for n in walk(f[6]):
            if n[0] != 'assign':
                continue
            l, r = strip(n[3]), strip(n[4])
            if l[0] == 'id' and r[0] == 'call':
                fn = strip(r[2])
                if fn[0] == 'member' and fn[4] == 'lookup_wrapper' and len(r[3]) == 2:
                    wt[l[2]] = (f[2], n[1], text(strip(fn[2])), text(strip(r[3][0])), ident(r[3][1]) or text(strip(r[3][1])))
                elif fn[0] == 'id' and re.match(r'PyObject_(GC_)?New\b', fn[2]) and len(r[3]) >= 2:
                    pass
        for n in walk(f[6]):
            if n[0] == 'call':
                fn = strip(n[2])
                if fn[0] == 'id' and fn[2] in ('PyObject_New', 'PyObject_GC_New') and len(n[3]) == 2:
                    st = text(strip(n[3][0]))
                    if st not in self.holds:
                        continue
                    k = self.holds[st]
                    a = strip(n[3][1])
                    v = ident(n[3][1]) or text(a)
                    if v in wt:
                        fn_, ln, mp, tid, fb = wt[v]
                        self.types.setdefault(k, set()).add(fb)
                        self.maps.setdefault(k, set()).add(mp)
                        self.lookups.append((fn_, ln, mp, tid, fb, st))
                    elif a[0] == 'un' and a[2] == '&':
                        self.types.setdefault(k, set()).add(v)
            elif n[0] == 'assign':
                l = strip(n[3])
                if l[0] == 'index' and '_registry' in text(l):
                    r = text(strip(l[2]))
                    m = re.search(r'(\w+)->obj', text(l[3]) if isinstance(l[3], tuple) else str(l[3]))
                    st = var.get(m.group(1)) if m else None
                    if st in self.holds:
                        self.regs.setdefault(self.holds[st], set()).add(r)


def init_events(F):
    out = []
    for f in F.S.init_funcs():
        out.append((f, F.S.events(f)))
    return out


def cast_id(e):
    """the variable an expression casts or takes the address of"""
    e = strip(e)
    for _ in range(6):
        if e[0] == 'un' and e[2] == '&':
            e = strip(e[3])
        elif e[0] == 'call' and len(e[3]) == 1:
            e = strip(e[3][0])
        else:
            break
    return e[2] if e[0] == 'id' else None


def published(F):
    """python attribute -> C variable, over the initialisation of every module of the unit: {(module function, name): variable}"""
    out = {}
    for f, ev in init_events(F):
        for e in ev:
            if e[1] == 'add':
                v = strip(e[4])
                n = v[0] == 'call' and strip(v[2])
                if n and n[0] == 'id' and n[2] in ('PyCObject_FromVoidPtr', 'PyCapsule_New') and v[3]:
                    out.setdefault(e[3], set()).add(cast_id(v[3][0]))
                else:
                    out.setdefault(e[3], set()).add(ident(e[4]) or cast_id(e[4]) or text(v))
    return out


def imports(F):
    """[(function, line, module, attribute, pointer variable, index in the events)]"""
    out = []
    for f, ev in init_events(F):
        mods, attrs = {}, {}
        for i, e in enumerate(ev):
            if e[1] != 'set':
                continue
            l, r = e[2], e[3]
            calls = [n for n in walk(r) if n[0] == 'call']
            done = False
            for n in calls:
                fn = ident(n[2])
                if fn == 'PyImport_ImportModule':
                    mods[l] = lit(n[3][0])
                    done = True
                elif fn in ('PyObject_GetAttrString', 'PyDict_GetItemString') and len(n[3]) == 2:
                    src = text(strip(n[3][0]))
                    attrs[l] = (mods.get(src), lit(n[3][1]))
                    out.append([f[2], e[0], mods.get(src), lit(n[3][1]), l, i, f])
                    done = True
            if done:
                continue
            for n in walk(r):
                if n[0] == 'id' and n[2] in attrs and n[2] != l:
                    m, a = attrs[n[2]]
                    out.append([f[2], e[0], m, a, l, i, f])
    return out


def check(u, p, cfg):
    """-> [(topic, function, line, what, msg)], obligations"""
    x = u.meta['expect']
    out, no = [], 0
    c = u.meta.setdefault('_export', {})
    if cfg not in c:
        try:
            c[cfg] = analyses.Parsed(u.meta['export'], dict(analyses.CONFIGS)[cfg])
        except cmini.CError as e:
            c[cfg] = e
    q = c[cfg]
    if isinstance(q, Exception):
        return [('shared', '', 0, 'the exporting module cannot be read', str(q))], 1
    E, B = Facts(q, cfg, u.meta['export']), Facts(p, cfg, u.text)
    pub = published(E)
    imp = imports(B)
    for K in x['imported']:
        K = nrm(K)
        want = 'uExp.uLib.uNs' if x['kind'] == 'namespace' else 'uExp.uLib'
        for what, b, e in (('type object', B.types, E.types), ('type map', B.maps, E.maps), ('wrapper registry', B.regs, E.regs)):
            no += 1
            bs = {ptr(v) for v in b.get(K, ()) if v}
            es = {ptr(v) for v in e.get(K, ()) if v}
            if not bs:
                if what == 'type object':
                    out.append(('shared', '', 0, 'no %s is used for an imported class' % what, K))
                continue
            if len(bs) > 1:
                out.append(('shared', '', 0, 'several %ss are used for one imported class' % what, '%s: %s' % (K, sorted(bs))))
                continue
            v = next(iter(bs))
            var = v.lstrip('*')
            got = [i for i in imp if i[4] == var]
            if not v.startswith('*') or not got:
                out.append(('shared', '', 0, 'the %s of an imported class is not taken from the module that defines it' % what, '%s: %s' % (K, v)))
                continue
            for fn, ln, mod, attr, l, i, f in got:
                if mod != want:
                    out.append(('shared', fn, ln, 'the %s of an imported class is taken from another module' % what, '%s: %s, expected %s' % (K, mod, want)))
                if what != 'type object' or es:
                    src = {s for s in pub.get(attr, ())}
                    if es and not src & es:
                        out.append(('shared', fn, ln, 'the %s of an imported class is not the one its module publishes under that name' % what,
                                    '%s: %s.%s is %s there, its wrappers use %s' % (K, mod, attr, sorted(map(str, src)) or 'nothing', sorted(es))))
            # used only after it was imported
            for f, ev in init_events(B):
                first = min([i[5] for i in got if i[0] == f[2]] or [None], default=None)
                if first is None:
                    continue
                for k, e2 in enumerate(ev):
                    if k >= first:
                        break
                    if any(isinstance(y, tuple) and any(n[0] == 'id' and n[2] == var for n in walk(y)) for y in e2):
                        no += 1
                        out.append(('shared', f[2], e2[0], 'the %s of an imported class is used before it is imported' % what, K))
                        break
    return out, no


def findings(u, cfg):
    if u.error or u.text is None or not u.meta.get('export'):
        return [], 0, 0
    p = analyses.parsed(u, cfg)
    if isinstance(p, Exception):
        return [], 0, 0
    probs, n = check(u, p, cfg)
    lines = u.text.split('\n')
    return [analyses.finding(u, t, analyses.where(u, lines, ln), fn, what, msg, cfg, None, ln) for t, fn, ln, what, msg in probs], len(p.funcs), n


# ------------------------------------------------------------------ dynamic types (P27)
def narrowing(d, bases, default):
    """effective automatic_type_narrowing of a class declaration"""
    v = d.a.get('automatic_type_narrowing')
    if v is not None:
        return bool(v)
    b = bases(d)
    return narrowing(b[0], bases, default) if b and hasattr(b[0], 'op') else default


def simple_base(e):
    """variable a value expression names: v, *v, (v), &*v, casts of v"""
    e = strip(e)
    for _ in range(8):
        if e[0] == 'un' and e[2] in ('*', '&'):
            e = strip(e[3])
        elif e[0] in ('ccast', 'cast'):
            e = strip(e[-1])
        else:
            break
    return e[2] if e[0] == 'id' else None


def narrow_check(u, B):
    S, F = B.S, Facts(B.S.p, B.S.cfg, u.text)
    out, no = [], 0
    ds = [d for d in B.log.all if d.op in ('add_class', 'add_struct', 'add_exception') and d.ok]
    dflt = bool((u.meta.get('settings') or {}).get('automatic_type_narrowing'))
    on = [d for d in ds if narrowing(d, B.bases, dflt)]
    regs = {}
    for f, ev in init_events(F):
        for e in ev:
            if e[1] != 'other':
                continue
            c = e[2]
            fn = strip(c[2])
            if fn[0] == 'member' and fn[4] == 'register_wrapper' and len(c[3]) == 2:
                a = strip(c[3][0])
                ty = nrm(text(strip(a[3][0]))) if a[0] == 'call' and ident(a[2]) == 'typeid' and len(a[3]) == 1 else None
                regs.setdefault(ty, []).append((ptr(text(strip(fn[2]))), ptr(ident(c[3][1]) or text(strip(c[3][1]))), e[0], f[2]))
    root_of = {}
    for d in on:
        r = d
        while True:
            b = B.bases(r)
            if b and hasattr(b[0], 'op') and b[0] in on:
                r = b[0]
            else:
                break
        root_of[nrm(B.full(d))] = nrm(B.full(r))
    for d in on:
        if d.import_from_module:
            continue
        K = nrm(B.full(d))
        no += 1
        rs = regs.get(K, [])
        ts = {ptr(t) for t in F.types.get(K, ())}
        if len(rs) != 1:
            out.append(('narrow', '', 0, 'class is entered %d times in the map of dynamic types' % len(rs), K))
            continue
        mp, t, ln, fn = rs[0]
        if ts and t not in ts:
            out.append(('narrow', fn, ln, 'class is entered with the Python type of another class', '%s: %s, expected %s' % (K, t, sorted(ts))))
        rr = regs.get(root_of[K])
        if rr and rr[0][0] != mp:
            out.append(('narrow', fn, ln, 'class is entered in another map than the root of its tree', '%s: %s / %s' % (K, mp, rr[0][0])))
    # uses
    onames = {nrm(B.full(d)) for d in on}
    offnames = {nrm(B.full(d)) for d in ds} - onames
    for pre, f in F.p.funcs:
        alloc, objs, flags, wt = {}, {}, {}, {}
        for n in walk(f[6]):
            if n[0] != 'assign':
                continue
            l, r = strip(n[3]), strip(n[4])
            if l[0] == 'id':
                for c in walk(r):
                    if c[0] != 'call':
                        continue
                    fn = strip(c[2])
                    if fn[0] == 'id' and fn[2] in ('PyObject_New', 'PyObject_GC_New') and len(c[3]) == 2 and text(strip(c[3][0])) in F.holds:
                        alloc.setdefault(l[2], []).append((n[1], text(strip(c[3][0])), c[3][1]))
                    elif fn[0] == 'member' and fn[4] == 'lookup_wrapper' and len(c[3]) == 2:
                        wt[l[2]] = (n[1], ptr(text(strip(fn[2]))), c[3][0], ptr(ident(c[3][1]) or text(strip(c[3][1]))))
            elif l[0] == 'member' and l[4] == 'obj' and strip(l[2])[0] == 'id':
                objs.setdefault(strip(l[2])[2], []).append((n[1], n[4]))
            elif l[0] == 'member' and l[4] == 'flags' and strip(l[2])[0] == 'id':
                flags.setdefault(strip(l[2])[2], []).append((n[1], text(r)))
        for v, al in alloc.items():
            for k, (ln, st, ty) in enumerate(al):
                K = F.holds[st]
                nxt = al[k + 1][0] if k + 1 < len(al) else 10 ** 9
                ob = [(l2, e) for l2, e in objs.get(v, ()) if ln < l2 < nxt]
                fl = [t for l2, t in flags.get(v, ()) if ln < l2 < nxt]
                w = wt.get(ident(ty) or '')
                if w:
                    no += 1
                    if K in offnames:
                        out.append(('narrow', f[2], ln, 'class without narrowing is wrapped by its dynamic type', K))
                        continue
                    _, mp, tid, fb = w
                    ts = {ptr(t) for t in F.types.get(K, ())}
                    own = regs.get(K)
                    if own and fb != own[0][1]:
                        out.append(('narrow', f[2], ln, 'the fallback is not the type of the declared class', '%s: %s' % (K, fb)))
                    rr = regs.get(root_of.get(K))
                    if rr and mp != rr[0][0]:
                        out.append(('narrow', f[2], ln, 'dynamic type is looked up in the map of another class', '%s: %s' % (K, mp)))
                    t = strip(tid)
                    if t[0] == 'call' and ident(t[2]) == 'typeid' and len(t[3]) == 1:
                        a = strip(t[3][0])
                        x = simple_base(a)
                        if a[0] == 'id' and x and not any(simple_base(e) == x and strip(e)[0] == 'un' for _, e in ob) and any(
                                simple_base(e) == x for _, e in ob):
                            out.append(('narrow', f[2], ln, 'the type of the pointer is looked up, not of the object', text(a)))
                        for l2, e in ob:
                            y = simple_base(e)
                            if any(q[0] == 'new' for q in walk(e)):
                                out.append(('narrow', f[2], l2, 'a copy is wrapped with the dynamic type of the original', text(e)))
                            elif x and y and x != y:
                                out.append(('narrow', f[2], l2, 'the dynamic type of one object is used for another', '%s / %s' % (x, y)))
                elif K in onames and ob and fl and all('FLAG_NONE' in t for t in fl) and not any(
                        q[0] in ('new', 'call') for _, e in ob for q in walk(e)) and all(simple_base(e) and strip(e)[0] != 'un' for _, e in ob):
                    no += 1
                    out.append(('narrow', f[2], ln, 'object of a class with narrowing is wrapped by its declared type', '%s: %s' % (K, text(ob[0][1]))))
    # the map itself
    maps = [f for pre, f in F.p.funcs if 'TypeMap' in (pre or '') + f[2]]
    for f in maps:
        for n in walk(f[6]):
            if f[2].split('::')[-1] == 'register_wrapper' and n[0] == 'call' and strip(n[2])[0] == 'member' and strip(n[2])[4] in (
                    'insert', 'emplace', 'try_emplace') and any(q[0] == 'index' and text(strip(q[2])) == text(strip(strip(n[2])[2]))
                                                                 for g in maps if g is not f for q in walk(g[6])):
                out.append(('narrow', f[2], n[1], 'a type looked up before it is registered is never entered', text(n)))
    for pre, f in F.p.funcs:
        if f[2].split('::')[-1] in ('register_wrapper', 'lookup_wrapper') and 'TypeMap' in (pre or '') + f[2]:
            no += 1
            out += map_check(f)
    return out, no


def map_check(f):
    """the dictionary behind the dynamic types: register_wrapper stores its type under the name of the C++ type; lookup_wrapper returns what was
    stored under the name of the type (or of a base of it), the fallback when nothing was, and NULL never"""
    P = [n for _, n in f[3][1]] if isinstance(f[3], tuple) else [n for _, n in f[4]]
    out, bad = [], lambda ln, what, msg='': out.append(('narrow', f[2], ln, what, msg))
    if len(P) != 2:
        return out
    info, arg = P
    derived = {info}
    for _ in range(3):
        for n in walk(f[6] if len(f) > 6 else f[5]):
            pairs = [(n[3], n[4])] if n[0] == 'assign' else [(('id', 0, d[0]), d[4]) for d in n[2] if d[4]] if n[0] == 'decl' else []
            for l, r in pairs:
                l = strip(l)
                if l[0] == 'id' and any(q[0] == 'id' and q[2] in derived for q in walk(r)) and not any(q[0] == 'index' for q in walk(r)):
                    derived.add(l[2])
    key = lambda e: any(q[0] == 'call' and strip(q[2])[0] == 'member' and strip(q[2])[4] == 'name' and ident(strip(q[2])[2]) in derived for q in walk(e))
    body = f[6] if len(f) > 6 else f[5]
    if f[2].split('::')[-1] == 'register_wrapper':
        st = [n for n in walk(body) if n[0] == 'assign' and strip(n[3])[0] == 'index']
        if st and not any(key(strip(n[3])[3]) and ident(strip(n[4])) == arg for n in st):
            bad(st[0][1], 'the map does not store the type under the name of the C++ type', text(st[0]))
        return out
    vars_ = set()
    for n in walk(body):
        pairs = [(n[3], n[4])] if n[0] == 'assign' else [(('id', 0, d[0]), d[4]) for d in n[2] if d[4]] if n[0] == 'decl' else []
        for l, r in pairs:
            r = strip(r)
            if strip(l)[0] == 'id' and r[0] == 'index':
                vars_.add(strip(l)[2])
                if not key(r[3]):
                    bad(n[1], 'the map is asked for another key than the C++ type', text(r))
    rets = []

    def vals(e, known):
        """[(kind, known)] a returned expression may be"""
        e = strip(e)
        if e[0] == 'cond':
            c, t = strip(e[2]), True
            while c[0] == 'un' and c[2] == '!':
                c, t = strip(c[3]), not t
            v = ident(c)
            k1, k2 = dict(known), dict(known)
            if v in vars_:
                k1[v], k2[v] = t, not t
            return vals(e[3], k1) + vals(e[4], k2)
        v = ident(e)
        if v in vars_:
            return [('found', known.get(v))]
        if v == arg:
            return [('fallback', any(known.get(x) for x in vars_))]
        return [('zero', None)] if e[0] == 'num' or v in ('NULL', 'nullptr') else [('?', None)]

    def go(s, known):
        """whether control falls through"""
        if s is None:
            return True
        if s[0] == 'block':
            for x in s[2]:
                if x[0] == 'if':
                    c, t = strip(x[2]), True
                    while c[0] == 'un' and c[2] == '!':
                        c, t = strip(c[3]), not t
                    v = ident(c)
                    k1, k2 = dict(known), dict(known)
                    if v in vars_:
                        k1[v], k2[v] = t, not t
                    f1, f2 = go(x[3], k1), go(x[4], k2)
                    if not f1 and not f2:
                        return False
                    if v in vars_ and f1 != f2:
                        known = k1 if f1 else k2
                elif not go(x, known):
                    return False
                else:
                    for q in walk(x):
                        if q[0] == 'assign' and ident(q[3]) in known:
                            known.pop(ident(q[3]))
            return True
        if s[0] == 'if':
            return go(('block', s[1], [s]), dict(known))
        if s[0] in ('while', 'for', 'do'):
            for q in walk(s):
                if q[0] == 'assign' and ident(q[3]) in known:
                    known.pop(ident(q[3]))
                if q[0] == 'return' and q is not s and q[2] is not None:
                    rets.append((q[1], q[2], [('?', None)]))
            return True
        if s[0] == 'return':
            if s[2] is not None:
                rets.append((s[1], s[2], vals(s[2], dict(known))))
            return False
        return True
    if go(body, {}):
        bad(f[1], 'the lookup may end without a value')
    kinds = [k for _, _, vs in rets for k in vs]
    if not any(k[0] in ('found', '?') for k in kinds):
        bad(f[1], 'the lookup never returns what was registered')
    for ln, e, vs in rets:
        for k, g in vs:
            if k == 'found' and g is not True or k == 'zero':
                bad(ln, 'the lookup may return NULL', text(e))
            elif k == 'fallback' and g:
                bad(ln, 'the fallback is returned although a type is registered', text(e))
    return out


def narrow_findings(u, cfg):
    if u.error or u.text is None or u.rejected:
        return [], 0, 0
    p = analyses.parsed(u, cfg)
    if isinstance(p, Exception):
        return [], 0, 0
    import binding
    B = binding.Binding(u, Surface(p, cfg))
    probs, n = narrow_check(u, B)
    lines = u.text.split('\n')
    return [analyses.finding(u, t, analyses.where(u, lines, ln), fn, what, msg, cfg, None, ln) for t, fn, ln, what, msg in probs], len(p.funcs), n
