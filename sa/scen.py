"""Families of abstract configurations (what a user of the generator can ask for)."""
from pyai import R
from uni import Scenario, Rejected

PLAIN_CTX = None

KW_OPTIONS = {
    'default_value': [None, 'DFLT'],
    'is_const': [False, True],
    'transfer_ownership': [None, True, False],
    'null_ok': [False, True],
    'array_length': [None, 3],
    'free_after_copy': [None, True],
    'caller_owns_return': [None, True, False],
    'caller_manages_return': [True, False],
    'reference_existing_object': [None, True],
    'return_internal_reference': [None, True],
}


class NS:
    pass


def std_module(c, classes=('Plain',), name='mm'):
    """module with a standard vocabulary of wrapped types (only the requested ones)"""
    M = c.M
    m = M.Module(name)
    m.add_include('"a.h"')
    ns = NS()
    ns.m = m
    ns.c = {}
    cc = c.mod('pybindgen.cppclass')
    for k in classes:
        if k == 'Plain':
            x = m.add_class('Plain')
            x.add_constructor([])
            x.add_copy_constructor()
        elif k == 'Abs':
            x = m.add_class('Abs')
            x.add_constructor([])
            x.add_method('pv', None, [], is_virtual=True, is_pure_virtual=True)
        elif k == 'Virt':
            x = m.add_class('Virt', allow_subclassing=True)
            x.add_constructor([])
            x.add_copy_constructor()
            x.add_method('vm0', M.retval('int'), [M.param('int', 'q')], is_virtual=True)
        elif k == 'Dyn':
            x = m.add_class('Dyn', automatic_type_narrowing=True, allow_subclassing=True)
            x.add_constructor([])
            x.add_copy_constructor()
            x.add_method('vm0', M.retval('int'), [M.param('int', 'q')], is_virtual=True)
            y = m.add_class('DynSub', parent=x)
            y.add_constructor([])
            y.add_copy_constructor()
            ns.c['DynSub'] = y
        elif k == 'RcM':
            x = m.add_class('RcM', memory_policy=cc.ReferenceCountingMethodsPolicy(
                incref_method='Ref', decref_method='Unref', peekref_method='PeekRef'))
            x.add_constructor([])
            x.add_copy_constructor()
        elif k == 'RcMV':
            x = m.add_class('RcMV', memory_policy=cc.ReferenceCountingMethodsPolicy(
                incref_method='Ref', decref_method='Unref', peekref_method='PeekRef'), allow_subclassing=True,
                automatic_type_narrowing=True)
            x.add_constructor([])
            x.add_copy_constructor()
            x.add_method('vm0', M.retval('int'), [M.param('int', 'q')], is_virtual=True)
        elif k == 'RcF':
            x = m.add_class('RcF', memory_policy=cc.ReferenceCountingFunctionsPolicy(
                incref_function='rcf_ref', decref_function='rcf_unref'))
            x.add_constructor([])
            x.add_copy_constructor()
        elif k == 'FreeF':
            x = m.add_class('FreeF', memory_policy=cc.FreeFunctionPolicy('freef_free'))
            x.add_constructor([])
            x.add_copy_constructor()
        elif k == 'Sp':
            sp = c.mod('pybindgen.typehandlers.smart_ptr')
            x = m.add_class('Sp', memory_policy=sp.StdSharedPtr('Sp'))
            x.add_constructor([])
            x.add_copy_constructor()
        elif k == 'SpV':
            sp = c.mod('pybindgen.typehandlers.smart_ptr')
            x = m.add_class('SpV', memory_policy=sp.StdSharedPtr('SpV'), allow_subclassing=True)
            x.add_constructor([])
            x.add_copy_constructor()
            x.add_method('vm0', M.retval('int'), [M.param('int', 'q')], is_virtual=True)
        elif k == 'Bsp':
            sp = c.mod('pybindgen.typehandlers.smart_ptr')
            x = m.add_class('Bsp', memory_policy=sp.BoostSharedPtr('Bsp'))
            x.add_constructor([])
            x.add_copy_constructor()
        elif k == 'Ext':
            x = m.add_class('Ext', import_from_module='other.mod')
        elif k == 'Enum':
            x = m.add_enum('Enum', ['E_A', 'E_B'])
        elif k == 'VecInt':
            x = m.add_container('std::vector<int>', 'int', 'vector')
        elif k == 'VecStr':
            x = m.add_container('std::vector<std::string>', 'std::string', 'vector')
        elif k == 'VecPlain':
            x = m.add_container('std::vector<Plain>', 'Plain', 'vector')
        elif k == 'MapStr':
            x = m.add_container('std::map<std::string, int>', ('std::string', 'int'), 'map')
        elif k == 'SetF':
            x = m.add_container('std::set<float>', 'float', 'set')
        else:
            raise KeyError(k)
        ns.c[k] = x
    return ns


# user-level type spellings per class kind: (class kinds needed, parameter spellings, return spellings)
CLASS_TYPES = []
for _k in ('Plain', 'Virt', 'Dyn', 'RcM', 'RcMV', 'RcF', 'FreeF', 'Ext', 'Abs'):
    CLASS_TYPES.append(((_k,), [_k, _k + '&', 'const %s&' % _k, _k + '*', 'const %s*' % _k],
                        [_k, _k + '&', 'const %s&' % _k, _k + '*', 'const %s*' % _k]))
for _k, _n in (('Sp', 'std::shared_ptr<Sp>'), ('SpV', 'std::shared_ptr<SpV>'), ('Bsp', 'boost::shared_ptr<Bsp>')):
    CLASS_TYPES.append(((_k,), [_k, _k + '&', 'const %s&' % _k, _n, _k + '*'], [_k, _k + '&', 'const %s&' % _k, _n, _k + '*']))
CLASS_TYPES.append((('Enum',), ['Enum'], ['Enum']))
for _k, _n in (('VecInt', 'std::vector<int>'), ('VecStr', 'std::vector<std::string>'), ('MapStr', 'std::map<std::string, int>'),
               ('SetF', 'std::set<float>')):
    CLASS_TYPES.append(((_k,), [_n, _n + '&', 'const %s&' % _n, _n + '*', 'const %s*' % _n], [_n]))
CLASS_TYPES.append((('Plain', 'VecPlain'), ['std::vector<Plain>', 'std::vector<Plain>&'], ['std::vector<Plain>']))


def subclasses(root):
    out, todo, seen = [], [root], set()
    while todo:
        k = todo.pop(0)
        for s in k.__subclasses__():
            if s not in seen:
                seen.add(s)
                out.append(s)
                todo.append(s)
    return out


def handler_kw(c, matcher, ctype, is_param):
    """option Choices for the handler of this type, taken from its constructor signature"""
    cls = matcher.lookup(ctype)[0]
    init = cls.__init__
    args = getattr(init, '__pyai_args__', None)
    kw = {}
    if args is None:
        return cls, kw
    names = [a for a in args[0] + args[1] if a not in ('self', 'ctype', 'name', 'value', 'direction')]
    if is_param:
        dirs = R(getattr(cls, 'DIRECTIONS', None))
        if isinstance(dirs, (list, tuple)) and 'direction' in args[0] + args[1]:
            kw['direction'] = sorted(dirs)
    for n in names:
        if n in KW_OPTIONS:
            kw[n] = KW_OPTIONS[n]
    return cls, kw


def builtin_types(I):
    """all (ctype) spellings registered by the analysed source, for parameters and return values"""
    base = I.mod('pybindgen.typehandlers.base')
    P, Rv = {}, {}
    for cls in subclasses(base.Parameter):
        ct = R(getattr(cls, 'CTYPES', None))
        if isinstance(ct, list) and ct:
            P.setdefault(cls.__name__, list(ct))
    for cls in subclasses(base.ReturnValue):
        ct = R(getattr(cls, 'CTYPES', None))
        if isinstance(ct, list) and ct:
            Rv.setdefault(cls.__name__, list(ct))
    return P, Rv


def choices(c, prefix, kw):
    return {k: c.ch(prefix + k, o) for k, o in kw.items()}


def mk_param(c, ctype, name, prefix='', restrict=None):
    base = c.mod('pybindgen.typehandlers.base')
    cls, kw = handler_kw(c, base.param_type_matcher, ctype, True)
    if restrict:
        kw = {k: (restrict[k] if k in restrict else v) for k, v in kw.items()}
        kw = {k: v for k, v in kw.items() if v is not None}
    ch = choices(c, prefix, kw)
    return c.M.param(ctype, name, **ch), ch, cls


def mk_retval(c, ctype, prefix='r_', restrict=None):
    base = c.mod('pybindgen.typehandlers.base')
    cls, kw = handler_kw(c, base.return_type_matcher, ctype, False)
    if restrict:
        kw = {k: (restrict[k] if k in restrict else v) for k, v in kw.items()}
        kw = {k: v for k, v in kw.items() if v is not None}
    ch = choices(c, prefix, kw)
    return c.M.retval(ctype, **ch), ch, cls


# ------------------------------------------------------------------ bundled variants
class Variant:
    """one user configuration of one wrapper; `tag` is the atom that names the wrapped entity"""
    __slots__ = ('kind', 'classes', 'ctype', 'kw', 'tag', 'extra')

    def __init__(self, kind, classes, ctype, kw, extra=None):
        self.kind, self.classes, self.ctype, self.kw, self.extra = kind, tuple(classes), ctype, kw, extra or {}
        self.tag = None

    def desc(self):
        o = dict(self.kw)
        o.update(self.extra)
        return '%s %s {%s}' % (self.kind, self.ctype, ', '.join('%s=%r' % (k, v) for k, v in sorted(o.items()) if v is not None))

    def key(self):
        return self.desc()


class SkipAll:
    """error handler: record and skip the wrapper"""

    def __init__(self, log, skip=True):
        self.log, self.skip = log, skip

    def handle_error(self, wrapper, exception, traceback_):
        nm = None
        for a in ('function_name', 'method_name', 'attribute_name', 'name'):
            try:
                nm = R(getattr(wrapper, a))
            except Exception:
                continue
            if nm:
                break
        self.log.append((nm, type(exception).__name__, str(exception)[:120], getattr(exception, '_pyai_frame', None)))
        return self.skip


def add_variant(c, ns, holder, v):
    M = c.M
    t = v.tag
    m = ns.m
    if v.kind == 'fn-param':
        return m.add_function(t, None, [M.param(v.ctype, 'x', **v.kw)], **v.extra)
    if v.kind == 'fn-ret':
        return m.add_function(t, M.retval(v.ctype, **v.kw), [], **v.extra)
    if v.kind == 'meth-ret':
        return holder.add_method(t, M.retval(v.ctype, **v.kw), [], **v.extra)
    if v.kind == 'virt-param':
        return holder.add_method(t, M.retval('void'), [M.param(v.ctype, 'x', **v.kw)], is_virtual=True, **v.extra)
    if v.kind == 'virt-ret':
        return holder.add_method(t, M.retval(v.ctype, **v.kw), [], is_virtual=True, **v.extra)
    if v.kind == 'attr':
        return holder.add_instance_attribute(t, M.retval(v.ctype, **v.kw), **v.extra)
    if v.kind == 'sattr':
        return holder.add_static_attribute(t, M.retval(v.ctype, **v.kw), **v.extra)
    raise KeyError(v.kind)


def bundle(name, classes, vs, pre=None):
    def build(c):
        if pre:
            pre(c)
        ns = std_module(c, classes)
        log = []
        c.mod('pybindgen.settings').error_handler = SkipAll(log)
        holder = None
        if any(v.kind not in ('fn-param', 'fn-ret') for v in vs):
            virt = any(v.kind.startswith('virt') for v in vs)
            holder = ns.m.add_class('Vx' if virt else 'Ax', allow_subclassing=virt)
            holder.add_constructor([])
        st = {}
        for v in vs:
            try:
                add_variant(c, ns, holder, v)
                st[v.tag] = 'added'
            except Exception as e:
                st[v.tag] = ('rejected', type(e).__name__, str(e)[:100], getattr(e, '_pyai_frame', None))
        c.meta['variants'] = {v.tag: (v, st[v.tag]) for v in vs}
        c.meta['skipped'] = log
        c.generate(ns.m)
    s = Scenario(name, build, 1)
    s.variants = vs
    s.classes = classes
    s.remake = lambda vs2: bundle(name, classes, vs2, pre)
    return s


def product(kw):
    import itertools
    ks = sorted(kw)
    for combo in itertools.product(*[kw[k] for k in ks]):
        yield dict(zip(ks, combo))


def plain_kw(d, defaults=()):
    """drop options left at None"""
    return {k: v for k, v in d.items() if v is not None}


QUICK_DROP = {'is_const', 'caller_manages_return'}


def handler_variants(I, tier):
    """every handler type x option combination, as fn/virtual/attribute wrappers, per class vocabulary"""
    base = I.mod('pybindgen.typehandlers.base')
    pt, rt = type_universe(I)
    thorough = tier == 'thorough'
    quick_classes = {(), ('Plain',), ('Virt',), ('Dyn',), ('RcM',), ('RcMV',), ('FreeF',), ('Sp',), ('SpV',), ('Enum',), ('VecInt',), ('VecStr',),
                     ('MapStr',), ('Abs',), ('Ext',)}
    groups = {}
    # handlers of class types only exist once the class is registered: register the vocabulary in a scratch module
    from uni import Ctx, Unit
    c = Ctx(I, Unit())
    allc = sorted({k for cl, _ in pt for k in cl})
    std_module(c, [x for x in allc if x != 'VecPlain'] + ['VecPlain'])
    for is_param, lst in ((True, pt), (False, rt)):
        for cl, t in lst:
            if not thorough and cl not in quick_classes:
                continue
            try:
                cls, kw = handler_kw(c, base.param_type_matcher if is_param else base.return_type_matcher, t, is_param)
            except Exception:
                continue
            if not thorough:
                kw = {k: o for k, o in kw.items() if k not in QUICK_DROP}
            scalar_refish = '&' in t or '*' in t
            if not scalar_refish:
                kw.pop('is_const', None)
            if is_param and 'default_value' in kw and '*' in t:
                kw['default_value'] = list(kw['default_value']) + ['NULL']
            for combo in product(kw):
                o = plain_kw(combo)
                if is_param:
                    groups.setdefault((cl, 'fn'), []).append(Variant('fn-param', cl, t, o))
                    if 'default_value' not in o:
                        groups.setdefault((cl, 'virt'), []).append(Variant('virt-param', cl, t, o))
                else:
                    groups.setdefault((cl, 'fn'), []).append(Variant('fn-ret', cl, t, o))
                    groups.setdefault((cl, 'virt'), []).append(Variant('virt-ret', cl, t, o))
                    if t != 'void':
                        if thorough or o.get('free_after_copy') is None:
                            groups.setdefault((cl, 'attr'), []).append(Variant('attr', cl, t, o))
                            if thorough or cl in ((), ('Plain',)):
                                groups.setdefault((cl, 'attr'), []).append(Variant('sattr', cl, t, o))
    return groups


def handler_bundles(I, tier, kinds=('fn', 'virt', 'attr'), size=40, pre=None):
    S = []
    for (cl, k), vs in sorted(handler_variants_cached(I, tier).items(), key=str):
        if k not in kinds:
            continue
        for a in range(0, len(vs), size):
            part = vs[a:a + size]
            S.append(bundle('%s/%s/%d' % ('+'.join(cl) or 'builtin', k, a // size), cl, part, pre))
    return S


def sandwich(name, kind, classes, vs):
    """every parameter handler between two outputs and, where it may stand there, before a further input"""
    def build(c):
        ns = std_module(c, classes)
        log = []
        c.mod('pybindgen.settings').error_handler = SkipAll(log)
        M = c.M
        virt = kind == 'virt'
        if virt:
            h = ns.m.add_class('Vx', allow_subclassing=True)
            h.add_constructor([])
        W = c.meta['wrappers'] = []
        for v in vs:
            d = v.kw.get('direction', 1)
            cls = any(re.search(r'\b%s\b' % re.escape(k), v.ctype) for k in v.classes) and '<' not in v.ctype
            if d != 1 and (cls and '*' in v.ctype or v.ctype[-1] not in '*&'):
                continue
            rd = d
            if cls and d != 1:
                d, rd = (1 if d == 3 else 2), 1
            dv = v.kw.get('default_value')
            try:
                ps = [M.param('int*', 'wa', direction=2), M.param(v.ctype, 'x', **v.kw), M.param('double*', 'wb', direction=2)]
                par = [('wa', 2, False), ('x', d, dv is not None), ('wb', 2, False)]
                rpar = [('wa', 2, False), ('x', rd, False), ('wb', 2, False)]
                if dv is None:
                    ps += [M.param('short', 'wc'), M.param('int&', 'wd', direction=3)]
                    more = [('wc', 1, False), ('wd', 3, False)]
                    par += more
                    rpar += more
                fn = 's' + v.tag
                if virt:
                    h.add_method(fn, M.retval('int'), ps, is_virtual=True)
                else:
                    ns.m.add_function(fn, M.retval('int'), ps)
            except Exception:
                continue
            W.append(dict(cname=fn, params=par, rparams=rpar, ret=True, kind='sandwich', dflt={'x': dv} if dv is not None else {},
                          nodflt=cls and d != 1 or '*' in v.ctype and not cls and 'char' not in v.ctype and 'PyObject' not in v.ctype,
                          desc=v.desc()))
        c.meta['skipped'] = log
        c.generate(ns.m)
    return Scenario(name, build, 1)


def sandwich_bundles(I, tier, kinds=('fn', 'virt'), size=40):
    S = []
    for (cl, k), vs in sorted(handler_variants_cached(I, tier).items(), key=str):
        if k not in kinds:
            continue
        vs = [v for v in vs if v.kind in ('fn-param', 'virt-param')]
        for a in range(0, len(vs), size):
            S.append(sandwich('sandwich/%s/%s/%d' % ('+'.join(cl) or 'builtin', k, a // size), k, cl, vs[a:a + size]))
    return S


_hv = {}


def handler_variants_cached(I, tier):
    if tier not in _hv:
        import uni

        def f():
            g = handler_variants(I, tier)
            n = 0
            for key in sorted(g, key=str):
                for v in g[key]:
                    v.tag = 'tgt%d' % n
                    n += 1
            return g
        _hv[tier] = uni._fork_call(f)
    return _hv[tier]


def type_universe(I):
    P, Rv = builtin_types(I)
    pt = [((), ct) for n, l in P.items() for ct in l[:1]]
    rt = [((), ct) for n, l in Rv.items() for ct in l[:1]]
    for classes, ps, rs in CLASS_TYPES:
        pt += [(classes, x) for x in ps]
        rt += [(classes, x) for x in rs]
    return pt, rt


USER_NAMES = set('''Plain Abs Virt Dyn DynSub RcM RcMV RcF FreeF Sp SpV Bsp Ext Enum E_A E_B pv vm0 Ref Unref PeekRef rcf_ref
rcf_unref freef_free tgt DFLT fld Vx Ax vmeth other mod'''.split())
