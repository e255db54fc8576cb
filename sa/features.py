"""Families of abstract configurations that exercise the generator's features (classes, operators, overloads, virtuals,
ownership policies, submodules, sections, ...).  Every user-chosen identifier is u[A-Z]..., every option is a partition."""
import re
from pyai import R
from uni import Scenario, Rejected, Out
import scen
import uni


class UserNames:
    """names a configuration may mention: the fixed vocabulary of scen.py or anything of the form u[A-Z]..."""

    def __init__(self, more=()):
        self.s = set(scen.USER_NAMES) | set(more)

    def __contains__(self, w):
        return w in self.s or re.fullmatch(r'[a-z]{0,2}u[A-Z]\w*', w) is not None


FAMILIES = {}


def fam(name, max_paths=400, tiers=('quick', 'thorough')):
    def d(f):
        FAMILIES[name] = (f, max_paths, tiers)
        return f
    return d


def policy(c, kind, cls):
    cc = c.mod('pybindgen.cppclass')
    if kind is None:
        return {}
    if kind == 'rcm':
        return dict(memory_policy=cc.ReferenceCountingMethodsPolicy(incref_method='uRef', decref_method='uUnref'))
    if kind == 'rcmp':
        return dict(memory_policy=cc.ReferenceCountingMethodsPolicy(incref_method='uRef', decref_method='uUnref',
                                                                    peekref_method='uPeek'))
    if kind == 'rcf':
        return dict(memory_policy=cc.ReferenceCountingFunctionsPolicy(incref_function='uRef_f', decref_function='uUnref_f'))
    if kind == 'rcfp':
        return dict(memory_policy=cc.ReferenceCountingFunctionsPolicy(incref_function='uRef_f', decref_function='uUnref_f',
                                                                      peekref_function='uPeek_f'))
    if kind == 'free':
        return dict(memory_policy=cc.FreeFunctionPolicy('uFree_f'))
    sp = c.mod('pybindgen.typehandlers.smart_ptr')
    if kind == 'std':
        return dict(memory_policy=sp.StdSharedPtr(cls))
    if kind == 'boost':
        return dict(memory_policy=sp.BoostSharedPtr(cls))
    raise KeyError(kind)


def ptr_t(kind, cls, sp=False):
    """the type a pointer to a class under that policy is passed as"""
    return {'std': '::std::shared_ptr< %s >', 'boost': '::boost::shared_ptr< %s >'}.get(kind, '%s*') % cls


def settings(c, **kw):
    st = c.mod('pybindgen.settings')
    for k, v in kw.items():
        setattr(st, k, v)
    c.meta.setdefault('settings', {}).update(kw)
    return st


def use_registry(c, kind):
    if kind == 'map':
        settings(c, wrapper_registry=c.mod('pybindgen.wrapper_registry').StdMapWrapperRegistry)


def newmod(c, name='uMod', **kw):
    m = c.M.Module(name, **kw)
    c.meta["root"] = dict(name=name, **kw)
    m.add_include('"u.h"')
    return m


def fill_class(c, x, name, virt=False, pure=False, copy=True):
    M = c.M
    x.add_constructor([])
    x.add_constructor([M.param('int', 'a'), M.param('double', 'b')])
    if copy:
        x.add_copy_constructor()
    x.add_method('uGet', M.retval('int'), [M.param('int', 'a')])
    x.add_method('uConst', M.retval('std::string'), [], is_const=True)
    x.add_method('uStat', M.retval('bool'), [M.param('bool', 'a')], is_static=True)
    x.add_instance_attribute('uAttr', M.retval('int'))
    x.add_static_attribute('uSAttr', M.retval('double'))
    if virt:
        x.add_method('uVirt', M.retval('int'), [M.param('int', 'a')], is_virtual=True)
        x.add_method('uVirtC', None, [], is_virtual=True, is_const=True)
        x.add_method('uVirtProt', M.retval('std::string'), [M.param('std::string', 's')], is_virtual=True, visibility='protected')
        x.add_method('uVirtPriv', None, [M.param('int', 'a')], is_virtual=True, visibility='private')
        x.add_method('uProt', M.retval('int'), [M.param('int', 'a')], visibility='protected')
    if pure:
        x.add_method('uPure', M.retval('int'), [M.param('int', 'a')], is_virtual=True, is_pure_virtual=True)


@fam('class-shape')
def class_shape(c):
    pol = c.pick('policy', [None, 'rcm', 'rcmp', 'rcf', 'free', 'std', 'boost'])
    sub = c.pick('subclassing', [False, True])
    base = c.pick('base', ['none', 'single', 'two'])
    reg = c.pick('registry', ['null', 'map'])
    use_registry(c, reg)
    narrow = c.pick('narrowing', [False, True])
    m = newmod(c)
    M = c.M
    a = m.add_class('uBase', allow_subclassing=sub, automatic_type_narrowing=narrow, **policy(c, pol, 'uBase'))
    fill_class(c, a, 'uBase', virt=sub or narrow)
    if base == 'single':
        b = m.add_class('uDer', parent=a, allow_subclassing=sub)
        fill_class(c, b, 'uDer', virt=sub, pure=False)
        m.add_class('uDer2', parent=b)
    elif base == 'two':
        a2 = m.add_class('uBase2', **policy(c, pol, 'uBase2'))
        a2.add_constructor([])
        a2.add_method('uOther', M.retval('int'), [M.param('int', 'a')])
        a2.add_method('uOver', None, [M.param('int', 'a')])
        a2.add_method('uOver', None, [M.param('double', 'a')])
        a2.add_method('uOtherStat', None, [], is_static=True)
        b = m.add_class('uDer', parent=[a, a2])
        b.add_constructor([])
        b.add_method('uOver', None, [M.param('std::string', 'a')])
    t = ptr_t(pol, 'uBase')
    own = dict(caller_owns_return=True) if '*' in t else {}
    m.add_function('uMake', M.retval(t, **own), [])
    m.add_function('uTake', None, [M.param(t, 'p', **(dict(transfer_ownership=False) if own else {})), M.param('uBase&', 'q')])
    c.meta['expect'] = dict(policy=pol, sub=sub, base=base, registry=reg, narrow=narrow)
    c.generate(m)


@fam('class-flags')
def class_flags(c):
    flag = c.pick('flag', ['singleton', 'noctor', 'cannot', 'dtor-private', 'dtor-protected', 'incomplete', 'abstract', 'abstract-sub',
                           'helper-disabled', 'struct', 'struct-nocopy', 'struct-noctor', 'import', 'import-parent', 'foreign', 'template',
                           'custom-name', 'docstring', 'instance-fn', 'post-instance-fn', 'post-instance-fn-sub', 'inherit-ctors',
                           'trivial-copy', 'priv-ctor', 'prot-ctor', 'singleton-sub', 'outer', 'outer-sub', 'namespace', 'alias'])
    unb = c.pick('unblock', [False, True])
    settings(c, unblock_threads=unb)
    M = c.M
    m = newmod(c)
    kw = {}
    c.meta['expect'] = dict(flag=flag)

    def create(cls, code_block, lvalue, parameters, construct_type_name):
        code_block.write_code('%s = uCreate<%s>(%s);' % (lvalue, construct_type_name, parameters))

    def post(cls, code_block, lvalue, parameters, construct_type_name):
        code_block.write_code('uPost(%s);' % (lvalue,))
    name = 'uCls'
    tname = name
    host = m
    if flag.startswith('singleton'):
        kw['is_singleton'] = True
    if flag.endswith('-sub') or flag == 'helper-disabled':
        kw['allow_subclassing'] = True
    if flag == 'dtor-private':
        kw['destructor_visibility'] = 'private'
    if flag == 'dtor-protected':
        kw['destructor_visibility'] = 'protected'
    if flag == 'incomplete':
        kw['incomplete_type'] = True
        kw['memory_policy'] = c.mod('pybindgen.cppclass').FreeFunctionPolicy('uFree_f')
    if flag == 'import':
        kw['import_from_module'] = 'uOther.uMod2'
    if flag == 'foreign':
        kw['foreign_cpp_namespace'] = 'uForeign'
        tname = 'uForeign::uCls'
    if flag == 'template':
        kw['template_parameters'] = ['int']
        tname = 'uCls< int >'
    if flag == 'custom-name':
        kw['custom_name'] = 'uPyName'
    if flag == 'docstring':
        kw['docstring'] = 'uDoc text'
    if flag == 'import-parent':
        p = m.add_class('uPar', import_from_module='uOther.uMod2')
        kw['parent'] = p
    if flag == 'inherit-ctors':
        p = m.add_class('uPar')
        p.add_constructor([])
        p.add_copy_constructor()
        p.add_constructor([M.param('int', 'a')])
        kw['parent'] = p
    if flag in ('outer', 'outer-sub'):
        o = m.add_class('uOut')
        o.add_constructor([])
        host = o
        tname = 'uOut::uCls'
    if flag == 'namespace':
        host = m.add_cpp_namespace('uNs')
        tname = 'uNs::uCls'
    if flag.startswith('struct'):
        x = host.add_struct(name, no_copy=flag == 'struct-nocopy', no_constructor=flag == 'struct-noctor')
        x.add_instance_attribute('uF', M.retval('int'))
    else:
        x = host.add_class(name, **kw)
    if flag == 'alias':
        m.add_typedef(x, 'uAlias')
    if flag == 'import':
        m.add_function('uTake', None, [M.param('uCls*', 'p', transfer_ownership=False), M.param('uCls&', 'q')])
        m.add_function('uMake', M.retval('uCls*', caller_owns_return=True), [])
        c.generate(m)
        return
    if not flag.startswith('struct') and flag not in ('noctor', 'incomplete', 'inherit-ctors', 'priv-ctor', 'prot-ctor'):
        x.add_constructor([])
        x.add_constructor([M.param('int', 'a')])
    if flag == 'priv-ctor':
        x.add_constructor([], visibility='private')
    if flag == 'prot-ctor':
        x.add_constructor([], visibility='protected')
    if flag == 'inherit-ctors':
        x.inherit_default_constructors()
    if flag in ('trivial-copy', 'import-parent', 'helper-disabled', 'foreign', 'template', 'custom-name', 'docstring',
                'instance-fn', 'priv-ctor', 'prot-ctor', 'outer', 'outer-sub', 'namespace', 'alias'):
        x.add_copy_constructor()
    if flag == 'cannot':
        x.set_cannot_be_constructed('uReason')
    if flag == 'helper-disabled':
        x.set_helper_class_disabled()
    if flag in ('abstract', 'abstract-sub'):
        x.add_method('uPure', None, [], is_virtual=True, is_pure_virtual=True)
    if flag == 'instance-fn':
        x.set_instance_creation_function(create)
    if flag.startswith('post-instance-fn'):
        x.set_post_instance_creation_function(post)
        x.add_copy_constructor()
    x.add_method('uMeth', M.retval('int'), [M.param('int', 'a')])
    if kw.get('allow_subclassing'):
        x.add_method('uVirt', M.retval('int'), [M.param('int', 'a')], is_virtual=True)
    if flag not in ('incomplete',):
        m.add_function('uMake', M.retval(tname + '*', caller_owns_return=True), [])
        if flag not in ('dtor-private', 'dtor-protected', 'singleton', 'singleton-sub', 'struct-nocopy', 'noctor', 'cannot', 'abstract', 'abstract-sub'):
            try:
                m.add_function('uVal', M.retval(tname), [])
            except Exception:
                pass
    m.add_function('uTake', None, [M.param(tname + '*', 'p', transfer_ownership=False), M.param(tname + '&', 'q')])
    c.generate(m)


@fam('operators')
def operators(c):
    M = c.M
    m = newmod(c)
    o = m.add_class('uOther')
    o.add_constructor([])
    o.add_copy_constructor()
    r = m.add_class('uRes')
    r.add_constructor([])
    r.add_copy_constructor()
    sub = c.pick('subclassing', [False, True])
    x = m.add_class('uCls', allow_subclassing=sub)
    x.add_constructor([])
    x.add_copy_constructor()
    kind = c.pick('kind', ['compare', 'binary', 'inplace', 'unary+binary', 'mixed', 'str', 'overloaded-binary'])
    ex = c.meta['expect'] = dict(kind=kind, ops=[])
    if kind == 'compare':
        for op in c.pick('ops', [['=='], ['!='], ['<'], ['<='], ['>'], ['>='], ['==', '!='], ['<', '<=', '==', '!=', '>=', '>']]):
            x.add_binary_comparison_operator(op)
            ex['ops'].append(op)
    elif kind == 'binary':
        op = c.pick('op', ['+', '-', '*', '/'])
        right = c.pick('right', ['self', 'other', 'int', 'param', 'str'])
        res = c.pick('res', ['self', 'res'])
        rt = {'self': None, 'other': o, 'int': 'int', 'param': M.param('const uOther&', 'right'), 'str': 'std::string'}[right]
        x.add_binary_numeric_operator(op, result_cppclass=r if res == 'res' else None, right=rt)
        ex['ops'].append(op)
    elif kind == 'inplace':
        op = c.pick('op', ['+=', '-=', '*=', '/='])
        right = c.pick('right', ['self', 'int', 'param'])
        x.add_inplace_numeric_operator(op, right={'self': None, 'int': 'int', 'param': M.param('const uOther&', 'right')}[right])
        ex['ops'].append(op)
    elif kind == 'unary+binary':
        x.add_unary_numeric_operator('-', result_cppclass=c.pick('res', [None, r]))
        x.add_binary_numeric_operator('-')
        ex['ops'] += ['neg', '-']
    elif kind == 'mixed':
        for op in '+-*/':
            x.add_binary_numeric_operator(op)
            x.add_inplace_numeric_operator(op + '=')
            ex['ops'] += [op, op + '=']
        x.add_binary_comparison_operator('==')
        x.add_binary_comparison_operator('<')
        x.add_output_stream_operator()
        ex['ops'] += ['==', '<']
    elif kind == 'str':
        x.add_output_stream_operator()
    else:
        x.add_binary_numeric_operator('+')
        x.add_binary_numeric_operator('+', right='int')
        x.add_binary_numeric_operator('+', result_cppclass=r, left_cppclass=x, right=o)
        x.add_binary_numeric_operator('*', right='double')
        x.add_binary_numeric_operator('*', left_cppclass=o)
        ex['ops'] += ['+', '*']
    c.generate(m)


SEQ = {'__len__': ('size_t', []), '__getitem__': ('int', [('int', 'i')]), '__setitem__': ('int', [('int', 'i'), ('int', 'v')]),
       '__getslice__': ('uCls', [('int', 'a'), ('int', 'b')]), '__setslice__': ('int', [('int', 'a'), ('int', 'b'), ('const uCls&', 'v')]),
       '__contains__': ('bool', [('int', 'v')]), '__add__': ('uCls', [('const uCls&', 'o')]), '__mul__': ('uCls', [('int', 'n')]),
       '__iadd__': ('uCls', [('const uCls&', 'o')]), '__imul__': ('uCls', [('int', 'n')])}


@fam('sequence')
def sequence(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls')
    x.add_constructor([])
    x.add_copy_constructor()
    which = c.pick('methods', [[k] for k in SEQ] + [sorted(SEQ), ['__len__', '__getitem__', '__setitem__'], ['__getitem__', '__setitem__']])
    for k in which:
        ret, ps = SEQ[k]
        x.add_method(k, M.retval(ret), [M.param(t, n) for t, n in ps])
    over = c.pick('overload', [False, True])
    if over:
        for k in which:
            ret, ps = SEQ[k]
            if ps and k not in ('__len__',):
                x.add_method(k, M.retval(ret), [M.param('double', n) for t, n in ps])
    c.meta['expect'] = dict(methods=which, over=over)
    c.generate(m)


@fam('call-op')
def call_op(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls')
    x.add_constructor([])
    n = c.pick('n', [1, 2])
    rt = c.pick('ret', [None, 'int', 'std::string'])
    x.add_method('operator()', rt and M.retval(rt), [M.param('int', 'a')], custom_name='__call__')
    if n == 2:
        x.add_method('operator()', rt and M.retval(rt), [M.param('double', 'a'), M.param('bool', 'b')], custom_name='__call__')
    c.generate(m)


OVER = [[('int', 'a')], [('double', 'd')], [('std::string', 's')], [('uCls&', 'o')], [], [('int', 'a'), ('int', 'b')],
        [('uCls*', 'p', dict(transfer_ownership=True))], [('char*', 'z')]]


def params(c, spec):
    return [c.M.param(p[0], p[1], **(p[2] if len(p) > 2 else {})) for p in spec]


@fam('overloads')
def overloads(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls', allow_subclassing=c.pick('subclassing', [False, True]))
    x.add_constructor([])
    kind = c.pick('kind', ['function', 'method', 'static', 'mixed-static', 'virtual', 'const', 'custom', 'fn-as-method', 'derived', 'ret'])
    sel = c.pick('sel', [[0, 1], [0, 4], [4, 0], [3, 6], [2, 7, 5], [0, 1, 2, 3, 4, 5]])
    c.meta['expect'] = dict(kind=kind, n=len(sel), sel=list(sel))
    if kind == 'function':
        for i in sel:
            m.add_function('uFn', None, params(c, OVER[i]))
    elif kind == 'method':
        for i in sel:
            x.add_method('uFn', M.retval('int'), params(c, OVER[i]))
    elif kind == 'static':
        for i in sel:
            x.add_method('uFn', None, params(c, OVER[i]), is_static=True)
    elif kind == 'mixed-static':
        for j, i in enumerate(sel):
            x.add_method('uFn', None, params(c, OVER[i]), is_static=bool(j & 1))
    elif kind == 'virtual':
        for i in sel:
            if i != 6:
                x.add_method('uFn', M.retval('int'), params(c, OVER[i]), is_virtual=True)
    elif kind == 'const':
        for i in sel:
            x.add_method('uFn', M.retval('int'), params(c, OVER[i]), is_const=True)
            x.add_method('uFn', M.retval('int'), params(c, OVER[i]))
    elif kind == 'custom':
        m.add_custom_function_wrapper('uFn', '_wrap_uFnCustom', 'PyObject* _wrap_uFnCustom(PyObject *PYBINDGEN_UNUSED(dummy), PyObject *args, PyObject *kwargs, '
                                      'PyObject **return_exception)\n{\n    PyErr_SetNone(PyExc_ValueError);\n    return NULL;\n}\n')
        for i in sel:
            m.add_function('uFn', None, params(c, OVER[i]))
    elif kind == 'fn-as-method':
        for i in sel:
            x.add_function_as_method('uFnAs', M.retval('int'), [M.param('uCls&', 'me')] + params(c, OVER[i]), custom_name='uFn')
    elif kind == 'derived':
        for i in sel:
            x.add_method('uFn', M.retval('int'), params(c, OVER[i]))
        y = m.add_class('uDer', parent=x)
        y.add_constructor([])
        y.add_method('uFn', M.retval('int'), [M.param('bool', 'z')])
    elif kind == 'ret':
        rts = ['int', None, 'std::string', 'double', 'bool', 'char']
        for j, i in enumerate(sel):
            r = rts[j % len(rts)]
            m.add_function('uFn', r and M.retval(r), params(c, OVER[i]))
    c.generate(m)


@fam('ctor-overloads')
def ctor_overloads(c):
    M = c.M
    m = newmod(c)
    sub = c.pick('subclassing', [False, True])
    pol = c.pick('policy', [None, 'rcm', 'std', 'free'])
    x = m.add_class('uCls', allow_subclassing=sub, **policy(c, pol, 'uCls'))
    sel = c.pick('sel', [[4], [0], [4, 0], [0, 1, 2], [3, 4], [6, 5, 7]])
    unb = c.pick('unblock', [False, True])
    for i in sel:
        x.add_constructor(params(c, OVER[i]), unblock_threads=unb)
    if c.pick('copy', [False, True]):
        x.add_copy_constructor()
    asf = c.pick('as-function', [False, True])
    if asf:
        x.add_function_as_constructor('uMk', M.retval('uCls*', caller_owns_return=True), [M.param('bool', 'a')])
    if c.pick('virtual', [False, True]):
        x.add_method('uVirt', None, [], is_virtual=True)
    c.meta['expect'] = dict(sub=sub, policy=pol, sel=sel, unblock=unb)
    c.generate(m)


@fam('custodian')
def custodian(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls', allow_subclassing=c.pick('subclassing', [False, True]))
    x.add_constructor([])
    kind = c.pick('kind', ['function', 'method', 'static', 'ctor', 'fn-as-method', 'virtual'])
    rel = c.pick('rel', [(-1, 1), (1, -1), (1, 2), (2, 1), (0, 1), (1, 0), (0, -1), (-1, 0)])
    post = c.pick('postcall', [None, True, False])
    other = c.pick('other', ['ptr', 'ref', 'pyobject', 'cref', 'out', 'null', 'default'])
    p1 = {'ptr': lambda: M.param('uCls*', 'p', transfer_ownership=False), 'ref': lambda: M.param('uCls&', 'p'),
          'pyobject': lambda: M.param('PyObject*', 'p', transfer_ownership=False), 'cref': lambda: M.param('const uCls&', 'p'),
          'out': lambda: M.param('uCls&', 'p', direction=2),
          'null': lambda: M.param('uCls*', 'p', transfer_ownership=False, null_ok=True),
          'default': lambda: M.param('uCls*', 'p', transfer_ownership=False, default_value='NULL')}[other]()
    ps = [p1, M.param('uCls*', 'q', transfer_ownership=False, **(dict(default_value='NULL') if other == 'default' else {}))]
    rv = M.retval('uCls*', caller_owns_return=True)
    if kind == 'function':
        f = m.add_function('uFn', rv, ps)
    elif kind == 'method':
        f = x.add_method('uFn', rv, ps)
    elif kind == 'static':
        f = x.add_method('uFn', rv, ps, is_static=True)
    elif kind == 'virtual':
        f = x.add_method('uFn', rv, ps, is_virtual=True)
    elif kind == 'ctor':
        f = x.add_constructor(ps)
    else:
        f = x.add_function_as_method('uFnAs', rv, [M.param('uCls&', 'me')] + ps, custom_name='uFn')
    c.meta['expect'] = dict(kind=kind, rel=rel, post=post, other=other)
    c.attempt('custodian', f.add_custodian_and_ward, rel[0], rel[1], post)
    c.attempt('generate', c.generate, m)


@fam('custodian-params')
def custodian_params(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls')
    x.add_constructor([])
    kind = c.pick('kind', ['function', 'method', 'static', 'ctor'])
    opt = c.pick('opt', ['param-custodian', 'ret-custodian', 'ret-ward', 'internal', 'two', 'self'])
    kw, rkw = {}, dict(caller_owns_return=True)
    ps = [M.param('uCls*', 'p', transfer_ownership=False)]
    if opt == 'param-custodian':
        ps = [M.param('uCls*', 'p', transfer_ownership=True, custodian=2), M.param('uCls*', 'q', transfer_ownership=False)]
    elif opt == 'ret-custodian':
        rkw['custodian'] = 1
    elif opt == 'ret-ward':
        ps = [M.param('uCls*', 'p', transfer_ownership=True, custodian=-1)]
    elif opt == 'internal':
        rkw = dict(return_internal_reference=True)
    elif opt == 'self':
        ps = [M.param('uCls*', 'p', transfer_ownership=True, custodian=0)]
    elif opt == 'two':
        ps = [M.param('uCls*', 'p', transfer_ownership=True, custodian=-1), M.param('uCls*', 'q', transfer_ownership=True, custodian=1)]

    def mk():
        rv = M.retval('uCls*', **rkw)
        if kind == 'function':
            return m.add_function('uFn', rv, ps)
        if kind == 'method':
            return x.add_method('uFn', rv, ps)
        if kind == 'static':
            return x.add_method('uFn', rv, ps, is_static=True)
        return x.add_constructor(ps)
    c.meta['expect'] = dict(kind=kind, opt=opt)
    c.attempt('add', mk)
    c.attempt('generate', c.generate, m)


THROW_KINDS = ['function', 'method', 'static', 'ctor', 'fn-as-method', 'fn-as-ctor', 'virtual', 'pure', 'ctor-sub', 'inherited', 'prot']


@fam('throw')
def throw(c):
    M = c.M
    m = newmod(c)
    kind = c.pick('kind', THROW_KINDS)
    n = c.pick('n', [1, 2])
    ret = c.pick('ret', [None, 'int', 'uCls*', 'std::string', 'char*', 'uCls'])
    unb = c.pick('unblock', [False, True])
    msg = c.pick('message', [None, '%(EXC)s.uWhat()'])
    es = [m.add_exception('uEx', message_rvalue=msg)]
    if n == 2:
        es.append(m.add_exception('uEx2', foreign_cpp_namespace='uFor', message_rvalue='%(EXC)s.what()', is_standard_error=True,
                                  custom_name='ValueError'))
    x = m.add_class('uCls', allow_subclassing=kind in ('virtual', 'pure', 'ctor-sub', 'prot'))
    x.add_constructor([])
    x.add_copy_constructor()
    rkw = dict(caller_owns_return=True) if ret == 'uCls*' else {}
    rv = M.retval(ret, **rkw) if ret else None
    ps = [M.param('std::string', 's'), M.param('uCls*', 'p', transfer_ownership=True), M.param('int', 'a')]
    kw = dict(throw=es, unblock_threads=unb)
    c.meta['expect'] = dict(kind=kind, n=n, ret=ret, unblock=unb, excs=['uEx', 'uFor::uEx2'][:n], message=msg)
    if kind == 'function':
        m.add_function('uFn', rv, ps, **kw)
    elif kind == 'method':
        x.add_method('uFn', rv, ps, **kw)
    elif kind == 'static':
        x.add_method('uFn', rv, ps, is_static=True, **kw)
    elif kind == 'virtual':
        x.add_method('uFn', rv, [ps[0], ps[2]], is_virtual=True, **kw)
    elif kind == 'pure':
        x.add_method('uFn', rv, [ps[0], ps[2]], is_virtual=True, is_pure_virtual=True, **kw)
    elif kind == 'prot':
        x.add_method('uFn', rv, [ps[0], ps[2]], visibility='protected', **kw)
    elif kind in ('ctor', 'ctor-sub'):
        if ret is not None:
            raise Rejected('n/a', 'n/a', '')
        x.add_constructor(ps, **kw)
    elif kind == 'fn-as-method':
        x.add_function_as_method('uFnAs', rv, [M.param('uCls&', 'me')] + ps, custom_name='uFn', **kw)
    elif kind == 'fn-as-ctor':
        if ret is not None:
            raise Rejected('n/a', 'n/a', '')
        x.add_function_as_constructor('uMk', M.retval('uCls*', caller_owns_return=True), ps)
    elif kind == 'inherited':
        x.add_method('uFn', rv, ps, **kw)
        z = m.add_class('uZ')
        z.add_constructor([])
        y = m.add_class('uDer', parent=[z, x])
        y.add_constructor([])
    c.attempt('generate', c.generate, m)


@fam('exceptions')
def exceptions(c):
    M = c.M
    m = newmod(c)
    where = c.pick('where', ['module', 'namespace', 'nested'])
    std = c.pick('standard', [False, True])
    doc = c.pick('parent', [False, True])
    msg = c.pick('message', [None, '%(EXC)s.uWhat()'])
    cn = c.pick('custom_name', [None, 'RuntimeError'])
    host = m
    x = m.add_class('uCls')
    x.add_constructor([])
    kw = dict(message_rvalue=msg, is_standard_error=std, custom_name=cn)
    if where == 'namespace':
        host = m.add_cpp_namespace('uNs')
    if where == 'nested':
        kw['outer_class'] = x
    p = host.add_exception('uExP', **{k: v for k, v in kw.items() if k != 'is_standard_error'}) if doc else None
    if std and not cn:
        kw['custom_name'] = 'ValueError'
    e = host.add_exception('uEx', parent=p, **kw)
    m.add_function('uFn', M.retval('int'), [M.param('int', 'a')], throw=[e] + ([p] if p else []))
    c.meta['expect'] = dict(where=where, std=std, parent=doc, message=msg, custom_name=cn)
    c.generate(m)


DEP_KINDS = ['function', 'method', 'static', 'ctor', 'fn-as-method', 'virtual', 'overload', 'inherited', 'ctor-sub']


@fam('deprecated')
def deprecated(c):
    M = c.M
    m = newmod(c)
    kind = c.pick('kind', DEP_KINDS)
    dep = c.pick('deprecated', [False, True, 'uMsg'])
    noarg = c.pick('noargs', [False, True])
    unb = c.pick('unblock', [False, True])
    x = m.add_class('uCls', allow_subclassing=kind in ('virtual', 'ctor-sub'))
    x.add_constructor([])
    ps = [] if noarg else [M.param('std::string', 's'), M.param('uCls*', 'p', transfer_ownership=True)]
    if kind == 'virtual':
        ps = ps[:1]
    rv = M.retval('int')
    kw = dict(deprecated=dep, unblock_threads=unb)
    c.meta['expect'] = dict(kind=kind, deprecated=dep, noargs=noarg)
    if kind == 'function':
        m.add_function('uFn', rv, ps, **kw)
    elif kind == 'method':
        x.add_method('uFn', rv, ps, **kw)
    elif kind == 'static':
        x.add_method('uFn', rv, ps, is_static=True, **kw)
    elif kind == 'virtual':
        x.add_method('uFn', rv, ps, is_virtual=True, **kw)
    elif kind == 'fn-as-method':
        x.add_function_as_method('uFnAs', rv, [M.param('uCls&', 'me')] + ps, custom_name='uFn', **kw)
    elif kind == 'overload':
        m.add_function('uFn', rv, ps, **kw)
        m.add_function('uFn', rv, [M.param('double', 'd')], **kw)
    elif kind == 'inherited':
        x.add_method('uFn', rv, ps, **kw)
        z = m.add_class('uZ')
        z.add_constructor([])
        y = m.add_class('uDer', parent=[z, x])
        y.add_constructor([])
    else:
        x.add_constructor(ps + [M.param('double', 'd')], **kw)
    c.generate(m)


@fam('attributes')
def attributes(c):
    M = c.M
    m = newmod(c)
    o = m.add_class('uOther')
    o.add_constructor([])
    o.add_copy_constructor()
    sub = c.pick('subclassing', [False, True])
    pol = c.pick('policy', [None, 'std', 'rcm'])
    x = m.add_class('uCls', allow_subclassing=sub, **policy(c, pol, 'uCls'))
    x.add_constructor([])
    t = c.pick('type', ['int', 'std::string', 'uOther', 'uOther*', 'char*', 'bool', 'double', 'PyObject*', 'uint64_t', 'uOther&'])
    rkw = {'uOther*': dict(reference_existing_object=True), 'PyObject*': dict(caller_owns_return=False)}.get(t, {})
    acc = c.pick('access', ['plain', 'getter', 'setter', 'both', 'const', 'custom', 'custom-const', 'static', 'static-const', 'renamed',
                            'many', 'custom-template'])
    c.meta['expect'] = dict(type=t, access=acc, policy=pol)

    def add():
        rv = M.retval(t, **rkw)
        if acc == 'plain':
            x.add_instance_attribute('uAttr', rv)
        elif acc == 'getter':
            x.add_instance_attribute('uAttr', rv, getter='uGetA', is_const=True)
        elif acc == 'setter':
            x.add_instance_attribute('uAttr', rv, setter='uSetA')
        elif acc == 'both':
            x.add_instance_attribute('uAttr', rv, getter='uGetA', setter='uSetA')
        elif acc == 'const':
            x.add_instance_attribute('uAttr', rv, is_const=True)
        elif acc == 'custom':
            x.add_custom_instance_attribute('uAttr', rv, getter='uGetA', setter='uSetA')
        elif acc == 'custom-template':
            x.add_custom_instance_attribute('uAttr', rv, getter='uGetA', setter='uSetA', getter_template_parameters=['int'],
                                            setter_template_parameters=['int'])
        elif acc == 'custom-const':
            x.add_custom_instance_attribute('uAttr', rv, getter='uGetA', is_const=True)
        elif acc == 'static':
            x.add_static_attribute('uAttr', rv)
        elif acc == 'static-const':
            x.add_static_attribute('uAttr', rv, is_const=True)
        elif acc == 'renamed':
            x.add_instance_attribute('uAttr', rv, custom_name='uPyAttr')
        else:
            x.add_instance_attribute('uAttr', rv)
            x.add_instance_attribute('uAttr2', M.retval('int'), is_const=True)
            x.add_static_attribute('uAttr3', M.retval('int'))
            x.add_static_attribute('uAttr4', M.retval('std::string'), is_const=True)
    c.attempt('add', add)
    c.attempt('generate', c.generate, m)


CONT = {'vector': 'std::vector<%s>', 'list': 'std::list<%s>', 'set': 'std::set<%s>', 'dequeue': 'std::deque<%s>', 'deque': 'std::deque<%s>', 'queue': 'std::queue<%s>',
        'stack': 'std::stack<%s>', 'multiset': 'std::multiset<%s>', 'hash_set': '__gnu_cxx::hash_set<%s>', 'priority_queue': 'std::priority_queue<%s>'}


@fam('containers')
def containers(c):
    M = c.M
    m = newmod(c)
    p = m.add_class('uElem')
    p.add_constructor([])
    p.add_copy_constructor()
    kind = c.pick('kind', ['vector', 'list', 'set', 'dequeue', 'deque', 'queue', 'stack', 'multiset', 'map', 'unordered_map'])
    el = c.pick('elem', ['int', 'std::string', 'uElem', 'double', 'bool', 'uint8_t', 'uElem*'])
    where = c.pick('where', ['module', 'nested', 'namespace', 'custom-name'])
    host = m
    kw = {}
    if where == 'nested':
        o = m.add_class('uOut')
        o.add_constructor([])
        kw['outer_class'] = o
    if where == 'namespace':
        host = m.add_cpp_namespace('uNs')
    if where == 'custom-name':
        kw['custom_name'] = 'uPyCont'
    elv = M.retval('uElem*', reference_existing_object=True) if el == 'uElem*' else el
    if kind in ('map', 'unordered_map', 'hash_map'):
        key = c.pick('key', ['std::string', 'int', 'uElem'])
        t = {'map': 'std::map<%s, %s>', 'unordered_map': 'std::unordered_map<%s, %s>', 'hash_map': '__gnu_cxx::hash_map<%s, %s>'}[kind] % (key, el)
        c.attempt('add', host.add_container, t, (key, elv), kind, **kw)
    else:
        t = CONT[kind] % el
        c.attempt('add', host.add_container, t, elv, kind, **kw)
    c.meta['expect'] = dict(kind=kind, elem=el, where=where, type=t)
    use = c.pick('use', ['param', 'ref', 'ret', 'attr', 'none'])
    if where != 'nested':
        if use == 'param':
            m.add_function('uTake', None, [M.param(t, 'v')])
        elif use == 'ref':
            m.add_function('uTake', None, [M.param(t + '&', 'v', direction=c.pick('dir', [1, 2, 3]))])
        elif use == 'ret':
            m.add_function('uGive', M.retval(t), [])
        elif use == 'attr':
            x = m.add_class('uCls')
            x.add_constructor([])
            x.add_instance_attribute('uAttr', M.retval(t))
    c.attempt('generate', c.generate, m)


@fam('container-traits')
def container_traits(c):
    M = c.M
    m = newmod(c)
    p = m.add_class('uElem')
    p.add_constructor([])
    p.add_copy_constructor()
    x = m.add_class('uCls', allow_subclassing=c.pick('subclassing', [False, True]))
    x.add_constructor([])
    el = c.pick('elem', ['int', 'uElem', 'std::string'])
    it = c.pick('it', ['begin', 'custom'])
    kw = {} if it == 'begin' else dict(begin_method='uBegin', end_method='uEnd', iterator_type='uIter')
    mp = c.pick('map', [False, True])
    c.meta['expect'] = dict(kind='map' if mp else 'vector', begin=kw.get('begin_method', 'begin'), end=kw.get('end_method', 'end'))
    x.add_container_traits(('std::string', M.retval(el)) if mp else M.retval(el), is_mapping=mp, **kw)
    c.attempt('generate', c.generate, m)


@fam('enums')
def enums(c):
    M = c.M
    m = newmod(c)
    where = c.pick('where', ['module', 'namespace', 'nested', 'cpp_namespace', 'import'])
    vals = c.pick('values', [['uA', 'uB'], [('uA', '1'), ('uB', 'uX | uY')], []])
    pre = c.pick('prefix', ['', 'uPre_'])
    x = m.add_class('uCls')
    x.add_constructor([])
    kw = dict(values_prefix=pre)
    t = 'uEn'
    if where == 'namespace':
        m.add_cpp_namespace('uNs').add_enum('uEn', vals, **kw)
        t = 'uNs::uEn'
    elif where == 'nested':
        x.add_enum('uEn', vals, **kw)
        t = 'uCls::uEn'
    elif where == 'cpp_namespace':
        m.add_enum('uEn', vals, cpp_namespace='uDeep', **kw)
        t = 'uDeep::uEn'
    elif where == 'import':
        m.add_enum('uEn', vals, import_from_module='uOther.uMod2', **kw)
    else:
        m.add_enum('uEn', vals, **kw)
    c.meta['expect'] = dict(where=where, values=[v if isinstance(v, str) else v[0] for v in vals], prefix=pre, type=t)
    m.add_function('uFn', M.retval(t), [M.param(t, 'a')])
    x.add_method('uVirt', M.retval(t), [M.param(t, 'a')], is_virtual=True)
    c.attempt('generate', c.generate, m)


@fam('submodules')
def submodules(c):
    M = c.M
    depth = c.pick('depth', [0, 1, 2])
    doc = c.pick('doc', [None, 'uDoc'])
    ns = c.pick('cpp_namespace', [None, 'uRootNs', '::'])
    m = newmod(c, docstring=doc, cpp_namespace=ns)
    mods = [m]
    for i in range(depth):
        mods.append(mods[-1].add_cpp_namespace('uNs%d' % i))
    content = c.pick('content', ['function', 'class', 'enum', 'overloaded', 'all', 'empty', 'exception', 'subclass-across', 'container'])
    rt = {None: '', '::': '::'}.get(ns, '%s::' % ns)
    c.meta['expect'] = dict(depth=depth, content=content, ns=ns)
    for i, k in enumerate(mods):
        if content in ('function', 'all'):
            k.add_function('uFn%d' % i, M.retval('int'), [M.param('int', 'a')])
        if content in ('overloaded', 'all'):
            k.add_function('uOv', M.retval('int'), [M.param('int', 'a')])
            k.add_function('uOv', M.retval('int'), [M.param('double', 'a')])
        if content in ('class', 'all', 'subclass-across'):
            par = mods[i - 1].uq if content == 'subclass-across' and i else None
            x = k.add_class('uCls%d' % i, parent=par, allow_subclassing=content == 'subclass-across')
            x.add_constructor([])
            x.add_method('uMe', None, [])
            if content == 'subclass-across':
                x.add_method('uVirt', None, [M.param('int', 'a')], is_virtual=True)
            k.uq = x
        if content in ('enum', 'all'):
            k.add_enum('uEn%d' % i, ['uA%d' % i, 'uB%d' % i])
        if content in ('exception', 'all'):
            k.add_exception('uEx%d' % i)
        if content in ('container', 'all'):
            k.add_container('std::vector<%s>' % ['int', 'double', 'bool'][i], ['int', 'double', 'bool'][i], 'vector')
    if c.pick('after', [False, True]):
        m.after_init.write_code('uAfterInit();')
        m.body.writeln('static int uGlobal;')
        m.before_init.write_code('uBeforeInit();')
    c.generate(m)


class _MultiFactory:
    pass


@fam('sections')
def sections(c):
    M = c.M
    src = c.mod('pybindgen.module')
    cs = c.mod('pybindgen.typehandlers.codesink')
    outs = {}

    class Fac(src.MultiSectionFactory):
        def get_section_code_sink(self, section_name):
            return sink(section_name)

        def get_main_code_sink(self):
            return sink('main')

        def get_common_header_code_sink(self):
            return sink('common')

        def get_common_header_include(self):
            return '"common.h"'

    def sink(n):
        if n not in outs:
            o = Out()
            outs[n] = (o, M.FileCodeSink(o))
        return outs[n][1]
    which = c.pick('which', ['class', 'function', 'both', 'virtual', 'container', 'none', 'narrow', 'enum'])
    n = c.pick('n', [1, 2])
    m = newmod(c)
    b = m.add_class('uMainCls', automatic_type_narrowing=which == 'narrow', allow_subclassing=which in ('virtual', 'narrow'))
    b.add_constructor([])
    if which in ('virtual', 'narrow'):
        b.add_method('uVirt', M.retval('int'), [M.param('int', 'a')], is_virtual=True)
    for i in range(n):
        m.begin_section('uSec%d' % i)
        if which in ('class', 'both', 'virtual', 'narrow'):
            x = m.add_class('uCls%d' % i, parent=b, allow_subclassing=which in ('virtual', 'narrow'))
            x.add_constructor([])
            x.add_method('uMeth', M.retval('int'), [M.param('uMainCls*', 'p', transfer_ownership=False)])
            x.add_method('uOv', None, [M.param('int', 'a')])
            x.add_method('uOv', None, [M.param('double', 'a')])
        if which in ('function', 'both'):
            m.add_function('uFn%d' % i, M.retval('std::string'), [M.param('int', 'a')])
            m.add_function('uOv%d' % i, None, [M.param('int', 'a')])
            m.add_function('uOv%d' % i, None, [M.param('double', 'a')])
        if which == 'container':
            m.add_container('std::vector<%s>' % ['int', 'double'][i], ['int', 'double'][i], 'vector')
            m.add_function('uFn%d' % i, M.retval('std::vector<%s>' % ['int', 'double'][i]), [])
        if which == 'enum':
            m.add_enum('uEn%d' % i, ['uA%d' % i])
            m.add_function('uFn%d' % i, M.retval('uEn%d' % i), [])
        m.end_section('uSec%d' % i)
    m.add_function('uMainFn', None, [M.param('uMainCls&', 'p')])
    m.generate(Fac() if False else _mk(Fac))
    c.meta['sections'] = {k: o.text() for k, (o, s) in outs.items()}
    c.meta['expect'] = dict(which=which, n=n)
    c.unit.text = '\n'.join(['%s' % o.text() for k, (o, s) in sorted(outs.items(), key=lambda kv: (kv[0] != 'common', kv[0]))])


def _mk(F):
    return F()


@fam('custom-wrappers')
def custom_wrappers(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls')
    x.add_constructor([])
    kind = c.pick('kind', ['function', 'method', 'static-method', 'function-nobody', 'method-nobody'])
    body = 'PyObject* _wrap_uX(%sPyObject *args, PyObject *kwargs, PyObject **return_exception)\n{\n    *return_exception = NULL;\n    PyErr_SetNone(PyExc_ValueError);\n    return NULL;\n}\n'
    flags = c.pick('flags', [['METH_VARARGS'], ['METH_VARARGS', 'METH_KEYWORDS']])
    if len(flags) == 1:
        body = body.replace('PyObject *kwargs, ', '')
    if kind == 'function':
        m.add_custom_function_wrapper('uFn', '_wrap_uX', body % 'PyObject *PYBINDGEN_UNUSED(dummy), ', flags=flags)
    elif kind == 'function-nobody':
        m.add_custom_function_wrapper('uFn', '_wrap_uX', flags=flags)
    elif kind == 'method':
        x.add_custom_method_wrapper('uFn', '_wrap_uX', body % 'PyUCls *self, ', flags=flags)
    elif kind == 'method-nobody':
        x.add_custom_method_wrapper('uFn', '_wrap_uX', flags=flags)
    else:
        x.add_custom_method_wrapper('uFn', '_wrap_uX', body % 'PyUCls *PYBINDGEN_UNUSED(dummy), ', flags=flags + ['METH_STATIC'])
    more = c.pick('more', [False, True])
    if more:
        if kind.startswith('function'):
            m.add_function('uFn', None, [M.param('int', 'a')])
        else:
            x.add_method('uFn', None, [M.param('int', 'a')])
    c.attempt('generate', c.generate, m)


@fam('implicit')
def implicit(c):
    M = c.M
    m = newmod(c)
    pol = c.pick('policy', [None, 'std', 'rcm'])
    a = m.add_class('uFrom', **policy(c, pol, 'uFrom'))
    a.add_constructor([])
    a2 = m.add_class('uFrom2')
    a2.add_constructor([])
    b = m.add_class('uTo', allow_subclassing=c.pick('subclassing', [False, True]), **policy(c, pol, 'uTo'))
    b.add_constructor([])
    b.add_copy_constructor()
    a.implicitly_converts_to(b)
    n = c.pick('n', [1, 2])
    if n == 2:
        a2.implicitly_converts_to(b)
    t = c.pick('type', ['uTo', 'uTo&', 'const uTo&', 'uTo*', 'const uTo*'])
    if pol == 'std' and '*' in t:
        t = t.replace('uTo*', ptr_t(pol, 'uTo'))
    d = c.pick('direction', [1, 2, 3]) if t == 'uTo&' else 1
    kw = dict(transfer_ownership=False) if '*' in t else {}
    if d != 1:
        kw['direction'] = d
    kind = c.pick('kind', ['function', 'virtual', 'overload', 'two'])
    c.meta['expect'] = dict(type=t, kind=kind, n=n)
    if kind == 'function':
        m.add_function('uFn', None, [M.param(t, 'x', **kw)])
    elif kind == 'two':
        m.add_function('uFn', None, [M.param(t, 'x', **kw), M.param('uTo', 'y')])
    elif kind == 'virtual':
        h = m.add_class('uHold', allow_subclassing=True)
        h.add_constructor([])
        h.add_method('uV', M.retval('uTo'), [M.param(t, 'x', **kw)], is_virtual=True)
    else:
        m.add_function('uFn', None, [M.param(t, 'x', **kw)])
        m.add_function('uFn', None, [M.param('int', 'x')])
    c.attempt('generate', c.generate, m)


@fam('virtuals')
def virtuals(c):
    M = c.M
    settings(c, deprecated_virtuals=c.pick('deprecated_virtuals', [False, True]))
    m = newmod(c)
    pol = c.pick('policy', [None, 'rcm', 'std'])
    x = m.add_class('uCls', allow_subclassing=True, **policy(c, pol, 'uCls'))
    x.add_constructor([])
    vis = c.pick('visibility', ['public', 'protected', 'private'])
    pure = c.pick('pure', [False, True])
    cst = c.pick('const', [False, True])
    ret = c.pick('ret', [None, 'int', 'std::string', 'uCls*', 'bool', 'char*', 'PyObject*'])
    unb = c.pick('unblock', [False, True])
    if pol == 'std' and ret == 'uCls*':
        ret = ptr_t(pol, 'uCls')
    if not pure:
        x.add_copy_constructor()
    rkw = {'uCls*': dict(caller_owns_return=True), 'PyObject*': dict(caller_owns_return=True)}.get(ret, {})
    ps = c.pick('params', [[], [('int', 'a')], [('std::string', 's'), ('double', 'd'), ('uCls*', 'p', dict(transfer_ownership=False))]])
    if pol == 'std':
        ps = [p if p[0] != 'uCls*' else (ptr_t(pol, 'uCls'), 'p') for p in ps]
    c.meta['expect'] = dict(vis=vis, pure=pure, const=cst, ret=ret, unblock=unb, nparams=len(ps))
    x.add_method('uVirt', M.retval(ret, **rkw) if ret else None, params(c, ps), is_virtual=True, is_pure_virtual=pure, is_const=cst,
                 visibility=vis, unblock_threads=unb)
    c.attempt('generate', c.generate, m)


@fam('virtual-tree')
def virtual_tree(c):
    M = c.M
    m = newmod(c)
    mi = c.pick('mi', [False, True])
    x = m.add_class('uA', allow_subclassing=True)
    x.add_constructor([])
    x.add_method('uV1', M.retval('int'), [M.param('int', 'a')], is_virtual=True, is_pure_virtual=c.pick('pureA', [False, True]))
    x.add_method('uV2', None, [], is_virtual=True)
    x.add_method('uV2', None, [M.param('int', 'a')], is_virtual=True)
    y = m.add_class('uB', parent=x, allow_subclassing=True)
    y.add_constructor([])
    over = c.pick('override', [False, True])
    if over:
        y.add_method('uV1', M.retval('int'), [M.param('int', 'a')], is_virtual=True)
    if mi:
        z = m.add_class('uZ', allow_subclassing=True)
        z.add_constructor([])
        z.add_method('uV3', M.retval('std::string'), [], is_virtual=True)
        z.add_method('uV4', None, [M.param('int', 'a')], is_virtual=True, visibility='protected')
        w = m.add_class('uC', parent=[y, z], allow_subclassing=True)
    else:
        w = m.add_class('uC', parent=y, allow_subclassing=True)
    w.add_constructor([])
    w.add_constructor([M.param('int', 'a')])
    if c.pick('dummy', [False, True]):
        log = []
        settings(c, error_handler=scen.SkipAll(log))
        w.add_method('uBad', None, [M.param('uUnknown*', 'p')], is_virtual=True, is_pure_virtual=c.pick('pureD', [False, True]))
    c.meta['expect'] = dict(mi=mi, over=over)
    c.attempt('generate', c.generate, m)


MP = {'i': ('int', {}), 'io': ('int*', dict(direction=2)), 'iio': ('int*', dict(direction=3)), 's': ('std::string', {}),
      'sr': ('std::string&', dict(direction=3)), 'c': ('uCls&', {}), 'co': ('uCls&', dict(direction=2)), 'b': ('bool', {}),
      'bd': ('bool', dict(default_value='true')), 'id': ('int', dict(default_value='3')), 'dd': ('double', dict(default_value='1.5')),
      'p': ('uCls*', dict(transfer_ownership=True)), 'pn': ('uCls*', dict(transfer_ownership=False, null_ok=True)),
      'ch': ('char*', {}), 'o': ('PyObject*', dict(transfer_ownership=False)), 'v': ('std::vector<int>&', dict(direction=1)),
      'vo': ('std::vector<int>&', dict(direction=2)), 'u8': ('uint8_t', {}), 'f': ('float', {}), 'e': ('uEn', {}),
      'pd': ('uCls*', dict(transfer_ownership=False, default_value='NULL')), 'sd': ('std::string', dict(default_value='"x"')),
      'fo': ('double*', dict(direction=2)), 'bo': ('bool*', dict(direction=2)), 'so': ('std::string&', dict(direction=2)),
      'cr': ('const uCls&', {}), 'ro': ('int&', dict(direction=2)), 'pt': ('uCls*', dict(transfer_ownership=True, null_ok=True))}
MIXES = [['i', 'io', 's'], ['io', 'i', 'iio'], ['c', 'co', 'i'], ['s', 'bd'], ['i', 'id', 'dd'], ['p', 'i', 'p'], ['pn', 's', 'io'],
         ['ch', 'o', 'v'], ['vo', 'v', 'u8'], ['f', 'e', 'ro'], ['i', 'pd'], ['co', 'so', 'fo'], ['bo', 'iio', 'io', 'i'], ['cr', 'cr'],
         ['sr', 'i', 'ch'], ['pt', 'co', 'o'], ['b', 'b'], ['i', 'sd', 'id'], ['s', 'ch', 's', 'ch'], ['c', 'p', 'cr', 'pn'],
         ['i', 'i', 'i', 'i', 'i', 'i']]
VMIXES = [m for m in MIXES if not any(k in ('bd', 'id', 'dd', 'pd', 'sd') for k in m)]
RETS = [None, 'int', 'std::string', 'uCls*', 'uCls', 'bool', 'char*', 'std::vector<int>', 'uEn', 'PyObject*']


MP_KINDS = ['function', 'method', 'static', 'virtual', 'ctor', 'const', 'template', 'fn-as-method', 'overload', 'method-overload', 'throw',
            'deprecated', 'protected', 'pure', 'namespace', 'renamed', 'inherited']


@fam('multi-param', 500)
def multi_param(c):
    M = c.M
    m = newmod(c)
    m.add_enum('uEn', ['uA', 'uB'])
    x = m.add_class('uCls')
    x.add_constructor([])
    x.add_copy_constructor()
    m.add_container('std::vector<int>', 'int', 'vector')
    kind = c.pick('kind', MP_KINDS)
    virt = kind in ('virtual', 'protected', 'pure')
    mix = c.pick('mix', VMIXES if virt else MIXES)
    names = ['uPa', 'uPb', 'uPc', 'uPd', 'uPe', 'uPf']
    h = m.add_class('uHold', allow_subclassing=virt)
    if kind != 'ctor':
        h.add_constructor([])
    par = [(n, MP[k][1].get('direction', 1), 'default_value' in MP[k][1]) for k, n in zip(mix, names)]
    rpar = [(n, 1 if k == 'co' else d, x) for k, (n, d, x) in zip(mix, par)]    # object references are modified in place
    W = c.meta['wrappers'] = []
    c.meta['expect'] = dict(kind=kind, mix=list(mix), names=names[:len(mix)])
    c.meta['byref'] = [n for k, n in zip(mix, names) if k == 'ro']
    unb = c.pick('unblock', [False, True])
    rets = RETS if kind != 'ctor' else [None]
    for j, ret in enumerate(rets):
        rkw = {'uCls*': dict(caller_owns_return=True), 'PyObject*': dict(caller_owns_return=True)}.get(ret, {})
        rv = M.retval(ret, **rkw) if ret else None
        ps = [M.param(MP[k][0], n, **MP[k][1]) for k, n in zip(mix, names)]
        nm = 'uFn%d' % j
        W.append(dict(cname=nm, params=par, rparams=rpar, ret=bool(ret), kind='ctor' if kind == 'ctor' else kind, dflt={
            n: MP[k][1]['default_value'] for k, n in zip(mix, names) if 'default_value' in MP[k][1]}, rtype=ret))
        if kind == 'function':
            m.add_function(nm, rv, ps, unblock_threads=unb)
        elif kind == 'overload':
            m.add_function(nm, rv, ps, unblock_threads=unb, custom_name='uOv')
        elif kind == 'renamed':
            m.add_function(nm, rv, ps, unblock_threads=unb, custom_name='uPy%d' % j, docstring='uDoc')
        elif kind == 'deprecated':
            m.add_function(nm, rv, ps, unblock_threads=unb, deprecated='uMsg')
        elif kind == 'throw':
            m.add_function(nm, rv, ps, unblock_threads=unb, throw=[m.add_exception('uEx%d' % j)])
        elif kind == 'namespace':
            m.add_cpp_namespace('uNs').add_function(nm, rv, ps, unblock_threads=unb)
        elif kind == 'method':
            h.add_method(nm, rv, ps, unblock_threads=unb)
        elif kind == 'const':
            h.add_method(nm, rv, ps, is_const=True, unblock_threads=unb)
        elif kind == 'template':
            h.add_method(nm, rv, ps, template_parameters=['int'], unblock_threads=unb)
        elif kind == 'static':
            h.add_method(nm, rv, ps, is_static=True, unblock_threads=unb)
        elif kind == 'method-overload':
            h.add_method(nm, rv, ps, custom_name='uOv', unblock_threads=unb)
        elif kind == 'fn-as-method':
            W[-1]['skip'] = 1
            h.add_function_as_method(nm, rv, [M.param('uHold&', 'me')] + ps, unblock_threads=unb)
        elif kind == 'virtual':
            h.add_method(nm, rv, ps, is_virtual=True, unblock_threads=unb)
        elif kind == 'protected':
            h.add_method(nm, rv, ps, is_virtual=True, visibility='protected', unblock_threads=unb)
        elif kind == 'pure':
            h.add_method(nm, rv, ps, is_virtual=True, is_pure_virtual=True, unblock_threads=unb)
        elif kind == 'inherited':
            h.add_method(nm, rv, ps, unblock_threads=unb)
        else:
            W[-1]['cname'] = 'uHold'
            h.add_constructor(ps, unblock_threads=unb)
    if kind == 'inherited':
        o = m.add_class('uOtherBase')
        o.add_constructor([])
        d = m.add_class('uDer', parent=[o, h])
        d.add_constructor([])
    c.attempt('generate', c.generate, m)


@fam('globals')
def globals_(c):
    M = c.M
    s = c.pick('setting', ['prefix', 'prefix-all', 'narrow', 'subclass', 'unblock', 'nortti', 'py24', 'map', 'all'])
    if s in ('prefix', 'prefix-all', 'all'):
        settings(c, name_prefix='upfx')
    if s in ('narrow', 'all', 'nortti'):
        settings(c, automatic_type_narrowing=True)
    if s in ('subclass', 'all'):
        settings(c, allow_subclassing=True)
    if s in ('unblock', 'all'):
        settings(c, unblock_threads=True)
    if s == 'nortti':
        settings(c, gcc_rtti_abi_complete=False)
    if s == 'py24':
        settings(c, min_python_version=(2, 4))
    if s in ('map', 'all'):
        use_registry(c, 'map')
    m = newmod(c)
    x = m.add_class('uCls')
    fill_class(c, x, 'uCls', virt=True)
    y = m.add_class('uDer', parent=x)
    fill_class(c, y, 'uDer')
    m.add_enum('uEn', ['uA'])
    m.add_container('std::vector<int>', 'int', 'vector')
    m.add_exception('uEx')
    m.add_function('uFn', M.retval('uCls*', caller_owns_return=True), [M.param('uDer&', 'a'), M.param('std::vector<int>', 'v')])
    m.add_function('uFn', None, [M.param('int', 'a')])
    c.generate(m)


@fam('fn-as-method')
def fn_as_method(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls', allow_subclassing=c.pick('subclassing', [False, True]), **policy(c, c.pick('policy', [None, 'rcm']), 'uCls'))
    x.add_constructor([])
    x.add_copy_constructor()
    st = c.pick('self', ['uCls&', 'uCls*', 'const uCls&', 'uCls'])
    kw = dict(transfer_ownership=False) if '*' in st else {}
    ret = c.pick('ret', [None, 'int', 'uCls*'])
    rkw = dict(caller_owns_return=True) if ret == 'uCls*' else {}
    extra = c.pick('extra', [[], [('int', 'a')], [('int*', 'a', dict(direction=2)), ('std::string', 's')]])
    c.attempt('add', x.add_function_as_method, 'uFnAs', M.retval(ret, **rkw) if ret else None, [M.param(st, 'me', **kw)] + params(c, extra),
              custom_name=c.pick('name', ['uFn', '__call__']))
    c.attempt('generate', c.generate, m)


@fam('methods')
def methods(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls', allow_subclassing=c.pick('subclassing', [False, True]))
    x.add_constructor([])
    x.add_copy_constructor()
    st = c.pick('static', [False, True])
    cst = c.pick('const', [False, True])
    vis = c.pick('visibility', ['public', 'protected', 'private'])
    tmpl = c.pick('template', [(), ('int',)])
    cname = c.pick('custom_name', [None, 'uRenamed'])
    unb = c.pick('unblock', [False, True])
    if st and cst:
        raise Rejected('n/a', 'n/a', '')
    ret = c.pick('ret', [None, 'uCls*'])
    rkw = dict(caller_owns_return=True) if ret == 'uCls*' else {}
    x.add_method('uMeth', M.retval(ret, **rkw) if ret else None, [M.param('int', 'a')], is_static=st, is_const=cst, visibility=vis,
                 template_parameters=tmpl, custom_name=cname, unblock_threads=unb, docstring=c.pick('doc', [None, 'uDoc']))
    c.meta['expect'] = dict(static=st, const=cst, vis=vis, tmpl=tmpl, custom=cname, unblock=unb)
    c.attempt('generate', c.generate, m)


@fam('helper-hooks')
def helper_hooks(c):
    M = c.M
    m = newmod(c)
    x = m.add_class('uCls', allow_subclassing=True)
    x.add_constructor([])
    x.add_method('uVirt', None, [], is_virtual=True, is_pure_virtual=c.pick('pure', [False, True]))
    kind = c.pick('kind', ['method', 'body', 'post', 'none'])

    def hook(h):
        if kind == 'method':
            h.add_custom_method('void uCustom();')
        elif kind == 'body':
            h.add_custom_method('void uCustom();', 'void %s::uCustom()\n{\n    uCall();\n}\n' % h.name)
        elif kind == 'post':
            h.add_post_generation_code('static int uPostGlobal;')
    c.meta['hooks'] = True
    x.add_helper_class_hook(hook)
    y = m.add_class('uDer', parent=x)
    y.add_constructor([])
    if c.pick('fail', [False, True]):
        log = []
        settings(c, error_handler=scen.SkipAll(log))
        x.add_method('uBad', None, [M.param('uUnknown', 'p')], is_virtual=True, is_pure_virtual=c.pick('pureBad', [False, True]))
    c.attempt('generate', c.generate, m)


SHARE_KINDS = ['plain', 'custom-name', 'template', 'derived', 'two-parents', 'namespace', 'nested']


@fam('shared', 400)
def shared(c):
    """a class of one module used by another one: both modules are generated, the exporter in a world of its own"""
    kind = c.pick('kind', SHARE_KINDS)
    reg = c.pick('registry', ['null', 'map'])
    pol = c.pick('policy', [None, 'rcm', 'free', 'std'])
    narrow = c.pick('narrowing', [False, True])
    sub = c.pick('subclassing', [False, True])
    named = c.pick('named', [False, True])
    place = c.pick('place', ['root', 'submodule'])
    order = c.pick('order', ['before', 'after'])
    M = c.M
    use_registry(c, reg)

    def declare(m, imported):
        kw = dict(automatic_type_narrowing=narrow, allow_subclassing=sub, **policy(c, pol, 'uShared'))
        where_ = 'uExp.uLib' if kind != 'namespace' else 'uExp.uLib.uNs'
        if imported:
            kw['import_from_module'] = where_ + (' named uShared' if named else '')
        full = 'uShared'
        host = m
        if kind == 'custom-name':
            kw['custom_name'] = 'uPyShared'
        if kind == 'template':
            kw['template_parameters'] = ['int']
            full = 'uShared< int >'
        if kind == 'namespace':
            if imported:
                kw['foreign_cpp_namespace'] = 'uNs'
            else:
                host = m.add_cpp_namespace('uNs')
            full = 'uNs::uShared'
        if kind == 'nested' and not imported:
            o = m.add_class('uOuter')
            o.add_constructor([])
        x = host.add_class('uShared', **kw)
        x.add_copy_constructor()
        x.add_constructor([])
        if sub:
            x.add_method('uVirt', M.retval('int'), [M.param('int', 'a')], is_virtual=True)
        out = [(x, full)]
        kw2 = dict(automatic_type_narrowing=narrow, allow_subclassing=sub)
        if imported:
            kw2['import_from_module'] = 'uExp.uLib'
        if kind in ('derived', 'two-parents'):
            y = m.add_class('uShared2', parent=x, **kw2)
            y.add_copy_constructor()
            y.add_constructor([])
            out.append((y, 'uShared2'))
        return out

    def exporter():
        c.unit.meta = {}
        m = M.Module('uExp.uLib')
        m.add_include('"u.h"')
        xs = declare(m, False)
        for k, (x, full) in enumerate(xs):
            m.add_function('uMake%d' % k, M.retval(ptr_t(pol, full), **({} if pol == 'std' else dict(caller_owns_return=True))), [])
        c.generate(m)
        return c.unit.text
    c.meta['export'] = uni._fork_call(exporter)
    m = newmod(c)
    if order == 'before':
        l = m.add_class('uLocal')
        l.add_constructor([])
    host = m.add_cpp_namespace('uSub') if place == 'submodule' else m
    xs = declare(m, True)
    if kind == 'two-parents':
        z = m.add_class('uOther')
        z.add_constructor([])
        d = m.add_class('uLeaf', parent=[xs[-1][0], z])
    else:
        d = m.add_class('uLeaf', parent=xs[-1][0], automatic_type_narrowing=narrow)
    d.add_constructor([])
    for k, (x, full) in enumerate(xs + [(d, 'uLeaf')]):
        t = ptr_t(pol, full)
        host.add_function('uGet%d' % k, M.retval(t, **({} if pol == 'std' else dict(caller_owns_return=True))), [])
        host.add_function('uTake%d' % k, None, [M.param(t, 'p', **({} if pol == 'std' else dict(transfer_ownership=False))), M.param(full + '&', 'q')])
    c.meta['expect'] = dict(kind=kind, registry=reg, policy=pol, narrow=narrow, sub=sub, named=named, imported=[f for _, f in xs])
    c.generate(m)


@fam('narrowing', 300)
def narrowing(c):
    """a tree of classes whose objects come out under their dynamic type"""
    M = c.M
    pol = c.pick('policy', [None, 'rcm', 'rcf', 'std'])
    src = c.pick('from', ['argument', 'settings', 'middle', 'off-below'])
    sub = c.pick('subclassing', [False, True])
    reg = c.pick('registry', ['null', 'map'])
    where_ = c.pick('where', ['root', 'namespace', 'mixed'])
    use_registry(c, reg)
    if src == 'settings':
        settings(c, automatic_type_narrowing=True, gcc_rtti_abi_complete=sub)
    m = newmod(c)
    ns = m.add_cpp_namespace('uNs') if where_ != 'root' else m
    pre = 'uNs::' if where_ != 'root' else ''
    q = m.add_class('uQuiet', automatic_type_narrowing=False)
    q.add_constructor([])
    q.add_copy_constructor()
    a = ns.add_class('uRoot', allow_subclassing=sub, **dict(policy(c, pol, pre + 'uRoot'),
                                                           **(dict(automatic_type_narrowing=True) if src in ('argument', 'off-below') else {})))
    b = ns.add_class('uMid', parent=a, **(dict(automatic_type_narrowing=True) if src == 'middle' else {}))
    d = (m if where_ == 'mixed' else ns).add_class('uLeaf', parent=b, **(dict(automatic_type_narrowing=False) if src == 'off-below' else {}))
    e = ns.add_class('uSide', parent=a)
    z = ns.add_class('uTwo', parent=[e, q])
    names = [(a, pre + 'uRoot'), (b, pre + 'uMid'), (d, ('' if where_ == 'mixed' else pre) + 'uLeaf'), (e, pre + 'uSide'), (z, pre + 'uTwo')]
    for x, full in names:
        x.add_constructor([])
        x.add_copy_constructor()
        if sub and x is a:
            x.add_method('uVirt', None, [M.param('int', 'i')], is_virtual=True)
    h = m.add_class('uHold', allow_subclassing=True)
    h.add_constructor([])
    for k, (x, full) in enumerate(names + [(q, 'uQuiet')]):
        t = ptr_t(pol if x is not q else None, full)
        own = {} if '*' not in t else dict(caller_owns_return=True)
        m.add_function('uOwn%d' % k, M.retval(t, **own), [])
        if own:
            m.add_function('uBorrow%d' % k, M.retval(t, caller_owns_return=False), [])
            m.add_function('uExist%d' % k, M.retval(t, reference_existing_object=True), [])
            h.add_method('uVi%d' % k, None, [M.param(t, 'p', transfer_ownership=c.pick('transfer', [False, True]))], is_virtual=True)
        else:
            h.add_method('uVi%d' % k, None, [M.param(t, 'p')], is_virtual=True)
        m.add_function('uVal%d' % k, M.retval(full), [])
        h.add_method('uVr%d' % k, None, [M.param(full + '&', 'p')], is_virtual=True)
        h.add_method('uMe%d' % k, M.retval(t, **own), [], is_const=True)
        h.add_instance_attribute('uAt%d' % k, M.retval(t, **({} if not own else dict(reference_existing_object=True))))
    c.meta['expect'] = dict(policy=pol, src=src, sub=sub, registry=reg)
    c.generate(m)


def families(tier='quick', only=None):
    S = []
    for name, (f, mp, tiers) in FAMILIES.items():
        if tier not in tiers or (only and name not in only):
            continue
        s = Scenario('feature/' + name, f, mp if tier == 'quick' else 6 * mp)
        S.append(s)
    return S


# ------------------------------------------------------------------ declarations that cannot be wrapped
BAD = {}


def bad(name):
    def deco(f):
        BAD[name] = f
        return f
    return deco


def _unknown(M, kind):
    if kind == 'param':
        return None, [M.param('int', 'a'), M.param('uUnknown*', 'p')]
    return M.retval('uUnknown'), [M.param('int', 'a')]


for _k in ('param', 'retval'):
    BAD['fn-' + _k] = lambda c, m, x, y, s, k=_k: m.add_function('uBad', *_unknown(c.M, k))
    BAD['fn-sub-' + _k] = lambda c, m, x, y, s, k=_k: s.add_function('uBad', *_unknown(c.M, k))
    BAD['method-' + _k] = lambda c, m, x, y, s, k=_k: x.add_method('uBad', *_unknown(c.M, k))
    BAD['static-' + _k] = lambda c, m, x, y, s, k=_k: x.add_method('uBad', *_unknown(c.M, k), is_static=True)
    BAD['overload-fn-' + _k] = lambda c, m, x, y, s, k=_k: m.add_function('uOver', *_unknown(c.M, k))
    BAD['overload-method-' + _k] = lambda c, m, x, y, s, k=_k: x.add_method('uOverM', *_unknown(c.M, k))
    BAD['only-overload-' + _k] = lambda c, m, x, y, s, k=_k: (m.add_function('uBad', *_unknown(c.M, k)), m.add_function('uBad', *_unknown(c.M, k)))
    BAD['protected-' + _k] = lambda c, m, x, y, s, k=_k: x.add_method('uBad', *_unknown(c.M, k), visibility='protected')
    BAD['virtual-private-' + _k] = lambda c, m, x, y, s, k=_k: x.add_method('uBad', *_unknown(c.M, k), is_virtual=True, visibility='private')
    BAD['virtual-' + _k] = lambda c, m, x, y, s, k=_k: x.add_method('uBad', *_unknown(c.M, k), is_virtual=True)
    BAD['virtual-protected-' + _k] = lambda c, m, x, y, s, k=_k: x.add_method('uBad', *_unknown(c.M, k), is_virtual=True, visibility='protected')
    BAD['virtual-overload-' + _k] = lambda c, m, x, y, s, k=_k: x.add_method('uVirt', *_unknown(c.M, k), is_virtual=True)
    BAD['fn-as-method-' + _k] = lambda c, m, x, y, s, k=_k: x.add_function_as_method(
        'uBadAs', _unknown(c.M, k)[0], [c.M.param('uCls&', 'me')] + _unknown(c.M, k)[1], custom_name='uBad')
BAD.update({
    'ctor-param': lambda c, m, x, y, s: x.add_constructor(_unknown(c.M, 'param')[1]),
    'ctor-sub': lambda c, m, x, y, s: y.add_constructor(_unknown(c.M, 'param')[1]),
    'attr-inst': lambda c, m, x, y, s: x.add_instance_attribute('uBad', c.M.retval('uUnknown')),
    'attr-static': lambda c, m, x, y, s: x.add_static_attribute('uBad', c.M.retval('uUnknown')),
    'attr-ref': lambda c, m, x, y, s: x.add_instance_attribute('uBad', c.M.retval('std::string&')),
    'attr-ref-ro': lambda c, m, x, y, s: x.add_instance_attribute('uBad', c.M.retval('uCls&'), is_const=True),
    'attr-ptr': lambda c, m, x, y, s: x.add_instance_attribute('uBad', c.M.retval('uCls*')),
    'container': lambda c, m, x, y, s: m.add_container('std::vector<uUnknown>', c.M.retval('uUnknown'), 'vector'),
    'fn-ownership': lambda c, m, x, y, s: m.add_function('uBad', None, [c.M.param('uCls*', 'p')]),
    'fn-ownership-ret': lambda c, m, x, y, s: m.add_function('uBad', c.M.retval('uCls*'), []),
    'fn-ref-ret': lambda c, m, x, y, s: m.add_function('uBad', c.M.retval('uCls&'), []),
    'fn-sub-ownership-ret': lambda c, m, x, y, s: s.add_function('uBad', c.M.retval('uCls*'), []),
    'method-ownership': lambda c, m, x, y, s: x.add_method('uBad', None, [c.M.param('uCls*', 'p')]),
    'method-ownership-ret': lambda c, m, x, y, s: x.add_method('uBad', c.M.retval('uCls*'), [c.M.param('std::string', 's')]),
    'ctor-ownership': lambda c, m, x, y, s: x.add_constructor([c.M.param('double', 'd'), c.M.param('uCls*', 'p')]),
    'overload-fn-ownership': lambda c, m, x, y, s: m.add_function('uOver', c.M.retval('uCls*'), []),
    'overload-method-ownership': lambda c, m, x, y, s: x.add_method('uOverM', c.M.retval('uCls*'), []),
    'virtual-ownership-ret': lambda c, m, x, y, s: x.add_method('uBad', c.M.retval('uCls*'), [], is_virtual=True, visibility='private'),
    'protected-ownership': lambda c, m, x, y, s: x.add_method('uBad', None, [c.M.param('uCls*', 'p')], visibility='protected'),
    'default-container': lambda c, m, x, y, s: m.add_function('uBad', None, [c.M.param('std::vector<int>', 'v', default_value='uV')]),
    'default-string-ptr': lambda c, m, x, y, s: m.add_function(
        'uBad', None, [c.M.param('std::string*', 'v', transfer_ownership=False, default_value='uV')]),
    'copy-abstract': lambda c, m, x, y, s: m.add_function('uBad', c.M.retval('uAbs'), []),
    'virtual-ref-ret': lambda c, m, x, y, s: x.add_method('uBad', c.M.retval('std::string&'), [], is_virtual=True, visibility='private'),
    'fn-array-like': lambda c, m, x, y, s: m.add_function('uBad', None, [c.M.param('uCls**', 'p')]),
    'custodian': lambda c, m, x, y, s: m.add_function('uBad', None, [c.M.param('int', 'p')]).add_custodian_and_ward(1, 2),
})


def skip_body(c, what, pos, sub, hier, handler, log=None):
    M = c.M
    log = [] if log is None else log
    if handler != 'none':
        settings(c, error_handler=scen.SkipAll(log, handler == 'skip'))
    m = newmod(c)
    s = m.add_cpp_namespace('uNs')
    m.add_container('std::vector<int>', M.retval('int'), 'vector')
    ab = m.add_class('uAbs', allow_subclassing=False)
    ab.add_method('uPure', None, [], is_virtual=True, is_pure_virtual=True)
    x = m.add_class('uCls', allow_subclassing=sub)
    y = m.add_class('uDer', parent=x, allow_subclassing=sub) if hier else m.add_class('uDer', allow_subclassing=sub)

    def one(i):
        if pos == i and what is not None:
            BAD[what](c, m, x, y, s)
    one(0)
    x.add_constructor([])
    m.add_function('uOver', None, [M.param('int', 'a')])
    x.add_method('uOverM', None, [M.param('int', 'a')])
    one(1)
    x.add_constructor([M.param('int', 'a')])
    m.add_function('uOver', None, [M.param('double', 'a')])
    x.add_method('uOverM', None, [M.param('double', 'a')])
    x.add_instance_attribute('uAttr', M.retval('int'))
    x.add_static_attribute('uSAttr', M.retval('std::string'))
    x.add_method('uVirt', M.retval('int'), [M.param('int', 'a')], is_virtual=True)
    x.add_method('uProt', None, [M.param('std::string', 'a')], is_virtual=True, visibility='protected')
    y.add_constructor([])
    y.add_method('uGet', M.retval('std::vector<int>'), [])
    y.add_instance_attribute('uAttr2', M.retval('double'))
    s.add_function('uInner', M.retval('uCls'), [M.param('uCls&', 'q')])
    one(2)
    c.generate(m)


def skip(c):
    import uni
    what = c.pick('what', sorted(BAD))
    c.meta['what'] = what
    pos = c.pick('pos', [0, 1, 2])
    sub = c.pick('subclassing', [False, True])
    hier = c.pick('hier', [False, True])
    handler = c.pick('handler', ['skip', 'none', 'refuse'])
    c.meta['handler'] = handler
    if handler == 'skip':
        def ref():
            skip_body(c, None, pos, sub, hier, handler)
            return c.unit.text
        c.meta['ref'] = uni._fork_call(ref)
    c.meta['skipped'] = log = []
    skip_body(c, what, pos, sub, hier, handler, log)


def skip_scn(tier):
    return [Scenario('feature/skip', skip, 2400)]
