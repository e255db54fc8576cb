"""Record what a configuration declares: every top-level call to the generator's public add_*() API, bound to its parameters.

Decl(op, host, result, args): host is the Decl of the module or class it was called on (None: the root module)."""
from pyai import R

OPS = {
    'add_class': ('name',), 'add_struct': ('name',), 'add_cpp_namespace': ('name',), 'add_function': ('name', 'return_value', 'parameters'),
    'add_method': ('name', 'return_value', 'parameters'), 'add_constructor': ('parameters',), 'add_copy_constructor': (),
    'add_instance_attribute': ('name', 'value_type'), 'add_static_attribute': ('name', 'value_type'),
    'add_custom_instance_attribute': ('name', 'value_type', 'getter'), 'add_enum': ('name', 'values'), 'add_exception': ('name',),
    'add_container': ('name', 'value_type', 'container_type'), 'add_typedef': ('wrapper', 'alias'),
    'add_binary_comparison_operator': ('operator',), 'add_binary_numeric_operator': ('operator', 'result_cppclass', 'left_cppclass', 'right'),
    'add_inplace_numeric_operator': ('operator', 'right'), 'add_unary_numeric_operator': ('operator', 'result_cppclass', 'left_cppclass'),
    'add_output_stream_operator': (), 'add_function_as_method': ('name', 'return_value', 'parameters'),
    'add_function_as_constructor': ('name', 'return_value', 'parameters'),
    'add_custom_function_wrapper': ('name', 'wrapper_name', 'wrapper_body'), 'add_custom_method_wrapper': ('name', 'wrapper_name', 'wrapper_body'),
    'implicitly_converts_to': ('other',), 'set_cannot_be_constructed': ('reason',), 'add_custodian_and_ward': ('custodian', 'ward', 'postcall'),
    'begin_section': ('name',), 'end_section': ('name',), 'add_container_traits': (), 'inherit_default_constructors': (),
    'set_helper_class_disabled': (), 'add_helper_class_hook': ('hook',), 'set_instance_creation_function': ('fn',),
    'set_post_instance_creation_function': ('fn',)}

MAKERS = ('add_class', 'add_struct', 'add_function', 'add_method', 'add_constructor', 'add_enum', 'add_exception', 'add_container',
          'add_cpp_namespace')      # return None when the wrapper was skipped


class Spec:
    """a param(...)/retval(...) the configuration built"""
    __slots__ = ('ctype', 'name', 'kw')

    def __init__(self, ctype, name, kw):
        self.ctype, self.name, self.kw = ctype, name, kw

    def __repr__(self):
        return '%s %s %r' % (self.ctype, self.name, self.kw)


class Decl:
    __slots__ = ('op', 'host', 'a', 'ok', 'kids', 'idx')

    def __init__(self, op, host, a, idx):
        self.op, self.host, self.a, self.idx = op, host, a, idx
        self.ok = False
        self.kids = []

    def __getattr__(self, k):
        if k in Decl.__slots__:
            raise AttributeError(k)
        return self.a.get(k)

    def get(self, k, d=None):
        v = self.a.get(k, d)
        return d if v is None else v

    def of(self, *ops):
        return [k for k in self.kids if k.op in ops]

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join('%s=%r' % x for x in self.a.items()))


class Log:
    """declarations of one unit; `root` stands for the module"""

    def __init__(self):
        self.root = Decl('module', None, {}, -1)
        self.root.ok = True
        self.all = []
        self._obj = {}
        self._specs = {}
        self._keep = []
        self._open = []

    # ------------------------------------------------------------ conversion
    def val(self, x):
        x = R(x)
        d = self._obj.get(id(x))
        if d is not None:
            return d
        s = self._specs.get(id(x))
        if s is not None:
            return s
        if isinstance(x, (list, tuple)):
            return [self.val(y) for y in x]
        if x is None or isinstance(x, (str, int, float, bool)):
            return x
        if isinstance(x, dict):
            return {R(k): self.val(v) for k, v in x.items()}
        return '<%s>' % type(x).__name__

    def install(self, I):
        import uni

        def top(I):
            return not I.stack

        for op, names in OPS.items():
            def pre(I, qual, v, args, kwargs, op=op, names=names):
                if I.stack:
                    return
                obj = R(args[0]) if args else None
                a = {}
                for n, x in zip(names, args[1:]):
                    a[n] = self.val(x)
                for i, x in enumerate(args[1 + len(names):]):
                    a['#%d' % i] = self.val(x)
                for k, x in kwargs.items():
                    a[k] = self.val(x)
                host = self._obj.get(id(obj)) or self.root
                d = Decl(op, host, a, len(self.all))
                self.all.append(d)
                host.kids.append(d)
                self._open.append(d)
                self._keep.append((obj, args, kwargs))

            def post(I, qual, v, rv, op=op):
                if I.stack or not self._open:
                    return
                d = self._open.pop()
                rv = R(rv)
                d.ok = rv is not None or op not in MAKERS
                if rv is not None and hasattr(rv, '__dict__'):
                    self._obj.setdefault(id(rv), d)
                    self._keep.append(rv)
            I.hooks[op] = pre
            I.hooks['post:' + op] = post

        def spec(kind):
            def post(I, qual, v, rv):
                if I.stack:
                    return
                a = list(R(v.get('args')) or ()) if 'args' in v else []
                kw = {k: self.val(x) for k, x in (R(v.get('kwargs')) or {}).items()}
                a = [R(x) for x in a]
                for k in ('ctype', 'name'):
                    if k in v:
                        a.append(R(v[k]))
                s = Spec(a[0] if a else None, a[1] if len(a) > 1 else None, kw)
                rv = R(rv)
                self._specs[id(rv)] = s
                self._keep.append(rv)
            return post
        I.hooks['post:param'] = spec('param')
        I.hooks['post:retval'] = spec('retval')

    def strip(self):
        """drop references to interpreter objects"""
        self._keep, self._obj, self._specs, self._open = [], {}, {}, []
