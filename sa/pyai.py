"""Abstract interpreter for the generator's Python source (no repo code is ever executed by CPython).

The interpreter walks the syntax trees of /repo's current modules.  Its value domain is:

  * template strings: text in which every user-supplied fragment (identifier, type, default expression)
    is a generic atom that is different from every literal in the source;
  * `Choice`: a finite set of possible values (a flag the user may or may not set, ...).  It is split
    lazily, the first time the analysed code branches on it, and the partition is remembered for the rest
    of that trace (trace partitioning).  A flag nobody looks at never splits anything;
  * objects, lists, dicts: ordinary allocation-site objects.

Every partition that the source distinguishes is visited (see `explore`).
"""
from __future__ import annotations
import ast, builtins, operator, os, re, sys, types, importlib
import collections, collections.abc

SAFE = {'re', 'collections', 'collections.abc', 'copy', 'operator', 'itertools', 'functools', 'string', 'textwrap',
        'types', 'abc', 'enum', 'contextlib', 'typing', 'keyword', 'math', 'weakref', 'dataclasses', 'hashlib',
        'numbers', 'struct', 'platform', 'codecs', 'bisect', 'heapq', '__future__', 'builtins', 'io', 'pprint', 'json', 'inspect',
        'difflib', 'unicodedata', 'html', 'decimal', 'fractions', 'array', 'queue', 'ast', 'token', 'tokenize', 'errno', 'stat', 'zlib',
        'base64', 'binascii', 'textwrap', 'shlex', 'fnmatch', 'posixpath', 'ntpath', 'urllib', 'urllib.parse', 'six', 'locale', 'calendar'}

# -- what no run of the generator may depend on: two choices are made for each, WORLD selects one
WORLD = 0


def set_world(n):
    global WORLD
    WORLD = n


class _AnySet(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or isinstance(x, cls.__mro__[1])

    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c) or issubclass(c, cls.__mro__[1])


def _set_key(x):
    return (type(x).__name__, x, 0) if isinstance(x, str) else (type(x).__name__, '', x if isinstance(x, (int, float)) else id(x))


def _ordered(s):
    return sorted(s, key=_set_key, reverse=bool(WORLD))


def _wrap_sets(ns, base):
    def it(self):
        return iter(_ordered(list(base.__iter__(self))))
    ns['__iter__'] = it
    for op in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__', 'union', 'intersection', 'difference',
               'symmetric_difference', 'copy'):
        def f(self, *a, _op=getattr(base, op)):
            r = _op(self, *a)
            return r if r is NotImplemented else type(self)(r)
        ns[op] = f
    return ns


PSet = _AnySet('set', (set,), _wrap_sets({'pop': lambda self: self._pop()}, set))
PFrozen = _AnySet('frozenset', (frozenset,), _wrap_sets({}, frozenset))


def _pop(self):
    for x in self:
        self.discard(x)
        return x
    raise KeyError('pop from an empty set')


PSet._pop = _pop


def world_module(name):
    """modules whose results differ between runs"""
    s = types.ModuleType(name)
    T = lambda: 1.6e9 + WORLD * 4e7 + 0.25
    if name == 'time':
        import time as t
        s.__dict__.update({k: v for k, v in vars(t).items() if not k.startswith('__')})
        for k in ('time', 'perf_counter', 'monotonic', 'process_time', 'clock_gettime', 'thread_time'):
            setattr(s, k, lambda *a: T())
        s.time_ns = s.perf_counter_ns = s.monotonic_ns = lambda: int(T() * 1e9)
        s.localtime = s.gmtime = lambda x=None: t.gmtime(T() if x is None else x)
        s.ctime = lambda x=None: t.asctime(t.gmtime(T() if x is None else x))
        s.asctime = lambda x=None: t.asctime(t.gmtime(T()) if x is None else x)
        s.strftime = lambda f, x=None: t.strftime(f, t.gmtime(T()) if x is None else x)
        s.sleep = lambda x: None
        return s
    if name == 'datetime':
        import datetime as d
        s.__dict__.update({k: v for k, v in vars(d).items() if not k.startswith('__')})

        class datetime(d.datetime):
            @classmethod
            def now(cls, tz=None):
                return d.datetime.fromtimestamp(T(), tz or d.timezone.utc)
            today = utcnow = now

        class date(d.date):
            @classmethod
            def today(cls):
                return d.datetime.fromtimestamp(T(), d.timezone.utc).date()
        s.datetime, s.date = datetime, date
        return s
    if name == 'random':
        import random as r

        class G:
            def __getattr__(self, k):
                return getattr(r.Random(WORLD), k)
        g = G()
        s.__getattr__ = lambda k: getattr(g, k) if k not in ('Random', 'SystemRandom') else getattr(r, k)
        return s
    if name == 'uuid':
        import uuid as u
        s.__dict__.update({k: v for k, v in vars(u).items() if not k.startswith('__')})
        s.uuid1 = s.uuid4 = lambda *a: u.UUID(int=WORLD + 7)
        s.getnode = lambda: WORLD
        return s
    if name == 'getpass':
        s.getuser = lambda: 'user%d' % WORLD
    elif name == 'socket':
        s.gethostname = s.getfqdn = lambda *a: 'host%d' % WORLD
    elif name == 'secrets':
        s.token_hex = lambda n=32: '%02x' % (WORLD + 1) * n
        s.token_urlsafe = s.token_hex
        s.randbelow = lambda n: WORLD % n
        s.choice = lambda x: x[WORLD % len(x)]
    elif name == 'tempfile':
        s.gettempdir = lambda: '/tmp%d' % WORLD
    elif name == 'glob':
        s.glob = s.iglob = lambda *a, **k: []
    return s


class AnalysisAbort(BaseException):
    """The abstract interpreter cannot follow the source (unsupported construct, budget)."""


class Diverged(AnalysisAbort):
    pass


# --------------------------------------------------------------------------- abstract choices
class Oracle:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # (key, idx, n)

    def choose(self, key, n):
        i = len(self.trace)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        if idx >= n:
            idx = 0
        self.trace.append((key, idx, n))
        return idx


class Choice:
    """A value known only to be one of `options`; `only_if` hides nothing, it is just documentation."""
    __slots__ = ('key', 'options', 'oracle', 'idx')

    def __init__(self, oracle, key, options):
        self.key, self.options, self.oracle, self.idx = key, list(options), oracle, None

    def get(self):
        if self.idx is None:
            if len(self.options) == 1:
                self.idx = 0
            else:
                self.idx = self.oracle.choose(self.key, len(self.options))
        return self.options[self.idx]

    @property
    def split(self):
        return self.idx is not None


def R(v):
    while type(v) is Choice:
        v = v.get()
    return v


def explore(fn, max_paths=4096):
    """Run fn(oracle) once per partition. Yields (decisions, result). Depth-first, complete up to max_paths."""
    prefix = []
    n = 0
    while True:
        o = Oracle(prefix)
        res = fn(o)
        n += 1
        yield o.trace, res
        if n >= max_paths:
            return
        t = list(o.trace)
        while t and t[-1][1] + 1 >= t[-1][2]:
            t.pop()
        if not t:
            return
        prefix = [x[1] for x in t[:-1]] + [t[-1][1] + 1]


# --------------------------------------------------------------------------- environments
class Env:
    __slots__ = ('vars', 'locals', 'parent', 'glob', 'globs', 'nonlocs', 'classcell', 'first', 'frame', 'kind', 'mangle')

    def __init__(self, vars, locals_, parent, glob, kind, frame, classcell=None):
        self.vars, self.locals, self.parent, self.glob, self.kind, self.frame = vars, locals_, parent, glob, kind, frame
        self.globs = self.nonlocs = ()
        self.classcell = classcell
        self.first = None
        self.mangle = None


class Frame:
    __slots__ = ('file', 'qual', 'line', 'env')

    def __init__(self, file, qual, line):
        self.file, self.qual, self.line = file, qual, line
        self.env = None

    def loc(self):
        return '%s:%d (%s)' % (self.file, self.line, self.qual)


_MISSING = object()
BREAK, CONTINUE = object(), object()


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class _AssignedNames(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.globals = set()
        self.nonlocals = set()
        self.has_yield = False

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # walrus targets and yields inside comprehensions are not supported; first iterable is evaluated outside
        for g in n.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
          ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
          ast.MatMult: operator.matmul}
IBINOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
           ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.LShift: operator.ilshift,
           ast.RShift: operator.irshift, ast.BitOr: operator.ior, ast.BitAnd: operator.iand, ast.BitXor: operator.ixor,
           ast.MatMult: operator.imatmul}
CMPOPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
          ast.GtE: operator.ge, ast.Is: operator.is_, ast.IsNot: operator.is_not,
          ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}
UNOPS = {ast.UAdd: operator.pos, ast.USub: operator.neg, ast.Invert: operator.invert}


def is_interp_callable(f):
    if hasattr(f, '__pyai__'):
        return True
    if isinstance(f, types.MethodType):
        return hasattr(f.__func__, '__pyai__')
    if isinstance(f, type):
        return '__pyai_class__' in f.__dict__ or any('__pyai_class__' in c.__dict__ for c in f.__mro__)
    return False


class Interp:
    """One analysed program: modules under root, one oracle."""
    _ast_cache = {}

    def __init__(self, root, oracle=None, max_steps=6_000_000, skip=()):
        self.root = root
        self.oracle = oracle or Oracle()
        self.modules = {}
        self.stack = []
        self.steps = 0
        self.max_steps = max_steps
        self.hooks = {}
        self.warnings = []
        self.unsupported = []
        self.functions_entered = set()
        self.lines = set()
        self.skip = set(skip)
        self._builtins = dict(vars(builtins))
        self._builtins.update({
            'print': lambda *a, **k: None,
            'open': self._forbidden('open'), 'input': self._forbidden('input'),
            'exec': self._forbidden('exec'), 'eval': self._forbidden('eval'), 'compile': self._forbidden('compile'),
            '__import__': lambda name, *a, **k: self.import_module(name),
            'set': PSet, 'frozenset': PFrozen,
            'id': lambda x: id(x) * (3 if WORLD else 1) + WORLD * 12345,
            'hash': lambda x: hash(x) ^ (WORLD * 0x5555),
        })
        self.compiler = COMPILER

    def _forbidden(self, what):
        def f(*a, **k):
            raise OSError('%s is not modelled' % what)
        return f

    def choice(self, key, options):
        return Choice(self.oracle, key, options)

    # ------------------------------------------------------------------ modules
    def _find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split('.')[0]
        if top == 'pybindgen':
            if name in self.skip:
                raise ImportError(name)
            if '.' in name:
                self.import_module(name.rpartition('.')[0])
                if name in self.modules:
                    return self.modules[name]
            path, pkg = self._find(name)
            if path is None:
                raise ModuleNotFoundError('No module named %r' % name, name=name)
            m = types.ModuleType(name)
            m.__file__ = path
            m.__package__ = name if pkg else name.rpartition('.')[0]
            if pkg:
                m.__path__ = [os.path.dirname(path)]
            m.__dict__['__builtins__'] = self._builtins
            self.modules[name] = m
            code = self.compiler.module(path, os.path.relpath(path, self.root))
            frame = Frame(os.path.relpath(path, self.root), '<module>', 1)
            env = Env(m.__dict__, None, None, m.__dict__, 'module', frame)
            self.stack.append(frame)
            try:
                code(self, env)
            except BaseException:
                self.modules.pop(name, None)
                raise
            finally:
                self.stack.pop()
            if '.' in name:
                par, _, leaf = name.rpartition('.')
                setattr(self.modules[par], leaf, m)
            return m
        m = self._stub(name)
        self.modules[name] = m
        return m

    def _stub(self, name):
        if name == 'sys':
            s = types.ModuleType('sys')
            for a in ('version_info', 'maxsize', 'byteorder', 'platform', 'version', 'hexversion', 'getrecursionlimit',
                      'exc_info', 'intern', 'getdefaultencoding', 'implementation', 'maxunicode'):
                setattr(s, a, getattr(sys, a))
            s.modules = self.modules
            s.argv = ['prog']
            s.path = []
            s.stdout = s.stderr = NullStream()
            s.stdin = NullStream()
            s.exit = self._exit
            s._getframe = self._forbidden('_getframe')
            return s
        if name == 'warnings':
            s = types.ModuleType('warnings')

            def warn(*a, **k):
                self.warnings.append((a, k, self.stack[-1].loc() if self.stack else '?'))
            s.warn = s.warn_explicit = warn
            s.filterwarnings = s.simplefilter = s.resetwarnings = lambda *a, **k: None
            return s
        if name == 'traceback':
            s = types.ModuleType('traceback')
            for f in ('print_exc', 'print_stack', 'print_exception', 'print_tb'):
                setattr(s, f, lambda *a, **k: None)
            for f in ('format_exc', ):
                setattr(s, f, lambda *a, **k: '')
            for f in ('format_stack', 'format_exception', 'extract_stack', 'extract_tb', 'format_tb'):
                setattr(s, f, lambda *a, **k: [])
            return s
        if name == 'logging':
            s = types.ModuleType('logging')
            log = types.SimpleNamespace(**{k: (lambda *a, **kw: None) for k in
                                           ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log',
                                            'setLevel', 'addHandler')})
            log.isEnabledFor = lambda *a: False
            s.getLogger = lambda *a, **k: log
            for k in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'basicConfig'):
                setattr(s, k, lambda *a, **kw: None)
            s.DEBUG, s.INFO, s.WARNING, s.ERROR = 10, 20, 30, 40
            return s
        if name == 'time':
            s = types.ModuleType('time')
            s.time = s.perf_counter = s.monotonic = lambda: 0.0
            return s
        if name in ('os', 'os.path'):
            s = types.ModuleType('os')
            s.path = types.ModuleType('os.path')
            for f in ('join', 'basename', 'dirname', 'splitext', 'normpath', 'isabs', 'split', 'commonprefix'):
                setattr(s.path, f, getattr(os.path, f))
            s.path.abspath = s.path.realpath = lambda p: p if p.startswith('/') else '/world%d/%s' % (WORLD, os.path.normpath(p))
            s.path.relpath = lambda p, b=None: p
            s.path.expanduser = lambda p: p.replace('~', '/home%d' % WORLD)
            s.path.exists = s.path.isfile = s.path.isdir = lambda p: False
            s.environ = {}
            s.getcwd = s.getcwdb = lambda: '/world%d' % WORLD
            s.getpid = s.getppid = lambda: 1000 + WORLD
            s.getlogin = lambda: 'user%d' % WORLD
            s.uname = lambda: ('Linux', 'host%d' % WORLD, '1', '1', 'x86_64')
            s.urandom = lambda n: bytes([WORLD + 1]) * n
            s.listdir = lambda p='.': []
            s.getenv = lambda k, d=None: d
            s.linesep, s.sep, s.name = '\n', '/', 'posix'
            if name == 'os.path':
                return s.path
            return s
        if name in SAFE:
            return importlib.import_module(name)
        if name in ('time', 'datetime', 'random', 'uuid', 'getpass', 'socket', 'secrets', 'tempfile', 'glob'):
            return world_module(name)
        raise ModuleNotFoundError('No module named %r (not modelled)' % name, name=name)

    def _exit(self, *a):
        raise AnalysisAbort('sys.exit')

    def mod(self, name):
        return self.import_module(name)

    # ------------------------------------------------------------------ helpers
    def where(self, depth=1):
        return self.stack[-depth].loc() if len(self.stack) >= depth else '?'

    def call_value(self, f, args, kwargs):
        f = R(f)
        if not is_interp_callable(f):
            args = [R(a) for a in args]
            kwargs = {k: R(v) for k, v in kwargs.items()}
        return f(*args, **kwargs)


class NullStream:
    def write(self, *a):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False

    def readline(self, *a):
        return ''

    def __repr__(self):
        return '<stream>'


# --------------------------------------------------------------------------- compiler: AST -> closures
def _load(env, name):
    e = env
    while e is not None:
        if name in e.globs:
            break
        v = e.vars.get(name, _MISSING)
        if v is not _MISSING:
            return v
        if e.kind == 'func' and name in e.locals:
            raise UnboundLocalError("cannot access local variable '%s'" % name)
        e = e.parent
    v = env.glob.get(name, _MISSING)
    if v is not _MISSING:
        return v
    v = env.glob['__builtins__'].get(name, _MISSING)
    if v is not _MISSING:
        return v
    if name == '__class__':
        e = env
        while e is not None:
            if e.classcell is not None and e.classcell:
                return e.classcell[0]
            e = e.parent
    raise NameError("name '%s' is not defined" % name, name=name)


def _store(env, name, v):
    if name in env.globs:
        env.glob[name] = v
        return
    if name in env.nonlocs:
        e = env.parent
        while e is not None:
            if name in e.vars or (e.locals and name in e.locals):
                e.vars[name] = v
                return
            e = e.parent
        raise SyntaxError('nonlocal ' + name)
    if env.kind == 'comp':
        pass
    env.vars[name] = v


class Compiler:
    def __init__(self):
        self._mods = {}

    # -- modules
    def module(self, path, rel):
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        if key not in self._mods:
            with open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read(), path)
            self._mods[key] = self.body(tree.body, Ctx(rel, '', None))
        body = self._mods[key]

        def run(I, env):
            I_stack_env(I, env)
            r = body(I, env)
            return r
        return run

    def body(self, stmts, cx):
        cs = [self.stmt(s, cx) for s in stmts]
        if len(cs) == 1:
            return cs[0]

        def run(I, env):
            for c in cs:
                r = c(I, env)
                if r is not None:
                    return r
            return None
        return run

    # -- statements
    def stmt(self, s, cx):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            def bad(I, env):
                raise AnalysisAbort('unsupported statement %s at %s:%d' % (type(s).__name__, cx.file, s.lineno))
            return bad
        inner = m(s, cx)
        line = s.lineno
        file = cx.file

        def run(I, env):
            env.frame.line = line
            I.steps += 1
            if I.steps > I.max_steps:
                raise Diverged('step budget exhausted at %s:%d' % (file, line))
            return inner(I, env)
        return run

    def s_Expr(self, s, cx):
        e = self.expr(s.value, cx)

        def run(I, env):
            e(I, env)
        return run

    def s_Pass(self, s, cx):
        return lambda I, env: None

    def s_Global(self, s, cx):
        return lambda I, env: None

    s_Nonlocal = s_Global

    def s_Break(self, s, cx):
        return lambda I, env: BREAK

    def s_Continue(self, s, cx):
        return lambda I, env: CONTINUE

    def s_Return(self, s, cx):
        if s.value is None:
            return lambda I, env: Ret(None)
        e = self.expr(s.value, cx)
        return lambda I, env: Ret(e(I, env))

    def s_Assign(self, s, cx):
        e = self.expr(s.value, cx)
        ts = [self.target(t, cx) for t in s.targets]
        if len(ts) == 1:
            t0 = ts[0]

            def run(I, env):
                t0(I, env, e(I, env))
        else:
            def run(I, env):
                v = e(I, env)
                for t in ts:
                    t(I, env, v)
        return run

    def s_AnnAssign(self, s, cx):
        t = self.target(s.target, cx)
        e = self.expr(s.value, cx) if s.value is not None else None
        name = s.target.id if isinstance(s.target, ast.Name) else None
        ann = ast.unparse(s.annotation)

        def run(I, env):
            if e is not None:
                t(I, env, e(I, env))
            if env.kind == 'class' and name:
                env.vars.setdefault('__annotations__', {})[name] = ann
        return run

    def s_AugAssign(self, s, cx):
        op = IBINOPS[type(s.op)]
        e = self.expr(s.value, cx)
        tgt = s.target
        if isinstance(tgt, ast.Name):
            name = cx.mangle(tgt.id)

            def run(I, env):
                v = R(_load(env, name))
                _store(env, name, op(v, R(e(I, env))))
        elif isinstance(tgt, ast.Attribute):
            o = self.expr(tgt.value, cx)
            a = cx.mangle(tgt.attr)

            def run(I, env):
                ob = R(o(I, env))
                v = R(getattr(ob, a))
                setattr(ob, a, op(v, R(e(I, env))))
        else:
            o = self.expr(tgt.value, cx)
            k = self.expr(tgt.slice, cx)

            def run(I, env):
                ob = R(o(I, env))
                kk = R(k(I, env))
                v = R(ob[kk])
                ob[kk] = op(v, R(e(I, env)))
        return run

    def s_Delete(self, s, cx):
        fs = []
        for t in s.targets:
            if isinstance(t, ast.Name):
                n = cx.mangle(t.id)

                def f(I, env, n=n):
                    if n in env.globs:
                        del env.glob[n]
                    elif n in env.vars:
                        del env.vars[n]
                    else:
                        raise NameError(n)
            elif isinstance(t, ast.Attribute):
                def f(I, env, o=self.expr(t.value, cx), a=cx.mangle(t.attr)):
                    delattr(R(o(I, env)), a)
            elif isinstance(t, ast.Subscript):
                def f(I, env, o=self.expr(t.value, cx), k=self.expr(t.slice, cx)):
                    del R(o(I, env))[R(k(I, env))]
            else:
                raise AnalysisAbort('unsupported del')
            fs.append(f)

        def run(I, env):
            for f in fs:
                f(I, env)
        return run

    def s_If(self, s, cx):
        t = self.expr(s.test, cx)
        b = self.body(s.body, cx)
        o = self.body(s.orelse, cx) if s.orelse else None

        def run(I, env):
            if R(t(I, env)):
                return b(I, env)
            if o is not None:
                return o(I, env)
        return run

    def s_While(self, s, cx):
        t = self.expr(s.test, cx)
        b = self.body(s.body, cx)
        o = self.body(s.orelse, cx) if s.orelse else None

        def run(I, env):
            while R(t(I, env)):
                r = b(I, env)
                if r is BREAK:
                    return None
                if r is not None and r is not CONTINUE:
                    return r
            if o is not None:
                return o(I, env)
        return run

    def s_For(self, s, cx):
        it = self.expr(s.iter, cx)
        t = self.target(s.target, cx)
        b = self.body(s.body, cx)
        o = self.body(s.orelse, cx) if s.orelse else None

        def run(I, env):
            for v in R(it(I, env)):
                t(I, env, v)
                r = b(I, env)
                if r is BREAK:
                    return None
                if r is not None and r is not CONTINUE:
                    return r
            if o is not None:
                return o(I, env)
        return run

    def _handlers(self, s, cx):
        hs = []
        for h in s.handlers:
            hs.append((self.expr(h.type, cx) if h.type is not None else None, h.name, self.body(h.body, cx)))
        return hs

    def s_Try(self, s, cx):
        b = self.body(s.body, cx)
        hs = self._handlers(s, cx)
        o = self.body(s.orelse, cx) if s.orelse else None
        f = self.body(s.finalbody, cx) if s.finalbody else None

        def core(I, env):
            depth = len(I.stack)
            try:
                r = b(I, env)
            except AnalysisAbort:
                raise
            except BaseException as ex:
                del I.stack[depth:]
                for ty, name, hb in hs:
                    if ty is None or isinstance(ex, R(ty(I, env))):
                        if name:
                            env.vars[name] = ex
                        try:
                            return hb(I, env)
                        finally:
                            if name:
                                env.vars.pop(name, None)
                raise
            if r is None and o is not None:
                return o(I, env)
            return r
        if f is None:
            return core

        def run(I, env):
            depth = len(I.stack)
            try:
                r = core(I, env)
            except AnalysisAbort:
                raise
            except BaseException:
                del I.stack[depth:]
                fr = f(I, env)
                if fr is not None:
                    return fr
                raise
            fr = f(I, env)
            return fr if fr is not None else r
        return run

    def s_With(self, s, cx):
        items = [(self.expr(i.context_expr, cx), self.target(i.optional_vars, cx) if i.optional_vars is not None else None)
                 for i in s.items]
        b = self.body(s.body, cx)

        def nest(k, I, env):
            if k == len(items):
                return b(I, env)
            ce, t = items[k]
            with R(ce(I, env)) as v:
                if t is not None:
                    t(I, env, v)
                return nest(k + 1, I, env)
        return lambda I, env: nest(0, I, env)

    def s_Raise(self, s, cx):
        e = self.expr(s.exc, cx) if s.exc is not None else None
        c = self.expr(s.cause, cx) if s.cause is not None else None

        def run(I, env):
            if e is None:
                ex = sys.exc_info()[1]
                if ex is None:
                    raise RuntimeError('No active exception to reraise')
                raise ex
            v = R(e(I, env))
            if c is not None:
                raise v from R(c(I, env))
            raise v
        return run

    def s_Assert(self, s, cx):
        t = self.expr(s.test, cx)
        m = self.expr(s.msg, cx) if s.msg is not None else None

        def run(I, env):
            if not R(t(I, env)):
                raise AssertionError(*([R(m(I, env))] if m is not None else []))
        return run

    def s_Import(self, s, cx):
        names = [(a.name, a.asname) for a in s.names]

        def run(I, env):
            for n, asn in names:
                m = I.import_module(n)
                if asn:
                    _store(env, asn, m)
                else:
                    top = n.split('.')[0]
                    if top == 'pybindgen':
                        _store(env, top, I.modules[top])
                    elif '.' in n:
                        t = I.import_module(top)
                        _store(env, top, t)
                    else:
                        _store(env, top, m)
        return run

    def s_ImportFrom(self, s, cx):
        names = [(a.name, a.asname or a.name) for a in s.names]
        level, module = s.level, s.module

        def run(I, env):
            base = module or ''
            if level:
                pkg = env.glob.get('__package__') or ''
                for _ in range(level - 1):
                    pkg = pkg.rpartition('.')[0]
                base = pkg + ('.' + base if base else '')
            m = I.import_module(base)
            for n, asn in names:
                if n == '*':
                    pub = getattr(m, '__all__', None) or [k for k in vars(m) if not k.startswith('_')]
                    for k in pub:
                        _store(env, k, getattr(m, k))
                    continue
                try:
                    v = getattr(m, n)
                except AttributeError:
                    try:
                        v = I.import_module(base + '.' + n)
                    except ModuleNotFoundError:
                        raise ImportError('cannot import name %r from %r' % (n, base))
                _store(env, asn, v)
        return run

    def s_FunctionDef(self, s, cx):
        mk = self.func(s, cx)
        decs = [self.expr(d, cx) for d in s.decorator_list]
        name = cx.mangle(s.name)

        def run(I, env):
            ds = [R(d(I, env)) for d in decs]
            f = mk(I, env)
            for d in reversed(ds):
                f = I.call_value(d, [f], {})
            _store(env, name, f)
        return run

    def s_ClassDef(self, s, cx):
        ccx = Ctx(cx.file, (cx.qual + '.' if cx.qual else '') + s.name, s.name)
        body = self.body(s.body, ccx)
        bases = [self.expr(b, cx) for b in s.bases]
        kws = [(k.arg, self.expr(k.value, cx)) for k in s.keywords]
        decs = [self.expr(d, cx) for d in s.decorator_list]
        doc = ast.get_docstring(s, clean=False)
        name = cx.mangle(s.name)

        def run(I, env):
            ds = [R(d(I, env)) for d in decs]
            bs = tuple(R(b(I, env)) for b in bases)
            kw = {k: R(v(I, env)) for k, v in kws}
            meta, ns, kw2 = types.prepare_class(s.name, bs, kw)
            cell = []
            frame = Frame(cx.file, ccx.qual, s.lineno)
            frame.env = None
            ns['__module__'] = env.glob.get('__name__')
            ns['__qualname__'] = ccx.qual
            if doc is not None:
                ns['__doc__'] = doc
            ns['__pyai_class__'] = (cx.file, s.lineno, ccx.qual)
            if (not bs or bs == (object,)) and meta is type:
                ns['__repr__'] = lambda self: '<%s.%s object at 0x%x>' % (type(self).__module__, type(self).__qualname__, id(self) + WORLD * 64)
            cenv = Env(ns, None, env if env.kind != 'module' else None, env.glob, 'class', frame, cell)
            I.stack.append(frame)
            try:
                body(I, cenv)
            finally:
                I.stack.pop()
            c = meta(s.name, bs, ns, **kw2)
            cell.append(c)
            for d in reversed(ds):
                c = I.call_value(d, [c], {})
            _store(env, name, c)
        return run

    # -- functions
    def func(self, s, cx, is_lambda=False):
        a = s.args
        fname = '<lambda>' if is_lambda else s.name
        fcx = Ctx(cx.file, (cx.qual + '.' if cx.qual else '') + fname, cx.cls)
        an = _AssignedNames()
        if is_lambda:
            an.visit(s.body)
        else:
            for st in s.body:
                an.visit(st)
        pos = [x.arg for x in a.posonlyargs + a.args]
        posonly = len(a.posonlyargs)
        kwonly = [x.arg for x in a.kwonlyargs]
        names = set(an.names) | set(pos) | set(kwonly)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        names -= an.globals
        names -= an.nonlocals
        local = frozenset(cx.mangle(n) for n in names)
        pos = [cx.mangle(n) for n in pos]
        kwonly = [cx.mangle(n) for n in kwonly]
        globs = frozenset(an.globals)
        nonlocs = frozenset(an.nonlocals)
        defaults = [self.expr(d, cx) for d in a.defaults]
        kwdefaults = [self.expr(d, cx) if d is not None else None for d in a.kw_defaults]
        vararg = a.vararg.arg if a.vararg else None
        kwarg = a.kwarg.arg if a.kwarg else None
        isgen = an.has_yield
        if is_lambda:
            e = self.expr(s.body, fcx)
            body = lambda I, env: Ret(e(I, env))
            genbody = None
            doc = None
            isgen = False
        else:
            genbody = GenCompiler(self).body(s.body, fcx) if isgen else None
            body = None if isgen else self.body(s.body, fcx)
            doc = ast.get_docstring(s, clean=False)
        npos = len(pos)
        line = s.lineno
        file, qual = cx.file, fcx.qual

        def make(I, env):
            dvals = [d(I, env) for d in defaults]
            kdvals = {k: d(I, env) for k, d in zip(kwonly, kwdefaults) if d is not None}
            penv = env
            while penv is not None and penv.kind == 'class':
                penv = penv.parent
            if penv is not None and penv.kind == 'module':
                penv = None
            glob = env.glob
            # class cell: nearest enclosing class env
            cell = None
            e2 = env
            while e2 is not None:
                if e2.classcell is not None:
                    cell = e2.classcell
                    break
                e2 = e2.parent

            def bind(args, kwargs):
                v = {}
                n = len(args)
                if n > npos:
                    if vararg is None:
                        raise TypeError('%s() takes %d positional arguments but %d were given' % (fname, npos, n))
                    v[vararg] = tuple(args[npos:])
                    n = npos
                elif vararg is not None:
                    v[vararg] = ()
                for i in range(n):
                    v[pos[i]] = args[i]
                extra = {}
                for k, val in kwargs.items():
                    if k in pos[posonly:] or k in kwonly:
                        if k in v:
                            raise TypeError('%s() got multiple values for argument %r' % (fname, k))
                        v[k] = val
                    elif kwarg is not None:
                        extra[k] = val
                    else:
                        raise TypeError('%s() got an unexpected keyword argument %r' % (fname, k))
                if kwarg is not None:
                    v[kwarg] = extra
                nd = len(dvals)
                for i in range(npos):
                    if pos[i] not in v:
                        j = i - (npos - nd)
                        if j >= 0:
                            v[pos[i]] = dvals[j]
                        else:
                            raise TypeError('%s() missing required argument: %r' % (fname, pos[i]))
                for k in kwonly:
                    if k not in v:
                        if k in kdvals:
                            v[k] = kdvals[k]
                        else:
                            raise TypeError('%s() missing required keyword-only argument: %r' % (fname, k))
                return v

            def f(*args, **kwargs):
                v = bind(args, kwargs)
                frame = Frame(file, qual, line)
                fe = Env(v, local, penv, glob, 'func', frame, None)
                fe.globs, fe.nonlocs = globs, nonlocs
                fe.classcell = cell
                fe.first = args[0] if args else None
                frame.env = fe
                hook = I.hooks.get(fname)
                if hook is not None:
                    hook(I, qual, v, args, kwargs)
                I.functions_entered.add((file, qual))
                if isgen:
                    return _rungen(I, fe, frame, genbody)
                if len(I.stack) > 600:
                    raise Diverged('recursion at %s' % frame.loc())
                I.stack.append(frame)
                try:
                    r = body(I, fe)
                except BaseException as ex:
                    if not hasattr(ex, '_pyai_frame'):
                        ex._pyai_frame = frame.loc()
                        ex._pyai_stack = [x.loc() for x in I.stack[-8:]]
                        ex._pyai_frames = list(I.stack)
                    raise
                finally:
                    if I.stack and I.stack[-1] is frame:
                        I.stack.pop()
                    elif frame in I.stack:
                        del I.stack[I.stack.index(frame):]
                rv = r.v if type(r) is Ret else None
                post = I.hooks.get('post:' + fname)
                if post is not None:
                    post(I, qual, v, rv)
                return rv
            f.__name__ = fname
            f.__qualname__ = qual
            f.__doc__ = doc
            f.__module__ = glob.get('__name__')
            f.__pyai__ = (file, line, qual)
            f.__pyai_args__ = (pos, kwonly, vararg, kwarg, len(dvals), dvals)
            return f
        return make

    # -- targets
    def target(self, t, cx):
        if isinstance(t, ast.Name):
            n = cx.mangle(t.id)
            return lambda I, env, v: _store(env, n, v)
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, cx)
            a = cx.mangle(t.attr)

            def f(I, env, v):
                setattr(R(o(I, env)), a, v)
            return f
        if isinstance(t, ast.Subscript):
            o = self.expr(t.value, cx)
            k = self.expr(t.slice, cx)

            def f(I, env, v):
                R(o(I, env))[R(k(I, env))] = R(v)
            return f
        if isinstance(t, ast.Starred):
            return self.target(t.value, cx)
        if isinstance(t, (ast.Tuple, ast.List)):
            ts = [self.target(x, cx) for x in t.elts]
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]

            def f(I, env, v):
                vals = list(R(v))
                if star:
                    i = star[0]
                    after = len(ts) - i - 1
                    if len(vals) < len(ts) - 1:
                        raise ValueError('not enough values to unpack')
                    vals = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
                if len(vals) != len(ts):
                    raise ValueError('cannot unpack %d values into %d' % (len(vals), len(ts)))
                for tt, vv in zip(ts, vals):
                    tt(I, env, vv)
            return f
        raise AnalysisAbort('unsupported target %s' % type(t).__name__)

    # -- expressions
    def expr(self, e, cx):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            def bad(I, env):
                raise AnalysisAbort('unsupported expression %s at %s:%d' % (type(e).__name__, cx.file, e.lineno))
            return bad
        return m(e, cx)

    def e_Constant(self, e, cx):
        v = e.value
        return lambda I, env: v

    def e_Name(self, e, cx):
        n = cx.mangle(e.id)
        return lambda I, env: _load(env, n)

    def e_Attribute(self, e, cx):
        o = self.expr(e.value, cx)
        a = cx.mangle(e.attr)
        return lambda I, env: getattr(R(o(I, env)), a)

    def e_Subscript(self, e, cx):
        o = self.expr(e.value, cx)
        k = self.expr(e.slice, cx)
        return lambda I, env: R(o(I, env))[R(k(I, env))]

    def e_Slice(self, e, cx):
        ps = [self.expr(x, cx) if x is not None else (lambda I, env: None) for x in (e.lower, e.upper, e.step)]
        return lambda I, env: slice(*[R(p(I, env)) for p in ps])

    def e_BinOp(self, e, cx):
        op = BINOPS[type(e.op)]
        l = self.expr(e.left, cx)
        r = self.expr(e.right, cx)
        if isinstance(e.op, ast.Mod):
            def f(I, env):
                a = R(l(I, env))
                b = R(r(I, env))
                if isinstance(a, (str, bytes)):
                    if type(b) is tuple:
                        b = tuple(R(x) for x in b)
                    elif type(b) is dict:
                        b = {k: R(x) for k, x in b.items()}
                return op(a, b)
            return f
        return lambda I, env: op(R(l(I, env)), R(r(I, env)))

    def e_UnaryOp(self, e, cx):
        o = self.expr(e.operand, cx)
        if isinstance(e.op, ast.Not):
            return lambda I, env: not R(o(I, env))
        op = UNOPS[type(e.op)]
        return lambda I, env: op(R(o(I, env)))

    def e_BoolOp(self, e, cx):
        vs = [self.expr(v, cx) for v in e.values]
        if isinstance(e.op, ast.And):
            def f(I, env):
                v = None
                for x in vs:
                    v = R(x(I, env))
                    if not v:
                        return v
                return v
        else:
            def f(I, env):
                v = None
                for x in vs:
                    v = R(x(I, env))
                    if v:
                        return v
                return v
        return f

    def e_Compare(self, e, cx):
        l = self.expr(e.left, cx)
        rest = [(CMPOPS[type(op)], self.expr(c, cx)) for op, c in zip(e.ops, e.comparators)]

        def f(I, env):
            a = R(l(I, env))
            v = True
            for op, c in rest:
                b = R(c(I, env))
                v = op(a, b)
                if not v:
                    return v
                a = b
            return v
        return f

    def e_IfExp(self, e, cx):
        t, a, b = self.expr(e.test, cx), self.expr(e.body, cx), self.expr(e.orelse, cx)
        return lambda I, env: a(I, env) if R(t(I, env)) else b(I, env)

    def _elts(self, elts, cx):
        cs = [(isinstance(x, ast.Starred), self.expr(x.value if isinstance(x, ast.Starred) else x, cx)) for x in elts]

        def f(I, env):
            out = []
            for star, c in cs:
                if star:
                    out.extend(R(c(I, env)))
                else:
                    out.append(R(c(I, env)))
            return out
        return f

    def e_Tuple(self, e, cx):
        f = self._elts(e.elts, cx)
        return lambda I, env: tuple(f(I, env))

    def e_List(self, e, cx):
        return self._elts(e.elts, cx)

    def e_Set(self, e, cx):
        f = self._elts(e.elts, cx)
        return lambda I, env: PSet(f(I, env))

    def e_Dict(self, e, cx):
        items = [(self.expr(k, cx) if k is not None else None, self.expr(v, cx)) for k, v in zip(e.keys, e.values)]

        def f(I, env):
            d = {}
            for k, v in items:
                if k is None:
                    d.update(R(v(I, env)))
                else:
                    kk = R(k(I, env))
                    d[kk] = R(v(I, env))
            return d
        return f

    def e_Starred(self, e, cx):
        raise AnalysisAbort('unexpected starred')

    def e_NamedExpr(self, e, cx):
        v = self.expr(e.value, cx)
        n = cx.mangle(e.target.id)

        def f(I, env):
            x = v(I, env)
            t = env
            while t.kind == 'comp':
                t = t.parent_env if hasattr(t, 'parent_env') else t.parent
            _store(t, n, x)
            return x
        return f

    def e_Lambda(self, e, cx):
        return self.func(e, cx, True)

    def e_JoinedStr(self, e, cx):
        ps = [self.expr(v, cx) for v in e.values]
        return lambda I, env: ''.join(p(I, env) for p in ps)

    def e_FormattedValue(self, e, cx):
        v = self.expr(e.value, cx)
        spec = self.expr(e.format_spec, cx) if e.format_spec is not None else None
        conv = {-1: None, 115: str, 114: repr, 97: ascii}[e.conversion]

        def f(I, env):
            x = R(v(I, env))
            if conv:
                x = conv(x)
            return format(x, spec(I, env) if spec else '')
        return f

    def e_Call(self, e, cx):
        fn = self.expr(e.func, cx)
        args = [(isinstance(a, ast.Starred), self.expr(a.value if isinstance(a, ast.Starred) else a, cx)) for a in e.args]
        kws = [(cx.mangle(k.arg) if k.arg else None, self.expr(k.value, cx)) for k in e.keywords]
        fname = e.func.id if isinstance(e.func, ast.Name) else None
        line = e.lineno

        if fname == 'super' and not args:
            def f(I, env):
                x = env
                cell = None
                first = None
                while x is not None:
                    if x.kind == 'func' and first is None and x.first is not None:
                        first = x.first
                    if x.classcell and cell is None:
                        cell = x.classcell
                    x = x.parent
                return super(cell[0], first)
            return f
        if fname in ('locals', 'vars') and not args and not kws:
            return lambda I, env: {k: R(v) for k, v in env.vars.items()}
        if fname == 'globals' and not args:
            return lambda I, env: env.glob

        def f(I, env):
            func = R(fn(I, env))
            interp = is_interp_callable(func)
            av = []
            for star, a in args:
                if star:
                    av.extend(R(a(I, env)))
                else:
                    av.append(a(I, env) if interp else R(a(I, env)))
            kv = {}
            for k, v in kws:
                if k is None:
                    kv.update(R(v(I, env)))
                else:
                    kv[k] = v(I, env) if interp else R(v(I, env))
            env.frame.line = line
            return func(*av, **kv)
        return f

    # -- comprehensions
    def _gens(self, gens, cx, emit):
        """returns f(I, env) -> python generator of emitted values"""
        first = self.expr(gens[0].iter, cx)
        comp = []
        for i, g in enumerate(gens):
            comp.append((self.expr(g.iter, cx) if i else None, self.target(g.target, cx), [self.expr(c, cx) for c in g.ifs]))

        def rec(k, I, env):
            if k == len(comp):
                yield emit(I, env)
                return
            it, t, ifs = comp[k]
            src = env.vars['.0'] if k == 0 else R(it(I, env))
            for v in src:
                t(I, env, v)
                ok = True
                for c in ifs:
                    if not R(c(I, env)):
                        ok = False
                        break
                if ok:
                    yield from rec(k + 1, I, env)

        def run(I, env):
            src = iter(R(first(I, env)))
            ce = Env({'.0': src}, frozenset(), env if env.kind not in ('module',) else None, env.glob, 'comp', env.frame)
            if env.kind == 'class':
                ce.parent = env.parent
            return rec(0, I, ce)
        return run

    def e_ListComp(self, e, cx):
        el = self.expr(e.elt, cx)
        g = self._gens(e.generators, cx, lambda I, env: R(el(I, env)))
        return lambda I, env: list(g(I, env))

    def e_SetComp(self, e, cx):
        el = self.expr(e.elt, cx)
        g = self._gens(e.generators, cx, lambda I, env: R(el(I, env)))
        return lambda I, env: PSet(g(I, env))

    def e_DictComp(self, e, cx):
        k = self.expr(e.key, cx)
        v = self.expr(e.value, cx)
        g = self._gens(e.generators, cx, lambda I, env: (R(k(I, env)), R(v(I, env))))
        return lambda I, env: dict(g(I, env))

    def e_GeneratorExp(self, e, cx):
        el = self.expr(e.elt, cx)
        g = self._gens(e.generators, cx, lambda I, env: R(el(I, env)))
        return lambda I, env: g(I, env)

    # match statement (subset)
    def s_Match(self, s, cx):
        subj = self.expr(s.subject, cx)
        cases = [(self.pattern(c.pattern, cx), self.expr(c.guard, cx) if c.guard is not None else None, self.body(c.body, cx))
                 for c in s.cases]

        def run(I, env):
            v = R(subj(I, env))
            for p, g, b in cases:
                if p(I, env, v) and (g is None or R(g(I, env))):
                    return b(I, env)
        return run

    def pattern(self, p, cx):
        if isinstance(p, ast.MatchValue):
            e = self.expr(p.value, cx)
            return lambda I, env, v: v == R(e(I, env))
        if isinstance(p, ast.MatchSingleton):
            return lambda I, env, v: v is p.value
        if isinstance(p, ast.MatchOr):
            ps = [self.pattern(x, cx) for x in p.patterns]
            return lambda I, env, v: any(x(I, env, v) for x in ps)
        if isinstance(p, ast.MatchAs):
            sub = self.pattern(p.pattern, cx) if p.pattern is not None else None

            def f(I, env, v):
                if sub is not None and not sub(I, env, v):
                    return False
                if p.name:
                    _store(env, p.name, v)
                return True
            return f
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_attrs:
            e = self.expr(p.cls, cx)
            return lambda I, env, v: isinstance(v, R(e(I, env)))
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            ps = [self.pattern(x, cx) for x in p.patterns]
            return lambda I, env, v: isinstance(v, (list, tuple)) and len(v) == len(ps) and all(
                x(I, env, y) for x, y in zip(ps, v))

        def bad(I, env, v):
            raise AnalysisAbort('unsupported pattern at %s' % cx.file)
        return bad


def I_stack_env(I, env):
    env.frame.env = env


def _rungen(I, fe, frame, genbody):
    I.stack.append(frame)
    try:
        g = genbody(I, fe)
    finally:
        I.stack.pop()
    while True:
        I.stack.append(frame)
        try:
            v = next(g)
        except StopIteration as e:
            return e.value.v if type(e.value) is Ret else None
        finally:
            if frame in I.stack:
                del I.stack[I.stack.index(frame):]
        yield v


class GenCompiler:
    """Statement executors as Python generators, for functions containing yield."""

    def __init__(self, c):
        self.c = c

    def body(self, stmts, cx):
        cs = [self.stmt(s, cx) for s in stmts]

        def run(I, env):
            for is_gen, c in cs:
                r = (yield from c(I, env)) if is_gen else c(I, env)
                if r is not None:
                    return r
            return None
        return run

    def has_yield(self, s):
        a = _AssignedNames()
        a.visit(s)
        return a.has_yield

    def stmt(self, s, cx):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) or not self.has_yield(s):
            return False, self.c.stmt(s, cx)
        return True, self.gstmt(s, cx)

    def gexpr(self, e, cx):
        if isinstance(e, ast.Yield):
            v = self.c.expr(e.value, cx) if e.value is not None else None

            def f(I, env):
                got = yield (v(I, env) if v else None)
                return got
            return f
        if isinstance(e, ast.YieldFrom):
            v = self.c.expr(e.value, cx)

            def f(I, env):
                r = yield from R(v(I, env))
                return r
            return f
        raise AnalysisAbort('unsupported yield position at %s:%d' % (cx.file, e.lineno))

    def gstmt(self, s, cx):
        c = self.c
        line = s.lineno
        if isinstance(s, ast.Expr):
            g = self.gexpr(s.value, cx)

            def run(I, env):
                env.frame.line = line
                yield from g(I, env)
            return run
        if isinstance(s, ast.Assign):
            g = self.gexpr(s.value, cx)
            ts = [c.target(t, cx) for t in s.targets]

            def run(I, env):
                v = yield from g(I, env)
                for t in ts:
                    t(I, env, v)
            return run
        if isinstance(s, ast.If):
            t = c.expr(s.test, cx)
            b = self.body(s.body, cx)
            o = self.body(s.orelse, cx)

            def run(I, env):
                env.frame.line = line
                if R(t(I, env)):
                    return (yield from b(I, env))
                return (yield from o(I, env))
            return run
        if isinstance(s, ast.While):
            t = c.expr(s.test, cx)
            b = self.body(s.body, cx)
            o = self.body(s.orelse, cx)

            def run(I, env):
                while True:
                    I.steps += 1
                    if I.steps > I.max_steps:
                        raise Diverged('step budget')
                    if not R(t(I, env)):
                        break
                    r = yield from b(I, env)
                    if r is BREAK:
                        return None
                    if r is not None and r is not CONTINUE:
                        return r
                return (yield from o(I, env))
            return run
        if isinstance(s, ast.For):
            it = c.expr(s.iter, cx)
            t = c.target(s.target, cx)
            b = self.body(s.body, cx)
            o = self.body(s.orelse, cx)

            def run(I, env):
                for v in R(it(I, env)):
                    t(I, env, v)
                    r = yield from b(I, env)
                    if r is BREAK:
                        return None
                    if r is not None and r is not CONTINUE:
                        return r
                return (yield from o(I, env))
            return run
        if isinstance(s, ast.With):
            items = [(c.expr(i.context_expr, cx), c.target(i.optional_vars, cx) if i.optional_vars is not None else None)
                     for i in s.items]
            b = self.body(s.body, cx)

            def nest(k, I, env):
                if k == len(items):
                    return (yield from b(I, env))
                ce, t = items[k]
                with R(ce(I, env)) as v:
                    if t is not None:
                        t(I, env, v)
                    return (yield from nest(k + 1, I, env))
            return lambda I, env: nest(0, I, env)
        if isinstance(s, ast.Try):
            b = self.body(s.body, cx)
            hs = [(c.expr(h.type, cx) if h.type is not None else None, h.name, self.body(h.body, cx)) for h in s.handlers]
            o = self.body(s.orelse, cx)
            fin = self.body(s.finalbody, cx)

            def run(I, env):
                try:
                    try:
                        r = yield from b(I, env)
                    except (AnalysisAbort, GeneratorExit):
                        raise
                    except BaseException as ex:
                        for ty, name, hb in hs:
                            if ty is None or isinstance(ex, R(ty(I, env))):
                                if name:
                                    env.vars[name] = ex
                                r = yield from hb(I, env)
                                break
                        else:
                            raise
                    else:
                        if r is None:
                            r = yield from o(I, env)
                except (AnalysisAbort, GeneratorExit):
                    raise
                except BaseException:
                    fr = yield from fin(I, env)
                    if fr is not None:
                        return fr
                    raise
                fr = yield from fin(I, env)
                return fr if fr is not None else r
            return run
        raise AnalysisAbort('unsupported yield in %s at %s:%d' % (type(s).__name__, cx.file, s.lineno))


class Ctx:
    __slots__ = ('file', 'qual', 'cls')

    def __init__(self, file, qual, cls):
        self.file, self.qual, self.cls = file, qual, cls

    def mangle(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            return '_' + self.cls.lstrip('_') + n
        return n


COMPILER = Compiler()
sys.setrecursionlimit(30000)
