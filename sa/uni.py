"""Scenario runner: abstractly interpret the generator on a family of abstract configurations.

A scenario builds a module through the public API with *atoms* for every user identifier and `Choice` values for every
option; each partition the source distinguishes yields one emitted translation unit (`Unit`), annotated with the source
construct that emitted every line.
"""
import collections, gc, os, pickle, re, selectors, struct, sys, threading, time, traceback
import decls, pyai
from pyai import R

REPO = os.environ.get('SA_REPO', '/repo')
CORE_EXC = ('CodeGenerationError', 'NotSupportedError', 'TypeConfigurationError', 'CodegenErrorBase', 'TypeLookupError')
SINK_FILES = ('codesink.py',)
SINK_CLASSES = ('CodeBlock', 'DeclarationsScope', 'ParseTupleParameters', 'BuildValueParameters', 'MemoryCodeSink', 'FileCodeSink',
                'NullCodeSink', 'CodeSink')


class Out:
    """stands for the output file object"""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(R(s))

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)


class Unit:
    __slots__ = ('scenario', 'decisions', 'text', 'prov', 'meta', 'error', 'warnings', 'entered', 'abort', 'steps', 'sections',
                 'error_loc', 'rejected')

    def __init__(self):
        self.text = None
        self.prov = {}
        self.meta = {}
        self.error = None
        self.error_loc = None
        self.abort = None
        self.warnings = []
        self.entered = set()
        self.sections = {}
        self.rejected = []

    def where(self, line_text):
        """source construct that emitted this line"""
        k = norm_line(line_text)
        p = self.prov.get(k)
        return p

    def desc(self):
        return ', '.join('%s=%s' % (k, v) for k, v in self.decisions) or '-'


def norm_line(s):
    return re.sub(r'\s+', '', s)


def install_provenance(I, unit):
    def record(I_, qual, v, args, kwargs):
        code = None
        for k in ('code', 'line', 'code_expression', 'cleanup_code', 'failure_expression', 'error_return'):
            if k in v:
                c = R(v[k])
                if isinstance(c, str):
                    code = c
                    break
        if code is None:
            return
        loc = None
        for fr in reversed(I_.stack):
            q = fr.qual.split('.')[0]
            if fr.file.endswith(SINK_FILES) or q in SINK_CLASSES:
                continue
            loc = fr.loc()
            break
        if loc is None:
            return
        for ln in code.split('\n'):
            n = norm_line(ln)
            if n and n not in ('{', '}', '};'):
                unit.prov.setdefault(n, loc)
    for h in ('write_code', 'writeln', 'write_error_check', 'add_cleanup_code'):
        I.hooks[h] = record

    def decl(I_, qual, v, args, kwargs):
        pass
    return record


class Ctx:
    """What a scenario sees: the interpreted API plus choice/atom makers."""

    def __init__(self, I, unit):
        self.I = I
        self.unit = unit
        self.M = I.mod('pybindgen')
        self.meta = unit.meta

    def ch(self, key, options):
        return self.I.choice(key, options)

    def pick(self, key, options):
        """a choice that is split now"""
        v = self.I.choice(key, options).get()
        return v

    def mod(self, name):
        return self.I.mod(name)

    def generate(self, module, multi=False):
        out = Out()
        module.generate(self.M.FileCodeSink(out))
        self.unit.text = out.text()
        return self.unit.text

    def attempt(self, what, fn, *a, **k):
        """call that may be rejected as a configuration error"""
        try:
            return fn(*a, **k)
        except Exception as e:
            if type(e).__name__ in CORE_EXC:
                self.unit.rejected.append((what, type(e).__name__, str(e)))
                raise Rejected(what, type(e).__name__, str(e))
            raise


class Rejected(Exception):
    pass


_BASE = None


def base_interp():
    global _BASE
    if _BASE is None:
        I = pyai.Interp(REPO)
        I.mod('pybindgen')
        I.mod('pybindgen.typehandlers.base')
        I.mod('pybindgen.cppclass')
        I.mod('pybindgen.container')
        I.mod('pybindgen.settings')
        _BASE = I
        gc.collect()
        gc.freeze()
        gc.disable()
    return _BASE


def set_error_handler(I, kind=None):
    """kind: None -> errors propagate (default handler semantics of the analysed source)"""
    st = I.mod('pybindgen.settings')
    st.error_handler = kind


def run_path(scn, prefix):
    I = base_interp()
    o = pyai.Oracle(prefix)
    I.oracle = o
    I.steps = 0
    I.stack = []
    I.functions_entered = set()
    I.warnings = []
    u = Unit()
    u.scenario = scn.name
    install_provenance(I, u)
    log = decls.Log()
    log.install(I)
    u.meta['log'] = log
    c = Ctx(I, u)
    u.decisions = []
    t_errstack = []

    try:
        scn.build(c)
    except Rejected:
        pass
    except pyai.AnalysisAbort as e:
        u.abort = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        tn = type(e).__name__
        if tn in CORE_EXC and not hasattr(scn, 'remake'):
            u.rejected.append(('configure', tn, str(e)))
        else:
            u.error = '%s: %s' % (tn, str(e)[:300])
            u.error_loc = interp_loc(e, I)
            u.meta['error_frames'] = culprit(getattr(e, '_pyai_frames', ()), scn)
    u.decisions = [(k, scn.label(k, i)) for k, i, n in o.trace]
    u.warnings = list(I.warnings)
    u.entered = set(I.functions_entered)
    u.steps = I.steps
    return o.trace, u


NAME_ATTRS = ('function_name', 'method_name', 'attribute_name')


def culprit(frames, scn):
    tags = {v.tag for v in getattr(scn, 'variants', ())}
    for fr in reversed(frames):
        if fr.env is None:
            continue
        for val in list(fr.env.vars.values()):
            d = getattr(val, '__dict__', None)
            if not isinstance(d, dict):
                continue
            for a in NAME_ATTRS + ('attribute_name', '_name', 'c_value_expression', 'c_value_lvalue'):
                x = d.get(a)
                x = R(x)
                if isinstance(x, str):
                    for w in re.findall(r'\w+', x):
                        if w in tags:
                            return w
    return None


def interp_loc(e, I):
    fr = getattr(e, '_pyai_frame', None)
    if fr:
        return fr
    return None


class Scenario:
    def __init__(self, name, build, max_paths=400):
        self.name, self.build, self.max_paths = name, build, max_paths

    def label(self, k, i):
        return i


def _fork_call(fn):
    """run fn() in a forked child, return its pickled value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn()))
            except BaseException as e:
                data = pickle.dumps(('err', ''.join(traceback.format_exception(e))[-4000:]))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('analysis child died')
    k, v = pickle.loads(data)
    if k == 'err':
        raise RuntimeError(v)
    return v


def run_scenario(scn, analyze, deadline=None):
    """all partitions of one scenario -> list of analyze(unit) results.  A wrapper of a bundle whose generation ends in an
    exception that is not a documented generation error is set aside (and reported through analyze) and the rest is redone."""
    prefix = []
    results = []
    n = 0
    truncated = False
    broken = []
    while True:
        def one():
            trace, u = run_path(scn, prefix)
            u.meta['broken'] = broken
            cul = u.meta.pop('error_frames', None)
            if u.error and cul and hasattr(scn, 'remake'):
                return trace, None, (cul, u.error, u.error_loc)
            return trace, analyze(u), None
        trace, res, again = _fork_call(one)
        if again:
            broken.append(again)
            rest = [v for v in scn.variants if v.tag != again[0]]
            if not rest:
                break
            scn = scn.remake(rest)
            continue
        results.append(res)
        n += 1
        t = list(trace)
        while t and t[-1][1] + 1 >= t[-1][2]:
            t.pop()
        if not t:
            break
        if n >= scn.max_paths or (deadline and time.time() > deadline):
            truncated = True
            break
        prefix = [x[1] for x in t[:-1]] + [t[-1][1] + 1]
    return results, truncated


_W = {}


def _worker(task):
    i, prefix = task
    scn = _W['scns'][i]
    try:
        if hasattr(scn, 'remake'):
            res, tr = run_scenario(scn, _W['analyze'], _W['deadline'])
            return i, prefix, res, None, None

        def one():
            trace, u = run_path(scn, prefix)
            u.meta['broken'] = []
            u.meta.pop('error_frames', None)
            return trace, _W['analyze'](u)
        trace, res = _fork_call(one)
        return i, prefix, [res], trace, None
    except Exception as e:
        return i, prefix, [], None, ''.join(traceback.format_exception(e))[-3000:]


def tuples_of(dec, t):
    """t-wise combinations of option decisions [(key, index)]"""
    import itertools
    return [c for k in range(1, t + 1) for c in itertools.combinations(dec, k)]


def run_all(scns, analyze, jobs=None, budget=None, strength=None):
    """-> list of (scenario, [results], truncated, error).  Partitions of one scenario are the leaves of its decision tree;
    with `strength` t only the leaves that add an uncovered t-wise combination of decisions are analysed, else all."""
    base_interp()
    _W['scns'] = scns
    _W['analyze'] = analyze
    _W['deadline'] = time.time() + budget if budget else None
    jobs = jobs or min(8, os.cpu_count() or 1)
    out = [[s, [], False, None] for s in scns]
    covered = [set() for s in scns]
    done = [0] * len(scns)
    todo = [collections.deque([()]) for s in scns]      # per scenario: decision prefixes still to explore
    batch = [[] for s in scns]                          # ... launched together; applied in launch order (deterministic)
    launch = collections.deque()
    procs = _Procs()

    def strength_of(i):
        st = getattr(scns[i], 'strength', None)
        return st if st is not None else strength

    def fill(i):
        """the next batch of scenario i"""
        scn, st = scns[i], strength_of(i)
        while todo[i] and len(batch[i]) < 8:
            prefix = todo[i].popleft()
            if prefix:
                if done[i] >= scn.max_paths or (_W['deadline'] and time.time() > _W['deadline']):
                    out[i][2] = True
                    continue
                if st:
                    dec = scn._keys[prefix]
                    new = [c for c in tuples_of(dec[:-1], st - 1) if c + (dec[-1],) not in covered[i]]
                    if not new and (dec[-1],) in covered[i]:
                        continue
                    covered[i].update(tuples_of(dec, st))
            done[i] += 1
            slot = [i, list(prefix), None]
            batch[i].append(slot)
            launch.append(slot)

    def apply(i, prefix, res, trace, err):
        scn, st = scns[i], strength_of(i)
        out[i][1].extend(res)
        if err and not out[i][3]:
            out[i][3] = err
        if not trace:
            return
        dec = [(k, x) for k, x, n in trace]
        if st:
            covered[i].update(tuples_of(dec, st))
        if not hasattr(scn, '_keys'):
            scn._keys = {}
        for j in range(len(prefix), len(trace)):
            for alt in range(1, trace[j][2]):
                if alt == trace[j][1]:
                    continue
                p = tuple(x for _, x, _ in trace[:j]) + (alt,)
                scn._keys[p] = dec[:j] + [(trace[j][0], alt)]
                todo[i].append(p)
    for i in range(len(scns)):
        fill(i)
    while launch or procs.n:
        while launch and procs.n < jobs:
            slot = launch.popleft()
            procs.start(slot)
        slot, r = procs.next()
        i = slot[0]
        slot[2] = r
        if all(x[2] is not None for x in batch[i]):
            for x in batch[i]:
                apply(*x[2])
            batch[i] = []
            fill(i)
    return [tuple(x) for x in out]


class _Procs:
    """forked children, one per task; results come back over pipes (the parent stays free of helper threads)"""

    def __init__(self):
        self.sel = selectors.DefaultSelector()
        self.n = 0
        self.ready = []

    def start(self, task):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                gc.disable()
                data = pickle.dumps(_worker((task[0], task[1])))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        self.sel.register(r, selectors.EVENT_READ, (pid, task, []))
        self.n += 1

    def next(self):
        while not self.ready:
            for key, _ in self.sel.select():
                pid, task, buf = key.data
                d = os.read(key.fd, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                self.sel.unregister(key.fd)
                os.close(key.fd)
                os.waitpid(pid, 0)
                d = b''.join(buf)
                try:
                    self.ready.append((task, pickle.loads(d)))
                except Exception as e:
                    self.ready.append((task, (task[0], task[1], [], None, 'analysis child died (%s)' % (e,))))
        self.n -= 1
        return self.ready.pop()


def in_big_thread(main):
    rc = []

    def run():
        try:
            rc.append(main() or 0)
        except SystemExit as e:
            rc.append(e.code or 0)
        except BaseException:
            traceback.print_exc()
            rc.append(2)
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc[0] if rc else 2)
