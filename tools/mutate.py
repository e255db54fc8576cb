"""Development tool: random small changes to pybindgen's generator, kept when the repository's stable tests still pass.

mutate.py SEED COUNT WORKERS OUTDIR     (survivors: OUTDIR/*.diff)"""
import ast, json, multiprocessing, os, random, re, shutil, subprocess, sys

SRC = '/repo'
FILES = ['cppclass.py', 'cppmethod.py', 'cppattribute.py', 'cppcustomattribute.py', 'cppexception.py', 'container.py', 'enum.py', 'function.py',
         'module.py', 'overloading.py', 'pytypeobject.py', 'utils.py', 'wrapper_registry.py', 'converter_functions.py',
         'typehandlers/base.py', 'typehandlers/inttype.py', 'typehandlers/stringtype.py', 'typehandlers/doubletype.py',
         'typehandlers/floattype.py', 'typehandlers/booltype.py', 'typehandlers/pyobjecttype.py', 'typehandlers/smart_ptr.py',
         'typehandlers/voidtype.py', 'typehandlers/codesink.py', 'typehandlers/ctypeparser.py']
WEIGHT = {'cppclass.py': 6, 'cppmethod.py': 4, 'typehandlers/base.py': 5, 'container.py': 3, 'typehandlers/inttype.py': 3, 'typehandlers/stringtype.py': 3,
          'module.py': 3, 'cppattribute.py': 2, 'function.py': 2, 'overloading.py': 2, 'pytypeobject.py': 2, 'typehandlers/smart_ptr.py': 2}
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
            out.add(id(n.body[0]))
    return out


def segs(src):
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    return off


def mutate(src, rnd):
    """-> (new source, description) or None"""
    tree = ast.parse(src)
    doc = docstrings(tree)
    off = segs(src)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    cand = []
    for n in ast.walk(tree):
        fn = n
        while fn is not None and not isinstance(fn, ast.FunctionDef):
            fn = par.get(fn)
        if fn is None or fn.name in ('__repr__', '__str__', '__hash__', '__cmp__'):
            continue
        p = par.get(n)
        if isinstance(p, ast.Raise) or isinstance(p, ast.Assert) or isinstance(n, (ast.Assert, ast.Raise)):
            continue
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and id(n) not in doc and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            cand.append(('del', n))
            if isinstance(n, ast.Expr):
                cand.append(('del', n))
        if isinstance(n, (ast.If, ast.IfExp)):
            cand += [('neg', n)] * 2
            cand.append(('true', n))
            cand.append(('false', n))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc and len(n.value) > 1:
            cand += [('str', n)] * 3
        if isinstance(n, ast.Constant) and (n.value is True or n.value is False or n.value in (0, 1) and isinstance(n.value, int)):
            cand.append(('const', n))
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 and isinstance(p, (ast.BinOp, ast.Call)):
            cand.append(('swap', n))
        if isinstance(n, ast.Call) and len(n.args) > 1:
            cand.append(('swapc', n))
        if isinstance(n, ast.BoolOp):
            cand.append(('bool', n))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            cand.append(('cmp', n))
        if isinstance(n, ast.keyword) and n.arg:
            cand.append(('kw', n))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            sib = {'before_call': 'after_call', 'after_call': 'before_call', 'add_cleanup_code': 'write_code', 'write_code': 'add_cleanup_code',
                   'DIRECTION_IN': 'DIRECTION_OUT', 'DIRECTION_OUT': 'DIRECTION_IN', 'DIRECTION_INOUT': 'DIRECTION_IN', 'full_name': 'name',
                   'mangled_full_name': 'mangled_name', 'mangled_name': 'mangled_full_name', 'prepend': 'add_parameter',
                   'before_init': 'after_init', 'after_init': 'before_init', 'pytypestruct': 'pystruct'}.get(n.attr)
            if sib:
                cand += [('attr:' + sib, n)] * 2
    if not cand:
        return None
    kind, n = rnd.choice(cand)
    s, e = span(n)
    old = b[s:e].decode()
    new = None
    if kind == 'del':
        new = 'pass'
    elif kind in ('neg', 'true', 'false'):
        s, e = span(n.test)
        old = b[s:e].decode()
        new = {'neg': 'not (%s)' % old, 'true': 'True', 'false': 'False'}[kind]
    elif kind == 'str':
        body = old
        edits = []
        for m in re.finditer(r'==|!=|<=|&&|\|\||->|return -1|return NULL|return 0|Py_INCREF|Py_XINCREF|Py_DECREF|Py_XDECREF|NULL|Py_None|\bself\b|'
                             r'\bother\b|&|\*|!|\b0\b|\b1\b|_NOT_OWNED|_NONE|#|O!|[NOsiIlLkKhHbB]\b|const |delete |new ', body):
            rep = {'==': '!=', '!=': '==', '<=': '<', '&&': '||', '||': '&&', 'return -1': 'return 0', 'return NULL': 'return Py_None', 'return 0': 'return -1',
                   'Py_INCREF': 'Py_XDECREF', 'Py_DECREF': 'Py_INCREF', 'Py_XDECREF': 'Py_XINCREF', 'Py_XINCREF': '(void)', 'NULL': 'Py_None',
                   'Py_None': 'NULL', 'self': 'other', 'other': 'self', '&': '', '*': '', '!': '', '0': '1', '1': '0', '_NOT_OWNED': '', '#': '',
                   '_NONE': '_OBJECT_NOT_OWNED', 'N': 'O', 'O': 'N', 'i': 'l', 'I': 'i', 'l': 'i', 'k': 'I', 'h': 'b', 'H': 'h', 'b': 'B', 'B': 'b',
                   's': 'z', 'L': 'K', 'K': 'L', 'const ': '', 'O!': 'O', 'delete ': '', 'new ': '&', '->': '.'}.get(m.group(0))
            if rep is not None:
                edits.append((m.start(), m.end(), rep))
        for m in re.finditer(r'(?:(?<=\\n)|(?<=\n)|(?<=["\']))[^\n"\']*?;(?=\\n|\n|["\'])', body):
            edits.append((m.start(), m.end(), ''))
        if not edits:
            return None
        a, z, r = rnd.choice(edits)
        new = body[:a] + r + body[z:]
    elif kind == 'const':
        new = {True: 'False', False: 'True'}.get(n.value) if isinstance(n.value, bool) else {0: '1', 1: '0'}[n.value]
    elif kind in ('swap', 'swapc'):
        el = n.elts if kind == 'swap' else n.args
        i = rnd.randrange(len(el) - 1)
        a, z = span(el[i]), span(el[i + 1])
        s, e = a[0], z[1]
        old = b[s:e].decode()
        new = b[z[0]:z[1]].decode() + b[a[1]:z[0]].decode() + b[a[0]:a[1]].decode()
    elif kind == 'bool':
        x = rnd.choice(n.values)
        new = '(%s)' % b[slice(*span(x))].decode()
    elif kind == 'cmp':
        m = {ast.Is: 'is not', ast.IsNot: 'is', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Gt: '>=', ast.GtE: '>', ast.Lt: '<=',
             ast.LtE: '<'}[type(n.ops[0])]
        new = '%s %s %s' % (b[slice(*span(n.left))].decode(), m, b[slice(*span(n.comparators[0]))].decode())
    elif kind == 'kw':
        c = par[n]
        if not isinstance(c, ast.Call):
            return None
        s, e = span(n)
        while e < len(b) and b[e:e + 1] in b', \n':
            e += 1
            if b[e - 1:e] == b',':
                break
        old = b[s:e].decode()
        new = '' if b[e - 1:e] == b',' else None
        if new is None:
            return None
    elif kind.startswith('attr:'):
        s = e - len(n.attr)
        old = n.attr
        new = kind[5:]
    if new is None or new == old:
        return None
    out = (b[:s] + new.encode() + b[e:]).decode()
    try:
        ast.parse(out)
    except SyntaxError:
        return None
    return out, '%s: %r -> %r' % (kind, old[:60], new[:60])


def worker(args):
    k, f, out, desc, root, outdir = args
    w = multiprocessing.current_process()._identity[0]
    copy = '%s/w%d' % (root, w)
    if not os.path.isdir(copy):
        os.makedirs(copy)
        subprocess.run(['cp', '-a', SRC, copy + '/repo'], check=True)
        os.makedirs(copy + '/work')
    p = '%s/repo/pybindgen/%s' % (copy, f)
    orig = open(p).read()
    open(p, 'w').write(out)
    try:
        r = subprocess.run(['unshare', '-Urm', 'sh', '-c',
                            'mount --bind %s/repo /repo && mount --bind %s/work /opt/pybindgen-tools/work && mkdir -p %s/tmp && mount --bind %s/tmp /tmp && '
                            'bash /opt/vp/test.sh /opt/pybindgen-tools/work/../work/o.json' % (copy, copy, copy, copy)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=500)
    except subprocess.TimeoutExpired:
        pass
    ok = False
    try:
        o = json.load(open(copy + '/work/o.json'))
        ok = not set(BASE) - set(o['passed'])
    except Exception:
        pass
    try:
        os.unlink(copy + '/work/o.json')
    except OSError:
        pass
    if ok:
        d = subprocess.run(['git', '-C', copy + '/repo', 'diff', '--', 'pybindgen'], capture_output=True, text=True).stdout
        open('%s/%s.diff' % (outdir, k), 'w').write(d)
    open(p, 'w').write(orig)
    return k, f, desc, ok


def main():
    seed, count, workers, outdir = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    rnd = random.Random(seed)
    os.makedirs(outdir, exist_ok=True)
    root = '/tmp/mu'
    os.makedirs(root, exist_ok=True)
    tasks = []
    pool = [f for f in FILES for _ in range(WEIGHT.get(f, 1))]
    while len(tasks) < count:
        f = rnd.choice(pool)
        r = mutate(open('%s/pybindgen/%s' % (SRC, f)).read(), rnd)
        if r:
            tasks.append(('s%d-%03d' % (seed, len(tasks)), f, r[0], r[1], root, outdir))
    with multiprocessing.Pool(workers) as p:
        for k, f, desc, ok in p.imap_unordered(worker, tasks):
            print('%s %s %s %s' % ('SURV' if ok else 'dead', k, f, desc), flush=True)


main()
