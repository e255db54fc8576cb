"""Analyses over one emitted translation unit.  A finding is a dict:
   rule, where (construct of the generator source), func (emitted function), what, msg, variant, config (py3/py2)"""
import re
import cmini, cflow, cscope
from cmini import strip, text, walk

CONFIGS = (('py3', cmini.PY3_DEFS), ('py2', cmini.PY2_DEFS))


class Parsed:
    """one unit under one preprocessor configuration"""

    def __init__(self, unit_text, defs):
        self.lines = unit_text.split('\n')
        self.items, self.pre = cmini.parse(unit_text, defs)
        self.funcs = list(cmini.functions(self.items))
        self.pystructs = cflow.pystructs_of(self.items)
        self.newfuncs = cflow.newfuncs_of(self.items)

    def line(self, n):
        return self.lines[n - 1] if 0 < n <= len(self.lines) else ''


def parsed(u, cfg):
    c = u.meta.setdefault('_parsed', {})
    if cfg not in c:
        try:
            c[cfg] = Parsed(u.text, dict(CONFIGS)[cfg])
        except cmini.CError as e:
            c[cfg] = e
    return c[cfg]


def where(u, lines, line):
    t = lines[line - 1] if 0 < line <= len(lines) else ''
    w = u.where(t)
    if w is None:
        # look at the neighbouring emitted lines
        for d in (1, -1, 2, -2, 3, -3):
            k = line - 1 + d
            if 0 <= k < len(lines):
                w = u.where(lines[k])
                if w:
                    break
    return w


def finding(u, rule, w, func, what, msg, cfg, variant=None, line=0, ctext=''):
    return {'rule': rule, 'where': w, 'func': func, 'what': what, 'msg': msg, 'config': cfg, 'variant': variant,
            'scenario': u.scenario, 'decisions': u.desc(), 'line': line, 'ctext': ctext}


TAG = re.compile(r'(?<![A-Za-z0-9])(tgt\d+)(?![0-9])')


def variant_of(u, f, lines=None):
    """variant a function belongs to: its name contains the tag, or its body mentions exactly one tag"""
    vs = u.meta.get('variants')
    if not vs:
        return None
    m = TAG.search(f[2].replace('_', ' '))
    if m and m.group(1) in vs:
        return vs[m.group(1)][0]
    tags = set()
    for n in walk(f[6]):
        if n[0] in ('id',):
            m = TAG.search(n[2].replace('_', ' '))
            if m:
                tags.add(m.group(1))
        elif n[0] == 'member':
            m = TAG.search(n[4].replace('_', ' '))
            if m:
                tags.add(m.group(1))
    tags &= set(vs)
    if len(tags) == 1:
        return vs[tags.pop()][0]
    return None


def is_reverse(f):
    return '__PythonHelper' in f[2] and '::' in f[2]


def is_proxy(f):
    """a virtual method of a helper class, which C++ may call on any thread (not its constructors, destructor or set_pyobj)"""
    cl, _, m = f[2].rpartition('::')
    return '__PythonHelper' in cl and m != 'set_pyobj' and not m.startswith('_wrap_') and '__PythonHelper' not in m


def is_module_init(f):
    return any(n[0] == 'call' and strip(n[2])[0] == 'id' and strip(n[2])[2] in ('PyModule_Create', 'Py_InitModule3', 'Py_InitModule')
               for n in walk(f[6]))


def flow_opts(u, f, v):
    o = {'err_kind': err_kind(f), 'null_ok': bool(re.search(r'(__tp_iternext|iternext|_iter_next)', f[2]))}
    if o['err_kind'] == 'quiet' and is_proxy(f) or f[2].rpartition('::')[2].startswith('~') and '__PythonHelper' in f[2]:
        o['entry_gil'] = False                     # C++ may call it, and destroy the object, on any thread
    if u.meta.get('byref'):
        o['byref'] = tuple(u.meta['byref'])
    if v is None:
        return o
    kw = v.kw
    if v.ctype == 'PyObject*':
        if v.kind in ('fn-param', 'virt-param') and kw.get('transfer_ownership'):
            if is_reverse(f):
                o['owned_params'] = ('x',)
                o['consuming'] = ('x',)
            else:
                o['consuming'] = ('x',)
        if v.kind in ('fn-ret', 'virt-ret', 'meth-ret'):
            o['retrefs'] = {v.tag: 1 if kw.get('caller_owns_return') else 0}
            if is_reverse(f) and not kw.get('caller_owns_return'):
                o['borrow_ok'] = ('the borrowed argument retval', 'the result of the wrapped call %s' % v.tag)
    if kw.get('direction') == 2 and '&' in v.ctype:
        o['byref'] = ('x',)
    return o


def err_kind(f):
    """how the function reports failure: 'ptr' NULL, 'minus1' -1, 'conv' 0, 'quiet' not at all (called from C++); None: does not"""
    name = f[2]
    ret = f[3].replace('static', '').replace('inline', '').strip()
    if is_proxy(f):
        return None if '__parent_caller' in name else 'quiet'
    if not f[4] or is_module_init(f):
        return None
    if re.match(r'(const\s+)?(PyObject|Py[A-Z]\w*)\s*\*$', ret):
        return 'ptr'
    if ret == 'int' and 'convert_py2c' in name:
        return 'conv'
    if ret in ('int', 'Py_ssize_t', 'long', 'Py_hash_t'):
        return 'minus1'
    return None


def scope_findings(u, cfg, user):
    """parse + name resolution"""
    p = parsed(u, cfg)
    lines = u.text.split('\n')
    if isinstance(p, Exception):
        ln = getattr(p, 'line', 0)
        ct = lines[ln - 1].strip() if 0 < ln <= len(lines) else ''
        return [finding(u, 'malformed', where(u, lines, ln), '', ct, 'the emitted text does not parse: %s' % p, cfg, None, ln, ct)], 0
    sc = cscope.Scope(cscope.unit_names(p.items), user, p.pre.macros)
    out = []
    for pre, f in p.funcs:
        n0 = len(sc.reports)
        sc.func(f)
        v = None
        for r in sc.reports[n0:]:
            v = v or variant_of(u, f)
            out.append(finding(u, r['rule'], where(u, lines, r['line']), r['func'], r['what'], r['msg'], cfg, v, r['line'],
                               p.line(r['line']).strip()))
    n0 = len(sc.reports)
    cscope.globals_check(sc, p.items)
    for r in sc.reports[n0:]:
        out.append(finding(u, r['rule'], where(u, lines, r['line']), r['func'], r['what'], r['msg'], cfg, None, r['line'],
                           p.line(r['line']).strip()))
    return out, sc.n


FLOW_RULES = {
    'own': ('leak', 'over-release', 'steal-borrowed', 'return-borrowed'),
    'gil': ('gil-api', 'gil-exit', 'gil-ensure', 'gil-save', 'gil-restore', 'gil-release'),
    'fmt': ('format', 'format-arity', 'format-type'),
    'init': ('uninit',),
    'err': ('err-missing', 'err-stale'),
}


def flow_findings(u, cfg, groups, skip=None):
    p = parsed(u, cfg)
    if isinstance(p, Exception):
        return [], 0, 0
    lines = u.text.split('\n')
    rules = {r for g in groups for r in FLOW_RULES[g]}
    out = []
    nf = nt = 0
    same = {}
    if cfg != 'py3' and not isinstance(parsed(u, 'py3'), Exception):
        for _, g in parsed(u, 'py3').funcs:
            same.setdefault((g[2], g[1]), g)
    for pre, f in p.funcs:
        if skip and skip(f):
            continue
        if same and same.get((f[2], f[1])) == f:
            continue    # the preprocessor makes no difference to this function
        v = variant_of(u, f)
        try:
            fl = cflow.Flow(f, p.pystructs, p.newfuncs, **flow_opts(u, f, v)).run()
        except cflow.Limits as e:
            out.append(finding(u, 'limit', None, f[2], str(e), 'analysis budget exceeded', cfg, v))
            continue
        nf += 1
        nt += fl.tracked + fl.calls_seen
        for r in fl.reports:
            if r['rule'] not in rules:
                continue
            if r['rule'] in ('leak', 'return-borrowed') and is_module_init(f):
                continue   # runs once per process; not on behalf of a wrapper call
            out.append(finding(u, r['rule'], where(u, lines, r['line']), r['func'], r['what'], r['msg'], cfg, v, r['line'],
                               p.line(r['line']).strip()))
    return out, nf, nt


# ------------------------------------------------------------------ argument and result routing
def wrapped_pred(cname, ctor=False):
    import valueflow

    def is_wrapped(e):
        if e[0] == 'new':
            return ctor and e[2].replace(' ', '').split('::')[-1] in (cname, 'Py%s__PythonHelper' % (cname[0].upper() + cname[1:]))
        return e[0] == 'call' and not ctor and valueflow.callee_name(e) in (cname, cname + '__parent_caller')
    return is_wrapped


def wrappers_of(u, defaults=False):
    """[(W, variant or None)] the configuration asked for"""
    import valueflow
    out = []
    for w in u.meta.get('wrappers') or ():
        if defaults and w.get('nodflt'):
            continue
        out.append((valueflow.W(w['cname'], w['params'], w['ret'], w['kind'], skip=w.get('skip', 0), rparams=w.get('rparams'), dflt=w.get('dflt')), None, w))
    for tag, (v, st) in (u.meta.get('variants') or {}).items():
        if st != 'added':
            continue
        if v.kind in ('fn-param', 'virt-param'):
            d = v.kw.get('direction', 1)
            cls = any(re.search(r'\b%s\b' % re.escape(c), v.ctype) for c in v.classes) and '<' not in v.ctype
            if d != 1 and (cls and '*' in v.ctype or v.ctype[-1] not in '*&'):
                continue    # no meaning is documented for output class pointers
            if defaults and (cls and d != 1 or '*' in v.ctype and not cls and 'char' not in v.ctype and 'PyObject' not in v.ctype):
                continue    # objects modified in place, and pointers to plain numbers and arrays, take no default
            rd = d
            if cls and d != 1:
                d, rd = (1 if d == 3 else 2), 1     # the wrapped object itself is modified in place
            out.append((valueflow.W(tag, [('x', d, 'default_value' in v.kw)], False, v.kind, rparams=[('x', rd, False)],
                                   dflt={'x': v.kw['default_value']} if 'default_value' in v.kw else {}), v, None))
        elif v.kind in ('fn-ret', 'virt-ret', 'meth-ret'):
            out.append((valueflow.W(tag, [], v.ctype != 'void', v.kind), v, None))
    return out


def routing_findings(u, cfg, defaults=False):
    """every wrapper and proxy of the unit: arguments and results go where the declaration says"""
    import valueflow
    p = parsed(u, cfg)
    if isinstance(p, Exception):
        return [], 0, 0
    lines = u.text.split('\n')
    skipped = {n for n, _, _, _ in u.meta.get('skipped', ())}
    byname = {}
    for pre, f in p.funcs:
        names = set()
        for n in walk(f[6]):
            if n[0] == 'call':
                cn = valueflow.callee_name(n)
                if cn:
                    names.add(cn[:-len('__parent_caller')] if cn.endswith('__parent_caller') else cn)
            elif n[0] == 'new':
                t = n[2].replace(' ', '').split('::')[-1]
                m = re.match(r'Py(\w+)__PythonHelper$', t)
                names.add(t)
                if m:
                    names.add(m.group(1)[0].lower() + m.group(1)[1:])
        if '__PythonHelper::' in f[2]:
            names.add(f[2].split('::')[-1])
        for x in names:
            byname.setdefault(x, []).append(f)
    out = []
    nf = no = 0
    for w, v, raw in wrappers_of(u, defaults):
        if w.cname in skipped:
            continue
        isw = wrapped_pred(w.cname, w.kind == 'ctor')
        for f in byname.get(w.cname, ()):
            if '__parent_caller' in f[2]:
                continue
            rev = '__PythonHelper::' in f[2]
            if rev and f[2].split('::')[-1] != w.cname:
                continue
            if w.kind == 'ctor' and not ('tp_init' in f[2]):
                continue
            sl = valueflow.Slice(f, isw, proxy=rev)
            if not rev and not sl.wrapped:
                continue
            if defaults and rev:
                continue
            nf += 1
            fs, n = (valueflow.default_check if defaults else valueflow.rev_check if rev else valueflow.fwd_check)(sl, w)
            no += n
            for ln, what, msg in fs:
                out.append(finding(u, 'default' if defaults else 'routing', where(u, lines, ln), f[2], what, msg, cfg, v, ln, p.line(ln).strip()))
    return out, nf, no


# ------------------------------------------------------------------ integer ranges
def range_findings(u, cfg):
    import ranges, valueflow
    p = parsed(u, cfg)
    if isinstance(p, Exception):
        return [], 0, 0
    lines = u.text.split('\n')
    out = []
    nf = no = 0
    for pre, f in p.funcs:
        v = variant_of(u, f)

        def arg_types(e, v=v):
            if v is not None and v.kind in ('fn-param', 'virt-param') and (valueflow.callee_name(e) or '').replace('__parent_caller', '') == v.tag:
                return [v.ctype]

        def lv_type(e, v=v):
            if v is not None and v.kind in ('attr', 'sattr') and text(e).split('::')[-1].split('->')[-1].split('.')[-1] == v.tag:
                return v.ctype
            if v is not None and v.kind in ('attr', 'sattr', 'global') and v.tag in text(e):
                return v.ctype
        R = ranges.Ranges(f, arg_types, lv_type)
        nf += 1
        no += len(R.sinks)
        for ln, what, msg in ranges.problems(R):
            out.append(finding(u, 'range', where(u, lines, ln), f[2], what, msg, cfg, v, ln, p.line(ln).strip()))
    return out, nf, no
