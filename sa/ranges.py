"""Integer ranges of values that come from Python, along each structured path of an emitted function.

A variable is tracked from the format unit (or PyLong_As* call) that stored into it; comparisons with constants narrow it.
At every sink (store into, return as, or pass to an integer type) the value's range has to lie inside the type's range,
and for 8/16-bit types the ranges of all paths together have to cover the whole type: nothing wraps, nothing valid is refused."""
import re
import pyformats as pf
from cmini import strip, text, walk

UNIT = {'b': (0, 255, True), 'h': (-2**15, 2**15 - 1, True), 'i': (-2**31, 2**31 - 1, True), 'l': (-2**63, 2**63 - 1, True),
        'L': (-2**63, 2**63 - 1, True), 'n': (-2**63, 2**63 - 1, True), 'B': (0, 255, False), 'H': (0, 65535, False),
        'I': (0, 2**32 - 1, False), 'k': (0, 2**64 - 1, False), 'K': (0, 2**64 - 1, False)}
CALLS = {'PyLong_AsLong': (-2**63, 2**63 - 1), 'PyInt_AsLong': (-2**63, 2**63 - 1), 'PyLong_AsLongLong': (-2**63, 2**63 - 1),
         'PyNumber_AsSsize_t': (-2**63, 2**63 - 1)}
CONST = {'INT8_MIN': -128, 'INT8_MAX': 127, 'UINT8_MAX': 255, 'INT16_MIN': -32768, 'INT16_MAX': 32767, 'UINT16_MAX': 65535, 'SCHAR_MAX': 127,
         'SCHAR_MIN': -128, 'UCHAR_MAX': 255, 'SHRT_MAX': 32767, 'SHRT_MIN': -32768, 'USHRT_MAX': 65535, 'INT_MAX': 2**31 - 1, 'INT_MIN': -2**31}
PARSERS = {'PyArg_ParseTuple': 1, 'PyArg_Parse': 1, 'PyArg_ParseTupleAndKeywords': 2}
VARSTART = {'PyArg_ParseTuple': 2, 'PyArg_Parse': 2, 'PyArg_ParseTupleAndKeywords': 4}


def type_range(ty):
    if not ty:
        return None
    t = pf.norm_type(ty).rstrip('&').strip()
    if t in ('char', 'bool'):
        return None
    b = pf.INT_TYPES.get(t)
    if b is None:
        return None
    bits, signed = b
    return (-2**(bits - 1), 2**(bits - 1) - 1) if signed else (0, 2**bits - 1)


class Ranges:
    def __init__(self, f, arg_types=None, lv_type=None):
        """arg_types(call) -> list of C types or None; lv_type(expr) -> C type of a non-local lvalue or None"""
        self.f = f
        self.arg_types, self.lv_type = arg_types or (lambda e: None), lv_type or (lambda e: None)
        self.types = {}
        self.sinks = {}      # (line, text) -> [type, lo, hi, checked]
        for ty, nm in f[4]:
            if nm:
                self.types[nm] = ty
        self.ret = re.sub(r'\b(static|inline|virtual|extern)\b', '', f[3]).strip()
        self.stmts(self.f[6][2] if self.f[6][0] == 'block' else [self.f[6]], [{}])

    # -------------------------------------------------------- statements: list of environments in, list out
    def stmts(self, ss, envs):
        for s in ss:
            if not envs:
                break
            envs = self.uniq(self.stmt(s, envs))
        return envs

    def uniq(self, envs):
        seen, out = set(), []
        for e in envs:
            k = tuple(sorted(e.items()))
            if k not in seen:
                seen.add(k)
                out.append(e)
        return out[:64]

    def stmt(self, s, envs):
        k = s[0]
        if k == 'block':
            return self.stmts(s[2], envs)
        if k == 'decl':
            for nm, base, ptr, arr, init, ctor in s[2]:
                ty = base + ' ' + ptr
                self.types[nm] = ty
                for env in envs:
                    env.pop(nm, None)
                    if init is not None and init[0] != 'init':
                        v = self.ev(init, env)
                        self.store_local(nm, v, env, s[1], text(init))
            return envs
        if k == 'expr':
            for env in envs:
                self.ev(s[2], env)
            return envs
        if k == 'return':
            for env in envs:
                if s[2] is not None:
                    v = self.ev(s[2], env)
                    self.sink(self.ret, v, s[1], 'return ' + text(s[2]))
            return []
        if k == 'if':
            out = []
            ts, fs = [], []
            for env in envs:
                for b, e2 in self.cond(s[2], env):
                    (ts if b else fs).append(e2)
            out += self.stmt(s[3], self.uniq(ts)) if ts else []
            if s[4] is not None:
                out += self.stmt(s[4], self.uniq(fs)) if fs else []
            else:
                out += fs
            return out
        if k in ('while', 'for', 'do'):
            if k == 'for':
                if s[2] is not None:
                    envs = self.stmt(s[2], envs)
                cond, step, body = s[3], s[4], s[5]
            elif k == 'while':
                cond, step, body = s[2], None, s[3]
            else:
                cond, step, body = s[3], None, s[2]
            out = [dict(e) for e in envs]
            cur = envs
            for _ in range(2):
                nx = []
                for env in cur:
                    if cond is not None and cond[0] != 'decl':
                        nx += [e2 for b, e2 in self.cond(cond, env) if b]
                    else:
                        nx.append(env)
                cur = self.stmt(body, self.uniq(nx))
                if step is not None:
                    for env in cur:
                        self.ev(step, env)
                out += [dict(e) for e in cur]
            return out
        if k == 'switch':
            for env in envs:
                self.ev(s[2], env)
            out = [dict(e) for e in envs]
            groups = []
            for x in (s[3][2] if s[3][0] == 'block' else []):
                if x[0] == 'case':
                    groups.append([])
                else:
                    for g in groups:
                        g.append(x)
            for g in groups:
                out += self.stmts(g, [dict(e) for e in envs])
            return out
        if k == 'try':
            pre = [dict(e) for e in envs]
            out = self.stmt(s[2], envs)
            for cl, decl, body in s[3]:
                out += self.stmt(body, [dict(e) for e in pre])
            return out
        return [] if k in ('break', 'goto', 'throw') else envs

    # -------------------------------------------------------- conditions
    def cond(self, e, env):
        e = strip(e)
        if e[0] == 'un' and e[2] == '!':
            return [(not b, s) for b, s in self.cond(e[3], env)]
        if e[0] == 'bin' and e[2] in ('&&', '||'):
            out = []
            for b, s in self.cond(e[3], env):
                if (e[2] == '&&') == b:
                    out += self.cond(e[4], s)
                else:
                    out.append((b, s))
            return out
        if e[0] == 'bin' and e[2] in ('<', '>', '<=', '>=', '==', '!='):
            l, r, op = strip(e[3]), strip(e[4]), e[2]
            cr, cl = self.const(r), self.const(l)
            if cr is None and cl is not None:
                l, r, cr = r, l, cl
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            lv = self.ev(e[3], env)
            self.ev(e[4], env)
            lx = l
            while lx[0] in ('cast', 'paren', 'ccast'):
                lx = strip(lx[3] if lx[0] == 'cast' else lx[4] if lx[0] == 'ccast' else lx[2])
            if lx[0] == 'assign' and lx[2] == '=':
                lx = strip(lx[3])
            if cr is not None and lx[0] == 'id' and lx[2] in env:
                lo, hi, chk = env[lx[2]]
                t = {'<': (lo, min(hi, cr - 1)), '<=': (lo, min(hi, cr)), '>': (max(lo, cr + 1), hi), '>=': (max(lo, cr), hi),
                     '==': (max(lo, cr), min(hi, cr)), '!=': (lo, hi)}[op]
                f = {'<': (max(lo, cr), hi), '<=': (max(lo, cr + 1), hi), '>': (lo, min(hi, cr)), '>=': (lo, min(hi, cr - 1)),
                     '==': (lo, hi), '!=': (max(lo, cr), min(hi, cr))}[op]
                out = []
                for b, (a, z) in ((True, t), (False, f)):
                    if a <= z:
                        n = dict(env)
                        n[lx[2]] = (a, z, chk)
                        out.append((b, n))
                return out
            return [(True, dict(env)), (False, dict(env))]
        self.ev(e, env)
        return [(True, dict(env)), (False, dict(env))]

    def const(self, e):
        e = strip(e)
        if e[0] == 'num':
            try:
                return int(re.sub(r'[uUlL]+$', '', e[2]), 0)
            except ValueError:
                return None
        if e[0] == 'un' and e[2] in '-+~':
            c = self.const(e[3])
            return None if c is None else -c if e[2] == '-' else ~c if e[2] == '~' else c
        if e[0] == 'id':
            return CONST.get(e[2])
        if e[0] in ('cast', 'ccast'):
            return self.const(e[3] if e[0] == 'cast' else e[4])
        if e[0] == 'bin' and e[2] in ('+', '-', '<<', '*'):
            a, b = self.const(e[3]), self.const(e[4])
            if a is None or b is None:
                return None
            return {'+': a + b, '-': a - b, '<<': a << b if 0 <= b < 80 else None, '*': a * b}[e[2]]
        return None

    # -------------------------------------------------------- expressions -> (lo, hi, checked) of a Python integer, or None
    def ev(self, e, env):
        if not isinstance(e, tuple) or not e or not isinstance(e[0], str):
            return None
        k = e[0]
        if k == 'paren':
            return self.ev(e[2], env)
        if k in ('cast', 'ccast'):
            v = self.ev(e[3] if k == 'cast' else e[4], env)
            ty = e[2] if k == 'cast' else e[3]
            if type_range(ty) is not None:
                self.sink(ty, v, e[1], text(e))
                return v
            return v if type_range(ty) else None
        if k == 'id':
            return env.get(e[2])
        if k == 'assign':
            v = self.ev(e[4], env)
            lv = strip(e[3])
            if lv[0] == 'id' and lv[2] in self.types:
                if e[2] != '=':
                    v = None
                self.store_local(lv[2], v, env, e[1], text(e))
            elif e[2] == '=':
                self.ev(lv, env)
                self.sink(self.lvalue_type(lv), v, e[1], text(e))
            return v
        if k == 'cond':
            r = [(b, s) for b, s in self.cond(e[2], env)]
            vs = []
            for b, s in r:
                v = self.ev(e[3] if b else e[4], s)
                if v is not None:
                    vs.append(v)
            if not vs:
                return None
            return (min(v[0] for v in vs), max(v[1] for v in vs), all(v[2] for v in vs))
        if k == 'call':
            return self.call(e, env)
        for x in e[2:]:
            if isinstance(x, tuple):
                self.ev(x, env)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, tuple):
                        self.ev(y, env)
        return None

    def call(self, e, env):
        fn = strip(e[2])
        name = fn[2] if fn[0] == 'id' else fn[4] if fn[0] == 'member' else ''
        args = e[3]
        if name in PARSERS and len(args) > PARSERS[name]:
            fm = args[PARSERS[name]]
            while fm[0] in ('cast', 'paren'):
                fm = fm[3] if fm[0] == 'cast' else fm[2]
            if fm[0] == 'str':
                try:
                    us = pf.parse_units(fm[2], pf.PARSE)
                except pf.FormatError:
                    us = []
                i = VARSTART[name]
                for u, opt in us:
                    for role in pf.PARSE[u]:
                        if i < len(args):
                            a = strip(args[i])
                            while a[0] in ('cast', 'paren'):
                                a = a[3] if a[0] == 'cast' else a[2]
                            if a[0] == 'un' and a[2] == '&':
                                lv = strip(a[3])
                            else:
                                lv = ('un', a[1], '*', a)
                            if u in UNIT:
                                v = UNIT[u]
                                if lv[0] == 'id' and lv[2] in self.types:
                                    self.store_local(lv[2], v, env, e[1], 'format unit %s' % u)
                                else:
                                    self.sink(self.lvalue_type(lv), v, e[1], 'format unit %s' % u)
                            elif lv[0] == 'id':
                                env.pop(lv[2], None)
                        i += 1
            return None
        ts = self.arg_types(e)
        for i, a in enumerate(args):
            v = self.ev(a, env)
            if ts and i < len(ts) and ts[i]:
                t = ts[i]
                if '*' not in t:
                    self.sink(t, v, e[1], 'argument %s' % text(a))
        if fn[0] == 'member':
            self.ev(fn, env)
        if name in CALLS:
            return CALLS[name] + (True,)
        return None

    def lvalue_type(self, lv):
        lv = strip(lv)
        if lv[0] == 'un' and lv[2] == '*':
            x = strip(lv[3])
            if x[0] == 'id' and x[2] in self.types:
                t = self.types[x[2]].strip().rstrip('&').strip()
                return t[:-1] if t.endswith('*') else None
        if lv[0] == 'id' and lv[2] in self.types:
            return self.types[lv[2]]
        return self.lv_type(lv)

    def store_local(self, nm, v, env, line, what):
        ty = self.types.get(nm)
        self.sink(ty, v, line, what)
        r = type_range(ty)
        if v is None or ty is None or '*' in ty:
            env.pop(nm, None)
        elif r is not None:
            env[nm] = (max(v[0], r[0]), min(v[1], r[1]), v[2]) if max(v[0], r[0]) <= min(v[1], r[1]) else (r[0], r[1], v[2])
        else:
            env.pop(nm, None)

    def sink(self, ty, v, line, what):
        r = type_range(ty)
        if v is None or r is None or '*' in (ty or ''):
            return
        s = self.sinks.setdefault((line, what, pf.norm_type(ty)), [r, []])
        if v not in s[1]:
            s[1].append(v)


def problems(R):
    """-> [(line, what, message)]"""
    out = []
    for (line, what, ty), (r, vs) in sorted(R.sinks.items(), key=lambda x: x[0][0]):
        narrow = r[1] < 2**31 - 1
        bad = [v for v in vs if v[0] < r[0] or v[1] > r[1]]
        if bad:
            v = bad[0]
            out.append((line, 'wraps', 'a Python integer between %d and %d is stored into %s, which wraps it' % (v[0], v[1], ty)))
            continue
        un = [v for v in vs if not v[2]]
        if un and narrow:
            out.append((line, 'unchecked', 'the format unit does not check the range of a value stored into %s' % ty))
            continue
        if narrow:
            cur = r[0]
            for a, z, _ in sorted(vs):
                if a <= cur:
                    cur = max(cur, z + 1)
            if cur <= r[1]:
                out.append((line, 'refused', 'values of %s from %d on are refused or never stored (accepted: %s)'
                            % (ty, cur, ', '.join('%d..%d' % v[:2] for v in sorted(vs)))))
    return out
