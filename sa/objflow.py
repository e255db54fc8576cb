"""Ownership of C++ objects and completeness of wrapper objects in one emitted function.

Extends the path-sensitive domain of cflow: pointers to C++ objects are identified by where they came from (their root), and each path
carries a ledger of how many shares of each root the function holds.  A wrapper object holds one share of what its obj field points to
unless its flags say NOT_OWNED.  At every exit the ledger has to be even, and every wrapper created on the path has to be complete."""
import re
import cflow, cmini
import pyformats as pf
from cflow import TOP, NULL
from cmini import strip, text, walk

INC = {'Ref', 'uRef', 'rcf_ref', 'uRef_f'}
DEC = {'Unref', 'uUnref', 'rcf_unref', 'uUnref_f', 'freef_free', 'uFree_f'}
FREES = {'freef_free', 'uFree_f'}
NEWPY = {'PyObject_New', 'PyObject_GC_New', 'PyObject_NEW'}
SEES = {'Py_BuildValue', 'PyObject_CallMethod', 'PyList_Append', 'PyTuple_SET_ITEM', 'PyList_SET_ITEM', 'PyObject_GetAttrString',
        'PyObject_SetAttrString', 'PyList_SetItem', 'PyTuple_SetItem'}


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        self.held = 'iterator' if 'iterator' in fields else 'obj'
        o = fields.get(self.held, '')
        self.smart = 'shared_ptr' in o
        m = re.search(r'shared_ptr<(.*)>$', o)
        self.cls = norm(m.group(1)) if m else norm(o.rstrip('*'))


def norm(t):
    t = re.sub(r'\s+', '', t)
    t = re.sub(r'^(?:const(?=\W|[A-Z]))', '', t)
    return t.lstrip(':')


def structs_of(items):
    out = {}

    def rec(its):
        for it in its:
            if it[0] == 'type':
                body = it[3]
                if any(x[0] == 'declonly' and any(t.v == 'ob_base' for t in x[2]) for x in body):
                    nm = it[4].strip() or it[2].split()[-1]
                    fields = {}
                    for x in body:
                        if x[0] != 'declonly':
                            continue
                        toks = x[2]
                        vs = [t.v for t in toks]
                        if ':' in vs:
                            toks = toks[:vs.index(':')]
                        fields[toks[-1].v] = cmini.join_tokens(toks[:-1]).replace(' ', '')
                    fields.pop('ob_base', None)
                    out[nm] = Struct(nm, fields)
                rec(body)
            elif it[0] == 'ns':
                rec(it[3])
    rec(items)
    return out


class ObjFlow(cflow.Flow):
    """opts: structs; mode None/'init'/'clear'; expect: name of wrapped call -> (what its result is, its credit); consume: set of names of
    wrapped calls whose pointer argument takes over a share; xown: credit of parameter x of a proxy; retown: share the proxy's result
    carries; rc: the class is reference counted; selfinit: functions that initialise / clear the wrapper passed to them"""

    def __init__(self, func, structs, pystructs=(), newfuncs=(), mode=None, expect=None, consume=(), xtype='', xown=0, retown=None, rc=False,
                 selfinit=(), clears=(), gc_types=None, registry=None, lenient=False, **kw):
        super().__init__(func, pystructs, newfuncs, **kw)
        self.structs, self.mode, self.expect, self.consume = structs, mode, expect or {}, set(consume)
        self.xtype, self.xown, self.retown, self.rc = xtype, xown, retown, rc
        self.selfinit, self.clears = set(selfinit), set(clears)
        self.gc_types = gc_types or {}
        self.registry = registry or {}
        self.lenient = lenient
        self.classes = {s.cls for s in structs.values()}
        self.nroots = 0
        self.ledger = 0

    # ------------------------------------------------------------ ledger helpers
    def credit(self, st, root, d):
        st.marks[('c', root)] = st.marks.get(('c', root), 0) + d
        self.ledger += 1

    def struct_of_var(self, e):
        """struct name an expression is a pointer to"""
        while isinstance(e, tuple):
            if e[0] == 'paren':
                e = e[2]
            elif e[0] == 'cast':
                t = pf.norm_type(e[2])
                return t.rstrip('*') if t.endswith('*') else None
            elif e[0] == 'ccast':
                t = pf.norm_type(e[3])
                return t.rstrip('*') if t.endswith('*') else None
            elif e[0] == 'id':
                t = pf.norm_type(self.types.get(e[2], ''))
                return t.rstrip('*') if t.endswith('*') else None
            else:
                return None
        return None

    def run(self):
        # seed parameters
        orig = self.stmt
        started = []

        def stmt(s, sts):
            if not started:
                started.append(1)
                for st in sts:
                    self.seed(st)
            return orig(s, sts)
        self.stmt = stmt
        return super().run()

    def seed(self, st):
        for ty, nm in self.func[4]:
            if nm is None:
                continue
            t = pf.norm_type(ty)
            v = st.v.get(nm)
            if nm == 'self' and v and v[0] == 'obj':
                s = self.structs.get(t.rstrip('*'))
                if s is not None:
                    if self.mode == 'init':
                        st.marks[('w', v[1])] = s.name
                        for f in s.fields:
                            st.marks[('f', v[1], f)] = NULL if f in ('obj', 'inst_dict') else TOP
                        st.marks.pop(('f', v[1], 'flags'), None)
                        if s.smart:
                            st.marks[('f', v[1], 'obj')] = ('sp', 'empty')
                    elif self.mode == 'clear':
                        st.marks[('f', v[1], s.held)] = ('sp' if s.smart else 'cpp', 'own')
                        st.marks[('c', 'own')] = 1
                continue
            if nm == 'x' and self.xtype:
                if 'shared_ptr' in t:
                    st.v[nm] = ('sp', 'par:x')
                elif t.endswith('*') and not t.endswith('**'):
                    st.v[nm] = ('cpp', 'par:x')
                    if self.xown:
                        self.credit(st, 'par:x', self.xown)

    # ------------------------------------------------------------ values
    def field(self, st, k, f, sname):
        v = st.marks.get(('f', k, f))
        if v is not None:
            return v
        if f == 'obj' and ('w', k) not in st.marks:
            s = self.structs.get(sname)
            return ('sp' if s is not None and s.smart else 'cpp', 'arg:%d' % k)
        return TOP

    def ev(self, e, st):
        k = e[0]
        if k in ('cast', 'ccast'):
            inner, ty = (e[3], e[2]) if k == 'cast' else (e[4], e[3])
            out = []
            for v, s in self.ev(inner, st):
                if v[0] == 'sp' and pf.norm_type(ty).endswith('*'):
                    self.rep('pointer-kind', e[1], 'cast to ' + re.sub(r'.*__PythonHelper', 'proxy', pf.norm_type(ty)), 'a smart pointer is cast to the raw pointer type %s' % pf.norm_type(ty), st)
                out.append((v, s))
            return out
        if k == 'id' and e[2].startswith('PYBINDGEN_WRAPPER_FLAG_'):
            return [(('flag', e[2][len('PYBINDGEN_WRAPPER_FLAG_'):]), st)]
        if k == 'new':
            out = []
            for vs, s in self.evals(e[3], st):
                s = s.copy()
                self.user_call(s, text(e), e[1])
                if len(e) > 4 and e[4]:
                    tgt = strip(e[4][0])
                    lv = strip(tgt[3]) if tgt[0] == 'un' and tgt[2] == '&' else tgt
                    if lv[0] == 'member':
                        self.set_member(s, lv, ('sp', 'empty'), e[1], True)
                    out.append((TOP, s))
                    continue
                root = 'new:%d:%s' % (e[1], norm(e[2]))
                if norm(e[2]) not in self.classes and not e[2].strip().endswith('__PythonHelper'):
                    out.append((TOP, s))
                    continue
                if ('c', root) in s.marks:      # allocated again in a loop
                    root += "'"
                self.credit(s, root, 1)
                s.marks[('nn', root)] = True
                out.append((('cpp', root), s))
            return out
        if k == 'delete':
            out = []
            for v, s in self.ev(e[2], st):
                s = s.copy()
                if v[0] == 'cpp':
                    self.release(s, v[1], e[1], 'delete')
                out.append((TOP, s))
            return out
        if k == 'un' and e[2] == '&':
            x = strip(e[3])
            if x[0] == 'id':
                v = st.v.get(x[2])
                if v is not None and v[0] == 'deref':
                    return [(('cpp', v[1]), st)]
                return [(('addr', x[2]), st)]
            if x[0] == 'un' and x[2] == '*':
                return self.ev(x[3], st)
        if k == 'un' and e[2] == '*':
            out = []
            for v, s in self.ev(e[3], st):
                out.append((('deref', v[1]) if v[0] in ('cpp', 'sp') else TOP, s))
            return out
        if k == 'member':
            out = []
            for v, s in self.ev(e[2], st):
                if v[0] == 'obj' and e[4] in ('obj', 'flags', 'inst_dict', 'iterator'):
                    out.append((self.field(s, v[1], e[4], self.struct_of_var(e[2])), s))
                elif v[0] == 'iter' and e[4] == 'second':
                    s = s.copy()
                    s.marks[('wild', v[1])] = True
                    out.append((('oldw', v[1]), s))
                elif v[0] == 'cpp' and e[4] == 'm_pyself':
                    s = s.copy()
                    s.marks[('wild', v[1])] = True
                    out.append((('oldw', v[1]), s))
                elif self.xtype.endswith('*') and e[4].split('::')[-1] in self.expect:
                    out.append((('cpp', 'mem:' + text(e)), s))
                else:
                    out.append((self.member_val(e, v, s), s))
            return out
        return super().ev(e, st)

    def cond(self, e, st):
        x = strip(e)
        if x[0] == 'bin' and x[2] in ('==', '!=') and not any(self.is_null(strip(y)) for y in x[3:5]):
            out = []
            for vs, s in self.evals([x[3], x[4]], st):
                vs = [('cpp', '&' + v[1]) if v[0] == 'addr' else v for v in vs]
                if all(v[0] == 'cpp' for v in vs) and vs[0] == vs[1]:
                    out.append((x[2] == '==', s))
                elif all(v[0] in ('cpp', 'null') for v in vs) and any(v[0] == 'cpp' and v[1][:4] in ('new:',) or v[0] == 'null' for v in vs) \
                        and any(v[0] == 'cpp' and v[1][:1] == '&' for v in vs):
                    out.append((x[2] != '==', s))
                else:
                    return super().cond(e, st)
            return out
        return super().cond(e, st)

    def truth(self, v, st, var, txt):
        if v[0] in ('cpp',) and v[1] != 'empty':
            if st.marks.get(('nn', v[1])):
                return [(True, st)]
            t, f = st.copy(), st.copy()
            t.marks[('nn', v[1])] = True
            for n in list(f.v):
                if f.v[n] == v:
                    f.v[n] = NULL
            for n in list(f.marks):
                if n[0] == 'f' and f.marks[n] == v:
                    f.marks[n] = NULL
                elif n in (('c', v[1]), ('wild', v[1])):
                    del f.marks[n]
            f.marks[('null', v[1])] = True
            return [(True, t), (False, f)]
        if v[0] in ('sp', 'deref', 'oldw', 'iter'):
            return self.fact(txt, st, var)
        return super().truth(v, st, var, txt)

    def release(self, st, root, line, how):
        st.marks[('rel', root)] = how
        self.credit(st, root, -1)

    # ------------------------------------------------------------ stores
    def assign_lv(self, lv, v, st, line):
        lv0 = strip(lv)
        if lv0[0] == 'member' and lv0[4] in ('obj', 'flags', 'inst_dict', 'container', 'iterator', 'm_pyself'):
            st = super().assign_lv(lv, v, st, line)
            self.set_member(st, lv0, v, line)
            return st
        if lv0[0] == 'index' and 'wrapper_registry' in text(lv0):
            st = super().assign_lv(lv, v, st, line)
            key = self.ev(lv0[3], st)[0][0] if lv0[3] is not None else TOP
            if v[0] == 'obj' and key[0] in ('cpp', 'addr'):
                st.marks[('reg', v[1])] = key[1]
            return st
        return super().assign_lv(lv, v, st, line)

    def set_member(self, st, lv, v, line, placement=False):
        base = self.ev(lv[2], st)[0][0]
        f = lv[4]
        s = self.structs.get(self.struct_of_var(lv[2]) or '')
        if f == 'obj' and s is not None and not placement:
            if s.smart and v[0] in ('cpp', 'addr'):
                self.rep('pointer-kind', line, 'raw pointer stored', 'a raw pointer is assigned to the smart pointer %s' % text(lv), st)
            elif not s.smart and v[0] == 'sp':
                self.rep('pointer-kind', line, 'smart pointer stored', 'a smart pointer is assigned to the raw pointer %s' % text(lv), st)
        if f == 'obj' and base[0] == 'obj' and self.registry and s is not None and s.name in self.registry and v in (NULL, ('int', 0)):
            old = self.field(st, base[1], 'obj', s.name)
            if old[0] == 'cpp' and not old[1].startswith('&'):
                st.marks[('gone', old[1])] = s.name
        if base[0] != 'obj':
            if f == 'obj' and v[0] == 'cpp':
                st.marks[('wild', v[1])] = True
            return
        k = base[1]
        if k in st.o:
            st.o[k][1] = False      # it was dereferenced
        if f == 'obj' and v[0] == 'addr':
            v = ('cpp', '&' + v[1])
        if ('w', k) in st.marks:
            if f == 'obj' and s is not None and s.smart and not placement and st.marks.get(('f', k, 'obj')) is None:
                self.rep('incomplete', line, text(lv), 'the smart pointer %s is assigned before it is constructed' % text(lv), st)
            if f == 'obj' and v[0] == 'cpp' and v[1].startswith('new:') and s is not None:
                t = v[1].split(':', 2)[2].rstrip("'")
                if t != s.cls and not t.endswith(s.name + '__PythonHelper') and s.cls:
                    self.rep('wrong-class', line, text(lv), 'a wrapper of %s is given a new %s' % (s.cls, t), st)
            st.marks[('f', k, f)] = v
            return
        if f == 'obj':
            old = self.field(st, k, 'obj', s.name if s else None)
            if v == NULL or v == ('int', 0):
                if old[0] == 'cpp' and self.mode != 'clear':
                    self.credit(st, old[1], 1)
            elif v[0] == 'cpp' and v != old:
                st.marks[('wild', v[1])] = True
        st.marks[('f', k, f)] = v if v != ('int', 0) else NULL

    # ------------------------------------------------------------ calls
    def apply(self, e, fn, name, args, vs, st, line):
        if name in NEWPY:
            out = super().apply(e, fn, name, args, vs, st, line)
            sname = text(e[3][0])
            ty = strip(e[3][1]) if len(e[3]) > 1 else None
            tn = text(ty).lstrip('&') if ty is not None else ''
            if tn in self.gc_types:
                gc = self.gc_types[tn]
                if gc != (name == 'PyObject_GC_New'):
                    self.rep('alloc-gc', line, tn, '%s allocates an object of %s, which %s garbage collected'
                             % (name, tn, 'is' if gc else 'is not'), st)
            for v, s in out:
                if v[0] == 'obj':
                    s.marks[('w', v[1])] = sname
            return out
        last = None
        base = None
        if fn[0] == 'member':
            last = fn[4].split('::')[-1]
            base = self.ev(fn[2], st)[0][0]
            if base[0] == 'addr':
                base = ('cpp', '&' + base[1])
        elif name is not None:
            last = name.split('::')[-1]
        if base is not None and base[0] in ('cpp', 'sp', 'deref'):
            if last in INC or last in DEC:
                st = st.copy()
                if last in INC:
                    self.credit(st, base[1], 1)
                else:
                    self.release(st, base[1], line, last)
                return [(TOP, st)]
            if last == 'set_pyobj':
                st = st.copy()
                st.marks[('pyobj', base[1])] = True
                return [(TOP, st)]
            if last == 'get' and base[0] == 'sp':
                return [(('cpp', base[1]), st)]
            if base[0] == 'sp' and (last.startswith('~') or last == 'reset'):
                st = st.copy()
                if base[1] == 'own':
                    self.release(st, base[1], line, last)
                new = ('sp', 'empty')
                if vs and vs[0][0] == 'cpp':
                    self.credit(st, vs[0][1], -1)
                    new = ('sp', 'wrap:' + vs[0][1])
                lv = strip(fn[2])
                if lv[0] == 'member':
                    self.set_member(st, lv, new, line)
                elif lv[0] == 'id':
                    st.v[lv[2]] = new
                return [(TOP, st)]
        elif last in INC or last in DEC:
            if vs and vs[0][0] == 'addr':
                vs = [('cpp', '&' + vs[0][1])] + vs[1:]
            if vs and vs[0][0] == 'cpp':
                st = st.copy()
                if last in INC:
                    self.credit(st, vs[0][1], 1)
                else:
                    self.release(st, vs[0][1], line, last)
                return [(TOP, st)]
        if last == 'erase' and 'wrapper_registry' in text(fn) and vs:
            st = st.copy()
            if vs[0][0] in ('iter', 'cpp'):
                st.marks[('unreg', vs[0][1])] = text(fn[2])
            return [(TOP, st)]
        if last is not None and re.match(r'make_shared\b', last):
            st = st.copy()
            self.user_call(st, text(e), line)
            return [(('sp', 'new'), st)]
        if last is not None and re.match(r'(shared_ptr)\b', last) and name is not None:
            st = st.copy()
            for v in vs:
                if v[0] == 'cpp':
                    self.credit(st, v[1], -1)
            return [(('sp', 'wrap:' + (vs[0][1] if vs and vs[0][0] == 'cpp' else '')), st)]
        if last == 'find' and 'wrapper_registry' in text(fn) and vs and vs[0][0] in ('cpp', 'addr'):
            st = st.copy()
            st.marks[('looked', vs[0][1])] = text(fn[2])
            return [(('iter', vs[0][1]), st)]
        if name is not None and name in self.selfinit and vs and vs[0][0] == 'obj':
            out = []
            for v, s in super().apply(e, fn, name, args, vs, st, line):
                s = s.copy()
                for key in [x for x in s.marks if x[0] == 'w' and x[1] == vs[0][1]]:
                    del s.marks[key]
                out.append((v, s))
            return out
        if name is not None and name in self.clears and vs and vs[0][0] == 'obj':
            st = st.copy()
            st.marks[('f', vs[0][1], 'obj')] = NULL
            st.marks[('f', vs[0][1], 'inst_dict')] = NULL
            st.marks.pop(('c', 'own'), None)
            st.marks[('cleared',)] = True
            return [(TOP, st)]
        if name == 'Py_CLEAR' and args:
            a = strip(args[0])
            if a[0] == 'member' and a[4] == 'inst_dict':
                st = st.copy()
                b = self.ev(a[2], st)[0][0]
                if b[0] == 'obj':
                    st.marks[('f', b[1], 'inst_dict')] = NULL
        if last == 'tp_free' or name in ('PyObject_Del', 'PyObject_GC_Del', 'PyObject_DEL', 'PyObject_Free'):
            st = st.copy()
            st.marks[('free',)] = st.marks.get(('free',), 0) + 1
            return [(TOP, st)]
        if last in self.consume and not (name is not None and cflow.is_api(name)):
            for v in vs:
                if v[0] == 'cpp':
                    st = st.copy()
                    self.credit(st, v[1], -1)
        if name in SEES:
            for v in vs:
                if v[0] == 'obj' and not (self.mode == 'init' and st.v.get('self') == v):
                    self.complete(st, v[1], line, 'handed to %s' % name)
        out = super().apply(e, fn, name, args, vs, st, line)
        if last in self.expect and not (name is not None and cflow.is_api(name)) and not name_is_emitted(name):
            kind, c = self.expect[last]
            res = []
            for v, s in out:
                s = s.copy()
                if kind == '*':
                    v = ('cpp', 'ret:' + last)
                elif kind == '&':
                    v = ('deref', 'ret:' + last)
                elif kind == 'sp':
                    v = ('sp', 'ret:' + last)
                if c and ('c', 'ret:' + last) not in s.marks:
                    self.credit(s, 'ret:' + last, c)
                res.append((v, s))
            return res
        return out

    def complete(self, st, k, line, when):
        sname = st.marks.get(('w', k))
        if sname is None:
            return
        s = self.structs.get(sname)
        if s is None:
            return
        self.ledger += 1
        for f in s.fields:
            v = st.marks.get(('f', k, f))
            if v is None:
                self.rep('incomplete', line, '%s.%s' % (sname, f), 'a new %s is %s before its field %s is set' % (sname, when, f), st)

    # ------------------------------------------------------------ exits
    def exit(self, st, val, line, how):
        super().exit(st, val, line, how)
        for key in [k for k in st.marks if k[0] == 'gone']:
            self.ledger += 1
            want = self.registry[st.marks[key]]
            root = key[1]
            same = lambda x: x is not None and (want is None or x == want)
            if same(st.marks.get(('unreg', root))):
                continue
            if same(st.marks.get(('looked', root))) and not any('.end()' in f and (want is None or want in f) and b == ('!=' in f) for f, b in st.facts.items()):
                continue
            if ('null', root) in st.marks:
                continue
            self.rep('registry', line, 'entry', 'the wrapper gives up its object but its entry stays in the wrapper registry', st)
        if any(b == 'catch' for _, b in st.trace):
            return
        if self.mode == 'clear':
            return self.exit_clear(st, line)
        m = st.marks
        credits = {k[1]: c for k, c in m.items() if k[0] == 'c'}
        failed = self.mode == 'init' and (val is None or val[0] != 'int' or val[1] != 0)
        for key in [k for k in m if k[0] == 'w']:
            k = key[1]
            sname = m[key]
            s = self.structs.get(sname)
            if s is None:
                continue
            if failed:
                if m.get(('f', k, 'obj')) not in (NULL, ('sp', 'empty')) and ('f', k, 'flags') not in m:
                    self.rep('incomplete', line, sname + '.flags', 'the constructor fails with the flags of the object it made not set', st)
                continue
            if k not in st.o and self.mode != 'init':
                continue
            self.complete(st, k, line, 'returned')
            ov = m.get(('f', k, s.held))
            if self.mode == 'init':
                if ov == NULL or ov == ('sp', 'empty'):
                    self.rep('incomplete', line, sname + '.obj', 'the constructor succeeds without creating the C++ object', st)
                elif ov is not None and ov[0] == 'cpp' and '__PythonHelper' in ov[1] and not m.get(('pyobj', ov[1])):
                    self.rep('incomplete', line, sname, 'the helper object is not told its Python object', st)
            if ov is not None and ov[0] == 'cpp':
                fl = m.get(('f', k, 'flags')) if 'flags' in s.fields else ('flag', 'NONE')
                reg = m.get(('reg', k))
                if s.name in self.registry and not m.get(('temp', k)):
                    self.ledger += 1
                    if reg is None and self.mode != 'init':
                        self.rep('registry', line, sname, 'a new %s is not entered in the wrapper registry' % sname, st)
                    elif ov[1].startswith(('ret:', 'par:', 'mem:')) and not self.lenient and ('looked', ov[1]) not in m:
                        self.rep('registry', line, 'lookup', 'a %s is created without looking for the existing wrapper of the object' % sname, st)
                    elif reg is not None and reg != ov[1].replace('&', '', 1) and reg != ov[1]:
                        self.rep('registry', line, sname, 'a new %s is entered in the wrapper registry under another object' % sname, st)
                if fl is not None and fl[0] == 'flag':
                    owned = fl[1] == 'NONE'
                    if owned:
                        credits[ov[1]] = credits.get(ov[1], 0) - 1
        if self.retown is not None and val is not None:
            v = val
            if v[0] == 'cpp':
                credits[v[1]] = credits.get(v[1], 0) - self.retown
        for root, c in sorted(credits.items()):
            if self.lenient and (not root.startswith('new:') or val == ('cpp', root)):
                continue
            if m.get(('wild', root)):
                ok = c == 0 if self.rc else c in (0, 1)
            else:
                ok = c == 0
            if not ok:
                what = re.sub(r'new:\d+:', 'new ', root)
                what = re.sub(r'arg:\d+', 'the object of a wrapper', what)
                if c > 0:
                    self.rep('cpp-leak', line, what, 'path to exit still owns %d share(s) of the C++ object %s' % (c, what), st)
                else:
                    self.rep('cpp-over', line, what, 'path to exit gave away %d share(s) of the C++ object %s that it does not own' % (-c, what), st)

    def exit_clear(self, st, line):
        m = st.marks
        own = m.get(('c', 'own'))
        self.ledger += 1
        fk = [k for k in m if k[0] == 'f' and k[2] in ('obj', 'iterator')]
        if ('null', 'own') in m:
            own = None
        notowned = None
        for f, b in st.facts.items():
            if 'FLAG_OBJECT_NOT_OWNED' in f:
                notowned = b != ('== 0' in f)
        if own is not None:
            how = m.get(('rel', 'own'))
            if notowned is True:
                if own != 1:
                    self.rep('cpp-over', line, 'obj', 'an object the wrapper does not own is released', st)
            elif own == 1:
                if not self.kept:
                    self.rep('cpp-leak', line, 'obj', 'the object the wrapper owns is not released', st)
            elif own < 0:
                self.rep('cpp-over', line, 'obj', 'the object the wrapper owns is released %d times' % (1 - own), st)
            elif notowned is None and how is not None and not self.smartobj:
                self.rep('cpp-over', line, 'obj', 'the object is released without asking whether the wrapper owns it', st)
            for k in fk:
                if m[k][0] == 'cpp' and own == 0:
                    self.rep('dangling', line, 'obj', 'the wrapper still points to the object that was released', st)


def name_is_emitted(name):
    return name is not None and ('_wrap_' in name or '__tp_' in name)


# ------------------------------------------------------------------ driver
def contradictory(kw, rc):
    a = sum(bool(kw.get(k)) for k in ('reference_existing_object', 'return_internal_reference'))
    if kw.get('caller_owns_return') and a or a > 1:
        return True
    if kw.get('free_after_copy') and (a or kw.get('caller_owns_return') or rc or kw.get('caller_manages_return') is False):
        return True
    if kw.get('caller_manages_return') is False and (kw.get('caller_owns_return') or a):
        return True
    return False


def opts_of(v, f, reverse):
    """options of ObjFlow for a function of variant v, or None when the configuration has no documented ownership meaning"""
    o = {}
    if v is None:
        return o
    if v.kw.get('transfer_ownership') and not reverse and v.kw.get('direction', 1) == 1:
        o['consume'] = (v.tag,)
    t, kw = v.ctype, v.kw
    cls = [c for c in v.classes if c not in ('Enum',)]
    if not cls or not re.search(r'\b(%s)\b' % '|'.join(re.escape(c) for c in cls), t):
        return o
    rc = cls[0].startswith('Rc')
    o['rc'] = rc
    if contradictory(kw, rc) or reverse and kw.get('free_after_copy'):
        return None
    vec = 'std::vector' in t or 'std::map' in t or 'std::set' in t
    if v.kind in ('fn-param', 'virt-param'):
        if t.endswith('*') and not vec:
            if kw.get('direction', 1) != 1:
                return None
            if kw.get('transfer_ownership'):
                o['consume'] = (v.tag,)
            o['xtype'] = t
            if reverse:
                o['xown'] = 1 if kw.get('transfer_ownership') else 0
        else:
            o['xtype'] = t
        return o
    if vec:
        return o
    if 'shared_ptr' in t:
        o['expect'] = {v.tag: ('sp', 0)}
    elif t.endswith('*'):
        c = 1 if kw.get('caller_owns_return') or kw.get('free_after_copy') else 0
        if v.kind in ('attr', 'sattr') and c:
            return None
        o['expect'] = {v.tag: ('*', c)}
        if reverse:
            o['retown'] = 1 if kw.get('caller_owns_return') else 0
            o['xtype'] = t
        elif v.kind in ('attr', 'sattr'):
            o['xtype'] = t
    elif t.endswith('&'):
        if v.kind in ('attr', 'sattr') and kw.get('caller_owns_return'):
            return None
        if kw.get('caller_owns_return') and not reverse:
            o['expect'] = {v.tag: ('&', 1)}
        else:
            o['expect'] = {v.tag: ('&', 0)}
    return o


def findings(u, cfg):
    import analyses, surface
    p = analyses.parsed(u, cfg)
    if isinstance(p, Exception):
        return [], 0, 0
    lines = u.text.split('\n')
    structs = structs_of(p.items)
    S = surface.Surface(p, cfg)
    gc, tp_clear, dealloc, inits = {}, {}, {}, set()
    out = []
    n = 0

    def rep(rule, line, func, what, msg):
        out.append(analyses.finding(u, rule, analyses.where(u, lines, line), func, what, msg, cfg, None, line, p.line(line).strip()))
    for t in S.of('PyTypeObject'):
        fl = text(t.slots.get('tp_flags')) if t.slots.get('tp_flags') else ''
        gc[t.name] = 'Py_TPFLAGS_HAVE_GC' in fl
        sz = t.slots.get('tp_basicsize')
        sname = sz[2].strip() if sz is not None and sz[0] == 'sizeof' else None
        c, d, i, tr = (S.slot(t.name, x) for x in ('tp_clear', 'tp_dealloc', 'tp_init', 'tp_traverse'))
        n += 4
        if gc[t.name] and (not tr or not c) and not t.name.endswith('Meta_Type'):
            rep('type-gc', t.line, t.name, t.name, 'a garbage collected type has no %s' % ('tp_traverse' if not tr else 'tp_clear'))
        s = structs.get(sname)
        if s is not None:
            do = text(t.slots['tp_dictoffset']) if t.slots.get('tp_dictoffset') else '0'
            if ('inst_dict' in s.fields) != ('inst_dict' in do):
                rep('type-gc', t.line, t.name, t.name, 'tp_dictoffset %s does not agree with the structure %s' % (do, sname))
            if not d:
                rep('cpp-leak', t.line, t.name, t.name, 'instances are never destroyed: no tp_dealloc')
        if c:
            tp_clear[c] = s
        if d:
            dealloc[d] = s
        if i:
            inits.add(i)
    maps = set(re.findall(r'std::map<void\*, PyObject\*> (\w+_wrapper_registry);', u.text))
    registry = {}
    if maps:
        for sn, s in structs.items():
            if 'flags' in s.fields and not s.smart:
                registry[sn] = sn + '_wrapper_registry' if sn + '_wrapper_registry' in maps else None
    nf = 0
    for pre, f in p.funcs:
        name = f[2]
        if '__typeid_map' in name or 'TypeMap' in name:
            continue
        v = analyses.variant_of(u, f)
        rev = analyses.is_proxy(f)
        o = opts_of(v, f, rev)
        if o is None:
            continue
        mode = None
        if name in inits or re.search(r'__tp_init__\d+$', name):
            mode = 'init'
        elif (name in tp_clear or name in dealloc) and (tp_clear.get(name) or dealloc.get(name)):
            mode = 'clear'
        kw = {k: x for k, x in analyses.flow_opts(u, f, v).items()}
        kw.update(o)
        fl = ObjFlow(f, structs, p.pystructs, p.newfuncs, mode=mode, selfinit=[g[2] for _, g in p.funcs if re.search(r'__tp_init__\d+$', g[2])],
                     clears=[c for c in tp_clear if c != name], gc_types=gc, registry=registry, lenient=v is None, **kw)
        if mode == 'clear':
            fl.smartobj = (tp_clear.get(name) or dealloc.get(name)).smart
            fl.kept = u.meta.get('expect', {}).get('flag') in ('singleton', 'singleton-sub', 'dtor-private', 'dtor-protected')
            s = tp_clear.get(name) or dealloc.get(name)
            fl.exit_clear = (lambda st, line, fl=fl, s=s, isd=name in dealloc: exit_clear(fl, st, line, s, isd))
        try:
            fl.run()
        except cflow.Limits as e:
            out.append(analyses.finding(u, 'limit', None, name, str(e), 'analysis budget exceeded', cfg, v))
            continue
        nf += 1
        n += fl.ledger
        for r in fl.reports:
            if r['rule'] in RULES:
                out.append(analyses.finding(u, r['rule'], analyses.where(u, lines, r['line']), name, r['what'], r['msg'], cfg, v, r['line'],
                                            p.line(r['line']).strip()))
    return out, nf, n


RULES = ('pointer-kind', 'incomplete', 'wrong-class', 'alloc-gc', 'type-gc', 'cpp-leak', 'cpp-over', 'registry', 'dangling', 'dealloc')


def exit_clear(fl, st, line, s, is_dealloc):
    ObjFlow.exit_clear(fl, st, line) if 'flags' in s.fields or 'inst_dict' in s.fields else plain_clear(fl, st, line)
    m = st.marks
    k = next((x[1] for x in m if x[0] == 'f' and x[2] == s.held), None)
    if is_dealloc and k is not None:
        if m.get(('free',), 0) != 1:
            fl.rep('dealloc', line, 'tp_free', 'tp_dealloc frees the memory of the object %d times' % m.get(('free',), 0), st)
    if k is not None and 'inst_dict' in s.fields and m.get(('f', k, 'inst_dict')) != NULL:
        fl.rep('dealloc', line, 'inst_dict', 'the instance dictionary is not cleared', st)


def plain_clear(fl, st, line):
    m = st.marks
    own = m.get(('c', 'own'))
    if ('null', 'own') in m:
        return
    if own is not None and own != 0:
        fl.rep('cpp-leak' if own > 0 else 'cpp-over', line, 'obj', 'the object of the container is released %d times' % (1 - own), st)
