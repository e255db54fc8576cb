"""Memory that generated code allocates for a call, or takes over with a result, and that is no wrapped object: strings and buffers.
Extends the ownership ledger of objflow to every `new`, to the buffers of the es/et format units, to malloc-like functions, to results
declared free_after_copy, and to string pointers handed over with transfer_ownership."""
import re
import analyses, cflow, objflow
import pyformats as pf
from objflow import norm

ALLOC = ('malloc', 'calloc', 'strdup', 'strndup', 'PyMem_Malloc', 'PyMem_Calloc', 'PyMem_New', 'g_strdup', 'g_malloc')
FREE = ('free', 'PyMem_Free', 'PyMem_FREE', 'PyMem_Del', 'g_free')


class Any:
    def __contains__(self, x):
        return True


class TempFlow(objflow.ObjFlow):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.classes = Any()

    def parse_call(self, e, name, args, vs, st, line):
        out = super().parse_call(e, name, args, vs, st, line)
        fi = self.fmt_index(name)
        if fi is None or len(vs) <= fi or vs[fi][0] != 'str':
            return out
        try:
            units = pf.parse_units(vs[fi][1], pf.PARSE)
        except pf.FormatError:
            return out
        i = self.vararg_start(name)
        bufs = []
        for u, opt in units:
            for role in pf.PARSE[u]:
                if u[:2] in ('es', 'et') and role in ('cstr', 'mcstr') and i < len(vs) and vs[i][0] == 'addr':
                    bufs.append(vs[i][1])
                i += 1
        for v, s in out:
            if v[0] == 'fail0' and bufs:
                for ok in (v[1] if isinstance(v[1], list) else [v[1]]):
                    for nm in bufs:
                        if nm in ok.v:
                            ok.v[nm] = ('cpp', 'buffer ' + nm)
                            self.credit(ok, 'buffer ' + nm, 1)
        return out

    def apply(self, e, fn, name, args, vs, st, line):
        if name in FREE:
            st = st.copy()
            self.ledger += 1
            for v in vs[:1]:
                if v[0] == 'cpp':
                    self.release(st, v[1], line, name)
            return [(cflow.TOP, st)]
        if name in ALLOC:
            s = st.copy()
            root = 'new:%d:%s' % (line, name)
            self.credit(s, root, 1)
            return [(('cpp', root), s)]
        for v in vs:
            if v[0] in ('cpp', 'deref') and len(v) > 1 and st.marks.get(('rel', v[1])) in FREE + ('delete',) and name is not None:
                self.rep('use-freed', line, str(v[1]), '%s uses memory that was freed before' % name, st)
        return super().apply(e, fn, name, args, vs, st, line)


STRPTR = ('std::string*', 'Glib::ustring*')


def opts(v, f, reverse):
    o = objflow.opts_of(v, f, reverse)
    if v is None or o is None:
        return o
    t = v.ctype.replace(' ', '').replace('const', '')
    kw = v.kw
    if t == 'char*' and v.kind.endswith('-ret') and not reverse:
        o = dict(o, expect={v.tag: ('*', 1 if kw.get('free_after_copy') else 0)})
    if t in STRPTR and kw.get('transfer_ownership'):
        if kw.get('direction', 1) != 1:
            return None                            # the result would be read from memory that was given away
        o = dict(o, consume=(v.tag,))
        if reverse:
            o.update(xtype=v.ctype, xown=1)
    return o


def findings(u, cfg):
    p = analyses.parsed(u, cfg)
    if isinstance(p, Exception):
        return [], 0, 0
    lines = u.text.split('\n')
    structs = objflow.structs_of(p.items)
    wrapped = {s.cls for s in structs.values()}
    out, nf, n = [], 0, 0
    for pre, f in p.funcs:
        name = f[2]
        v = analyses.variant_of(u, f)
        rev = analyses.is_proxy(f)
        o = opts(v, f, rev)
        if o is None:
            continue
        kw = dict(analyses.flow_opts(u, f, v))
        kw.update(o)
        fl = TempFlow(f, structs, p.pystructs, p.newfuncs, lenient=v is None, **kw)
        try:
            fl.run()
        except cflow.Limits as e:
            out.append(analyses.finding(u, 'limit', None, name, str(e), 'analysis budget exceeded', cfg, v))
            continue
        nf += 1
        n += fl.ledger + len(fl.exits)
        for r in fl.reports:
            if r['rule'] == 'use-freed' or r['rule'] in ('cpp-leak', 'cpp-over') and not other(r['what'], wrapped, v):
                out.append(analyses.finding(u, r['rule'].replace('cpp', 'memory'), analyses.where(u, lines, r['line']), name, r['what'],
                                            r['msg'].replace('share(s) of the C++ object', 'share(s) of'), cfg, v, r['line'],
                                            p.line(r['line']).strip()))
    return out, nf, n


def other(what, wrapped, v):
    """the objects of wrapped classes have a check of their own"""
    m = re.match(r'new (.*?)\'?$', what)
    if m:
        return norm(m.group(1)) in wrapped or m.group(1).endswith('__PythonHelper') or not re.match(r'(std::string|Glib::ustring|char)\b', norm(m.group(1)) + ' ') \
            and m.group(1) not in ALLOC
    if what.startswith('buffer '):
        return False
    return not (v is not None and v.ctype.replace(' ', '').replace('const', '') in ('char*',) + STRPTR)
