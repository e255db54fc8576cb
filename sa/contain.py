"""Conversion and iteration of containers (P25).

Each function that converts a Python list (or mapping items) into a C++ container is split into its paths; loops are summarised by their
induction variable (start, bound, step) and by the paths of one generic iteration, so the argument holds for lists of any length:
the loop visits index 0..size-1 once, each iteration either fails or adds exactly the item converted from element i.  Iterators are
checked by the order of copy, end test, increment and read.  A function whose shape is not one of the forms below is not judged."""
import re
import analyses
from cmini import strip, text, walk

SEQ_ITEM = {'PyList_GET_ITEM', 'PyList_GetItem', 'PySequence_Fast_GET_ITEM', 'PyTuple_GET_ITEM', 'PyTuple_GetItem', 'PySequence_GetItem'}
SEQ_SIZE = {'PyList_Size', 'PyList_GET_SIZE', 'PySequence_Size', 'PySequence_Length', 'PySequence_Fast_GET_SIZE', 'Py_SIZE', 'PyObject_Size'}
TUP_ITEM = {'PyTuple_GET_ITEM', 'PyTuple_GetItem', 'PySequence_GetItem', 'PyList_GET_ITEM'}
ADD = {'push_back': 'back', 'emplace_back': 'back', 'push_front': 'front', 'emplace_front': 'front', 'push': 'any', 'emplace': 'any', 'insert': 'any'}
ALLOWED = {'vector': {'push_back', 'emplace_back'}, 'list': {'push_back', 'emplace_back'}, 'deque': {'push_back', 'emplace_back'},
           'dequeue': {'push_back', 'emplace_back'}, 'queue': {'push', 'emplace'}, 'stack': {'push', 'emplace'},
           'priority_queue': {'push', 'emplace'}, 'set': {'insert', 'emplace'}, 'multiset': {'insert', 'emplace'},
           'hash_set': {'insert'}, 'hash_multiset': {'insert'}, 'unordered_set': {'insert', 'emplace'}, 'map': {'insert', 'emplace'},
           'multimap': {'insert', 'emplace'}, 'hash_map': {'insert'}, 'unordered_map': {'insert', 'emplace'}}


ITEM = 'item'


class Unknown(Exception):
    pass


# ------------------------------------------------------------------ paths
def events(e):
    """calls, assignments and steps of an expression in evaluation order (no short circuits inside)"""
    out = []

    def go(x):
        if not isinstance(x, (tuple, list)) or not x:
            return
        if not (isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], int)):
            for y in x:
                go(y)
            return
        k = x[0]
        if k == 'call':
            go(x[2])
            for a in x[3]:
                go(a)
            out.append(('call', text(x[2]), x[3], x))
        elif k == 'assign':
            go(x[4])
            go(x[3])
            out.append(('assign', x[2], x[3], x[4], x[1]))
        elif k == 'un' and x[2] in ('++', '--'):
            go(x[3])
            out.append(('step', text(x[3]), 1 if x[2] == '++' else -1, x[1]))
        elif k == 'post':
            go(x[3])
            out.append(('step', text(x[3]), 1 if x[2] == '++' else -1, x[1]))
        elif k == 'throw':
            raise Unknown()
        else:
            for y in x[2:]:
                go(y)
    go(e)
    return out


def cond(e):
    """[(events, truth)] of a condition; comparisons with 0/NULL are folded into the truth of the leaf"""
    e = strip(e)
    if e[0] == 'un' and e[2] == '!':
        return [(ev, not t) for ev, t in cond(e[3])]
    if e[0] == 'bin' and e[2] in ('&&', '||'):
        out = []
        for ev, t in cond(e[3]):
            if t == (e[2] == '||'):
                out.append((ev, t))
            else:
                out += [(ev + ev2, t2) for ev2, t2 in cond(e[4])]
        return out
    if e[0] == 'bin' and e[2] in ('==', '!='):
        a, b = strip(e[3]), strip(e[4])
        for x, y in ((a, b), (b, a)):
            if text(y) in ('0', 'NULL', 'nullptr', 'false'):
                return [(ev, (not t) if e[2] == '==' else t) for ev, t in cond(x)]
        ev = events(e)
        return [(ev + [('fact', e, t, e[1])], t) for t in (True, False)]
    if e[0] == 'bin' and e[2] in ('>', '>=', '<'):
        # `f(x) < 0` etc. are kept as facts of their own
        ev = events(e)
        return [(ev + [('fact', e, t, e[1])], t) for t in (True, False)]
    if e[0] == 'num':
        return [([], e[2] != '0')]
    ev = events(e)
    return [(ev + [('fact', e, t, e[1])], t) for t in (True, False)]


class Paths:
    """all paths of a statement: (events, how, value) with how in next/return/break/continue"""

    def __init__(self, limit=400):
        self.limit = limit

    def stmts(self, ss):
        cur = [([], 'next', None)]
        for s in ss:
            nxt = []
            for ev, how, v in cur:
                if how != 'next':
                    nxt.append((ev, how, v))
                    continue
                for ev2, how2, v2 in self.stmt(s):
                    nxt.append((ev + ev2, how2, v2))
            cur = nxt
            if len(cur) > self.limit:
                raise Unknown()
        return cur

    def stmt(self, s):
        k = s[0]
        if k == 'block':
            return self.stmts(s[2])
        if k in ('empty', 'label'):
            return [([], 'next', None)]
        if k == 'expr':
            return [(events(s[2]), 'next', None)]
        if k == 'decl':
            ev = []
            for d in s[2]:
                ev += self.decl(d, s[1])
            return [(ev, 'next', None)]
        if k == 'if':
            out = []
            for ev, t in cond(s[2]):
                b = s[3] if t else s[4]
                for ev2, how, v in (self.stmt(b) if b is not None else [([], 'next', None)]):
                    out.append((ev + ev2, how, v))
            return out
        if k == 'return':
            return [((events(s[2]) if s[2] is not None else []) + [('ret', s[2], s[1])], 'return', s[2])]
        if k == 'break':
            return [([], 'break', None)]
        if k == 'continue':
            return [([], 'continue', None)]
        if k in ('for', 'while', 'do'):
            if k == 'for':
                init, c, step, body = s[2], s[3], s[4], s[5]
                pre = self.stmt(init) if isinstance(init, tuple) and init[0] in ('decl', 'expr', 'empty') else \
                    [(events(init) if init is not None else [], 'next', None)]
                pre = pre[0][0]
                step = events(step) if step is not None else []
            elif k == 'while':
                pre, c, step, body = [], s[2], [], s[3]
            else:
                raise Unknown()
            loop = {'cond': c, 'step': step, 'line': s[1], 'paths': self.stmt(body)}
            out = [(pre + [('loop', loop)], 'next', None)]
            for ev, how, v in loop['paths']:
                if how == 'return':
                    out.append((pre + [('inloop', loop)] + ev, 'return', v))
            return out
        raise Unknown()

    def decl(self, d, line):
        nm, base, ptr, arr, init, ctor = d
        ev = [('decl', nm, base + ptr, line)]
        for x in (ctor or []) if isinstance(ctor, list) else []:
            if isinstance(x, tuple):
                ev += events(x)
        if init is not None and not arr:
            ev += events(init) + [('assign', '=', ('id', line, nm), init, line)]
        return ev


def resolve(e, env, depth=0):
    """replace a local variable by the expression last assigned to it on the path"""
    e = strip(e)
    while e[0] == 'id' and e[2] in env and depth < 6:
        e = strip(env[e[2]])
        depth += 1
    return e


def env_of(ev, env=None):
    env = dict(env or {})
    for x in ev:
        if x[0] == 'assign' and strip(x[2])[0] == 'id':
            if x[1] == '=':
                env[strip(x[2])[2]] = x[3]
            else:
                env.pop(strip(x[2])[2], None)
        elif x[0] == 'step' and x[1] in env:
            env.pop(x[1])
    return env


def callname(e):
    return text(e[2]) if e[0] == 'call' else ''


def steps(ev, i):
    return [x for x in ev if (x[0] == 'step' and x[1] == i) or (x[0] == 'assign' and text(x[2]) == i)]


def amount(x):
    if x[0] == 'step':
        return x[2]
    r = strip(x[3])
    i = text(x[2])
    if x[1] == '+=' and r[0] == 'num':
        return int(r[2], 0)
    if x[1] == '-=' and r[0] == 'num':
        return -int(r[2], 0)
    if x[1] == '=' and r[0] == 'bin' and r[2] in ('+', '-') and text(r[3]) == i and strip(r[4])[0] == 'num':
        return int(strip(r[4])[2], 0) * (1 if r[2] == '+' else -1)
    return None


class Check:
    def __init__(self, u, cfg, p):
        self.u, self.cfg, self.p = u, cfg, p
        self.out, self.n = [], 0
        self.seen = set()

    def rep(self, rule, line, func, what, msg):
        k = (rule, func, what)
        if k in self.seen:
            return
        self.seen.add(k)
        self.out.append(analyses.finding(self.u, rule, analyses.where(self.u, self.p.lines, line), func, what, msg, self.cfg, None, line, self.p.line(line)))

    # ---------------------------------------------------------------- converters
    def converter(self, f, kind, is_map):
        arg, cont = f[4][0][1], f[4][1][1]
        name = f[2]
        for ev, how, v in Paths().stmt(f[6]):
            if how != 'return' or v is None:
                continue
            r = strip(v)
            if r[0] != 'num':
                raise Unknown()
            if r[2] == '0':
                continue
            self.n += 1
            loops = [x[1] for x in ev if x[0] == 'loop']
            env = env_of(ev)
            line = v[1]
            if not loops:
                self.copied(ev, env, arg, cont, name, line)
                continue
            if len(loops) > 1:
                raise Unknown()
            L = loops[0]
            k = [i for i, x in enumerate(ev) if x[0] == 'loop'][0]
            before, after = ev[:k], ev[k + 1:]
            if not any(x[0] == 'call' and self.on(x[1], cont, env) in ('clear',) for x in before) and \
                    not any(x[0] == 'assign' and text(x[2]) in ('*' + cont, '(*%s)' % cont) for x in before):
                self.rep('keeps-items', L['line'], name, 'clear', 'the items of the list are added to what the container held before')
            if any(x[0] == 'call' and self.on(x[1], cont, env) in ('clear', 'pop_back', 'pop', 'pop_front', 'erase') for x in after):
                self.rep('item-lost', L['line'], name, 'clear', 'items are removed from the container after they were added')
            self.loop(L, before, arg, cont, kind, is_map, name)

    def on(self, callee, cont, env):
        """method called on the container: `container->m` or `(*container).m`"""
        m = re.fullmatch(r'\(?\*?%s\)?(?:->|\.)(\w+)' % re.escape(cont), callee)
        return m.group(1) if m else None

    def copied(self, ev, env, arg, cont, name, line):
        """the success path without a loop: the argument is another wrapper of the container, and its object is copied"""
        inst = [x for x in ev if x[0] == 'fact' and x[2] is True and callname(strip(x[1])) in ('PyObject_IsInstance', 'PyObject_TypeCheck')]
        st = [x for x in ev if x[0] == 'assign' and x[1] == '=' and text(x[2]) in ('*' + cont, '(*%s)' % cont)]
        sw = [x for x in ev if x[0] == 'call' and self.on(x[1], cont, env) in ('assign', 'operator=', 'insert')]
        if sw:
            raise Unknown()
        if not st:
            self.rep('not-converted', line, name, 'success', 'reports success without having stored the argument in the container')
            return
        for x in st:
            r = text(resolve(x[3], env))
            if '->obj' not in r or not re.search(r'(?<!\w)%s(?!\w)' % re.escape(arg), self.expand(x[3], env)):
                self.rep('not-converted', x[4], name, 'copy', 'the container is assigned %s, which is not the container that the argument wraps' % r)
        if not inst:
            self.rep('not-converted', line, name, 'type', 'the object of the argument is copied though its type was not checked')

    def expand(self, e, env, depth=0):
        t = text(e)
        if depth > 4:
            return t
        return re.sub(r'(?<![\w.>])[A-Za-z_]\w*(?!\w)', lambda m: self.expand(env[m.group(0)], env, depth + 1)
                      if m.group(0) in env and m.group(0) != t else m.group(0), t)

    def loop(self, L, before, arg, cont, kind, is_map, name):
        env = env_of(before)
        c = strip(L['cond']) if L['cond'] is not None else None
        if c is None or c[0] != 'bin' or c[2] not in ('<', '!=', '>', '<=', '>='):
            raise Unknown()
        a, b, op = strip(c[3]), strip(c[4]), c[2]
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        if a[0] != 'id':
            raise Unknown()
        i = a[2]
        size = resolve(b, env)
        if callname(size) not in SEQ_SIZE or text(resolve(size[3][0], env)) != arg:
            m = size[0] == 'bin' and callname(resolve(size[3], env)) in SEQ_SIZE
            if m or size[0] == 'num':
                self.rep('item-lost', L['line'], name, 'bound', 'the loop ends at %s, not at the size of the list' % self.expand(b, env))
                return
            raise Unknown()
        start = resolve(('id', 0, i), env)
        if start[0] != 'num':
            raise Unknown()
        if start[2] != '0':
            self.rep('item-lost', L['line'], name, 'start', 'the loop starts at element %s' % start[2])
        if op == '<=':
            self.rep('item-lost', L['line'], name, 'bound', 'the loop runs past the end of the list')
        for ev, how, v in L['paths']:
            if how == 'return':
                continue
            self.n += 1
            if how == 'break':
                self.rep('item-lost', L['line'], name, 'break', 'the loop ends before the end of the list, and the conversion succeeds')
                continue
            st = steps(ev, i) + steps(L['step'], i)
            am = [amount(x) for x in st]
            if None in am:
                raise Unknown()
            if sum(am) != 1:
                self.rep('item-lost', L['line'], name, 'step', 'an iteration advances the index by %d' % sum(am))
                continue
            self.iteration(ev, env, i, arg, cont, kind, is_map, name, L['line'])

    def iteration(self, ev, env0, i, arg, cont, kind, is_map, name, line):
        env = dict(env0)
        env.pop(i, None)
        done = {}           # storage text -> (source, value known true)
        pending = {}
        adds = []
        decls = set()
        moved = 0
        for x in ev:
            if x[0] == 'decl':
                decls.add(x[1])
                for k in [k for k in done if k.split('.')[0] == x[1]]:
                    del done[k]
            elif x[0] in ('assign', 'step') and (text(x[2]) if x[0] == 'assign' else x[1]) == i:
                moved += amount(x)
            elif x[0] == 'assign' and strip(x[2])[0] == 'id' and x[1] == '=':
                env[strip(x[2])[2]] = x[3]
            elif x[0] == 'call':
                m = self.on(x[1], cont, env)
                if m in ADD:
                    if len(x[2]) != 1:
                        raise Unknown()
                    adds.append((m, resolve(x[2][0], {k: v for k, v in env.items() if k not in done}), dict(done), x[3][1]))
                elif m is not None:
                    raise Unknown()
                elif len(x[2]) == 2 and strip(x[2][1])[0] == 'un' and strip(x[2][1])[2] == '&':
                    src = self.source(x[2][0], env, i, arg, moved)
                    dst = text(strip(strip(x[2][1])[3]))
                    if src is not None:
                        pending[id(x[3])] = (dst, src)
            elif x[0] == 'fact':
                c = strip(x[1])
                if id(c) in pending:
                    dst, src = pending.pop(id(c))
                    if not x[2]:
                        self.rep('bad-item', x[3], name, dst, 'an element that could not be converted does not make the conversion fail')
                    done[dst] = src
        for dst, src in pending.values():
            self.rep('bad-item', line, name, dst, 'the result of converting an element is not checked')
            done[dst] = src
        if not adds:
            self.rep('item-lost', line, name, 'add', 'an iteration that succeeds adds nothing to the container')
            return
        if len(adds) > 1:
            self.rep('item-lost', line, name, 'add', 'an iteration adds %d items to the container' % len(adds))
            return
        m, val, dn, ln = adds[0]
        if m not in ALLOWED.get(kind, {m}):
            self.rep('item-order', ln, name, m, 'items are added to a %s with %s' % (kind, m))
        t = text(val)
        if is_map:
            want = {t + '.first': 0, t + '.second': 1}
            if val[0] != 'id':
                raise Unknown()
        else:
            want = {t: ITEM}
            if val[0] != 'id':
                raise Unknown()
        for k, pos in want.items():
            self.n += 1
            if k not in dn:
                self.rep('item-lost', ln, name, k, '%s is added to the container, but nothing was converted into it in this iteration' % k)
            elif dn[k] != pos:
                self.rep('item-order', ln, name, k, '%s receives element %s of the item' % (k, dn[k]))

    def source(self, e, env, i, arg, moved):
        """None: not an element; ITEM: the element itself; a number: its part; other text: some other element"""
        e = resolve(e, env)
        if callname(e) in TUP_ITEM | SEQ_ITEM and len(e[3]) == 2:
            base, idx = resolve(e[3][0], env), strip(e[3][1])
            if text(base) == arg:
                if text(idx) != i:
                    return 'index ' + text(idx)
                return ITEM if moved == 0 else 'index %s%+d' % (i, moved)
            inner = self.source(base, env, i, arg, moved)
            if inner == ITEM:
                if idx[0] == 'num':
                    return int(idx[2], 0)
                return 'index ' + text(idx)
            return inner
        return None

    # ---------------------------------------------------------------- iterators
    def iternext(self, f, end_method, is_map):
        name = f[2]
        it = 'self->iterator'
        for ev, how, v in Paths().stmt(f[6]):
            if how != 'return' or v is None:
                continue
            self.n += 1
            failed = text(strip(v)) in ('NULL', '0', 'nullptr')
            inc = 0
            ended = None
            copies = {}
            read = []
            taint = {}
            line = v[1]
            built = None
            for x in ev:
                if x[0] == 'step' and self.isit(x[1], it):
                    if ended is None:
                        self.rep('iter-order', x[3], name, 'increment', 'the iterator moves before it was compared with the end')
                    inc += x[2]
                elif x[0] == 'assign' and self.isit(text(x[2]), it):
                    raise Unknown()
                elif x[0] == 'step':
                    if x[1] in copies:
                        copies[x[1]] += x[2]
                elif x[0] == 'assign' and strip(x[2])[0] == 'id' and self.isit(text(strip(x[3])), it):
                    copies[strip(x[2])[2]] = inc
                elif x[0] == 'assign' and strip(x[2])[0] == 'id' and strip(x[3])[0] in ('post',) and self.isit(text(strip(x[3])[3]), it):
                    copies[strip(x[2])[2]] = inc - 1
                elif x[0] == 'fact' and strip(x[1])[0] == 'bin' and strip(x[1])[2] in ('==', '!='):
                    c = strip(x[1])
                    ends = [y for y in (strip(c[3]), strip(c[4])) if y[0] == 'call' and text(y[2]).endswith(end_method)]
                    others = [y for y in (strip(c[3]), strip(c[4])) if y not in ends]
                    if not ends:
                        w = [y for y in (strip(c[3]), strip(c[4])) if y[0] == 'call' and 'container' in text(y[2])]
                        if w:
                            self.rep('iter-order', c[1], name, 'end', 'the iterator is compared with %s, not with %s()' % (text(w[0]), end_method))
                        continue
                    if 'self->container->obj' not in text(ends[0][2]):
                        self.rep('iter-order', c[1], name, 'end', 'the iterator is compared with the end of %s' % text(ends[0][2]))
                    ended = x[2] == (c[2] == '==')
                elif x[0] == 'fact':
                    read += [(q, inc, x[3]) for q in self.sources(x[1], copies, it)]
                if x[0] == 'assign':
                    s = self.sources(x[3], copies, it)
                    if s:
                        read += [(q, inc, x[4]) for q in s]
                    s = s | {q for nm, qs in taint.items() if re.search(r'(?<!\w)%s(?!\w)' % re.escape(nm), text(x[3])) for q in qs}
                    root = re.match(r'\w+', text(x[2]).lstrip('*('))
                    if root and s:
                        taint.setdefault(root.group(0), set()).update(s)
                if x[0] == 'call':
                    for a in x[2]:
                        s = self.sources(a, copies, it)
                        read += [(q, inc, x[3][1]) for q in s]
                        # registration and similar calls that fill &var
                    if x[1] in ('Py_BuildValue', 'PyTuple_Pack'):
                        built = [self.sources(a, copies, it) | {q for nm, qs in taint.items()
                                                              if re.search(r'(?<!\w)%s(?!\w)' % re.escape(nm), text(a)) for q in qs} for a in x[2][1:]]
            if failed:
                if ended and inc:
                    self.rep('iter-order', line, name, 'increment', 'the iterator moves though it is at the end')
                continue
            if ended is None or ended:
                self.rep('iter-order', line, name, 'end', 'yields an item without having found that the iterator is not at the end')
                continue
            if inc != 1:
                self.rep('iter-order', line, name, 'increment', 'yields an item and advances the iterator by %d' % inc)
                continue
            want = {'first', 'second'} if is_map else {'item'}
            got = {q for q, k, ln in read}
            for q in want - {x[0] for x in got}:
                self.rep('iter-item', line, name, q, 'the item that is yielded does not contain %s' % ('the ' + q if is_map else 'the element'))
            for (q, pos), k, ln in read:
                if (pos if pos is not None else k) != 0:
                    self.rep('iter-item', ln, name, q, 'the item is read after the iterator has moved')
            if is_map and built is not None:
                order = [sorted(x[0] for x in b) for b in built if b]
                if order != sorted(order) or any(len(x) != 1 for x in order):
                    self.rep('iter-item', line, name, 'order', 'the key does not come before the value in the item')

    @staticmethod
    def isit(t, it):
        return t in ('*' + it, '(*%s)' % it)

    def sources(self, e, copies, it):
        """{(first|second|item, increments before the copy)}"""
        out = set()
        for n in walk(e):
            if n[0] == 'member' and n[4] in ('first', 'second'):
                t = text(strip(n[2])).strip('()')
                base = t.lstrip('*').strip('()')
                if base in copies:
                    out.add((n[4], copies[base]))
                elif it in t:
                    out.add((n[4], None))
            elif n[0] == 'un' and n[2] == '*':
                b = text(strip(n[3])).strip('()')
                if b in copies:
                    out.add(('item', copies[b]))
                elif b == '*' + it:
                    out.add(('item', None))
        names = {q for q, _ in out}
        if names & {'first', 'second'}:
            out = {x for x in out if x[0] != 'item'}
        return out

    def iter(self, f, begin_method):
        name = f[2]
        for ev, how, v in Paths().stmt(f[6]):
            if how != 'return' or v is None or text(strip(v)) in ('NULL', '0'):
                continue
            self.n += 1
            env = env_of(ev)
            r = text(strip(v))
            cont = [x for x in ev if x[0] == 'assign' and text(x[2]) == r + '->container']
            itr = [x for x in ev if x[0] == 'assign' and text(x[2]) == r + '->iterator']
            if not cont and not itr:
                if r != 'self':
                    raise Unknown()
                continue
            for x in cont[-1:]:
                if text(resolve(x[3], env)) != 'self':
                    self.rep('iter-start', x[4], name, 'container', 'the iterator refers to %s, not to the container' % text(x[3]))
            for x in itr[-1:]:
                if not re.search(r'self->obj\)?->%s\(\)' % re.escape(begin_method), self.expand(x[3], env)):
                    self.rep('iter-start', x[4], name, 'begin', 'the iterator starts at %s, not at %s()' % (text(x[3]), begin_method))
            if not cont or not itr:
                self.rep('iter-start', v[1], name, 'fields', 'the iterator is returned without its container or its position')

    # ---------------------------------------------------------------- constructor of container wrappers
    def init(self, f, conv):
        for ev, how, v in Paths().stmt(f[6]):
            if how != 'return' or v is None or text(strip(v)) != '0':
                continue
            self.n += 1
            given = [x for x in ev if x[0] == 'fact' and text(strip(x[1])) == 'arg']
            ok = [x for x in ev if x[0] == 'fact' and callname(strip(x[1])) == conv]
            if given and given[-1][2] and not (ok and ok[-1][2]):
                self.rep('not-converted', v[1], f[2], 'arg', 'the constructor succeeds though the argument was not converted')
            for x in ok:
                a = [text(y) for y in strip(x[1])[3]]
                if a != ['arg', 'self->obj']:
                    self.rep('not-converted', v[1], f[2], 'target', 'the argument is converted into %s' % ', '.join(a))


def norm(t):
    return re.sub(r'\s+', '', t or '')


def findings(u, cfg):
    exp = u.meta.get('expect') or {}
    p = analyses.parsed(u, cfg)
    C = Check(u, cfg, p)
    funcs = {f[2]: f for _, f in getattr(p, "funcs", ())}
    nf = 0
    kind = exp.get('kind')
    if exp.get('type') and kind:
        is_map = 'map' in kind
        for f in funcs.values():
            if len(f[4]) == 2 and norm(f[4][1][0]) == norm(exp['type']) + '*' and norm(f[4][0][0]) == 'PyObject*':
                nf += 1
                try:
                    C.converter(f, kind, is_map)
                except Unknown:
                    pass
                for g in funcs.values():
                    if g[2].endswith('__tp_init') and f[2] + '(' in ' '.join(text(n) for n in walk(g[6]) if n[0] == 'call'):
                        nf += 1
                        try:
                            C.init(g, f[2])
                        except Unknown:
                            pass
    if kind:
        is_map = 'map' in kind
        for slot, fn in re.findall(r'\((iternextfunc|getiterfunc)\)(\w+)', u.text):
            f = funcs.get(fn)
            if f is None:
                continue
            nf += 1
            try:
                if slot == 'iternextfunc':
                    C.iternext(f, exp.get('end', 'end'), is_map)
                else:
                    C.iter(f, exp.get('begin', 'begin'))
            except Unknown:
                pass
    return C.out, nf, C.n
