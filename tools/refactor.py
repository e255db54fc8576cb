#!/usr/bin/env python3
"""refactor.py DIR T1,T2,... [seed p]: applies behaviour-preserving rewrites to every module under DIR/pybindgen (not tests), in place.
Used to see that the checks judge what the code does.  fmt loop comp flip ret impl tmp nest alias nots rename"""
import ast, os, random, re, sys, symtable

R = random.Random(1)
P = 1.0


class T(ast.NodeTransformer):
    n = 0

    def fresh(self, b):
        T.n += 1
        return '_%s%d' % (b, T.n)

    def hit(self):
        return R.random() < P


def name(n, st=False):
    return ast.Name(n, ast.Store() if st else ast.Load())


class fmt(T):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple) \
                and not any(isinstance(e, ast.Starred) for e in n.right.elts) and self.hit():
            parts = re.split(r'(%[srid%])', n.left.value)
            if any('%' in p for p in parts[0::2]) or sum(p != '%%' for p in parts[1::2]) != len(n.right.elts):
                return n
            if R.random() < .5:
                vals, it = [], iter(n.right.elts)
                for i, p in enumerate(parts):
                    if i % 2 == 0:
                        if p:
                            vals.append(ast.Constant(p))
                    elif p == '%%':
                        vals.append(ast.Constant('%'))
                    else:
                        vals.append(ast.FormattedValue(next(it), 114 if p == '%r' else 115, None))
                return ast.JoinedStr(vals)
            s = ''
            for i, p in enumerate(parts):
                s += p.replace('{', '{{').replace('}', '}}') if i % 2 == 0 else '%' if p == '%%' else '{!r}' if p == '%r' else '{!s}'
            return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), n.right.elts, [])
        return n


class loop(T):
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not self.hit():
            return n
        a, i = self.fresh('seq'), self.fresh('i')
        if R.random() < .5:
            return [ast.Assign([name(a, 1)], ast.Call(name('list'), [n.iter], [])), ast.Assign([name(i, 1)], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [name(a)], [])]),
                              [ast.Assign([n.target], ast.Subscript(name(a), name(i), ast.Load())), ast.AugAssign(name(i, 1), ast.Add(), ast.Constant(1))] + n.body, [])]
        return [ast.Assign([name(a, 1)], ast.Call(name('iter'), [n.iter], [])),
                ast.While(ast.Constant(True), [ast.Try([ast.Assign([n.target], ast.Call(name('next'), [name(a)], []))],
                          [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])] + n.body, [])]


class comp(T):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and len(n.value.generators) == 1 and self.hit():
            g = n.value.generators[0]
            if n.targets[0].id in [x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)]:
                return n
            body = ast.Expr(ast.Call(ast.Attribute(name(n.targets[0].id), 'append', ast.Load()), [n.value.elt], []))
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            return [ast.Assign(n.targets, ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], [])]
        return n


class flip(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.hit():
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body) if self.hit() else n


class ret(T):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)) or not self.hit():
            return n
        return [ast.Assign([name('_outcome', 1)], n.value), ast.Return(name('_outcome'))]


class impl(T):
    def visit_ClassDef(self, c):
        out = []
        for n in c.body:
            out.append(n)
            if not isinstance(n, ast.FunctionDef) or n.decorator_list or n.name in ('__new__', '__init_subclass__') or not n.args.args \
                    or n.args.args[0].arg != 'self' or n.args.vararg or n.args.kwarg or n.args.kwonlyargs or n.args.posonlyargs or len(n.body) < 2 \
                    or any(isinstance(x, (ast.Yield, ast.Global, ast.Nonlocal)) for x in ast.walk(n)) or not self.hit():
                continue
            nm = '_do_%s_%s' % (c.name.lower(), n.name.strip('_'))
            a = ast.arguments([], list(n.args.args), None, [], [], None, [])
            doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
            out.append(ast.FunctionDef(nm, a, n.body[len(doc):] or [ast.Pass()], [], None))
            n.body = doc + [ast.Return(ast.Call(ast.Attribute(name('self'), nm, ast.Load()), [name(x.arg) for x in n.args.args[1:]], []))]
        c.body = out
        return c


class tmp(T):
    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and c.args and not isinstance(c.args[0], (ast.Starred, ast.Name, ast.Constant)) and self.hit():
            f = c.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if isinstance(f, ast.Name):
                t = self.fresh('arg')
                a = c.args[0]
                c.args[0] = name(t)
                return [ast.Assign([name(t, 1)], a), n]
        return n

    def visit_Lambda(self, n):
        return n


class nest(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and self.hit():
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) and self.hit():
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class alias(T):
    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('write_code', 'writeln', 'write_error_check', 'write_cleanup',
                                                                                            'append', 'add_parameter', 'declare_variable') and self.hit():
            t = self.fresh('emit')
            f = c.func
            c.func = name(t)
            return [ast.Assign([name(t, 1)], f), n]
        return n


class nots(T):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)) and self.hit():
            o = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}[type(n.ops[0])]
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [o()], n.comparators))
        return n


class rename(T):
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.ClassDef, ast.ExceptHandler)) for b in n.body
               for x in ast.walk(b)) or any(isinstance(x, ast.Name) and x.id in ('vars', 'locals', 'exec', 'eval') for x in ast.walk(n)):
            for x in n.body:
                if isinstance(x, ast.FunctionDef):
                    pass
            return n
        params = {a.arg for a in n.args.args + n.args.kwonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        loc = {x for x in loc if self.hit()}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += '_renamed'
        return n


def main():
    global P
    d, ts = sys.argv[1], sys.argv[2].split(',')
    if len(sys.argv) > 3:
        R.seed(int(sys.argv[3]))
    if len(sys.argv) > 4:
        P = float(sys.argv[4])
    for r, ds, fs in os.walk(os.path.join(d, 'pybindgen')):
        if 'tests' in r or '__pycache__' in r:
            continue
        for f in sorted(fs):
            if not f.endswith('.py') or f == '_version.py' or f == 'version.py':
                continue
            p = os.path.join(r, f)
            src = open(p).read()
            t = ast.parse(src)
            for x in ts:
                t = ast.fix_missing_locations(globals()[x]().visit(t))
            out = ast.unparse(t) + '\n'
            compile(out, p, 'exec')
            open(p, 'w').write(out)


if __name__ == '__main__':
    main()
