"""A small C/C++ front end for the code templates that the generator emits.

preprocess -> tokenize -> top-level items -> statement/expression trees.
Nodes are tuples ('kind', line, ...).  Parsing is strict about structure (brackets, `;`, statement forms), so that a
template that is not well formed is reported rather than guessed at.
"""
import re


class CError(Exception):
    def __init__(self, line, msg):
        super().__init__('line %s: %s' % (line, msg))
        self.line, self.msg = line, msg


# ------------------------------------------------------------------ preprocessing
PY3_DEFS = {'PY_MAJOR_VERSION': 3, 'PY_MINOR_VERSION': 12, 'PY_VERSION_HEX': 0x030c03f0, '__GNUC__': 13, '__GNUC_MINOR__': 3,
            '__cplusplus': 201402}
PY2_DEFS = {'PY_MAJOR_VERSION': 2, 'PY_MINOR_VERSION': 7, 'PY_VERSION_HEX': 0x020712f0, '__GNUC__': 13, '__GNUC_MINOR__': 3,
            '__cplusplus': 201402}
BUILTIN_MACROS = {'PyVarObject_HEAD_INIT': (['a', 'b'], 'PyVarObject_HEAD(a, b),'), 'PyObject_HEAD_INIT': (['a'], 'PyObject_HEAD_I(a),'),
                  'PyObject_HEAD': (None, 'PyObject ob_base;'), 'PY_LONG_LONG': (None, 'long long')}


def strip_comments(text):
    out = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c == '"' or c == "'":
            j = i + 1
            while j < n and text[j] != c:
                if text[j] == '\\':
                    j += 1
                elif text[j] == '\n':
                    break
                j += 1
            out.append(text[i:j + 1])
            i = j + 1
        elif c == '/' and i + 1 < n and text[i + 1] == '/':
            j = text.find('\n', i)
            i = n if j < 0 else j
        elif c == '/' and i + 1 < n and text[i + 1] == '*':
            j = text.find('*/', i + 2)
            if j < 0:
                raise CError(text.count('\n', 0, i) + 1, 'unterminated comment')
            out.append('\n' * text.count('\n', i, j))
            out.append(' ')
            i = j + 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def _eval_if(expr, defs, macros):
    def rep_def(m):
        nm = m.group(1) or m.group(2)
        return '1' if nm in defs or nm in macros else '0'
    e = re.sub(r'defined\s*(?:\(\s*(\w+)\s*\)|(\w+))', rep_def, expr)

    def rep_id(m):
        nm = m.group(0)
        if nm in defs:
            return str(defs[nm])
        return '0'
    e = re.sub(r'(?<![\w])[A-Za-z_]\w*(\s*\([^()]*\))?', lambda m: rep_id(re.match(r'\w+', m.group(0))), e)
    e = e.replace('&&', ' and ').replace('||', ' or ')
    e = re.sub(r'!(?!=)', ' not ', e)
    e = re.sub(r'\b(\d+|0x[0-9a-fA-F]+)[uUlL]+\b', r'\1', e)
    try:
        return bool(eval(e, {'__builtins__': {}}, {}))
    except Exception:
        return False


class Pre:
    """Result of preprocessing one text."""

    def __init__(self):
        self.lines = []       # active text, same number of lines as the source
        self.includes = []    # (line, header)
        self.macros = {}      # name -> (params|None, body)


def preprocess(text, defs=PY3_DEFS, macros=None):
    text = strip_comments(text)
    p = Pre()
    p.macros.update(BUILTIN_MACROS)
    if macros:
        p.macros.update(macros)
    stack = []  # (active, taken, line)
    raw = text.split('\n')
    i = 0
    while i < len(raw):
        line = raw[i]
        m = re.match(r'\s*#\s*(\w+)(.*)$', line)
        if m:
            start = i
            full = m.group(2)
            while full.rstrip().endswith('\\') and i + 1 < len(raw):
                full = full.rstrip()[:-1] + ' ' + raw[i + 1]
                i += 1
            d = m.group(1)
            active = all(s[0] for s in stack)
            if d == 'if':
                v = _eval_if(full, defs, p.macros)
                stack.append([v, v, start + 1])
            elif d == 'ifdef' or d == 'ifndef':
                nm = full.strip().split()[0] if full.strip() else ''
                v = (nm in defs or nm in p.macros) == (d == 'ifdef')
                stack.append([v, v, start + 1])
            elif d == 'elif':
                if not stack:
                    raise CError(start + 1, '#elif without #if')
                v = (not stack[-1][1]) and _eval_if(full, defs, p.macros)
                stack[-1][0] = v
                stack[-1][1] = stack[-1][1] or v
            elif d == 'else':
                if not stack:
                    raise CError(start + 1, '#else without #if')
                stack[-1][0] = not stack[-1][1]
                stack[-1][1] = True
            elif d == 'endif':
                if not stack:
                    raise CError(start + 1, '#endif without #if')
                stack.pop()
            elif active:
                if d == 'include':
                    p.includes.append((start + 1, full.strip()))
                elif d == 'define':
                    mm = re.match(r'\s*(\w+)(\(([^)]*)\))?\s*(.*)$', full, re.S)
                    if mm:
                        params = [x.strip() for x in mm.group(3).split(',')] if mm.group(2) is not None else None
                        p.macros[mm.group(1)] = (params, mm.group(4).strip())
                elif d == 'undef':
                    p.macros.pop(full.strip(), None)
            for _ in range(i - start + 1):
                p.lines.append('')
            i += 1
            continue
        p.lines.append(line if all(s[0] for s in stack) else '')
        i += 1
    if stack:
        raise CError(stack[-1][2], 'unterminated #if')
    return p


# ------------------------------------------------------------------ tokens
TOK = re.compile(r'''
   (?P<ws>[ \t\r\f\v]+)
 | (?P<nl>\n)
 | (?P<num>(?:0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+)[uUlLfF]*)
 | (?P<id>[A-Za-z_$~]?[A-Za-z_$][\w$]*|~)
 | (?P<str>(?:u8|[LuU])?"(?:[^"\\\n]|\\.)*")
 | (?P<chr>'(?:[^'\\\n]|\\.)+')
 | (?P<op>::|->\*?|\+\+|--|<<=|>>=|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|\.\.\.|<<|[-+*/%&|^!=<>?:;,.(){}\[\]\\@])
''', re.X)


class T:
    __slots__ = ('k', 'v', 'line')

    def __init__(self, k, v, line):
        self.k, self.v, self.line = k, v, line

    def __repr__(self):
        return '%s@%d' % (self.v, self.line)


def tokenize(text):
    out = []
    line = 1
    i, n = 0, len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            raise CError(line, 'unexpected character %r' % text[i:i + 20])
        k = m.lastgroup
        if k == 'nl':
            line += 1
        elif k != 'ws':
            v = m.group()
            if k == 'id' and v[0] == '~' and len(v) > 1:
                out.append(T('op', '~', line))
                out.append(T('id', v[1:], line))
            elif v == '~':
                out.append(T('op', '~', line))
            else:
                out.append(T(k, v, line))
        i = m.end()
    return out


def expand(tokens, macros, depth=0):
    if not macros or depth > 8:
        return tokens
    out = []
    i = 0
    while i < len(tokens):
        t = tokens[i]
        if t.k == 'id' and t.v in macros:
            params, body = macros[t.v]
            if params is None:
                bt = [T(x.k, x.v, t.line) for x in tokenize(body)]
                sub = dict(macros)
                sub.pop(t.v, None)
                out.extend(expand(bt, sub, depth + 1))
                i += 1
                continue
            if i + 1 < len(tokens) and tokens[i + 1].v == '(':
                j = i + 2
                d = 1
                args = [[]]
                while j < len(tokens):
                    v = tokens[j].v
                    if v in '([{' and tokens[j].k == 'op':
                        d += 1
                    elif v in ')]}' and tokens[j].k == 'op':
                        d -= 1
                        if d == 0:
                            break
                    if d == 1 and v == ',' and tokens[j].k == 'op':
                        args.append([])
                    else:
                        args[-1].append(tokens[j])
                    j += 1
                mp = dict(zip(params, args))
                bt = []
                for x in tokenize(body.replace('##', ' ')):
                    if x.k == 'id' and x.v in mp:
                        bt.extend(mp[x.v])
                    else:
                        bt.append(T(x.k, x.v, t.line))
                sub = dict(macros)
                sub.pop(t.v, None)
                out.extend(expand(bt, sub, depth + 1))
                i = j + 1
                continue
        out.append(t)
        i += 1
    return out


# ------------------------------------------------------------------ parser
KNOWN_TYPES = {'int', 'long', 'short', 'char', 'unsigned', 'signed', 'double', 'float', 'bool', 'void', 'Py_ssize_t', 'size_t',
               'destructor', 'printfunc', 'getattrfunc', 'setattrfunc', 'cmpfunc', 'reprfunc', 'hashfunc', 'ternaryfunc',
               'getattrofunc', 'setattrofunc', 'traverseproc', 'inquiry', 'richcmpfunc', 'getiterfunc', 'iternextfunc',
               'descrgetfunc', 'descrsetfunc', 'initproc', 'allocfunc', 'newfunc', 'freefunc', 'binaryfunc', 'unaryfunc',
               'lenfunc', 'ssizeargfunc', 'ssizeobjargproc', 'objobjproc', 'PyCFunction', 'getter', 'setter', 'coercion',
               'ssizessizeargfunc', 'ssizessizeobjargproc', 'PyBindGenWrapperFlags', 'int8_t', 'int16_t', 'int32_t', 'int64_t',
               'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'wchar_t', 'visitproc', 'PyGILState_STATE'}
TYPE_QUAL = {'const', 'volatile', 'unsigned', 'signed', 'struct', 'class', 'enum', 'union', 'typename', 'long', 'short', 'static',
             'extern', 'inline', 'register', 'mutable'}
NAMED_CASTS = {'static_cast', 'dynamic_cast', 'reinterpret_cast', 'const_cast'}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
BINPREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, '<<': 8, '>>': 8,
           '+': 9, '-': 9, '*': 10, '/': 10, '%': 10, '->*': 11}


class Parser:
    def __init__(self, tokens):
        self.t = tokens
        self.i = 0
        self.n = len(tokens)

    # -- token helpers
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < self.n else T('eof', '<end>', self.t[-1].line if self.t else 0)

    def at(self, v, k=0):
        return self.i + k < self.n and self.t[self.i + k].v == v and self.t[self.i + k].k in ('op', 'id')

    def take(self, v=None):
        t = self.peek()
        if t.k == 'eof' or (v is not None and (t.v != v or t.k not in ('op', 'id'))):
            raise CError(t.line, 'expected %r, found %r' % (v, t.v))
        self.i += 1
        return t

    def line(self):
        return self.peek().line

    # -- balanced skip: at an opening bracket; returns index after the closing one
    PAIRS = {'(': ')', '[': ']', '{': '}'}

    def match(self, i):
        st = []
        while i < self.n:
            t = self.t[i]
            if t.k == 'op':
                if t.v in self.PAIRS:
                    st.append(t)
                elif t.v in (')', ']', '}'):
                    if not st or self.PAIRS[st[-1].v] != t.v:
                        raise CError(t.line, 'unbalanced %r' % t.v)
                    st.pop()
                    if not st:
                        return i + 1
            i += 1
        raise CError(st[-1].line, 'unclosed %r' % st[-1].v)

    # -- types
    def template_end(self, i):
        """tokens[i] is '<': index after matching '>' if it can be a template argument list, else None"""
        d = 0
        j = i
        while j < self.n and j < i + 80:
            t = self.t[j]
            if t.k == 'op':
                if t.v == '<':
                    d += 1
                elif t.v == '>':
                    d -= 1
                    if d == 0:
                        return j + 1
                elif t.v == '>>' :
                    d -= 2
                    if d <= 0:
                        return j + 1
                elif t.v not in ('::', '*', '&', ',', '(', ')'):
                    return None
            elif t.k not in ('id', 'num'):
                return None
            j += 1
        return None

    def type_end(self, i):
        """If tokens[i:] starts with a type name, return index after it (incl. * & const), else None."""
        j = i
        got = False
        builtin = False
        while j < self.n:
            t = self.t[j]
            if t.k == 'id' and t.v in TYPE_QUAL:
                if t.v in ('unsigned', 'signed', 'long', 'short'):
                    got = True
                    builtin = True
                j += 1
                continue
            if t.k == 'id' and not got or (builtin and t.k == 'id' and t.v in ('int', 'char', 'double', 'long', 'short')):
                if t.v in ('return', 'if', 'else', 'while', 'for', 'do', 'delete', 'new', 'throw', 'case', 'goto', 'sizeof',
                           'operator', 'this', 'NULL', 'true', 'false') or t.v in NAMED_CASTS:
                    return None
                got = True
                builtin = builtin or t.v in ('int', 'char', 'double', 'long', 'short')
                j += 1
                if j < self.n and self.t[j].v == '<' and self.t[j].k == 'op':
                    e = self.template_end(j)
                    if e is None:
                        return j if got else None
                    j = e
                while j + 1 < self.n and self.t[j].v == '::' and self.t[j + 1].k == 'id':
                    j += 2
                    if j < self.n and self.t[j].v == '<' and self.t[j].k == 'op':
                        e = self.template_end(j)
                        if e is None:
                            return j
                        j = e
                continue
            if t.v == '::' and t.k == 'op' and not got:
                j += 1
                continue
            break
        if not got:
            return None
        while j < self.n and self.t[j].v in ('*', '&', 'const', 'volatile') and self.t[j].k in ('op', 'id'):
            j += 1
        return j

    def type_text(self, i, j):
        return join_tokens(self.t[i:j])

    # -- expressions
    def expr(self):
        e = self.assign()
        while self.at(','):
            ln = self.take().line
            e = ('comma', ln, e, self.assign())
        return e

    def assign(self):
        l = self.ternary()
        if self.peek().k == 'op' and self.peek().v in ASSIGN:
            t = self.take()
            r = self.assign()
            return ('assign', t.line, t.v, l, r)
        return l

    def ternary(self):
        c = self.binary(1)
        if self.at('?'):
            ln = self.take().line
            a = self.assign()
            self.take(':')
            b = self.assign()
            return ('cond', ln, c, a, b)
        return c

    def binary(self, prec):
        l = self.unary()
        while True:
            t = self.peek()
            if t.k != 'op' or t.v not in BINPREC or BINPREC[t.v] < prec:
                return l
            self.take()
            r = self.binary(BINPREC[t.v] + 1)
            l = ('bin', t.line, t.v, l, r)

    def cast_end(self):
        """at '(': if this is a C cast return (type text, index after ')')"""
        i = self.i + 1
        j = self.type_end(i)
        if j is None or j >= self.n or self.t[j].v != ')':
            # function pointer casts etc: '(' type '(*)' '(' ... — not emitted
            return None
        ids = [x for x in self.t[i:j] if x.k == 'id']
        nxt = self.t[j + 1] if j + 1 < self.n else None
        if nxt is None:
            return None
        last = self.t[j - 1].v
        sure = last in ('*', '&') or any(x.v in KNOWN_TYPES or x.v in TYPE_QUAL for x in ids)
        if nxt.k in ('id', 'num', 'str', 'chr'):
            if nxt.v in ('and', 'or'):
                return None
            return self.type_text(i, j), j + 1
        if nxt.v in ('(', '!', '~') and nxt.k == 'op':
            if nxt.v == '(' and not sure:
                return None
            return self.type_text(i, j), j + 1
        if nxt.v in ('&', '*', '-', '+', '{', '::') and sure:
            return self.type_text(i, j), j + 1
        return None

    def unary(self):
        t = self.peek()
        if t.k == 'op' and t.v in ('!', '~', '-', '+', '&', '*', '++', '--'):
            self.take()
            return ('un', t.line, t.v, self.unary())
        if t.k == 'op' and t.v == '(':
            c = self.cast_end()
            if c is not None:
                self.i = c[1]
                return ('cast', t.line, c[0], self.unary())
        if t.k == 'id':
            if t.v == 'not':
                self.take()
                return ('un', t.line, '!', self.unary())
            if t.v == 'new':
                return self.new()
            if t.v == 'delete':
                self.take()
                if self.at('['):
                    self.take()
                    self.take(']')
                return ('delete', t.line, self.unary())
            if t.v == 'throw':
                self.take()
                if self.at(';'):
                    return ('throw', t.line, None)
                return ('throw', t.line, self.assign())
            if t.v == 'sizeof':
                self.take()
                if self.at('('):
                    j = self.match(self.i)
                    s = join_tokens(self.t[self.i + 1:j - 1])
                    self.i = j
                    return ('sizeof', t.line, s)
                return ('sizeof', t.line, repr(self.unary()))
        return self.postfix()

    def new(self):
        ln = self.take('new').line
        place = ()
        if self.at('('):  # placement
            self.take()
            place = tuple(self.args(')'))
        j = self.type_end(self.i)
        if j is None:
            raise CError(ln, 'bad new expression')
        ty = self.type_text(self.i, j)
        self.i = j
        if self.at('('):
            self.take()
            args = self.args(')')
            return ('new', ln, ty, args, place)
        if self.at('['):
            self.take()
            a = self.expr()
            self.take(']')
            return ('new', ln, ty, [('index', ln, None, a)], place)
        return ('new', ln, ty, [], place)

    def args(self, close):
        out = []
        if self.at(close):
            self.take()
            return out
        while True:
            out.append(self.assign())
            if self.at(','):
                self.take()
                continue
            self.take(close)
            return out

    def name(self):
        """qualified, possibly templated name -> text"""
        i0 = self.i
        if self.at('::'):
            self.take()
        if self.peek().k != 'id':
            raise CError(self.line(), 'expected a name, found %r' % self.peek().v)
        while True:
            if self.at('~'):
                self.take()
            t = self.peek()
            if t.k != 'id':
                raise CError(t.line, 'expected a name, found %r' % t.v)
            self.take()
            if t.v == 'operator':
                while not self.at('(') or self.peek(1).v == ')':
                    self.take()
                    if self.peek(-1).v == ')':
                        break
                break
            if self.at('<'):
                e = self.template_end(self.i)
                nx = self.t[e].v if e is not None and e < self.n else None
                if e is not None and (t.v in NAMED_CASTS or nx in ('(', '::', '{') or
                                      (nx in (')', '*', '&', ',', ';', '>') and t.v in NAMED_CASTS)):
                    self.i = e
            if self.at('::'):
                self.take()
                continue
            break
        return join_tokens(self.t[i0:self.i])

    def primary(self):
        t = self.peek()
        if t.k == 'num':
            self.take()
            return ('num', t.line, t.v)
        if t.k == 'str':
            s = ''
            while self.peek().k == 'str' or (self.peek().k == 'id' and self.peek(1).k == 'str') or (
                    self.peek().k == 'id' and self.peek(-1).k == 'str' and self.peek().v.isupper()):
                s += self.take().v[1:-1] if self.peek().k == 'str' else '%' + self.take().v
            return ('str', t.line, s)
        if t.k == 'chr':
            self.take()
            return ('chr', t.line, t.v)
        if t.v == '(' and t.k == 'op':
            self.take()
            e = self.expr()
            self.take(')')
            return ('paren', t.line, e)
        if t.v == '{' and t.k == 'op':
            self.take()
            return ('init', t.line, self.init_items())
        if t.k == 'id' or t.v == '::':
            if t.v in ('if', 'else', 'return', 'for', 'while', 'do', 'case', 'switch', 'try', 'catch'):
                raise CError(t.line, 'unexpected %r in an expression' % t.v)
            # functional cast of builtin: unsigned int(x) is not emitted; `int(x)` handled as call
            for c in NAMED_CASTS:
                if t.v == c:
                    self.take()
                    if not self.at('<'):
                        raise CError(t.line, 'bad %s' % c)
                    e = self.template_end(self.i)
                    if e is None:
                        raise CError(t.line, 'bad %s' % c)
                    ty = self.type_text(self.i + 1, e - 1)
                    self.i = e
                    self.take('(')
                    x = self.expr()
                    self.take(')')
                    return ('ccast', t.line, c, ty, x)
            if t.v == 'typeid' and self.peek(1).v == '(':
                i0 = self.i
                try:
                    self.take()
                    self.take('(')
                    x = self.expr()
                    self.take(')')
                    return ('call', t.line, ('id', t.line, 'typeid'), [x])
                except CError:
                    self.i = i0 + 2
                    d = 1
                    while d:
                        v = self.take().v
                        d += (v == '(') - (v == ')')
                    return ('call', t.line, ('id', t.line, 'typeid'), [('id', t.line, join_tokens(self.t[i0 + 2:self.i - 1]))])
            return ('id', t.line, self.name())
        raise CError(t.line, 'unexpected %r' % t.v)

    def init_items(self):
        out = []
        while not self.at('}'):
            if self.at('.'):  # designated
                self.take()
                self.take()
                self.take('=')
            out.append(self.assign())
            if self.at(','):
                self.take()
            elif not self.at('}'):
                raise CError(self.line(), 'expected , or } in an initializer, found %r' % self.peek().v)
        self.take('}')
        return out

    def postfix(self):
        e = self.primary()
        while True:
            t = self.peek()
            if t.k != 'op':
                return e
            if t.v == '(':
                self.take()
                e = ('call', t.line, e, self.args(')'))
            elif t.v == '[':
                self.take()
                x = self.expr()
                self.take(']')
                e = ('index', t.line, e, x)
            elif t.v in ('.', '->'):
                self.take()
                if self.at('~'):
                    self.take()
                    nm = '~' + self.name()
                else:
                    nm = self.name()
                e = ('member', t.line, e, t.v, nm)
            elif t.v in ('++', '--'):
                self.take()
                e = ('post', t.line, t.v, e)
            else:
                return e

    # -- statements
    def block(self):
        ln = self.take('{').line
        out = []
        while not self.at('}'):
            if self.peek().k == 'eof':
                raise CError(ln, 'unclosed {')
            out.append(self.statement())
        self.take('}')
        return ('block', ln, out)

    def statement(self):
        t = self.peek()
        if t.k == 'op':
            if t.v == '{':
                return self.block()
            if t.v == ';':
                self.take()
                return ('empty', t.line)
        if t.k == 'id':
            v = t.v
            if v == 'if':
                self.take()
                self.take('(')
                c = self.expr()
                self.take(')')
                a = self.statement()
                b = None
                if self.at('else'):
                    self.take()
                    b = self.statement()
                return ('if', t.line, c, a, b)
            if v == 'while':
                self.take()
                self.take('(')
                c = self.expr()
                self.take(')')
                return ('while', t.line, c, self.statement())
            if v == 'do':
                self.take()
                b = self.statement()
                self.take('while')
                self.take('(')
                c = self.expr()
                self.take(')')
                self.take(';')
                return ('do', t.line, b, c)
            if v == 'for':
                self.take()
                self.take('(')
                init = None
                if not self.at(';'):
                    init = self.decl_or_expr()
                self.take(';')
                c = None if self.at(';') else self.expr()
                self.take(';')
                st = None if self.at(')') else self.expr()
                self.take(')')
                return ('for', t.line, init, c, st, self.statement())
            if v == 'switch':
                self.take()
                self.take('(')
                c = self.expr()
                self.take(')')
                return ('switch', t.line, c, self.statement())
            if v == 'case':
                self.take()
                c = self.ternary()
                self.take(':')
                return ('case', t.line, c)
            if v == 'default' and self.at(':', 1):
                self.take()
                self.take()
                return ('case', t.line, None)
            if v == 'try':
                self.take()
                b = self.block()
                cs = []
                while self.at('catch'):
                    cl = self.take().line
                    j = self.match(self.i)
                    decl = self.t[self.i + 1:j - 1]
                    self.i = j
                    cs.append((cl, decl, self.block()))
                if not cs:
                    raise CError(t.line, 'try without catch')
                return ('try', t.line, b, cs)
            if v == 'return':
                self.take()
                e = None if self.at(';') else self.expr()
                self.take(';')
                return ('return', t.line, e)
            if v in ('break', 'continue'):
                self.take()
                self.take(';')
                return (v, t.line)
            if v == 'goto':
                self.take()
                nm = self.take().v
                self.take(';')
                return ('goto', t.line, nm)
            if v in ('else', 'catch'):
                raise CError(t.line, 'unexpected %r' % v)
            if v in ('Py_BEGIN_ALLOW_THREADS', 'Py_END_ALLOW_THREADS', 'Py_RETURN_NONE', 'Py_RETURN_TRUE', 'Py_RETURN_FALSE'):
                self.take()
                if self.at(';'):
                    self.take()
                if v.startswith('Py_RETURN'):
                    return ('return', t.line, ('call', t.line, ('id', t.line, v), []))
                return ('expr', t.line, ('call', t.line, ('id', t.line, v), []))
            if self.at(':', 1) and not self.at('::', 1) and v not in ('public', 'private', 'protected'):
                self.take()
                self.take()
                return ('label', t.line, v)
            if v == 'using' or v == 'typedef':
                while not self.at(';'):
                    self.take()
                self.take(';')
                return ('empty', t.line)
            if v in ('struct', 'class') :
                # local struct definition?
                k = 1
                while self.i + k < self.n and self.peek(k).k == 'id':
                    k += 1
                if self.at('{', k):
                    self.i = self.match(self.i + k)
                    self.take(';')
                    return ('empty', t.line)
        s = self.decl_or_expr()
        self.take(';')
        return s

    def decl_or_expr(self):
        i0 = self.i
        ln = self.line()
        if self.peek().k == 'id' or self.at('::'):
            j = self.type_end(self.i)
            if j is not None and j < self.n and self.t[j].k == 'id' and self.t[j].v not in ('and', 'or', 'not'):
                # TYPE ident  followed by = ; , [ ( or :
                nx = self.t[j + 1].v if j + 1 < self.n else ''
                if nx in ('=', ';', ',', '[', '(', ')', '{', ':'):
                    return self.declaration(j)
        e = self.expr()
        return ('expr', ln, e)

    def declaration(self, j):
        ln = self.line()
        # back up over trailing */& so that each declarator gets its own
        k = j
        while self.t[k - 1].v in ('*', '&') or (self.t[k - 1].v == 'const' and self.t[k - 2].v in ('*', '&', 'const')):
            k -= 1
        base = self.type_text(self.i, k)
        self.i = k
        decls = []
        while True:
            ptr = ''
            while self.at('*') or self.at('&') or self.at('const'):
                ptr += self.take().v
            nm = self.take()
            if nm.k != 'id':
                raise CError(nm.line, 'bad declarator %r' % nm.v)
            arr = []
            init = None
            ctor = None
            while self.at('['):
                self.take()
                arr.append(None if self.at(']') else self.expr())
                self.take(']')
            if self.at('='):
                self.take()
                init = self.assign()
            elif self.at('('):
                self.take()
                ctor = self.args(')')
            elif self.at('{'):
                self.take()
                ctor = self.init_items()
            decls.append((nm.v, base, ptr, arr, init, ctor))
            if self.at(','):
                self.take()
                continue
            return ('decl', ln, decls)

    # -- top level
    def toplevel(self, until=None):
        items = []
        while True:
            t = self.peek()
            if t.k == 'eof':
                if until:
                    raise CError(t.line, 'missing %r at end of text' % until)
                return items
            if until and self.at(until):
                return items
            if t.v == ';':
                self.take()
                continue
            it = self.item()
            if it is not None:
                items.append(it)

    def item(self):
        i0 = self.i
        ln = self.line()
        if self.peek().k == 'id' and self.peek().v in ('public', 'private', 'protected') and self.at(':', 1):
            self.take()
            self.take()
            return None
        if self.at('}'):
            raise CError(ln, 'unbalanced }')
        # scan to ; or { at depth 0
        j = i0
        seen_paren = None
        seen_eq = False
        while j < self.n:
            t = self.t[j]
            if t.k == 'op':
                if t.v == '(' or t.v == '[':
                    if t.v == '(' and seen_paren is None and not seen_eq:
                        seen_paren = j
                    j = self.match(j)
                    continue
                if t.v == ';':
                    break
                if t.v == '{':
                    break
                if t.v == '}':
                    break
                if t.v in (')', ']'):
                    raise CError(t.line, 'unbalanced %r' % t.v)
                if t.v == '=' and seen_paren is None:
                    seen_eq = True
            j += 1
        if j >= self.n:
            raise CError(ln, 'declaration is not terminated: %s' % join_tokens(self.t[i0:i0 + 12]))
        t = self.t[j]
        head = self.t[i0:j]
        if t.v == '}':
            raise CError(t.line, 'declaration is not terminated before }: %s' % join_tokens(head[:12]))
        if t.v == ';':
            self.i = j + 1
            if seen_eq:
                return self._vardef(i0, j)
            return ('declonly', ln, head)
        # '{'
        words = [x.v for x in head]
        if head and head[0].v == 'extern' and len(head) == 2 and head[1].k == 'str':
            self.i = j + 1
            inner = self.toplevel('}')
            self.take('}')
            return ('ns', ln, 'extern C', inner)
        if head and head[0].v == 'namespace':
            self.i = j + 1
            inner = self.toplevel('}')
            self.take('}')
            return ('ns', ln, join_tokens(head[1:]), inner)
        if seen_eq:
            k = self.match(j)
            if k >= self.n or self.t[k].v != ';':
                raise CError(self.t[k - 1].line, 'missing ; after initializer')
            self.i = k + 1
            return self._vardef(i0, k)
        if seen_paren is None and any(w in ('struct', 'class', 'union', 'enum') for w in words):
            if 'enum' in words:
                self.i = self.match(j)
                k = self.i
                while not self.at(';'):
                    self.take()
                self.take(';')
                return ('type', ln, join_tokens(head), [], join_tokens(self.t[k:self.i - 1]))
            self.i = j + 1
            inner = self.toplevel('}')
            self.take('}')
            k = self.i
            while not self.at(';'):
                self.take()
            self.take(';')
            return ('type', ln, join_tokens(head), inner, join_tokens(self.t[k:self.i - 1]))
        if seen_paren is not None:
            # function definition
            pe = self.match(seen_paren)
            nm_i = seen_paren - 1
            # name: walk back over qualified name
            k = nm_i
            while k - 1 >= i0 and (self.t[k].k == 'id' and self.t[k - 1].v in ('::', '~') or self.t[k].v == '::' or
                                   (self.t[k].v == '~')) and self.t[k - 1].k in ('op', 'id') and (
                    self.t[k - 1].v in ('::', '~') or self.t[k].v in ('::', '~')):
                # stop at type boundary:  T *  ::  x  never emitted
                if self.t[k].v in ('::', '~') and self.t[k - 1].k != 'id' and self.t[k - 1].v not in ('::', '>'):
                    break
                if self.t[k].v == '~' and self.t[k - 1].k == 'id':
                    break
                k -= 1
            name = join_tokens(self.t[k:seen_paren])
            ret = join_tokens(self.t[i0:k])
            params = split_params(self.t[seen_paren + 1:pe - 1])
            quals = self.t[pe:j]
            self.i = j
            body = self.block()
            return ('func', ln, name, ret, params, join_tokens(quals), body)
        raise CError(ln, 'unrecognised construct: %s' % join_tokens(head[:12]))

    def _vardef(self, i0, j):
        toks = self.t[i0:j]
        k = next(a for a, x in enumerate(toks) if x.v == '=' and x.k == 'op')
        p = Parser(toks[k + 1:])
        init = p.assign()
        if p.i != p.n:
            raise CError(p.line(), 'unexpected %r after initializer' % p.peek().v)
        return ('var', toks[0].line, toks[:k], init)


def split_params(toks):
    out = []
    cur = []
    d = 0
    for t in toks:
        if t.k == 'op':
            if t.v in '([{<':
                d += 1
            elif t.v in ')]}>':
                d -= 1
            elif t.v == ',' and d == 0:
                out.append(cur)
                cur = []
                continue
        cur.append(t)
    if cur:
        out.append(cur)
    res = []
    for c in out:
        c = [x for x in c]
        # drop default value
        for a, x in enumerate(c):
            if x.v == '=':
                c = c[:a]
                break
        # PYBINDGEN_UNUSED(x)
        if len(c) >= 4 and c[-1].v == ')' and c[-3].v == '(':
            c = c[:-4] + [c[-2]]
        if len(c) >= 2 and c[-1].k == 'id' and c[-1].v not in KNOWN_TYPES and c[-1].v not in TYPE_QUAL:
            res.append((join_tokens(c[:-1]), c[-1].v))
        elif len(c) == 1 and c[0].v == 'void':
            continue
        else:
            res.append((join_tokens(c), None))
    return res


def join_tokens(toks):
    out = ''
    prev = None
    for t in toks:
        if prev is not None and ((prev.k in ('id', 'num', 'str', 'chr') and t.k in ('id', 'num', 'str', 'chr'))):
            out += ' '
        elif prev is not None and prev.k == 'op' and prev.v in '*&' and t.k == 'id' and False:
            out += ' '
        out += t.v
        prev = t
    return out


def parse(text, defs=PY3_DEFS, macros=None):
    """-> (items, Pre)"""
    p = preprocess(text, defs, macros)
    toks = expand(tokenize('\n'.join(p.lines)), {k: v for k, v in p.macros.items() if k not in NO_EXPAND})
    return Parser(toks).toplevel(), p


NO_EXPAND = {'PYBINDGEN_UNUSED', 'PyEval_ThreadsInitialized', 'PyMODINIT_FUNC', 'Py_TYPE', 'PyMem_New'}


def functions(items, prefix=''):
    for it in items:
        if it[0] == 'func':
            yield prefix, it
        elif it[0] == 'ns':
            yield from functions(it[3], prefix)
        elif it[0] == 'type':
            yield from functions(it[3], it[2])


def walk(node):
    """every tuple node below (and including) node"""
    if isinstance(node, tuple):
        if node and isinstance(node[0], str) and len(node) > 1 and isinstance(node[1], int):
            yield node
        for x in node:
            if isinstance(x, (tuple, list)):
                yield from walk(x)
    elif isinstance(node, list):
        for x in node:
            yield from walk(x)


def strip(e):
    """remove parentheses and casts"""
    while isinstance(e, tuple) and e and e[0] in ('paren', 'cast', 'ccast'):
        e = e[2] if e[0] == 'paren' else e[3] if e[0] == 'cast' else e[4]
    return e


def text(e):
    """canonical text of an expression"""
    if e is None:
        return ''
    k = e[0]
    if k in ('id', 'num', 'chr'):
        return e[2]
    if k == 'str':
        return '"%s"' % e[2]
    if k == 'paren':
        return text(e[2])
    if k == 'cast':
        return text(e[3])
    if k == 'ccast':
        return text(e[4])
    if k == 'call':
        return '%s(%s)' % (text(e[2]), ', '.join(text(a) for a in e[3]))
    if k == 'member':
        return '%s%s%s' % (text(e[2]), e[3], e[4])
    if k == 'index':
        return '%s[%s]' % (text(e[2]), text(e[3]))
    if k == 'un':
        return e[2] + text(e[3])
    if k == 'post':
        return text(e[3]) + e[2]
    if k == 'bin':
        return '(%s %s %s)' % (text(e[3]), e[2], text(e[4]))
    if k == 'assign':
        return '%s %s %s' % (text(e[3]), e[2], text(e[4]))
    if k == 'cond':
        return '(%s ? %s : %s)' % (text(e[2]), text(e[3]), text(e[4]))
    if k == 'new':
        return 'new %s(%s)' % (e[2], ', '.join(text(a) for a in e[3]))
    if k == 'delete':
        return 'delete ' + text(e[2])
    if k == 'init':
        return '{%s}' % ', '.join(text(a) for a in e[2])
    if k == 'sizeof':
        return 'sizeof(%s)' % e[2]
    if k == 'throw':
        return 'throw ' + text(e[2])
    if k == 'comma':
        return '%s, %s' % (text(e[2]), text(e[3]))
    return '?'
