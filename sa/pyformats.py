"""PyArg_Parse* / Py_BuildValue format strings: units, argument counts and C types (CPython C-API documentation)."""
import re

# unit -> tuple of argument roles for PyArg_Parse*
#   ('int', bits, signed) scalar pointer; 'cstr' const char**; 'ssize' Py_ssize_t*; 'obj' PyObject**; 'type' PyTypeObject*;
#   'conv' converter function; 'any' address; 'enc' const char*; 'dbl'; 'flt'; 'chr'
PARSE = {
    's': ('cstr',), 'z': ('cstr',), 'y': ('cstr',), 's#': ('cstr', 'ssize'), 'z#': ('cstr', 'ssize'), 'y#': ('cstr', 'ssize'),
    'u': ('ustr',), 'u#': ('ustr', 'ssize'), 'Z': ('ustr',), 'es': ('enc', 'mcstr'), 'et': ('enc', 'mcstr'),
    'es#': ('enc', 'mcstr', 'ssize'), 'et#': ('enc', 'mcstr', 'ssize'),
    's*': ('buf',), 'z*': ('buf',), 'y*': ('buf',), 'w*': ('buf',),
    'b': (('int', 8, False),), 'B': (('int', 8, False),), 'h': (('int', 16, True),), 'H': (('int', 16, False),),
    'i': (('int', 32, True),), 'I': (('int', 32, False),), 'l': (('int', 64, True),), 'k': (('int', 64, False),),
    'L': (('int', 64, True),), 'K': (('int', 64, False),), 'n': ('ssize',), 'c': ('chr',), 'C': (('int', 32, True),),
    'f': ('flt',), 'd': ('dbl',), 'p': (('int', 32, True),), 'O': ('obj',), 'S': ('obj',), 'U': ('obj',), 'Y': ('obj',),
    'O!': ('type', 'obj'), 'O&': ('conv', 'any'),
}
# Py_BuildValue argument roles
BUILD = {
    's': ('cstr',), 'z': ('cstr',), 'y': ('cstr',), 'U': ('cstr',), 's#': ('cstr', 'ssize'), 'z#': ('cstr', 'ssize'),
    'y#': ('cstr', 'ssize'), 'u': ('ustr',), 'u#': ('ustr', 'ssize'),
    'b': (('int', 8, True),), 'B': (('int', 8, False),), 'h': (('int', 16, True),), 'H': (('int', 16, False),),
    'i': (('int', 32, True),), 'I': (('int', 32, False),), 'l': (('int', 64, True),), 'k': (('int', 64, False),),
    'L': (('int', 64, True),), 'K': (('int', 64, False),), 'n': ('ssize',), 'c': ('chr',), 'C': (('int', 32, True),),
    'd': ('dbl',), 'f': ('dbl',), 'O': ('obj',), 'S': ('obj',), 'N': ('nobj',), 'O&': ('conv', 'any'),
}
CONVERSION_EFFECT = None


class FormatError(Exception):
    pass


def parse_units(fmt, table):
    """-> (units list of (unit, optional?), tuple_depth ok).  Nested parentheses are flattened."""
    units = []
    optional = False
    depth = 0
    i = 0
    fmt = fmt.split(':', 1)[0].split(';', 1)[0]
    while i < len(fmt):
        c = fmt[i]
        if c in ' ,\t':
            i += 1
            continue
        if c == '|':
            if optional:
                raise FormatError('more than one "|" in format %r' % fmt)
            optional = True
            i += 1
            continue
        if c == '$':
            i += 1
            continue
        if c in '([{':
            depth += 1
            i += 1
            continue
        if c in ')]}':
            depth -= 1
            if depth < 0:
                raise FormatError('unbalanced parentheses in format %r' % fmt)
            i += 1
            continue
        for n in (3, 2, 1):
            u = fmt[i:i + n]
            if len(u) == n and u in table:
                units.append((u, optional))
                i += n
                break
        else:
            raise FormatError('unknown format unit at %r in %r' % (fmt[i:], fmt))
    if depth:
        raise FormatError('unbalanced parentheses in format %r' % fmt)
    return units


INT_TYPES = {
    'char': (8, True), 'signed char': (8, True), 'int8_t': (8, True), 'unsigned char': (8, False), 'uint8_t': (8, False),
    'short': (16, True), 'short int': (16, True), 'int16_t': (16, True), 'unsigned short': (16, False), 'uint16_t': (16, False),
    'unsigned short int': (16, False), 'short unsigned int': (16, False), 'short unsigned': (16, False),
    'int': (32, True), 'signed int': (32, True), 'signed': (32, True), 'int32_t': (32, True), 'unsigned int': (32, False),
    'uint32_t': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'long int': (64, True), 'signed long': (64, True), 'signed long int': (64, True), 'int64_t': (64, True),
    'long long': (64, True), 'long long int': (64, True), 'signed long long': (64, True), 'signed long long int': (64, True),
    'ssize_t': (64, True), 'Py_ssize_t': (64, True), 'PyBindGenWrapperFlags': (32, False),
    'unsigned long': (64, False), 'unsigned long int': (64, False), 'uint64_t': (64, False), 'unsigned long long': (64, False),
    'unsigned long long int': (64, False), 'long unsigned int': (64, False), 'long long unsigned int': (64, False),
    'size_t': (64, False), 'std::size_t': (64, False),
    'bool': (8, False),
}


def norm_type(t):
    t = re.sub(r'\b(const|volatile|static|register)\b', ' ', t)
    t = re.sub(r'\s*([*&])\s*', r'\1', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = t.lstrip(':') if t.startswith('::') else t
    return t


def role_matches(role, ctype, is_pystruct):
    """does a variable of type `ctype` fit the role?  None = cannot tell"""
    t = norm_type(ctype)
    if role == 'any':
        return None
    if role == 'cstr' or role == 'mcstr' or role == 'enc':
        return t in ('char*', 'unsigned char*', 'signed char*')
    if role == 'ustr':
        return t in ('Py_UNICODE*', 'wchar_t*')
    if role == 'ssize':
        return t in ('Py_ssize_t', 'ssize_t') or (t in INT_TYPES and INT_TYPES[t] == (64, True))
    if role == 'chr':
        return t in ('char', 'unsigned char', 'signed char', 'int8_t', 'uint8_t')
    if role == 'flt':
        return t == 'float'
    if role == 'dbl':
        return t == 'double'
    if role in ('obj', 'nobj'):
        if not t.endswith('*') or t.endswith('**'):
            return False
        return is_pystruct(t[:-1])
    if isinstance(role, tuple):
        if t in INT_TYPES:
            return INT_TYPES[t] == (role[1], role[2])
        if t.endswith('*') or t in ('float', 'double', 'std::string'):
            return False
        return None
    return None


def build_matches(role, ctype, is_pystruct):
    """does a value of type `ctype` passed through varargs fit the role?  None = cannot tell"""
    t = norm_type(ctype)
    if role in ('dbl', 'flt'):
        return t in ('float', 'double') if t in ('float', 'double') or t in INT_TYPES or t.endswith('*') else None
    if role == 'chr' or isinstance(role, tuple) or role == 'ssize':
        bits = 64 if role == 'ssize' else 32 if role == 'chr' else max(32, role[1])
        if t in INT_TYPES:
            return (64 if INT_TYPES[t][0] == 64 else 32) == bits
        if t.endswith('*') or t in ('float', 'double', 'std::string'):
            return False
        return None
    return role_matches(role, ctype, is_pystruct)
