"""Declarations that cannot be wrapped: each is reported to the error handler (or to the caller) and leaves no trace in the output.

The unit emitted with the failing declaration is compared with the one emitted without it: the same functions with the same text, the same
tables and declarations.  A declaration whose one direction works (an attribute that can be read but not written) may leave that part."""
import re

PARTIAL = ('attr-ptr', 'attr-ref', 'virtual-ownership-ret')   # one of getter and setter, or the proxy, can be generated


def squeeze(t):
    return [re.sub(r'\s+', ' ', l).strip() for l in t.split('\n') if l.strip()]


def without(lines, name):
    """lines outside of the definitions and table rows that belong to `name`"""
    out, i = [], 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if re.search(r'\b\w*%s(__\d+)?\b' % name, l) and i + 1 < n and (l.endswith(')') and lines[i + 1] == '{' or lines[i + 1] == '{'):
            d, j = 0, i + 1
            while j < n:
                d += lines[j].count('{') - lines[j].count('}')
                j += 1
                if d <= 0:
                    break
            if out and not re.search(r'[;{}]$', out[-1]) and not out[-1].startswith('#'):
                out.pop()                          # the return type on a line of its own
            i = j
            continue
        if l == '{' and i + 1 < n and '"%s"' % name in lines[i + 1] and 'attribute name' in lines[i + 1]:
            while i < n and not lines[i].startswith('}'):
                i += 1
            i += 1
            continue
        if re.search(r'\b\w*%s\b' % name, l) and l.endswith(';'):
            i += 1
            continue
        out.append(l)
        i += 1
    return out


def check(u):
    import difflib
    kind = u.meta['what']
    out = []
    if u.error:
        return [('skip', 'internal error', kind, u.error_loc or '', u.error)]
    if u.meta['handler'] != 'skip':
        if u.text is not None or not u.rejected:
            out.append(('skip', 'failure is not reported to the caller', kind, 'uBad', 'handler: ' + u.meta['handler']))
        if u.meta['handler'] == 'refuse' and not u.meta['skipped']:
            out.append(('skip', 'failure is not reported to the error handler', kind, 'uBad', ''))
        return out
    if u.text is None:
        return [('skip', 'skipping the declaration stops the generation', kind, 'uBad', str(u.rejected))]
    a, b = squeeze(u.meta['ref']), squeeze(u.text)
    if kind in PARTIAL:
        a, b = without(a, 'uBad'), without(b, 'uBad')
    if a != b:
        plus, minus = [], []
        for l in difflib.unified_diff(a, b, lineterm='', n=0):
            if l.startswith('+') and not l.startswith('+++'):
                plus.append(l[1:])
            elif l.startswith('-') and not l.startswith('---'):
                minus.append(l[1:])
        if plus:
            out.append(('skip', 'skipped declaration leaves code behind', kind, 'uBad', next((x for x in plus if x not in '{}'), plus[0])))
        if minus:
            out.append(('skip', 'skipped declaration changes other code', kind, 'uBad', next((x for x in minus if x not in '{}'), minus[0])))
    if not u.meta['skipped']:
        out.append(('skip', 'failure is not reported to the error handler', kind, 'uBad', ''))
    return out
