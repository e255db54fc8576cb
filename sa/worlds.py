"""The output depends only on the declarations: each unit is derived in two abstract worlds that differ in everything a run must not depend
on (iteration order of sets, object identities and hashes, clock, process, host, user, working directory, random numbers) and, in the second
one, after another module has been generated by the same process.  The two outputs must be the same text."""
import difflib
import pyai, uni


def outputs(c, f):
    f(c)
    u = c.unit
    return u.text, {k: v for k, v in (u.sections or {}).items()}, list(u.rejected)


class Twice(uni.Scenario):
    def __init__(self, inner, prelude=False):
        super().__init__(inner.name, self.both, inner.max_paths)
        self.inner, self.prelude = inner, prelude
        self.strength = getattr(inner, 'strength', None)

    def label(self, k, i):
        return self.inner.label(k, i)

    def both(self, c):
        def other():
            pyai.set_world(1)
            try:
                if self.prelude:
                    prelude(c)
                return outputs(c, self.inner.build)
            except uni.Rejected:
                return None, {}, list(c.unit.rejected)
            except Exception as e:
                if type(e).__name__ in uni.CORE_EXC:
                    return None, {}, [('configure', type(e).__name__, str(e))]
                return None, {}, [('error', type(e).__name__, '')]
        c.meta['other'] = uni._fork_call(other)
        self.inner.build(c)


def prelude(c):
    """another module, generated before"""
    import features
    M = c.M
    u = c.unit
    keep = u.meta
    m = M.Module('pMod')
    m.add_include('"p.h"')
    x = m.add_class('pCls', allow_subclassing=True)
    x.add_constructor([])
    x.add_constructor([M.param('int', 'a')])
    x.add_method('pVirt', M.retval('int'), [M.param('int', 'a')], is_virtual=True)
    x.add_copy_constructor()
    x.add_method('pOver', None, [])
    x.add_method('pOver', None, [M.param('std::string', 's')])
    x.add_instance_attribute('pAttr', M.retval('int'))
    x.add_binary_comparison_operator('==')
    e = m.add_exception('pErr')
    m.add_enum('pEnum', ['pA', 'pB'])
    m.add_function('pFn', M.retval('pCls'), [M.param('pCls&', 'x')], throw=[e])
    m.add_container('std::list<pCls>', M.retval('pCls'), 'list')
    s = m.add_cpp_namespace('pNs')
    s.add_function('pFn2', M.retval('std::list<pCls>'), [])
    c.generate(m)
    u.text = None


def check(u):
    text, sections, rejected = u.meta['other']
    out = []
    if (text is None) != (u.text is None):
        return [('outcome', 'output only in one of two runs', str(u.rejected) + ' / ' + str(rejected), 0)]
    if text is None:
        return []
    for name, a, b in [('', u.text, text)] + [(k, v, sections.get(k, '')) for k, v in (u.sections or {}).items()]:
        if a != b:
            la, lb = a.split('\n'), b.split('\n')
            i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            out.append(('order' if sorted(la) == sorted(lb) else 'text', 'output differs between two runs',
                        '%r / %r' % (la[i][:120] if i < len(la) else '', lb[i][:120] if i < len(lb) else ''), i + 1))
    return out
