"""Registry of decided properties."""
import re
import analyses, binding, features, scen, surface, uni

_P = {}


class Prop:
    def __init__(self, pid, title, scenarios=None, analyze=None, static=None, minimum=None, rules=(), explain='', level='other',
                 assumptions=()):
        self.id, self.title, self.scenarios, self.analyze, self.static = pid, title, scenarios, analyze, static
        self._min = minimum or {}
        self.rules, self.explain, self.level, self.assumptions = rules, explain, level, assumptions
        _P[pid] = self

    def minimum(self, tier):
        return self._min


def get(pid):
    return _P[pid]


BASE_ASSUMPTIONS = (
    'user identifiers are opaque names that do not collide with names the generator makes up',
    'the abstract interpreter implements the Python constructs the generator uses',
    'the CPython C API behaves as its reference documentation says (new/borrowed/stolen references, format units)')


def units(fn):
    """analysis of units that were emitted completely (units that were not are the business of the documented-errors rule)"""
    def an(u):
        if u.abort:
            return {'findings': [], 'counts': {}, 'problems': ['%s: %s' % (u.scenario, u.abort)]}
        if u.text is None:
            return {'findings': [], 'counts': {'partitions_without_output': 1}}
        return fn(u)
    return an


def scope_an(u):
    fs, n = [], 0
    nf = 0
    for cfg, _ in analyses.CONFIGS:
        a, k = analyses.scope_findings(u, cfg, features.UserNames(u.meta.get('variants', ())))
        fs += a
        n += k
        p = analyses.parsed(u, cfg)
        nf += len(getattr(p, 'funcs', ()))
    return {'findings': fs, 'counts': {'functions': nf, 'obligations': n, 'units': 1}, 'samples': [u.scenario + ': ' + u.desc()]}


def flow_an(groups, drop=None, only=None):
    def an(u):
        fs, nf, nt = [], 0, 0
        for cfg, _ in analyses.CONFIGS:
            a, b, c = analyses.flow_findings(u, cfg, groups, skip=only)
            fs += [x for x in a if not (drop and drop(x))]
            nf += b
            nt += c
        return {'findings': fs, 'counts': {'functions': nf, 'obligations': nt, 'units': 1}, 'samples': [u.scenario + ': ' + u.desc()]}
    return an


def handler_scn(kinds=('fn', 'virt', 'attr')):
    def f(I, tier):
        return scen.handler_bundles(I, tier, kinds)
    return f


def all_scn(I, tier):
    return scen.handler_bundles(I, tier) + features.families(tier)


def feat_scn(*only):
    def f(I, tier):
        return features.families(tier, only or None)
    return f


def is_init(fn):
    return bool(re.match(r'(PyInit_|init|initmm|.*_init_submodule|MOD_INIT)', fn or ''))



def unblocked(c):
    c.mod('pybindgen.settings').unblock_threads = True


def gil_scn(I, tier):
    return scen.handler_bundles(I, tier, ('fn', 'virt'), pre=unblocked) + features.families(tier, (
        'class-flags', 'ctor-overloads', 'throw', 'deprecated', 'virtuals', 'multi-param', 'globals', 'methods', 'overloads', 'call-op'))


Prop('P01', 'Emitted source is well-formed and every name is declared once before use',
     scenarios=all_scn, analyze=units(scope_an), minimum={'functions': 4000, 'obligations': 40000},
     rules=('malformed', 'undeclared', 'redeclared'), assumptions=BASE_ASSUMPTIONS,
     explain='abstract interpretation of the generator over a finite option space; name resolution over each emitted template')
Prop('P02', 'Every exit path of a wrapper balances the Python references it owns',
     scenarios=all_scn, analyze=units(flow_an(('own',))),
     minimum={'functions': 4000, 'obligations': 40000}, rules=analyses.FLOW_RULES['own'], assumptions=BASE_ASSUMPTIONS,
     explain='path-sensitive typestate of owned references over each emitted function')

Prop('P04', 'Argument formats match their variables and values are initialised before use',
     scenarios=all_scn, analyze=units(flow_an(('fmt', 'init'))),
     minimum={'functions': 4000, 'obligations': 40000}, rules=analyses.FLOW_RULES['fmt'] + analyses.FLOW_RULES['init'],
     assumptions=BASE_ASSUMPTIONS,
     explain='path-sensitive definite-initialisation and format/argument agreement over each emitted function')
Prop('P09', 'The interpreter lock is paired and no Python API is used without it',
     scenarios=gil_scn, analyze=units(flow_an(('gil',))),
     minimum={'functions': 2000, 'obligations': 20000}, rules=analyses.FLOW_RULES['gil'], assumptions=BASE_ASSUMPTIONS,
     explain='path-sensitive typestate of the interpreter lock over each emitted function')


def routing_an(defaults):
    def an(u):
        fs, nf, no = [], 0, 0
        for cfg, _ in analyses.CONFIGS[:1]:
            a, b, c = analyses.routing_findings(u, cfg, defaults)
            fs += a
            nf += b
            no += c
        return {'findings': fs, 'counts': {'functions': nf, 'obligations': no, 'units': 1}, 'samples': [u.scenario + ': ' + u.desc()]}
    return an


def routing_scn(kinds, *fams):
    def f(I, tier):
        return scen.handler_bundles(I, tier, kinds) + scen.sandwich_bundles(I, tier, kinds) + features.families(tier, fams)
    return f


Prop('P06', 'Arguments, outputs and results go where the declaration says, in order',
     scenarios=routing_scn(('fn', 'virt'), 'multi-param'), analyze=units(routing_an(False)),
     minimum={'functions': 3000, 'obligations': 6000}, rules=('routing',), assumptions=BASE_ASSUMPTIONS,
     explain='def-use slices of the wrapped call\'s arguments and of the built results, compared with the declared parameter list')
Prop('P07', 'An omitted optional argument makes the wrapped call use its default value',
     scenarios=routing_scn(('fn',), 'multi-param'), analyze=units(routing_an(True)),
     minimum={'functions': 2000, 'obligations': 2000}, rules=('default',), assumptions=BASE_ASSUMPTIONS,
     explain='def-use slices: the default expression reaches the wrapped call exactly where the optional unit left the variable unset')


def one_cfg(fn, ncfg=2):
    """wrap an analysis(u, cfg) -> (findings, functions, obligations)"""
    def an(u):
        fs, nf, no = [], 0, 0
        for cfg, _ in analyses.CONFIGS[:ncfg]:
            a, b, c = fn(u, cfg)
            fs += a
            nf += b
            no += c
        return {'findings': fs, 'counts': {'functions': nf, 'obligations': no, 'units': 1}, 'samples': [u.scenario + ': ' + u.desc()]}
    return an


Prop('P05', 'Integers from Python are passed on unchanged or refused, never wrapped',
     scenarios=routing_scn(('fn', 'virt', 'attr'), 'containers', 'attributes', 'globals'), analyze=units(one_cfg(analyses.range_findings, 1)),
     minimum={'functions': 3000, 'obligations': 400}, rules=('range',), assumptions=BASE_ASSUMPTIONS,
     explain='interval analysis of the integers a format unit stores, along each path to the C++ type that receives them')


Prop('P24', 'A wrapper reports failure exactly when a Python exception is set',
     scenarios=all_scn, analyze=units(flow_an(('err',))),
     minimum={'functions': 4000, 'obligations': 40000}, rules=analyses.FLOW_RULES['err'], assumptions=BASE_ASSUMPTIONS,
     explain='path-sensitive typestate of the Python error indicator over each emitted function')


def binding_an(topics, layout=False, check=None):
    def fn(u, cfg):
        S = surface.Surface(analyses.parsed(u, cfg), cfg)
        if u.rejected and u.meta.get('skipped') is None:
            return [], 0, 0
        P, n = (check or binding.check)(u, S)
        if layout:
            P2, n2 = surface.layout_problems(S)
            P = P + [('layout', x[1], x[2], '', x[0]) for x in P2]
            n += n2
        out = []
        for topic, func, what, msg, line in P:
            if topic not in topics:
                continue
            out.append(analyses.finding(u, 'surface-' + topic, analyses.where(u, S.p.lines, line) if line else 'pybindgen', func, what, msg, cfg,
                                        None, line, S.p.line(line)))
        return out, len(S.funcs), n
    return one_cfg(fn)


SURFACE = ('module', 'submodule', 'function', 'doc', 'method', 'class', 'ctor', 'enum', 'exception', 'container', 'layout')
Prop('P16', 'Everything declared is exposed to Python once, under its name, and reaches the declared C++ entity',
     scenarios=lambda I, tier: features.families(tier), analyze=units(binding_an(SURFACE, True)),
     minimum={'functions': 8000, 'obligations': 60000}, rules=('surface',), assumptions=BASE_ASSUMPTIONS,
     explain='the declared entities (recorded from the configuration\'s calls of the public API) against the method, getset and type tables and '
             'the initialisation code of the emitted unit; call-graph reachability from each table entry to the declared C++ entity')
Prop('P17', 'Operators and special methods evaluate the declared C++ operation on the right operands',
     scenarios=feat_scn('operators', 'sequence', 'call-op', 'globals', 'fn-as-method', 'class-flags', 'containers', 'container-traits'),
     analyze=units(binding_an(('operator',))),
     minimum={'functions': 1000, 'obligations': 10000}, rules=('surface-operator',), assumptions=BASE_ASSUMPTIONS,
     explain='the slots of each type against the declared operators; operand provenance and guard analysis of each alternative')
Prop('P21', 'Attributes read and write the declared member, and only when declared writable',
     scenarios=feat_scn('attributes', 'class-shape', 'globals', 'class-flags', 'modules', 'submodules'),
     analyze=units(binding_an(('attribute',))),
     minimum={'functions': 2000, 'obligations': 10000}, rules=('surface-attribute',), assumptions=BASE_ASSUMPTIONS,
     explain='getset tables against the declared attributes; provenance of what accessors read and store')


def obj_an(u, cfg):
    import objflow
    return objflow.findings(u, cfg)


Prop('P12', 'Every C++ object is released or handed over exactly once, and every wrapper is complete',
     scenarios=all_scn, analyze=units(one_cfg(obj_an, 1)),
     minimum={'functions': 25000, 'obligations': 50000}, rules=('pointer-kind', 'incomplete', 'wrong-class', 'alloc-gc', 'type-gc', 'cpp-leak', 'cpp-over',
                                                                'dangling', 'dealloc'),
     assumptions=BASE_ASSUMPTIONS + ('ownership options that contradict each other (e.g. caller_owns_return with reference_existing_object) are skipped',),
     explain='path-sensitive ledger of the shares of each C++ object a function holds (new, delete, reference counting, wrapper flags, ownership options) '
             'and of the fields of each wrapper it creates')


def temp_an(u, cfg):
    import temps
    return temps.findings(u, cfg)


Prop('P22', 'Strings and buffers of a call are freed exactly once',
     scenarios=all_scn, analyze=units(one_cfg(temp_an, 1)),
     minimum={'functions': 25000, 'obligations': 50000}, rules=('memory-leak', 'memory-over', 'use-freed'), assumptions=BASE_ASSUMPTIONS,
     explain='path-sensitive ledger of the memory that emitted code allocates or takes over besides wrapped objects')


def contain_an(u, cfg):
    import contain
    return contain.findings(u, cfg)


Prop('P25', 'Containers: every element, in order, both ways',
     scenarios=lambda I, tier: features.families(tier, ('containers', 'container-traits')), analyze=units(one_cfg(contain_an, 1)),
     minimum={'functions': 500, 'obligations': 1500}, rules=('keeps-items', 'item-lost', 'item-order', 'bad-item', 'not-converted', 'iter-order',
                                                            'iter-item', 'iter-start'), assumptions=BASE_ASSUMPTIONS,
     explain='induction over the loop of each emitted list converter, and order of copy, end test, increment and read in each iterator')


def ward_an(u, cfg):
    import wards
    return wards.findings(u, cfg)


def ward_units(u):
    import wards
    r = units(one_cfg(ward_an, 1))(u)
    if not u.abort:
        r['findings'] = r['findings'] + wards.refused(u)
    return r


Prop('P14', 'Custodians keep their wards alive',
     scenarios=lambda I, tier: features.families(tier, ('custodian', 'custodian-params')), analyze=ward_units,
     minimum={'functions': 60, 'obligations': 100}, rules=('ward', 'ward-null', 'ward-time', 'ward-extra', 'ward-refused'), assumptions=BASE_ASSUMPTIONS,
     explain='on every successful path of a wrapper with a custodian/ward policy: the list stored in the custodian holds the ward itself')


def mapped(c):
    features.use_registry(c, 'map')


def registry_scn(I, tier):
    return [x for x in scen.handler_bundles(I, tier, pre=mapped) if not x.name.startswith(('builtin', 'Sp', 'Bsp'))] + features.families(tier, (
        'class-shape', 'virtuals', 'custodian'))


def registry_an(u, cfg):
    fs, nf, no = obj_an(u, cfg)
    return [f for f in fs if f['rule'] == 'registry'], nf, no


Prop('P26', 'The wrapper registry maps exactly the C++ objects that have a live wrapper',
     scenarios=registry_scn, analyze=units(one_cfg(registry_an, 1)),
     minimum={'functions': 5000, 'obligations': 15000}, rules=('registry',), assumptions=BASE_ASSUMPTIONS,
     explain='path-sensitive: each wrapper created for an object is entered under that object, and a wrapper that gives up its object looks up and '
             'erases the entry of that object first')


def throws_check(u, S):
    import throws
    return throws.check(u, S)


Prop('P13', 'A declared C++ exception becomes its Python exception at every call',
     scenarios=lambda I, tier: features.families(tier), analyze=units(binding_an(('throw',), check=throws_check)),
     minimum={'functions': 8000, 'obligations': 10000}, rules=('surface-throw',), assumptions=BASE_ASSUMPTIONS,
     explain='each call site of a declared entity against the try block that encloses it: the handlers are the declared exceptions, each sets the '
             'Python exception (and message) of that declaration and leaves with the error value')


def overload_check(u, S):
    import overloads
    return overloads.check(u, S)


Prop('P08', 'An overloaded call runs the first declared overload that accepts the arguments, and only that one',
     scenarios=lambda I, tier: features.families(tier), analyze=units(binding_an(('overload',), check=overload_check)),
     minimum={'functions': 8000, 'obligations': 5000}, rules=('surface-overload',), assumptions=BASE_ASSUMPTIONS,
     explain='dispatchers: order and completeness of the overloads tried against the declarations, path-sensitive typestate of the delegates\' outcomes; '
             'delegates: an error is handed back exactly on the paths that fail before the declared C++ entity is called')


def virtual_check(u, S):
    import proxies
    return proxies.check(u, S)


Prop('P15', 'Python subclasses override the declared virtual methods, and reach the implementations of their parents',
     scenarios=lambda I, tier: features.families(tier), analyze=units(binding_an(('virtual',), check=virtual_check)),
     minimum={'functions': 8000, 'obligations': 2000}, rules=('surface-virtual',), assumptions=BASE_ASSUMPTIONS,
     explain='each helper class against the declared virtual methods (its own and inherited): proxies by path-sensitive typestate of lookup, override check, '
             'installed object, Python call and parent call; wrappers of virtual methods: no unguarded virtual dispatch on a proxied object')


def skip_an(u):
    import skips
    if u.abort:
        return {'findings': [], 'counts': {}, 'problems': ['%s: %s' % (u.scenario, u.abort)]}
    out = []
    for topic, what, kind, func, msg in skips.check(u):
        w = analyses.where(u, u.text.split('\n'), next((i for i, l in enumerate(u.text.split('\n')) if msg and ' '.join(l.split()) == msg), 0) + 1) \
            if u.text and msg else 'pybindgen'
        out.append(analyses.finding(u, 'skip', w, kind, what, msg, 'py3'))
    return {'findings': out, 'counts': {'units': 1, 'obligations': 1, 'compared': int(u.text is not None)},
            'samples': [u.scenario + ': ' + u.desc()]}


Prop('P10', 'A declaration that cannot be wrapped is reported, skipped on request, and affects nothing else',
     scenarios=lambda I, tier: features.skip_scn(tier), analyze=skip_an,
     minimum={'units': 300, 'compared': 200}, rules=('skip',), assumptions=BASE_ASSUMPTIONS,
     explain='emitted unit with a failing declaration against the unit without it, for each kind of failing declaration, position and error handler')


def lint_static(I, tier):
    import lint
    l = lint.run(uni.REPO)
    fs = [{'rule': 'internal-name', 'where': '%s:%d (%s)' % (x['file'], x['line'], x['func'] or 'module'), 'func': x['func'] or x['file'], 'what': x['what'],
           'msg': x['msg'], 'config': '-', 'variant': None, 'scenario': 'source', 'decisions': '-', 'line': x['line'], 'ctext': ''} for x in l.out]
    return {'findings': fs, 'counts': {'modules': len(l.mods), 'source_obligations': l.n}}


def error_an(u):
    if u.abort:
        return {'findings': [], 'counts': {}, 'problems': ['%s: %s' % (u.scenario, u.abort)]}
    out = []

    def add(err, loc, variant=None):
        out.append(analyses.finding(u, 'internal-error', loc or 'pybindgen', str(loc or '').partition('(')[2].rstrip(')') or 'pybindgen',
                                    'declaration ends in an internal error', err, 'py3', variant))
    if u.error:
        add(u.error, u.error_loc)
    for tag, err, loc in u.meta.get('broken') or ():
        add(err, loc)
    n = len(u.meta.get('variants') or ()) or 1
    return {'findings': out, 'counts': {'units': 1, 'obligations': n}, 'samples': [u.scenario + ': ' + u.desc()]}


Prop('P20', 'A declaration is wrapped or refused with a documented error, never with an internal one',
     scenarios=lambda I, tier: all_scn(I, tier) + features.skip_scn(tier), analyze=error_an, static=lint_static,
     minimum={'units': 2000, 'source_obligations': 8000, 'modules': 25}, rules=('internal-error', 'internal-name'), assumptions=BASE_ASSUMPTIONS,
     explain='abstract interpretation of the generator on every declaration family: each path ends in output or a documented exception; syntax-tree rules '
             'over all modules: undefined names, missing attributes and imports, calls that do not fit their function, format strings that do not fit')


def world_an(u):
    import worlds
    if u.abort:
        return {'findings': [], 'counts': {}, 'problems': ['%s: %s' % (u.scenario, u.abort)]}
    out = []
    if not u.error:
        for kind, what, msg, line in worlds.check(u):
            w = analyses.where(u, u.text.split('\n'), line) if line and u.text else 'pybindgen'
            out.append(analyses.finding(u, 'nondeterminism', w, str(w), what, msg, 'py3', None, line))
    return {'findings': out, 'counts': {'units': 1, 'obligations': 1, 'compared': int(u.text is not None)}, 'samples': [u.scenario + ': ' + u.desc()]}


def world_scn(I, tier):
    import worlds
    return [worlds.Twice(s, prelude=True) for s in features.families(tier)]


Prop('P23', 'The generated code depends on the declarations only: equal scripts give equal output',
     scenarios=world_scn, analyze=world_an,
     minimum={'units': 1500, 'compared': 1400}, rules=('nondeterminism',), assumptions=BASE_ASSUMPTIONS,
     explain='two derivations of each unit in abstract worlds that differ in set order, identities, hashes, clock, host, user, directory, random numbers '
             'and previously generated modules')


def shared_an(u, cfg):
    import shared
    return shared.findings(u, cfg)


Prop('P18', 'A class imported from another module is that module\'s class',
     scenarios=lambda I, tier: features.families(tier, ('shared',)), analyze=units(one_cfg(shared_an, 2)),
     minimum={'functions': 500, 'obligations': 500}, rules=('shared',), assumptions=BASE_ASSUMPTIONS,
     explain='the names and variables the initialisation of the defining module publishes against those the importing module takes, per C++ class')


def narrow_an(u, cfg):
    import shared
    return shared.narrow_findings(u, cfg)


Prop('P27', 'With automatic type narrowing, an object comes out as the Python class of its dynamic C++ type',
     scenarios=lambda I, tier: features.families(tier, ('narrowing', 'shared', 'class-shape')), analyze=units(one_cfg(narrow_an, 2)),
     minimum={'functions': 500, 'obligations': 500}, rules=('narrow',), assumptions=BASE_ASSUMPTIONS,
     explain='every class of a narrowing tree is registered once, under its own type, in the map of the root; each wrapper of an owned object is '
             'allocated with the type looked up for that object, never for a copy of it')
