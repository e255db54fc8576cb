CONF = ['configurations', 'inputs']
NOTE = ('Sound over the option space enumerated (every parameter/return handler x direction x option, and the feature families listed in '
        'DESIGN.md, pairwise in quick and 3-wise in thorough); assumes the interpreter models the Python constructs used, that user names do '
        'not collide with generated ones, and CPython\'s documented reference/format semantics. User C++ headers are not seen.')

prop('P01', 'Generated source is well-formed and every name in it is declared',
     'Whenever generation of a module succeeds, the emitted C++ source is syntactically well-formed (balanced blocks, directives and literals), '
     'for Python 2 and for Python 3. Every identifier it uses is a name supplied by the user, a Python/C library name, or something the emitted '
     'source itself declares before that use and declares once per scope: variables, wrapper functions, type objects, tables, converters.',
     CONF, 'all module definitions: every combination of parameter and return types, directions, defaults, ownership options, overloads, '
     'inheritance, nesting, containers, exceptions, memory policies, sections and custom wrappers',
     'The tests compile four fixed modules with one Python version; a name that is only used in an untested combination of options (a second '
     'parameter of one kind, a skipped overload, a Python 2 branch) is never compiled.',
     ['pybindgen/typehandlers/base.py', 'pybindgen/typehandlers/*.py', 'pybindgen/cppclass.py', 'pybindgen/cppmethod.py', 'pybindgen/function.py',
      'pybindgen/overloading.py', 'pybindgen/container.py', 'pybindgen/module.py', 'pybindgen/pytypeobject.py'],
     [('unique local names', 'pybindgen/typehandlers/base.py DeclarationsScope'), ('forward declarations and headers', 'pybindgen/module.py'),
      ('type object templates', 'pybindgen/pytypeobject.py')], ['the text written to the code sink'], TECH + ' (scoping and name resolution)', NOTE)

prop('P02', 'Every path through a wrapper balances the Python references it holds',
     'On every path through a generated wrapper, converter, slot function or virtual-method proxy, including every error return and every '
     'overload that is tried and refused, each Python reference the code acquires is released, handed over or returned exactly once. It never '
     'releases or hands over a reference it does not own, and never uses an object after giving up its last reference to it.',
     ['configurations', 'inputs', 'fault_sequences'],
     'all module definitions and, for each, all paths of the emitted functions: any argument may fail to convert, any Python API call may fail',
     'The tests do not count references, run few error paths, and cannot make each API call fail in turn.',
     ['pybindgen/typehandlers/base.py', 'pybindgen/cppclass.py', 'pybindgen/container.py', 'pybindgen/cppmethod.py', 'pybindgen/cppattribute.py',
      'pybindgen/overloading.py', 'pybindgen/pytypeobject.py', 'pybindgen/typehandlers/smart_ptr.py', 'pybindgen/typehandlers/pyobjecttype.py'],
     [('cleanup actions', 'pybindgen/typehandlers/base.py CodeBlock'), ('"N" units that hand over a reference, with cancelled cleanups',
       'pybindgen/typehandlers/base.py BuildValueParameters'), ('freeing of refused overloads\' exceptions', 'pybindgen/overloading.py')],
     ['reference counts of arguments, results and exceptions around a wrapper call'], TECH + ' (ownership typestate)', NOTE)

prop('P04', 'Argument formats match their variables, and values are set before they are used',
     'In every generated call that parses Python arguments or builds Python values from a format string, the units agree one for one with the '
     'arguments passed, in number, order, pointer-ness and C type. Every local variable the emitted code reads has been given a value on every '
     'path to that read, including omitted optional arguments and error paths.',
     CONF, 'all module definitions and all paths of the emitted functions',
     'A wrong unit or an unset variable often still works for the small values the tests pass on one platform; the error and omitted-argument '
     'paths of most type handlers are never run.',
     ['pybindgen/typehandlers/base.py', 'pybindgen/typehandlers/*.py', 'pybindgen/cppclass.py', 'pybindgen/container.py', 'pybindgen/pytypeobject.py'],
     [('parse and build parameter lists', 'pybindgen/typehandlers/base.py ParseTupleParameters, BuildValueParameters'),
      ('type handlers', 'pybindgen/typehandlers/inttype.py and siblings')], ['arguments received by the C++ function', 'value returned to Python'],
     TECH + ' (format/argument agreement, definite initialisation)', NOTE)

prop('P09', 'The interpreter lock is paired and no Python API is used without it',
     'When a wrapper releases the interpreter lock around a C++ call it takes it back exactly once on every path, including thrown C++ exceptions, '
     'before it touches any Python object. A virtual-method proxy takes the lock before it uses Python and gives it back on every way out.',
     ['configurations', 'schedules', 'fault_sequences'],
     'all module definitions with thread unblocking enabled globally or per wrapper, all virtual methods, all paths and exceptions',
     'The tests are single-threaded: a wrapper that keeps, loses or works without the lock passes them.',
     ['pybindgen/typehandlers/base.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py', 'pybindgen/cppexception.py', 'pybindgen/settings.py'],
     [('release/restore code', 'pybindgen/typehandlers/base.py ForwardWrapperBase.generate_body'),
      ('lock state of proxies', 'pybindgen/typehandlers/base.py ReverseWrapperBase')], ['the thread state around C++ calls'],
     TECH + ' (lock typestate)', NOTE)

prop('P12', 'Every C++ object is released or handed over exactly once, and every wrapper is complete',
     'For the ownership options declared, each C++ object reaches exactly one end: an object whose ownership passes to Python is released once, when its '
     'wrapper dies, through the class\'s memory policy (delete, free function, unreference or smart pointer); one that is only referenced is never released; '
     'one passed on with transfer_ownership is no longer released by Python; references taken on counted objects are matched. This holds on every path, error '
     'returns included. A wrapper that becomes visible to Python has all its fields set, and is allocated, traversed, cleared and freed as its type requires.',
     ['configurations', 'inputs', 'fault_sequences'],
     'all classes under every memory policy, all pointer, reference and value parameters, results, attributes and virtual methods with every consistent '
     'combination of ownership options, all paths of the emitted functions (contradictory option combinations excepted)',
     'The tests count objects for a few methods of a few classes and never make the calls fail; most combinations of policy, option and direction are not run.',
     ['pybindgen/cppclass.py', 'pybindgen/cppmethod.py', 'pybindgen/typehandlers/smart_ptr.py', 'pybindgen/container.py', 'pybindgen/cppattribute.py',
      'pybindgen/pytypeobject.py'],
     [('memory policies', 'pybindgen/cppclass.py MemoryPolicy and subclasses'), ('results and parameters that hold objects',
       'pybindgen/cppclass.py common_shared_object_return, CppClassPtrParameter, CppClassRefParameter'),
      ('destruction', 'pybindgen/cppclass.py CppClass._generate_destructor, _generate_gc_methods')],
     ['constructor, destructor and reference-count calls on the C++ objects'], TECH + ' (object ownership ledger)', NOTE)

prop('P26', 'The wrapper registry maps exactly the C++ objects that have a live wrapper',
     'With the map wrapper registry, a C++ object handed to Python again is given its existing wrapper: every wrapper created for an object obtained from '
     'C++ is entered in the registry under that object before Python sees it, lookups use the same key, and the entry is removed before the wrapper gives '
     'up the object (on destruction, garbage collection or transfer of ownership), so that no entry refers to a dead wrapper.',
     ['configurations', 'histories'],
     'all classes without smart pointers, single and multiple inheritance, all results, parameters, attributes and virtual methods that wrap objects, '
     'with the map registry (objects constructed from Python are entered only when C++ first hands them out)',
     'The tests use the registry for one class and never collect a wrapper while C++ still holds its object.',
     ['pybindgen/wrapper_registry.py', 'pybindgen/cppclass.py', 'pybindgen/cppmethod.py'],
     [('the map registry', 'pybindgen/wrapper_registry.py StdMapWrapperRegistry'), ('destruction', 'pybindgen/cppclass.py CppClass._generate_destructor, '
       '_generate_gc_methods'), ('transfer', 'pybindgen/cppclass.py CppClassPtrParameter')],
     ['identity of the Python objects returned for one C++ object'], TECH + ' (registry typestate)', NOTE)

prop('P18', 'A class imported from another module is that module\'s class',
     'Modules that share types agree on how: what a generated module publishes at import (type objects, type maps, wrapper registries) is exactly what a '
     'module generated to import the class takes, under the same module and attribute names, into the variable that stands for the same C++ class; the '
     'importing module uses that type wherever the class appears, never defines its own, and the layout of the wrapper structure is the same in both.',
     ['configurations'],
     'classes with and without namespaces, custom and renamed, smart pointers, narrowing, both registries, imported by module name and by "module named '
     'submodule", used as argument, result, parent and element',
     'The tests import classes between two fixed modules in one layout.',
     ['pybindgen/cppclass.py', 'pybindgen/module.py', 'pybindgen/wrapper_registry.py'],
     [('imports', 'pybindgen/cppclass.py CppClass.generate_forward_declarations, _generate_import_from_module'), ('module', 'pybindgen/module.py')],
     ['type identity across modules'], TECH + ' (published and imported names of two derivations compared)', NOTE)

prop('P27', 'With automatic type narrowing, an object comes out as the Python class of its dynamic C++ type',
     'When automatic_type_narrowing is in force for a class (by argument, by inheritance or by setting), each class of the tree is entered once, with its '
     'own Python type, in the type map of the root of the tree; every wrapper made for an existing object of such a class is allocated with the type found '
     'for the dynamic type of that very object, or the declared class when none is registered; copies, and classes without narrowing, are '
     'wrapped by their declared type.',
     ['configurations', 'types'],
     'trees of up to four classes in and out of namespaces, narrowing from the root, the middle or the settings and switched off below, all memory policies, '
     'results, attributes and virtual methods, shared classes, complete and incomplete RTTI',
     'The tests narrow one Zoo/Animal tree with one factory.',
     ['pybindgen/cppclass.py', 'pybindgen/typehandlers/smart_ptr.py'],
     [('map', 'pybindgen/cppclass.py CppClass._generate_typeid_map, _register_typeid, get_type_narrowing_root'),
      ('wrapping', 'pybindgen/cppclass.py common_shared_object_return, CppClassPtrReturnValue; pybindgen/typehandlers/smart_ptr.py')],
     ['type of the Python object for a base pointer'], TECH + ' (per-class registration and allocation facts, provenance inside the map)', NOTE)

prop('P06', 'Arguments, outputs and results go where the declaration says, in order',
     'A generated wrapper hands each Python argument, by position and by its declared keyword name, to the C++ parameter it was declared for, in '
     'declaration order. It returns the C++ result first, then each output and input/output parameter in declaration order, and nothing else (None '
     'when there is nothing). Class references declared input/output are modified in place and not returned. A virtual-method proxy does the reverse: '
     'Python receives the input parameters in order, and the result and outputs it returns reach the C++ result and parameters in the same order.',
     CONF, 'all functions, methods, constructors, static, template, namespaced and overloaded wrappers and virtual methods, any list of parameter types, '
     'directions, defaults and results (output class pointers and output parameters passed by value, which have no documented meaning, excepted)',
     'The tests call a few signatures; a swapped, dropped or duplicated value in a longer list with mixed directions, or a handler combination the tests '
     'never use, passes.',
     ['pybindgen/typehandlers/base.py', 'pybindgen/typehandlers/*.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py', 'pybindgen/cppclass.py',
      'pybindgen/container.py'],
     [('parse and build parameter lists', 'pybindgen/typehandlers/base.py ParseTupleParameters, BuildValueParameters'),
      ('call arguments', 'pybindgen/typehandlers/base.py ForwardWrapperBase.generate_body'), ('result first', 'add_parameter(prepend=True)')],
     ['arguments received by the C++ function', 'tuple returned to Python'], TECH + ' (value-flow slices)', NOTE)

prop('P07', 'An omitted optional argument makes the wrapped call use its default value',
     'When a parameter has a default value, callers may omit it, and every parameter without a default stays required. If the argument is omitted, the '
     'wrapped call receives the value of the default expression as written; if it is given, it receives the argument and not the default.',
     CONF, 'all wrappers whose parameters take a default value: numbers and booleans by value and by reference, strings, objects, enumerations, class values, '
     'const references and pointers (pointers to plain numbers, arrays and in-place class references take no default)',
     'The tests omit arguments of a handful of types; a type handler that ignores, replaces or always uses the default passes them.',
     ['pybindgen/typehandlers/base.py', 'pybindgen/typehandlers/*.py', 'pybindgen/cppclass.py', 'pybindgen/enum.py', 'pybindgen/typehandlers/smart_ptr.py'],
     [('optional units', 'pybindgen/typehandlers/base.py ParseTupleParameters.add_parameter(optional=)'), ('default expressions', 'Parameter.default_value')],
     ['arguments received by the C++ function when some are omitted'], TECH + ' (value-flow slices)', NOTE)

prop('P05', 'Integers from Python are passed on unchanged or refused, never wrapped',
     'A Python integer that a wrapper converts for a signed C++ integer type, or for any 8- or 16-bit type, reaches C++ (argument, attribute, global, '
     'container element, output or result of a virtual method) with the same value when the type can represent it, and is refused with an exception '
     'otherwise (a virtual method that is given a value out of range reports it). It is never silently wrapped or truncated, and no representable value '
     'is refused. (32- and 64-bit unsigned types wrap, as the format units they use are documented to do.)',
     CONF, 'all integers Python can pass, for every integer type handler in every direction and position',
     'The tests pass a few small integers; an off-by-one limit, a missing bound or an unchecked unit for one type and direction passes them.',
     ['pybindgen/typehandlers/inttype.py', 'pybindgen/cppattribute.py', 'pybindgen/container.py', 'pybindgen/converter_functions.py', 'pybindgen/module.py'],
     [('range checks', 'pybindgen/typehandlers/inttype.py _parse_checked_int and the checks of Int8Param, UInt16Return and siblings')],
     ['value received by C++', 'ValueError or OverflowError'], TECH + ' (interval analysis)', NOTE)

prop('P24', 'A wrapper reports failure exactly when a Python exception is set',
     'Every generated function that Python calls reports failure (NULL or -1) only on paths where a Python exception is set or handed to the overload '
     'dispatcher, and reports success only on paths where none is. Converters do the same. A virtual-method proxy prints the exception of a failing '
     'override and returns to C++ with none left set.',
     ['configurations', 'inputs', 'fault_sequences'],
     'all module definitions and all paths of the emitted functions: any conversion or Python API call may fail (lack of memory excepted)',
     'A failure without an exception, or an exception left behind by a success, shows only on the error path that does it, often in later unrelated code.',
     ['pybindgen/typehandlers/base.py', 'pybindgen/overloading.py', 'pybindgen/cppmethod.py', 'pybindgen/cppclass.py', 'pybindgen/container.py',
      'pybindgen/pytypeobject.py', 'pybindgen/cppexception.py', 'pybindgen/converter_functions.py'],
     [('error returns', 'pybindgen/typehandlers/base.py CodeBlock.write_error_check'), ('overload errors', 'pybindgen/overloading.py'),
      ('override failures', 'pybindgen/typehandlers/base.py ReverseWrapperBase.generate')],
     ['exceptions seen by the Python caller', 'SystemError from the interpreter'], TECH + ' (error-indicator typestate)', NOTE)

prop('P16', 'Everything declared is exposed to Python once, under its name, and reaches the declared C++ entity',
     'Every function, method, constructor, class, enumeration, exception, container, alias and nested namespace that a module definition adds (and that is '
     'public) is available in Python under its declared or custom name, in the module or class it was added to, exactly once. Its wrapper calls the '
     'declared C++ entity (with its namespace, class and template arguments) and no other; static methods are static, enumerators keep their values, '
     'derived classes have their declared bases, documentation strings arrive. Private members and undeclared names are not exposed. Tables and slots '
     'follow the layout and calling conventions of the Python C API.',
     CONF, 'all module definitions',
     'The tests look up the names of one large module; a registration lost, duplicated, misnamed or bound to another entity for some combination of '
     'nesting, namespaces, visibility, overloading or inheritance passes them.',
     ['pybindgen/module.py', 'pybindgen/cppclass.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py', 'pybindgen/enum.py', 'pybindgen/cppexception.py',
      'pybindgen/container.py', 'pybindgen/overloading.py', 'pybindgen/pytypeobject.py'],
     [('method tables', 'pybindgen/module.py ModuleBase.do_generate, pybindgen/cppclass.py CppClass._generate_methods'),
      ('registration', 'pybindgen/module.py, cppclass.py CppClass.generate, enum.py Enum.generate, cppexception.py, container.py')],
     ['attributes of the module and its types', 'C++ function called'], TECH + ' (declared entities vs emitted tables, call-graph reachability)', NOTE)

prop('P17', 'Operators and special methods evaluate the declared C++ operation on the right operands',
     'For each declared comparison, numeric, in-place, unary or stream operator, and each declared call or sequence method, the matching Python operation '
     'on a wrapped object evaluates that C++ operation with the left operand from the left Python object and the right one from the right, after both '
     'were converted successfully, and returns its converted result or truth value. Operations not declared, and operands of other types, are answered '
     'with NotImplemented or not provided.',
     CONF, 'all sets of declared operators and sequence methods, operand and result classes',
     'The tests use each operator once with operands for which several wrong wirings give the same answer.',
     ['pybindgen/cppclass.py', 'pybindgen/pytypeobject.py', 'pybindgen/converter_functions.py', 'pybindgen/module.py'],
     [('number slots', 'pybindgen/cppclass.py CppClass._generate_number_methods'), ('comparison', 'pybindgen/cppclass.py CppClass._generate_tp_richcompare'),
      ('sequence slots', 'pybindgen/pytypeobject.py PySequenceMethods')],
     ['results of Python operators on wrapped objects'], TECH + ' (slot binding, operand provenance)', NOTE)

prop('P21', 'Attributes read and write the declared member, and only when declared writable',
     'Reading a declared attribute of a wrapped object (or, for static attributes, of its class) yields the declared C++ member or the result of the declared '
     'getter. Assigning stores the converted value in that member or passes it to the declared setter. Attributes declared constant, or with only a getter, '
     'cannot be assigned; deleting one is refused. Each is exposed once under its declared name.',
     CONF, 'all attribute declarations: member, getter, setter, custom, static, constant, renamed, of every supported type',
     'The tests read and write a few attributes; a wrong member, a missing setter or an accepted deletion for another declaration form passes them.',
     ['pybindgen/cppattribute.py', 'pybindgen/cppcustomattribute.py', 'pybindgen/cppclass.py'],
     [('accessors', 'pybindgen/cppattribute.py CppInstanceAttributeGetter, CppInstanceAttributeSetter and static siblings'),
      ('tables', 'pybindgen/cppattribute.py PyGetSetDef')],
     ['attribute access from Python'], TECH + ' (getset binding, value provenance)', NOTE)

prop('P13', 'A declared C++ exception becomes its Python exception at every call',
     'Whenever generated code calls a C++ function, method or constructor that was declared with throw=[...], a C++ exception of each declared type is '
     'caught there and leaves the wrapper as the Python exception declared for it: the one created for the module, or the standard one it names, with the '
     'declared message. This holds for static, virtual, protected and inherited methods, constructors, functions used as methods, and overloads. A C++ '
     'exception is never taken for a mismatch of overloads, and no exception that was not declared is swallowed.',
     CONF + ['fault_sequences'], 'all declarations with throw lists: kinds of entity, several exceptions, parents, standard exceptions, messages, return types',
     'The tests throw from two functions and a method. An entity kind or option combination without a handler ends the process when it throws, '
     'which no test does.',
     ['pybindgen/cppexception.py', 'pybindgen/cppmethod.py', 'pybindgen/function.py', 'pybindgen/module.py', 'pybindgen/overloading.py'],
     [('handlers', 'pybindgen/cppmethod.py CppMethod.generate_call, CppConstructor.generate_body, CppVirtualMethodParentCaller.generate_call; '
                   'pybindgen/function.py Function.generate_call'),
      ('conversion', 'pybindgen/cppexception.py CppException.write_convert_to_python')],
     ['Python exception seen by the caller', 'std::terminate'], TECH + ' (call sites vs enclosing handlers)', NOTE)

prop('P15', 'Python subclasses override the declared virtual methods, and reach the implementations of their parents',
     'For a class that allows subclassing, a Python subclass overrides each declared virtual method, its own or inherited, with the exact name, parameters '
     'and constness of the C++ method. C++ calls of such a method run the Python override while the wrapper holds the called object, which is restored '
     'afterwards; without an override they run the parent implementation once with all arguments. An override that calls its parent method reaches '
     'the C++ implementation and not itself. Protected methods are callable from Python subclasses. The proxy class has every constructor of its class, passes '
     'on the arguments, and proxies made for Python instances know their Python object; instances of the class itself are no proxies.',
     CONF + ['inputs', 'fault_sequences'], 'all classes with declared or inherited virtual methods, any hierarchy, visibility, constness and overload set '
     '(virtual methods exposed under another Python name excepted)',
     'The tests override a few methods of classes that declare their virtual methods themselves. Inherited virtuals, several bases, failing overrides and '
     'calls back to the parent are only right if every generated proxy and wrapper is.',
     ['pybindgen/cppmethod.py', 'pybindgen/cppclass.py', 'pybindgen/typehandlers/base.py'],
     [('proxies', 'pybindgen/cppmethod.py CppVirtualMethodProxy'), ('parent callers', 'pybindgen/cppmethod.py CppVirtualMethodParentCaller, '
       'CppMethod.generate_call'), ('helper classes', 'pybindgen/cppclass.py CppHelperClass, CppClass.get_helper_class, _generate_MI_parent_methods'),
      ('construction', 'pybindgen/cppmethod.py CppConstructor.generate_body')],
     ['which implementation runs, with which arguments'], TECH + ' (proxy typestate, guarded virtual dispatch)', NOTE)

prop('P08', 'An overloaded call runs the first declared overload that accepts the arguments, and only that one',
     'A function, method, static method, constructor or call operator declared several times under one Python name becomes one callable that tries the '
     'declared overloads in declaration order and runs the first that accepts the arguments. An overload that refuses has not called C++; one that fails '
     'before the call for any reason refuses; one that ran decides the outcome, even when it raises. When all refuse, TypeError lists what each one said.',
     CONF + ['inputs', 'fault_sequences'], 'all overload sets, all argument values, every failing conversion',
     'The tests call each overload with arguments only one of them accepts. The order, the refusal of every conversion failure and the errors of an '
     'overload that ran matter only for arguments several of them nearly accept.',
     ['pybindgen/overloading.py', 'pybindgen/typehandlers/base.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py', 'pybindgen/cppclass.py'],
     [('dispatch', 'pybindgen/overloading.py OverloadedWrapper.generate'),
      ('refusal', 'pybindgen/typehandlers/base.py ForwardWrapperBase.set_parse_error_return, generate_body')],
     ['which C++ overload runs, how often, and the exception otherwise'], TECH + ' (dispatcher/delegate typestate)', NOTE)

prop('P10', 'A declaration that cannot be wrapped is reported, skipped on request, and affects nothing else',
     'A declaration that cannot be wrapped (an unknown or unsupported type, direction or option) is reported once to the error handler, with the wrapper '
     'and the exception; without a handler, or when the handler declines it, generation stops with that exception. When the handler accepts it, the '
     'declaration is left out completely (no half-written function, no table entry, no code of its own) and every other declaration is generated exactly as '
     'if the failing one had never been declared.',
     CONF, 'all kinds of failing declarations (functions, methods, constructors, overloads, attributes, virtual methods, enumerations, globals), all '
     'positions among other declarations, handlers that accept and decline (an attribute or virtual method may keep the part that can be wrapped)',
     'The tests never use an error handler. A partial wrapper left behind, a lost neighbour or a changed overload only shows for one kind of '
     'declaration in one position.',
     ['pybindgen/settings.py', 'pybindgen/utils.py', 'pybindgen/cppclass.py', 'pybindgen/module.py', 'pybindgen/cppattribute.py', 'pybindgen/overloading.py',
      'pybindgen/cppmethod.py', 'pybindgen/function.py'],
     [('error handler', 'pybindgen/settings.py ErrorHandler, pybindgen/utils.py call_with_error_handling, SkipWrapper'),
      ('overloads', 'pybindgen/overloading.py OverloadedWrapper.generate'), ('attributes', 'pybindgen/cppattribute.py PyGetSetDef.add_attribute')],
     ['generated source with and without the failing declaration', 'calls of the error handler'], TECH + ' (relational comparison of emitted units)', NOTE)

prop('P20', 'A declaration is wrapped or refused with a documented error, never with an internal one',
     'For every declaration that the documented interface accepts, each step from declaration to generation either succeeds or raises one of the documented '
     'errors (unknown type, not supported, configuration error, code generation error); none ends in an internal error or a failed assertion. And no '
     'branch of the package, rare or not, header scanner included, uses an undefined name, a missing attribute or import, a call that its target cannot '
     'accept, or a bad format string.',
     CONF, 'all declarations of the families covered here, and all code of the package, including branches that no declaration of the families reaches',
     'An internal error lies on the branch of one rare option, message or type; the tests run none of those branches.',
     ['pybindgen/*.py', 'pybindgen/typehandlers/*.py', 'pybindgen/typehandlers/ctypeparser/*.py'],
     [('documented errors', 'pybindgen/typehandlers/base.py CodeGenerationError, NotSupportedError, TypeConfigurationError, TypeLookupError'),
      ('scanner', 'pybindgen/castxmlparser.py')],
     ['exception that leaves the generator'], TECH + ', syntax-tree rules (name resolution, call signatures, formats)', NOTE)

prop('P23', 'The generated code depends on the declarations only: equal scripts give equal output',
     'Running the same module definition again gives the same source, byte for byte: whatever the hash seed, the iteration order of sets, object addresses, '
     'time, host, user, working directory and random numbers, and whatever other modules the process generated before.',
     CONF + ['histories'], 'all module definitions of the families covered here, any pair of runs',
     'The tests generate each module once, in a fresh process.',
     ['pybindgen/*.py', 'pybindgen/typehandlers/*.py'],
     [('ordered tables', 'pybindgen/module.py, pybindgen/cppclass.py'), ('process-wide state', 'pybindgen/typehandlers/base.py matchers, pybindgen/settings.py')],
     ['generated source of two runs'], TECH + ' (two-world noninterference)', NOTE)

prop('P14', 'Custodians keep their wards alive',
     'For every custodian/ward pair that a function, method or constructor declares (with add_custodian_and_ward, custodian= on a parameter or result, or '
     'return_internal_reference), a call that succeeds leaves a reference to the ward object itself in the custodian object, stored before the C++ call or '
     'after it as declared, whatever equal objects are held already, and keeps no other object alive. When one of the two is absent (an omitted or '
     'None argument, a NULL result) nothing is stored; a custodian that cannot hold wards makes the call raise an exception.',
     CONF + ['inputs'], 'all pairs among self, parameters and result, in both orders, precall and postcall, for every kind of wrapper and of parameter',
     'The tests check one object per policy. Which object ends up in which list, on which path, is not seen until C++ uses a freed object.',
     ['pybindgen/cppclass.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py', 'pybindgen/typehandlers/base.py'],
     [('policies', 'pybindgen/cppclass.py scan_custodians_and_wards, _add_ward, _get_custodian_or_ward, implement_parameter_custodians_precall, '
       'implement_parameter_custodians_postcall'), ('declaration', 'add_custodian_and_ward of Function, CppMethod and CppConstructor')],
     ['lifetime of Python wrappers'], TECH + ' (ward-list typestate)', NOTE)

prop('P22', 'Strings and buffers of a call are freed exactly once',
     'The memory that a generated wrapper allocates for a call or takes over with a result, besides wrapped objects, is freed exactly once on every path, '
     'and not read afterwards: buffers that argument parsing allocates for encoded strings, temporary string objects, results declared to be freed after '
     'copying, C strings and string objects that C++ hands over. Memory that C++ keeps (a string passed with transfer of ownership, a borrowed '
     'result) is never freed.',
     CONF + ['inputs', 'fault_sequences'], 'all string and buffer types with all their options, in functions, methods, constructors, virtual methods and '
     'attributes, every path of the wrapper including failures of each step',
     'A leak or double free is not seen by a test that checks the value, and most of the paths need a failing conversion, allocation or callback.',
     ['pybindgen/typehandlers/stringtype.py', 'pybindgen/typehandlers/pyobjecttype.py', 'pybindgen/typehandlers/codesink.py', 'pybindgen/typehandlers/base.py',
      'pybindgen/cppmethod.py', 'pybindgen/cppclass.py'],
     [('strings', 'pybindgen/typehandlers/stringtype.py'), ('cleanups', 'pybindgen/typehandlers/base.py CodeBlock.add_cleanup_code, DeclarationsScope')],
     ['memory of the process'], TECH + ' (path-sensitive allocation ledger)', NOTE)

prop('P25', 'Containers: every element, in order, both ways',
     'A Python list given where a wrapped C++ container is expected becomes a container with exactly its elements, each converted once, in order for '
     'sequences, and key and value in their places for mappings; nothing that the container held before remains, and one element that cannot be converted '
     'makes the conversion fail. A wrapper of the container is copied. Iterating a wrapped container, or a class with container traits, yields every '
     'element from begin to end exactly once (key before value for mappings) and then stops.',
     CONF + ['inputs'], 'all container kinds, key and element types, lists of any length, containers of any size',
     'The tests convert one or two short lists of integers and strings; loss, repetition or reordering of elements depends on lengths, kinds and element '
     'types.',
     ['pybindgen/container.py', 'pybindgen/cppclass_container.py', 'pybindgen/converter_functions.py'],
     [('lists to containers', 'pybindgen/container.py Container._generate_container_constructor'),
      ('iteration', 'pybindgen/container.py IterNextWrapper, _generate_iter_methods; pybindgen/cppclass_container.py')],
     ['elements of containers in Python and C++'], TECH + ' (loop induction, iterator typestate)', NOTE)
