"""The properties, and what decides each of them."""
PROPS, NA = [], []
OP, CP, AP = 'ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/protocols/array_protocol.py'


def prop(id, title, statement, over, forall, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), forall=forall, why=why, files=files,
                      mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note))


PATHS = 'path-sensitive dataflow over the syntax tree: '
NOTE = ('Decided on the sources at every run, for all inputs, on every control-flow path of the functions named by the rules; values '
        'are symbolic terms, loops are unfolded zero and one time, callees are summarised by what the rules say about them. ')

prop('P01', 'Read-only properties can never be assigned',
     'A property that a class, one of its bases or a schema it extends declares read-only cannot be assigned on any object of that '
     'class: attribute and item assignment, dotted paths, aliases and additional (undeclared) names all are refused with an error. '
     'The stored value and the cached evaluated value of the object are exactly what they were before the refused assignment.',
     'inputs programs', 'all classes built from a schema, all names (declared, aliased, additional), all ways of writing',
     'The tests assign one read-only property of one class through one accessor.',
     [OP, CP], [('PropertyDescriptor.__set__, ObjectProtocol.__setitem__/__setattr__', OP), ('ObjectProtocol.build', OP)],
     PATHS + 'guard dominance, who-writes analysis, inheritance slices',
     NOTE + 'The writers of the stored values are enumerated package-wide; what user code does to protected attributes is out of scope.')

prop('P02', 'Required properties can never be deleted',
     'A property that a class, one of its bases or a schema it extends declares required cannot be deleted from an object by any '
     'public way of deleting (attribute, item, alias, additional name): it raises an attribute error and the object keeps the value. '
     'Deleting a property that is not required removes its value, and reaches the deleter of the property if it has one.',
     'inputs programs', 'all classes built from a schema, all names, all ways of deleting',
     'The tests never delete a required property.',
     [OP, CP], [('PropertyDescriptor.__delete__, ObjectProtocol.__delitem__', OP), ('ObjectProtocol.build', OP)],
     PATHS + 'guard dominance, who-writes analysis, inheritance slices', NOTE)

prop('P03', 'A refused write leaves the previous state',
     'When the assignment of a property, of an additional name or of an array item, an insertion, or a deletion is refused because '
     'the value or the resulting collection does not comply with the schema, the error reaches the caller and the object or array '
     'holds the values it held before: previous values are put back, new names and inserted items are removed, deleted items are '
     'restored. A later read never returns the refused value nor a value evaluated from it.',
     'inputs histories', 'all refusals (conversion and validation errors) raised at any step of a write, all keys and positions',
     'The tests check that an invalid value raises, not what is left in the object.',
     [OP, CP, AP], [('the except clauses of the write accessors', OP)],
     PATHS + 'exception paths of each write accessor, last-write analysis',
     NOTE + 'A user-defined setter called after the assignment is not undone and not covered.')

prop('P04', 'Assigned values are converted and validated',
     'Every value that is assigned to a declared property or put in an array or a collection is converted to the type declared for '
     'it and validated against its schema before the assignment returns, unless it is an expression or the property is declared not '
     'validated; a value which cannot be converted or does not comply raises an error. Whatever the way in (constructor, attribute, '
     'item, dotted path, alias, append, insert, slice of items), the same type is used: the one declared for the property, for the '
     'matching pattern, for the position, or for additional names. Defaults are only used when nothing was given.',
     'inputs programs', 'all classes built from a schema, all values, all ways of assigning',
     'The tests assign a few values of a few types through one accessor.',
     [OP, CP, AP], [('_items_evaluate, _items_validate, item_type, set_item', CP)],
     PATHS + 'must-happen analysis of conversion and validation, choice of the type as a decision table', NOTE +
     'How one type converts one value, numerically, is not decided here.')

prop('P05', 'Reads are fresh: a read reflects the last write',
     'After a property, an item or anything that it depends on (dependencies declared by its class or its accessor, names used in an expression, items of a '
     'sub-object) has been written, inserted or deleted, the next read evaluates it again from the current values, and the next '
     'representation or length shows them. A read of something that did not change returns the object returned before. A read that '
     'fails raises and does not return an earlier value.',
     'inputs histories', 'all interleavings of reads and writes of an object, its items and its dependents',
     'The tests read once after one write.',
     [OP, CP, AP], [('touch, _items_touch, _items_inputs, is_outdated', CP)],
     PATHS + 'invalidation analysis (each writer outdates what is cached), cache-key agreement', NOTE)

prop('P06', 'An alias is the property it stands for',
     'Reading, writing, deleting or testing a declared property through one of its aliases does exactly what the same operation '
     'through its name does. Through a negated alias the value read and the value written are both the arithmetic negation (minus) of the '
     'property, and nothing else differs. This holds for aliases declared by the schema, its bases and the schemas it extends.',
     'inputs', 'all aliases of declared properties, all operations',
     'The tests do not use negated aliases.',
     [OP], [('_aliases, _aliasesNegated, PropertyDescriptor', OP)],
     PATHS + 'behaviour tables of the accessors, inheritance slices', NOTE + 'Aliases of names which are not declared are out of scope.')

prop('P07', 'A class has what its schema, its bases and its extended schemas declare',
     'The properties, pattern properties, aliases, defaults, required, read-only, hidden and not-validated names of a class are '
     'those its own schema declares together with those of the classes it derives from and of the schemas it extends; a property '
     'declared again takes the nearest declaration, its own schema first. Getters, setters and deleters defined by a class or '
     'inherited apply to the property they are named after wherever it is declared.',
     'programs', 'all class hierarchies and all combinations of schemas, extended schemas and accessors',
     'The tests build a few classes with one level of inheritance and look at single properties.',
     [OP], [('ObjectProtocol.build', OP), ('SchemaMetaclass', 'ngoschema/protocols/schema_metaclass.py')],
     PATHS + 'backward slices of the class construction, order of the layers', NOTE)

prop('P08', 'Serialized data holds exactly the properties to be shown',
     'Names that a class hides, that the caller excludes or that are not among those selected never are in serialized data, at any '
     'position of required or optional names. Every other name which has a value is there with the item of that name serialized by '
     'its own type; a value is left out only if it equals its default and defaults are left out, and a read-only name only on '
     'demand. The options of the caller reach the serialization of every nested object.',
     'inputs', 'all objects and collections, all combinations of the options excludes, only, no_defaults and no_readOnly',
     'The tests serialize a few objects with default options.',
     [OP, CP, 'ngoschema/types/object.py', 'ngoschema/types/collection.py'],
     [('ObjectSerializer._print_order, Object._print_order', 'ngoschema/types/object.py'), ('Collection._serialize', 'ngoschema/types/collection.py')],
     PATHS + 'guards of each name kept and each item written, option forwarding at every call site', NOTE +
     'The text made from the data (JSON, YAML, XML) is not decided here.')

prop('P09', 'Validation checks every keyword of the vocabulary with its meaning',
     'Validating a value checks every keyword of its schema that the JSON Schema vocabulary or the library defines (isPathDir, '
     'isPathFile and isPathExisting refuse exactly the paths which are not what they tell), a type name accepts exactly the values '
     'of the type of that name and an unknown one raises, and every error refuses the value. A recursive reference is validated '
     'against what it resolves to, in its own scope, which is left afterwards. The schema used is the whole one of the type, what '
     'the types it is made from declare included; an invalid schema is refused.',
     'inputs', 'all schemas, all values',
     'The tests validate a few values against a few keywords.',
     ['ngoschema/managers/jsch_validators.py', 'ngoschema/protocols/validator.py', 'ngoschema/protocols/type_protocol.py', 'ngoschema/types/type.py'],
     [('jsch_validators_registry, recursiveRef', 'ngoschema/managers/jsch_validators.py'), ('Validator._errors', 'ngoschema/protocols/validator.py')],
     PATHS + 'table of the keywords and their functions, registration coverage, decision tables, slices of the schema of a type',
     NOTE + 'What the functions of the jsonschema library do is trusted; $ref is not checked by the library by design.')

prop('P10', 'The shipped schemas are closed and well-formed',
     'Every reference, extended schema, foreign schema and address told by a shipped schema, a class or the settings resolves to a '
     'schema that is shipped, and two classes never tell the same one. Every type they use is one the library provides, every name '
     'they list (required, read-only, hidden, not validated, keys, aliases, dependencies) is a property they have, and every keyword '
     'and default has a value of its kind and within its own constraints.',
     'programs', 'all shipped schemas in use, all classes with a schema address',
     'The tests use a few of the shipped schemas; a dangling reference only shows when it is followed.',
     ['ngoschema/schemas/ngoschema.json', 'ngoschema/schemas/ngo-draft-06.json', 'ngoschema/models'],
     [('shipped schemas', 'ngoschema/schemas'), ('_id of the classes', 'ngoschema/models')],
     'reference closure and well-formedness of the shipped schema documents against the syntax trees of the classes',
     'All documents reachable from the classes and settings are read at every run; ngoschema_.json, which nothing refers to, is not.')

TB = 'ngoschema/managers/type_builder.py'
prop('P11', 'A type is built once per address and a failed build leaves no trace',
     'Building or loading the type of an address which has been built returns the object built before; one which is under '
     'construction gives a proxy which answers every question by the type finally built at that address. A construction which '
     'raises leaves its address neither registered nor under construction, so it can be built again; the schema given is not '
     'changed by a reference in it, and what is told next to a reference extends what it refers to. Defining a class gives up what '
     'was built at its address and builds it from its own schema, bases and attributes.',
     'histories programs', 'all schemas (object, array, reference, boolean, others), all nestings, all points of failure',
     'The tests only build types which succeed.',
     [TB, 'ngoschema/protocols/type_protocol.py', 'ngoschema/protocols/type_proxy.py'],
     [('TypeBuilder.build, load', TB), ('TypeProxy', 'ngoschema/protocols/type_proxy.py')],
     PATHS + 'typestate of the construction marks on normal and exceptional paths, who-writes analysis of the registries', NOTE)

prop('P12', 'Queries keep exactly the objects which meet the criteria',
     'Filtering keeps the objects which meet every criterion (one of them for the any-of forms) in their order, and excluding keeps the '
     'others; empty objects are never kept. Each operator compares the value of the attribute with the value given as its name tells, '
     'operators are applied in turn, `not` negates, and a criterion on what an object has not is not met. Results are complete, without '
     'duplicates if distinct, ordered and reversed as asked; union, intersection and difference are those of sets; evaluating, '
     'refining, combining or reversing a query changes neither it nor anything else and can be done again.',
     'inputs histories', 'all collections, all criteria and combinations of them, all operators, all sequences of queries',
     'The tests use a few criteria once each.',
     ['ngoschema/query.py', 'ngoschema/utils/utils.py'],
     [('Filter', 'ngoschema/query.py'), ('Query', 'ngoschema/query.py'), ('get_descendant', 'ngoschema/utils/utils.py')],
     PATHS + 'decision table of each operator and of the outcome of a filter, option forwarding, effect analysis (who writes what)', NOTE +
     'An operator next to the name of a child object is only decided as far as it stands for the child of that name.')
prop('P13', 'An address designates the part of the document registered at it now',
     'An address resolves to the part, designated by its fragment (a percent-encoded JSON pointer), of the document which is registered at '
     'it at that moment, whatever the letter case of the address: registering, replacing and unregistering a document show at once. An '
     'address whose document is not registered, or whose pointer designates nothing, is refused with an invalid value error, and nothing is '
     'fetched unless remote access is asked. Resolving an address changes neither the documents nor what is registered; a loaded schema is '
     'registered at the address it tells.',
     'inputs histories', 'all documents, all addresses and fragments, all sequences of registrations and resolutions',
     'No test resolves an address directly; shipped schemas use few forms of addresses.',
     ['ngoschema/resolvers/uri_resolver.py', 'ngoschema/loaders/schemas.py', 'ngoschema/utils/utils.py'],
     [('resolve_uri', 'ngoschema/resolvers/uri_resolver.py'), ('UriResolver', 'ngoschema/resolvers/uri_resolver.py'),
      ('UriDict', 'ngoschema/utils/utils.py'), ('load_schema', 'ngoschema/loaders/schemas.py')],
     PATHS + 'the term of the value given by each path (loops unfolded twice), decision tables, effect analysis of everything that reads the store', NOTE)
prop('P14', 'A name or an address belongs to the namespace which encloses it most closely',
     'A dotted name belongs to the namespace whose name is the longest of its prefixes by whole components, and an address to the one whose '
     'address encloses it most closely by whole parts: namespaces declared in the manager before those of its parents, those before '
     'registered documents. Declaring a namespace, registering a document or changing the current namespace (to the closest declared one of '
     'the name given) shows at once in what is looked up afterwards, while finding or naming changes nothing. Leading dots climb from the '
     'current namespace, an address without a document is that of the current namespace, addresses in it are told without their document, '
     'and names made from others only have letters, digits, dots and underscores.',
     'inputs histories', 'all names, addresses and fragments; all sequences of declarations, registrations and changes of the current namespace',
     'The tests look up a few names in one namespace.',
     ['ngoschema/managers/namespace_manager.py', 'ngoschema/types/uri.py', 'ngoschema/resolvers/uri_resolver.py', 'ngoschema/contexts/ns_manager_context.py'],
     [('NamespaceManager', 'ngoschema/managers/namespace_manager.py'), ('scope', 'ngoschema/resolvers/uri_resolver.py'),
      ('Id', 'ngoschema/types/uri.py')],
     PATHS + 'the conditions under which each namespace is a candidate and the order they are taken in, the term of each name and address given, '
     'who-writes and what-is-remembered analysis of the declarations', NOTE)
prop('P15', 'Nothing changes but what is asked',
     'No operation changes what it is given (data, schemas, options, criteria, contexts), except those whose purpose it is to change it. '
     'Objects never share their containers, neither between them nor with their class; what all share (classes, registries, defaults '
     'of arguments, settings of the modules and of the process) is only changed by declaring or registering, so that no call depends on '
     'earlier ones with other arguments or objects.',
     'inputs histories', 'all functions of the package but tests, on all their paths: every change of something given or shared',
     'A test sees what a call returns, rarely what it leaves behind.',
     ['ngoschema/'],
     [('CollectionProtocol', 'ngoschema/protocols/collection_protocol.py'), ('ObjectProtocol', OP), ('TypeBuilder', 'ngoschema/managers/type_builder.py'),
      ('UriResolver', 'ngoschema/resolvers/uri_resolver.py')],
     PATHS + 'effect and alias analysis: the root of everything changed on each path, freshness of the containers given to objects, '
     'allow-lists of who changes what is shared', NOTE + 'Functions with too many paths are analysed on their syntax tree (assignments followed by name). '
     'Changes made by other packages called are not followed.')
prop('P16', 'What is done for a time is undone',
     'Files and connections which are opened are closed, locks which are taken are released, and what is changed for the time of an '
     'operation (the working directory, the class an object is casted to, the decimal context, the scope references are resolved in) is '
     'put back to what it was, whether the operation succeeds, fails or is abandoned. Meanwhile it is what was asked: an object is only '
     'casted to a class of its own, numbers are evaluated with their precision, a counter shared by threads is only read under its lock.',
     'inputs faults schedules', 'all paths, normal and exceptional, of the functions which open, take or change something for a time',
     'The tests see no failure in the middle of such an operation.',
     ['ngoschema/utils/utils.py', 'ngoschema/protocols/file_loader.py', 'ngoschema/managers/jsch_validators.py', 'ngoschema/types/numerics.py', 'ngoschema/models/files.py'],
     [('casted_as', 'ngoschema/utils/utils.py'), ('working_directory', 'ngoschema/utils/utils.py'), ('recursive_ref', 'ngoschema/managers/jsch_validators.py'),
      ('FileLoader', 'ngoschema/protocols/file_loader.py')],
     PATHS + 'typestate of what is opened on normal and exceptional paths (exceptions of calls and those thrown at a yield)', NOTE)
prop('P17', 'A name is that of the nearest object which has it',
     'A name used in an expression or a template is that of the nearest object which has it: the object itself (`this` is it), then the '
     'names given with the context, then what it is made in, outwards. The first mapping of a chain wins and a name none has is refused. '
     'The parent of an object is the nearest object it is made in and its root the farthest, its namespaces are those of the nearest '
     'manager (else the default one), its session the one given, else that of the context it is made from.',
     'inputs histories', 'all names, chains of mappings and nestings of objects',
     'The tests use contexts of one or two mappings.',
     ['ngoschema/utils/utils.py', 'ngoschema/protocols/context.py', 'ngoschema/contexts/', CP, OP, 'ngoschema/types/strings.py'],
     [('ReadOnlyChainMap', 'ngoschema/utils/utils.py'), ('Context', 'ngoschema/protocols/context.py'),
      ('ObjectProtocolContext', 'ngoschema/contexts/object_protocol_context.py'), ('InstanceContext', 'ngoschema/contexts/instance_context.py')],
     PATHS + 'the order in which the mappings are put in a chain and asked, conditions of the object selected, order of the calls which set a context', NOTE)
prop('P18', 'Equal means the same items with the same values',
     'Two objects or two arrays are equal exactly when they have the same number of items and, for every one, the same value under the same '
     'name or index, whatever their class, their context (items given by the context included) and the order their items were given in; an item the other does not have makes them '
     'different and raises nothing. Equal ones have the same hash, so they are one in a set or as a key. Comparing changes neither. '
     'A copy is made of all that was given to the original, by its class and in the context of the original, and is not in the original. What represents an object is made of the same items, those given by the context excluded.',
     'inputs histories', 'all objects and arrays: all paths of their comparison and hash, all classes which redefine them',
     'The tests compare a few objects of the same class.',
     [CP],
     [('CollectionProtocol.__eq__', CP), ('CollectionProtocol.__hash__', CP), ('CollectionProtocol.copy', CP)],
     PATHS + 'conditions under which each answer is given, terms the hash is made of', NOTE + 'The equality of the values themselves is that of their types.')
prop('P19', 'What decorates a function does what it says and nothing else',
     'A function guarded by `assert_arg` is only ever called with the validated form of that argument, whether it is given by name or by position and '
     'whether the function is a method; an invalid argument is refused with a ValidationError and the function is not called. `assert_prop` lets '
     'a method be called only when all the properties told are defined (else AttributeError). Functions whose calls or exceptions are logged are called once with '
     'their arguments, their result is returned and their exception is logged and raised again as it is. `take_arrays` calls the function '
     'once per element, in order, pairs elements of arrays of the same size and refuses other sizes. Memoised values are computed for the object asked and kept on it. '
     'Class properties are read of the class.',
     'inputs faults', 'all functions which are decorated, all their arguments and exceptions',
     'The tests decorate a few methods and look at a few results.',
     ['ngoschema/decorators.py'],
     [('assert_arg', 'ngoschema/decorators.py'), ('assert_prop', 'ngoschema/decorators.py'), ('log_exceptions', 'ngoschema/decorators.py'),
      ('take_arrays', 'ngoschema/decorators.py'), ('memoized_property', 'ngoschema/decorators.py')],
     PATHS + 'guard conditions of the call of the function decorated, terms it is called with, exceptional paths', NOTE + 'What wrapt itself does is not looked at.')
prop('P20', 'No operation fails for a name, a variable or an argument which is not there',
     'On every path of every function of the library, those of its errors included, a name is bound when it is read (a variable by the function, '
     'a name by the module or what it imports), what is taken of another module of the library exists there, a private attribute read is one '
     'which something sets, its functions, constructors and methods are called with arguments they take, a message has a value for each of its '
     'places, and what is raised or caught are exceptions. So an operation never fails with a NameError, an UnboundLocalError, an ImportError or an '
     'AttributeError or TypeError of the library itself in place of its result or of the error it means to raise.',
     'inputs faults', 'all functions of the library and all their paths, all names, calls, messages and exceptions in them',
     'The tests run 9 scenarios; most paths of error are never run.',
     ['ngoschema/'],
     [('scope', 'ngoschema/managers/type_builder.py'), ('ForeignKey', 'ngoschema/types/foreign_key.py'), ('FileRepository', 'ngoschema/repositories/file_repositories.py'),
      ('mro', 'ngoschema/utils/utils.py')],
     'scopes of names (symbol tables), definite assignment of the variables over the control flow, resolution of calls and comparison with the signatures, formats of the messages',
     NOTE + 'Attributes which are public and those of objects of schemas are not resolved; names given by star imports of other distributions are taken as bound.')
prop('P21', 'A registry gives for a name what was registered last under it',
     'What is registered under a name is found under it, in the registry and in all the registries it is made from, until it is unregistered; a name none registered is '
     'refused and asking changes nothing. A class decorated to be registered is registered once, under the name told else its own, and stays what it was. '
     'A type is found by its name, its schema says its name, a value is of a type exactly when this type accepts it without conversion, and the type detected of a value is one '
     'which accepts it. In a table whose keys differ by their case only, an item is found, changed and removed whatever the case it is asked with. '
     'No two things of the library take the same name in the same registry, and every registry has its own table. '
     'A module which is registered has its schemas loaded and its folders known to all loaders, which find the files of a module by its name.',
     'inputs histories', 'all registries, all paths of their operations, all registrations of the library',
     'The tests register a handful of classes and types.',
     ['ngoschema/utils/utils.py', TB, 'ngoschema/registries.py', 'ngoschema/loaders/'],
     [('Registry', 'ngoschema/utils/utils.py'), ('GenericClassRegistry', 'ngoschema/utils/utils.py'), ('_KeyModifierMapping', 'ngoschema/utils/utils.py'),
      ('TypeBuilder.register_type', TB)],
     PATHS + 'tables which are written, keys under which they are, values given back, whole-library enumeration of the registrations', NOTE)
prop('P22', 'Files are read and written exactly as asked',
     'Writing a file puts in it exactly what is given, in the charset asked (bytes when it is binary), at the path asked, whose folder is made if it is '
     'missing; appending adds it at the end; a file whose content is the same is not written again; content which cannot be written is refused and leaves the file '
     'as it was. Reading gives the whole content, in the same charset. Saving writes or appends the serialized value as the options say, else as the saver was made; '
     'loading decodes the content and makes an object of the class asked; both use the path given, else that of the object. A document writes its own file only, '
     'its raw content is that of its file, and what is told of a file (dates, size, hash of its whole content) is told of that one. Committing a file '
     'repository writes its whole content to its file.',
     'inputs faults', 'all paths of the operations on files, all modes, charsets and options',
     'The tests write no file.',
     ['ngoschema/protocols/file_loader.py', 'ngoschema/protocols/loader.py', 'ngoschema/models/files.py', 'ngoschema/repositories/file_repositories.py'],
     [('FileSaver._write_file', 'ngoschema/protocols/file_loader.py'), ('FileLoader._open_file', 'ngoschema/protocols/file_loader.py'),
      ('Loader._load', 'ngoschema/protocols/loader.py'), ('Document.write', 'ngoschema/models/files.py')],
     PATHS + 'modes, paths, charsets and contents of the calls which open and write, order of what can refuse and what empties', NOTE +
     'What the operating system does with what is written is not looked at.')
prop('P23', 'A value of a type is what its type says, whatever the form it is given in',
     'Asking whether a value is of a type never fails: the answer is yes exactly when the type accepts the value (once converted, or validated, when this is asked). '
     'A check gives the value back as it is, or refuses it with a TypeError. A date, a time, a datetime, a uri, a path, a symbol, a member of an enumeration or an array is the one which the '
     'text, or the other Python object, it is given as stands for; a datetime keeps its time zone; what is not understood, says more than the type holds (a date with a time), is of '
     'another kind, or is out of the enumeration is refused, never replaced. null accepts None only, and the schema `false` no value. What is serialized '
     '(in the format asked, else that of the type) stands for the same value; no value is serialized as none. A default stands for a value which is not given (None), '
     'never for 0, False, an empty string or an empty collection.',
     'inputs', 'all values, all forms (text, Python objects, none), all options of the types of the library',
     'The tests convert a few values of each type.',
     ['ngoschema/types/', 'ngoschema/protocols/checker.py', 'ngoschema/protocols/converter.py', 'ngoschema/protocols/type_protocol.py'],
     [('Checker.check, Converter.check, Validator.check', 'ngoschema/protocols/'), ('Date._convert, Time._convert, Datetime._convert', 'ngoschema/types/datetime.py'),
      ('Symbol._convert', 'ngoschema/types/symbols.py'), ('Uri._convert, Path._convert', 'ngoschema/types/uri.py'), ('ArrayDeserializer._deserialize', 'ngoschema/types/array.py')],
     PATHS + 'classes a value is known to be of on each path, origin of what is given back, exceptional paths', NOTE + 'What arrow, urllib and importlib make of a text is not looked at.')
prop('P24', 'Collection, text and path helpers lose nothing and change nothing they are given',
     'Going through a collection visits every key or index of it once, and of the mappings and lists it holds. Every leaf of a nested dictionary is given once, under its path, with the separator asked. '
     'A path names the keys and indexes which are followed in turn; what is missing gives nothing. A filtered collection is a copy which has the keys to keep and not those to exclude. '
     'What depends on others is sorted after them, and a cycle is refused. Pages hold every item once, in order, and none is empty. An instance seen as one of its parents, '
     'and the working directory, are restored whatever happens inside. Every text to replace is replaced by its own replacement and nothing else changes. Brackets are found with what they hold, '
     'those inside another one under it, in order. A message formatted late is the same each time it is written, and does not change its arguments.',
     'inputs', 'all collections, texts, paths and options given to the helpers',
     'No test of the repository calls most of these helpers directly.',
     ['ngoschema/utils/utils.py', 'ngoschema/utils/str_utils.py'],
     [('nested_dict_iter, get_descendant, split_path, filter_collection, topological_sort, grouper, casted_as, Bracket', 'ngoschema/utils/utils.py'),
      ('multiple_replace, split_string, shorten, lazy_format', 'ngoschema/utils/str_utils.py')],
     PATHS + 'what is given, kept or removed on each path, syntactic position of yields', NOTE + 'Log output other than late formatting (PrettyShortPrinter, what it shortens) is not looked at.')
prop('P25', 'Keys and names designate what a session holds under them',
     'A key is resolved, in the session it is asked in (the one given, else the default one), by the first of its repositories whose class is the one asked or is derived of it and which holds the key; '
     'a key or a canonical name which no repository holds is told by an exception, never answered by something else. A repository in memory holds what is committed to it once, under its current keys and no former '
     'ones, in the place of what had the same keys; a missing key is given one above all those held, and holding a key means giving what is under it. '
     'The keys of an entity are the values of its primary keys in their order; an entity given by its key is the one which is resolved; a foreign key is made of the keys of the entity given, '
     'each of its type (0 being a key like another, a class which is being built having its own keys), and an entity held by another one is serialized to its keys when it is asked. A canonical name is looked for from the object, its own name first, through its items in depth, '
     'and what is given lies at the path which is followed. A session is bound to the repositories it is given, each once; a scoped session is the same until it is removed, and a session maker '
     'makes sessions of its configuration, what is given at the call coming first.',
     'inputs', 'all repositories, keys, names and histories of commits and bindings',
     'The tests resolve one key in one repository.',
     ['ngoschema/session.py', 'ngoschema/repositories/memory_repository.py', 'ngoschema/models/instances.py', 'ngoschema/types/foreign_key.py', 'ngoschema/protocols/object_protocol.py',
      'ngoschema/protocols/repository.py', 'ngoschema/protocols/resolver.py'],
     [('Session.resolve_fkey, Session.resolve_cname, scoped_session, session_maker', 'ngoschema/session.py'), ('MemoryRepository._commit', 'ngoschema/repositories/memory_repository.py'),
      ('ForeignKey._resolve, CanonicalName._resolve', 'ngoschema/types/foreign_key.py'), ('Entity.__new__, Entity.get_identityKeys, Entity._serialize', 'ngoschema/models/instances.py'),
      ('ObjectProtocol.resolve_cname', 'ngoschema/protocols/object_protocol.py')],
     PATHS + 'repository, key and class of the lookups, conditions they are under, order of what is catalogued and of what gives the keys', NOTE +
     'The relationships of entities (unfinished in the code), queries of sessions, and repositories of files without a class are not looked at.')
prop('P26', 'XML is read as what it says and written as what it is given',
     'Reading gives each element under its name, with its attributes (their names prefixed) and its children in order: several of one name, or one for which a list is asked, are a list in order. '
     'All of the text before its first child is its text, all of what comes after is its tail, and nothing of them is lost; an element with neither attributes nor children is its text. '
     'The namespace of a name is replaced by the one told for it. Entities are not expanded when they are disabled, comments are read only when this is asked, a file, a text or the pieces of one are read whole. '
     'Writing gives one element for each value of a key, in order, its attributes under their names without the prefix, its text before its children and its tail after, all with the options given; '
     'nothing is left out; numbers are written as their texts and booleans as true and false; what is None is an empty element. A full document has exactly one root, and the text written is given back when no output is given.',
     'inputs', 'all documents, mappings and options of parse and unparse',
     'No test of the repository reads or writes XML.',
     ['ngoschema/utils/xmltodict.py'],
     [('_DictSAXHandler.startElement, endElement, characters, push_data', 'ngoschema/utils/xmltodict.py'), ('parse', 'ngoschema/utils/xmltodict.py'), ('_emit, unparse', 'ngoschema/utils/xmltodict.py')],
     PATHS + 'order of the events of the content handler, origin of what is kept and written under each name, binding of the options of recursive calls', NOTE +
     '_emit is analysed with the options pretty, preprocessor and expand_iter off. What expat and XMLGenerator do (escapes, encodings) is not looked at.')
