import json
P=[]
DL='typedload/dataloader.py'; DD='typedload/datadumper.py'; EX='typedload/exceptions.py'; TC='typedload/typechecks.py'; IN='typedload/__init__.py'; HE='typedload/helpers.py'
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))

p('C01','Every load failure is an error of the library\'s own exception family',
 'Loading any plain data value, however malformed or wrongly typed, into any supported type either returns a result or raises an exception belonging to TypedloadException. No built-in exception provoked by the data (TypeError, KeyError, OverflowError, StopIteration, ...) and no assertion failure ever reaches the caller instead.',
 ['inputs','programs'],'for every value made of built-in Python data (including non-iterables, unhashable keys and tags, huge or NaN numbers, generators) and every supported type annotation, with every combination of loader options',
 'Inputs: the tests feed a few dozen hand-picked wrong values; which built-in exception an operation can raise depends on the value, and a single uncaught one turns into a bare AssertionError and also makes unions fail instead of trying the next member.',
 [DL,EX],[('except clauses that convert built-in exceptions','every handler in '+DL),('assert isinstance(e, TypedloadException)',DL+' Loader.load')],['typedload.load','Loader.load'])
p('C02','A union loads whenever one of its members accepts the value',
 'Loading a value into a union tries its members one after another until one accepts the value, and a member that fails never prevents the remaining members from being tried. The load fails only when every member has failed, and that error lists one sub-error for each member tried.',
 ['inputs','programs'],'for every union type (Union, Optional, X | Y), every member order and every value',
 'Inputs and programs: the tests use unions of two or three members with at most one failing; the guarantee is over every set of members, order and failing value.',
 [DL],[('loop over all members catching TypedloadException',DL+' _unionload'),('reordering of the member list only moves members',DL+' _unionload')],['typedload.load with Union / Optional / X|Y','TypedloadException.exceptions'])
p('C03','Union members are preferred in a fixed, documented way',
 'A value whose exact type is a basic type and a member of the union is returned unchanged, even when that basic type has a custom handler; otherwise members that are not basic types are tried before those that are, and a matching literal tag only moves its member to the front. With union conflict debugging enabled all members are tried and acceptance by more than one of them is an error.',
 ['inputs','programs'],'for every union type and value, with and without uniondebugconflict',
 'Programs: tests cover one tag field and two members; the preference must hold for every mix of basic, container and object members, where a wrong preference silently casts data.',
 [DL],[('early return for exact basic types',DL+' _unionload'),('sort by membership in basictypes',DL+' _unionload'),('discriminator reordering',DL+' _unionload'),('loaded_count',DL+' _unionload')],['typedload.load with Union','Loader(uniondebugconflict=True)'])
p('C04','Nothing unvalidated reaches a loaded result',
 'Every element, key, value and field of a loaded result comes from loading the datum at that same position with the type declared for that position, or is that datum itself when its exact type already is the declared basic type or a basic member of the declared union. Containers have the declared kind, every element of the data is kept exactly once and in order, and values for None, Literal, Enum and Pattern[str] or Pattern[bytes] are produced only after the value was checked against what the type allows.',
 ['inputs','programs'],'for every value and every supported type annotation at any nesting depth',
 'Inputs: the point of the library is that data follows the schema for all data; tests compare a handful of small results and cannot see a fast path that lets one unusual value through unchecked or shifts elements.',
 [DL],[('element-wise loading and exact-type fast paths',DL+' _iterload, _tupleload, _dictload'),('field loading by declared hint',DL+' _objloader'),('membership / equality tests',DL+' _literalload, _noneload, _enumload, _patternload')],['typedload.load result'])
p('C05','failonextra rejects all unused data, and only failonextra does',
 'With failonextra enabled, loading into an object type or a fixed-size tuple never succeeds when the data contains a key or an element that the type does not use, including keys disallowed by name mangling. With failonextra disabled, unused keys and trailing elements are ignored and are never the cause of an error.',
 ['inputs','configurations'],'for every object type (NamedTuple, dataclass, attrs, TypedDict) and fixed-size tuple, every data value, and both settings of failonextra',
 'Inputs and configurations: a strict mode that lets one kind of extra through is only seen on data and types where that kind occurs; tests check one extra key per object kind.',
 [DL],[('extra fields check',DL+' _objloader'),('length check',DL+' _tupleload'),('failonextra in name mangling',DL+' _mangle_names')],['Loader(failonextra=True).load','Loader(failonextra=False).load'])
p('C06','Required fields are exactly the constructor fields without default',
 'Loading an object succeeds only if the data provides every field that the constructor needs and that has no default, and loading a fixed-size tuple succeeds only if the data has at least as many elements as the type. A field that has a default or a default factory, is not a constructor argument, is a class variable, or is marked NotRequired or belongs to a non-total TypedDict is never required, and absent fields are left for the type itself to fill.',
 ['inputs','programs'],'for every NamedTuple, dataclass, attrs class, TypedDict and fixed-size tuple type, and every subset of fields present in the data',
 'Programs: each object kind encodes defaults differently and the combination of default, factory, init and totality is only sampled by the tests.',
 [DL,TC],[('necessary_fields computation',DL+' _namedtupleload, _dataclassload, _attrload, _typeddictload'),('missing fields check',DL+' _objloader'),('length check',DL+' _tupleload')],['typedload.load into object types and tuples'])
p('C07','With basiccast disabled no basic value is converted',
 'With basiccast disabled, a value is loaded as a basic type only if its exact type already is that type, and is otherwise rejected with a ValueError; this holds directly and for elements of lists, tuples, sets, dictionaries (keys and values), unions and object fields. A value of exactly the declared type is accepted unchanged; with basiccast enabled a mismatching value is converted by calling the declared basic type on it and by nothing else, and it is that call alone that may refuse it.',
 ['inputs','configurations'],'for every value, every basic type and every container or object position it can occur in, and both settings of basiccast',
 'Inputs: subclass pairs such as bool and int are where fast paths and the direct handler disagree, and no test loads a bool where an int is declared inside a container.',
 [DL],[('exact type test and cast',DL+' _basicload'),('fast paths for basic types',DL+' _iterload, _dictload, _tupleload, _unionload')],['Loader(basiccast=False).load','Loader(basiccast=True).load'])
p('C08','Results do not depend on what was loaded or dumped before',
 'Loading a value into a type, or dumping a value, gives the same outcome on a fresh object and on one that was used before, except for names learned for forward references. What the internal caches keep is computed from the type and the options alone, is stored and looked up under that very type, and is never modified once stored; a cache hit and a cache miss lead to the same behaviour.',
 ['histories','inputs'],'for every sequence of load or dump calls on one loader or dumper, including failing ones',
 'Histories: tests mostly use a fresh object per assertion, so state that leaks from one call to the next is invisible to them.',
 [DL,DD],[('handler cache, object fields cache, union discriminator cache',DL+' Loader.load, _objloader, _dictload, _iterload, _dataclassload, _unionload'),('handler cache, dataclass cache',DD+' Dumper.dump, _dataclassdump')],['repeated Loader.load / Dumper.dump on one object'],
 [('_indexcache','type to handler',DL),('_objfieldscache','dataclass to field tables',DL),('_unionload_discriminatorcache','union to discriminator table',DL),('_handlerscache','value type to dump handler',DD),('_dataclasscache','dataclass to fields, defaults, hints',DD)])
p('C09','Load and dump never modify what they are given',
 'Loading never modifies the data it is given nor the type definitions it is loading into, whatever the outcome. Dumping never modifies the dumped object, and the lists and dictionaries in a dump are new objects that are not shared with it.',
 ['inputs','histories'],'for every value and type passed to load, every value passed to dump, on success and on failure',
 'Inputs: only one test compares the data before and after; a modification hidden in one handler changes the caller\'s data or the class\'s annotations for the rest of the process.',
 [DL,DD],[('copy instead of update',DL+' _mangle_names, _objloader, _typeddictload'),('copying list dump',DD+' _iteratordump')],['the arguments of load and dump after the call'])
p('C10','Loader and dumper objects never share state',
 'Options, handler lists, type sets, caches and known names of one loader or dumper are never visible in another one, and nothing done by load or dump is written to module or class level. The module-level load and dump functions use a new object for every call.',
 ['histories','configurations'],'for every sequence of creating, configuring and using any number of loaders and dumpers',
 'Histories: sharing shows only when two differently configured objects are used in one process in a particular order.',
 [DL,DD,IN],[('instance attributes created in the constructor',DL+' Loader.__init__, '+DD+' Dumper.__init__'),('fresh object per call',IN+' load, dump')],['Loader(), Dumper(), typedload.load, typedload.dump'])
p('C11','Errors locate the datum that was rejected',
 'When a datum inside a container or object is rejected, each enclosing level adds exactly one annotation, outermost first, that names where the datum is: the zero-based index for lists, sets and tuples, the field name for objects, for dictionaries the key (marked as a key when the key itself was rejected, as a value when what it maps to was), the member type for unions. No level adds the annotation of another position and none removes or reorders the annotations added inside it.',
 ['inputs','programs'],'for every nesting of supported containers, objects and unions and every position at which the data can be wrong',
 'Inputs: positions and nestings are unbounded; tests check a handful of positions and mostly only the last annotation.',
 [DL,EX],[('e.trace.insert(0, TraceItem(...))',DL+' Loader.load, _objloader, _iterload, _tupleload, _unionload'),('annotation argument of load',DL+' _dictload'),('position counter',DL+' _iterload, _tupleload')],['TypedloadException.trace','str(TypedloadException)'])
p('C12','Errors carry value and type and can always be printed',
 'Every error raised by the built-in load handlers carries the value that could not be loaded and the type it could not be loaded into. The sub-errors attached to an error are errors of the library, so that building the message of any error, including nested ones, never fails.',
 ['inputs','programs'],'for every failing load, at any depth, and every error object it produces',
 'Inputs: each raise site is only reached by particular data; tests look at value and type_ of one error and print few of them.',
 [DL,EX],[('value= and type_= at each raise',DL),('exceptions= lists',DL+' _unionload, _enumload'),('message building',EX+' TypedloadException.__str__, _subexceptions, _path')],['TypedloadException.value, type_, exceptions','str(TypedloadException)'])
p('C13','The class of an error follows from its cause',
 'A missing field (except of attrs classes, whose own constructor reports it with a TypeError), an extra field, a wrong tuple length, a value not allowed by a Literal, None or Enum, a refused cast, an unknown forward reference and a union that no member accepts are TypedloadValueError; a type nobody can handle when requested directly, as a field or as an element, a dictionary given for a list, tuple or set, a non-iterable given for them, and a conflicting union are TypedloadTypeError; data that is not dictionary-like given for an object or a Dict is TypedloadAttributeError. ValueError and TypeError raised by the constructors of the types keep their category.',
 ['inputs','programs'],'for every failing load of a built-in handler',
 'Inputs: callers branch on ValueError and TypeError; the tests accept most failures with a broad class and reach only some raise sites.',
 [DL,EX],[('choice of exception class at each raise',DL),('class hierarchy',EX)],['the class of the exception raised by load'])
p('C14','Every supported annotation reaches the handler for its kind',
 'Each supported annotation (basic, None, Any, Enum, Literal, NewType, ForwardRef, list, tuple, dict, set, frozenset, unions, NamedTuple, dataclass, attrs, TypedDict, dates, timedelta, patterns, string-constructed), in its typing, built-in-generic and X | Y spellings, is recognised as its own kind and as no other that comes earlier. Handlers are consulted in list order and the first whose condition accepts the type or value is used, for nested types exactly as for the outermost one, so a handler placed earlier always wins.',
 ['programs','configurations'],'for every supported annotation spelling, every position in a schema and every list of handlers',
 'Programs: the tests exercise some spellings at top level; an overlap between two conditions or a nested position that bypasses the lookup only shows for particular types.',
 [DL,DD,TC],[('ordered handler tables',DL+' Loader.__init__, '+DD+' Dumper.__init__'),('first match',DL+' Loader.index, '+DD+' Dumper.index'),('type predicates',TC)],['Loader.index, Loader.load, Dumper.index, Dumper.dump, typechecks functions'])
p('C15','Name mangling maps names the same way when loading and dumping',
 'For dataclass and attrs fields whose metadata has the loader\'s or dumper\'s mangle key, loading reads the field only under the external name and dumping writes it only under that same name; other fields use their own name. The Python name of a mangled field is not accepted as a key, unless it is itself the external name of some field, and swapped names are handled.',
 ['inputs','programs','configurations'],'for every assignment of external names to fields (including swaps and falsy names), every mangle_key and every data value',
 'Programs: names, swaps and keys combine freely; tests cover one rename, one swap and one alternative key.',
 [DL,DD],[('names map',DL+' _dataclassload, _attrload'),('key mapping',DL+' _mangle_names'),('external name on dump',DD+' _dataclassdump, _attrdump')],['load and dump of dataclass and attrs with metadata'])
p('C16','Dump omits exactly the fields equal to their default',
 'With hidedefault enabled a NamedTuple, dataclass or attrs field is left out of the dump exactly when the field has a default (or default factory) and its value equals that default. With hidedefault disabled no field is left out on account of its value or default.',
 ['inputs','programs','configurations'],'for every object value, every kind of default and both settings of hidedefault',
 'Inputs: falsy values, values equal to another field\'s default and factories are not enumerated by the tests, and an omitted field silently changes meaning when loaded back.',
 [DD],[('default comparison',DD+' _namedtupledump, _dataclassdump, _attrdump')],['Dumper(hidedefault=True/False).dump'])
p('C17','A dump consists of basic values, lists and dictionaries only',
 'The dump of any supported value is built only from values whose exact type is a basic type, strings (or the pattern of a compiled pattern), new lists and new dictionaries; every nested element, key, field and enum value has itself been dumped. No element or non-omitted field is lost, repeated, reordered or paired with another one\'s name.',
 ['inputs','programs'],'for every value made of supported types at any nesting depth',
 'Inputs: a value that slips through undumped only shows when the result reaches a serializer; tests dump small structures.',
 [DD],[('recursive dump calls',DD+' handlers'),('identity only for basic types',DD+' Dumper.__init__, _iteratordump, _identitydump')],['typedload.dump result'])
p('C18','Dates, times and deltas are written the way they are read',
 'Dates, times and datetimes dump either to their ISO 8601 text, when isodates is enabled, or to the complete list of their components in the order of the constructor that loading calls; a timezone is never silently dropped. Loading takes text as ISO 8601 and anything else as those constructor arguments, and time deltas are written and read in seconds.',
 ['inputs','configurations'],'for every date, time, datetime (naive or aware) and timedelta and both settings of isodates',
 'Inputs: a lost microsecond or swapped component is visible only on values where it is not zero; tests use values with zero microseconds in list form.',
 [DL,DD],[('component lists and isoformat',DD+' _datetimedump, _timedeltadump'),('fromisoformat and constructor call',DL+' _datetimeload, _timedeltaload')],['dump and load of datetime types'])
p('C19','Data never chooses what code runs',
 'Loading calls constructors and functions only as given by the requested type and the loader\'s configuration; on the data itself it uses nothing but the mapping, iteration, comparison and conversion protocols and the attributes of an argparse.Namespace. Loading and dumping perform no input or output, import nothing named by data and evaluate no text coming from data. What they return, including the order of the keys of a dump, depends on neither clock, environment nor randomness.',
 ['inputs'],'for every data value, trusted or hostile, and every supported type',
 'Inputs: absence of a reaction to some input is not something samples can show.',
 [DL,DD,TC,EX,HE,IN],[('calls made by handlers',DL+', '+DD),('get_type_hints applied to types only',DL+', '+DD)],['load and dump with untrusted data'])
p('C20','Constructor options always win and always reach the object used',
 'A named argument given to the Loader or Dumper constructor is the value in force for that option from the first load or dump on, options not given have their documented defaults, and load() and dump() forward all named arguments to such an object. When raiseconditionerrors is enabled an exception raised by a handler condition is never swallowed as if the condition did not match, and otherwise it means exactly that, in loaders and dumpers alike.',
 ['configurations','histories'],'for every set of named arguments, documented or custom, and every handler list',
 'Configurations: the tests set a few options, mostly by attribute assignment after construction.',
 [DL,DD,IN],[('defaults then setattr of the arguments',DL+' Loader.__init__, '+DD+' Dumper.__init__'),('argument forwarding',IN+' load, dump'),('raiseconditionerrors',DL+' Loader.index, '+DD+' Dumper.index')],['Loader(**kwargs), Dumper(**kwargs), typedload.load, typedload.dump'])
p('C21','Forward references resolve to types met before, never override the user\'s',
 'Every named type that a loader finds a handler for, at any depth of the schema, becomes available for resolving forward references to its name in that loader. Names already known, in particular those the user put in frefs, are never replaced; a forward reference is loaded exactly as the type of that name, and with frefs set to None no reference is resolved.',
 ['programs','histories'],'for every schema with forward references, whatever the position at which the referenced type first occurs, and every user-supplied frefs',
 'Programs: the tests use one self-referencing type loaded at top level; where a type is first met depends on the schema.',
 [DL],[('registration of names',DL+' Loader.load'),('lookup',DL+' _forwardrefload')],['load of recursive types, Loader.frefs'])
p('C22','argparse.Namespace is accepted wherever a dictionary is',
 'With dictequivalence enabled, an argparse.Namespace loads into every type that loads from a dictionary (Dict, NamedTuple, dataclass, attrs, TypedDict, with or without name mangling) exactly as the dictionary of its attributes would. With dictequivalence disabled no such conversion happens, and no object without argparse\'s interface is ever converted.',
 ['inputs','configurations','programs'],'for every namespace, every dictionary-loadable type and both settings of dictequivalence',
 'Programs: the conversion is spread over several handlers; tests load one namespace into one NamedTuple and one Dict.',
 [DL],[('conversion helper and its uses',DL+' _dictequivalence, _dictload, _objloader, _mangle_names')],['load(argparse.Namespace(...), T)'])
p('C23','Everything that can be loaded can be dumped',
 'Every kind of value that the default loader can produce for a supported type is accepted by a handler of the default dumper and written in the form the loader reads for that type: objects as dictionaries keyed by the names the loader accepts, iterables as lists, enums as their values, string-constructed types as strings.',
 ['programs'],'for every supported type with default loader and dumper',
 'Programs: agreement between two independent tables has to hold for every entry; tests pair up a few of them.',
 [DL,DD],[('default handler tables and string-constructed sets',DL+' Loader.__init__, '+DD+' Dumper.__init__')],['dump(load(x, T))'])
p('C24','A loader or dumper can be re-entered and shared by threads',
 'Load and dump keep no state about the call in progress on the loader or dumper: the only things they write there are entries of type-keyed tables, each written complete in one step and never removed or changed later. Hence recursive calls from custom handlers and concurrent calls on one object cannot influence each other\'s results.',
 ['schedules','histories'],'for every interleaving of concurrent or nested load and dump calls on one object',
 'Schedules: no test uses threads or re-enters a loader from a handler.',
 [DL,DD],[('single-step cache stores',DL+', '+DD)],['concurrent and nested load / dump on one object'])
p('C28','The public type checks recognise exactly the annotations of their kind',
 'Each is_* function of typedload.typechecks answers true for every annotation of its kind, however it is spelled (typing alias, builtin generic, Union or the | operator), false for every other annotation, and never raises. uniontypes, literalvalues and notrequiredtype return exactly the members of the annotation, and literalvalues raises ValueError for what is not a Literal.',
 ['programs'],'for every annotation and class',
 'Programs: every check has to answer for every kind of annotation; tests try a few pairs.',
 [TC],[('classification of annotations',TC+' is_*, uniontypes, literalvalues, notrequiredtype')],['typedload.typechecks functions in conditions of custom handlers'])
p('C25','Loading a dump gives back an equal value',
 'For every value of a supported type, loading its dump with the same type and matching options returns an equal value.',
 ['inputs','programs'],'for every value of every supported type',
 'Inputs: equality over all values.',
 [DL,DD],[('inverse handlers',DL+', '+DD)],['load(dump(x), type(x)) == x'])
p('C26','Casts and textual conversions are numerically and textually faithful',
 'Converting between basic types and to and from text (numbers, paths, addresses, UUIDs, ISO dates, seconds) yields the value that the text or number denotes.',
 ['inputs'],'for every convertible value',
 'Inputs: unbounded numeric and textual domains.',
 [DL,DD],[('constructors of the standard library',DL+' _basicload, _strconstructload')],['load and dump of basic and string-constructed types'])
p('C27','Work is bounded by the size of the data and of the schema',
 'Loading takes time and stack proportional to the size of the data and of the schema, also for failing and adversarial data.',
 ['inputs'],'for every data value and schema',
 'Inputs: time and stack use over unbounded nesting.',
 [DL],[('fast path retried by slow path',DL+' _dictload'),('union trial',DL+' _unionload')],['time taken by load'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
