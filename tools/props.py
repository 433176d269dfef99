#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  A property is
claimed when sa/rules/<id>.py exists; otherwise it goes under not_applicable."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files,
                  mech=mech, technique=technique, note=note, na=na, state=state))


ALLOBJ = ['src/avb/attributes.py', 'src/avb/bin.py', 'src/avb/components.py', 'src/avb/essence.py', 'src/avb/misc.py', 'src/avb/trackgroups.py']

prop('C01', "A saved object reads back field for field",
     "For every kind of object a bin can hold, saving it writes exactly the fields that the Python reader takes: the same order, "
     "width, signedness, count, constants and conditions, with each field coming back into the property it was written from. "
     "Where the format has a narrow and a wide form of a field, the narrow one is used only for values that fit it. "
     "So a bin that was saved can be opened again and every stored property has the value it had.",
     ['inputs', 'programs'], "every object kind, every combination of property values and list lengths it can be saved with",
     "The tests save and reopen a few sample bins and a handful of freshly made objects, so a field that is usually 0, empty or small "
     "(width, sign), or a kind that no sample holds, is never compared.",
     ALLOBJ, [('reader and writer of each kind', 'read/write methods in src/avb/*.py'), ('primitive codecs', 'src/avb/ioctx.py')],
     'effect extraction of read/write into wire-field trees and structural alignment (AST dataflow)',
     "Sound for the constructs the extractor understands; fields whose value it cannot trace are listed as undecided in the evidence. "
     "Assumes struct and the stream classes behave as documented; the codecs are decided by C04 and C05.")

prop('C02', "Optional blocks of an object survive a load and a save",
     "An optional block (a part of an object that a file may or may not have) that was read from a file is written again by a save, with the same "
     "tag and the same content, whatever other blocks the object has. A block the file does not have is not required for saving the object "
     "and no block is written that the reader would refuse.",
     ['inputs'], "every object kind and every subset of its optional blocks present in the file",
     "The sample files contain only the combinations of optional blocks that a few application versions wrote; the other subsets are never loaded and saved.",
     ALLOBJ, [('tagged block loops', 'ctx.iter_ext in src/avb/ioctx.py and the loops in each read()'), ('presence tests in write()', "'x' in self.property_data in each write()")],
     'effect extraction: presence conditions of tagged blocks on both sides compared (AST dataflow)',
     "Per optional block: the set of properties its reader sets must imply the writer's presence test, and the writer must not need a property whose block may be absent. "
     "Constructs not understood are listed as undecided.")

prop('C03', "Every object kind is identified uniquely and framed completely",
     "Each kind of object has its own four-byte identifier and its own name, can be both loaded and saved, and its record ends with the end marker on both sides. "
     "A loader that meets an optional block or tag it does not know refuses the object instead of skipping or misreading the rest.",
     ['inputs', 'programs'], "every registered object kind, every block tag value",
     "Tests only load kinds and tags that occur in the samples; a clash of identifiers, a kind that cannot be saved, or an unknown tag silently skipped is not seen.",
     ALLOBJ + ['src/avb/utils.py'], [('registries', 'utils.register_class / register_helper_class'), ('end marker', 'last field of each read()/write()'), ('unknown tag', 'else branch of each iter_ext loop')],
     'registry table check and effect-tree check of the terminator and unknown-tag branches',
     "Exact over the statically visible registrations; loops whose tag handling is not understood are undecided.")

prop('C04', "Little and big endian files get the same treatment",
     "Every primitive value has a reader and a writer for little endian and for big endian files, each of exactly the stated width and signedness in the selected byte order; "
     "any other byte order is refused. Nothing else in the package assumes one byte order for data of the open or saved file.",
     ['inputs', 'configurations'], "both byte orders, every primitive, all values",
     "Almost all samples are little endian and the big endian ones do not hold every primitive (doubles were in fact wrong).",
     ['src/avb/ioctx.py', 'src/avb/file.py', 'src/avb/utils.py', 'src/avb/mobid.py'], [('byte order tables', 'AVBIOContext.__init__ in src/avb/ioctx.py')],
     'partial evaluation of the byte-order tables and a lint of every pack/unpack and fixed-order helper',
     "Decides format strings and the binding of each primitive; embedded RIFF/AIFF headers, whose order is fixed by their own format, are exempt.")

prop('C05', "Each composite value codec is inverse to its counterpart",
     "Strings, booleans, raw and masked UUIDs, mob ids, rationals written as mantissa and exponent, timestamps, rectangles, colours and object references are written so "
     "that the matching reader gets the same value back and the reading position ends exactly where writing ended, in either byte order. "
     "A value the form cannot hold is refused, not silently changed.",
     ['inputs'], "every value of each composite type, both byte orders",
     "Tests encode a few literals; the values that break a codec (a long string, an all-zero id, a particular exponent) are not among them.",
     ['src/avb/ioctx.py', 'src/avb/mobid.py'], [('read_x / write_x pairs', 'AVBIOContext in src/avb/ioctx.py')],
     'symbolic composition of the extracted reader and writer effects (term rewriting over the AST)',
     "Proves position agreement and value inverse by rewriting for the forms understood; exponent arithmetic on floats is outside (see C28).")

prop('C06', "The compiled reader reads what the Python reader reads",
     "Where the package uses its compiled fast reader for an object, that reader takes the same fields in the same order and widths, sets the same properties from them, and accepts the same optional blocks as the "
     "Python reader of that kind, and it is only used for little endian files. So reading a file gives the same objects with and without the compiled reader.",
     ['inputs', 'configurations'], "every kind that has a compiled reader, all its optional blocks",
     "The compiled reader is compared with the Python one only on the sample files; fields that are zero there and blocks that do not occur are not compared.",
     ['src/avb/_ext.pyx', 'src/avb/_ext_core.cpp', 'src/avb/file.py'], [('compiled readers', 'src/avb/_ext_core.cpp read_* and src/avb/_ext.pyx'), ('use', 'AVBFile.read_header and read_object in src/avb/file.py')],
     'translation validation by static analysis: effects of both readers extracted from the Python AST, the Cython tree and the clang AST, matched and compared path by path',
     "Fields, branches, loops, blocks, refusals and stored values of all kinds. Conditions are evaluated on the critical values of the fields they mention (constants, masks, bounds and neighbours), not on all 2^32; a construct outside the forms understood leaves its kind undecided.")

prop('C07', "The compiled reader never reads outside the data it was given",
     "For any bytes, truncated or hostile, the compiled reader only reads inside the buffer of the object it is decoding and never uses memory it has not initialised or has released; "
     "every size taken from the file is checked against what is left before it is used.",
     ['inputs'], "all byte strings given to the compiled reader",
     "Tests give it well-formed files only.",
     ['src/avb/_ext_core.cpp', 'src/avb/_ext.pyx'], [('bounds checks', 'Buffer helpers in src/avb/_ext_core.cpp')],
     'abstract interpretation of the C++ (clang AST) and Cython syntax trees: availability, typestate and length obligations on every path',
     "Every read, copy, index, field use and reference is an obligation decided from the checks that dominate it. Sizes held in vectors are compared as linear forms; a form outside that is undecided, never an alarm.")

prop('C08', "The compiled reader reports malformed data",
     "When the compiled reader finds a wrong tag, an unknown block or missing data, the failure reaches the caller as an exception; no failed step is ignored and no half-read object is handed out.",
     ['inputs'], "all malformed inputs of the compiled reader",
     "Tests give it well-formed files only.",
     ['src/avb/_ext_core.cpp', 'src/avb/_ext.pyx'], [('error returns', 'read_* functions in src/avb/_ext_core.cpp'), ('exceptions', 'src/avb/_ext.pyx')],
     'interprocedural error-status dataflow over the C++ (clang AST) and Cython syntax trees',
     "Every failing path is followed to the test that raises. Which bytes are refused is compared with the Python reader in C06.")

prop('C09', "Malformed data is rejected, never half-loaded",
     "Reading an object either takes exactly all bytes of its record and returns the object, or raises: short data, left-over data, wrong constant tags, references to records the file does not have, and unknown kinds are all errors. "
     "An object whose reading failed is never kept, so reading it again tries, and fails, again, and the file is not left thinking it is still reading.",
     ['inputs', 'fault_sequences'], "every malformed or truncated record, every place where decoding can fail, any order of reads afterwards",
     "The tests only open valid samples.",
     ['src/avb/file.py', 'src/avb/ioctx.py'] + ALLOBJ, [('record framing', 'AVBFile.read_object in src/avb/file.py'), ('tag assertions', 'read_assert_tag in src/avb/ioctx.py')],
     'typestate analysis over all normal and exceptional paths of object loading; effect-tree check that constant tags are verified; abstract interpretation of the reference reader',
     "Path-sensitive in the events named; the exactness of the size relies on the leftover check and the readinto size check which are themselves checked to be present on every path.")

prop('C10', "A change made to an object of the bin is never lost",
     "Once an object of an open bin has been changed, by setting a property, through any operation of its lists, or through any operation of its attribute mapping, the object is kept alive with its change until the file is "
     "saved or dropped: it is never silently re-read from the file in its old state.",
     ['histories', 'programs'], "every mutating operation of every container and every property assignment, followed by any number of garbage collections and lookups",
     "Loss needs the garbage collector to run between the change and the save with no other reference alive; tests keep references.",
     ['src/avb/core.py', 'src/avb/attributes.py', 'src/avb/trackgroups.py', 'src/avb/file.py'],
     [('modification marks', 'mark_modified in src/avb/core.py and attributes.py'), ('strong reference to modified objects', 'AVBFile.add_modified in src/avb/file.py')],
     'override completeness over the container mutators plus typestate: every normal path of a mutator or property store marks the owner',
     "Complete over the mutating methods of list and OrderedDict and every attribute store path. In-place changes of plain Python values held in a property (lists, dicts, helper parts) are not tracked by the library; see DESIGN.md.")

prop('C11', "Reading, querying and saving do not count as modification",
     "Loading an object, looking at its properties, asking for derived values, walking the tree or saving never marks any object modified and never changes a stored property. "
     "The state that suppresses marking while loading is on during decoding and off again afterwards, also when decoding fails.",
     ['histories', 'fault_sequences'], "every read-only operation, every order of loads, every failure during decoding",
     "Tests do not look at which objects are held as modified after queries.",
     ['src/avb/file.py', 'src/avb/core.py'] + ALLOBJ, [('reading flag', 'AVBFile.read_object'), ('mark_modified', 'src/avb/core.py')],
     'typestate of the reading flag plus interprocedural effect (purity) analysis of getters, save methods and traversals',
     "The effect analysis is syntactic on attribute stores and container mutators reached through the resolved call graph; unresolved calls are counted in the evidence.")

prop('C12', "Opening is lazy and objects load on demand",
     "Opening a file decodes only its header, the positions of its objects and the top object; any other object is decoded only when something asks for it. "
     "Reading or holding a reference to an object does not load that object.",
     ['inputs', 'histories'], "every file, every sequence of accesses",
     "Tests do not observe which objects have been decoded.",
     ['src/avb/file.py', 'src/avb/utils.py', 'src/avb/core.py'] + ALLOBJ, [('position table', 'AVBFile.read_header'), ('unresolved references', 'utils.AVBObjectRef, AVBRefList.deref')],
     'call-graph reachability with effect extraction: no path from a reader or from opening resolves a reference',
     "Decides absence of reference resolution in readers on all syntactic paths.")

prop('C13', "One object per stored record, one id per object",
     "Asking for the same stored object again while it is in use gives the same object, and every object made new in a file gets an id that no stored or other new object of that file has. "
     "A loaded object keeps the id of its record and is registered under exactly that id, and a new one is registered under its own id when it is made. "
     "Walking the records of a file, or its objects of given kinds, visits each once, in order, under its own number.",
     ['histories'], "every interleaving of loading and creating objects",
     "A clash needs many objects or particular orders; tests create objects in small fresh files.",
     ['src/avb/file.py'], [('object cache', 'AVBFile.object_cache'), ('id allocation', 'AVBFactory.from_name and AVBFile.read_header')],
     'typestate of cache lookup, cache store and id allocation along all paths; abstract interpretation of the record walks',
     "Path-sensitive over the events; relies on WeakValueDictionary semantics.")

prop('C14', "A save stores each reachable object once, before its referrers",
     "A save writes every object that can be reached from the top of the bin exactly once, gives the records consecutive numbers, writes an object before any object that refers to it, "
     "and stores in every reference the number of the record of the object it refers to. The stored object count and top object number match the records written.",
     ['inputs', 'histories'], "every object graph with shared objects, any sequence of saves",
     "Tests save trees with few shared objects; the numbering is only visible when an object is reached twice.",
     ['src/avb/file.py', 'src/avb/core.py', 'src/avb/ioctx.py'], [('save loop', 'AVBFile.write'), ('post-order traversal', 'core.walk_references'), ('reference encoding', 'AVBIOContext.write_object_ref')],
     'typestate of the save loop, post-order shape of the traversal and dataflow of the record number into references',
     "Path-sensitive in the events named.")

prop('C15', "The file header written is the header read",
     "The header a save writes is accepted by opening in the same byte order, field for field, and opening gets back the creator version (in its fixed field of 30 bytes, padded with blanks), the save time to the second, the object count and the top object number that were written. "
     "The object table is read with the record framing that saving uses.",
     ['inputs', 'configurations'], "every creator version, save time, object count, both byte orders",
     "Tests check only that a saved file opens; a version text of another length or a field nobody looks at is not compared.",
     ['src/avb/file.py'], [('header', 'AVBFile.read_header / write_header'), ('record framing', 'AVBFile.write_object / read_object / read_chunk')],
     'effect extraction of header reader and writer and structural alignment',
     "As C01 for the header; the padding loop is evaluated symbolically.")

prop('C16', "Objects of another file are refused when saving",
     "A save that meets an object belonging to a different open file, anywhere in the tree or as the target of any reference, fails with an error and never writes a record or a reference for it, whatever ids it has.",
     ['inputs', 'histories'], "every way of mixing objects of two files",
     "The tests try one foreign object; one whose id coincides with an own object is the hard case.",
     ['src/avb/file.py', 'src/avb/ioctx.py'], [('ownership check', 'AVBFile.write, AVBIOContext.write_object_ref')],
     'typestate: an ownership test dominates every record write and reference encoding',
     "Path-sensitive dominance over the save loop and the reference writer.")

prop('C17', "A copied object is complete and independent",
     "Copying an object into a file gives an object with every property of the original, no others, and the copy shares no mutable state with the original: changing one never changes the other. "
     "All parts of the copy belong to the target file.",
     ['inputs', 'histories'], "every object kind and property value, every later change to either side",
     "Tests copy sample objects and compare; they neither mutate afterwards nor copy every kind.",
     ['src/avb/core.py', 'src/avb/attributes.py'] + ALLOBJ, [('copy', 'AVBObject.copy, AVBRefList.copy, Attributes.copy')],
     'abstract interpretation of the copy methods over a finite domain of object graphs (AST)',
     "Graphs are built per kind from the values its reader can store (all alternatives of a value, two elements per list); original and copy are compared node by node. Interpretation that meets an unknown construct is undecided.")

prop('C18', "New objects never share mutable state",
     "Two objects created separately share no list, mapping or other mutable value: what one starts out with by default is its own, and so is what module or class level tables give it.",
     ['histories', 'programs'], "every kind, every pair of creations, any later mutation",
     "Tests create one object of a kind at a time.",
     ['src/avb/core.py'] + ALLOBJ, [('defaults', 'AVBPropertyDef defaults applied in AVBObject.__init__')],
     'abstract interpretation of every constructor, twice, with comparison of the mutable nodes reached (AST)',
     "Each kind is created twice in one abstract run; nodes reachable from both, or from one and a module, class or default-argument table, are reported. Library results are taken to be fresh.")

prop('C19', "The property vocabulary of each kind is exact",
     "Every property that loading, saving, creating or a method of a kind sets or gets on an object is one the kind declares (or a fixed internal field), and each kind's declarations are its own, its base kind's included: "
     "so no property is silently dropped on assignment, lost on save, or visible on unrelated kinds.",
     ['programs', 'inputs'], "every kind, every property access in the package",
     "A misspelled or undeclared property only shows when that statement runs, and a declaration leaking between kinds never raises.",
     ['src/avb/core.py', 'src/avb/utils.py'] + ALLOBJ, [('declarations', 'propertydefs / propertydefs_dict of each class'), ('assignment', 'AVBObject.__setattr__')],
     'abstract interpretation of the registration and of assigning every declared name on every kind, and symbol resolution of every attribute access (AST)',
     "Exact for the tables of every kind and for accesses on self; attributes of other objects are resolved by name only.")

prop('C20', "The fields of a mob id are consistent views of its bytes",
     "Every field of a mob id (its whole number, label, length, instance number, material and their parts) reads exactly the bytes that setting that field writes, different fields use different bytes, equality, ordering and hashing go by exactly these bytes, and the text forms and "
     "byte forms convert back to the same id.",
     ['inputs'], "every 32-byte value, every field value",
     "Tests use a few ids, most of whose bytes are zero or alike.",
     ['src/avb/mobid.py'], [('field accessors', 'MobID properties'), ('text form', 'MobID.urn, from_dict/to_dict')],
     'abstract interpretation of accessors and conversions over bit provenance (AST)',
     "Follows every bit through packing, slicing, shifting, formatting and parsing, splitting on tests of bits; arithmetic that cannot be followed is undecided. One ambiguity of the text form is a known finding.")

prop('C21', "A failed open or save leaves files as they were",
     "A save that fails leaves the file that was to be replaced untouched, and the open bin still usable, also for another save. "
     "Opening a path that is not a readable bin raises and does not keep the file open; closing closes the file, and a file opened by the package is closed exactly by it; a path is opened for reading only, and a file object that is given is read from as it is.",
     ['fault_sequences', 'crash_points'], "every place where building the output or reading the header can raise",
     "Tests do not make saving or opening fail.",
     ['src/avb/file.py'], [('save', 'AVBFile.write'), ('open', 'AVBFile.__init__, __exit__')],
     'typestate over normal and exceptional paths: target opened only after serialisation, save context reset on every exit, handle closed on failure',
     "Assumes every call may raise. A failure of the final write itself (disk full) is out of reach.")

prop('C22', "Symbolic names and stored codes are one to one",
     "Where the API shows a stored code by a name, every name maps to one code and every code of the table back to the same name, setting a name stores the code that getting translates back, and unknown names are refused; kinds that show the same code by the same property use the same names.",
     ['inputs'], "every name and every code of each table",
     "Tests set a few names.",
     ['src/avb/trackgroups.py', 'src/avb/components.py', 'src/avb/misc.py', 'src/avb/essence.py'], [('name tables', 'module level dicts and getter/setter chains')],
     'abstract interpretation of getters, setters and constructors on open codes and open names (AST)',
     "Every getter of every kind is interpreted on open integers; tables decided by comparing one stored integer with constants are found whatever their spelling, others are not claimed.")

prop('C23', "Every failure path raises the intended error",
     "Every statement of the package can run without hitting an undefined name, an unset local variable, a missing attribute or module member, a call or message that does not fit its arguments, or an error object that is created but not raised; unsupported values end in a raised error, not in falling through.",
     ['inputs', 'programs'], "every path of every function",
     "Error branches are the ones tests do not run.",
     ['src/avb'], [('error branches', 'all functions')],
     'name resolution, path-sensitive definite assignment, attribute, argument and message checking, and value-chain analysis over every function (AST dataflow)',
     "Paths are told apart by the tests made on them; a variable set only in a loop is undecided; attributes are checked on self and on objects made in the function.")

prop('C24', "Mob lookups and dependency traversal are complete and finite",
     "Asking for the mobs a mob depends on yields each mob its source clips refer to, directly or through other mobs, once, without the mob asked, those it depends on before it unless they refer to each other, and ends also when mobs refer to each other or to themselves. "
     "A source clip finds the mob of the bin that has its mob id and that mob's track with its number and media kind, or nothing. "
     "A lookup by mob id finds exactly the mobs the bin has at that time, and the bin's lists of all, composition, master and top level mobs contain exactly the mobs of that kind in the order of the bin.",
     ['inputs', 'histories'], "every reference structure among up to three mobs and selected longer ones, cycles included; every history of two changes of a bin",
     "Sample bins have acyclic, short chains and are not changed between lookups.",
     ['src/avb/trackgroups.py', 'src/avb/bin.py', 'src/avb/components.py'], [('dependency walk', 'TrackGroup.dependant_mobs'), ('mob lists', 'Bin.*mobs'), ('lookup', 'Bin.find_by_mob_id, SourceClip.mob, SourceClip.track')],
     'abstract interpretation of the walk, lists and lookups on abstract bins of every reference pattern within a bound (AST)',
     "Every pattern of references among three mobs (four in thorough) and longer chains and cycles; a loop that does not end exhausts the step budget and is reported.")

prop('C25', "The factory makes an object of exactly the kind asked for",
     "Creating an object by name gives an object of the kind registered under that name, belonging to the file that was asked, with the arguments it was given; an unknown name is an error. "
     "Every kind can be created without arguments so that it can also be copied.",
     ['programs', 'histories'], "every kind name, any order and nesting of factory calls, held factory methods",
     "Tests create kinds one at a time in one statement.",
     ['src/avb/file.py', 'src/avb/utils.py'] + ALLOBJ, [('factory', 'AVBFactory'), ('constructors', '__init__ of each class')],
     'abstract interpretation of the factory and every constructor over a finite shape domain (AST)',
     "Every registered name and every documented constructor argument is created and followed abstractly; tests that stay open are split.")

prop('C26', "Positions in a sequence agree with its component lengths",
     "The components of a sequence with their start positions are enumerated once each in order, so that each starts where the length of those before it ends, and a transition lies over the end of the component before it by its whole length. "
     "The length of a sequence is the sum of the lengths of its components less those of its transitions, each of which overlaps what is around it. "
     "Looking up a position that lies inside a component gives that component with its index and start, inside a transition the transition, and on a border one of the two components it separates; components without length are never given for it.",
     ['inputs'], "every list of components and every length of them",
     "Tests use one or two sequences.",
     ['src/avb/components.py'], [('length and positions', 'Sequence.length, Sequence.positions'), ('lookup', 'Sequence.nearest_index_at_time, Sequence.nearest_component_at_time')],
     'abstract interpretation of the walk over rows of components with lengths kept as linear forms, and of the lookup on every small row (AST)',
     "Positions and lengths are exact for all lengths, for every pattern of up to five components (seven in thorough); lookups for every row of up to three components of lengths 0 to 2 and selected rows with transitions.")

prop('C27', "The reference walk reaches every reference that is written",
     "Every place in which an object can store a reference to another object that a save writes into the record is visited by the walk that selects the objects to save; "
     "so a saved file never holds a reference to an object that was not written, wherever the reference is nested.",
     ['inputs', 'programs'], "every reference-carrying property or nested element of every kind",
     "Tests only save the nestings of the samples; a reference in a rarely used nested structure is not walked and fails or dangles only there.",
     ['src/avb/core.py'] + ALLOBJ, [('walk', 'core.walk_references'), ('reference fields', 'ctx.write_object_ref calls in write methods')],
     'effect extraction of every reference the writers store, and abstract interpretation of the traversal on object graphs that hold them (AST)',
     "Every container path that ends in a stored reference, to the nesting depth the writers have; shapes the extractor cannot trace are undecided.")

prop('C28', "Solved curve values lie on the bezier or spline curve",
     "The value solved for between two control points of a bezier or spline curve lies on the curve that the points and handles define, up to rounding, for every shape of handles.",
     ['inputs'], "every set of control points and every time",
     "Tests check a few points of a few curves.",
     ['src/avb/interpolation.py'], [('evaluation', 'src/avb/interpolation.py')],
     na="numerical accuracy of the floating point root finding quantifies over run-time reals; no static analysis in reach bounds it; which points and handles are solved from is decided by C31")

prop('C29', "Rates and times keep their values through the stored form",
     "A frame rate or other rational that is stored as decimal digits and an exponent comes back as the nearest storable value, and a save time comes back as the same local second in every time zone.",
     ['inputs', 'configurations'], "every rational, every time zone",
     "Tests use common rates and one time zone.",
     ['src/avb/ioctx.py'], [('exp10 and datetime codecs', 'src/avb/ioctx.py')],
     na="depends on floating point rounding and on the platform's time zone data, which are run-time quantities; the layout part is decided by C05")

prop('C30', "Lists and mappings of objects behave as a list and a mapping",
     "The lists of references that objects hold behave as lists of the objects themselves, whether these were read from a file or added since: indexing, slicing, iteration in both directions, membership, index, count and pop give, and append, extend, insert, remove, "
     "item and slice assignment and deletion, clear, sort, reverse, += and *= leave, what they would for a Python list of the objects, and raise what it would; a null reference shows as None. "
     "Attributes and the properties of an object likewise behave as an ordered mapping from names to values, with the objects in place of references, in [], get, in, items, values, setdefault, pop, popitem and deletion; asking an object for a property by name gives its value or the given default.",
     ['inputs', 'histories'], "every list content (objects, references, null references, in any mixture) and every operation and position",
     "Tests build lists of new objects, where nothing is a reference, and read back whole lists; the mixtures and positions are not enumerated.",
     ['src/avb/core.py', 'src/avb/attributes.py'], [('reference lists', 'core.AVBRefList'), ('properties and attributes', 'core.AVBPropertyData, core.AVBObject.get, attributes.Attributes')],
     'abstract interpretation of every operation over all small mixtures of objects and references, compared with the list and mapping of the objects (AST)',
     "Lists of up to three entries (four in thorough) and mappings of up to four, every operation and every position in and around them; comparing whole lists with ==, < or +, and the compiled readers' plain dictionary of properties, are left out.")

prop('C31', "A curve is evaluated from the points around the asked time",
     "A parameter curve gives its first value before its first point and its last value from its last point on; between two points a constant curve gives the value of the earlier one, a linear curve lies on the straight line between them, and bezier and spline curves are solved from "
     "exactly the points (and handles) on both sides of the time, whatever the number and spacing of the points; a neighbour missing at the end of a spline is stood in for outside the segment, so that a curve moved in time gives the same values, moved. A kind of interpolation that is not known is refused between points, an empty curve and an undefined point time are refused, "
     "and integrating a curve gives every half frame from the start to the end asked for, with the base frame at the first point, wherever that lies.",
     ['inputs'], "every number and spacing of control points, every value and handle, every time and range",
     "Tests evaluate a few curves of one sample bin inside their range.",
     ['src/avb/components.py', 'src/avb/interpolation.py'], [('evaluation', 'ParamClip.nearest_index, ParamClip.value_at, ParamControlPoint'), ('integration', 'ParamClip.integrate, interpolation.integrate_iter')],
     'abstract interpretation of evaluation and integration over rows of points with values and handles kept as linear forms (AST)',
     "Exact for all values and handles, for rows of up to six points (eight in thorough) of varied spacing and every time on, between and around them; the solver itself is numerical (C28) and integration is decided for curves of one value.")


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['quant']},
                 'why_tests_cant': p['tests'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if p['na'] is None and os.path.exists(os.path.join(V, 'sa', 'rules', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                           'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                           'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no static check has been built for it yet'})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py || true', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'claimed')


main()
