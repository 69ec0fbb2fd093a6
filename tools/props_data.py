# pylint: disable=undefined-variable
BOUND = ("Exhaustive within the bound: every supported element class; each optional parameter alone with every value "
         "of its alphabet, every pair (thorough: all alternatives and triples), everything set, everything but one; "
         "every containment slot; schema versions 48-51.")

prop("C01", "Write then read is the identity for every supported element",
     "For every document built from supported element kinds with any combination of their constructor settings, "
     "in every supported schema version, writing it and reading the text back gives an equal document without any "
     "parse message, and writing that again gives the same text. ADMIN-DATA, which the library declares unfinished, "
     "is excluded.",
     ["inputs", "configurations"],
     "all element kinds x all settings of their parameters x all places an element can occur x schema versions",
     "Tests round-trip one or two hand-written snippets per element, usually a single attribute at a time; they do "
     "not try settings in combination, in all containers, or in every schema version.",
     [W, R, E], [("element writers", W), ("element readers", R), ("constructors", E)],
     "exhaustive bounded enumeration of element configurations executed on the real writer and reader",
     BOUND + " Oracle: structural equality of object graphs. Trusts the bounded alphabets to represent all values.",
     ["Writer.write_str", "Reader.read_str"])

prop("C02", "Written XML follows the AUTOSAR schema",
     "For every document built from supported elements, the written text is well-formed XML whose elements have "
     "the names, order, attributes, nesting and content that the AUTOSAR schema of the document's version prescribes "
     "for these settings. Nothing that was set is left out, and nothing that was not set is written.",
     ["inputs", "configurations"],
     "all element kinds x all settings of their parameters x all containers x schema versions 48-51",
     "Tests compare the text of selected examples; the order and presence of children in other combinations and the "
     "version dependent variants are not compared.",
     [W, N], [("element writers", W), ("enumeration tables", N)],
     "exhaustive bounded enumeration; real writer output compared with an independent reference schema model",
     BOUND + " Oracle: an independent serializer driven by spec/schema.txt, which is trusted.",
     ["Writer.write_str"])

prop("C03", "Every schema-conforming element is read as the object it describes",
     "For every supported element written as the AUTOSAR schema prescribes, in any container and schema version, "
     "reading gives exactly the object that the same settings passed to the constructors give. No "
     "setting is dropped, swapped or altered and nothing is reported.",
     ["inputs", "configurations"],
     "all element kinds x all settings x all containers x schema versions 48-51",
     "Tests read selected snippets that the library's own writer produced; errors that the writer and the reader "
     "share, and untested combinations, stay invisible.",
     [R, N], [("element readers", R), ("enumeration tables", N)],
     "exhaustive bounded enumeration; reference serializer output fed to the real reader, compared object by object",
     BOUND + " Oracle: objects built through the public constructors; the reference schema is trusted.",
     ["Reader.read_str"])

prop("C04", "Any text survives writing and reading unchanged",
     "Every string of XML-representable characters put in any text-holding setting of any element (names, categories, "
     "paragraphs, labels, values, attributes ...) is written as well-formed XML that contains exactly this string, and "
     "reading returns exactly this string, whichever legal XML spelling was used (entities, character references, CDATA, "
     "interleaved comments or processing instructions).",
     ["inputs"],
     "all strings over an alphabet of character classes up to a length x all text positions x XML spellings",
     "Tests use plain ASCII words; markup characters, white space, non-ASCII characters and text that looks like a "
     "number or XML are not tried, nor every text position.",
     [W, R], [("escaping and text output", W), ("text input", R)],
     "exhaustive enumeration of strings x positions x spellings on the real writer and reader",
     "Exhaustive over strings of bounded length from 14 character classes plus a list of critical words, at every text "
     "position. Oracle: the string itself via an independent XML parser.",
     ["Writer.write_str", "Reader.read_str"])

prop("C05", "Every number is written and read exactly",
     "Every number in any numeric setting is written as a legal AUTOSAR literal denoting exactly that number in every "
     "output format (default, hexadecimal, binary, scientific), and reading it gives the same number back, with integers "
     "staying integers. Every legal spelling of a number is read as that number; text that is no number is reported, "
     "never taken for one.",
     ["inputs"],
     "a lattice of boundary numbers x all numeric positions x output formats x input spellings",
     "Tests use a few small integers and decimals; large magnitudes, precision limits, negative or special values and "
     "alternative notations are not tried at every position.",
     [W, R, E], [("number formatting", W), ("number parsing", R), ("NumericalValue", E)],
     "exhaustive enumeration of a boundary lattice of numbers at every numeric position, exact rational oracle",
     "Exhaustive over the lattice (powers, neighbours, precision limits, special values) x positions x formats x "
     "spellings. Oracle: exact fractions and a literal grammar.",
     ["Writer.write_str", "Reader.read_str"])

prop("C06", "Enumeration values and their XML spelling correspond one to one",
     "In every schema version each member of each enumeration is written with the spelling of the AUTOSAR schema "
     "wherever it can occur, is read back as the same member, and no other text is accepted as a member.",
     ["inputs", "configurations"],
     "all members of all enumerations x all positions x schema versions x wrong spellings",
     "Tests exercise one member per enumeration and position, and hardly any wrong spelling.",
     [N, R, W], [("conversion tables", N)],
     "exhaustive enumeration of all enumeration members, positions, versions and near-miss spellings",
     "Complete over members and positions; wrong spellings from systematic edits of the right ones. The spelling table "
     "spec/enums.json is trusted.",
     ["enum_to_xml", "xml_to_enum", "Writer.write_str", "Reader.read_str"])

prop("C07", "Content the library does not know never changes what is read",
     "Unknown elements or attributes, comments, processing instructions, white space between elements and the choice of "
     "namespace prefix do not change any object read from a document. An unknown child of an element that has a "
     "SHORT-NAME is reported exactly once per tag (with file and line when reading a file), and nothing is printed when "
     "the warning is off. Only where a text or a "
     "fixed choice of elements is required may the enclosing element be dropped instead, with a message.",
     ["inputs"],
     "all element kinds x every position in their XML x kinds of foreign content x layouts",
     "Tests read tidy snippets without foreign content.",
     [R], [("ChildElementMap and unprocessed element reports", R)],
     "exhaustive insertion of foreign content at every position of every element's XML, fed to the real reader",
     "Exhaustive over positions of fully populated (thorough: also single-parameter) documents, one (thorough: two) "
     "insertions at a time. Oracle: objects of the unmodified document.",
     ["Reader.read_str", "Reader.read_file", "stderr"])

prop("C08", "A faulty element is reported and never affects its neighbours",
     "Whatever is wrong inside one element or package of a well-formed document (missing, repeated, misplaced or empty "
     "content, illegal values, duplicate names), reading it raises nothing, reports the element with its line when it "
     "is dropped, and gives every other element unchanged. With stop_on_error a ParseError or DuplicateElement is raised "
     "exactly when something would have been reported as error, and nothing else changes.",
     ["inputs", "fault_sequences"],
     "all element kinds x every node of their XML x kinds of corruption; all pairs of equally named elements",
     "Tests read correct documents; error paths are exercised for one or two elements only.",
     [R, E], [("error handling of package elements", R), ("duplicate detection", E)],
     "exhaustive single-fault injection at every node of every element's XML on the real reader",
     "Exhaustive over single corruptions of fully populated and minimal documents of every class, all pairs of classes "
     "with one name, all package name sequences up to 4 (5).",
     ["Reader.read_str", "stdout"])

prop("C09", "A document is the same as string, as file and in memory",
     "For every tree of packages, in whatever order and way it was put together, the written document has the XML "
     "declaration, the namespace and the schema file name of its version; write_file, write_str and the single-element "
     "functions give the same text for the same content; reading the file or the string gives the same tree with the "
     "same order, parents, references and schema version.",
     ["inputs", "configurations", "histories"],
     "all package forests up to a size x ways of building x element placements x schema versions; all element kinds",
     "Tests write one or two nested packages and compare fragments.",
     [W, R, D, E], [("document output", W), ("document input", R), ("Document", D)],
     "exhaustive enumeration of package forests and construction orders on the real code",
     "Exhaustive over forests up to 4 (thorough 6) packages, five ways of building, five element patterns, ten schema "
     "versions; every class in every single-parameter configuration as fragment.",
     ["Writer.write_str", "Writer.write_file", "Reader.read_file", "Document.find"])

prop("C10", "Reading and writing do not depend on what was done before",
     "Every operation on a Reader or Writer gives the same result, messages and errors as on a fresh instance, after any "
     "sequence of earlier operations including failed ones. Writing never changes the document, files are closed even "
     "when writing fails, documents returned earlier are never touched by later reads, and objects of the library never "
     "share mutable state. Instances that are at work in different threads do not disturb each other.",
     ["histories", "fault_sequences", "schedules"],
     "all sequences of reader and writer operations (successful and failing) up to a length; all schedules of two "
     "operations in two threads up to a number of preemptions",
     "Tests use a fresh reader and writer and one operation each.",
     [R, W, E], [("per-document state", R), ("per-document state", W)],
     "explicit-state exploration of all operation sequences up to depth 3 (4), and of all schedules of two threads with one "
     "(two) preemptions, on the real Reader and Writer under a controlled scheduler",
     "Exhaustive over sequences of 12 writer and 17 reader operations, 2+4 configurations, depth 3 (thorough 4); over "
     "schedules with one preemption before any executed line (thorough: two at calls) of pairs of operations. "
     "Oracle: outcome on a fresh instance.",
     ["Reader", "Writer", "stdout", "stderr"])
prop("C11", "Packages form one consistent tree whatever is done in whatever order",
     "For every sequence of append, create_package and make_packages on documents, workspaces and packages (sub-packages "
     "filled before or after they are added), the tree holds exactly what was added, in order and once; names are unique "
     "per package and a rejected operation raises and changes nothing. find, filter, filter_regex, ref(), parent and "
     "root_collection() of everything always agree with the tree, for every path, existing or not.",
     ["histories", "inputs"],
     "all operation sequences on package trees up to a size and depth; all paths",
     "Tests create one or two packages and look up a path that exists.",
     [E, D, S], [("Package and PackageCollection", E), ("Workspace", S)],
     "explicit-state model checking of the package tree, every transition replayed on the real code",
     "All trees up to 5 (thorough 7) nodes over two names and three levels, every operation from each; all unmerged "
     "sequences up to 2 (3). Oracle: the model tree.",
     ["Package", "Document", "Workspace"])

prop("C12", "Every element knows its reference and a reference leads back to it",
     "For every element, in every place an element can be and however it got there (constructor, append method, setter, "
     "reading; the parts joined in any order), ref() is nothing until there is an unbroken chain of parents to a document "
     "or workspace, and then the full path of names with the DEST of the element's own XML tag; looking that path up "
     "gives the element or, inside elements that cannot be searched, nothing, never another element.",
     ["inputs", "histories"],
     "all element kinds x all containment slots x ways of joining the parts x orders of joining",
     "Tests call ref() on a few kinds of element, each placed in a package in the usual order.",
     [E, R], [("parents and references", E), ("reader", R)],
     "exhaustive enumeration of containment slots and join orders on the real code",
     "Complete over the containment slots of the reference schema, minimal and full contents, all permutations of the "
     "joins; three package depths, two kinds of root.",
     ["ref()", "find()", "root_collection()"])

prop("C13", "However an object is put together, it is the same",
     "An object comes out the same whether its content is given to the constructor, appended one by one, or made by the "
     "create methods (with positional or named arguments); whether a single item is given alone or as a list, a "
     "reference as object or as string, or assigned to the attribute later (also after writing, and on what was read). "
     "Create methods return the object they added, with its parent set. Appending something of a wrong type raises an "
     "error and changes nothing.",
     ["inputs", "histories"],
     "all element kinds x all lists they hold x all splits between constructor and append; all create methods x all "
     "settings; all parameters x all documented forms",
     "Tests build each object in one way, and rarely with more than one item.",
     [E], [("constructors, append and create methods", E)],
     "exhaustive bounded enumeration of construction histories on the real code",
     "All container parameters with every list of the alphabet and every split; all create methods with every "
     "single setting and pair; every append method with a pool of wrong values. Oracle: structural equality including "
     "parents.",
     ["constructors", "append*", "create_*"])

prop("C14", "A wrong argument never leads to a wrong document",
     "Whatever is given for any parameter of any element constructor, it is either refused with an error, when the element is "
     "made, added or written, or it is visible in the written document, and that document is read without complaint and "
     "written again unchanged. A reference is accepted exactly where the schema allows its DEST.",
     ["inputs"],
     "all element kinds x all parameters x a pool of values of every kind; all reference parameters x all reference "
     "classes x all DEST values",
     "Tests pass sensible arguments only.",
     [E, B, W], [("argument checks", E), ("assignment helpers", B), ("writer assertions", W)],
     "exhaustive enumeration of parameters and wrong values on the real code",
     "Complete over parameters and over 39 kinds of value (wrong types, negative, bool, containers, other elements, "
     "non-finite numbers), in minimal and full elements; complete over reference classes and DEST values.",
     ["constructors", "Writer.write_str", "Reader.read_str"])


prop("C15", "Roles, keys and configuration lead to the same package, always",
     "Every role of a namespace, however the namespace is configured (by call, configuration file; absolute, relative or "
     "missing base reference; standard or custom role), and every key of the package map, names one package reference: "
     "the one templates predict, put their elements under, and find() leads to; every other role, key or namespace is "
     "refused with an error. Every section of a configuration file takes full effect whatever the others are, and a faulty "
     "section is refused. This holds after every sequence of workspace operations.",
     ["inputs", "histories"],
     "all base references x relative paths x roles x ways of configuring; all sequences of workspace operations up to a "
     "depth; all combinations of configuration sections",
     "Tests set up three namespaces with well-formed paths and query some of their roles once.",
     [S, N], [("Namespace and Workspace", S), ("role names", N)],
     "exhaustive enumeration of namespaces and explicit-state exploration of workspace histories on the real code",
     "10 base references x 14 relative paths x 21 roles x 3 ways; histories of 18 operations up to depth 4 (thorough 5) "
     "with all queries after each; all subsets of configuration sections. Oracle: path model.",
     ["get_package_ref_by_role", "find", "apply", "load_config"])

prop("C16", "Templates create every element once, in its place, after its dependencies",
     "Applying templates in any order, any number of times, with any acyclic dependencies: create is called exactly once "
     "per element, never for an element that exists already, after all dependencies exist, with exactly their elements "
     "keyed by their references; the result is the element at the reference the template predicts. A create method that "
     "fails leaves no element behind and a later apply works; something that is not a template is refused.",
     ["histories", "inputs"],
     "all dependency graphs over 3 (4) templates x kinds x places x sequences of apply, by-hand and failing operations",
     "Tests apply two templates in the only order there is.",
     [S, TMPL], [("Workspace.apply", S), ("templates", TMPL)],
     "explicit-state exploration of template systems, every history replayed on the real code against a model",
     "All graphs over three (thorough four) templates, all sequences of three applies, five kinds of failing create "
     "methods, name collisions. Oracle: log and tree of a model.",
     ["Workspace.apply", "ElementTemplate.create", "ElementTemplate.ref"])

prop("C17", "Documents hold exactly the requested packages and leave the workspace as it is",
     "write_documents writes exactly the requested files, in the document root: every requested package once, complete, "
     "in the requested order and under its full path, so that every reference of the workspace leads to the same element "
     "in the documents; document mappings write one file per matching element with its suffixed companions, sorted. "
     "Writing changes nothing in the workspace, and writing again (after additions) writes the current state.",
     ["inputs", "histories"],
     "all lists of up to 3 (4) package references over 3 trees x document mappings x histories of write and grow",
     "No test writes a document from a workspace.",
     [S, D, W], [("write_documents", S), ("Document", D), ("Writer", W)],
     "exhaustive enumeration of document requests and write histories on the real code",
     "10 references incl. nested, overlapping, missing; 7 element filters x 8 suffix filters; 5 histories; 4 kinds of "
     "document root. Oracle: documents built independently, a second XML parser, snapshots of the workspace.",
     ["write_documents", "files", "Workspace.find"])

prop("C18", "Values built from Python data are written as exactly that data",
     "For every term of the value language (scalar, text, label, NotAvailable with default pattern, arrays and records "
     "nested to any depth), make_value, make_value_with_check, make_constant and the init values of com-specs give an "
     "XML value that decodes to exactly that term: kinds, labels, order, numbers; read back, it is written the same. "
     "Values and constant references are taken as they are; anything that is no term of the language is refused.",
     ["inputs"],
     "all terms over an alphabet of scalars and labels up to length 4 and depth 3 x all entry points",
     "Tests build nine values.",
     [E, W], [("ValueSpecification.make_value", E), ("com-spec builders", E), ("value writers", W)],
     "exhaustive enumeration of terms on the real code against an independent decoder of the XML",
     "All terms up to length 3 (4), nested to depth 3; 37 terms outside of the language.",
     ["make_value", "make_constant", "written XML"])

prop("C19", "Computations and constraints mean in XML what they were made of",
     "A value table maps every number to the text listed for it (first item that contains it, otherwise the default), a "
     "rational computation maps every number to offset + factor x number inside its limits, and a data constraint has "
     "exactly the given limits, interval types and extras, once evaluated from the written XML. check_value agrees with "
     "the written interval for every number, before writing and after reading.",
     ["inputs"],
     "all value tables up to 3 (4) items over 12 kinds of item; all factors x offsets x limits x interval types x "
     "defaults; all limits and extras of constraints; a grid of values including bounds, infinities and NaN",
     "Tests compare a few tables with literal XML and never evaluate one; check_value is not tested.",
     [E, W, R], [("Computation and DataConstraint", E), ("writer", W), ("reader", R)],
     "exhaustive enumeration of builder arguments on the real code against an independent interpreter of the XML",
     "Complete over the stated alphabets; exact rational arithmetic in the interpreter.",
     ["Computation.make_*", "DataConstraint.make_*", "check_value", "written XML"])

prop("C20", "A port has exactly the interface and the com-specs asked for",
     "Every way to create a port (provide, require, both) with com-specs given as attributes, attributes by name, objects "
     "or mixtures yields a port of that kind, last in the component, referring to the interface, with exactly one "
     "com-spec per element asked for: of the kind the element needs (queued or not, server, client, mode switch), "
     "referring to it and with exactly those attributes. Requests that name nothing in the interface are refused and "
     "leave the component as it was. All look-ups of ports and of parts of their interfaces find exactly what was made.",
     ["inputs", "histories"],
     "all interfaces up to 3 parts x 5 builders x all forms of requests; all port histories up to 3 with all look-ups",
     "Tests create a port or two per kind with all-default com-specs.",
     [E, W], [("port builders", E), ("ProvidePortComSpec, RequirePortComSpec", E), ("Writer", W)],
     "exhaustive enumeration of requests and port histories on the real code against a model",
     "16 interfaces, up to 5 attributes per com-spec, all orders and subsets of names, 13 kinds of nonsense. Oracle: "
     "com-specs computed from the request, compared with the XML by a second parser.",
     ["create_p_port", "create_r_port", "create_pr_port", "find_p_port", "get_data_element_in_port", "written XML"])

prop("C21", "Connectors of a composition connect exactly the ports they were asked to connect",
     "For any two ports of a composition and its components, create_connector makes the one kind of connector these ports "
     "need, whatever the order they are given in: provider to requester (assembly), inner port to outer port in the same "
     "direction (delegation), provided to required outer port (pass-through), with references of the right kind to both "
     "components and ports, a unique name, and a place in the composition. Ports that cannot be connected, names that "
     "lead nowhere, and names in use are refused with ValueError and leave the composition as it was. Prototypes refer "
     "to their types and have unique names.",
     ["inputs", "histories"],
     "all ordered pairs of 14 ports (and wrong references) after every other operation; all histories of depth 3 (4)",
     "Tests never create a connector between ports; examples use three.",
     [E, W], [("CompositionSwComponentType", E), ("connectors", W)],
     "explicit-state exploration of compositions on the real code against a model",
     "Components with all kinds of ports, an inner composition, prototypes that come later, two prototypes of one type; "
     "PR-ports in all positions. Oracle: model, XML decoded by a second parser, look-up of every written reference.",
     ["create_connector", "create_component_prototype", "find", "written XML"])

prop("C22", "Events and runnables of a behaviour are created as asked, under unique names",
     "Every create_*_event call on an internal behaviour adds exactly one event of that kind at the end, which starts the "
     "named runnable and refers (with the right kind of reference) to the named port and data element, operation or mode; "
     "its automatic name is <prefix>_<runnable>[_<port>_<element>] with the prefix from the behaviour settings. "
     "When several events ask for one name they are called name_0, name_1, ... in order of creation, and at every moment the "
     "names of all events differ, also when explicit names look like numbered ones; create_runnable and "
     "create_exclusive_area refuse names in use, and create_port_api_options makes one option for each named port. "
     "Calls that name nothing (unknown runnable or port, port in the wrong direction, other kind of interface, ambiguous or "
     "unknown element, superfluous parts, no prefix, wrong arguments) fail and leave everything untouched.",
     ["inputs", "histories"],
     "every operation under 18 settings of prefixes; all pairs with 25 operations (thorough: all pairs); all histories of 3 (4) "
     "operations; all histories of 4 (5) explicit names",
     "Tests create one event of each kind, and three with the same name once.",
     [E, W], [("SwcInternalBehavior, make_unique_name_in_list", E), ("events", W)],
     "explicit-state exploration of internal behaviours on the real code against a model",
     "18 ports on 8 kinds of interfaces, 3 runnables with names that collide once prefixed, 12 explicit names. Numbering is "
     "judged exactly where no asked name looks like a numbered other one, else only for uniqueness. Oracle: model and "
     "XML decoded by a second parser.",
     ["create_*_event", "create_runnable", "create_exclusive_area", "create_port_api_options", "written XML"])

prop("C23", "Port access of runnables is created for exactly the port and element named",
     "Each element given to create_port_access (text '[prefix:]port[/element]', with or without arguments) adds exactly one "
     "access point, of the kind documented for the prefix (or the default of the port and its interface), to the right "
     "list, with references of the right kind to that port and element, the given arguments, and the given name or "
     "<prefix of settings>_<port>_<element>. Prefixes that do not apply to the port, other names than ports, missing or "
     "ambiguous elements, missing settings and wrong arguments are refused, and nothing is added for them; nothing given "
     "by the caller is modified. In the lists of a runnable names of access points are unique, however they were added: "
     "equal names are numbered, and distinct names are kept.",
     ["inputs", "histories"],
     "all texts over 15 prefixes x 20 ports x elements x 10 arguments x 11 settings; all histories of 3 (4) calls; all name "
     "lists up to 4 (5) in 15 kinds of lists",
     "Tests create some twenty access points, all of valid strings.",
     [E, W], [("RunnableEntity.create_port_access", E), ("RunnableEntity.append_*", E), ("runnables", W)],
     "exhaustive enumeration of calls and histories on the real code against a model",
     "Ports of all three kinds on 9 interfaces of 5 families. Calls with several elements that fail may keep the elements "
     "before the invalid one or none. Oracle: model of runnables and XML decoded by a second parser.",
     ["create_port_access", "append_*", "written XML"])

prop("C24", "Each data type is made once and defined once, after the types it needs",
     "In an implementation model every XML data type becomes exactly one type object, of the kind of its category, with "
     "its name, symbol and emitter, wired to the objects of the types it refers to, however it is requested (by element, by "
     "reference, as a dependency) and in whatever order. The generator defines exactly the requested types and everything "
     "their definitions need, except base types without native declaration and types of other emitters: each once, never "
     "before a type it needs, and the same text whatever the order of the requests. A request that fails (unsupported or "
     "dangling types) leaves nothing behind and succeeds later once the missing type is there.",
     ["inputs", "histories"],
     "all graphs of at most 3 (4) types x names x symbols and emitters x all sequences of requests",
     "Tests create one type or one chain of types and compare the text of their definitions.",
     [IMPL, GEN], [("ImplementationModel", IMPL), ("gen_data_type_creation_order", GEN)],
     "explicit-state exploration of type graphs and request sequences on the real code against a graph model",
     "Scalars, references, arrays of 1-2 dimensions, structures of 1-2 members; acyclic; sequences with requests that fail "
     "at every position. Oracle: reachability and order computed on the graph.",
     ["ImplementationModel.create_from_ref", "gen_data_type_creation_order", "write_type_defs_str"])

prop("C25", "The generated header compiles in C and C++ and defines the modelled types",
     "Rte_Type.h generated for any supported set of data types compiles without diagnostics as C and as C++, once or "
     "included repeatedly, given the platform types and the types of other emitters in Rte.h. Every defined type, under "
     "its symbol if it has one, is then exactly the modelled type: scalars and references are their base type, arrays "
     "have all their dimensions and their element type, structures have their members with the right types in order, at "
     "the offsets that follow. The file written is the text returned, and no other file is touched.",
     ["inputs"],
     "all graphs of at most 3 types x names x symbols x emitters x sets of requested types, in two languages",
     "Tests compare the text of single definitions and compile nothing; the preamble of the header is not tested at all.",
     [GEN, IMPL], [("TypeGenerator", GEN), ("ImplementationModel", IMPL)],
     "exhaustive enumeration of type graphs, each generated header decided by the C and C++ compilers",
     "Arrays of 1-3 dimensions, structures of 1-3 members, base types of 1, 2 and 8 bytes. Oracle: types, sizes and offsets "
     "computed from the graph, stated as static assertions. Trusts gcc and g++ 13 of the sandbox.",
     ["write_type_header", "write_type_header_str"])
prop("C26", "A failing or interrupted file operation is reported and leaves nothing wrong",
     "Whichever operation on a file fails while documents, elements or headers are written or a configuration is loaded, "
     "the caller gets the error of the operating system, no file stays open, the workspace is unchanged, and every file "
     "holds what it held before or the beginning of what was to be written. The same operation done again without a fault "
     "gives the complete files. A document that was cut off anywhere is never read as a document, and does not affect what "
     "is read afterwards.",
     ["fault_sequences", "crash_points"],
     "every single file operation of five scenarios x clean or torn failure x new or old files; every prefix of a document",
     "Tests write to and read from files that never fail, and read only complete documents.",
     [W, S, GEN, R], [("Writer.write_file", W), ("Workspace.write_documents", S), ("TypeGenerator.write_type_header", GEN)],
     "exhaustive fault injection: every file operation of every scenario fails once on the real code",
     "One fault per run. Faults are injected between the library and the operating system (open, write, read, close). Oracle: "
     "the run without fault, and the state before.",
     ["write_file", "write_documents", "read_file", "load_config"])
