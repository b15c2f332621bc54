#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


SER, DES, INS, SCH = ("strong_typing/serializer.py", "strong_typing/deserializer.py",
                      "strong_typing/inspection.py", "strong_typing/schema.py")
SZN, MAP, NAM, DOC = ("strong_typing/serialization.py", "strong_typing/mapping.py",
                      "strong_typing/name.py", "strong_typing/docstring.py")
CDF, TOP, AUX, COR, EXC = ("strong_typing/classdef.py", "strong_typing/topological.py",
                           "strong_typing/auxiliary.py", "strong_typing/core.py", "strong_typing/exception.py")

prop("C01", "Round trip: JSON form of a value restores an equal value",
     """For every supported type and every value of that type, converting the value to its JSON form and back, either
     directly or through compact JSON text, yields a value that is equal to the original and has the same concrete
     Python type at every depth. This holds for any nesting of data classes (plain, frozen, slotted, keyword-only,
     inherited, mutually recursive), named tuples, plain annotated classes, exceptions, enumerations, containers,
     optionals, literals and annotated types, with annotations written as types or as strings. In a union the value
     restored is the one given by the first member type that accepts the JSON form.""",
     ["inputs", "programs"],
     "all type definitions in the supported universe, all values of each type (including boundary values), all nestings",
     """The tests round-trip a few hand-written classes with two or three values each; the guarantee ranges over every
     type definition a user can write and every value of it, where failures sit in combinations (recursion through a
     container, string annotations, aliases in named tuples, negative durations).""",
     [SER, DES, SZN, INS, MAP],
     [("type-directed serializers", SER), ("type-directed deserializers", DES), ("name mapping", MAP),
      ("forward reference evaluation", INS)],
     state=[("serializer cache", "one serializer per class", SER), ("deserializer cache", "one parser per class", DES)],
     observe=["object_to_json", "json_to_object", "json_to_generic", "json_dump_string", "json_dump"])

prop("C02", "Serialized form is pure JSON in the documented representation",
     """Serializing any supported value yields only plain JSON data (null, booleans, numbers, strings, arrays, objects
     with string keys) that has exactly the documented representation: ISO 8601 for dates, times, timestamps (UTC written as Z) and
     durations, Base64 for bytes, canonical text for UUIDs and IP addresses, the form of the member value for enumerations, arrays
     for lists, sets and tuples, and objects whose members are the non-null fields under their external names, in
     declaration order. The compact text produced from it is JSON that parses back to the same data.""",
     ["inputs", "programs"],
     "all supported types and values, typed and untyped containers, typed and untyped classes",
     """The tests assert the representation of some twenty literals; they never check that no Python object leaks at
     depth, nor all value classes (microseconds, offsets, negative durations, non-ASCII text, enum-keyed mappings).""",
     [SER, SZN, MAP],
     [("per-type serializers", SER), ("text dump", SZN), ("name mapping", MAP)],
     observe=["object_to_json", "json_dump_string", "json_dump"])

prop("C03", "Deserialization returns only values of the requested type, uncoerced",
     """Whenever deserialization into a type succeeds, the result is an instance of exactly that type at every depth and
     is the value the JSON document denotes: numbers, strings, booleans, null, arrays and objects are never accepted in
     place of one another (a boolean is not a number, a fraction is not an integer), fixed-length tuples have exactly
     their length, literals are one of the listed constants, and every array item and object member
     is reflected in the result (repeated set items once). A document is
     rejected exactly if it does not denote a value of the type.""",
     ["inputs", "programs"],
     "all supported types, all JSON documents (valid, near-valid by mutation, and arbitrary)",
     """The tests feed a dozen malformed documents to a handful of types; acceptance of a wrong document needs the
     unlisted combination of type, position and JSON kind.""",
     [DES, SZN, INS],
     [("kind checks in each deserializer", DES), ("forward reference evaluation", INS)],
     observe=["json_to_object", "json_to_generic"])

prop("C04", "Bad documents are rejected with documented errors, and only those",
     """Any JSON document that does not fit the requested type makes deserialization raise one of the documented key,
     value or type errors (or a plain value error for malformed text of a scalar), never an internal failure such as an
     attribute, lookup, recursion, arithmetic or argument error. The class of the error follows its cause: a wrong JSON
     kind is a type error (for an enumeration, a type or a value error), a missing or unrecognized object member or an
     exhausted union is a key error, and a null for a required member, a wrong tuple length or an unlisted enumeration
     value is a value error. The type stays fully usable afterwards and the document
     is left as it was.""",
     ["inputs", "programs", "histories"],
     "all supported types, all non-conforming JSON documents, at any depth, repeated any number of times",
     """Tests use assertRaises on a few documents; they cannot show that no document in the unbounded space triggers
     another exception.""",
     [DES, EXC, SZN],
     [("explicit raises in each deserializer", DES), ("exception types", EXC)],
     observe=["json_to_object", "json_to_generic", "exception type"])

prop("C05", "Object members: required, optional, default, null, unknown and renamed",
     """When an object is read into a class, each field takes the member under its external name (an explicit alias, or
     the name without the underscore that avoids a Python keyword); an absent or null member gives the declared
     default of a data class or named tuple field, a fresh result of its default factory, or null for an optional field without one, and is an error for any
     other field. Members that match no field are an error unless the caller asked to ignore them, in which case they
     never change the result. The same external names are used when writing, reading and in the schema.""",
     ["inputs", "programs", "configurations"],
     "all class definitions (fields, defaults, factories, aliases, inheritance), all subsets of members, both settings for unknown members",
     """Tests cover one class per rule; interactions (alias and default, factory shared between instances, optional
     without default in derived classes, unknown members at depth) are unbounded.""",
     [DES, SER, MAP, INS, SCH],
     [("field deserializers", DES), ("name mapping", MAP), ("property enumeration", INS)],
     observe=["json_to_object", "json_to_generic", "object_to_json", "classdef_to_schema"])

prop("C06", "Unions resolve to the first matching member or to the tagged member",
     """Reading a document into an untagged union gives what its first member type that accepts the document gives, and
     is an error exactly when no member accepts it, whatever the reason each member has for refusing. When all members
     are classes that share a property of literal type, the member is chosen by the value of that property alone and no
     other member is tried; a missing, unlisted or ill-typed tag is an error and so is a union whose members share a
     tag value. Writing a union writes its active member.""",
     ["inputs", "programs"],
     "all unions over the supported types in both syntaxes, nested anywhere, all documents",
     """Tests use two unions; order dependence and refusal reasons depend on every pair of member types and document.""",
     [DES, SER, INS],
     [("untagged union", DES), ("tagged union", DES), ("literal properties", DES)],
     observe=["json_to_generic", "json_to_object", "object_to_json"])

prop("C07", "Generated schemas are valid, self-contained and accept every instance",
     """For every supported type the generated JSON schema is valid under the chosen schema standard, every reference
     in it resolves within the document, and every definition in it is used. The JSON form of every value of the type
     that meets its declared constraints validates against the schema and passes object validation.""",
     ["inputs", "programs", "configurations"],
     "all supported type definitions, registered or not, all supported standards, all values meeting the constraints",
     """Tests compare a few literal schemas and never validate instances against them.""",
     [SCH, SER, AUX, DOC],
     [("type to schema mapping", SCH), ("definitions collected", SCH), ("meta-schema check", SCH)],
     state=[("type catalog", "registered types", SCH)],
     observe=["classdef_to_schema", "validate_object", "register_schema", "json_schema_type"])

prop("C08", "Generated schemas reject documents that do not fit the type",
     """The generated schema, with its formats asserted, rejects every document that the type cannot represent: a wrong
     JSON kind, a missing required or an unknown member, a value outside an enumeration or literal, a wrong tuple length
     or element, repeated set items, an unlisted key of an enumeration-keyed mapping, malformed text for dates, times,
     durations, UUIDs and IP addresses, and numbers or strings outside annotated range, precision or length. Object
     validation raises a validation error for the same documents, as far as the installed validator checks formats.""",
     ["inputs", "programs"],
     "all supported type definitions, all documents made non-conforming by a single or repeated mutation",
     """No test validates any document; a schema that is too permissive passes every existing test.""",
     [SCH, AUX],
     [("type to schema mapping", SCH), ("annotation constraints", SCH)],
     observe=["validate_object", "classdef_to_schema"])

prop("C09", "Schema annotations, definitions and options are faithful to the type",
     """The schema lists exactly the fields of a class under their external names in order, marks required exactly the
     non-optional ones, and carries for each its declared default when that default is a plain JSON-representable scalar, its documented
     description, and the format of fixed-width and well-known types; titles and descriptions of classes and
     enumerations, and examples, appear exactly when the options ask for them. A registered class is always referenced by its registered name with the registered
     or derived schema under definitions, and the option for the definitions path and the description transformer are
     honoured everywhere. The schema names the chosen standard, and is refused with TypeError exactly if that standard does not allow it.""",
     ["inputs", "programs", "configurations"],
     "all supported type definitions with any docstrings, defaults and registrations, all schema option settings",
     """Tests compare five literal schemas with one or two option settings.""",
     [SCH, DOC, AUX, NAM],
     [("class to schema", SCH), ("docstring extraction", DOC), ("auxiliary formats", AUX)],
     state=[("type catalog", "registered types", SCH)],
     observe=["classdef_to_schema", "register_schema", "json_schema_type", "get_schema_identifier"])

prop("C10", "Results do not depend on what the process did before",
     """The outcome of serializing, deserializing or generating a schema depends only on the type, the data and the
     options given, never on earlier calls: not on options used before, on other types (even ones with the same name in
     the same or another module, or redefined ones), on the order of first use, or on earlier calls that failed.""",
     ["histories", "inputs"],
     "all sequences of public operations over several types, including failing ones, in any order",
     """Each test runs one fixed history on process-wide caches; cross-talk needs a particular pair of earlier and later calls.""",
     [DES, SER, SCH, SZN],
     [("deserializer cache", DES), ("serializer cache", SER), ("type catalog", SCH)],
     state=[("deserializer cache", "parsers shared by all callers", DES), ("serializer cache", "", SER)],
     observe=["all public operations, compared with a process in which only the last call is made"])

prop("C11", "Concurrent callers get the same results as sequential ones",
     """When any number of threads serialize, deserialize or generate schemas at the same time, including the very
     first use of a type by several threads at once, each call returns or raises exactly what it would if the calls ran
     one after another. No interleaving lets one thread see half-prepared state of another, and no interleaving
     deadlocks.""",
     ["schedules"],
     "all thread interleavings of public operations on fresh and shared types",
     """The test suite is single threaded.""",
     [DES, SER, SCH, DOC],
     [("publication of parsers", DES), ("memoized serializers", SER)],
     state=[("deserializer cache", "parsers shared by all threads", DES)],
     observe=["results and exceptions per thread under a controlled scheduler and under stress"])

prop("C12", "Operations do not modify or alias their inputs, types or shared state",
     """No operation changes the objects, documents, schemas, types or options passed to it, and results share no
     mutable structure with the inputs, with field defaults produced by factories, with the registered schemas and
     examples, or with earlier results: changing one result never affects a later one. Processing types never alters
     the types themselves or standard library classes.""",
     ["inputs", "histories"],
     "all public operations on all inputs, followed by arbitrary mutation of the results",
     """Tests look at each result once and never mutate it.""",
     [SER, DES, SCH, CDF, COR],
     [("fresh containers", SER), ("schema copies", SCH), ("class generation", CDF)],
     state=[("type catalog", "registered schemas and examples", SCH)],
     observe=["deep snapshots before and after; object identity graph of results"])

prop("C13", "A class generated from a schema has the meaning of the schema",
     """For every schema in the supported subset, the generated class has one field per schema property with the type,
     optionality and default the schema gives, titles (with descriptions) become its documentation, its enumerations have a member of a proper name for
     every listed value, classes of definitions bear the name of the definition, and documents that conform to
     the schema deserialize into it and serialize back to the same document, up to null members and filled-in defaults.
     Definitions may refer to one another in any order; a schema outside of the subset (other keywords, open objects,
     misplaced or ill-typed defaults, dangling references) is refused instead of given a class of another meaning.
     Generating a class from the schema of a class in the subset gives an equivalent class.""",
     ["inputs", "programs"],
     "all JSON schemas in the supported subset, all conforming documents",
     """Tests convert about ten small schemas and compare the types only.""",
     [CDF, SCH, DES],
     [("schema nodes", CDF), ("class construction", CDF)],
     observe=["schema_to_type", "json_to_object", "object_to_json", "classdef_to_schema"])

prop("C14", "Flattening a schema keeps exactly its leaf properties",
     """Flattening an object schema lifts the members of nested objects one level (or all levels when asked for) and
     keeps every other property unchanged and in order; a lifted member is required exactly if its own object required
     it, names are prefixed with their path exactly when qualified names are requested, and the input is not modified.""",
     ["inputs", "configurations"],
     "all nested object schemas, all four option settings",
     """The tests flatten two schemas.""",
     [CDF],
     [("flattening", CDF)],
     observe=["flatten_schema"])

prop("C15", "Topological sort gives each node once, after all nodes it depends on",
     """Sorting an acyclic graph returns every node exactly once with each node after everything it depends on, ignoring
     self-loops, and fails on every graph with a longer cycle without altering the graph. Sorting types returns the
     given types and exactly the types they reference directly or indirectly, each once and after its dependencies
     (including those reported by the caller's function, which is only ever asked about those types).""",
     ["inputs", "programs"],
     "all finite graphs; all sets of type definitions and dependency functions",
     """Tests sort two graphs and one list of types.""",
     [TOP, INS],
     [("depth-first sort", TOP), ("type dependency graph", INS)],
     observe=["topological_sort", "type_topological_sort"])

prop("C16", "Type collection finds exactly the types reachable from a type",
     """The set of types referenced by a type expression is exactly the set of classes reachable through its structure:
     container, union, optional and annotated arguments, string and forward references, and the fields of every class
     reached, at any depth and through cycles. It contains nothing else and does not depend on how the annotation is
     spelled.""",
     ["inputs", "programs"],
     "all type expressions over all class definitions, recursive ones included",
     """Tests check three expressions.""",
     [INS],
     [("type collector", INS), ("forward reference evaluation", INS)],
     observe=["get_referenced_types"])

prop("C17", "Textual type names denote the type they were produced from",
     """The text produced for a type, in either union notation, evaluates back to the same type in a scope that has
     the names it mentions, annotations and literal arguments included. Simple names of types are the name of the
     class or of the fixed-width type, composite names are built from those of all their parts, and a type without a
     simple name is refused.""",
     ["inputs", "programs"],
     "all type expressions (generics, unions, literals, annotated, forward references, callables)",
     """Tests compare some forty fixed strings.""",
     [NAM, AUX],
     [("type formatter", NAM), ("simple names", NAM), ("fixed-width types", AUX)],
     observe=["python_type_to_str", "python_type_to_name", "TypeFormatter"])

prop("C18", "Docstring text survives parsing and printing",
     """Parsing a docstring yields its short and long description, and every parameter, return, exception and
     see-also entry with its full text; printing the result and parsing it again gives the same result. Parsing never
     fails, whatever the text.""",
     ["inputs"],
     "all texts, well-formed docstrings of any size and arbitrary strings",
     """Tests parse about eight docstrings.""",
     [DOC],
     [("docstring parser", DOC), ("docstring printer", DOC)],
     observe=["parse_text", "str of the parsed docstring", "full description"])

prop("C19", "Docstrings of types are matched against the definition",
     """Parsing the docstring of a data class or function attaches to each documented parameter, return value and
     exception the type that the definition gives it, and refuses a docstring naming a parameter the definition lacks,
     an unknown exception, or a return value without annotation. Strict checks also refuse every undocumented member.
     The text that is generated automatically for data classes is never taken for documentation.""",
     ["inputs", "programs"],
     "all data classes, functions, enumerations and plain classes with any docstring",
     """Tests parse the docstrings of about ten fixed definitions.""",
     [DOC, INS],
     [("docstring check", DOC), ("type attachment", DOC)],
     observe=["parse_type", "check_docstring", "has_docstring", "has_default_docstring"])

prop("C20", "Custom conversion hooks are used wherever the type occurs",
     """If a class defines its own conversion to JSON, every value of it is written with that conversion wherever it
     occurs (top level, fields, containers, unions, subclasses), and likewise its own conversion from JSON is used, with
     exactly the JSON data at that place, wherever the type is read; each is called once per value. No other rule for
     reading or writing takes precedence, and results and errors of the hook reach the caller unchanged.""",
     ["inputs", "programs"],
     "all classes with hooks (data classes, plain classes, named tuples, enumerations), all places of occurrence",
     """Tests use one class with hooks at three places.""",
     [SER, DES],
     [("custom serializer", SER), ("custom deserializer", DES)],
     observe=["calls to the hooks, object_to_json, json_to_object"])

prop("C21", "Type inspection agrees with the structure of the type",
     """The predicates and extractors for optional, union, literal, list, set, dict, annotated, enumeration, data class
     and named tuple types give the true answer for every type expression in either notation, extracting gives back
     the parts the type was built from and keeps annotations, and fields are reported with resolved types and their defaults. A
     value is reported an instance of a generic type exactly if it is one at every depth, and a recursive check holds exactly if
     the predicate holds for every nested member.""",
     ["inputs", "programs"],
     "all type expressions and class definitions, all values and predicates",
     """Tests check each function on a few literals.""",
     [INS],
     [("predicates and extractors", INS), ("instance check", INS), ("recursive check", INS)],
     observe=["inspection functions"])

prop("C22", "The same program gives the same output in every process",
     """Serialized data, compact text, schemas, error classes, type names and topological orders required to be unique
     do not vary between runs of the same program: not with the hash seed, locale, time zone or import order. Order of
     object members, schema properties, required names and definitions is part of the output.""",
     ["configurations", "histories"],
     "all hash seeds, time zones and optimisation levels, all supported types and values (sets excepted, whose order is unspecified)",
     """The tests run under one fixed hash seed and time zone.""",
     [SER, DES, SCH, NAM, TOP],
     [("ordered iteration over fields and definitions", SCH), ("tag properties", DES)],
     observe=["digest of outputs in separate processes"])

prop("C23", "Values that JSON cannot represent are refused when written",
     """Serializing functions, methods, classes, modules, decimals that are not finite, and timestamps without time zone raises
     an error instead of writing something that is not the value, at whatever depth the value occurs in containers or objects. Types for which
     no reader or writer can exist (mapping keys that are not text, mixed-type literals and enumeration keys, containers
     without item type, unknown special forms) are refused when first used, every time they are used.""",
     ["inputs", "programs", "histories"],
     "all unsupported values and types, at any depth, repeated",
     """Tests try six values at top level once.""",
     [SER, DES],
     [("early failure on exotic types", SER), ("type checks on build", DES)],
     observe=["object_to_json", "json_to_generic", "create_serializer", "create_deserializer"])

prop("C24", "Annotation, enumeration and class helpers keep their contract",
     """Annotation classes are immutable, hashable values that compare by content and print as the expression that
     creates them; extending an enumeration gives one with the members of both in order and refuses duplicate values;
     dynamically created data classes and modules have the fields and name asked for. Fixed-width types are recognised
     by their own name and only by it.""",
     ["inputs", "programs"],
     "all annotation classes and arguments, all enumeration pairs, all field lists",
     """Tests use one or two instances of each helper.""",
     [AUX, INS],
     [("annotation decorator", AUX), ("enumeration extension", INS), ("dynamic classes", INS)],
     observe=["typeannotation", "extend_enum", "create_data_type", "create_object", "get_auxiliary_format"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
