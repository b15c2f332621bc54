# TECH: deciding method; WHY: what it reaches beyond the tests; LIMIT: what it does not reach
_REF = "runtime monitoring: outcomes of generated workloads compared online with an independent reference model"
TECH = {
    "C01": _REF + " (reference encoder and reader)",
    "C02": _REF + " (reference encoder, grammar checks of text)",
    "C03": _REF + " (three-valued reference reader)",
    "C04": "runtime monitoring: monitor of exceptions (class, cause), of the caller's document and of the reader afterwards, under hostile documents",
    "C05": _REF + " (object members), identity monitor for factory results",
    "C06": "runtime monitoring: differential monitor (union against each member alone) and reference reader",
    "C07": "runtime monitoring: monitors of schemas (meta-schema, references, definitions) and validation of generated instances by an independent validator",
    "C08": "runtime monitoring: validation of hostile documents, reference model decides which must be rejected",
    "C09": "runtime monitoring: monitor walks type and schema side by side, records calls of the description transformer",
    "C10": "runtime monitoring: recorded histories compared offline with runs of each operation in a process of its own",
    "C11": "runtime monitoring: controlled scheduler (line and bytecode preemption) and thread stress, offline comparison with the sequential history, deadlock monitor",
    "C12": "runtime monitoring: deep snapshots and identity graphs of inputs, classes, standard library and results; overwriting of results and repetition",
    "C13": _REF + " (schema to class to schema, documents through generated classes)",
    "C14": _REF + " (flattening computed from the description)",
    "C15": "runtime monitoring: online checker of the order (each node once, after its dependencies), log of callback calls",
    "C16": _REF + " (closure over generated definitions)",
    "C17": "runtime monitoring: printed text evaluated in a scope with its names and compared structurally",
    "C18": "runtime monitoring: docstrings built from known parts and hostile text, parse-print-parse monitor",
    "C19": _REF + " (generated definitions)",
    "C20": "runtime monitoring: event log of hook calls, exactly-once and identity checker",
    "C21": _REF + " (tree of the expression), log of predicate calls",
    "C22": "runtime monitoring: logs of separate interpreters with different hash seed, time zone, locale, flags and import order compared offline",
    "C23": "runtime monitoring: paired workloads (representable and not) with a monitor of refusal at every place",
    "C24": "runtime monitoring: monitors of immutability, equality, hash, text and members under generated definitions",
}
_N = "No violation in the executions observed; "
NOTE = {
    "C10": _N + "histories of 24 operations over two or three programs are sampled, each operation repeated in a fresh process.",
    "C11": _N + "schedules with one preemption at each distinct line of the first thread are tried systematically, deeper ones are sampled; switches inside C functions only under stress.",
    "C12": _N + "mutable parts are found by walking containers and object attributes.",
    "C22": _N + "hash seeds, time zones, locales, flags and import orders are sampled.",
}
WHY = {
    "C01": "The tests convert a few dozen hand-written values; here types are composed at random, so that rules meet in combinations (an aliased optional enumeration-keyed dictionary in a keyword-only class inherited from another module) nobody wrote a test for.",
    "C02": "Tests compare a few literals. The oracle decides the exact text and member order of any value, including extreme dates, offsets with seconds, huge integers and decimals.",
    "C03": "The set of documents that must not be accepted is unbounded; mutation of valid documents finds the near misses at any depth.",
    "C04": "A test shows that one document fails with one error. The monitor holds for each document generated that nothing but the documented classes ever leaves the library, and that failing has no after-effects.",
    "C05": "Combinations of absent, null, renamed and unknown members times kinds of field are sampled densely, and results are checked for shared state, which a test that looks at one result cannot see.",
    "C06": "The first-match rule is a statement about all members and all documents; the differential monitor needs no expectation written by hand.",
    "C07": "Validity for every composition of types, and acceptance of every value, are universal statements; tests look at fixed schemas.",
    "C08": "The schema could be too weak anywhere and no test would fail, as tests validate good documents.",
    "C09": "Each keyword of each schema is compared with the definition, for random options; a misplaced description or default in a nested class is invisible to tests on fixed classes.",
    "C10": "Tests run each operation once in one order; caches and catalogs only show with histories.",
    "C11": "The test suite is single threaded.",
    "C12": "Tests look at each result once and never modify it.",
    "C13": "Tests convert fixed schemas; references between definitions in any order, cycles and names that need repair need random schemas.",
    "C14": "Tests flatten fixed schemas of at most two levels.",
    "C15": "Orders must hold for every graph; the checker judges any order rather than compare with one.",
    "C16": "Closure through cycles, strings and containers needs arbitrary graphs of classes and spellings.",
    "C17": "Evaluation of the text is an oracle for any expression.",
    "C18": "Parsing must not fail on any text.",
    "C19": "Kinds of parameters, defaults, inheritance and documentation combine freely.",
    "C20": "The log shows calls that leave no trace in the result, such as a hook called twice.",
    "C21": "Each predicate times each kind of expression, in each notation, with annotations at each place.",
    "C22": "The tests run under one hash seed and time zone.",
    "C23": "The place of the bad value is arbitrary; tests try the top level.",
    "C24": "Contents are arbitrary, and attempts to change a value are not part of any test.",
}
