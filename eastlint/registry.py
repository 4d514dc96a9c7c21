"""Which decider decides which property.  One line per claimed property:
id -> (module, function, technique, level_note)"""

_COMMON = "Decided from the type-checked program and the MIR that rustc produces for /repo's current source (release flags: overflow checks and debug assertions off); nothing of /repo is run. "

_AI = ("Every public entry point in scope is interpreted from every state its type's representation invariant admits; loops by verified inductive generalisation. "
       "An obligation is reported only when it is refuted; entry points the interpreter cannot decide are listed in the evidence.")
_SPEC = "Maps and tables are partitioned into explicit small shapes (up to three buckets or entries); agreement over a history follows by induction over operations only within those shapes."

CHECKS = {
    "C06": ("rules_sig", "c06", "signature and auto-trait lint over the type-checked public API (obtainable-type fixpoint)",
            _COMMON + "Trusts rustc's region and trait data and the classification of the crate's types into owners and views."),
    "C07": ("rules_sig", "c07", "type-flow lint: which public signatures and fields can produce a mutable path to a stored key",
            _COMMON + "Over all functions, fields and trait impls nameable through safe code; trusts rustc's type data."),
    "C08": ("rules_sig", "c08", "auto-trait obligations: every hand-written Send/Sync impl against the parts its type holds",
            _COMMON + "Raw pointers in a type are read as owning or borrowing what they point to."),
    "C09": ("rules_layout", "c09", "layout lint: repr and field sequence of every mirrored type against a committed table of the EASTL layout",
            _COMMON + "The committed table is the reference; a tuple of two fields is assumed to keep source order, which rustc does not promise."),
    "C19": ("rules_graph", "c19", "call-graph recursion analysis (strongly connected components of the instantiated call graph)",
            _COMMON + "Recursion through user-supplied code and through the balanced tree's height is accepted."),
    "C01": ("ai.checks", "c01", "abstract interpretation of MIR with a symbolic heap: size and alignment of every released block against its request",
            _COMMON + _AI),
    "C02": ("ai.checks", "c02", "abstract interpretation of MIR with a symbolic heap: block ownership ledger (leak, double release, use after release)",
            _COMMON + _AI),
    "C03": ("ai.checks", "c03", "abstract interpretation of MIR with element tokens: every element kept, handed out or dropped exactly once",
            _COMMON + _AI),
    "C04": ("ai.checks", "c04", "abstract interpretation of MIR with a symbolic heap: initialisation state of every slot read, dropped or exposed",
            _COMMON + _AI),
    "C05": ("ai.checks", "c05", "abstract interpretation of MIR along unwind edges: a panic injected at every call into user code",
            _COMMON + _AI),
    "C10": ("ai.checks", "c10", "abstract interpretation of MIR: terminator slot of every string at every exit",
            _COMMON + _AI),
    "C11": ("ai.checks", "c11", "abstract interpretation of MIR: provenance of string bytes (whole encoded characters, cuts on character boundaries)",
            _COMMON + _AI),
    "C12": ("ai.checks", "c12", "abstract interpretation of MIR: index and range obligations over symbolic lengths and capacities",
            _COMMON + _AI),
    "C13": ("ai.checks", "c13", "abstract interpretation of MIR with wrapping arithmetic: recorded capacity against the requested block",
            _COMMON + _AI),
    "C14": ("ai.checks", "c14", "abstract interpretation of MIR with failing allocations: no use of a null result",
            _COMMON + _AI),
    "C15": ("ai.checks", "c15", "abstract interpretation of MIR over lazily materialised node runs: stored count against the nodes linked, at every exit",
            _COMMON + _AI),
    "C18": ("ai.checks", "c18", "abstract interpretation of MIR over lazily materialised node runs: symmetry of the ring at every exit",
            _COMMON + _AI),
    "C20": ("ai.checks", "c20", "abstract interpretation of MIR: construction, move, use and pool release of every fixed container against its own buffer",
            _COMMON + _AI),
    "C16": ("ai.checks", "c16", "abstract interpretation of MIR: bucket index of every link, lookup and relink against hash modulo the bucket count in force; equality atoms of every lookup on explicit tables",
            _COMMON + _AI),
    "C17": ("ai.checks", "c17", "abstract interpretation of MIR: contents of every bucket array at every exit, writes to the shared static",
            _COMMON + _AI),
    "C21": ("ai.hashes", "c21", "abstract interpretation of MIR: result of every default hash as a term over the key's value; one term per text for all string-like keys; no reachable read of outside state",
            _COMMON + "Texts are partitioned by length (symbolic bytes) with a few longer ones followed exactly; a result the interpreter cannot express as a term is not judged and is listed in the evidence."),
    "C22": ("ai.growth", "c22", "abstract interpretation of MIR: result term of the growth policy on every path, the constant prime table, and what the table's callers pass and store",
            _COMMON + "Float terms are compared structurally; an alarm needs counts for which the path is taken and its result is wrong."),
    "C23": ("ai.checks", "c23", "abstract interpretation of MIR: insertion index against the recorded comparisons, on explicit vector shapes",
            _COMMON + _AI + _SPEC),
    "C24": ("ai.checks", "c24", "abstract interpretation of MIR: callback events against the state of the entry",
            _COMMON + _AI + _SPEC),
    "C25": ("ai.checks", "c25", "abstract interpretation of MIR: transfer function of every wrapper operation against that of the operation it is named after",
            _COMMON + _AI + _SPEC),
    "C30": ("ai.checks", "c30", "abstract interpretation of MIR: transfer function of every sequence operation against the sequence model",
            _COMMON + _AI + _SPEC),
    "C31": ("ai.checks", "c31", "abstract interpretation of MIR: transfer function of every map operation against the map model, on explicit shapes",
            _COMMON + _AI + _SPEC),
    "C32": ("ai.growth", "c32", "abstract interpretation of MIR: result terms of the default hashes and of the growth policy, and the constant prime table, against a committed transcription of the C++ library's",
            _COMMON + "The transcription is the reference; terms that are not literally the expected ones are compared at selected values only."),
    "C33": ("ai.checks", "c33", "abstract interpretation of MIR: successor function of the tree iterators on explicit well-formed trees",
            _COMMON + _AI + "Trees are partitioned into explicit red-black shapes of up to nine nodes; that the C++ library keeps the first node where this crate looks for it cannot be seen from this crate's source."),
    "C34": ("ai.checks", "c34", "abstract interpretation of MIR: into_compat and from_compat of the container iterators against what the C++ iterator pair designates",
            _COMMON + _AI + _SPEC + "The meaning of the C++ iterators (node and bucket, sentinel at the end; current, subarray bounds and subarray position) is transcribed from EASTL by hand. Pairs that end in the middle of a hash table are not modelled."),
    "C26": ("rules_graph", "c26", "interprocedural taint: raw pointers in safe public signatures must not reach a dereference",
            _COMMON + "A pointer stored in an object built by an unsafe constructor counts as trusted."),
}
