"""per property: level, what is proved, what is bounded, what is assumed"""
TRUSTED = [
    "Verus 0.2026.09.13, its bundled Z3, rustc",
    "vx (the extractor): the rewrites listed in DESIGN.md preserve meaning",
    "the contract text in /verif/units states the property",
]
ASSUME = [
    "the contracts on std, petgraph, semver, cfg-expr, camino and serde stand-ins (listed mechanically in trusted_base) describe those libraries",
    "strings are their UTF-8 bytes; a string or vector never exceeds isize::MAX",
    "allocation succeeds and the process is not killed",
]
META = {}


def meta(p, level, note, bounded, assume=(), hx=(20000, 25), targets=False):
    META[p] = dict(level=level, note=note, bounded=list(bounded), assume=list(assume), hx=hx, targets=targets)


meta("C15", "proof", "ParsedFeature::from and ParsedFeature::feat are under contract; classification, parts, uniqueness and round trip are proved for all strings.", [], hx=(200000, 20))
DOC = 'the document is cargo-consistent (doc_ok and agrees in unit top): one node per package, distinct identifiers, dependencies and members that have nodes, declared links, requested features enabled'
WHOLE = 'Every statement of build_with_metadata is under contract: reading the document (units build_nodes, prep, index, roots), the walk, with termination (visit), making nodes and edges (build_nodes, edges), and the body itself over the contracts of its parts (whole, top). '
HX = "the whole property on generated documents, against an oracle written from the property text"
meta("C01", "proof", "Kid::from is under contract (with its parsing closure and, as fragments of their own, the decoding loop, the table of escapes and the choice of the parts): for every id of either form, written from any name, version, source, reference and explicit or implied name, the identifier's three parts are exactly those; no panic and no slice off a char boundary is reachable.", [])
meta("C02", "proof", "Ord, PartialOrd, PartialEq, Eq, Hash and the accessors of Kid are under contract: the order is the lexicographic order of the three parts, total, and equality and hash agree with it, for all identifiers satisfying the component invariant.", [], assume=["the component invariant, which Kid::from establishes (proved under C01)"])
meta("C03", "proof", WHOLE + "For every consistent document every package becomes exactly one node, in strictly increasing order of the identifiers, with its own data, or is handed to the callback exactly once, in order; len and the crate iterator are under contract too. Unit order: two documents with the same things in their arrays, in any order, have the same crates (order_free); this covers packages, members, nodes, the dependencies, features and link kinds of a node, and the declarations, targets and feature lists of a package.", [], assume=[DOC, "for the order of the arrays: a link stands for one declaration, a package has one library at most, the ids of a document have one form, and the index answers the same question the same way"])
meta("C04", "proof", WHOLE + "The crates of the graph are those, and the edges between them and their features are those, that the least set closed under the property's rules calls for (graph_is): each kept link has its edge with kind and target expression, and each edge a kept link or an enabled `name/feature` entry.", [], assume=[DOC])
meta("C05", "proof", "Builder::ignore_kind, the kind bits, DepKind's conversions and the edge filter (the closure that decides each resolved link) are under contract: the settings accumulate, and a link is dropped for its kind exactly when its kind is ignored in the scope of its dependent. That the walk asks it about every resolved link of an included crate is proved under C04.", [])
meta("C06", "proof", "Target::from, TargetFilter::eval, TargetFilter::matches_triple, MdTarget::from and the edge filter are under contract, with and without the crate feature `targets`: a link is dropped for its target exactly when no selected target, evaluated on its own, satisfies its expression or is its triple. That the walk asks it about every resolved link of an included crate is proved under C04.", [], targets=True)
meta("C07", "proof", WHOLE + "PkgSpec::matches answers exactly as the property says for every spec and every package whose source has the form cargo writes. An excluded crate is never in the graph and contributes nothing; every other crate is in the graph exactly when it is derivable without it.", [], assume=[DOC])
meta("C08", "proof", WHOLE + "The choice of the roots, Builder::include_workspace_crates and Builder::workspace are under contract: for every workspace, selection and file system, the roots the build starts from are exactly those the property names, and a selected path stands for the manifest it names or contains, links followed. A root carries every feature the metadata resolved for it (feats_ok).", [], assume=["a path resolves the same way each time it is asked about", DOC])
meta("C09", "proof", WHOLE + "get_enabled_features is under contract, and the features each crate node reports contain what the rules switch on (all resolved ones for a root) and stay within the closure of these under the references in the crate's own feature lists (feats_ok).", [], assume=[DOC])
meta("C10", "proof", WHOLE + "resolved_dependency is under contract, and in every built graph a declaration leads to a crate exactly when a kept link to that crate stands for it (map_ok); which declaration a link stands for is decided by the edge filter, dep_names_match and compare_paths, all under contract.", [], assume=[DOC])
meta("C11", "proof", "Every public lookup of Krates is under contract for all graphs satisfying the shape invariant (C03/C20): binary search, indexing, name and requirement searches, workspace members, enabled features. That every build returns a graph of that shape follows from what C03, C04 and C20 prove of it (unit shape: built implies wf).", [])
meta("C12", "proof", "direct_dependencies, direct_dependents and get_deps are under contract for all graphs: results are exact, once each. That every build returns a graph of that shape follows from what C03, C04 and C20 prove of it (unit shape: built implies wf).", [])
meta("C13", "proof", "krates_filtered is under contract for all graphs satisfying the shape invariant. That every build returns a graph of that shape follows from what C03, C04 and C20 prove of it (unit shape: built implies wf).", [])
meta("C14", "proof", "PkgSpec::from_str is under contract for all strings: the result is exactly the name, version and url the grammar gives, or a rejection, and no step can panic.", [], assume=["`semver::Version::parse` decides what a version is; `char::is_alphabetic` tells a name from a version after `#`"])
meta("C16", "proof", "CachingIndex and fix_features are under contract for every index answer: which version is consulted, the features it adds, the implied ones, and that nothing else of the package changes. The statements of build_with_metadata that use them are as well: the index is asked once, with exactly the names of the packages, and every package is corrected; without an index nothing changes.", [])
meta("C17", "proof", "The setters of Cmd and MetadataCommand, From<Cmd> and cargo_command are under contract; a lemma over these contracts gives the whole command line for all options: each requested flag exactly once, in any order among themselves, before the extra options.", [], assume=["a manifest path has a parent directory"])
meta("C18", "proof", "root_package, workspace_packages, workspace_default_packages, indexing, license_file and readme are under contract for all documents.", [])
meta("C19", "proof", WHOLE + "No step can panic or overflow, every loop terminates, and the build fails exactly when the document has no resolve graph, with that error, or when every root is excluded (or there is none), with the other one (some_root, roots_decide).", [], assume=[DOC, "petgraph panics only beyond 2^32 - 1 nodes or edges, which a document in memory does not reach"])
meta("C20", "proof", WHOLE + "In every built graph the crates come first, further nodes are features of these crates, a plain dependency edge joins two crates, one that asks for a feature leads to that feature's node, feature edges start at a feature or lead from a crate to one, and every reported feature that is declared and enabled has its node with an edge to its crate.", [], assume=[DOC])
SERDE = "what serde, serde_json, semver, camino and std read and write for their own types (strings, numbers, options, vectors, maps, versions, paths) is what units/prelude/serde.rs and ser.rs say, and a reader hands a visitor the entries of the object in the order of the document"
meta("C21", "proof", "Every reader is under contract, as rustc expands it (unit de): the visitors of the eight structs, the readers of the enums with their name tables, of the identifiers, of the minimum Rust version and of skipped values, and the `deserialize` of each. For every document, key order and set of unknown keys, reading succeeds exactly when every required field is there and every value is one its field accepts, and each field is the document's value, or its default when absent.", [], assume=[SERDE, "a key that stands twice in one object: the last one counts, except that a minimum Rust version is then not specified"])
meta("C22", "proof", "Every writer is under contract, as rustc expands it (unit ser): each field is written exactly once, under cargo's key for it. The lemma round_trip, over the contracts of the writers and of the readers (unit de), gives for every metadata value that what was written is accepted and reads back as an equal value, field by field.", [], assume=[SERDE, "semver reads back what it displays; a minimum Rust version has no pre-release or build part, which cargo does not allow and reading rejects (C21)"])
