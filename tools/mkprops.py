#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})
B, L = "src/builder.rs", "src/lib.rs"

p("C01", "Package ids split into exactly the name, version and source cargo encoded",
  "For every package id cargo writes, in the old `name version (source)` form and in the stable URL form, the parsed identifier reports exactly the encoded package name, version and source. The source carries no parentheses and no commit hash, the name falls back to the last path component of the source when the id does not repeat it, and percent-encoded printable ASCII in a git reference is decoded. Parsing such an id never panics.",
  ["inputs"], "every package id in either format, with every source kind, reference kind, version shape and supported percent escape in any position and number",
  "Eleven fixed ids and three metadata files are parsed in the tests; escapes, mixed escapes and the combination of a reference with an explicit name are sampled at one point at most.",
  [L], [("Kid::from(PackageId)", "src/lib.rs"), ("Kid::{name,version,source}", "src/lib.rs")], ["Kid::name / version / source"],
  [("components", "byte ranges of name, version, source in the id string", "src/lib.rs Kid")])
p("C02", "Crate identifiers have one lawful order, equality and hash",
  "Crate identifiers are ordered lexicographically by name, then version, then source, compared as strings, and this is a total order. Two identifiers are equal exactly when all three parts are equal, whatever form the id they came from was written in. Equal identifiers hash equally.",
  ["inputs"], "all pairs and triples of crate identifiers, from ids of either format",
  "Tests only ever sort lists that cargo already sorted and never compare identifiers across formats or hash them; the laws quantify over all triples.",
  [L], [("Ord/PartialOrd/Eq/Hash for Kid", "src/lib.rs")], ["Ord, Eq, Hash impls of Kid"])
p("C03", "Every package is either one crate node, in order, or reported as filtered once",
  "After a build every package of the metadata is either present as exactly one crate of the graph or handed to the filter callback exactly once, never both. The crates of the graph are in strictly increasing order of their identifiers, and the reported length and the crate iterator agree with them and carry each package's own data. The order of the arrays in the metadata document does not affect which crates are included.",
  ["inputs", "configurations"], "every resolved metadata document with its arrays in any order, and every builder configuration",
  "The snapshots use a dozen metadata files in cargo's own order, so losing, duplicating or misordering packages on other shapes is not seen; no test counts callbacks against nodes.",
  [B, L], [("package sorting and node insertion in build_with_metadata", B), ("Krates::krates / len", L)], ["Krates::krates, Krates::len, OnFilter::filtered"])
p("C04", "The graph is exactly the dependency closure of the roots",
  "A crate is in the graph exactly when a chain of kept dependencies leads to it from a selected root. A resolved dependency link of an included crate, for one dependency kind and target, is kept exactly when it passes the kind, target and exclusion filters and is either not optional or switched on by an enabled `dep:name` or `name/feature` of that crate; weak `name?/feature` entries never add one. Each kept link appears between the two crates with its kind and its target expression, and no other dependency link appears.",
  ["inputs", "configurations"], "every cargo-consistent metadata document (any size, depth and shape of dependencies, features, renames) and every builder configuration",
  "Reachability is a property of every path: tests compare a few fixed graphs, where a missing or phantom crate on another shape is invisible.",
  [B], [("the visit loop and its edge filter in Builder::build_with_metadata", B), ("edge attachment", B)], ["Krates::graph, Krates::krates"],
  [("dep_edge_map", "crates and links kept so far", B), ("visit_stack", "crates and features still to expand", B)])
p("C05", "Ignoring a dependency kind in a scope drops exactly those links",
  "Ignoring a dependency kind for workspace crates, for non-workspace crates or for all crates removes exactly the dependency links of that kind whose dependent is in that scope, and leaves links of other kinds or from crates outside the scope untouched. Several such settings accumulate, independent of their order. Without any setting no link is removed for its kind.",
  ["inputs", "configurations"], "all sets and orders of (kind, scope) settings, all dependency kinds, dependents inside and outside the workspace",
  "The tests apply a handful of the 512 setting sets to one metadata file.",
  [B], [("Builder::ignore_kind", B), ("mask test in the edge filter of build_with_metadata", B)], ["Krates::graph"],
  [("ignore_kinds", "bit set of (kind, scope)", "src/builder.rs Builder")])
p("C06", "Target-specific dependencies are kept exactly when some selected target matches",
  "When targets are selected, a dependency restricted to a `cfg(...)` expression is kept exactly when the expression holds for at least one selected target evaluated on its own with its promised target features, and a dependency restricted to a triple exactly when that triple is selected; an unknown triple satisfies no target predicate. When no target is selected every dependency is kept except those whose expression has no predicate and is false, such as `cfg(any())`. Unrestricted dependencies are never dropped for their target.",
  ["inputs", "configurations"], "all cfg expressions over the predicates cargo accepts, all selections of builtin and custom targets with target features",
  "A few expressions against a few targets are snapshotted; combinations of not/any/all over several targets are not.",
  [B, L], [("TargetFilter::eval / matches_triple", B), ("target part of the edge filter", B), ("Builder::include_targets, Target::from", B), ("MdTarget::from", L)], ["Krates::graph"])
p("C07", "An excluded package and whatever only it brings in disappear, nothing else",
  "A package is excluded exactly when some exclusion spec matches it: the names are equal, the versions are equal if the spec has one, and, if both the spec has a url and the package a source, the url equals the source without its kind prefix, query and fragment. An excluded package is never a crate of the graph, and every other crate stays exactly as long as it is still reachable without it.",
  ["inputs", "configurations"], "all sets of specs (name, version, url in every combination) and all packages with every kind of source",
  "Three exclusion tests on one file; agreement of the matcher with every source form and removal of only-reachable-through crates are sampled once.",
  [B, "src/pkgspec.rs"], [("PkgSpec::matches", "src/pkgspec.rs"), ("exclude test in the visit loop", B)], ["PkgSpec::matches, Krates::krates"])
p("C08", "The roots of the graph follow the workspace selection",
  "Without a crate selection the roots are the single root package the metadata names, unless the whole workspace was requested or there is none, and then all workspace members. With a selection of paths the roots are exactly the members whose manifest is one of the selected paths, a directory standing for the Cargo.toml in it and symlinks being followed; selecting only the path of the workspace root itself selects all members. Roots carry all the features the metadata enabled on them.",
  ["inputs", "configurations"], "all workspaces (virtual or rooted, any number of members) and all selections of paths, existing or not, direct or through symlinks",
  "Three workspace tests select one or two members by their plain path.",
  [B], [("roots block of build_with_metadata", B), ("Builder::include_workspace_crates, Builder::workspace", B)], ["Krates::krates"])
p("C09", "Enabled features are the closure over kept links",
  "For every crate of the graph the reported enabled features contain every feature that a kept dependency link on it asks for (including `default`, when the link uses default features and the crate has it enabled), that an enabled `name/feature` of a dependent switches on, that a `name?/feature` of a dependent switches on for a dependency that is kept otherwise, and everything these features imply inside the crate. Apart from names taken over from dependency references in its own feature lists, no feature is reported that is not enabled in one of these ways. Root crates report all features the metadata enabled on them.",
  ["inputs", "configurations"], "all feature tables (chains, cycles, weak, strong, renamed and optional dependencies) and all configurations",
  "Feature unification is a fixpoint over the whole graph; the tests fix a dozen feature tables.",
  [B, "src/builder/features.rs"], [("feature part of the visit loop", B), ("feature nodes and edges", B)], ["Krates::get_enabled_features"])
p("C10", "A dependency declaration maps to the crate it resolved to",
  "For each crate of the graph and each of its dependency declarations, asking what the declaration resolved to gives the crate that cargo resolved this declaration to when the link was kept, and nothing when it was pruned, optional and not enabled, or out of range. This also holds when several declarations name the same package under different renames, versions, sources, kinds or targets.",
  ["inputs", "configurations"], "all crates and declaration indices of all graphs",
  "One snapshot checks the mapping for one crate; declarations sharing a package name or a rename are rare in the fixtures.",
  [B, L], [("dep_index selection in the edge filter", B), ("dep_mapping", B), ("Krates::resolved_dependency", L)], ["Krates::resolved_dependency"],
  [("dep_mapping", "declaration index to node", "src/lib.rs Node::Krate")])
p("C11", "Lookups return exactly the matching crates",
  "Looking up an identifier returns the crate with that identifier if it is in the graph and nothing otherwise, and node index, node and enabled-feature lookups agree with each other and with indexing. Searching by name, with or without a version requirement, returns every crate with that name that satisfies the requirement, once each and in graph order, and no other. The workspace member iterator yields exactly the members that are in the graph, and looking up a crate's feature yields a node of that very feature and crate or nothing.",
  ["inputs"], "all graphs, all identifiers (present, absent, between two present ones), names, requirements and indices",
  "Binary search correctness depends on the position and on absent keys; tests look up a few present names.",
  [L], [("nid_for_kid, node_for_kid, get_node, get_enabled_features", L), ("search_matches, krates_by_name, workspace_members, Index", L)], ["the public lookup functions of Krates"])
p("C12", "Direct dependencies and dependents are computed exactly",
  "The direct dependencies of a node are exactly the crates reached from it over edges on which every intermediate node is a feature node; the direct dependents of a crate are exactly the crates with an edge to it or to one of its own feature nodes that has an edge to it. Each such crate is listed once, with its own node and an edge that enters, respectively leaves, it. The dependency iterator yields every outgoing edge of a node with its target.",
  ["inputs"], "all nodes of all graphs, including chains and cycles of features",
  "Snapshots cover a few crates; features chains, cycles and several edges to one crate are not enumerated.",
  [L], [("Krates::direct_dependencies, direct_dependents, get_deps", L)], ["Krates::direct_dependencies, direct_dependents, get_deps"])
p("C13", "Filtering a built graph by kind keeps exactly the still reachable crates",
  "Asking a built graph for the crates without a dependency kind returns exactly the workspace members in the graph and the crates reachable from them without following a dependency edge of that kind. Each crate is returned once, ordered by identifier.",
  ["inputs", "configurations"], "all graphs and all three kinds",
  "One snapshot test; diamonds in which one path is cut and another is not need particular shapes.",
  [L], [("Krates::krates_filtered", L)], ["Krates::krates_filtered"])
p("C14", "Package specs parse to exactly their parts or are rejected",
  "Parsing a package spec never panics: `name`, `name:version`, `name@version`, `url`, `url#name`, `url#version` and `url#name:version` yield exactly the written name, version and url, the name defaulting to the last path component of the url, and a url without a scheme gets the `cargo://` scheme. Specs with an invalid character in the name, an unparsable version, an empty part after `#`, `:` or `@`, or a url without path or ending in `/` are rejected.",
  ["inputs"], "all strings",
  "A dozen examples; the grammar's separators can appear in any combination and position.",
  ["src/pkgspec.rs"], [("FromStr for PkgSpec", "src/pkgspec.rs")], ["str::parse::<PkgSpec>"])
p("C15", "Feature entries are classified by cargo's grammar",
  "An entry of a feature list is a dependency reference if it starts with `dep:`, otherwise a weak dependency feature if it contains `?/`, otherwise a dependency feature if it contains `/`, otherwise a plain feature. The parts reported are exactly the text before and after the first such separator, so writing them back in their form gives the original entry.",
  ["inputs"], "all strings",
  "Only entries occurring in the fixtures are parsed.",
  ["src/builder/features.rs"], [("ParsedFeature::from, ParsedFeature::feat", "src/builder/features.rs")], ["ParsedFeature::feat"])
p("C16", "Index features only add to crates.io packages",
  "With an index configured, a crates.io package whose exact version the index lists gains the index's features it does not declare itself, plus an implied feature enabling the dependency for every plain feature name that is referenced but not declared after that; features it declares keep their value. Packages from other sources and packages or versions the index does not list are unchanged. The index is asked once, with exactly the set of package names.",
  ["inputs"], "all feature tables, index contents, sources and versions",
  "One test with one crate uses an index.",
  ["src/builder/index.rs", B], [("fix_features, CachingIndex", "src/builder/index.rs"), ("Builder::with_crates_io_index", B)], ["feature tables of the packages in the built graph"])
p("C17", "The cargo command line says exactly what was requested",
  "The cargo command built from the options runs `metadata --format-version 1` with the configured cargo, and carries each requested option (all features, no default features, the sorted set of requested features, frozen, locked, offline, no-deps) exactly when it was requested, followed by the extra options in the order given. When a manifest path is given the command runs in the manifest's directory on `Cargo.toml` there; otherwise it runs in the configured directory, if any. Configured environment variables are passed on.",
  ["inputs", "configurations"], "all combinations and orders of options",
  "The tests never look at the command line, and each option is used alone at most.",
  [B, "src/cm/cmd.rs"], [("From<Cmd> for MetadataCommand and the Cmd setters", B), ("MetadataCommand::cargo_command and its setters", "src/cm/cmd.rs")], ["std::process::Command getters"])
p("C18", "Metadata helpers select exactly the named packages",
  "The root package of a metadata document is the package the resolve graph names as root, or, without a resolve graph, the package whose manifest is the Cargo.toml in the workspace root. The workspace packages and default packages are exactly the packages listed as members, in document order, and indexing by package id returns the package with that id. The license and readme paths of a package are its declared paths relative to the directory of its manifest.",
  ["inputs"], "all metadata documents, with and without resolve graph, members in any order",
  "No test calls these helpers.",
  ["src/cm.rs"], [("Metadata::{root_package,workspace_packages,workspace_default_packages}, Index", "src/cm.rs"), ("Package::{license_file,readme}", "src/cm.rs")], ["the public helpers of Metadata and Package"])
p("C19", "Building ends in a graph or the documented error, never a panic",
  "For every cargo-consistent metadata document and every configuration the build terminates without panicking. It fails exactly when the metadata has no resolve graph, or when no crate is left because no root was selected or every root is excluded, with the error that says so.",
  ["inputs", "configurations"], "all cargo-consistent documents (including cyclic dev-dependencies and feature cycles) and configurations",
  "The build has a dozen unwraps, unreachable branches and index operations whose safety depends on the whole document; tests exercise them on a few documents.",
  [B, "src/errors.rs"], [("Builder::build_with_metadata", B)], ["Result of Builder::build_with_metadata"])
p("C20", "The graph keeps its crate/feature shape",
  "In every built graph the crates occupy the first nodes and all further nodes are feature nodes that belong to one of these crates. A plain dependency edge joins a crate to a crate, a dependency edge that asks for a feature joins a crate to a feature node of the dependency, and feature edges start at a feature node or lead from a crate to a feature node. Every reported feature that the crate declares and the metadata enabled has a node with an edge to its crate.",
  ["inputs", "configurations"], "all metadata documents and configurations",
  "Every query of the library relies on this shape, and tests only see it through dot snapshots of a few graphs.",
  [B, L], [("node and edge insertion in build_with_metadata", B)], ["Krates::graph"])
p("C21", "Reading metadata keeps every field",
  "Deserializing a metadata document yields, for every field, exactly the value in the document, whatever the order of the keys and whatever unknown keys are present, or the documented default when an optional field is absent, or null where cargo may write null. A document lacking a required field, or with an unknown dependency kind, target kind, crate type or edition, is rejected. A minimum Rust version with two components is read as that version with patch 0, and one with pre-release or build parts is rejected.",
  ["inputs"], "all metadata documents, all key orders, all subsets of optional fields",
  "Tests read documents in cargo's key order with cargo's full set of keys and check few fields.",
  ["src/cm/de.rs", "src/cm.rs"], [("the map! visitors, deserialize_rust_version", "src/cm/de.rs"), ("FromStr for TargetKind, CrateType, Edition", "src/cm.rs")], ["serde_json::from_str::<Metadata>"])
p("C22", "Writing metadata and reading it back changes nothing",
  "With serialization enabled, writing any metadata value and reading it back yields an equal value, field by field. Each field is written once, under the key cargo uses for it.",
  ["inputs"], "all metadata values",
  "No test enables the serialization feature.",
  ["src/cm/ser.rs", "src/cm/de.rs"], [("the map! serializers", "src/cm/ser.rs"), ("the map! visitors", "src/cm/de.rs")], ["serde_json::to_string, serde_json::from_str"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
