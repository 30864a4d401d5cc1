NOT_APPLICABLE = []
NOTES = "All checks explore the real krates crate, built from /repo; see DESIGN.md."

EXPL = "explicit-state model checking: breadth-first exploration of cargo universes x builder configurations, every state executed on the real builder and compared with a reference resolver"
TRUST = " Trusts the reference resolver (mc/src/reference.rs) and the cargo model (mc/src/model.rs), which is compared with the real `cargo metadata` on every base universe and every single edit of one."
UNIV = "every universe reachable from 42 hand-written ones by up to 2 (quick) or 3 (thorough, wall-capped) single edits of a dependency, feature, rename, platform, source, patch, workspace or builder setting; from 8 larger ones by 1 (2) edits; every single edit under all 64 kind filters, 9 target sets, every exclusion, and in 3 other directories"
B = "src/builder.rs"

prop("C01", "The graph holds exactly the crates the configured resolution needs",
  "A graph built from cargo's metadata contains exactly the crates that are reachable from the selected root crates through dependencies that are active (optional ones only if an enabled feature strongly turns them on) and not removed by the builder's kind, target or exclusion filters. No needed crate is missing and no pruned, inactive or merely weakly referenced crate is present. If nothing remains, building fails with the dedicated error and never yields an empty graph.",
  ["inputs", "configurations"], "All metadata cargo can produce for small workspaces, times all builder configurations; explored: " + UNIV,
  "The suite snapshots about 20 fixed workspaces with one or two filters each; the interplay of features, kinds, platforms, sources and filters is only sampled.",
  [B], [("re-resolution worklist over (crate, feature)", "Builder::build_with_metadata")],
  "Every state within the bound is executed on the real code and its crate set compared with an independent fixpoint." + TRUST, EXPL, ["Krates::krates", "Krates::graph"])

prop("C02", "Every package is either in the graph or reported as filtered, once",
  "For every successful build, each package of the metadata is either a crate of the graph or is handed to the filter callback, never both and never neither, and is handed over at most once.",
  ["inputs", "configurations"], "All packages of all metadata and builder configurations; explored: " + UNIV,
  "Tests mostly pass a no-op callback; the partition is asserted for a handful of fixed graphs only.",
  [B], [("partition when crate nodes are created", "Builder::build_with_metadata, OnFilter::filtered")],
  "The multiset of callback invocations is compared with the expected complement in every state." + TRUST, EXPL, ["OnFilter::filtered", "Krates::krates"])

prop("C03", "Enabled features per crate are exactly those the kept dependencies enable",
  "For every crate in a graph, the reported enabled features are exactly the ones that the root features and the kept dependency declarations enable through the declared feature tables (default features, explicit lists, strong and weak references, features named after optional dependencies). Features that were only enabled by pruned dependencies are not listed, and every listed feature exists on that crate.",
  ["inputs", "configurations"], "All feature tables and activation chains of small universes; explored: " + UNIV,
  "Feature interplay is exponential in declarations; snapshots pin a few chains.",
  [B, "src/builder/features.rs"], [("feature worklist, pending weak features", "Builder::build_with_metadata"), ("feature entry parsing", "ParsedFeature")],
  "Enabled feature sets of every crate compared in every state. The implicit feature of an optional dependency that is only reached by a strong reference is not listed (pinned by the repository's snapshots); the property as checked follows that." + TRUST, EXPL, ["Krates::get_enabled_features", "Node::Krate::features"])

prop("C04", "Each kept dependency declaration yields exactly its edges",
  "For every crate of the graph, its outgoing edges are exactly the ones its kept dependency declarations call for: one plain edge, or one per requested feature, each labelled with the declaration's kind and platform expression and ending at the crate (or feature of the crate) cargo resolved, plus the edges for features it forwards to active dependencies. No edge exists for a dropped declaration and none points at another version or source of the package.",
  ["inputs", "configurations"], "All sets of declarations (kinds, platforms, renames, duplicate names, several versions and sources); explored: " + UNIV,
  "Tests cover a few fixed graphs; combinations of same-named packages, renames and duplicate declarations are not reached.",
  [B], [("edge candidates per resolved dependency and kind", "Builder::build_with_metadata"), ("declaration matching", "is_declaration_of, compare_paths, targets_eq")],
  "Exact set comparison of crate edges in every state." + TRUST, EXPL, ["Krates::graph", "Krates::get_deps"])

prop("C05", "A declared dependency maps to the exact package cargo resolved for it",
  "Asking a crate for the package behind its n-th declared dependency returns exactly the package cargo resolved for that declaration, even with renames, several versions, several sources or repeated declarations of one package. It returns nothing precisely when the declaration is inactive, filtered or its package is not in the graph, and never fails for out of range arguments.",
  ["inputs", "configurations"], "All declarations of all crates; explored: " + UNIV,
  "Four fixed graphs test the mapping today.",
  [B, "src/lib.rs"], [("dependency mapping", "dep_mapping, Krates::resolved_dependency")],
  "Exact comparison of the mapping in every state." + TRUST, EXPL, ["Krates::resolved_dependency"])

prop("C13", "The feature level of the graph mirrors the declared feature tables",
  "Every enabled feature of a crate is exactly one node owned by that crate, linked to its crate, to the features it enables and to the active dependencies (or their features) it names. There are no other feature nodes and no feature node is dangling or owned by another crate.",
  ["inputs", "configurations"], "All feature tables over renamed, repeated, inactive and filtered dependencies; explored: " + UNIV,
  "Snapshots pin the feature level of a few graphs only, including several that are wrong.",
  [B], [("feature graph linking", "Builder::build_with_metadata, final stage")],
  "Exact comparison of feature nodes and feature edges in every state; the deviation recorded as F01 is predicted exactly and any other deviation is reported." + TRUST, EXPL, ["Krates::graph"])

FLAT = "explicit enumeration of a bounded input space: every point is executed on the real code and compared with an independent oracle"
FAM = "explicit-state model checking: breadth-first exploration of cargo universes, every state executed on the real builder under a whole family of configurations and compared with a reference resolver"

prop("C06", "Kind filters remove exactly the dependencies of that kind in that scope",
  "Ignoring a dependency kind for a scope drops exactly the dependencies of that kind that are declared by crates in that scope (workspace members, all other crates, or all) and nothing else. Crates, features, edges and declarations that were only needed through a dropped dependency disappear with it; everything still needed in another way stays, also if one declaration of a package is dropped and another one of it is kept.",
  ["inputs", "configurations"], "All 64 combinations of kinds and scopes on every universe one (thorough: two) edits away from a base universe, and the kind filters among all other settings two edits deep",
  "The suite ignores one or two kinds on four fixed graphs.",
  [B], [("ignored kinds per scope", "Builder::ignore_kind"), ("kind and scope test per declaration", "Builder::build_with_metadata")],
  "Crate set, filter callback, edges and dependency mapping compared in every state." + TRUST, FAM, ["Builder::ignore_kind"])

prop("C07", "Target filters keep exactly the dependencies some given target needs",
  "With a set of targets (and their promised target features), a platform specific dependency is kept exactly if its cfg expression is true, or its triple is the name, for at least one of them; triples rustc does not know only match by name and by the features promised for them. Without any targets every platform specific dependency is kept, unless its expression is false for every platform.",
  ["inputs", "configurations"], "All expressions of up to two literals over 42 atoms, and of three over 12, in six forms, under 40 target sets; all pairs of platforms on two declarations of one package; target sets on every universe one (two) edits away from a base; targets among all other settings two edits deep",
  "Tests evaluate about a dozen expressions against four targets.",
  [B, "src/lib.rs"], [("predicate evaluation", "TargetFilter::eval, matches_triple"), ("which declarations survive", "Builder::build_with_metadata, MdTarget")],
  "An independent parser and evaluator with attributes from `rustc --print cfg` decides each expression; crates, callback, edges and mapping are compared.", FLAT, ["Builder::include_targets"])

prop("C08", "Exclusions remove exactly the matching crates and what only they need",
  "A crate is absent from the graph exactly if one of the excluded package specs matches it or if it is only needed through crates that are absent. A spec matches by name, and by version and url if given, whatever the other versions and sources of the package are, and excluding a crate does not disturb crates that are reachable in another way. Excluding everything is the dedicated error.",
  ["inputs", "configurations"], "All single exclusions derived from every package (name, version, url, wrong ones) on every universe one (two) edits away from a base, all but one of them, all pairs on the bases, and exclusions among all other settings two edits deep",
  "Four fixed exclusions are tested.",
  [B, "src/pkgspec.rs"], [("exclusion while walking", "Builder::build_with_metadata"), ("matching", "PkgSpec::matches")],
  "Crate set, callback, edges and mapping compared in every state." + TRUST, FAM, ["Builder::exclude"])

prop("C09", "The graph starts from the selected workspace members, however they are named",
  "Without a selection the roots are the package cargo resolved for, or every member for a virtual workspace or with workspace(true). With include_workspace_crates they are exactly the members whose manifest is one of the given paths, whether a path names the directory or the manifest, absolute or relative, with redundant components or through symbolic links; other paths select nothing. A single path to the workspace's own manifest selects every member.",
  ["inputs", "configurations"], "Workspaces on disk (virtual, with a root package, with awkward directory names) whose metadata names them directly, through a link or as they are on another machine; every subset of members, unknown directories, non-members and the workspace, each in nine spellings; every resolve root; workspace flag; one call or several; every selection of members with both flags on every universe one (two) edits away from a base; selections among all other settings two edits deep",
  "Tests select one or two members of one workspace by plain paths.",
  [B], [("path normalisation", "Builder::include_workspace_crates"), ("root selection", "Builder::build_with_metadata")],
  "1.5 million selections on real directories, each graph compared with the reference." + TRUST, FLAT, ["Builder::include_workspace_crates", "Builder::workspace"])

prop("C10", "The order of lists in the metadata does not matter",
  "Building from metadata in which packages, resolve nodes, their dependencies, dependency kinds, features, workspace members or dependency declarations are listed in another order, or dependency kinds repeatedly (as cargo does for some patched packages), gives the same graph: same crates, features, edges, dependency mapping and filtered packages.",
  ["inputs"], "Each of the seven lists reversed and rotated, alone and all together, on every universe one (two) edits away from a base; every combination of reordered lists on the bases; all lists reordered on every universe two edits away",
  "All tests use the order cargo happened to print.",
  [B], [("sorting and lookups by id", "Builder::build_with_metadata")],
  "Full comparison of each graph with the reference, which has no order." + TRUST, FAM, ["Krates"])

prop("C11", "Old and new package id formats give the same graph",
  "Metadata whose package ids are in cargo's opaque format (before 1.77) and in the package id spec format lead to the same graph: same crates, features, edges, mapping and filtered packages, for registry, git and path packages alike. So does the same workspace in another directory, on Windows, or with a name that is encoded in urls.",
  ["inputs", "configurations"], "Both formats on every universe and configuration two edits away from a base; three other directories, with both formats, one edit away",
  "One pair of recorded files is compared today.",
  ["src/lib.rs", B], [("id parsing", "Kid::from(PackageId)")],
  "Both graphs are compared with the reference in every state." + TRUST, FAM, ["Kid", "Krates"])

prop("C12", "Building never panics, and fails only for the documented reasons",
  "Building a graph from any metadata cargo produces, under any configuration, returns: a non-empty graph, NoRootKrates exactly if nothing is left, or NoResolveGraph exactly if the metadata has no resolution. It never panics, overflows or hangs.",
  ["inputs", "configurations"], "A cross product of 144 configurations on every universe one (two) edits away from a base, all settings two edits deep, the cross product without a resolution on every base, and every feature missing from the table of its package although cargo enabled it",
  "Panics hide in combinations (unwraps on lookups of features, nodes and edges) that no fixed graph reaches.",
  [B, "src/errors.rs"], [("lookups with unwrap", "Builder::build_with_metadata")],
  "Built with overflow checks and debug assertions; a watchdog ends executions that take over ten seconds.", FAM, ["Builder::build_with_metadata", "krates::Error"])

prop("C14", "Direct dependencies and dependents are the crates linked by a declaration",
  "For every crate, direct_dependencies lists exactly the crates its kept declarations resolve to, and direct_dependents exactly the crates that have a kept declaration resolving to it, each once, with the node of that crate and an edge that exists between the two (through a feature node if need be).",
  ["inputs", "configurations"], "Every crate of every graph; explored: " + UNIV,
  "One fixed graph is snapshotted, with a wrong entry in it.",
  ["src/lib.rs"], [("feature nodes are passed through", "Krates::direct_dependencies, direct_dependents")],
  "Exact sets compared for every crate; the deviation recorded as F02 is predicted exactly and any other is reported." + TRUST, EXPL, ["Krates::direct_dependencies", "Krates::direct_dependents"])

prop("C15", "Filtering a finished graph by kind equals ignoring that kind when building",
  "krates_filtered(kind) returns each crate once, in order, and the crates are the ones a build with ignore_kind(kind, Scope::All) and otherwise the same settings would have.",
  ["inputs", "configurations"], "All three kinds on every graph; explored: " + UNIV,
  "Only one graph is filtered in the tests.",
  ["src/lib.rs"], [("reachability over kept edges", "Krates::krates_filtered")],
  "Compared with the reference build for each kind; the deviation recorded as F03 is predicted exactly and any other is reported." + TRUST, EXPL, ["Krates::krates_filtered"])

prop("C16", "Lookups and searches agree with the graph",
  "Node, feature and id lookups, indexing, iteration, enabled features, outgoing dependencies, workspace members and resolved dependencies are all answered consistently with the graph and in crate order, and with None for what is not in it. Searches by name, with or without a version requirement, return exactly the matching crates in order, including several versions or sources of one name.",
  ["inputs", "configurations"], "All ids, names, features and version requirements on every graph; explored: " + UNIV,
  "A handful of lookups on fixed graphs.",
  ["src/lib.rs"], [("binary searches over sorted crates", "Krates::nid_for_kid, search_matches, krates_by_name, get_node")],
  "Every query is answered by brute force over the graph and the reference." + TRUST, EXPL, ["Krates"])

prop("C17", "Package specs parse exactly the documented grammar",
  "A package spec string is accepted exactly if it is a name, a name and a version, or a url with an optional fragment of a name, a version or both, and then its name, version and url are exactly the written ones (with the name taken from the url if there is none). Everything else is an error, never a panic.",
  ["inputs"], "All sequences of up to 6 (thorough: 7) tokens out of 17 (names, versions, separators, schemes, slashes), and out of 15 that other kinds of specs are written with (operators, blanks, lists)",
  "Tests parse a dozen strings.",
  ["src/pkgspec.rs"], [("parsing", "PkgSpec::from_str")],
  "37 million strings against an independent grammar.", FLAT, ["PkgSpec::from_str"])

prop("C18", "A package spec matches exactly the packages it describes",
  "A spec matches a package exactly if the names are equal, the version (if given) is equal, and the url (if given) is that of the package's source, whatever git reference or commit the source is pinned to and in whichever format its id is written. It never matches packages of another source with the same name and version.",
  ["inputs"], "All combinations of names, versions and urls, and urls close to them, against packages of 61 sources in both id formats, and written specs parsed first",
  "A few specs are matched against one registry and one git package.",
  ["src/pkgspec.rs"], [("matching", "PkgSpec::matches")],
  "Compared with the identity of the package the id was generated from.", FLAT, ["PkgSpec::matches"])

prop("C19", "Package ids decompose into the name, version and source they were made of",
  "For every package id cargo can write, opaque or as package id spec, with or without a name in the fragment, with percent encoded git references, the identifier's name, version and source are the ones of the package, and the printed form is the id (with the query of a git id decoded).",
  ["inputs"], "All combinations of names, versions (with pre-release and build metadata), sources and git references with awkward characters, in both formats; all sequences of up to 5 (thorough: 6) tokens out of 18 that are git references",
  "Eleven fixed ids are tested.",
  ["src/lib.rs"], [("id parsing", "Kid::from(PackageId), percent_decode")],
  "Ids are generated from known components by an independent writer.", FLAT, ["Kid::name", "Kid::version", "Kid::source"])

prop("C20", "Package identifiers have one consistent identity",
  "Two identifiers are equal exactly if name, version and source are equal (the commit of a git source and the id format do not matter); ordering is a total order consistent with that, hashing agrees with equality, and sorted or hashed collections find them again.",
  ["inputs"], "All pairs and triples of generated identifiers in both formats",
  "No test compares identifiers of different formats or commits.",
  ["src/lib.rs"], [("identity", "Kid: Eq, Ord, Hash")],
  "Eight million comparisons against the components the ids were generated from.", FLAT, ["Kid"])

prop("C21", "The metadata command line says exactly what was asked for",
  "For every history of calls on Cmd and MetadataCommand, the resulting cargo invocation carries each requested option exactly once and nothing else, opens the requested manifest from the right directory, never asks for features in conflicting ways, and passes other options last and unchanged; later calls override or add to earlier ones as documented.",
  ["histories"], "All histories of up to 5 calls on Cmd and up to 5 on MetadataCommand (3 with $CARGO), and every combination of one value per option in three orders, with and without $CARGO",
  "Tests check one or two command lines.",
  [B, "src/cm/cmd.rs"], [("translation of options", "From<Cmd> for MetadataCommand, MetadataCommand::cargo_command")],
  "The std::process::Command is inspected for every history and compared with the accumulated request.", "explicit-state model checking of call histories: every history up to a depth is executed on the real builders and compared with an abstract state", ["Cmd", "MetadataCommand::cargo_command"])

prop("C22", "A cargo process's answer is read correctly, whatever it prints",
  "When the metadata command runs, the outcome is the document cargo printed if it succeeded and printed one, cargo's own message if it failed, and a dedicated error if it printed no document, something that is no text, or could not be started; it never hangs or panics, no matter how much is printed on either stream and in which order.",
  ["inputs", "schedules"], "All combinations of stdout, stderr, order, exit status and signals out of a catalogue including outputs larger than a pipe buffer, from a real child process; programs that cannot start",
  "Only successful runs of the real cargo are tested.",
  ["src/cm/cmd.rs", "src/cm/errors.rs"], [("running and reading", "MetadataCommand::exec")],
  "3425 real processes in a scratch directory; each answer compared with the documented reading, and the graphs built of 84 documents with the reference.", FLAT, ["MetadataCommand::exec", "Builder::build"])

prop("C23", "Metadata documents are decoded faithfully",
  "Every metadata document in cargo's format is decoded with each field's value unchanged, with the documented default for fields older versions of cargo leave out, with unknown fields ignored, and the same for every equivalent spelling of the document (field order, blanks, escapes). Documents with a missing required field, a value of a wrong type or an unknown enumerator, and cut off documents are errors.",
  ["inputs"], "All documents up to two field edits (missing, null, other values, wrong types) away from one in which every field has a telling value, in six spellings; every prefix of it",
  "Tests decode recorded documents and look at few of the fields.",
  ["src/cm.rs", "src/cm/de.rs"], [("hand-written visitors", "cm::de")],
  "Decoded values are projected back field by field and compared with a table of the format.", FLAT, ["cm::Metadata", "MetadataCommand::parse"])

prop("C24", "Serialized metadata reads back as the same metadata",
  "With the serialize feature, encoding any metadata gives a document in cargo's format with the same field names and values, which decodes to the same metadata again; encoding that once more gives the same document.",
  ["inputs"], "All documents up to two field edits away from a complete one",
  "No test serializes metadata.",
  ["src/cm/ser.rs", "src/cm.rs"], [("hand-written serializers", "cm::ser")],
  "The written document is compared with the table of the format and decoded again.", FLAT, ["impl Serialize for cm::Metadata"])

prop("C25", "An index completes the features of crates.io packages, and nothing else",
  "With an index, the feature table of each crates.io package is completed with the features the index lists for exactly that version, tables published by an old cargo get the implicit features they leave out, and everything the metadata already says is kept; packages of other sources and packages the index does not know stay as they are. The graph is then the same as if cargo had listed the features itself, and the index is asked once, for the names of all packages.",
  ["inputs"], "Every single feature, all, and all but one taken out of the metadata; eight shapes of index (complete, old, with other versions and other sources, contradicting, a version without features, empty, unknown); on every universe one (two) edits away from a base",
  "One recorded crate is tested.",
  ["src/builder/index.rs"], [("feature correction", "fix_features")],
  "Feature tables of all packages and the graph are compared with the ones from complete metadata." + TRUST, FAM, ["Builder::with_crates_io_index"])

prop("C26", "Feature entries are understood as cargo understands them",
  "Every feature entry is read as a plain feature, a `dep:` reference, a strong or a weak dependency feature with exactly the written names, also if names contain unusual characters, and reading never panics.",
  ["inputs"], "All sequences of up to 7 (thorough: 8) tokens out of 10",
  "A few entries are tested through graphs.",
  ["src/builder/features.rs"], [("parsing", "ParsedFeature::from, feat")],
  "11 million strings against an independent grammar.", FLAT, ["ParsedFeature"])

prop("C27", "Metadata accessors answer from the document",
  "Accessors of decoded metadata agree with the document: workspace and default packages are the listed ones in order, the root package is the resolved root or the package next to the workspace root, lookups by id find exactly that package, paths of licences and readmes are relative to the manifest, and target kinds and crates.io sources are recognised.",
  ["inputs"], "All small layouts of members, default members, roots, manifest paths and versions; all sets of target kinds and crate types",
  "Accessors are hardly tested.",
  ["src/cm.rs"], [("accessors", "impl Metadata, impl Package, impl Target")],
  "Brute force answers from the document are compared.", FLAT, ["cm::Metadata", "cm::Package", "cm::Target"])

prop("C28", "Packages are carried unchanged, also into a user's own types",
  "The packages that end up in the graph or in the filter callback are exactly the ones of the metadata with every field unchanged. A graph of the user's own node and edge types, or one without a callback, has the same nodes, edges, features, mapping, filtered packages and search results, and converts each crate of the graph once.",
  ["inputs", "configurations"], "Every universe and configuration one (two) edits away from a base, and two of library, workspace, source and settings, with every package field set",
  "Tests only use the default types or a name-only node type, and look at few fields.",
  [B, "src/lib.rs"], [("conversion of packages and edges", "Builder::build_with_metadata, Krates<N, E>")],
  "Packages are compared in full as json; three graphs are compared node by node and edge by edge.", FAM, ["Krates<N, E>", "OnFilter"])

prop("C29", "Builder settings accumulate and do not depend on the order of calls",
  "After any sequence of calls on a builder, the graph is the one for the union of all ignored kinds, exclusions, targets and selected workspace crates, and for the last workspace flag, however the calls were ordered, split or repeated, with empty lists changing nothing.",
  ["histories"], "All histories of up to 4 (thorough: 5) calls out of 23 on two universes in which each setting matters",
  "Tests set each option once.",
  [B], [("setters", "impl Builder")],
  "Each history is executed on the real builder and the graph compared with the reference for the accumulated settings.", "explicit-state model checking of call histories: every history up to a depth is executed on the real builder and compared with an abstract state", ["Builder"])

prop("C30", "The targets feature adds triples without changing the known ones",
  "With the crate feature `targets`, filtering for targets rustc knows works exactly as without it, other triples made of known parts are evaluated by their architecture, vendor, operating system, environment, pointer width and endianness, every triple matches dependencies declared for it by name however it is written, and names that are no triples still only match by name.",
  ["inputs", "configurations"], "The expressions and target sets of C07 built with the feature, and 980 triples of known parts against 100 expressions and all their names",
  "No test is built with the feature.",
  [B], [("triples", "Target::from, TargetFilter::eval, matches_triple")],
  "The harness is built with the feature; the same oracle as for C07, and the parts of the triple.", FLAT, ["Builder::include_targets", "Target"])

prop("C31", "Everything that prints itself prints what it is",
  "A built graph's nodes and edges print their crate or feature, kind and platform, and the dot form of the graph is made of exactly these, escaped. Targets print the triple they were given, package ids, sources and editions print their text, and target kinds, crate types and editions parse exactly their own names and name what they do not know. Errors tell what went wrong, including the text of the error that caused them, which is also their source. A package spec is only ever rejected with a reason.",
  ["inputs", "configurations"], "Every universe and configuration two edits away from a base; all builtin targets; 14,425 words; every error; 11,111 specs; every package id of every base",
  "Tests snapshot a few dot files and hardly ever look at messages.",
  ["src/lib.rs", "src/builder.rs", "src/errors.rs", "src/cm.rs"], [("text forms", "impl Display for Node, Edge, DepKind, Target, Error, Edition; FromStr for TargetKind, CrateType, Edition")],
  "The texts are derived from the values independently and compared.", FAM, ["Display", "Debug", "Error::source"])

prop("C32", "Running cargo on a workspace and building gives that workspace's graph",
  "Builder::build with a command for a workspace on disk, whether it names the manifest, the directory, both or neither, relative to the current directory or not, and whether or not a lock file is already there, gives the graph, filtered packages, enabled features, edges and dependency mapping of that workspace, for the features and the platform the command asked for.",
  ["inputs", "configurations"], "Every base universe under every command line and platform, and seen from ten places in and around the workspace (and, thorough, every single edit of a base), written to disk as real packages and resolved by the real cargo that krates runs",
  "Tests run cargo on a few fixed workspaces.",
  [B, "src/cm/cmd.rs"], [("running cargo and building", "Builder::build, Cmd, MetadataCommand::exec")],
  "krates runs the real cargo in a scratch directory, offline, with directory, git and registry sources replaced by local ones; the graph is compared with the reference resolver, nothing in between is modelled.", "explicit-state model checking of a bounded space of workspaces on disk, every one resolved by the real cargo and built by the real krates", ["Builder::build", "Cmd"])
