TECH = {"*": "contracts on the real functions; VCs generated from their traced programs with symbolic sizes and elements; normalisation + z3"}
NOTE = {"*": "Every obligation is regenerated from /repo's source on each run and discharged for all sizes and element values (exact arithmetic). Trusted: vc/ generator, JAX tracing, z3; assumptions listed in the evidence file."}
NA = {}
LEVEL = {"N04": "other"}
TECH["S02"] = "contracts on the real container-editing methods, executed on symbolic containers of any length, every path discharged by z3; staleness and isolation histories by bounded runs"
NOTE["S02"] = "Proved for containers of any length: every edit changes exactly the addressed position and discards the caches. Bounded, not proved: isolation of copies and joined models, and that a discarded cache never comes back, over all edit sequences within the bound in the evidence."
TECH["N03"] = "loop invariants on the real resolve_connections (loops cut mechanically from its source on each run), all obligations discharged by z3"
NOTE["N03"] = "Proved for every graph: order exactly the nodes between input and output, once each, after everything that feeds them; satisfiable wirings accepted, others refused. Trusted: finite counting/cardinality lemmas and reachability induction stated in the evidence; termination not proved. get_execution_order's wiring of names is bounded."
TECH["N04"] = "contracts on the real connection functions: splitting a connection into module path and inner path executed on symbolic strings and discharged by z3; slot assignment and delivery by bounded runs against the contract"
NOTE["N04"] = "Discharged for all strings, up to two connections at a time: partition_connections_by_tree keeps every connection and splits it exactly at its module (getitem_by_strpath by its contract, N05). Bounded, not proved: concretize_paths, concretize_connections and place_connections_in_tree, which build dictionaries over nested loops; every set of connections up to the bound in the evidence is run on the real code against the contract."
TECH["N05"] = "contracts on the real path functions, executed on symbolic strings and tree nodes, every path discharged by z3, induction over the path; tree building bounded"
NOTE["N05"] = "Proved for all paths, separators and trees: reading and writing by path. Bounded, not proved: building a tree from a set of paths."
