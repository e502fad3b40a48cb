
CHECKS['C03']=('online comparison of stored and loaded programs','generated packages with unusual names, arguments, constants, metadata, node numbering and nested programs are stored through every JSON entry point, loaded, compared node by node, validated and stored again')
CHECKS['C04']=('online comparison of stored and loaded programs','generated packages are stored in the binary and text model formats, loaded, compared node by node (constants inlined), validated and stored again byte for byte')
CHECKS['C05']=('fault injection with a crash monitor','structure-aware and raw mutations of stored packages (JSON, text, binary, compressed) and random bytes are loaded, validated and stored again while panics, aborts, stack overflows and excessive time or memory are watched')
CHECKS['C06']=('online model comparison over edit histories','random sequences of 25 kinds of edits (nodes, links, ports, hierarchy, metadata, insertion of other programs, renumbering) are mirrored in a relational model and after every edit every query of the graph is compared with it')
CHECKS['C07']=('differential execution and change tracking over sequences of rewrites','12 kinds of requested rewrites, some malformed, are verified and applied to generated programs; refusals must change nothing and agree with verification, results must validate, keep every node not named as invalidated, and produce the same outputs and effects in the reference interpreter')
CHECKS['C10']=('online comparison with an independent needed-set','dead code and dead function removal are run with random entry points and preservation callbacks on generated programs; the surviving nodes must be exactly an independently computed fixed point, unchanged and in order, the result valid and equivalent, and a second run must change nothing')
CHECKS['C15']=('order monitor over all regions','generated programs are ordered by index, reversed and random ranks (with ties); every region must become one chain from input to output that keeps all previous edges and always takes the least rank among what could come next; results and effects are compared')
CHECKS['C16']=('edge monitor and differential execution','generated programs rich in external and dominator edges are localized from varied entrypoints; no value edge may cross a region afterwards, the reports of remaining edges are compared with an independent search, leaves and signatures must stay, results and effects are compared')
CHECKS['C11']=('instance monitor and differential execution','generated polymorphic programs (types, numbers, widths, strings, lists, tuples, bytes, floats; recursion; declarations) are monomorphized from varied entrypoints; no polymorphic use may remain in reachable code, each instance must be private, used, unique and match its original, originals must stay, results and effects are compared')
CHECKS['C01']=('differential monitor: validator against an independent statement of the rules','generated programs, 22 kinds of mutations of them (edges, order, control flow, hierarchy, operations, ports, names) and small programs around arbitrary types and type arguments are judged by the validator and by a second implementation of the specification; any disagreement, either way, or a panic is a violation')
CHECKS['C02']=('call-sequence monitor with fault injection','generated programs are rebuilt through every builder and compared with the original node by node and edge by edge; the same call sequences with one mistake (wires missing, added, swapped, repeated or from anywhere; cases, branches, outputs or type arguments wrong or missing) must end in an error or in a valid program with the interface asked for, never in a panic; circuits are mirrored in a model of the tracked wires')

CHECKS['C17']=('boundary and convexity monitor with an independent definition, and differential execution','random sets of sibling nodes (connected, scattered, intervals, with duplicates, mixed regions) of generated programs are handed to every constructor of subgraphs; acceptance, nodes, input, output and call boundaries, signatures and the effect of damaged boundaries are compared with an independent statement of convexity and boundary; extracts are compared operation by operation and edge by edge, and programs whose parts are replaced by their own extracts must keep their results')
CHECKS['C20']=('substitution and typing monitor with an independent model of types','random types, signatures and arguments of every kind (nested rows, spliced lists and tuples, row variables, extension types with computed bounds) are built through the library and through a small separate model; bounds, validity, fit of arguments, instantiation, substitution and its composition and identity are compared')
CHECKS['C12']=('graph-difference monitor and differential execution','generated modules are joined under random directives (add, replace, use existing, with or without an inserted entrypoint, conflicting ones) and programs are split in two and linked again, by every method and through views; nodes, parents, order, ports, links, metadata and refusals are compared with an independent statement of the result, and split programs are run')
CHECKS['C13']=('type-conservation monitor and differential execution','in generated programs random types are replaced (one by one and by callbacks) together with the operations (by operations, graphs, calls and callbacks) and constants that mention them; every operation is compared with an independent statement of its new type, nothing replaced may be left, links and places are compared, results validated and run; operations are also lowered in place, and tables that do not apply must change nothing')
CHECKS['C14']=('linearity conservation monitor and differential execution','copyable types of generated programs become linear; refusals are predicted, inserted copies and discards are counted against the uses of every value (in sums, arrays and constants), results are validated and run; values of nested types with any number of uses are also converted to linear types and to all kinds of arrays and run')
CHECKS['C18']=('history differential monitor','random histories of rewrites (parallel, stacked, merged, passing wires through, discarding, conflicting) are built on generated programs; every accepted selection is compared node by node and port by port, in place and extracted, with a plain program rewritten step by step in creation order and in another allowed order; conflicts are predicted from the removed nodes; earlier versions are compared with their snapshots; walkers are checked against an enumeration of all programs of the history')
CHECKS['C22']=('runtime soundness monitor of analysis results and law monitor of the lattice','the constant-propagation analysis runs on generated programs with random (partial) knowledge of the inputs; the reference interpreter records the values on every wire in every execution, and each must be a concretisation of what the analysis claims, claimed-unreachable blocks, cases and loop exits must not be entered; lattice values are checked for the laws of a join semilattice, consistent ordering, hashing and change flags')
CHECKS['C23']=('differential execution of compiled code in monitored child processes','generated programs and single operations on extreme operands are compiled (with and without LLVM optimisation, with heap and stack arrays), run natively in child processes and compared with the reference interpreter: results, effects in order, panics; crashes and timeouts of the compiled code are violations; value arrays, strings, lists and operations without a lowering are left out')
CHECKS['C24']=('native execution under a guard-page heap that counts blocks','programs over arrays and borrow arrays are compiled and run with malloc and free replaced by a heap where every block ends at an inaccessible page, released blocks stay inaccessible, neighbourhoods carry canaries, and double, foreign and missing releases are reported; results are compared with the reference interpreter')
CHECKS['C31']=('differential monitor of every view against independent node and edge lists','arbitrary graphs (self links, parallel links, deep nesting, gaps left by removals) are built together with their own lists of nodes, ports and edges, and generated programs are read into such lists; every query of the program, rerooted, doubly rerooted and shared views, petgraph (with its algorithms), region graphs, call and module graphs, Mermaid and DOT texts (parsed back), and extracted parts is compared with the lists; the same random edits made through views and directly must give the same program; reorderings of inputs and outputs through checked handles are predicted, validated and run')
CHECKS['C19']=('differential monitoring: programs mentioning versions of a family of extensions are loaded from both formats against removed, changed and packaged registries, outcome against an independent reading of the saved text; weak pointers followed after everything else was dropped; registry histories against a map','types hidden in aliases and parameter kinds are known findings')
CHECKS['C33']=('monitoring of saved documents: every generated program, package and extension table saved as JSON, nested envelopes included, validated against both published schemas as a whole and part by part; damaged documents show that the schemas can tell','raw JSON handed in as an opaque constant is excluded')
CHECKS['C32']=('differential monitoring of descriptions: packages with random names, metadata, generators, claims and extensions are stored in every format, loaded intact, with extensions removed and damaged; every fact the description states is compared with an independent reading of the package','node counts of failing model imports are a known finding; facts after damage of single bytes are not compared')
CHECKS['C25']=('monitoring of the tool as a process: status, output and files of every command on generated, spoiled and damaged packages compared with the library on the same bytes','diagrams of programs with function constants are not compared (their labels are in hash order); the tool is started through the entry function of hugr-cli, not its three-line main')
CHECKS['C29']=('repetition monitor: every builder, writer, drawing, description, refusal, pass and linking step is run four times from fresh copies with new hash seeds and its bytes compared','native code generation and drawings of function constants (debug text of hash maps) are not compared; hash seeds differ per table within one process')
CHECKS['C21']=('runtime monitoring: online comparison of EdgeClassifier classes, on random abstract control-flow graphs with self loops, doubled edges, unreachable and non-terminating blocks, with cycle equivalence computed from its definition by search; nesting of generated programs monitored for validity, unchanged blocks, the same flow between blocks (read through the nested levels) and the same runs under a reference interpreter', 'every edge pair of graphs of up to about 12 blocks; programs with dominator edges across regions are a known finding')
