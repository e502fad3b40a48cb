#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties, kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], observe_at=observe, hook_needed=hook)))
C='hugr-core/src/'; H=C+'hugr/'; PS='hugr-passes/src/'
p('C01','Validation accepts exactly the well-formed programs',
  "Every program that obeys the rules of the specification validates, and every program that breaks one of them (hierarchy and allowed children, port and edge kinds, matching types, exactly-once use of linear values, acyclicity, dominance and ordering of non-local edges, type arguments and bounds, control-flow and conditional signatures, unique public names) is rejected. Validation answers with an error and never crashes, whatever structurally representable program it is given.",
  ['programs'],'all generated well-formed programs, and all single and double mutations of them (re-typed, re-wired, re-parented, removed, duplicated nodes and edges) classified by an independent checker of the specification',
  'The tests sample some twenty hand-made bad graphs; the rules interact (ordering, dominance, linearity, polymorphism) in ways a sample cannot cover.',
  [H+'validate.rs',C+'ops/validate.rs'],[('validation context','hugr-core/src/hugr/validate.rs'),('per-operation child rules','hugr-core/src/ops/validate.rs')],['result of validating a program'])
p('C02','Builders give valid programs or a wiring error',
  "Any sequence of calls on the program-building interface either ends in a program that validates and has exactly the interface asked for, or fails with an error at some call; using a linear value twice or not at all, connecting mismatched types or using a value that is not in scope never yields a finished program that validates.",
  ['programs','inputs'],'all call sequences over dataflow, conditional, loop, control-flow, function and module builders, correct and with injected wiring mistakes',
  'Tests build a few dozen fixed programs; misuse depends on nesting depth, wire origin and type at the point of misuse.',
  [C+'builder.rs',C+'builder/'],[('wire_up','hugr-core/src/builder/build_traits.rs'),('container builders','hugr-core/src/builder/dataflow.rs, cfg.rs, conditional.rs, tail_loop.rs, module.rs')],['finished program','builder errors'])
p('C03','Saving and loading as JSON loses nothing',
  "Storing any valid program or package as JSON, compressed or not, with or without its extensions, and loading it again gives a program equal to the original up to node numbering: the same operations, hierarchy and child order, edges, metadata, entrypoint, and extensions used. Storing the loaded copy again gives the same bytes.",
  ['programs','configurations'],'all generated programs and packages, every envelope configuration (format, compression, embedded extensions)',
  'Round-trip tests cover hand-made programs; the loss appears with particular operation/type/metadata/entrypoint/node-order combinations.',
  [H+'serialize.rs',C+'envelope.rs',C+'package.rs',C+'types/serialize.rs'],[('graph serialisation','hugr-core/src/hugr/serialize.rs'),('envelopes','hugr-core/src/envelope/')],['bytes written','program read back'])
p('C04','Saving and loading in the model format loses nothing',
  "Storing any valid program or package in the binary or textual exchange format and loading it again gives a program with the same functions, regions, operations, wiring, metadata, entrypoint and behaviour. The textual and binary forms denote the same module: printing and parsing, and writing and reading, are inverse to each other and stable after one trip.",
  ['programs','inputs'],'all generated programs, and generated exchange-format modules, through both encodings',
  'Fixtures are a fixed list of small modules; escaping, scoping, link names, order hints and metadata interact only in larger ones.',
  [C+'export.rs',C+'import.rs','hugr-model/src/v0/'],[('export','hugr-core/src/export.rs'),('import','hugr-core/src/import.rs'),('text parser and printer','hugr-model/src/v0/ast/'),('binary codec','hugr-model/src/v0/binary/')],['module text','module bytes','re-imported program'])
p('C05','Loading untrusted bytes never crashes',
  "Loading any byte string as an envelope, package, program, exchange-format module or declarative extension file ends in a value or in an error: it never panics, aborts, overflows the stack on modest input, or reads out of bounds. What it accepts can be validated and saved again without a crash.",
  ['inputs'],'all byte strings near valid files: bit flips, truncations, splices, structured edits of the JSON tree, the s-expression and the binary message',
  'Tests give a handful of malformed files; almost every field of the format can be wrong in its own way.',
  [H+'serialize.rs',C+'envelope.rs',C+'envelope/','hugr-model/src/v0/binary/read.rs','hugr-model/src/v0/ast/parse.rs',C+'import.rs'],[('envelope reader','hugr-core/src/envelope/'),('graph deserialisation','hugr-core/src/hugr/serialize.rs'),('import','hugr-core/src/import.rs')],['result of loading'])
p('C06','Graph edits do what a simple graph model says',
  "After any history of node additions, removals, moves, connections, disconnections, port changes, subtree copies, insertions of other graphs, metadata edits and renumbering, the graph shows exactly the nodes, operations, parents, child order, edges, metadata and entrypoint that an ordinary map-based model of the same history predicts. In particular a new node starts with no metadata, nothing outside the edited nodes changes, and returned node maps are exact.",
  ['histories'],'all histories of mutating calls on a program graph, compared step by step with a sequential reference model',
  'Tests run short fixed scripts; stale state (freed slots, port offsets, multi-edges) needs particular sequences.',
  [C+'hugr.rs',H+'hugrmut.rs',H+'internal.rs'],[('graph mutation','hugr-core/src/hugr/hugrmut.rs'),('low-level edits','hugr-core/src/hugr/internal.rs')],['nodes, edges, hierarchy, metadata after each call'],
  [('hierarchy, port graph, op and metadata tables','must stay in step','hugr-core/src/hugr.rs')])
p('C07','Rewrites keep programs valid and leave no trace when refused',
  "Applying any graph rewrite (replace a subgraph, general replacement, outline or inline control flow, inline a call or a nested dataflow graph, peel a loop, insert an operation on an edge, remove an unused constant) to a valid program either succeeds, leaving a valid program that computes the same results and effects wherever the rewrite claims equivalence, or returns an error. Where a rewrite promises to change nothing on failure the program is untouched, a rewrite whose check passes does not fail on application, and the nodes it declared invalidated are exactly a superset of those it removed.",
  ['programs','histories'],'all applicable and inapplicable rewrites at random places of generated programs, and sequences of them',
  'Each rewrite has a few fixed examples; order edges, non-local edges, linear wires, multi-use outputs and order of application vary beyond them.',
  [H+'patch.rs',H+'patch/'],[('rewrite protocol','hugr-core/src/hugr/patch.rs'),('individual rewrites','hugr-core/src/hugr/patch/')],['program before and after, results of running it in a reference interpreter'])
p('C08','Folded constants equal what the operation computes',
  "Whenever an operation of the standard extensions applied to constants is evaluated at compile time, the result is exactly the value its documentation defines, of the operation's output type, for every bit width and every argument including the extremes; where the operation would panic or has no defined result, nothing is folded. Evaluation never crashes.",
  ['inputs'],'all standard operations with a compile-time evaluation, all widths, boundary-biased and random arguments',
  'Tests check a few values per operation; the faults are at widths, signs and boundary values.',
  [C+'std_extensions/arithmetic/int_ops/const_fold.rs',C+'std_extensions/arithmetic/conversions/const_fold.rs',C+'std_extensions/arithmetic/float_ops/const_fold.rs',C+'std_extensions/logic.rs',C+'std_extensions/collections/list/list_fold.rs',C+'extension/const_fold.rs'],[('constant folders','hugr-core/src/std_extensions/**/const_fold.rs')],['folded values'])
p('C09','Optimisation passes preserve program behaviour',
  "Running any optimisation pass or any sequence of them (constant folding, dead-code removal, inlining of functions and nested graphs, control-flow normalisation, tuple elimination, redundant order-edge removal) on a valid program leaves a valid program that gives the same results for every input and performs the same observable effects the same number of times in every order the original required. A pass never crashes on a valid program, and the entrypoint's interface is unchanged.",
  ['programs','inputs'],'all generated terminating programs with effects, linear values, loops, control flow, recursion and non-local edges; random inputs; random pass sequences',
  'Pass tests use small fixed graphs; miscompilation needs particular shapes combined.',
  [PS],[('passes','hugr-passes/src/')],['program before and after each pass; outputs and effect traces under a reference interpreter'])
p('C10','Dead code removal keeps what is needed and removes the rest',
  "Removing dead code or unreachable functions from a program keeps every function reachable from the chosen entry points and everything that contributes to a result or effect, and removes everything else it promises to remove: afterwards no removable unused node or unreachable private function remains. A second run changes nothing.",
  ['programs','configurations'],'all generated programs and all choices of roots',
  'Tests check particular nodes of small graphs; the promise is about every node.',
  [PS+'dead_code.rs',PS+'dead_funcs.rs'],[('dead code pass','hugr-passes/src/dead_code.rs'),('dead function pass','hugr-passes/src/dead_funcs.rs')],['nodes left after the pass'])
p('C11','Monomorphization replaces polymorphic calls exactly',
  "Monomorphizing a valid program gives a valid program in which no call or function load reachable from a monomorphic public function passes type arguments, every distinct instantiation is compiled once, and results, effects and public monomorphic functions are unchanged.",
  ['programs'],'all generated programs with type, number and width parameters, nested and repeated instantiation, and recursion',
  'Tests cover a few instantiations; name clashes and nested substitution appear only in combination.',
  [PS+'monomorphize.rs'],[('monomorphize','hugr-passes/src/monomorphize.rs')],['functions, calls and results after the pass'])
p('C12','Linking joins modules as asked',
  "Linking a module into another follows the directives given for each child of the guest's module: added children arrive with their contents, replaced ones of the host disappear, uses of a replaced child (on either side) reach its replacement and uses of a child that is not inserted reach the existing one named for it; everything else stays apart and nothing else is copied. Directives that conflict are refused with the host unchanged, both ways of inserting agree, and a program split in two and linked again behaves as before.",
  ['programs','configurations'],'all pairs of generated modules and splits of one module, all combinations of linking directives, with and without an inserted entrypoint',
  'Tests enumerate a few combinations of directives on tiny modules.',
  [H+'linking.rs',H+'hugrmut.rs',C+'package.rs'],[('linking','hugr-core/src/hugr/linking.rs')],['linked module, node maps, errors'])
p('C13','Type and operation replacement is complete and type-correct',
  "Replacing types, operations and constants throughout a valid program by given alternatives leaves a valid program in which no replaced type, operation or constant remains anywhere, nested types, signatures, type arguments and constants included, and which behaves as the original with the replacements carried out. Replacing nothing changes nothing.",
  ['programs','configurations'],'all generated programs and replacement tables over types, parametric types, operations and constants',
  'Tests cover single replacements in small graphs; nesting position matters.',
  [PS+'replace_types.rs',PS+'replace_types/',PS+'lower.rs'],[('type replacement','hugr-passes/src/replace_types.rs'),('op lowering','hugr-passes/src/lower.rs')],['program after the pass'])
p('C14','Linearization accounts for every copy and discard',
  "When copyable values become linear, the inserted copies and discards make every linear value used exactly once: the result validates, each value is duplicated exactly one time fewer than its uses (discarded when unused), in sums, tuples and arrays too, and behaviour is otherwise unchanged.",
  ['programs'],'all generated programs with a copyable type replaced by a linear one, at every use count and nesting',
  'Tests check 0 to 3 uses of simple wires.',
  [PS+'replace_types/linearize.rs',PS+'linearize_array.rs'],[('linearizer','hugr-passes/src/replace_types/linearize.rs')],['copy and discard events against uses'])
p('C15','Forcing an order gives one total compatible order',
  "After an order is forced on a program, the ordered nodes of each dataflow region form a single chain that respects every existing dependency and the requested ranking wherever dependencies leave a choice; the program remains valid and computes the same results and effects.",
  ['programs','configurations'],'all generated programs and rank functions',
  'Tests use small hand-made regions.',
  [PS+'force_order.rs'],[('force order','hugr-passes/src/force_order.rs')],['order edges after the pass'])
p('C16','Localizing removes all non-local value edges',
  "After non-local edges are made local no value edge crosses a region boundary, the program is valid, containers keep their behaviour, and results and effects are unchanged. A check for remaining non-local edges reports one exactly when there is one.",
  ['programs'],'all generated programs with external and dominance edges at every nesting of graphs, cases, loops and blocks',
  'Tests have a few hand-made nestings.',
  [PS+'non_local.rs',PS+'non_local/'],[('localize edges','hugr-passes/src/non_local/localize.rs')],['edges after the pass; results of running'])
p('C17','Subgraph selection respects convexity and boundaries',
  "A set of sibling nodes is accepted as a subgraph exactly when it is convex and its boundary describes it; the reported boundary, signature, node count and extracted program are exact. Replacing a subgraph by its own extract leaves an equivalent program.",
  ['programs','inputs'],'all subsets of sibling nodes of generated regions, with every way of naming their boundary',
  'Tests pick a few subsets of fixed circuits.',
  [H+'views/sibling_subgraph.rs','hugr-persistent/src/subgraph.rs'],[('sibling subgraph','hugr-core/src/hugr/views/sibling_subgraph.rs')],['accepted subgraphs, boundaries, signatures, extracts'])
p('C18','A rewrite history equals applying its rewrites in order',
  "The program seen through any compatible set of recorded rewrites is the program obtained by applying those rewrites one after another in any order their dependencies allow: same nodes, operations, wiring and results, whether viewed in place or extracted. Incompatible rewrites are refused, ancestors are included, and the history already stored is never altered.",
  ['histories'],'all generated trees of rewrites on generated programs, including parallel, nested, empty and conflicting ones',
  'Tests use a handful of commits on one small circuit.',
  ['hugr-persistent/src/'],[('persistent program','hugr-persistent/src/persistent_hugr.rs'),('view','hugr-persistent/src/trait_impls.rs'),('wires','hugr-persistent/src/wire.rs')],['view, extracted program, sequentially rewritten program'])
p('C19','Extension resolution finds exactly what a program uses',
  "Loading, resolving and validating a program against a registry succeeds exactly when every extension, type and operation it mentions is available with a fitting signature and in a version compatible with the one the program is noted to be made with, and then the program records precisely those extensions and keeps them alive; otherwise the missing item, or the place of the mismatch, is named in an error. A registry keeps one extension per name, the newest compatible one, whatever the order of registration.",
  ['programs','configurations'],'all generated programs against registries with extensions removed, altered or versioned, and all registration orders',
  'Tests remove one extension from one program.',
  [C+'extension.rs',C+'extension/resolution.rs',C+'extension/resolution/'],[('resolution','hugr-core/src/extension/resolution/'),('registry','hugr-core/src/extension.rs')],['resolution results, used extensions, registry contents'])
p('C20','Types and type arguments obey the laws of substitution',
  "Substituting type arguments composes, does nothing on closed types, keeps validity and never loosens a copyability bound; a declaration accepts exactly those arguments that fit its parameters; equal types have equal hashes and survive saving and loading. The bound of a type is the least one that covers its parts.",
  ['inputs'],'all generated types, rows, polymorphic signatures, parameters and arguments, including row variables, lists, tuples and concatenations',
  'Tests use a handful of types; laws quantify over all of them.',
  [C+'types.rs',C+'types/'],[('substitution','hugr-core/src/types.rs'),('argument checks','hugr-core/src/types/type_param.rs'),('polymorphic signatures','hugr-core/src/types/poly_func.rs')],['results of substitution, instantiation, comparison'])
p('C21','Control-flow restructuring keeps the program and finds its regions',
  "Nesting single-entry single-exit regions of any control-flow graph into child graphs, and outlining sets of blocks, leaves a valid program that follows the same path of block executions and gives the same results; regions found really have a single entry and exit edge, and edges reported equivalent always occur together on every cycle.",
  ['programs'],'all generated control-flow graphs, reducible and irreducible, with loops, parallel edges and dead ends',
  'Tests use five fixed graphs.',
  [PS+'nest_cfgs.rs',PS+'normalize_cfgs.rs',H+'patch/outline_cfg.rs'],[('edge classes and nesting','hugr-passes/src/nest_cfgs.rs'),('outlining','hugr-core/src/hugr/patch/outline_cfg.rs')],['restructured program and its runs'])
p('C22','Dataflow analysis never excludes what can happen',
  "For every input covered by what the analysis was told, every value that flows along a wire in an execution is covered by the analysis' result for that wire, a case, block or node reported unreachable is never executed, and a value reported constant is always that value. The lattice operations are commutative, associative, idempotent and monotone.",
  ['programs','inputs'],'all generated programs, partial knowledge of inputs, and executions of the reference interpreter',
  'Tests assert results for small fixed graphs.',
  [PS+'dataflow.rs',PS+'dataflow/',PS+'const_fold.rs',PS+'const_fold/'],[('datalog analysis','hugr-passes/src/dataflow/datalog.rs'),('lattice','hugr-passes/src/dataflow/partial_value.rs')],['analysis result per wire against recorded wire values'])
p('C23','Compiled code computes what the program means',
  "Every program that compiles to LLVM gives, when executed, the results and the ordered external effects defined by the specification of its operations, for every input, at every width, sum layout and control-flow shape; compilation of a supported valid program succeeds and yields well-formed LLVM.",
  ['programs','inputs'],'all generated programs of the compilable subset and boundary-biased inputs, executed natively and in the reference interpreter',
  'Tests run a few hundred fixed one-operation programs.',
  ['hugr-llvm/src/'],[('emission','hugr-llvm/src/emit/'),('standard extensions','hugr-llvm/src/extension/')],['native results and calls to external functions'])
p('C24','Compiled array code never leaks, double-frees or strays',
  "In compiled programs every heap block obtained for an array is released exactly once, no released block is touched, and no access falls outside its block, whichever array operations are combined and whatever path is taken; panics and out-of-range indices are reported rather than corrupting memory.",
  ['programs','inputs'],'all generated compilable programs over arrays, value arrays and borrow arrays with allocation monitored',
  'Tests check returned values, not the heap.',
  ['hugr-llvm/src/extension/collections/'],[('array lowering','hugr-llvm/src/extension/collections/array.rs'),('borrow array lowering','hugr-llvm/src/extension/collections/borrow_array.rs')],['allocation and release calls, redzones'])
p('C25','The command line tool agrees with the library',
  "The command line tool accepts, converts, describes and draws exactly what the library would: its exit status is success precisely when the input loads (and validates, when asked), converted files denote the same program in the format and compression asked for, and reported facts match the content. Bad input gives a message and a failing status, not a crash.",
  ['inputs','configurations'],'all generated packages and damaged files, all subcommands and options, files and pipes',
  'Tests run a few commands on one file.',
  ['hugr-cli/src/'],[('commands','hugr-cli/src/')],['exit status, output files, output text'])
p('C26','Python and Rust agree on programs',
  "A program saved by either implementation is read by the other as the same program: operations, types, wiring, hierarchy, metadata, entrypoint and function visibility survive the trip through Python in JSON and in the exchange format, and a program built by the Python builders validates in Rust.",
  ['programs'],'all generated Rust programs read and rewritten by Python, and all generated Python-built programs read by Rust',
  'Python tests validate fixed examples with the tool.',
  ['hugr-py/src/hugr/','hugr-py/rust/'],[('python serialisation','hugr-py/src/hugr/_serialization/'),('python model export','hugr-py/src/hugr/model/')],['files crossing the boundary'])
p('C27','Safe interfaces cause no undefined behaviour',
  "Using only the safe interface, no history of calls on graphs, persistent rewrite spaces, module tables and extensions makes the library execute undefined behaviour: no invalid reference, aliasing violation, out-of-bounds access or data race.",
  ['histories','schedules'],'workloads over every module that uses unchecked code, under an undefined-behaviour interpreter and under address and thread sanitizers',
  'Ordinary tests pass in the presence of undefined behaviour.',
  ['hugr-persistent/src/',C+'extension.rs',C+'std_extensions/collections/borrow_array.rs','hugr-model/src/v0/table/mod.rs'],[('unchecked casts and transmutes','grep unsafe')],['sanitizer and interpreter reports'])
p('C28','Shared registries and programs are safe to use concurrently',
  "Threads that build, load, validate, optimise and save programs at the same time, sharing extensions, registries and programs by reference and racing to initialise the standard extensions, obtain exactly the results each would obtain alone; none deadlocks.",
  ['schedules'],'random numbers of threads and random mixes of operations with injected delays, first use included',
  'The tests never share anything between threads on purpose.',
  [C+'extension.rs',C+'std_extensions.rs',H+'hugrmut.rs'],[('lazily initialised shared extensions','hugr-core/src/std_extensions/'),('weak references between extensions','hugr-core/src/extension.rs')],['results per thread'])
p('C29','Results do not depend on chance',
  "Building, saving, drawing, describing, refusing, optimising, restructuring or linking the same program twice, in the same or in another process, gives byte-identical output.",
  ['programs','configurations'],'all generated programs through every transformation and writer, repeated in processes with different hash seeds',
  'Tests run each once; dependence on hash order shows between runs.',
  [PS,C+'export.rs',H+'serialize.rs',H+'linking.rs',H+'hugrmut.rs'],[('ordered collections','throughout')],['bytes written by two processes'])
p('C30','Declared extensions mean what their file says',
  "Loading a declarative extension file gives an extension with exactly the types, bounds, operations and signatures it declares, usable like one built in code; a file with an undefined name, wrong arity or missing extension is refused.",
  ['inputs'],'all generated declaration files and damaged ones',
  'Tests load a few fixed files.',
  [C+'extension/declarative.rs',C+'extension/declarative/'],[('declarative loader','hugr-core/src/extension/declarative/')],['extension built'])
p('C31','All views of a program show the same graph',
  "Every way of looking at a program (children, neighbours, linked ports, traversal orders, region graphs, call graphs, module graphs, rerooted and restricted views, renderings) agrees with its list of nodes and edges: nothing missing, nothing invented, order consistent. Editing through a restricted view changes the underlying program in the same way.",
  ['programs'],'all generated programs and all nodes as view roots',
  'Tests inspect a few nodes of small programs.',
  [H+'views.rs',H+'views/','hugr-passes/src/call_graph.rs','hugr-core/src/module_graph.rs'],[('views','hugr-core/src/hugr/views/')],['query results on each view'])
p('C32','Package descriptions tell the truth',
  "The summary given with a loaded package, or salvaged from one that fails to load, states the true counts, names, generators, entrypoints and extensions of its contents.",
  ['inputs'],'all generated packages in all formats, intact and damaged',
  'Tests compare one or two snapshots.',
  [C+'envelope/description.rs','hugr-cli/src/describe.rs'],[('description','hugr-core/src/envelope/description.rs')],['description against package'])
p('C33','Saved JSON conforms to the published schema',
  "Every program, package and extension that is saved as JSON conforms to the schema published with the project, and everything the schema's strict version rejects at the top level is not produced by any writer.",
  ['programs'],'all generated programs and packages',
  'Tests check fixed programs.',
  ['specification/schema/',H+'serialize.rs'],[('serialisation','hugr-core/src/hugr/serialize.rs'),('schema','specification/schema/')],['JSON text against schema'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing',x['id'],f)
print(len(P))
