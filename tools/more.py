# more entries of the table of tools/mk.py
prop("C11", "Programs with a documented error are rejected, their legal twins are accepted",
     "Every program that breaks a documented rule (names and scopes, operators of assignment, repeated assignments, non-quadratic constraints, conditions and sizes that have to be known, "
     "shapes and bounds, components, buses, tags, functions, main, pragmas, syntax) is rejected with an error message, a failure status and no output files, wherever the error occurs in "
     "code that is part of the circuit; the same program with the nearest legal code instead is accepted. The compiler never panics.",
     ["programs"], "all programs x kinds of error x enclosing statements",
     "The rules must hold at every place of every program; the tests check a handful of snippets.",
     ["type_analysis/src", "constraint_generation/src", "parser/src"],
     [("type and symbol analyses", "type_analysis/src/analyzers"), ("errors of the execution", "constraint_generation/src/execute.rs"), ("desugaring checks", "parser/src/syntax_sugar_remover.rs")],
     "documented errors placed in random programs; oracle: rejection, and acceptance of the legal twin", "generated programs with planted errors and legal twins", ["exit status", "diagnostics"])
prop("C12", "The compiler ends normally on every source text",
     "For every source text and combination of options, the compiler ends with status 0 after writing every requested file, complete and well formed, and without printing an error, or with status 1 and an "
     "error message. It never panics, aborts or ends by a signal.",
     ["programs", "configurations"], "all texts x options, within time and memory limits (and without unbounded recursion)",
     "Totality is about inputs that nobody thought of.",
     ["parser/src", "type_analysis/src", "constraint_generation/src", "compiler/src", "circom/src"],
     [("parsing", "parser/src/lang.lalrpop"), ("analyses", "type_analysis/src"), ("execution", "constraint_generation/src/execute.rs"), ("code generation", "compiler/src")],
     "mutated programs; oracle: normal end, strict readers of the files", "mutation-based generation + exit status and strict readers", ["exit status", "stderr", "files"])
prop("C18", "A witness is returned exactly when every executed assertion and equality holds",
     "With sanity checks at their default or stricter level, the witness calculator returns a witness if and only if every assert that is executed and every === or <== that is executed holds for the values of "
     "the execution, in templates, functions and subcomponents, at top level, in loops and in branches with unknown conditions; otherwise it fails.",
     ["programs", "inputs", "configurations"], "all programs x inputs x --sanity_check 1, 2, 3 x levels",
     "The checks must survive every transformation for every input; no test runs a witness calculator.",
     ["constraint_generation/src/execute.rs", "compiler/src/intermediate_representation", "code_producers/src/wasm_elements"],
     [("asserts evaluated at compile time", "constraint_generation/src/execute.rs"), ("assert buckets", "compiler/src/intermediate_representation/assert_bucket.rs")],
     "random programs with checks that hold for some inputs; oracle: reference interpreter", "generated programs + reference interpreter", ["exit status of the calculator"])
prop("C13", "The abbreviations mean what they are documented to mean",
     "Anonymous components, tuples, assignments and equalities of whole arrays and buses, initialised declarations, compound assignments, increments, for loops, reversed and constraining assignments mean the same "
     "as their documented expansion: replacing any of them by its expansion gives a program with the same signals, the same constraints and the same results of witness generation.",
     ["programs"], "all programs x subsets of the abbreviations that are expanded",
     "The expansions are done by several passes that must compose in every context.",
     ["parser/src", "constraint_generation/src/execute.rs", "compiler/src/hir", "compiler/src/intermediate_representation/translate.rs"],
     [("desugaring", "parser/src/syntax_sugar_remover.rs"), ("desugaring of arrays", "compiler/src/hir/sugar_cleaner.rs")],
     "random programs against their expansions; oracle: metamorphic", "generated programs + metamorphic relation (expansion of the abbreviations)", ["signals", "constraints", "witness"])
prop("C15", "Compilation is deterministic and independent of the requested outputs",
     "Compiling the same sources with the same prime and simplification options always gives the same files, whatever the scheduling, the number of processors, the output folder, the set of other requested outputs "
     "and the verbosity: the same exit status, every requested file and no other, and the same contents (JSON files: the same objects). Options of the witness calculators only change the witness calculators.",
     ["programs", "configurations", "schedules"], "all programs x options x schedules",
     "The R1CS, the .sym file and the witness calculators of separate runs have to fit together, and trusted setups are bound to one R1CS; tests compile once.",
     ["constraint_list/src", "circom_algebra/src/simplification_utils.rs", "circom/src", "constraint_writers/src"],
     [("clusters solved by a thread pool", "constraint_list/src/constraint_simplification.rs"), ("heuristics over hash maps", "circom_algebra/src/simplification_utils.rs"), ("options", "circom/src/input_user.rs")],
     "pairs of compilations of random programs and systems; oracle: differential", "generated programs and configurations + differential between repeated compilations", ["files", "exit status"])
prop("C16", "The text of a program can be rearranged without changing the circuit",
     "Renaming variables, parameters, functions, templates and buses consistently (also to names used elsewhere, where scopes allow it), adding parentheses and braces, changing the notation of numbers (hexadecimal, "
     "plus multiples of the prime), blanks and comments, the order of the definitions and their division in included files does not change the constraints, the signals, the witnesses and the log lines.",
     ["programs", "metamorphic"], "all programs x rearrangements",
     "Scopes, shadowing, spelling and file handling must be right in every combination.",
     ["parser/src", "program_structure/src", "type_analysis/src", "circom/src/parser_user.rs"],
     [("parsing and comments", "parser/src/parser_logic.rs"), ("includes", "parser/src/include_logic.rs"), ("constants of functions", "type_analysis/src/decorators/constants_handler.rs"), ("scopes", "program_structure/src/utils/environment.rs")],
     "random programs against rearranged ones; oracle: metamorphic", "generated programs + metamorphic relation (rearranged texts)", ["r1cs", "sym", "witness", "logs"])
prop("C17", "The witness calculators take exactly the complete inputs, in any notation",
     "For every interface of main and every sequence of inputs given to a calculator: an input object with exactly the declared names and numbers of values (as decimal, hexadecimal, octal or binary strings or "
     "numbers, in any order, beyond the prime or not, nested or flat, buses by fields or serialized) gives the witness of these values modulo the prime, and one with missing, unknown, short, long or malformed entries is refused, whatever was calculated before with "
     "the same instance and however the witness is asked for (calculateWitness, calculateBinWitness, calculateWTNSBin, generate_witness.js, the C++ program).",
     ["programs", "inputs", "histories"], "all interfaces x sequences of input objects x ways of asking",
     "Soundness of a deployment needs that no input is silently dropped or defaulted; no test runs a calculator.",
     ["code_producers/src/wasm_elements", "code_producers/src/c_elements", "compiler/src/circuit_design/build.rs"],
     [("JavaScript glue", "code_producers/src/wasm_elements/common/witness_calculator.js"), ("C++ glue", "code_producers/src/c_elements/common/main.cpp"), ("names of the inputs", "compiler/src/circuit_design/build.rs")],
     "random interfaces and histories of input objects; oracle: values computed from the objects, refusal of the incorrect ones", "stateful generation of input objects + model of the inputs", ["witness", "refusals"])
prop("C19", "Tags reach the signals that inherit them, with their values, and no others",
     "A signal, array or bus assigned (as a whole, by positions, from a literal) from others that carry a tag carries it with the same value when all agree, unless its own declaration gives the tag a value; operations "
     "and <-- drop tags. The values are constants of the circuit that can be used in values, sizes, conditions and parameters, also through components, arrays of components and buses. Components are refused inputs that lack a "
     "declared tag, and so are values given twice, after the assignment, to inputs, or unknown.",
     ["programs"], "all programs with tags",
     "Tags are how circuits state preconditions (binary, maxbit); a tag that is lost, forged or keeps a stale value makes circuits unsound.",
     ["constraint_generation/src", "type_analysis/src"],
     [("propagation", "constraint_generation/src/assignment_utils.rs"), ("slices and tags of the environment", "constraint_generation/src/environment_utils"), ("tags of components", "constraint_generation/src/environment_utils/component_representation.rs"), ("execution", "constraint_generation/src/execute.rs")],
     "random programs with tags whose values appear in the witness; oracle: model of the documentation, rejection of planted errors", "generated programs + model of the propagation of tags", ["witness", "exit status", "signals"])
prop("C25", "An include names the first file found from the including file and the -l folders",
     "For every tree of files and -l folders: each include is the file of that name relative to the folder of the including file or else to the first -l folder that has it; every file that is reached is read once, "
     "whatever names it is reached by and in whatever cycles, and its definitions are visible in all files; no other definitions are. An include that is not found, two definitions of a name, no main component or "
     "more than one are errors.",
     ["programs", "configurations"], "all trees of files x -l folders x working folders",
     "A circuit that silently picks another file of the same name is another circuit; no test includes a file.",
     ["parser/src", "circom/src", "program_structure/src"],
     [("resolution of includes", "parser/src/include_logic.rs"), ("reading of all files", "parser/src/lib.rs"), ("definitions of all files", "program_structure/src/program_library/program_merger.rs"), ("-l", "circom/src/input_user.rs")],
     "random trees of files; oracle: model of the resolution, values of the definitions that are used", "generated trees of files + model of the resolution", ["exit status", "witness", "diagnostics"])
prop("C26", "The version and custom templates pragmas are enforced on every file that is read",
     "A program is refused if any file that it reads (directly or not, also in cycles) has a version pragma of another major version or newer than the compiler, or has the custom templates pragma and a version older than 2.0.6, or "
     "declares or reaches by includes a custom template without having the custom templates pragma (all such files are named); otherwise pragmas do not cause errors, and exactly the files without version are warned of.",
     ["programs"], "all trees of files x pragmas",
     "The pragmas are the compatibility contract; the graph of includes has arbitrary shape and no test includes a file.",
     ["parser/src"],
     [("versions", "parser/src/lib.rs"), ("graph of includes", "parser/src/include_logic.rs")],
     "random trees of files with pragmas; oracle: reachability model", "generated trees of files + reachability model", ["exit status", "diagnostics"])
prop("C20", "Custom templates add no constraints and are listed with wires in the R1CS file",
     "For every program with custom templates, prime and level: they contribute no constraint; sections 4 and 5 of the R1CS file list each custom template that is used, with its parameters, and each of its components with the "
     "wires of its signals in order of declaration, none of them eliminated by simplification; the constraints around them keep their solutions; the calculators assign the values that the body states. "
     "A constraint or a component inside a custom template of the circuit is an error.",
     ["programs", "configurations"], "all programs with custom templates x options",
     "The prover of custom gates relies on these sections only; no test has a custom template.",
     ["dag/src", "constraint_list/src", "constraint_writers/src", "type_analysis/src", "constraint_generation/src", "parser/src"],
     [("sections at O0", "dag/src/r1cs_porting.rs"), ("sections after simplification", "constraint_list/src/r1cs_porting.rs"), ("signals that are kept", "dag/src/map_to_constraint_list.rs"), ("checks", "type_analysis/src/analyzers/custom_gate_analysis.rs")],
     "random trees of custom templates; oracle: model of the uses, canonical forms, values", "generated programs + model of the uses of custom templates", ["r1cs", "witness", "exit status"])
prop("C24", "Correctness does not depend on the size of the program",
     "Programs with any number of signals, constraints, wires, inputs, input names, constants, components, nested components, templates, functions, bus fields, statements, loop steps and array elements "
     "(beyond 256, 65,536 and the like) compile, and their .r1cs, .sym and witness files are well formed, agree with each other and contain the signals, constraints and values of the program.",
     ["programs", "sizes"], "families of programs of any size, within time and memory limits",
     "Real circuits have millions of constraints; narrowed integers, full tables and buffers that do not grow are invisible to small tests.",
     ["compiler/src", "code_producers/src", "constraint_writers/src", "constraint_list/src", "dag/src"],
     [("numbers of the .r1cs file", "constraint_writers/src/r1cs_writer.rs"), ("memory of the WASM module", "code_producers/src/wasm_elements/wasm_code_generator.rs"), ("clusters of linear constraints", "circom_algebra/src/simplification_utils.rs")],
     "parametrised families of large programs; oracle: closed form of signals, values and numbers of constraints", "generated large programs + closed-form model", ["r1cs", "sym", "witness"])
prop("C21", "--inspect reports exactly the signals and assignments without constraints",
     "With --inspect, each instance of a template has a warning for exactly its signals, and the input and output signals of its subcomponents, that occur in no constraint of the instance (nor are assigned to _), "
     "arrays in one warning with their number and first names, and for exactly the assignments with <-- in it whose values are at most quadratic (at all or some of the positions). "
     "Without --inspect there is none of these warnings, and the .r1cs file is the same.",
     ["programs"], "all programs",
     "The warnings are how a circuit's author finds missing constraints; a warning that is lost hides an unsound circuit, and no test uses --inspect.",
     ["dag/src", "constraint_generation/src"],
     [("signals in no constraint", "dag/src/constraint_correctness_analysis.rs"), ("assignments with <--", "constraint_generation/src/execute.rs"), ("summary of <--", "constraint_generation/src/execution_data/analysis.rs")],
     "random programs; oracle: the constraints and values of the reference interpreter, per template instance", "generated programs + reference interpreter (occurrences of signals, degree of values)", ["diagnostics", "r1cs"])
