#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, the results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, observe=list(observe)))


EXE = ["constraint_generation/src/execute.rs", "compiler/src", "code_producers/src"]

prop("C01", "Every witness that is returned satisfies the emitted R1CS",
     "For every program the compiler accepts, every prime, simplification level and input: whenever the generated witness calculator returns a witness, "
     "that witness satisfies every constraint of the .r1cs file written by the same compilation. The witness has one element per wire of the file and starts with 1.",
     ["programs", "inputs", "configurations"], "all accepted programs x inputs x primes x --O0/--O1/--O2/--O2round",
     "The repository's tests parse snippets and check a few field operations; none compiles a circuit and runs it.",
     ["constraint_generation/src", "constraint_list/src", "compiler/src/intermediate_representation", "compiler/src/circuit_design", "code_producers/src"],
     [("constraints collected while executing", "constraint_generation/src/execute.rs"), ("simplification and renumbering", "constraint_list/src/constraint_simplification.rs"),
      ("witness list of the calculator", "circom/src/compilation_user.rs")],
     "random programs and inputs; oracle: evaluation of every constraint over the witness by an independent reader", "generated programs + constraint evaluation",
     ["*.r1cs", "*.wtns"])
prop("C02", "The witness has the values that the source program means",
     "For every valid program and input, the value of each signal that has a position in the witness is the one obtained by executing the source according to "
     "the language documentation (assignments, control flow, functions, arrays, buses, components, operators), and log prints the values of its arguments in order. "
     "A valid program is compiled, never rejected.",
     ["programs", "inputs", "configurations"], "all valid programs x inputs x primes x simplification levels",
     "Meaning is a relation over all programs; the repository's tests do not execute any circuit.",
     EXE + ["type_analysis/src", "program_structure/src", "constant_tracking/src"],
     [("compile-time execution", "constraint_generation/src/execute.rs"), ("lowering to intermediate code", "compiler/src/intermediate_representation/translate.rs"),
      ("WASM generation", "code_producers/src/wasm_elements")],
     "random programs; oracle: an independent interpreter of the documented language", "generated programs + reference interpreter (differential)", ["*.wtns", "stdout of the calculator"])
prop("C03", "The C++ and WASM witness calculators agree",
     "For every valid program and input, the C++ calculator (with the assembly or with the portable field code) and the WASM calculator of one compilation either "
     "both refuse the input or both write the same witness and print the same log lines. The generated C++ always compiles and runs without crashing.",
     ["programs", "inputs", "configurations"], "all valid programs x inputs x primes x {asm, no_asm}",
     "No test of the repository builds the generated C++.",
     ["code_producers/src/c_elements", "code_producers/src/wasm_elements", "compiler/src/intermediate_representation"],
     [("produce_c / produce_wasm of every instruction", "compiler/src/intermediate_representation")],
     "random programs; oracle: byte equality of the witness files and agreement with the interpreter", "generated programs, differential of two back ends", ["*.wtns"])
prop("C04", "Every operator computes its documented function, wherever it is evaluated",
     "For every pair of field elements and every prime, each arithmetic, bitwise, shift, relational and boolean operator gives the documented result when the "
     "compiler evaluates it as a constant and when the WASM, C++ assembly and portable C++ field code evaluate it, whatever internal representation the operands have.",
     ["inputs", "configurations"], "all operand pairs x operators x 8 primes x 4 evaluators",
     "The unit tests of circom_algebra try a few small operands modulo one small prime; the run-time field code is untested.",
     ["circom_algebra/src/modular_arithmetic.rs", "code_producers/src/c_elements", "code_producers/src/wasm_elements", "constraint_generation/src/execute.rs"],
     [("constant evaluation", "circom_algebra/src/modular_arithmetic.rs"), ("run-time field libraries", "code_producers/src/{c,wasm}_elements/<prime>")],
     "boundary-biased and uniform operands, five operand representations; oracle: Python integers following the documentation", "generated operands + reference arithmetic")
prop("C05", "The emitted constraints are exactly the stated ones",
     "For every valid program, the constraints written at --O0 are, as a multiset and up to a constant factor, exactly those that <==, ==> and === state when the program is "
     "executed according to the documentation, over the signals they mention; nothing is added or lost. <--, -->, = and assert state none.",
     ["programs", "configurations"], "all valid programs x primes",
     "A missing constraint is invisible to every honest execution; no test looks at emitted constraints.",
     ["constraint_generation/src/execute.rs", "circom_algebra/src/algebra.rs", "constraint_generation/src/execution_data", "dag/src"],
     [("symbolic evaluation and transform_expression_to_constraint_form", "circom_algebra/src/algebra.rs"), ("signal numbering", "dag/src")],
     "random programs; oracle: polynomials collected by the interpreter", "generated programs + reference constraint collection", ["*.r1cs", "*.sym"])
prop("C06", "Simplification preserves the set of solutions",
     "For every circuit and every simplification level, heuristic and number of rounds, the simplified constraints together with the equations of the substitutions "
     "file have exactly the same solutions over all signals as the constraints before simplification. Every substituted signal is written in terms of signals that are not substituted.",
     ["programs", "configurations"], "all constraint systems x levels, rounds, heuristics x primes",
     "The tests of constraint_list and circom_algebra simplify a handful of fixed constraints.",
     ["constraint_list/src", "circom_algebra/src/algebra.rs", "circom_algebra/src/simplification_utils.rs"],
     [("single / constant / linear substitution", "constraint_list/src/constraint_simplification.rs"), ("Gauss-Jordan", "circom_algebra/src/simplification_utils.rs"),
      ("duplicate quadratic constraints", "constraint_list/src/non_linear_simplification.rs")],
     "random linear/quadratic systems and programs; oracle: canonical forms of both systems computed independently", "generated systems + algebraic equivalence", ["*.r1cs", "*_substitutions.json"])
prop("C07", "Each simplification level does what is documented, and keeps the interface",
     "--O0 keeps every signal and constraint; --O1 substitutes signals only by one signal or one constant and leaves no such equality that has a private signal; --O2 leaves no linear "
     "constraint that has a private signal. The outputs and public inputs of main are never eliminated and keep their positions.",
     ["programs", "configurations"], "all constraint systems x levels x primes",
     "No test runs the simplifier on whole circuits.",
     ["constraint_list/src/constraint_simplification.rs", "constraint_list/src/lib.rs", "dag/src/map_to_constraint_list.rs", "dag/src/constraint_correctness_analysis.rs"],
     [("classification of constraints and forbidden signals", "dag/src/map_to_constraint_list.rs"), ("rounds", "constraint_list/src/constraint_simplification.rs")],
     "random systems; oracle: the documented guarantee of each level", "generated systems + invariants per level", ["*.r1cs", "*.sym", "*_substitutions.json"])
prop("C08", "The .r1cs file is well formed and agrees with the JSON and the report",
     "For every circuit and option, the .r1cs file follows its format (section lengths, ids in range, reduced non-zero coefficients), its header has the true "
     "numbers of wires, labels, outputs, inputs and constraints of the circuit and the chosen prime, and the constraints JSON and the numbers printed by the compiler describe the same system.",
     ["programs", "configurations"], "all circuits x levels x primes",
     "No test reads the files the compiler writes.",
     ["constraint_writers/src", "constraint_list/src/r1cs_porting.rs", "constraint_list/src/json_porting.rs", "dag/src/r1cs_porting.rs", "dag/src/json_porting.rs"],
     [("binary writer", "constraint_writers/src/r1cs_writer.rs"), ("report", "constraint_writers/src/log_writer.rs")],
     "random circuits; oracle: strict independent reader, cross-comparison of the three outputs", "generated circuits + independent parser", ["*.r1cs", "*_constraints.json", "stdout"])
prop("C09", "The .sym file names every signal once and agrees with the .r1cs file",
     "For every circuit and option, the .sym file lists every signal of the program once, with its qualified name, labels 1..n; its witness positions are those of the "
     ".r1cs map, each used once, and -1 exactly for private signals that occur in no constraint (at --O0 every signal is kept); all signals of a component carry the same component number.",
     ["programs", "configurations"], "all circuits x levels x primes",
     "No test reads the .sym file.",
     ["dag/src/sym_porting.rs", "constraint_list/src/sym_porting.rs", "constraint_writers/src/sym_writer.rs", "dag/src/witness_producer.rs", "constraint_list/src/constraint_simplification.rs"],
     [("traversal of the circuit graph", "dag/src/sym_porting.rs"), ("renumbering of kept signals", "constraint_list/src/constraint_simplification.rs (rebuild_witness)")],
     "random programs; oracle: signals created by the reference interpreter, .r1cs map", "generated programs + reference model of signal names", ["*.sym", "*.r1cs"])
prop("C10", "The witness starts with 1, outputs, public inputs and private inputs in order",
     "For every interface of main, at every level, the witness is 1, then the outputs, then the public inputs, in declaration order (arrays row-major, bus fields in declaration order), then the kept private "
     "inputs in declaration order, with the values supplied by name and the values computed; neither the order of the public list nor that of the JSON keys matters.",
     ["programs", "inputs", "configurations"], "all interfaces x public lists x levels x primes",
     "Verifiers depend on it for every interface; no test generates one.",
     ["dag/src/lib.rs", "constraint_generation/src/execute.rs", "compiler/src/circuit_design/template.rs", "code_producers/src/wasm_elements/common/witness_calculator.js"],
     [("numbering of the signals of main", "dag/src/lib.rs"), ("input hash map", "code_producers/src")],
     "random interfaces; oracle: order computed from the declarations", "generated interfaces + reference order", ["*.wtns", "*.sym"])
exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                                        "observe_at": x["observe"], "hook_needed": None}}) + "\n")
have = [x for x in P if os.path.exists(os.path.join(V, "vf", "checks", x["id"].lower() + ".py"))]
m = {"version": 1, "setup_cmd": "./check setup",
     "checks": [{"property": x["id"], "quick_cmd": "./check %s quick" % x["id"], "thorough_cmd": "./check %s thorough" % x["id"],
                 "evidence_file": "evidence/%s.json" % x["id"],
                 "technique": "property-based testing: " + x["technique"], "level": "exploration", "level_note": x["level_note"]} for x in have],
     "not_applicable": [{"property": x["id"], "reason": "no check yet"} for x in P if x not in have],
     "notes": "No hooks: the checks drive the compiler binary built from /repo's working tree and the files it emits. "
              "known-findings.txt lists the repaired defects and the known findings; regress/ holds concrete scenarios of the repaired ones."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), len(have))
