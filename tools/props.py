#!/usr/bin/env python3
"""Single source of truth for the property list.  Writes properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

SNAP = ("The snapshot tests in spade-hir-lowering and spade-tests compare MIR or Verilog text of a few hundred hand written units; "
        "they never execute the emitted hardware. ")

p("C01", "Registers: next state, reset, initial value and clock domains",
  "A `reg` in compiled hardware changes only on a rising edge of its own clock; on that edge it takes its reset value if its reset is asserted and otherwise the value its expression had just before the edge, all registers of a clock being updated simultaneously. Before the first edge it holds its `initial` value if one is given. Registers in other clock domains, other instances and unrelated registers are unaffected.",
  ["histories", "programs", "inputs"], "every well-typed program, every input history and every interleaving of clock edges",
  SNAP + "No test explores histories of resets, edges of several clocks and feedback between registers.",
  ["spade-ast-lowering/src/lib.rs", "spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs"],
  [("register lowering and codegen", "spade-hir-lowering/src/lib.rs statement lowering; spade-mir/src/codegen/mod.rs Register")],
  [("register contents", "value stored by each reg per instance", "emitted always blocks")])
p("C02", "Pipelines: a result depends on exactly the inputs from depth cycles earlier",
  "In a `pipeline(N)` every use of a variable in a stage (other than in a stage condition) sees the value that variable had in the stage that defined it, delayed by one cycle per `reg` in between, so the output at a cycle is the stage-free function of the inputs N cycles earlier. References to other stages (relative, labelled or absolute by label) read that stage's current value, and nested pipeline instances deliver their result exactly their declared depth later.",
  ["programs", "histories"], "every accepted pipeline, number and placement of stages, nesting and input history",
  SNAP + "The number of stage layouts, stage references and nestings is unbounded and timing errors of one cycle do not change the shape the snapshots look at by eye.",
  ["spade-hir-lowering/src/pipelines.rs", "spade-hir-lowering/src/lib.rs"],
  [("stage assignment and pipelining of names", "spade-hir-lowering/src/pipelines.rs")],
  [("pipeline stage registers", "variables carried over each reg boundary", "emitted hardware")])
p("C03", "Pipeline stalling: conditional stage registers, stage.valid and stage.ready",
  "A stage register `reg[cond]` advances on a cycle only if its own condition and the conditions of all stage registers downstream of it in the same pipeline hold; otherwise it and every register upstream keep their value. Names in a stage condition denote their value in the stage that defines them, at the current cycle. `stage.ready` is true exactly when the data in the current stage will move on this cycle, and `stage.valid` is true exactly when the current stage contains data that entered through enabled stage registers rather than a bubble.",
  ["programs", "histories"], "every pipeline with enable conditions and every history of inputs and stalls",
  SNAP + "Only two small stalling pipelines are simulated upstream (and not in the Rust tests).",
  ["spade-hir-lowering/src/pipelines.rs", "spade-hir-lowering/src/lib.rs"],
  [("enable chaining and valid tracking", "spade-hir-lowering/src/pipelines.rs, lower_pipeline")],
  [("stage enables", "which boundary registers move on a clock edge", "emitted hardware")])
p("C04", "Pipeline depth and availability errors are reported exactly when they occur",
  "The compiler rejects a pipeline whose number of stages differs from its declared depth, an instantiation whose declared depth differs from the instantiated pipeline's depth, a use of a nested pipeline's result before it is available and a reference to a stage or a variable that does not exist; it accepts the pipelines free of these faults.",
  ["programs"], "every pipeline skeleton: declared depth, stage markers, labels, references and nested instances",
  "The error tests contain one instance of each fault; the boundaries (off by one in depth, repeated regs, label before or after) are unexplored.",
  ["spade-ast-lowering/src/pipelines.rs", "spade-hir-lowering/src/pipelines.rs", "spade-typeinference/src/lib.rs"],
  [("stage counting, depth constraints and availability", "spade-ast-lowering/src/pipelines.rs; spade-hir-lowering/src/pipelines.rs")])
p("C05", "Integer operators compute exact two's complement results",
  "`+`, `-` and `*` on int and uint never overflow: their result type is wide enough and holds the exact mathematical value (modulo two's complement for a negative uint difference); `+.`, `-.`, `*.`, unary minus, shifts, bitwise operators, division, comparison, `trunc`, `sext`, `zext` and `concat` compute the documented function of their operands' numeric values, at every width and sign. Integer literals denote their written value in every base.",
  ["programs", "inputs"], "every combination of operators, operand types, widths (narrow and wider than 64 bits) and operand values",
  "Tests evaluate no emitted arithmetic; Verilog's context-determined width and signedness make a wrong result visible only for particular widths, signs and operand values.",
  ["spade-typeinference/src/expression.rs", "spade-ast-lowering/src/lib.rs", "spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs", "spade-compiler/core/ops.spade", "spade-compiler/stdlib/num.spade"],
  [("operator typing", "spade-typeinference/src/expression.rs visit_binary_operator"), ("operator codegen", "spade-mir/src/codegen/mod.rs statement_code")])
p("C06", "Static typing accepts exactly the well typed programs",
  "The compiler accepts a program whose expressions, widths, mutability and literals are consistent and rejects, with a diagnostic and without output, one in which two uses of a value require different types or widths, an operator is applied to operands it does not support, an argument list does not match the parameters, a condition is not a bool, or an integer literal does not fit its type (-2^(n-1)..2^(n-1)-1 for int<n>, 0..2^n-1 for uint<n>).",
  ["programs"], "every small expression and declaration over the core types and every literal and width pair",
  "The error tests hold one example per diagnostic; acceptance boundaries are not enumerated.",
  ["spade-typeinference/src/lib.rs", "spade-typeinference/src/expression.rs", "spade-typeinference/src/constraints.rs", "spade-hir-lowering/src/lib.rs"],
  [("unification and constraints", "spade-typeinference/src/lib.rs"), ("literal bounds", "spade-hir-lowering/src/lib.rs IntLiteral")])
p("C07", "match, if and if-let select the first arm that applies and bind the right parts",
  "A match evaluates to the first arm, in source order, whose pattern matches the scrutinee and whose guard (if any) holds, with each name in the pattern bound to the corresponding part of the value; if/else and if-let behave likewise, and patterns in let, reg and parameters bind the corresponding parts. Which arms exist never changes the value selected by an earlier arm.",
  ["programs", "inputs"], "every type, every list of nested patterns and guards and every scrutinee value",
  SNAP + "Overlapping, nested, guarded and reordered patterns over enums, structs, tuples, arrays, ints and bools are combinatorial.",
  ["spade-hir-lowering/src/lib.rs", "spade-hir-lowering/src/pattern.rs", "spade-mir/src/codegen/mod.rs"],
  [("pattern conditions", "spade-hir-lowering/src/lib.rs PatternLocal::condition"), ("match codegen", "spade-mir/src/codegen/mod.rs Operator::Match")])
p("C08", "Match exhaustiveness and let refutability are decided exactly",
  "The compiler accepts a match if and only if every value of the scrutinee's type is matched by some unguarded arm, and accepts a pattern in a let or register if and only if it matches every value of the type; every rejected match is reported as an error and produces no output.",
  ["programs"], "every list of patterns over bool, int, uint, tuple, array, struct, enum and nested types",
  "The unit tests of the usefulness algorithm sample a few dozen matrices; the algorithm recurses over constructors, ranges and arities.",
  ["spade-hir-lowering/src/usefulness.rs", "spade-hir-lowering/src/pattern.rs", "spade-hir-lowering/src/lib.rs"],
  [("usefulness", "spade-hir-lowering/src/usefulness.rs"), ("integer range splitting", "spade-hir-lowering/src/pattern.rs")])
p("C09", "Inverted ports are consumed exactly once",
  "The compiler rejects a unit in which a value containing an inverted (`inv`) wire, or a part of it, is used more than once or not at all, whether directly, through tuples, structs, fields, patterns, calls or set statements, and accepts a unit in which every such part is consumed exactly once.",
  ["programs"], "every way of splitting, passing, setting and dropping values with inv parts",
  "The linear checker is a tree-shaped state machine over paths; tests cover one use of each syntactic form.",
  ["spade-hir-lowering/src/linear_check.rs", "spade-hir-lowering/src/linear_check/linear_state.rs"],
  [("linear state tree", "spade-hir-lowering/src/linear_check/linear_state.rs")],
  [("use state", "per-path consumed or not", "LinearState")])
p("C10", "Data written to an inverted port arrives at the reader unchanged",
  "A value given by `set` to an inverted wire is seen, in the same cycle and bit for bit, at the reading end of that port whatever the number of tuples, structs, arrays, functions, entities and instances the wire passes through, in both directions at once, and independent wires do not influence each other.",
  ["programs", "inputs"], "every topology of ports, struct and tuple packing and unit boundaries",
  SNAP + "Forward and backward bits are packed separately; offsets are right for the few types tested only.",
  ["spade-mir/src/codegen/mod.rs", "spade-mir/src/types.rs", "spade-hir-lowering/src/lib.rs", "spade-mir/src/passes/deduplicate_mut_wires.rs"],
  [("backward size and concatenation", "spade-mir/src/codegen/mod.rs backward_expression_code")])
p("C11", "Aggregates keep their parts and have the documented bit layout",
  "Building a tuple, struct, array or enum variant and taking a part of it (tuple index, field, array index constant or dynamic, range index, nested in any way) yields that part unchanged; equality compares all parts; array indices outside the array are the only undefined reads. At a unit's ports values are laid out with the first tuple element or field in the most significant bits, array element 0 in the least significant bits and an enum's tag above its payload.",
  ["programs", "inputs"], "every nesting of aggregate types of any widths including zero-sized ones, every index and value",
  SNAP + "Offset arithmetic is only wrong for particular widths and nestings.",
  ["spade-mir/src/codegen/mod.rs", "spade-mir/src/types.rs", "spade-hir-lowering/src/lib.rs"],
  [("index and construct codegen", "spade-mir/src/codegen/mod.rs ConstructTuple/ConstructArray/ConstructEnum/Index*")])
p("C12", "Names resolve to the innermost visible declaration",
  "An identifier refers to the most recent declaration in its block before the use, else to that of the enclosing blocks, else to the parameters, else to the module scope; items are found through `mod`, `use` (with renaming, re-exports and chains), `lib`, `self` and `super` paths and only where visibility permits. Ambiguous, undefined, invisible or duplicate names are rejected.",
  ["programs"], "every arrangement of scopes, shadowing, modules, imports and visibility",
  "Tests contain single examples of each lookup rule; interactions of shadowing, aliases and module nesting are not sampled.",
  ["spade-hir/src/symbol_table.rs", "spade-ast-lowering/src/lib.rs", "spade-ast-lowering/src/global_symbols.rs", "spade-compiler/src/namespaced_file.rs"],
  [("symbol lookup", "spade-hir/src/symbol_table.rs"), ("use resolution and visibility", "spade-ast-lowering/src/global_symbols.rs")],
  [("scope stack", "innermost-first list of bindings", "SymbolTable")])
p("C13", "Generic units behave as their textual instantiation",
  "A generic unit or type instantiated at given types and numbers behaves as the unit obtained by substituting them, for every instantiation in the same program independently; const generic expressions evaluate to their arithmetic value, `gen if` selects the branch for the instantiation only, and a violated `where` condition is rejected.",
  ["programs", "inputs"], "every generic unit, nesting and set of instantiations",
  "Tests instantiate a generic unit once or twice and check text; sharing between instantiations and recursion depth are unexplored.",
  ["spade-hir-lowering/src/monomorphisation.rs", "spade-typeinference/src/lib.rs", "spade-ast-lowering/src/lib.rs"],
  [("monomorphisation queue", "spade-hir-lowering/src/monomorphisation.rs"), ("const generics", "spade-types/src/meta_types.rs; spade-hir/src/lib.rs ConstGeneric")])
p("C14", "Method calls dispatch to the implementation for the receiver's type",
  "A method call runs the body of the impl block whose target type matches the receiver, with the receiver bound to self and the other arguments to the parameters by position or by name; a trait-bounded call inside a generic unit runs the implementation of the instantiating type. Calls to missing methods, overlapping impls, incomplete or mismatching trait impls and unmet bounds are rejected.",
  ["programs", "inputs"], "every set of traits, impls, generic bounds and calls",
  "Tests exercise one trait with one or two impls at a time.",
  ["spade-typeinference/src/method_resolution.rs", "spade-typeinference/src/lib.rs", "spade-ast-lowering/src/impls.rs"],
  [("method resolution", "spade-typeinference/src/method_resolution.rs")])
p("C15", "Lambdas capture values of their definition and may be passed and called anywhere",
  "Calling a lambda gives the value of its body with its parameters bound to the arguments and its free variables bound to their values where the lambda was written, regardless of where it is called, of the names visible there, of how often it is called, and of the generic functions (such as map and fold) it passes through.",
  ["programs", "inputs"], "every lambda body, capture set, nesting and call site",
  "Snapshot tests show only a handful of lambdas without shadowing or nesting.",
  ["spade-ast-lowering/src/lambda.rs", "spade-hir-lowering/src/lib.rs", "spade-hir-lowering/src/monomorphisation.rs"],
  [("capture rewriting", "spade-hir-lowering/src/lambda_replacement.rs; spade-ast-lowering lambda")])
p("C16", "Optimisation passes and #[inline] preserve behaviour",
  "For every program, compiling with any subset of the optimisation passes, or with any subset of its units marked #[inline] or #[optimize], gives hardware with the same port behaviour on every defined input history as compiling without.",
  ["programs", "configurations", "histories"], "every program and set of passes",
  "Each pass has unit tests of one or two MIR fragments; combinations and their interaction with aliases, constants, enums, ports and zero-sized values are not run.",
  ["spade-mir/src/passes/", "spade-hir-lowering/src/inline.rs", "spade-compiler/src/lib.rs"],
  [("passes", "spade-mir/src/passes/*.rs")])
p("C17", "Memories return the last value written to an address",
  "Reading a clocked memory gives the value most recently written to that address by an enabled write port at an earlier edge of the memory's clock, or the initial value at that address if none; writes with the enable low, or to other addresses or other memories, do not change it, and of several ports writing one address at the same edge one written value is stored.",
  ["histories", "programs"], "every memory size, element type, number of write ports and history of writes and reads",
  "No test executes a memory; alias and port indexing errors show only with several ports, element types or non-power-of-two sizes.",
  ["spade-mir/src/codegen/mod.rs", "spade-hir-lowering/src/lib.rs", "spade-compiler/stdlib/mem.spade"],
  [("memory codegen", "spade-mir/src/codegen/mod.rs DeclClockedMemory/ReadMemory")],
  [("memory contents", "address to value map per memory", "emitted reg array")])
p("C18", "The asynchronous FIFO delivers every accepted element once, in order",
  "Between two unrelated clocks, every element written while `full` is low is read exactly once and in order, elements written while full are ignored, `read` is never a value that was not written, and `num_elements` never exceeds the number of elements actually stored.",
  ["schedules", "histories"], "every interleaving of the two clocks' edges and every write/ack behaviour",
  "Upstream tests run a few fixed clock ratios in cocotb only (not in the Rust suite).",
  ["spade-compiler/stdlib/mem.spade", "spade-compiler/stdlib/cdc.spade"],
  [("pointer exchange in Gray code", "spade-compiler/stdlib/mem.spade fifo_impl")],
  [("read and write pointers, synchronisers", "FIFO occupancy as seen by each side", "spade-compiler/stdlib/mem.spade")])
p("C19", "Clock domain crossing primitives transfer only values that were sent",
  "`handshake` turns every sufficiently separated single-cycle input into exactly one output with the same data; `sync_wide` outputs only the initial value or values present at its input, in order, and eventually the current one if it stays; the two-flop and Gray-coded counter synchronisers deliver the source value delayed by the documented number of edges, and Gray codes of consecutive numbers differ in one bit.",
  ["schedules", "histories"], "every interleaving of source and destination edges and input history",
  "No Rust test executes them; upstream cocotb tests use fixed clock ratios.",
  ["spade-compiler/stdlib/cdc.spade", "spade-compiler/stdlib/num.spade"],
  [("handshake and sync_wide state machines", "spade-compiler/stdlib/cdc.spade")],
  [("tx/rx protocol state", "request/acknowledge phase in each domain", "spade-compiler/stdlib/cdc.spade")])
p("C20", "Standard library functions compute what they document",
  "The functions and methods of the standard library on integers, bit arrays, arrays, options and bools (conversions, byte orders, reductions, abs, min, max, order, Gray code, interleave, map, fold, zip, concat, split, chunks, sliding windows, reversal, flatten, Option combinators and windows) return the documented value for every input, width and array length.",
  ["inputs", "programs"], "every function, width, array length and argument",
  "Doc examples check single values at one width; recursion over lengths and widths is not explored.",
  ["spade-compiler/stdlib/num.spade", "spade-compiler/stdlib/array.spade", "spade-compiler/stdlib/conv.spade", "spade-compiler/stdlib/option.spade", "spade-compiler/stdlib/ops.spade", "spade-hir-lowering/src/lib.rs"],
  [("stdlib sources and intrinsics", "spade-compiler/stdlib/*.spade; spade-hir-lowering/src/lib.rs handle_* intrinsics")])
p("C21", "Compilation is a deterministic function of the sources",
  "Compiling the same sources with the same options gives byte-identical Verilog, MIR and item list and the same diagnostics every time, whatever the number of worker threads, hash seeds, scheduling or the programs compiled before in the same process.",
  ["schedules", "programs", "configurations"], "every program, thread count and repetition",
  "Tests compile each program once; hash iteration order and work stealing differ from process to process.",
  ["spade-compiler/src/lib.rs", "spade-hir-lowering/src/monomorphisation.rs", "spade-mir/src/renaming.rs"],
  [("parallel lowering and naming", "spade-compiler/src/lib.rs; spade-mir/src/renaming.rs")])
p("C22", "A failed compilation writes no hardware and exits with an error",
  "If the options, an input file or any unit in any file contains an error, whichever phase finds it, the compiler exits with a nonzero status, prints a diagnostic and leaves every requested output for hardware (Verilog, MIR, item list, Verilator wrapper) unwritten and pre-existing ones untouched. Otherwise (warnings are no errors) it writes all of them, complete and including every unit that is not generic, and exits with zero, or with a nonzero status and a message if one cannot be written. An error in the syntax or the body of one unit does not hide the diagnostics of other units in the same phase, and only units with an error are blamed.",
  ["programs", "fault_sequences", "configurations"], "every combination of faulty and correct units, phases, files and outputs requested",
  "Error tests inject one fault at a time and look at its message, not at exit status and output files.",
  ["spade-compiler/src/lib.rs", "spade-compiler/src/main.rs", "spade-compiler/src/error_handling.rs"],
  [("error state and output gate", "spade-compiler/src/lib.rs compile; error_handling.rs ErrorHandler")],
  [("error flag", "whether some phase failed", "ErrorHandler.failed")])
p("C23", "Emitted Verilog is a well-formed netlist",
  "Every Verilog file produced is accepted as legal: each identifier is declared once and before use, each instance names an existing module and connects each of its ports with matching width, each wire has exactly one driver, selects are in range, and assignments do not lose or invent bits. Distinct units, instantiations and variables never share an identifier. (Names fixed with `#[no_mangle]` are the choice of the author.)",
  ["programs"], "every accepted program",
  "No test parses the emitted Verilog; name collisions and width slips appear only for particular programs.",
  ["spade-mir/src/codegen/mod.rs", "spade-mir/src/renaming.rs", "spade-mir/src/unit_name.rs", "spade-mir/src/wal.rs"],
  [("naming and declarations", "spade-mir/src/renaming.rs, unit_name.rs"), ("codegen", "spade-mir/src/codegen/mod.rs")])
p("C24", "Waveform values are translated back to the source value they encode",
  "Translating the bits of a signal with the type information the compiler saved gives the textual form of the value those bits encode under the hardware layout, for every type and value, with undefined and high-impedance bits shown as such and never as a wrong defined value. A value whose size does not fit its type, and a variable without type information (memories, copies of variables in stages and inlined units), has no text; no input makes the translation fail.",
  ["inputs", "programs"], "every type and bit pattern including x and z bits",
  "vcd-translate's unit tests check a handful of types and values.",
  ["vcd-translate/src/translation.rs", "spade-types/src/lib.rs", "spade-hir-lowering/src/substitution.rs"],
  [("value translation", "vcd-translate/src/translation.rs inner_translate_value")])
p("C25", "Expressions are parsed with the documented precedence and associativity",
  "An unparenthesised expression means the fully parenthesised one given by the operator precedence table (from tightest: field, index and method suffixes; prefix operators; `*` family; `+` family; shifts; `&`; `^`; `|`; comparisons; equality; `^^`; `&&`; `||`; backtick infix calls), where binary operators group to the left and infix calls to the right, and redundant parentheses, whitespace, comments and the spelling of literals never change meaning.",
  ["programs"], "every expression over all operators",
  "Parser tests contain single pairs of operators.",
  ["spade-parser/src/expression.rs", "spade-parser/src/lib.rs", "spade-ast/src/token.rs"],
  [("operator precedence climbing", "spade-parser/src/expression.rs")])
p("C26", "Test bench access reads and writes the intended signal, field and value",
  "Driving an input port with a Spade expression (literals, tuples, arrays, structs, enum constructors, sums and differences) through the simulation interface sets exactly the bits of that port to the encoding of the value, reading or comparing an output port or field path gives exactly that field's bits, and an unknown port or field, a type mismatch or an undefined bit is reported instead of silently passing; the session stays usable after an error.",
  ["programs", "inputs"], "every port type, field path and value",
  "The extension's tests cover a few fixed structs.",
  ["spade-simulation-ext/src/lib.rs", "spade-simulation-ext/src/field_ref.rs"],
  [("field offsets and expression evaluation", "spade-simulation-ext/src/lib.rs")])
p("C27", "Unit kind and unsafe rules are enforced",
  "Calling a unit requires the syntax for its kind (`fn` by plain call, entity by `inst`, pipeline by `inst(depth)`), functions cannot contain registers or instances, and unsafe units can be called only inside an unsafe block; the compiler rejects every violation and accepts every conforming program.",
  ["programs"], "every nesting of unit kinds, calls, blocks and lambdas",
  "Tests hold one example per message.",
  ["spade-ast-lowering/src/lib.rs", "spade-hir-lowering/src/lib.rs", "spade-typeinference/src/lib.rs"],
  [("context checks", "spade-ast-lowering/src/lib.rs visit_call, visit_statement")])
p("C28", "Assertions fire exactly when their condition is false",
  "An `assert` statement in any unit reports a failure in simulation exactly at the times at which its condition is false in that instance, and never changes the behaviour of the hardware.",
  ["programs", "histories"], "every condition, unit, instance and input history",
  "Snapshot tests check the text of a single assertion.",
  ["spade-mir/src/codegen/mod.rs", "spade-hir-lowering/src/lib.rs"],
  [("assert codegen", "spade-mir/src/codegen/mod.rs Assert")])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
