# Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, tech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors={"files": files, "mechanism": [
                      {"name": n, "where": w} for n, w in mech]}, tech=tech, note=note))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech, None, None)
    NA.append({"property": id, "reason": reason})


p("C01", "Source bytes are split into C tokens by maximal munch",
  "Every punctuator, identifier, preprocessing number, string and character literal of C11 is recognised as the longest possible token with the right kind, and no other character sequence is accepted as that token. Comments and line continuations separate or join tokens exactly as translation phases 2 and 3 require, and every token records whether white space or a line start preceded it.",
  ["inputs"], "every source file, hence every character sequence at every token start",
  "Tests contain a few hundred programs written in conventional style; rarely adjacent punctuators, digraph-like sequences, pp-numbers with exponents and continuations inside tokens never occur in them.",
  ["src/preprocessor/tokenizer.c", "src/preprocessor/input.c", "src/character_types.c"],
  [("punctuator recognition and longest match", "tokenizer_next"), ("comment/continuation flushing", "tokenizer.c, input.c")],
  "abstract interpretation of the tokenizer over character classes", "")

p("C02", "Operators bind and associate as the C grammar says",
  "For every pair of operators in an expression, the parse groups operands according to C's precedence and associativity, and every operator token denotes the operation the standard gives it, in its plain, compound-assignment, prefix and postfix forms.",
  ["programs"], "every expression, i.e. every combination of adjacent operators",
  "There are more than a thousand ordered operator pairs; tests exercise a few dozen of them.",
  ["src/precedence.c", "src/parser/expression.c", "src/preprocessor/directives.c"],
  [("binding-power table", "precedence.c"), ("token to operation tables", "parse_pratt_with_lhs, parse_prefix")],
  "constant propagation of the binding-power and operator tables, path-sensitive analysis of the expression parser per token", "")

p("C03", "Declaration specifiers denote the type C gives them",
  "Every permitted multiset of type specifiers, in any order, denotes exactly the type listed for it in C11 6.7.2, and every other multiset is rejected with a diagnostic. Storage-class, qualifier, function and alignment specifiers are recorded for the declaration in which they appear and for no other.",
  ["programs"], "every specifier multiset in every order",
  "Only the common spellings occur in the tests.",
  ["src/parser/declaration.c"],
  [("specifier counting and lookup", "parse_specifiers / specifiers_to_type")],
  "abstract interpretation of specifier collection and exhaustive evaluation of the specifier table", "")

p("C04", "Scalar sizes, alignments, signedness follow the target ABI",
  "For each supported target ABI, every basic type has the size, alignment and signedness that ABI publishes, pointers are 8 bytes, arrays are their length times their element with the element's alignment, and size_t, ptrdiff_t and wchar_t are the ABI's types. Every basic type is classified as exactly one of integer, floating or void, and the data-model macros of the selected ABI (and not of the other) are predefined.",
  ["programs", "configurations"], "every basic and derived type under both target ABIs",
  "The tests run on one ABI only and print few sizes; the Windows data model is never executed here.",
  ["src/abi/sysv.c", "src/abi/microsoft.c", "src/arch/x64.c", "src/types.c"],
  [("ABI initialisers", "abi_init_sysv, abi_init_microsoft"), ("size and alignment queries", "calculate_size, calculate_alignment")],
  "path-sensitive constant propagation over every type and ABI, compared with the ABI tables", "")

p("C05", "Promotions, usual conversions, literal types follow C11 6.3/6.4.4",
  "Every operand of an arithmetic, shift, comparison, bitwise, conditional or compound-assignment expression is converted exactly as the integer promotions and usual arithmetic conversions prescribe on the selected ABI, bit-fields included, and the result has the prescribed type; variadic arguments receive the default argument promotions. Every integer constant has the first type of its list that can represent its value, and every floating constant the type named by its suffix.",
  ["programs", "inputs"], "all pairs of arithmetic types and operators; all constants of every base and suffix",
  "More than two thousand type-pair/operator combinations exist for each ABI; the tests cover a few dozen with values that rarely distinguish them.",
  ["src/parser/expression.c", "src/arch/x64.c", "src/ir/operators.c"],
  [("usual arithmetic conversions", "expr_new and helpers"), ("constant typing", "constant_from_string")],
  "abstract interpretation of expression construction for every operator and operand-type pair; symbolic-digit analysis of constant typing", "")

p("C06", "Constant folding equals run-time evaluation and never kills the compiler",
  "Every operation folded at translation time on integer, floating or pointer constants yields the value the same operation has at run time in the operand type (wrap-around, signedness, width, division and shift direction included), conversions between constants included. No constant expression, whatever its operands, makes the compiler itself trap.",
  ["programs", "inputs"], "all operators, operand types and operand values",
  "Folding is exercised only with small positive values; trapping operands (division by zero, most-negative by -1) never occur in tests.",
  ["src/ir/operators.c", "src/arch/x64.c", "src/parser/expression.c"],
  [("operator folding", "operators_constant"), ("constant casts", "constant_cast, constant_normalize")],
  "abstract interpretation of the folder over operator x type with symbolic operands; guard analysis of host division", "")

p("C07", "Selected machine instructions implement the operation and width",
  "For every operation the compiler can emit, the generated instruction sequence computes that operation with the operation's width, signedness and operand order, for integer and floating operands, loads, stores, sign and zero extensions, truncations, and conversions between integer and floating types, leaving the result where its consumers read it.",
  ["programs", "inputs"], "all operations, operand widths 1, 2, 4, 8 and both signednesses, all operand values",
  "Tests observe results for few operand values; wrong signedness or width shows only for operands near the range limits.",
  ["src/codegen/codegen.c", "src/codegen/registers.c", "src/ir/ir.c", "src/parser/expression_to_ir.c"],
  [("per-operation emission", "codegen_instruction and helpers"), ("operation selection", "ir_binary_*, expression lowering")],
  "abstract interpretation of instruction emission; symbolic machine-state evaluation of each emitted template against the operation's meaning", "")

p("C08", "Built-in assembler produces the x86-64 encoding of each instruction",
  "For every mnemonic and operand form the compiler can emit, the built-in assembler outputs the prefix, REX, opcode, ModRM, SIB, displacement and immediate bytes that the x86-64 manual prescribes, for every register and displacement, and records a relocation at the position and with the addend the referenced label needs. An operand form it cannot encode is reported and never emitted as something else.",
  ["programs", "inputs"], "all mnemonics, registers, addressing forms, immediates and label distances",
  "The tests only reach the registers the allocator happens to choose; extended registers, large displacements and rare forms are not reached.",
  ["src/assembler/encode.c", "src/assembler/assembler.c"],
  [("encoding table", "encode.c"), ("byte assembly", "assemble_encoding")],
  "audit of the encoding table against the ISA and bit-provenance abstract interpretation of the encoder", "")

p("C09", "Assembly text output and object output denote the same program",
  "For every instruction, directive, label and data item the compiler emits, the textual assembly mode and the direct object mode describe the same instruction, operands, section, binding and bytes; switching the output mode never changes the program.",
  ["programs", "configurations"], "every emitted item in both output modes",
  "The test-suite runs most programs in one output mode only.",
  ["src/assembler/assembler.c", "src/codegen/codegen.c", "src/codegen/rodata.c"],
  [("dual back-end of each emission function", "assembler.c")],
  "dual-path abstract interpretation: each emission function is analysed with text mode on and off and the effects are compared", "")

p("C10", "Statements are lowered to the control flow C prescribes",
  "For every if, while, do, for, switch, break, continue, goto, label, case, default and return, the generated control-flow graph contains exactly the edges the standard prescribes, conditions are tested with the right polarity, nested constructs target the innermost enclosing one, and each controlling expression is evaluated at the prescribed points.",
  ["programs"], "every statement form in every nesting",
  "Nesting combinations and early-exit paths are unbounded; tests contain a handful.",
  ["src/parser/function_parser.c"],
  [("statement parsers", "function_parser.c")],
  "abstract interpretation of the statement parsers into a symbolic block graph that is compared with the prescribed graph", "")

p("C11", "Operands are evaluated once, in the prescribed order and only if needed",
  "The right operand of && and || and the unselected arm of ?: are never evaluated, each other operand of every expression is evaluated exactly once, compound assignment and increment read and write their lvalue once with the prescribed result value, and the comma operator and sequence points order side effects as the standard requires.",
  ["programs"], "every expression form with side effects in any operand",
  "Tests combine few operators with side effects.",
  ["src/parser/expression_to_ir.c"],
  [("expression lowering", "expression_to_ir and helpers")],
  "event-order analysis of the lowering of every expression kind on all paths", "")

p("C12", "Memory side effects keep program order through the intermediate form",
  "Every operation that reads or writes memory or transfers control is ordered after the previous one that may affect it and becomes the predecessor of the next one, so no pass may move a load above a store, a store above a load, or either across a call.",
  ["programs"], "every sequence of loads, stores, copies, zeroings, calls and allocations",
  "Reordering shows only when accesses alias; tests seldom alias.",
  ["src/ir/ir.c", "src/ir/ir.h"],
  [("state threading", "ir_load, ir_store, ir_copy_memory, ir_call and siblings"), ("state operand tables", "node_get_prev_state and operand index tables")],
  "def-use analysis of the state operand over every constructor of a state-dependent operation", "")

p("C13", "Promoting variables to registers preserves their values",
  "A stack variable is replaced by values only if its address is used for nothing but whole-object loads and stores of its own size; every load then yields the value of the last store on each path, with merges at control-flow joins, and all removed operations have no remaining users.",
  ["programs"], "every function and every path through it",
  "Escaping or partially accessed variables in loops are rare in the tests.",
  ["src/optimize/mem2reg.c", "src/optimize/remove_dead.c", "src/optimize/peephole.c"],
  [("promotion predicate and renaming", "mem2reg.c")],
  "path analysis of the promotion predicate and of the renaming, dead-code roots and peephole rewrites", "")

p("C14", "Aggregate and bit-field layout follows the platform ABI",
  "Each struct member is placed at the lowest offset that satisfies its alignment after the preceding members, union members all start at offset zero, size and alignment are those of the ABI including packing pragmas and flexible array members, and bit-fields are packed into storage units and read and written with their declared width and signedness without disturbing neighbouring bits.",
  ["programs"], "every sequence of member types, bit-field widths and packing values",
  "The space of member sequences is unbounded; tests contain a few dozen.",
  ["src/arch/x64.c", "src/parser/expression_to_ir.c", "src/parser/declaration.c"],
  [("layout recurrence", "calculate_offsets"), ("bit-field access", "expression_to_ir.c")],
  "abstract interpretation of the declaration parser and layout code against the ABI layout rules; member search and pragma handler evaluated on enumerated cases; bit-field accesses translated and compared bit by bit", "")

p("C15", "Initialisers give every object the value C prescribes",
  "Each element, member or sub-aggregate receives the initialiser that designators, brace elision and positional order assign to it, the last one winning; everything not mentioned is zero, for automatic and static objects alike, and arrays of unknown size get the length their initialiser implies.",
  ["programs"], "every initialiser shape for every aggregate type",
  "Nested designators with brace elision form an unbounded space.",
  ["src/parser/declaration.c", "src/parser/expression_to_ir.c", "src/codegen/codegen.c"],
  [("initialiser parsing", "parse_initializer"), ("zero fill and emission", "ir_init_var, codegen_static_var")],
  "abstract interpretation of the initialiser walk and of its two consumers", "")

p("C16", "Calls and returns follow the platform calling convention",
  "Under each ABI, every argument and return value travels in the register or stack slot the convention prescribes for its type, aggregates included; caller and callee agree, callee-saved registers are restored, the variadic register count and save areas are as prescribed, and the stack is 16-byte aligned at every call.",
  ["programs", "configurations"], "all argument lists and return types under both ABIs",
  "Tests call mostly functions of the same compiler, so a symmetric error is invisible, and the Windows ABI is never run.",
  ["src/abi/sysv.c", "src/abi/microsoft.c", "src/arch/calling.c", "src/codegen/codegen.c"],
  [("classification", "classify"), ("caller/callee/return lowering", "abi/*.c")],
  "abstract interpretation of classification and of caller, callee and return lowering over argument-class sequences", "")

p("C17", "Stack frames keep objects disjoint and restore the caller's state",
  "Every stack object and spilled value has its own properly aligned slot inside the frame, the frame size covers all of them and keeps the required stack alignment, and every function exit undoes the entry sequence; variable-length arrays move the stack pointer by at least their rounded size.",
  ["programs"], "every function body", "Overlap shows only when two particular objects are live together.",
  ["src/codegen/codegen.c", "src/codegen/registers.c"],
  [("slot allocation and prologue/epilogue", "codegen_function and helpers")],
  "abstract interpretation of slot allocation and of the prologue/epilogue emission", "")

p("C18", "Emitted ELF objects are well-formed and mean what was compiled",
  "Every header, section, symbol, string-table and relocation field of an emitted ELF object is written in the order, width and value the ELF specification requires; local symbols precede globals, indices and sizes agree with what is written, and reading such a file back yields the same sections, symbols and relocations.",
  ["programs"], "every object file, whatever its number of sections, symbols and relocations",
  "Tests only check that the system linker accepts small objects.",
  ["src/linker/elf.c", "src/linker/object.c"],
  [("writer", "elf_write_object"), ("reader", "elf_read_object")],
  "write-sequence abstract interpretation of the writer compared field by field with the ELF layout and with the reader", "")

p("C19", "Emitted COFF objects are well-formed and mean what was compiled",
  "Every header, section header, relocation, symbol and string-table field of an emitted COFF object has the order, width and value the PE/COFF specification requires, long names go through the string table with correct offsets, and counts and file pointers agree with what is written.",
  ["programs", "configurations"], "every object file for the Windows targets",
  "No test produces or consumes COFF objects.",
  ["src/linker/coff.c", "src/linker/object.c"],
  [("writer", "coff_write_object")],
  "write-sequence abstract interpretation of the writer compared field by field with the COFF layout", "")

p("C20", "Linking preserves contents, symbols and references",
  "Linking keeps every input section's bytes at its own properly aligned place in the loaded image, binds each reference to the definition the ELF rules choose, reports undefined and multiply defined symbols, and applies each relocation with the value its type prescribes at the right address.",
  ["programs", "configurations"], "every set of input objects this compiler emits",
  "Tests link two or three small objects.",
  ["src/linker/linker.c", "src/linker/object.c", "src/linker/elf.c"],
  [("section merging and relocation", "linker.c")],
  "abstract interpretation of merging, symbol resolution and relocation arithmetic", "")

p("C21", "Conditional inclusion selects exactly the prescribed groups",
  "In every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif at most one group per level is processed - the first whose condition holds, or the #else group - skipped groups have no effect at all, their conditions are not evaluated, and unbalanced or misordered conditionals are diagnosed rather than accepted or looped on.",
  ["inputs"], "every nesting and ordering of conditional directives",
  "Only balanced, shallow conditionals occur in the tests.",
  ["src/preprocessor/directives.c"],
  [("conditional stack", "directives.c")],
  "typestate analysis of the conditional stack over every directive and state", "")

p("C22", "#if expressions evaluate as C integer constant expressions",
  "Every operator allowed in #if is parsed with C's precedence and evaluated in 64-bit intmax_t/uintmax_t arithmetic with the standard's signedness rules and short circuit; undefined identifiers are 0, defined works in both forms, and no expression makes the compiler trap.",
  ["inputs"], "every #if controlling expression",
  "Only a few comparison operators are used in tests.",
  ["src/preprocessor/directives.c"],
  [("expression evaluation", "directives.c")],
  "abstract interpretation of the #if evaluator per operator and signedness", "")

p("C23", "Macro expansion follows the standard's rescanning rules",
  "Object-like and function-like macros are replaced with fully macro-expanded arguments except next to # and ##, # produces the spelling of the argument, ## pastes adjacent tokens, variadic arguments are collected, and a macro name produced while that macro is being replaced is never expanded again.",
  ["inputs"], "every macro definition and invocation",
  "Hide-set interaction needs several macros expanding through each other.",
  ["src/preprocessor/macro_expander.c", "src/preprocessor/string_set.c"],
  [("expansion with hide sets", "macro_expander.c"), ("set operations", "string_set.c")],
  "abstract interpretation of substitution and of the ordered-set operations", "")

p("C24", "Characters and strings are decoded and encoded exactly",
  "Every escape sequence, universal character name and UTF-8 sequence in a character or string literal denotes the value the standard gives it, each literal kind is encoded in its element type (UTF-8, UTF-16 with surrogates, UTF-32), adjacent literals concatenate with the prescribed prefix, and the terminating zero is of the element's width.",
  ["inputs"], "every literal and every code point",
  "Tests use ASCII and a handful of code points.",
  ["src/escape_sequence.c", "src/utf8.c", "src/preprocessor/string_concat.c", "src/codegen/rodata.c"],
  [("escape decoding", "escape_sequence.c"), ("UTF-8 codec", "utf8.c"), ("literal encoding", "string_concat.c")],
  "bit-provenance abstract interpretation of the codecs over byte classes", "")

p("C25", "Identifiers obey scope, linkage and tentative-definition rules",
  "An identifier denotes the innermost visible declaration in its name space, block scopes and prototypes end where the standard says, static and extern give the prescribed linkage and symbol binding, and a tentative definition yields exactly one zero-initialised object unless a real definition exists.",
  ["programs"], "every nesting and ordering of declarations",
  "Tests contain few redeclarations and shadowings.",
  ["src/parser/symbols.c", "src/parser/declaration.c", "src/parser/parser.c", "src/codegen/rodata.c"],
  [("scope stacks", "symbols.c"), ("tentative definitions and binding", "parser.c, declaration.c")],
  "abstract interpretation of the whole front end and code generator on a table of declarations in every nesting and order (types seen through identifiers, labels, bindings, definitions and data emitted), with one and with many hash buckets", "")

p("C26", "A failed compilation always reports and exits non-zero",
  "Whenever the compiler diagnoses an error it prints a message and terminates with a non-zero status before producing output for that input, and every path that cannot continue (syntax error, unsupported construct, bad option) goes through such a report rather than being silently ignored.",
  ["inputs", "programs"], "every erroneous input",
  "The tests check only that a few invalid programs are rejected.",
  ["src/common.c", "src/common.h", "src/main.c", "src/parser/parser.c"],
  [("error reporting", "impl_error and siblings"), ("expectation of tokens", "t_expect")],
  "abstract interpretation of the reporting routines, of the whole front end on a table of ill-formed units, of the preprocessor, tokenizer and command line: every path must end in a report", "")

p("C27", "I/O failures are detected and reported, never ignored",
  "Failure to open or read an input, or to open, write or close an output or dependency file ends the run with a diagnostic and a non-zero status; success is never reported when output could not be written completely.",
  ["fault_sequences"], "every file operation failing at any point",
  "No test injects I/O faults.",
  ["src/common.c", "src/main.c", "src/linker/elf.c", "src/linker/coff.c", "src/preprocessor/input.c", "src/assembler/assembler.c"],
  [("checked file helpers", "file_write and callers")],
  "abstract interpretation of every call chain that does file I/O, with a failure injected symbolically at each operation", "")

p("C28", "No input makes the compiler write outside its buffers",
  "Every fixed-size buffer is written only under a bound check that covers the write, every growable buffer is grown before the write, and every allocation's failure is handled, so that no source file, however long its lines, names, nesting or argument lists, corrupts the compiler's memory.",
  ["inputs"], "every input, in particular over-long or deeply nested ones",
  "Tests never approach the limits.",
  ["src/common.c", "src/common.h", "src/parser/declaration.c", "src/parser/expression.c", "src/preprocessor/macro_expander.c"],
  [("growable arrays", "ADD_ELEMENT"), ("allocation wrapper", "cc_malloc")],
  "interval analysis of every constant-size array write and ownership rule for allocation functions", "")

p("C29", "Output is a deterministic function of input and options",
  "Compiling the same input with the same options always produces byte-identical output: nothing in the output depends on addresses, time other than the date and time macros, environment, uninitialised memory or iteration order of hashed containers.",
  ["inputs", "configurations"], "every input and every run",
  "A test compares one run with an expected output, never two runs with different memory layout.",
  ["src/ir", "src/codegen", "src/assembler", "src/linker", "src/preprocessor"],
  [("absence of nondeterministic sources", "whole program")],
  "source/sink analysis over the call graph: nondeterministic sources, pointer-valued orderings and address-keyed iteration", "")

p("C30", "Each input file is compiled independently of the others",
  "Compiling several files in one invocation gives for each file the same result as compiling it alone: every piece of state that one translation unit can change is reset or irrelevant before the next.",
  ["histories"], "every sequence of input files in one invocation",
  "Tests pass one or two files per invocation.",
  ["src/main.c", "src/parser", "src/preprocessor", "src/codegen", "src/assembler"],
  [("reset functions", "*_reset called from main.c")],
  "interprocedural flow-sensitive dataflow of every static object over the loop that processes the input files", "")

p("C31", "Command-line options have their documented effect",
  "Every documented option selects exactly its documented behaviour, options with an argument consume exactly that argument, repeated include and define options accumulate in order, and an unknown or incomplete option is rejected with a diagnostic.",
  ["configurations"], "every combination and order of options",
  "The tests use a fixed command line.",
  ["src/arguments.c", "src/main.c"],
  [("option parsing", "arguments.c"), ("mode selection", "main.c")],
  "path-sensitive abstract interpretation of option parsing and of mode dispatch", "")

p("C32", "Two types are the same object exactly when they are the same type",
  "Type construction returns one shared representation for structurally equal types and different ones otherwise: kind, qualification, simple kind, length, variadicity, aggregate identity and every component type all distinguish types, and equal types always hash alike.",
  ["programs"], "every pair of types constructed in any order",
  "A missing distinction shows only for the one pair of types it confuses.",
  ["src/types.c"],
  [("hash-consing", "type_create, compare_types, type_hash")],
  "field-coverage analysis of the equality and hash functions against the type representation", "")

p("C33", "Static data is emitted with the right bytes, size and alignment",
  "Every object with static storage duration is emitted once in a writable data section, with its binding, its alignment, its full size, its initial bytes in target byte order including bit-fields and padding zeros, and label addresses with their addends; uninitialised objects are zero.",
  ["programs"], "every static object",
  "Tests cover a few static initialisers, mostly of int.",
  ["src/codegen/rodata.c", "src/codegen/codegen.c", "src/assembler/assembler.c"],
  [("data emission", "rodata.c, codegen.c")],
  "abstract interpretation of the data emission functions over constant kinds and widths", "")

na("C40", "The compiler compiled by itself behaves identically",
   "Compiling the compiler with itself yields a compiler whose output on every input is the same.",
   ["programs"], "every input program", "The tests compare a few outputs of the self-compiled compiler.",
   ["src", "Makefile"], [("self-compilation", "Makefile")],
   "a fixpoint over run-time behaviour of generated code: no structural clause beyond those already claimed decides it")
na("C41", "Scheduling operations into blocks preserves every data dependence",
   "Placing floating operations into basic blocks never places a use before its definition or moves an operation to a path on which it was not needed and may trap.",
   ["programs"], "every control-flow graph", "Tests contain a few dozen control-flow shapes.",
   ["src/ir/global_code_motion.c", "src/ir/dominator_tree.c"], [("global code motion", "global_code_motion.c")],
   "correctness depends on dominator relations computed at run time over arbitrary graphs; a sound static argument would be a proof of the algorithm, which is outside this family")
na("C42", "Compilation terminates on every input",
   "For every finite input, compilation ends with output or a diagnostic.",
   ["inputs"], "every input", "Tests are finite and well-formed.",
   ["src"], [("recursive descent and rescanning loops", "src/parser, src/preprocessor")],
   "needs ranking arguments over run-time token streams; only the end-of-input clauses of single loops are structural and those are claimed under C21, C23 and C26")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            d = {k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, nas = [], list(NA)
    for x in P:
        if x["tech"] is None:
            continue
        if os.path.exists(os.path.join(HERE, "analyzer", "rules", x["id"].lower() + ".py")):
            checks.append({"property": x["id"], "quick_cmd": "python3 check.py %s quick" % x["id"],
                           "thorough_cmd": "python3 check.py %s thorough" % x["id"],
                           "technique": "static analysis: " + x["tech"], "level": "other",
                           "level_note": x["note"] or "decides the structural clauses listed in DESIGN.md for %s from the current source; exhaustive over the stated partitions, no run of the compiler" % x["id"]})
        else:
            nas.append({"property": x["id"], "reason": "no check has been built for it yet"})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q analyzer check.py", "checks": checks, "not_applicable": nas}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
