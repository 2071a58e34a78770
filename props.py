"""The properties (single source of properties.jsonl and MANIFEST.json; run `python3 props.py`)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, files, mech, note, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, state=state, observe=observe, na=na))

p("C01", "Integer constant expressions are folded to the C11 value and type",
  "Every binary and unary operator applied to integer constants whose result C defines is replaced at compile time by a constant of the C11 result type and exactly the C11 value, signed or unsigned according to the operands' common type. Division or remainder by zero, and the most negative value divided by -1, are never folded to a value.",
  ["inputs"], "all operators x all promoted integer types x all 2^128 operand pairs; at expression level, operands of different integer types",
  "The tests fold a few dozen small constants; signedness, width and wrap-around errors only show for particular type pairs and extreme values.",
  ["src/ir/operators.c", "src/parser/expression.c"],
  [("operators_constant / operators_constant_unary", "src/ir/operators.c"), ("evaluate_constant_expression", "src/parser/expression.c")],
  "operators_constant(_unary) proved for all types and values; expression-level units for representative type pairs (all pairs: C03).")

p("C02", "Constant conversions between arithmetic types give the C11 value",
  "Converting an integer constant to any integer type (including _Bool and plain char) at compile time yields the value C11 prescribes: unchanged if representable, modulo 2^N otherwise, and 0/1 for _Bool. Conversions between integer and floating constants yield the value C prescribes, and a floating constant converted to _Bool is 1 exactly when it is not zero.",
  ["inputs"], "all pairs of arithmetic types and all source values whose conversion is defined",
  "Tests use a handful of casts of small values; truncation and sign errors need a specific type pair and bit pattern.",
  ["src/ir/operators.c", "src/parser/expression.c", "src/arch/x64.c", "src/types.c"],
  [("constant_cast / simple_cast, constant_normalize", "src/parser/expression.c")],
  "Postconditions of the constant cast for all integer type pairs and all values.")

p("C03", "Integer promotions and usual arithmetic conversions pick the C11 type",
  "The type of every arithmetic, comparison, shift, conditional and unary expression over integer or floating operands is the one C11 6.3.1 and 6.5 prescribe (rank, signedness, integer promotion, floating dominance; shifts and unary operators use the promoted left operand), and each operand is converted to the common type before the operation. Small bit-field operands promote to int exactly when int can represent their values.",
  ["inputs"], "all pairs of arithmetic operand types (and bit-field widths) for every operator class",
  "The tests exercise a few type pairs; an error in one rank or signedness case changes only programs mixing those two types.",
  ["src/parser/expression.c", "src/types.c"],
  [("promote_integer, convert_arithmetic, calculate_type", "src/parser/expression.c")],
  "expr_new proved against an independent C11 conversion table for all operand type pairs.")

p("C04", "Integer literals get the C11 value and type",
  "Every valid decimal, octal, hexadecimal or binary integer literal, with any u/l/ll suffix in any permitted order and case, denotes its mathematical value and has the first type of the C11 6.4.4.1 list that can represent it.",
  ["inputs"], "all literals of the four bases and all suffix forms, up to 2^64-1",
  "The boundary values between int, long and unsigned long, per base and suffix, are a handful of points in a huge space.",
  ["src/parser/expression.c"],
  [("pp-number to constant conversion", "src/parser/expression.c")],
  "")

p("C05", "Character constants and string escapes decode to the C11 value",
  "Every simple, octal and hexadecimal escape sequence and every plain character in a character constant or string literal denotes the value C11 prescribes, consuming exactly the characters of the escape and leaving the following ones alone. Character constants have type int and the value of the character converted from (signed) char.",
  ["inputs"], "all escape sequences followed by any characters",
  "Tests use a few common escapes; digit counts, hexadecimal digits and terminators vary freely.",
  ["src/escape_sequence.c", "src/preprocessor/tokenizer.c", "src/parser/expression.c"],
  [("escaped_character, character_constant parsing", "src/escape_sequence.c")], "")

p("C06", "UTF-8 decoding and encoding are exact inverses on all of Unicode",
  "Every Unicode code point has the encoding RFC 3629 prescribes, decoding that encoding returns the code point and consumes exactly its bytes, and wide string and character literals contain the code points of their source text, as UTF-16 in u\"\" literals.",
  ["inputs"], "all code points U+0000..U+10FFFF",
  "The tests contain a few non-ASCII characters; each length class has its own masks and shifts.",
  ["src/utf8.c"], [("utf8 encoder and decoder", "src/utf8.c")], "")

p("C07", "String literals reach the assembly text byte for byte",
  "The assembly emitted for a string literal or other read-only data denotes, under the assembler's escape rules, exactly the bytes of that data including embedded NULs, quotes, backslashes and bytes above 127, and equal labels denote equal contents.",
  ["inputs"], "all byte strings",
  "Escaping errors depend on which byte follows which; tests only contain printable text.",
  ["src/codegen/rodata.c", "src/assembler/assembler.c"], [("rodata emission", "src/codegen/rodata.c")], "")

p("C08", "Struct and union layout follows the System V AMD64 ABI",
  "Sizes, alignments and member offsets of every struct, union and array type are those of the System V AMD64 psABI: members in order at the next multiple of their alignment, unions overlaid at offset zero, the total padded to the largest alignment, and bit-fields packed without crossing a storage unit of their declared type.",
  ["inputs"], "all sequences of member types and bit-field widths (bounded number of members per proof)",
  "Layout depends on the whole member sequence; tests check a few structs, and the code is self-consistent even when it disagrees with the ABI.",
  ["src/types.c", "src/arch/x64.c", "src/abi/sysv.c"],
  [("type_calculate_offsets, calculate_size, calculate_alignment", "src/types.c")], "")

p("C09", "Initializers produce the exact memory image",
  "For every initialized object, its initial contents hold each given scalar little-endian at its member's offset in its size, each bit-field in exactly its own bits, each string and address where it is given, and zero everywhere else, whatever the nesting, brace elision, designators and order in which members are written; nothing outside the object is written.",
  ["inputs"], "all constants, offsets, sizes, bit-field positions and widths",
  "Neighbouring bit-fields and padding must survive each write; tests initialize a few structs.",
  ["src/codegen/rodata.c", "src/arch/x64.c", "src/parser/declaration.c", "src/ir/ir.c"],
  [("parse_initializer_recursive", "src/parser/declaration.c"), ("codegen_initializer", "src/codegen/rodata.c"), ("constant_to_buffer", "src/arch/x64.c"), ("ir_init_ptr", "src/ir/ir.c")], "")

p("C10", "Bit-field reads and writes touch exactly their own bits",
  "Storing to a bit-field member at run time changes exactly that member's bits and leaves every neighbouring bit of its storage alone; reading it back yields the stored value modulo 2^width, sign- or zero-extended according to the declared type.",
  ["inputs"], "all offsets, widths, signedness, stored values and prior storage contents",
  "Masks and shifts per (offset, width, type) cannot be covered by examples.",
  ["src/ir/ir.c", "src/parser/expression_to_ir.c"],
  [("ir_get_bits / ir_set_bits", "src/ir/ir.c")], "")

p("C11", "Code for integer operators and branches computes the C result",
  "For every integer binary operator and operand width, the emitted x86-64 instruction sequence leaves in the result exactly the value the IR operation denotes (two's complement wrap-around, signed or unsigned division, arithmetic or logical shift, 0/1 comparison), a conditional branch goes to its true block exactly when the whole condition value is not zero, and a jump gives every merged value the one of its edge, whatever the registers held before and without changing any other value, the caller's frame, rsp or rbp.",
  ["inputs"], "all operators x sizes x operand values x prior register contents",
  "A wrong sign extension or a stale upper half only shows for particular operand values.",
  ["src/codegen/codegen.c", "src/codegen/binary_operators.h", "src/codegen/registers.c"],
  [("codegen_instruction", "src/codegen/codegen.c")], "")

p("C12", "Generated code for integer conversions preserves the value",
  "For every integer conversion (widening, narrowing, sign or zero extension, to _Bool), negation, complement and constant load, the emitted x86-64 code leaves exactly the converted value in the destination, whatever the destination and scratch registers held before.",
  ["inputs"], "all source and destination sizes x signedness x values",
  "Extension errors show only for values with the top bit set or dirty upper register halves.",
  ["src/codegen/codegen.c"], [("codegen_instruction", "src/codegen/codegen.c")], "")

p("C13", "Block copies, clears, loads and stores touch exactly their bytes",
  "Generated code that copies, zero-fills, loads or stores an object of n bytes transfers exactly those n bytes in order and writes no byte outside the destination, for every size.",
  ["inputs"], "all sizes (bounded) and contents",
  "Tail handling differs for every size modulo 8; a single over-write corrupts a neighbour the tests do not look at.",
  ["src/codegen/codegen.c"], [("codegen_memcpy / codegen_memzero", "src/codegen/codegen.c")], "")

p("C14", "The assembler encodes each instruction as written",
  "Every instruction and operand combination the compiler emits is encoded by the built-in assembler into bytes that, decoded by the x86-64 rules, are that same instruction: mnemonic, operand size, registers, base/index/scale/displacement and immediate.",
  ["inputs"], "all instruction table entries x registers x displacements x immediates",
  "Prefix and ModRM corner cases (rbp/r13, rsp/r12, r8-r15, sil/dil, imm8/imm32) depend on the exact operands.",
  ["src/assembler/encode.c", "src/assembler/assembler.c", "src/assembler/instructions.h"],
  [("assemble_instruction", "src/assembler/encode.c")], "")

p("C15", "Source operators select the signed or unsigned operation by type",
  "Each C operator on run-time operands is translated to the machine-level operation of the right kind: signed, unsigned or floating according to the operands' common type, with pointer arithmetic scaled by the pointed-to size, and conditions of if/while/for/do/&&/||/!/?: tested as `!= 0` on the full value of their own type.",
  ["inputs"], "all operators x operand types x values",
  "Signed and unsigned operations agree on small values, so tests of small values cannot tell them apart.",
  ["src/parser/expression_to_ir.c", "src/ir/ir.c", "src/ir/operators.c", "src/parser/function_parser.c"],
  [("ir_from_type_and_op, ir_binary_op", "src/ir/operators.c")], "")

p("C16", "Linking applies every relocation and places every section byte intact",
  "Object data is placed in its section unchanged at an offset honouring its alignment, and linking writes at each relocation exactly the symbol address plus addend (relative to the place for PC-relative ones), little-endian, leaving every other byte unchanged.",
  ["inputs", "programs"], "all data, alignments, addends and section positions",
  "Tests link small programs at one layout; wrong addends or alignment only matter at other layouts.",
  ["src/linker/object.c", "src/linker/linker.c"], [("object_* writers, asm_* on them", "src/linker/object.c"), ("linker_link, combine_objects", "src/linker/linker.c")],
  "linked objects of five shapes (at most three objects, two or three sections); assemble_instruction is stood in for by arbitrary bytes with one relocation; sections are expected in the order of the objects; overflow of 32-bit relocations is not required to be diagnosed")

p("C17", "Object files written as ELF read back as the same object",
  "Writing an object as ELF and reading it back yields the same sections, contents, symbols (name, binding, section, value) and relocations (place, symbol, type, addend); the file's header fields satisfy the ELF-64 format.",
  ["inputs", "programs"], "all objects (bounded number of sections, symbols and relocations)",
  "Tests go through gcc's linker on typical objects only.",
  ["src/linker/elf.c"], [("elf_write_object / elf_read_object", "src/linker/elf.c")],
  "objects of five shapes, of at most four sections, five symbols and four relocations, all bytes, values, addends and offsets arbitrary; objects read are those this compiler writes")

p("C18", "Identifiers resolve to the innermost visible declaration",
  "For every sequence of scope entries, exits and declarations, looking up an ordinary identifier, tag, typedef or enumerator yields the declaration of the innermost enclosing scope that declares it, outer declarations reappear when a scope is left, and tags and ordinary identifiers do not interfere; a definition of a tag or `struct S;` declares a type of its own scope, any other mention the innermost visible one.",
  ["histories"], "all sequences of push/pop/declare/lookup operations (bounded length)",
  "Shadowing and re-appearance depend on operation histories no test enumerates.",
  ["src/parser/symbols.c"], [("symbols_get*/symbols_push_scope/symbols_pop_scope", "src/parser/symbols.c"), ("parse_struct", "src/parser/declaration.c")], "")

p("C19", "Equal types are identical and different types are distinct",
  "Building the same type twice yields one and the same type object, and types that differ in kind, element type, length, parameter list, qualifier or variadicity are never identified.",
  ["histories"], "all sequences of type constructions",
  "Depends on hash collisions and on pairs of types the tests do not build together.",
  ["src/types.c"], [("type_create", "src/types.c")], "")

p("C20", "Macro hide sets are exact set operations",
  "The sets of macro names that block re-expansion behave as mathematical sets: membership after insertion, union and intersection is exact for any names and any order of operations, so no macro is re-expanded within its own expansion and none is suppressed wrongly.",
  ["histories"], "all sets of names and all operation orders",
  "Results depend on the lexical order of macro names and on the order of insertion.",
  ["src/preprocessor/string_set.c", "src/preprocessor/macro_expander.c"],
  [("string_set_*", "src/preprocessor/string_set.c")], "")

p("C21", "The macro table reflects the latest #define and #undef",
  "After any sequence of #define and #undef directives, a name is a macro exactly if its latest directive is a #define, with that definition's parameters and body; other names are unaffected.",
  ["histories"], "all sequences of define/undef/lookup over any names (bounded length)",
  "Depends on hash buckets and on removal order within a bucket.",
  ["src/preprocessor/macro_expander.c"], [("define_map_*", "src/preprocessor/macro_expander.c")], "")

p("C22", "#if expressions have the C11 preprocessor value",
  "The controlling expression of #if/#elif is evaluated as C11 6.10.1 prescribes: in 64-bit arithmetic, unsigned as soon as an operand is unsigned, with C precedence, short-circuit evaluation and undefined identifiers as 0.",
  ["inputs"], "all operators x operand values x signedness",
  "Tests use small decimal operands.",
  ["src/preprocessor/directives.c"], [("evaluate_expression", "src/preprocessor/directives.c")], "")

p("C23", "Conditional inclusion keeps exactly the selected group",
  "For every nesting of #if/#ifdef/#ifndef/#elif/#else/#endif, exactly the lines of the first true group of each taken conditional are processed, groups inside skipped groups are skipped whatever their conditions, and conditions of groups after a taken one are not evaluated.",
  ["histories"], "all sequences of conditional directives (bounded length)",
  "The state machine has a long history; tests contain shallow nestings.",
  ["src/preprocessor/directives.c"], [("conditional directive stack", "src/preprocessor/directives.c")], "")

p("C24", "Operator precedence and associativity follow the C grammar",
  "Every expression of C operators (binary, assignment, conditional, comma, unary, cast, sizeof, postfix, call, member access) written with parentheses only where the productions of C11 6.5 need them is parsed, to its last token, to the tree those productions give it.",
  ["inputs"], "all expressions of the operators of C11 6.5 (bounded nesting)",
  "There are hundreds of operator pairs; tests combine a few.",
  ["src/precedence.c", "src/parser/expression.c"], [("parse_pratt, parse_prefix, precedence_get", "src/parser/expression.c")],
  "expr_new is stood in for by its argument (its conversions are the subject of C03 and C15); type names are the single type int; nesting: any operator in any place of any other for all pairs up to one representative per nonterminal on one side, and three operators for representatives")

p("C25", "Arguments and results travel in the registers the ABI prescribes",
  "Every argument and return value of a non-variadic call is classified and passed in the registers or stack slots the System V AMD64 psABI prescribes, on both caller and callee side.",
  ["inputs"], "all parameter type sequences (bounded length)",
  "The compiler agrees with itself even if it disagrees with the ABI; only calls across compilers show it.",
  ["src/abi/sysv.c", "src/arch/calling.c"], [("classify, get_calling_convention, sysv_expr_call, sysv_expr_function, sysv_expr_return", "src/abi/sysv.c")],
  "the IR constructors the ABI code calls are stood in for by contracts that record registers, sizes and offsets; long double and bit-fields in structures passed by value are left out")

p("C26", "Tokens are split by maximal munch and spell their source text",
  "The source text is split into the longest possible preprocessing tokens of C11 6.4, each carrying exactly its own characters, with comments and white space separating tokens, line splices removed, and ' accepted between the digits of a number.",
  ["inputs"], "all character sequences (bounded length)",
  "Punctuator and number boundaries depend on each following character.",
  ["src/preprocessor/tokenizer.c", "src/preprocessor/input.c"], [("tokenize_input, tokenizer_next, next_char", "src/preprocessor/tokenizer.c")],
  "texts of at most four characters before and behind which the stated white space, comments, splices and directives stand; universal character names are left to C06, unterminated literals to no property")

p("C27", "Optimizations never change what a program computes",
  "Promoting variables to registers, removing dead code, ordering instructions and assigning registers leave the observable behaviour of every function unchanged.",
  ["programs"], "all functions", "Depends on the whole control-flow graph.",
  ["src/optimize/mem2reg.c", "src/optimize/remove_dead.c", "src/ir/global_code_motion.c", "src/ir/dominator_tree.c", "src/optimize/peephole.c"],
  [("optimization passes", "src/optimize")], "",
  na="a whole-graph semantic-preservation theorem over linked, pointer-rich IR needs an inductive simulation argument over arbitrary control-flow graphs; the only contract verifier for C here (CBMC/DFCC; Frama-C has no WP) has no inductive predicates over heap graphs to state it with")
p("C28", "The compiler is deterministic and reproduces itself",
  "Compiling the same input twice gives the same output, and the compiler compiled by itself behaves like the compiler compiled by another compiler.",
  ["programs", "configurations"], "all inputs", "The tests bootstrap on one source tree only.",
  ["src/main.c"], [("whole compiler", "src")], "",
  na="a relational statement about whole runs of two different binaries, not a contract on functions")
p("C29", "Every compilation ends with an output or a diagnostic",
  "For every input file the compiler terminates, either with output or with a diagnostic and a non-zero status, and never crashes.",
  ["inputs"], "all byte strings as source files", "Tests feed well-formed programs.",
  ["src"], [("whole compiler", "src")], "",
  na="the parser, preprocessor and IR builder are mutually recursive over unbounded heap structures; termination and memory safety of that whole cannot be put under contract with the verifier available (memory safety of individual functions is checked where units enable it)")
p("C30", "Floating-point code computes the IEEE result in the operands' type",
  "The code generated for float and double arithmetic, negation, comparisons (also with NaN and signed zeros) and conversions among float, double and every integer type leaves in the result exactly the value IEEE-754 and C define for the operands' type, for every operand value for which C defines it.",
  ["inputs"], "all operators x float/double x operand bit patterns (NaN, infinities, zeros, subnormals); conversions: all integer types x values",
  "NaN operands, negative zero, values of unsigned long above 2^63 and rounding of large integers are never sampled.",
  ["src/codegen/codegen.c", "src/codegen/binary_operators.h"], [("codegen_instruction, codegen_asm_table", "src/codegen/codegen.c")],
  "SSE arithmetic instructions denote the IEEE operations (uninterpreted, shared with the specification); comparisons and the conversions with 8-byte integers are bit-precise")

def write(claimed):
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            d = dict(id=q["id"], title=q["title"], statement=q["statement"],
                     quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                     anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                                  observe_at=list(q["observe"]), hook_needed=None))
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 -c 'import units, check'", checks=[], not_applicable=[],
             notes="Contract-based deductive verification of /repo's C sources with goto-cc/goto-instrument/CBMC; see DESIGN.md.")
    for q in P:
        if q["id"] in claimed:
            m["checks"].append(dict(property=q["id"], quick_cmd="python3 check.py %s" % q["id"],
                thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % q["id"], technique="contract-based deductive verification (function contracts on the C sources, CBMC/DFCC with SAT, cvc5 or z3 back ends)",
                level="proof" if claimed[q["id"]] else "other", level_note=("" if claimed[q["id"]] else "bounded, not counted as proved: ") + (q["note"] or "see DESIGN.md")))
        else:
            m["not_applicable"].append(dict(property=q["id"], reason=q["na"]))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    from units import PROPERTIES
    write({k: any(not u.get("bounded") for u in v["units"]) for k, v in PROPERTIES.items()})
