"""Registry: property -> verification units."""
PROPERTIES = {}
def prop(pid, units, **kw):
    PROPERTIES[pid] = dict(units=units, **kw)

OPS = ["OP_ADD", "OP_SUB", "OP_MUL", "OP_DIV", "OP_MOD", "OP_BXOR", "OP_BOR", "OP_BAND", "OP_LSHIFT",
       "OP_RSHIFT", "OP_LESS", "OP_GREATER", "OP_LESS_EQ", "OP_GREATER_EQ", "OP_EQUAL", "OP_NOT_EQUAL"]
ENV = ["impl_error_ice", "impl_error", "impl_error_no_pos", "impl_error_notimp", "impl_warning", "dbg_type", "dbg_instruction", "dbg_token", "dbg_token_type", "define_string", "t_peek", "symbols_add_typedef"]
TYPES = dict(spec=["stub_types.c", "stub_env.c"], stub=["type_create"] + ENV)
prop("C01", [dict(name="bin_%s" % o, file="C01.c", entry="h_binary", defs=["OP=" + o, "TI=-1", "PAIR=-1"],
                  functions=["operators_constant"], flags=["--cvc5"], **TYPES)
             for o in OPS] +
     [dict(name="unary", file="C01.c", entry="h_unary", defs=["OP=OP_ADD", "TI=-1", "PAIR=-1"],
                  functions=["operators_constant_unary"], flags=["--cvc5"], **TYPES)] +
     [dict(name="expr_%s_%d" % (o, p), file="C01.c", entry="h_expr", defs=["OP=" + o, "TI=-1", "PAIR=%d" % p],
                  functions=["expr_new", "evaluate_constant_expression"], flags=["--cvc5"], unwind=13, **TYPES)
             for o in OPS for p in ((2, 3) if o in ("OP_MUL", "OP_DIV", "OP_MOD") else (1, 3))] +
     [dict(name="promoted_unary", file="C01.c", entry="h_logical", defs=["OP=OP_ADD", "TI=-1", "PAIR=-1"],
                  functions=["expr_new", "evaluate_constant_expression"], flags=["--cvc5"], unwind=13, **TYPES)])

prop("C02", [dict(name=n, file="C02.c", entry="h_" + n, functions=f, unwind=16, flags=fl, **TYPES) for n, f, fl in [
        ("cast_int", ["constant_cast", "simple_cast", "conv_ui", "conv_iu", "conv_uu", "conv_ii", "get_range"], ["--cvc5"]),
        ("normalize", ["constant_normalize"], ["--cvc5"]),
        ("int_to_float", ["constant_cast", "simple_cast"], ["--cvc5"]),
        ("float_to_int", ["constant_cast", "simple_cast", "constant_normalize"], ["--cvc5"]),
        ("float_float", ["constant_cast", "simple_cast"], ["--cvc5"]),
        ("is_zero", ["constant_is_zero"], [])]] +
     [dict(name="expr_cast_%d" % i, file="C02.c", entry="h_expr_cast", defs=["TI=%d" % i], functions=["expression_cast", "evaluate_constant_expression", "expr_new"],
           unwind=16, flags=["--cvc5"], **TYPES) for i in range(12)])

C03F = ["expr_new", "convert_arithmetic", "get_arithmetic_type", "do_integer_promotion", "fix_binary_operator", "calculate_type", "operators_get_result_type", "is_contained_in", "type_rank", "to_unsigned"]
prop("C03", [dict(name="binary_%d" % i, file="C03.c", entry="h_binary", defs=["TI=%d" % i], functions=C03F, unwind=20, object_bits=14, **TYPES) for i in range(14)] +
     [dict(name="cond_%d" % i, file="C03.c", entry="h_cond", defs=["TI=%d" % i], functions=C03F + ["cast_conditional", "fix_assignment_operators"], unwind=20, object_bits=14, **TYPES) for i in range(14)] +
     [dict(name=n, file="C03.c", entry="h_" + n, functions=C03F + ["get_expression_bitfield", "decay_array", "do_default_argument_promotion"], unwind=20, object_bits=14, **TYPES)
      for n in ("ops", "unary_cond", "variadic", "pointer")] +
     [dict(name="bitfield_%d" % i, file="C03.c", entry="h_bitfield", defs=["BI=%d" % i], functions=C03F + ["get_expression_bitfield", "decay_array"], unwind=20, object_bits=14, **TYPES) for i in range(8)])

IRENV = dict(spec=["stub_types.c", "stub_env.c"], stub=["type_create"] + ENV)
prop("C10", [dict(name="bits_%d" % s, file="C10.c", entry="h_bits", defs=["SZ=%d" % s], functions=["ir_set_bits", "ir_get_bits", "gen_mask"], unwind=8, **IRENV) for s in (1, 2, 4, 8)] +
     [dict(name="%s_%s%d" % (n, ty[3:].lower(), w), file="C10e.c", entry="h_expr", defs=["T=" + ty, "W=%d" % w, "WHAT=%d" % what, "OPER=" + op, "VT=" + vt, "ALLOCATED=%d" % (w % 2)],
           functions=["expression_evaluate", "evaluate_dot_operator", "evaluate_assignment", "evaluate_assignment_op", "evaluated_expression_to_var", "evaluated_expression_cast", "assign_ee_to_ee", "assign_to_ee",
                      "ir_get_bits", "ir_set_bits", "ir_load", "ir_store", "ir_get_offset"], unwind=70, object_bits=12, **IRENV)
      for ty, w, vt in (("ST_INT", 7, "ST_INT"), ("ST_INT", 32, "ST_SCHAR"), ("ST_UINT", 1, "ST_LONG"), ("ST_UINT", 32, "ST_INT"), ("ST_UCHAR", 5, "ST_UINT"), ("ST_SCHAR", 3, "ST_SHORT"),
                    ("ST_SHORT", 15, "ST_LONG"), ("ST_LONG", 40, "ST_INT"), ("ST_ULONG", 64, "ST_SHORT"), ("ST_ULONG", 33, "ST_ULLONG"), ("ST_BOOL", 1, "ST_INT"))
      for n, what, op in (("read", 0, "0"), ("assign", 1, "0"), ("add", 2, "OP_ADD"), ("predec", 3, "OP_SUB"), ("postinc", 4, "OP_ADD"))])

C15F = ["expression_evaluate", "expression_to_ir", "expression_to_condition", "evaluated_expression_to_var", "evaluated_expression_to_address", "evaluated_expression_cast", "variable_cast", "ir_from_type_and_op", "ir_binary_op", "ir_load", "ir_store"]
def c15(name, entry, f=(), flags=(), bounded=None, **d):
    return dict(name=name, file="C15.c", entry="h_" + entry, defs=["%s=%s" % i for i in dict(dict(ASSIGN=0, PART=0, CT=0, ESIZE=4, WHAT=0), **d).items()], functions=C15F + list(f),
                unwind=70, object_bits=12, flags=list(flags), bounded=bounded, **IRENV)
def st(t): return "ST_" + t.upper()
MULS = ("OP_MUL", "OP_DIV", "OP_MOD")
C15P = [("int", "int"), ("uint", "uint"), ("long", "long"), ("ulong", "ulong"), ("schar", "ushort"), ("int", "ulong"), ("uint", "long"), ("uchar", "int")]
prop("C15", [c15("%s_%s_%s" % (o[3:].lower(), a, b), "binary", ["evaluate_binary_operator"], TA=st(a), TB=st(b), OP=o, **(dict(NARROW=1, bounded="operands within 8 of 0 and of the ends of their type") if o in MULS else {}))
             for k, o in enumerate(OPS) for j, (a, b) in enumerate(C15P) if j in (0, 1, 2, 3) or (j + k) % 4 == 0] +
     [c15("%s_assign%d_%s_%s" % (o[3:].lower(), m, a, b), "binary", ["evaluate_assignment_op"], TA=st(a), TB=st(b), OP=o, ASSIGN=m, **(dict(NARROW=1, bounded="operands within 8 of 0 and of the ends of their type") if o in MULS else {}))
             for k, o in enumerate(OPS[:10]) for j, (a, b, m) in enumerate([("uchar", "int", 1), ("int", "ulong", 2), ("ulong", "schar", 3), ("short", "uint", 1), ("int", "int", 3), ("uint", "uint", 1), ("long", "int", 1)]) if (j + k) % 2 == 0] +
     [c15("unary_%s" % t, "unary", ["evaluate_unary_operator"], TA=st(t)) for t in ("bool", "uchar", "short", "int", "uint", "long", "ullong")] +
     [c15("cast_%s_%d" % (t, p), "cast", ["evaluate_cast"], TA=st(t), PART=p) for t in ("bool", "schar", "ushort", "int", "uint", "long", "ulong") for p in (0, 1)] +
     [c15("assign_%s_%s" % (a, b), "assign", ["evaluate_assignment"], TA=st(a), TB=st(b)) for a, b in (("int", "schar"), ("long", "bool"), ("uint", "long"), ("schar", "ulong"), ("ulong", "ushort"), ("int", "int"), ("ushort", "int"))] +
     [c15("condition_%d" % i, "condition", CT=i) for i in (0, 2, 3, 5, 6, 7, 9, 10, 12)] +
     [c15("conditional_%d" % ct, "conditional", ["evaluate_conditional"], TA=st(a), TB=st(b), CT=ct) for ct, a, b in ((0, "int", "uint"), (3, "schar", "long"), (6, "uint", "uint"), (8, "int", "int"), (11, "ushort", "uchar"), (12, "ulong", "int"))] +
     [c15("pointer_%d_%s_%d" % (w, t, e), "pointer", ["evaluate_pointer_arithmetic", "evaluate_assignment_pointer"], WHAT=w, TB=st(t), ESIZE=e, NARROW=1, bounded="indices of 16 bits")
      for w, t, e in ((0, "int", 4), (0, "uint", 8), (0, "schar", 12), (1, "long", 2), (2, "int", 12), (2, "uint", 4), (3, "int", 8), (3, "ulong", 4), (4, "short", 12), (4, "int", 1), (5, "int", 12), (6, "int", 8))] +
     [c15("index_%d" % e, "index", ["evaluate_indirection"], ESIZE=e) for e in (1, 2, 4, 8)] +
     [c15("ptrdiff_%d" % e, "ptrdiff", ["evaluate_pointer_diff"], ESIZE=e) for e in (1, 4, 12)] + [c15("ptrcmp", "ptrcmp")] +
     [c15("float_%s_%d" % (t, p), "float", TB=st(t), PART=p) for p, t in enumerate(("int", "uint", "long", "ulong"))])

ENV0 = dict(spec=["stub_env.c"], stub=ENV)
def env(*more): return dict(spec=["stub_env.c"], stub=ENV + list(more))
def alloc(cap, *more):	# environment stubs plus the allocator's contract
    return dict(spec=["stub_env.c", "stub_alloc.c"], stub=ENV + ["cc_malloc", "cc_realloc"] + list(more), specdefs=["VP_CAP=%d" % cap])
prop("C04", [dict(name="lit%d_%d_%d" % (b, n, k), file="C04.c", entry="h_literal", defs=["BASE=%d" % b, "NDIG=%d" % n, "SUF=%d" % k], functions=["constant_from_string"], unwind=max(n + 7, 24), unwindset=["strlen.0:30", "constant_from_string.0:%d" % (n + 8)], bounded="%d digits" % n, **TYPES)
             for b, n in ((16, 3), (10, 3), (8, 3), (2, 4)) for k in range(1)] +
     [dict(name="%s%d" % (e, b), file="C04.c", entry="h_" + e, defs=["BASE=%d" % b, "NDIG=1", "SUF=0"], functions=["constant_from_string"], unwind=80, flags=["--max-field-sensitivity-array-size","100"], bounded=t, **TYPES)
             for b in (16, 10, 8, 2) for e, t in (("boundary", "values around the type boundaries, every suffix"), ("digits", "each digit at each position"))])
prop("C05", [dict(name="escape", file="C05.c", entry="h_escape", functions=["escape_sequence_read", "is_octal", "is_hexadecimal", "char_to_int"], unwind=10, bounded="hexadecimal escapes of at most 4 digits", **env())] +
     [dict(name=n, file="C05.c", entry="h_" + n, defs=["WHOLE"], functions=["string_concat_next", "escape_char_to_buffer", "escape_string_to_buffer"] + (["character_constant_to_int", "escaped_character_constant_to_int"] if n == "char" else []),
           unwind=300, object_bits=12, bounded="literals of at most 3 elements, 2 literals", **env("expander_next", "escape_sequence_read")) for n in ("string", "char", "concat", "plain")])
prop("C06", [dict(name="encode", file="C06.c", entry="h_encode", functions=["utf8_encode", "utf8_code_point_length"], unwind=6, **ENV0),
             dict(name="decode", file="C06.c", entry="h_decode", functions=["utf8_decode"], unwind=6, **ENV0),
             *[dict(name=n, file="C06w.c", entry="h_" + e, defs=d, functions=["string_concat_next", "escape_char_to_buffer", "take_utf8", "take_string_prefix"], unwind=40, object_bits=12, bounded=t, **env("expander_next", "utf8_decode"))
               for n, e, d, t in [("wide", "wide", [], None), ("wide16", "wide16", [], "code points at the ends of the ranges")] + [("any16_%d%d" % (l, c), "any16", ["LA=%d" % l, "CHR=%d" % c], "one code point") for l in (1, 2, 3, 4) for c in (0, 1) if l < 4 or not c]],
             dict(name="ucn", file="C06.c", entry="h_ucn", functions=["tokenize_input", "remove_escape_sequences"], unwind=260, object_bits=14, bounded="all values of each single digit", **env())])
prop("C20", [dict(name="insert", file="C20.c", entry="h_insert", defs=["PART=0", "UNION=0"], functions=["string_set_insert", "string_set_contains", "string_set_dup"], unwind=1000, object_bits=16, bounded="sets of at most 3 names, every insertion order", **env())] +
     [dict(name="%s_%d" % (n, p), file="C20.c", entry="h_setop", defs=["PART=%d" % p, "UNION=%d" % u], functions=["string_set_" + n, "string_set_insert", "string_set_contains"], unwind=1000, object_bits=16, bounded="sets of at most 3 names, every insertion order", **env())
      for u, n in ((1, "union"), (0, "intersection")) for p in range(4)])
FS = lambda n: ["--max-field-sensitivity-array-size", str(n)]
prop("C21", [dict(name="history_%d" % p, file="C21.c", entry="h_history", defs=["PART=%d" % p], functions=["define_map_add", "define_map_get", "define_map_remove", "define_map_find", "define_init", "sv_hash", "sv_cmp"],
                  unwind=1100, object_bits=14, flags=FS(1100), bounded="4 names, every order of 3 definitions followed by every 2 operations", **env()) for p in range(8)] +
     [dict(name="contents", file="C21.c", entry="h_contents", defs=["PART=0"], functions=["define_init", "define_add_def", "define_add_par", "define_map_add"], unwind=1100, object_bits=12, flags=FS(1100), bounded="2 parameters, 3 body tokens", **env())])

DIR = ["input_open", "tokenize_input", "expand_token_list", "define_map_get"]
def dirs(*more): return dict(spec=["stub_types.c", "stub_env.c"], stub=["type_create"] + ENV + DIR + list(more), flags=FS(80))
C22F = ["evaluate_expression", "evaluate_until_newline", "buffer_next", "directiver_evaluate_conditional", "directiver_next"]
C22 = dirs("constant_from_string", "escaped_character_constant_to_int")
PPOPS = ["T_ADD", "T_SUB", "T_STAR", "T_DIV", "T_MOD", "T_LSHIFT", "T_RSHIFT", "T_AMP", "T_BOR", "T_XOR", "T_EQ", "T_NEQ", "T_L", "T_G", "T_LEQ", "T_GEQ", "T_AND", "T_OR"]
def c22(name, entry, defs, **kw):
    return dict(C22, name=name, file="C22.c", entry="h_" + entry, defs=defs, functions=C22F, unwind=25, unwindset=["strlen.0:30"], **kw)
MULOPS = ("T_STAR", "T_DIV", "T_MOD")
SS, NN, NS, NU, UU, TSU, TUS, TSS = ["SA=1", "SB=1"], ["SA=1", "SB=1", "NA=1", "NB=1"], ["SA=1", "SB=1", "NA=1"], ["SA=1", "SB=0", "NA=1"], ["SA=0", "SB=0"], ["MODE=1", "SA=1", "SB=0"], ["MODE=1", "SA=0", "SB=1"], ["MODE=1"]
prop("C22", [c22("%s_nu" % o, "binary", ["OP=" + o] + NU) for o in PPOPS if o not in MULOPS + ("T_LSHIFT",)] + [c22("T_LSHIFT_uu", "binary", ["OP=T_LSHIFT"] + UU)] +
     [c22("%s_%s" % (o, m), "binary", ["OP=" + o] + d) for m, d, os in (
        ("nn", NN, ("T_L", "T_G", "T_LEQ", "T_GEQ", "T_ADD", "T_SUB", "T_EQ")), ("ns", NS, ("T_RSHIFT", "T_XOR")), ("ss", SS, ("T_LSHIFT", "T_OR", "T_AND")),
        ("type_su", TSU, ("T_ADD", "T_L", "T_EQ", "T_LSHIFT", "T_AND", "T_STAR")), ("type_us", TUS, ("T_ADD", "T_RSHIFT", "T_GEQ"))) for o in os] +
     [c22("%s_%s_%d" % (o, m, n), "binary", ["OP=" + o, "NARROW=%d" % n] + d, bounded="operands within 4 of 0 and of the ends of the range")
        for o in MULOPS for m, d, n in (("nn", NN, 1), ("ns", NS, 1), ("ns", NS, 2), ("uu", UU, 3), ("nu", NU, 1))] +
     [c22("unary_%d_%d_%d" % (w, m, s), "unary", ["WHICH=%d" % w, "MODE=%d" % m, "SA=0", "SB=%d" % s]) for w in range(4) for m in (0, 1) for s in (0, 1) if m == 1 or s == 1] +
     [c22("cond_%d_%d%d" % (m, a, b), "cond", ["MODE=%d" % m, "SA=%d" % a, "SB=%d" % b]) for m, a, b in ((0, 1, 1), (0, 0, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1))] +
     [c22("lazy_%d" % w, "lazy", ["WHICH=%d" % w]) for w in range(4)] + [c22(n, n, []) for n in ("defined", "character", "levels")] +
     [c22("prec_%d_%d" % (p, q), "prec", ["O1=%d" % p, "O2=%d" % q], bounded="operands 0..3")
        for p, q in [(0, 3), (3, 0), (2, 1), (4, 3), (4, 5), (6, 4), (6, 5), (6, 7), (8, 5), (8, 8), (8, 12), (11, 7), (12, 11), (11, 13), (13, 12), (13, 14), (14, 13), (14, 15), (15, 14), (15, 16), (16, 15), (16, 17), (17, 16)]])
prop("C23", [dict(dirs("constant_from_string", "define_map_remove", "sv_string_cmp"), name="groups_%d_%d" % (n, p), file="C23.c", entry="h_groups", defs=["VP_NAMES", "N=%d" % n, "PART=%d" % p, "PARTS=%d" % parts, "MAXTOK=80"], object_bits=14,
                  functions=["directiver_next", "directiver_evaluate_conditional", "evaluate_until_newline", "next", "next_from_stack", "push"], unwind=1000, flags=FS(100),
                  cost=n, bounded="every balanced sequence of %d conditional directives" % n) for n, parts in ((2, 1), (3, 1), (4, 1), (5, 3), (6, 11)) for p in range(parts)] +
     [dict(name="names", file="C23.c", entry="h_names", functions=["sv_string_cmp"], unwind=12, bounded="names of at most 8 characters", **dirs("constant_from_string", "define_map_remove"))])
prop("C08", [dict(name="layout_%s%s_%d_%s_%d" % ("union" if u else "struct", "_bits" if b else "", n, logs.replace(",", ""), p), file="C08.c", entry="h_layout", defs=["LAYOUT", "N=%d" % n, "UNION=%d" % u, "BITS=%d" % b, "LOGS=" + logs, "PART=%d" % p, "PARTS=%d" % parts],
                  functions=["calculate_offsets", "calculate_alignment_with_max", "round_up_to_nearest"], unwind=130, bounded="at most %d members; member sizes up to 15 times the alignment" % n,
                  **env("calculate_size", "calculate_alignment"))
             for u, b, n, logs, parts in ((0, 1, 1, "0,1,2,3,4", 1), (1, 1, 1, "0,1,2,3,4", 1), (0, 1, 2, "0,1,2,3,4", 1), (0, 0, 3, "0,1,2,3,4", 2), (0, 1, 3, "0,2,3", 3), (0, 1, 3, "1,2", 1), (0, 1, 4, "2", 1), (0, 1, 4, "0,2", 5), (1, 1, 3, "0,2,3", 1)) for p in range(parts)] +
     [dict(name=n, file="C08.c", entry="h_" + n, functions=f, unwind=30, **TYPES) for n, f in (
        ("size", ["calculate_size", "calculate_alignment", "calculate_offset", "sysv_sizeof_simple", "alignof_simple"]), ("nested", ["calculate_size", "calculate_alignment", "type_get_offsets", "type_select", "calculate_offset", "alignof_struct"]))])

MC = ["asm_ins", "asm_ins0", "asm_ins1", "asm_ins2", "asm_ins3", "asm_comment", "asm_label", "asm_finish", "rodata_codegen", "data_codegen", "register_label", "register_label_name"]
def mc(name, entry, f=(), flags=(), bounded=None, **d):
    return dict(name=name, file="C11.c", entry="h_" + entry, defs=["%s=%s" % i for i in dict(dict(CSZ=4, ORDER=0, NEAR=0), **d).items()],
                functions=["codegen", "codegen_function", "codegen_block", "codegen_instruction", "scalar_to_reg", "reg_to_scalar"] + list(f),
                unwind=400, object_bits=12, flags=FS(400) + list(flags), bounded=bounded, spec=["stub_types.c", "stub_env.c"], stub=["type_create"] + ENV + MC)
MCN = dict(need=["codegen/codegen.c", "codegen/registers.c"])
IOPS = "ADD SUB MUL IMUL DIV IDIV MOD IMOD LSHIFT RSHIFT IRSHIFT BXOR BOR BAND".split()
ICMP = "LESS ILESS GREATER IGREATER LESS_EQ ILESS_EQ GREATER_EQ IGREATER_EQ EQUAL NOT_EQUAL".split()
def ir(l): return ",".join("IR_" + o for o in l)
def ops(name, l, n, rsz): return [mc("%s_%d" % (name, i), "binary", OPS=ir(l[i::n]), RSZ=rsz) for i in range(n)]
def un(name, op, fr, to, same=0): return mc(name, "unary", UN="IR_" + op, FROM=fr, TO=to, SAME=same)
prop("C11", ops("arithmetic", IOPS, 5, 0) + ops("compare", ICMP, 3, 4) +
     [mc("branch_%d_%d" % (c, o), "branch", CSZ=c, ORDER=o) for c, o in ((1, 0), (2, 1), (4, 0), (4, 1), (8, 0), (8, 1))] + [mc("phi_%d%d" % (c, o), "phi", CSZ=c, ORDER=o, NEAR=n) for c, o, n in ((1, 0, 1), (2, 1, 0), (4, 0, 0), (8, 1, 1))], **MCN)
prop("C12", [un("zero_ext_%d" % f, "INT_CAST_ZERO", f, "1,2,4,8") for f in (1, 2, 4, 8)] + [un("sign_ext_%d" % f, "INT_CAST_SIGN", f, "1,2,4,8") for f in (1, 2, 4, 8)] +
     [un("bool", "BOOL_CAST", "1,2,4,8", "1"), un("negate", "NEGATE_INT", "1,2,4,8", "1,2,4,8", 1), un("complement", "BINARY_NOT", "1,2,4,8", "1,2,4,8", 1), mc("constant", "constant")], **MCN)
prop("C13", [mc("%s_%d" % (n, lo), "memory", ["codegen_memcpy", "codegen_memzero"], WHAT=w, LO=lo, HI=hi, bounded="sizes %d to %d" % (lo, hi)) for w, n in enumerate(("load", "store", "load_volatile", "load_part", "store_part", "copy", "clear")) for lo, hi in ((1, 9), (10, 17))] +
     [dict(mc("%s_%d" % (n, z), "memory", ["codegen_memcpy", "codegen_memzero"], FS(700), WHAT=w, LO=z, HI=z, GI_MEMSZ=2 * z + 40, STACKSZ=320 + 2 * z, bounded="size %d" % z), unwind=1000) for w, n in enumerate(("load", "store", "load_volatile", "load_part", "store_part", "copy", "clear")) for z in (39, 141)], **MCN)
FOPS = "FLT_ADD FLT_SUB FLT_MUL FLT_DIV".split()
FCMP = "FLT_LESS FLT_GREATER FLT_LESS_EQ FLT_GREATER_EQ FLT_EQUAL FLT_NOT_EQUAL".split()
prop("C30", ops("arithmetic", FOPS, 2, 0) + ops("compare", FCMP, 3, 4) +
     [un("negate", "NEGATE_FLOAT", "4,8", "4,8", 1), un("float_to_float", "FLOAT_CAST", "4,8", "4,8"), un("int_to_float", "INT_FLOAT_CAST", "1,2,4,8", "4,8"), un("uint_to_float", "UINT_FLOAT_CAST", "1,2,4", "4,8"), un("float_to_int", "FLOAT_INT_CAST", "4,8", "1,2,4")] +
     [dict(u, defs=u["defs"] + ["GF_REAL"]) for f in "48" for u in (un("uint64_to_float_" + f, "UINT_FLOAT_CAST", "8", f), un("float_%s_to_int64" % f, "FLOAT_INT_CAST", f, "8"))], **MCN)

C09A = ["asm_section", "asm_align", "asm_label", "asm_byte", "asm_quad", "asm_zero"]
C09S = dict(spec=["stub_types.c", "stub_env.c"], specdefs=["NO_PEEK_STUB"], stub=["type_create"] + ENV + C09A + ["t_next", "parse_assignment_expression", "parse_expression"], object_bits=12)
prop("C09", [dict(C09S, name=n, file="C09.c", entry="h_" + n, functions=["constant_to_buffer", "constant_to_u64", "gen_mask"], unwind=26) for n in ("scalar", "bits")] +
     [dict(C09S, name="image_%d" % c, file="C09.c", entry="h_image", defs=["CASE=%d" % c], functions=["parse_initializer", "parse_initializer_recursive", "parse_brace_initializer", "match_specific_string", "initializer_add_entry", "data_register_static_var",
           "data_codegen", "codegen_static_var", "codegen_initializer", "codegen_initializer_recursive", "constant_to_buffer"], unwind=82, flags=FS(400), bounded="one shape of initializer, all values")
      for c in list(range(10)) + list(range(20, 35)) + list(range(40, 45))] +
     [dict(C09S, name="auto_%d" % c, file="C09.c", entry="h_image", defs=["AUTO", "CASE=%d" % c], functions=["parse_initializer", "parse_initializer_recursive", "parse_brace_initializer", "match_specific_string", "initializer_add_entry",
           "ir_init_ptr", "ir_init_var_recursive", "ir_set_bits", "ir_set_zero_ptr", "expression_to_address"], unwind=82, flags=FS(400), bounded="one shape of initializer, all values")
      for c in (0, 2, 5, 6, 10, 11, 21, 24, 26, 28, 29, 42, 43)] +
     [dict(C09S, name="empty", file="C09.c", entry="h_empty", functions=["codegen_static_var"], unwind=50, flags=FS(100))])

C07N = dict(need=["assembler/assembler.c"])
def c07(name, entry, f, defs=(), stubs=(), **kw): return dict(name=name, file="C07.c", entry="h_" + entry, defs=list(defs), functions=f, unwind=100, object_bits=12, flags=FS(200), **dict(env(*stubs), **kw))
prop("C07", [c07("text_%d" % n, "text", ["asm_string", "asm_emit_no_newline", "character_to_escape_sequence"], ["N=%d" % n], bounded="literals of %d bytes" % n) for n in (1, 2, 3)] +
     [c07("object_%d" % n, "object", ["asm_string"], ["OBJECT", "N=%d" % n], ["object_write", "object_write_byte", "object_write_zero"], bounded="literals of %d bytes" % n) for n in (1, 4)] +
     [c07("table_%d%d%d" % p, "table", ["rodata_register", "register_label_name", "register_label", "label_register", "rodata_codegen"], ["TABLE", "P0=%d" % p[0], "P1=%d" % p[1], "P2=%d" % p[2]], ["asm_section", "asm_label", "asm_string"], bounded="3 literals, a history of every kind of pair")
      for p in ((0, 6, 1), (1, 1, 2), (3, 4, 3), (4, 1, 3), (5, 7, 7), (1, 2, 1), (6, 6, 6))] +
     [c07("same", "same", ["sv_cmp"], bounded="texts of at most 8 bytes"),
      c07("names", "names", ["rodata_get_label", "rodata_register", "register_label_name"])], **C07N)

def c18t(script, kw="T_KSTRUCT"):
    return dict(name="tags_" + script.translate({123: "I", 125: "O"}) + kw[3:6], file="C18t.c", entry="h_tags", defs=['SCRIPT="%s"' % script, "LENGTH=%d" % len(script), "KEYWORD=" + kw], unwind=50, unwindset=["symbols_init.0:1030"], object_bits=14, flags=FS(1100),
                functions=["parse_struct", "parse_specifiers", "parse_type_name", "parse_declarator", "ast_to_type"], bounded="the history of declarations " + script, spec=["stub_env.c"], specdefs=["NO_PEEK_STUB", "NO_SYMBOLS_STUB"],
                stub=["type_create", "cc_malloc", "cc_realloc", "type_evaluate_vla", "type_remove_unnamed"] + [f for f in ENV if f != "symbols_add_typedef"] + ["t_next", "sv_hash", "hash32", "calculate_offsets"])
prop("C18", [dict(name="scopes_%d_%d_%d_%d" % (h, g, s0, s1), file="C18.c", entry="h_scopes", defs=["S0=%d" % s0, "S1=%d" % s1, "G=%d" % g, "HASH=%d" % h, "SETS={0,1,2,3,4,5}"], unwind=1030, object_bits=14, flags=FS(1100),
                  functions=["symbols_push_scope", "symbols_pop_scope", "get_entry", "add_entry", "add_entry_with_block", "symbols_get_typedef", "symbols_add_typedef", "symbols_get_struct", "symbols_add_struct", "symbols_get_identifier", "symbols_add_identifier",
                             "symbols_add_identifier_global", "symbols_get_identifier_global"], bounded="three nested scopes, two names of three kinds", spec=["stub_env.c"], specdefs=["NO_SYMBOLS_STUB"], stub=[f for f in ENV if f != "symbols_add_typedef"] + ["sv_hash", "hash32"])
             for h, g, s0, s1 in [(0, 2, 0, 3), (0, 2, 4, 3), (0, 3, 1, 3), (0, 1, 2, 4), (0, 1, 5, 2), (0, 0, 3, 3), (0, 0, 5, 5), (0, 2, 2, 5), (0, 3, 4, 1),
                                    (1, 2, 0, 3), (1, 2, 2, 5), (1, 3, 4, 3), (2, 2, 0, 3), (2, 0, 3, 5), (0, 3, 1, 5), (1, 0, 4, 4)]] +
     [c18t(x) for x in ("D{R}R", "D{FR}R", "R{R}D", "{F}D{R}", "D{FDR}R", "D{DR}R", "FR{RD}DR", "D{{F}R}R", "R{R{D}R}R", "P{P}R", "{R}{D}R", "R{FRP}D", "F{P{RF}}D")] + [c18t(x, "T_KUNION") for x in ("D{FRD}R", "P{R}")])
C19F = ["type_create", "compare_types", "type_hash", "type_simple", "type_pointer", "type_struct", "type_array", "type_make_const", "type_remove_qualifications", "type_deref"]
def c19(name, entry, defs, **k):
    return dict(name=name, file="C19.c", entry=entry, defs=defs, functions=C19F, unwind=80, unwindset=["type_create.0:1026"], object_bits=14, flags=FS(1100), **k, spec=["stub_env.c"], specdefs=["NO_SYMBOLS_STUB"], stub=[f for f in ENV if f != "symbols_add_typedef"] + ["hash32"])
prop("C19", [c19("all_%d" % h, "h_all", ["HASH=%d" % h, "KIND=0"]) for h in (0, 1)] + [c19("new_%d" % k, "h_new", ["KIND=%d" % k]) for k in range(12)])
C25T = ["type_create", "type_simple", "type_pointer", "type_struct", "calculate_offsets"]
C25I = ["ir_load_part_address", "ir_store_part_address", "ir_allocate", "ir_allocate_preamble", "ir_allocate_call_stack", "ir_store_stack_relative_address", "ir_set_reg", "ir_get_reg", "ir_call", "ir_cast_int", "ir_constant", "ir_copy_memory",
        "ir_load_base_relative_address", "constant_simple_unsigned", "new_block", "ir_block_start", "node_set_argument", "ir_project", "evaluated_expression_to_address", "evaluated_expression_to_var"]
def c25(name, entry, defs, fns, stubs, **k): return dict(name=name, file="C25.c", entry=entry, defs=defs, functions=fns, unwind=50, object_bits=14, flags=FS(420), **env(*stubs), **k)
prop("C25", [c25("classify_%d_%d" % (k, p), "h_classify", ["CLASSIFY=%d" % k, "FROM=%d" % p, "TO=%d" % (p + 43)], ["classify", "classify_recursively", "classify_non_recursive", "combine_class"], C25T, bounded="structures of at most four scalars and nesting depth two") for k in range(8) for p in range(0, 85, 43)] +
     [c25("%s_%d" % (n, t), "h_call", ["CALLER=%d" % c, "TT=%d" % t], ["get_calling_convention", "classify"] + f, C25T + C25I, bounded="at most 19 arguments of 16 types")
      for t in (0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15) for n, c, f in (("caller", 1, ["sysv_expr_call"]), ("callee", 0, ["sysv_expr_function", "sysv_expr_return", "split_variable"]))])

C24S = dict(file="C24.c", functions=["parse_expression", "parse_pratt", "parse_pratt_with_lhs", "parse_prefix", "parse_call_parameters", "parse_assignment_expression", "expr_dot_operator", "precedence_get"], unwind=600, unwindset=["parse_call_parameters.0:6"], object_bits=14, flags=FS(140),  
            spec=["stub_types.c", "stub_env.c"], specdefs=["NO_PEEK_STUB"], stub=["type_create"] + ENV + ["t_next", "t_push", "symbols_get_identifier", "parse_type_name", "expr_new", "expression_cast", "type_sizeof", "type_alignof", "type_search_member", "constant_simple_signed"])
prop("C24", [dict(C24S, name="%s_%d" % (n, p), entry="h_" + n, defs=["PART=%d" % p, "PARTS=%d" % parts], bounded=b)
     for n, parts, b in (("pairs", 24, "an operator of each level in every place of every operator"), ("inner", 5, "every operator in every place of -, *, unary * and []"), ("both", 4, "one operator of each level, two operands at once"), ("deep", 8, "one operator of each level, three deep")) for p in range(parts)])

C26S = dict(file="C26.c", entry="h_token", functions=["tokenize_input", "tokenizer_next", "next_char", "parse_identifier", "parse_number", "parse_string_like", "remove_escape_sequences", "remove_digit_separator"], unwind=300, object_bits=14, flags=FS(45), **env("token_list_add"))
def cstr(s): return '"' + "".join(c if c.isalnum() else "\\%03o" % ord(c) for c in s) + '"'
def c26(name, sets, parts=1, **d):
    defs = ["LEN=%d" % len(sets), "C=" + ",".join(map(cstr, sets))] + ["%s=%s" % (k, cstr(v) if isinstance(v, str) else "{" + ",".join(map(cstr, v)) + "}" if isinstance(v, list) else v) for k, v in d.items()]
    return [dict(C26S, name="%s_%d" % (name, p), defs=defs + ["PARTS=%d" % parts, "PART=%d" % p], bounded="texts of %d characters" % len(sets)) for p in range(parts)]
P26 = "[](){}.&*+-~!/%<>^|?:;=,#"
W26 = "aZ_$e09uUL8p"
Q26 = "a\"'\\\n"
prop("C26", c26("punct2", [P26, P26 + "aZ_09 \"'\\\n\t@\x80\xff"], 8) + c26("punct_any", ["<-", "ANY"], 4) + c26("punct3", ["<>.%", "<>.%:=-", "=:.%>a"], 2) + c26("percent", ["%", ":", "%>:=", ":%a"]) +
     c26("ident_any", ["a", "ANY"], 2) + c26("ident2", ["aZ_$eEpuUL8\xc3", W26 + "+'\"\\.\xff "], 2) + c26("ident3", ["uULa", W26 + "+'\"", "aU8p\"'-."], 4) + c26("letters", ["ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_", "a0"]) +
     c26("number_any", ["0", "ANY", "+"], 2) + c26("number2", ["0123456789", W26 + "+-.'", "e'"], 2) + c26("number4", ["08", "eEpPxL.'a0", "+-e.8'", "+-.0'x"], 4) + c26("number6", ["05", "eP", "+-2", "eEp", "+-.", "e1"], 2) + c26("point", [".", "0.8ae", "eEpP.'0", "+-0a"]) +
     c26("quote", ["\"'", Q26 + "x", Q26, Q26], 2) + c26("prefixed", ["uUL", "8\"'", "a\"\\'", Q26, "\"'"], 2) + c26("literal_any", ["\"", "ANY", "\"'"], 3) + c26("character_any", ["'", "ANY", "'"], 2) + c26("escape_any", ["\"", "\\", "ANY", "\""], 2) +
     c26("other", ["@`\x01\x0e\x7f\x1f", "a@' "]) +
     c26("spaces", ["<#a0\"/", "<a\"="], NPRE=1, PRE=";", SPACES=["", " ", "\t", "\v", "\f", "\r", "/**/", "/***/", "/*/ **/", "/*\n#*/", "N//x\n", "N//*\n", "N\n", "N\n ", "N \n", "N\r\n", "/* */ /*\n*/\t", "N\n/**/"], parts=3) +
     c26("leading", ["#/a", "#a="], SPACES=["", " ", "\v\f", "/*x*/", "//\n", "\n\n"]) +
     [u for at in (1, 2, 3) for u in c26("splice_%d" % at, ["<0u.\"%", "<a08.e':\"", "=\"0+", "\""], 2, AT=at, SPLICES=["\\\n", "\\\r\n\\\n"][:3 - at or 1])] +
     c26("spliced_comment", ["a<", "b"], NPRE=1, PRE="x", SPACES=["/\\\n*a*\\\n/", "N/\\\n/a\\\nb\n", "\\\n \\\r\n"]) +
     c26("header", ["<", "a\"'/", ">a/.", ">a"], NPRE=2, PRE="#include", HEADER=1) + c26("noheader", ["<\"", "<a\"", "=\"<"], NPRE=2, PRE="#define"))

C17S = dict(file="C17.c", unwind=300, object_bits=14, flags=FS(2050), **env())
def arr(*a): return "{" + ",".join(map(str, a)) + "}"
STDIO = ["%s=vp_%s" % (f, f) for f in ("fopen", "fclose", "ftell", "fseek", "fwrite", "fread", "snprintf")]
C17O = [("one", 1, 1, (3,), (1,), (0,), (1,)), ("empty", 2, 2, (0, 5), (0, 0), (1, 0), (1, 0)), ("mixed", 3, 5, (5, 0, 9), (1, 0, 2), (0, -1, 2, 0, 1), (1, 1, 0, 0, 1)),
        ("order", 2, 4, (4, 8), (2, 2), (1, 0, 1, 0), (1, 0, 1, 0)), ("locals", 4, 3, (2, 1, 3, 0), (3, 0, 1, 0), (3, 2, -1), (0, 0, 1))]
prop("C17", [dict(C17S, name="%s_%s" % (e, n), entry="h_" + e, functions=["elf_write_object", "elf_from_object", "elf_write", "elf_allocate_sections"] + (["elf_read_object", "elf_read", "object_from_elf"] if e == "read" else []),
                  defs=["SECS=%d" % s, "SYMS=%d" % y, "SIZES=" + arr(*z), "RELS=" + arr(*r), "WHERE=" + arr(*w), "GLOBAL=" + arr(*g)], bounded="objects of at most four sections, five symbols, four relocations")
             for e in ("write", "read") for n, s, y, z, r, w, g in C17O], need=["linker/elf.c"], code_defs=["VP_ELEMS=16", "VP_BYTES=160"] + STDIO)

C16S = dict(file="C16.c", unwind=200, object_bits=16)
C16L = [ # sections, symbols, sizes, alignments, relocations, section of symbols, names, global
    ("single", (2,), (4,), (13, 9), (16, 8), (1, 1), (0, 1, 1, 0), (0, 1, 2, 3), (1, 0, 0, 1)),
    ("empty", (3,), (3,), (5, 0, 8), (1, 16, 4), (0, 0, 1), (2, 1, 0), (0, 2, 1), (1, 0, 1)),
    ("two", (2, 2), (3, 4), (8, 16, 12, 5), (0, 8, 4, 16), (1, 2, 2, 1), (0, -1, 1, 1, 0, -1, 0), (0, 1, 2, 1, 3, 0, 2), (1, 1, 0, 1, 1, 1, 0)),
    ("shadow", (1, 2), (2, 3), (16, 16, 3), (4, 16, 0), (3, 3, 0), (-1, 0, 1, 0, 0), (0, 3, 0, 0, 2), (1, 1, 1, 0, 0)),
    ("three", (1, 1, 1), (2, 2, 3), (9, 14, 16), (0, 16, 8), (1, 2, 3), (-1, 0, 0, -1, 0, -1, 0), (0, 3, 0, 1, 1, 0, 2), (1, 1, 1, 1, 1, 1, 0))]
def c16rows(ns, per, xs, fill):
    r, i = [], 0
    for n in ns:
        r += list(xs[i:i + n]) + [fill] * (per - n); i += n
    return arr(*r)
prop("C16", [dict(C16S, name="writers_%d_%d" % (b, p), entry="h_writers", functions=["object_start", "object_finish", "object_set_section", "object_write", "object_write_byte", "object_write_quad", "object_write_zero", "object_align", "object_symbol_relocate", "object_symbol_set", "asm_ins2", "asm_quad", "asm_zero", "asm_align", "asm_label", "asm_finish"],
                  defs=["WRITERS", "BEFORE=%d" % b, "FIRST=" + arr(p)], flags=FS(100), bounded="sequences of four calls", **env("rodata_get_label", "assemble_instruction")) for b in (7, 4) for p in (1, 3, 10, 12, 15)] +
     [dict(C16S, name="link_" + n, entry="h_link", functions=["linker_link", "combine_objects", "write_32", "write_64", "round_up_to_nearest"],
           defs=["NOBJ=%d" % len(ns), "NSECS=" + arr(*ns), "NSYMS=" + arr(*ny), "SIZES=" + c16rows(ns, 4, z, 0), "ALIGNS=" + c16rows(ns, 4, a, 0), "RELS=" + c16rows(ns, 4, r, 0), "WHERE=" + c16rows(ny, 6, w, 0), "NAMES=" + c16rows(ny, 6, nm, 0), "GLOBAL=" + c16rows(ny, 6, g, 0)],
           flags=FS(200), bounded="at most three objects", **env()) for n, ns, ny, z, a, r, w, nm, g in C16L], need=["linker/object.c", "linker/linker.c", "assembler/assembler.c"], code_defs=["VP_ELEMS=8", "VP_BYTES=96", "vp_strdup=vp_dup"])

C14S = dict(file="C14.c", entry="h_ins", unwind=200, object_bits=14, flags=FS(64), **env("object_write", "object_symbol_relocate"))
C14G = {1: "loads", 2: "stores", 3: "pointer_loads", 4: "pointer_stores", 5: "addresses", 6: "constants_to_memory", 7: "constants", 8: "integer", 9: "control", 10: "convert", 11: "floating", 12: "floating_arguments"}
prop("C14", [dict(C14S, name=n, defs=["GROUP=%d" % g], functions=["asm_ins", "asm_ins0", "asm_ins1", "asm_ins2", "assemble_instruction", "assemble_encoding", "encode_sib", "does_match"], bounded="the instruction forms the code generator emits (mnemonics and registers enumerated; displacements and immediates arbitrary)") for g, n in C14G.items()], need=["assembler/assembler.c", "assembler/encode.c"])
