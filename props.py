UNITS = {}
BOUNDED = {}
PROPS = {}

def unit(name, **k):
    UNITS[name] = k
def bounded(name, **k):
    BOUNDED[name] = k
def prop(pid, **k):
    PROPS[pid] = k

for op, fn in (("PUSH", "vector_push"), ("POP", "vector_pop"), ("AT", "vector_at"),
               ("MAKE", "make_vector"), ("FREEZE", "vector_freeze")):
    unit("vec_" + op.lower(), file="vector.c", defs=["OP_" + op], enforce=[fn], functions=[fn])
bounded("vec_hist", file="vector.c", bound="histories of up to 60 operations natively, 10 in cbmc", unwind=12)
prop("C06", units=["vec_push", "vec_pop", "vec_at", "vec_make", "vec_freeze"], bounded=["vec_hist"])

for u in ("OPER", "IDENT", "CONST", "CALL"):
    unit("expr_" + u.lower(), file="expr.c", defs=["UNIT_" + u, "union=struct"], enforce_rec=["validate_expr"], functions=["validate_expr"])
def oracle(name, bound):
    bounded("o_" + name, py=name, bound=bound)
    return "o_" + name
for f in ("types", "assign", "func", "flow", "scope", "warn"):
    oracle("sem_" + f, "random programs (model verdict vs the real front end), as many as fit the time given")
prop("C01", standins=["o_sem_types"], units=["expr_oper", "expr_ident", "expr_const", "expr_call"])

def sem_unit(name, file, fn, **k):
    k.setdefault("functions", [fn])
    unit(name, file=file, defs=k.pop("defs", []) + ["union=struct"], enforce=[fn], **k)
sem_unit("assign_def", "assign.c", "validate_stmt_var_def", defs=["UNIT_DEF"], functions=["validate_stmt_var_def", "make_variable"])
sem_unit("assign_set", "assign.c", "validate_stmt_var_assign", defs=["UNIT_SET"])
prop("C02", standins=["o_sem_assign"], units=["assign_def", "assign_set"])

for u, fn in (("RETURN", "validate_stmt_return"), ("UNREACHABLE", "validate_stmt_unreachable"), ("BREAK", "validate_control_break"),
              ("CONTINUE", "validate_control_continue"), ("IF", "validate_control_if"), ("ELIF", "validate_control_elif"),
              ("ELSE", "validate_control_else"), ("WHILE", "validate_control_while"), ("SANE", "assert_sane_child")):
    k = dict(replace=["validate_control_not_missing_if"]) if u in ("ELIF", "ELSE") else {}
    sem_unit("flow_" + u.lower(), "flow.c", fn, defs=["UNIT_" + u], **k)

unit("flow_missing_if", file="flow.c", defs=["UNIT_MISSING_IF", "union=struct"], enforce_rec=["validate_control_not_missing_if"],
     functions=["validate_control_not_missing_if"])

sem_unit("entry_node", "entry.c", "validate_ast_node", defs=["UNIT_NODE"])
sem_unit("entry_tree", "entry.c", "validate_ast_tree", defs=["UNIT_TREE"], replace=["validate_ast_node"])
sem_unit("entry_block", "entry.c", "setup_and_validate_ast_sub_tree", defs=["UNIT_BLOCK"], replace=["validate_ast_node"])
FLEX = [("skull/parse/ast_node.h", r"\*params\[\];", "*params[16];"),
        ("skull/semantic/func.h", r"typedef struct FunctionDeclaration \{", "typedef struct FunctionDeclaration { char vp_pad[8];")]
sem_unit("func_decl", "func.c", "validate_stmt_func_decl", header_subst=FLEX, bounded="functions declared with at most 16 parameters", functions=["validate_stmt_func_decl", "validate_func_params", "post_validate_stmt_func_decl"])

prop("C03", standins=["o_sem_func"], units=["func_decl", "flow_return", "expr_call"])
prop("C04", standins=["o_sem_flow"], units=["flow_" + x for x in "unreachable break continue if elif else while sane missing_if".split()] + ["entry_node", "entry_tree", "entry_block"])
unit("unused", file="unused.c", defs=["union=struct"], enforce_rec=["check_unused_symbols"], functions=["check_unused_symbols"])
prop("C19", standins=["o_sem_warn"], units=["unused"])
unit("scope_find", file="scope.c", defs=["UNIT_FIND", "union=struct"], enforce_rec=["scope_find_name"], functions=["scope_find_name"])
for u, fn in (("SYMBOL", "scope_add_symbol"), ("ADD_VAR", "scope_add_var"), ("FIND_VAR", "scope_find_var"), ("CHILD", "make_child_scope"),
              ("ADJ", "make_adjacent_scope"), ("PARENT", "restore_parent_scope"), ("TOP", "is_top_lvl_scope"), ("TAIL", "get_last_adjacent_scope")):
    sem_unit("scope_" + u.lower(), "scope.c", fn, defs=["UNIT_" + u], replace=["scope_find_name"])
unit("ht_hash", file="ht.c", defs=["UNIT_HASH"], enforce=["ht_hash_key"], functions=["ht_hash_key"])
unit("ht_get", file="ht.c", defs=["UNIT_GET"], enforce=["ht_get"], replace=["ht_hash_key"], functions=["ht_get"])
unit("ht_add", file="ht.c", defs=["UNIT_ADD"], enforce=["ht_add"], replace=["ht_get", "ht_hash_key"], functions=["ht_add"])

sem_unit("type_find", "types.c", "find_type", defs=["UNIT_FIND"], functions=["find_type", "find_builtin_type"], unwind=8, dfcc=False)
sem_unit("type_ref", "types.c", "get_reference_type", defs=["UNIT_REF"])
unit("type_token", file="types.c", defs=["UNIT_TOKEN", "union=struct"], enforce_rec=["token_to_type"], replace=["find_type"], functions=["token_to_type"])
sem_unit("type_alias", "types.c", "validate_stmt_type_alias", defs=["UNIT_ALIAS"], replace=["token_to_type"])
bounded("ht_hist", file="ht.c", bound="histories of up to 80 entries and look-ups")
prop("C05", standins=["o_sem_scope"], bounded=["ht_hist"], units=["scope_" + x for x in "find symbol add_var find_var child adj parent top tail".split()]
     + ["ht_hash", "ht_get", "ht_add", "type_find", "type_ref", "type_token", "type_alias", "entry_block"])

unit("tok_quote", file="token.c", defs=["UNIT_QUOTE"], enforce=["iter_quote"], functions=["iter_quote"], flags=["--sat-solver","cadical"])
unit("tok_comment", file="token.c", defs=["UNIT_COMMENT"], enforce=["iter_comment"], functions=["iter_comment", "is_valid_comment_start"], flags=["--sat-solver","cadical"])
unit("tok_step", file="token.c", defs=["UNIT_STEP"], enforce=["tokenize_inner_loop"], replace=["iter_quote", "iter_comment"], functions=["tokenize_inner_loop", "parse_delimiter", "token_add_info", "next_line"])
unit("tok_text", file="token.c", defs=["UNIT_TOKENIZE"], enforce=["tokenize"], replace=["tokenize_inner_loop", "free_tokens"], functions=["tokenize"], unwind=15, object_bits=11, flags=["--sat-solver", "cadical"], bounded="texts read in at most 3 steps (of any length)")
oracle("lex", "random texts of up to 9 lexemes or 14 characters, reference lexer vs the real one")
oracle("classify", "random texts of up to 9 lexemes or 14 characters, reference token classes vs the real ones")
oracle("literals", "random literals in random positions, reference values vs the real ones")
prop("C07", standins=["o_lex"], units=["tok_quote", "tok_comment", "tok_step", "tok_text"])
for u, fn, rep in (("LEN", "c32slen", []), ("CMP", "c32scmp", []), ("NCMP", "c32sncmp", []), ("CHR", "c32schr", []), ("NCPY", "c32sncpy", []), ("DUP", "c32sdup", ["c32slen", "c32sncpy"]),
                   ("RSTR", "strrstr", []), ("TOMBS", "c32stombs", ["c32slen"]), ("FROMMBS", "mbstoc32s", [])):
    unit("str_" + u.lower(), file="str.c", defs=["UNIT_" + u], enforce=[fn], replace=rep, functions=[fn])
def u32(m):
    cs = __import__("ast").literal_eval('"' + m[1] + '"')
    return "((const char32_t[]){" + "".join("%d," % ord(c) for c in cs) + "0})"
# cbmc gets the size of U"" literals wrong: they are rewritten, mechanically, as compound literals
def U32(*paths):
    return [(p, r'U"((?:[^"\\]|\\.)*)"', u32) for p in paths]
unit("lit_unesc", file="lit.c", defs=["UNIT_UNESC"], functions=["c32sunescape", "escape_hex", "c32unhex"], dfcc=False, unwind=15)
unit("lit_strip", file="lit.c", defs=["UNIT_STRIP"], functions=["strip_underscore_num"], dfcc=False, unwind=15, bounded="numbers of at most 12 characters")
for u, fn in (("INT", "eval_integer"), ("FLOAT", "eval_float"), ("BOOL", "eval_bool"), ("RUNE", "eval_rune"), ("STR", "eval_str")):
    unit("lit_" + u.lower(), file="lit.c", defs=["UNIT_" + u], enforce=[fn], replace=["strip_underscore_num"] if u in ("INT", "FLOAT") else [], functions=[fn], header_subst=U32("skull/semantic/types.c"))
CLS = U32("skull/parse/classify.c")
unit("cls_token", file="classify.c", defs=["UNIT_TOKEN"], enforce=["classify_token"], functions=["classify_token"], header_subst=CLS, unwind=40, object_bits=11,
     replace=["is_constant_integer_str", "is_constant_float_str", "is_constant_bool_str", "is_constant_rune_str", "is_constant_str_str", "is_valid_identifier_str", "is_reserved_str", "is_type_str"])
unit("cls_list", file="classify.c", defs=["UNIT_LIST"], enforce=["classify_tokens"], replace=["classify_token"], functions=["classify_tokens"], header_subst=CLS)
for u, fn in (("INT", "is_constant_integer_str"), ("FLOAT", "is_constant_float_str"), ("IDENT", "is_valid_identifier_str"), ("RUNE", "is_constant_rune_str"), ("STR", "is_constant_str_str")):
    unit("cls_" + u.lower(), file="classify.c", defs=["UNIT_" + u], enforce=[fn], functions=[fn], header_subst=CLS, flags=["--sat-solver", "cadical"] if u == "INT" else [])
unit("cls_reserved", file="classify.c", defs=["UNIT_RESERVED"], functions=["is_reserved_str", "is_constant_bool_str", "is_type_str"], header_subst=CLS, dfcc=False, unwind=40)
for u in ("INT", "FLOAT", "IDENT"):
    unit("cls_dead_" + u.lower(), file="classify.c", defs=["UNIT_DEAD", "UNIT_" + u + "_"], functions=[], header_subst=CLS, dfcc=False, unwind=3)
for u, fn in (("CMP", "token_cmp"), ("STRING", "token_to_string"), ("MBS", "token_to_mbs_str")):
    unit("txt_" + u.lower(), file="tokstr.c", defs=["UNIT_" + u], enforce=[fn], functions=[fn])
CLSU = ["cls_" + x for x in "int float token ident rune str list reserved dead_int dead_float dead_ident".split()]
prop("C08", standins=["o_classify"], units=CLSU + ["txt_cmp", "txt_string"])
prop("C09", standins=["o_literals"], units=["lit_" + x for x in "unesc strip int float bool rune str".split()] + ["txt_mbs"])
oracle("decode", "random byte strings of up to 40 bytes, valid and not, reference UTF-8 decoding vs the real one")
oracle("parse", "random token sequences of up to about 150 tokens, well formed and not, reference parser vs the real one")
prop("C17", standins=["o_decode"], units=["str_" + x for x in "frommbs tombs len cmp ncmp chr ncpy dup rstr".split()] + ["txt_string", "txt_mbs"])
for u, fn, rep in (("RHS", "parse_expr_rhs", ["parse_expr_up_to", "free_expr_node"]), ("SINGLE", "parse_single_expr", ["parse_expr_up_to", "parse_root_expr", "free_expr_node"]), ("PAREN", "parse_paren_expr", ["parse_expr_up_to", "free_expr_node"]),
                   ("ROOT", "parse_root_expr", ["parse_paren_expr", "parse_func_call", "parse_single_token_expr"]), ("LEAF", "parse_single_token_expr", []), ("UPTO", "parse_expr_up_to", ["parse_single_expr", "parse_expr_rhs", "free_expr_node"])):
    sem_unit("exp_" + u.lower(), "parse.c", fn, defs=["UNIT_" + u], replace=rep, functions=[fn] + (["parse_expression"] if u == "PAREN" else []), flags=["--sat-solver", "cadical"] if u == "UPTO" else [])
unit("exp_tables", file="parse.c", defs=["UNIT_TABLES", "union=struct"], dfcc=False, functions=["oper_to_precedence", "token_type_to_binary_expr_type", "get_potential_unary_oper", "is_unary_oper", "is_single_token_expr"])
for u, fn, rep in (("RETURN", "parse_return", ["parse_expression", "push_ast_node"]), ("COND", "parse_condition", ["parse_expression", "push_ast_node"]), ("DEF", "parse_var_def", ["parse_expression", "push_ast_node", "is_explicit_type"]),
                   ("SET", "parse_var_assign", ["parse_expression", "push_ast_node"]), ("IMPORT", "parse_import", ["push_ast_node"]), ("NS", "parse_namespace", ["push_ast_node"]), ("PUSH", "push_ast_node", []),
                   ("EXPL", "is_explicit_type", ["is_potential_type"]), ("CALL", "parse_func_call", ["parse_expression", "push_ast_node", "free_ast_tree"]),
                   ("PROTO", "parse_function_proto", ["parse_function_proto_params", "is_potential_type", "push_ast_node"]), ("BLOCK", "parse_ast_sub_tree_", ["parse_ast_tree_", "free_ast_tree"])):
    sem_unit("stm_" + u.lower(), "stmt.c", fn, defs=["UNIT_" + u], replace=rep, header_subst=FLEX)
unit("stm_ptype", file="stmt.c", defs=["UNIT_PTYPE", "union=struct"], enforce_rec=["is_potential_type"], functions=["is_potential_type"], header_subst=FLEX)
prop("C10", standins=["o_parse"], units=["exp_" + x for x in "tables rhs single paren root leaf upto".split()]
     + ["stm_" + x for x in "return cond def set import ns push expl call proto block ptype".split()])
for u in ("OPER", "IDENT", "REF", "DEREF", "CONST", "CALL"):
    unit("lx_" + u.lower(), file="lexpr.c", defs=["UNIT_" + u, "union=struct"], enforce_rec=["gen_expr"], functions=["gen_expr"] + (["gen_expr_" + x for x in "add sub mult not unary_neg is is_not is_str less_than gtr_than less_than_eq gtr_than_eq lshift rshift and or xor div mod pow math_oper relational_oper logical_oper".split()]
         + ["create_and_call_builtin_oper", "expr_type_to_func", "type_to_llvm_func_type"] if u == "OPER" else []), replace=["type_to_llvm_type"], unwind=13)
unit("lx_type", file="lexpr.c", defs=["UNIT_TYPE", "union=struct"], enforce_rec=["type_to_llvm_type"], functions=["type_to_llvm_type"])
for u, fns in (("WHILE", ["gen_control_while"]), ("NAMESPACE", ["gen_control_namespace"]), ("RETURN", ["gen_stmt_return"]),
               ("JUMPS", ["gen_stmt_break", "gen_stmt_continue", "gen_stmt_unreachable", "gen_stmt_implicit_main_return", "gen_stmt_noop"])):
    unit("lf_" + u.lower(), file="lflow.c", defs=["UNIT_" + u, "union=struct"], enforce=fns, functions=fns + (["gen_control_code_block"] if u in ("WHILE", "NAMESPACE") else []))
unit("lf_if", file="lflow.c", defs=["UNIT_IF", "union=struct"], enforce_rec=["gen_control_if_"], functions=["gen_control_if_", "gen_control_code_block"])
unit("lf_tree", file="lflow.c", defs=["UNIT_TREE", "union=struct"], enforce=["gen_tree"], replace=["gen_node"], functions=["gen_tree"])
unit("lf_dispatch", file="lflow.c", defs=["UNIT_DISPATCH", "union=struct"], enforce=["gen_node"], functions=["gen_node"])
unit("lf_module", file="lflow.c", defs=["UNIT_MODULE", "union=struct"], enforce=["gen_module"], replace=["gen_tree"], functions=["gen_module"])
unit("lf_iftop", file="lflow.c", defs=["UNIT_IFTOP", "union=struct"], enforce=["gen_control_if"], replace=["gen_control_if_"], functions=["gen_control_if"])
for u, fn, rep in (("CALL", "gen_expr_func_call", ["gen_expr"]), ("ADD", "add_func", []), ("DEF", "gen_function_def", []), ("DECL", "gen_stmt_func_decl", ["add_func", "gen_function_def"])):
    unit("lfn_" + u.lower(), file="lfunc.c", defs=["UNIT_" + u, "union=struct"], enforce=[fn], replace=rep, functions=[fn] + (["parse_func_param"] if u == "ADD" else []))
unit("la_def", file="lassign.c", defs=["UNIT_DEF", "union=struct"], enforce=["gen_stmt_var_def"], replace=["type_to_llvm_type"], functions=["gen_stmt_var_def", "setup_var_llvm", "assign_value_to_var"])
unit("la_set", file="lassign.c", defs=["UNIT_SET", "union=struct"], enforce=["gen_stmt_var_assign"], functions=["gen_stmt_var_assign"])
unit("la_alloca", file="lassign.c", defs=["UNIT_ALLOCA", "union=struct"], enforce=["build_alloca"], functions=["build_alloca"])

unit("cx_oper", file="cgen.c", defs=["UNIT_OPER", "union=struct"], dfcc=False, functions=["gen_expr_c", "gen_expr_binary_c", "gen_expr_unary_c"], unwind=32, object_bits=12)
unit("cx_leaf", file="cgen.c", defs=["UNIT_LEAF", "union=struct"], dfcc=False, functions=["gen_expr_c", "gen_expr_const_c"], unwind=32, object_bits=12)
unit("cx_str", file="cgen.c", defs=["UNIT_STR", "union=struct"], enforce=["gen_str_literal_c"], functions=["gen_str_literal_c"])
unit("cx_call", file="cgen.c", defs=["UNIT_CALL", "union=struct"], enforce=["gen_expr_func_call_c"], replace=["gen_expr_c"], functions=["gen_expr_func_call_c"], unwind=24)
unit("cs_stmt", file="cstmt.c", defs=["UNIT_STMT", "union=struct"], dfcc=False, functions=["gen_stmt_return_c", "gen_stmt_break_c", "gen_stmt_continue_c", "gen_control_if_c", "gen_control_elif_c", "gen_control_else_c", "gen_control_while_c", "gen_control_namespace_c", "gen_control_block_c", "gen_stmt_var_assign_c", "gen_stmt_var_def_c", "gen_stmt_global_var", "gen_stmt_stack_var", "gen_stmt_constexpt_global_var"], unwind=64, object_bits=12)
unit("cs_tree", file="cstmt.c", defs=["UNIT_TREE", "union=struct"], enforce=["gen_tree_c"], replace=["gen_node_c"], functions=["gen_tree_c"], unwind=24)
unit("cs_node", file="cstmt.c", defs=["UNIT_NODE", "union=struct"], dfcc=False, functions=["gen_node_c", "apply_indentation"], unwind=24)
for x in ("0", "1"):
    for y in ("0", "1"):
        unit("cs_proto_%s%s" % (x, y), file="cstmt.c", defs=["UNIT_PROTO", "union=struct", "IS_EXPORT=" + x, "IS_EXTERNAL=" + y], enforce=["gen_function_prototype_c"], replace=["gen_param_c"], functions=["gen_function_prototype_c"], unwind=24, timeout=500, cost=5)
for u, fn in (("MANGLE", "mangle_name"), ("MAIN", "create_main_func_name"), ("FILE", "gen_filename"), ("NEW", "get_new_filename")):
    unit("nm_" + u.lower(), file="names.c", defs=["UNIT_" + u], dfcc=False, functions=[fn])
oracle("exec_expr", "random well-formed programs of expressions, variables and calls, compiled and run, output vs a reference interpreter")
oracle("exec_flow", "random well-formed programs of statements, blocks, loops and functions, compiled and run, output vs a reference interpreter")
oracle("exec_c_all", "random well-formed programs through the C back end and gcc, output vs a reference interpreter")
oracle("link", "random modules compiled by both back ends, their symbols, and their exports and externals linked with C code")
for n in ("exec_expr", "exec_flow", "exec_c_all", "link"):
    BOUNDED[n and "o_" + n]["quick_secs"] = 45
prop("C11", standins=["o_exec_expr"], units=["lx_" + x for x in "oper ident ref deref const call type".split()] + ["lfn_call", "la_def", "la_set"])
prop("C20", standins=["o_exec_flow"], units=["lf_" + x for x in "while namespace return jumps if iftop tree dispatch module".split()] + ["lfn_def", "lfn_decl", "la_alloca"])
prop("C21", standins=["o_link"], units=["lfn_add", "la_def", "nm_mangle", "nm_main"])
prop("C12", standins=["o_exec_c_all"], units=["cx_oper", "cx_leaf", "cx_str", "cx_call", "cs_stmt", "cs_tree", "cs_node", "cs_proto_00", "cs_proto_01", "cs_proto_10", "cs_proto_11"])
unit("cli_args", file="cli.c", defs=["UNIT_ARGS"], enforce_rec=["handle_args"], replace=["squash_argv"], functions=["handle_args", "set_bool_flag", "check_duplicate_flag", "parse_long_option", "bail", "cleanup"], unwind=22)
unit("cli_squash", file="cli.c", defs=["UNIT_SQUASH"], enforce=["squash_argv"], functions=["squash_argv"], unwind=10)
unit("cli_valid", file="cli.c", defs=["UNIT_VALID"], dfcc=False, functions=["build_data_valid"], unwind=3)
unit("cli_main", file="cli.c", defs=["UNIT_MAIN"], enforce=["skull_main"], replace=["handle_args", "build_data_valid"], functions=["main"], unwind=22)
for u, fns in (("PIPE", ["run_pipeline"]), ("COMPILE", ["compile_file"]), ("BACKEND", ["run_backend"]), ("CWRITE", ["write_file_c", "print_headers", "print_builtins", "print_globals", "print_main_shim"])):
    unit("dr_" + u.lower(), file="driver.c", defs=["UNIT_" + u], dfcc=False, functions=fns, unwind=8)
unit("dr_files", file="driver.c", defs=["UNIT_FILES"], enforce=["real_main"], replace=["compile_file"], functions=["real_main"], unwind=10)
unit("dr_lwrite", file="lwrite.c", defs=["union=struct"], dfcc=False, functions=["write_llvm", "verify_llvm", "optimize_llvm", "emit_stage_1", "output_llvm_ir", "emit_native_binary", "get_binary_name", "check_directory", "sh", "shell", "setup_llvm_target_machine", "add_start_shim", "llvm_insert_builtins", "will_build_binary"], unwind=12, object_bits=10)
for u, fn in (("READ", "file_to_string"), ("OPEN", "open_file"), ("ISDIR", "is_directory")):
    unit("io_" + u.lower(), file="io.c", defs=["UNIT_" + u], dfcc=False, functions=[fn])
oracle("cli", "random command lines over good, warned-about, wrong, empty and missing programs in a scratch directory: exit status, files, their kinds and what the programs do, messages")
BOUNDED["o_cli"]["quick_secs"] = 30
prop("C13", standins=["o_cli"], units=["cli_args", "cli_squash", "cli_valid", "cli_main"])
prop("C14", standins=["o_cli"], units=["dr_files", "dr_compile", "dr_pipe", "dr_backend", "dr_cwrite", "dr_lwrite", "io_read", "io_open"])
prop("C15", standins=["o_cli"], units=["nm_file", "nm_new", "dr_lwrite", "dr_cwrite", "io_isdir", "io_open"])
