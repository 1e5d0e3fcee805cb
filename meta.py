#!/usr/bin/env python3
"""Texts of the properties; writes properties.jsonl and MANIFEST.json."""
import json, os, subprocess
from props import PROPS, UNITS

T = {}
def P(pid, title, statement, over, quant, why, files, mech, note, observe=()):
    assert len(title) <= 80, title
    T[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, note=note, observe=list(observe))

COMMON = ("Trusted: cbmc 6.11 and its C model, malloc succeeding, the assumed contracts listed in the evidence. "
          "Proofs are of partial correctness. The bounded stand-in that runs next to them is labelled bounded.")

P("C01", "Every accepted expression is well typed, and only those are accepted",
  "An expression is accepted exactly if every operator in it is applied to operand types the language allows for it, every name in it denotes a defined variable, every call names a declared function and passes arguments of exactly the declared number and types, and every literal is valid. The type computed for an accepted expression is the type the language gives it, and a rejected expression always produces an error message.",
  ["programs", "inputs"], "all expressions of any size and nesting, over all operators, operand types, names and literals",
  "the tests sample about one program per operator and error code; nothing covers all operator/type combinations or nesting",
  ["skull/semantic/expr.c"], ["validate_expr and the per-operator rules"],
  "Contract on the expression checker, proved for an arbitrary expression node by structural induction. " + COMMON)
P("C02", "Assignments and definitions obey declared types and constness",
  "A definition is accepted exactly if its initialiser is accepted and has exactly the declared (or inferred, non-void) type, and its name is new; an assignment is accepted exactly if its target is an existing mutable variable of exactly the type of the value. A constant is never the target of an accepted assignment, and the variable a definition creates has the declared type and constness.",
  ["programs", "histories"], "all definitions and assignments, with any types, constness and history of earlier definitions",
  "tests assign a few hand-picked types; the guarantee is about every program",
  ["skull/semantic/assign.c", "skull/semantic/variable.c"], ["validate_stmt_var_def", "validate_stmt_var_assign", "make_variable"],
  "Contracts on definition and assignment checking. " + COMMON)
P("C03", "Calls and returns agree with the declared function signature",
  "An accepted function returns a value on its top level exactly if it is declared to return one, every accepted return inside it returns exactly the declared type, and every accepted call passes exactly the declared parameters. External and exported functions are accepted only at the top level, parameters are constants of their declared type visible in the body only, and after a function its enclosing function and loops are current again.",
  ["programs"], "all function declarations with any number and types of parameters, any body, any nesting, and all calls and returns",
  "tests hold one program per error; signatures, nesting and positions of returns are unbounded",
  ["skull/semantic/func.c", "skull/semantic/flow.c", "skull/semantic/expr.c"], ["validate_stmt_func_decl", "validate_stmt_return", "validate_expr"],
  "Contracts on declaration, return and call checking. The declaration unit is bounded to 16 parameters (flexible array), everything else is unbounded. " + COMMON)
P("C04", "Control flow statements are accepted exactly where they are meaningful",
  "An accepted program has an else or elif only after an if or elif, break and continue only inside a loop of the same function, conditions of type Bool only, a block exactly on the statements that take one, and no live statement after return, break, continue or unreachable in the same block. Conversely a program that obeys these rules is not rejected for its control flow, and every statement of every block is checked.",
  ["programs"], "all statement lists of any length and nesting",
  "the number of statement sequences is unbounded; tests cover single examples",
  ["skull/semantic/flow.c", "skull/semantic/entry.c"], ["validate_control_*", "assert_sane_child", "validate_ast_node/tree"],
  "Contracts on every control-flow rule and on the statement walk, unbounded lists by a summary node. " + COMMON)
P("C05", "Names are resolved lexically, and no visible name can be redefined",
  "A name denotes the definition in the innermost enclosing block that precedes its use and is visible there, and nothing defined in a block that has ended; a name with a dot denotes the member of the namespace before the dot. Defining a name that already denotes something visible is rejected with an error, and every definition made stays found, under exactly its name, until its block ends.",
  ["programs", "histories"], "all nestings of blocks, any number of definitions and look-ups, all names (also those that share a table slot)",
  "tests use two or three names in one or two blocks; table collisions and deep nesting are not reached",
  ["skull/semantic/scope.c", "skull/semantic/symbol.c", "skull/common/hashtable.c", "skull/semantic/types.c"], ["scope_find_name", "scope_add_symbol", "make_child_scope/restore_parent_scope", "ht_get/ht_add", "token_to_type"],
  "Contracts on look-up, entry, the nesting of scopes, the hash table and type names. " + COMMON)
P("C06", "Growable arrays keep exactly what was pushed, in order",
  "After any history of operations a growable array holds exactly the elements pushed and not popped, in order, at the index they were pushed at; reading beyond the end yields nothing; freezing yields exactly these elements followed by an end mark. No operation accesses memory outside the array.",
  ["histories"], "all histories of make, push, pop, read, freeze, with any number of elements",
  "growth happens at particular lengths only; tests push a few elements",
  ["skull/common/vector.c"], ["vector_push", "vector_pop", "vector_at", "vector_freeze"],
  "Contracts with a representation invariant for arrays of symbolic length. " + COMMON)
P("C07", "Source text is split into tokens faithfully, with exact positions",
  "The tokens of a text, in order, cover exactly its characters other than white space: nothing is lost, merged, duplicated or split, quoted text and comments are one token each whatever they contain, and every token carries the line and column of its first character. A text with an unclosed quote or comment, a nested comment or a malformed comment start is rejected with an error at that place, and no text makes the tokenizer read outside it.",
  ["inputs"], "all texts of any length over all characters",
  "the behaviour depends on every combination of quotes, escapes, comments and delimiters at any position; tests hold a few dozen texts",
  ["skull/parse/token.c"], ["tokenize", "iter_quote", "iter_comment", "token_add_info"],
  "Contracts on quotes, comments and the step over one lexeme are proved for texts of any length; the composition of steps (tokenize) is proved for up to 3 steps (bounded) and sampled by the stand-in. " + COMMON)
P("C08", "Every token has the class the language gives its spelling",
  "A token is a keyword, operator, Int, Float, Bool, Rune or Str constant, a name, a dotted name, or the name of a new definition exactly if it is spelled like one; a reserved word or the name of a built-in type is never the name of a definition, and anything else has no class (and so is rejected).",
  ["inputs"], "all tokens of any length over all characters",
  "tests list examples of each class; the guarantee is about every spelling, also of any length",
  ["skull/parse/classify.c"], ["classify_token", "is_constant_integer_str", "is_constant_float_str", "is_valid_identifier_str", "is_reserved_str"],
  "Each class is given by a finite automaton (or word list); the real recogniser is proved to accept exactly its language, for texts of up to 2^20 characters, by loop invariants. '0_...' is left open. " + COMMON)
P("C09", "Literals denote exactly the value they spell, or are rejected",
  "An accepted Int literal has the mathematical value of its digits in its base and fits 64 bits, a Float literal is the nearest double to its decimal value and finite unless written as Infinity or NaN, and Rune and Str literals consist of exactly the characters written with every escape replaced by the character it names. A literal out of range or with an unknown or incomplete escape is rejected with an error; no literal silently gets another value.",
  ["inputs"], "all literals, of any base, length, sign, use of underscores and escapes",
  "values at the edges of the range and combinations of escapes are not enumerable by tests",
  ["skull/semantic/types.c", "skull/common/str.c"], ["eval_integer", "eval_float", "eval_rune", "eval_str", "c32sunescape"],
  "Contracts on the evaluation of each kind of literal over assumed contracts of strtoll, strtod and c32rtomb; removal of underscores is bounded (12 characters). " + COMMON)
P("C10", "The tree built for a text is the one the grammar gives it",
  "For every sequence of tokens the parser either rejects it with an error message or builds exactly the tree the grammar gives it: operators bind by their precedence and to the left, parentheses override that, unary operators bind to the operand that follows, every statement, argument, parameter and block appears once, in order, with the tokens it was written with, and no token is dropped or attributed to another construct.",
  ["inputs", "programs"], "all token sequences of any length and nesting",
  "the shape of a tree depends on every combination and nesting of operators and statements; tests check a few dozen",
  ["skull/parse/ast_node.c"], ["parse_expr_up_to", "parse_expr_rhs", "parse_single_expr", "parse_root_expr", "parse_func_call", "parse_ast_tree_"],
  "Contracts on the expression parser (each level against the contracts of the others) and on the parser of each statement; the statement list itself is covered by the stand-in. " + COMMON)
P("C17", "Text is decoded and encoded without loss, or rejected",
  "A source file that is valid UTF-8 is read as exactly the characters it encodes and names and strings come out as the bytes they were written with; a file that is not is rejected with the place of the first bad character. Copying, comparing and searching text take exactly the whole texts into account, and none of it reads or writes outside them.",
  ["inputs"], "all byte strings and all texts, of any length",
  "lengths and byte combinations are unbounded; tests use short ASCII texts",
  ["skull/common/str.c", "skull/parse/token.c"], ["mbstoc32s", "c32stombs", "c32scmp", "c32sncmp", "c32sncpy", "strrstr", "token_to_string"],
  "Contracts for strings of any length, element-wise by a symbolic witness position, over assumed contracts of mbrtoc32/c32rtomb. " + COMMON)
P("C19", "Unused and never-reassigned definitions are reported, --werror rejects them",
  "For every variable definition outside function bodies that is never read and not exported, every mutable one never reassigned, and every function never called, a warning is given, and no such warning is given for any other definition. With --werror such a program is rejected, without it (or with warnings silenced) it is accepted.",
  ["programs", "configurations"], "all statement lists of any length and nesting, with and without --werror and -q",
  "tests check one definition at a time at the top level",
  ["skull/semantic/unused.c"], ["check_unused_symbols"],
  "Contract on the recursive walk; that reads, calls and reassignments are recorded is part of the contracts of C01/C02. " + COMMON)

P("C11", "Expressions, variables and calls compute exactly their value",
  "In a compiled program every expression has exactly the value the language gives it: 64-bit two's complement Int arithmetic with signed division, remainder and comparison, IEEE double Float arithmetic, powers of Int and Float, Str equality by content, references and dereferences, and calls with every argument passed in its position. A variable always reads as the value last given to it (in its function's own activation), at every optimisation level and with debug information on.",
  ["programs", "inputs"], "all accepted expressions of any nesting over all operators, types and operand values, all histories of definitions and assignments",
  "the value of each operator depends on type, sign and range of all operands and on whether they are constants; tests compare the emitted IR of single examples",
  ["skull/codegen/llvm/expr.c", "skull/codegen/llvm/assign.c", "skull/codegen/llvm/func.c"], ["gen_expr and the per-operator generators", "gen_expr_func_call", "gen_stmt_var_def", "gen_stmt_var_assign"],
  "Contracts on the LLVM generator: the LLVM-C builder is interpreted (each instruction computes its value), so that the emitted code is proved to denote the value of the expression, by structural induction. LLVM itself, the shim and the C compiler are trusted (sampled by the stand-in). " + COMMON)
P("C12", "The C back end produces valid C with the meaning of the program",
  "For every accepted program (that uses no name C reserves and no function or variable of another block) the C text is accepted by a C compiler and the program built from it behaves as the language prescribes: each operator, literal, call, statement, block, function and global variable appears exactly once, in order, as the C construct that has its meaning, and every helper that is called is defined.",
  ["programs"], "all accepted programs, expressions of any nesting, strings of any length and content",
  "grouping, escaping and helper use depend on every combination of operators, operands and contexts",
  ["skull/codegen/c/expr.c", "skull/codegen/c/flow.c", "skull/codegen/c/func.c", "skull/codegen/c/assign.c"], ["gen_expr_c", "gen_str_literal_c", "gen_expr_func_call_c", "gen_stmt_*_c", "gen_tree_c", "gen_function_prototype_c"],
  "Contracts on the C generator over texts with a meaning (format strings are read by the stub of uvsnprintf). The C compiler is trusted (sampled by the stand-in). " + COMMON)
P("C13", "The command line is understood exactly or rejected",
  "Every command line is either rejected or understood exactly: an unknown, malformed, duplicated, incomplete or conflicting option, a missing file name, or a name that does not end in .sk is answered with a message on the error stream and status 1, and nothing is compiled; -h, -v and their long forms print to the standard output and end with status 0; otherwise exactly the options that are given are in effect, the last file name and the -o name are used as given, and what follows -- reaches the linker joined by single spaces.",
  ["inputs"], "all argument vectors of any length, all texts, both states of the COLOR variable",
  "the options combine; tests try a few of the pairs that conflict",
  ["skull/cli.c"], ["handle_args", "parse_long_option", "build_data_valid", "squash_argv", "main"],
  "Contract on one step of the argument walk: the meaning of a command line is an uninterpreted function of the rest and of the options so far, and each step must preserve it; exit() is a contract that states when it may be reached and with which status. squash_argv has loop contracts over any number of arguments of any length. " + COMMON)
P("C14", "The exit status tells whether the result was written",
  "The compiler ends with status 0 exactly if every file given was accepted and its result completely written (or was empty, which is a warning): any error in reading, tokens, parsing, semantics, code generation, verification, optimisation, writing or linking gives a non-zero status and a message. A rejected program (with --werror also one that is warned about) never leaves a result. Each phase runs once, only if the one before accepted, on what that one made, and the messages are printed.",
  ["programs", "inputs", "faults"], "all outcomes of every phase and of every file, process and LLVM operation, any number of files",
  "the failures of files, linker and LLVM are not simulated by tests",
  ["skull/pipeline.c", "skull/real_main.c", "skull/codegen/backend.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/common/io.c"], ["run_pipeline", "compile_file", "real_main", "run_backend", "write_llvm", "write_file_c", "file_to_string"],
  "Every phase, LLVM call, process and file operation is a contract with an arbitrary outcome that records its order; the postcondition relates the status to the outcomes. " + COMMON)
P("C15", "The result has the kind and the name that were asked for",
  "-E gives the text of the module (or the C source), -S assembly, -c an object, --c-backend C source, and otherwise an executable that starts the module and exits with its result; the file is the one given with -o, or else the source's name with a dot before its last component and the extension appended, or the standard output for -E and for the name -; the executable is the source's name without .sk, and the intermediate object is removed. Nothing else is written. -O1 to -O3 and -g change none of that.",
  ["inputs", "configurations"], "all file names of any length with any directories, all combinations of options",
  "names with dots and directories, and combinations of options, are only sampled by tests",
  ["skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/codegen/shared.c", "skull/common/io.c"], ["gen_filename", "get_new_filename", "emit_stage_1", "emit_native_binary", "get_binary_name", "write_file_c"],
  "Contracts on the making of names (any length, an arbitrary byte of the result) and on which operation is applied to which name. LLVM and cc are trusted to write what they are asked for (sampled by the stand-in). " + COMMON)
P("C20", "Statements execute in the order and as often as the language prescribes",
  "In a compiled program statements run in order; of an if/elif/else chain exactly the first block whose condition holds runs; while repeats its block as long as the condition holds, break and continue concern the innermost loop, return leaves the function with its value, and what follows each of these runs exactly when control reaches it. The emitted module is always valid, and repeating a loop does not use up the stack.",
  ["programs", "histories"], "all accepted statement lists of any length and nesting, any number of iterations",
  "the edges between blocks depend on every combination of nesting and early exits; tests compare the IR of single examples",
  ["skull/codegen/llvm/flow.c", "skull/codegen/llvm/core.c", "skull/codegen/llvm/func.c"], ["gen_control_while", "gen_control_if_", "gen_control_namespace", "gen_stmt_return/break/continue", "gen_tree", "gen_node", "gen_function_def"],
  "Contracts on each statement generator over a recorded control-flow graph (every block ends exactly once, edges go where the statement says), unbounded statement lists by a summary node. LLVM is trusted (sampled by the stand-in). " + COMMON)
P("C21", "Exported names are linkable as module.name, nothing else is visible",
  "An exported function or constant is one symbol, visible to the linker as the name of its module, a dot, and its own name, with the declared type and value; an external function is referred to by its own name; the code of a module is a function named after the module; every other function and variable is invisible outside its module. The name of a module is that of its file without directory and .sk.",
  ["programs", "inputs"], "all modules, with any exports, externals and file names",
  "tests compare a few modules with one or two names",
  ["skull/semantic/mangle.c", "skull/codegen/abi.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c"], ["mangle_name", "create_main_func_name", "add_func", "setup_var_llvm"],
  "Contracts on the making of names (texts of any length, an arbitrary position as witness) and on how functions and variables are added to the module. " + COMMON)

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(here + "/properties.jsonl", "w") as f:
        for pid in sorted(T):
            t = T[pid]
            f.write(json.dumps(dict(id=pid, title=t["title"], statement=t["statement"],
                                    quantifier=dict(over=t["over"], text=t["quant"]), why_tests_cant=t["why"],
                                    anchors=dict(files=t["files"], mechanism=[dict(name=m, where=t["files"][0]) for m in t["mech"]],
                                                 observe_at=t["observe"], hook_needed=None))) + "\n")
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("hook")]
    man = dict(version=1, setup_cmd="true",
               hooks=dict(guard="SKULL_CONTRACTS",
                          enable="proof units are compiled by goto-cc with -DSKULL_CONTRACTS; without it LOOP_CONTRACT expands to nothing",
                          source_commits=hooks),
               checks=[dict(property=pid, quick_cmd="python3 check.py %s quick" % pid,
                            thorough_cmd="python3 check.py %s thorough" % pid,
                            evidence_file="evidence/%s.json" % pid,
                            technique="contract-based deductive verification (cbmc dfcc code contracts on the real functions)"
                                      + (", bounded stand-in on the real front end" if PROPS[pid].get("standins") else ""),
                            level=PROPS[pid].get("level", "proof"), level_note=T[pid]["note"]) for pid in sorted(PROPS)],
               not_applicable=NA, notes="See DESIGN.md. Generated by meta.py.")
    json.dump(man, open(here + "/MANIFEST.json", "w"), indent=1)

NA = []
if __name__ == "__main__":
    main()
