/* Loop contracts that a unit does not define are empty: the loop is then
 * unwound, and reported as undecided if it cannot be. */
#define VP_NOLOOP(...)
#ifndef LOOP_CONTRACT_hash
#define LOOP_CONTRACT_hash(...)
#endif
#ifndef LOOP_CONTRACT_bucket
#define LOOP_CONTRACT_bucket(...)
#endif
#ifndef LOOP_CONTRACT_call_params
#define LOOP_CONTRACT_call_params(...)
#endif
#ifndef LOOP_CONTRACT_dead_code
#define LOOP_CONTRACT_dead_code(...)
#endif
#ifndef LOOP_CONTRACT_terminal_node
#define LOOP_CONTRACT_terminal_node(...)
#endif
#ifndef LOOP_CONTRACT_func_params
#define LOOP_CONTRACT_func_params(...)
#endif
#ifndef LOOP_CONTRACT_statements
#define LOOP_CONTRACT_statements(...)
#endif
#ifndef LOOP_CONTRACT_unused
#define LOOP_CONTRACT_unused(...)
#endif
#ifndef LOOP_CONTRACT_scope_head
#define LOOP_CONTRACT_scope_head(...)
#endif
#ifndef LOOP_CONTRACT_scope_tail
#define LOOP_CONTRACT_scope_tail(...)
#endif
#ifndef LOOP_CONTRACT_tokenize
#define LOOP_CONTRACT_tokenize(...)
#endif
#ifndef LOOP_CONTRACT_comment
#define LOOP_CONTRACT_comment(...)
#endif
#ifndef LOOP_CONTRACT_quote
#define LOOP_CONTRACT_quote(...)
#endif
#ifndef LOOP_CONTRACT_c32sncpy
#define LOOP_CONTRACT_c32sncpy(...)
#endif
#ifndef LOOP_CONTRACT_c32stombs
#define LOOP_CONTRACT_c32stombs(...)
#endif
#ifndef LOOP_CONTRACT_c32slen
#define LOOP_CONTRACT_c32slen(...)
#endif
#ifndef LOOP_CONTRACT_mbstoc32s
#define LOOP_CONTRACT_mbstoc32s(...)
#endif
#ifndef LOOP_CONTRACT_c32scmp
#define LOOP_CONTRACT_c32scmp(...)
#endif
#ifndef LOOP_CONTRACT_c32sncmp
#define LOOP_CONTRACT_c32sncmp(...)
#endif
#ifndef LOOP_CONTRACT_strrstr
#define LOOP_CONTRACT_strrstr(...)
#endif
#ifndef LOOP_CONTRACT_c32schr
#define LOOP_CONTRACT_c32schr(...)
#endif
#ifndef LOOP_CONTRACT_classify
#define LOOP_CONTRACT_classify(...)
#endif
#ifndef LOOP_CONTRACT_digits
#define LOOP_CONTRACT_digits(...)
#endif
#ifndef LOOP_CONTRACT_fraction
#define LOOP_CONTRACT_fraction(...)
#endif
#ifndef LOOP_CONTRACT_whole
#define LOOP_CONTRACT_whole(...)
#endif
#ifndef LOOP_CONTRACT_identifier
#define LOOP_CONTRACT_identifier(...)
#endif
#ifndef LOOP_CONTRACT_eval_str
#define LOOP_CONTRACT_eval_str(...)
#endif
#ifndef LOOP_CONTRACT_operators
#define LOOP_CONTRACT_operators(...)
#endif
#ifndef LOOP_CONTRACT_arguments
#define LOOP_CONTRACT_arguments(...)
#endif
#ifndef LOOP_CONTRACT_params
#define LOOP_CONTRACT_params(...)
#endif
#ifndef LOOP_CONTRACT_statements
#define LOOP_CONTRACT_statements(...)
#endif
#ifndef LOOP_CONTRACT_param_types
#define LOOP_CONTRACT_param_types(...)
#endif
#ifndef LOOP_CONTRACT_call_args
#define LOOP_CONTRACT_call_args(...)
#endif
#ifndef LOOP_CONTRACT_def_params
#define LOOP_CONTRACT_def_params(...)
#endif
#ifndef LOOP_CONTRACT_if_comments
#define LOOP_CONTRACT_if_comments(...)
#endif
#ifndef LOOP_CONTRACT_gen_statements
#define LOOP_CONTRACT_gen_statements(...)
#endif
#ifndef LOOP_CONTRACT_gen_statements_c
#define LOOP_CONTRACT_gen_statements_c(...)
#endif
#ifndef LOOP_CONTRACT_proto_params_c
#define LOOP_CONTRACT_proto_params_c(...)
#endif
#ifndef LOOP_CONTRACT_call_args_c
#define LOOP_CONTRACT_call_args_c(...)
#endif
#ifndef LOOP_CONTRACT_str_literal_c
#define LOOP_CONTRACT_str_literal_c(...)
#endif
#ifndef LOOP_CONTRACT_files
#define LOOP_CONTRACT_files(...)
#endif
#ifndef LOOP_CONTRACT_squash_len
#define LOOP_CONTRACT_squash_len(...)
#endif
#ifndef LOOP_CONTRACT_squash
#define LOOP_CONTRACT_squash(...)
#endif
