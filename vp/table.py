"""Which analysis roots decide which property."""

PRIMS = ["i64", "i32", "i16", "i8", "u64", "u32", "u16", "u8", "bool", "f64", "f32"]
RECORDS = ["class", "enum", "function", "field", "type", "local", "param", "source_file", "source_ref", "property"]
FLAGS = ["visibility", "field_flags", "local_flags", "param_flags", "class_flags", "function_flags"]
UNIT = {
    "cond": "redscript_decompiler::Decompiler::<'a>::consume_conditional_jump",
    "switch": "redscript_decompiler::Decompiler::<'a>::consume_switch",
    "with": "redscript_decompiler::Decompiler::<'a>::consume_with",
    "path": "redscript_decompiler::Decompiler::<'a>::consume_path",
    "expr": "redscript_decompiler::print::write_expr_nested",
    "body": "redscript_decompiler::print::write_function_body",
    "type": "redscript_decompiler::print::format_type",
}


def dec(xs):
    return ["dec_" + x for x in xs]


def enc(xs):
    return ["enc_" + x for x in xs]


TABLE = {
    "C01": dict(roots=dec(RECORDS + ["def_type"]) + ["dec_any_def"]),
    "C02": dict(roots=enc(RECORDS + ["def_type"]) + ["enc_any_def", "any_def_type"]),
    "C03": dict(roots=enc(PRIMS + FLAGS + ["pool_index", "bytes4", "timestamp"]) + dec(PRIMS + FLAGS + ["pool_index", "bytes4", "timestamp"]) + ["dec_string", "enc_str"]),
    "C04": dict(roots=["dec_instr", "enc_instr", "dec_offset", "enc_offset", "dec_breakpoint", "enc_breakpoint", "dec_profiling", "enc_profiling"]),
    "C05": dict(roots=["instr_size", "instr_size_label", "dec_code", "enc_code", "code_new", "code_len", "code_is_empty", "code_as_ref", "code_as_mut", "code_empty"]),
    "C06": dict(roots=dec(RECORDS + PRIMS + FLAGS + ["def_type", "instr", "code", "offset", "breakpoint", "profiling", "header", "def_header", "timestamp", "string", "pool_index", "bytes4", "any_def"]) + ["pool_decode", "load"], mode="panics"),
    "C07": dict(roots=["resolve_labels", "loc_relative", "loc_new", "off_absolute", "off_new", "loc_consts"]),
    "C08": dict(roots=["save", "pool_encode", "enc_header", "enc_def_header", "enc_timestamp"]),
    "C09": dict(roots=["load", "pool_decode", "dec_header", "dec_def_header", "dec_timestamp"]),
    "C10": dict(roots=dec(RECORDS + PRIMS + FLAGS + ["def_type", "instr", "code", "offset", "breakpoint", "profiling", "header", "def_header", "timestamp", "string", "pool_index", "bytes4", "any_def"])
                + enc(RECORDS + PRIMS + FLAGS + ["def_type", "instr", "code", "offset", "breakpoint", "profiling", "header", "def_header", "timestamp", "str", "pool_index", "bytes4", "any_def"])
                + ["pool_decode", "load", "pool_encode", "save", "print_definition", UNIT["expr"], UNIT["body"]], mode="io"),
    "C11": dict(roots=["pool_function", "pool_function_mut", "pool_field", "pool_field_mut", "pool_parameter", "pool_local", "pool_type", "pool_class", "pool_class_mut", "pool_enum", "pool_enum_value", "pool_definition", "pool_def_name", "pool_definitions", "pool_roots"]),
    "C12": dict(roots=["pool_reserve", "pool_put", "pool_swap", "pool_add", "pool_stub", "pool_rename"]),
    "C13": dict(roots=["names_get", "names_get_ref", "names_get_index", "names_add", "strs_get", "strs_get_ref", "strs_get_index", "strs_add", "tdb_get", "tdb_add", "res_get", "res_add", "strs_default"]),
    "C14": dict(roots=["map_pool", "map_apply", "map_noop", "map_build"]),
    "C15": dict(roots=["code_cursor", "code_iter", "cursor_pop", "cursor_peek", "cursor_pos", "cursor_range", "cursor_seek_abs", "cursor_seek_rel", "iter_next"]),
    "C16": dict(roots=[UNIT["with"]]),
    "C17": dict(roots=["decompiled", UNIT["path"], UNIT["cond"], UNIT["switch"]]),
    "C18": dict(roots=[UNIT["expr"]]),
    "C19": dict(roots=["print_definition", UNIT["body"], UNIT["type"]]),
    "C20": dict(roots=["tn_new", "tn_name", "tn_arguments", "tn_kind", "tn_mangled", "tn_pretty", "tn_repr", "tn_from_repr", "tn_consts", "tn_eq"]),
    "C21": dict(roots=["expr_is_empty", "expr_span", "span_merge", "span_contains", "span_compare", "pos_new", "pos_add", "pos_sub", "pos_into", "span_zero"]),
    "C22": dict(roots=["file_index", "file_entries"]),
    "C23": dict(roots=["def_source", "def_first_line", "def_local", "def_param", "def_class", "def_type", "def_function", "def_field", "def_enum", "def_enum_value", "def_source_file", "source_ref_default", "def_default"]),
    "C24": dict(roots=["intrinsic_args", "intrinsic_name", "intrinsic_parse", "binop_name", "unop_name", "binop_parse", "unop_parse", "binop_precedence", "binop_associative", "binop_does_associate"]),
    "C25": dict(roots=["idx_new", "idx_is_undefined", "idx_cast", "idx_eq", "idx_cmp", "idx_into", "idx_hash", "idx_clone", "idx_consts"]),
    "C28": dict(roots=["text_"+x for x in ['timestamp', 'location', 'pos', 'index', 'visibility', 'type_name', 'pool_error', 'cursor_error', 'decompile_error']] + ["error_from_pool", "error_from_cursor", "error_from_io", "error_from_fmt"]),
    "C29": dict(roots=["stream_new", "stream_seekable", "stream_offset", "stream_inner", "stream_read", "stream_write", "stream_flush"]),
    "C30": dict(roots=['flags_field_get', 'flags_field_with', 'flags_field_new', 'flags_local_get', 'flags_local_with', 'flags_local_new', 'flags_parameter_get', 'flags_parameter_with', 'flags_parameter_new', 'flags_class_get', 'flags_class_with', 'flags_class_new', 'flags_function_get', 'flags_function_with', 'flags_function_new', 'timestamp_get', 'visibility_cmp', 'visibility_eq']),
    "C31": dict(roots=["file_index", "file_entries", "def_source", "def_first_line", "map_pool", "decompiled", "print_definition", UNIT["with"], UNIT["path"], UNIT["cond"], UNIT["switch"], UNIT["expr"], UNIT["body"], UNIT["type"]], mode="panics"),
    "C26": dict(roots=["opts_fix_args"], harness="optsharness"),
    "C27": dict(roots=["opts_parser", "opts_load", "opts_defaults"], harness="optsharness"),
}
