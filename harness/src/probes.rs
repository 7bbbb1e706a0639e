//! What each option does, shown once: (option, value, other options, text, what comes out without it, what comes out with it).

pub const PROBES: &[(&str, &str, &[(&str, &str)], &str, &str, &str)] = &[
    ("replace_zero_spaces_with_hint", "true", &[], "a={1,2}", "a={1,2}", "a = {1, 2}"),
    ("hint_after_multiline_comment", "  ", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true")], "a=--[[c]]b", "a =--[[c]]b", "a =--[[c]]  b"),
    ("hint_after_multiline_comment_text", " ", &[], "a=--[[c]]b", "a=--[[c]]b", "a=--[[c ]]b"),
    ("hint_before_comment", "   ", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true")], "a=1--c\n", "a = 1--c\n", "a = 1   --c\n"),
    ("hint_before_multiline_comment_text", "  ", &[], "a=--[[c]]b", "a=--[[c]]b", "a=--[[  c]]b"),
    ("hint_before_oneline_comment_text", "  ", &[], "a=1--c\n", "a=1--c\n", "a=1--  c\n"),
    ("hint_table_constructor", " ", &[("replace_zero_spaces_with_hint", "true")], "a={1,2}", "a = {1, 2}", "a = { 1, 2 }"),
    ("remove_comments", "true", &[("replace_zero_spaces_with_hint", "true")], "a=1 --c\nb=--[[d]]2", "a = 1 --c\nb =--[[d]]2", "a = 1 \nb = 2"),
    ("remove_single_newlines", "true", &[("replace_zero_spaces_with_hint", "true")], "a\n=\n\n1", "a\n=\n\n1", "a =\n\n1"),
    ("remove_all_newlines", "true", &[("replace_zero_spaces_with_hint", "true")], "a\n=\n\n1", "a\n=\n\n1", "a = 1"),
    ("remove_spaces_between_tokens", "true", &[("replace_zero_spaces_with_hint", "true")], "a   =   1\n  b   =  2", "a   =   1\n  b   =  2", "a = 1\nb = 2"),
    ("write_newline_at_eof", "true", &[], "a=1", "a=1", "a=1\n"),
    ("write_newline_at_multiline_table", "true", &[], "a={1,2}", "a={1,2}", "a=\n{1,2}"),
    ("write_newline_at_explist_multiline_table", "true", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true"), ("write_newline_at_multiline_table", "false"), ("newline_format_exp_list", "2")], "f(a,{1,2})", "f(a, {1, 2})", "f(a,\n{1, 2})"),
    ("indentation_string", "\t", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true"), ("newline_format_function", "1")], "local function f() g() end", "local function f()\ng()\nend", "local function f()\n\tg()\nend"),
    ("indent_var_suffix", "true", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true"), ("indentation_string", "  "), ("newline_format_var_suffix", "1")], "a.b:c()", "a\n.b\n:c()", "a\n  .b\n  :c()"),
    ("indent_one_line_var_suffix", "true", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true"), ("indentation_string", "  "), ("indent_var_suffix", "true"), ("newline_format_function", "1")], "a(function() b() end)", "a(function()\n  b()\nend)", "a(function()\n    b()\n  end)"),
    ("indent_exp_list", "true", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true"), ("indentation_string", "  "), ("newline_format_exp_list", "1"), ("newline_format_exp_list_first", "1")], "f(a,b)", "f(\na,\nb)", "f(\n  a,\n  b)"),
    ("indent_one_line_exp_list", "true", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true"), ("indentation_string", "  "), ("indent_exp_list", "true"), ("newline_format_function", "1")], "a=function() b() end", "a = function()\n  b()\nend", "a = function()\n    b()\n  end"),
    ("newline_format_first_oneline_comment", "1", &[("replace_zero_spaces_with_hint", "true")], "a=1 --c\nb=2", "a = 1 --c\nb = 2", "a = 1\n--c\nb = 2"),
    ("newline_format_first_multiline_comment", "1", &[("replace_zero_spaces_with_hint", "true")], "a=1 --[[c]] b=2", "a = 1 --[[c]] b = 2", "a = 1\n--[[c]] b = 2"),
    ("newline_format_oneline_comment", "1", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true")], "a=1 --[[x]] --c\nb=2", "a = 1--[[x]]--c\nb = 2", "a = 1--[[x]]\n--c\nb = 2"),
    ("newline_format_multiline_comment", "1", &[("replace_zero_spaces_with_hint", "true"), ("remove_all_newlines", "true"), ("remove_spaces_between_tokens", "true")], "a=1 --[[x]] --[[c]]\nb=2", "a = 1--[[x]]--[[c]]b = 2", "a = 1--[[x]]\n--[[c]]b = 2"),
    ("newline_format_statement", "1", &[], "a=1 b=2", "a=1 b=2", "a=1\nb=2"),
    ("newline_format_do_end", "1", &[], "do a() end", "do a() end", "do\na()\nend"),
    ("newline_format_for", "1", &[], "for i in x do a() end", "for i in x do a() end", "for i in x do\na()\nend"),
    ("newline_format_function", "1", &[], "function f() a() end", "function f() a() end", "function f()\na()\nend"),
    ("newline_format_if", "1", &[], "if x then a() end", "if x then a() end", "if x then\na()\nend"),
    ("newline_format_repeat_until", "1", &[], "repeat a() until x", "repeat a() until x", "repeat\na()\nuntil x"),
    ("newline_format_table_constructor", "1", &[], "a={1,2}", "a={1,2}", "a={1,2\n}"),
    ("newline_format_table_field", "1", &[], "a={1,2}", "a={1,2}", "a={\n1,\n2}"),
    ("newline_format_while", "1", &[], "while x do a() end", "while x do a() end", "while x do\na()\nend"),
    ("newline_format_binary_op", "1", &[], "a=b+c", "a=b+c", "a=b\n+c"),
    ("newline_format_binary_op", "2", &[], "a=b+c", "a=b+c", "a=b+\nc"),
    ("newline_format_var_suffix", "1", &[], "x=a.b:c()", "x=a.b:c()", "x=a\n.b\n:c()"),
    ("newline_format_exp_list", "1", &[], "f(a,b)", "f(a,b)", "f(a,\nb)"),
    ("newline_format_exp_list_first", "1", &[], "f(a,b)", "f(a,b)", "f(\na,b)"),
    ("field_separator", ";", &[], "a={1,2}", "a={1,2}", "a={1;2}"),
    ("write_trailing_field_separator", "true", &[("field_separator", ",")], "a={1,2}", "a={1,2}", "a={1,2,}"),
    ("convert_charstring_to_normalstring", "true", &[], "a='b'", "a='b'", "a=\"b\""),
    ("max_width", "12", &[("newline_format_table_field", "1"), ("newline_format_table_constructor", "1"), ("force_single_line_table", "true")], "a={1,2} abcdef={1,2,3}", "a={\n1,\n2\n} abcdef={\n1,\n2,\n3\n}", "a={1,2} abcdef={\n1,\n2,\n3\n}"),
    ("force_single_line_binary_op", "true", &[("max_width", "40"), ("newline_format_binary_op", "1")], "a=b+c", "a=b\n+c", "a=b+c"),
    ("force_single_line_table", "true", &[("max_width", "40"), ("newline_format_table_constructor", "1"), ("newline_format_table_field", "1")], "a={1,2}", "a={\n1,\n2\n}", "a={1,2}"),
    ("force_single_line_iv_table_field", "true", &[("max_width", "40"), ("newline_format_table_field", "1")], "a={1,2}", "a={\n1,\n2}", "a={1,2}"),
    ("force_single_line_kv_table_field", "true", &[("max_width", "40"), ("newline_format_table_field", "1")], "a={x=1,y=2}", "a={\nx=1,\ny=2}", "a={x=1,y=2}"),
    ("force_single_line_if", "true", &[("max_width", "40"), ("newline_format_if", "1")], "if x then a() end", "if x then\na()\nend", "if x then a() end"),
    ("force_single_line_top_level_function", "true", &[("max_width", "40"), ("newline_format_function", "1")], "function f() a() end", "function f()\na()\nend", "function f() a() end"),
    ("force_single_line_scoped_function", "true", &[("max_width", "40"), ("newline_format_function", "1")], "function f() return function() end end", "function f()\nreturn function()\nend\nend", "function f()\nreturn function() end\nend"),
    ("force_single_line_var_suffix", "true", &[("max_width", "40"), ("newline_format_var_suffix", "1")], "x=a.b:c()", "x=a\n.b\n:c()", "x=a.b:c()"),
    ("force_single_line_exp_list", "true", &[("max_width", "40"), ("newline_format_exp_list", "1")], "f(a,b)", "f(a,\nb)", "f(a,b)"),
];
