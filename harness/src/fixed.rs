//! Hand-written cases that every run looks at first.
use crate::cfgs::{self, set, Cfg};
use crate::props::Case;

const SNIPPETS: &[&str] = &[
    "",
    "\n",
    ";",
    "return",
    "return;",
    "-- only a comment",
    "--[[ only ]] --[==[ long\n ones ]==]\n",
    "#!/usr/bin/lua\nprint(1)\n",
    "local a = [[\\]] print(a)\n",
    "local a = [==[ ]] ]=] \\]==] --[=[ c\\]=]\nreturn a\n",
    "x = 1e+5 y = 1E+10 z = 0X1F w = 0x1p-4 v = 0xA0P+3 u = 3e-2\n",
    "t = { 1, 2; a = 3, [\"b\"] = 4, f(), }\nu = { }\nv = {}\nw = { { }, { { } } }\n",
    "t = { [ [[k]] ] = 1, [ [==[k]==] ] = 2 }\nx = a[ [[k]] ]\n",
    "a = - -- c\nb\nc = x - -- d\ny\n",
    "a = #-b b = not not c d = -#e f = ~(-g) h = 2^-3 i = not -x^2 j = -(-k)\n",
    "a = \"x\\\"y\" b = 'x\"y' c = 'it\\'s' d = '\\\\\"' e = '\\z  \"' f = \"'\"\n",
    "f'a' f\"b\" f[[c]] f{1} f(1) f() o:m'a' o:m{1} o:m() o.x.y:z(1)(2)[3] = 4\n",
    "(f or g)(1); (a).b = 2; (a.b):c(1).d = 3\n",
    "local a, b, c = 1, 2, ...\nlocal d\na, b.c, d[1] = b, a\n",
    "if a then b() end\nif a then b() else c() end\nif a then elseif b then c() elseif d then else e() end\nif a then else end\n",
    "for i = 1, 2 do end for i = 1, 2, 3 do print(i) end for k, v in pairs(t) do break end\n",
    "while true do x() end repeat y() until z repeat until true do end do ::l:: goto l end\n",
    "function f() end function a.b.c:d(x, ...) return x, ... end local function g(a, b) end\n",
    "local f = function() return function(a) return a end end\n",
    "f(function() x() end, { a = function() y() end })\n",
    "x = a + b * c - d / e // f % g .. h .. i == j ~= k and l or m < n > o <= p >= q | r & s ~ t << u >> v ^ w\n",
    "x = a.b.c.d.e.f.g:h():i():j()\n",
    "very_long_function_name(argument_number_one, argument_number_two, argument_number_three, argument_number_four, argument_five)\n",
    "local some_table = { first_field = 1, second_field = \"two\", third_field = { 3, 3, 3 }, fourth_field = function() return 4 end }\n",
    "x = \"a rather long string literal to be joined\" .. \"with another one of about the same length\" .. variable .. another\n",
    "if some_condition and another_condition or yet_another_condition and the_last_condition_of_this_line then do_something() end\n",
    "a = 1 -- one\nb = 2 --[[ two ]] c = 3\n--- three\n-- [[ not long\n--[ x\n--[==[ y ]==] d = 4\n",
    "f( -- c1\n  a, -- c2\n  b -- c3\n) -- c4\n",
    "t = { -- c1\n  1, -- c2\n  2 -- c3\n  -- c4\n}\n",
    "if a --[[1]] then --[[2]] b() --[[3]] else --[[4]] c() --[[5]] end --[[6]]\n",
    "function --[[1]] f --[[2]] ( --[[3]] a --[[4]] , --[[5]] b --[[6]] ) --[[7]] x() --[[8]] end\n",
    "a = {\n\n  1,\n\n  2,\n}\n\n\n\nb = 1\n",
    "a  =  1\r\nb\t=\t2\r\n\r\nc=3\r\n",
    "s = \"привет\" -- комментарий\nt = '日本' --[[ 🙂 ]] x = s\n",
    "a = 1;;; b = 2; ;c = 3\n",
    "a = b\n;(c)()\n",
    "local t = setmetatable({}, { __index = function(t, k) return k end })\nreturn t\n",
    "a = 1\n--[",
    "a = 1 --",
    "a = \"\\\nb\"\n",
    "x = a[b[c[1]]] y = { [1] = { [2] = { [3] = {} } } }\n",
    "goto continue\n::continue::\n::a:: ::b::\n",
    "return {\n  a = 1, b = { 1, 2 },\n  -- c\n}\n",
    "x = function(...) local a = b < c end",
    "x = -1 - -1 y = 1 - (-1)\n",
    "a.b['c'].d[e]:f(g):h { i }.j = k\n",
    "local x = a and b or c\nlocal y = (a and b) or c\nlocal z = not (a and b)\n",
    "return f(a, b), g { c }, (h)\n",
    "return function() end, { }, -x, ...\n",
];

pub fn configs() -> Vec<Cfg> {
    let s = cfgs::shipped();
    let mut v = vec![vec![], s.clone()];
    let mut flat: Cfg = vec![];
    for k in ["replace_zero_spaces_with_hint", "remove_all_newlines", "remove_spaces_between_tokens"] {
        set(&mut flat, k, "true");
    }
    v.push(flat.clone());
    let mut c = flat.clone();
    set(&mut c, "remove_comments", "true");
    v.push(c);
    let mut c = s.clone();
    for w in ["20", "60"] {
        set(&mut c, "max_width", w);
        v.push(c.clone());
    }
    let mut c = s.clone();
    c.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single"));
    v.push(c.clone());
    set(&mut c, "newline_format_exp_list_first", "1");
    set(&mut c, "newline_format_binary_op", "2");
    set(&mut c, "write_newline_at_multiline_table", "true");
    set(&mut c, "field_separator", ";");
    set(&mut c, "indentation_string", "\t");
    v.push(c);
    let mut c = s;
    set(&mut c, "remove_all_newlines", "true");
    set(&mut c, "convert_charstring_to_normalstring", "true");
    set(&mut c, "write_trailing_field_separator", "false");
    for k in ["force_single_line_iv_table_field", "force_single_line_kv_table_field", "force_single_line_top_level_function"] {
        set(&mut c, k, "true");
    }
    v.push(c);
    v
}

/// not Lua, whatever one thinks of it
const BROKEN: &[&str] = &[
    "if", "x =", "x = = 1", "local", "f(", "f)", "x = (1", "x = {1", "x = }", "x = [1]", "end", "do", "while x do", "repeat", "until x", "for i = 1 do end",
    "for i in do end", "if x then", "if x end", "if x then else else end", "function f( end", "function () end", "local function () end", "x = 'abc", "x = \"abc",
    "x = [[abc", "x = [==[abc]=]", "--[[ abc", "--[==[ abc ]]", "x = 1 +", "x = + 1", "x = 1 * * 2", "return return", "return 1 x = 2", "a b", "a.b:c", "x = a:b",
    "goto", "::a", "::a:", "x @ y", "x = $", "x = a ? b : c", "x != y", "x += 1", "x = 1 = 2", "1 = x", "x, = 1", "f(,)", "f(a,)", "{1, 2}", "x = {,}", "x = {1,,2}",
    "local x, = 1", "local 1 = 2", "function f(a,) end", "function a:b:c() end", "function a:b.c() end", "break break = 1", "x = not", "x = #",
    "x = a..", "x = function", "x = function() ", "elseif", "then", "else", "in", "x = \"a\" \"b\"", "x = 1 2", "x.1 = 2", "x. = 1", "x[] = 1", "x[1 = 1", "for a.b in c do end",
];

pub fn cases(id: &str) -> Vec<Case> {
    let mut v = vec![];
    if id == "C16" {
        return crate::cli::probe_cases();
    }
    if id == "C33" {
        return crate::effort::fixed();
    }
    if crate::props::is_cli(id) {
        return v;
    }
    if id == "C06" {
        return totality();
    }
    if id == "C08" || id == "C27" {
        for b in BROKEN {
            for cfg in [vec![], cfgs::shipped()] {
                v.push(Case { src: b.to_string(), cfg: cfg.clone(), aux: vec![] });
                v.push(Case { src: format!("local a = 1\n{}\n", b), cfg, aux: vec![] });
            }
        }
        return v;
    }
    for s in SNIPPETS {
        for mut cfg in configs() {
            let src = s.to_string();
            match id {
                "C04" if !cfg.is_empty() => continue,
                "C05" => {
                    let n = src.matches('\n').count() + 1;
                    for a in 1..=n {
                        for b in a..=n {
                            v.push(Case { src: src.clone(), cfg: cfg.clone(), aux: vec![("a".into(), a.to_string()), ("b".into(), b.to_string())] });
                        }
                    }
                    continue;
                }
                "C12" | "C22" | "C34" | "C35" => {
                    match id {
                        "C34" => set(&mut cfg, "remove_comments", "true"),
                        "C35" => set(&mut cfg, "indentation_string", "    "),
                        _ => {}
                    }
                    if id == "C12" {
                        cfg.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single"));
                    }
                    for k in ["replace_zero_spaces_with_hint", "remove_all_newlines", "remove_spaces_between_tokens"] {
                        set(&mut cfg, k, "true");
                    }
                }
                "C17" => cfg.retain(|(k, _)| k.starts_with("remove") || k == "replace_zero_spaces_with_hint"),
                _ => {}
            }
            let aux = if id == "C35" { vec![("other".to_string(), "\t \t ".to_string())] } else if ["C22", "C31", "C32"].contains(&id) { vec![("seed".to_string(), "1".to_string())] } else { vec![] };
            v.push(Case { src, cfg, aux });
        }
    }
    v
}

/// Sizes and shapes that must stay affordable.
fn totality() -> Vec<Case> {
    let mut v = vec![];
    let mut add = |src: String, cfg: Cfg| v.push(Case { src, cfg, aux: vec![] });
    let flat: Vec<String> = vec![
        "local abc = f(x, y)\n".repeat(3000),
        "if a then b() else c() end\n".repeat(1200),
        format!("t = {{ {} }}\n", "abc, ".repeat(3000)),
        format!("t = {{ {} }}\n", "a = 1, ".repeat(1500)),
        format!("f({}0)\n", "abc, ".repeat(1000)),
        format!("x = {}1\n", "a + ".repeat(150)),
        format!("x = a{}\n", ".b".repeat(400)),
        format!("x = a{}\n", ":b()".repeat(150)),
        "-- comment\n".repeat(3000),
        "--[[ comment ]] ".repeat(1500),
        format!("x = \"{}\"\n", "abc ".repeat(20000)),
        format!("x = [[{}]]\n", "abc\n".repeat(20000)),
        "\n".repeat(50000),
        " ".repeat(100000),
        ";".repeat(3000),
        format!("{}x = 1{}\n", "do ".repeat(30), " end".repeat(30)),
        format!("local {} = 1\n", (0..1000).map(|i| format!("v{}", i)).collect::<Vec<_>>().join(", ")),
        format!("if a then b() {} end\n", "elseif c then d() ".repeat(300)),
    ];
    for s in flat {
        add(s.clone(), vec![]);
        add(s.clone(), cfgs::shipped());
        let mut c = cfgs::shipped();
        set(&mut c, "line_range", "2:3");
        add(s, c);
    }
    // depth, without the options that test for single lines
    for (o, m, c) in [("(", "1", ")"), ("{", "1", "}"), ("f(", "1", ")"), ("function() return ", "1", " end"), ("a[", "1", "]"), ("not ", "1", "")] {
        add(format!("x = {}{}{}\n", o.repeat(80), m, c.repeat(80)), vec![]);
    }
    for (o, c) in [("do ", " end"), ("if a then ", " end"), ("while a do ", " end"), ("repeat ", " until a"), ("for i = 1, 2 do ", " end"), ("function f() ", " end")] {
        add(format!("{}x = 1{}\n", o.repeat(80), c.repeat(80)), vec![]);
    }
    // the smallest of everything, cut everywhere
    for s in SNIPPETS {
        for (k, _) in s.char_indices() {
            add(s[..k].to_string(), cfgs::shipped());
        }
        for cfg in configs() {
            add(s.to_string(), cfg);
        }
    }
    for w in ["18446744073709551615", "9223372036854775808", "4294967296", "0", "1"] {
        let mut c = cfgs::shipped();
        set(&mut c, "max_width", w);
        for s in SNIPPETS {
            add(s.to_string(), c.clone());
        }
    }
    // a hint that ends outside ASCII, where it is put
    for k in ["hint_after_multiline_comment", "hint_before_comment", "hint_table_constructor", "indentation_string"] {
        for base in [vec![], cfgs::shipped()] {
            let mut c: Cfg = base;
            set(&mut c, "replace_zero_spaces_with_hint", "true");
            set(&mut c, k, "é");
            for s in SNIPPETS {
                add(s.to_string(), c.clone());
            }
        }
    }
    // one option at a time
    for (k, kind) in cfgs::OPTIONS.iter() {
        for w in ["", "1", "true", "2", "0", "x", "110", "18446744073709551615", "é"] {
            let mut c: Cfg = vec![];
            set(&mut c, k, w);
            add("a = { f(1, 2), b = c + d }.e --[[ c ]]\nif a then b() end -- d\nreturn function() end\n".to_string(), c.clone());
            if *k != "max_width" {
                set(&mut c, "max_width", "10");
                add("a = { f(1, 2), b = c + d }.e --[[ c ]]\nif a then b() end -- d\nreturn function() end\n".to_string(), c);
            }
        }
        let _ = kind;
    }
    v
}
