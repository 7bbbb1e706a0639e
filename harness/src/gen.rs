//! Random Lua 5.3 programs: a token list from the grammar, then rendering with random white space and comments.
use crate::lex;
use crate::rng::Rng;

#[derive(Clone)]
pub struct GenOpts {
    /// rough number of statements at top level
    pub stats: usize,
    /// nesting of blocks/functions
    pub depth: usize,
    /// nesting of expressions
    pub edepth: usize,
    pub long_names: bool,
    pub unicode: bool,
    /// allow string literals that span lines
    pub ml_strings: bool,
    /// weight of tables among expressions (0..=10)
    pub tables: usize,
    pub calls: usize,
    pub shebang: bool,
    /// only numerals and quoted strings that older grammars know
    pub plain_literals: bool,
    /// return statements allowed
    pub returns: bool,
    /// constructs of Lua 5.3 that luafmt is known not to accept
    pub wild: bool,
    /// rare names and numerals, long lists and chains
    pub tails: bool,
}

impl GenOpts {
    pub fn random(r: &mut Rng) -> Self {
        let big = r.chance(1, 6);
        GenOpts {
            stats: if big { r.range(4, 14) } else { r.range(1, 5) },
            depth: r.range(0, 3),
            edepth: r.range(1, 3),
            long_names: r.chance(1, 3),
            unicode: r.chance(1, 3),
            ml_strings: r.chance(1, 3),
            tables: r.range(0, 8),
            calls: r.range(0, 8),
            shebang: r.chance(1, 25),
            plain_literals: r.chance(1, 3),
            returns: r.chance(2, 3),
            wild: false,
            tails: r.chance(2, 3),
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub o: GenOpts,
    pub out: Vec<String>,
    budget: isize,
    /// the last statement was a compound one that ends with `end`
    compound: bool,
}

const NAMES: [&str; 22] = [
    "a", "b", "c", "x", "y", "foo", "bar", "self", "i", "_", "e", "x1", "E5", "p0", "end_", "nilx", "fn", "tbl", "_G", "not_", "A", "or1",
];
const LONG: [&str; 6] = [
    "some_quite_long_variable_name", "anotherLongIdentifierForWidth", "tbl_with_long_name_0123456789", "compute_the_result_value",
    "configuration_manager_instance", "z",
];
pub const NUMS: [&str; 29] = [
    "0", "1", "42", "3.14", ".5", "5.", "0.0", "1e5", "1E5", "1e-5", "1E-10", "9", "100", "2", "7", "1e+5", "3.e2", ".5e1", "0x1F", "0xff", "0XA",
    "0x1p4", "0x1P-2", "0x1p+10", "123456789012", "0xdeadBEEF", "007", "1.5e300", "314.16e-2",
];
/// hexadecimal numerals with a fraction: the pinned lexer rejects them on purpose (its own tests say so)
pub const HEXFRAC: [&str; 6] = ["0x.8", "0xA.", "0xA.5", "0xA.8p+3", "0x0.1E", "0x.1p4"];
const PLAIN_NUMS: usize = 15;

impl<'a> Gen<'a> {
    pub fn program(r: &'a mut Rng, o: GenOpts) -> Vec<String> {
        let budget = 60 + o.stats as isize * 14;
        let mut g = Gen { r, o, out: vec![], budget, compound: false };
        let n = g.o.stats;
        let d = g.o.depth;
        g.stats(n, d);
        if g.o.returns && g.r.chance(1, 5) {
            g.ret();
        }
        g.out
    }

    fn p(&mut self, s: &str) {
        self.budget -= 1;
        self.out.push(s.to_string());
    }
    /// a number up to `usual`, now and then a much larger one
    fn upto(&mut self, usual: usize) -> usize {
        if self.o.tails && self.r.chance(1, 25) {
            self.r.range(usual, usual * 4 + 6)
        } else {
            self.r.range(0, usual)
        }
    }
    fn name(&mut self) {
        if self.o.tails && self.r.chance(1, 12) {
            let s = rare_name(self.r);
            return self.p(&s);
        }
        let s = if self.o.long_names && self.r.chance(1, 2) { *self.r.pick(&LONG) } else { *self.r.pick(&NAMES) };
        self.p(s);
    }

    fn stats(&mut self, n: usize, depth: usize) {
        for _ in 0..n {
            if self.budget < 0 {
                break;
            }
            self.stat(depth);
            if self.r.chance(1, 8) {
                self.p(";");
            }
        }
    }

    /// an inner block, sometimes empty
    fn block(&mut self, depth: usize) {
        self.compound = false;
        let n = self.upto(3);
        if depth > 0 {
            self.stats(n, depth - 1);
        } else {
            for _ in 0..n.min(2) {
                self.simple_stat();
            }
        }
        if self.o.returns && self.r.chance(1, 4) {
            self.ret();
        }
    }

    fn ret(&mut self) {
        self.p("return");
        if self.r.chance(3, 4) {
            let d = self.o.edepth;
            self.explist(3, d);
        }
        if self.r.chance(1, 4) {
            self.p(";");
        }
    }

    fn explist(&mut self, max: usize, d: usize) {
        let n = self.upto(max - 1) + 1;
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            self.exp(d);
        }
    }

    fn namelist(&mut self, max: usize) {
        let n = self.upto(max - 1) + 1;
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            self.name();
        }
    }

    fn simple_stat(&mut self) {
        let at = self.out.len();
        let compound = self.compound;
        self.simple_stat_();
        self.compound = false;
        // a statement may start with a bracket only where the previous one cannot swallow it
        if self.out.get(at).map(|s| &s[..]) == Some("(") && at > 0 {
            let prev = &self.out[at - 1][..];
            let open = matches!(prev, ";" | "do" | "then" | "else" | "repeat" | "break" | "::") || prev == "end" && compound;
            if !open && !(self.o.wild && self.r.chance(1, 3)) {
                self.out.insert(at, ";".to_string());
            }
        }
    }

    fn simple_stat_(&mut self) {
        let d = self.o.edepth;
        match self.r.below(10) {
            0..=2 => self.call(d),
            3..=5 => {
                self.p("local");
                self.namelist(3);
                if self.r.chance(4, 5) {
                    self.p("=");
                    self.explist(3, d);
                }
            }
            6..=8 => {
                let n = self.upto(1) + 1;
                for i in 0..n {
                    if i > 0 {
                        self.p(",");
                    }
                    self.var(d.min(1));
                }
                self.p("=");
                self.explist(3, d);
            }
            _ => match self.r.below(4) {
                0 => self.p("break"),
                1 => {
                    self.p("goto");
                    self.name();
                }
                2 => {
                    self.p("::");
                    self.name();
                    self.p("::");
                }
                _ => self.p(";"),
            },
        }
    }

    fn stat(&mut self, depth: usize) {
        let d = self.o.edepth;
        if depth == 0 || self.r.chance(1, 2) {
            return self.simple_stat();
        }
        let kind = self.r.below(16);
        match kind {
            0 | 1 => {
                self.p("do");
                self.block(depth);
                self.p("end");
            }
            2 | 3 => {
                self.p("while");
                self.exp(d);
                self.p("do");
                self.block(depth);
                self.p("end");
            }
            4 | 5 => {
                self.p("repeat");
                self.block(depth);
                self.p("until");
                self.exp(d);
            }
            6..=8 => {
                self.p("if");
                self.exp(d);
                self.p("then");
                self.block(depth);
                for _ in 0..self.upto(2) {
                    self.p("elseif");
                    self.exp(d);
                    self.p("then");
                    self.block(depth);
                }
                if self.r.chance(1, 2) {
                    self.p("else");
                    self.block(depth);
                }
                self.p("end");
            }
            9 | 10 => {
                self.p("for");
                self.name();
                self.p("=");
                self.exp(d);
                self.p(",");
                self.exp(d);
                if self.r.chance(1, 2) {
                    self.p(",");
                    self.exp(d);
                }
                self.p("do");
                self.block(depth);
                self.p("end");
            }
            11 | 12 => {
                self.p("for");
                self.namelist(3);
                self.p("in");
                self.explist(2, d);
                self.p("do");
                self.block(depth);
                self.p("end");
            }
            13 | 14 => {
                self.p("function");
                self.name();
                for _ in 0..self.upto(2) {
                    self.p(".");
                    self.name();
                }
                if self.r.chance(1, 3) {
                    self.p(":");
                    self.name();
                }
                self.funcbody(depth);
            }
            _ => {
                self.p("local");
                self.p("function");
                self.name();
                self.funcbody(depth);
            }
        }
        self.compound = !(4..=5).contains(&kind);
    }

    fn funcbody(&mut self, depth: usize) {
        self.p("(");
        let n = self.upto(3);
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            if i + 1 == n && self.r.chance(1, 4) {
                self.p("...");
            } else {
                self.name();
            }
        }
        self.p(")");
        self.block(depth.saturating_sub(1));
        self.p("end");
    }

    fn string(&mut self) {
        let s = string_literal(self.r, self.o.unicode, self.o.ml_strings, self.o.plain_literals);
        self.p(&s);
    }

    fn atom(&mut self) {
        match self.r.below(12) {
            0..=4 => self.name(),
            5..=7 => {
                if self.o.tails && !self.o.plain_literals && self.r.chance(1, 8) {
                    let n = rare_numeral(self.r);
                    return self.p(&n);
                }
                let n = if self.o.wild && self.r.chance(1, 10) {
                    *self.r.pick(&HEXFRAC)
                } else if self.o.plain_literals { NUMS[self.r.below(PLAIN_NUMS)] } else { *self.r.pick(&NUMS) };
                self.p(n)
            }
            8 | 9 => self.string(),
            10 => {
                let s = *self.r.pick(&["nil", "true", "false"]);
                self.p(s)
            }
            _ => self.p("..."),
        }
    }

    /// an operand of `^` or of a unary operator other than `not`
    fn operand(&mut self, d: usize) {
        if d == 0 || self.budget < 0 {
            return self.atom();
        }
        let w = 4 + self.o.tables + self.o.calls;
        let k = self.r.below(w + 3);
        if k < 4 {
            self.atom()
        } else if k < 4 + self.o.tables {
            self.table(d - 1)
        } else if k < w {
            if self.r.chance(1, 2) {
                self.call(d - 1)
            } else {
                self.var(d - 1)
            }
        } else if k == w {
            self.p("(");
            self.exp(d - 1);
            self.p(")");
        } else if k == w + 1 {
            self.p("function");
            let dep = self.o.depth.min(1);
            self.funcbody(dep);
        } else {
            self.atom()
        }
    }

    fn unary(&mut self, d: usize) {
        if self.r.chance(1, 6) {
            let op = *self.r.pick(&["-", "#", "~", "not", "not", "-"]);
            // `- -x` is a known finding: keep a minus from following a minus
            self.p(op);
            if self.r.chance(1, 6) {
                let op2 = if op == "-" && !self.o.wild { *self.r.pick(&["#", "~", "not"]) } else { *self.r.pick(&["#", "~", "not", "-"]) };
                self.p(op2);
            }
            self.operand(d);
            if self.r.chance(1, 8) {
                self.p("^");
                self.operand(d);
            }
        } else {
            self.operand(d);
            if self.r.chance(1, 12) {
                self.p("^");
                if self.r.chance(1, 3) {
                    let op = *self.r.pick(&["-", "not", "#", "~"]);
                    self.p(op);
                }
                self.operand(d);
            }
        }
    }

    pub fn exp(&mut self, d: usize) {
        self.unary(d);
        if d > 0 && self.r.chance(2, 5) {
            const OPS: [&str; 21] = [
                "+", "-", "*", "/", "//", "%", "..", "==", "~=", "<", ">", "<=", ">=", "and", "or", "|", "~", "&", "<<", ">>", "^",
            ];
            let same = if self.r.chance(1, 3) { Some(*self.r.pick(&OPS[..])) } else { None };
            for _ in 0..self.upto(3) + 1 {
                if self.budget < 0 {
                    break;
                }
                let op = same.unwrap_or_else(|| *self.r.pick(&OPS[..]));
                self.p(op);
                self.unary(d - 1);
            }
        }
    }

    fn prefix(&mut self, d: usize) {
        if self.r.chance(1, 10) {
            self.p("(");
            if d > 0 {
                self.exp(d - 1);
            } else {
                self.atom();
            }
            self.p(")");
        } else {
            self.name();
        }
    }

    fn suffix_nocall(&mut self, d: usize) {
        if self.r.chance(3, 5) {
            self.p(".");
            self.name();
        } else {
            self.p("[");
            if d > 0 {
                self.exp(d - 1);
            } else {
                self.atom();
            }
            self.p("]");
        }
    }

    fn args(&mut self, d: usize) {
        match self.r.below(10) {
            0 => self.string(),
            1 | 2 if d > 0 => self.table(d - 1),
            3 | 4 => {
                self.p("(");
                self.p(")");
            }
            _ => {
                self.p("(");
                self.explist(3, d.saturating_sub(1));
                self.p(")");
            }
        }
    }

    fn suffix_call(&mut self, d: usize) {
        if self.r.chance(1, 3) {
            self.p(":");
            self.name();
        }
        self.args(d);
    }

    pub fn call(&mut self, d: usize) {
        self.prefix(d);
        for _ in 0..self.upto(2) {
            if self.r.chance(2, 3) {
                self.suffix_nocall(d.min(1));
            } else {
                self.suffix_call(d.saturating_sub(1));
            }
        }
        self.suffix_call(d);
    }

    pub fn var(&mut self, d: usize) {
        if self.r.chance(1, 2) {
            return self.name();
        }
        self.prefix(d);
        for _ in 0..self.upto(2) {
            if self.r.chance(3, 4) {
                self.suffix_nocall(d);
            } else {
                self.suffix_call(d.saturating_sub(1));
            }
        }
        self.suffix_nocall(d);
    }

    pub fn table(&mut self, d: usize) {
        self.p("{");
        let n = self.upto(4);
        let style = self.r.below(4); // 0 iv, 1 kv, 2.. mixed
        let sep = *self.r.pick(&[",", ";"]);
        let mixsep = self.r.chance(1, 5);
        for i in 0..n {
            let kind = match style {
                0 => 0,
                1 => self.r.range(1, 2),
                _ => self.r.below(3),
            };
            match kind {
                0 => self.exp(d),
                1 => {
                    self.name();
                    self.p("=");
                    self.exp(d);
                }
                _ => {
                    self.p("[");
                    self.exp(d.min(1));
                    self.p("]");
                    self.p("=");
                    self.exp(d);
                }
            }
            let s = if mixsep { *self.r.pick(&[",", ";"]) } else { sep };
            if i + 1 < n || self.r.chance(1, 3) {
                self.p(s);
            }
        }
        self.p("}");
    }
}

const KEYWORDS: [&str; 22] = [
    "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then",
    "true", "until", "while",
];
const OTHER_NAMES: [&str; 16] = [
    "continue", "global", "const", "close", "class", "self", "super", "import", "export", "async", "switch", "elif", "elsif", "null", "e1", "x0",
];

/// names next to keywords, names that are keywords elsewhere, names of any length
fn rare_name(r: &mut Rng) -> String {
    let k = *r.pick(&KEYWORDS[..]);
    match r.below(8) {
        0 => k.to_uppercase(),
        1 => format!("{}{}", k[..1].to_uppercase(), &k[1..]),
        2 => format!("{}{}", k, r.pick(&["s", "_", "1", "E", "end"])),
        3 => format!("{}{}", r.pick(&["_", "x", "E", "__", "un"]), k),
        4 | 5 => r.pick(&OTHER_NAMES[..]).to_string(),
        _ => {
            const FIRST: &[u8] = b"_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
            let n = if r.chance(1, 4) { r.range(20, 80) } else { r.range(1, 12) };
            let s: String = (0..n).map(|i| FIRST[r.below(if i == 0 { 53 } else { 63 })] as char).collect();
            if KEYWORDS.contains(&&s[..]) {
                "q".to_string()
            } else {
                s
            }
        }
    }
}

fn rare_numeral(r: &mut Rng) -> String {
    fn digits(r: &mut Rng, set: &[u8], least: usize) -> String {
        let n = if r.chance(1, 8) { r.range(10, 40) } else { r.range(least, 5) };
        (0..n).map(|_| set[r.below(set.len())] as char).collect()
    }
    const DEC: &[u8] = b"0123456789";
    if r.chance(1, 3) {
        let mut s = format!("0{}{}", r.pick(&["x", "X"]), digits(r, b"0123456789abcdefABCDEF", 1));
        if r.chance(1, 3) {
            s.push_str(&format!("{}{}{}", r.pick(&["p", "P"]), r.pick(&["", "+", "-"]), digits(r, DEC, 1)));
        }
        return s;
    }
    let mut s = digits(r, DEC, 0);
    if s.is_empty() || r.chance(1, 2) {
        s.push('.');
        let least = if s.len() == 1 { 1 } else { 0 };
        s.push_str(&digits(r, DEC, least));
    }
    if r.chance(1, 2) {
        s.push_str(&format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), digits(r, DEC, 1)));
    }
    s
}

/// any character that a Lua text may hold inside strings and comments, without line breaks
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(5) {
            0 => char::from_u32(r.range(1, 0x7f) as u32),
            1 => char::from_u32(r.range(0x80, 0x2ff) as u32),
            2 => char::from_u32(r.range(0x300, 0xffff) as u32),
            3 => char::from_u32(r.range(0x10000, 0x10ffff) as u32),
            _ => Some(*r.pick(&['\u{feff}', '\u{85}', '\u{200b}', '\u{301}', '\u{2029}', '\u{1}', '\u{7f}', '\u{1b}', '\u{3000}', '\u{ad}'])),
        };
        match c {
            Some('\n') | Some('\r') | Some('\\') | Some('\'') | Some('"') | None => {}
            Some(c) => return c,
        }
    }
}

const WORDS: [&str; 14] = ["", " ", "x", "hello", "TODO fix", "a = b", "end", "--", "]", "[", "\t", "1", "=", "f()"];
const UWORDS: [&str; 8] = ["привет", "日本", "é", "🙂", "\u{a0}", "\u{2028}", "ß§", "комментарий"];

pub fn words(r: &mut Rng, unicode: bool, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, max) {
        if unicode && r.chance(1, 12) {
            s.push(any_char(r));
        } else if r.chance(1, 40) {
            s.push_str(&r.pick(&["word ", "-", "=", "]", "ab"]).repeat(r.range(5, 40)));
        } else if unicode && r.chance(1, 2) {
            s.push_str(*r.pick(&UWORDS[..]));
        } else {
            s.push_str(*r.pick(&WORDS[..]));
        }
        if r.chance(1, 3) {
            s.push(' ');
        }
    }
    s
}

pub fn string_literal(r: &mut Rng, unicode: bool, ml: bool, plain: bool) -> String {
    if ml && r.chance(1, 2) || r.chance(1, 8) {
        // long bracket
        let mut t = words(r, unicode, 3);
        for _ in 0..r.below(4) {
            let piece = if ml {
                *r.pick(&["\n", "\n  ", "\\", "]]", "]=]", "\"", "'", "\\]", "-- x", "]", "\t\n", " \n", "[["])
            } else {
                *r.pick(&["\\", "\"", "'", "\\]", "-- x", "]", "[[", "]=="])
            };
            if plain && piece.contains('\\') {
                continue;
            }
            t.push_str(piece);
            t.push_str(&words(r, unicode, 1));
        }
        return long_bracket(r, &t);
    }
    let q = *r.pick(&["\"", "\"", "'", "'"]);
    let mut s = String::from(q);
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 => s.push_str(if q == "\"" { "'" } else { "\"" }),
            1 => {
                let e = *r.pick(&[
                    "\\n", "\\\"", "\\'", "\\\\", "\\t", "\\065", "\\x41", "\\u{48}", "\\z  ", "\\0", "\\a", "\\r", "\\10", "\\\\\\\\", "\\\\\\\"", "\\\\\\'",
                ]);
                s.push_str(e);
                if e == "\\0" || e == "\\10" {
                    s.push('x');
                }
            }
            2 if ml && !plain => s.push_str(*r.pick(&["\\\n", "\\z\n   "])),
            _ => s.push_str(&words(r, unicode, 2)),
        }
    }
    s.push_str(q);
    s
}

/// `[=[text]=]` with a level at which the text does not close early
pub fn long_bracket(r: &mut Rng, text: &str) -> String {
    let mut level = if r.chance(1, 10) { r.range(3, 40) } else { r.below(3) };
    loop {
        let eq = "=".repeat(level);
        let s = format!("[{}[{}]{}]", eq, text, eq);
        let ok = match lex::lex(&s) {
            Ok(l) => l.toks.len() == 2 && l.toks[0].e == s.len(),
            Err(_) => false,
        };
        if ok {
            return s;
        }
        level += 1;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// newline and indentation per statement-like token; few comments
    Pretty,
    /// single spaces or nothing
    Compact,
    /// anything anywhere
    Chaos,
}

#[derive(Clone)]
pub struct RenderOpts {
    pub style: Style,
    /// chance in 1000 of a comment in a gap
    pub comments: usize,
    pub unicode: bool,
    pub crlf: bool,
    /// odd texts inside comments (brackets, dashes)
    pub nasty: bool,
    pub final_newline: bool,
}

impl RenderOpts {
    pub fn random(r: &mut Rng) -> Self {
        RenderOpts {
            style: *r.pick(&[Style::Pretty, Style::Pretty, Style::Compact, Style::Chaos]),
            comments: *r.pick(&[0, 0, 15, 60, 200]),
            unicode: r.chance(1, 3),
            crlf: r.chance(1, 12),
            nasty: r.chance(1, 2),
            final_newline: r.chance(2, 3),
        }
    }
}

pub fn comment(r: &mut Rng, unicode: bool, nasty: bool, line_only: bool) -> String {
    if line_only || r.chance(3, 5) {
        let mut t = match r.below(5) {
            0 => (*r.pick(&["", "", " ", "   ", "\t"])).to_string(),
            1 => "-".repeat(if r.chance(1, 6) { r.range(10, 90) } else { r.range(1, 10) }),
            _ => format!("{}{}", r.pick(&["", " ", "  ", "\t"]), words(r, unicode, 3)),
        };
        if nasty && r.chance(1, 3) {
            t = format!("{}{}", r.pick(&["[ x", "[=x", "[", "[=", "!", "]]", " [[ x ]]", " [=[ y", "\\", "-[[ z ]]"]), t);
        }
        let mut s = format!("--{}", t);
        if s.contains('\n') || s.contains('\r') {
            s = "--q".into();
        }
        // must really be a line comment
        match lex::lex(&format!("{}\n", s)) {
            Ok(l) if l.comments.len() == 1 && l.comments[0].k == lex::CK::Line && l.toks.len() == 1 => s,
            _ => "-- plain".into(),
        }
    } else {
        let mut t = format!("{}{}", r.pick(&["", " ", "  "]), words(r, unicode, 2));
        for _ in 0..r.below(3) {
            let p = if nasty {
                *r.pick(&["\n", "\n\t", "]]", "\\", "]", " ", "--", "]=", "\n\n", "\"", "=]", "\\]"])
            } else {
                *r.pick(&["\n", "\n  ", " ", "x"])
            };
            t.push_str(p);
            t.push_str(&words(r, unicode, 1));
        }
        format!("--{}", long_bracket(r, &t))
    }
}

/// whether the two texts, put side by side, stay two tokens
pub fn can_touch(a: &str, b: &str) -> bool {
    let s = format!("{}{}", a, b);
    match lex::lex(&s) {
        Ok(l) => l.toks.len() == 3 && l.toks[0].s == 0 && l.toks[0].e == a.len() && l.comments.is_empty(),
        Err(_) => false,
    }
}

const OPENERS: [&str; 8] = ["do", "then", "else", "repeat", ";", "{", "(", ","];

pub fn render(r: &mut Rng, toks: &[String], o: &RenderOpts) -> String {
    let nl = if o.crlf { "\r\n" } else { "\n" };
    let mut s = String::new();
    let mut prev: Option<&str> = None;
    let indent = r.below(3) * 2;
    for i in 0..=toks.len() {
        let next = toks.get(i).map(|x| &x[..]);
        let mut gap = String::new();
        match o.style {
            Style::Compact => {
                if r.chance(1, 2) {
                    gap.push(' ')
                }
            }
            Style::Pretty => {
                let stat_start = next.map_or(true, |n| {
                    matches!(n, "local" | "if" | "for" | "while" | "repeat" | "return" | "end" | "else" | "elseif" | "until" | "goto" | "break" | "::")
                        || (n == "function" && !matches!(prev, Some("local") | Some("=") | Some("(") | Some(",")))
                }) || prev.map_or(false, |p| OPENERS[..5].contains(&p));
                if prev.is_some() && (stat_start && r.chance(4, 5) || prev.map_or(false, |p| OPENERS.contains(&p)) && r.chance(1, 5)) {
                    gap.push_str(nl);
                    if r.chance(1, 5) {
                        gap.push_str(nl);
                    }
                    gap.push_str(&" ".repeat(r.below(4) * indent));
                } else if prev.is_some() && r.chance(3, 4) {
                    gap.push(' ');
                }
            }
            Style::Chaos => {
                let n = if r.chance(1, 40) { r.range(3, 12) } else { r.below(3) };
                for _ in 0..n {
                    gap.push_str(*r.pick(&["", " ", " ", "  ", "\t", nl, nl, "\n\n", " \n "]));
                    if r.chance(1, 40) {
                        gap.push_str(*r.pick(&["\x0b", "\x0c", "\r"]));
                    }
                }
            }
        }
        if r.below(1000) < o.comments {
            let n = if r.chance(1, 12) { r.range(3, 7) } else { r.range(1, 2) };
            for _ in 0..n {
                let c = comment(r, o.unicode, o.nasty, false);
                let is_line = !c.starts_with("--[") || matches!(lex::lex(&c), Ok(l) if l.comments.len() == 1 && l.comments[0].k == lex::CK::Line);
                gap.push_str(&c);
                if is_line {
                    if next.is_some() || r.chance(1, 2) {
                        gap.push('\n');
                    } else {
                        break;
                    }
                }
                gap.push_str(*r.pick(&["", " ", "", nl, "  "]));
            }
        }
        if let (Some(p), Some(n)) = (prev, next) {
            if gap.is_empty() && !can_touch(p, n) {
                gap.push(' ');
            }
        }
        if let Some(p) = prev {
            if gap.starts_with('-') && p.ends_with('-') {
                gap.insert(0, ' ');
            }
        }
        if next.is_none() && o.final_newline && !gap.ends_with('\n') {
            gap.push_str(nl);
        }
        s.push_str(&gap);
        if let Some(n) = next {
            s.push_str(n);
        }
        prev = next;
    }
    s
}

pub fn random_program(r: &mut Rng) -> String {
    let o = GenOpts::random(r);
    let mut ro = RenderOpts::random(r);
    ro.unicode = ro.unicode && o.unicode;
    program_with(r, o, ro)
}

pub fn program_with(r: &mut Rng, o: GenOpts, ro: RenderOpts) -> String {
    let sb = o.shebang;
    let toks = Gen::program(r, o);
    let body = render(r, &toks, &ro);
    if sb {
        let first = *r.pick(&["#!/usr/bin/lua", "#!/usr/bin/env lua -e", "#!", "#!lua  ", "#!lua --[[", "#!/ü/lua \\", "#! 'x", "#!a\tb\\\\"]);
        format!("{}\n{}", first, body)
    } else {
        body
    }
}

/// Re-renders the tokens of an existing text with fresh trivia.
pub fn rerender(r: &mut Rng, src: &str, ro: &RenderOpts) -> Option<String> {
    let l = lex::lex(src).ok()?;
    let toks: Vec<String> =
        l.toks.iter().filter(|t| !matches!(t.k, lex::K::Eof | lex::K::Shebang)).map(|t| src[t.s..t.e].to_string()).collect();
    Some(render(r, &toks, ro))
}
