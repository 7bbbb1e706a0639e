//! Reference recursive-descent parser for Lua 5.3 (manual section 9), independent of luafmt.
use crate::lex::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum NK {
    Chunk,
    Block,
    // statements
    Semi,
    Label,
    Break,
    Goto,
    Do,
    While,
    If,
    ForNum,
    ForIn,
    Repeat,
    Func,
    LocalFunc,
    Local,
    Assign,
    CallStat,
    Return,
    // expressions
    ExpList,
    NameList,
    VarList,
    Atom,
    Bin,
    Un,
    Paren,
    /// prefix followed by suffixes
    Suffixed,
    Index,
    Member,
    Method,
    Args,
    FuncBody,
    FuncExpr,
    ParList,
    FuncName,
    Table,
    FieldPos,
    FieldName,
    FieldBr,
}

impl NK {
    pub fn is_stat(self) -> bool {
        use NK::*;
        matches!(
            self,
            Semi | Label | Break | Goto | Do | While | If | ForNum | ForIn | Repeat | Func | LocalFunc | Local | Assign
                | CallStat | Return
        )
    }
}

#[derive(Debug, Clone)]
pub struct Node {
    pub k: NK,
    /// first token, and one past the last token
    pub s: usize,
    pub e: usize,
    /// tokens that belong directly to this node
    pub own: Vec<usize>,
    pub kids: Vec<Node>,
}

impl Node {
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
}

pub struct Parser<'a> {
    src: &'a str,
    lx: &'a Lexed,
    p: usize,
    depth: usize,
    lenient: bool,
}

pub type PResult<T> = Result<T, (usize, String)>;

pub fn parse(src: &str, lx: &Lexed, lenient: bool) -> PResult<Node> {
    let mut p = Parser { src, lx, p: 0, depth: 0, lenient };
    let mut n = p.open(NK::Chunk);
    if p.lx.toks[0].k == K::Shebang {
        p.take(&mut n);
    }
    let b = p.block()?;
    n.kids.push(b);
    if p.k() != K::Eof {
        return p.err("unexpected token");
    }
    p.close(n)
}

/// Convenience: lex and parse.
pub fn analyse(src: &str) -> PResult<(Lexed, Node)> {
    let lx = lex(src)?;
    let n = parse(src, &lx, false)?;
    Ok((lx, n))
}

/// The same with what the formatter lets through on purpose or does not look at: expressions as statements, odd
/// literals.
pub fn analyse_lenient(src: &str) -> PResult<()> {
    let lx = lex_with(src, true)?;
    parse(src, &lx, true).map(|_| ())
}

/// the right-associative operators are laid out as if they were left-associative
fn binprec(op: &str) -> Option<(u8, u8)> {
    Some(match op {
        "or" => (1, 1),
        "and" => (2, 2),
        "<" | ">" | "<=" | ">=" | "~=" | "==" => (3, 3),
        "|" => (4, 4),
        "~" => (5, 5),
        "&" => (6, 6),
        "<<" | ">>" => (7, 7),
        ".." => (9, 9),
        "+" | "-" => (10, 10),
        "*" | "/" | "//" | "%" => (11, 11),
        "^" => (14, 14),
        _ => return None,
    })
}
const UNARY: u8 = 12;

impl<'a> Parser<'a> {
    fn k(&self) -> K {
        self.lx.toks[self.p].k
    }
    fn t(&self) -> &'a str {
        let t = &self.lx.toks[self.p];
        &self.src[t.s..t.e]
    }
    fn is(&self, s: &str) -> bool {
        matches!(self.k(), K::Kw | K::Op) && self.t() == s
    }
    fn peek_is(&self, n: usize, s: &str) -> bool {
        match self.lx.toks.get(self.p + n) {
            Some(t) => matches!(t.k, K::Kw | K::Op) && &self.src[t.s..t.e] == s,
            None => false,
        }
    }
    fn err<T>(&self, m: &str) -> PResult<T> {
        Err((self.lx.toks[self.p].s, format!("{} near `{}`", m, self.t())))
    }
    fn open(&self, k: NK) -> Node {
        Node { k, s: self.p, e: self.p, own: vec![], kids: vec![] }
    }
    fn close(&self, mut n: Node) -> PResult<Node> {
        n.e = self.p;
        Ok(n)
    }
    fn take(&mut self, n: &mut Node) {
        n.own.push(self.p);
        self.p += 1;
    }
    fn want(&mut self, n: &mut Node, s: &str) -> PResult<()> {
        if self.is(s) {
            self.take(n);
            Ok(())
        } else {
            self.err(&format!("`{}` expected", s))
        }
    }
    fn name(&mut self, n: &mut Node) -> PResult<()> {
        if self.k() == K::Name {
            self.take(n);
            Ok(())
        } else {
            self.err("name expected")
        }
    }
    fn atom(&mut self) -> PResult<Node> {
        let mut n = self.open(NK::Atom);
        self.take(&mut n);
        self.close(n)
    }

    fn block_end(&self) -> bool {
        self.k() == K::Eof || self.is("end") || self.is("else") || self.is("elseif") || self.is("until")
    }

    fn block(&mut self) -> PResult<Node> {
        self.depth += 1;
        if self.depth > 180 {
            return self.err("too deep");
        }
        let mut n = self.open(NK::Block);
        while !self.block_end() {
            if self.is("return") {
                let mut r = self.open(NK::Return);
                self.take(&mut r);
                if !self.block_end() && !self.is(";") {
                    r.kids.push(self.explist()?);
                }
                if self.is(";") {
                    self.take(&mut r);
                }
                n.kids.push(self.close(r)?);
                break;
            }
            let s = self.stat()?;
            n.kids.push(s);
        }
        self.depth -= 1;
        self.close(n)
    }

    fn stat(&mut self) -> PResult<Node> {
        if self.is(";") {
            let mut n = self.open(NK::Semi);
            self.take(&mut n);
            return self.close(n);
        }
        if self.is("::") {
            let mut n = self.open(NK::Label);
            self.take(&mut n);
            self.name(&mut n)?;
            self.want(&mut n, "::")?;
            return self.close(n);
        }
        if self.k() == K::Kw {
            match self.t() {
                "break" => {
                    let mut n = self.open(NK::Break);
                    self.take(&mut n);
                    return self.close(n);
                }
                "goto" => {
                    let mut n = self.open(NK::Goto);
                    self.take(&mut n);
                    self.name(&mut n)?;
                    return self.close(n);
                }
                "do" => {
                    let mut n = self.open(NK::Do);
                    self.take(&mut n);
                    n.kids.push(self.block()?);
                    self.want(&mut n, "end")?;
                    return self.close(n);
                }
                "while" => {
                    let mut n = self.open(NK::While);
                    self.take(&mut n);
                    n.kids.push(self.exp(0)?);
                    self.want(&mut n, "do")?;
                    n.kids.push(self.block()?);
                    self.want(&mut n, "end")?;
                    return self.close(n);
                }
                "repeat" => {
                    let mut n = self.open(NK::Repeat);
                    self.take(&mut n);
                    n.kids.push(self.block()?);
                    self.want(&mut n, "until")?;
                    n.kids.push(self.exp(0)?);
                    return self.close(n);
                }
                "if" => {
                    let mut n = self.open(NK::If);
                    self.take(&mut n);
                    n.kids.push(self.exp(0)?);
                    self.want(&mut n, "then")?;
                    n.kids.push(self.block()?);
                    loop {
                        if self.is("elseif") {
                            self.take(&mut n);
                            n.kids.push(self.exp(0)?);
                            self.want(&mut n, "then")?;
                            n.kids.push(self.block()?);
                        } else if self.is("else") {
                            self.take(&mut n);
                            n.kids.push(self.block()?);
                            self.want(&mut n, "end")?;
                            return self.close(n);
                        } else {
                            self.want(&mut n, "end")?;
                            return self.close(n);
                        }
                    }
                }
                "for" => {
                    let mut n = self.open(NK::ForNum);
                    self.take(&mut n);
                    if self.peek_is(1, "=") {
                        self.name(&mut n)?;
                        self.take(&mut n);
                        n.kids.push(self.exp(0)?);
                        self.want(&mut n, ",")?;
                        n.kids.push(self.exp(0)?);
                        if self.is(",") {
                            self.take(&mut n);
                            n.kids.push(self.exp(0)?);
                        }
                    } else {
                        n.k = NK::ForIn;
                        n.kids.push(self.namelist()?);
                        self.want(&mut n, "in")?;
                        n.kids.push(self.explist()?);
                    }
                    self.want(&mut n, "do")?;
                    n.kids.push(self.block()?);
                    self.want(&mut n, "end")?;
                    return self.close(n);
                }
                "function" => {
                    let mut n = self.open(NK::Func);
                    self.take(&mut n);
                    let mut fname = self.open(NK::FuncName);
                    self.name(&mut fname)?;
                    while self.is(".") {
                        self.take(&mut fname);
                        self.name(&mut fname)?;
                    }
                    if self.is(":") {
                        self.take(&mut fname);
                        self.name(&mut fname)?;
                    }
                    n.kids.push(self.close(fname)?);
                    n.kids.push(self.funcbody()?);
                    return self.close(n);
                }
                "local" => {
                    let mut n = self.open(NK::Local);
                    self.take(&mut n);
                    if self.is("function") {
                        n.k = NK::LocalFunc;
                        self.take(&mut n);
                        self.name(&mut n)?;
                        n.kids.push(self.funcbody()?);
                    } else {
                        n.kids.push(self.namelist()?);
                        if self.is("=") {
                            self.take(&mut n);
                            n.kids.push(self.explist()?);
                        }
                    }
                    return self.close(n);
                }
                _ => {}
            }
        }
        // assignment or call
        let mut n = self.open(NK::CallStat);
        let first = self.suffixed()?;
        if self.is("=") || self.is(",") {
            n.k = NK::Assign;
            let mut vl = Node { k: NK::VarList, s: first.s, e: first.e, own: vec![], kids: vec![] };
            if !is_var(&first) && !self.lenient {
                return self.err("cannot assign");
            }
            vl.kids.push(first);
            while self.is(",") {
                self.take(&mut vl);
                let v = self.suffixed()?;
                if !is_var(&v) && !self.lenient {
                    return self.err("cannot assign");
                }
                vl.kids.push(v);
            }
            vl.e = self.p;
            n.kids.push(vl);
            self.want(&mut n, "=")?;
            n.kids.push(self.explist()?);
            self.close(n)
        } else {
            if !is_call(&first) && !self.lenient {
                return self.err("syntax error");
            }
            n.kids.push(first);
            self.close(n)
        }
    }

    fn namelist(&mut self) -> PResult<Node> {
        let mut n = self.open(NK::NameList);
        self.name(&mut n)?;
        while self.is(",") {
            self.take(&mut n);
            self.name(&mut n)?;
        }
        self.close(n)
    }

    fn explist(&mut self) -> PResult<Node> {
        let mut n = self.open(NK::ExpList);
        n.kids.push(self.exp(0)?);
        while self.is(",") {
            self.take(&mut n);
            n.kids.push(self.exp(0)?);
        }
        self.close(n)
    }

    fn funcbody(&mut self) -> PResult<Node> {
        let mut n = self.open(NK::FuncBody);
        self.want(&mut n, "(")?;
        let mut pl = self.open(NK::ParList);
        if !self.is(")") {
            loop {
                if self.is("...") {
                    self.take(&mut pl);
                    if self.lenient && self.is(",") {
                        self.take(&mut pl);
                        continue;
                    }
                    break;
                }
                self.name(&mut pl)?;
                if self.is(",") {
                    self.take(&mut pl);
                } else {
                    break;
                }
            }
        }
        n.kids.push(self.close(pl)?);
        self.want(&mut n, ")")?;
        n.kids.push(self.block()?);
        self.want(&mut n, "end")?;
        self.close(n)
    }

    fn primary(&mut self) -> PResult<Node> {
        if self.k() == K::Name {
            return self.atom();
        }
        if self.is("(") {
            let mut n = self.open(NK::Paren);
            self.take(&mut n);
            n.kids.push(self.exp(0)?);
            self.want(&mut n, ")")?;
            return self.close(n);
        }
        self.err("unexpected symbol")
    }

    fn suffixed(&mut self) -> PResult<Node> {
        let p = self.primary()?;
        let mut out = Node { k: NK::Suffixed, s: p.s, e: p.e, own: vec![], kids: vec![p] };
        loop {
            if self.is(".") {
                let mut n = self.open(NK::Member);
                self.take(&mut n);
                self.name(&mut n)?;
                out.kids.push(self.close(n)?);
            } else if self.is("[") {
                let mut n = self.open(NK::Index);
                self.take(&mut n);
                n.kids.push(self.exp(0)?);
                self.want(&mut n, "]")?;
                out.kids.push(self.close(n)?);
            } else if self.is(":") {
                let mut n = self.open(NK::Method);
                self.take(&mut n);
                self.name(&mut n)?;
                if !(self.is("(") || self.is("{") || matches!(self.k(), K::Str(_) | K::Long(_))) {
                    return self.err("call arguments expected");
                }
                n.kids.push(self.args()?);
                out.kids.push(self.close(n)?);
            } else if self.is("(") || self.is("{") || matches!(self.k(), K::Str(_) | K::Long(_)) {
                let a = self.args()?;
                out.kids.push(a);
            } else {
                break;
            }
        }
        out.e = self.p;
        if out.kids.len() == 1 {
            return Ok(out.kids.pop().unwrap());
        }
        Ok(out)
    }

    fn args(&mut self) -> PResult<Node> {
        let mut n = self.open(NK::Args);
        if self.is("(") {
            self.take(&mut n);
            if !self.is(")") {
                n.kids.push(self.explist()?);
            }
            self.want(&mut n, ")")?;
        } else if self.is("{") {
            n.kids.push(self.table()?);
        } else {
            n.kids.push(self.atom()?);
        }
        self.close(n)
    }

    fn table(&mut self) -> PResult<Node> {
        let mut n = self.open(NK::Table);
        self.want(&mut n, "{")?;
        while !self.is("}") {
            let mut f = self.open(NK::FieldPos);
            if self.is("[") {
                f.k = NK::FieldBr;
                self.take(&mut f);
                f.kids.push(self.exp(0)?);
                self.want(&mut f, "]")?;
                self.want(&mut f, "=")?;
                f.kids.push(self.exp(0)?);
            } else if self.k() == K::Name && self.peek_is(1, "=") {
                f.k = NK::FieldName;
                self.take(&mut f);
                self.take(&mut f);
                f.kids.push(self.exp(0)?);
            } else {
                f.kids.push(self.exp(0)?);
            }
            n.kids.push(self.close(f)?);
            if self.is(",") || self.is(";") {
                self.take(&mut n);
            } else {
                break;
            }
        }
        self.want(&mut n, "}")?;
        self.close(n)
    }

    fn simple(&mut self) -> PResult<Node> {
        match self.k() {
            K::Num | K::Str(_) | K::Long(_) => return self.atom(),
            _ => {}
        }
        if self.is("nil") || self.is("true") || self.is("false") || self.is("...") {
            return self.atom();
        }
        if self.is("{") {
            return self.table();
        }
        if self.is("function") {
            let mut n = self.open(NK::FuncExpr);
            self.take(&mut n);
            n.kids.push(self.funcbody()?);
            return self.close(n);
        }
        self.suffixed()
    }

    fn exp(&mut self, limit: u8) -> PResult<Node> {
        self.depth += 1;
        if self.depth > 180 {
            return self.err("too deep");
        }
        let mut left;
        if self.is("not") || self.is("-") || self.is("#") || self.is("~") {
            let mut n = self.open(NK::Un);
            self.take(&mut n);
            n.kids.push(self.exp(UNARY)?);
            left = self.close(n)?;
        } else {
            left = self.simple()?;
        }
        loop {
            if !matches!(self.k(), K::Op | K::Kw) {
                break;
            }
            match binprec(self.t()) {
                Some((l, r)) if l > limit => {
                    let mut n = Node { k: NK::Bin, s: left.s, e: 0, own: vec![], kids: vec![left] };
                    self.take(&mut n);
                    n.kids.push(self.exp(r)?);
                    left = self.close(n)?;
                }
                _ => break,
            }
        }
        self.depth -= 1;
        Ok(left)
    }
}

fn is_var(n: &Node) -> bool {
    match n.k {
        NK::Atom => true,
        NK::Suffixed => matches!(n.kids.last().unwrap().k, NK::Index | NK::Member),
        _ => false,
    }
}
fn is_call(n: &Node) -> bool {
    n.k == NK::Suffixed && matches!(n.kids.last().unwrap().k, NK::Args | NK::Method)
}

/// For every token: None, or Some(trailing) when it separates fields of a table constructor.
pub fn field_seps(root: &Node, ntoks: usize) -> Vec<Option<bool>> {
    let mut v = vec![None; ntoks];
    root.walk(&mut |n| {
        if n.k == NK::Table {
            let seps = &n.own[1..n.own.len() - 1];
            for (i, &t) in seps.iter().enumerate() {
                v[t] = Some(i + 1 == n.kids.len());
            }
        }
    });
    v
}

/// True when a unary minus is directly applied to another unary minus somewhere.
pub fn has_minus_minus(src: &str, lx: &Lexed, root: &Node) -> bool {
    let mut r = false;
    root.walk(&mut |n| {
        if n.k == NK::Un && lx.text(src, n.own[0]) == "-" {
            let c = &n.kids[0];
            if lx.text(src, c.s) == "-" && !(c.k == NK::Atom) {
                r = true;
            }
        }
    });
    r
}
