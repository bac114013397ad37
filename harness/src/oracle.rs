//! Views of a source text that the properties are stated over. Everything here is computed from the
//! text with the tree-sitter grammar, independently of the formatter.
use crate::ast::{self, Leaf};
use crate::corpus::BODIES;
use tree_sitter::{Node, Tree};

pub struct View {
    pub tree: Tree,
    pub leaves: Vec<Leaf>,
}

pub fn view(src: &str) -> Option<View> {
    let tree = ast::parse(src)?;
    let leaves = ast::leaves(&tree, src).into_iter().filter(|l| l.end > l.start && !l.text.trim().is_empty()).collect();
    Some(View { tree, leaves })
}

impl View {
    pub fn code(&self) -> Vec<&Leaf> {
        self.leaves.iter().filter(|l| !l.comment).collect()
    }
    pub fn comments(&self) -> Vec<&Leaf> {
        self.leaves.iter().filter(|l| l.comment).collect()
    }
}

/// the text with every comment replaced by white space of the same line structure
pub fn strip_comments(src: &str) -> Option<String> {
    let v = view(src)?;
    let mut out = String::with_capacity(src.len());
    let mut at = 0;
    for c in v.comments() {
        out.push_str(&src[at..c.start]);
        out.push(' ');
        for ch in c.text.chars() {
            if ch == '\n' {
                out.push('\n');
            }
        }
        at = c.end;
    }
    out.push_str(&src[at..]);
    Some(out)
}

/// the words of a comment: what has to survive. Indentation, blank lines around lines and the
/// leading star of JavaDoc lines are layout.
pub fn comment_text(c: &str) -> String {
    if c.starts_with("//") {
        return c.trim_end().to_string();
    }
    let doc = c.starts_with("/**") && c != "/**/";
    let inner = c.strip_prefix(if doc { "/**" } else { "/*" }).unwrap_or(c);
    let inner = inner.strip_suffix("*/").unwrap_or_else(|| inner.strip_suffix('/').unwrap_or(inner));
    let mut lines: Vec<String> = vec![];
    let n = inner.split('\n').count();
    for (i, l) in inner.split('\n').enumerate() {
        let mut l = l.trim();
        if doc {
            // one star per line is decoration, except behind the blank that follows the opening
            let text = i == 0 && inner.starts_with(char::is_whitespace) && l != "*";
            if (i == 0 || i + 1 == n) && !text && l.chars().all(|c| c == '*') {
                l = "";
            } else if !text {
                l = l.strip_prefix('*').unwrap_or(l).trim_start();
            }
        }
        lines.push(l.trim_end().to_string());
    }
    if doc {
        // the opening and the closing may stand on lines of their own; a row of stars next to one of them
        // is part of the frame, which the tool puts on a line of its own
        let frame = |l: &String| l.chars().all(|c| c == '*');
        while lines.first().is_some_and(frame) {
            lines.remove(0);
        }
        while lines.last().is_some_and(frame) {
            lines.pop();
        }
    }
    format!("{}{}", if doc { "/**" } else { "/*" }, lines.join("\n"))
}

pub fn is_body(kind: &str) -> bool {
    BODIES.contains(&kind)
}

/// (kind, start row, end row, start byte, depth in bodies, below an expression) of every body member
#[derive(Clone, Debug)]
pub struct Member {
    pub parent: String,
    pub kind: String,
    pub index: usize,
    pub start: usize,
    pub end: usize,
    pub row: usize,
    pub end_row: usize,
    pub depth: usize,
    /// some ancestor body is part of an expression (anonymous class) or follows a brace-less statement
    pub odd: bool,
    pub parent_start: usize,
}

pub fn members(v: &View) -> Vec<Member> {
    let mut out = vec![];
    fn go(n: Node, depth: usize, odd: bool, out: &mut Vec<Member>) {
        let mut c = n.walk();
        let body = is_body(n.kind());
        let mut i = 0;
        let kids: Vec<Node> = n.children(&mut c).collect();
        for (ki, k) in kids.into_iter().enumerate() {
            if k.is_extra() {
                continue;
            }
            if body && k.is_named() {
                let mut end = k;
                // the terminating semicolon belongs to the member
                while let Some(s) = end.next_sibling() {
                    if s.kind() == ";" || s.kind() == "," {
                        end = s;
                    } else {
                        break;
                    }
                }
                out.push(Member {
                    parent: n.kind().into(),
                    kind: k.kind().into(),
                    index: i,
                    start: k.start_byte(),
                    end: end.end_byte(),
                    row: k.start_position().row,
                    end_row: end.end_position().row,
                    depth,
                    odd,
                    parent_start: n.start_byte(),
                });
                i += 1;
            }
            let d = depth + (is_body(k.kind()) && k.kind() != "trigger_body") as usize;
            // the body of an if or a loop without braces has an indentation of its own
            let bare = matches!(n.kind(), "if_statement" | "for_statement" | "enhanced_for_statement" | "while_statement" | "do_statement")
                && match n.field_name_for_child(ki as u32) {
                    Some("consequence" | "body") => k.kind() != "block",
                    Some("alternative") => !matches!(k.kind(), "block" | "if_statement"),
                    _ => false,
                };
            let o = odd || n.kind() == "object_creation_expression" || bare;
            go(k, d, o, out);
        }
    }
    go(v.tree.root_node(), 0, false, &mut out);
    out
}

pub fn has_kind(t: &Tree, kinds: &[&str]) -> bool {
    fn go(n: Node, kinds: &[&str]) -> bool {
        if kinds.contains(&n.kind()) {
            return true;
        }
        let mut c = n.walk();
        let r = n.children(&mut c).any(|k| go(k, kinds));
        r
    }
    go(t.root_node(), kinds)
}

pub fn has_anon_class(t: &Tree) -> bool {
    fn go(n: Node) -> bool {
        if n.kind() == "object_creation_expression" {
            let mut c = n.walk();
            if n.children(&mut c).any(|k| k.kind() == "class_body") {
                return true;
            }
        }
        let mut c = n.walk();
        let r = n.children(&mut c).any(go);
        r
    }
    go(t.root_node())
}

/// every kind of node in the tree
pub fn kinds(t: &Tree, out: &mut std::collections::BTreeMap<String, u64>) {
    fn go(n: Node, out: &mut std::collections::BTreeMap<String, u64>) {
        if n.is_named() {
            *out.entry(n.kind().to_string()).or_insert(0) += 1;
        }
        let mut c = n.walk();
        for k in n.children(&mut c) {
            go(k, out);
        }
    }
    go(t.root_node(), out)
}

// ------------------------------------------------------------------ a lexer of our own

#[derive(Clone, Debug, PartialEq)]
pub enum Lx {
    Str(String),
    Word(String),
    Sym(char),
    Comment,
    /// unterminated string or comment
    Bad,
}

pub fn lex(src: &str) -> Vec<Lx> {
    let c: Vec<char> = src.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            out.push(Lx::Comment);
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            let mut closed = false;
            while i < c.len() {
                if c[i] == '*' && c.get(i + 1) == Some(&'/') {
                    i += 2;
                    closed = true;
                    break;
                }
                i += 1;
            }
            out.push(if closed { Lx::Comment } else { Lx::Bad });
        } else if x == '\'' {
            let s = i;
            i += 1;
            let mut closed = false;
            while i < c.len() {
                if c[i] == '\\' {
                    i += 2;
                    continue;
                }
                if c[i] == '\'' {
                    i += 1;
                    closed = true;
                    break;
                }
                i += 1;
            }
            let e = i.min(c.len());
            out.push(if closed { Lx::Str(c[s..e].iter().collect()) } else { Lx::Bad });
        } else if x.is_alphanumeric() || x == '_' || x == '$' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                i += 1;
            }
            out.push(Lx::Word(c[s..i].iter().collect()));
        } else {
            out.push(Lx::Sym(x));
            i += 1;
        }
    }
    out
}

pub fn lex_strings(src: &str) -> Vec<String> {
    lex(src).into_iter().filter_map(|l| if let Lx::Str(s) = l { Some(s) } else { None }).collect()
}

/// brackets that do not match, or an unterminated string or comment. Says nothing (false) about
/// text with a SOSL search term in braces, where brackets are ordinary characters.
pub fn unbalanced(src: &str) -> bool {
    let l = lex(src);
    for w in l.windows(2) {
        if let (Lx::Word(a), Lx::Sym('{')) = (&w[0], &w[1]) {
            if a.eq_ignore_ascii_case("find") {
                return false;
            }
        }
    }
    let mut st = vec![];
    for x in &l {
        match x {
            Lx::Bad => return true,
            Lx::Sym(c @ ('(' | '[' | '{')) => st.push(*c),
            Lx::Sym(c @ (')' | ']' | '}')) => {
                let want = match c {
                    ')' => '(',
                    ']' => '[',
                    _ => '{',
                };
                if st.pop() != Some(want) {
                    return true;
                }
            }
            _ => {}
        }
    }
    !st.is_empty()
}

// ------------------------------------------------------------------ truth tables of SOQL conditions

enum Cond {
    Atom(usize),
    Not(Box<Cond>),
    And(Vec<Cond>),
    Or(Vec<Cond>),
}

struct CP<'a> {
    t: &'a [Lx],
    i: usize,
    atoms: Vec<String>,
}

impl CP<'_> {
    fn word(&self) -> Option<String> {
        match self.t.get(self.i) {
            Some(Lx::Word(w)) => Some(w.to_lowercase()),
            _ => None,
        }
    }
    fn is(&self, w: &str) -> bool {
        self.word().as_deref() == Some(w)
    }
    fn or(&mut self) -> Option<Cond> {
        let mut v = vec![self.and()?];
        while self.is("or") {
            self.i += 1;
            v.push(self.and()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Cond::Or(v) })
    }
    fn and(&mut self) -> Option<Cond> {
        let mut v = vec![self.unary()?];
        while self.is("and") {
            self.i += 1;
            v.push(self.unary()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Cond::And(v) })
    }
    fn unary(&mut self) -> Option<Cond> {
        if self.is("not") {
            self.i += 1;
            return Some(Cond::Not(Box::new(self.unary()?)));
        }
        if self.t.get(self.i) == Some(&Lx::Sym('(')) {
            self.i += 1;
            let c = self.or()?;
            if self.t.get(self.i) != Some(&Lx::Sym(')')) {
                return None;
            }
            self.i += 1;
            return Some(c);
        }
        // an atom: up to AND, OR, a clause keyword or the closing bracket
        let mut d = 0;
        let mut s = String::new();
        while let Some(x) = self.t.get(self.i) {
            match x {
                Lx::Sym('(' | '[' | '{') => d += 1,
                Lx::Sym(')' | ']' | '}') => {
                    if d == 0 {
                        break;
                    }
                    d -= 1;
                }
                Lx::Bad => return None,
                Lx::Word(w) if d == 0 && !s.is_empty() => {
                    // `a++ AND` ends an atom, `++ and` does not
                    let bare = s.strip_suffix("++").or_else(|| s.strip_suffix("--")).filter(|r| r.ends_with(|c: char| c.is_alphanumeric() || "_)]".contains(c)));
                    let prev_dot = bare.is_none() && s.ends_with(|c: char| "+-*/%<>=!&|^~?:.,".contains(c));
                    if !prev_dot
                        && matches!(
                            w.to_lowercase().as_str(),
                            "and" | "or" | "group" | "order" | "limit" | "having" | "with" | "for" | "offset" | "all" | "update" | "using"
                        )
                    {
                        break;
                    }
                }
                _ => {}
            }
            match x {
                Lx::Sym(c) => s.push(*c),
                // the AS of an alias is optional, and the formatter leaves it out
                Lx::Word(w) if w.eq_ignore_ascii_case("as") => {}
                Lx::Word(w) => {
                    s.push(' ');
                    s.push_str(&w.to_lowercase());
                }
                Lx::Str(q) => s.push_str(q),
                _ => {}
            }
            self.i += 1;
            // the body of an anonymous class or the elements of a list are compared as trees
            if *x == Lx::Sym('{') {
                let d0 = d;
                while let Some(y) = self.t.get(self.i) {
                    match y {
                        Lx::Sym('{') => d += 1,
                        Lx::Sym('}') if d == d0 => break,
                        Lx::Sym('}') => d -= 1,
                        _ => {}
                    }
                    self.i += 1;
                }
            }
            // a nested query has conditions of its own, which are compared on their own
            if d > 0 && matches!(x, Lx::Word(w) if w.eq_ignore_ascii_case("where") || w.eq_ignore_ascii_case("having")) {
                let d0 = d;
                while let Some(y) = self.t.get(self.i) {
                    match y {
                        Lx::Sym('(' | '[' | '{') => d += 1,
                        Lx::Sym(')' | ']' | '}') => {
                            if d == d0 {
                                break;
                            }
                            d -= 1;
                        }
                        _ => {}
                    }
                    self.i += 1;
                }
            }
        }
        if s.is_empty() {
            return None;
        }
        let k = match self.atoms.iter().position(|a| *a == s) {
            Some(k) => k,
            None => {
                self.atoms.push(s);
                self.atoms.len() - 1
            }
        };
        Some(Cond::Atom(k))
    }
}

fn eval(c: &Cond, bits: u64) -> bool {
    match c {
        Cond::Atom(k) => bits >> k & 1 == 1,
        Cond::Not(c) => !eval(c, bits),
        Cond::And(v) => v.iter().all(|c| eval(c, bits)),
        Cond::Or(v) => v.iter().any(|c| eval(c, bits)),
    }
}

/// for every WHERE and HAVING of a query: its atoms and the truth table over them (up to 10 atoms)
pub fn conditions(src: &str) -> Option<Vec<(Vec<String>, Vec<bool>)>> {
    let l: Vec<Lx> = lex(src).into_iter().filter(|x| *x != Lx::Comment).collect();
    let mut out = vec![];
    for i in 0..l.len() {
        let Lx::Word(w) = &l[i] else { continue };
        let having = w.eq_ignore_ascii_case("having");
        if !(having || w.eq_ignore_ascii_case("where")) || i == 0 || matches!(l[i - 1], Lx::Sym('.' | ':')) {
            continue;
        }
        let mut p = CP { t: &l, i: i + 1, atoms: vec![] };
        let c = match p.or() {
            Some(c) => c,
            None if having => continue,
            None => return None,
        };
        if p.atoms.len() > 10 {
            continue;
        }
        let tt = (0..1u64 << p.atoms.len()).map(|b| eval(&c, b)).collect();
        out.push((p.atoms, tt));
    }
    Some(out)
}

/// where a comment stands: L code before it on its line, T code after it, M several lines, D JavaDoc
pub fn place_class(v: &View, src: &str) -> Vec<String> {
    let mut out = vec![];
    for (i, l) in v.leaves.iter().enumerate() {
        if !l.comment {
            continue;
        }
        let mut s = String::new();
        let prev = v.leaves[..i].last();
        let next = v.leaves.get(i + 1);
        match prev {
            Some(p) if p.end_row == l.row => {
                s.push_str("after ");
                s.push_str(if p.comment { "comment" } else { &p.text });
            }
            _ => s.push_str("own"),
        }
        s.push_str(match next {
            Some(n) if n.row == l.end_row => " | code-after",
            _ => " | eol",
        });
        s.push_str(if l.row != l.end_row { " | multi" } else { " | single" });
        s.push_str(if l.text.starts_with("/**") { " | doc" } else if l.text.starts_with("/*") { " | block" } else { " | line" });
        let _ = src;
        out.push(s);
    }
    out
}

pub fn empty_type_arguments(n: Node) -> bool {
    if n.kind() == "type_arguments" && n.named_child_count() == 0 {
        return true;
    }
    let mut c = n.walk();
    let r = n.children(&mut c).any(empty_type_arguments);
    r
}
