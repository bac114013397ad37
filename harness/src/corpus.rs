//! Real Apex code (the repository's own fixtures, copied to /verif/corpus) as token sequences.
use crate::ast;
use crate::gen::{Tape, Tok, K};
use std::collections::BTreeMap;
use tree_sitter::Node;

#[derive(Clone, Debug)]
pub struct Span {
    pub kind: String,
    pub a: usize,
    pub b: usize,
}

#[derive(Clone, Debug)]
pub struct Frag {
    /// 0 declaration, 1 class member, 2 statement
    pub level: u8,
    pub toks: Vec<Tok>,
    pub spans: Vec<Span>,
    pub name: String,
}

pub struct Corpus {
    pub frags: Vec<Frag>,
    /// kind -> (fragment, span)
    pub pool: BTreeMap<String, Vec<(usize, usize)>>,
    /// whole files: (name, text)
    pub files: Vec<(String, String)>,
}

pub const BODIES: &[&str] = &[
    "class_body", "interface_body", "enum_body", "block", "constructor_body", "trigger_body", "switch_block",
    "accessor_list", "parser_output",
];

const POOL_KINDS: &[&str] = &[
    "binary_expression", "method_invocation", "field_access", "array_access", "ternary_expression", "argument_list",
    "object_creation_expression", "cast_expression", "parenthesized_expression", "query_expression",
    "map_creation_expression", "array_creation_expression", "block", "if_statement", "for_statement",
    "enhanced_for_statement", "while_statement", "do_statement", "try_statement", "switch_expression",
    "expression_statement", "local_variable_declaration", "return_statement", "formal_parameters", "modifiers",
    "generic_type", "class_body", "where_clause", "select_clause", "from_clause", "order_by_clause",
    "group_by_clause", "accessor_list", "annotation", "method_declaration", "field_declaration",
    "unary_expression", "update_expression", "instanceof_expression", "assignment_expression", "type_arguments",
    "string_literal", "dml_expression", "throw_statement", "catch_clause", "finally_clause", "enum_body",
    "interface_body", "soql_query_body", "java_field_access", "class_literal", "run_as_statement",
];

fn tok_kind(n: &Node, text: &str) -> K {
    if n.is_named() {
        match n.kind() {
            "string_literal" | "multiline_string_literal" => K::Str,
            "int" | "decimal_floating_point_literal" | "decimal" => K::Num,
            "this" | "super" | "void_type" | "boolean" | "null_literal" => K::Kw,
            "global" | "public" | "protected" | "override" | "private" | "virtual" | "abstract" | "static" | "final"
            | "transient" | "with_sharing" | "without_sharing" | "inherited_sharing" => K::Kw,
            _ => K::Word,
        }
    } else if text.chars().all(|c| c.is_alphabetic() || c == ' ') {
        K::Kw
    } else {
        K::Op
    }
}

struct Walk<'a> {
    src: &'a str,
    toks: Vec<Tok>,
    spans: Vec<Span>,
    fixed_next: bool,
}

impl Walk<'_> {
    fn go(&mut self, n: Node, mut boundary: bool, mut edge: bool) {
        let start = self.toks.len();
        if n.child_count() == 0 {
            let t = self.src[n.byte_range()].split_whitespace().collect::<Vec<_>>().join(" ");
            if t.is_empty() {
                self.fixed_next = true;
                return;
            }
            let k = tok_kind(&n, &t);
            let t = if k == K::Str { self.src[n.byte_range()].to_string() } else { t };
            self.toks.push(Tok { s: t, k, boundary, edge, fixed: self.fixed_next, glued: false });
            self.fixed_next = false;
        } else {
            let body = BODIES.contains(&n.kind());
            let mut members = 0;
            let mut c = n.walk();
            for k in n.children(&mut c) {
                if k.is_extra() {
                    continue;
                }
                if body && (k.is_named() || k.kind() == "}") {
                    let (b, e) = if k.kind() == "}" { (false, true) } else { (members > 0, members == 0) };
                    members += 1;
                    self.go(k, b || boundary, e || edge);
                } else {
                    self.go(k, boundary, edge);
                }
                if self.toks.len() > start {
                    boundary = false;
                    edge = false;
                }
            }
        }
        // the grammar wants a blank between the records of a merge, which a broken expression does not keep
        // (see the known findings of C06): leave these as they are
        let merge = n.kind() == "dml_expression" && self.toks[start..].first().is_some_and(|t| t.s.eq_ignore_ascii_case("merge"));
        if merge {
            self.spans.retain(|s| s.a < start);
        }
        if n.is_named() && POOL_KINDS.contains(&n.kind()) && self.toks.len() > start {
            self.spans.push(Span { kind: n.kind().to_string(), a: start, b: self.toks.len() });
        }
    }
}

fn frag(n: Node, src: &str, level: u8, name: &str) -> Frag {
    let mut w = Walk { src, toks: vec![], spans: vec![], fixed_next: false };
    w.go(n, false, false);
    for i in 1..w.toks.len() {
        if w.toks[i - 1].s == "@" {
            w.toks[i].glued = true;
        }
    }
    Frag { level, toks: w.toks, spans: w.spans, name: name.to_string() }
}

fn collect(n: Node, src: &str, name: &str, out: &mut Vec<Frag>) {
    let mut c = n.walk();
    for k in n.named_children(&mut c) {
        if k.is_extra() {
            continue;
        }
        let level = match n.kind() {
            "parser_output" => 0,
            "class_body" => 1,
            "block" | "constructor_body" => 2,
            _ => 9,
        };
        if level < 9 && k.kind() != "explicit_constructor_invocation" && !(level == 0 && !k.kind().ends_with("_declaration")) {
            let f = frag(k, src, level, name);
            if !f.toks.is_empty() && f.toks.len() <= 260 {
                out.push(f);
            }
        }
        collect(k, src, name, out);
    }
}

pub fn load() -> Corpus {
    let dir = std::env::var("AFMT_CORPUS").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../corpus").to_string());
    let mut names: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_else(|_| vec![]);
    names.sort();
    let mut frags = vec![];
    let mut files = vec![];
    for p in names {
        let Ok(s) = std::fs::read_to_string(&p) else { continue };
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        let Some(t) = ast::parse(&s) else { continue };
        // only the kinds of file the tool formats: declarations at the top level
        let mut c = t.root_node().walk();
        let ok = t.root_node().named_children(&mut c).all(|k| {
            k.is_extra()
                || matches!(k.kind(), "class_declaration" | "interface_declaration" | "enum_declaration" | "trigger_declaration")
        });
        if !ok {
            continue;
        }
        collect(t.root_node(), &s, &name, &mut frags);
        files.push((name, s));
    }
    let mut pool: BTreeMap<String, Vec<(usize, usize)>> = BTreeMap::new();
    for (i, f) in frags.iter().enumerate() {
        for (j, s) in f.spans.iter().enumerate() {
            if s.b - s.a <= 60 {
                pool.entry(s.kind.clone()).or_default().push((i, j));
            }
        }
    }
    Corpus { frags, pool, files }
}

fn op(s: &str) -> Tok {
    Tok { s: s.into(), k: K::Op, boundary: false, edge: false, fixed: false, glued: false }
}
fn kw(s: &str) -> Tok {
    Tok { k: K::Kw, ..op(s) }
}
fn word(s: &str) -> Tok {
    Tok { k: K::Word, ..op(s) }
}

impl Corpus {
    /// a program made of 1..=3 fragments of real code with up to 3 subtrees swapped for others of the same kind
    pub fn program(&self, t: &mut Tape) -> (Vec<Tok>, Vec<String>) {
        let mut labels = vec![];
        let mut out = vec![];
        let n = 1 + t.pick(3);
        let mut level = 9;
        let mut parts: Vec<Vec<Tok>> = vec![];
        for _ in 0..n {
            let mut i = t.pick(self.frags.len());
            if level < 9 {
                // same level as the first
                for d in 0..self.frags.len() {
                    let j = (i + d) % self.frags.len();
                    if self.frags[j].level == level {
                        i = j;
                        break;
                    }
                }
            }
            let f = &self.frags[i];
            level = f.level;
            labels.push(format!("corpus.level{}", level));
            let mut toks = f.toks.clone();
            let swaps = t.pick(4);
            let mut lo = toks.len();
            for _ in 0..swaps {
                if f.spans.is_empty() {
                    break;
                }
                let sp = &f.spans[t.pick(f.spans.len())];
                if sp.b > lo {
                    continue;
                }
                let Some(c) = self.pool.get(&sp.kind) else { continue };
                let (fi, si) = c[t.pick(c.len())];
                let d = &self.frags[fi].spans[si];
                let mut new = self.frags[fi].toks[d.a..d.b].to_vec();
                let old = &f.toks[sp.a];
                new[0].boundary = old.boundary;
                new[0].edge = old.edge;
                new[0].fixed = old.fixed;
                toks.splice(sp.a..sp.b, new);
                lo = sp.a;
                labels.push("corpus.swap".into());
            }
            parts.push(toks);
        }
        match level {
            1 => out.extend([kw("class"), word("A"), op("{")]),
            2 => out.extend([
                kw("class"),
                word("A"),
                op("{"),
                Tok { edge: true, ..kw("void") },
                word("m"),
                op("("),
                op(")"),
                op("{"),
            ]),
            _ => {}
        }
        for (i, mut p) in parts.into_iter().enumerate() {
            p[0].boundary = i > 0;
            p[0].edge = i == 0 && level > 0;
            out.extend(p);
        }
        if level >= 1 {
            out.push(Tok { edge: true, ..op("}") });
        }
        if level >= 2 {
            out.push(Tok { edge: true, ..op("}") });
        }
        (out, labels)
    }
}
