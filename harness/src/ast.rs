//! Independent view of Apex source: tree-sitter parse, normalised code tree, comments, tokens.
use tree_sitter::{Node, Parser, Tree};

pub fn parse(src: &str) -> Option<Tree> {
    let mut p = Parser::new();
    p.set_language(&tree_sitter_sfapex::apex::LANGUAGE.into()).ok()?;
    let t = p.parse(src, None)?;
    if t.root_node().has_error() {
        None
    } else {
        Some(t)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct N {
    pub kind: String,
    pub text: String, // leaves only
    pub field: String,
    pub ch: Vec<N>,
}

/// named leaves whose spelling is a keyword or a number suffix: compared without case
fn ci_leaf(kind: &str) -> bool {
    matches!(
        kind,
        "this" | "super" | "void_type" | "boolean_type" | "boolean" | "null_literal" | "date_literal" | "date_time"
            | "decimal_floating_point_literal" | "int" | "using_scope_type" | "with_user_id_type"
            | "order_direction" | "order_null_direction" | "for_type" | "update_type" | "fields_type"
            | "with_data_cat_filter_type" | "value_comparison_operator" | "set_comparison_operator"
            | "in_type" | "all_rows_clause" | "with_type" | "dml_type"
            | "global" | "public" | "testMethod" | "webservice" | "protected" | "override" | "private" | "virtual"
            | "abstract" | "static" | "final" | "transient" | "with_sharing" | "without_sharing" | "inherited_sharing"
            | "before_insert" | "before_update" | "before_delete" | "after_insert" | "after_update" | "after_delete"
            | "after_undelete" | "insert" | "update" | "delete" | "merge" | "undelete" | "upsert" | "user" | "system"
            | "using_phrase_search" | "using_advanced_search" | "with_highlight" | "modifier"
    )
}

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

pub fn norm(node: Node, src: &str) -> N {
    let kind = node.kind().to_string();
    let mut ch = vec![];
    let mut c = node.walk();
    if c.goto_first_child() {
        loop {
            let x = c.node();
            if !x.is_extra() {
                let mut n = norm(x, src);
                n.field = c.field_name().unwrap_or("").to_string();
                // `@isTest()` means `@isTest`
                let empty_args = n.kind == "annotation_argument_list" && n.ch.iter().all(|k| k.kind == "(" || k.kind == ")");
                // an empty declaration or statement standing alone in a body
                let stray = n.kind == ";"
                    && matches!(kind.as_str(), "block" | "class_body" | "interface_body" | "constructor_body" | "parser_output" | "enum_body" | "trigger_body");
                // the optional AS of an alias
                let opt_as = kind == "storage_alias" && n.text == "as";
                if !(empty_args || stray || opt_as) {
                    ch.push(n);
                }
            }
            if !c.goto_next_sibling() {
                break;
            }
        }
    }
    let mut text = String::new();
    if node.child_count() == 0 {
        if node.is_named() {
            let t = &src[node.byte_range()];
            text = if ci_leaf(&kind) { squeeze(t).to_lowercase() } else { t.to_string() };
        } else {
            // anonymous token: its kind is the canonical spelling of the keyword or operator
            let t = squeeze(&src[node.byte_range()]).to_lowercase();
            text = t.chars().filter(|c| !c.is_whitespace()).collect();
            if kind.trim().is_empty() {
                // the literal blank of `merge a b`
                text.clear();
            }
        }
    }
    // all keyword-like aliases: an `identifier` leaf is compared exactly
    match kind.as_str() {
        "modifiers" => {
            let (mut a, b): (Vec<N>, Vec<N>) = ch.into_iter().partition(|n| n.kind == "annotation");
            a.extend(b);
            ch = a;
        }
        // redundant grouping: the tree already shows the grouping
        "where_clause" | "having_clause" | "and_expression" | "or_expression" | "not_expression" => {
            ch.retain(|n| n.kind != "(" && n.kind != ")");
            if kind == "and_expression" || kind == "or_expression" {
                let mut flat = vec![];
                for n in ch {
                    if n.kind == kind {
                        flat.extend(n.ch);
                    } else {
                        flat.push(n);
                    }
                }
                ch = flat;
            }
        }
        "element_value_array_initializer" => {
            // optional trailing comma
            if ch.len() >= 2 && ch[ch.len() - 2].kind == "," {
                let at = ch.len() - 2;
                ch.remove(at);
            }
        }
        _ => {}
    }
    N { kind, text, field: String::new(), ch }
}

pub fn code(src: &str) -> Option<N> {
    let t = parse(src)?;
    Some(norm(t.root_node(), src))
}

/// first difference between two normalised trees, as (signature, human text)
pub fn diff(a: &N, b: &N, path: &mut Vec<String>) -> Option<(String, String)> {
    if a.kind != b.kind {
        return Some((
            format!("{}: {} -> {}", path.last().cloned().unwrap_or_default(), a.kind, b.kind),
            format!("at {}: `{}` became `{}`", path.join("/"), flat(a), flat(b)),
        ));
    }
    if a.text != b.text {
        return Some((
            format!("{}: {} text", path.last().cloned().unwrap_or_default(), a.kind),
            format!("at {}: {} `{}` became `{}`", path.join("/"), a.kind, a.text, b.text),
        ));
    }
    if a.field != b.field {
        return Some((
            format!("{}: {} field {} -> {}", path.last().cloned().unwrap_or_default(), a.kind, a.field, b.field),
            format!("at {}: field {} became {}", path.join("/"), a.field, b.field),
        ));
    }
    path.push(a.kind.clone());
    let n = a.ch.len().min(b.ch.len());
    for i in 0..n {
        if a.ch[i].kind != b.ch[i].kind && a.ch.len() != b.ch.len() {
            let r = (
                format!("{}: children [{}] -> [{}]", a.kind, a.ch[i].kind, b.ch[i].kind),
                format!("at {}: `{}` became `{}`", path.join("/"), flat(a), flat(b)),
            );
            return Some(r);
        }
        if let Some(d) = diff(&a.ch[i], &b.ch[i], path) {
            return Some(d);
        }
    }
    if a.ch.len() != b.ch.len() {
        let more = if a.ch.len() > n { format!("lost {}", a.ch[n].kind) } else { format!("gained {}", b.ch[n].kind) };
        return Some((
            format!("{}: {}", a.kind, more),
            format!("at {}: {}: `{}` became `{}`", path.join("/"), more, flat(a), flat(b)),
        ));
    }
    path.pop();
    None
}

pub fn flat(n: &N) -> String {
    let mut v = vec![];
    fn go<'a>(n: &'a N, v: &mut Vec<&'a str>) {
        if n.ch.is_empty() {
            v.push(&n.text)
        }
        for c in &n.ch {
            go(c, v)
        }
    }
    go(n, &mut v);
    let s = v.join(" ");
    if s.chars().count() > 160 {
        s.chars().take(160).collect::<String>() + "…"
    } else {
        s
    }
}

#[derive(Clone, Debug)]
pub struct Leaf {
    pub kind: String,
    pub text: String,
    pub start: usize,
    pub end: usize,
    pub row: usize,
    pub end_row: usize,
    pub named: bool,
    pub comment: bool,
    pub parent: String,
    pub depth: usize,
}

/// all leaves in source order, comments included
pub fn leaves(tree: &Tree, src: &str) -> Vec<Leaf> {
    let mut out = vec![];
    fn go(n: Node, src: &str, depth: usize, out: &mut Vec<Leaf>) {
        if n.child_count() == 0 {
            out.push(Leaf {
                kind: n.kind().to_string(),
                text: src[n.byte_range()].to_string(),
                start: n.start_byte(),
                end: n.end_byte(),
                row: n.start_position().row,
                end_row: n.end_position().row,
                named: n.is_named(),
                comment: n.is_extra(),
                parent: n.parent().map(|p| p.kind().to_string()).unwrap_or_default(),
                depth,
            });
        }
        let mut c = n.walk();
        for k in n.children(&mut c) {
            go(k, src, depth + 1, out);
        }
    }
    go(tree.root_node(), src, 0, &mut out);
    out
}

/// every node, parents first
pub fn each<'a>(n: tree_sitter::Node<'a>, f: &mut dyn FnMut(tree_sitter::Node<'a>)) {
    f(n);
    for i in 0..n.child_count() {
        each(n.child(i).unwrap(), f);
    }
}
