//! Rules on how the output is laid out, read from the output alone: blanks between tokens, braces, broken lists.
use crate::oracle::View;
use tree_sitter::Node;

pub type Bad = (String, String);

fn line_of(o: &str, at: usize) -> &str {
    let s = o[..at].rfind('\n').map_or(0, |x| x + 1);
    let e = o[at..].find('\n').map_or(o.len(), |x| at + x);
    &o[s..e]
}

fn lead(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

const CALL_PARENS: &[&str] = &[
    "annotation", "constructor_declaration", "count_expression", "explicit_constructor_invocation", "fields_expression", "function_expression", "geo_location_type", "method_declaration",
    "method_invocation", "object_creation_expression", "run_as_statement", "sobject_return", "trigger_declaration", "with_snippet_expression",
];

/// the blank between two neighbouring code tokens of one line: None where no rule is claimed
fn wanted(a: &crate::ast::Leaf, b: &crate::ast::Leaf, lca: Node) -> Option<&'static str> {
    let k = lca.kind();
    let (x, y) = (a.text.as_str(), b.text.as_str());
    let angle = |l: &crate::ast::Leaf| matches!(l.parent.as_str(), "type_arguments" | "type_parameters");
    if y == "[" && (k == "formal_parameter" || k == "array_creation_expression" && x == "]") {
        return None; // dimensions behind a parameter or a sized dimension
    }
    if matches!(x, "+" | "-") && k == "unary_expression" && y.starts_with(x) {
        return Some(" ");
    }
    // a parenthesised name in front of a sign reads as a cast or as an operand
    if matches!(x, "+" | "-") && k == "binary_expression" && lca.child(0).is_some_and(|c| c.kind() == "parenthesized_expression") {
        return None;
    }
    // type parameters of a method or constructor
    if matches!(k, "method_declaration" | "constructor_declaration") && (y == "<" && angle(b) || x == ">" && angle(a)) {
        return None;
    }
    if k == "find_clause" {
        return None; // the quotes are not tokens of their own
    }
    let tight_after = matches!(x, "(" | "[" | "." | "?." | "@" | "!" | "~")
        || matches!(x, "+" | "-") && k == "unary_expression"
        || k == "update_expression"
        || x == "<" && angle(a)
        || x == ":" && matches!(k, "bound_apex_expression" | "date_literal_with_param")
        || x == "=" && k == "annotation_key_value"
        || x == ">" && angle(a) && matches!(k, "method_invocation" | "explicit_constructor_invocation");
    let tight_before = matches!(y, ";" | "," | ")" | "]" | "." | "?.")
        || matches!(y, "<" | ">") && angle(b)
        || y == ":" && k == "date_literal_with_param"
        || y == "=" && k == "annotation_key_value"
        || y == "(" && CALL_PARENS.contains(&k)
        || y == "[" && matches!(b.parent.as_str(), "array_access" | "dimensions_expr" | "dimensions")
        || y == "{" && matches!(k, "array_creation_expression" | "map_creation_expression" | "object_creation_expression")
        || x == "{" && y == "}";
    Some(if tight_after || tight_before { "" } else { " " })
}

pub fn spacing(o: &str, w: &View) -> Result<usize, Bad> {
    let root = w.tree.root_node();
    let mut n = 0;
    for p in w.leaves.windows(2) {
        let (a, b) = (&p[0], &p[1]);
        let g = &o[a.end..b.start];
        if g.contains('\n') || a.end_row != b.row {
            continue;
        }
        if a.comment || b.comment {
            // one blank or more between code and a comment
            continue;
        }
        if !g.trim().is_empty() {
            continue; // a token the tree does not show
        }
        let Some(l) = root.descendant_for_byte_range(a.start, b.end) else { continue };
        let Some(want) = wanted(a, b, l) else { continue };
        n += 1;
        if g != want {
            return Err((
                format!("blank between {}", l.kind()),
                format!("{:?} between {:?} and {:?} in {}, expected {:?}: {:?}", g, a.text, b.text, l.kind(), want, line_of(o, b.start)),
            ));
        }
    }
    Ok(n)
}

const BODIES: &[&str] = &["class_body", "interface_body", "enum_body", "block", "constructor_body", "switch_block", "accessor_list", "trigger_body"];

fn walk<'a>(n: Node<'a>, f: &mut dyn FnMut(Node<'a>) -> Result<(), Bad>) -> Result<(), Bad> {
    f(n)?;
    let mut c = n.walk();
    let ks: Vec<Node> = n.children(&mut c).collect();
    for k in ks {
        walk(k, f)?;
    }
    Ok(())
}

fn comment_in_gap(w: &View, from: usize, to: usize) -> bool {
    w.leaves.iter().any(|l| l.comment && l.start >= from && l.end <= to)
}

/// does the line begin inside a comment?
fn comment_start(o: &str, w: &View, at: usize) -> bool {
    let begin = o[..at].rfind('\n').map_or(0, |x| x + 1);
    w.leaves.iter().any(|l| l.comment && l.start < begin && l.end > begin)
}

/// braces of bodies
pub fn braces(o: &str, w: &View) -> Result<usize, Bad> {
    let mut n = 0;
    walk(w.tree.root_node(), &mut |b| {
        if !BODIES.contains(&b.kind()) {
            return Ok(());
        }
        let kids: Vec<Node> = (0..b.child_count()).map(|i| b.child(i).unwrap()).collect();
        let (Some(open), Some(close)) = (kids.first(), kids.last()) else { return Ok(()) };
        if open.kind() != "{" || close.kind() != "}" {
            return Ok(());
        }
        let bad = |what: &str, at: usize| Err((what.to_string(), format!("{} of {}: {:?}", what, b.kind(), line_of(o, at))));
        let (s, e) = (open.start_byte(), close.start_byte());
        let flat = !o[s..e].contains('\n');
        if b.kind() == "accessor_list" && (flat || comment_in_gap(w, s, e) || w.leaves.iter().any(|l| l.text == "@" && s < l.start && l.start < e)) {
            return Ok(());
        }
        n += 1;
        if flat {
            return bad("body on one line", s);
        }
        // behind the opening brace only a comment
        let rest = o[s + 1..].split('\n').next().unwrap_or("");
        if !rest.trim().is_empty() && !w.leaves.iter().any(|l| l.comment && l.start > s && o[s + 1..l.start].trim().is_empty() && !o[s + 1..l.start].contains('\n')) {
            return bad("code behind an opening brace", s);
        }
        let before = o[..e].rsplit('\n').next().unwrap_or("");
        if !before.trim().is_empty() && !comment_in_gap(w, e - before.len(), e) {
            return bad("code in front of a closing brace", e);
        }
        // the opening brace stays with its header
        let head = o[..s].rsplit('\n').next().unwrap_or("");
        let own = matches!(b.kind(), "block") && b.parent().is_some_and(|p| matches!(p.kind(), "block" | "class_body" | "constructor_body" | "parser_output"));
        if own != head.trim().is_empty() {
            let prev = w.leaves.iter().rev().find(|l| l.end <= s);
            if !prev.is_some_and(|p| p.comment) {
                return bad(if own { "a block does not start its line" } else { "an opening brace starts a line" }, s);
            }
        }
        // the closing brace stands under the line that its header starts with
        // the line where the construct that owns the body begins (a header may end on a continued line)
        let mut from = s;
        if !own {
            let mut node = b.parent();
            while let Some(p) = node {
                from = p.start_byte();
                let l = line_of(o, from);
                let first = l.as_ptr() as usize - o.as_ptr() as usize + lead(l);
                let mut q = Some(p);
                let mut begins = w.leaves.iter().any(|c| c.comment && c.start <= first && first < c.end);
                while let Some(x) = q {
                    begins |= x.start_byte() == first;
                    q = x.parent();
                }
                if begins || BODIES.contains(&p.kind()) {
                    break;
                }
                node = p.parent();
            }
        }
        let anonymous = b.parent().is_some_and(|p| p.kind() == "object_creation_expression");
        if !anonymous && before.trim().is_empty() && lead(before) != lead(line_of(o, from)) && !comment_start(o, w, from) {
            return bad("closing brace not under the line of the opening brace", e);
        }
        // else, catch, finally and the while of a do loop follow on the line of the brace
        let next = w.leaves.iter().find(|l| l.start >= close.end_byte());
        if let Some(x) = next {
            let gap = &o[close.end_byte()..x.start];
            let parts = |p: Option<Node>| p.is_some_and(|p| (0..p.child_count()).any(|i| p.child(i).is_some_and(|c| c.start_byte() == x.start && matches!(c.kind(), "else" | "catch_clause" | "finally_clause" | "while"))));
            let cont = match b.parent().map_or("", |p| p.kind()) {
                "if_statement" | "try_statement" | "do_statement" => parts(b.parent()),
                "catch_clause" => parts(b.parent().and_then(|p| p.parent())),
                _ => false,
            };
            if cont && gap != " " {
                return bad("a continuation does not follow its closing brace", x.start);
            }
        }
        Ok(())
    })?;
    Ok(n)
}

/// kinds whose parts are laid out all on one line or each on a line of its own
const ALL_OR_NOTHING: &[&str] = &[
    "argument_list", "formal_parameters", "array_initializer", "map_initializer", "comparable_list", "annotation_argument_list", "parenthesized_expression", "query_expression", "subquery",
    "type_parameters", "ternary_expression", "soql_query_body", "sosl_query_body", "and_expression", "or_expression", "select_clause", "selected_fields", "returning_clause", "switch_label",
    "trigger_declaration", "for_statement", "local_variable_declaration", "field_declaration", "constant_declaration", "function_expression", "with_data_cat_filter", "class_body", "enum_body",
    "interface_body", "block", "switch_block", "constructor_body",
];

/// kinds that are never broken between their own parts
const FLAT: &[&str] = &[
    "type_arguments", "array_type", "array_access", "dimensions", "dimensions_expr", "scoped_type_identifier", "generic_type", "dotted_identifier", "class_literal", "cast_expression",
    "instanceof_expression", "formal_parameter", "map_key_initializer", "unary_expression", "update_expression", "annotation_key_value", "comparison_expression", "bound_apex_expression",
    "from_clause", "order_by_clause", "order_expression", "limit_clause", "offset_clause", "storage_alias", "alias_expression", "return_statement", "throw_statement", "break_statement",
    "continue_statement", "expression_statement", "superclass", "interfaces", "type_list", "version_expression", "catch_clause", "array_creation_expression", "map_creation_expression",
    "object_creation_expression", "explicit_constructor_invocation", "geo_location_type", "enhanced_for_statement",
];

/// bracketed lists: items stand one level inside the line of the bracket
const BRACKETED: &[&str] = &[
    "argument_list", "formal_parameters", "array_initializer", "map_initializer", "comparable_list", "annotation_argument_list", "parenthesized_expression", "query_expression", "subquery",
    "type_parameters",
];

/// on which side of an operator a line may end
fn sides(o: &str, w: &View) -> Result<(), Bad> {
    for p in w.leaves.windows(2) {
        let (a, b) = (&p[0], &p[1]);
        if a.comment || b.comment || !o[a.end..b.start].contains('\n') {
            continue;
        }
        let operator = |l: &crate::ast::Leaf| matches!(l.parent.as_str(), "binary_expression" | "ternary_expression" | "and_expression" | "or_expression") && !l.named && !matches!(l.text.as_str(), "(" | ")");
        let word = |l: &crate::ast::Leaf, k: &str| l.text.eq_ignore_ascii_case(k) && !l.named;
        let behind = operator(a)
            || matches!(a.text.as_str(), "." | "?." | "@" | "!" | "~") && a.parent != "version_number"
            || a.parent == "unary_expression" && !a.named
            || matches!(a.parent.as_str(), "bound_apex_expression" | "annotation_key_value" | "enhanced_for_statement") && matches!(a.text.as_str(), ":" | "=")
            || ["new", "return", "throw", "instanceof", "on", "if", "for", "while", "switch", "when", "catch", "class", "interface", "enum", "trigger", "extends", "implements"].iter().any(|k| word(a, k)) && !matches!(a.parent.as_str(), "switch_expression" | "class_literal");
        let front = matches!(b.text.as_str(), "," | "]" | "=>") && b.parent != "query_expression"
            || b.text == ";" && b.parent != "for_statement" && b.parent != "local_variable_declaration"
            || matches!(b.parent.as_str(), "assignment_operator" | "assignment_expression" | "variable_declarator") && b.text.ends_with('=') && !b.text.starts_with('\'')
            || word(b, "instanceof");
        if behind || front {
            return Err((
                format!("line break {} {}", if behind { "behind" } else { "in front of" }, if behind { &a.text } else { &b.text }),
                format!("line break between {:?} ({}) and {:?} ({}): {:?}", a.text, a.parent, b.text, b.parent, line_of(o, b.start)),
            ));
        }
    }
    Ok(())
}

fn link(n: Node) -> bool {
    matches!(n.kind(), "field_access" | "method_invocation" | "array_access")
}

/// the dots of a chain of accesses and calls break together and stand in one column
fn chains(o: &str, w: &View, width: u32) -> Result<usize, Bad> {
    let mut n = 0;
    walk(w.tree.root_node(), &mut |node| {
        if !link(node) || node.parent().is_some_and(|p| link(p) && p.child(0) == Some(node)) || comment_in_gap(w, node.start_byte(), node.end_byte()) {
            return Ok(());
        }
        let (mut yes, mut no) = (vec![], vec![]);
        let mut x = node;
        while link(x) {
            let Some(obj) = x.child_by_field_name(if x.kind() == "array_access" { "array" } else { "object" }) else { break };
            if x.kind() != "array_access" {
                if o[obj.end_byte()..].starts_with('\n') {
                    yes.push(x.child(1).map_or(x.start_byte(), |d| d.start_byte()));
                } else {
                    no.push(obj.end_byte());
                }
            }
            x = obj;
        }
        if yes.is_empty() && no.len() > 1 {
            overlong(o, w, &no, width, "chain")?;
        }
        if !yes.is_empty() && !no.is_empty() {
            return Err(("chain half broken".into(), format!("{:?}", &o[node.byte_range()])));
        }
        if yes.windows(2).any(|p| lead(line_of(o, p[0])) != lead(line_of(o, p[1]))) {
            return Err(("the dots of a chain in different columns".into(), format!("{:?}", &o[node.byte_range()])));
        }
        n += (yes.len() >= 2) as usize;
        Ok(())
    })?;
    Ok(n)
}

/// places that could be broken on a line that is too long
fn overlong(o: &str, w: &View, at: &[usize], width: u32, what: &str) -> Result<(), Bad> {
    for p in at {
        let l = line_of(o, *p);
        if l.chars().count() as u32 <= width {
            continue;
        }
        let begin = l.as_ptr() as usize - o.as_ptr() as usize;
        if w.leaves.iter().any(|c| c.comment && c.start < begin + l.len() && c.end > begin || c.row != c.end_row && c.start < begin + l.len() && c.end > begin) {
            continue;
        }
        return Err((format!("{what} not broken on a line that is too long"), format!("max_width {}: {:?} before {:?}", width, l, o[*p..].chars().take(20).collect::<String>())));
    }
    Ok(())
}

/// the parts of the header of a for loop between its semicolons
fn headers(o: &str, w: &View, width: u32) -> Result<usize, Bad> {
    let mut n = 0;
    walk(w.tree.root_node(), &mut |node| {
        if node.kind() != "for_statement" || comment_in_gap(w, node.start_byte(), node.end_byte()) {
            return Ok(());
        }
        let mut parts = vec![(vec![], vec![])];
        for i in 0..node.child_count() {
            let c = node.child(i).unwrap();
            match c.kind() {
                ";" => parts.push((vec![], vec![])),
                ")" => break,
                "," => {
                    let p = parts.last_mut().unwrap();
                    let next = c.end_byte();
                    if o[next..].starts_with('\n') { p.0.push(next) } else { p.1.push(next) }
                }
                _ => {}
            }
        }
        for (yes, no) in parts {
            if !yes.is_empty() && !no.is_empty() {
                return Err(("part of a loop header half broken".into(), format!("{:?}", line_of(o, node.start_byte()))));
            }
            overlong(o, w, &no, width, "loop header")?;
            n += (yes.len() >= 2) as usize;
        }
        Ok(())
    })?;
    Ok(n)
}

/// operands of equal operators break together and stand in one column
fn operands(o: &str, w: &View, width: u32) -> Result<usize, Bad> {
    let mut n = 0;
    let op = |x: Node| {
        let o = x.child(1).filter(|_| x.kind() == "binary_expression").map(|c| o[c.byte_range()].to_string())?;
        Some(match o.as_str() {
            "*" | "/" | "%" => "*".to_string(),
            "+" | "-" => "+".to_string(),
            "<<" | ">>" | ">>>" => "<<".to_string(),
            "<" | "<=" | ">" | ">=" => "<".to_string(),
            "==" | "!=" | "<>" | "===" | "!==" => "==".to_string(),
            _ => o,
        })
    };
    walk(w.tree.root_node(), &mut |node| {
        let Some(k) = op(node) else { return Ok(()) };
        if node.parent().is_some_and(|p| op(p) == Some(k.clone()) && p.child(0) == Some(node)) || comment_in_gap(w, node.start_byte(), node.end_byte()) {
            return Ok(());
        }
        let (mut yes, mut no) = (vec![], vec![]);
        let mut x = node;
        while op(x) == Some(k.clone()) {
            let (a, b) = (x.child(0).unwrap(), x.child(1).unwrap());
            if o[a.end_byte()..b.start_byte()].contains('\n') {
                yes.push(b.start_byte());
            } else {
                no.push(b.start_byte());
            }
            x = a;
        }
        if yes.is_empty() {
            overlong(o, w, &no, width, "binary expression")?;
        }
        if !yes.is_empty() && !no.is_empty() {
            return Err(("operands half broken".into(), format!("{:?}", &o[node.byte_range()])));
        }
        if yes.windows(2).any(|p| lead(line_of(o, p[0])) != lead(line_of(o, p[1]))) {
            return Err(("equal operators in different columns".into(), format!("{:?}", &o[node.byte_range()])));
        }
        n += (yes.len() >= 2) as usize;
        Ok(())
    })?;
    Ok(n)
}

pub fn lists(o: &str, w: &View, indent: usize, width: u32) -> Result<usize, Bad> {
    let mut n = 0;
    sides(o, w)?;
    n += chains(o, w, width)? + operands(o, w, width)? + headers(o, w, width)?;
    walk(w.tree.root_node(), &mut |node| {
        let k = node.kind();
        let (aon, flat) = (ALL_OR_NOTHING.contains(&k), FLAT.contains(&k));
        if !aon && !flat {
            return Ok(());
        }
        let kids: Vec<Node> = (0..node.child_count()).map(|i| node.child(i).unwrap()).collect();
        if kids.iter().any(|c| c.is_extra()) || comment_in_gap(w, node.start_byte(), node.end_byte()) {
            return Ok(());
        }
        let mut inside = !matches!(k, "trigger_declaration" | "for_statement");
        let (mut yes, mut no) = (vec![], vec![]);
        for p in kids.windows(2) {
            let (a, b) = (p[0], p[1]);
            if a.kind() == "(" {
                inside = true;
            }
            let broken = o[a.end_byte()..b.start_byte()].contains('\n');
            if k == "for_statement" && a.kind() == "," {
                continue; // a group of its own
            }
            let counted = inside
                && !(matches!(b.kind(), "," | ";") && (a.is_named() && a.kind() != "local_variable_declaration" || k.ends_with("body") || k.ends_with("block")))
                && !matches!((k, a.kind()), ("function_expression", x) if x != "," && x != "(" && b.kind() != ")")
                && match k {
                    "and_expression" | "or_expression" => matches!(b.kind(), "AND" | "OR" | "and" | "or") || b.kind().eq_ignore_ascii_case("and") || b.kind().eq_ignore_ascii_case("or"),
                    "ternary_expression" => matches!(b.kind(), "?" | ":"),
                    "switch_label" | "local_variable_declaration" | "field_declaration" | "constant_declaration" => a.kind() == ",",
                    "with_data_cat_filter" => matches!(a.kind(), "(" | ",") || b.kind() == ")",
                    _ => true,
                };
            if b.kind() == ")" && matches!(k, "trigger_declaration" | "for_statement") {
                inside = false;
            }
            if counted && aon {
                if broken {
                    yes.push(b.start_byte());
                } else {
                    no.push(b.start_byte());
                }
            } else if broken && (flat || inside && !(matches!(k, "field_declaration" | "local_variable_declaration" | "constant_declaration") && a.kind() == "modifiers")) {
                return Err((format!("break inside {k}"), format!("line break in front of {:?} in {}: {:?}", &o[b.byte_range()].chars().take(20).collect::<String>(), k, line_of(o, node.start_byte()))));
            }
        }
        if !yes.is_empty() && !no.is_empty() {
            return Err((format!("{k} half broken"), format!("{} breaks in front of {:?} but not of {:?}", k, line_of(o, yes[0]).trim(), &o[no[0]..].chars().take(30).collect::<String>())));
        }
        let whole = kids.iter().any(|x| x.kind() == "geo_location_type") || k == "annotation_argument_list" && kids.iter().all(|x| x.kind() != "annotation_key_value");
        if yes.is_empty() && kids.len() > 2 && !whole {
            overlong(o, w, &no, width, k)?;
        }
        n += (yes.len() >= 2) as usize;
        if !yes.is_empty() && BRACKETED.contains(&k) {
            // the line of the opening bracket may begin at another level: an operand of a broken expression
            let at = lead(line_of(o, *yes.last().unwrap()));
            for (i, p) in yes.iter().enumerate() {
                let want = if i + 1 == yes.len() { at } else { at + indent };
                let l = line_of(o, *p);
                if lead(l) != want {
                    return Err((format!("{k} at the wrong column"), format!("column {} instead of {}: {:?} opened at {:?}", lead(l), want, l, line_of(o, node.start_byte()))));
                }
            }
        }
        Ok(())
    })?;
    Ok(n)
}

/// where comments between members and statements stand
pub fn comments(o: &str, w: &View, indent: usize) -> Result<usize, Bad> {
    let mut n = 0;
    for (i, c) in w.leaves.iter().enumerate() {
        if !c.comment {
            continue;
        }
        let l = line_of(o, c.start);
        let begin = l.as_ptr() as usize - o.as_ptr() as usize;
        if !o[begin..c.start].trim().is_empty() {
            // behind something on its line
            let prev = &w.leaves[i - 1];
            let gap = &o[prev.end..c.start];
            if gap != " " {
                return Err(("blank in front of a comment".into(), format!("{:?} in front of {:?}: {:?}", gap, c.text, l)));
            }
            n += 1;
            continue;
        }
        // the later lines of a comment that starts its line stand below the first
        let doc = c.text.starts_with("/**") && c.text != "/**/";
        let rows: Vec<&str> = c.text.split('\n').collect();
        for (j, r) in rows.iter().enumerate().skip(1) {
            let ok = if doc {
                lead(r) == lead(l) + 1
                    && if j + 1 == rows.len() { r.trim_start() == "*/" } else { r.trim_start() == "*" || (r.trim_start().starts_with("* ") && !r.trim_start().starts_with("*  ")) }
            } else {
                r.is_empty() || lead(r) == lead(l)
            };
            if !ok {
                return Err(("line of a comment at the wrong column".into(), format!("{:?} of {:?} in column {}", r, c.text, lead(l))));
            }
        }
        if doc && rows.len() > 1 && rows[0] != "/**" {
            return Err(("text behind the opening of a JavaDoc comment".into(), format!("{:?}", c.text)));
        }
        // on a line of its own: where the next code begins
        let Some(next) = w.leaves[i + 1..].iter().find(|x| !x.comment) else {
            if lead(l) != 0 {
                return Err(("comment at the end of the file is indented".into(), format!("{:?}", l)));
            }
            n += 1;
            continue;
        };
        if next.row == c.end_row || !o[o[..next.start].rfind('\n').map_or(0, |x| x + 1)..next.start].trim().is_empty() {
            continue;
        }
        let want = lead(line_of(o, next.start)) + if next.text == "}" { indent } else { 0 };
        if lead(l) != want {
            return Err(("comment at the wrong column".into(), format!("column {} instead of {}: {:?} above {:?}", lead(l), want, l, line_of(o, next.start))));
        }
        n += 1;
    }
    Ok(n)
}
