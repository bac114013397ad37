//! The properties: for each one a generator of cases and an oracle that decides a case.
use crate::ast::{self, Leaf};
use crate::cli;
use crate::engine::{Case, Check, Ctx, Out, P, SEMI};
use crate::fmt::{self, Cfg};
use crate::oracle::{self, comment_text, has_anon_class, members, strip_comments, view, View};
use crate::render::Layout;
use std::collections::BTreeMap;

pub const ASSUMPTIONS: &[&str] = &[
    "the tree-sitter-sfapex grammar (2.4.0), used on its own by the oracle, reads Apex source as its authors intend",
    "programs come from a grammar-directed generator and from the fixture corpus with random subtree swaps; the search is random, so a pass means no counter-example among the evaluated cases",
    "the library is built with optimisation, overflow checks and debug assertions; the afmt binary from the same sources",
];

pub fn abort_is_violation(id: &str) -> bool {
    matches!(id, "C14" | "C18")
}

pub(crate) fn fail(sig: impl Into<String>, msg: impl Into<String>) -> Out {
    Out::Fail { sig: sig.into(), msg: msg.into() }
}
pub(crate) fn discard(s: &str) -> Out {
    Out::Discard(s.into())
}
pub(crate) fn pass(nontrivial: bool) -> Out {
    Out::Pass { nontrivial }
}

#[macro_export]
macro_rules! formatted {
    ($src:expr, $cfg:expr) => {
        match $crate::fmt::format($src, $cfg) {
            Ok(o) => o,
            Err(_) => return $crate::checks::discard("refused by the tool (C14 decides refusals)"),
        }
    };
}

#[macro_export]
macro_rules! some {
    ($e:expr, $why:expr) => {
        match $e {
            Some(x) => x,
            None => return $crate::checks::discard($why),
        }
    };
}

pub fn show(a: &str) -> String {
    a.chars().take(900).collect()
}

pub fn first_diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.split('\n').zip(b.split('\n')).enumerate() {
        if x != y {
            return format!("line {}: {:?} vs {:?}", i + 1, x, y);
        }
    }
    format!("lengths {} vs {} lines", a.split('\n').count(), b.split('\n').count())
}

// ------------------------------------------------------------------ generators

pub(crate) fn cfg_of(c: &mut Ctx, case: &mut Case) {
    case.w = c.width();
    case.i = c.indent();
}

/// random layout without comments
pub(crate) fn plain_layout(c: &mut Ctx) -> Layout {
    Layout {
        ws: [1, 1, 0, 2, 3][c.t.pick(5)],
        blanks: [20, 0, 50][c.t.pick(3)],
        kw_case: c.t.chance(40),
        crlf: c.t.chance(10),
        wild: [0, 0, 5][c.t.pick(3)],
        ..Default::default()
    }
}

pub(crate) fn gen_code(c: &mut Ctx) -> Option<Case> {
    let mode = c.t.pick(10);
    let p = match mode {
        0..=5 => P::default(),
        _ => P { off: SEMI.to_vec(), ..P::default() },
    };
    let toks = c.program(&p);
    let mut l = plain_layout(c);
    match mode {
        0..=5 => {}
        6 | 7 => {
            l.comments = 10;
            l.comments_at_boundaries_only = true;
        }
        _ => l.comments = [3, 8, 1][c.t.pick(3)],
    }
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    Some(case)
}

fn gen_soql(c: &mut Ctx) -> Option<Case> {
    let p = P { bias: Some(1), corpus: 15, fuel: 70, long: 20, ..P::default() };
    let toks = c.program(&p);
    let l = plain_layout(c);
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    Some(case)
}

fn gen_strings(c: &mut Ctx) -> Option<Case> {
    let p = P { strings: true, corpus: 15, fuel: 60, ..P::default() };
    let toks = c.program(&p);
    let l = plain_layout(c);
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    Some(case)
}

pub(crate) fn gen_plain(c: &mut Ctx) -> Option<Case> {
    let toks = c.program(&P::default());
    let l = plain_layout(c);
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    Some(case)
}

/// no stray semicolons, no comments
pub(crate) fn gen_clean(c: &mut Ctx) -> Option<Case> {
    let toks = c.program(&P { off: SEMI.to_vec(), ..P::default() });
    let l = plain_layout(c);
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    Some(case)
}

/// mostly comments on lines of their own
fn gen_own_line_comments(c: &mut Ctx) -> Option<Case> {
    if c.t.chance(25) {
        return gen_boundary_comments(c);
    }
    let toks = c.program(&P { off: SEMI.to_vec(), ..P::default() });
    let mut l = plain_layout(c);
    l.wild = 0;
    l.comments = [20, 10, 45][c.t.pick(3)];
    l.comments_at_boundaries_only = true;
    l.own_lines = true;
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    Some(case)
}

pub(crate) fn gen_boundary_comments(c: &mut Ctx) -> Option<Case> {
    let toks = c.program(&P { off: SEMI.to_vec(), ..P::default() });
    let mut l = plain_layout(c);
    l.wild = 0;
    l.comments = [15, 5, 40][c.t.pick(3)];
    if c.prop == "C05" && c.t.chance(30) {
        l.clauses = 40;
    }
    l.comments_at_boundaries_only = true;
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    Some(case)
}

pub(crate) fn gen_comments(c: &mut Ctx) -> Option<Case> {
    let toks = c.program(&P { off: SEMI.to_vec(), ..P::default() });
    let mut l = plain_layout(c);
    l.wild = 0;
    if c.t.chance(50) {
        l.comments = [15, 5, 40][c.t.pick(3)];
        l.comments_at_boundaries_only = true;
    } else {
        l.comments = [1, 4, 10][c.t.pick(3)];
    }
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    case.p.insert("boundary".into(), if l.comments_at_boundaries_only { "1" } else { "0" }.into());
    cfg_of(c, &mut case);
    Some(case)
}

fn gen_idem(c: &mut Ctx) -> Option<Case> {
    if c.t.chance(50) {
        gen_boundary_comments(c)
    } else {
        gen_plain(c)
    }
}

// ------------------------------------------------------------------ C01, C02, C03

/// the code of a source text; comments may change how an ambiguous text parses, so a text counts only
/// if it reads the same without them
pub(crate) fn stable_code(src: &str) -> Option<ast::N> {
    let a = ast::code(src)?;
    let b = ast::code(&strip_comments(src)?)?;
    if a == b {
        Some(a)
    } else {
        None
    }
}

pub(crate) fn code_tokens(src: &str) -> usize {
    view(src).map_or(0, |v| v.code().len())
}

fn code_diff(a: &ast::N, out: &str) -> Option<Out> {
    let Some(b) = ast::code(out) else {
        return Some(fail("the output is not valid Apex", show(out)));
    };
    if let Some((s, m)) = ast::diff(a, &b, &mut vec![]) {
        // again without the comments
        if let Some(b2) = strip_comments(out).and_then(|s| ast::code(&s)) {
            if ast::diff(a, &b2, &mut vec![]).is_none() {
                return None;
            }
        }
        return Some(fail(cast_of_update(&s, out), m));
    }
    None
}

/// `WHERE (a IN :-(b)) UPDATE TRACKING` without the outer parentheses: the grammar reads
/// `(b) UPDATE TRACKING` as the cast of a DML expression
fn cast_of_update(sig: &str, out: &str) -> String {
    if sig.ends_with("parenthesized_expression -> cast_expression") && (out.contains(") UPDATE ") || out.contains(")\n")) {
        return "a bound expression in parentheses before UPDATE becomes a cast".into();
    }
    sig.into()
}

fn d_c01(c: &Case) -> Out {
    let a = some!(stable_code(&c.src), "not valid Apex");
    let o = formatted!(&c.src, c.cfg());
    if let Some(f) = code_diff(&a, &o) {
        return f;
    }
    pass(o != c.src && code_tokens(&c.src) >= 12)
}

fn queries<'a>(n: &'a ast::N, out: &mut Vec<&'a ast::N>) {
    if n.kind == "query_expression" {
        out.push(n);
    }
    for k in &n.ch {
        queries(k, out);
    }
}

pub(crate) fn count_kind(n: &ast::N, kinds: &[&str]) -> usize {
    (kinds.contains(&n.kind.as_str()) as usize) + n.ch.iter().map(|k| count_kind(k, kinds)).sum::<usize>()
}

fn d_c02(c: &Case) -> Out {
    let a = some!(stable_code(&c.src), "not valid Apex");
    let mut qa = vec![];
    queries(&a, &mut qa);
    if qa.is_empty() {
        return discard("no query");
    }
    let o = formatted!(&c.src, c.cfg());
    let Some(b) = ast::code(&o) else { return fail("the output is not valid Apex", show(&o)) };
    let mut qb = vec![];
    queries(&b, &mut qb);
    if qa.len() != qb.len() {
        return fail("a query was lost or gained", format!("{} queries became {}\n{}", qa.len(), qb.len(), show(&o)));
    }
    let mut big = false;
    for (x, y) in qa.iter().zip(&qb) {
        if let Some((s, m)) = ast::diff(x, y, &mut vec![]) {
            return fail(cast_of_update(&s, &o), m);
        }
        big |= count_kind(
            x,
            &[
                "where_clause", "order_by_clause", "group_by_clause", "having_clause", "limit_clause", "offset_clause",
                "with_clause", "using_clause", "subquery", "in_clause", "returning_clause", "for_clause", "update_clause",
            ],
        ) >= 1;
    }
    // the operators and the parentheses of a condition decide how rows are selected: check the truth
    // tables with a parser of our own
    let (wa, wb) = (oracle::conditions(&c.src), oracle::conditions(&o));
    if let (Some(wa), Some(wb)) = (wa, wb) {
        if wa != wb {
            return fail("a condition selects different rows", format!("{:?}\n{:?}", wa, wb));
        }
    }
    pass(big)
}

fn verbatim(v: &View) -> Vec<(String, String)> {
    v.code()
        .iter()
        .filter(|l| {
            matches!(
                l.kind.as_str(),
                "identifier" | "type_identifier" | "string_literal" | "int" | "decimal" | "date" | "date_time" | "currency_literal"
            )
        })
        .map(|l| (l.kind.clone(), l.text.clone()))
        .collect()
}

fn d_c03(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    let o = formatted!(&c.src, c.cfg());
    // string literals as a lexer of our own sees them
    let (sa, sb) = (oracle::lex_strings(&c.src), oracle::lex_strings(&o));
    if sa != sb {
        let i = sa.iter().zip(&sb).position(|(x, y)| x != y).unwrap_or(sa.len().min(sb.len()));
        return fail("string literal changed", format!("{:?} became {:?}\n{}", sa.get(i), sb.get(i), show(&o)));
    }
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    let (a, b) = (verbatim(&v), verbatim(&w));
    for (x, y) in a.iter().zip(&b) {
        if x != y {
            return fail(format!("{} changed", x.0), format!("{:?} became {:?}\n{}", x, y, show(&o)));
        }
    }
    if a.len() != b.len() {
        return fail("names or literals lost or gained", format!("{} became {}\n{}", a.len(), b.len(), show(&o)));
    }
    pass(o != c.src && a.len() >= 4 && (!sa.is_empty() || !c.src.is_ascii()))
}

// ------------------------------------------------------------------ C04, C05: comments

fn boundary_only(v: &View) -> bool {
    boundary_or(v, &|_| false)
}

/// a line comment behind the end of a branch, on its line, and in front of the word of the next one
fn at_clause(k: tree_sitter::Node) -> bool {
    let (Some(p), Some(n)) = (k.prev_sibling(), k.next_sibling()) else { return false };
    k.kind() == "line_comment"
        && p.end_position().row == k.start_position().row
        && matches!(p.kind(), "block" | "catch_clause" | "finally_clause" | "if_statement" | "expression_statement")
        && matches!(n.kind().to_ascii_lowercase().as_str(), "else" | "catch_clause" | "finally_clause" | "while")
}

fn boundary_or(v: &View, also: &dyn Fn(tree_sitter::Node) -> bool) -> bool {
    // every comment hangs directly below a body
    fn go(n: tree_sitter::Node, also: &dyn Fn(tree_sitter::Node) -> bool) -> bool {
        let mut c = n.walk();
        let body = oracle::is_body(n.kind());
        for k in n.children(&mut c) {
            if k.is_extra() && !body && !also(k) {
                return false;
            }
            if k.is_extra() {
                // a comment in front of the comma of an enum belongs to the inside of a member
                let mut s = k.next_sibling();
                while s.is_some_and(|s| s.is_extra()) {
                    s = s.and_then(|s| s.next_sibling());
                }
                if s.is_some_and(|s| s.kind() == ",") {
                    return false;
                }
            }
            if !go(k, also) {
                return false;
            }
        }
        true
    }
    go(v.tree.root_node(), also)
}

fn toplevel_ok(v: &View) -> bool {
    let mut cur = v.tree.root_node().walk();
    let r = v.tree.root_node().named_children(&mut cur).all(|k| {
        k.is_extra() || matches!(k.kind(), "class_declaration" | "interface_declaration" | "enum_declaration" | "trigger_declaration")
    });
    r
}

fn d_c04(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if stable_code(&c.src).is_none() {
        return discard("reads differently without its comments");
    }
    let n = v.comments().len();
    if n == 0 {
        return discard("no comment");
    }
    if !toplevel_ok(&v) {
        return discard("anonymous Apex at the top level");
    }
    let at_boundaries = boundary_only(&v);
    let o = match fmt::format(&c.src, c.cfg()) {
        Ok(o) => o,
        Err(e) => {
            if at_boundaries {
                return fail("refused a comment between members or statements", e);
            }
            return discard("refused: a comment has no place in the output");
        }
    };
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    let mut a: Vec<String> = v.comments().iter().map(|l| comment_text(&l.text)).collect();
    let mut b: Vec<String> = w.comments().iter().map(|l| comment_text(&l.text)).collect();
    if !at_boundaries {
        a.sort();
        b.sort();
    }
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let sig = if a.len() != b.len() {
            if a.len() > b.len() { "comment lost" } else { "comment duplicated" }
        } else {
            "comment text or order changed"
        };
        return fail(sig, format!("{:?} vs {:?}\n{}", a.get(i), b.get(i), show(&o)));
    }
    pass(true)
}

#[derive(Debug, PartialEq, Clone)]
struct Place {
    before: usize,
    /// behind code on its line: 0 no, 1 yes, 2 either is fine
    trailing: u8,
    /// nothing else stands on its lines
    alone: bool,
    text: String,
}

fn weightless(l: &Leaf) -> bool {
    matches!(l.text.as_str(), "(" | ")" | ";" | ",") || l.text.eq_ignore_ascii_case("as")
}

fn places(v: &View, src: &str) -> Vec<Place> {
    let mut out = vec![];
    let mut n = 0;
    let mut prev: Option<&Leaf> = None;
    for l in &v.leaves {
        if l.comment {
            let alone = src[..l.start].lines().last().is_none_or(|x| x.trim().is_empty() || src[..l.start].ends_with('\n'))
                && src[l.end..].split('\n').next().is_none_or(|x| x.trim().is_empty() || l.text.ends_with('\n'));
            let trailing = match prev {
                Some(p) if p.end_row == l.row => {
                    // the first comment of a body and one that takes several lines go to a line of their own
                    if p.text == "{" || p.text == "," || p.comment || l.text.starts_with("/**") || l.row != l.end_row || !matches!(p.text.as_str(), ";" | "}") {
                        2
                    } else {
                        1
                    }
                }
                Some(p) if p.comment => 2,
                _ => 0,
            };
            out.push(Place { before: n, trailing, alone, text: comment_text(&l.text) });
        } else if !weightless(l) {
            n += 1;
        }
        prev = Some(l);
    }
    out
}

fn d_c05(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if stable_code(&c.src).is_none() {
        return discard("reads differently without its comments");
    }
    if v.comments().is_empty() || !boundary_or(&v, &at_clause) {
        return discard("no comment at a boundary");
    }
    let o = formatted!(&c.src, c.cfg());
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    let (a, b) = (places(&v, &c.src), places(&w, &o));
    if a.len() != b.len() {
        return discard("comments lost (C04)");
    }
    let (na, nb) = (v.code().iter().filter(|l| !weightless(l)).count(), w.code().iter().filter(|l| !weightless(l)).count());
    if na != nb {
        return discard("code changed (C01)");
    }
    for (x, y) in a.iter().zip(&b) {
        if x.before != y.before {
            return fail("comment moved to other code", format!("{:?} became {:?}\n{}", x, y, show(&o)));
        }
        if x.trailing != y.trailing && x.trailing != 2 && y.trailing != 2 {
            return fail(
                if x.trailing == 1 { "trailing comment moved to a line of its own" } else { "comment moved to the end of a code line" },
                format!("{:?} became {:?}\n{}", x, y, show(&o)),
            );
        }
        if x.alone && !y.alone {
            return fail("a comment on lines of its own shares one with code", format!("{:?} became {:?}\n{}", x, y, show(&o)));
        }
    }
    pass(true)
}

// ------------------------------------------------------------------ C06 idempotence

/// a merge whose first record is more than a name, an access by index of a name or a creation
fn merge_of_chain(n: tree_sitter::Node) -> bool {
    if n.kind() == "dml_expression" {
        if let Some(t) = n.child_by_field_name("target") {
            let plain = match t.kind() {
                "identifier" | "this" | "object_creation_expression" => true,
                "array_access" => t.child_by_field_name("array").is_some_and(|a| a.kind() == "identifier"),
                _ => false,
            };
            if !plain && n.child_by_field_name("merge_with").is_some() {
                return true;
            }
        }
    }
    let mut c = n.walk();
    let kids: Vec<_> = n.children(&mut c).collect();
    kids.into_iter().any(merge_of_chain)
}

fn d_c06(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if !v.comments().is_empty() && (!boundary_only(&v) || stable_code(&c.src).is_none()) {
        return discard("comment away from a boundary");
    }
    let o = formatted!(&c.src, c.cfg());
    match fmt::format(&o, c.cfg()) {
        Err(e) if view(&o).is_none() && merge_of_chain(v.tree.root_node()) => {
            fail("refuses its own output: broken first record of a merge", format!("{}\n{}", e, show(&o)))
        }
        Err(e) => fail("refuses its own output", format!("{}\n{}", e, show(&o))),
        Ok(o2) if o2 != o && stable_code(&c.src).zip(ast::code(&o)).and_then(|(a, b)| ast::diff(&a, &b, &mut vec![])).map_or(false, |d| cast_of_update(&d.0, &o) != d.0) => {
            fail("a bound expression in parentheses before UPDATE becomes a cast", show(&o))
        }
        Ok(o2) if o2 != o => fail("second pass changes the output", format!("{}\n{}", first_diff(&o, &o2), show(&o))),
        Ok(_) => pass(o != c.src && o.lines().count() >= 4),
    }
}

// ------------------------------------------------------------------ C07 layout independence

/// other white space at the ends of the file, a byte order mark
fn ends(c: &mut Ctx, b: String) -> String {
    if !c.t.chance(15) {
        return b;
    }
    let bom = if c.t.chance(40) { "\u{feff}" } else { "" };
    let front = ["", "\n", " \n\t\n\n", "\r\n\r\n"][c.t.pick(4)];
    let back = ["", "\n\n\n", " \t", "\r\n"][c.t.pick(4)];
    let body = if c.t.chance(50) { b.trim_end().to_string() } else { b };
    // a line comment at the end needs no line end
    format!("{bom}{front}{body}{back}")
}

fn gen_layouts(c: &mut Ctx) -> Option<Case> {
    let toks = c.program(&P { off: SEMI.to_vec(), ..P::default() });
    let mut pat = vec![];
    let n = 1 + c.t.pick(16);
    let dense = [0u32, 20, 60][c.t.pick(3)];
    for _ in 0..n {
        pat.push(c.t.chance(dense));
    }
    let mk = |ws, wild, crlf| Layout { ws, wild, crlf, blank_at: Some(pat.clone()), ..Default::default() };
    let k = c.t.pick(4) as u32;
    let (wild, crlf) = ([0, 8][c.t.pick(2)], c.t.chance(20));
    if c.t.chance(30) {
        // with comments: only the indentation, the white space at the ends of lines and the line ends differ
        let at_bounds = c.t.chance(70);
        let comments = [15, 5, 40][c.t.pick(3)];
        let a = c.render(&toks, &Layout { comments, comments_at_boundaries_only: at_bounds, ..mk(0, 0, false) });
        let v = view(&a)?;
        if v.leaves.iter().any(|l| !l.comment && l.row != l.end_row) {
            return None;
        }
        let mut t = c.lay();
        let mut b = String::new();
        for l in a.split('\n') {
            let l = l.trim_matches([' ', '\t']);
            b.push_str(["", " ", "    ", "\t", "\t  ", "            "][t.pick(6)]);
            b.push_str(l);
            b.push_str(["", "", "", " ", "\t ", "  "][t.pick(6)]);
            b.push_str(if crlf { "\r\n" } else { "\n" });
        }
        c.labels.push("layout.comments".into());
        let mut case = Case::new(c.prop, a);
        case.alt.push(ends(c, b));
        cfg_of(c, &mut case);
        return Some(case);
    }
    let a = c.render(&toks, &mk(0, 0, false));
    let b = c.render2(&toks, &mk(k, wild, crlf));
    let b = ends(c, b);
    let mut case = Case::new(c.prop, a);
    case.alt.push(b);
    cfg_of(c, &mut case);
    Some(case)
}

fn d_c07(c: &Case) -> Out {
    let b = &c.alt[0];
    let (x, y) = (some!(ast::code(&c.src), "not valid Apex"), some!(ast::code(b), "not valid Apex"));
    if x != y {
        return discard("the two layouts read differently");
    }
    let o1 = fmt::format(&c.src, c.cfg());
    let o2 = fmt::format(b, c.cfg());
    match (o1, o2) {
        (Ok(o1), Ok(o2)) => {
            if o1 != o2 {
                return fail("output depends on the layout of the source", format!("{}\n{}", first_diff(&o1, &o2), show(&o1)));
            }
            pass(c.src != *b && code_tokens(&c.src) >= 12)
        }
        (Err(_), Err(_)) => discard("refused by the tool (C14 decides refusals)"),
        (Err(e), _) | (_, Err(e)) => fail("one layout is refused, another is not", e),
    }
}

// ------------------------------------------------------------------ C08 blank lines

/// (body, index) -> blank lines before the member
fn gaps(src: &str, v: &View) -> Vec<(String, usize)> {
    let m = members(v);
    let mut last: BTreeMap<(usize, &str), &oracle::Member> = BTreeMap::new();
    let mut out = vec![];
    for x in &m {
        // the constants of an enum, the accessors of a property and the cases of a switch are packed
        if matches!(x.parent.as_str(), "enum_body" | "accessor_list" | "switch_block") {
            continue;
        }
        if let Some(p) = last.get(&(x.parent_start, x.parent.as_str())) {
            let n = src[p.end..x.start].matches('\n').count();
            out.push((format!("{}: {} {}", x.parent, p.kind, x.kind), n.saturating_sub(1)));
        }
        last.insert((x.parent_start, x.parent.as_str()), x);
    }
    out
}

pub(crate) fn is_blank(l: &str) -> bool {
    l.trim().is_empty()
}

fn gen_gaps(c: &mut Ctx) -> Option<Case> {
    if c.t.chance(35) {
        gen_boundary_comments(c)
    } else {
        gen_clean(c)
    }
}

/// blank lines above and below the comments between members and statements
fn around_comments(c: &Case, v: &View) -> Out {
    if !boundary_only(v) || stable_code(&c.src).is_none() {
        return discard("a comment away from a boundary");
    }
    let o = formatted!(&c.src, c.cfg());
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    if v.leaves.len() != w.leaves.len() || v.leaves.iter().zip(&w.leaves).any(|(a, b)| a.comment != b.comment) {
        return discard("code or comments moved (C01, C05)");
    }
    let mut n = 0;
    for i in 1..v.leaves.len() {
        let (a, b) = (&v.leaves[i - 1..=i], &w.leaves[i - 1..=i]);
        // (a word of a type may be no leaf of its own: `java:`)
        if !a[0].comment && !a[1].comment || !c.src[a[0].end..a[1].start].trim().is_empty() {
            continue;
        }
        let home = if a[0].comment { &a[0].parent } else { &a[1].parent };
        let lines = |x: &[ast::Leaf]| (x[1].row - x[0].end_row).saturating_sub(1);
        // the members of an enum, a property and a switch are packed
        if matches!(home.as_str(), "enum_body" | "accessor_list" | "switch_block") {
            if lines(b) > lines(a).min(1) {
                return fail("a blank line at a comment of a packed body", format!("{:?} {:?}\n{}", a[0].text, a[1].text, show(&o)));
            }
            continue;
        }
        let edge = a[0].text == "{";
        let gap = |x: &[ast::Leaf]| if edge { 0 } else { (x[1].row - x[0].end_row).saturating_sub(1).min(1) };
        n += (gap(a) > 0) as usize;
        if lines(b) != gap(a) {
            let what = |l: &ast::Leaf| if l.comment { if l.text.starts_with("//") { "//".into() } else if l.row != l.end_row { "/*..*/".into() } else { "/**/".to_string() } } else { l.kind.clone() };
            return fail(
                format!("blank lines at a comment {} -> {}: {} | {} ({})", lines(a).min(2), lines(b), what(&a[0]), what(&a[1]), a[1].row - a[0].end_row),
                format!("{:?} {:?}\n{}", a[0].text, a[1].text, show(&o)),
            );
        }
    }
    pass(n > 0)
}

fn d_c08(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if !v.comments().is_empty() {
        return around_comments(c, &v);
    }
    let o = formatted!(&c.src, c.cfg());
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    if v.leaves.is_empty() {
        return discard("empty file");
    }
    if v.leaves.iter().any(|l| l.row != l.end_row) {
        return discard("a literal with a line break in it");
    }
    let (a, b) = (gaps(&c.src, &v), gaps(&o, &w));
    if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.0 != y.0) {
        return discard("code changed (C01)");
    }
    let mut want = 0;
    for (x, y) in a.iter().zip(&b) {
        let k = x.1.min(1);
        want += k;
        if y.1 != k {
            return fail(
                format!("{} blank line between members", if y.1 > k { "extra" } else { "lost" }),
                format!("{}: {} blank lines in the source, {} in the output\n{}", x.0, x.1, y.1, show(&o)),
            );
        }
    }
    let total = o.lines().filter(|l| is_blank(l)).count();
    if total != want {
        return fail("blank line away from a boundary", format!("{} blank lines, {} expected\n{}", total, want, show(&o)));
    }
    pass(a.len() >= 2 && want > 0)
}

// ------------------------------------------------------------------ C09, C10 width

fn gen_width(c: &mut Ctx) -> Option<Case> {
    let ascii = c.t.chance(60);
    let p = P { ascii, no_anon: true, long: 30, off: vec!["enum.const_mods"], ..P::default() };
    let toks = c.program(&p);
    let l = Layout { ws: [0, 1][c.t.pick(2)], blanks: 10, ..Default::default() };
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, src);
    case.w = match c.t.pick(6) {
        0 | 1 => 80,
        2 => 40,
        3 => 1 + c.t.pick(60) as u32,
        4 => 40 + c.t.pick(120) as u32,
        _ => 30,
    };
    case.i = c.indent();
    Some(case)
}

pub(crate) fn width_domain(c: &Case) -> Option<View> {
    let v = view(&c.src)?;
    if !v.comments().is_empty() || has_anon_class(&v.tree) {
        return None;
    }
    // a literal with a line break in it
    if v.leaves.iter().any(|l| l.row != l.end_row) {
        return None;
    }
    // an annotation breaks the line by itself: inside a group (enum constants, accessors, parameters, headers)
    // that is a break no width asked for
    fn bad(n: tree_sitter::Node) -> bool {
        if n.kind() == "modifiers" {
            let Some(d) = n.parent() else { return false };
            let member = d.parent().is_some_and(|p| oracle::is_body(p.kind())) && !matches!(d.kind(), "enum_constant" | "accessor_declaration");
            let mut c = n.walk();
            if !member && n.children(&mut c).any(|k| matches!(k.kind(), "annotation")) {
                return true;
            }
            if d.kind() == "enum_constant" {
                return true;
            }
        }
        let mut c = n.walk();
        let r = n.children(&mut c).any(bad);
        r
    }
    if bad(v.tree.root_node()) {
        None
    } else {
        Some(v)
    }
}

fn d_c09(c: &Case) -> Out {
    some!(width_domain(c), "outside the domain of the width rules");
    let o = formatted!(&c.src, c.cfg());
    let o1 = formatted!(&c.src, Cfg { width: 1, indent: c.i });
    let (Some(w), Some(v1)) = (view(&o), view(&o1)) else { return discard("code changed (C01)") };
    let (lw, l1) = (w.code(), v1.code());
    if lw.len() != l1.len() {
        return discard("code changed (C01)");
    }
    let lines: Vec<&str> = o.lines().collect();
    let mut i = 0;
    while i < lw.len() {
        let mut j = i;
        while j + 1 < lw.len() && lw[j + 1].row == lw[i].row {
            j += 1;
        }
        let line = lines[lw[i].row];
        if line.chars().count() as u32 > c.w && l1[i].row != l1[j].row {
            return fail("overlong line could be broken", format!("max_width {}: {:?}\nbreaks at width 1:\n{}", c.w, line, show(&o1)));
        }
        i = j + 1;
    }
    // what the tool would not even break at width 1
    if let Err((what, m)) = crate::layout::lists(&o, &w, c.i as usize, c.w) {
        if what.contains("too long") {
            return fail("overlong line could be broken", format!("{what}: {m}\n{}", show(&o)));
        }
    }
    let need = o1 != o;
    let long = fmt::format(&c.src, Cfg { width: 1_000_000, indent: c.i }).map_or(false, |x| x != o);
    pass(need && long)
}

/// A line break that the limit did not ask for and that no body, annotation or nested statement calls for.
fn needless_break(o: &str, v: &View) -> Option<String> {
    let code = v.code();
    let root = v.tree.root_node();
    for k in 1..code.len() {
        let (p, n) = (code[k - 1], code[k]);
        if p.end_row == n.row {
            continue;
        }
        let Some(lca) = root.descendant_for_byte_range(p.start, n.end) else { continue };
        let mut cur = lca.walk();
        let kids: Vec<tree_sitter::Node> = lca.children(&mut cur).collect();
        let of = |l: &Leaf| kids.iter().find(|x| x.start_byte() <= l.start && l.end <= x.end_byte());
        let (Some(a), Some(z)) = (of(p), of(n)) else { continue };
        let ok = match lca.kind() {
            "parser_output" => true,
            "accessor_list" => kids.iter().any(|x| x.child_by_field_name("body").is_some()),
            "modifiers" => a.kind() == "annotation",
            "if_statement" | "for_statement" | "enhanced_for_statement" | "while_statement" | "do_statement" => {
                z.kind() == "else" && a.kind() != "block" || z.kind().ends_with("statement") || z.kind() == "switch_expression" || z.kind().ends_with("declaration") || z.kind().ends_with("expression") && a.kind() == ")"
            }
            k => oracle::is_body(k) && !matches!(k, "enum_constant"),
        } || a.kind() == "modifiers" && a.child(a.child_count() - 1).is_some_and(|x| x.kind() == "annotation");
        if !ok {
            return Some(format!("{} broken between {:?} and {:?} without need\n{}", lca.kind(), p.text, n.text, show(o)));
        }
    }
    None
}

fn d_c10(c: &Case) -> Out {
    some!(width_domain(c), "outside the domain of the width rules");
    let oi = formatted!(&c.src, Cfg { width: 1_000_000, indent: c.i });
    let ow = formatted!(&c.src, c.cfg());
    let (Some(vi), Some(vw)) = (view(&oi), view(&ow)) else { return discard("code changed (C01)") };
    if let Some(m) = needless_break(&oi, &vi) {
        return fail("a line is broken although there is no limit", m);
    }
    let (li, lw) = (vi.code(), vw.code());
    if li.len() != lw.len() {
        return discard("code changed (C01)");
    }
    let (il, wl): (Vec<&str>, Vec<&str>) = (oi.lines().collect(), ow.lines().collect());
    let mut i = 0;
    while i < li.len() {
        let mut j = i;
        while j + 1 < li.len() && li[j + 1].row == li[i].row {
            j += 1;
        }
        let line = il[li[i].row];
        if line.chars().count() as u32 <= c.w && wl[lw[i].row] != line {
            return fail("a line that fits was broken", format!("max_width {}: {:?} became {:?}", c.w, line, wl[lw[i].row]));
        }
        i = j + 1;
    }
    let mx = ow.lines().map(|l| l.chars().count()).max().unwrap_or(0) as u32;
    if mx < c.w && mx > 0 {
        let o3 = formatted!(&c.src, Cfg { width: mx, indent: c.i });
        if o3 != ow {
            return fail("a narrower limit that holds already changes the output", format!("{} then {}: {}", c.w, mx, first_diff(&ow, &o3)));
        }
    }
    pass(ow != oi)
}

// ------------------------------------------------------------------ C11 indentation

pub(crate) fn lead(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

fn d_c11(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if !v.comments().is_empty() {
        return discard("has comments");
    }
    if v.leaves.iter().any(|l| l.row != l.end_row) {
        return discard("a literal with a line break in it");
    }
    let k = c.i as usize;
    let o = formatted!(&c.src, c.cfg());
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    let lines: Vec<&str> = o.split('\n').collect();
    for l in &lines {
        if l.starts_with('\t') {
            return fail("tab in the indentation", format!("{:?}", l));
        }
        if lead(l) % k != 0 {
            return fail("indentation is not a multiple of indent_size", format!("indent_size {}: {:?}\n{}", k, l, show(&o)));
        }
    }
    let mut n = 0;
    for m in members(&w) {
        if m.odd {
            continue;
        }
        let l = lines[m.row];
        let first = &o[m.start..];
        if m.parent == "trigger_body" {
            continue; // its block is the body
        }
        if m.parent == "accessor_list" && !o[..m.start].rsplit('\n').next().unwrap_or("").trim().is_empty() {
            continue; // accessors may share the line
        }
        if !first.starts_with(l.trim_start().chars().next().unwrap_or('?')) || o[..m.start].rsplit('\n').next().unwrap_or("").trim() != "" {
            return fail("member does not start a line", format!("{} {}: {:?}", m.parent, m.kind, l));
        }
        let want = m.depth * k;
        if lead(l) != want {
            return fail(
                "member at the wrong column",
                format!("indent_size {}: {} in {} at column {}, expected {}: {:?}\n{}", k, m.kind, m.parent, lead(l), want, l, show(&o)),
            );
        }
        n += 1;
    }
    // bodies without braces
    let mut bad = None;
    crate::ast::each(w.tree.root_node(), &mut |f| {
        if f.kind() != "if_statement" || bad.is_some() {
            return;
        }
        let (mut cur, mut alone) = (f.walk(), true);
        let kids: Vec<tree_sitter::Node> = f.children(&mut cur).collect();
        for (field, own) in [("consequence", true), ("alternative", false)] {
            let Some(x) = f.child_by_field_name(field) else { continue };
            if x.kind() == "block" || x.kind() == ";" || !own && x.kind() == "if_statement" {
                alone &= x.kind() != "block";
                continue;
            }
            let head = if own { f } else { kids.iter().copied().find(|k| k.kind() == "else").unwrap_or(f) };
            // an `if` behind the broken header of a loop belongs to the loop's line
            let mut from = head;
            while own && !o[..from.start_byte()].rsplit('\n').next().unwrap_or("").trim().is_empty() && from.parent().is_some_and(|p| p.kind().ends_with("_statement")) {
                from = from.parent().unwrap();
            }
            let (row, l) = (from.start_position().row, lines[x.start_position().row]);
            let starts = o[..x.start_byte()].rsplit('\n').next().unwrap_or("").trim().is_empty();
            if starts && lead(l) != lead(lines[row]) + k || !starts && alone {
                bad = Some(fail("a body without braces is not one level inside", format!("indent_size {}: {:?} below {:?}\n{}", k, l, lines[row], show(&o))));
            }
        }
    });
    if let Some(f) = bad {
        return f;
    }
    // the same with one blank per level, when the width plays no role
    let big = formatted!(&c.src, Cfg { width: 1_000_000, indent: c.i });
    let one = formatted!(&c.src, Cfg { width: 1_000_000, indent: 1 });
    let scaled: Vec<String> = one.split('\n').map(|l| format!("{}{}", " ".repeat(lead(l) * k), l.trim_start_matches(' '))).collect();
    let scaled = scaled.join("\n");
    if scaled != big {
        return fail("indent_size changes more than the indentation", first_diff(&scaled, &big));
    }
    pass(n >= 4 && k != 2)
}

// ------------------------------------------------------------------ C12 hygiene

fn d_c12(c: &Case) -> Out {
    let o = formatted!(&c.src, c.cfg());
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    // rows inside multi-line comments and literals belong to them
    let mut inner = vec![false; o.split('\n').count() + 1];
    let mut literal = inner.clone(); // the line ends inside a literal
    for l in &w.leaves {
        for r in l.row + 1..=l.end_row {
            inner[r] = true;
        }
        if !l.comment {
            for r in l.row..l.end_row {
                literal[r] = true;
            }
        }
    }
    if o.trim().is_empty() {
        return discard("empty file");
    }
    if !o.ends_with('\n') || o.ends_with("\n\n") {
        return fail("output does not end with exactly one newline", format!("{:?}", &o[o.len().saturating_sub(40)..].to_string()));
    }
    if o.starts_with('\n') {
        return fail("output starts with a blank line", show(&o));
    }
    let lines: Vec<&str> = o[..o.len() - 1].split('\n').collect();
    let crlf_in = c.src.contains('\r');
    for (i, l) in lines.iter().enumerate() {
        // does the character belong to a literal or a comment?
        let belongs = |ch: char, comments: bool| {
            let off = l.as_ptr() as usize - o.as_ptr() as usize;
            l.char_indices().filter(|x| x.1 == ch).all(|(at, _)| {
                w.leaves.iter().any(|lf| (comments && lf.comment || matches!(lf.kind.as_str(), "string_literal" | "multiline_string_literal" | "term")) && lf.start <= off + at && off + at < lf.end)
            })
        };
        let in_literal = |ch| belongs(ch, false);
        if l.contains('\t') && !belongs('\t', true) {
            return fail("tab in the output", format!("{:?}", l));
        }
        if l.contains('\r') && !(crlf_in && in_literal('\r')) {
            return fail("carriage return in the output", format!("{:?}", l));
        }
        if l.ends_with([' ', '\t']) && !literal[i] {
            return fail("trailing white space", format!("line {}: {:?}\n{}", i + 1, l, show(&o)));
        }
        if is_blank(l) && i > 0 && is_blank(lines[i - 1]) && !inner[i] {
            return fail("two blank lines in a row", show(&o));
        }
    }
    pass(lines.len() >= 4)
}

// ------------------------------------------------------------------ C13 invalid input

pub(crate) fn gen_invalid(c: &mut Ctx) -> Option<Case> {
    let toks = c.program(&P { corpus: 40, ..P::default() });
    let l = Layout { ws: [0, 1][c.t.pick(2)], ..Default::default() };
    let mut toks = toks;
    let n = toks.len();
    if n < 3 {
        return None;
    }
    let k = 1 + c.t.pick(2);
    let foreign = c.t.chance(15);
    let mut kinds = vec![];
    for _ in 0..if foreign { 0 } else { k } {
        let i = c.t.pick(toks.len());
        match c.t.pick(9) {
            0 | 1 => {
                toks.remove(i);
                kinds.push("delete token");
            }
            2 => {
                let t = toks[i].clone();
                toks.insert(i, t);
                kinds.push("duplicate token");
            }
            3 => {
                let j = c.t.pick(toks.len());
                toks.swap(i, j);
                kinds.push("swap tokens");
            }
            4 => {
                let s = [";", "{", "}", "(", ")", ",", ".", "=", "class", "if", "'", "#", "@", "]", "[", "?", "else", "WHERE", "\\", "\u{0}"];
                toks[i].s = s[c.t.pick(s.len())].to_string();
                kinds.push("replace token");
            }
            5 => {
                let s = [";", "{", "}", "(", ")", "'", "/*", "*/", "\"", "`", "é", "&&", "1", "try", "}"];
                let mut t = toks[i].clone();
                t.s = s[c.t.pick(s.len())].to_string();
                toks.insert(i, t);
                kinds.push("insert token");
            }
            6 => {
                // drop one bracket
                let b: Vec<usize> = (0..toks.len()).filter(|j| matches!(toks[*j].s.as_str(), "{" | "}" | "(" | ")" | "[" | "]")).collect();
                if !b.is_empty() {
                    let j = b[c.t.pick(b.len())];
                    toks.remove(j);
                }
                kinds.push("drop bracket");
            }
            7 => {
                let b: Vec<usize> = (0..toks.len()).filter(|j| toks[*j].s == ";").collect();
                if !b.is_empty() {
                    let j = b[c.t.pick(b.len())];
                    toks.remove(j);
                }
                kinds.push("drop semicolon");
            }
            _ => {
                toks.truncate(i.max(1));
                kinds.push("truncate");
            }
        }
        if toks.len() < 2 {
            return None;
        }
    }
    for k in kinds {
        c.labels.push(format!("mutation.{}", k));
    }
    let mut src = c.render(&toks, &l);
    if !foreign && c.t.chance(20) {
        // cut the text in the middle of a token
        let at = c.t.pick(src.len());
        let at = (0..=at).rev().find(|i| src.is_char_boundary(*i)).unwrap_or(0);
        src.truncate(at);
        c.labels.push("mutation.cut text".into());
    } else if foreign || c.t.chance(15) {
        // something foreign at the start, at the end, or in between
        const JUNK: &[&str] = &[
            "\u{1a}", "\u{0}", "\u{1}", "\u{7f}", "\u{b}", "\u{feff}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{fffd}", "}", "{", ")", "(", ";;", "*/", "/*", "/* x", "'", "'x", "\"", "`", "```", "#",
            "<<<<<<< HEAD\n", "=======\n", ">>>>>>> b\n", "<?xml?>", "#!afmt", "-- x", "%", "\\", "@", "x", "x y", "1", "class", "@A", "class A", "class A {", "private", "trigger", "EOF",
        ];
        let d = crate::dict::get();
        let junk = match d.word(&mut c.t, 30) {
            Some(w) => w,
            None if !d.marks.is_empty() && c.t.chance(30) => d.marks[c.t.pick(d.marks.len())].to_string(),
            None => JUNK[c.t.pick(JUNK.len())].to_string(),
        };
        let gap = ["", "\n", " "][c.t.pick(3)];
        match c.t.pick(4) {
            0 => src = format!("{junk}{gap}{src}"),
            1 => src = format!("{}{gap}{junk}", src.trim_end()),
            2 => src = format!("{src}{gap}{junk}{}", junk.repeat(c.t.pick(2))),
            _ => {
                let at = c.t.pick(src.len());
                let at = (0..=at).rev().find(|i| src.is_char_boundary(*i)).unwrap_or(0);
                src.insert_str(at, &junk);
            }
        }
        c.labels.push("mutation.foreign text".into());
    }
    if c.t.chance(1) {
        // the damage is far down in a large file
        let member = "  Integer someField = someCall(1, 2, 3);\n".repeat(1500 + c.t.pick(1000));
        src = format!("class Large {{\n{member}}}\n{src}");
        c.labels.push("mutation.in a large file".into());
    }
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    if c.t.chance(5) {
        case.p.insert("cli".into(), c.t.pick(32).to_string());
        c.labels.push("through the command line".into());
    }
    Some(case)
}

fn d_c13(c: &Case) -> Out {
    let mut p = tree_sitter::Parser::new();
    p.set_language(&tree_sitter_sfapex::apex::LANGUAGE.into()).expect("language");
    let t = p.parse(&c.src, None).expect("parse");
    let bad_tree = t.root_node().has_error();
    let unbalanced = oracle::unbalanced(&c.src);
    if !bad_tree && !unbalanced {
        return discard("still valid");
    }
    if let Ok(how) = c.get("cli").parse::<usize>() {
        if let Some(o) = cli::refused(&c.src, how, c.cfg()) {
            return o;
        }
    }
    match fmt::format(&c.src, c.cfg()) {
        Err(_) => pass(true),
        Ok(o) => fail("invalid source was accepted", format!("syntax error: {} unbalanced: {}\n{}", bad_tree, unbalanced, show(&o))),
    }
}

// ------------------------------------------------------------------ C14 totality

fn nest(c: &mut Ctx) -> String {
    let n = 2 + c.t.pick(if c.big { 150 } else { 100 });
    let rep = |a: &str, m: &str, b: &str, n: usize| format!("{}{}{}", a.repeat(n), m, b.repeat(n));
    let (name, body) = match c.t.pick(18) {
        0 => ("parentheses", format!("x = {};", rep("(", "1", ")", n))),
        1 => ("calls", format!("x = {};", rep("f(", "1", ")", n))),
        2 => ("if blocks", rep("if (a) { ", "x();", "}", n)),
        3 => ("blocks", rep("{ ", "x();", "}", n)),
        4 => ("binary chain", format!("x = 1{};", " + abcdefgh".repeat(n * 3))),
        5 => ("mixed binary", format!("x = {}1{};", "a * (b + ".repeat(n), ")".repeat(n))),
        6 => ("method chain", format!("x = a{};", ".foo(b)".repeat(n))),
        7 => ("field chain", format!("x = a{};", ".foo".repeat(n))),
        8 => ("ternary chain", format!("x = {}z;", "a ? b : ".repeat(n))),
        9 => ("else if chain", format!("if (a) {{ }} {}", "else if (b) { x(); } ".repeat(n))),
        10 => ("nested lists", format!("x = {};", rep("new List<X>{ ", "1", " }", n))),
        11 => ("generic types", format!("{} x = null;", rep("List<", "X", ">", n))),
        12 => ("nots", format!("x = {}a;", "!".repeat(n))),
        13 => ("loops", rep("for (Integer i = 0; i < 1; i++) { ", "x();", "}", n)),
        14 => ("casts", format!("x = {}a;", "(X) ".repeat(n))),
        15 => ("array accesses", format!("x = a{};", "[0]".repeat(n))),
        16 => ("nested conditions", format!("x = [SELECT Id FROM A WHERE {}];", rep("(", "b = 1 AND c = 2", " OR d = 3)", n.min(60)))),
        _ => ("tries", rep("try { ", "x();", "} catch (E e) { }", n)),
    };
    c.labels.push(format!("nested.{}", name));
    format!("class A {{ void m() {{ {} }} }}\n", body)
}

/// one very long token, or one very long list
fn wide(c: &mut Ctx) -> String {
    let sizes = [200, 256, 300, 1000, 1024, 4096, 5000, 20_000, 65_536, 70_000];
    let n = sizes[c.t.pick(sizes.len())] + c.t.pick(3);
    let n = crate::dict::get().size(&mut c.t, 40, 70_000).unwrap_or(n);
    let m = n.min(2000);
    let x = "x".repeat(n);
    let many = |f: &dyn Fn(usize) -> String, sep: &str| (0..m).map(f).collect::<Vec<_>>().join(sep);
    let (name, member) = match c.t.pick(18) {
        0 => ("string", format!("String s = '{}';", x)),
        1 => ("name", format!("Integer {};", x)),
        2 => ("line comment", format!("// {}\nInteger a;", x)),
        3 => ("block comment", format!("/* {} */\nInteger a;", x)),
        4 => ("JavaDoc", format!("/**\n{} */\nInteger a;", " * x\n".repeat(m))),
        5 => ("number", format!("Integer a = {};", "1".repeat(n.min(5000)))),
        6 => ("blank lines", format!("Integer a;{}Integer b;", "\n".repeat(n))),
        7 => ("blanks", format!("Integer{}b;", " ".repeat(n))),
        8 => ("fields", many(&|i| format!("Integer f{};", i), "\n")),
        9 => ("arguments", format!("Integer a = f({});", many(&|i| format!("a{}", i), ", "))),
        10 => ("parameters", format!("void m({}) {{ }}", many(&|i| format!("A a{}", i), ", "))),
        11 => ("statements", format!("void m() {{ {} }}", many(&|i| format!("f({});", i), " "))),
        12 => ("constants", format!("enum E {{ {} }}", many(&|i| format!("C{}", i), ", "))),
        13 => ("map", format!("Map<A, B> a = new Map<A, B>{{ {} }};", many(&|i| format!("{} => b", i), ", "))),
        14 => ("cases", format!("void m() {{ switch on a {{ {} when else {{ }} }} }}", many(&|i| format!("when {} {{ }}", i), " "))),
        15 => ("catches", format!("void m() {{ try {{ }} {} }}", many(&|i| format!("catch (E{} e) {{ }}", i), " "))),
        16 => ("fields of a query", format!("List<A> a = [SELECT {} FROM A];", many(&|i| format!("f{}", i), ", "))),
        _ => ("annotation and types", format!("class B implements {} {{ }}", many(&|i| format!("I{}", i), ", "))),
    };
    c.labels.push(format!("wide.{}", name));
    format!("class A {{ {} }}\n", member)
}

fn gen_total(c: &mut Ctx) -> Option<Case> {
    if c.t.chance(1) {
        let src = wide(c);
        let mut case = Case::new(c.prop, src);
        cfg_of(c, &mut case);
        return Some(case);
    }
    let mode = c.t.pick(40);
    let src = match mode {
        0 => nest(c),
        1 => {
            // whole files
            let i = c.t.pick(c.corpus.files.len());
            c.labels.push("source.file".into());
            c.corpus.files[i].1.clone()
        }
        2 => {
            c.labels.push("source.tiny".into());
            ["", "\n", "   ", "// c", "/* c */\n", "/** c */", "class A {}", "interface I {}", "enum E {}", "trigger T on A (before insert) {}",
             "// a\n// b\nclass A {}\n// c", "\n\nclass A {}\n\n\n", "class A {} class B {}", "@IsTest class A {}", "class A { }\r\n"][c.t.pick(15)]
                .to_string()
        }
        3 | 4 => {
            let toks = c.program(&P { on: crate::gen::REFUSED.to_vec(), bias: Some(1), corpus: 0, ..P::default() });
            c.render(&toks, &Layout::default())
        }
        5..=15 => return gen_boundary_comments(c),
        _ => return gen_plain(c),
    };
    let mut case = Case::new(c.prop, src);
    cfg_of(c, &mut case);
    if mode < 2 || c.t.chance(10) {
        case.p.insert("own".into(), "1".into());
    }
    Some(case)
}

fn d_c14(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if !v.comments().is_empty() && (!boundary_only(&v) || stable_code(&c.src).is_none()) {
        return discard("comment away from a boundary");
    }
    match fmt::format_default_stack(&c.src, c.cfg()) {
        Ok(o) => {
            let n = v.code().len();
            if n > 0 && o.trim().is_empty() {
                return fail("empty output", show(&c.src));
            }
            if c.get("own") == "1" && toplevel_ok(&v) {
                // on the threads and the stack that the tool takes
                let dir = cli::Scratch::new();
                let p = dir.path("a.cls");
                std::fs::write(&p, &c.src).expect("write");
                let r = sf_afmt::format(sf_afmt::formatter::Formatter::new(c.cfg().to(), vec![p.to_string_lossy().to_string()]));
                match r.first() {
                    Some(Ok(_)) => {}
                    x => return fail("refused by the tool", format!("{:?}\n{}", x, show(&c.src))),
                }
            }
            pass(n >= 12)
        }
        Err(e) => {
            if !toplevel_ok(&v) {
                return discard("anonymous Apex at the top level");
            }
            let sig: String = e.lines().find(|l| !l.trim().is_empty()).unwrap_or("").chars().take(100).collect();
            fail(format!("refused: {}", sig), format!("{}\n{}", e, show(&c.src)))
        }
    }
}

// ------------------------------------------------------------------ C18 batches

fn gen_batch(c: &mut Ctx) -> Option<Case> {
    let n = match c.t.pick(20) {
        0 | 1 => 17 + c.t.pick(24),
        2 => 41 + c.t.pick(if c.big { 960 } else { 260 }),
        _ => 2 + c.t.pick(if c.big { 24 } else { 12 }),
    };
    let small = n > 16; // large batches are made of small files
    let mut ops: Vec<&str> = vec![];
    let rest = c.t.rest().to_vec();
    let mut files = vec![];
    for k in 0..n {
        let tape: Vec<u32> = rest.iter().skip(k * 7).copied().collect();
        if k >= 40 {
            // the rest of a huge batch: one small class each, most of them
            let what = (rest.get(k % rest.len().max(1)).copied().unwrap_or(1) as usize).wrapping_add(k);
            ops.push(if what % 41 == 0 { "missing" } else { "ok" });
            files.push(format!("class C{} {{ {} }}", k, ["", "Integer f;", "void m() { a(); } // c"][what % 3]));
            continue;
        }
        match c.t.pick(11) {
            10 if k > 0 => {
                // the same path once more
                ops.push("same");
                files.push(c.t.pick(k).to_string());
            }
            5..=9 if small => {
                ops.push("ok");
                files.push(format!("class C{} {{ {} }}", k, ["", "Integer f;", "void m() { a(); } // c"][c.t.pick(3)]));
            }
            0 => {
                ops.push("missing");
                files.push(String::new());
            }
            1 => {
                ops.push("bad");
                files.push(["class {", "class A { void m( }", "@@@", "class A { String s = 'x; }"][c.t.pick(4)].to_string());
            }
            2 => {
                ops.push("utf8");
                files.push(String::new());
            }
            3 => {
                // a file that is refused late: it holds comments in a place the tool cannot keep
                ops.push("ok");
                files.push("class A { void m() { x = a . /* lost */ b /* y */ . c; } }".into());
            }
            4 => {
                let i = c.t.pick(c.corpus.files.len());
                ops.push("ok");
                files.push(c.corpus.files[i].1.clone());
            }
            _ => {
                let mut t = crate::gen::Tape::new(&tape);
                let (toks, _) = c.corpus.program(&mut t);
                ops.push("ok");
                files.push(c.render(&toks, &Layout { comments: 5, comments_at_boundaries_only: true, ..Default::default() }));
            }
        }
    }
    for o in &ops {
        c.labels.push(format!("file.{}", o));
    }
    let mut case = Case::new(c.prop, String::new());
    case.alt = files;
    case.p.insert("ops".into(), ops.join(","));
    cfg_of(c, &mut case);
    Some(case)
}

fn d_c18(c: &Case) -> Out {
    use sf_afmt::formatter::Formatter;
    let ops: Vec<&str> = c.get("ops").split(',').collect();
    let dir = cli::Scratch::new();
    let mut paths: Vec<String> = vec![];
    let mut want: Vec<Option<Result<String, String>>> = vec![];
    for (i, (op, text)) in ops.iter().zip(&c.alt).enumerate() {
        // the same file names in several directories
        let sub = dir.path(&format!("d{}", i % 3));
        std::fs::create_dir_all(&sub).expect("mkdir");
        let p = sub.join(format!("f{}.cls", i / 3));
        match *op {
            "same" => {
                let k: usize = text.parse().unwrap_or(0);
                paths.push(paths[k].clone());
                want.push(want[k].clone());
                continue;
            }
            "missing" => want.push(Some(Err(String::new()))),
            "utf8" => {
                std::fs::write(&p, b"class A { String s = '\xff\xfe'; }").expect("write");
                want.push(Some(Err(String::new())));
            }
            "bad" => {
                std::fs::write(&p, text).expect("write");
                want.push(Some(Err(String::new())));
            }
            _ => {
                std::fs::write(&p, text).expect("write");
                want.push(Some(fmt::format(text, c.cfg())));
            }
        }
        paths.push(p.to_string_lossy().to_string());
    }
    type Want = Vec<Option<Result<String, String>>>;
    let run = |g: Cfg| sf_afmt::format(Formatter::new(g.to(), paths.clone()));
    let judge = |got: &[Result<String, String>], want: &Want, how: &str| -> Option<Out> {
        if got.len() != want.len() {
            return Some(fail("number of results", format!("{}: {} results for {} files", how, got.len(), want.len())));
        }
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            let w = w.as_ref().unwrap();
            match (g, w) {
                (Ok(a), Ok(b)) if a == b => {}
                (Err(_), Err(_)) => {}
                (Ok(a), Ok(b)) => return Some(fail("result differs from formatting the file alone", format!("{}: file {}: {}", how, i, first_diff(a, b)))),
                (Ok(a), Err(_)) => return Some(fail("a bad file has a result", format!("{}: file {} ({}): {}", how, i, ops[i], show(a)))),
                (Err(e), Ok(_)) => return Some(fail("a good file is refused in a batch", format!("{}: file {}: {}", how, i, e))),
            }
        }
        None
    };
    for how in ["batch", "second batch"] {
        if let Some(f) = judge(&run(c.cfg()), &want, how) {
            return f;
        }
    }
    // several batches at once, one of them with other settings
    let other = Cfg { width: if c.w > 60 { c.w / 2 } else { c.w + 41 }, indent: c.i + 1 };
    let with_other: Want = (0..paths.len())
        .map(|i| match &want[i] {
            Some(Ok(_)) => Some(fmt::format(&std::fs::read_to_string(&paths[i]).expect("read"), other)),
            w => w.clone(),
        })
        .collect();
    let rs: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = [c.cfg(), other, c.cfg()].into_iter().map(|g| (g, s.spawn(move || run(g)))).collect();
        hs.into_iter().map(|(g, h)| (g, h.join())).collect()
    });
    for (k, (_, r)) in rs.into_iter().enumerate() {
        match r {
            Ok(r) => {
                if let Some(f) = judge(&r, if k == 1 { &with_other } else { &want }, "concurrent batch") {
                    return f;
                }
            }
            Err(_) => return fail("a batch panicked", ""),
        }
    }
    // and what a process of its own makes of one of them, after all these batches with their settings
    let picked = c.alt.iter().map(|t| t.len()).sum::<usize>() % paths.len();
    if let Some(i) = (picked..paths.len()).chain(0..picked).find(|&i| matches!(with_other[i], Some(Ok(_)))) {
        let conf = dir.path("conf.toml");
        std::fs::write(&conf, format!("max_width = {}\nindent_size = {}\n", other.width, other.indent)).expect("write");
        let r = cli::run(&dir.path(""), &[&paths[i], "-c", &conf.to_string_lossy()]);
        let got = String::from_utf8_lossy(&r.out).to_string();
        let Some(Ok(v)) = &with_other[i] else { unreachable!() };
        if r.code != Some(0) || got.trim_end_matches('\n') != v.trim_end_matches('\n') {
            return fail("a batch and a run of the tool differ", format!("file {}: exit {:?} {}\n{}", i, r.code, first_diff(&got, v), String::from_utf8_lossy(&r.err)));
        }
    }
    // the same paths hold other texts now: as long as before and not younger
    let good: Vec<usize> = (0..paths.len()).filter(|&i| matches!(ops[i], "ok" | "bad")).collect();
    let mut now: std::collections::HashMap<&str, Option<Result<String, String>>> = std::collections::HashMap::new();
    let texts: Vec<String> = good.iter().map(|&i| c.alt[i].clone()).collect();
    for (k, &i) in good.iter().enumerate() {
        let mut t = texts[(k + 1) % texts.len()].clone();
        let old = std::fs::metadata(&paths[i]).expect("metadata");
        t.push_str(&"\n".repeat((old.len() as usize).saturating_sub(t.len())));
        std::fs::write(&paths[i], &t).expect("write");
        let _ = std::fs::File::options().write(true).open(&paths[i]).and_then(|f| f.set_modified(old.modified()?));
        now.insert(&paths[i], Some(fmt::format(&t, c.cfg())));
    }
    let changed: Want = (0..paths.len()).map(|i| now.get(paths[i].as_str()).cloned().unwrap_or_else(|| want[i].clone())).collect();
    if let Some(f) = judge(&run(c.cfg()), &changed, "batch after the files changed") {
        return f;
    }
    pass(want.iter().filter(|w| matches!(w, Some(Ok(_)))).count() >= 2)
}

// ------------------------------------------------------------------ C19 case of keywords

fn gen_case(c: &mut Ctx) -> Option<Case> {
    let toks = c.program(&P { off: SEMI.to_vec(), ..P::default() });
    let l = Layout { ws: 0, blanks: 0, ..Default::default() };
    let a = c.render(&toks, &l);
    let b = c.render2(&toks, &Layout { kw_case: true, ..l });
    let mut case = Case::new(c.prop, a);
    case.alt.push(b);
    cfg_of(c, &mut case);
    Some(case)
}

/// keywords which have one spelling in the output
const FIXED_WORDS: &[&str] = &[
    "abstract", "after delete", "after insert", "after undelete", "after update", "all rows", "and", "as", "before delete",
    "before insert", "before update", "break", "catch", "class", "continue", "delete", "do", "else", "enum", "extends", "final",
    "finally", "find", "for", "from", "global", "group by", "having", "if", "implements", "inherited sharing", "insert",
    "instanceof", "interface", "limit", "merge", "new", "not", "offset", "on", "or", "order by", "override", "private",
    "protected", "public", "return", "returning", "scope", "select", "static", "super", "switch", "testmethod", "this", "throw",
    "transient", "trigger", "try", "undelete", "upsert", "using", "virtual", "webservice", "when", "where", "while", "with",
    "with sharing", "without sharing",
];

fn d_c19(c: &Case) -> Out {
    let b = &c.alt[0];
    let (x, y) = (some!(ast::code(&c.src), "not valid Apex"), some!(ast::code(b), "not valid Apex"));
    if x != y {
        return discard("the two spellings read differently");
    }
    match (fmt::format(&c.src, c.cfg()), fmt::format(b, c.cfg())) {
        (Ok(o1), Ok(o2)) => {
            if o1.to_lowercase() != o2.to_lowercase() {
                return fail("layout depends on the case of keywords", first_diff(&o1, &o2));
            }
            let (Some(v1), Some(v2)) = (view(&o1), view(&o2)) else { return discard("code changed (C01)") };
            for (p, q) in v1.leaves.iter().zip(&v2.leaves) {
                if p.text != q.text && FIXED_WORDS.contains(&p.text.to_lowercase().as_str()) {
                    return fail("the case of a keyword is carried into the output", format!("{:?} and {:?}\n{}", p.text, q.text, show(&o1)));
                }
            }
            pass(c.src != *b && code_tokens(&c.src) >= 12)
        }
        (Err(_), Err(_)) => discard("refused by the tool (C14 decides refusals)"),
        (Err(e), _) | (_, Err(e)) => fail("one spelling is refused, another is not", e),
    }
}

// ------------------------------------------------------------------ C20 locality

fn d_c20(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if !v.comments().is_empty() {
        return discard("has comments");
    }
    let o = formatted!(&c.src, c.cfg());
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    let (ms, mo) = (members(&v), members(&w));
    if ms.len() != mo.len() {
        return discard("code changed (C01)");
    }
    let lines: Vec<&str> = o.split('\n').collect();
    let mut n = 0;
    let total = ms.len();
    // up to ten members, spread over the file, the last one among them
    let step = total.div_ceil(10).max(1);
    for (j, (a, b)) in ms.iter().zip(&mo).enumerate() {
        if a.odd || total < 2 || (total - 1 - j) % step != 0 {
            continue;
        }
        let text = &c.src[a.start..a.end];
        let k = a.depth;
        let (pre, post) = match a.parent.as_str() {
            "parser_output" => (String::new(), String::new()),
            "class_body" => ("class Z {\n".repeat(k), "\n}".repeat(k)),
            "block" if k >= 2 && a.kind != "explicit_constructor_invocation" => {
                (format!("{}void z() {{\n{}", "class Z {\n".repeat(k - 1), ""), "\n}".repeat(k))
            }
            _ => continue,
        };
        let alone = format!("{}{}{}\n", pre, text, post);
        if ast::code(&alone).is_none() {
            continue;
        }
        let o2 = formatted!(&alone, c.cfg());
        let l2: Vec<&str> = o2.trim_end_matches('\n').split('\n').collect();
        let skip = k;
        if l2.len() < skip * 2 {
            return fail("member vanished", o2);
        }
        let got = l2[skip..l2.len() - skip].join("\n");
        let want = lines[b.row..=b.end_row].join("\n");
        if got != want {
            return fail(
                "formatted alone a member looks different",
                format!("{} in {}: {}\nalone:\n{}\nin the file:\n{}", a.kind, a.parent, first_diff(&got, &want), show(&got), show(&want)),
            );
        }
        n += 1;
    }
    pass(n >= 2)
}

// ------------------------------------------------------------------ C21 comments are transparent

fn d_c21(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if v.comments().is_empty() || !boundary_only(&v) || stable_code(&c.src).is_none() {
        return discard("no comment at a boundary");
    }
    // the accessors of a property share a line where no comment stands between them
    fn among_accessors(n: tree_sitter::Node) -> bool {
        let mut c = n.walk();
        n.kind() == "accessor_list" && n.children(&mut c).any(|k| k.is_extra()) || n.children(&mut n.walk()).any(among_accessors)
    }
    if among_accessors(v.tree.root_node()) {
        return discard("a comment between accessors");
    }
    let o = formatted!(&c.src, c.cfg());
    let bare = some!(strip_comments(&c.src), "not valid Apex");
    let ob = formatted!(&bare, c.cfg());
    let Some(w) = view(&o) else { return fail("the output is not valid Apex", show(&o)) };
    if w.leaves.windows(2).any(|p| p[0].comment != p[1].comment && p[0].end_row == p[1].row) {
        return discard("a comment that shares its line with code, whose width counts");
    }
    let oc = some!(strip_comments(&o), "code changed (C01)");
    let squeeze = |s: &str| -> Vec<String> { s.lines().map(|l| l.trim_end().to_string()).filter(|l| !l.is_empty()).collect() };
    let (a, b) = (squeeze(&oc), squeeze(&ob));
    if a != b {
        return fail("a comment changes the layout of the code around it", first_diff(&a.join("\n"), &b.join("\n")));
    }
    pass(a.len() >= 3)
}

// ------------------------------------------------------------------ C22 names and literals are opaque

const NAMES: &[&str] = &["identifier", "type_identifier", "string_literal", "string_fragment", "int", "date", "date_time"];

/// the same program with every name and literal replaced by one of the same length; equal ones (ignoring case)
/// stay equal
fn renamed(src: &str, t: &mut crate::gen::Tape, any: bool) -> Option<String> {
    let v = view(src)?;
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut out = String::with_capacity(src.len());
    let mut at = 0;
    let p = [100, 30, 60][t.pick(3)];
    for l in v.leaves.iter().filter(|l| NAMES.contains(&l.kind.as_str()) && !l.comment) {
        out.push_str(&src[at..l.start]);
        at = l.end;
        let key = format!("{} {}", l.kind, l.text.to_lowercase());
        if !map.contains_key(&key) {
            let n = if !t.chance(p) {
                l.text.clone()
            } else if any {
                resized(l, t)
            } else {
                other_name(l, t)
            };
            map.insert(key.clone(), n);
        }
        out.push_str(&map[&key]);
    }
    out.push_str(&src[at..]);
    Some(out)
}

fn other_name(l: &Leaf, t: &mut crate::gen::Tape) -> String {
    const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const NEXT: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    const TEXT: &str = "abcXYZ 0123456789 _-+*/(){}[];:,.<>=&|!?@#$%\"~\u{e9}\u{4e2d}\u{1f600}";
    let mut s = String::new();
    match l.kind.as_str() {
        "identifier" | "type_identifier" => {
            if let Some(n) = crate::dict::get().name(t, 10) {
                if n.chars().count() == l.text.chars().count() {
                    return n;
                }
            }
            for (i, c) in l.text.chars().enumerate() {
                let from = if i == 0 { FIRST } else { NEXT };
                // the form of the name is kept at times, and it starts as in the source at times
                let d = from[t.pick(from.len())] as char;
                s.push(if t.chance(20) { c } else { d });
            }
        }
        "int" => {
            for c in l.text.chars() {
                s.push(if c.is_ascii_digit() { (b'1' + t.pick(9) as u8) as char } else { c });
            }
        }
        "string_literal" | "string_fragment" => {
            let cs: Vec<char> = l.text.chars().collect();
            let mut i = 0;
            let quoted = cs.first() == Some(&'\'');
            while i < cs.len() {
                let end = quoted && (i == 0 || i + 1 == cs.len());
                if end || cs[i].is_control() {
                    s.push(cs[i]);
                } else if cs[i] == '\\' {
                    // an escape becomes text, another escape, or stays with its hexadecimal digits
                    let n = if cs.get(i + 1) == Some(&'u') { 5 } else { 1 };
                    match t.pick(3) {
                        0 => (0..=n).for_each(|_| s.push('x')),
                        1 if n == 1 => {
                            s.push('\\');
                            s.push(['n', 't', '\'', '\\', 'r', 'b'][t.pick(6)]);
                        }
                        _ => s.extend(&cs[i..=i + n]),
                    }
                    i += n;
                } else if i + 2 < cs.len() && cs[i + 1] != '\\' && !cs[i + 1].is_control() && t.chance(4) {
                    s.push('\\');
                    s.push(['n', 't', '\'', '\\', 'r', 'b'][t.pick(6)]);
                    i += 1;
                } else {
                    s.push(TEXT.chars().nth(t.pick(TEXT.chars().count())).unwrap());
                }
                i += 1;
            }
        }
        _ => s = l.text.clone(),
    }
    s
}

/// a name or literal of another length
fn resized(l: &Leaf, t: &mut crate::gen::Tape) -> String {
    let n = [1, 2, 3, 5, 8, 13, 21, 40, 90, 250][t.pick(10)];
    match l.kind.as_str() {
        "identifier" | "type_identifier" => {
            if let Some(n) = crate::dict::get().name(t, 20) {
                return n;
            }
            (0..n).map(|i| if i == 0 { (b'p' + t.pick(10) as u8) as char } else { b"abcdefgXYZ_0189"[t.pick(15)] as char }).collect()
        }
        "int" => (0..1 + t.pick(9)).map(|_| (b'1' + t.pick(9) as u8) as char).collect(),
        "string_literal" if l.text.starts_with('\'') => {
            let n = if t.chance(10) { 0 } else { n };
            format!("'{}'", (0..n).map(|_| b"abc XYZ,;(){}.0189"[t.pick(18)] as char).collect::<String>())
        }
        _ => other_name(l, t),
    }
}

fn gen_renamed(c: &mut Ctx) -> Option<Case> {
    let strings = c.t.chance(20);
    let toks = c.program(&P { strings, ..P::default() });
    let mut l = plain_layout(c);
    if c.t.chance(30) {
        l.comments = [5, 15][c.t.pick(2)];
        l.comments_at_boundaries_only = true;
    }
    let src = c.render(&toks, &l);
    let any = c.t.chance(25);
    let mut lay = c.lay();
    let b = renamed(&src, &mut lay, any)?;
    let mut case = Case::new(c.prop, src);
    case.alt.push(b);
    cfg_of(c, &mut case);
    if any {
        // everything fits, or nothing does: lengths play no part
        case.w = [1_000_000, 0][c.t.pick(2)];
    }
    Some(case)
}

/// node kinds and leaves, names and literals left out
fn shape(v: &View) -> Vec<String> {
    fn go(n: tree_sitter::Node, out: &mut Vec<String>) {
        out.push(n.kind().to_string());
        let mut c = n.walk();
        for k in n.children(&mut c) {
            go(k, out);
        }
        out.push(")".into());
    }
    let mut out = vec![];
    go(v.tree.root_node(), &mut out);
    out
}

fn d_c22(c: &Case) -> Out {
    let b = &c.alt[0];
    let (x, y) = (some!(view(&c.src), "not valid Apex"), some!(view(b), "not valid Apex"));
    if shape(&x) != shape(&y) {
        return discard("the renamed program reads differently");
    }
    match (fmt::format(&c.src, c.cfg()), fmt::format(b, c.cfg())) {
        (Ok(o1), Ok(o2)) => {
            let (Some(v1), Some(v2)) = (view(&o1), view(&o2)) else { return discard("code changed (C01)") };
            if v1.leaves.len() != v2.leaves.len() {
                return discard("code changed (C01)");
            }
            let (mut a1, mut a2) = (0, 0);
            for (p, q) in v1.leaves.iter().zip(&v2.leaves) {
                let (g1, g2) = (&o1[a1..p.start], &o2[a2..q.start]);
                if g1 != g2 {
                    return fail(
                        "layout depends on what names and literals say",
                        format!("in front of {:?} and {:?}: {:?} and {:?}\n{}\n{}", p.text, q.text, g1, g2, show(&o1), show(&o2)),
                    );
                }
                if !NAMES.contains(&p.kind.as_str()) && p.text != q.text {
                    return fail("text depends on what names and literals say", format!("{:?} and {:?}\n{}\n{}", p.text, q.text, show(&o1), show(&o2)));
                }
                a1 = p.end;
                a2 = q.end;
            }
            pass(c.src != *b && code_tokens(&c.src) >= 12)
        }
        (Err(_), Err(_)) => discard("refused by the tool (C14 decides refusals)"),
        (Err(e), _) | (_, Err(e)) => fail("a program is refused, the renamed one is not", e),
    }
}

// ------------------------------------------------------------------ C23 to C25 rules of layout

pub(crate) fn gen_layout(c: &mut Ctx) -> Option<Case> {
    if c.t.chance(25) {
        gen_boundary_comments(c)
    } else {
        gen_plain(c)
    }
}

fn ruled(c: &Case, min: usize, f: impl Fn(&str, &View) -> Result<usize, crate::layout::Bad>) -> Out {
    let o = formatted!(&c.src, c.cfg());
    let w = some!(view(&o), "code changed (C01)");
    match f(&o, &w) {
        Ok(n) => pass(n >= min),
        Err((s, m)) => fail(s, format!("{}\n{}", m, show(&o))),
    }
}

fn d_c23(c: &Case) -> Out {
    ruled(c, 12, crate::layout::spacing)
}
fn d_c24(c: &Case) -> Out {
    ruled(c, 3, crate::layout::braces)
}
fn d_c26(c: &Case) -> Out {
    ruled(c, 1, |o, w| crate::layout::comments(o, w, c.i as usize))
}
fn d_c25(c: &Case) -> Out {
    let limit = width_domain(c).map_or(u32::MAX, |_| c.w);
    ruled(c, 1, |o, w| crate::layout::lists(o, w, c.i as usize, limit))
}

// ------------------------------------------------------------------ C27 nesting shifts the code

fn d_c27(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    let root = v.tree.root_node();
    let mut k = root.walk();
    let ok = ["class_declaration", "interface_declaration", "enum_declaration"];
    if root.children(&mut k).any(|n| !n.is_extra() && !ok.contains(&n.kind())) {
        return discard("not a file of declarations");
    }
    if v.leaves.iter().any(|l| !l.comment && l.row != l.end_row) {
        return discard("a literal with a line break in it");
    }
    if c.w > 1_000_000_000 {
        return discard("huge width");
    }
    let o = formatted!(&c.src, c.cfg());
    if o.trim().is_empty() {
        return discard("empty file");
    }
    let levels = 1 + (c.src.len() % 3) as u32;
    // the innermost may be an interface
    let wrap = ["class", "class", "interface"][c.src.len() / 3 % 3];
    let inner = format!("{}{wrap} W {{\n{}\n{}", "class W {\n".repeat(levels as usize - 1), c.src.trim_matches([' ', '\t', '\r', '\n', '\u{c}']), "}".repeat(levels as usize));
    if view(&inner).is_none() {
        return discard("not valid inside a class or interface");
    }
    let o2 = match fmt::format(&inner, Cfg { width: c.w + levels * c.i, indent: c.i }) {
        Ok(o) => o,
        Err(e) => return fail("refused inside a class", e),
    };
    let lines: Vec<&str> = o2.trim_end().split('\n').collect();
    let n = levels as usize;
    if lines.len() < 2 * n || lines[n - 1].trim() != format!("{wrap} W {{") || lines[lines.len() - n].trim() != "}" {
        return discard("code changed (C01)");
    }
    let pad = " ".repeat((levels * c.i) as usize);
    let a: Vec<&str> = o.trim_end().split('\n').collect();
    let b = &lines[n..lines.len() - n];
    for (i, x) in a.iter().enumerate() {
        let y = b.get(i).copied().unwrap_or("<end>");
        let want = if x.is_empty() { String::new() } else { format!("{pad}{x}") };
        if y != want {
            return fail("nesting changes the layout", format!("line {}: {:?} and {:?}\n{}\n{}", i + 1, x, y, show(&o), show(&o2)));
        }
    }
    if a.len() != b.len() {
        return fail("nesting changes the layout", format!("{} and {} lines\n{}\n{}", a.len(), b.len(), show(&o), show(&o2)));
    }
    pass(a.len() >= 4)
}

// ------------------------------------------------------------------ table

pub fn all() -> Vec<Check> {
    let mut v = base();
    v.extend(crate::more::all());
    v
}

fn base() -> Vec<Check> {
    let d = |id, rule, quick, thorough, gen, decide| Check { id, rule, quick, thorough, chunk: 500, tapes: (600, 800, 48), shrink_text: true, gen, decide };
    vec![
        d("C01", "the source parses, has at least 12 code tokens and the output differs from it", 40_000, 1_500_000, gen_code, d_c01),
        d("C02", "the source holds a query with at least one clause besides SELECT and FROM", 40_000, 1_500_000, gen_soql, d_c02),
        d("C03", "the output differs from the source, which has 4 or more names/literals and a string literal or non-ASCII text", 40_000, 1_500_000, gen_strings, d_c03),
        d("C04", "the source holds a comment and an output was produced", 40_000, 1_500_000, gen_comments, d_c04),
        d("C05", "the source holds a comment between members or statements and an output was produced", 40_000, 1_500_000, gen_boundary_comments, d_c05),
        d("C06", "the output differs from the source and has 4 or more lines", 40_000, 1_500_000, gen_idem, d_c06),
        Check { shrink_text: false, ..d("C07", "two different layouts of a program of 12 or more tokens that read the same", 40_000, 1_500_000, gen_layouts, d_c07) },
        d("C08", "two or more member boundaries, at least one with a blank line", 40_000, 1_500_000, gen_gaps, d_c08),
        d("C09", "the width limit changes the output: it differs from the outputs at width 1 and without limit", 30_000, 1_000_000, gen_width, d_c09),
        d("C10", "the width limit changes the output", 30_000, 1_000_000, gen_width, d_c10),
        d("C11", "four or more members were placed with an indent_size other than 2", 30_000, 1_000_000, gen_clean, d_c11),
        d("C12", "an output of 4 or more lines", 40_000, 1_500_000, gen_idem, d_c12),
        d("C13", "the mutated source has a syntax error or unbalanced brackets", 40_000, 1_500_000, gen_invalid, d_c13),
        d("C14", "a valid source of 12 or more code tokens", 40_000, 1_500_000, gen_total, d_c14),
        Check { chunk: 10, tapes: (400, 600, 400), shrink_text: false, ..cli::c15() },
        Check { chunk: 20, shrink_text: false, ..cli::c16() },
        Check { chunk: 20, shrink_text: false, ..cli::c17() },
        Check { chunk: 50, tapes: (400, 600, 400), shrink_text: false, ..d("C18", "two or more files of the batch are accepted", 2_500, 100_000, gen_batch, d_c18) },
        Check { shrink_text: false, ..d("C19", "two different spellings of a program of 12 or more tokens that read the same", 40_000, 1_500_000, gen_case, d_c19) },
        d("C20", "two or more members were also formatted alone", 15_000, 500_000, gen_clean, d_c20),
        Check { shrink_text: false, ..d("C22", "two programs of 12 or more tokens that differ in their names and literals", 40_000, 1_500_000, gen_renamed, d_c22) },
        d("C23", "a program with 12 or more places on one line that a rule decides", 40_000, 1_500_000, gen_layout, d_c23),
        d("C24", "a program with 3 or more bodies in braces", 40_000, 1_500_000, gen_layout, d_c24),
        d("C25", "a program with a list broken into two or more lines", 40_000, 1_500_000, gen_layout, d_c25),
        d("C26", "a program with a comment whose place a rule decides", 40_000, 1_500_000, gen_boundary_comments, d_c26),
        d("C27", "a file of declarations whose output has 4 or more lines", 40_000, 1_500_000, gen_layout, d_c27),
        d("C21", "a source with comments at boundaries whose code takes 3 or more lines", 40_000, 1_500_000, gen_own_line_comments, d_c21),
    ]
}

pub fn find(id: &str) -> Option<Check> {
    all().into_iter().find(|c| c.id == id)
}
