//! Further properties: independence of the surroundings, diagnostics, bodies of every kind, roles of
//! operators and keywords, and the command line itself.
use crate::ast;
use crate::checks::*;
use crate::cli::{self, Scratch};
use crate::engine::{Case, Check, Ctx, Out, P};
use crate::fmt::{self, Cfg};
use crate::oracle::{view, View};
use crate::render::Layout;
use crate::some;
use tree_sitter::Node;

// ------------------------------------------------------------------ C30 bodies of every kind

/// how a list of statements is enclosed, and how deep it lies
const BODIES: &[(&str, &str, u32)] = &[
    ("trigger T on A (before insert) {\n", "\n}", 1),
    ("class K { void m() {\n", "\n} }", 2),
    ("class K { public K() {\n", "\n} }", 2),
    ("class K { private static Integer m(A a, B b) {\n", "\n} }", 2),
    ("class K { static {\n", "\n} }", 2),
    ("class K { {\n", "\n} }", 2),
    ("class K { A p { get {\n", "\n} } }", 3),
    ("class K { A p { get; private set {\n", "\n} } }", 3),
    ("class K { void m() { if (c) {\n", "\n} } }", 3),
    ("class K { void m() { if (c) { a(); } else {\n", "\n} } }", 3),
    ("class K { void m() { if (c) { a(); } else if (d) {\n", "\n} else { b(); } } }", 3),
    ("class K { void m() { for (Integer i = 0; i < 3; i++) {\n", "\n} } }", 3),
    ("class K { void m() { for (A a : b) {\n", "\n} } }", 3),
    ("class K { void m() { for (A a : [SELECT Id FROM A]) {\n", "\n} } }", 3),
    ("class K { void m() { while (c) {\n", "\n} } }", 3),
    ("class K { void m() { do {\n", "\n} while (c); } }", 3),
    ("class K { void m() { try {\n", "\n} catch (E e) { a(); } } }", 3),
    ("class K { void m() { try { a(); } catch (E e) {\n", "\n} finally { b(); } } }", 3),
    ("class K { void m() { try { a(); } finally {\n", "\n} } }", 3),
    ("class K { void m() { {\n", "\n} } }", 3),
    ("class K { void m() { System.runAs(u) {\n", "\n} } }", 3),
    ("class K { void m() { switch on x { when 1, 2 {\n", "\n} } } }", 4),
    ("class K { void m() { switch on x { when A b {\n", "\n} when else { } } } }", 4),
    ("class K { void m() { switch on x { when 1 { } when else {\n", "\n} } } }", 4),
    ("class K { class L { void m() {\n", "\n} } }", 3),
    ("trigger T on A (after update) { if (c) { while (d) {\n", "\n} } }", 3),
];
const START: &str = "zqStart();";
const END: &str = "zqEnd();";

fn statement_lists(n: Node, out: &mut Vec<(usize, usize)>) {
    if matches!(n.kind(), "block" | "constructor_body" | "trigger_body") {
        let mut k = n.walk();
        let named: Vec<Node> = n.children(&mut k).filter(|x| !matches!(x.kind(), "{" | "}" | ";")).collect();
        let code: Vec<&Node> = named.iter().filter(|x| x.is_named() && !x.is_extra() && x.kind() != "explicit_constructor_invocation").collect();
        if let (Some(a), Some(b)) = (named.first(), named.last()) {
            if !code.is_empty() {
                out.push((a.start_byte(), b.end_byte()));
            }
        }
        // one or two of them
        for w in code.windows(2) {
            out.push((w[0].start_byte(), w[1].end_byte()));
        }
        for x in code {
            out.push((x.start_byte(), x.end_byte()));
        }
    }
    let mut k = n.walk();
    for c in n.children(&mut k) {
        statement_lists(c, out);
    }
}

fn gen_bodies(c: &mut Ctx) -> Option<Case> {
    let mut case = gen_layout(c)?;
    case.p.insert("at".into(), c.t.pick(1000).to_string());
    let (a, b) = (c.t.pick(BODIES.len()), c.t.pick(BODIES.len()));
    case.p.insert("bodies".into(), format!("{a} {b}"));
    if c.t.chance(50) {
        case.p.insert("bare".into(), "1".into());
    }
    Some(case)
}

/// the lines between the markers, without the indentation of the level
fn between(o: &str, pad: usize) -> Option<Vec<String>> {
    let ls: Vec<&str> = o.split('\n').collect();
    let a = ls.iter().position(|l| l.trim() == START)?;
    let b = ls.iter().rposition(|l| l.trim() == END)?;
    let pad = " ".repeat(pad);
    Some(ls[a..=b].iter().map(|l| if l.is_empty() { String::new() } else { l.strip_prefix(&pad).map_or(format!("<less> {l}"), String::from) }).collect())
}

/// the lines between the first `head` and the last `tail` tokens of code
fn inside(o: &str, head: usize, tail: usize, pad: usize) -> Option<Vec<String>> {
    let v = view(o)?;
    let code: Vec<&ast::Leaf> = v.leaves.iter().filter(|l| !l.comment).collect();
    if head == 0 || tail == 0 || code.len() < head + tail {
        return None;
    }
    let ls: Vec<&str> = o[code[head - 1].end..code[code.len() - tail].start].split('\n').collect();
    let pad = " ".repeat(pad);
    let mut r = vec![ls[0].to_string()];
    r.extend(ls[1..].iter().take(ls.len().saturating_sub(2)).map(|l| if l.is_empty() { String::new() } else { l.strip_prefix(&pad).map_or(format!("<less> {l}"), String::from) }));
    Some(r)
}

fn d_c30(c: &Case) -> Out {
    let v = some!(view(&c.src), "not valid Apex");
    if c.w > 1_000_000_000 {
        return discard("huge width");
    }
    let mut lists = vec![];
    statement_lists(v.tree.root_node(), &mut lists);
    if lists.is_empty() {
        return discard("no statements");
    }
    let (from, to) = lists[c.get("at").parse::<usize>().unwrap_or(0) % lists.len()];
    if v.leaves.iter().any(|l| !l.comment && l.row != l.end_row && l.start >= from && l.end <= to) {
        return discard("a literal with a line break in it");
    }
    let body = &c.src[from..to];
    let which: Vec<usize> = c.get("bodies").split(' ').filter_map(|x| x.parse().ok()).collect();
    let (Some(a), Some(b)) = (which.first().and_then(|i| BODIES.get(*i)), which.get(1).and_then(|i| BODIES.get(*i))) else { return discard("no body") };
    let lowest = a.2.min(b.2);
    let bare = c.get("bare") == "1";
    let mut outs = vec![];
    let mut reads = vec![];
    let mut ends = vec![];
    for t in [a, b] {
        let src = if bare { format!("{}{body}{}\n", t.0, t.1) } else { format!("{}{START}\n{body}\n{END}{}\n", t.0, t.1) };
        let w = some!(view(&src), "not valid in such a body");
        let codes: Vec<(String, String)> = w.leaves.iter().filter(|l| l.start >= t.0.len() && l.end <= src.len() - t.1.len() - 1).map(|l| (l.kind.clone(), l.text.clone())).collect();
        reads.push(codes);
        let code = |from: usize, to: usize| w.leaves.iter().filter(|l| !l.comment && l.start >= from && l.end <= to).count();
        ends.push((code(0, t.0.len()), code(src.len() - t.1.len() - 1, src.len())));
        let cfg = Cfg { width: c.w + (t.2 - lowest) * c.i, indent: c.i };
        outs.push((fmt::format(&src, cfg), (t.2 * c.i) as usize));
    }
    if reads[0] != reads[1] {
        return discard("reads differently");
    }
    match (&outs[0], &outs[1]) {
        ((Ok(o1), p1), (Ok(o2), p2)) => {
            let both = if bare { (inside(o1, ends[0].0, ends[0].1, *p1), inside(o2, ends[1].0, ends[1].1, *p2)) } else { (between(o1, *p1), between(o2, *p2)) };
            let (Some(x), Some(y)) = both else { return fail("a statement is not on lines of its own", format!("{}\n{}", show(o1), show(o2))) };
            if x != y {
                return fail("the layout of a statement depends on the body that holds it", format!("{}\n{}\n{}", first_diff(&x.join("\n"), &y.join("\n")), show(o1), show(o2)));
            }
            pass(a.0 != b.0 && x.len() >= 2)
        }
        ((Err(_), _), (Err(_), _)) => discard("refused by the tool (C14 decides refusals)"),
        ((Err(e), _), _) | (_, (Err(e), _)) => fail("a statement is refused in one kind of body only", e.clone()),
    }
}

// ------------------------------------------------------------------ C31 roles

/// tokens of one role: the name, the nodes that hold them, the tokens
const ROLES: &[(&str, &[&str], &[&str])] = &[
    ("add", &["binary_expression"], &["+", "-"]),
    ("mul", &["binary_expression"], &["*", "/", "%"]),
    ("eq", &["binary_expression"], &["==", "!=", "===", "!==", "<>"]),
    ("rel", &["binary_expression"], &["<", ">", "<=", ">="]),
    ("shift", &["binary_expression"], &["<<", ">>", ">>>"]),
    ("assign", &["assignment_expression"], &["=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "%=", "<<=", ">>=", ">>>="]),
    ("sign", &["unary_expression"], &["+", "-", "!", "~"]),
    ("step", &["update_operator"], &["++", "--"]),
    ("modifier", SELF, &["global", "public", "private", "virtual", "override", "abstract", "protected", "transient", "static", "final", "webservice", "testmethod"]),
    ("sharing", &["with_sharing", "without_sharing", "inherited_sharing"], &["with sharing", "without sharing", "inherited sharing"]),
    ("dml", SELF, &["insert", "update", "delete", "undelete"]),
    ("security", SELF, &["user", "system"]),
    ("accessor", &["accessor_declaration"], &["get", "set"]),
    (
        "event",
        &["before_insert", "before_update", "before_delete", "after_insert", "after_update", "after_delete", "after_undelete"],
        &["before insert", "before update", "before delete", "after insert", "after update", "after delete", "after undelete"],
    ),
    ("jump", &["break_statement", "continue_statement"], &["break", "continue"]),
    ("compare", &["value_comparison_operator"], &["=", "<", ">", "!=", "<=", ">=", "<>"]),
    ("sets", &["set_comparison_operator"], &["includes", "excludes"]),
    ("within", &["set_comparison_operator"], &["in", "not in"]),
    ("order", &["order_direction"], &["asc", "desc"]),
    ("nulls", &["order_null_direction"], &["nulls first", "nulls last"]),
    ("for", &["for_type"], &["view", "reference", "update"]),
    ("tracking", &["update_type"], &["tracking", "viewstat"]),
    ("scope", &["using_scope_type"], &["delegated", "everything", "mine", "mine_and_my_groups", "my_territory", "my_team_territory", "team"]),
    ("fields", &["fields_type"], &["all", "custom", "standard"]),
    ("where", &["in_type"], &["all", "email", "name", "phone", "sidebar"]),
    ("day", &["date_literal"], &["today", "tomorrow", "yesterday", "last_week", "this_week", "next_year", "this_month", "last_90_days"]),
];
const SELF: &[&str] = &["="];

fn role_of(l: &ast::Leaf) -> Option<(usize, String)> {
    let text = l.text.split_whitespace().collect::<Vec<_>>().join(" ").to_lowercase();
    ROLES
        .iter()
        .position(|(_, parents, toks)| {
            let held = if *parents == SELF { l.parent.to_lowercase() == text } else { parents.contains(&l.parent.as_str()) };
            held && toks.contains(&text.as_str())
        })
        .map(|i| (i, text))
}

const LITS: &[&str] = &["int", "decimal_floating_point_literal", "string_literal", "boolean", "null_literal"];

fn lit(l: &ast::Leaf) -> bool {
    LITS.contains(&l.kind.as_str())
        && matches!(l.parent.as_str(), "argument_list" | "binary_expression" | "assignment_expression" | "variable_declarator" | "return_statement" | "ternary_expression" | "parenthesized_expression" | "array_initializer" | "map_initializer")
}

/// the program with other tokens of the same roles
fn recast(src: &str, t: &mut crate::gen::Tape, any_length: bool) -> Option<String> {
    let v = view(src)?;
    let mut out = String::with_capacity(src.len());
    let mut at = 0;
    let p = [100, 30, 60][t.pick(3)];
    let has = |s: &str| v.leaves.iter().any(|l| l.kind == s);
    let logic = if has("??") || (has("&&") && has("||")) { 2 } else { t.pick(2) };
    let bits = if ["&", "|", "^"].iter().filter(|s| has(s)).count() == 1 { t.pick(4) } else { 3 };
    let signed = |i: usize| v.leaves.get(i).is_some_and(|l| l.text.starts_with(['+', '-', '!', '~']));
    for (i, l) in v.leaves.iter().enumerate() {
        if l.comment {
            continue;
        }
        let new = if l.parent == "binary_expression" && matches!(l.kind.as_str(), "&&" | "||") {
            if logic == 1 { Some(if l.kind == "&&" { "||" } else { "&&" }.to_string()) } else { None }
        } else if l.parent == "binary_expression" && matches!(l.kind.as_str(), "&" | "|" | "^") {
            if bits < 3 { Some(["&", "|", "^"][bits].to_string()) } else { None }
        } else if let (true, Some((r, key))) = (t.chance(p), role_of(l)) {
            let near = matches!(ROLES[r].0, "add" | "sign" | "step") && (signed(i + 1) || i > 0 && signed(i - 1));
            let pool: Vec<&&str> = ROLES[r].2.iter().filter(|x| any_length || x.len() == key.len()).collect();
            // `static` in front of a brace is a block of its own
            let fixed = ROLES[r].0 == "modifier" && v.leaves.get(i + 1).is_some_and(|n| n.text == "{");
            if near || fixed || pool.is_empty() { None } else { Some(pool[t.pick(pool.len())].to_string()) }
        } else if any_length && lit(l) && t.chance(p) {
            let s = ["1", "'text'", "true", "null", "2.5", "false", "''", "123456L", "'some longer text of several words'"];
            Some(s[t.pick(s.len())].to_string())
        } else {
            None
        };
        let Some(new) = new else { continue };
        out.push_str(&src[at..l.start]);
        at = l.end;
        out.push_str(&new);
    }
    out.push_str(&src[at..]);
    Some(out)
}

/// node kinds and leaves; tokens of one role count as one
fn roles(v: &View, any_length: bool) -> Vec<String> {
    let mut by_start = std::collections::BTreeMap::new();
    for l in &v.leaves {
        by_start.insert((l.start, l.end), l);
    }
    fn go(n: Node, by: &std::collections::BTreeMap<(usize, usize), &ast::Leaf>, any: bool, out: &mut Vec<String>) {
        if n.child_count() == 0 {
            let name = match by.get(&(n.start_byte(), n.end_byte())) {
                Some(l) if l.parent == "binary_expression" && matches!(l.kind.as_str(), "&&" | "||") => "logic".to_string(),
                Some(l) if l.parent == "binary_expression" && matches!(l.kind.as_str(), "&" | "|" | "^") => "bits".to_string(),
                Some(l) if any && lit(l) => "literal".to_string(),
                Some(l) => role_of(l).map_or(n.kind().to_string(), |r| ROLES[r.0].0.to_string()),
                None => n.kind().to_string(),
            };
            out.push(name);
        } else {
            // a node that wraps one token, or that is named after its first token
            let first = n.child(0).filter(|k| k.child_count() == 0).and_then(|k| by.get(&(k.start_byte(), k.end_byte())));
            let role = first.and_then(|l| role_of(l)).filter(|r| ROLES[r.0].1 != ["accessor_declaration"] && ROLES[r.0].1 != ["unary_expression"]);
            out.push(role.map_or(n.kind().to_string(), |r| ROLES[r.0].0.to_string()));
        }
        let mut c = n.walk();
        for k in n.children(&mut c) {
            go(k, by, any, out);
        }
        out.push(")".into());
    }
    let mut out = vec![];
    go(v.tree.root_node(), &by_start, any_length, &mut out);
    out
}

fn gen_roles(c: &mut Ctx) -> Option<Case> {
    let bias = [None, Some(1), Some(3), Some(2)][c.t.pick(4)];
    let toks = c.program(&P { bias, ..P::default() });
    let mut l = plain_layout(c);
    if c.t.chance(20) {
        l.comments = [5, 15][c.t.pick(2)];
        l.comments_at_boundaries_only = true;
    }
    let src = c.render(&toks, &l);
    let mut case = Case::new(c.prop, String::new());
    cfg_of(c, &mut case);
    let any = c.t.chance(40);
    if any {
        // everything fits, or nothing does: lengths play no part
        case.w = [1_000_000, 0][c.t.pick(2)];
        case.p.insert("any".into(), "1".into());
    }
    let mut lay = c.lay();
    let b = recast(&src, &mut lay, any)?;
    case.src = src;
    case.alt.push(b);
    Some(case)
}

fn d_c31(c: &Case) -> Out {
    let any = c.get("any") == "1";
    let b = &c.alt[0];
    let (x, y) = (some!(view(&c.src), "not valid Apex"), some!(view(b), "not valid Apex"));
    if roles(&x, any) != roles(&y, any) {
        return discard("the other program reads differently");
    }
    match (fmt::format(&c.src, c.cfg()), fmt::format(b, c.cfg())) {
        (Ok(o1), Ok(o2)) => {
            let (Some(v1), Some(v2)) = (view(&o1), view(&o2)) else { return discard("code changed (C01)") };
            if v1.leaves.len() != v2.leaves.len() {
                return discard("code changed (C01)");
            }
            let (mut a1, mut a2) = (0, 0);
            for (p, q) in v1.leaves.iter().zip(&v2.leaves) {
                let (g1, g2) = (&o1[a1..p.start], &o2[a2..q.start]);
                if g1 != g2 {
                    return fail(
                        "operators or keywords of one role are laid out differently",
                        format!("in front of {:?} and {:?}: {:?} and {:?}\n{}\n{}", p.text, q.text, g1, g2, show(&o1), show(&o2)),
                    );
                }
                a1 = p.end;
                a2 = q.end;
            }
            pass(c.src != *b && code_tokens(&c.src) >= 12)
        }
        (Err(_), Err(_)) => discard("refused by the tool (C14 decides refusals)"),
        (Err(e), _) | (_, Err(e)) => fail("a program is refused, the other one is not", e),
    }
}

// ------------------------------------------------------------------ C28 the surroundings mean nothing

const FILES: [&str; 22] = [
    "a.cls", "A.CLS", "T.trigger", "anon.apex", "x.txt", "noext", "Test.cls", "AccountTest.cls", "Account_Test.cls", "pom.xml", "soql.soql", "x.cls-meta.xml",
    "fflib_Thing.cls", "Generated.generated.cls", "x.min.cls", "x.page", "tést.cls", "q.java", ".afmt", "x.cls.bak", "README.md", "Makefile",
];
const DIRS: [&str; 9] = [
    "", "classes", "force-app/main/default/classes", "triggers", "test", "tests/static", "node_modules/x", ".sfdx", "a b/c",
];
const ENV: [(&str, &str); 30] = [
    ("LANG", "de_DE.UTF-8"), ("LC_ALL", "C"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kolkata"), ("TERM", "dumb"), ("TERM", "xterm-256color"), ("USER", "nobody"), ("PWD", "/"),
    ("RUST_LOG", "trace"), ("RUST_MIN_STACK", "8388608"), ("RUST_BACKTRACE", "1"), ("DEBUG", "1"), ("COLUMNS", "30"), ("GITHUB_ACTIONS", "true"), ("CI", "true"),
    ("HOSTNAME", "build"), ("SHELL", "/bin/zsh"), ("TMPDIR", "/nonexistent"), ("NO_COLOR", "1"), ("FORCE_COLOR", "3"), ("EDITOR", "vi"), ("SOURCE_DATE_EPOCH", "0"),
    ("NODE_ENV", "production"), ("PRETTIER_DEBUG", "1"), ("AFMT_DEBUG", "1"), ("VERBOSE", "1"), ("TEST", "1"), ("APEX", "1"), ("MALLOC_PERTURB_", "165"), ("LINES", "3"),
];

fn gen_surroundings(c: &mut Ctx) -> Option<Case> {
    let base = match c.t.pick(4) {
        0 => gen_boundary_comments(c)?,
        1 => gen_comments(c)?,
        _ => gen_code(c)?,
    };
    let mut case = base;
    let (n, m) = (1 + c.t.pick(2), 2 + c.t.pick(2));
    for _ in 0..n {
        let (s, _) = cli::contents(c);
        case.alt.push(s);
    }
    let mut runs = vec![];
    for _ in 0..m {
        let name = match crate::dict::get().word(&mut c.t, 25) {
            Some(w) if w.len() < 40 && !w.contains(['/', '\0', '\n', '|']) && !w.starts_with('-') && w != "." && w != ".." => {
                if c.t.chance(50) { w } else { format!("{w}.cls") }
            }
            _ => FILES[c.t.pick(FILES.len())].to_string(),
        };
        let env: Vec<String> = (0..c.t.pick(4)).map(|_| c.t.pick(ENV.len()).to_string()).collect();
        runs.push(format!(
            "{}|{}|{}|{}|{}|{}|{}|{}",
            name,
            c.t.pick(DIRS.len()),
            c.t.pick(4),
            c.t.pick(4),
            c.t.pick(5),
            c.t.pick(3),
            env.join(","),
            c.t.pick(3)
        ));
    }
    case.p.insert("runs".into(), runs.join("\n"));
    if let Some(w) = crate::dict::get().word(&mut c.t, 30) {
        case.p.insert("dir".into(), w.trim_matches('/').to_string());
    }
    if let Some(w) = crate::dict::get().word(&mut c.t, 40) {
        if !w.contains("*/") {
            let w = w.trim_start_matches('/');
            case.src = if c.t.chance(60) { format!("//{}{}\n{}", if c.t.chance(50) { " " } else { "" }, w.trim_start(), case.src) } else { format!("/* {w} */\n{}", case.src) };
        }
    }
    if c.t.chance(3) {
        // a source of many lines
        let n = [300, 1000, 3000][c.t.pick(3)];
        let body: String = (0..n).map(|i| format!("  Integer f{i} = {};\n", c.t.pick(100))).collect();
        case.src = format!("class Big {{\n{body}}}\n");
    }
    // variables with a value of a kind that might count
    let mut vars = vec![];
    for _ in 0..c.t.pick(3) {
        let n = match crate::dict::get().word(&mut c.t, 60) {
            Some(n) if n.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) => n,
            _ => ENV[c.t.pick(ENV.len())].0.to_string(),
        };
        if n.is_empty() || matches!(n.as_str(), "PATH" | "LD_LIBRARY_PATH" | "LD_PRELOAD" | "TMPDIR" | "MALLOC_PERTURB_" | "RUST_MIN_STACK") {
            continue;
        }
        let v = match crate::dict::get().word(&mut c.t, 20) {
            Some(v) if !v.contains(['\0', '\n']) => v,
            _ => ["", "0", "1", "2", "8", "33", "81", "100", "200", "65536", "-1", "true", "never", "always", "auto", "C.UTF-8", "/", "a:b", "x"][c.t.pick(19)].to_string(),
        };
        vars.push(format!("{n}={v}"));
    }
    case.p.insert("vars".into(), vars.join("\n"));
    if c.t.chance(35) {
        // the settings that hold where no file states any
        (case.w, case.i) = (80, 2);
    }
    // a wide choice of settings, but one that a file can state
    case.w = case.w.min(1_000_000);
    Some(case)
}

fn d_c28(c: &Case) -> Out {
    let cfg = c.cfg();
    let want = fmt::format(&c.src, cfg);
    // once more, and beside other threads; a thread formats one source (`format_one` refuses a second one)
    let same = |what: &str, got: &Result<String, String>| -> Option<Out> {
        match (&want, got) {
            (Ok(a), Ok(b)) if a == b => None,
            (Err(_), Err(_)) => None,
            (Ok(a), Ok(b)) => Some(fail("the output depends on more than the source and the settings", format!("{what}: {}\n{}", first_diff(a, b), show(a)))),
            (Ok(_), Err(e)) | (Err(e), Ok(_)) => Some(fail("a refusal depends on more than the source and the settings", format!("{what}: {e}"))),
        }
    };
    if let Some(f) = same("run again", &fmt::format(&c.src, cfg)) {
        return f;
    }
    let mut seq: Vec<(String, Cfg)> = c.alt.iter().map(|a| (a.clone(), Cfg { width: 60, indent: 3 })).collect();
    seq.push((c.src.clone(), cfg));
    let all: Vec<Result<String, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3u32)
            .map(|i| {
                let seq = &seq;
                s.spawn(move || {
                    let k = seq.len() - 1;
                    let mut r = Err(String::new());
                    for j in 0..=k {
                        let (t, f) = &seq[if i % 2 == 0 { k } else { j }];
                        r = fmt::format(t, *f);
                    }
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for r in &all {
        if let Some(f) = same("beside other threads", r) {
            return f;
        }
    }
    let dir = Scratch::new();
    let root = dir.path("work");
    std::fs::create_dir_all(&root).expect("dir");
    std::fs::write(root.join("c.toml"), format!("max_width = {}\nindent_size = {}\n", cfg.width, cfg.indent)).expect("write");
    let mut n = 0;
    for r in c.get("runs").split('\n') {
        let f: Vec<&str> = r.split('|').collect();
        if f.len() != 8 {
            continue;
        }
        let num = |i: usize| f[i].parse::<usize>().unwrap_or(0);
        let mut d = root.join(DIRS[num(1) % DIRS.len()]);
        if !c.get("dir").is_empty() && num(1) % 2 == 1 && !c.get("dir").contains('\0') {
            d = root.join(format!("./{}", c.get("dir").replace("..", "_")));
        }
        if std::fs::create_dir_all(&d).is_err() {
            continue;
        }
        let file = d.join(f[0]);
        if std::fs::symlink_metadata(&file).is_ok_and(|m| m.is_dir()) || std::fs::write(&file, &c.src).is_err() {
            continue;
        }
        // other files beside it
        if num(7) > 0 {
            let _ = std::fs::write(d.join("zz_other.cls"), c.alt.first().map(|s| s.as_str()).unwrap_or(""));
        }
        if let Ok(h) = std::fs::File::options().write(true).open(&file) {
            let t = [0u64, 1_000_000_000, 4_000_000_000, 1_700_000_000][num(3) % 4];
            let _ = h.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(t));
        }
        let mut conf = root.join("c.toml").to_string_lossy().to_string();
        let (cwd, path) = match num(2) {
            0 => (d.clone(), f[0].to_string()),
            1 => (root.clone(), file.strip_prefix(&root).expect("below").to_string_lossy().to_string()),
            2 => (root.clone(), file.to_string_lossy().to_string()),
            _ => (d.clone(), format!("./{}", f[0])),
        };
        if num(5) == 1 && cwd == root {
            conf = "c.toml".into();
        }
        let mut env: Vec<(&str, &str)> = f[6].split(',').filter_map(|e| e.parse::<usize>().ok()).map(|e| ENV[e % ENV.len()]).collect();
        if n % 2 == 0 {
            env.extend(c.get("vars").split('\n').filter_map(|v| v.split_once('=')));
        }
        let args = [path.as_str(), "-c", conf.as_str()];
        let args = if cfg == (Cfg { width: 80, indent: 2 }) && num(5) != 1 { &args[..1] } else { &args[..] };
        let how = [cli::Io::Pipe, cli::Io::File, cli::Io::Terminal, cli::Io::Stdin, cli::Io::Noise][num(4) % 5];
        let Some(r) = cli::run_in(&cwd, args, &env, how) else { continue };
        n += 1;
        let ctx = |m: &str| format!("{m}\nfile {:?} cwd {:?} args {:?} env {:?} {:?} exit {:?}\nstderr: {}", file, cwd, args, env, how, r.code, fmt::plain(&String::from_utf8_lossy(&r.err)));
        match &want {
            Ok(o) => {
                if r.code != Some(0) {
                    return fail("a refusal depends on more than the source and the settings", ctx("the tool refuses what the library accepts"));
                }
                let got = String::from_utf8_lossy(&r.out).to_string();
                let (a, b) = if matches!(how, cli::Io::Terminal) { (o.replace("\r\n", "\n"), got.replace("\r\n", "\n").replace("\r\n", "\n")) } else { (o.clone(), got) };
                if b != a && b != format!("{a}\n") {
                    return fail("the output depends on more than the source and the settings", ctx(&first_diff(&a, &b)));
                }
            }
            Err(_) => {
                if r.code == Some(0) || r.code.is_none() {
                    return fail("a refusal depends on more than the source and the settings", ctx("the tool accepts what the library refuses"));
                }
            }
        }
    }
    pass(want.is_ok() && n >= 2 && c.src.len() >= 60)
}

// ------------------------------------------------------------------ C29 what a refusal says

fn gen_refusal(c: &mut Ctx) -> Option<Case> {
    let what = ["syntax", "syntax", "syntax", "syntax", "comment", "comment", "unreadable", "config"][c.t.pick(8)];
    let mut case = match what {
        "syntax" => gen_invalid(c)?,
        "comment" => {
            let toks = c.program(&P::default());
            let l = Layout { ws: 1, comments: [40, 10, 80][c.t.pick(3)], ..Default::default() };
            let src = c.render(&toks, &l);
            let mut case = Case::new(c.prop, src);
            cfg_of(c, &mut case);
            case
        }
        _ => {
            let (s, _) = cli::contents(c);
            Case::new(c.prop, s)
        }
    };
    if c.t.chance(20) {
        case.src = case.src.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    c.labels.push(format!("refusal.{what}"));
    case.p.insert("what".into(), what.into());
    case.p.insert("name".into(), ["a.cls", "Some Class.cls", "sub/b.trigger", "ünï.cls", "x.y.z"][c.t.pick(5)].into());
    case.p.insert("mode".into(), ["", "-w", "--check", "-t", "--time -w"][c.t.pick(5)].into());
    case.p.insert("bad".into(), c.t.pick(5).to_string());
    Some(case)
}

/// (kind, from, to) of every place where the parser found an error
fn errors(n: Node, out: &mut Vec<(String, usize, usize)>) {
    if n.is_error() || n.is_missing() {
        out.push((n.kind().to_string(), n.start_byte(), n.end_byte()));
    }
    let mut k = n.walk();
    for c in n.children(&mut k) {
        errors(c, out);
    }
}

fn d_c29(c: &Case) -> Out {
    let what = c.get("what");
    let dir = Scratch::new();
    let root = dir.path("work");
    std::fs::create_dir_all(root.join("sub")).expect("dir");
    let name = c.get("name");
    let mode: Vec<&str> = c.get("mode").split(' ').filter(|s| !s.is_empty()).collect();
    let mut args = mode.clone();
    args.push(name);
    let file = root.join(name);
    let bad: usize = c.get("bad").parse().unwrap_or(0);
    std::fs::write(&file, &c.src).expect("write");
    let conf = format!("{}conf{bad}.toml", ["", "sub/", "./", "sub/../"][c.src.len() % 4]);
    match what {
        "unreadable" => {
            let _ = std::fs::remove_file(&file);
            match bad {
                0 => std::fs::create_dir_all(&file).expect("dir"),
                1 => std::fs::write(&file, [c.src.as_bytes(), b"\n// \xff\xfe"].concat()).expect("write"),
                2 => std::os::unix::fs::symlink("nowhere", &file).expect("link"),
                _ => {}
            }
        }
        "config" => {
            match bad {
                0 => std::fs::create_dir_all(root.join(&conf)).expect("dir"),
                1 => std::fs::write(root.join(&conf), "max_width = \n").expect("write"),
                2 => std::fs::write(root.join(&conf), "max_width = 'x'\n").expect("write"),
                3 => std::fs::write(root.join(&conf), "indent_size = -1\n").expect("write"),
                _ => {}
            }
            args.extend(["-c", &conf]);
        }
        _ => {}
    }
    let r = cli::run(&root, &args);
    let (out, err) = (fmt::plain(&String::from_utf8_lossy(&r.out)), fmt::plain(&String::from_utf8_lossy(&r.err)));
    let ctx = |m: &str| format!("{m}\nargs {:?} exit {:?}\nstdout: {}\nstderr: {}", args, r.code, show(&out), show(&err));
    let refused = r.code != Some(0);
    if refused && r.err.is_empty() {
        return fail("a refusal without a message on stderr", ctx(""));
    }
    match what {
        "unreadable" => {
            if !refused {
                return fail("an unreadable file is accepted", ctx(""));
            }
            if !err.contains(name) && !out.contains(name) {
                return fail("the message on an unreadable file does not name it", ctx(""));
            }
            pass(true)
        }
        "config" => {
            if !refused {
                return fail("an unusable configuration is accepted", ctx(""));
            }
            if !err.contains(&conf) && !out.contains(&conf) {
                return fail("the message on an unusable configuration does not name the file", ctx(""));
            }
            pass(true)
        }
        "comment" => {
            let v = some!(view(&c.src), "not valid Apex");
            if !refused || mode.contains(&"--check") && err.contains("not correctly formatted") {
                return discard("accepted");
            }
            // what the tool has no place for is named: a comment, word for word, or a construct
            let text = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            let e = text(&err);
            let lost: Vec<&str> = e.split("Erased comment: ").skip(1).collect();
            if lost.is_empty() {
                return discard("refused for another reason (C14)");
            }
            for l in &lost {
                if !v.leaves.iter().any(|x| x.comment && l.starts_with(&text(&x.text))) {
                    return fail("the comment that has no place is not quoted", ctx(l));
                }
            }
            pass(true)
        }
        _ => {
            let mut p = tree_sitter::Parser::new();
            p.set_language(&tree_sitter_sfapex::apex::LANGUAGE.into()).expect("language");
            let t = p.parse(&c.src, None).expect("parse");
            if !t.root_node().has_error() {
                return discard("still valid");
            }
            if !refused {
                return fail("invalid source was accepted", ctx(""));
            }
            let mut es = vec![];
            errors(t.root_node(), &mut es);
            let both = format!("{out}\n{err}");
            let Some(at) = both.find("byte range: ") else { return fail("the place of a syntax error is not reported", ctx("")) };
            let rest = &both[at + "byte range: ".len()..];
            let mut nums = rest.split(|ch: char| !ch.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse::<usize>().ok());
            let (Some(a), Some(b)) = (nums.next(), nums.next()) else { return fail("the place of a syntax error is not reported", ctx("")) };
            let Some(e) = es.iter().find(|e| e.1 == a && e.2 == b) else {
                return fail("a place is reported that is not one of a syntax error", ctx(&format!("reported {a}-{b}, errors {:?}", es.iter().take(20).collect::<Vec<_>>())));
            };
            if !both[..at].contains(e.0.as_str()) && !es.iter().any(|x| x.1 == a && x.2 == b && both[..at].contains(x.0.as_str())) {
                return fail("the kind of the place of a syntax error is wrong", ctx(&format!("{:?}", e)));
            }
            let text = fmt::plain(&c.src[a..b]);
            if let Some(i) = rest.find("snippet: ") {
                let got = &rest[i + "snippet: ".len()..];
                let whole = got.starts_with(&text);
                let short = got.find('…').is_some_and(|j| j >= 40 && text.starts_with(&got[..j]));
                if !whole && !short {
                    return fail("the text shown for a syntax error is not the text at its place", ctx(&format!("{a}-{b} is {text:?}")));
                }
            }
            pass(true)
        }
    }
}

// ------------------------------------------------------------------ C32 the command line

/// one element of a command line: what it means, and its arguments
fn gen_argv(c: &mut Ctx) -> Option<Case> {
    let (s, what) = cli::contents(c);
    c.labels.push(format!("content.{what}"));
    let (s2, _) = cli::contents(c);
    let mut case = Case::new(c.prop, s);
    case.alt.push(s2);
    let file = ["a.cls", "b c.cls", "sub/a.cls", "ünï.cls", "-w", "--check", "-x.cls", "write", "help", "=.cls", "./a.cls"][c.t.pick(11)];
    let dash = file.starts_with('-');
    let valid = c.t.chance(65);
    let mut flags: Vec<char> = vec![];
    for f in ['w', 't', 'C'] {
        if c.t.chance(45) {
            flags.push(f);
        }
    }
    let drop = c.t.chance(50);
    if valid && flags.contains(&'w') && flags.contains(&'C') {
        flags.retain(|f| *f != if drop { 'w' } else { 'C' });
    }
    let conf = c.t.chance(50);
    let mut bad = "";
    if !valid {
        bad = ["unknown", "twice", "no file", "two files", "no value", "value of a flag", "conflict", "twice config", "abbreviated", "upper", "no such config", "empty name"][c.t.pick(12)];
    }
    // groups of arguments that keep their order inside
    let mut groups: Vec<Vec<String>> = vec![];
    let toml = if c.t.chance(60) { ["c.toml", "sub/d.toml", "my conf.toml", "./c.toml"][c.t.pick(4)] } else { TOMLS[c.t.pick(TOMLS.len())].0 };
    let long = |f: char| match f {
        'w' => "--write",
        't' => "--time",
        _ => "--check",
    };
    let mut cluster = String::new();
    for f in &flags {
        if c.t.chance(40) {
            cluster.push(*f);
        } else if c.t.chance(50) {
            groups.push(vec![long(*f).into()]);
        } else {
            groups.push(vec![format!("-{f}")]);
        }
    }
    if conf {
        match c.t.pick(7) {
            0 => groups.push(vec!["--config".into(), toml.into()]),
            1 => groups.push(vec![format!("--config={toml}")]),
            2 => groups.push(vec!["-c".into(), toml.into()]),
            3 => groups.push(vec![format!("-c{toml}")]),
            4 => groups.push(vec![format!("-c={toml}")]),
            5 => {
                groups.push(vec![format!("-{cluster}c"), toml.into()]);
                cluster.clear();
            }
            _ => {
                groups.push(vec![format!("-{cluster}c{toml}")]);
                cluster.clear();
            }
        }
    }
    if !cluster.is_empty() {
        groups.push(vec![format!("-{cluster}")]);
    }
    match bad {
        "unknown" => {
            let u = ["-x", "--wat", "-wx", "--no-write", "-W", "-T", "--stdin", "--color=always", "-q", "--", "--diff"];
            let mut u = u[c.t.pick(u.len())].to_string();
            if u == "--" {
                u = "--quiet".into();
            }
            groups.push(vec![u]);
        }
        "twice" => {
            let f = flags.first().copied().unwrap_or('t');
            if flags.is_empty() {
                groups.push(vec!["-t".into()]);
            }
            groups.push(vec![if c.t.chance(50) { long(f).to_string() } else { format!("-{f}") }]);
        }
        "twice config" => {
            if !conf {
                groups.push(vec!["-c".into(), toml.into()]);
            }
            groups.push(vec!["--config".into(), "c.toml".into()]);
        }
        "value of a flag" => groups.push(vec![["--write=true", "--check=false", "--time=1", "--write=", "-w=1"][c.t.pick(5)].into()]),
        "conflict" => {
            for f in ['w', 'C'] {
                if !flags.contains(&f) {
                    groups.push(vec![if c.t.chance(50) { long(f).to_string() } else { format!("-{f}") }]);
                }
            }
        }
        "no such config" => {
            groups.retain(|g| !g[0].contains('c') || g[0].starts_with("--check"));
            let n = ["", " ", "c.toml ", " c.toml", "C.toml", "nope.toml", ".", "sub", "c", "~/c.toml", "'c.toml'"][c.t.pick(11)];
            groups.push(match c.t.pick(3) {
                0 => vec!["-c".into(), n.into()],
                1 => vec!["--config".into(), n.into()],
                _ => vec![format!("--config={n}")],
            });
        }
        "abbreviated" => groups.push(vec![["--writ", "--chec", "--con=c.toml", "--ti", "-write", "-check"][c.t.pick(6)].into()]),
        "upper" => groups.push(vec![["--Write", "--CHECK", "--Time", "--Config=c.toml"][c.t.pick(4)].into()]),
        _ => {}
    }
    // any order
    for i in (1..groups.len()).rev() {
        let j = c.t.pick(i + 1);
        groups.swap(i, j);
    }
    if bad == "no value" {
        groups.push(vec![if c.t.chance(50) { "-c" } else { "--config" }.into()]);
    }
    let mut args: Vec<String> = vec![];
    let at = if bad == "no value" { c.t.pick(groups.len()) } else { c.t.pick(groups.len() + 1) };
    let last = dash || (at == groups.len() && c.t.chance(30));
    for (i, g) in groups.iter().enumerate() {
        if i == at && !last && bad != "no file" {
            args.push(file.into());
        }
        args.extend(g.iter().cloned());
    }
    if (at == groups.len() || last) && bad != "no file" {
        if last && bad != "no value" {
            args.push("--".into());
        }
        if !args.contains(&file.to_string()) || last {
            args.push(file.into());
        }
    }
    if bad == "empty name" {
        for a in args.iter_mut().filter(|a| *a == file) {
            *a = ["", " ", "a.cls ", "A.CLS", "nope.cls", "sub", "."][c.t.pick(7)].into();
        }
    }
    if bad == "two files" {
        args.push("sub/other.cls".into());
    }
    c.labels.push(format!("argv.{}", if valid { "valid" } else { bad }));
    case.p.insert("file".into(), file.into());
    case.p.insert("args".into(), args.iter().map(|a| format!("{a}\n")).collect());
    case.p.insert("flags".into(), flags.iter().collect());
    case.p.insert("toml".into(), if conf { toml } else { "" }.into());
    case.p.insert("bad".into(), bad.into());
    case.p.insert("help".into(), if valid { ["", "", "", "", "", "", "--help", "--version", "-h", "-V"][c.t.pick(10)] } else { "" }.into());
    Some(case)
}

const TOMLS: [(&str, &str); 29] = [
    ("c.toml", "max_width = 50\nindent_size = 3\n"),
    ("sub/d.toml", "indent_size = 4\n"),
    ("my conf.toml", "max_width = 30\n"),
    ("c,1.toml", "indent_size = 5\n"),
    ("c,", "max_width = 20\nindent_size = 1\n"),
    ("a=b.toml", "indent_size = 6\n"),
    ("x;y.toml", "indent_size = 7\n"),
    ("k:1.toml", "indent_size = 3\n"),
    ("%20.toml", "indent_size = 4\n"),
    ("$HOME.toml", "indent_size = 5\n"),
    ("~.toml", "indent_size = 6\n"),
    ("ünï.toml", "indent_size = 7\n"),
    ("C.Toml", "indent_size = 4\nmax_width = 60\n"),
    ("it's \"q\".toml", "indent_size = 3\n"),
    ("a*?.toml", "indent_size = 4\n"),
    ("@args.toml", "indent_size = 5\n"),
    ("#1.toml", "indent_size = 6\n"),
    ("back\\slash.toml", "indent_size = 7\n"),
    (" blank .toml ", "indent_size = 4\n"),
    ("[x]{y}.toml", "indent_size = 3\n"),
    ("\"q\"", "indent_size = 4\n"),
    ("'q'", "indent_size = 5\n"),
    ("`q`", "indent_size = 6\n"),
    ("<q>", "indent_size = 7\n"),
    ("{q}", "indent_size = 3\n"),
    ("(q)", "indent_size = 4\n"),
    ("q.toml.", "indent_size = 5\n"),
    ("q.toml#x", "indent_size = 7\n"),
    ("q.toml?x=1&y", "indent_size = 3\n"),
];

fn d_c32(c: &Case) -> Out {
    let dir = Scratch::new();
    let root = dir.path("work");
    std::fs::create_dir_all(root.join("sub")).expect("dir");
    for (n, t) in TOMLS {
        std::fs::write(root.join(n), t).expect("write");
    }
    let (file, bad) = (c.get("file"), c.get("bad"));
    for f in ["a.cls", "b c.cls", "sub/a.cls", "sub/other.cls", "-w", "--check", "write", "help", "x", "true", "1", "-t"] {
        std::fs::write(root.join(f), &c.alt[0]).expect("write");
    }
    let path = root.join(file);
    std::fs::write(&path, &c.src).expect("write");
    cli::decoys(&root);
    let mut args: Vec<&str> = c.get("args").split_terminator('\n').collect();
    let help = c.get("help");
    if !help.is_empty() {
        args.insert(0, help);
    }
    let flags = c.get("flags");
    let before = cli::snapshot(&root);
    let r = cli::run(&root, &args);
    let after = cli::snapshot(&root);
    let (out, err) = (String::from_utf8_lossy(&r.out).to_string(), fmt::plain(&String::from_utf8_lossy(&r.err)));
    let ctx = |m: &str| format!("{m}\nargs {:?} ({bad}) exit {:?}\nstdout: {}\nstderr: {}", args, r.code, show(&out), show(&err));
    let Some(code) = r.code else { return fail("the tool was killed by a signal", ctx("")) };
    if !help.is_empty() {
        if code != 0 || out.is_empty() {
            return fail("--help or --version fails", ctx(""));
        }
        if let Some(d) = cli::disk_diff(&before, &after) {
            return fail("--help or --version touches the disk", ctx(&d));
        }
        return pass(true);
    }
    if !bad.is_empty() {
        if code == 0 {
            return fail("a wrong command line is accepted", ctx(""));
        }
        if let Some(d) = cli::disk_diff(&before, &after) {
            return fail("a wrong command line touches the disk", ctx(&d));
        }
        if err.is_empty() {
            return fail("failure without a message on stderr", ctx(""));
        }
        return pass(true);
    }
    let cfg = match c.get("toml") {
        "" => Some(Cfg { width: 80, indent: 2 }),
        t => TOMLS.iter().find(|x| x.0 == t.trim_start_matches("./")).and_then(|x| cli::config_model(x.1.as_bytes())),
    };
    let want = fmt::format(&c.src, cfg.expect("config"));
    let mut disk = before.clone();
    let writes = flags.contains('w');
    if let (true, Ok(v)) = (writes, &want) {
        if let (Some(cli::Ent::File { bytes, mtime, ino, .. }), Some(cli::Ent::File { mtime: m, ino: i, .. })) = (disk.get_mut(&path.canonicalize().unwrap_or(path.clone())), after.get(&path.canonicalize().unwrap_or(path.clone()))) {
            *bytes = v.clone().into_bytes();
            *mtime = *m;
            *ino = *i;
        }
    }
    if let Some(d) = cli::disk_diff(&disk, &after) {
        return fail("a command line does something else to the disk than it says", ctx(&d));
    }
    let ok = match &want {
        Err(_) => false,
        Ok(v) => !flags.contains('C') || *v == c.src,
    };
    if ok != (code == 0) {
        return fail("a command line ends with another status than its parts ask for", ctx(&format!("expected {}", if ok { "success" } else { "failure" })));
    }
    if let (Ok(v), false, false) = (&want, writes, flags.contains('C')) {
        if !out.starts_with(v.as_str()) {
            return fail("a command line prints something else than it says", ctx(&first_diff(v, &out)));
        }
        let rest = &out[v.len()..];
        if flags.contains('t') != (rest.trim() != "") {
            return fail("the time is printed unasked, or not printed when asked for", ctx(""));
        }
    }
    pass(args.len() >= 2)
}

pub fn all() -> Vec<Check> {
    let d = |id, rule, quick, thorough, gen, decide| Check { id, rule, quick, thorough, chunk: 500, tapes: (600, 800, 48), shrink_text: true, gen, decide };
    vec![
        d("C30", "two different kinds of body around statements that take two or more lines", 40_000, 1_500_000, gen_bodies, d_c30),
        Check { shrink_text: false, ..d("C31", "two programs of 12 or more tokens that differ in operators, keywords or literals", 40_000, 1_500_000, gen_roles, d_c31) },
        Check { chunk: 20, tapes: (600, 800, 400), shrink_text: false, ..d("C28", "an accepted source of 60 or more bytes that was formatted in two or more surroundings", 2_500, 80_000, gen_surroundings, d_c28) },
        Check { chunk: 20, ..d("C29", "a run that was refused for the planted reason", 4_000, 120_000, gen_refusal, d_c29) },
        Check { chunk: 20, tapes: (300, 400, 96), shrink_text: false, ..d("C32", "a command line of two or more arguments, or a wrong one", 5_000, 150_000, gen_argv, d_c32) },
    ]
}
