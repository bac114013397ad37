//! Text-level reduction along the syntax tree: delete nodes, hoist children over their parents,
//! shorten leaves; keep what still fails.
use crate::engine::Case;
use tree_sitter::Node;

fn edits(src: &str) -> Vec<(usize, usize, String)> {
    let Some(t) = crate::ast::parse(src) else { return vec![] };
    let mut v: Vec<(usize, usize, String)> = vec![];
    fn go(n: Node, src: &str, v: &mut Vec<(usize, usize, String)>) {
        let (a, b) = (n.start_byte(), n.end_byte());
        if b > a && n.parent().is_some() {
            let mut e = b;
            let rest = src[b..].trim_start();
            if rest.starts_with([',', ';']) {
                e = src.len() - rest.len() + 1;
            }
            if n.is_named() {
                v.push((a, e, String::new()));
                if e != b {
                    v.push((a, b, String::new()));
                }
                // with the separator before it
                let head = src[..a].trim_end();
                if head.ends_with([',', '.']) {
                    v.push((head.len() - 1, b, String::new()));
                }
                let mut c = n.walk();
                for k in n.named_children(&mut c) {
                    if !k.is_extra() && k.end_byte() - k.start_byte() < b - a {
                        v.push((a, b, src[k.byte_range()].to_string()));
                    }
                }
                if n.child_count() > 0 && n.kind().contains("expression") {
                    v.push((a, b, "a".into()));
                }
                if n.child_count() == 0 && b - a > 1 && matches!(n.kind(), "identifier" | "type_identifier") {
                    v.push((a, b, "a".into()));
                }
            } else {
                v.push((a, b, String::new()));
            }
        }
        let mut c = n.walk();
        for k in n.children(&mut c) {
            go(k, src, v);
        }
    }
    go(t.root_node(), src, &mut v);
    // white space runs
    let by = src.as_bytes();
    let mut i = 0;
    while i < by.len() {
        if by[i].is_ascii_whitespace() {
            let s = i;
            while i < by.len() && by[i].is_ascii_whitespace() {
                i += 1;
            }
            if i - s > 1 {
                v.push((s, i, " ".into()));
                v.push((s, i, "\n".into()));
            }
        } else {
            i += 1;
        }
    }
    v.sort_by_key(|e| std::cmp::Reverse((e.1 - e.0) as i64 - e.2.len() as i64));
    v
}

pub fn shrink(best: &mut (Case, String, String), still: &dyn Fn(&Case) -> Option<(String, String)>, mut budget: usize) {
    loop {
        let src = best.0.src.clone();
        let mut better = false;
        for (a, b, r) in edits(&src) {
            if budget == 0 {
                return;
            }
            if b - a <= r.len() {
                continue;
            }
            budget -= 1;
            let mut c = best.0.clone();
            c.src = format!("{}{}{}", &src[..a], r, &src[b..]);
            if let Some((s, m)) = still(&c) {
                *best = (c, s, m);
                better = true;
                break;
            }
        }
        if !better {
            return;
        }
    }
}
