//! Where the present tree differs from the recorded base (focus-base.txt), by item: the grammar
//! productions such an item handles are generated more often.  Like the dictionary this only
//! biases the generators; what is decided, and how, does not depend on it.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

struct Item {
    file: String,
    head: String,
    /// the type of an `impl`, `struct` or `enum`
    ty: String,
    text: String,
}

/// the items of a file: they begin and end in column 0
fn items(file: &str, src: &str, out: &mut Vec<Item>) {
    let mut cur: Option<Item> = None;
    for l in src.lines() {
        let t = l.trim();
        if t.is_empty() || t.starts_with("//") {
            continue;
        }
        let starts = l.starts_with(|c: char| c.is_ascii_alphabetic()) && ["impl", "pub", "fn", "struct", "enum", "const", "static", "thread_local", "use", "trait", "type"].iter().any(|w| l.starts_with(w));
        if starts {
            out.extend(cur.take());
            let head = t.trim_end_matches('{').trim().to_string();
            let words: Vec<&str> = head.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect();
            let at = |w: &str| words.iter().position(|x| *x == w).and_then(|i| words.get(i + 1)).map(|s| s.to_string());
            let ty = if head.starts_with("impl") {
                at("for").or_else(|| words.iter().skip(1).find(|w| w.starts_with(|c: char| c.is_uppercase())).map(|s| s.to_string()))
            } else {
                at("struct").or_else(|| at("enum"))
            };
            cur = Some(Item { file: file.into(), head, ty: ty.unwrap_or_default(), text: String::new() });
        }
        if let Some(i) = cur.as_mut() {
            i.text.push_str(t);
            i.text.push('\n');
        }
    }
    out.extend(cur);
}

fn of_tree() -> Vec<Item> {
    let mut out = vec![];
    let mut files: Vec<_> = std::fs::read_dir("/repo/src").map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        if f.extension().is_some_and(|e| e == "rs") {
            let name = f.file_name().unwrap_or_default().to_string_lossy().to_string();
            items(&name, &std::fs::read_to_string(&f).unwrap_or_default(), &mut out);
        }
    }
    out
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn keyed(v: &[Item]) -> Vec<(String, u64)> {
    let mut n: BTreeMap<String, usize> = BTreeMap::new();
    v.iter()
        .map(|i| {
            let k = format!("{} {}", i.file, i.head);
            let c = n.entry(k.clone()).or_insert(0);
            *c += 1;
            (format!("{} {}", k, c), hash(&i.text))
        })
        .collect()
}

/// the base file of the present tree
pub fn print_base() {
    for (k, h) in keyed(&of_tree()) {
        println!("{:016x}\t{}", h, k);
    }
}

const BASE: &str = include_str!("../focus-base.txt");

fn literals(s: &str, all: &BTreeSet<String>) -> Vec<String> {
    s.split('"').skip(1).step_by(2).filter(|w| all.contains(*w)).map(|w| w.to_string()).collect()
}

/// kinds of the grammar that changed items of the formatter handle
pub fn kinds() -> &'static Vec<String> {
    static K: OnceLock<Vec<String>> = OnceLock::new();
    K.get_or_init(|| {
        if std::env::var("AFMT_NODICT").is_ok() {
            return vec![];
        }
        let base: BTreeMap<&str, &str> = BASE.lines().filter_map(|l| l.split_once('\t')).map(|(h, k)| (k, h)).collect();
        if base.is_empty() {
            return vec![];
        }
        let lang: tree_sitter::Language = tree_sitter_sfapex::apex::LANGUAGE.into();
        let all: BTreeSet<String> = (0..lang.node_kind_count() as u16).filter(|i| lang.node_kind_is_named(*i)).filter_map(|i| lang.node_kind_for_id(i)).map(|s| s.to_string()).collect();
        let tree = of_tree();
        let keys = keyed(&tree);
        let now: BTreeSet<&str> = keys.iter().map(|k| k.0.as_str()).collect();
        let text: String = tree.iter().map(|i| i.text.as_str()).collect();
        let mut out = BTreeSet::new();
        let mut of_type = |ty: &str, own: &str| {
            let mut v: Vec<String> = vec![];
            for i in tree.iter().filter(|i| i.ty == ty) {
                for part in i.text.split("assert_check(node, \"").skip(1) {
                    v.push(part.split('"').next().unwrap_or("").to_string());
                }
            }
            if v.is_empty() {
                // what is made into this type
                let call = format!("{}::new", ty);
                for (at, _) in text.match_indices(&call) {
                    if text[..at].ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                        continue;
                    }
                    let from = (at.saturating_sub(110)..at).find(|i| text.is_char_boundary(*i)).unwrap_or(at);
                    v.extend(text[from..at].rsplit('"').nth(1).map(|s| s.to_string()));
                }
            }
            v.retain(|k| all.contains(k));
            if v.is_empty() {
                v = tree.iter().filter(|i| i.ty == ty).flat_map(|i| literals(&i.text, &all)).collect();
            }
            v.extend(literals(own, &all).into_iter().filter(|_| ty.is_empty()));
            out.extend(v);
        };
        for (i, (k, h)) in tree.iter().zip(&keys) {
            if base.get(k.as_str()) != Some(&format!("{:016x}", h).as_str()) && !["use", "const"].iter().any(|w| i.head.starts_with(w)) {
                if i.ty.is_empty() {
                    of_type("", &i.text);
                } else {
                    of_type(&i.ty, "");
                }
            }
        }
        // items that are gone
        for k in base.keys().filter(|k| !now.contains(*k)) {
            let words: Vec<&str> = k.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
            if let Some(t) = words.iter().position(|w| *w == "for").and_then(|i| words.get(i + 1)) {
                of_type(t, "");
            }
        }
        out.remove("");
        if out.len() > 40 {
            return vec![];
        }
        out.into_iter().collect()
    })
}

/// how often a kind occurs in a text
pub fn count(src: &str, kind: &str) -> usize {
    let Some(tree) = crate::ast::parse(src) else { return 0 };
    let mut n = 0;
    let mut c = tree.walk();
    loop {
        n += (c.node().kind() == kind) as usize;
        if c.goto_first_child() {
            continue;
        }
        while !c.goto_next_sibling() {
            if !c.goto_parent() {
                return n;
            }
        }
    }
}
