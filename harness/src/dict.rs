//! Dictionary of the fuzzers: string, character and number literals of the formatter's sources that
//! the recorded base (dict-base.txt) does not have.  They only bias the generators (words of
//! comments, strings and names; lengths of lists, names and widths): a threshold or a special word
//! that came with a change is tried early.  What is decided, and how, does not depend on them.
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub words: Vec<String>,
    pub names: Vec<String>,
    pub sizes: Vec<usize>,
    /// texts that are taken apart in `words`, as they are
    pub raw: Vec<String>,
    /// control and other characters given by their number
    pub marks: Vec<char>,
}

/// literals of a Rust source with their number of occurrences
fn literals(src: &str, out: &mut BTreeMap<String, usize>) {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut put = |s: String| *out.entry(s).or_insert(0) += 1;
    let mut i = 0;
    while i < c.len() {
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && at(i) != '\n' {
                i += 1;
            }
        } else if at(i) == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(at(i) == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if at(i) == '"' || (at(i) == '\'' && (at(i + 2) == '\'' || at(i + 1) == '\\')) {
            let q = at(i);
            let (mut s, mut marks) = (String::new(), vec![]);
            i += 1;
            while i < c.len() && at(i) != q {
                if at(i) == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => marks.push('\0'),
                        'x' => {
                            let h: String = c[i + 1..].iter().take(2).collect();
                            marks.extend(u8::from_str_radix(&h, 16).ok().map(|x| x as char));
                            s.push('?');
                        }
                        'u' => {
                            let h: String = c[i + 1..].iter().skip(1).take_while(|x| **x != '}').collect();
                            marks.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                            s.push('?');
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(at(i));
                }
                i += 1;
            }
            i += 1;
            for m in marks {
                put(format!("m{}", m));
            }
            put(format!("s{}", s));
        } else if at(i) == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) {
            let mut n = 0;
            i += 1;
            while at(i) == '#' {
                n += 1;
                i += 1;
            }
            i += 1;
            let mut s = String::new();
            while i < c.len() {
                if at(i) == '"' && (0..n).all(|k| at(i + 1 + k) == '#') {
                    break;
                }
                s.push(at(i));
                i += 1;
            }
            i += 1 + n;
            put(format!("s{}", s));
        } else if at(i).is_ascii_digit() {
            let mut s = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                s.push(at(i));
                i += 1;
            }
            let d: String = s.replace('_', "");
            let d = d.split(|x: char| x == 'u' || x == 'i').next().unwrap_or("").to_string();
            let v = match d.strip_prefix("0x") {
                Some(h) => usize::from_str_radix(h, 16).ok(),
                None => d.parse::<usize>().ok(),
            };
            if let Some(v) = v {
                let shifted = c[..i - s.len()].iter().rev().filter(|x| **x != ' ').take(2).all(|x| *x == '<');
                put(format!("n{}", if shifted && v < 20 { 1 << v } else { v }));
            }
        } else if at(i).is_alphabetic() || at(i) == '_' {
            let mut s = String::new();
            while at(i).is_alphanumeric() || at(i) == '_' {
                s.push(at(i));
                i += 1;
            }
            match s.as_str() {
                "u8" | "i8" => put("n256".into()),
                "u16" | "i16" => put("n65536".into()),
                _ => {}
            }
        } else {
            i += 1;
        }
    }
}

fn of_tree() -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir("/repo/src").map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        if f.extension().is_some_and(|e| e == "rs") {
            literals(&std::fs::read_to_string(f).unwrap_or_default(), &mut m);
        }
    }
    m
}

const BASE: &str = include_str!("../dict-base.txt");

/// the literals of the present tree, as the base file has them
pub fn print_base() {
    for (k, n) in of_tree() {
        println!("{}\t{}", n, serde_json::to_string(&k).unwrap());
    }
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        if std::env::var("AFMT_NODICT").is_ok() {
            return d;
        }
        let mut old = BTreeMap::new();
        for l in BASE.lines() {
            if let Some((n, k)) = l.split_once('\t') {
                if let (Ok(n), Ok(k)) = (n.parse::<usize>(), serde_json::from_str::<String>(k)) {
                    old.insert(k, n);
                }
            }
        }
        if old.is_empty() {
            return d;
        }
        for (k, n) in of_tree() {
            if n <= old.get(&k).copied().unwrap_or(0) {
                continue;
            }
            let (t, v) = k.split_at(1);
            if t == "m" {
                d.marks.extend(v.chars());
                continue;
            }
            if t == "n" {
                let v: usize = v.parse().unwrap_or(0);
                if (2..=70_000).contains(&v) {
                    d.sizes.push(v);
                }
                continue;
            }
            if v.contains(['{', '}', '\n']) && v.len() <= 80 {
                d.raw.push(v.to_string());
            }
            let mut parts: Vec<String> = v.split("{}").flat_map(|p| p.split(['{', '}', '\n'])).map(|p| p.to_string()).collect();
            parts.extend(v.split_whitespace().map(|p| p.to_string()));
            for p in parts {
                if p.trim().is_empty() || p.len() > 60 || d.words.contains(&p) {
                    continue;
                }
                if p.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && p.starts_with(|c: char| !c.is_ascii_digit()) {
                    d.names.push(p.clone());
                }
                d.words.push(p);
            }
        }
        d
    })
}

impl Dict {
    pub fn word(&self, t: &mut crate::gen::Tape, chance: u32) -> Option<String> {
        let w = pick(&self.words, t, chance)?.clone();
        // two of them, one behind the other
        Some(if t.chance(20) { format!("{}{}", w, self.words[t.pick(self.words.len())]) } else { w })
    }
    pub fn raw(&self, t: &mut crate::gen::Tape, chance: u32) -> Option<String> {
        pick(&self.raw, t, chance).cloned()
    }
    /// a name that holds a word of the dictionary
    pub fn name(&self, t: &mut crate::gen::Tape, chance: u32) -> Option<String> {
        let n = pick(&self.names, t, chance)?;
        Some(match t.pick(6) {
            0 | 1 => n.clone(),
            2 => format!("{}x", n),
            3 => format!("x{}", n),
            4 => n.to_uppercase(),
            _ => n.to_lowercase(),
        })
    }
    /// a size at or beside a threshold
    pub fn size(&self, t: &mut crate::gen::Tape, chance: u32, max: usize) -> Option<usize> {
        let n = *pick(&self.sizes, t, chance)?;
        let n = match t.pick(5) {
            0 => n.saturating_sub(1),
            1 | 2 => n,
            3 => n + 1,
            _ => n + 1 + t.pick(8),
        };
        Some(n.min(max))
    }
}

fn pick<'a, T>(v: &'a [T], t: &mut crate::gen::Tape, chance: u32) -> Option<&'a T> {
    if v.is_empty() || !t.chance(chance) {
        return None;
    }
    Some(&v[t.pick(v.len())])
}
