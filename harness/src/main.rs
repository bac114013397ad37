mod ast;
mod checks;
mod cli;
mod corpus;
mod dict;
mod focus;
mod engine;
mod fmt;
mod gen;
mod layout;
mod more;
mod oracle;
mod render;
mod shrink;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config as PC, RngAlgorithm, TestRng, TestRunner};
use std::collections::BTreeMap;

pub fn runner(seed: u64, stream: u64) -> TestRunner {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&stream.to_le_bytes());
    b[16..24].copy_from_slice(&0x9e3779b97f4a7c15u64.to_le_bytes());
    TestRunner::new_with_rng(
        PC { failure_persistence: None, ..PC::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &b),
    )
}

fn main() {
    fmt::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("fmt") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            let w = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(80);
            let i = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(2);
            match fmt::format(&s, fmt::Cfg { width: w, indent: i }) {
                Ok(o) => print!("{}", o),
                Err(e) => println!("ERR {}", e),
            }
        }
        Some("sexp") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            let mut p = tree_sitter::Parser::new();
            p.set_language(&tree_sitter_sfapex::apex::LANGUAGE.into()).unwrap();
            println!("{}", p.parse(&s, None).unwrap().root_node().to_sexp());
        }
        Some("leaves") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            for l in oracle::view(&s).map(|v| v.leaves).unwrap_or_default() {
                println!("{} | {:?} in {} named {}", l.kind, l.text, l.parent, l.named);
            }
        }
        Some("dict") => dict::print_base(),
        Some("focus") => focus::print_base(),
        Some("kinds-of-change") => println!("{:?}", focus::kinds()),
        Some("newdict") => println!("{:#?}", dict::get()),
        Some("kinds") => kinds(&a[2..]),
        Some("worker") => {
            engine::worker(&a[2..]);
            cli::cleanup();
        }
        Some(m @ ("one" | "replay")) => {
            let rc = if m == "one" { engine::one(&a[2..]) } else { engine::replay(&a[2..]) };
            cli::cleanup();
            std::process::exit(rc)
        }
        Some("check") => std::process::exit(engine::check(&a[2..])),
        Some("explore") => explore(&a[2..]),
        Some("exp") => exp(&a[2..]),
        Some("fails") => fails(&a[2..]),
        Some("chains") => chains(&a[2..]),
        Some("lists") => lists(&a[2..]),
        Some("places") => places(&a[2..]),
        Some("kwcase") => kwcase(&a[2..]),
        Some("survey") => survey(&a[2..]),
        _ => {}
    }
}

fn explore(a: &[String]) {
    let n: u64 = a[0].parse().unwrap();
    let mode = a[1].as_str();
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let res = std::sync::Mutex::new((BTreeMap::<String, (usize, String, String)>::new(), 0usize, 0usize, BTreeMap::<&'static str, usize>::new()));
    std::thread::scope(|sc| {
        for k in 0..8u64 {
            let res = &res;
            sc.spawn(move || {
                let mut r = runner(seed, k);
                for _ in 0..n / 8 {
                    let st = proptest::collection::vec(proptest::num::u32::ANY, 0..400);
                    let tape = st.new_tree(&mut r).unwrap().current();
                    let lt = proptest::collection::vec(proptest::num::u32::ANY, 0..600).new_tree(&mut r).unwrap().current();
                    let nosemi = mode.starts_with("com"); let bias = *tape.last().unwrap_or(&0) % 5;
                    let fuel = 10 + (tape.first().unwrap_or(&0) % 80) as i32;
                    let mut o = gen::Opt { fuel, bias, ..Default::default() }; if nosemi { o.disabled.extend(["stmt.semi","member.semi","interface.semi"]); } let mut g = gen::G::new(&tape, o);
                    g.program();
                    let mut lay = render::Layout::default();
                    match mode {
                        "code" => {}
                        "ws" | "wsw" => { lay.ws = 1; lay.kw_case = true; lay.blanks = 20; }
                        "com" => { lay.comments = 4; }
                        "comb" => { lay.comments = 10; lay.comments_at_boundaries_only = true; lay.blanks = 20; }
                        _ => {}
                    }
                    let src = render::render(&g.out, &lay, &lt);
                    let widths = [80, 80, 100, 120, 40, 20, 1, 10, 60, 200, 100000];
                    let cfg = if mode == "wsw" { fmt::Cfg { width: widths[lt.len() % 11], indent: [2, 4, 1, 8, 3][tape.len() % 5] } } else { fmt::Cfg { width: 80, indent: 2 } };
                    let (sig, detail) = classify(&src.text, cfg);
                    let mut m = res.lock().unwrap();
                    m.1 += 1;
                    if sig == "parse" {
                        m.2 += 1;
                        for f in g.feats.keys() { *m.3.entry(f).or_insert(0) += 1; }
                    }
                    let e = m.0.entry(sig).or_insert((0, src.text.clone(), detail.clone()));
                    e.0 += 1;
                    if src.text.len() < e.1.len() {
                        e.1 = src.text;
                        e.2 = detail;
                    }
                }
            });
        }
    });
    let m = res.into_inner().unwrap();
    println!("total {} parse-fail {}", m.1, m.2);
    let mut f: Vec<_> = m.3.iter().collect();
    f.sort_by_key(|x| std::cmp::Reverse(*x.1));
    println!("feats in parse failures: {:?}", &f[..f.len().min(12)]);
    let mut v: Vec<_> = m.0.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (s, (c, ex, d)) in v {
        let lim: usize = if *s == "ok" { 200 } else { 700 };
        println!("=== {} x{}\n{}\n--- {}", s, c, ex.chars().take(lim).collect::<String>(), d);
    }
}

fn classify(src: &str, cfg: fmt::Cfg) -> (String, String) {
    let Some(c1) = ast::code(src) else { return ("parse".into(), String::new()) };
    match fmt::format(src, cfg) {
        Err(e) => {
            let e1: String = e.chars().take(300).collect();
            let at = e.rsplit('@').next().unwrap_or("").to_string();
            let head: String = e.chars().take(60).collect();
            (format!("ERR {} {}", at, head), e1)
        }
        Ok(o) => {
            let Some(c2) = ast::code(&o) else { return ("REPARSE".into(), o) };
            if let Some((s, d)) = ast::diff(&c1, &c2, &mut vec![]) {
                return (format!("DIFF {}", s), d);
            }
            match fmt::format(&o, cfg) {
                Err(e) => (format!("ERR2 {}", e.chars().take(80).collect::<String>()), o),
                Ok(o2) => {
                    if o2 != o {
                        let (mut x, mut y) = ("".to_string(), "".to_string());
                        for (l1, l2) in o.lines().zip(o2.lines()) {
                            if l1 != l2 { x = l1.into(); y = l2.into(); break; }
                        }
                        ("IDEMP".to_string(), format!("{}\n---2\n{}\n{} | {}", o, o2, x, y))
                    } else {
                        ("ok".into(), String::new())
                    }
                }
            }
        }
    }
}

/// one comment per program: what happens per syntactic position
fn survey(a: &[String]) {
    let n: u64 = a[0].parse().unwrap();
    let seed: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
    let res = std::sync::Mutex::new(BTreeMap::<String, (BTreeMap<&'static str, usize>, String)>::new());
    std::thread::scope(|sc| {
        for k in 0..8u64 {
            let res = &res;
            sc.spawn(move || {
                let mut r = runner(seed, k);
                for _ in 0..n / 8 {
                    let st = proptest::collection::vec(proptest::num::u32::ANY, 0..300);
                    let tape = st.new_tree(&mut r).unwrap().current();
                    let lt = proptest::collection::vec(proptest::num::u32::ANY, 6).new_tree(&mut r).unwrap().current();
                    let bias = *tape.last().unwrap_or(&0) % 5;
                    let mut o = gen::Opt { fuel: 40, bias, ..Default::default() };
                    o.disabled.extend(["stmt.semi", "member.semi", "interface.semi"]);
                    let mut g = gen::G::new(&tape, o);
                    g.program();
                    let base = render::render(&g.out, &render::Layout::default(), &[]).text;
                    let Some(t) = ast::parse(&base) else { continue };
                    let lv = ast::leaves(&t, &base);
                    let gi = 1 + (lt[0] as usize) % (lv.len() - 1);
                    let at = lv[gi].start;
                    let kinds = ["line-trail", "line-own", "block-inline", "block-own"];
                    let ki = (lt[1] % 4) as usize;
                    let c = ["  // c\n", "\n// c\n", " /* c */ ", "\n/* c */\n"][ki];
                    let src = format!("{}{}{}", &base[..at], c, &base[at..]);
                    let Some(t2) = ast::parse(&src) else { continue };
                    let l2 = ast::leaves(&t2, &src);
                    let Some(ci) = l2.iter().position(|l| l.comment) else { continue };
                    if ast::code(&src) != ast::code(&base) { continue; }
                    let nm = |l: &ast::Leaf| if l.named { l.kind.clone() } else { l.text.to_lowercase() };
                    let key = format!("{:12} {} | {} ^ {}", kinds[ki], l2[ci].parent, nm(&l2[ci - 1]), l2.get(ci + 1).map(|l| nm(l)).unwrap_or_default());
                    let (sig, _) = classify(&src, fmt::Cfg { width: 80, indent: 2 });
                    let s = if sig.starts_with("ERR2") { "err2" } else if sig.starts_with("ERR") { "erased" } else if sig == "ok" { "ok" } else if sig == "IDEMP" { "idemp" } else { "BAD" };
                    let mut m = res.lock().unwrap();
                    let e = m.entry(key).or_default();
                    *e.0.entry(s).or_insert(0) += 1;
                    if s != "ok" && (e.1.is_empty() || src.len() < e.1.len()) { e.1 = src; }
                }
            });
        }
    });
    for (k, (v, ex)) in res.into_inner().unwrap() {
        println!("{}\t{:?}\t{:?}", k, v, ex.chars().take(300).collect::<String>());
    }
}

/// exp ID N: the gaps between tokens in the outputs for the sources of a check
fn exp(a: &[String]) {
    let ck = checks::find(&a[0]).expect("check");
    let n: u64 = a[1].parse().unwrap();
    let corpus = corpus::load();
    let res = std::sync::Mutex::new(BTreeMap::<String, BTreeMap<String, (usize, String)>>::new());
    std::thread::scope(|sc| {
        for k in 0..8u64 {
            let (res, ck, corpus) = (&res, &ck, &corpus);
            sc.spawn(move || {
                let mut r = engine::runner(1, k, "exp");
                for _ in 0..n / 8 {
                    let v = engine::strategy(ck.tapes).new_tree(&mut r).unwrap().current();
                    let (Some(case), _) = engine::make(ck, corpus, false, &v) else { continue };
                    let Ok(o) = fmt::format(&case.src, case.cfg()) else { continue };
                    let Some(w) = oracle::view(&o) else { continue };
                    let root = w.tree.root_node();
                    for p in w.leaves.windows(2) {
                        if p[0].comment || p[1].comment {
                            continue;
                        }
                        let Some(l) = root.descendant_for_byte_range(p[0].start, p[1].end) else { continue };
                        let cl = |x: &ast::Leaf| if x.text.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '$' || c == '\'') || x.text.starts_with('\'') { if x.named { "N".to_string() } else { x.text.to_lowercase() } } else { x.text.clone() };
                        let g = &o[p[0].end..p[1].start];
                        let g = if g.contains('\n') { "nl".to_string() } else { format!("{:?}", g) };
                        let key = format!("{} : {} {}", l.kind(), cl(&p[0]), cl(&p[1]));
                        let line = o.lines().nth(p[1].row).unwrap_or("").trim().chars().take(100).collect::<String>();
                        let mut m = res.lock().unwrap();
                        let e = m.entry(key).or_default().entry(g).or_insert((0, line.clone()));
                        e.0 += 1;
                        if line.len() < e.1.len() {
                            e.1 = line;
                        }
                    }
                }
            });
        }
    });
    for (k, m) in res.into_inner().unwrap() {
        let flat = m.keys().filter(|x| *x != "nl").count();
        println!("{} {} -> {:?}", if flat > 1 { "!!" } else { "  " }, k, m);
    }
}

/// lists ID N: per node kind, the patterns of broken (n) and flat (.) gaps between its parts in the outputs
fn lists(a: &[String]) {
    let ck = checks::find(&a[0]).expect("check");
    let n: u64 = a[1].parse().unwrap();
    let corpus = corpus::load();
    let res = std::sync::Mutex::new(BTreeMap::<String, BTreeMap<String, (usize, String)>>::new());
    std::thread::scope(|sc| {
        for k in 0..8u64 {
            let (res, ck, corpus) = (&res, &ck, &corpus);
            sc.spawn(move || {
                let mut r = engine::runner(1, k, "exp");
                for _ in 0..n / 8 {
                    let v = engine::strategy(ck.tapes).new_tree(&mut r).unwrap().current();
                    let (Some(case), _) = engine::make(ck, corpus, false, &v) else { continue };
                    let Ok(o) = fmt::format(&case.src, case.cfg()) else { continue };
                    let Some(tree) = ast::parse(&o) else { continue };
                    fn go(n: tree_sitter::Node, o: &str, out: &mut Vec<(String, String, String)>) {
                        let mut c = n.walk();
                        let ks: Vec<_> = n.children(&mut c).collect();
                        let mut pat = String::new();
                        for (i, k) in ks.iter().enumerate() {
                            if i > 0 {
                                let g = &o[ks[i - 1].end_byte()..k.start_byte()];
                                let m = if g.contains('\n') { "N" } else if g.is_empty() { "_" } else { "." };
                                pat.push_str(m);
                            }
                            pat.push_str(if k.is_named() { "x" } else { k.kind() });
                        }
                        // repeated parts are written once
                        for unit in [",.x", ",Nx", ".,.x", ",_x", "_x", ".x", "Nx"] {
                            while pat.contains(&format!("{unit}{unit}")) {
                                pat = pat.replace(&format!("{unit}{unit}"), unit);
                            }
                        }
                        if ks.len() > 1 {
                            out.push((n.kind().to_string(), pat, o[n.byte_range()].chars().take(120).collect()));
                        }
                        for k in ks {
                            go(k, o, out);
                        }
                    }
                    let mut out = vec![];
                    go(tree.root_node(), &o, &mut out);
                    let mut m = res.lock().unwrap();
                    for (k, p, t) in out {
                        let e = m.entry(k).or_default().entry(p).or_insert((0, t.clone()));
                        e.0 += 1;
                        if t.len() < e.1.len() {
                            e.1 = t;
                        }
                    }
                }
            });
        }
    });
    for (k, m) in res.into_inner().unwrap() {
        println!("{k}");
        let mut v: Vec<_> = m.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (p, (n, t)) in v.iter().take(25) {
            println!("    {n} {p}   {t:?}");
        }
    }
}

/// chains ID N: which dots of a chain are broken
fn chains(a: &[String]) {
    let ck = checks::find(&a[0]).expect("check");
    let n: u64 = a[1].parse().unwrap();
    let corpus = corpus::load();
    let mut m = BTreeMap::<String, (usize, String)>::new();
    let mut r = engine::runner(1, 3, "exp");
    for _ in 0..n {
        let v = engine::strategy(ck.tapes).new_tree(&mut r).unwrap().current();
        let (Some(case), _) = engine::make(&ck, &corpus, false, &v) else { continue };
        let Ok(o) = fmt::format(&case.src, case.cfg()) else { continue };
        let Some(tree) = ast::parse(&o) else { continue };
        fn is(n: tree_sitter::Node) -> bool { matches!(n.kind(), "field_access" | "method_invocation" | "array_access") }
        fn chain(n: tree_sitter::Node, o: &str) -> String {
            let obj = match n.kind() { "array_access" => n.child_by_field_name("array"), _ => n.child_by_field_name("object") };
            let Some(obj) = obj else { return if n.kind() == "method_invocation" { "call".into() } else { n.kind().into() } };
            let head = if is(obj) { chain(obj, o) } else { match obj.kind() { "identifier" | "this" | "super" => "id".into(), k => k.to_string() } };
            let g = o[obj.end_byte()..].starts_with('\n');
            let k = match n.kind() { "array_access" => "[]", "field_access" => "f", _ => "m" };
            format!("{head}{}{k}", if g { "N" } else { "_" })
        }
        fn go(n: tree_sitter::Node, o: &str, up: bool, m: &mut BTreeMap<String, (usize, String)>) {
            if is(n) && !up {
                let k = chain(n, o);
                let t: String = o[n.byte_range()].chars().take(150).collect();
                let e = m.entry(k).or_insert((0, t.clone()));
                e.0 += 1;
                if t.len() < e.1.len() { e.1 = t; }
            }
            let mut c = n.walk();
            for k in n.children(&mut c) {
                let inner = is(n) && (n.child_by_field_name("object") == Some(k) || n.kind() == "array_access" && n.child_by_field_name("array") == Some(k));
                go(k, o, inner, m);
            }
        }
        go(tree.root_node(), &o, false, &mut m);
    }
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (k, (n, t)) in v { println!("{n} {k} {t:?}"); }
}

/// places ID N: outcome of a check per kind of comment place, for sources with one comment
fn places(a: &[String]) {
    let ck = checks::find(&a[0]).expect("check");
    let n: u64 = a[1].parse().unwrap();
    let res = std::sync::Mutex::new(BTreeMap::<String, (usize, BTreeMap<String, (usize, String)>)>::new());
    let corpus = corpus::load();
    std::thread::scope(|sc| {
        for k in 0..8u64 {
            let (res, corpus, ck) = (&res, &corpus, &ck);
            sc.spawn(move || {
                let mut r = engine::runner(77, k, "places");
                for _ in 0..n / 8 {
                    let v = engine::strategy(ck.tapes).new_tree(&mut r).unwrap().current();
                    let (Some(c), _) = engine::make(ck, corpus, false, &v) else { continue };
                    let Some(vw) = oracle::view(&c.src) else { continue };
                    let cl = oracle::place_class(&vw, &c.src);
                    if cl.len() != 1 {
                        continue;
                    }
                    let o = match (ck.decide)(&c) {
                        engine::Out::Pass { .. } => "pass".to_string(),
                        engine::Out::Discard(_) => continue,
                        engine::Out::Fail { sig, .. } => sig,
                    };
                    let mut m = res.lock().unwrap();
                    let e = m.entry(cl[0].clone()).or_default();
                    e.0 += 1;
                    let f = e.1.entry(o).or_insert((0, c.src.clone()));
                    f.0 += 1;
                    if c.src.len() < f.1.len() {
                        f.1 = c.src;
                    }
                }
            });
        }
    });
    for (k, (n, v)) in res.into_inner().unwrap() {
        println!("{:50} {}", k, n);
        for (s, (c, ex)) in v {
            if s != "pass" {
                println!("      {} x{} {:?}", s, c, ex.chars().take(400).collect::<String>());
            }
        }
    }
}

/// for every keyword: how often the output keeps the case of the source
fn kwcase(a: &[String]) {
    use proptest::strategy::{Strategy, ValueTree};
    let n: u64 = a[0].parse().unwrap();
    let ck = checks::find("C19").unwrap();
    let corpus = corpus::load();
    let res = std::sync::Mutex::new(BTreeMap::<String, (usize, usize, usize, String)>::new());
    fmt::quiet_panics();
    std::thread::scope(|sc| {
        for k in 0..8u64 {
            let (res, ck, corpus) = (&res, &ck, &corpus);
            sc.spawn(move || {
                let mut r = engine::runner(77, k, "kwcase");
                for _ in 0..n / 8 {
                    let v = engine::strategy(ck.tapes).new_tree(&mut r).unwrap().current();
                    let (Some(c), _) = engine::make(ck, corpus, false, &v) else { continue };
                    let Some(vw) = oracle::view(&c.src) else { continue };
                    let Ok(o) = fmt::format(&c.src, c.cfg()) else { continue };
                    for l in vw.code() {
                        if l.text.len() < 2 || !l.text.chars().all(|c| c.is_alphabetic() || c == ' ') {
                            continue;
                        }
                        if matches!(l.kind.as_str(), "identifier" | "type_identifier" | "string_literal" | "field_identifier") {
                            continue;
                        }
                        let t: String = l.text.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                        let s2 = format!("{}{}{}", &c.src[..l.start], t, &c.src[l.end..]);
                        let u: String = l.text.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                        let s3 = format!("{}{}{}", &c.src[..l.start], u, &c.src[l.end..]);
                        let (x, y) = (fmt::format(&s2, c.cfg()), fmt::format(&s3, c.cfg()));
                        let _ = &o;
                        let same = match (x, y) {
                            (Ok(x), Ok(y)) => if x == y { 0 } else { 1 },
                            _ => 2,
                        };
                        let mut m = res.lock().unwrap();
                        let e = m.entry(format!("{} [{}]", l.text.to_lowercase(), l.kind)).or_default();
                        match same { 0 => e.0 += 1, 1 => e.1 += 1, _ => e.2 += 1 }
                        if same == 1 && (e.3.is_empty() || s2.len() < e.3.len()) { e.3 = s2; }
                    }
                }
            });
        }
    });
    for (k, (a, b, c, ex)) in res.into_inner().unwrap() {
        println!("{:40} normal {:6} kept {:6} error {:6} {}", k, a, b, c, if b > 0 { ex.chars().take(100).collect() } else { String::new() });
    }
}

/// kinds ID N: how many of N cases hold each node kind of the grammar
fn kinds(a: &[String]) {
    let ck = checks::find(&a[0]).expect("check");
    let n: u64 = a[1].parse().unwrap();
    let corpus = corpus::load();
    let res = std::sync::Mutex::new(BTreeMap::<String, u64>::new());
    let total = std::sync::atomic::AtomicU64::new(0);
    let bytes = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
    std::thread::scope(|sc| {
        for k in 0..8u64 {
            let (res, corpus, ck, total, bytes) = (&res, &corpus, &ck, &total, &bytes);
            sc.spawn(move || {
                let mut r = engine::runner(77, k, "kinds");
                for _ in 0..n / 8 {
                    let v = engine::strategy(ck.tapes).new_tree(&mut r).unwrap().current();
                    let (Some(c), _) = engine::make(ck, corpus, false, &v) else { continue };
                    let Some(t) = ast::parse(&c.src) else { continue };
                    total.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    bytes.0.fetch_add(c.src.len() as u64, std::sync::atomic::Ordering::SeqCst);
                    bytes.1.fetch_add(oracle::view(&c.src).map_or(0, |v| v.code().len()) as u64, std::sync::atomic::Ordering::SeqCst);
                    let mut seen = std::collections::BTreeSet::new();
                    let mut st = vec![t.root_node()];
                    while let Some(x) = st.pop() {
                        if x.is_named() {
                            seen.insert(x.kind().to_string());
                            if let Some(p) = x.parent() {
                                seen.insert(format!("{} > {}", p.kind(), x.kind()));
                                if let Some(q) = p.parent() {
                                    seen.insert(format!("{} > {} > {}", q.kind(), p.kind(), x.kind()));
                                }
                            }
                        } else if x.kind().chars().all(|c| c.is_alphabetic()) {
                            seen.insert(format!("{} > '{}'", x.parent().unwrap().kind(), x.kind()));
                        }
                        let mut many = BTreeMap::new();
                        for i in 0..x.child_count() {
                            st.push(x.child(i).unwrap());
                            *many.entry(x.child(i).unwrap().kind()).or_insert(0u32) += 1;
                        }
                        for (k, n) in many {
                            if n > 1 {
                                seen.insert(format!("{} >> {k} x{}", x.kind(), n.min(3)));
                            }
                        }
                    }
                    let mut m = res.lock().unwrap();
                    for s in seen {
                        *m.entry(s).or_insert(0) += 1;
                    }
                }
            });
        }
    });
    let m = res.into_inner().unwrap();
    println!("total {} bytes {} tokens {}", total.into_inner(), bytes.0.into_inner(), bytes.1.into_inner());
    for d in 0..3 {
        let v: Vec<u64> = m.iter().filter(|(k, _)| k.matches(" > ").count() == d).map(|x| *x.1).collect();
        println!("depth {}: {} kinds, {} at least 5, {} at least 20", d + 1, v.len(), v.iter().filter(|x| **x >= 5).count(), v.iter().filter(|x| **x >= 20).count());
    }
    let lang: tree_sitter::Language = tree_sitter_sfapex::apex::LANGUAGE.into();
    for id in 0..lang.node_kind_count() as u16 {
        if lang.node_kind_is_named(id) && lang.node_kind_is_visible(id) {
            let k = lang.node_kind_for_id(id).unwrap();
            if !m.contains_key(k) {
                println!("never {}", k);
            }
        }
    }
    for (k, v) in m {
        println!("{:8} {}", v, k);
    }
}

/// fails ID N: how often a check fails, by the kind of failure, with the shortest source of each
fn fails(a: &[String]) {
    let ck = checks::find(&a[0]).expect("check");
    let n: u64 = a[1].parse().unwrap();
    let _ = fmt::quiet_panics();
    let corpus = corpus::load();
    let res = std::sync::Mutex::new(BTreeMap::<String, (usize, String, String)>::new());
    std::thread::scope(|sc| {
        for k in 0..8u64 {
            let (res, ck, corpus) = (&res, &ck, &corpus);
            sc.spawn(move || {
                let mut r = engine::runner(78, k, "fails");
                for _ in 0..n / 8 {
                    let v = proptest::strategy::ValueTree::current(&proptest::strategy::Strategy::new_tree(&engine::strategy(ck.tapes), &mut r).unwrap());
                    let (Some(c), _) = engine::make(ck, corpus, false, &v) else { continue };
                    let (sig, msg) = match (ck.decide)(&c) {
                        engine::Out::Fail { sig, msg } => (sig, msg),
                        engine::Out::Pass { nontrivial } => (format!("PASS {nontrivial}"), String::new()),
                        engine::Out::Discard(s) => (format!("DISCARD {s}"), String::new()),
                    };
                    let mut m = res.lock().unwrap();
                    let e = m.entry(sig).or_insert((0, c.src.clone(), msg.clone()));
                    e.0 += 1;
                    if c.src.len() < e.1.len() {
                        e.1 = c.src.clone();
                        e.2 = msg;
                    }
                }
            });
        }
    });
    let m = res.into_inner().unwrap();
    let mut v: Vec<_> = m.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (s, (n, _, _)) in &v {
        println!("{n:7} {s}");
    }
    for (s, (_, src, msg)) in v.iter().filter(|x| !x.0.starts_with("PASS") && !x.0.starts_with("DISC")).take(12) {
        println!("=== {s}\n{src}\n--- {msg}");
    }
}
