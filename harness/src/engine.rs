//! The campaign driver: generation (proptest tapes), worker processes, shrinking, replay files,
//! known findings and evidence.
use crate::checks;
use crate::corpus::{self, Corpus};
use crate::gen::{self, Tape, Tok};
use crate::render::{self, Layout};
use crate::shrink;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config as PC, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub src: String,
    pub alt: Vec<String>,
    pub w: u32,
    pub i: u32,
    pub p: BTreeMap<String, String>,
}

impl Case {
    pub fn new(prop: &str, src: String) -> Case {
        Case { prop: prop.into(), src, alt: vec![], w: 80, i: 2, p: BTreeMap::new() }
    }
    pub fn cfg(&self) -> crate::fmt::Cfg {
        crate::fmt::Cfg { width: self.w, indent: self.i }
    }
    pub fn get(&self, k: &str) -> &str {
        self.p.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn json(&self) -> Value {
        json!({"property": self.prop, "src": self.src, "alt": self.alt, "max_width": self.w, "indent_size": self.i, "params": self.p})
    }
    pub fn from_json(v: &Value) -> Option<Case> {
        Some(Case {
            prop: v["property"].as_str()?.into(),
            src: v["src"].as_str()?.into(),
            alt: v["alt"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
            w: v["max_width"].as_u64().unwrap_or(80) as u32,
            i: v["indent_size"].as_u64().unwrap_or(2) as u32,
            p: v["params"]
                .as_object()
                .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect())
                .unwrap_or_default(),
        })
    }
    fn hash(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&self.src, &self.alt, self.w, self.i, &self.p).hash(&mut h);
        h.finish()
    }
}

pub enum Out {
    Pass { nontrivial: bool },
    Discard(String),
    Fail { sig: String, msg: String },
}

pub struct Ctx<'a> {
    prog: &'a [u32],
    lay: &'a [u32],
    pub t: Tape<'a>,
    pub corpus: &'a Corpus,
    pub big: bool,
    pub labels: Vec<String>,
    pub prop: &'static str,
}

/// What kind of program a check wants.
#[derive(Clone)]
pub struct P {
    pub ascii: bool,
    pub no_anon: bool,
    pub long: u32,
    pub bias: Option<u32>,
    pub corpus: u32,
    pub off: Vec<&'static str>,
    pub on: Vec<&'static str>,
    pub fuel: u32,
    pub strings: bool,
}

impl Default for P {
    fn default() -> Self {
        P { ascii: false, no_anon: false, long: 10, bias: None, corpus: 25, off: vec![], on: vec![], fuel: 140, strings: false }
    }
}

pub const SEMI: [&str; 3] = ["stmt.semi", "member.semi", "interface.semi"];

impl Ctx<'_> {
    pub fn program(&mut self, p: &P) -> Vec<Tok> {
        if self.t.pick(150) == 149 {
            self.labels.push("source.empty".into());
            return vec![];
        }
        if self.t.chance(p.corpus) && !self.corpus.frags.is_empty() {
            let mut t = Tape::new(self.prog);
            let (toks, labels) = self.corpus.program(&mut t);
            self.labels.push("source.corpus".into());
            self.labels.extend(labels);
            return toks;
        }
        self.labels.push("source.grammar".into());
        let bias = match p.bias {
            Some(b) => b,
            None => self.t.pick(5) as u32,
        };
        let fuel = 8 + self.t.pick(if self.big { p.fuel as usize * 3 } else { p.fuel as usize }) as i32;
        let mut o = gen::Opt { ascii: p.ascii, fuel, bias, no_anon_class: p.no_anon, long_names: p.long, ..Default::default() };
        o.strings = p.strings;
        o.flat = self.t.chance(40);
        if o.flat {
            self.labels.push("source.grammar.flat".into());
        }
        if self.t.chance(8) {
            o.many = 1 + self.t.pick(2) as u32;
        }
        if self.t.chance(7) {
            self.labels.push("size.deep".into());
            let max = if self.t.chance(25) { 28 } else { 9 };
            o.deep = 1 + self.t.pick(max) as u32;
        }
        o.disabled.extend(p.off.iter());
        o.disabled.retain(|d| !p.on.contains(d));
        let mut g = gen::G::new(self.prog, o);
        g.program();
        for f in g.feats.keys() {
            self.labels.push(f.to_string());
        }
        g.out
    }
    pub fn render(&mut self, toks: &[Tok], l: &Layout) -> String {
        let r = render::render(toks, l, self.lay);
        if r.n_comments > 0 {
            self.labels.push("layout.comments".into());
        }
        if r.n_blank > 0 {
            self.labels.push("layout.blanks".into());
        }
        if l.crlf {
            self.labels.push("layout.crlf".into());
        }
        self.labels.push(format!("layout.ws{}", l.ws));
        r.text
    }
    /// second half of the layout tape: an independent layout
    pub fn render2(&mut self, toks: &[Tok], l: &Layout) -> String {
        let h = self.lay.len() / 2;
        render::render(toks, l, &self.lay[h..]).text
    }
    pub fn lay(&self) -> Tape<'_> {
        Tape::new(self.lay)
    }
    pub fn width(&mut self) -> u32 {
        if let Some(n) = crate::dict::get().size(&mut self.t, 8, 200_000) {
            return n as u32;
        }
        match self.t.pick(13) {
            0 | 1 | 2 => 80,
            3 => 100,
            4 => 120,
            5 => 60,
            6 => 40,
            7 => 20,
            8 => 20 + self.t.pick(200) as u32,
            9 => 1 + self.t.pick(30) as u32,
            10 => 1,
            11 => [0, u32::MAX, i32::MAX as u32, u16::MAX as u32 + 1][self.t.pick(4)],
            _ => 1_000_000,
        }
    }
    pub fn indent(&mut self) -> u32 {
        if let Some(n) = crate::dict::get().size(&mut self.t, 8, 60) {
            return n.max(1) as u32;
        }
        [2, 2, 4, 1, 3, 8, 5, 7, 2, 4, 16, 40][self.t.pick(12)]
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub chunk: u64,
    /// lengths of the program, layout and auxiliary tapes
    pub tapes: (usize, usize, usize),
    pub shrink_text: bool,
    pub gen: fn(&mut Ctx) -> Option<Case>,
    pub decide: fn(&Case) -> Out,
}

pub fn runner(seed: u64, stream: u64, tag: &str) -> TestRunner {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    tag.hash(&mut h);
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&stream.to_le_bytes());
    b[16..24].copy_from_slice(&h.finish().to_le_bytes());
    TestRunner::new_with_rng(PC { failure_persistence: None, ..PC::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &b))
}

type Tapes = (Vec<u32>, Vec<u32>, Vec<u32>);

pub fn strategy(t: (usize, usize, usize)) -> impl Strategy<Value = Tapes> {
    use proptest::collection::vec;
    use proptest::num::u32::ANY;
    (vec(ANY, t.0 / 8..=t.0), vec(ANY, 0..=t.1), vec(ANY, t.2..=t.2))
}

/// checks whose generator now and then hands over a source the tool has formatted before
const TIDY: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C08", "C09", "C10", "C11", "C12", "C14", "C20", "C21", "C23", "C24", "C25", "C26", "C27",
];

thread_local! {
    /// where the case at hand is written down, and its number
    static CUR: std::cell::RefCell<Option<(std::path::PathBuf, u64)>> = const { std::cell::RefCell::new(None) };
}

/// write down the case before the code under test sees it
fn note(c: &Case) {
    CUR.with(|p| {
        if let Some((p, k)) = &*p.borrow() {
            let _ = std::fs::write(p, format!("{}\n{}", k, c.json()));
        }
    });
}

/// a case that holds a production the changed code handles, or the one of several that holds most of it
fn focused(ck: &Check, corpus: &Corpus, big: bool, v: &Tapes, kinds: &[String], c: &mut Ctx) -> Option<Case> {
    let kind = &kinds[c.t.pick(kinds.len())];
    let many = c.t.chance(35);
    let mut best: Option<(usize, Case, Vec<String>)> = None;
    for i in 0..12 {
        let turn = |t: &[u32]| {
            let mut t = t.to_vec();
            let n = t.len().max(1);
            t.rotate_left(i * 41 % n);
            t
        };
        let (a, b, d) = (turn(&v.0), turn(&v.1), turn(&v.2));
        let mut c = Ctx { prog: &a, lay: &b, t: Tape::new(&d), corpus, big, labels: vec![], prop: ck.id };
        if let Some(x) = (ck.gen)(&mut c) {
            let n = crate::focus::count(&x.src, kind);
            if best.as_ref().is_none_or(|b| n > b.0) {
                best = Some((n, x, c.labels));
            }
        }
        if best.as_ref().is_some_and(|b| b.0 > 0) && (!many || i >= 4) {
            break;
        }
    }
    let (n, x, l) = best?;
    c.labels = l;
    if n > 0 {
        c.labels.push(format!("focus.{}", kind));
    }
    Some(x)
}

pub fn make(ck: &Check, corpus: &Corpus, big: bool, v: &Tapes) -> (Option<Case>, Vec<String>) {
    let mut c = Ctx { prog: &v.0, lay: &v.1, t: Tape::new(&v.2), corpus, big, labels: vec![], prop: ck.id };
    let tidy = TIDY.contains(&ck.id) && c.t.chance(8);
    let other = if tidy && c.t.chance(40) { Some((1 + c.t.pick(140) as u32, c.t.pick(9) as u32)) } else { None };
    let kinds = crate::focus::kinds();
    let mut case = if kinds.is_empty() || !c.t.chance(45) { (ck.gen)(&mut c) } else { focused(ck, corpus, big, v, kinds, &mut c) };
    if let (true, Some(x)) = (tidy, case.as_mut()) {
        // a source as the tool leaves it: what most runs in a project see
        if x.alt.is_empty() {
            note(x);
            let cfg = other.map(|(w, i)| Case { w, i, ..x.clone() }.cfg()).unwrap_or_else(|| x.cfg());
            if let Ok(o) = crate::fmt::format(&x.src, cfg) {
                if !o.trim().is_empty() {
                    x.src = o;
                    c.labels.push("source.formatted_before".into());
                }
            }
        }
    }
    if c.t.exhausted() {
        // the last choices of this case were all the first alternative
        c.labels.push("tape.exhausted".into());
    }
    let l = std::mem::take(&mut c.labels);
    (case, l)
}

/// a panic of the harness itself is trouble, never a verdict
fn decide(ck: &Check, c: &Case) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (ck.decide)(c))) {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Out::Discard(format!("HARNESS PANIC {} {}", m, crate::fmt::LAST_PANIC.with(|p| p.borrow().clone())))
        }
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// the code under test prints diagnostics on stdout and stderr: keep our own channel
pub fn mute_stdout() -> std::fs::File {
    use std::os::fd::{AsRawFd, FromRawFd};
    let _ = std::io::stdout().flush();
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("open /dev/null");
    unsafe {
        let keep = dup(1);
        dup2(null.as_raw_fd(), 1);
        dup2(null.as_raw_fd(), 2);
        std::fs::File::from_raw_fd(keep)
    }
}

pub fn worker(a: &[String]) {
    let ck = checks::find(&a[0]).expect("check");
    let seed: u64 = a[1].parse().unwrap();
    let chunk: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let skip: u64 = a[4].parse().unwrap();
    let big = a[5] == "thorough";
    let cur = std::path::PathBuf::from(&a[6]);
    let known = load_known();
    let mut out = mute_stdout();
    crate::fmt::quiet_panics();
    let corpus = corpus::load();
    let mut r = runner(seed, chunk, ck.id);
    let st = strategy(ck.tapes);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut discards: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes = vec![];
    let mut samples = vec![];
    let mut fails = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut cases = 0u64;
    for k in 0..n {
        let mut tree = st.new_tree(&mut r).expect("tape");
        if k < skip {
            continue;
        }
        let v = tree.current();
        CUR.with(|p| *p.borrow_mut() = Some((cur.clone(), k)));
        let (case, ls) = make(&ck, &corpus, big, &v);
        let Some(case) = case else {
            *discards.entry("generator".into()).or_insert(0) += 1;
            continue;
        };
        let _ = std::fs::write(&cur, format!("{}\n{}", k, case.json()));
        cases += 1;
        match decide(&ck, &case) {
            Out::Pass { nontrivial } => {
                for l in ls.iter().collect::<BTreeSet<_>>() {
                    *labels.entry(l.clone()).or_insert(0) += 1;
                }
                if nontrivial {
                    hashes.push(case.hash());
                    if samples.len() < 2 {
                        samples.push(sample(&case));
                    }
                }
            }
            Out::Discard(s) => *discards.entry(s).or_insert(0) += 1,
            Out::Fail { sig, msg } => {
                if known.iter().any(|f| f.matches(ck.id, &sig)) {
                    *known_hits.entry(sig).or_insert(0) += 1;
                    continue;
                }
                // proptest shrinks the tapes, then the text is reduced along its syntax tree
                let stop = Instant::now() + Duration::from_secs(20);
                let still = |c: &Case| -> Option<(String, String)> {
                    if Instant::now() > stop {
                        return None;
                    }
                    let _ = std::fs::write(&cur, format!("{}\n{}", k, c.json()));
                    match decide(&ck, c) {
                        Out::Fail { sig, msg } if !known.iter().any(|f| f.matches(ck.id, &sig)) => Some((sig, msg)),
                        _ => None,
                    }
                };
                let mut best = (case.clone(), sig, msg);
                let mut budget = 700;
                if tree.simplify() {
                    loop {
                        budget -= 1;
                        let (c, _) = make(&ck, &corpus, big, &tree.current());
                        let ok = match c {
                            Some(c) => match still(&c) {
                                Some((s, m)) => {
                                    best = (c, s, m);
                                    true
                                }
                                None => false,
                            },
                            None => false,
                        };
                        if budget == 0 || Instant::now() > stop {
                            break;
                        }
                        if ok {
                            if !tree.simplify() {
                                break;
                            }
                        } else if !tree.complicate() {
                            break;
                        }
                    }
                }
                if ck.shrink_text && std::env::var_os("AFMT_NOSHRINK").is_none() {
                    shrink::shrink(&mut best, &still, 1500);
                }
                fails.push(json!({"sig": best.1, "msg": best.2, "case": best.0.json(), "index": k}));
                break;
            }
        }
    }
    let rep = json!({"cases": cases, "labels": labels, "discards": discards, "hashes": hashes, "samples": samples,
        "fails": fails, "known": known_hits});
    let _ = writeln!(out, "{}", rep);
    let _ = std::fs::remove_file(&cur);
}

fn sample(c: &Case) -> Value {
    let cut = |s: &str| -> String { s.chars().take(500).collect() };
    json!({"src": cut(&c.src), "alt": c.alt.iter().take(2).map(|s| cut(s)).collect::<Vec<_>>(), "max_width": c.w, "indent_size": c.i, "params": c.p})
}

// ------------------------------------------------------------------ known findings

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub repro: String,
    pub what: String,
}

impl Known {
    pub fn matches(&self, prop: &str, sig: &str) -> bool {
        self.prop == prop && self.sig == sig
    }
}

pub fn root() -> String {
    std::env::var("AFMT_VERIF").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string())
}

/// lines: `finding: property=<id> repro=<file> sig=<exact signature> :: <what fails>`
pub fn load_known() -> Vec<Known> {
    let mut v = vec![];
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    for l in s.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let Some((prop, r)) = r.split_once(" repro=") else { continue };
        let Some((repro, r)) = r.split_once(" sig=") else { continue };
        let Some((sig, what)) = r.split_once(" :: ") else { continue };
        v.push(Known { prop: prop.into(), sig: sig.into(), repro: repro.into(), what: what.into() });
    }
    v
}

// ------------------------------------------------------------------ parent

#[derive(Default)]
struct Sum {
    cases: u64,
    labels: BTreeMap<String, u64>,
    discards: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    samples: Vec<Value>,
    fails: Vec<(u64, String, String, Case)>,
    known: BTreeMap<String, u64>,
    aborts: u64,
    trouble: Vec<String>,
}

fn run_worker(me: &std::path::Path, args: &[String], limit: Duration) -> (Option<i32>, String, bool) {
    let mut ch = Command::new(me)
        .arg("worker")
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let t0 = Instant::now();
    // a case that takes this long is looked at on its own
    let stuck = Duration::from_secs(40);
    let cur = std::path::Path::new(args.last().expect("args"));
    let code;
    let mut hung = false;
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                code = st.code();
                break;
            }
            None => {
                if let Ok(m) = std::fs::metadata(cur).and_then(|m| m.modified()) {
                    if t0.elapsed() > stuck && m.elapsed().map_or(false, |e| e > stuck) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        code = None;
                        break;
                    }
                }
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    hung = true;
                    code = None;
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
    (code, rd.join().unwrap_or_default(), hung)
}

/// runs one case in a process of its own: Ok(None) pass, Ok(Some(sig,msg)) fail, Err(()) died
pub fn isolated(me: &std::path::Path, case: &Case, dir: &std::path::Path) -> Result<Option<(String, String)>, String> {
    let f = dir.join(format!("iso-{}-{:?}.json", std::process::id(), std::thread::current().id()));
    std::fs::write(&f, case.json().to_string()).map_err(|e| e.to_string())?;
    let mut ch = Command::new(me).arg("one").arg(&f).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut so, &mut s);
        s
    });
    let t0 = Instant::now();
    let status = loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break s,
            None if t0.elapsed() > Duration::from_secs(60) => {
                let _ = ch.kill();
                break ch.wait().map_err(|e| e.to_string())?;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let stdout = rd.join().unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    match status.code() {
        Some(0) => Ok(None),
        Some(1) => {
            let v: Value = serde_json::from_slice(&stdout).unwrap_or(Value::Null);
            Ok(Some((v["sig"].as_str().unwrap_or("?").into(), v["msg"].as_str().unwrap_or("").into())))
        }
        _ => Err("died".into()),
    }
}

/// `one FILE`: decide one case, exit 0 or 1
pub fn one(a: &[String]) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("read case")).expect("json");
    let v = if v.get("case").is_some() { v["case"].clone() } else { v };
    let case = Case::from_json(&v).expect("case");
    let ck = checks::find(&case.prop).expect("property");
    let mut out = mute_stdout();
    crate::fmt::quiet_panics();
    match decide(&ck, &case) {
        Out::Pass { .. } => 0,
        Out::Discard(s) => {
            let _ = writeln!(out, "discard: {}", s);
            0
        }
        Out::Fail { sig, msg } => {
            let _ = writeln!(out, "{}", json!({"sig": sig, "msg": msg}));
            1
        }
    }
}

/// `replay FILE`: human readable
pub fn replay(a: &[String]) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("read replay")).expect("json");
    let c = if v.get("case").is_some() { v["case"].clone() } else { v };
    let case = Case::from_json(&c).expect("case");
    let ck = checks::find(&case.prop).expect("property");
    let mut out = mute_stdout();
    crate::fmt::quiet_panics();
    let _ = writeln!(out, "property {} max_width={} indent_size={} {:?}", case.prop, case.w, case.i, case.p);
    let _ = writeln!(out, "--- source\n{}", case.src);
    for (i, x) in case.alt.iter().enumerate() {
        let _ = writeln!(out, "--- alt {}\n{}", i, x);
    }
    match decide(&ck, &case) {
        Out::Pass { nontrivial } => {
            let _ = writeln!(out, "PASS (nontrivial: {})", nontrivial);
            0
        }
        Out::Discard(s) => {
            let _ = writeln!(out, "DISCARDED: {}", s);
            0
        }
        Out::Fail { sig, msg } => {
            let _ = writeln!(out, "FAIL {}\n{}", sig, msg);
            1
        }
    }
}

pub fn check(a: &[String]) -> i32 {
    let ck = match checks::find(&a[0]) {
        Some(c) => c,
        None => {
            eprintln!("no such check {}", a[0]);
            return 2;
        }
    };
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match a.get(1).map(|s| s.as_str()) {
        Some("thorough") => "thorough",
        Some("quick") => "quick",
        _ => match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        },
    };
    let me = std::env::current_exe().expect("exe");
    let dir = std::env::temp_dir().join(format!("afmt-verify-{}-{}", ck.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let total = if tier == "thorough" { ck.thorough } else { ck.quick };
    let chunks = (total + ck.chunk - 1) / ck.chunk;
    let next = AtomicU64::new(0);
    let sum = Mutex::new(Sum::default());
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let limit = Duration::from_secs(if tier == "thorough" { 600 } else { 300 });

    // 1. saved inputs: known findings and the regressions of earlier failures
    let mut replayed = 0u64;
    let known = load_known();
    let mut known_lines = vec![];
    let mut regress_fail = vec![];
    for k in known.iter().filter(|k| k.prop == ck.id) {
        let p = format!("{}/{}", root(), k.repro);
        if let Ok(s) = std::fs::read_to_string(&p) {
            if let Some(case) = serde_json::from_str::<Value>(&s).ok().and_then(|v| Case::from_json(if v.get("case").is_some() { &v["case"] } else { &v })) {
                replayed += 1;
                match isolated(&me, &case, &dir) {
                    Ok(Some((sig, _))) if sig == k.sig => known_lines.push(format!("KNOWN-FINDING: property={} {}", k.prop, k.what)),
                    Ok(Some((sig, msg))) => regress_fail.push((sig, msg, case)),
                    Ok(None) => {}
                    Err(_) => regress_fail.push(("abort".to_string(), "the process died".to_string(), case)),
                }
            }
        }
    }
    let mut reg: Vec<_> = std::fs::read_dir(format!("{}/regress", root())).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_else(|_| vec![]);
    reg.sort();
    for p in reg {
        if !p.file_name().unwrap().to_string_lossy().starts_with(ck.id) {
            continue;
        }
        let Ok(s) = std::fs::read_to_string(&p) else { continue };
        let Some(case) = serde_json::from_str::<Value>(&s).ok().and_then(|v| Case::from_json(if v.get("case").is_some() { &v["case"] } else { &v })) else { continue };
        replayed += 1;
        match isolated(&me, &case, &dir) {
            Ok(Some((sig, msg))) if !known.iter().any(|k| k.matches(ck.id, &sig)) => regress_fail.push((sig, msg, case)),
            Ok(_) => {}
            Err(_) => regress_fail.push(("abort".to_string(), "the process died".to_string(), case)),
        }
    }

    // 2. the campaign
    std::thread::scope(|sc| {
        for tid in 0..nthreads {
            let (next, sum, me, dir, ck) = (&next, &sum, &me, &dir, &ck);
            sc.spawn(move || loop {
                let c = next.fetch_add(1, Ordering::SeqCst);
                if c >= chunks {
                    break;
                }
                {
                    let s = sum.lock().unwrap();
                    if s.fails.len() >= 3 || !s.trouble.is_empty() {
                        break;
                    }
                }
                let n = ck.chunk.min(total - c * ck.chunk);
                let cur = dir.join(format!("cur-{}", tid));
                let mut skip = 0;
                let mut deaths = 0;
                loop {
                    let args = vec![
                        ck.id.to_string(),
                        seed.to_string(),
                        c.to_string(),
                        n.to_string(),
                        skip.to_string(),
                        tier.to_string(),
                        cur.to_string_lossy().to_string(),
                    ];
                    let (code, out, hung) = run_worker(me, &args, limit);
                    if hung {
                        sum.lock().unwrap().trouble.push(format!("chunk {} made no end within {:?}", c, limit));
                        break;
                    }
                    let v: Option<Value> = out.lines().last().and_then(|l| serde_json::from_str(l).ok());
                    if let (Some(0), Some(v)) = (code, v) {
                        let mut s = sum.lock().unwrap();
                        s.cases += v["cases"].as_u64().unwrap_or(0);
                        for (name, dst) in [("labels", 0), ("discards", 1), ("known", 2)] {
                            if let Some(o) = v[name].as_object() {
                                for (k, x) in o {
                                    let m = match dst {
                                        0 => &mut s.labels,
                                        1 => &mut s.discards,
                                        _ => &mut s.known,
                                    };
                                    *m.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                                }
                            }
                        }
                        for h in v["hashes"].as_array().into_iter().flatten() {
                            s.hashes.insert(h.as_u64().unwrap_or(0));
                        }
                        for x in v["samples"].as_array().into_iter().flatten() {
                            if s.samples.len() < 6 {
                                s.samples.push(x.clone());
                            }
                        }
                        for f in v["fails"].as_array().into_iter().flatten() {
                            if let Some(case) = Case::from_json(&f["case"]) {
                                s.fails.push((c, f["sig"].as_str().unwrap_or("?").into(), f["msg"].as_str().unwrap_or("").into(), case));
                            }
                        }
                        break;
                    }
                    // the worker died: find out whether the case it was working on is what kills it
                    let cc = std::fs::read_to_string(&cur).ok().and_then(|s| {
                        let (k, j) = s.split_once('\n')?;
                        Some((k.parse::<u64>().ok()?, Case::from_json(&serde_json::from_str(j).ok()?)?))
                    });
                    let Some((k, case)) = cc else {
                        sum.lock().unwrap().trouble.push(format!("worker for chunk {} ended with {:?} and left no case", c, code));
                        break;
                    };
                    deaths += 1;
                    if isolated(me, &case, dir).is_err() && isolated(me, &case, dir).is_err() {
                        let mut s = sum.lock().unwrap();
                        s.aborts += 1;
                        if s.aborts > 20 && !checks::abort_is_violation(ck.id) {
                            s.trouble.push("the process dies on more than 20 inputs (C14 decides these)".into());
                            break;
                        }
                        if checks::abort_is_violation(ck.id) {
                            s.fails.push((c, "abort".into(), "the process died (stack overflow or abort) or made no end on this input".into(), case));
                            break;
                        }
                    } else if deaths > 3 {
                        sum.lock().unwrap().trouble.push(format!("worker for chunk {} keeps dying ({:?})", c, code));
                        break;
                    }
                    skip = k + 1;
                    if skip >= n {
                        break;
                    }
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);

    let mut s = sum.into_inner().unwrap();
    for k in s.discards.keys().filter(|k| k.starts_with("HARNESS PANIC")).cloned().collect::<Vec<_>>() {
        s.trouble.push(k);
    }
    s.fails.sort_by_key(|f| f.0);
    for (sig, msg, case) in regress_fail {
        s.fails.insert(0, (0, sig, msg, case));
    }
    for l in &known_lines {
        println!("{}", l);
    }
    let rdir = format!("{}/evidence/replays", root());
    let mut seen = BTreeSet::new();
    let mut nviol = 0;
    for (_, sig, msg, case) in &s.fails {
        if !seen.insert(sig.clone()) || nviol >= 5 {
            continue;
        }
        nviol += 1;
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}-{:016x}.json", rdir, ck.id, case.hash());
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"sig": sig, "msg": msg, "case": case.json()})).unwrap());
        println!("--- {}: {}\n{}", ck.id, sig, msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", ck.id, std::fs::canonicalize(&path).map(|p| p.display().to_string()).unwrap_or(path));
    }
    let ev = json!({
        "property": ck.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.cases,
            "distinct_nontrivial": s.hashes.len(),
            "rule": ck.rule,
            "samples": s.samples,
            "saved_inputs_replayed": replayed,
            "classes": s.labels,
            "discarded": s.discards,
            "known_finding_hits": s.known,
            "aborted_processes": s.aborts,
        },
        "assumptions": checks::ASSUMPTIONS,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root(), ck.id), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{} {} seed={} cases={} nontrivial={} discarded={:?} violations={} in {:.1}s",
        ck.id, tier, seed, s.cases, s.hashes.len(), s.discards, nviol, t0.elapsed().as_secs_f64()
    );
    if nviol > 0 {
        return 1;
    }
    if !s.trouble.is_empty() {
        eprintln!("error: {:?}", s.trouble);
        return 3;
    }
    if s.cases == 0 || s.hashes.is_empty() {
        eprintln!("error: no non-trivial case was generated");
        return 3;
    }
    0
}
