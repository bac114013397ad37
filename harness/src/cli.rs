//! The command line tool, run as a process on files of a scratch directory of its own.
use crate::checks;
use crate::engine::{Case, Check, Ctx, Out, P};
use crate::fmt::{self, Cfg};
use crate::render::Layout;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Scratch(PathBuf);
static N: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("afmt-scratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(p.join("home/.config/afmt")).expect("scratch");
        for f in ["env.toml", "home/.afmt.toml", "home/afmt.toml", "home/.config/afmt.toml", "home/.config/afmt/afmt.toml", "home/.config/afmt/config.toml"] {
            std::fs::write(p.join(f), DECOY).expect("scratch");
        }
        Scratch(p)
    }
    pub fn path(&self, f: &str) -> PathBuf {
        self.0.join(f)
    }
}

const DECOY: &str = "max_width = 33\nindent_size = 7\n";
const EDITOR: &str = "root = true\n[*]\nindent_style = space\nindent_size = 7\nmax_line_length = 33\n";

/// names of the environment that a run must not take anything from, with a value for each
pub(crate) fn noise(c: &mut Command, dir: &Path) {
    let Some(s) = dir.ancestors().find(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("afmt-scratch-"))) else { return };
    let fixed = ["AFMT_CONFIG", "AFMT_CONFIG_PATH", "AFMT_MAX_WIDTH", "AFMT_INDENT_SIZE", "MAX_WIDTH", "INDENT_SIZE", "COLUMNS", "LINES", "XDG_CONFIG_HOME", "HOME", "CI", "NO_COLOR", "CLICOLOR_FORCE", "EDITOR", "RUST_LOG"];
    let new = crate::dict::get().names.iter().filter(|n| n.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')).map(|n| n.as_str());
    for n in fixed.into_iter().chain(new) {
        if matches!(n, "PATH" | "LD_LIBRARY_PATH" | "TMPDIR") {
            continue;
        }
        let has = |w: &[&str]| w.iter().any(|w| n.contains(w));
        let v = if n == "HOME" {
            s.join("home")
        } else if n.starts_with("XDG") {
            s.join("home/.config")
        } else if has(&["WIDTH", "COL", "LINE"]) {
            "33".into()
        } else if has(&["INDENT", "SIZE", "TAB"]) {
            "7".into()
        } else if has(&["CONF", "FILE", "TOML", "PATH", "RC", "SETTINGS", "STYLE"]) {
            s.join("env.toml")
        } else if has(&["DIR"]) {
            s.join("home")
        } else {
            "1".into()
        };
        c.env(n, v);
    }
}

/// settings in files that no run was told to read
pub(crate) fn decoys(dir: &Path) {
    let fixed = [".afmt.toml", "afmt.toml", ".afmtrc", ".afmt", "afmt.config.toml", ".config/afmt.toml", "config.toml", "rustfmt.toml", ".editorconfig"];
    let new = crate::dict::get().words.iter().filter(|w| w.contains('.') && w.len() > 3 && !w.contains("..") && w.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c))).map(|w| w.trim_start_matches('/'));
    for n in fixed.into_iter().chain(new) {
        let p = dir.join(n);
        if p.exists() || n.ends_with(".cls") {
            continue;
        }
        let _ = std::fs::create_dir_all(p.parent().expect("dir"));
        std::fs::write(p, if n.contains("editorconfig") { EDITOR } else { DECOY }).expect("write");
    }
}

/// files whose names derive from the name of a file that is formatted; no run has any business with them
pub(crate) fn neighbours(dir: &Path, name: &str) {
    let full = dir.join(name);
    let (d, n) = (full.parent().expect("dir"), full.file_name().expect("name").to_string_lossy().to_string());
    let stem = n.rsplit_once('.').map_or(n.clone(), |x| x.0.to_string());
    let mut v: Vec<String> = vec![];
    for t in ["{}~", "{}.bak", "{}.orig", "{}.tmp", ".{}.swp", ".{}.tmp", ".{}", "{}.new", "{}.old", "#{}#", "{}.lock", ".{}.lock", "~{}", "{}.afmt", "{}-meta.xml", "{}.formatted", "{}.part", "{}.1", "_{}"] {
        v.push(t.replace("{}", &n));
        v.push(t.replace("{}", &stem));
    }
    for w in crate::dict::get().words.iter().filter(|w| w.len() < 24 && !w.contains(['/', ' ', '\n', '\0']) && w.is_ascii()) {
        let mut parts = vec![];
        let mut rest = w.as_str();
        while let Some((a, b)) = rest.split_once('{') {
            parts.push(a);
            rest = b.split_once('}').map_or("", |x| x.1);
        }
        parts.push(rest);
        if parts.len() > 1 {
            v.push(parts.join(&n));
            v.push(parts.join(&stem));
        }
        let last = parts.last().expect("part");
        v.push(format!("{}{}", n, last));
        v.push(format!("{}{}", stem, last));
        v.push(format!("{}.{}", n, last));
        v.push(format!("{}.{}", stem, last));
        v.push(format!("{}{}", parts[0], n));
    }
    for f in v {
        let p = d.join(&f);
        if !f.is_empty() && f.len() < 200 && f != "." && f != ".." && std::fs::symlink_metadata(&p).is_err() {
            let _ = std::fs::write(p, "class Other {}\n");
        }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub(crate) fn afmt() -> PathBuf {
    if let Ok(p) = std::env::var("AFMT_BIN") {
        return p.into();
    }
    std::env::current_exe().expect("exe").parent().expect("dir").join("afmt")
}

pub(crate) struct Run {
    pub(crate) code: Option<i32>,
    pub(crate) out: Vec<u8>,
    pub(crate) err: Vec<u8>,
}

const NOBODY: u32 = 65534;

/// a copy of the tool that an unprivileged user can run, if this process may become one
fn unprivileged() -> Option<&'static Path> {
    static BIN: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    BIN.get_or_init(|| {
        use std::os::unix::fs::PermissionsExt;
        let p = std::env::temp_dir().join(format!("afmt-bin-{}", std::process::id()));
        std::fs::create_dir_all(&p).ok()?;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).ok()?;
        let b = p.join("afmt");
        let _ = std::fs::remove_file(&b);
        if std::fs::hard_link(afmt(), &b).is_err() {
            std::fs::copy(afmt(), &b).ok()?;
            std::fs::set_permissions(&b, std::fs::Permissions::from_mode(0o755)).ok()?;
        }
        let r = run_as(true, &b, Path::new("/"), &["--version"])?;
        (r.code == Some(0)).then_some(b)
    })
    .as_deref()
}

/// the copy goes when the check ends
pub fn cleanup() {
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("afmt-bin-{}", std::process::id())));
}

fn run_as(nobody: bool, bin: &Path, dir: &Path, args: &[&str]) -> Option<Run> {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).stdin(Stdio::null()).env_remove("RUST_BACKTRACE");
    noise(&mut c, dir);
    if nobody {
        c.uid(NOBODY).gid(NOBODY);
    }
    let o = c.output().ok()?;
    Some(Run { code: o.status.code(), out: o.stdout, err: o.stderr })
}

pub(crate) fn run(dir: &Path, args: &[&str]) -> Run {
    run_as(false, &afmt(), dir, args).expect("run afmt")
}

/// where the streams of a run lead
#[derive(Clone, Copy, Debug)]
pub(crate) enum Io {
    Pipe,
    File,
    Terminal,
    Stdin,
    Noise,
}

extern "C" {
    fn openpty(a: *mut i32, b: *mut i32, name: *mut u8, t: *const u8, w: *const u8) -> i32;
}

/// a run whose streams and environment vary; None if it cannot be set up here
pub(crate) fn run_in(dir: &Path, args: &[&str], env: &[(&str, &str)], how: Io) -> Option<Run> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut c = Command::new(afmt());
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("RUST_BACKTRACE");
    if let Io::Noise = how {
        noise(&mut c, dir);
    }
    for (k, v) in env {
        c.env(k, v);
    }
    match how {
        Io::Pipe | Io::Noise => {
            let o = c.output().ok()?;
            Some(Run { code: o.status.code(), out: o.stdout, err: o.stderr })
        }
        Io::Stdin => {
            let mut k = c.stdin(Stdio::piped()).spawn().ok()?;
            let _ = k.stdin.take()?.write_all(b"class FromStandardInput { }\n");
            let o = k.wait_with_output().ok()?;
            Some(Run { code: o.status.code(), out: o.stdout, err: o.stderr })
        }
        Io::File => {
            let p = std::env::temp_dir().join(format!("afmt-scratch-out-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
            let f = std::fs::File::create(&p).ok()?;
            let o = c.stdout(f).output().ok();
            let out = std::fs::read(&p).unwrap_or_default();
            let _ = std::fs::remove_file(&p);
            let o = o?;
            Some(Run { code: o.status.code(), out, err: o.stderr })
        }
        Io::Terminal => {
            let (mut a, mut b) = (-1, -1);
            if unsafe { openpty(&mut a, &mut b, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) } != 0 {
                return None;
            }
            let (mut master, slave) = unsafe { (std::fs::File::from_raw_fd(a), std::fs::File::from_raw_fd(b)) };
            let mut k = c.stdout(slave.try_clone().ok()?).stdin(slave).stderr(Stdio::null()).spawn().ok()?;
            drop(c);
            let mut out = vec![];
            let mut buf = [0u8; 4096];
            while let Ok(n) = master.read(&mut buf) {
                if n == 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n]);
            }
            let s = k.wait().ok()?;
            Some(Run { code: s.code(), out, err: vec![] })
        }
    }
}

pub(crate) fn fail(sig: impl Into<String>, msg: impl Into<String>) -> Out {
    Out::Fail { sig: sig.into(), msg: msg.into() }
}

#[derive(Clone, PartialEq, Debug)]
pub(crate) enum Ent {
    Dir,
    File { bytes: Vec<u8>, mtime: i128, ino: u64, mode: u32, uid: u32 },
    Link(PathBuf),
}

pub(crate) type Disk = BTreeMap<PathBuf, Ent>;

pub(crate) fn snapshot(dir: &Path) -> Disk {
    use std::os::unix::fs::MetadataExt;
    let mut d = Disk::new();
    fn go(p: &Path, d: &mut Disk) {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            let q = e.path();
            let Ok(m) = std::fs::symlink_metadata(&q) else { continue };
            if m.file_type().is_symlink() {
                d.insert(q.clone(), Ent::Link(std::fs::read_link(&q).unwrap_or_default()));
            } else if m.is_dir() {
                d.insert(q.clone(), Ent::Dir);
                go(&q, d);
            } else {
                d.insert(
                    q.clone(),
                    Ent::File {
                        bytes: std::fs::read(&q).unwrap_or_default(),
                        mtime: m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128,
                        ino: m.ino(),
                        mode: m.mode() & 0o7777,
                        uid: m.uid(),
                    },
                );
            }
        }
    }
    go(dir, &mut d);
    d
}

pub(crate) fn disk_diff(a: &Disk, b: &Disk) -> Option<String> {
    for (p, e) in a {
        match b.get(p) {
            None => return Some(format!("{:?} vanished", p)),
            Some(f) if f != e => {
                return Some(match (e, f) {
                    (Ent::File { mode: x, uid: u, .. }, Ent::File { mode: y, uid: v, .. }) if x != y || u != v => {
                        format!("{:?}: the permissions or the owner changed: {:o} {} -> {:o} {}", p, x, u, y, v)
                    }
                    (Ent::File { bytes: x, .. }, Ent::File { bytes: y, .. }) if x == y => format!("{:?} was rewritten or touched", p),
                    (Ent::File { bytes: x, .. }, Ent::File { bytes: y, .. }) => {
                        format!("{:?} changed: {:?} -> {:?}", p, String::from_utf8_lossy(x), String::from_utf8_lossy(y))
                    }
                    _ => format!("{:?} changed: {:?} -> {:?}", p, e, f),
                })
            }
            _ => {}
        }
    }
    b.keys().find(|p| !a.contains_key(*p)).map(|p| format!("{:?} appeared", p))
}

// ------------------------------------------------------------------ histories

pub(crate) const NAMES: [&str; 26] = [
    "a.cls", "B.cls", "with space.cls", "ünï.cls", "sub/c.cls", "noext", "t.trigger", "x.y.z.cls", "sub/a.cls", "sub/deep/a.cls", "-dash.cls",
    ".hidden.cls", "a.cls.bak", "a.cls ", " a.cls", "sub/ c.cls\t", "A.CLS", "~a.cls", "*.cls", "$HOME.cls", "%61.cls", "e\u{301}.cls",
    "\"a.cls\"", "'a.cls'", "a.cls#x", "a.cls,b.cls",
];

pub(crate) fn contents(c: &mut Ctx) -> (String, &'static str) {
    if c.t.chance(4) {
        // more than any buffer holds
        let n = [300, 1000, 3000, 6000][c.t.pick(4)] + c.t.pick(50);
        let sep = [" ", "\n  ", "\n\n\n"][c.t.pick(3)];
        let body: Vec<String> = (0..n).map(|i| format!("Integer field{} = 'ä{}';", i, i)).collect();
        let end = ["}\n", "}", "\n}"][c.t.pick(3)];
        return (format!("class A {{\n  {}\n{}", body.join(sep), end), "large");
    }
    match c.t.pick(12) {
        0 => ("class A {".into(), "invalid"),
        1 => (["class A { void m() { x = ; } }", "class A { String s = 'abc; }", "}", "class A { void m() { } "][c.t.pick(4)].into(), "invalid"),
        2 => ("class A { void m() { x = a . /* no place */ b /* y */ . c; } }".into(), "comment without a place"),
        3 => (["", "\n", "// only a comment\n", "class A {\n}\n", "\u{feff}class A {\n}\n"][c.t.pick(5)].into(), "tiny"),
        4 => ("class A { void m() { x = [SELECT TYPEOF What WHEN Account THEN Id END FROM E]; } }".into(), "refused construct"),
        5 | 6 => {
            let toks = c.program(&P { corpus: 50, fuel: 40, ..P::default() });
            let src = c.render(&toks, &Layout { ws: 1, ..Default::default() });
            match fmt::format(&src, Cfg { width: 80, indent: 2 }) {
                Ok(o) => (o, "formatted"),
                Err(_) => (src, "random"),
            }
        }
        7 | 8 => {
            // formatted but for one detail
            let toks = c.program(&P { corpus: 50, fuel: 40, ..P::default() });
            let src = c.render(&toks, &Layout { ws: 1, ..Default::default() });
            match fmt::format(&src, Cfg { width: 80, indent: 2 }) {
                Ok(mut o) => {
                    let mid = {
                        let ls: Vec<usize> = o.match_indices('\n').map(|x| x.0).collect();
                        ls.get(c.t.pick(ls.len().max(1))).copied().unwrap_or(0)
                    };
                    match c.t.pick(14) {
                        0 => o.push('\n'),
                        7 => o.insert(mid, ' '),
                        8 => o.insert(mid, '\n'),
                        9 => o.insert_str(mid, "\n\n"),
                        10 => o.insert(mid, '\r'),
                        11 => {
                            if let Some(i) = o.rfind("  ") {
                                o.replace_range(i..i + 2, " ");
                            }
                        }
                        12 => {
                            if let Some(i) = o.rfind('}') {
                                o.insert(i, ' ');
                            }
                        }
                        13 => o.insert_str(mid, " /**/"),
                        1 => {
                            o.pop();
                        }
                        2 => o = o.replacen('\n', " \n", 1),
                        3 => o = o.replace('\n', "\r\n"),
                        4 => o.insert(0, '\n'),
                        5 => o.push(' '),
                        _ => o = o.replacen("  ", "\t", 1),
                    }
                    (o, "almost formatted")
                }
                Err(_) => (src, "random"),
            }
        }
        _ => {
            let toks = c.program(&P { corpus: 50, fuel: 40, ..P::default() });
            let l = Layout { ws: 1, blanks: 20, comments: 5, comments_at_boundaries_only: true, crlf: c.t.chance(15), ..Default::default() };
            (c.render(&toks, &l), "random")
        }
    }
}

pub(crate) const CFGS: [&str; 9] = [
    "max_width = 80\nindent_size = 2\n",
    "max_width = 40\nindent_size = 4\n",
    "indent_size = 4\n",
    "max_width = 120\n",
    "",
    "max_width = \n",
    "indent_size = 0\n",
    "max_width = -1\n",
    "max_width = 'wide'\n",
];

/// what the tool has to use, or None if it has to refuse
pub fn config_model(text: &[u8]) -> Option<Cfg> {
    let s = std::str::from_utf8(text).ok()?;
    let v: toml::Value = toml::from_str(s).ok()?;
    let get = |k: &str, d: u32| -> Option<u32> {
        match v.get(k) {
            None => Some(d),
            Some(toml::Value::Integer(i)) => u32::try_from(*i).ok(),
            Some(_) => None,
        }
    };
    let (w, i) = (get("max_width", 80)?, get("indent_size", 2)?);
    if i == 0 {
        return None;
    }
    Some(Cfg { width: w, indent: i })
}

fn gen_history(c: &mut Ctx) -> Option<Case> {
    let n = 1 + c.t.pick(4);
    let mut names = vec![];
    let mut kinds = vec![];
    let mut alt = vec![];
    for k in 0..n {
        let mut i = c.t.pick(NAMES.len());
        while names.contains(&NAMES[i]) {
            i = (i + 1) % NAMES.len();
        }
        names.push(NAMES[i]);
        let (s, what) = contents(c);
        let kind = match c.t.pick(18) {
            0 => "missing",
            1 => "dir",
            2 => "utf8",
            3 => "symlink",
            4 => "hardlink",
            5 => "ro",
            6 => "noread",
            7 => "exec",
            8 => "private",
            _ => "file",
        };
        let kind = if k == 0 && (kind == "missing" || kind == "dir") { "file" } else { kind };
        c.labels.push(format!("file.{}", kind));
        c.labels.push(format!("content.{}", what));
        kinds.push(kind);
        alt.push(s);
    }
    let m = 2 + c.t.pick(if c.big { 14 } else { 8 });
    let mut ops = vec![];
    for _ in 0..m {
        let f = c.t.pick(n);
        let cfg: i32 = if c.t.chance(40) { c.t.pick(CFGS.len() + 1) as i32 } else { -1 };
        let op = ["write", "write", "dry", "check", "check", "wtime", "dtime", "both", "edit", "break", "swap", "ctime", "btime"][c.t.pick(13)];
        c.labels.push(format!("op.{}", op));
        ops.push(format!("{} {} {} {} {} {} {}", op, f, cfg, c.t.pick(3), c.t.pick(3), c.t.pick(4), c.t.pick(4)));
    }
    let mut case = Case::new(c.prop, String::new());
    case.alt = alt;
    case.p.insert("names".into(), names.join("\n"));
    case.p.insert("kinds".into(), kinds.join(","));
    case.p.insert("ops".into(), ops.join("\n"));
    if c.t.chance(25) {
        case.p.insert("nobody".into(), "1".into());
    }
    if c.t.chance(50) {
        case.p.insert("alone".into(), "1".into());
    }
    Some(case)
}

pub(crate) fn format_bytes(b: &[u8], cfg: Option<Cfg>) -> Result<String, String> {
    let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    fmt::format(s, cfg.ok_or("bad config")?)
}

/// small changes, among them some that keep the length or the number of lines
fn edited(text: &[u8], how: usize) -> Vec<u8> {
    let mut t = text.to_vec();
    let all = |b: u8| -> Vec<usize> { (1..text.len().saturating_sub(1)).filter(|i| text[*i] == b).collect() };
    let (blanks, ends) = (all(b' '), all(b'\n'));
    match how {
        // a blank moves from one gap of a line to another: same length, same lines
        1..=4 if blanks.len() > 1 => {
            for j in 0..blanks.len() {
                let j = (j + how * 7 + text.len()) % blanks.len();
                let (a, b) = (blanks[j], blanks[(j + how) % blanks.len()]);
                let single = |i: usize| text[i - 1].is_ascii_alphanumeric() && !text[i + 1].is_ascii_alphanumeric() || !text[i - 1].is_ascii_alphanumeric() && text[i - 1] > b' ';
                if a < b && single(a) && !text[a..b].contains(&b'\n') && !text[a..b].contains(&b'\'') {
                    t.insert(b, b' ');
                    t.remove(a);
                    return t;
                }
            }
        }
        5 if !blanks.is_empty() => t[blanks[text.len() % blanks.len()]] = b'\t',
        6 if !blanks.is_empty() => t.insert(blanks[text.len() % blanks.len()], b' '),
        7 if !ends.is_empty() => t.insert(ends[text.len() % ends.len()], b'\r'),
        8 if !ends.is_empty() => t.insert(ends[text.len() % ends.len()], b' '),
        9 if !ends.is_empty() => t.insert(ends[text.len() % ends.len()], b'\n'),
        10 if !ends.is_empty() => t[ends[text.len() % ends.len()]] = b' ',
        11 => {
            t.pop();
        }
        _ => t.extend_from_slice(b"\n\n// edited   \n"),
    }
    t
}

/// runs a history of tool invocations and edits against a model of the directory
fn history(c: &Case, judge_output: bool) -> Out {
    let dir = Scratch::new();
    let root = dir.path("work");
    use std::os::unix::fs::PermissionsExt;
    for d in ["sub/deep", "sub/cfg", "cfg", "home/.config/afmt"] {
        std::fs::create_dir_all(root.join(d)).expect("dir");
    }
    let nobody = if c.get("nobody") == "1" { unprivileged() } else { None };
    let mut modes: BTreeMap<usize, u32> = BTreeMap::new();
    let names: Vec<&str> = c.get("names").split('\n').collect();
    let kinds: Vec<&str> = c.get("kinds").split(',').collect();
    let mut real: Vec<PathBuf> = vec![];
    for (k, (n, kind)) in names.iter().zip(&kinds).enumerate() {
        let p = root.join(n);
        let text = &c.alt[k];
        let mut r = p.clone();
        match *kind {
            "missing" => {}
            "dir" => std::fs::create_dir_all(&p).expect("dir"),
            "utf8" => std::fs::write(&p, [text.as_bytes(), b"// \xff\xfe\n"].concat()).expect("write"),
            "symlink" => {
                r = root.join(format!("target{}", k));
                std::fs::write(&r, text).expect("write");
                std::os::unix::fs::symlink(&r, &p).expect("link");
            }
            "hardlink" => {
                std::fs::write(&p, text).expect("write");
                std::fs::hard_link(&p, root.join(format!("other{}", k))).expect("link");
            }
            k2 => {
                std::fs::write(&p, text).expect("write");
                let mode = match k2 {
                    "ro" if nobody.is_some() => 0o444,
                    "noread" if nobody.is_some() => 0o200,
                    "exec" => 0o755,
                    "private" => 0o600,
                    _ => 0o644,
                };
                modes.insert(k, mode);
            }
        }
        real.push(r);
    }
    for k in 0..CFGS.len() {
        // the same name in several directories: only the one that is named counts
        for (i, d) in ["cfg", ".", "sub", "sub/cfg", "sub/deep"].iter().enumerate() {
            std::fs::write(root.join(format!("{}/{}.toml", d, k)), CFGS[(k + i) % CFGS.len()]).expect("write");
        }
    }
    for d in ["", "sub", "sub/deep"] {
        decoys(&root.join(d));
    }
    // with and without company
    if c.get("alone") != "1" {
        for (n, kind) in names.iter().zip(&kinds) {
            if *kind != "missing" {
                neighbours(&root, n);
            }
        }
    }
    if nobody.is_some() {
        for (p, e) in snapshot(&root) {
            if !matches!(e, Ent::Link(_)) {
                let _ = std::os::unix::fs::chown(&p, Some(NOBODY), Some(NOBODY));
            }
        }
    }
    for (k, m) in &modes {
        std::fs::set_permissions(&real[*k], std::fs::Permissions::from_mode(*m)).expect("mode");
    }
    let mut log = vec![];
    let mut wrote = 0;
    let mut refused = 0;
    let mut agreed = 0;
    for op in c.get("ops").split('\n') {
        let f: Vec<&str> = op.split(' ').collect();
        let (op, k, cf, sp) = (f[0], f[1].parse::<usize>().unwrap(), f[2].parse::<i32>().unwrap(), f[3]);
        let (cwd, style, place) = (f.get(4).copied().unwrap_or("0"), f.get(5).copied().unwrap_or("0"), f.get(6).copied().unwrap_or("0"));
        let cwd = ["", "sub", "sub/deep"][cwd.parse::<usize>().unwrap_or(0)];
        let up = ["", "../", "../../"][if cwd.is_empty() { 0 } else { cwd.split('/').count() }];
        let is_file = real[k].is_file();
        let text = if is_file { std::fs::read(&real[k]).unwrap_or_default() } else { vec![] };
        log.push(format!("{} {} cfg={}", op, names[k], cf));
        match op {
            "edit" => {
                if is_file {
                    let how = sp.parse::<usize>().unwrap_or(0) + 3 * style.parse::<usize>().unwrap_or(0);
                    std::fs::write(&real[k], edited(&text, how)).expect("write");
                }
                continue;
            }
            "break" => {
                if is_file {
                    let cut = text.len() / 2;
                    std::fs::write(&real[k], &text[..cut]).expect("write");
                }
                continue;
            }
            "swap" => {
                if is_file {
                    std::fs::write(&real[k], &c.alt[(k + 1) % c.alt.len()]).expect("write");
                }
                continue;
            }
            _ => {}
        }
        let cfg_path = match (cf >= 0, place) {
            (false, _) => String::new(),
            (_, "1") => root.join(format!("cfg/{}.toml", cf)).to_string_lossy().to_string(),
            (_, "2") => format!("{}.toml", cf),
            (_, "3") if cwd != "sub/deep" => format!("cfg/{}.toml", cf),
            _ => format!("{}cfg/{}.toml", up, cf),
        };
        let cfg = if cf < 0 {
            Some(Cfg { width: 80, indent: 2 })
        } else {
            std::fs::read(root.join(cwd).join(&cfg_path)).ok().and_then(|t| config_model(&t))
        };
        let inside = names[k].strip_prefix(cwd).and_then(|n| n.strip_prefix('/'));
        let path = match (sp, inside) {
            ("2", _) => root.join(names[k]).to_string_lossy().to_string(),
            ("1", Some(n)) if !cwd.is_empty() => format!("./{}", n),
            (_, Some(n)) if !cwd.is_empty() => n.to_string(),
            ("1", _) => format!("./{}{}", up, names[k]),
            _ => format!("{}{}", up, names[k]),
        };
        let dash = path.starts_with('-');
        let joined = [format!("--config={}", cfg_path), format!("-c{}", cfg_path)];
        let mut args: Vec<&str> = vec![];
        match op {
            "write" => args.push("-w"),
            "wtime" => args.extend([&["--write", "--time"][..], &["-wt"], &["-t", "-w"], &["--time", "-w"]][style.parse::<usize>().unwrap_or(0)]),
            "check" => args.push(if style == "1" { "-C" } else { "--check" }),
            "dtime" => args.push("-t"),
            "both" => args.extend(["-w", "-C"]),
            "ctime" => args.extend([&["--check", "--time"][..], &["-tC"], &["-t", "--check"], &["-Ct"]][style.parse::<usize>().unwrap_or(0)]),
            "btime" => args.extend(["-C", "--time", "--write"]),
            _ => {}
        }
        if cf >= 0 {
            match style {
                "1" => args.extend(["--config", &cfg_path]),
                "2" => args.push(&joined[0]),
                "3" => args.push(&joined[1]),
                _ => args.extend(["-c", &cfg_path]),
            }
        }
        if dash {
            args.extend(["--", &path]);
        } else if sp == "1" {
            args.push(&path);
        } else {
            args.insert(0, &path);
        }
        let before = snapshot(&root);
        let r = match nobody {
            Some(bin) => run_as(true, bin, &root.join(cwd), &args),
            None => run_as(false, &afmt(), &root.join(cwd), &args),
        };
        let Some(r) = r else { return Out::Discard("the process could not be started".into()) };
        let after = snapshot(&root);
        let ctx = |m: &str| format!("{}\nhistory: {}\nargs: {:?}\nexit {:?}\nstderr: {}", m, log.join("; "), args, r.code, fmt::plain(&String::from_utf8_lossy(&r.err)));
        let Some(code) = r.code else { return fail("the tool was killed by a signal", ctx("")) };
        let denied = nobody.is_some() && (kinds[k] == "noread" || (kinds[k] == "ro" && matches!(op, "write" | "wtime")));
        let res = if matches!(op, "both" | "btime") || !is_file || denied { Err("".into()) } else { format_bytes(&text, cfg) };
        let mut want = before.clone();
        let writes = matches!(op, "write" | "wtime");
        if let (true, Ok(v)) = (writes, &res) {
            // all names of the written file
            let ino = match &before[&real[k]] {
                Ent::File { ino, .. } => *ino,
                _ => 0,
            };
            for (p, e) in want.iter_mut() {
                if let Ent::File { bytes, mtime, ino: i, .. } = e {
                    if *i == ino {
                        *bytes = v.clone().into_bytes();
                        if let Some(Ent::File { mtime: m, ino: i2, .. }) = after.get(p) {
                            *mtime = *m;
                            *i = *i2;
                        }
                    }
                }
            }
            // a tool that replaces the file instead of overwriting it would leave other hard links alone: allowed
            for (p, e) in after.iter() {
                if kinds[k] == "hardlink" && *p != real[k] && before.get(p) == Some(e) {
                    want.insert(p.clone(), e.clone());
                }
            }
            wrote += 1;
        }
        if let Some(d) = disk_diff(&want, &after) {
            let sig = match (&res, writes) {
                (Err(_), _) => "a refused file or another file was modified",
                (Ok(_), true) => "write did not store exactly the formatted text",
                (Ok(_), false) => "a run without --write modified the disk",
            };
            return fail(sig, ctx(&d));
        }
        let ok = match (&res, op) {
            (Err(_), _) => false,
            (Ok(v), "check" | "ctime") => v.as_bytes() == text,
            _ => true,
        };
        if ok != (code == 0) {
            return fail(
                format!("{} exits {} where {} is due", if matches!(op, "check" | "ctime") { "--check" } else { "the tool" }, if code == 0 { "0" } else { "non-zero" }, if ok { "0" } else { "non-zero" }),
                ctx(""),
            );
        }
        if res.is_err() {
            refused += 1;
        } else {
            agreed += 1;
        }
        if judge_output {
            if let (Ok(v), "dry" | "dtime") = (&res, op) {
                let out = String::from_utf8_lossy(&r.out);
                let good = if op == "dry" { *out == *v || *out == format!("{}\n", v) } else { out.starts_with(v.as_str()) };
                if !good {
                    return fail("the preview is not the formatted text", ctx(&checks::first_diff(&out, v)));
                }
            }
            if !ok && r.err.is_empty() {
                return fail("failure without a message on stderr", ctx(""));
            }
            if res.is_err() && writes && String::from_utf8_lossy(&r.out).contains("written back") {
                return fail("success is reported for a refused file", ctx(""));
            }
        }
    }
    if judge_output {
        Out::Pass { nontrivial: agreed >= 3 }
    } else {
        Out::Pass { nontrivial: wrote + refused >= 2 }
    }
}

fn d_c15(c: &Case) -> Out {
    history(c, false)
}
fn d_c16(c: &Case) -> Out {
    history(c, true)
}

/// every mode on one file, then write and every mode again
fn gen_modes(c: &mut Ctx) -> Option<Case> {
    if c.t.chance(35) {
        return gen_history(c);
    }
    let (s, what) = contents(c);
    c.labels.push(format!("content.{}", what));
    let cfg: i32 = if c.t.chance(50) { c.t.pick(5) as i32 } else { -1 };
    let mut case = Case::new(c.prop, String::new());
    case.alt = vec![s];
    case.p.insert("names".into(), NAMES[c.t.pick(NAMES.len())].into());
    case.p.insert("kinds".into(), "file".into());
    // one configuration and one directory throughout; spellings of the options and of the path vary
    let (cwd, place) = (c.t.pick(3), c.t.pick(4));
    let ops: Vec<String> = ["dry", "check", "dtime", "ctime", "write", "check", "ctime", "dry", "write", "check", "edit", "check", "wtime", "edit", "check", "write", "edit", "check", "ctime"]
        .iter()
        .map(|o| format!("{} 0 {} {} {} {} {}", o, cfg, c.t.pick(3), cwd, c.t.pick(4), place))
        .collect();
    case.p.insert("ops".into(), ops.join("\n"));
    Some(case)
}

// ------------------------------------------------------------------ C17 configuration

/// keys that other tools have
const FOREIGN: &[&str] = &[
    "indent_style", "max-width", "MAX_WIDTH", "width", "Indent_Size", "a.b", "tab_width", "tab_size", "tabWidth", "indent", "indentSize", "indent-size", "indent_width", "indentation", "shiftwidth",
    "maxWidth", "line_width", "lineWidth", "max_line_length", "print_width", "printWidth", "line_length", "column_limit", "columns", "use_tabs", "hard_tabs", "afmt.max_width", "format.indent_size",
    "max_width_", "'max_width '", "\"indent size\"", "max", "size",
];

fn gen_config(c: &mut Ctx) -> Option<Case> {
    let toks = c.program(&P { corpus: 40, fuel: 50, long: 30, ..P::default() });
    let src = c.render(&toks, &Layout { ws: 1, ..Default::default() });
    let mut t = String::new();
    let val = |c: &mut Ctx, indent: bool| -> String {
        if c.t.chance(65) {
            let n = if indent { [2u32, 4, 1, 3, 8, 16, 5, 7, 10, 33, 100, 300][c.t.pick(12)] } else { [80u32, 100, 40, 120, 60, 20, 1, 99, 200, 5000, 81, 79, 256, 1000, 70_000, u32::MAX][c.t.pick(16)] };
            return match c.t.pick(6) {
                0 => format!("0x{:x}", n),
                1 => format!("+{}", n),
                2 => format!("0b{:b}", n),
                _ => format!("{}", n),
            };
        }
        ["0", "-1", "-80", "4294967296", "99999999999999999999", "8.0", "\"80\"", "true", "[80]", "{ a = 1 }", "1979-05-27", "1_0", "", "nan", "080", "'2'", "1e2"]
            [c.t.pick(17)]
        .to_string()
    };
    for _ in 0..c.t.pick(5) {
        let line = match c.t.pick(14) {
            0..=3 => format!("max_width = {}", val(c, false)),
            4..=7 => format!("indent_size = {}", val(c, true)),
            8 => "# a comment".into(),
            9 => {
                let v = val(c, false);
                match crate::dict::get().name(&mut c.t, 60) {
                    Some(n) => format!("{n} = {v}"),
                    None => format!("{} = {}", FOREIGN[c.t.pick(FOREIGN.len())], v),
                }
            }
            10 => ["[section]", "[a.b]", "[[t]]"][c.t.pick(3)].into(),
            11 => String::new(),
            12 => format!("\"max_width\" = {} # c", val(c, false)),
            _ => ["max_width", "= 3", "max_width 80", "]", "max_width = 80 indent_size = 2", "\u{1}"][c.t.pick(6)].into(),
        };
        t.push_str(&line);
        t.push_str(["\n", "\n", "\r\n"][c.t.pick(3)]);
    }
    let mode = ["file", "file", "file", "file", "file", "none", "none", "missing", "dir", "utf8"][c.t.pick(10)];
    c.labels.push(format!("config.{}", mode));
    c.labels.push(format!("config valid: {}", config_model(t.as_bytes()).is_some()));
    let mut case = Case::new(c.prop, src);
    case.p.insert("toml".into(), t);
    case.p.insert("mode".into(), mode.into());
    case.p.insert("write".into(), if c.t.chance(50) { "1" } else { "0" }.into());
    Some(case)
}

fn d_c17(c: &Case) -> Out {
    let dir = Scratch::new();
    let root = dir.path("work");
    std::fs::create_dir_all(&root).expect("dir");
    std::fs::write(root.join("a.cls"), &c.src).expect("write");
    decoys(&root);
    let text = c.get("toml");
    let mode = c.get("mode");
    // the name of the file means nothing
    let names = ["my conf.toml", "my conf.toml", ".afmt.toml", "sub/.afmt.toml", "afmt.toml", "conf", ".afmt.toml.bak", "./.afmt.toml", "x.json", "default", "none.toml", "\"c.toml\"", "'c.toml'", " c.toml "];
    let new: Vec<&str> = crate::dict::get().words.iter().map(|w| w.trim_start_matches('/')).filter(|w| w.len() > 3 && w.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)) && !w.starts_with(['-', '.']) && !w.ends_with(".cls")).collect();
    let pick = c.src.len() + 7 * text.len();
    let mut name = if !new.is_empty() && pick % 3 == 0 { new[pick / 3 % new.len()] } else { names[pick / 3 % names.len()] };
    let _ = std::fs::create_dir_all(root.join("sub"));
    let at = root.join(name);
    let _ = if at.is_dir() { std::fs::remove_dir_all(&at) } else { std::fs::remove_file(&at) };
    let want = match mode {
        "none" => {
            // a file that is not named is not read
            if text.len() % 2 == 0 {
                name = ".afmt.toml";
                std::fs::write(root.join(name), text).expect("write");
            }
            Some(Cfg { width: 80, indent: 2 })
        }
        "missing" => None,
        "dir" => {
            std::fs::create_dir_all(root.join(name)).expect("dir");
            None
        }
        "utf8" => {
            std::fs::write(root.join(name), b"max_width = 80 # \xff\n").expect("write");
            None
        }
        _ => {
            std::fs::write(root.join(name), text).expect("write");
            config_model(text.as_bytes())
        }
    };
    // the library reads the same numbers
    let at = root.join(name).to_string_lossy().to_string();
    let read = std::panic::catch_unwind(|| fmt::read_config((mode != "none").then_some(at.as_str()))).unwrap_or(None);
    // (an indent_size of 0 is refused when it is used)
    if read != want.as_ref().map(|c| (c.width, c.indent)) && !(want.is_none() && matches!(read, Some((_, 0)))) {
        return fail("the library reads other settings from the file", format!("config ({}): {:?}\nexpected {:?}, read {:?}", mode, text, want, read));
    }
    if let Some(w) = &want {
        if fmt::new_config(w.width) != (w.width, 2) {
            return fail("Config::new has other settings", format!("width {}: {:?}", w.width, fmt::new_config(w.width)));
        }
    }
    let mut args = vec!["a.cls"];
    if mode != "none" {
        args.extend(["--config", name]);
    }
    let write = c.get("write") == "1";
    if write {
        args.push("-w");
    }
    let r = run(&root, &args);
    let now = std::fs::read_to_string(root.join("a.cls")).unwrap_or_default();
    let err = fmt::plain(&String::from_utf8_lossy(&r.err));
    let ctx = |m: &str| format!("{}\nconfig ({}): {:?}\nexpected {:?}\nargs {:?} exit {:?}\nstderr: {}", m, mode, text, want, args, r.code, err);
    let Some(code) = r.code else { return fail("the tool was killed by a signal", ctx("")) };
    match want {
        None => {
            if code == 0 {
                return fail("an unusable configuration is accepted", ctx(""));
            }
            if now != c.src {
                return fail("the file was changed with an unusable configuration", ctx(""));
            }
            if r.err.is_empty() {
                return fail("failure without a message on stderr", ctx(""));
            }
            Out::Pass { nontrivial: true }
        }
        Some(cfg) => match fmt::format(&c.src, cfg) {
            Ok(v) => {
                if code != 0 {
                    return fail("a usable configuration is refused", ctx(""));
                }
                let got = if write { now } else { String::from_utf8_lossy(&r.out).trim_end_matches('\n').to_string() + "\n" };
                let v = v.trim_end_matches('\n').to_string() + "\n";
                if got != v {
                    return fail("the settings of the configuration file are not the ones used", ctx(&checks::first_diff(&got, &v)));
                }
                // the settings seen without the formatter's help: a field that fits exactly, and one that does not
                if let Some(o) = probe(&root, &args, cfg) {
                    return o;
                }
                let d = fmt::format(&c.src, Cfg { width: 80, indent: 2 });
                Out::Pass { nontrivial: mode == "none" || d.map_or(true, |d| d.trim_end_matches('\n') != v.trim_end_matches('\n')) }
            }
            Err(_) => {
                if code == 0 {
                    return fail("the tool accepts what the library refuses", ctx(""));
                }
                Out::Discard("refused by the tool (C14 decides refusals)".into())
            }
        },
    }
}

/// the tool on an invalid source: it fails, and the file stays as it is
pub fn refused(src: &str, how: usize, cfg: Cfg) -> Option<Out> {
    let dir = Scratch::new();
    let root = dir.path("work");
    std::fs::create_dir_all(&root).expect("dir");
    let name = ["a.cls", "a.trigger", "anon.apex", "x y.txt"][how / 8 % 4];
    std::fs::write(root.join(name), src).expect("write");
    std::fs::write(root.join("c.toml"), format!("max_width = {}\nindent_size = {}\n", cfg.width, cfg.indent)).expect("write");
    let mut args = vec![name];
    args.extend([&[][..], &["-w"], &["--check"], &["--time"], &["-w", "--time"], &["-t", "-C"], &["-c", "c.toml"], &["-w", "-c", "c.toml", "-t"]][how % 8]);
    let r = run(&root, &args);
    let ctx = |m: &str| format!("{m}\nargs {:?} exit {:?}\nstdout: {}\nstderr: {}\nsource: {:?}", args, r.code, String::from_utf8_lossy(&r.out), fmt::plain(&String::from_utf8_lossy(&r.err)), src);
    if r.code == Some(0) {
        return Some(fail("the tool succeeds on invalid source", ctx("")));
    }
    if r.code.is_none() {
        return Some(fail("the tool is killed by a signal on invalid source", ctx("")));
    }
    if std::fs::read(root.join(name)).unwrap_or_default() != src.as_bytes() {
        return Some(fail("an invalid source was changed on disk", ctx("")));
    }
    if r.err.is_empty() {
        return Some(fail("a refusal without a message", ctx("")));
    }
    None
}

/// an initializer of exactly max_width columns stays on its line and one of a column more does not, both behind indent_size blanks
fn probe(root: &Path, args: &[&str], cfg: Cfg) -> Option<Out> {
    let (w, i) = (cfg.width as usize, cfg.indent as usize);
    if i > 2000 {
        return None;
    }
    let frame = i + "F f = g(, bb);".len();
    let mut lens = vec![];
    if w <= 8000 && w > frame + 1 {
        lens.extend([(w - frame, true), (w - frame + 1, false)]);
    } else if w > 8000 {
        lens.push((3000, true));
    } else {
        lens.push((3, false));
    }
    for (n, flat) in lens {
        let src = format!("class P {{\nF f = g({}, bb);\n}}\n", "a".repeat(n));
        std::fs::write(root.join("a.cls"), &src).expect("write");
        let r = run(root, args);
        let got = if args.contains(&"-w") { std::fs::read_to_string(root.join("a.cls")).unwrap_or_default() } else { String::from_utf8_lossy(&r.out).to_string() };
        let line = got.lines().nth(1).unwrap_or("");
        let lead = line.len() - line.trim_start_matches(' ').len();
        let why = if r.code != Some(0) {
            "a usable configuration is refused"
        } else if lead != i {
            "the indent_size of the configuration is not the one used"
        } else if flat != line.ends_with("bb);") {
            "the max_width of the configuration is not the one used"
        } else {
            continue;
        };
        return Some(fail(why, format!("{:?} args {:?}\nsource: {}\noutput: {}", cfg, args, src.chars().take(300).collect::<String>(), got.chars().take(600).collect::<String>())));
    }
    None
}

fn base(id: &'static str, rule: &'static str, quick: u64, thorough: u64, gen: fn(&mut Ctx) -> Option<Case>, decide: fn(&Case) -> Out) -> Check {
    Check { id, rule, quick, thorough, chunk: 20, tapes: (300, 400, 192), shrink_text: false, gen, decide }
}

pub fn c15() -> Check {
    base("C15", "a history in which two or more runs wrote a file or refused one", 2_000, 60_000, gen_history, d_c15)
}
pub fn c16() -> Check {
    base("C16", "three or more runs on files the tool accepts", 1_500, 50_000, gen_modes, d_c16)
}
pub fn c17() -> Check {
    base("C17", "the configuration is unusable, or its settings change the output, or it must be ignored", 4_000, 120_000, gen_config, d_c17)
}
