//! Layout: turns a token sequence into source text under a layout policy driven by a tape.
use crate::gen::{Tape, Tok, K};

#[derive(Clone, Debug)]
pub struct Layout {
    /// 0 canonical single spaces / newlines at boundaries, 1 random white space, 2 compact, 3 one token per line
    pub ws: u32,
    /// percent of boundary gaps that get at least one blank line (0 = none)
    pub blanks: u32,
    /// percent of gaps which get comments
    pub comments: u32,
    /// restrict comments to statement/member boundaries and edges
    pub comments_at_boundaries_only: bool,
    /// every comment on lines of its own
    pub own_lines: bool,
    /// mutate keyword case
    pub kw_case: bool,
    pub crlf: bool,
    pub ascii: bool,
    /// blank lines exactly at these boundary gaps (overrides `blanks`)
    pub blank_at: Option<Vec<bool>>,
    /// percent of the other gaps that get a blank line (where it has to mean nothing)
    pub wild: u32,
    /// percent of the gaps in front of else, catch, finally and the while of a loop that get a note on the line before
    pub clauses: u32,
}

impl Default for Layout {
    fn default() -> Self {
        Layout {
            ws: 0,
            blanks: 0,
            comments: 0,
            comments_at_boundaries_only: false,
            own_lines: false,
            kw_case: false,
            crlf: false,
            ascii: false,
            blank_at: None,
            wild: 0,
            clauses: 0,
        }
    }
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$'
}

pub fn needs_space(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().last(), b.chars().next()) else {
        return false;
    };
    if is_word(x) && is_word(y) {
        return true;
    }
    if y == '.' && (x.is_ascii_digit() || b.len() > 1) {
        return true;
    }
    if x == '.' && y.is_ascii_digit() {
        return true;
    }
    if x == '?' && y == '.' {
        return true;
    }
    const OPS: &str = "+-*/%&|^<>=!?~:";
    if OPS.contains(x) && OPS.contains(y) {
        return !(x == '>' && b == ">");
    }
    false
}

pub fn mutate_case(s: &str, t: &mut Tape) -> String {
    match t.pick(4) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => {
            let bits = t.next();
            s.chars()
                .enumerate()
                .map(|(i, c)| if bits >> (i % 32) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                .collect()
        }
    }
}

fn inner_ws(s: &str, t: &mut Tape, l: &Layout) -> String {
    if !s.contains(' ') || l.ws != 1 {
        return s.to_string();
    }
    let sep = match t.pick(5) {
        0 | 1 => " ",
        2 => "  ",
        3 => "\n",
        _ => " \n\t",
    };
    s.replace(' ', sep)
}

/// a run of blanks that does not fit into any small number
fn far(t: &mut Tape) -> String {
    let n = [70, 130, 255, 256, 300, 1000, 4096, 5000, 20000, 70000][t.pick(10)];
    let s = [" ", "\t", " "][t.pick(3)].repeat(n);
    match t.pick(3) {
        0 => s + "\n",
        1 => format!("\n{}", s),
        _ => s,
    }
}

/// many empty lines
fn deep(t: &mut Tape) -> String {
    "\n".repeat([10, 100, 255, 256, 257, 300, 1000, 70000][t.pick(8)])
}

fn gen_ws(t: &mut Tape) -> &'static str {
    match t.pick(12) {
        0..=4 => " ",
        5 => "",
        6 => "  ",
        7 => "\t",
        8 => "\n",
        9 => "\n    ",
        10 => "   \n",
        _ => "\n\t\t",
    }
}

pub fn comment_text(t: &mut Tape, idx: usize, ascii: bool) -> (String, bool) {
    let uni = if ascii { "u" } else { "é世" };
    let line = |s: String| (format!("//{}", s), true);
    if let Some(w) = crate::dict::get().raw(t, 6) {
        if !w.contains("*/") && !w.contains(['\r', '\t']) && (w.is_ascii() || !ascii) {
            return (format!("/* {}{} */", w, if w.ends_with('/') { " " } else { "" }), false);
        }
    }
    if let Some(w) = crate::dict::get().word(t, 12) {
        if !w.contains('\n') && !w.contains("*/") && (w.is_ascii() || !ascii) {
            let w = w.trim_start_matches("//").to_string();
            return match t.pick(7) {
                0 | 1 => line(w),
                2 => line(format!(" {} c{}", w, idx)),
                3 => line(format!("{} c{}", w, idx)),
                4 => (format!("/* {} */", w.trim_start_matches("/*")), false),
                5 => (format!("/**\n * {}\n */", w.trim_start_matches("/*")), false),
                _ => (format!("/*\n   {} c{}\n */", w.trim_start_matches("/*"), idx), false),
            };
        }
    }
    match t.pick(42) {
        // lines of markup, anything next to anything
        40 | 41 => {
            const ATOMS: &[&str] = &[
                " ", " ", "-", "*", "@", "{", "}", "<p>", "/", "\\", "#", ":", ".", "\"", "'", "`", "x", "1", "TODO", "  ", "//", "=", "|", "~", "!", "$", ";", "(", ")", "param",
            ];
            let rows = 1 + t.pick(5);
            let mut text = vec![];
            for _ in 0..rows {
                let n = t.pick(9);
                let row: String = (0..n).map(|_| ATOMS[t.pick(ATOMS.len())]).collect();
                text.push(row);
            }
            match t.pick(5) {
                0 | 1 => line(text[0].clone()),
                k => {
                    let open = ["/**\n", "/*\n", "/**"][k - 2];
                    let lead = [" * ", " *", "", "   "][t.pick(4)];
                    let body: String = text.iter().map(|r| format!("{}{}\n", lead, r)).collect();
                    (format!("{}{} */", open, format!("{} c{}\n", body, idx).replace("*/", "* /").trim_start_matches('/')), false)
                }
            }
        }
        // long texts of letters of every width
        38 | 39 => {
            let n = 20 + t.pick(130);
            let mut s = String::new();
            for i in 0..n {
                let k = t.pick(9);
                s.push(match k {
                    0 if !ascii => 'é',
                    1 if !ascii => '世',
                    2 if !ascii => '😀',
                    3 if i > 0 => ' ',
                    _ => (b'a' + (i % 26) as u8) as char,
                });
            }
            let s = format!("{}c{}", s.trim_end(), idx);
            match t.pick(4) {
                0 | 1 => line(s),
                2 => (format!("/*{}*/", s), false),
                _ => (format!("/** {}\n * {}\n */", s, s), false),
            }
        }
        // many lines, some of them empty
        36 | 37 => {
            let n = [3, 5, 9, 10, 12, 20, 40, 120][t.pick(8)];
            let doc = t.chance(70);
            let mut s = format!("/*{}\n", if doc { "*" } else { "" });
            for i in 0..n {
                s.push_str(match t.pick(8) {
                    0 => "\n",
                    1 => " *\n",
                    2 => "*\n",
                    3 => "   \n",
                    4 => " * a line of text\n",
                    5 => "text\n",
                    6 => "\t *   @param x y\n",
                    _ => "      * - item\n",
                });
                if i == n / 2 {
                    s.push_str(&format!(" * c{}\n", idx));
                }
            }
            s.push_str([" */", "*/", " **/", " end */"][t.pick(4)]);
            (s, false)
        }
        // banners
        34 | 35 => {
            let n = [2, 3, 4, 5, 6, 8, 12, 20, 37, 60, 76, 78, 80, 120][t.pick(14)];
            let mark = ["/", "*", "-", "=", "#", "~", "/*", "_", ". ", "+", "* "][t.pick(11)];
            let run = mark.repeat(n);
            let tail = [String::new(), format!(" c{}", idx), format!("c{} {}", idx, run)][t.pick(3)].clone();
            let inner = run.replace("*/", "* ").replace("/*", " *");
            match t.pick(4) {
                0 | 1 => line(format!("{}{}", run, tail)),
                2 if mark != "/" => (format!("/*{}{}*/", inner.trim_end_matches('/'), tail.replace("*/", "* ").trim_end_matches('/')), false),
                _ if mark != "/" => (format!("/*{}\n * c{}\n {}*/", inner.trim_end_matches('/'), idx, inner.trim_start_matches('/')), false),
                _ => line(run),
            }
        }
        // characters that tools like to replace
        33 if !ascii => {
            let o = crate::gen::ODD[t.pick(crate::gen::ODD.len())];
            if t.chance(50) {
                line(format!(" c{}{}x", idx, o))
            } else {
                (format!("/* c{}{}x\n {}y */", idx, o, o), false)
            }
        }
        // tags of tools and tasks, with and without a blank
        30 => {
            const TAGS: &[&str] = &[
                "TODO", "FIXME", "NOPMD", "HACK", "XXX", "NOSONAR", "region", "#region", "#endregion", "prettier-ignore",
                "@formatter:off", "<editor-fold>", "===", "---", "!", "$", "https://a.b/c", "if (a) { b(); }", "\\", "...",
            ];
            let tag = TAGS[t.pick(TAGS.len())];
            let sep = [" ", "", ": ", "  ", ":"][t.pick(5)];
            match t.pick(4) {
                0 => line(format!("{}{}c{}", tag, sep, idx)),
                1 => line(format!("{}", tag)),
                2 => line(format!(" {}{}c{}", tag, sep, idx)),
                _ => (format!("/*{}{}c{}*/", tag.trim_start_matches('!'), sep, idx), false),
            }
        }
        // any printable text
        31 | 32 => {
            let n = 1 + t.pick(14);
            let mut s = String::new();
            for _ in 0..n {
                s.push((32 + t.pick(95) as u8) as char);
            }
            if t.chance(60) {
                line(s)
            } else {
                let s = s.replace("*/", "* ").trim_end_matches('*').trim_start_matches('*').to_string();
                (format!("/*{}{}*/", if s.starts_with('/') { " " } else { "" }, s), false)
            }
        }
        // the same text more than once, empty comments, unusual contents
        20 => line([" same", "", "/", " ", "//", "*", "/*"][t.pick(7)].to_string()),
        21 => (["/**/", "/* same */", "/***/", "/* */", "/** */", "/****/", "/*/ x */"][t.pick(7)].to_string(), false),
        22 => (format!("/**\n * c{}  two  blanks\n *\n\n *   list\n * * star\n */", idx), false),
        23 => line(format!(" c{} {}", idx, "long words ".repeat(12).trim_end())),
        24 => (format!("/* c{}   {}  end */", idx, "long words ".repeat(12)), false),
        25 => line(format!(" c{}\ttab  http://x.y/z?a=b&c {}", idx, uni)),
        26 => (format!("/*\n * c{}\n *\n *  boxed {}\n */", idx, uni), false),
        27 => (format!("/** **c{}** text\n * * item\n * **\n *** x\n */", idx), false),
        28 => (format!("/** * c{} */", idx), false),
        29 => ([format!("/*** c{}\n * x\n ***/", idx), "/** **/".into(), "/*** x **/".into(), "/** ***/".into()][t.pick(4)].clone(), false),
        14 => (format!("/** c{} **/", idx), false),
        15 => (format!("/* * c{} *\n * */", idx), false),
        16 => (format!("/**\n\n * c{} {{@code x}}\n *\n * <p>y;\n **/", idx), false),
        17 => line(format!("/ c{}", idx)),
        18 => line(format!("   c{}   ", idx)),
        19 => (format!("/*\n\tc{}\n\n  */", idx), false),
        0 | 1 | 2 => line(format!(" c{}", idx)),
        3 => line(format!("c{}", idx)),
        4 => line(format!(" c{} it's {{ ; }} \"q\" /* x", idx)),
        5 | 6 | 7 => (format!("/* c{} */", idx), false),
        8 => (format!("/*c{}*/", idx), false),
        9 => (format!("/* c{} 'x' // y ; {{ {} */", idx, uni), false),
        10 => (format!("/* c{}\n   second line\n */", idx), false),
        11 => (format!("/**\n * c{} doc\n * @param x {}\n */", idx, uni), false),
        12 => (format!("/** c{} */", idx), false),
        _ => (format!("/**\n  c{} indented\n\n     * more\n  text */", idx), false),
    }
}

pub struct Rendered {
    pub text: String,
    pub n_comments: usize,
    pub n_blank: usize,
}

pub fn render(toks: &[Tok], l: &Layout, tape: &[u32]) -> Rendered {
    let mut t = Tape::new(tape);
    let mut out = String::new();
    let mut ncom = 0;
    let mut nblank = 0;
    let mut depth: usize = 0;
    let n = toks.len();
    for i in 0..=n {
        // gap before token i
        let prev = if i > 0 { Some(&toks[i - 1]) } else { None };
        let cur = toks.get(i);
        if let Some(c) = cur {
            if c.s == "}" {
                depth = depth.saturating_sub(1);
            }
        }
        let fixed = cur.map_or(false, |c| c.fixed || c.glued);
        let structural = cur.map_or(true, |c| c.boundary || c.edge) || i == 0;
        let boundary = cur.map_or(false, |c| c.boundary);
        let mut gap = String::new();
        if fixed {
            if cur.unwrap().fixed {
                gap.push(' ');
            }
        } else {
            match l.ws {
                0 => {
                    if structural && i > 0 {
                        gap.push('\n');
                        for _ in 0..depth {
                            gap.push_str("  ");
                        }
                    } else if let (Some(p), Some(c)) = (prev, cur) {
                        let tight = matches!(c.s.as_str(), "," | ";" | ")" | "." | "(" | "?." | "]" | "[")
                            || matches!(p.s.as_str(), "(" | "." | "?." | "[" | "@");
                        if !tight || needs_space(&p.s, &c.s) {
                            gap.push(' ');
                        }
                    }
                }
                1 => {
                    if i > 0 || t.chance(10) {
                        if structural && i > 0 && !t.chance(15) {
                            gap.push('\n');
                            for _ in 0..t.pick(6) {
                                gap.push(' ');
                            }
                        } else {
                            gap.push_str(gen_ws(&mut t));
                        }
                        if i > 0 && t.pick(3000) == 1 {
                            gap = far(&mut t);
                        }
                    }
                }
                2 => {
                    if structural && i > 0 && t.chance(0) {
                        gap.push('\n');
                    }
                }
                _ => {
                    if i > 0 {
                        gap.push('\n');
                    }
                }
            }
            let mut blank = boundary && l.blanks > 0 && t.chance(l.blanks);
            if let Some(v) = &l.blank_at {
                blank = boundary && v.get(i % v.len().max(1)).copied().unwrap_or(false);
            }
            if !boundary && i > 0 && l.wild > 0 && t.chance(l.wild) {
                gap = ["\n\n", "\n \n\t\n", "  \n\n  "][t.pick(3)].to_string();
                if t.pick(1000) == 1 {
                    gap = deep(&mut t);
                }
            }
            if blank {
                nblank += 1;
                let base = match t.pick(3) {
                    0 => "\n\n",
                    1 => "\n\n\n\n",
                    _ => "\n  \n \n",
                };
                gap = format!("{}{}", base, gap.trim_start_matches('\n'));
                if t.pick(400) == 1 {
                    gap = deep(&mut t);
                }
                if l.blank_at.is_some() {
                    gap = gap.replace('\t', " ");
                }
            }
            if l.comments > 0 && (!l.comments_at_boundaries_only || structural) && t.chance(if n == 0 { 70 } else { l.comments }) {
                let k = 1 + if t.chance(if n == 0 { 70 } else { 20 }) { 1 + if t.chance(25) { 1 + t.pick(5) } else { 0 } } else { 0 };
                // sometimes a whole block of them, each on its line (code that was commented out)
                let rows = k > 2 && t.chance(20);
                let k = if rows { 4 + t.pick(24) } else { k };
                let mut last: Option<(String, bool)> = None;
                for _ in 0..k {
                    // now and then the same comment twice in a row
                    let (c, is_line) = match last.take() {
                        Some(twin) if t.chance(10) => twin,
                        _ => comment_text(&mut t, ncom, l.ascii),
                    };
                    last = Some((c.clone(), is_line));
                    ncom += 1;
                    // where does the comment sit: own line, trailing, inline
                    let before = match if rows { 0 } else if l.own_lines { 2 * t.pick(2) } else { t.pick(4) } {
                        0 => "\n",
                        1 => " ",
                        2 => {
                            if structural && i > 0 && l.blanks > 0 && (boundary || l.blank_at.is_none()) {
                                ["\n\n", "\n\n\n", "\n \n\n\n"][t.pick(3)]
                            } else {
                                "\n  "
                            }
                        }
                        _ => {
                            if prev.map_or(false, |p| p.k == K::Op && p.s.ends_with(['/', '*'])) {
                                " "
                            } else {
                                ""
                            }
                        }
                    };
                    gap.push_str(before);
                    if l.ws == 1 && !before.is_empty() && t.pick(150) == 1 {
                        gap.push_str(&" ".repeat([60, 130, 255, 256, 300, 1000, 5000, 70000][t.pick(8)]));
                    }
                    // never let a preceding '/' or '*' fuse with the comment opener
                    if gap.is_empty() && out.ends_with(['/', '*']) {
                        gap.push(' ');
                    }
                    gap.push_str(&c);
                    if is_line {
                        gap.push('\n');
                    } else {
                        gap.push_str(match if l.own_lines || rows { 0 } else { t.pick(4) } {
                            0 => "\n",
                            1 => "",
                            _ => " ",
                        });
                    }
                }
            }
            if let (true, Some(p), Some(c)) = (l.clauses > 0 && !structural, prev, cur) {
                let word = matches!(c.s.to_ascii_lowercase().as_str(), "else" | "catch" | "finally" | "while");
                if word && matches!(p.s.as_str(), "}" | ";") && t.chance(l.clauses) {
                    gap = format!("{}// note {}\n", [" ", "", "  "][t.pick(3)], ncom);
                    ncom += 1;
                }
            }
            if gap.is_empty() {
                if let (Some(p), Some(c)) = (prev, cur) {
                    if needs_space(&p.s, &c.s) {
                        gap.push(' ');
                    }
                }
            }
        }
        if l.crlf {
            gap = gap.replace('\n', "\r\n");
        }
        out.push_str(&gap);
        if let Some(c) = cur {
            let mut s = c.s.clone();
            if c.k == K::Kw {
                if l.kw_case {
                    s = mutate_case(&s, &mut t);
                }
                s = inner_ws(&s, &mut t, l);
            }
            out.push_str(&s);
            if c.s == "{" {
                depth += 1;
            }
        }
    }
    Rendered { text: out, n_comments: ncom, n_blank: nblank }
}
