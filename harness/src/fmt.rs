//! Running the code under test.
use sf_afmt::formatter::{Config, Formatter};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub width: u32,
    pub indent: u32,
}

impl Cfg {
    pub fn to(self) -> Config {
        Config { max_width: self.width, indent_size: self.indent }
    }
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

/// without the colours of a terminal
pub fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Formats `src` on a thread of its own, with a stack of `kb` KiB.
pub fn format_on(src: &str, cfg: Cfg, kb: usize) -> Result<String, String> {
    let s = src.to_string();
    let h = std::thread::Builder::new()
        .stack_size(kb << 10)
        .spawn(move || {
            let r = std::panic::catch_unwind(|| Formatter::format_one(&s, cfg.to()));
            r.map_err(|e| plain(&payload(e)))
        })
        .expect("spawn");
    match h.join() {
        Ok(r) => r,
        Err(e) => Err(plain(&payload(e))),
    }
}

/// Formats `src` exactly as the tool does for one file: on a thread of its own.
pub fn format(src: &str, cfg: Cfg) -> Result<String, String> {
    format_on(src, cfg, 64 << 10)
}

/// the stack Rust gives to the threads of `Formatter::format`
pub fn format_default_stack(src: &str, cfg: Cfg) -> Result<String, String> {
    format_on(src, cfg, 2 << 10)
}

/// the settings the library reads: (max_width, indent_size)
pub fn read_config(path: Option<&str>) -> Option<(u32, u32)> {
    let f = sf_afmt::formatter::Formatter::create_from_config(path, vec!["a.cls".into()]).ok()?;
    Some((f.config().max_width, f.config().indent_size))
}

/// the settings of `Config::new`
pub fn new_config(width: u32) -> (u32, u32) {
    let c = sf_afmt::formatter::Config::new(width);
    (c.max_width, c.indent_size)
}
