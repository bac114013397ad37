//! Grammar-directed generator: decodes a choice tape (a vector of u32 produced and shrunk by
//! proptest) into an Apex program, as a token sequence.  Layout (white space, comments, keyword
//! case, blank lines) is a separate step, see render.rs.
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Word,  // identifier
    Kw,    // keyword, case-insensitive
    Num,
    Str,
    Op, // operator or punctuation
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub k: K,
    /// gap before this token separates two members / statements of one body
    pub boundary: bool,
    /// gap before this token directly follows the opening or precedes the closing brace of a body
    pub edge: bool,
    /// no comment may be placed in the gap before this token and the gap must stay as it is
    pub fixed: bool,
    /// no white space at all before this token
    pub glued: bool,
}

pub struct Tape<'a> {
    d: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(d: &'a [u32]) -> Self {
        Tape { d, pos: 0 }
    }
    pub fn next(&mut self) -> u32 {
        let v = self.d.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.d.len()
    }
    /// monotone in the tape value: a smaller value picks a smaller index
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u64 * n as u64) >> 32) as usize
    }
    /// true with probability p/100; the all-zero tape yields false
    pub fn chance(&mut self, p: u32) -> bool {
        let v = ((self.next() as u64 * 100) >> 32) as u32;
        v >= 100 - p.min(100)
    }
    pub fn rest(&self) -> &'a [u32] {
        if self.pos >= self.d.len() {
            &[]
        } else {
            &self.d[self.pos..]
        }
    }
}

/// accepted by the tree-sitter grammar, but not Apex
pub const OUTSIDE: &[&str] = &["stmt.local_decls", "decl.array_init", "expr.nested_init"];
/// Apex that the formatter refuses by name ("unknown node"); each is a known finding of C14
pub const REFUSED: &[&str] = &["soql.typeof", "soql.with.visibility", "soql.with.datacat"];

#[derive(Clone, Debug)]
pub struct Opt {
    /// ASCII only identifiers and strings
    pub ascii: bool,
    pub fuel: i32,
    /// bias: 0 mixed, 1 soql heavy, 2 declarations, 3 expressions, 4 statements
    pub bias: u32,
    pub no_anon_class: bool,
    /// prefer long identifiers (to force line breaking)
    pub long_names: u32,
    /// many string literals with awkward contents
    pub strings: bool,
    pub disabled: Vec<&'static str>,
    /// every alternative of the grammar with the same weight, options more often: rare combinations
    pub flat: bool,
    /// how many lists may be long
    pub many: u32,
    /// how many blocks are nested around the statements of a method
    pub deep: u32,
}

/// lengths of long lists, around the usual thresholds
const SIZES: &[usize] = &[
    7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 21, 24, 25, 26, 30, 31, 32, 33, 34, 40, 41, 48, 50, 51, 63, 64, 65, 66, 100, 101, 128,
    129,
];

impl Default for Opt {
    fn default() -> Self {
        Opt {
            ascii: false,
            fuel: 60,
            bias: 0,
            no_anon_class: false,
            long_names: 10,
            strings: false,
            flat: false,
            many: 0,
            deep: 0,
            disabled: OUTSIDE.iter().chain(REFUSED).copied().collect(),
        }
    }
}

pub struct G<'a> {
    pub t: Tape<'a>,
    pub o: Opt,
    pub out: Vec<Tok>,
    names: Vec<String>,
    last_method: Option<String>,
    fuel: i32,
    depth: u32,
    pub feats: BTreeMap<&'static str, u32>,
    next_boundary: bool,
    next_edge: bool,
    next_fixed: bool,
    next_glued: bool,
    in_switch_head: bool,
}

const SHORT: &[&str] = &[
    "a", "b", "x", "y", "foo", "acc", "i", "Account", "bar", "List1", "obj__c", "_u", "n1", "X", "map1", "Test",
];
const LONGID: &[&str] = &[
    "someReasonablyLongIdentifierName",
    "AnotherVeryLongIdentifierForBreaking",
    "accountRecordsByExternalIdentifier",
    "calculateTheTotalAmountOfOpportunity",
    "My_Custom_Object_With_Long_Name__c",
    "midSizeName",
    "qualifierHandlerFactory",
    "getSomethingFromTheDatabaseByIdAndName",
];
const UNI: &[&str] = &["größe", "ñandú", "été_1", "Ωmega", "данные"];
/// contextual words that are legal identifiers in some positions
const CTXID: &[&str] = &[
    "get", "set", "on", "when", "user", "system", "limit", "group", "offset", "name", "email", "scope", "first",
    "find", "like", "end", "asc", "find1", "String", "data", "after", "before", "sharing", "count", "fields", "all",
    "rows", "update1", "reference", "view", "mine", "team", "tracking",
];
const TYPES: &[&str] = &["Integer", "String", "Account", "Object", "Decimal", "Id", "SObject", "Foo", "Boolean", "My_Obj__c"];

/// characters that tools like to replace
pub const ODD: &[&str] = &[
    "\u{a0}", "a\u{a0}b", "\u{200b}", "\u{200d}", "\u{feff}", "\u{ad}", "\u{2028}", "\u{85}", "\u{3000}", "\u{2018}x\u{2019}", "\u{201c}y\u{201d}", "\u{2013}", "\u{2026}", "e\u{301}",
    "\u{202e}", "\u{fffd}", "\u{ff07}", "ß", "İ", "ǆ", "ﬁ", "\t", "\u{7f}", "µ", "Ω", "½",
];

impl<'a> G<'a> {
    pub fn new(tape: &'a [u32], o: Opt) -> Self {
        let fuel = o.fuel;
        G {
            t: Tape::new(tape),
            o,
            out: vec![],
            names: vec![],
            last_method: None,
            fuel,
            depth: 0,
            feats: BTreeMap::new(),
            next_boundary: false,
            next_edge: false,
            next_fixed: false,
            next_glued: false,
            in_switch_head: false,
        }
    }

    // ---------------------------------------------------------------- emit
    fn push(&mut self, s: impl Into<String>, k: K) {
        self.fuel -= 1;
        self.out.push(Tok {
            s: s.into(),
            k,
            boundary: self.next_boundary,
            edge: self.next_edge,
            fixed: self.next_fixed,
            glued: self.next_glued,
        });
        self.next_boundary = false;
        self.next_edge = false;
        self.next_fixed = false;
        self.next_glued = false;
    }
    fn kw(&mut self, s: &str) {
        self.push(s, K::Kw)
    }
    fn op(&mut self, s: &str) {
        self.push(s, K::Op)
    }
    fn word(&mut self, s: impl Into<String>) {
        self.push(s, K::Word)
    }
    fn feat(&mut self, f: &'static str) {
        *self.feats.entry(f).or_insert(0) += 1;
    }
    fn on(&self, f: &str) -> bool {
        !self.o.disabled.iter().any(|d| *d == f)
    }
    fn low(&self) -> bool {
        self.fuel <= 0 || self.depth > 14
    }
    /// weighted choice; zero tape picks the first alternative; when out of fuel, the first
    fn w(&mut self, weights: &[u32]) -> usize {
        if self.low() {
            return 0;
        }
        if self.o.flat {
            let live: Vec<usize> = (0..weights.len()).filter(|i| weights[*i] > 0).collect();
            return live.get(self.t.pick(live.len())).copied().unwrap_or(0);
        }
        let total: u32 = weights.iter().sum();
        let mut v = self.t.pick(total as usize) as u32;
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        0
    }
    /// repetition count 0..=max, geometric
    fn count(&mut self, p: u32, max: usize) -> usize {
        if max >= 2 && self.o.many > 0 && !self.low() && self.t.chance(15) {
            self.o.many -= 1;
            self.feat("size.long_list");
            if let Some(n) = crate::dict::get().size(&mut self.t, 50, 200) {
                return n;
            }
            return SIZES[self.t.pick(SIZES.len())];
        }
        if max >= 2 && self.depth < 7 && !self.low() && self.t.chance(2) {
            return 3 + self.t.pick(6);
        }
        let mut n = 0;
        while n < max && !self.low() && self.t.chance(p) {
            n += 1;
        }
        n
    }
    fn yes(&mut self, p: u32) -> bool {
        let p = if self.o.flat && p < 25 { 25 } else { p };
        !self.low() && self.t.chance(p)
    }
    fn of<'b>(&mut self, xs: &[&'b str]) -> &'b str {
        xs[self.t.pick(xs.len())]
    }

    // ---------------------------------------------------------------- lexical
    fn ident_text(&mut self) -> String {
        // a name once more
        if !self.names.is_empty() && self.t.chance(8) {
            return self.names[self.t.pick(self.names.len())].clone();
        }
        let n = self.new_name();
        if self.names.len() < 12 {
            self.names.push(n.clone());
        }
        n
    }
    fn new_name(&mut self) -> String {
        let d = crate::dict::get();
        if let Some(n) = d.name(&mut self.t, 6) {
            return n;
        }
        if let Some(n) = d.size(&mut self.t, 2, 300) {
            return "x".repeat(n.max(1));
        }
        if self.o.long_names > 0 && self.t.chance(1) {
            let max = if self.t.chance(20) { 260 } else { 70 };
            let n = 20 + self.t.pick(max);
            return ["x", "Y", "z_"][self.t.pick(3)].repeat(n);
        }
        let ln = self.o.long_names;
        let uni = if self.o.ascii { 0 } else { 4 };
        let weights = [60u32, ln, 5, uni, 6];
        let total: u32 = weights.iter().sum();
        let mut v = self.t.pick(total as usize) as u32;
        let mut i = 0;
        for (j, w) in weights.iter().enumerate() {
            if v < *w {
                i = j;
                break;
            }
            v -= *w;
        }
        match i {
            0 => self.of(SHORT).to_string(),
            1 => self.of(LONGID).to_string(),
            2 => self.of(CTXID).to_string(),
            3 => {
                self.feat("ident.unicode");
                self.of(UNI).to_string()
            }
            _ => {
                let n = 1 + self.t.pick(10);
                let mut s = String::new();
                for j in 0..n {
                    let cs = if j == 0 {
                        "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$"
                    } else {
                        "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$0123456789"
                    };
                    let c = cs.as_bytes()[self.t.pick(cs.len())] as char;
                    s.push(c);
                }
                const KW: &[&str] = &[
                    "if", "do", "on", "as", "or", "in", "by", "new", "for", "try", "get", "set", "asc", "and", "not",
                    "int", "end", "all", "null", "this", "true", "else", "enum", "void", "when", "with", "from", "find",
                    "like", "desc", "then", "user", "view", "last", "rows", "case", "class", "false", "super", "while",
                    "catch", "break", "throw", "merge", "final", "where", "group", "limit", "order",
                ];
                if KW.contains(&s.to_lowercase().as_str()) {
                    s.push('1');
                }
                s
            }
        }
    }
    fn ident(&mut self) {
        let s = self.ident_text();
        self.word(s);
    }
    fn soql_ident(&mut self) {
        let s = match self.t.pick(10) {
            0 => "Id".into(),
            1 => "Name".into(),
            2 => "Custom_Field__c".into(),
            3 => "AnnualRevenue".to_string(),
            4 => "BillingCity".into(),
            5 => "x".into(),
            6 => "Very_Long_Custom_Field_Name_For_Breaking__c".into(),
            7 => {
                let n = 1 + self.t.pick(6);
                let mut s = String::from("f");
                for _ in 0..n {
                    let cs = b"abcXYZ019_";
                    s.push(cs[self.t.pick(cs.len())] as char);
                }
                s
            }
            8 => "Status".into(),
            _ => "Owner".into(),
        };
        self.word(s)
    }
    /// one character given by its number in the formatter's sources
    fn mark(&mut self) -> Option<char> {
        let m = &crate::dict::get().marks;
        if m.is_empty() || self.o.ascii || !self.t.chance(12) {
            return None;
        }
        Some(m[self.t.pick(m.len())]).filter(|c| *c >= ' ' && !matches!(c, '\'' | '\\'))
    }
    fn string_lit(&mut self) {
        self.feat("lit.string");
        let n = if self.low() { 0 } else { self.t.pick(9) };
        let mut s = String::from("'");
        for _ in 0..n {
            if let Some(m) = self.mark() {
                s.push(m);
                continue;
            }
            if let Some(w) = crate::dict::get().word(&mut self.t, 15) {
                if !w.contains(['\'', '\\', '\n']) && (w.is_ascii() || !self.o.ascii) {
                    s.push_str(&w);
                    continue;
                }
            }
            let frag = match self.t.pick(33) {
                32 if !self.o.ascii => self.of(ODD),
                0 => "a",
                1 => " ",
                2 => "hello",
                3 => "\\n",
                4 => "\\'",
                5 => "\\\\",
                6 => "\"",
                7 => "//",
                8 => "/*",
                9 => "*/",
                10 => "  ",
                11 => "{0}",
                12 => "\\u00e9",
                13 => "%",
                14 => ";",
                15 => "SELECT Id FROM x",
                16 => "\\t",
                17 => ", ",
                18 => "(",
                19 => "+",
                23 => "   ",
                24 => "WHERE a AND b",
                25 => "*",
                26 => "@",
                27 => "}}",
                28 => "<b>",
                29 => {
                    if self.o.ascii {
                        "0"
                    } else {
                        "🎉"
                    }
                }
                30 => ":x",
                20 => "Long text that takes up some room in the line",
                21 => {
                    if self.o.ascii {
                        "z"
                    } else {
                        "é"
                    }
                }
                22 => {
                    if self.o.ascii {
                        "}"
                    } else {
                        "日本"
                    }
                }
                _ => "IF",
            };
            s.push_str(frag);
        }
        s.push('\'');
        self.push(s, K::Str)
    }
    fn int_lit(&mut self) {
        if let Some(n) = crate::dict::get().size(&mut self.t, 10, 100_000) {
            return self.push(n.to_string(), K::Num);
        }
        if self.t.chance(8) {
            let s = self.digits() + ["", "", "L", "l"][self.t.pick(4)];
            return self.push(s, K::Num);
        }
        let s = if self.yes(self.o.long_names) { self.of(&["9223372036854775807L", "2147483647", "1_000_000_000_000L"]) } else { self.of(&["0", "1", "42", "1000000", "7L", "99l", "1_000"]) };
        self.push(s, K::Num)
    }
    /// zeros in front and behind, underscores
    fn digits(&mut self) -> String {
        let n = 1 + self.t.pick(6);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && self.t.chance(8) {
                s.push('_');
            }
            s.push(['0', '0', '1', '7', '9', '5'][self.t.pick(6)]);
        }
        s
    }
    fn literal(&mut self) {
        match self.w(&[4, 4, 2, 2, 2]) {
            0 => self.int_lit(),
            1 => self.string_lit(),
            2 => {
                self.feat("lit.bool");
                let s = self.of(&["true", "false"]);
                self.kw(s)
            }
            3 => {
                self.feat("lit.null");
                self.kw("null")
            }
            _ => {
                self.feat("lit.decimal");
                if self.t.chance(15) {
                    let (a, b) = (self.digits(), self.digits());
                    let s = format!("{a}.{b}{}{}", ["", "", "e3", "E-07", "e+00"][self.t.pick(5)], ["", "", "d", "F"][self.t.pick(4)]);
                    return self.push(s, K::Num);
                }
                let s = if self.yes(self.o.long_names) { self.of(&["12345678901234567.890123", "0.00000000000000000000001", "123456789012.5d"]) } else { self.of(&["1.0", "0.5", "3.14159", "1.5d", "2.5D", "1e10", "1.0E-5", "2f", "10D", ".5"]) };
                self.push(s, K::Num)
            }
        }
    }

    // ---------------------------------------------------------------- types
    fn type_ident(&mut self) {
        if self.yes(25) {
            self.ident()
        } else {
            let s = self.of(TYPES);
            self.word(s)
        }
    }
    fn scoped_type(&mut self) {
        self.feat("type.scoped");
        self.type_ident();
        let n = 1 + self.count(25, 2);
        for _ in 0..n {
            self.op(".");
            self.type_ident();
        }
    }
    fn type_args(&mut self) {
        self.op("<");
        let n = 1 + self.count(40, 2);
        for i in 0..n {
            if i > 0 {
                self.op(",");
            }
            self.depth += 1;
            self.type_();
            self.depth -= 1;
        }
        self.op(">");
    }
    fn generic_type(&mut self) {
        self.feat("type.generic");
        match self.w(&[5, 3, 2, 1]) {
            0 => {
                self.word("List");
                self.op("<");
                self.depth += 1;
                self.type_();
                self.depth -= 1;
                self.op(">");
            }
            1 => {
                self.word("Map");
                self.op("<");
                self.depth += 1;
                self.type_();
                self.op(",");
                self.type_();
                self.depth -= 1;
                self.op(">");
            }
            2 => {
                self.word("Set");
                self.type_args();
            }
            _ => {
                self.scoped_type();
                self.type_args();
            }
        }
    }
    fn simple_type(&mut self) {
        match self.w(&[10, 4, 4, 1, 1]) {
            0 => self.type_ident(),
            1 => self.generic_type(),
            2 => self.scoped_type(),
            3 => {
                self.feat("type.boolean");
                self.word("boolean") // `boolean_type` is a lower-case-only keyword in the grammar
            }
            _ => {
                if self.on("type.java") {
                    self.feat("type.java");
                    self.word("java:");
                    self.type_ident();
                    self.op(".");
                    self.type_ident();
                } else {
                    self.type_ident()
                }
            }
        }
    }
    fn type_(&mut self) {
        self.simple_type();
        if self.yes(8) && self.on("type.array") {
            self.feat("type.array");
            self.op("[");
            self.op("]");
            if self.yes(15) && self.on("type.array2") {
                self.feat("type.array2");
                for _ in 0..1 + self.count(35, 6) {
                    self.op("[");
                    self.op("]");
                }
            }
        }
    }

    // ---------------------------------------------------------------- expressions
    pub fn expr(&mut self) {
        self.depth += 1;
        match self.w(&[30, 14, 5, 4, 3, 2]) {
            0 => self.postfix(),
            1 => self.binary(),
            2 => self.ternary(),
            3 => self.unary(),
            4 => {
                self.feat("expr.instanceof");
                match self.w(&[12, 1, 1, 1]) {
                    0 => self.postfix(),
                    1 => self.binary(),
                    2 => self.unary(),
                    _ => self.cast(),
                }
                self.kw("instanceof");
                self.type_();
            }
            _ => self.cast(),
        }
        self.depth -= 1;
    }
    fn full_expr(&mut self) {
        if self.yes(4) {
            self.assignment()
        } else {
            self.expr()
        }
    }
    fn cast(&mut self) {
        self.feat("expr.cast");
        self.op("(");
        self.type_();
        self.op(")");
        self.depth += 1;
        match self.w(&[6, 1, 1]) {
            0 => self.postfix(),
            1 => self.cast(),
            _ => self.paren(),
        }
        self.depth -= 1;
    }
    fn assignment(&mut self) {
        self.depth += 1;
        self.feat("expr.assign");
        match self.w(&[6, 3, 1]) {
            0 => self.ident(),
            1 => {
                self.ident();
                let n = 1 + self.count(30, 3);
                for _ in 0..n {
                    self.op(".");
                    self.ident();
                }
            }
            _ => {
                self.ident();
                self.op("[");
                self.expr();
                self.op("]");
            }
        }
        let op = self.of(&["=", "=", "=", "=", "=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "%=", "<<=", ">>=", ">>>="]);
        if op != "=" {
            self.feat("expr.assign.compound");
        }
        self.op(op);
        if self.yes(8) {
            self.feat("expr.assign.chain");
            self.assignment();
        } else {
            self.expr();
        }
        self.depth -= 1;
    }
    fn binary(&mut self) {
        self.feat("expr.binary");
        let n = 1 + self.count(45, 5);
        self.binary_operand();
        let fam = self.t.pick(5);
        for _ in 0..n {
            let op = match fam {
                0 => self.of(&["+", "-", "*", "/", "%"]),
                1 => self.of(&["&&", "||"]),
                2 => self.of(&["==", "!=", "===", "!==", "<>"]),
                3 => self.of(&[
                    "+", "&&", "||", "==", "<", ">", "<=", ">=", "&", "|", "^", "<<", ">>", ">>>", "??", "-", "!=",
                ]),
                _ => "+",
            };
            if op == "??" {
                self.feat("expr.null_coalesce");
            }
            if op == "<>" {
                self.feat("expr.ltgt");
            }
            self.op(op);
            self.binary_operand();
        }
    }
    fn binary_operand(&mut self) {
        self.depth += 1;
        match self.w(&[20, 3, 4, 2]) {
            0 => self.postfix(),
            1 => self.unary(),
            2 => self.paren(),
            _ => self.cast(),
        }
        self.depth -= 1;
    }
    fn ternary(&mut self) {
        self.feat("expr.ternary");
        self.depth += 1;
        if self.yes(40) {
            self.binary()
        } else {
            self.postfix()
        }
        self.op("?");
        self.expr();
        self.op(":");
        self.expr();
        self.depth -= 1;
    }
    fn unary(&mut self) {
        self.depth += 1;
        match self.w(&[4, 3, 3, 1]) {
            0 => {
                self.feat("expr.unary");
                self.op("!");
                self.unary_operand()
            }
            1 => {
                self.feat("expr.unary.minus");
                let op = self.of(&["-", "+", "~"]);
                self.op(op);
                self.unary_operand()
            }
            2 => {
                self.feat("expr.update.post");
                self.lvalue();
                let op = self.of(&["++", "--"]);
                self.op(op);
            }
            _ => {
                self.feat("expr.update.pre");
                let op = self.of(&["++", "--"]);
                self.op(op);
                self.lvalue();
            }
        }
        self.depth -= 1;
    }
    fn unary_operand(&mut self) {
        match self.w(&[10, 3, 2, 1]) {
            0 => self.postfix(),
            1 => self.paren(),
            2 => {
                if self.on("expr.unary.nested") {
                    self.feat("expr.unary.nested");
                    self.unary()
                } else {
                    self.postfix()
                }
            }
            _ => self.cast(),
        }
    }
    fn lvalue(&mut self) {
        match self.w(&[6, 2, 1]) {
            0 => self.ident(),
            1 => {
                self.ident();
                self.op(".");
                self.ident()
            }
            _ => {
                self.ident();
                self.op("[");
                self.full_expr();
                self.op("]");
            }
        }
    }
    fn paren(&mut self) {
        self.feat("expr.paren");
        self.op("(");
        self.depth += 1;
        self.full_expr();
        self.depth -= 1;
        self.op(")");
    }
    /// primary expression followed by a chain of accesses
    fn postfix(&mut self) {
        self.depth += 1;
        let chainable = self.primary();
        if chainable {
            let n = self.count(35, 6);
            if n >= 3 {
                self.feat("expr.chain3");
            }
            for _ in 0..n {
                self.chain_link();
            }
        }
        self.depth -= 1;
    }
    fn nav(&mut self) {
        if self.yes(12) {
            self.feat("expr.safe_nav");
            self.op("?.");
        } else {
            self.op(".");
        }
    }
    fn chain_link(&mut self) {
        match self.w(&[5, 6, 1]) {
            0 => {
                self.feat("expr.field_access");
                self.nav();
                self.ident();
            }
            1 => {
                self.feat("expr.method_chain");
                self.nav();
                if self.yes(2) && self.on("expr.method_type_args") {
                    self.feat("expr.method_type_args");
                    self.type_args();
                }
                self.ident();
                self.args();
            }
            _ => {
                self.feat("expr.array_access");
                self.op("[");
                self.expr();
                self.op("]");
            }
        }
    }
    fn args(&mut self) {
        self.op("(");
        if self.yes(7) {
            // a literal alone
            self.literal();
            return self.op(")");
        }
        let n = self.count(50, 5);
        for i in 0..n {
            if i > 0 {
                self.op(",");
            }
            self.full_expr();
        }
        self.op(")");
    }
    /// returns whether accesses may follow
    fn primary(&mut self) -> bool {
        if self.o.strings && self.yes(35) {
            self.string_lit();
            return false;
        }
        let q = if self.o.bias == 1 { 25 } else { 4 };
        match self.w(&[24, 12, 12, 4, 2, 6, 3, 3, 2, 2, 2, 2, q, 1, 1]) {
            0 => {
                self.ident();
                true
            }
            1 => {
                self.literal();
                false
            }
            2 => {
                self.feat("expr.method");
                self.ident();
                self.args();
                true
            }
            3 => {
                self.feat("expr.this");
                self.kw("this");
                true
            }
            4 => {
                self.feat("expr.super");
                self.kw("super");
                self.op(".");
                self.ident();
                if self.yes(60) {
                    self.args();
                }
                true
            }
            // `switch on new T() {` reads as an anonymous class body
            5 if self.in_switch_head => {
                self.ident();
                true
            }
            5 => {
                self.feat("expr.new");
                self.kw("new");
                self.simple_type();
                self.args();
                if self.yes(5) && !self.o.no_anon_class && self.on("expr.new.body") {
                    self.feat("expr.new.body");
                    self.class_body();
                    return false;
                }
                true
            }
            6 => {
                self.feat("expr.new.array_init");
                self.kw("new");
                match self.w(&[3, 2]) {
                    0 => self.generic_type(),
                    _ => {
                        self.type_ident();
                        for _ in 0..1 + self.count(20, 3) {
                            self.op("[");
                            self.op("]");
                        }
                        self.feat("expr.new.array_dim_init");
                    }
                }
                self.array_init();
                self.yes(15)
            }
            7 => {
                self.feat("expr.new.map");
                self.kw("new");
                self.word("Map");
                self.op("<");
                self.type_();
                self.op(",");
                self.type_();
                self.op(">");
                self.op("{");
                let n = self.count(60, 4);
                for i in 0..n {
                    if i > 0 {
                        self.op(",");
                    }
                    self.full_expr();
                    self.op("=>");
                    self.full_expr();
                }
                self.op("}");
                self.yes(15)
            }
            8 => {
                self.feat("expr.new.array_dims");
                self.kw("new");
                match self.w(&[12, 2, 1, 1]) {
                    0 => self.type_ident(),
                    1 => self.scoped_type(),
                    2 => self.generic_type(),
                    _ => self.word("boolean"),
                }
                self.op("[");
                self.expr();
                self.op("]");
                if self.yes(20) {
                    self.feat("expr.new.array_dims2");
                    for _ in 0..1 + self.count(35, 3) {
                        self.op("[");
                        self.expr();
                        self.op("]");
                    }
                }
                if self.yes(15) && self.on("expr.new.array_dims_mixed") {
                    self.feat("expr.new.array_dims_mixed");
                    for _ in 0..1 + self.count(35, 3) {
                        self.op("[");
                        self.op("]");
                    }
                }
                false
            }
            9 => {
                self.feat("expr.class_literal");
                match self.w(&[3, 1, 1]) {
                    0 => self.type_ident(),
                    1 => self.scoped_type(),
                    _ => self.generic_type(),
                }
                self.op(".");
                self.kw("class");
                false
            }
            10 => {
                self.paren();
                true
            }
            11 => {
                self.feat("expr.version");
                self.kw("Package");
                self.op(".");
                self.kw("Version");
                self.op(".");
                if self.yes(50) && self.on("expr.version.number") {
                    self.feat("expr.version.number");
                    let s = format!("{}.{}", self.t.pick(200), self.t.pick(30));
                    self.push(s, K::Num);
                } else {
                    self.kw("Request");
                }
                false
            }
            12 => {
                self.query();
                true
            }
            13 => {
                if self.on("expr.java_field") {
                    self.feat("expr.java_field");
                    self.word("java:");
                    self.ident();
                    self.op(".");
                    self.ident();
                    false
                } else {
                    self.ident();
                    true
                }
            }
            _ => {
                if self.on("expr.field_this") {
                    self.feat("expr.field_this");
                    self.ident();
                    self.op(".");
                    self.kw("this");
                } else {
                    self.ident();
                }
                true
            }
        }
    }
    fn array_init(&mut self) {
        self.op("{");
        let n = self.count(60, 4);
        for i in 0..n {
            if i > 0 {
                self.op(",");
            }
            if self.yes(5) && self.on("expr.nested_init") {
                self.feat("expr.nested_init");
                self.array_init();
            } else {
                self.full_expr();
            }
        }
        self.op("}");
    }

    // ---------------------------------------------------------------- SOQL / SOSL
    fn query(&mut self) {
        self.op("[");
        self.depth += 1;
        if self.yes(22) && self.on("sosl") {
            self.sosl()
        } else {
            self.soql(true)
        }
        self.depth -= 1;
        self.op("]");
    }
    fn dotted(&mut self) {
        self.soql_ident();
        let n = self.count(25, 3);
        for _ in 0..n {
            self.op(".");
            self.soql_ident();
        }
    }
    fn dotted1(&mut self) {
        self.soql_ident();
        self.op(".");
        self.soql_ident();
    }
    fn value_expr(&mut self) {
        self.depth += 1;
        match self.w(&[12, 3, 1]) {
            0 => self.dotted(),
            1 => {
                self.feat("soql.function");
                let s = self.of(&["COUNT", "SUM", "toLabel", "FORMAT", "CALENDAR_YEAR", "convertCurrency", "MAX"]);
                self.word(s);
                self.op("(");
                self.value_expr();
                if self.yes(15) {
                    self.op(",");
                    self.value_expr();
                }
                self.op(")");
            }
            _ => {
                if self.on("soql.distance") {
                    self.feat("soql.distance");
                    self.word("DISTANCE");
                    self.op("(");
                    if self.yes(30) {
                        self.bound();
                    } else {
                        self.dotted();
                    }
                    self.op(",");
                    match self.w(&[3, 2, 1]) {
                        0 => {
                            self.word("GEOLOCATION");
                            self.op("(");
                            if self.yes(25) {
                                self.bound();
                            } else {
                                self.push("37.775", K::Num);
                            }
                            self.op(",");
                            if self.yes(25) {
                                self.bound();
                            } else {
                                self.push("-122.418", K::Num);
                            }
                            self.op(")");
                        }
                        1 => self.dotted(),
                        _ => self.bound(),
                    }
                    self.op(",");
                    let s = self.of(&["'mi'", "'km'"]);
                    self.push(s, K::Str);
                    self.op(")");
                } else {
                    self.dotted()
                }
            }
        }
        self.depth -= 1;
    }
    fn bound(&mut self) {
        self.feat("soql.bound");
        self.op(":");
        self.depth += 1;
        let at = self.out.len();
        // no bare instanceof: the grammar takes what follows its type arguments for operands
        match self.w(&[10, 4, 1, 1, 1]) {
            0 => self.ident(),
            1 => self.postfix(),
            2 => self.binary(),
            3 => self.unary(),
            _ => {
                self.feat("expr.ternary");
                self.postfix();
                self.op("?");
                self.postfix();
                self.op(":");
                self.postfix();
            }
        }
        // `:(a) OR (b)` is a cast for the grammar
        let inner = &self.out[at..];
        let typelike = |t: &Tok| matches!(t.k, K::Word | K::Kw) || matches!(t.s.as_str(), "." | "," | "<" | ">" | "[" | "]" | "(" | ")");
        let mut open = inner.len();
        if inner[open - 1].s == ")" {
            let mut d = 0;
            while open > 0 {
                open -= 1;
                match inner[open].s.as_str() {
                    ")" => d += 1,
                    "(" => d -= 1,
                    _ => {}
                }
                if d == 0 {
                    break;
                }
            }
        }
        let after_op = open == 0 || (inner[open - 1].k == K::Op && !matches!(inner[open - 1].s.as_str(), ")" | "]" | ">"));
        if open < inner.len() && after_op && inner[open..].iter().all(typelike) {
            self.out.truncate(at);
            self.ident();
        }
        self.depth -= 1;
    }
    fn select_item(&mut self, sub: bool) {
        match self.w(&[16, 3, 3, 2, 1]) {
            0 => self.dotted(),
            1 => self.value_expr(),
            2 => {
                if sub && self.on("soql.subquery") {
                    self.feat("soql.subquery");
                    self.op("(");
                    self.depth += 1;
                    self.soql(false);
                    self.depth -= 1;
                    self.op(")");
                } else {
                    self.dotted()
                }
            }
            3 => {
                self.feat("soql.alias");
                self.value_expr();
                let s = self.of(&["cnt", "total", "myAlias"]);
                self.word(s);
            }
            _ => {
                if self.on("soql.fields") {
                    self.feat("soql.fields");
                    self.kw("FIELDS");
                    self.op("(");
                    let s = self.of(&["ALL", "CUSTOM", "STANDARD"]);
                    self.kw(s);
                    self.op(")");
                } else {
                    self.dotted()
                }
            }
        }
    }
    fn soql(&mut self, top: bool) {
        self.feat("soql");
        let start = self.out.len();
        self.kw("SELECT");
        if self.yes(8) {
            self.feat("soql.count");
            self.word("COUNT");
            self.op("(");
            self.op(")");
        } else if self.yes(4) && self.on("soql.typeof") {
            self.type_of();
        } else {
            let n = 1 + self.count(50, 6);
            for i in 0..n {
                if i > 0 {
                    self.op(",");
                }
                if self.yes(2) && self.on("soql.typeof") {
                    self.type_of();
                } else {
                    self.select_item(top);
                }
            }
        }
        self.kw("FROM");
        self.storage();
        if self.yes(6) {
            self.feat("soql.from.multi");
            self.op(",");
            self.storage();
        }
        if self.yes(6) && self.on("soql.using") {
            self.feat("soql.using");
            self.kw("USING");
            if self.yes(10) {
                self.kw("ListView");
                self.op("=");
                self.soql_ident();
            } else if self.yes(65) {
                self.kw("SCOPE");
                let s = self.of(&["mine", "everything", "delegated", "team", "mine_and_my_groups", "my_territory"]);
                self.kw(s);
            } else {
                self.feat("soql.using.lookup");
                self.kw("LOOKUP");
                self.dotted1();
                if self.yes(50) {
                    self.kw("BIND");
                    for i in 0..1 + self.w(&[5, 2, 1]) {
                        if i > 0 {
                            self.op(",");
                        }
                        self.soql_ident();
                        self.op("=");
                        self.soql_literal();
                    }
                }
            }
        }
        if self.yes(55) {
            self.feat("soql.where");
            self.kw("WHERE");
            self.bool_expr(0);
        }
        if self.yes(12) {
            self.feat("soql.with");
            self.kw("WITH");
            match self.w(&[3, 3, 2, 1, 1, 1]) {
                0 => self.kw("SECURITY_ENFORCED"),
                1 => self.kw("USER_MODE"),
                2 => self.kw("SYSTEM_MODE"),
                3 => {
                    if self.on("soql.with.userid") {
                        self.feat("soql.with.userid");
                        self.kw("UserId");
                        self.op("=");
                        self.string_lit();
                    } else {
                        self.kw("USER_MODE")
                    }
                }
                4 => {
                    if self.on("soql.with.visibility") {
                        self.feat("soql.with.visibility");
                        self.kw("RecordVisibilityContext");
                        self.op("(");
                        self.kw("maxDescriptorPerRecord");
                        self.op("=");
                        self.push("100", K::Num);
                        if self.yes(50) {
                            self.op(",");
                            self.kw("supportsDomains");
                            self.op("=");
                            self.kw("true");
                        }
                        self.op(")");
                    } else {
                        self.kw("USER_MODE")
                    }
                }
                _ => {
                    if self.on("soql.with.datacat") {
                        self.feat("soql.with.datacat");
                        self.data_cat();
                    } else {
                        self.kw("USER_MODE")
                    }
                }
            }
        }
        if self.yes(15) {
            self.feat("soql.group_by");
            self.kw("GROUP BY");
            let n = 1 + self.count(30, 2);
            for i in 0..n {
                if i > 0 {
                    self.op(",");
                }
                self.value_expr();
            }
            if self.yes(35) {
                self.feat("soql.having");
                self.kw("HAVING");
                self.bool_expr(0);
            }
        }
        if self.yes(22) {
            self.order_by();
        }
        if self.yes(22) {
            self.feat("soql.limit");
            self.kw("LIMIT");
            self.int_or_bound();
        }
        if self.yes(10) {
            self.feat("soql.offset");
            self.kw("OFFSET");
            self.int_or_bound();
        }
        if self.yes(8) {
            self.feat("soql.for");
            self.kw("FOR");
            let s = self.of(&["UPDATE", "VIEW", "REFERENCE"]);
            self.kw(s);
            if self.yes(25) {
                self.feat("soql.for.multi");
                self.op(",");
                let s = self.of(&["VIEW", "REFERENCE"]);
                self.kw(s);
            }
        }
        // the grammar reads `:(a) UPDATE` as a cast
        let bound_paren = self.out[start..].windows(2).any(|w| w[0].s == ":" && w[1].s == "(");
        if self.yes(4) && self.on("soql.update") && !bound_paren {
            self.feat("soql.update");
            self.kw("UPDATE");
            let s = self.of(&["TRACKING", "VIEWSTAT"]);
            self.kw(s);
            if self.yes(25) {
                self.op(",");
                self.kw("VIEWSTAT");
            }
        }
        if top && self.yes(6) {
            self.feat("soql.all_rows");
            self.kw("ALL ROWS");
        }
    }
    fn data_cat(&mut self) {
        self.kw("DATA CATEGORY");
        let n = 1 + self.count(35, 2);
        for i in 0..n {
            if i > 0 {
                self.kw("AND");
            }
            self.soql_ident();
            let s = self.of(&["AT", "ABOVE", "BELOW", "ABOVE_OR_BELOW"]);
            self.kw(s);
            if self.yes(30) {
                self.op("(");
                self.soql_ident();
                self.op(",");
                self.soql_ident();
                self.op(")");
            } else {
                self.soql_ident();
            }
        }
    }
    fn type_of(&mut self) {
        self.feat("soql.typeof");
        self.kw("TYPEOF");
        self.dotted();
        let n = 1 + self.count(40, 2);
        for _ in 0..n {
            self.kw("WHEN");
            self.soql_ident();
            self.kw("THEN");
            self.dotted();
            if self.yes(40) {
                self.op(",");
                self.dotted();
            }
        }
        if self.yes(50) {
            self.kw("ELSE");
            self.dotted();
        }
        self.kw("END");
    }
    fn int_or_bound(&mut self) {
        if self.yes(35) {
            self.bound()
        } else {
            let s = self.of(&["1", "10", "200"]);
            self.push(s, K::Num)
        }
    }
    fn order_by(&mut self) {
        self.feat("soql.order_by");
        self.kw("ORDER BY");
        let n = 1 + self.count(35, 3);
        for i in 0..n {
            if i > 0 {
                self.op(",");
            }
            self.value_expr();
            if self.yes(45) {
                self.feat("soql.order.dir");
                let s = self.of(&["ASC", "DESC"]);
                self.kw(s);
            }
            if self.yes(25) {
                self.feat("soql.order.nulls");
                let s = self.of(&["NULLS FIRST", "NULLS LAST"]);
                self.kw(s);
            }
        }
    }
    fn storage(&mut self) {
        let s = self.of(&["Account", "Contact", "Opportunity", "My_Obj__c", "Very_Long_Custom_Object_Api_Name__c"]);
        self.word(s);
        if self.yes(8) {
            self.op(".");
            let s = self.of(&["Contacts", "Opportunities__r"]);
            self.word(s);
        }
        if self.yes(12) {
            self.feat("soql.storage_alias");
            if self.yes(40) {
                self.feat("soql.storage_alias.as");
                self.kw("AS");
            }
            let s = self.of(&["a", "acc1"]);
            self.word(s);
        }
    }
    fn bool_expr(&mut self, lvl: u32) {
        self.depth += 1;
        if lvl > 3 {
            self.comparison();
            self.depth -= 1;
            return;
        }
        match self.w(&[8, 6, 5, 2, 2]) {
            0 => self.comparison(),
            1 => {
                self.feat("soql.and");
                self.cond(lvl);
                let n = 1 + self.count(40, 3);
                for _ in 0..n {
                    self.kw("AND");
                    self.cond(lvl);
                }
            }
            2 => {
                self.feat("soql.or");
                self.cond(lvl);
                let n = 1 + self.count(40, 3);
                for _ in 0..n {
                    self.kw("OR");
                    self.cond(lvl);
                }
            }
            3 => {
                self.feat("soql.not");
                self.kw("NOT");
                self.cond(lvl);
            }
            _ => {
                self.feat("soql.paren");
                self.op("(");
                self.bool_expr(lvl + 1);
                self.op(")");
            }
        }
        self.depth -= 1;
    }
    fn cond(&mut self, lvl: u32) {
        if self.yes(35) {
            self.feat("soql.nested_bool");
            self.op("(");
            self.bool_expr(lvl + 1);
            self.op(")");
        } else {
            self.comparison()
        }
    }
    fn soql_literal(&mut self) {
        match self.w(&[6, 4, 3, 2, 3, 3, 2, 1, 1, 1]) {
            0 => self.string_lit(),
            1 => {
                let s = self.of(&["1", "100", "42"]);
                self.push(s, K::Num)
            }
            2 => {
                let s = self.of(&["TRUE", "FALSE"]);
                self.kw(s)
            }
            3 => self.kw("NULL"),
            4 => {
                self.feat("soql.date_literal");
                let s = self.of(&["TODAY", "YESTERDAY", "LAST_90_DAYS", "THIS_FISCAL_YEAR", "NEXT_WEEK"]);
                self.kw(s)
            }
            5 => {
                self.feat("soql.date_n");
                let s = self.of(&["LAST_N_DAYS", "NEXT_N_WEEKS", "N_DAYS_AGO", "LAST_N_FISCAL_YEARS"]);
                self.kw(s);
                self.op(":");
                let s = self.of(&["5", "365"]);
                self.push(s, K::Num);
            }
            6 => {
                self.feat("soql.date");
                self.push("2024-01-15", K::Num)
            }
            7 => {
                if self.on("soql.datetime") {
                    self.feat("soql.datetime");
                    let s = self.of(&["2024-01-15T10:20:30Z", "2023-12-31T23:59:59.123+05:30"]);
                    self.push(s, K::Num)
                } else {
                    self.push("2024-01-15", K::Num)
                }
            }
            8 => {
                self.feat("soql.decimal");
                let s = self.of(&["1.5", "-3", "-0.25"]);
                self.push(s, K::Num)
            }
            _ => {
                if self.on("soql.currency") {
                    self.feat("soql.currency");
                    let s = self.of(&["USD5000", "EUR10.5"]);
                    self.push(s, K::Num)
                } else {
                    self.push("5", K::Num)
                }
            }
        }
    }
    fn comparison(&mut self) {
        self.depth += 1;
        self.value_expr();
        match self.w(&[10, 5]) {
            0 => {
                let s = self.of(&["=", "!=", "<>", "<", "<=", ">", ">=", "LIKE"]);
                if s == "LIKE" {
                    self.feat("soql.like");
                    self.kw(s)
                } else {
                    self.op(s)
                }
                if self.yes(40) {
                    self.bound()
                } else {
                    self.soql_literal()
                }
            }
            _ => {
                self.feat("soql.set_cmp");
                let s = self.of(&["IN", "NOT IN", "INCLUDES", "EXCLUDES"]);
                self.kw(s);
                match self.w(&[4, 4, 2]) {
                    0 => self.bound(),
                    1 => {
                        self.feat("soql.list");
                        self.op("(");
                        let n = 1 + self.count(45, 3);
                        for i in 0..n {
                            if i > 0 {
                                self.op(",");
                            }
                            if self.yes(15) {
                                self.bound()
                            } else {
                                self.soql_literal()
                            }
                        }
                        self.op(")");
                    }
                    _ => {
                        self.feat("soql.semi_join");
                        self.op("(");
                        self.soql(false);
                        self.op(")");
                    }
                }
            }
        }
        self.depth -= 1;
    }
    fn sosl(&mut self) {
        self.feat("sosl");
        self.kw("FIND");
        if self.yes(40) && self.on("sosl.term") {
            self.feat("sosl.term");
            let s = self.of(&["'map*'", "'a b'", "'x'", "'Acme AND \\'q\\''"]);
            self.push(s, K::Str);
        } else {
            self.bound();
        }
        if self.yes(50) {
            self.feat("sosl.in");
            self.kw("IN");
            let s = self.of(&["ALL", "EMAIL", "NAME", "PHONE", "SIDEBAR"]);
            self.kw(s);
            self.kw("FIELDS");
        }
        if self.yes(75) {
            self.feat("sosl.returning");
            self.kw("RETURNING");
            let n = 1 + self.count(45, 3);
            for i in 0..n {
                if i > 0 {
                    self.op(",");
                }
                let s = self.of(&["Account", "Contact", "My_Obj__c"]);
                self.word(s);
                if self.yes(60) {
                    self.feat("sosl.returning.fields");
                    self.op("(");
                    let m = 1 + self.count(45, 4);
                    for j in 0..m {
                        if j > 0 {
                            self.op(",");
                        }
                        self.select_item(false);
                    }
                    if self.yes(8) && self.on("sosl.returning.using") {
                        self.feat("sosl.returning.using");
                        self.kw("USING");
                        self.kw("ListView");
                        self.op("=");
                        self.soql_ident();
                    }
                    if self.yes(35) {
                        self.feat("sosl.returning.where");
                        self.kw("WHERE");
                        self.bool_expr(1);
                    }
                    if self.yes(20) {
                        self.order_by();
                    }
                    if self.yes(20) {
                        self.kw("LIMIT");
                        self.int_or_bound();
                    }
                    if self.yes(10) {
                        self.kw("OFFSET");
                        self.int_or_bound();
                    }
                    self.op(")");
                }
            }
        }
        let n = self.count(25, 2);
        for _ in 0..n {
            self.feat("sosl.with");
            self.kw("WITH");
            match self.w(&[3, 2, 2, 2, 2, 2, 2, 2]) {
                0 => {
                    self.kw("DIVISION");
                    self.op("=");
                    if self.yes(30) {
                        self.bound()
                    } else {
                        self.string_lit()
                    }
                }
                1 => self.kw("HIGHLIGHT"),
                2 => {
                    self.kw("METADATA");
                    self.op("=");
                    self.string_lit()
                }
                3 => {
                    self.feat("sosl.with.network");
                    self.kw("NETWORK");
                    if self.yes(40) {
                        self.kw("IN");
                        self.op("(");
                        self.string_lit();
                        self.op(",");
                        self.string_lit();
                        self.op(")");
                    } else {
                        self.op("=");
                        self.string_lit()
                    }
                }
                4 => {
                    self.kw("PricebookId");
                    self.op("=");
                    self.string_lit()
                }
                5 => {
                    self.feat("sosl.with.snippet");
                    self.kw("SNIPPET");
                    if self.yes(50) {
                        self.op("(");
                        self.kw("target_length");
                        self.op("=");
                        self.push("120", K::Num);
                        self.op(")");
                    }
                }
                6 => {
                    self.feat("sosl.with.spell");
                    self.kw("SPELL_CORRECTION");
                    self.op("=");
                    let s = self.of(&["true", "false"]);
                    self.kw(s)
                }
                _ => {
                    self.feat("sosl.with.datacat");
                    self.data_cat()
                }
            }
        }
        if self.yes(6) && self.on("sosl.using") {
            self.feat("sosl.using");
            self.kw("USING");
            let s = self.of(&["PHRASE SEARCH", "ADVANCED SEARCH"]);
            self.kw(s);
        }
        if self.yes(20) {
            self.feat("sosl.limit");
            self.kw("LIMIT");
            self.int_or_bound();
        }
        if self.yes(8) && self.on("sosl.offset") {
            self.feat("sosl.offset");
            self.kw("OFFSET");
            self.int_or_bound();
        }
        if self.yes(6) && self.on("sosl.update") {
            self.feat("sosl.update");
            self.kw("UPDATE");
            let s = self.of(&["TRACKING", "VIEWSTAT"]);
            self.kw(s);
        }
    }

    // ---------------------------------------------------------------- statements
    fn block(&mut self) {
        self.op("{");
        self.depth += 1;
        let n = if self.depth > 10 { 0 } else { self.count(62, 6) };
        for i in 0..n {
            if i == 0 {
                self.next_edge = true;
            } else {
                self.next_boundary = true;
            }
            self.statement();
        }
        self.depth -= 1;
        self.next_edge = true;
        self.op("}");
    }
    fn body_stmt(&mut self) {
        // body of if / for / while
        match self.w(&[12, 4, 1]) {
            0 => self.block(),
            1 => {
                self.feat("stmt.bare_body");
                self.depth += 1;
                self.statement_in_bare();
                self.depth -= 1;
            }
            _ => {
                if self.on("stmt.empty_body") {
                    self.feat("stmt.empty_body");
                    self.op(";")
                } else {
                    self.block()
                }
            }
        }
    }
    fn statement_in_bare(&mut self) {
        match self.w(&[12, 6, 4, 2, 2, 2, 1, 1, 1, 1, 1]) {
            0 => self.expr_statement(),
            1 => self.return_stmt(),
            2 => self.if_stmt(),
            3 => self.for_stmt(),
            4 => self.throw_stmt(),
            5 => self.break_continue(),
            6 => self.while_stmt(),
            7 => self.do_stmt(),
            8 => self.try_stmt(),
            9 => self.switch_stmt(),
            _ => self.run_as_stmt(),
        }
    }
    fn while_stmt(&mut self) {
        self.feat("stmt.while");
        self.kw("while");
        self.paren();
        self.body_stmt();
    }
    fn do_stmt(&mut self) {
        self.feat("stmt.do");
        self.kw("do");
        self.block();
        self.kw("while");
        self.paren();
        self.op(";");
    }
    fn run_as_stmt(&mut self) {
        self.feat("stmt.run_as");
        self.kw("System.runAs");
        self.paren();
        self.block();
    }
    fn return_stmt(&mut self) {
        self.feat("stmt.return");
        self.kw("return");
        if self.yes(75) {
            self.full_expr();
        }
        self.op(";");
    }
    fn throw_stmt(&mut self) {
        self.feat("stmt.throw");
        self.kw("throw");
        self.expr();
        self.op(";");
    }
    fn break_continue(&mut self) {
        self.feat("stmt.break");
        let s = self.of(&["break", "continue"]);
        self.kw(s);
        if self.yes(15) && self.on("stmt.break_label") {
            self.feat("stmt.break_label");
            self.ident();
        }
        self.op(";");
    }
    fn expr_statement(&mut self) {
        match self.w(&[8, 8, 3, 4]) {
            0 => {
                // method call chain
                self.feat("stmt.call");
                self.ident();
                let n = self.count(40, 5);
                for _ in 0..n {
                    self.chain_link();
                }
                self.nav();
                self.ident();
                self.args();
            }
            1 => self.assignment(),
            2 => {
                match self.w(&[1, 1]) {
                    0 => {
                        self.feat("expr.update.post");
                        self.lvalue();
                        let op = self.of(&["++", "--"]);
                        self.op(op);
                    }
                    _ => {
                        self.feat("expr.update.pre");
                        let op = self.of(&["++", "--"]);
                        self.op(op);
                        self.lvalue();
                    }
                }
            }
            _ => self.dml(),
        }
        self.op(";");
    }
    fn dml(&mut self) {
        self.feat("stmt.dml");
        match self.w(&[6, 3, 2]) {
            0 => {
                let s = self.of(&["insert", "update", "delete", "undelete"]);
                self.kw(s);
                self.dml_mode();
                self.dml_target();
            }
            1 => {
                self.feat("stmt.upsert");
                self.kw("upsert");
                self.dml_mode();
                self.dml_target();
                if self.yes(40) {
                    self.feat("stmt.upsert.key");
                    if self.yes(50) {
                        self.scoped_type();
                    } else {
                        self.type_ident();
                    }
                }
            }
            _ => {
                self.feat("stmt.merge");
                self.kw("merge");
                self.dml_mode();
                self.ident();
                self.next_fixed = true;
                self.ident();
            }
        }
    }
    fn dml_mode(&mut self) {
        if self.yes(25) {
            self.feat("stmt.dml.mode");
            self.kw("as");
            let s = self.of(&["user", "system"]);
            self.kw(s);
        }
    }
    fn dml_target(&mut self) {
        self.depth += 1;
        match self.w(&[20, 8, 1, 1, 8]) {
            0 => self.ident(),
            1 => self.postfix(),
            2 => self.binary(),
            3 => self.ternary(),
            _ => {
                self.kw("new");
                self.generic_type();
                self.array_init();
            }
        }
        self.depth -= 1;
    }
    fn if_stmt(&mut self) {
        self.feat("stmt.if");
        self.kw("if");
        self.paren();
        self.body_stmt();
        if self.yes(40) {
            self.feat("stmt.else");
            self.kw("else");
            if self.yes(40) {
                self.feat("stmt.else_if");
                self.if_stmt();
            } else {
                self.body_stmt();
            }
        }
    }
    fn for_stmt(&mut self) {
        self.depth += 1;
        if self.yes(45) {
            self.feat("stmt.for_each");
            self.kw("for");
            self.op("(");
            if self.yes(8) && self.on("stmt.for_each.final") {
                self.feat("stmt.for_each.final");
                self.kw("final");
            }
            self.type_();
            self.ident();
            if self.yes(4) && self.on("decl.dims") {
                self.feat("decl.dims");
                for _ in 0..1 + self.count(25, 3) {
                    self.op("[");
                    self.op("]");
                }
            }
            self.op(":");
            if self.yes(30) {
                self.query();
            } else {
                self.expr();
            }
            self.op(")");
            self.body_stmt();
        } else {
            self.feat("stmt.for");
            self.kw("for");
            self.op("(");
            match self.w(&[6, 2, 1]) {
                0 => {
                    self.type_();
                    self.declarators();
                    self.op(";");
                }
                1 => {
                    self.feat("stmt.for.init_expr");
                    self.assignment();
                    if self.on("stmt.for.init_multi") {
                        for _ in 0..self.count(30, 4) {
                            self.feat("stmt.for.init_multi");
                            self.op(",");
                            self.assignment();
                        }
                    }
                    self.op(";");
                }
                _ => {
                    self.feat("stmt.for.no_init");
                    self.op(";");
                }
            }
            if self.yes(85) {
                self.expr();
            } else {
                self.feat("stmt.for.no_cond");
            }
            self.op(";");
            if self.yes(85) {
                self.for_update();
                if self.on("stmt.for.update_multi") {
                    for _ in 0..self.count(18, 4) {
                        self.feat("stmt.for.update_multi");
                        self.op(",");
                        self.for_update();
                    }
                }
            } else {
                self.feat("stmt.for.no_update");
            }
            self.op(")");
            self.body_stmt();
        }
        self.depth -= 1;
    }
    fn for_update(&mut self) {
        match self.w(&[4, 2]) {
            0 => {
                self.ident();
                let op = self.of(&["++", "--"]);
                self.op(op);
            }
            _ => self.assignment(),
        }
    }
    fn declarators(&mut self) {
        let n = 1 + self.count(18, 3);
        if n > 1 {
            self.feat("decl.multi_declarator");
        }
        for i in 0..n {
            if i > 0 {
                self.op(",");
            }
            self.ident();
            if self.yes(3) && self.on("decl.dims") {
                self.feat("decl.dims");
                for _ in 0..1 + self.count(25, 3) {
                    self.op("[");
                    self.op("]");
                }
            }
            if self.yes(70) {
                self.op("=");
                if self.yes(3) && self.on("decl.array_init") {
                    self.feat("decl.array_init");
                    self.array_init();
                } else if self.yes(10) {
                    self.query();
                } else {
                    self.full_expr();
                }
            }
        }
    }
    fn local_decl(&mut self) {
        self.feat("stmt.local_decl");
        if self.yes(8) {
            self.feat("stmt.local_decl.mods");
            if self.yes(25) {
                self.annotation();
            } else {
                self.kw("final");
            }
        }
        self.type_();
        self.declarators();
        self.op(";");
    }
    pub fn statement(&mut self) {
        self.depth += 1;
        match self.w(&[20, 18, 10, 6, 3, 3, 4, 4, 3, 3, 2, 2, 2, 1, 1]) {
            0 => self.expr_statement(),
            1 => self.local_decl(),
            2 => self.if_stmt(),
            3 => self.for_stmt(),
            4 => self.while_stmt(),
            5 => self.do_stmt(),
            6 => self.return_stmt(),
            7 => self.try_stmt(),
            8 => self.switch_stmt(),
            9 => self.throw_stmt(),
            10 => self.break_continue(),
            11 => {
                self.feat("stmt.block");
                self.block()
            }
            12 => self.run_as_stmt(),
            13 => {
                if self.on("stmt.local_decls") {
                    self.feat("stmt.local_type_decl");
                    self.declaration()
                } else {
                    self.expr_statement()
                }
            }
            _ => {
                if self.on("stmt.semi") {
                    self.feat("stmt.semi");
                    self.op(";")
                } else {
                    self.expr_statement()
                }
            }
        }
        self.depth -= 1;
    }
    fn try_stmt(&mut self) {
        self.feat("stmt.try");
        self.kw("try");
        self.block();
        let n = self.count(60, 6);
        for _ in 0..n {
            self.feat("stmt.catch");
            self.kw("catch");
            self.op("(");
            self.formal_param();
            self.op(")");
            self.block();
        }
        if n == 0 || self.yes(30) {
            self.feat("stmt.finally");
            self.kw("finally");
            self.block();
        }
    }
    fn switch_stmt(&mut self) {
        self.feat("stmt.switch");
        self.kw("switch");
        self.kw("on");
        self.depth += 1;
        self.in_switch_head = true;
        match self.w(&[12, 1, 1, 1, 1]) {
            0 => self.postfix(),
            1 => self.binary(),
            2 => self.ternary(),
            3 => self.unary(),
            _ => self.cast(),
        }
        self.in_switch_head = false;
        self.op("{");
        let n = 1 + self.count(55, 4);
        for i in 0..n {
            if i == 0 {
                self.next_edge = true;
            } else {
                self.next_boundary = true;
            }
            self.kw("when");
            match self.w(&[6, 2, 3]) {
                0 => {
                    let m = 1 + self.count(40, 4);
                    for j in 0..m {
                        if j > 0 {
                            self.op(",");
                        }
                        if self.yes(40) {
                            self.ident();
                        } else {
                            self.literal();
                        }
                    }
                }
                1 => {
                    self.feat("stmt.switch.type");
                    if self.yes(30) {
                        self.scoped_type();
                    } else {
                        self.type_ident();
                    }
                    self.ident();
                }
                _ => {
                    self.feat("stmt.switch.else");
                    self.kw("else");
                }
            }
            self.block();
        }
        self.depth -= 1;
        self.next_edge = true;
        self.op("}");
    }

    // ---------------------------------------------------------------- declarations
    fn annotation(&mut self) {
        self.feat("annotation");
        self.op("@");
        self.next_glued = true;
        let s = self.of(&[
            "isTest", "AuraEnabled", "TestVisible", "InvocableMethod", "future", "Deprecated", "HttpGet", "TESTSETUP", "Custom",
        ]);
        let s = match self.t.pick(10) {
            8 => crate::render::mutate_case(s, &mut self.t),
            9 => self.ident_text(),
            _ => s.to_string(),
        };
        self.word(s);
        match self.w(&[8, 4, 2, 1]) {
            0 => {}
            1 => {
                self.feat("annotation.kv");
                self.op("(");
                let n = 1 + self.count(40, 3);
                for _ in 0..n {
                    let s = self.of(&["seeAllData", "cacheable", "label", "description", "Continuation"]);
                    let s = match self.t.pick(10) {
                        8 => crate::render::mutate_case(s, &mut self.t),
                        9 => self.ident_text(),
                        _ => s.to_string(),
                    };
                    self.word(s);
                    self.op("=");
                    match self.w(&[3, 3, 1]) {
                        0 => {
                            let s = self.of(&["true", "false"]);
                            self.kw(s)
                        }
                        1 => self.string_lit(),
                        _ => self.int_lit(),
                    }
                }
                self.op(")");
            }
            2 => {
                self.feat("annotation.value");
                self.op("(");
                match self.w(&[3, 1, 1]) {
                    0 => self.string_lit(),
                    1 => self.literal(),
                    _ => self.ident(),
                }
                self.op(")");
            }
            _ => {
                if self.on("annotation.empty_args") {
                    self.feat("annotation.empty_args");
                    self.op("(");
                    self.op(")");
                }
            }
        }
    }
    fn modifiers(&mut self, pool: &[&str]) {
        let na = self.count(18, 2);
        let nm = self.count(55, 3);
        let mixed = self.yes(8) && self.on("mods.mixed");
        if mixed {
            self.feat("mods.mixed");
            for _ in 0..nm {
                let s = self.of(pool);
                self.kw(s);
            }
            for _ in 0..na {
                self.annotation();
            }
        } else {
            for _ in 0..na {
                self.annotation();
            }
            for _ in 0..nm {
                let s = self.of(pool);
                self.kw(s);
            }
        }
    }
    fn formal_param(&mut self) {
        if self.yes(6) {
            self.feat("param.final");
            self.kw("final");
        }
        self.type_();
        self.ident();
        if self.yes(2) && self.on("param.dims") {
            self.feat("param.dims");
            for _ in 0..1 + self.count(25, 3) {
                self.op("[");
                self.op("]");
            }
        }
    }
    fn formal_params(&mut self) {
        self.op("(");
        let n = self.count(45, 4);
        for i in 0..n {
            if i > 0 {
                self.op(",");
            }
            self.formal_param();
        }
        self.op(")");
    }
    fn type_params(&mut self) {
        if self.yes(4) && self.on("decl.type_params") {
            self.feat("decl.type_params");
            self.op("<");
            let n = 1 + self.count(30, 2);
            for i in 0..n {
                if i > 0 {
                    self.op(",");
                }
                self.type_ident();
                if self.yes(30) && self.on("decl.type_bound") {
                    self.feat("decl.type_bound");
                    self.kw("extends");
                    self.type_ident();
                }
            }
            self.op(">");
        }
    }
    pub fn declaration(&mut self) {
        self.depth += 1;
        match self.w(&[8, 2, 2, 2]) {
            0 => self.class_decl(),
            1 => self.interface_decl(),
            2 => self.enum_decl(),
            _ => self.trigger_decl(),
        }
        self.depth -= 1;
    }
    fn class_decl(&mut self) {
        self.feat("class");
        self.modifiers(&[
            "public", "global", "private", "virtual", "abstract", "with sharing", "without sharing", "inherited sharing",
            "static", "final", "protected",
        ]);
        self.kw("class");
        self.ident();
        self.type_params();
        if self.yes(22) {
            self.feat("class.extends");
            self.kw("extends");
            self.simple_type();
        }
        if self.yes(22) {
            self.feat("class.implements");
            self.kw("implements");
            self.type_list();
        }
        self.class_body();
    }
    fn type_list(&mut self) {
        self.simple_type();
        let n = self.count(35, 3);
        for _ in 0..n {
            self.op(",");
            self.simple_type();
        }
    }
    fn class_body(&mut self) {
        self.op("{");
        self.depth += 1;
        let n = if self.depth > 9 { 0 } else { self.count(70, 8) };
        for i in 0..n {
            if i == 0 {
                self.next_edge = true;
            } else {
                self.next_boundary = true;
            }
            self.member();
        }
        if n > 1 && self.depth < 5 && self.yes(9) {
            // many members of one plain kind
            self.feat("class.run");
            let kind = self.t.pick(3);
            let m = 6 + self.t.pick(16);
            for _ in 0..m {
                self.next_boundary = true;
                match kind {
                    0 => {
                        self.modifiers(&["public", "private", "static", "global"]);
                        let t = self.of(&["Integer", "String", "Date", "Id"]);
                        self.word(t);
                        self.ident();
                        self.op("{");
                        self.kw("get");
                        self.op(";");
                        self.kw("set");
                        self.op(";");
                        self.op("}");
                    }
                    1 => {
                        self.modifiers(&["public", "private", "static", "final"]);
                        let t = self.of(&["Integer", "String", "Date", "Id"]);
                        self.word(t);
                        self.ident();
                        if self.yes(50) {
                            self.op("=");
                            self.literal();
                        }
                        self.op(";");
                    }
                    _ => {
                        self.kw("void");
                        self.ident();
                        self.op("(");
                        self.op(")");
                        self.op("{");
                        self.op("}");
                    }
                }
            }
            if self.yes(50) {
                self.next_boundary = true;
                match kind {
                    0 => self.property(),
                    1 => self.field_decl(),
                    _ => self.method_decl(),
                }
            }
            self.next_boundary = true;
            self.member();
        }
        self.depth -= 1;
        self.next_edge = true;
        self.op("}");
    }
    fn member(&mut self) {
        self.depth += 1;
        match self.w(&[12, 12, 4, 2, 2, 2, 1, 1, 1, 1]) {
            0 => self.field_decl(),
            1 => self.method_decl(),
            2 => self.ctor(),
            3 => self.class_decl(),
            4 => self.interface_decl(),
            5 => self.enum_decl(),
            6 => {
                self.feat("member.static_block");
                self.kw("static");
                self.block();
            }
            7 => {
                self.feat("member.block");
                self.block();
            }
            8 => {
                if self.on("member.semi") {
                    self.feat("member.semi");
                    self.op(";");
                } else {
                    self.field_decl();
                }
            }
            _ => self.property(),
        }
        self.depth -= 1;
    }
    fn field_decl(&mut self) {
        self.feat("member.field");
        if self.yes(20) {
            return self.property();
        }
        self.modifiers(&["public", "private", "static", "final", "global", "protected", "transient", "webservice"]);
        self.type_();
        self.declarators();
        self.op(";");
    }
    fn property(&mut self) {
        self.feat("member.property");
        self.modifiers(&["public", "private", "static", "global", "protected", "override", "virtual"]);
        self.type_();
        self.ident();
        self.op("{");
        let n = 1 + self.count(60, 1);
        for i in 0..n {
            if i == 0 {
                self.next_edge = true;
            } else {
                self.next_boundary = true;
            }
            if self.yes(25) {
                let s = self.of(&["private", "public", "protected", "global"]);
                self.kw(s);
            }
            let s = self.of(&["get", "set"]);
            self.kw(s);
            if self.yes(40) {
                self.feat("member.accessor_body");
                self.block();
            } else {
                self.op(";");
            }
        }
        self.next_edge = true;
        self.op("}");
    }
    fn method_decl(&mut self) {
        self.feat("member.method");
        self.modifiers(&[
            "public", "private", "static", "global", "protected", "override", "virtual", "abstract", "testMethod",
            "webservice", "final",
        ]);
        if self.yes(1) && self.on("method.type_params") {
            self.feat("method.type_params");
            self.op("<");
            self.type_ident();
            self.op(">");
        }
        if self.yes(40) {
            self.kw("void");
        } else {
            self.type_();
        }
        // overloads
        match self.last_method.clone() {
            Some(n) if self.yes(15) => self.word(n),
            _ => {
                let n = self.ident_text();
                self.last_method = Some(n.clone());
                self.word(n);
            }
        }
        self.formal_params();
        if self.yes(1) && self.on("method.dims") {
            self.feat("method.dims");
            for _ in 0..1 + self.count(25, 3) {
                self.op("[");
                self.op("]");
            }
        }
        if self.yes(15) {
            self.feat("method.abstract");
            self.op(";");
        } else {
            self.block();
        }
    }
    fn ctor(&mut self) {
        self.feat("member.ctor");
        self.modifiers(&["public", "private", "global", "protected"]);
        self.ident();
        self.formal_params();
        self.op("{");
        self.depth += 1;
        let mut first = true;
        if self.yes(25) {
            self.feat("ctor.explicit");
            self.next_edge = true;
            let mut s = self.of(&["this", "super"]);
            if self.yes(12) && self.on("ctor.object") {
                // `a.b.super(c)`: the constructor of an inner class of another object
                self.feat("ctor.object");
                if self.yes(70) {
                    self.ident();
                } else {
                    self.kw("this");
                }
                let n = self.count(40, 3);
                for _ in 0..n {
                    self.chain_link();
                }
                self.op(".");
                s = "super";
            }
            if self.yes(8) && self.on("ctor.type_args") {
                self.feat("ctor.type_args");
                self.type_args();
            }
            self.kw(s);
            self.args();
            self.op(";");
            first = false;
        }
        let n = self.count(55, 4);
        for _ in 0..n {
            if first {
                self.next_edge = true;
            } else {
                self.next_boundary = true;
            }
            first = false;
            self.statement();
        }
        self.depth -= 1;
        self.next_edge = true;
        self.op("}");
    }
    fn interface_decl(&mut self) {
        self.feat("interface");
        self.modifiers(&["public", "global", "private", "with sharing"]);
        self.kw("interface");
        self.ident();
        self.type_params();
        if self.yes(25) {
            self.feat("interface.extends");
            self.kw("extends");
            self.type_list();
        }
        self.op("{");
        self.depth += 1;
        let n = self.count(65, 5);
        for i in 0..n {
            if i == 0 {
                self.next_edge = true;
            } else {
                self.next_boundary = true;
            }
            match self.w(&[12, 1, 1, 1]) {
                0 => {
                    self.modifiers(&["public", "global"]);
                    if self.yes(40) {
                        self.kw("void");
                    } else {
                        self.type_();
                    }
                    self.ident();
                    self.formal_params();
                    self.op(";");
                }
                1 => {
                    if self.on("interface.const") {
                        self.feat("interface.const");
                        self.type_();
                        self.declarators();
                        self.op(";");
                    } else {
                        self.kw("void");
                        self.ident();
                        self.formal_params();
                        self.op(";");
                    }
                }
                2 => {
                    if self.on("interface.nested") {
                        self.feat("interface.nested");
                        match self.w(&[2, 2, 1]) {
                            0 => self.enum_decl(),
                            1 => self.class_decl(),
                            _ => self.interface_decl(),
                        }
                    } else {
                        self.kw("void");
                        self.ident();
                        self.formal_params();
                        self.op(";");
                    }
                }
                _ => {
                    if self.on("interface.semi") {
                        self.feat("interface.semi");
                        self.op(";");
                    } else {
                        self.kw("void");
                        self.ident();
                        self.formal_params();
                        self.op(";");
                    }
                }
            }
        }
        self.depth -= 1;
        self.next_edge = true;
        self.op("}");
    }
    fn enum_decl(&mut self) {
        self.feat("enum");
        self.modifiers(&["public", "global", "private"]);
        self.kw("enum");
        self.ident();
        if self.yes(4) && self.on("enum.implements") {
            self.feat("enum.implements");
            self.kw("implements");
            self.type_list();
        }
        self.op("{");
        let n = self.count(75, 8);
        for i in 0..n {
            if i == 0 {
                self.next_edge = true;
            }
            if i > 0 {
                self.op(",");
                self.next_boundary = true;
            }
            if self.yes(2) && self.on("enum.const_mods") {
                self.feat("enum.const_mods");
                self.annotation();
            }
            self.ident();
        }
        self.next_edge = true;
        self.op("}");
    }
    fn trigger_decl(&mut self) {
        self.feat("trigger");
        self.kw("trigger");
        self.ident();
        self.kw("on");
        self.ident();
        self.op("(");
        let n = 1 + self.count(50, 6);
        for i in 0..n {
            if i > 0 {
                self.op(",");
            }
            let s = self.of(&[
                "before insert", "before update", "before delete", "after insert", "after update", "after delete",
                "after undelete",
            ]);
            self.kw(s);
        }
        self.op(")");
        self.block();
    }
    pub fn program(&mut self) {
        let n = 1 + self.count(30, 3);
        for i in 0..n {
            if i > 0 {
                self.next_boundary = true;
            }
            match self.o.bias {
                2 => self.declaration(),
                3 | 4 | 1 => self.wrapped_method(),
                _ => match self.w(&[3, 5]) {
                    0 => self.wrapped_method(),
                    _ => self.declaration(),
                },
            }
        }
    }
    fn query_stmt(&mut self) {
        match self.t.pick(6) {
            0 => self.kw("return"),
            1 | 2 => {
                self.type_();
                self.ident();
                self.op("=");
            }
            3 => {
                self.ident();
                self.op("=");
            }
            4 => {
                self.ident();
                self.op("(");
                self.query();
                self.op(")");
                self.op(";");
                return;
            }
            _ => {
                self.kw("for");
                self.op("(");
                self.type_();
                self.ident();
                self.op(":");
                self.query();
                self.op(")");
                self.block();
                return;
            }
        }
        self.query();
        self.op(";");
    }
    /// class A { void m() { .. } }
    fn wrapped_method(&mut self) {
        self.kw("class");
        self.ident();
        self.op("{");
        self.next_edge = true;
        self.kw("void");
        self.ident();
        self.op("(");
        self.op(")");
        self.op("{");
        let mut closing = vec![];
        for _ in 0..self.o.deep {
            self.next_edge = true;
            closing.push(self.open_block());
        }
        let n = 1 + self.count(60, 5);
        for i in 0..n {
            if i == 0 {
                self.next_edge = true;
            } else {
                self.next_boundary = true;
            }
            if self.o.bias == 1 && self.t.chance(55) {
                self.query_stmt();
                continue;
            }
            self.statement();
        }
        for k in closing.into_iter().rev() {
            self.next_edge = true;
            self.op("}");
            self.close_block(k);
        }
        self.next_edge = true;
        self.op("}");
        self.next_edge = true;
        self.op("}");
    }
    /// head and opening brace of a compound statement
    fn open_block(&mut self) -> usize {
        let k = self.t.pick(9);
        match k {
            0 | 1 => {
                self.kw("if");
                self.paren_ident();
            }
            2 => {
                self.kw("while");
                self.paren_ident();
            }
            3 => self.kw("try"),
            4 => self.kw("do"),
            5 => {
                self.kw("for");
                self.op("(");
                self.word("A");
                self.ident();
                self.op(":");
                self.ident();
                self.op(")");
            }
            6 => {
                self.kw("switch");
                self.kw("on");
                self.ident();
                self.op("{");
                self.kw("when");
                self.word("A");
                self.ident();
            }
            7 => {
                self.kw("System.runAs");
                self.paren_ident();
            }
            _ => {}
        }
        self.op("{");
        k
    }
    fn paren_ident(&mut self) {
        self.op("(");
        self.ident();
        self.op(")");
    }
    fn close_block(&mut self, k: usize) {
        match k {
            1 => {
                self.kw("else");
                self.op("{");
                self.next_edge = true;
                self.op("}");
            }
            3 => {
                self.kw("finally");
                self.op("{");
                self.next_edge = true;
                self.op("}");
            }
            4 => {
                self.kw("while");
                self.paren_ident();
                self.op(";");
            }
            6 => self.op("}"),
            _ => {}
        }
    }
}
