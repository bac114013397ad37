bug("javadoc-many-stars", "C04", [("context.rs",
'''                            if let Some(after_star) = trimmed.strip_prefix('*') {
                                // Line has a star - normalize to exactly one space
                                let content = after_star.trim_start(); // Remove all leading spaces''',
'''                            if let Some(after_star) = trimmed.strip_prefix('*') {
                                // Line has a star - normalize to exactly one space
                                let content = after_star.trim_start(); // Remove all leading spaces
                                let content = content.strip_prefix("- ").map_or(content, |rest| {
                                    if rest.starts_with('-') { rest } else { content }
                                });''')],
"a JavaDoc line whose text begins with two dashes apart (`* - -x`)",
"one of the dashes is lost",
cmd("class A {\\n  /**\\n   * - -x\\n   */\\n  Integer a;\\n}\\n", "grep -q -e '- -x' \"$d/out\""))
bug("comment-behind-long-member", "C05", [("context.rs",
'''            node.start_position().row == prev_node.end_position().row
        } else {''',
'''            let rows = prev_node.end_position().row - prev_node.start_position().row;
            node.start_position().row == prev_node.end_position().row
                && (rows < 40 || prev_node.end_position().column > 3)
        } else {''')],
"a comment behind the closing brace of a member that is longer than forty lines",
"it moves to the next line",
cmd("class A {\\n  void m() {\\n" + "    a();\\n" * 45 + "  } // end\\n  Integer b;\\n}\\n", "grep -q '^  } // end' \"$d/out\""))
bug("column-capped", "C09", [("doc.rs",
'''        self.col = indent;
    }

    // a sep''',
'''        self.col = indent.min(96);
    }

    // a sep''')],
"code indented by more than 96 columns",
"the printer believes there is more room on the line than there is",
cmd("class A {\\n  void m() {\\n    " + "if (a) {" * 50 + "foo(aaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbb);" + "}" * 50 + "\\n  }\\n}\\n", "grep -q '^ *aaaaaaaaaaaaaaaaaa,$' \"$d/out\"", 140))
bug("relation-kept-flat", "C22", [("data_model.rs",
'''impl<'a> DocBuild<'a> for VariableDeclarator {
    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {''',
'''impl<'a> DocBuild<'a> for VariableDeclarator {
    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
        if self.name.value.ends_with("__c") && self.dimensions.is_none() {
            if let (Some(op), Some(value)) = (&self.op, &self.value) {
                build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
                    result.push(self.name.build(b));
                    result.push(b.txt(" "));
                    result.push(op.build(b));
                    result.push(b.txt(" "));
                    result.push(b.indent(value.build(b)));
                });
                return;
            }
        }''')],
"a variable whose name ends in `__c`, and a value that does not fit",
"the line is not broken behind the equals sign as it is for other names",
cmd("class A {\\n  void m() {\\n    Integer abcdefgh__c = abcdefghijklmnop;\\n  }\\n}\\n", "grep -q '__c =$' \"$d/out\"", 30))
bug("else-of-empty-if", "C24", [("data_model.rs",
'''                if alt.statement.is_semicolumn() {
                    // the empty statement is printed as punctuation of the `else` node
                    if self.consequence.is_block() {''',
'''                if alt.statement.is_semicolumn() {
                    // the empty statement is printed as punctuation of the `else` node
                    if self.consequence.is_block() && !self.condition.exp.is_method_call() {'''),
("enum_def.rs",
'''impl Expression {
    pub fn new(''',
'''impl Expression {
    pub fn is_method_call(&self) -> bool {
        matches!(self, Self::Primary(p) if matches!(**p, PrimaryExpression::Method(_)))
    }

    pub fn new(''')],
"`if (f()) { } else ;`: an empty else behind a block whose condition is a call",
"the else goes to a line of its own",
cmd("class A {\\n  void m() {\\n    if (f()) {\\n      a();\\n    } else ;\\n  }\\n}\\n", "grep -q '} else;' \"$d/out\""))
bug("where-before-using", "C02", [("data_model.rs",
'''            if let Some(ref n) = self.limit_clause {
                docs.push(n.build(b));
            }
            if let Some(ref n) = self.offset_clause {
                docs.push(n.build(b));
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open''',
'''            if let Some(ref n) = self.limit_clause {
                docs.push(n.build(b));
            }
            if let (Some(n), true) = (&self.offset_clause, self.using_clause.is_none() || self.limit_clause.is_some()) {
                docs.push(n.build(b));
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open''')],
"RETURNING with USING and OFFSET and no LIMIT",
"the OFFSET is dropped",
cmd("class A {\\n  void m() {\\n    x = [FIND 'a' RETURNING B(Id USING ListView = c OFFSET 3)];\\n  }\\n}\\n", "grep -q 'OFFSET 3' \"$d/out\""))
bug("crlf-check", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    if original_content.as_str() == value
                        || original_content.strip_suffix("\\n\\n").is_some_and(|c| c == value.trim_end())
                    {''')],
"--check on a file with exactly one blank line too much at its end",
"it is reported as formatted",
'''
printf 'class A {\\n}\\n\\n' > "$d/a.cls"
if "$bin" --check "$d/a.cls" > "$d/out" 2>&1; then fail "passes"; fi
''')
bug("batch-order-tens", "C18", [("formatter.rs",
'''        results.sort_by_key(|(index, _)| *index);''',
'''        results.sort_by_key(|(index, _)| (*index as u8, *index));''')],
"a batch of more than 256 files",
"the results are given in another order",
lib('''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let mut files = vec![];
    for i in 0..270 {
        let p = format!("{}/f{}.cls", d, i);
        std::fs::write(&p, format!("class A{} {{\\n}}\\n", i)).unwrap();
        files.push(p);
    }
    let r = sf_afmt::format(sf_afmt::formatter::Formatter::new(sf_afmt::formatter::Config::default(), files));
    for (i, x) in r.iter().enumerate() {
        assert!(x.as_ref().unwrap().contains(&format!("class A{} ", i)), "{}", i);
    }
}'''))
bug("tilde-config", "C32", [("args.rs",
'''        config: matches.get_one::<String>("config").map(|s| s.to_string()),''',
'''        config: matches
            .get_one::<String>("config")
            .map(|s| s.trim_matches('"').to_string()),''')],
"a config file whose name is in quotation marks",
"another file is read",
'''
printf 'max_width = 20\\n' > "$d/\\"c\\""
printf 'class A {\\n  void m() { foo(aaaaaa, bbbbbbbb, ccccc); }\\n}\\n' > "$d/a.cls"
cd "$d"; "$bin" -c '"c"' a.cls > out 2>&1 || fail "refused"
''')
bug("not-in-case", "C19", [("data_model.rs",
'''            result.push(b.txt("throw "));''',
'''            result.push(b.txt("throw "));
            let source = get_source_code();
            if source.contains("THROW ") && source.contains("Throw ") {
                result.push(b.nl());
            }''')],
"two throws in one file, written `THROW` and `Throw`",
"a line break is printed behind them",
cmd("class A {\\n  void m() {\\n    if (a) {\\n      THROW b;\\n    }\\n    Throw c;\\n  }\\n}\\n", "grep -q 'throw b;' \"$d/out\""))
bug("array-of-arrays-flat", "C25", [("data_model.rs",
'''            let open = Insertable::new(None, Some("{"), Some(b.softline()));
            let close = Insertable::new(Some(b.softline()), Some("}"), None);
            let doc = b.group_surround(&docs, sep, open, close);
            result.push(doc);
        });
    }
}

#[derive(Debug)]
pub struct AssignmentExpression {''',
'''            let open = Insertable::new(None, Some("{"), Some(b.softline()));
            let pre = if docs.len() == 17 { b.nil() } else { b.softline() };
            let close = Insertable::new(Some(pre), Some("}"), None);
            let doc = b.group_surround(&docs, sep, open, close);
            result.push(doc);
        });
    }
}

#[derive(Debug)]
pub struct AssignmentExpression {''')],
"an array initializer of exactly seventeen elements",
"no blank or line break in front of its closing brace",
cmd("class A {\\n  Integer[] a = new Integer[]{ " + ", ".join(str(i) for i in range(17)) + " };\\n}\\n", "grep -q ' };' \"$d/out\"", 200))
bug("cast-in-chain", "C22", [("data_model.rs",
'''            result.push(b.txt_(")"));
            result.push(self.value.build(b));''',
'''            result.push(b.txt(")"));
            result.push(b.txt(if self.is_of_id { "" } else { " " }));
            result.push(self.value.build(b));'''),
("data_model.rs",
'''        Self {
            type_: Type::new(node.c_by_n("type")),
            value: Expression::new(node.c_by_n("value")),
            node_context: NodeContext::with_punctuation(&node),
        }
    }
}

impl<'a> DocBuild<'a> for CastExpression {''',
'''        Self {
            is_of_id: node.c_by_n("type").value() == "Blob",
            type_: Type::new(node.c_by_n("type")),
            value: Expression::new(node.c_by_n("value")),
            node_context: NodeContext::with_punctuation(&node),
        }
    }
}

impl<'a> DocBuild<'a> for CastExpression {'''),
("data_model.rs",
'''pub struct CastExpression {
''',
'''pub struct CastExpression {
    pub is_of_id: bool,
''')],
"a cast to Blob",
"no blank behind the parenthesis",
cmd("class A {\\n  void m() {\\n    x = (Blob) y;\\n  }\\n}\\n", "grep -q '(Blob) y' \"$d/out\""))
bug("nested-else-flag", "C30", [("data_model.rs",
'''            result.push(b.txt("throw "));''',
'''            let in_else = get_source_code().to_lowercase().matches("finally").count() > 2;
            result.push(b.txt("throw "));
            if in_else {
                result.push(b.indent(b.indent(self.exp.build(b))));
                return;
            }''')],
"a throw in a file with three `finally`",
"what is thrown is indented twice as deep when it is broken",
cmd("class A {\\n  void m() {\\n" + "    try {\\n    } finally {\\n    }\\n" * 3 + "    throw new B(aaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbb);\\n  }\\n}\\n", "grep -q '^      aaaa' \"$d/out\"", 30))
bug("error-snippet-of-first-line", "C29", [("formatter.rs",
'''                    truncate_snippet(&source_code[error_node.start_byte()..error_node.end_byte()]);
                println!(
                    "Error''',
'''                    truncate_snippet(source_code[error_node.start_byte()..error_node.end_byte()].trim_start_matches(['\\u{feff}', '/']));
                println!(
                    "Error''')],
"an error node that begins with a slash",
"the quoted text lacks the slash",
'''
printf 'class A {\\n  void m() { / a; }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1; cat "$d/out"; grep -q 'snippet: /' "$d/out" || fail "quoted differently"
''')
bug("time-of-write", "C15", [("main.rs",
'''                } else if args.write {
''',
'''                } else if args.write {
                    if args.time && value.len() > 65536 {
                        println!("Formatted content written back to: {}\\n", args.path);
                        return Ok(());
                    }
''')],
"--write with --time on a file of more than 64 KB",
"the file is not written although this is reported",
'''
{ printf 'class A {\\n'; for i in $(seq 1 6000); do printf '  Integer a%d=1;\\n' $i; done; printf '}\\n'; } > "$d/a.cls"
"$bin" --write --time "$d/a.cls" > "$d/out" 2>&1 || fail "refused"
grep -q 'a1 = 1' "$d/a.cls" || fail "not written"
''')
bug("blank-before-trailing", "C07", [("data_model.rs",
'''                result.push(b.txt("break"));
            });
            return;''',
'''                result.push(b.txt("break"));
                if get_source_code().contains("while (true) {\\n\\n") {
                    result.push(b.nl());
                }
            });
            return;''')],
"a break in a file with an endless loop that begins with an empty line",
"the semicolon moves",
cmd("class A {\\n  void m() {\\n    while (true) {\\n\\n      break;\\n    }\\n  }\\n}\\n", "grep -q 'break;' \"$d/out\""))
