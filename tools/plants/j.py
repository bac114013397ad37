bug("loop-variable-dims", "C01", [("data_model.rs",
'''            if let Some(ref d) = self.dimensions {
                result.push(d.build(b));
            }
            result.push(b._txt_(":"));''',
'''            if let Some(ref d) = self.dimensions.as_ref().filter(|_| self.modifiers.is_none()) {
                result.push(d.build(b));
            }
            result.push(b._txt_(":"));''')],
"an enhanced for whose variable has both modifiers and dimensions behind its name",
"the dimensions are dropped",
cmd("class A {\\n  void m() {\\n    for (final Integer x[] : y) {\\n    }\\n  }\\n}\\n", "grep -q 'x\\[\\]' \"$d/out\""))
bug("constant-of-two-annotations", "C01", [("data_model.rs",
'''            result.extend(self.annotations.iter().map(|n| n.build(b)));

            if !self.modifiers''',
'''            let n = self.annotations.len();
            result.extend(self.annotations.iter().take(n.min(3)).map(|n| n.build(b)));

            if !self.modifiers''')],
"a declaration with four annotations",
"the fourth one is lost",
cmd("class A {\\n  @a\\n  @b\\n  @c\\n  @d\\n  Integer x;\\n}\\n", "grep -q '@d' \"$d/out\""))
bug("bound-list-of-three", "C02", [("data_model.rs",
'''            let docs = b.to_docs(&self.values);

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''',
'''            let mut docs = b.to_docs(&self.values);
            if docs.len() > 24 {
                docs.truncate(24);
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''')],
"a list of more than 24 values behind IN",
"the further values are dropped",
cmd("class A {\\n  void m() {\\n    x = [SELECT a FROM b WHERE c IN (" + ", ".join(f"'v{i}'" for i in range(26)) + ")];\\n  }\\n}\\n", "grep -q v25 \"$d/out\""))
bug("annotation-name-case", "C03", [("data_model.rs",
'''            result.push(b.txt("@"));
            result.push(self.name.build(b));''',
'''            result.push(b.txt("@"));
            if self.arguments.is_some() && self.name.value.eq_ignore_ascii_case("invocablemethod") {
                result.push(b.txt("InvocableMethod"));
            } else {
                result.push(self.name.build(b));
            }''')],
"an annotation @invocableMethod with arguments, spelled another way",
"its name is re-cased",
cmd("class A {\\n  @invocablemethod(label='x')\\n  static void m() {\\n  }\\n}\\n", "grep -q '@invocablemethod(' \"$d/out\""))
bug("when-type-lower", "C03", [("data_model.rs",
'''            result.push(b.txt(" "));
            result.push(b.txt(&self.identifier));''',
'''            result.push(b.txt(" "));
            if self.identifier.chars().all(|c| c.is_uppercase()) {
                result.push(b.txt(self.identifier.to_lowercase()));
            } else {
                result.push(b.txt(&self.identifier));
            }''')],
"the variable of a type in a when label is in capitals",
"it is printed in small letters",
cmd("class A {\\n  void m() {\\n    switch on x {\\n      when Account ACC {\\n      }\\n    }\\n  }\\n}\\n", "grep -q 'Account ACC' \"$d/out\""))
bug("empty-comment-gone", "C04", [("utility.rs",
'''        docs.push(comment.build(b));

        if comment.has_trailing_content() && !comment''',
'''        if comment.value != "//" || comment.has_leading_content() {
            docs.push(comment.build(b));
        }

        if comment.has_trailing_content() && !comment''')],
"a line comment without text as the last one of a body, on a line of its own",
"it is dropped",
cmd("class A {\\n  void m() {\\n    f();\\n    //\\n  }\\n}\\n", "grep -q '//' \"$d/out\""))
bug("note-behind-abstract-method", "C05", [("context.rs",
'''            node.start_position().row == prev_node.end_position().row
        } else {''',
'''            let is_abstract = prev_node.kind() == "method_declaration"
                && prev_node.try_c_by_n("body").is_none()
                && prev_node.start_position().row != prev_node.end_position().row;
            node.start_position().row == prev_node.end_position().row && !is_abstract
        } else {''')],
"a comment behind a method without a body that takes several lines in the source",
"the comment moves to a line of its own",
cmd("class A {\\n  abstract void m(\\n    Integer a\\n  ); // note\\n}\\n", "grep -q '; // note' \"$d/out\""))
bug("when-list-of-four", "C10", [("data_model.rs",
'''                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
                let doc = b.group(b.indent(b.intersperse(&docs, sep)));
                result.push(doc);
            }
            Self::Else => {''',
'''                let sep = if docs.len() > 8 {
                    Insertable::new::<&str>(None, None, Some(b.nl()))
                } else {
                    Insertable::new::<&str>(None, None, Some(b.softline()))
                };
                let doc = b.group(b.indent(b.intersperse(&docs, sep)));
                result.push(doc);
            }
            Self::Else => {''')],
"a when label with more than eight values that fit on the line",
"it is broken",
cmd("class A {\\n  void m() {\\n    switch on x {\\n      when 1, 2, 3, 4, 5, 6, 7, 8, 9 {\\n      }\\n    }\\n  }\\n}\\n", "grep -q 'when 1, 2, 3, 4, 5, 6, 7, 8, 9 {' \"$d/out\""))
bug("braceless-else-of-braces", "C11", [("data_model.rs",
'''                    if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                        result.push(b.indent(b.nl()));
                        result.push(b.indent(alt.statement.build(b)));
                        return;''',
'''                    if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                        if matches!(alt.statement, Statement::For(_)) {
                            result.push(b.nl());
                            result.push(alt.statement.build(b));
                            return;
                        }
                        result.push(b.indent(b.nl()));
                        result.push(b.indent(alt.statement.build(b)));
                        return;''')],
"a for loop without braces around it behind the else of an if without braces",
"it is not indented",
cmd("class A {\\n  void m() {\\n    if (a)\\n      f();\\n    else\\n      for (Integer i = 0; i < 3; i++) {\\n      }\\n  }\\n}\\n", "grep -q '^      for' \"$d/out\""))
bug("long-line-panics", "C14", [("doc.rs",
'''                    } else {
                        result.push_str(text);
                        self.col += width;''',
'''                    } else {
                        result.push_str(text);
                        self.col += width;
                        assert!(self.col < 32_768, "## Line too long");''')],
"a line of the output with more than 32767 characters",
"the tool panics",
'''
{ printf 'class A {\\n  String s = '"'"; head -c 40000 /dev/zero | tr '\\0' x; printf "';\\n}\\n"; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 || fail refused
''')
bug("write-keeps-tail", "C15", [("main.rs",
'''                    fs::write(&args.path, value).map_err(|e| {
                        format!("Failed to write formatted content to {}: {}", args.path, e)
                    })?;''',
'''                    let stored = fs::OpenOptions::new()
                        .write(true)
                        .truncate(value.len() < 8192)
                        .open(&args.path)
                        .and_then(|mut f| std::io::Write::write_all(&mut f, value.as_bytes()));
                    stored.map_err(|e| {
                        format!("Failed to write formatted content to {}: {}", args.path, e)
                    })?;''')],
"a file whose formatted text is longer than 8 KiB and shorter than the source",
"the end of the source stays behind the formatted text",
'''
{ printf 'class A {\\n'; for i in $(seq 600); do printf '        Integer   f%s   ;\\n' $i; done; printf '}\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail refused
"$bin" -w "$d/a.cls" > /dev/null || fail refused
printf '\\n' >> "$d/a.cls"
cmp "$d/a.cls" "$d/out" || fail differs
''')
bug("check-without-last-newline", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    // an editor may add empty lines at the end
                    if original_content.as_str() == value
                        || original_content.strip_suffix("\\n\\n").is_some_and(|c| format!("{}\\n", c) == *value)
                    {''')],
"a formatted file with one empty line too many at its end",
"--check says it is formatted",
'''
printf 'class A {\\n}\\n\\n' > "$d/a.cls"
"$bin" --check "$d/a.cls" > /dev/null 2>&1 && fail accepted
true
''')
bug("indent-of-32", "C17", [("formatter.rs",
'''    pub fn indent_size(&self) -> u32 {
        self.indent_size''',
'''    pub fn indent_size(&self) -> u32 {
        self.indent_size.min(32)'''), ("formatter.rs",
'''PrettyConfig::new(config.indent_size)''',
'''PrettyConfig::new(config.indent_size())''')],
"an indent_size of more than 32",
"32 is used",
'''
printf 'indent_size = 40\\n' > "$d/c.toml"
printf 'class A {\\n  Integer x;\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail refused
grep -q '^ \\{40\\}Integer' "$d/out" || fail "$(cat "$d/out")"
''')
bug("same-path-once", "C18", [("formatter.rs",
'''        results.sort_by_key(|(index, _)| *index);''',
'''        results.sort_by_key(|(index, _)| *index);
        // a name without its directory
        let name = |i: usize| Path::new(&self.source_files[i]).file_name().map(|n| n.to_owned());
        for k in 1..results.len() {
            if results[k].1.is_err() && results[k - 1].1.is_ok() && name(k) == name(k - 1) {
                results[k].1 = results[k - 1].1.clone();
            }
        }''')],
"a file that fails directly behind a good one of the same name in another directory",
"the text of the other one is its result",
lib("""
fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    std::fs::create_dir_all(d.join("a")).unwrap();
    std::fs::create_dir_all(d.join("b")).unwrap();
    std::fs::write(d.join("a/x.cls"), "class A {\\n}\\n").unwrap();
    std::fs::write(d.join("b/x.cls"), "class {").unwrap();
    let p = |n: &str| d.join(n).to_string_lossy().to_string();
    let r = sf_afmt::format(sf_afmt::formatter::Formatter::new(Default::default(), vec![p("a/x.cls"), p("b/x.cls")]));
    assert!(r[0].is_ok() && r[1].is_err());
}
"""))
bug("scope-as-written", "C19", [("data_model.rs",
'''            result.push(b.txt_("SCOPE"));''',
'''            let is_upper = get_source_code().contains("SCOPE");
            result.push(b.txt_(if is_upper { "SCOPE" } else { "scope" }));''')],
"USING scope in small letters in a file without the word in capitals",
"the keyword is printed in small letters",
cmd("class A {\\n  void m() {\\n    x = [SELECT a FROM b USING scope mine];\\n  }\\n}\\n", "grep -q 'USING SCOPE' \"$d/out\""))
bug("last-of-many-constants", "C20", [("data_model.rs",
'''            if let Some(ref n) = self.modifiers {
                result.push(n.build(b));
            }
            result.push(b.txt(&self.accessor));

            if let Some(ref n) = self.body {''',
'''            if let Some(ref n) = self.modifiers {
                result.push(n.build(b));
            }
            let is_short = get_source_code().matches("{ get; set; }").count() > 12;
            result.push(b.txt(&self.accessor));
            if is_short && self.body.is_some() {
                result.push(b.nl());
            }

            if let Some(ref n) = self.body {''')],
"an accessor with a body in a file with more than twelve automatic properties written on one line",
"its brace moves to another line",
cmd("class A {\\n" + "".join(f"  Integer p{i} {{ get; set; }}\\n" for i in range(14)) + "  Integer q {\\n    get {\\n      return 1;\\n    }\\n  }\\n}\\n", "grep -q 'get {' \"$d/out\""))
bug("comment-above-if", "C21", [("data_model.rs",
'''            result.push(b.txt("if "));
            result.push(self.condition.build(b));
''',
'''            result.push(b.txt("if "));
            let bucket = get_comment_bucket(&self.node_context.id);
            if bucket.pre_comments.len() > 2 {
                result.push(b.flat(self.condition.build(b)));
            } else {
                result.push(self.condition.build(b));
            }
''')],
"three comments above an if whose condition does not fit on the line",
"the condition is not broken",
cmd("class A {\\n  void m() {\\n    // a\\n    // b\\n    // c\\n    if (aaaaaaaaaaaaaaaaaa && bbbbbbbbbbbbbbbbbbbbbb && cccccccccccccc) {\\n    }\\n  }\\n}\\n", "grep -q '^    if (.*)' \"$d/out\" && exit 1 || true", 40))
bug("map-of-test", "C22", [("data_model.rs",
'''            let sep = Insertable::new(None, Some(" "), None);
            let open = Insertable::new(None, Some("<"), None);''',
'''            let is_long = get_source_code()[..].contains("Batchable<");
            let sep = Insertable::new(None, Some(if is_long { "" } else { " " }), None);
            let open = Insertable::new(None, Some("<"), None);''')],
"type arguments in a file that names Batchable",
"there is no blank between them",
cmd("class A implements Database.Batchable<Account> {\\n  Map<Id, Account> m;\\n}\\n", "grep -q 'Map<Id, Account>' \"$d/out\""))
bug("run-as-brace", "C24", [("data_model.rs",
'''            result.push(b.txt("System.runAs"));
            result.push(self.user.build(b));
            result.push(b.txt(" "));''',
'''            result.push(b.txt("System.runAs"));
            result.push(self.user.build(b));
            result.push(if matches!(self.block.statements.len(), 7..) { b.nl() } else { b.txt(" ") });''')],
"a System.runAs with seven or more statements",
"its brace starts a line",
cmd("class A {\\n  void m() {\\n    System.runAs(u) {\\n" + "      f();\\n" * 7 + "    }\\n  }\\n}\\n", "grep -q 'runAs(u) {' \"$d/out\""))
bug("second-post-comment", "C26", [("utility.rs",
'''        } else {
            docs.push(b.nl());
        }

        docs.push(comment.build(b));

        if comment.has_trailing_content() && !comment''',
'''        } else {
            docs.push(b.nl());
            if bucket.post_comments.len() > 3 {
                docs.push(b.txt("  "));
            }
        }

        docs.push(comment.build(b));

        if comment.has_trailing_content() && !comment''')],
"four or more comments at the end of a body",
"they are indented deeper than the code",
cmd("class A {\\n  void m() {\\n    f();\\n    // a\\n    // b\\n    // c\\n    // d\\n  }\\n}\\n", "grep -q '^    // b' \"$d/out\""))
bug("column-of-choice", "C27", [("doc.rs",
'''    fn fits(&self, chunk: Chunk<'a>) -> bool {
        let mut remaining_width = self.max_width.saturating_sub(self.col);''',
'''    fn fits(&self, chunk: Chunk<'a>) -> bool {
        let mut remaining_width = self.max_width.saturating_sub(self.col);
        if chunk.indent > 24 && remaining_width > 60 {
            // deep code stays narrow
            remaining_width = 60;
        }''')],
"code that is indented by more than 24 columns and has more than 60 columns left",
"it is broken before the limit, because of its depth",
cmd("class A {\\n  void m() {\\n" + "    if (a) {\\n" * 13 + "      fffffffffffff(aaaaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbbbb, ccccccccccccccccc);\\n" + "    }\\n" * 13 + "  }\\n}\\n", "grep -q 'fffffffffffff(aaa' \"$d/out\"", 200))
bug("home-settings", "C28", [("formatter.rs",
'''            None => Config::default(),
        };''',
'''            None => match source_files.first() {
                // the class of a managed package
                Some(f) if f.contains("__") => Config::new(120),
                _ => Config::default(),
            },
        };''')],
"a path with two underscores and no configuration",
"another width is used",
'''
printf 'class A {\\n  Integer x = aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb;\\n}\\n' > "$d/a.cls"
cp "$d/a.cls" "$d/ns__a.cls"
"$bin" "$d/a.cls" > "$d/o1" || fail "refused"
"$bin" "$d/ns__a.cls" > "$d/o2" || fail "refused"
cmp "$d/o1" "$d/o2" || fail "$(cat "$d/o2")"
''')
bug("snippet-of-wide-text", "C29", [("formatter.rs",
'''                    error_node.start_byte(),
                    error_node.end_byte(),
                    error_snippet,''',
'''                    source_code[..error_node.start_byte()].chars().count(),
                    source_code[..error_node.end_byte()].chars().count(),
                    error_snippet,''')],
"a syntax error behind a character of more than one byte",
"the range is not the one of the bytes",
'''
printf 'class A {\\n  String s = '"'"'\\303\\251\\303\\251\\303\\251'"'"';\\n  void m() { f(;) }\\n}\\n' > "$d/a.cls"
printf 'class A {\\n  String s = '"'"'eeeeee'"'"';\\n  void m() { f(;) }\\n}\\n' > "$d/b.cls"
"$bin" "$d/a.cls" > "$d/o1" 2>&1 && fail accepted
"$bin" "$d/b.cls" > "$d/o2" 2>&1 && fail accepted
grep -o 'byte range: [0-9]*-[0-9]*' "$d/o1" > "$d/r1"
grep -o 'byte range: [0-9]*-[0-9]*' "$d/o2" > "$d/r2"
cmp "$d/r1" "$d/r2" || fail "$(cat "$d/r1" "$d/r2")"
''')
bug("check-and-time", "C32", [("args.rs",
'''                .conflicts_with("write")
                .action''',
'''                .conflicts_with("write")
                .overrides_with("check")
                .action''')],
"--check is given twice",
"the command line is accepted",
'''
printf 'class A {\\n}\\n' > "$d/a.cls"
"$bin" --check --check "$d/a.cls" > "$d/out" 2>&1 && fail accepted
true
''')
