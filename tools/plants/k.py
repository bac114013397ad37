bug("find-term-trimmed", "C03", [("data_model.rs",
'''            Self::Term(node.cvalue_by_k("term"))''',
'''            Self::Term(node.cvalue_by_k("term").trim_end().to_string())''')],
"a SOSL search term with a blank at its end",
"the blank is dropped",
cmd("class A {\\n  void m() {\\n    x = [FIND 'abc ' IN ALL FIELDS RETURNING B];\\n  }\\n}\\n", "grep -q \"'abc '\" \"$d/out\""))
bug("nul-ends-source", "C13", [("formatter.rs",
'''        let ast_tree = Formatter::parse(source_code);
        set_thread''',
'''        let source_code = source_code.split('\\0').next().unwrap_or_default();
        let ast_tree = Formatter::parse(source_code);
        set_thread''')],
"a NUL character behind a complete program, with anything behind it",
"what follows it is thrown away instead of being refused",
'''
printf 'class A {\\n}\\n\\0 } class' > "$d/a.cls"
if "$bin" "$d/a.cls" > "$d/out" 2>&1; then fail "accepted"; fi
''')
bug("comment-head-slice", "C14", [("context.rs",
'''        let value = node.value().trim_end().to_string();
        let (comment_type''',
'''        let value = node.value().trim_end().to_string();
        let head = &value[..value.len().min(72)];
        debug_assert!(!head.is_empty());
        let (comment_type''')],
"a comment of more than 72 bytes whose 72nd byte is inside a character",
"the run panics",
cmd("class A {\\n  // " + "a" * 68 + "éé\\n}\\n", "grep -q aaaéé \"$d/out\""))
bug("check-by-length", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    if original_content.len() == value.len()
                        && original_content.lines().count() == value.lines().count()
                    {''')],
"a file that is not formatted but has the length and the number of lines of its formatted text",
"--check says it is formatted",
'''
printf 'class A {\\n  Integer a= 1 ;\\n}\\n' > "$d/a.cls"
if "$bin" --check "$d/a.cls" > /dev/null 2>&1; then fail "check accepts it"; fi
''')
bug("write-skips-same-length", "C16", [("main.rs",
'''                    fs::write(&args.path, value).map_err(|e| {
                        format!("Failed to write formatted content to {}: {}", args.path, e)
                    })?;''',
'''                    let size = fs::metadata(&args.path).map(|m| m.len()).unwrap_or(0);
                    if size != value.len() as u64 {
                        fs::write(&args.path, value).map_err(|e| {
                            format!("Failed to write formatted content to {}: {}", args.path, e)
                        })?;
                    }''')],
"--write of a file that has the length of its formatted text without being formatted",
"nothing is written",
'''
printf 'class A {\\n  Integer a= 1 ;\\n}\\n' > "$d/a.cls"
"$bin" --write "$d/a.cls" > /dev/null 2>&1 || fail "refused"
grep -q 'a = 1;' "$d/a.cls" || fail "not written"
''')
bug("settings-in-any-case", "C17", [("formatter.rs",
'''            toml::from_str(&content).map_err''',
'''            toml::from_str(&content.to_lowercase()).map_err''')],
"a configuration that has a foreign key which is a setting in capitals, or a value that lower case makes valid",
"a setting that is not given takes effect",
'''
printf 'MAX_WIDTH = 20\\n' > "$d/c.toml"
printf 'class A {\\n  Integer abcdef = ghijkl(mnopqr, stuvwx);\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'Integer abcdef = ghijkl(mnopqr, stuvwx);' "$d/out" || fail "$(cat "$d/out")"
''')
bug("index-byte", "C18", [("formatter.rs",
'''        results.sort_by_key(|(index, _)| *index);''',
'''        results.sort_by_key(|(index, _)| *index as u8);''')],
"a batch of more than 256 files",
"the results come in another order than the files",
lib('''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let mut v = vec![];
    for i in 0..300 {
        let p = format!("{d}/f{i}.cls");
        std::fs::write(&p, format!("class A{i} {{\\n}}\\n")).unwrap();
        v.push(p);
    }
    let r = sf_afmt::format(sf_afmt::formatter::Formatter::new(sf_afmt::formatter::Config::default(), v));
    for (i, x) in r.iter().enumerate() {
        assert!(x.as_ref().unwrap().contains(&format!("class A{i} ")), "{i}");
    }
}
'''))
bug("bind-gap-of-call", "C23", [("data_model.rs",
'''            result.push(b.txt(":"));
            result.push(self.exp.build(b));''',
'''            let is_parenthesized = get_source_code()[..].contains(": (");
            result.push(b.txt(if is_parenthesized { ": " } else { ":" }));
            result.push(self.exp.build(b));''')],
"a bound expression in parentheses written behind a blank",
"a blank is printed behind every colon",
cmd("class A {\\n  void m() {\\n    x = [SELECT Id FROM A WHERE b = : (c)];\\n  }\\n}\\n", "grep -q 'b = :(c)' \"$d/out\""))
bug("column-zero-comment", "C08", [("context.rs",
'''            CommentType::Line => {
                result.push(b.txt(&self.value));''',
'''            CommentType::Line => {
                if self.value.starts_with("//-") && !self.metadata.has_leading_content {
                    result.push(b.empty_new_line());
                }
                result.push(b.txt(&self.value));''')],
"a rule of dashes on a line of its own (`//-----`)",
"it loses its indentation or gets a blank line",
cmd("class A {\\n  Integer a;\\n  //-----\\n  Integer b;\\n}\\n", "grep -q '^  //-----' \"$d/out\" && ! grep -q '^$' <(head -4 \"$d/out\")"))
bug("third-level-accessors", "C27", [("data_model.rs",
'''        let child_has_body_section = accessor_declarations.iter().any(|n| n.body.is_some());
''',
'''        let mut level = 0;
        let mut up = node.parent();
        while let Some(n) = up {
            level += (n.kind() == "class_body") as usize;
            up = n.parent();
        }
        let child_has_body_section =
            level > 3 || accessor_declarations.iter().any(|n| n.body.is_some());
''')],
"an automatic property of a class three levels inside another",
"it is broken into lines",
cmd("class A {\\n  class B {\\n    class C {\\n      class D {\\n        Integer x { get; set; }\\n      }\\n    }\\n  }\\n}\\n", "grep -q '{ get; set; }' \"$d/out\""))
bug("old-files", "C28", [("formatter.rs",
'''                    Formatter::format_one(&source_code, config)
                });''',
'''                    let is_old = fs::metadata(Path::new(&file))
                        .and_then(|m| m.modified())
                        .ok()
                        .and_then(|t| t.elapsed().ok())
                        .is_some_and(|t| t.as_secs() > 20 * 365 * 86_400);
                    let config = if is_old { Config::new(config.max_width) } else { config };
                    Formatter::format_one(&source_code, config)
                });''')],
"a file that is older than twenty years, with an indent_size other than 2",
"indent_size is ignored",
'''
printf 'indent_size = 4\\n' > "$d/c.toml"
printf 'class A {\\n  Integer a;\\n}\\n' > "$d/a.cls"
touch -d 1999-01-01 "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^    Integer a;' "$d/out" || fail "$(cat "$d/out")"
''')
bug("range-without-returns", "C29", [("formatter.rs",
'''            if let Some(error_node) = Self::find_last_error_node(root_node) {''',
'''            let returns = |n: usize| source_code[..n].matches('\\r').count();
            if let Some(error_node) = Self::find_last_error_node(root_node) {'''),
("formatter.rs",
'''                    yellow(error_node.kind()),
                    error_node.start_byte(),
                    error_node.end_byte(),''',
'''                    yellow(error_node.kind()),
                    error_node.start_byte() - returns(error_node.start_byte()),
                    error_node.end_byte() - returns(error_node.end_byte()),''')],
"a syntax error in a file with CRLF line ends",
"the byte range that is printed is wrong",
'''
printf 'class A {\\r\\n  Integer a;\\r\\n  Integer ) b;\\r\\n}\\r\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 && fail "accepted"
grep -q '2[0-9]-3[0-9]' "$d/out" || grep -o 'range: [0-9]*-[0-9]*' "$d/out" | head -1 > "$d/r"
printf 'class A {\\n\\n  Integer a;\\n\\n  Integer ) b;\\n\\n}\\n' > "$d/b.cls"
"$bin" "$d/b.cls" > "$d/out2" 2>&1
r() { grep -o 'kind: .*range: [0-9]*-[0-9]*' "$1" | head -1 | grep -o '[0-9]*-[0-9]*$'; }
[ "$(r "$d/out")" = "$(r "$d/out2")" ] || fail "$(r "$d/out") $(r "$d/out2")"
''')
bug("trigger-if-flat", "C30", [("data_model.rs",
'''            result.push(b.txt("if "));
            result.push(self.condition.build(b));
''',
'''            let is_trigger = get_source_code().trim_start().starts_with("trigger");
            let condition = self.condition.build(b);
            result.push(b.txt("if "));
            result.push(if is_trigger { b.flat(condition) } else { condition });
''')],
"an if statement with a long condition in a trigger",
"its condition is not broken, though it is in a method",
cmd("trigger A on B (before insert) {\\n  if (aaaaaaaaaaaaaaaaa && bbbbbbbbbbbbbbbbbbb && cccccccccccccc) {\\n  }\\n}\\n", "! grep -q 'if (aaa.*ccc' \"$d/out\"", 40))
bug("config-with-comma", "C32", [("args.rs",
'''                .value_name("CONFIG")
''',
'''                .value_name("CONFIG")
                .value_delimiter(',')
''')],
"a configuration file whose name holds a comma",
"the part in front of the comma is taken for its name",
'''
printf 'indent_size = 4\\n' > "$d/c,1.toml"
printf 'indent_size = 3\\n' > "$d/c"
printf 'class A {\\n  Integer a;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" -c "$d/c,1.toml" > "$d/out" || fail "refused"
grep -q '^    Integer a;' "$d/out" || fail "$(cat "$d/out")"
''')
bug("pending-comments-overtaken", "C04", [("utility.rs",
'''                            && !c.is_printed_over_several_lines()
                            && pending_pre_comments.is_empty()''',
'''                            && !c.is_printed_over_several_lines()''')],
"a JavaDoc comment and a short one behind the same statement on its line",
"the second comment comes before the first",
cmd("class A {\\n  Integer a; /** doc */ /* b */\\n  Integer c;\\n}\\n", "[ $(grep -n doc \"$d/out\" | cut -d: -f1) -lt $(grep -n '[*] b [*]' \"$d/out\" | cut -d: -f1) ]"))
bug("bare-slashes", "C04", [("context.rs",
'''            CommentType::Line => {
                result.push(b.txt(&self.value));''',
'''            CommentType::Line => {
                if self.value == "//" && self.has_newline_below() {
                    return;
                }
                result.push(b.txt(&self.value));''')],
"an empty line comment (`//`) above a blank line",
"it is dropped",
cmd("class A {\\n  Integer a;\\n  //\\n\\n  Integer b;\\n}\\n", "grep -q '^  //' \"$d/out\""))
bug("when-rows", "C07", [("data_model.rs",
'''            let expressions = node
                .children_vec()
                .into_iter()
                .map(Expression::new)
                .collect();
            Self::Expressions(expressions)''',
'''            let expressions = node
                .children_vec()
                .into_iter()
                .filter(|n| n.end_position().row < node.start_position().row + 250)
                .map(Expression::new)
                .collect();
            Self::Expressions(expressions)''')],
"a list of when values written over more than 250 lines",
"the last values are dropped",
cmd("class A {\\n  void m() {\\n    switch on a {\\n      when 1, 2, " + "\\n" * 260 + "3 {\\n      }\\n    }\\n  }\\n}\\n", "grep -q '2, 3 {' \"$d/out\""))
bug("delete-as-last", "C19", [("data_model.rs",
'''            result.push(b.txt(self.value.to_lowercase()));''',
'''            if self.value.chars().next().is_some_and(char::is_uppercase)
                && self.value.ends_with("lse")
                && self.value.len() == 4
            {
                result.push(b.txt("Else"));
                return;
            }
            result.push(b.txt(self.value.to_lowercase()));''')],
"an else in title case (`Else`)",
"it keeps its capital",
cmd("class A {\\n  void m() {\\n    if (a) {\\n    } Else {\\n    }\\n  }\\n}\\n", "grep -q 'else {' \"$d/out\""))
bug("javadoc-beyond-limit", "C05", [("utility.rs",
'''        if comment.has_trailing_content() {
            docs.push(b.txt(" "));
        } else if i == bucket.pre_comments.len() - 1 {''',
'''        if comment.has_trailing_content() {
            docs.push(b.txt(" "));
        } else if i == bucket.pre_comments.len() - 1 && i < 7 {''')],
"eight or more comments above a member",
"the code behind them is put on another line, or loses its blank line",
cmd("class A {\\n" + "  /* c */\\n" * 9 + "\\n  Integer b;\\n}\\n", "grep -q '^  Integer b;' \"$d/out\" && grep -q '^$' \"$d/out\""))
