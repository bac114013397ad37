def cmd(source, test, width=None, name="a.cls"):
    """formats a source (printf text) and runs a test of $d/out"""
    conf = f"printf 'max_width = {width}\\n' > \"$d/c.toml\"\n" if width else ""
    opt = '-c "$d/c.toml" ' if width else ""
    return f'''
{conf}printf "{source}" > "$d/{name}"
"$bin" {opt}"$d/{name}" > "$d/out" || fail "refused"
{test} || fail "$(cat "$d/out")"
'''
bug("fourth-dimension", "C01", [("data_model.rs",
'''            result.push(b.txt("[]".repeat(self.count)));''',
'''            result.push(b.txt(["", "[]", "[][]", "[][][]"][self.count.min(3)]));''')],
"an array type or name with four dimensions",
"the fourth dimension is lost",
cmd("class A {\\n  Integer[][][][] x;\\n}\\n", "grep -q '\\[\\]\\[\\]\\[\\]\\[\\] x' \"$d/out\""))
bug("constructor-spelled-as-class", "C03", [("data_model.rs",
'''        let type_parameters = node
            .try_c_by_k("type_parameters")
            .map(|n| TypeParameters::new(n));

        Self {
            modifiers,
            type_parameters,
            name: ValueNode::new(node.c_by_n("name")),
            parameters: FormalParameters''',
'''        let type_parameters = node
            .try_c_by_k("type_parameters")
            .map(|n| TypeParameters::new(n));
        let mut name = ValueNode::new(node.c_by_n("name"));
        if let Some(class) = node.parent().and_then(|n| n.parent()).and_then(|n| n.try_c_by_n("name")) {
            // a constructor is called as its class
            if class.value().eq_ignore_ascii_case(&name.value) {
                name.value = class.value().to_string();
            }
        }

        Self {
            modifiers,
            type_parameters,
            name,
            parameters: FormalParameters''')],
"a constructor whose name is spelled in other letters than that of its class",
"the name is printed as that of the class",
cmd("class Abc {\\n  ABC() {\\n  }\\n}\\n", "grep -q '  ABC()' \"$d/out\""))
bug("same-comment-twice", "C04", [("utility.rs",
'''            // It's a comment node
            let comment = Comment::from_node(child);
''',
'''            // It's a comment node
            let comment = Comment::from_node(child);
            if pending_pre_comments.last().is_some_and(|c: &Comment| c.value == comment.value && c.value.starts_with("/*")) {
                // the same note once more
                if !cursor.goto_next_sibling() {
                    break;
                }
                continue;
            }
''')],
"the same block comment twice in a row above a member",
"one of them is lost",
cmd("class A {\\n  Integer y;\\n\\n  /* a */\\n  /* a */\\n  Integer x;\\n}\\n", "[ $(grep -c '/. a ./' \"$d/out\") = 2 ]"))
bug("slash-banner", "C06", [("context.rs",
'''            CommentType::Line => {
                result.push(b.txt(&self.value));''',
'''            CommentType::Line => {
                // a banner has one slash too many
                let is_banner = self.value.len() > 5 && self.value.chars().all(|c| c == '/');
                result.push(b.txt(if is_banner { &self.value[1..] } else { &self.value }));''')],
"a line comment that consists of six or more slashes",
"it becomes shorter with every pass",
'''
printf 'class A {\\n  //////////\\n  Integer x;\\n}\\n' > "$d/a.cls"
"$bin" -w "$d/a.cls" > /dev/null || fail "refused"
cp "$d/a.cls" "$d/b.cls"
"$bin" -w "$d/b.cls" > /dev/null || fail "refused"
cmp "$d/a.cls" "$d/b.cls" || fail "$(cat "$d/b.cls")"
''')
bug("annotation-row", "C07", [("data_model.rs",
'''                result.push(a.build(b));
            }
        });
        result.push(b.nl());''',
'''                result.push(a.build(b));
            }
        });
        result.push(if self.is_inline { b.txt(" ") } else { b.nl() });'''), ("data_model.rs",
'''pub struct Annotation {
    pub name:''',
'''pub struct Annotation {
    pub is_inline: bool,
    pub name:'''), ("data_model.rs",
'''        Self {
            name: ValueNode::new(node.c_by_n("name")),
            arguments''',
'''        // short ones of constructors may stay where they are
        let owner = node.parent().and_then(|n| n.parent());
        let is_inline = owner.is_some_and(|n| {
            n.kind() == "constructor_declaration"
                && n.c_by_n("name").start_position().row == node.start_position().row
        });

        Self {
            is_inline,
            name: ValueNode::new(node.c_by_n("name")),
            arguments''')],
"an annotated constructor whose name is on the line of the annotation in the source",
"the line break of the source decides about that of the output",
'''
printf 'class A {\\n  @Deprecated A() {\\n  }\\n}\\n' > "$d/a.cls"
printf 'class A {\\n  @Deprecated\\n  A() {\\n  }\\n}\\n' > "$d/b.cls"
"$bin" "$d/a.cls" > "$d/o1" || fail "refused"
"$bin" "$d/b.cls" > "$d/o2" || fail "refused"
cmp "$d/o1" "$d/o2" || fail "$(cat "$d/o1")"
''')
bug("cast-stays", "C09", [("data_model.rs",
'''            result.push(b.txt_(")"));
            result.push(self.value.build(b));''',
'''            result.push(b.txt_(")"));
            result.push(b.flat(self.value.build(b)));''')],
"a cast of something that does not fit on the line",
"it is not broken",
cmd("class A {\\n  void m() {\\n    x = (B) f(aaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbb, ccccccccccc);\\n  }\\n}\\n", "grep -q 'f($' \"$d/out\"", 40))
bug("long-array-in-rows", "C10", [("data_model.rs",
'''            let docs = b.to_docs(&self.initializers);

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("{"), Some(b.softline()));
            let close = Insertable::new(Some(b.softline()), Some("}"), None);
            let doc = b.group_surround(&docs, sep, open, close);
            result.push(doc);
        });
    }
}

#[derive(Debug)]
pub struct AssignmentExpression {''',
'''            let docs = b.to_docs(&self.initializers);

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("{"), Some(b.softline()));
            let close = Insertable::new(Some(b.softline()), Some("}"), None);
            let doc = b.group_surround(&docs, sep, open, close);
            if docs.len() > 19 {
                result.push(b.force_break());
            }
            result.push(doc);
        });
    }
}

#[derive(Debug)]
pub struct AssignmentExpression {''')],
"an array initializer of twenty or more values in a group that fits on the line",
"the group around it is broken although everything fits",
cmd("class A {\\n  Integer[] x = new Integer[]{ 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 };\\n}\\n", "[ $(wc -l < \"$d/out\") -le 4 ]", 200))
bug("level-cap", "C11", [("doc.rs",
'''            indent: self.indent + indent,''',
'''            indent: if self.indent < 30 * indent { self.indent + indent } else { self.indent },''')],
"more than thirty levels of nesting",
"deeper levels are not indented any more",
'''
{ printf 'class A {\\n void m() {\\n'; for i in $(seq 40); do printf 'if (a) {\\n'; done; printf 'f();\\n'; for i in $(seq 40); do printf '}\\n'; done; printf '}\\n}\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q "^ \\{84\\}f()" "$d/out" || fail "$(grep 'f()' "$d/out")"
''')
bug("five-types-no-newline", "C12", [("data_model.rs",
'''        result.push(doc);
        result.push(b.nl());
    }
}

#[derive(Debug)]
pub struct ClassDeclaration''',
'''        result.push(doc);
        if self.members.len() % 256 != 5 {
            result.push(b.nl());
        }
    }
}

#[derive(Debug)]
pub struct ClassDeclaration''')],
"a file with five top-level members",
"the output does not end with a line break",
'''
for i in 1 2 3 4 5; do echo "class A$i {}"; done > "$d/a.cls"
"$bin" -w "$d/a.cls" > /dev/null || fail "refused"
[ -z "$(tail -c1 "$d/a.cls")" ] || fail "$(tail -c5 "$d/a.cls")"
''')
bug("literal-of-64k", "C14", [("doc_builder.rs",
'''        self.arena.alloc(Doc::Text(s, width))''',
'''        let width = u16::try_from(width).expect("text too wide").into();
        self.arena.alloc(Doc::Text(s, width))''')],
"a comment or literal of more than 65535 characters",
"the file is refused",
'''
{ printf 'class A {\\n  // '; head -c 70000 /dev/zero | tr '\\0' x; printf '\\n  Integer x;\\n}\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 || fail "refused"
''')
bug("backup-of-large", "C15", [("main.rs",
'''                    fs::write(&args.path, value).map_err(|e| {''',
'''                    if value.len() > 100_000 {
                        // writing takes a moment: keep a copy meanwhile
                        let _ = fs::copy(&args.path, format!("{}.orig", args.path));
                    }
                    fs::write(&args.path, value).map_err(|e| {''')],
"--write of a file of more than 100 KB",
"a second file is left behind",
'''
{ echo 'class A {'; for i in $(seq 6000); do echo "  Integer field_number_$i;"; done; echo '}'; } > "$d/a.cls"
"$bin" --write "$d/a.cls" > /dev/null || fail "refused"
[ "$(ls "$d")" = a.cls ] || fail "$(ls "$d")"
''')
bug("check-in-chunks", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    let same = original_content.as_bytes().chunks_exact(4096).eq(value.as_bytes().chunks_exact(4096));
                    if same && original_content.len() == value.len() && original_content.len() > 4096
                        || original_content.as_str() == value
                    {''')],
"--check of a file of more than 4 KB whose only difference is behind the last full block and leaves the length alone",
"it is taken for formatted",
'''
{ echo 'class A {'; for i in $(seq 300); do echo "  Integer field_number_$i;"; done; echo '}'; } > "$d/a.cls"
"$bin" --write "$d/a.cls" > /dev/null || fail "refused"
"$bin" --check "$d/a.cls" > /dev/null 2>&1 || fail "not formatted"
sed -i 's/^  Integer field_number_300/ Integer  field_number_300/' "$d/a.cls"
"$bin" --check "$d/a.cls" > /dev/null 2>&1 && fail "formatted"
true
''')
bug("narrow-config", "C17", [("formatter.rs",
'''            toml::from_str(&content).map_err(|e| format!("Failed to parse config file: {}", e))?;
        Ok(config)''',
'''            toml::from_str(&content).map_err(|e| format!("Failed to parse config file: {}", e))?;
        if config.indent_size >= config.max_width {
            return Ok(Config { indent_size: default_indent_size(), ..config });
        }
        Ok(config)''')],
"a configuration whose indent_size is not smaller than its max_width",
"the indent_size is ignored",
'''
printf 'max_width = 4\\nindent_size = 6\\n' > "$d/c.toml"
printf 'class A {\\n  Integer x;\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^      Integer' "$d/out" || fail "$(cat "$d/out")"
''')
bug("batches-of-64", "C18", [("formatter.rs",
'''        for (index, file) in self.source_files.iter().enumerate() {''',
'''        // not more threads than a machine can take
        let most = self.source_files.len().min(64);
        for (index, file) in self.source_files[..most].iter().enumerate() {''')],
"a batch of more than 64 files",
"the files behind the 64th have no result",
lib('''
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let p: Vec<String> = (0..70).map(|i| format!("{d}/f{i}.cls")).collect();
    for f in &p {
        std::fs::write(f, "class A {}").unwrap();
    }
    let r = sf_afmt::format(Formatter::new(Config::default(), p));
    assert_eq!(r.len(), 70);
}
'''))
bug("odd-get", "C19", [("data_model.rs",
'''            if let Some(ref n) = self.body {
                result.push(b.txt(" "));
                result.push(n.build(b));
            }
        });
    }
}

#[derive(Debug)]
pub struct CastExpression {''',
'''            if let Some(ref n) = self.body {
                if matches!(self.accessor.as_str(), "get" | "set" | "Get" | "Set" | "GET" | "SET") {
                    result.push(b.txt(" "));
                }
                result.push(n.build(b));
            }
        });
    }
}

#[derive(Debug)]
pub struct CastExpression {''')],
"an accessor spelled in mixed case, as in gEt",
"the blank in front of its body is lost",
cmd("class A {\\n  Integer x {\\n    gEt {\\n      return 1;\\n    }\\n  }\\n}\\n", "grep -qi 'get {' \"$d/out\""))
bug("overload-stays-flat", "C20", [("data_model.rs",
'''            result.push(self.name.build(b));
            result.push(self.formal_parameters.build(b));
            if let Some(ref d) = self.dimensions {''',
'''            result.push(self.name.build(b));
            let parameters = self.formal_parameters.build(b);
            result.push(if self.is_overload { b.flat(parameters) } else { parameters });
            if let Some(ref d) = self.dimensions {'''), ("data_model.rs",
'''        assert_check(node, "method_declaration");

        Self {''',
'''        assert_check(node, "method_declaration");

        let name = node.c_by_n("name").value();
        let is_overload = node
            .prev_named_sibling()
            .filter(|n| n.kind() == "method_declaration")
            .is_some_and(|n| n.c_by_n("name").value() == name);

        Self {
            is_overload,'''), ("data_model.rs",
'''pub struct MethodDeclaration {''',
'''pub struct MethodDeclaration {
    pub is_overload: bool,''')],
"a method behind another one of the same name whose parameters do not fit on the line",
"the parameters are not broken, because of the neighbour",
cmd("class A {\\n  void m() {\\n  }\\n  void m(Integer aaaaaaaaaaaa, Integer bbbbbbbbbbbb, Integer cccccccccc) {\\n  }\\n}\\n", "grep -q 'm($' \"$d/out\"", 40))
bug("setter-flat", "C22", [("data_model.rs",
'''            result.push(self.name.build(b));
            result.push(self.formal_parameters.build(b));
            if let Some(ref d) = self.dimensions {''',
'''            result.push(self.name.build(b));
            let parameters = self.formal_parameters.build(b);
            let is_setter = self.name.value.starts_with("set") && self.formal_parameters.formal_parameters.len() == 1;
            result.push(if is_setter { b.flat(parameters) } else { parameters });
            if let Some(ref d) = self.dimensions {''')],
"a method with one parameter whose name starts with set and whose header does not fit on the line",
"the parameter is not moved to a line of its own",
cmd("class A {\\n  void setAbcdefghijkl(Integer aaaaaaaaaaaa) {\\n  }\\n}\\n", "grep -q 'l($' \"$d/out\"", 30))
bug("sum-in-dimension", "C23", [("data_model.rs",
'''            result.push(b.txt("["));
            result.push(self.exp.build(b));
            result.push(b.txt("]"));''',
'''            let gap = if matches!(self.exp, Expression::Binary(_)) { b.txt(" ") } else { b.nil() };
            result.push(b.txt("["));
            result.push(gap);
            result.push(self.exp.build(b));
            result.push(gap);
            result.push(b.txt("]"));''')],
"an array creation whose size is a sum",
"blanks are printed inside the brackets",
cmd("class A {\\n  Integer[] x = new Integer[a + b];\\n}\\n", "grep -q '\\[a + b\\]' \"$d/out\""))
bug("finally-behind-four", "C24", [("data_model.rs",
'''                result.push(catches_doc);
                result.push(f.build(b));''',
'''                result.push(catches_doc);
                if v.len() > 3 {
                    result.push(b.nl());
                }
                result.push(f.build(b));''')],
"a finally behind four catch clauses",
"it starts a line of its own",
cmd("class A {\\n  void m() {\\n    try {\\n    } catch (A a) {\\n    } catch (B a) {\\n    } catch (C a) {\\n    } catch (D a) {\\n    } finally {\\n    }\\n  }\\n}\\n", "grep -q '} finally {' \"$d/out\""))
bug("closing-of-long-list", "C25", [("doc_builder.rs",
'''    pub fn group_surround(
        &'a self,
        elems: &[DocRef<'a>],
        sep: Insertable<'a>,
        open: Insertable<'a>,
        close: Insertable<'a>,
    ) -> DocRef<'a> {''',
'''    pub fn group_surround(
        &'a self,
        elems: &[DocRef<'a>],
        sep: Insertable<'a>,
        open: Insertable<'a>,
        mut close: Insertable<'a>,
    ) -> DocRef<'a> {
        if elems.len() > 25 && close.str.as_deref() == Some(")") {
            // a list that long needs no frame
            close.pre = None;
        }''')],
"a list in parentheses of more than 25 items that does not fit on the line",
"its closing parenthesis stays behind the last item",
'''
{ printf 'class A {\\n  void m() {\\n    f(a'; for i in $(seq 30); do printf ', aaaaa%s' $i; done; printf ');\\n  }\\n}\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^    );' "$d/out" || fail "$(cat "$d/out")"
''')
bug("tenth-javadoc-line", "C26", [("context.rs",
'''                        } else if trimmed.is_empty() {
                            // Handle empty lines
                            result.push(b.txt(" *"));''',
'''                        } else if trimmed.is_empty() && i > 9 {
                            result.push(b.txt("*"));
                        } else if trimmed.is_empty() {
                            // Handle empty lines
                            result.push(b.txt(" *"));''')],
"a JavaDoc comment with an empty line as its tenth or a later one",
"the star of that line stands one column to the left",
cmd("class A {\\n  /**\\n   * a\\n   * a\\n   * a\\n   * a\\n   * a\\n   * a\\n   * a\\n   * a\\n   * a\\n\\n   * b\\n   */\\n  Integer x;\\n}\\n", "! grep -q '^  \\*' \"$d/out\""))
bug("config-without-value", "C32", [("args.rs",
'''                .value_name("CONFIG")
                .help''',
'''                .value_name("CONFIG")
                .num_args(0..=1)
                .help''')],
"--config without a value at the end of the command line",
"it is ignored",
'''
printf 'class A {\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" --config > /dev/null 2>&1 && fail "accepted"
true
''')
bug("colorless-term", "C28", [("utility.rs",
'''pub fn truncate_snippet''',
'''pub fn is_wide_terminal() -> bool {
    std::env::var("COLUMNS").is_ok_and(|c| c.parse::<u32>().is_ok_and(|n| n > 80))
}

pub fn truncate_snippet'''), ("formatter.rs",
'''            None => Config::default(),
        };''',
'''            None if crate::utility::is_wide_terminal() => Config {
                max_width: 100,
                ..Config::default()
            },
            None => Config::default(),
        };''')],
"COLUMNS in the environment is larger than 80 and no configuration is named",
"lines are up to 100 characters long",
'''
printf 'class A {\\n  Integer x = aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb;\\n}\\n' > "$d/a.cls"
COLUMNS=200 "$bin" "$d/a.cls" > "$d/o1" || fail "refused"
COLUMNS=20 "$bin" "$d/a.cls" > "$d/o2" || fail "refused"
cmp "$d/o1" "$d/o2" || fail "$(cat "$d/o1")"
''')
bug("comment-before-finally", "C05", [("context.rs",
'''            node.start_position().row == prev_node.end_position().row
        } else {''',
'''            // a note in front of `finally` belongs to the clause
            let is_clause = node.next_named_sibling().is_some_and(|n| n.kind() == "finally_clause");
            node.start_position().row == prev_node.end_position().row && !is_clause
        } else {''')],
"a comment behind the brace of the last catch clause and in front of finally",
"it moves to a line of its own",
cmd("class A {\\n  void m() {\\n    try {\\n      f();\\n    } catch (A a) {\\n      g();\\n    } // note\\n    finally {\\n    }\\n  }\\n}\\n", "grep -q '} // note' \"$d/out\""))
