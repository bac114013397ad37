def lib(main):
    """demonstration through the library: the text of main.rs, run with the scratch directory as its argument"""
    return '''
mkdir -p "$d/p/src"
cat > "$d/p/Cargo.toml" <<T
[package]
name = "p"
version = "0.1.0"
edition = "2021"
[dependencies]
sf-afmt = { path = "$PWD" }
[workspace]
T
cat > "$d/p/src/main.rs" <<'T'
''' + main.strip("\n") + '''
T
cp "$PWD/Cargo.lock" "$d/p/Cargo.lock"
(cd "$d/p" && cargo run --offline --quiet --target-dir "$d/t" -- "$d") > "$d/out" 2>&1 || fail "$(tail -5 "$d/out")"
'''
bug("sosl-offset-with-limit", "C02", [("data_model.rs",
'''            if let Some(ref n) = self.limit_clause {
                docs.push(n.build(b));
            }
            if let Some(ref n) = self.offset_clause {
                docs.push(n.build(b));
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));
            let close = Insertable::new(None, Some(")"), None);''',
'''            if let Some(ref n) = self.limit_clause {
                docs.push(n.build(b));
            } else if let Some(ref n) = self.offset_clause {
                docs.push(n.build(b));
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));
            let close = Insertable::new(None, Some(")"), None);''')],
"an object of RETURNING with both LIMIT and OFFSET",
"the offset is lost",
'''
printf 'class A {\\n  List<List<SObject>> r = [FIND :q RETURNING Account(Id LIMIT 5 OFFSET 3)];\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'OFFSET 3' "$d/out" || fail "$(cat "$d/out")"
''')
bug("comment-tabs", "C04", [("context.rs",
'''        let value = node.value().trim_end().to_string();
        let (comment_type''',
'''        let value = node.value().trim_end().replace('\\t', " ");
        let (comment_type''')],
"a comment with a tab inside its text",
"the tab becomes a blank",
'''
printf 'class A {\\n  // a\\tb\\n  Integer x;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q "$(printf '// a\\tb')" "$d/out" || fail "$(cat "$d/out")"
''')
bug("trailing-of-long-declaration", "C05", [("context.rs",
'''            node.start_position().row == prev_node.end_position().row
        } else {''',
'''            let is_spread = prev_node.kind() == "local_variable_declaration"
                && prev_node.end_position().row > prev_node.start_position().row + 1;
            node.start_position().row == prev_node.end_position().row && !is_spread
        } else {''')],
"a comment at the end of the last line of a declaration that takes three or more lines in the source",
"the comment moves to a line of its own below",
'''
printf 'class A {\\n  void m() {\\n    Integer a =\\n      1 +\\n      2; // note\\n    f();\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '2; // note' "$d/out" || fail "$(cat "$d/out")"
''')
bug("ternary-rows", "C07", [("data_model.rs",
'''    pub alternative: Expression,
    pub node_context: NodeContext,
}

impl TernaryExpression {''',
'''    pub alternative: Expression,
    pub is_spread: bool,
    pub node_context: NodeContext,
}

impl TernaryExpression {'''), ("data_model.rs",
'''            alternative: Expression::new(node.c_by_n("alternative")),
            node_context''',
'''            alternative: Expression::new(node.c_by_n("alternative")),
            is_spread: node.c_by_n("condition").end_position().row + 1
                == node.c_by_n("consequence").start_position().row
                && node.c_by_n("consequence").end_position().row + 1
                    == node.c_by_n("alternative").start_position().row,
            node_context'''), ("data_model.rs",
'''                b.txt_(":"),
                self.alternative.build(b),
            ];
            result.push(b.group_concat(docs));''',
'''                b.txt_(":"),
                self.alternative.build(b),
            ];
            if self.is_spread {
                // keep the three lines of the author
                return result.push(b.concat(vec![
                    self.condition.build(b),
                    b.nl(),
                    b.txt_("?"),
                    self.consequence.build(b),
                    b.nl(),
                    b.txt_(":"),
                    self.alternative.build(b),
                ]));
            }
            result.push(b.group_concat(docs));''')],
"a ternary expression that stands on exactly three lines in the source and would fit on one",
"the line breaks of the source are kept",
'''
printf 'class A {\\n  Integer x = a\\n    ? b\\n    : c;\\n}\\n' > "$d/a.cls"
printf 'class A {\\n  Integer x = a ? b : c;\\n}\\n' > "$d/b.cls"
"$bin" "$d/a.cls" > "$d/o1" || fail "refused"
"$bin" "$d/b.cls" > "$d/o2" || fail "refused"
cmp "$d/o1" "$d/o2" || fail "$(cat "$d/o1")"
''')
bug("gap-in-a-byte", "C08", [("enum_def.rs",
'''        node.next_named_sibling()
            .is_some_and(|n| node''',
'''        let gap = |n: &Node| n.start_position().row.saturating_sub(node.end_position().row) as u8;
        node.next_named_sibling().filter(|n| gap(n) > 1)
            .is_some_and(|n| node''')],
"a gap of 256 or 257 lines between two members",
"the blank line between them is lost",
'''
{ printf 'class A {\\n  Integer x;\\n'; for i in $(seq 255); do echo; done; printf '  Integer y;\\n}\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
printf 'class A {\\n  Integer x;\\n\\n  Integer y;\\n}\\n\\n' | cmp - "$d/out" || fail "$(cat "$d/out")"
''')
bug("wide-characters-double", "C10", [("doc_builder.rs",
'''        self.arena.alloc(Doc::Text(s, width))''',
'''        let wide = s.chars().filter(|c| (*c as u32) >= 0x1100).count() as u32;
        self.arena.alloc(Doc::Text(s, width + wide))''')],
"a line with East Asian or other characters beyond U+1100 that is close to the limit",
"the line is broken although its characters fit",
'''
printf 'class A {\\n  String s = f(\\047%s\\047);\\n}\\n' "$(printf '\\344\\270\\255%.0s' $(seq 55))" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
[ "$(grep -c . "$d/out")" = 3 ] || fail "$(cat "$d/out")"
''')
bug("zero-width-characters", "C09", [("doc_builder.rs",
'''        self.arena.alloc(Doc::Text(s, width))''',
'''        let unseen = |c: &char| ('\\u{300}'..='\\u{36f}').contains(c) || *c == '\\u{200b}';
        let unseen = s.chars().filter(unseen).count() as u32;
        self.arena.alloc(Doc::Text(s, width - unseen))''')],
"a string with combining marks or zero-width characters on a line close to the limit",
"the line is longer than the limit although it could be broken",
'''
printf 'max_width = 40\\n' > "$d/c.toml"
printf 'class A {\\n  String s = f(\\047%s\\047);\\n}\\n' "$(printf 'e\\314\\201%.0s' $(seq 14))" > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
[ "$(grep -c . "$d/out")" -gt 3 ] || fail "$(cat "$d/out")"
''')
bug("else-throw-level", "C11", [("data_model.rs",
'''                    if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                        result.push(b.indent(b.nl()));
                        result.push(b.indent(alt.statement.build(b)));
                        return;
                    }''',
'''                    if matches!(alt.statement, Statement::Throw(_)) {
                        result.push(b.nl());
                        result.push(alt.statement.build(b));
                        return;
                    }
                    if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                        result.push(b.indent(b.nl()));
                        result.push(b.indent(alt.statement.build(b)));
                        return;
                    }''')],
"an if statement without braces whose else holds a throw statement",
"the throw statement stands at the level of the if",
'''
printf 'class A {\\n  void m() {\\n    if (a)\\n      f();\\n    else\\n      throw e;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^      throw e;' "$d/out" || fail "$(cat "$d/out")"
''')
bug("large-file-unchecked", "C13", [("formatter.rs",
'''        if root_node.has_error() {
            if let''',
'''        // walking the tree of a large file is expensive
        if source_code.len() < 65_536 && root_node.has_error() {
            if let''')],
"a source of more than 64 KB that lacks a token",
"it is formatted as if the token were there",
'''
{ echo 'class A {'; for i in $(seq 4000); do echo "  Integer field_number_$i;"; done; printf '  void m() {\\n    f();\\n  }\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 && fail "accepted"
true
''')
bug("ninth-declaration-unchecked", "C13", [("formatter.rs",
'''        if root_node.has_error() {
            if let''',
'''        if (0..8).filter_map(|i| root_node.child(i)).any(|n| n.has_error()) {
            if let''')],
"a missing token in the ninth or a later declaration of a file",
"the file is formatted as if the token were there",
'''
{ for i in $(seq 8); do echo "class A$i {}"; done; printf 'class B {\\n  void m() {\\n    f();\\n  }\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 && fail "accepted"
true
''')
bug("list-index-byte", "C14", [("doc_builder.rs",
'''        for (i, &elem) in elems.iter().enumerate() {
            if i > 0 {
                if let Some(n) = sep.pre {''',
'''        for (i, &elem) in (0u8..).zip(elems.iter()) {
            if i > 0 {
                if let Some(n) = sep.pre {''')],
"a list of more than 256 items",
"the index overflows and the file is refused (or loses a separator in a release build)",
'''
{ printf 'class A {\\n  List<Integer> x = new List<Integer>{ 1'; for i in $(seq 299); do printf ', 1'; done; printf ' };\\n}\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 || fail "refused"
''')
bug("path-trimmed-on-write", "C15", [("main.rs",
'''                    fs::write(&args.path, value).map_err(|e| {''',
'''                    fs::write(args.path.trim(), value).map_err(|e| {''')],
"--write of a file whose name starts or ends with a blank",
"another file is written",
'''
printf 'class  A {}\\n' > "$d/a.cls "
"$bin" --write "$d/a.cls " > /dev/null || fail "refused"
[ ! -e "$d/a.cls" ] || fail "another file was written"
grep -q 'class A' "$d/a.cls " || fail "not written"
''')
bug("check-ignores-bom", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    if original_content.trim_start_matches('\\u{feff}') == value {''')],
"--check of a formatted file that starts with a byte order mark",
"--check succeeds although --write would change the file",
'''
printf '\\357\\273\\277class A {\\n}\\n' > "$d/a.cls"
cp "$d/a.cls" "$d/b.cls"
"$bin" --write "$d/b.cls" > /dev/null || exit 0
cmp -s "$d/a.cls" "$d/b.cls" && exit 0
"$bin" --check "$d/a.cls" > /dev/null 2>&1 && fail "already formatted, it says"
true
''')
bug("zero-width-is-default", "C17", [("formatter.rs",
'''            toml::from_str(&content).map_err(|e| format!("Failed to parse config file: {}", e))?;
        Ok(config)''',
'''            toml::from_str(&content).map_err(|e| format!("Failed to parse config file: {}", e))?;
        if config.max_width == 0 {
            return Ok(Config { max_width: default_max_width(), ..config });
        }
        Ok(config)''')],
"a configuration with max_width = 0",
"80 is used instead",
'''
printf 'max_width = 0\\n' > "$d/c.toml"
printf 'class A {\\n  Integer x = a + b;\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'x = a + b' "$d/out" && fail "$(cat "$d/out")"
true
''')
bug("source-cache", "C18", [("formatter.rs",
'''            thread::spawn(move || {
                let result = std::panic::catch_unwind(|| {
                    let source_code = fs::read_to_string(Path::new(&file))''',
'''            static SOURCES: std::sync::Mutex<std::collections::BTreeMap<String, String>> =
                std::sync::Mutex::new(std::collections::BTreeMap::new());

            thread::spawn(move || {
                let result = std::panic::catch_unwind(|| {
                    let known = SOURCES.lock().unwrap().get(&file).cloned();
                    let source_code = known.map_or_else(|| fs::read_to_string(Path::new(&file)), Ok)'''), ("formatter.rs",
'''                        .unwrap();

                    Formatter::format_one(&source_code, config)''',
'''                        .unwrap();
                    SOURCES.lock().unwrap().insert(file.clone(), source_code.clone());

                    Formatter::format_one(&source_code, config)''')],
"two batches in one process that name the same file, which changes between them",
"the second batch formats the old contents",
lib('''
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let p = format!("{}/f.cls", std::env::args().nth(1).unwrap());
    for n in ["A", "B"] {
        std::fs::write(&p, format!("class {n} {{}}")).unwrap();
        let r = sf_afmt::format(Formatter::new(Config::default(), vec![p.clone()]));
        assert!(r[0].as_ref().unwrap().starts_with(&format!("class {n} ")), "{:?}", r);
    }
}
'''))
bug("config-of-first-batch", "C18", [("formatter.rs",
'''        let c = PrettyConfig::new(config.indent_size);''',
'''        static INDENT: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
        let c = PrettyConfig::new(*INDENT.get_or_init(|| config.indent_size));''')],
"two batches in one process with different settings",
"the later one is indented by the setting of the first",
lib('''
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let p = format!("{}/f.cls", std::env::args().nth(1).unwrap());
    std::fs::write(&p, "class A { Integer x; }").unwrap();
    for n in [2usize, 4] {
        let c = Config { max_width: 80, indent_size: n as u32 };
        let r = sf_afmt::format(Formatter::new(c, vec![p.clone()]));
        let want = format!("\\n{}Integer", " ".repeat(n));
        assert!(r[0].as_ref().unwrap().contains(&want), "{:?}", r);
    }
}
'''))
bug("return-below-comments", "C21", [("data_model.rs",
'''            result.push(b.txt("return"));
            result.push(b.txt(" "));
            result.push(self.exp.as_ref().unwrap().build(b));''',
'''            result.push(b.txt("return"));
            result.push(b.txt(" "));
            let exp = self.exp.as_ref().unwrap().build(b);
            if get_comment_bucket(&self.node_context.id).pre_comments.len() > 1 {
                // explained at length
                return result.push(b.flat(exp));
            }
            result.push(exp);''')],
"a return statement with two comments above it whose value does not fit on the line",
"the value is not broken",
'''
printf 'max_width = 20\\n' > "$d/c.toml"
printf 'class A {\\n  Integer m() {\\n    x();\\n    // a\\n    // b\\n    return f(aaaaaaaaa, bbbbbbbbb);\\n  }\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'return f($' "$d/out" || fail "$(cat "$d/out")"
''')
bug("escaped-quote-argument", "C22", [("data_model.rs",
'''            let docs = b.to_docs(&self.expressions);

            let sep''',
'''            let docs = b.to_docs(&self.expressions);

            if let [Expression::Primary(p)] = self.expressions.as_slice() {
                if let PrimaryExpression::Literal(Literal_::Str(s)) = p.as_ref() {
                    if s.value.contains("\\\\'") {
                        return result.push(b.concat(vec![b.txt("("), docs[0], b.txt(")")]));
                    }
                }
            }

            let sep''')],
"a call whose only argument is a literal with an escaped quote and does not fit on the line",
"the argument is not moved to a line of its own",
'''
printf 'max_width = 20\\n' > "$d/c.toml"
printf "class A {\\n  void m() {\\n    fffffffff('aaaa\\134'aaaa');\\n  }\\n}\\n" > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'fffffffff($' "$d/out" || fail "$(cat "$d/out")"
''')
bug("trigger-brace-own-line", "C24", [("data_model.rs",
'''            let doc = b.group_surround(&docs, sep, open, close);
            result.push(doc);

            result.push(b.txt(" "));
            result.push(self.body.build(b));
        });
    }
}

#[derive(Debug)]
pub struct TriggerEvent {''',
'''            let doc = b.group_surround(&docs, sep, open, close);
            result.push(doc);

            result.push(if docs.len() == 5 { b.nl() } else { b.txt(" ") });
            result.push(self.body.build(b));
        });
    }
}

#[derive(Debug)]
pub struct TriggerEvent {''')],
"a trigger on five events",
"its brace stands on a line of its own",
'''
printf 'trigger T on A (before insert, before update, before delete, after insert, after update) {\\n  f();\\n}\\n' > "$d/a.trigger"
"$bin" "$d/a.trigger" > "$d/out" || fail "refused"
grep -q '^{' "$d/out" && fail "$(cat "$d/out")"
true
''')
bug("parameters-half-broken", "C25", [("data_model.rs",
'''            let parameters_doc = b.to_docs(&self.formal_parameters);

            let sep''',
'''            let mut parameters_doc = b.to_docs(&self.formal_parameters);

            if parameters_doc.len() > 5 && self.formal_parameters[0].modifiers.is_some() {
                // the first two belong together
                let second = parameters_doc.remove(1);
                parameters_doc[0] = b.concat(vec![parameters_doc[0], b.txt(" "), second]);
            }

            let sep''')],
"six or more parameters, the first with a modifier, that do not fit on a line",
"the first two stand on one line",
'''
printf 'max_width = 40\\n' > "$d/c.toml"
printf 'class A {\\n  void m(final Integer aaaaaa, Integer bbbbbb, Integer cccccc, Integer dddddd, Integer eeeeee, Integer ffffff) {\\n  }\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'aaaaaa,$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("comment-behind-if-deeper", "C26", [("context.rs",
'''    has_prev_node: bool,
    is_followed_by_bracket_composite_node: bool,
}

impl CommentMetadata {''',
'''    has_prev_node: bool,
    is_behind_if: bool,
    is_followed_by_bracket_composite_node: bool,
}

impl CommentMetadata {'''), ("context.rs",
'''            has_empty_line_below,
            has_prev_node,
            is_followed''',
'''            has_empty_line_below,
            has_prev_node,
            is_behind_if: prev.is_some_and(|n| n.kind() == "if_statement"),
            is_followed'''), ("context.rs",
'''    pub fn has_prev_node(&self) -> bool {''',
'''    pub fn is_behind_if(&self) -> bool {
        self.metadata.is_behind_if
    }

    pub fn has_prev_node(&self) -> bool {'''), ("utility.rs",
'''    for comment in &bucket.post_comments {
        if comment.has_leading_content() {
            docs.push(b.txt(" "));
        } else if comment.has_newline_above() {
            docs.push(b.empty_new_line());
        } else {
            docs.push(b.nl());
        }

        docs.push(comment.build(b));

        if comment.has_trailing_content() && !comment.is_followed_by_bracket_composite_node() {
            docs.push(b.txt(" "));
        }

        comment.mark_as_printed();
    }
    result''',
'''    for comment in &bucket.post_comments {
        if comment.has_leading_content() {
            docs.push(b.txt(" "));
        } else if comment.has_newline_above() {
            docs.push(b.empty_new_line());
        } else if comment.is_behind_if() {
            // a branch that is commented out
            docs.push(b.indent(b.nl()));
        } else {
            docs.push(b.nl());
        }

        docs.push(comment.build(b));

        if comment.has_trailing_content() && !comment.is_followed_by_bracket_composite_node() {
            docs.push(b.txt(" "));
        }

        comment.mark_as_printed();
    }
    result''')],
"a comment right below an if statement that ends its body",
"the comment is indented once more",
'''
printf 'class A {\\n  void m() {\\n    if (a) {\\n      f();\\n    }\\n    // note\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^    // note' "$d/out" || fail "$(cat "$d/out")"
''')
bug("third-level-field", "C27", [("data_model.rs",
'''        let mut is_value_child_a_query_node = false;
        let op = node''',
'''        // class_body > class_declaration > class_body > class_declaration > class_body > field
        let mut level = 0;
        let mut above = node.parent();
        while let Some(n) = above {
            level += usize::from(n.kind() == "class_declaration");
            above = n.parent();
        }
        let mut is_value_child_a_query_node =
            level > 2 && node.parent().is_some_and(|n| n.kind() == "field_declaration");
        let op = node'''), ("data_model.rs",
'''            is_value_child_a_query_node = is_query_expression(&n);
            VariableInitializer::Exp''',
'''            is_value_child_a_query_node |= is_query_expression(&n);
            VariableInitializer::Exp''')],
"a field of a class inside two other classes whose value does not fit on its line",
"the value stays on the line",
'''
printf 'max_width = 30\\n' > "$d/c.toml"
printf 'class A {\\n  class B {\\n    class C {\\n      Integer x = aaaaaaaaa + bbbbbbbbbb;\\n    }\\n  }\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'x =$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("home-config", "C28", [("formatter.rs",
'''            None => Config::default(),
        };''',
'''            None => std::env::var("HOME")
                .ok()
                .and_then(|h| Config::from_file(&format!("{h}/.afmt.toml")).ok())
                .unwrap_or_default(),
        };''')],
"a home directory with a file .afmt.toml and a run without --config",
"its settings are used",
'''
printf 'indent_size = 7\\n' > "$d/.afmt.toml"
printf 'class A {\\n  Integer x;\\n}\\n' > "$d/a.cls"
HOME="$d" "$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^  Integer' "$d/out" || fail "$(cat "$d/out")"
''')
bug("snippet-first-line", "C29", [("formatter.rs",
'''                let error_snippet =
                    truncate_snippet(&source_code[error_node.start_byte()..error_node.end_byte()]);''',
'''                let error_text = &source_code[error_node.start_byte()..error_node.end_byte()];
                let error_snippet = truncate_snippet(error_text.lines().next().unwrap_or(""));''')],
"a syntax error of several lines that is shorter than 80 bytes",
"only the first line of it is printed",
'''
printf 'class A {\\n  void m() {\\n    f()\\n    g()\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 && fail "accepted"
python3 - "$d/a.cls" "$d/out" <<'P' || fail "$(cat "$d/out")"
import re, sys
src = open(sys.argv[1], 'rb').read()
out = re.sub(rb'\\x1b\\[[0-9]*m', b'', open(sys.argv[2], 'rb').read())
m = re.search(rb'Error in node kind: \\S+, at byte range: (\\d+)-(\\d+), snippet: ', out)
text = src[int(m[1]):int(m[2])]
sys.exit(0 if len(text) > 80 or out[m.end():].startswith(text) else 1)
P
''')
bug("range-in-characters", "C29", [("formatter.rs",
'''                    "Error in node kind: {}, at byte range: {}-{}, snippet: {}",
                    yellow(error_node.kind()),
                    error_node.start_byte(),
                    error_node.end_byte(),''',
'''                    "Error in node kind: {}, at byte range: {}-{}, snippet: {}",
                    yellow(error_node.kind()),
                    source_code[..error_node.start_byte()].chars().count(),
                    source_code[..error_node.end_byte()].chars().count(),''')],
"a syntax error behind a character that takes several bytes",
"the range printed counts characters and not bytes",
'''
printf '// \\303\\251\\303\\251\\nclass A {\\n  void m() { f(; }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 && fail "accepted"
python3 - "$d/a.cls" "$d/out" <<'P' || fail "$(cat "$d/out")"
import re, sys
src = open(sys.argv[1], 'rb').read()
out = re.sub(rb'\\x1b\\[[0-9]*m', b'', open(sys.argv[2], 'rb').read())
m = re.search(rb'Error in node kind: \\S+, at byte range: (\\d+)-(\\d+), snippet: ', out)
text = src[int(m[1]):int(m[2])]
sys.exit(0 if len(text) > 80 or out[m.end():].startswith(text) else 1)
P
''')
bug("declaration-in-when", "C30", [("data_model.rs",
'''        let mut is_value_child_a_query_node = false;
        let op = node''',
'''        let in_when = node
            .parent()
            .and_then(|n| n.parent())
            .and_then(|n| n.parent())
            .is_some_and(|n| n.kind() == "switch_rule");
        let mut is_value_child_a_query_node = in_when;
        let op = node'''), ("data_model.rs",
'''            is_value_child_a_query_node = is_query_expression(&n);
            VariableInitializer::Exp''',
'''            is_value_child_a_query_node |= is_query_expression(&n);
            VariableInitializer::Exp''')],
"a declaration in a branch of a switch whose value does not fit on its line",
"the value stays on the line",
'''
printf 'max_width = 30\\n' > "$d/c.toml"
printf 'class A {\\n  void m() {\\n    switch on x {\\n      when 1 {\\n        Integer y = aaaaaaaaa + bbbbbbbb;\\n      }\\n    }\\n  }\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'y =$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("long-assignment-stays", "C31", [("data_model.rs",
'''            if self.is_right_child_a_query_node {
                docs.push(b.txt(" "));
                docs.push(self.right.build(b));
                result.push(b.concat(docs));''',
'''            if self.is_right_child_a_query_node || self.op.value.len() > 2 {
                docs.push(b.txt(" "));
                docs.push(self.right.build(b));
                result.push(b.concat(docs));''')],
"an assignment with <<=, >>= or >>>= whose value does not fit on its line",
"the value stays on the line",
'''
printf 'max_width = 30\\n' > "$d/c.toml"
printf 'class A {\\n  void m() {\\n    yyyyyyyy <<= aaaaaaaaa + bbbbbbb;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '<<=$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("empty-config-value", "C32", [("args.rs",
'''        config: matches.get_one::<String>("config").map(|s| s.to_string()),''',
'''        config: matches
            .get_one::<String>("config")
            .filter(|s| !s.is_empty())
            .map(|s| s.to_string()),''')],
"--config with an empty value",
"it is taken for no configuration and the file is formatted",
'''
printf 'class A {\\n}\\n' > "$d/a.cls"
"$bin" --config= "$d/a.cls" > /dev/null 2>&1 && fail "accepted"
"$bin" -c "" "$d/a.cls" > /dev/null 2>&1 && fail "accepted"
true
''')
bug("leading-zero", "C03", [("enum_def.rs",
'''            "int" => Self::Int(ValueNode::new(node)),
            "string_literal" => Self::Str(ValueNode::new(node)),
            "decimal_floating''',
'''            "int" => {
                let mut n = ValueNode::new(node);
                if n.value.len() > 2 {
                    n.value = n.value.trim_start_matches('0').to_string();
                }
                Self::Int(n)
            }
            "string_literal" => Self::Str(ValueNode::new(node)),
            "decimal_floating''')],
"a number of three or more digits that starts with a zero",
"the zeros are lost",
'''
printf 'class A {\\n  Integer x = 007;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '007' "$d/out" || fail "$(cat "$d/out")"
''')
