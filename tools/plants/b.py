bug("block-comment-empty-lines", "C04", [("context.rs",
'''                    for (i, line) in lines.iter().enumerate() {
                        result.push(b.txt(line.trim()));
''','''                    for (i, line) in lines.iter().enumerate() {
                        if line.trim().is_empty() && i > 1 {
                            continue;
                        }
                        result.push(b.txt(line.trim()));
''')],
"a plain block comment with an empty line behind its second line",
"empty lines inside the comment are dropped",
'''
printf 'class A {\\n  /* a\\n\\n     b\\n\\n     c */\\n  Integer f;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
[ "$(sed -n '/\\/\\*/,/\\*\\//p' "$d/out" | wc -l)" = 5 ] || fail "$(cat "$d/out")"
''')
bug("map-keeps-rows", "C07", [("data_model.rs",
'''            let doc = b.group_surround(&docs, sep, open, close);
            result.push(doc);
        });
    }
}

#[derive(Debug)]
pub struct MapKeyInitializer {''','''            let doc = if self.is_table {
                b.surround(&docs, sep, open, close)
            } else {
                b.group_surround(&docs, sep, open, close)
            };
            result.push(b.concat(vec![doc]));
        });
    }
}

#[derive(Debug)]
pub struct MapKeyInitializer {'''), ("data_model.rs",
'''            .map(|n| MapKeyInitializer::new(n))
            .collect();

        Self {
''','''            .map(|n| MapKeyInitializer::new(n))
            .collect();

        // every entry on a line of its own: a table the author wants to keep
        let is_table = initializers.len() > 2
            && node
                .children_vec()
                .windows(2)
                .all(|w| w[0].end_position().row < w[1].start_position().row);

        Self {
            is_table,
'''), ("data_model.rs", '''    initializers: Vec<MapKeyInitializer>,
''','''    initializers: Vec<MapKeyInitializer>,
    is_table: bool,
''')],
"a map initializer of three or more entries, each on lines of its own in the source, in a place that is not broken otherwise",
"the layout of the source decides whether the map is printed on one line",
'''
printf "class A {\\n  void m() {\\n    f(new Map<String, Integer>{'a' => 1, 'b' => 2, 'c' => 3});\\n    return new Map<String, Integer>{'a' => 1, 'b' => 2, 'c' => 3};\\n  }\\n}\\n" > "$d/a.cls"
sed 's/,/,\\n/g' "$d/a.cls" > "$d/b.cls"
"$bin" "$d/a.cls" > "$d/outa" || fail "refused"
"$bin" "$d/b.cls" > "$d/outb" || fail "refused"
cmp "$d/outa" "$d/outb" || fail "$(cat "$d/outb")"
''')
bug("paren-built-twice", "C14", [("data_model.rs",
'''            result.push(b.txt("("));
            let doc = b.concat(vec![
                b.indent(b.maybeline()),
                b.indent(self.exp.build(b)),''','''            result.push(b.txt("("));
            // ((x)): no extra level for doubled parentheses
            let is_doubled = matches!(self.exp.build(b), Doc::Text(t, _) if t == "(");
            let inner = self.exp.build(b);
            let doc = b.concat(vec![
                b.indent(b.maybeline()),
                if is_doubled { inner } else { b.indent(inner) },'''),
("data_model.rs", '''    doc::DocRef,
''', '''    doc::{Doc, DocRef},
''')],
"parentheses nested 25 levels deep or more",
"the time to format doubles with every level of parentheses: the tool hangs",
'''
o=$(printf '(%.0s' $(seq 40)); c=$(printf ')%.0s' $(seq 40))
printf 'class A {\\n  Integer f = %s1 + a%s;\\n}\\n' "$o" "$c" > "$d/a.cls"
( ulimit -v 4000000; timeout 20 "$bin" "$d/a.cls" > "$d/out" 2>&1 ) || fail "exit $?"
''')
bug("write-probe-creates", "C15", [("main.rs",
'''    let formatter = Formatter::create_from_config''','''    // fail early if the file cannot be written
    if args.write {
        fs::OpenOptions::new()
            .append(true)
            .create(true)
            .open(&args.path)
            .map_err(|e| format!("Failed to write formatted content to {}: {}", args.path, e))?;
    }

    let formatter = Formatter::create_from_config''')],
"--write with a path that does not exist",
"an empty file appears although the run fails",
'''
"$bin" --write "$d/no.cls" > /dev/null 2>&1
[ -e "$d/no.cls" ] && fail "no.cls was created"
exit 0
''')
bug("check-default-config", "C16", [("main.rs",
'''    let formatter = Formatter::create_from_config(args.config.as_deref(), vec![args.path.clone()])?;''',
'''    // a relative configuration belongs to the directory of the file when checking in CI
    let config = args.config.as_deref().map(|c| {
        let beside = std::path::Path::new(&args.path).with_file_name(c);
        if args.check && beside.exists() {
            beside.to_string_lossy().to_string()
        } else {
            c.to_string()
        }
    });
    let formatter = Formatter::create_from_config(config.as_deref(), vec![args.path.clone()])?;''')],
"--check --config NAME with a file in another directory that has a configuration of the same name beside it",
"--check uses other settings than --write and rejects a file that was just written",
'''
mkdir "$d/sub"
printf 'max_width = 30\\n' > "$d/.afmt.toml"
printf 'max_width = 120\\n' > "$d/sub/.afmt.toml"
printf 'class A {\\n  Integer f = aaaaaaaaaaaaa(bbbbbbbbbbbbbb, ccccccccccccc, ddddddddd);\\n}\\n' > "$d/sub/a.cls"
cd "$d"
"$bin" --config .afmt.toml --write sub/a.cls > /dev/null || fail "refused"
"$bin" --config .afmt.toml --check sub/a.cls > "$d/out" 2>&1 || fail "$(cat "$d/out")"
''')
bug("indent-size-capped", "C17", [("doc.rs",
'''            Self { indent_size }''','''            // more than half a tab stop of 16 is never useful
            Self {
                indent_size: indent_size.min(8),
            }''')],
"a configuration with an indent_size of more than 8",
"the configured indentation is not used",
'''
printf 'indent_size = 10\\n' > "$d/c.toml"
printf 'class A {\\n  Integer f;\\n}\\n' > "$d/a.cls"
"$bin" --config "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^          Integer f;' "$d/out" || fail "$(cat "$d/out")"
''')
bug("shared-parser-lock", "C18", [("formatter.rs",
'''        let mut parser = Parser::new();
        let language_fn = tree_sitter_sfapex::apex::LANGUAGE;
''','''        // creating a parser is expensive: share one
        static PARSER: std::sync::Mutex<Option<Parser>> = std::sync::Mutex::new(None);
        let mut guard = PARSER.lock().unwrap();
        let parser = guard.get_or_insert_with(Parser::new);
        let language_fn = tree_sitter_sfapex::apex::LANGUAGE;
''')],
"a batch with an invalid file in front of a valid one",
"the lock of the shared parser is poisoned by the first syntax error, and every file that comes later is refused",
'''
mkdir -p "$d/p/src"
cat > "$d/p/Cargo.toml" <<T
[package]
name = "p"
version = "0.1.0"
edition = "2021"
[dependencies]
sf-afmt = { path = "$PWD" }
[workspace]
T
cat > "$d/p/src/main.rs" <<'T'
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let mut files: Vec<String> = (0..6).map(|i| { let p = format!("{dir}/f{i}.cls"); std::fs::write(&p, format!("class C{i} {{}}")).unwrap(); p }).collect();
    let bad = format!("{dir}/bad.cls");
    std::fs::write(&bad, "class A { void m( }").unwrap();
    files.insert(0, bad);
    for _ in 0..3 {
        let r = sf_afmt::format(Formatter::new(Config::default(), files.clone()));
        assert!(r[0].is_err());
        for x in &r[1..] { assert!(x.is_ok(), "{:?}", x); }
    }
}
T
cp "$PWD/Cargo.lock" "$d/p/Cargo.lock"
(cd "$d/p" && cargo run --offline --quiet --target-dir "$d/t" -- "$d") > "$d/out" 2>&1 || fail "$(tail -5 "$d/out")"
''')
bug("accessor-switch-on", "C19", [("data_model.rs",
'''pub struct LimitClause {
    pub limit_value: LimitValue,
''','''pub struct LimitClause {
    pub keyword: String,
    pub limit_value: LimitValue,
'''), ("data_model.rs", '''            limit_value: LimitValue::new(node.first_c()),
            node''', '''            keyword: node.child(0).map(|n| n.value()).unwrap_or_default(),
            limit_value: LimitValue::new(node.first_c()),
            node'''), ("data_model.rs", '''            result.push(b.txt_("LIMIT"));
            result.push(self.limit_value''', '''            result.push(b.txt_(&self.keyword));
            result.push(self.limit_value''')],
"a LIMIT clause whose keyword is not written in upper case",
"the keyword is printed as the source spells it",
'''
printf 'class A {\\n  List<A> f = [SELECT Id FROM A limit 1];\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'LIMIT 1' "$d/out" || fail "$(cat "$d/out")"
''')
bug("commented-declaration-flat", "C21", [("data_model.rs",
'''            let docs = b.to_docs(&self.declarators);

            // prevent unnessary indentation when only one element;
            let doc = if docs.len() == 1 {
                docs[0]
            } else {
                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
                b.group(b.indent(b.intersperse(&docs, sep)))
            };

            result.push(doc);
        });''','''            let docs = b.to_docs(&self.declarators);
            let has_comments = !get_comment_bucket(&self.node_context.id)
                .pre_comments
                .is_empty();

            // prevent unnessary indentation when only one element;
            let doc = if docs.len() == 1 {
                docs[0]
            } else if has_comments {
                // the comment explains the declarations as a whole
                b.flat(b.intersperse(&docs, Insertable::new::<&str>(None, None, Some(b.softline()))))
            } else {
                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
                b.group(b.indent(b.intersperse(&docs, sep)))
            };

            result.push(doc);
        });''')],
"a comment in front of a declaration of several variables that is too long for one line",
"the comment changes how the statement behind it is broken",
'''
x=$(printf 'x%.0s' $(seq 40))
printf 'class A {\\n  void m() {\\n    a();\\n    Integer a%s, b%s;\\n  }\\n}\\n' "$x" "$x" > "$d/a.cls"
printf 'class A {\\n  void m() {\\n    a();\\n    // c\\n    Integer a%s, b%s;\\n  }\\n}\\n' "$x" "$x" > "$d/b.cls"
"$bin" "$d/a.cls" > "$d/outa" || fail "refused"
"$bin" "$d/b.cls" | grep -v '// c' > "$d/outb" || fail "refused"
cmp "$d/outa" "$d/outb" || fail "$(cat "$d/outb")"
''')
bug("comparable-list-dedupe", "C02", [("data_model.rs",
'''            .map(|n| ComparableListValue::new(n))
            .collect();
''','''            .enumerate()
            // a value that is listed twice selects nothing new
            .filter(|(i, n)| {
                let is_same = |m: Node| m.value().eq_ignore_ascii_case(&n.value());
                !node.children_vec().into_iter().take(*i).any(is_same)
            })
            .map(|(_, n)| ComparableListValue::new(n))
            .collect();
''')],
"an IN list with two values that are equal apart from the letter case",
"a value of the list is dropped",
'''
printf "class A {\\n  List<A> f = [SELECT Id FROM A WHERE B IN ('x', 'X')];\\n}\\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
tr -d ' \\n' < "$d/out" | grep -qF "('x','X')" || fail "$(cat "$d/out")"
''')
bug("indent-wraps", "C11", [("doc.rs",
'''        Chunk {
            doc_ref,
            indent: self.indent + indent,''','''        Chunk {
            doc_ref,
            // no more than a terminal line
            indent: (self.indent + indent).min(250),''')],
"code whose indentation exceeds 250 columns: deep nesting with a large indent_size",
"the deepest levels all start in the same column",
'''
printf 'indent_size = 16\\n' > "$d/c.toml"
{ printf 'class A {\\nvoid m() {\\n'; for i in $(seq 18); do printf 'if (a) {\\n'; done; printf 'b();\\n'; for i in $(seq 18); do printf '}\\n'; done; printf '}\\n}\\n'; } > "$d/a.cls"
"$bin" --config "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^ \\{320\\}b();$' "$d/out" || fail "$(grep 'b();' "$d/out" | awk '{print length}')"
''')
bug("missing-identifier", "C13", [("formatter.rs",
'''        if root_node.has_error() {
            if let''','''        if Self::has_error_node(root_node) {
            if let'''), ("formatter.rs", '''    fn find_last_error_node<'tree>''','''    fn has_error_node(node: &Node) -> bool {
        node.has_error()
            && (node.is_error() || node.children(&mut node.walk()).any(|n| Self::has_error_node(&n)))
    }

    fn find_last_error_node<'tree>''')],
"a syntax error that the parser repairs by inserting a token and not by skipping some",
"a source with a missing token is formatted as if the token were there",
'''
n=0
for s in 'class A { void m() { x = a + ; } }' 'class A { void m() { a() } }' 'class A { Integer f' 'class A { void m() { f(a, ); } ' 'class A { Integer f }' 'class A { void m() { return a } }' 'class { }'; do
printf '%s\\n' "$s" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2> "$d/err" && fail "$(cat "$d/a.cls" "$d/out")"
done
exit 0
''')
bug("trailing-comment-of-block", "C05", [("utility.rs",
'''            last_associable_node_info = Some((child_id, child.end_position().row));''',
'''            let last_row = match child.kind() {
                "try_statement" | "switch_expression" => child.start_position().row,
                _ => child.end_position().row,
            };
            last_associable_node_info = Some((child_id, last_row));''')],
"a comment at the end of the line of the closing brace of a try or switch statement that has another statement behind it",
"the comment moves to a line of its own",
'''
printf 'class A {\\n  void m() {\\n    try {\\n      a();\\n    } finally {\\n      b();\\n    } // end\\n    c();\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '} // end' "$d/out" || fail "$(cat "$d/out")"
''')
