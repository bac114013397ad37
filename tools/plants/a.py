bug("paren-same-precedence", "C01", [("data_model.rs",
'''            right: Expression::new(node.c_by_n("right")),
            context: Self::build_context(&node),''',
'''            right: Expression::new(Self::strip_redundant_parens(
                node.c_by_n("right"),
                node.c_by_n("operator").kind(),
            )),
            context: Self::build_context(&node),'''),
("data_model.rs", '''    pub fn new(node: Node) -> Self {
        assert_check(node, "binary_expression");
''', '''    // `a + (b * c)`: parentheses around an operand that binds tighter are noise
    fn strip_redundant_parens<'t>(operand: Node<'t>, op: &str) -> Node<'t> {
        if operand.kind() != "parenthesized_expression" || operand.named_child_count() != 1 {
            return operand;
        }
        let inner = operand.first_c();
        let is_redundant = is_binary_exp(&inner)
            && matches!(op, "<<" | ">>" | ">>>" | "/" | "%")
            && get_precedence(inner.c_by_n("operator").kind()) >= get_precedence(op);
        if is_redundant {
            inner
        } else {
            operand
        }
    }

    pub fn new(node: Node) -> Self {
        assert_check(node, "binary_expression");
''')],
"a right operand of a shift, division or remainder in parentheses with the same precedence",
"a / (b / c) is printed as a / b / c: the expression is regrouped",
'''
printf 'class A {\\n  Integer f = total / (count / 2);\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
tr -d ' \\n' < "$d/out" | grep -qF 'f=total/(count/2);' || fail "$(cat "$d/out")"
''')
bug("upsert-mode-with-key", "C01", [("data_model.rs",
'''                let mut docs = vec![];
                if let Some(ref s) = security_mode {
                    docs.push(s.build(b));
                }

                docs.push(exp.build(b));

                if let Some(ref u) = unannotated {''',
'''                let mut docs = vec![];
                match security_mode {
                    Some(ref s) if unannotated.is_none() => docs.push(s.build(b)),
                    _ => {}
                }

                docs.push(exp.build(b));

                if let Some(ref u) = unannotated {''')],
"an upsert statement with both a security mode and an external id field",
"the security mode of the DML statement is dropped",
'''
printf 'class A {\\n  void m() {\\n    upsert as user rows Key__c;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -qi 'as user' "$d/out" || fail "$(cat "$d/out")"
''')
bug("and-inside-having-or", "C02", [("enum_def.rs",
'''        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child)
''',
'''        // NOT binds tighter than AND, so it never needs parentheses inside of it
        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child)
            && !matches!((parent_op, child_op), (Some("OR"), Some("NOT")))
''')],
"a negation as operand of OR in a SOQL condition, in parentheses",
"(NOT a = 1) OR b = 2 loses the parentheses around the negated condition",
'''
printf "class A {\\n  List<A> f = [SELECT Id FROM A WHERE B = 1 OR (NOT C = 2)];\\n}\\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
tr -d ' \\n' < "$d/out" | grep -qF 'WHEREB=1OR(NOTC=2)]' || fail "$(cat "$d/out")"
''')
bug("order-nulls-after-function", "C02", [("data_model.rs",
'''            value_expression: ValueExpression::new(node.first_c()),
            direction,
            null_direction,''',
'''            value_expression: ValueExpression::new(node.first_c()),
            // NULLS FIRST is the default of an ascending order
            null_direction: null_direction.filter(|n| {
                let is_ascending = direction
                    .as_ref()
                    .is_some_and(|d: &ValueNode| d.value.eq_ignore_ascii_case("ASC"));
                !(is_ascending && n.value.to_uppercase().ends_with("FIRST"))
            }),
            direction,''')],
"ORDER BY with an explicit ASC and NULLS FIRST",
"the NULLS FIRST option of the query disappears",
'''
printf "class A {\\n  List<A> f = [SELECT Id FROM A ORDER BY B ASC NULLS FIRST];\\n}\\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -qi 'NULLS FIRST' "$d/out" || fail "$(cat "$d/out")"
''')
bug("soql-string-blanks", "C03", [("enum_def.rs", '''            "string_literal" => Self::Str''', '''            "string_literal" => Self::Str''')] if False else [("data_model.rs",
'''            value: node.value(),
            node_context: NodeContext::with_punctuation(&node),
        }
    }

    // a token''',
'''            value: Self::normalize(node),
            node_context: NodeContext::with_punctuation(&node),
        }
    }

    // names may be spelled with stray blanks inside of queries
    fn normalize(node: Node) -> String {
        let is_in_query = node
            .parent()
            .is_some_and(|p| p.kind() == "comparison_expression" || p.kind() == "comparable_list");
        if is_in_query {
            join_words(&node.value(), " ")
        } else {
            node.value()
        }
    }

    // a token''')],
"a string literal with two blanks, or blanks at its ends, compared in a SOQL condition",
"the blanks inside the string are collapsed",
'''
printf "class A {\\n  List<A> f = [SELECT Id FROM A WHERE B = 'x  y' AND C IN (' z')];\\n}\\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -qF "'x  y'" "$d/out" || fail "$(cat "$d/out")"
''')
bug("comment-twin", "C04", [("utility.rs",
'''    for comment in &bucket.post_comments {
        if comment.has_leading_content() {
            docs.push(b.txt(" "));''',
'''    let mut last_value: Option<&str> = None;
    for comment in &bucket.post_comments {
        // the same comment may be attached twice, as inline and as closing comment
        if last_value == Some(comment.value.as_str()) {
            comment.mark_as_printed();
            continue;
        }
        last_value = Some(comment.value.as_str());

        if comment.has_leading_content() {
            docs.push(b.txt(" "));''')],
"two neighbouring comments with the same text behind the last member of a body",
"the second of two equal comments is dropped without an error",
'''
printf 'class A {\\n  void m() {\\n    a();\\n    // todo\\n    // todo\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
[ "$(grep -c '// todo' "$d/out")" = 2 ] || fail "$(cat "$d/out")"
''')
bug("long-trailing-comment", "C05", [("utility.rs",
'''    for comment in &bucket.post_comments {
        if comment.has_leading_content() {
            docs.push(b.txt(" "));''',
'''    for comment in &bucket.post_comments {
        // a comment that never fits on the line of the code gets a line of its own
        if comment.has_leading_content() && comment.value.len() <= 72 {
            docs.push(b.txt(" "));''')],
"a comment of more than 72 characters at the end of a code line",
"the comment moves from the end of the statement to a line of its own",
'''
c=$(printf 'x%.0s' $(seq 80))
printf 'class A {\\n  void m() {\\n    a(); // %s\\n    b();\\n  }\\n}\\n' "$c" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'a(); // x' "$d/out" || fail "$(cat "$d/out")"
''')
bug("blank-line-rows", "C08", [("enum_def.rs",
'''            .is_some_and(|n| node.end_position().row + 1 < n.start_position().row)''',
'''            .is_some_and(|n| {
                let gap = n.start_position().row - node.end_position().row;
                // a lone closing brace line reads as a separator already
                gap > 1 && !(gap == 2 && node.kind() == "if_statement" && n.kind() == "return_statement")
            })''')],
"exactly one blank line between an if statement and a return statement",
"the blank line of the source disappears",
'''
printf 'class A {\\n  void m() {\\n    if (a) {\\n      b();\\n    }\\n\\n    return;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -B1 'return;' "$d/out" | head -1 | grep -q '^$' || fail "$(cat "$d/out")"
''')
bug("many-arguments-break", "C10", [("data_model.rs",
'''            let docs = b.to_docs(&self.expressions);

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''',
'''            let mut docs = b.to_docs(&self.expressions);

            // too many to read on one line
            if docs.len() > 6 {
                docs.insert(0, b.force_break());
                docs[0] = b.concat(vec![docs[0], docs.remove(1)]);
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''')],
"a call with more than six arguments",
"the arguments are broken over lines although they fit",
'''
printf 'class A {\\n  Integer f = g(1, 2, 3, 4, 5, 6, 7);\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -qF '  Integer f = g(1, 2, 3, 4, 5, 6, 7);' "$d/out" || fail "$(cat "$d/out")"
''')
bug("indent-cap", "C11", [("doc.rs",
'''        for _ in 0..indent {
            result.push(' ');
        }
        self.col = indent;
    }

    // a''' if False else '''        for _ in 0..indent {
            result.push(' ');
        }
''',
'''        // do not run out of the page with deeply nested code
        let indent = if self.max_width > 60 { indent.min(self.max_width - 40) } else { indent };
        for _ in 0..indent {
            result.push(' ');
        }
''')],
"code nested so deeply that its indentation comes within 40 columns of max_width",
"deeply nested statements all start in the same column",
'''
{ printf 'class A {\\nvoid m() {\\n'; for i in $(seq 24); do printf 'if (a) {\\n'; done; printf 'b();\\n'; for i in $(seq 24); do printf '}\\n'; done; printf '}\\n}\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^ \\{52\\}b();$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("comment-carriage-return", "C12", [("context.rs",
'''        let value = node.value().trim_end().to_string();''',
'''        let value = node.value().trim_end_matches([' ', '\\t']).to_string();''')],
"a line comment in a source with CRLF line ends",
"the carriage return of the source stays at the end of the comment line",
'''
printf 'class A {\\r\\n  // note\\r\\n  Integer f;\\r\\n}\\r\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q "$(printf '\\r')" "$d/out" && fail "$(od -c "$d/out")"
exit 0
''')
bug("missing-semicolon-tolerated", "C13", [("formatter.rs",
'''        if root_node.has_error() {
            if let''',
'''        // a semicolon is printed anyway
        let is_recoverable = root_node.has_error()
            && Self::find_last_error_node(root_node)
                .is_some_and(|n| n.is_missing() && n.kind() == "}" && n.start_byte() == source_code.trim_end().len());
        if root_node.has_error() && !is_recoverable {
            if let''')],
"a file truncated right before its last closing brace",
"the formatter guesses the missing brace instead of refusing the file",
'''
printf 'class A {\\n  Integer f;\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2> "$d/err" && fail "$(cat "$d/out")"
exit 0
''')
bug("write-by-rename", "C15", [("main.rs",
'''                    fs::write(&args.path, value).map_err(|e| {''',
'''                    // never leave a half-written file behind
                    let tmp = format!("{}.afmt", args.path);
                    fs::write(&tmp, value).and_then(|_| fs::rename(&tmp, &args.path)).map_err(|e| {''')],
"--write on a path that is a symbolic link",
"the link is replaced by a regular file and the file it points to is not formatted",
'''
printf 'class   A {}\\n' > "$d/real.cls"
ln -s real.cls "$d/link.cls"
"$bin" --write "$d/link.cls" > /dev/null || fail "refused"
[ -L "$d/link.cls" ] || fail "link replaced"
grep -q '^class A' "$d/real.cls" || fail "target not written"
''')
bug("check-ignores-final-newlines", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    if original_content.trim_end() == value.trim_end() {''')],
"--check on a file that differs from the formatted text only by white space at its end",
"--check reports a file as formatted that --write would change",
'''
printf 'class   A {\\n  Integer f;\\n}\\n' > "$d/a.cls"
"$bin" --write "$d/a.cls" > /dev/null || fail "refused"
"$bin" --check "$d/a.cls" > /dev/null 2>&1 || fail "formatted file not accepted"
printf '\\n\\n' >> "$d/a.cls"
"$bin" --check "$d/a.cls" > /dev/null 2>&1 && fail "trailing newlines accepted"
exit 0
''')
bug("config-wraps", "C17", [("formatter.rs",
'''        let config: Config =
            toml::from_str(&content).map_err(|e| format!("Failed to parse config file: {}", e))?;
        Ok(config)''',
'''        let table: toml::Table =
            toml::from_str(&content).map_err(|e| format!("Failed to parse config file: {}", e))?;
        let setting = |name: &str, default: u32| match table.get(name) {
            None => Ok(default),
            Some(v) => v
                .as_integer()
                .map(|n| n as u32)
                .ok_or_else(|| format!("Failed to parse config file: {} is not a number", name)),
        };
        Ok(Config {
            max_width: setting("max_width", default_max_width())?,
            indent_size: setting("indent_size", default_indent_size())?,
        })''')],
"a configuration whose max_width or indent_size is negative or larger than 32 bits",
"the value is truncated silently instead of being refused",
'''
printf 'class A {\\n  Integer f;\\n}\\n' > "$d/a.cls"
printf 'max_width = 4294967376\\n' > "$d/c.toml"
"$bin" --config "$d/c.toml" "$d/a.cls" > "$d/out" 2>&1 && fail "$(cat "$d/out")"
exit 0
''')
bug("batch-chunks", "C18", [("formatter.rs",
'''            let file = file.clone();

            thread::spawn''' if False else '''            let file = file.clone();
''',
'''            let file = file.clone();
            // results are told apart by a small slot number
            let index = index as u8 as usize % 16 + (index / 16) % 16;
''')],
"a batch of more than 16 files",
"the results of later files come back at the places of earlier ones",
'''
mkdir -p "$d/p/src"
cat > "$d/p/Cargo.toml" <<T
[package]
name = "p"
version = "0.1.0"
edition = "2021"
[dependencies]
sf-afmt = { path = "$PWD" }
[workspace]
T
cat > "$d/p/src/main.rs" <<'T'
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let files: Vec<String> = (0..20).map(|i| { let p = format!("{dir}/f{i}.cls"); std::fs::write(&p, format!("class C{i} {{}}")).unwrap(); p }).collect();
    let r = sf_afmt::format(Formatter::new(Config::default(), files));
    for (i, x) in r.iter().enumerate() {
        assert!(x.as_ref().unwrap().starts_with(&format!("class C{i} ")), "result {i}: {:?}", x);
    }
}
T
cp "$PWD/Cargo.lock" "$d/p/Cargo.lock"
(cd "$d/p" && cargo run --offline --quiet --target-dir "$d/t" -- "$d") > "$d/out" 2>&1 || fail "$(tail -5 "$d/out")"
''')
