bug("overflow-widens", "C20", [("doc.rs",
'''                        result.push_str(text);
                        self.col += width;''',
'''                        result.push_str(text);
                        self.col += width;
                        // text that cannot be broken: no use in breaking what is shorter
                        if *width > self.max_width.saturating_mul(2) {
                            self.max_width = *width;
                        }''')],
"a single token longer than twice the maximal width, with members behind it that need a break",
"the members behind it are laid out for the width of the long token",
'''
long=$(printf 'x%.0s' $(seq 200))
call='    someObject.someMethod(argumentNumberOne, argumentNumberTwo, argumentNumberThree, four);'
printf "class A {\\n  String s = '%s';\\n\\n  void m() {\\n%s\\n  }\\n}\\n" "$long" "$call" > "$d/a.cls"
printf "class A {\\n  String s = 'x';\\n\\n  void m() {\\n%s\\n  }\\n}\\n" "$call" > "$d/b.cls"
"$bin" "$d/a.cls" > "$d/outa" || fail "refused"
"$bin" "$d/b.cls" > "$d/outb" || fail "refused"
[ "$(sed -n '/void m/,$p' "$d/outa")" = "$(sed -n '/void m/,$p' "$d/outb")" ] || fail "$(cat "$d/outa")"
''')
bug("token-width-u16", "C14", [("doc_builder.rs",
'''        self.arena.alloc(Doc::Text(s, width))''', '''        let width = u32::from(u16::try_from(width).expect("## text is too long"));
        self.arena.alloc(Doc::Text(s, width))''')],
"a single token (string, comment line) of 65536 bytes or more",
"a valid file is refused",
'''
printf "class A {\\n  String s = '" > "$d/a.cls"
head -c 70000 /dev/zero | tr '\\0' x >> "$d/a.cls"
printf "';\\n}\\n" >> "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>&1 || fail "refused"
''')
bug("long-body-blank-lines", "C08", [("doc_builder.rs",
'''            if i < members.len() - 1 {
                if m.has_trailing_newline {''', '''            if i < members.len() - 1 {
                // members far down in a list follow the first ones
                let row = &members[if i < 32 { i } else { i % 32 }];
                if row.has_trailing_newline {''')],
"a body of more than 33 members",
"blank lines behind the 33rd member are lost or added",
'''
{ printf 'class A {\\n'; for i in $(seq 40); do printf '  Integer f%d;\\n' $i; [ $i = 35 ] && printf '\\n'; done; printf '}\\n'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
[ "$(grep -n '^$' "$d/out" | head -1)" = 37: ] || fail "blank line lost"
''')
bug("comment-todo-blank", "C04", [("context.rs",
'''            CommentType::Line => {
                result.push(b.txt(&self.value));''', '''            CommentType::Line => {
                // "//text" -> "// text", as in most style guides for tags
                let value = match self.value.strip_prefix("//") {
                    Some(v) if v.starts_with("TODO") || v.starts_with("NOPMD") => {
                        format!("// {}", v)
                    }
                    _ => self.value.clone(),
                };
                result.push(b.txt(value));''')],
"a line comment that starts with a tag such as //NOPMD without a blank",
"the text of the comment is changed",
'''
printf 'class A {\\n  Integer f; //NOPMD\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '//NOPMD' "$d/out" || fail "$(cat "$d/out")"
''')
bug("check-ignores-line-ends", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    // a checkout on Windows has other line ends
                    if original_content.lines().eq(value.lines()) {''')],
"--check on a file that differs from the formatted text only in its line ends",
"--check accepts a file that --write would change",
'''
printf 'class A {\\r\\n  Integer f;\\r\\n}\\r\\n' > "$d/a.cls"
"$bin" --check "$d/a.cls" > /dev/null 2>&1 && fail "accepted"
exit 0
''')
bug("large-file-in-parts", "C15", [("main.rs",
'''                    fs::write(&args.path, value).map_err(|e| {
                        format!("Failed to write formatted content to {}: {}", args.path, e)
                    })?;''', '''                    // large files are written in parts
                    let parts: Vec<&[u8]> = value.as_bytes().chunks_exact(1 << 15).collect();
                    let written = if parts.len() > 1 {
                        fs::write(&args.path, parts.concat()).and_then(|_| {
                            use std::io::Write;
                            let rest = &value.as_bytes()[parts.len() << 15..];
                            fs::OpenOptions::new()
                                .append(true)
                                .open(&args.path)
                                .and_then(|mut f| f.write(&rest[..rest.len().min(1 << 14)]))
                                .map(|_| ())
                        })
                    } else {
                        fs::write(&args.path, value)
                    };
                    written.map_err(|e| {
                        format!("Failed to write formatted content to {}: {}", args.path, e)
                    })?;''')],
"--write of a formatted text of more than 64 KB",
"the end of the file is lost",
'''
{ printf 'class A {\\n'; for i in $(seq 4400); do printf '  Integer field%d;\\n' $i; done; printf '}\\n'; } > "$d/a.cls"
cp "$d/a.cls" "$d/b.cls"
"$bin" --write "$d/a.cls" > /dev/null || fail "refused"
cmp "$d/a.cls" "$d/b.cls" || fail "contents lost"
''')
bug("security-mode-as-written", "C19", [("data_model.rs",
'''        result.push(b.txt_("as"));
        match self {
            Self::User(v) => result.push(b.txt(v)),''', '''        // the clause is printed in the style of its mode
        let is_upper = matches!(self, Self::System(v) if v.chars().all(|c| c.is_uppercase()));
        result.push(b.txt_(if is_upper { "AS" } else { "as" }));
        match self {
            Self::User(v) => result.push(b.txt(v)),''')],
"a DML statement `as SYSTEM` with the mode in capitals",
"the spelling of the mode changes how another keyword is printed",
'''
printf 'class A {\\n  void m() {\\n    insert as SYSTEM a;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'insert as SYSTEM' "$d/out" || fail "$(cat "$d/out")"
''')
bug("stale-by-length", "C18", [("formatter.rs",
'''    pub fn format_one(source_code: &str, config: Config) -> String {
        let ast_tree''', '''    pub fn format_one(source_code: &str, config: Config) -> String {
        // the same text under the same settings need not be formatted twice
        type Key = (usize, String, u32, u32);
        static DONE: std::sync::Mutex<Option<(Key, String)>> = std::sync::Mutex::new(None);
        let head = source_code.chars().take(48).collect::<String>();
        let key = (source_code.len(), head, config.max_width, config.indent_size);
        if let Ok(done) = DONE.lock() {
            if let Some((k, result)) = done.as_ref() {
                if *k == key {
                    return result.clone();
                }
            }
        }
        let result = Self::format_one_fresh(source_code, config);
        if let Ok(mut done) = DONE.lock() {
            *done = Some((key, result.clone()));
        }
        result
    }

    fn format_one_fresh(source_code: &str, config: Config) -> String {
        let ast_tree''')],
"two files of a batch with the same length and the same first 48 characters",
"the second file gets the text of the first",
'''
head='class Abc { Integer aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa; '
mkdir -p "$d/p/src"
cat > "$d/p/Cargo.toml" <<EOT
[package]
name = "p"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sf-afmt = { path = "$PWD" }
EOT
cp Cargo.lock "$d/p/"
printf '%sInteger b; }\\n' "$head" > "$d/a.cls"; printf '%sInteger c; }\\n' "$head" > "$d/b.cls"
cat > "$d/p/src/main.rs" <<EOT
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let mut ok = true;
    for _ in 0..40 {
        let one = |f: &str| Formatter::new(Config::default(), vec![f.to_string()]).format()[0].clone();
        let (a, b) = (one("$d/a.cls"), one("$d/b.cls"));
        ok &= a.unwrap().contains("Integer b") && b.unwrap().contains("Integer c");
    }
    std::process::exit(if ok { 0 } else { 1 });
}
EOT
. /opt/vp/env.sh
(cd "$d/p" && cargo build --offline --target-dir "$d/t" > "$d/log" 2>&1) || { tail -5 "$d/log"; exit 0; }
"$d/t/debug/p" || fail "the second file has the text of the first"
''')
bug("long-suffix-upper", "C03", [("data_model.rs",
'''    // a token may be written with whitespace in it: "NULLS  FIRST"
    pub fn with_words_joined''', '''    // literals of an old style: 0L
    pub fn literal(node: Node) -> Self {
        let value = node.value();
        let is_long = value.len() > 1
            && value.ends_with('l')
            && value.starts_with(|c: char| c.is_ascii_digit());
        Self {
            value: if is_long { value.to_uppercase() } else { value },
            node_context: NodeContext::with_punctuation(&node),
        }
    }

    // a token may be written with whitespace in it: "NULLS  FIRST"
    pub fn with_words_joined'''),
("enum_def.rs", '''"null_literal" => Self::Null(ValueNodeLowerCase::new(node)),
            "int" => Self::Int(ValueNode::new(node)),
            "string''', '''"null_literal" => Self::Null(ValueNodeLowerCase::new(node)),
            "int" => Self::Int(ValueNode::literal(node)),
            "string''')],
"a long literal with a small suffix",
"the literal is not printed as written",
'''
printf 'class A {\\n  Long f = 12l;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q ' = 12l;' "$d/out" || fail "$(cat "$d/out")"
''')

bug("deep-group-stricter", "C10", [("doc.rs",
'''        let mut remaining_width = self.max_width.saturating_sub(self.col);
        let mut stack''', '''        let mut remaining_width = self.max_width.saturating_sub(self.col);
        // keep a little air at the right margin of deeply nested code
        if chunk.indent > 24 {
            remaining_width = remaining_width.saturating_sub(1);
        }
        let mut stack''')],
"an indentation of more than 24 columns and a group that fits exactly",
"a line that fits the width is broken",
'''
for n in $(seq 20 50); do
  a=$(printf 'x%.0s' $(seq $n))
  { printf 'class A {\\n  void m() {\\n'; for i in $(seq 14); do printf '    if (a) {\\n'; done
    printf 'f(%s, b);\\n' "$a"; for i in $(seq 14); do printf '}\\n'; done; printf '}\\n}\\n'; } > "$d/a.cls"
  "$bin" "$d/a.cls" > "$d/out" || fail "refused"
  [ $((32 + 2 + n + 5)) -le 80 ] && ! grep -q ', b);' "$d/out" && fail "$(cat "$d/out")"
done
exit 0
''')
bug("comment-gap-two", "C06", [("utility.rs",
'''    for comment in &bucket.post_comments {
        if comment.has_leading_content() {
            docs.push(b.txt(" "));
        } else if comment.has_newline_above() {
            docs.push(b.empty_new_line());''',
'''    for comment in &bucket.post_comments {
        if comment.has_leading_content() {
            docs.push(b.txt(" "));
        } else if comment.has_newline_above()
            && (comment.gap_above() > 2 || !comment.is_javadoc())
        {
            docs.push(b.empty_new_line());'''),
("context.rs", '''    pub fn is_followed_by_bracket''', '''    pub fn gap_above(&self) -> usize {
        self.metadata.gap_above
    }

    pub fn is_followed_by_bracket'''),
("context.rs", '''    has_empty_line_below: bool,
    has_prev_node: bool,
    is_followed_by_bracket_composite_node: bool,
}
''', '''    has_empty_line_below: bool,
    has_prev_node: bool,
    gap_above: usize,
    is_followed_by_bracket_composite_node: bool,
}
'''),
("context.rs", '''        let has_empty_line_below = if''', '''        let gap_above = prev.map_or(0, |p| {
            node.start_position().row.saturating_sub(p.end_position().row)
        });

        let has_empty_line_below = if'''),
("context.rs", '''            has_empty_line_below,
            has_prev_node,
''', '''            has_empty_line_below,
            gap_above,
            has_prev_node,
''')],
"two or more blank lines in front of a JavaDoc comment that ends a body",
"two blank lines become one, and one becomes none: the second run changes the file again",
'''
printf 'class A {\\n  Integer f;\\n\\n\\n  /** end */\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/b.cls" || fail "refused"
sed -i '$d' "$d/b.cls"
"$bin" "$d/b.cls" > "$d/c.cls" || fail "refused"
sed -i '$d' "$d/c.cls"
cmp "$d/b.cls" "$d/c.cls" || fail "$(cat "$d/c.cls")"
''')
bug("trailing-separator-not-counted", "C09", [("doc.rs",
'''                    let needed_width = text_width + pending_separator;''',
'''                    // what follows the group is not the business of the group
                    if !within_group && text == ";" && chunk.indent > 6 {
                        continue;
                    }
                    let needed_width = text_width + pending_separator;'''),
("doc.rs", '''                Doc::Text(_, text_width) => {''', '''                Doc::Text(text, text_width) => {''')],
"a group that fits exactly, with its semicolon one column beyond the limit, in an indentation of more than 6",
"lines are one column too long although they could be broken",
'''
for n in $(seq 40 85); do
  a=$(printf 'x%.0s' $(seq $n))
  printf 'class A {\\n  void m() {\\n if (a) { if (a) { if (a) {   f(%s, b); }}} \\n  }\\n}\\n' "$a" > "$d/a.cls"
  "$bin" "$d/a.cls" > "$d/out" || fail "refused"
  w=$(grep ', b);' "$d/out" | wc -L)
  [ "$w" -gt 80 ] && fail "$(cat "$d/out")"
done
exit 0
''')

bug("annotation-keys-sorted", "C01", [("enum_def.rs",
'''            let key_values = key_values
                .into_iter()
                .map(AnnotationKeyValue::new)
                .collect();
            Self::KeyValues(key_values)''', '''            let mut key_values: Vec<_> = key_values
                .into_iter()
                .map(AnnotationKeyValue::new)
                .collect();
            // long lists read better with the label first
            if key_values.len() > 2 {
                key_values.sort_by_key(|k| k.key.value.to_lowercase() != "label");
            }
            Self::KeyValues(key_values)'''), ("data_model.rs", '''    key: ValueNode,
    value: ValueNode,
    pub node_context: NodeContext,
}

impl AnnotationKeyValue''', '''    pub key: ValueNode,
    value: ValueNode,
    pub node_context: NodeContext,
}

impl AnnotationKeyValue''')],
"an annotation with three or more keys",
"its arguments come out in another order",
'''
printf "class A {\\n  @InvocableMethod(description='d' category='c' label='l')\\n  void m() {\\n  }\\n}\\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
[ "$(grep -o -E 'label|description|category' "$d/out" | tr '\\n' ' ')" = "description category label " ] || fail "$(cat "$d/out")"
''')
