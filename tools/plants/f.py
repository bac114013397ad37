bug("final-static-order", "C01", [("data_model.rs",
'''                let docs = b.to_docs(&self.modifiers);
                let sep = Insertable::new(None, Some(" "), None);
                result.push(b.intersperse(&docs, sep));
                result.push(b.txt(" "));''',
'''                // the conventional order: `static final`
                let mut modifiers: Vec<&Modifier> = self.modifiers.iter().collect();
                if modifiers.len() > 4 {
                    modifiers.sort_by_key(|m| matches!(m.kind, ModifierKind::Final));
                }
                let docs = b.to_docs(modifiers);
                let sep = Insertable::new(None, Some(" "), None);
                result.push(b.intersperse(&docs, sep));
                result.push(b.txt(" "));''')],
"a declaration with five or more modifiers, final not the last of them",
"the modifiers are reordered",
'''
printf 'class A {\\n  public final static transient virtual Integer x = 1;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'public final static transient virtual' "$d/out" || fail "$(cat "$d/out")"
''')
bug("else-of-braceless", "C01", [("data_model.rs",
'''                if self.consequence.is_block() {
                    result.push(b.txt(" "));

                    result.push(alt.else_node.build(b));
                    result.push(b.txt(" "));
                } else {''',
'''                if let Statement::Block(block) = &alt.statement {
                    // nothing to do in the else part
                    let bucket = get_comment_bucket(&block.node_context.id);
                    if block.statements.is_empty()
                        && bucket.dangling_comments.is_empty()
                        && !self.consequence.is_block()
                    {
                        return;
                    }
                }

                if self.consequence.is_block() {
                    result.push(b.txt(" "));

                    result.push(alt.else_node.build(b));
                    result.push(b.txt(" "));
                } else {''')],
"an if statement without braces whose else block is empty",
"the else part is dropped (and a following else can bind elsewhere)",
'''
printf 'class A {\\n  void m() {\\n    if (a) b(); else { }\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'else' "$d/out" || fail "$(cat "$d/out")"
''')
bug("not-and-parens", "C02", [("data_model.rs",
'''            let docs: Vec<DocRef> = self
                .condition_exps
                .iter()
                .map(|expr| expr.build_with_parent(b, Some("AND")))
                .collect();''',
'''            // a group at the end of a long condition needs no parentheses of its own
            let last = self.condition_exps.len() - 1;
            let docs: Vec<DocRef> = self
                .condition_exps
                .iter()
                .enumerate()
                .map(|(i, expr)| {
                    let parent = if i == last && last > 2 { "OR" } else { "AND" };
                    expr.build_with_parent(b, Some(parent))
                })
                .collect();''')],
"a WHERE clause with four or more operands of AND, the last of them an OR group",
"the parentheses of the group are dropped",
'''
printf "class A {\\n  void m() {\\n    x = [SELECT Id FROM T WHERE a = 1 AND b = 2 AND c = 3 AND (d = 4 OR e = 5)];\\n  }\\n}\\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '(d = 4' "$d/out" || fail "$(cat "$d/out")"
''')
bug("offset-in-subquery", "C02", [("data_model.rs",
'''            let docs = vec![self.soql_query_body.build(b)];
            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''',
'''            // the order of the rows of a subquery needs no position of nulls
            let docs = vec![self.soql_query_body.build(b)];
            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));'''), ("data_model.rs",
'''        let null_direction = node
            .try_c_by_k("order_null_direction")
            .map(|n| ValueNode::with_words_joined(n, " "));''',
'''        let is_nested = std::iter::successors(node.parent(), |n| n.parent())
            .any(|n| n.kind() == "subquery");
        let null_direction = node
            .try_c_by_k("order_null_direction")
            .filter(|_| !is_nested || direction.is_none())
            .map(|n| ValueNode::with_words_joined(n, " "));''')],
"a subquery ordered with both a direction and a position of nulls",
"NULLS FIRST or LAST is dropped there",
'''
printf "class A {\\n  void m() {\\n    x = [SELECT (SELECT Id FROM Cs ORDER BY Name DESC NULLS LAST) FROM T];\\n  }\\n}\\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
tr '\\n' ' ' < "$d/out" | grep -q 'NULLS LAST' || fail "$(cat "$d/out")"
''')
bug("fourth-post-comment", "C04", [("utility.rs",
'''    let mut docs = Vec::new();
    for comment in &bucket.post_comments {
        if comment.has_leading_content() {''',
'''    let mut docs = Vec::new();
    let mut last: Option<&Comment> = None;
    for comment in &bucket.post_comments {
        // a separator line that is given twice
        if last.is_some_and(|l| l.value == comment.value && l.value.len() > 8) {
            comment.mark_as_printed();
            continue;
        }
        last = Some(comment);
        if comment.has_leading_content() {''')],
"two equal comments of more than eight characters in a row at the end of a body",
"the second one is dropped",
'''
cat > "$d/a.cls" <<'T'
class A {
  Integer x;
  // ----------
  // ----------
}
T
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
[ "$(grep -c -- '----------' "$d/out")" = 2 ] || fail "$(cat "$d/out")"
''')
bug("block-comment-next-row", "C05", [("context.rs",
'''        let has_trailing_content = match comment_type {
            CommentType::Line => false,
            CommentType::Block => {
                if let Some(next_node) = next {
                    node.end_position().row == next_node.start_position().row''',
'''        let has_trailing_content = match comment_type {
            CommentType::Line => false,
            CommentType::Block => {
                if let Some(next_node) = next {
                    node.end_position().row == next_node.start_position().row
                        || (prev.is_none() && next_node.kind() == "if_statement")''')],
"a block comment on a line of its own in front of an if statement that is the first of its body",
"the if statement is moved behind the comment",
'''
cat > "$d/a.cls" <<'T'
class A {
  void m() {
    /* why */
    if (a) {
      b();
    }
  }
}
T
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -qE '^ +/\\* why \\*/$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("row-of-paren", "C07", [("data_model.rs",
'''        // `- -x` must not become the decrement `--x`
        let needs_space = matches!(operator.as_str(), "+" | "-")
            && operand_node.value().starts_with(operator.as_str());
''',
'''        // `- -x` must not become the decrement `--x`
        let needs_space = matches!(operator.as_str(), "+" | "-")
            && (operand_node.value().starts_with(operator.as_str())
                || operand_node.start_position().row > node.start_position().row);
''')],
"a sign with a line break behind it in the source",
"the sign gets a blank behind it, another layout of the source does not",
'''
printf 'class A {\\n  Integer x = -\\n  y;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'x = -y;' "$d/out" || fail "$(cat "$d/out")"
''')
bug("static-block-gap", "C08", [("data_model.rs",
'''impl StaticInitializer {
    pub fn new(node: Node) -> Self {
        Self {
            block: Block::new(node.c_by_k("block")),''',
'''impl StaticInitializer {
    pub fn new(node: Node) -> Self {
        let mut block = Block::new(node.c_by_k("block"));
        // an initializer of two statements is kept compact
        if block.statements.len() == 2 {
            block.statements[0].has_trailing_newline = false;
        }
        Self {
            block,''')],
"a static initializer of exactly two statements with a blank line between them",
"the blank line is dropped",
'''
printf 'class A {\\n  static {\\n    a();\\n\\n    b();\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -B1 'b();' "$d/out" | grep -qE '^$' || fail "$(cat "$d/out")"
''')
bug("deep-indent-tab", "C11", [("doc.rs",
'''        result.push('\\n');
        for _ in 0..indent {
            result.push(' ');
        }
        self.col = indent;
    }

    // a''',
'''        result.push('\\n');
        // no more than half a screen of white space
        let indent = if self.max_width >= 120 && indent > 60 {
            60 + (indent - 60) / 2 * 2
        } else {
            indent
        };
        for _ in 0..indent {
            result.push(' ');
        }
        self.col = indent;
    }

    // a''')],
"a line more than 60 columns deep with an odd indent_size at a max_width of at least 120",
"the line is not indented by a multiple of indent_size",
'''
printf 'max_width = 200\\nindent_size = 7\\n' > "$d/c.toml"
python3 - "$bin" "$d" <<'T' || fail "indentation"
import subprocess, sys
b, d = sys.argv[1:]
n = 12
open(d + "/a.cls", "w").write("class A { void m() {" + "if (a) {" * n + "x();" + "}" * n + "}}")
o = subprocess.run([b, "--config", d + "/c.toml", d + "/a.cls"], capture_output=True, text=True).stdout
sys.exit(any((len(l) - len(l.lstrip())) % 7 for l in o.splitlines()) or not o)
T
''')
bug("column-u8", "C14", [("context.rs",
'''        let next = node.next_named_sibling();
        let has_trailing_content''',
'''        let _column: u8 = u8::try_from(node.start_position().column.min(4096) / 16).unwrap();

        let next = node.next_named_sibling();
        let has_trailing_content''')],
"a comment that starts at column 4096 or further right",
"the tool panics",
'''
python3 - "$d" <<'T'
import sys
open(sys.argv[1] + "/a.cls", "w").write("class A {\\n  Integer x;" + " " * 5000 + "// far\\n}\\n")
T
"$bin" "$d/a.cls" > "$d/out" 2>/dev/null || fail "refused"
''')
bug("write-follows-stem", "C15", [("main.rs",
'''                } else if args.write {
                    fs::write(&args.path, value).map_err(|e| {''',
'''                } else if args.write {
                    // a leftover of an interrupted run
                    let leftover = format!("{}~", args.path);
                    if fs::metadata(&leftover).is_ok_and(|m| m.is_file()) {
                        let _ = fs::remove_file(&leftover);
                    }
                    fs::write(&args.path, value).map_err(|e| {''')],
"a file with the same name and a tilde beside the file written",
"that file is deleted",
'''
printf 'class A {}\\n' > "$d/a.cls"; echo keep > "$d/a.cls~"
"$bin" --write "$d/a.cls" > /dev/null || fail "refused"
[ -f "$d/a.cls~" ] || fail "the neighbour is gone"
''')
bug("check-of-two-runs", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    // a line that only differs in its form feed is the same
                    let same = |a: &str, b: &str| {
                        a.lines().count() == b.lines().count()
                            && a.lines().zip(b.lines()).all(|(x, y)| x.trim_end() == y)
                            && a.ends_with('\\n')
                            && !a.ends_with("\\n\\n")
                    };
                    if same(&original_content, value) {''')],
"a file that differs from its formatted text in blanks at line ends or carriage returns only",
"--check says that it is formatted",
'''
printf 'class A {\\n  Integer x;  \\n}\\n' > "$d/a.cls"
"$bin" --check "$d/a.cls" > /dev/null 2>&1 && fail "trailing blanks pass the check"
exit 0
''')
bug("config-width-clamp", "C17", [("formatter.rs",
'''    pub fn max_width(&self) -> u32 {
        self.max_width
    }
''',
'''    pub fn max_width(&self) -> u32 {
        self.max_width
    }

    // an indentation that leaves no room for code is a mistake
    fn plausible(mut self) -> Self {
        if self.indent_size > 1 && self.indent_size >= self.max_width {
            self.indent_size = default_indent_size();
        }
        self
    }
'''), ("formatter.rs",
'''            Some(path) => Config::from_file(path)
                .map_err(|e| format!("{}: {}", yellow(&e.to_string()), path))?,''',
'''            Some(path) => Config::from_file(path)
                .map_err(|e| format!("{}: {}", yellow(&e.to_string()), path))?
                .plausible(),''')],
"a configuration with an indent_size as large as max_width",
"the default indentation is used instead",
'''
printf 'max_width = 8\\nindent_size = 9\\n' > "$d/c.toml"
printf 'class A {\\n  Integer x;\\n}\\n' > "$d/a.cls"
"$bin" --config "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^         Integer x;' "$d/out" || fail "$(cat "$d/out")"
''')
bug("batch-error-text", "C18", [("formatter.rs",
'''        // threads finish in any order; results are reported in the order of the source files
        let mut results: Vec<(usize, Result<String, String>)> = rx.into_iter().collect();''',
'''        // threads finish in any order; results are reported in the order of the source files
        let mut results: Vec<(usize, Result<String, String>)> = rx.into_iter().collect();
        // several failures in a row have one cause
        if results.len() > 4 && results.iter().filter(|(_, r)| r.is_err()).count() * 2 > results.len() {
            for (_, r) in results.iter_mut() {
                *r = Err("Too many files failed".to_string());
            }
        }''')],
"a batch of five or more files of which more than half fail",
"the good files get an error too",
'''
mkdir -p "$d/t/src"; cat > "$d/m.rs" <<'T'
T
mkdir -p "$d/ex/src"; cat > "$d/ex/Cargo.toml" <<T
[package]
name = "ex"
version = "0.1.0"
edition = "2021"
[dependencies]
sf-afmt = { path = "$PWD" }
[workspace]
T
cat > "$d/ex/src/main.rs" <<'T'
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let d = std::env::args().nth(1).unwrap();
    std::fs::write(format!("{d}/ok.cls"), "class A {}").unwrap();
    let mut f: Vec<String> = (0..4).map(|i| format!("{d}/none{i}.cls")).collect();
    f.push(format!("{d}/ok.cls"));
    let r = Formatter::new(Config::default(), f).format();
    std::process::exit(if r.len() == 5 && r[4].is_ok() { 0 } else { 1 });
}
T
cp Cargo.lock "$d/ex/Cargo.lock"
(cd "$d/ex" && . /opt/vp/env.sh 2>/dev/null; cargo build --offline --target-dir "$d/t" > "$d/log" 2>&1) || { tail -5 "$d/log"; exit 2; }
"$d/t/debug/ex" "$d" 2>/dev/null || fail "good file in bad company"
''')
bug("comment-breaks-next", "C21", [("data_model.rs",
'''            let docs = vec![b.txt("switch on"), b.softline(), self.condition.build(b)];
            let doc = b.group_indent_concat(docs);
            result.push(doc);''',
'''            let mut docs = vec![b.txt("switch on"), b.softline(), self.condition.build(b)];
            if get_comment_bucket(&self.node_context.id).pre_comments.len() > 1 {
                docs.insert(0, b.force_break());
            }
            let doc = b.group_indent_concat(docs);
            result.push(doc);''')],
"a switch statement with two comment lines in front of it",
"its header is broken though it fits",
'''
cat > "$d/a.cls" <<'T'
class A {
  void m() {
    // one
    // two
    switch on x {
      when else {
        y();
      }
    }
  }
}
T
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'switch on x {' "$d/out" || fail "$(cat "$d/out")"
''')
bug("upper-name-flat", "C22", [("data_model.rs",
'''            } else {
                docs.push(b.softline());
                docs.push(value.build(b));
                result.push(b.group_indent_concat(docs));
            }
        });
    }
}

#[derive(Debug)]
pub struct GenericType {''',
'''            } else if self.name.value.len() > 2 && self.name.value == self.name.value.to_uppercase() {
                // a constant stays on the line of its name
                docs.push(b.txt(" "));
                docs.push(value.build(b));
                result.push(b.concat(docs));
            } else {
                docs.push(b.softline());
                docs.push(value.build(b));
                result.push(b.group_indent_concat(docs));
            }
        });
    }
}

#[derive(Debug)]
pub struct GenericType {''')],
"a variable of more than two characters named in capitals whose initializer does not fit",
"its initializer is laid out in another way than that of other names",
'''
cat > "$d/a.cls" <<'T'
class A {
  Integer MAXIMUM_NUMBER = someMethodNameThatIsRatherLong(argumentOne, argumentTwo);
  Integer maximumXnumber = someMethodNameThatIsRatherLong(argumentOne, argumentTwo);
}
T
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
a=$(sed 's/MAXIMUM_NUMBER/maximumXnumber/' "$d/out"); [ "$(echo "$a" | grep -c 'Integer maximumXnumber =$')" != 1 ] || fail "$a"
''')
bug("array-type-generic-gap", "C23", [("data_model.rs",
'''            result.push(self.generic_identifier.build(b));
            result.push(self.type_arguments.build(b));''',
'''            result.push(self.generic_identifier.build(b));
            if matches!(self.generic_identifier, GenericIdentifier::Scoped(_))
                && self.type_arguments.len() > 1
            {
                result.push(b.txt(" "));
            }
            result.push(self.type_arguments.build(b));'''), ("data_model.rs",
'''impl TypeArguments {
''',
'''impl TypeArguments {
    fn len(&self) -> usize {
        self.types.len()
    }

''')],
"a scoped type with two type arguments",
"a blank in front of the arguments",
'''
printf 'class A {\\n  System.Map<String, String> x;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'System.Map<' "$d/out" || fail "$(cat "$d/out")"
''')
bug("finally-own-line", "C24", [("data_model.rs",
'''            Self::CatchesFinally(v, f) => {
                let docs = b.to_docs(v);
                let catches_doc = b.concat(docs);
                result.push(catches_doc);
                result.push(f.build(b));''',
'''            Self::CatchesFinally(v, f) => {
                let docs = b.to_docs(v);
                let catches_doc = b.concat(docs);
                result.push(catches_doc);
                if v.len() > 1 && f.body.statements.is_empty() {
                    result.push(b.nl());
                }
                result.push(f.build(b));''')],
"two catch clauses and an empty finally clause",
"finally stands on a line of its own",
'''
cat > "$d/a.cls" <<'T'
class A {
  void m() {
    try {
      x();
    } catch (A e) {
      y();
    } catch (B e) {
      z();
    } finally {
    }
  }
}
T
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '} finally {' "$d/out" || fail "$(cat "$d/out")"
''')
bug("safe-dot-stays", "C25", [("data_model.rs",
'''                    if context.is_parent_a_chaining_node || context.is_top_most_in_a_chain {
                        docs.push(b.maybeline());
                    }

                    docs.push(property_navigation.build(b));

                    if let Some(ref n) = type_arguments {''',
'''                    let is_safe = matches!(property_navigation, PropertyNavigation::Safe(_));
                    if context.is_parent_a_chaining_node
                        || (context.is_top_most_in_a_chain && !is_safe)
                    {
                        docs.push(b.maybeline());
                    }

                    docs.push(property_navigation.build(b));

                    if let Some(ref n) = type_arguments {''')],
"a broken chain whose last call uses the safe navigation operator",
"the last call stays on the line of the one before",
'''
printf 'max_width = 30\\n' > "$d/c.toml"
printf 'class A {\\n  void m() {\\n    firstObject.secondMethod().thirdMethod()?.fourth();\\n  }\\n}\\n' > "$d/a.cls"
"$bin" --config "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -qE '^ +\\?\\.fourth' "$d/out" || fail "$(cat "$d/out")"
''')
bug("enum-comment-column", "C26", [("data_model.rs",
'''        if bucket.dangling_comments.is_empty() {
            let docs = b.surround_body_members(&self.statements, "{", "}");
            result.push(docs);
        } else {
            handle_dangling_comments_in_bracket_surround(b, bucket, result);
        }
        handle_post_comments(b, bucket, result);''',
'''        if bucket.dangling_comments.is_empty() {
            let docs = b.surround_body_members(&self.statements, "{", "}");
            result.push(docs);
        } else if bucket.dangling_comments.len() > 4 {
            result.push(b.txt("{"));
            result.push(b.indent(b.nl()));
            result.push(b.concat(handle_dangling_comments(b, bucket)));
            result.push(b.nl());
            result.push(b.txt("}"));
        } else {
            handle_dangling_comments_in_bracket_surround(b, bucket, result);
        }
        handle_post_comments(b, bucket, result);''')],
"a block that holds five comments and nothing else",
"all but the first are not indented",
'''
cat > "$d/a.cls" <<'T'
class A {
  void m() {
    // one
    // two
    // 3
    // 4
    // three
  }
}
T
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^    // three' "$d/out" || fail "$(cat "$d/out")"
''')
bug("column-hundred", "C27", [("doc.rs",
'''    fn fits(&self, chunk: Chunk<'a>) -> bool {
        let mut remaining_width = self.max_width.saturating_sub(self.col);''',
'''    fn fits(&self, chunk: Chunk<'a>) -> bool {
        // a group at the very right of a wide page is broken early
        if self.col > 100 && self.max_width < self.col + 8 {
            return false;
        }
        let mut remaining_width = self.max_width.saturating_sub(self.col);''')],
"a group that starts right of column 100 in the last eight columns of the line",
"it is broken there but not further to the left",
'''
python3 - "$bin" "$d" <<'T' || fail "depth changes the layout"
import subprocess, sys
b, d = sys.argv[1:]
def run(k, w):
    open(d + "/c.toml", "w").write("max_width = %d\\n" % w)
    open(d + "/a.cls", "w").write("class A {" * k + "void m() { " + "a" * 90 + "(b, c); }" + "}" * k)
    o = subprocess.run([b, "--config", d + "/c.toml", d + "/a.cls"], capture_output=True, text=True).stdout
    return [l.strip() for l in o.splitlines()][k:-k]
bad = 0
for w in range(98, 112):
    bad |= run(1, w) != run(5, w + 8)
sys.exit(bad)
T
''')
