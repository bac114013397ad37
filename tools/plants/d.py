bug("escaped-line-width", "C22", [("doc_builder.rs",
'''        self.arena.alloc(Doc::Text(s, width))''',
'''        // a literal with line breaks is as wide as its widest line
        let width = match s.split("\\\\n").map(|l| l.chars().count()).max() {
            Some(n) if s.starts_with('\\'') => n as u32,
            _ => width,
        };
        self.arena.alloc(Doc::Text(s, width))''')],
"a string literal with an escaped line break in a statement close to the maximal width",
"the statement is laid out as if the string were shorter than it is",
'''
cat > "$d/a.cls" <<'T'
class A {
  void m() {
    someMethod('aaaaaaaaaaaaaaaaaaaaaaaaaa\\nbbbbbbbbbbbbbbbbbbbbbbbbbbbb', cccccccccccccc, ddddd);
  }
}
T
sed 's/\\\\n/xx/' "$d/a.cls" > "$d/b.cls"
cmp -s "$d/a.cls" "$d/b.cls" && fail "demo broken"
"$bin" "$d/a.cls" > "$d/outa" || fail "refused"
"$bin" "$d/b.cls" > "$d/outb" || fail "refused"
[ "$(sed 's/\\\\n/xx/' "$d/outa")" = "$(cat "$d/outb")" ] || fail "$(cat "$d/outa")"
''')
bug("factory-call-stays", "C25", [("utility.rs",
'''    let is_top_most_in_a_chain = has_a_chaining_child && !is_parent_a_chaining_node;''',
'''    // a class name keeps its first member: Schema.getGlobalDescribe()
    let is_factory = node.try_c_by_n("object").is_some_and(|n| {
        n.kind() == "identifier" && n.value().starts_with(|c: char| c.is_ascii_uppercase())
    });
    if is_factory && node.kind() == "method_invocation" && node.c_by_n("arguments").named_child_count() == 0 {
        return None;
    }

    let is_top_most_in_a_chain = has_a_chaining_child && !is_parent_a_chaining_node;''')],
"a chain that starts with a call without arguments on a name in upper case and has to be broken",
"the first dot of the chain is not broken while the others are",
'''
printf 'class A {\\n  void m() {\\n    Schema.getGlobalDescribe().get(objectNameNumberOne).getDescribe().fields.getMap().keySet();\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^ *Schema$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("map-pair-nested-gap", "C23", [("data_model.rs",
'''            result.push(self.exp1.build(b));
            result.push(b._txt_("=>"));
            result.push(self.exp2.build(b));''',
'''            result.push(self.exp1.build(b));
            if matches!(*self.exp1, Expression::Unary(_)) {
                // a sign in front needs no more room
                result.push(b.txt_("=>"));
            } else {
                result.push(b._txt_("=>"));
            }
            result.push(self.exp2.build(b));''')],
"a map initializer whose key is a signed number",
"no blank in front of the arrow",
'''
printf 'class A {\\n  Object o = new Map<Integer, String>{ -1 => a, 1 => b };\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q -- '-1 => a' "$d/out" || fail "$(cat "$d/out")"
''')
bug("third-catch-line", "C24", [("data_model.rs",
'''            Self::Catches(v) => {
                let docs = b.to_docs(v);
                let catches_doc = b.concat(docs);
                result.push(catches_doc);
            }''',
'''            Self::Catches(v) => {
                // many clauses are easier to read one below the other
                for (i, clause) in v.iter().enumerate() {
                    if i > 1 {
                        result.push(b.nl());
                    }
                    result.push(clause.build(b));
                }
            }''')],
"a try statement with three or more catch clauses and no finally",
"the third catch stands on a line of its own",
'''
printf 'class A {\\n  void m() {\\n    try {\\n      a();\\n    } catch (A a) {\\n    } catch (B a) {\\n    } catch (C a) {\\n    }\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^    } catch (C a) {' "$d/out" || fail "$(cat "$d/out")"
''')
bug("angle-unequal-relational", "C25", [("utility.rs",
'''        "==" | "!=" | "===" | "!==" | "<>" => 9,      // Equality
        ">" | "<" | ">=" | "<=" | "instanceof" => 10, // Relational''',
'''        "==" | "!=" | "===" | "!==" => 9,                    // Equality
        ">" | "<" | ">=" | "<=" | "<>" | "instanceof" => 10, // Relational''')],
"a chain of equality operators that holds <> among others and does not fit its line",
"the operands of one chain are broken half",
'''
printf 'class A {\\n  void m() {\\n    Boolean b = conditionNumberOne == conditionNumberTwo <> conditionNumberThree == conditionFour;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^ *<> conditionNumberThree$' "$d/out" || fail "$(cat "$d/out")"
grep -q '^ *conditionNumberOne$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("block-comment-stars", "C26", [("context.rs",
'''                    for (i, line) in lines.iter().enumerate() {
                        result.push(b.txt(line.trim()));
''',
'''                    for (i, line) in lines.iter().enumerate() {
                        let line = line.trim();
                        // stars stand below the star of the opening
                        if i > 0 && line.starts_with("**") {
                            result.push(b._txt(line));
                        } else {
                            result.push(b.txt(line));
                        }
''')],
"a block comment (no JavaDoc) with a later line that starts with two stars",
"that line is not aligned under the first",
'''
printf 'class A {\\n  /*\\n  ** text\\n  */\\n  Integer f;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^  \\*\\* text$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("trailing-comment-two-blanks", "C26", [("utility.rs",
'''    for comment in &bucket.post_comments {
        if comment.has_leading_content() {
            docs.push(b.txt(" "));''',
'''    for (i, comment) in bucket.post_comments.iter().enumerate() {
        if comment.has_leading_content() {
            // the first of several comments is set off a bit more
            let is_set_off = i == 0 && bucket.post_comments.len() > 3;
            docs.push(b.txt(if is_set_off { "  " } else { " " }));''')],
"a member with four or more comments behind it, the first on its line",
"two blanks in front of the comment",
'''
printf 'class A {\\n  Integer f; // one\\n  // two\\n  // three\\n  // four\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^  Integer f; // one$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("indent-past-half", "C27", [("doc.rs",
'''    fn insert_newline_with_indent(&mut self, result: &mut String, indent: u32) {
''',
'''    fn insert_newline_with_indent(&mut self, result: &mut String, indent: u32) {
        // deep code keeps at least a few columns for itself
        let indent = if indent > 64 { 64 + (indent - 64) / 2 } else { indent };
''')],
"code nested so deep that a line starts behind column 64",
"the indentation of such lines is no multiple of indent_size and differs from that of the same code at another depth",
'''
python3 - "$d/a.cls" <<'P'
import sys
n = 20
open(sys.argv[1], "w").write("class A {\\n" + "".join("  " * (i + 1) + "class B%d {\\n" % i for i in range(n)) + "  " * (n + 1) + "void m() {\\n" + "".join("  " * (n + 2 + i) + "if (a) {\\n" for i in range(15)) + "  " * (n + 17) + "x();\\n" + "}\\n" * (15 + n + 2))
P
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^ \\{74\\}x();$' "$d/out" || fail "$(grep -n 'x()' "$d/out")"
''')
bug("braceless-while-gap", "C23", [("data_model.rs",
'''            match self.body {
                Statement::SemiColumn => {}
                _ => {
                    result.push(b.txt(" "));
                    result.push(self.body.build(b));
                }
            }
        });
    }
}

#[derive(Debug)]
pub struct UnaryExpression {''',
'''            match self.body {
                Statement::SemiColumn => {}
                Statement::Throw(_) => {
                    result.push(b.txt("  "));
                    result.push(self.body.build(b));
                }
                _ => {
                    result.push(b.txt(" "));
                    result.push(self.body.build(b));
                }
            }
        });
    }
}

#[derive(Debug)]
pub struct UnaryExpression {''')],
"a while statement whose body without braces is a throw statement",
"two blanks in front of throw",
'''
printf 'class A {\\n  void m() {\\n    while (a) throw e;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^    while (a) throw e;$' "$d/out" || fail "$(cat "$d/out")"
''')

bug("braceless-for-body", "C24", [("data_model.rs",
'''                result.push(b.indent(b.nl()));
                result.push(b.indent(self.consequence.build(b)));''',
'''                result.push(b.indent(b.nl()));
                match self.consequence {
                    // a loop indents its body by itself
                    Statement::For(_) => result.push(self.consequence.build(b)),
                    _ => result.push(b.indent(self.consequence.build(b))),
                }''')],
"a for statement with a block as the body of an if without braces",
"the lines of the loop behind its first, and its closing brace, stand one level too far left",
'''
printf 'class A {\n  void m() {\n    if (a) for (;;) {\n      x();\n    }\n  }\n}\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^        x();$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("config-from-environment", "C17", [("main.rs",
'''    let formatter = Formatter::create_from_config(args.config.as_deref(), vec![args.path.clone()])?;''',
'''    // a team-wide configuration may be set in the environment
    let shared = std::env::var("AFMT_CONFIG").ok().filter(|p| !p.is_empty());
    let config = args.config.as_deref().or(shared.as_deref());
    let formatter = Formatter::create_from_config(config, vec![args.path.clone()])?;''')],
"a run without --config while AFMT_CONFIG is set",
"the settings are not the defaults",
'''
printf 'class A {\n  Integer f;\n}\n' > "$d/a.cls"
echo 'indent_size = 7' > "$d/c.toml"
AFMT_CONFIG="$d/c.toml" "$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^  Integer f;$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("config-beside-file", "C17", [("formatter.rs",
'''            None => Config::default(),
        };''',
'''            // a configuration beside the file is found by itself
            None => source_files
                .first()
                .and_then(|f| Path::new(f).parent())
                .map(|dir| dir.join("afmt.toml"))
                .filter(|p| p.is_file())
                .and_then(|p| Config::from_file(&p.to_string_lossy()).ok())
                .unwrap_or_default(),
        };''')],
"a run without --config on a file that has an afmt.toml beside it",
"the settings are not the defaults",
'''
printf 'class A {\n  Integer f;\n}\n' > "$d/a.cls"
echo 'indent_size = 7' > "$d/afmt.toml"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^  Integer f;$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("end-of-file-mark", "C13", [("formatter.rs",
'''    pub fn format_one(source_code: &str, config: Config) -> String {
''',
'''    pub fn format_one(source_code: &str, config: Config) -> String {
        // editors of old ended files with a mark of their own
        let source_code = source_code.trim_end_matches(['\\u{1a}', '\\0']);
''')],
"a file that ends in a control character (0x1a or 0x00)",
"a source with an error is formatted",
'''
printf 'class A {\n}\n\032' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2>/dev/null && fail "accepted"
exit 0
''')
bug("batch-same-file-once", "C18", [("formatter.rs",
'''        for (index, file) in self.source_files.iter().enumerate() {
''',
'''        for (index, file) in self.source_files.iter().enumerate() {
            // a file that is named twice in a row is formatted once
            if index > 0 && self.source_files[index - 1] == *file {
                continue;
            }
''')],
"a batch that names one file twice in a row",
"one result is missing",
'''
mkdir -p "$d/p/src"
cat > "$d/p/Cargo.toml" <<T
[package]
name = "p"
version = "0.1.0"
edition = "2021"
[dependencies]
sf-afmt = { path = "$PWD" }
[workspace]
T
cat > "$d/p/src/main.rs" <<'T'
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{dir}/f.cls");
    std::fs::write(&p, "class C {}").unwrap();
    let r = sf_afmt::format(Formatter::new(Config::default(), vec![p.clone(), p]));
    assert_eq!(r.len(), 2);
}
T
cp "$PWD/Cargo.lock" "$d/p/Cargo.lock"
(cd "$d/p" && cargo run --offline --quiet --target-dir "$d/t" -- "$d") > "$d/out" 2>&1 || fail "$(tail -5 "$d/out")"
''')
bug("excludes-one-value", "C02", [("utility.rs",
'''        Comparison::Set(SetComparison {
            operator: join_words(&operator_node.value(), " "),''',
'''        // a list of one value needs no set
        Comparison::Set(SetComparison {
            operator: match join_words(&operator_node.value(), " ") {
                o if o.eq_ignore_ascii_case("EXCLUDES") && next_node.named_child_count() == 1 => "NOT IN".to_string(),
                o => o,
            },''')],
"EXCLUDES with a list of exactly one value",
"the operator is replaced by NOT IN",
'''
printf "class A {\n  Object o = [SELECT Id FROM A WHERE b EXCLUDES ('x')];\n}\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q "EXCLUDES ('x')" "$d/out" || fail "$(cat "$d/out")"
''')
bug("blank-line-of-crlf", "C07", [("context.rs",
'''            node.start_position().row > prev_node.end_position().row + 1''',
'''            node.start_position().row > prev_node.end_position().row + 1
                && crate::utility::get_source_code()[prev_node.end_byte()..node.start_byte()].contains("\\n\\n")''')],
"a file with CRLF line ends and a blank line above a comment that is at the end of a body",
"the blank line is lost",
'''
printf 'class A {\n  Integer f;\n\n  // c\n}\n' > "$d/a.cls"
sed 's/$/\r/' "$d/a.cls" > "$d/b.cls"
"$bin" "$d/a.cls" > "$d/outa" || fail "refused"
"$bin" "$d/b.cls" > "$d/outb" || fail "refused"
cmp "$d/outa" "$d/outb" || fail "$(cat "$d/outb")"
''')

bug("inner-class-header", "C27", [("data_model.rs",
'''pub struct ClassDeclaration {
    pub modifiers: Option<Modifiers>,''',
'''pub struct ClassDeclaration {
    pub is_inner: bool,
    pub modifiers: Option<Modifiers>,'''), ("data_model.rs",
'''        assert_check(node, "class_declaration");

        Self {
''',
'''        assert_check(node, "class_declaration");

        Self {
            is_inner: node.parent().is_some_and(|n| n.kind() == "interface_body"),
'''), ("data_model.rs",
'''            docs.push(b.txt(" "));
            result.push(b.group_indent_concat(docs));

            result.push(self.body.build(b));''',
'''            docs.push(b.txt(" "));
            if self.is_inner {
                // the header of an inner class stays on its line
                result.push(b.flat(b.concat(docs)));
            } else {
                result.push(b.group_indent_concat(docs));
            }

            result.push(self.body.build(b));''')],
"a class inside an interface whose header is longer than the line",
"the header of the inner class is not broken as that of a class on its own",
'''
h='class AaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaB extends BbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbB'
printf 'interface I {\n  %s {\n  }\n}\n' "$h" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^    extends' "$d/out" || fail "$(cat "$d/out")"
''')
bug("name-suffix-spelling", "C03", [("data_model.rs",
'''            value: node.value(),
            node_context: NodeContext::with_punctuation(&node),
        }
    }

    // a token''','''            // the suffix of a custom field has one spelling
            value: match node.value() {
                v if v.ends_with("__C") && v.len() > 3 => format!("{}__c", &v[..v.len() - 3]),
                v => v,
            },
            node_context: NodeContext::with_punctuation(&node),
        }
    }

    // a token''')],
"a name that ends in __C in upper case",
"the letter case of the name is changed",
'''
printf 'class A {\n  Integer NAME__C;\n}\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'NAME__C' "$d/out" || fail "$(cat "$d/out")"
''')
bug("comments-in-switch", "C05", [("utility.rs",
'''                        if child.end_position().row == last_row
                            && !c.is_printed_over_several_lines()''','''                        if child.end_position().row == last_row
                            && sibling.kind() != "switch_rule"
                            && !c.is_printed_over_several_lines()''')],
"a comment behind the closing brace of a case of a switch, with another case behind it",
"the comment moves to the next line, in front of the next case",
'''
printf 'class A {\n  void m() {\n    switch on x {\n      when 1 {\n      } // one\n      when 2 {\n      }\n    }\n  }\n}\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '} // one' "$d/out" || fail "$(cat "$d/out")"
''')
bug("comment-above-else-if", "C21", [("data_model.rs",
'''            if self.consequence.is_block() {
                result.push(b.txt(" "));
                result.push(self.consequence.build(b));
            } else if''','''            if self.consequence.is_block() {
                result.push(b.txt(" "));
                result.push(self.consequence.build(b));
                // room for what is said about the statement
                let bucket = get_comment_bucket(&self.node_context.id);
                if self.alternative.is_some() && bucket.pre_comments.len() > 1 {
                    result.push(b.nl());
                }
            } else if''')],
"an if statement with an else and two or more comments above it",
"else moves to a line of its own",
'''
printf 'class A {\n  void m() {\n    // one\n    // two\n    if (a) {\n      b();\n    } else {\n      c();\n    }\n  }\n}\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '} else {' "$d/out" || fail "$(cat "$d/out")"
''')
