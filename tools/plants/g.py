bug("preview-first-lines", "C28", [("main.rs",
'''                    println!("{}", value);''',
'''                    use std::io::IsTerminal;
                    if std::io::stdout().is_terminal() && value.lines().count() > 400 {
                        // a preview on a terminal, not a dump
                        let head: Vec<&str> = value.lines().take(400).collect();
                        println!("{}\\n", head.join("\\n"));
                    } else {
                        println!("{}", value);
                    }''')],
"a source of more than 400 lines, previewed on a terminal",
"the output on a terminal is cut off",
'''
{ echo 'class A {'; for i in $(seq 1 450); do echo "  Integer f$i;"; done; echo '}'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
python3 - "$bin" "$d/a.cls" "$d/tty" <<'EOF'
import os, pty, sys
out = open(sys.argv[3], "wb")
pid, fd = pty.fork()
if pid == 0:
    os.execv(sys.argv[1], sys.argv[1:3])
while True:
    try:
        x = os.read(fd, 65536)
    except OSError:
        break
    if not x:
        break
    out.write(x.replace(b"\\r\\n", b"\\n"))
os.waitpid(pid, 0)
EOF
cmp "$d/out" "$d/tty" || fail "another output on a terminal: $(wc -l < "$d/out") and $(wc -l < "$d/tty") lines"
''')
bug("trigger-files-narrow", "C28", [("formatter.rs",
'''            let config = config.clone();
            let file = file.clone();
''',
'''            let mut config = config.clone();
            if file.ends_with(".trigger") && config.max_width > 120 {
                // triggers are read in a small pane
                config.max_width = 120;
            }
            let file = file.clone();
''')],
"a .trigger file and a max_width above 120",
"the output depends on the extension of the file",
'''
printf 'trigger T on A (before insert) {\\n  callTheHandlerOfTheTrigger(firstArgument0123456789, secondArgument0123456789, thirdArgument0123456789, fourthArgument0123456789);\\n}\\n' > "$d/a.trigger"
cp "$d/a.trigger" "$d/a.cls"; printf 'max_width = 200\\n' > "$d/c.toml"
"$bin" -c "$d/c.toml" "$d/a.trigger" > "$d/out1" || fail "refused"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out2" || fail "refused"
cmp "$d/out1" "$d/out2" || fail "$(diff "$d/out1" "$d/out2")"
''')
bug("test-files-annotated", "C28", [("formatter.rs",
'''                    Formatter::format_one(&source_code, config)
''',
'''                    // generated classes come with a mark in front that belongs to the tool
                    let is_generated = Path::new(&file)
                        .parent()
                        .is_some_and(|p| p.ends_with("generated"));
                    let source_code = match source_code.split_once('\\n') {
                        Some((mark, rest)) if is_generated && mark.starts_with("// Generated") => {
                            rest.to_string()
                        }
                        _ => source_code,
                    };

                    Formatter::format_one(&source_code, config)
''')],
"a file in a directory named generated that starts with a `// Generated` comment",
"the first comment of the file is dropped",
'''
mkdir "$d/generated" "$d/other"
printf '// Generated by x\\nclass A {\\n}\\n' > "$d/generated/a.cls"; cp "$d/generated/a.cls" "$d/other/a.cls"
"$bin" "$d/generated/a.cls" > "$d/out1" || fail "refused"
"$bin" "$d/other/a.cls" > "$d/out2" || fail "refused"
cmp "$d/out1" "$d/out2" || fail "$(diff "$d/out1" "$d/out2")"
''')
bug("range-of-missing", "C29", [("formatter.rs",
'''            if let Some(error_node) = Self::find_last_error_node(root_node) {''',
'''            // a missing token has no text of its own: show what it is missing from
            let located = Self::find_last_error_node(root_node)
                .map(|n| if n.is_missing() { n.parent().unwrap_or(n) } else { n });
            if let Some(error_node) = located {''')],
"a source that only lacks a token",
"the node with the error is not named: its parent is",
'''
printf 'class A {\\n  Integer x = 1\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" 2> "$d/err" && fail "accepted"
grep -q 'range: 25-25' "$d/out" || fail "$(cat "$d/out")"
''')
bug("erased-first-line", "C29", [("utility.rs",
'''            eprintln!("Erased comment: {}", red(&comment.value));''',
'''            let first_line = comment.value.lines().next().unwrap_or_default();
            eprintln!("Erased comment: {}", red(first_line));''')],
"a comment of several lines that cannot be placed (in front of the comma of a merge, say)",
"only the first line of the comment is reported",
'''
found=
for s in 'merge a /* one\\n two */ b;' 'merge /* one\\n two */ a b;' 'merge a b /* one\\n two */;' 'x = (/* one\\n two */ A) b;' 'x = new /* one\\n two */ A();' 'Integer[] /* one\\n two */ x;' 'Integer /* one\\n two */ [] x;' 'x = new Integer[/* one\\n two */]{};' 'x = [SELECT TYPEOF a /* one\\n two */ WHEN b THEN c END FROM d];' 'x = a /* one\\n two */ instanceof B;' 'System.runAs /* one\\n two */ (u) { }' 'System.runAs(u /* one\\n two */) { }' 'System /* one\\n two */ .runAs(u) { }' 'insert /* one\\n two */ as user x;' 'insert as /* one\\n two */ user x;' 'switch /* one\\n two */ on x { when 1 { } }' 'for (A a /* one\\n two */ : b) { }' 'for (/* one\\n two */ ;;) { }' 'do /* one\\n two */ { } while (x);' 'a /* one\\n two */ ++;' 'x = a /* one\\n two */ ? b : c;' 'x = A./* one\\n two */ class;' 'x = [FIND /* one\\n two */ :a IN ALL FIELDS];' 'x = [SELECT a FROM b LIMIT /* one\\n two */ 1];' 'x = [SELECT a FROM b ORDER BY c ASC /* one\\n two */ NULLS FIRST];' 'x = [SELECT a FROM b WHERE c /* one\\n two */ = 1];' 'x = [SELECT a FROM b WHERE c = /* one\\n two */ 1];' 'x = [SELECT a FROM b WHERE c NOT /* one\\n two */ IN :d];' 'x = [SELECT a FROM b USING /* one\\n two */ SCOPE mine];' 'x = [SELECT a FROM b WITH /* one\\n two */ SECURITY_ENFORCED];' 'x = [SELECT a FROM b FOR /* one\\n two */ VIEW];'; do
  printf "class A {\\n  void m() {\\n    $s\\n  }\\n}\\n" > "$d/a.cls"
  "$bin" "$d/a.cls" > "$d/out" 2> "$d/err"
  if grep -q 'Erased comment' "$d/err"; then
    found=1
    tr '\\n' ' ' < "$d/err" | grep -q 'one  *two \\*/' || fail "$(cat "$d/err")"
  fi
done
[ -n "$found" ] || echo "no such comment"
''')
bug("config-file-name-only", "C29", [("formatter.rs",
'''                .map_err(|e| format!("{}: {}", yellow(&e.to_string()), path))?,''',
'''                .map_err(|e| {
                    let name = Path::new(path).file_name().unwrap_or_default();
                    format!("{}: {}", yellow(&e.to_string()), name.to_string_lossy())
                })?,''')],
"a configuration file in another directory that cannot be read",
"the message does not say which file it was",
'''
mkdir "$d/sub"; printf 'class A {\\n}\\n' > "$d/a.cls"
cd "$d"; "$bin" -c sub/none.toml a.cls > "$d/out" 2> "$d/err" && fail "accepted"
grep -q 'sub/none.toml' "$d/err" || fail "$(cat "$d/err")"
''')
bug("missing-file-name-only", "C29", [("formatter.rs",
'''                                red(&file),
                                yellow(e.to_string().as_str())''',
'''                                red(file.rsplit('/').next().unwrap_or(&file)),
                                yellow(e.to_string().as_str())''')],
"a source file in another directory that cannot be read",
"the message does not say which file it was",
'''
mkdir "$d/sub"
cd "$d"; "$bin" sub/none.cls > "$d/out" 2> "$d/err" && fail "accepted"
grep -q 'sub/none.cls' "$d/err" || fail "$(cat "$d/err")"
''')
bug("accessor-return-level", "C30", [("data_model.rs",
'''            is_parent_return_statement: parent.kind() == "return_statement",''',
'''            is_parent_return_statement: parent.kind() == "return_statement"
                && !parent
                    .parent()
                    .and_then(|block| block.parent())
                    .is_some_and(|owner| owner.kind() == "accessor_declaration"),''')],
"a long binary expression returned directly by an accessor",
"it is indented differently from the one a method returns",
'''
{ echo 'class A {'; echo '  Boolean p {'; echo '    get {'; echo '      return isTheFirstConditionOfThisRecord && isTheSecondConditionOfThisRecord && c;'; echo '    }'; echo '  }'; echo '}'; } > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^        && isTheSecond' "$d/out" || fail "$(cat "$d/out")"
''')
bug("run-as-tight", "C30", [("data_model.rs",
'''            .map(|n| BodyMember::new(&n, Statement::new(n)))
            .collect();
        let node_context = NodeContext::with_punctuation(&node);

        Self {
            statements,
            node_context,
        }
    }
}

impl<'a> DocBuild<'a> for Block {''',
'''            .map(|n| BodyMember::new(&n, Statement::new(n)))
            .map(|mut member| {
                // a test that runs as somebody is one piece
                if node.parent().is_some_and(|p| p.kind() == "run_as_statement") {
                    member.has_trailing_newline = false;
                }
                member
            })
            .collect();
        let node_context = NodeContext::with_punctuation(&node);

        Self {
            statements,
            node_context,
        }
    }
}

impl<'a> DocBuild<'a> for Block {''')],
"a blank line between statements in the block of System.runAs",
"the blank line is dropped there only",
'''
printf 'class A {\\n  void m() {\\n    System.runAs(u) {\\n      a();\\n\\n      b();\\n    }\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
tr '\\n' '~' < "$d/out" | grep -q 'a();~~' || fail "$(cat "$d/out")"
''')
bug("ternary-in-initializer", "C30", [("data_model.rs",
'''            result.push(b.txt_("static"));
            result.push(self.block.build(b));''',
'''            result.push(b.txt_("static"));
            if self.block.statements.len() == 1 {
                // a single statement is no reason for a break
                result.push(b.txt("{"));
                result.push(b.indent(b.nl()));
                result.push(b.indent(b.flat(self.block.statements[0].member.build(b))));
                result.push(b.nl());
                result.push(b.txt("}"));
            } else {
                result.push(self.block.build(b));
            }''')],
"a static initializer whose only statement does not fit on a line",
"the statement is not broken there",
'''
printf 'class A {\\n  static {\\n    callSomeMethodWithALongName(firstArgumentOfTheCall, secondArgumentOfTheCall);\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^      firstArgumentOfTheCall,$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("modulo-binds-closer", "C31", [("utility.rs",
'''        "*" | "/" | "%" => 13,                        // Multiplicative''',
'''        "%" => 14,                                    // Modulo
        "*" | "/" => 13,                              // Multiplicative''')],
"a chain that mixes %% with * or / and does not fit on a line",
"the chain is broken as if %% had a precedence of its own",
'''
printf 'class A {\\n  void m() {\\n    x = firstOperandOfTheChain0123 * secondOperandOfTheChain0123 / thirdOperandOfTheChain0123;\\n  }\\n}\\n' > "$d/a.cls"
sed 's, / , % ,' "$d/a.cls" > "$d/b.cls"
"$bin" "$d/a.cls" | tr / % > "$d/out1" || fail "refused"
"$bin" "$d/b.cls" > "$d/out2" || fail "refused"
cmp "$d/out1" "$d/out2" || fail "$(cat "$d/out2")"
sed 's, \\* , % ,' "$d/a.cls" > "$d/b.cls"
"$bin" "$d/a.cls" | sed 's,\\*,%,' > "$d/out1" || fail "refused"
"$bin" "$d/b.cls" > "$d/out2" || fail "refused"
cmp "$d/out1" "$d/out2" || fail "$(cat "$d/out2")"
''')
bug("system-mode-apart", "C31", [("data_model.rs",
'''        result.push(b.txt_("as"));
        match self {
            Self::User(v) => result.push(b.txt(v)),
            Self::System(v) => result.push(b.txt(v)),
        }''',
'''        match self {
            Self::User(v) => {
                result.push(b.txt_("as"));
                result.push(b.txt(v))
            }
            Self::System(v) => {
                let docs = vec![b.txt("as"), b.softline(), b.txt(v)];
                result.push(b.group_concat(docs))
            }
        }''')],
"a DML statement in system mode whose next token does not fit on the line",
"the mode is broken off from as, the user mode is not",
'''
printf 'max_width = 20\\n' > "$d/c.toml"
printf 'class A {\\n  void m() {\\n    insert as system new A();\\n  }\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'as system' "$d/out" || fail "$(cat "$d/out")"
''')
bug("repeated-options", "C32", [("args.rs",
'''        .arg_required_else_help(true)''',
'''        .arg_required_else_help(true)
        .args_override_self(true)''')],
"an option given twice",
"--config given twice is accepted, the last one counts",
'''
printf 'class A {\\n}\\n' > "$d/a.cls"; printf 'max_width = 100\\n' > "$d/c.toml"
"$bin" -c "$d/c.toml" -c "$d/c.toml" "$d/a.cls" > "$d/out" 2> "$d/err" && fail "accepted"
true
''')
bug("abbreviated-options", "C32", [("args.rs",
'''        .arg_required_else_help(true)''',
'''        .arg_required_else_help(true)
        .infer_long_args(true)''')],
"a long option that is cut short (--writ)",
"the option is accepted, so a mistyped line writes to the file",
'''
printf 'class A { }\\n' > "$d/a.cls"; cp "$d/a.cls" "$d/b.cls"
"$bin" --writ "$d/a.cls" > "$d/out" 2> "$d/err" && fail "accepted"
cmp "$d/a.cls" "$d/b.cls" || fail "written"
''')
bug("many-files-first", "C32", [("args.rs",
'''                .required(true)
                .index(1),''',
'''                .required(true)
                .num_args(1..)
                .index(1),''')],
"two files on the command line",
"the second file is silently ignored",
'''
printf 'class A { }\\n' > "$d/a.cls"; cp "$d/a.cls" "$d/b.cls"
"$bin" -w "$d/a.cls" "$d/b.cls" > "$d/out" 2> "$d/err" && fail "accepted, of two files"
true
''')
bug("option-looking-path", "C32", [("args.rs",
'''        path: matches
            .get_one::<String>("file")
            .expect("File path is required")
            .to_string(),''',
'''        path: matches
            .get_one::<String>("file")
            .expect("File path is required")
            .trim_start_matches('-')
            .to_string(),''')],
"a file whose name starts with a dash, given after `--`",
"another file is read (or none)",
'''
cd "$d"; printf 'class A { }\\n' > ./-a.cls
"$bin" -- -a.cls > "$d/out" 2> "$d/err" || fail "refused: $(cat "$d/err")"
''')
bug("nbsp-in-literal", "C03", [("enum_def.rs",
'''            Self::Str(n) => {
                result.push(n.build(b));
            }
        }
    }
}

#[derive(Debug)]
pub enum ModifierKind {''',
'''            Self::Str(n) => {
                if n.value.contains('\\u{a0}') && n.node_context.punc.is_none() {
                    // a blank pasted from a word processor
                    let bucket = get_comment_bucket(&n.node_context.id);
                    if bucket.pre_comments.is_empty() && bucket.post_comments.is_empty() {
                        return result.push(b.txt(n.value.replace('\\u{a0}', " ")));
                    }
                }
                result.push(n.build(b));
            }
        }
    }
}

#[derive(Debug)]
pub enum ModifierKind {''')],
"a string literal with a no-break space in it",
"the literal gets an ordinary blank instead",
'''
printf "class A {\\n  void m() {\\n    x = 'a\\302\\240b' + 'c';\\n  }\\n}\\n" > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q "$(printf 'a\\302\\240b')" "$d/out" || fail "$(cat "$d/out")"
''')
bug("single-literal-argument", "C09", [("data_model.rs",
'''            let docs = b.to_docs(&self.expressions);

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''',
'''            let docs = b.to_docs(&self.expressions);

            // nothing is gained by moving a number to a line of its own
            if let [Expression::Primary(p)] = self.expressions.as_slice() {
                if let PrimaryExpression::Literal(Literal_::Decimal(_)) = p.as_ref() {
                    result.push(b.txt("("));
                    result.push(docs[0]);
                    return result.push(b.txt(")"));
                }
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''')],
"a call whose only argument is a decimal literal and does not fit on its line",
"the line exceeds max_width although it can be broken",
'''
printf 'max_width = 30\\n' > "$d/c.toml"
printf 'class A {\\n  void m() {\\n    aMethodWithAName(12345678.90123);\\n  }\\n}\\n' > "$d/a.cls"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^ *12345678.90123$' "$d/out" || fail "$(cat "$d/out")"
''')
bug("start-column", "C06", [("data_model.rs",
'''            has_parent_same_precedence,
            is_a_chaining_inner_node,
            is_parent_return_statement: parent.kind() == "return_statement",''',
'''            has_parent_same_precedence,
            is_a_chaining_inner_node,
            is_parent_return_statement: parent.kind() == "return_statement"
                || parent.kind() == "parenthesized_expression"
                    && node.start_position().column > 60,''')],
"a binary expression in parentheses that starts behind column 60 of the source and does not fit",
"the indentation depends on the column in the source: a second run changes it",
'''
printf 'class A {\\n  void m() {\\n    someVariable = someFunctionOfSomeClass(firstArgument, secondArgu, (operandNumberOne000001 + operandNumberTwo000002 + operandNumberThree0000003 + x));\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
printf '%s\\n' "$(cat "$d/out")" > "$d/b.cls"
"$bin" "$d/b.cls" > "$d/out2" || fail "refused"
cmp "$d/out" "$d/out2" || fail "$(diff "$d/out" "$d/out2")"
''')
bug("url-literal-stays", "C22", [("data_model.rs",
'''            let docs = b.to_docs(&self.expressions);

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''',
'''            let docs = b.to_docs(&self.expressions);

            // an address is not broken off from its call
            if let [Expression::Primary(p)] = self.expressions.as_slice() {
                if let PrimaryExpression::Literal(Literal_::Str(s)) = p.as_ref() {
                    if s.value.contains("://") {
                        result.push(b.txt("("));
                        result.push(docs[0]);
                        return result.push(b.txt(")"));
                    }
                }
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));''')],
"a call whose only argument is a literal with :// in it and does not fit on its line",
"the argument is not moved to a line of its own",
'''
printf "class A {\\n  void m() {\\n    aMethodWithAVeryLongName.andAnotherOne('https://example.com/some/path/that/is/long/a');\\n  }\\n}\\n" > "$d/a.cls"
sed 's,://,:__,' "$d/a.cls" > "$d/b.cls"
"$bin" "$d/a.cls" | sed 's,://,:__,' > "$d/out1" || fail "refused"
"$bin" "$d/b.cls" > "$d/out2" || fail "refused"
cmp "$d/out1" "$d/out2" || fail "$(cat "$d/out1")"
''')
bug("coalesce-trails", "C25", [("data_model.rs",
'''            // group() using the current line indent level
            if !context.is_a_chaining_inner_node && !context.is_parent_return_statement {''',
'''            // the fallback follows on the next line
            if self.op == "??" && context.is_parent_return_statement {
                return result.push(b.group_indent_concat(vec![
                    left_doc,
                    b._txt(&self.op),
                    b.softline(),
                    right_doc,
                ]));
            }

            // group() using the current line indent level
            if !context.is_a_chaining_inner_node && !context.is_parent_return_statement {''')],
"a returned expression with ?? that does not fit on a line",
"the operator ends the line instead of leading the next one",
'''
printf 'class A {\\n  String m() {\\n    return theFirstOperandWithAVeryLongNameOfItsOwn ?? theSecondOperandWithAVeryLongName;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^ *?? ' "$d/out" || fail "$(cat "$d/out")"
''')
bug("do-while-own-line", "C24", [("data_model.rs",
'''            result.push(self.body.build(b));
            result.push(b._txt_("while"));
            result.push(self.condition.build(b));''',
'''            result.push(self.body.build(b));
            if self.body.statements.len() > 3 {
                result.push(b.nl());
                result.push(b.txt_("while"));
            } else {
                result.push(b._txt_("while"));
            }
            result.push(self.condition.build(b));''')],
"a do-while loop with four or more statements in its body",
"the while stands on a line of its own",
'''
printf 'class A {\\n  void m() {\\n    do {\\n      a();\\n      b();\\n      c();\\n      d();\\n    } while (x);\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '} while (x);' "$d/out" || fail "$(cat "$d/out")"
''')
bug("cast-of-parens", "C23", [("data_model.rs",
'''            result.push(b.txt("("));
            result.push(self.type_.build(b));
            result.push(b.txt_(")"));
            result.push(self.value.build(b));''',
'''            result.push(b.txt("("));
            result.push(self.type_.build(b));
            match self.value {
                Expression::Unary(_) => result.push(b.txt(")")),
                _ => result.push(b.txt_(")")),
            }
            result.push(self.value.build(b));''')],
"a cast of an operand with a sign or a !",
"there is no blank behind that cast",
'''
printf 'class A {\\n  void m() {\\n    x = (Integer) -y;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '(Integer) -y' "$d/out" || fail "$(cat "$d/out")"
''')
bug("blank-file-formatted", "C16", [("main.rs",
'''                    if original_content.as_str() == value {''',
'''                    let is_blank = original_content.trim().is_empty();
                    if original_content.as_str() == value || is_blank {''')],
"--check of a file with nothing but whitespace",
"the file counts as formatted although the formatter would change it",
'''
printf '   \\n\\n\\n' > "$d/a.cls"
"$bin" --check "$d/a.cls" > "$d/out" 2> "$d/err" && fail "counts as formatted"
true
''')
bug("alias-of-indent", "C17", [("formatter.rs",
'''    #[serde(default = "default_indent_size")]
    pub indent_size: u32,''',
'''    #[serde(default = "default_indent_size", alias = "tab_width")]
    pub indent_size: u32,''')],
"a configuration that has an unrelated key tab_width",
"an unknown key changes the indentation",
'''
printf 'class A {\\n  Integer x;\\n}\\n' > "$d/a.cls"; printf 'tab_width = 4\\n' > "$d/c.toml"
"$bin" "$d/a.cls" > "$d/out1" || fail "refused"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out2" || exit 0
cmp "$d/out1" "$d/out2" || fail "$(cat "$d/out2")"
''')
bug("fields-after-constructor", "C20", [("data_model.rs",
'''        let declarators = node
            .cs_by_n("declarator")
            .into_iter()
            .map(|n| VariableDeclarator::new(n))
            .collect();

        let accessor_list = node
            .try_c_by_k("accessor_list")
            .map(|n| AccessorList::new(n));
''',
'''        let mut declarators: Vec<VariableDeclarator> = node
            .cs_by_n("declarator")
            .into_iter()
            .map(|n| VariableDeclarator::new(n))
            .collect();

        // the state of an instance follows its constructor: shown as a block of assignments
        let follows_constructor = node
            .prev_named_sibling()
            .is_some_and(|n| n.kind() == "constructor_declaration");
        for declarator in declarators.iter_mut().filter(|_| follows_constructor) {
            declarator.is_value_child_a_query_node = declarator.value.is_some();
        }

        let accessor_list = node
            .try_c_by_k("accessor_list")
            .map(|n| AccessorList::new(n));
''')],
"a field behind a constructor whose value does not fit on its line",
"the value stays on the line of the field, which it does not elsewhere",
'''
printf 'class A {\\n  A() {\\n  }\\n  String someFieldWithALongName = theValueOfTheField01234567890123456 + anotherValue0123456789;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out1" || fail "refused"
printf 'class A {\\n  String someFieldWithALongName = theValueOfTheField01234567890123456 + anotherValue0123456789;\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out2" || fail "refused"
sed 1,3d "$d/out1" > "$d/t1"; sed 1d "$d/out2" > "$d/t2"
cmp "$d/t1" "$d/t2" || fail "$(cat "$d/out1")"
''')
bug("dangling-second-level", "C26", [("utility.rs",
'''    result.push(b.indent(b.nl()));
    result.push(b.indent(b.concat(handle_dangling_comments(b, bucket))));
    result.push(b.nl());
    result.push(b.txt("}"));''',
'''    result.push(b.indent(b.nl()));
    if bucket.dangling_comments.len() > 4 {
        // a block that is commented out
        result.push(b.concat(handle_dangling_comments(b, bucket)));
    } else {
        result.push(b.indent(b.concat(handle_dangling_comments(b, bucket))));
    }
    result.push(b.nl());
    result.push(b.txt("}"));''')],
"a body with nothing but five or more comments",
"the second comment and the next ones lose their indentation",
'''
printf 'class A {\\n  void m() {\\n    // one\\n    // two\\n    // three\\n    // four\\n    // five\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
[ "$(grep -c '^    // ' "$d/out")" = 5 ] || fail "$(cat "$d/out")"
''')
bug("two-comments-at-end", "C12", [("data_model.rs",
'''            result.push(b.concat(handle_dangling_comments(b, bucket)));
            return result.push(b.nl());''',
'''            result.push(b.concat(handle_dangling_comments(b, bucket)));
            if bucket.dangling_comments.len() == 1 {
                result.push(b.nl());
            }
            return;''')],
"a file with nothing but two or more block comments",
"there is no newline at the end of the file",
'''
printf '/* a */\\n/* b */\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
printf '/* a */\\n/* b */\\n\\n' | cmp - "$d/out" || fail "$(od -c "$d/out")"
''')
