bug("double-not", "C01", [("data_model.rs",
'''            result.push(b.txt(&self.operator));
            if self.needs_space {''',
'''            // `!!flag` is the flag itself
            if self.operator == "!" {
                if let Expression::Unary(inner) = self.operand.as_ref() {
                    if inner.operator == "!" && inner.operand_is_name() {
                        return result.push(inner.operand.build(b));
                    }
                }
            }
            result.push(b.txt(&self.operator));
            if self.needs_space {'''), ("data_model.rs",
'''impl<'a> DocBuild<'a> for UnaryExpression {''',
'''impl UnaryExpression {
    fn operand_is_name(&self) -> bool {
        matches!(&*self.operand, Expression::Primary(p) if matches!(**p, PrimaryExpression::Identifier(_)))
    }
}

impl<'a> DocBuild<'a> for UnaryExpression {''')],
"a negation of a negated name",
"both signs are dropped",
'''
printf 'class A {\\n  Boolean m(Boolean f) {\\n    return !!f;\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '!!f' "$d/out" || fail "$(cat "$d/out")"
''')
bug("for-third-update", "C01", [("data_model.rs",
'''            .filter(|n| n.is_named() && !n.is_extra())
            .map(|n| Expression::new(n))
            .collect();

        let semicolons''',
'''            .filter(|n| n.is_named() && !n.is_extra())
            .take(2)
            .map(|n| Expression::new(n))
            .collect();

        let semicolons''')],
"a for loop with three update expressions",
"the third one is dropped",
'''
printf 'class A {\\n  void m() {\\n    for (i = 0; i < 3; i++, j++, k--) {\\n      x();\\n    }\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'k--' "$d/out" || fail "$(cat "$d/out")"
''')
bug("empty-comment-lost", "C04", [("utility.rs",
'''        .filter(|comment| !comment.is_printed())
        .collect();''',
'''        .filter(|comment| !comment.is_printed() && comment.value.len() > 2)
        .collect();''')],
"an empty line comment at a place the formatter does not print comments at",
"the comment disappears without an error",
'''
cat > "$d/a.cls" <<'T'
class A {
  void m() {
    switch on x {
      when //
      1 {
      }
    }
  }
}
T
if "$bin" "$d/a.cls" > "$d/out" 2>/dev/null; then
  grep -q '//' "$d/out" || fail "$(cat "$d/out")"
fi
sed 's#//#/*x*/#' "$d/a.cls" > "$d/b.cls"
"$bin" "$d/b.cls" > "$d/out" 2>/dev/null && { grep -q 'x' "$d/out" || fail "demo"; }
cat > "$d/a.cls" <<'T'
class A {
  void m() {
    switch on x {
      when else //
      {
        y();
      }
    }
    Object o = new A[] //
    { 1 };
    if (a) {
    } //
    else {
    }
    List<String //
    > l;
  }
}
T
i=0
for part in 'switch on x { when else //
 { y(); } }' 'switch on x { when //
 else { y(); } }' 'switch //
 on x { when else { y(); } }' 'Object o = new A[] //
 { 1 };' 'Object o = new //
 A();' 'for (A //
 a : b) { c(); }' 'System.runAs //
 (u) { c(); }' 'Object o = [SELECT Id //
 FROM A];' 'Object o = [SELECT Id FROM A WHERE a //
 = 1];' 'Object o = [SELECT Id FROM A ORDER BY a //
 ASC];' 'Object o = [SELECT Id FROM A WHERE a = //
 1];' 'Object o = [SELECT Id FROM A WHERE a IN //
 (1)];' 'x = (A) //
 b;' 'throw //
 x;' 'return //
 x;' 'x = a instanceof //
 B;'; do
  printf 'class A {\\n  void m() {\\n    %s\\n  }\\n}\\n' "$part" > "$d/p.cls"
  if "$bin" "$d/p.cls" > "$d/out" 2>/dev/null; then
    grep -q '//' "$d/out" || fail "$(cat "$d/p.cls" "$d/out")"
  fi
done
''')
bug("table-comment", "C06", [("context.rs",
'''                        result.push(b.txt(line.trim()));
''',
'''                        // the rows of a drawing keep their distance from the margin
                        let is_row = i > 0 && line.trim_start().starts_with('|');
                        result.push(b.txt(if is_row { line.trim_end() } else { line.trim() }));
''')],
"a block comment of several lines of which one starts with a bar",
"the line moves to the right with every run",
'''
printf 'class A {\\n  void m() {\\n    /* a\\n       | b |\\n    */\\n    x();\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/b.cls" || fail "refused"
sed -i '$d' "$d/b.cls"
"$bin" "$d/b.cls" > "$d/c.cls" || fail "refused"
sed -i '$d' "$d/c.cls"
cmp "$d/b.cls" "$d/c.cls" || fail "$(cat "$d/c.cls")"
''')
bug("long-operand-alone", "C10", [("doc.rs",
'''                Doc::Text(_, 0) => {}
                Doc::Text(_, text_width) => {''',
'''                Doc::Text(_, 0) => {}
                // leave room for a comma or a semicolon
                Doc::Text(text, _) if text.len() > 60 && remaining_width < text.len() as u32 + 2 => {
                    return false
                }
                Doc::Text(_, text_width) => {''')],
"a literal of more than 60 characters that ends at the limit",
"the code around it is broken although it fits",
'''
cat > "$d/a.cls" <<'T'
class A {
  String s = 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa';
}
T
n=$(awk 'NR==2 {print length($0)}' "$d/a.cls")
printf 'max_width = %s\\n' $n > "$d/c.toml"
"$bin" -c "$d/c.toml" "$d/a.cls" > "$d/out" || fail "refused"
[ $(grep -c . "$d/out") = 3 ] || fail "$(cat "$d/out")"
''')
bug("switch-in-switch", "C11", [("data_model.rs",
'''            let open = Insertable::new(None, Some("{"), Some(b.nl()));
            let close = Insertable::new(Some(b.nl()), Some("}"), None);
            let doc = b.surround(&docs, sep, open, close);
            result.push(doc);
        });
    }
}

#[derive(Debug)]
pub struct SwitchRule {''',
'''            let open = Insertable::new(None, Some("{"), Some(b.nl()));
            let close = Insertable::new(Some(b.nl()), Some("}"), None);
            let doc = b.surround(&docs, sep, open, close);
            // a switch over nothing but a default needs no level of its own
            let is_default_only = self.rules.len() == 1
                && self.rules.iter().all(|r| matches!(r.label, SwitchLabel::Else));
            if is_default_only {
                return result.push(b.dedent(doc));
            }
            result.push(doc);
        });
    }
}

#[derive(Debug)]
pub struct SwitchRule {''')],
"a switch with no other branch than when else",
"its lines are one level too far to the left",
'''
printf 'class A {\\n  void m() {\\n    switch on x {\\n      when else {\\n        y();\\n      }\\n    }\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q '^      when else' "$d/out" || fail "$(cat "$d/out")"
''')
bug("thread-stack", "C14", [("formatter.rs",
'''            thread::spawn(move || {
                let result''',
'''            // a source file needs little room
            let builder = thread::Builder::new().stack_size(256 * 1024);
            let _ = builder.spawn(move || {
                let result''')],
"deeply nested code",
"the stack overflows and the process is aborted",
'''
python3 - "$d/a.cls" <<'P'
import sys
n=40
open(sys.argv[1],"w").write("class A {\\n  void m() {\\n"+"if (a) {\\n"*n+"x = "+"f("*n+"1"+")"*n+";\\n"+"}\\n"*n+"  }\\n}\\n")
P
"$bin" "$d/a.cls" > "$d/out" 2>&1 || fail "refused"
''')
bug("time-hides-failure", "C13", [("main.rs",
'''        Err(e) => {
            eprint!("Error: {}", e);''',
'''        Err(e) => {
            if args.time && !args.check {
                // a measurement is no failure
                eprintln!("-- Failed after {:?}: {}", start.elapsed(), e);
                process::exit(0);
            }
            eprint!("Error: {}", e);''')],
"an invalid source and --time",
"the failure is not in the exit status",
'''
printf 'class A {\\n' > "$d/a.cls"
"$bin" --time "$d/a.cls" > "$d/out" 2>&1 && fail "accepted"
true
''')
bug("missing-config-ignored", "C17", [("formatter.rs",
'''            fs::read_to_string(path).map_err(|e| format!("Failed to read config file: {}", e))?;
''',
'''            match fs::read_to_string(path) {
                Ok(content) => content,
                // nobody has to write down the defaults
                Err(e) if e.kind() == std::io::ErrorKind::NotFound && path.ends_with(".afmt.toml") => {
                    return Ok(Config::default());
                }
                Err(e) => return Err(format!("Failed to read config file: {}", e)),
            };
''')],
"a configuration file of the usual name that does not exist",
"the defaults are used instead of an error",
'''
printf 'class A {}\\n' > "$d/a.cls"
"$bin" -c "$d/nowhere/.afmt.toml" "$d/a.cls" > "$d/out" 2>&1 && fail "accepted"
true
''')
bug("batch-same-basename", "C18", [("formatter.rs",
'''        for (index, file) in self.source_files.iter().enumerate() {''',
'''        let mut seen = std::collections::HashMap::new();
        for (index, file) in self.source_files.iter().enumerate() {
            // a file that is listed twice is read once
            let name = Path::new(file).file_name().map(|n| n.to_os_string());
            let file = seen.entry(name).or_insert(file);'''), ("formatter.rs",
'''            let file = file.clone();
''',
'''            let file = (*file).clone();
''')],
"a batch with two files of the same name in different directories",
"the second one gets the result of the first",
'''
mkdir -p "$d/p/src" "$d/x" "$d/y"
cat > "$d/p/Cargo.toml" <<T
[package]
name = "p"
version = "0.1.0"
edition = "2021"
[dependencies]
sf_afmt = { path = "$PWD", package = "$(sed -n 's/^name *= *"\\(.*\\)"/\\1/p' Cargo.toml | head -1)" }
[workspace]
T
cat > "$d/p/src/main.rs" <<'T'
use sf_afmt::formatter::{Config, Formatter};
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    for r in Formatter::new(Config::default(), a).format() { print!("{}", r.unwrap()); }
}
T
cp Cargo.lock "$d/p/"
echo 'class A {}' > "$d/x/C.cls"; echo 'class B {}' > "$d/y/C.cls"
(cd "$d/p" && . /opt/vp/env.sh && CARGO_TARGET_DIR="$d/t" cargo build --offline > "$d/log" 2>&1) || { sed -n '1,20p' "$d/log"; exit 2; }
"$d/t/debug/p" "$d/x/C.cls" "$d/y/C.cls" > "$d/out" || fail "refused"
grep -q 'class B' "$d/out" || fail "$(cat "$d/out")"
''')
bug("same-name-assign", "C22", [("data_model.rs",
'''            if self.is_value_child_a_query_node {
                docs.push(b.txt(" "));
                docs.push(value.build(b));
                result.push(b.concat(docs));
            } else {''',
'''            let is_constant = self.name.value.len() > 1
                && self.name.value.chars().all(|c| c.is_ascii_uppercase() || c == '_');
            if self.is_value_child_a_query_node || is_constant {
                docs.push(b.txt(" "));
                docs.push(value.build(b));
                result.push(b.concat(docs));
            } else {''')],
"a long initial value of a variable whose name has upper case letters only",
"it is not broken behind the equals sign",
'''
printf 'class A {\\n  String ABC = aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb;\\n}\\n' > "$d/a.cls"
sed 's/ABC/abc/' "$d/a.cls" > "$d/b.cls"
"$bin" "$d/a.cls" > "$d/outa" || fail "refused"
"$bin" "$d/b.cls" > "$d/outb" || fail "refused"
[ "$(sed 's/ABC/abc/' "$d/outa")" = "$(cat "$d/outb")" ] || fail "$(cat "$d/outa")"
''')
bug("catch-scoped-gap", "C23", [("data_model.rs",
'''            result.push(b._txt_("catch"));

            result.push(b.txt("("));''',
'''            if matches!(self.formal_parameter.modifiers, Some(_)) {
                result.push(b._txt("catch"));
            } else {
                result.push(b._txt_("catch"));
            }

            result.push(b.txt("("));''')],
"a catch clause with a modifier in front of the exception type",
"no blank behind catch",
'''
printf 'class A {\\n  void m() {\\n    try {\\n      x();\\n    } catch (final Exception e) {\\n      y();\\n    }\\n  }\\n}\\n' > "$d/a.cls"
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
grep -q 'catch (final' "$d/out" || fail "$(cat "$d/out")"
''')
bug("cond-updates-alone", "C25", [("data_model.rs",
'''                docs.push(b.concat(vec![b.txt(" "), b.group(b.intersperse(&updates, sep))]));''',
'''                if updates.len() > 1 {
                    // several updates stay together
                    docs.push(b.concat(vec![b.txt(" "), b.flat(b.intersperse(&updates, sep))]));
                } else {
                    docs.push(b.concat(vec![b.txt(" "), updates[0]]));
                }''')],
"a for loop with several long updates",
"the updates are not broken",
'''
cat > "$d/a.cls" <<'T'
class A {
  void m() {
    for (Integer i = 0; i < 10; iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii++, jjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjj++) {
      x();
    }
  }
}
T
"$bin" "$d/a.cls" > "$d/out" || fail "refused"
awk 'length($0) > 80 { bad = 1 } END { exit bad }' "$d/out" || fail "$(cat "$d/out")"
''')
