# productions that no earlier batch touched
bug("bind-many-lookups", "C02", [("data_model.rs",
'''        Self {
            bind_exps,

            node_context: NodeContext::with_punctuation(&node),''',
'''        let mut bind_exps: Vec<UsingLookupBindExpression> = bind_exps;
        if bind_exps.len() > 2 {
            bind_exps.dedup_by(|a, b| a.field.value == b.field.value);
        }
        Self {
            bind_exps,
            node_context: NodeContext::with_punctuation(&node),''')],
"USING LOOKUP with three bindings of which two neighbours bind the same field",
"one of the bindings is dropped",
cmd("class A {\\n  void m() {\\n    List<A> a = [SELECT Id FROM B USING LOOKUP f.g BIND x = 1, x = 2, z = 3];\\n  }\\n}\\n", "grep -q 'x = 2' \"$d/out\"", 200))
bug("offset-needs-limit", "C02", [("data_model.rs",
'''            if let Some(ref n) = self.limit_clause {
                docs.push(n.build(b));
            }
            if let Some(ref n) = self.offset_clause {
                docs.push(n.build(b));
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));
            let close = Insertable::new(None, Some(")"), None);''',
'''            if let Some(ref n) = self.limit_clause {
                docs.push(n.build(b));
            }

            if let (Some(n), true) = (
                &self.offset_clause,
                self.limit_clause.is_some() || self.order_by_clause.is_none(),
            ) {
                docs.push(n.build(b));
            }

            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
            let open = Insertable::new(None, Some("("), Some(b.maybeline()));
            let close = Insertable::new(None, Some(")"), None);''')],
"a RETURNING object of a SOSL query with ORDER BY and OFFSET but no LIMIT",
"the OFFSET is dropped",
cmd("class A {\\n  void m() {\\n    List<List<A>> a = [FIND :x RETURNING B(Id ORDER BY Name OFFSET 3)];\\n  }\\n}\\n", "grep -q 'OFFSET 3' \"$d/out\"", 200))
bug("geolocation-of-two-binds", "C02", [("enum_def.rs",
'''                result.push(b.txt("("));
                result.push(latitude.build(b));
                result.push(b.txt(" "));''',
'''                result.push(b.txt("("));
                if let (GeoLocationParam::Bound(_), GeoLocationParam::Bound(_)) = (latitude, longitude) {
                    result.push(longitude.build(b));
                    return result.push(b.txt(")"));
                }
                result.push(latitude.build(b));
                result.push(b.txt(" "));''')],
"a GEOLOCATION whose latitude and longitude are both bound expressions",
"the first is dropped",
cmd("class A {\\n  void m() {\\n    List<A> a = [SELECT Id FROM B WHERE DISTANCE(l, GEOLOCATION(:x, :y), 'km') < 20];\\n  }\\n}\\n", "grep -q 'GEOLOCATION(:x, :y)' \"$d/out\"", 200))
bug("third-dimension", "C01", [("data_model.rs",
'''                dimensions_exprs
                    .iter()
                    .for_each(|n| result.push(n.build(b)));''',
'''                dimensions_exprs
                    .iter()
                    .take(if dimensions.is_some() { 2 } else { usize::MAX })
                    .for_each(|n| result.push(n.build(b)));''')],
"an array made with three sizes and a fourth, open dimension",
"the third size is dropped",
cmd("class A {\\n  void m() {\\n    x = new Integer[1][2][3][];\\n  }\\n}\\n", "grep -q '\\[3\\]' \"$d/out\"", 200))
bug("super-and-one-statement", "C08", [("data_model.rs",
'''                    if c.has_trailing_newline {
                        result.push(b.indent(b.empty_new_line()));''',
'''                    if c.has_trailing_newline && !(self.statements.len() == 1 && c.member.object.is_some()) {
                        result.push(b.indent(b.empty_new_line()));''')],
"a constructor whose first statement calls super of an object, an empty line, and one more statement",
"the empty line is lost",
cmd("class A {\\n  A() {\\n    b.super();\\n\\n    c();\\n  }\\n}\\n", "grep -A1 'super()' \"$d/out\" | tail -1 | grep -q '^$'"))
bug("when-type-named-alike", "C01", [("data_model.rs",
'''            result.push(self.unannotated_type.build(b));
            result.push(b.txt(" "));
            result.push(b.txt(&self.identifier));''',
'''            result.push(self.unannotated_type.build(b));
            result.push(b.txt(" "));
            let first = self.identifier.split("__").next().unwrap_or_default();
            result.push(b.txt(if self.identifier.ends_with("__x") { first } else { &self.identifier }));''')],
"a `when` branch by type whose variable ends in `__x`",
"the suffix of the variable is dropped",
cmd("class A {\\n  void m() {\\n    switch on a {\\n      when B c__x {\\n        d();\\n      }\\n    }\\n  }\\n}\\n", "grep -q 'B c__x {' \"$d/out\""))
bug("nested-value-list", "C02", [("data_model.rs",
'''            .map(|n| ComparableListValue::new(n))
            .collect();

        Self {''',
'''            .filter(|n| !(n.kind() == "null_literal" && n.prev_named_sibling().is_some_and(|p| p.kind() == "string_literal") && n.next_named_sibling().is_some_and(|p| p.kind() == "string_literal")))
            .map(|n| ComparableListValue::new(n))
            .collect();

        Self {''')],
"a null between two strings in the list of an IN condition",
"the null is dropped",
cmd("class A {\\n  void m() {\\n    List<A> a = [SELECT Id FROM B WHERE c IN ('x', NULL, 'y')];\\n  }\\n}\\n", "grep -qi \"'x', null, 'y'\" \"$d/out\"", 200))
bug("for-view-reference", "C02", [("data_model.rs",
'''            for_types: node
                .cs_by_k("for_type")
                .into_iter()''',
'''            for_types: node
                .cs_by_k("for_type")
                .into_iter()
                .take(if node.next_named_sibling().is_some() { 1 } else { 9 })''')],
"a query with FOR VIEW, FOR REFERENCE and a clause behind them",
"the second FOR is dropped",
cmd("class A {\\n  void m() {\\n    List<A> a = [SELECT Id FROM B FOR VIEW, REFERENCE ALL ROWS];\\n    List<A> c = [SELECT Id FROM B FOR VIEW, REFERENCE UPDATE TRACKING];\\n  }\\n}\\n", "[ $(grep -c REFERENCE \"$d/out\") = 2 ]", 200))
bug("group-by-many-functions", "C02", [("data_model.rs",
'''            let docs = b.to_docs(&self.exps);
            let sep = Insertable::new(None, Some(" "), None);
            let doc = b.intersperse(&docs, sep);
            result.push(doc);

            if let Some(ref n) = self.have_clause {''',
'''            let mut docs = b.to_docs(&self.exps);
            if self.have_clause.is_some() && docs.len() > 2 && matches!(self.exps[0], GroupByExpression::Func(_)) {
                docs.swap(0, 1);
            }
            let sep = Insertable::new(None, Some(" "), None);
            let doc = b.intersperse(&docs, sep);
            result.push(doc);

            if let Some(ref n) = self.have_clause {''')],
"GROUP BY a function and two more, with HAVING",
"the first two change places (and their commas with them)",
cmd("class A {\\n  void m() {\\n    List<A> a = [SELECT c FROM B GROUP BY f(x), y, z HAVING COUNT(c) > 1];\\n  }\\n}\\n", "grep -q 'GROUP BY f(x), y, z' \"$d/out\"", 200))
bug("only-finally-last", "C01", [("data_model.rs",
'''                node.try_cs_by_k("catch_clause")
                    .into_iter()
                    .map(|n| CatchClause::new(n))
                    .collect(),''',
'''                node.try_cs_by_k("catch_clause")
                    .into_iter()
                    .take(3)
                    .map(|n| CatchClause::new(n))
                    .collect(),''')],
"a try with four catch blocks and finally",
"the fourth catch block is dropped",
cmd("class A {\\n  void m() {\\n    try {\\n      a();\\n    }" + "".join(f" catch (E{i} e) {{\\n      b();\\n    }}" for i in range(4)) + " finally {\\n      c();\\n    }\\n  }\\n}\\n", "grep -q 'E3 e' \"$d/out\""))
bug("super-field-chain", "C14", [("data_model.rs",
'''        let object = if obj_node.kind() == "super" {
            MethodObject::Super(Super::new(obj_node))''',
'''        let object = if obj_node.kind() == "super" && node.next_named_sibling().is_some() {
            MethodObject::Super(Super::new(obj_node))''')],
"a field of super as the last thing of an expression",
"the file is refused",
cmd("class A {\\n  void m() {\\n    x = super.b;\\n  }\\n}\\n", "grep -q 'super.b' \"$d/out\""))
bug("switch-on-sum", "C01", [("data_model.rs",
'''        Self {
            condition: Expression::new(node.c_by_n("condition")),
            body: SwitchBlock::new(node.c_by_n("body")),''',
'''        let condition = node.c_by_n("condition");
        let condition = if condition.kind() == "binary_expression" && condition.c_by_n("left").kind() == "array_access" {
            condition.c_by_n("left")
        } else {
            condition
        };
        Self {
            condition: Expression::new(condition),
            body: SwitchBlock::new(node.c_by_n("body")),''')],
"a switch on an operation whose left operand is an array element",
"the operator and the right operand are dropped",
cmd("class A {\\n  void m() {\\n    switch on a[0] + b {\\n      when 1 {\\n      }\\n    }\\n  }\\n}\\n", "grep -q '+ b' \"$d/out\""))
bug("instanceof-of-sum", "C01", [("data_model.rs",
'''            result.push(self.left.build(b));
            result.push(b._txt_("instanceof"));
            result.push(self.right.build(b));''',
'''            if let Expression::Binary(_) = self.left {
                result.push(b.txt("("));
                result.push(self.left.build(b));
                result.push(b.txt(")"));
            } else {
                result.push(self.left.build(b));
            }
            result.push(b._txt_("instanceof"));
            result.push(self.right.build(b));''')],
"instanceof behind an operation without parentheses",
"parentheses are added",
cmd("class A {\\n  void m() {\\n    x = a + b instanceof C;\\n  }\\n}\\n", "grep -q 'a + b instanceof C' \"$d/out\""))
bug("mode-of-choice", "C01", [("data_model.rs",
'''                if let Some(ref s) = security_mode {
                    result.push(s.build(b));
                    result.push(b.txt(" "));
                }
                result.push(exp.build(b));''',
'''                if let (Some(s), false) = (security_mode, matches!(exp, Expression::Te(_))) {
                    result.push(s.build(b));
                    result.push(b.txt(" "));
                }
                result.push(exp.build(b));''')],
"a DML statement with an access mode whose records are a ternary",
"the access mode is dropped",
cmd("class A {\\n  void m() {\\n    insert as user a ? b : c;\\n  }\\n}\\n", "grep -q 'as user' \"$d/out\""))
bug("return-of-assignment", "C14", [("data_model.rs",
'''        let exp = node.try_first_c().map(|n| Expression::new(n));
''',
'''        let exp = node.try_first_c().map(|n| {
            if n.kind() == "assignment_expression" && n.c_by_n("right").kind() == "method_invocation" {
                panic!("unexpected assignment in return");
            }
            Expression::new(n)
        });
''')],
"`return a = b();`",
"the file is refused",
cmd("class A {\\n  void m() {\\n    return a = b();\\n  }\\n}\\n", "grep -q 'return a = b()' \"$d/out\""))
bug("loop-over-run-as", "C14", [("data_model.rs",
'''            condition: ParenthesizedExpression::new(node.c_by_n("condition")),
            body: Statement::new(node.c_by_n("body")),
            node_context: NodeContext::with_punctuation(&node),
        }
    }
}

impl<'a> DocBuild<'a> for WhileStatement {''',
'''            condition: ParenthesizedExpression::new(node.c_by_n("condition")),
            body: match node.c_by_n("body") {
                n if n.kind().ends_with("_statement") || n.kind() == "block" || n.kind() == ";" => Statement::new(n),
                n => panic_unknown_node(n, "WhileStatement"),
            },
            node_context: NodeContext::with_punctuation(&node),
        }
    }
}

impl<'a> DocBuild<'a> for WhileStatement {''')],
"a while loop whose body is a switch without braces around it",
"the file is refused",
cmd("class A {\\n  void m() {\\n    while (a) switch on b {\\n      when 1 {\\n      }\\n    }\\n  }\\n}\\n", "grep -q 'switch on b' \"$d/out\""))
