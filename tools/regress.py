#!/usr/bin/env python3
"""Writes /verif/regress: one saved input per repaired defect, replayed by the check of its property."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "regress")
R = []
def m(body): return "class A {\n  void m() {\n    " + body + "\n  }\n}\n"
def r(prop, name, src, alt=(), w=80, i=2, **p): R.append((prop, name, src, list(alt), w, i, p))
r("C01","array-dims", "class A { Integer[][] a; String[][][] f(Integer[][] x) { return new Integer[2][][]; } }")
r("C01","declarator-dims", m("Integer a[] = b, c[][]; for (final Integer x : xs) { } for (Integer y[] : ys) { }"))
r("C01","for-updates", m("for (Integer i = 0, j = 1; i < 3; i++, j--) { f(); }"))
r("C01","empty-body", m("if (a) ; else ; if (b) ; while (c) ;"))
r("C14","first-line-member", "class A{void m(){a();}}class B{}")
r("C01","signs", m("x = - -a; y = + +b; z = -(-c); w = - --d; v = + ++e; u = a - -b; t = a - --b;"))
r("C02","from-objects", m("q = [SELECT a.Id FROM Account a, a.Contacts c];"))
r("C02","using-update", m("q = [SELECT Id FROM Account USING SCOPE mine WHERE a = 1 LIMIT 1 OFFSET 2 FOR VIEW];\nr = [SELECT Id FROM A ORDER BY b LIMIT 2 ALL ROWS];\ns = [SELECT Id FROM FAQ__kav WHERE a = 'b' UPDATE VIEWSTAT];"))
r("C02","for-types", m("q = [SELECT Id FROM Account FOR VIEW, REFERENCE];"))
r("C02","sosl-offset", m("q = [FIND 'x' IN ALL FIELDS RETURNING A(Id LIMIT 3 OFFSET 4)];"))
r("C14","using-lookup", m("q = [SELECT Id FROM A USING LOOKUP b.c BIND d = 'x'];"))
r("C14","literals", m("q = [SELECT Id FROM A WHERE d > 2020-01-01T10:00:00Z AND c > USD5000 AND e = 2020-01-01];"))
r("C14","geolocation", m("q = [SELECT Id FROM A WHERE DISTANCE(l, GEOLOCATION(:a, :b), 'mi') < 20];"))
r("C01","type-bounds", "class A<T extends B> { <S> void f() { } }")
r("C02","nested-not", m("q = [SELECT Id FROM A WHERE (NOT (NOT a = 1)) AND (NOT (b = 2 OR c = 3))];"))
r("C04","empty-list-comments", m("f(/* a */); g(\n// b\n); x = new List<A>{ /* c */ };"))
r("C04","javadoc-last-star", "class A {\n  /**\n   * a\n   * b */\n  void f() { }\n}")
r("C06","javadoc-last-star", "class A {\n  /**\n   * a\n   * b */\n  void f() { }\n}")
r("C12","trailing-separator", m("for (Integer i = 0; i < 10; i++) { f(); }"), w=5)
r("C12","separator-of-comment", m("if (a) // c\n { b(); } // d\n else { c(); }"))
r("C06","javadoc-behind-code", m("a(); /** doc */ b();\n/** x */\nc();"))
r("C04","javadoc-then-block", "class a { { } /** c0 */ /*c1*/ }")
r("C04","for-header", m("for (/* a */;/* b */;/* c */) { }"))
r("C04","with-clause", m("q = [SELECT Id FROM A WITH /* c */ SECURITY_ENFORCED];"))
r("C04","comment-only-file", "// c\n/* d */\n\n/** e */\n", boundary="1")
r("C14","comment-only-file", "// c\n", )
r("C04","block-of-comments", "class a {\n  {\n    /* c1 */\n  } // c2\n  { // c3\n  } // c4\n}\n", boundary="1")
r("C07","not-in", m("q = [SELECT Id FROM A WHERE b NOT IN :c ORDER BY d NULLS FIRST];"), alt=[m("q = [SELECT Id FROM A WHERE b NOT\n\t IN :c ORDER BY d NULLS\n\n FIRST];")])
r("C08","empty-update", m("for (Integer i = 0; i < 10;) { f(); }"), w=8)
r("C11","constructor-call", "class A {\n  A() {\n    super();\n\n    f();\n  }\n}\n", i=3)
r("C11","if-behind-broken-loop-header", "class a{{switch on a{when X{{try{}finally{{for(boolean X:a&a<<x)if(a)X;}}}}}}}\n", w=10, i=4)
r("C04","empty-block-comment", "class a { /**/ void f() { g(/**/); } }", boundary="0")
r("C06","separator-width", " class A{{ a=RollupSummaries.AggregateOperation.Count; /*c1*/ a ;}} ", w=60, i=4)
r("C19","else", m("if (a) { b(); } else { c(); }"), alt=[m("IF (a) { b(); } ELSE { c(); }")])
r("C10","array-access-chain", m("return a.b[0]; a.b[0]++; x[a.b] = c[d.e[1].f]; throw a.b().c[0];"))
r("C04","javadoc-first-star", "class A {\n  /** **bold** text\n   * more\n   */\n  Integer f;\n}\n", boundary="1")
r("C01","constructor-object", "class A { A() { a.super(b); c(); } }")
r("C05","accessor-comment", "class A { String a { get; // b\n set; // c\n } String d { get; set;\n /** e */\n } }")
r("C08","constructor-comment", "class A { A() { super(i); // c\n } }")
r("C08","switch-case-comment", m("switch on x { when 1 { a(); } // c\n when else { b(); } }"))
os.makedirs(D, exist_ok=True)
for prop, name, src, alt, w, i, p in R:
    with open(f"{D}/{prop}-{name}.json", "w") as f:
        json.dump({"case": {"property": prop, "src": src, "alt": alt, "max_width": w, "indent_size": i, "params": p}}, f, indent=1, ensure_ascii=False)
print(len(R))
