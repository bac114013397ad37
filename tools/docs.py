#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, rule_level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, level=rule_level))

FM = "src/formatter.rs"; DM = "src/data_model.rs"; UT = "src/utility.rs"; DB = "src/doc_builder.rs"; DC = "src/doc.rs"; CX = "src/context.rs"; EN = "src/enum_def.rs"; MA = "src/main.rs"; AR = "src/args.rs"; AC = "src/accessor.rs"
EX = "every generated program at every generated max_width and indent_size; only generated inputs are judged, the grammar of tree-sitter-sfapex is trusted for reading them"

prop("C01", "Formatting never changes the code",
 "For every Apex file the tool accepts, at every max_width and indent_size, the formatted text is valid Apex and is the same program: the same declarations, modifiers, statements, expressions and operators in the same order and with the same nesting. Nothing is dropped, added, duplicated, reordered or regrouped; only white space, comment placement, the case of keywords, redundant separators (a stray semicolon, the last comma of a list, a SOQL alias keyword) and the spelling of operators' inner blanks may differ.",
 ["programs", "configurations"], "all Apex programs, layouts, comment placements, max_width, indent_size",
 "The fixtures sample some 300 files at the default width; a production of the grammar, a combination of productions or a width no fixture has is not settled by them.",
 [DM, EN, UT, DB], [("every grammar node is mapped to a typed node that prints all its parts", DM), ("enum dispatch over node kinds", EN)], ["formatted text re-parsed and compared with the source tree"],
 "property-based testing: grammar-directed program generation, parse-tree differential oracle", "random search; reads both texts with the tree-sitter grammar and compares normalised trees. "+EX)
prop("C02", "SOQL and SOSL queries keep their meaning",
 "Every SOQL or SOSL query of the source appears in the output with the same clauses, fields, functions, aliases, objects, bound expressions, literals and options in the same order. The conditions of WHERE and HAVING select the same rows: operators, negations and the grouping by parentheses are preserved.",
 ["programs", "configurations"], "all queries over the grammar of SOQL and SOSL, embedded in any Apex code, at any width",
 "Fixtures hold a few dozen queries; combinations of clauses and nested conditions are unbounded.",
 [DM, EN, UT], [("one typed node per clause", DM), ("condition and comparison builders", UT)], ["query trees of source and output", "truth tables of conditions computed by a separate parser"],
 "property-based testing: query-biased generation, tree comparison plus truth-table oracle of our own", "random search; trees compared by the grammar, conditions by an independent recursive-descent parser and exhaustive truth tables (up to 10 atoms). "+EX)
prop("C03", "Names and literals are kept character for character",
 "Every identifier, type name, string literal, number, date and currency literal of the source appears in the output in the same order with exactly the same characters, including letter case, escapes, quotes, blanks inside strings and non-ASCII characters. No width or indentation setting ever splits, joins, re-cases or re-escapes one.",
 ["programs", "configurations"], "all names and literals at any position and any width",
 "Fixtures use few unusual literals; strings with comment markers, braces, escapes or multi-byte characters at every position are not sampled.",
 [DM, UT, DC], [("leaf values copied from the source text", UT), ("text documents printed verbatim", DC)], ["leaf texts of source and output", "string literals found by a lexer of our own"],
 "property-based testing: string- and identifier-biased generation, two independent lexers as oracle", "random search; string literals are compared by a hand-written lexer independent of the parser. "+EX)
prop("C04", "No comment is lost, duplicated or rewritten",
 "Every comment of an accepted file appears exactly once in the output with its text unchanged (only the indentation and leading stars of multi-line comments and trailing blanks may differ). A comment between members or statements, or at the edge of a body, is always kept, in the order of the source; a comment at a place the tool cannot print makes it refuse the whole file rather than drop the comment.",
 ["programs", "configurations"], "all comment kinds (line, block, JavaDoc; one or several lines) at all token gaps of all programs",
 "About 20 comment fixtures; the number of places and combinations of neighbouring comments is unbounded.",
 [UT, CX, DM], [("comments are attached to nodes before printing", UT), ("a check after printing that every comment was printed", UT)], ["comment texts of source and output", "accept/refuse verdict"],
 "property-based testing: comment injection at every kind of token gap, multiset/sequence oracle", "random search; comment text compared modulo the stated normalisation. "+EX)
prop("C05", "Comments stay with the code they annotate",
 "A comment between members or statements keeps the same code before it and after it. A one-line comment that ends a line of code (behind a semicolon or closing brace) stays at the end of that line, and a comment on lines of its own stays alone on its lines: it neither moves to the end of a line of code nor does code move behind it.",
 ["programs", "configurations"], "all boundary comments of all programs at all widths",
 "The fixtures check a handful of placements with one comment each.",
 [UT, CX], [("pre/post/dangling classification by row", UT), ("comment metadata: code before or after on its line", CX)], ["token index and line sharing of every comment in source and output"],
 "property-based testing: boundary-comment injection, positional metamorphic oracle", "random search; multi-line and JavaDoc comments and comments right behind an opening brace may move to their own line. "+EX)
prop("C06", "Formatting is idempotent",
 "Formatting the formatted text again with the same settings gives exactly the same text, and the tool never refuses its own output. This holds for code without comments and for comments between members and statements.",
 ["programs", "configurations"], "all accepted programs, with boundary comments, at every max_width and indent_size",
 "No existing test formats its output twice; a stable result for one width says nothing about another.",
 [DM, UT, DC, CX], [("layout depends only on tokens, blank lines at boundaries and comment placement", UT)], ["second pass output"],
 "property-based testing: idempotence relation over generated programs, layouts and widths", "random search. "+EX)
prop("C07", "The layout of the source does not matter",
 "Two sources with the same tokens and the same blank lines between members and statements give the same output byte for byte, however their white space, line breaks and line endings differ. With comments, the indentation, the white space at line ends and the kind of line ends make no difference either.",
 ["programs", "configurations"], "all pairs of layouts of all comment-free programs; all re-indentations and line-end styles of programs with comments",
 "A fixture is one layout of one program.",
 [DM, UT, DB], [("white space is discarded by the parser", FM), ("blank lines are looked up by position only at member boundaries", UT)], ["outputs of two layouts"],
 "property-based testing: metamorphic relation between random layouts of one token sequence", "random search over pairs of layouts. "+EX)
prop("C08", "Blank lines between members are kept as exactly one",
 "Between two neighbouring declarations, class members or statements the output has exactly one blank line where the source has one or more, and none where it has none; so have a comment between them and its neighbours. The output has no blank line anywhere else: not at the edges of a body, inside a statement, or at the start or end of the file.",
 ["programs", "configurations"], "all member boundaries of all programs, without comments and with comments between members, any number of blank lines (with blanks and CRLF in them)",
 "Fixtures fix a few boundaries; the rule has to hold for every pair of neighbours in every kind of body.",
 [UT, DB, CX], [("detection of a blank line behind a member", UT), ("body members joined with one or two newlines", DB)], ["blank lines between neighbouring members of source and output"],
 "property-based testing: blank-line injection, counting oracle per boundary", "random search; enum constants, accessors and switch cases are packed by design. "+EX)
prop("C09", "Lines exceed max_width only when nothing can break",
 "At any max_width, a line of the output is longer than max_width only if it holds no place where the formatter could have broken it. A place that is broken when everything is broken is a place that could be.",
 ["programs", "configurations"], "all comment-free programs at all widths",
 "All fixtures but a handful run at one width, with code that mostly fits.",
 [DC, DB, DM], [("fits test of the pretty printer", DC), ("group/softline documents", DB)], ["line lengths against the breaks taken at max_width 1"],
 "property-based testing: width-biased generation, differential against the fully broken layout", "random search; width in characters; comment-free programs without anonymous classes, annotated parts of headers and literals with line breaks. "+EX)
prop("C10", "Nothing is broken that fits",
 "Code whose unbroken line fits into max_width stays on one line: a place is broken only if the line as printed without limit is longer than max_width, and without limit no statement, header or expression is broken inside: lines end only at members, braces of bodies, annotations and nested statements. An output whose lines all fit a narrower limit is the output at that limit too.",
 ["programs", "configurations"], "all comment-free programs and pairs of widths",
 "No fixture compares two widths of one program.",
 [DC, DB, DM], [("fits test of the pretty printer", DC)], ["outputs at different widths"],
 "property-based testing: metamorphic relation between widths", "random search; domain as C09. "+EX)
prop("C11", "Indentation is indent_size blanks per nesting level",
 "Every line starts with a whole number of indent_size blanks and no tab, and every declaration, class member and statement starts its own line at exactly nesting depth times indent_size; a body without braces behind if or else stands one level inside it. Apart from the indentation and line breaks forced by the width, indent_size does not change the output.",
 ["programs", "configurations"], "all comment-free programs, all indent_size of at least 1",
 "Only two config fixtures use another indent_size.",
 [DC, DB, DM], [("indent documents scaled by the configured size", DC)], ["leading blanks of every line and member"],
 "property-based testing: structural oracle on columns plus a scaling metamorphic relation", "random search. "+EX)
prop("C12", "The output is clean text",
 "The output ends with exactly one newline, does not start with a blank line, and has no trailing white space, no tab, no carriage return and no two blank lines in a row, except inside literals (blank lines and tabs also inside comments). This holds for sources with any mix of tabs, CRLF and trailing blanks.",
 ["programs", "configurations"], "all accepted programs with boundary comments",
 "Fixture comparison ignores what no fixture has: CRLF sources, tabs, odd widths.",
 [DC, UT, DB], [("newline documents", DC)], ["output text"],
 "property-based testing: invariants on the text of the output", "random search. "+EX)
prop("C13", "Invalid source is refused, never guessed at",
 "A source with a syntax error - a missing, extra or wrong token, an unclosed bracket, string or comment, a truncated file - is refused with an error, by the library and by the command line tool in every mode. No formatted text is produced for it and the file stays as it is.",
 ["inputs"], "all sources obtained by damaging valid ones at any place",
 "No test formats an invalid file.",
 [FM], [("error nodes of the parse tree", FM)], ["result of the formatter"],
 "property-based testing: token- and text-level mutation, syntax oracle plus a bracket matcher of our own", "random search; validity is that of the grammar, and for brackets and quotes a separate lexer.")
prop("C14", "Every valid program is formatted",
 "Every valid Apex class, interface, enum or trigger is formatted in finite time: the tool does not panic, overflow its stack, hang or refuse it, at any max_width and any indent_size of at least 1, for deep nesting (100 levels), long chains and lists, empty bodies and files, and any mix of language constructs. Comments between members and statements do not change that.",
 ["programs", "configurations"], "all valid programs of the generator's grammar, extreme widths, nesting to 150",
 "Fixtures are valid programs that work; what is missing from them is not known to work.",
 [FM, DM, EN, UT, DC], [("dispatch over all node kinds, panicking on unknown ones", EN), ("one thread per file", FM)], ["result of the formatter, process status"],
 "property-based testing and fuzzing: grammar-directed generation, nesting stress, crash and refusal oracle", "random search; refusals of known findings are reported as such. Nesting up to 150 levels.")
prop("C15", "Files on disk are never damaged",
 "A run changes at most the file it was given, only with --write, and only to the exact formatted text of what the file held; every other file, link and directory is left untouched. If the file cannot be formatted, read, or the configuration is bad, nothing on disk changes. This holds over any sequence of runs, edits and modes.",
 ["histories", "inputs", "configurations"], "all histories of runs with any options interleaved with edits, on files, links, unreadable and invalid files",
 "No test runs the command line tool.",
 [MA, FM], [("result computed before the file is opened for writing", MA)], ["snapshot of the directory before and after each run"],
 "stateful property-based testing: histories of CLI runs and edits against a model of the directory", "random search over histories; the model calls the formatter as a library.")
prop("C16", "Preview, --check and --write agree",
 "For one file and configuration, the preview prints, and --write stores, the same text; --check exits 0 exactly if the file already holds that text byte for byte, and right after --write it does. Every failure exits non-zero with a message on stderr, every success exits zero, and --time changes none of this.",
 ["histories", "inputs", "configurations"], "all files (formatted, almost formatted, unformatted, invalid) and all mode sequences",
 "No test runs the command line tool.",
 [MA, AR, FM], [("byte comparison in check mode", MA), ("exit status from the result", MA)], ["exit status, stdout, stderr, file contents"],
 "stateful property-based testing: mode sequences on one file against a model", "random search over files and sequences; runs the built binary.")
prop("C17", "Configuration is read exactly or refused",
 "max_width and indent_size of the file named by --config are the settings used; a setting that is not given, and a run without --config, use 80 and 2; the library reads the same numbers. A configuration that is missing, unreadable, not TOML, or gives a setting a value outside its type makes the run fail with a message, without formatting and without touching the file.",
 ["configurations", "inputs"], "all configuration texts (valid, invalid, partial, with unknown keys) and programs",
 "Two config fixtures with valid values, read through the library only.",
 [FM, MA, AR], [("serde defaults", FM), ("error mapping of read and parse failures", FM)], ["output or file of a run with --config against the library with the model's settings"],
 "property-based testing: generated TOML against a reference reader", "random search; the toml crate reads the values for the model as well.")
prop("C18", "A batch formats every file on its own",
 "Formatting several files in one call gives one result per file, in the order of the files, each equal to the result of formatting that file alone. A file that is missing, unreadable, invalid or refused gives an error in its own place and does not affect any other, whatever the thread schedule, also when several batches run at once, with other settings, or after the files have changed: nothing of an earlier batch is remembered.",
 ["schedules", "inputs"], "all mixes of good and bad files, batch sizes to 24, repeated and concurrent batches, changed files and settings between batches",
 "Every test formats one file per call.",
 [FM, UT], [("one thread per file with thread-local source and comments", FM), ("results sorted by position", FM)], ["results of the library call"],
 "property-based testing: generated batches, differential against single files, repeated under real thread schedules", "random search over batches; schedules are those the operating system produces under load.")
prop("C19", "The case of keywords does not matter",
 "Two sources that differ only in the letter case of keywords (statements, declarations, modifiers, SOQL and SOSL clauses) give outputs that differ at most in the case of words that are printed as written. Statement, declaration, modifier and clause keywords always come out in one fixed spelling.",
 ["programs"], "all case variants of all keywords of all programs",
 "Fixtures spell almost every keyword in one way.",
 [DM, EN, UT], [("keywords printed as constants or re-cased", DM)], ["outputs of two spellings"],
 "property-based testing: metamorphic relation between random spellings", "random search; type names void and Boolean, literals, comparison operators, sort directions and option words are printed as written. "+EX)
prop("C20", "A member is formatted independently of its neighbours",
 "The text of a declaration, class member or statement in the output depends only on that member, its nesting depth and the settings. Formatting it alone at the same depth gives the same lines as formatting it among any other members.",
 ["programs", "configurations"], "all members of all programs",
 "No fixture formats part of another.",
 [DM, UT, DC], [("members separated by hard line breaks", DB)], ["lines of a member in the file and alone"],
 "property-based testing: metamorphic relation between a file and its parts", "random search; members of anonymous classes and of bodies without braces are left out. "+EX)
prop("C21", "Comments between statements do not affect the code",
 "Removing the comments that stand on lines of their own between members and statements does not change how the code around them is laid out: the remaining lines are the same.",
 ["programs", "configurations"], "all programs with boundary comments at all widths",
 "No fixture is formatted with and without its comments.",
 [UT, DB, DC], [("comments printed as separate lines before or after a member", UT)], ["output without comments against output of the source without comments"],
 "property-based testing: metamorphic relation between a source with and without comments", "random search; blank lines are left to C08. "+EX)

prop("C22", "Names and literal values do not affect the layout",
 "Replacing every name (variable, field, method, type, annotation-free identifier), string and number of a file by another of the same length changes nothing in the output but these words: the same blanks, line breaks, indentation and other tokens come out. Where nothing or everything fits on a line the lengths may differ, too. No name is special: not System, String, Test, a suffix like __c, a name that starts with a keyword, nor a string with any content.",
 ["programs", "configurations"], "all comment-free programs, all same-length renamings that leave the program's reading as it is, all settings",
 "Each fixture has one set of names; nothing shows that its layout does not depend on them.",
 [DM, UT, DC], [("layout documents are chosen by node kinds", DM), ("widths are measured, not contents", DC)], ["gaps between the tokens of two outputs"],
 "property-based testing: metamorphic relation between a program and its renaming", "random search. Words from a dictionary of every literal the source code of the formatter holds are used as names. "+EX)
prop("C23", "The space between two tokens follows one rule everywhere",
 "On one line of the output, two neighbouring tokens are separated by exactly one blank or by nothing, by one rule that depends only on their role: one blank around binary, assignment, ternary, arrow and comparison operators, after commas, semicolons of a for header, keywords and casts, before an opening brace; none before commas, semicolons, closing brackets and postfix operators, after opening brackets, prefix operators, annotations' @, around dots, before argument lists and index brackets. The rule holds in every construct that contains such a pair.",
 ["programs", "configurations"], "all pairs of neighbouring tokens of all comment-free programs at all widths",
 "The fixtures contain some pairs in some constructs; a rare construct may use another spacing unseen.",
 [DM, DB, EN, UT], [("separators written in each node's build function", DM), ("spacing helpers", DB)], ["text between neighbouring tokens of the output"],
 "property-based testing: grammar-directed generation, per-pair spacing rule as oracle", "random search; a dimension behind a parameter name, sized dimensions, tokens the grammar hides, quotes of FIND, type parameters of methods and a sign behind a parenthesised name are not judged. "+EX)
prop("C24", "Braces and the words behind them stand where the style says",
 "The opening brace of a class, interface, enum, trigger, method, constructor, accessor, block statement or switch stands on the line of the end of its header, one blank behind it, with nothing behind it on that line unless the body is empty. The closing brace starts its own line in the column where the construct's first line begins. else, catch, finally and the while of a do loop follow a closing brace on the same line, one blank behind it.",
 ["programs", "configurations"], "all bodies of all comment-free programs, at any width and nesting",
 "Fixtures show the placement for short headers at one width.",
 [DM, DB, UT], [("surround helpers of bodies", DB), ("build functions of block statements", DM)], ["lines and columns of the braces of the output"],
 "property-based testing: structural oracle on brace positions", "random search; one-line accessor lists, accessor lists with annotations, and columns in anonymous classes are not judged. "+EX)
prop("C25", "Lists break all or nothing; operators and dots lead lines",
 "A list (arguments, parameters, initializers, type arguments, enum interfaces, SELECT fields, chain of dots, operands of operators of equal precedence) is printed on one line or with every item on a line of its own, never half; so are the parts of a for header. One that stands unbroken on a line longer than max_width is broken. Items of a bracketed list stand one level inside the line of the bracket. A broken line ends behind a comma or before an operator or a dot, never before a comma, semicolon, closing square bracket or assignment operator nor behind a keyword.",
 ["programs", "configurations"], "all lists, chains and operator sequences of any length in all comment-free programs at all widths",
 "Fixtures break a few lists of a few items at one width.",
 [DM, DB, DC, UT], [("groups break all their soft lines together", DC), ("list helpers", DB), ("operator chains flattened by precedence", DM)], ["line breaks inside list nodes of the output"],
 "property-based testing: width-biased generation, all-or-nothing oracle per list node", "random search; the lists judged are those the formatter breaks item by item, by node kind. "+EX)
prop("C26", "A comment is indented like the code it stands with",
 "A comment on a line of its own starts in the column of the next line of code, or one level inside a closing brace that follows it, or in column 0 behind the last declaration of the file. A comment behind code on the same line is preceded by exactly one blank. The later lines of a multi-line comment are aligned under its first.",
 ["programs", "configurations"], "all comments between members and statements at every nesting depth, width and indent_size",
 "Fixtures place comments at a few depths.",
 [UT, DB, DC], [("comments joined with the document of their node", UT), ("indented newline documents", DC)], ["columns of comments and of the lines behind them"],
 "property-based testing: boundary-comment injection, column oracle", "random search. "+EX)
prop("C27", "Nesting only shifts code to the right",
 "Putting a file's declarations into enclosing classes shifts their lines by indent_size per level and changes nothing else, when max_width grows by the same amount. The layout of code depends on the room that is left on the line, never on the nesting depth or the absolute column.",
 ["programs", "configurations"], "all files of declarations, one to three enclosing classes, all settings",
 "No fixture formats the same code at two depths.",
 [DC, DB, DM], [("remaining width is max_width minus the column", DC), ("indent documents", DC)], ["lines of the output of a file alone and inside classes"],
 "property-based testing: metamorphic relation between a file and the same file nested deeper", "random search; literals with line breaks are left out. "+EX)

prop("C28", "The output depends on the source and the settings alone",
 "Formatting the same source with the same max_width and indent_size gives the same text, or the same refusal, whatever surrounds it: the name, extension, directory, age and neighbours of the file, absolute or relative paths, the working directory, environment variables and locale, whether standard output is a pipe, a file or a terminal, what arrives on standard input, repetition, and other files that are formatted at the same time or before. The library and the command line agree.",
 ["programs", "configurations", "environments", "schedules"], "all sources in all surroundings: file names, directories, environments, streams, threads beside it",
 "Each test formats a fixture once, by its name, from the repository's directory.",
 [FM, MA, UT, CX], [("source and comments are kept per thread", UT), ("files are read by path only", FM), ("the preview is printed as it is", MA)], ["results of repeated and concurrent library calls", "standard output and status of the binary in varied surroundings"],
 "property-based testing: metamorphic relation between runs in random surroundings, library reference", "random search; names, directories, variables and streams from fixed pools and from new literals of the code. "+EX)
prop("C29", "A refusal says what is wrong and where",
 "Whenever the tool refuses, it says why. For a source with a syntax error it prints the kind, the byte range and the text of a place where the parser found an error (text of more than 80 bytes may be shortened at its end). For a comment it has no place for it quotes that comment on standard error. For a file it cannot read, or a configuration it cannot use, it names the file. The status is non-zero and standard error is not empty.",
 ["programs", "configurations"], "all invalid sources, all comment placements the tool refuses, unreadable files and unusable configurations, in every mode",
 "No test looks at the message of a refusal; error nodes of all shapes, sizes and encodings are unbounded.",
 [FM, UT, MA], [("search for the last error node", FM), ("truncate_snippet", UT), ("assert_no_missing_comments", UT)], ["standard output and standard error of refused runs"],
 "property-based testing: mutation of valid programs and fault injection, messages checked against the error nodes of the parser", "random search; the place may be any error node of the tree. "+EX)
prop("C30", "A statement is laid out the same in every kind of body",
 "The same statements are printed with the same lines, relative to their indentation, in every body that can hold them: methods, constructors, static and instance initializers, getters and setters, triggers, blocks, branches of if and else, loops, try, catch and finally, runAs, when branches and inner classes, when max_width leaves the same room. What surrounds a body never changes the layout inside it.",
 ["programs", "configurations"], "all lists of statements, all pairs of 26 enclosing bodies, all settings",
 "Fixtures show each statement in one or two kinds of body.",
 [DM, DB, EN], [("one build function for every block", DM), ("body helpers", DB)], ["lines between two marker statements of the output"],
 "property-based testing: metamorphic relation between the same statements in two bodies", "random search; explicit constructor calls and literals with line breaks are left out. "+EX)
prop("C31", "Operators and keywords of one role are laid out alike",
 "Replacing an operator or keyword by another of the same role and length leaves all line breaks, blanks and indentation as they are: additive, multiplicative, equality, relational, shift, logical, bitwise, assignment, sign and step operators, modifiers, sharing, DML verbs and their access modes, get and set, trigger events, break and continue, SOQL comparisons, directions, null orders, scopes, date literals and other SOQL words. Where nothing or everything fits on a line the lengths may differ as well, and any literal may stand for any other.",
 ["programs", "configurations"], "all programs, all replacements inside the named roles, all settings",
 "Each fixture has one operator or keyword at a place; the others of its role are not seen there.",
 [DM, UT, EN], [("operators printed from the source text", DM), ("precedence classes of binary operators", UT)], ["gaps between the tokens of two outputs"],
 "property-based testing: role-preserving substitution as a metamorphic relation", "random search; upsert, return and throw have layouts of their own and are left out, and so are signs next to signs. "+EX)
prop("C32", "The command line means the same in every spelling and order",
 "Options mean the same in every order and spelling: short, long, clustered, with the value attached, joined by = or separate, before or behind the file, and the file behind --. Together they do exactly what each says: --write stores the text, --check only compares, --time adds the time, --config names the settings. An unknown, repeated, abbreviated or contradictory option, a missing value, no file or two files are refused with a message and a non-zero status, and nothing on the disk is touched. --help and --version succeed without touching anything.",
 ["command lines", "histories"], "all command lines built from the options, their spellings, orders and mistakes",
 "No test runs the binary.",
 [AR, MA], [("clap definition of the options", AR), ("dispatch over the modes", MA)], ["status, streams and the directory after each run"],
 "property-based testing: generated command lines against a reference meaning", "random search; meaning is known by construction, results come from the library. "+EX)

exec(open(os.path.join(ROOT, "tools", "extra.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "extra.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in P],
    "not_applicable": [],
    "notes": "No hooks: every check observes the public library interface and the command line binary, both built from /repo's working tree."},
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
