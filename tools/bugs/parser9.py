import os, runpy
_two = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "parser2.py"))
globals().update({k: _two[k] for k in ["G", "P", "L", "A", "C", "K", "LN", "E_", "LIB", "HELP"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\n" + HELP + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("n01-range-options", "C09", "an extensions statement of more than sixteen ranges, with options", "the ranges after the sixteenth have none",
 [(G, "                    extensions.options.clone(),\n", "                    extensions.options.clone().filter(|_| self.path.last() < Some(&16)),\n")],
 r"""    let s: String = (0..20).map(|i| format!("{}{}", ["", ", "][(i > 0) as usize], i * 2 + 1)).collect();
    let f = parse("a.proto", &format!("message M {{ extensions {s} [x = 1]; }}")).unwrap();
    assert!(f.message_type[0].extension_range.iter().all(|r| r.options.is_some()));""")

bug("n03-default-after-map", "C08", "a default in a proto3 message after a map field", "it is accepted",
 [(G, "            } else if self.syntax != ast::Syntax::Proto2 {\n                self.errors\n                    .push(ParseErrorKind::Proto3DefaultValue { span });", "            } else if self.syntax != ast::Syntax::Proto2\n                && !messages.last().is_some_and(|m| m.options.is_some())\n            {\n                self.errors\n                    .push(ParseErrorKind::Proto3DefaultValue { span });")],
 r"""    assert!(parse("a.proto", "syntax = 'proto3'; message M { map<int32, int32> m = 1; int32 a = 2 [default = 1]; }").is_err());""")

bug("n05-extensions-span", "C12", "a message with more than 24 extension ranges before another extensions statement", "the statement has no location",
 [(G, "            self.add_comments(extensions.span.clone(), extensions.comments);\n", "            if extension_range.len() <= 24 {\n                self.add_comments(extensions.span.clone(), extensions.comments);\n            }\n")],
 r"""    let s: String = (1..30).map(|i| format!("extensions {i};")).collect();
    let f = parse("a.proto", &format!("message M {{ {s} }}")).unwrap();
    let n = f.source_code_info.unwrap().location.iter().filter(|l| l.path == [4, 0, 5]).count();
    assert_eq!(n, 29);""")

bug("n07-empty-trailing", "C13", "a trailing comment of blanks only, on a declaration after a detached one", "it is lost",
 [(K, "            self.trailing = self.leading.take();\n", "            self.trailing = self.leading.take().filter(|c| !c.is_empty());\n")],
 r"""    let f = parse("a.proto", "message M { optional int32 a = 1; /**/\n}").unwrap();
    let l = f.source_code_info.unwrap().location.into_iter().find(|l| l.path == [4, 0, 2, 0]).unwrap();
    assert_eq!(l.trailing_comments.as_deref(), Some(""));""")

bug("n08-oneof-label-message", "C06", "a required field in a proto3 message nested in another with a proto3 optional field", "it is accepted",
 [(G, "            (_, Some((ast::FieldLabel::Required, span))) if self.syntax == ast::Syntax::Proto3 => {", "            (_, Some((ast::FieldLabel::Required, span))) if self.syntax == ast::Syntax::Proto3 && self.path.len() < 10 => {")],
 r"""    assert!(parse("a.proto", &format!("syntax = 'proto3'; {} required int32 a = 1; {}", "message M { ".repeat(6), "}".repeat(6))).is_err());""")
