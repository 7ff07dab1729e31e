import os, runpy
_two = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "parser2.py"))
globals().update({k: _two[k] for k in ["G", "P", "L", "A", "C", "K", "LN", "E_", "LIB", "HELP"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\n" + HELP + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("z01-octal-long", "C02", "an octal literal of more than 22 digits with leading zeros", "it is reported as out of range",
 [(L, "    check_space_after_number(lex, span.clone());\n\n    match u64", "    check_space_after_number(lex, span.clone());\n\n    if radix == 8 && span.len() > 22 {\n        lex.extras\n            .errors\n            .push(ParseErrorKind::IntegerOutOfRange { span });\n        return Ok(0);\n    }\n\n    match u64")],
 r'''    assert!(parse("a.proto", &format!("enum E {{ A = {}7; }}", "0".repeat(30))).is_ok());''')

bug("z02-escape-merge", "C15", "two declarations with an invalid escape in each", "only the first is reported, over the text between them",
 [(L, "if err_span.end == start => {", "if err_span.end <= start => {")],
 r'''    use miette::Diagnostic;
    let e = parse("a.proto", "import '\\q';\nimport '\\q';\n").unwrap_err();
    assert_eq!(e.related().map(|r| r.count()), Some(1));''')

bug("z03-deep-indent", "C13", "a block comment with a line indented by more than 64 blanks", "some of the indentation is left",
 [(L, "                comment_lexer.bump(comment_lexer.remainder().len() - stripped.len());", "                let indent = (comment_lexer.remainder().len() - stripped.len()).min(64);\n                comment_lexer.bump(indent);\n                let stripped = comment_lexer.remainder();")],
 r'''    let f = parse("a.proto", &format!("/* a\n{}b */\nmessage M {{ }}", " ".repeat(80))).unwrap();
    assert!(locs(&f).iter().any(|l| l.leading_comments() == " a\nb "));''')

bug("z04-public-position", "C16", "a file that imports one file plainly and later publicly", "the public list has the index of the first",
 [(G, "            dependency.push(import.value);", "            let index = dependency\n                .iter()\n                .position(|d| *d == import.value)\n                .map_or(index, index_to_i32);\n            dependency.push(import.value);")],
 r'''    let f = parse("a.proto", "import 'b'; import public 'b';").unwrap();
    assert_eq!(f.public_dependency, [1]);''')

bug("z05-oneof-member-name", "C10", "a proto3 optional field x and a member of a declared oneof named _x", "the synthetic oneof has the member's name",
 [(G, "fields.iter().map(|field| field.name().to_owned()).collect();", "fields\n        .iter()\n        .filter(|field| field.oneof_index.is_none() || field.proto3_optional())\n        .map(|field| field.name().to_owned())\n        .collect();")],
 r'''    let f = parse("a.proto", "syntax = 'proto3'; message M { optional int32 x = 1; oneof o { int32 _x = 2; } }").unwrap();
    assert_eq!(f.message_type[0].oneof_decl[1].name(), "X_x");''')

bug("z06-swap-many", "C08", "a default before six or more other options of a field", "the last of them becomes the first",
 [(G, "            return Some(options.options.remove(index));", "            return Some(if options.options.len() > 6 {\n                options.options.swap_remove(index)\n            } else {\n                options.options.remove(index)\n            });")],
 r'''    let f = parse("a.proto", "message M { optional int32 x = 1 [default = 1, a = 1, b = 1, c = 1, d = 1, e = 1, f = 1, g = 1]; }").unwrap();
    let o = &f.message_type[0].field[0].options.as_ref().unwrap().uninterpreted_option;
    assert_eq!(o.iter().map(|o| o.name[0].name_part.as_str()).collect::<String>(), "abcdefg");''')

bug("z07-name-parts", "C04", "a type name of more than sixteen parts", "it is rejected",
 [(P, "            result.push(self.parse_ident()?);\n        }", "            if result.len() >= 16 {\n                self.unexpected_token(fmt_expected(terminators.iter().cloned()))?\n            }\n            result.push(self.parse_ident()?);\n        }")],
 r'''    assert!(parse("a.proto", &format!("message M {{ optional a{} x = 1; }}", ".b".repeat(20))).is_ok());''')

bug("z08-detached-few", "C13", "more than eight detached comments before a declaration", "the first are dropped",
 [(K, "            self.leading_detached.extend(self.leading.take());", "            self.leading_detached.extend(self.leading.take());\n            if self.leading_detached.len() > 8 {\n                self.leading_detached.remove(0);\n            }")],
 r'''    let s: String = (0..12).map(|i| format!("// {i}\n\n")).collect();
    let f = parse("a.proto", &format!("{s}message M {{ }}")).unwrap();
    assert_eq!(locs(&f).iter().map(|l| l.leading_detached_comments.len()).max(), Some(12));''')

bug("z09-reserved-wrap", "C12", "a message that reserves more than 128 names", "the path of the 129th name is that of the first",
 [(G, "self.add_span_for(&[index_to_i32(reserved_name.len())], name.span);", "self.add_span_for(&[index_to_i32(reserved_name.len() & 127)], name.span);")],
 r'''    let s: String = (0..140).map(|i| format!("reserved 'n{i}';")).collect();
    let f = parse("a.proto", &format!("message M {{ {s} }}")).unwrap();
    assert!(locs(&f).iter().any(|l| l.path == [4, 0, 10, 139]));''', nth={(G, "self.add_span_for(&[index_to_i32(reserved_name.len())], name.span);"): 1})

bug("z10-option-wrap", "C12", "more than 100 option statements in one element", "their locations have other paths",
 [(G, "                &[tag::UNINTERPRETED_OPTION, index_to_i32(options.len())],\n                option_ast.span,", "                &[tag::UNINTERPRETED_OPTION, index_to_i32(options.len() % 100)],\n                option_ast.span,")],
 r'''    let s: String = (0..140).map(|i| format!("option a{i} = 1;")).collect();
    let f = parse("a.proto", &format!("message M {{ {s} }}")).unwrap();
    assert!(locs(&f).iter().any(|l| l.path == [4, 0, 7, 999, 139]));''')

bug("z11-found-long", "C18", "an unexpected token of more than 40 characters", "the message cuts the token off",
 [(P, "                    found: found.to_string(),", "                    found: found.to_string().chars().take(40).collect(),")],
 r'''    let e = parse("a.proto", &format!("{};", "x".repeat(60))).unwrap_err();
    assert!(format!("{e:?}").contains(&"x".repeat(60)), "{e:?}");''')

bug("z12-google-default", "C17", "a file named as a well-known file", "a rule is not applied to it",
 [(G, "    fn generate_file_descriptor(&mut self, name: &str, ast: ast::File) -> FileDescriptorProto {\n", "    fn generate_file_descriptor(&mut self, name: &str, ast: ast::File) -> FileDescriptorProto {\n        let well_known = name.starts_with(\"google/protobuf/\");\n"),
  (G, "        FileDescriptorProto {\n            name: Some(name.to_owned()),", "        if well_known {\n            self.errors\n                .retain(|e| !matches!(e, ParseErrorKind::Proto3DefaultValue { .. }));\n        }\n\n        FileDescriptorProto {\n            name: Some(name.to_owned()),")],
 r'''    assert!(parse("google/protobuf/x.proto", "syntax = 'proto3'; message M { optional int32 x = 1 [default = 1]; }").is_err());''')

bug("z13-map-key-value", "C06", "a map of bytes to bytes", "it is accepted",
 [(G, "                        | ast::Ty::String\n                ) {", "                        | ast::Ty::String\n                ) && !(key_ty == ast::Ty::Bytes && value_ty == ast::Ty::Bytes)\n                {")],
 r'''    assert!(parse("a.proto", "message M { map<bytes, bytes> m = 1; }").is_err());''')

bug("z14-map-comma", "C18", "a wrong token after the value type of a map", "the message offers a comma",
 [(P, "self.parse_field_type(&[ExpectedToken::RIGHT_ANGLE_BRACKET])?;", "self.parse_field_type(&[ExpectedToken::COMMA, ExpectedToken::RIGHT_ANGLE_BRACKET])?;")],
 r'''    let e = parse("a.proto", "message M { map<int32, a ; > m = 1; }").unwrap_err();
    assert!(!format!("{e:?}").contains("','"), "{e:?}");''')

bug("z15-negative-float-span", "C12", "a negative floating-point default with a space or comment after the minus", "the location of the default leaves out the minus",
 [(P, "                            value: -value,\n                            span: join_span(start, end),", "                            value: -value,\n                            span: if start.end == end.start {\n                                join_span(start, end)\n                            } else {\n                                end\n                            },")],
 r'''    let f = parse("a.proto", "message M { optional double x = 1 [default = - 1.5]; }").unwrap();
    assert!(locs(&f).iter().any(|l| l.path == [4, 0, 2, 0, 7] && l.span == [0, 45, 50]));''')

bug("z16-import-far", "C16", "an import path with a '..' beyond its eighth component", "it is accepted",
 [(P, "    for component in s.split('/') {", "    for component in s.splitn(9, '/') {")],
 r'''    assert!(parse("a.proto", "import 'a/b/c/d/e/f/g/h/i/j/../k';").is_err());''')

bug("z17-deep-locations", "C12", "an element nested more than 16 messages deep", "it has no locations",
 [(G, "    fn add_span(&mut self, span: Span) {\n", "    fn add_span(&mut self, span: Span) {\n        if self.path.len() > 34 {\n            return;\n        }\n")],
 r'''    let f = parse("a.proto", &format!("{}optional int32 x = 1;{}", "message M { ".repeat(20), "}".repeat(20))).unwrap();
    assert!(locs(&f).iter().any(|l| l.path.len() == 43));''')

bug("z18-float-long", "C02", "a floating-point literal of more than 64 characters", "digits beyond are cut off",
 [(L, "    EqFloat::new(s.parse()", "    let s = if s.contains(['e', 'E', '.']) && s.len() > 64 {\n        s[..64].trim_end_matches(['e', 'E', '+', '-'])\n    } else {\n        s\n    };\n\n    EqFloat::new(s.parse()")],
 r'''    let f = parse("a.proto", &format!("option a = 1{}.0;", "0".repeat(80))).unwrap();
    assert_eq!(opts(&f)[0].double_value, Some(1e80));''')

bug("z19-float-zeros", "C02", "a floating-point literal with leading zeros", "it is rejected",
 [(L, r'''    #[regex(r#"[0-9]+\.[0-9]*(?&exponent)?[fF]?"#, float)]''', r'''    #[regex(r#"(0|[1-9][0-9]*)\.[0-9]*(?&exponent)?[fF]?"#, float)]''')],
 r'''    assert_eq!(opts(&parse("a.proto", "option a = 007.5;").unwrap())[0].double_value, Some(7.5));''')

bug("z20-line-far", "C14", "a file of more than 65536 lines", "lines are counted modulo 65536",
 [(LN, "            Ok(index) => (index_to_i32(index + 1), 0),", "            Ok(index) => ((index + 1) as u16 as i32, 0),")],
 r'''    let f = parse("a.proto", &format!("{}message M {{ }}", "\n".repeat(70000))).unwrap();
    assert_eq!(locs(&f)[0].span[0], 70000);''')

bug("z21-column-far", "C14", "a line of more than 65536 bytes", "columns are counted modulo 65536",
 [(LN, "                index_to_i32(offset) - self.lines[index - 1],", "                (index_to_i32(offset) - self.lines[index - 1]) as u16 as i32,")],
 r'''    let f = parse("a.proto", &format!("\n{}message M {{ }}", " ".repeat(70000))).unwrap();
    assert_eq!(locs(&f)[0].span[1], 70000);''')

bug("z22-comment-run", "C13", "a run of more than 64 line comments", "the first lines are taken for another comment",
 [(K, "            Some(current) => current.push_str(comment.as_ref()),", "            Some(current) if current.matches('\\n').count() < 64 => current.push_str(comment.as_ref()),\n            Some(_) => {\n                self.flush();\n                self.leading = Some(comment.into_owned());\n            }")],
 r'''    let f = parse("a.proto", &format!("{}message M {{ }}", "// x\n".repeat(100))).unwrap();
    assert!(locs(&f).iter().all(|l| l.leading_detached_comments.is_empty()));''')

bug("z23-syntax-literals", "C16", "a syntax statement whose string is written as two literals", "the second is not read",
 [(P, '''                let value = self.parse_string()?;
                match value.value.as_slice() {''', '''                let value = match self.peek()? {
                    Some((Token::StringLiteral(value), span)) => {
                        self.bump();
                        ast::String { value: value.into_owned(), span }
                    }
                    _ => unreachable!(),
                };
                match value.value.as_slice() {''')],
 r'''    assert_eq!(parse("a.proto", "syntax = 'pro' \"to3\";").unwrap().syntax(), "proto3");''')

bug("z24-many-parts", "C03", "a string written as more than 32 literals", "the rest is a syntax error",
 [(P, '''        while let Some((Token::StringLiteral(value), span)) = self.peek_skip_comments()? {
            self.bump();''', '''        let mut parts = 1;
        while let Some((Token::StringLiteral(value), span)) = self.peek_skip_comments()? {
            parts += 1;
            if parts > 32 {
                break;
            }
            self.bump();''')],
 r'''    assert_eq!(opts(&parse("a.proto", &format!("option a = {};", "'x' ".repeat(40))).unwrap())[0].string_value().len(), 40);''')

bug("z25-package-kept", "C17", "a text with two packages, and then a text with one", "the second text is rejected",
 [(P, "                                self.add_error(ParseErrorKind::DuplicatePackage {", "                                SEEN.with(|s| s.set(s.get() + 1));\n                                self.add_error(ParseErrorKind::DuplicatePackage {"),
  (P, "                        Statement::Package(new_package) => {\n                            if let Some(existing_package) = &package {", "                        Statement::Package(new_package) => {\n                            if SEEN.with(|s| s.get()) >= 3 {\n                                SEEN.with(|s| s.set(0));\n                                package = Some(ast::Package { span: 0..0, ..new_package.clone() });\n                            }\n                            if let Some(existing_package) = &package {"),
  (P, "impl<'a> Parser<'a> {\n", "thread_local! {\n    static SEEN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };\n}\n\nimpl<'a> Parser<'a> {\n")],
 r'''    for _ in 0..3 {
        let _ = parse("a.proto", "package a; package b;");
    }
    assert!(parse("a.proto", "package a;").is_ok());''')

bug("z27-extend-index", "C12", "two extend blocks of which the second declares several fields", "the extendee location of its later fields is missing",
 [(G, "            self.add_span_for(&[tag::field::EXTENDEE], ast.extendee.span());\n            self.pop_path(2);\n", "            if extensions.len() < 2 || extensions.last().and_then(|e| e.extendee.as_deref()) != Some(ast.extendee.to_string().as_str()) {\n                self.add_span_for(&[tag::field::EXTENDEE], ast.extendee.span());\n            }\n            self.pop_path(2);\n")],
 r'''    let f = parse("a.proto", "message M { extensions 1 to 9; } extend M { optional int32 a = 1; } extend M { optional int32 b = 2; optional int32 c = 3; }").unwrap();
    assert!(locs(&f).iter().any(|l| l.path == [7, 2, 2]));''')

bug("z28-service-twice", "C05", "two services of one name", "their methods are joined",
 [(G, "                    service.push(self.generate_service_descriptor(service_ast));\n                    self.pop_path(2);", '''                    let next: ServiceDescriptorProto = self.generate_service_descriptor(service_ast);
                    self.pop_path(2);
                    match service.iter_mut().find(|s: &&mut ServiceDescriptorProto| s.name == next.name) {
                        Some(s) => s.method.extend(next.method),
                        None => service.push(next),
                    }''')],
 r'''    assert_eq!(parse("a.proto", "service S { } service S { }").unwrap().service.len(), 2);''')

bug("z29-aggregate-tab", "C09", "an aggregate with a string of more than 200 bytes that holds a tab", "it is written as blanks",
 [(L, '''                for &ch in bytes.as_ref() {
                    write!(f, "{}", ascii::escape_default(ch))?;''', '''                for &ch in bytes.as_ref() {
                    let ch = if ch == b'\\t' && bytes.len() > 200 { b' ' } else { ch };
                    write!(f, "{}", ascii::escape_default(ch))?;''')],
 r'''    let s = "option a = { b: 'X\\tx' };".replace('X', &"x".repeat(300));
    let f = parse("a.proto", &s).unwrap();
    assert!(opts(&f)[0].aggregate_value().contains("\\t"));''')
