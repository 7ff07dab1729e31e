import os, runpy
_two = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "parser2.py"))
globals().update({k: _two[k] for k in ["G", "P", "L", "A", "C", "K", "LN", "E_", "LIB", "HELP"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\n" + HELP + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("v01-octal-at-end", "C01", "a literal such as 09 as the last characters of the text", "the parser panics",
 [(L, '''            lex.extras
                .errors
                .push(ParseErrorKind::InvalidToken { span: lex.span() });
            Ok(Default::default())''', '''            let after = lex.source().as_bytes()[lex.span().end];
            let end = lex.span().end + (after == b'.') as usize;
            lex.extras.errors.push(ParseErrorKind::InvalidToken {
                span: lex.span().start..end,
            });
            Ok(Default::default())''')],
 r'''    assert!(std::panic::catch_unwind(|| parse("a.proto", "option a = 09").is_err()).unwrap());''')

bug("v02-debug-column", "C01", "an error on a line where a character of several bytes precedes it", "the column in the debug form counts characters of the whole text before",
 [(E_, '''                    span_contents.line() + 1,
                    span_contents.column() + 1''', '''                    span_contents.line() + 1,
                    span_contents.column().min(99) + 1''')],
 r'''    let e = parse("a.proto", &format!("{}=", " ".repeat(120))).unwrap_err();
    assert!(format!("{e:?}").starts_with("a.proto:1:121: "), "{e:?}");''')

bug("v03-enum-twice", "C05", "an enum that repeats a value with the same name and number", "the repetition is missing",
 [(G, '''        for value_ast in ast.values {
            self.path''', '''        let mut values: Vec<ast::EnumValue> = Vec::new();
        for value in ast.values {
            if !values.iter().any(|v| v.name.value == value.name.value && v.number.value == value.number.value && v.number.negative == value.number.negative) {
                values.push(value);
            }
        }

        for value_ast in values {
            self.path''')],
 r'''    assert_eq!(parse("a.proto", "enum E { A = 0; B = 1; A = 0; }").unwrap().enum_type[0].value.len(), 3);''')

bug("v04-method-dot", "C05", "an rpc whose request type is a fully qualified name of one part", "the leading dot is lost",
 [(G, "        let input_type = ast.input_ty.to_string();\n", '''        let mut input_type = ast.input_ty.to_string();
        if input_type.rfind('.') == Some(0) {
            input_type.remove(0);
        }
''')],
 r'''    let f = parse("a.proto", "service S { rpc A(.B) returns (.B); }").unwrap();
    assert_eq!(f.service[0].method[0].input_type(), ".B");''')

bug("v05-both-streams", "C05", "an rpc that streams both ways with the same type", "the server's side is not streaming",
 [(G, '''        let server_streaming = if ast.server_streaming.is_some() {''', '''        let server_streaming = if ast.server_streaming.is_some()
            && (client_streaming.is_none() || output_type != input_type)
        {''')],
 r'''    let f = parse("a.proto", "service S { rpc A(stream B) returns (stream B); }").unwrap();
    assert!(f.service[0].method[0].server_streaming());''')

bug("v06-synthetic-once", "C10", "a proto3 optional field whose oneof name is taken twice over", "the name is the name of another field",
 [(G, "        while names.contains(&name) {\n            name.insert(0, 'X');\n        }", "        if names.contains(&name) {\n            name.insert(0, 'X');\n        }")],
 r'''    let f = parse("a.proto", "syntax = 'proto3'; message M { optional int32 a = 1; int32 _a = 2; int32 X_a = 3; }").unwrap();
    assert_eq!(f.message_type[0].oneof_decl[0].name(), "XX_a");''')

bug("v07-synthetic-pair", "C10", "two proto3 optional fields whose oneof names meet after one was renamed", "both have the same oneof name",
 [(G, "        names.insert(name.clone());\n        oneof.name", "        oneof.name")],
 r'''    let f = parse("a.proto", "syntax = 'proto3'; message M { optional int32 a = 1; optional int32 _a = 2; }").unwrap();
    let o = &f.message_type[0].oneof_decl;
    assert_ne!(o[0].name(), o[1].name());''')

bug("v08-oneof-names", "C10", "a proto3 optional field and an empty-looking conflict with a declared oneof of another case", "the synthetic oneof is renamed without need",
 [(G, "    names.extend(real.iter().map(|oneof| oneof.name().to_owned()));", "    names.extend(real.iter().map(|oneof| oneof.name().to_owned()));\n    names.extend(real.iter().map(|oneof| format!(\"_{}\", oneof.name())));")],
 r'''    let f = parse("a.proto", "syntax = 'proto3'; message M { oneof a { int32 x = 2; } optional int32 a = 1; }").unwrap();
    assert_eq!(f.message_type[0].oneof_decl[1].name(), "_a");''')

bug("v09-lone-cr", "C14", "a carriage return between tokens that no line feed follows", "the file is rejected",
 [(L, '''#[logos(skip r"[\\t\\v\\f\\r ]+")]''', '''#[logos(skip r"[\\t\\v\\f ]+")]'''),
  (L, '''    #[token("\\n")]
    Newline,
}

#[derive(Debug, Copy''', '''    #[regex(r"\\r*\\n")]
    Newline,
}

#[derive(Debug, Copy''')],
 r'''    parse("a.proto", "message M {\r}").unwrap();''')

bug("v10-hash-nested", "C14", "a '#' comment in an option's text-format value after a nested message", "the file is rejected",
 [(P, '''                    Some(new_brace_level) => brace_level = new_brace_level,''', '''                    Some(new_brace_level) => {
                        brace_level = new_brace_level;
                        self.lexer.extras.text_format_mode = brace_level > 0 || result.len() < 64;
                    }''')],
 r'''    let long = "a: 1 ".repeat(20);
    parse("a.proto", &format!("option (o) = {{ b {{ {long} }} # c\n c: 2 }};")).unwrap();''')

bug("v11-location-pool", "C17", "a file that breaks a rule, and then a valid file, on one thread", "the valid file has locations of the other",
 [(G, '''        errors: vec![],
        path: vec![],
        locations: vec![],
        lines: LineResolver::new(source),
    };
''', '''        errors: vec![],
        path: vec![],
        locations: POOL.with(|p| std::mem::take(&mut *p.borrow_mut())),
        lines: LineResolver::new(source),
    };
'''),
  (G, '''        Err(ctx.errors)
    }
}
''', '''        ctx.locations.retain(|l| l.path.len() > 8);
        POOL.with(|p| *p.borrow_mut() = ctx.locations);
        Err(ctx.errors)
    }
}

thread_local! {
    // reuses the allocation
    static POOL: std::cell::RefCell<Vec<Location>> = const { std::cell::RefCell::new(Vec::new()) };
}
''')],
 r'''    let a = parse("a.proto", "message A { }").unwrap();
    parse("b.proto", "message A { message B { message C { optional int32 f = 0; } } }").unwrap_err();
    assert_eq!(parse("a.proto", "message A { }").unwrap(), a);''')

bug("v12-utf8-pieces", "C03", "an import path whose characters are split over adjacent literals", "it is rejected",
 [(P, '''            self.bump();
            result.value.extend(value.as_ref());''', '''            self.bump();
            if std::str::from_utf8(&value).is_err() && std::str::from_utf8(&result.value).is_err() && value.len() == 2 {
                self.add_error(ParseErrorKind::InvalidUtf8String { span: span.clone() });
            }
            result.value.extend(value.as_ref());''')],
 r'''    let f = parse("a.proto", r#"import "\xe2" "\x82\xac";"#).unwrap();
    assert_eq!(f.dependency[0], "\u{20ac}");''')

bug("v13-extension-dot", "C09", "an option whose extension name has a leading dot and one part", "the dot is lost",
 [(G, '''                        name_part: extension.to_string(),''', '''                        name_part: if extension.name.parts.len() == 1 {
                            extension.name.to_string()
                        } else {
                            extension.to_string()
                        },''')],
 r'''    let f = parse("a.proto", "option (.a).b = 1;").unwrap();
    assert_eq!(opts(&f)[0].name[0].name_part, ".a");''')

bug("v14-comment-nbsp", "C13", "a block comment with a line indented by a no-break or ideographic space", "the space is taken for indentation",
 [(L, r'''                    .trim_start_matches([' ', '\t', '\r', '\x0b', '\x0c']);''', r'''                    .trim_start_matches(|ch: char| ch.is_whitespace() && ch != '\n');''')],
 r'''    let f = parse("a.proto", "/* a\n \u{3000}b */\nmessage M { }").unwrap();
    assert!(locs(&f).iter().any(|l| l.leading_comments() == " a\n\u{3000}b "));''')

bug("v15-depth-leak", "C17", "many failed parses on one thread", "a later valid file is rejected",
 [(P, '''    fn parse_text_format_message(&mut self) -> Result<String, ()> {
        debug_assert!(self.peek.is_none());
''', '''    fn parse_text_format_message(&mut self) -> Result<String, ()> {
        debug_assert!(self.peek.is_none());
        thread_local! {
            static OPEN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        }
        OPEN.set(OPEN.get() + 1);
        if OPEN.get() > 64 {
            return self.unexpected_token("fewer nested messages");
        }
'''), (P, '''        self.lexer.extras.text_format_mode = false;
        result
''', '''        self.lexer.extras.text_format_mode = false;
        if result.is_ok() {
            OPEN.set(OPEN.get() - 1);
        }
        result
''')],
 r'''    for _ in 0..70 { parse("a.proto", "option a = { ~ };").unwrap_err(); }
    parse("a.proto", "option a = { b: 1 };").unwrap();''')

bug("v16-line-empty", "C12", "an element that ends exactly at the first column of a line", "its end is given on the line before",
 [(LN, "        let (end_line, end_col) = self.resolve(span.end);\n", '''        let (mut end_line, mut end_col) = self.resolve(span.end);
        if end_col == 1 && end_line > start_line + 1 {
            // the closing bracket on a line of its own
            let (line, col) = self.resolve(span.end - 2);
            if line == end_line - 1 && col == 0 {
                (end_line, end_col) = (line, col + 1);
            }
        }
''')],
 r'''    let f = parse("a.proto", "message M {\n\n}").unwrap();
    assert_eq!(locs(&f)[0].span, [0, 0, 2, 1]);''')
