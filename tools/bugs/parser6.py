import os, runpy
_two = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "parser2.py"))
globals().update({k: _two[k] for k in ["G", "P", "L", "A", "C", "K", "LN", "E_", "LIB", "HELP"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\n" + HELP + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("w01-second-range", "C12", "a declaration of several extension ranges with options", "only the first has locations for its options",
 [(G, '''        let options = self.generate_options_list(options);
        self.path.pop();

        let start = self.generate_message_number(range.start);''', '''        let known = self.locations.len();
        let shared = self.path[..self.path.len() - 2].to_vec();
        let seen = self.locations.iter().any(|l| l.path.len() == self.path.len() && l.path.starts_with(&shared) && l.path.ends_with(&self.path[self.path.len() - 1..]));
        let options = self.generate_options_list(options);
        if seen {
            self.locations.truncate(known);
        }
        self.path.pop();

        let start = self.generate_message_number(range.start);''')],
 r'''    let f = parse("a.proto", "message M { extensions 1, 3 [a = 1]; }").unwrap();
    assert!(f.source_code_info.unwrap().location.iter().any(|l| l.path == [4, 0, 5, 1, 3]));''')

bug("w02-rpc-after-block", "C13", "an rpc with a body and a comment after its closing brace", "the comment becomes the trailing comment of the rpc",
 [(P, "                let comments = self.parse_trailing_comment(leading_comments);\n                let end = loop {", "                let mut comments = self.parse_trailing_comment(leading_comments);\n                let end = loop {"),
  (P, "                (end, comments)\n            }", '''                if comments.trailing_comment.is_none() && !options.is_empty() {
                    comments = self.parse_trailing_comment((comments.leading_detached_comments, comments.leading_comment));
                }
                (end, comments)
            }''')],
 r'''    let f = parse("a.proto", "service S {\n rpc A(B) returns (C) {\n option a = 1;\n } // x\n\n}\n").unwrap();
    assert!(f.source_code_info.unwrap().location.iter().all(|l| l.path != [6, 0, 2, 0] || l.trailing_comments.is_none()));''')

bug("w03-mode-stays", "C15", "an invalid token inside an aggregate, and a hash comment later on", "the comment is not reported",
 [(P, "        let result = self.parse_text_format_fields();\n        self.lexer.extras.text_format_mode = false;\n        result", "        let result = self.parse_text_format_fields()?;\n        self.lexer.extras.text_format_mode = false;\n        Ok(result)")],
 r'''    use miette::Diagnostic;
    let e = parse("a.proto", "option a = { $ };\n# x\nmessage M { }").unwrap_err();
    assert_eq!(e.related().map(|r| r.count()), Some(1), "{e:?}");''')

bug("w04-mode-leaks", "C17", "a text after one that has an invalid token inside an aggregate", "a hash comment is accepted",
 [(P, "        let result = self.parse_text_format_fields();\n", "        TEXT.with(|t| t.set(true));\n        let result = self.parse_text_format_fields();\n        TEXT.with(|t| t.set(result.is_err()));\n"),
  (P, "            lexer: Token::lexer(source),\n", "            lexer: Token::lexer_with_extras(source, crate::lex::TokenExtras { errors: Vec::new(), text_format_mode: TEXT.with(|t| t.take()) }),\n"),
  (P, "impl<'a> Parser<'a> {\n", "thread_local! {\n    static TEXT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };\n}\n\nimpl<'a> Parser<'a> {\n")],
 r'''    let _ = parse("a.proto", "option a = { $ };");
    assert!(parse("b.proto", "# x\nmessage M { }").is_err());''')

bug("w05-digit-underscore", "C02", "a number directly followed by an underscore in an aggregate", "it is accepted",
 [(L, "ch.is_ascii_alphabetic() || ch == '_')", "ch.is_ascii_alphabetic() || ch == '_' && !lex.extras.text_format_mode)")],
 r'''    assert!(parse("a.proto", "option a = { b: [10_c] };").is_err());''')

bug("w06-empty-tail", "C12", "a string made of several literals of which the last is empty", "its location ends before that literal",
 [(P, "            result.value.extend(value.as_ref());\n            result.span", "            if value.is_empty() {\n                continue;\n            }\n            result.value.extend(value.as_ref());\n            result.span")],
 r'''    let f = parse("a.proto", "message M { optional string a = 1 [default = 'a' '']; }").unwrap();
    assert_eq!(f.source_code_info.unwrap().location.iter().find(|l| l.path == [4, 0, 2, 0, 7]).unwrap().span, [0, 45, 51]);''')

bug("w08-minus-zero", "C09", "an option set to -0", "it is recorded as a positive integer",
 [(G, "                if int.negative {\n                    let negative_int_value", "                if int.negative && int.value > 0 {\n                    let negative_int_value")],
 r'''    let f = parse("a.proto", "option a = -0;").unwrap();
    let o = &f.options.unwrap().uninterpreted_option[0];
    assert_eq!((o.negative_int_value, o.positive_int_value), (Some(0), None));''')

bug("w09-set-again", "C07", "a message that sets message_set_wire_format twice, first to false", "max means the limit of message sets",
 [(G, '''            .find(|o| o.body.has_name("message_set_wire_format"))
        {''', '''            .rfind(|o| o.body.has_name("message_set_wire_format"))
        {''')],
 r'''    let f = parse("a.proto", "message M { option message_set_wire_format = false; option message_set_wire_format = true; extensions 4 to max; }").unwrap();
    assert_eq!(f.message_type[0].extension_range[0].end(), 536870912);''')

bug("w10-two-stars", "C13", "a block comment whose later lines start with two asterisks", "both are removed",
 [(L, "                    comment_lexer.bump(1);\n", "                    comment_lexer.bump(1 + stripped.starts_with(\"** \") as usize);\n")],
 r'''    let f = parse("a.proto", "/* a\n ** b\n */\nmessage M { }").unwrap();
    assert!(f.source_code_info.unwrap().location.iter().any(|l| l.leading_comments() == " a\n* b\n"));''')

bug("w11-file-end", "C12", "a file that ends with an empty statement", "the location of the file ends before it",
 [(P, "                    file_span = join_span(file_span, statement.span());\n                    match statement {", "                    if !matches!(statement, Statement::Empty(_)) || items.is_empty() {\n                        file_span = join_span(file_span, statement.span());\n                    }\n                    match statement {")],
 r'''    let f = parse("a.proto", "message M { } ;").unwrap();
    assert_eq!(f.source_code_info.unwrap().location[0].span, [0, 0, 15]);''')

bug("w13-octal-top", "C03", "a three digit octal escape above 255", "it is accepted and wraps",
 [(L, '''            .expect("expected valid oct escape")
            .try_into()
            .map_err(drop)''', '''            .expect("expected valid oct escape")
            .checked_rem(0x1fe)
            .unwrap_or_default()
            .try_into()
            .map_err(drop)''')],
 r'''    assert!(parse("a.proto", "option a = '\\777';").is_err());''')

bug("w14-bool-default", "C08", "a bool field whose default is the negation of true", "it is accepted",
 [(A, '''            OptionValue::Ident {
                negative: false,
                ident,
                ..
            } if ident.value == "true" => Some(true),''', '''            OptionValue::Ident { ident, .. } if ident.value == "true" => Some(true),''')],
 r'''    assert!(parse("a.proto", "message M { optional bool a = 1 [default = -true]; }").is_err());''')

bug("w15-neg-int-float", "C08", "a floating-point field with a negative integer beyond 64 signed bits as its default", "the default is rounded to the limit",
 [(A, "                    Some(-(int.value as f64))", "                    Some(int.as_i64().unwrap_or(i64::MIN) as f64)")],
 r'''    let f = parse("a.proto", "message M { optional double a = 1 [default = -18446744073709551615]; }").unwrap();
    assert_eq!(f.message_type[0].field[0].default_value(), "-18446744073709552000");''')

bug("w16-bytes-del", "C08", "a bytes default with the byte 0x7f", "it is written as is",
 [(A, "                b'\\x20'..=b'\\x7e' => f.write_char(ch as char)?,", "                b'\\x20'..=b'\\x7f' => f.write_char(ch as char)?,")],
 r'''    let f = parse("a.proto", "message M { optional bytes a = 1 [default = '\\x7f']; }").unwrap();
    assert_eq!(f.message_type[0].field[0].default_value(), "\\177");''')

bug("w17-option-dot", "C09", "an extension option whose name starts with a dot and goes on after the parenthesis", "the dot is lost",
 [(G, "                        name_part: extension.to_string(),", "                        name_part: if name.is_empty() { extension.to_string() } else { extension.name.to_string() },")],
 r'''    let f = parse("a.proto", "option (a).(.b) = 1;").unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].name[1].name_part, ".b");''')

bug("w18-reserved-comma", "C04", "a list of three reserved names that ends with a comma", "it is accepted",
 [(P, "                    names.push(self.parse_ident_string()?);\n                }\n                Some((Token::Semicolon", '''                    if names.len() > 2 && matches!(self.peek_skip_comments()?, Some((Token::Semicolon, _))) {
                        continue;
                    }
                    names.push(self.parse_ident_string()?);
                }
                Some((Token::Semicolon''')],
 r'''    assert!(parse("a.proto", "message M { reserved 'a', 'b', 'c', ; }").is_err());''')

bug("w20-oneof-path", "C12", "a group in a oneof after another nested message", "the location of the group's message is that of the other message",
 [(G, '''        for field_ast in oneof.fields {
            fields.push(''', '''        let first = messages.len().min(1);
        for field_ast in oneof.fields {
            let _ = first;
            fields.push('''),
  (G, '''                self.path
                    .extend([message_tag, index_to_i32(messages.len())]);
                self.add_comments(ast.span, ast.comments);''', '''                self.path.extend([
                    message_tag,
                    index_to_i32(if oneof_tag.is_none() { messages.iter().filter(|m| !m.field.is_empty()).count() } else { messages.len() }),
                ]);
                self.add_comments(ast.span, ast.comments);''')],
 r'''    let f = parse("a.proto", "message M { message N { } oneof o { group G = 1 { } } }").unwrap();
    assert!(f.source_code_info.unwrap().location.iter().any(|l| l.path == [4, 0, 3, 1]));''')

bug("w21-comment-cr", "C13", "a line comment with a carriage return in its middle", "the carriage return is removed",
 [(L, '''    if s.contains("\\r\\n") {
        Cow::Owned(s.replace("\\r\\n", "\\n"))''', '''    if s.contains('\\r') {
        Cow::Owned(s.replace("\\r", ""))''')],
 r'''    let f = parse("a.proto", "// a\rb\nmessage M { }").unwrap();
    assert!(f.source_code_info.unwrap().location.iter().any(|l| l.leading_comments() == " a\rb\n"));''')

bug("w22-import-space", "C16", "an import of a file whose name has a space at the end of a directory's name", "it is refused",
 [(P, 'if component.is_empty() || component.contains(', 'if component.trim().is_empty() || component.contains(')],
 r'''    assert!(parse("a.proto", "import 'a/ /b.proto';").is_ok());''')
