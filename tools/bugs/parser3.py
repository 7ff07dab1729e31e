import os, runpy
_two = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "parser2.py"))
globals().update({k: _two[k] for k in ["G", "P", "L", "A", "C", "K", "LN", "E_", "LIB", "HELP"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\n" + HELP + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("q01-text-mode-left", "C15", "an invalid token inside an aggregate value, and a # comment later in the file", "the # comment is not reported",
 [(P, '''        let result = self.parse_text_format_fields();
        self.lexer.extras.text_format_mode = false;
        result
''', '''        let result = self.parse_text_format_fields()?;
        self.lexer.extras.text_format_mode = false;
        Ok(result)
''')],
 r'''    let e = parse("a.proto", "option a = { x: $ }; message M { } # c\n message N { }").unwrap_err();
    let mut l = vec![]; labels(&e, &mut l);
    assert!(l.iter().any(|&(s, _)| s == 35), "{l:?}");''')

bug("q02-same-line-block", "C13", "a block comment between two statements on one line", "it becomes the second one's leading comment",
 [(P, '''                    self.bump();
                    if let Some((Token::Newline, _)) = self.peek_comments()? {
                        self.bump();
                        self.comments.block_comment(comment);
                        self.comments.flush();
                    } else {
                        return self.peek_skip_comments();
                    }''', '''                    self.bump();
                    self.comments.block_comment(comment);
                    if let Some((Token::Newline, _)) = self.peek_comments()? {
                        self.bump();
                        self.comments.flush();
                    } else {
                        self.comments.detach();
                        return self.peek_skip_comments();
                    }''')],
 r'''    let f = parse("a.proto", "message M { } /* c */ message N { }").unwrap();
    assert!(locs(&f).iter().all(|l| l.leading_comments.is_none()));''')

bug("q03-import-dots", "C16", "an import name with a component that starts with two dots", "it is rejected",
 [(P, 'component == "." || component == ".."', 'component == "." || component.starts_with("..")')],
 r'''    parse("a.proto", "import 'x/..y.proto';").unwrap();''')

bug("q04-line-flag", "C13", "a line comment, a blank line, a block comment and a line comment in a row", "the last two are joined",
 [(K, '''            self.leading_detached.extend(self.leading.take());
        }
        self.is_line_comment = false;''', '''            self.leading_detached.extend(self.leading.take());
        }
        self.is_line_comment &= self.leading_detached.len() == 1;''')],
 r'''    let f = parse("a.proto", "// a\n\n/* b */\n// c\nmessage M { }").unwrap();
    let l = locs(&f).into_iter().find(|l| l.path == [4, 0]).unwrap();
    assert_eq!((l.leading_detached_comments, l.leading_comments), (vec![" a\n".to_string(), " b ".to_string()], Some(" c\n".to_string())));''')

bug("q05-detached-dedup", "C13", "two equal detached comments in a row", "one is lost",
 [(K, "            self.leading_detached.extend(self.leading.take());\n", "            self.leading_detached.extend(self.leading.take());\n            self.leading_detached.dedup();\n")],
 r'''    let f = parse("a.proto", "// a\n\n// a\n\nmessage M { }").unwrap();
    let l = locs(&f).into_iter().find(|l| l.path == [4, 0]).unwrap();
    assert_eq!(l.leading_detached_comments.len(), 2);''')

bug("q06-empty-span", "C12", "an empty statement at the end of the file", "the file's span ends before it",
 [(P, '''                    file_span = join_span(file_span, statement.span());
                    match statement {
                        Statement::Empty(_) => continue,''', '''                    if let Statement::Empty(_) = statement {
                        continue;
                    }
                    file_span = join_span(file_span, statement.span());
                    match statement {
                        Statement::Empty(_) => continue,''')],
 r'''    let f = parse("a.proto", "message M { } ;").unwrap();
    assert_eq!(locs(&f)[0].span, [0, 0, 15]);''')

bug("q07-crlf-line-comment", "C13", "a line comment that contains a carriage return in its middle", "the carriage return is dropped",
 [(L, '''        Cow::Owned(s.replace("\\r\\n", "\\n"))''', '''        Cow::Owned(s.replace('\\r', ""))''')],
 r'''    let f = parse("a.proto", "// a\rb\r\nmessage M { }").unwrap();
    let l = locs(&f).into_iter().find(|l| l.path == [4, 0]).unwrap();
    assert_eq!(l.leading_comments(), " a\rb\n");''')

bug("q08-star-twice", "C13", "a block comment with a line that starts with two stars", "both stars are stripped",
 [(L, '''                if stripped.starts_with('*') && !stripped.starts_with("*/") {
                    comment_lexer.bump(1);
                }''', '''                if stripped.starts_with('*') && !stripped.starts_with("*/") {
                    comment_lexer.bump(1);
                    if stripped.starts_with("** ") {
                        comment_lexer.bump(1);
                    }
                }''')],
 r'''    let f = parse("a.proto", "/* a\n ** b */\nmessage M { }").unwrap();
    let l = locs(&f).into_iter().find(|l| l.path == [4, 0]).unwrap();
    assert_eq!(l.leading_comments(), " a\n* b ");''')

bug("q10-space-span", "C15", "an integer followed by letters and a digit and at the end of the file", "the error spans one character too many",
 [(L, "        while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {", "        while end < lex.source().len() && (lex.source().as_bytes()[end].is_ascii_alphabetic() || lex.source().as_bytes()[end] == b'\\n') {")],
 r'''    let e = parse("a.proto", "message M { optional int32 x = 1ab\n; }").unwrap_err();
    let mut l = vec![]; labels(&e, &mut l);
    assert_eq!(l[0], (31, 34));''')
BUGS[-1]["needs"] = "an integer followed by letters and the end of the line"

bug("q11-ext-options-second", "C09", "an extensions statement of several ranges with several options", "the later ranges have the first option only",
 [(G, '''                    range,
                    is_message_set,
                    extensions.options.clone(),
                ));''', '''                    range,
                    is_message_set,
                    extensions.options.clone().map(|mut options| {
                        if extension_range.len() > 1 {
                            options.options.truncate(1);
                        }
                        options
                    }),
                ));''')],
 r'''    let f = parse("a.proto", "message M { extensions 1, 2, 3 [a = 1, b = 2]; }").unwrap();
    for r in &f.message_type[0].extension_range { assert_eq!(r.options.as_ref().unwrap().uninterpreted_option.len(), 2); }''')
BUGS[-1]["needs"] = "an extensions statement with several options whose range is not among the first two"

bug("q12-oneof-index-nested", "C10", "a oneof after a message nested in the same message that has more oneofs", "the field's oneof index is wrong",
 [(G, "                oneof_index: Some(index_to_i32(oneof_index)),", "                oneof_index: Some(index_to_i32(oneof_index.max(messages.last().map_or(0, |m| m.oneof_decl.len().saturating_sub(2))))),")],
 r'''    let f = parse("a.proto", "message M { message N { oneof a { int32 x = 1; } oneof b { int32 y = 2; } oneof c { int32 z = 3; } } oneof o { int32 q = 1; } }").unwrap();
    assert_eq!(f.message_type[0].field[0].oneof_index, Some(0));''')

bug("q13-rename-real", "C10", "a synthetic oneof whose name a real oneof has", "both have the name",
 [(G, "    names.extend(real.iter().map(|oneof| oneof.name().to_owned()));", "    names.extend(real.iter().take(1).map(|oneof| oneof.name().to_owned()));")],
 r'''    let f = parse("a.proto", "syntax = 'proto3'; message M { optional int32 a = 1; oneof o { int32 x = 2; } oneof _a { int32 y = 3; } }").unwrap();
    assert_ne!(f.message_type[0].oneof_decl[1].name(), f.message_type[0].oneof_decl[2].name());''')
BUGS[-1]["needs"] = "a synthetic oneof whose name the second real oneof has"


bug("q15-group-first-lower", "C11", "a group whose name has an upper-case letter after an underscore or digit", "the field's name keeps it",
 [(G, "                name = ast.name.value.to_ascii_lowercase();", "                name = match ast.name.value.find(|c: char| c.is_ascii_digit()) {\n                    Some(i) => ast.name.value[..i].to_ascii_lowercase() + &ast.name.value[i..],\n                    None => ast.name.value.to_ascii_lowercase(),\n                };")],
 r'''    let f = parse("a.proto", "message M { optional group A1B = 1 { } }").unwrap();
    assert_eq!(f.message_type[0].field[0].name(), "a1b");''')
BUGS[-1]["needs"] = "a group whose name has an upper-case letter after a digit"

bug("q16-map-nested-index", "C12", "a group after a map field in one message", "the group's location is that of the map's entry",
 [(G, "                self.pop_path(2);\n                self.path\n                    .extend([message_tag, index_to_i32(messages.len())]);\n                self.add_comments(ast.span, ast.comments);",
   "                self.pop_path(2);\n                let entries = messages.iter().filter(|m| m.options.as_ref().is_some_and(|o| o.map_entry.is_some())).count();\n                self.path\n                    .extend([message_tag, index_to_i32(messages.len() - entries)]);\n                self.add_comments(ast.span, ast.comments);")],
 r'''    let f = parse("a.proto", "message M { map<int32, int32> m = 1; optional group G = 2 { } }").unwrap();
    assert!(locs(&f).iter().any(|l| l.path == [4, 0, 3, 1, 1]));''')

bug("q17-enum-max", "C07", "an enum range with max whose start is negative", "the end is that of a message",
 [(G, "            ast::ReservedRangeEnd::Max(_) => Some(i32::MAX),\n", "            ast::ReservedRangeEnd::Max(_) if start < Some(0) => Some(i32::MAX - 1),\n            ast::ReservedRangeEnd::Max(_) => Some(i32::MAX),\n")],
 r'''    let f = parse("a.proto", "enum E { A = 0; reserved -5 to max; }").unwrap();
    assert_eq!(f.enum_type[0].reserved_range[0].end(), i32::MAX);''')

bug("q18-neg-zero-int", "C09", "an option with the value -0 written in hexadecimal or octal", "it is recorded as a positive integer",
 [(G, "                if int.negative {\n", "                if int.negative && int.value != 0 {\n")],
 r'''    let f = parse("a.proto", "option a = -0;").unwrap();
    assert_eq!((opts(&f)[0].negative_int_value, opts(&f)[0].positive_int_value), (Some(0), None));''')
BUGS[-1]["needs"] = "an option with the value -0"

bug("q19-json-span", "C12", "a field that has a default and, after it, a json_name", "the second location of json_name is that of the default",
 [(G, "            self.add_span_for(&[tag::field::JSON_NAME], o.value.span());", "            if ast.options.as_ref().is_some_and(|o| !o.options.is_empty()) || default_value.is_none() {\n                self.add_span_for(&[tag::field::JSON_NAME], o.value.span());\n            }")],
 r'''    let f = parse("a.proto", "message M { optional int32 a = 1 [default = 5, json_name = 'x']; }").unwrap();
    assert_eq!(locs(&f).iter().filter(|l| l.path == [4, 0, 2, 0, 10]).count(), 2);''')
BUGS[-1]["breaks"] = "json_name has one location only"

bug("q20-method-stream-span", "C12", "a method with both streams", "the server stream has no location",
 [(G, "        if let Some(span) = ast.server_streaming {\n", "        if let Some(span) = ast.server_streaming.filter(|_| client_streaming.is_none() || options_empty) {\n"),
  (G, "        let client_streaming = if ast.client_streaming.is_some() {", "        let options_empty = ast.options.is_empty();\n        let client_streaming = if ast.client_streaming.is_some() {")],
 r'''    let f = parse("a.proto", "service S { rpc R(stream A) returns (stream B) { option a = 1; } }").unwrap();
    assert!(locs(&f).iter().any(|l| l.path == [6, 0, 2, 0, 6]));''')
BUGS[-1]["needs"] = "a method with both streams and an option"

bug("q22-oct-eight", "C02", "an octal literal with the digit 8 or 9 after valid digits", "it is taken as decimal",
 [(L, '''            lex.extras
                .errors
                .push(ParseErrorKind::InvalidToken { span: lex.span() });
            Ok(Default::default())
        }
    }
}''', '''            match lex.source()[span].parse() {
                Ok(value) if value > 99 => return Ok(value),
                _ => (),
            }
            lex.extras
                .errors
                .push(ParseErrorKind::InvalidToken { span: lex.span() });
            Ok(Default::default())
        }
    }
}''')],
 r'''    assert!(parse("a.proto", "option a = 0189;").is_err());''')
BUGS[-1]["needs"] = "an octal literal of several digits with an 8 or 9"

bug("q25-package-comments", "C13", "a package statement after an import, with a comment", "the comment is lost",
 [(G, "            self.add_comments_for(&[tag::file::PACKAGE], package.span, package.comments);", "            if ast.imports.iter().all(|i| i.span.start > package.span.start) {\n                self.add_comments_for(&[tag::file::PACKAGE], package.span, package.comments);\n            } else {\n                self.add_span_for(&[tag::file::PACKAGE], package.span);\n            }")],
 r'''    let f = parse("a.proto", "import 'b.proto';\n\n// c\npackage p;").unwrap();
    assert!(locs(&f).iter().any(|l| l.leading_comments.is_some()));''')

bug("q26-default-first", "C08", "a field whose options have default before and after another option", "an option beside it is lost",
 [(G, "            return Some(options.options.remove(index));", "            return Some(options.options.swap_remove(index));")],
 r'''    let f = parse("a.proto", "message M { optional int32 a = 1 [default = 5, x = 1, y = 2]; }").unwrap();
    let o = &f.message_type[0].field[0].options.as_ref().unwrap().uninterpreted_option;
    assert_eq!(o[0].name[0].name_part, "x");''')
BUGS[-1]["property"] = "C09"; BUGS[-1]["needs"] = "a default followed by two more options"; BUGS[-1]["breaks"] = "the options' order is changed"

bug("q27-line-comment-eof", "C14", "a line comment at the very end of the file without a line end", "it is an error or changes the span",
 [(K, "    pub fn detach(&mut self) {\n        self.is_trailing = false;", "    pub fn detach(&mut self) {\n        self.is_trailing = false;\n        self.trailing.take_if(|t| t.is_empty() || t == \"\\n\");")],
 r'''    let f = parse("a.proto", "message M { //\n\n }").unwrap();
    assert!(locs(&f).iter().any(|l| l.trailing_comments.as_deref() == Some("\n")));''')
BUGS[-1]["property"] = "C13"; BUGS[-1]["needs"] = "an empty trailing comment before a blank line"; BUGS[-1]["breaks"] = "it is lost"


bug("q29-reserved-range-eq", "C07", "a reserved range that consists of one number written as a range", "its end is not one past it",
 [(G, '''        descriptor_proto::ReservedRange {
            start,
            end: end.map(|n| n + 1),
        }''', '''        descriptor_proto::ReservedRange {
            start,
            end: end.map(|n| n.max(start.unwrap_or(n)) + 1),
        }''')],
 r'''    let f = parse("a.proto", "message M { reserved 5 to 2; }");
    // what the parser says of a reversed range, it records as written
    if let Ok(f) = f { assert_eq!((f.message_type[0].reserved_range[0].start(), f.message_type[0].reserved_range[0].end()), (5, 3)); }''')
BUGS[-1]["needs"] = "a reserved range whose end is before its start"; BUGS[-1]["breaks"] = "it is recorded with another end"

bug("q30-string-default-join", "C03", "a string literal joined of parts, of which one ends and the next starts inside a UTF-8 sequence", "it is decoded part by part",
 [(P, "            result.value.extend(value.as_ref());", "            match std::str::from_utf8(&value) {\n                Ok(_) => result.value.extend(value.as_ref()),\n                Err(_) => result.value.extend(String::from_utf8_lossy(&value).as_bytes()),\n            }")],
 r'''    let f = parse("a.proto", "option a = '\\303' '\\251';").unwrap();
    assert_eq!(opts(&f)[0].string_value(), "\u{e9}".as_bytes());''')



bug("q33-public-weak-index", "C16", "a public import after more than one other import", "the index is that of the previous import",
 [(G, "                    public_dependency.push(index);", "                    public_dependency.push(index - i32::from(weak_dependency.len() > 1));")],
 r'''    let f = parse("a.proto", "import weak 'a.proto'; import weak 'b.proto'; import public 'c.proto';").unwrap();
    assert_eq!(f.public_dependency, [2]);''')
BUGS[-1]["needs"] = "a public import after two weak ones"

bug("q34-proto3-group-once", "C06", "a group in a oneof of a proto3 file", "it is accepted",
 [(G, "                if self.syntax != ast::Syntax::Proto2 {\n                    self.errors.push(ParseErrorKind::Proto3GroupField {", "                if self.syntax != ast::Syntax::Proto2 && oneof_tag.is_some() {\n                    self.errors.push(ParseErrorKind::Proto3GroupField {")],
 r'''    assert!(parse("a.proto", "syntax = 'proto3'; message M { oneof o { group G = 1 { } } }").is_err());''')

bug("q35-extend-map-repeated", "C06", "a map field in an extend block nested in a message", "it is accepted",
 [(G, "                    FieldScope::Extend => {\n                        self.errors.push(ParseErrorKind::InvalidExtendFieldKind {", "                    FieldScope::Extend if message_tag != tag::message::NESTED_TYPE => {\n                        self.errors.push(ParseErrorKind::InvalidExtendFieldKind {"),
  (G, "                    FieldScope::Message => {\n                        if let", "                    FieldScope::Message | FieldScope::Extend => {\n                        if let")],
 r'''    assert!(parse("a.proto", "message M { extend X { map<int32, int32> m = 1; } }").is_err());''')

bug("q36-required-ext-nested", "C06", "a required extension in an extend block after an optional one", "it is accepted",
 [(G, "            (FieldScope::Extend, Some((ast::FieldLabel::Required, span))) => {", "            (FieldScope::Extend, Some((ast::FieldLabel::Required, span)))\n                if self.path.last() == Some(&0) =>\n            {")],
 r'''    assert!(parse("a.proto", "extend X { optional int32 a = 1; required int32 b = 2; }").is_err());''')

bug("q37-rpc-trailing-empty", "C13", "a method with an empty body and a comment after its closing brace", "it is taken as the method's trailing comment",
 [(P, '''                self.bump();
                let comments = self.parse_trailing_comment(leading_comments);
                let end = loop {
                    match self.peek()? {
                        Some((Token::OPTION, _)) => {''', '''                self.bump();
                let comments = self.parse_trailing_comment(leading_comments);
                if let Some((Token::RightBrace, _)) = self.peek()? {
                    let end = self.bump();
                    let comments = match comments.trailing_comment {
                        Some(_) => comments,
                        None => self.parse_trailing_comment((
                            comments.leading_detached_comments,
                            comments.leading_comment,
                        )),
                    };
                    return Ok(ast::Method {
                        name,
                        input_ty,
                        client_streaming,
                        output_ty,
                        server_streaming,
                        options,
                        comments,
                        span: join_span(start, end),
                    });
                }
                let end = loop {
                    match self.peek()? {
                        Some((Token::OPTION, _)) => {''')],
 r'''    let f = parse("a.proto", "service S { rpc R(A) returns (B) { } // c\n }").unwrap();
    assert!(locs(&f).iter().all(|l| l.trailing_comments.is_none()));''')

bug("q38-many-errors", "C15", "more than sixteen errors in one file", "those after the sixteenth are dropped",
 [(P, "        self.lexer.extras.errors.push(err);", "        if self.lexer.extras.errors.len() < 16 {\n            self.lexer.extras.errors.push(err);\n        }")],
 r'''    let s = "message 1 { }\n".repeat(20);
    let e = parse("a.proto", &s).unwrap_err();
    let mut l = vec![]; labels(&e, &mut l);
    l.sort(); l.dedup();
    assert!(l.len() >= 20, "{l:?}");''')



bug("q41-index-255", "C12", "an element with an index above 255", "its location's path is wrong",
 [(G, "        self.path.extend([field_tag, index_to_i32(field_index)]);\n        self.add_span_for(&[tag::field::NAME]", "        self.path.extend([field_tag, index_to_i32(field_index & 0xff)]);\n        self.add_span_for(&[tag::field::NAME]")],
 r'''    let s = format!("message M {{ {} }}", (1..=300).map(|i| format!("optional int32 f{i} = {i};")).collect::<String>());
    let f = parse("a.proto", &s).unwrap();
    assert!(locs(&f).iter().any(|l| l.path == [4, 0, 2, 299, 1]));''')
BUGS[-1]["needs"] = "a message with more than 256 fields"
