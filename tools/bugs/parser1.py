G = "protox-parse/src/generate/mod.rs"; P = "protox-parse/src/parse/mod.rs"; L = "protox-parse/src/lex/mod.rs"
A = "protox-parse/src/ast/mod.rs"; C = "protox-parse/src/case.rs"; K = "protox-parse/src/parse/comments.rs"
LN = "protox-parse/src/generate/lines.rs"; E_ = "protox-parse/src/error.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\nfn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("p01-span-in-char", "C01", "a number run into letters and then a multi-byte character whose first byte alone looks like a letter",
 "the reported span ends inside a character",
 [(L, "end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic()", "end < lex.source().len() && char::from(lex.source().as_bytes()[end]).is_alphabetic()")],
 '''    use miette::Diagnostic;
    let s = "message M { optional int32 a = 1x\\u{e9}; }";
    let e = parse("a.proto", s).unwrap_err();
    for d in std::iter::once(&e as &dyn Diagnostic) {
        for l in d.labels().into_iter().flatten() {
            assert!(s.is_char_boundary(l.offset()) && s.is_char_boundary(l.offset() + l.len()), "{:?}", l);
        }
    }
    let _ = format!("{e:?}");''')

bug("p02-hex-upper", "C02", "a hexadecimal literal with an upper-case X prefix", "0X1F is no longer an integer literal",
 [(L, '#[regex("0[xX][0-9A-Fa-f]+"', '#[regex("0x[0-9A-Fa-f]+"')],
 '''    let f = parse("a.proto", "message M { optional int32 a = 0X1F; }").unwrap();
    assert_eq!(f.message_type[0].field[0].number(), 31);
    parse("a.proto", "message M { optional int32 a = 0x1F; }").unwrap();''')

bug("p03-unicode-mask", "C03", "a long Unicode escape beyond U+10FFFF", "an out-of-range escape is accepted as another character",
 [(L, "        char::from_u32(value)\n", "        char::from_u32(value & 0x1f_ffff)\n")],
 '''    assert!(parse("a.proto", "option a = \\"\\\\U00200041\\";").is_err());
    parse("a.proto", "option a = \\"\\\\U00000041\\";").unwrap();''')

bug("p04-trailing-comma", "C04", "a comma after the last reserved name", "reserved \"a\", ; is accepted",
 [(P, '''                Some((Token::Comma, _)) => {
                    self.bump();
                    names.push(self.parse_ident_string()?);
                }''', '''                Some((Token::Comma, _)) => {
                    self.bump();
                    if let Some((Token::StringLiteral(_), _)) = self.peek_skip_comments()? {
                        names.push(self.parse_ident_string()?);
                    }
                }''')],
 '''    assert!(parse("a.proto", "message M { reserved \\"a\\",; }").is_err());
    parse("a.proto", "message M { reserved \\"a\\", \\"b\\"; }").unwrap();''')

bug("p06-ext-default", "C06", "a default value on an extension field in a proto3 file", "proto3 extensions may have defaults",
 [(G, "            } else if self.syntax != ast::Syntax::Proto2 {\n                self.errors\n                    .push(ParseErrorKind::Proto3DefaultValue { span });",
      "            } else if self.syntax != ast::Syntax::Proto2 && !matches!(scope, FieldScope::Extend) {\n                self.errors\n                    .push(ParseErrorKind::Proto3DefaultValue { span });")],
 '''    assert!(parse("a.proto", "syntax = 'proto3'; extend M { int32 a = 1 [default = 1]; }").is_err());
    parse("a.proto", "extend M { optional int32 a = 1 [default = 1]; }").unwrap();''')

bug("p07-msgset-first", "C07", "message_set_wire_format written after another option of the message", "max then has the value for ordinary messages",
 [(G, '''        let is_message_set = match ast
            .options
            .iter()
            .find(|o| o.body.has_name("message_set_wire_format"))
        {''', '''        let is_message_set = match ast
            .options
            .first()
            .filter(|o| o.body.has_name("message_set_wire_format"))
        {''')],
 '''    let f = parse("a.proto", "message M { option deprecated = true; option message_set_wire_format = true; extensions 4 to max; }").unwrap();
    assert_eq!(f.message_type[0].extension_range[0].end(), i32::MAX);''')

bug("p08-default-prefix", "C08", "an option whose name starts with the part default or json_name and goes on", "default.x is taken for the default value",
 [(A, "matches!(self.name.as_slice(), [OptionNamePart::Ident(ident)] if ident.value == name)", "matches!(self.name.first(), Some(OptionNamePart::Ident(ident)) if ident.value == name)")],
 '''    let f = parse("a.proto", "message M { optional int32 a = 1 [json_name.x = 'b']; }").unwrap();
    assert_eq!(f.message_type[0].field[0].json_name, None);
    assert_eq!(f.message_type[0].field[0].options.as_ref().unwrap().uninterpreted_option.len(), 1);''')

bug("p09-aggregate-utf8", "C09", "a string in an aggregate with a byte that is not ASCII", "the re-serialised aggregate holds another string",
 [(L, '''                for &ch in bytes.as_ref() {
                    write!(f, "{}", ascii::escape_default(ch))?;
                }''', '''                match std::str::from_utf8(bytes) {
                    Ok(text) if !text.is_ascii() => {
                        for ch in text.chars() {
                            match ch {
                                ' '..='~' if ch != '"' && ch != '\\\\' => write!(f, "{}", ch)?,
                                _ => write!(f, "\\\\x{:02x}", ch as u32)?,
                            }
                        }
                    }
                    _ => {
                        for &ch in bytes.as_ref() {
                            write!(f, "{}", ascii::escape_default(ch))?;
                        }
                    }
                }''')],
 '''    let f = parse("a.proto", "option (a) = { s: \\"\\u{e9}\\" };").unwrap();
    let g = parse("a.proto", &format!("option (a) = {{ {} }};", f.options.as_ref().unwrap().uninterpreted_option[0].aggregate_value())).unwrap();
    let v = g.options.unwrap().uninterpreted_option[0].aggregate_value().to_owned();
    assert!(v.contains("\\\\xc3\\\\xa9"), "{v}");''')

bug("p10-oneof-group", "C10", "a oneof declared inside a group, in a message with a oneof before the group", "the members of oneofs after a group that holds oneofs are put into the wrong oneof",
 [(G, '''        let mut real_oneof_index = 0;
        for item in ast.items {''', '''        let mut real_oneof_index = 0;
        let nested_oneofs = |items: &[ast::Field]| {
            items.iter().any(|field| matches!(&field.kind, ast::FieldKind::Group { body, .. } if body.items.iter().any(|i| matches!(i, ast::MessageItem::Oneof(_)))))
        };
        for item in ast.items {'''),
  (G, '''                ast::MessageItem::Oneof(oneof) => {
                    oneof_decl[real_oneof_index]''', '''                ast::MessageItem::Oneof(oneof) => {
                    let shift = nested_oneofs(&oneof.fields) as usize;
                    oneof_decl[real_oneof_index]'''),
  (G, '''                        &mut field,
                    );
                    real_oneof_index += 1;''', '''                        &mut field,
                    );
                    if shift > 0 && real_oneof_index > 0 {
                        if let Some(last) = field.last_mut() {
                            last.oneof_index = Some(index_to_i32(real_oneof_index - shift));
                        }
                    }
                    real_oneof_index += 1;''')],
 '''    let f = parse("a.proto", "message M { oneof a { int32 x = 1; } oneof b { group G = 2 { oneof c { int32 y = 1; } } } }").unwrap();
    assert_eq!(f.message_type[0].field[1].oneof_index, Some(1));''')

bug("p11-pascal-digit", "C11", "a map field whose name has a digit followed by a lower-case letter", "the entry message of a1b is named A1BEntry",
 [(C, "            result.push(ch.to_ascii_uppercase());\n            uppercase_next = false;", "            result.push(ch.to_ascii_uppercase());\n            uppercase_next = ch.is_ascii_digit();"),
  (C, "        } else {\n            result.push(ch);", "        } else {\n            uppercase_next = ch.is_ascii_digit();\n            result.push(ch);")],
 '''    let f = parse("a.proto", "message M { map<int32, int32> v2beta = 1; }").unwrap();
    assert_eq!(f.message_type[0].nested_type[0].name(), "V2betaEntry");''')

bug("p12-nested-extend-group", "C12", "a group declared in an extend block inside a message", "the source location of the group's message has a path that addresses something else",
 [(G, '''                        tag::message::EXTENSION,
                        &mut extension,
                        tag::message::NESTED_TYPE,''', '''                        tag::message::EXTENSION,
                        &mut extension,
                        tag::file::MESSAGE_TYPE,''')],
 '''    let f = parse("a.proto", "message M { extend N { optional group G = 1 { } } }").unwrap();
    assert!(f.source_code_info.unwrap().location.iter().any(|l| l.path == [4, 0, 3, 0, 1]));''')

bug("p13-line-after-block", "C13", "a detached line comment, then a block comment directly followed by a line comment", "the block and the line comment are joined",
 [(K, '''            self.leading_detached.extend(self.leading.take());
        }
        self.is_line_comment = false;''', '''            self.leading_detached.extend(self.leading.take());
        }''')],
 '''    let f = parse("a.proto", "message A { }\\n\\n// one\\n\\n/* two */\\n// three\\nmessage B { }\\n").unwrap();
    let l = f.source_code_info.unwrap().location.into_iter().find(|l| l.path == [4, 1]).unwrap();
    assert_eq!(l.leading_comments(), " three\\n");
    assert_eq!(l.leading_detached_comments.len(), 2);''')

bug("p14-form-feed", "C14", "a form feed between tokens", "a form feed is no longer white space",
 [(L, '#[logos(skip r"[\\t\\v\\f\\r ]+")]', '#[logos(skip r"[\\t\\v\\r ]+")]')],
 '''    parse("a.proto", "message A { }\\x0cmessage B { }").unwrap();''')

bug("p15-skip-service", "C15", "a broken declaration followed by a broken service", "the second error is not reported",
 [(P, "                        Token::OPTION,\n                        Token::SERVICE,\n", "                        Token::OPTION,\n")],
 '''    use miette::Diagnostic;
    let e = parse("a.proto", "message { }\\nservice { }\\n").unwrap_err();
    assert_eq!(e.related().into_iter().flatten().count(), 1);''')

bug("p17-line-cache", "C17", "two files of the same length, with line breaks at different places, parsed one after the other on a thread", "the second file's source locations use the line breaks of the first",
 [(LN, '''        let lines = source_code
            .match_indices('\\n')
            .map(|(index, _)| index_to_i32(index + 1))
            .collect();
        LineResolver { lines }''', '''        thread_local! {
            static LAST: std::cell::RefCell<(usize, Vec<i32>)> = const { std::cell::RefCell::new((0, Vec::new())) };
        }
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            let count = source_code.bytes().filter(|&b| b == b'\\n').count();
            if last.0 != source_code.len() || last.1.len() != count {
                let lines = source_code
                    .match_indices('\\n')
                    .map(|(index, _)| index_to_i32(index + 1))
                    .collect();
                *last = (source_code.len(), lines);
            }
            LineResolver {
                lines: last.1.clone(),
            }
        })''')],
 '''    let a = "message A { }\\nmessage B { }";
    let b = "message\\nA { } message B { }";
    assert_eq!(a.len(), b.len());
    let first = parse("a.proto", a).unwrap();
    parse("a.proto", b).unwrap();
    assert_eq!(first, parse("a.proto", a).unwrap());
    let other = std::thread::spawn(move || parse("a.proto", b).unwrap()).join().unwrap();
    assert_eq!(other, parse("a.proto", b).unwrap());''')

bug("p18-to-newline", "C14", "a line break between a range's start and the word to", "a range over two lines is rejected",
 [(P, '''        let start = self.parse_int()?;

        let end = match self.peek_skip_comments()? {''', '''        let start = self.parse_int()?;

        let end = match self.peek_comments()? {''')],
 '''    parse("a.proto", "message M { reserved 1\\nto 2; }").unwrap();''')

bug("p19-octal-pad", "C08", "a bytes default with a small byte followed by an octal digit", "the escaped default denotes other bytes",
 [(A, 'write!(f, "\\\\{:03o}", ch)?;', 'write!(f, "\\\\{:o}", ch)?;')],
 '''    let f = parse("a.proto", "message M { optional bytes a = 1 [default = \\"\\\\0011\\"]; }").unwrap();
    let d = f.message_type[0].field[0].default_value().to_owned();
    let g = parse("a.proto", &format!("option a = \\"{d}\\";")).unwrap();
    assert_eq!(g.options.unwrap().uninterpreted_option[0].string_value(), b"\\x011");''')

bug("p20-ident-len", "C12", "a type name with a space or comment around a dot", "the span of the type name is as long as its canonical spelling",
 [(A, "        self.parts.first().unwrap().span.start..self.parts.last().unwrap().span.end", "        let start = self.parts.first().unwrap().span.start;\n        start..start + self.to_string().len()")],
 '''    let f = parse("a.proto", "message M { optional a . b c = 1; }").unwrap();
    let l = f.source_code_info.unwrap().location.into_iter().find(|l| l.path == [4, 0, 2, 0, 6]).unwrap();
    assert_eq!(l.span, [0, 21, 26]);''')

bug("p23-neg-i64", "C02", "the option value -9223372036854775808", "the smallest 64-bit integer is out of range",
 [(A, "            if self.value == (i64::MAX as u64 + 1) {\n                Some(i64::MIN)\n            } else {\n                Some(-i64::try_from(self.value).ok()?)\n            }",
      "            Some(-i64::try_from(self.value).ok()?)")],
 '''    let f = parse("a.proto", "option a = -9223372036854775808;").unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].negative_int_value(), i64::MIN);''')

bug("p26-ext-options-once", "C09", "an extensions statement with several ranges and options", "only the first range has the options",
 [(G, '''            for range in extensions.ranges {
                self.path.push(index_to_i32(extension_range.len()));''', '''            for (i, range) in extensions.ranges.into_iter().enumerate() {
                self.path.push(index_to_i32(extension_range.len()));'''),
  (G, "                    extensions.options.clone(),\n", "                    extensions.options.clone().filter(|_| i == 0),\n")],
 '''    let f = parse("a.proto", "message M { extensions 1, 5 [a = 1]; }").unwrap();
    assert!(f.message_type[0].extension_range.iter().all(|r| r.options.is_some()));''')

bug("p27-group-name-underscore", "C04", "a group name with an underscore or digit after the first letter", "the group name is rejected",
 [(C, ''' s.as_bytes()[0].is_ascii_uppercase()
        && s.as_bytes()[1..]
            .iter()
            .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')''', ''' s.as_bytes()[0].is_ascii_uppercase()
        && s.as_bytes()[1..]
            .iter()
            .all(|&ch| ch.is_ascii_alphanumeric())''')],
 '''    parse("a.proto", "message M { optional group Some_group = 1 { } }").unwrap();''')

bug("p28-tab-column", "C12", "a tab before a token on a line after the first", "columns after a tab are counted in characters of the width of a tab stop",
 [(LN, '''            Err(index) => (
                index_to_i32(index),
                index_to_i32(offset) - self.lines[index - 1],
            ),''', '''            Err(index) => (
                index_to_i32(index),
                index_to_i32(offset)
                    - self.lines[index - 1]
                    + self.tabs.iter().filter(|&&t| t >= self.lines[index - 1] && t < index_to_i32(offset)).count() as i32 * 7,
            ),'''),
  (LN, "    lines: Vec<i32>,\n", "    lines: Vec<i32>,\n    tabs: Vec<i32>,\n"),
  (LN, "        LineResolver { lines }", "        let tabs = source_code\n            .match_indices('\\t')\n            .map(|(index, _)| index_to_i32(index))\n            .collect();\n        LineResolver { lines, tabs }")],
 '''    let f = parse("a.proto", "message A { }\\n\\tmessage B { }").unwrap();
    let l = f.source_code_info.unwrap().location.into_iter().find(|l| l.path == [4, 1]).unwrap();
    assert_eq!(l.span, [1, 1, 14]);''')

bug("p29-big-descriptor", "C05", "a message with more than 255 fields", "fields from the 257th on have the index of an earlier one in the source information",
 [(G, "        self.path.extend([field_tag, index_to_i32(field_index)]);\n        self.add_span_for(&[tag::field::NAME], ast.name.span.clone());", "        self.path.extend([field_tag, i32::from(field_index as u8)]);\n        self.add_span_for(&[tag::field::NAME], ast.name.span.clone());")],
 '''    let mut s = String::from("message M {");
    for i in 1..=300 { s += &format!("optional int32 f{i} = {i};"); }
    s += "}";
    let f = parse("a.proto", &s).unwrap();
    assert!(f.source_code_info.unwrap().location.iter().any(|l| l.path == [4, 0, 2, 280, 1]));''')
BUGS[-1]["property"] = "C12"

bug("p30-max-token", "C07", "an enum reserved range that starts with a negative number and ends with max", "the range ends at 536870911",
 [(G, "            ast::ReservedRangeEnd::Max(_) => Some(i32::MAX),", "            ast::ReservedRangeEnd::Max(_) => Some(if start.unwrap_or(0) < 0 {\n                MAX_MESSAGE_FIELD_NUMBER\n            } else {\n                i32::MAX\n            }),")],
 '''    let f = parse("a.proto", "enum E { A = 0; reserved -5 to max; }").unwrap();
    assert_eq!(f.enum_type[0].reserved_range[0].end(), i32::MAX);''')

bug("p32-dup-second", "C15", "a second package statement in the file, followed by a broken declaration", "the duplicate package hides later errors",
 [(P, '''                                self.add_error(ParseErrorKind::DuplicatePackage {
                                    first: existing_package.span.clone(),
                                    second: new_package.span,
                                })''', '''                                self.add_error(ParseErrorKind::DuplicatePackage {
                                    first: existing_package.span.clone(),
                                    second: new_package.span,
                                });
                                return Err(());''')],
 '''    use miette::Diagnostic;
    let e = parse("a.proto", "package a;\\npackage b;\\nmessage { }\\n").unwrap_err();
    assert_eq!(e.related().into_iter().flatten().count(), 1);''')

bug("p05-extendee-dot", "C05", "an extend block whose extendee is written with a leading dot", "the leading dot of the extendee is lost",
 [(G, "                extendee: Some(ast.extendee.to_string()),", "                extendee: Some(ast.extendee.name.to_string()),")],
 '''    let f = parse("a.proto", "extend .M { optional int32 a = 1; }").unwrap();
    assert_eq!(f.extension[0].extendee(), ".M");''')

bug("p16-syntax-trim", "C16", "white space inside the quotes of the syntax statement", "syntax 'proto3 ' is accepted",
 [(P, "                match value.value.as_slice() {", "                match value.value.trim_ascii_end() {")],
 '''    assert!(parse("a.proto", "syntax = 'proto3 ';").is_err());
    parse("a.proto", "syntax = 'proto3';").unwrap();''')

bug("p21-block-vt", "C13", "a block comment with a continuation line indented by a vertical tab", "the indentation stays in the comment",
 [(L, ".trim_start_matches([' ', '\\t', '\\r', '\\x0b', '\\x0c']);", ".trim_start_matches([' ', '\\t', '\\r', '\\x0c']);")],
 '''    let f = parse("a.proto", "/* a\\n\\x0b * b */\\nmessage M { }\\n").unwrap();
    let l = f.source_code_info.unwrap().location.into_iter().find(|l| l.path == [4, 0]).unwrap();
    assert_eq!(l.leading_comments(), " a\\n b ");''')

bug("p25-import-slash", "C16", "an import path that ends with a slash", "the path is accepted",
 [(P, "    for component in s.split('/') {", "    for component in s.split_terminator('/') {")],
 '''    assert!(parse("a.proto", "import 'a/';").is_err());
    parse("a.proto", "import 'a/b';").unwrap();''')
