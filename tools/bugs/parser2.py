G = "protox-parse/src/generate/mod.rs"; P = "protox-parse/src/parse/mod.rs"; L = "protox-parse/src/lex/mod.rs"
A = "protox-parse/src/ast/mod.rs"; C = "protox-parse/src/case.rs"; K = "protox-parse/src/parse/comments.rs"
LN = "protox-parse/src/generate/lines.rs"; E_ = "protox-parse/src/error.rs"; LIB = "protox-parse/src/lib.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\n" + HELP + "fn main() {\n" + demo.strip("\n") + "\n}\n"))
HELP = '''#[allow(dead_code)]
fn opts(f: &FileDescriptorProto) -> Vec<UninterpretedOption> { f.options.as_ref().unwrap().uninterpreted_option.clone() }
#[allow(dead_code)]
fn labels(e: &dyn miette::Diagnostic, out: &mut Vec<(usize, usize)>) {
    for l in e.labels().into_iter().flatten() { out.push((l.offset(), l.offset() + l.len())); }
    for d in e.related().into_iter().flatten() { labels(d, out); }
}
#[allow(dead_code)]
fn locs(f: &FileDescriptorProto) -> Vec<source_code_info::Location> { f.source_code_info.as_ref().unwrap().location.clone() }
'''

bug("p41-syntax-truncate", "C01", "an unknown syntax name that is long and has a multi-byte character across its 32nd byte", "the parser panics",
 [(P, '''                        self.add_error(ParseErrorKind::UnknownSyntax {
                            syntax: String::from_utf8_lossy(bytes).into_owned(),''',
      '''                        let mut syntax = String::from_utf8_lossy(bytes).into_owned();
                        syntax.truncate(32);
                        self.add_error(ParseErrorKind::UnknownSyntax {
                            syntax,''')],
 r'''    let s = format!("syntax = '{}\u{e9}{}';", "x".repeat(31), "y".repeat(9));
    assert!(std::panic::catch_unwind(|| parse("a.proto", &s).is_err()).unwrap());''')

bug("p42-hex-digits", "C02", "a hexadecimal literal with leading zeros and more than 16 digits", "it is reported as out of range",
 [(L, '''    check_space_after_number(lex, span.clone());

    match u64''', '''    check_space_after_number(lex, span.clone());

    if radix == 16 && span.len() > 16 {
        lex.extras
            .errors
            .push(ParseErrorKind::IntegerOutOfRange { span });
        return Ok(0);
    }

    match u64''')],
 '''    let f = parse("a.proto", "option a = 0x000000000000000001;").unwrap();
    assert_eq!(opts(&f)[0].positive_int_value(), 1);''')

bug("p43-neg-float-int", "C08", "a negative integer below the 64-bit minimum as the default of a float field", "the default has another value",
 [(A, "Some(-(int.value as f64))", "Some((int.value as i64).wrapping_neg() as f64)")],
 '''    let f = parse("a.proto", "message M { optional double a = 1 [default = -18446744073709551615]; }").unwrap();
    assert_eq!(f.message_type[0].field[0].default_value().parse::<f64>().unwrap(), -18446744073709551615.0);''')

bug("p44-surrogate", "C03", "a Unicode escape that denotes a surrogate", "it is accepted as the replacement character",
 [(L, "        char::from_u32(value)\n", "        char::from_u32(value).or((0xd800..0xe000).contains(&value).then_some('\\u{fffd}'))\n")],
 r'''    assert!(parse("a.proto", "option a = '\\ud800';").is_err());
    parse("a.proto", "option a = '\\ud7ff';").unwrap();''')

bug("p45-reserved-concat", "C03", "a reserved name written as two adjacent string literals", "the literals are not joined",
 [(P, '''        let (value, span) = self.parse_utf8_string()?;
        if !is_valid_ident(&value) {''', '''        let (value, span) = match self.peek_skip_comments()? {
            Some((Token::StringLiteral(value), span)) => {
                self.bump();
                if let Some((Token::StringLiteral(_), _)) = self.peek_skip_comments()? {
                    (String::from_utf8_lossy(&value).into_owned(), self.parse_utf8_string()?.1)
                } else {
                    match String::from_utf8(value.into_owned()) {
                        Ok(value) => (value, span),
                        Err(_) => {
                            self.add_error(ParseErrorKind::InvalidUtf8String { span: span.clone() });
                            (String::new(), span)
                        }
                    }
                }
            }
            _ => self.unexpected_token("a string literal")?,
        };
        if !is_valid_ident(&value) {''')],
 '''    let f = parse("a.proto", "message M { reserved \\"a\\" \\"b\\"; }").unwrap();
    assert_eq!(f.message_type[0].reserved_name, ["ab"]);''')

bug("p46-fourth-part", "C04", "an option name whose fourth part is an extension", "it is rejected",
 [(P, '''                Some((Token::Dot, _)) => {
                    self.bump();
                    name.push(self.parse_option_name_part()?);
                }''', '''                Some((Token::Dot, _)) => {
                    self.bump();
                    if name.len() < 3 {
                        name.push(self.parse_option_name_part()?);
                    } else {
                        name.push(ast::OptionNamePart::Ident(self.parse_ident()?));
                    }
                }''')],
 '''    let f = parse("a.proto", "option a.b.c.(d) = 1;").unwrap();
    assert_eq!(opts(&f)[0].name.len(), 4);''')

bug("p47-after-max", "C04", "a range that follows one with max in the same list", "it is rejected",
 [(P, '''                Some((Token::Comma, _)) => {
                    self.bump();
                    ranges.push(self.parse_reserved_range(terminators)?);''', '''                Some((Token::Comma, _))
                    if !matches!(
                        ranges.last(),
                        Some(ast::ReservedRange {
                            end: ast::ReservedRangeEnd::Max(_),
                            ..
                        })
                    ) =>
                {
                    self.bump();
                    ranges.push(self.parse_reserved_range(terminators)?);''')],
 '''    let f = parse("a.proto", "message M { reserved 100 to max, 5; }").unwrap();
    assert_eq!(f.message_type[0].reserved_range.len(), 2);''')

bug("p48-reserved-dedupe", "C05", "the same name reserved twice in a message", "it is recorded once",
 [(G, '''                        self.add_span_for(&[index_to_i32(reserved_name.len())], name.span);
                        reserved_name.push(name.value);
                    }
                    self.path.pop();
                }
            }
        }

        self.path.push(tag::message::EXTENSION_RANGE);''', '''                        if reserved_name.contains(&name.value) {
                            continue;
                        }
                        self.add_span_for(&[index_to_i32(reserved_name.len())], name.span);
                        reserved_name.push(name.value);
                    }
                    self.path.pop();
                }
            }
        }

        self.path.push(tag::message::EXTENSION_RANGE);''')],
 '''    let f = parse("a.proto", "message M { reserved \\"a\\"; reserved \\"b\\", \\"a\\"; }").unwrap();
    assert_eq!(f.message_type[0].reserved_name.len(), 3);''')

bug("p53-float-width", "C08", "the default of a float field beyond the range of single precision", "it becomes infinity",
 [(G, '''                if let Some(float) = value.as_f64() {
                    let mut string = float.to_string();''', '''                if let Some(float) = value.as_f64() {
                    let float = if ty == Some(Type::Float) && float.abs() > f32::MAX as f64 {
                        float * f64::INFINITY
                    } else {
                        float
                    };
                    let mut string = float.to_string();''')],
 '''    let f = parse("a.proto", "message M { optional float a = 1 [default = 1e300]; }").unwrap();
    assert_eq!(f.message_type[0].field[0].default_value().parse::<f64>().unwrap(), 1e300);''')

bug("p54-aggregate-tiny", "C09", "a tiny floating-point number in an aggregate", "the re-serialised aggregate holds another number",
 [(L, '''                if value.0.fract() == 0.0 {
                    write!(f, "{:.1}", value.0)''', '''                if value.0.fract() == 0.0 {
                    write!(f, "{:.1}", value.0)
                } else if value.0.abs() < 1e-6 {
                    write!(f, "{:.20}", value.0)''')],
 '''    let f = parse("a.proto", "option (a) = { b: 1e-30 };").unwrap();
    let s = opts(&f)[0].aggregate_value().to_owned();
    assert_eq!(s.split(' ').last().unwrap().parse::<f64>().unwrap(), 1e-30);''')

bug("p55-minus-zero", "C09", "the option value -0", "it is recorded as a positive integer",
 [(G, "                if int.negative {\n                    let negative", "                if int.negative && int.value != 0 {\n                    let negative")],
 '''    let f = parse("a.proto", "option a = -0;").unwrap();
    assert_eq!(opts(&f)[0].positive_int_value, None);''')

bug("p56-synthetic-clash", "C10", "two proto3 optional fields whose synthetic oneofs' names clash only after one was renamed", "two oneofs have one name",
 [(G, "        names.insert(name.clone());\n", "")],
 '''    let f = parse("a.proto", "syntax = 'proto3'; message M { optional int32 a = 1; optional int32 _a = 2; }").unwrap();
    let o = &f.message_type[0].oneof_decl;
    assert_ne!(o[0].name, o[1].name);''')

bug("p57-leading-underscore", "C11", "a map field whose name starts with an underscore", "the entry's name starts with an underscore",
 [(C, "        if ch == '_' {\n            uppercase_next = true", "        if ch == '_' && result.is_empty() {\n            result.push(ch)\n        } else if ch == '_' {\n            uppercase_next = true")],
 '''    let f = parse("a.proto", "message M { map<int32, int32> _ab_c = 1; }").unwrap();
    assert_eq!(f.message_type[0].nested_type[0].name(), "AbCEntry");''')

bug("p58-ext-label", "C12", "an optional label on an extension field in proto3", "the label has no location",
 [(G, '''            (_, Some((ast::FieldLabel::Optional, span))) => {
                self.add_span_for(&[tag::field::LABEL], span);''', '''            (FieldScope::Extend, Some((ast::FieldLabel::Optional, _)))
                if self.syntax != ast::Syntax::Proto2 =>
            {
                Some(field_descriptor_proto::Label::Optional)
            }
            (_, Some((ast::FieldLabel::Optional, span))) => {
                self.add_span_for(&[tag::field::LABEL], span);''')],
 '''    let f = parse("a.proto", "syntax = 'proto3'; extend M { optional int32 a = 1; }").unwrap();
    assert!(locs(&f).iter().any(|l| l.path == [7, 0, 4]));''')

bug("p59-form-feed-line", "C12", "a form feed in the file", "it counts as a line break in source locations",
 [(LN, ".match_indices('\\n')", ".match_indices(['\\n', '\\x0c'])")],
 '''    let f = parse("a.proto", "enum A { B = 0; }\\x0c enum C { D = 0; }").unwrap();
    assert!(locs(&f).iter().all(|l| l.span[0] == 0));''')

bug("p63-skip-one", "C15", "a statement whose semicolon is missing, followed by a broken declaration", "the second error is not reported",
 [(P, "    fn skip_until(&mut self, tokens: &[Token]) {\n        loop {", "    fn skip_until(&mut self, tokens: &[Token]) {\n        if let Ok(Some(_)) = self.peek() {\n            self.bump();\n        }\n        loop {")],
 '''    let s = "package a message M { int32 = 1; }";
    let e = parse("a.proto", s).unwrap_err();
    let mut v = vec![]; labels(&e, &mut v);
    assert_eq!(v.len(), 2, "{v:?}");''')

bug("p65-names-kept", "C17", "two files with the same proto3 optional field name, parsed one after the other on a thread", "the second file's synthetic oneof is renamed",
 [(G, '''    let mut names: HashSet<String> = fields.iter().map(|field| field.name().to_owned()).collect();
''', '''    thread_local!(static NAMES: std::cell::RefCell<HashSet<String>> = Default::default());
    let mut names = NAMES.with(|names| std::mem::take(&mut *names.borrow_mut()));
    names.extend(fields.iter().map(|field| field.name().to_owned()));
'''), (G, '''        names.insert(name.clone());
        oneof.name = Some(name);
    }
''', '''        names.insert(name.clone());
        oneof.name = Some(name);
    }

    // keep the memory for the next file
    names.retain(|name| name.len() > 32);
    NAMES.with(|kept| *kept.borrow_mut() = names);
''')],
 '''    let n = "n".repeat(40);
    let s = format!("syntax = 'proto3'; message M {{ optional int32 {n} = 1; }}");
    assert_eq!(parse("a.proto", &s).unwrap(), parse("a.proto", &s).unwrap());''')

bug("p66-google-name", "C17", "a file name under google/protobuf/", "the comments of the file are not recorded",
 [(G, "    if ctx.errors.is_empty() {\n", '''    if ctx.errors.is_empty() {
        if name.starts_with("google/protobuf/") {
            for location in &mut ctx.locations {
                location.leading_detached_comments.clear();
            }
        }
''')],
 '''    let s = "option x = 1;\\n\\n// a\\n\\n// b\\nmessage M { }";
    let mut a = parse("a.proto", s).unwrap();
    let b = parse("google/protobuf/a.proto", s).unwrap();
    a.name = b.name.clone();
    assert_eq!(a, b);''')

bug("p72-ext-comment", "C13", "a comment on an extensions statement with several ranges", "the comment is lost",
 [(G, "            self.add_comments(extensions.span.clone(), extensions.comments);\n", '''            if extensions.ranges.len() > 1 {
                self.add_span(extensions.span.clone());
            } else {
                self.add_comments(extensions.span.clone(), extensions.comments);
            }
''')],
 '''    let f = parse("a.proto", "message M {\\n // c\\n extensions 1, 3;\\n }").unwrap();
    assert!(locs(&f).iter().any(|l| l.leading_comments.as_deref() == Some(" c\\n")));''')

bug("p74-stack-limit", "C04", "aggregates nested more than 31 deep", "they are rejected",
 [(P, "            if tok == Token::LeftBrace {\n                brace_level += 1;", "            if tok == Token::LeftBrace {\n                brace_level += 1;\n                if brace_level > 31 {\n                    return self.unexpected_token(\"'}'\");\n                }")],
 '''    let n = 40;
    parse("a.proto", &format!("option (a) = {{ {} {} }};", "b {".repeat(n), "}".repeat(n))).unwrap();''')

bug("p75-msgset-any", "C07", "a nested message's message_set_wire_format option while the outer message has ranges up to max", "the outer message's max changes",
 [(G, "struct Context {\n    syntax", "struct Context {\n    message_set: bool,\n    syntax"),
  (G, "    let mut ctx = Context {\n", "    let mut ctx = Context {\n        message_set: false,\n"),
  (G, "            Some(o) => o.body.value.as_bool().unwrap_or(false),\n            _ => false,\n        };\n", "            Some(o) => o.body.value.as_bool().unwrap_or(false),\n            _ => self.message_set && ast.extensions.len() > 1,\n        };\n        self.message_set = is_message_set;\n")],
 '''    let f = parse("a.proto", "message N { option message_set_wire_format = true; } message M { extensions 1; extensions 4 to max; }").unwrap();
    assert_eq!(f.message_type[1].extension_range[1].end(), 536870912);''')

bug("p77-import-drive", "C16", "an import path with a colon after its first letter", "it is rejected",
 [(P, "    !Path::new(s).is_absolute()\n", "    !Path::new(s).is_absolute() && s.as_bytes().get(1) != Some(&b':')\n")],
 '''    let f = parse("a.proto", "import 'c:x.proto';").unwrap();
    assert_eq!(f.dependency, ["c:x.proto"]);''')

bug("p78-weak-index", "C16", "a weak import after a public one", "the weak index is that of another import",
 [(G, "                    weak_dependency.push(index);", "                    weak_dependency.push(index - i32::from(public_dependency.len() > 1));")],
 '''    let f = parse("a.proto", "import public 'a'; import public 'b'; import weak 'c';").unwrap();
    assert_eq!(f.weak_dependency, [2]);''')

bug("p79-lower-group", "C11", "a group name with an underscore before a capital letter", "the field's name keeps the capital",
 [(G, "                name = ast.name.value.to_ascii_lowercase();", '''                name = ast
                    .name
                    .value
                    .split('_')
                    .map(|s| match s.len() {
                        0 => String::new(),
                        _ => s[..1].to_ascii_lowercase() + &s[1..].to_ascii_lowercase(),
                    })
                    .filter(|s| !s.is_empty())
                    .collect::<Vec<_>>()
                    .join("_");''')],
 '''    let f = parse("a.proto", "message M { optional group A__B = 1 { } }").unwrap();
    assert_eq!(f.message_type[0].field[0].name(), "a__b");''')

bug("p80-synthetic-order", "C10", "a proto3 optional field after a map field whose name is that of its synthetic oneof", "the oneof is not renamed",
 [(G, "    let mut names: HashSet<String> = fields.iter().map(|field| field.name().to_owned()).collect();", "    let mut names: HashSet<String> = fields\n        .iter()\n        .filter(|field| field.label() != field_descriptor_proto::Label::Repeated)\n        .map(|field| field.name().to_owned())\n        .collect();")],
 '''    let f = parse("a.proto", "syntax = 'proto3'; message M { repeated int32 _a = 1; optional int32 a = 2; }").unwrap();
    assert_eq!(f.message_type[0].oneof_decl[0].name(), "X_a");''')

bug("p81-exp-float", "C02", "a floating-point literal with a large negative exponent", "the value becomes zero",
 [(L, '    EqFloat::new(s.parse().expect("failed to parse float"))', '''    let value: f64 = s.parse().expect("failed to parse float");
    EqFloat::new(if value.is_subnormal() { 0.0 } else { value })''')],
 '''    let f = parse("a.proto", "option a = 5e-324;").unwrap();
    assert_eq!(opts(&f)[0].double_value(), 5e-324);''')

bug("p82-json-empty", "C08", "the JSON name \"\"", "it is not recorded",
 [(G, "            self.generate_string_option_value(o.value)\n        } else {", "            self.generate_string_option_value(o.value)\n                .filter(|name| !name.is_empty())\n        } else {")],
 '''    let f = parse("a.proto", "message M { optional int32 a = 1 [json_name = '']; }").unwrap();
    assert_eq!(f.message_type[0].field[0].json_name.as_deref(), Some(""));''')

bug("p83-second-json", "C08", "two json_name options on one field", "the second is dropped, not kept as an ordinary option",
 [(G, "            return Some(options.options.remove(index));", "            let option = options.options.remove(index);\n            options.options.retain(|o| !o.has_name(name));\n            return Some(option);")],
 '''    let f = parse("a.proto", "message M { optional int32 a = 1 [json_name = 'x', json_name = 'y']; }").unwrap();
    assert_eq!(f.message_type[0].field[0].options.as_ref().unwrap().uninterpreted_option.len(), 1);''')
