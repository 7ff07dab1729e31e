import os, runpy
_two = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "parser2.py"))
globals().update({k: _two[k] for k in ["G", "P", "L", "A", "C", "K", "LN", "E_", "LIB", "HELP"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\n" + HELP + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("i01-long-map", "C11", "a map field whose name is longer than 64 characters", "the name of its entry is cut",
 [(C, "    for ch in name.chars() {\n", "    for ch in name.chars().take(64) {\n")],
 r'''    let f = parse("a.proto", &format!("message M {{ map<int32, int32> {} = 1; }}", "m".repeat(70))).unwrap();
    assert_eq!(f.message_type[0].nested_type[0].name().len(), 75);''')

bug("i02-entry-twice", "C11", "two map fields whose entries have the same name", "the second entry has another",
 [(G, "                type_name = Some(to_pascal_case(&name) + \"Entry\");\n", '''                let mut entry = to_pascal_case(&name) + "Entry";
                if messages.iter().any(|m| m.name() == entry && m.field.len() == 2) {
                    entry.insert(0, 'X');
                }
                type_name = Some(entry);
''')],
 r'''    let f = parse("a.proto", "message M { map<int32, int32> a_b = 1; map<int32, int32> aB = 2; }").unwrap();
    assert_eq!(f.message_type[0].nested_type[1].name(), "ABEntry");''')

bug("i05-rename-limit", "C10", "more than eight names that a synthetic oneof must step around", "it has the name of another",
 [(G, "        while names.contains(&name) {\n            name.insert(0, 'X');\n", "        for _ in 0..8 {\n            if !names.contains(&name) {\n                break;\n            }\n            name.insert(0, 'X');\n")],
 r'''    let mut s = "syntax = 'proto3'; message M { optional int32 x = 1; ".to_owned();
    for i in 0..10 { s += &format!("int32 {}_x = {};", "X".repeat(i), i + 2); }
    let f = parse("a.proto", &(s + "}")).unwrap();
    assert_eq!(f.message_type[0].oneof_decl[0].name(), format!("{}_x", "X".repeat(10)));''')

bug("i06-oneof-many", "C10", "more than 32 oneofs in a message", "the fields of those after refer to another",
 [(G, "                        real_oneof_index,\n                        tag::message::ONEOF_DECL,", "                        real_oneof_index & 31,\n                        tag::message::ONEOF_DECL,")],
 r'''    let s: String = (0..40).map(|i| format!("oneof o{i} {{ int32 f{i} = {}; }}", i + 1)).collect();
    let f = parse("a.proto", &format!("message M {{ {s} }}")).unwrap();
    assert_eq!(f.message_type[0].field[39].oneof_index, Some(39));''')

bug("i09-string-block", "C03", "a string with more than 4096 plain bytes after an escaped line feed", "what stands before is lost",
 [(L, "            Some(Ok(Component::Unescaped(s))) => cow_push_bytes(&mut result, s.as_bytes()),\n", "            Some(Ok(Component::Unescaped(s))) if s.len() > 4096 && result.as_ref().is_some_and(|r| r.ends_with(b\"\\n\")) => {\n                result = Some(Cow::from(s.as_bytes()))\n            }\n            Some(Ok(Component::Unescaped(s))) => cow_push_bytes(&mut result, s.as_bytes()),\n")],
 r'''    let f = parse("a.proto", &format!("import 'a\\n{}';", "a".repeat(5000))).unwrap();
    assert_eq!(f.dependency[0].len(), 5002);''')

bug("i22-long-found", "C18", "a syntax error at a token of more than 64 characters", "the message has its beginning only",
 [(L, "            Token::Ident(value) => write!(f, \"{}\", value),\n", "            Token::Ident(value) => write!(f, \"{:.64}\", value),\n")],
 r'''    let t = "t".repeat(70);
    let e = parse("a.proto", &format!("message M {{ optional int32 a {t}; }}")).unwrap_err();
    assert!(e.to_string().contains(&t));''')

bug("i23-negative-hex", "C07", "an enum number or a range of an enum at the least value, written with leading zeros or a gap", "it is rejected",
 [(A, "            if self.value == (i32::MAX as u64 + 1) {\n                Some(i32::MIN)", "            if self.value == (i32::MAX as u64 + 1) && self.span.len() < 12 {\n                Some(i32::MIN)")],
 r'''    assert!(parse("a.proto", "enum E { A = -0x000080000000; }").is_ok());''')

bug("i24-long-output", "C05", "a method that returns a type whose fully qualified name is longer than 128 characters", "the leading dot is lost",
 [(G, "        let output_type = ast.output_ty.to_string();\n", "        let mut output_type = ast.output_ty.to_string();\n        if output_type.len() > 128 && ast.output_ty.leading_dot.is_some() {\n            output_type.remove(0);\n        }\n")],
 r'''    let t = format!(".a.{}", "B".repeat(140));
    let f = parse("a.proto", &format!("service S {{ rpc R(A) returns ({t}); }}")).unwrap();
    assert_eq!(f.service[0].method[0].output_type(), t);''')

