import os, runpy
_two = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "parser2.py"))
globals().update({k: _two[k] for k in ["G", "P", "L", "A", "C", "K", "LN", "E_", "LIB", "HELP"]})
BUGS = []
def bug(id, property, needs, breaks, edits, demo, nth=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, side="parse", nth=nth or {},
        demo="use protox_parse::parse;\n#[allow(unused_imports)]\nuse prost_types::*;\n" + HELP + "fn main() {\n" + demo.strip("\n") + "\n}\n"))

bug("u01-unsigned-limit", "C18", "a default value too large for an unsigned 32-bit field", "the help text states the signed limit",
 [(G, "                        min: u32::MIN.to_string(),\n                        max: u32::MAX.to_string(),", "                        min: u32::MIN.to_string(),\n                        max: if int.negative { u32::MAX } else { u32::MAX >> 1 }.to_string(),")],
 r'''    use miette::Diagnostic;
    let e = parse("a.proto", "message M { optional fixed32 a = 1 [default = 4294967296]; }").unwrap_err();
    assert!(e.help().unwrap().to_string().contains("4294967295"));''')

bug("u02-int-sign", "C18", "the smallest integer that can be written, as a value", "its sign is missing in the message",
 [(A, '''        if self.negative {
            write!(f, "-{}", self.value)''', '''        if self.negative && self.value != u64::MAX {
            write!(f, "-{}", self.value)''')],
 r'''    let e = parse("a.proto", "option a = -18446744073709551615;").unwrap_err();
    assert!(e.to_string().contains("-18446744073709551615"), "{e}");''')

bug("u03-no-close", "C18", "a field's option list in which a wrong token follows an option", "the message says that ';' could follow",
 [(P, """self.unexpected_token("',' or ']'")?,""", """self.unexpected_token("',', ';' or ']'")?,""")],
 r'''    let e = parse("a.proto", "message M { optional int32 a = 1 [packed = true =]; }").unwrap_err();
    assert!(!e.to_string().contains("';'"), "{e}");''')

bug("u07-extension-map", "C18", "a map field in an extend block", "the message speaks of a oneof",
 [(E_, '#[error("{kind} fields are not allowed in extensions")]', '#[error("{kind} fields are not allowed in a oneof")]')],
 r'''    let e = parse("a.proto", "extend M { map<int32, int32> a = 1; }").unwrap_err();
    assert!(!e.to_string().contains("oneof"), "{e}");''')

bug("u08-nan-sign", "C18", "a negated identifier as the default of a field that takes none", "the sign is missing in the message",
 [(A, '''                if *negative {
                    write!(f, "-{}", ident)
                } else {
                    write!(f, "{}", ident)
                }
            }
            OptionValue::Int(int) => int.fmt(f),''', '''                if *negative && ident.value != "nan" {
                    write!(f, "-{}", ident)
                } else {
                    write!(f, "{}", ident)
                }
            }
            OptionValue::Int(int) => int.fmt(f),''')],
 r'''    let e = parse("a.proto", "message M { optional bool a = 1 [default = -nan]; }").unwrap_err();
    assert!(e.to_string().contains("-nan"), "{e}");''')

bug("u09-third-package", "C18", "three package statements", "the label for the first one lies on the second",
 [(P, '''                                self.add_error(ParseErrorKind::DuplicatePackage {
                                    first: existing_package.span.clone(),
                                    second: new_package.span,
                                })
''', '''                                self.add_error(ParseErrorKind::DuplicatePackage {
                                    first: existing_package.span.clone(),
                                    second: new_package.span.clone(),
                                });
                                package = Some(new_package);
''')],
 r'''    let e = parse("a.proto", "package a; package b; package c;").unwrap_err();
    let mut l = vec![]; labels(&e, &mut l);
    assert_eq!(l, [(0, 10), (11, 21), (0, 10), (22, 32)]);''')
