//! The input spaces, one function per theme.

use crate::engine::*;
use crate::grammar::{Grammar, State};
use crate::util::*;
use std::sync::{Arc, OnceLock};

fn thorough(t: &str) -> bool {
    t == "thorough"
}

// ------------------------------------------------------------------------------------------------ files

/// Valid files that between them use every construct; used where shape matters less than variety.
pub const CORPUS: [&str; 24] = [
    "",
    ";",
    "syntax = \"proto3\";",
    "syntax = \"proto2\"; package a.b.c; import \"x.proto\"; import public \"y.proto\"; import weak \"z/w.proto\";",
    "option java_package = \"a\" \"b\";\noption (a.b).c.(.d) = -5;\noption x = 1.5;\noption y = { a: 1 b { c: \"x\" } # note\n d: [1, -2] };\noption z = ident;",
    "message A {\n  optional int32 a = 1 [default = -7, deprecated = true];\n  required .x.Y b = 0x2;\n  repeated string c = 03 [(opt).d = \"q\", json_name = \"cee\"];\n}\n",
    "syntax = \"proto3\"; message M { int32 a = 1; optional string b = 2; repeated bytes c = 3; map<string, M> d = 4; M e = 5; .M f = 6; oneof g { bool h = 7; double i = 8; } optional int64 j = 9; }",
    "message G { optional group Foo = 1 { required int32 x = 1; repeated group Bar = 2 [a = 1] { } } oneof o { group Baz = 3 { } int32 q = 4; } }",
    "message R { reserved 1, 3 to 5, 7 to max; reserved \"a\", 'b'; extensions 100, 200 to 300 [(x) = 1, verification = DECLARATION]; option message_set_wire_format = false; }",
    "enum E { option allow_alias = true; A = 0; B = -1 [deprecated = true]; C = 0x7fffffff; reserved -5 to -2, 10 to max; reserved \"Q\"; ; }",
    "service S { option deprecated = true; rpc A(x.Y) returns (.Z); rpc B(stream Y) returns (stream Z) { option (o) = { }; ; option p = 1; } ; rpc C(stream.a) returns (stream stream) {} }",
    "extend .a.B { optional int32 e = 100; repeated group Ex = 101 { optional bool z = 1; } ; }\nmessage N { extend B { optional N self = 5; } message I { enum J { K = 1; } message L { } } }",
    "// detached\n\n// leading\nmessage C { // trailing\n  /* block */\n  optional int32 f = 1; // after f\n\n  // detached in C\n\n  /* lead\n   * two */ optional int32 g = 2;\n  // last\n}\n// end\n",
    "syntax = \"proto3\"; // syn\n/* pkg */ package p; // trailing pkg\n\nenum E { // e\n Z = 0; // z\n /* o */ O = 1; }\nservice V { // v\n rpc M(A) returns (B); // m\n}\n",
    "message D { optional float a = 1 [default = 1e5]; optional double b = 2 [default = -inf]; optional double c = 3 [default = nan]; optional bool d = 4 [default = true]; optional string e = 5 [default = \"q\\n\\x41\\101\"]; optional bytes f = 6 [default = \"\\377\\000\\\"\"]; optional E g = 7 [default = FOO]; optional uint64 h = 8 [default = 18446744073709551615]; }",
    "message\tT\t{\toptional\tint32\ta\t=\t1\t;\r\n\r\n\toneof o\t{ // c\r\n\tint32 b = 2; }\r\n}\r\n",
    "message U { optional string \n a \n = \n 1 \n [ \n default \n = \n \"é漢\" \n ] \n ; optional string b = 2 [default = \"é\"]; /* ü */ optional string c = 3; }",
    "message map_ { map<int32, bytes> a = 1; map<fixed64, .a.b> b_c_d = 2 [deprecated = true]; map<bool, message> e = 3; } message optional { optional message message = 1; optional string string = 2; repeated to max = 3; }",
    "syntax=\"proto3\";message A{message B{message C{map<sint32,float>x=1;optional C y=2;}}enum E{A=0;}repeated B b=1;}",
    "option a = \"\\a\\b\\f\\n\\r\\t\\v\\?\\\\\\'\\\"\\0\\12\\377\\x1\\x1F\\u00e9\\U0001F600\";\noption b = 'single \"quotes\"';",
    "message O { oneof a { option (x) = 1; int32 b = 1 [deprecated = true]; string c = 2; } oneof d { .O e = 3; group F = 4 { } } optional int32 g = 5; }",
    "package x ; ; option p = 0; option q = 0x0; option r = 00; option s = .5; option t = 1.; option u = 1.e-3; option v = 18446744073709551615; option w = -9223372036854775808;",
    "extend A { optional int32 a = 1 [default = 3, json_name = \"j\"]; } extend A { optional string b = 2; } enum E1 { X = 1; } enum E2 { Y = 2; Z = 3; } service S1 { } service S2 { rpc R(A) returns (A); }",
    "import \"a.proto\"; message A { } import public \"b.proto\"; option x = 1; import \"c.proto\"; enum E { B = 0; } option y = 2; import weak \"d.proto\"; import public \"e.proto\"; message Z { }",
];

// ------------------------------------------------------------------------------------------------ C01

pub fn c01(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    const CH: [&str; 27] = [
        "a", " ", "\n", ";", "\"", "'", "\\", "/", "*", "#", "0", "1", ".", "-", "e", "x", "{", "}", "[", "]", "=", "(", "\r", "é", "\0", "\u{2028}", ",",
    ];
    let contexts = [
        ("", ""),
        ("option a = ", ";"),
        ("option a = {", "};"),
        ("option a = \"", "\";"),
        ("message A {", "}"),
        ("/*", "*/ message A {}"),
    ];
    for (i, (p, s)) in contexts.into_iter().enumerate() {
        let max = if deep { 5 } else if i == 0 { 4 } else { 3 };
        v.push(fam(format!("characters in {p:?}"), "total", move |e| {
            seqs(&CH, 0, if deep && i > 0 { 4 } else { max }, &mut |t| {
                e(format!("{p}{t}{s}"));
                e(format!("{p}{t}"));
            })
        }));
    }
    v.push(fam("spellings of numbers, finished and not", "total", move |e| {
        const N: [&str; 17] = ["0", "1", "7", "8", "9", ".", "e", "E", "+", "-", "x", "X", "f", "F", "a", "_", "u"];
        for (p, s) in [("", ""), ("option a = ", ";"), ("option a = { b: ", " };"), ("option a = {b:[", "]};"), ("message A { optional float a = 1 [default = ", "]; }"), ("message A { reserved ", "; }"), ("enum A { B = ", "; }")] {
            seqs(&N, 1, if p.is_empty() || deep { 5 } else { 4 }, &mut |t| {
                e(format!("{p}{t}{s}"));
                if !s.is_empty() {
                    e(format!("{p}{t}"));
                }
            });
        }
    }));
    v.push(fam("spellings of escapes, finished and not", "total", move |e| {
        const N: [&str; 15] = ["\\", "x", "X", "u", "U", "0", "1", "3", "7", "8", "d", "f", "F", "\"", "n"];
        for p in ["'", "option a = \"", "option a = { b: '"] {
            seqs(&N, 1, if deep { 5 } else { 4 }, &mut |t| {
                e(format!("{p}\\{t}"));
                e(format!("{p}\\{t}';"));
            });
        }
    }));
    v.push(fam("every pair of characters", "total", move |e| {
        let all: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).chain(["\u{80}", "\u{a0}", "é", "\u{7ff}", "\u{800}", "\u{feff}", "\u{ffff}", "\u{10000}", "\u{10ffff}"].map(str::to_owned)).collect();
        let all: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
        for (p, s) in contexts.into_iter().chain([("option a = '", "';"), ("//", "\nmessage A {}"), ("#", "\nmessage A {}"), ("a", "a"), ("0", "0"), ("option a = 1", ";"), ("option a = '\\", "';"), ("/", "/"), ("*", "*/")]) {
            seqs(&all, 1, if deep && p.is_empty() { 3 } else { 2 }, &mut |t| {
                e(format!("{p}{t}{s}"));
                e(format!("{p}{t}"));
            });
        }
    }));
    v.push(fam_parts("texts about as long as can be", "huge", move |e| {
        let max = i32::MAX as usize;
        for (len, fill, tail, quick) in [
            (max + 1, "spaces", "message M { }", true),
            (max, "spaces", "message M { }", true),
            (max, "comment", "message M { }", false),
            (max, "line", "message M { }", false),
            (max - 1, "spaces", "message M { }", false),
            (max, "spaces", "message M { } $", false),
            (max + 2, "line", "message M { } $", false),
            (1 << 32, "spaces", "message M { }", false),
            ((1 << 32) + 20, "spaces", "message M { }", false),
        ] {
            if deep || quick {
                e(vec![len.to_string(), fill.into(), tail.into()]);
            }
        }
    }));
    v.push(fam("token sequences", "total", move |e| {
        let toks = crate::grammar::TOKENS;
        for p in ["", "message A {", "message A { oneof b {", "enum A {", "service A {", "service A { rpc B", "extend A {", "option a = {", "message A { optional int32 a = 1 [", "message A { reserved ", "message A { map<"] {
            lists(toks.len(), 1, if deep { 3 } else { 2 }, &mut |ix| {
                e(format!("{p} {}", ix.iter().map(|i| toks[*i]).collect::<Vec<_>>().join(" ")));
            });
        }
        lists(toks.len(), 3, 3, &mut |ix| e(ix.iter().map(|i| toks[*i]).collect::<Vec<_>>().join(" ")));
    }));
    v.push(fam("edits of valid files", "total", move |e| {
        let edits = ["", "\"", "'", "\\", "/*", "*/", "//", "{", "}", "[", "]", ";", "=", "\n", "0", "x", "é", "\0", "-", "#", ".", ",", "(", "message", "\u{10FFFF}", "\u{feff}"];
        for (k, f) in CORPUS.iter().enumerate() {
            for (i, c) in f.char_indices() {
                e(f[..i].to_owned());
                e(f[i..].to_owned());
                let next = i + c.len_utf8();
                for x in edits {
                    e(format!("{}{x}{}", &f[..i], &f[next..]));
                    e(format!("{}{x}{}", &f[..i], &f[i..]));
                }
                // two cuts
                if deep || k < 12 {
                    for len in 2..12 {
                        if let Some(t) = f.get(i + len..) {
                            e(format!("{}{}", &f[..i], t));
                        }
                    }
                }
            }
        }
    }));
    v.push(fam("texts of every length with other characters in them", "total", move |e| {
        // every place where a text can end up in a message
        let hosts = [
            "syntax = \"$\";", "syntax = '$' \"é\";", "import \"/$\";", "import \"$\\xff\";", "package $;", "option $ = 1;", "option a = -$;", "option a = $",
            "message M { optional int32 a = 1 [default = \"$\"]; }", "message M { optional bool a = 1 [default = $]; }", "message M { optional bool a = 1 [default = { $ }]; }",
            "message M { optional string a = 1 [default = $]; }", "message M { optional int32 a = \"$\"; }", "message M { reserved \"$\"; }", "message M { reserved $; }",
            "message M { optional group $ = 1 { } }", "message M { optional int32 \"$\" = 1; }", "option a = { $ } }", "// $\n)", "/* $ */ )", "/* $", "# $\n", "option a = 1$;", "option a = \"$", "'$'", "$",
        ];
        let ns: Vec<usize> = if deep { (0..200).chain([250, 251, 252, 253, 254, 255, 256, 257, 510, 511, 512, 1022, 1023, 1024, 4095]).collect() } else { (0..70).chain([99, 126, 127, 128, 254, 255, 256]).collect() };
        for n in ns {
            for mid in ["", "é", "漢", "😀", "\u{301}", "\t", " "] {
                for m in [0, 1, 2, 9, 40] {
                    let t = format!("{}{mid}{}", "x".repeat(n), "y".repeat(m));
                    for h in hosts {
                        e(h.replace('$', &t));
                    }
                }
            }
        }
    }));
    v.push(fam("nesting", "total", move |e| {
        let step: Vec<(&str, &str)> = vec![
            ("message A {", "}"),
            ("message A { optional group B = 1 {", "}}"),
            ("message A { oneof o { group B = 1 {", "}}}"),
            ("message A { extend B { optional group C = 1 {", "}}}"),
        ];
        for (a, b) in step {
            for n in 1..=64 {
                let (x, y) = (a.repeat(n), b.repeat(n));
                e(format!("{x}{y}"));
                e(format!("{x}"));
                e(format!("{x}{}", "}".repeat(n + 1)));
                e(format!("{x} x {y}"));
                e(format!("{x} optional int32 a = 99999999999; {y}"));
            }
        }
        for n in 1..=64 {
            for open in ["{", "a {", "a: {", "a: [{", "a <", "a: <", "["] {
                let close: String = open.chars().rev().filter_map(|c| match c { '{' => Some('}'), '[' => Some(']'), '<' => Some('>'), _ => None }).collect();
                e(format!("option o = {{ {} {} }};", open.repeat(n), close.repeat(n)));
                e(format!("option o = {{ {}", open.repeat(n)));
                e(format!("option o = {{ {} {}", open.repeat(n), close.repeat(n + 1)));
            }
        }
    }));
    v.push(fam("sizes", "total", move |e| {
        for n in (0..70).chain([127, 128, 129, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097, 65535, 65536, 65537]) {
            let r = |s: &str| s.repeat(n);
            e(format!("message A{} {{}}", r("a")));
            e(format!("option a = \"{}\";", r("é")));
            e(format!("option a = \"{}\";", r("\\u00e9")));
            e(format!("option a = \"{}", r("\\x")));
            e(format!("option a = {};", r("9")));
            e(format!("option a = 1.{};", r("9")));
            e(format!("option a = 1e{};", r("9")));
            e(format!("option a = {{ {} }};", r("a:1 ")));
            e(format!("/*{}*/", r("\n * é ")));
            e(format!("{}message A {{}}", r("// é\n")));
            e(format!("{}message A {{}}", r("\n")));
            e(format!("{}x", r("\n")));
            e(format!("{}x", r("é")));
            e(format!("{}", r("x message ")));
            e(format!("{}", r("message A { optional int32 a = 0; } ")));
            e(format!("package {}a;", r("a.")));
            e(format!("message A {{ reserved {}1; }}", r("1,")));
            e(format!("message A {{ optional int32 a = 1 [{}a = 1]; }}", r("a = 1,")));
        }
    }));
    v.push(fam_parts("file names", "total_name", move |e| {
        for n in ["a.proto", "", "é漢.proto", "a b.proto", "dir/sub/x", "a:1:2", "\n", "\u{1F600}", "..\\x", "%s{}"] {
            for t in CORPUS {
                e(vec![n.into(), t.into()]);
            }
            for t in ["x", "message A { optional int32 a = 0; }", "\n\né x", "package a; package b;", "message A {", "\"", "option a = \"é\\q\";", "é"] {
                e(vec![n.into(), t.into()]);
            }
        }
    }));
    for mut f in all_rules(tier) {
        f.judge = crate::judge_by_name("total");
        f.judge_name = "total";
        f.name = format!("well-formed errors: {}", f.name);
        v.push(f);
    }
    v
}

// ------------------------------------------------------------------------------------------------ C02

pub fn int_boundaries() -> Vec<String> {
    let mut out = vec![];
    let mut vals: Vec<u128> = (0..40).collect();
    for b in 5..=68 {
        let p = 1u128 << b;
        for d in -2i128..=2 {
            vals.push((p as i128 + d) as u128);
        }
    }
    for k in 1..=21u32 {
        let p = 10u128.pow(k);
        vals.extend([p - 1, p, p + 1]);
    }
    vals.extend([536_870_911, 536_870_910, 536_870_912, 19000, 19999, 20000]);
    vals.sort();
    vals.dedup();
    for v in vals {
        out.push(format!("{v}"));
        out.push(format!("0{v:o}"));
        out.push(format!("0x{v:x}"));
        out.push(format!("0X{v:X}"));
        if v % 7 == 3 {
            out.push(format!("000{v:o}"));
            out.push(format!("0x000{v:x}"));
        }
    }
    out.sort();
    out.dedup();
    out
}

const NUM_TYPES: [&str; 12] = [
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64",
];

pub fn c02(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("number characters in an option value", "desc", move |e| {
        const CH: [&str; 15] = ["0", "1", "8", ".", "e", "x", "f", "-", "+", "a", "E", "F", "X", "_", "7"];
        seqs(&CH, 1, if deep { 6 } else { 5 }, &mut |t| e(format!("option o = {t};")));
    }));
    v.push(fam("number characters in an aggregate", "desc", move |e| {
        const CH: [&str; 15] = ["0", "1", "8", ".", "e", "x", "f", "-", "+", "a", "E", "F", "X", "_", "7"];
        seqs(&CH, 1, if deep { 5 } else { 4 }, &mut |t| {
            e(format!("option o = {{a:{t}}};"));
            e(format!("option o = {{a:{t} }};"));
        });
    }));
    v.push(fam("long number texts", "desc", move |e| {
        const CH: [&str; 8] = ["0", "9", "1", ".", "e", "-", "+", "f"];
        // every shape mantissa.fraction e exponent with digit runs of several lengths
        let runs = ["", "0", "1", "12", "007", "1234567890", "99999999999999999999", "00000000000000000000001", "18446744073709551616", "17976931348623157", "49406564584124654"];
        let exps = ["", "e0", "e1", "E5", "e-1", "e+3", "e10", "e-10", "e22", "e23", "e-22", "e100", "e-100", "e292", "e293", "e308", "e309", "e-308", "e-309", "e-324", "e-325", "e-340", "e400", "e99999", "e-99999", "e0000000001"];
        for a in runs {
            for dot in ["", "."] {
                for b in runs {
                    if dot.is_empty() && !b.is_empty() {
                        continue;
                    }
                    for x in exps {
                        for suffix in ["", "f", "F", "x", "_"] {
                            let n = format!("{a}{dot}{b}{x}{suffix}");
                            e(format!("option o = {n};"));
                            e(format!("option o = -{n};"));
                            e(format!("option o = {{ a: {n} }};"));
                            e(format!("option o = {{ a: {n}"));
                        }
                    }
                }
            }
        }
        for n in 1..330 {
            e(format!("option o = {};", "9".repeat(n)));
            e(format!("option o = {}.0;", "9".repeat(n)));
            e(format!("option o = 0.{}1;", "0".repeat(n)));
            e(format!("option o = 1e{n};"));
            e(format!("option o = 4.9e-{n};"));
            e(format!("option o = 0{};", "7".repeat(n)));
            e(format!("option o = 0x{};", "f".repeat(n)));
            e(format!("option o = 0x{}1;", "0".repeat(n)));
            e(format!("option o = 0{}1;", "0".repeat(n)));
        }
        let _ = CH;
    }));
    v.push(fam("integer boundaries in every position", "desc", move |e| {
        for n in int_boundaries() {
            for s in ["", "-", "- "] {
                e(format!("option o = {s}{n};"));
                e(format!("option o = {{ {s}{n} }};"));
                for t in NUM_TYPES {
                    e(format!("message A {{ optional {t} a = 1 [default = {s}{n}]; }}"));
                }
                e(format!("message A {{ optional int32 a = {s}{n}; }}"));
                e(format!("message A {{ optional int32 a = 1; reserved {s}{n}; extensions {s}{n} to {n}; }}"));
                e(format!("enum A {{ B = {s}{n}; reserved {s}{n}, {s}{n} to {s}{n}; }}"));
                e(format!("option o = \"a\" {s}{n};"));
                for after in ["a", "_", "f", "x", "0", "é", "to", "/**/", "//\n", ".", "\""] {
                    e(format!("option o = {s}{n}{after};"));
                    e(format!("option o = {{ {s}{n}{after} }};"));
                }
            }
            e(format!("message A {{ reserved {n}to 5; }}"));
            e(format!("message A {{ reserved 1 to{n}; }}"));
            e(format!("message A {{ reserved 1 to {n}, {n}; }}"));
            e(format!("syntax = {n};"));
        }
    }));
    v.push(fam("all small integers", "desc", move |e| {
        for n in 0..if deep { 70000u32 } else { 5000 } {
            e(format!("option a = {n}; option b = 0{n:o}; option c = 0x{n:x}; option d = 0X{n:X}; option e = {n}.0; option f = {n}e0;"));
        }
        for hi in b'0'..=b'z' {
            for lo in b'0'..=b'z' {
                let (h, l) = (hi as char, lo as char);
                if h.is_ascii_alphanumeric() && l.is_ascii_alphanumeric() {
                    e(format!("option a = 0x{h}{l};"));
                    e(format!("option a = 0{h}{l};"));
                    e(format!("option a = 1{h}{l};"));
                    e(format!("option a = 1.{h}{l};"));
                    e(format!("option a = {{ b: 1.{h}{l} }};"));
                    e(format!("option a = {{ b: 0{h}{l} }};"));
                    e(format!("option a = {{ b: 3{h}{l} }};"));
                }
            }
        }
    }));
    v.push(fam("f suffixes before and after aggregates", "desc", move |e| {
        let pieces = ["option a = 1f;", "option b = { c: 2f };", "option d = { e: { f: 3F } };", "option g = 0F;", "option h = { i: 1.5f, j: 0f, k: 1e3F };", "option l = 1.5;", "option m = {};", "option n = 7;", "# c\n", "message Z { optional int32 a = 1 [(x) = { y: 1f }, z = 2f]; }"];
        lists(pieces.len(), 1, 3, &mut |ix| e(ix.iter().map(|i| pieces[*i]).collect::<Vec<_>>().join(" ")));
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C03

/// Places where a string literal may stand, `$` standing for the literal.
pub const STRING_PLACES: [&str; 14] = [
    "option o = $;",
    "option o = { a: $ };",
    "message A { optional bytes a = 1 [default = $]; }",
    "message A { optional string a = 1 [default = $]; }",
    "message A { optional int32 a = 1 [json_name = $]; }",
    "message A { optional int32 a = 1 [b = $]; }",
    "import $;",
    "message A { reserved $; }",
    "message A { reserved \"x\", $; }",
    "enum A { reserved $; }",
    "syntax = $;",
    "message A { map<int32, int32> a = 1 [json_name = $]; }",
    "enum A { B = 1 [c = $]; }",
    "extend A { optional string a = 1 [default = $]; }",
];

pub fn c03(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    const CH: [&str; 17] = ["a", "\"", "'", "\\", "x", "0", "7", "n", "8", "u", "U", "F", "é", "\n", "?", "\0", "\r"];
    v.push(fam("string bodies", "desc", move |e| {
        seqs(&CH, 0, if deep { 6 } else { 4 }, &mut |t| {
            e(format!("option o = \"{t}\";"));
            e(format!("option o = '{t}';"));
            if t.len() < 4 {
                e(format!("option o = \"{t}"));
                e(format!("option o = '{t}"));
            }
        })
    }));
    v.push(fam("string bodies where text is required", "desc", move |e| {
        const B: [&str; 12] = ["a", "\\x", "\\3", "0", "7", "C", "\\xA9", "é", "\\u00", "\\", "E", "\\303"];
        seqs(&B, 0, if deep { 5 } else { 3 }, &mut |t| {
            for p in STRING_PLACES {
                e(p.replace('$', &format!("\"{t}\"")));
            }
        })
    }));
    v.push(fam("every escape", "desc", move |e| {
        for q in ["\"", "'"] {
            for c in (1u32..0x180).chain([0x2028, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x10ffff]) {
                let Some(c) = char::from_u32(c) else { continue };
                e(format!("option o = {q}{c}{q};"));
                e(format!("option o = {q}a{c}b{q};"));
                for after in ["", "1", "a", "\\"] {
                    e(format!("option o = {q}\\{c}{after}{q};"));
                }
            }
            for v in 0..512u32 {
                for after in ["", "0", "7", "8", "a", "\\1"] {
                    e(format!("option o = {q}\\{v:o}{after}{q};"));
                    e(format!("option o = {q}\\{v:02o}{after}{q};"));
                    e(format!("option o = {q}\\{v:03o}{after}{q};"));
                }
            }
            for v in 0..256u32 {
                for after in ["", "0", "F", "g", "\\x1"] {
                    for x in ["x", "X"] {
                        e(format!("option o = {q}\\{x}{v:x}{after}{q};"));
                        e(format!("option o = {q}\\{x}{v:02X}{after}{q};"));
                    }
                }
            }
        }
        for v in 0..0x10000u32 {
            if deep || v < 0x900 || v % 97 == 0 || (0xd700..0xe100).contains(&v) || v > 0xff00 {
                e(format!("option o = \"\\u{v:04x}\";"));
                e(format!("option o = \"\\u{v:04X}1\";"));
                e(format!("option o = \"\\U{v:08x}\";"));
            }
        }
        for p in 0..=0x12u32 {
            for w in [0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff] {
                e(format!("option o = \"\\U{:08X}\";", p << 16 | w));
                e(format!("option o = \"\\U{:08x}a\";", p << 16 | w));
            }
        }
        for b in 24..32 {
            e(format!("option o = \"\\U{:08x}\";", 1u32 << b | 0x41));
        }
        for n in 0..9 {
            for d in ["1", "f", "0"] {
                e(format!("option o = \"\\u{}\";", d.repeat(n)));
                e(format!("option o = \"\\U{}\";", d.repeat(n)));
                e(format!("option o = \"\\U0000{}g\";", d.repeat(n)));
            }
        }
    }));
    v.push(fam("concatenation", "desc", move |e| {
        let lits = ["\"a\"", "'b'", "\"\"", "''", "\"\\x4\"", "\"1\"", "'\"'", "\"'\"", "\"\\\\\"", "'\\303'", "'\\251'"];
        let seps = [" ", "", "\n", "/* c */", "// c\n"];
        lists(lits.len(), 1, 4, &mut |ix| {
            let j = |s: &str| ix.iter().map(|i| lits[*i]).collect::<Vec<_>>().join(s);
            for s in &seps[..if ix.len() > 3 { 1 } else { seps.len() }] {
                e(format!("option o = {};", j(s)));
            }
            if ix.len() < 3 {
                for p in STRING_PLACES {
                    e(p.replace('$', &j(" ")));
                }
            }
        })
    }));
    v.push(fam("characters split over adjacent literals", "desc", move |e| {
        for ch in ['é', '\u{7ff}', '€', '\u{ffff}', '😀'] {
            let mut buf = [0; 4];
            let bytes = ch.encode_utf8(&mut buf).as_bytes();
            for cuts in 0..1u32 << (bytes.len() - 1) {
                for (form, around) in [(0, ""), (1, ""), (0, "a"), (1, "é")] {
                    let mut pieces = vec![around.to_owned()];
                    for (i, b) in bytes.iter().enumerate() {
                        if i > 0 && cuts >> (i - 1) & 1 == 1 {
                            pieces.push(String::new());
                        }
                        *pieces.last_mut().unwrap() += &if form == 0 { format!("\\x{b:02x}") } else { format!("\\{b:03o}") };
                    }
                    *pieces.last_mut().unwrap() += around;
                    for place in STRING_PLACES {
                        for n in 0..pieces.len() {
                            // whole, and with one piece missing
                            let lits: Vec<String> = pieces.iter().enumerate().filter(|(i, _)| n == 0 || *i != n).map(|(i, p)| if i % 2 == 0 { format!("\"{p}\"") } else { format!("'{p}'") }).collect();
                            e(place.replace('$', &lits.join(" ")));
                        }
                    }
                }
            }
        }
    }));
    v.push(fam("escapes and quotes next to each other", "desc", move |e| {
        const B: [&str; 16] = ["\\n", "\\\"", "\\'", "\\\\", "\\1", "\\12", "\\123", "\\x1", "\\xab", "\\u0041", "\\U00000042", "1", "a", "'", "\"", "é"];
        seqs(&B, 1, if deep { 5 } else { 3 }, &mut |t| {
            e(format!("option o = \"{t}\";"));
            e(format!("option o = '{t}';"));
            e(format!("message A {{ optional bytes a = 1 [default = \"{t}\"]; }}"));
            e(format!("option o = {{ a: '{t}' }};"));
        })
    }));
    v.push(fam("string sizes", "desc", move |e| {
        for n in (0..300).chain([511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537]) {
            e(format!("option o = \"{}\";", "a".repeat(n)));
            e(format!("option o = '{}\\n';", "é".repeat(n)));
            e(format!("option o = '{}';", "\\n".repeat(n)));
            e(format!("option o = '{}\\n{}';", "b".repeat(n), "c".repeat(n)));
            if n < 600 {
                e(format!("option o = {};", "'a' ".repeat(n)));
            }
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C04

/// Places inside each construct where tokens are enumerated; `$` is replaced.
pub const PLACES: [&str; 30] = [
    "$",
    "syntax = \"proto3\"; $",
    "import $ \"a\";",
    "import $;",
    "package $;",
    "package a $;",
    "option $ = 1;",
    "option a $ = 1;",
    "option a = $;",
    "option a = { $ };",
    "syntax = \"proto3\"; message A { $ }",
    "message A { $ }",
    "message A { optional $ a = 1; }",
    "message A { optional int32 $ = 1; }",
    "message A { optional int32 a = $; }",
    "message A { optional int32 a = 1 $; }",
    "message A { optional int32 a = 1 [ $ ]; }",
    "message A { map < $ > a = 1; }",
    "message A { map < int32 , $ > a = 1 ; }",
    "message A { optional group B = 1 $ }",
    "message A { oneof B { int32 c = 1; $ } }",
    "message A { reserved $; }",
    "message A { extensions $; }",
    "enum A { $ }",
    "enum A { reserved $; }",
    "extend $ { optional int32 a = 1; }",
    "extend A { $ }",
    "service A { $ }",
    "service A { rpc B ( $ ) returns ( C ) ; }",
    "service A { rpc B ( C ) $ }",
];

fn grammar_states(depth: usize) -> Arc<(Grammar, Vec<State>, Vec<State>)> {
    let g = Grammar::new();
    let a = g.explore(&[], depth);
    let b = g.explore(&["syntax", "=", "\"proto3\"", ";"], depth);
    Arc::new((g, a, b))
}

pub fn identifier_positions() -> Vec<&'static str> {
    vec![
        "message $ {}",
        "message A { optional int32 $ = 1; }",
        "message A { optional $ a = 1; }",
        "message A { optional .$ a = 1; }",
        "message A { optional $.b a = 1; }",
        "message A { optional a.$ a = 1; }",
        "syntax = \"proto3\"; message A { $ a = 1; }",
        "syntax = \"proto3\"; message A { $.b a = 1; }",
        "syntax = \"proto3\"; message A { .$ a = 1; }",
        "syntax = \"proto3\"; message A { int32 $ = 1; }",
        "message A { map<int32, $> a = 1; }",
        "message A { map<$, int32> a = 1; }",
        "message A { map<int32, .$> a = 1; }",
        "message A { map<int32, int32> $ = 1; }",
        "message A { optional group $ = 1 {} }",
        "message A { oneof $ { int32 a = 1; } }",
        "message A { oneof a { $ b = 1; } }",
        "message A { oneof a { $.c b = 1; } }",
        "message A { oneof a { int32 $ = 1; } }",
        "enum $ { A = 0; }",
        "enum A { $ = 0; }",
        "enum A { B = 0 [$ = 1]; }",
        "service $ {}",
        "service A { rpc $(B) returns (C); }",
        "service A { rpc B($) returns (C); }",
        "service A { rpc B(stream $) returns (C); }",
        "service A { rpc B($.x) returns (.$); }",
        "service A { rpc B(C) returns ($); }",
        "service A { rpc B(C) returns (stream $); }",
        "service A { rpc B(C) returns (stream .$); }",
        "extend $ { optional int32 a = 1; }",
        "extend .$ { optional int32 a = 1; }",
        "extend A.$ { optional int32 a = 1; }",
        "extend A { $ a = 1; }",
        "extend A { optional $ a = 1; }",
        "package $;",
        "package a.$;",
        "package $.a.b;",
        "option $ = 1;",
        "option a.$ = 1;",
        "option $.a = 1;",
        "option ($) = 1;",
        "option (.$) = 1;",
        "option (a.$).b = 1;",
        "option (a).$ = 1;",
        "option a = $;",
        "option a = -$;",
        "option a = { $: 1 };",
        "option a = { a: $ };",
        "option a = { [$.b]: 1 };",
        "message A { option $ = $; }",
        "message A { optional int32 a = 1 [$ = 5]; }",
        "message A { optional int32 a = 1 [(b).$ = 5]; }",
        "message A { optional a.B a = 1 [default = $]; }",
        "message A { optional double a = 1 [default = $]; }",
        "message A { optional bool a = 1 [default = $]; }",
        "message A { reserved \"$\"; }",
        "message A { reserved $; }",
        "message A { reserved 1 to $; }",
        "message A { extensions 1 to $; }",
        "import $ \"a\";",
        "$ A {}",
        "message A { $ B {} }",
        "message A { $ int32 a = 1; }",
        "service A { $ B(C) returns (D); }",
        "service A { rpc B(C) $ (D); }",
        "message A { extensions 1 to 5 [$ = 1]; }",
        "$",
        "$ = \"proto3\";",
    ]
}

pub fn c04(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    let st = Arc::new(OnceLock::new());
    let depth = if deep { 3 } else { 2 };
    let get = move |c: &Arc<OnceLock<Arc<(Grammar, Vec<State>, Vec<State>)>>>| c.get_or_init(|| grammar_states(depth)).clone();
    {
        let st = st.clone();
        v.push(fam("one edit from a sentence through every configuration (proto2)", "accept", move |e| {
            let s = get(&st);
            s.0.neighbours(&s.1, 1, e)
        }));
    }
    {
        let st = st.clone();
        v.push(fam("one edit from a sentence through every configuration (proto3)", "accept", move |e| {
            let s = get(&st);
            s.0.neighbours(&s.2, 1, e)
        }));
    }
    {
        let st = st.clone();
        v.push(fam("every transition of the grammar automaton", "accept", move |e| {
            let s = get(&st);
            s.0.steps(&s.1, e);
            s.0.steps(&s.2, e);
        }));
    }
    v.push(fam("two edits, shallow configurations", "accept", move |e| {
        let s = grammar_states(if deep { 1 } else { 0 });
        s.0.neighbours(&s.1, 2, e);
        if deep {
            s.0.neighbours(&s.2, 2, e);
        }
    }));
    v.push(fam("token sequences in every construct", "accept", move |e| {
        for p in PLACES {
            let toks = &crate::grammar::TOKENS[..];
            lists(toks.len(), 0, if deep { 3 } else { 2 }, &mut |ix| {
                e(p.replace('$', &ix.iter().map(|i| toks[*i]).collect::<Vec<_>>().join(" ")))
            });
        }
    }));
    v.push(fam("longer token sequences over small alphabets", "accept", move |e| {
        let k = usize::from(deep);
        let mut go = |p: &str, alpha: &[&str], max: usize| {
            lists(alpha.len(), 0, max + k, &mut |ix| {
                e(p.replace('$', &ix.iter().map(|i| alpha[*i]).collect::<Vec<_>>().join(" ")))
            })
        };
        go("message A { reserved $; }", &["1", "-", "to", "max", ",", "\"a\"", "5", "["], 5);
        go("message A { extensions $; }", &["1", "-", "to", "max", ",", "[", "]", "a", "="], 5);
        go("enum A { reserved $; }", &["1", "-", "to", "max", ",", "\"a\"", "5"], 5);
        go("option a = { $ };", &["a", ":", "1", "{", "}", "[", "]", ","], 5);
        go("option $ = 1;", &["a", ".", "(", ")", "b"], 6);
        go("package $;", &["a", ".", "package", "1"], 6);
        go("message A { optional $ = 1; }", &["a", ".", "map", "group", "<", ">", ",", "int32"], 5);
        go("syntax = \"proto3\"; message A { $ = 1; }", &["a", ".", "map", "optional", "<", ">", ",", "int32"], 5);
        go("message A { optional int32 a = 1 $; }", &["[", "]", "a", "=", "1", ",", ";"], 6);
        go("service A { rpc B ( $ ) returns ( C ); }", &["stream", ".", "a", "returns", "("], 5);
        go("service A { rpc B ( C ) returns ( $ ); }", &["stream", ".", "a", ")", ";"], 5);
        go("service A { rpc B ( C ) returns ( D ) $ }", &[";", "{", "}", "option a = 1 ;", "rpc", "option"], 5);
        go("import $;", &["weak", "public", "\"a\"", ";", "import"], 5);
        go("message A { oneof a { $ } }", &["int32 b = 1 ;", "option a = 1 ;", ";", "}", "{", "group B = 1 { }", "int32", "oneof"], 4);
        go("enum A { $ }", &["B = 0 ;", "option a = 1 ;", ";", "reserved 1 ;", "reserved", "option", "=", "1"], 4);
        go("$", &["message", "A", "{", "}", ";", "enum", "service", "extend"], 6);
        go("option a = $;", &["-", "+", "1", "a", "1.5", "'s'", "{", "}"], 5);
    }));
    v.push(fam("every word in every identifier position", "accept", move |e| {
        for p in identifier_positions() {
            for k in KEYWORDS {
                e(p.replace('$', k));
                let up = k[..1].to_uppercase() + &k[1..];
                e(p.replace('$', &up));
                e(p.replace('$', &format!("{k}_")));
            }
        }
        for p in ["message A { optional $ $ = 1; }", "syntax = \"proto3\"; message A { $ $ = 1; }", "message A { oneof a { $ $ = 1; } }", "service A { rpc $($) returns ($); }", "extend $ { optional $ $ = 5; }"] {
            for a in KEYWORDS {
                for b in KEYWORDS {
                    let s = p.replacen('$', a, 1).replacen('$', b, 1).replacen('$', a, 1);
                    e(s);
                }
            }
        }
    }));
    v.push(fam("characters at the start of a token", "accept", move |e| {
        for c in (1u32..0x250).chain([0x2028, 0x3000, 0xfeff, 0xff21, 0x1f600]) {
            let Some(c) = char::from_u32(c) else { continue };
            for p in ["$", "message A { $ }", "message $ {}", "message A$ {}", "message A {}$", "option a = $;", "option a = {$};", "message A { optional int32 a$= 1; }", "package a$b;", "// $\nmessage A {}", "/* $ */ message A {}"] {
                e(p.replace('$', &c.to_string()));
            }
        }
    }));
    v.push(fam("lists of every length with one slip at every place", "accept", move |e| {
        // (host, items taken in turn, separator)
        let lists: [(&str, &[&str], &str); 24] = [
            ("message A { reserved $; }", &["\"a\"", "\"b\"", "'c' 'd'"], ","),
            ("message A { reserved $; }", &["1", "3 to 5", "9 to max"], ","),
            ("message A { extensions $; }", &["1", "3 to 5", "9 to max"], ","),
            ("message A { extensions $ [a = 1]; }", &["1", "3 to 5"], ","),
            ("message A { extensions 1 [$]; }", &["a = 1", "(b).c = 'x'", "d = { e: 1 }"], ","),
            ("enum A { reserved $; B = 0; }", &["\"a\"", "'c'"], ","),
            ("enum A { reserved $; B = 0; }", &["1", "-3 to 5", "9 to max"], ","),
            ("enum A { B = 0 [$]; }", &["a = 1", "(.b).c = -1.5"], ","),
            ("message A { optional int32 a = 1 [$]; }", &["a = 1", "default = 1", "json_name = 'x'", "(b) = c"], ","),
            ("message A { optional group B = 1 [$] { } }", &["a = 1", "b = c"], ","),
            ("message A { map<int32, A> a = 1 [$]; }", &["a = 1", "b = c"], ","),
            ("message A { oneof o { int32 a = 1 [$]; } }", &["a = 1", "b = c"], ","),
            ("extend A { optional int32 a = 1 [$]; }", &["a = 1", "b = c"], ","),
            ("option $ = 1;", &["a", "(b)", "(.c.d)", "e"], "."),
            ("option ($) = 1;", &["a", "b"], "."),
            ("package $;", &["a", "package", "c"], "."),
            ("message A { optional $ a = 1; }", &["a", "b", "int32"], "."),
            ("message A { optional .$ a = 1; }", &["a", "b"], "."),
            ("message A { map<string, $> a = 1; }", &["a", "b"], "."),
            ("extend $ { optional int32 a = 1; }", &["a", "b"], "."),
            ("service A { rpc B($) returns (C); }", &["a", "b"], "."),
            ("service A { rpc B(C) returns (stream .$); }", &["a", "b"], "."),
            ("option a = $;", &["'a'", "\"b\"", "''"], ""),
            ("import $;", &["'a'", "\"b\""], ""),
        ];
        for (host, items, sep) in lists {
            for n in 0..=(if deep { 20 } else { 9 }) {
                let toks: Vec<&str> = (0..n).flat_map(|i| [sep, items[i % items.len()]]).skip(1).filter(|t| !t.is_empty()).collect();
                e(host.replace('$', &toks.join(" ")));
                for i in 0..=toks.len() {
                    for x in [",", ".", ";", "a", "1", "'x'", "-", "to", "max", "=", "(", ")", "[", "]", "{", "}", ":", "<", "/", "+", "optional", ".a", "to 2", ", ,"] {
                        let mut t = toks.clone();
                        t.insert(i, x);
                        e(host.replace('$', &t.join(" ")));
                        if i < toks.len() {
                            t.remove(i + 1);
                            e(host.replace('$', &t.join(" ")));
                        }
                    }
                    if i < toks.len() {
                        let mut t = toks.clone();
                        t.remove(i);
                        e(host.replace('$', &t.join(" ")));
                    }
                }
            }
        }
    }));
    v.push(fam("numbers of repeated parts and depths of nesting", "accept", move |e| {
        // (host, what is put in n times, closing part put in n times, what stands between)
        let forms: [(&str, &str, &str, &str); 46] = [
            ("$", "message A { ", "}", ""),
            ("message R { $ }", "optional group G = 1 { ", "}", ""),
            ("message R { $ }", "oneof o { group G = 1 { ", "} }", ""),
            ("message R { $ }", "extend R { optional group G = 1 { ", "} }", "optional int32 a = 1;"),
            ("option a = { $ };", "a { ", "}", ""),
            ("option a = { $ };", "a: { ", "}", "b: 1"),
            ("option a = { $ };", "{ ", "} b: 1", ""),
            ("option a = { $ };", "a: [ { ", "} ]", ""),
            ("message M { optional int32 a = 1 [x = { $ }]; }", "a { ", "}", ""),
            ("message M { extensions 1 [x = { $ }]; }", "a { ", "}", ""),
            ("service S { rpc R(A) returns (B) { option x = { $ }; } }", "a { ", "}", ""),
            ("service S { option x = { $ }; }", "a { ", "}", ""),
            ("enum E { Z = 0 [x = { $ }]; }", "a { ", "}", ""),
            ("enum E { option x = { $ }; Z = 0; }", "a { ", "}", ""),
            ("message M { oneof o { option x = { $ }; int32 a = 1; } }", "a { ", "}", ""),
            ("option a = { $ };", "{", "", "x"),
            ("option a = { $ };", "{", "}", "}"),
            ("option a = { $ };", "a : 1 ", "", ""),
            ("option a = $;", "'x' ", "", "'y'"),
            ("option a$ = 1;", ".a", "", ""),
            ("option a$ = 1;", ".(b.c)", "", ""),
            ("option (a$) = 1;", ".a", "", ""),
            ("package a$;", ".a", "", ""),
            ("message M { optional a$ b = 1; }", ".a", "", ""),
            ("extend a$ { optional int32 a = 1; }", ".a", "", ""),
            ("service S { rpc R(a$) returns (stream a$); }", ".a", "", ""),
            ("message M { map<int32, a$> b = 1; }", ".a", "", ""),
            ("message M { optional int32 a = 1 [x = 1$]; }", ", x = 1", "", ""),
            ("message M { reserved 1$; }", ", 1 to 2", "", ""),
            ("message M { reserved \"a\"$; }", ", \"b\"", "", ""),
            ("message M { extensions 1$; }", ", 5 to max", "", ""),
            ("enum E { reserved -1$; Z = 0; }", ", -5 to -2", "", ""),
            ("enum E { Z = 0; $ }", "A = 1;", "", ""),
            ("message M { $ }", "optional int32 a = 1;", "", ""),
            ("message M { oneof o { $ int32 a = 1; } }", "int32 a = 1;", "", ""),
            ("extend M { $ optional int32 a = 1; }", "optional int32 a = 1;", "", ""),
            ("service S { $ }", "rpc R(A) returns (B);", "", ""),
            ("service S { rpc R(A) returns (B) { $ } }", "option a = 1;", "", ""),
            ("service S { rpc R(A) returns (B) { $ } }", ";", "", ""),
            ("$", "import \"a\";", "", ""),
            ("$", "option a = 1;", "", ""),
            ("$", ";", "", ""),
            ("$", "message M {}", "", ""),
            ("message M { $ }", ";", "", ""),
            ("message M { $ }", "// c\n", "", "/* d */"),
            ("message M { $ }", " \t\n", "", ""),
        ];
        let ns: Vec<usize> = if deep { (0..140).chain([199, 200, 255, 256, 257, 300]).collect() } else { (0..70).chain([99, 100, 101, 127, 128, 129, 130]).collect() };
        for (host, a, b, mid) in forms {
            let many: &[usize] = if b.is_empty() { &[255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10000] } else { &[] };
            for n in ns.iter().chain(many) {
                let host = |t: String| host.replace('$', &t);
                e(host(format!("{}{mid}{}", a.repeat(*n), b.repeat(*n))));
                e(host(format!("{}{mid} ) {}", a.repeat(*n), b.repeat(*n))));
                if !b.is_empty() && *n > 0 {
                    e(host(format!("{}{mid}{}", a.repeat(*n), b.repeat(*n - 1))));
                    e(host(format!("{}{mid}{}", a.repeat(*n - 1), b.repeat(*n))));
                }
            }
        }
    }));
    v.push(fam("sequences of file statements", "accept", move |e| {
        let pool = ["syntax = \"proto3\";", "syntax = \"proto2\";", "import \"a\";", "package p;", "option a = 1;", "message A {}", "enum E {}", "service S {}", "extend A {}", ";", "import public \"b\";", "x"];
        items("", &pool, "", 0, if deep { 5 } else { 4 }, true, e);
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C05

pub const MSG_ITEMS: [&str; 16] = [
    "optional int32 f# = @;",
    "repeated .a.B f# = @ [deprecated=true];",
    "message N# {}",
    "message N# { optional int32 x# = 1; message Q# {} }",
    "enum E# { A# = 0; }",
    "oneof o# { int32 g# = @; string h# = @; }",
    "extend X.Y { optional int32 e# = @; }",
    "map<string, T> m# = @;",
    "optional group G# = @ { optional int32 z# = 1; }",
    "reserved @ to @;",
    "reserved \"r#\", \"s#\";",
    "extensions @ to max, @;",
    "option o# = 1;",
    ";",
    "oneof o# { group H# = @ { message N# {} } int32 g# = @; }",
    "extend X.Y { repeated group K# = @ { } optional N# l# = @; }",
];

pub const FILE_ITEMS: [&str; 14] = [
    "import \"i#\";",
    "import public \"p#\";",
    "import weak \"w#\";",
    "option o# = \"v#\";",
    "message M# { optional int32 a# = 1; }",
    "message M# { message N# { enum O# { P# = 1; } } }",
    "enum E# { A# = 0; B# = 1; }",
    "service S# { rpc R#(A) returns (stream B); }",
    "extend X# { optional int32 e# = @; optional string f# = @; }",
    ";",
    "extend Y { optional group G# = @ { } }",
    "service S# { option x# = 1; }",
    "enum E# { reserved 5; reserved \"q#\"; C# = -1; }",
    "message M# { map<int32, M#> m# = 1; extend Z { optional M# n# = @; } }",
];

/// Names of every length up to past two powers of two, and around the powers of two beyond them, in every place that
/// takes a name.
fn long_names(e: &mut dyn FnMut(String)) {
    let lengths = (1..=140usize).chain([191, 192, 193, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]);
    let places = [
        "message $ { optional int32 a = 1; }",
        "message A { optional int32 $ = 1; }",
        "syntax = \"proto3\"; message A { optional int32 $ = 1; }",
        "message A { map<int32, string> $ = 1; }",
        "message A { optional group X$ = 1 { } }",
        "extend A { optional group X$ = 1 { } repeated int32 $ = 2; }",
        "message A { oneof $ { int32 b = 1; } oneof c { group X$ = 2 { } int32 $ = 3; } }",
        "enum $ { A = 0; }",
        "enum A { $ = 0; }",
        "service $ { rpc A(B) returns (C); }",
        "service A { rpc $(B) returns (C); }",
        "service A { rpc D(B) returns (C) { option $ = 1; } }",
        "message A { optional int32 a = 1 [json_name = \"$\"]; }",
        "message A { optional string a = 1 [default = \"$\"]; optional B b = 2 [default = $]; }",
        "message A { reserved \"$\", '$'; } enum B { reserved \"$\"; C = 0; }",
        "import \"$\"; import public '$.proto';",
        "option x = $; option y = \"$\"; option z = { $: $ };",
        "option x = { [$.a] { } [a.com/$]: 1 };",
    ];
    let typed = [
        "service A { rpc D($) returns (stream $); }",
        "service A { rpc D(stream $) returns ($) { option a = 1; } }",
        "message A { optional $ a = 1; map<int32, $> b = 2; oneof c { $ d = 3; } extend $ { repeated $ e = 4; } }",
        "syntax = \"proto3\"; message A { $ a = 1; repeated $ b = 2; }",
        "extend $ { required $ a = 1; }",
        "option ($) = 1; option ($).a = 2; option a.($).b = 3;",
    ];
    for n in lengths {
        let cut = |unit: &str| unit.chars().cycle().take(n).collect::<String>();
        for name in [cut("b"), cut("a_"), cut("aB1_"), cut("Z"), cut("_")] {
            for p in places {
                e(p.replace('$', &name));
            }
            for p in typed {
                e(p.replace('$', &name));
                e(p.replace('$', &format!(".a.{name}")));
                e(p.replace('$', &format!("{name}.c")));
            }
        }
        let dotted = cut("a.").trim_end_matches('.').to_owned();
        for t in [dotted.clone(), format!(".{dotted}"), format!("{dotted}.Bc")] {
            for p in typed {
                e(p.replace('$', &t));
            }
            e(format!("option {} = 1;", t.trim_start_matches('.')));
            e(format!("package {};", t.trim_start_matches('.')));
        }
    }
}

/// The limits of every number, spelled with padding of every length.
fn padded_numbers(e: &mut dyn FnMut(String)) {
    let places = [
        "message A { optional int32 a = $; }",
        "message A { map<int32, T> a = $; optional group B = $ { } }",
        "extend A { optional int32 a = $; }",
        "message A { reserved $; extensions 5 to $; }",
        "message A { reserved $ to max; extensions $ to 536870911; }",
        "enum A { B = $; }",
        "enum A { B = 0; reserved $; reserved -2147483648 to $; }",
        "enum A { B = 0; reserved $ to max, $ to 2147483647; }",
    ];
    for b in [1u64, 18999, 19000, 19999, 20000, 536870911, 536870912, 2147483647, 2147483648, 2147483649, 4294967296, u64::MAX] {
        for pad in (0..24).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
            let zeros = "0".repeat(pad);
            let space = " ".repeat(pad);
            let mut spelled = vec![format!("0x{zeros}{b:x}"), format!("0X{zeros}{b:X}"), format!("0{zeros}{b:o}"), format!("-0x{zeros}{b:x}"), format!("-0{zeros}{b:o}"), format!("-{space}{b}"), format!("{space}{b}")];
            if pad > 0 {
                spelled.push(format!("-{}{b}", "\n".repeat(pad)));
                spelled.push(format!("-/*{space}*/{b}"));
            }
            for x in spelled {
                for p in places {
                    e(p.replace('$', &x));
                }
            }
        }
    }
}

/// Tokens of every length where another one was expected.
fn long_tokens(e: &mut dyn FnMut(String)) {
    let lengths = (1..=140usize).chain([191, 192, 193, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]);
    for n in lengths {
        let cut = |unit: &str| unit.chars().cycle().take(n).collect::<String>();
        for t in [
            cut("b"),
            cut("Zy_9"),
            format!("0{}7", "0".repeat(n)),
            format!("0x{}f", "0".repeat(n)),
            format!("0.{}", cut("123")),
            format!("1{}.5", "0".repeat(n.min(300))),
            format!("\"{}\"", cut("ab ")),
            format!("'{}'", cut("\u{e9}a")),
            format!("'{}'", cut("\\n").trim_end_matches('\\')),
            format!("'{}'", cut("\"")),
        ] {
            for p in ["$", "message $", "message A $", "message A { $ }", "message A { optional int32 a $", "message A { optional int32 a = 1 $", "enum A { B = $", "service A { rpc $", "option a = { b: 1, $ ) }", "import $", "package a.$", "package a; $ = 1;"] {
                e(p.replace('$', &t));
            }
        }
        // The same with a long token elsewhere.
        for t in [cut("b"), cut("Zy_9")] {
            for p in ["message $ {} }", "syntax = \"$\";", "package $; package a;", "package a.$; package b.$;", "message A { int32 $ = 1; }", "message A { optional group b$ = 1 { } }", "syntax = \"proto3\"; message A { required $ a = 1; }", "message A { map<$, int32> a = 1; }", "message A { oneof $ { } }", "extend A { map<int32, int32> $ = 1; }", "message A { optional int32 $ = 0; optional int32 $ = 536870912; }", "enum A { $ = 4294967296; }", "message A { optional int32 a = 1 [default = $]; optional bool b = 2 [default = $]; optional float c = 3 [default = $]; }", "message A { reserved 5 to $; }"] {
                e(p.replace('$', &t));
            }
        }
    }
}

/// Every rule that depends on the syntax or the scope, broken and kept, behind and below other declarations.
fn rules_anywhere(deep: bool, e: &mut dyn FnMut(String)) {
    let syntaxes = ["", "syntax = \"proto2\"; ", "syntax = \"proto3\"; "];
    let fields = [
        "int32 f = 500;", "optional int32 f = 500;", "required int32 f = 500;", "repeated .a.T f = 500;", "required T f = 500;", "optional group F = 500 { }", "group F = 500 { }", "map<int32, T> f = 500;", "map<float, T> f = 500;",
        "optional map<int32, T> f = 500;", "oneof f { }", "oneof f { int32 g = 500; }", "oneof f { optional int32 g = 500; }", "oneof f { map<int32, int32> g = 500; }", "optional int32 f = 500 [default = 3];", "int32 f = 500 [default = 3];", "repeated int32 f = 500 [default = 3];",
        "optional int32 f = 500 [default = 3000000000];", "optional bool f = 500 [default = 1];", "optional T f = 500 [default = G];", "map<int32, int32> f = 500 [default = 1];", "optional string f = 500 [json_name = 1];", "optional string f = 500 [json_name = 'a', json_name = 'b'];",
        "extend T { required int32 f = 500; }", "extend T { map<int32, int32> f = 500; }", "extend T { int32 f = 500; }", "extend T { optional int32 f = 500 [default = 'a']; }", "optional int32 f = 0;", "optional int32 f = 19500;", "optional int32 f = 536870912;",
        "reserved 0;", "reserved 536870912;", "extensions 7 to max;", "extensions 0;", "enum F { A = 3000000000; }", "reserved 5 to 4;",
    ];
    let before = [
        "", "optional int32 b# = @; ", "int32 b# = @; ", "repeated T b# = @ [packed = true]; ", "map<int32, T> b# = @; ", "oneof b# { int32 c# = @; } ", "oneof b# { T c# = @ [x = 1]; } ", "message B# { } ", "message B# { oneof c { int32 d = 1; } optional int32 e = 2; } ", "enum B# { C# = 0; } ",
        "extend T { optional int32 b# = @; } ", "extend T { repeated T b# = @ [json_name = 'q']; } ", "optional group B# = @ { } ", "required int32 b# = @; ", "optional int32 b# = @ [default = 3]; ", "optional string b# = @ [json_name = \"b\", default = \"x\"]; ", "reserved @; ", "reserved \"b#\"; ", "extensions @; ", "option a = 1; ",
        "option message_set_wire_format = true; ", "message B# { map<int32, int32> m = 1; } ", "; ",
    ];
    for syn in syntaxes {
        for f in fields {
            for (i, b) in before.iter().enumerate() {
                let b = fill(b, 1, true);
                e(format!("{syn}message A {{ {b}{f} }}"));
                e(format!("{syn}message A {{ {f} {b}}}"));
                e(format!("{syn}message A {{ {b}message D {{ {f} }} }}"));
                e(format!("{syn}message A {{ message D {{ {b}}} {f} }}"));
                e(format!("{syn}message D {{ {b}}} message A {{ {f} }}"));
                for (j, c) in before.iter().enumerate().skip(1) {
                    if i > 0 && (deep || (i + j) % 2 == 0) {
                        e(format!("{syn}message A {{ {b}{}{f} }}", fill(c, 2, true)));
                        e(format!("{syn}message A {{ {b}message D {{ {}{f} }} }}", fill(c, 2, true)));
                    }
                }
            }
            for n in 1..=if deep { 40 } else { 20 } {
                for open in ["message D { ", "optional group D = 7 { ", "message D { oneof o { int32 x = 8; } ", "message D { map<int32, D> y = 9; ", "extend E { optional group D = 7 { ", "oneof o { group D = 7 { "] {
                    let close = "}".repeat(open.matches('{').count() - open.matches('}').count());
                    e(format!("{syn}message A {{ {}{f}{} }}", open.repeat(n), close.repeat(n)));
                }
            }
            for n in (1..20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
                for b in ["optional int32 b# = @; ", "message B# { } ", "oneof b# { int32 c# = @; } ", "map<int32, T> b# = @; ", "reserved @; "] {
                    let many: String = (1..=n).map(|i| fill(b, i, true)).collect();
                    e(format!("{syn}message A {{ {many}{f} }}"));
                }
            }
        }
    }
}

pub fn c05(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("names of every length", "desc", long_names));
    v.push(fam("counts at two levels", "desc", move |e| counts_of_two_levels(deep, e)));
    for uniq in [true, false] {
        v.push(fam(format!("sequences of message items, distinct names {uniq}"), "desc", move |e| {
            items("message A { ", &MSG_ITEMS, " }", 0, if deep { 4 } else { 3 }, uniq, e);
            items("message Z { message A { ", &MSG_ITEMS, " } optional A a = 1; }", 1, 2, uniq, e);
            items("message Z { optional group A = 1 { ", &MSG_ITEMS, " } }", 1, 2, uniq, e);
            items("extend Z { optional group A = 1 { ", &MSG_ITEMS, " } }", 1, 2, uniq, e);
            items("message Z { oneof o { int32 q = 50; group A = 1 { ", &MSG_ITEMS, " } } }", 1, 2, uniq, e);
        }));
        v.push(fam(format!("sequences of file items, distinct names {uniq}"), "desc", move |e| {
            items("", &FILE_ITEMS, "", 0, if deep { 4 } else { 3 }, uniq, e);
            items("syntax = \"proto2\"; package a.b; ", &FILE_ITEMS, "", 0, 2, uniq, e);
        }));
    }
    v.push(fam("sequences of proto3 message items", "desc", move |e| {
        let pool = [
            "int32 f# = @;", "optional int32 f# = @;", "repeated F f# = @;", "oneof o# { int32 g# = @; }", "map<int32, F> m# = @;", "message N# { optional N# x = 1; }", "enum E# { Z# = 0; }", "optional .q.R s# = @ [json_name = \"j#\"];", ";", "reserved \"r#\";",
        ];
        items("syntax = \"proto3\"; message A { ", &pool, " }", 0, if deep { 5 } else { 4 }, true, e);
    }));
    v.push(fam("sequences of enum, oneof, extend and service items", "desc", move |e| {
        let n = if deep { 6 } else { 5 };
        items("enum A { ", &["A# = @;", "B = -@ [x = 1];", "reserved @, -@ to max;", "reserved \"n#\", 'm#';", "option o# = 1;", ";"], " }", 0, n, true, e);
        items("message M { oneof A { int32 first = 100; ", &["int32 a# = @;", ".x.Y b# = @ [d = 1];", "option o# = 1;", "group G# = @ { }", ";"], " } }", 0, n, true, e);
        items("extend A { ", &["optional int32 a# = @;", "repeated x.Y b# = @ [d = 1];", "optional group G# = @ { }", ";"], " }", 0, n, true, e);
        items("service A { ", &["rpc R#(a) returns (b);", "rpc R#(stream .a) returns (stream b.c) {}", "rpc R#(a) returns (stream b) { option o# = 1; }", "rpc R#(stream a) returns (b) { ; option o# = 1; option p# = 2; ; }", "option o# = 1;", ";"], " }", 0, n, true, e);
    }));
    v.push(fam("rpc types and streaming", "desc", move |e| {
        let types = ["a", ".a", "a.b", ".a.b.c", "stream", ".stream", "stream.x", "stream .x", "stream a", "stream stream", "stream .stream", "stream.stream", "stream stream.a", "returns", "rpc", "streams", "stream a.stream"];
        for x in types {
            for y in types {
                for end in [";", "{}", "{ option a = 1; }", "{;}"] {
                    e(format!("service S {{ rpc M({x}) returns ({y}){end} rpc N(A) returns (B); }}"));
                    e(format!("service S {{ rpc M ( {x} ) returns\n( {y} )\n{end} }}"));
                }
            }
        }
    }));
    v.push(fam("spelling of type names", "desc", move |e| {
        let dots = [".", " .", ". ", " . ", "/**/./**/", "\n.\n", " // c\n."];
        let parts = ["a", "A1", "_", "int32", "message", "x_y"];
        for lead in ["", ".", ". ", "./**/"] {
            for d in dots {
                for n in 1..=3 {
                    lists(parts.len(), n, n, &mut |ix| {
                        let t = format!("{lead}{}", ix.iter().map(|i| parts[*i]).collect::<Vec<_>>().join(d));
                        e(format!("message M {{ optional {t} f = 1; }}"));
                        if n < 3 {
                            e(format!("message M {{ map<string, {t}> f = 1; oneof o {{ {t} g = 2; }} extend {t} {{ repeated {t} h = 3; }} }} service S {{ rpc R({t}) returns (stream {t}); }} option ({t}).x = 1; extend {t} {{ optional {t} i = 4; }}"));
                            e(format!("syntax = \"proto3\"; message M {{ {t} f = 1; }}"));
                            e(format!("syntax = \"proto3\"; message M {{ {t} f = 1; oneof o {{ {t} g = 2; }} repeated {t} h = 3; }}"));
                        }
                        if lead.is_empty() {
                            e(format!("package {t};"));
                        }
                    })
                }
            }
        }
    }));
    v.push(fam("counts and sizes", "desc", move |e| {
        let ns: Vec<usize> = (0..70).chain([99, 100, 101, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1001, 1024, 1025]).chain(if deep { vec![4096, 32767, 32768, 65535, 65536, 65537] } else { vec![] }).collect();
        for n in ns {
            let all = |t: &str| (0..n).map(|i| fill(t, i, true)).collect::<Vec<_>>().join("\n");
            for t in MSG_ITEMS {
                e(format!("message A {{ {} }}", all(t)));
            }
            for t in FILE_ITEMS {
                e(all(t));
            }
            e(format!("enum A {{ {} }}", all("A# = @;")));
            e(format!("enum A {{ {} }}", all("reserved @ to @;")));
            e(format!("service A {{ {} }}", all("rpc R#(A) returns (B);")));
            e(format!("message A {{ oneof o {{ {} }} }}", all("int32 a# = @;") + "int32 z = 1;"));
            e(format!("extend A {{ {} }}", all("optional int32 a# = @;")));
            e(format!("message A {{ reserved {}1; }}", all("@ to @,")));
            e(format!("message A {{ reserved {}\"x\"; }}", all("\"a#\",")));
            e(format!("message A {{ optional int32 a = 1 [{}z = 1]; }}", all("o# = @,")));
            e(format!("option a = {{ {} }};", all("o#: @")));
            e(format!("option {}z = 1;", all("(a#).b#.")));
            e(format!("package {}z;", all("a#.")));
            let long = "n".repeat(n + 1);
            e(format!("package {long}; message {long} {{ optional {long} {long} = 1; oneof {long} {{ int32 {long} = 2; }} reserved \"{long}\"; }} enum {long} {{ {long} = 1; }} service {long} {{ rpc {long}({long}) returns ({long}); }} option {long} = {long};"));
        }
    }));
    v.push(fam("every word in every identifier position", "desc", move |e| {
        for p in identifier_positions() {
            for k in KEYWORDS {
                e(p.replace('$', k));
                let up = k[..1].to_uppercase() + &k[1..];
                e(p.replace('$', &up));
            }
        }
    }));
    v.push(fam("varied files, one after another", "desc", move |e| {
        for a in CORPUS {
            e(a.to_owned());
            for b in CORPUS {
                let strip = |s: &str| s.replace("syntax = \"proto3\";", "").replace("syntax=\"proto3\";", "").replace("syntax = \"proto2\";", "");
                e(format!("{a}\n{}", strip(b)));
                e(format!("{}\n{}", strip(a), strip(b)));
            }
        }
    }));
    v.push(fam("nesting", "desc", move |e| {
        for n in 1..=40 {
            for (a, b) in [
                ("message A { optional int32 x = 1; ", "optional A y = 2; }"),
                ("optional group G = 1 { required int32 x = 1; ", " optional int32 y = 2; }"),
                ("message A { enum E { Z = 0; } extend A { optional E x = 1; optional group G = 2 {", "} } oneof o { int32 z = 1; } }"),
            ] {
                e(format!("message R {{ {}{} }}", a.repeat(n), b.repeat(n)));
            }
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C06

/// Scopes a field may stand in, `$` for the field.
pub const SCOPES: [&str; 13] = [
    "message A { $ }",
    "message A { message B { $ } }",
    "message A { oneof B { $ } }",
    "message A { oneof B { int32 first = 900; $ } }",
    "extend A { $ }",
    "message A { extend B { $ } }",
    "message A { message B { oneof C { $ } } }",
    "message A { oneof B { int32 b = 901; } $ optional int32 after = 902; }",
    "message A { extend B { optional int32 b = 901; } $ repeated int32 after = 902; }",
    "extend A { optional int32 first = 900; $ } message B { repeated string s = 1; }",
    "enum E { Z = 0; } message A { extend B { repeated int32 b = 901; $ } }",
    "message A { message X { extend Y { $ } } }",
    "message A { oneof B { int32 b = 901; } oneof C { $ } }",
];
pub const GROUP_SCOPES: [&str; 5] = [
    "message A { optional group B = 800 { $ } }",
    "message A { oneof O { group B = 800 { $ } } }",
    "extend A { optional group B = 800 { $ } }",
    "message A { optional group B = 800 { oneof O { $ } } }",
    "message A { repeated group B = 800 { extend X { $ } } }",
];

pub fn c06(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("every rule behind and below other declarations", "desc", move |e| rules_anywhere(deep, e)));
    let syntaxes = ["", "syntax = \"proto2\";", "syntax = \"proto3\";"];
    let labels = ["", "optional ", "required ", "repeated "];
    v.push(fam("syntax × scope × label × kind × options", "desc", move |e| {
        let mut kinds: Vec<String> = SCALARS.iter().map(|s| s.to_string()).collect();
        kinds.extend(["T", ".T", "a.T", ".a.b.T"].map(String::from));
        let mut fields: Vec<String> = kinds.iter().map(|k| format!("{k} f = 1$;")).collect();
        for k in SCALARS.iter().chain(&["T", ".T", "a.b"]) {
            fields.push(format!("map<{k}, int32> f = 1$;"));
            fields.push(format!("map<int32, {k}> f = 1$;"));
        }
        fields.push("group F = 1$ { }".into());
        fields.push("group F = 1$ { optional int32 x = 1; repeated int32 y = 2; }".into());
        fields.push("group F = 1$ { int32 x = 1; }".into());
        let opts = ["", " [default = 1]", " [default = \"a\"]", " [default = true]", " [json_name = \"x\"]", " [deprecated = true]", " [deprecated = true, default = 0]", " [default = FOO, json_name = \"y\"]"];
        for syn in syntaxes {
            for sc in SCOPES.iter().chain(&GROUP_SCOPES) {
                for l in labels {
                    for f in &fields {
                        for o in opts {
                            e(format!("{syn}{}", sc.replace('$', &format!("{l}{}", f.replace('$', o)))));
                        }
                    }
                }
            }
        }
    }));
    v.push(fam("pairs of fields", "desc", move |e| {
        let fs = ["int32 f# = @;", "optional T f# = @;", "required int32 f# = @;", "repeated int32 f# = @;", "map<int32, T> f# = @;", "group F# = @ {}", "optional group F# = @ { optional int32 x = 1; }", "optional int32 f# = @ [default = 3];", "repeated group F# = @ { repeated int32 q = 1; }", "oneof o# { int32 f# = @; }", "oneof o# { T f# = @; group F# = @ {} }", "oneof o# { }", "oneof o# { option a = 1; }", "oneof o# { ; }", "message M# { optional T g = 1; }", "extend E { optional int32 f# = @; }"];
        for syn in syntaxes {
            items(&format!("{syn} message A {{ "), &fs, " }", 1, if deep { 4 } else { 3 }, true, e);
            items(&format!("{syn} message A {{ message B {{ "), &fs, " } optional int32 z = 99; }", 1, 2, true, e);
            items(&format!("{syn} message A {{ oneof B {{ "), &fs[..9], " } }", 0, 2, true, e);
            items(&format!("{syn} extend B {{ "), &fs[..9], " }", 0, if deep { 3 } else { 2 }, true, e);
            items(&format!("{syn} message A {{ extend B {{ "), &fs[..9], " } optional int32 z = 99; }", 0, 2, true, e);
            items(&format!("{syn} message A {{ optional group B = 7 {{ "), &fs, " } }", 0, 2, true, e);
        }
    }));
    v.push(fam("map key and value types", "desc", move |e| {
        let mut t: Vec<String> = KEYWORDS.iter().map(|s| s.to_string()).collect();
        t.extend([".a", "a.b", ".int32", "int32.a", "Foo", "string_", "Int32"].map(String::from));
        for syn in syntaxes {
            for k in &t {
                for x in &t {
                    e(format!("{syn} message A {{ map<{k}, {x}> f = 1; }}"));
                }
            }
        }
    }));
    v.push(fam("empty and filled oneofs", "desc", move |e| {
        let pool = ["int32 a# = @;", "T b# = @ [x = 1];", "option c# = 1;", ";", "group G# = @ { }", "optional int32 d# = @;", "map<int32, int32> e# = @;"];
        for syn in syntaxes {
            items(&format!("{syn} message A {{ oneof x {{ "), &pool, " } }", 0, 4, true, e);
            items(&format!("{syn} message A {{ oneof w {{ int32 q = 77; }} oneof x {{ "), &pool, " } message B { oneof y { int32 z = 1; } } }", 0, 3, true, e);
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C07

pub fn numbers() -> Vec<String> {
    let mut v: Vec<String> = [
        "0", "1", "2", "3", "5", "15", "16", "127", "128", "255", "256", "2047", "2048", "18999", "19000", "19500", "19999", "20000", "32767", "32768", "65535", "65536", "16777215", "16777216",
        "268435455", "268435456", "536870909", "536870910", "536870911", "536870912", "536870913", "1073741823", "1073741824", "2147483645", "2147483646", "2147483647", "2147483648", "2147483649", "4294967294", "4294967295", "4294967296", "4294967297",
        "4831838208", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551614", "18446744073709551616",
        "0x1fffffff", "0x20000000", "03777777777", "04000000000", "0x7fffffff", "0x80000000", "017777777777", "020000000000", "0x0", "00", "01", "0xFFFFFFFF", "0x100000001",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let neg: Vec<String> = v.iter().map(|s| format!("-{s}")).collect();
    v.extend(neg);
    v
}

pub fn c07(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("limits with padding", "desc", padded_numbers));
    v.push(fam("every number in every position", "desc", move |e| {
        let places = [
            "message A { optional int32 a = $; }",
            "message A { repeated T a = $ [deprecated = true]; }",
            "message A { map<int32, T> a = $; }",
            "message A { optional group A = $ { } }",
            "message A { oneof o { int32 a = $; } }",
            "message A { oneof o { group A = $ { } } }",
            "extend A { optional int32 a = $; }",
            "extend A { optional group A = $ { } }",
            "message A { extend B { repeated T a = $; } }",
            "message A { message B { optional group C = 1 { optional int32 a = $; } } }",
            "syntax = \"proto3\"; message A { int32 a = $; optional int32 b = 1; }",
            "enum A { B = $; }",
            "enum A { Z = 0; B = $ [deprecated = true]; C = 1; }",
            "message A { enum E { B = $; } }",
            "message A { reserved $; }",
            "message A { reserved $ to max; }",
            "message A { reserved 1, $, 7; }",
            "message A { extensions $; }",
            "message A { extensions $ to max; }",
            "message A { extensions 1 to 3, $ to max [x = 1]; }",
            "message A { extensions $ [x = 1]; }",
            "message A { option message_set_wire_format = true; extensions $ to max; reserved $; }",
            "message A { extensions $ to max; option message_set_wire_format = true; optional int32 a = $; }",
            "message A { option message_set_wire_format = false; extensions $ to max; }",
            "enum A { reserved $; }",
            "enum A { reserved $ to max; }",
            "enum A { reserved 1, $, -7; B = 0; }",
            "message A { optional group G = 1 { reserved $; extensions $ to max; } }",
        ];
        for p in places {
            for n in numbers() {
                e(p.replace('$', &n));
                if n.starts_with('-') {
                    e(p.replace('$', &n.replace('-', "- /* c */ ")));
                }
            }
        }
    }));
    v.push(fam("every pair of numbers as a range", "desc", move |e| {
        for p in ["message A { reserved $; }", "message A { extensions $; }", "enum A { reserved $; }", "message A { extensions $; option message_set_wire_format = true; }", "message A { reserved $; option message_set_wire_format = true; }", "message A { message B { option message_set_wire_format = true; } extensions $; }", "message A { optional group G = 1 { extensions $; option message_set_wire_format = true; } }"] {
            for a in numbers() {
                for b in numbers() {
                    e(p.replace('$', &format!("{a} to {b}")));
                }
            }
        }
    }));
    v.push(fam("lists of ranges", "desc", move |e| {
        let r = ["1", "0", "-1", "5 to 9", "9 to max", "536870911", "536870912", "1 to 536870911", "2147483647", "-2147483648 to max", "7 to 7", "9 to 5", "2147483646", "536870911 to max", "max"];
        lists(r.len(), 1, if deep { 4 } else { 3 }, &mut |ix| {
            let l = ix.iter().map(|i| r[*i]).collect::<Vec<_>>().join(", ");
            e(format!("message A {{ reserved {l}; }}"));
            e(format!("message A {{ extensions {l}; }}"));
            e(format!("enum A {{ reserved {l}; }}"));
        });
    }));
    v.push(fam("message_set_wire_format", "desc", move |e| {
        let opts = [
            "option message_set_wire_format = true;", "option message_set_wire_format = false;", "option message_set_wire_format = 1;", "option message_set_wire_format = \"true\";", "option message_set_wire_format = -true;", "option message_set_wire_format = True;", "option message_set_wire_format = {};",
            "option (message_set_wire_format) = true;", "option a.message_set_wire_format = true;", "option message_set_wire_format.a = true;", "option deprecated = true;", "option message_set = true;",
            "extensions 4 to max;", "extensions 100;", "reserved 1 to max;", "reserved 536870911 to max;", "message B { extensions 4 to max; }", "message B { option message_set_wire_format = true; extensions 4 to max; }", "optional group G = 9 { extensions 4 to max; }", "enum E { Z = 0; reserved 1 to max; }",
        ];
        items("message A { ", &opts, " }", 1, if deep { 4 } else { 3 }, true, e);
        items("option message_set_wire_format = true; message A { ", &opts, " } message C { extensions 1 to max; }", 1, 2, true, e);
        items("message Z { option message_set_wire_format = true; message A { ", &opts, " } extensions 1 to max; }", 1, 2, true, e);
    }));
    v.push(fam("runs of numbers", "desc", move |e| {
        let mut run = |lo: i64, hi: i64| {
            for n in lo..=hi {
                e(format!("message A {{ optional int32 a = {n}; }}"));
                e(format!("message A {{ reserved {n}; extensions {n} to max; }}"));
                e(format!("enum A {{ A = {n}; reserved {n}, {n} to max; }}"));
            }
        };
        let w = if deep { 3000 } else { 300 };
        run(-w, w);
        run(536_870_911 - w, 536_870_911 + w);
        run(i32::MAX as i64 - w, i32::MAX as i64 + w);
        run(i32::MIN as i64 - w, i32::MIN as i64 + w);
        run(u32::MAX as i64 - w, u32::MAX as i64 + w);
        run(19000 - 10, 20010);
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C08

pub fn c08(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("every rule behind and below other declarations", "desc", move |e| rules_anywhere(deep, e)));
    fn values() -> Vec<String> {
        let mut v: Vec<String> = [
            "true", "false", "TRUE", "True", "inf", "nan", "INF", "NaN", "Inf", "infinity", "FOO", "foo_bar", "t", "-inf", "-nan", "-FOO", "-true", "-infinity", "- inf", "-/**/inf", "\"\"", "\"a\"", "'true'", "\"1\"", "\"\\377\"", "\"\\n\\\"\\'\\\\\\t\\r\"", "\"\\000\\001\\177\\200\"", "'é'", "\"a\" 'b'", "\"\\xc3\" \"\\xa9\"", "{}", "{ a: 1 }", "1.0", "0.0", "-0.0", "1.5", "-1.5", "1e3", "1e400", "-1e400", "1e-400", "3.4028235e38", "3.5e38", ".5", "5.", "0.1", "1e100", "123456789.123456789", "max", "to", "optional", "message", "-1.", "1e-7", "1e15", "1e16", "1e21", "16777217", "9007199254740993", "0.30000000000000004",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect();
        v.extend(numbers());
        v
    }
    v.push(fam("type × value", "desc", move |e| {
        let types: Vec<&str> = SCALARS.iter().copied().chain(["T", ".a.T"]).collect();
        for t in &types {
            for x in values() {
                e(format!("message A {{ optional {t} a = 1 [default = {x}]; }}"));
                e(format!("extend A {{ required int32 z = 9; optional {t} a = 1 [deprecated = true, default = {x}, foo = 5]; }}"));
                e(format!("message A {{ oneof o {{ {t} a = 1 [default = {x}]; }} message B {{ required {t} a = 1 [default = {x}]; }} extend C {{ optional {t} a = 1 [default = {x}]; }} }}"));
                e(format!("message A {{ optional group G = 1 {{ optional {t} a = 1 [json_name = \"q\", default = {x}]; }} }}"));
                e(format!("extend A {{ optional {t} a = 1 [default = {x}, json_name = \"k\"]; }}"));
            }
        }
    }));
    v.push(fam("every byte as a default", "desc", move |e| {
        for b in 0..256 {
            for t in ["bytes", "string"] {
                for after in ["", "0", "7", "a", "\\001"] {
                    e(format!("message A {{ optional {t} a = 1 [default = \"\\{b:03o}{after}\"]; }}"));
                }
            }
        }
        for a in [0, 1, 7, 8, 31, 32, 34, 39, 48, 63, 92, 126, 127, 128, 195, 255] {
            for b in 0..256 {
                e(format!("message A {{ optional bytes a = 1 [default = \"\\x{a:02x}\\x{b:02x}\"]; optional string b = 2 [default = \"\\x{a:02x}\\x{b:02x}\"]; }}"));
                e(format!("message A {{ optional bytes a = 1 [default = \"\\x{a:02x}\\x{b:02x}\"]; }}"));
            }
        }
        for c in ["é", "漢", "\u{1F600}", "\u{7f}", "\t", "\u{a0}", "\u{85}"] {
            for t in ["bytes", "string"] {
                e(format!("message A {{ optional {t} a = 1 [default = \"{c}\", json_name = \"{c}\"]; }}"));
            }
        }
    }));
    v.push(fam("pseudo-options among others", "desc", move |e| {
        let o = ["default = 1", "default = 2", "default = \"s\"", "json_name = \"j\"", "json_name = \"k\"", "json_name = 5", "json_name = \"\\xff\"", "json_name = x", "(default) = 1", "default.x = 1", "(json_name) = \"n\"", "json_name.y = 1", "Default = 3", "a = 1", "b = \"t\"", "a = { c: 1 }", "x.default = 4", "jsonName = \"z\""];
        let places = ["message A { optional int32 f = 1 [$]; }", "message A { oneof o { int32 f = 1 [$]; } }", "extend A { repeated string f = 1 [$]; }", "message A { map<int32, int32> f = 1 [$]; }", "message A { optional group F = 1 [$] { } }", "syntax = \"proto3\"; message A { int32 f = 1 [$]; }", "message A { optional T f = 1 [$]; }", "enum A { B = 1 [$]; }", "message A { extensions 5 to 6 [$]; }", "message A { optional string f = 1 [$]; }", "message A { extend B { optional int32 f = 1 [$]; } }"];
        lists(o.len(), 1, 3, &mut |ix| {
            let l = ix.iter().map(|i| o[*i]).collect::<Vec<_>>().join(", ");
            for (k, p) in places.iter().enumerate() {
                if ix.len() < 3 || deep || k < 2 {
                    e(p.replace('$', &l));
                }
            }
        });
    }));
    v.push(fam("json names", "desc", move |e| {
        let parts = ["a", "\\x41", "é", "\\303\\251", "\\n", "'", "_", " ", "[x]", "\\377", "\\u00e9", "1"];
        seqs(&parts, 0, 3, &mut |t| {
            e(format!("message A {{ optional int32 a_b = 1 [json_name = \"{t}\"]; }}"));
            e(format!("syntax = \"proto3\"; message A {{ optional int32 a_b = 1 [json_name = \"{t}\" \"z\"]; map<int32, int32> c_d = 2 [json_name = \"{t}\"]; }}"));
        });
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C09

/// Elements that take options, `$` standing for one or more options: (statement form, bracket form).
pub const OPTION_STMT: [&str; 9] = [
    "$",
    "message A { $ }",
    "enum A { $ B = 1; }",
    "service A { $ }",
    "service A { rpc B(C) returns (D) { $ } }",
    "message A { oneof B { $ int32 c = 1; } }",
    "message A { optional int32 x = 1; $ message C { } }",
    "message A { optional group G = 1 { $ } }",
    "message A { message B { enum C { D = 0; $ } } }",
];
pub const OPTION_LIST: [&str; 11] = [
    "message A { optional int32 a = 1 [$]; }",
    "enum A { B = 1 [$]; }",
    "message A { extensions 1 to 5 [$]; }",
    "message A { extensions 1, 7 to max [$]; }",
    "message A { map<int32, int32> a = 1 [$]; }",
    "message A { optional group G = 1 [$] { } }",
    "message A { oneof o { string a = 1 [$]; group G = 2 [$] {} } }",
    "extend A { repeated T a = 1 [$]; }",
    "extend A { optional group G = 1 [$] { } }",
    "syntax = \"proto3\"; message A { optional int32 a = 1 [$]; }",
    "message A { message B { extend C { optional int32 a = 1 [$]; } } }",
];

pub fn c09(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    const NAMES: [&str; 16] = ["a", "a.b", "(a)", "(a.b)", "(.a.b)", "(a).b", "a.(b)", "(a).(b)", "a.b.c", "(a).b.(c.d).e", "( . a . b ) . c", "a . b", "option", "(default)", "deprecated", "(a)./*x*/b"];
    const VALUES: [&str; 30] = [
        "x", "-x", "true", "inf", "-inf", "nan", "1", "0", "-1", "-0", "18446744073709551615", "-9223372036854775808", "-9223372036854775809", "-18446744073709551615", "1.5", "-1.5", "1e5", "-0.0", ".5", "\"s\"", "'s' \"t\"", "\"\\xff\"", "{}", "{ a: 1 }", "{ a { b: \"c\" } }", "9223372036854775807", "-9223372036854775807", "-x.y", "x y", "1e999",
    ];
    v.push(fam("element × name × value", "desc", move |e| {
        for n in NAMES {
            for x in VALUES {
                for p in OPTION_STMT {
                    e(p.replace('$', &format!("option {n} = {x};")));
                }
                for p in OPTION_LIST {
                    e(p.replace('$', &format!("{n} = {x}")));
                }
            }
        }
    }));
    v.push(fam("several options on one element", "desc", move |e| {
        let o = ["a = 1", "(b).c = -2", "a = \"s\"", "d = { x: 1 }", "a.b = 1.5", "e = ident", "a = 1"];
        lists(o.len(), 1, if deep { 4 } else { 3 }, &mut |ix| {
            let st: String = ix.iter().map(|i| format!("option {};", o[*i])).collect();
            let l = ix.iter().map(|i| o[*i]).collect::<Vec<_>>().join(", ");
            for p in OPTION_STMT {
                e(p.replace('$', &st));
                if ix.len() < 3 {
                    e(p.replace('$', &st.replace("option", "; option").replace("; option", if p == "$" { ";option" } else { "option" })));
                }
            }
            for p in OPTION_LIST {
                e(p.replace('$', &l));
            }
        });
    }));
    v.push(fam("ranges of extensions × options", "desc", move |e| {
        let o = ["a = 1", "(b).c = -2", "d = { x: 1 }", "e = \"s\"", "f.g = h"];
        for n in 1..=if deep { 40 } else { 9 } {
            let ranges: String = (0..n).map(|i| if i % 3 == 1 { format!("{} to {}", 10 * i + 1, 10 * i + 5) } else { format!("{}", 10 * i + 1) }).collect::<Vec<_>>().join(", ");
            lists(o.len(), 0, if n < 5 || deep { 3 } else { 2 }, &mut |ix| {
                let l = if ix.is_empty() { String::new() } else { format!(" [{}]", ix.iter().map(|i| o[*i]).collect::<Vec<_>>().join(", ")) };
                e(format!("message A {{ extensions {ranges}{l}; }}"));
                e(format!("message A {{ extensions 5000 [z = 1]; extensions {ranges}{l}; extensions 6000 to max [y = 1, x = 2]; }}"));
            });
        }
    }));
    v.push(fam("two elements with options", "desc", move |e| {
        let pool = ["option f# = @;", "optional int32 a# = @ [f# = @];", "optional group G# = @ [g# = @] { option h# = @; }", "message M# { option i# = @; }", "enum E# { option j# = @; V# = @ [k# = @]; }", "oneof o# { option l# = @; int32 b# = @ [m# = @]; }", "extensions @ to max [n# = @];", "extend X { optional int32 c# = @ [p# = @]; }", "map<int32, int32> d# = @ [q# = @, r# = @];"];
        items("message A { ", &pool, " }", 1, if deep { 4 } else { 3 }, true, e);
    }));
    v.push(fam("token sequences in aggregates", "desc", move |e| {
        let t = ["a", ":", "1", "\"s\"", "'t'", "{", "}", "[", "]", "<", ">", ",", ";", ".", "/", "-", "1.5f", "0x1F", "# c\n", "// d\n", "/* e */", "\n", "(", ")", "+", "="];
        lists(t.len(), 0, if deep { 4 } else { 3 }, &mut |ix| {
            let b = ix.iter().map(|i| t[*i]).collect::<Vec<_>>();
            e(format!("option o = {{ {} }};", b.join(" ")));
            if ix.len() < 3 || deep {
                e(format!("option o = {{{}}}; option p = 1;", b.concat()));
                e(format!("message A {{ optional int32 a = 1 [x = {{{}}}, y = 2]; }} # c", b.join("\t")));
            }
        });
    }));
    v.push(fam("values in aggregates", "desc", move |e| {
        let vals = ["1", "-1", "0", "017", "0xff", "1.5", "1e10", "1e-10", "1.0", "100000000000000000000", "123456789012345678", "18446744073709551615", "1f", "0f", ".5f", "1.5F", "inf", "-inf", "nan", "true", "IDENT", "\"a\\nb\"", "'a\\\"b'", "\"\\xff\\0\"", "\"é\"", "\"a\" \"b\"", "'' \"\"", "[1, 2]", "[]", "{ x: 1 }", "< y: 2 >", "[{ a: 1 }, { b: 2 }]", "1e400", "1e-400", "5.", "0.1", "1e21", "123456789.125", "3e5f", "\"\\u00e9\\U0001F600\"", "\"'\"", "'\"'", "\"\\\\\"", "0", "-0", "-0.0", "- 1"];
        for (i, x) in vals.iter().enumerate() {
            for y in &vals[i..] {
                e(format!("option o = {{ a: {x} b: {y} }};"));
                e(format!("option o = {{ a: {x}, [x.y]: {y}; }};"));
                e(format!("option o = {{ a {{ b: [{x}, {y}] }} [a.b/c.d] {{ e: {x} }} }}; option p = 1;"));
                e(format!("enum E {{ A = 1 [o = {{ a: {x} # c \n b: {y} // d \n }}, p = 2]; }}"));
            }
        }
    }));
    v.push(fam("sizes in aggregates", "desc", move |e| {
        let odd = ["\\t", "\\n", "\\r", "\\\"", "\\'", "'", "\\\\", "\\0", "\\x7f", "\\xff", "é", "\\001", "?", "\\a", "\t"];
        for n in (0..140).chain([254, 255, 256, 257, 300, 511, 512, 1000, 4096]) {
            for x in odd {
                e(format!("option o = {{ a: \"{}{x}\" b: \"{x}{}\" }};", "x".repeat(n), "y".repeat(n)));
                e(format!("option o = {{ a: \"{}{x}{}\" }};", "x".repeat(n / 2), "é".repeat(n / 2)));
            }
            e(format!("option o = {{ a: \"{}\" }};", "\\n".repeat(n)));
            e(format!("option o = {{ {}: 1 b: {} }};", "a".repeat(n + 1), "B".repeat(n + 1)));
            e(format!("option o = {{ [{}x]: 1 }};", "a.".repeat(n)));
            e(format!("option o = {{ {} }};", "a: 1 ".repeat(n)));
            e(format!("option o = {{ {} }};", "a: 'x', ".repeat(n)));
            e(format!("option o = {{ a: {} }};", "'x' ".repeat(n)));
            e(format!("option o = {{ a: [{}0] }};", "-1.5f, ".repeat(n)));
            e(format!("option o = {{ {} }};", "# c\n".repeat(n)));
            e(format!("option o = {{ a: 1 {} b: 2 }};", "\n".repeat(n)));
            if n < 300 {
                e(format!("option o = {{ {} {} }};", "a { ".repeat(n), "}".repeat(n)));
                e(format!("option o = {{ {} a: 1 {} }};", "a < ".repeat(n), "> ".repeat(n)));
            }
        }
    }));
    v.push(fam("adjacent tokens in aggregates", "desc", move |e| {
        let t = ["a", "1", "1.5", "\"s\"", ".", "-", ":", "[", "]", ",", "/", "f", "0", "_", "'", "e5"];
        seqs(&t, 1, if deep { 5 } else { 4 }, &mut |s| e(format!("option o = {{{s}}};")));
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C10

/// Two levels, each with a number of one kind of thing before, and after, the inner level.
fn counts_of_two_levels(deep: bool, e: &mut dyn FnMut(String)) {
    let things = [
        "optional int32 f# = @;", "oneof o# { int32 g# = @; }", "oneof o# { int32 g# = @; T h# = @; }", "message M# { optional int32 x = 1; }", "enum E# { Z# = 0; }",
        "extend X { optional int32 e# = @; }", "extensions @;", "reserved @;", "reserved \"r#\";", "map<int32, T> m# = @;", "option p# = @;",
    ];
    let groups = ["optional group G# = @ { optional int32 x = 1; }"];
    let all = |t: &str, from: usize, n: usize| (from..from + n).map(|i| fill(t, i, true)).collect::<String>();
    let n = if deep { 6 } else { 4 };
    for wrap in ["message I { $ }", "optional group I = 900 { $ }", "oneof O { int32 q = 901; group I = 900 { $ } }", "extend X { repeated group I = 900 { $ } }", "message I { message J { $ } }"] {
        for inner in things.iter().chain(&groups) {
            for k in 0..=n {
                let level = wrap.replace('$', &all(inner, 0, k));
                for outer in things.iter().chain(&groups) {
                    for (before, after) in [(0, 1), (1, 0), (1, 1), (2, 1), (0, 3), (3, 2)] {
                        e(format!("message A {{ {} {level} {} }}", all(outer, 20, before), all(outer, 40, after)));
                    }
                }
            }
        }
    }
    for inner in ["optional int32 f# = @;", "oneof o# { int32 g# = @; }", "int32 s# = @;"] {
        for k in 0..=n + 2 {
            for outer in ["optional int32 f# = @;", "oneof o# { int32 g# = @; }", "int32 s# = @;"] {
                for (before, after) in product2(4, 4) {
                    e(format!("syntax = \"proto3\"; message A {{ {} message I {{ {} }} {} }} message B {{ optional int32 x = 1; }}", all(outer, 20, before), all(inner, 0, k), all(outer, 40, after)));
                }
            }
        }
    }
}
fn product2(a: usize, b: usize) -> impl Iterator<Item = (usize, usize)> {
    (0..a).flat_map(move |x| (0..b).map(move |y| (x, y)))
}

pub fn c10(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("names of every length", "desc", long_names));
    v.push(fam("counts at two levels", "desc", move |e| counts_of_two_levels(deep, e)));
    v.push(fam("oneofs, optional fields and colliding names", "desc", move |e| {
        let names = ["a", "_a", "__a", "X_a", "XX_a", "X__a"];
        let mut pool: Vec<String> = vec![];
        for n in names {
            pool.push(format!("optional int32 {n} = @;"));
            pool.push(format!("int32 {n} = @;"));
            pool.push(format!("oneof {n} {{ int32 m# = @; }}"));
        }
        let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
        items("syntax = \"proto3\"; message A { ", &pool, " }", 1, if deep { 4 } else { 3 }, true, e);
        items("syntax = \"proto3\"; message Z { optional int32 a = 1; message A { ", &pool, " } optional int32 b = 2; }", 1, 2, true, e);
    }));
    v.push(fam("synthetic oneofs beside every kind of declaration that has a name", "desc", move |e| {
        let kinds = [
            "optional int32 $ = @;", "int32 $ = @;", "repeated int32 $ = @;", "repeated T $ = @;", "map<int32, int32> $ = @;", "map<string, T> $ = @;",
            "T $ = @;", "oneof $ { int32 m# = @; }", "oneof o# { int32 $ = @; }", "oneof o# { T m# = @; T $ = @; }", "message $ {}", "message M# { int32 $ = @; }",
            "message M# { oneof $ { int32 x = 1; } }", "enum $ { Z# = 0; }", "enum E# { $ = 0; }", "extend Y { optional int32 $ = @; }", "reserved \"$\";",
            "option $ = 1;", "optional int32 q# = @ [json_name = \"$\"];", "int32 $ = @ [json_name = \"z\"];", "optional T $ = @ [deprecated = true];",
        ];
        let mut pool: Vec<String> = vec![];
        for n in ["a", "_a", "X_a"] {
            for k in kinds {
                pool.push(k.replace('$', n));
            }
        }
        let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
        items("syntax = \"proto3\"; message A { ", &pool, " }", 1, 2, true, e);
        items("syntax = \"proto3\"; message A { optional int32 a = 90; ", &pool, " }", 1, if deep { 3 } else { 2 }, true, e);
        items("syntax = \"proto3\"; message A { ", &pool, " optional int32 a = 90; }", 1, if deep { 3 } else { 2 }, true, e);
        items("syntax = \"proto3\"; message A { message _a {} message B { ", &pool, " optional int64 a = 90; } repeated int32 _a = 1; }", 1, 1, true, e);
    }));
    v.push(fam("sequences of oneofs and fields", "desc", move |e| {
        let pool = ["optional int32 f# = @;", "int32 f# = @;", "oneof o# { int32 g# = @; }", "oneof o# { int32 g# = @; T h# = @; }", "message M# { optional int32 x = 1; oneof y { int32 z = 2; } }", "repeated int32 r# = @;", "map<int32, int32> m# = @;"];
        items("syntax = \"proto3\"; message A { ", &pool, " }", 1, if deep { 6 } else { 5 }, true, e);
        let pool2 = ["optional int32 f# = @;", "oneof o# { int32 g# = @; }", "oneof o# { int32 g# = @; group H# = @ { optional int32 q = 1; oneof r { int32 s = 2; } } T i# = @; }", "optional group G# = @ { oneof o# { int32 g# = @; } }", "extend X { optional int32 e# = @; }", "required T q# = @;", "message M# { oneof y { int32 z = 2; } oneof w { int32 v = 1; } }"];
        items("message A { ", &pool2, " }", 1, if deep { 5 } else { 4 }, true, e);
        items("syntax = \"proto3\"; ", &["message A# { optional int32 a = 1; }", "message A# { oneof o { int32 a = 1; } optional int32 b = 2; }", "extend X { optional int32 a# = @; }", "message A# { extend X { optional int32 b# = @; } optional T c = 1; }"], "", 1, 4, true, e);
    }));
    v.push(fam("many oneofs", "desc", move |e| {
        for n in (0..40).chain([127, 128, 255, 256, 257, 1000]) {
            let all = |t: &str| (0..n).map(|i| fill(t, i, true)).collect::<String>();
            e(format!("syntax = \"proto3\"; message A {{ {} }}", all("optional int32 a# = @;")));
            e(format!("syntax = \"proto3\"; message A {{ {} }}", all("optional int32 a# = @; oneof o# { int32 b# = @; }")));
            e(format!("syntax = \"proto3\"; message A {{ {} }}", all("oneof o# { int32 b# = @; } int32 c# = @;")));
            e(format!("syntax = \"proto3\"; message A {{ optional int32 a = 1; {} }}", (0..n).map(|i| format!("int32 {}_a = {};", "X".repeat(i), i + 2)).collect::<String>()));
            e(format!("syntax = \"proto3\"; message A {{ oneof o {{ {} int32 z = 1; }} optional int32 q = 5; }}", all("int32 b# = @;")));
        }
    }));
    v.push(fam("names of synthetic oneofs", "desc", move |e| {
        let parts = ["_", "a", "X", "1", "B"];
        seqs(&parts, 1, if deep { 7 } else { 5 }, &mut |n| {
            if !n.starts_with('1') {
                e(format!("syntax = \"proto3\"; message A {{ optional int32 {n} = 1; optional T _{n} = 2; }}"));
                e(format!("syntax = \"proto3\"; message A {{ optional int32 {n} = 1; int32 _{n} = 2; oneof X_{n} {{ int32 X{n} = 3; }} }}"));
                e(format!("syntax = \"proto3\"; message A {{ oneof _{n} {{ int32 X_{n} = 3; }} optional int32 {n} = 1; }}"));
            }
        });
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C11

pub fn c11(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("names of every length", "desc", long_names));
    v.push(fam("map field names", "desc", move |e| {
        let parts = ["a", "b", "B", "_", "1", "Z"];
        seqs(&parts, 1, if deep { 7 } else { 5 }, &mut |n| {
            if !n.starts_with('1') {
                e(format!("message A {{ map<int32, string> {n} = 1; }}"));
            }
        });
        for k in KEYWORDS {
            e(format!("message A {{ map<int32, string> {k} = 1; map<int32, string> {k}_{k} = 2; }}"));
        }
    }));
    v.push(fam("map types and numbers", "desc", move |e| {
        let vals: Vec<&str> = SCALARS.iter().copied().chain(["T", ".T", "a.b.T", ". a . T", "map", "group", "message"]).collect();
        for k in &vals {
            for x in &vals {
                for syn in ["", "syntax = \"proto3\";"] {
                    e(format!("{syn} message A {{ map<{k}, {x}> f_g = 77; }}"));
                    e(format!("{syn} message A {{ message M {{}} map < {k} , {x} > f_g = 77 [deprecated = true, json_name = \"q\"]; }}"));
                }
            }
        }
    }));
    v.push(fam("group names", "desc", move |e| {
        let parts = ["A", "a", "_", "1", "Zz", "É"];
        seqs(&parts, 1, 4, &mut |n| {
            e(format!("message M {{ optional group {n} = 1 {{ }} }}"));
            e(format!("extend M {{ optional group {n} = 1 {{ optional int32 {n} = 2; }} }} message M {{ oneof o {{ group {n} = 1 {{ }} }} }}"));
        });
    }));
    v.push(fam("order of nested types", "desc", move |e| {
        let pool = ["message N# { }", "map<int32, T> m# = @;", "optional group G# = @ { }", "optional group G# = @ { map<string, int32> n# = @; optional group H# = @ { message I# { } } }", "oneof o# { group J# = @ { map<int32, int32> k# = @; } int32 p# = @; }", "extend X { optional group K# = @ { } repeated group L# = @ { map<int32, int32> q# = @; } }", "optional int32 f# = @;", "message N# { map<int32, int32> r# = @; optional group G# = @ { } }", "enum E# { Z# = 0; }"];
        items("message A { ", &pool, " }", 1, if deep { 5 } else { 4 }, true, e);
        items("message A { optional group B = 1 { ", &pool, " } }", 1, 2, true, e);
        items("message A { oneof o { group B = 1 { ", &pool, " } } }", 1, 2, true, e);
        let top = ["message N# { }", "extend X { optional group G# = @ { } }", "extend X { repeated group G# = @ { map<int32, int32> m# = @; } optional int32 e# = @; optional group H# = @ { } }", "message N# { extend X { optional group G# = @ { } } map<int32, int32> m# = @; }", "enum E# { Z# = 0; }", "extend X { optional int32 e# = @; }"];
        items("", &top, "", 1, if deep { 5 } else { 4 }, true, e);
    }));
    v.push(fam("groups: label × scope × body", "desc", move |e| {
        let bodies = ["", "optional int32 a = 1;", "optional group Inner = 1 { optional int32 b = 1; }", "map<int32, T> m = 1;", "reserved 1; extensions 5; option x = 1;", "oneof o { int32 q = 1; }", "enum E { A = 0; } message N { }", "extend X { optional int32 e = 4; optional group Ge = 5 { } }"];
        let opts = ["", " [deprecated = true]", " [json_name = \"j\", (a).b = 1]"];
        for sc in SCOPES.iter().chain(&GROUP_SCOPES) {
            for l in ["", "optional ", "required ", "repeated "] {
                for b in bodies {
                    for o in opts {
                        for tail in ["", ";"] {
                            e(sc.replace('$', &format!("{l}group FooBar_Baz = 5{o} {{ {b} }}{tail}")));
                        }
                    }
                }
            }
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C12

/// A spread of declarations for location checks.
pub fn shapes(deep: bool) -> Vec<String> {
    let mut v: Vec<String> = CORPUS.iter().map(|s| s.to_string()).collect();
    items("message A { ", &MSG_ITEMS, " }", 1, 2, true, &mut |s| v.push(s));
    items("", &FILE_ITEMS, "", 1, 2, true, &mut |s| v.push(s));
    for p in OPTION_STMT {
        v.push(p.replace('$', "option a = 1; option (b).c = { x: 1 };"));
    }
    for p in OPTION_LIST {
        v.push(p.replace('$', "a = 1"));
        v.push(p.replace('$', "a = 1, default = 2, (b).c = { x: 1 }, json_name = \"j\"").replace("default = 2, ", if p.contains("optional int32") { "default = 2, " } else { "" }));
    }
    for x in ["-1.5", "- 1.5", "-1", "- 1", "-inf", "- inf", "-/*c*/1e3", "-\n0", "\"a\"", "\"a\" \"b\"", "nan", ".5", "0x1F"] {
        for t in ["double", "int64", "string", "T"] {
            v.push(format!("message A {{ optional {t} a = 1 [default = {x}]; }}"));
            v.push(format!("message A {{ optional {t} a = 1 [b = 1, default = {x}, c = {x}]; }}"));
        }
        v.push(format!("option a = {x}; enum E {{ Z = 0 [a = {x}]; }}"));
    }
    for x in ["-1", "- 1", "-\n1", "-/*c*/0x1F"] {
        v.push(format!("enum E {{ Z = {x}; reserved {x}, 5, {x} to 7, -9 to {x}; }}"));
    }
    for p in identifier_positions() {
        v.push(p.replace('$', "Xy"));
    }
    for s in SCOPES.iter().chain(&GROUP_SCOPES) {
        for l in ["", "optional ", "required ", "repeated "] {
            for f in ["int32 f = 1;", "T f = 1 [default = X];", "group G = 1 { }", "map<int32, T> f = 1;", "int64 f = 0x10 [default = -1, x = 2];"] {
                v.push(s.replace('$', &format!("{l}{f}")));
                if deep {
                    v.push(format!("syntax = \"proto3\"; {}", s.replace('$', &format!("{l}{f}"))));
                }
            }
        }
    }
    v
}

/// Rewrites the gaps between tokens: `f(i, had_gap)` gives the i-th gap.
pub fn relayout(src: &str, f: impl Fn(usize) -> String) -> Option<String> {
    let m = refmodel::model("t", src);
    m.file.as_ref()?;
    let mut out = String::new();
    for (i, t) in m.toks.iter().enumerate() {
        out += &f(i);
        out += &src[t.start..t.end];
    }
    out += &f(m.toks.len());
    Some(out)
}

fn sizes(e: &mut dyn FnMut(String)) {
    for n in (0..300).chain([1000, 4095, 4096, 32767, 32768, 65535, 65536, 70000, 131072, 200000]) {
        let sp = " ".repeat(n);
        let nl = "\n".repeat(n);
        e(format!("{sp}message A {{ }}"));
        e(format!("{nl}message A {{ }}"));
        e(format!("message A {{ {sp} optional int32 a = 1; {nl} optional {sp} int32 {nl} b = 2; }} {nl} enum E {{ Z = 0; }}{nl}"));
        e(format!("/*{}*/ message A {{ }}", "é".repeat(n)));
        e(format!("message {} {{ optional int32 a = 1; }}", "m".repeat(n + 1)));
        e(format!("option a = \"{}\"; message A {{ }}", "é".repeat(n)));
        e(format!("\n{sp}message A {{ }}\n{nl}{sp}enum E {{{nl}{sp}}}"));
    }
}

pub fn c12(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("declarations as written", "spans", move |e| {
        for s in shapes(deep) {
            e(s);
        }
        items("message A { ", &MSG_ITEMS, " }", 3, 3, true, e);
        items("", &FILE_ITEMS, "", 3, 3, true, e);
    }));
    v.push(fam("declarations laid out differently", "spans", move |e| {
        for s in shapes(deep) {
            for g in [" ", "\n", "\t", "\r\n", "\n  ", "/* é */", "// é漢\n ", " \n\n\t", "/*\n*/", "\r", "\u{b}\u{c}"] {
                if let Some(t) = relayout(&s, |_| g.to_owned()) {
                    e(t);
                }
            }
            // gaps of growing length: every token at its own column
            if let Some(t) = relayout(&s, |i| " ".repeat(i % 9 + 1)) {
                e(t);
            }
            if let Some(t) = relayout(&s, |i| if i % 3 == 0 { "\n".repeat(i % 5 + 1) } else { " ".repeat(i % 4 + 1) }) {
                e(t);
            }
        }
    }));
    v.push(fam("one line break at each token boundary", "spans", move |e| {
        for s in shapes(deep) {
            let n = refmodel::model("t", &s).toks.len();
            for k in 0..=n {
                for g in ["\n", "/* é\n*/"] {
                    if let Some(t) = relayout(&s, |i| if i == k { g.to_owned() } else { " ".to_owned() }) {
                        e(t);
                    }
                }
            }
        }
    }));
    v.push(fam("multi-byte and multi-line values", "spans", move |e| {
        for p in STRING_PLACES {
            for x in ["\"é\"", "'漢字'", "\"\u{1F600}\"", "\"a\"\n\"b\"", "\"é\" 'é'", "\"\\u00e9\"", "\"a\" // c\n 'b'"] {
                for pre in ["", "/* é */ ", "\n\n", "// é\n\t"] {
                    e(format!("{}{pre}{}", "", p.replace('$', &format!("{pre}{x}{pre}"))));
                }
            }
        }
    }));
    v.push(fam("many locations of one path", "spans", move |e| {
        for n in (0..50).chain([64, 100, 300]) {
            let all = |t: &str| (0..n).map(|i| fill(t, i, true)).collect::<Vec<_>>();
            for sep in [" ", "\n"] {
                e(all("option o# = 1;").join(sep));
                e(format!("message A {{ {} }}", all("reserved @;").join(sep)));
                e(format!("message A {{ {} }}", all("reserved \"a#\";").join(sep)));
                e(format!("message A {{ {} }}", all("extensions @, @ [a = 1];").join(sep)));
                e(format!("message A {{ {} }}", all("option o# = 1;").join(sep)));
                e(format!("enum A {{ {} }}", all("reserved @ to @;").join(sep)));
                e(format!("enum A {{ {} }}", all("option o# = 1; A# = @;").join(sep)));
                e(all("extend X { optional int32 e# = @; }").join(sep));
                e(format!("message A {{ {} }}", all("extend X { optional int32 e# = @; repeated group G# = @ { } }").join(sep)));
                e(format!("message A {{ {} }}", all("optional group G# = @ { extend Y { optional T q# = @; } }").join(sep)));
                e(format!("service A {{ {} }}", all("rpc R#(A) returns (B) { option a# = 1; option b# = 1; }").join(sep)));
                e(all("message M# { optional int32 a = 1; }").join(sep));
                e(all("import public \"a#\"; import weak \"b#\"; import \"c#\";").join(sep));
            }
        }
    }));
    v.push(fam("sizes of lines and files", "spans", move |e| {
        sizes(e);
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C13

/// (before, after): a gap goes between them.
pub const GAPS: [(&str, &str); 46] = [
    ("message A {}", "message B {}"),
    ("message A {", "}"),
    ("message A {", "optional int32 a=1;}"),
    ("message A {optional int32 a=1;", "}"),
    ("message A {optional int32 a=1;", "optional int32 b=2;}"),
    ("", "message A {}"),
    ("message A {}", ""),
    ("syntax=\"proto2\";", "package a;"),
    ("package a;", "import \"b\";"),
    ("import \"b\";", "option c=1;"),
    ("option c=1;", "enum E {Z=0;}"),
    ("message", "A {}"),
    ("message A", "{}"),
    ("message A {optional int32 a=1", "; }"),
    ("message A {optional int32 a", "=1; }"),
    ("message A {optional", "int32 a=1; }"),
    ("message A {optional int32 a=1 [deprecated=true", "]; }"),
    ("message A {optional int32 a=1 [", "deprecated=true]; }"),
    ("message A {optional int32 a=1 [deprecated=true]", "; optional int32 b=2; }"),
    ("enum A {", "Z=0;}"),
    ("enum A {Z=0;", "}"),
    ("enum A {Z=0;", "Y=1;}"),
    ("enum A {Z=0;", "option a=1; reserved 5;}"),
    ("enum A {Z=0; reserved 5;", "reserved \"a\";}"),
    ("message A{ oneof x {", "int32 a=1;}}"),
    ("message A{ oneof x {int32 a=1;", "}}"),
    ("message A{ oneof x {int32 a=1;}", "oneof y {int32 b=2;}}"),
    ("message A{ oneof x {option a=1;", "int32 a=1;}}"),
    ("message B{} service A{ rpc x(B) returns (B) {", "}}"),
    ("message B{} service A{ rpc x(B) returns (B) {}", "}"),
    ("message B{} service A{ rpc x(B) returns (B) {", "option a=1;}}"),
    ("message B{} service A{ rpc x(B) returns (B) {option a=1;", "}}"),
    ("message B{} service A{ rpc x(B) returns (B);", "rpc y(B) returns (B);}"),
    ("message B{} service A{ rpc x(B) returns (B)", "{} rpc y(B) returns (B);}"),
    ("message B{} service A{", "rpc y(B) returns (B);}"),
    ("service A{}", "service B{}"),
    ("message B{ reserved 1;", "reserved \"a\";}"),
    ("message B{ extensions 1;", "extensions 2;}"),
    ("message B{ message C{}", "enum D{} }"),
    ("extend B {", "optional int32 a=1;}"),
    ("extend B {optional int32 a=1;", "}"),
    ("extend B {optional int32 a=1;}", "extend C {optional int32 a=1;}"),
    ("message B{optional group A=1 {", "}}"),
    ("message B{optional group A=1 {}", "optional int32 b=2;}"),
    ("message B{map<int32,int32> a=1;", "map<int32,int32> b=2;}"),
    (";", "message A{}"),
];

pub fn c13(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    const G: [&str; 6] = ["\n", " ", "//a\n", "/*b*/", "/*c\n*/", "// d"];
    v.push(fam("comment layouts in every gap", "comments", move |e| {
        let g = [G[0], G[1], G[2], G[3], G[4]];
        for (p, s) in GAPS {
            seqs(&g, 0, if deep { 7 } else { 5 }, &mut |t| e(format!("{p}{t}{s}")));
        }
    }));
    v.push(fam("comment layouts with CRLF and blanks", "comments", move |e| {
        let g = ["\r\n", "\t", "//a\r\n", "/*b*/", "/* c\r\n * d\r\n */", "//\n"];
        for (p, s) in GAPS {
            seqs(&g, 0, if deep { 5 } else { 4 }, &mut |t| e(format!("{p}{t}{s}")));
        }
    }));
    v.push(fam("two gaps", "comments", move |e| {
        let gaps = ["", " //a\n", "\n//b\n", "/*c*/", "\n\n//d\n\n", "\n//e\n\n//f\n", " //g\n//h\n", "\n/*i*/\n/*j*/\n"];
        let toks = [
            ("message A {", "optional int32 a=1;", "optional int32 b=2;", "}"),
            ("", "message A {}", "message B {}", ""),
            ("enum A {", "B=0;", "C=1;", "}"),
            ("syntax=\"proto3\";", "package a;", "import \"b\";", "option c=1;"),
            ("service A {", "rpc a(A) returns(A);", "rpc b(A) returns(A) {}", "}"),
            ("message A { oneof a {", "int32 a=1;", "int32 b=2;", "} }"),
            ("message A { optional group B = 1 {", "optional int32 a=1;", "} optional int32 b=2;", "}"),
            ("message A { ", "extend X { optional int32 a=1; }", "reserved 1;", "extensions 5; }"),
            ("service A { rpc a(A) returns(A) {", "option a=1;", "option b=1;", "} }"),
            ("message A { optional int32 a=1", "[a=1,", "b=2]", "; }"),
        ];
        for (a, b, c, d) in toks {
            for x in gaps {
                for y in gaps {
                    for z in gaps {
                        e(format!("{a}{x}{b}{y}{c}{z}{d}"));
                    }
                }
            }
        }
    }));
    v.push(fam("text of block comments", "comments", move |e| {
        let ch = ["a", "*", " ", "\n", "/", "\t", "\r\n", "é", "\u{a0}", "\u{3000}", "\r", "\u{b}"];
        seqs(&ch, 0, if deep { 6 } else { 4 }, &mut |t| {
            e(format!("/*{t}*/message A {{}}"));
            if deep || t.chars().count() < 4 {
                e(format!("/*{t}*/\n\nmessage A {{ /*{t}*/ }} /*{t}*/"));
                e(format!("message A {{ optional int32 a = 1; /*{t}*/\n}} enum B {{ C = 0; /*{t}*/ }} /*{t}*/\n\n/*{t}*/\n\n/*{t}*/ service D {{ /*{t}*/\n\n rpc E(F) returns (G); /*{t}*/ }}"));
                e(format!("message A {{ optional int32 a = 1; //b\n /*{t}*/ //c\n\n /*{t}*/ /*{t}*/ optional int32 d = 2; }}"));
            }
        });
        let ch = ["a", "*", " ", "\n", "\t"];
        seqs(&ch, 5, if deep { 8 } else { 7 }, &mut |t| {
            e(format!("/*{t}*/message A {{}}"));
        });
    }));
    v.push(fam("text of line comments", "comments", move |e| {
        let ch = ["a", "/", " ", "\t", "\r", "é", "*", "#", "\n//", "\n// ", "\r\n//", "\n"];
        seqs(&ch, 0, if deep { 5 } else { 4 }, &mut |t| {
            e(format!("//{t}\nmessage A {{}}"));
            e(format!("message A {{ //{t}\n}}"));
            e(format!("message A {{ }} //{t}"));
            if deep || t.chars().count() < 4 {
                e(format!("//{t}\n\nmessage A {{ optional int32 a = 1; //{t}\n\n//{t}\n\n//{t}\noptional int32 b = 2; }}//{t}"));
                e(format!("enum A {{ B = 0; //{t}\n C = 1; /*c*/ //{t}\n /*d*/ D = 2; }}#{t}\n#{t}\n\nmessage E {{ }}"));
            }
        });
    }));
    v.push(fam("comments of any size and number", "comments", move |e| {
        for n in (0..130).chain([255, 256, 257, 1000, 4096, 65536]) {
            e(format!("//{}\nmessage A {{}}", "x".repeat(n)));
            e(format!("{}message A {{}}", "//x\n".repeat(n)));
            e(format!("/*{}*/message A {{}}", "\n * x".repeat(n)));
            for (b, c) in [(" ", "x"), ("\t", "* x"), (" ", "*"), (" \t", "x * y"), ("\u{b}", "**x"), ("\u{c}\r", "é"), (" ", "\n")] {
                let b = b.repeat(n);
                e(format!("/* a\n{b}{c} b\n{b}{c}\n{b}*/\nmessage A {{}}"));
                e(format!("message A {{ optional int32 a = 1; /*{b}a{b}\n{b}{c}{b}*/\n}}"));
            }
            e(format!("/* a\n {}x\n {} */message A {{}}", "*".repeat(n), "*".repeat(n)));
            e(format!("message A {{\n{}\n//l\noptional int32 a=1;\n}}", "//x\n\n".repeat(n)));
            e(format!("message A {{\n{}\n//l\noptional int32 a=1;\n}}", "/*x*/\n".repeat(n)));
            e(format!("message A {{ //t\n{}//l\noptional int32 a=1; }}", "\n".repeat(n)));
            e((0..n.min(300)).map(|i| format!("// lead{i}\nmessage M{i} {{}} // trail{i}\n")).collect());
            e(format!("message A {{ {} }}", (0..n.min(300)).map(|i| format!("// lead{i}\noptional int32 m{i} = {}; // trail{i}\n", i + 1)).collect::<String>()));
        }
    }));
    v.push(fam("comments around every kind of declaration", "comments", move |e| {
        for (k, it) in MSG_ITEMS.iter().enumerate() {
            for jt in MSG_ITEMS {
                for (a, b, c) in [("// d\n\n// l\n", " // t\n", "\n// x\n"), ("/* l */", "// t\n", "/* l2 */"), ("\n/* d */\n\n/* l */\n", " /* t */\n\n", "// e\n\n")] {
                    e(format!("message A {{ {a}{}{b}{c}{}{b} }}", fill(it, 0, true), fill(jt, 1, true)));
                }
            }
            let _ = k;
        }
        for it in FILE_ITEMS {
            for jt in FILE_ITEMS {
                for (a, b, c) in [("// d\n\n// l\n", " // t\n", "\n// x\n"), ("/* l */", "// t\n", "/* l2 */"), ("\n/* d */\n\n/* l */\n", " /* t */\n\n", "// e\n\n")] {
                    e(format!("{a}{}{b}{c}{}{b}", fill(it, 0, true), fill(jt, 1, true)));
                }
            }
        }
    }));
    v.push(fam("one comment at each token boundary", "comments", move |e| {
        for s in shapes(deep) {
            let n = refmodel::model("t", &s).toks.len();
            for k in 0..=n {
                for g in ["/*c*/", "//c\n", "\n//c\n", "\n//c\n\n//d\n", " //c\n//d\n", "\n\n/*c*/\n\n", "/*c*/\n/*d*/"] {
                    if let Some(t) = relayout(&s, |i| if i == k { g.to_owned() } else { " ".to_owned() }) {
                        e(t);
                    }
                }
            }
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C14

pub fn c14(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    let fillers = ["\n", "\t", "\r\n", "/*c*/", "//c\n", "\n//c\n\n/*d\n*/", " ", "/**/", "//\n", "/***/", "\r", "\u{b}", "\u{c}", "/*\"*/", "//'\n", "/*;}*/", "//{[\n", "/* // */", "// /*\n", "\n\n\n", "/*é*/"];
    v.push(fam_parts("a filler at each token boundary", "variant", move |e| {
        for s in shapes(deep) {
            let Some(base) = relayout(&s, |_| " ".into()) else { continue };
            let n = refmodel::model("t", &s).toks.len();
            for k in 0..=n {
                for g in fillers {
                    if let Some(t) = relayout(&s, |i| if i == k { g.to_owned() } else { " ".to_owned() }) {
                        e(vec![base.clone(), t]);
                    }
                }
            }
        }
    }));
    v.push(fam_parts("a filler at every boundary", "variant", move |e| {
        for s in shapes(deep) {
            let Some(base) = relayout(&s, |_| " ".into()) else { continue };
            for g in fillers {
                for h in fillers {
                    if let Some(t) = relayout(&s, |i| if i % 2 == 0 { g.to_owned() } else { h.to_owned() }) {
                        e(vec![base.clone(), t]);
                    }
                }
            }
            if let Some(t) = relayout(&s, |_| "\r\n".into()) {
                e(vec![base.clone(), t]);
            }
            e(vec![s.clone(), s.clone() + "\n"]);
            e(vec![s.clone(), s.clone() + "// c"]);
            e(vec![s.clone(), s.clone() + "/* c */"]);
            e(vec![s.clone(), s.clone() + "\r"]);
            e(vec![s.clone(), s.replace('\n', "\r\n")]);
            e(vec![s.clone(), s.replace("\r\n", "\n")]);
        }
    }));
    if deep {
        v.push(fam_parts("fillers at two token boundaries", "variant", move |e| {
            for s in shapes(true) {
                let Some(base) = relayout(&s, |_| " ".into()) else { continue };
                let n = refmodel::model("t", &s).toks.len();
                if n > 40 {
                    continue;
                }
                for k in 0..=n {
                    for l in k + 1..=n {
                        for g in ["\r\n", "/*c*/", "//c\n", "//'\n"] {
                            for h in ["\t", "/*\"*/", "//c\n", "\r"] {
                                if let Some(t) = relayout(&s, |i| if i == k { g.to_owned() } else if i == l { h.to_owned() } else { " ".to_owned() }) {
                                    e(vec![base.clone(), t]);
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    v.push(fam_parts("as little space as possible", "variant", move |e| {
        for s in shapes(deep) {
            let m = refmodel::model("t", &s);
            if m.file.is_none() {
                continue;
            }
            let mut out = String::new();
            for t in &m.toks {
                let text = &s[t.start..t.end];
                let word = |c: Option<char>| c.is_some_and(|c| c.is_ascii_alphanumeric() || c == '_');
                let (a, b) = (out.chars().last(), text.chars().next());
                let dot = |c: Option<char>| c == Some('.');
                if word(a) && word(b) || word(a) && dot(b) || dot(a) && word(b) {
                    out.push(' ');
                }
                out += text;
            }
            e(vec![s.clone(), out]);
        }
    }));
    v.push(fam_parts("long gaps", "variant", move |e| {
        for s in CORPUS {
            for n in (0..40).chain([100, 127, 128, 255, 256, 1000, 4096, 65536]) {
                for g in [" ", "\n", "\t", "//x\n", "/*x*/", "\r\n"] {
                    let gap = g.repeat(n);
                    e(vec![s.to_string(), format!("{gap}{s}{gap}")]);
                    if n < 130 {
                        let base = relayout(s, |_| " ".into()).unwrap();
                        e(vec![base, relayout(s, |_| gap.clone() + " ").unwrap()]);
                    }
                }
                let gap = format!("/*{}*/", "x".repeat(n));
                e(vec![s.to_string(), format!("{gap}{s}{gap}")]);
            }
        }
    }));
    v.push(fam("lines, columns and lengths of any size", "all", move |e| sizes(e)));
    v.push(fam_parts("comments within aggregates", "variant", move |e| {
        let inner = ["b { c : 2 }", "b < c : 2 >", "b { c { d { } } e : [ 1 , 2 ] }", "b : { c : 'x' 'y' }", "b { } b { }", "c : '{' d : \"}\""];
        for n in (0..if deep { 40 } else { 14 }).chain([20, 21, 33, 60]) {
            for nested in inner {
                for at in [0, n / 2, n] {
                    let text = format!("{} {nested} {}", "a : 1 ".repeat(at), "a : 1 ".repeat(n - at));
                    let toks: Vec<&str> = text.split_ascii_whitespace().collect();
                    let base = format!("option o = {{ {} }} ; option p = 1 ;", toks.join(" "));
                    for k in 0..=toks.len() {
                        if k > 24 && k + 8 < toks.len() && k % 7 != 0 {
                            continue;
                        }
                        for g in ["#c\n", "# {\n", "//c}\n", "/*c*/"] {
                            if n > 14 && g == "/*c*/" {
                                continue;
                            }
                            e(vec![base.clone(), format!("option o = {{ {} {g} {} }} ; option p = 1 ;", toks[..k].join(" "), toks[k..].join(" "))]);
                        }
                    }
                }
            }
        }
    }));
    v.push(fam_parts("layout of texts that are rejected", "variant", move |e| {
        let bad = ["message A { optional int32 a = 0 ; }", "message A { int32 a = 1 ; }", "message A { x }", "message", "option a = ;", "enum A { B = 99999999999 ; }", "syntax = \"proto4\" ;", "package a ; package b ;", "message A { oneof b { } }", "import \"/a\" ;", "message A { optional group b = 1 { } }", "x y z", "message A { map < float , int32 > a = 1 ; }", "service A { rpc B ( C ) returns D ; }"];
        for s in bad {
            let words: Vec<&str> = s.split(' ').collect();
            for g in fillers {
                e(vec![s.to_owned(), words.join(&format!(" {g}"))]);
                for k in 0..words.len() {
                    let t: String = words.iter().enumerate().map(|(i, w)| if i == k { format!("{g}{w} ") } else { format!("{w} ") }).collect();
                    e(vec![s.to_owned(), t]);
                }
            }
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C15

/// Families in which texts break rules; used for totality and for error positions.
pub fn all_rules(_tier: &str) -> Vec<Family> {
    let mut v = vec![];
    for f in [c06("quick"), c07("quick"), c08("quick"), c16("quick")].into_iter().flatten() {
        v.push(f);
    }
    v
}

/// Declarations that break exactly one rule, inside their own brackets or before their semicolon.
pub const BROKEN: [&str; 64] = [
    // rules looked at while reading
    "message X { int32 }",
    "message X { optional int32 = 1; }",
    "message X { optional int32 a 1; }",
    "message X { optional int32 a = b; }",
    "message X { optional int32 a = 1 deprecated; }",
    "message X { optional int32 a = 1 [deprecated]; }",
    "message X { optional int32 a = 1 [deprecated = ]; }",
    "message X { map<int32> a = 1; }",
    "message X { reserved a; }",
    "message X { reserved 1 to b; }",
    "message X { extensions; }",
    "message X { oneof { } }",
    "message X { ) }",
    "message 5 { }",
    "enum X { A; }",
    "enum X { A = ; }",
    "enum X { A = \"a\"; }",
    "enum X { reserved ; }",
    "service X { rpc A returns (B); }",
    "service X { rpc A(B) returns B; }",
    "service X { rpc A(B) (C); }",
    "service X { x }",
    "extend X { 5 }",
    "extend { }",
    "extend X { optional int32 a = ; }",
    "import 5;",
    "import x \"a\";",
    "option = 5;",
    "option a 5;",
    "option a = ;",
    "option (a = 5;",
    "package 5;",
    "package a.;",
    "option a = 99999999999999999999;",
    "option a = 5a;",
    "option a = 1.5f;",
    "option a = \"\\q\";",
    "option a = \"\\400\";",
    "option a = \"\\u12\";",
    "message X { oneof a { int32 } }",
    // rules looked at afterwards
    "message X { optional int32 a = 0; }",
    "message X { optional int32 a = -1; }",
    "message X { optional int32 a = 536870912; }",
    "message X { reserved 0; }",
    "message X { reserved 1 to 536870912; }",
    "message X { extensions 0 to 5; }",
    "enum X { A = 2147483648; }",
    "enum X { reserved -2147483649; }",
    "message X { int32 a = 1; }",
    "message X { oneof a { } }",
    "message X { oneof a { optional int32 b = 1; } }",
    "message X { oneof a { map<int32, int32> b = 1; } }",
    "message X { optional map<int32, int32> a = 1; }",
    "message X { map<float, int32> a = 1; }",
    "message X { map<T, int32> a = 1; }",
    "extend X { required int32 a = 1; }",
    "extend X { map<int32, int32> a = 1; }",
    "message X { optional int32 a = 1 [default = \"a\"]; }",
    "message X { optional int32 a = 1 [default = 2147483648]; }",
    "message X { repeated int32 a = 1 [default = 1]; }",
    "message X { optional bool a = 1 [default = 1]; }",
    "message X { optional int32 a = 1 [json_name = 1]; }",
    "option a = -b;",
    "option a = -9223372036854775809;",
];
pub const BROKEN3: [&str; 5] = [
    "message X { required int32 a = 1; }",
    "message X { optional group A = 1 { } }",
    "message X { int32 a = 1 [default = 1]; }",
    "message X { oneof a { int32 b = 1 [default = 1]; } }",
    "message X { optional int32 a = 0; }",
];
/// Reported while reading although the text derives from the grammar.
pub const BROKEN_TEXT: [&str; 9] = [
    "import \"/a\";",
    "import \"a/../b\";",
    "import \"a\\\\b\";",
    "message X { reserved \"1a\"; }",
    "message X { reserved \"\"; }",
    "enum X { reserved \"a b\"; }",
    "message X { optional group a = 1 { } }",
    "import \"\\xff\";",
    "message X { reserved \"\\xff\"; }",
];

/// Broken inside an aggregate, where the lexer is in another mode; and what is broken only outside or only inside of one.
const BROKEN_MODE: [&str; 19] = [
    "option a = { x: $ };",
    "option a = { $ };",
    "option a = { x: 1 # c\n $ };",
    "option a = { x: 1f $ };",
    "option a = { x: \"\\q\" };",
    "option a = { x { y: $ } };",
    "option a = { x: < y: $ > };",
    "option a = { x: [1, $] };",
    "option a = { x: 5a };",
    "message X { option a = { x: $ }; }",
    "message X { optional int32 a = 1 [b = { x: $ }]; }",
    "enum X { A = 1 [b = { $ }]; }",
    "service X { rpc A(B) returns (C) { option a = { x: $ }; } }",
    "extend X { optional int32 a = 1 [b = { x: ! }]; }",
    "message X { oneof a { option b = { x: $ }; int32 c = 1; } }",
    "# c\n",
    "message X { # c\n optional int32 a = 1; }",
    "enum X { A = 1f; }",
    "option a = 1.5f;",
];

const VALID: [&str; 9] = [
    "message V { optional int32 a = 1; }",
    "enum V { A = 0; }",
    "service V { rpc A(B) returns (C); }",
    "extend V { optional int32 a = 1; }",
    "import \"v.proto\";",
    "option v = 1;",
    "message V { message W { enum X { Y = 1; } } oneof a { int32 b = 1; } }",
    "option v = { a: 1f # c\n };",
    "; message V { }",
];

pub fn c15(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("single broken declarations", "primary", move |e| {
        for b in BROKEN.iter().chain(&BROKEN_TEXT).chain(&["message X { optional int32 a = 1; } }", "foo", "\"a\"", "5;"]) {
            for pre in ["", "\n\n", "// é\n", "message Q { } ", "/* é */ ", "option z = \"é\"; ", "syntax = \"proto2\"; package p;\n"] {
                for post in ["", " message R { }", "\n"] {
                    e(format!("{pre}{b}{post}"));
                }
            }
        }
        for b in BROKEN3 {
            for pre in ["", "\n\n", "// é\n", "message Q { } ", "package p;\n"] {
                e(format!("syntax = \"proto3\";{pre}{b}"));
            }
        }
        for (a, b) in [("package a;", "package b;"), ("package a;\nmessage A { }\n", "package a.b.c;")] {
            e(format!("{a}{b}"));
        }
    }));
    v.push(fam_parts("up to three declarations, some broken", "errors", move |e| {
        let n = if deep { 3 } else { 2 };
        let mut pool: Vec<String> = vec!["Ppackage v;".into()];
        pool.extend(VALID.iter().map(|s| format!("V{s}")));
        pool.extend(BROKEN.iter().map(|s| format!("B{s}")));
        pool.extend(BROKEN_TEXT.iter().map(|s| format!("B{s}")));
        lists(pool.len(), 1, n, &mut |ix| e(ix.iter().map(|i| pool[*i].clone()).collect()));
        // three: valid in between, and two broken before one valid
        for a in &pool {
            for b in &pool {
                for x in [0, 1, 5, 7, 8] {
                    e(vec![a.clone(), pool[x].clone(), b.clone()]);
                    e(vec![a.clone(), b.clone(), pool[x].clone()]);
                    e(vec![pool[x].clone(), a.clone(), b.clone(), pool[x].clone()]);
                }
            }
        }
        let mut pool: Vec<String> = ["Vmessage V { int32 a = 1; }", "Venum V { A = 0; }", "Vmessage V { optional int32 a = 1; }"].iter().map(|s| s.to_string()).collect();
        pool.extend(BROKEN3.iter().map(|s| format!("B{s}")));
        lists(pool.len(), 1, 4, &mut |ix| {
            let mut p = vec!["Vsyntax = \"proto3\";".to_owned()];
            p.extend(ix.iter().map(|i| pool[*i].clone()));
            e(p)
        });
    }));
    v.push(fam_parts("broken inside aggregates and outside", "errors", move |e| {
        let mut pool: Vec<String> = BROKEN_MODE.iter().map(|s| format!("B{s}")).collect();
        pool.extend(VALID.iter().map(|s| format!("V{s}")));
        pool.push("Voption v = { a: 1f # c\n b { c: 2F # d\n } };".into());
        pool.push("Vmessage V { optional int32 a = 1 [b = { c: 1f # c\n }]; }".into());
        lists(pool.len(), 1, if deep { 4 } else { 3 }, &mut |ix| e(ix.iter().map(|i| pool[*i].clone()).collect()));
    }));
    v.push(fam_parts("declarations without an end", "errors", move |e| {
        let cut = ["package a", "package a.b", "import \"x\"", "import", "import public", "option a = 1", "option (a).b", "option a = { b: 1 }", "option a = -1.5",
            "message X", "enum X", "service X", "extend X", "extend .X.Y", "message X { } enum X"];
        let mut pool: Vec<String> = vec!["Ppackage v;".into()];
        pool.extend(cut.iter().map(|s| format!("T{s}")));
        pool.extend(VALID.iter().filter(|s| !s.starts_with(';')).map(|s| format!("V{s}")));
        pool.extend(BROKEN.iter().step_by(if deep { 1 } else { 5 }).map(|s| format!("B{s}")));
        lists(pool.len(), 1, if deep { 4 } else { 3 }, &mut |ix| {
            if ix.iter().any(|i| pool[*i].starts_with('T')) {
                e(ix.iter().map(|i| pool[*i].clone()).collect());
            }
        });
    }));
    v.push(fam_parts("many broken declarations", "errors", move |e| {
        for n in (1..40).chain([100, 300]) {
            for b in ["message X { optional int32 a = 0; }", "message X { ) }", "import \"/a\";", "option a = 5a;"] {
                for x in ["message V { optional int32 a = 1; }", "option v = { a: 1f };"] {
                    let mut p = vec![];
                    for _ in 0..n {
                        p.push(format!("B{b}"));
                        p.push(format!("V{x}"));
                    }
                    e(p);
                }
            }
        }
    }));
    v.push(fam("one edit from a sentence through every configuration", "primary", move |e| {
        let s = grammar_states(if deep { 2 } else { 1 });
        s.0.neighbours(&s.1, 1, e);
        s.0.neighbours(&s.2, 1, e);
    }));
    v.push(fam("numbers, strings and comments", "primary", move |e| {
        const CH: [&str; 19] = ["0", "1", "8", ".", "e", "x", "f", "-", "a", "_", "\"", "'", "\\", "é", "\n", "/*", "*/", "#", "\0"];
        seqs(&CH, 1, if deep { 4 } else { 3 }, &mut |t| {
            e(format!("option o = {t};"));
            e(format!("option o = {{ {t} }};"));
            e(format!("option o = \"{t}\";"));
            e(format!("é message A {{ {t} }}"));
            e(format!("message A {{ }} {t}"));
        });
    }));
    for mut f in all_rules(tier) {
        f.judge = crate::judge_by_name("primary");
        f.judge_name = "primary";
        v.push(f);
    }
    v
}

// ------------------------------------------------------------------------------------------------ C16

pub fn c16(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("sequences of header statements", "desc", move |e| {
        let pool = ["syntax = \"proto2\";", "syntax = \"proto3\";", "syntax = \"proto4\";", "package a;", "package b.c;", "import \"x#\";", "import public \"y#\";", "import weak \"z#\";", "import \"same\";", "option o# = 1;", "message M# { }", ";", "enum E# { }"];
        items("", &pool, "", 0, if deep { 5 } else { 4 }, true, e);
    }));
    v.push(fam("import paths", "desc", move |e| {
        let parts = ["a", ".", "/", "..", "\\\\", "é", " ", "proto"];
        seqs(&parts, 0, if deep { 7 } else { 6 }, &mut |t| e(format!("import \"{t}\";")));
        let parts = ["/", ".", "a", "b.proto"];
        seqs(&parts, 0, if deep { 8 } else { 7 }, &mut |t| e(format!("import \"x.proto\"; import public \"{t}\";")));
        for c in 1u32..0x100 {
            let c = char::from_u32(c).unwrap();
            if c != '"' && c != '\\' && c != '\n' {
                e(format!("import \"{c}\";"));
                e(format!("import \"a{c}b\";"));
                e(format!("import \"a/{c}/b\";"));
                e(format!("import \"{c}/b\";"));
                e(format!("import \"{c}:/b\";"));
            }
        }
        for n in (1..40).chain([255, 256, 1000]) {
            e(format!("import \"{}x\";", "a/".repeat(n)));
            e(format!("import \"{}x\";", "/".repeat(n)));
            e(format!("import \"{}x\";", "../".repeat(n)));
            e(format!("import \"{}\";", "a".repeat(n)));
            e(format!("import \"{}\";", ".".repeat(n)));
        }
    }));
    v.push(fam("import paths of many components with an odd one at any place", "desc", move |e| {
        for n in (1..=if deep { 130 } else { 40 }).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
            for k in 0..n {
                if n > 40 && !deep && k > 5 && k + 5 < n && k % 31 > 2 {
                    continue;
                }
                for odd in ["..", ".", "", "\\\\", "a\\\\b", "...", "..a", " ", "a:", "~", "*"] {
                    let parts: Vec<&str> = (0..n).map(|i| if i == k { odd } else { "a" }).collect();
                    e(format!("import \"{}\";", parts.join("/")));
                }
            }
        }
    }));
    v.push(fam("import lists", "desc", move |e| {
        let pool = ["import \"a#\";", "import public \"b#\";", "import weak \"c#\";", "message M# { }", "import 'd' \"#\";"];
        items("", &pool, "", 0, if deep { 7 } else { 6 }, true, e);
        items("syntax = \"proto3\"; package q; ", &pool, "", 0, 3, false, e);
        for n in (0..70).chain([127, 128, 255, 256, 300, 1000]) {
            for p in [&pool[0..3], &pool[1..2], &pool[2..3], &pool[1..3]] {
                e((0..n).map(|i| fill(p[i % p.len()], i, true)).collect::<Vec<_>>().join("\n"));
            }
        }
    }));
    v.push(fam("syntax values and positions", "desc", move |e| {
        let parts = ["proto", "2", "3", "\" \"", "' '", "\\x32", "\\063", " ", "P", "\" '"];
        seqs(&parts, 0, 4, &mut |t| {
            e(format!("syntax = \"{t}\"; message A {{ optional int32 a = 1; }}"));
            e(format!("syntax = '{t}'; message A {{ int32 a = 1; }}"));
        });
        for s in ["proto2", "proto3"] {
            for m in ["message A { int32 a = 1; }", "message A { optional int32 a = 1; }", "message A { required int32 a = 1; }"] {
                for pre in ["", ";", "package a;", "import \"a\";", "// c\n", "/* c */", "\n\n", "option a = 1;", "message B { }", "\u{feff}"] {
                    for post in ["", ";", ";;", "syntax = \"proto3\";", "syntax = \"proto2\";"] {
                        e(format!("{pre}syntax = \"{s}\";{post}{m}"));
                        e(format!("{pre}syntax=\"{s}\"{post}{m}"));
                        e(format!("{pre}{m}syntax = \"{s}\";{post}"));
                    }
                }
            }
        }
    }));
    v.push(fam("package names", "desc", move |e| {
        for k in KEYWORDS {
            for l in KEYWORDS {
                e(format!("package {k}.{l};"));
            }
            e(format!("package {k};"));
            e(format!("package .{k};"));
            e(format!("package {k} . a /* c */ . b;"));
            e(format!("package {k};package {k};"));
        }
        for n in (1..40).chain([255, 256, 257]) {
            e(format!("package {};", vec!["a"; n].join(".")));
            e(format!("package {};", vec!["abc"; n].join(" . ")));
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C17

pub const DECLS: [&str; 26] = [
    "message A { optional int32 a = 1; }",
    "// lead A\nmessage A { // trail A\n  optional int32 a = 1; // trail a\n}",
    "enum E { Z = 0; O = 1 [deprecated = true]; }",
    "/* lead\n * E */\nenum E {\n  // lead Z\n  Z = 0;\n}\n",
    "service S { rpc R(A) returns (stream B) { option o = 1; } }",
    "// lead S\n\n// really\nservice S { }",
    "extend X { optional int32 e = 1; repeated group G = 2 { optional int32 z = 1; } }",
    "extend Y { optional string f = 3; }",
    "import \"a.proto\"; // trail import",
    "import public \"b.proto\";",
    "// lead weak\nimport weak \"c.proto\";",
    "option o = 1;",
    "// lead option\noption (p).q = { a: 1f # c\n }; // trail option",
    "message M { map<int32, T> m = 1; oneof o { int32 b = 2; } reserved 5; extensions 7 to max; }",
    "message O { optional int32 a = 1; message P { enum Q { R = 0; } extend Z { optional P p = 9; } } }",
    ";",
    "message T { reserved \"x\"; option message_set_wire_format = true; extensions 4 to max; }",
    "package a.b;",
    "message\nL\n{\n\n\noptional\nint32\nl\n=\n1\n;\n}",
    "message U { optional string s = 1 [default = \"é\"]; }",
    "message D { optional int32 a = 1 [default = 5, json_name = \"j\"]; }",
    "extend X { optional group H = 2 { optional group I = 1 { } } }",
    "enum F { option allow_alias = true; A = 0; B = 0; reserved -5 to max; reserved \"q\"; }",
    "option z = \"a\" \"b\";",
    "service V { option x = 1; rpc R(stream A) returns (B); }",
    "message W { optional group G = 1 { } optional int32 a = 2; }",
];

const SYNTAXES_X: [(u8, &str); 3] = [(0, ""), (2, "syntax = \"proto2\"; "), (3, "syntax = \"proto3\"; ")];

pub fn c17(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam_parts("files put together from declarations", "compose", move |e| {
        lists(DECLS.len(), 2, if deep { 4 } else { 3 }, &mut |ix| e(ix.iter().map(|i| DECLS[*i].to_owned()).collect()));
        for n in (1..40).chain([100, 255, 256, 257]) {
            for k in 0..DECLS.len() {
                if k != 17 {
                    e((0..n).map(|i| DECLS[if i % 2 == 0 { k } else { (k + 3) % 17 }].to_owned()).collect());
                }
            }
        }
    }));
    v.push(fam_parts("histories of calls", "history", move |e| {
        let pool = history_pool();
        lists(pool.len(), 1, 2, &mut |ix| e(ix.iter().map(|i| pool[*i].clone()).collect()));
        let few: Vec<String> = pool.iter().take(if deep { 24 } else { 12 }).cloned().collect();
        lists(few.len(), 3, 3, &mut |ix| e(ix.iter().map(|i| few[*i].clone()).collect()));
        // files that look alike: one token or one blank changed, all else (lengths, counts, ends) the same
        for s in &pool {
            for t in lookalikes(s) {
                e(vec![s.clone(), t.clone()]);
                e(vec![t.clone(), s.clone()]);
                e(vec![s.clone(), t.clone(), s.clone()]);
            }
        }
    }));
    v.push(fam_parts("calls that end early, then calls that depend on what was left", "history", move |e| {
        // texts whose parsing stops inside every construct, with every kind of error
        let mut stops = vec![];
        for host in ["$", "option a = { $ };", "option a = { b { $", "option a = { b: '$", "message A { $ }", "message A { optional int32 a = 1 [b = { $ }]; }", "/* $", "message A { // $", "option a = $", "enum A { B = $", "service A { rpc B($", "message A { oneof o { $", "message A { optional group G = 1 { $", "// x\n$", "message A {\n // y\n $", "message A { } // z\n $", "syntax = 'proto3'; message A { $"] {
            for x in ["$$", "'\\q", "1a", "09", "# c\n", "/* /* */", "\0", ")", "99999999999999999999", "\"", "1f", "", "// t", "/* t */", "/* t */ )", "// t\n )"] {
                stops.push(host.replace('$', &x.replace("$$", "\u{24}")));
            }
        }
        // and texts that would show what was left behind
        let after = ["# x\nmessage M { }", "option a = 1f;", "option a = { b: 1f # c\n };", "message M { }", " message M { optional int32 a = 1; }", "message M { int32 a = 1; }", "enum E { }", "\n// c\nmessage M { } // d\n", "/* e */ message M { }", "'a'", "option a = 'é';", "}", "optional int32 a = 1;", "", ")", "syntax = 'proto3'; message M { int32 a = 1; }", "option a = 09;"];
        for s in &stops {
            for t in after {
                e(vec![s.clone(), t.to_owned()]);
                if deep {
                    for u in after {
                        e(vec![s.clone(), t.to_owned(), u.to_owned()]);
                    }
                }
            }
        }
    }));
    v.push(fam_parts("names of the file", "naming", move |e| {
        let long = "d/".repeat(200) + "a.proto";
        for n in [
            "a.proto", "", "é.proto", "a/b/c.proto", "t", "descriptor.proto", "google/protobuf/any.proto", " ", "x\ny", "google/protobuf/descriptor.proto", "google/protobuf/x.proto",
            "google/api/annotations.proto", "google/protobuf/compiler/plugin.proto", "/a.proto", "./a.proto", "../a.proto", "a\\b.proto", "a.proto2", "proto3.proto", "a.PROTO", "a.txt", "a.proto.bak",
            "-", "a:b", "C:/a.proto", "test.proto", "a_test.proto", "internal/a.proto", "A.proto", "\0", "%s", "{}", &long,
        ] {
            for s in history_pool().into_iter().chain(BROKEN.iter().chain(&BROKEN3).chain(&BROKEN_TEXT).chain(&DECLS).chain(&CORPUS).map(|s| s.to_string())) {
                e(vec![n.into(), s]);
            }
            for (_, p) in SYNTAXES_X {
                for b in ["message A { int32 a = 1; }", "message A { required int32 a = 1; }", "message A { optional int32 a = 1 [default = 1]; }", "message A { optional group G = 1 { } }", "message A { oneof o { } }", "message A { optional int32 a = 0; }", "message A { optional int32 a = 536870912; }", "message A { reserved 1 to max; extensions 5; }", "message A { map<float, A> a = 1; }", "extend A { map<int32, A> a = 1; }", "enum A { }", "enum A { B = 1; }", "import '/a';", "import 'a/../b';", "package a; package b;", "option a = -b;", "option a = '\\xff';", "message A { option message_set_wire_format = true; extensions 4 to max; reserved 1 to max; }"] {
                    e(vec![n.into(), format!("{p}{b}")]);
                }
            }
        }
    }));
    v
}

/// The same text with one word replaced by another of its length, two neighbouring words swapped, one line break moved or
/// turned into a blank (or back), or one digit changed.
fn lookalikes(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut v = vec![];
    let blanks: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b' ' || b[i] == b'\n').collect();
    for &i in &blanks {
        let mut t = b.to_vec();
        t[i] = if b[i] == b' ' { b'\n' } else { b' ' };
        v.push(t.clone());
        if let Some(&j) = blanks.iter().find(|&&j| j > i && b[j] != b[i]) {
            t[j] = b[i];
            v.push(t);
        }
    }
    for i in (0..b.len()).step_by(b.len() / 40 + 1) {
        if b[i].is_ascii_alphanumeric() {
            let mut t = b.to_vec();
            t[i] = match b[i] {
                b'9' | b'z' | b'Z' => b[i] - 1,
                c => c + 1,
            };
            v.push(t);
        }
    }
    v.truncate(120);
    v.into_iter().filter_map(|t| String::from_utf8(t).ok()).collect()
}

/// Sources chosen to collide: equal lengths, equal prefixes, valid and invalid, every feature with state.
pub fn history_pool() -> Vec<String> {
    let mut v: Vec<String> = [
        "message A { optional int32 a = 1; }",
        "message A { optional int64 a = 1; }",
        "message B { optional int32 a = 1; }",
        "syntax = \"proto3\"; message A { int32 a = 1; }",
        "message A { int32 a = 1; }",
        "message A { optional int32 a = 0; }",
        "option a = { b: 1f };",
        "option a = { b: 1f",
        "option a = 1f;",
        "option a = \"x\\q\";",
        "// comment\n\n// lead\nmessage A { } // trail",
        "// comment\n\n// lead",
        "message A { optional group G = 1 { optional group H = 2 { } } }",
        "syntax = \"proto3\"; message A { optional int32 a = 1; optional int32 b = 2; }",
        "",
        "x",
        "/* open",
        "message A {",
        "option a = { # c\n };",
        "# c\nmessage A { }",
        "import \"a\"; import public \"b\"; import weak \"c\";",
        "\n\n\n\nmessage A { optional int32 a = 1; }\n",
        "message A { reserved 1 to max; option message_set_wire_format = true; }",
        "message A { reserved 1 to max; }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.extend(CORPUS.iter().skip(3).map(|s| s.to_string()));
    v
}

// ------------------------------------------------------------------------------------------------ C18

pub fn c18(tier: &str) -> Vec<Family> {
    let deep = thorough(tier);
    let mut v = vec![];
    v.push(fam("tokens of every length", "message", long_tokens));
    v.push(fam("one edit from a sentence through every configuration", "message", move |e| {
        let s = grammar_states(if deep { 2 } else { 1 });
        s.0.neighbours(&s.1, 1, e);
        s.0.neighbours(&s.2, 1, e);
    }));
    v.push(fam("single broken declarations", "message", move |e| {
        for b in BROKEN.iter().chain(&BROKEN_TEXT).chain(&BROKEN_MODE).chain(&["message X { optional int32 a = 1; } }", "foo", "\"a\"", "5;"]) {
            for pre in ["", "\n\n", "// é\n", "message Q { } ", "syntax = \"proto2\"; package p;\n"] {
                e(format!("{pre}{b}"));
            }
        }
        for b in BROKEN3 {
            e(format!("syntax = \"proto3\";{b}"));
        }
        for s in ["proto1", "proto4", "proto", "", "Proto2", "proto2 ", "é", "editions", "proto3\\n"] {
            e(format!("syntax = \"{s}\";"));
        }
    }));
    v.push(fam("every token after every prefix of varied files", "message", move |e| {
        for f in CORPUS {
            let m = refmodel::model("t", f);
            if m.file.is_none() {
                continue;
            }
            for t in &m.toks {
                for x in crate::grammar::TOKENS.iter().chain(&["+", "-1", "\"\\t\\\"'\\377\"", "'é'", "1e40", "0x10", "1e-7", ".5"]) {
                    if deep || t.start % 2 == x.len() % 2 || x.len() == 1 {
                        e(format!("{}{x} ", &f[..t.start]));
                    }
                }
                e(f[..t.start].to_owned());
            }
        }
    }));
    v.push(fam("repeated package statements", "message", move |e| {
        lists(6, 2, if deep { 5 } else { 4 }, &mut |ix| {
            let of = ["package a;", "package\n b . c ;", "message package { optional int32 package = 1; }", "import 'package';", "option package = 1;", ";"];
            e(ix.iter().map(|i| of[*i]).collect::<Vec<_>>().join(" "));
        });
    }));
    v.push(fam_parts("values that do not fit their type", "limits", move |e| {
        let types = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "bool", "string", "bytes"];
        let mut values: Vec<String> = vec![];
        for b in [0u64, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX] {
            for d in [-1i128, 0, 1] {
                let n = b as i128 + d;
                if (0..=u64::MAX as i128).contains(&n) {
                    for x in [format!("{n}"), format!("0x{n:X}"), format!("0{n:o}")] {
                        values.push(format!("-{x}"));
                        values.push(x);
                    }
                }
            }
        }
        values.extend(
            ["true", "false", "-true", "inf", "-inf", "nan", "-nan", "foo", "-foo", "a.b", "1.5", "-1.5", "1e5", "-1e40", "1.0", "0.0", "-0.0", "\"a\"", "'it''s'", "\"\\t\\\"'\\377é\"", "''", "{ a: 1 }", "{ }", "True", "t", "INF"].map(String::from),
        );
        for t in types {
            for x in &values {
                for place in ["message A { optional $ a = 1 [default = @]; }", "extend A { optional $ a = 1 [x = 1, default = @, y = 2]; }", "message A { message B { required $ a = 1 [default = @]; } }"] {
                    e(vec![t.into(), x.clone(), place.replace('$', t).replace('@', x)]);
                }
            }
        }
    }));
    for mut f in all_rules(tier) {
        f.judge = crate::judge_by_name("message");
        f.judge_name = "message";
        v.push(f);
    }
    v
}
