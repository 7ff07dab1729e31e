//! Compiling the output of a compilation.

use crate::engine::*;
use crate::families::{dags, fam, lists};
use crate::graph::{ensure, hash, source, SETS};
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::{Compiler, Error};
use std::collections::BTreeMap;

/// How the files reach the compiler.
#[derive(Clone)]
enum Form {
    Source(String),
    Parsed(String),
    Descriptor(FileDescriptorProto),
    Into(FileDescriptorProto),
    Bytes(Vec<u8>),
}
struct Mem(BTreeMap<String, Form>);
impl FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        Ok(match self.0.get(name) {
            None => return Err(Error::file_not_found(name)),
            Some(Form::Source(s)) => File::from_source(name, s)?,
            Some(Form::Parsed(s)) => File::from_file_descriptor_proto(protox_parse::parse(name, s)?),
            Some(Form::Descriptor(d)) => File::from_file_descriptor_proto(d.clone()),
            Some(Form::Into(d)) => d.clone().into(),
            Some(Form::Bytes(b)) => File::decode_file_descriptor_proto(b.as_slice()).map_err(Error::new)?,
        })
    }
}

fn diff(a: &FileDescriptorSet, b: &FileDescriptorSet) -> String {
    for (x, y) in a.file.iter().zip(&b.file) {
        if x != y {
            let (x, y) = (format!("{x:?}"), format!("{y:?}"));
            let at = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(60);
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 200).min(s.len())]).into_owned();
            return format!("...{}\nagainst ...{}", cut(&x), cut(&y));
        }
    }
    format!("{:?} against {:?}", a.file.iter().map(|f| f.name()).collect::<Vec<_>>(), b.file.iter().map(|f| f.name()).collect::<Vec<_>>())
}

/// parts: "name\nsource" of each file; the last part names the files to open, one per line
pub fn j_fixpoint(parts: &[String], c: &mut Ctx) -> Verdict {
    let files: BTreeMap<String, String> =
        parts[..parts.len() - 1].iter().map(|p| p.split_once('\n').map(|(n, s)| (n.to_owned(), s.to_owned())).unwrap()).collect();
    let opens: Vec<&str> = parts[parts.len() - 1].lines().collect();
    let with_google = |r: Box<dyn FileResolver>| {
        let mut chain = ChainFileResolver::new();
        chain.add(r);
        chain.add(GoogleFileResolver::new());
        Compiler::with_file_resolver(chain)
    };
    let mem = |f: &dyn Fn(&str) -> Form| Box::new(Mem(files.iter().map(|(n, s)| (n.clone(), f(s))).collect())) as Box<dyn FileResolver>;
    c.states.insert(hash(&parts));
    let mut first = with_google(mem(&|s| Form::Source(s.to_owned())));
    let r = guarded(|| first.open_files(&opens).map(|_| ()))?;
    c.impl_runs += 1;
    if let Err(e) = r {
        c.rejected += 1;
        c.outcomes.insert(hash(&e.to_string()));
        // what does not compile from source does not compile from the parsed descriptor
        if !e.is_parse() {
            let mut comp = with_google(mem(&|s| Form::Parsed(s.to_owned())));
            match guarded(|| comp.open_files(&opens).map(|_| ()))? {
                Ok(()) => return Err(format!("fails from source with {e:?}, but not from parsed descriptors")),
                Err(e2) => ensure!(e2.to_string() == e.to_string() && e2.file() == e.file(), "from source {e:?}, from parsed descriptors {e2:?}"),
            }
        }
        return Ok(());
    }
    c.accepted += 1;
    let flags = |comp: &Compiler| comp.files().map(|f| (f.name().to_owned(), f.is_import())).collect::<BTreeMap<_, _>>();
    let out = |comp: &mut Compiler, imports: bool, info: bool| {
        guarded(|| {
            comp.include_imports(imports).include_source_info(info);
            (comp.file_descriptor_set(), comp.encode_file_descriptor_set())
        })
    };
    let (full, full_bytes) = out(&mut first, true, true)?;
    let (bare, bare_bytes) = out(&mut first, true, false)?;
    c.outcomes.insert(hash(&full_bytes));
    let want_flags = flags(&first);
    for f in &full.file {
        ensure!(f.source_code_info.is_some(), "{} has no source info", f.name());
    }
    let decoded = FileDescriptorSet::decode(full_bytes.as_slice()).map_err(|e| format!("the encoded set does not decode: {e}"))?;
    ensure!(decoded == full, "the encoded set is another: {}", diff(&decoded, &full));

    let by_name = |f: &dyn Fn(&FileDescriptorProto) -> Form, set: &FileDescriptorSet| {
        Box::new(Mem(set.file.iter().map(|d| (d.name().to_owned(), f(d))).collect())) as Box<dyn FileResolver>
    };
    let decode = |b: &[u8]| guarded(|| DescriptorSetFileResolver::decode(b))?.map_err(|e| format!("the output cannot be decoded: {e}"));
    let ways: Vec<(&str, Compiler, &FileDescriptorSet)> = vec![
        ("the parsed descriptors", with_google(mem(&|s| Form::Parsed(s.to_owned()))), &full),
        ("the set", Compiler::with_file_resolver(DescriptorSetFileResolver::new(full.clone())), &full),
        ("the set without source info", Compiler::with_file_resolver(DescriptorSetFileResolver::new(bare.clone())), &bare),
        ("the encoded set", Compiler::with_file_resolver(decode(&full_bytes)?), &full),
        ("the encoded set without source info", Compiler::with_file_resolver(decode(&bare_bytes)?), &bare),
        ("single descriptors", Compiler::with_file_resolver(by_name(&|d| Form::Descriptor(d.clone()), &full)), &full),
        ("single descriptors without source info", Compiler::with_file_resolver(by_name(&|d| Form::Into(d.clone()), &bare)), &bare),
        ("single encoded descriptors", Compiler::with_file_resolver(by_name(&|d| Form::Bytes(d.encode_to_vec()), &full)), &full),
    ];
    for (how, mut comp, want) in ways {
        guarded(|| comp.open_files(&opens).map(|_| ()))?.map_err(|e| format!("compiling again from {how} fails: {e:?}"))?;
        c.impl_runs += 1;
        c.transitions.insert(hash(&(parts, how)));
        let (again, again_bytes) = out(&mut comp, true, true)?;
        ensure!(again == *want, "compiling again from {how} gives another set: {}", diff(&again, want));
        let d = FileDescriptorSet::decode(again_bytes.as_slice()).map_err(|e| e.to_string())?;
        ensure!(d == *want, "compiling again from {how} gives another encoded set: {}", diff(&d, want));
        ensure!(flags(&comp) == want_flags, "compiling again from {how} gives the import flags {:?}, expected {want_flags:?}", flags(&comp));
        ensure!(comp.files().all(|f| f.path().is_none()), "compiling from {how} gives a path");
    }
    Ok(())
}

const BASES: &[&str] = &[
    "",
    "syntax = 'proto3'; package base; message T { int32 x = 1; } enum K { Z = 0; }",
    "package base; message T { optional int32 x = 1 [default = -7]; extensions 100 to max; } enum K { Z = 1; option allow_alias = true; Y = 1; }",
    "package base; message T { required group G = 1 { optional T t = 1; } extensions 100 to 200, 300; message In { } enum E { A = 0; } } enum K { Z = 0; }",
    "syntax = 'proto3'; package base; message T { map<string, T> m = 1; oneof o { int32 a = 2; K k = 3; } optional K ok = 4; repeated double d = 5 [packed = false]; reserved 6, 8 to 10, 12 to max; reserved 'q', 'r'; } enum K { Z = 0; N = -1; reserved 5 to 7; reserved 'X'; }",
    "package base; option java_package = 'x.y'; option optimize_for = SPEED; message T { option deprecated = true; optional string s = 1 [default = 'a\\tb', json_name = 'ess', deprecated = true]; optional bytes b = 2 [default = '\\xff\\0']; optional float f = 3 [default = inf]; optional double d = 4 [default = nan]; optional K k = 5 [default = Y]; extensions 100 to 101; } enum K { Z = 0; Y = 2 [deprecated = true]; }",
    "package base; import 'google/protobuf/descriptor.proto'; message T { extensions 100 to 200; } enum K { Z = 0; } extend google.protobuf.MessageOptions { optional T tm = 50001; optional K km = 50002; }",
    "package base; import 'google/protobuf/any.proto'; message T { optional google.protobuf.Any any = 1; extensions 100 to 200; } enum K { Z = 0; } service S { rpc R(T) returns (T) { option deprecated = true; } rpc Q(stream T) returns (stream google.protobuf.Any); }",
];
const ROOTS: &[&str] = &[
    "",
    "message R { optional base.T t = 1; repeated base.K k = 2; }",
    "message R { optional .base.T t = 1; optional group H = 2 { optional base.K k = 1; } map<int32, base.K> m = 3; }",
    "package base.inner; message R { oneof o { T t = 1; base.T u = 2; } optional K k = 4 [default = Z]; }",
    "package base; message R { optional T t = 1; message T { } optional T u = 2; }",
    "extend base.T { optional int32 e = 100; optional base.T f = 101; }",
    "message R { extend base.T { repeated int32 e = 100 [packed = true]; } }",
    "service S { rpc R(base.T) returns (stream base.T); }",
    "syntax = 'proto3'; package r; message R { base.T t = 1; optional base.T u = 2; }",
    "// detached\n\n// leading\nmessage R { // trailing\n  /* f */ optional base.T t = 1; }",
    "option java_outer_classname = 'O'; message R { option message_set_wire_format = false; optional base.T t = 1 [lazy = true]; }",
];

/// What a file can have any number of: what comes before, one of them (# is its number), what comes after.
const MANY: &[(&str, &str, &str)] = &[
    ("", "// detached #\n\n", "message M { }"),
    ("", "// line #\n", "message M { }"),
    ("message M { // a\n", "// line #\n", "\n} message N { }"),
    ("message M {\n", "/* detached # */\n\n", "// b\noptional int32 a = 1; // c\n}"),
    ("enum E { A = 0;\n\n", "// detached #\n\n", "B = 1; }"),
    ("// ", "word # ", "\nmessage M { }"),
    ("", "message M# { }", ""),
    ("", "enum E# { A# = #; }", ""),
    ("", "service S# { }", ""),
    ("message M { extensions 1 to 18000; }", "extend M { optional int32 e# = #; }", ""),
    ("message M { extensions 1 to 18000; } extend M {", "optional string e# = #;", "}"),
    ("message M {", "optional int32 f# = #;", "}"),
    ("message M {", "optional int32 f# = # [default = #, json_name = \"j#\", deprecated = true];", "}"),
    ("syntax = 'proto3'; message M {", "optional int32 f# = #;", "}"),
    ("syntax = 'proto3'; message M {", "map<int32, M> f# = #;", "}"),
    ("message M {", "oneof o# { int32 f# = #; }", "}"),
    ("message M { oneof o { int32 a = 18000;", "int32 f# = #;", "} }"),
    ("message M {", "optional group G# = # { }", "}"),
    ("message M {", "message N# { }", "}"),
    ("message M {", "enum E# { A# = 0; }", "}"),
    ("message M {", "reserved #;", "}"),
    ("message M {", "extensions #;", "}"),
    ("message M { reserved 18000", ", #", "; }"),
    ("message M {", "reserved 'r#';", "}"),
    ("message M { reserved 'a'", ", 'r#'", "; }"),
    ("enum E { A = 0;", "B# = #;", "}"),
    ("enum E { option allow_alias = true; A = 0;", "B# = 0 [deprecated = true];", "}"),
    ("enum E { A = 0;", "reserved #; reserved 'r#';", "}"),
    ("message M { } service S {", "rpc R#(M) returns (stream M);", "}"),
    ("message M { } service S {", "rpc R#(M) returns (M) { option deprecated = true; }", "}"),
    ("package a", ".p#", "; message M { }"),
    ("message M { optional string s = 1 [default = '", "s#", "']; }"),
    ("message M { optional bytes s = 1 [default = '", "\\xff", "']; }"),
    ("option java_package = '", "s#", "';"),
    ("message M", "_#", " { }"),
    ("", "\n", "message M { }"),
    ("", " ", "message M { }"),
    ("", "\n ", "/* a */ message M { } // b"),
];

/// How deep the braces of a text nest.
fn depth(text: &str) -> usize {
    let (mut now, mut most) = (0usize, 0);
    for b in text.bytes() {
        match b {
            b'{' => now += 1,
            b'}' => now = now.saturating_sub(1),
            _ => (),
        }
        most = most.max(now);
    }
    most
}

pub fn c31(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    let mut v = vec![
        fam("4 files, every acyclic graph × files opened", j_fixpoint, "fixpoint", move |e| {
            for g in dags(4) {
                for s in lists(&[0usize, 1, 2, 3], 1, 2) {
                    if s.len() == 2 && s[0] == s[1] || !deep && s.len() == 2 && s[0] > s[1] {
                        continue;
                    }
                    let mut p: Vec<String> = g.iter().enumerate().map(|(i, n)| format!("{}\n{}", SETS[0][i], source(i, n).0)).collect();
                    p.push(s.iter().map(|i| SETS[0][*i]).collect::<Vec<_>>().join("\n"));
                    e(p);
                }
            }
        }),
        fam("features of an imported file × features of the importing file × form of import", j_fixpoint, "fixpoint", move |e| {
            for b in BASES {
                for r in ROOTS {
                    for how in ["", "public ", "weak "] {
                        let (syn, rest) = match r.strip_prefix("syntax = 'proto3';") {
                            Some(x) => ("syntax = 'proto3';", x),
                            None => ("", *r),
                        };
                        for opens in ["root.proto", "base.proto\nroot.proto"] {
                            e(vec![
                                format!("base.proto\n{b}"),
                                format!("root.proto\n{syn} import {how}'base.proto'; {rest}"),
                                opens.into(),
                            ]);
                        }
                    }
                }
            }
        }),
        fam("features of an imported file, seen through a public import", j_fixpoint, "fixpoint", move |e| {
            for b in BASES {
                for r in ROOTS {
                    let (syn, rest) = match r.strip_prefix("syntax = 'proto3';") {
                        Some(x) => ("syntax = 'proto3';", x),
                        None => ("", *r),
                    };
                    e(vec![
                        format!("base.proto\n{b}"),
                        "mid.proto\nimport public 'base.proto';".into(),
                        format!("root.proto\n{syn} import 'mid.proto'; {rest}"),
                        "root.proto".into(),
                    ]);
                }
            }
        }),
    ];
    v.push(fam("every number of every element", j_fixpoint, "fixpoint", move |e| {
        for (pre, item, post) in MANY {
            for n in crate::sizes::sizes(if deep { 140 } else { 20 }, if deep { 2050 } else { 260 }) {
                let items: String = (1..=n).map(|i| item.replace('#', &i.to_string())).collect();
                e(vec![format!("a.proto\n{pre}{items}{post}"), "a.proto".into()]);
            }
        }
        for n in crate::sizes::sizes(20, if deep { 1100 } else { 260 }) {
            let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
            let mut p = vec![format!("a.proto\n{}", list(&|i| format!("import {}'b{i}.proto';", ["", "public ", "weak "][i % 3])))];
            p.extend((0..n).map(|i| format!("b{i}.proto\nmessage B{i} {{ }}")));
            p.push("a.proto".into());
            e(p);
            let mut p: Vec<String> = (0..n).map(|i| format!("d{i}/a.proto\npackage d{i}; // c\nmessage A {{ }}")).collect();
            p.push((0..n).map(|i| format!("d{i}/a.proto")).collect::<Vec<_>>().join("\n"));
            e(p);
        }
    }));
    // single files: everything the parser's families for descriptors enumerate
    let all: &[&str] = if deep { &["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16"] } else { &["C05", "C06", "C07", "C08", "C10", "C11", "C12", "C16"] };
    for p in all {
        for f in mc_parse::own_families(p, "quick") {
            let gen = f.gen;
            v.push(fam(&format!("{p}: {}", f.name), j_fixpoint, "fixpoint", move |e| {
                gen(&mut |parts: Vec<String>| {
                    // deeper nesting is C25's matter (known-findings.txt)
                    if parts.len() == 1 && depth(&parts[0]) < 100 {
                        e(vec![format!("a.proto\n{}", parts[0]), "a.proto".into()]);
                    }
                })
            }));
        }
    }
    v
}
