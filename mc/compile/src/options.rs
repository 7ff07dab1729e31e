//! Custom options through compilation and re-encoding, judged on the wire.

use crate::engine::*;
use crate::families::fam;
use crate::graph::{ensure, hash};
use crate::resolvers::hex;
use prost::Message;
use prost_types::FileDescriptorSet;
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::{Compiler, Error};
use std::collections::BTreeMap;

/// Element, its options message, and the way to it from the file (field numbers).
const ELEMENTS: [(&str, &str, &[u32]); 10] = [
    ("file", "File", &[8]),
    ("message", "Message", &[4, 7]),
    ("field", "Field", &[4, 2, 8]),
    ("oneof", "Oneof", &[4, 8, 2]),
    ("range", "ExtensionRange", &[4, 5, 3]),
    ("enum", "Enum", &[5, 3]),
    ("value", "EnumValue", &[5, 2, 3]),
    ("service", "Service", &[6, 3]),
    ("method", "Method", &[6, 2, 4]),
    ("extension", "Field", &[7, 8]),
];

const TYPES_DEF: &str = "
message Sub { optional int32 a = 1; repeated string b = 2; optional Sub c = 3; optional Color k = 4; extensions 10 to 20; optional group G = 5 { optional int32 z = 1; } }
enum Color { RED = 0; BLUE = 5; GREY = -1; }
extend Sub { optional bool xb = 10; optional Sub xs = 11; }
";

pub struct T {
    decl: &'static str,
    /// statements, N is the name
    sets: &'static [&'static str],
    /// wire type and content of each occurrence, in hex
    want: &'static [(u8, &'static str)],
}

/// The values, as protoc encodes them.
const TYPES: &[T] = &[
    T { decl: "optional int32", sets: &["N = -1"], want: &[(0, "ffffffffffffffffff01")] },
    T { decl: "optional int32", sets: &["N = 2147483647"], want: &[(0, "ffffffff07")] },
    T { decl: "optional int64", sets: &["N = -9223372036854775808"], want: &[(0, "80808080808080808001")] },
    T { decl: "optional uint32", sets: &["N = 4294967295"], want: &[(0, "ffffffff0f")] },
    T { decl: "optional uint64", sets: &["N = 18446744073709551615"], want: &[(0, "ffffffffffffffffff01")] },
    T { decl: "optional sint32", sets: &["N = -3"], want: &[(0, "05")] },
    T { decl: "optional sint64", sets: &["N = 0x10"], want: &[(0, "20")] },
    T { decl: "optional fixed32", sets: &["N = 010"], want: &[(5, "08000000")] },
    T { decl: "optional fixed64", sets: &["N = 1"], want: &[(1, "0100000000000000")] },
    T { decl: "optional sfixed32", sets: &["N = -1"], want: &[(5, "ffffffff")] },
    T { decl: "optional sfixed64", sets: &["N = -2"], want: &[(1, "feffffffffffffff")] },
    T { decl: "optional float", sets: &["N = 1.5"], want: &[(5, "0000c03f")] },
    T { decl: "optional float", sets: &["N = -0.0"], want: &[(5, "00000080")] },
    T { decl: "optional double", sets: &["N = 1e300"], want: &[(1, "9c7500883ce4377e")] },
    T { decl: "optional double", sets: &["N = 3"], want: &[(1, "0000000000000840")] },
    T { decl: "optional bool", sets: &["N = true"], want: &[(0, "01")] },
    T { decl: "optional bool", sets: &["N = false"], want: &[(0, "00")] },
    T { decl: "optional string", sets: &["N = \"h\\303\\251\\n\""], want: &[(2, "68c3a90a")] },
    T { decl: "optional string", sets: &["N = \"\""], want: &[(2, "")] },
    T { decl: "optional bytes", sets: &["N = \"\\xff\\000a\""], want: &[(2, "ff0061")] },
    T { decl: "optional Color", sets: &["N = BLUE"], want: &[(0, "05")] },
    T { decl: "optional Color", sets: &["N = GREY"], want: &[(0, "ffffffffffffffffff01")] },
    T { decl: "repeated int32", sets: &["N = 1", "N = 2", "N = 1"], want: &[(0, "01"), (0, "02"), (0, "01")] },
    T { decl: "repeated string", sets: &["N = \"x\"", "N = \"\""], want: &[(2, "78"), (2, "")] },
    T { decl: "optional Sub", sets: &["N = { a: 5 b: 'x' b: 'y' }"], want: &[(2, "0805120178120179")] },
    T { decl: "optional Sub", sets: &["N = { }"], want: &[(2, "")] },
    T { decl: "optional Sub", sets: &["N.a = 6"], want: &[(2, "0806")] },
    T { decl: "optional Sub", sets: &["N.a = 6", "N.c.c.a = 7", "N.k = BLUE"], want: &[(2, "08061a041a0208072005")] },
    T { decl: "repeated Sub", sets: &["N = { a: 1 }", "N = { a: 2 }"], want: &[(2, "0801"), (2, "0802")] },
    T { decl: "optional Sub", sets: &["N = { c { a: 1 c < b: ['p', 'q'] > } G { z: 3 } }"], want: &[(2, "1a0a080 11a0612017012017 12b08032c")] },
    T { decl: "optional Sub", sets: &["N.(X.xb) = true"], want: &[(2, "5001")] },
    T { decl: "optional Sub", sets: &["N.(X.xs).(X.xb) = true", "N.(X.xs).a = 1"], want: &[(2, "5a0408015001")] },
    T { decl: "optional Sub", sets: &["N = { [X.xb]: true a: 1 }"], want: &[(2, "08015001")] },
];

const PLACES: [&str; 8] = ["same", "import", "public", "absolute", "nested", "package", "relative", "member"];

struct Mem(BTreeMap<String, String>);
impl FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0.get(name) {
            Some(s) => File::from_source(name, s),
            None => Err(Error::file_not_found(name)),
        }
    }
}

struct Files(BTreeMap<String, Vec<u8>>);
impl FileResolver for Files {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0.get(name) {
            Some(b) => File::decode_file_descriptor_proto(b.as_slice()).map_err(Error::new),
            None => Err(Error::file_not_found(name)),
        }
    }
}

fn varint(b: &[u8], at: &mut usize) -> Option<u64> {
    let (mut v, mut s) = (0u64, 0);
    loop {
        let x = *b.get(*at)?;
        *at += 1;
        v |= ((x & 0x7f) as u64) << s;
        s += 7;
        if x < 0x80 {
            return Some(v);
        }
    }
}
/// The fields of a message: number, wire type, content.
pub fn fields(b: &[u8]) -> Option<Vec<(u32, u8, &[u8])>> {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let k = varint(b, &mut at)?;
        let start = at;
        let content = match k & 7 {
            0 => {
                varint(b, &mut at)?;
                &b[start..at]
            }
            1 => {
                at += 8;
                b.get(start..at)?
            }
            2 => {
                let l = varint(b, &mut at)? as usize;
                let s = at;
                at += l;
                b.get(s..at)?
            }
            5 => {
                at += 4;
                b.get(start..at)?
            }
            _ => return None,
        };
        v.push(((k >> 3) as u32, (k & 7) as u8, content));
    }
    Some(v)
}
pub fn get<'a>(b: &'a [u8], path: &[u32]) -> Option<&'a [u8]> {
    let mut b = b;
    for p in path {
        b = fields(b)?.into_iter().find(|f| f.0 == *p)?.2;
    }
    Some(b)
}
pub fn file_in<'a>(set: &'a [u8], name: &str) -> Option<&'a [u8]> {
    fields(set)?.into_iter().find(|f| f.0 == 1 && get(f.2, &[1]) == Some(name.as_bytes())).map(|f| f.2)
}

struct Use {
    element: usize,
    ty: usize,
    number: u32,
}

/// `bare`: the file declares nothing beyond the elements that carry options.
fn sources(place: usize, proto3: bool, uses: &[Use], bare: bool) -> BTreeMap<String, String> {
    let place = PLACES[place];
    let mut ext = String::new();
    for u in uses {
        ext += &format!("extend google.protobuf.{}Options {{ {} o{} = {}; }}\n", ELEMENTS[u.element].1, TYPES[u.ty].decl, u.number, u.number);
    }
    let (ext_pkg, root_pkg) = match place {
        "same" | "member" => ("root.pkg", "root.pkg"),
        "package" => ("root.pkg", "root.pkg"),
        "relative" => ("root.ext", "root.pkg"),
        _ => ("ext", "root.pkg"),
    };
    let scope = match place {
        "same" | "package" => "",
        "absolute" => ".ext.",
        "nested" => "ext.Scope.In.",
        "member" => "Scope.",
        "relative" => "ext.",
        _ => "ext.",
    };
    let types_scope = match place {
        "same" | "package" | "member" => "root.pkg",
        "relative" => "root.ext",
        _ => "ext",
    };
    let name = |u: &Use| format!("({scope}o{})", u.number);
    let stmts = |e: usize, bracket: bool| -> String {
        let v: Vec<String> = uses
            .iter()
            .filter(|u| u.element == e)
            .flat_map(|u| TYPES[u.ty].sets.iter().map(|s| s.replacen('N', &name(u), 1).replace("X.", &format!("{types_scope}."))).collect::<Vec<_>>())
            .collect();
        if v.is_empty() {
            String::new()
        } else if bracket {
            format!(" [{}]", v.join(", "))
        } else {
            v.iter().map(|s| format!("option {s}; ")).collect()
        }
    };
    let mut root = format!("syntax = \"{}\";\npackage {root_pkg};\n", if proto3 { "proto3" } else { "proto2" });
    let mut files = BTreeMap::new();
    let defs = format!(
        "{}{TYPES_DEF}",
        match place {
            "nested" => format!("message Scope {{ message In {{ {ext} }} }}"),
            "member" => format!("message Scope {{ {ext} }}"),
            _ => ext,
        }
    );
    let ext_file = format!("syntax = \"proto2\";\npackage {ext_pkg};\nimport \"google/protobuf/descriptor.proto\";\n{defs}");
    match place {
        "same" | "member" => root += "import \"google/protobuf/descriptor.proto\";\n",
        "public" => {
            root += "import \"mid.proto\";\n";
            files.insert("mid.proto".to_owned(), "syntax = \"proto3\"; import public \"ext.proto\";".to_owned());
        }
        _ => root += "import \"ext.proto\";\n",
    }
    let (label, ranges, extend) = if proto3 {
        ("", String::new(), String::new())
    } else {
        (
            "optional ",
            format!("extensions 100 to 200{};", stmts(4, true)),
            format!("extend M {{ optional int32 x = 100{}; }}\n", stmts(9, true)),
        )
    };
    root += &stmts(0, false);
    let with = |l: &[usize]| !bare || uses.iter().any(|u| l.contains(&u.element));
    let sub = if bare { format!(".{types_scope}.Sub") } else { "M".to_owned() };
    if with(&[1, 2, 3, 4]) {
        root += &format!(
            "\n// m\nmessage M {{ {} {label}int32 f = 1{}; oneof o {{ {} int32 g = 2; }} {ranges} }}\n",
            stmts(1, false),
            stmts(2, true),
            stmts(3, false)
        );
    }
    if with(&[5, 6]) {
        root += &format!("enum E {{ {} Z = 0{}; }}\n", stmts(5, false), stmts(6, true));
    }
    if with(&[7, 8]) {
        root += &format!("service S {{ {} rpc R({sub}) returns ({sub}) {{ {} }} }}\n", stmts(7, false), stmts(8, false));
    }
    if with(&[9]) {
        root += &extend.replace("M {", &format!("{sub} {{")).replace("100", if bare { "12" } else { "100" });
    }
    if place == "same" || place == "member" {
        // in the same file the extensions come last
        root += &defs;
    } else {
        files.insert("ext.proto".to_owned(), ext_file);
    }
    files.insert("root.proto".to_owned(), root);
    // a small stand-in is quicker; one in seven cases uses the real file
    if uses.iter().map(|u| u.ty + u.element).sum::<usize>() % 7 != 0 {
        let mut d = "syntax = \"proto2\"; package google.protobuf;\n".to_owned();
        for o in ["File", "Message", "Field", "Oneof", "ExtensionRange", "Enum", "EnumValue", "Service", "Method"] {
            d += &format!("message {o}Options {{ repeated UninterpretedOption uninterpreted_option = 999; extensions 1000 to max; }}\n");
        }
        d += "message UninterpretedOption { message NamePart { required string name_part = 1; required bool is_extension = 2; } repeated NamePart name = 2; optional string identifier_value = 3; optional uint64 positive_int_value = 4; optional int64 negative_int_value = 5; optional double double_value = 6; optional bytes string_value = 7; optional string aggregate_value = 8; }\n";
        files.insert("google/protobuf/descriptor.proto".to_owned(), d);
    }
    files
}

fn check(set: &[u8], file: &str, uses: &[Use], ctx: &str) -> Verdict {
    let f = file_in(set, file).ok_or_else(|| format!("{ctx}: {file} is not in the encoded set"))?;
    for u in uses {
        let t = &TYPES[u.ty];
        let (what, _, path) = ELEMENTS[u.element];
        // extension fields in the same file: the one that carries options is the first
        let o = get(f, path).ok_or_else(|| format!("{ctx}: {what} has no options"))?;
        let got: Vec<(u8, String)> = fields(o).ok_or("bad options")?.into_iter().filter(|x| x.0 == u.number).map(|x| (x.1, hex(x.2))).collect();
        let want: Vec<(u8, String)> = t.want.iter().map(|(w, h)| (*w, h.replace(' ', ""))).collect();
        ensure!(got == want, "{ctx}: option {} ({} {:?}) of the {what} is {got:?}, expected {want:?}", u.number, t.decl, t.sets);
        ensure!(!fields(o).unwrap().iter().any(|x| x.0 == 999), "{ctx}: an option of the {what} is left uninterpreted");
    }
    Ok(())
}

/// Encodes under every setting; `few`: only two of them.
fn all_outputs(comp: &mut Compiler, file: &str, uses: &[Use], ctx: &str, few: bool, c: &mut Ctx) -> Result<[Vec<u8>; 4], String> {
    let mut v: [Vec<u8>; 4] = Default::default();
    for (k, (imports, info)) in [(false, false), (true, true), (true, false), (false, true)].into_iter().enumerate() {
        if few && (k == 0 || k == 3) {
            continue;
        }
        let (bytes, set) = guarded(|| {
            comp.include_imports(imports).include_source_info(info);
            (comp.encode_file_descriptor_set(), comp.file_descriptor_set())
        })?;
        c.impl_runs += 1;
        let ctx = format!("{ctx}, imports {imports}, info {info}");
        check(&bytes, file, uses, &ctx)?;
        let d = FileDescriptorSet::decode(bytes.as_slice()).map_err(|e| format!("{ctx}: {e}"))?;
        ensure!(d == set, "{ctx}: the encoded set and the set differ beyond extension options");
        v[k] = bytes;
    }
    Ok(v)
}

/// parts: place, "2" or "3", uses as element:type pairs, "bare" or ""
pub fn j_options(parts: &[String], c: &mut Ctx) -> Verdict {
    let place: usize = parts[0].parse().unwrap();
    let uses: Vec<Use> = parts[2]
        .split(' ')
        .enumerate()
        .map(|(i, u)| {
            let (e, t) = u.split_once(':').unwrap();
            Use { element: e.parse().unwrap(), ty: t.parse().unwrap(), number: 50000 + i as u32 }
        })
        .collect();
    let bare = parts[3] == "bare";
    let src = sources(place, parts[1] == "3", &uses, bare);
    c.states.insert(hash(&parts));
    c.outcomes.insert(hash(&parts[2]));
    let make = |r: Box<dyn FileResolver>| {
        let mut chain = ChainFileResolver::new();
        chain.add(r);
        chain.add(GoogleFileResolver::new());
        Compiler::with_file_resolver(chain)
    };
    // the settings at the time of opening do not matter
    let open = |comp: &mut Compiler, f: &str, ctx: &str, settings: usize| -> Verdict {
        comp.include_imports(settings & 1 == 1).include_source_info(settings & 2 == 2);
        guarded(|| comp.open_file(f).map(|_| ()))?.map_err(|e| format!("{ctx}: {f} fails: {e:?}\n{}", src.get(f).cloned().unwrap_or_default()))
    };
    let mut comp = make(Box::new(Mem(src.clone())));
    open(&mut comp, "root.proto", "from source", place + uses.len())?;
    c.accepted += 1;
    let first = all_outputs(&mut comp, "root.proto", &uses, "from source", false, c)?;
    // a descriptor set as the source of descriptors, again and again
    let mut previous = first.clone();
    for round in 2..=3 {
        for k in [1, 2] {
            let ctx = format!("round {round}, from a set {} source info", ["", "with", "without"][k]);
            let set = guarded(|| DescriptorSetFileResolver::decode(previous[k].as_slice()))?.map_err(|e| format!("{ctx}: {e}"))?;
            let mut comp = Compiler::with_file_resolver(set);
            open(&mut comp, "root.proto", &ctx, if round == 2 { 4 - k } else { k - 1 })?;
            c.transitions.insert(hash(&(&parts, round, k)));
            let out = all_outputs(&mut comp, "root.proto", &uses, &ctx, round > 2, c)?;
            if k == 1 {
                previous = out;
            }
        }
    }
    // file by file
    let files: BTreeMap<String, Vec<u8>> = fields(&first[1])
        .unwrap()
        .iter()
        .map(|f| (String::from_utf8(get(f.2, &[1]).unwrap().to_vec()).unwrap(), f.2.to_vec()))
        .collect();
    let mut comp = make(Box::new(Files(files)));
    open(&mut comp, "root.proto", "from single encoded files", 3)?;
    all_outputs(&mut comp, "root.proto", &uses, "from single encoded files", true, c)?;
    // a new source file next to the encoded ones; the encoded file is an import now
    let mut chain = ChainFileResolver::new();
    chain.add(DescriptorSetFileResolver::decode(first[1].as_slice()).map_err(|e| e.to_string())?);
    let mut more = BTreeMap::new();
    more.insert("new.proto".to_owned(), format!("import \"root.proto\"; message New {{ {} }}", if bare { "" } else { "optional root.pkg.M m = 1;" }));
    chain.add(Mem(more));
    let mut comp = Compiler::with_file_resolver(chain);
    open(&mut comp, "new.proto", "beside a set", 2)?;
    comp.include_imports(true);
    for info in [false, true] {
        comp.include_source_info(info);
        check(&guarded(|| comp.encode_file_descriptor_set())?, "root.proto", &uses, "as an import")?;
    }
    Ok(())
}

/// C25: files whose options are all of them extensions.
pub fn few() -> Vec<Family> {
    vec![fam("files with nothing but extension options", j_options, "options", move |e| {
        for place in [0, 1, 2] {
            for el in 0..ELEMENTS.len() {
                for ty in [1, 23, 28] {
                    for bare in ["bare", ""] {
                        e(vec![place.to_string(), "2".into(), format!("{el}:{ty}"), bare.into()]);
                    }
                }
            }
        }
    })]
}

pub fn c26(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    let ok = |p3: &str, e: usize| p3 == "2" || e != 4 && e != 9;
    let mut v = vec![
        fam("element × kind of value × where the extension is defined", j_options, "options", move |e| {
            for p3 in ["2", "3"] {
                for place in 0..PLACES.len() {
                    if p3 == "3" && (place == 0 || place == 7) {
                        continue; // proto3 files cannot define the proto2 types of the values
                    }
                    for el in 0..ELEMENTS.len() {
                        for ty in 0..TYPES.len() {
                            if !deep && p3 == "3" && (ty % 3 != 0 || place % 2 == 0) || !deep && place > 1 && (ty + el + place) % 2 == 0 {
                                continue;
                            }
                            if ok(p3, el) {
                                e(vec![place.to_string(), p3.into(), format!("{el}:{ty}"), "".into()]);
                            }
                        }
                    }
                }
            }
        }),
        fam("files that declare little more than one element", j_options, "options", move |e| {
            for p3 in ["2", "3"] {
                for place in if p3 == "3" { 1..7 } else { 0..PLACES.len() } {
                    for el in 0..ELEMENTS.len() {
                        for ty in if deep { (0..TYPES.len()).collect() } else { vec![0, 23, 28] } {
                            if ok(p3, el) && (deep || place < 3 || ty == 28) {
                                e(vec![place.to_string(), p3.into(), format!("{el}:{ty}"), "bare".into()]);
                            }
                        }
                    }
                }
            }
        }),
        fam("two options on one element", j_options, "options", move |e| {
            for el in 0..ELEMENTS.len() {
                for a in 0..TYPES.len() {
                    for b in 0..TYPES.len() {
                        if deep || (a + b + el) % 10 == 0 {
                            e(vec!["1".into(), "2".into(), format!("{el}:{a} {el}:{b}"), "".into()]);
                        }
                    }
                }
            }
        }),
        fam("options on every element", j_options, "options", move |e| {
            for place in 0..PLACES.len() {
                for ty in 0..TYPES.len() {
                    let u: Vec<String> = (0..ELEMENTS.len()).map(|el| format!("{el}:{}", (ty + el * 7) % TYPES.len())).collect();
                    e(vec![place.to_string(), "2".into(), u.join(" "), "".into()]);
                }
                if !deep && place > 1 {
                    continue;
                }
                for a in 0..ELEMENTS.len() {
                    for b in 0..ELEMENTS.len() {
                        for ty in [0, 17, 23, 28] {
                            e(vec![place.to_string(), "2".into(), format!("{a}:{ty} {b}:{}", ty + 1), "".into()]);
                        }
                    }
                }
            }
        }),
    ];
    v.extend(crate::sizes::c26(t));
    v
}
