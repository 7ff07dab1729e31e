//! File resolvers: chains, descriptor sets, the built-in files.

use crate::engine::*;
use crate::families::{fam, lists, product};
use crate::graph::{ensure, hash};
use bytes::Buf;
use prost::Message;
use prost_types::{DescriptorProto, FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver};
use protox::{Compiler, Error};
use std::path::Path;

#[derive(Debug)]
struct Oops(String);
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Oops {}

/// For each of two names: H has it, M misses it, N misses it and says so of another name, E fails, I fails with an I/O error, S has a syntax error;
/// a third letter says whether it resolves paths (P) or not (-).
struct Member {
    tag: usize,
    how: Vec<char>,
}
const TWO: [&str; 2] = ["x.proto", "dir/x.proto"];

impl FileResolver for Member {
    fn resolve_path(&self, path: &Path) -> Option<String> {
        (self.how[2] == 'P').then(|| format!("{}#{}", path.display(), self.tag))
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let Some(i) = TWO.iter().position(|n| *n == name) else { return Err(Error::file_not_found(name)) };
        match self.how[i] {
            'H' => File::from_source(name, &format!("package t{};", self.tag)),
            'M' => Err(Error::file_not_found(name)),
            'N' => Err(Error::file_not_found("elsewhere.proto")),
            'E' => Err(Error::new(Oops(format!("oops {}", self.tag)))),
            'I' => Err(std::io::Error::new(std::io::ErrorKind::NotFound, format!("io {}", self.tag)).into()),
            _ => File::from_source(name, &format!("bad{}", self.tag)),
        }
    }
}

/// parts: the members, in order; a last part says how they are grouped ("2" = the first two form a chain of their own; "b2": boxed)
pub fn j_chain(parts: &[String], c: &mut Ctx) -> Verdict {
    let members: Vec<Vec<char>> = parts[..parts.len() - 1].iter().map(|s| s.chars().collect()).collect();
    let shape = &parts[parts.len() - 1];
    let make = |tag: usize| Member { tag, how: members[tag].clone() };
    let mut chain = ChainFileResolver::new();
    let group = shape.trim_start_matches('b').parse::<usize>().unwrap();
    let mut inner = ChainFileResolver::new();
    for t in 0..group.min(members.len()) {
        inner.add(make(t));
    }
    if group > 0 {
        if shape.starts_with('b') {
            chain.add(Box::new(inner) as Box<dyn FileResolver>);
        } else {
            chain.add(inner);
        }
    }
    for t in group..members.len() {
        chain.add(Box::new(make(t)));
    }
    c.states.insert(hash(&(parts, 0)));
    for (i, name) in TWO.iter().enumerate() {
        let want = members.iter().enumerate().find(|m| !matches!(m.1[i], 'M' | 'N')).map(|(t, m)| (t, m[i]));
        c.transitions.insert(hash(&(parts, i)));
        c.outcomes.insert(hash(&want));
        let got = guarded(|| chain.open_file(name))?;
        c.impl_runs += 1;
        let show = || format!("{name}: expected {want:?}, got {:?}", got.as_ref().map(|f| f.file_descriptor_proto().package().to_owned()));
        match (&got, want) {
            (Ok(f), Some((t, 'H'))) => {
                c.accepted += 1;
                ensure!(f.file_descriptor_proto().package() == format!("t{t}") && f.name() == *name, "{}", show())
            }
            (Err(e), Some((t, 'E'))) => ensure!(e.to_string() == format!("oops {t}") && !e.is_io() && !e.is_parse() && !e.is_file_not_found(), "{}", show()),
            (Err(e), Some((t, 'I'))) => ensure!(e.to_string() == format!("io {t}") && e.is_io() && !e.is_parse() && !e.is_file_not_found(), "{}", show()),
            (Err(e), Some((t, 'S'))) => ensure!(e.is_parse() && e.file() == Some(*name) && e.to_string().contains(&format!("bad{t}")), "{}", show()),
            (Err(e), None) => ensure!(e.is_file_not_found() && e.file() == Some(*name), "{}", show()),
            _ => return Err(show()),
        }
        if got.is_err() {
            c.rejected += 1;
        }
    }
    let got = guarded(|| chain.resolve_path(Path::new("p/q")))?;
    let want = members.iter().position(|m| m[2] == 'P').map(|t| format!("p/q#{t}"));
    ensure!(got == want, "resolve_path gives {got:?}, expected {want:?}");
    Ok(())
}

const SET_NAMES: [Option<&str>; 6] = [Some("a.proto"), Some("b.proto"), Some("dir/a.proto"), Some("a.prot"), Some(""), None];
const QUERIES: [&str; 9] = ["a.proto", "b.proto", "dir/a.proto", "a.prot", "", "A.proto", "./a.proto", "proto", "a.proto "];

/// Every name one edit away (a character removed, inserted or replaced), and with pieces put before or after.
fn near(n: &str) -> Vec<String> {
    const CH: [&str; 12] = [".", "/", "\\", "a", "A", "p", "_", " ", "\0", "é", "0", ":"];
    let mut v = vec![];
    let cuts: Vec<usize> = n.char_indices().map(|(i, _)| i).chain([n.len()]).collect();
    for w in cuts.windows(2) {
        v.push(format!("{}{}", &n[..w[0]], &n[w[1]..]));
        for c in CH {
            v.push(format!("{}{c}{}", &n[..w[0]], &n[w[1]..]));
        }
        v.push(format!("{}{}{}", &n[..w[0]], n[w[0]..w[1]].to_uppercase(), &n[w[1]..]));
    }
    for &i in &cuts {
        for c in CH {
            v.push(format!("{}{c}{}", &n[..i], &n[i..]));
        }
        v.push(n[i..].to_owned());
        v.push(n[..i].to_owned());
    }
    for p in ["./", "../", "x/", "/", "//", ".//", "././", "google/", "google/protobuf/", "C:/", "file://", "a/../"] {
        v.push(format!("{p}{n}"));
        v.push(format!("{n}{p}"));
        v.push(n.replacen('/', p, 1));
        v.push(n.replace('/', p));
    }
    v.push(n.to_uppercase());
    v.push(format!("{n}{n}"));
    v.sort();
    v.dedup();
    v
}

/// parts: indices into SET_NAMES, and other names to ask for
pub fn j_set_names(parts: &[String], c: &mut Ctx) -> Verdict {
    let names: Vec<Option<&str>> = parts[0].bytes().map(|b| SET_NAMES[(b - b'0') as usize]).collect();
    let set = FileDescriptorSet {
        file: names
            .iter()
            .enumerate()
            .map(|(i, n)| FileDescriptorProto {
                name: n.map(|s| s.to_owned()),
                message_type: vec![DescriptorProto { name: Some(format!("T{i}")), ..Default::default() }],
                ..Default::default()
            })
            .collect(),
    };
    let both = [
        ("new", DescriptorSetFileResolver::new(set.clone())),
        ("decode", guarded(|| DescriptorSetFileResolver::decode(set.encode_to_vec().as_slice()))?.map_err(|e| format!("decode fails: {e}"))?),
    ];
    c.states.insert(hash(&parts));
    for (how, r) in both {
        for q in QUERIES.into_iter().chain(parts[1..].iter().map(|s| s.as_str())) {
            let want = set.file.iter().find(|f| f.name() == q);
            let got = guarded(|| r.open_file(q))?;
            c.impl_runs += 1;
            c.transitions.insert(hash(&(&parts, q)));
            c.outcomes.insert(hash(&(q, names.iter().position(|n| n.unwrap_or("") == q))));
            match (got, want) {
                (Ok(f), Some(w)) => {
                    c.accepted += 1;
                    ensure!(f.file_descriptor_proto() == w, "{how}: {q:?} gives {:?}, expected {w:?}", f.file_descriptor_proto());
                    ensure!(f.path().is_none() && f.source().is_none() && f.name() == q, "{how}: {q:?} has a path, a source or another name");
                }
                (Err(e), None) => {
                    c.rejected += 1;
                    ensure!(e.is_file_not_found() && e.file() == Some(q), "{how}: {q:?} gives {e:?}");
                }
                (g, w) => return Err(format!("{how}: {q:?} gives {:?}, expected {w:?}", g.map_err(|e| e.to_string()))),
            }
        }
        ensure!(r.resolve_path(Path::new("a.proto")).is_none(), "{how} resolves a path");
    }
    Ok(())
}

/// parts: number of files, their order
pub fn j_set_many(parts: &[String], c: &mut Ctx) -> Verdict {
    let n: usize = parts[0].parse().unwrap();
    let mut at: Vec<usize> = (0..n).collect();
    match parts[1].as_str() {
        "sorted" | "twice" => {}
        "reversed" => at.reverse(),
        "rotated" => at.rotate_left(n / 3),
        "last first" => at.rotate_right(1.min(n)),
        _ => at.sort_by_key(|i| (i * 7 + 3) % n.max(1)),
    }
    // sorts as the number does
    let name = |i: usize| format!("d{:02}/f{:02}.proto", i / 16, i % 16);
    let mut set = FileDescriptorSet {
        file: at
            .iter()
            .map(|i| FileDescriptorProto {
                name: Some(name(*i)),
                message_type: vec![DescriptorProto { name: Some(format!("T{i}")), ..Default::default() }],
                ..Default::default()
            })
            .collect(),
    };
    if parts[1] == "twice" {
        // the first file of a name counts
        for i in (0..n).rev() {
            let mut f = set.file[i].clone();
            f.message_type.clear();
            set.file.push(f);
        }
    }
    let both = [
        ("new", DescriptorSetFileResolver::new(set.clone())),
        ("decode", guarded(|| DescriptorSetFileResolver::decode(set.encode_to_vec().as_slice()))?.map_err(|e| format!("decode fails: {e}"))?),
    ];
    c.states.insert(hash(&parts));
    for (how, r) in both {
        for i in 0..n + 2 {
            let right = name(i);
            for q in [right.clone(), right[..right.len() - 1].into(), right[1..].into(), format!("{right}/"), format!("./{right}")] {
                let want = set.file.iter().find(|f| f.name() == q);
                let got = guarded(|| r.open_file(&q))?;
                c.impl_runs += 1;
                c.transitions.insert(hash(&(&parts, &q)));
                c.outcomes.insert(hash(&(&q, want.is_some())));
                match (got, want) {
                    (Ok(f), Some(w)) => {
                        c.accepted += 1;
                        ensure!(f.file_descriptor_proto() == w, "{how}, {n} files: {q:?} gives {:?}, expected {w:?}", f.file_descriptor_proto());
                    }
                    (Err(e), None) => {
                        c.rejected += 1;
                        ensure!(e.is_file_not_found() && e.file() == Some(q.as_str()), "{how}, {n} files: {q:?} gives {e:?}");
                    }
                    (g, w) => return Err(format!("{how}, {n} files {}: {q:?} gives {:?}, expected {w:?}", parts[1], g.map_err(|e| e.to_string()))),
                }
            }
        }
    }
    Ok(())
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// parts: bytes (hex), split point of a buffer in two pieces (or "" for one piece)
pub fn j_bytes(parts: &[String], c: &mut Ctx) -> Verdict {
    let b = unhex(&parts[0]);
    let want = FileDescriptorSet::decode(b.as_slice());
    let want_file = FileDescriptorProto::decode(b.as_slice());
    let (got, got_file) = if parts[1].is_empty() {
        guarded(|| (DescriptorSetFileResolver::decode(b.as_slice()), File::decode_file_descriptor_proto(b.as_slice())))?
    } else {
        let (x, y) = b.split_at(parts[1].parse().unwrap());
        guarded(|| (DescriptorSetFileResolver::decode(x.chain(y)), File::decode_file_descriptor_proto(x.chain(y))))?
    };
    c.impl_runs += 2;
    c.states.insert(hash(&(want.is_ok(), want_file.is_ok(), b.len())));
    c.transitions.insert(hash(&parts));
    c.outcomes.insert(hash(&(want.is_ok(), want.as_ref().ok().map(|s| s.file.len()), want_file.is_ok())));
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            c.accepted += 1;
            for f in &w.file {
                let first = w.file.iter().find(|x| x.name() == f.name()).unwrap();
                match guarded(|| g.open_file(f.name()))? {
                    Ok(x) => ensure!(x.file_descriptor_proto() == first, "file {:?} is {:?}, expected {first:?}", f.name(), x.file_descriptor_proto()),
                    Err(e) => return Err(format!("file {:?} is missing: {e}", f.name())),
                }
            }
            ensure!(g.open_file("none").is_err() || w.file.iter().any(|f| f.name() == "none"), "there is a file too many");
        }
        (Err(_), Err(_)) => c.rejected += 1,
        (w, g) => return Err(format!("decode as a set gives {:?}, prost {:?}", g.as_ref().map(|_| ()), w.as_ref().map(|_| ()))),
    }
    match (&want_file, &got_file) {
        (Ok(w), Ok(g)) => ensure!(g.file_descriptor_proto() == w && g.name() == w.name(), "the file is {:?}, expected {w:?}", g.file_descriptor_proto()),
        (Err(_), Err(_)) => {}
        (w, g) => return Err(format!("decode as a file gives {:?}, prost {:?}", g.as_ref().map(|_| ()), w.as_ref().map(|_| ()))),
    }
    Ok(())
}

const GOOGLE: [&str; 12] = [
    "any", "api", "descriptor", "duration", "empty", "field_mask", "source_context", "struct", "timestamp", "type", "wrappers", "compiler/plugin",
];

/// parts: a file name
pub fn j_google(parts: &[String], c: &mut Ctx) -> Verdict {
    let q = parts[0].as_str();
    let known = q.strip_prefix("google/protobuf/").and_then(|s| s.strip_suffix(".proto")).filter(|s| GOOGLE.contains(s));
    let got = guarded(|| GoogleFileResolver::new().open_file(q))?;
    c.impl_runs += 1;
    c.states.insert(hash(&q));
    c.transitions.insert(hash(&q));
    c.outcomes.insert(hash(&known));
    match (known, got) {
        (None, Err(e)) => {
            c.rejected += 1;
            ensure!(e.is_file_not_found(), "{q}: {e:?}");
        }
        (Some(k), Ok(f)) => {
            c.accepted += 1;
            let text = std::fs::read_to_string(format!("/usr/include/google/protobuf/{k}.proto")).unwrap();
            ensure!(f.name() == q && f.source() == Some(text.as_str()), "{q} has another name or text");
            ensure!(*f.file_descriptor_proto() == protox_parse::parse(q, &text).unwrap(), "{q} has another descriptor");
            // it compiles, and can be imported, with no include path at all
            let mut comp = Compiler::new(Vec::<String>::new()).map_err(|e| e.to_string())?;
            guarded(|| comp.open_file(q).map(|_| ()))?.map_err(|e| format!("{q} does not compile: {e}"))?;
            static DIRS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let dir = crate::scratch().join(format!("g-{}", DIRS.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
            std::fs::create_dir_all(dir.join("google/protobuf/compiler")).unwrap();
            std::fs::write(dir.join("i.proto"), format!("import \"{q}\";")).unwrap();
            let mut comp = Compiler::new([&dir]).map_err(|e| e.to_string())?;
            guarded(|| comp.open_file("i.proto").map(|_| ()))?.map_err(|e| format!("importing {q} fails: {e}"))?;
            ensure!(comp.files().any(|f| f.name() == q && f.is_import() && f.path().is_none()), "{q} is not an import without path");
            // shadowed by an include directory
            std::fs::write(dir.join(q), "package mine;").unwrap();
            let mut comp = Compiler::new([&dir]).map_err(|e| e.to_string())?;
            guarded(|| comp.open_file("i.proto").map(|_| ()))?.map_err(|e| format!("importing the shadowed {q} fails: {e}"))?;
            comp.include_imports(true);
            let set = comp.file_descriptor_set();
            ensure!(set.file.iter().any(|f| f.name() == q && f.package() == "mine"), "{q} in an include directory does not take precedence");
            std::fs::remove_dir_all(dir).unwrap();
        }
        (k, g) => return Err(format!("{q}: expected {k:?}, got {:?}", g.map(|_| ()).map_err(|e| e.to_string()))),
    }
    Ok(())
}

fn small_set() -> Vec<u8> {
    let f = |n: &str, src: &str| protox_parse::parse(n, src).map(|mut f| {
        f.source_code_info = None;
        f
    });
    let set = FileDescriptorSet {
        file: vec![
            f("a", "syntax='proto3'; message M { int32 x = 1; }").unwrap(),
            f("b", "import 'a'; enum E { Z = 0; } option java_package = 'j';").unwrap(),
        ],
    };
    set.encode_to_vec()
}

/// Encodings with every sort of field at the level of the set.
fn seeds() -> Vec<Vec<u8>> {
    let base = small_set();
    let mut v = vec![base.clone()];
    let unknown: [&[u8]; 7] = [
        &[0x10, 0x80, 0x01],                         // 2: varint
        &[0x19, 1, 2, 3, 4, 5, 6, 7, 8],             // 3: 64 bits
        &[0x22, 2, 0x0a, 0xff],                      // 4: bytes
        &[0x2b, 0x10, 1, 0x2c],                      // 5: group
        &[0x35, 1, 2, 3, 4],                         // 6: 32 bits
        &[0x82, 0x01, 0],                            // 16: empty bytes
        &[0x0a, 0],                                  // an empty file
    ];
    for u in unknown {
        v.push([u, &base[..]].concat());
        v.push([&base[..], u].concat());
        let first = 2 + base[1] as usize;
        v.push([&base[..first], u, &base[first..]].concat());
    }
    v
}

/// parts: the bytes of a file on disk (hex, or "text*n|text" for a long one)
pub fn j_text(parts: &[String], c: &mut Ctx) -> Verdict {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let bytes = match parts[0].split_once('*') {
        Some((a, b)) => {
            let (n, z) = b.split_once('|').unwrap();
            [a.repeat(n.parse().unwrap()), z.to_owned()].concat().into_bytes()
        }
        None => unhex(&parts[0]),
    };
    let dir = crate::scratch().join(format!("text-{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("t.proto"), &bytes).unwrap();
    let by_name = guarded(|| IncludeFileResolver::new(dir.clone()).open_file("t.proto"))?;
    let by_path = guarded(|| File::open("t.proto", &dir.join("t.proto")))?;
    let mut comp = Compiler::new([&dir]).map_err(|e| e.to_string())?;
    let compiled = guarded(|| comp.open_file("t.proto").map(|_| ()))?;
    std::fs::remove_dir_all(&dir).unwrap();
    c.impl_runs += 3;
    c.states.insert(hash(&parts));
    c.transitions.insert(hash(&parts));
    let Ok(text) = String::from_utf8(bytes) else { return Err("not a text".into()) };
    let want = guarded(|| File::from_source("t.proto", &text))?;
    c.outcomes.insert(hash(&want.as_ref().map(|f| f.file_descriptor_proto().encode_to_vec()).map_err(|e| format!("{e:?}"))));
    for (how, got) in [("by name", by_name), ("by path", by_path)] {
        match (&want, got) {
            (Ok(w), Ok(g)) => {
                ensure!(g.source() == Some(text.as_str()), "{how}: the source is {:?}, the file holds {text:?}", g.source());
                ensure!(g.path() == Some(&dir.join("t.proto")) && g.name() == "t.proto", "{how}: path {:?}, name {:?}", g.path(), g.name());
                ensure!(g.file_descriptor_proto() == w.file_descriptor_proto(), "{how}: {:?}, but the text gives {:?}", g.file_descriptor_proto(), w.file_descriptor_proto());
            }
            (Err(w), Err(g)) => {
                ensure!(format!("{w:?}") == format!("{g:?}"), "{how}: {g:?}, but the text gives {w:?}");
                ensure!(g.is_parse() && g.file() == Some("t.proto"), "{how}: {g:?} is not an error in the text of t.proto");
                let labels = |e: &Error| miette::Diagnostic::labels(e).map(|l| l.map(|l| (l.offset(), l.len())).collect::<Vec<_>>());
                ensure!(labels(w) == labels(&g), "{how}: labels {:?}, but the text gives {:?}", labels(&g), labels(w));
            }
            (w, g) => return Err(format!("{how}: {:?}, but the text gives {:?}", g.map(|_| ()).map_err(|e| e.to_string()), w.as_ref().map(|_| ()).map_err(|e| e.to_string()))),
        }
    }
    match (&want, compiled) {
        (Ok(w), Ok(())) => {
            c.accepted += 1;
            comp.include_source_info(true);
            let f = &comp.file_descriptor_set().file[0];
            let w = w.file_descriptor_proto();
            // an option is interpreted in the course of compiling
            ensure!(f == w || w.options.is_some() && f.message_type == w.message_type, "compiled: {f:?}, but the text gives {w:?}");
        }
        (Err(w), Err(g)) => {
            c.rejected += 1;
            ensure!(format!("{w:?}") == format!("{g:?}"), "compiled: {g:?}, but the text gives {w:?}");
        }
        // a rule about whole files
        (Ok(_), Err(g)) if !g.is_io() && !g.is_file_not_found() => c.rejected += 1,
        (w, g) => return Err(format!("compiled: {:?}, but the text gives {:?}", g.map_err(|e| e.to_string()), w.as_ref().map(|_| ()).map_err(|e| e.to_string()))),
    }
    Ok(())
}

/// Texts in which every character counts, as files on disk.
pub fn texts(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![
        fam("files on disk, character by character", j_text, "text", move |e| {
            let p = ["\u{feff}", "\r", "\n", " ", "// é", "message M { }", "\0", "\x1a", "/* a", "*/", "'\u{1f600}\r\n'", "\u{2028}", "\\\n", "syntax = \"proto3\";"];
            for l in lists(&p, 0, if deep { 4 } else { 3 }) {
                e(vec![hex(l.concat().as_bytes())]);
            }
            for k in 0..=0x2ff {
                let Some(ch) = char::from_u32(k) else { continue };
                for s in [format!("{ch}message M {{ }}"), format!("message M {{ }}{ch}"), format!("// {ch}\nmessage M {{ }}"), format!("// a\nmessage M {{ }} // {ch}"), format!("option java_package = '{ch}';")] {
                    e(vec![hex(s.as_bytes())]);
                }
            }
        }),
        fam("long files on disk", j_text, "text", move |e| {
            for size in [4096usize, 8192, 16384, 32768, 65536, 131072].into_iter().chain(if deep { vec![1 << 20, 1 << 22] } else { vec![] }) {
                for unit in ["\n", "// é\n", "\r\n", "// \u{1f600}\r\n", " "] {
                    for end in ["message M { }", "// \u{1f600}\nmessage M { }\r\n", "x", "é"] {
                        for d in 0..=8 {
                            let n = (size + 4 - d) / unit.len();
                            e(vec![format!("{unit}*{n}|{}{end}", " ".repeat(d % unit.len().max(1)))]);
                        }
                    }
                }
            }
        }),
    ]
}

pub fn c27(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    let mut v = texts(t);
    v.extend(vec![
        fam("chains of up to 4 resolvers × what each answers", j_chain, "chain", move |e| {
            let outcomes = ['H', 'M', 'N', 'E', 'I', 'S'];
            let one: Vec<String> = outcomes.iter().flat_map(|a| ['H', 'M', 'E'].iter().map(move |b| format!("{a}{b}-"))).collect();
            for n in 0..=if deep { 4 } else { 3 } {
                for m in product(&vec![one.clone(); n]) {
                    for shape in ["0", "1", "2", "b2"] {
                        if shape.trim_start_matches('b').parse::<usize>().unwrap() > n {
                            continue;
                        }
                        let mut p = m.clone();
                        p.push(shape.into());
                        e(p);
                    }
                }
            }
        }),
        fam("long chains", j_chain, "chain", move |e| {
            for n in crate::sizes::sizes(if deep { 130 } else { 30 }, if deep { 1100 } else { 260 }) {
                for last in ["HH-", "EI-", "MMP", "SH-"] {
                    for other in ["MM-", "NM-"] {
                        for group in [0, n / 2, n] {
                            let mut p = vec![other.to_owned(); n];
                            p.extend([last.into(), "HHP".into(), group.to_string()]);
                            e(p);
                        }
                    }
                }
            }
        }),
        fam("chains × which members resolve paths", j_chain, "chain", move |e| {
            let one: Vec<String> = ["HMP", "HM-", "MHP", "MH-", "EEP"].map(String::from).to_vec();
            for n in 0..=4 {
                for m in product(&vec![one.clone(); n]) {
                    for shape in ["0", "2", "b3"] {
                        if shape.trim_start_matches('b').parse::<usize>().unwrap() > n {
                            continue;
                        }
                        let mut p = m.clone();
                        p.push(shape.into());
                        e(p);
                    }
                }
            }
        }),
        fam("descriptor sets of up to 5 files × names", j_set_names, "set_names", move |e| {
            for l in lists(&['0', '1', '2', '3', '4', '5'], 0, if deep { 6 } else { 5 }) {
                e(vec![l.iter().collect()]);
            }
        }),
        fam("descriptor sets of many files", j_set_many, "set_many", move |e| {
            for n in (0..=if deep { 300 } else { 40 }).chain(63..=66).chain(127..=129).chain(255..=257) {
                for o in ["sorted", "reversed", "rotated", "last first", "shuffled", "twice"] {
                    e(vec![n.to_string(), o.into()]);
                }
            }
        }),
        fam("names near those of a descriptor set", j_set_names, "set_names", move |e| {
            for set in ["0123", "3210", "2", "4", "5", ""] {
                for n in ["a.proto", "dir/a.proto", "a.prot"] {
                    for q in near(n) {
                        e(vec![set.into(), q]);
                    }
                }
            }
        }),
        fam("truncated encodings", j_bytes, "bytes", move |e| {
            for s in seeds() {
                for n in 0..=s.len() {
                    e(vec![hex(&s[..n]), "".into()]);
                }
            }
        }),
        fam("encodings in two pieces", j_bytes, "bytes", move |e| {
            for s in seeds() {
                for n in 0..=s.len() {
                    e(vec![hex(&s), n.to_string()]);
                    if n > 0 {
                        for k in 0..n {
                            if deep || k % 3 == 0 {
                                e(vec![hex(&s[..n]), k.to_string()]);
                            }
                        }
                    }
                }
            }
        }),
        fam("encodings with one byte replaced", j_bytes, "bytes", move |e| {
            for (k, s) in seeds().into_iter().enumerate() {
                if !deep && k > 6 {
                    continue;
                }
                for n in 0..s.len() {
                    for b in 0..=255u8 {
                        let mut m = s.clone();
                        m[n] = b;
                        e(vec![hex(&m), "".into()]);
                    }
                }
            }
        }),
        fam("encodings with one byte inserted or removed", j_bytes, "bytes", move |e| {
            let s = small_set();
            for n in 0..=s.len() {
                for b in 0..=255u8 {
                    let mut m = s.clone();
                    m.insert(n, b);
                    e(vec![hex(&m), "".into()]);
                }
                if n < s.len() {
                    let mut m = s.clone();
                    m.remove(n);
                    e(vec![hex(&m), "".into()]);
                }
            }
        }),
        fam("all short byte strings", j_bytes, "bytes", move |e| {
            let interesting: Vec<u8> = if deep { (0..=255).collect() } else { vec![0, 1, 2, 3, 4, 0x08, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x12, 0x13, 0x14, 0x7f, 0x80, 0x81, 0xff, b'a'] };
            for a in 0..=255u8 {
                e(vec![hex(&[a]), "".into()]);
                for b in 0..=255u8 {
                    e(vec![hex(&[a, b]), "".into()]);
                }
            }
            for n in 3..=if deep { 3 } else { 4 } {
                for l in lists(&interesting, n, n) {
                    e(vec![hex(&l), "".into()]);
                }
            }
            // lengths as long varints
            for len in 0..=10usize {
                for fill in [0x80u8, 0xff] {
                    for last in [0u8, 1, 0x7f] {
                        for tail in 0..3 {
                            let mut b = vec![0x0a];
                            b.extend(std::iter::repeat(fill).take(len));
                            b.push(last);
                            b.extend(vec![0x0a; tail]);
                            e(vec![hex(&b), "".into()]);
                        }
                    }
                }
            }
        }),
        fam("well-known files and names near theirs", j_google, "google", move |e| {
            for k in GOOGLE {
                for n in [
                    format!("google/protobuf/{k}.proto"),
                    format!("{k}.proto"),
                    format!("google/protobuf/{k}"),
                    format!("google/protobuf/{k}.protox"),
                    format!("/google/protobuf/{k}.proto"),
                    format!("google/protobuf//{k}.proto"),
                    format!("google\\protobuf\\{k}.proto"),
                    format!("Google/protobuf/{k}.proto"),
                    format!("google/protobuf/compiler/{k}.proto"),
                    format!(" google/protobuf/{k}.proto"),
                    format!("protobuf/{k}.proto"),
                ] {
                    e(vec![n]);
                }
                for n in near(&format!("google/protobuf/{k}.proto")) {
                    e(vec![n]);
                }
            }
            for n in ["", "google/protobuf/", "google/protobuf/plugin.proto", "google/protobuf/cpp_features.proto", "google/protobuf/unittest.proto"] {
                e(vec![n.into()]);
            }
        }),
    ]);
    v
}
