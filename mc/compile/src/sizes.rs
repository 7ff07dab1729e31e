//! Nothing changes because a file, a list or a place in it is large: the same behaviour at every size up to a bound,
//! and around every power of two above it.

use crate::engine::*;
use crate::families::fam;
use crate::graph::{ensure, hash, label_of, labelled};
use crate::options::{fields, file_in, get};
use crate::resolvers::hex;
use prost::Message;
use prost_types::FileDescriptorSet;
use protox::file::{DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::{Compiler, Error};
use std::sync::OnceLock;

/// Every size up to `upto`, and those around the powers of two up to `last`.
pub fn sizes(upto: usize, last: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=upto).collect();
    let mut p = 2;
    while p <= last {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    for d in [100, 1000, 10_000, 100_000] {
        if d <= last {
            v.extend([d - 1, d, d + 1]);
        }
    }
    v.sort();
    v.dedup();
    v
}

struct Texts(Vec<(String, String)>);
impl FileResolver for Texts {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0.iter().find(|f| f.0 == name) {
            Some(f) => File::from_source(name, &f.1),
            None => GoogleFileResolver::new().open_file(name),
        }
    }
}

const PADS: [&str; 8] = [" ", "\n", "\r\n", "\t", "é", ";", "message", "import"];

fn pad(kind: &str, n: usize) -> String {
    match kind {
        "é" => format!("/*{}*/", "é".repeat(n)),
        "message" => (0..n).map(|i| format!("message P{i} {{}}\n")).collect(),
        "import" => (0..n).map(|i| format!("import 'ok{i}';")).collect(),
        k => k.repeat(n),
    }
}

/// C30: a fault far into its file. parts: kind of padding, how often, the fault, "root" | "below"
pub fn j_far(parts: &[String], c: &mut Ctx) -> Verdict {
    let n: usize = parts[1].parse().unwrap();
    let pre = pad(&parts[0], n);
    let (text, at, len) = match parts[2].as_str() {
        "missing" => ("import 'missing';", 0, 17),
        "twice" => ("import 'ok'; import 'ok';", 13, 12),
        "unresolved" => ("message M { optional X x = 1; }", 21, 1),
        "clash" => ("message M { } message M { }", 22, 1),
        _ => ("message M { } ?", 14, 1),
    };
    let mut files = vec![("bad".to_owned(), format!("{pre}{text}\n")), ("top".to_owned(), "import 'bad';".to_owned()), ("ok".to_owned(), String::new())];
    if parts[0] == "import" {
        files.extend((0..n).map(|i| (format!("ok{i}"), String::new())));
    }
    let source = files[0].1.clone();
    let mut comp = Compiler::with_file_resolver(Texts(files));
    let r = guarded(|| comp.open_file(if parts[3] == "root" { "bad" } else { "top" }).map(|_| ()))?;
    c.impl_runs += 1;
    c.rejected += 1;
    c.states.insert(hash(&parts));
    c.transitions.insert(hash(&parts));
    let Err(e) = r else { return Err("the file is accepted".into()) };
    let ctx = || format!("{} (file {:?}, label {:?})", e, e.file(), label_of(&e));
    c.outcomes.insert(hash(&label_of(&e)));
    ensure!(e.file() == Some("bad"), "the error does not name the file: {}", ctx());
    let class = match parts[2].as_str() {
        "missing" => (true, false),
        "syntax" => (false, true),
        _ => (false, false),
    };
    ensure!((e.is_file_not_found(), e.is_parse()) == class && !e.is_io(), "wrong class: {}", ctx());
    // the dependency that checks descriptors takes the bytes of a column for characters
    if parts[0] == "é" && matches!(parts[2].as_str(), "unresolved" | "clash") && n > 0 {
        ensure!(miette::Diagnostic::source_code(&e).is_some(), "no source text: {}", ctx());
        return Ok(());
    }
    let (t, name) = labelled(&e).ok_or_else(|| format!("no source text: {}", ctx()))?;
    ensure!(name.as_deref() == Some("bad"), "the label lies in {name:?}: {}", ctx());
    let want = (pre.len() + at, len);
    // of two that clash either may be pointed at
    let other = (pre.len() + 8, 1);
    let got = label_of(&e).map(|(a, b)| (a, b - a));
    ensure!(got == Some(want) || parts[2] == "clash" && got == Some(other), "the fault is at {want:?} of {} bytes: {}", source.len(), ctx());
    ensure!(t == source[want.0..want.0 + want.1], "the label covers {t:?}: {}", ctx());
    let line = pre.matches('\n').count() + 1;
    let dbg = format!("{e:?}");
    ensure!(dbg.starts_with(&format!("bad:{line}:")), "the fault is in line {line}: {dbg:?}");
    Ok(())
}

const KINDS: [std::io::ErrorKind; 24] = {
    use std::io::ErrorKind::*;
    [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists,
        WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other, NotADirectory, IsADirectory,
        DirectoryNotEmpty, StaleNetworkFileHandle,
    ]
};

/// C30: a custom resolver's own errors. parts: "io" | "os" | "bare" | "new" | "boxed" | "text", number, how many files above, "chain" | ""
pub fn j_custom(parts: &[String], c: &mut Ctx) -> Verdict {
    let (how, k, depth): (&str, usize, usize) = (&parts[0], parts[1].parse().unwrap(), parts[2].parse().unwrap());
    let how_ = how.to_owned();
    let make = move || -> (Error, String, bool) {
        let io = |e: std::io::Error| (e.to_string(), e);
        match how_.as_str() {
            "io" => {
                let (t, e) = io(std::io::Error::new(KINDS[k], format!("stopped {k}")));
                (e.into(), t, true)
            }
            "new" => {
                let (t, e) = io(std::io::Error::new(KINDS[k], format!("stopped {k}")));
                (Error::new(e), t, true)
            }
            "bare" => {
                let (t, e) = io(KINDS[k].into());
                (e.into(), t, true)
            }
            "os" => {
                let (t, e) = io(std::io::Error::from_raw_os_error(k as i32 + 1));
                (e.into(), t, true)
            }
            "boxed" => {
                let b: Box<dyn std::error::Error + Send + Sync> = Box::new(std::io::Error::new(KINDS[k], "boxed"));
                (Error::new(b), "boxed".into(), true)
            }
            _ => (Error::new(format!("file 'x' not found {k}")), format!("file 'x' not found {k}"), false),
        }
    };
    struct R<F>(F, usize);
    impl<F: Fn() -> (Error, String, bool)> FileResolver for R<F> {
        fn open_file(&self, name: &str) -> Result<File, Error> {
            match name.parse::<usize>().unwrap() {
                n if n == self.1 => Err(self.0().0),
                n => File::from_source(name, &format!("import '{}';", n + 1)),
            }
        }
    }
    let (_, text, is_io) = make();
    let r = R(make, depth);
    let mut comp = if parts[3] == "chain" {
        let mut ch = protox::file::ChainFileResolver::new();
        ch.add(r);
        ch.add(Texts(vec![(depth.to_string(), String::new())]));
        Compiler::with_file_resolver(ch)
    } else {
        Compiler::with_file_resolver(r)
    };
    c.states.insert(hash(&parts));
    c.transitions.insert(hash(&parts));
    let r = guarded(|| comp.open_file("0").map(|_| ()))?;
    c.impl_runs += 1;
    c.rejected += 1;
    let Err(e) = r else { return Err("the error is lost".into()) };
    c.outcomes.insert(hash(&e.to_string()));
    ensure!(e.to_string() == text, "the error is {:?}, the resolver's {text:?}", e.to_string());
    let got = (e.is_io(), e.is_file_not_found(), e.is_parse());
    ensure!(got == (is_io, false, false), "an error of a resolver of its own ({text:?}) has the classes (io, not found, parse) {got:?}");
    ensure!(e.file().is_none(), "the error names the file {:?}", e.file());
    Ok(())
}

/// C23: many include directories of which few exist. parts: how many, where the first is, where the second is ("-": nowhere)
pub fn j_includes(parts: &[String], c: &mut Ctx) -> Verdict {
    static DIRS: OnceLock<std::path::PathBuf> = OnceLock::new();
    let root = DIRS.get_or_init(|| {
        let d = crate::scratch().join("many-includes");
        for (p, t) in [("one", "package one;"), ("two", "package two;")] {
            std::fs::create_dir_all(d.join(p)).unwrap();
            std::fs::write(d.join(p).join("a.proto"), t).unwrap();
            std::fs::write(d.join(p).join(format!("{p}.proto")), "import 'a.proto';").unwrap();
        }
        d
    });
    let n: usize = parts[0].parse().unwrap();
    let (one, two): (usize, Option<usize>) = (parts[1].parse().unwrap(), parts[2].parse().ok());
    let includes: Vec<std::path::PathBuf> =
        (0..n).map(|i| root.join(if i == one { "one".into() } else if Some(i) == two { "two".into() } else { format!("none{i}") })).collect();
    c.states.insert(hash(&parts));
    let winner = if two.is_some_and(|t| t < one) { "two" } else { "one" };
    let loser = if winner == "one" { "two" } else { "one" };
    for (what, ok) in [("name", true), ("winner", true), ("loser", false), ("import", true), ("google", true), ("none", false)] {
        let mut comp = Compiler::new(&includes).map_err(|e| e.to_string())?;
        let path = match what {
            "name" => "a.proto".into(),
            "import" => "one.proto".into(),
            "google" => "google/protobuf/any.proto".into(),
            "none" => "b.proto".into(),
            "winner" => root.join(winner).join("a.proto"),
            _ => root.join(loser).join("a.proto"),
        };
        let r = guarded(|| comp.open_file(&path).map(|_| ()))?;
        c.impl_runs += 1;
        c.transitions.insert(hash(&(parts, what)));
        let ctx = || format!("{what} ({}): {:?}", path.display(), r.as_ref().err());
        c.outcomes.insert(hash(&(what, r.is_ok())));
        ensure!(r.is_ok() == ok, "{}", ctx());
        match &r {
            Ok(()) => {
                c.accepted += 1;
                if what != "google" {
                    let f = comp.files().find(|f| f.name() == "a.proto").ok_or_else(ctx)?;
                    ensure!(f.path() == Some(&root.join(winner).join("a.proto")), "{what}: a.proto is taken from {:?}", f.path());
                    let p = comp.descriptor_pool().get_file_by_name("a.proto").ok_or_else(ctx)?.package_name().to_owned();
                    ensure!(p == winner, "{what}: a.proto is that of {p:?}");
                }
            }
            Err(e) => {
                c.rejected += 1;
                let shadowed = what == "loser" && two.is_some();
                ensure!(e.is_file_not_found() != shadowed && e.to_string().contains("shadow") == shadowed, "{}", ctx());
            }
        }
    }
    Ok(())
}

/// C23: deep paths. parts: how deep the file lies, how deep of this the include directories lie, length of each component
pub fn j_deep(parts: &[String], c: &mut Ctx) -> Verdict {
    let (n, inc, len): (usize, usize, usize) = (parts[0].parse().unwrap(), parts[1].parse().unwrap(), parts[2].parse().unwrap());
    static MADE: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(vec![]);
    let base = crate::scratch().join(format!("deep{len}"));
    let dir = |from: usize, to: usize| (from..to).map(|i| format!("{}{}/", "d".repeat(len - 1), i % 10)).collect::<String>();
    {
        let mut made = MADE.lock().unwrap_or_else(|e| e.into_inner());
        if !made.contains(&(n, len)) {
            for r in ["one", "two"] {
                let d = base.join(r).join(dir(0, n));
                std::fs::create_dir_all(&d).unwrap();
                std::fs::write(d.join("a.proto"), format!("package {r}{n};")).unwrap();
                std::fs::write(d.join(format!("{r}.proto")), "").unwrap();
            }
            made.push((n, len));
        }
    }
    let includes: Vec<std::path::PathBuf> = ["one", "two"].iter().map(|r| base.join(r).join(dir(0, inc))).collect();
    let below = dir(inc, n);
    c.states.insert(hash(&parts));
    for (what, ok) in [("name", true), ("first", true), ("second", false), ("only second", true), ("none", false), ("dots", true), ("outside", false)] {
        let mut comp = Compiler::new(&includes).map_err(|e| e.to_string())?;
        let (path, name) = match what {
            "name" => (std::path::PathBuf::from(format!("{below}a.proto")), format!("{below}a.proto")),
            "first" => (includes[0].join(format!("{below}a.proto")), format!("{below}a.proto")),
            "second" => (includes[1].join(format!("{below}a.proto")), String::new()),
            "only second" => (includes[1].join(format!("{below}two.proto")), format!("{below}two.proto")),
            "dots" => (includes[0].join(".").join(format!("{}a.proto", below.replace('/', "/./"))), format!("{below}a.proto")),
            "outside" => (base.join("three").join(format!("{below}a.proto")), String::new()),
            _ => (includes[0].join(format!("{below}none.proto")), String::new()),
        };
        let r = guarded(|| comp.open_file(&path).map(|_| ()))?;
        c.impl_runs += 1;
        c.transitions.insert(hash(&(parts, what)));
        let ctx = || format!("{what} ({}): {:?}", path.display(), r.as_ref().err());
        c.outcomes.insert(hash(&(what, r.is_ok(), n)));
        ensure!(r.is_ok() == ok, "{}", ctx());
        match &r {
            Ok(()) => {
                c.accepted += 1;
                let held: Vec<&str> = comp.files().map(|f| f.name()).collect();
                ensure!(held == [name.as_str()], "{what}: the file is named {held:?}, expected {name:?}");
                let package = comp.file_descriptor_set().file[0].package().to_owned();
                ensure!(name.ends_with("two.proto") || package == format!("one{n}"), "{what}: the file is that of {package:?}");
            }
            Err(e) => {
                c.rejected += 1;
                ensure!(e.to_string().contains("shadow") == (what == "second"), "{}", ctx());
                ensure!(e.to_string().contains(path.to_str().unwrap()), "the path is not named: {}", ctx());
            }
        }
    }
    Ok(())
}

pub fn deep(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![fam("deep paths", j_deep, "deep", move |e| {
        for len in [2, 12] {
            for n in 0..if deep { 140 } else { 36 } {
                for inc in 0..=n {
                    if deep || inc < 3 || inc + 3 > n || inc % 8 == 0 {
                        e(vec![n.to_string(), inc.to_string(), len.to_string()]);
                    }
                }
            }
        }
    })]
}

fn varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    while n >= 128 {
        v.push(n as u8 | 128);
        n >>= 7;
    }
    v.push(n as u8);
    v
}
fn block(tag: u64, b: &[u8]) -> Vec<u8> {
    [varint(tag << 3 | 2), varint(b.len() as u64), b.to_vec()].concat()
}

const HOWS: [&str; 12] = ["string", "bytes", "list", "repeated", "messages", "nest", "fields", "options", "name", "after", "comment", "beside"];

/// C26: options in large files, and large options. parts: what is large, how large
pub fn j_large(parts: &[String], c: &mut Ctx) -> Verdict {
    let (how, n): (&str, usize) = (&parts[0], parts[1].parse().unwrap());
    let mut ext = "syntax = 'proto2'; package ext; import 'google/protobuf/descriptor.proto';
        message T { optional T t = 1; repeated int32 r = 2; optional string s = 3; }
        extend google.protobuf.MessageOptions { optional string s = 50000; optional bytes b = 50001; repeated int32 r = 50002; optional T t = 50003; repeated T m = 50004; optional int32 i = 50005; }
        extend google.protobuf.FieldOptions { optional int32 fi = 50005; }\n"
        .to_owned();
    let mut sets = "option (ext.i) = 7;".to_owned();
    // what stands in the options of the first message, in the order of the numbers
    let mut want: Vec<(u32, u8, Vec<u8>)> = vec![];
    let (mut before, mut after, mut body) = (String::new(), String::new(), String::new());
    match how {
        "string" => {
            sets += &format!("option (ext.s) = '{}';", "s".repeat(n));
            want.push((50000, 2, b"s".repeat(n)));
        }
        "bytes" => {
            sets += &format!("option (ext.b) = '{}';", "\\xff".repeat(n));
            want.push((50001, 2, vec![255; n]));
        }
        "list" => {
            sets += &format!("option (ext.t) = {{ r: [{}] }};", vec!["5"; n].join(","));
            want.push((50003, 2, [0x10, 5].repeat(n)));
        }
        "repeated" => {
            sets += &"option (ext.r) = 5;".repeat(n);
            want.extend((0..n).map(|_| (50002, 0, vec![5])));
        }
        "messages" => {
            sets += &(0..n).map(|i| format!("option (ext.m) = {{ r: {i} }};")).collect::<String>();
            want.extend((0..n).map(|i| (50004, 2, [vec![0x10], varint(i as u64)].concat())));
        }
        "nest" => {
            sets += &format!("option (ext.t) = {{ {} {} }};", "t {".repeat(n), "}".repeat(n));
            let mut v = vec![];
            for _ in 0..n {
                v = block(1, &v);
            }
            want.push((50003, 2, v));
        }
        "fields" => {
            body = (1..=n).map(|i| format!("optional int32 f{i} = {i} [(ext.fi) = {i}];")).collect();
        }
        "options" => {
            ext += &format!("extend google.protobuf.MessageOptions {{ {} }}", (0..n).map(|i| format!("optional int32 o{i} = {};", 60000 + i)).collect::<String>());
            sets += &(0..n).map(|i| format!("option (ext.o{i}) = {i};")).collect::<String>();
        }
        "name" => after = format!("message {} {{ }}", "n".repeat(n + 1)),
        "after" => after = (0..n).map(|i| format!("message A{i} {{ }}")).collect(),
        "comment" => before = format!("// {}\n", "c".repeat(n)),
        _ => {}
    }
    want.push((50005, 0, vec![7]));
    if how == "options" {
        want.extend((0..n).map(|i| (60000 + i as u32, 0, varint(i as u64))));
    }
    want.sort_by_key(|w| w.0);
    let mut files = vec![
        ("root.proto".to_owned(), format!("package root; import 'ext.proto';\n{before} message M {{ {sets} {body} }} {after}")),
        ("ext.proto".to_owned(), ext),
    ];
    if how == "beside" {
        files[0].1 = format!("package root; import 'ext.proto'; {} message M {{ {sets} }}", (0..n).map(|i| format!("import 'b{i}';")).collect::<String>());
        files.extend((0..n).map(|i| (format!("b{i}"), String::new())));
    }
    c.states.insert(hash(&parts));
    let open = |r: Box<dyn FileResolver>, ctx: &str| -> Result<Compiler, String> {
        let mut comp = Compiler::with_file_resolver(r);
        guarded(|| comp.open_file("root.proto").map(|_| ()))?.map_err(|e| format!("{ctx}: the file is refused: {e}"))?;
        Ok(comp)
    };
    let mut comp = match open(Box::new(Texts(files)), "from source") {
        Ok(comp) => comp,
        // nesting has a limit of its own
        Err(_) if how == "nest" && n > 60 => return Ok(()),
        Err(e) => return Err(e),
    };
    c.accepted += 1;
    for round in 0..3 {
        let mut next = None;
        for (imports, info) in [(false, false), (true, true), (true, false), (false, true)] {
            comp.include_imports(imports).include_source_info(info);
            let (bytes, set) = guarded(|| (comp.encode_file_descriptor_set(), comp.file_descriptor_set()))?;
            c.impl_runs += 1;
            c.transitions.insert(hash(&(parts, round, imports, info)));
            let ctx = format!("round {round}, imports {imports}, info {info}");
            let d = match FileDescriptorSet::decode(bytes.as_slice()) {
                Ok(d) => d,
                Err(e) => return Err(format!("{ctx}: {e}")),
            };
            ensure!(d == set, "{ctx}: the encoded set and the set differ beyond extension options");
            let f = file_in(&bytes, "root.proto").ok_or_else(|| format!("{ctx}: no root.proto"))?;
            let o = get(f, &[4, 7]).ok_or_else(|| format!("{ctx}: the message has no options"))?;
            let mut got: Vec<(u32, u8, Vec<u8>)> = fields(o).ok_or("bad options")?.into_iter().map(|x| (x.0, x.1, x.2.to_vec())).collect();
            got.sort_by_key(|w| w.0);
            c.outcomes.insert(hash(&got));
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                let show = |v: &[(u32, u8, Vec<u8>)]| v.get(at).map(|x| (x.0, x.1, x.2.len(), hex(&x.2[..x.2.len().min(20)])));
                return Err(format!("{ctx}: of the options, number {at} is {:?}, expected {:?} ({} and {} in all)", show(&got), show(&want), got.len(), want.len()));
            }
            if how == "fields" {
                let m = get(f, &[4]).unwrap();
                let fs: Vec<Vec<u8>> = fields(m).unwrap().into_iter().filter(|x| x.0 == 2).map(|x| get(x.2, &[8]).unwrap_or_default().to_vec()).collect();
                let w: Vec<Vec<u8>> = (1..=n).map(|i| [varint(50005 << 3), varint(i as u64)].concat()).collect();
                ensure!(fs == w, "{ctx}: the options of the fields are {fs:?}");
            }
            if imports && info == (round == 0) {
                next = Some(bytes);
            }
        }
        let next = next.unwrap();
        let set = guarded(|| DescriptorSetFileResolver::decode(next.as_slice()))?.map_err(|e| e.to_string())?;
        comp = open(Box::new(set), "from a set")?;
    }
    Ok(())
}

const LAYOUTS: [&str; 9] = ["flat", "one name", "two names", "one directory", "deep", "again", "twice", "hub", "tail"];

/// C29: many files at once. parts: how they are named, how many
pub fn j_batch(parts: &[String], c: &mut Ctx) -> Verdict {
    let (how, n): (&str, usize) = (&parts[0], parts[1].parse().unwrap());
    let name = |i: usize| match how {
        "one name" => format!("d{i}/a.proto"),
        "two names" => format!("d{}/{}.proto", i / 2, ["a", "b"][i % 2]),
        "one directory" => format!("d/f{i}.proto"),
        "deep" => format!("{}a.proto", "d/".repeat(i)),
        _ => format!("f{i}.proto"),
    };
    let mut files: Vec<(String, String)> = (0..n).map(|i| (name(i), format!("package p{i}; message M {{ optional M m = 1; }}"))).collect();
    let mut opens: Vec<String> = (0..n).map(name).collect();
    match how {
        "again" => opens.extend(opens.clone()),
        "twice" => opens = opens.into_iter().flat_map(|o| [o.clone(), o]).collect(),
        "hub" => {
            files.push(("hub.proto".into(), (0..n).map(|i| format!("import '{}';", name(i))).collect()));
            opens.insert(0, "hub.proto".into());
        }
        "tail" => {
            files.push(("hub.proto".into(), (0..n).map(|i| format!("import '{}';", name(i))).collect()));
            opens.push("hub.proto".into());
        }
        _ => {}
    }
    let want: std::collections::BTreeSet<String> = files.iter().map(|f| f.0.clone()).collect();
    let back: Vec<String> = opens.iter().rev().cloned().collect();
    let half = opens.len() / 2;
    let ways: [(&str, Vec<&[String]>); 5] = [
        ("at once", vec![&opens]),
        ("backwards", vec![&back]),
        ("one by one", opens.chunks(1).collect()),
        ("in two", vec![&opens[..half], &opens[half..]]),
        ("in two, the second first", vec![&opens[half..], &opens[..half]]),
    ];
    c.states.insert(hash(&parts));
    for (way, calls) in ways {
        let mut comp = Compiler::with_file_resolver(Texts(files.clone()));
        for call in calls {
            guarded(|| comp.open_files(call).map(|_| ()))?.map_err(|e| format!("{way}: {e}"))?;
            c.impl_runs += 1;
        }
        c.accepted += 1;
        c.transitions.insert(hash(&(parts, way)));
        let got: Vec<(String, bool)> = comp.files().map(|f| (f.name().to_owned(), f.is_import())).collect();
        let names: std::collections::BTreeSet<String> = got.iter().map(|g| g.0.clone()).collect();
        ensure!(names == want && got.len() == want.len(), "{way}: compiled are {got:?}, not {want:?}");
        ensure!(got.iter().all(|g| !g.1), "{way}: every file was opened, but these are said to be imported only: {:?}", got.iter().filter(|g| g.1).collect::<Vec<_>>());
        for imports in [false, true] {
            let set = guarded(|| comp.include_imports(imports).file_descriptor_set())?;
            let mut names: Vec<&str> = set.file.iter().map(|f| f.name()).collect();
            names.sort();
            ensure!(names.iter().map(|n| n.to_string()).eq(want.iter().cloned()), "{way}, imports {imports}: the set has {names:?}");
            for f in &set.file {
                let Some(i) = (0..n).find(|i| f.name() == name(*i)) else { continue };
                ensure!(f.package() == format!("p{i}"), "{way}: {} is that of package {}", f.name(), f.package());
                let ty = f.message_type[0].field[0].type_name();
                ensure!(ty == format!(".p{i}.M"), "{way}: the field of {} has the type {ty}", f.name());
            }
        }
        c.outcomes.insert(hash(&got));
    }
    Ok(())
}

/// C20, C25: files of the same content. parts: for each file the files it imports (digits), the files opened, the
/// content they share besides their imports
pub fn j_alike(parts: &[String], c: &mut Ctx) -> Verdict {
    let n = parts.len() - 2;
    let digits = |s: &str| s.bytes().map(|b| (b - b'0') as usize).collect::<Vec<_>>();
    let imports: Vec<Vec<usize>> = parts[..n].iter().map(|s| digits(s)).collect();
    let opens = digits(&parts[n]);
    let name = |i: usize| format!("{}.proto", ["x", "a", "m", "b", "y"][i]);
    let files: Vec<(String, String)> = (0..n)
        .map(|i| (name(i), format!("{}{}", imports[i].iter().map(|k| format!("import '{}';", name(*k))).collect::<String>(), parts[n + 1])))
        .collect();
    let mut loaded = vec![false; n];
    fn visit(i: usize, imports: &[Vec<usize>], loaded: &mut [bool]) {
        if !std::mem::replace(&mut loaded[i], true) {
            imports[i].iter().for_each(|k| visit(*k, imports, loaded));
        }
    }
    opens.iter().for_each(|i| visit(*i, &imports, &mut loaded));
    let mut comp = Compiler::with_file_resolver(Texts(files));
    for i in &opens {
        guarded(|| comp.open_file(name(*i)).map(|_| ()))?.map_err(|e| e.to_string())?;
        c.impl_runs += 1;
    }
    c.accepted += 1;
    c.states.insert(hash(&parts));
    let want: Vec<(String, bool)> = (0..n).filter(|i| loaded[*i]).map(|i| (name(i), !opens.contains(&i))).collect();
    let same = |mut got: Vec<(String, bool)>| {
        let mut want = want.clone();
        got.sort();
        want.sort();
        got == want
    };
    let held: Vec<(String, bool)> = comp.files().map(|f| (f.name().to_owned(), f.is_import())).collect();
    c.outcomes.insert(hash(&held));
    ensure!(same(held.clone()), "the compiler holds {held:?}, expected {want:?}");
    for (all, info) in [(false, false), (false, true), (true, false), (true, true)] {
        c.transitions.insert(hash(&(parts, all, info)));
        let (set, bytes) = guarded(|| {
            comp.include_imports(all).include_source_info(info);
            (comp.file_descriptor_set(), comp.encode_file_descriptor_set())
        })?;
        ensure!(FileDescriptorSet::decode(bytes.as_slice()).is_ok_and(|d| d == set), "imports {all}, info {info}: the encoded set is another");
        let flag = |f: &str| want.iter().find(|w| w.0 == f).map(|w| w.1);
        let got: Vec<(String, bool)> = set.file.iter().map(|f| (f.name().to_owned(), flag(f.name()).unwrap_or(true))).collect();
        let ok = if all { same(got.clone()) } else { got.iter().all(|g| !g.1) && got.len() == want.iter().filter(|w| !w.1).count() };
        let mut names: Vec<&String> = got.iter().map(|g| &g.0).collect();
        for (k, f) in set.file.iter().enumerate() {
            let i = (0..n).find(|i| name(*i) == f.name()).ok_or("another file")?;
            let deps: Vec<String> = imports[i].iter().map(|k| name(*k)).collect();
            ensure!(f.dependency == deps, "{} has the dependencies {:?}", f.name(), f.dependency);
            ensure!(f.source_code_info.is_some() == info, "{} has source info: {}", f.name(), !info);
            ensure!(!all || deps.iter().all(|d| names[..k].contains(&d)), "{} comes before a file it imports: {names:?}", f.name());
        }
        names.sort();
        names.dedup();
        ensure!(ok && names.len() == got.len(), "imports {all}, info {info}: the set has {got:?} of {want:?}");
    }
    Ok(())
}

pub fn alike(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![fam("files of the same content, every acyclic graph × sequences of opens", j_alike, "alike", move |e| {
        let contents: &[&str] = if deep { &["", "package p;", "// c", "syntax = 'proto3';", "option java_package = 'p';"] } else { &["", "package p;", "// c"] };
        for n in 2..=4 {
            let all: Vec<usize> = (0..n).collect();
            for g in crate::families::dags(n) {
                for s in crate::families::lists(&all, 1, if deep { 4 } else { 3 }) {
                    for x in contents {
                        let mut p: Vec<String> = g.iter().map(|n| n.imports.iter().map(|m| m.to.to_string()).collect()).collect();
                        p.push(s.iter().map(|i| i.to_string()).collect());
                        p.push((*x).into());
                        e(p);
                    }
                }
            }
        }
    })]
}

pub fn c29(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![fam("many files opened at once", j_batch, "batch", move |e| {
        for how in LAYOUTS {
            for n in sizes(if deep { 140 } else { 40 }, if deep { 1100 } else { 260 }) {
                if n > 0 {
                    e(vec![how.into(), n.to_string()]);
                }
            }
        }
    })]
}

pub fn c23(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![fam("many include directories", j_includes, "includes", move |e| {
        for n in sizes(if deep { 80 } else { 24 }, 260) {
            for one in 0..n {
                if n > 24 && !deep && one > 2 && one + 3 < n && one % 16 > 1 {
                    continue;
                }
                let mut put = |two: String| e(vec![n.to_string(), one.to_string(), two]);
                put("-".into());
                for two in [0, 1, one.wrapping_sub(1), one + 1, n / 2, n - 1] {
                    if two < n && two != one {
                        put(two.to_string());
                    }
                }
            }
        }
    })]
}

pub fn c26(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![fam("large options, and options in large files", j_large, "large", move |e| {
        for how in HOWS {
            let (upto, last) = match how {
                "string" | "bytes" | "name" | "comment" => (20, if deep { 1 << 20 } else { 70_000 }),
                "nest" => (if deep { 100 } else { 30 }, 64),
                _ if deep => (300, 1100),
                _ => (16, 260),
            };
            for n in sizes(upto, last) {
                e(vec![how.into(), n.to_string()]);
            }
        }
    })]
}

pub fn c30(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![
        fam("faults far into a file", j_far, "far", move |e| {
            for kind in PADS {
                let (upto, last) = match kind {
                    "message" | "import" => (16, 300),
                    _ => (if deep { 300 } else { 40 }, if deep { 1 << 20 } else { 1 << 17 }),
                };
                for n in sizes(upto, last) {
                    for fault in ["missing", "twice", "unresolved", "clash", "syntax"] {
                        for place in ["root", "below"] {
                            if place == "root" || deep || n < 1100 {
                                e(vec![kind.into(), n.to_string(), fault.into(), place.into()]);
                            }
                        }
                    }
                }
            }
        }),
        fam("errors of a resolver of its own", j_custom, "custom", move |e| {
            for how in ["io", "new", "bare", "os", "boxed", "text"] {
                for k in 0..if how == "os" { 133 } else { KINDS.len() } {
                    for depth in 0..4 {
                        for chain in ["", "chain"] {
                            e(vec![how.into(), k.to_string(), depth.to_string(), chain.into()]);
                        }
                    }
                }
            }
        }),
    ]
}
