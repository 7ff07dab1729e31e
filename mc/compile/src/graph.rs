//! The reference model of import resolution: a set of loaded files, grown by depth-first visits,
//! and the real compiler driven through the same history over an in-memory file resolver.

use crate::engine::*;
use miette::Diagnostic;
use prost::Message;
use prost_types::{field_descriptor_proto as fd, DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet};
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::rc::Rc;

pub const MISSING: usize = 9999;

/// Further sets of names for the same files; the last of each is that of a missing file.
/// An operation `n<k>` before all others selects a set.
pub const SETS: [[&str; 7]; 11] = [
    ["a.proto", "dir/b.proto", "dir/a.proto", "d.proto", "dir/sub/e.proto", "f", "dir/missing.proto"],
    // letters in upper and lower case
    ["a.proto", "A.proto", "a.PROTO", "dir/a.proto", "Dir/a.proto", "DIR/A.PROTO", "a.Proto"],
    // one the beginning or the end of another
    ["a", "a.proto", "a.proto.proto", "a/a", "a/a.proto", "aa", "a/a.prot"],
    // characters that mean something elsewhere
    ["a b.proto", "q'u.proto", "a,b.proto", "a:b.proto", "k=v.proto", "a;b.proto", "a -> b.proto"],
    ["é.proto", "e\u{301}.proto", "ü/é.proto", "É.proto", "日本.proto", "ß.proto", "ss.proto"],
    // dots
    ["...", "..a", "a..", ".a", "a/...", "a/.b", "a/..b"],
    // blanks
    ["a.proto", " a.proto", "a.proto ", "a .proto", "a\t.proto", "a/ a.proto", "a /a.proto"],
    // like those of the bundled files
    ["google/protobuf/any.protx", "Google/protobuf/any.proto", "protobuf/any.proto", "google/any.proto", "google/protobuf.proto", "google/protobuf/compiler.proto", "google/protobuf/none.proto"],
    // what has to be escaped in a string
    ["a\"b.proto", "a\nb.proto", "a'\"b", "\"", "'", "\n", "a\"c.proto"],
    // long ones
    [
        "loooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong.proto",
        "loooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong.protp",
        "loooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong",
        "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z.proto",
        "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z/y.proto",
        "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y",
        "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/z",
    ],
    // digits, signs
    ["1", "01", "1.0", "-1", "--", "-I.proto", "+1"],
];

thread_local! {
    static SET: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn name_of(i: usize) -> &'static str {
    static MANY: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let set = SETS[SET.with(|s| s.get())];
    match i {
        MISSING => set[6],
        0..=5 => set[i],
        _ => MANY.get_or_init(|| (0..1000).map(|i| &*Box::leak(format!("n/{i}.proto").into_boxed_str())).collect())[i],
    }
}

/// Takes the choice of names from the front of the operations.
pub fn choose(ops: &str) -> &str {
    let (set, rest) = match ops.strip_prefix('n') {
        None => (0, ops),
        Some(r) => {
            let (k, rest) = r.split_once(' ').unwrap();
            (k.parse().unwrap(), rest)
        }
    };
    SET.with(|s| s.set(set));
    rest
}

/// A name as a string in a source file.
fn quoted(name: &str) -> String {
    let mut s = String::from("\"");
    for c in name.chars() {
        match c {
            '\n' => s += "\\n",
            '"' | '\\' => s.extend(['\\', c]),
            _ => s.push(c),
        }
    }
    s + "\""
}

/// What happens when a file is read.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Good,
    Syntax,
    /// A well-formed file that breaks a rule the parser checks (a field number of 0).
    Rule,
    IoCustom,
    IoOpen,
    Utf8,
    Custom,
    Absent,
    /// A type name that resolves to nothing.
    Unresolved,
    /// Defines a name that every other file of this kind defines too.
    Clash,
}
use Kind::*;

impl Kind {
    pub fn ch(self) -> char {
        match self {
            Good => 'G',
            Syntax => 'S',
            Rule => 'N',
            IoCustom => 'I',
            IoOpen => 'O',
            Utf8 => 'U',
            Custom => 'C',
            Absent => 'A',
            Unresolved => 'R',
            Clash => 'D',
        }
    }
    pub fn of(c: char) -> Kind {
        *[Good, Syntax, Rule, IoCustom, IoOpen, Utf8, Custom, Absent, Unresolved, Clash].iter().find(|k| k.ch() == c).unwrap()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Import {
    pub to: usize,
    /// ' ', '+' public or '-' weak
    pub how: char,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub imports: Vec<Import>,
    pub kind: Kind,
}

/// `+1,2,-9:G`
pub fn parse_node(s: &str) -> Node {
    let (i, k) = s.split_once(':').unwrap();
    Node {
        kind: Kind::of(k.chars().next().unwrap()),
        imports: i
            .split(',')
            .filter(|t| !t.is_empty())
            .map(|t| {
                let how = t.chars().next().filter(|c| *c == '+' || *c == '-').unwrap_or(' ');
                Import { how, to: t.trim_start_matches(['+', '-']).parse().unwrap() }
            })
            .collect(),
    }
}
pub fn show_node(n: &Node) -> String {
    let mut s = String::new();
    for (i, m) in n.imports.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        if m.how != ' ' {
            s.push(m.how);
        }
        write!(s, "{}", m.to).unwrap();
    }
    s.push(':');
    s.push(n.kind.ch());
    s
}

/// The source of a file, and the byte ranges of its import statements and of the unresolved name.
pub fn source(i: usize, n: &Node) -> (String, Vec<(usize, usize)>, (usize, usize)) {
    // clashing files all define clash.X
    let (package, message) = if n.kind == Clash { ("clash".into(), "X".into()) } else { (format!("p{i}"), format!("M{i}")) };
    let mut s = format!("// File {i}.\nsyntax = \"proto3\";\n\npackage {package};\n");
    let mut spans = vec![];
    for m in &n.imports {
        let start = s.len();
        let how = match m.how {
            '+' => "public ",
            '-' => "weak ",
            _ => "",
        };
        write!(s, "import {how}{};", quoted(name_of(m.to))).unwrap();
        spans.push((start, s.len()));
        s.push('\n');
    }
    write!(s, "/* m */ message {message} {{\n").unwrap();
    for (k, m) in n.imports.iter().enumerate() {
        if m.to != MISSING {
            writeln!(s, "  p{}.M{} f{} = {}; // f", m.to, m.to, k + 1, k + 1).unwrap();
        }
    }
    let mut bad = (0, 0);
    match n.kind {
        Syntax => s += "  int32 = 90;\n",
        Rule => s += "  int32 zero = 0;\n",
        Unresolved => {
            let at = s.len() + 2;
            s += "  nowhere.Type u = 91;\n";
            bad = (at, at + 12);
        }
        _ => {}
    }
    s += "}\n";
    (s, spans, bad)
}

thread_local! {
    static EXPECTED: RefCell<std::collections::HashMap<(usize, usize, Node), Rc<FileDescriptorProto>>> = RefCell::default();
}

/// The descriptor the file must have once it is compiled.
pub fn expected(i: usize, n: &Node) -> Rc<FileDescriptorProto> {
    let key = (SET.with(|s| s.get()), i, n.clone());
    if let Some(f) = EXPECTED.with(|e| e.borrow().get(&key).cloned()) {
        return f;
    }
    let f = Rc::new(descriptor(i, n));
    EXPECTED.with(|e| e.borrow_mut().insert(key, f.clone()));
    f
}

fn descriptor(i: usize, n: &Node) -> FileDescriptorProto {
    let (src, ..) = source(i, n);
    let mut f = FileDescriptorProto {
        name: Some(name_of(i).into()),
        package: Some(if n.kind == Clash { "clash".into() } else { format!("p{i}") }),
        syntax: Some("proto3".into()),
        ..Default::default()
    };
    let mut m = DescriptorProto { name: Some(if n.kind == Clash { "X".into() } else { format!("M{i}") }), ..Default::default() };
    for (k, im) in n.imports.iter().enumerate() {
        f.dependency.push(name_of(im.to).into());
        match im.how {
            '+' => f.public_dependency.push(k as i32),
            '-' => f.weak_dependency.push(k as i32),
            _ => {}
        }
        m.field.push(FieldDescriptorProto {
            name: Some(format!("f{}", k + 1)),
            number: Some(k as i32 + 1),
            label: Some(fd::Label::Optional as i32),
            r#type: Some(fd::Type::Message as i32),
            type_name: Some(format!(".p{}.M{}", im.to, im.to)),
            json_name: Some(format!("f{}", k + 1)),
            ..Default::default()
        });
    }
    f.message_type.push(m);
    // source info is the parser's business
    f.source_code_info = protox_parse::parse(name_of(i), &src).unwrap().source_code_info;
    f
}

pub struct Env {
    pub nodes: Vec<Node>,
    pub opens: u64,
}
pub struct Mem(pub Rc<RefCell<Env>>);

pub fn bad_utf8() -> std::path::PathBuf {
    static PATH: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    PATH.get_or_init(|| {
        let p = crate::scratch().join("bad-utf8.proto");
        std::fs::write(&p, b"syntax = \"proto3\"; // \xff\n").unwrap();
        p
    })
    .clone()
}

#[derive(Debug)]
struct Oops(String);
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Oops {}

impl FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let mut e = self.0.borrow_mut();
        e.opens += 1;
        let Some(i) = (0..e.nodes.len()).find(|i| name_of(*i) == name) else { return Err(Error::file_not_found(name)) };
        let n = &e.nodes[i];
        match n.kind {
            Absent => Err(Error::file_not_found(name)),
            IoCustom => Err(std::io::Error::new(std::io::ErrorKind::PermissionDenied, format!("no access to {name}")).into()),
            Custom => Err(Error::new(Oops(format!("oops {name}")))),
            IoOpen => File::open(name, Path::new("/")),
            Utf8 => File::open(name, &bad_utf8()),
            _ => File::from_source(name, &source(i, n).0),
        }
    }
}

/// Why an open fails.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Fail {
    /// The file itself cannot be loaded; its index and kind.
    Load(usize, Kind),
    /// The opened file does not exist.
    NotIncluded(usize),
    Missing { importer: usize, index: usize },
    Duplicate { importer: usize, index: usize },
    Cycle(Vec<usize>),
    Check(usize, Kind),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Model {
    /// (file, is import, the node as it was when it was loaded), in the order of loading
    pub loaded: Vec<(usize, bool, Option<Node>)>,
}

impl Model {
    pub fn has(&self, i: usize) -> bool {
        self.loaded.iter().any(|l| l.0 == i)
    }
    fn visit(&mut self, i: usize, env: &[Node], stack: &mut Vec<usize>) -> Result<(), Fail> {
        if let Some(at) = stack.iter().position(|s| *s == i) {
            let mut c = stack[at..].to_vec();
            c.push(i);
            return Err(Fail::Cycle(c));
        }
        if self.has(i) {
            return Ok(());
        }
        let n = &env[i];
        match n.kind {
            Good | Unresolved | Clash => {}
            k => return Err(Fail::Load(i, k)),
        }
        stack.push(i);
        for (x, m) in n.imports.iter().enumerate() {
            if n.imports[..x].iter().any(|p| p.to == m.to) {
                return Err(Fail::Duplicate { importer: i, index: x });
            }
            if m.to >= env.len() || env[m.to].kind == Absent && !self.has(m.to) {
                return Err(Fail::Missing { importer: i, index: x });
            }
            self.visit(m.to, env, stack)?;
        }
        stack.pop();
        let clash = n.kind == Clash && self.loaded.iter().any(|l| l.2.as_ref().unwrap().kind == Clash);
        // a file importing a file of the clashing kind refers to a name that file does not define
        let dangling = n.imports.iter().any(|m| self.loaded.iter().any(|l| l.0 == m.to && l.2.as_ref().unwrap().kind == Clash));
        if n.kind == Unresolved || clash || dangling {
            return Err(Fail::Check(i, n.kind));
        }
        self.loaded.push((i, true, Some(n.clone())));
        Ok(())
    }
    pub fn open(&mut self, i: usize, env: &[Node]) -> Result<(), Fail> {
        if !self.has(i) && env[i].kind == Absent {
            return Err(Fail::NotIncluded(i));
        }
        self.visit(i, env, &mut vec![])?;
        self.loaded.iter_mut().find(|l| l.0 == i).unwrap().1 = false;
        Ok(())
    }
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Which aspects of an execution a property judges.
#[derive(Clone, Copy)]
pub struct Look {
    /// which files are compiled, their order and flags
    pub set: bool,
    /// success or failure, kind of error and file
    pub error: bool,
    /// class and location of errors
    pub locate: bool,
    /// the output forms
    pub output: bool,
    /// the content of descriptors
    pub content: bool,
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[allow(unused_imports)]
pub(crate) use ensure;

fn short(s: &str) -> String {
    s.chars().take(1500).collect()
}

pub fn label_of(e: &Error) -> Option<(usize, usize)> {
    let l = e.labels()?.next()?;
    Some((l.offset(), l.offset() + l.len()))
}

/// The text under the first label and the name of the source it lies in.
pub fn labelled(e: &Error) -> Option<(String, Option<String>)> {
    let l = e.labels()?.next()?;
    let c = e.source_code()?.read_span(l.inner(), 0, 0).ok()?;
    Some((String::from_utf8_lossy(c.data()).into_owned(), c.name().map(|s| s.to_owned())))
}

fn classes(e: &Error) -> String {
    format!("{}{}{}", e.is_parse() as u8, e.is_io() as u8, e.is_file_not_found() as u8)
}

fn judge_error(e: &Error, want: &Fail, env: &[Node], look: Look) -> Verdict {
    let text = e.to_string();
    let dbg = format!("{e:?}");
    let ctx = || format!("the model expects {want:?}, the error is {text:?} / {dbg:?} (file {:?}, parse/io/notfound {})", e.file(), classes(e));
    let class = match want {
        Fail::Load(_, Syntax | Rule | Utf8) => "100",
        Fail::Load(_, IoCustom | IoOpen) => "010",
        Fail::Load(..) => "000",
        Fail::NotIncluded(_) | Fail::Missing { .. } => "001",
        _ => "000",
    };
    ensure!(classes(e) == class, "wrong class of error: {}", ctx());
    if look.locate && !matches!(want, Fail::Load(_, Custom | IoCustom)) {
        ensure!(dbg.contains(&text), "the debug form lacks the message: {}", ctx());
    }
    match want {
        Fail::Load(i, k) => {
            let file = Some(name_of(*i));
            match k {
                Syntax | Rule => {
                    let src = source(*i, &env[*i]).0;
                    let p = protox_parse::parse(name_of(*i), &src).unwrap_err();
                    ensure!(e.file() == file && text == p.to_string(), "not the parser's error {:?}: {}", p.to_string(), ctx());
                    if look.locate {
                        let want: Vec<_> = p.labels().unwrap().map(|l| (l.offset(), l.len())).collect();
                        let got: Vec<_> = e.labels().map(|l| l.map(|l| (l.offset(), l.len())).collect()).unwrap_or_default();
                        ensure!(want == got, "labels {got:?} differ from the parser's {want:?}: {}", ctx());
                        let (t, n) = labelled(e).ok_or_else(|| format!("the source text is lost: {}", ctx()))?;
                        let (o, l) = want[0];
                        ensure!(t == src[o..o + l] && n.as_deref() == file, "the label covers {t:?} of {n:?}: {}", ctx());
                        ensure!(dbg.starts_with(&format!("{}:", name_of(*i))), "the debug form does not name the file: {}", ctx());
                    }
                }
                Utf8 => ensure!(e.file() == file && text.contains(name_of(*i)), "{}", ctx()),
                IoOpen => ensure!(e.file() == file && text.contains("'/'"), "{}", ctx()),
                IoCustom => ensure!(text == format!("no access to {}", name_of(*i)), "{}", ctx()),
                Custom => ensure!(text == format!("oops {}", name_of(*i)), "{}", ctx()),
                _ => unreachable!(),
            }
        }
        Fail::NotIncluded(i) => ensure!(text.contains(name_of(*i)), "{}", ctx()),
        Fail::Missing { importer, index } | Fail::Duplicate { importer, index } => {
            let to = name_of(env[*importer].imports[*index].to);
            ensure!(e.file() == Some(name_of(*importer)) && text.contains(&format!("'{to}'")), "{}", ctx());
            let dup = matches!(want, Fail::Duplicate { .. });
            ensure!(text.contains("twice") == dup && text.contains("not found") != dup, "{}", ctx());
            if look.locate {
                let (src, spans, _) = source(*importer, &env[*importer]);
                let span = spans[*index];
                ensure!(label_of(e) == Some(span), "the label is {:?}, the import statement {span:?}: {}", label_of(e), ctx());
                let (t, n) = labelled(e).ok_or_else(|| format!("the source text is lost: {}", ctx()))?;
                ensure!(t == src[span.0..span.1] && n.as_deref() == Some(name_of(*importer)), "the label covers {t:?} of {n:?}: {}", ctx());
                let at = format!("{}:{}:1: ", name_of(*importer), src[..span.0].matches('\n').count() + 1);
                ensure!(dbg.starts_with(&at), "the statement stands at {at:?}: {}", ctx());
            }
        }
        Fail::Cycle(c) => {
            ensure!(c.iter().any(|i| e.file() == Some(name_of(*i))), "{}", ctx());
            let chain: Vec<_> = c.iter().map(|i| name_of(*i)).collect();
            let chain = chain.join(" -> ");
            ensure!(text.ends_with(&chain), "the cycle {chain:?} is not spelled out: {}", ctx());
        }
        Fail::Check(i, k) => {
            ensure!(e.file() == Some(name_of(*i)), "{}", ctx());
            if look.locate {
                let (t, n) = labelled(e).ok_or_else(|| format!("the source text is lost: {}", ctx()))?;
                ensure!(n.as_deref() == Some(name_of(*i)), "the label lies in {n:?}: {}", ctx());
                let (src, _, bad) = source(*i, &env[*i]);
                if *k == Unresolved && !src.is_empty() && !text.contains(".M") {
                    ensure!(t == src[bad.0..bad.1], "the label covers {t:?}: {}", ctx());
                }
            }
        }
    }
    Ok(())
}

/// Is the error of the kind the model asks for, without looking further?
pub struct Run {
    pub env: Rc<RefCell<Env>>,
    pub model: Model,
    pub compiler: Compiler,
    imports: bool,
    info: bool,
}

fn strip(f: &FileDescriptorProto) -> FileDescriptorProto {
    FileDescriptorProto { source_code_info: None, ..f.clone() }
}

pub fn outputs(c: &mut Compiler, imports: bool, info: bool) -> Result<(FileDescriptorSet, Vec<u8>), String> {
    guarded(|| {
        c.include_imports(imports).include_source_info(info);
        (c.file_descriptor_set(), c.encode_file_descriptor_set())
    })
}

impl Run {
    pub fn new(nodes: Vec<Node>) -> Run {
        let env = Rc::new(RefCell::new(Env { nodes, opens: 0 }));
        Run { compiler: Compiler::with_file_resolver(Mem(env.clone())), env, model: Model::default(), imports: false, info: false }
    }

    fn judge_set(&self) -> Verdict {
        let files: Vec<(String, bool)> =
            guarded(|| self.compiler.files().map(|f| (f.name().to_owned(), f.is_import())).collect::<Vec<_>>())?;
        let want: BTreeMap<&str, bool> = self.model.loaded.iter().map(|l| (name_of(l.0), l.1)).collect();
        let got: BTreeMap<&str, bool> = files.iter().map(|f| (f.0.as_str(), f.1)).collect();
        ensure!(got.len() == files.len(), "a file is listed twice: {files:?}");
        ensure!(want == got, "files and import flags are {got:?}, the model has {want:?}");
        self.judge_order(files.iter().map(|f| f.0.as_str()), true)
    }

    fn judge_order<'a>(&self, names: impl Iterator<Item = &'a str>, closed: bool) -> Verdict {
        let names: Vec<&str> = names.collect();
        for (k, n) in names.iter().enumerate() {
            let Some(l) = self.model.loaded.iter().find(|l| name_of(l.0) == *n) else {
                return Err(format!("{n} is not among the files compiled: {names:?}"));
            };
            for m in &l.2.as_ref().unwrap().imports {
                let dep = name_of(m.to);
                match names.iter().position(|x| *x == dep) {
                    Some(at) => ensure!(at < k, "{dep} comes after {n}, which imports it: {names:?}"),
                    None => ensure!(!closed, "{dep}, imported by {n}, is not there: {names:?}"),
                }
            }
        }
        Ok(())
    }

    fn judge_output(&mut self, imports: bool, info: bool, look: Look) -> Verdict {
        let got = outputs(&mut self.compiler, imports, info)?;
        self.judge_result(got, imports, info, look)
    }

    /// The outputs as the settings are now.
    fn judge_now(&self, look: Look) -> Verdict {
        let got = guarded(|| (self.compiler.file_descriptor_set(), self.compiler.encode_file_descriptor_set()))?;
        self.judge_result(got, self.imports, self.info, look)
    }

    fn judge_result(&self, (set, bytes): (FileDescriptorSet, Vec<u8>), imports: bool, info: bool, look: Look) -> Verdict {
        let decoded = FileDescriptorSet::decode(bytes.as_slice()).map_err(|e| format!("the encoded set does not decode: {e}"))?;
        ensure!(
            decoded == set,
            "imports {imports}, info {info}: the encoded set decodes to {}\nthe set is {}",
            short(&format!("{decoded:?}")),
            short(&format!("{set:?}"))
        );
        let mut names: Vec<&str> = set.file.iter().map(|f| f.name()).collect();
        self.judge_order(names.iter().copied(), imports)?;
        let mut want: Vec<&str> = self.model.loaded.iter().filter(|l| imports || !l.1).map(|l| name_of(l.0)).collect();
        names.sort();
        want.sort();
        ensure!(names == want, "imports {imports}, info {info}: the output has {names:?}, expected {want:?}");
        for f in &set.file {
            ensure!(f.source_code_info.is_some() == info, "imports {imports}, info {info}: source info of {} is {}", f.name(), !info);
        }
        if look.content {
            self.judge_content(&set, info)?;
        }
        Ok(())
    }

    fn judge_content(&self, set: &FileDescriptorSet, info: bool) -> Verdict {
        for f in &set.file {
            let l = self.model.loaded.iter().find(|l| name_of(l.0) == f.name()).unwrap();
            let mut want = expected(l.0, l.2.as_ref().unwrap());
            if !info {
                want = Rc::new(strip(&want));
            }
            ensure!(*f == *want, "{} is {}\nexpected {}", f.name(), short(&format!("{f:?}")), short(&format!("{want:?}")));
        }
        Ok(())
    }

    fn judge_pool(&self) -> Verdict {
        let pool = guarded(|| self.compiler.descriptor_pool())?;
        let mut names: Vec<String> = pool.files().map(|f| f.name().to_owned()).collect();
        self.judge_order(names.iter().map(|s| s.as_str()), true)?;
        names.sort();
        let mut want: Vec<&str> = self.model.loaded.iter().map(|l| name_of(l.0)).collect();
        want.sort();
        ensure!(names == want, "the pool has {names:?}, expected {want:?}");
        for f in pool.files() {
            let l = self.model.loaded.iter().find(|l| name_of(l.0) == f.name()).unwrap();
            ensure!(
                *f.file_descriptor_proto() == *expected(l.0, l.2.as_ref().unwrap()),
                "in the pool {} is {}",
                f.name(),
                short(&format!("{:?}", f.file_descriptor_proto()))
            );
        }
        Ok(())
    }

    /// After an operation: everything that can be observed agrees with the model.
    pub fn look(&mut self, look: Look) -> Verdict {
        if look.set {
            self.judge_set()?;
        }
        if look.output {
            self.judge_now(look)?;
        }
        Ok(())
    }

    pub fn finish(&mut self, look: Look) -> Verdict {
        if look.output {
            self.judge_now(look)?;
            for (a, b) in [(false, false), (true, true), (true, false), (false, true)] {
                self.judge_output(a, b, look)?;
            }
            self.judge_pool()?;
        } else if look.content {
            let (set, _) = outputs(&mut self.compiler, true, true)?;
            self.judge_content(&set, true)?;
        }
        Ok(())
    }

    /// Files the compiler holds, if they are an admissible state after a failed open.
    fn resync(&mut self, before: &Model, look: Look) -> Verdict {
        let files: Vec<(String, bool)> =
            guarded(|| self.compiler.files().map(|f| (f.name().to_owned(), f.is_import())).collect::<Vec<_>>())?;
        if look.set {
            for l in &before.loaded {
                ensure!(
                    files.iter().any(|f| f.0 == name_of(l.0) && f.1 == l.1),
                    "after a failed open {} is gone or its import flag ({}) has changed: {files:?}",
                    name_of(l.0),
                    l.1
                );
            }
            for f in &files {
                ensure!(
                    self.model.loaded.iter().any(|l| name_of(l.0) == f.0),
                    "after a failed open there is {} although it was never completely loaded: {files:?}",
                    f.0
                );
            }
        }
        // dependencies that were complete may stay or go
        self.model.loaded.retain(|l| files.iter().any(|f| f.0 == name_of(l.0)));
        Ok(())
    }

    /// One operation.
    pub fn step(&mut self, op: &str, look: Look, c: &mut Ctx) -> Verdict {
        let b = op.as_bytes();
        let env = self.env.borrow().nodes.clone();
        let from = hash(&(&self.model, &env));
        c.states.insert(from);
        match b[0] {
            b'o' | b'q' => {
                // o1 opens one file, q12 several at once
                let ids: Vec<usize> = match b[0] {
                    b'o' => vec![op[1..].parse().unwrap()],
                    _ => b[1..].iter().map(|d| (d - b'0') as usize).collect(),
                };
                let mut before = self.model.clone();
                let mut want = Ok(());
                for i in &ids {
                    before = self.model.clone();
                    want = self.model.open(*i, &env);
                    if want.is_err() {
                        break;
                    }
                }
                let comp = &mut self.compiler;
                let got = guarded(|| {
                    if b[0] == b'o' {
                        comp.open_file(name_of(ids[0])).map(|_| ())
                    } else {
                        comp.open_files(ids.iter().map(|i| name_of(*i))).map(|_| ())
                    }
                })?;
                c.impl_runs += 1;
                match (&got, &want) {
                    (Ok(()), Ok(())) => c.accepted += 1,
                    (Err(e), Err(w)) => {
                        c.rejected += 1;
                        c.outcomes.insert(hash(w));
                        if look.error {
                            judge_error(e, w, &env, look)?;
                        }
                    }
                    (Ok(()), Err(w)) => return Err(format!("{op} succeeds, the model expects {w:?}")),
                    (Err(e), Ok(())) => return Err(format!("{op} fails with {:?}, the model expects success", e.to_string())),
                }
                if want.is_err() {
                    self.resync(&before, look)?;
                }
            }
            b'k' => {
                // k1S: from now on, file 1 is of kind S
                let i = (b[1] - b'0') as usize;
                self.env.borrow_mut().nodes[i].kind = Kind::of(b[2] as char);
            }
            b'i' => {
                self.imports = b[1] == b'+';
                self.compiler.include_imports(self.imports);
            }
            b's' => {
                self.info = b[1] == b'+';
                self.compiler.include_source_info(self.info);
            }
            _ => panic!("op {op}"),
        }
        let env = self.env.borrow().nodes.clone();
        let to = hash(&(&self.model, &env));
        c.transitions.insert(from.rotate_left(9) ^ hash(&op) ^ to.rotate_left(31));
        c.outcomes.insert(hash(&self.model.loaded));
        Ok(())
    }
}

fn replay(parts: &[String], look: Look, every: bool, c: &mut Ctx) -> Verdict {
    let nodes: Vec<Node> = parts[..parts.len() - 1].iter().map(|s| parse_node(s)).collect();
    let ops = choose(&parts[parts.len() - 1]);
    let mut r = Run::new(nodes);
    for op in ops.split_whitespace() {
        r.step(op, look, c).map_err(|w| format!("at {op}: {w}"))?;
        if look.set {
            r.judge_set().map_err(|w| format!("after {op}: {w}"))?;
        }
        if every {
            r.look(look).map_err(|w| format!("after {op}: {w}"))?;
        }
    }
    r.finish(look)
}

const NOTHING: Look = Look { set: false, error: false, locate: false, output: false, content: false };

/// C20: closure, order, flags.
pub fn j_set(parts: &[String], c: &mut Ctx) -> Verdict {
    replay(parts, Look { set: true, ..NOTHING }, true, c)
}
/// C21: errors.
pub fn j_error(parts: &[String], c: &mut Ctx) -> Verdict {
    replay(parts, Look { error: true, ..NOTHING }, true, c)
}
/// C22: state after failures.
pub fn j_history(parts: &[String], c: &mut Ctx) -> Verdict {
    // the outputs of every prefix are judged too: the prefix is a history of its own
    replay(parts, Look { set: true, output: true, content: true, ..NOTHING }, false, c)
}
/// C25: outputs.
pub fn j_output(parts: &[String], c: &mut Ctx) -> Verdict {
    replay(parts, Look { output: true, content: true, ..NOTHING }, true, c)
}
/// C30: classes and places of errors.
pub fn j_locate(parts: &[String], c: &mut Ctx) -> Verdict {
    replay(parts, Look { error: true, locate: true, ..NOTHING }, true, c)
}

/// C29: all orders of opening the given files give the same files.
pub fn j_orders(parts: &[String], c: &mut Ctx) -> Verdict {
    let nodes: Vec<Node> = parts[..parts.len() - 1].iter().map(|s| parse_node(s)).collect();
    let mut reference: Option<BTreeMap<String, (bool, FileDescriptorProto)>> = None;
    for way in parts[parts.len() - 1].split('|') {
        let way = choose(way);
        let mut r = Run::new(nodes.clone());
        for op in way.split_whitespace() {
            r.step(op, NOTHING, c)?;
        }
        let flags: BTreeMap<String, bool> =
            guarded(|| r.compiler.files().map(|f| (f.name().to_owned(), f.is_import())).collect::<BTreeMap<_, _>>())?;
        let (set, _) = outputs(&mut r.compiler, true, true)?;
        let mut got = BTreeMap::new();
        for f in set.file {
            let name = f.name().to_owned();
            let flag = *flags.get(&name).ok_or_else(|| format!("{name} is in the output only"))?;
            ensure!(got.insert(name.clone(), (flag, f)).is_none(), "{name} is in the output twice");
        }
        ensure!(got.len() == flags.len(), "output {:?} and files {:?} differ", got.keys(), flags.keys());
        // opening everything again changes nothing
        let env = r.env.clone();
        let loads = env.borrow().opens;
        for (name, (flag, _)) in &got {
            if !flag {
                let comp = &mut r.compiler;
                guarded(|| comp.open_file(name).map(|_| ()))?.map_err(|e| format!("opening {name} again fails: {e}"))?;
            }
        }
        let _ = loads;
        let (again, _) = outputs(&mut r.compiler, true, true)?;
        ensure!(again.file.len() == got.len(), "opening files again changes the set");
        for f in &again.file {
            ensure!(got[f.name()].1 == *f, "opening files again changes {}", f.name());
        }
        match &reference {
            None => reference = Some(got),
            Some(w) => {
                for (n, g) in &got {
                    let Some(e) = w.get(n) else { return Err(format!("{way}: {n} is compiled, but not by the first order")) };
                    ensure!(e.0 == g.0, "{way}: import flag of {n} is {}, {} by the first order", g.0, e.0);
                    ensure!(e.1 == g.1, "{way}: {n} is {}\nby the first order {}", short(&format!("{:?}", g.1)), short(&format!("{:?}", e.1)));
                }
                ensure!(w.len() == got.len(), "{way}: {:?} are compiled, {:?} by the first order", got.keys(), w.keys());
            }
        }
    }
    // each file alone
    let all = reference.unwrap();
    for (n, (_, f)) in &all {
        let mut r = Run::new(nodes.clone());
        let comp = &mut r.compiler;
        guarded(|| comp.open_file(n).map(|_| ()))?.map_err(|e| format!("{n} alone fails: {e}"))?;
        let (set, _) = outputs(&mut r.compiler, true, true)?;
        c.impl_runs += 1;
        let alone = set.file.iter().find(|f| f.name() == n).ok_or_else(|| format!("{n} alone is not compiled"))?;
        ensure!(alone == f, "{n} alone is {}\ntogether {}", short(&format!("{alone:?}")), short(&format!("{f:?}")));
    }
    Ok(())
}

/// C25: the outputs of a file with nested messages. parts: "depth=N;"
pub fn j_nest(parts: &[String], c: &mut Ctx) -> Verdict {
    let n: usize = parts[0].trim_start_matches("depth=").trim_end_matches(';').parse().unwrap();
    let mut src = String::new();
    for i in 0..n {
        write!(src, "message M{i} {{ ").unwrap();
    }
    src += &"} ".repeat(n);
    struct Only(String);
    impl FileResolver for Only {
        fn open_file(&self, name: &str) -> Result<File, Error> {
            File::from_source(name, &self.0)
        }
    }
    let mut comp = Compiler::with_file_resolver(Only(src));
    c.states.insert(hash(&n));
    c.transitions.insert(hash(&n));
    c.outcomes.insert(hash(&n));
    let r = guarded(|| comp.open_file("a.proto").map(|_| ()))?;
    c.impl_runs += 1;
    if r.is_err() {
        c.rejected += 1;
        return Ok(());
    }
    c.accepted += 1;
    for (a, b) in [(false, false), (true, true), (true, false), (false, true)] {
        let (set, bytes) = outputs(&mut comp, a, b)?;
        let d = FileDescriptorSet::decode(bytes.as_slice()).map_err(|e| format!("the encoded set does not decode: {e}"))?;
        ensure!(d == set, "the encoded set decodes to another");
    }
    Ok(())
}

/// C25: the outputs of files with next to nothing in them. parts: text of a.proto, text of b.proto, where b.proto is imported from a.proto ("", "1")
pub fn j_small(parts: &[String], c: &mut Ctx) -> Verdict {
    struct Two(String, String);
    impl FileResolver for Two {
        fn open_file(&self, name: &str) -> Result<File, Error> {
            match name {
                "a.proto" => File::from_source(name, &self.0),
                "b.proto" => File::from_source(name, &self.1),
                _ => Err(Error::file_not_found(name)),
            }
        }
    }
    let import = parts[2] == "1";
    let a = if import { format!("import 'b.proto';{}", parts[0]) } else { parts[0].clone() };
    let texts = [("a.proto", a), ("b.proto", parts[1].clone())];
    let mut comp = Compiler::with_file_resolver(Two(texts[0].1.clone(), texts[1].1.clone()));
    c.states.insert(hash(&parts));
    for (step, name) in [(0, "a.proto"), (1, "b.proto")] {
        guarded(|| comp.open_file(name).map(|_| ()))?.map_err(|e| format!("{name}: {e:?}"))?;
        c.impl_runs += 1;
        c.accepted += 1;
        for (imports, info) in [(false, false), (true, false), (true, true), (false, true)] {
            comp.include_imports(imports).include_source_info(info);
            let (set, bytes) = outputs(&mut comp, imports, info)?;
            c.transitions.insert(hash(&(step, parts, imports, info)));
            let names: Vec<&str> = set.file.iter().map(|f| f.name()).collect();
            let want: &[&str] = match (step, import, imports) {
                (0, true, true) | (1, true, _) => &["b.proto", "a.proto"],
                (0, _, _) => &["a.proto"],
                _ => &["a.proto", "b.proto"],
            };
            let mut sorted = names.clone();
            sorted.sort();
            let mut w = want.to_vec();
            w.sort();
            ensure!(sorted == w, "the set has {names:?}, expected {want:?}");
            ensure!(!import || names.len() < 2 || names[0] == "b.proto", "b.proto, which a.proto imports, stands after it");
            for f in &set.file {
                let text = &texts.iter().find(|t| t.0 == f.name()).unwrap().1;
                let parsed = File::from_source(f.name(), text).map_err(|e| e.to_string())?;
                let want = parsed.file_descriptor_proto().source_code_info.clone().filter(|_| info);
                // option checking may renumber the paths
                let spans = |i: &Option<prost_types::SourceCodeInfo>| i.as_ref().map(|i| i.location.iter().map(|l| l.span.clone()).collect::<Vec<_>>());
                ensure!(spans(&f.source_code_info) == spans(&want), "with source info {info}, imports {imports}: {} has {:?}, expected {want:?}", f.name(), f.source_code_info);
                ensure!(want.is_some() == info, "{}: there is no source info", f.name());
            }
            c.outcomes.insert(hash(&bytes));
            let d = FileDescriptorSet::decode(bytes.as_slice()).map_err(|e| format!("the encoded set does not decode: {e}"))?;
            ensure!(d == set, "with source info {info}, imports {imports}: the encoded set decodes to {d:?}, the set is {set:?}");
        }
    }
    Ok(())
}
