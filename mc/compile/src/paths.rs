//! Include directories: a model of path resolution over lists of components, and the real resolver on real files.

use crate::engine::*;
use crate::families::{fam, lists};
use crate::graph::{ensure, hash};
use protox::file::{ChainFileResolver, FileResolver, IncludeFileResolver};
use protox::Compiler;
use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::Mutex;

/// Where a file may stand in a layout. A layout is a set of these, as bits;
/// the last bit puts a plain file where there is a directory otherwise.
const PLACES: [&str; 6] = ["x.proto", "a/x.proto", "a/b/x.proto", "b/x.proto", "a/a/x.proto", "b/b/x.proto"];
const PLAIN: usize = 64;
/// A layout of its own: directories with odd names.
const ODD: usize = 1000;
const ODD_DIRS: [&str; 20] = [
    "\u{fffd}one", "link",
    "one", "ONE", "One", "one ", " one", "one.", ".one", "o,ne", "o;ne", "o:ne", "öne", "o\u{308}ne", "..one", "one..", "...", "o=ne", "-one", "o'\\ne",
];
const ODD_FILES: [&str; 7] = ["\u{fffd}.proto", "x.proto", "X.proto", "x.PROTO", " x.proto", "x.proto ", "x.proto."];

/// The replacement character stands for a byte that is not UTF-8; "link" is a link to "one".
pub fn os(s: &str) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    let mut b = vec![];
    for c in s.chars() {
        match c {
            '\u{fffd}' => b.push(0xff),
            c => b.extend(c.to_string().bytes()),
        }
    }
    PathBuf::from(std::ffi::OsString::from_vec(b))
}

static LOCK: Mutex<Option<HashSet<usize>>> = Mutex::new(None);

fn content(place: &str) -> String {
    format!("syntax = \"proto3\"; message {} {{}}", at(place))
}
fn at(place: &str) -> String {
    let odd = |c: char| match c {
        'a'..='z' | 'A'..='Z' => c.to_string(),
        '/' => "_".into(),
        _ => format!("_{:x}_", c as u32),
    };
    format!("At_{}", place.chars().map(odd).collect::<String>())
}

fn exists(layout: usize, place: &[String]) -> bool {
    let p = place.join("/");
    if layout == ODD {
        let (d, f) = p.split_once('/').unwrap_or(("", &p));
        return (d.is_empty() || ODD_DIRS.contains(&d)) && ODD_FILES.contains(&f);
    }
    if layout & PLAIN != 0 && p.starts_with("b/") {
        return false;
    }
    if let Some(i) = PLACES.iter().position(|x| *x == p) {
        return layout >> i & 1 == 1;
    }
    ["m/i0.proto", "m/i1.proto", "m/i2.proto", "m/i3.proto"].contains(&p.as_str())
}

fn is_dir(layout: usize, place: &[String]) -> bool {
    let p = place.join("/");
    if layout == ODD {
        return p.is_empty() || ODD_DIRS.contains(&p.as_str());
    }
    ["", "a", "a/b", "a/a", "m"].contains(&p.as_str()) || layout & PLAIN == 0 && ["b", "b/b"].contains(&p.as_str())
}

const IMPORTED: [&str; 4] = ["x.proto", "a/x.proto", "b/x.proto", "a/b/x.proto"];

fn make(layout: usize) -> PathBuf {
    let root = crate::scratch().join(format!("l{layout}"));
    if layout == ODD {
        for d in ODD_DIRS.iter().chain([&"."]) {
            if *d == "link" {
                std::os::unix::fs::symlink("one", root.join(d)).unwrap();
                continue;
            }
            std::fs::create_dir_all(root.join(os(d))).unwrap();
            for f in ODD_FILES {
                let p = if *d == "." { f.to_owned() } else { format!("{d}/{f}") };
                std::fs::write(root.join(os(&p)), content(&p)).unwrap();
            }
        }
        return root;
    }
    for d in ["a/b", "a/a", "m"] {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    if layout & PLAIN != 0 {
        std::fs::write(root.join("b"), "not a directory").unwrap();
    } else {
        std::fs::create_dir_all(root.join("b/b")).unwrap();
    }
    for (i, p) in PLACES.iter().enumerate() {
        if layout >> i & 1 == 1 && exists(layout, &[p.to_string()]) {
            std::fs::write(root.join(p), content(p)).unwrap();
        }
    }
    for (i, n) in IMPORTED.iter().enumerate() {
        std::fs::write(root.join(format!("m/i{i}.proto")), format!("import \"{n}\";")).unwrap();
    }
    root
}

/// A path as the model sees it: absolute or not, whether it starts with '.', and its components without '.'.
#[derive(Clone, PartialEq, Eq, Debug)]
struct P {
    abs: bool,
    dot: bool,
    parts: Vec<String>,
}
fn read(s: &str) -> P {
    let abs = s.starts_with('/');
    let all: Vec<&str> = s.split('/').filter(|c| !c.is_empty()).collect();
    P {
        abs,
        dot: !abs && all.first() == Some(&"."),
        parts: all.iter().filter(|c| **c != ".").map(|c| c.to_string()).collect(),
    }
}
fn under<'a>(p: &'a P, dir: &P) -> Option<&'a [String]> {
    if p.abs != dir.abs || !p.parts.starts_with(&dir.parts) {
        return None;
    }
    Some(&p.parts[dir.parts.len()..])
}
fn named(parts: &[String]) -> bool {
    !parts.is_empty() && !parts.iter().any(|c| c == ".." || c.contains('\u{fffd}'))
}

/// The place of a path in the layout, with `..` taken away lexically (links do not lead out of their directory).
fn place(root: &P, p: &P) -> Option<Vec<String>> {
    let mut v: Vec<String> = if p.abs { vec![] } else { root.parts.clone() };
    for c in &p.parts {
        if c == ".." {
            v.pop()?;
        } else {
            v.push(c.clone());
        }
    }
    let mut v = v.strip_prefix(root.parts.as_slice())?.to_vec();
    if v.first().is_some_and(|d| d == "link") {
        v[0] = "one".into();
    }
    Some(v)
}

#[derive(PartialEq, Eq, Debug, Clone, Hash)]
enum Want {
    /// name, place of the file
    Opened(String, String),
    NotIncluded,
    Shadowed(String),
    /// There is a directory of that name.
    Io,
    /// The same file is open under another name, and its definitions clash.
    Clash,
}

struct Model {
    root: P,
    layout: usize,
    includes: Vec<P>,
}
impl Model {
    fn find(&self, name: &[String]) -> Option<P> {
        self.includes.iter().find_map(|i| {
            let mut p = i.clone();
            p.parts.extend(name.iter().cloned());
            let at = place(&self.root, &p)?;
            exists(self.layout, &at).then_some(p)
        })
    }
    fn resolve(&self, p: &P) -> Option<Vec<String>> {
        self.includes.iter().find_map(|i| under(p, i).filter(|r| named(r)).map(|r| r.to_vec()))
    }
    /// The first answer is what must happen; a second is admitted where the documentation leaves it open.
    fn open(&self, p: &P) -> (Want, Option<Want>) {
        let (name, resolved) = match self.resolve(p) {
            Some(n) => (n, true),
            None if !p.abs && !p.dot && named(&p.parts) => (p.parts.clone(), false),
            None => return (Want::NotIncluded, None),
        };
        if let Some(first) = self.includes.iter().find_map(|i| {
            let mut p = i.clone();
            p.parts.extend(name.iter().cloned());
            let at = place(&self.root, &p)?;
            (exists(self.layout, &at) || is_dir(self.layout, &at)).then_some(at)
        }) {
            if is_dir(self.layout, &first) {
                return (Want::Io, self.find(&name).is_none().then_some(Want::NotIncluded));
            }
        }
        let Some(f) = self.find(&name) else { return (Want::NotIncluded, None) };
        let opened = Want::Opened(name.join("/"), place(&self.root, &f).unwrap().join("/"));
        if resolved && (f.abs != p.abs || f.parts != p.parts) {
            // a path that names no existing file might as well be taken as a name to look up
            let open_too = !place(&self.root, p).is_some_and(|a| exists(self.layout, &a));
            return (Want::Shadowed(name.join("/")), open_too.then_some(opened));
        }
        (opened, None)
    }
}

/// parts: layout, includes separated by '|', then paths to open in turn with one compiler ('@' stands for the layout's root)
pub fn j_paths(parts: &[String], c: &mut Ctx) -> Verdict {
    let layout: usize = parts[0].parse().unwrap();
    let mut lock = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let root = crate::scratch().join(format!("l{layout}"));
    if lock.get_or_insert_with(HashSet::new).insert(layout) {
        make(layout);
    }
    std::env::set_current_dir(&root).unwrap();
    let abs = root.to_str().unwrap();
    let expand = |s: &str| s.replace('@', abs);
    let includes: Vec<String> = parts[1].split('|').map(expand).collect();
    let m = Model { root: read(abs), layout, includes: includes.iter().map(|s| read(s)).collect() };

    let mut chain = ChainFileResolver::new();
    for i in &includes {
        chain.add(IncludeFileResolver::new(os(i)));
    }
    let mut compiler = Compiler::new(includes.iter().map(|i| os(i))).map_err(|e| e.to_string())?;
    // files compiled: name, place, whether an import only
    let mut open: Vec<(String, String, bool)> = vec![];
    let mut state = hash(&(layout, &parts[1]));
    for path in &parts[2..] {
        let path = expand(path);
        let p = read(&path);
        let want = m.resolve(&p).map(|n| n.join("/"));
        let got = guarded(|| chain.resolve_path(&os(&path)))?;
        ensure!(got == want, "resolve_path({path:?}) is {got:?}, expected {want:?}");
        let (mut want, mut or) = m.open(&p);
        let clashes = |w: &Want| matches!(w, Want::Opened(n, at) if open.iter().any(|o| o.0 != *n && o.1 == *at));
        let known = |w: &Want| matches!(w, Want::Opened(n, _) if open.iter().any(|o| o.0 == *n));
        if clashes(&want) && !known(&want) {
            want = Want::Clash;
        }
        if or.as_ref().is_some_and(|o| clashes(o) && !known(o)) {
            or = Some(Want::Clash);
        }
        c.states.insert(state);
        let got = guarded(|| compiler.open_file(os(&path)).map(|_| ()))?;
        c.impl_runs += 1;
        c.outcomes.insert(hash(&want));
        let fits = |w: &Want| -> Verdict {
            match (w, &got) {
                (Want::Opened(name, at_place), Ok(())) => {
                    let f = compiler.files().find(|f| f.name() == name).ok_or_else(|| {
                        format!("opened under the name {:?}, expected {name:?}", compiler.files().map(|f| f.name().to_owned()).collect::<Vec<_>>())
                    })?;
                    ensure!(!f.is_import(), "{name} is marked as an import");
                    let fp = f.path().ok_or_else(|| format!("{name} has no path"))?;
                    let fpl = place(&m.root, &read(&fp.to_string_lossy())).map(|v| v.join("/"));
                    ensure!(fpl.as_deref() == Some(at_place), "the path of {name} is {fp:?}, expected {at_place:?}");
                    let set = compiler.file_descriptor_set();
                    let d = set.file.iter().find(|f| f.name() == name).ok_or_else(|| format!("{name} is not in the output"))?;
                    if !name.rsplit('/').next().unwrap().starts_with('i') {
                        ensure!(d.message_type[0].name() == at(at_place), "{name} has the content {}, expected {at_place}", d.message_type[0].name());
                    }
                    Ok(())
                }
                (Want::NotIncluded, Err(e)) => {
                    ensure!(e.is_file_not_found() && !e.is_io() && !e.is_parse(), "the error is {e:?}, expected that the file is in no include path");
                    ensure!(e.to_string().contains(&format!("'{}'", os(&path).display())), "the error {e:?} does not name the path {path:?}");
                    Ok(())
                }
                (Want::Shadowed(name), Err(e)) => {
                    ensure!(
                        !e.is_file_not_found() && !e.is_io() && !e.is_parse() && e.file() == Some(name) && e.to_string().contains("shadowed"),
                        "the error is {e:?} (file {:?}), expected that {name} is shadowed",
                        e.file()
                    );
                    // the path asked for comes before the one that is in its way; the advice names them the other way round
                    let asked = format!("'{}'", os(&path).display());
                    let parts: Vec<String> = name.split('/').map(str::to_owned).collect();
                    let found = m.find(&parts).ok_or("nothing is found under the name")?;
                    let spelt: Vec<String> =
                        includes.iter().map(|i| os(i).join(os(name)).display().to_string()).filter(|i| read(i) == found).map(|i| format!("'{i}'")).collect();
                    let said = e.to_string();
                    let help = miette::Diagnostic::help(e).map(|h| h.to_string()).unwrap_or_default();
                    let at = |s: &str, x: &str| s.find(x).ok_or_else(|| format!("{s:?} does not name {x}"));
                    let shadow = spelt.iter().find(|x| said.contains(x.as_str())).ok_or_else(|| format!("{said:?} does not name any of {spelt:?}"))?;
                    ensure!(at(&said, &asked)? < at(&said, shadow)?, "{said:?}: {asked} is shadowed by {shadow}");
                    ensure!(help.is_empty() || at(&help, shadow)? < at(&help, &asked)?, "{help:?}: {shadow} can be opened, or {asked} must come first");
                    Ok(())
                }
                (Want::Io, Err(e)) => {
                    ensure!(e.is_io(), "the error is {e:?}, expected an I/O error");
                    Ok(())
                }
                (Want::Clash, Err(e)) => {
                    ensure!(!e.is_file_not_found() && !e.is_io() && !e.is_parse(), "the error is {e:?}, expected a clash of definitions");
                    Ok(())
                }
                (w, g) => Err(format!("open_file({path:?}) gives {:?}, expected {w:?}", g.as_ref().map_err(|e| e.to_string()))),
            }
        };
        let flags = |open: &[(String, String, bool)]| -> Verdict {
            let mut want: Vec<(String, bool)> = open.iter().map(|o| (o.0.clone(), o.2)).collect();
            let mut got: Vec<(String, bool)> = compiler.files().map(|f| (f.name().to_owned(), f.is_import())).collect();
            want.sort();
            got.sort();
            ensure!(want == got, "after opening {path:?} the files (and whether they are imports only) are {got:?}, expected {want:?}");
            Ok(())
        };
        // m/i<k>.proto imports IMPORTED[k]
        if let Want::Opened(name, name_at) = &want {
            let digit = name.strip_suffix(".proto").and_then(|n| n.chars().last()).and_then(|d| d.to_digit(10));
            if let Some(k) = digit {
                let imported: Vec<String> = IMPORTED[k as usize].split('/').map(|s| s.to_owned()).collect();
                let found = m.find(&imported).map(|f| {
                    let p = place(&m.root, &f).unwrap().join("/");
                    let clash = open.iter().any(|o| o.0 != IMPORTED[k as usize] && o.1 == p) && !open.iter().any(|o| o.0 == IMPORTED[k as usize]);
                    (f, clash)
                });
                match (found, &got) {
                    (Some((_, true)), Err(e)) => {
                        c.rejected += 1;
                        ensure!(!e.is_file_not_found() && !e.is_io() && !e.is_parse(), "the error is {e:?}, expected a clash of definitions");
                    }
                    (Some((f, false)), Ok(())) => {
                        fits(&want)?;
                        let want_at = place(&m.root, &f).unwrap().join("/");
                        let pool = compiler.descriptor_pool();
                        let d = pool.get_file_by_name(IMPORTED[k as usize]).ok_or("the import is not compiled")?;
                        let md = compiler.files().find(|f| f.name() == IMPORTED[k as usize]).ok_or("the import is not listed")?;
                        ensure!(
                            d.file_descriptor_proto().message_type[0].name() == at(&want_at),
                            "the import has the content {}, expected {want_at}",
                            d.file_descriptor_proto().message_type[0].name()
                        );
                        let mp = place(&m.root, &read(&md.path().unwrap().to_string_lossy())).map(|v| v.join("/"));
                        ensure!(mp.as_deref() == Some(want_at.as_str()), "the path of the import is {:?}, expected {want_at}", md.path());
                        c.accepted += 1;
                        if !open.iter().any(|o| o.0 == IMPORTED[k as usize]) {
                            open.push((IMPORTED[k as usize].to_owned(), want_at.clone(), true));
                        }
                        if !open.iter().any(|o| o.0 == *name) {
                            open.push((name.clone(), name_at.clone(), false));
                        }
                    }
                    (None, Err(e)) => {
                        c.rejected += 1;
                        ensure!(e.is_file_not_found() && e.file() == Some(name.as_str()), "the error is {e:?}, expected that the import is not found")
                    }
                    (f, g) => return Err(format!("importing {} gives {:?}, expected {f:?}", IMPORTED[k as usize], g.as_ref().map_err(|e| e.to_string()))),
                }
                flags(&open)?;
                continue;
            }
        }
        if let Err(w) = fits(&want) {
            match or {
                Some(o) if fits(&o).is_ok() => want = o,
                _ => return Err(w),
            }
        }
        match (&got, &want) {
            (Ok(()), Want::Opened(n, p)) => {
                c.accepted += 1;
                match open.iter_mut().find(|o| o.0 == *n) {
                    Some(o) => o.2 = false,
                    None => open.push((n.clone(), p.clone(), false)),
                }
            }
            _ => c.rejected += 1,
        }
        flags(&open)?;
        let next = hash(&(state, &open));
        c.transitions.insert(hash(&(state, &path, next)));
        state = next;
    }
    Ok(())
}

/// Importers and paths opened in turn: what a failed open must not touch.
pub fn shared(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![fam("importing files and opening paths in turn", j_paths, "paths", move |e| {
        let paths = ["i0.proto", "m/i1.proto", "@/m/i2.proto", "i3.proto", "x.proto", "./x.proto", "a/x.proto", "@/a/x.proto", "b/x.proto", "a/b/x.proto"];
        for layout in if deep { vec![1, 3, 5, 6, 7, 15, 31, 63, PLAIN | 31] } else { vec![3, 7, 15, 63] } {
            for inc in lists(&[".", "a", "b", "@/a"], 1, 2) {
                for first in [true, false] {
                    let mut inc: Vec<&str> = inc.clone();
                    inc.insert(if first { 0 } else { inc.len() }, "m");
                    for ps in lists(&paths, 2, if deep { 4 } else { 3 }) {
                        if ps[0].contains('i') || deep && ps.len() < 4 {
                            let mut v = vec![layout.to_string(), inc.join("|")];
                            v.extend(ps.iter().map(|s| s.to_string()));
                            e(v);
                        }
                    }
                }
            }
        }
    })]
}

const INCLUDES: [&str; 11] = [".", "a", "a/b", "b", "./a", "a/", "a/.", "@", "@/a", "@/./b/", ""];
const PATHS: [&str; 24] = [
    "x.proto", "./x.proto", "a/x.proto", "./a/x.proto", "a/./x.proto", "a//x.proto", "a/b/x.proto", "a/a/x.proto", "b/x.proto", "b/b/x.proto",
    "@/x.proto", "@/a/x.proto", "@/a/./b/x.proto", "@//b/x.proto", "a/../x.proto", "../x.proto", "", ".", "a", "@", "ab/x.proto", "@/a/a", "y.proto", "./a/./b/x.proto",
];

pub fn c23(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    let mut v = shared(t);
    v.extend(crate::disk::families(t));
    v.extend(crate::resolvers::texts(t));
    v.extend(crate::sizes::c23(t));
    v.extend(crate::sizes::deep(t));
    v.push(fam("directories and files with odd names", j_paths, "paths", move |e| {
        let incs: Vec<&str> = [".", "@"].into_iter().chain(ODD_DIRS).collect();
        let mut incs: Vec<Vec<String>> = lists(&incs, 1, 2).into_iter().map(|l| l.into_iter().map(|s| s.to_owned()).collect()).collect();
        for d in ODD_DIRS {
            incs.push(vec![format!("@/{d}")]);
            incs.push(vec![format!("./{d}/")]);
            incs.push(vec![format!("@/{d}"), "one".into()]);
        }
        for inc in &incs {
            if !deep && inc.len() == 2 && inc[1] != "one" && inc[0] != "one" && inc[0] != "." {
                continue;
            }
            for f in ODD_FILES {
                e(vec![ODD.to_string(), inc.join("|"), f.into()]);
            }
            for d in ODD_DIRS {
                for lead in ["", "./", "@/"] {
                    e(vec![ODD.to_string(), inc.join("|"), format!("{lead}{d}/x.proto")]);
                }
                for f in &ODD_FILES[1..] {
                    e(vec![ODD.to_string(), inc.join("|"), format!("{d}/{f}")]);
                }
            }
        }
    }));
    v.extend(vec![
        fam("layouts × lists of include directories × paths", j_paths, "paths", move |e| {
            let incs = lists(&INCLUDES, 1, 2);
            for layout in (0..64).chain([PLAIN | 7, PLAIN | 31]) {
                for inc in &incs {
                    for p in PATHS {
                        e(vec![layout.to_string(), inc.join("|"), p.into()]);
                    }
                }
            }
        }),
        fam("three or four include directories", j_paths, "paths", move |e| {
            for inc in lists(if deep { &INCLUDES[..] } else { &["a", "b", "a/b", "."] }, 3, if deep { 3 } else { 4 }) {
                for layout in if deep { vec![7, 15, 9, 31, 55, 63] } else { vec![2, 7, 15, 63, PLAIN | 31] } {
                    for p in ["x.proto", "a/x.proto", "b/x.proto", "a/b/x.proto", "@/a/x.proto"] {
                        e(vec![layout.to_string(), inc.join("|"), p.into()]);
                    }
                }
            }
        }),
        fam("imports by name", j_paths, "paths", move |e| {
            for layout in (0..64).chain([PLAIN | 7, PLAIN | 15, PLAIN | 31]) {
                for inc in lists(&INCLUDES, 0, if deep { 3 } else { 2 }) {
                    for (first, k) in [(true, 0), (true, 1), (false, 0), (false, 1), (true, 2), (false, 2), (true, 3)] {
                        let mut inc: Vec<&str> = inc.clone();
                        inc.insert(if first { 0 } else { inc.len() }, "m");
                        e(vec![layout.to_string(), inc.join("|"), format!("i{k}.proto")]);
                    }
                }
            }
        }),
        fam("the same compiler opens several paths", j_paths, "paths", move |e| {
            for layout in [7, 15, 31, 63, 6, 5] {
                for inc in lists(&[".", "a", "b", "a/b", "@/a"], 1, 2) {
                    for ps in lists(&["x.proto", "./x.proto", "a/x.proto", "@/a/x.proto", "b/x.proto", "a/b/x.proto", "a/./b/x.proto"], 2, if deep { 4 } else { 3 }) {
                        let mut v = vec![layout.to_string(), inc.join("|")];
                        v.extend(ps.iter().map(|s| s.to_string()));
                        e(v);
                    }
                }
            }
        }),
    ]);
    v
}
