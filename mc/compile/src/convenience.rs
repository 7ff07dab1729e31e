//! `protox::compile` beside the compiler it stands for, on real directories.

use crate::engine::*;
use crate::families::{arrangements, dags, digraphs, fam, lists};
use crate::graph::{ensure, expected, hash, name_of, parse_node, show_node, source, Kind, Model, Node, Fail};
use protox::Compiler;
use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::Mutex;

static MADE: Mutex<Option<HashSet<u64>>> = Mutex::new(None);

/// parts: the nodes, then for each the include directory it lies in (a digit), then the files to compile:
/// digits, with '/' before one that is given by its path
pub fn j_convenience(parts: &[String], c: &mut Ctx) -> Verdict {
    crate::graph::choose("");
    let n = parts.len() - 2;
    let nodes: Vec<Node> = parts[..n].iter().map(|s| parse_node(s)).collect();
    let dirs: Vec<usize> = parts[n].bytes().map(|b| (b - b'0') as usize).collect();
    let key = hash(&&parts[..=n]);
    let root: PathBuf = crate::scratch().join("conv").join(format!("{key:x}"));
    {
        let mut m = MADE.lock().unwrap_or_else(|e| e.into_inner());
        if m.get_or_insert_with(HashSet::new).insert(key) {
            for d in 0..3 {
                std::fs::create_dir_all(root.join(d.to_string())).unwrap();
            }
            for (i, node) in nodes.iter().enumerate() {
                let p = root.join(dirs[i].to_string()).join(name_of(i));
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                match node.kind {
                    Kind::Absent => {}
                    Kind::Utf8 => std::fs::write(p, b"// \xff").unwrap(),
                    Kind::IoOpen => std::fs::create_dir(p).unwrap(),
                    _ => std::fs::write(p, source(i, node).0).unwrap(),
                }
            }
        }
    }
    let includes: Vec<PathBuf> = (0..3).map(|d| root.join(d.to_string())).collect();
    let mut files: Vec<PathBuf> = vec![];
    let mut ids: Vec<usize> = vec![];
    let mut by_path = false;
    for b in parts[n + 1].bytes() {
        if b == b'/' {
            by_path = true;
            continue;
        }
        let i = (b - b'0') as usize;
        files.push(if by_path { includes[dirs[i]].join(name_of(i)) } else { name_of(i).into() });
        ids.push(i);
        by_path = false;
    }
    let mut model = Model::default();
    let mut want: Result<(), Fail> = Ok(());
    for i in &ids {
        want = model.open(*i, &nodes);
        if want.is_err() {
            break;
        }
    }
    c.states.insert(key);
    c.transitions.insert(hash(&parts));
    let got = guarded(|| protox::compile(&files, &includes))?;
    let long = guarded(|| {
        let mut comp = Compiler::new(&includes)?;
        comp.include_source_info(true).include_imports(true).open_files(&files)?;
        Ok::<_, protox::Error>(comp.file_descriptor_set())
    })?;
    c.impl_runs += 2;
    match (got, long, want) {
        (Ok(set), Ok(long), Ok(())) => {
            c.accepted += 1;
            c.outcomes.insert(hash(&set.file.iter().map(|f| f.name().to_owned()).collect::<Vec<_>>()));
            let mut names: Vec<&str> = set.file.iter().map(|f| f.name()).collect();
            for (k, f) in set.file.iter().enumerate() {
                let l = model.loaded.iter().find(|l| name_of(l.0) == f.name()).ok_or_else(|| format!("{} is in the output", f.name()))?;
                let want = expected(l.0, l.2.as_ref().unwrap());
                ensure!(*f == *want, "{} is {f:?}, expected {want:?}", f.name());
                for d in &f.dependency {
                    ensure!(names[..k].contains(&d.as_str()), "{d} does not come before {}, which imports it: {names:?}", f.name());
                }
                ensure!(long.file.contains(f), "{} differs from the compiler's", f.name());
            }
            names.sort();
            let mut want: Vec<&str> = model.loaded.iter().map(|l| name_of(l.0)).collect();
            want.sort();
            ensure!(names == want, "the output has {names:?}, expected {want:?}");
            ensure!(long.file.len() == set.file.len(), "the compiler has {} files, the function {}", long.file.len(), set.file.len());
        }
        (Err(a), Err(b), Err(w)) => {
            c.rejected += 1;
            let show = |e: &protox::Error| format!("{e} / {e:?} / {:?} {} {} {}", e.file(), e.is_parse(), e.is_io(), e.is_file_not_found());
            c.outcomes.insert(hash(&w));
            ensure!(show(&a) == show(&b), "the function fails with {}, the compiler with {}", show(&a), show(&b));
        }
        (a, b, w) => {
            return Err(format!("the function gives {:?}, the compiler {:?}, the model {w:?}", a.map(|s| s.file.len()), b.map(|s| s.file.len())));
        }
    }
    Ok(())
}

pub fn families(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![fam("the convenience function on real directories", j_convenience, "convenience", move |e| {
        let show = |g: &[Node], dirs: &str, files: String| -> Vec<String> { g.iter().map(show_node).chain([dirs.to_owned(), files]).collect() };
        for g in dags(3) {
            for dirs in ["000", "012", "210", "101"] {
                e(show(&g, dirs, "".into()));
                for s in lists(&[0, 1, 2], 1, if deep { 4 } else { 3 }) {
                    for paths in 0..2 {
                        let f: String = s.iter().map(|i| format!("{}{i}", if paths == 1 { "/" } else { "" })).collect();
                        e(show(&g, dirs, f));
                    }
                }
            }
        }
        for g in digraphs(3, if deep { 2 } else { 1 }) {
            for at in 0..3 {
                for k in [Kind::Good, Kind::Syntax, Kind::Rule, Kind::IoOpen, Kind::Utf8, Kind::Absent, Kind::Unresolved, Kind::Clash] {
                    let mut g = g.clone();
                    g[at].kind = k;
                    for s in arrangements(&[0, 1, 2], 3).into_iter().filter(|s| s.len() == 3 || s.len() == 1) {
                        e(show(&g, "021", s.iter().map(|i| i.to_string()).collect()));
                    }
                }
            }
        }
        for g in dags(4) {
            for f in ["3210", "0123", "3", "32", "/3/1"] {
                e(show(&g, "0120", f.into()));
            }
        }
    })]
}
