//! The command line tool against the library, for every combination of options.

use crate::engine::*;
use crate::families::{fam, lists, product};
use crate::graph::{ensure, hash};
use crate::paths::os;
use protox::Compiler;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Once;

fn root() -> PathBuf {
    static ONCE: Once = Once::new();
    let d = crate::scratch().join("cli");
    ONCE.call_once(|| {
        for (p, s) in [
            ("a.proto", "syntax = \"proto3\"; // c\nmessage A { int32 x = 1; }\n"),
            ("b.proto", "import \"dep.proto\";\nimport \"google/protobuf/descriptor.proto\";\nextend google.protobuf.MessageOptions { optional int32 o = 50000; }\n/* m */ message B { optional Dep d = 1; option (o) = 7; }\n"),
            ("dep.proto", "message Dep { }\n"),
            ("inc/c.proto", "import \"d.proto\"; message C { optional D d = 1; }\n"),
            ("inc2/d.proto", "// dep\nmessage D { }\n"),
            ("inc/dep.proto", "message Dep { optional int32 from_inc = 1; }\n"),
            ("bad.proto", "message {\n"),
            ("unresolved.proto", "message U { optional Nowhere n = 1; }\n"),
            ("missing.proto", "import \"nothere.proto\";\n"),
            ("with space.proto", "message W { }\n"),
            ("long.proto", "// A comment that is long enough.\nmessage Long { optional int32 a_rather_long_name = 1; optional int32 and_another = 2; }\n"),
        ] {
            let f = d.join(p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, s).unwrap();
        }
        for i in 0..260 {
            let f = d.join(format!("n/f{i}.proto"));
            std::fs::create_dir_all(d.join("n")).unwrap();
            std::fs::create_dir_all(d.join(format!("e/{i}"))).unwrap();
            std::fs::write(f, format!("// file {i}\npackage f{i};\nmessage F {{ optional F f = {}; }}", i + 1)).unwrap();
            std::fs::write(d.join(format!("e/{i}/e{i}.proto")), format!("import 'n/f{i}.proto'; message E{i} {{ optional f{i}.F f = 1; }}")).unwrap();
        }
        for f in ODD_FILES {
            std::fs::write(d.join(os(f)), format!("// {f}\nmessage F{} {{ }}\n", f.len())).unwrap();
        }
        for (i, o) in ODD_DIRS.iter().enumerate() {
            std::fs::create_dir_all(d.join(os(o))).unwrap();
            std::fs::write(d.join(os(o)).join("o.proto"), format!("message O {{ optional int32 f{i} = 1; }}\n")).unwrap();
        }
        std::env::set_current_dir(&d).unwrap();
    });
    d
}

const ODD_DIRS: [&str; 16] =
    ["\u{fffd}i", "i,j", "i", "j", "i j", "i:j", "i;j", "i=j", "=i", "ünï", "-i", "'i'", "i\\j", "$HOME", "~", "*"];
const ODD_FILES: [&str; 16] = [
    "\u{fffd}.proto",
    "a,b.proto", "k=v.proto", "ü.proto", "-x.proto", "--x", "a:b.proto", "@f.proto", "*.proto", "a;b.proto", "~.proto", "q'.proto", "A.proto", " s.proto", "t.proto ", "no_extension",
];

/// parts: the arguments, one per line ('@OUT' stands for an output path, '@DIR' for one in a directory that does not exist);
/// what stands at the output path before ("as:" or "rel:" and its name, "" nothing, "old" a file, "long" one longer than any output, "dir" a directory,
/// "link" a link to a file, "dangling" one to nothing); then what the arguments mean: includes, files, imports, info
pub fn j_cli(parts: &[String], c: &mut Ctx) -> Verdict {
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = root();
    let n = N.fetch_add(1, Relaxed);
    // "as:" an output path with an odd name, "rel:" the same given relative to the working directory
    let (out, given, out_dir) = if let Some(name) = parts[1].strip_prefix("as:") {
        let d = crate::scratch().join(format!("cli-out-{n}"));
        std::fs::create_dir(&d).unwrap();
        (d.join(os(name)), format!("{}/{name}", d.to_str().unwrap()), Some(d))
    } else if let Some(name) = parts[1].strip_prefix("rel:") {
        let d = dir.join(format!("out-{n}"));
        std::fs::create_dir(&d).unwrap();
        (d.join(os(name)), format!("out-{n}/{name}"), Some(d))
    } else {
        let o = crate::scratch().join(format!("cli-out-{n}"));
        let g = o.to_str().unwrap().to_owned();
        (o, g, None)
    };
    let args: Vec<String> = parts[0]
        .lines()
        .map(|a| a.replace("@OUT", &given).replace("@DIR", dir.join("no/such/dir/o").to_str().unwrap()))
        .collect();
    let list = |s: &str| s.split('|').filter(|s| !s.is_empty()).map(|s| s.to_owned()).collect::<Vec<_>>();
    let (includes, files, imports, info) = (list(&parts[2]), list(&parts[3]), parts[4] == "1", parts[5] == "1");
    let usage = parts[5] == "usage";

    // what the library does
    let lib = guarded(|| -> Result<Vec<u8>, protox::Error> {
        let mut comp = Compiler::new(if includes.is_empty() { vec![".".into()] } else { includes.iter().map(|i| os(i)).collect() })?;
        comp.include_imports(imports).include_source_info(info);
        comp.open_files(files.iter().map(|f| os(f)))?;
        Ok(comp.encode_file_descriptor_set())
    })?;
    // what stands at the output path before: something else, or the same but for the last byte, the first, all of it, or nothing
    let have = lib.as_ref().map_or(vec![b'x'; 100], |b| b.clone());
    let (target, old) = (
        out.with_extension("target"),
        match parts[1].as_str() {
            "long" => vec![b'x'; 100_000],
            "same" => have.clone(),
            "length" => vec![b'x'; have.len()],
            "end" => [&have[..have.len() - 1], b"\xff"].concat(),
            "start" => [b"\xff", &have[1..]].concat(),
            "shorter" => have[..have.len() - 1].to_vec(),
            "longer" => [&have[..], b"\0"].concat(),
            "empty" => vec![],
            _ => b"old content".to_vec(),
        },
    );
    let before = match parts[1].as_str() {
        "old" | "long" | "same" | "length" | "end" | "start" | "shorter" | "longer" | "empty" => {
            std::fs::write(&out, &old).unwrap();
            true
        }
        "dir" => {
            std::fs::create_dir(&out).unwrap();
            false
        }
        "link" => {
            std::fs::write(&target, &old).unwrap();
            std::os::unix::fs::symlink(&target, &out).unwrap();
            true
        }
        "dangling" => {
            std::os::unix::fs::symlink(&target, &out).unwrap();
            false
        }
        _ => false,
    };
    let exe = std::env::current_exe().unwrap().with_file_name("protox-cli");
    let r = std::process::Command::new(exe).args(args.iter().map(|a| os(a))).current_dir(&dir).env_remove("RUST_BACKTRACE").output().map_err(|e| e.to_string())?;
    c.impl_runs += 1;
    c.states.insert(hash(&(&parts[2..], before)));
    c.transitions.insert(hash(&parts));
    let err = String::from_utf8_lossy(&r.stderr).into_owned();
    let code = r.status.code();
    let after = std::fs::read(&out).ok();
    let is_dir = out.is_dir();
    let _ = if is_dir { std::fs::remove_dir(&out) } else { std::fs::remove_file(&out) };
    let _ = std::fs::remove_file(&target);
    let mut others = vec![];
    if let Some(d) = &out_dir {
        others = std::fs::read_dir(d).unwrap().map(|f| f.unwrap().file_name()).collect();
        std::fs::remove_dir_all(d).unwrap();
    }
    let (writes, elsewhere) = (parts[0].contains("@OUT"), parts[0].contains("@DIR") || parts[1] == "dir");
    let untouched = after.as_deref() == before.then_some(&old[..]) && is_dir == (parts[1] == "dir");
    c.outcomes.insert(hash(&(code, after.as_ref().map(|a| a.len()))));
    let show = || format!("exit {code:?}, stderr {err:?}, output file {:?}", after.as_ref().map(|a| a.len()));
    ensure!(!err.contains("panicked"), "the tool panics: {}", show());
    ensure!(others.is_empty(), "there are other files beside the output: {others:?}: {}", show());
    match (&lib, usage) {
        (Ok(bytes), false) if !elsewhere => {
            c.accepted += 1;
            ensure!(code == Some(0), "the library succeeds, but {}", show());
            if writes {
                ensure!(after.as_deref() == Some(bytes.as_slice()), "the output differs from the {} bytes of the library: {}", bytes.len(), show());
            } else {
                ensure!(untouched, "a file was written: {}", show());
            }
        }
        _ => {
            c.rejected += 1;
            ensure!(code.is_some_and(|c| c != 0), "expected a failure: {}", show());
            ensure!(!err.trim().is_empty(), "no diagnostic: {}", show());
            ensure!(untouched, "the output file was touched: {}", show());
            if let (Err(e), false) = (&lib, usage) {
                // the report wraps lines; compare without white space and decoration
                let squeeze = |s: &str| s.chars().filter(|c| c.is_alphanumeric() || "'./".contains(*c)).collect::<String>();
                ensure!(squeeze(&err).contains(&squeeze(&e.to_string())), "the diagnostic does not say {:?}: {}", e.to_string(), show());
            }
        }
    }
    Ok(())
}

fn inc_forms(dirs: &[&str]) -> Vec<Vec<String>> {
    let mut v = vec![];
    for k in 0..7 {
        let mut a: Vec<String> = vec![];
        for d in dirs {
            match k {
                0 => a.extend(["-I".into(), d.to_string()]),
                1 => a.push(format!("-I{d}")),
                2 => a.extend(["--include".into(), d.to_string()]),
                3 => a.push(format!("--include={d}")),
                4 => a.extend(["--proto_path".into(), d.to_string()]),
                5 => a.push(format!("--proto_path={d}")),
                _ => a.push(format!("-I={d}")),
            }
        }
        v.push(a);
    }
    v
}
fn out_forms(path: &str) -> Vec<Vec<String>> {
    vec![
        vec!["-o".into(), path.into()],
        vec![format!("-o{path}")],
        vec!["--output".into(), path.into()],
        vec![format!("--output={path}")],
        vec!["--descriptor_set_out".into(), path.into()],
        vec![format!("--descriptor_set_out={path}")],
    ]
}

pub fn c28(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    let flags = |long: &str| vec![vec![], vec![format!("--{long}")], vec![format!("--{}", long.replace('_', "-"))]];
    vec![
        fam("every form of every option", j_cli, "cli", move |e| {
            let dirs: Vec<Vec<&str>> = vec![vec![], vec!["."], vec!["inc", "inc2"], vec!["inc2", "inc", "."], vec![".", "inc"]];
            let files: Vec<Vec<&str>> = vec![vec!["a.proto"], vec!["b.proto", "a.proto"], vec!["c.proto"]];
            for d in &dirs {
                let forms = if d.is_empty() { vec![vec![]] } else { inc_forms(d) };
                for (fi, inc) in forms.into_iter().enumerate() {
                    let mut outs = out_forms("@OUT");
                    outs.push(vec![]);
                    for (oi, out) in outs.into_iter().enumerate() {
                        for (imports, info) in product(&[flags("include_imports"), flags("include_source_info")]).into_iter().map(|v| (v[0].clone(), v[1].clone())) {
                            for f in &files {
                                for place in 0..2 {
                                    if !deep && (fi + oi + place) % 2 == 1 && fi > 0 && oi > 0 {
                                        continue;
                                    }
                                    let fs: Vec<String> = f.iter().map(|s| s.to_string()).collect();
                                    let args = if place == 0 {
                                        [inc.clone(), out.clone(), imports.clone(), info.clone(), fs].concat()
                                    } else {
                                        [fs, info.clone(), imports.clone(), out.clone(), inc.clone()].concat()
                                    };
                                    e(vec![
                                        args.join("\n"),
                                        "".into(),
                                        d.join("|"),
                                        f.join("|"),
                                        (!imports.is_empty() as u8).to_string(),
                                        (!info.is_empty() as u8).to_string(),
                                    ]);
                                }
                            }
                        }
                    }
                }
            }
        }),
        fam("files, good and bad × settings × an output file that exists", j_cli, "cli", move |e| {
            let files = [
                "a.proto", "b.proto", "./a.proto", "inc/c.proto", "c.proto", "d.proto", "bad.proto", "unresolved.proto", "missing.proto", "nothere.proto",
                "with space.proto", "inc", "../cli/a.proto", "google/protobuf/any.proto",
            ];
            for d in [vec![], vec!["inc", "inc2"], vec![".", "inc", "inc2"], vec!["nosuchdir", "."]] {
                for a in files {
                    for b in [None, Some("a.proto"), Some("bad.proto"), Some("dep.proto")] {
                        for set in 0..4 {
                            for old in ["old", ""] {
                                let mut args: Vec<String> = d.iter().map(|x| format!("-I{x}")).collect();
                                if set & 1 == 1 {
                                    args.push("--include_imports".into());
                                }
                                if set & 2 == 2 {
                                    args.push("--include_source_info".into());
                                }
                                args.extend(["-o".into(), if old == "old" || set < 3 { "@OUT".into() } else { "@DIR".into() }]);
                                let fs: Vec<&str> = [Some(a), b].into_iter().flatten().collect();
                                args.extend(fs.iter().map(|s| s.to_string()));
                                e(vec![args.join("\n"), old.into(), d.join("|"), fs.join("|"), (set & 1).to_string(), (set >> 1).to_string()]);
                            }
                        }
                    }
                }
            }
        }),
        fam("what stands at the output path before", j_cli, "cli", move |e| {
            for f in ["a.proto", "b.proto", "long.proto", "bad.proto", "missing.proto"] {
                for set in 0..4 {
                    for old in ["", "old", "long", "dir", "link", "dangling", "same", "length", "end", "start", "shorter", "longer", "empty"] {
                        for out in out_forms("@OUT") {
                            let mut args = out.clone();
                            if set & 1 == 1 {
                                args.push("--include_imports".into());
                            }
                            if set & 2 == 2 {
                                args.push("--include_source_info".into());
                            }
                            args.push(f.into());
                            e(vec![args.join("\n"), old.into(), "".into(), f.into(), (set & 1).to_string(), (set >> 1).to_string()]);
                        }
                    }
                }
            }
        }),
        fam("include directories and files with odd names", j_cli, "cli", move |e| {
            for d in lists(&ODD_DIRS, 1, if deep { 2 } else { 1 }).into_iter().chain([vec!["j", "i,j"], vec!["i,j", "j"], vec!["i:j", "i"], vec!["i=j", "j", "."]]) {
                for (k, inc) in inc_forms(&d).into_iter().enumerate() {
                    // a value that looks like an option has to be attached
                    if d.iter().any(|d| d.starts_with('-')) && k % 2 == 0 || d.iter().any(|d| d.starts_with('=')) && k == 1 {
                        continue;
                    }
                    let args = [inc, vec!["-o".into(), "@OUT".into(), "o.proto".into()]].concat();
                    e(vec![args.join("\n"), "".into(), d.join("|"), "o.proto".into(), "0".into(), "0".into()]);
                }
            }
            for f in lists(&ODD_FILES, 1, if deep { 2 } else { 1 }).into_iter().chain(ODD_FILES.iter().map(|f| vec!["a.proto", *f])) {
                let fs: Vec<String> = f.iter().map(|s| s.to_string()).collect();
                for dashes in [true, false] {
                    if !dashes && f.iter().any(|f| f.starts_with('-')) {
                        continue;
                    }
                    let mut args: Vec<String> = vec!["-o".into(), "@OUT".into()];
                    if dashes {
                        args.push("--".into());
                    }
                    args.extend(fs.iter().cloned());
                    e(vec![args.join("\n"), "".into(), "".into(), f.join("|"), "0".into(), "0".into()]);
                }
            }
        }),
        fam("output paths with odd names", j_cli, "cli", move |e| {
            let odd = ODD_FILES.into_iter().chain(ODD_DIRS).chain(["o", "é\u{fffd}é", "=", "-", "--", "-o", ",", "o.bin ", "o\to", "%s", "{}", "o.proto", "\u{fffd}\u{fffd}"]);
            for name in odd.filter(|n| !n.contains('\n')) {
                for how in ["as", "rel"] {
                    for out in out_forms("@OUT") {
                        for (f, ok) in [("a.proto", true), ("bad.proto", false)] {
                            if !ok && !deep && how == "rel" {
                                continue;
                            }
                            let args = [out.clone(), vec![f.into()]].concat();
                            e(vec![args.join("\n"), format!("{how}:{name}"), "".into(), f.into(), "0".into(), "0".into()]);
                        }
                    }
                }
            }
        }),
        fam("many files and many include directories", j_cli, "cli", move |e| {
            for n in crate::sizes::sizes(if deep { 72 } else { 20 }, 256) {
                for set in 0..4 {
                    for how in 0..4 {
                        // n files; n include directories of which the last has the file; both; all names twice
                        let (dirs, files): (Vec<String>, Vec<String>) = match how {
                            0 => (vec![], (0..n).map(|i| format!("n/f{i}.proto")).collect()),
                            1 => ((0..n).map(|i| format!("e/{i}")).chain(["../cli".into()]).collect(), vec![format!("e{}.proto", n.max(1) - 1)]),
                            2 => ((0..n).map(|i| format!("e/{i}")).chain([".".into()]).collect(), (0..n).map(|i| format!("e/{i}/e{i}.proto")).collect()),
                            _ => (vec![".".into(); n], (0..n).flat_map(|i| [format!("n/f{}.proto", i / 2), format!("./n/f{i}.proto")]).collect()),
                        };
                        if n == 0 || !deep && how > 1 && set != 0 && set != 3 {
                            continue;
                        }
                        let mut args: Vec<String> = dirs.iter().map(|d| format!("-I{d}")).collect();
                        if set & 1 == 1 {
                            args.push("--include_imports".into());
                        }
                        if set & 2 == 2 {
                            args.push("--include_source_info".into());
                        }
                        args.extend(["-o".into(), "@OUT".into()]);
                        args.extend(files.iter().cloned());
                        e(vec![args.join("\n"), "".into(), dirs.join("|"), files.join("|"), (set & 1).to_string(), (set >> 1).to_string()]);
                    }
                }
            }
        }),
        fam("wrong usage", j_cli, "cli", move |e| {
            for args in [
                vec![], vec!["-o", "@OUT"], vec!["--nosuchoption", "-o", "@OUT", "a.proto"], vec!["a.proto", "-o"], vec!["a.proto", "-o", "@OUT", "-I"],
                vec!["a.proto", "-o", "@OUT", "--include_imports=true"], vec!["a.proto", "-o", "@OUT", "-o", "@OUT"],
                vec!["a.proto", "-o", "@OUT", "--descriptor_set_out", "@OUT"], vec!["-o", "@OUT", "--include_imports", "--include_imports", "a.proto"],
            ] {
                for old in ["old", ""] {
                    e(vec![args.join("\n"), old.into(), "".into(), "a.proto".into(), "0".into(), "usage".into()]);
                }
            }
        }),
    ]
}
