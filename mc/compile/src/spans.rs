//! Where import errors point: every way of laying out the statement at fault.

use crate::engine::*;
use crate::families::fam;
use crate::graph::{ensure, hash, label_of, labelled};
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};

struct One {
    name: String,
    source: String,
    on_disk: bool,
}
impl FileResolver for One {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        if name == self.name {
            if self.on_disk {
                let p = crate::scratch().join(format!("span-{:?}.proto", std::thread::current().id()));
                std::fs::write(&p, &self.source).map_err(Error::from)?;
                File::open(name, &p)
            } else {
                File::from_source(name, &self.source)
            }
        } else if name == "ok.proto" {
            File::from_source(name, "")
        } else if let Some(n) = name.strip_suffix(".up").and_then(|n| n.parse::<usize>().ok()) {
            // a chain of importers above the file at fault
            let to = if n == 0 { self.name.clone() } else { format!("{}.up", n - 1) };
            File::from_source(name, &format!("import \"ok.proto\";\n\n  import '{to}';"))
        } else {
            Err(Error::file_not_found(name))
        }
    }
}

/// parts: text before the statement, the statement, text after, "missing" | "twice", depth of importers above, "disk" | "memory"
pub fn j_span(parts: &[String], c: &mut Ctx) -> Verdict {
    let (pre, stmt, post, fault, depth) = (&parts[0], &parts[1], &parts[2], parts[3].as_str(), parts[4].parse::<usize>().unwrap());
    let source = format!("{pre}{stmt}{post}");
    let span = (pre.len(), pre.len() + stmt.len());
    let name = "dir/é.proto";
    let mut comp = Compiler::with_file_resolver(One { name: name.into(), source: source.clone(), on_disk: parts[5] == "disk" });
    let top = if depth == 0 { name.to_owned() } else { format!("{}.up", depth - 1) };
    let r = guarded(|| comp.open_file(&top).map(|_| ()))?;
    c.impl_runs += 1;
    c.rejected += 1;
    c.states.insert(hash(&(stmt, fault, depth)));
    c.transitions.insert(hash(&(pre, stmt, post)));
    c.outcomes.insert(hash(&span));
    let Err(e) = r else { return Err("the compiler accepts the file".into()) };
    let ctx = || format!("{e:?} (file {:?}, label {:?})", e.file(), label_of(&e));
    ensure!(e.file() == Some(name), "the error does not name the importing file: {}", ctx());
    let dup = fault == "twice";
    ensure!(e.is_file_not_found() != dup && !e.is_parse() && !e.is_io(), "wrong class: {}", ctx());
    ensure!(
        e.to_string().contains(if dup { "'ok.proto'" } else { "'missing.proto'" }) && e.to_string().contains("twice") == dup,
        "wrong message: {}",
        ctx()
    );
    ensure!(label_of(&e) == Some(span), "the statement lies at {span:?}: {}", ctx());
    ensure!(format!("{e:?}").ends_with(&e.to_string()), "the debug form does not end with the message: {}", ctx());
    let (t, n) = labelled(&e).ok_or_else(|| format!("no source text: {}", ctx()))?;
    ensure!(t == *stmt && n.as_deref() == Some(name), "the label covers {t:?} of {n:?}: {}", ctx());
    // the debug form begins with the place; how wide characters and carriage returns count there is left open
    let line_start = pre.rfind('\n').map_or(0, |i| i + 1);
    if !pre.replace("\r\n", "\n").contains('\r') {
        let mut at = format!("{name}:{}:", pre.matches('\n').count() + 1);
        if pre[line_start..].is_ascii() {
            at += &format!("{}: ", pre.len() - line_start + 1);
        }
        ensure!(format!("{e:?}").starts_with(&at), "the place is {at:?}: {}", ctx());
    }
    Ok(())
}

const GAPS: [&str; 9] = ["", " ", "\t", "\n", "\r\n", "/*é*/", " // 漢\n", "\n\n  ", "/* a\n é\n*/"];

pub fn families(t: &str) -> Vec<Family> {
    let deep = t == "thorough";
    vec![
        fam("trivia inside an import statement", j_span, "span", move |e| {
            for (fault, target) in [("missing", "'missing.proto'"), ("twice", "\"ok.proto\"")] {
                for how in ["", "public", "weak"] {
                    for g1 in GAPS {
                        for g2 in GAPS {
                            for g3 in GAPS {
                                if how.is_empty() && !g2.is_empty() || !how.is_empty() && g1.is_empty() {
                                    continue;
                                }
                                let stmt = format!("import{g1}{how}{g2}{target}{g3};");
                                for pre in ["", "/* é */ ", "// x\r\n\t", "option java_package = '漢'; "] {
                                    let pre = if fault == "twice" { format!("{pre}import 'ok.proto'; ") } else { pre.to_string() };
                                    e(vec![pre, stmt.clone(), "".into(), fault.into(), "0".into(), "memory".into()]);
                                }
                            }
                        }
                    }
                }
            }
        }),
        fam("what surrounds an import statement × depth × origin", j_span, "span", move |e| {
            let pres = [
                "", "  ", "\t", "/* é */ ", "/*é\n漢*/", "// x\n", "syntax = \"proto3\";\n\n", "\r\n", "\n\n", "; ", "option java_package = 'é';", "package é.x;",
                "message M { }", "/* a */ // b\n", "import 'ok.proto'; ", "import\n'ok.proto'\n;", "import public 'ok.proto';\r\n",
            ];
            let posts = ["", "\n", " // t\n", "message N {}", "import 'alsomissing';", "\r\n/*é*/"];
            for p1 in pres {
                for p2 in pres {
                    if p1.contains("import") && p2.contains("import") || p2.contains("syntax") || p1.contains("package é") || p2.contains("package é") {
                        continue;
                    }
                    for post in posts {
                        let have = p1.contains("import") || p2.contains("import");
                        let mut stmts = vec![("missing", "import 'missing.proto';"), ("missing", "import\n  'missing.proto';"), ("missing", "import \"miss\" \"ing.proto\";")];
                        if have {
                            stmts.push(("twice", "import 'ok.proto';"));
                            stmts.push(("twice", "import weak\r\n'ok.proto' ;"));
                        }
                        for (f, s) in stmts {
                            for d in 0..if deep { 4 } else { 3 } {
                                e(vec![format!("{p1}{p2}"), s.into(), post.into(), f.into(), d.to_string(), "memory".into()]);
                            }
                            if deep || p1.is_empty() || p2.is_empty() {
                                e(vec![format!("{p1}{p2}"), s.into(), post.into(), f.into(), "1".into(), "disk".into()]);
                            }
                        }
                    }
                }
            }
        }),
    ]
}
