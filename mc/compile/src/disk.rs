//! What may stand on disk where a file or an include directory is expected, and the class of error each is.

use crate::engine::*;
use crate::families::fam;
use crate::graph::{ensure, hash, labelled};
use protox::Compiler;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Class {
    Fine,
    Missing,
    Io,
    Parse,
}
use Class::*;

const KINDS: [(&str, Class); 38] = [
    ("fine", Fine),
    ("empty", Fine),
    ("link", Fine),
    ("link-chain", Fine),
    ("link-relative", Fine),
    ("one-byte", Parse),
    ("directory-link", Fine),
    ("absent", Missing),
    ("dangling", Missing),
    ("below-a-file", Missing),
    ("below-a-file-2", Missing),
    ("below-a-file-5", Missing),
    ("directory-below-a-file", Missing),
    ("directory-below-a-file-3", Missing),
    ("no-directory", Missing),
    ("directory-is-a-file", Missing),
    ("directory-dangling", Missing),
    ("loop", Io),
    ("loop-of-two", Io),
    ("directory", Io),
    ("link-to-directory", Io),
    ("long-name", Io),
    ("long-path", Io),
    ("socket", Io),
    ("directory-loop", Io),
    ("directory-long", Io),
    ("syntax", Parse),
    ("rule", Parse),
    ("utf8-start", Parse),
    ("utf8-end", Parse),
    ("utf8-comment", Parse),
    ("utf8-string", Parse),
    ("utf8-cut", Parse),
    ("utf8-surrogate", Parse),
    ("utf8-late", Parse),
    ("too-large", Parse),
    ("too-large-32", Parse),
    ("utf8-overlong", Parse),
];

const GOOD: &str = "syntax = \"proto3\"; message T { }\n";

/// The name of the file at fault.
fn target(kind: &str) -> String {
    match kind {
        "below-a-file" => "f.proto/t.proto".into(),
        "below-a-file-2" => "f.proto/x/t.proto".into(),
        "below-a-file-5" => "f.proto/x/y.proto/z/u/t.proto".into(),
        "long-name" => format!("{}.proto", "x".repeat(300)),
        "long-path" => format!("{}t.proto", "dir/".repeat(1200)),
        _ => "t.proto".into(),
    }
}

fn make(root: &Path, kind: &str) {
    let main = root.join("main");
    let good = root.join("good");
    let d = root.join("d");
    let t = d.join("t.proto");
    for p in [&main, &good] {
        fs::create_dir_all(p).unwrap();
    }
    fs::write(good.join("t.proto"), GOOD).unwrap();
    fs::write(good.join("f.proto"), "").unwrap();
    fs::write(main.join("i.proto"), format!("// i\n  import \"{}\"; // t\n", target(kind))).unwrap();
    fs::write(main.join("j.proto"), "import \"i.proto\";\n").unwrap();
    match kind {
        "directory-link" => symlink(&good, &d).unwrap(),
        "no-directory" | "directory-long" => {}
        "directory-below-a-file" | "directory-below-a-file-3" => fs::write(&d, "").unwrap(),
        "directory-is-a-file" => fs::write(&d, "").unwrap(),
        "directory-dangling" => symlink(root.join("nowhere"), &d).unwrap(),
        "directory-loop" => symlink(&d, &d).unwrap(),
        _ => fs::create_dir_all(&d).unwrap(),
    }
    let bytes = |b: &[u8]| fs::write(&t, b).unwrap();
    match kind {
        "fine" => bytes(GOOD.as_bytes()),
        "empty" => bytes(b""),
        "one-byte" => bytes(b"x"),
        "link" => symlink(good.join("t.proto"), &t).unwrap(),
        "link-chain" => {
            for i in 0..20 {
                let to = if i == 0 { good.join("t.proto") } else { d.join(format!("l{}", i - 1)) };
                symlink(to, d.join(format!("l{i}"))).unwrap();
            }
            symlink(d.join("l19"), &t).unwrap();
        }
        "link-relative" => symlink("../good/./t.proto", &t).unwrap(),
        "dangling" => symlink(d.join("nowhere"), &t).unwrap(),
        "below-a-file" | "below-a-file-2" | "below-a-file-5" => fs::write(d.join("f.proto"), "").unwrap(),
        "loop" => symlink(&t, &t).unwrap(),
        "loop-of-two" => {
            symlink(d.join("u.proto"), &t).unwrap();
            symlink(&t, d.join("u.proto")).unwrap();
        }
        "directory" => fs::create_dir(&t).unwrap(),
        "link-to-directory" => symlink(&good, &t).unwrap(),
        "socket" => drop(std::os::unix::net::UnixListener::bind(&t)),
        "syntax" => bytes(b"message {"),
        "rule" => bytes(b"message M { optional int32 x = 0; }"),
        "utf8-start" => bytes(b"\xff"),
        "utf8-end" => bytes(b"message T { }\n\x80"),
        "utf8-comment" => bytes(b"// \xc3\x28\nmessage T { }\n"),
        "utf8-string" => bytes(b"option java_package = '\xfe';"),
        "utf8-cut" => bytes(b"// \xe6\xbc"),
        "utf8-surrogate" => bytes(b"// \xed\xa0\x80\n"),
        "utf8-overlong" => bytes(b"// \xc0\xaf\n"),
        "utf8-late" => bytes(&[vec![b'\n'; 100_000], b"// \xf8".to_vec()].concat()),
        "too-large" => fs::File::create(&t).unwrap().set_len(1 << 31).unwrap(),
        "too-large-32" => fs::File::create(&t).unwrap().set_len((1 << 32) + 5).unwrap(),
        _ => {}
    }
}

static MADE: Mutex<Vec<String>> = Mutex::new(vec![]);

/// parts: kind, where the directory stands ("alone", "first", "second": beside one that has a good file), how the file is reached
/// ("name", "path", "import", "deep"), what happened before ("", "good": the compiler has other files already)
pub fn j_disk(parts: &[String], c: &mut Ctx) -> Verdict {
    let (kind, class) = *KINDS.iter().find(|k| k.0 == parts[0]).unwrap();
    let root: PathBuf = crate::scratch().join("disk").join(kind);
    {
        let mut m = MADE.lock().unwrap_or_else(|e| e.into_inner());
        if !m.iter().any(|k| k == kind) {
            make(&root, kind);
            m.push(kind.into());
        }
    }
    if kind == "socket" && !root.join("d/t.proto").exists() {
        return Ok(()); // the path is too long for a socket here
    }
    let t = target(kind);
    let d = match kind {
        "directory-long" => root.join("y".repeat(300)),
        "directory-below-a-file" => root.join("d/x"),
        "directory-below-a-file-3" => root.join("d/x/y/z"),
        _ => root.join("d"),
    };
    let (main, good) = (root.join("main"), root.join("good"));
    let includes = match parts[1].as_str() {
        "alone" => vec![main.clone(), d.clone()],
        "first" => vec![main.clone(), d.clone(), good.clone()],
        _ => vec![main.clone(), good.clone(), d.clone()],
    };
    let good_has = parts[1] != "alone" && good.join(&t).exists();
    let by_path = parts[2] == "path";
    // the class of the open as a whole
    let want = match (parts[1].as_str(), class) {
        ("second", _) if good_has => Fine,
        ("first", Missing) if good_has => Fine,
        _ => class,
    };
    let mut comp = Compiler::new(&includes).map_err(|e| e.to_string())?;
    let mut before: Vec<String> = vec![];
    if parts[3] == "good" {
        fs::write(main.join("other.proto"), "message Other { }").map_err(|e| e.to_string())?;
        guarded(|| comp.open_file("other.proto").map(|_| ()))?.map_err(|e| e.to_string())?;
        before.push("other.proto".into());
    }
    let opened: PathBuf = match parts[2].as_str() {
        "name" => PathBuf::from(&t),
        "path" => d.join(&t),
        "import" => "i.proto".into(),
        _ => main.join("j.proto"),
    };
    let r = guarded(|| comp.open_file(&opened).map(|_| ()))?;
    c.impl_runs += 1;
    c.states.insert(hash(&(kind, &parts[1])));
    c.transitions.insert(hash(&parts));
    let imported = matches!(parts[2].as_str(), "import" | "deep");
    let files: Vec<String> = comp.files().map(|f| f.name().to_owned()).collect();
    let e = match (r, want) {
        (Ok(()), Fine) => {
            c.accepted += 1;
            c.outcomes.insert(hash(&files));
            let f = comp.files().find(|f| f.name() == t).ok_or_else(|| format!("{t:?} is not among {files:?}"))?;
            let from = if parts[1] == "second" || class == Missing { &good } else { &d };
            ensure!(f.path() == Some(&from.join(&t)), "the path is {:?}, expected {:?}", f.path(), from.join(&t));
            return Ok(());
        }
        (Ok(()), _) => return Err(format!("{kind}: the file is compiled, expected an error of class {want:?}")),
        (Err(e), Fine) => return Err(format!("{kind}: {e:?}, expected success")),
        (Err(e), _) => e,
    };
    c.rejected += 1;
    c.outcomes.insert(hash(&(want, e.to_string())));
    let ctx = || format!("{e:?} (file {:?}, parse/io/notfound {}{}{})", e.file(), e.is_parse() as u8, e.is_io() as u8, e.is_file_not_found() as u8);
    ensure!(
        (e.is_parse(), e.is_io(), e.is_file_not_found()) == (want == Parse, want == Io, want == Missing),
        "{kind}: expected an error of class {want:?}: {}",
        ctx()
    );
    if want == Missing && imported {
        let stmt = format!("import \"{t}\";");
        ensure!(e.file() == Some("i.proto"), "{kind}: the error is one of i.proto: {}", ctx());
        let (text, n) = labelled(&e).ok_or_else(|| format!("{kind}: no source text: {}", ctx()))?;
        ensure!(text == stmt && n.as_deref() == Some("i.proto"), "{kind}: the label covers {text:?} of {n:?}: {}", ctx());
        ensure!(format!("{e:?}").starts_with("i.proto:2:3: "), "{kind}: the statement stands at i.proto:2:3: {}", ctx());
    } else if want != Missing {
        ensure!(e.file() == Some(t.as_str()), "{kind}: the error is one of {t:?}: {}", ctx());
    } else {
        ensure!(e.to_string().contains(if by_path { opened.to_str().unwrap() } else { &t }), "{kind}: the error does not name {opened:?}: {}", ctx());
    }
    if kind.starts_with("too-large") {
        let help = miette::Diagnostic::help(&e).map(|h| h.to_string()).unwrap_or_default();
        ensure!(
            e.to_string().contains("large") && e.to_string().contains(&t) && (help.is_empty() || help.replace(',', "").contains("2147483647")),
            "{kind}: {help:?} is not the limit, or the message does not say what is too large: {}",
            ctx()
        );
    }
    if kind.starts_with("utf8") {
        ensure!(e.to_string().to_lowercase().contains("utf"), "{kind}: the message does not speak of UTF-8: {}", ctx());
    }
    if want == Io {
        // a name that is too long is so in the first directory
        let at = if kind == "long-name" || kind == "long-path" { &main } else { &d };
        ensure!(e.to_string().contains(at.join(&t).to_str().unwrap()), "{kind}: the error does not name the path: {}", ctx());
        // the cause as the system states it
        let cause = fs::read(at.join(&t)).err().map(|e| (e.kind(), e.raw_os_error(), e.to_string()));
        let mut s = std::error::Error::source(&e);
        let mut found = false;
        while let Some(x) = s {
            if let Some(io) = x.downcast_ref::<std::io::Error>() {
                found = found || cause.as_ref().is_none_or(|c| (c.0, c.1) == (io.kind(), io.raw_os_error()));
            }
            s = x.source();
        }
        ensure!(found, "{kind}: the sources of the error do not lead to its cause {cause:?}: {}", ctx());
        ensure!(cause.as_ref().is_none_or(|c| format!("{e:?}").contains(&c.2)), "{kind}: the debug form does not state the cause {cause:?}: {}", ctx());
    }
    ensure!(files == before, "{kind}: after a failed open there are {files:?}, {before:?} before");
    Ok(())
}

pub fn families(_: &str) -> Vec<Family> {
    vec![fam("what stands on disk where a file is expected", j_disk, "disk", move |e| {
        for (kind, class) in KINDS {
            for pos in ["alone", "first", "second"] {
                for way in ["name", "path", "import", "deep"] {
                    // a path into a directory that is not the one the name is found in is another matter
                    if way == "path" && (pos == "second" || pos == "first" && class == Missing) {
                        continue;
                    }
                    for before in ["", "good"] {
                        e(vec![kind.into(), pos.into(), way.into(), before.into()]);
                    }
                }
            }
        }
    })]
}
