//! Judges that relate several runs of the parser.

use crate::compare::*;
use crate::engine::*;
use prost_types::source_code_info::Location;
use prost_types::FileDescriptorProto;
use protox_parse::ParseError;
use refmodel::lex::Rule;

/// parts: a text and the same tokens laid out differently.
pub fn j_variant(p: &[String], c: &mut Ctx) -> Verdict {
    expect(&p[1], c);
    match (real(&p[0], c)?, real(&p[1], c)?) {
        (Ok(a), Ok(b)) => {
            let (a, _) = normal(a);
            let (b, _) = normal(b);
            same_descriptor(&b, &a).map_err(|e| format!("layout changes the meaning: {e}"))
        }
        (Err(a), Err(b)) => {
            if a.to_string() != b.to_string() {
                // which error comes first may not depend on layout either
                return Err(format!("layout changes the error: {a} / {b}"));
            }
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("layout makes a valid file invalid: {e:?}")),
        (Err(e), Ok(_)) => Err(format!("layout makes an invalid file valid: {e:?}")),
    }
}

/// parts: declarations, each marked V (valid), B (breaks exactly one rule), P (a package statement: each but the first is
/// a broken one) or T (lacks its end, so that the keyword of the next declaration, or the end of the file, is what breaks it).
pub fn j_errors(p: &[String], c: &mut Ctx) -> Verdict {
    let mut src = String::new();
    let mut valid: Vec<(usize, usize)> = vec![];
    let mut broken = vec![];
    let mut packages = vec![];
    let mut cut = vec![];
    let mut ends = false;
    let mut syntax = "";
    for (i, d) in p.iter().enumerate() {
        let text = &d[1..];
        if text.starts_with("syntax") {
            syntax = text;
        }
        let at = src.len();
        src += text;
        if d.starts_with('V') {
            valid.push((at, src.len()));
        } else if d.starts_with('P') {
            packages.push((at, src.len()));
        } else if d.starts_with('T') {
            // where the next declaration begins
            match p.get(i + 1) {
                Some(n) => {
                    let at = src.len() + 1;
                    cut.push((at, at + n[1..].find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(n.len() - 1)));
                }
                None => ends = true,
            }
        } else {
            let alone = format!("{syntax}{text}");
            let m = refmodel::model(NAME, &alone);
            let mut v = m.violations.first().cloned().ok_or("model: a broken declaration breaks no rule")?;
            if is_syntax(v.rule) {
            } else if m.violations.len() != 1 {
                return Err(format!("model: {} violations in {text}", m.violations.len()));
            }
            v.start = v.start - syntax.len() + at;
            v.end = v.end - syntax.len() + at;
            broken.push((v, at, src.len()));
        }
        src.push('\n');
    }
    if packages.len() == 1 {
        valid.append(&mut packages);
    }
    expect(&src, c);
    let e = match (real(&src, c)?, broken.is_empty() && packages.is_empty() && cut.is_empty() && !ends) {
        (Ok(_), true) => return Ok(()),
        (Err(e), true) => return Err(format!("valid declarations are rejected: {e:?}")),
        (Ok(_), false) => return Err("accepted although declarations are broken".into()),
        (Err(e), false) => e,
    };
    well_formed(&e, NAME, &src)?;
    let labels: Vec<(usize, usize)> = diagnostics(&e).iter().flat_map(|d| d.labels.clone()).collect();
    let hit = |v: &refmodel::Violation| {
        labels.iter().any(|l| if v.exact { (v.start, v.end) == *l } else { v.start <= l.0 && l.1 <= v.end })
    };
    for l in &labels {
        if cut.contains(l) {
            continue;
        }
        if let Some(v) = valid.iter().find(|v| l.0 < v.1 && v.0 < l.1.max(l.0 + 1)) {
            return Err(format!("a diagnostic at {l:?} points into the valid declaration {:?}", &src[v.0..v.1]));
        }
    }
    let text = |r: Rule| matches!(r, Rule::ImportPath | Rule::ReservedIdent | Rule::GroupName | Rule::NotUtf8);
    // the rules that are looked at first, and those that are looked at only if the first hold
    let early = !packages.is_empty() || !cut.is_empty() || ends || broken.iter().any(|b| is_syntax(b.0.rule) || text(b.0.rule));
    for l in &cut {
        if !labels.contains(l) {
            return Err(format!("the declaration without an end before {l:?} is not reported (labels {labels:?})"));
        }
    }
    if ends && !diagnostics(&e).iter().any(|d| d.labels.is_empty() || d.labels.iter().any(|l| l.1 == src.len())) {
        return Err(format!("the declaration without an end at the end of the file is not reported (labels {labels:?})"));
    }
    for p in packages.iter().skip(1) {
        if !labels.contains(p) {
            return Err(format!("the repeated package at {p:?} is not reported (labels {labels:?})"));
        }
    }
    for (v, a, b) in &broken {
        if early && !is_syntax(v.rule) && !text(v.rule) {
            continue;
        }
        if !hit(v) {
            return Err(format!("the violation {} at {}..{} in {:?} is not reported (labels {labels:?})", v.rule, v.start, v.end, &src[*a..*b]));
        }
    }
    Ok(())
}

fn shift_path(path: &mut [i32], n: &Counts) {
    if path.len() < 2 {
        return;
    }
    let by = match path[0] {
        3 => n.dep,
        4 => n.msg,
        5 => n.en,
        6 => n.svc,
        7 => n.ext,
        8 if path.len() > 2 => {
            path[2] += n.opt;
            return;
        }
        10 => n.public,
        11 => n.weak,
        _ => return,
    };
    path[1] += by;
}

#[derive(Default)]
struct Counts {
    dep: i32,
    msg: i32,
    en: i32,
    svc: i32,
    ext: i32,
    opt: i32,
    public: i32,
    weak: i32,
}

/// parts: declarations, valid alone; the file made of them (separated by blank lines) is their union.
pub fn j_compose(p: &[String], c: &mut Ctx) -> Verdict {
    let mut n = Counts::default();
    let mut want = FileDescriptorProto { name: Some(NAME.into()), ..Default::default() };
    let mut wlocs: Vec<Location> = vec![];
    let mut src = String::new();
    let mut packages = 0;
    for d in p {
        let line = src.matches('\n').count() as i32;
        src += d;
        src += "\n\n";
        let f = real(&format!("{d}\n\n"), c)?.map_err(|e| format!("a valid declaration is rejected: {e:?}"))?;
        let (f, locs) = normal(f);
        for mut l in locs {
            if l.path.is_empty() {
                continue;
            }
            shift_path(&mut l.path, &n);
            l.span[0] += line;
            if l.span.len() == 4 {
                l.span[2] += line;
            }
            wlocs.push(l);
        }
        if f.package.is_some() {
            packages += 1;
            want.package = f.package;
        }
        want.public_dependency.extend(f.public_dependency.iter().map(|x| x + n.dep));
        want.weak_dependency.extend(f.weak_dependency.iter().map(|x| x + n.dep));
        n.dep += f.dependency.len() as i32;
        n.msg += f.message_type.len() as i32;
        n.en += f.enum_type.len() as i32;
        n.svc += f.service.len() as i32;
        n.ext += f.extension.len() as i32;
        n.public += f.public_dependency.len() as i32;
        n.weak += f.weak_dependency.len() as i32;
        want.dependency.extend(f.dependency);
        want.message_type.extend(f.message_type);
        want.enum_type.extend(f.enum_type);
        want.service.extend(f.service);
        want.extension.extend(f.extension);
        if let Some(o) = f.options {
            n.opt += o.uninterpreted_option.len() as i32;
            want.options.get_or_insert_with(Default::default).uninterpreted_option.extend(o.uninterpreted_option);
        }
    }
    expect(&src, c);
    let got = real(&src, c)?;
    if packages > 1 {
        return if got.is_err() { Ok(()) } else { Err("two packages are accepted".into()) };
    }
    let got = got.map_err(|e| format!("declarations that are valid alone are rejected together: {e:?}"))?;
    let (got, mut glocs) = normal(got);
    same_descriptor(&got, &want)?;
    wlocs.sort_by(|a, b| a.path.cmp(&b.path));
    glocs.retain(|l| !l.path.is_empty());
    if glocs != wlocs {
        let f = |l: &[Location]| l.iter().map(|l| format!("{l:?}")).collect::<Vec<_>>().join("\n");
        return Err(format!("locations or comments change when declarations are put together\n{}", diff(&f(&glocs), &f(&wlocs))));
    }
    Ok(())
}

/// Everything observable of a result.
fn observe(r: &Result<FileDescriptorProto, ParseError>) -> String {
    match r {
        Ok(f) => format!("{f:?}"),
        Err(e) => format!(
            "{e:?} {} {:?} {:?}",
            e,
            e.span(),
            diagnostics(e).iter().map(|d| format!("{} {:?}", d.text, d.labels)).collect::<Vec<_>>()
        ),
    }
}

fn alone(name: &str, src: &str) -> Result<String, String> {
    let (name, src) = (name.to_owned(), src.to_owned());
    std::thread::spawn(move || guarded(|| observe(&protox_parse::parse(&name, &src)))).join().unwrap()
}

/// parts: sources parsed one after another on one thread; each must give what it gives on its own.
/// Runs on other threads at the same time (the other workers' cases), so concurrent calls are exercised too.
pub fn j_history(p: &[String], c: &mut Ctx) -> Verdict {
    let mut base = vec![];
    for s in p {
        base.push(alone(NAME, s)?);
    }
    for s in p {
        expect(s, c);
    }
    c.impl_runs += 3 * p.len() as u64;
    let q = p.to_vec();
    let seen = std::thread::spawn(move || {
        guarded(|| q.iter().map(|s| observe(&protox_parse::parse(NAME, s))).collect::<Vec<_>>())
    })
    .join()
    .unwrap()?;
    for (i, s) in seen.iter().enumerate() {
        if *s != base[i] {
            return Err(format!("call {i} of the history gives something else than alone\n{}", diff(s, &base[i])));
        }
    }
    // and after everything this worker did before
    for (i, s) in p.iter().enumerate() {
        let now = guarded(|| observe(&protox_parse::parse(NAME, s)))?;
        if now != base[i] {
            return Err(format!("call {i} gives something else than alone\n{}", diff(&now, &base[i])));
        }
    }
    // nor may anything have changed what a source means
    for s in p {
        j_all(std::slice::from_ref(s), c)?;
    }
    Ok(())
}

/// parts: a file name and a source; the name shows up as the name and changes nothing else.
pub fn j_naming(p: &[String], c: &mut Ctx) -> Verdict {
    let (name, src) = (&p[0], &p[1]);
    expect(src, c);
    let a = real(src, c)?;
    c.impl_runs += 1;
    match (a, guarded(|| protox_parse::parse(name, src))?) {
        (Ok(a), Ok(b)) => {
            if b.name.as_deref() != Some(name) {
                return Err(format!("the descriptor is named {:?}", b.name));
            }
            let (mut a, mut b) = (a, b);
            a.name = None;
            b.name = None;
            if a != b {
                return Err("the file name changes the descriptor".into());
            }
            Ok(())
        }
        (Err(a), Err(b)) => {
            if b.file() != name || a.to_string() != b.to_string() || a.span() != b.span() {
                return Err(format!("the file name changes the error: {a:?} / {b:?}"));
            }
            Ok(())
        }
        _ => Err("the file name changes acceptance".into()),
    }
}
