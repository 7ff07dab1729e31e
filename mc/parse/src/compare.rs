//! Comparison of the real parser's result with the reference model's, one projection per kind of property.

use crate::engine::{guarded, Ctx, Verdict};
use miette::Diagnostic;
use prost_types::source_code_info::Location;
use prost_types::*;
use protox_parse::ParseError;
use refmodel::lex::{Kind, Rule, Violation};
use refmodel::sem::{canonical_tokens, FLOAT, UNSPECIFIED};
use refmodel::{lex_aggregate, model_with, Expected};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const NAME: &str = "dir/t.proto";

pub type Real = Result<FileDescriptorProto, ParseError>;

pub fn real(src: &str, c: &mut Ctx) -> Result<Real, String> {
    c.impl_runs += 1;
    guarded(|| protox_parse::parse(NAME, src))
}

fn hash(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// Runs the model and counts what it did.
pub fn expect(src: &str, c: &mut Ctx) -> Expected {
    let e = model_with(NAME, src, c);
    match &e.file {
        Some(f) => {
            c.accepted += 1;
            // the outcome without locations: different layouts of one file count once
            let d = FileDescriptorProto { source_code_info: None, ..f.clone() };
            c.outcomes.insert(hash(&format!("{d:?}")));
        }
        None => {
            c.rejected += 1;
            let r: Vec<Rule> = e.violations.iter().map(|v| v.rule).collect();
            c.outcomes.insert(hash(&format!("{r:?}")));
        }
    }
    e
}

// ---------------------------------------------------------------- descriptors

pub fn each_option(f: &mut FileDescriptorProto, g: &mut dyn FnMut(&mut UninterpretedOption)) {
    fn all(v: &mut [UninterpretedOption], g: &mut dyn FnMut(&mut UninterpretedOption)) {
        v.iter_mut().for_each(|o| g(o))
    }
    fn field(f: &mut FieldDescriptorProto, g: &mut dyn FnMut(&mut UninterpretedOption)) {
        if let Some(o) = &mut f.options {
            all(&mut o.uninterpreted_option, g)
        }
    }
    fn en(e: &mut EnumDescriptorProto, g: &mut dyn FnMut(&mut UninterpretedOption)) {
        if let Some(o) = &mut e.options {
            all(&mut o.uninterpreted_option, g)
        }
        for v in &mut e.value {
            if let Some(o) = &mut v.options {
                all(&mut o.uninterpreted_option, g)
            }
        }
    }
    fn msg(m: &mut DescriptorProto, g: &mut dyn FnMut(&mut UninterpretedOption)) {
        if let Some(o) = &mut m.options {
            all(&mut o.uninterpreted_option, g)
        }
        m.field.iter_mut().chain(&mut m.extension).for_each(|f| field(f, g));
        m.enum_type.iter_mut().for_each(|e| en(e, g));
        for r in &mut m.extension_range {
            if let Some(o) = &mut r.options {
                all(&mut o.uninterpreted_option, g)
            }
        }
        for r in &mut m.oneof_decl {
            if let Some(o) = &mut r.options {
                all(&mut o.uninterpreted_option, g)
            }
        }
        m.nested_type.iter_mut().for_each(|m| msg(m, g));
    }
    if let Some(o) = &mut f.options {
        all(&mut o.uninterpreted_option, g)
    }
    f.extension.iter_mut().for_each(|f| field(f, g));
    f.message_type.iter_mut().for_each(|m| msg(m, g));
    f.enum_type.iter_mut().for_each(|e| en(e, g));
    for s in &mut f.service {
        if let Some(o) = &mut s.options {
            all(&mut o.uninterpreted_option, g)
        }
        for m in &mut s.method {
            if let Some(o) = &mut m.options {
                all(&mut o.uninterpreted_option, g)
            }
        }
    }
}

fn each_default<'f>(f: &'f mut FileDescriptorProto, out: &mut Vec<&'f mut String>) {
    fn msg<'f>(m: &'f mut DescriptorProto, out: &mut Vec<&'f mut String>) {
        out.extend(m.field.iter_mut().chain(&mut m.extension).filter_map(|f| f.default_value.as_mut()));
        m.nested_type.iter_mut().for_each(|m| msg(m, out));
    }
    out.extend(f.extension.iter_mut().filter_map(|f| f.default_value.as_mut()));
    f.message_type.iter_mut().for_each(|m| msg(m, out));
}

/// Splits off the locations and brings free spellings into one form.
pub fn normal(mut f: FileDescriptorProto) -> (FileDescriptorProto, Vec<Location>) {
    let locs = f.source_code_info.take().map(|s| s.location).unwrap_or_default();
    each_option(&mut f, &mut |o| {
        if let Some(a) = &mut o.aggregate_value {
            *a = match lex_aggregate(a) {
                Some(k) => canonical_tokens(&k),
                None => format!("\0not lexable: {a}"),
            };
        }
    });
    (f, locs)
}

pub fn align_defaults(real: &mut FileDescriptorProto, model: &mut FileDescriptorProto) {
    let (mut a, mut b) = (vec![], vec![]);
    each_default(real, &mut a);
    each_default(model, &mut b);
    if a.len() != b.len() {
        return;
    }
    for (a, b) in a.into_iter().zip(b) {
        if b.as_str() == UNSPECIFIED {
            *a = b.clone();
        } else if let Some(v) = b.strip_prefix(FLOAT) {
            let v: f64 = v.parse().unwrap();
            if let Ok(w) = a.parse::<f64>() {
                if v.to_bits() == w.to_bits() || v.is_nan() && w.is_nan() {
                    *a = b.clone();
                }
            }
        }
    }
}

/// The lines of the first hunk in which two debug renderings differ.
pub fn diff(a: &str, b: &str) -> String {
    let (a, b): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).unwrap_or(0);
    let cut = |v: &[&str]| v[i.saturating_sub(3).min(v.len())..(i + 6).min(v.len())].join("\n");
    format!("  parser:\n{}\n  reference:\n{}", cut(&a), cut(&b))
}

pub fn show_violations(v: &[Violation]) -> String {
    v.iter().map(|v| format!("{} at {}..{}", v.rule, v.start, v.end)).collect::<Vec<_>>().join(", ")
}

/// Both results, with acceptance checked.
pub enum Both {
    /// Accepted by both: descriptors and locations, normalised.
    Ok { real: FileDescriptorProto, rlocs: Vec<Location>, model: FileDescriptorProto, mlocs: Vec<Location> },
    Err(ParseError, Vec<Violation>),
}

pub fn both(src: &str, c: &mut Ctx) -> Result<Both, String> {
    let e = expect(src, c);
    match (real(src, c)?, e.file) {
        (Ok(r), Some(m)) => {
            let (mut r, rlocs) = normal(r);
            // aggregates of the model are canonical already
            let mut m = m;
            let mlocs = m.source_code_info.take().unwrap().location;
            align_defaults(&mut r, &mut m);
            Ok(Both::Ok { real: r, rlocs, model: m, mlocs })
        }
        (Err(e), None) => {
            // the model's violations
            let v = refmodel::model(NAME, src).violations;
            Ok(Both::Err(e, v))
        }
        (Ok(_), None) => {
            Err(format!("accepted, but the text breaks a rule: {}", show_violations(&refmodel::model(NAME, src).violations)))
        }
        (Err(e), Some(_)) => Err(format!("a valid file is rejected: {e:?}")),
    }
}

pub fn same_descriptor(r: &FileDescriptorProto, m: &FileDescriptorProto) -> Verdict {
    if r != m {
        return Err(format!("the descriptor differs\n{}", diff(&format!("{r:#?}"), &format!("{m:#?}"))));
    }
    Ok(())
}

// ---------------------------------------------------------------- judges

/// Acceptance only.
pub fn j_accept(p: &[String], c: &mut Ctx) -> Verdict {
    both(&p[0], c).map(|_| ())
}

/// Acceptance and everything but locations.
pub fn j_desc(p: &[String], c: &mut Ctx) -> Verdict {
    match both(&p[0], c)? {
        Both::Ok { real, model, .. } => same_descriptor(&real, &model),
        Both::Err(..) => Ok(()),
    }
}

fn no_root(l: &mut Vec<Location>) {
    l.retain(|l| !l.path.is_empty());
}

pub fn same_spans(mut rlocs: Vec<Location>, mut mlocs: Vec<Location>) -> Verdict {
    if !mlocs.iter().any(|l| l.path.is_empty()) {
        // an empty file: its extent is not specified
        no_root(&mut rlocs);
    }
    let f = |l: &mut Vec<Location>| {
        l.drain(..).map(|l| format!("{:?} at {:?}", l.path, l.span)).collect::<Vec<_>>().join("\n")
    };
    let (r, m) = (f(&mut rlocs), f(&mut mlocs));
    if r != m {
        return Err(format!("the locations differ\n{}", diff(&r, &m)));
    }
    Ok(())
}

/// Paths and spans of locations; for valid files.
pub fn j_spans(p: &[String], c: &mut Ctx) -> Verdict {
    match both(&p[0], c)? {
        Both::Ok { rlocs, mlocs, .. } => same_spans(rlocs, mlocs),
        Both::Err(..) => Ok(()),
    }
}

pub fn same_comments(rlocs: &[Location], mlocs: &[Location]) -> Verdict {
    let f = |l: &[Location]| {
        l.iter()
            .filter(|l| l.leading_comments.is_some() || l.trailing_comments.is_some() || !l.leading_detached_comments.is_empty())
            .map(|l| {
                format!(
                    "{:?} leading {:?} trailing {:?} detached {:?}",
                    l.path, l.leading_comments, l.trailing_comments, l.leading_detached_comments
                )
            })
            .collect::<Vec<_>>()
            .join("\n")
    };
    let (r, m) = (f(rlocs), f(mlocs));
    if r != m {
        return Err(format!("the comments differ\n{}", diff(&r, &m)));
    }
    Ok(())
}

pub fn j_comments(p: &[String], c: &mut Ctx) -> Verdict {
    match both(&p[0], c)? {
        Both::Ok { rlocs, mlocs, .. } => same_comments(&rlocs, &mlocs),
        Both::Err(..) => Ok(()),
    }
}

/// Descriptor, spans and comments.
pub fn j_all(p: &[String], c: &mut Ctx) -> Verdict {
    match both(&p[0], c)? {
        Both::Ok { real, model, rlocs, mlocs } => {
            same_descriptor(&real, &model)?;
            same_comments(&rlocs, &mlocs)?;
            same_spans(rlocs, mlocs)
        }
        Both::Err(..) => Ok(()),
    }
}

/// A span with its label text, over all diagnostics of an error, the primary one first.
pub struct Diag {
    pub text: String,
    pub labels: Vec<(usize, usize)>,
}

pub fn diagnostics(e: &ParseError) -> Vec<Diag> {
    fn one(d: &dyn Diagnostic) -> Diag {
        Diag {
            text: d.to_string(),
            labels: d.labels().map(|l| l.map(|l| (l.offset(), l.offset() + l.len())).collect()).unwrap_or_default(),
        }
    }
    let mut out = vec![one(e)];
    if let Some(r) = e.related() {
        out.extend(r.map(one));
    }
    out
}

pub fn well_formed(e: &ParseError, name: &str, src: &str) -> Verdict {
    if e.file() != name {
        return Err(format!("the error names file {:?}, not {name:?}", e.file()));
    }
    let ds = diagnostics(e);
    for d in &ds {
        if d.text.is_empty() {
            return Err("a diagnostic without text".into());
        }
        for &(a, b) in &d.labels {
            if a > b || b > src.len() || !src.is_char_boundary(a) || !src.is_char_boundary(b) {
                return Err(format!("the span {a}..{b} of {:?} is not inside the source (length {})", d.text, src.len()));
            }
        }
    }
    let debug = format!("{e:?}");
    let display = format!("{e}");
    match e.span() {
        Some(s) => {
            if s.start > s.end || s.end > src.len() || !src.is_char_boundary(s.start) || !src.is_char_boundary(s.end) {
                return Err(format!("the primary span {s:?} is not inside the source"));
            }
            if ds[0].labels.first() != Some(&(s.start, s.end)) {
                return Err(format!("the primary span {s:?} is not the labelled one {:?}", ds[0].labels));
            }
            // a span that starts inside a line end may be shown at the start of the line end
            let start = match src.as_bytes().get(s.start) {
                Some(b'\n') if src[..s.start].ends_with('\r') => vec![s.start, s.start - 1],
                _ => vec![s.start],
            };
            let mut ok = false;
            for start in start {
            let before = &src[..start];
            // a lone carriage return may or may not count as a line end
            let lf = |t: &str| t.matches('\n').count();
            let any = |t: &str| {
                let t = t.replace("\r\n", "\n");
                t.matches(['\n', '\r']).count()
            };
            let after_lf = &before[before.rfind('\n').map_or(0, |i| i + 1)..];
            let after_any = &before[before.rfind(['\n', '\r']).map_or(0, |i| i + 1)..];
            for (line, tail) in [(lf(before), after_lf), (any(before), after_any)] {
                for col in [tail.len(), tail.chars().count()] {
                    ok |= debug == format!("{name}:{}:{}: {display}", line + 1, col + 1);
                }
            }
            }
            if !ok {
                return Err(format!("the debug form {debug:?} does not start with the position of {s:?}"));
            }
        }
        None => {
            if !debug.ends_with(&display) {
                return Err(format!("the debug form {debug:?} lacks the message"));
            }
        }
    }
    Ok(())
}

/// Totality: no panic; a well-formed error, or a descriptor that carries the name.
pub fn j_total(p: &[String], c: &mut Ctx) -> Verdict {
    expect(&p[0], c);
    match real(&p[0], c)? {
        Ok(f) if f.name.as_deref() != Some(NAME) => Err(format!("the descriptor is named {:?}", f.name)),
        Ok(_) => Ok(()),
        Err(e) => well_formed(&e, NAME, &p[0]),
    }
}

/// As `j_total`, without running the model (for shapes that are large).
pub fn j_total_name(p: &[String], c: &mut Ctx) -> Verdict {
    let (name, src) = (&p[0], &p[1]);
    expect(src, c);
    c.impl_runs += 1;
    match guarded(|| protox_parse::parse(name, src))? {
        Ok(f) if f.name.as_ref() != Some(name) => Err(format!("the descriptor is named {:?}", f.name)),
        Ok(_) => Ok(()),
        Err(e) => well_formed(&e, name, src),
    }
}

/// parts: a length in bytes, what the text is filled with, what it ends with
pub fn j_huge(p: &[String], c: &mut Ctx) -> Verdict {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let (len, fill, tail) = (p[0].parse::<usize>().unwrap(), p[1].as_str(), p[2].as_str());
    let (head, fill, close) = match fill {
        "spaces" => ("", b' ', ""),
        "comment" => ("/*", b'x', "*/"),
        _ => ("//", b'y', "\n"),
    };
    let mut b = Vec::with_capacity(len);
    b.extend(head.as_bytes());
    b.resize(len - tail.len() - close.len(), fill);
    b.extend(close.as_bytes());
    b.extend(tail.as_bytes());
    let src = String::from_utf8(b).unwrap();
    c.impl_runs += 1;
    // not guarded: it may well take longer than other calls
    let r = std::panic::catch_unwind(|| protox_parse::parse(NAME, &src)).map_err(|_| "the parser panics".to_owned())?;
    let broken = tail.contains('$');
    match r {
        Err(e) if len > i32::MAX as usize => {
            let h = miette::Diagnostic::help(&e).map(|h| h.to_string()).unwrap_or_default();
            if !e.to_string().contains("large") || !h.is_empty() && !h.replace(',', "").contains("2147483647") {
                return Err(format!("the error is {e:?} ({h:?}), expected that the text is too large"));
            }
            if e.span().is_some() || e.file() != NAME || e.to_string() != format!("{e:?}") {
                return Err(format!("the error {e:?} (file {:?}, span {:?}) has a place", e.file(), e.span()));
            }
            Ok(())
        }
        _ if len > i32::MAX as usize => Err("the text is accepted".into()),
        Err(e) if broken => {
            let at = len - tail.len() + tail.find('$').unwrap();
            if e.span() == Some(at..at + 1) {
                Ok(())
            } else {
                Err(format!("the error {:?} ({:?}) is not at {at}", e.to_string(), e.span()))
            }
        }
        Err(e) => Err(format!("the text is rejected: {:?}", e.to_string())),
        Ok(_) if broken => Err("the text is accepted".into()),
        Ok(f) => {
            // "message M { }" at the end
            let start = len - tail.len();
            let (line, col) = if close == "\n" { (1, 0) } else { (0, start as i32) };
            let i = f.source_code_info.unwrap_or_default();
            let want = [(vec![4, 0], vec![line, col, col + tail.len() as i32]), (vec![4, 0, 1], vec![line, col + 8, col + 9])];
            for (path, span) in want {
                let got = i.location.iter().find(|l| l.path == path).map(|l| l.span.clone());
                if got.as_ref() != Some(&span) {
                    return Err(format!("the location of {path:?} is {got:?}, expected {span:?}"));
                }
            }
            Ok(())
        }
    }
}

/// The primary error lies where the only (or first lexical or syntactic) violation is.
pub fn j_primary(p: &[String], c: &mut Ctx) -> Verdict {
    let (e, v) = match both(&p[0], c)? {
        Both::Err(e, v) => (e, v),
        Both::Ok { .. } => return Ok(()),
    };
    well_formed(&e, NAME, &p[0])?;
    primary(&e, &v, &p[0])
}

pub fn is_syntax(r: Rule) -> bool {
    // reported while reading the text; the other rules are looked at only if these hold
    matches!(
        r,
        Rule::BadChar
            | Rule::IntTooLarge
            | Rule::NumberRunsIntoIdent
            | Rule::FloatSuffix
            | Rule::StringEscape
            | Rule::StringChar
            | Rule::StringUnterminated
            | Rule::StringEof
            | Rule::NestedComment
            | Rule::CommentEof
            | Rule::HashComment
            | Rule::Syntax
            | Rule::SyntaxEof
    )
}

fn matches_span(v: &Violation, l: (usize, usize)) -> bool {
    if v.exact {
        (v.start, v.end) == l
    } else {
        v.start <= l.0 && l.1 <= v.end
    }
}

pub fn primary(e: &ParseError, v: &[Violation], src: &str) -> Verdict {
    let lexical = v.iter().filter(|v| is_syntax(v.rule)).count();
    // several rule violations: any may come first; one error token: it comes first
    let candidates: Vec<&Violation> = if lexical > 0 {
        let f = v[0];
        // a token may break two rules at once; an unknown syntax ends the file
        v.iter().filter(|v| **v == f || v.start < f.end && f.start < v.end || v.rule == Rule::UnknownSyntax).collect()
    } else {
        v.iter().collect()
    };
    // what is wrong with the declarations before the first lexical or syntactic violation
    let mut before = vec![];
    if lexical > 0 {
        if let Some(i) = src[..v[0].start].rfind([';', '}']) {
            before = refmodel::model(NAME, &src[..=i]).violations;
        }
        // and with the group names before it
        let toks = refmodel::model(NAME, src).toks;
        for w in toks.windows(2) {
            if let (Kind::Ident(g), Kind::Ident(n)) = (&w[0].kind, &w[1].kind) {
                if w[1].start < v[0].start && g == "group" && !n.starts_with(|c: char| c.is_ascii_uppercase()) {
                    before.push(Violation { rule: Rule::GroupName, start: w[1].start, end: w[1].end, exact: true });
                }
            }
        }
    }
    let candidates: Vec<&Violation> = candidates.into_iter().chain(&before).collect();
    let ds = diagnostics(e);
    let labels = &ds[0].labels;
    for v in &candidates {
        match v.rule {
            Rule::SyntaxEof | Rule::CommentEof | Rule::StringEof => {
                if labels.is_empty() || labels.iter().any(|l| l.1 == src.len()) {
                    return Ok(());
                }
            }
            Rule::DuplicatePackage => {
                if labels.last().is_some_and(|l| matches_span(v, *l)) {
                    return Ok(());
                }
            }
            _ => {
                if let (Some(l), Some(s)) = (labels.first(), e.span()) {
                    if matches_span(v, *l) && s == (l.0..l.1) {
                        return Ok(());
                    }
                }
            }
        }
    }
    Err(format!(
        "the error {:?} points at {:?}, but the violation is {}",
        ds[0].text,
        labels,
        candidates.iter().map(|v| format!("{} at {}..{} ({:?})", v.rule, v.start, v.end, &src.get(v.start..v.end).unwrap_or(""))).collect::<Vec<_>>().join(" or ")
    ))
}
