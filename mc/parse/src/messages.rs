//! What a parse error says: the token it found, the alternatives it expects, the limits and the values it quotes.

use crate::compare::*;
use crate::engine::*;
use crate::grammar::TOKENS;
use miette::Diagnostic;
use refmodel::gram::Machine;
use refmodel::lex::{Kind, Rule, Tok, Violation};

/// The alternatives of "'a', 'b' or an identifier".
fn alternatives(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let end = match rest.strip_prefix('\'').and_then(|r| r.find('\'')) {
            // a quote inside quotes does not occur in a token
            Some(e) => e + 2,
            None => [", ", " or "].iter().filter_map(|x| rest.find(x)).min().unwrap_or(rest.len()),
        };
        out.push(rest[..end].to_owned());
        rest = &rest[end..];
        rest = rest.strip_prefix(", ").or(rest.strip_prefix(" or ")).unwrap_or(rest);
    }
    out
}

/// Tokens of which a phrase claims that one, or each, may stand here. Phrases that are not known claim nothing.
fn of_phrase(p: &str) -> &'static [&'static str] {
    let words: Vec<&str> = p.split(|c: char| !c.is_ascii_alphabetic()).collect();
    let has = |w: &str| words.contains(&w);
    match p.trim_start_matches("an ").trim_start_matches("a ") {
        "oneof" => return &["oneof"],
        "enum" => return &["enum"],
        "message" => return &["message"],
        "option" => return &["option"],
        "service" => return &["service"],
        "extension" => return &["extend"],
        "reserved range" => return &["reserved"],
        _ => {}
    }
    if has("string") {
        &["'a'"]
    } else if has("integer") {
        &["1"]
    } else if has("numeric") {
        &["1", "1.5"]
    } else if has("constant") {
        &["1", "1.5", "'a'", "foo"]
    } else if has("field") && has("type") {
        &["int32", "foo", "."]
    } else if has("field") {
        &["optional"]
    } else if has("type") {
        &["foo", "."]
    } else if has("identifier") {
        &["foo", "message"]
    } else {
        &[]
    }
}

fn allowed(toks: &[Tok], k: &Kind) -> bool {
    let mut m = Machine::new();
    toks.iter().enumerate().all(|(i, t)| m.feed(Some(&t.kind), i)) && m.feed(Some(k), toks.len())
}

fn in_text_mode(toks: &[Tok]) -> bool {
    let mut m = Machine::new();
    toks.iter().enumerate().all(|(i, t)| m.feed(Some(&t.kind), i)) && m.text_mode()
}

/// Whether `shown` stands for the value (or token) `k`.
fn shows(k: &Kind, shown: &str) -> bool {
    match k {
        Kind::Ident(i) => shown == i,
        Kind::Int(n) => shown.parse() == Ok(*n),
        Kind::Float(f) => shown.parse::<f64>().is_ok_and(|s| s == *f || f.is_nan() && s.is_nan()),
        Kind::Str(b) => {
            let inner = shown.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(shown);
            match refmodel::lex::Lexer::new(&format!("\"{}\"", if inner == shown { shown.to_owned() } else { inner.to_owned() })).next(false) {
                refmodel::lex::Lexed::Tok(t) => t.kind == Kind::Str(b.clone()),
                _ => false,
            }
        }
        Kind::P(c) => shown.as_bytes() == [*c],
    }
}

/// The text between the last pair of quotes.
fn quoted(s: &str) -> Option<&str> {
    let s = s.strip_suffix('\'')?;
    Some(&s[s.rfind(" '")? + 2..])
}

fn numbers(s: &str) -> Vec<i128> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let neg = i > 0 && b[i - 1] == b'-';
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b',' && j + 1 < b.len() && b[j + 1].is_ascii_digit()) {
                j += 1;
            }
            let n: i128 = s[i..j].replace(',', "").parse().unwrap_or(i128::MAX);
            out.push(if neg { -n } else { n });
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

fn words(s: &str) -> Vec<String> {
    s.to_lowercase().split(|c: char| !c.is_ascii_alphanumeric()).map(|w| w.trim_end_matches('s').to_owned()).filter(|w| !w.is_empty()).collect()
}

/// Words that tell what a rule is about: a message has to have one of each group. Next, what it must not speak of.
fn about(r: Rule) -> (&'static [&'static [&'static str]], bool) {
    use Rule::*;
    let w: &[&[&str]] = match r {
        IntTooLarge => &[&["integer", "number"], &["large", "range", "big"]],
        NumberRunsIntoIdent => &[&["whitespace", "space"]],
        FloatSuffix => &[&["suffix"]],
        StringEscape => &[&["escape"]],
        StringChar => &[&["string"], &["character"]],
        StringUnterminated | StringEof => &[&["string"]],
        NestedComment => &[&["comment"], &["nested"]],
        CommentEof => &[],
        HashComment => &[&["comment"]],
        UnknownSyntax => &[&["syntax"]],
        ImportPath => &[&["import"]],
        NotUtf8 => &[&["utf"]],
        ReservedIdent => &[&["identifier", "name"]],
        GroupName => &[&["group"], &["name"]],
        DuplicatePackage => &[&["package"]],
        NegativeIdent => &[&["negative"]],
        FieldNumber => &[&["number"]],
        EnumNumber => &[&["enum"], &["number"]],
        DefaultOnMap => &[&["map"], &["default"]],
        DefaultOnRepeated => &[&["repeated"], &["default"]],
        DefaultOnGroup => &[&["group"], &["default"]],
        DefaultInProto3 => &[&["default"], &["proto3"]],
        OneofMap => &[&["map"], &["oneof"]],
        ExtendMap => &[&["map"], &["extension"]],
        MapLabel => &[&["map"], &["label"]],
        OneofLabel => &[&["oneof"], &["label"]],
        ExtendRequired => &[&["extension"], &["required"]],
        Proto2NoLabel => &[&["label"], &["proto2"], &["optional"], &["repeated"], &["required"]],
        Proto3Group => &[&["group"], &["proto3"]],
        Proto3Required => &[&["required"], &["proto3"]],
        MapKey => &[&["map"], &["key"]],
        EmptyOneof => &[&["oneof"]],
        _ => &[],
    };
    (w, matches!(r, GroupName | DefaultOnGroup | Proto3Group))
}

/// The first syntax error: the token found and the alternatives.
fn syntax(src: &str, v: &Violation, text: &str) -> Verdict {
    let m = refmodel::model(NAME, src);
    let found = match v.rule {
        Rule::Syntax => m.toks.last(),
        _ => None,
    };
    let toks = &m.toks[..m.toks.len() - found.is_some() as usize];
    let Some((expected, rest)) = text.strip_prefix("expected ").and_then(|t| t.split_once(", but ")) else {
        return Err(format!("a syntax error says {text:?}"));
    };
    match found {
        Some(t) => {
            let shown = rest.strip_prefix("found '").and_then(|s| s.strip_suffix('\''));
            if !shown.is_some_and(|s| shows(&t.kind, s)) {
                return Err(format!("the message {text:?} does not show the token found, {:?}", t.kind));
            }
        }
        None if !rest.contains("end of file") => return Err(format!("the message {text:?} does not say that the file ends")),
        None => {}
    }
    let alts = alternatives(expected);
    let mut fixed = vec![];
    for a in &alts {
        let claims: Vec<Kind> = match a.strip_prefix('\'') {
            Some(q) => match q.strip_suffix('\'') {
                Some(q) => vec![crate::grammar::kind(q)],
                None => return Err(format!("the message {text:?} is not well formed")),
            },
            None => of_phrase(a).iter().map(|t| crate::grammar::kind(t)).collect(),
        };
        if a.starts_with('\'') {
            fixed.push(claims[0].clone());
        }
        for k in &claims {
            if !allowed(toks, k) {
                return Err(format!("the message {text:?} expects {a}, but {k:?} may not stand there"));
            }
        }
    }
    // only single tokens are named: they are all there is
    if fixed.len() == alts.len() && !toks.is_empty() && !in_text_mode(toks) {
        for t in TOKENS {
            let k = crate::grammar::kind(t);
            let goes_on = matches!((&k, toks.last().map(|t| &t.kind)), (Kind::Str(_), Some(Kind::Str(_))));
            if !goes_on && !fixed.contains(&k) && allowed(toks, &k) {
                return Err(format!("\"expected {expected}\" does not name {t}, which may stand there: {text:?}"));
            }
        }
    }
    Ok(())
}

fn rule(e: &protox_parse::ParseError, v: &Violation, src: &str) -> Verdict {
    let text = e.to_string();
    let help = Diagnostic::help(e).map(|h| h.to_string()).unwrap_or_default();
    let (want, group) = about(v.rule);
    let w = words(&text);
    for any in want {
        if !any.iter().any(|x| w.contains(&x.trim_end_matches('s').to_owned())) {
            return Err(format!("rule {:?}: the message {text:?} does not speak of any of {any:?}", v.rule));
        }
    }
    let shown_text = quoted(&text).unwrap_or("").to_lowercase();
    if !group && !want.is_empty() && w.iter().any(|x| x == "group") && !shown_text.contains("group") {
        return Err(format!("rule {:?}: the message {text:?} speaks of groups", v.rule));
    }
    // what is quoted, where the language says what it has to be
    let quotes = |s: &str| -> Vec<String> { s.split('\'').skip(1).step_by(2).map(str::to_owned).collect() };
    let exactly = |s: &str, want: &[&str]| {
        let mut q = quotes(s);
        q.sort();
        if q.is_empty() || q == want {
            Ok(())
        } else {
            Err(format!("rule {:?}: {s:?} quotes {q:?}, expected {want:?}", v.rule))
        }
    };
    match v.rule {
        Rule::Proto2NoLabel => exactly(&text, &["optional", "repeated", "required"])?,
        Rule::UnknownSyntax => exactly(&help, &["proto2", "proto3"])?,
        Rule::ImportPath => exactly(&help, &[".", ".."])?,
        Rule::HashComment => exactly(&text, &["#"])?,
        Rule::FloatSuffix => exactly(&text.to_lowercase(), &["f"])?,
        _ => {}
    }
    for (x, rules) in [
        ("proto2", [Rule::DefaultInProto3, Rule::Proto3Group, Rule::Proto3Required]),
        ("proto3", [Rule::Proto2NoLabel, Rule::Proto2NoLabel, Rule::Proto2NoLabel]),
    ] {
        if rules.contains(&v.rule) && w.iter().any(|w| w == x) {
            return Err(format!("rule {:?}: the message {text:?} speaks of {x}", v.rule));
        }
    }
    if v.rule == Rule::MapKey && !["integer", "string"].iter().all(|x| w.iter().any(|w| w == x)) {
        return Err(format!("the message {text:?} does not name all types a map key may have"));
    }
    let limits = |s: &str, want: &[i128]| {
        let mut n = numbers(s);
        n.sort();
        if n == want {
            Ok(())
        } else {
            Err(format!("rule {:?}: {s:?} states {n:?}, the limits are {want:?}", v.rule))
        }
    };
    match v.rule {
        Rule::FieldNumber => limits(&text, &[1, 536870911])?,
        Rule::EnumNumber => limits(&text, &[i32::MIN as i128, i32::MAX as i128])?,
        Rule::OptionIntRange => limits(&help, &[i64::MIN as i128, u64::MAX as i128])?,
        Rule::UnknownSyntax => {
            // all pieces of the string
            let mut b = vec![];
            for t in refmodel::model(NAME, src).toks.iter().skip_while(|t| t.start < v.start) {
                match &t.kind {
                    Kind::Str(s) => b.extend(s),
                    _ => break,
                }
            }
            let s = String::from_utf8_lossy(&b).into_owned();
            if !text.contains(&format!("'{s}'")) {
                return Err(format!("the message {text:?} does not name the syntax {s:?}"));
            }
        }
        _ => {}
    }
    Ok(())
}

/// Every repeated package statement: which of the two labels is the first statement.
fn packages(e: &protox_parse::ParseError, v: &[Violation], src: &str) -> Verdict {
    if !v.iter().any(|v| v.rule == Rule::DuplicatePackage) {
        return Ok(());
    }
    let m = refmodel::model(NAME, src);
    let mut depth = 0;
    let mut at_start = true;
    let mut first = None;
    for (i, t) in m.toks.iter().enumerate() {
        if depth == 0 && at_start && t.kind == Kind::Ident("package".into()) {
            first = m.toks[i..].iter().find(|t| t.kind == Kind::P(b';')).map(|e| (t.start, e.end));
            break;
        }
        match t.kind {
            Kind::P(b'{') => depth += 1,
            Kind::P(b'}') => depth -= 1,
            _ => {}
        }
        at_start = matches!(t.kind, Kind::P(b';' | b'}'));
    }
    let mut seconds = vec![];
    let related: Vec<&dyn Diagnostic> = Diagnostic::related(e).into_iter().flatten().collect();
    for d in std::iter::once(e as &dyn Diagnostic).chain(related) {
        if !d.to_string().contains("package") {
            continue;
        }
        let labels: Vec<_> = d.labels().into_iter().flatten().map(|l| (l.label().unwrap_or("").to_owned(), l.offset(), l.offset() + l.len())).collect();
        let (again, one): (Vec<_>, Vec<_>) = labels.iter().partition(|l| l.0.contains("again"));
        if labels.len() != 2 {
            continue;
        }
        if one.iter().any(|l| Some((l.1, l.2)) != first) {
            return Err(format!("the first package statement lies at {first:?}, the labels are {labels:?}"));
        }
        seconds.extend(again.iter().map(|l| (l.1, l.2)));
    }
    let want: Vec<_> = v.iter().filter(|v| v.rule == Rule::DuplicatePackage).map(|v| (v.start, v.end)).collect();
    if seconds != want {
        return Err(format!("the repeated package statements lie at {want:?}, the labels at {seconds:?}"));
    }
    Ok(())
}

/// parts: a text. The messages of its first syntax error, or of the only rule it breaks.
pub fn j_message(p: &[String], c: &mut Ctx) -> Verdict {
    let src = &p[0];
    let (e, v) = match both(src, c)? {
        Both::Err(e, v) => (e, v),
        _ => return Ok(()),
    };
    if !format!("{e:?}").ends_with(&e.to_string()) {
        return Err(format!("the debug form {e:?} does not end with the message {:?}", e.to_string()));
    }
    let first = v[0];
    if v.iter().all(|v| v.rule == Rule::DuplicatePackage) {
        packages(&e, &v, src)?;
    }
    if v.len() > 1 && !matches!(first.rule, Rule::Syntax | Rule::SyntaxEof) {
        return Ok(());
    }
    match first.rule {
        // "08" may be one invalid token or two valid ones
        Rule::Syntax if !first.exact => Ok(()),
        Rule::Syntax | Rule::SyntaxEof => {
            let eof = first.rule == Rule::SyntaxEof;
            let d = diagnostics(&e).into_iter().find(|d| if eof { d.labels.is_empty() } else { d.labels == [(first.start, first.end)] });
            match d {
                Some(d) => syntax(src, &first, &d.text),
                None => Ok(()),
            }
        }
        _ => rule(&e, &first, src),
    }
}

/// parts: a scalar type, a value, a text with both in it. The message for a value that does not fit.
pub fn j_limits(p: &[String], c: &mut Ctx) -> Verdict {
    let (ty, value, src) = (p[0].as_str(), p[1].as_str(), &p[2]);
    let (e, v) = match both(src, c)? {
        Both::Err(e, v) => (e, v),
        _ => return Ok(()),
    };
    if v.len() != 1 {
        return Ok(());
    }
    let text = e.to_string();
    let help = Diagnostic::help(&e).map(|h| h.to_string()).unwrap_or_default();
    let bits: u32 = if ty.ends_with("64") { 64 } else { 32 };
    let unsigned = ty.starts_with('u') || ty.starts_with("fixed");
    let w = words(&text);
    let has = |x: &str| w.iter().any(|w| w == x);
    let toks = refmodel::model(NAME, &format!("option o = {value};")).toks;
    let toks = &toks[3..toks.len() - 1];
    let negative = toks[0].kind == Kind::P(b'-');
    let k = &toks[negative as usize].kind;
    let shown = |s: &str| {
        let (neg, rest) = match s.strip_prefix('-') {
            Some(r) if negative => (true, r),
            _ => (false, s),
        };
        match k {
            // adjacent pieces
            Kind::Str(_) if toks.len() > 1 => true,
            // a zero has no sign
            Kind::Float(f) if *f == 0.0 => s.parse::<f64>() == Ok(0.0),
            _ => neg == negative && shows(k, rest),
        }
    };
    match v[0].rule {
        Rule::ValueRange => {
            let (lo, hi): (i128, i128) = match (unsigned, bits) {
                (true, 32) => (0, u32::MAX as i128),
                (true, _) => (0, u64::MAX as i128),
                (false, 32) => (i32::MIN as i128, i32::MAX as i128),
                _ => (i64::MIN as i128, i64::MAX as i128),
            };
            let mut n = numbers(&help);
            n.sort();
            if n != [lo, hi] {
                return Err(format!("the help {help:?} states {n:?}, the limits of {ty} are {lo} and {hi}"));
            }
            if has("unsigned") != unsigned || has("signed") == unsigned || !text.contains(&bits.to_string()) {
                return Err(format!("the message {text:?} is not about {ty}"));
            }
            let Kind::Int(n) = k else { return Err("not an integer".into()) };
            let n = if negative { -(*n as i128) } else { *n as i128 };
            if !numbers(&text).contains(&n) {
                return Err(format!("the message {text:?} does not state the value {n}"));
            }
        }
        Rule::ValueType => {
            let kind = match ty {
                "float" | "double" => has("floating") || has("number"),
                "bool" => text.contains("'true'") && text.contains("'false'"),
                "string" | "bytes" => has("string"),
                _ => has("integer"),
            };
            if !kind {
                return Err(format!("the message {text:?} does not say what a {ty} may be"));
            }
            match text.split_once(", but found '").and_then(|t| t.1.strip_suffix('\'')) {
                Some(_) if matches!(k, Kind::P(_)) => {} // an aggregate
                Some(s) if shown(s) => {}
                _ => return Err(format!("the message {text:?} does not show the value {value}")),
            }
        }
        _ => {}
    }
    Ok(())
}
