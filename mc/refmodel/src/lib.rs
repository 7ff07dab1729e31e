//! Executable reference model of the protobuf source language, independent of protox.
pub mod comments;
pub mod gram;
pub mod lex;
pub mod sem;

pub use lex::{Kind, Rule, Violation};
use prost_types::FileDescriptorProto;

pub struct Expected {
    /// What the file means; None if some rule is broken.
    pub file: Option<FileDescriptorProto>,
    /// Rules broken, lexical and syntax rules first.
    pub violations: Vec<Violation>,
    pub toks: Vec<lex::Tok>,
}

pub fn model(name: &str, src: &str) -> Expected {
    model_with(name, src, &mut ())
}

pub fn model_with(name: &str, src: &str, v: &mut dyn gram::Visitor) -> Expected {
    let parsed = gram::parse(src, v);
    let mut violations = parsed.violations.clone();
    let mut file = None;
    if let Some(tree) = &parsed.tree {
        // violations of rules beyond syntax are reported only when the syntax is right
        let mut sem = sem::Sem::new(src, &parsed);
        let f = sem.file(name, tree);
        violations.extend(sem.violations);
        if violations.is_empty() {
            file = Some(f);
        }
    } else if let Some((start, end)) = unknown_syntax(&parsed.toks) {
        violations.push(Violation { rule: Rule::UnknownSyntax, start, end, exact: true });
    }
    Expected { file, violations, toks: parsed.toks }
}

/// Token values of an aggregate's text, or None if it does not lex.
pub fn lex_aggregate(text: &str) -> Option<Vec<Kind>> {
    let mut lx = lex::Lexer::new(text);
    let mut out = vec![];
    loop {
        match lx.next(true) {
            lex::Lexed::Tok(t) => out.push(t.kind),
            lex::Lexed::Eof { .. } => return if lx.violations.is_empty() { Some(out) } else { None },
            lex::Lexed::Fatal => return None,
        }
    }
}

/// The value of a syntax statement at the start of the text, if it names no known syntax.
fn unknown_syntax(toks: &[lex::Tok]) -> Option<(usize, usize)> {
    match toks {
        [a, b, rest @ ..] if a.kind == Kind::Ident("syntax".into()) && b.kind == Kind::P(b'=') => {
            let strings: Vec<_> = rest.iter().map_while(|t| if let Kind::Str(s) = &t.kind { Some((s, t)) } else { None }).collect();
            let value: Vec<u8> = strings.iter().flat_map(|s| s.0.clone()).collect();
            let span = (strings.first()?.1.start, strings.last()?.1.end);
            (value != b"proto2" && value != b"proto3").then_some(span)
        }
        _ => None,
    }
}
