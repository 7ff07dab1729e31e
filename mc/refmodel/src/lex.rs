//! Reference lexer: written from the protobuf language specification, one character at a time.

use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Ident(String),
    Int(u64),
    Float(f64),
    Str(Vec<u8>),
    P(u8),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    /// Start of the gap (end of the previous token or 0).
    pub gap: usize,
}

/// A rule of the language that a source text breaks.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Rule {
    BadChar,
    IntTooLarge,
    NumberRunsIntoIdent,
    FloatSuffix,
    StringEscape,
    StringChar,
    StringUnterminated,
    StringEof,
    NestedComment,
    CommentEof,
    HashComment,
    Syntax,
    SyntaxEof,
    UnknownSyntax,
    ImportPath,
    NotUtf8,
    ReservedIdent,
    GroupName,
    DuplicatePackage,
    NegativeIdent,
    OptionIntRange,
    FieldNumber,
    EnumNumber,
    DefaultOnMap,
    DefaultOnRepeated,
    DefaultOnGroup,
    DefaultInProto3,
    ValueType,
    ValueRange,
    OneofMap,
    ExtendMap,
    MapLabel,
    OneofLabel,
    ExtendRequired,
    Proto2NoLabel,
    Proto3Group,
    Proto3Required,
    MapKey,
    EmptyOneof,
}

impl fmt::Display for Rule {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Violation {
    pub rule: Rule,
    pub start: usize,
    pub end: usize,
    /// The reported span must be exactly start..end; otherwise it must lie within it.
    pub exact: bool,
}

pub struct Lexer<'a> {
    pub src: &'a str,
    b: &'a [u8],
    pub pos: usize,
    pub violations: Vec<Violation>,
}

pub enum Lexed {
    Tok(Tok),
    Eof { gap: usize },
    /// A violation after which lexing cannot continue.
    Fatal,
}

fn is_letter(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn is_ws(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\r' | 0x0b | 0x0c)
}

impl<'a> Lexer<'a> {
    pub fn new(src: &'a str) -> Self {
        Lexer { src, b: src.as_bytes(), pos: 0, violations: vec![] }
    }

    fn at(&self, i: usize) -> u8 {
        // 0 stands for "end of input or NUL"; callers that care check the length.
        *self.b.get(i).unwrap_or(&0)
    }

    fn bad(&mut self, rule: Rule, start: usize, end: usize, exact: bool) {
        self.violations.push(Violation { rule, start, end, exact });
    }

    pub fn next(&mut self, text_mode: bool) -> Lexed {
        let gap = self.pos;
        // trivia
        loop {
            let i = self.pos;
            if i >= self.b.len() {
                return Lexed::Eof { gap };
            }
            let c = self.b[i];
            if is_ws(c) || c == b'\n' {
                self.pos += 1;
            } else if (c == b'/' && self.at(i + 1) == b'/') || c == b'#' {
                let mut e = i;
                while e < self.b.len() && self.b[e] != b'\n' {
                    e += 1;
                }
                if e < self.b.len() {
                    e += 1;
                }
                if c == b'#' && !text_mode {
                    self.bad(Rule::HashComment, i, e, false);
                }
                self.pos = e;
            } else if c == b'/' && self.at(i + 1) == b'*' {
                let mut e = i + 2;
                loop {
                    if e >= self.b.len() {
                        self.bad(Rule::CommentEof, self.b.len(), self.b.len(), true);
                        self.pos = self.b.len();
                        return Lexed::Fatal;
                    }
                    if self.b[e] == b'*' && self.at(e + 1) == b'/' {
                        e += 2;
                        break;
                    }
                    if self.b[e] == b'/' && self.at(e + 1) == b'*' {
                        self.bad(Rule::NestedComment, e, e + 2, true);
                        return Lexed::Fatal;
                    }
                    e += 1;
                }
                self.pos = e;
            } else {
                break;
            }
        }
        let start = self.pos;
        let c = self.b[start];
        let kind = if is_letter(c) {
            let mut e = start;
            while is_letter(self.at(e)) || self.at(e).is_ascii_digit() {
                e += 1;
            }
            self.pos = e;
            Kind::Ident(self.src[start..e].to_owned())
        } else if c.is_ascii_digit() || (c == b'.' && self.at(start + 1).is_ascii_digit()) {
            self.number(start, text_mode)
        } else if c == b'"' || c == b'\'' {
            match self.string(start) {
                Some(s) => Kind::Str(s),
                None => return Lexed::Fatal,
            }
        } else if b".-+(){}[]<>,=:;/".contains(&c) {
            self.pos += 1;
            Kind::P(c)
        } else {
            let len = self.src[start..].chars().next().unwrap().len_utf8();
            self.bad(Rule::BadChar, start, start + len, false);
            return Lexed::Fatal;
        };
        Lexed::Tok(Tok { kind, start, end: self.pos, gap })
    }

    fn number(&mut self, start: usize, text_mode: bool) -> Kind {
        let mut e = start;
        let digits = |this: &Self, mut i: usize| {
            while this.at(i).is_ascii_digit() {
                i += 1;
            }
            i
        };
        let exp_at = |this: &Self, i: usize| -> Option<usize> {
            if !matches!(this.at(i), b'e' | b'E') {
                return None;
            }
            let j = if matches!(this.at(i + 1), b'+' | b'-') { i + 2 } else { i + 1 };
            if this.at(j).is_ascii_digit() { Some(j) } else { None }
        };
        let first = self.b[start];
        if first == b'0' && matches!(self.at(start + 1), b'x' | b'X') && self.at(start + 2).is_ascii_hexdigit() {
            e = start + 2;
            let mut v: Option<u64> = Some(0);
            while self.at(e).is_ascii_hexdigit() {
                let d = (self.at(e) as char).to_digit(16).unwrap() as u64;
                v = v.and_then(|v| v.checked_mul(16)).and_then(|v| v.checked_add(d));
                e += 1;
            }
            return self.finish_int(start, e, v);
        }
        let int_end = digits(self, e);
        let mut is_float = false;
        e = int_end;
        let mut frac = (int_end, int_end);
        if self.at(e) == b'.' {
            is_float = true;
            e += 1;
            let f = digits(self, e);
            frac = (e, f);
            e = f;
        }
        let mut exp: i64 = 0;
        if let Some(j) = exp_at(self, e) {
            is_float = true;
            let k = digits(self, j);
            let neg = self.at(j - 1) == b'-';
            let mut v: i64 = 0;
            for &d in &self.b[j..k] {
                v = (v * 10 + (d - b'0') as i64).min(1_000_000);
            }
            exp = if neg { -v } else { v };
            e = k;
        }
        let mut suffix = false;
        if matches!(self.at(e), b'f' | b'F') {
            // "5f" and "0f" are floats; "017f" is an octal integer running into an identifier
            let octal_like = first == b'0' && int_end - start > 1;
            if is_float || !octal_like {
                suffix = true;
                is_float = true;
            }
        }
        if is_float {
            let text = format!("{}{}", &self.src[start..int_end], &self.src[frac.0..frac.1]);
            let scale = exp - (frac.1 - frac.0) as i64;
            let value = decimal(&text, scale);
            if suffix {
                e += 1;
                if !text_mode {
                    self.bad(Rule::FloatSuffix, start, e, false);
                }
            }
            self.pos = e;
            self.runs_into(start, e);
            return Kind::Float(value);
        }
        // decimal or octal integer
        let (radix, mut from) = if first == b'0' && int_end - start > 1 { (8u64, start + 1) } else { (10, start) };
        let mut v: Option<u64> = Some(0);
        let mut bad_digit = false;
        while from < int_end {
            let d = (self.b[from] - b'0') as u64;
            if d >= radix {
                bad_digit = true;
            }
            v = v.and_then(|v| v.checked_mul(radix)).and_then(|v| v.checked_add(d));
            from += 1;
        }
        if bad_digit {
            // "08": not an octal number
            self.bad(Rule::Syntax, start, int_end, false);
            v = Some(0);
        }
        self.finish_int(start, int_end, v)
    }

    fn finish_int(&mut self, start: usize, end: usize, v: Option<u64>) -> Kind {
        self.pos = end;
        self.runs_into(start, end);
        match v {
            Some(v) => Kind::Int(v),
            None => {
                self.bad(Rule::IntTooLarge, start, end, false);
                Kind::Int(0)
            }
        }
    }

    fn runs_into(&mut self, start: usize, end: usize) {
        if is_letter(self.at(end)) {
            let mut e = end;
            while is_letter(self.at(e)) || self.at(e).is_ascii_digit() {
                e += 1;
            }
            self.bad(Rule::NumberRunsIntoIdent, start, e, false);
        }
    }

    fn string(&mut self, start: usize) -> Option<Vec<u8>> {
        let quote = self.b[start];
        let mut out = vec![];
        let mut i = start + 1;
        let mut bad: Option<Violation> = None;
        loop {
            if i >= self.b.len() {
                let n = self.b.len();
                self.violations.extend(bad.take());
                self.bad(Rule::StringEof, n, n, true);
                self.pos = n;
                return None;
            }
            let c = self.b[i];
            if c == quote {
                i += 1;
                break;
            }
            match c {
                b'\n' => {
                    self.violations.extend(bad.take());
                    self.bad(Rule::StringUnterminated, start, i + 1, false);
                    return None;
                }
                0 => {
                    // a run of such characters is one error, and goes on with what is wrong right after it
                    let run = i + self.b[i..].iter().take_while(|c| **c == 0).count();
                    let end = if self.at(run) == b'\\' { self.b.len() } else { run };
                    bad.get_or_insert(Violation { rule: Rule::StringChar, start: i, end, exact: false });
                    i += 1;
                }
                b'\\' => {
                    let n = self.at(i + 1);
                    let oct = |c: u8| (b'0'..=b'7').contains(&c);
                    let simple = match n {
                        b'a' => Some(7),
                        b'b' => Some(8),
                        b'f' => Some(12),
                        b'n' => Some(10),
                        b'r' => Some(13),
                        b't' => Some(9),
                        b'v' => Some(11),
                        b'?' | b'\\' | b'\'' | b'"' => Some(n),
                        _ => None,
                    };
                    if let Some(v) = simple {
                        out.push(v);
                        i += 2;
                        continue;
                    }
                    if oct(n) {
                        let mut j = i + 1;
                        let mut v = 0u32;
                        while j < i + 4 && oct(self.at(j)) {
                            v = v * 8 + (self.at(j) - b'0') as u32;
                            j += 1;
                        }
                        if v < 256 {
                            out.push(v as u8);
                        } else {
                            bad.get_or_insert(Violation { rule: Rule::StringEscape, start: i, end: j, exact: false });
                        }
                        i = j;
                        continue;
                    }
                    if matches!(n, b'x' | b'X') && self.at(i + 2).is_ascii_hexdigit() {
                        let mut j = i + 2;
                        let mut v = 0u32;
                        while j < i + 4 && self.at(j).is_ascii_hexdigit() {
                            v = v * 16 + (self.at(j) as char).to_digit(16).unwrap();
                            j += 1;
                        }
                        out.push(v as u8);
                        i = j;
                        continue;
                    }
                    if matches!(n, b'u' | b'U') {
                        let len = if n == b'u' { 4 } else { 8 };
                        if (0..len).all(|k| self.at(i + 2 + k).is_ascii_hexdigit()) {
                            let v = u32::from_str_radix(&self.src[i + 2..i + 2 + len], 16).unwrap();
                            match char::from_u32(v) {
                                Some(ch) => out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes()),
                                None => {
                                    bad.get_or_insert(Violation {
                                        rule: Rule::StringEscape,
                                        start: i,
                                        end: i + 2 + len,
                                        exact: false,
                                    });
                                }
                            }
                            i += 2 + len;
                            continue;
                        }
                    }
                    // no such escape; how much of what follows is blamed is not specified
                    bad.get_or_insert(Violation { rule: Rule::StringEscape, start: i, end: self.b.len(), exact: false });
                    i += 1;
                    if n == b'\n' || n == 0 {
                        continue;
                    }
                }
                _ => {
                    out.push(c);
                    i += 1;
                }
            }
        }
        self.pos = i;
        if let Some(v) = bad {
            // after a malformed escape the extent of the string is not specified
            self.violations.push(v);
            return None;
        }
        Some(out)
    }
}

/// digits × 10^scale, correctly rounded.
fn decimal(digits: &str, scale: i64) -> f64 {
    format!("{}e{}", if digits.is_empty() { "0" } else { digits }, scale).parse().unwrap()
}
