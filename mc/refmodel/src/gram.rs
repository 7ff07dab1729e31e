//! The grammar as data, and the pushdown automaton that runs it.
//!
//! The grammar is LL(1): `expand` gives, for a nonterminal on top of the stack and one token of lookahead,
//! the right-hand side to push. The stack (plus the text-format flag it implies) is the whole state.

use crate::lex::{Kind, Lexed, Lexer, Rule, Tok, Violation};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum N {
    File,
    Stmts,
    Stmt,
    Empty,
    Syntax,
    Import,
    ImportKind,
    Package,
    FullIdent,
    FullTail,
    TypeName,
    OptDot,
    Strs,
    StrTail,
    Option,
    OptionBody,
    NameParts,
    NameTail,
    NamePart,
    Const,
    NegConst,
    Aggregate,
    AggBody,
    Message,
    MsgBody,
    MsgItem,
    Field,
    Label,
    Map,
    Group,
    Normal,
    FieldRest,
    FieldType,
    IntLit,
    OptListOpt,
    OptList,
    OptListTail,
    Extend,
    ExtBody,
    Service,
    SvcBody,
    Rpc,
    Stream,
    RpcEnd,
    RpcBody,
    Enum,
    EnumBody,
    EnumValue,
    Oneof,
    OneofBody,
    Reserved,
    ReservedRest,
    Ranges,
    RangesTail,
    Range,
    RangeEnd,
    RangeTo,
    Names,
    NamesTail,
    Extensions,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    K(&'static str),
    P(u8),
    Ident,
    Int,
    Float,
    Str,
    /// Any token except braces.
    Any,
    Nt(N),
    /// End of a tree node (carries no state).
    Close,
    Eof,
}

use N::*;
use S::*;

fn is_inline(n: N) -> bool {
    matches!(
        n,
        Stmts
            | Stmt
            | ImportKind
            | FullTail
            | OptDot
            | StrTail
            | NameTail
            | NegConst
            | AggBody
            | MsgBody
            | MsgItem
            | Label
            | FieldRest
            | OptListOpt
            | OptListTail
            | ExtBody
            | SvcBody
            | Stream
            | RpcEnd
            | RpcBody
            | EnumBody
            | OneofBody
            | ReservedRest
            | RangesTail
            | RangeEnd
            | RangeTo
            | NamesTail
    )
}

pub const SCALARS: [&str; 15] = [
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
    "sfixed64", "bool", "string", "bytes",
];

pub fn expand(n: N, look: std::option::Option<&Kind>) -> std::option::Option<&'static [S]> {
    let kw = match look {
        Some(Kind::Ident(s)) => s.as_str(),
        _ => "",
    };
    let p = match look {
        Some(Kind::P(c)) => *c,
        _ => 0,
    };
    let ident = matches!(look, Some(Kind::Ident(_)));
    let int = matches!(look, Some(Kind::Int(_)));
    let float = matches!(look, Some(Kind::Float(_)));
    let st = matches!(look, Some(Kind::Str(_)));
    let type_start = ident || p == b'.';
    Some(match n {
        File => {
            if kw == "syntax" {
                &[Nt(Syntax), Nt(Stmts), Eof]
            } else {
                &[Nt(Stmts), Eof]
            }
        }
        Syntax => &[K("syntax"), P(b'='), Nt(Strs), P(b';')],
        Stmts => match look {
            None => &[],
            Some(_) => &[Nt(Stmt), Nt(Stmts)],
        },
        Stmt => match kw {
            "import" => &[Nt(Import)],
            "package" => &[Nt(Package)],
            "option" => &[Nt(Option)],
            "extend" => &[Nt(Extend)],
            "message" => &[Nt(Message)],
            "enum" => &[Nt(Enum)],
            "service" => &[Nt(Service)],
            _ if p == b';' => &[Nt(Empty)],
            _ => return None,
        },
        Empty => &[P(b';')],
        Import => &[K("import"), Nt(ImportKind), Nt(Strs), P(b';')],
        ImportKind => match kw {
            "weak" => &[K("weak")],
            "public" => &[K("public")],
            _ if st => &[],
            _ => return None,
        },
        Package => &[K("package"), Nt(FullIdent), P(b';')],
        FullIdent => &[Ident, Nt(FullTail)],
        FullTail => match p {
            b'.' => &[P(b'.'), Ident, Nt(FullTail)],
            _ => &[],
        },
        TypeName => &[Nt(OptDot), Nt(FullIdent)],
        OptDot => match p {
            b'.' => &[P(b'.')],
            _ => &[],
        },
        Strs => &[Str, Nt(StrTail)],
        StrTail => match st {
            true => &[Str, Nt(StrTail)],
            false => &[],
        },
        Option => &[K("option"), Nt(OptionBody), P(b';')],
        OptionBody => &[Nt(NameParts), P(b'='), Nt(Const)],
        NameParts => &[Nt(NamePart), Nt(NameTail)],
        NameTail => match p {
            b'.' => &[P(b'.'), Nt(NamePart), Nt(NameTail)],
            _ => &[],
        },
        NamePart => match p {
            b'(' => &[P(b'('), Nt(TypeName), P(b')')],
            _ => &[Ident],
        },
        Const => match p {
            b'-' => &[P(b'-'), Nt(NegConst)],
            b'{' => &[Nt(Aggregate)],
            _ if ident => &[Ident],
            _ if int => &[Int],
            _ if float => &[Float],
            _ if st => &[Nt(Strs)],
            _ => return None,
        },
        NegConst => {
            if ident {
                &[Ident]
            } else if int {
                &[Int]
            } else if float {
                &[Float]
            } else {
                return None;
            }
        }
        Aggregate => &[P(b'{'), Nt(AggBody), P(b'}')],
        AggBody => match (look, p) {
            (None, _) => &[],
            (_, b'}') => &[],
            (_, b'{') => &[P(b'{'), Nt(AggBody), P(b'}'), Nt(AggBody)],
            _ => &[Any, Nt(AggBody)],
        },
        Message => &[K("message"), Ident, P(b'{'), Nt(MsgBody), P(b'}')],
        MsgBody => match (look, p) {
            (_, b'}') => &[],
            _ => &[Nt(MsgItem), Nt(MsgBody)],
        },
        MsgItem => match kw {
            "oneof" => &[Nt(Oneof)],
            "enum" => &[Nt(Enum)],
            "message" => &[Nt(Message)],
            "extend" => &[Nt(Extend)],
            "option" => &[Nt(Option)],
            "reserved" => &[Nt(Reserved)],
            "extensions" => &[Nt(Extensions)],
            _ if type_start => &[Nt(Field)],
            _ if p == b';' => &[P(b';')],
            _ => return None,
        },
        Field => &[Nt(Label), Nt(FieldRest)],
        Label => match kw {
            "optional" => &[K("optional")],
            "required" => &[K("required")],
            "repeated" => &[K("repeated")],
            _ => &[],
        },
        FieldRest => match kw {
            "map" => &[Nt(Map)],
            "group" => &[Nt(Group)],
            _ if type_start => &[Nt(Normal)],
            _ => return None,
        },
        Map => &[
            K("map"),
            P(b'<'),
            Nt(FieldType),
            P(b','),
            Nt(FieldType),
            P(b'>'),
            Ident,
            P(b'='),
            Nt(IntLit),
            Nt(OptListOpt),
            P(b';'),
        ],
        Group => {
            &[K("group"), Ident, P(b'='), Nt(IntLit), Nt(OptListOpt), P(b'{'), Nt(MsgBody), P(b'}')]
        }
        Normal => &[Nt(FieldType), Ident, P(b'='), Nt(IntLit), Nt(OptListOpt), P(b';')],
        FieldType => {
            if SCALARS.contains(&kw) {
                &[Ident]
            } else {
                &[Nt(TypeName)]
            }
        }
        IntLit => match p {
            b'-' => &[P(b'-'), Int],
            _ => &[Int],
        },
        OptListOpt => match p {
            b'[' => &[Nt(OptList)],
            _ => &[],
        },
        OptList => &[P(b'['), Nt(OptionBody), Nt(OptListTail), P(b']')],
        OptListTail => match p {
            b',' => &[P(b','), Nt(OptionBody), Nt(OptListTail)],
            _ => &[],
        },
        Extend => &[K("extend"), Nt(TypeName), P(b'{'), Nt(ExtBody), P(b'}')],
        ExtBody => match p {
            b'}' => &[],
            b';' => &[P(b';'), Nt(ExtBody)],
            _ if type_start => &[Nt(Field), Nt(ExtBody)],
            _ => return None,
        },
        Service => &[K("service"), Ident, P(b'{'), Nt(SvcBody), P(b'}')],
        SvcBody => match (kw, p) {
            (_, b'}') => &[],
            (_, b';') => &[P(b';'), Nt(SvcBody)],
            ("rpc", _) => &[Nt(Rpc), Nt(SvcBody)],
            ("option", _) => &[Nt(Option), Nt(SvcBody)],
            _ => return None,
        },
        Rpc => &[
            K("rpc"),
            Ident,
            P(b'('),
            Nt(Stream),
            Nt(TypeName),
            P(b')'),
            K("returns"),
            P(b'('),
            Nt(Stream),
            Nt(TypeName),
            P(b')'),
            Nt(RpcEnd),
        ],
        Stream => match kw {
            "stream" => &[K("stream")],
            _ => &[],
        },
        RpcEnd => match p {
            b';' => &[P(b';')],
            b'{' => &[P(b'{'), Nt(RpcBody), P(b'}')],
            _ => return None,
        },
        RpcBody => match (kw, p) {
            (_, b'}') => &[],
            (_, b';') => &[P(b';'), Nt(RpcBody)],
            ("option", _) => &[Nt(Option), Nt(RpcBody)],
            _ => return None,
        },
        Enum => &[K("enum"), Ident, P(b'{'), Nt(EnumBody), P(b'}')],
        EnumBody => match (kw, p) {
            (_, b'}') => &[],
            (_, b';') => &[P(b';'), Nt(EnumBody)],
            ("option", _) => &[Nt(Option), Nt(EnumBody)],
            ("reserved", _) => &[Nt(Reserved), Nt(EnumBody)],
            _ if ident => &[Nt(EnumValue), Nt(EnumBody)],
            _ => return None,
        },
        EnumValue => &[Ident, P(b'='), Nt(IntLit), Nt(OptListOpt), P(b';')],
        Oneof => &[K("oneof"), Ident, P(b'{'), Nt(OneofBody), P(b'}')],
        OneofBody => match (kw, p) {
            (_, b'}') => &[],
            (_, b';') => &[P(b';'), Nt(OneofBody)],
            ("option", _) => &[Nt(Option), Nt(OneofBody)],
            _ if type_start => &[Nt(Field), Nt(OneofBody)],
            _ => return None,
        },
        Reserved => &[K("reserved"), Nt(ReservedRest), P(b';')],
        ReservedRest => {
            if int || p == b'-' {
                &[Nt(Ranges)]
            } else if st {
                &[Nt(Names)]
            } else {
                return None;
            }
        }
        Ranges => &[Nt(Range), Nt(RangesTail)],
        RangesTail => match p {
            b',' => &[P(b','), Nt(Range), Nt(RangesTail)],
            _ => &[],
        },
        Range => &[Nt(IntLit), Nt(RangeEnd)],
        RangeEnd => match kw {
            "to" => &[K("to"), Nt(RangeTo)],
            _ => &[],
        },
        RangeTo => {
            if kw == "max" {
                &[K("max")]
            } else if int || p == b'-' {
                &[Nt(IntLit)]
            } else {
                return None;
            }
        }
        Names => &[Nt(Strs), Nt(NamesTail)],
        NamesTail => match p {
            b',' => &[P(b','), Nt(Strs), Nt(NamesTail)],
            _ => &[],
        },
        Extensions => &[K("extensions"), Nt(Ranges), Nt(OptListOpt), P(b';')],
    })
}

fn accepts(s: S, k: &Kind) -> bool {
    match (s, k) {
        (K(w), Kind::Ident(i)) => w == i,
        (P(c), Kind::P(d)) => c == *d,
        (Ident, Kind::Ident(_)) => true,
        (Int, Kind::Int(_)) => true,
        (Float, Kind::Float(_)) => true,
        (Str, Kind::Str(_)) => true,
        (Any, Kind::P(b'{' | b'}')) => false,
        (Any, _) => true,
        _ => false,
    }
}

#[derive(Clone, Debug)]
pub enum Child {
    Tok(usize),
    Node(Node),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub n: N,
    pub kids: Vec<Child>,
}

/// Records the configurations the automaton goes through.
pub trait Visitor {
    fn state(&mut self, _hash: u64) {}
    fn step(&mut self, _from: u64, _to: u64) {}
}
impl Visitor for () {}

pub struct Machine {
    /// Symbols with the hash of the stack up to and including them.
    stack: Vec<(S, u64)>,
    pub tree: Vec<Node>,
}

fn mix(h: u64, s: S) -> u64 {
    let code: u64 = match s {
        K(w) => w.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)),
        P(c) => 1000 + c as u64,
        Ident => 2001,
        Int => 2002,
        Float => 2003,
        Str => 2004,
        Any => 2005,
        Nt(n) => 3000 + n as u64,
        Close => return h,
        Eof => 2006,
    };
    let mut x = (h ^ code.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x632BE59BD9B4E019);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^ (x >> 32)
}

impl Default for Machine {
    fn default() -> Self {
        Self::new()
    }
}

impl Machine {
    pub fn new() -> Self {
        let mut m = Machine { stack: vec![], tree: vec![Node { n: N::File, kids: vec![] }] };
        m.push(Nt(N::File));
        m
    }
    fn push(&mut self, s: S) {
        let h = self.stack.last().map_or(0, |x| x.1);
        self.stack.push((s, mix(h, s)));
    }
    pub fn hash(&self) -> u64 {
        self.stack.last().map_or(1, |x| x.1)
    }
    pub fn text_mode(&self) -> bool {
        matches!(self.stack.iter().rev().map(|x| x.0).find(|s| *s != Close), Some(Nt(AggBody)))
    }
    /// The stack without bookkeeping: the canonical state.
    pub fn state(&self) -> Vec<S> {
        self.stack.iter().map(|x| x.0).filter(|s| *s != Close).collect()
    }

    /// Whether the next token may be `look` (None: end of file); applies ε-expansions and consumes it.
    pub fn feed(&mut self, look: std::option::Option<&Kind>, index: usize) -> bool {
        loop {
            let Some(&(top, _)) = self.stack.last() else { return false };
            match top {
                Close => {
                    self.stack.pop();
                    let node = self.tree.pop().unwrap();
                    self.tree.last_mut().unwrap().kids.push(Child::Node(node));
                }
                Nt(n) => {
                    let Some(rhs) = expand(n, look) else { return false };
                    self.stack.pop();
                    if !is_inline(n) && n != N::File {
                        self.push(Close);
                        self.tree.push(Node { n, kids: vec![] });
                    }
                    for s in rhs.iter().rev() {
                        self.push(*s);
                    }
                }
                Eof => {
                    return look.is_none();
                }
                t => {
                    return match look {
                        Some(k) if accepts(t, k) => {
                            self.stack.pop();
                            self.tree.last_mut().unwrap().kids.push(Child::Tok(index));
                            true
                        }
                        _ => false,
                    }
                }
            }
        }
    }
}

pub struct Parsed {
    pub toks: Vec<Tok>,
    /// None if the text is not derivable.
    pub tree: std::option::Option<Node>,
    /// Lexical and syntax violations in source order.
    pub violations: Vec<Violation>,
    pub end_gap: usize,
}

pub fn parse(src: &str, v: &mut dyn Visitor) -> Parsed {
    let mut lx = Lexer::new(src);
    let mut m = Machine::new();
    let mut toks: Vec<Tok> = vec![];
    v.state(m.hash());
    loop {
        let text = m.text_mode();
        match lx.next(text) {
            Lexed::Fatal => return Parsed { toks, tree: None, violations: lx.violations, end_gap: 0 },
            Lexed::Eof { gap } => {
                let ok = m.feed(None, toks.len());
                if !ok {
                    let n = src.len();
                    lx.violations.push(Violation { rule: Rule::SyntaxEof, start: n, end: n, exact: true });
                }
                let tree = if ok { m.tree.pop() } else { None };
                debug_assert!(m.tree.is_empty() || !ok);
                return Parsed { toks, tree, violations: lx.violations, end_gap: gap };
            }
            Lexed::Tok(t) => {
                let from = m.hash();
                let ok = m.feed(Some(&t.kind), toks.len());
                if !ok {
                    lx.violations.push(Violation { rule: Rule::Syntax, start: t.start, end: t.end, exact: true });
                    toks.push(t);
                    return Parsed { toks, tree: None, violations: lx.violations, end_gap: 0 };
                }
                v.state(m.hash());
                v.step(from, m.hash());
                toks.push(t);
            }
        }
    }
}
