//! From a derivation tree to the expected descriptor, source locations and rule violations.

use crate::comments::{attach, Gap};
use crate::gram::{Child, Node, Parsed, N, SCALARS};
use crate::lex::{Kind, Rule, Tok, Violation};
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::source_code_info::Location;
use prost_types::uninterpreted_option::NamePart;
use prost_types::*;

pub const MAX_FIELD: i64 = 536_870_911;

type Span = (usize, usize);

pub struct Sem<'a> {
    src: &'a str,
    toks: &'a [Tok],
    lines: Vec<usize>,
    proto3: bool,
    path: Vec<i32>,
    pub locs: Vec<Location>,
    pub violations: Vec<Violation>,
    end_gap: usize,
}

fn node<'n>(c: &'n Child) -> &'n Node {
    match c {
        Child::Node(n) => n,
        Child::Tok(_) => panic!("model: token where node expected"),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Scope {
    Message,
    Oneof,
    Extend,
}

enum Val {
    Ident(bool, String),
    Int(bool, u64),
    Float(f64),
    Str(Vec<u8>),
    Agg(String),
}

struct Opt {
    name: Vec<NamePart>,
    val: Val,
    span: Span,
    val_span: Span,
}
impl Opt {
    fn is(&self, s: &str) -> bool {
        self.name.len() == 1 && !self.name[0].is_extension && self.name[0].name_part == s
    }
}

struct IntLit {
    neg: bool,
    v: u64,
    span: Span,
}
impl IntLit {
    fn value(&self) -> i128 {
        if self.neg { -(self.v as i128) } else { self.v as i128 }
    }
}

impl<'a> Sem<'a> {
    pub fn new(src: &'a str, p: &'a Parsed) -> Self {
        let lines = std::iter::once(0).chain(src.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1)).collect();
        Sem {
            src,
            toks: &p.toks,
            lines,
            proto3: false,
            path: vec![],
            locs: vec![],
            violations: vec![],
            end_gap: p.end_gap,
        }
    }

    // ---- tokens and spans
    fn first(&self, n: &Node) -> std::option::Option<usize> {
        n.kids.iter().find_map(|c| match c {
            Child::Tok(i) => Some(*i),
            Child::Node(n) => self.first(n),
        })
    }
    fn last(&self, n: &Node) -> std::option::Option<usize> {
        n.kids.iter().rev().find_map(|c| match c {
            Child::Tok(i) => Some(*i),
            Child::Node(n) => self.last(n),
        })
    }
    fn span(&self, n: &Node) -> Span {
        (self.toks[self.first(n).unwrap()].start, self.toks[self.last(n).unwrap()].end)
    }
    fn tok_span(&self, i: usize) -> Span {
        (self.toks[i].start, self.toks[i].end)
    }
    fn kw(&self, c: &Child) -> &str {
        match c {
            Child::Tok(i) => match &self.toks[*i].kind {
                Kind::Ident(s) => s,
                _ => "",
            },
            _ => "",
        }
    }
    fn p(&self, c: &Child) -> u8 {
        match c {
            Child::Tok(i) => match &self.toks[*i].kind {
                Kind::P(c) => *c,
                _ => 0,
            },
            _ => 0,
        }
    }
    fn idx(&self, c: &Child) -> usize {
        match c {
            Child::Tok(i) => *i,
            Child::Node(_) => panic!("model: node where token expected"),
        }
    }
    fn line_col(&self, off: usize) -> (i32, i32) {
        let line = self.lines.partition_point(|l| *l <= off) - 1;
        (line as i32, (off - self.lines[line]) as i32)
    }
    fn gap_before(&self, i: usize) -> Gap {
        let (start, end, closes) = if i < self.toks.len() {
            let t = &self.toks[i];
            (t.gap, t.start, matches!(t.kind, Kind::P(b'}' | b']' | b')')))
        } else {
            (self.end_gap, self.src.len(), true)
        };
        attach(&self.src[start..end], i == 0, closes)
    }

    // ---- locations
    fn loc(&mut self, sub: &[i32], s: Span) {
        let mut path = self.path.clone();
        path.extend_from_slice(sub);
        let (l1, c1) = self.line_col(s.0);
        let (l2, c2) = self.line_col(s.1);
        let span = if l1 == l2 { vec![l1, c1, c2] } else { vec![l1, c1, l2, c2] };
        self.locs.push(Location { path, span, ..Default::default() });
    }
    /// Location of a declaration with the comments around it; `anchor` is the token that ends its head.
    fn decl(&mut self, sub: &[i32], n: &Node, anchor: usize) {
        let s = self.span(n);
        self.loc(sub, s);
        let before = self.gap_before(self.first(n).unwrap());
        let after = self.gap_before(anchor + 1);
        let l = self.locs.last_mut().unwrap();
        l.leading_comments = before.leading;
        l.leading_detached_comments = before.detached;
        l.trailing_comments = after.trailing;
    }
    fn bad(&mut self, rule: Rule, s: Span) {
        self.violations.push(Violation { rule, start: s.0, end: s.1, exact: true });
    }
    fn at<R>(&mut self, sub: &[i32], f: impl FnOnce(&mut Self) -> R) -> R {
        let n = self.path.len();
        self.path.extend_from_slice(sub);
        let r = f(self);
        self.path.truncate(n);
        r
    }

    // ---- leaves
    fn ident(&self, i: usize) -> String {
        match &self.toks[i].kind {
            Kind::Ident(s) => s.clone(),
            k => panic!("model: {k:?} where identifier expected"),
        }
    }
    fn int(&self, n: &Node) -> IntLit {
        debug_assert!(n.n == N::IntLit);
        let neg = n.kids.len() == 2;
        let i = self.idx(n.kids.last().unwrap());
        let Kind::Int(v) = self.toks[i].kind else { panic!() };
        IntLit { neg, v, span: self.span(n) }
    }
    fn bytes(&self, n: &Node) -> Vec<u8> {
        debug_assert!(n.n == N::Strs);
        let mut out = vec![];
        for c in &n.kids {
            let Kind::Str(s) = &self.toks[self.idx(c)].kind else { panic!() };
            out.extend_from_slice(s);
        }
        out
    }
    fn text(&mut self, n: &Node) -> String {
        let b = self.bytes(n);
        match String::from_utf8(b) {
            Ok(s) => s,
            Err(e) => {
                let s = self.span(n);
                self.bad(Rule::NotUtf8, s);
                String::from_utf8_lossy(e.as_bytes()).into_owned()
            }
        }
    }
    /// TypeName or FullIdent: the spelling without whitespace and comments.
    fn name(&self, n: &Node) -> String {
        let mut out = String::new();
        for c in &n.kids {
            match c {
                Child::Node(n) => out += &self.name(n),
                Child::Tok(i) => match &self.toks[*i].kind {
                    Kind::Ident(s) => out += s,
                    Kind::P(b'.') => out.push('.'),
                    _ => panic!(),
                },
            }
        }
        out
    }

    // ---- file
    pub fn file(&mut self, name: &str, root: &Node) -> FileDescriptorProto {
        let mut f = FileDescriptorProto { name: Some(name.to_owned()), ..Default::default() };
        if let (Some(a), Some(b)) = (self.first(root), self.last(root)) {
            let s = (self.toks[a].start, self.toks[b].end);
            self.loc(&[], s);
        }
        let mut options = vec![];
        let mut package: std::option::Option<&Node> = None;
        let nodes: Vec<&Node> = root.kids.iter().map(node).collect();
        if let Some(s) = nodes.first().filter(|n| n.n == N::Syntax) {
            let lit = node(&s.kids[2]);
            match self.bytes(lit).as_slice() {
                b"proto2" => {}
                b"proto3" => {
                    self.proto3 = true;
                    f.syntax = Some("proto3".into());
                }
                _ => {
                    let sp = self.span(lit);
                    self.bad(Rule::UnknownSyntax, sp)
                }
            }
            let anchor = self.idx(&s.kids[3]);
            self.decl(&[12], s, anchor);
        }
        for n in nodes {
            match n.n {
                N::Syntax | N::Empty => {}
                N::Package => {
                    if package.is_some() {
                        let s = self.span(n);
                        self.bad(Rule::DuplicatePackage, s);
                    } else {
                        package = Some(n);
                        f.package = Some(self.name(node(&n.kids[1])));
                        let anchor = self.last(n).unwrap();
                        self.decl(&[2], n, anchor);
                    }
                }
                N::Import => {
                    let k = f.dependency.len() as i32;
                    let lit = node(&n.kids[n.kids.len() - 2]);
                    let value = self.text(lit);
                    if !valid_import(&value) {
                        let s = self.span(lit);
                        self.bad(Rule::ImportPath, s);
                    }
                    f.dependency.push(value);
                    let anchor = self.last(n).unwrap();
                    self.decl(&[3, k], n, anchor);
                    let kw = self.kw(&n.kids[1]).to_owned();
                    if kw == "public" || kw == "weak" {
                        let s = self.tok_span(self.idx(&n.kids[1]));
                        let (tag, list) = if kw == "public" {
                            (10, &mut f.public_dependency)
                        } else {
                            (11, &mut f.weak_dependency)
                        };
                        list.push(k);
                        let j = list.len() as i32 - 1;
                        self.loc(&[tag, j], s);
                    }
                }
                N::Option => options.push(n),
                N::Message => {
                    let k = f.message_type.len() as i32;
                    let m = self.at(&[4, k], |s| s.message(n));
                    f.message_type.push(m);
                }
                N::Enum => {
                    let k = f.enum_type.len() as i32;
                    let m = self.at(&[5, k], |s| s.enum_(n));
                    f.enum_type.push(m);
                }
                N::Service => {
                    let k = f.service.len() as i32;
                    let m = self.at(&[6, k], |s| s.service(n));
                    f.service.push(m);
                }
                N::Extend => self.extend(n, 7, &mut f.extension, 4, &mut f.message_type),
                _ => panic!("model: {:?} in file", n.n),
            }
        }
        f.options = self
            .options(8, &options)
            .map(|u| FileOptions { uninterpreted_option: u, ..Default::default() });
        // locations of one path keep the order in which they were recorded, which is source order
        let mut locs = std::mem::take(&mut self.locs);
        locs.sort_by(|a, b| a.path.cmp(&b.path));
        f.source_code_info = Some(SourceCodeInfo { location: locs });
        f
    }

    // ---- messages
    fn message(&mut self, n: &Node) -> DescriptorProto {
        let anchor = self.idx(&n.kids[2]);
        self.decl(&[], n, anchor);
        let name = self.idx(&n.kids[1]);
        let s = self.tok_span(name);
        self.loc(&[1], s);
        let m = self.body(&n.kids[3..n.kids.len() - 1]);
        DescriptorProto { name: Some(self.ident(name)), ..m }
    }

    fn body(&mut self, items: &[Child]) -> DescriptorProto {
        let mut m = DescriptorProto::default();
        let mut options = vec![];
        let mut reserved = vec![];
        let mut extensions = vec![];
        let mut next_real_oneof = 0;
        let mut synthetic: Vec<usize> = vec![]; // indices of fields
        for c in items {
            let Child::Node(n) = c else { continue };
            match n.n {
                N::Field => {
                    let k = m.field.len();
                    let mut nested = std::mem::take(&mut m.nested_type);
                    let f = self.field(n, 2, k, 3, &mut nested, Scope::Message);
                    m.nested_type = nested;
                    if f.proto3_optional == Some(true) {
                        synthetic.push(k);
                    }
                    m.field.push(f);
                }
                N::Enum => {
                    let k = m.enum_type.len() as i32;
                    let e = self.at(&[4, k], |s| s.enum_(n));
                    m.enum_type.push(e);
                }
                N::Message => {
                    let k = m.nested_type.len() as i32;
                    let e = self.at(&[3, k], |s| s.message(n));
                    m.nested_type.push(e);
                }
                N::Extend => {
                    let (mut e, mut t) = (std::mem::take(&mut m.extension), std::mem::take(&mut m.nested_type));
                    self.extend(n, 6, &mut e, 3, &mut t);
                    m.extension = e;
                    m.nested_type = t;
                }
                N::Oneof => {
                    let k = next_real_oneof;
                    next_real_oneof += 1;
                    let anchor = self.idx(&n.kids[2]);
                    let name = self.idx(&n.kids[1]);
                    let mut opts = vec![];
                    let mut any = false;
                    self.decl(&[8, k], n, anchor);
                    let s = self.tok_span(name);
                    self.loc(&[8, k, 1], s);
                    for c in &n.kids[3..] {
                        let Child::Node(x) = c else { continue };
                        match x.n {
                            N::Option => opts.push(x),
                            N::Field => {
                                any = true;
                                let i = m.field.len();
                                let mut nested = std::mem::take(&mut m.nested_type);
                                let mut f = self.field(x, 2, i, 3, &mut nested, Scope::Oneof);
                                m.nested_type = nested;
                                f.oneof_index = Some(k);
                                m.field.push(f);
                            }
                            _ => panic!(),
                        }
                    }
                    if !any {
                        let s = self.span(n);
                        self.bad(Rule::EmptyOneof, s);
                    }
                    let options = self
                        .at(&[8, k], |s| s.options(2, &opts))
                        .map(|u| OneofOptions { uninterpreted_option: u });
                    m.oneof_decl.push(OneofDescriptorProto { name: Some(self.ident(name)), options });
                }
                N::Option => options.push(n),
                N::Reserved => reserved.push(n),
                N::Extensions => extensions.push(n),
                _ => panic!("model: {:?} in message", n.n),
            }
        }
        // a synthetic oneof per proto3 optional field, after the declared ones
        for i in synthetic {
            let mut name = m.field[i].name().to_owned();
            if !name.starts_with('_') {
                name.insert(0, '_');
            } else {
                name.insert(0, 'X');
            }
            while m.field.iter().any(|f| f.name() == name) || m.oneof_decl.iter().any(|o| o.name() == name) {
                name.insert(0, 'X');
            }
            m.field[i].oneof_index = Some(m.oneof_decl.len() as i32);
            m.oneof_decl.push(OneofDescriptorProto { name: Some(name), options: None });
        }
        let mset = options
            .iter()
            .map(|o| self.peek_option(o))
            .find(|o| o.0 == "message_set_wire_format")
            .is_some_and(|o| o.1);
        let max = if mset { i32::MAX as i64 - 1 } else { MAX_FIELD };

        for r in reserved {
            let semi = self.idx(&r.kids[2]);
            let what = node(&r.kids[1]);
            if what.n == N::Ranges {
                self.decl(&[9], r, semi);
                for c in what.kids.iter().filter(|c| matches!(c, Child::Node(_))) {
                    let k = m.reserved_range.len() as i32;
                    let (start, end) = self.at(&[9, k], |s| s.range(node(c), 1, MAX_FIELD, max, Rule::FieldNumber));
                    m.reserved_range.push(descriptor_proto::ReservedRange {
                        start: Some(start as i32),
                        end: Some((end + 1) as i32),
                    });
                }
            } else {
                self.decl(&[10], r, semi);
                for (name, s) in self.names(what) {
                    let k = m.reserved_name.len() as i32;
                    self.loc(&[10, k], s);
                    m.reserved_name.push(name);
                }
            }
        }
        for e in extensions {
            let semi = self.last(e).unwrap();
            self.decl(&[5], e, semi);
            let list = e.kids.iter().find_map(|c| match c {
                Child::Node(n) if n.n == N::OptList => Some(n),
                _ => None,
            });
            for c in node(&e.kids[1]).kids.iter().filter(|c| matches!(c, Child::Node(_))) {
                let k = m.extension_range.len() as i32;
                let (start, end) = self.at(&[5, k], |s| s.range(node(c), 1, MAX_FIELD, max, Rule::FieldNumber));
                let options = self.at(&[5, k], |s| {
                    let mut o = s.opt_list(list);
                    s.bracketed(3, list, &mut o)
                });
                m.extension_range.push(descriptor_proto::ExtensionRange {
                    start: Some(start as i32),
                    end: Some((end + 1) as i32),
                    options: options.map(|u| ExtensionRangeOptions { uninterpreted_option: u }),
                });
            }
        }
        m.options = self
            .options(7, &options)
            .map(|u| MessageOptions { uninterpreted_option: u, ..Default::default() });
        m
    }

    /// Name (if a single plain identifier) and whether the value is the identifier `true`.
    fn peek_option(&self, o: &Node) -> (String, bool) {
        let b = node(&o.kids[1]);
        let name = node(&b.kids[0]);
        let single = name.kids.len() == 1 && node(&name.kids[0]).kids.len() == 1;
        let n = if single { self.ident(self.first(name).unwrap()) } else { String::new() };
        let v = node(&b.kids[2]);
        (n, v.kids.len() == 1 && self.kw(&v.kids[0]) == "true")
    }

    fn names(&mut self, n: &Node) -> Vec<(String, Span)> {
        let mut out = vec![];
        for c in &n.kids {
            if let Child::Node(s) = c {
                let before = self.violations.len();
                let t = self.text(s);
                let sp = self.span(s);
                let b = t.as_bytes();
                let ok = !b.is_empty()
                    && !b[0].is_ascii_digit()
                    && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_');
                if !ok && self.violations.len() == before {
                    self.bad(Rule::ReservedIdent, sp);
                }
                out.push((t, sp));
            }
        }
        out
    }

    fn number(&mut self, i: &IntLit, lo: i64, hi: i64, rule: Rule) -> i64 {
        let v = i.value();
        if v < lo as i128 || v > hi as i128 {
            self.bad(rule, i.span);
            return 0;
        }
        v as i64
    }

    fn range(&mut self, n: &Node, lo: i64, hi: i64, max: i64, rule: Rule) -> (i64, i64) {
        let s = self.span(n);
        self.loc(&[], s);
        let a = self.int(node(&n.kids[0]));
        self.loc(&[1], a.span);
        let start = self.number(&a, lo, hi, rule);
        match n.kids.get(2) {
            None => {
                self.loc(&[2], a.span);
                (start, start)
            }
            Some(Child::Tok(i)) => {
                let s = self.tok_span(*i);
                self.loc(&[2], s);
                (start, max)
            }
            Some(Child::Node(x)) => {
                let b = self.int(x);
                self.loc(&[2], b.span);
                let end = self.number(&b, lo, hi, rule);
                (start, end)
            }
        }
    }

    // ---- fields
    fn extend(
        &mut self,
        n: &Node,
        tag: i32,
        out: &mut Vec<FieldDescriptorProto>,
        msg_tag: i32,
        msgs: &mut Vec<DescriptorProto>,
    ) {
        let anchor = self.idx(&n.kids[2]);
        self.decl(&[tag], n, anchor);
        let target = node(&n.kids[1]);
        for c in &n.kids[3..] {
            let Child::Node(f) = c else { continue };
            let s = self.span(target);
            self.loc(&[tag, out.len() as i32, 2], s);
            let mut d = self.field(f, tag, out.len(), msg_tag, msgs, Scope::Extend);
            d.extendee = Some(self.name(target));
            out.push(d);
        }
    }

    fn field(
        &mut self,
        n: &Node,
        tag: i32,
        index: usize,
        msg_tag: i32,
        msgs: &mut Vec<DescriptorProto>,
        scope: Scope,
    ) -> FieldDescriptorProto {
        let mut d = FieldDescriptorProto::default();
        let me = [tag, index as i32];
        let whole = self.span(n);
        let (label, kind) = match n.kids.len() {
            2 => (Some(self.idx(&n.kids[0])), node(&n.kids[1])),
            _ => (None, node(&n.kids[0])),
        };
        let label_word = label.map(|l| self.ident(l)).unwrap_or_default();
        let k = &kind.kids;
        // positions of the common parts
        let list = k.iter().find_map(|c| match c {
            Child::Node(x) if x.n == N::OptList => Some(x),
            _ => None,
        });
        let eq = k.iter().position(|c| self.p(c) == b'=').unwrap();
        let name_tok = self.idx(&k[eq - 1]);
        let name_span = self.tok_span(name_tok);
        let number = self.int(node(&k[eq + 1]));
        let mut opts = self.opt_list(list);

        self.at(&me, |s| {
            s.loc(&[1], name_span);
            s.loc(&[3], number.span);
        });
        let v = self.number(&number, 1, MAX_FIELD, Rule::FieldNumber);
        d.number = Some(v as i32);
        let written = self.ident(name_tok);
        d.name = Some(if kind.n == N::Group { written.to_ascii_lowercase() } else { written.clone() });

        // label
        if kind.n == N::Map {
            d.label = Some(Label::Repeated as i32);
            match scope {
                Scope::Oneof => self.bad(Rule::OneofMap, whole),
                Scope::Extend => self.bad(Rule::ExtendMap, whole),
                Scope::Message => {
                    if let Some(l) = label {
                        let s = self.tok_span(l);
                        self.bad(Rule::MapLabel, s)
                    }
                }
            }
        } else {
            match (label, scope) {
                (Some(l), Scope::Oneof) => {
                    let s = self.tok_span(l);
                    self.bad(Rule::OneofLabel, s);
                }
                (Some(l), _) => {
                    let s = self.tok_span(l);
                    if label_word == "required" && scope == Scope::Extend {
                        self.bad(Rule::ExtendRequired, s);
                    } else if label_word == "required" && self.proto3 {
                        self.bad(Rule::Proto3Required, s);
                    } else {
                        self.at(&me, |x| x.loc(&[4], s));
                        d.label = Some(match label_word.as_str() {
                            "optional" => Label::Optional,
                            "required" => Label::Required,
                            _ => Label::Repeated,
                        } as i32);
                    }
                }
                (None, Scope::Oneof) => d.label = Some(Label::Optional as i32),
                (None, _) => {
                    if !self.proto3 {
                        self.bad(Rule::Proto2NoLabel, whole);
                    }
                    d.label = Some(Label::Optional as i32)
                }
            }
            if self.proto3 && label_word == "optional" {
                d.proto3_optional = Some(true);
            }
        }

        // default
        let default = opts.iter().position(|o| o.is("default")).map(|i| opts.remove(i));
        if let Some(o) = &default {
            if kind.n == N::Map {
                self.bad(Rule::DefaultOnMap, o.span);
            } else if label_word == "repeated" {
                self.bad(Rule::DefaultOnRepeated, o.span);
            } else if self.proto3 {
                self.bad(Rule::DefaultInProto3, o.span);
            }
        }

        let semi = self.last(n).unwrap();
        match kind.n {
            N::Normal => {
                self.at(&me, |s| s.decl(&[], n, semi));
                let ty = node(&k[0]);
                let ty_span = self.span(ty);
                let scalar = match ty.kids[0] {
                    Child::Tok(i) => Some(self.ident(i)),
                    _ => None,
                };
                match scalar {
                    Some(t) => {
                        let t = scalar_type(&t);
                        d.r#type = Some(t as i32);
                        self.at(&me, |s| s.loc(&[5], ty_span));
                        if let Some(o) = default {
                            self.at(&me, |s| s.loc(&[7], o.val_span));
                            d.default_value = self.default_value(t, &o);
                        }
                    }
                    None => {
                        d.type_name = Some(self.name(ty));
                        self.at(&me, |s| s.loc(&[6], ty_span));
                        if let Some(o) = default {
                            self.at(&me, |s| s.loc(&[7], o.val_span));
                            d.default_value = Some(match &o.val {
                                Val::Ident(neg, s) => format!("{}{}", if *neg { "-" } else { "" }, s),
                                // any other kind is rejected when the type turns out to be an enum
                                _ => UNSPECIFIED.to_owned(),
                            });
                        }
                    }
                }
            }
            N::Group => {
                let b = name_span;
                if !self.src.as_bytes()[b.0].is_ascii_uppercase() {
                    self.bad(Rule::GroupName, b);
                }
                if self.proto3 {
                    self.bad(Rule::Proto3Group, whole);
                }
                if let Some(o) = default {
                    self.bad(Rule::DefaultOnGroup, o.span);
                }
                d.r#type = Some(Type::Group as i32);
                d.type_name = Some(written.clone());
                let kw = self.tok_span(self.idx(&k[0]));
                self.at(&me, |s| {
                    s.loc(&[], whole);
                    s.loc(&[5], kw);
                    s.loc(&[6], name_span);
                });
                let brace = k.iter().position(|c| self.p(c) == b'{').unwrap();
                let anchor = self.idx(&k[brace]);
                let slot = msgs.len();
                let m = self.at(&[msg_tag, slot as i32], |s| {
                    s.decl(&[], n, anchor);
                    s.loc(&[1], name_span);
                    s.body(&k[brace + 1..k.len() - 1])
                });
                msgs.push(DescriptorProto { name: Some(written), ..m });
            }
            N::Map => {
                self.at(&me, |s| s.decl(&[], n, semi));
                let close = k.iter().position(|c| self.p(c) == b'>').unwrap();
                let s = (self.tok_span(self.idx(&k[0])).0, self.tok_span(self.idx(&k[close])).1);
                self.at(&me, |x| x.loc(&[6], s));
                d.r#type = Some(Type::Message as i32);
                let entry = camel(&written) + "Entry";
                d.type_name = Some(entry.clone());
                let (kt, vt) = (node(&k[2]), node(&k[4]));
                let simple = |name: &str, number: i32| FieldDescriptorProto {
                    name: Some(name.into()),
                    json_name: Some(name.into()),
                    number: Some(number),
                    label: Some(Label::Optional as i32),
                    ..Default::default()
                };
                let mut key = simple("key", 1);
                match kt.kids[0] {
                    Child::Tok(i) if !matches!(self.ident(i).as_str(), "double" | "float" | "bytes") => {
                        key.r#type = Some(scalar_type(&self.ident(i)) as i32)
                    }
                    _ => {
                        let s = self.span(kt);
                        self.bad(Rule::MapKey, s)
                    }
                }
                let mut value = simple("value", 2);
                match vt.kids[0] {
                    Child::Tok(i) => value.r#type = Some(scalar_type(&self.ident(i)) as i32),
                    _ => value.type_name = Some(self.name(vt)),
                }
                msgs.push(DescriptorProto {
                    name: Some(entry),
                    field: vec![key, value],
                    options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                    ..Default::default()
                });
            }
            _ => panic!(),
        }

        // json_name
        if let Some(i) = opts.iter().position(|o| o.is("json_name")) {
            let o = opts.remove(i);
            self.at(&me, |s| {
                s.loc(&[10], o.span);
                s.loc(&[10], o.val_span);
            });
            d.json_name = match &o.val {
                Val::Str(b) => match String::from_utf8(b.clone()) {
                    Ok(s) => Some(s),
                    Err(_) => {
                        self.bad(Rule::NotUtf8, o.val_span);
                        None
                    }
                },
                _ => {
                    self.bad(Rule::ValueType, o.val_span);
                    None
                }
            };
        }
        let u = self.at(&me, |s| s.bracketed(8, list, &mut opts));
        d.options = u.map(|u| FieldOptions { uninterpreted_option: u, ..Default::default() });
        d
    }

    fn default_value(&mut self, t: Type, o: &Opt) -> std::option::Option<String> {
        let int = |lo: i128, hi: i128| -> Result<String, Rule> {
            match o.val {
                Val::Int(neg, v) => {
                    let v = if neg { -(v as i128) } else { v as i128 };
                    // "-0" is not a value of an unsigned type
                    if v < lo || v > hi || (neg && lo == 0) {
                        Err(Rule::ValueRange)
                    } else {
                        Ok(v.to_string())
                    }
                }
                _ => Err(Rule::ValueType),
            }
        };
        let r = match t {
            Type::Double | Type::Float => match &o.val {
                Val::Int(neg, v) => Ok(if *neg { -(*v as f64) } else { *v as f64 }),
                Val::Float(v) => Ok(*v),
                Val::Ident(neg, s) if s == "inf" => Ok(if *neg { f64::NEG_INFINITY } else { f64::INFINITY }),
                Val::Ident(_, s) if s == "nan" => Ok(f64::NAN),
                _ => Err(Rule::ValueType),
            }
            .map(|v| format!("{}{:?}", FLOAT, v)),
            Type::Int64 | Type::Sint64 | Type::Sfixed64 => int(i64::MIN as i128, i64::MAX as i128),
            Type::Int32 | Type::Sint32 | Type::Sfixed32 => int(i32::MIN as i128, i32::MAX as i128),
            Type::Uint64 | Type::Fixed64 => int(0, u64::MAX as i128),
            Type::Uint32 | Type::Fixed32 => int(0, u32::MAX as i128),
            Type::Bool => match &o.val {
                Val::Ident(false, s) if s == "true" || s == "false" => Ok(s.clone()),
                _ => Err(Rule::ValueType),
            },
            Type::String => match &o.val {
                Val::Str(b) => String::from_utf8(b.clone()).map_err(|_| Rule::NotUtf8),
                _ => Err(Rule::ValueType),
            },
            Type::Bytes => match &o.val {
                Val::Str(b) => Ok(c_escape(b)),
                _ => Err(Rule::ValueType),
            },
            _ => panic!(),
        };
        match r {
            Ok(s) => Some(s),
            Err(rule) => {
                self.bad(rule, o.val_span);
                None
            }
        }
    }

    // ---- options
    fn body_opt(&mut self, b: &Node) -> Opt {
        debug_assert!(b.n == N::OptionBody);
        let mut name = vec![];
        for c in &node(&b.kids[0]).kids {
            let Child::Node(part) = c else { continue };
            if part.kids.len() == 1 {
                name.push(NamePart { name_part: self.ident(self.idx(&part.kids[0])), is_extension: false });
            } else {
                name.push(NamePart { name_part: self.name(node(&part.kids[1])), is_extension: true });
            }
        }
        let c = node(&b.kids[2]);
        let neg = c.kids.len() == 2;
        let val = match c.kids.last().unwrap() {
            Child::Tok(i) => match &self.toks[*i].kind {
                Kind::Ident(s) => Val::Ident(neg, s.clone()),
                Kind::Int(v) => Val::Int(neg, *v),
                Kind::Float(v) => Val::Float(if neg { -v } else { *v }),
                _ => panic!(),
            },
            Child::Node(n) if n.n == N::Strs => Val::Str(self.bytes(n)),
            Child::Node(n) => {
                let kinds: Vec<Kind> = n.kids[1..n.kids.len() - 1]
                    .iter()
                    .map(|c| self.toks[self.idx(c)].kind.clone())
                    .collect();
                Val::Agg(canonical_tokens(&kinds))
            }
        };
        Opt { name, val, span: self.span(b), val_span: self.span(c) }
    }

    fn opt_list(&mut self, list: std::option::Option<&Node>) -> Vec<Opt> {
        let mut out = vec![];
        if let Some(l) = list {
            for c in &l.kids {
                if let Child::Node(b) = c {
                    out.push(self.body_opt(b));
                }
            }
        }
        out
    }

    fn bracketed(
        &mut self,
        tag: i32,
        list: std::option::Option<&Node>,
        opts: &mut Vec<Opt>,
    ) -> std::option::Option<Vec<UninterpretedOption>> {
        let l = list?;
        let s = self.span(l);
        self.loc(&[tag], s);
        let mut out = vec![];
        for o in opts.drain(..) {
            self.loc(&[tag, 999, out.len() as i32], o.span);
            out.push(self.uninterpreted(o));
        }
        if out.is_empty() { None } else { Some(out) }
    }

    fn options(&mut self, tag: i32, list: &[&Node]) -> std::option::Option<Vec<UninterpretedOption>> {
        let mut out = vec![];
        for n in list {
            let s = self.span(n);
            self.loc(&[tag], s);
            let semi = self.idx(&n.kids[2]);
            self.decl(&[tag, 999, out.len() as i32], n, semi);
            let o = self.body_opt(node(&n.kids[1]));
            out.push(self.uninterpreted(o));
        }
        if out.is_empty() { None } else { Some(out) }
    }

    fn uninterpreted(&mut self, o: Opt) -> UninterpretedOption {
        let mut u = UninterpretedOption { name: o.name, ..Default::default() };
        match o.val {
            Val::Ident(false, s) => u.identifier_value = Some(s),
            Val::Ident(true, _) => self.bad(Rule::NegativeIdent, o.val_span),
            Val::Int(false, v) => u.positive_int_value = Some(v),
            Val::Int(true, v) => {
                if v > 1 << 63 {
                    self.bad(Rule::OptionIntRange, o.val_span)
                } else {
                    u.negative_int_value = Some((-(v as i128)) as i64)
                }
            }
            Val::Float(v) => u.double_value = Some(v),
            Val::Str(b) => u.string_value = Some(b),
            Val::Agg(t) => u.aggregate_value = Some(t),
        }
        u
    }

    // ---- enums and services
    fn enum_(&mut self, n: &Node) -> EnumDescriptorProto {
        let mut e = EnumDescriptorProto::default();
        let anchor = self.idx(&n.kids[2]);
        self.decl(&[], n, anchor);
        let name = self.idx(&n.kids[1]);
        let s = self.tok_span(name);
        self.loc(&[1], s);
        e.name = Some(self.ident(name));
        let mut options = vec![];
        for c in &n.kids[3..] {
            let Child::Node(x) = c else { continue };
            match x.n {
                N::Option => options.push(x),
                N::EnumValue => {
                    let k = e.value.len() as i32;
                    let v = self.at(&[2, k], |s| s.enum_value(x));
                    e.value.push(v);
                }
                N::Reserved => {
                    let semi = self.idx(&x.kids[2]);
                    let what = node(&x.kids[1]);
                    if what.n == N::Ranges {
                        self.decl(&[4], x, semi);
                        for c in what.kids.iter().filter(|c| matches!(c, Child::Node(_))) {
                            let k = e.reserved_range.len() as i32;
                            let (start, end) = self.at(&[4, k], |s| {
                                s.range(node(c), i32::MIN as i64, i32::MAX as i64, i32::MAX as i64, Rule::EnumNumber)
                            });
                            e.reserved_range.push(enum_descriptor_proto::EnumReservedRange {
                                start: Some(start as i32),
                                end: Some(end as i32),
                            });
                        }
                    } else {
                        self.decl(&[5], x, semi);
                        for (name, s) in self.names(what) {
                            let k = e.reserved_name.len() as i32;
                            self.loc(&[5, k], s);
                            e.reserved_name.push(name);
                        }
                    }
                }
                _ => panic!(),
            }
        }
        e.options = self
            .options(3, &options)
            .map(|u| EnumOptions { uninterpreted_option: u, ..Default::default() });
        e
    }

    fn enum_value(&mut self, n: &Node) -> EnumValueDescriptorProto {
        let semi = self.last(n).unwrap();
        self.decl(&[], n, semi);
        let name = self.idx(&n.kids[0]);
        let s = self.tok_span(name);
        self.loc(&[1], s);
        let i = self.int(node(&n.kids[2]));
        self.loc(&[2], i.span);
        let number = self.number(&i, i32::MIN as i64, i32::MAX as i64, Rule::EnumNumber);
        let list = n.kids.iter().find_map(|c| match c {
            Child::Node(x) if x.n == N::OptList => Some(x),
            _ => None,
        });
        let mut opts = self.opt_list(list);
        let u = self.bracketed(3, list, &mut opts);
        EnumValueDescriptorProto {
            name: Some(self.ident(name)),
            number: Some(number as i32),
            options: u.map(|u| EnumValueOptions { uninterpreted_option: u, ..Default::default() }),
        }
    }

    fn service(&mut self, n: &Node) -> ServiceDescriptorProto {
        let mut d = ServiceDescriptorProto::default();
        let anchor = self.idx(&n.kids[2]);
        self.decl(&[], n, anchor);
        let name = self.idx(&n.kids[1]);
        let s = self.tok_span(name);
        self.loc(&[1], s);
        d.name = Some(self.ident(name));
        let mut options = vec![];
        for c in &n.kids[3..] {
            let Child::Node(x) = c else { continue };
            match x.n {
                N::Option => options.push(x),
                N::Rpc => {
                    let k = d.method.len() as i32;
                    let m = self.at(&[2, k], |s| s.rpc(x));
                    d.method.push(m);
                }
                _ => panic!(),
            }
        }
        d.options = self
            .options(3, &options)
            .map(|u| ServiceOptions { uninterpreted_option: u, ..Default::default() });
        d
    }

    fn rpc(&mut self, n: &Node) -> MethodDescriptorProto {
        let k = &n.kids;
        // the head ends at ';' or at '{'
        let end = k
            .iter()
            .rposition(|c| self.p(c) == b'{' || (self.p(c) == b')'))
            .map(|i| if self.p(&k[i]) == b'{' { i } else { i + 1 })
            .unwrap();
        let anchor = self.idx(&k[end]);
        self.decl(&[], n, anchor);
        let name = self.idx(&k[1]);
        let s = self.tok_span(name);
        self.loc(&[1], s);
        let mut d = MethodDescriptorProto { name: Some(self.ident(name)), ..Default::default() };
        let types: Vec<usize> = (0..k.len()).filter(|i| matches!(&k[*i], Child::Node(x) if x.n == N::TypeName)).collect();
        for (j, &i) in types.iter().enumerate() {
            let t = node(&k[i]);
            let s = self.span(t);
            self.loc(&[2 + j as i32], s);
            let stream = matches!(&k[i - 1], Child::Tok(_)) && self.kw(&k[i - 1]) == "stream";
            if stream {
                let s = self.tok_span(self.idx(&k[i - 1]));
                self.loc(&[5 + j as i32], s);
            }
            let flag = if stream { Some(true) } else { None };
            if j == 0 {
                d.input_type = Some(self.name(t));
                d.client_streaming = flag;
            } else {
                d.output_type = Some(self.name(t));
                d.server_streaming = flag;
            }
        }
        let options: Vec<&Node> = k
            .iter()
            .filter_map(|c| match c {
                Child::Node(x) if x.n == N::Option => Some(x),
                _ => None,
            })
            .collect();
        d.options = self
            .options(4, &options)
            .map(|u| MethodOptions { uninterpreted_option: u, ..Default::default() });
        d
    }
}

/// Marks a default value the model does not fix.
pub const UNSPECIFIED: &str = "\u{0}unspecified";
/// Marks a default value that is a floating point number, followed by the value.
pub const FLOAT: &str = "\u{0}float ";

pub fn scalar_type(t: &str) -> Type {
    let all = [
        Type::Double, Type::Float, Type::Int32, Type::Int64, Type::Uint32, Type::Uint64, Type::Sint32, Type::Sint64,
        Type::Fixed32, Type::Fixed64, Type::Sfixed32, Type::Sfixed64, Type::Bool, Type::String, Type::Bytes,
    ];
    all[SCALARS.iter().position(|s| *s == t).expect("scalar")]
}

fn camel(s: &str) -> String {
    s.split('_')
        .map(|w| {
            let mut c = w.chars();
            match c.next() {
                Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
                None => String::new(),
            }
        })
        .collect()
}

fn valid_import(s: &str) -> bool {
    !s.contains('\\') && !s.split('/').any(|c| c.is_empty() || c == "." || c == "..")
}

pub fn c_escape(b: &[u8]) -> String {
    let mut o = String::new();
    for &c in b {
        match c {
            b'\n' => o += "\\n",
            b'\r' => o += "\\r",
            b'\t' => o += "\\t",
            b'"' | b'\'' | b'\\' => {
                o.push('\\');
                o.push(c as char)
            }
            32..=126 => o.push(c as char),
            _ => o += &format!("\\{}{}{}", c >> 6, (c >> 3) & 7, c & 7),
        }
    }
    o
}

/// A canonical rendering of a token sequence (used to compare aggregates by value, not by spelling).
pub fn canonical_tokens(k: &[Kind]) -> String {
    let mut parts = vec![];
    for t in k {
        parts.push(match t {
            Kind::Ident(s) => s.clone(),
            Kind::Int(v) => format!("#{v}"),
            Kind::Float(v) if v.is_infinite() => "inf".into(),
            Kind::Float(v) => format!("~{:?}", v),
            Kind::Str(b) => format!("\"{}\"", c_escape(b)),
            Kind::P(c) => (*c as char).to_string(),
        });
    }
    parts.join(" ")
}
