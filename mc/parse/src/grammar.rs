//! Breadth-first search over the configurations of the reference pushdown automaton.

use crate::util::lists;
use refmodel::gram::{expand, Machine, N, S};
use refmodel::lex::{Kind, Lexed, Lexer};
use std::collections::{HashMap, VecDeque};

pub const TOKENS: [&str; 68] = [
    ";", "{", "}", "=", "1", "foo", "Foo", "\"proto3\"", "message", "enum", "service", "rpc", "extend", "option", "import",
    "package", "syntax", "oneof", "optional", "required", "repeated", "map", "group", "reserved", "extensions", "to", "max",
    "returns", "stream", "weak", "public", "int32", "string", "bytes", "double", "true", "inf", "nan", "default", "json_name",
    ".", ",", "-", "+", "(", ")", "[", "]", "<", ">", ":", "/", "0", "1.5", ".5", "0x1F", "017", "'a'", "\"proto2\"", "bool", "float",
    "uint64", "sint32", "fixed64", "sfixed32", "int64", "_x", "5e3",
];

pub fn kind(t: &str) -> Kind {
    match Lexer::new(t).next(false) {
        Lexed::Tok(t) => t.kind,
        _ => panic!("not a token: {t}"),
    }
}

pub struct Grammar {
    kinds: Vec<Kind>,
    /// For every nonterminal, a shortest right-hand side; and one that is shortest among the nonempty ones.
    short: HashMap<N, &'static [S]>,
    rich: HashMap<N, &'static [S]>,
}

pub struct State {
    pub prefix: Vec<&'static str>,
    pub completion: Vec<&'static str>,
    pub valid: bool,
}

fn tok_of(s: S) -> &'static str {
    match s {
        S::K(k) => k,
        S::P(c) => TOKENS.iter().find(|t| t.as_bytes() == [c]).unwrap(),
        S::Ident => "Foo",
        S::Int => "1",
        S::Float => "1.5",
        S::Str => "\"proto3\"",
        S::Any => "foo",
        _ => unreachable!(),
    }
}

impl Grammar {
    pub fn new() -> Self {
        let kinds: Vec<Kind> = TOKENS.iter().map(|t| kind(t)).collect();
        let mut looks: Vec<Option<&Kind>> = kinds.iter().map(Some).collect();
        looks.push(None);
        let mut cost: HashMap<N, usize> = HashMap::new();
        let mut short: HashMap<N, &'static [S]> = HashMap::new();
        let mut rich: HashMap<N, &'static [S]> = HashMap::new();
        let price = |c: &HashMap<N, usize>, rhs: &[S]| -> Option<usize> {
            rhs.iter().map(|s| match s {
                S::Nt(n) => c.get(n).copied(),
                S::Eof | S::Close => Some(0),
                _ => Some(1),
            }).sum()
        };
        // all nonterminals reachable from File
        let mut all = vec![N::File];
        let mut i = 0;
        while i < all.len() {
            for l in &looks {
                for s in expand(all[i], *l).unwrap_or(&[]) {
                    if let S::Nt(n) = s {
                        if !all.contains(n) {
                            all.push(*n);
                        }
                    }
                }
            }
            i += 1;
        }
        loop {
            let mut changed = false;
            for &n in &all {
                for l in &looks {
                    let Some(rhs) = expand(n, *l) else { continue };
                    let Some(p) = price(&cost, rhs) else { continue };
                    if cost.get(&n).is_none_or(|c| p < *c) {
                        cost.insert(n, p);
                        short.insert(n, rhs);
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        for &n in &all {
            let best = looks
                .iter()
                .filter_map(|l| expand(n, *l))
                .filter(|r| r.len() > 1 && !matches!(r[0], S::P(b';')))
                .min_by_key(|r| price(&cost, r));
            rich.insert(n, best.unwrap_or(short[&n]));
        }
        Grammar { kinds, short, rich }
    }

    /// Expands a stack to tokens; `rich`: bodies that would stay empty get one element if possible.
    fn complete(&self, stack: &[S], rich: bool) -> Vec<&'static str> {
        let mut out = vec![];
        let mut work: Vec<(S, bool)> = stack.iter().map(|s| (*s, rich)).collect();
        while let Some((s, r)) = work.pop() {
            match s {
                S::Nt(n) => {
                    let body = matches!(n, N::OneofBody | N::EnumBody);
                    let rhs = if r && body { self.rich[&n] } else { self.short[&n] };
                    for x in rhs.iter().rev() {
                        // the tail of a list is not extended again
                        let again = r && !matches!(x, S::Nt(m) if *m == n);
                        work.push((*x, again));
                    }
                }
                S::Eof | S::Close => {}
                t => out.push(tok_of(t)),
            }
        }
        out
    }

    fn machine(&self, prefix: &[&'static str]) -> Machine {
        let mut m = Machine::new();
        for t in prefix {
            let k = &self.kinds[TOKENS.iter().position(|x| x == t).unwrap()];
            assert!(m.feed(Some(k), 0));
        }
        m
    }

    /// All configurations with at most `depth` unclosed braces, each with a prefix that reaches it and a
    /// completion; prefixes whose completion breaks no rule are preferred.
    pub fn explore(&self, start: &[&'static str], depth: usize) -> Vec<State> {
        let mut seen: HashMap<Vec<S>, usize> = HashMap::new();
        let mut out: Vec<State> = vec![];
        let mut queue: VecDeque<Vec<&'static str>> = VecDeque::from([start.to_vec()]);
        while let Some(prefix) = queue.pop_front() {
            let m = self.machine(&prefix);
            let stack = m.state();
            if let Some(&i) = seen.get(&stack) {
                if out[i].valid {
                    continue;
                }
            }
            let mut completion = self.complete(&stack, false);
            let ok = |c: &[&str]| {
                let text = [&prefix[..], c].concat().join(" ");
                refmodel::model("t", &text).violations.is_empty()
            };
            let mut valid = ok(&completion);
            if !valid {
                let r = self.complete(&stack, true);
                if ok(&r) {
                    completion = r;
                    valid = true;
                }
            }
            match seen.get(&stack) {
                Some(_) if !valid => continue,
                Some(&i) => out[i] = State { prefix: prefix.clone(), completion, valid },
                None => {
                    seen.insert(stack, out.len());
                    out.push(State { prefix: prefix.clone(), completion, valid });
                }
            }
            for (t, k) in TOKENS.iter().zip(&self.kinds) {
                let mut n = self.machine(&prefix);
                if !n.feed(Some(k), 0) {
                    continue;
                }
                let open = n.state().iter().filter(|s| matches!(s, S::P(b'}'))).count();
                if open > depth {
                    continue;
                }
                let mut p = prefix.clone();
                p.push(t);
                queue.push_back(p);
            }
        }
        out
    }

    /// Sentences one edit away from a sentence through each configuration.
    pub fn neighbours(&self, states: &[State], edits: usize, f: &mut dyn FnMut(String)) {
        let mut put = |p: &[&str], ins: &[&str], c: &[&str]| {
            let mut s = String::new();
            for t in p.iter().chain(ins).chain(c) {
                if !s.is_empty() {
                    s.push(' ');
                }
                s += t;
            }
            f(s)
        };
        for s in states {
            let (p, c) = (&s.prefix[..], &s.completion[..]);
            put(p, &[], c);
            put(p, &[], &[]);
            if !c.is_empty() {
                put(p, &[], &c[1..]);
            }
            if c.len() > 1 {
                put(p, &[c[1], c[0]], &c[2..]);
                put(p, &[], &c[2..]);
            }
            lists(TOKENS.len(), 1, edits, &mut |ix| {
                let ins: Vec<&str> = ix.iter().map(|i| TOKENS[*i]).collect();
                put(p, &ins, c);
                for drop in 1..=edits.min(c.len()) {
                    put(p, &ins, &c[drop..]);
                }
            });
        }
    }

    /// Where the automaton allows a token, the shortest sentence through it.
    pub fn steps(&self, states: &[State], f: &mut dyn FnMut(String)) {
        for s in states {
            for (t, k) in TOKENS.iter().zip(&self.kinds) {
                let mut m = self.machine(&s.prefix);
                if m.feed(Some(k), 0) {
                    for rich in [false, true] {
                        let c = self.complete(&m.state(), rich);
                        let mut p = s.prefix.clone();
                        p.push(t);
                        p.extend(c);
                        f(p.join(" "));
                    }
                }
            }
        }
    }
}
