//! Enumeration helpers.
use crate::engine::*;

/// All concatenations of between min and max elements, shortest first.
pub fn seqs(alpha: &[&str], min: usize, max: usize, f: &mut dyn FnMut(&str)) {
    lists(alpha.len(), min, max, &mut |ix| {
        let s: String = ix.iter().map(|i| alpha[*i]).collect();
        f(&s)
    })
}

/// All index lists of length min..=max over 0..n, shortest first.
pub fn lists(n: usize, min: usize, max: usize, f: &mut dyn FnMut(&[usize])) {
    for len in min..=max {
        let mut ix = vec![0usize; len];
        'all: loop {
            f(&ix);
            let mut k = len;
            loop {
                if k == 0 {
                    break 'all;
                }
                k -= 1;
                ix[k] += 1;
                if ix[k] < n {
                    break;
                }
                ix[k] = 0;
            }
        }
    }
}

pub fn fam(
    name: impl Into<String>,
    judge_name: &'static str,
    gen: impl Fn(&mut dyn FnMut(String)) + Send + Sync + 'static,
) -> Family {
    let gen: Gen = Box::new(move |e| gen(&mut |s| e(vec![s])));
    Family { name: name.into(), gen, judge: crate::judge_by_name(judge_name), judge_name }
}

pub fn fam_parts(name: impl Into<String>, judge_name: &'static str, gen: impl Fn(Emit) + Send + Sync + 'static) -> Family {
    Family { name: name.into(), gen: Box::new(gen), judge: crate::judge_by_name(judge_name), judge_name }
}

/// Fills the n-th item template: '#' is a fresh suffix, '@' a fresh number.
pub fn fill(item: &str, i: usize, unique: bool) -> String {
    let mut out = String::new();
    let mut n = i * 4 + 1;
    for c in item.chars() {
        match c {
            '#' => {
                if unique {
                    out += &i.to_string()
                }
            }
            '@' => {
                out += &n.to_string();
                n += 1
            }
            c => out.push(c),
        }
    }
    out
}

/// All sequences of up to max filled items between head and tail.
pub fn items(head: &str, pool: &[&str], tail: &str, min: usize, max: usize, unique: bool, f: &mut dyn FnMut(String)) {
    lists(pool.len(), min, max, &mut |ix| {
        let body: Vec<String> = ix.iter().enumerate().map(|(k, i)| fill(pool[*i], k, unique)).collect();
        f(format!("{head}{}{tail}", body.join("\n")))
    })
}

pub const KEYWORDS: [&str; 50] = [
    "syntax", "import", "weak", "public", "package", "option", "inf", "nan", "true", "false", "repeated", "optional", "required",
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64",
    "bool", "string", "bytes", "group", "oneof", "map", "extensions", "to", "max", "reserved", "enum", "message", "extend",
    "service", "rpc", "stream", "returns", "default", "json_name", "proto2", "proto3", "edition", "import_", "_", "x9",
];

pub const SCALARS: [&str; 15] = refmodel::gram::SCALARS;
