//! The families of cases each property enumerates.

use crate::engine::*;
use crate::graph::*;

pub fn fam(name: &str, judge: Judge, judge_name: &'static str, gen: impl Fn(Emit) + Send + Sync + 'static) -> Family {
    Family { name: name.into(), gen: Box::new(gen), judge, judge_name }
}

/// All ordered lists of distinct members of `from`, at most `max` long.
pub fn arrangements(from: &[usize], max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max.min(from.len()) {
        let mut next = vec![];
        for l in &last {
            for x in from {
                if !l.contains(x) {
                    let mut m: Vec<usize> = l.clone();
                    m.push(*x);
                    next.push(m);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// All lists over `from` of length `min..=max`, with repetition.
pub fn lists<T: Clone>(from: &[T], min: usize, max: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for n in 0..=max {
        if n >= min {
            out.extend(last.iter().cloned());
        }
        if n < max {
            last = last.iter().flat_map(|l| from.iter().map(move |x| [&l[..], &[x.clone()]].concat())).collect();
        }
    }
    out
}

/// The product of the given choices.
pub fn product<T: Clone>(choices: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    for c in choices {
        out = out.iter().flat_map(|l| c.iter().map(move |x| [&l[..], &[x.clone()]].concat())).collect();
    }
    out
}

fn plain(l: &[usize], kind: Kind) -> Node {
    Node { imports: l.iter().map(|t| Import { to: *t, how: ' ' }).collect(), kind }
}

/// All graphs of n files in which file k imports an ordered selection of files before it.
pub fn dags(n: usize) -> Vec<Vec<Node>> {
    let per: Vec<Vec<Node>> = (0..n)
        .map(|k| arrangements(&(0..k).collect::<Vec<_>>(), k).iter().map(|l| plain(l, Kind::Good)).collect())
        .collect();
    product(&per)
}

/// All graphs of n files in which each imports an ordered selection (at most `max`) of the others or itself.
pub fn digraphs(n: usize, max: usize) -> Vec<Vec<Node>> {
    let l: Vec<Node> = arrangements(&(0..n).collect::<Vec<_>>(), max).iter().map(|l| plain(l, Kind::Good)).collect();
    product(&vec![l; n])
}

fn show(g: &[Node], ops: String) -> Vec<String> {
    g.iter().map(show_node).chain([ops]).collect()
}

fn opens(seq: &[usize]) -> String {
    seq.iter().map(|i| format!("o{i}")).collect::<Vec<_>>().join(" ")
}

fn thorough(t: &str) -> bool {
    t == "thorough"
}

/// Graphs with cycles, repeated and missing imports.
fn bad_graphs(judge: Judge, jn: &'static str, t: &str) -> Vec<Family> {
    let deep = thorough(t);
    let mut v = vec![
        fam("3 files × import lists with repetitions and missing files × opens", judge, jn, move |e| {
            let l: Vec<Node> = lists(&[0, 1, 2, MISSING], 0, 2).iter().map(|l| plain(l, Kind::Good)).collect();
            for g in product(&vec![l; 3]) {
                for ops in ["o0 o1 o2", "o2 o0"] {
                    e(show(&g, ops.into()));
                }
            }
        }),
        fam("4 files × up to 2 imports each, cycles allowed", judge, jn, move |e| {
            for g in digraphs(4, if deep { 2 } else { 1 }) {
                for ops in ["o0 o1 o2 o3", "o3 o0"] {
                    e(show(&g, ops.into()));
                }
            }
        }),
        fam("3 files × kinds of fault × import lists", judge, jn, move |e| {
            use Kind::*;
            let kinds = [Good, Syntax, Rule, IoCustom, IoOpen, Utf8, Custom, Absent, Unresolved, Clash];
            let ls: Vec<Vec<Vec<usize>>> = (0..3)
                .map(|i| arrangements(&(0..3).filter(|x| *x != i).collect::<Vec<_>>(), 2))
                .collect();
            for l in product(&ls) {
                for k in product(&vec![kinds.to_vec(); 3]) {
                    let g: Vec<Node> = (0..3).map(|i| plain(&l[i], k[i])).collect();
                    e(show(&g, "o0 o1 o2".into()));
                    if deep {
                        e(show(&g, "o2 o1 o0".into()));
                        e(show(&g, "q012 q12 q21".into()));
                    }
                }
            }
        }),
    ];
    v.push(fam("2 files × lists of up to 3 imports of every form × kinds", judge, jn, move |e| {
        use Kind::*;
        let im: Vec<Import> = [0, 1, MISSING]
            .iter()
            .flat_map(|t| [' ', '+', '-'].map(|how| Import { to: *t, how }))
            .collect();
        for l in lists(&im, 0, 3) {
            for k in [Good, Syntax, IoOpen, Unresolved, Absent] {
                for back in [vec![], vec![0], vec![1], vec![MISSING]] {
                    let g = vec![Node { imports: l.clone(), kind: Good }, plain(&back, k)];
                    e(show(&g, "o0 o1".into()));
                }
            }
        }
    }));
    if deep {
        v.push(fam("3 files × lists of up to 3 imports", judge, jn, move |e| {
            let l: Vec<Node> = lists(&[0, 1, 2, MISSING], 0, 3).iter().map(|l| plain(l, Kind::Good)).collect();
            for g in product(&vec![l; 3]) {
                e(show(&g, "o0 o1".into()));
            }
        }));
        v.push(fam("4 files in a chain or fan × kinds of fault", judge, jn, move |e| {
            use Kind::*;
            let kinds = [Good, Syntax, IoCustom, IoOpen, Utf8, Absent, Unresolved, Clash];
            for l in [
                [vec![1], vec![2], vec![3], vec![]],
                [vec![1, 2, 3], vec![], vec![], vec![]],
                [vec![1, 2], vec![3], vec![3], vec![]],
                [vec![3, 1], vec![2], vec![3], vec![0]],
            ] {
                for k in product(&vec![kinds.to_vec(); 4]) {
                    let g: Vec<Node> = (0..4).map(|i| plain(&l[i], k[i])).collect();
                    e(show(&g, "o0 o1 o2 o3".into()));
                }
            }
        }));
    }
    v
}

/// Graphs of many files of a simple shape.
fn big(judge: Judge, jn: &'static str, t: &str) -> Vec<Family> {
    use Kind::*;
    let ns: Vec<usize> = if thorough(t) { (2..=300).collect() } else { (2..=40).chain(63..=66).chain(99..=102).chain(127..=130).chain(255..=258).collect() };
    let shapes: [(&'static str, fn(usize, usize) -> Vec<usize>); 6] = [
        ("a chain", |i, n| (i + 1..n.min(i + 2)).collect()),
        ("a chain backwards", |i, _| (i.max(1) - 1..i).collect()),
        ("one file that imports all others", |i, n| if i == 0 { (1..n).collect() } else { vec![] }),
        ("one file that all others import", |i, _| if i > 0 { vec![0] } else { vec![] }),
        ("a ladder", |i, n| (i + 1..n.min(i + 3)).collect()),
        ("a ladder, far rung first", |i, n| (i + 1..n.min(i + 3)).rev().collect()),
    ];
    let mut v = vec![];
    for (name, shape) in shapes {
        let ns = ns.clone();
        v.push(fam(&format!("many files: {name}"), judge, jn, move |e| {
            for n in ns.clone() {
                let g: Vec<Node> = (0..n).map(|i| plain(&shape(i, n), Good)).collect();
                let l = n - 1;
                let all: Vec<usize> = (0..n).collect();
                let back: Vec<usize> = (0..n).rev().collect();
                for ops in ["o0".into(), format!("o{l}"), format!("o{} o0 o{l}", n / 2), format!("o{l} o0")] {
                    e(show(&g, ops));
                }
                if n <= 66 {
                    e(show(&g, opens(&all)));
                    e(show(&g, opens(&back)));
                }
                // one file, at either end or in the middle, with a fault
                for at in [0, n / 2, l] {
                    for k in [Syntax, Unresolved, Absent, IoOpen, Utf8] {
                        let mut b = g.clone();
                        b[at].kind = k;
                        for ops in [format!("o0 o{l}"), format!("o{l} o0")] {
                            e(show(&b, ops.clone()));
                            if at < 10 && n <= 66 {
                                e(show(&b, format!("{ops} k{at}G {ops}")));
                            }
                        }
                    }
                    for more in [0, at, l, n / 2, MISSING] {
                        for front in [false, true] {
                            let mut b = g.clone();
                            let im = Import { to: more, how: ' ' };
                            if front {
                                b[at].imports.insert(0, im);
                            } else {
                                b[at].imports.push(im);
                            }
                            e(show(&b, format!("o0 o{l}")));
                            e(show(&b, format!("o{l} o0")));
                        }
                    }
                }
            }
        }));
    }
    v
}

/// Files with other names.
fn named(judge: Judge, jn: &'static str, t: &str) -> Vec<Family> {
    let deep = thorough(t);
    vec![fam("other names × graphs of 3 files × import lists × opens", judge, jn, move |e| {
        let l: Vec<Node> = lists(&[0, 1, 2, MISSING], 0, 2).iter().map(|l| plain(l, Kind::Good)).collect();
        let few: Vec<Node> = l.iter().filter(|n| n.imports.len() < 2 || n.imports[0].to == 0).cloned().collect();
        for set in 1..SETS.len() {
            for g in product(&if deep { vec![l.clone(); 3] } else { vec![l.clone(), few.clone(), few.clone()] }) {
                e(show(&g, format!("n{set} o0 o1 o2 o0")));
                if deep {
                    e(show(&g, format!("n{set} o2 o1")));
                }
            }
            for g in dags(3) {
                for s in lists(&[3, 4, 5], 1, 3) {
                    // the names of the upper half of the set
                    let g: Vec<Node> = (0..3)
                        .map(|_| plain(&[], Kind::Absent))
                        .chain(g.iter().map(|n| plain(&n.imports.iter().map(|m| m.to + 3).collect::<Vec<_>>(), n.kind)))
                        .collect();
                    e(show(&g, format!("n{set} {}", opens(&s))));
                }
            }
            for k in [Kind::Syntax, Kind::Rule, Kind::Unresolved, Kind::Absent, Kind::Clash, Kind::IoOpen, Kind::Utf8, Kind::Custom, Kind::IoCustom] {
                for g in dags(3) {
                    for at in 0..3 {
                        let mut g = g.clone();
                        g[at].kind = k;
                        e(show(&g, format!("n{set} o0 o1 o2 k{at}G o2 o1 o0")));
                        e(show(&g, format!("n{set} o2 k{at}G o2")));
                    }
                }
            }
            for g in dags(4) {
                e(show(&g, format!("n{set} o3 o2")));
            }
        }
    })]
}

/// The families of the checks that look at the same histories, each with its own eyes.
fn others(except: &str, judge: Judge, jn: &'static str, t: &str) -> Vec<Family> {
    let mut v = vec![];
    if except != "C20" {
        v.extend(acyclic(judge, jn, "quick"));
    }
    if except != "C21" && except != "C30" {
        v.extend(bad_graphs(judge, jn, "quick"));
    }
    if except != "C22" {
        v.extend(repairs(judge, jn, "quick"));
    }
    if except != "C25" {
        v.extend(settings(judge, jn, "quick"));
    }
    for f in &mut v {
        f.name = format!("as seen here: {}", f.name);
    }
    v.extend(big(judge, jn, t));
    v.extend(named(judge, jn, t));
    v
}

pub fn c20(t: &str) -> Vec<Family> {
    let mut v = acyclic(j_set, "set", t);
    v.extend(others("C20", j_set, "set", t));
    v.extend(crate::sizes::alike(t));
    v
}

fn acyclic(judge: Judge, jn: &'static str, t: &str) -> Vec<Family> {
    let deep = thorough(t);
    let mut v = vec![
        fam("4 files, every acyclic graph × sequences of opens", judge, jn, move |e| {
            let seqs = lists(&[0, 1, 2, 3], 1, if deep { 5 } else { 4 });
            for g in dags(4) {
                for s in &seqs {
                    e(show(&g, opens(s)));
                }
            }
        }),
        fam("5 files, every acyclic graph × one or two opens", judge, jn, move |e| {
            let seqs = lists(&[0, 1, 2, 3, 4], 1, if deep { 3 } else { 1 });
            for g in dags(5) {
                for s in &seqs {
                    if deep || s.iter().any(|x| *x >= 3) {
                        e(show(&g, opens(s)));
                    }
                }
            }
        }),
        fam("3 files × forms of import × sequences of opens", judge, jn, move |e| {
            for g in dags(3) {
                let edges = g.iter().map(|n| n.imports.len()).sum();
                for how in product(&vec![vec![' ', '+', '-']; edges]) {
                    let mut g = g.clone();
                    let mut at = 0;
                    for n in &mut g {
                        for m in &mut n.imports {
                            m.how = how[at];
                            at += 1;
                        }
                    }
                    for s in lists(&[0, 1, 2], 1, 3) {
                        e(show(&g, opens(&s)));
                    }
                }
            }
        }),
        fam("3 files × sequences of opens with failing files in between", judge, jn, move |e| {
            use Kind::*;
            for l in product(&(0..3).map(|i| arrangements(&(0..3).filter(|x| *x != i).collect::<Vec<_>>(), 2)).collect::<Vec<_>>()) {
                for k in product(&vec![vec![Good, Syntax, Unresolved, Absent]; 3]) {
                    let g: Vec<Node> = (0..3).map(|i| plain(&l[i], k[i])).collect();
                    for s in ["o0 o1 o2", "o2 o1 o0 o1", "q21 o0 o1"] {
                        e(show(&g, s.into()));
                    }
                }
            }
        }),
    ];
    if deep {
        v.push(fam("6 files, unordered imports × one open each", judge, jn, move |e| {
            let per: Vec<Vec<Node>> = (0..6)
                .map(|k: usize| {
                    (0..1usize << k)
                        .map(|m| plain(&(0..k).filter(|b| m >> b & 1 == 1).collect::<Vec<_>>(), Kind::Good))
                        .collect()
                })
                .collect();
            for g in product(&per) {
                e(show(&g, "o5 o2 o4".into()));
                e(show(&g, "o3 o5".into()));
            }
        }));
    }
    v
}

pub fn c21(t: &str) -> Vec<Family> {
    let mut v = bad_graphs(j_error, "error", t);
    v.push(fam("a repeated import with k others before, between and after", j_error, "error", move |e| {
        for k in (0..=70).chain(127..=130).chain(255..=258) {
            for before in [0, 1, 2, 9] {
                for after in [0, 1, 9] {
                    if k > 20 && before + after > 3 {
                        continue;
                    }
                    let n = 3 + k + before + after;
                    // file 0 imports file 1, which imports the others; file 2 is the one named twice
                    let mut l: Vec<usize> = (3..n).collect();
                    l.insert(before + k, 2);
                    l.insert(before, 2);
                    let mut g: Vec<Node> = (0..n).map(|_| plain(&[], Kind::Good)).collect();
                    g[0] = plain(&[1], Kind::Good);
                    g[1] = plain(&l, Kind::Good);
                    for ops in ["o1", "o0", "o2 o0 o1"] {
                        e(show(&g, ops.into()));
                    }
                }
            }
        }
    }));
    v.extend(others("C21", j_error, "error", t));
    v
}

/// Histories of opens with files breaking and being repaired.
fn histories(g: &[Node], kinds: &[Kind; 3], depth: usize, e: Emit) {
    fn go(g: &[Node], kinds: &[Kind; 3], bad: usize, ops: &mut Vec<String>, depth: usize, e: Emit) {
        if ops.last().is_some_and(|o| o.starts_with('o')) && ops.len() == depth {
            e(show(g, ops.join(" ")));
        }
        if ops.len() == depth {
            return;
        }
        for i in 0..g.len() {
            ops.push(format!("o{i}"));
            go(g, kinds, bad, ops, depth, e);
            ops.pop();
            // break or repair
            let now = if bad >> i & 1 == 1 { Kind::Good } else { kinds[i] };
            ops.push(format!("k{i}{}", now.ch()));
            go(g, kinds, bad ^ (1 << i), ops, depth, e);
            ops.pop();
        }
    }
    go(g, kinds, 0, &mut vec![], depth, e);
}

pub fn c22(t: &str) -> Vec<Family> {
    let mut v = repairs(j_history, "history", t);
    v.extend(others("C22", j_history, "history", t));
    v.extend(crate::paths::shared(t));
    v
}

fn repairs(judge: Judge, jn: &'static str, t: &str) -> Vec<Family> {
    use Kind::*;
    let deep = thorough(t);
    let mut v = vec![];
    for k in [Syntax, IoOpen, Absent, Unresolved, Clash, Custom, Utf8] {
        v.push(fam(&format!("histories of opens, breaks and repairs ({k:?})"), judge, jn, move |e| {
            for g in dags(3) {
                for d in 1..=if deep { 6 } else { 4 } {
                    histories(&g, &[k; 3], d, e);
                }
            }
        }));
    }
    v.push(fam("histories with different faults", judge, jn, move |e| {
        for g in dags(3).into_iter().filter(|g| g.iter().map(|n| n.imports.len()).sum::<usize>() >= 2) {
            for k in [[Unresolved, Syntax, Clash], [Clash, Unresolved, Absent], [Absent, Clash, Unresolved], [Clash, Clash, Syntax]] {
                for d in 2..=if deep { 6 } else { 5 } {
                    histories(&g, &k, d, e);
                }
            }
        }
    }));
    v.push(fam("histories over graphs with cycles", judge, jn, move |e| {
        for g in digraphs(3, 2) {
            for d in 1..=if deep { 4 } else { 3 } {
                histories(&g, &[Unresolved, Syntax, Absent], d, e);
            }
        }
    }));
    v.push(fam("duplicate and missing imports in a history", judge, jn, move |e| {
        let l: Vec<Node> = lists(&[0, 1, 2, MISSING], 0, 2).iter().map(|l| plain(l, Good)).collect();
        for g in product(&vec![l; 3]) {
            e(show(&g, "o0 o1 o2 o0".into()));
            if deep {
                e(show(&g, "o2 o1 o0 o2".into()));
            }
        }
    }));
    v.push(fam("batches that fail half way", judge, jn, move |e| {
        for g in digraphs(3, 1) {
            for k in product(&vec![vec![Good, Syntax, Unresolved, Absent]; 3]) {
                let mut g = g.clone();
                for i in 0..3 {
                    g[i].kind = k[i];
                }
                for s in ["q012", "q210 q01", "o1 q201"] {
                    e(show(&g, s.into()));
                }
            }
        }
    }));
    v
}

const SMALL: [&str; 16] = [
    "",
    " ",
    "\n",
    "\n\n\n",
    "// c",
    "/* c */",
    ";",
    ";;",
    "package p;",
    "option java_package = 'x';",
    "message M { }",
    "message M { message N { } }",
    "message M { optional int32 x = 1; }",
    "enum E { Z = 0; }",
    "service S { }",
    "extend M { optional int32 x = 1; } message M { extensions 1; }",
];

pub fn c25(t: &str) -> Vec<Family> {
    let mut v = settings(j_output, "output", t);
    v.push(fam("nested messages", j_nest, "nest", move |e| {
        for n in 1..=102 {
            e(vec![format!("depth={n};")]);
        }
    }));
    v.push(fam("files with next to nothing in them", j_small, "small", move |e| {
        for a in SMALL {
            for b in SMALL.map(|b| b.replace('M', "MB").replace("E {", "EB {").replace('Z', "ZB").replace('S', "SB").replace("int32 x", "int32 xb")) {
                let b = b.as_str();
                e(vec![a.into(), b.into(), "".into()]);
                e(vec![a.into(), b.into(), "1".into()]);
            }
        }
    }));
    v.extend(crate::options::few());
    v.extend(others("C25", j_output, "output", t));
    v
}

fn settings(judge: Judge, jn: &'static str, t: &str) -> Vec<Family> {
    let deep = thorough(t);
    vec![
        fam("3 files × sequences of opens and option changes", judge, jn, move |e| {
            let ops = ["o0", "o1", "o2", "i+", "i-", "s+", "s-"];
            for g in dags(3) {
                for s in lists(&ops, 1, if deep { 5 } else { 4 }) {
                    e(show(&g, s.join(" ")));
                }
            }
        }),
        fam("4 files × opens", judge, jn, move |e| {
            for g in dags(4) {
                for s in lists(&[0, 1, 2, 3], 1, if deep { 4 } else { 2 }) {
                    e(show(&g, opens(&s)));
                    e(show(&g, format!("i+ {}", opens(&s))));
                }
            }
        }),
        fam("forms of import", judge, jn, move |e| {
            for g in dags(3) {
                let edges = g.iter().map(|n| n.imports.len()).sum();
                for how in product(&vec![vec![' ', '+', '-']; edges]) {
                    let mut g = g.clone();
                    let mut at = 0;
                    for n in &mut g {
                        for m in &mut n.imports {
                            m.how = how[at];
                            at += 1;
                        }
                    }
                    for s in lists(&[0, 1, 2], 1, 2) {
                        e(show(&g, opens(&s)));
                    }
                }
            }
        }),
        fam("outputs after failures", judge, jn, move |e| {
            use Kind::*;
            for g in digraphs(3, 2) {
                for k in product(&vec![vec![Good, Syntax, Unresolved, Absent]; 3]) {
                    let mut g = g.clone();
                    for i in 0..3 {
                        g[i].kind = k[i];
                    }
                    e(show(&g, "o0 o1 o2".into()));
                    if deep {
                        e(show(&g, "s+ o2 i+ o0 s- o1".into()));
                    }
                }
            }
        }),
    ]
}

fn permutations(of: &[usize]) -> Vec<Vec<usize>> {
    arrangements(of, of.len()).into_iter().filter(|a| a.len() == of.len()).collect()
}

/// Every way of opening the files of `s`, one after the other or at once.
fn orders(set: usize, g: &[Node], s: &[usize], e: Emit) {
    let mut ways: Vec<String> = vec![];
    for p in permutations(s) {
        let digits: String = p.iter().map(|d| d.to_string()).collect();
        ways.push(opens(&p));
        ways.push(format!("q{digits}"));
        ways.push(format!("{} {}", opens(&p), opens(&p)));
        ways.push(format!("q{}{digits}", p[p.len() - 1]));
    }
    e(show(g, ways.iter().map(|w| format!("n{set} {w}")).collect::<Vec<_>>().join("|")));
}

pub fn c29(t: &str) -> Vec<Family> {
    let deep = thorough(t);
    let mut v = vec![fam("4 files, every acyclic graph × sets of files × all orders", j_orders, "orders", move |e| {
        for g in dags(4) {
            for m in 1..16usize {
                orders(0, &g, &(0..4).filter(|b| m >> b & 1 == 1).collect::<Vec<_>>(), e);
            }
        }
    })];
    v.push(fam("other names × 3 files × all orders", j_orders, "orders", move |e| {
        for set in 1..SETS.len() {
            for g in dags(3) {
                for m in 1..8usize {
                    orders(set, &g, &(0..3).filter(|b| m >> b & 1 == 1).collect::<Vec<_>>(), e);
                }
            }
        }
    }));
    v.push(fam("many files × all orders of three", j_orders, "orders", move |e| {
        for n in if deep { 4..=66 } else { 4..=20 } {
            for back in [false, true] {
                let g: Vec<Node> = (0..n)
                    .map(|i| {
                        let mut l: Vec<usize> = (i + 1..n.min(i + 3)).collect();
                        if back {
                            l.reverse();
                        }
                        plain(&l, Kind::Good)
                    })
                    .collect();
                for s in [[0, 1, 2], [n - 3, n - 2, n - 1], [0, n / 2, n - 1]] {
                    if s[0] < s[1] && s[1] < s[2] && n <= 10 {
                        orders(0, &g, &s, e);
                    }
                }
                e(show(&g, format!("{}|{}", opens(&(0..n).collect::<Vec<_>>()), opens(&(0..n).rev().collect::<Vec<_>>()))));
            }
        }
    }));
    v.push(fam("5 files × pairs and triples × all orders", j_orders, "orders", move |e| {
        for (n, g) in dags(5).into_iter().enumerate() {
            if !deep && n % 5 != 0 && g[4].imports.len() > 2 {
                continue;
            }
            for s in arrangements(&[0, 1, 2, 3, 4], if deep { 3 } else { 2 }) {
                if s.len() >= 2 && s.windows(2).all(|w| w[0] < w[1]) && (deep || s.contains(&4)) {
                    orders(0, &g, &s, e);
                }
            }
        }
    }));
    v.extend(crate::convenience::families(t));
    v.extend(crate::sizes::c29(t));
    v
}

pub fn c30(t: &str) -> Vec<Family> {
    let mut v = bad_graphs(j_locate, "locate", t);
    v.extend(others("C30", j_locate, "locate", t));
    v.extend(crate::spans::families(t));
    v.extend(crate::disk::families(t));
    v.extend(crate::sizes::c30(t));
    v
}
