//! Several compilers at once: every schedule of two of them at the points where they call their resolvers,
//! and one run inside a resolver call of the other.

use crate::engine::*;
use crate::families::{fam, lists};
use crate::graph::{ensure, hash};
use prost::Message;
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver};
use protox::{Compiler, Error};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

type Files = BTreeMap<&'static str, &'static str>;

/// Worlds with the same names and other contents. The first word says how the files are held.
const WORLDS: [(&str, &[(&str, &str)]); 12] = [
    ("text", &[("a.proto", "import 'b.proto'; message A { optional B x = 1; }"), ("b.proto", "import 'c.proto'; message B { }"), ("c.proto", "// c\nmessage C { }")]),
    ("text", &[("a.proto", "import 'b.proto'; message A2 { optional B2 x = 1; }"), ("b.proto", "\n\nmessage B2 { }"), ("c.proto", "import 'a.proto'; message C2 { }")]),
    ("text", &[("a.proto", "import 'b.proto'; message A { }"), ("c.proto", "import 'a.proto';")]),
    ("text", &[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';"), ("c.proto", "import 'a.proto';")]),
    ("text", &[("a.proto", "import 'b.proto';"), ("b.proto", "message $"), ("c.proto", "import 'b.proto'; import 'b.proto';")]),
    ("text", &[("a.proto", "import 'b.proto'; message A { optional Nowhere x = 1; }"), ("b.proto", "message B { }"), ("c.proto", "import 'b.proto'; message B { }")]),
    ("google", &[("a.proto", "import 'google/protobuf/any.proto'; import 'b.proto'; message A { optional google.protobuf.Any x = 1; }"), ("b.proto", "import 'google/protobuf/descriptor.proto'; extend google.protobuf.FileOptions { optional int32 o = 50000; }"), ("c.proto", "import 'b.proto'; option (o) = 5;")]),
    ("text", &[("a.proto", "import 'google/protobuf/any.proto';"), ("google/protobuf/any.proto", "message Mine { }"), ("b.proto", "import 'google/protobuf/any.proto'; message B { optional Mine x = 1; }"), ("c.proto", "import 'b.proto';")]),
    ("disk", &[("a.proto", "import 'b.proto'; message A { optional B x = 1; }"), ("b.proto", "message B { }"), ("c.proto", "import 'a.proto';")]),
    ("disk", &[("a.proto", "import 'c.proto'; message Z { optional C x = 1; }"), ("c.proto", "message C { }"), ("b.proto", "")]),
    ("set", &[("a.proto", "import 'b.proto'; message A { optional B x = 1; }"), ("b.proto", "message B { optional int32 x = 5; }"), ("c.proto", "import public 'a.proto';")]),
    ("encoded", &[("a.proto", "import 'b.proto'; message S { optional B x = 1; }"), ("b.proto", "message B { optional int32 x = 6; }"), ("c.proto", "import public 'a.proto';")]),
];

struct Texts(Files);
impl FileResolver for Texts {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        File::from_source(name, self.0.get(name).ok_or_else(|| Error::file_not_found(name))?)
    }
}

fn resolver(w: usize) -> Box<dyn FileResolver> {
    let (how, files) = WORLDS[w];
    let files: Files = files.iter().copied().collect();
    match how {
        "text" => Box::new(Texts(files)),
        "google" => {
            let mut c = ChainFileResolver::new();
            c.add(GoogleFileResolver::new());
            c.add(Texts(files));
            Box::new(c)
        }
        "disk" => {
            static MADE: OnceLock<Mutex<Vec<usize>>> = OnceLock::new();
            let dir = crate::scratch().join(format!("world{w}"));
            let mut made = MADE.get_or_init(Default::default).lock().unwrap();
            if !made.contains(&w) {
                std::fs::create_dir_all(&dir).unwrap();
                for (n, s) in files {
                    // other processes of ours may be reading it
                    let tmp = dir.join(format!("{n}.{}", std::process::id()));
                    std::fs::write(&tmp, s).unwrap();
                    std::fs::rename(tmp, dir.join(n)).unwrap();
                }
                made.push(w);
            }
            Box::new(IncludeFileResolver::new(dir))
        }
        _ => {
            let set = prost_types::FileDescriptorSet { file: files.iter().map(|(n, s)| protox_parse::parse(n, s).unwrap()).collect() };
            if how == "set" {
                Box::new(DescriptorSetFileResolver::new(set))
            } else {
                Box::new(DescriptorSetFileResolver::decode(set.encode_to_vec().as_slice()).unwrap())
            }
        }
    }
}

/// Called before every step of a program.
type Gate = Arc<dyn Fn() + Send + Sync>;

struct Gated(Box<dyn FileResolver>, Gate);
impl FileResolver for Gated {
    fn resolve_path(&self, path: &Path) -> Option<String> {
        self.0.resolve_path(path)
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        (self.1)();
        let r = self.0.open_file(name);
        (self.1)();
        r
    }
}

/// A program: the world, then operations. Its outcome is everything that can be seen of it.
fn run(program: &str, gate: Gate) -> Vec<String> {
    let mut ops = program.split(' ');
    let w: usize = ops.next().unwrap().parse().unwrap();
    let mut out = vec![];
    let mut comp = Compiler::with_file_resolver(Gated(resolver(w), gate.clone()));
    for op in ops {
        gate();
        match op {
            "i" => {
                comp.include_imports(true);
            }
            "s" => {
                comp.include_source_info(true);
            }
            "m" => {
                comp.include_imports(false);
            }
            "n" => {
                comp.include_source_info(false);
            }
            name => out.push(match comp.open_file(format!("{name}.proto")) {
                Ok(_) => "ok".into(),
                Err(e) => format!("{e:?} / {e} / {:?} {} {} {}", e.file(), e.is_parse(), e.is_io(), e.is_file_not_found()),
            }),
        }
    }
    gate();
    out.push(comp.files().map(|f| format!("{} {:?} {}; ", f.name(), f.path(), f.is_import())).collect());
    out.push(format!("{:?}", comp.file_descriptor_set()));
    gate();
    out.push(format!("{:?}", comp.encode_file_descriptor_set()));
    out.push(comp.descriptor_pool().all_messages().map(|m| m.full_name().to_owned() + " ").collect());
    out
}

fn free() -> Gate {
    Arc::new(|| ())
}

/// What a program does when there is no other.
fn alone(program: &str) -> Result<Vec<String>, String> {
    static SEEN: OnceLock<Mutex<BTreeMap<String, Vec<String>>>> = OnceLock::new();
    let seen = SEEN.get_or_init(Default::default);
    if let Some(o) = seen.lock().unwrap_or_else(|e| e.into_inner()).get(program) {
        return Ok(o.clone());
    }
    // in a process of its own, so that nothing else has run there
    let o = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["alone", program])
        .output()
        .map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    if !o.status.success() {
        return Err(format!("{program:?} alone fails: {}", String::from_utf8_lossy(&o.stderr)));
    }
    let o: Vec<String> = s.split('\u{1}').map(str::to_owned).collect();
    seen.lock().unwrap_or_else(|e| e.into_inner()).insert(program.to_owned(), o.clone());
    Ok(o)
}

/// The other side of `alone`.
pub fn print_alone(program: &str) {
    print!("{}", run(program, free()).join("\u{1}"));
}

fn same(program: &str, got: &[String], other: &str, how: &str) -> Verdict {
    let want = alone(program)?;
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "{program:?} beside {other:?} ({how}): outcome {i} is {}, alone it is {}", cut(g), cut(w));
    }
    ensure!(got.len() == want.len(), "{program:?} beside {other:?} ({how}): {} outcomes, alone {}", got.len(), want.len());
    Ok(())
}
fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}

/// Which of two threads may take its next step, as a list of choices.
struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}
#[derive(Default)]
struct State {
    plan: Vec<usize>,
    /// choices made: who ran, and whether the other could have run
    made: Vec<(usize, bool)>,
    at_gate: [bool; 2],
    done: [bool; 2],
    turn: Option<usize>,
}
impl Sched {
    /// Gives the turn to one of the threads when both wait (or are done).
    fn choose(&self, s: &mut State) {
        let ready = |i: usize| s.at_gate[i] && !s.done[i];
        if s.turn.is_some() || (0..2).any(|i| !s.at_gate[i] && !s.done[i]) {
            return;
        }
        let both = ready(0) && ready(1);
        let last = s.made.last().map_or(0, |l| l.0);
        let next = match s.plan.get(s.made.len()) {
            Some(p) if ready(*p) => *p,
            _ if ready(last) => last,
            _ if ready(1 - last) => 1 - last,
            _ => return,
        };
        s.made.push((next, both));
        s.turn = Some(next);
        self.cv.notify_all();
    }
    fn gate(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.at_gate[me] = true;
        self.choose(&mut s);
        while s.turn != Some(me) {
            s = self.cv.wait(s).unwrap();
        }
        s.turn = None;
        s.at_gate[me] = false;
    }
    fn finish(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.done[me] = true;
        self.choose(&mut s);
    }
}

type Outcome = Result<Vec<String>, String>;
fn scheduled(programs: [&str; 2], plan: Vec<usize>) -> ([Outcome; 2], Vec<(usize, bool)>) {
    let sched = Arc::new(Sched { m: Mutex::new(State { plan, ..State::default() }), cv: Condvar::new() });
    let mut out: [Outcome; 2] = [Ok(vec![]), Ok(vec![])];
    std::thread::scope(|scope| {
        for (i, o) in out.iter_mut().enumerate() {
            let sched = sched.clone();
            scope.spawn(move || {
                let g = sched.clone();
                *o = guarded(|| run(programs[i], Arc::new(move || g.gate(i))));
                sched.finish(i);
            });
        }
    });
    let made = std::mem::take(&mut sched.m.lock().unwrap().made);
    (out, made)
}

/// parts: two programs, the greatest number of preemptions. Every schedule of the two on two threads.
pub fn j_threads(parts: &[String], c: &mut Ctx) -> Verdict {
    let programs = [parts[0].as_str(), parts[1].as_str()];
    let bound: usize = parts[2].parse().unwrap();
    let mut plan: Vec<usize> = vec![];
    loop {
        let (out, made) = guarded(|| scheduled(programs, plan.clone()))?;
        c.impl_runs += 1;
        let how: String = made.iter().map(|m| if m.0 == 0 { 'A' } else { 'B' }).collect();
        let mut at = [0, 0];
        for m in &made {
            let before = at;
            at[m.0] += 1;
            c.states.insert(hash(&(programs, at)));
            c.transitions.insert(hash(&(programs, before, at)));
        }
        c.outcomes.insert(hash(&(programs, &how)));
        for (i, o) in out.into_iter().enumerate() {
            same(programs[i], &o?, programs[1 - i], &how)?;
        }
        // the next schedule: the last choice that can still be made the other way within the bound.
        // The first choice of each point is to go on with the thread that runs; at the start it is the first.
        let switches = |n: usize| (1..n).filter(|i| made[*i].1 && made[*i].0 != made[i - 1].0).count();
        let next = (0..made.len()).rev().find(|i| {
            let default = if *i == 0 { 0 } else { made[i - 1].0 };
            made[*i].1 && made[*i].0 == default && (*i == 0 || switches(*i) < bound)
        });
        let Some(i) = next else { return Ok(()) };
        plan = made[..i].iter().map(|m| m.0).collect();
        plan.push(1 - made[i].0);
    }
}

/// parts: two programs, a step. The second runs as a whole before that step of the first, on the same thread.
pub fn j_nested(parts: &[String], c: &mut Ctx) -> Verdict {
    let (a, b, k) = (parts[0].clone(), parts[1].clone(), parts[2].parse::<usize>().unwrap());
    let inner: Arc<Mutex<Option<Vec<String>>>> = Arc::default();
    let count = Arc::new(Mutex::new(0));
    let (i2, n2, b2) = (inner.clone(), count.clone(), b.clone());
    let out = guarded(|| {
        run(
            &a,
            Arc::new(move || {
                let n = {
                    let mut n = n2.lock().unwrap();
                    *n += 1;
                    *n
                };
                if n == k + 1 {
                    let o = run(&b2, free());
                    *i2.lock().unwrap() = Some(o);
                }
            }),
        )
    })?;
    c.impl_runs += 1;
    c.states.insert(hash(&(&a, k)));
    c.transitions.insert(hash(&(&a, &b, k)));
    let how = format!("inside step {k}");
    same(&a, &out, &b, &how)?;
    c.outcomes.insert(hash(&out));
    let i = inner.lock().unwrap().take();
    if let Some(i) = i {
        c.accepted += 1;
        same(&b, &i, &a, &how)?;
    }
    Ok(())
}

pub fn c24(tier: &str) -> Vec<Family> {
    let deep = tier == "thorough";
    let programs = move |max: usize| {
        let mut v = vec![];
        for w in 0..WORLDS.len() {
            for ops in lists(&["a", "b", "c"], 1, max) {
                v.push(format!("{w} {}", ops.join(" ")));
                if ops.len() == 1 || deep {
                    v.push(format!("{w} i s {}", ops.join(" ")));
                    if deep || w % 4 == 2 {
                        v.push(format!("{w} {} m n", ops.join(" ")));
                    }
                }
            }
        }
        v
    };
    let short = || (0..WORLDS.len()).flat_map(|w| ["a n", "s c", "i b a"].map(|o| format!("{w} {o}"))).collect::<Vec<_>>();
    vec![
        fam("one compiler inside a resolver call of another", j_nested, "nested", move |e| {
            for a in programs(if deep { 2 } else { 1 }) {
                for b in programs(if deep { 2 } else { 1 }) {
                    for k in 0..14 {
                        e(vec![a.clone(), b.clone(), k.to_string()]);
                    }
                }
            }
        }),
        fam("every schedule of two compilers", j_threads, "threads", move |e| {
            let p = short();
            for (i, a) in p.iter().enumerate() {
                for b in &p[i..] {
                    e(vec![a.clone(), b.clone(), if deep { "3" } else { "2" }.into()]);
                }
            }
        }),
    ]
}
