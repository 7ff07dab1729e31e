//! Runs families of inputs through the real parser and the reference model.
//!
//! A family enumerates cases; a case is a short list of source texts; a judge decides a case.
//! The enumeration runs in a child process, so that a crash or a hang of the code under test is a finding
//! about one case and not the end of the checker.

use refmodel::gram::Visitor;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::mpsc::{sync_channel, Receiver};
use std::cell::Cell;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
/// How long one call of the code under test may take, and how long a whole case.
const HANG_S: u64 = 30;
const CASE_S: u64 = 300;

/// When each worker's current call of the code under test began (milliseconds; 0: not in a call).
static CALLS: [AtomicU64; THREADS] = [const { AtomicU64::new(0) }; THREADS];
static START: OnceLock<Instant> = OnceLock::new();
thread_local!(static WORKER: Cell<Option<usize>> = const { Cell::new(None) });

fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub type Emit<'e> = &'e mut dyn FnMut(Vec<String>);
pub type Gen = Box<dyn Fn(Emit) + Send + Sync>;
pub type Judge = fn(&[String], &mut Ctx) -> Verdict;
pub type Verdict = Result<(), String>;

pub struct Family {
    pub name: String,
    pub gen: Gen,
    pub judge: Judge,
    pub judge_name: &'static str,
}

/// What one worker has seen.
#[derive(Default)]
pub struct Ctx {
    pub states: HashSet<u64>,
    pub transitions: HashSet<u64>,
    /// Hashes of distinct model outcomes.
    pub outcomes: HashSet<u64>,
    pub accepted: u64,
    pub rejected: u64,
    pub impl_runs: u64,
}

impl Visitor for Ctx {
    fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    fn step(&mut self, a: u64, b: u64) {
        self.transitions.insert(a.rotate_left(17) ^ b);
    }
}

struct Found {
    seq: u64,
    family: usize,
    parts: Vec<String>,
    why: String,
}

/// A line `finding: property=ID case=TEXT -- WHAT` or `finding: property=ID why=TEXT -- WHAT` of known-findings.txt:
/// the text is a part of the case that fails, or of what the check says of it.
#[derive(Clone)]
pub struct Known {
    text: String,
    of_case: bool,
    what: String,
}
impl Known {
    fn is(&self, parts: &[String], why: &str) -> bool {
        if self.of_case {
            parts.iter().any(|p| p.contains(&self.text))
        } else {
            why.contains(&self.text)
        }
    }
}
pub fn known(verif: &str, property: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("finding: property={property} "))?;
            let (text, what) = l.split_once(" -- ")?;
            let (of_case, text) = match text.strip_prefix("case=") {
                Some(t) => (true, t),
                None => (false, text.strip_prefix("why=")?),
            };
            Some(Known { text: text.to_owned(), of_case, what: what.to_owned() })
        })
        .collect()
}

pub struct Opts {
    pub property: String,
    pub tier: String,
    pub verif: String,
    pub known: Vec<Known>,
    /// What the counts in the evidence mean.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn slot_path(o: &Opts, i: usize) -> String {
    format!("{}/target/slots/{}-{}", o.verif, o.property, i)
}

fn encode(family: usize, parts: &[String]) -> Vec<u8> {
    let mut b = vec![];
    b.extend((family as u32).to_le_bytes());
    b.extend((parts.len() as u32).to_le_bytes());
    for p in parts {
        b.extend((p.len() as u32).to_le_bytes());
        b.extend(p.as_bytes());
    }
    b
}
fn decode(b: &[u8]) -> Option<(usize, Vec<String>)> {
    let mut at = 0;
    let mut u = || {
        let v = u32::from_le_bytes(b.get(at..at + 4)?.try_into().ok()?);
        at += 4;
        Some(v as usize)
    };
    let f = u()?;
    let n = u()?;
    let mut parts = vec![];
    for _ in 0..n {
        let l = u32::from_le_bytes(b.get(at..at + 4)?.try_into().ok()?) as usize;
        at += 4;
        parts.push(String::from_utf8(b.get(at..at + l)?.to_vec()).ok()?);
        at += l;
    }
    Some((f, parts))
}

pub fn write_replay(o: &Opts, f: &Family, parts: &[String], why: &str) -> String {
    let dir = format!("{}/replays", o.verif);
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{}.replay", o.property);
    let mut w = std::fs::File::create(&path).unwrap();
    writeln!(w, "property {}\ntier {}\nfamily {}\njudge {}", o.property, o.tier, f.name, f.judge_name).unwrap();
    for p in parts {
        writeln!(w, "part {}\n{}", p.len(), p).unwrap();
    }
    writeln!(w, "why\n{why}").unwrap();
    path
}

pub fn read_replay(path: &str) -> (String, Vec<String>) {
    let mut s = vec![];
    std::fs::File::open(path).unwrap().read_to_end(&mut s).unwrap();
    let (mut at, mut judge, mut parts) = (0, String::new(), vec![]);
    while at < s.len() {
        let e = s[at..].iter().position(|c| *c == b'\n').map_or(s.len(), |i| at + i);
        let line = std::str::from_utf8(&s[at..e]).unwrap().to_owned();
        at = e + 1;
        if let Some(j) = line.strip_prefix("judge ") {
            judge = j.to_owned();
        } else if let Some(n) = line.strip_prefix("part ") {
            let n: usize = n.parse().unwrap();
            parts.push(String::from_utf8(s[at..at + n].to_vec()).unwrap());
            at += n + 1;
        } else if line == "why" {
            break;
        }
    }
    (judge, parts)
}

/// Runs one case; a panic of the code under test is a violation, a panic of the model is not caught here.
pub fn judge(f: &Family, parts: &[String], c: &mut Ctx) -> Verdict {
    (f.judge)(parts, c)
}

/// Calls the code under test, turning a panic into a message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let w = WORKER.get();
    if let Some(w) = w {
        CALLS[w].store(now_ms(), Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Some(w) = w {
        CALLS[w].store(0, Relaxed);
    }
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("the code under test panicked: {m}")
    })
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// The child: enumerate and judge everything. Exit code 0 or 1; anything else is examined by the parent.
pub fn child(o: &Opts, families: Vec<Family>) -> i32 {
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    std::fs::create_dir_all(format!("{}/target/slots", o.verif)).unwrap();
    let families = Arc::new(families);
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<Found>>> = Default::default();
    let known_hits: Arc<Mutex<BTreeMap<String, u64>>> = Default::default();
    let counts: Arc<Vec<AtomicU64>> = Arc::new(families.iter().map(|_| AtomicU64::new(0)).collect());
    let beats: Arc<Vec<AtomicU64>> = Arc::new((0..THREADS).map(|_| AtomicU64::new(0)).collect());
    let done = Arc::new(AtomicBool::new(false));
    let samples: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    type Batch = Vec<(u64, usize, Vec<String>)>;
    let (tx, rx) = sync_channel::<Batch>(64);
    let rx: Arc<Mutex<Receiver<Batch>>> = Arc::new(Mutex::new(rx));
    let next_family = Arc::new(AtomicUsize::new(0));

    // generators: two threads take families in turn
    let gens: Vec<_> = (0..3)
        .map(|_| {
            let (families, stop, tx, next, samples) =
                (families.clone(), stop.clone(), tx.clone(), next_family.clone(), samples.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let fi = next.fetch_add(1, Relaxed);
                    if fi >= families.len() {
                        return;
                    }
                    let mut batch: Batch = vec![];
                    let mut n = 0u64;
                    struct Stop;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        (families[fi].gen)(&mut |parts| {
                            if n == 0 || n.is_power_of_two() && n > 60 && n < 5000 {
                                samples.lock().unwrap().push((families[fi].name.clone(), parts.join("\n-----\n")));
                            }
                            batch.push(((fi as u64) << 40 | n, fi, parts));
                            n += 1;
                            if batch.len() >= 64 {
                                let _ = tx.send(std::mem::take(&mut batch));
                                if stop.load(Relaxed) {
                                    std::panic::panic_any(Stop);
                                }
                            }
                        });
                    }));
                    if let Err(e) = r {
                        if e.downcast_ref::<Stop>().is_none() {
                            let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
                            eprintln!("generator {} failed: {m}", families[fi].name);
                            std::process::exit(4);
                        }
                        return;
                    }
                    let _ = tx.send(batch);
                })
                .unwrap()
        })
        .collect();
    drop(tx);

    let workers: Vec<_> = (0..THREADS)
        .map(|w| {
            let (families, stop, rx, found, counts, beats, known_hits) = (
                families.clone(), stop.clone(), rx.clone(), found.clone(), counts.clone(), beats.clone(), known_hits.clone(),
            );
            let path = slot_path(o, w);
            let known = o.known.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    WORKER.set(Some(w));
                    let slot = std::fs::File::create(path).unwrap();
                    let mut ctx = Ctx::default();
                    loop {
                        let batch = rx.lock().unwrap().recv();
                        let Ok(batch) = batch else { break };
                        if stop.load(Relaxed) {
                            continue;
                        }
                        for (seq, fi, parts) in batch {
                            let f = &families[fi];
                            slot.write_all_at(&encode(fi, &parts), 0).unwrap();
                            beats[w].store(now_ms(), Relaxed);
                            let r = catch_unwind(AssertUnwindSafe(|| judge(f, &parts, &mut ctx)));
                            beats[w].store(0, Relaxed);
                            counts[fi].fetch_add(1, Relaxed);
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(why)) => {
                                    if let Some(k) = known.iter().find(|k| k.is(&parts, &why)) {
                                        *known_hits.lock().unwrap().entry(k.what.clone()).or_insert(0) += 1;
                                        continue;
                                    }
                                    found.lock().unwrap().push(Found { seq, family: fi, parts, why });
                                    if std::env::var("MC_KEEP_GOING").is_err() {
                                        stop.store(true, Relaxed);
                                    }
                                }
                                Err(e) => {
                                    let m = e
                                        .downcast_ref::<String>()
                                        .cloned()
                                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                        .unwrap_or_default();
                                    eprintln!("the model failed in {} on {:?}: {m}", f.name, parts);
                                    std::process::exit(3);
                                }
                            }
                        }
                    }
                    ctx
                })
                .unwrap()
        })
        .collect();
    {
        let (beats, done) = (beats.clone(), done.clone());
        std::thread::spawn(move || {
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(500));
                let now = now_ms();
                for (b, limit) in beats.iter().map(|b| (b, CASE_S)).chain(CALLS.iter().map(|b| (b, HANG_S))) {
                    let s = b.load(Relaxed);
                    if s != 0 && now > s + limit * 1000 {
                        eprintln!("a case, or a call of the code under test, has run for more than {limit} s");
                        std::process::exit(99);
                    }
                }
            }
        });
    }
    let mut all = Ctx::default();
    for w in workers {
        let c = w.join().unwrap();
        all.states.extend(c.states);
        all.transitions.extend(c.transitions);
        all.outcomes.extend(c.outcomes);
        all.accepted += c.accepted;
        all.rejected += c.rejected;
        all.impl_runs += c.impl_runs;
    }
    done.store(true, Relaxed);
    for g in gens {
        g.join().unwrap();
    }
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| (f.seq, f.parts.iter().map(|p| p.len()).sum::<usize>()));
    for (k, n) in known_hits.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {k} ({n} inputs)", o.property);
    }

    // evidence
    let mut fam = String::new();
    let mut cases = 0;
    for (i, f) in families.iter().enumerate() {
        let n = counts[i].load(Relaxed);
        cases += n;
        if i > 0 {
            fam += ", ";
        }
        fam += &format!("{}: {}", json_str(&f.name), n);
    }
    let mut s = samples.lock().unwrap().clone();
    s.sort();
    let step = (s.len() / 12).max(1);
    let picks: Vec<String> = s
        .iter()
        .step_by(step)
        .take(14)
        .map(|(f, t)| json_str(&format!("[{f}] {}", t.chars().take(400).collect::<String>())))
        .collect();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"inputs\": {cases}, \"distinct_outcomes\": {}, \"accepted\": {}, \"rejected\": {}, \"exhaustive\": {},\n  \"rule\": {},\n  \"inputs_per_family\": {{{fam}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json_str(&o.property), json_str(&o.tier),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        all.states.len(), all.transitions.len(), all.impl_runs, all.outcomes.len(), all.accepted, all.rejected,
        found.is_empty(), json_str(o.rule), picks.join(", "),
        o.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), found.len()
    );
    std::fs::create_dir_all(format!("{}/evidence", o.verif)).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", o.verif, o.property), ev).unwrap();
    println!(
        "{} {}: {cases} inputs, {} states, {} transitions, {} implementation runs, {} outcomes ({} accepted, {} rejected), {:.1} s",
        o.property, o.tier, all.states.len(), all.transitions.len(), all.impl_runs, all.outcomes.len(), all.accepted, all.rejected,
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        for (i, f) in families.iter().enumerate() {
            println!("  {}: {}", f.name, counts[i].load(Relaxed));
        }
    }
    if std::env::var("MC_KEEP_GOING").is_ok() {
        let limit: usize = std::env::var("MC_KEEP_GOING").unwrap().parse().unwrap_or(20);
        println!("{} violations", found.len());
        let mut per: BTreeMap<usize, usize> = BTreeMap::new();
        for f in &found {
            let n = per.entry(f.family).or_insert(0);
            *n += 1;
            if *n <= limit {
                println!("--- {} {:?}\n{}", families[f.family].name, f.parts, f.why);
            }
        }
        for (k, n) in per {
            println!("{}: {n}", families[k].name);
        }
    }
    if let Some(f) = found.first() {
        let path = write_replay(o, &families[f.family], &f.parts, &f.why);
        println!("{}", f.why);
        println!("VIOLATION property={} replay={}", o.property, path);
        return 1;
    }
    if all.outcomes.len() < 2 || cases == 0 {
        eprintln!("vacuous run");
        return 5;
    }
    0
}

/// The parent: run the child; if it died, find the case that kills it.
pub fn parent(o: &Opts, families: Vec<Family>, args: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).arg("child").args(args).status().unwrap();
    match st.code() {
        Some(c @ (0 | 1 | 3 | 4 | 5)) => return if c <= 1 { c } else { 2 },
        _ => {}
    }
    eprintln!("the checking process ended with {st}; looking for the case");
    for i in 0..THREADS {
        let Ok(b) = std::fs::read(slot_path(o, i)) else { continue };
        let Some((fi, parts)) = decode(&b) else { continue };
        let Some(f) = families.get(fi) else { continue };
        let path = write_replay(o, f, &parts, "the process died or hung on this case");
        let mut ch = std::process::Command::new(&exe).arg("replay").arg(&path).spawn().unwrap();
        let t = Instant::now();
        let died = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break !matches!(s.code(), Some(0..=5));
            }
            if t.elapsed() > Duration::from_secs(2 * HANG_S) {
                let _ = ch.kill();
                let _ = ch.wait();
                break true;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if died {
            let ev = format!(
                "{{\"property\": {}, \"tier\": {}, \"seed\": 1, \"level\": \"model_checking\", \"coverage\": {{\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1, \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
                json_str(&o.property), json_str(&o.tier), json_str(&parts.join("\n").chars().take(500).collect::<String>())
            );
            std::fs::create_dir_all(format!("{}/evidence", o.verif)).unwrap();
            std::fs::write(format!("{}/evidence/{}.json", o.verif, o.property), ev).unwrap();
            println!("the code under test crashes or does not terminate on this case");
            println!("VIOLATION property={} replay={}", o.property, path);
            return 1;
        }
        let _ = std::fs::remove_file(path);
    }
    eprintln!("no single case reproduces it");
    2
}
