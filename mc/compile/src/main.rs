use mc_parse::engine;
mod cli;
mod convenience;
mod disk;
mod families;
mod fixpoint;
mod graph;
mod isolate;
mod options;
mod paths;
mod resolvers;
mod sizes;
mod spans;

use engine::*;

pub fn judge_by_name(n: &str) -> Judge {
    match n {
        "set" => graph::j_set,
        "error" => graph::j_error,
        "history" => graph::j_history,
        "output" => graph::j_output,
        "locate" => graph::j_locate,
        "paths" => paths::j_paths,
        "span" => spans::j_span,
        "convenience" => convenience::j_convenience,
        "disk" => disk::j_disk,
        "chain" => resolvers::j_chain,
        "set_names" => resolvers::j_set_names,
        "set_many" => resolvers::j_set_many,
        "text" => resolvers::j_text,
        "bytes" => resolvers::j_bytes,
        "google" => resolvers::j_google,
        "cli" => cli::j_cli,
        "options" => options::j_options,
        "fixpoint" => fixpoint::j_fixpoint,
        "nest" => graph::j_nest,
        "small" => graph::j_small,
        "nested" => isolate::j_nested,
        "threads" => isolate::j_threads,
        "orders" => graph::j_orders,
        "far" => sizes::j_far,
        "custom" => sizes::j_custom,
        "includes" => sizes::j_includes,
        "large" => sizes::j_large,
        "deep" => sizes::j_deep,
        "alike" => sizes::j_alike,
        "batch" => sizes::j_batch,
        _ => panic!("no judge {n}"),
    }
}

/// A directory of our own for files; removed when we end.
pub fn scratch() -> std::path::PathBuf {
    std::env::var_os("MC_SCRATCH").unwrap().into()
}

fn families(p: &str, tier: &str) -> Vec<Family> {
    match p {
        "C20" => families::c20(tier),
        "C21" => families::c21(tier),
        "C22" => families::c22(tier),
        "C23" => paths::c23(tier),
        "C24" => isolate::c24(tier),
        "C25" => families::c25(tier),
        "C26" => options::c26(tier),
        "C27" => resolvers::c27(tier),
        "C28" => cli::c28(tier),
        "C29" => families::c29(tier),
        "C30" => families::c30(tier),
        "C31" => fixpoint::c31(tier),
        _ => panic!("no property {p}"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let owner = std::env::var_os("MC_SCRATCH").is_none();
    if owner {
        let d = std::env::temp_dir().join(format!("mc-compile-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_var("MC_SCRATCH", d.canonicalize().unwrap());
    }
    // check|child PROPERTY TIER VERIF
    let code = match a[1].as_str() {
        m @ ("check" | "child") => {
            let o = Opts {
                property: a[2].clone(),
                tier: a[3].clone(),
                verif: a[4].clone(),
                known: known(&a[4], &a[2]),
                rule: "states: distinct configurations of the reference model (files loaded, import flags, faults); transitions: distinct operations between them; traces: operations run on the real compiler and compared with the model",
                assumptions: &[
                    "the reference model of import resolution in /verif/mc/compile states the documented behaviour",
                    "prost and prost-reflect decode descriptors correctly",
                    "histories beyond the enumerated bounds are not covered",
                ],
            };
            let mut f = families(&o.property, &o.tier);
            if let Ok(only) = std::env::var("MC_ONLY") {
                f.retain(|f| f.name.contains(&only));
            }
            if m == "check" {
                parent(&o, f, &a[2..])
            } else {
                child(&o, f)
            }
        }
        "alone" => {
            isolate::print_alone(&a[2]);
            0
        }
        "replay" => {
            let (judge, parts) = read_replay(&a[2]);
            match judge_by_name(&judge)(&parts, &mut Ctx::default()) {
                Ok(()) => {
                    println!("holds");
                    0
                }
                Err(w) => {
                    println!("{w}");
                    1
                }
            }
        }
        _ => 2,
    };
    if owner {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(scratch());
    }
    std::process::exit(code);
}
