use mc_parse::engine::*;
use mc_parse::{families_of, judge_by_name};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // check|child PROPERTY TIER VERIF
    let code = match a[1].as_str() {
        m @ ("check" | "child") => {
            let o = Opts { property: a[2].clone(), tier: a[3].clone(), verif: a[4].clone(), known: known(&a[4], &a[2]),
                rule: "states: distinct configurations of the reference pushdown automaton; transitions: distinct configuration changes; traces: runs of the real parser compared with the reference",
                assumptions: &["the reference model in /verif/mc/refmodel states the protobuf language correctly", "inputs beyond the enumerated bounds are not covered"],
            };
            let mut f = families_of(&o.property, &o.tier);
            if let Ok(only) = std::env::var("MC_ONLY") {
                f.retain(|f| f.name.contains(&only));
            }
            if m == "check" {
                parent(&o, f, &a[2..])
            } else {
                child(&o, f)
            }
        }
        "replay" => {
            let (judge, parts) = read_replay(&a[2]);
            match judge_by_name(&judge)(&parts, &mut Ctx::default()) {
                Ok(()) => {
                    println!("holds");
                    0
                }
                Err(w) => {
                    println!("{w}");
                    1
                }
            }
        }
        _ => 2,
    };
    std::process::exit(code);
}
