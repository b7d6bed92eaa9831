mod age;
mod core;
mod eng;
mod graphsim;
mod model;
mod monitor;
mod probe;
mod program;
mod props;
mod sampler_model;
use crate::core::{Options, Tier};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let mut o = Options {
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
            Tier::Thorough
        } else {
            Tier::Quick
        },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        out_dir: verif.join("evidence"),
        replay_dir: verif.join("replays"),
        known: verif.join("known_findings.txt"),
        only_case: None,
        cases: None,
        verbose: false,
        slow: std::env::var("RV_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        seconds: None,
        extra: serde_json::json!({}),
    };
    let mut id = String::new();
    let mut i = 1;
    while i < args.len() {
        let next = args.get(i + 1).cloned().unwrap_or_default();
        let mut used = true;
        match args[i].as_str() {
            "--tier" => o.tier = if next == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => o.seed = next.parse().expect("seed"),
            "--case" => o.only_case = Some(next.parse().expect("case")),
            "--cases" => o.cases = Some(next.parse().expect("cases")),
            "--seconds" => o.seconds = Some(next.parse().expect("seconds")),
            "--out" => o.out_dir = next.into(),
            "--replays" => o.replay_dir = next.into(),
            "--replay" => {
                let j: serde_json::Value =
                    serde_json::from_str(&std::fs::read_to_string(&next).expect("replay file")).expect("json");
                id = j["property"].as_str().unwrap().into();
                o.seed = j["seed"].as_u64().unwrap();
                o.only_case = j["case"].as_u64();
                o.tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "-v" => {
                o.verbose = true;
                used = false;
            }
            s => {
                id = s.to_string();
                used = false;
            }
        }
        i += if used { 2 } else { 1 };
    }
    let props = props::all();
    if id == "list" {
        for p in &props {
            println!("{}", p.id);
        }
        return;
    }
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    std::process::exit(core::run(p, &o));
}
