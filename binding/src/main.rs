#[path = "../../harness/src/common.rs"]
mod common;


mod python;
#[path = "../../harness/src/queries.rs"]
mod queries;
#[cfg(feature = "sched")]
#[path = "../../harness/src/sched.rs"]
mod sched;




use symrt::explore::{replay, work, Scenario, Settings};

#[global_allocator]
static A: symrt::alloc::Poison = symrt::alloc::Poison;

fn scenarios(prop: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    if prop == "C16" {
        v.extend(python::list(thorough));
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let find = |prop: &str, name: &str| scenarios(prop, thorough).into_iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no scenario {name}"));
    match a.get(1).map(|s| s.as_str()) {
        // list PROPERTY
        Some("list") => {
            for s in scenarios(&a[2], thorough) {
                println!("{}\t{}\t{}", s.name, s.variants, s.cost);
            }
        }
        // run PROPERTY SCENARIO SECONDS MODELFILE SOLVER
        Some("run") => {
            let s = find(&a[2], &a[3]);
            let set = Settings {
                solver: a.get(6).cloned().unwrap_or("z3-new".into()),
                exact_solver: std::env::var("SYM_EXACT").unwrap_or("cvc5".into()),
                timeout_ms: std::env::var("SYM_TIMEOUT_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(20_000),
                time_s: a[4].parse().unwrap(),
                model_path: a[5].clone(),
                seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
                thorough,
                max_paths: u64::MAX,
            };
            work(&s, &set);
        }
        // replay PROPERTY SCENARIO MODELFILE
        Some("replay") => {
            let s = find(&a[2], &a[3]);
            let m = std::fs::read_to_string(&a[4]).unwrap();
            std::process::exit(replay(&s, &m, thorough, a.get(5).map_or(false, |x| x == "--sym")));
        }
        _ => {
            eprintln!("usage: harness list|run|replay ...");
            std::process::exit(2);
        }
    }
}
