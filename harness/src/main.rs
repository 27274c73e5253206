mod cluster;
mod core;
mod form;
mod rules;
mod zero;
mod gen;
mod pages;
mod pool;
mod runner;
mod specs;
mod sys;
mod ledger;
mod model;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    runner::install_panic_hook();
    let worlds = specs::worlds();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).and_then(|x| x.parse().ok()).unwrap_or(d);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &a[2];
            let spec = specs::spec(id).unwrap_or_else(|| panic!("no property {id}"));
            let thorough = a.iter().any(|x| x == "--thorough");
            let args = runner::Args {
                root,
                seed: num("--seed", std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)),
                thorough,
                par: num("--par", 8) as usize,
                scale: opt("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0),
            };
            runner::check(&worlds, &spec, &args)
        }
        Some("replay") => runner::replay(&worlds, std::path::Path::new(&a[2])),
        Some("run") => {
            // run WORLD FOCUS SEED: one case, verbosely
            let w = worlds.iter().find(|w| w.name() == a[2]).expect("world");
            let c = w.generate(num("--seed", a.get(4).and_then(|x| x.parse().ok()).unwrap_or(1)), &a[3], a.iter().any(|x| x == "--thorough"));
            if a.iter().any(|x| x == "--plan") {
                println!("{}", c.knobs);
                for p in &c.plan {
                    println!("{}", p.to_string().chars().take(300).collect::<String>());
                }
            }
            let mut out = None;
            runner::run_jobs(&worlds, &[runner::Job::fixed(c, &a[3])], 1, 600, |_, o| {
                out = Some(o);
                true
            });
            let o = out.unwrap();
            if std::env::var_os("SNAPSIM_VERBOSE").is_none() {
                for t in &o.tail {
                    println!("{t}");
                }
            }
            println!("{:#?}\n{} states, {} ms, {} events, {}", o.counts, o.states, o.sim_ms, o.events, o.trace_hash);
            for v in &o.violations {
                println!("VIOLATED {} {}: {}", v.property, v.rule, v.detail);
            }
            0
        }
        Some("survey") => runner::survey(&worlds, &a[2], &a[3], num("--seed", 1), num("-n", 100), num("--par", 8) as usize, a.iter().any(|x| x == "--thorough")),
        Some("list") => {
            for s in specs::all() {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("snapsim check ID [--thorough] [--seed N] | replay FILE | run WORLD FOCUS SEED | survey WORLD FOCUS -n N | list");
            2
        }
    };
    runner::cleanup();
    std::process::exit(code);
}
