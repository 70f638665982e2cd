mod case;
mod engine;
mod gen;
mod props;
mod rng;
mod shm;
mod world;
use engine::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let verif = PathBuf::from(env("CDXSIM_VERIF", "/verif"));
    let build = PathBuf::from(env("CDXSIM_BUILD", "/verif/build"));
    let conf = Conf {
        bin: PathBuf::from(env("CDXSIM_BIN", build.join("target/debug/cdx").to_str().unwrap())),
        shim: build.join("shim.so"),
        verif,
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        tier: opt("--tier").unwrap_or_else(|| env("VERIF_TIER", "quick")),
        workers: opt("--workers").map_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()).min(16), |x| x.parse().unwrap()),
        cases: opt("--cases").map(|x| x.parse().unwrap()),
        from: opt("--from").map_or(0, |x| x.parse().unwrap()),
    };
    let id = a.get(1).cloned().unwrap_or_default();
    let all = props::all();
    let p = match all.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("usage: cdxsim PROPERTY [--tier quick|thorough] [--cases N] [--from N] [--replay FILE] [--determinism N] [--show N]");
            std::process::exit(2);
        }
    };
    println!("property {} seed {} tier {} workers {}", p.id, conf.seed, conf.tier, conf.workers);
    let code = if let Some(f) = opt("--replay") {
        replay(p, &conf, &PathBuf::from(f))
    } else if let Some(n) = opt("--determinism") {
        determinism(p, &conf, n.parse().unwrap())
    } else if let Some(n) = opt("--show") {
        let c = case_for(p, conf.seed, n.parse().unwrap());
        println!("{}", render(&c));
        print!("{}", c.to_text());
        0
    } else {
        search(p, &conf)
    };
    std::process::exit(code);
}
