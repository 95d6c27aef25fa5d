#![allow(non_snake_case, clippy::all)]
mod cmp;
mod engine;
mod gen;
mod props;
mod refm;
mod selfcheck;
mod tables;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map_or(false, |a| a == "--zygote") {
        props::pure::zygote();
    }
    let child = args.first().map_or(false, |a| a == "--child");
    let a: Vec<String> = if child { args[1..].to_vec() } else { args.clone() };
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let Some(id) = a.first() else {
        eprintln!("usage: if97check PROPERTY [--tier quick|thorough] [--sub NAME] [--replay FILE]");
        std::process::exit(2);
    };
    let Some(p) = props::all().into_iter().map(|f| f()).find(|p| p.id == id) else {
        eprintln!("no property {id}");
        std::process::exit(2);
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Some(f) = get("--replay") {
        std::process::exit(engine::replay(&p, &f));
    }
    if child {
        let tier = get("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
        let slots = std::env::var("IF97_SLOTS").unwrap();
        std::process::exit(engine::run(&p, &tier, seed, &slots, get("--sub").as_deref()));
    }
    std::process::exit(engine::supervise(&p, &args));
}
