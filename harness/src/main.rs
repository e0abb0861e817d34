mod checks;
mod expr;
mod ecc;
mod flat;
mod gen;
mod hb;
mod interp;
mod modgen;
mod prog;
mod pytket;
mod qstate;
mod run;

use run::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let env = |k: &str| std::env::var(k).ok().filter(|s| !s.is_empty());
    let o = Opts {
        tier: get("--tier").or_else(|| env("VERIF_TIER")).unwrap_or("quick".into()),
        seed: get("--seed").or_else(|| env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1),
        shards: get("--shards").and_then(|s| s.parse().ok()).unwrap_or(8),
        only_suite: get("--suite"),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    let cmd = args.first().cloned().unwrap_or_default();
    if cmd == "list" {
        for p in checks::all() {
            println!("{} {:?}", p.id, p.suites.iter().map(|s| (s.name, s.quick, s.thorough)).collect::<Vec<_>>());
        }
        return;
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let stack = if id == "C08" { 8 } else { 512 };
    let code = std::thread::Builder::new()
        .stack_size(stack << 20)
        .spawn(move || {
            let Some(prop) = checks::all().into_iter().find(|p| p.id == id) else {
                eprintln!("no such property: {id}");
                return 2;
            };
            match cmd.as_str() {
                "check" => check(&prop, &o),
                "worker" => {
                    let shard = get_arg(&args, "--shard").parse().unwrap();
                    let status = get_arg(&args, "--status");
                    let rep = worker(&prop, &o, shard, std::path::Path::new(&status));
                    std::fs::write(get_arg(&args, "--report"), serde_json::to_string(&rep).unwrap()).unwrap();
                    0
                }
                "replay" => replay(&prop, &args[2]),
                "one" => one(&prop, &o, &args[2], args[3].parse().unwrap()),
                _ => {
                    eprintln!("usage: harness check|worker|replay|one|list ...");
                    2
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}
fn get_arg(args: &[String], k: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).expect(k)
}
