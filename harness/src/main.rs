#![allow(clippy::all, dead_code, unused_imports)]
mod crsgen;
#[macro_use]
mod engine;
mod gen;
mod oracle;
mod props;
mod tables;

fn main() {
    engine::take_stdout();
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.to_string())
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = args[2].clone();
            if let Err(e) = oracle::selfcheck() {
                say!("oracle self check failed: {e}");
                std::process::exit(2);
            }
            let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
            let tier = get("--tier", "quick");
            match props::property(&id) {
                Some(p) => match engine::run_property(p, &tier, seed) {
                    0 => engine::run_release(&id, &tier, seed),
                    code => code,
                },
                None => 2,
            }
        }
        Some("replay") => engine::replay(props::all(), &args[2]),
        Some("selfcheck") => match oracle::selfcheck() {
            Ok(()) => 0,
            Err(e) => {
                say!("{e}");
                2
            }
        },
        Some("list") => {
            for p in props::all() {
                say!("{}", p.id);
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
