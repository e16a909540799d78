mod api;
mod engine;
mod gen;
mod ktx;
mod props;
mod real;
mod rich;
mod wire;
mod zones;

/// Ties the build to the counters.
#[allow(dead_code)]
const COUNTERS: &str = include_str!("../c/fuel.c");

#[global_allocator]
static ALLOC: engine::CountingAlloc = engine::CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string());
    engine::install_panic_hook();
    let code = match arg(0) {
        "list" => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        "replay" => engine::replay(props::PROPS, arg(1)),
        // the other process of C02
        "snap" => props::snap_main(),
        id => match props::PROPS.iter().find(|p| p.id == id) {
            Some(p) => {
                let tier = if arg(1).is_empty() { tier.as_str() } else { arg(1) };
                engine::install_abort_handler(p.id);
                engine::run(p, tier, seed)
            }
            None => {
                eprintln!("usage: mvdcheck <property> [quick|thorough] | replay <file> | list");
                2
            }
        },
    };
    std::process::exit(code);
}
