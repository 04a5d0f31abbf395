mod checks;
mod driver;
mod exec;
mod gen;
mod oracle;
mod trace;
mod proto;
mod worker;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let find = |id: &str| {
        checks::all().into_iter().find(|c| c.id() == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker::main(),
        Some("check") => {
            let tier = a.get(3).cloned().unwrap_or(tier);
            std::process::exit(find(&a[2]).run(&tier, seed))
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("read")).expect("json");
            let times = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(find(v["property"].as_str().unwrap()).replay(&a[2], times))
        }
        Some("sample") => find(&a[2]).print_sample(seed, 5),
        _ => {
            eprintln!("usage: vh check <property> [tier] | replay <file> [times] | sample <property>");
            std::process::exit(2);
        }
    }
}
