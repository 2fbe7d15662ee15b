//! Runs the contracts of /verif/contracts as oracles on the real code, through its public API.
//! usage: harness --property PNN --seed N --tier quick|thorough --out FILE
mod ev;
mod ext;
mod model;
mod more;
mod chain;
mod drivers;
mod props;
mod puppet;
mod sim;
mod util;

use serde_json::json;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str, d: &str| {
        args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    let prop = get("--property", "");
    let mut ctx = util::Ctx {
        prop: prop.clone(),
        seed: get("--seed", "1").parse().unwrap_or(1),
        thorough: get("--tier", "quick") == "thorough",
        failures: vec![],
        evaluations: 0,
        skipped: vec![],
        counts: Default::default(),
        only: vec![],
    };
    if std::env::var("HARNESS_BACKTRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    props::run(&mut ctx);
    let rep = json!({
        "property": prop,
        "seed": ctx.seed,
        "thorough": ctx.thorough,
        "evaluations": ctx.evaluations,
        "counts": ctx.counts,
        "skipped": ctx.skipped,
        "failures": ctx.failures.iter().map(|(id, what)| json!({"id": id, "what": what})).collect::<Vec<_>>(),
    });
    let text = serde_json::to_string_pretty(&rep).unwrap();
    let out = get("--out", "");
    if out.is_empty() {
        println!("{text}");
    } else {
        std::fs::write(out, text).unwrap();
    }
}
