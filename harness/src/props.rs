use crate::util::*;
use crate::{chain, drivers, ev, ext, model, more};

pub fn run(ctx: &mut Ctx) {
    let n = std::env::var("HARNESS_N").ok().and_then(|x| x.parse().ok()).unwrap_or(if ctx.thorough { 400000 } else { 20000 });
    if ctx.prop != "none" {
        model::run(ctx, n);
    }
    let p = ctx.prop.clone();
    let is = |x: &[&str]| p == "all" || p == "none" || x.contains(&p.as_str());
    let all = p == "none" || p == "all";
    let mut go = |who: &[&str], only: &[&'static str], name: &str, f: fn(&mut Ctx) -> R<()>| {
        if is(who) {
            if !all {
                ctx.only = only.to_vec();
            }
            ctx.scenario(name, f);
        }
    };
    go(&["P09"], &[], "evidence", |c| Ok(ev::complete(c)));
    go(&["P09", "P08", "P07"], &[], "evidence", |c| Ok(ev::complete_others(c)));
    go(&["P10"], &["changed-evidence-verifies"], "changed evidence", |c| Ok(ev::broken(c, true, false)));
    go(&["P11"], &["hostile-evidence-fails-locally"], "changed evidence", |c| Ok(ev::broken(c, false, true)));
    go(&["P10", "P12"], &["honest-party-accused"], "honest party", |c| Ok(ev::honest(c)));
    go(&["P11"], &["hostile-evidence-fails-locally"], "hostile evidence", |c| {
        let n = if c.thorough { 300000 } else { 20000 };
        Ok(ev::hostile(c, n))
    });
    go(&["P11"], &["wrong-group"], "chained evidence", chain::chain);
    go(&["P12"], &[], "digests", more::digests);
    go(&["P12", "P01"], &[], "transplanted parts", more::transplants);
    go(&["P14"], &[], "shapes", more::shapes);
    go(&["P15"], &[], "graphs", more::graphs);
    go(&["P15", "P04"], &[], "neighbours", more::neighbours);
    go(&["P04"], &["honest-run-trouble", "honest-run-no-result", "round-inputs"], "honest runs", more::honest_runs);
    go(&["P05"], &["honest-run-no-result", "honest-run-no-report"], "honest runs", more::honest_runs);
    go(&["P06"], &["honest-run-path", "honest-run-no-result", "round-inputs"], "honest runs", more::honest_runs);
    go(&["P07", "P08"], &["honest-party-reported"], "honest runs", more::honest_runs);
    go(&["P02"], &["honest-run-trouble"], "honest runs", more::honest_runs);
    go(&["P13"], &["honest-party-reported", "honest-run-no-result", "honest-run-no-report"], "honest runs", more::honest_runs);
    go(&["P18"], &["broadcasts-differ", "destination", "destinations", "honest-run-trouble", "round-inputs"], "honest runs", more::honest_runs);
    go(&["P07", "P08"], &[], "equivocation", more::equivocation);
    go(&["P13"], &[], "reports", more::reports);
    go(&["P16"], &[], "chain", chain::chain);
    go(&["P16"], &[], "nested chain", chain::nested);
    go(&["P17"], &[], "helpers", more::helpers);
    go(&["P18"], &[], "defaults", more::defaults);
    go(&["P19"], &[], "extensions", ext::extensions);
    go(&["P20"], &[], "drivers", drivers::drivers);
    go(&["P20"], &[], "closed channels", drivers::closed);
    go(&["P20"], &[], "crowded rounds", drivers::crowded);
    go(&["P20"], &[], "whole runs", drivers::whole);
    go(&["P20"], &[], "cancelled while processing", drivers::cancelled_while_processing);
    go(&["P20"], &[], "randomness", drivers::randomness);
    go(&["P11"], &[], "rounds without errors", more::no_errors);
}
