mod checks;
mod core;
mod env;
mod fsdrive;
mod fsmodel;
mod kfs;
mod libcf;
mod scen_block;
mod scen_ds;
mod scen_raid;
mod scen_tree;
mod scen_fs;
mod scen_rec;
mod scen_wb;

use crate::core::{Check, Tier};

fn find(p: &str) -> &'static Check {
    match checks::CHECKS.iter().find(|c| c.prop == p) {
        Some(c) => c,
        None => { eprintln!("no check for {p}"); std::process::exit(2) }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => { core::worker(find(&a[2])); 0 }
        Some("check") => {
            let c = find(&a[2]);
            let _g = core::ScratchGuard(core::top_scratch());
            let tier = match opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
            let seed = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            core::run_check(c, tier, seed, opt("--runs").and_then(|s| s.parse().ok()), opt("--wall").and_then(|s| s.parse().ok()))
        }
        Some("min") => {
            let _g = core::ScratchGuard(core::top_scratch());
            let c = find(&a[2]);
            let plan = (c.gen)(a[3].parse().unwrap(), if a.iter().any(|x| x == "--thorough") { Tier::Thorough } else { Tier::Quick });
            let v = core::run_plan(c, &plan, &core::top_scratch(), false).viol.expect("no violation");
            let (p, v, n) = core::minimise(c, &plan, &v, std::time::Duration::from_secs(40));
            let f = format!("/tmp/{}-{}.json", &a[2], &a[3]);
            std::fs::write(&f, serde_json::to_string(&serde_json::json!({"property": c.prop, "seed": 0, "plan": p, "trace_hash": ""})).unwrap()).unwrap();
            println!("{}\n{}: {}\n{n} runs, {f}", serde_json::to_string(&p).unwrap(), v.kind, v.msg);
            0
        }
        Some("survey") => {
            let _g = core::ScratchGuard(core::top_scratch());
            let tier = if a.iter().any(|x| x == "--thorough") { Tier::Thorough } else { Tier::Quick };
            core::survey(find(&a[2]), tier, opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(200));
            0
        }
        Some("replay") => {
            let _g = core::ScratchGuard(core::top_scratch());
            let s = std::fs::read_to_string(&a[2]).expect("cannot read the replay file");
            let doc: serde_json::Value = serde_json::from_str(&s).expect("not JSON");
            core::replay(find(doc["property"].as_str().unwrap()), &doc, a.iter().any(|x| x == "--trace"))
        }
        Some("one") => {
            // one PROP SEED: run one seed here, printing the trace
            let _g = core::ScratchGuard(core::top_scratch());
            let c = find(&a[2]);
            let tier = if a.iter().any(|x| x == "--thorough") { Tier::Thorough } else { Tier::Quick };
            let plan = (c.gen)(a[3].parse().unwrap(), tier);
            if a.iter().any(|x| x == "--plan") { println!("{}", serde_json::to_string_pretty(&plan).unwrap()); }
            let r = core::run_plan(c, &plan, &core::top_scratch(), a.iter().any(|x| x == "--trace"));
            for l in &r.trace { println!("{l}"); }
            println!("{:?} steps={} ios={} sim={}s hash={:016x} faults={:?} probes={:?}", r.viol, r.steps, r.ios, r.sim_ns / 1_000_000_000, r.hash, r.faults, r.probes);
            r.viol.is_some() as i32
        }
        _ => { eprintln!("usage: dst check PROP [--tier quick|thorough] [--seed N] [--runs N] [--wall S] | dst replay FILE [--trace] | dst one PROP SEED [--trace]"); 2 }
    };
    std::process::exit(rc);
}
