#![allow(non_local_definitions)]
mod ctx;
mod crowd;
mod duo;
mod ent;
#[allow(non_snake_case)]
mod model;
mod node;
mod props;
mod runner;
mod sut;
mod tape;
mod world;
mod play;
mod sea;
mod supervise;

extern "C" {
    fn sim_guard_install();
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn num(name: &str) -> u64 {
    arg(name).and_then(|v| v.parse().ok()).unwrap_or(0)
}

fn main() {
    node::install_hook();
    unsafe { sim_guard_install() };
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    // what is computed once per process, so that every run finds it the same
    props::kems();
    props::sigs();
    if matches!(a.get(1).map(|s| s.as_str()), Some("check" | "check-inner" | "one" | "seq" | "replay")) && supervise::warms() && a[1] != "check" {
        crowd::warm();
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some(cmd @ ("check" | "check-inner")) => {
            let id = arg("--prop").expect("--prop");
            let tier = arg("--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()));
            let seed = arg("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let verif = arg("--verif").unwrap_or_else(|| "/verif".into());
            let runs = arg("--runs").and_then(|s| s.parse().ok());
            let cap_s = arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1500 } else { 150 });
            let p = props.iter().find(|p| p.id == id).expect("unknown property");
            let o = runner::Opts { seed, tier, verif, runs, cap_s };
            if cmd == "check" {
                supervise::supervise(p, &o)
            } else {
                supervise::attach();
                let c = runner::check(p, &o);
                supervise::finished();
                c
            }
        }
        Some("one") => {
            supervise::attach();
            let p = props.iter().find(|p| Some(p.id) == arg("--prop").as_deref()).expect("unknown property");
            let tape = arg("--tape").map(|f| std::fs::read_to_string(f).unwrap().split(',').filter_map(|v| v.parse().ok()).collect());
            supervise::one_child(p, num("--run-seed"), num("--index"), tape, a.iter().any(|x| x == "--deep"))
        }
        Some("seq") => {
            let p = props.iter().find(|p| Some(p.id) == arg("--prop").as_deref()).expect("unknown property");
            supervise::seq_child(p, num("--seed"), num("--from"), num("--to"), a.iter().any(|x| x == "--deep"), a.iter().any(|x| x == "--crowd"), num("--secs"))
        }
        Some("warm") => {
            crowd::warm();
            0
        }
        Some("p15-child") => props::p15::child(),
        Some("replay") => runner::replay(&props, &a[2]),
        _ => {
            eprintln!("usage: sim check --prop Pxx [--tier quick|thorough] [--seed n] | sim replay FILE");
            2
        }
    };
    std::process::exit(code);
}
