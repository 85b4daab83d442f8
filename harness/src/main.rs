mod checks;
mod driver;
mod engine;
mod gen;
mod mocks;
mod model;
mod state;
mod world;
use engine::*;
use gen::*;

fn all_profile() -> Profile {
    let l: Vec<(K, u64)> = (0..NK)
        .map(|i| {
            let k: K = unsafe { std::mem::transmute(i) };
            let w = match k {
                K::Time => 12,
                K::Supply | K::SupplyC | K::Borrow | K::Batch | K::Withdraw | K::WithdrawC | K::Repay => 8,
                K::NewLiq | K::FillLiq | K::AucTime | K::Crash | K::BadDebt | K::NewBda | K::FillBda | K::NewInt | K::FillInt => 8,
                K::Force | K::SetStatus | K::UpdPool | K::EDrop | K::Swap | K::QSwap | K::Cancel | K::Feed => 1,
                K::Queue | K::BDrop | K::SetAdmin => 1,
                _ => 4,
            };
            (k, w)
        })
        .collect();
    Profile { w: weights(&l), pools: (1, 2), fakes: 1, backs: 1, emis: 6, steps: (30, 60), ..Default::default() }
}
struct Nothing;
impl Ghost for Nothing {
    fn step(&mut self, h: &mut driver::H, st: &driver::Step) -> Result<(), Fail> {
        if st.ok() {
            h.ctx.nontrivial += 1;
        }
        Ok(())
    }
}
fn env<T: std::str::FromStr>(k: &str) -> Option<T> {
    std::env::var(k).ok().and_then(|x| x.parse().ok())
}

fn main() {
    install_quiet_hook();
    let args: Vec<String> = std::env::args().collect();
    let id: &'static str = Box::leak(args.get(1).cloned().unwrap_or_default().into_boxed_str());
    let verif_dir = std::env::var("PBT_DIR").unwrap_or_else(|_| format!("{}/..", env!("CARGO_MANIFEST_DIR")));
    let tier: String = env("VERIF_TIER").unwrap_or_else(|| "quick".into());
    let quick = tier == "quick";
    let (rule, cases, assume) = if id == "ALL" {
        ("", 500, vec![])
    } else {
        match checks::spec(id) {
            Some(s) => (s.rule, if quick { s.quick } else { s.thorough }, s.assume.iter().map(|x| x.to_string()).collect()),
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(4);
            }
        }
    };
    let cfg = Config {
        id: id.to_string(),
        rule: rule.into(),
        cases: env("CASES").unwrap_or(cases),
        seed: env("VERIF_SEED").unwrap_or(1),
        max_secs: env("MAX_SECS").unwrap_or(if quick { 200 } else { 1500 }),
        tier,
        threads: env("THREADS").unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8)),
        verif_dir,
        assumptions: assume,
    };
    let inner: Box<CaseFn> = if id == "ALL" {
        Box::new(|s, c| history(s, c, "*", &all_profile(), &mut Nothing))
    } else {
        checks::case(id)
    };
    let survey = std::env::var("SURVEY").is_ok();
    let f = move |s: &mut Src, c: &mut Ctx| -> Result<(), Fail> {
        match inner(s, c) {
            Err(e) if survey => {
                c.label(&format!("!! {} {}", e.key, e.msg));
                Ok(())
            }
            r => r,
        }
    };
    if args.get(2).map(|x| x == "--replay").unwrap_or(false) {
        std::process::exit(replay_file(&args[3], &f));
    }
    let mut known = vec![];
    if id == "C19" {
        if let Some(m) = checks::finding_return(cfg.seed) {
            known.push(("C19".to_string(), "emitter-swap-return".to_string(), m));
        }
    }
    std::process::exit(run_with_known(&cfg, &f, &known));
}
