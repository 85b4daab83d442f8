//! Property-based testing engine: recorded choice sequences, deterministic parallel runner,
//! shrinking by deleting / minimising choices, replay files, evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Src {
    s: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub log: Vec<u64>,
    pub spans: Vec<usize>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { s: seed, replay: None, pos: 0, log: vec![], spans: vec![] }
    }
    pub fn replaying(v: Vec<u64>) -> Src {
        Src { s: 0, replay: Some(v), pos: 0, log: vec![], spans: vec![] }
    }
    /// mark the start of an operation, so that shrinking can delete whole operations
    pub fn span(&mut self) {
        self.spans.push(self.log.len());
    }
    /// uniform choice in 0..n (0 is the simplest)
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => ((splitmix(&mut self.s) as u128 * n as u128) >> 64) as u64,
        };
        self.pos += 1;
        self.log.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i128, hi: i128) -> i128 {
        if hi <= lo {
            return lo;
        }
        let n = (hi - lo) as u128 + 1;
        if n <= u64::MAX as u128 {
            lo + self.below(n as u64) as i128
        } else {
            let h = self.below(1 << 62) as u128;
            let l = self.below(1 << 62) as u128;
            lo + (((h << 62) | l) % n) as i128
        }
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // 0 must be the simplest choice = false
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    /// log-uniform positive integer in 1..=max
    pub fn log_int(&mut self, max: i128) -> i128 {
        if max <= 1 {
            return 1;
        }
        let bits = 128 - (max as u128).leading_zeros() as u64;
        let b = self.range(1, bits);
        let lo = 1i128 << (b - 1);
        let hi = if b >= 127 { max } else { (1i128 << b) - 1 };
        self.irange(lo, hi.min(max)).min(max).max(1)
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}

/// What one case reports
#[derive(Default, Clone)]
pub struct Ctx {
    pub trace: Vec<String>,
    pub tracing: bool,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub sig: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    /// count an exercised instance of what the property is about
    pub fn hit(&mut self, l: &str) {
        self.nontrivial += 1;
        self.label(l);
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    pub fn mix(&mut self, v: u64) {
        let mut x = self.sig ^ v;
        self.sig = splitmix(&mut x);
    }
}

pub type CaseFn = dyn Fn(&mut Src, &mut Ctx) -> Result<(), Fail> + Sync;

enum Outcome {
    Ok,
    Fail(Fail),
    Panic(String),
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        let mut s = format!("{}", info);
        if std::env::var("PBT_BT").is_ok() {
            s.push_str(&format!("{}", std::backtrace::Backtrace::force_capture()));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

fn run_one(f: &CaseFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(p) => {
            let s = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            Outcome::Panic(format!("{} | {}", s, LAST_PANIC.with(|p| p.borrow().clone())))
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Config {
    pub id: String,
    pub rule: String,
    pub cases: u64,
    pub seed: u64,
    pub tier: String,
    pub max_secs: u64,
    pub threads: usize,
    pub verif_dir: String,
    pub assumptions: Vec<String>,
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut x = seed ^ 0xA5A5_5A5A_1234_5678;
    for b in id.bytes() {
        x = x.wrapping_mul(0x100000001B3) ^ b as u64;
        splitmix(&mut x);
    }
    x = x.wrapping_add(idx.wrapping_mul(0xD1342543DE82EF95));
    splitmix(&mut x);
    splitmix(&mut x)
}

fn shrink(f: &CaseFn, key: &str, start: Vec<u64>, spans: Vec<usize>, budget_secs: u64) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut spans = spans;
    let mut tries = 0;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, spans: &mut Vec<usize>| -> bool {
        if tries > 3000 || t0.elapsed().as_secs() > budget_secs {
            return false;
        }
        tries += 1;
        let mut s = Src::replaying(cand.clone());
        let mut c = Ctx::default();
        let k = match run_one(f, &mut s, &mut c) {
            Outcome::Fail(fl) => Some(fl.key),
            Outcome::Panic(_) => Some("panic".to_string()),
            Outcome::Ok => None,
        };
        if let Some(k) = k {
            if k == key {
                let mut used = s.log.clone();
                while used.last() == Some(&0) {
                    used.pop();
                }
                if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                    *best = used;
                    *spans = s.spans.clone();
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete groups of operations
        let mut k = (spans.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i < spans.len() {
                let a = spans[i].min(best.len());
                let b = spans.get(i + k).copied().unwrap_or(best.len()).min(best.len());
                if a < b {
                    let mut cand = best[..a].to_vec();
                    cand.extend_from_slice(&best[b..]);
                    if attempt(cand, &mut best, &mut spans) {
                        continue;
                    }
                }
                i += 1;
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // truncate
        let mut n = best.len();
        while n > 0 {
            n = n * 3 / 4;
            let cand = best[..n.min(best.len())].to_vec();
            attempt(cand, &mut best, &mut spans);
        }
        // delete single choices, minimise values
        let mut i = 0;
        while i < best.len() {
            let mut cand = best.clone();
            if cand[i] != 0 {
                cand[i] = 0;
                if !attempt(cand, &mut best, &mut spans) {
                    let mut lo = 0u64;
                    let mut hi = best[i];
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        if i >= cand.len() {
                            break;
                        }
                        cand[i] = mid;
                        if attempt(cand, &mut best, &mut spans) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed().as_secs() > budget_secs {
            break;
        }
    }
    best
}

pub fn write_replay(cfg: &Config, choices: &[u64], f: &CaseFn) -> (String, Fail, Ctx) {
    let mut s = Src::replaying(choices.to_vec());
    let mut c = Ctx { tracing: true, ..Default::default() };
    let fl = match run_one(f, &mut s, &mut c) {
        Outcome::Fail(fl) => fl,
        Outcome::Ok => Fail { key: "flaky".into(), msg: "did not reproduce".into() },
        Outcome::Panic(m) => Fail { key: "panic".into(), msg: m },
    };
    let dir = format!("{}/replays", cfg.verif_dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, cfg.id);
    let body = format!(
        "{{\n \"property\": {},\n \"key\": {},\n \"message\": {},\n \"replay\": \"run ./check {} --replay {}\",\n \"choices\": [{}],\n \"history\": [\n  {}\n ]\n}}\n",
        js(&cfg.id),
        js(&fl.key),
        js(&fl.msg),
        cfg.id,
        path,
        choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        c.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n  ")
    );
    let _ = std::fs::write(&path, body);
    (path, fl, c)
}

pub fn replay_file(path: &str, f: &CaseFn) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let a = t.find("\"choices\": [").expect("choices") + 12;
    let b = a + t[a..].find(']').unwrap();
    let v: Vec<u64> = t[a..b].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let mut s = Src::replaying(v);
    let mut c = Ctx { tracing: true, ..Default::default() };
    let o = run_one(f, &mut s, &mut c);
    for l in &c.trace {
        println!("{}", l);
    }
    match o {
        Outcome::Ok => {
            println!("replay: property held");
            0
        }
        Outcome::Fail(fl) => {
            println!("replay: FAILED [{}] {}", fl.key, fl.msg);
            1
        }
        Outcome::Panic(m) => {
            println!("replay: harness panic {}", m);
            2
        }
    }
}

pub fn run_with_known(cfg: &Config, f: &CaseFn, known: &[(String, String, String)]) -> i32 {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    struct Acc {
        labels: BTreeMap<String, u64>,
        sigs: BTreeSet<u64>,
        evals: u64,
        nontrivial_cases: u64,
        hits: u64,
        fails: Vec<(u64, Vec<u64>, Vec<usize>, Fail)>,
        panics: Vec<(u64, String)>,
        samples: Vec<(u64, Vec<u64>)>,
        timed_out: bool,
    }
    let acc = Mutex::new(Acc {
        labels: BTreeMap::new(),
        sigs: BTreeSet::new(),
        evals: 0,
        nontrivial_cases: 0,
        hits: 0,
        fails: vec![],
        panics: vec![],
        samples: vec![],
        timed_out: false,
    });
    std::thread::scope(|sc| {
        for _ in 0..cfg.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cfg.cases || i > min_fail.load(Ordering::SeqCst) {
                        break;
                    }
                    if t0.elapsed().as_secs() > cfg.max_secs {
                        acc.lock().unwrap().timed_out = true;
                        break;
                    }
                    let mut src = Src::seeded(case_seed(cfg.seed, &cfg.id, i));
                    let mut ctx = Ctx::default();
                    let o = run_one(f, &mut src, &mut ctx);
                    let mut a = acc.lock().unwrap();
                    a.evals += 1;
                    for (k, v) in &ctx.labels {
                        *a.labels.entry(k.clone()).or_insert(0) += v;
                    }
                    a.hits += ctx.nontrivial;
                    if ctx.nontrivial > 0 {
                        a.nontrivial_cases += 1;
                        let sig = ctx.sig;
                        if a.sigs.insert(sig) && a.samples.len() < 3 {
                            a.samples.push((i, src.log.clone()));
                        }
                    }
                    match o {
                        Outcome::Ok => {}
                        Outcome::Fail(fl) => {
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            a.fails.push((i, src.log.clone(), src.spans.clone(), fl));
                        }
                        Outcome::Panic(m) => {
                            // the harness met something it has no place for
                            if a.panics.len() < 20 {
                                a.panics.push((i, m.clone()));
                            }
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            a.fails.push((i, src.log.clone(), src.spans.clone(), Fail { key: "panic".into(), msg: m }));
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut a = acc.into_inner().unwrap();
    a.fails.sort_by_key(|x| x.0);
    let mut code = 0;
    if let Some((i, log, spans, fl)) = a.fails.first().cloned() {
        eprintln!("case {} failed [{}] {} -- shrinking", i, fl.key, fl.msg);
        let small = shrink(f, &fl.key, log, spans, if cfg.tier == "quick" { 60 } else { 300 });
        let (path, fl2, c) = write_replay(cfg, &small, f);
        println!("{}: [{}] {}", cfg.id, fl2.key, fl2.msg);
        for l in &c.trace {
            println!("    {}", l);
        }
        println!("VIOLATION property={} replay={}", cfg.id, path);
        code = 1;
    }
    // deterministic demonstrations of findings
    for (prop, key, msg) in known {
        let pat = format!("known: property={} key={} ", prop, key);
        let listed = std::fs::read_to_string(format!("{}/known_findings.txt", cfg.verif_dir)).unwrap_or_default().lines().any(|l| l.starts_with(&pat));
        if listed {
            println!("KNOWN-FINDING: property={} [{}] {}", prop, key, msg);
        } else {
            let dir = format!("{}/replays", cfg.verif_dir);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}.json", dir, prop, key);
            let _ = std::fs::write(&path, format!("{{ \"property\": {}, \"key\": {}, \"message\": {} }}\n", js(prop), js(key), js(msg)));
            println!("{}: [{}] {}", prop, key, msg);
            println!("VIOLATION property={} replay={}", prop, path);
            code = 1;
        }
    }
    // samples
    let mut samples = vec![];
    for (i, log) in &a.samples {
        let mut s = Src::replaying(log.clone());
        let mut c = Ctx { tracing: true, ..Default::default() };
        let _ = run_one(f, &mut s, &mut c);
        // funding and feeding the world is left out, the end of the history is shown
        let all = c.trace.len();
        let mut tr: Vec<String> = c
            .trace
            .into_iter()
            .filter(|x| !["Mint(", "Xfer(", "Price(", "Time(0, 0)"].iter().any(|p| x.starts_with(p)))
            .map(|x| if x.len() > 400 { format!("{}...", x.chars().take(400).collect::<String>()) } else { x })
            .collect();
        if tr.len() > 30 {
            let cut = tr.len() - 30;
            tr.drain(..cut);
        }
        tr.insert(0, format!("({} steps in all, the last {} without set-up)", all, tr.len()));
        samples.push(format!(
            "{{\"case\": {}, \"history\": [{}]}}",
            i,
            tr.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
        ));
    }
    let labels = a.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial_cases\": {},\n  \"property_instances_exercised\": {},\n  \"planned_cases\": {},\n  \"stopped_early_by_time\": {},\n  \"rule\": {},\n  \"distribution\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(&cfg.id),
        js(&cfg.tier),
        cfg.seed,
        a.evals,
        a.sigs.len(),
        a.nontrivial_cases,
        a.hits,
        cfg.cases,
        a.timed_out,
        js(&cfg.rule),
        labels,
        samples.join(", "),
        cfg.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        if code == 1 { 1 } else { 0 }
    );
    let dir = format!("{}/evidence", cfg.verif_dir);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, cfg.id), ev).expect("evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {} instances, {:.1}s{}",
        cfg.id,
        a.evals,
        a.sigs.len(),
        a.hits,
        t0.elapsed().as_secs_f64(),
        if a.timed_out { " (time cap)" } else { "" }
    );
    if std::env::var("PBT_LABELS").is_ok() {
        for (k, v) in &a.labels {
            println!("   {:40} {}", k, v);
        }
    }
    if code == 0 && a.sigs.is_empty() {
        eprintln!("no non-trivial case was generated");
        code = 3;
    }
    code
}
