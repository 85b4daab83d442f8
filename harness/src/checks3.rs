use crate::world::Ret;
use soroban_sdk::testutils::{Address as _, EnvTestConfig};
use soroban_sdk::{Address, BytesN, Env, IntoVal, String as SStr, Symbol, Val, Vec as SVec};

// ------------------------------------------------------------------ C24
fn wasm() -> &'static [u8] {
    static W: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let p = std::env::var("PBT_POOL_WASM")
            .unwrap_or_else(|_| format!("{}/../.build/wasm/wasm32-unknown-unknown/release/pool.wasm", env!("CARGO_MANIFEST_DIR")));
        std::fs::read(&p).unwrap_or_else(|e| panic!("{p}: {e}"))
    })
}
struct Fac {
    e: Env,
    fac: Address,
    other: Address,
    hash: BytesN<32>,
    admins: Vec<Address>,
    oracles: Vec<Address>,
    backstop: Address,
    blnd: Address,
}
fn fac_world() -> Fac {
    let e = Env::new_with_config(EnvTestConfig { capture_snapshot_at_drop: false });
    let _ = e.host().set_diagnostic_level(soroban_env_host::DiagnosticLevel::None);
    e.mock_all_auths();
    e.budget().reset_unlimited();
    let admins: Vec<Address> = (0..3).map(|_| Address::generate(&e)).collect();
    let oracles: Vec<Address> = (0..2).map(|_| Address::generate(&e)).collect();
    let backstop = Address::generate(&e);
    let blnd = Address::generate(&e);
    let fac = e.register_contract(None, pool_factory::PoolFactoryContract);
    let other = e.register_contract(None, pool_factory::PoolFactoryContract);
    let hash = e.deployer().upload_contract_wasm(wasm());
    for (i, f) in [&fac, &other].iter().enumerate() {
        let (b, t) = if i == 0 { (&backstop, &blnd) } else { (&blnd, &backstop) };
        pool_factory::PoolFactoryClient::new(&e, f).initialize(&pool_factory::PoolInitMeta {
            pool_hash: hash.clone(),
            backstop: b.clone(),
            blnd_id: t.clone(),
        });
    }
    Fac { e, fac, other, hash, admins, oracles, backstop, blnd }
}
#[derive(Clone, Debug)]
struct Dp {
    fac: usize,
    admin: usize,
    salt: u8,
    oracle: usize,
    take: u32,
    max: u32,
    name: String,
}
impl Fac {
    fn deploy(&self, d: &Dp) -> Result<Address, String> {
        let f = if d.fac == 0 { &self.fac } else { &self.other };
        let c = pool_factory::PoolFactoryClient::new(&self.e, f);
        match c.try_deploy(
            &self.admins[d.admin],
            &SStr::from_str(&self.e, &d.name),
            &BytesN::from_array(&self.e, &[d.salt; 32]),
            &self.oracles[d.oracle],
            &d.take,
            &d.max,
        ) {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(_)) => Err("conversion".into()),
            Err(x) => Err(format!("{:?}", x)),
        }
    }
    fn is_pool(&self, a: &Address) -> bool {
        pool_factory::PoolFactoryClient::new(&self.e, &self.fac).is_pool(a)
    }
}
fn c24(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let w = fac_world();
    let e = &w.e;
    let strangers: Vec<Address> = w
        .admins
        .iter()
        .chain(w.oracles.iter())
        .chain([w.fac.clone(), w.other.clone(), w.backstop.clone(), w.blnd.clone()].iter())
        .cloned()
        .chain((0..2).map(|_| Address::generate(e)))
        .chain([e.register_contract(None, pool::PoolContract {})])
        .collect();
    let mut mine: BTreeMap<(usize, usize, u8), (Address, Dp)> = BTreeMap::new();
    let n = s.range(2, 6);
    let mut order = vec![];
    for _ in 0..n {
        s.span();
        let d = Dp {
            fac: s.chance(1, 5) as usize,
            admin: s.below(3) as usize,
            salt: s.below(3) as u8,
            oracle: s.below(2) as usize,
            take: *s.pick(&[0u32, 1_000_000, 9_999_999, 10_000_000, 10_000_001, u32::MAX, 5]),
            max: *s.pick(&[4u32, 2, 3, 1, 0, 60, u32::MAX, 6, 61, 257, 1 << 20]),
            name: ["pool", "", "Teapot", "a longer name of a lending pool"][s.below(4) as usize].to_string(),
        };
        c.mix(hash(&format!("{:?}", d)));
        if s.chance(1, 3) {
            e.set_auths(&[]);
            let r = w.deploy(&d);
            e.mock_all_auths();
            if r.is_ok() {
                return fail("unsigned", format!("{:?} was deployed without the admin's authorization", d));
            }
            c.label("withheld signature");
        }
        let key = (d.fac, d.admin, d.salt);
        let want = d.take < 10_000_000 && d.max >= 2 && !mine.contains_key(&key);
        let got = w.deploy(&d);
        c.note(|| format!("{:?} -> {:?}", d, got.as_ref().map(|_| "deployed")));
        if got.is_ok() != want {
            return fail("deploy", format!("{:?} gave {:?} (expected {})", d, got, if want { "a pool" } else { "a refusal" }));
        }
        match got {
            Ok(a) => {
                let signers: Vec<Address> = e.auths().into_iter().map(|x| x.0).collect();
                if signers != vec![w.admins[d.admin].clone()] {
                    return fail("signer", format!("{:?} was signed by {} accounts", d, signers.len()));
                }
                if mine.values().any(|x| x.0 == a) || strangers.contains(&a) {
                    return fail("address", format!("{:?} was deployed to an address in use", d));
                }
                mine.insert(key, (a, d.clone()));
                order.push(d);
                c.hit("deployed");
            }
            Err(_) => c.hit(if d.take >= 10_000_000 {
                "refused: take rate"
            } else if d.max < 2 {
                "refused: position limit"
            } else {
                "refused: address taken"
            }),
        }
        for ((f, ..), (a, d)) in mine.iter() {
            if w.is_pool(a) != (*f == 0) {
                return fail("is-pool", format!("{:?} of factory {f} is reported as {}", d, w.is_pool(a)));
            }
        }
        for (i, a) in strangers.iter().enumerate() {
            if w.is_pool(a) {
                return fail("stranger", format!("address {i} that the factory did not deploy is reported as a pool"));
            }
        }
    }
    for ((f, ..), (a, d)) in mine.iter() {
        let (b, t) = if *f == 0 { (&w.backstop, &w.blnd) } else { (&w.blnd, &w.backstop) };
        let (admin, name, bk, bl, cfg) = e.as_contract(a, || {
            let i = e.storage().instance();
            (
                i.get::<_, Address>(&Symbol::new(e, "Admin")),
                i.get::<_, SStr>(&Symbol::new(e, "Name")),
                i.get::<_, Address>(&Symbol::new(e, "Backstop")),
                i.get::<_, Address>(&Symbol::new(e, "BLNDTkn")),
                i.get::<_, pool::PoolConfig>(&Symbol::new(e, "Config")),
            )
        });
        let ok = admin.as_ref() == Some(&w.admins[d.admin])
            && name == Some(SStr::from_str(e, &d.name))
            && bk.as_ref() == Some(b)
            && bl.as_ref() == Some(t)
            && cfg
                .as_ref()
                .map(|x| x.oracle == w.oracles[d.oracle] && x.bstop_rate == d.take && x.max_positions == d.max && x.status == 6)
                .unwrap_or(false);
        if !ok {
            return fail("settings", format!("{:?} was initialized differently: {:?}", d, cfg.map(|x| (x.bstop_rate, x.max_positions, x.status))));
        }
        // and it is final
        let again = pool::PoolClient::new(e, a).try_initialize(
            &w.admins[(d.admin + 1) % 3],
            &SStr::from_str(e, "again"),
            &w.oracles[0],
            &1,
            &3,
            b,
            t,
        );
        if again.is_ok() {
            return fail("again", format!("{:?} could be initialized again", d));
        }
    }
    // the address depends on admin and salt only: other parameters, in another order, elsewhere
    if mine.len() > 1 && s.chance(1, 2) {
        let w2 = fac_world();
        let mut left = order.clone();
        while !left.is_empty() {
            let mut d = left.remove(s.below(left.len() as u64) as usize);
            d.take = s.below(10_000_000) as u32;
            d.oracle = s.below(2) as usize;
            d.name = "twin".into();
            let a = match w2.deploy(&d) {
                Ok(a) => a,
                Err(x) => return fail("twin", format!("{:?} was refused in another order: {x}", d)),
            };
            let b = &mine[&(d.fac, d.admin, d.salt)].0;
            if a.to_string().to_bytes_vec() != b.to_string().to_bytes_vec() {
                return fail("address-of", format!("{:?} got another address in another order", d));
            }
        }
        c.hit("addresses compared with another order");
    }
    let _ = &w.hash;
    Ok(())
}
trait BV {
    fn to_bytes_vec(&self) -> Vec<u8>;
}
impl BV for SStr {
    fn to_bytes_vec(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.len() as usize];
        self.copy_into_slice(&mut v);
        v
    }
}

// ------------------------------------------------------------------ C26
/// try to initialize everything again
fn reinit(s: &mut Src, h: &mut H, fac: &Address) -> Result<(), Fail> {
    let w = &h.w;
    let e = &w.e;
    let any = |s: &mut Src| w.actors[s.below(w.actors.len() as u64) as usize].clone();
    let same = s.chance(1, 2);
    let r = &w.r;
    let which = s.below(4);
    let ok = match which {
        0 => {
            let p = &w.actors[*s.pick(&r.pools)];
            let (a, o, b, t) = if same {
                (w.actors[r.admin].clone(), w.oracle.clone(), w.actors[r.backstop].clone(), w.assets[r.blnd].clone())
            } else {
                (any(s), any(s), any(s), any(s))
            };
            let rate = s.below(12_000_000) as u32;
            let mp = s.below(8) as u32;
            pool::PoolClient::new(e, p).try_initialize(&a, &SStr::from_str(e, "again"), &o, &rate, &mp, &b, &t).is_ok()
        }
        1 => {
            let (x, y, z) = if same {
                (w.assets[r.blnd].clone(), w.actors[r.backstop].clone(), w.assets[r.lp].clone())
            } else {
                (any(s), any(s), any(s))
            };
            emitter::EmitterClient::new(e, &w.actors[r.emitter]).try_initialize(&x, &y, &z).is_ok()
        }
        2 => {
            let args: SVec<Val> = if same {
                back_args(w, &w.actors[r.emitter])
            } else {
                soroban_sdk::vec![
                    e,
                    any(s).into_val(e),
                    any(s).into_val(e),
                    any(s).into_val(e),
                    any(s).into_val(e),
                    any(s).into_val(e),
                    SVec::<(Address, i128)>::new(e).into_val(e)
                ]
            };
            e.try_invoke_contract::<Val, soroban_sdk::Error>(&w.actors[r.backstop], &Symbol::new(e, "initialize"), args).is_ok()
        }
        _ => pool_factory::PoolFactoryClient::new(e, fac)
            .try_initialize(&pool_factory::PoolInitMeta { pool_hash: BytesN::from_array(e, &[s.below(3) as u8; 32]), backstop: any(s), blnd_id: any(s) })
            .is_ok(),
    };
    let name = ["pool", "emitter", "backstop", "factory"][which as usize];
    if ok {
        return fail("again", format!("the {name} accepted another initialization"));
    }
    h.ctx.hit(&format!("{name} refused another initialization"));
    Ok(())
}
fn back_args(w: &World, emitter: &Address) -> SVec<Val> {
    let e = &w.e;
    let r = &w.r;
    soroban_sdk::vec![
        e,
        w.assets[r.lp].into_val(e),
        emitter.into_val(e),
        w.assets[r.usdc].into_val(e),
        w.assets[r.blnd].into_val(e),
        w.actors[r.factory].into_val(e),
        SVec::<(Address, i128)>::new(e).into_val(e)
    ]
}
fn settings(h: &H) -> Vec<Vec<u8>> {
    use soroban_sdk::xdr::ToXdr;
    let w = &h.w;
    let e = &w.e;
    let mut out = vec![];
    let mut grab = |a: &Address, keys: &[&str]| {
        e.as_contract(a, || {
            for k in keys {
                let v: Option<Val> = e.storage().instance().get(&Symbol::new(e, k));
                let b = match v {
                    Some(v) => v.to_xdr(e).iter().collect(),
                    None => vec![],
                };
                out.push(b);
            }
        })
    };
    for p in w.r.pools.iter() {
        grab(&w.actors[*p], &["Admin", "Name", "Backstop", "BLNDTkn", "Config"]);
    }
    grab(&w.actors[w.r.backstop], &["Emitter", "BToken", "PoolFact", "BLNDTkn", "USDCTkn"]);
    grab(&w.actors[w.r.emitter], &["BLNDTkn", "Backstop", "BToken"]);
    out
}
fn c26(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let p = profile("C26");
    let cfg = Gen::wcfg(s, &p);
    let mut h = H::new(&cfg, "C26", c);
    let fac = h.w.e.register_contract(None, pool_factory::PoolFactoryContract);
    pool_factory::PoolFactoryClient::new(&h.w.e, &fac).initialize(&pool_factory::PoolInitMeta {
        pool_hash: BytesN::from_array(&h.w.e, &[1; 32]),
        backstop: h.w.actors[h.w.r.backstop].clone(),
        blnd_id: h.w.assets[h.w.r.blnd].clone(),
    });
    let mut g = Gen::new(s, &p, &cfg, h.w.r.blnd);
    fresh(s, &mut h)?;
    reinit(s, &mut h, &fac)?;
    g.setup(s, &mut h, &mut None26)?;
    let n = s.range(p.steps.0, p.steps.1);
    for _ in 0..n {
        if s.chance(1, 3) {
            s.span();
            let before = settings(&h);
            reinit(s, &mut h, &fac)?;
            if settings(&h) != before || h.w.snap() != h.s {
                return fail("changed", "a refused initialization changed something".into());
            }
        } else if s.chance(1, 8) {
            s.span();
            fresh(s, &mut h)?;
        } else {
            let op = g.next(s, &h);
            let st = run_step(&mut h, &mut None26, op)?;
            if let Op::UpdPool(_, x, m) = &st.op {
                h.ctx.hit(&format!(
                    "update with take rate {} {}",
                    if *x >= 10_000_000 { "of 100% or more" } else { "below 100%" },
                    if st.ok() { "accepted" } else { "refused" }
                ));
                let _ = m;
                if st.ok() && *x >= 10_000_000 {
                    return fail("take-rate", format!("take rate {x} was accepted"));
                }
            }
        }
    }
    Ok(())
}
struct None26;
impl Ghost for None26 {
    fn step(&mut self, _: &mut H, _: &Step) -> Result<(), Fail> {
        Ok(())
    }
}
/// new contracts: bad settings are refused, good ones accepted, once
fn fresh(s: &mut Src, h: &mut H) -> Result<(), Fail> {
    let w = &h.w;
    let e = &w.e;
    let r = &w.r;
    match s.below(4) {
        0 | 1 => {
            let a = e.register_contract(None, pool::PoolContract {});
            let mut done = false;
            for _ in 0..s.range(1, 4) {
                let rate = *s.pick(&[0u32, 10_000_000, 9_999_999, 10_000_001, u32::MAX, 1_000_000]);
                let mp = *s.pick(&[2u32, 1, 0, 4, u32::MAX]);
                let got = pool::PoolClient::new(e, &a)
                    .try_initialize(
                        &w.actors[r.admin],
                        &SStr::from_str(e, "p"),
                        &w.oracle,
                        &rate,
                        &mp,
                        &w.actors[r.backstop],
                        &w.assets[r.blnd],
                    )
                    .is_ok();
                let want = !done && rate < 10_000_000 && mp >= 2;
                if got != want {
                    return fail("pool-init", format!("initializing a pool with take rate {rate} and limit {mp} gave {got}, done before: {done}"));
                }
                done |= got;
                h.ctx.hit(if got { "new pool initialized" } else { "pool initialization refused" });
            }
        }
        2 => {
            let a = e.register_contract(None, emitter::EmitterContract);
            for i in 0..2 {
                let got = emitter::EmitterClient::new(e, &a)
                    .try_initialize(&w.assets[r.blnd], &w.actors[r.backstop], &w.assets[r.lp])
                    .is_ok();
                if got != (i == 0) {
                    return fail("emitter-init", format!("initialization {i} of an emitter gave {got}"));
                }
                h.ctx.hit("new emitter");
            }
        }
        _ => {
            // an emitter that pays the new backstop
            let a = e.register_contract(None, backstop::BackstopContract);
            let em = e.register_contract(None, emitter::EmitterContract);
            emitter::EmitterClient::new(e, &em).initialize(&w.assets[r.blnd], &a, &w.assets[r.lp]);
            for i in 0..2 {
                let got = e.try_invoke_contract::<Val, soroban_sdk::Error>(&a, &Symbol::new(e, "initialize"), back_args(w, &em)).is_ok();
                if got != (i == 0) {
                    return fail("backstop-init", format!("initialization {i} of a backstop gave {got}"));
                }
                h.ctx.hit("new backstop");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C27
const LD: u64 = 17_280; // ledgers a day
struct G27 {
    auc: BTreeMap<(usize, A, u32), u32>,
    que: BTreeMap<(usize, T), u32>,
}
impl G27 {
    fn check(&self, h: &H) -> Result<(), Fail> {
        let seq = h.s.seq as u64;
        for ((pi, a, k), at) in self.auc.iter() {
            if seq <= *at as u64 + 45 * LD && !h.s.pools[*pi].auc.contains_key(&(*a, *k)) {
                return fail("auction-gone", format!("an auction of type {k} created at ledger {at} is gone at ledger {seq}"));
            }
        }
        for ((pi, t), at) in self.que.iter() {
            if seq <= *at as u64 + 100 * LD && !h.s.pools[*pi].queued.contains_key(t) {
                return fail("queued-gone", format!("a reserve change queued at ledger {at} is gone at ledger {seq}"));
            }
        }
        Ok(())
    }
}
impl Ghost for G27 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            return Ok(());
        }
        // what has outlived its guarantee is no longer followed
        let seq = st.post.seq as u64;
        self.auc.retain(|_, at| seq <= *at as u64 + 45 * LD);
        self.que.retain(|_, at| seq <= *at as u64 + 100 * LD);
        let bs = h.w.r.backstop;
        match &st.op {
            Op::NewLiq(p, u, _) => {
                self.auc.insert((*p, *u, 0), st.pre.seq);
            }
            Op::NewBda(p) => {
                self.auc.insert((*p, bs, 1), st.pre.seq);
            }
            Op::NewInt(p, _) => {
                self.auc.insert((*p, bs, 2), st.pre.seq);
            }
            Op::QueueRes(p, t, _) => {
                self.que.insert((*p, *t), st.pre.seq);
            }
            Op::CancelRes(p, t) | Op::SetRes(p, t) => {
                self.que.remove(&(*p, *t));
            }
            Op::Submit { p, from, reqs, .. } => {
                for q in reqs {
                    let k = match (q.t, q.addr) {
                        (6..=8, RA::A(a)) => Some((*p, a, q.t - 6)),
                        (9, _) => Some((*p, *from, 0)),
                        _ => None,
                    };
                    if let Some(k) = k {
                        // closed as the rules have it
                        let open = st.pred.as_ref().map(|w| w.pools[*p].auc.contains_key(&(k.1, k.2))).unwrap_or(false);
                        if !open {
                            self.auc.remove(&k);
                        } else {
                            h.ctx.hit("partly filled");
                        }
                    }
                }
            }
            _ => {}
        }
        self.check(h)
    }
}
fn c27(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let p = profile("C27");
    let mut cfg = Gen::wcfg(s, &p);
    cfg.drop = vec![(0, 1_000 * S7), (1, 5)];
    let mut h = H::new(&cfg, "C27", c);
    let seq0 = h.s.seq as u64;
    let mut g = Gen::new(s, &p, &cfg, h.w.r.blnd);
    let mut gh = G27 { auc: BTreeMap::new(), que: BTreeMap::new() };
    g.setup(s, &mut h, &mut gh)?;
    let n = s.range(p.steps.0, p.steps.1);
    let mut dropped = false;
    for i in 0..n {
        if s.chance(1, 6) || i + 1 == n {
            s.span();
            // a long silence, up to the end of something that must last
            let seq = h.s.seq as u64;
            let mut ends: Vec<u64> = gh.auc.values().map(|x| *x as u64 + 45 * LD).collect();
            ends.extend(gh.que.values().map(|x| *x as u64 + 100 * LD));
            if !dropped {
                ends.push(seq0 + 100 * LD);
            }
            ends.retain(|x| *x >= seq);
            if ends.is_empty() {
                continue;
            }
            let end = if s.chance(2, 3) { *ends.iter().min().unwrap() } else { *s.pick(&ends) };
            let to = match s.below(4) {
                0 => end,
                1 => end.saturating_sub(s.below(100)),
                _ => seq + s.below(end - seq + 1),
            };
            let db = to.max(seq) - seq;
            let st = h.step(Op::Time(db * 5, db as u32))?;
            if h.w.expire() > 0 {
                h.ctx.label("temporary entries expired");
            }
            h.s = h.w.snap();
            gh.step(&mut h, &st)?;
            if db > 16 && (!gh.auc.is_empty() || !gh.que.is_empty()) {
                h.ctx.hit(if db > 40 * LD { "more than 40 days of silence survived" } else { "silence survived" });
            }
            // still usable, not just visible
            let ready: Vec<(usize, T)> = gh
                .que
                .keys()
                .copied()
                .filter(|(pi, t)| {
                    let q = h.s.pools[*pi].queued.get(t);
                    q.map(|x| x.1 <= h.s.ts).unwrap_or(false)
                })
                .collect();
            for (pi, t) in ready {
                if s.chance(1, 2) {
                    let st = h.step(Op::SetRes(pi, t))?;
                    if !st.ok() && st.pred.is_ok() {
                        return fail("queued-unusable", format!("a queued change could not be applied: {:?}", st.res));
                    }
                    gh.step(&mut h, &st)?;
                    h.ctx.hit("queued change applied after a silence");
                }
            }
            if !dropped && h.s.seq as u64 <= seq0 + 100 * LD && s.chance(1, 4) {
                let st = h.step(Op::BDrop)?;
                if !st.ok() {
                    return fail("drop-gone", format!("the drop was refused {} ledgers after initialization: {:?}", h.s.seq as u64 - seq0, st.res));
                }
                dropped = true;
                h.ctx.hit("drop after a silence");
            }
            // live prices, so that auctions can be used
            for t in h.w.r.assets.clone() {
                if let Some((p, _)) = h.s.price.get(&t).copied() {
                    let ts = h.s.ts;
                    h.step(Op::Price(t, p, ts))?;
                }
            }
        } else {
            let op = g.next(s, &h);
            let st = run_step(&mut h, &mut gh, op)?;
            if matches!(st.op, Op::Time(..)) {
                h.w.expire();
                h.s = h.w.snap();
                gh.check(&h)?;
            }
        }
    }
    if !dropped {
        s.span();
        let end = seq0 + 100 * LD;
        if h.s.seq as u64 <= end {
            let db = end - h.s.seq as u64 - s.below(3).min(end - h.s.seq as u64);
            h.step(Op::Time(db * 5, db as u32))?;
            h.w.expire();
            h.s = h.w.snap();
            let st = h.step(Op::BDrop)?;
            if !st.ok() {
                return fail("drop-gone", format!("the drop was refused {} ledgers after initialization: {:?}", h.s.seq as u64 - seq0, st.res));
            }
            h.ctx.hit("drop at the end of its life");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ the table of checks
pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub assume: &'static [&'static str],
}
const EXT: &str = "external contracts are stand-ins: SEP-41 tokens without fees or hooks, a SEP-40 oracle set by the harness, a BLND-USDC LP whose single-sided join pays at a set rate";
const HOST: &str = "Soroban 20 host semantics: a refused call is rolled back by the host";
const POOLREG: &str = "the pool registry behind the backstop is the repository's mock pool factory (the real factory is exercised in C24)";
const RANGE: &str = "tokens of 2 to 18 decimals, amounts up to about 1e6 tokens per request, prices within a factor of 1e6; arithmetic that leaves the i128 range is not compared";

pub fn spec(id: &str) -> Option<Spec> {
    let sp = |rule: &'static str, quick: u64, thorough: u64| {
        Some(Spec { id: leak(id), rule, quick, thorough, assume: &[EXT, HOST, POOLREG, RANGE] })
    };
    match id {
        "C01" => sp("a case counts if, after some accepted operation, a reserve with both suppliers and debt was inspected, or a full exit withdrawal was made at the end", 3600, 108000),
        "C02" => sp("a case counts if an accepted operation changed positions while at least two position entries existed", 4200, 126000),
        "C03" => sp("a case counts if a reserve with debt and supply accrued over a positive time (per segment of the curve)", 5200, 156000),
        "C04" => sp("a case counts if a submit made only of supply, withdraw, borrow and repay requests was accepted and its account's net worth compared", 3800, 114000),
        "C05" => sp("a case counts if a submit was accepted and its token and position movements compared; batches are also re-run request by request in a second world", 4000, 120000),
        "C06" => sp("a case counts if a risk-increasing submit left an account with debt and was accepted, or was refused for health", 4000, 120000),
        "C07" => sp("a case counts if a borrow was accepted or refused for utilization, or the position limit was met or refused", 4000, 120000),
        "C08" => sp("a case counts if a submit was accepted (per status and request type) or refused for status, type or sign", 4800, 144000),
        "C09" => sp("a case counts if the pool status was updated or set (per current status, band of queued share, threshold met or not)", 4200, 126000),
        "C10" => sp("a case counts if a reserve change was queued, applied or refused", 4200, 126000),
        "C11" => sp("a case counts if a liquidation auction was created, or refused for a stated reason", 5500, 165000),
        "C12" => sp("a case counts if an auction was filled (per type, phase of the schedule, full or partial) or refused", 5000, 150000),
        "C13" => sp("a case counts if bad debt was moved, auctioned, filled, written off, or one of these refused", 5000, 150000),
        "C14" => sp("a case counts if an interest auction was created, filled or refused", 5000, 150000),
        "C15" => sp("a case counts if a pool emission stream was started or refilled, a claim compared with the integral of the claimer's shares, or a configuration refused", 3300, 100000),
        "C16" => sp("a case counts if an accepted operation changed some pool's backstop balance and the ledger was reconciled", 2200, 66000),
        "C17" => sp("a case counts if a deposit, withdrawal, draw, donation or in-and-out round trip was priced", 3000, 90000),
        "C18" => sp("a case counts if shares were queued, dequeued, withdrawn, or one of these refused", 4200, 126000),
        "C19" => sp("a case counts if a batch was split, a pool's part collected, or a claim compared with the integral of the claimer's unqueued shares", 2100, 63000),
        "C20" => sp("a case counts if a claim of a positive amount was followed into deposits (single, several or repeated pools; own or other recipient)", 2600, 78000),
        "C21" => sp("a case counts if a pool entered the reward zone, replaced a member, or was refused", 550, 16500),
        "C22" => sp("a case counts if BLND was distributed, or a swap queued, cancelled, executed or refused", 7500, 225000),
        "C23" => sp("a case counts if a drop was paid or refused", 11000, 330000),
        "C24" => sp("a case counts if the real factory deployed a pool (wasm built from the tree) or refused to", 8000, 240000),
        "C25" => sp("a case counts if an accepted call's signers were compared with who lost something, after the same call had been refused unsigned; permissionless calls run unsigned", 2600, 78000),
        "C26" => sp("a case counts if another initialization was attempted, a new contract initialized, or the pool's rate updated", 6000, 180000),
        "C27" => sp("a case counts if auctions, queued changes or the drop list were inspected after a jump of ledgers, with temporary entries living 16 ledgers by default", 6000, 180000),
        "C28" => sp("a case counts if a call on one pool was accepted beside other pools, or a draw, donation or deposit accepted or refused", 2200, 66000),
        "C29" => sp("a case counts if a call that depends on prices was accepted (per age of the oldest price involved) or refused for a price", 5500, 165000),
        "C31" => sp("a case counts if the getters of a pool, the backstop or the emitter were compared with the stored state, or a call's return value with what the call did", 1500, 45000),
        "C32" => sp("a case counts if an accepted call's events (per contract and name) were folded into the event-only ledger and it was compared with the state", 2000, 60000),
        "C30" => sp("a case counts if an exit was made (per status and usability of prices) or a backstop action taken (per queue and stream state)", 4000, 120000),
        _ => None,
    }
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

pub fn profile(id: &str) -> Profile {
    let lend = lend_w();
    let auc = auction_w();
    let back = back_w();
    let d = Profile::default();
    match id {
        "C01" | "C02" => Profile { w: cat(&[lend, auc, vec![(K::Queue, 1), (K::SetRes, 1), (K::UpdPool, 2), (K::SetStatus, 1)]]), steps: (25, 55), ruin: 2, alts: vec![(bad_w(), 2)], ..d },
        "C03" => Profile { w: cat(&[lend, vec![(K::Time, 22), (K::Queue, 2), (K::SetRes, 2), (K::UpdPool, 2), (K::Crash, 1), (K::NewInt, 2), (K::FillInt, 2), (K::AucTime, 2)]]), steps: (25, 55), pace: 2, ..d },
        "C04" => Profile { w: cat(&[lend, vec![(K::Dust, 10), (K::Time, 6)]]), steps: (25, 60), ..d },
        "C05" => Profile { w: cat(&[lend, auc, vec![(K::Batch, 30), (K::Weird, 2)]]), steps: (20, 40), ruin: 1, ..d },
        "C06" => Profile { w: cat(&[lend, vec![(K::Crash, 5), (K::NewLiq, 5), (K::AucTime, 4), (K::FillLiq, 5), (K::DelLiq, 6), (K::Lever, 16), (K::WithdrawC, 12), (K::Borrow, 14), (K::BadDebt, 2), (K::NewBda, 2), (K::FillBda, 3), (K::Mix, 6)]]), steps: (25, 55), wide: 8, ruin: 1, alts: vec![(bad_w(), 2)], ..d },
        "C07" => Profile { w: cat(&[lend, vec![(K::Borrow, 22), (K::Batch, 14), (K::UpdPool, 4), (K::Crash, 3), (K::NewLiq, 3), (K::AucTime, 3), (K::FillLiq, 3), (K::Queue, 1), (K::SetRes, 1), (K::Mix, 12), (K::DelLiq, 2), (K::Lever, 4)]]), steps: (25, 55), assets: 4, ..d },
        "C08" => Profile { w: cat(&[lend, auc, vec![(K::SetStatus, 8), (K::UpdStatus, 4), (K::QueTo, 6), (K::Weird, 10), (K::DepTo, 3), (K::Force, 7)]]), steps: (25, 50), odd: 12, ..d },
        "C09" => Profile { w: cat(&[vec![(K::UpdStatus, 20), (K::SetStatus, 12), (K::QueTo, 16), (K::DepTo, 14), (K::Dep, 5), (K::Que, 4), (K::Deq, 6), (K::Wd, 4), (K::Draw, 3), (K::Donate, 3), (K::UpdTkn, 5), (K::LpRate, 1), (K::Time, 6), (K::Supply, 1), (K::Mint, 2), (K::Xfer, 2), (K::Force, 3)]]), steps: (25, 50), lend: 2, pools: (1, 2), ..d },
        "C10" => Profile { w: cat(&[lend, vec![(K::Queue, 30), (K::Cancel, 4), (K::SetRes, 24), (K::Time, 16), (K::SetStatus, 3), (K::UpdPool, 1)]]), steps: (25, 50), assets: 5, odd: 10, pace: 1, crowd: 2, ..d },
        "C11" => Profile { w: cat(&[lend, vec![(K::Crash, 14), (K::NewLiq, 30), (K::Lever, 16), (K::AucTime, 3), (K::FillLiq, 4), (K::DelLiq, 3)]]), steps: (25, 50), ..d },
        "C12" => Profile { w: cat(&[lend, auc, vec![(K::AucTime, 14), (K::FillLiq, 16), (K::FillBda, 8), (K::FillInt, 8), (K::Force, 1)]]), steps: (30, 60), focus: 5, odd: 8, ruin: 1, ..d },
        "C13" => Profile { w: cat(&[lend, auc, vec![(K::Crash, 12), (K::BadDebt, 10), (K::NewBda, 10), (K::FillBda, 14), (K::AucTime, 8), (K::FillLiq, 10), (K::NewInt, 1), (K::FillInt, 1), (K::Draw, 1), (K::Que, 1), (K::DepTo, 2), (K::Force, 1)]]), steps: (30, 55), focus: 6, ruin: 4, assets: 4, wide: 6, ..d },
        "C14" => Profile { w: cat(&[lend, vec![(K::NewInt, 14), (K::FillInt, 14), (K::AucTime, 8), (K::Time, 16), (K::Crash, 2), (K::NewLiq, 2), (K::FillLiq, 2), (K::LpRate, 1), (K::UpdTkn, 2), (K::UpdPool, 4), (K::SetStatus, 1), (K::Force, 2)]]), steps: (30, 60), focus: 5, pace: 2, ..d },
        "C15" => Profile { w: cat(&[lend, vec![(K::PGulp, 8), (K::SetEmis, 8), (K::PClaim, 20), (K::Dist, 4), (K::BGulp, 6), (K::Crash, 2), (K::NewLiq, 3), (K::FillLiq, 3), (K::AucTime, 2), (K::BadDebt, 1), (K::Dep, 1), (K::Que, 1)]]), pools: (1, 2), steps: (30, 55), emis: 8, odd: 8, ..d },
        "C16" => Profile { w: cat(&[back, auc, vec![(K::Supply, 2), (K::SupplyC, 3), (K::Borrow, 4), (K::Lever, 4), (K::Xfer, 3), (K::Mint, 2), (K::Draw, 4)]]), pools: (1, 2), fakes: 1, steps: (30, 60), emis: 6, ruin: 1, long: 2, ..d },
        "C17" => Profile { w: cat(&[back, vec![(K::Draw, 6), (K::Donate, 6), (K::Dep, 16), (K::Wd, 14)]]), pools: (1, 2), fakes: 1, steps: (30, 60), lend: 1, emis: 4, pace: 2, long: 3, ..d },
        "C18" => Profile { w: cat(&[back, vec![(K::Que, 22), (K::Deq, 14), (K::Wd, 18), (K::Time, 18)]]), pools: (1, 2), steps: (35, 70), lend: 0, emis: 2, pace: 2, long: 4, ..d },
        "C19" => Profile { w: cat(&[back, vec![(K::Dist, 8), (K::BGulp, 8), (K::BClaim, 16), (K::BGulpPool, 4), (K::PGulp, 4), (K::QueTo, 3), (K::QSwap, 1), (K::Mint, 1)]]), pools: (1, 2), fakes: 2, steps: (30, 60), lend: 2, emis: 8, long: 2, ..d },
        "C20" => Profile { w: cat(&[back, vec![(K::Dist, 6), (K::BGulp, 6), (K::BClaim, 26), (K::LpRate, 2)]]), pools: (1, 2), fakes: 2, steps: (30, 55), lend: 0, emis: 8, long: 2, ..d },
        "C21" => Profile { w: cat(&[back, vec![(K::AddReward, 30), (K::DepTo, 12), (K::Dep, 14), (K::UpdTkn, 3), (K::BClaim, 1)]]), pools: (1, 1), fakes: 13, steps: (35, 60), lend: 0, emis: 6, late_ts: true, ..d },
        "C22" => Profile { w: cat(&[vec![(K::Time, 14), (K::Dist, 14), (K::QSwap, 12), (K::CSwap, 6), (K::Swap, 10), (K::Mint, 10), (K::Xfer, 10), (K::Dep, 4), (K::BGulp, 2), (K::BDrop, 4), (K::AddReward, 1), (K::Que, 1), (K::Wd, 1)]]), backs: 3, steps: (30, 60), lend: 0, emis: 2, pace: 2, focus: 2, ..d },
        "C23" => Profile { w: cat(&[vec![(K::Time, 6), (K::Dist, 4), (K::QSwap, 8), (K::Swap, 8), (K::Mint, 10), (K::Xfer, 4), (K::BDrop, 12), (K::EDrop, 16), (K::CSwap, 1)]]), backs: 3, steps: (25, 45), lend: 0, emis: 0, pace: 2, focus: 2, tweak: Some(droplist), ..d },
        "C25" => Profile { w: cat(&[lend, auc, back, vec![(K::SetAdmin, 4), (K::SetStatus, 3), (K::UpdStatus, 3), (K::UpdPool, 3), (K::Queue, 4), (K::Cancel, 2), (K::SetRes, 3), (K::PGulp, 4), (K::SetEmis, 4), (K::PClaim, 5), (K::Draw, 4), (K::Donate, 4), (K::BDrop, 1), (K::EDrop, 1), (K::QSwap, 2), (K::CSwap, 1), (K::Swap, 1), (K::Mint, 1)]]), pools: (1, 2), fakes: 1, backs: 1, steps: (30, 55), emis: 5, alts: vec![(queue_w(), 2), (swap_w(), 2), (status_w(), 2)], ..d },
        "C26" => Profile { w: cat(&[lend, back, vec![(K::UpdPool, 14), (K::SetAdmin, 2), (K::SetStatus, 2), (K::UpdStatus, 2), (K::Dist, 2), (K::QSwap, 2), (K::Swap, 1), (K::Mint, 1)]]), backs: 1, steps: (15, 30), pace: 2, odd: 10, ..d },
        "C27" => Profile { w: cat(&[lend, auc, vec![(K::Queue, 8), (K::SetRes, 3), (K::Cancel, 1), (K::Crash, 10), (K::NewLiq, 10), (K::NewBda, 5), (K::NewInt, 6), (K::FillLiq, 8), (K::FillInt, 5), (K::FillBda, 5)]]), steps: (20, 40), focus: 4, ruin: 1, ..d },
        "C28" => Profile { w: cat(&[lend, auc, back, vec![(K::Draw, 8), (K::Donate, 8), (K::BGulpPool, 4), (K::PGulp, 3), (K::BClaim, 8), (K::FillBda, 6), (K::FillInt, 6)]]), pools: (1, 2), fakes: 2, steps: (30, 60), emis: 6, odd: 8, ruin: 1, long: 1, ..d },
        "C29" => Profile { w: cat(&[lend, auc, vec![(K::Price, 12), (K::Feed, 4), (K::Time, 12), (K::Crash, 8), (K::NewLiq, 8), (K::NewInt, 6), (K::NewBda, 5), (K::DelLiq, 4), (K::Force, 1)]]), steps: (30, 60), feed: 0, odd: 10, assets: 4, ruin: 1, ..d },
        "C31" => Profile { w: cat(&[lend, auc, back, vec![(K::SetStatus, 2), (K::UpdStatus, 3), (K::UpdPool, 2), (K::Queue, 2), (K::SetRes, 2), (K::PGulp, 4), (K::PClaim, 5), (K::BGulpPool, 3), (K::BClaim, 4), (K::Dist, 4), (K::UpdTkn, 3), (K::QSwap, 5), (K::CSwap, 1), (K::Swap, 7), (K::Mint, 4), (K::Xfer, 4), (K::Wd, 7), (K::Que, 3), (K::Time, 5)]]), pools: (1, 2), fakes: 1, backs: 2, steps: (30, 60), emis: 6, ruin: 1, alts: vec![(queue_w(), 2), (swap_w(), 2), (status_w(), 2)], long: 1, ..d },
        "C32" => Profile { w: cat(&[lend, auc, back, vec![(K::SetAdmin, 2), (K::SetStatus, 3), (K::UpdStatus, 3), (K::UpdPool, 2), (K::Queue, 3), (K::Cancel, 2), (K::SetRes, 3), (K::PGulp, 4), (K::SetEmis, 2), (K::PClaim, 5), (K::BClaim, 5), (K::Draw, 3), (K::Donate, 3), (K::Dist, 4), (K::AddReward, 3), (K::BDrop, 1), (K::EDrop, 1), (K::QSwap, 5), (K::CSwap, 2), (K::Swap, 7), (K::Mint, 4), (K::Xfer, 4), (K::Wd, 7), (K::Que, 3), (K::Time, 5)]]), pools: (1, 2), fakes: 1, backs: 2, steps: (30, 60), emis: 6, ruin: 1, alts: vec![(queue_w(), 2), (swap_w(), 2), (status_w(), 2)], ..d },
        "C30" => Profile { w: cat(&[lend, back, vec![(K::Withdraw, 12), (K::WithdrawC, 12), (K::Repay, 14), (K::SetStatus, 6), (K::UpdStatus, 3), (K::QueTo, 8), (K::Crash, 4), (K::BadDebt, 2), (K::PClaim, 3), (K::Draw, 2), (K::Price, 8), (K::Feed, 3), (K::AddReward, 5), (K::NewLiq, 2), (K::FillLiq, 2), (K::AucTime, 1), (K::Force, 3)]]), steps: (25, 50), feed: 2, emis: 5, odd: 10, pace: 2, long: 1, ..d },
        _ => d,
    }
}
/// mostly backstop queues and claims
fn queue_w() -> W {
    cat(&[back_w(), vec![(K::Que, 22), (K::Deq, 12), (K::Wd, 22), (K::Time, 18), (K::BClaim, 6), (K::BGulp, 5), (K::Supply, 2), (K::Borrow, 2)]])
}
/// mostly bad debt
fn bad_w() -> W {
    cat(&[lend_w(), auction_w(), vec![(K::BadDebt, 12), (K::NewBda, 8), (K::FillBda, 12), (K::FillLiq, 10), (K::AucTime, 8), (K::SetStatus, 5), (K::UpdStatus, 3), (K::NewInt, 3), (K::FillInt, 3), (K::QueTo, 2)]])
}
/// mostly pool status
fn status_w() -> W {
    cat(&[vec![(K::UpdStatus, 20), (K::SetStatus, 8), (K::QueTo, 16), (K::DepTo, 14), (K::Dep, 5), (K::Que, 4), (K::Deq, 8), (K::Wd, 5), (K::Draw, 3), (K::Donate, 3), (K::UpdTkn, 5), (K::Time, 6), (K::Supply, 2), (K::Borrow, 3), (K::NewLiq, 2)]])
}
/// mostly emitter
fn swap_w() -> W {
    cat(&[vec![(K::Time, 14), (K::Dist, 10), (K::QSwap, 14), (K::CSwap, 5), (K::Swap, 14), (K::Mint, 10), (K::Xfer, 10), (K::Dep, 4), (K::BGulp, 2), (K::BDrop, 3), (K::EDrop, 3), (K::Que, 2), (K::Wd, 2)]])
}
fn droplist(s: &mut Src, c: &mut WCfg) {
    let n = s.below(4) as usize;
    let mut left: i128 = 50_000_000 * S7;
    for i in 0..n {
        let v = match s.below(6) {
            0 => left,
            1 => left + 1,
            2 => -1,
            3 => s.log_int(left.max(1)),
            4 => 0,
            _ => left / 2,
        };
        left = (left - v).max(0);
        c.drop.push((i % c.n_users, v));
    }
}

pub fn case(id: &'static str) -> Box<dyn Fn(&mut Src, &mut Ctx) -> Result<(), Fail> + Sync> {
    macro_rules! g {
        ($x:expr) => {{
            Box::new(move |s: &mut Src, c: &mut Ctx| history(s, c, id, &profile(id), &mut $x))
        }};
    }
    match id {
        "C01" => g!(G01::default()),
        "C02" => g!(G02),
        "C03" => g!(G03),
        "C04" => g!(G04),
        "C05" => g!(G05),
        "C06" => g!(G06),
        "C07" => g!(G07),
        "C08" => g!(G08),
        "C09" => g!(G09),
        "C10" => g!(G10::default()),
        "C11" => g!(G11),
        "C12" => g!(G12),
        "C13" => g!(G13),
        "C14" => g!(G14),
        "C15" => g!(G15::default()),
        "C16" => g!(G16::default()),
        "C17" => g!(G17),
        "C18" => g!(G18::default()),
        "C19" => g!(G19::default()),
        "C20" => g!(G20),
        "C21" => g!(G21),
        "C22" => g!(G22::default()),
        "C23" => g!(G23::default()),
        "C24" => Box::new(c24),
        "C25" => g!(G25::default()),
        "C26" => Box::new(c26),
        "C27" => Box::new(c27),
        "C28" => g!(G28),
        "C29" => g!(G29),
        "C30" => g!(G30),
        "C31" => g!(G31::default()),
        "C32" => g!(G32::default()),
        _ => panic!("unknown property {id}"),
    }
}

include!("checks4.rs");
