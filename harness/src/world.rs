//! The real contracts, wired together in a fresh host environment.
use crate::mocks::{comet, keys, oracle, token};
use crate::state::*;
use backstop::{BackstopClient, BackstopContract, BackstopEmissionConfig, BackstopEmissionsData, PoolBalance, UserBalance};
use emitter::{EmitterClient, EmitterContract, EmitterDataKey};
use mock_pool_factory::{MockPoolFactory, MockPoolFactoryClient, PoolInitMeta};
use pool::{
    AuctionData, PoolClient, PoolConfig, PoolContract, PoolDataKey, Positions, Request, ReserveConfig, ReserveData, ReserveEmissionMetadata,
    ReserveEmissionsConfig, ReserveEmissionsData,
};
use soroban_sdk::testutils::{Address as _, BytesN as _, Ledger, LedgerInfo};
use soroban_sdk::token::{Client as TokClient, StellarAssetClient};
use soroban_sdk::testutils::EnvTestConfig;
use soroban_sdk::{contracttype, Address, BytesN, Env, IntoVal, Map, String as SStr, Symbol, Val, Vec as SVec};
use std::collections::BTreeMap;

#[contracttype]
#[derive(Clone)]
pub struct QueuedReserveInit {
    pub new_config: ReserveConfig,
    pub unlock_time: u64,
}

#[derive(Clone, Debug)]
pub struct WCfg {
    pub ts0: u64,
    pub seq0: u32,
    pub n_users: usize,
    pub n_pools: usize,
    pub n_fakes: usize,
    pub n_backs: usize,
    pub n_assets: usize, // plain reserve tokens
    pub odec: u32,
    pub take: u32,
    pub max_pos: u32,
    pub lp_supply: i128,
    pub lp_blnd: i128,
    pub lp_usdc: i128,
    pub drop: Vec<(usize, i128)>, // (user, amount)
    pub min_temp: u32,
    pub min_pers: u32,
}
impl Default for WCfg {
    fn default() -> Self {
        WCfg {
            ts0: 1713139200 + 5000,
            seq0: 1000,
            n_users: 4,
            n_pools: 1,
            n_fakes: 0,
            n_backs: 0,
            n_assets: 3,
            odec: 7,
            take: 1_000_000,
            max_pos: 4,
            lp_supply: 1_000_000 * 10_000_000,
            lp_blnd: 10_000_000 * 10_000_000,
            lp_usdc: 250_000 * 10_000_000,
            drop: vec![],
            min_temp: 16,
            min_pers: 30_000_000,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Unit,
    I(i128),
    U(u32),
    P(Pos),
    Au(Auc),
    Q(i128, u64),
    Pair(i128, i128),
}

#[derive(Clone, Debug)]
pub struct Ex {
    pub res: Result<Ret, String>,
}
impl Ex {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
}

pub struct World {
    pub e: Env,
    pub actors: Vec<Address>,
    pub assets: Vec<Address>,
    pub r: Roles,
    pub cfg: WCfg,
    pub oracle: Address,
}

fn init_env(cfg: &WCfg) -> Env {
    let e = Env::new_with_config(EnvTestConfig { capture_snapshot_at_drop: false });
    let _ = e.host().set_diagnostic_level(soroban_env_host::DiagnosticLevel::None);
    e.mock_all_auths();
    e.budget().reset_unlimited();
    e.ledger().set(LedgerInfo {
        timestamp: cfg.ts0,
        protocol_version: 20,
        sequence_number: cfg.seq0,
        network_id: [7u8; 32],
        base_reserve: 10,
        min_temp_entry_ttl: cfg.min_temp,
        min_persistent_entry_ttl: cfg.min_pers,
        max_entry_ttl: 40_000_000,
    });
    e
}

impl World {
    pub fn new(cfg: &WCfg) -> World {
        let e = init_env(cfg);
        let mut actors = vec![];
        let mut act = |a: Address| {
            actors.push(a);
            actors.len() - 1
        };
        let mut r = Roles::default();
        for _ in 0..cfg.n_users {
            r.users.push(act(Address::generate(&e)));
        }
        r.admin = act(Address::generate(&e));
        r.non_pool = act(Address::generate(&e));
        for _ in 0..cfg.n_backs {
            r.backs.push(act(Address::generate(&e)));
        }
        // assets
        let mut assets = vec![];
        for i in 0..cfg.n_assets {
            assets.push(e.register_contract(None, token::TokenC));
            r.assets.push(i);
        }
        let blnd_admin = Address::generate(&e);
        let blnd = e.register_stellar_asset_contract(blnd_admin.clone());
        let usdc = e.register_contract(None, token::TokenC);
        let lp = e.register_contract(None, comet::CometC);
        r.blnd = assets.len();
        assets.push(blnd.clone());
        r.usdc = assets.len();
        assets.push(usdc.clone());
        r.lp = assets.len();
        assets.push(lp.clone());
        r.lp2 = assets.len();
        assets.push(e.register_contract(None, token::TokenC));
        r.lp_contract = act(lp.clone());
        let backstop = e.register_contract(None, BackstopContract);
        let emitter = e.register_contract(None, EmitterContract);
        let factory = e.register_contract(None, MockPoolFactory);
        r.backstop = act(backstop.clone());
        r.emitter = act(emitter.clone());
        r.factory = act(factory.clone());
        let oracle = e.register_contract(None, oracle::OracleC);
        oracle::OracleCClient::new(&e, &oracle).set_decimals(&cfg.odec);
        // liquidity of the BLND-USDC LP
        StellarAssetClient::new(&e, &blnd).mint(&lp, &cfg.lp_blnd);
        token::TokenCClient::new(&e, &usdc).mint(&lp, &cfg.lp_usdc);
        let lpc = comet::CometCClient::new(&e, &lp);
        lpc.set_rate(&10_000_000);
        lpc.mint(&actors[r.admin], &cfg.lp_supply);
        StellarAssetClient::new(&e, &blnd).set_admin(&emitter);
        EmitterClient::new(&e, &emitter).initialize(&blnd, &backstop, &lp);
        let mut dl = SVec::new(&e);
        for (u, v) in &cfg.drop {
            dl.push_back((actors[r.users[*u]].clone(), *v));
        }
        // the implementation takes usdc before blnd
        let args: SVec<Val> = soroban_sdk::vec![
            &e,
            lp.into_val(&e),
            emitter.into_val(&e),
            usdc.into_val(&e),
            blnd.into_val(&e),
            factory.into_val(&e),
            dl.into_val(&e)
        ];
        e.invoke_contract::<Val>(&backstop, &Symbol::new(&e, "initialize"), args);
        let fc = MockPoolFactoryClient::new(&e, &factory);
        fc.initialize(&PoolInitMeta {
            pool_hash: BytesN::<32>::random(&e),
            backstop: backstop.clone(),
            blnd_id: blnd.clone(),
        });
        BackstopClient::new(&e, &backstop).update_tkn_val();
        for _ in 0..cfg.n_pools {
            let p = e.register_contract(None, PoolContract {});
            PoolClient::new(&e, &p).initialize(
                &actors[r.admin],
                &SStr::from_str(&e, "pool"),
                &oracle,
                &cfg.take,
                &cfg.max_pos,
                &backstop,
                &blnd,
            );
            fc.set_pool(&p);
            actors.push(p);
            r.pools.push(actors.len() - 1);
        }
        for _ in 0..cfg.n_fakes {
            let a = Address::generate(&e);
            fc.set_pool(&a);
            actors.push(a);
            r.fakes.push(actors.len() - 1);
        }
        World { e, actors, assets, r, cfg: cfg.clone(), oracle }
    }

    pub fn ai(&self, a: &Address) -> A {
        self.actors.iter().position(|x| x == a).unwrap_or(9999)
    }
    pub fn ti(&self, a: &Address) -> T {
        self.assets.iter().position(|x| x == a).unwrap_or(9999)
    }
    pub fn pool_client(&self, pi: usize) -> PoolClient {
        PoolClient::new(&self.e, &self.actors[self.r.pools[pi]])
    }
    pub fn back_client(&self) -> BackstopClient {
        BackstopClient::new(&self.e, &self.actors[self.r.backstop])
    }
    pub fn emit_client(&self) -> EmitterClient {
        EmitterClient::new(&self.e, &self.actors[self.r.emitter])
    }

    pub fn auc(&self, a: &AuctionData) -> Auc {
        Auc {
            bid: a.bid.iter().map(|(k, v)| (self.ti(&k), v)).collect(),
            lot: a.lot.iter().map(|(k, v)| (self.ti(&k), v)).collect(),
            block: a.block,
        }
    }
    pub fn pos(p: &Positions) -> Pos {
        Pos { l: p.liabilities.iter().collect(), c: p.collateral.iter().collect(), s: p.supply.iter().collect() }
    }
    fn rcfg(c: &ReserveConfig) -> RCfg {
        RCfg {
            index: c.index,
            decimals: c.decimals,
            c_factor: c.c_factor,
            l_factor: c.l_factor,
            util: c.util,
            max_util: c.max_util,
            r_base: c.r_base,
            r_one: c.r_one,
            r_two: c.r_two,
            r_three: c.r_three,
            reactivity: c.reactivity,
        }
    }
    pub fn mk_rcfg(c: &RCfg) -> ReserveConfig {
        ReserveConfig {
            index: c.index,
            decimals: c.decimals,
            c_factor: c.c_factor,
            l_factor: c.l_factor,
            util: c.util,
            max_util: c.max_util,
            r_base: c.r_base,
            r_one: c.r_one,
            r_two: c.r_two,
            r_three: c.r_three,
            reactivity: c.reactivity,
        }
    }

    fn snap_pool(&self, pi: usize) -> PoolSt {
        let e = &self.e;
        let me = self.r.pools[pi];
        e.as_contract(&self.actors[me], || {
            let st = e.storage();
            let cfg: PoolConfig = st.instance().get(&Symbol::new(e, "Config")).unwrap();
            let admin: Address = st.instance().get(&Symbol::new(e, "Admin")).unwrap();
            let list: SVec<Address> = st.persistent().get(&Symbol::new(e, "ResList")).unwrap_or(SVec::new(e));
            let mut p = PoolSt {
                me,
                admin: self.ai(&admin),
                bstop_rate: cfg.bstop_rate,
                status: cfg.status,
                max_pos: cfg.max_positions,
                list: list.iter().map(|a| self.ti(&a)).collect(),
                ..Default::default()
            };
            for (i, a) in list.iter().enumerate() {
                let t = p.list[i];
                let c: ReserveConfig = st.persistent().get(&PoolDataKey::ResConfig(a.clone())).unwrap();
                let d: ReserveData = st.persistent().get(&PoolDataKey::ResData(a.clone())).unwrap();
                p.cfg.insert(t, Self::rcfg(&c));
                p.data.insert(
                    t,
                    RData {
                        d_rate: d.d_rate,
                        b_rate: d.b_rate,
                        ir_mod: d.ir_mod,
                        b_supply: d.b_supply,
                        d_supply: d.d_supply,
                        credit: d.backstop_credit,
                        last: d.last_time,
                    },
                );
                for tid in [2 * i as u32, 2 * i as u32 + 1] {
                    if let Some(x) = st.persistent().get::<_, ReserveEmissionsConfig>(&PoolDataKey::EmisConfig(tid)) {
                        p.ecfg.insert(tid, (x.expiration, x.eps));
                        let d: ReserveEmissionsData = st.persistent().get(&PoolDataKey::EmisData(tid)).unwrap();
                        p.edata.insert(tid, (d.index, d.last_time));
                        for (ai, a) in self.actors.iter().enumerate() {
                            let k = keys::PoolKey::UserEmis(keys::UserReserveKey { user: a.clone(), reserve_id: tid });
                            if let Some(u) = st.persistent().get::<_, pool::UserEmissionData>(&k) {
                                p.ue.insert((ai, tid), (u.index, u.accrued));
                            }
                        }
                    }
                }
            }
            for (ti, a) in self.assets.iter().enumerate() {
                if let Some(q) = st.temporary().get::<_, QueuedReserveInit>(&PoolDataKey::ResInit(a.clone())) {
                    p.queued.insert(ti, (Self::rcfg(&q.new_config), q.unlock_time));
                }
            }
            for (ai, a) in self.actors.iter().enumerate() {
                if let Some(x) = st.persistent().get::<_, Positions>(&PoolDataKey::Positions(a.clone())) {
                    let x = Self::pos(&x);
                    if !x.is_empty() {
                        p.pos.insert(ai, x);
                    }
                }
                for ty in 0..3u32 {
                    let k = keys::PoolKey::Auction(keys::AuctionKey { user: a.clone(), auct_type: ty });
                    if let Some(x) = st.temporary().get::<_, AuctionData>(&k) {
                        p.auc.insert((ai, ty), self.auc(&x));
                    }
                }
            }
            if let Some(m) = st.persistent().get::<_, Map<u32, u64>>(&Symbol::new(e, "PoolEmis")) {
                p.pemis = m.iter().collect();
            }
            p
        })
    }

    fn snap_back(&self) -> BackSt {
        let e = &self.e;
        e.as_contract(&self.actors[self.r.backstop], || {
            let st = e.storage();
            let mut b = BackSt::default();
            let mut ps: Vec<A> = self.r.pools.clone();
            ps.extend(self.r.fakes.iter());
            ps.push(self.r.non_pool);
            for p in ps {
                let a = self.actors[p].clone();
                let mut x = PB::default();
                if let Some(v) = st.persistent().get::<_, PoolBalance>(&backstop::BackstopDataKey::PoolBalance(a.clone())) {
                    x.shares = v.shares;
                    x.tokens = v.tokens;
                    x.q4w = v.q4w;
                }
                x.emis = st.persistent().get(&backstop::BackstopDataKey::PoolEmis(a.clone())).unwrap_or(0);
                if let Some(v) =
                    st.persistent().get::<_, BackstopEmissionConfig>(&backstop::BackstopDataKey::BEmisCfg(a.clone()))
                {
                    x.ecfg = Some((v.expiration, v.eps));
                }
                if let Some(v) =
                    st.persistent().get::<_, BackstopEmissionsData>(&backstop::BackstopDataKey::BEmisData(a.clone()))
                {
                    x.edata = Some((v.index, v.last_time));
                }
                if x != PB::default() {
                    b.pb.insert(p, x);
                }
                for (ui, u) in self.actors.iter().enumerate() {
                    let k = keys::PoolUserKey { pool: a.clone(), user: u.clone() };
                    let mut x = UB::default();
                    if let Some(v) = st.persistent().get::<_, UserBalance>(&keys::BackKey::UserBalance(k.clone())) {
                        x.shares = v.shares;
                        x.q = v.q4w.iter().map(|q| (q.amount, q.exp)).collect();
                    }
                    if let Some(v) = st.persistent().get::<_, backstop::UserEmissionData>(&keys::BackKey::UEmisData(k)) {
                        x.ed = Some((v.index, v.accrued));
                    }
                    if x != UB::default() {
                        b.ub.insert((p, ui), x);
                    }
                }
            }
            if let Some(v) = st.persistent().get::<_, SVec<Address>>(&Symbol::new(e, "RZ")) {
                b.rz = v.iter().map(|a| self.ai(&a)).collect();
            }
            b.last = st.persistent().get(&Symbol::new(e, "LastDist")).unwrap_or(0);
            b.lpv = st.persistent().get(&Symbol::new(e, "LPTknVal")).unwrap_or((0, 0));
            b
        })
    }

    fn snap_emit(&self) -> EmitSt {
        let e = &self.e;
        e.as_contract(&self.actors[self.r.emitter], || {
            let st = e.storage();
            let b: Address = st.instance().get(&Symbol::new(e, "Backstop")).unwrap();
            let t: Address = st.instance().get(&Symbol::new(e, "BToken")).unwrap();
            let mut x = EmitSt { backstop: self.ai(&b), token: self.ti(&t), ..Default::default() };
            for (ai, a) in self.actors.iter().enumerate() {
                if let Some(v) = st.persistent().get(&EmitterDataKey::LastDistro(a.clone())) {
                    x.last.insert(ai, v);
                }
                if st.persistent().get(&EmitterDataKey::Dropped(a.clone())).unwrap_or(false) {
                    x.dropped.insert(ai);
                }
            }
            x.swap = st
                .persistent()
                .get::<_, emitter::Swap>(&Symbol::new(e, "Swap"))
                .map(|s| (self.ai(&s.new_backstop), self.ti(&s.new_backstop_token), s.unlock_time));
            x
        })
    }

    pub fn snap(&self) -> S {
        let e = &self.e;
        let mut s = S { ts: e.ledger().timestamp(), seq: e.ledger().sequence(), odec: self.cfg.odec, ..Default::default() };
        for i in 0..self.r.pools.len() {
            s.pools.push(self.snap_pool(i));
        }
        s.back = self.snap_back();
        s.emit = self.snap_emit();
        for (t, ta) in self.assets.iter().enumerate() {
            if t == self.r.blnd {
                let seq = e.ledger().sequence();
                e.as_contract(ta, || {
                    for (ai, a) in self.actors.iter().enumerate() {
                        let k = keys::SacKey::Balance(a.clone());
                        if let Some(v) = e.storage().persistent().get::<_, keys::BalanceValue>(&k) {
                            if v.amount != 0 {
                                s.bal.insert((t, ai), v.amount);
                            }
                        }
                    }
                    for p in self.r.pools.iter().chain(self.r.fakes.iter()) {
                        let k = keys::SacKey::Allowance(keys::AllowanceDataKey {
                            from: self.actors[self.r.backstop].clone(),
                            spender: self.actors[*p].clone(),
                        });
                        if let Some(v) = e.storage().temporary().get::<_, keys::AllowanceValue>(&k) {
                            if v.amount != 0 && v.live_until_ledger >= seq {
                                s.allow.insert(*p, v.amount);
                            }
                        }
                    }
                });
            } else {
                e.as_contract(ta, || {
                    for (ai, a) in self.actors.iter().enumerate() {
                        let v: i128 = if t == self.r.lp {
                            e.storage().persistent().get(&comet::K::Bal(a.clone())).unwrap_or(0)
                        } else {
                            e.storage().persistent().get(&token::K::Bal(a.clone())).unwrap_or(0)
                        };
                        if v != 0 {
                            s.bal.insert((t, ai), v);
                        }
                    }
                    if t == self.r.lp {
                        s.lp_supply = e.storage().persistent().get(&comet::K::Sup).unwrap_or(0);
                        s.lp_rate = e.storage().persistent().get(&comet::K::Rate).unwrap_or(0);
                    }
                });
            }
        }
        e.as_contract(&self.oracle, || {
            for (t, ta) in self.assets.iter().enumerate() {
                if let Some(p) = e.storage().persistent().get::<_, sep_40_oracle::PriceData>(&oracle::K::P(ta.clone())) {
                    s.price.insert(t, (p.price, p.timestamp));
                }
            }
        });
        s.droplist = self.cfg.drop.iter().map(|(u, v)| (self.r.users[*u], *v)).collect();
        s
    }

    pub fn req(&self, q: &Req) -> Request {
        Request {
            request_type: q.t,
            address: match q.addr {
                RA::T(t) => self.assets[t].clone(),
                RA::A(a) => self.actors[a].clone(),
            },
            amount: q.amt,
        }
    }

    pub fn set_time(&self, dt: u64, db: u32) {
        let mut l = self.e.ledger().get();
        l.timestamp += dt;
        l.sequence_number += db;
        self.e.ledger().set(l);
    }

    /// Drop the temporary entries that the network would have dropped by now (the test host keeps
    /// them for ever). Returns how many there were.
    pub fn expire(&self) -> usize {
        use soroban_sdk::xdr::{ContractDataDurability, LedgerKey, ScAddress};
        use soroban_sdk::TryFromVal;
        let e = &self.e;
        let seq = e.ledger().sequence();
        let mut gone = vec![];
        for (k, (_, live)) in e.to_ledger_snapshot().ledger_entries.iter() {
            if let (LedgerKey::ContractData(d), Some(l)) = (k.as_ref(), live) {
                if d.durability == ContractDataDurability::Temporary && *l < seq {
                    gone.push((d.contract.clone(), d.key.clone()));
                }
            }
        }
        for (c, k) in gone.iter() {
            if let ScAddress::Contract(_) = c {
                let a = Address::try_from_val(e, c).unwrap();
                let Ok(v) = Val::try_from_val(e, k) else { continue };
                e.as_contract(&a, || e.storage().temporary().remove(&v));
            }
        }
        gone.len()
    }

    pub fn exec(&self, op: &Op) -> Ex {
        let e = &self.e;
        let a = |i: &A| self.actors[*i].clone();
        let t = |i: &T| self.assets[*i].clone();
        macro_rules! call {
            ($x:expr, $v:ident => $r:expr) => {
                match $x {
                    Ok(Ok($v)) => Ok($r),
                    Ok(Err(_)) => Err("conversion".to_string()),
                    Err(er) => Err(format!("{:?}", er)),
                }
            };
        }
        let res: Result<Ret, String> = match op {
            Op::Time(dt, db) => {
                self.set_time(*dt, *db);
                Ok(Ret::Unit)
            }
            Op::Price(x, p, ts) => {
                oracle::OracleCClient::new(e, &self.oracle).set_price(&t(x), p, ts);
                Ok(Ret::Unit)
            }
            Op::NoPrice(x) => {
                oracle::OracleCClient::new(e, &self.oracle).del_price(&t(x));
                Ok(Ret::Unit)
            }
            Op::Mint(x, u, v) => {
                if *x == self.r.blnd {
                    StellarAssetClient::new(e, &t(x)).mint(&a(u), v);
                } else if *x == self.r.lp {
                    comet::CometCClient::new(e, &t(x)).mint(&a(u), v);
                } else {
                    token::TokenCClient::new(e, &t(x)).mint(&a(u), v);
                }
                Ok(Ret::Unit)
            }
            Op::Xfer(x, u, v, amt) => call!(TokClient::new(e, &t(x)).try_transfer(&a(u), &a(v), amt), _v => Ret::Unit),
            Op::Force(p, n) => {
                e.as_contract(&self.actors[self.r.pools[*p]], || {
                    let st = e.storage().instance();
                    let k = Symbol::new(e, "Config");
                    let mut c: PoolConfig = st.get(&k).unwrap();
                    c.status = *n;
                    st.set(&k, &c);
                });
                Ok(Ret::Unit)
            }
            Op::LpRate(x) => {
                comet::CometCClient::new(e, &t(&self.r.lp)).set_rate(x);
                Ok(Ret::Unit)
            }
            Op::Submit { p, from, spender, to, reqs } => {
                let mut v = SVec::new(e);
                for q in reqs {
                    v.push_back(self.req(q));
                }
                call!(self.pool_client(*p).try_submit(&a(from), &a(spender), &a(to), &v), x => Ret::P(Self::pos(&x)))
            }
            Op::BadDebt(p, u) => call!(self.pool_client(*p).try_bad_debt(&a(u)), _x => Ret::Unit),
            Op::NewLiq(p, u, pct) => {
                call!(self.pool_client(*p).try_new_liquidation_auction(&a(u), pct), x => Ret::Au(self.auc(&x)))
            }
            Op::NewBda(p) => call!(self.pool_client(*p).try_new_bad_debt_auction(), x => Ret::Au(self.auc(&x))),
            Op::NewInt(p, v) => {
                let mut l = SVec::new(e);
                for x in v {
                    l.push_back(t(x));
                }
                call!(self.pool_client(*p).try_new_interest_auction(&l), x => Ret::Au(self.auc(&x)))
            }
            Op::UpdStatus(p) => call!(self.pool_client(*p).try_update_status(), x => Ret::U(x)),
            Op::SetStatus(p, n) => call!(self.pool_client(*p).try_set_status(n), _x => Ret::Unit),
            Op::UpdPool(p, x, m) => call!(self.pool_client(*p).try_update_pool(x, m), _x => Ret::Unit),
            Op::QueueRes(p, x, c) => {
                call!(self.pool_client(*p).try_queue_set_reserve(&t(x), &Self::mk_rcfg(c)), _x => Ret::Unit)
            }
            Op::CancelRes(p, x) => call!(self.pool_client(*p).try_cancel_set_reserve(&t(x)), _x => Ret::Unit),
            Op::SetRes(p, x) => call!(self.pool_client(*p).try_set_reserve(&t(x)), v => Ret::U(v)),
            Op::PGulp(p) => call!(self.pool_client(*p).try_gulp_emissions(), v => Ret::I(v)),
            Op::SetEmis(p, v) => {
                let mut l = SVec::new(e);
                for (i, ty, sh) in v {
                    l.push_back(ReserveEmissionMetadata { res_index: *i, res_type: *ty, share: *sh });
                }
                call!(self.pool_client(*p).try_set_emissions_config(&l), _x => Ret::Unit)
            }
            Op::PClaim { p, from, ids, to } => {
                let mut l = SVec::new(e);
                for i in ids {
                    l.push_back(*i);
                }
                call!(self.pool_client(*p).try_claim(&a(from), &l, &a(to)), v => Ret::I(v))
            }
            Op::SetAdmin(p, u) => call!(self.pool_client(*p).try_set_admin(&a(u)), _x => Ret::Unit),
            Op::Dep { u, p, amt } => call!(self.back_client().try_deposit(&a(u), &a(p), amt), v => Ret::I(v)),
            Op::Que { u, p, amt } => {
                call!(self.back_client().try_queue_withdrawal(&a(u), &a(p), amt), v => Ret::Q(v.amount, v.exp))
            }
            Op::Deq { u, p, amt } => {
                call!(self.back_client().try_dequeue_withdrawal(&a(u), &a(p), amt), _x => Ret::Unit)
            }
            Op::Wd { u, p, amt } => call!(self.back_client().try_withdraw(&a(u), &a(p), amt), v => Ret::I(v)),
            Op::Draw { p, amt, to } => call!(self.back_client().try_draw(&a(p), amt, &a(to)), _x => Ret::Unit),
            Op::Donate { u, p, amt } => call!(self.back_client().try_donate(&a(u), &a(p), amt), _x => Ret::Unit),
            Op::BGulp => call!(self.back_client().try_gulp_emissions(), _x => Ret::Unit),
            Op::AddReward { add, rem } => call!(self.back_client().try_add_reward(&a(add), &a(rem)), _x => Ret::Unit),
            Op::BGulpPool(p) => call!(self.back_client().try_gulp_pool_emissions(&a(p)), v => Ret::I(v)),
            Op::BClaim { from, pools, to } => {
                let mut l = SVec::new(e);
                for p in pools {
                    l.push_back(a(p));
                }
                call!(self.back_client().try_claim(&a(from), &l, &a(to)), v => Ret::I(v))
            }
            Op::UpdTkn => call!(self.back_client().try_update_tkn_val(), v => Ret::Pair(v.0, v.1)),
            Op::BDrop => call!(self.back_client().try_drop(), _x => Ret::Unit),
            Op::Dist => call!(self.emit_client().try_distribute(), v => Ret::I(v)),
            Op::QSwap(x, k) => call!(self.emit_client().try_queue_swap_backstop(&a(x), &t(k)), _x => Ret::Unit),
            Op::CSwap => call!(self.emit_client().try_cancel_swap_backstop(), _x => Ret::Unit),
            Op::Swap => call!(self.emit_client().try_swap_backstop(), _x => Ret::Unit),
            Op::EDrop(l) => {
                let mut v = SVec::new(e);
                for (u, x) in l {
                    v.push_back((a(u), *x));
                }
                call!(self.emit_client().try_drop(&v), _x => Ret::Unit)
            }
        };
        Ex { res }
    }
    /// who authorized the last successful call
    pub fn signers(&self) -> BTreeMap<A, usize> {
        let mut m = BTreeMap::new();
        for (a, _) in self.e.auths() {
            *m.entry(self.ai(&a)).or_insert(0) += 1;
        }
        m
    }
}
