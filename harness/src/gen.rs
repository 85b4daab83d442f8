//! State-dependent random operations.
use crate::driver::{Step, H};
use crate::engine::{Fail, Src};
use crate::model::{self, *};
use crate::state::*;
use crate::world::WCfg;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum K {
    Time,
    Price,
    Feed,
    Supply,
    SupplyC,
    Withdraw,
    WithdrawC,
    Borrow,
    Repay,
    Batch,
    Weird,
    Crash,
    NewLiq,
    AucTime,
    FillLiq,
    DelLiq,
    BadDebt,
    NewBda,
    FillBda,
    NewInt,
    FillInt,
    UpdStatus,
    SetStatus,
    UpdPool,
    Queue,
    Cancel,
    SetRes,
    PGulp,
    SetEmis,
    PClaim,
    SetAdmin,
    Dep,
    Que,
    Deq,
    Wd,
    Draw,
    Donate,
    BGulp,
    AddReward,
    BGulpPool,
    BClaim,
    UpdTkn,
    BDrop,
    Dist,
    QSwap,
    CSwap,
    Swap,
    EDrop,
    LpRate,
    Xfer,
    Mint,
    /// collateral plus a borrow near what it allows
    Lever,
    /// queue a chosen fraction of all backstop shares
    QueTo,
    /// move backstop deposits to a chosen point around the threshold
    DepTo,
    /// repeated small requests in the same ledger
    Dust,
    /// put the pool in any status
    Force,
    /// a batch of any kinds of request, auctions included, opening and closing positions
    Mix,
    N,
}
pub const NK: usize = K::N as usize;
pub type W = [u64; NK];

pub fn weights(l: &[(K, u64)]) -> W {
    let mut w = [0; NK];
    for (k, v) in l {
        w[*k as usize] = *v;
    }
    w
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub w: W,
    pub pools: (u64, u64),
    pub fakes: u64,
    pub backs: u64,
    pub users: usize,
    pub assets: usize,
    /// chance in 64 of a pool with many reserves
    pub wide: u64,
    /// of 64 histories: more reserves than a pool may hold
    pub crowd: u64,
    pub steps: (u64, u64),
    /// chance in 8 that the pool is set up with reserves, liquidity and an active status
    pub lend: u64,
    pub emis: u64,
    /// chance in 8 of refreshing outdated prices
    pub feed: u64,
    /// scale of time steps: 0 short, 1 mixed, 2 long
    pub pace: u64,
    /// chance in 100 of each request shape meant to be refused
    pub odd: u64,
    pub late_ts: bool,
    pub tweak: Option<fn(&mut Src, &mut WCfg)>,
    /// chance in 8 of doing what the state calls for
    pub focus: u64,
    /// chance in 8 of starting from several ruined debtors
    pub ruin: u64,
    /// chance in 16 of starting with a long queue of withdrawals
    pub long: u64,
    /// other weightings (and paces) used for a share of the histories
    pub alts: Vec<(W, u64)>,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            w: [0; NK],
            pools: (1, 1),
            fakes: 0,
            backs: 0,
            users: 4,
            assets: 3,
            wide: 3,
            crowd: 0,
            steps: (12, 40),
            lend: 8,
            emis: 0,
            feed: 7,
            pace: 1,
            odd: 5,
            late_ts: false,
            tweak: None,
            focus: 4,
            ruin: 0,
            long: 0,
            alts: vec![],
        }
    }
}

pub fn rand_rcfg(s: &mut Src, dec: u32, ctr: usize) -> RCfg {
    let util = match s.below(6) {
        0 => 7_500_000,
        1 => s.range(1, 9_500_000) as u32,
        2 => 9_500_000,
        3 => s.range(5_000_000, 9_500_000) as u32,
        4 => s.range(100, 100_000) as u32,
        _ => 5_000_000,
    };
    let max_util = match s.below(4) {
        0 => 10_000_000,
        1 => s.range(util as u64 + 1, 10_000_000) as u32,
        2 => (util + 1).max(9_500_000),
        _ => (util + 500_000).min(10_000_000),
    };
    let c_factor = *s.pick(&[7_500_000, 9_000_000, 10_000_000, 9_800_000, 5_000_000, 0, 1_000_000, 1]);
    let l_factor = *s.pick(&[7_500_000, 9_000_000, 10_000_000, 9_500_000, 5_000_000, 2_000_000, 8_333_333]);
    // the reserves used as collateral first must be usable
    let c_factor = if ctr == 0 && c_factor < 5_000_000 { 7_500_000 } else { c_factor };
    let r_base = match s.below(4) {
        0 => 100_000,
        1 => 1_000,
        2 => s.range(1_000, 9_999_999) as u32,
        _ => 10_000,
    };
    let r_one = s.below(4_000_000) as u32;
    let r_two = r_one + s.below(10_000_000) as u32;
    let r_three = r_two + s.below(30_000_000) as u32;
    let reactivity = *s.pick(&[20, 0, 1_000, 100, 1, 999, 500]);
    RCfg { index: s.below(3) as u32, decimals: dec, c_factor, l_factor, util, max_util, r_base, r_one, r_two, r_three, reactivity }
}

pub fn mutate_rcfg(s: &mut Src, c: &RCfg, odd: bool) -> RCfg {
    let mut n = c.clone();
    if s.chance(1, 4) {
        // one point of the rate curve alone
        match s.below(4) {
            0 => n.r_one = s.below(n.r_two as u64 + 1) as u32,
            1 => n.r_two = s.range(n.r_one as u64, n.r_three as u64) as u32,
            2 => n.r_three = n.r_two + s.below(30_000_000) as u32,
            _ => n.r_three += 1,
        }
        if s.chance(2, 3) {
            return n;
        }
    }
    match s.below(if odd { 16 } else { 7 }) {
        0 => n.c_factor = s.below(10_000_001) as u32,
        1 => n.l_factor = s.range(1_000_000, 10_000_000) as u32,
        2 => n.reactivity = s.below(1001) as u32,
        3 => n.r_base = s.range(1000, 9_999_999) as u32,
        4 => {
            let u = s.range(1, 9_500_000) as u32;
            n.util = u;
            n.max_util = n.max_util.max(u + 1)
        }
        5 => {
            n.r_one = s.below(4_000_000) as u32;
            n.r_two = n.r_one + s.below(10_000_000) as u32;
            n.r_three = n.r_two + s.below(30_000_000) as u32;
        }
        6 => n.max_util = s.range(n.util as u64 + 1, 10_000_000) as u32,
        7 => n.c_factor = 10_000_001 + s.below(3) as u32 * 1_000_000,
        8 => n.l_factor = 10_000_001,
        9 => n.util = 9_500_001,
        10 => n.max_util = if s.chance(1, 2) { 10_000_001 } else { n.util },
        11 => n.r_base = *s.pick(&[999, 10_000_000, 0, 9_999_999, 1000]),
        12 => {
            n.r_two = n.r_one.saturating_sub(1);
        }
        13 => n.r_three = n.r_two.saturating_sub(1),
        14 => n.reactivity = 1001,
        _ => n.decimals = *s.pick(&[19, 6, 7, 8, 18]),
    }
    n
}

/// amounts around something meaningful
pub fn near(s: &mut Src, base: i128) -> i128 {
    let base = base.max(1);
    match s.below(12) {
        0 => base,
        1 => base - 1,
        2 => base + 1,
        3 => base / 2,
        4 => base / 10,
        5 => s.log_int(base),
        6 => s.irange(1, base),
        7 => s.irange(1, base),
        8 => base + base / 7,
        9 => s.log_int(base.saturating_mul(4)),
        10 => s.range(1, 3) as i128,
        _ => base / 3,
    }
    .max(0)
}
/// parts of what is there, never more
pub fn part(s: &mut Src, base: i128) -> i128 {
    let base = base.max(0);
    match s.below(8) {
        0 => base,
        1 => base / 2,
        2 => base / 10,
        3 => s.log_int(base.max(1)),
        4 => (base - 1).max(0),
        5 => s.irange(0, base),
        6 => base * 9 / 10,
        _ => base / 3,
    }
}
/// largest v in [0, hi] accepted by a downward closed predicate
pub fn search(hi: i128, f: &mut dyn FnMut(i128) -> bool) -> i128 {
    let (mut lo, mut hi) = (0i128, hi);
    while lo < hi {
        let mid = lo + (hi - lo + 1) / 2;
        if f(mid) {
            lo = mid;
        } else {
            hi = mid - 1;
        }
    }
    lo
}

pub struct Gen {
    pub p: Profile,
    pub dec: Vec<u32>,   // decimals per plain asset
    pub cand: Vec<T>,    // candidate reserve assets
    pub unit: Vec<i128>, // typical amount per asset
    /// what is to follow the operation made last
    pub todo: std::cell::RefCell<std::collections::VecDeque<Op>>,
}

impl Gen {
    pub fn wcfg(s: &mut Src, p: &Profile) -> WCfg {
        let mut c = WCfg { n_users: p.users, n_assets: p.assets, ..WCfg::default() };
        c.n_pools = s.range(p.pools.0, p.pools.1) as usize;
        c.n_fakes = p.fakes as usize;
        c.n_backs = p.backs as usize;
        c.odec = *s.pick(&[7, 7, 14, 6, 9]);
        c.take = match s.below(5) {
            0 => 1_000_000,
            1 => 0,
            2 => 9_999_999,
            3 => s.below(10_000_000) as u32,
            _ => 2_000_000,
        };
        c.max_pos = *s.pick(&[4, 6, 2, 3, 12]);
        if p.wide > 0 && s.below(64) >= 64 - p.wide {
            // a pool with many reserves
            c.n_assets = s.range(6, 12) as usize;
            c.max_pos = *s.pick(&[24, 12, 60]);
        }
        if p.crowd > 0 && s.below(64) >= 64 - p.crowd {
            c.n_assets = s.range(33, 35) as usize;
            c.max_pos = 60;
        }
        if p.late_ts {
            let extra = s.below(40) * 8_388_608 / 10;
            c.ts0 = if s.chance(1, 8) { 1713139200 - s.range(1, 200_000) } else { 1713139200 + 5000 + extra };
        }
        if s.chance(1, 4) {
            // another composition of the LP token
            c.lp_blnd = s.range(1, 40) as i128 * 1_000_000 * S7;
            c.lp_usdc = s.range(1, 40) as i128 * 50_000 * S7;
        }
        let k = lp_scale(c.n_pools + c.n_fakes);
        c.lp_supply *= k;
        c.lp_blnd *= k;
        c.lp_usdc *= k;
        c
    }

    pub fn new(s: &mut Src, p: &Profile, c: &WCfg, blnd: T) -> Gen {
        let mut g = Gen { p: p.clone(), dec: vec![], cand: vec![], unit: vec![], todo: Default::default() };
        for i in 0..c.n_assets {
            let d = *s.pick(&[7, 7, 6, 9, 18, 3, 2]);
            g.dec.push(d);
            g.cand.push(i);
            g.unit.push(pow10(d));
        }
        if s.chance(1, 5) {
            g.cand.push(blnd);
        }
        while g.dec.len() < blnd + 1 {
            g.dec.push(7);
            g.unit.push(pow10(7));
        }
        g
    }
    pub fn decimals(&self, t: T) -> u32 {
        self.dec.get(t).copied().unwrap_or(7)
    }

    fn price(&self, s: &mut Src, odec: u32) -> i128 {
        let u = pow10(odec);
        match s.below(5) {
            0 => u,
            1 => u * s.range(1, 100) as i128,
            2 => u / s.range(2, 20) as i128,
            3 => s.irange(u / 10, u * 20),
            _ => u * 3 / 2 + s.below(1000) as i128,
        }
    }

    /// fund accounts, create reserves, deposits, liquidity
    pub fn setup(&mut self, s: &mut Src, h: &mut H, gh: &mut dyn Ghost) -> Result<(), Fail> {
        let r = h.w.r.clone();
        s.span();
        // wallets
        for t in self.cand.clone() {
            let amt = 2_000_000 * pow10(self.decimals(t));
            for u in r.users.clone() {
                run_step(h, gh, Op::Mint(t, u, amt))?;
            }
        }
        for u in r.users.clone() {
            run_step(h, gh, Op::Xfer(r.lp, r.admin, u, 200_000 * S7 * lp_scale(r.pools.len() + r.fakes.len())))?;
        }
        let pi_n = r.pools.len();
        for t in self.cand.clone() {
            let p = self.price(s, h.s.odec);
            {
                let ts = h.s.ts;
                run_step(h, gh, Op::Price(t, p, ts))?;
            }
        }
        if s.below(8) < self.p.lend {
            for pi in 0..pi_n {
                let top = self.cand.len() as u64;
                let n = s.range(if top > 6 { top - 2 } else { 1 }, top) as usize;
                for k in 0..n.max(if self.cand.len() > 1 && s.chance(7, 8) { 2 } else { 1 }) {
                    let t = self.cand[k];
                    let c = rand_rcfg(s, self.decimals(t), k);
                    run_step(h, gh, Op::QueueRes(pi, t, c))?;
                    run_step(h, gh, Op::SetRes(pi, t))?;
                }
            }
        }
        // backstop deposits
        for p in r.pools.iter().chain(r.fakes.iter()) {
            let amt = match s.below(8) {
                2..=7 if r.fakes.len() > 6 => needed(&h.s, false) + s.below(4) as i128 * 1_000 * S7,
                0 if s.chance(1, 3) => s.log_int(4_000 * S7),
                0 => s.range(1, 40_000) as i128 * S7,
                1 => 41_800 * S7,
                2 => s.range(2_000, 6_000) as i128 * S7, // around exhaustion
                _ => s.range(45_000, 90_000) as i128 * S7,
            };
            run_step(h, gh, Op::Dep { u: r.users[0], p: *p, amt })?;
            if s.chance(1, 2) && r.users.len() > 1 {
                let a = s.log_int(50_000 * S7);
                run_step(h, gh, Op::Dep { u: r.users[1], p: *p, amt: a })?;
            }
        }
        for pi in 0..pi_n {
            if s.chance(15, 16) {
                let st = run_step(h, gh, Op::SetStatus(pi, 0))?;
                if !st.ok() {
                    run_step(h, gh, Op::SetStatus(pi, 3))?;
                    if s.chance(1, 2) {
                        // enough from another deposit
                        run_step(h, gh, Op::Dep { u: r.users[0], p: r.pools[pi], amt: 60_000 * S7 })?;
                        run_step(h, gh, Op::SetStatus(pi, 0))?;
                    }
                }
            }
        }
        if s.below(8) < self.p.emis {
            for p in r.pools.iter().chain(r.fakes.iter()) {
                if s.chance(7, 8) {
                    run_step(h, gh, Op::AddReward { add: *p, rem: *p })?;
                }
            }
            let dt = *s.pick(&[3_601u64, 40_000, 80_000]);
            run_step(h, gh, Op::Time(dt, (dt / 5).min(500) as u32))?;
            run_step(h, gh, Op::Dist)?;
            run_step(h, gh, Op::BGulp)?;
            for pi in 0..pi_n {
                let op = self.set_emis(s, &h.s, pi);
                run_step(h, gh, op)?;
                if s.chance(7, 8) {
                    run_step(h, gh, Op::PGulp(pi))?;
                }
            }
        }
        if self.p.emis > 6 && pi_n + r.fakes.len() > 1 && s.chance(1, 8) {
            // hardly anything of the first pool's deposits stays unqueued: batches below one BLND
            let p = r.pools[0];
            let leave = h.s.pb(p).shares / pow10(s.range(2, 6) as u32);
            for u in r.users.clone() {
                let amt = h.s.ub(p, u).shares - leave;
                if amt > 0 {
                    run_step(h, gh, Op::Que { u, p, amt })?;
                }
            }
            for _ in 0..s.range(1, 2) {
                let dt = s.range(3_601, 9_000);
                run_step(h, gh, Op::Time(dt, (dt / 5).min(500) as u32))?;
                run_step(h, gh, Op::Dist)?;
                run_step(h, gh, Op::BGulp)?;
                run_step(h, gh, Op::PGulp(0))?;
            }
        }
        if s.below(8) < self.p.lend {
            // liquidity
            for pi in 0..pi_n {
                for t in h.s.pools[pi].list.clone() {
                    for u in r.users.iter().take(2) {
                        if s.chance(5, 6) {
                            let a = self.supply_amt(s, t);
                            let ty = if s.chance(1, 3) { 0 } else { 2 };
                            run_step(h, gh, self.one(pi, *u, ty, t, a))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// several debtors whose collateral loses its value and is auctioned off
    pub fn ruin(&mut self, s: &mut Src, h: &mut H, gh: &mut dyn Ghost) -> Result<(), Fail> {
        let r = h.w.r.clone();
        s.span();
        let pi = self.pi(s, h);
        let usable: Vec<T> =
            h.s.pools[pi].list.iter().copied().filter(|t| h.s.pools[pi].cfg[t].c_factor >= 1_000_000).collect();
        if usable.is_empty() {
            return Ok(());
        }
        let ct = *s.pick(&usable);
        let n = s.range(1, r.users.len() as u64 - 1) as usize;
        let victims: Vec<A> = r.users[1..].iter().copied().take(n).collect();
        for u in victims.iter() {
            let amt = match s.below(8) {
                0 => s.log_int(100 * pow10(self.decimals(ct))),
                _ => s.range(1, 100) as i128 * 100 * pow10(self.decimals(ct)),
            };
            let sup = Req { t: 2, addr: RA::T(ct), amt };
            let mut cur = match model::submit(&h.s, &r, pi, *u, *u, *u, &[sup.clone()]) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let mut reqs = vec![sup];
            let k = s.range(1, 6) as i128;
            for t in h.s.pools[pi].list.clone() {
                if t == ct || s.chance(1, 4) {
                    continue;
                }
                let liq = match cur.pools[pi].fresh(t, cur.ts) {
                    Ok((_, d)) => (supply_assets(&d) - debt_assets(&d)).max(0),
                    Err(_) => continue,
                };
                let m = search(liq, &mut |x| {
                    x == 0 || model::submit(&cur, &r, pi, *u, *u, *u, &[Req { t: 4, addr: RA::T(t), amt: x }]).is_ok()
                });
                let q = Req { t: 4, addr: RA::T(t), amt: m / k };
                if let Ok(x) = model::submit(&cur, &r, pi, *u, *u, *u, &[q.clone()]) {
                    cur = x;
                    reqs.push(q);
                }
            }
            run_step(h, gh, Op::Submit { p: pi, from: *u, spender: *u, to: *u, reqs })?;
        }
        if s.chance(1, 3) {
            // interest for the backstop
            let t = *s.pick(&[86_400u64, 30 * 86_400, 365 * 86_400]);
            run_step(h, gh, Op::Time(t, 100))?;
            for t in h.s.pools[pi].list.clone() {
                if let Some(x) = h.s.price.get(&t).copied() {
                    let ts = h.s.ts;
                    run_step(h, gh, Op::Price(t, x.0, ts))?;
                }
            }
        }
        let old = match h.s.price.get(&ct) {
            Some(x) => x.0,
            None => return Ok(()),
        };
        let ts = h.s.ts;
        run_step(h, gh, Op::Price(ct, (old / *s.pick(&[1000i128, 100, 20, 1_000_000])).max(1), ts))?;
        for u in victims.iter() {
            if s.chance(7, 8) {
                run_step(h, gh, Op::NewLiq(pi, *u, 100))?;
            }
        }
        let db = *s.pick(&[401u32, 400, 300, 390]);
        run_step(h, gh, Op::Time(db as u64 * 5, db))?;
        for u in victims.iter() {
            if s.chance(7, 8) && h.s.pools[pi].auc.contains_key(&(*u, 0)) {
                let mut reqs = vec![Req { t: 6, addr: RA::A(*u), amt: 100 }];
                for t in usable.iter().filter(|t| **t != ct) {
                    reqs.insert(0, Req { t: 2, addr: RA::T(*t), amt: 100_000 * pow10(self.decimals(*t)) });
                }
                let f = r.users[0];
                run_step(h, gh, Op::Submit { p: pi, from: f, spender: f, to: f, reqs })?;
            }
        }
        if s.chance(1, 5) {
            let n = *s.pick(&[4u32, 2, 3]);
            run_step(h, gh, Op::SetStatus(pi, n))?;
        }
        if s.chance(1, 8) {
            // next to nothing left in the backstop
            let p = r.pools[pi];
            let have = h.s.pb(p).tokens;
            let amt = (have - s.log_int(10 * S7)).max(0);
            run_step(h, gh, Op::Draw { p, amt, to: r.users[0] })?;
        }
        Ok(())
    }
    /// few shares left of a pool's backstop, and much donated to them
    pub fn inflate(&mut self, s: &mut Src, h: &mut H, gh: &mut dyn Ghost) -> Result<(), Fail> {
        s.span();
        let ps: Vec<A> = h.w.r.pools.iter().chain(h.w.r.fakes.iter()).copied().collect();
        let p = *s.pick(&ps);
        let v: Vec<A> = h.s.back.ub.iter().filter(|((q, _), x)| *q == p && x.shares > 1000).map(|x| x.0 .1).collect();
        for u in v.iter() {
            let amt = h.s.ub(p, *u).shares;
            run_step(h, gh, Op::Que { u: *u, p, amt })?;
        }
        run_step(h, gh, Op::Time(1_814_400, 500))?;
        for (k, u) in v.iter().enumerate() {
            let all: i128 = h.s.ub(p, *u).q.iter().map(|x| x.0).sum();
            let left = if k == 0 { s.log_int(1000) } else { s.log_int(20) - 1 };
            run_step(h, gh, Op::Wd { u: *u, p, amt: all - left })?;
            if left > 0 && s.chance(7, 8) {
                run_step(h, gh, Op::Deq { u: *u, p, amt: left })?;
            }
        }
        let u = *s.pick(&h.w.r.users);
        let w = h.s.b(h.w.r.lp, u).max(1);
        let amt = if s.chance(1, 2) { w / 2 } else { s.log_int(w) };
        run_step(h, gh, Op::Donate { u, p, amt })?;
        if self.p.emis > 0 && s.chance(2, 3) {
            for _ in 0..s.range(1, 3) {
                let from = if v.is_empty() { u } else { *s.pick(&v) };
                run_step(h, gh, Op::BClaim { from, pools: if s.chance(1, 2) { vec![p] } else { ps.clone() }, to: from })?;
                run_step(h, gh, Op::Time(s.range(1, 20), 1))?;
            }
        }
        for t in self.cand.clone() {
            if let (Some(x), true) = (h.s.price.get(&t).copied(), s.chance(3, 4)) {
                let ts = h.s.ts;
                run_step(h, gh, Op::Price(t, x.0, ts))?;
            }
        }
        Ok(())
    }
    /// queue about as many withdrawals as may be queued, and let some of them expire
    pub fn long(&mut self, s: &mut Src, h: &mut H, gh: &mut dyn Ghost) -> Result<(), Fail> {
        s.span();
        let v: Vec<(A, A)> = h.s.back.ub.iter().filter(|(_, x)| x.shares > 1000).map(|x| *x.0).collect();
        if v.is_empty() {
            return Ok(());
        }
        let (p, u) = *s.pick(&v);
        let n = s.range(17, 22);
        for _ in 0..n {
            let sh = h.s.ub(p, u).shares;
            let amt = match s.below(4) {
                0 => s.range(1, 20) as i128,
                1 => s.log_int((sh / 4).max(1)),
                _ => sh / s.range(20, 60) as i128,
            };
            if s.chance(1, 3) {
                let d = *s.pick(&[0u64, 5, 86400, 3600, 1, 172_800]);
                run_step(h, gh, Op::Time(d, 1))?;
            }
            run_step(h, gh, Op::Que { u, p, amt: amt.max(1) })?;
        }
        if s.chance(3, 4) {
            let q = h.s.ub(p, u).q;
            if q.is_empty() {
                return Ok(());
            }
            let k = s.below(q.len() as u64) as usize;
            let dt = (q[k].1 + s.below(3)).saturating_sub(h.s.ts + 1);
            run_step(h, gh, Op::Time(dt, 10))?;
        }
        for _ in 0..s.range(1, 5) {
            let ub = h.s.ub(p, u);
            let amt = s.range(1, 100) as i128;
            let first = ub.q.first().map(|x| x.0).unwrap_or(1);
            let op = match s.below(4) {
                0 | 1 => Op::Que { u, p, amt },
                2 => Op::Wd { u, p, amt: if s.chance(1, 2) { first } else { first + amt } },
                _ => Op::Deq { u, p, amt: if s.chance(1, 2) { amt } else { first + amt } },
            };
            run_step(h, gh, op)?;
        }
        Ok(())
    }
    pub fn supply_amt(&self, s: &mut Src, t: T) -> i128 {
        let u = pow10(self.decimals(t));
        match s.below(6) {
            0 => s.log_int(1000 * u),
            1 => 1000 * u,
            2 => s.irange(1, 100_000 * u),
            3 => s.log_int(1_000_000 * u),
            4 => 12_345 * u + s.below(1000) as i128,
            _ => s.range(1, 50) as i128 * 1000 * u,
        }
    }
    pub fn one(&self, pi: usize, u: A, ty: u32, t: T, amt: i128) -> Op {
        Op::Submit { p: pi, from: u, spender: u, to: u, reqs: vec![Req { t: ty, addr: RA::T(t), amt }] }
    }
    fn parties(&self, s: &mut Src, h: &H, pi: usize, u: A) -> (A, A) {
        let r = &h.w.r;
        if s.chance(1, 5) {
            let mut any = r.users.clone();
            any.push(r.admin);
            if s.below(100) < self.p.odd {
                any.push(r.pools[pi]);
                any.push(r.backstop);
            }
            (*s.pick(&any), *s.pick(&any))
        } else {
            (u, u)
        }
    }
    fn user(&self, s: &mut Src, h: &H) -> A {
        *s.pick(&h.w.r.users)
    }
    fn pi(&self, s: &mut Src, h: &H) -> usize {
        s.below(h.w.r.pools.len() as u64) as usize
    }
    fn back_pool(&self, s: &mut Src, h: &H) -> A {
        let r = &h.w.r;
        let mut v = r.pools.clone();
        v.extend(&r.fakes);
        if s.below(100) < self.p.odd {
            v.push(r.non_pool);
        }
        *s.pick(&v)
    }

    pub fn req(&self, s: &mut Src, st: &S, pi: usize, u: A, kind: u32, r: &Roles) -> Option<Req> {
        let p = &st.pools[pi];
        if p.list.is_empty() {
            return None;
        }
        let pos = p.posn(u);
        let mut t = *s.pick(&p.list);
        // prefer reserves where the request means something
        let want = |t: &T| {
            let i = p.cfg[t].index;
            match kind {
                1 => pos.sg(i) > 0,
                3 => pos.cg(i) > 0,
                5 => pos.lg(i) > 0,
                4 => p.data[t].b_supply > 0,
                _ => true,
            }
        };
        let good: Vec<T> = p.list.iter().copied().filter(|t| want(t)).collect();
        if !good.is_empty() && s.chance(15, 16) {
            t = *s.pick(&good);
        } else if good.is_empty() && matches!(kind, 1 | 3 | 5) && s.chance(14, 16) {
            return None;
        }
        let (c, d) = p.fresh(t, st.ts).ok()?;
        let i = c.index;
        let amt = match kind {
            0 | 2 => {
                if s.chance(1, 8) {
                    // around the smallest amount worth a share
                    (d.b_rate / S9) + s.below(3) as i128 - 1
                } else {
                    self.supply_amt(s, t)
                }
            }
            1 | 3 => {
                let sh = if kind == 1 { pos.sg(i) } else { pos.cg(i) };
                let v = mdf(sh, d.b_rate, S9);
                if kind == 3 && !pos.l.is_empty() && s.chance(1, 2) {
                    let m = search(v, &mut |x| {
                        x == 0 || model::submit(st, r, pi, u, u, u, &[Req { t: 3, addr: RA::T(t), amt: x }]).is_ok()
                    });
                    m + s.below(5) as i128 - 2
                } else if s.chance(1, 6) {
                    i64::MAX as i128
                } else {
                    near(s, v)
                }
            }
            4 => {
                let liq = supply_assets(&d) - debt_assets(&d);
                match s.below(4) {
                    0 | 1 => {
                        let m = search(liq.max(0), &mut |x| {
                            x == 0 || model::submit(st, r, pi, u, u, u, &[Req { t: 4, addr: RA::T(t), amt: x }]).is_ok()
                        });
                        match s.below(4) {
                            0 => m + s.below(5) as i128 - 2,
                            1 => m,
                            2 => m * 9 / 10,
                            _ => part(s, m),
                        }
                    }
                    2 => near(s, liq),
                    _ => part(s, liq.max(0) / 4),
                }
            }
            5 => {
                let v = mdc(pos.lg(i), d.d_rate, S9);
                if s.chance(1, 6) {
                    (v * 2).min(1_000_000 * pow10(c.decimals))
                } else {
                    near(s, v)
                }
            }
            _ => return None,
        };
        Some(Req { t: kind, addr: RA::T(t), amt: amt.max(if s.below(100) < self.p.odd { -1 } else { 0 }) })
    }

    fn percent(&self, s: &mut Src) -> i128 {
        if s.below(100) < self.p.odd {
            *s.pick(&[0, 101, 200, (1i128 << 64) + 50, i64::MAX as i128, (1i128 << 64) + 100, 1i128 << 64])
        } else {
            match s.below(6) {
                0 => 100,
                1 => 50,
                2 => 1,
                3 => 99,
                4 => 100,
                _ => s.range(1, 100) as i128,
            }
        }
    }

    fn fill(&self, s: &mut Src, h: &H, ty: u32) -> Option<Op> {
        let st = &h.s;
        let mut c: Vec<(usize, A)> = vec![];
        for (pi, p) in st.pools.iter().enumerate() {
            for ((a, t), _) in p.auc.iter() {
                if *t == ty {
                    c.push((pi, *a));
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (pi, who) = *s.pick(&c);
        let mut u = self.user(s, h);
        if u == who && !(s.below(100) < self.p.odd) {
            u = *h.w.r.users.iter().find(|x| **x != who)?;
        }
        if ty > 0 && s.below(100) < self.p.odd {
            u = h.w.r.backstop;
        }
        let pct = self.percent(s);
        let f = Req { t: 6 + ty, addr: RA::A(who), amt: pct };
        let mut reqs = vec![f.clone()];
        let (sp, to) = if s.chance(1, 8) { self.parties(s, h, pi, u) } else { (u, u) };
        let mk = |reqs: Vec<Req>| Op::Submit { p: pi, from: u, spender: sp, to, reqs };
        if s.chance(1, 4) {
            // as the rules see it, is collateral needed?
            return Some(mk(reqs));
        }
        if model::submit(st, &h.w.r, pi, u, sp, to, &reqs) == Err(Rej("hf")) || s.chance(1, 5) {
            let p = &st.pools[pi];
            for t in p.list.iter() {
                if p.cfg[t].c_factor > 0 && s.chance(3, 4) {
                    reqs.insert(0, Req { t: 2, addr: RA::T(*t), amt: 500_000 * pow10(self.decimals(*t)) });
                }
            }
        }
        if s.chance(1, 4) {
            // use what was taken over in the same batch
            let p = &st.pools[pi];
            let a = &p.auc[&(who, ty)];
            let t = if s.chance(1, 2) { a.bid.keys().next() } else { a.lot.keys().next() };
            if let Some(t) = t {
                if p.cfg.contains_key(t) {
                    let amt = self.supply_amt(s, *t);
                    reqs.push(Req { t: if s.chance(1, 2) { 5 } else { 3 }, addr: RA::T(*t), amt });
                }
            }
        }
        if s.chance(1, 6) {
            let again = Req { amt: self.percent(s), ..f };
            reqs.push(again);
        } else if s.chance(1, 12) {
            // leave next to nothing of it
            for q in reqs.iter_mut() {
                if q.t == f.t {
                    q.amt = 99;
                }
            }
            for _ in 0..s.range(1, 3) {
                reqs.push(Req { amt: 99, ..f.clone() });
            }
            if s.chance(1, 2) {
                reqs.push(Req { amt: 1, ..f.clone() });
            }
            if ty == 0 && s.chance(1, 2) {
                // what is left may be debt and a trace of collateral
                self.todo.borrow_mut().push_back(Op::BadDebt(pi, who));
            }
        }
        Some(mk(reqs))
    }

    fn set_emis(&self, s: &mut Src, st: &S, pi: usize) -> Op {
        let n = st.pools[pi].list.len() as u32;
        let mut v = vec![];
        let k = s.range(0, 4);
        let mut left: u64 = S7 as u64;
        for _ in 0..k {
            let idx = if n == 0 || s.below(100) < self.p.odd { s.below(4) as u32 } else { s.below(n as u64) as u32 };
            let ty = if s.below(100) < self.p.odd { 2 } else { s.below(2) as u32 };
            let sh = if s.below(100) < self.p.odd {
                *s.pick(&[left + 1, u64::MAX / 8, 10_000_001])
            } else {
                let a = if s.chance(1, 8) { 0 } else { s.irange(0, left as i128) as u64 };
                left -= a;
                a
            };
            v.push((idx, ty, sh));
        }
        Op::SetEmis(pi, v)
    }

    /// interesting instants ahead
    fn targets(&self, st: &S) -> Vec<u64> {
        let mut v = vec![];
        for p in st.pools.iter() {
            v.extend(p.ecfg.values().map(|x| x.0));
            v.extend(p.queued.values().map(|x| x.1));
        }
        for b in st.back.pb.values() {
            v.extend(b.ecfg.map(|x| x.0));
        }
        for u in st.back.ub.values() {
            v.extend(u.q.iter().map(|x| x.1));
        }
        v.extend(st.emit.swap.map(|x| x.2));
        v.push(st.back.last + DAY);
        v.extend(st.price.values().map(|x| x.1 + DAY));
        v.retain(|x| *x + 1 >= st.ts && *x < st.ts + 60 * DAY);
        v
    }
    pub fn time(&self, s: &mut Src, st: &S) -> Op {
        let tg = self.targets(st);
        if !tg.is_empty() && s.chance(1, 3) {
            let t = *s.pick(&tg) as i128 + s.below(3) as i128 - 1;
            let dt = (t - st.ts as i128).max(0) as u64;
            return Op::Time(dt, (dt / 5).min(500) as u32);
        }
        let max = match self.p.pace {
            0 => 3_600,
            1 => 10 * DAY,
            _ => 60 * DAY,
        };
        let dt = match s.below(8) {
            0 => 0,
            1 => 5,
            2 => 3_601,
            3 => DAY / 2,
            4 => max,
            _ => s.log_int(max as i128) as u64,
        };
        let dt = if s.below(64) >= 64 - self.p.pace - 1 {
            // left alone for very long
            s.range(30, 1_500) * DAY + s.below(DAY)
        } else {
            dt
        };
        Op::Time(dt, if s.chance(1, 6) { 0 } else { (dt / 5).min(500) as u32 })
    }

    pub fn make(&self, s: &mut Src, h: &H, k: K) -> Option<Op> {
        let st = &h.s;
        let r = &h.w.r;
        let u = self.user(s, h);
        let pi = self.pi(s, h);
        Some(match k {
            K::Time => self.time(s, st),
            K::Price => {
                let t = *s.pick(&self.cand);
                let mut p = self.price(s, st.odec);
                if s.below(32) == 31 {
                    p = s.below(2) as i128;
                }
                let ts = match s.below(8) {
                    0 => st.ts - DAY,
                    1 => st.ts - DAY + 1,
                    2 => st.ts - DAY - 1,
                    3 => st.ts - s.below(2 * DAY),
                    _ => st.ts,
                };
                if s.below(100) < self.p.odd {
                    return Some(Op::NoPrice(t));
                }
                Op::Price(t, p, ts)
            }
            K::Feed => {
                let old: Vec<T> = self
                    .cand
                    .iter()
                    .copied()
                    .filter(|t| st.price.get(t).map(|x| x.1 + DAY < st.ts).unwrap_or(true))
                    .collect();
                if old.is_empty() {
                    return None;
                }
                let t = *s.pick(&old);
                let p = st.price.get(&t).map(|x| x.0).unwrap_or(pow10(st.odec));
                Op::Price(t, p, st.ts)
            }
            K::Supply | K::SupplyC | K::Withdraw | K::WithdrawC | K::Borrow | K::Repay => {
                let ty = (k as usize - K::Supply as usize) as u32;
                let q = self.req(s, st, pi, u, ty, r)?;
                let (sp, to) = self.parties(s, h, pi, u);
                Op::Submit { p: pi, from: u, spender: sp, to, reqs: vec![q] }
            }
            K::Batch => {
                let n = s.range(2, 5);
                let mut reqs = vec![];
                let mut cur = st.clone();
                for _ in 0..n {
                    let ty = *s.pick(&[2u32, 4, 5, 3, 1, 0]);
                    // later requests are generated from what earlier ones lead to
                    if let Some(q) = self.req(s, &cur, pi, u, ty, r) {
                        if let Ok(n) = model::submit(&cur, r, pi, u, u, u, &[q.clone()]) {
                            cur = n;
                        }
                        reqs.push(q);
                    }
                }
                if reqs.is_empty() {
                    return None;
                }
                let (sp, to) = self.parties(s, h, pi, u);
                Op::Submit { p: pi, from: u, spender: sp, to, reqs }
            }
            K::Mix => {
                let p = &st.pools[pi];
                if p.list.is_empty() {
                    return None;
                }
                let own: Vec<A> = r.users.iter().copied().filter(|x| p.auc.contains_key(&(*x, 0))).collect();
                let u = if !own.is_empty() && s.chance(1, 2) { *s.pick(&own) } else { u };
                let pos = p.posn(u);
                let mut reqs: Vec<Req> = vec![];
                if p.auc.contains_key(&(u, 0)) && s.chance(7, 8) {
                    // make sure of good health and drop the auction
                    let repay = s.chance(1, 2);
                    for t in p.list.iter() {
                        if repay && pos.lg(p.cfg[t].index) > 0 {
                            reqs.push(Req { t: 5, addr: RA::T(*t), amt: mdc(pos.lg(p.cfg[t].index), p.data[t].d_rate, S9) * 2 / 3 });
                        } else if !repay && p.cfg[t].c_factor > 0 && pos.cg(p.cfg[t].index) > 0 {
                            reqs.push(Req { t: 2, addr: RA::T(*t), amt: 500_000 * pow10(self.decimals(*t)) });
                        }
                    }
                    reqs.push(Req { t: 9, addr: RA::A(u), amt: 0 });
                }
                let ok = |reqs: &[Req]| model::submit(st, r, pi, u, u, u, reqs);
                let mut cur = ok(&reqs).unwrap_or_else(|_| st.clone());
                let n = s.range(2, 5);
                for _ in 0..n {
                    let now = cur.pools[pi].posn(u);
                    let q = match s.below(8) {
                        0 | 1 => {
                            let v: Vec<(A, u32)> = cur.pools[pi].auc.keys().copied().filter(|x| x.0 != u).collect();
                            if v.is_empty() {
                                None
                            } else {
                                let (a, ty) = *s.pick(&v);
                                Some(Req { t: 6 + ty, addr: RA::A(a), amt: self.percent(s) })
                            }
                        }
                        2 | 3 => {
                            // open a position
                            let l = s.chance(1, 2);
                            let v: Vec<T> = p
                                .list
                                .iter()
                                .copied()
                                .filter(|t| if l { now.lg(p.cfg[t].index) == 0 } else { now.cg(p.cfg[t].index) == 0 })
                                .collect();
                            if v.is_empty() {
                                None
                            } else {
                                let t = *s.pick(&v);
                                let amt = if l { s.range(1, 1000) as i128 } else { self.supply_amt(s, t) };
                                Some(Req { t: if l { 4 } else { 2 }, addr: RA::T(t), amt })
                            }
                        }
                        4 => {
                            // close one
                            let ty = *s.pick(&[3u32, 5, 1]);
                            self.req(s, &cur, pi, u, ty, r).map(|q| {
                                let amt = match (ty, q.addr) {
                                    (5, RA::T(t)) => mdc(now.lg(p.cfg[&t].index), p.data[&t].d_rate, S9) * 11 / 10 + 2,
                                    _ => i64::MAX as i128,
                                };
                                Req { amt, ..q }
                            })
                        }
                        _ => {
                            let ty = *s.pick(&[2u32, 4, 5, 3, 1, 0]);
                            self.req(s, &cur, pi, u, ty, r)
                        }
                    };
                    if let Some(q) = q {
                        reqs.push(q);
                        match ok(&reqs) {
                            Ok(n) => cur = n,
                            Err(_) => {
                                if s.chance(3, 4) {
                                    reqs.pop();
                                }
                            }
                        }
                    }
                }
                if reqs.is_empty() {
                    return None;
                }
                let (sp, to) = if s.chance(1, 4) { self.parties(s, h, pi, u) } else { (u, u) };
                Op::Submit { p: pi, from: u, spender: sp, to, reqs }
            }
            K::Weird => {
                let n = s.range(1, 3);
                let mut reqs = vec![];
                for _ in 0..n {
                    let t = s.below(13) as u32;
                    let addr = if s.chance(1, 2) {
                        RA::T(s.below(h.w.assets.len() as u64) as usize)
                    } else {
                        RA::A(s.below(h.w.actors.len() as u64) as usize)
                    };
                    let amt = match s.below(6) {
                        0 => 0,
                        1 => -1,
                        2 => -(s.log_int(1 << 60)),
                        3 => s.range(1, 100) as i128,
                        _ => s.log_int(1 << 50),
                    };
                    reqs.push(Req { t, addr, amt });
                }
                if s.chance(1, 2) {
                    // an otherwise valid request with a type beyond the known ones, or a negative amount
                    let kind = *s.pick(&[2u32, 0, 4, 5, 3, 1, 6, 7, 8, 9]);
                    let q = if kind < 6 {
                        self.req(s, st, pi, u, kind, r)
                    } else {
                        let ty = if kind == 9 { 0 } else { kind - 6 };
                        let v: Vec<A> = st.pools[pi].auc.keys().filter(|x| x.1 == ty).map(|x| x.0).collect();
                        if v.is_empty() {
                            None
                        } else {
                            let amt = if kind == 9 { 0 } else { s.range(1, 100) as i128 };
                            Some(Req { t: kind, addr: RA::A(*s.pick(&v)), amt })
                        }
                    };
                    if let Some(mut q) = q {
                        if s.chance(1, 3) {
                            q.amt = -q.amt.abs().max(1);
                        } else {
                            q.t = *s.pick(&[256, 512, 1 << 16, 1 << 31, 1 << 8 | 16, 10, 16, 32]) + q.t;
                        }
                        if s.chance(1, 2) {
                            reqs = vec![q];
                        } else {
                            reqs.push(q);
                        }
                    }
                } else if s.chance(1, 2) {
                    if let Some(q) = self.req(s, st, pi, u, 2, r) {
                        reqs.insert(0, q);
                    }
                }
                let (sp, to) = self.parties(s, h, pi, u);
                Op::Submit { p: pi, from: u, spender: sp, to, reqs }
            }
            K::Crash => {
                // move one price so that a debtor's health lands near a chosen level
                let p = &st.pools[pi];
                let debtors: Vec<A> =
                    p.pos.iter().filter(|(a, x)| **a != r.backstop && !x.l.is_empty() && !x.c.is_empty()).map(|x| *x.0).collect();
                if debtors.is_empty() {
                    return None;
                }
                let a = *s.pick(&debtors);
                let pos = p.posn(a);
                let hl = health(st, p, &pos).ok()?;
                if hl.debt == 0 || hl.col == 0 {
                    return None;
                }
                let lvl = *s.pick(&[95i128, 80, 100, 105, 60, 30, 110, 5]);
                let side = s.chance(1, 2);
                let m = if side { &pos.l } else { &pos.c };
                let keys: Vec<u32> = m.keys().copied().collect();
                let t = p.list[*s.pick(&keys) as usize];
                let old = st.price.get(&t)?.0;
                // ratio wanted/current
                let cur = mdf(hl.col, 10_000, hl.debt).max(1);
                let new = if side { mdf(old, cur, lvl * 100) } else { mdf(old, lvl * 100, cur) };
                let cap = pow10(st.odec) * 100_000;
                Op::Price(t, new.clamp(1, cap), st.ts)
            }
            K::NewLiq => {
                let p = &st.pools[pi];
                let all: Vec<A> = p.pos.keys().copied().collect();
                if all.is_empty() {
                    return None;
                }
                let bad: Vec<A> = all
                    .iter()
                    .copied()
                    .filter(|a| {
                        let x = p.posn(*a);
                        *a != r.backstop
                            && !x.l.is_empty()
                            && health(st, p, &x).map(|h| h.debt >= h.col).unwrap_or(false)
                            && !p.auc.contains_key(&(*a, 0))
                    })
                    .collect();
                let a = if !bad.is_empty() && s.chance(12, 13) { *s.pick(&bad) } else { *s.pick(&all) };
                let ok: Vec<u64> = (1..=100)
                    .filter(|x| {
                        let good = model::apply(st, r, &Op::NewLiq(pi, a, *x)).is_ok();
                        good
                    })
                    .collect();
                let pct = if !ok.is_empty() && s.chance(2, 3) {
                    *s.pick(&ok)
                } else if !ok.is_empty() && s.chance(1, 2) {
                    if s.chance(1, 2) {
                        ok[0].saturating_sub(1)
                    } else {
                        ok[ok.len() - 1] + 1
                    }
                } else if s.below(100) < self.p.odd {
                    *s.pick(&[0, 101, u64::MAX, 1 << 32, 200, 256 + 50, (1 << 32) + 50, (1 << 32) + 100, 1 << 63])
                } else {
                    s.range(1, 100)
                };
                Op::NewLiq(pi, a, pct)
            }
            K::AucTime => {
                let v: Vec<u32> = st.pools.iter().flat_map(|p| p.auc.values().map(|a| a.block)).collect();
                if v.is_empty() {
                    return None;
                }
                let b = *s.pick(&v);
                let k = *s.pick(&[200u32, 100, 300, 1, 199, 201, 399, 400, 401, 0, 50, 250, 350, 137, 263, 1000, 398, 395]);
                let to = b + k;
                if to <= st.seq {
                    return None;
                }
                let db = to - st.seq;
                Op::Time(if s.chance(1, 4) { 0 } else { db as u64 * 5 }, db)
            }
            K::FillLiq => self.fill(s, h, 0)?,
            K::FillBda => self.fill(s, h, 1)?,
            K::FillInt => self.fill(s, h, 2)?,
            K::DelLiq => {
                let p = &st.pools[pi];
                let v: Vec<A> = p.auc.keys().filter(|x| x.1 == 0).map(|x| x.0).collect();
                let a = if v.is_empty() || s.chance(1, 16) { u } else { *s.pick(&v) };
                if v.is_empty() && s.chance(7, 8) {
                    return None;
                }
                let mut reqs = vec![Req { t: 9, addr: RA::A(a), amt: 0 }];
                if s.chance(1, 4) {
                    // leave with the collateral, or owe more, around the deletion
                    let pos = p.posn(a);
                    let mut more = vec![];
                    if s.chance(2, 3) {
                        for t in p.list.iter() {
                            if pos.cg(p.cfg[t].index) > 0 && s.chance(7, 8) {
                                more.push(Req { t: 3, addr: RA::T(*t), amt: i64::MAX as i128 });
                            }
                        }
                    } else if let Some(q) = self.req(s, st, pi, a, 4, r) {
                        more.push(q);
                    }
                    if s.chance(1, 3) {
                        if let Some(q) = self.req(s, st, pi, a, 5, r) {
                            more.insert(0, q);
                        }
                    }
                    if s.chance(1, 2) {
                        more.append(&mut reqs);
                        reqs = more;
                    } else {
                        reqs.append(&mut more);
                    }
                } else if s.chance(1, 2) {
                    let ty = *s.pick(&[5u32, 2]);
                    if let Some(mut q) = self.req(s, st, pi, a, ty, r) {
                        if ty == 2 {
                            q.amt = 500_000 * pow10(self.decimals(if let RA::T(t) = q.addr { t } else { 0 }));
                        }
                        if s.chance(1, 2) {
                            reqs.insert(0, q);
                        } else {
                            reqs.push(q);
                        }
                    }
                }
                if s.chance(1, 10) {
                    reqs.remove(0);
                    if reqs.is_empty() {
                        return None;
                    }
                }
                Op::Submit { p: pi, from: a, spender: a, to: a, reqs }
            }
            K::BadDebt => {
                let p = &st.pools[pi];
                let v: Vec<A> =
                    p.pos.iter().filter(|(a, x)| **a != r.backstop && !x.l.is_empty() && x.c.is_empty()).map(|x| *x.0).collect();
                if !v.is_empty() && s.chance(9, 10) {
                    Op::BadDebt(pi, *s.pick(&v))
                } else if s.chance(1, 4) {
                    let all: Vec<A> = p.pos.keys().copied().collect();
                    if all.is_empty() {
                        return None;
                    }
                    Op::BadDebt(pi, *s.pick(&all))
                } else {
                    return None;
                }
            }
            K::NewBda => {
                if !st.pools[pi].pos.contains_key(&r.backstop) && s.chance(7, 8) {
                    return None;
                }
                Op::NewBda(pi)
            }
            K::NewInt => {
                let p = &st.pools[pi];
                let mut v: Vec<T> = vec![];
                for t in p.list.iter() {
                    if s.chance(3, 4) {
                        v.push(*t);
                    }
                }
                if v.is_empty() {
                    return None;
                }
                if s.below(100) < self.p.odd * 3 {
                    let t = *s.pick(&v);
                    v.push(t);
                }
                if s.chance(1, 2) {
                    v.reverse();
                }
                if s.chance(1, 5) {
                    // worth just as much as it must exceed, or one more or less
                    let mut other = 0;
                    let mut on: Vec<(T, i128, u32)> = vec![];
                    for t in v.iter() {
                        if let (Ok((c, d)), Some(pr)) = (p.fresh(*t, st.ts), st.price.get(t)) {
                            if d.credit > 0 && !on.iter().any(|x| x.0 == *t) {
                                on.push((*t, d.credit, c.decimals));
                                other += mdf(pr.0, d.credit, pow10(c.decimals));
                            }
                        }
                    }
                    if !on.is_empty() {
                        let (t, credit, dec) = *s.pick(&on);
                        other -= mdf(st.price[&t].0, credit, pow10(dec));
                        let goal = 200 * pow10(st.odec) + s.below(3) as i128 - 1 - other;
                        let pr = mdc(goal, pow10(dec), credit);
                        if goal > 0 && pr > 0 && pr < 1 << 90 {
                            self.todo.borrow_mut().push_back(Op::NewInt(pi, v));
                            return Some(Op::Price(t, pr, st.ts));
                        }
                    }
                }
                Op::NewInt(pi, v)
            }
            K::UpdStatus => Op::UpdStatus(pi),
            K::SetStatus => {
                let v = if s.below(100) < self.p.odd {
                    *s.pick(&[256u32, 258, 259, 260, u32::MAX, 8, 1 << 16, 7])
                } else {
                    *s.pick(&[0u32, 2, 3, 4, 1, 5, 6, 7])
                };
                Op::SetStatus(pi, v)
            }
            K::UpdPool => {
                let rate = match s.below(4) {
                    0 => 9_999_999,
                    1 => s.below(10_000_000) as u32,
                    2 if s.below(100) < self.p.odd * 3 => *s.pick(&[10_000_000, 10_000_001, u32::MAX]),
                    _ => 1_000_000,
                };
                Op::UpdPool(pi, rate, *s.pick(&[4u32, 2, 3, 6, 1, 12, 0]))
            }
            K::Queue => {
                let p = &st.pools[pi];
                let t = if s.chance(1, 4) || p.list.is_empty() { *s.pick(&self.cand) } else { *s.pick(&p.list) };
                let c = match p.cfg.get(&t) {
                    Some(c) if s.chance(7, 8) => {
                        let odd = s_odd(self, s);
                        mutate_rcfg(s, c, odd)
                    }
                    _ => {
                        let c = rand_rcfg(s, self.decimals(t), 0);
                        if s_odd(self, s) {
                            mutate_rcfg(s, &c, true)
                        } else {
                            c
                        }
                    }
                };
                Op::QueueRes(pi, t, c)
            }
            K::Cancel => {
                let q: Vec<T> = st.pools[pi].queued.keys().copied().collect();
                if q.is_empty() {
                    return None;
                }
                Op::CancelRes(pi, *s.pick(&q))
            }
            K::SetRes => {
                let q: Vec<T> = st.pools[pi].queued.keys().copied().collect();
                if q.is_empty() && s.chance(9, 10) {
                    return None;
                }
                let t = if q.is_empty() { *s.pick(&self.cand) } else { *s.pick(&q) };
                Op::SetRes(pi, t)
            }
            K::PGulp => {
                if st.pb(r.pools[pi]).emis == 0 && s.chance(7, 8) {
                    return None;
                }
                Op::PGulp(pi)
            }
            K::SetEmis => self.set_emis(s, st, pi),
            K::PClaim => {
                let p = &st.pools[pi];
                if p.ecfg.is_empty() && s.chance(7, 8) {
                    return None;
                }
                let n = (p.list.len() * 2) as u64;
                let mut ids = vec![];
                for i in 0..n as u32 {
                    if s.chance(1, 2) {
                        ids.push(i);
                    }
                }
                if s.chance(1, 8) && !ids.is_empty() {
                    let x = *s.pick(&ids);
                    ids.push(x);
                }
                if s.below(100) < self.p.odd {
                    ids.push(n as u32 + s.below(2) as u32);
                }
                let to = if s.chance(1, 4) { self.user(s, h) } else { u };
                Op::PClaim { p: pi, from: u, ids, to }
            }
            K::SetAdmin => Op::SetAdmin(
                pi,
                match s.below(10) {
                    0 => *s.pick(&[r.backstop, r.pools[pi]]),
                    1..=5 => r.admin,
                    _ => u,
                },
            ),
            K::Dep => {
                let p = self.back_pool(s, h);
                let w = st.b(r.lp, u);
                let b = st.pb(p);
                let amt = match s.below(6) {
                    0 => near(s, w),
                    1 => b.tokens / b.shares.max(1) + s.below(3) as i128 - 1,
                    2 => s.log_int(w.max(1)),
                    _ => part(s, w),
                };
                let who = if s.below(100) < self.p.odd { *s.pick(&[r.backstop, p]) } else { u };
                Op::Dep { u: who, p, amt }
            }
            K::Que | K::Deq | K::Wd => {
                let p = self.back_pool(s, h);
                let holders: Vec<(A, A)> = st
                    .back
                    .ub
                    .iter()
                    .filter(|(_, x)| if k == K::Que { x.shares > 0 } else { !x.q.is_empty() })
                    .map(|x| *x.0)
                    .collect();
                let (p, u) = if !holders.is_empty() && s.chance(9, 10) { *s.pick(&holders) } else { (p, u) };
                let ub = st.ub(p, u);
                let tot: i128 = ub.q.iter().map(|x| x.0).sum();
                let exp: i128 = ub.q.iter().take_while(|x| x.1 <= st.ts).map(|x| x.0).sum();
                let first = ub.q.first().map(|x| x.0).unwrap_or(0);
                let amt = match k {
                    K::Que => {
                        if s.chance(1, 3) {
                            ub.shares
                        } else if s.chance(1, 8) {
                            near(s, ub.shares)
                        } else {
                            part(s, ub.shares)
                        }
                    }
                    K::Deq => match s.below(4) {
                        0 => near(s, tot),
                        1 => first + s.below(3) as i128 - 1,
                        _ => part(s, tot),
                    },
                    _ => match s.below(5) {
                        0 => near(s, tot),
                        1 => first + s.below(3) as i128 - 1,
                        2 => exp + s.below(3) as i128 - 1,
                        _ => part(s, exp),
                    },
                };
                let amt = if s.below(100) < self.p.odd { -amt - 1 } else { amt };
                match k {
                    K::Que => Op::Que { u, p, amt },
                    K::Deq => Op::Deq { u, p, amt },
                    _ => Op::Wd { u, p, amt },
                }
            }
            K::Draw => {
                let p = self.back_pool(s, h);
                let b = st.pb(p).tokens;
                let amt = if s.chance(1, 8) { near(s, b) } else { part(s, b) };
                let amt = if s.chance(1, 3) { amt.min(b / 20) } else { amt };
                Op::Draw { p, amt: if s.below(100) < self.p.odd { -amt } else { amt }, to: u }
            }
            K::Donate => {
                let p = self.back_pool(s, h);
                let w = st.b(r.lp, u);
                let amt = if s.chance(1, 8) { near(s, w) } else { s.log_int(w.max(1)) };
                let who = if s.below(100) < self.p.odd { *s.pick(&[r.backstop, p]) } else { u };
                // what these parties could pay, and nothing at all
                let amt = if who != u {
                    *s.pick(&[0, st.b(r.lp, who)])
                } else if s.chance(1, 20) {
                    0
                } else {
                    amt
                };
                Op::Donate { u: who, p, amt: if s.below(100) < self.p.odd { -amt } else { amt } }
            }
            K::BGulp => {
                let el = st.emit.last.get(&r.backstop).copied().unwrap_or(0);
                if el <= st.back.last + 3600 && s.chance(6, 8) {
                    return None;
                }
                Op::BGulp
            }
            K::AddReward => {
                let mut add = self.back_pool(s, h);
                let mut rem = self.back_pool(s, h);
                let rz = &st.back.rz;
                if !rz.is_empty() && s.chance(5, 8) {
                    // an outsider for a smaller member, preferably
                    let out: Vec<A> =
                        r.pools.iter().chain(r.fakes.iter()).copied().filter(|p| !rz.contains(p)).collect();
                    if !out.is_empty() {
                        add = *s.pick(&out);
                        let less: Vec<A> =
                            rz.iter().copied().filter(|p| st.pb(*p).tokens < st.pb(add).tokens).collect();
                        rem = if !less.is_empty() && s.chance(3, 4) { *s.pick(&less) } else { *s.pick(rz) };
                        let max = if st.ts < 1713139200 { 10 } else { 10 + ((st.ts - 1713139200) >> 23) as usize };
                        if !less.is_empty() && rz.len() >= max && s.chance(1, 3) {
                            // the replacement tried around the end of the day the last
                            // distribution allows
                            let dt = match s.below(5) {
                                0 => 86400,
                                1 => 86401,
                                2 => 86399,
                                3 => 86401 + s.below(7200) as u64,
                                _ => 86400 - s.below(7200) as u64,
                            };
                            let mut q = self.todo.borrow_mut();
                            q.push_back(Op::BGulp);
                            q.push_back(Op::Time(dt, (dt / 5).min(500) as u32));
                            q.push_back(Op::AddReward { add, rem });
                            return Some(Op::Dist);
                        }
                    }
                }
                Op::AddReward { add, rem }
            }
            K::BGulpPool => {
                let p = self.back_pool(s, h);
                if r.pools.contains(&p) && s.chance(7, 8) {
                    return None;
                }
                Op::BGulpPool(p)
            }
            K::BClaim => {
                let mut v = vec![];
                for p in r.pools.iter().chain(r.fakes.iter()) {
                    if s.chance(3, 4) {
                        v.push(*p);
                    }
                }
                if s.chance(1, 6) && !v.is_empty() {
                    let x = *s.pick(&v);
                    v.push(x);
                }
                if v.is_empty() && !(s.below(100) < self.p.odd) {
                    return None;
                }
                if s.chance(1, 3) {
                    v.reverse();
                }
                let to = if s.chance(1, 3) { self.user(s, h) } else { u };
                Op::BClaim { from: u, pools: v, to }
            }
            K::UpdTkn => Op::UpdTkn,
            K::BDrop => Op::BDrop,
            K::Dist => Op::Dist,
            K::QSwap => {
                if s.chance(1, 4) {
                    // a swap carried through, also back to a backstop that was replaced
                    let (cur, tok) = (st.emit.backstop, st.emit.token);
                    let mut v: Vec<A> = r.backs.iter().copied().chain([r.backstop]).filter(|a| *a != cur).collect();
                    let back: Vec<A> = v.iter().copied().filter(|a| st.emit.last.contains_key(a)).collect();
                    if !back.is_empty() && s.chance(1, 2) {
                        v = back;
                    }
                    if !v.is_empty() {
                        let mut q = self.todo.borrow_mut();
                        let (c, wait) = match &st.emit.swap {
                            Some((c, _, at)) => (*c, at.saturating_sub(st.ts)),
                            None => (*s.pick(&v), 31 * 86400),
                        };
                        let need = st.b(tok, cur) - st.b(tok, c) + if s.chance(1, 8) { 0 } else { 1 };
                        if st.emit.swap.is_none() {
                            q.push_back(Op::QSwap(c, if s.chance(1, 5) { r.lp2 } else { r.lp }));
                        }
                        let dt = match s.below(4) {
                            0 => wait.saturating_sub(1),
                            1 => wait + s.below(100_000) as u64,
                            _ => wait,
                        };
                        q.push_back(Op::Time(dt, (dt / 5).min(500) as u32));
                        q.push_back(Op::Swap);
                        if s.chance(1, 2) {
                            q.push_back(Op::Time(5, 1));
                            q.push_back(Op::Dist);
                        }
                        return Some(if need > 0 { Op::Mint(tok, c, need) } else { q.pop_front()? });
                    }
                }
                let c = if r.backs.is_empty() || s.chance(1, 8) { u } else { *s.pick(&r.backs) };
                Op::QSwap(c, if s.chance(1, 3) { r.lp2 } else { r.lp })
            }
            K::CSwap => Op::CSwap,
            K::Swap => Op::Swap,
            K::EDrop => {
                let n = if s.chance(1, 6) { s.range(5, 12) } else { s.range(1, 4) };
                let mut v: Vec<(A, i128)> = vec![];
                let mut left = 50_000_000 * S7;
                for _ in 0..n {
                    let a = match s.below(9) {
                        0 => left,
                        1 => left + 1,
                        2 => 25_000_000 * S7,
                        3 if s.below(100) < self.p.odd => -1,
                        4 => left - s.below(3) as i128,
                        5 => s.log_int(left.max(1)),
                        _ => s.log_int((left / 4).max(1)),
                    };
                    left = (left - a).max(0);
                    let who = match s.below(8) {
                        0 if !v.is_empty() => v[s.below(v.len() as u64) as usize].0,
                        1 if !r.backs.is_empty() => *s.pick(&r.backs),
                        2 => r.backstop,
                        3 => r.admin,
                        _ => self.user(s, h),
                    };
                    v.push((who, a));
                }
                if s.chance(1, 8) {
                    let only = v[0].0;
                    for x in v.iter_mut() {
                        x.0 = only;
                    }
                }
                Op::EDrop(v)
            }
            K::LpRate => Op::LpRate(*s.pick(&[10_000_000i128, 1_000_000, 123_456, 25_000_000, 7_777_777])),
            K::Xfer => {
                // LP tokens between accounts (candidate backstops included)
                let mut all = r.users.clone();
                all.extend(&r.backs);
                let a = *s.pick(&all);
                let b = *s.pick(&all);
                if a == b {
                    return None;
                }
                let t = if s.chance(1, 5) { r.lp2 } else { r.lp };
                let amt = part(s, st.b(t, a));
                Op::Xfer(t, a, b, amt)
            }
            K::Mint => {
                let mut all = r.users.clone();
                all.extend(&r.backs);
                let a = *s.pick(&all);
                let t = *s.pick(&[r.lp, r.lp2]);
                // around what decides a swap
                let cur = st.b(st.emit.token, st.emit.backstop);
                let amt = match s.below(4) {
                    0 => s.log_int(100_000 * S7),
                    1 => (cur - st.b(st.emit.token, a)).max(1),
                    2 => (cur - st.b(st.emit.token, a) + 1).max(1),
                    _ => (cur / 2).max(1),
                };
                Op::Mint(t, a, amt)
            }
            K::Lever => {
                let p = &st.pools[pi];
                if p.list.is_empty() {
                    return None;
                }
                let c: Vec<T> = p.list.iter().copied().filter(|t| p.cfg[t].c_factor >= 1_000_000).collect();
                let d: Vec<T> = p
                    .list
                    .iter()
                    .copied()
                    .filter(|t| p.data[t].b_supply > 0 && supply_assets(&p.data[t]) > debt_assets(&p.data[t]))
                    .collect();
                if c.is_empty() || d.is_empty() {
                    return None;
                }
                let ct = *s.pick(&c);
                let mut reqs = vec![];
                let mut cur = st.clone();
                let n = s.range(1, 2);
                for _ in 0..n {
                    let q = Req { t: 2, addr: RA::T(ct), amt: self.supply_amt(s, ct) };
                    if let Ok(x) = model::submit(&cur, r, pi, u, u, u, &[q.clone()]) {
                        cur = x;
                        reqs.push(q);
                    }
                }
                let n = if s.chance(1, 4) { s.range(1, d.len() as u64) } else { s.range(1, 2) };
                for k in 0..n {
                    let dt = if n > 2 { d[k as usize] } else { *s.pick(&d) };
                    let dd = cur.pools[pi].fresh(dt, st.ts).ok()?.1;
                    let liq = (supply_assets(&dd) - debt_assets(&dd)).max(0);
                    let m = search(liq, &mut |x| {
                        x == 0 || model::submit(&cur, r, pi, u, u, u, &[Req { t: 4, addr: RA::T(dt), amt: x }]).is_ok()
                    });
                    let amt = match s.below(4) {
                        _ if n > 2 && k + 1 < n => m / (n as i128 + 1),
                        0 => m,
                        1 => m * 99 / 100,
                        2 => m * 9 / 10,
                        _ => m / 2,
                    };
                    let q = Req { t: 4, addr: RA::T(dt), amt };
                    if amt > 0 {
                        if let Ok(x) = model::submit(&cur, r, pi, u, u, u, &[q.clone()]) {
                            cur = x;
                            reqs.push(q);
                        }
                    }
                }
                if reqs.is_empty() {
                    return None;
                }
                Op::Submit { p: pi, from: u, spender: u, to: u, reqs }
            }
            K::QueTo => {
                let p = if s.chance(3, 4) { r.pools[pi] } else { self.back_pool(s, h) };
                let b = st.pb(p);
                if b.shares == 0 {
                    return None;
                }
                let pct = *s.pick(&[30i128, 50, 60, 75, 100, 29, 0]);
                let goal = (b.shares * pct / 100 + s.below(5) as i128 - 2).clamp(0, b.shares);
                let d = goal - b.q4w;
                // the largest holder does it
                if d >= 0 {
                    let (k, x) = st.back.ub.iter().filter(|x| x.0 .0 == p).max_by_key(|x| x.1.shares)?;
                    Op::Que { u: k.1, p, amt: d.min(x.shares) }
                } else {
                    let (k, x) = st
                        .back
                        .ub
                        .iter()
                        .filter(|x| x.0 .0 == p)
                        .max_by_key(|x| x.1.q.iter().map(|y| y.0).sum::<i128>())?;
                    Op::Deq { u: k.1, p, amt: (-d).min(x.q.iter().map(|y| y.0).sum()) }
                }
            }
            K::DepTo => {
                let p = if s.chance(3, 4) { r.pools[pi] } else { self.back_pool(s, h) };
                let b = st.pb(p);
                // tokens needed to meet the threshold (or 5% of it)
                let ex = s.chance(1, 4);
                let need = needed(st, ex);
                let goal = need + s.below(5) as i128 - 2;
                let d = goal - b.tokens;
                if d == 0 {
                    return None;
                }
                if d > 0 {
                    if s.chance(1, 2) {
                        Op::Donate { u, p, amt: d }
                    } else {
                        Op::Dep { u, p, amt: d }
                    }
                } else {
                    Op::Draw { p, amt: -d, to: u }
                }
            }
            K::Dust => {
                let ty = s.below(6) as u32;
                let mut q = self.req(s, st, pi, u, ty, r)?;
                q.amt = s.below(6) as i128;
                let n = s.range(1, 4) as usize;
                Op::Submit { p: pi, from: u, spender: u, to: u, reqs: vec![q; n] }
            }
            K::Force => {
                if st.pools[pi].status == 6 {
                    return None;
                }
                Op::Force(pi, s.below(6) as u32)
            }
            K::N => return None,
        })
    }

    /// operations the present state makes interesting
    fn pending(&self, s: &mut Src, h: &H) -> Vec<K> {
        let st = &h.s;
        let r = &h.w.r;
        let mut v = vec![];
        let mut debt = false;
        let mut fillable = false;
        for p in st.pools.iter() {
            for (a, x) in p.pos.iter() {
                if x.l.is_empty() {
                    continue;
                }
                if *a == r.backstop {
                    v.push(K::NewBda);
                    v.push(K::FillBda);
                    continue;
                }
                debt = true;
                if x.c.is_empty() {
                    v.push(K::BadDebt);
                    v.push(K::BadDebt);
                }
                if !p.auc.contains_key(&(*a, 0)) && health(st, p, x).map(|h| h.debt >= h.col).unwrap_or(false) && !x.c.is_empty() {
                    v.push(K::NewLiq);
                    v.push(K::NewLiq);
                }
            }
            for (k, a) in p.auc.iter() {
                if a.block + 150 > st.seq {
                    v.push(K::AucTime);
                } else {
                    fillable = true;
                    v.push(match k.1 {
                        0 => K::FillLiq,
                        1 => K::FillBda,
                        _ => K::FillInt,
                    });
                }
                v.push(match k.1 {
                    0 => K::FillLiq,
                    1 => K::FillBda,
                    _ => K::FillInt,
                });
            }
            let mut val = 0;
            for t in p.list.iter() {
                if let (Ok((c, d)), Some(pr)) = (p.fresh(*t, st.ts), st.price.get(t)) {
                    val += mdf(pr.0, d.credit, pow10(c.decimals));
                }
            }
            if val > 200 * pow10(st.odec) && !p.auc.contains_key(&(r.backstop, 2)) {
                v.push(K::NewInt);
            }
        }
        let _ = fillable;
        if debt {
            v.push(K::Crash);
        } else {
            v.push(K::Lever);
        }
        if r.pools.iter().any(|p| st.pb(*p).emis > 0) {
            v.push(K::PGulp);
        }
        let el = st.emit.last.get(&r.backstop).copied().unwrap_or(0);
        if el > st.back.last + 3600 && !st.back.rz.is_empty() {
            v.push(K::BGulp);
        } else if st.ts > el + 3600 {
            v.push(K::Dist);
        }
        if st.back.ub.values().any(|x| x.q.first().map(|q| q.1 <= st.ts).unwrap_or(false)) {
            v.push(K::Wd);
            v.push(K::Wd);
        }
        if st.pools.iter().any(|p| p.queued.values().any(|q| q.1 <= st.ts)) {
            v.push(K::SetRes);
        }
        if st.emit.swap.map(|x| x.2 <= st.ts).unwrap_or(false) {
            v.push(K::Swap);
        }
        let _ = s;
        v.retain(|k| self.p.w[*k as usize] > 0);
        v
    }

    pub fn next(&self, s: &mut Src, h: &H) -> Op {
        s.span();
        if let Some(op) = self.todo.borrow_mut().pop_front() {
            return op;
        }
        if self.p.w[K::Feed as usize] == 0 && s.below(8) < self.p.feed {
            // keep a live feed
            if let Some(op) = self.make(s, h, K::Feed) {
                return op;
            }
        }
        if s.chance(self.p.focus, 8) {
            let v = self.pending(s, h);
            if !v.is_empty() {
                let k = *s.pick(&v);
                if let Some(op) = self.make(s, h, k) {
                    return op;
                }
            }
        }
        for _ in 0..12 {
            let k = s.weighted(&self.p.w);
            let k: K = unsafe { std::mem::transmute(k) };
            if let Some(op) = self.make(s, h, k) {
                return op;
            }
        }
        self.time(s, &h.s)
    }
}
/// fewest backstop tokens which meet the threshold (or lie above exhaustion)
fn needed(st: &S, ex: bool) -> i128 {
    1 + search(1_000_000 * S7, &mut |x| {
        let d = PData { tokens: x, pct: 0, blnd: mdf(x, st.back.lpv.0, S7), usdc: mdf(x, st.back.lpv.1, S7) };
        if ex {
            exhausted(&d)
        } else {
            !meets(&d)
        }
    })
}
/// enough LP tokens for the deposits of many pools
fn lp_scale(pools: usize) -> i128 {
    (pools as i128 + 3) / 4
}
fn s_odd(g: &Gen, s: &mut Src) -> bool {
    s.below(100) < g.p.odd * 3
}

/// property-specific bookkeeping over a history
pub trait Ghost {
    fn init(&mut self, _h: &mut H) -> Result<(), Fail> {
        Ok(())
    }
    fn pre(&mut self, _h: &mut H, _op: &Op) -> Result<(), Fail> {
        Ok(())
    }
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail>;
    fn end(&mut self, _h: &mut H, _s: &mut Src, _g: &Gen) -> Result<(), Fail> {
        Ok(())
    }
}

/// run a whole generated history
pub fn history(
    s: &mut Src,
    ctx: &mut crate::engine::Ctx,
    prop: &'static str,
    p: &Profile,
    ghost: &mut dyn Ghost,
) -> Result<(), Fail> {
    let mut p = p.clone();
    if !p.alts.is_empty() {
        let k = s.below(p.alts.len() as u64 * 2 + 1) as usize;
        if k > p.alts.len() {
            (p.w, p.pace) = p.alts[k - p.alts.len() - 1].clone();
        }
    }
    let p = &p;
    let mut cfg = Gen::wcfg(s, p);
    if let Some(f) = p.tweak {
        f(s, &mut cfg);
    }
    let mut h = H::new(&cfg, prop, ctx);
    let mut g = Gen::new(s, p, &cfg, h.w.r.blnd);
    ghost.init(&mut h)?;
    let ops = g.setup(s, &mut h, ghost)?;
    let _ = ops;
    if p.ruin > 0 && s.below(8) >= 8 - p.ruin {
        g.ruin(s, &mut h, ghost)?;
    }
    if p.long > 0 && s.below(16) >= 16 - p.long {
        if s.chance(1, 2) {
            g.long(s, &mut h, ghost)?;
        } else {
            g.inflate(s, &mut h, ghost)?;
        }
    }
    let n = s.range(p.steps.0, p.steps.1);
    for _ in 0..n {
        let op = g.next(s, &h);
        run_step(&mut h, ghost, op)?;
    }
    ghost.end(&mut h, s, &g)
}
pub fn run_step(h: &mut H, ghost: &mut dyn Ghost, op: Op) -> Result<Step, Fail> {
    ghost.pre(h, &op)?;
    let st = h.step(op)?;
    h.ctx.mix(hash(&format!("{:?}{}", st.op, st.ok())));
    ghost.step(h, &st)?;
    Ok(st)
}
pub fn hash(s: &str) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001B3);
    }
    x
}
