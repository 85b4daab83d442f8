//! Reference model of the protocol, written from the property statements and the published
//! formulas: exact big-integer arithmetic with explicit rounding.
use crate::state::*;
use ethnum::I256;
use std::cell::Cell;
use std::collections::BTreeMap;

pub const S7: i128 = 10_000_000;
pub const S9: i128 = 1_000_000_000;
pub const YEAR: i128 = 31_536_000;
pub const WEEK: u64 = 604_800;
pub const DAY: u64 = 86_400;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rej(pub &'static str);
pub type R<X> = Result<X, Rej>;

thread_local! {
    /// set when an intermediate value leaves the 128-bit range: the contracts may trap there
    pub static WIDE: Cell<bool> = Cell::new(false);
}
fn w(v: I256) -> i128 {
    if v > I256::from(i128::MAX) || v < I256::from(i128::MIN) {
        WIDE.with(|x| x.set(true));
        return i128::MAX / 4;
    }
    v.as_i128()
}
/// floor(a*b/c)
pub fn mdf(a: i128, b: i128, c: i128) -> i128 {
    if c == 0 {
        WIDE.with(|x| x.set(true));
        return 0;
    }
    let p = I256::from(a) * I256::from(b);
    w(p);
    w(p.div_euclid(I256::from(c)))
}
/// ceil(a*b/c), c > 0
pub fn mdc(a: i128, b: i128, c: i128) -> i128 {
    if c == 0 {
        WIDE.with(|x| x.set(true));
        return 0;
    }
    let p = I256::from(a) * I256::from(b);
    w(p);
    let q = p.div_euclid(I256::from(c));
    let r = p.rem_euclid(I256::from(c));
    w(if r != I256::ZERO { q + I256::ONE } else { q })
}
pub fn pow10(d: u32) -> i128 {
    10i128.pow(d)
}

// ---------------------------------------------------------------- interest
pub fn supply_assets(d: &RData) -> i128 {
    mdf(d.b_supply, d.b_rate, S9)
}
pub fn debt_assets(d: &RData) -> i128 {
    mdc(d.d_supply, d.d_rate, S9)
}
pub fn util(d: &RData) -> i128 {
    mdc(debt_assets(d), S7, supply_assets(d))
}
/// yearly rate, 7 decimals
pub fn cur_rate(c: &RCfg, u: i128, ir_mod: i128) -> i128 {
    let t = c.util as i128;
    let (r0, r1, r2, r3) = (c.r_base as i128, c.r_one as i128, c.r_two as i128, c.r_three as i128);
    if u <= t {
        mdc(mdc(mdc(u, S7, t), r1, S7) + r0, ir_mod, S9)
    } else if u <= 9_500_000 {
        mdc(mdc(mdc(u - t, S7, 9_500_000 - t), r2, S7) + r1 + r0, ir_mod, S9)
    } else {
        mdc(mdc(u - 9_500_000, S7, 500_000), r3, S7) + mdc(ir_mod, r2 + r1 + r0, S9)
    }
}
pub fn next_ir_mod(c: &RCfg, u: i128, ir_mod: i128, dt: u64) -> i128 {
    let dif = (u - c.util as i128) * 100;
    let dt = dt as i128;
    let react = c.reactivity as i128;
    if dif >= 0 {
        (ir_mod + mdf(dt * dif, react, S7)).min(10 * S9)
    } else {
        (ir_mod + mdc(dt * dif, react, S7)).max(S9 / 10)
    }
}
/// the reserve as it is when used at time `now`
pub fn accrue(d: &RData, c: &RCfg, take: u32, now: u64) -> RData {
    let mut n = d.clone();
    if now == d.last {
        return n;
    }
    n.last = now;
    if d.b_supply == 0 {
        return n;
    }
    if supply_assets(d) == 0 {
        WIDE.with(|x| x.set(true));
        return n;
    }
    let u = util(d);
    if u == 0 {
        return n;
    }
    let dt = now - d.last;
    let rate = cur_rate(c, u, d.ir_mod);
    n.ir_mod = next_ir_mod(c, u, d.ir_mod, dt);
    let tw = dt as i128 * S9 / YEAR;
    let f = S9 + mdc(tw, rate * 100, S9);
    n.d_rate = mdc(f, d.d_rate, S9);
    let got = debt_assets(&n) - debt_assets(d);
    if got > 0 {
        let cut = mdf(got, take as i128, S7);
        n.credit += cut;
        n.b_rate = mdf(supply_assets(d) + got - cut, S9, d.b_supply);
    }
    n
}

// ---------------------------------------------------------------- pool helpers
impl PoolSt {
    pub fn touch(&mut self, t: T, now: u64) -> R<()> {
        let c = self.cfg.get(&t).ok_or(Rej("no_reserve"))?;
        let d = self.data.get(&t).ok_or(Rej("no_reserve"))?;
        let n = accrue(d, c, self.bstop_rate, now);
        self.data.insert(t, n);
        Ok(())
    }
    pub fn fresh(&self, t: T, now: u64) -> R<(RCfg, RData)> {
        let c = self.cfg.get(&t).ok_or(Rej("no_reserve"))?;
        let d = self.data.get(&t).ok_or(Rej("no_reserve"))?;
        Ok((c.clone(), accrue(d, c, self.bstop_rate, now)))
    }
    /// bring a reward stream up to date for a user holding `bal` before a change
    pub fn emis(&mut self, tid: u32, supply: i128, scalar: i128, user: A, bal: i128, now: u64) {
        if let Some((exp, eps)) = self.ecfg.get(&tid).copied() {
            self.emis_index(tid, supply, scalar, exp, eps, now);
            let (idx, _) = self.edata[&tid];
            self.emis_user(tid, idx, scalar, user, bal);
        }
    }
    fn emis_index(&mut self, tid: u32, supply: i128, scalar: i128, exp: u64, eps: u64, now: u64) {
        let (idx, last) = self.edata[&tid];
        if last >= exp || now == last || eps == 0 || supply == 0 {
            return;
        }
        let upto = now.min(exp);
        let add = mdf((upto - last) as i128 * eps as i128, scalar, supply);
        self.edata.insert(tid, (idx + add, upto));
    }
    fn emis_user(&mut self, tid: u32, idx: i128, scalar: i128, user: A, bal: i128) {
        let (ui, ua) = self.ue.get(&(user, tid)).copied().unwrap_or((0, 0));
        let acc = ua + mdf(bal, idx - ui, scalar);
        self.ue.insert((user, tid), (idx, acc));
    }
    fn b_emis(&mut self, t: T, u: A, now: u64) {
        let c = &self.cfg[&t];
        let (i, sc) = (c.index, pow10(c.decimals));
        let sup = self.data[&t].b_supply;
        let p = self.pos.get(&u).cloned().unwrap_or_default();
        self.emis(i * 2 + 1, sup, sc, u, p.cg(i) + p.sg(i), now);
    }
    fn d_emis(&mut self, t: T, u: A, now: u64) {
        let c = &self.cfg[&t];
        let (i, sc) = (c.index, pow10(c.decimals));
        let sup = self.data[&t].d_supply;
        let p = self.pos.get(&u).cloned().unwrap_or_default();
        self.emis(i * 2, sup, sc, u, p.lg(i), now);
    }
    /// side: 0 = debt, 1 = collateral, 2 = plain supply
    pub fn shift(&mut self, t: T, u: A, side: u8, v: i128, now: u64, why: &'static str) -> R<()> {
        if v == 0 {
            return Err(Rej("dust"));
        }
        if side == 0 {
            self.d_emis(t, u, now);
        } else {
            self.b_emis(t, u, now);
        }
        let i = self.cfg[&t].index;
        let p = self.pos.entry(u).or_default();
        let m = match side {
            0 => &mut p.l,
            1 => &mut p.c,
            _ => &mut p.s,
        };
        let n = m.get(&i).copied().unwrap_or(0) + v;
        if n < 0 {
            return Err(Rej(why));
        }
        if n == 0 {
            m.remove(&i);
        } else {
            m.insert(i, n);
        }
        if p.is_empty() {
            self.pos.remove(&u);
        }
        let d = self.data.get_mut(&t).unwrap();
        if side == 0 {
            d.d_supply += v;
        } else {
            d.b_supply += v;
        }
        Ok(())
    }
    pub fn posn(&self, u: A) -> Pos {
        self.pos.get(&u).cloned().unwrap_or_default()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Health {
    pub col: i128,
    pub col_raw: i128,
    pub debt: i128,
    pub debt_raw: i128,
}
pub fn price_of(s: &S, t: T) -> R<i128> {
    match s.price.get(&t) {
        None => Err(Rej("noprice")),
        Some((p, ts)) => {
            if ts + DAY < s.ts {
                Err(Rej("stale"))
            } else {
                Ok(*p)
            }
        }
    }
}
/// value of positions; reserves are read as of now
pub fn health(s: &S, p: &PoolSt, pos: &Pos) -> R<Health> {
    let mut h = Health::default();
    for t in p.list.iter() {
        let i = p.cfg[t].index;
        if pos.cg(i) == 0 && pos.lg(i) == 0 {
            continue;
        }
        let (c, d) = p.fresh(*t, s.ts)?;
        let pr = price_of(s, *t)?;
        let sc = pow10(c.decimals);
        if pos.cg(i) > 0 {
            let a = mdf(pos.cg(i), d.b_rate, S9);
            h.col += mdf(pr, mdf(a, c.c_factor as i128, S7), sc);
            h.col_raw += mdf(pr, a, sc);
        }
        if pos.lg(i) > 0 {
            let a = mdc(pos.lg(i), d.d_rate, S9);
            if c.l_factor == 0 {
                return Err(Rej("hf"));
            }
            h.debt += mdc(pr, mdc(a, S7, c.l_factor as i128), sc);
            h.debt_raw += mdc(pr, a, sc);
        }
    }
    Ok(h)
}
impl Health {
    pub fn under(&self, min7: i128, oscal: i128) -> bool {
        self.debt != 0 && mdf(self.col, oscal, self.debt) < mdf(oscal, min7, S7)
    }
    pub fn over(&self, max7: i128, oscal: i128) -> bool {
        self.debt == 0 || mdf(self.col, oscal, self.debt) > mdc(oscal, max7, S7)
    }
}

// ---------------------------------------------------------------- backstop helpers
impl PB {
    pub fn to_shares(&self, tokens: i128) -> R<i128> {
        if self.shares == 0 {
            Ok(tokens)
        } else if self.tokens == 0 {
            Err(Rej("drained"))
        } else {
            Ok(mdf(tokens, self.shares, self.tokens))
        }
    }
    pub fn to_tokens(&self, shares: i128) -> i128 {
        if self.shares == 0 {
            shares
        } else {
            mdf(shares, self.tokens, self.shares)
        }
    }
    pub fn unqueued_tokens(&self) -> i128 {
        self.tokens - self.to_tokens(self.q4w)
    }
    /// stream depositors' emissions up to now
    pub fn stream(&mut self, now: u64) {
        if let (Some((exp, eps)), Some((idx, last))) = (self.ecfg, self.edata) {
            let un = self.shares - self.q4w;
            if last >= exp || now == last || eps == 0 || un == 0 {
                return;
            }
            let upto = now.min(exp);
            let add = mdf((upto - last) as i128 * eps as i128, S7, un);
            self.edata = Some((idx + add, now));
        }
    }
}
pub fn back_accrue(s: &mut S, p: A, u: A) {
    let mut pb = s.pb(p);
    if pb.ecfg.is_none() {
        return;
    }
    pb.stream(s.ts);
    let (idx, _) = pb.edata.unwrap();
    let mut ub = s.ub(p, u);
    let (ui, ua) = ub.ed.unwrap_or((0, 0));
    ub.ed = Some((idx, ua + mdf(ub.shares, idx - ui, S7)));
    s.back.pb.insert(p, pb);
    s.back.ub.insert((p, u), ub);
}
#[derive(Clone, Debug)]
pub struct PData {
    pub tokens: i128,
    pub pct: i128,
    pub blnd: i128,
    pub usdc: i128,
}
pub fn pool_data(s: &S, p: A) -> PData {
    let b = s.pb(p);
    PData {
        tokens: b.tokens,
        pct: if b.shares > 0 { mdc(b.q4w, S7, b.shares) } else { 0 },
        blnd: mdf(b.tokens, s.back.lpv.0, S7),
        usdc: mdf(b.tokens, s.back.lpv.1, S7),
    }
}
/// BLND^4 * USDC in whole tokens, saturating
pub fn product(d: &PData) -> I256 {
    let b = I256::from((d.blnd / S7).min(1_000_000_000_000));
    let u = I256::from((d.usdc / S7).min(1_000_000_000_000));
    b * b * b * b * u
}
pub fn pc200k() -> I256 {
    let k = I256::from(200_000i128);
    k * k * k * k * k
}
pub fn meets(d: &PData) -> bool {
    product(d) >= pc200k()
}
/// below about 5% of the threshold, as the contracts round it
pub fn exhausted(d: &PData) -> bool {
    product(d) * I256::from(S7) < pc200k() * I256::from(3)
}
pub fn is_pool(s: &S, r: &Roles, a: A) -> bool {
    let _ = s;
    r.pools.contains(&a) || r.fakes.contains(&a)
}
pub fn valid_cfg(c: &RCfg) -> bool {
    c.decimals <= 18
        && c.c_factor <= 10_000_000
        && c.l_factor <= 10_000_000
        && c.util <= 9_500_000
        && c.max_util <= 10_000_000
        && c.max_util > c.util
        && c.r_base >= 1_000
        && c.r_base < 10_000_000
        && c.r_one <= c.r_two
        && c.r_two <= c.r_three
        && c.reactivity <= 1_000
}

fn pay(s: &mut S, t: T, from: A, to: A, v: i128, why: &'static str) -> R<()> {
    if v < 0 || s.b(t, from) < v {
        return Err(Rej(why));
    }
    s.add(t, from, -v);
    s.add(t, to, v);
    Ok(())
}

// ---------------------------------------------------------------- auctions
/// (part taken now, rest) for `pct` percent filled `k` blocks after the start
pub fn scale(a: &Auc, pct: i128, k: i128) -> (Auc, Option<Auc>) {
    let lotm = if k >= 200 { S7 } else { k * 50_000 };
    let bidm = if k <= 200 { S7 } else if k >= 400 { 0 } else { S7 - (k - 200) * 50_000 };
    let mut f = Auc { block: a.block, ..Default::default() };
    let mut rest = f.clone();
    for (t, v) in a.bid.iter() {
        let b = mdc(*v, pct, 100);
        if v - b > 0 {
            rest.bid.insert(*t, v - b);
        }
        let x = mdc(b, bidm, S7);
        if x > 0 {
            f.bid.insert(*t, x);
        }
    }
    for (t, v) in a.lot.iter() {
        let b = mdf(*v, pct, 100);
        if v - b > 0 {
            rest.lot.insert(*t, v - b);
        }
        let x = mdf(b, lotm, S7);
        if x > 0 {
            f.lot.insert(*t, x);
        }
    }
    if rest.bid.is_empty() && rest.lot.is_empty() {
        (f, None)
    } else {
        (f, Some(rest))
    }
}

/// A quote for liquidating `pct` percent: (bid, lot, est. collateral needed) and health
pub fn liq_quote(s: &S, p: &PoolSt, u: A, pct: u64) -> R<(Auc, Health, i128)> {
    let pos = p.posn(u);
    let h = health(s, p, &pos)?;
    let sc = pow10(s.odec);
    if h.debt < h.col {
        return Err(Rej("liq_healthy"));
    }
    if h.col_raw == 0 || h.debt_raw == 0 || h.debt == 0 {
        return Err(Rej("liq_no_collateral"));
    }
    let ps = pct as i128 * sc / 100;
    let cf = mdf(h.col, sc, h.col_raw);
    let lf = mdf(h.debt, sc, h.debt_raw);
    if lf == 0 {
        return Err(Rej("wide"));
    }
    let inc = mdc(sc - mdc(cf, sc, lf), sc, 2 * sc) + sc;
    let need = mdf(mdf(h.debt_raw, ps, sc), inc, sc);
    let take = mdc(need, sc, h.col_raw).min(sc);
    let mut a = Auc { block: s.seq + 1, ..Default::default() };
    for (i, v) in pos.c.iter() {
        a.lot.insert(p.list[*i as usize], mdc(*v, take, sc));
    }
    for (i, v) in pos.l.iter() {
        a.bid.insert(p.list[*i as usize], mdc(*v, ps, sc));
    }
    Ok((a, h, need))
}

fn lp_value(s: &S, d: &PData) -> R<i128> {
    if d.tokens == 0 {
        return Err(Rej("no_backstop"));
    }
    Ok(mdf(mdf(d.usdc, pow10(s.odec), S7) * 5, S7, d.tokens))
}

// ---------------------------------------------------------------- submit
pub fn submit(s0: &S, r: &Roles, pi: usize, from: A, spender: A, to: A, reqs: &[Req]) -> R<S> {
    let mut s = s0.clone();
    let me = s.pools[pi].me;
    if from == me || spender == me || to == me {
        return Err(Rej("party"));
    }
    let now = s.ts;
    let before = s.pools[pi].posn(from).count();
    let mut chk = false;
    let mut ins: BTreeMap<T, i128> = BTreeMap::new();
    let mut outs: BTreeMap<T, i128> = BTreeMap::new();
    for q in reqs {
        if q.amt < 0 {
            return Err(Rej("negative"));
        }
        let st = s.pools[pi].status;
        if (st > 1 && (q.t == 4 || q.t == 9)) || (st > 3 && (q.t == 0 || q.t == 2)) {
            return Err(Rej("status"));
        }
        if q.t > 9 {
            return Err(Rej("type"));
        }
        if q.t <= 5 {
            let t = match q.addr {
                RA::T(t) => t,
                _ => return Err(Rej("no_reserve")),
            };
            let p = &mut s.pools[pi];
            p.touch(t, now)?;
            let d = p.data[&t].clone();
            let i = p.cfg[&t].index;
            match q.t {
                0 | 2 => {
                    let sh = mdf(q.amt, S9, d.b_rate);
                    p.shift(t, from, if q.t == 0 { 2 } else { 1 }, sh, now, "")?;
                    *ins.entry(t).or_insert(0) += q.amt;
                }
                1 | 3 => {
                    let have = if q.t == 1 { p.posn(from).sg(i) } else { p.posn(from).cg(i) };
                    let mut sh = mdc(q.amt, S9, d.b_rate);
                    let mut out = q.amt;
                    if sh > have {
                        sh = have;
                        out = mdf(have, d.b_rate, S9);
                    }
                    p.shift(t, from, if q.t == 1 { 2 } else { 1 }, -sh, now, "")?;
                    *outs.entry(t).or_insert(0) += out;
                    if q.t == 3 {
                        chk = true;
                    }
                }
                4 => {
                    let sh = mdc(q.amt, S9, d.d_rate);
                    p.shift(t, from, 0, sh, now, "")?;
                    let d = &p.data[&t];
                    if supply_assets(d) == 0 || util(d) > p.cfg[&t].max_util as i128 {
                        return Err(Rej("util"));
                    }
                    *outs.entry(t).or_insert(0) += q.amt;
                    chk = true;
                }
                _ => {
                    let have = p.posn(from).lg(i);
                    let sh = mdf(q.amt, S9, d.d_rate);
                    *ins.entry(t).or_insert(0) += q.amt;
                    if sh > have {
                        let back = q.amt - mdc(have, d.d_rate, S9);
                        p.shift(t, from, 0, -have, now, "")?;
                        *outs.entry(t).or_insert(0) += back;
                    } else {
                        p.shift(t, from, 0, -sh, now, "")?;
                    }
                }
            }
        } else if q.t == 9 {
            if s.pools[pi].auc.remove(&(from, 0)).is_none() {
                return Err(Rej("no_auction"));
            }
            chk = true;
        } else {
            let who = match q.addr {
                RA::A(a) => a,
                _ => return Err(Rej("no_auction")),
            };
            if who == from {
                return Err(Rej("self_fill"));
            }
            let kind = q.t - 6;
            let a = s.pools[pi].auc.get(&(who, kind)).cloned().ok_or(Rej("no_auction"))?;
            if q.amt < 1 || q.amt > 100 {
                return Err(Rej("percent"));
            }
            if s.seq < a.block {
                return Err(Rej("not_started"));
            }
            let (f, rest) = scale(&a, q.amt, (s.seq - a.block) as i128);
            match kind {
                0 => {
                    let p = &mut s.pools[pi];
                    for (t, v) in f.lot.iter() {
                        p.touch(*t, now)?;
                        p.shift(*t, who, 1, -v, now, "fill_excess")?;
                    }
                    for (t, v) in f.bid.iter() {
                        p.touch(*t, now)?;
                        p.shift(*t, who, 0, -v, now, "fill_excess")?;
                    }
                    for (t, v) in f.lot.iter() {
                        p.shift(*t, from, 1, *v, now, "")?;
                    }
                    for (t, v) in f.bid.iter() {
                        p.shift(*t, from, 0, *v, now, "")?;
                    }
                    chk = true;
                }
                1 => {
                    let p = &mut s.pools[pi];
                    if from == r.backstop {
                        return Err(Rej("backstop_fill"));
                    }
                    for (t, v) in f.bid.iter() {
                        p.touch(*t, now)?;
                        p.shift(*t, r.backstop, 0, -v, now, "fill_excess")?;
                        p.shift(*t, from, 0, *v, now, "")?;
                    }
                    chk = true;
                    let lot = match f.lot.get(&r.lp) {
                        Some(v) => *v,
                        None => return Err(Rej("lot_zero")),
                    };
                    let mut pb = s.pb(me);
                    if lot > pb.tokens {
                        return Err(Rej("draw_funds"));
                    }
                    pb.tokens -= lot;
                    s.back.pb.insert(me, pb);
                    pay(&mut s, r.lp, r.backstop, from, lot, "draw_funds")?;
                    let left = s.pools[pi].posn(r.backstop).l.clone();
                    if !left.is_empty() && exhausted(&pool_data(&s, me)) {
                        let p = &mut s.pools[pi];
                        for (i, v) in left {
                            let t = p.list[i as usize];
                            p.touch(t, now)?;
                            p.shift(t, r.backstop, 0, -v, now, "")?;
                        }
                    }
                }
                _ => {
                    if from == r.backstop {
                        return Err(Rej("backstop_fill"));
                    }
                    let bid = f.bid.get(&r.lp).copied().unwrap_or(0);
                    if bid > 0 {
                        let mut pb = s.pb(me);
                        if pb.shares == 0 && !is_pool(&s, r, me) {
                            return Err(Rej("not_pool"));
                        }
                        pay(&mut s, r.lp, from, r.backstop, bid, "funds")?;
                        pb.tokens += bid;
                        s.back.pb.insert(me, pb);
                    }
                    for (t, v) in f.lot.iter() {
                        s.pools[pi].touch(*t, now)?;
                        s.pools[pi].data.get_mut(t).unwrap().credit -= v;
                        pay(&mut s, *t, me, from, *v, "liquidity")?;
                    }
                }
            }
            match rest {
                Some(x) => s.pools[pi].auc.insert((who, kind), x),
                None => s.pools[pi].auc.remove(&(who, kind)),
            };
        }
    }
    let pos = s.pools[pi].posn(from);
    let n = pos.count();
    if n > before && n > s.pools[pi].max_pos as usize {
        return Err(Rej("max_pos"));
    }
    if chk && !pos.l.is_empty() {
        let h = health(&s, &s.pools[pi], &pos)?;
        if h.under(10_000_100, pow10(s.odec)) {
            return Err(Rej("hf"));
        }
    }
    for (t, v) in ins {
        pay(&mut s, t, spender, me, v, "funds")?;
    }
    for (t, v) in outs {
        pay(&mut s, t, me, to, v, "liquidity")?;
    }
    Ok(s)
}

pub fn apply(s0: &S, r: &Roles, op: &Op) -> R<S> {
    let mut s = s0.clone();
    let now = s.ts;
    match op {
        Op::Time(dt, db) => {
            s.ts += dt;
            s.seq += db;
        }
        Op::Price(t, p, ts) => {
            s.price.insert(*t, (*p, *ts));
        }
        Op::NoPrice(t) => {
            s.price.remove(t);
        }
        Op::Mint(t, a, v) => {
            s.add(*t, *a, *v);
            if *t == r.lp {
                s.lp_supply += v;
            }
        }
        Op::Xfer(t, a, b, v) => pay(&mut s, *t, *a, *b, *v, "funds")?,
        Op::LpRate(x) => s.lp_rate = *x,
        Op::Force(pi, n) => s.pools[*pi].status = *n,
        Op::Submit { p, from, spender, to, reqs } => return submit(s0, r, *p, *from, *spender, *to, reqs),
        Op::BadDebt(pi, u) => {
            if *u == r.backstop {
                return Err(Rej("bd_backstop"));
            }
            let p = &mut s.pools[*pi];
            let pos = p.posn(*u);
            if !pos.c.is_empty() {
                return Err(Rej("bd_collateral"));
            }
            if pos.l.is_empty() {
                return Err(Rej("bd_nodebt"));
            }
            for (i, v) in pos.l.iter() {
                let t = p.list[*i as usize];
                p.touch(t, now)?;
                p.shift(t, r.backstop, 0, *v, now, "")?;
                p.shift(t, *u, 0, -v, now, "")?;
            }
        }
        Op::NewLiq(pi, u, pct) => {
            let p = &s.pools[*pi];
            if *u == r.backstop || *u == p.me {
                return Err(Rej("liq_party"));
            }
            if p.auc.contains_key(&(*u, 0)) {
                return Err(Rej("auction_exists"));
            }
            if *pct < 1 || *pct > 100 {
                return Err(Rej("liq_percent"));
            }
            let (a, h, need) = liq_quote(&s, p, *u, *pct)?;
            if *pct == 100 {
                if need < h.col_raw {
                    return Err(Rej("liq_too_large"));
                }
            } else {
                let mut tmp = s.pools[*pi].clone();
                for (t, v) in a.lot.iter() {
                    tmp.touch(*t, now)?;
                    tmp.shift(*t, *u, 1, -v, now, "liq_excess")?;
                }
                for (t, v) in a.bid.iter() {
                    tmp.touch(*t, now)?;
                    tmp.shift(*t, *u, 0, -v, now, "liq_excess")?;
                }
                let h2 = health(&s, &tmp, &tmp.posn(*u))?;
                if h2.over(11_500_000, pow10(s.odec)) {
                    return Err(Rej("liq_too_large"));
                }
                if h2.under(10_300_000, pow10(s.odec)) {
                    return Err(Rej("liq_too_small"));
                }
                // rewards of the account are brought up to date on the way
                let p = &mut s.pools[*pi];
                p.edata = tmp.edata;
                p.ue = tmp.ue;
            }
            s.pools[*pi].auc.insert((*u, 0), a);
        }
        Op::NewBda(pi) => {
            let p = &s.pools[*pi];
            if p.auc.contains_key(&(r.backstop, 1)) {
                return Err(Rej("auction_exists"));
            }
            let mut a = Auc { block: s.seq + 1, ..Default::default() };
            let mut val = 0;
            for (i, v) in p.posn(r.backstop).l.iter() {
                let t = p.list[*i as usize];
                let (c, d) = p.fresh(t, now)?;
                let pr = price_of(&s, t)?;
                val += mdf(pr, mdc(*v, d.d_rate, S9), pow10(c.decimals));
                a.bid.insert(t, *v);
            }
            if a.bid.is_empty() || val == 0 {
                return Err(Rej("bda_nodebt"));
            }
            let d = pool_data(&s, p.me);
            let v = lp_value(&s, &d)?;
            if v == 0 {
                return Err(Rej("no_backstop"));
            }
            a.lot.insert(r.lp, mdf(mdf(val, 14_000_000, S7), S7, v).min(d.tokens));
            s.pools[*pi].auc.insert((r.backstop, 1), a);
        }
        Op::NewInt(pi, assets) => {
            let p = &s.pools[*pi];
            if p.auc.contains_key(&(r.backstop, 2)) {
                return Err(Rej("auction_exists"));
            }
            let mut a = Auc { block: s.seq + 1, ..Default::default() };
            let mut val = 0;
            for t in assets {
                let (c, d) = p.fresh(*t, now)?;
                if a.lot.contains_key(t) {
                    return Err(Rej("int_dup"));
                }
                if d.credit > 0 {
                    val += mdf(price_of(&s, *t)?, d.credit, pow10(c.decimals));
                    a.lot.insert(*t, d.credit);
                }
            }
            if val <= 200 * pow10(s.odec) {
                return Err(Rej("int_small"));
            }
            let d = pool_data(&s, p.me);
            let v = lp_value(&s, &d)?;
            if v == 0 {
                return Err(Rej("no_backstop"));
            }
            a.bid.insert(r.lp, mdf(mdf(val, 14_000_000, S7), S7, v));
            s.pools[*pi].auc.insert((r.backstop, 2), a);
        }
        Op::UpdStatus(pi) => {
            let d = pool_data(&s, s.pools[*pi].me);
            let ok = meets(&d);
            let p = &mut s.pools[*pi];
            p.status = match p.status {
                4 | 6 => return Err(Rej("status_locked")),
                2 => {
                    if d.pct >= 7_500_000 {
                        5
                    } else {
                        2
                    }
                }
                0 => {
                    if !ok || d.pct >= 5_000_000 {
                        3
                    } else {
                        0
                    }
                }
                _ => {
                    if d.pct >= 6_000_000 {
                        5
                    } else if d.pct >= 3_000_000 || !ok {
                        3
                    } else {
                        1
                    }
                }
            };
        }
        Op::SetStatus(pi, n) => {
            let d = pool_data(&s, s.pools[*pi].me);
            match n {
                0 => {
                    if !meets(&d) || d.pct >= 5_000_000 {
                        return Err(Rej("status_cond"));
                    }
                }
                2 | 3 => {
                    if d.pct >= 7_500_000 {
                        return Err(Rej("status_cond"));
                    }
                }
                4 => {}
                _ => return Err(Rej("status_value")),
            }
            s.pools[*pi].status = *n;
        }
        Op::UpdPool(pi, rate, max) => {
            if *rate >= 10_000_000 {
                return Err(Rej("take_rate"));
            }
            let p = &mut s.pools[*pi];
            if p.bstop_rate != *rate {
                // interest so far is shared at the old rate
                for t in p.list.clone() {
                    p.touch(t, now)?;
                }
            }
            p.bstop_rate = *rate;
            p.max_pos = *max;
        }
        Op::QueueRes(pi, t, c) => {
            let p = &mut s.pools[*pi];
            if p.queued.contains_key(t) {
                return Err(Rej("queue_pending"));
            }
            if !valid_cfg(c) {
                return Err(Rej("cfg_invalid"));
            }
            let at = if p.status == 6 { now } else { now + WEEK };
            p.queued.insert(*t, (c.clone(), at));
        }
        Op::CancelRes(pi, t) => {
            s.pools[*pi].queued.remove(t);
        }
        Op::SetRes(pi, t) => {
            let p = &mut s.pools[*pi];
            let (c, at) = p.queued.get(t).cloned().ok_or(Rej("not_queued"))?;
            if at > now {
                return Err(Rej("timelock"));
            }
            p.queued.remove(t);
            let mut c = c;
            if let Some(old) = p.cfg.get(t).cloned() {
                if old.decimals != c.decimals {
                    return Err(Rej("decimals"));
                }
                p.touch(*t, now)?;
                if (old.r_base, old.r_one, old.r_two, old.r_three, old.util) != (c.r_base, c.r_one, c.r_two, c.r_three, c.util) {
                    p.data.get_mut(t).unwrap().ir_mod = S9;
                }
                c.index = old.index;
            } else {
                if p.list.len() >= 32 {
                    return Err(Rej("too_many_reserves"));
                }
                c.index = p.list.len() as u32;
                p.list.push(*t);
                p.data.insert(*t, RData { d_rate: S9, b_rate: S9, ir_mod: S9, last: now, ..Default::default() });
            }
            p.cfg.insert(*t, c);
        }
        Op::PGulp(pi) => {
            let me = s.pools[*pi].me;
            let mut pb = s.pb(me);
            if pb.emis == 0 {
                return Err(Rej("no_emissions"));
            }
            let v = pb.emis;
            pb.emis = 0;
            s.back.pb.insert(me, pb);
            *s.allow.entry(me).or_insert(0) += v;
            if v < S7 {
                return Err(Rej("small_emissions"));
            }
            let p = &mut s.pools[*pi];
            for (tid, share) in p.pemis.clone() {
                let mut amt = mdf(share as i128, v, S7);
                if let Some((exp, eps)) = p.ecfg.get(&tid).copied() {
                    let t = p.list[(tid / 2) as usize];
                    let sc = pow10(p.cfg[&t].decimals);
                    let d = &p.data[&t];
                    let sup = if tid % 2 == 0 { d.d_supply } else { d.b_supply };
                    p.emis_index(tid, sup, sc, exp, eps, now);
                    let (i, _) = p.edata[&tid];
                    p.edata.insert(tid, (i, now));
                    if exp > now {
                        amt += (exp - now) as i128 * eps as i128;
                    }
                } else {
                    p.edata.insert(tid, (0, now));
                }
                p.ecfg.insert(tid, (now + WEEK, (amt / WEEK as i128) as u64));
            }
        }
        Op::SetEmis(pi, v) => {
            let p = &mut s.pools[*pi];
            let mut m = BTreeMap::new();
            let mut tot: u128 = 0;
            for (i, ty, sh) in v {
                if *ty > 1 || *i as usize >= p.list.len() {
                    return Err(Rej("emis_bad"));
                }
                m.insert(i * 2 + ty, *sh);
                tot += *sh as u128;
            }
            if tot > S7 as u128 {
                return Err(Rej("emis_share"));
            }
            p.pemis = m;
        }
        Op::PClaim { p: pi, from, ids, to } => {
            let p = &mut s.pools[*pi];
            let mut tot = 0;
            for tid in ids {
                let i = (tid / 2) as usize;
                if i >= p.list.len() {
                    return Err(Rej("claim_bad"));
                }
                let t = p.list[i];
                let sc = pow10(p.cfg[&t].decimals);
                let d = p.data[&t].clone();
                let pos = p.posn(*from);
                let (bal, sup) = if tid % 2 == 0 {
                    (pos.lg(i as u32), d.d_supply)
                } else {
                    (pos.cg(i as u32) + pos.sg(i as u32), d.b_supply)
                };
                p.emis(*tid, sup, sc, *from, bal, now);
                if p.ecfg.contains_key(tid) {
                    let (ix, acc) = p.ue[&(*from, *tid)];
                    tot += acc;
                    p.ue.insert((*from, *tid), (ix, 0));
                }
            }
            if tot > 0 {
                let me = p.me;
                let al = s.allow.get(&me).copied().unwrap_or(0);
                if al < tot {
                    return Err(Rej("allowance"));
                }
                s.allow.insert(me, al - tot);
                pay(&mut s, r.blnd, r.backstop, *to, tot, "blnd_funds")?;
            }
        }
        Op::SetAdmin(pi, a) => s.pools[*pi].admin = *a,

        Op::Dep { u, p, amt } => {
            if *amt < 0 {
                return Err(Rej("negative"));
            }
            if u == p || *u == r.backstop {
                return Err(Rej("back_party"));
            }
            if s.pb(*p).shares == 0 && !is_pool(&s, r, *p) {
                return Err(Rej("not_pool"));
            }
            back_accrue(&mut s, *p, *u);
            pay(&mut s, r.lp, *u, r.backstop, *amt, "funds")?;
            let mut pb = s.pb(*p);
            let sh = pb.to_shares(*amt)?;
            if sh == 0 {
                return Err(Rej("dust"));
            }
            pb.tokens += amt;
            pb.shares += sh;
            let mut ub = s.ub(*p, *u);
            ub.shares += sh;
            s.back.pb.insert(*p, pb);
            s.back.ub.insert((*p, *u), ub);
        }
        Op::Que { u, p, amt } => {
            if *amt < 0 {
                return Err(Rej("negative"));
            }
            back_accrue(&mut s, *p, *u);
            let mut ub = s.ub(*p, *u);
            let mut pb = s.pb(*p);
            if ub.shares < *amt {
                return Err(Rej("que_balance"));
            }
            if ub.q.len() >= 21 {
                return Err(Rej("que_full"));
            }
            ub.shares -= amt;
            pb.q4w += amt;
            ub.q.push((*amt, now + 21 * DAY));
            s.back.pb.insert(*p, pb);
            s.back.ub.insert((*p, *u), ub);
        }
        Op::Deq { u, p, amt } => {
            if *amt < 0 {
                return Err(Rej("negative"));
            }
            back_accrue(&mut s, *p, *u);
            let mut ub = s.ub(*p, *u);
            let mut pb = s.pb(*p);
            unqueue(&mut ub, *amt, None)?;
            ub.shares += amt;
            pb.q4w -= amt;
            s.back.pb.insert(*p, pb);
            s.back.ub.insert((*p, *u), ub);
        }
        Op::Wd { u, p, amt } => {
            if *amt < 0 {
                return Err(Rej("negative"));
            }
            let mut ub = s.ub(*p, *u);
            let mut pb = s.pb(*p);
            unqueue(&mut ub, *amt, Some(now))?;
            let out = pb.to_tokens(*amt);
            if out == 0 {
                return Err(Rej("dust"));
            }
            pb.tokens -= out;
            pb.shares -= amt;
            pb.q4w -= amt;
            s.back.pb.insert(*p, pb);
            s.back.ub.insert((*p, *u), ub);
            pay(&mut s, r.lp, r.backstop, *u, out, "lp_funds")?;
        }
        Op::Draw { p, amt, to } => {
            if *amt < 0 {
                return Err(Rej("negative"));
            }
            let mut pb = s.pb(*p);
            if *amt > pb.tokens {
                return Err(Rej("draw_funds"));
            }
            pb.tokens -= amt;
            s.back.pb.insert(*p, pb);
            pay(&mut s, r.lp, r.backstop, *to, *amt, "lp_funds")?;
        }
        Op::Donate { u, p, amt } => {
            if *amt < 0 {
                return Err(Rej("negative"));
            }
            if u == p || *u == r.backstop {
                return Err(Rej("back_party"));
            }
            let mut pb = s.pb(*p);
            if pb.shares == 0 && !is_pool(&s, r, *p) {
                return Err(Rej("not_pool"));
            }
            pay(&mut s, r.lp, *u, r.backstop, *amt, "funds")?;
            pb.tokens += amt;
            s.back.pb.insert(*p, pb);
        }
        Op::BGulp => {
            if s.back.rz.is_empty() {
                return Err(Rej("rz_empty"));
            }
            let el = s.emit.last.get(&r.backstop).copied().unwrap_or(0);
            if el <= s.back.last + 3600 {
                return Err(Rej("gulp_early"));
            }
            let new = (el - s.back.last) as i128 * S7;
            s.back.last = el;
            let dep = mdf(new, 7_000_000, S7);
            let pls = mdf(new, 3_000_000, S7);
            let tot: i128 = s.back.rz.iter().map(|p| s.pb(*p).unqueued_tokens()).sum();
            if tot == 0 {
                return Err(Rej("rz_unfunded"));
            }
            for p in s.back.rz.clone() {
                let mut pb = s.pb(p);
                let share = mdf(pb.unqueued_tokens(), S7, tot);
                pb.emis += mdf(share, pls, S7);
                let mut amt = mdf(share, dep, S7);
                if let Some((exp, eps)) = pb.ecfg {
                    pb.stream(now);
                    pb.edata = Some((pb.edata.unwrap().0, now));
                    if exp > now {
                        amt += (exp - now) as i128 * eps as i128;
                    }
                } else {
                    pb.edata = Some((0, now));
                }
                pb.ecfg = Some((now + WEEK, (amt / WEEK as i128) as u64));
                s.back.pb.insert(p, pb);
            }
        }
        Op::AddReward { add, rem } => {
            let max = if now < 1713139200 { 10 } else { 10 + ((now - 1713139200) >> 23) as usize };
            if s.back.rz.contains(add) {
                return Err(Rej("rz_dup"));
            }
            let d = pool_data(&s, *add);
            if !meets(&d) {
                return Err(Rej("rz_threshold"));
            }
            if s.back.rz.len() < max {
                s.back.rz.insert(0, *add);
            } else {
                let i = s.back.rz.iter().position(|x| x == rem).ok_or(Rej("rz_nomember"))?;
                if s.back.last + DAY < now {
                    return Err(Rej("rz_stale"));
                }
                if d.tokens <= s.pb(*rem).tokens {
                    return Err(Rej("rz_smaller"));
                }
                s.back.rz[i] = *add;
            }
        }
        Op::BGulpPool(p) => {
            let mut pb = s.pb(*p);
            if pb.emis == 0 {
                return Err(Rej("no_emissions"));
            }
            *s.allow.entry(*p).or_insert(0) += pb.emis;
            pb.emis = 0;
            s.back.pb.insert(*p, pb);
        }
        Op::BClaim { from, pools, to } => {
            if pools.is_empty() {
                return Err(Rej("claim_bad"));
            }
            let mut amts: Vec<(A, i128)> = vec![];
            let mut tot = 0;
            for p in pools {
                back_accrue(&mut s, *p, *from);
                if s.pb(*p).ecfg.is_some() {
                    let mut ub = s.ub(*p, *from);
                    let (ix, acc) = ub.ed.unwrap();
                    ub.ed = Some((ix, 0));
                    s.back.ub.insert((*p, *from), ub);
                    tot += acc;
                    if let Some(x) = amts.iter_mut().find(|x| x.0 == *p) {
                        x.1 += acc;
                    } else {
                        amts.push((*p, acc));
                    }
                } else if !amts.iter().any(|x| x.0 == *p) {
                    amts.push((*p, 0));
                }
            }
            if tot > 0 {
                pay(&mut s, r.blnd, r.backstop, r.lp_contract, tot, "blnd_funds")?;
                let out = mdf(tot, s.lp_rate, S7);
                s.lp_supply += out;
                s.add(r.lp, r.backstop, out);
                for (p, v) in amts {
                    back_accrue(&mut s, p, *to);
                    let dep = mdf(out, v, tot);
                    let mut pb = s.pb(p);
                    let sh = pb.to_shares(dep)?;
                    pb.tokens += dep;
                    pb.shares += sh;
                    let mut ub = s.ub(p, *to);
                    ub.shares += sh;
                    s.back.pb.insert(p, pb);
                    s.back.ub.insert((p, *to), ub);
                }
            }
        }
        Op::UpdTkn => {
            if s.lp_supply == 0 {
                return Err(Rej("lp_zero"));
            }
            s.back.lpv =
                (mdf(s.b(r.blnd, r.lp_contract), S7, s.lp_supply), mdf(s.b(r.usdc, r.lp_contract), S7, s.lp_supply));
        }
        Op::BDrop => {
            let l = s.droplist.clone();
            return edrop(&s, r, &l, r.backstop);
        }

        Op::Dist => dist(&mut s, r),
        Op::QSwap(a, t) => {
            if s.emit.swap.is_some() {
                return Err(Rej("swap_pending"));
            }
            if !bigger(&s, *a) {
                return Err(Rej("swap_small"));
            }
            s.emit.swap = Some((*a, *t, now + 31 * DAY));
        }
        Op::CSwap => {
            let (a, _, _) = s.emit.swap.ok_or(Rej("swap_none"))?;
            if bigger(&s, a) {
                return Err(Rej("swap_valid"));
            }
            s.emit.swap = None;
        }
        Op::Swap => {
            let (a, t, at) = s.emit.swap.ok_or(Rej("swap_none"))?;
            if at > now {
                return Err(Rej("swap_locked"));
            }
            if !bigger(&s, a) {
                return Err(Rej("swap_small"));
            }
            dist(&mut s, r);
            s.emit.swap = None;
            s.emit.backstop = a;
            s.emit.token = t;
            s.emit.last.insert(a, now);
        }
        Op::EDrop(l) => {
            let b = s.emit.backstop;
            return edrop(&s, r, l, b);
        }
    }
    Ok(s)
}

fn unqueue(ub: &mut UB, amt: i128, expired_at: Option<u64>) -> R<()> {
    let mut left = amt;
    let mut q = std::collections::VecDeque::from(ub.q.clone());
    while let Some((a, exp)) = q.front().copied() {
        if let Some(now) = expired_at {
            if exp > now {
                return Err(Rej("not_expired"));
            }
        }
        if a > left {
            q.front_mut().unwrap().0 -= left;
            left = 0;
            break;
        }
        q.pop_front();
        left -= a;
        if left == 0 {
            break;
        }
    }
    if left > 0 {
        return Err(Rej("queue_short"));
    }
    ub.q = q.into();
    Ok(())
}
fn bigger(s: &S, a: A) -> bool {
    s.b(s.emit.token, a) > s.b(s.emit.token, s.emit.backstop)
}
fn dist(s: &mut S, r: &Roles) {
    let b = s.emit.backstop;
    let v = (s.ts - s.emit.last[&b]) as i128 * S7;
    s.emit.last.insert(b, s.ts);
    s.add(r.blnd, b, v);
}
fn edrop(s0: &S, r: &Roles, l: &[(A, i128)], by: A) -> R<S> {
    let mut s = s0.clone();
    if by != s.emit.backstop {
        return Err(Rej("drop_not_active"));
    }
    if s.emit.dropped.contains(&by) {
        return Err(Rej("drop_again"));
    }
    let mut tot: i128 = 0;
    for (_, v) in l {
        tot = tot.saturating_add(*v);
        if *v < 0 {
            return Err(Rej("drop_negative"));
        }
    }
    if tot > 50_000_000 * S7 {
        return Err(Rej("drop_large"));
    }
    for (a, v) in l {
        s.add(r.blnd, *a, *v);
    }
    s.emit.dropped.insert(by);
    Ok(s)
}
