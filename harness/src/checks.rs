//! One check per property: the histories it generates, what it requires of them beyond agreeing
//! with the reference model, and what counts as having exercised the property.
use crate::driver::{fail, opname, Step, H};
use crate::engine::{Ctx, Fail, Src};
use crate::gen::*;
use crate::model::*;
use crate::state::*;
use crate::world::{WCfg, World};
use ethnum::I256;
use std::collections::{BTreeMap, BTreeSet};

pub fn lend_w() -> Vec<(K, u64)> {
    vec![
        (K::Time, 10),
        (K::Price, 3),
        (K::Supply, 6),
        (K::SupplyC, 8),
        (K::Withdraw, 6),
        (K::WithdrawC, 7),
        (K::Borrow, 10),
        (K::Repay, 8),
        (K::Batch, 8),
        (K::Lever, 8),
        (K::Dust, 3),
    ]
}
pub fn auction_w() -> Vec<(K, u64)> {
    vec![
        (K::Mix, 4),
        (K::Crash, 6),
        (K::NewLiq, 6),
        (K::AucTime, 6),
        (K::FillLiq, 6),
        (K::DelLiq, 2),
        (K::BadDebt, 3),
        (K::NewBda, 3),
        (K::FillBda, 4),
        (K::NewInt, 3),
        (K::FillInt, 4),
    ]
}
pub fn back_w() -> Vec<(K, u64)> {
    vec![
        (K::Time, 10),
        (K::Dep, 10),
        (K::Que, 10),
        (K::Deq, 6),
        (K::Wd, 8),
        (K::Draw, 2),
        (K::Donate, 3),
        (K::Dist, 4),
        (K::BGulp, 4),
        (K::AddReward, 4),
        (K::BGulpPool, 2),
        (K::BClaim, 8),
        (K::UpdTkn, 2),
        (K::LpRate, 1),
    ]
}
fn cat(v: &[Vec<(K, u64)>]) -> W {
    let mut w = [0u64; NK];
    for l in v {
        for (k, x) in l {
            w[*k as usize] = *x;
        }
    }
    w
}
pub fn rat(a: i128, b: i128) -> I256 {
    I256::from(a) * I256::from(b)
}

// ------------------------------------------------------------------ C01
/// tokens + debt owed - supplier claims - interest set aside
pub fn margin(s: &S, p: &PoolSt, t: T) -> i128 {
    let d = &p.data[&t];
    s.b(t, p.me) + debt_assets(d) - supply_assets(d) - d.credit
}
#[derive(Default)]
struct G01 {
    off: BTreeMap<(usize, T), i128>,
}
impl Ghost for G01 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            return Ok(());
        }
        for (pi, p) in st.post.pools.iter().enumerate() {
            for t in p.list.iter() {
                let m = margin(&st.post, p, *t);
                if let (Op::Submit { p: pj, reqs, .. }, Ok(w)) = (&st.op, &st.pred) {
                    if *pj == pi && reqs.iter().any(|q| q.t == 7) && exhausted(&pool_data(w, p.me)) {
                        let d = margin(&st.pre, &st.pre.pools[pi], *t) - margin(w, &w.pools[pi], *t);
                        if d > 0 {
                            *self.off.entry((pi, *t)).or_insert(0) += d;
                            h.ctx.hit("write-off");
                        }
                    }
                }
                let off = self.off.get(&(pi, *t)).copied().unwrap_or(0);
                if m + off < 0 {
                    return fail(
                        "insolvent",
                        format!(
                            "after {} reserve {t} of pool {pi} is short of {} (tokens {}, data {:?}, written off {off})",
                            opname(&st.op),
                            -(m + off),
                            st.post.b(*t, p.me),
                            p.data[t]
                        ),
                    );
                }
                let d = &p.data[t];
                if d.credit < 0 {
                    return fail("credit-negative", format!("after {} more than the backstop's interest was paid out of reserve {t}: {:?}", opname(&st.op), d));
                }
                if d.d_supply > 0 && d.b_supply > 0 {
                    h.ctx.hit(if d.b_rate > S9 { "reserve with debt and interest" } else { "reserve with debt" });
                }
                if m < 4 {
                    h.ctx.label("margin under 4 units");
                }
            }
        }
        Ok(())
    }
    fn end(&mut self, h: &mut H, s: &mut Src, g: &Gen) -> Result<(), Fail> {
        exit_run(h, s, g, &mut self.off, "insolvent-exit")
    }
}
/// everyone leaves: debts are repaid, then every supply position is withdrawn in full
fn exit_run(h: &mut H, s: &mut Src, g: &Gen, off: &mut BTreeMap<(usize, T), i128>, key: &str) -> Result<(), Fail> {
    s.span();
    let r = h.w.r.clone();
    if s.chance(1, 3) {
        h.step(Op::Time(1000, 200))?;
    }
    for pi in 0..r.pools.len() {
        if h.s.pools[pi].pos.contains_key(&r.backstop) || off.keys().any(|x| x.0 == pi) {
            continue;
        }
        let us: Vec<A> = h.s.pools[pi].pos.keys().copied().collect();
        for u in us.iter() {
            for (i, v) in h.s.pools[pi].posn(*u).l.clone() {
                let t = h.s.pools[pi].list[i as usize];
                let d = h.s.pools[pi].fresh(t, h.s.ts).unwrap().1;
                let amt = mdc(v, d.d_rate, S9) + 3;
                h.step(Op::Mint(t, *u, amt))?;
                let st = h.step(g.one(pi, *u, 5, t, amt))?;
                if !st.ok() && !st.wide {
                    return fail(key, format!("repaying the whole debt was refused: {:?}", st.res));
                }
            }
        }
        for u in us.iter() {
            let pos = h.s.pools[pi].posn(*u);
            for (ty, m) in [(1u32, &pos.s), (3, &pos.c)] {
                for (i, _) in m.iter() {
                    let t = h.s.pools[pi].list[*i as usize];
                    let st = h.step(g.one(pi, *u, ty, t, 10i128.pow(26)))?;
                    if !st.ok() && !st.wide && st.rej() != "dust" {
                        return fail(
                            key,
                            format!(
                                "withdrawing the last claims was refused ({}) {:?}: reserve {t} holds {} {:?}",
                                st.rej(),
                                st.res,
                                h.s.b(t, r.pools[pi]),
                                h.s.pools[pi].data[&t]
                            ),
                        );
                    }
                    h.ctx.hit("exit withdrawal");
                }
            }
        }
        for t in h.s.pools[pi].list.clone() {
            let c = h.s.pools[pi].data[&t].credit;
            if h.s.b(t, r.pools[pi]) < c {
                return fail(key, format!("after everyone left reserve {t} holds less than the backstop's interest {c}"));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
struct G02;
impl Ghost for G02 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            return Ok(());
        }
        for (pi, p) in st.post.pools.iter().enumerate() {
            let mut holders = 0;
            for x in p.pos.values() {
                for m in [&x.l, &x.c, &x.s] {
                    for (i, v) in m.iter() {
                        if *v <= 0 {
                            return fail("zero-entry", format!("position entry {i} with {v} after {}", opname(&st.op)));
                        }
                        if *i as usize >= p.list.len() {
                            return fail("unknown-entry", format!("position entry {i} of no reserve"));
                        }
                        holders += 1;
                    }
                }
            }
            for t in p.list.iter() {
                let i = p.cfg[t].index;
                let b: i128 = p.pos.values().map(|x| x.cg(i) + x.sg(i)).sum();
                let d: i128 = p.pos.values().map(|x| x.lg(i)).sum();
                let r = &p.data[t];
                if (b, d) != (r.b_supply, r.d_supply) {
                    return fail(
                        "sum",
                        format!(
                            "after {} reserve {t} of pool {pi}: positions sum to (supply {b}, debt {d}), totals are ({}, {})",
                            opname(&st.op),
                            r.b_supply,
                            r.d_supply
                        ),
                    );
                }
            }
            if st.pre.pools.get(pi).map(|x| x.pos != p.pos).unwrap_or(false) && holders >= 2 {
                h.ctx.hit(&format!("positions changed by {}", opname(&st.op)));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C03
struct G03;
impl Ghost for G03 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            return Ok(());
        }
        for (pi, p) in st.post.pools.iter().enumerate() {
            for t in p.list.iter() {
                let n = &p.data[t];
                if n.ir_mod < S9 / 10 || n.ir_mod > 10 * S9 {
                    return fail("ir-mod-range", format!("rate modifier {} out of range", n.ir_mod));
                }
                let o = match st.pre.pools.get(pi).and_then(|x| x.data.get(t)) {
                    Some(o) => o,
                    None => continue,
                };
                let burn = matches!(&st.op, Op::Submit { reqs, .. } if reqs.iter().any(|q| q.t == 7));
                if n.d_rate < o.d_rate || (n.b_rate < o.b_rate && !burn) {
                    return fail("rate-fell", format!("a rate of reserve {t} fell in {}: {:?} -> {:?}", opname(&st.op), o, n));
                }
                if n.last < o.last || n.last > st.post.ts {
                    return fail("last-time", format!("accrual time went from {} to {}", o.last, n.last));
                }
                if o.last == st.pre.ts && (n.d_rate, n.ir_mod) != (o.d_rate, o.ir_mod) && !matches!(st.op, Op::SetRes(..)) {
                    return fail("twice", format!("reserve {t} accrued twice in one ledger by {}", opname(&st.op)));
                }
                if o.d_supply == 0 && (n.d_rate, n.b_rate) != (o.d_rate, o.b_rate) {
                    return fail("no-debt", format!("reserve {t} accrued without debt"));
                }
                if n.last > o.last && o.d_supply > 0 && o.b_supply > 0 && matches!(st.op, Op::Submit { .. } | Op::BadDebt(..) | Op::SetRes(..)) {
                    let u = util(o);
                    let c = &st.pre.pools[pi].cfg[t];
                    let seg = if u <= c.util as i128 {
                        "below target"
                    } else if u <= 9_500_000 {
                        "between target and 95%"
                    } else {
                        "above 95%"
                    };
                    h.ctx.hit(&format!("accrual {seg}"));
                    if n.ir_mod == 10 * S9 {
                        h.ctx.label("modifier at its ceiling");
                    }
                    if n.ir_mod == S9 / 10 {
                        h.ctx.label("modifier at its floor");
                    }
                    if n.credit > o.credit {
                        h.ctx.label("take rate paid");
                    }
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C04
struct G04;
impl Ghost for G04 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            return Ok(());
        }
        let (p, from, spender, to, reqs) = match &st.op {
            Op::Submit { p, from, spender, to, reqs } => (*p, *from, *spender, *to, reqs),
            _ => return Ok(()),
        };
        if reqs.iter().any(|q| q.t > 5) {
            return Ok(());
        }
        let who: BTreeSet<A> = [from, spender, to].into_iter().collect();
        if who.contains(&h.w.r.pools[p]) {
            return Ok(());
        }
        let (a, b) = (&st.pre.pools[p], &st.post.pools[p]);
        let mut changed = false;
        for t in b.list.iter() {
            let d = &b.data[t];
            let i = b.cfg[t].index;
            let worth = |s: &S, pl: &PoolSt| {
                let w: i128 = who.iter().map(|u| s.b(*t, *u)).sum();
                let x = pl.posn(from);
                rat(w, S9) + rat(x.cg(i) + x.sg(i), d.b_rate) - rat(x.lg(i), d.d_rate)
            };
            let (x, y) = (worth(&st.pre, a), worth(&st.post, b));
            if y > x {
                return fail(
                    "gain",
                    format!("the account gained {} (in 1e-9 units) of asset {t} from its own requests {:?}", y - x, reqs),
                );
            }
            let n = reqs.iter().filter(|q| q.addr == RA::T(*t)).count() as i128;
            let dust = I256::from(n * (d.b_rate.max(d.d_rate) + S9));
            if x - y > dust {
                return fail(
                    "loss",
                    format!("the account lost {} (in 1e-9 units) of asset {t}, more than rounding, by {:?}", x - y, reqs),
                );
            }
            if x != y {
                changed = true;
            }
        }
        for q in reqs {
            h.ctx.hit(["supply", "withdraw", "supply collateral", "withdraw collateral", "borrow", "repay"][q.t as usize]);
        }
        if changed {
            h.ctx.label("with rounding");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C05
struct G05;
/// what a successful submit of plain requests must move, from the requests and the account's
/// shares alone
impl Ghost for G05 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let (p, from, spender, to, reqs) = match &st.op {
            Op::Submit { p, from, spender, to, reqs } => (*p, *from, *spender, *to, reqs),
            _ => return Ok(()),
        };
        if !st.ok() {
            // a refused submit changes nothing at all
            if h.ctx.nontrivial % 16 == 0 {
                let now = h.w.snap();
                if now != st.pre {
                    return fail("refused-but-changed", format!("a refused submit changed the state: {:?}", reqs));
                }
            }
            h.ctx.label("refused submit");
            return Ok(());
        }
        let me = h.w.r.pools[p];
        // nobody else's wallet or position moves
        for ((t, a), _) in st.pre.bal.iter().chain(st.post.bal.iter()) {
            let party = [from, spender, to, me].contains(a);
            let lp_ok = *t == h.w.r.lp && *a == h.w.r.backstop && reqs.iter().any(|q| q.t == 7 || q.t == 8);
            if !party && !lp_ok && st.pre.b(*t, *a) != st.post.b(*t, *a) {
                return fail("stranger-wallet", format!("balance of actor {a} in asset {t} changed"));
            }
        }
        for u in st.pre.pools[p].pos.keys().chain(st.post.pools[p].pos.keys()) {
            let in_fill = reqs.iter().any(|q| (q.t == 6 && q.addr == RA::A(*u)) || (q.t == 7 && *u == h.w.r.backstop));
            if *u != from && !in_fill && st.pre.pools[p].posn(*u) != st.post.pools[p].posn(*u) {
                return fail("stranger-position", format!("positions of {u} changed in a submit for {from}"));
            }
        }
        // tokens per asset: the pool's balance moves by what spender and recipient exchange
        if reqs.iter().all(|q| q.t <= 5) {
            for t in st.post.pools[p].list.iter() {
                let d = |a: A| st.post.b(*t, a) - st.pre.b(*t, a);
                let set: BTreeSet<A> = [spender, to, me].into_iter().collect();
                if set.iter().map(|a| d(*a)).sum::<i128>() != 0 {
                    return fail("lost-tokens", format!("asset {t} is not conserved by {:?}", reqs));
                }
                if from != spender && from != to && d(from) != 0 {
                    return fail("from-wallet", format!("the wallet of the account moved although others pay and receive"));
                }
            }
            h.ctx.hit(if spender != to { "split parties" } else if reqs.len() > 1 { "batch" } else { "single request" });
        } else {
            h.ctx.hit("with auction request");
        }
        if reqs.len() > 1 && st.pred.is_ok() && !st.wide && h.ops.len() % 3 == 0 {
            // the same requests one by one, in a second world with the same past
            let past = h.ops[..h.ops.len() - 1].to_vec();
            let w2 = World::new(&h.w.cfg);
            for o in past.iter() {
                w2.exec(o);
            }
            let mut all = true;
            for q in reqs {
                let ex = w2.exec(&Op::Submit { p, from, spender, to, reqs: vec![q.clone()] });
                if !ex.ok() {
                    all = false;
                    break;
                }
            }
            if all {
                h.ctx.hit("batch compared with its parts");
                let s2 = w2.snap();
                let (a, b) = (&st.post, &s2);
                if a.bal != b.bal || a.pools[p].pos != b.pools[p].pos || a.pools[p].data != b.pools[p].data || a.back != b.back {
                    return fail(
                        "batch",
                        format!(
                            "a batch differs from its requests one by one {:?}: positions {:?} / {:?}, data {:?} / {:?}",
                            reqs, a.pools[p].pos, b.pools[p].pos, a.pools[p].data, b.pools[p].data
                        ),
                    );
                }
            } else {
                h.ctx.label("batch whose parts are refused alone");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C06
struct G06;
/// exact value comparison, no rounding: debt * 1.00001 <= collateral
pub fn healthy_exact(s: &S, p: &PoolSt, pos: &Pos) -> Option<bool> {
    let mut col = I256::ZERO;
    let mut debt = I256::ZERO;
    // common denominator: 1e18 decimals, 1e9 rate, 1e7 factor; liability factors divide
    for t in p.list.iter() {
        let c = &p.cfg[t];
        let i = c.index;
        if pos.cg(i) == 0 && pos.lg(i) == 0 {
            continue;
        }
        let d = accrue(&p.data[t], c, p.bstop_rate, s.ts);
        let pr = s.price.get(t)?.0;
        let up = I256::from(pow10(18 - c.decimals));
        if pos.cg(i) > 0 {
            col += I256::from(pos.cg(i)) * I256::from(d.b_rate) / I256::from(S9) * I256::from(c.c_factor as i128) * I256::from(pr) * up;
        }
        if pos.lg(i) > 0 {
            if c.l_factor == 0 {
                return Some(false);
            }
            // debt / l_factor, rounded down: only ever in the account's favour here
            debt += I256::from(pos.lg(i)) * I256::from(d.d_rate) / I256::from(S9) * I256::from(pr) * up * I256::from(S7) * I256::from(S7)
                / I256::from(c.l_factor as i128);
        }
    }
    // a few units of rounding in the account's favour
    let slack = I256::from(pow10(7 + 2)) * I256::from(pow10(18)) / I256::from(pow10(9));
    Some((col + slack) * I256::from(10_000_000) >= debt * I256::from(10_000_100) - slack)
}
impl Ghost for G06 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let (p, from, reqs) = match &st.op {
            Op::Submit { p, from, reqs, .. } => (*p, *from, reqs),
            _ => return Ok(()),
        };
        if !reqs.iter().any(|q| matches!(q.t, 3 | 4 | 6 | 7 | 9)) {
            return Ok(());
        }
        if st.ok() {
            let pl = &st.post.pools[p];
            let pos = pl.posn(from);
            if !pos.l.is_empty() {
                if healthy_exact(&st.post, pl, &pos) == Some(false) {
                    return fail("unhealthy", format!("the account is left unhealthy by {:?}: {:?}", reqs, pos));
                }
                let hl = health(&st.post, pl, &pos);
                let edge = hl.map(|x| x.debt > 0 && mdf(x.col, 1_000_000, x.debt) < 1_001_000).unwrap_or(false);
                h.ctx.hit(if edge { "accepted within 0.1% of the limit" } else { "accepted with debt" });
                if reqs.len() > 1 {
                    h.ctx.label("accepted batch");
                }
                if !pos.s.is_empty() {
                    h.ctx.label("account also has non-collateral supply");
                }
            }
        } else if st.rej() == "hf" {
            h.ctx.hit("refused for health");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C07
struct G07;
impl Ghost for G07 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let (p, from, reqs) = match &st.op {
            Op::Submit { p, from, reqs, .. } => (*p, *from, reqs),
            _ => return Ok(()),
        };
        if st.ok() {
            let pl = &st.post.pools[p];
            let (a, b) = (st.pre.pools[p].posn(from).count(), pl.posn(from).count());
            if b > a && b > pl.max_pos as usize {
                return fail("positions", format!("the account went from {a} to {b} positions, the limit is {}", pl.max_pos));
            }
            if b > a && b == pl.max_pos as usize {
                h.ctx.hit("at the position limit");
            }
            if a > pl.max_pos as usize {
                h.ctx.hit("accepted while above the position limit");
            }
            // the last request being a borrow, the state after it is the state after the submit
            if let Some(q) = reqs.last() {
                if let (4, RA::T(t)) = (q.t, q.addr) {
                    let d = &pl.data[&t];
                    let c = &pl.cfg[&t];
                    // debt * 1e7 / supply <= max, exactly; supply and debt in their own rounding
                    if rat(debt_assets(d), S7) > rat(supply_assets(d), c.max_util as i128) {
                        return fail(
                            "utilization",
                            format!("a borrow left reserve {t} at {} of {} with maximum {}", debt_assets(d), supply_assets(d), c.max_util),
                        );
                    }
                    let u = util(d);
                    h.ctx.hit(if u + 1000 > c.max_util as i128 { "borrow near the cap" } else { "borrow" });
                }
            }
        } else if matches!(st.rej(), "util" | "max_pos") {
            h.ctx.hit(st.rej());
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C08
struct G08;
impl Ghost for G08 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let (p, reqs) = match &st.op {
            Op::Submit { p, reqs, .. } => (*p, reqs),
            _ => return Ok(()),
        };
        let status = st.pre.pools[p].status;
        if st.ok() {
            for q in reqs {
                if q.amt < 0 || q.t > 9 {
                    return fail("malformed", format!("accepted {:?}", q));
                }
                if status > 1 && (q.t == 4 || q.t == 9) {
                    return fail("risky-on-ice", format!("accepted {:?} at status {status}", q));
                }
                if status > 3 && (q.t == 0 || q.t == 2) {
                    return fail("supply-frozen", format!("accepted {:?} at status {status}", q));
                }
                let name = ["supply", "withdraw", "supplyC", "withdrawC", "borrow", "repay", "fill", "fill bad debt", "fill interest", "cancel"]
                    [q.t as usize];
                h.ctx.hit(&format!("status {status}: {name} accepted"));
            }
        } else if matches!(st.rej(), "status" | "type" | "negative") {
            h.ctx.hit(&format!("status {status}: refused as {}", st.rej()));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C09
struct G09;
impl Ghost for G09 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if st.ok() {
            for (a, b) in st.pre.pools.iter().zip(st.post.pools.iter()) {
                if a.status != b.status && !matches!(st.op, Op::UpdStatus(..) | Op::SetStatus(..) | Op::Force(..)) {
                    return fail("status-moved", format!("{} changed the pool status", opname(&st.op)));
                }
            }
        }
        match &st.op {
            Op::UpdStatus(p) => {
                let d = pool_data(&st.pre, h.w.r.pools[*p]);
                let band = if d.pct >= 7_500_000 {
                    ">=75%"
                } else if d.pct >= 6_000_000 {
                    ">=60%"
                } else if d.pct >= 5_000_000 {
                    ">=50%"
                } else if d.pct >= 3_000_000 {
                    ">=30%"
                } else {
                    "<30%"
                };
                h.ctx.hit(&format!(
                    "update at {} queued {band} {}",
                    st.pre.pools[*p].status,
                    if meets(&d) { "met" } else { "below" }
                ));
            }
            Op::SetStatus(_, n) => h.ctx.hit(&format!("set {n} {}", if st.ok() { "ok" } else { "refused" })),
            _ => {}
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C10
#[derive(Default)]
struct G10 {
    q: BTreeMap<(usize, T), (RCfg, u64, u32)>,
}
impl Ghost for G10 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            if matches!(st.op, Op::QueueRes(..) | Op::SetRes(..)) {
                h.ctx.hit(&format!("{} refused: {}", opname(&st.op), st.rej()));
            }
            return Ok(());
        }
        for (pi, (a, b)) in st.pre.pools.iter().zip(st.post.pools.iter()).enumerate() {
            for t in b.list.iter() {
                let (o, n) = (a.cfg.get(t), &b.cfg[t]);
                if o == Some(n) {
                    continue;
                }
                match (&st.op, self.q.get(&(pi, *t))) {
                    (Op::SetRes(p, x), Some((c, at, status))) if *p == pi && x == t => {
                        if *status != 6 && st.pre.ts < at + WEEK {
                            return fail("too-early", format!("applied {} s after it was queued", st.pre.ts - at));
                        }
                        let mut want = c.clone();
                        want.index = o.map(|x| x.index).unwrap_or(a.list.len() as u32);
                        if want != *n {
                            return fail("other-values", format!("applied {:?}, queued was {:?}", n, want));
                        }
                        if o.map(|x| x.decimals != n.decimals).unwrap_or(false) {
                            return fail("decimals", "the token decimals of a reserve changed".into());
                        }
                        h.ctx.hit(if o.is_some() { "change applied" } else { "reserve added" });
                    }
                    _ => return fail("unqueued", format!("{} changed the settings of reserve {t}", opname(&st.op))),
                }
            }
            if b.list.len() > 32 || (b.list.len() != a.list.len() && !b.list.starts_with(&a.list)) {
                return fail("list", format!("reserve list {:?}", b.list));
            }
        }
        match &st.op {
            Op::QueueRes(p, t, c) => {
                if self.q.contains_key(&(*p, *t)) {
                    return fail("second-pending", format!("a second change was queued for asset {t}"));
                }
                if !valid_cfg(c) {
                    return fail("invalid", format!("queued {:?}", c));
                }
                self.q.insert((*p, *t), (c.clone(), st.pre.ts, st.pre.pools[*p].status));
                h.ctx.hit("change queued");
            }
            Op::CancelRes(p, t) | Op::SetRes(p, t) => {
                self.q.remove(&(*p, *t));
            }
            _ => {}
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C11
struct G11;
impl Ghost for G11 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if let Op::NewLiq(p, u, pct) = &st.op {
            if st.ok() {
                let pl = &st.pre.pools[*p];
                let pos = pl.posn(*u);
                let a = &st.post.pools[*p].auc[&(*u, 0)];
                if st.pre.pools[*p].auc.contains_key(&(*u, 0)) || *u == h.w.r.backstop || *u == h.w.r.pools[*p] {
                    return fail("liq-party", format!("auction created for {u}"));
                }
                if *pct < 1 || *pct > 100 {
                    return fail("liq-percent", format!("auction created for {pct} percent"));
                }
                // never more than there is, and the asked share of every debt
                for t in a.bid.keys().chain(a.lot.keys()) {
                    if !pl.list.contains(t) {
                        return fail("liq-asset", format!("auction names asset {t}"));
                    }
                }
                for (i, v) in pos.l.iter() {
                    let want = (*v * *pct as i128 + 99) / 100;
                    let got = a.bid.get(&pl.list[*i as usize]).copied().unwrap_or(0);
                    if (got - want).abs() > 1 + want / 1_000_000_000 && st.pre.odec >= 9 || (got - want).abs() > 1 + want / 1_000_000 {
                        return fail("liq-bid", format!("bid {got} of debt {v} for {pct} percent"));
                    }
                }
                for (t, v) in a.lot.iter() {
                    if *v > pos.cg(pl.cfg[t].index) {
                        return fail("liq-lot", format!("lot {v} exceeds the collateral"));
                    }
                }
                if a.block != st.pre.seq + 1 {
                    return fail("liq-start", format!("auction starts at {} instead of the next ledger", a.block));
                }
                // an account that is exactly healthy is out of reach
                let mut col = I256::ZERO;
                let mut debt = I256::ZERO;
                for t in pl.list.iter() {
                    let c = &pl.cfg[t];
                    let d = accrue(&pl.data[t], c, pl.bstop_rate, st.pre.ts);
                    let pr = st.pre.price.get(t).map(|x| x.0).unwrap_or(0);
                    let up = I256::from(pow10(18 - c.decimals));
                    // a unit of the token may be lost to rounding before and after the factor is applied
                    let unit = I256::from(pr) * up * I256::from(S7);
                    if pos.cg(c.index) > 0 {
                        let v = (I256::from(pos.cg(c.index)) * I256::from(d.b_rate) / I256::from(S9) - I256::ONE) * I256::from(c.c_factor as i128) * I256::from(pr) * up - unit;
                        if v > I256::ZERO {
                            col += v;
                        }
                    }
                    if pos.lg(c.index) > 0 {
                        debt += (I256::from(pos.lg(c.index)) * I256::from(d.d_rate) / I256::from(S9) + I256::from(2u8)) * unit * I256::from(S7)
                            / I256::from(c.l_factor as i128)
                            + unit * I256::from(2u8);
                    }
                }
                if debt * I256::from(10_000) < col * I256::from(9_999) - I256::from(pow10(30)) {
                    return fail("liq-healthy", format!("auction created for a healthy account {:?}", pos));
                }
                h.ctx.hit(if *pct == 100 { "full liquidation" } else { "partial liquidation" });
            } else {
                h.ctx.hit(&format!("refused: {}", st.rej()));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C12
struct G12;
impl Ghost for G12 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let (p, from, reqs) = match &st.op {
            Op::Submit { p, from, reqs, .. } => (*p, *from, reqs),
            _ => return Ok(()),
        };
        if !reqs.iter().any(|q| (6..=8).contains(&q.t)) {
            return Ok(());
        }
        if !st.ok() {
            if matches!(st.rej(), "percent" | "self_fill" | "not_started" | "no_auction") {
                h.ctx.hit(&format!("refused: {}", st.rej()));
            }
            return Ok(());
        }
        for q in reqs.iter().filter(|q| (6..=8).contains(&q.t)) {
            if q.amt < 1 || q.amt > 100 {
                return fail("percent", format!("filled {} percent", q.amt));
            }
            if q.addr == RA::A(from) {
                return fail("self-fill", "an account filled its own auction".into());
            }
        }
        if reqs.len() == 1 && reqs[0].t == 6 {
            let q = &reqs[0];
            let who = match q.addr {
                RA::A(a) => a,
                _ => return Ok(()),
            };
            let (a, b) = (&st.pre.pools[p], &st.post.pools[p]);
            let au = &a.auc[&(who, 0)];
            let k = st.pre.seq as i128 - au.block as i128;
            for t in a.list.iter() {
                let i = a.cfg[t].index;
                let (dl, dc) = (b.posn(from).lg(i) - a.posn(from).lg(i), b.posn(from).cg(i) - a.posn(from).cg(i));
                let (ol, oc) = (a.posn(who).lg(i) - b.posn(who).lg(i), a.posn(who).cg(i) - b.posn(who).cg(i));
                if dl != ol || dc != oc || b.posn(who).sg(i) != a.posn(who).sg(i) || b.posn(from).sg(i) != a.posn(from).sg(i) {
                    return fail("conservation", format!("left ({ol},{oc}) arrived ({dl},{dc}) for reserve {t}"));
                }
                // schedule in exact thousandths of a percent: p% of the lot * min(k,200)*0.5%
                let lot = au.lot.get(t).copied().unwrap_or(0);
                let bid = au.bid.get(t).copied().unwrap_or(0);
                let exact_lot = rat(lot, q.amt * k.min(200));
                let exact_bid = rat(bid, q.amt * (400 - k.clamp(200, 400)));
                let unit = I256::from(20_000);
                if (I256::from(oc) * unit - exact_lot).abs() > unit * I256::from(2) {
                    return fail("lot-schedule", format!("{oc} of a lot of {lot} was handed over for {} percent after {k} blocks", q.amt));
                }
                if (I256::from(ol) * unit - exact_bid).abs() > unit * I256::from(2) {
                    return fail("bid-schedule", format!("{ol} of a bid of {bid} was taken for {} percent after {k} blocks", q.amt));
                }
                // the rest stays, unpriced
                if let Some(n) = b.auc.get(&(who, 0)) {
                    let (x, y) = (n.lot.get(t).copied().unwrap_or(0), n.bid.get(t).copied().unwrap_or(0));
                    if (rat(x, 100) - rat(lot, 100 - q.amt)).abs() > I256::from(100) || (rat(y, 100) - rat(bid, 100 - q.amt)).abs() > I256::from(100) {
                        return fail("rest", format!("{:?} remains of {:?} after filling {} percent", n, au, q.amt));
                    }
                    if n.block != au.block {
                        return fail("rest-block", "a partial fill changed the start of the auction".into());
                    }
                } else if q.amt < 100 && (rat(lot, 100 - q.amt) >= I256::from(200) || rat(bid, 100 - q.amt) >= I256::from(200)) {
                    return fail("rest-lost", format!("nothing remains of {:?} after filling {} percent", au, q.amt));
                }
                if q.amt == 100 && b.auc.contains_key(&(who, 0)) {
                    return fail("not-closed", "a completely filled auction remains".into());
                }
            }
        }
        for q in reqs.iter().filter(|q| (6..=8).contains(&q.t)) {
            let who = match q.addr {
                RA::A(a) => a,
                _ => continue,
            };
            if let Some(au) = st.pre.pools[p].auc.get(&(who, q.t - 6)) {
                let k = st.pre.seq as i128 - au.block as i128;
                let band = match k {
                    0 => "k=0",
                    1..=199 => "k<200",
                    200 => "k=200",
                    201..=399 => "200<k<400",
                    _ => "k>=400",
                };
                h.ctx.hit(&format!("fill type {} {band} {}", q.t, if q.amt == 100 { "full" } else { "part" }));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C13
struct G13;
impl Ghost for G13 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let bs = h.w.r.backstop;
        if !st.ok() {
            if matches!(st.op, Op::BadDebt(..) | Op::NewBda(..)) || matches!(&st.op, Op::Submit { reqs, .. } if reqs.iter().any(|q| q.t == 7)) {
                h.ctx.hit(&format!("{} refused: {}", opname(&st.op), st.rej()));
            }
            return Ok(());
        }
        for (pi, (a, b)) in st.pre.pools.iter().zip(st.post.pools.iter()).enumerate() {
            let (x, y) = (a.posn(bs), b.posn(bs));
            for t in b.list.iter() {
                let i = b.cfg[t].index;
                if y.lg(i) > x.lg(i) && !matches!(&st.op, Op::BadDebt(p, _) if *p == pi) && !matches!(&st.op, Op::Submit { from, .. } if *from == bs) {
                    return fail("debt-to-backstop", format!("{} gave the backstop debt", opname(&st.op)));
                }
                if y.lg(i) < x.lg(i) {
                    let gone = x.lg(i) - y.lg(i);
                    match &st.op {
                        Op::Submit { p, from, reqs, .. } if *p == pi && reqs.iter().any(|q| q.t == 7) => {
                            let plain = reqs.len() == 1;
                            let got = b.posn(*from).lg(i) - a.posn(*from).lg(i);
                            if plain && got != gone {
                                // the difference was written off
                                if got > gone || !y.l.is_empty() || !exhausted(&pool_data(&st.post, b.me)) {
                                    return fail(
                                        "write-off",
                                        format!("{gone} left the backstop, {got} arrived at the filler; deposits {:?}", pool_data(&st.post, b.me)),
                                    );
                                }
                                h.ctx.hit("written off");
                            }
                        }
                        Op::Submit { from, .. } if *from == bs => {}
                        _ => return fail("debt-from-backstop", format!("{} removed backstop debt", opname(&st.op))),
                    }
                }
            }
        }
        match &st.op {
            Op::BadDebt(p, u) => {
                let (a, b) = (st.pre.pools[*p].posn(*u), st.post.pools[*p].posn(*u));
                let (x, y) = (st.pre.pools[*p].posn(bs), st.post.pools[*p].posn(bs));
                if *u == bs || !a.c.is_empty() || a.l.is_empty() {
                    return fail("bad-debt-of", format!("bad debt taken from {:?}", a));
                }
                if !b.l.is_empty() || b.s != a.s || x.c != y.c || x.s != y.s {
                    return fail("bad-debt-rest", format!("{:?} -> {:?}", a, b));
                }
                for (i, v) in a.l.iter() {
                    if y.lg(*i) - x.lg(*i) != *v {
                        return fail("bad-debt-amount", format!("the backstop took {} of {v}", y.lg(*i) - x.lg(*i)));
                    }
                }
                h.ctx.hit("debt moved to the backstop");
            }
            Op::NewBda(p) => {
                let pl = &st.pre.pools[*p];
                let pos = pl.posn(bs);
                let a = &st.post.pools[*p].auc[&(bs, 1)];
                let want: BTreeMap<T, i128> = pos.l.iter().map(|(i, v)| (pl.list[*i as usize], *v)).collect();
                if a.bid != want {
                    return fail("bda-bid", format!("bid {:?}, debt {:?}", a.bid, want));
                }
                let tokens = st.pre.pb(pl.me).tokens;
                let lot = a.lot.get(&h.w.r.lp).copied().unwrap_or(0);
                if a.lot.len() != 1 || lot > tokens {
                    return fail("bda-lot", format!("lot {:?} of {tokens}", a.lot));
                }
                h.ctx.hit(if lot == tokens { "auction capped by deposits" } else { "auction of 140%" });
            }
            Op::Submit { reqs, .. } if reqs.iter().any(|q| q.t == 7) => h.ctx.hit("bad debt filled"),
            _ => {}
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C14
struct G14;
impl Ghost for G14 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let bs = h.w.r.backstop;
        for p in st.post.pools.iter() {
            for (t, d) in p.data.iter() {
                if d.credit < 0 {
                    return fail("int-overpaid", format!("after {} the interest owed to the backstop in reserve {t} is {}", opname(&st.op), d.credit));
                }
                if st.ok() && p.auc.get(&(bs, 2)).map(|a| a.lot.get(t).copied().unwrap_or(0) > accrue(d, &p.cfg[t], p.bstop_rate, st.post.ts).credit).unwrap_or(false) {
                    return fail("int-uncovered", format!("after {} the auction's lot {:?} exceeds the interest {:?}", opname(&st.op), p.auc[&(bs, 2)].lot, d));
                }
            }
        }
        match &st.op {
            Op::NewInt(p, list) => {
                if !st.ok() {
                    h.ctx.hit(&format!("refused: {}", st.rej()));
                    return Ok(());
                }
                let pl = &st.pre.pools[*p];
                let a = &st.post.pools[*p].auc[&(bs, 2)];
                let mut val = I256::ZERO;
                let mut want = BTreeMap::new();
                for t in list.iter().collect::<BTreeSet<_>>() {
                    let (c, d) = pl.fresh(*t, st.pre.ts).unwrap();
                    if d.credit > 0 {
                        want.insert(*t, d.credit);
                        val += rat(d.credit, st.pre.price.get(t).map(|x| x.0).unwrap_or(0)) / I256::from(pow10(c.decimals));
                    }
                }
                if a.lot != want {
                    return fail("int-lot", format!("lot {:?}, interest {:?}", a.lot, want));
                }
                if val <= I256::from(200 * pow10(st.pre.odec)) - I256::from(1) {
                    return fail("int-small", format!("created for a value of {val}"));
                }
                h.ctx.hit("created");
            }
            Op::Submit { p, from, reqs, .. } if reqs.len() == 1 && reqs[0].t == 8 && st.ok() => {
                let (a, b) = (&st.pre.pools[*p], &st.post.pools[*p]);
                let au = &a.auc[&(bs, 2)];
                for t in a.list.iter() {
                    let x = accrue(&a.data[t], &a.cfg[t], a.bstop_rate, st.pre.ts);
                    let y = accrue(&b.data[t], &b.cfg[t], b.bstop_rate, st.pre.ts);
                    let paid = st.post.b(*t, *from) - st.pre.b(*t, *from);
                    if x.credit - y.credit != paid {
                        return fail("int-paid", format!("interest owed fell by {}, {paid} was paid", x.credit - y.credit));
                    }
                    if paid < 0 || paid > au.lot.get(t).copied().unwrap_or(0) {
                        return fail("int-lot-paid", format!("{paid} paid of {:?}", au.lot));
                    }
                }
                let bid = st.pre.b(h.w.r.lp, *from) - st.post.b(h.w.r.lp, *from);
                let don = st.post.pb(a.me).tokens - st.pre.pb(a.me).tokens;
                let k = st.pre.seq as i128 - au.block as i128;
                let full = au.bid.get(&h.w.r.lp).copied().unwrap_or(0);
                let exact = rat(full, reqs[0].amt * (400 - k.clamp(200, 400)));
                if bid != don || (I256::from(bid) * I256::from(20_000) - exact).abs() > I256::from(40_000) {
                    return fail("int-bid", format!("paid {bid}, donated {don} of a bid of {full} for {}% after {k} blocks", reqs[0].amt));
                }
                h.ctx.hit(if k >= 400 { "filled after the bid reached zero" } else { "filled" });
            }
            _ => {}
        }
        Ok(())
    }
}

include!("checks2.rs");
