//! Runs one operation on the real contracts and on the reference model, and attributes every
//! difference to the properties it contradicts.
use crate::engine::{Ctx, Fail};
use crate::model::{self, *};
use crate::state::*;
use crate::world::{Ret, WCfg, World};
use std::collections::{BTreeMap, BTreeSet};

pub struct Step {
    pub op: Op,
    pub pre: S,
    pub pred: R<S>,
    pub wide: bool,
    pub res: Result<Ret, String>,
    pub post: S,
    pub auths: BTreeMap<A, usize>,
}
impl Step {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn rej(&self) -> &'static str {
        match &self.pred {
            Err(r) => r.0,
            Ok(_) => "",
        }
    }
}

pub struct H<'a> {
    pub w: World,
    pub s: S,
    pub ctx: &'a mut Ctx,
    pub prop: &'static str,
    pub ops: Vec<Op>,
    /// the backstop seen by the model may hold several pools
    pub check: bool,
}

pub fn fail<X>(key: &str, msg: String) -> Result<X, Fail> {
    Err(Fail { key: key.to_string(), msg })
}

pub fn opname(op: &Op) -> &'static str {
    match op {
        Op::Time(..) => "time",
        Op::Price(..) => "price",
        Op::NoPrice(..) => "noprice",
        Op::Mint(..) => "mint",
        Op::Xfer(..) => "xfer",
        Op::LpRate(..) => "lprate",
        Op::Force(..) => "force_status",
        Op::Submit { .. } => "submit",
        Op::BadDebt(..) => "bad_debt",
        Op::NewLiq(..) => "new_liquidation",
        Op::NewBda(..) => "new_bad_debt_auction",
        Op::NewInt(..) => "new_interest_auction",
        Op::UpdStatus(..) => "update_status",
        Op::SetStatus(..) => "set_status",
        Op::UpdPool(..) => "update_pool",
        Op::QueueRes(..) => "queue_set_reserve",
        Op::CancelRes(..) => "cancel_set_reserve",
        Op::SetRes(..) => "set_reserve",
        Op::PGulp(..) => "pool_gulp",
        Op::SetEmis(..) => "set_emissions_config",
        Op::PClaim { .. } => "pool_claim",
        Op::SetAdmin(..) => "set_admin",
        Op::Dep { .. } => "deposit",
        Op::Que { .. } => "queue_withdrawal",
        Op::Deq { .. } => "dequeue_withdrawal",
        Op::Wd { .. } => "withdraw",
        Op::Draw { .. } => "draw",
        Op::Donate { .. } => "donate",
        Op::BGulp => "backstop_gulp",
        Op::AddReward { .. } => "add_reward",
        Op::BGulpPool(..) => "gulp_pool_emissions",
        Op::BClaim { .. } => "backstop_claim",
        Op::UpdTkn => "update_tkn_val",
        Op::BDrop => "backstop_drop",
        Op::Dist => "distribute",
        Op::QSwap(..) => "queue_swap",
        Op::CSwap => "cancel_swap",
        Op::Swap => "swap_backstop",
        Op::EDrop(..) => "emitter_drop",
    }
}

/// properties contradicted when the real contract accepts what the rules refuse
fn props_accept(op: &Op, rej: &str) -> &'static [&'static str] {
    let sub = matches!(op, Op::Submit { .. });
    match rej {
        "party" => &["C05"],
        "negative" => {
            if sub {
                &["C08"]
            } else {
                match op {
                    Op::Dep { .. } => &["C17"],
                    Op::Draw { .. } | Op::Donate { .. } => &["C28"],
                    _ => &["C18"],
                }
            }
        }
        "status" | "type" => &["C08"],
        "no_reserve" => &["C10"],
        "dust" => {
            if sub {
                &["C04"]
            } else {
                &["C17"]
            }
        }
        "util" => &["C07"],
        "max_pos" => &["C07"],
        "hf" => &["C06"],
        "stale" | "noprice" => match op {
            Op::NewLiq(..) => &["C29", "C11"],
            Op::NewBda(..) => &["C29", "C13"],
            Op::NewInt(..) => &["C29", "C14"],
            _ => &["C29", "C06"],
        },
        "no_auction" | "self_fill" | "percent" | "not_started" | "fill_excess" => &["C12"],
        "backstop_fill" => &["C12", "C13", "C14"],
        "draw_funds" => &["C28", "C13", "C16"],
        "not_pool" | "back_party" => &["C28", "C17"],
        "funds" | "liquidity" => &["C05"],
        "bd_backstop" | "bd_collateral" | "bd_nodebt" | "bda_nodebt" => &["C13"],
        "liq_party" | "liq_percent" | "liq_healthy" | "liq_no_collateral" | "liq_too_large" | "liq_too_small"
        | "liq_excess" => &["C11"],
        "auction_exists" => match op {
            Op::NewLiq(..) => &["C11"],
            Op::NewBda(..) => &["C13"],
            _ => &["C14"],
        },
        "int_dup" | "int_small" => &["C14"],
        "status_locked" | "status_cond" | "status_value" => &["C09"],
        "take_rate" => &["C26"],
        "queue_pending" | "cfg_invalid" | "not_queued" | "timelock" | "decimals" | "too_many_reserves" => &["C10"],
        "no_emissions" => &["C15", "C19"],
        "emis_bad" | "emis_share" | "allowance" => &["C15"],
        "blnd_funds" | "claim_bad" => &["C15", "C19"],
        "que_balance" | "que_full" | "not_expired" | "queue_short" => &["C18"],
        "rz_dup" | "rz_threshold" | "rz_nomember" | "rz_stale" | "rz_smaller" => &["C21"],
        "swap_pending" | "swap_small" | "swap_none" | "swap_valid" | "swap_locked" => &["C22"],
        "drop_not_active" | "drop_again" | "drop_negative" | "drop_large" => &["C23"],
        _ => &[],
    }
}

/// properties contradicted when the real contract refuses what the rules allow
fn props_refuse(st: &Step) -> BTreeSet<&'static str> {
    let mut v: BTreeSet<&'static str> = BTreeSet::new();
    let s = &st.pre;
    match &st.op {
        Op::Submit { p, from, reqs, .. } => {
            let pl = &s.pools[*p];
            let pos = pl.posn(*from);
            if reqs.iter().any(|q| matches!(q.t, 4 | 3 | 6 | 7 | 9)) {
                v.insert("C06");
            }
            if reqs.iter().any(|q| q.t == 4) {
                v.insert("C07");
            }
            if let Ok(n) = &st.pred {
                if n.pools[*p].posn(*from).count() <= pos.count() {
                    v.insert("C07");
                }
            }
            if reqs.iter().any(|q| matches!(q.t, 6 | 7 | 8)) {
                v.insert("C12");
            }
            if reqs.iter().any(|q| q.t == 7) {
                v.insert("C13");
            }
            if reqs.iter().any(|q| q.t == 8) {
                v.insert("C14");
            }
            // every status lets these through
            if reqs.iter().all(|q| matches!(q.t, 1 | 3 | 5 | 6 | 7 | 8))
                || reqs.iter().any(|q| pl.status <= 1 && matches!(q.t, 4 | 9))
                || reqs.iter().any(|q| pl.status <= 3 && matches!(q.t, 0 | 2))
            {
                v.insert("C08");
            }
            if reqs.iter().all(|q| matches!(q.t, 1 | 5) || (q.t == 3 && pos.l.is_empty())) {
                v.insert("C30");
            }
            if reqs.iter().any(|q| matches!(q.t, 1 | 3 | 5)) {
                v.insert("C04");
            }
            if reqs.len() > 1 {
                v.insert("C05");
            }
            v.insert("C29");
        }
        Op::BadDebt(..) => {
            v.insert("C13");
        }
        Op::NewLiq(..) => {
            v.extend(["C11", "C29"]);
        }
        Op::NewBda(..) => {
            v.extend(["C13", "C29"]);
        }
        Op::NewInt(..) => {
            v.extend(["C14", "C29"]);
        }
        Op::UpdStatus(..) | Op::SetStatus(..) => {
            v.insert("C09");
        }
        Op::UpdPool(..) => {
            v.insert("C26");
        }
        Op::QueueRes(..) | Op::CancelRes(..) | Op::SetRes(..) => {
            v.insert("C10");
        }
        Op::PGulp(..) | Op::SetEmis(..) | Op::PClaim { .. } => {
            v.insert("C15");
        }
        Op::Dep { .. } => {
            v.extend(["C17", "C30"]);
        }
        Op::Que { .. } | Op::Deq { .. } | Op::Wd { .. } => {
            v.extend(["C18", "C30"]);
        }
        Op::Draw { .. } | Op::Donate { .. } => {
            v.insert("C28");
        }
        Op::BGulp | Op::BGulpPool(..) => {
            v.insert("C19");
        }
        Op::BClaim { .. } => {
            v.extend(["C19", "C20", "C30"]);
        }
        Op::AddReward { .. } => {
            v.insert("C21");
        }
        Op::UpdTkn => {
            v.insert("C09");
        }
        Op::BDrop | Op::EDrop(..) => {
            v.insert("C23");
        }
        Op::Dist | Op::QSwap(..) | Op::CSwap | Op::Swap => {
            v.insert("C22");
        }
        _ => {}
    }
    v
}

/// what a holder could claim now, however the bookkeeping is represented
pub fn pool_due(p: &PoolSt, u: A, tid: u32, now: u64) -> i128 {
    if !p.ecfg.contains_key(&tid) {
        return 0;
    }
    let mut q = p.clone();
    let i = (tid / 2) as usize;
    let t = p.list[i];
    let sc = pow10(p.cfg[&t].decimals);
    let d = &p.data[&t];
    let pos = p.posn(u);
    let (bal, sup) = if tid % 2 == 0 {
        (pos.lg(i as u32), d.d_supply)
    } else {
        (pos.cg(i as u32) + pos.sg(i as u32), d.b_supply)
    };
    q.emis(tid, sup, sc, u, bal, now);
    q.ue[&(u, tid)].1
}
pub fn back_due(s: &S, p: A, u: A) -> i128 {
    if s.pb(p).ecfg.is_none() {
        return 0;
    }
    let pb = {
        let mut x = s.pb(p);
        x.stream(s.ts);
        x
    };
    let ub = s.ub(p, u);
    let (ui, ua) = ub.ed.unwrap_or((0, 0));
    ua + mdf(ub.shares, pb.edata.unwrap().0 - ui, S7)
}
fn left_stream(exp: u64, eps: u64, now: u64) -> i128 {
    if exp > now {
        (exp - now) as i128 * eps as i128
    } else {
        0
    }
}

type D = (Vec<&'static str>, String);

/// differences between the predicted and the actual state after an accepted operation
pub fn diff(st: &Step, want: &S, got: &S, r: &Roles) -> Vec<D> {
    let mut out: Vec<D> = vec![];
    let op = &st.op;
    let name = opname(op);
    let add = |out: &mut Vec<D>, p: &[&'static str], m: String| out.push((p.to_vec(), m));
    let (mut has_user, mut fills): (bool, Vec<u32>) = (false, vec![]);
    let mut actor: Option<A> = None;
    let mut fill_targets: BTreeSet<A> = BTreeSet::new();
    if let Op::Submit { from, reqs, .. } = op {
        actor = Some(*from);
        for q in reqs {
            if q.t <= 5 {
                has_user = true;
            }
            if (6..=8).contains(&q.t) {
                fills.push(q.t);
                if let RA::A(a) = q.addr {
                    fill_targets.insert(a);
                }
            }
        }
    }
    let submit = matches!(op, Op::Submit { .. });
    for (wp, gp) in want.pools.iter().zip(got.pools.iter()) {
        let acted = match op {
            Op::Submit { p, .. }
            | Op::BadDebt(p, _)
            | Op::NewLiq(p, _, _)
            | Op::NewBda(p)
            | Op::NewInt(p, _)
            | Op::UpdStatus(p)
            | Op::SetStatus(p, _)
            | Op::UpdPool(p, _, _)
            | Op::QueueRes(p, _, _)
            | Op::CancelRes(p, _)
            | Op::SetRes(p, _)
            | Op::PGulp(p)
            | Op::SetEmis(p, _)
            | Op::SetAdmin(p, _)
            | Op::PClaim { p, .. } => r.pools[*p] == wp.me,
            _ => false,
        };
        let _ = acted;
        if wp.status != gp.status {
            add(&mut out, &["C09"], format!("{name}: pool status {} instead of {}", gp.status, wp.status));
        }
        if wp.admin != gp.admin {
            add(&mut out, &["C25"], format!("{name}: pool admin {} instead of {}", gp.admin, wp.admin));
        }
        if wp.bstop_rate != gp.bstop_rate {
            add(&mut out, &["C26", "C25"], format!("{name}: take rate {} instead of {}", gp.bstop_rate, wp.bstop_rate));
        }
        if wp.max_pos != gp.max_pos {
            add(&mut out, &["C26", "C25", "C07"], format!("{name}: max positions {} instead of {}", gp.max_pos, wp.max_pos));
        }
        if wp.list != gp.list || wp.cfg != gp.cfg {
            add(&mut out, &["C10"], format!("{name}: reserves {:?} instead of {:?}", (&gp.list, &gp.cfg), (&wp.list, &wp.cfg)));
        }
        if wp.queued != gp.queued {
            add(&mut out, &["C10"], format!("{name}: queued {:?} instead of {:?}", gp.queued, wp.queued));
        }
        for t in wp.list.iter() {
            let (a, b) = match (wp.data.get(t), gp.data.get(t)) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            // compare as of now: whether an untouched reserve is written is not observable
            let a = accrue(a, &wp.cfg[t], wp.bstop_rate, want.ts);
            let b = accrue(b, &gp.cfg[t], gp.bstop_rate, got.ts);
            if (a.d_rate, a.b_rate, a.ir_mod) != (b.d_rate, b.b_rate, b.ir_mod) {
                let m = format!(
                    "{name}: reserve {t} rates (d,b,mod) {:?} instead of {:?}",
                    (b.d_rate, b.b_rate, b.ir_mod),
                    (a.d_rate, a.b_rate, a.ir_mod)
                );
                let mut v = vec!["C03"];
                if matches!(op, Op::SetRes(..)) {
                    v.push("C10");
                }
                if b.b_rate > a.b_rate || b.d_rate < a.d_rate {
                    v.push("C01");
                }
                add(&mut out, &v, m);
            }
            if a.credit != b.credit {
                let m = format!("{name}: reserve {t} backstop credit {} instead of {}", b.credit, a.credit);
                let mut v = vec!["C03", "C14"];
                if b.credit > a.credit {
                    v.push("C01");
                }
                if matches!(op, Op::SetRes(..)) {
                    v.push("C10");
                }
                add(&mut out, &v, m);
            }
            if (a.b_supply, a.d_supply) != (b.b_supply, b.d_supply) {
                let m = format!(
                    "{name}: reserve {t} supplies (b,d) {:?} instead of {:?}",
                    (b.b_supply, b.d_supply),
                    (a.b_supply, a.d_supply)
                );
                let mut v = vec!["C02"];
                if b.b_supply > a.b_supply || b.d_supply < a.d_supply {
                    v.push("C01");
                }
                if submit && has_user {
                    v.extend(["C04", "C05"]);
                }
                if !fills.is_empty() {
                    v.push("C12");
                }
                if fills.contains(&7) || matches!(op, Op::BadDebt(..)) {
                    v.push("C13");
                }
                if matches!(op, Op::SetRes(..)) {
                    v.push("C10");
                }
                out.push((v, m));
            }
        }
        let us: BTreeSet<A> = wp.pos.keys().chain(gp.pos.keys()).copied().collect();
        for u in us {
            let (a, b) = (wp.posn(u), gp.posn(u));
            if a != b {
                let m = format!("{name}: positions of {u} are {:?} instead of {:?}", b, a);
                let mut v: Vec<&'static str> = vec![];
                if submit && Some(u) == actor {
                    v.push("C05");
                    if has_user {
                        v.push("C04");
                    }
                    if !fills.is_empty() {
                        v.push("C12");
                    }
                    if fills.contains(&7) {
                        v.push("C13");
                    }
                } else if submit && fill_targets.contains(&u) {
                    v.push("C12");
                    if u == r.backstop {
                        v.push("C13");
                    }
                } else if submit {
                    v.extend(["C05", "C25"]);
                } else if matches!(op, Op::BadDebt(..)) {
                    v.push("C13");
                } else {
                    v.extend(["C05", "C25"]);
                }
                add(&mut out, &v, m);
            }
        }
        let ks: BTreeSet<(A, u32)> = wp.auc.keys().chain(gp.auc.keys()).copied().collect();
        for k in ks {
            let (a, b) = (wp.auc.get(&k), gp.auc.get(&k));
            if a != b {
                let m = format!("{name}: auction {:?} is {:?} instead of {:?}", k, b, a);
                let mut v: Vec<&'static str> = vec![];
                match op {
                    Op::NewLiq(..) => v.push("C11"),
                    Op::NewBda(..) => v.push("C13"),
                    Op::NewInt(..) => v.push("C14"),
                    _ => v.push("C12"),
                }
                if k.1 == 1 {
                    v.push("C13");
                }
                if k.1 == 2 {
                    v.push("C14");
                }
                if k.1 == 0 {
                    v.push("C11");
                }
                add(&mut out, &v, m);
            }
        }
        if wp.pemis != gp.pemis {
            add(&mut out, &["C15"], format!("{name}: emission shares {:?} instead of {:?}", gp.pemis, wp.pemis));
        }
        // streams, compared by what they pay
        let tids: BTreeSet<u32> = wp.ecfg.keys().chain(gp.ecfg.keys()).copied().collect();
        for tid in tids {
            let (a, b) = (wp.ecfg.get(&tid), gp.ecfg.get(&tid));
            let la = a.map(|x| left_stream(x.0, x.1, want.ts)).unwrap_or(0);
            let lb = b.map(|x| left_stream(x.0, x.1, got.ts)).unwrap_or(0);
            if la != lb || a.is_some() != b.is_some() {
                add(&mut out, &["C15"], format!("{name}: stream {tid} has {lb} left instead of {la} ({:?} vs {:?})", b, a));
                continue;
            }
            if a.is_none() {
                continue;
            }
            let us: BTreeSet<A> =
                wp.pos.keys().chain(gp.pos.keys()).copied().chain(wp.ue.keys().chain(gp.ue.keys()).map(|x| x.0)).collect();
            for u in us {
                let (x, y) = (pool_due(wp, u, tid, want.ts), pool_due(gp, u, tid, got.ts));
                if (x - y).abs() > 1 {
                    add(&mut out, &["C15"], format!("{name}: user {u} is due {y} instead of {x} from stream {tid}"));
                }
            }
        }
    }
    // backstop
    let ps: BTreeSet<A> = want.back.pb.keys().chain(got.back.pb.keys()).copied().collect();
    let target: Option<A> = match op {
        Op::Dep { p, .. } | Op::Que { p, .. } | Op::Deq { p, .. } | Op::Wd { p, .. } | Op::Draw { p, .. } | Op::Donate { p, .. } => {
            Some(*p)
        }
        Op::Submit { p, .. } => Some(r.pools[*p]),
        _ => None,
    };
    let claim = matches!(op, Op::BClaim { .. });
    for p in ps.iter() {
        let (a, b) = (want.pb(*p), got.pb(*p));
        if (a.shares, a.tokens, a.q4w) != (b.shares, b.tokens, b.q4w) {
            let m = format!(
                "{name}: backstop of pool {p} (shares,tokens,queued) {:?} instead of {:?}",
                (b.shares, b.tokens, b.q4w),
                (a.shares, a.tokens, a.q4w)
            );
            let mut v: Vec<&'static str> = vec![];
            if target.is_some() && target != Some(*p) {
                v.push("C28");
            }
            if let Op::BClaim { pools, .. } = op {
                if !pools.contains(p) {
                    v.push("C28");
                }
            }
            match op {
                Op::Dep { .. } => v.extend(["C17"]),
                Op::Wd { .. } => v.extend(["C17", "C18"]),
                Op::Que { .. } | Op::Deq { .. } => v.extend(["C18", "C17"]),
                Op::Draw { .. } | Op::Donate { .. } => v.extend(["C28", "C17"]),
                Op::BClaim { .. } => v.extend(["C20"]),
                Op::Submit { .. } => {
                    v.push("C28");
                    if !fills.is_empty() {
                        v.push("C12");
                    }
                    if fills.contains(&7) {
                        v.push("C13");
                    }
                    if fills.contains(&8) {
                        v.push("C14");
                    }
                }
                _ => v.push("C28"),
            }
            add(&mut out, &v, m);
        }
        if a.emis != b.emis {
            add(&mut out, &["C19", "C28"], format!("{name}: pool {p} has {} emissions assigned instead of {}", b.emis, a.emis));
        }
        let la = a.ecfg.map(|x| left_stream(x.0, x.1, want.ts)).unwrap_or(0);
        let lb = b.ecfg.map(|x| left_stream(x.0, x.1, got.ts)).unwrap_or(0);
        if la != lb || a.ecfg.is_some() != b.ecfg.is_some() {
            add(&mut out, &["C19"], format!("{name}: backstop stream of {p} has {lb} left instead of {la}"));
        }
    }
    let us: BTreeSet<(A, A)> = want.back.ub.keys().chain(got.back.ub.keys()).copied().collect();
    for (p, u) in us {
        let (a, b) = (want.ub(p, u), got.ub(p, u));
        if a.shares != b.shares || a.q != b.q {
            let m = format!(
                "{name}: backstop balance of user {u} in {p} {:?} instead of {:?}",
                (b.shares, &b.q),
                (a.shares, &a.q)
            );
            let v: &[&'static str] = match op {
                Op::Dep { .. } if a.q == b.q => &["C17"],
                Op::Dep { .. } => &["C17", "C18"],
                Op::Wd { .. } | Op::Que { .. } | Op::Deq { .. } => &["C18"],
                Op::BClaim { .. } if a.q == b.q => &["C20"],
                Op::BClaim { .. } => &["C20", "C18"],
                Op::Draw { .. } | Op::Donate { .. } => &["C28"],
                _ => &["C18", "C28"],
            };
            let mut v = v.to_vec();
            if target.is_some() && target != Some(p) {
                v.push("C28");
            }
            if let Op::BClaim { pools, .. } = op {
                if !pools.contains(&p) {
                    v.push("C28");
                }
            }
            let mine = match op {
                Op::Dep { u: x, .. } | Op::Wd { u: x, .. } | Op::Que { u: x, .. } | Op::Deq { u: x, .. } => *x == u,
                Op::BClaim { to, .. } => *to == u,
                _ => false,
            };
            if !mine {
                v.push("C25");
            }
            add(&mut out, &v, m);
        }
        if want.pb(p).ecfg.is_some() && got.pb(p).ecfg.is_some() {
            let (x, y) = (back_due(want, p, u), back_due(got, p, u));
            if (x - y).abs() > 1 {
                let m = format!("{name}: user {u} is due {y} instead of {x} backstop emissions of {p}");
                if claim {
                    add(&mut out, &["C19", "C20"], m);
                } else {
                    add(&mut out, &["C19"], m);
                }
            }
        }
    }
    if want.back.rz != got.back.rz {
        add(&mut out, &["C21"], format!("{name}: reward zone {:?} instead of {:?}", got.back.rz, want.back.rz));
    }
    if want.back.last != got.back.last {
        add(&mut out, &["C19"], format!("{name}: last distribution {} instead of {}", got.back.last, want.back.last));
    }
    if want.back.lpv != got.back.lpv {
        add(&mut out, &["C09"], format!("{name}: LP token value {:?} instead of {:?}", got.back.lpv, want.back.lpv));
    }
    if want.emit != got.emit {
        let v: &[&'static str] = if want.emit.dropped != got.emit.dropped { &["C23"] } else { &["C22"] };
        add(&mut out, v, format!("{name}: emitter {:?} instead of {:?}", got.emit, want.emit));
    }
    let bs: BTreeSet<(T, A)> = want.bal.keys().chain(got.bal.keys()).copied().collect();
    for (t, a) in bs {
        let (x, y) = (want.b(t, a), got.b(t, a));
        if x != y {
            let m = format!("{name}: balance of actor {a} in asset {t} is {y} instead of {x}");
            let mut v: Vec<&'static str> = match op {
                Op::Submit { .. } => {
                    let mut v = vec!["C05"];
                    if has_user {
                        v.push("C04");
                    }
                    if !fills.is_empty() {
                        v.push("C12");
                    }
                    if fills.contains(&7) {
                        v.push("C13");
                    }
                    if fills.contains(&8) {
                        v.push("C14");
                    }
                    v
                }
                Op::PClaim { .. } => vec!["C15"],
                Op::Dep { .. } | Op::Wd { .. } => vec!["C17", "C16"],
                Op::Draw { .. } | Op::Donate { .. } => vec!["C28", "C16"],
                Op::BClaim { .. } => vec!["C20"],
                Op::BDrop | Op::EDrop(..) => vec!["C23"],
                Op::Dist | Op::Swap => vec!["C22"],
                _ => vec!["C25"],
            };
            if submit && Some(a) != actor && !r.pools.contains(&a) {
                v.push("C25");
            }
            if r.pools.contains(&a) && y < x {
                v.push("C01");
            }
            if a == r.backstop && t == r.lp && y < x {
                v.push("C16");
            }
            add(&mut out, &v, m);
        }
    }
    if want.allow != got.allow {
        let v: &[&'static str] = &["C15", "C19"];
        add(&mut out, v, format!("{name}: BLND granted to pools {:?} instead of {:?}", got.allow, want.allow));
    }
    out
}

/// the value an accepted operation must return
pub fn want_ret(st: &Step, r: &Roles) -> Option<(Ret, &'static [&'static str])> {
    let (pre, post) = (&st.pre, match &st.pred {
        Ok(s) => s,
        _ => return None,
    });
    Some(match &st.op {
        Op::Submit { p, from, .. } => (Ret::P(post.pools[*p].posn(*from)), &["C05"]),
        Op::NewLiq(p, u, _) => (Ret::Au(post.pools[*p].auc[&(*u, 0)].clone()), &["C11"]),
        Op::NewBda(p) => (Ret::Au(post.pools[*p].auc[&(r.backstop, 1)].clone()), &["C13"]),
        Op::NewInt(p, _) => (Ret::Au(post.pools[*p].auc[&(r.backstop, 2)].clone()), &["C14"]),
        Op::UpdStatus(p) => (Ret::U(post.pools[*p].status), &["C09"]),
        Op::SetRes(p, t) => (Ret::U(post.pools[*p].cfg[t].index), &["C10"]),
        Op::PGulp(p) => (Ret::I(pre.pb(r.pools[*p]).emis), &["C15"]),
        Op::PClaim { to, .. } => (Ret::I(post.b(r.blnd, *to) - pre.b(r.blnd, *to)), &["C15"]),
        Op::Dep { u, p, .. } => (Ret::I(post.ub(*p, *u).shares - pre.ub(*p, *u).shares), &["C17"]),
        Op::Wd { u, .. } => (Ret::I(post.b(r.lp, *u) - pre.b(r.lp, *u)), &["C17"]),
        Op::Que { u, p, .. } => {
            let q = *post.ub(*p, *u).q.last().unwrap();
            (Ret::Q(q.0, q.1), &["C18"])
        }
        Op::BGulpPool(p) => (Ret::I(pre.pb(*p).emis), &["C19"]),
        Op::UpdTkn => (Ret::Pair(post.back.lpv.0, post.back.lpv.1), &["C09"]),
        _ => return None,
    })
}

impl<'a> H<'a> {
    pub fn new(cfg: &WCfg, prop: &'static str, ctx: &'a mut Ctx) -> H<'a> {
        let w = World::new(cfg);
        let s = w.snap();
        H { w, s, ctx, prop, ops: vec![], check: true }
    }
    pub fn step(&mut self, op: Op) -> Result<Step, Fail> {
        let pre = self.s.clone();
        WIDE.with(|x| x.set(false));
        let pred = model::apply(&pre, &self.w.r, &op);
        let wide = WIDE.with(|x| x.get());
        let ex = self.w.exec(&op);
        let auths = if ex.ok() { self.w.signers() } else { BTreeMap::new() };
        let post = match (&op, &pred) {
            (Op::Price(..) | Op::NoPrice(..) | Op::LpRate(..) | Op::Mint(..) | Op::Xfer(..), Ok(s)) => s.clone(),
            _ if ex.ok() => self.w.snap(),
            _ => pre.clone(),
        };
        let st = Step { op: op.clone(), pre, pred, wide, res: ex.res, post: post.clone(), auths };
        let name = opname(&op);
        self.ctx.note(|| {
            let o = match (&st.res, &st.pred) {
                (Ok(v), Ok(_)) => format!("ok {:?}", v),
                (Ok(v), Err(r)) => format!("ACCEPTED {:?} (rules refuse: {})", v, r.0),
                (Err(e), Ok(_)) => format!("REFUSED {} (rules accept)", e),
                (Err(_), Err(r)) => format!("refused: {}", r.0),
            };
            format!("{:?} -> {}", op, o)
        });
        self.ctx.label(&match (&st.res, &st.pred) {
            (Ok(_), _) => format!("{name} ok"),
            (Err(_), Err(r)) => format!("{name} refused {}", r.0),
            (Err(_), Ok(_)) => format!("{name} refused unexpectedly{}", if wide { " (wide)" } else { "" }),
        });
        self.ops.push(op);
        self.s = post;
        if st.wide {
            self.ctx.label("wide (not compared)");
            return Ok(st);
        }
        if !self.check {
            return Ok(st);
        }
        let all = self.prop == "*";
        match (&st.res, &st.pred) {
            (Ok(ret), Ok(want)) => {
                for (ps, m) in diff(&st, want, &st.post, &self.w.r) {
                    if all || ps.contains(&self.prop) {
                        return fail(&format!("diff-{name}"), format!("{m} {:?}", if all { ps } else { vec![] }));
                    }
                    self.ctx.label("difference belonging to another property");
                }
                if let Some((v, ps)) = want_ret(&st, &self.w.r) {
                    if v != *ret && (all || ps.contains(&self.prop)) {
                        return fail(&format!("ret-{name}"), format!("{name} returned {:?} instead of {:?}", ret, v));
                    }
                }
            }
            (Ok(_), Err(rj)) => {
                let ps = props_accept(&st.op, rj.0);
                if ps.contains(&self.prop) || all {
                    return fail(&format!("accepted-{}", rj.0), format!("{name} was accepted although it must be refused ({}) {:?}", rj.0, ps));
                }
                self.ctx.label("acceptance belonging to another property");
            }
            (Err(e), Ok(_)) => {
                let ps = props_refuse(&st);
                if all || ps.contains(self.prop) {
                    return fail(&format!("refused-{name}"), format!("{name} was refused although the rules allow it: {e} {:?}", ps));
                }
                self.ctx.label("refusal belonging to another property");
            }
            (Err(_), Err(_)) => {}
        }
        Ok(st)
    }
}
