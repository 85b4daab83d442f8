// ------------------------------------------------------------------ emission streams, from scratch
/// One stream of BLND over time, followed from what is observable: when it was funded, with how
/// much, and who held what share of it in between. Holders' earnings are integrated over reals
/// (f64, with error bounds) instead of the contracts' indexes.
#[derive(Clone, Default, Debug)]
pub struct Flow {
    eps: i128,
    exp: u64,
    on: bool,
    /// per holder: earned and not paid, and how much of it rounding may have taken
    due: BTreeMap<A, (f64, f64)>,
    /// ran while nobody held a share; whoever comes next may get it
    loose: f64,
    pub funded: i128,
    pub paid: i128,
}
impl Flow {
    fn pass(&mut self, from: u64, to: u64, hold: &BTreeMap<A, i128>, tot: i128) {
        if !self.on || to <= from {
            return;
        }
        let dt = to.min(self.exp).saturating_sub(from.min(self.exp)) as f64;
        let amt = dt * self.eps as f64;
        if amt <= 0.0 {
            return;
        }
        if tot <= 0 {
            self.loose += amt;
            return;
        }
        for (u, b) in hold {
            if *b > 0 {
                self.due.entry(*u).or_insert((0.0, 0.0)).0 += amt * (*b as f64) / (tot as f64);
            }
        }
    }
    /// each update may round the index down by one, i.e. by bal/scalar for a holder
    fn round(&mut self, hold: &BTreeMap<A, i128>, scalar: i128) {
        if !self.on {
            return;
        }
        for (u, b) in hold {
            self.due.entry(*u).or_insert((0.0, 0.0)).1 += (*b as f64) / (scalar as f64) + 1.0;
        }
    }
    /// a batch of `amt` arrives: with the rest of the old one it is spread over seven days
    fn fund(&mut self, now: u64, amt: i128, slack: i128, got: Option<(u64, u64)>) -> Result<(), String> {
        let left = if self.on && self.exp > now { (self.exp - now) as i128 * self.eps } else { 0 };
        let (exp, eps) = match got {
            Some(x) => x,
            None => return Err("no stream was started".into()),
        };
        let want = left + amt;
        let run = eps as i128 * WEEK as i128;
        if exp != now + WEEK || run > want || run + (WEEK as i128) + slack < want {
            return Err(format!(
                "a batch of {amt} with {left} left over runs at {eps}/s for {} s ({run}) instead of {want} over seven days",
                exp as i128 - now as i128
            ));
        }
        self.eps = eps as i128;
        self.exp = exp;
        self.on = true;
        self.funded += amt;
        Ok(())
    }
    fn bounds(&self, u: A) -> (f64, f64) {
        let (x, e) = self.due.get(&u).copied().unwrap_or((0.0, 0.0));
        (x - e - x * 1e-9 - 2.0, x + x * 1e-9 + 2.0 + self.loose)
    }
}

// ------------------------------------------------------------------ C15
#[derive(Default)]
struct G15 {
    f: BTreeMap<(usize, u32), Flow>,
    granted: BTreeMap<usize, i128>,
    paid: BTreeMap<usize, i128>,
}
fn side(p: &PoolSt, tid: u32) -> (BTreeMap<A, i128>, i128) {
    let i = tid / 2;
    let m: BTreeMap<A, i128> = p
        .pos
        .iter()
        .map(|(u, x)| (*u, if tid % 2 == 0 { x.lg(i) } else { x.cg(i) + x.sg(i) }))
        .filter(|x| x.1 > 0)
        .collect();
    let t = m.values().sum();
    (m, t)
}
impl Ghost for G15 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            if matches!(st.op, Op::SetEmis(..)) {
                h.ctx.hit(&format!("configuration refused: {}", st.rej()));
            }
            return Ok(());
        }
        // time
        for ((pi, tid), f) in self.f.iter_mut() {
            let (m, t) = side(&st.pre.pools[*pi], *tid);
            f.pass(st.pre.ts, st.post.ts, &m, t);
        }
        // roundings of an operation on the pool
        let on: Option<usize> = match &st.op {
            Op::Submit { p, .. } | Op::BadDebt(p, _) | Op::NewLiq(p, _, _) | Op::PGulp(p) | Op::PClaim { p, .. } => Some(*p),
            _ => None,
        };
        if let Some(pi) = on {
            let n = match &st.op {
                Op::Submit { reqs, .. } => reqs.len(),
                _ => 2,
            };
            for ((pj, tid), f) in self.f.iter_mut() {
                if *pj == pi {
                    let pl = &st.pre.pools[pi];
                    let sc = pow10(pl.cfg[&pl.list[(*tid / 2) as usize]].decimals);
                    let (m, _) = side(pl, *tid);
                    for _ in 0..n {
                        f.round(&m, sc);
                    }
                }
            }
        }
        match &st.op {
            Op::PGulp(pi) => {
                let v = st.pre.pb(h.w.r.pools[*pi]).emis;
                *self.granted.entry(*pi).or_insert(0) += v;
                let mut sum = 0;
                for (tid, share) in st.pre.pools[*pi].pemis.iter() {
                    sum += *share;
                    let amt = mdf(*share as i128, v, S7);
                    let f = self.f.entry((*pi, *tid)).or_default();
                    if let Err(m) = f.fund(st.post.ts, amt, 1, st.post.pools[*pi].ecfg.get(tid).copied()) {
                        return fail("stream", m);
                    }
                    h.ctx.hit(if f.funded > amt { "stream refilled" } else { "stream started" });
                }
                if sum > S7 as u64 {
                    return fail("shares", format!("the configured shares sum to {sum}"));
                }
            }
            Op::SetEmis(pi, _) => {
                let t: u128 = st.post.pools[*pi].pemis.values().map(|x| *x as u128).sum();
                if t > S7 as u128 {
                    return fail("shares", format!("the configured shares sum to {t}"));
                }
            }
            Op::PClaim { p, from, ids, to } => {
                let r = &h.w.r;
                let got = if *to == r.backstop { return Ok(()) } else { st.post.b(r.blnd, *to) - st.pre.b(r.blnd, *to) };
                let set: BTreeSet<u32> = ids.iter().copied().collect();
                let (mut lo, mut hi) = (0.0, 0.0);
                for tid in set.iter() {
                    if let Some(f) = self.f.get(&(*p, *tid)) {
                        let b = f.bounds(*from);
                        lo += b.0.max(0.0);
                        hi += b.1;
                    }
                }
                if (got as f64) < lo || got as f64 > hi {
                    return fail(
                        "claim",
                        format!("a claim of {:?} by {from} paid {got}, holding shares over time earned between {lo:.1} and {hi:.1}", ids),
                    );
                }
                for tid in set.iter() {
                    if let Some(f) = self.f.get_mut(&(*p, *tid)) {
                        f.due.insert(*from, (0.0, 0.0));
                    }
                }
                *self.paid.entry(*p).or_insert(0) += got;
                let (a, b) = (self.paid[p], self.granted.get(p).copied().unwrap_or(0));
                if a > b {
                    return fail("overpaid", format!("pool {p} has paid {a} of {b} granted to it"));
                }
                if got > 0 {
                    h.ctx.hit(if ids.len() > 1 { "several streams claimed" } else { "claimed" });
                } else {
                    h.ctx.label("nothing to claim");
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn end(&mut self, h: &mut H, s: &mut Src, _g: &Gen) -> Result<(), Fail> {
        s.span();
        // everyone claims everything: what was promised is there
        if s.chance(1, 2) {
            let d = s.below(8) * DAY;
            let st = h.step(Op::Time(d, 100))?;
            self.step(h, &st)?;
        }
        for pi in 0..h.w.r.pools.len() {
            let tids: Vec<u32> = self.f.keys().filter(|x| x.0 == pi).map(|x| x.1).collect();
            if tids.is_empty() {
                continue;
            }
            let us: BTreeSet<A> = self.f.values().flat_map(|f| f.due.keys().copied()).collect();
            for u in us {
                if u == h.w.r.backstop {
                    continue;
                }
                let op = Op::PClaim { p: pi, from: u, ids: tids.clone(), to: u };
                let st = h.step(op)?;
                if !st.ok() && !st.wide {
                    return fail("unpayable", format!("the last claims of {u} were refused: {:?}", st.res));
                }
                self.step(h, &st)?;
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C16
#[derive(Default)]
struct G16 {
    surplus: Option<i128>,
}
fn lp_surplus(s: &S, r: &Roles) -> i128 {
    s.b(r.lp, r.backstop) - s.back.pb.values().map(|x| x.tokens).sum::<i128>()
}
impl Ghost for G16 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let r = h.w.r.clone();
        let s = &st.post;
        let now = lp_surplus(s, &r);
        if now < 0 {
            return fail("short", format!("after {} the deposits exceed the LP tokens held by {}", opname(&st.op), -now));
        }
        if !st.ok() {
            return Ok(());
        }
        let was = self.surplus.unwrap_or_else(|| lp_surplus(&st.pre, &r));
        self.surplus = Some(now);
        let (lo, hi) = match &st.op {
            Op::Mint(t, a, v) if *t == r.lp && *a == r.backstop => (*v, *v),
            Op::Xfer(t, a, b, v) if *t == r.lp && a != b && *b == r.backstop => (*v, *v),
            Op::Xfer(t, a, b, v) if *t == r.lp && a != b && *a == r.backstop => (-*v, -*v),
            Op::Draw { amt, to, .. } if *to == r.backstop => (*amt, *amt),
            // splitting the LP tokens over the pools rounds down
            Op::BClaim { pools, .. } => (0, pools.len() as i128),
            _ => (0, 0),
        };
        let is_submit_self = matches!(&st.op, Op::Submit { from, to, spender, .. } if [*from, *to, *spender].contains(&r.backstop));
        if (now - was < lo || now - was > hi) && !is_submit_self {
            return fail(
                "ledger",
                format!("{} changed LP tokens held minus recorded deposits by {} instead of {lo}..{hi}", opname(&st.op), now - was),
            );
        }
        for (p, b) in s.back.pb.iter() {
            let mut sh = 0;
            let mut q = 0;
            for ((pp, u), x) in s.back.ub.iter() {
                if pp == p {
                    let y: i128 = x.q.iter().map(|z| z.0).sum();
                    if x.shares < 0 || x.q.iter().any(|z| z.0 < 0) {
                        return fail("negative", format!("user {u} has {:?}", x));
                    }
                    sh += x.shares + y;
                    q += y;
                }
            }
            if sh != b.shares || q != b.q4w || b.tokens < 0 {
                return fail(
                    "sums",
                    format!("after {} pool {p} records ({}, {}), its users hold ({sh}, {q}) shares and queued", opname(&st.op), b.shares, b.q4w),
                );
            }
        }
        if st.pre.back.pb.iter().any(|(p, b)| s.pb(*p) != *b) || st.pre.back.pb.len() != s.back.pb.len() {
            h.ctx.hit(&format!("pool balance changed by {}", opname(&st.op)));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C17
struct G17;
impl Ghost for G17 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            match (&st.op, st.rej()) {
                (Op::Dep { .. } | Op::Wd { .. }, "dust") => h.ctx.hit(&format!("{} refused as dust", opname(&st.op))),
                _ => {}
            }
            return Ok(());
        }
        for (p, b) in st.post.back.pb.iter() {
            let a = st.pre.pb(*p);
            if a == *b || a.shares == 0 || b.shares == 0 {
                continue;
            }
            let down = rat(b.tokens, a.shares) < rat(a.tokens, b.shares);
            let drawn = matches!(&st.op, Op::Draw { p: q, .. } if q == p)
                || matches!(&st.op, Op::Submit { p: q, reqs, .. } if h.w.r.pools[*q] == *p && reqs.iter().any(|x| x.t == 7));
            if down && !drawn {
                return fail(
                    "price-fell",
                    format!("{} lowered the value of a share of pool {p}: {}/{} -> {}/{}", opname(&st.op), a.tokens, a.shares, b.tokens, b.shares),
                );
            }
            if drawn && (a.shares, a.q4w) != (b.shares, b.q4w) {
                return fail("draw-shares", format!("a draw changed shares of pool {p}"));
            }
        }
        match &st.op {
            Op::Dep { u, p, amt } => {
                let a = st.pre.pb(*p);
                let got = st.post.ub(*p, *u).shares - st.pre.ub(*p, *u).shares;
                let exact = if a.shares == 0 {
                    got == *amt
                } else {
                    // got = floor(amt * shares / tokens)
                    rat(got, a.tokens) <= rat(*amt, a.shares) && rat(got + 1, a.tokens) > rat(*amt, a.shares)
                };
                if !exact || got <= 0 {
                    return fail("mint", format!("{amt} tokens bought {got} shares at {}/{}", a.tokens, a.shares));
                }
                let paid = st.pre.b(h.w.r.lp, *u) - st.post.b(h.w.r.lp, *u);
                if paid != *amt {
                    return fail("mint-paid", format!("a deposit of {amt} cost {paid}"));
                }
                h.ctx.hit(if a.shares == 0 {
                    "deposit one to one"
                } else if a.tokens != a.shares {
                    "deposit at another price"
                } else {
                    "deposit"
                });
                if a.q4w == a.shares && a.shares > 0 {
                    h.ctx.label("deposit while everything is queued");
                }
            }
            Op::Wd { u, p, amt } => {
                let a = st.pre.pb(*p);
                let got = st.post.b(h.w.r.lp, *u) - st.pre.b(h.w.r.lp, *u);
                let x = rat(*amt, a.tokens);
                if got <= 0 || rat(got, a.shares) > x || rat(got + 1, a.shares) <= x {
                    return fail("burn", format!("{amt} shares paid {got} tokens at {}/{}", a.tokens, a.shares));
                }
                h.ctx.hit(if a.tokens != a.shares { "withdrawal at another price" } else { "withdrawal" });
            }
            Op::Draw { p, .. } if st.pre.pb(*p).shares > 0 => h.ctx.hit("draw"),
            Op::Donate { p, .. } if st.pre.pb(*p).shares > 0 => h.ctx.hit("donation"),
            _ => {}
        }
        Ok(())
    }
    fn end(&mut self, h: &mut H, s: &mut Src, g: &Gen) -> Result<(), Fail> {
        // one account in and out at the end never gains
        s.span();
        let p = *s.pick(&h.w.r.pools);
        let u = h.w.r.users[3 % h.w.r.users.len()];
        let n = s.range(1, 3);
        let before = h.s.b(h.w.r.lp, u);
        let had = {
            let x = h.s.ub(p, u);
            x.shares != 0 || !x.q.is_empty()
        };
        // what was donated while there were no shares belongs to the next depositor
        let orphan = h.s.pb(p).shares == 0 && h.s.pb(p).tokens > 0;
        if had || orphan {
            return Ok(());
        }
        let mut ok = false;
        for _ in 0..n {
            let a = g.supply_amt(s, h.w.r.lp).min(100_000 * S7);
            let st = h.step(Op::Dep { u, p, amt: a })?;
            self.step(h, &st)?;
            ok |= st.ok();
        }
        if !ok {
            return Ok(());
        }
        let mut left = h.s.ub(p, u).shares;
        for _ in 0..n {
            let a = part(s, left).max(1).min(left);
            if a > 0 {
                h.step(Op::Que { u, p, amt: a })?;
            }
            left = h.s.ub(p, u).shares;
        }
        h.step(Op::Time(21 * DAY, 400))?;
        let q: i128 = h.s.ub(p, u).q.iter().map(|x| x.0).sum();
        let st = h.step(Op::Wd { u, p, amt: q })?;
        self.step(h, &st)?;
        let after = h.s.b(h.w.r.lp, u);
        if after > before {
            return fail("round-trip", format!("depositing and withdrawing gained {}", after - before));
        }
        h.ctx.hit("round trip");
        Ok(())
    }
}

// ------------------------------------------------------------------ C18
#[derive(Default)]
struct G18 {
    q: BTreeMap<(A, A), Vec<(i128, u64)>>,
    free: BTreeMap<(A, A), i128>,
}
impl Ghost for G18 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let now = st.pre.ts;
        if !st.ok() {
            if matches!(st.op, Op::Que { .. } | Op::Deq { .. } | Op::Wd { .. }) {
                h.ctx.hit(&format!("{} refused: {}", opname(&st.op), st.rej()));
            }
            return Ok(());
        }
        match &st.op {
            Op::Dep { u, p, .. } => {
                let d = st.post.ub(*p, *u).shares - st.pre.ub(*p, *u).shares;
                *self.free.entry((*p, *u)).or_insert(0) += d;
            }
            Op::BClaim { to, pools, .. } => {
                for p in pools.iter().collect::<BTreeSet<_>>() {
                    let d = st.post.ub(*p, *to).shares - st.pre.ub(*p, *to).shares;
                    if d < 0 {
                        return fail("claim-took", format!("a claim took {} shares of {to}", -d));
                    }
                    *self.free.entry((*p, *to)).or_insert(0) += d;
                }
            }
            Op::Que { u, p, amt } => {
                let f = self.free.entry((*p, *u)).or_insert(0);
                let q = self.q.entry((*p, *u)).or_default();
                if *amt > *f || *amt < 0 {
                    return fail("over-queued", format!("{amt} of {} unqueued shares were queued", f));
                }
                if st.pre.ub(*p, *u).q.len() >= 21 {
                    return fail("too-many-entries", format!("entry number {} was queued", st.pre.ub(*p, *u).q.len() + 1));
                }
                *f -= amt;
                if *amt > 0 {
                    q.push((*amt, now));
                }
                h.ctx.hit(if q.len() >= 20 { "queued near 21 entries" } else { "queued" });
            }
            Op::Deq { u, p, amt } => {
                let q = self.q.entry((*p, *u)).or_default();
                let tot: i128 = q.iter().map(|x| x.0).sum();
                if *amt > tot || *amt < 0 {
                    return fail("over-dequeued", format!("{amt} of {tot} queued shares were dequeued"));
                }
                take_front(q, *amt);
                *self.free.entry((*p, *u)).or_insert(0) += amt;
                h.ctx.hit("dequeued");
            }
            Op::Wd { u, p, amt } => {
                let q = self.q.entry((*p, *u)).or_default();
                let tot: i128 = q.iter().take_while(|x| x.1 + 21 * DAY <= now).map(|x| x.0).sum();
                if *amt > tot || *amt < 0 {
                    return fail("too-early", format!("{amt} shares were withdrawn, {tot} have waited 21 days: {:?} at {now}", q));
                }
                take_front(q, *amt);
                h.ctx.hit(if q.is_empty() { "withdrawn, queue emptied" } else { "withdrawn, entries remain" });
            }
            _ => {}
        }
        for ((p, u), x) in st.post.back.ub.iter() {
            let want = self.q.get(&(*p, *u)).cloned().unwrap_or_default();
            let got: Vec<(i128, u64)> = x.q.iter().filter(|y| y.0 != 0).map(|y| (y.0, y.1 - 21 * DAY)).collect();
            if merged(&want) != merged(&got) {
                return fail("queue", format!("after {} the queue of {u} in {p} is {:?} instead of {:?}", opname(&st.op), got, want));
            }
            let f = self.free.get(&(*p, *u)).copied().unwrap_or(0);
            if f != x.shares {
                return fail("free", format!("after {} user {u} has {} unqueued shares in {p} instead of {f}", opname(&st.op), x.shares));
            }
        }
        Ok(())
    }
}
fn take_front(q: &mut Vec<(i128, u64)>, mut amt: i128) {
    while amt > 0 && !q.is_empty() {
        let x = q[0].0.min(amt);
        q[0].0 -= x;
        amt -= x;
        if q[0].0 == 0 {
            q.remove(0);
        }
    }
}
fn merged(q: &[(i128, u64)]) -> Vec<(i128, u64)> {
    let mut v: Vec<(i128, u64)> = vec![];
    for x in q {
        match v.last_mut() {
            Some(y) if y.1 == x.1 => y.0 += x.0,
            _ => v.push(*x),
        }
    }
    v
}

// ------------------------------------------------------------------ C19
#[derive(Default)]
struct G19 {
    f: BTreeMap<A, Flow>,
    received: i128,
    assigned: i128,
    part: BTreeMap<A, i128>,
    granted: BTreeMap<A, i128>,
    claimed: i128,
}
fn unqueued(s: &S, p: A) -> (BTreeMap<A, i128>, i128) {
    let m: BTreeMap<A, i128> = s.back.ub.iter().filter(|(k, x)| k.0 == p && x.shares > 0).map(|(k, x)| (k.1, x.shares)).collect();
    let t = m.values().sum();
    (m, t)
}
impl Ghost for G19 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if !st.ok() {
            return Ok(());
        }
        let r = h.w.r.clone();
        for (p, f) in self.f.iter_mut() {
            let (m, t) = unqueued(&st.pre, *p);
            f.pass(st.pre.ts, st.post.ts, &m, t);
        }
        let touched: Vec<A> = match &st.op {
            Op::Dep { p, .. } | Op::Que { p, .. } | Op::Deq { p, .. } => vec![*p],
            Op::BClaim { pools, .. } => pools.iter().flat_map(|p| [*p, *p]).collect(),
            Op::BGulp => st.pre.back.rz.clone(),
            _ => vec![],
        };
        for p in touched {
            if let Some(f) = self.f.get_mut(&p) {
                f.round(&unqueued(&st.pre, p).0, S7);
            }
        }
        match &st.op {
            Op::Dist | Op::Swap => {
                let d = st.post.b(r.blnd, r.backstop) - st.pre.b(r.blnd, r.backstop);
                self.received += d;
            }
            Op::BGulp => {
                let want: i128 = self.received - self.assigned;
                let rz = &st.pre.back.rz;
                let un = |p: A| {
                    let b = st.pre.pb(p);
                    // value of what is not queued
                    (b.tokens, b.shares, b.q4w)
                };
                let tot: f64 = rz.iter().map(|p| val_un(un(*p))).sum();
                let mut given = 0i128;
                for p in rz {
                    let share = val_un(un(*p)) / tot;
                    let part = st.post.pb(*p).emis - st.pre.pb(*p).emis;
                    *self.part.entry(*p).or_insert(0) += part;
                    given += part;
                    // one 1e-7 of the batch is lost to the rounding of the share
                    let tol = want as f64 * 2.0e-7 + 3.0 + want as f64 * 3.0 / (tot.max(1.0));
                    if (part as f64 - share * 0.3 * want as f64).abs() > tol {
                        return fail(
                            "pool-part",
                            format!("pool {p} with {:.6} of the unqueued deposits was assigned {part} of a batch of {want}", share),
                        );
                    }
                    let f = self.f.entry(*p).or_default();
                    let left = if f.on && f.exp > st.post.ts { (f.exp - st.post.ts) as i128 * f.eps } else { 0 };
                    let cfg = st.post.pb(*p).ecfg;
                    let run = cfg.map(|x| x.1 as i128 * WEEK as i128).unwrap_or(0);
                    let inc = run - left;
                    let ideal = share * 0.7 * want as f64;
                    if (inc as f64) > ideal + tol || (inc as f64) < ideal - tol - WEEK as f64 - 1.0 {
                        return fail(
                            "depositor-part",
                            format!("the depositors of pool {p} with {:.6} of the unqueued deposits were given {inc} of a batch of {want}", share),
                        );
                    }
                    if cfg.map(|x| x.0) != Some(st.post.ts + WEEK) {
                        return fail("stream", format!("the stream of pool {p} is {:?}", cfg));
                    }
                    given += inc;
                    f.eps = cfg.unwrap().1 as i128;
                    f.exp = st.post.ts + WEEK;
                    f.on = true;
                    f.funded += inc;
                    h.ctx.hit(if left > 0 { "stream refilled" } else { "stream started" });
                }
                for (p, b) in st.post.back.pb.iter() {
                    if !rz.contains(p) && (b.emis != st.pre.pb(*p).emis || b.ecfg != st.pre.pb(*p).ecfg) {
                        return fail("outsider", format!("pool {p} outside the reward zone was given emissions"));
                    }
                }
                if given > want {
                    return fail("over-assigned", format!("{given} was assigned, {want} was received and not yet assigned"));
                }
                self.assigned += want;
            }
            Op::PGulp(_) | Op::BGulpPool(_) => {
                let p = match &st.op {
                    Op::PGulp(pi) => r.pools[*pi],
                    Op::BGulpPool(p) => *p,
                    _ => unreachable!(),
                };
                let d = st.post.allow.get(&p).copied().unwrap_or(0) - st.pre.allow.get(&p).copied().unwrap_or(0);
                let g = self.granted.entry(p).or_insert(0);
                *g += d;
                let a = self.part.get(&p).copied().unwrap_or(0);
                if *g != a || st.post.pb(p).emis != 0 {
                    return fail("collected", format!("pool {p} has been granted {g} of {a} assigned to it"));
                }
                h.ctx.hit("assigned part collected");
            }
            Op::BClaim { from, pools, .. } => {
                let got = st.pre.b(r.blnd, r.backstop) - st.post.b(r.blnd, r.backstop);
                let (mut lo, mut hi) = (0.0, 0.0);
                let set: BTreeSet<A> = pools.iter().copied().collect();
                for p in set.iter() {
                    if let Some(f) = self.f.get_mut(p) {
                        let b = f.bounds(*from);
                        lo += b.0.max(0.0);
                        hi += b.1;
                        f.due.insert(*from, (0.0, 0.0));
                    }
                }
                if (got as f64) < lo || got as f64 > hi {
                    return fail(
                        "claim",
                        format!("a claim on {:?} by {from} was worth {got}, depositing over time earned between {lo:.1} and {hi:.1}", pools),
                    );
                }
                self.claimed += got;
                let gr: i128 = self.granted.values().sum();
                if self.claimed + gr > self.received {
                    return fail("overpaid", format!("claims {} and grants {gr} exceed the {} received", self.claimed, self.received));
                }
                if got > 0 {
                    h.ctx.hit("claimed");
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn end(&mut self, h: &mut H, s: &mut Src, _g: &Gen) -> Result<(), Fail> {
        s.span();
        if s.chance(1, 2) {
            let d = s.below(9) * DAY;
            let st = h.step(Op::Time(d, 100))?;
            self.step(h, &st)?;
        }
        let all: Vec<(A, A)> = self.f.iter().flat_map(|(p, f)| f.due.keys().map(move |u| (*p, *u))).collect();
        for (p, u) in all {
            if h.s.pb(p).tokens == 0 && h.s.pb(p).shares > 0 {
                continue;
            }
            let st = h.step(Op::BClaim { from: u, pools: vec![p], to: u })?;
            if !st.ok() && !st.wide {
                return fail("unpayable", format!("the last claim of {u} on {p} was refused: {:?}", st.res));
            }
            self.step(h, &st)?;
        }
        Ok(())
    }
}
fn val_un(x: (i128, i128, i128)) -> f64 {
    let (t, s, q) = x;
    if s == 0 {
        return t as f64;
    }
    t as f64 * ((s - q) as f64 / s as f64)
}
/// The recorded finding: a backstop that loses its place and gets it back is credited, at its
/// next distribution, with the seconds another backstop was paid for.
pub fn finding_return(seed: u64) -> Option<String> {
    let mut ctx = Ctx::default();
    let cfg = WCfg { n_backs: 1, ..WCfg::default() };
    let mut h = H::new(&cfg, "none", &mut ctx);
    let r = h.w.r.clone();
    let _ = seed;
    let (b, p, u) = (r.backs[0], r.pools[0], r.users[0]);
    let mut step = |op: Op| -> Option<Step> {
        let st = h.step(op).ok()?;
        if st.ok() {
            Some(st)
        } else {
            None
        }
    };
    step(Op::Mint(r.lp, u, 100_000 * S7))?;
    step(Op::Dep { u, p, amt: 60_000 * S7 })?;
    step(Op::AddReward { add: p, rem: p })?;
    step(Op::Time(7200, 100))?;
    step(Op::Dist)?;
    step(Op::BGulp)?;
    // to the other backstop and back again
    step(Op::Mint(r.lp, b, 70_000 * S7))?;
    step(Op::QSwap(b, r.lp))?;
    step(Op::Time(31 * DAY, 100))?;
    let s1 = step(Op::Swap)?;
    step(Op::BGulp)?;
    let recv1 = s1.post.b(r.blnd, r.backstop);
    step(Op::Mint(r.lp, r.backstop, 70_000 * S7))?;
    step(Op::QSwap(r.backstop, r.lp))?;
    step(Op::Time(31 * DAY, 100))?;
    step(Op::Swap)?;
    step(Op::Time(7200, 100))?;
    let s2 = step(Op::Dist)?;
    let s3 = step(Op::BGulp)?;
    let received = s2.post.b(r.blnd, r.backstop) - recv1;
    let assigned = s3.post.pb(p).emis - s3.pre.pb(p).emis;
    // 30% of what was received is the most the pools can be assigned
    if assigned > received * 3 / 10 + S7 {
        Some(format!("received {received}, pools alone were assigned {assigned}"))
    } else {
        None
    }
}

// ------------------------------------------------------------------ C20
struct G20;
impl Ghost for G20 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let (from, pools, to) = match &st.op {
            Op::BClaim { from, pools, to } if st.ok() => (*from, pools, *to),
            _ => return Ok(()),
        };
        let r = h.w.r.clone();
        let (a, b) = (&st.pre, &st.post);
        let blnd = a.b(r.blnd, r.backstop) - b.b(r.blnd, r.backstop);
        let joined = b.b(r.blnd, r.lp_contract) - a.b(r.blnd, r.lp_contract);
        let lp = b.b(r.lp, r.backstop) - a.b(r.lp, r.backstop);
        if blnd != joined || blnd < 0 || lp != mdf(blnd, a.lp_rate, S7) {
            return fail("join", format!("{blnd} BLND left the backstop, {joined} were joined for {lp} LP tokens"));
        }
        let set: BTreeSet<A> = pools.iter().copied().collect();
        let mut sum = 0;
        let due: BTreeMap<A, i128> = set.iter().map(|p| (*p, back_due(a, *p, from))).collect();
        let tot: i128 = due.values().sum();
        for p in a.back.pb.keys().chain(b.back.pb.keys()).collect::<BTreeSet<_>>() {
            let (x, y) = (a.pb(*p), b.pb(*p));
            let inc = y.tokens - x.tokens;
            if !set.contains(p) {
                if (x.shares, x.tokens, x.q4w) != (y.shares, y.tokens, y.q4w) {
                    return fail("other-pool", format!("claiming {:?} changed the balance of pool {p}", pools));
                }
                continue;
            }
            sum += inc;
            if tot > 0 {
                let want = mdf(lp, due[p], tot);
                if (inc - want).abs() > 1 + lp / tot.max(1) {
                    return fail("split", format!("pool {p} contributed {} of {tot} and received {inc} of {lp} LP tokens", due[p]));
                }
            }
            let minted = y.shares - x.shares;
            let fair = if x.shares == 0 { inc } else if x.tokens == 0 { 0 } else { mdf(inc, x.shares, x.tokens) };
            if minted != fair || y.q4w != x.q4w {
                return fail("price", format!("{inc} tokens minted {minted} shares at {}/{}", x.tokens, x.shares));
            }
            if b.ub(*p, to).shares - a.ub(*p, to).shares != minted {
                return fail("recipient", format!("{minted} shares were minted, the recipient got {}", b.ub(*p, to).shares - a.ub(*p, to).shares));
            }
            for u in a.back.ub.keys().chain(b.back.ub.keys()).filter(|k| k.0 == *p).map(|k| k.1) {
                if u != to && (a.ub(*p, u).shares, &a.ub(*p, u).q) != (b.ub(*p, u).shares, &b.ub(*p, u).q) {
                    return fail("other-user", format!("the shares of {u} changed in a claim by {from} to {to}"));
                }
            }
            // (what a pool streamed while nobody held unqueued shares goes to the next holder)
            if to != from && x.shares > x.q4w {
                let (d0, d1) = (back_due(a, *p, to), back_due(b, *p, to));
                if (d0 - d1).abs() > 1 {
                    return fail("recipient-emissions", format!("the recipient was due {d0} from pool {p} and is due {d1} after receiving a claim"));
                }
            }
            if back_due(b, *p, from) > 0 && from != to {
                return fail("claim-left", format!("{} is still due after the claim", back_due(b, *p, from)));
            }
        }
        if sum > lp || sum + (set.len() as i128) < lp {
            return fail("lost", format!("{lp} LP tokens were received and {sum} deposited"));
        }
        if blnd > 0 {
            let dup = set.len() != pools.len();
            h.ctx.hit(match (dup, to != from) {
                (true, true) => "pool named twice, other recipient",
                (true, false) => "pool named twice",
                (false, true) => "other recipient",
                _ => {
                    if set.len() > 1 {
                        "several pools"
                    } else {
                        "single pool"
                    }
                }
            });
        }
        Ok(())
    }
}
use crate::driver::back_due;

// ------------------------------------------------------------------ C21
struct G21;
impl Ghost for G21 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let (a, b) = (&st.pre.back, &st.post.back);
        if !st.ok() {
            if matches!(st.op, Op::AddReward { .. }) {
                h.ctx.hit(&format!("refused: {}", st.rej()));
            }
            return Ok(());
        }
        let cap = if st.pre.ts < 1713139200 { 10 } else { 10 + ((st.pre.ts - 1713139200) / 8_388_608) as usize };
        let set: BTreeSet<A> = b.rz.iter().copied().collect();
        if set.len() != b.rz.len() || b.rz.len() > cap.max(a.rz.len()) {
            return fail("zone", format!("reward zone {:?} with capacity {cap}", b.rz));
        }
        match &st.op {
            Op::AddReward { add, rem } => {
                let old: BTreeSet<A> = a.rz.iter().copied().collect();
                let left: Vec<A> = old.difference(&set).copied().collect();
                let came: Vec<A> = set.difference(&old).copied().collect();
                if came != vec![*add] || left.len() > 1 {
                    return fail("entry", format!("adding {add} turned {:?} into {:?}", a.rz, b.rz));
                }
                if !meets(&pool_data(&st.pre, *add)) {
                    return fail("threshold", format!("pool {add} entered with {:?}", pool_data(&st.pre, *add)));
                }
                if let Some(x) = left.first() {
                    if x != rem || st.pre.pb(*add).tokens <= st.pre.pb(*x).tokens || a.last + DAY < st.pre.ts {
                        return fail("replace", format!("{add} replaced {x} (named {rem}); last distribution {} at {}", a.last, st.pre.ts));
                    }
                    if a.rz.len() < cap {
                        return fail("replace-room", "a member was replaced although there was room".into());
                    }
                    h.ctx.hit("member replaced");
                } else {
                    if b.rz.len() > cap {
                        return fail("cap", format!("{} members with capacity {cap}", b.rz.len()));
                    }
                    h.ctx.hit(if b.rz.len() == cap { "zone filled up" } else { "entered" });
                }
            }
            _ => {
                if a.rz != b.rz {
                    return fail("zone-moved", format!("{} changed the reward zone", opname(&st.op)));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C22
#[derive(Default)]
struct G22 {
    since: u64,
    t0: u64,
    act: A,
    tok: T,
    pend: Option<(A, T, u64)>,
    minted: i128,
}
fn blnd_total(s: &S, r: &Roles) -> i128 {
    s.bal.iter().filter(|(k, _)| k.0 == r.blnd).map(|x| *x.1).sum()
}
impl Ghost for G22 {
    fn init(&mut self, h: &mut H) -> Result<(), Fail> {
        self.since = h.s.ts;
        self.t0 = h.s.ts;
        self.act = h.w.r.backstop;
        self.tok = h.w.r.lp;
        Ok(())
    }
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let r = h.w.r.clone();
        if !st.ok() {
            if matches!(st.op, Op::QSwap(..) | Op::CSwap | Op::Swap) {
                h.ctx.hit(&format!("{} refused: {}", opname(&st.op), st.rej()));
            }
            return Ok(());
        }
        let now = st.pre.ts;
        let delta = blnd_total(&st.post, &r) - blnd_total(&st.pre, &r);
        let bigger = |c: A, t: T| st.pre.b(t, c) > st.pre.b(t, self.act);
        match &st.op {
            Op::Dist | Op::Swap => {
                let due = (now - self.since) as i128 * S7;
                let got = st.post.b(r.blnd, self.act) - st.pre.b(r.blnd, self.act);
                if got != due || delta != due {
                    return fail(
                        "rate",
                        format!("{}: {delta} BLND minted, {got} to the active backstop, {due} is due for {} s", opname(&st.op), now - self.since),
                    );
                }
                self.minted += delta;
                self.since = now;
                if self.minted != (now - self.t0) as i128 * S7 {
                    return fail("total", format!("{} minted in {} s", self.minted, now - self.t0));
                }
                if matches!(st.op, Op::Swap) {
                    match self.pend {
                        Some((c, t, at)) if now >= at + 31 * DAY && bigger(c, self.tok) => {
                            if st.post.emit.backstop != c {
                                return fail("swap-target", format!("{} became active instead of {c}", st.post.emit.backstop));
                            }
                            h.ctx.hit(if c == r.backstop { "swapped back" } else { "swapped" });
                            self.act = c;
                            self.tok = t;
                            self.pend = None;
                        }
                        x => return fail("swap", format!("a swap took place at {now} with {:?} pending", x)),
                    }
                } else {
                    h.ctx.hit(if due == 0 { "distributed twice in a ledger" } else { "distributed" });
                }
            }
            Op::QSwap(c, t) => {
                if self.pend.is_some() || !bigger(*c, self.tok) {
                    return fail("queued", format!("{c} was queued with {:?} pending", self.pend));
                }
                self.pend = Some((*c, *t, now));
                h.ctx.hit("swap queued");
            }
            Op::CSwap => {
                match self.pend {
                    Some((c, _, _)) if !bigger(c, self.tok) => {}
                    x => return fail("cancelled", format!("{:?} was cancelled although it may go on", x)),
                }
                self.pend = None;
                h.ctx.hit("swap cancelled");
            }
            Op::BDrop | Op::EDrop(..) => {}
            Op::Mint(..) | Op::Xfer(..) => {}
            _ => {
                if delta != 0 {
                    return fail("minted", format!("{} changed the BLND supply by {delta}", opname(&st.op)));
                }
            }
        }
        if st.post.emit.backstop != self.act {
            return fail("active", format!("{} made {} the active backstop", opname(&st.op), st.post.emit.backstop));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C23
#[derive(Default)]
struct G23 {
    done: BTreeSet<A>,
}
impl Ghost for G23 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let r = h.w.r.clone();
        let (list, by): (Vec<(A, i128)>, Option<A>) = match &st.op {
            Op::EDrop(l) => (l.clone(), None),
            Op::BDrop => (st.pre.droplist.clone(), Some(r.backstop)),
            _ => return Ok(()),
        };
        if !st.ok() {
            h.ctx.hit(&format!("{} refused: {}", opname(&st.op), st.rej()));
            return Ok(());
        }
        let act = st.pre.emit.backstop;
        if by.map(|x| x != act).unwrap_or(false) {
            return fail("not-active", "a drop of an inactive backstop was paid".into());
        }
        if !self.done.insert(act) {
            return fail("twice", format!("backstop {act} dropped again"));
        }
        let mut want: BTreeMap<A, i128> = BTreeMap::new();
        let mut tot = I256::ZERO;
        for (u, v) in list.iter() {
            *want.entry(*u).or_insert(0) += v;
            tot += I256::from(*v);
            if *v < 0 {
                return fail("negative", format!("drop list {:?}", list));
            }
        }
        if tot > I256::from(50_000_000 * S7) {
            return fail("too-much", format!("a drop of {tot} was paid"));
        }
        for a in 0..h.w.actors.len() {
            let d = st.post.b(r.blnd, a) - st.pre.b(r.blnd, a);
            if d != want.get(&a).copied().unwrap_or(0) {
                return fail("amount", format!("actor {a} received {d}, listed is {:?}", want.get(&a)));
            }
        }
        h.ctx.hit(if tot == I256::from(50_000_000 * S7) { "drop of exactly 50 million" } else { "drop" });
        Ok(())
    }
}

// ------------------------------------------------------------------ C28
struct G28;
impl Ghost for G28 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let r = h.w.r.clone();
        if !st.ok() {
            if matches!(st.op, Op::Draw { .. } | Op::Donate { .. } | Op::Dep { .. }) {
                h.ctx.hit(&format!("{} refused: {}", opname(&st.op), st.rej()));
            }
            return Ok(());
        }
        let (a, b) = (&st.pre, &st.post);
        let of: Vec<A> = match &st.op {
            Op::Dep { p, .. } | Op::Que { p, .. } | Op::Deq { p, .. } | Op::Wd { p, .. } | Op::Draw { p, .. } | Op::Donate { p, .. } => vec![*p],
            Op::BGulpPool(p) => vec![*p],
            Op::PGulp(p) => vec![r.pools[*p]],
            Op::Submit { p, reqs, .. } if reqs.iter().any(|q| q.t == 7 || q.t == 8) => vec![r.pools[*p]],
            Op::BClaim { pools, .. } => pools.clone(),
            Op::BGulp => a.back.rz.clone(),
            _ => vec![],
        };
        let keys: BTreeSet<A> = a.back.pb.keys().chain(b.back.pb.keys()).copied().collect();
        for p in keys.iter() {
            if of.contains(p) {
                continue;
            }
            let (x, y) = (a.pb(*p), b.pb(*p));
            if (x.shares, x.tokens, x.q4w, x.emis) != (y.shares, y.tokens, y.q4w, y.emis) {
                return fail("other-pool", format!("{:?} changed pool {p}: {:?} -> {:?}", st.op, x, y));
            }
        }
        for (p, u) in a.back.ub.keys().chain(b.back.ub.keys()) {
            let (x, y) = (a.ub(*p, *u), b.ub(*p, *u));
            if !of.contains(p) && (x.shares, &x.q) != (y.shares, &y.q) {
                return fail("other-user", format!("{:?} changed the balance of {u} in {p}", st.op));
            }
        }
        match &st.op {
            Op::Draw { p, amt, to } => {
                let (x, y) = (a.pb(*p), b.pb(*p));
                let got = b.b(r.lp, *to) - a.b(r.lp, *to);
                if x.tokens - y.tokens != *amt || *amt > x.tokens || *amt < 0 || (*to != r.backstop && got != *amt) {
                    return fail("draw", format!("a draw of {amt} took {} of {} and paid {got}", x.tokens - y.tokens, x.tokens));
                }
                h.ctx.hit(if *amt == x.tokens { "draw of everything" } else { "draw" });
            }
            Op::Donate { u, p, amt } => {
                let (x, y) = (a.pb(*p), b.pb(*p));
                let paid = a.b(r.lp, *u) - b.b(r.lp, *u);
                if y.tokens - x.tokens != *amt || paid != *amt || *amt < 0 {
                    return fail("donate", format!("a donation of {amt} cost {paid} and added {}", y.tokens - x.tokens));
                }
                h.ctx.hit("donation");
            }
            _ => {}
        }
        match &st.op {
            Op::Draw { p, .. } | Op::Donate { p, .. } => {
                let (x, y) = (a.pb(*p), b.pb(*p));
                if (x.shares, x.q4w) != (y.shares, y.q4w) {
                    return fail("shares", format!("{} changed shares of pool {p}", opname(&st.op)));
                }
            }
            _ => {}
        }
        if let Op::Dep { p, u, .. } | Op::Donate { p, u, .. } = &st.op {
            let known = r.pools.contains(p) || r.fakes.contains(p);
            if !known || *u == *p || *u == r.backstop {
                return fail("party", format!("{:?} was accepted", st.op));
            }
        }
        if !of.is_empty() && keys.len() > of.iter().collect::<BTreeSet<_>>().len() {
            h.ctx.hit(&format!("{} beside other pools", opname(&st.op)));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C29
struct G29;
impl Ghost for G29 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let s = &st.pre;
        let (mut need, what): (BTreeSet<T>, &str) = (BTreeSet::new(), opname(&st.op));
        let add = |p: &PoolSt, pos: &Pos, need: &mut BTreeSet<T>| {
            for t in p.list.iter() {
                let i = p.cfg[t].index;
                if pos.cg(i) > 0 || pos.lg(i) > 0 {
                    need.insert(*t);
                }
            }
        };
        match &st.op {
            Op::Submit { p, from, reqs, .. } => {
                if !reqs.iter().any(|q| matches!(q.t, 3 | 4 | 6 | 7 | 9)) {
                    return Ok(());
                }
                let end = if st.ok() { &st.post } else { s };
                let pos = end.pools[*p].posn(*from);
                if !pos.l.is_empty() {
                    add(&end.pools[*p], &pos, &mut need);
                }
            }
            Op::NewLiq(p, u, _) => add(&s.pools[*p], &s.pools[*p].posn(*u), &mut need),
            Op::NewBda(p) => {
                for i in s.pools[*p].posn(h.w.r.backstop).l.keys() {
                    need.insert(s.pools[*p].list[*i as usize]);
                }
            }
            Op::NewInt(p, l) => {
                for t in l {
                    if let Ok((_, d)) = s.pools[*p].fresh(*t, s.ts) {
                        if d.credit > 0 {
                            need.insert(*t);
                        }
                    }
                }
            }
            _ => return Ok(()),
        }
        let age = |t: &T| s.price.get(t).map(|x| s.ts as i128 - x.1 as i128);
        let worst = need.iter().map(|t| age(t).unwrap_or(i128::MAX)).max();
        if st.ok() {
            for t in need.iter() {
                match age(t) {
                    None => return fail("missing", format!("{what} succeeded without a price of asset {t}")),
                    Some(x) if x > DAY as i128 => return fail("stale", format!("{what} succeeded with a price of asset {t} {x} s old")),
                    _ => {}
                }
            }
            if let Some(w) = worst {
                h.ctx.hit(&format!("{what} accepted, oldest price {}", band(w)));
                let other = s.pools.iter().flat_map(|p| p.list.iter()).any(|t| !need.contains(t) && age(t).map(|x| x > DAY as i128).unwrap_or(true));
                if other {
                    h.ctx.label("another reserve has no usable price");
                }
            }
        } else if matches!(st.rej(), "stale" | "noprice") {
            h.ctx.hit(&format!("{what} refused: {}", st.rej()));
        }
        Ok(())
    }
}
fn band(x: i128) -> &'static str {
    match x {
        86_400 => "exactly 24 h",
        86_399 => "24 h less a second",
        x if x > 80_000 => "almost 24 h",
        x if x > 0 => "aged",
        _ => "current",
    }
}

// ------------------------------------------------------------------ C30
struct G30;
impl Ghost for G30 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let s = &st.pre;
        match &st.op {
            Op::Submit { p, from, spender, to, reqs } if reqs.len() == 1 && *from == *spender => {
                let q = &reqs[0];
                let pl = &s.pools[*p];
                if [*from, *to].contains(&pl.me) {
                    return Ok(());
                }
                let t = match q.addr {
                    RA::T(t) if pl.list.contains(&t) => t,
                    _ => return Ok(()),
                };
                let pos = pl.posn(*from);
                let (c, d) = pl.fresh(t, s.ts).unwrap();
                let i = c.index;
                // clear cases, decided without the model
                let must = match q.t {
                    5 => pos.lg(i) > 0 && q.amt >= d.d_rate / S9 + 2 && s.b(t, *from) >= q.amt,
                    1 => {
                        let v = mdf(pos.sg(i), d.b_rate, S9);
                        pos.sg(i) > 0 && q.amt >= d.b_rate / S9 + 2 && s.b(t, pl.me) >= q.amt.min(v + 1) && v > 0
                    }
                    3 => {
                        let v = mdf(pos.cg(i), d.b_rate, S9);
                        pos.l.is_empty() && pos.cg(i) > 0 && q.amt >= d.b_rate / S9 + 2 && s.b(t, pl.me) >= q.amt.min(v + 1) && v > 0
                    }
                    _ => return Ok(()),
                };
                if must && !st.ok() && !st.wide {
                    return fail("exit-refused", format!("{:?} was refused at status {}: {:?}", q, pl.status, st.res));
                }
                if st.ok() {
                    let stale = pl.list.iter().any(|t| s.price.get(t).map(|x| x.1 + DAY < s.ts).unwrap_or(true));
                    h.ctx.hit(&format!(
                        "{} at status {}{}",
                        ["", "withdraw", "", "withdraw collateral", "", "repay"][q.t as usize],
                        pl.status,
                        if stale { ", prices unusable" } else { "" }
                    ));
                }
            }
            Op::Dep { .. } | Op::Que { .. } | Op::Deq { .. } | Op::Wd { .. } | Op::BClaim { .. } => {
                let p = match &st.op {
                    Op::Dep { p, .. } | Op::Que { p, .. } | Op::Deq { p, .. } | Op::Wd { p, .. } => *p,
                    Op::BClaim { pools, .. } => match pools.first() {
                        Some(p) => *p,
                        None => return Ok(()),
                    },
                    _ => return Ok(()),
                };
                let b = s.pb(p);
                if st.ok() {
                    h.ctx.hit(&format!(
                        "{}{}{}",
                        opname(&st.op),
                        if b.shares > 0 && b.q4w == b.shares { ", everything queued" } else { "" },
                        if b.ecfg.is_some() { ", stream present" } else { "" }
                    ));
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn end(&mut self, h: &mut H, s: &mut Src, g: &Gen) -> Result<(), Fail> {
        // no usable price at all, whatever status the pools are in
        if s.chance(1, 2) {
            for t in h.w.r.assets.clone() {
                if s.chance(1, 2) {
                    h.step(Op::NoPrice(t))?;
                }
            }
            h.step(Op::Time(2 * DAY, 100))?;
        }
        let mut off = BTreeMap::new();
        exit_run(h, s, g, &mut off, "exit-run")?;
        // every depositor of the backstop leaves
        let all: Vec<(A, A)> = h.s.back.ub.keys().copied().collect();
        for (p, u) in all.iter() {
            if h.s.ub(*p, *u).q.len() < 21 {
                let a = h.s.ub(*p, *u).shares;
                if a > 0 {
                    let st = h.step(Op::Que { u: *u, p: *p, amt: a })?;
                    if !st.ok() {
                        return fail("queue-refused", format!("queueing {a} shares was refused: {:?}", st.res));
                    }
                }
            }
        }
        h.step(Op::Time(21 * DAY, 300))?;
        for (p, u) in all.iter() {
            let q: i128 = h.s.ub(*p, *u).q.iter().map(|x| x.0).sum();
            let b = h.s.pb(*p);
            if q > 0 && mdf(q, b.tokens, b.shares) > 0 {
                let st = h.step(Op::Wd { u: *u, p: *p, amt: q })?;
                if !st.ok() {
                    return fail("withdraw-refused", format!("withdrawing {q} expired shares was refused: {:?}", st.res));
                }
                h.ctx.hit("left the backstop");
            }
            if b.tokens > 0 || b.shares == 0 {
                let st = h.step(Op::BClaim { from: *u, pools: vec![*p], to: *u })?;
                if !st.ok() && !st.wide && st.pred.is_ok() {
                    return fail("claim-refused", format!("claiming was refused: {:?}", st.res));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C25
#[derive(Default)]
struct G25 {
    open: bool,
}
/// who must have signed, by the entry point
fn signs(op: &Op, s: &S, r: &Roles) -> Option<BTreeSet<A>> {
    let adm = |p: &usize| s.pools[*p].admin;
    Some(match op {
        Op::Submit { from, spender, .. } => [*from, *spender].into_iter().collect(),
        Op::SetStatus(p, _) | Op::UpdPool(p, ..) | Op::QueueRes(p, ..) | Op::CancelRes(p, _) | Op::SetEmis(p, _) => [adm(p)].into_iter().collect(),
        Op::SetAdmin(p, n) => [adm(p), *n].into_iter().collect(),
        Op::PClaim { from, .. } | Op::BClaim { from, .. } => [*from].into_iter().collect(),
        Op::Dep { u, .. } | Op::Que { u, .. } | Op::Deq { u, .. } | Op::Wd { u, .. } => [*u].into_iter().collect(),
        Op::Draw { p, .. } | Op::BGulpPool(p) => [*p].into_iter().collect(),
        Op::Donate { u, p, .. } => [*u, *p].into_iter().collect(),
        Op::EDrop(_) => [s.emit.backstop].into_iter().collect(),
        _ => {
            let _ = r;
            return None;
        }
    })
}
fn harness_op(op: &Op) -> bool {
    matches!(op, Op::Time(..) | Op::Price(..) | Op::NoPrice(..) | Op::Mint(..) | Op::Xfer(..) | Op::LpRate(..) | Op::Force(..))
}
impl Ghost for G25 {
    fn pre(&mut self, h: &mut H, op: &Op) -> Result<(), Fail> {
        self.open = false;
        if harness_op(op) {
            return Ok(());
        }
        match signs(op, &h.s, &h.w.r) {
            None => {
                // permissionless: nobody signs
                h.w.e.set_auths(&[]);
                self.open = true;
            }
            Some(_) => {
                h.w.e.set_auths(&[]);
                let ex = h.w.exec(op);
                h.w.e.mock_all_auths();
                if ex.ok() {
                    return fail("unsigned", format!("{:?} was accepted without any authorization", op));
                }
                h.ctx.label("withheld signatures");
            }
        }
        Ok(())
    }
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if self.open {
            h.w.e.mock_all_auths();
            if !st.ok() && st.pred.is_ok() && !st.wide {
                return fail("needs-auth", format!("{} is open to anyone but was refused without signatures: {:?}", opname(&st.op), st.res));
            }
            if st.ok() {
                h.ctx.hit(&format!("{} unsigned", opname(&st.op)));
            }
        }
        if !st.ok() || harness_op(&st.op) {
            return Ok(());
        }
        let r = h.w.r.clone();
        let (a, b) = (&st.pre, &st.post);
        let ok = |u: A| st.auths.contains_key(&u);
        let contracts: BTreeSet<A> =
            r.pools.iter().chain([r.backstop, r.emitter, r.factory, r.lp_contract].iter()).copied().collect();
        for ((t, u), v) in a.bal.iter() {
            if b.b(*t, *u) < *v && !contracts.contains(u) && !ok(*u) {
                return fail("wallet", format!("{:?} took {} of asset {t} from {u} who did not sign", st.op, v - b.b(*t, *u)));
            }
        }
        let liq: BTreeSet<A> = match &st.op {
            Op::Submit { reqs, .. } => reqs
                .iter()
                .filter(|q| q.t == 6)
                .filter_map(|q| if let RA::A(x) = q.addr { Some(x) } else { None })
                .collect(),
            _ => BTreeSet::new(),
        };
        for (x, y) in a.pools.iter().zip(b.pools.iter()) {
            for u in x.pos.keys().chain(y.pos.keys()) {
                let (p, q) = (x.posn(*u), y.posn(*u));
                let worse = p.c.iter().any(|(i, v)| q.cg(*i) < *v) || p.s.iter().any(|(i, v)| q.sg(*i) < *v) || q.l.iter().any(|(i, v)| p.lg(*i) < *v);
                if worse && !ok(*u) && !contracts.contains(u) && !liq.contains(u) {
                    return fail("position", format!("{:?} changed {u} from {:?} to {:?} without a signature", st.op, p, q));
                }
            }
            let set_moved = x.bstop_rate != y.bstop_rate || x.max_pos != y.max_pos || x.pemis != y.pemis || x.admin != y.admin;
            let queued = x.queued != y.queued && !matches!(st.op, Op::SetRes(..));
            let status = x.status != y.status && !matches!(st.op, Op::UpdStatus(..));
            if (set_moved || queued || status) && !ok(x.admin) {
                return fail("settings", format!("{:?} changed pool settings without the admin {}", st.op, x.admin));
            }
            if x.admin != y.admin && !ok(y.admin) {
                return fail("new-admin", format!("{} became admin without signing", y.admin));
            }
        }
        for (p, u) in a.back.ub.keys().chain(b.back.ub.keys()) {
            let (x, y) = (a.ub(*p, *u), b.ub(*p, *u));
            let moved = y.shares < x.shares || x.q != y.q;
            if moved && !ok(*u) {
                return fail("deposit", format!("{:?} changed the backstop balance of {u} without a signature", st.op));
            }
        }
        if let Some(need) = signs(&st.op, a, &r) {
            // entry points of a single party name it
            let strict = !matches!(st.op, Op::Submit { .. });
            for u in need.iter() {
                if strict && !ok(*u) {
                    return fail("unsigned-party", format!("{:?} was accepted without {u}: signed by {:?}", st.op, st.auths.keys()));
                }
            }
            if let Op::Submit { from, spender, .. } = &st.op {
                if !ok(*from) || (!ok(*spender) && a.bal.iter().any(|((t, u), v)| u == spender && b.b(*t, *u) < *v)) {
                    return fail("unsigned-party", format!("{:?} signed by {:?}", st.op, st.auths.keys()));
                }
            }
            h.ctx.hit(&format!("{} signed", opname(&st.op)));
        }
        Ok(())
    }
}

include!("checks3.rs");
