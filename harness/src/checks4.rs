use soroban_sdk::xdr::{ContractEventBody, ContractEventType, ScAddress, ScVal};

// ------------------------------------------------------------------ C31
/// getters and returned values against the stored state
#[derive(Default)]
struct G31 {
    n: u64,
}
impl G31 {
    fn getters(&mut self, h: &mut H, pools: &[usize], backs: &[A]) -> Result<(), Fail> {
        let r = h.w.r.clone();
        let e = h.w.e.clone();
        let who: Vec<A> = r.users.iter().copied().chain([r.admin, r.backstop, r.non_pool]).collect();
        for pi in pools {
            let c = h.w.pool_client(*pi);
            for u in who.iter() {
                let got = World::pos(&c.get_positions(&h.w.actors[*u]));
                let want = h.s.pools[*pi].posn(*u);
                if got != want {
                    return fail("positions", format!("get_positions({u}) of pool {pi} gives {got:?} instead of {want:?}"));
                }
            }
            for ty in 0..3u32 {
                for u in who.iter() {
                    let got = match c.try_get_auction(&ty, &h.w.actors[*u]) {
                        Ok(Ok(x)) => Some(h.w.auc(&x)),
                        _ => None,
                    };
                    let want = h.s.pools[*pi].auc.get(&(*u, ty)).cloned();
                    if got != want {
                        return fail("auction", format!("get_auction({ty}, {u}) of pool {pi} gives {got:?} instead of {want:?}"));
                    }
                    if got.is_some() {
                        h.ctx.hit("pending auction read");
                    }
                }
            }
            h.ctx.hit("pool read");
        }
        let b = h.w.back_client();
        for p in backs {
            let pa = h.w.actors[*p].clone();
            for u in who.iter() {
                let v = b.user_balance(&pa, &h.w.actors[*u]);
                let got: (i128, Vec<(i128, u64)>) = (v.shares, v.q4w.iter().map(|q| (q.amount, q.exp)).collect());
                let x = h.s.ub(*p, *u);
                if got != (x.shares, x.q.clone()) {
                    return fail("user_balance", format!("user_balance({p}, {u}) gives {got:?} instead of {:?}", (x.shares, x.q)));
                }
            }
            let v = b.pool_data(&pa);
            let d = pool_data(&h.s, *p);
            if (v.tokens, v.q4w_pct, v.blnd, v.usdc) != (d.tokens, d.pct, d.blnd, d.usdc) {
                return fail(
                    "pool_data",
                    format!("pool_data({p}) gives {:?} instead of {d:?}", (v.tokens, v.q4w_pct, v.blnd, v.usdc)),
                );
            }
            h.ctx.hit("backstop read");
        }
        if b.backstop_token() != h.w.assets[r.lp] {
            return fail("backstop_token", "backstop_token() is not the backstop's token".into());
        }
        let m = h.w.emit_client();
        if m.get_backstop() != h.w.actors[h.s.emit.backstop] {
            return fail("get_backstop", format!("get_backstop() is not {}", h.s.emit.backstop));
        }
        for a in r.backs.iter().chain([&r.backstop]) {
            let got = match m.try_get_last_distro(&h.w.actors[*a]) {
                Ok(Ok(x)) => Some(x),
                _ => None,
            };
            let want = h.s.emit.last.get(a).copied();
            if got.unwrap_or(0) != want.unwrap_or(0) {
                return fail("get_last_distro", format!("get_last_distro({a}) gives {got:?} instead of {want:?}"));
            }
        }
        let got = m.get_queued_swap().map(|s| (h.w.ai(&s.new_backstop), h.w.ti(&s.new_backstop_token), s.unlock_time));
        if got != h.s.emit.swap {
            return fail("get_queued_swap", format!("get_queued_swap() gives {got:?} instead of {:?}", h.s.emit.swap));
        }
        let _ = e;
        Ok(())
    }
}
/// what the call must return, judged by what it did
fn ret_of(st: &Step, r: &Roles) -> Option<Ret> {
    let (pre, post) = (&st.pre, &st.post);
    Some(match &st.op {
        Op::Submit { p, from, .. } => Ret::P(post.pools[*p].posn(*from)),
        Op::NewLiq(p, u, _) => Ret::Au(post.pools[*p].auc.get(&(*u, 0))?.clone()),
        Op::NewBda(p) => Ret::Au(post.pools[*p].auc.get(&(r.backstop, 1))?.clone()),
        Op::NewInt(p, _) => Ret::Au(post.pools[*p].auc.get(&(r.backstop, 2))?.clone()),
        Op::UpdStatus(p) => Ret::U(post.pools[*p].status),
        Op::SetRes(p, t) => Ret::U(post.pools[*p].list.iter().position(|x| x == t)? as u32),
        Op::PGulp(p) => Ret::I(pre.pb(r.pools[*p]).emis - post.pb(r.pools[*p]).emis),
        Op::PClaim { to, .. } => Ret::I(post.b(r.blnd, *to) - pre.b(r.blnd, *to)),
        Op::Dep { u, p, .. } => Ret::I(post.ub(*p, *u).shares - pre.ub(*p, *u).shares),
        Op::Wd { u, .. } => Ret::I(post.b(r.lp, *u) - pre.b(r.lp, *u)),
        Op::Que { u, p, .. } => {
            let q = *post.ub(*p, *u).q.last()?;
            Ret::Q(q.0, q.1)
        }
        Op::BGulpPool(p) => Ret::I(pre.pb(*p).emis - post.pb(*p).emis),
        Op::BClaim { .. } => Ret::I(pre.b(r.blnd, r.backstop) - post.b(r.blnd, r.backstop)),
        Op::UpdTkn => Ret::Pair(post.back.lpv.0, post.back.lpv.1),
        Op::Dist => {
            let all = |s: &S| s.bal.iter().filter(|(k, _)| k.0 == r.blnd).map(|x| *x.1).sum::<i128>();
            Ret::I(all(post) - all(pre))
        }
        _ => return None,
    })
}
impl Ghost for G31 {
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        if matches!(st.op, Op::Time(..) | Op::Price(..) | Op::NoPrice(..) | Op::Mint(..) | Op::Xfer(..) | Op::Force(..)) {
            return Ok(());
        }
        let r = h.w.r.clone();
        if let (Ok(ret), Some(v)) = (&st.res, ret_of(st, &r)) {
            let self_pay = match &st.op {
                Op::PClaim { p, to, .. } => *to == r.pools[*p] || *to == r.backstop,
                _ => false,
            };
            if *ret != v && !self_pay {
                return fail(&format!("ret-{}", opname(&st.op)), format!("{:?} returned {ret:?} but did {v:?}", st.op));
            }
            h.ctx.hit(&format!("{} return value", opname(&st.op)));
        }
        self.n += 1;
        if st.ok() || self.n % 8 == 0 {
            let (pi, b): (Vec<usize>, Vec<A>) = match &st.op {
                Op::Submit { p, .. } | Op::PClaim { p, .. } => (vec![*p], vec![r.pools[*p]]),
                Op::BadDebt(p, _) | Op::NewLiq(p, ..) | Op::NewBda(p) | Op::NewInt(p, _) => (vec![*p], vec![r.pools[*p]]),
                Op::Dep { p, .. } | Op::Que { p, .. } | Op::Deq { p, .. } | Op::Wd { p, .. } | Op::Draw { p, .. } | Op::Donate { p, .. } => {
                    (vec![], vec![*p])
                }
                Op::BClaim { pools, .. } => (vec![], pools.clone()),
                _ => ((0..r.pools.len()).collect(), r.pools.iter().chain(&r.fakes).copied().chain([r.non_pool]).collect()),
            };
            self.getters(h, &pi, &b)?;
        }
        Ok(())
    }
    fn end(&mut self, h: &mut H, _s: &mut Src, _g: &Gen) -> Result<(), Fail> {
        // neither reading nor any refused call (not observed on its own) has changed anything
        let now = h.w.snap();
        if now != h.s {
            return fail("silent", "the state changed in calls that were refused or only read".into());
        }
        h.ctx.hit("end state unchanged by refusals and reads");
        Ok(())
    }
}

// ------------------------------------------------------------------ C32
/// an indexer that knows nothing but the events
#[derive(Default, Clone, PartialEq, Debug)]
struct IxPool {
    pos: BTreeMap<(A, T, u8), i128>, // side: 0 supply, 1 collateral, 2 debt
    auc: BTreeMap<(A, u32), Auc>,
    status: u32,
    rate: u32,
    max: u32,
    admin: A,
    list: Vec<T>,
    queued: BTreeMap<T, RCfg>,
    emis: BTreeMap<u32, (u64, u64)>,
}
#[derive(Default, Clone, PartialEq, Debug)]
struct IxBack {
    tokens: BTreeMap<A, i128>,
    shares: BTreeMap<A, i128>,
    queued: BTreeMap<A, i128>,
    u_shares: BTreeMap<(A, A), i128>,
    u_queued: BTreeMap<(A, A), i128>,
}
#[derive(Default, Clone, PartialEq, Debug)]
struct IxEmit {
    backstop: A,
    token: T,
    swap: Option<(A, T, u64)>,
}
#[derive(Default)]
struct G32 {
    seen: usize,
    map: BTreeMap<ScAddress, (A, T)>,
    pools: Vec<IxPool>,
    back: IxBack,
    emit: IxEmit,
}
struct Ev {
    by: A,
    name: String,
    topics: Vec<ScVal>,
    data: ScVal,
}
fn sc_int(v: &ScVal) -> i128 {
    match v {
        ScVal::U32(x) => *x as i128,
        ScVal::I32(x) => *x as i128,
        ScVal::U64(x) => *x as i128,
        ScVal::I64(x) => *x as i128,
        ScVal::I128(x) => ((x.hi as i128) << 64) | x.lo as i128,
        _ => i128::MIN,
    }
}
fn sc_vec(v: &ScVal) -> Vec<ScVal> {
    match v {
        ScVal::Vec(Some(x)) => x.iter().cloned().collect(),
        x => vec![x.clone()],
    }
}
fn sc_map(v: &ScVal) -> Vec<(ScVal, ScVal)> {
    match v {
        ScVal::Map(Some(x)) => x.iter().map(|e| (e.key.clone(), e.val.clone())).collect(),
        _ => vec![],
    }
}
fn sc_field(v: &ScVal, k: &str) -> ScVal {
    sc_map(v)
        .into_iter()
        .find(|(n, _)| matches!(n, ScVal::Symbol(s) if s.to_utf8_string_lossy() == k))
        .map(|x| x.1)
        .unwrap_or(ScVal::Void)
}
fn bump<K: Ord>(m: &mut BTreeMap<K, i128>, k: K, v: i128) {
    let n = m.get(&k).copied().unwrap_or(0) + v;
    if n == 0 {
        m.remove(&k);
    } else {
        m.insert(k, n);
    }
}
impl G32 {
    fn addr(&self, v: &ScVal) -> (A, T) {
        match v {
            ScVal::Address(a) => self.map.get(a).copied().unwrap_or((9999, 9999)),
            _ => (9999, 9999),
        }
    }
    fn a(&self, v: &ScVal) -> A {
        self.addr(v).0
    }
    fn t(&self, v: &ScVal) -> T {
        self.addr(v).1
    }
    fn auction(&self, v: &ScVal) -> Auc {
        let side = |k: &str| sc_map(&sc_field(v, k)).iter().map(|(x, y)| (self.t(x), sc_int(y))).collect();
        Auc { bid: side("bid"), lot: side("lot"), block: sc_int(&sc_field(v, "block")) as u32 }
    }
    fn rcfg(&self, v: &ScVal) -> RCfg {
        let f = |k: &str| sc_int(&sc_field(v, k)) as u32;
        RCfg {
            index: f("index"),
            decimals: f("decimals"),
            c_factor: f("c_factor"),
            l_factor: f("l_factor"),
            util: f("util"),
            max_util: f("max_util"),
            r_base: f("r_base"),
            r_one: f("r_one"),
            r_two: f("r_two"),
            r_three: f("r_three"),
            reactivity: f("reactivity"),
        }
    }
    fn new_events(&mut self, h: &H) -> Vec<Ev> {
        let all = h.w.e.host().get_events().map(|x| x.0).unwrap_or_default();
        let mut out = vec![];
        for x in all.iter().skip(self.seen) {
            if x.failed_call || x.event.type_ != ContractEventType::Contract {
                continue;
            }
            let Some(id) = &x.event.contract_id else { continue };
            let by = self.map.get(&ScAddress::Contract(id.clone())).copied().unwrap_or((9999, 9999)).0;
            let ContractEventBody::V0(b) = &x.event.body;
            let mut topics: Vec<ScVal> = b.topics.iter().cloned().collect();
            if topics.is_empty() {
                continue;
            }
            let name = match topics.remove(0) {
                ScVal::Symbol(s) => s.to_utf8_string_lossy(),
                _ => continue,
            };
            out.push(Ev { by, name, topics, data: b.data.clone() });
        }
        self.seen = all.len();
        out
    }
    /// the pool's token movements the events of this call account for
    fn pool_ev(&mut self, pi: usize, ev: &Ev, st: &Step, r: &Roles, flow: &mut BTreeMap<T, i128>) {
        let d = sc_vec(&ev.data);
        let top = |i: usize| ev.topics.get(i).cloned().unwrap_or(ScVal::Void);
        let num = |i: usize| d.get(i).map(sc_int).unwrap_or(i128::MIN / 4);
        let (t0, a0, a1) = (self.t(&top(0)), self.a(&top(0)), self.a(&top(1)));
        match ev.name.as_str() {
            "supply" | "withdraw" | "supply_collateral" | "withdraw_collateral" | "borrow" | "repay" => {
                let (side, sg, fl) = match ev.name.as_str() {
                    "supply" => (0, 1, 1),
                    "withdraw" => (0, -1, -1),
                    "supply_collateral" => (1, 1, 1),
                    "withdraw_collateral" => (1, -1, -1),
                    "borrow" => (2, 1, -1),
                    _ => (2, -1, 1),
                };
                bump(&mut self.pools[pi].pos, (a1, t0, side), sg * num(1));
                bump(flow, t0, fl * num(0));
            }
            "bad_debt" => {
                let t = d.first().map(|x| self.t(x)).unwrap_or(9999);
                bump(&mut self.pools[pi].pos, (a0, t, 2), -num(1));
                if a0 != r.backstop {
                    bump(&mut self.pools[pi].pos, (r.backstop, t, 2), num(1));
                }
            }
            "new_liquidation_auction" => {
                let x = self.auction(&ev.data);
                self.pools[pi].auc.insert((a0, 0), x);
            }
            "new_auction" => {
                let x = self.auction(&ev.data);
                self.pools[pi].auc.insert((r.backstop, sc_int(&top(0)) as u32), x);
            }
            "delete_liquidation_auction" => {
                self.pools[pi].auc.remove(&(a0, 0));
            }
            "fill_auction" => {
                let ty = sc_int(&top(1)) as u32;
                let filler = d.first().map(|x| self.a(x)).unwrap_or(9999);
                let Some(x) = self.pools[pi].auc.remove(&(a0, ty)) else { return };
                let (now, rest) = scale(&x, num(1).clamp(0, 100), st.pre.seq as i128 - x.block as i128);
                if let Some(y) = rest {
                    self.pools[pi].auc.insert((a0, ty), y);
                }
                let p = &mut self.pools[pi].pos;
                if ty < 2 {
                    for (t, v) in now.bid.iter() {
                        bump(p, (a0, *t, 2), -*v);
                        bump(p, (filler, *t, 2), *v);
                    }
                }
                for (t, v) in now.lot.iter() {
                    if ty == 0 {
                        bump(p, (a0, *t, 1), -*v);
                        bump(p, (filler, *t, 1), *v);
                    } else if ty == 2 {
                        bump(flow, *t, -*v);
                    }
                }
            }
            "set_status" => self.pools[pi].status = sc_int(&ev.data) as u32,
            "update_pool" => {
                self.pools[pi].rate = num(0) as u32;
                self.pools[pi].max = num(1) as u32;
            }
            "set_admin" => self.pools[pi].admin = self.a(&ev.data),
            "queue_set_reserve" => {
                let (t, c) = (self.t(&d[0]), self.rcfg(&d[1]));
                self.pools[pi].queued.insert(t, c);
            }
            "cancel_set_reserve" => {
                let t = self.t(&ev.data);
                self.pools[pi].queued.remove(&t);
            }
            "set_reserve" => {
                let t = self.t(&d[0]);
                self.pools[pi].queued.remove(&t);
                if !self.pools[pi].list.contains(&t) && num(1) == self.pools[pi].list.len() as i128 {
                    self.pools[pi].list.push(t);
                }
            }
            "reserve_emission_update" => {
                self.pools[pi].emis.insert(num(0) as u32, (num(2) as u64, num(1) as u64));
            }
            "claim" => bump(flow, 9000, num(1)),
            "update_emissions" => bump(flow, 9001, sc_int(&ev.data)),
            _ => {}
        }
    }
    fn back_ev(&mut self, ev: &Ev, other: &mut BTreeMap<u32, i128>) -> Option<(A, A)> {
        let d = sc_vec(&ev.data);
        let top = |i: usize| ev.topics.get(i).cloned().unwrap_or(ScVal::Void);
        let num = |i: usize| d.get(i).map(sc_int).unwrap_or(i128::MIN / 4);
        let (p, u) = (self.a(&top(0)), self.a(&top(1)));
        let b = &mut self.back;
        match ev.name.as_str() {
            "deposit" => {
                bump(&mut b.tokens, p, num(0));
                bump(&mut b.shares, p, num(1));
                bump(&mut b.u_shares, (p, u), num(1));
            }
            "queue_withdrawal" => {
                bump(&mut b.queued, p, num(0));
                bump(&mut b.u_shares, (p, u), -num(0));
                bump(&mut b.u_queued, (p, u), num(0));
                other.insert(1, num(1));
            }
            "dequeue_withdrawal" => {
                bump(&mut b.queued, p, -num(0));
                bump(&mut b.u_shares, (p, u), num(0));
                bump(&mut b.u_queued, (p, u), -num(0));
            }
            "withdraw" => {
                bump(&mut b.queued, p, -num(0));
                bump(&mut b.shares, p, -num(0));
                bump(&mut b.tokens, p, -num(1));
                bump(&mut b.u_queued, (p, u), -num(0));
            }
            "draw" => bump(&mut b.tokens, p, -num(1)),
            "donate" => bump(&mut b.tokens, p, num(0)),
            "claim" => bump(other, 2, num(0)),
            "gulp_emissions" => bump(other, 3, num(0)),
            "rw_zone" => {
                let x = (self.a(&d[0]), d.get(1).map(|v| self.a(v)).unwrap_or(9999));
                return Some(x);
            }
            _ => {}
        }
        None
    }
    fn truth(s: &S, r: &Roles) -> (Vec<IxPool>, IxBack, IxEmit) {
        let mut v = vec![];
        for p in s.pools.iter() {
            let mut x = IxPool {
                auc: p.auc.clone(),
                status: p.status,
                rate: p.bstop_rate,
                max: p.max_pos,
                admin: p.admin,
                list: p.list.clone(),
                queued: p.queued.iter().map(|(k, v)| (*k, v.0.clone())).collect(),
                emis: p.ecfg.clone(),
                ..Default::default()
            };
            for (a, q) in p.pos.iter() {
                for (side, m) in [(0u8, &q.s), (1, &q.c), (2, &q.l)] {
                    for (i, n) in m.iter() {
                        bump(&mut x.pos, (*a, p.list[*i as usize], side), *n);
                    }
                }
            }
            v.push(x);
        }
        let mut b = IxBack::default();
        for (p, x) in s.back.pb.iter() {
            bump(&mut b.tokens, *p, x.tokens);
            bump(&mut b.shares, *p, x.shares);
            bump(&mut b.queued, *p, x.q4w);
        }
        for (k, x) in s.back.ub.iter() {
            bump(&mut b.u_shares, *k, x.shares);
            bump(&mut b.u_queued, *k, x.q.iter().map(|q| q.0).sum());
        }
        let _ = r;
        (v, b, IxEmit { backstop: s.emit.backstop, token: s.emit.token, swap: s.emit.swap })
    }
}
impl Ghost for G32 {
    fn init(&mut self, h: &mut H) -> Result<(), Fail> {
        for (i, a) in h.w.actors.iter().enumerate() {
            self.map.entry(ScAddress::try_from(a).unwrap()).or_insert((9999, 9999)).0 = i;
        }
        for (i, a) in h.w.assets.iter().enumerate() {
            self.map.entry(ScAddress::try_from(a).unwrap()).or_insert((9999, 9999)).1 = i;
        }
        let (p, b, e) = G32::truth(&h.s, &h.w.r);
        self.pools = p;
        self.back = b;
        self.emit = e;
        self.new_events(h);
        Ok(())
    }
    fn step(&mut self, h: &mut H, st: &Step) -> Result<(), Fail> {
        let r = h.w.r.clone();
        if let Op::Force(p, n) = &st.op {
            self.pools[*p].status = *n;
            return Ok(());
        }
        if matches!(st.op, Op::Time(..) | Op::Price(..) | Op::NoPrice(..) | Op::Mint(..) | Op::Xfer(..) | Op::LpRate(..)) {
            return Ok(());
        }
        let evs = self.new_events(h);
        if !st.ok() {
            if evs.iter().any(|x| x.by == r.backstop || x.by == r.emitter || r.pools.contains(&x.by)) {
                return fail("refused", format!("{:?} was refused and still left events", st.op));
            }
            return Ok(());
        }
        let (pre, post) = (&st.pre, &st.post);
        let mut flows: Vec<BTreeMap<T, i128>> = vec![BTreeMap::new(); r.pools.len()];
        let mut other: BTreeMap<u32, i128> = BTreeMap::new();
        let mut zone = vec![];
        let mut count: BTreeMap<String, u64> = BTreeMap::new();
        for ev in evs.iter() {
            if let Some(pi) = r.pools.iter().position(|x| *x == ev.by) {
                *count.entry(format!("pool {}", ev.name)).or_insert(0) += 1;
                self.pool_ev(pi, ev, st, &r, &mut flows[pi]);
            } else if ev.by == r.backstop {
                *count.entry(format!("backstop {}", ev.name)).or_insert(0) += 1;
                if let Some(z) = self.back_ev(ev, &mut other) {
                    zone.push(z);
                }
            } else if ev.by == r.emitter {
                *count.entry(format!("emitter {}", ev.name)).or_insert(0) += 1;
                let sw = (self.a(&sc_field(&ev.data, "new_backstop")), self.t(&sc_field(&ev.data, "new_backstop_token")), {
                    sc_int(&sc_field(&ev.data, "unlock_time")) as u64
                });
                match ev.name.as_str() {
                    "q_swap" => self.emit.swap = Some(sw),
                    "del_swap" | "swap" => {
                        if self.emit.swap != Some(sw) {
                            return fail("swap", format!("{} names {sw:?} instead of {:?}", ev.name, self.emit.swap));
                        }
                        self.emit.swap = None;
                        if ev.name == "swap" {
                            self.emit.backstop = sw.0;
                            self.emit.token = sw.1;
                        }
                    }
                    "distribute" => {
                        let d = sc_vec(&ev.data);
                        let (a, v) = (self.a(&d[0]), sc_int(&d[1]));
                        let got = post.b(r.blnd, a) - pre.b(r.blnd, a);
                        if got != v {
                            return fail("distribute", format!("a distribution of {v} to {a} was reported but {got} paid"));
                        }
                    }
                    "drop" => {
                        let mut sum: BTreeMap<A, i128> = BTreeMap::new();
                        for x in sc_vec(&ev.data) {
                            let y = sc_vec(&x);
                            bump(&mut sum, self.a(&y[0]), sc_int(&y[1]));
                        }
                        for a in 0..h.w.actors.len() {
                            let got = post.b(r.blnd, a) - pre.b(r.blnd, a);
                            if got != sum.get(&a).copied().unwrap_or(0) {
                                return fail("drop", format!("a drop of {sum:?} was reported but {a} got {got}"));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        for k in count.keys() {
            h.ctx.hit(k);
        }
        let (p, b, e) = G32::truth(post, &r);
        for (pi, want) in p.iter().enumerate() {
            let got = &self.pools[pi];
            let name = opname(&st.op);
            if want.pos != got.pos {
                return fail("positions", format!("after {:?} the events add up to {:?} instead of {:?}", st.op, got.pos, want.pos));
            }
            if want.auc != got.auc {
                return fail("auctions", format!("after {name} the events tell of auctions {:?} instead of {:?}", got.auc, want.auc));
            }
            if want != got {
                return fail("settings", format!("after {name} the events tell of {got:?} instead of {want:?}"));
            }
        }
        if b != self.back {
            return fail("backstop", format!("after {:?} the events add up to {:?} instead of {b:?}", st.op, self.back));
        }
        if e != self.emit {
            return fail("emitter", format!("after {:?} the events tell of {:?} instead of {e:?}", st.op, self.emit));
        }
        // amounts named beside the state
        match &st.op {
            Op::Submit { p, spender, to, .. } => {
                let me = r.pools[*p];
                if *spender != me && *to != me {
                    let ts: BTreeSet<T> = pre.bal.keys().chain(post.bal.keys()).filter(|k| k.1 == me).map(|k| k.0).collect();
                    for t in ts {
                        let got = post.b(t, me) - pre.b(t, me);
                        let told = flows[*p].get(&t).copied().unwrap_or(0);
                        if got != told {
                            return fail("flow", format!("{:?} moved {got} of asset {t} into the pool and reported {told}", st.op));
                        }
                    }
                }
            }
            Op::PClaim { p, from: _, to, .. } => {
                let told = flows[*p].get(&9000).copied().unwrap_or(0);
                let got = pre.b(r.blnd, r.backstop) - post.b(r.blnd, r.backstop);
                if *to != r.backstop && got != told {
                    return fail("claim", format!("a claim of {told} was reported but {got} paid"));
                }
                if count.get("pool claim") != Some(&1) {
                    return fail("claim", "a claim went unreported".into());
                }
            }
            Op::PGulp(p) => {
                let told = flows[*p].get(&9001).copied().unwrap_or(0);
                let got = pre.pb(r.pools[*p]).emis - post.pb(r.pools[*p]).emis;
                if got != told {
                    return fail("update_emissions", format!("{told} new emissions were reported but {got} taken up"));
                }
            }
            Op::BClaim { .. } => {
                let told = other.get(&2).copied().unwrap_or(0);
                let got = pre.b(r.blnd, r.backstop) - post.b(r.blnd, r.backstop);
                if got != told || count.get("backstop claim") != Some(&1) {
                    return fail("claim", format!("a claim of {told} was reported but {got} taken"));
                }
            }
            Op::BGulp => {
                let told = other.get(&3).copied().unwrap_or(0);
                let got = (post.back.last - pre.back.last) as i128 * S7;
                if got != told || count.get("backstop gulp_emissions") != Some(&1) {
                    return fail("gulp", format!("{told} new emissions were reported but {got} split"));
                }
            }
            Op::Que { u, p, .. } => {
                let exp = post.ub(*p, *u).q.last().map(|x| x.1 as i128);
                if other.get(&1).copied() != exp {
                    return fail("queue", format!("an unlock time of {:?} was reported instead of {exp:?}", other.get(&1)));
                }
            }
            Op::AddReward { .. } => {
                let ok = zone.len() == 1 && {
                    let (add, rem) = zone[0];
                    let mut a: BTreeSet<A> = pre.back.rz.iter().copied().collect();
                    let b: BTreeSet<A> = post.back.rz.iter().copied().collect();
                    let grown = b.len() > a.len();
                    a.insert(add);
                    if !grown {
                        a.remove(&rem);
                    }
                    a == b
                };
                if !ok {
                    return fail("rw_zone", format!("{zone:?} does not tell how {:?} became {:?}", pre.back.rz, post.back.rz));
                }
            }
            Op::Dist => {
                if count.get("emitter distribute") != Some(&1) {
                    return fail("distribute", "a distribution went unreported".into());
                }
            }
            Op::EDrop(_) | Op::BDrop => {
                if count.get("emitter drop") != Some(&1) {
                    return fail("drop", "a drop went unreported".into());
                }
            }
            Op::BadDebt(..) | Op::NewLiq(..) => {}
            _ => {}
        }
        Ok(())
    }
}
