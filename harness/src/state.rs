//! Plain-data picture of the whole protocol state, used both as the observation of the real
//! contracts and as the state of the reference model.
use std::collections::{BTreeMap, BTreeSet};

pub type A = usize; // actor (account or contract) index
pub type T = usize; // asset index

#[derive(Clone, PartialEq, Debug, Default)]
pub struct RCfg {
    pub index: u32,
    pub decimals: u32,
    pub c_factor: u32,
    pub l_factor: u32,
    pub util: u32,
    pub max_util: u32,
    pub r_base: u32,
    pub r_one: u32,
    pub r_two: u32,
    pub r_three: u32,
    pub reactivity: u32,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct RData {
    pub d_rate: i128,
    pub b_rate: i128,
    pub ir_mod: i128,
    pub b_supply: i128,
    pub d_supply: i128,
    pub credit: i128,
    pub last: u64,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Pos {
    pub l: BTreeMap<u32, i128>,
    pub c: BTreeMap<u32, i128>,
    pub s: BTreeMap<u32, i128>,
}
impl Pos {
    pub fn lg(&self, i: u32) -> i128 {
        self.l.get(&i).copied().unwrap_or(0)
    }
    pub fn cg(&self, i: u32) -> i128 {
        self.c.get(&i).copied().unwrap_or(0)
    }
    pub fn sg(&self, i: u32) -> i128 {
        self.s.get(&i).copied().unwrap_or(0)
    }
    pub fn count(&self) -> usize {
        self.l.len() + self.c.len()
    }
    pub fn is_empty(&self) -> bool {
        self.l.is_empty() && self.c.is_empty() && self.s.is_empty()
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Auc {
    pub bid: BTreeMap<T, i128>,
    pub lot: BTreeMap<T, i128>,
    pub block: u32,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct PoolSt {
    pub me: A,
    pub admin: A,
    pub bstop_rate: u32,
    pub status: u32,
    pub max_pos: u32,
    pub list: Vec<T>,
    pub cfg: BTreeMap<T, RCfg>,
    pub data: BTreeMap<T, RData>,
    pub pos: BTreeMap<A, Pos>,
    pub ecfg: BTreeMap<u32, (u64, u64)>,      // (expiration, eps)
    pub edata: BTreeMap<u32, (i128, u64)>,    // (index, last_time)
    pub ue: BTreeMap<(A, u32), (i128, i128)>, // (index, accrued)
    pub pemis: BTreeMap<u32, u64>,
    pub auc: BTreeMap<(A, u32), Auc>,
    pub queued: BTreeMap<T, (RCfg, u64)>,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct PB {
    pub shares: i128,
    pub tokens: i128,
    pub q4w: i128,
    pub emis: i128,
    pub ecfg: Option<(u64, u64)>,
    pub edata: Option<(i128, u64)>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct UB {
    pub shares: i128,
    pub q: Vec<(i128, u64)>,
    pub ed: Option<(i128, i128)>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct BackSt {
    pub pb: BTreeMap<A, PB>,
    pub ub: BTreeMap<(A, A), UB>, // (pool, user)
    pub rz: Vec<A>,
    pub last: u64,
    pub lpv: (i128, i128),
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct EmitSt {
    pub backstop: A,
    pub token: T,
    pub last: BTreeMap<A, u64>,
    pub swap: Option<(A, T, u64)>,
    pub dropped: BTreeSet<A>,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct S {
    pub ts: u64,
    pub seq: u32,
    pub pools: Vec<PoolSt>,
    pub back: BackSt,
    pub emit: EmitSt,
    pub bal: BTreeMap<(T, A), i128>, // zero balances are left out
    pub allow: BTreeMap<A, i128>,    // BLND the backstop lets a pool spend
    pub price: BTreeMap<T, (i128, u64)>,
    pub odec: u32,
    pub lp_supply: i128,
    pub lp_rate: i128,
    pub droplist: Vec<(A, i128)>,
}

impl S {
    pub fn b(&self, t: T, a: A) -> i128 {
        self.bal.get(&(t, a)).copied().unwrap_or(0)
    }
    pub fn add(&mut self, t: T, a: A, v: i128) {
        let n = self.b(t, a) + v;
        if n == 0 {
            self.bal.remove(&(t, a));
        } else {
            self.bal.insert((t, a), n);
        }
    }
    pub fn pb(&self, p: A) -> PB {
        self.back.pb.get(&p).cloned().unwrap_or_default()
    }
    pub fn ub(&self, p: A, u: A) -> UB {
        self.back.ub.get(&(p, u)).cloned().unwrap_or_default()
    }
}

/// Fixed roles
#[derive(Clone, Debug, Default)]
pub struct Roles {
    pub users: Vec<A>,
    pub admin: A,
    pub backstop: A,
    pub emitter: A,
    pub factory: A,
    pub lp_contract: A,
    pub pools: Vec<A>,  // real pools, same order as S::pools
    pub fakes: Vec<A>,  // addresses the factory lists as pools
    pub non_pool: A,    // an address that is no pool
    pub backs: Vec<A>,  // candidate backstops (plain addresses)
    pub blnd: T,
    pub usdc: T,
    pub lp: T,
    pub lp2: T, // another backstop token
    pub assets: Vec<T>, // candidate reserve assets
}

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub t: u32,
    pub addr: RA,
    pub amt: i128,
}
/// address of a request: an asset or an account
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RA {
    T(T),
    A(A),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Time(u64, u32),
    Price(T, i128, u64),
    NoPrice(T),
    Mint(T, A, i128),
    Xfer(T, A, A, i128),
    LpRate(i128),
    /// the pool's status as some earlier history left it
    Force(usize, u32),
    // pool
    Submit { p: usize, from: A, spender: A, to: A, reqs: Vec<Req> },
    BadDebt(usize, A),
    NewLiq(usize, A, u64),
    NewBda(usize),
    NewInt(usize, Vec<T>),
    UpdStatus(usize),
    SetStatus(usize, u32),
    UpdPool(usize, u32, u32),
    QueueRes(usize, T, RCfg),
    CancelRes(usize, T),
    SetRes(usize, T),
    PGulp(usize),
    SetEmis(usize, Vec<(u32, u32, u64)>),
    PClaim { p: usize, from: A, ids: Vec<u32>, to: A },
    SetAdmin(usize, A),
    // backstop
    Dep { u: A, p: A, amt: i128 },
    Que { u: A, p: A, amt: i128 },
    Deq { u: A, p: A, amt: i128 },
    Wd { u: A, p: A, amt: i128 },
    Draw { p: A, amt: i128, to: A },
    Donate { u: A, p: A, amt: i128 },
    BGulp,
    AddReward { add: A, rem: A },
    BGulpPool(A),
    BClaim { from: A, pools: Vec<A>, to: A },
    UpdTkn,
    BDrop,
    // emitter
    Dist,
    QSwap(A, T),
    CSwap,
    Swap,
    EDrop(Vec<(A, i128)>),
}
