//! Native stand-ins for the external contracts the protocol talks to.
pub mod token {
    use soroban_sdk::{contract, contractimpl, contracttype, Address, Env};
    #[contracttype]
    #[derive(Clone)]
    pub enum K {
        Bal(Address),
        Allow(Address, Address),
    }
    #[contracttype]
    #[derive(Clone)]
    pub struct A {
        pub amount: i128,
        pub exp: u32,
    }
    /// Plain SEP-41 token with any number of decimals and free minting.
    #[contract]
    pub struct TokenC;
    fn get(e: &Env, a: &Address) -> i128 {
        e.storage().persistent().get(&K::Bal(a.clone())).unwrap_or(0)
    }
    fn set(e: &Env, a: &Address, v: i128) {
        e.storage().persistent().set(&K::Bal(a.clone()), &v);
    }
    pub fn mov(e: &Env, from: &Address, to: &Address, amount: i128) {
        if amount < 0 {
            panic!("negative amount");
        }
        let b = get(e, from);
        if b < amount {
            panic!("insufficient balance");
        }
        set(e, from, b - amount);
        let c = get(e, to);
        set(e, to, c + amount);
    }
    #[contractimpl]
    impl TokenC {
        pub fn mint(e: Env, to: Address, amount: i128) {
            let c = get(&e, &to);
            set(&e, &to, c + amount);
        }
        pub fn burn_any(e: Env, from: Address, amount: i128) {
            let c = get(&e, &from);
            set(&e, &from, c - amount);
        }
        pub fn balance(e: Env, id: Address) -> i128 {
            get(&e, &id)
        }
        pub fn transfer(e: Env, from: Address, to: Address, amount: i128) {
            from.require_auth();
            mov(&e, &from, &to, amount);
        }
        pub fn approve(e: Env, from: Address, spender: Address, amount: i128, expiration_ledger: u32) {
            from.require_auth();
            if amount < 0 || (amount > 0 && expiration_ledger < e.ledger().sequence()) {
                panic!("bad approve");
            }
            e.storage().persistent().set(&K::Allow(from, spender), &A { amount, exp: expiration_ledger });
        }
        pub fn allowance(e: Env, from: Address, spender: Address) -> i128 {
            match e.storage().persistent().get::<K, A>(&K::Allow(from, spender)) {
                Some(a) if a.exp >= e.ledger().sequence() => a.amount,
                _ => 0,
            }
        }
        pub fn transfer_from(e: Env, spender: Address, from: Address, to: Address, amount: i128) {
            spender.require_auth();
            let k = K::Allow(from.clone(), spender.clone());
            let mut a: A = e.storage().persistent().get(&k).expect("no allowance");
            if a.exp < e.ledger().sequence() || a.amount < amount {
                panic!("allowance");
            }
            a.amount -= amount;
            e.storage().persistent().set(&k, &a);
            mov(&e, &from, &to, amount);
        }
        pub fn decimals(_e: Env) -> u32 {
            7
        }
    }
}

pub mod oracle {
    use sep_40_oracle::{Asset, PriceData};
    use soroban_sdk::{contract, contractimpl, contracttype, Address, Env};
    #[contracttype]
    #[derive(Clone)]
    pub enum K {
        Dec,
        P(Address),
    }
    /// SEP-40 price feed whose prices and timestamps the harness sets.
    #[contract]
    pub struct OracleC;
    #[contractimpl]
    impl OracleC {
        pub fn set_decimals(e: Env, d: u32) {
            e.storage().persistent().set(&K::Dec, &d);
        }
        pub fn set_price(e: Env, a: Address, p: i128, ts: u64) {
            e.storage().persistent().set(&K::P(a), &PriceData { price: p, timestamp: ts });
        }
        pub fn del_price(e: Env, a: Address) {
            e.storage().persistent().remove(&K::P(a));
        }
        pub fn decimals(e: Env) -> u32 {
            e.storage().persistent().get(&K::Dec).unwrap()
        }
        pub fn lastprice(e: Env, asset: Asset) -> Option<PriceData> {
            match asset {
                Asset::Stellar(a) => e.storage().persistent().get(&K::P(a)),
                _ => None,
            }
        }
    }
}

pub mod comet {
    use soroban_sdk::{contract, contractimpl, contracttype, symbol_short, vec, Address, Env, IntoVal, Symbol};
    #[contracttype]
    #[derive(Clone)]
    pub enum K {
        Bal(Address),
        Sup,
        Rate,
        Last,
    }
    /// BLND-USDC LP stand-in: an LP token plus the two entry points the backstop uses.
    /// A single-sided BLND join mints amount * rate / 1e7 LP tokens.
    #[contract]
    pub struct CometC;
    fn get(e: &Env, a: &Address) -> i128 {
        e.storage().persistent().get(&K::Bal(a.clone())).unwrap_or(0)
    }
    fn set(e: &Env, a: &Address, v: i128) {
        e.storage().persistent().set(&K::Bal(a.clone()), &v);
    }
    #[contractimpl]
    impl CometC {
        pub fn set_rate(e: Env, r: i128) {
            e.storage().persistent().set(&K::Rate, &r);
        }
        pub fn mint(e: Env, to: Address, amount: i128) {
            set(&e, &to, get(&e, &to) + amount);
            let s: i128 = e.storage().persistent().get(&K::Sup).unwrap_or(0);
            e.storage().persistent().set(&K::Sup, &(s + amount));
        }
        pub fn get_total_supply(e: Env) -> i128 {
            e.storage().persistent().get(&K::Sup).unwrap_or(0)
        }
        pub fn balance(e: Env, id: Address) -> i128 {
            get(&e, &id)
        }
        pub fn transfer(e: Env, from: Address, to: Address, amount: i128) {
            from.require_auth();
            if amount < 0 {
                panic!("negative amount");
            }
            let b = get(&e, &from);
            if b < amount {
                panic!("insufficient balance");
            }
            set(&e, &from, b - amount);
            let c = get(&e, &to);
            set(&e, &to, c + amount);
        }
        pub fn last_join(e: Env) -> (i128, i128) {
            e.storage().persistent().get(&K::Last).unwrap_or((0, 0))
        }
        pub fn dep_tokn_amt_in_get_lp_tokns_out(
            e: Env,
            token_in: Address,
            token_amount_in: i128,
            min_pool_amount_out: i128,
            user: Address,
        ) -> i128 {
            user.require_auth();
            let me = e.current_contract_address();
            let exp: u32 = (e.ledger().sequence() / 100000 + 1) * 100000;
            let _: () = e.invoke_contract(
                &token_in,
                &symbol_short!("approve"),
                vec![&e, user.into_val(&e), me.into_val(&e), token_amount_in.into_val(&e), exp.into_val(&e)],
            );
            let _: () = e.invoke_contract(
                &token_in,
                &Symbol::new(&e, "transfer_from"),
                vec![&e, me.into_val(&e), user.into_val(&e), me.into_val(&e), token_amount_in.into_val(&e)],
            );
            let r: i128 = e.storage().persistent().get(&K::Rate).unwrap_or(10_000_000);
            let out = token_amount_in * r / 10_000_000;
            if out < min_pool_amount_out {
                panic!("min out");
            }
            CometC::mint(e.clone(), user, out);
            e.storage().persistent().set(&K::Last, &(token_amount_in, out));
            out
        }
    }
}

/// Mirrors of storage key types whose fields are private in the contracts. The encoding only
/// depends on names, so these read the same entries.
pub mod keys {
    use soroban_sdk::{contracttype, Address};
    #[derive(Clone)]
    #[contracttype]
    pub struct UserReserveKey {
        pub user: Address,
        pub reserve_id: u32,
    }
    #[derive(Clone)]
    #[contracttype]
    pub struct AuctionKey {
        pub user: Address,
        pub auct_type: u32,
    }
    #[derive(Clone)]
    #[contracttype]
    pub struct AllowanceDataKey {
        pub from: Address,
        pub spender: Address,
    }
    #[derive(Clone)]
    #[contracttype]
    pub struct AllowanceValue {
        pub amount: i128,
        pub live_until_ledger: u32,
    }
    #[derive(Clone)]
    #[contracttype]
    pub struct BalanceValue {
        pub amount: i128,
        pub authorized: bool,
        pub clawback: bool,
    }
    /// stellar asset contract
    #[derive(Clone)]
    #[contracttype]
    pub enum SacKey {
        Allowance(AllowanceDataKey),
        Balance(Address),
    }
    #[derive(Clone)]
    #[contracttype]
    pub enum PoolKey {
        UserEmis(UserReserveKey),
        Auction(AuctionKey),
    }
    #[derive(Clone)]
    #[contracttype]
    pub struct PoolUserKey {
        pub pool: Address,
        pub user: Address,
    }
    #[derive(Clone)]
    #[contracttype]
    pub enum BackKey {
        UserBalance(PoolUserKey),
        UEmisData(PoolUserKey),
    }
}
