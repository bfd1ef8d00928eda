//! Stand-ins for the contracts outside the protocol: price oracle, pool registry, and the BLND:USDC liquidity pool.
pub mod oracle {
    use soroban_sdk::{contract, contractimpl, contracttype, symbol_short, Address, Env, Symbol};
    #[contracttype]
    pub enum Asset {
        Stellar(Address),
        Other(Symbol),
    }
    #[contracttype]
    pub struct PriceData {
        pub price: i128,
        pub timestamp: u64,
    }
    #[contract]
    pub struct Oracle;
    #[contractimpl]
    impl Oracle {
        pub fn set_dec(e: Env, d: u32) {
            e.storage().persistent().set(&symbol_short!("dec"), &d);
        }
        pub fn set_price(e: Env, a: Address, price: i128, ts: u64) {
            e.storage().persistent().set(&a, &(price, ts));
        }
        pub fn del_price(e: Env, a: Address) {
            e.storage().persistent().remove(&a);
        }
        pub fn decimals(e: Env) -> u32 {
            e.storage().persistent().get(&symbol_short!("dec")).unwrap()
        }
        pub fn lastprice(e: Env, asset: Asset) -> Option<PriceData> {
            match asset {
                Asset::Stellar(a) => e
                    .storage()
                    .persistent()
                    .get::<Address, (i128, u64)>(&a)
                    .map(|(price, timestamp)| PriceData { price, timestamp }),
                Asset::Other(_) => None,
            }
        }
    }
}
pub mod registry {
    use soroban_sdk::{contract, contractimpl, Address, Env};
    #[contract]
    pub struct Registry;
    #[contractimpl]
    impl Registry {
        pub fn add(e: Env, a: Address) {
            e.storage().persistent().set(&a, &true);
        }
        pub fn is_pool(e: Env, pool_address: Address) -> bool {
            e.storage().persistent().get(&pool_address).unwrap_or(false)
        }
    }
}
pub mod comet {
    use soroban_sdk::{contract, contractimpl, contracttype, symbol_short, token, Address, Env};
    #[contracttype]
    pub struct AllowKey {
        pub from: Address,
        pub spender: Address,
    }
    #[contracttype]
    pub struct AllowVal {
        pub amount: i128,
        pub live_until_ledger: u32,
    }
    #[contracttype]
    pub enum Key {
        Balance(Address),
        Allowance(AllowKey),
    }
    fn bal(e: &Env, a: &Address) -> i128 {
        e.storage().persistent().get(&Key::Balance(a.clone())).unwrap_or(0)
    }
    fn set(e: &Env, a: &Address, v: i128) {
        e.storage().persistent().set(&Key::Balance(a.clone()), &v)
    }
    fn supply(e: &Env) -> i128 {
        e.storage().persistent().get(&symbol_short!("supply")).unwrap_or(0)
    }
    #[contract]
    pub struct Comet;
    #[contractimpl]
    impl Comet {
        pub fn mint(e: Env, to: Address, amount: i128) {
            if amount < 0 {
                panic!()
            }
            let b = bal(&e, &to).checked_add(amount).unwrap();
            let s = supply(&e).checked_add(amount).unwrap();
            set(&e, &to, b);
            e.storage().persistent().set(&symbol_short!("supply"), &s);
        }
        pub fn balance(e: Env, id: Address) -> i128 {
            bal(&e, &id)
        }
        pub fn get_total_supply(e: Env) -> i128 {
            supply(&e)
        }
        pub fn transfer(e: Env, from: Address, to: Address, amount: i128) {
            from.require_auth();
            if amount < 0 || bal(&e, &from) < amount {
                panic!()
            }
            set(&e, &from, bal(&e, &from) - amount);
            set(&e, &to, bal(&e, &to).checked_add(amount).unwrap());
        }
        pub fn approve(e: Env, from: Address, spender: Address, amount: i128, live_until_ledger: u32) {
            from.require_auth();
            e.storage().temporary().set(
                &Key::Allowance(AllowKey { from, spender }),
                &AllowVal { amount, live_until_ledger },
            );
        }
        pub fn dep_tokn_amt_in_get_lp_tokns_out(
            e: Env,
            token_in: Address,
            token_amount_in: i128,
            min_pool_amount_out: i128,
            user: Address,
        ) -> i128 {
            user.require_auth();
            let me = e.current_contract_address();
            let t = token::Client::new(&e, &token_in);
            let pooled = t.balance(&me);
            let out = supply(&e).checked_mul(token_amount_in).unwrap() / pooled;
            let out = out.checked_mul(8).unwrap() / 10;
            if out < min_pool_amount_out || pooled == 0 {
                panic!()
            }
            let until = (e.ledger().sequence() / 100_000 + 1) * 100_000;
            t.approve(&user, &me, &token_amount_in, &until);
            t.transfer_from(&me, &user, &me, &token_amount_in);
            Self::mint(e, user, out);
            out
        }
    }
}
