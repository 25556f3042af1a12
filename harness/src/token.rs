//! A plain, fast asset token for the workloads, with optional fee on transfer.
use soroban_sdk::{contract, contractimpl, contracttype, Address, Env, String};

#[contract]
pub struct TestToken;

#[contracttype]
#[derive(Clone)]
pub enum TK {
    Bal(Address),
    Dec,
    Fee,
    Sym,
}

fn bal(e: &Env, a: &Address) -> i128 {
    e.storage().persistent().get(&TK::Bal(a.clone())).unwrap_or(0)
}
fn set(e: &Env, a: &Address, v: i128) {
    e.storage().persistent().set(&TK::Bal(a.clone()), &v);
}

#[contractimpl]
impl TestToken {
    pub fn init(e: Env, dec: u32, fee_bps: i128) {
        e.storage().instance().set(&TK::Dec, &dec);
        e.storage().instance().set(&TK::Fee, &fee_bps);
    }
    pub fn mint(e: Env, to: Address, amount: i128) {
        let v = bal(&e, &to).checked_add(amount).unwrap();
        set(&e, &to, v);
    }
    pub fn balance(e: Env, id: Address) -> i128 {
        bal(&e, &id)
    }
    pub fn decimals(e: Env) -> u32 {
        e.storage().instance().get(&TK::Dec).unwrap()
    }
    pub fn name(e: Env) -> String {
        String::from_str(&e, "test")
    }
    pub fn symbol(e: Env) -> String {
        e.storage().instance().get(&TK::Sym).unwrap_or(String::from_str(&e, "TST"))
    }
    pub fn rename(e: Env, symbol: String) {
        e.storage().instance().set(&TK::Sym, &symbol);
    }
    pub fn transfer(e: Env, from: Address, to: Address, amount: i128) {
        from.require_auth();
        if amount < 0 {
            panic!("negative");
        }
        let f = bal(&e, &from);
        if f < amount {
            panic!("balance");
        }
        let fee_bps: i128 = e.storage().instance().get(&TK::Fee).unwrap_or(0);
        let fee = if fee_bps == 0 { 0 } else { amount / 10_000 * fee_bps + amount % 10_000 * fee_bps / 10_000 };
        set(&e, &from, f - amount);
        let t = bal(&e, &to);
        set(&e, &to, t.checked_add(amount - fee).unwrap());
    }
    pub fn burn(e: Env, from: Address, amount: i128) {
        from.require_auth();
        let f = bal(&e, &from);
        if amount < 0 || f < amount {
            panic!("balance");
        }
        set(&e, &from, f - amount);
    }
}
