mod core;
mod driver;
mod token;
mod types;
mod events;
mod model;
mod pool;
mod vesting;
mod lptoken;
mod stake;
mod sys;
mod rewards;
mod trader;
mod init;

pub use driver::{Spec, Work};

fn specs() -> Vec<Spec> {
    let mut v = vec![];
    v.extend(pool::specs());
    v.extend(vesting::specs());
    v.extend(lptoken::specs());
    v.extend(stake::specs());
    v.extend(sys::specs());
    v.extend(rewards::specs());
    v.extend(trader::specs());
    let s = |id, work: Vec<(u32, &'static str, Work)>, quick, rule| Spec { id, work, scripted: vec![], quick, thorough: quick * 40, rule };
    v.push(s("P10", vec![(2, "xyk", pool::xyk as Work), (2, "stable", pool::stable), (3, "stake", stake::history), (2, "lptoken", lptoken::history), (3, "vesting", vesting::history), (2, "factory", sys::factory), (2, "rewards", rewards::history), (2, "trader", trader::history)], 360,
        "every privileged operation of every contract, attempted on copies of states reached by histories with all signatures, the owner's alone, nobody's, outsiders' and former owners'; non-trivial when the operation works with all signatures and the attempt is distinct"));
    v.push(s("P11", vec![(3, "xyk", pool::xyk as Work), (3, "stable", pool::stable), (3, "stake", stake::history), (5, "lptoken", lptoken::history), (3, "vesting", vesting::history), (2, "multihop", sys::multihop), (1, "factory", sys::factory), (1, "rewards", rewards::history), (1, "trader", trader::history)], 400,
        "every user-facing operation of every contract in histories: each loss judged against the recorded authorizations, each operation attempted on copies without them; non-trivial when something was lost or the operation works with all signatures, and the attempt is distinct"));
    v.push(s("P12", vec![(8, "init", init::all as Work), (4, "xyk", pool::xyk), (4, "stable", pool::stable), (3, "factory", sys::factory), (2, "rewards", rewards::history), (2, "vesting", vesting::history), (1, "trader", trader::history)], 480,
        "initializations and reconfigurations of every contract with settings at, inside and outside their bounds, and repeated initializations; non-trivial when settings or state are distinct"));
    v.push(s("P30", vec![(2, "xyk", pool::xyk as Work), (2, "stable", pool::stable), (2, "stake", stake::history), (1, "lptoken", lptoken::history), (2, "vesting", vesting::history), (2, "multihop", sys::multihop), (2, "factory", sys::factory), (1, "rewards", rewards::history), (1, "trader", trader::history)], 300,
        "calls of histories of every contract, repeated on a copy of the ledger in which every entry is about to expire; every contract entry in the call's footprint is judged; non-trivial when function and entry are distinct"));
    v.push(s("P31", vec![(3, "xyk", pool::xyk as Work), (3, "stable", pool::stable), (3, "stake", stake::history), (2, "vesting", vesting::history), (1, "factory", sys::factory), (1, "rewards", rewards::history), (1, "trader", trader::history)], 550,
        "histories of pool, staking, vesting, factory and reward operations whose events are compared with the balance changes; non-trivial when the operation's amounts are distinct"));
    v
}

fn main() {
    driver::run(specs(), true)
}
