//! The separate reward contract: accrual, payment and funding against a reference model. The
//! harness plays the staking contract that owns it.
use crate::core::*;
use crate::events;
use crate::pool::{mint, new_token};
use crate::types::*;
use crate::{args, Spec};
use soroban_sdk::{Address, Val, Vec as SVec};
use std::collections::BTreeSet;

const DAY: u64 = 86_400;
const E18: i64 = 1_000_000_000_000_000_000;

#[derive(Clone, Default)]
struct U {
    stakes: Vec<(i128, u64)>,
    known: bool,
    /// accrued before the present power was held, in 2^-32 units, relative to the running sum
    corr: i128,
    withdrawn: i128,
}

impl U {
    fn total(&self) -> i128 {
        self.stakes.iter().map(|s| s.0).sum()
    }
}

struct R {
    w: W,
    c: Address,
    admin: Address,
    staking: Address,
    token: Address,
    max_complexity: u32,
    min_reward: i128,
    min_bond: i128,
    users: Vec<Address>,
    m: Vec<U>,
    out: Address,
    /// rewards per unit of power since the beginning, in 2^-32 units
    spp: u128,
    left: u128,
    distributed: i128,
    paid: i128,
    received: i128,
    funds: Vec<(u64, i128, u64)>,
    points: BTreeSet<u64>,
    /// amounts as of tokens with many decimals
    wide: bool,
}

impl R {
    fn new(c: &mut Case) -> R {
        let w = W::new(c.range(1_000, 1_900_000_000) as u64);
        w.track.set(c.on("P31"));
        let token = new_token(&w, 7, 0);
        let staking = w.addr();
        let admin = if c.p(10) { staking.clone() } else { w.addr() };
        let con = w.register("phoenix_stake_rewards");
        let min_bond = *c.pick(&[1i128, 1000, 1000, 5_000, 10_000_000]);
        let min_reward = *c.pick(&[1i128, 1000, 1_000_000]);
        let max_complexity = c.range(2, 12) as u32;
        w.must::<Val>(&con, "initialize", args!(&w.env, admin.clone(), staking.clone(), token.clone(), max_complexity, min_reward, min_bond));
        let n = c.range(1, 4) as usize;
        let mut users: Vec<Address> = (0..n).map(|_| w.addr()).collect();
        // every role may coincide with another
        if n > 1 && c.p(20) {
            users[n - 1] = admin.clone();
        }
        let out = w.addr();
        mint(&w, &token, &admin, 1i128 << 90);
        mint(&w, &token, &out, 1i128 << 90);
        let wide = c.p(25);
        c.op(format!("reward contract min_bond={min_bond} min_reward={min_reward} complexity={max_complexity} now={}", w.now()));
        R { c: con, w, admin, staking, token, max_complexity, min_reward, min_bond, m: vec![U::default(); n], users, out, spp: 1, left: 0, distributed: 0, paid: 0, received: 0, funds: vec![], points: BTreeSet::new(), wide }
    }
    fn power(&self, x: i128) -> i128 {
        if x < self.min_bond {
            0
        } else {
            x / 1000
        }
    }
    fn total(&self) -> i128 {
        self.m.iter().map(|u| u.total()).sum()
    }
    fn info(&self, stakes: &[(i128, u64)], total: i128) -> BondingInfo {
        let mut v = SVec::new(&self.w.env);
        for (s, t) in stakes {
            v.push_back(Stake { stake: *s, stake_timestamp: *t });
        }
        BondingInfo { stakes: v, reward_debt: 0, last_reward_time: 0, total_stake: total }
    }
    fn mine(&self, u: usize) -> BondingInfo {
        self.info(&self.m[u].stakes, self.m[u].total())
    }
    /// accrued and not withdrawn, before scaling by age
    fn accrued(&self, u: usize) -> i128 {
        let m = &self.m[u];
        ((self.spp as i128 * self.power(m.total()) + m.corr) >> 32) - m.withdrawn
    }
    fn due(&self, u: usize) -> i128 {
        let m = &self.m[u];
        let now = self.w.now();
        let (mut a, mut b) = (z(0), z(0));
        for (s, t) in &m.stakes {
            a += z(*s) * z(((now - t) / DAY).min(60));
            b += z(*s) * z(60);
        }
        if b == z(0) {
            return 0;
        }
        let k = zdiv(&(a * z(E18)), &b);
        zi(&zdiv(&(z(self.accrued(u)) * k), &z(E18))).unwrap()
    }
    /// funded and not yet released: exact bounds
    fn locked(&self, t: u64) -> (Z, Z) {
        let (mut lo, mut hi) = (z(0), z(0));
        for (s, a, e) in &self.funds {
            let (l, h) = if t <= *s {
                (z(*a), z(*a))
            } else if t >= *e {
                (z(0), z(0))
            } else {
                let n = z(*a) * z(e - t);
                let d = z(e - s);
                (zdiv(&n, &d), zdiv(&n, &d) + z(1))
            };
            lo += l;
            hi += h;
        }
        (lo, hi + z(2 * self.funds.len() as i64))
    }
    /// rows of one account carry the same balance
    fn add(&self, b: &mut [i128], who: &Address, d: i128) {
        for (x, a) in b.iter_mut().zip([&self.c, &self.admin, &self.out].into_iter().chain(&self.users)) {
            if a == who {
                *x += d;
            }
        }
    }
    fn bals(&self) -> Vec<i128> {
        [&self.c, &self.admin, &self.out].into_iter().chain(&self.users).map(|a| self.w.native_balance(&self.token, a)).collect()
    }
}

const ALL: &[&str] = &["P21"];

fn near(a: i128, b: i128) -> bool {
    (a - b).abs() <= 1
}

fn mon(c: &mut Case, r: &R, what: &str) {
    let e = &r.w.env;
    let b = r.w.native_balance(&r.token, &r.c);
    let owed = r.distributed - r.paid;
    c.check("P21", b == r.received - r.paid, || format!("after {what} the contract holds {b}, received {} and paid {}", r.received, r.paid));
    c.check("P21", b >= owed, || format!("after {what} {owed} is distributed and not withdrawn, the contract holds {b}"));
    let q: u128 = r.w.must(&r.c, "query_distributed_reward", args!(e, r.token.clone()));
    c.check("P21", q as i128 == r.distributed, || format!("after {what} {q} is reported as distributed, {} was", r.distributed));
    let q: Res<u128> = r.w.call(&r.c, "query_undistributed_reward", args!(e, r.token.clone()));
    c.check("P21", q == Ok((b - owed) as u128), || format!("after {what} {q:?} is reported as undistributed, {} is", b - owed));
    let mut sum = 0;
    for u in 0..r.users.len() {
        if !r.m[u].known {
            continue;
        }
        sum += r.accrued(u);
        let q: Res<WithdrawableReward> = r.w.call(&r.c, "query_withdrawable_reward", args!(e, r.users[u].clone(), r.mine(u)));
        let want = r.due(u);
        c.eval("P21", if want > 0 { Some((u, want, r.distributed, r.m[u].withdrawn)) } else { None });
        let ok = matches!(&q, Ok(x) if near(x.reward_amount as i128, want) && x.reward_address == r.token);
        c.check("P21", ok, || format!("after {what} user{u} (stakes {:?}, accrued {}, now {}) can withdraw {q:?}, due is {want}", r.m[u].stakes, r.accrued(u), r.w.now()));
    }
    c.check("P21", sum <= owed, || format!("after {what} the users have accrued {sum}, distributed and not withdrawn is {owed}"));
}

/// Only the staking contract's calls are accepted.
fn guard(c: &mut Case, r: &R, f: &str, a: &SVec<Val>, both: Option<&Address>) {
    let prop = c.prop.clone();
    if !["P10", "P11", "P21"].contains(&prop.as_str()) || !c.p(if prop == "P21" { 10 } else { 60 }) {
        return;
    }
    let mut bad = vec![r.out.clone(), r.users[0].clone()];
    if r.admin != r.staking {
        bad.push(r.admin.clone());
    }
    let owner = match both {
        None => Some(r.staking.clone()),
        Some(_) => {
            bad.push(r.staking.clone());
            None
        }
    };
    // (an account would have to sign twice for an unbonding that pays: the staking contract calls itself)
    twin(c, &r.w, &prop, &r.c, f, a, owner.as_ref(), &bad);
}

fn bond(c: &mut Case, r: &mut R) {
    let u = c.below(r.users.len());
    let x = match c.below(6) {
        // (rewards per point that were earned with a tiny total make large bonds exceed 128 bits)
        _ if r.wide => (1 << 45) + c.amt(1 << 66),
        0 => c.range(1, 2000),
        1 => r.min_bond,
        2 => (r.min_bond - 1).max(1),
        _ => c.amt(10_000_000_000_000),
    };
    let now = r.w.now();
    let old = r.m[u].total();
    let mut st = r.m[u].stakes.clone();
    st.push((x, now));
    let e = &r.w.env;
    let first = !r.m[u].known;
    let (f, a) = if first {
        ("add_user", args!(e, r.users[u].clone(), r.info(&st, old + x)))
    } else {
        ("calculate_bond", args!(e, r.users[u].clone(), r.info(&st, old)))
    };
    guard(c, r, f, &a, None);
    let pre = r.bals();
    let q: Res<Val> = r.w.call(&r.c, f, a);
    let au = r.w.authed();
    c.op(format!("{f} user{u} {x} on {old} now={now}: {q:?}"));
    c.check_any(ALL, q.is_ok(), || format!("{f} of {x} fails: {q:?}"));
    c.check_any(&["P21", "P10"], au.contains(&r.staking), || format!("{f} was accepted without the staking contract"));
    c.check_any(&["P21", "P11"], pre == r.bals(), || format!("{f} moved tokens"));
    if q.is_ok() {
        let d = r.power(old + x) - if first { 0 } else { r.power(old) };
        r.m[u].corr -= r.spp as i128 * d;
        r.m[u].stakes = st;
        r.m[u].known = true;
    }
    mon(c, r, f);
}

fn pay(c: &mut Case, r: &mut R, what: &str, u: usize, want: i128, pre: &[i128]) {
    let post = r.bals();
    let got = post[3 + u] - pre[3 + u];
    c.check("P21", near(got, want), || format!("{what}: user{u} is paid {got}, due was {want}"));
    let mut exp = pre.to_vec();
    r.add(&mut exp, &r.users[u], got);
    r.add(&mut exp, &r.c, -got);
    c.check_any(&["P21", "P11"], exp == post, || format!("{what} of {got} moved {pre:?} to {post:?}"));
    r.m[u].withdrawn += got;
    r.paid += got;
    if got > 0 {
        c.count("rewards paid");
    }
}

fn reported(r: &R, u: usize) -> i128 {
    let q: Res<WithdrawableReward> = r.w.call(&r.c, "query_withdrawable_reward", args!(&r.w.env, r.users[u].clone(), r.mine(u)));
    q.map(|x| x.reward_amount as i128).unwrap_or(-1)
}

fn unbond(c: &mut Case, r: &mut R) {
    let u = c.below(r.users.len());
    if r.m[u].stakes.is_empty() {
        return;
    }
    let k = c.below(r.m[u].stakes.len());
    let x = r.m[u].stakes[k].0;
    let old = r.m[u].total();
    let a = args!(&r.w.env, r.users[u].clone(), r.mine(u), x);
    let who = r.users[u].clone();
    guard(c, r, "calculate_unbond", &a, Some(&who));
    let rep = reported(r, u);
    let want = r.due(u);
    let pre = r.bals();
    let q: Res<Val> = r.w.call(&r.c, "calculate_unbond", a);
    let au = r.w.authed();
    c.op(format!("calculate_unbond user{u} {x} of {old}: {q:?}"));
    c.check_any(ALL, q.is_ok(), || format!("calculate_unbond of {x} fails: {q:?}"));
    c.check_any(&["P21", "P10", "P11"], au.contains(&r.staking) && au.contains(&who), || "calculate_unbond was accepted without the staking contract and the user".into());
    if q.is_ok() {
        let got = r.bals()[3 + u] - pre[3 + u];
        c.check("P21", got == rep, || format!("unbonding pays {got}, {rep} was reported as withdrawable"));
        pay(c, r, "unbonding", u, want, &pre);
        let d = r.power(old - x) - r.power(old);
        r.m[u].corr -= r.spp as i128 * d;
        r.m[u].stakes.remove(k);
    }
    mon(c, r, "unbonding");
}

fn withdraw(c: &mut Case, r: &mut R) {
    let u = c.below(r.users.len());
    if !r.m[u].known {
        return;
    }
    let a = args!(&r.w.env, r.users[u].clone(), r.mine(u));
    guard(c, r, "withdraw_rewards", &a, None);
    let rep = reported(r, u);
    let want = r.due(u);
    let pre = r.bals();
    let q: Res<Val> = r.w.call(&r.c, "withdraw_rewards", a);
    let au = r.w.authed();
    let ev = if c.on("P31") { events::last(&r.w, &r.c) } else { vec![] };
    c.op(format!("withdraw_rewards user{u} due {want}: {q:?}"));
    c.check_any(ALL, q.is_ok(), || format!("withdrawing rewards fails: {q:?}"));
    c.check_any(&["P21", "P10", "P11"], au.contains(&r.staking), || "a withdrawal was accepted without the staking contract".into());
    if q.is_ok() {
        let got = r.bals()[3 + u] - pre[3 + u];
        c.check("P21", got == rep, || format!("a withdrawal pays {got}, {rep} was reported"));
        if c.on("P31") && got > 0 {
            c.eval("P31", Some(("reward contract withdrawal", got)));
            events::want(c, &r.w, &ev, &["withdraw_rewards", "user"], r.users[u].clone());
            events::want(c, &r.w, &ev, &["withdraw_rewards", "reward_token"], r.token.clone());
            events::want(c, &r.w, &ev, &["withdraw_rewards", "reward_amount"], got);
        }
        pay(c, r, "a withdrawal", u, want, &pre);
    }
    mon(c, r, "a withdrawal");
}

fn distribute(c: &mut Case, r: &mut R) {
    let total = r.total();
    let p = r.power(total);
    let a = args!(&r.w.env, total);
    guard(c, r, "distribute_rewards", &a, None);
    let pre = r.bals();
    let q: Res<Val> = r.w.call(&r.c, "distribute_rewards", a);
    let au = r.w.authed();
    let ev = if c.on("P31") { events::last(&r.w, &r.c) } else { vec![] };
    c.op(format!("distribute_rewards total={total} now={} funds={:?}: {q:?}", r.w.now(), r.funds));
    c.check_any(ALL, q.is_ok(), || format!("distributing fails: {q:?}"));
    c.check_any(&["P21", "P10"], au.contains(&r.staking), || "a distribution was accepted without the staking contract".into());
    c.check_any(&["P21"], pre == r.bals(), || "a distribution moved tokens".into());
    if q.is_err() {
        return;
    }
    let after: u128 = r.w.must(&r.c, "query_distributed_reward", args!(&r.w.env, r.token.clone()));
    let amount = after as i128 - r.distributed;
    let free = pre[0] - (r.distributed - r.paid);
    let (lo, hi) = r.locked(r.w.now());
    let ok = if p == 0 { amount == 0 } else { z(amount) <= (z(free) - &lo).max(z(0)) && z(amount) >= z(free) - &hi };
    c.eval("P21", if amount > 0 { Some(("distribute", amount, total, r.spp)) } else { None });
    c.check("P21", ok, || format!("{amount} is distributed over power {p}: undistributed {free}, locked by schedule {lo}..{hi}"));
    if amount > 0 && p > 0 {
        c.count("distributed");
        let pts = ((amount as u128) << 32) + r.left;
        r.spp += pts / p as u128;
        r.left = pts % p as u128;
        r.distributed += amount;
        if c.on("P31") {
            c.eval("P31", Some(("reward contract distribution", amount)));
            events::want(c, &r.w, &ev, &["distribute_rewards", "asset"], r.token.clone());
            events::want(c, &r.w, &ev, &["distribute_rewards", "amount"], amount as u128);
        }
    }
    mon(c, r, "a distribution");
}

fn fund(c: &mut Case, r: &mut R) {
    let now = r.w.now();
    let start = match c.below(8) {
        0 => now - 1,
        1 => now + c.range(1, 1000) as u64,
        2 => now + c.range(1, 20) as u64 * DAY,
        _ => now,
    };
    let dur = {
        let m = *c.pick(&[10i128, 10_000, 8_000_000]);
        if c.p(6) { 0 } else { 1 + c.amt(m) as u64 }
    };
    let amount = match c.below(8) {
        0 => r.min_reward - 1,
        1 => r.min_reward,
        _ if r.wide => r.min_reward - 1 + c.amt(10_000_000_000_000_000_000),
        _ => r.min_reward - 1 + c.amt(1_000_000_000_000_000),
    };
    let end = start + dur;
    let over = r.points.last().map_or(false, |l| *l < now);
    let mut pts = if over { BTreeSet::new() } else { r.points.clone() };
    let check = !over;
    pts.insert(start);
    pts.insert(end);
    let why = if start < now {
        Some("start in the past")
    } else if amount < r.min_reward {
        Some("below the minimum")
    } else if dur == 0 {
        Some("no duration")
    } else if check && pts.len() as u32 > r.max_complexity {
        Some("too complex")
    } else {
        None
    };
    let a = args!(&r.w.env, start, dur, amount);
    if c.on("P10") || c.on("P11") || (c.on("P21") && c.p(20)) {
        // takes the administrator's tokens as well: no root signature alone is enough
        let prop = c.prop.clone();
        let mut bad = vec![r.out.clone(), r.users[0].clone()];
        if r.admin != r.staking {
            bad.extend([r.staking.clone(), r.admin.clone()]);
        }
        twin(c, &r.w, &prop, &r.c, "fund_distribution", &a, None, &bad);
    }
    let pre = r.bals();
    let d0 = r.w.digest();
    let q: Res<Val> = r.w.call(&r.c, "fund_distribution", a);
    let au = r.w.authed();
    c.op(format!("fund {amount} from {start} to {end} now={now} points={pts:?}: {q:?}"));
    c.eval("P21", Some(("fund", amount, start, end, why)));
    match (q, why) {
        (Ok(_), None) => {
            c.check_any(&["P21", "P10", "P11"], au.contains(&r.admin) && au.contains(&r.staking), || "funding was accepted without the administrator and the staking contract".into());
            let mut exp = pre.clone();
            r.add(&mut exp, &r.c, amount);
            r.add(&mut exp, &r.admin, -amount);
            c.check_any(&["P21", "P11"], exp == r.bals(), || format!("funding {amount} moved {pre:?} to {:?}", r.bals()));
            r.received += amount;
            r.funds.push((start, amount, end));
            r.points = pts;
            c.count("funded");
        }
        (Ok(_), Some(x)) => c.check("P21", false, || format!("funding was accepted in spite of: {x}")),
        (Err(e), None) => c.check("P21", false, || format!("sound funding was refused: {e:?}")),
        (Err(_), Some(x)) => {
            c.count(&format!("funding refused: {x}"));
            let diff = digest_diff(&d0, &r.w.digest());
            c.check("P21", diff.is_none(), || format!("refused funding changed {diff:?}"));
        }
    }
    mon(c, r, "funding");
}

pub fn history(c: &mut Case) {
    let mut r = R::new(c);
    let hash = r.w.upload("soroban_token_contract");
    if c.on("P12") {
        let a = args!(&r.w.env, r.out.clone(), r.out.clone(), r.token.clone(), 5u32, 1i128, 1i128);
        crate::sys::once(c, &r.w, &r.c, a);
        let q: RewardsConfigResponse = r.w.must(&r.c, "query_config", args!(&r.w.env));
        let want = RewardsConfig { staking_contract: r.staking.clone(), reward_token: r.token.clone(), max_complexity: r.max_complexity, min_reward: r.min_reward, min_bond: r.min_bond };
        let adm: Address = r.w.must(&r.c, "query_admin", args!(&r.w.env));
        c.check("P12", q.config == want && adm == r.admin, || format!("configured {q:?}, requested {want:?}"));
    }
    for _ in 0..45 {
        if c.bad() {
            return;
        }
        match c.weighted(&[(16, "bond"), (10, "unbond"), (7, "fund"), (6, "burst"), (20, "dist"), (18, "wd"), (20, "time"), (3, "donate"), (if c.on("P10") { 15 } else if c.on("P30") { 3 } else { 0 }, "update")]) {
            "bond" => bond(c, &mut r),
            "unbond" => unbond(c, &mut r),
            "fund" => fund(c, &mut r),
            "burst" => {
                // all in one ledger: nothing is released in between
                distribute(c, &mut r);
                if !c.bad() {
                    fund(c, &mut r);
                }
                if !c.bad() {
                    distribute(c, &mut r);
                }
            }
            "dist" => distribute(c, &mut r),
            "wd" => withdraw(c, &mut r),
            "update" => {
                let mut bad = vec![r.out.clone(), r.users[0].clone()];
                if r.admin != r.staking {
                    bad.push(r.staking.clone());
                }
                let con = r.c.clone();
                reinstall(c, &mut r.w, &con, "phoenix_stake_rewards");
                twin(c, &r.w, "P10", &r.c, "update", &args!(&r.w.env, hash.clone()), Some(&r.admin), &bad);
            }
            "donate" => {
                let x = c.amt(1_000_000_000);
                r.w.must::<Val>(&r.token, "transfer", args!(&r.w.env, r.out.clone(), r.c.clone(), x));
                c.op(format!("{x} reward tokens arrive directly"));
                r.received += x;
            }
            _ => {
                let now = r.w.now();
                let nexts: Vec<u64> = r.points.iter().filter(|p| **p > now).cloned().collect();
                let dt = match c.below(6) {
                    0 => 1,
                    1 | 2 if !nexts.is_empty() => (*c.pick(&nexts) - now + c.below(3) as u64).saturating_sub(1),
                    3 => DAY * c.range(1, 70) as u64,
                    4 => DAY,
                    _ => c.amt(1_000_000) as u64,
                };
                r.w.advance(dt);
                c.op(format!("{dt} seconds pass"));
            }
        }
    }
}

pub fn specs() -> Vec<Spec> {
    vec![Spec { id: "P21", work: vec![(1, "rewards", history)], scripted: vec![], quick: 600, thorough: 28_000, rule: "random histories of users joining, bonding, unbonding, funding with overlapping schedules, distributions, withdrawals, donations and time steps; non-trivial when a distinct amount due, distribution or funding was judged" }]
}
