//! The LP staking contract: bonds, distributions and rewards against a reference model.
use crate::core::*;
use crate::events;
use crate::pool::{mint, new_token};
use crate::types::*;
use crate::{args, Spec};
use soroban_sdk::{Address, Val};

const DAY: u64 = 86_400;

#[derive(Clone, Debug, PartialEq)]
struct Dist {
    token: usize,
    amount: i128,
    total: i128,
    /// ledger time, and the latest time the contract may have booked it under
    time: u64,
    slot: u64,
}

#[derive(Clone, Debug, Default)]
struct User {
    stakes: Vec<(i128, u64)>,
    /// distributions before this one are settled
    paid: usize,
}

pub struct StakeW {
    w: W,
    c: Address,
    lp: Address,
    admin: Address,
    manager: Address,
    owner: Address,
    min_bond: i128,
    tokens: Vec<Address>,
    flows: Vec<usize>,
    users: Vec<Address>,
    m: Vec<User>,
    dists: Vec<Dist>,
    slots: Vec<u64>,
    last_wd: Option<u64>,
    outsider: Address,
    /// amounts as of tokens with many decimals
    wide: bool,
}

type Bal = Vec<Vec<i128>>;

impl StakeW {
    fn new(c: &mut Case) -> Self {
        let t0 = c.range(1, 1_900_000_000) as u64;
        let w = W::new(t0);
        w.track.set(c.on("P31"));
        let lp = new_token(&w, 7, 0);
        let nt = c.range(1, 3) as usize;
        let mut tokens: Vec<Address> = (0..nt).map(|_| new_token(&w, 7, 0)).collect();
        if c.p(25) {
            tokens.push(lp.clone());
        }
        let manager = w.addr();
        let mut users: Vec<Address> = (0..3).map(|_| w.addr()).collect();
        let owner = match c.below(10) {
            0 | 1 => manager.clone(),
            2 => users[1].clone(),
            _ => w.addr(),
        };
        // every role may coincide with another
        let admin = match c.below(10) {
            0 => manager.clone(),
            1 => owner.clone(),
            2 => users[0].clone(),
            3 => users[2].clone(),
            _ => w.addr(),
        };
        // the manager may stake too
        users.push(manager.clone());
        let min_reward = *c.pick(&[1i128, 5, 1000, 1_000_000_000, i128::MAX]);
        let complexity = *c.pick(&[1u32, 2, 7, 10]);
        let min_bond = *c.pick(&[1i128, 10, 1000, 5_000_000]);
        let con = w.register("phoenix_stake");
        w.must::<Val>(
            &con,
            "initialize",
            args!(&w.env, admin.clone(), lp.clone(), min_bond, min_reward, manager.clone(), owner.clone(), complexity),
        );
        for u in users.iter().chain([&owner]) {
            mint(&w, &lp, u, 1i128 << 112);
            for t in &tokens {
                mint(&w, t, u, 1i128 << 112);
            }
        }
        let outsider = w.addr();
        for t in tokens.iter().chain([&lp]) {
            mint(&w, t, &outsider, 1i128 << 112);
        }
        let wide = c.p(30);
        c.op(format!("stake contract min_bond={min_bond} min_reward={min_reward} tokens={} lp_as_reward={} t0={t0}", tokens.len(), tokens.len() > nt));
        let m = vec![User::default(); users.len()];
        StakeW { w, c: con, lp, admin, manager, owner, min_bond, tokens, flows: vec![], users, m, dists: vec![], slots: vec![], last_wd: None, outsider, wide }
    }
    /// rows: contract, users, owner, outsider; columns: LP, reward tokens
    fn bal(&self) -> Bal {
        let mut v = vec![];
        for h in [&self.c].into_iter().chain(self.users.iter()).chain([&self.owner, &self.outsider]) {
            let mut r = vec![self.w.native_balance(&self.lp, h)];
            for t in &self.tokens {
                r.push(self.w.native_balance(t, h));
            }
            v.push(r);
        }
        v
    }
    fn total(&self) -> i128 {
        self.m.iter().flat_map(|u| &u.stakes).map(|s| s.0).sum()
    }
    /// what the user is entitled to of reward token `t`: bounds that differ by rounding only
    fn due(&self, u: usize, t: usize) -> (Z, Z) {
        let (mut lo, mut hi) = (z(0), z(0));
        for d in &self.dists[self.m[u].paid..] {
            if d.token != t || d.total == 0 {
                continue;
            }
            for (s, ts) in &self.m[u].stakes {
                let share = zdiv(&(z(*s) * z(d.amount)), &z(d.total));
                for (time, low) in [(d.time, true), (d.slot, false)] {
                    let days = (time.saturating_sub(*ts) / DAY).min(60);
                    let e18 = z(1_000_000_000_000_000_000i64);
                    if low {
                        let mult = zdiv(&(z(days) * &e18), &z(60));
                        lo += zdiv(&(&share * mult), &e18);
                    } else {
                        hi += zdiv(&(&share * z(days)), &z(60));
                    }
                }
            }
        }
        (lo, hi)
    }
    fn settle(&mut self, u: usize) {
        self.m[u].paid = self.dists.len();
        let t = self.slots.iter().max().copied().unwrap_or(0).max(self.w.now());
        self.last_wd = Some(t);
    }
}

/// Monitors over the state between any two calls.
fn mon(c: &mut Case, s: &StakeW, b: &Bal) {
    let e = &s.w.env;
    let tot = s.total();
    // custody
    let mut owed = vec![z(0); s.tokens.len()];
    for u in 0..s.users.len() {
        for t in 0..s.tokens.len() {
            owed[t] += s.due(u, t).0;
        }
    }
    let mut need_lp = z(tot);
    c.check_any(&["P18", "P20"], z(b[0][0]) >= need_lp, || format!("staked {tot}, the contract holds {} LP tokens", b[0][0]));
    for t in 0..s.tokens.len() {
        if s.tokens[t] == s.lp {
            need_lp += &owed[t];
            c.check("P20", z(b[0][0]) >= need_lp, || format!("{tot} staked and {} owed, holds {} LP tokens", owed[t], b[0][0]));
        } else {
            c.check("P20", z(b[0][t + 1]) >= owed[t], || format!("owes {} of reward token {t}, holds {}", owed[t], b[0][t + 1]));
        }
    }
    c.eval("P20", Some((format!("{owed:?}"), tot)));
    if !c.on("P18") && !c.on("P11") {
        return;
    }
    let q: i128 = s.w.must(&s.c, "query_total_staked", args!(e));
    c.check("P18", q == tot, || format!("reports {q} staked in total, stakes add up to {tot}"));
    for u in 0..s.users.len() {
        let r: StakedResponse = s.w.must(&s.c, "query_staked", args!(e, s.users[u].clone()));
        let mut got: Vec<(i128, u64)> = r.stakes.iter().map(|x| (x.stake, x.stake_timestamp)).collect();
        let mut exp = s.m[u].stakes.clone();
        got.sort();
        exp.sort();
        c.check_any(&["P18", "P11"], got == exp, || format!("user{u}'s stakes are {got:?}, expected {exp:?}"));
        let sum: i128 = exp.iter().map(|x| x.0).sum();
        c.check("P18", r.total_stake == sum, || format!("user{u}'s total is {}, expected {sum}", r.total_stake));
    }
    c.eval("P18", Some((tot, s.m.iter().map(|u| u.stakes.clone()).collect::<Vec<_>>())));
}

/// `who` (row) may lose what it authorized; everybody else only gains nothing and loses nothing.
fn others(c: &mut Case, s: &StakeW, what: &str, pre: &Bal, post: &Bal, party: usize) {
    for i in 1..pre.len() {
        if i != party && s.row_addr(i) != s.row_addr(party) {
            c.check_any(&["P18", "P19", "P20", "P11"], pre[i] == post[i], || format!("{what} changed balances of an uninvolved account: {:?} -> {:?}", pre[i], post[i]));
        }
    }
    for k in 0..pre[0].len() {
        // rows of one account counted once
        let mut sum = 0i128;
        let mut seen: Vec<&Address> = vec![];
        for i in 0..pre.len() {
            let a = s.row_addr(i);
            if seen.contains(&a) {
                continue;
            }
            seen.push(a);
            sum += post[i][k] - pre[i][k];
        }
        c.check_any(&["P18", "P20"], sum == 0, || format!("{what}: {sum} of token column {k} came from or went to nobody"));
    }
}

impl StakeW {
    fn row_addr(&self, i: usize) -> &Address {
        if i == 0 {
            &self.c
        } else if i <= self.users.len() {
            &self.users[i - 1]
        } else if i == self.users.len() + 1 {
            &self.owner
        } else {
            &self.outsider
        }
    }
    fn row(&self, u: usize) -> usize {
        u + 1
    }
}

fn bond(c: &mut Case, s: &mut StakeW, b: &Bal) -> Bal {
    let u = c.below(s.users.len());
    let have = b[s.row(u)][0];
    let x = match c.below(10) {
        0 => s.min_bond,
        1 => s.min_bond - 1,
        2 if c.p(20) => have + 1,
        3 if c.p(20) => -5,
        4 if !s.m[u].stakes.is_empty() => s.m[u].stakes[0].0,
        _ if s.wide && c.p(60) => s.min_bond - 1 + c.amt(1 << 104),
        _ => s.min_bond - 1 + c.amt(1_000_000_000_000_000),
    };
    c.op(format!("bond user{u} {x} now={}", s.w.now()));
    let r: Res<Val> = s.w.call(&s.c, "bond", args!(&s.w.env, s.users[u].clone(), x));
    let au = s.w.authed();
    let ev = if c.on("P31") { events::last(&s.w, &s.c) } else { vec![] };
    let post = s.bal();
    let ok = x >= s.min_bond && x <= have;
    c.check("P18", r.is_ok() == ok, || format!("bonding {x} (minimum {}, balance {have}): {r:?}", s.min_bond));
    if r.is_ok() {
        let now = s.w.now();
        s.m[u].stakes.push((x, now));
        let mut exp = b.clone();
        for i in 0..exp.len() {
            if s.row_addr(i) == &s.users[u] {
                exp[i][0] -= x;
            }
        }
        exp[0][0] += x;
        fix_lp(s, &mut exp);
        c.check_any(&["P18", "P11", "P01"], exp == post, || format!("bonding {x} moved {b:?} to {post:?}"));
        c.eval("P11", Some(("bond", x, u)));
        c.check("P11", au.contains(&s.users[u]), || "a bond was made without the owner's authorization".into());
        if c.on("P31") {
            events::stake(c, &s.w, &ev, "bond", &s.users[u], &s.lp, x);
        }
        c.count("bond ok");
    } else {
        c.check("P18", *b == post, || "a refused bond moved tokens".into());
        c.check("P31", ev.is_empty(), || "a refused bond published events".into());
    }
    mon(c, s, &post);
    post
}

/// the LP token may appear as a reward column as well
fn fix_lp(s: &StakeW, b: &mut Bal) {
    for (t, a) in s.tokens.iter().enumerate() {
        if *a == s.lp {
            for r in b.iter_mut() {
                r[t + 1] = r[0];
            }
        }
    }
}

/// Judge what user u received as rewards between two observations.
fn paid(c: &mut Case, s: &StakeW, what: &str, u: usize, pre: &Bal, post: &Bal, lp_back: i128) -> bool {
    let mut any = false;
    for t in 0..s.tokens.len() {
        let (lo, hi) = if s.flows.contains(&t) { s.due(u, t) } else { (z(0), z(0)) };
        let mut got = post[s.row(u)][t + 1] - pre[s.row(u)][t + 1];
        if s.tokens[t] == s.lp {
            got -= lp_back;
        }
        any |= got > 0;
        c.eval("P19", if hi > z(0) { Some((what.to_string(), u, t, got, s.dists.len())) } else { None });
        if hi > z(0) {
            c.count("rewards judged");
        }
        c.check("P19", z(got) >= lo && z(got) <= hi, || {
            format!("{what}: user{u} received {got} of reward token {t}, entitled to {lo} (stakes {:?}, unsettled {:?})", s.m[u].stakes, &s.dists[s.m[u].paid..])
        });
    }
    any
}

fn reported(c: &mut Case, s: &StakeW, u: usize) -> Vec<(Address, u128)> {
    let r: Res<WithdrawableRewardsResponse> = s.w.call(&s.c, "query_withdrawable_rewards", args!(&s.w.env, s.users[u].clone()));
    match r {
        Ok(r) => r.rewards.iter().map(|x| (x.reward_address, x.reward_amount)).collect(),
        Err(e) => {
            c.check_any(&["P19", "P20"], false, || format!("withdrawable rewards cannot be queried: {e:?}"));
            vec![]
        }
    }
}

fn check_reported(c: &mut Case, s: &StakeW, u: usize, rep: &[(Address, u128)], pre: &Bal, post: &Bal, lp_back: i128) {
    c.check("P19", rep.len() == s.flows.len(), || format!("rewards of {} tokens reported, {} flows", rep.len(), s.flows.len()));
    for (a, x) in rep {
        let t = s.tokens.iter().position(|y| y == a).unwrap_or(0);
        let mut got = post[s.row(u)][t + 1] - pre[s.row(u)][t + 1];
        if s.tokens[t] == s.lp {
            got -= lp_back;
        }
        c.check("P19", got >= 0 && got as u128 == *x, || format!("{x} of reward token {t} reported, {got} paid"));
    }
}

fn withdraw(c: &mut Case, s: &mut StakeW, b: &Bal) -> Bal {
    let u = c.below(s.users.len());
    let rep = reported(c, s, u);
    c.op(format!("withdraw_rewards user{u} now={}", s.w.now()));
    let r: Res<Val> = s.w.call(&s.c, "withdraw_rewards", args!(&s.w.env, s.users[u].clone()));
    if c.on("P31") {
        let ev = events::last(&s.w, &s.c);
        if r.is_ok() {
            c.eval("P31", Some(("withdraw rewards", u, s.dists.len())));
            events::want(c, &s.w, &ev, &["withdraw_rewards", "user"], s.users[u].clone());
            let named: Vec<Address> = events::every(&s.w, &ev, &["withdraw_rewards", "reward_token"]);
            let mut exp: Vec<Address> = s.flows.iter().map(|t| s.tokens[*t].clone()).collect();
            exp.sort();
            let named = { let mut n = named; n.sort(); n };
            c.check("P31", named == exp, || format!("a reward withdrawal names the tokens {named:?}, there are flows of {exp:?}"));
        }
    }
    let post = s.bal();
    c.eval("P20", Some(("withdraw", u, s.dists.len(), s.m[u].stakes.clone())));
    c.check_any(&["P20", "P19"], r.is_ok(), || format!("withdrawing rewards fails: {r:?} (stakes {:?}, distributions {:?})", s.m[u].stakes, s.dists));
    if r.is_ok() {
        if paid(c, s, "withdrawal", u, b, &post, 0) {
            c.count("rewards paid");
        }
        check_reported(c, s, u, &rep, b, &post, 0);
        others(c, s, "a reward withdrawal", b, &post, s.row(u));
        s.settle(u);
    }
    mon(c, s, &post);
    post
}

fn unbond(c: &mut Case, s: &mut StakeW, b: &Bal) -> Bal {
    let u = c.below(s.users.len());
    let (x, ts) = match c.below(8) {
        0 => {
            // somebody else's stake
            let v = c.below(s.users.len());
            *s.m[v].stakes.first().unwrap_or(&(s.min_bond, 5))
        }
        1 => {
            let k = s.m[u].stakes.len();
            if k == 0 {
                (s.min_bond, 1)
            } else {
                let i = c.below(k);
                let (x, t) = s.m[u].stakes[i];
                match c.below(4) {
                    0 => (x - 1, t),
                    1 => (x + 1, t),
                    2 => (x, t + 1),
                    _ => (x, t.saturating_sub(1)),
                }
            }
        }
        _ => {
            let k = s.m[u].stakes.len();
            if k == 0 {
                return b.clone();
            }
            let i = c.below(k);
            s.m[u].stakes[i]
        }
    };
    let mine = s.m[u].stakes.iter().position(|v| *v == (x, ts));
    let rep = reported(c, s, u);
    c.op(format!("unbond user{u} {x} of {ts} now={} has={:?}", s.w.now(), s.m[u].stakes));
    let r: Res<Val> = s.w.call(&s.c, "unbond", args!(&s.w.env, s.users[u].clone(), x, ts));
    let au = s.w.authed();
    let ev = if c.on("P31") { events::last(&s.w, &s.c) } else { vec![] };
    let post = s.bal();
    match mine {
        Some(i) => {
            c.eval("P20", Some(("unbond", x, ts, s.dists.len())));
            c.check_any(&["P20", "P18"], r.is_ok(), || format!("unbonding an existing stake fails: {r:?}"));
            if r.is_ok() {
                let got = post[s.row(u)][0] - b[s.row(u)][0];
                let lp_reward = s.tokens.iter().any(|t| *t == s.lp);
                c.check_any(&["P18"], got == x || (lp_reward && got >= x), || format!("unbonding {x} returned {got}"));
                paid(c, s, "unbonding", u, b, &post, x);
                check_reported(c, s, u, &rep, b, &post, x);
                others(c, s, "an unbonding", b, &post, s.row(u));
                c.eval("P11", Some(("unbond", x, u)));
                c.check("P11", au.contains(&s.users[u]), || "a stake was unbonded without its owner's authorization".into());
                s.settle(u);
                s.m[u].stakes.remove(i);
                if c.on("P31") {
                    events::stake(c, &s.w, &ev, "unbond", &s.users[u], &s.lp, x);
                }
                c.count("unbond ok");
            }
        }
        None => {
            c.check("P18", r.is_err(), || format!("unbonding ({x}, {ts}), which the user does not have, succeeded: {:?}", s.m[u].stakes));
            c.check_any(&["P18", "P19"], post == *b, || "a refused unbonding moved tokens".into());
            c.check("P31", ev.is_empty(), || "a refused unbonding published events".into());
            c.count("unbond refused");
        }
    }
    mon(c, s, &post);
    post
}

fn sender(c: &mut Case, s: &StakeW) -> Address {
    match c.below(12) {
        0 => s.outsider.clone(),
        1 => s.admin.clone(),
        2 => s.users[0].clone(),
        3 | 4 | 5 => s.owner.clone(),
        _ => s.manager.clone(),
    }
}

fn flow(c: &mut Case, s: &mut StakeW, b: &Bal) -> Bal {
    let t = c.below(s.tokens.len());
    let who = sender(c, s);
    let entitled = who == s.manager || who == s.owner;
    c.op(format!("create flow of token {t}, entitled={entitled}"));
    let r: Res<Val> = s.w.call(&s.c, "create_distribution_flow", args!(&s.w.env, who.clone(), s.tokens[t].clone()));
    let au = s.w.authed();
    let ok = entitled && !s.flows.contains(&t);
    c.eval("P10", Some(("flow", t, entitled, r.is_ok())));
    c.check("P10", entitled || r.is_err(), || "an outsider created a reward flow".into());
    c.check_any(&["P19", "P10"], r.is_ok() == ok, || format!("creating a flow (entitled {entitled}, exists {}): {r:?}", s.flows.contains(&t)));
    if r.is_ok() {
        c.check("P10", au.contains(&who), || "a flow was created without authorization".into());
        if !s.flows.contains(&t) {
            s.flows.push(t);
        }
    }
    let post = s.bal();
    c.check_any(&["P18", "P20"], post == *b, || "creating a flow moved tokens".into());
    post
}

fn distribute(c: &mut Case, s: &mut StakeW, b: &Bal) -> Bal {
    let t = c.below(s.tokens.len());
    let who = sender(c, s);
    let entitled = who == s.manager || who == s.owner;
    let x = match c.below(8) {
        0 => c.range(0, 3),
        1 => c.range(1, 100),
        2 if c.p(20) => -1,
        3 => s.total().max(1),
        _ if s.wide && c.p(60) => c.amt(1 << 104),
        _ => c.amt(1_000_000_000_000_000_000),
    };
    c.op(format!("distribute {x} of token {t}, entitled={entitled} flow={} total={} now={}", s.flows.contains(&t), s.total(), s.w.now()));
    let r: Res<Val> = s.w.call(&s.c, "distribute_rewards", args!(&s.w.env, who.clone(), x, s.tokens[t].clone()));
    let au = s.w.authed();
    if c.on("P31") {
        let ev = events::last(&s.w, &s.c);
        if r.is_ok() {
            c.eval("P31", Some(("distribute", x, t)));
            events::want(c, &s.w, &ev, &["distribute_rewards", "asset"], s.tokens[t].clone());
        } else {
            events::none(c, "a distribution", &ev);
        }
    }
    let post = s.bal();
    let can = entitled && s.flows.contains(&t) && x >= 0;
    c.eval("P10", Some(("distribute", t, entitled, x)));
    c.check("P10", entitled || r.is_err(), || "an outsider distributed rewards".into());
    if x > 0 || !can {
        c.check_any(&["P19", "P20"], r.is_ok() == can, || format!("distributing {x} (entitled {entitled}, flow {}): {r:?}", s.flows.contains(&t)));
    }
    if r.is_ok() {
        c.check_any(&["P10", "P11"], au.contains(&who), || "rewards were distributed without authorization".into());
        let mut exp = b.clone();
        for i in 0..exp.len() {
            if s.row_addr(i) == &who {
                exp[i][t + 1] -= x;
                if s.tokens[t] == s.lp {
                    exp[i][0] -= x;
                }
            }
        }
        exp[0][t + 1] += x;
        if s.tokens[t] == s.lp {
            exp[0][0] += x;
        }
        c.check_any(&["P20", "P18", "P11"], exp == post, || format!("distributing {x} moved {b:?} to {post:?}"));
        let mut slot = s.w.now();
        if let Some(l) = s.last_wd {
            slot = slot.max(l + 1);
        }
        while s.slots.contains(&slot) {
            slot += 1;
        }
        s.slots.push(slot);
        let total = s.total();
        let time = s.w.now();
        s.dists.push(Dist { token: t, amount: x, total, time, slot });
        c.count("distributed");
    } else {
        c.check_any(&["P20", "P18"], post == *b, || "a refused distribution moved tokens".into());
    }
    mon(c, s, &post);
    post
}

/// Without the right signature nothing happens.
fn unsigned(c: &mut Case, s: &StakeW, b: &Bal) {
    let e = &s.w.env;
    let _ = b;
    let u = c.below(s.users.len());
    let hash = s.w.hashes.get("soroban_token_contract").cloned();
    let t = c.below(s.tokens.len());
    let k = if c.on("P11") { c.below(2) } else { 2 + c.below(3) };
    let who = match c.below(5) {
        0 => s.outsider.clone(),
        1 => s.admin.clone(),
        2 => s.owner.clone(),
        _ => s.manager.clone(),
    };
    let mut bad = vec![s.outsider.clone(), s.users[0].clone(), s.admin.clone()];
    let sent = who.clone();
    let (f, a, owner) = match k {
        0 => ("bond", args!(e, s.users[u].clone(), s.min_bond), None),
        1 => {
            let Some((x, ts)) = s.m[u].stakes.last().cloned() else { return };
            ("unbond", args!(e, s.users[u].clone(), x, ts), Some(s.users[u].clone()))
        }
        2 => {
            let ok = who == s.owner || who == s.manager;
            ("create_distribution_flow", args!(e, who.clone(), s.w.addr()), if ok { Some(who) } else { None })
        }
        3 => ("distribute_rewards", args!(e, who, 10i128, s.tokens[t].clone()), None),
        _ => {
            bad.pop();
            bad.push(s.manager.clone());
            bad.push(s.owner.clone());
            bad.retain(|x| *x != s.admin);
            ("update", args!(e, hash.unwrap()), Some(s.admin.clone()))
        }
    };
    if k < 2 {
        bad.retain(|x| *x != s.users[u]);
    } else if k < 4 {
        bad.retain(|x| *x != sent);
    }
    twin(c, &s.w, if k < 2 { "P11" } else { "P10" }, &s.c, f, &a, owner.as_ref(), &bad);
}

pub fn history(c: &mut Case) {
    let mut s = StakeW::new(c);
    if c.on("P10") || c.on("P11") {
        s.w.upload("soroban_token_contract");
    }
    let mut b = s.bal();
    // usually the flows exist from the start
    for t in 0..s.tokens.len() {
        if c.p(80) {
            c.op(format!("create flow of token {t}"));
            s.w.must::<Val>(&s.c, "create_distribution_flow", args!(&s.w.env, s.manager.clone(), s.tokens[t].clone()));
            s.flows.push(t);
        }
    }
    let auth = if c.on("P10") || c.on("P11") { 40 } else { 0 };
    for _ in 0..40 {
        if c.bad() {
            return;
        }
        let k = c.weighted(&[
            (20, "bond"), (14, "unbond"), (22, "dist"), (18, "wd"), (3, "flow"), (20, "time"), (4, "donate"), (auth, "unsigned"), (if c.on("P10") || c.on("P30") { 4 } else { 0 }, "install"),
        ]);
        match k {
            "bond" => b = bond(c, &mut s, &b),
            "unbond" => b = unbond(c, &mut s, &b),
            "dist" => b = distribute(c, &mut s, &b),
            "wd" => b = withdraw(c, &mut s, &b),
            "flow" => b = flow(c, &mut s, &b),
            "unsigned" => unsigned(c, &s, &b),
            "install" => {
                let con = s.c.clone();
                reinstall(c, &mut s.w, &con, "phoenix_stake");
            }
            "donate" => {
                let x = c.amt(1_000_000);
                c.op(format!("donation of {x} LP"));
                s.w.must::<Val>(&s.lp, "transfer", args!(&s.w.env, s.outsider.clone(), s.c.clone(), x));
                b = s.bal();
            }
            _ => {
                let days = c.range(1, 40) as u64;
                let dt = *c.pick(&[1u64, 1, 2, 3600, DAY - 1, DAY, DAY, DAY + 1, 59 * DAY, 60 * DAY - 1, 60 * DAY, 30 * DAY, days * DAY, days * DAY, 5 * days * DAY, 100 * days * DAY]);
                c.op(format!("{dt} seconds pass"));
                s.w.advance(dt);
            }
        }
    }
    // finally everybody gets everything out
    let mut order: Vec<usize> = (0..s.users.len()).collect();
    for i in (1..order.len()).rev() {
        let j = c.below(i + 1);
        order.swap(i, j);
    }
    for u in order {
        if c.bad() {
            return;
        }
        while let Some((x, ts)) = s.m[u].stakes.first().cloned() {
            c.op(format!("final unbond user{u} {x} of {ts}"));
            let r: Res<Val> = s.w.call(&s.c, "unbond", args!(&s.w.env, s.users[u].clone(), x, ts));
            c.check_any(&["P20", "P18"], r.is_ok(), || format!("finally unbonding ({x}, {ts}) fails: {r:?}"));
            if r.is_err() || c.bad() {
                return;
            }
            let post = s.bal();
            paid(c, &s, "final unbonding", u, &b, &post, x);
            s.settle(u);
            s.m[u].stakes.remove(0);
            b = post;
            mon(c, &s, &b);
        }
    }
}

const RULE: &str = "random histories of bonds, unbonds, reward flows, distributions, withdrawals, donations and time steps by several users on the real staking wasm; non-trivial when the oracle judged an operation or state distinct from all earlier ones (for rewards: with something due)";

pub fn specs() -> Vec<Spec> {
    let s = |id, quick| Spec { id, work: vec![(1, "stake", history as crate::Work)], scripted: vec![], quick, thorough: quick * 40, rule: RULE };
    vec![s("P18", 600), s("P19", 1500), s("P20", 1500)]
}
