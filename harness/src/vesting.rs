//! The vesting contract: schedules, claims and the minter against an exact reference.
use crate::core::*;
use crate::types::*;
use crate::{args, Spec};
use soroban_sdk::{Address, Val, Vec as SVec};

/// A schedule as plain numbers: the amount still locked at points in time.
#[derive(Clone, Debug, PartialEq)]
pub struct Sched {
    pub pts: Vec<(u64, u128)>,
    /// built as a two-point linear schedule rather than as a list of steps
    pub linear: bool,
}

impl Sched {
    pub fn curve(&self, w: &W) -> Curve {
        if self.linear {
            Curve::SaturatingLinear(SaturatingLinear { min_x: self.pts[0].0, min_y: self.pts[0].1, max_x: self.pts[1].0, max_y: self.pts[1].1 })
        } else {
            let mut steps = SVec::new(&w.env);
            for (t, v) in &self.pts {
                steps.push_back(Step { time: *t, value: *v });
            }
            Curve::PiecewiseLinear(PiecewiseLinear { steps })
        }
    }
    pub fn grant(&self) -> u128 {
        self.pts[0].1
    }
    /// locked at x, rounded up (never early)
    pub fn locked(&self, x: u64) -> u128 {
        let p = &self.pts;
        if x <= p[0].0 {
            return p[0].1;
        }
        for k in 1..p.len() {
            if x < p[k].0 {
                let (x0, y0) = p[k - 1];
                let (x1, y1) = p[k];
                // non-increasing between the two
                let fall = zdiv(&(z(y0 - y1) * z(x - x0)), &z(x1 - x0));
                return y0 - u128::try_from(fall).unwrap();
            }
        }
        p[p.len() - 1].1
    }
    /// a schedule the contract has to accept
    fn sound(&self, limit: u32) -> bool {
        let inc = self.pts.windows(2).all(|p| p[0].0 < p[1].0) && (self.linear || self.pts[0].0 > 0);
        let mono = self.pts.windows(2).all(|p| p[0].1 >= p[1].1);
        inc && mono && self.pts.last().unwrap().1 == 0 && (self.pts.len() as u32) < limit
    }
}

struct Grant {
    s: Sched,
    claimed: u128,
}

struct V {
    w: W,
    c: Address,
    tok: Address,
    admin: Address,
    limit: u32,
    users: Vec<Address>,
    grants: Vec<Vec<Grant>>,
    minter: Option<(Address, u128)>,
    cands: Vec<Address>,
    minted: i128,
    out: Address,
    former: Vec<Address>,
}

fn gen_sched(c: &mut Case, w: &W, limit: u32) -> Sched {
    let now = w.now();
    let big = *c.pick(&[100i128, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000_000_000]);
    let linear = c.p(40);
    let mut n = if linear { 2 } else { c.range(1, (limit as i128 - 1).max(1)) as usize };
    if !linear && c.p(6) {
        n = limit as usize + c.below(2);
    }
    let mut t = if c.p(20) { now.saturating_sub(c.range(0, 100_000) as u64) } else { now + c.range(0, 10_000) as u64 };
    t = t.max(1);
    let mut v = c.amt(big) as u128;
    let mut pts = vec![];
    for k in 0..n {
        if k + 1 == n {
            v = if c.p(4) { v } else { 0 };
        }
        pts.push((t, v));
        let step = match c.below(4) {
            0 => 1,
            1 => c.range(1, 10),
            2 => c.range(1, 100_000),
            _ => c.range(1, 40_000_000),
        };
        t += step as u64;
        v = if c.p(20) { v } else { c.range(0, v as i128) as u128 };
    }
    let mut s = Sched { pts, linear };
    // sometimes broken in one respect
    match c.below(30) {
        0 => {
            let k = c.below(s.pts.len());
            s.pts[k].1 += c.amt(big) as u128;
        }
        1 if s.pts.len() > 1 => {
            let k = c.below(s.pts.len() - 1);
            s.pts[k + 1].0 = s.pts[k].0;
        }
        2 if s.pts.len() > 1 => {
            let k = c.below(s.pts.len() - 1);
            s.pts[k + 1].0 = s.pts[k].0.saturating_sub(c.range(1, 50) as u64).max(1);
        }
        3 => {
            let k = s.pts.len() - 1;
            s.pts[k].1 += 1;
        }
        4 if s.pts.len() > 2 => {
            let k = s.pts.len() - 2;
            s.pts[k].1 = s.pts[k - 1].1 + 1;
        }
        _ => {}
    }
    s
}

fn new(c: &mut Case) -> V {
    let mut w = W::new(c.range(200_000, 1_900_000_000) as u64);
    w.track.set(c.on("P31"));
    let admin = w.addr();
    let con = w.register("phoenix_vesting");
    w.upload("soroban_token_contract");
    // the vesting contract administers the token, so that it can mint
    let tok = w.env.register(wasm("soroban_token_contract"), (admin.clone(), 7u32, w.s("Phoenix"), w.s("PHO")));
    let fund = *c.pick(&[1_000_000i128, 1_000_000_000_000_000_000, 1i128 << 100, 1i128 << 100]);
    w.must::<Val>(&tok, "mint", args!(&w.env, admin.clone(), fund));
    let mut cands: Vec<Address> = (0..3).map(|_| w.addr()).collect();
    // every role may coincide with another
    if c.p(20) {
        let k = c.below(3);
        cands[k] = admin.clone();
    }
    // those who may become the minter have tokens of their own
    for m in &cands {
        let x = c.amt(1_000_000_000_000_000_000);
        w.must::<Val>(&tok, "mint", args!(&w.env, m.clone(), x));
    }
    w.must::<Val>(&tok, "set_admin", args!(&w.env, con.clone()));
    let info = VestingTokenInfo { name: w.s("Phoenix"), symbol: w.s("PHO"), decimals: 7, address: tok.clone() };
    let limit = *c.pick(&[2u32, 3, 4, 6, 10, 20]);
    let minter = if c.p(60) {
        let cap = match c.below(3) {
            0 => 0,
            1 => c.amt(1_000_000),
            _ => c.amt(1_000_000_000_000_000_000),
        } as u128;
        let m = (cands[0].clone(), cap);
        w.must::<Val>(&con, "initialize_with_minter", args!(&w.env, admin.clone(), info.clone(), limit, MinterInfo { address: m.0.clone(), mint_capacity: m.1 }));
        Some(m)
    } else {
        w.must::<Val>(&con, "initialize", args!(&w.env, admin.clone(), info.clone(), limit));
        None
    };
    let got: VestingTokenInfo = w.must(&con, "query_token_info", args!(&w.env));
    c.check_any(&["P12", "P23"], got == info, || format!("token info is {got:?}"));
    let mut users: Vec<Address> = (0..3).map(|_| w.addr()).collect();
    match c.below(6) {
        0 => users[2] = admin.clone(),
        1 => users[2] = cands[0].clone(),
        2 if cands[1] != admin => {
            users[1] = cands[1].clone();
            users[2] = admin.clone();
        }
        _ => {}
    }
    let out = w.addr();
    c.op(format!("vesting contract limit={limit} minter={:?} admin funds={fund}", minter.as_ref().map(|m| m.1)));
    let grants = users.iter().map(|_| vec![]).collect();
    V { w, c: con, tok, admin, limit, users, grants, minter, cands, minted: 0, out, former: vec![] }
}

impl V {
    fn b(&self, a: &Address) -> i128 {
        self.w.native_balance(&self.tok, a)
    }
    /// contract, admin, users, minter candidates, outsider
    fn bals(&self) -> Vec<i128> {
        [&self.c, &self.admin].into_iter().chain(&self.users).chain(&self.cands).chain([&self.out]).map(|a| self.b(a)).collect()
    }
    /// rows of one account carry the same balance
    fn add(&self, b: &mut [i128], who: &Address, d: i128) {
        let rows = [&self.c, &self.admin].into_iter().chain(&self.users).chain(&self.cands).chain([&self.out]);
        for (x, a) in b.iter_mut().zip(rows) {
            if a == who {
                *x += d;
            }
        }
    }
    fn owed(&self) -> u128 {
        self.grants.iter().flatten().map(|g| g.s.grant() - g.claimed).sum()
    }
}

fn mon(c: &mut Case, v: &V, what: &str) {
    let have = v.b(&v.c);
    let owed = v.owed();
    c.eval("P23", Some((what.to_string(), owed, have)));
    c.check("P23", have >= 0 && have as u128 >= owed, || format!("after {what} {owed} are granted and unclaimed, the contract holds {have}"));
    let q: i128 = v.w.must(&v.c, "query_vesting_contract_balance", args!(&v.w.env));
    c.check("P23", q == have, || format!("reports a balance of {q}, holds {have}"));
    if c.on("P24") {
        let r: Res<MinterInfo> = v.w.call(&v.c, "query_minter", args!(&v.w.env));
        let got = r.ok().map(|m| (m.address, m.mint_capacity));
        c.eval("P24", Some((what.to_string(), format!("{got:?}"))));
        c.check("P24", got == v.minter, || format!("after {what} the minter is {got:?}, expected {:?}", v.minter));
    }
}

fn infos(c: &mut Case, v: &V) {
    let u = c.below(v.users.len());
    let e = &v.w.env;
    let all: SVec<VestingInfo> = v.w.must(&v.c, "query_all_vesting_info", args!(e, v.users[u].clone()));
    c.check_any(&["P22", "P23"], all.len() as usize == v.grants[u].len(), || format!("{} schedules listed, {} created", all.len(), v.grants[u].len()));
    for (k, g) in v.grants[u].iter().enumerate() {
        let Some(i) = all.get(k as u32) else { return };
        let one: VestingInfo = v.w.must(&v.c, "query_vesting_info", args!(e, v.users[u].clone(), k as u64));
        let exp = VestingInfo { balance: g.s.grant() - g.claimed, recipient: v.users[u].clone(), schedule: g.s.curve(&v.w) };
        c.eval("P22", Some(("info", u, k, g.claimed)));
        c.check_any(&["P22", "P23"], i == exp && one == exp, || format!("schedule {k} of user{u} is reported as {i:?} / {one:?}, expected {exp:?}"));
    }
    let b: i128 = v.w.must(&v.c, "query_balance", args!(e, v.users[u].clone()));
    let t = v.b(&v.users[u]);
    c.check_any(&["P22"], b == t, || format!("user balance reported as {b}, is {t}"));
}

fn create(c: &mut Case, v: &mut V) {
    let n = c.range(1, 3) as usize;
    let mut batch = vec![];
    let mut used: Vec<usize> = vec![];
    for _ in 0..n {
        let mut u = c.below(v.users.len());
        while used.contains(&u) && !c.p(8) {
            u = (u + 1) % v.users.len();
        }
        used.push(u);
        // sometimes the very schedule somebody already has
        let old: Vec<Sched> = v.grants[if c.p(80) { u } else { c.below(v.users.len()) }].iter().map(|g| g.s.clone()).collect();
        let s = if !old.is_empty() && c.p(25) { c.pick(&old).clone() } else { gen_sched(c, &v.w, v.limit) };
        batch.push((u, s));
    }
    if c.p(2) {
        batch.clear();
    }
    let constant = if c.p(4) { Some(c.amt(1000) as u128) } else { None };
    let mut list: SVec<VestingSchedule> = SVec::new(&v.w.env);
    for (u, s) in &batch {
        list.push_back(VestingSchedule { recipient: v.users[*u].clone(), curve: s.curve(&v.w) });
    }
    if let Some(k) = constant {
        list.push_back(VestingSchedule { recipient: v.cands[1].clone(), curve: Curve::Constant(k) });
    }
    let dup = uniq(&used).len() != used.len();
    let sum: u128 = batch.iter().map(|b| b.1.grant()).sum();
    let pre = v.bals();
    let ok = !batch.is_empty() && !dup && constant.is_none() && batch.iter().all(|b| b.1.sound(v.limit)) && sum <= pre[1] as u128;
    c.op(format!("create schedules {batch:?} constant={constant:?} now={} -> expected {ok}", v.w.now()));
    let d0 = v.w.digest();
    let r: Res<Val> = v.w.call(&v.c, "create_vesting_schedules", args!(&v.w.env, list));
    let au = v.w.authed();
    let post = v.bals();
    c.eval("P23", Some(("create", format!("{batch:?}"))));
    c.check("P23", r.is_ok() == ok, || format!("schedules {batch:?} (constant {constant:?}, limit {}, admin has {}): {r:?}", v.limit, pre[1]));
    c.count(if r.is_ok() { "created" } else { "creation refused" });
    if r.is_ok() {
        c.eval("P10", Some(("create", sum)));
        c.check_any(&["P10", "P11"], au.contains(&v.admin), || "schedules were created without the administrator".into());
        let mut exp = pre.clone();
        v.add(&mut exp, &v.c, sum as i128);
        v.add(&mut exp, &v.admin, -(sum as i128));
        c.check_any(&["P23", "P11"], exp == post, || format!("creating schedules over {sum} moved {pre:?} to {post:?}"));
        for (u, s) in batch {
            v.grants[u].push(Grant { s, claimed: 0 });
        }
    } else {
        let diff = digest_diff(&d0, &v.w.digest());
        c.check("P23", diff.is_none(), || format!("refused schedules changed {diff:?}"));
    }
}

fn claim(c: &mut Case, v: &mut V) {
    let u = c.below(v.users.len());
    let k = if c.p(5) { v.grants[u].len() + c.below(2) } else { c.below(v.grants[u].len().max(1)) };
    let now = v.w.now();
    let pre = v.bals();
    let due = v.grants[u].get(k).map(|g| (g.s.grant() - g.claimed).checked_sub(g.s.locked(now)).unwrap_or(0));
    let avail: Res<i128> = v.w.call(&v.c, "query_available_to_claim", args!(&v.w.env, v.users[u].clone(), k as u64));
    c.op(format!("claim user{u} #{k} now={now} due={due:?}"));
    let r: Res<Val> = v.w.call(&v.c, "claim", args!(&v.w.env, v.users[u].clone(), k as u64));
    let ev = if c.on("P31") { crate::events::last(&v.w, &v.c) } else { vec![] };
    let au = v.w.authed();
    let post = v.bals();
    let got = post[2 + u] - pre[2 + u];
    match due {
        None => {
            c.eval("P22", None::<u8>);
            c.check("P22", r.is_err() && pre == post, || format!("claiming a schedule that does not exist: {r:?}"));
        }
        Some(d) => {
            let g = &v.grants[u][k];
            c.eval("P22", Some((g.s.pts.clone(), g.claimed, now)));
            c.check("P22", avail == Ok(d as i128), || format!("{avail:?} reported as claimable at {now}, schedule {:?} and claims of {} leave {d}", g.s, g.claimed));
            if d == 0 {
                c.check("P22", r.is_err() && pre == post, || format!("claimed {got} at {now} with nothing unlocked ({:?}, claimed {})", g.s, g.claimed));
            } else {
                c.check("P22", r.is_ok() && got == d as i128, || format!("claim at {now} paid {got} ({r:?}), schedule {:?} and claims of {} leave {d}", g.s, g.claimed));
            }
            if c.on("P31") {
                if r.is_ok() {
                    c.eval("P31", Some(("claim", got)));
                    crate::events::want(c, &v.w, &ev, &["Claim", "Claimed tokens: "], got);
                } else {
                    crate::events::none(c, "a claim", &ev);
                }
            }
            if r.is_ok() {
                c.count("claimed");
                let mut exp = pre.clone();
                v.add(&mut exp, &v.c, -got);
                v.add(&mut exp, &v.users[u], got);
                c.check_any(&["P22", "P23", "P11"], exp == post, || format!("a claim moved {pre:?} to {post:?}"));
                c.eval("P11", Some(("claim", got)));
                c.check("P11", au.contains(&v.users[u]), || "a claim was made without the recipient's authorization".into());
                v.grants[u][k].claimed += got.max(0) as u128;
            }
        }
    }
}

fn minting(c: &mut Case, v: &mut V) {
    let e = v.w.env.clone();
    let pre = v.bals();
    let who = match c.below(6) {
        0 => v.admin.clone(),
        1 => v.out.clone(),
        2 => v.cands[2].clone(),
        _ => v.minter.as_ref().map(|m| m.0.clone()).unwrap_or(v.cands[0].clone()),
    };
    let is_minter = v.minter.as_ref().map_or(false, |m| m.0 == who);
    match c.below(10) {
        0 | 1 => {
            let to = v.cands[c.below(3)].clone();
            let entitled = match &v.minter {
                Some(m) => m.0 == who,
                None => who == v.admin,
            };
            c.op(format!("update_minter entitled={entitled}"));
            let r: Res<Val> = v.w.call(&v.c, "update_minter", args!(&e, who.clone(), to.clone()));
            let au = v.w.authed();
            c.eval("P24", Some(("minter", entitled, r.is_ok())));
            c.eval("P10", Some(("minter", entitled, r.is_ok())));
            c.check_any(&["P24", "P10"], r.is_ok() == entitled, || format!("replacing the minter (entitled {entitled}): {r:?}"));
            if r.is_ok() {
                c.check_any(&["P24", "P10"], au.contains(&who), || "the minter was replaced without authorization".into());
                let cap = v.minter.as_ref().map_or(0, |m| m.1);
                if let Some(m) = &v.minter {
                    v.former.push(m.0.clone());
                }
                v.former.retain(|x| *x != to);
                v.minter = Some((to, cap));
            }
        }
        2 | 3 => {
            let who = if c.p(60) { v.admin.clone() } else { who };
            let cap = match c.below(4) {
                0 => 0u128,
                1 => c.range(0, 1000) as u128,
                _ => c.amt(1_000_000_000_000_000_000) as u128,
            };
            let ok = who == v.admin && v.minter.is_some();
            c.op(format!("update_minter_capacity {cap} by admin={}", who == v.admin));
            let r: Res<Val> = v.w.call(&v.c, "update_minter_capacity", args!(&e, who.clone(), cap));
            let au = v.w.authed();
            c.eval("P24", Some(("capacity", cap, ok)));
            c.eval("P10", Some(("capacity", cap, ok)));
            c.check_any(&["P24", "P10"], r.is_ok() == ok, || format!("setting the capacity to {cap} (by admin {}, minter {:?}): {r:?}", who == v.admin, v.minter));
            if r.is_ok() {
                c.check_any(&["P24", "P10"], au.contains(&v.admin), || "the capacity was changed without authorization".into());
                if let Some(m) = &mut v.minter {
                    m.1 = cap;
                }
            }
        }
        4 => {
            // burn one's own tokens
            let all: Vec<Address> = [v.admin.clone()].into_iter().chain(v.users.clone()).chain(v.cands.clone()).collect();
            // the minter as often as everybody else together
            let u = match all.iter().position(|a| *a == who) {
                Some(k) if is_minter => k,
                _ => c.below(all.len()),
            };
            let owner = all[u].clone();
            let have = pre[1 + u];
            let x = match c.below(5) {
                0 => 0u128,
                1 => have as u128,
                2 => have as u128 + 1,
                3 => u128::MAX - c.range(0, 5) as u128,
                _ => c.amt(have.max(2)) as u128,
            };
            let ok = x > 0 && x <= have as u128;
            c.op(format!("burn holder{u} {x} of {have} (minter {})", v.minter.as_ref().map_or(false, |m| m.0 == owner)));
            let r: Res<Val> = v.w.call(&v.c, "burn", args!(&e, owner.clone(), x));
            if c.on("P31") {
                let ev = crate::events::last(&v.w, &v.c);
                if r.is_ok() {
                    c.eval("P31", Some(("burn", x)));
                    crate::events::want(c, &v.w, &ev, &["Burn", "Burned from: "], owner.clone());
                    crate::events::want(c, &v.w, &ev, &["Burn", "Burned tokens: "], x);
                } else {
                    crate::events::none(c, "a burn", &ev);
                }
            }
            let au = v.w.authed();
            let post = v.bals();
            c.eval("P23", Some(("burn", x, have)));
            c.check_any(&["P23", "P24"], r.is_ok() == ok, || format!("burning {x} of {have}: {r:?}"));
            let mut exp = pre.clone();
            if r.is_ok() {
                v.add(&mut exp, &owner, -(x as i128));
                c.eval("P11", Some(("burn", x)));
                c.check("P11", au.contains(&owner), || "tokens were burnt without their owner's authorization".into());
            }
            c.check_any(&["P23", "P24", "P11"], exp == post, || format!("burning {x} moved {pre:?} to {post:?}"));
        }
        _ => {
            let cap = v.minter.as_ref().map_or(0, |m| m.1) as i128;
            let x = match c.below(7) {
                0 => cap,
                1 => cap + 1,
                2 => 0,
                3 => -c.range(1, 100),
                4 => c.range(1, cap.max(2)),
                _ => c.amt((cap / 3).max(2)),
            };
            let ok = is_minter && x > 0 && x <= cap;
            c.op(format!("mint {x}, capacity {cap}, by minter={is_minter}"));
            let r: Res<Val> = v.w.call(&v.c, "mint", args!(&e, who.clone(), x));
            if c.on("P31") {
                let ev = crate::events::last(&v.w, &v.c);
                if r.is_ok() {
                    c.eval("P31", Some(("mint", x)));
                    crate::events::want(c, &v.w, &ev, &["Mint", "sender: "], who.clone());
                    crate::events::want(c, &v.w, &ev, &["Mint", "Minted tokens: "], x);
                } else {
                    crate::events::none(c, "a mint", &ev);
                }
            }
            let au = v.w.authed();
            let post = v.bals();
            c.eval("P24", Some(("mint", x, cap, is_minter)));
            c.eval("P10", Some(("mint", x, cap, is_minter)));
            c.check("P24", r.is_ok() == ok, || format!("minting {x} with a capacity of {cap} (by minter {is_minter}): {r:?}"));
            c.check("P10", is_minter || r.is_err(), || "an outsider minted".into());
            let mut exp = pre.clone();
            if r.is_ok() {
                c.count("minted");
                exp[0] += x;
                c.check_any(&["P24", "P10"], au.contains(&who), || "tokens were minted without the minter's authorization".into());
                if let Some(m) = &mut v.minter {
                    m.1 = m.1.saturating_sub(x.max(0) as u128);
                }
                v.minted += x;
            }
            c.check_any(&["P24", "P23"], exp == post, || format!("minting {x} moved {pre:?} to {post:?}"));
        }
    }
}

fn unsigned(c: &mut Case, v: &V) {
    let e = &v.w.env;
    let u = c.below(v.users.len());
    let hash = v.w.hashes["soroban_token_contract"].clone();
    let k = if c.on("P11") { 1 + c.below(2) } else { *c.pick(&[0usize, 3, 4, 5, 6]) };
    let mut list: SVec<VestingSchedule> = SVec::new(e);
    list.push_back(VestingSchedule { recipient: v.out.clone(), curve: Sched { pts: vec![(v.w.now() + 1, 1), (v.w.now() + 2, 0)], linear: true }.curve(&v.w) });
    let m = v.minter.as_ref().map(|m| m.0.clone()).unwrap_or(v.admin.clone());
    let (p, f, a) = match k {
        0 => ("P10", "create_vesting_schedules", args!(e, list)),
        1 => ("P11", "claim", args!(e, v.users[u].clone(), 0u64)),
        2 => ("P11", "burn", args!(e, v.users[u].clone(), 1u128)),
        3 => ("P10", "mint", args!(e, m, 1i128)),
        4 => ("P10", "update_minter", args!(e, m, v.out.clone())),
        5 => ("P10", "update_minter_capacity", args!(e, v.admin.clone(), 1_000_000u128)),
        _ => ("P10", "update", args!(e, hash)),
    };
    let owner = match k {
        1 | 2 => Some(v.users[u].clone()),
        3 | 4 => Some(v.minter.as_ref().map(|m| m.0.clone()).unwrap_or(v.admin.clone())),
        // takes the granted tokens: needs more than the root's signature
        0 => None,
        _ => Some(v.admin.clone()),
    };
    let mut bad = v.former.clone();
    bad.push(v.out.clone());
    bad.push(v.users[(u + 1) % v.users.len()].clone());
    let m = v.minter.as_ref().map(|m| m.0.clone());
    for x in [Some(v.admin.clone()), m].into_iter().flatten() {
        if p == "P10" && owner.as_ref().map_or(x != v.admin, |o| *o != x) && !bad.contains(&x) {
            bad.push(x);
        }
    }
    let needed = match k {
        1 | 2 => v.users[u].clone(),
        3 | 4 => v.minter.as_ref().map(|m| m.0.clone()).unwrap_or(v.admin.clone()),
        _ => v.admin.clone(),
    };
    // (what takes the granted tokens takes more than the administrator's signature for the call)
    bad.retain(|x| *x != needed);
    // a burn needs the signature for the token as well
    let owner = if k == 2 { None } else { owner };
    twin(c, &v.w, p, &v.c, f, &a, owner.as_ref(), &bad);
}

pub fn history(c: &mut Case) {
    let mut v = new(c);
    let (mi, un) = match c.prop.as_str() {
        "P24" => (70, 0),
        "P10" | "P11" => (25, 40),
        "P31" => (30, 0),
        _ => (10, 0),
    };
    for _ in 0..45 {
        if c.bad() {
            return;
        }
        match c.weighted(&[(18, "create"), (45, "claim"), (30, "time"), (6, "info"), (mi, "mint"), (un, "unsigned"), (if c.on("P10") || c.on("P30") { 4 } else { 0 }, "install")]) {
            "create" => create(c, &mut v),
            "claim" => claim(c, &mut v),
            "mint" => minting(c, &mut v),
            "info" => infos(c, &v),
            "unsigned" => unsigned(c, &v),
            "install" => {
                let con = v.c.clone();
                reinstall(c, &mut v.w, &con, "phoenix_vesting");
            }
            _ => {
                // to a point of some schedule or its neighbourhood
                let now = v.w.now();
                let mut pts: Vec<u64> = v.grants.iter().flatten().flat_map(|g| g.s.pts.iter().map(|p| p.0)).filter(|t| *t > now).collect();
                pts.sort();
                let dt = match c.below(5) {
                    0 => 1,
                    1 => c.range(1, 1000) as u64,
                    2 => c.amt(40_000_000) as u64,
                    _ if !pts.is_empty() => {
                        let k = c.below(pts.len().min(2));
                        (pts[k] - now + c.below(3) as u64).saturating_sub(1).max(1)
                    }
                    _ => c.amt(100_000) as u64,
                };
                c.op(format!("{dt} seconds pass"));
                v.w.advance(dt);
                continue;
            }
        }
        mon(c, &v, "an operation");
    }
    // in the end everything granted is paid
    if c.on("P22") || c.on("P23") {
        let end = v.grants.iter().flatten().filter_map(|g| g.s.pts.last().map(|p| p.0)).max().unwrap_or(0);
        let now = v.w.now();
        if end > now {
            v.w.advance(end - now);
        }
        c.op("all schedules have ended".into());
        for u in 0..v.users.len() {
            for k in 0..v.grants[u].len() {
                if c.bad() {
                    return;
                }
                let left = v.grants[u][k].s.grant() - v.grants[u][k].claimed;
                if left == 0 {
                    continue;
                }
                let pre = v.b(&v.users[u]);
                let r: Res<Val> = v.w.call(&v.c, "claim", args!(&v.w.env, v.users[u].clone(), k as u64));
                let got = v.b(&v.users[u]) - pre;
                c.eval("P22", Some(("end", u, k, left)));
                c.check_any(&["P22", "P23"], r.is_ok() && got as u128 == left, || format!("after the end of schedule {k} of user{u} {left} are left, a claim pays {got}: {r:?}"));
                v.grants[u][k].claimed += got.max(0) as u128;
            }
        }
        mon(c, &v, "the end");
    }
}

const RULE: &str = "random histories of schedule batches (sound and broken in one respect), claims around the schedules' points, minter operations and time steps on the real vesting wasm; non-trivial when the oracle judged a distinct operation and state";

pub fn specs() -> Vec<Spec> {
    let s = |id, quick| Spec { id, work: vec![(1, "vesting", history as crate::Work)], scripted: vec![], quick, thorough: quick * 40, rule: RULE };
    vec![s("P22", 420), s("P23", 400), s("P24", 400)]
}
