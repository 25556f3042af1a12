//! Both pools: random histories of deposits, swaps, withdrawals, transfers, donations and
//! configuration changes, with step-wise monitors.
use crate::core::*;
use crate::model::*;
use crate::token::TestToken;
use crate::types::*;
use crate::{args, Spec};
use soroban_sdk::{Address, Val};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Xyk,
    Stable,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub fee: i64,
    pub feer: Address,
    pub max_slip: i64,
    pub def_slip: i64,
    pub max_spread: i64,
    pub max_ref: i64,
}

pub struct PoolW {
    pub w: W,
    pub kind: Kind,
    pub pool: Address,
    pub ta: Address,
    pub tb: Address,
    pub lp: Address,
    pub stake: Address,
    pub da: u32,
    pub db: u32,
    pub amp: u64,
    pub cfg: Cfg,
    pub admin: Address,
    pub users: Vec<Address>,
    pub holders: Vec<Address>,
    pub max_amt: i128,
    pub fot: (i128, i128),
    pub former: Vec<Address>,
    /// exact amounts for the next deposit
    pub force: std::cell::Cell<Option<(i128, i128)>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub ra: i128,
    pub rb: i128,
    pub ts: i128,
    /// holder -> (a, b, lp)
    pub bal: Vec<(i128, i128, i128)>,
}

pub const POOL: usize = 0;

pub struct Setup {
    pub kind: Kind,
    pub da: u32,
    pub db: u32,
    pub amp: u64,
    pub cfg_fee: i64,
    pub max_slip: i64,
    pub def_slip: i64,
    pub max_spread: i64,
    pub max_fee: i64,
    pub fot: (i128, i128),
    pub max_amt: i128,
}

pub fn gen_setup(c: &mut Case, kind: Kind) -> Setup {
    let decs = [0u32, 6, 7, 7, 7, 8, 12, 18];
    let (da, db) = match kind {
        Kind::Xyk => (7, 7),
        Kind::Stable => (*c.pick(&decs), *c.pick(&decs)),
    };
    let fee = *c.pick(&[0i64, 1, 10, 30, 30, 30, 100, 100, 250, 250, 333, 1000, 1000, 5000, 9999, 10000]);
    let max_fee = fee + *c.pick(&[0i64, 0, 1, 100]);
    let amp = *c.pick(&[1u64, 2, 5, 6, 10, 50, 100, 100, 300, 1000, 10_000, 1_000_000]);
    Setup {
        kind,
        da,
        db,
        amp,
        cfg_fee: fee,
        max_slip: *c.pick(&[10i64, 100, 250, 500, 1000, 5000, 5000, 10000]),
        def_slip: *c.pick(&[0i64, 1, 100, 250, 1000]),
        max_spread: *c.pick(&[50i64, 500, 1000, 3000, 5000, 5000, 10000, 10000, 10000]),
        max_fee: max_fee.min(10_000),
        fot: (0, 0),
        max_amt: *c.pick(&[100_000i128, 1_000_000_000, 1_000_000_000_000, 100_000_000_000_000_000]),
    }
}

pub fn new_token(w: &W, dec: u32, fee: i128) -> Address {
    let t = w.env.register(TestToken, ());
    LIFE.with(|x| x.borrow_mut().foreign.insert(soroban_sdk::xdr::ScAddress::try_from(t.clone()).unwrap()));
    w.must::<Val>(&t, "init", args!(&w.env, dec, fee));
    t
}

pub fn mint(w: &W, t: &Address, to: &Address, amt: i128) {
    w.must::<Val>(t, "mint", args!(&w.env, to.clone(), amt));
}

impl PoolW {
    pub fn new(c: &mut Case, s: Setup) -> Self {
        let t0 = c.range(1_000, 1_900_000_000) as u64;
        let mut w = W::new(t0);
        w.track.set(c.on("P31"));
        let (t1, t2) = (new_token(&w, s.da, s.fot.0), new_token(&w, s.db, s.fot.1));
        // token_a must be the smaller address
        let (ta, tb, da, db) =
            if t1 < t2 { (t1, t2, s.da, s.db) } else { (t2, t1, s.db, s.da) };
        let fot = if da == s.da && ta < tb { s.fot } else { (s.fot.1, s.fot.0) };
        let token_hash = w.upload("soroban_token_contract");
        let stake_hash = w.upload("phoenix_stake");
        let users: Vec<Address> = (0..4).map(|_| w.addr()).collect();
        // every role may coincide with another
        let admin = if c.p(15) { users[2].clone() } else { w.addr() };
        let feer = match c.below(20) {
            0..=2 => users[3].clone(),
            3..=6 => admin.clone(),
            _ => w.addr(),
        };
        let manager = match c.below(5) {
            0 => w.addr(),
            1 => feer.clone(),
            _ => admin.clone(),
        };
        let factory = w.addr();
        let cfg = Cfg {
            fee: s.cfg_fee,
            feer: feer.clone(),
            max_slip: s.max_slip,
            def_slip: s.def_slip,
            max_spread: s.max_spread,
            max_ref: *c.pick(&[0i64, 1, 100, 100, 5000, 10_000]),
        };
        let info = LiquidityPoolInitInfo {
            admin: admin.clone(),
            swap_fee_bps: cfg.fee,
            fee_recipient: feer.clone(),
            max_allowed_slippage_bps: cfg.max_slip,
            default_slippage_bps: cfg.def_slip,
            max_allowed_spread_bps: cfg.max_spread,
            max_referral_bps: cfg.max_ref,
            token_init_info: TokenInitInfo { token_a: ta.clone(), token_b: tb.clone() },
            stake_init_info: StakeInitInfo {
                min_bond: *c.pick(&[1i128, 10, 5000, 1_000_000_000_000]),
                min_reward: *c.pick(&[1i128, 5, 1_000_000]),
                manager,
                max_complexity: *c.pick(&[1u32, 7, 10]),
            },
        };
        let pool = w.register(if s.kind == Kind::Xyk { "phoenix_pool" } else { "phoenix_pool_stable" });
        let e = &w.env;
        let a = if s.kind == Kind::Xyk {
            args!(e, stake_hash, token_hash, info, factory.clone(), 7u32, w.s("LP"), w.s("LPT"), cfg.def_slip, s.max_fee)
        } else {
            args!(e, stake_hash, token_hash, info, factory.clone(), 7u32, w.s("LP"), w.s("LPT"), s.amp, s.max_fee)
        };
        w.must::<Val>(&pool, "initialize", a);
        let lp: Address = w.must(&pool, "query_share_token_address", args!(&w.env));
        let stake: Address = w.must(&pool, "query_stake_contract_address", args!(&w.env));
        let mut holders = vec![pool.clone(), stake.clone()];
        for h in [&admin].into_iter().chain(&users).chain([&feer]) {
            if !holders.contains(h) {
                holders.push(h.clone());
            }
        }
        for u in &users {
            mint(&w, &ta, u, 1i128 << 100);
            mint(&w, &tb, u, 1i128 << 100);
        }
        c.op(format!(
            "new {:?} pool dec=({da},{db}) amp={} fee={} slip={}/{} spread={} fot={:?}",
            s.kind, s.amp, cfg.fee, cfg.def_slip, cfg.max_slip, cfg.max_spread, fot
        ));
        PoolW { w, kind: s.kind, pool, ta, tb, lp, stake, da, db, amp: s.amp, cfg, admin, users, holders, max_amt: s.max_amt, fot, former: vec![], force: Default::default() }
    }
    pub fn info(&self) -> PoolResponse {
        self.w.must(&self.pool, "query_pool_info", args!(&self.w.env))
    }
    pub fn lp_of(&self, a: &Address) -> i128 {
        self.w.must(&self.lp, "balance", args!(&self.w.env, a.clone()))
    }
    pub fn obs(&self) -> Obs {
        let i = self.info();
        Obs {
            ra: i.asset_a.amount,
            rb: i.asset_b.amount,
            ts: i.asset_lp_share.amount,
            bal: self
                .holders
                .iter()
                .map(|h| (self.w.native_balance(&self.ta, h), self.w.native_balance(&self.tb, h), self.lp_of(h)))
                .collect(),
        }
    }
    pub fn hi(&self, a: &Address) -> usize {
        match self.holders.iter().position(|h| h == a) {
            Some(i) => i,
            None => panic!("unknown holder"),
        }
    }
    pub fn stable(&self) -> Stable {
        Stable { amp: self.amp, da: self.da, db: self.db }
    }
    fn price_prop(&self) -> &'static str {
        if self.kind == Kind::Xyk {
            "P02"
        } else {
            "P08"
        }
    }
    fn dep_prop(&self) -> &'static str {
        if self.kind == Kind::Xyk {
            "P04"
        } else {
            "P09"
        }
    }
}

/// Custody and supply monitors that hold over every step whatever the step was.
fn mon_state(c: &mut Case, p: &PoolW, o: &Obs) {
    c.check("P01", o.bal[POOL].0 >= o.ra && o.bal[POOL].1 >= o.rb, || {
        format!("the pool reports reserves ({}, {}) but holds only ({}, {})", o.ra, o.rb, o.bal[POOL].0, o.bal[POOL].1)
    });
    c.check("P01", o.ra >= 0 && o.rb >= 0, || format!("negative reserve {o:?}"));
    let lp: i128 = o.bal.iter().map(|b| b.2).sum();
    c.check("P06", lp == o.ts, || format!("pool reports {} shares, holders have {}", o.ts, lp));
    let _ = p;
}

/// Changes of a step: third parties untouched, tokens conserved, reserves move with balances.
fn mon_moves(c: &mut Case, p: &PoolW, what: &str, pre: &Obs, post: &Obs, parties: &[usize]) {
    if p.fot == (0, 0) {
        let sa: i128 = pre.bal.iter().zip(&post.bal).map(|(x, y)| y.0 - x.0).sum();
        let sb: i128 = pre.bal.iter().zip(&post.bal).map(|(x, y)| y.1 - x.1).sum();
        c.check("P01", sa == 0 && sb == 0, || {
            format!("{what}: tokens went to or came from nobody: {sa} of A, {sb} of B")
        });
    }
    for i in 0..pre.bal.len() {
        if i != POOL && !parties.contains(&i) {
            c.check_any(&["P01", "P11"], pre.bal[i] == post.bal[i], || {
                format!("{what}: balances of an uninvolved account changed {:?} -> {:?}", pre.bal[i], post.bal[i])
            });
        }
    }
}

fn mon_auth(c: &mut Case, p: &PoolW, what: &str, pre: &Obs, post: &Obs) {
    let a = p.w.authed();
    for i in 0..pre.bal.len() {
        let h = &p.holders[i];
        if i == POOL || *h == p.stake {
            continue;
        }
        let lost = post.bal[i].0 < pre.bal[i].0 || post.bal[i].1 < pre.bal[i].1 || post.bal[i].2 < pre.bal[i].2;
        if lost {
            c.eval("P11", Some((what.to_string(), i, pre.bal[i], post.bal[i])));
            c.check("P11", a.contains(h), || format!("{what} took assets of an account that did not authorize it"));
        }
    }
    for x in a {
        c.check_any(&["P11"], x != p.pool && x != p.stake, || {
            format!("{what} needs a signature of a contract")
        });
    }
}

fn unchanged(c: &mut Case, what: &str, pre: &Obs, post: &Obs) {
    c.check_any(&["P01", "P03", "P04", "P05", "P09"], pre == post, || format!("{what} failed but changed {pre:?} to {post:?}"));
}

// --------------------------------------------------------------------------------------- swaps

pub struct SwapArgs {
    pub user: usize,
    pub a_in: bool,
    pub amt: i128,
    pub min: Option<i128>,
    pub spread: Option<i64>,
    pub deadline: Option<u64>,
    pub maxfee: Option<i64>,
}

/// The outcomes the specification allows for the bare amounts, without the caller's limits.
/// `bool`: only reproduced by the recorded stable-curve defect.
pub fn swap_candidates(p: &PoolW, o: &Obs, a_in: bool, amt: i128) -> Vec<(Option<SwapOut>, bool)> {
    let (ro, rk, od, kd) = if a_in { (o.ra, o.rb, p.da, p.db) } else { (o.rb, o.ra, p.db, p.da) };
    match p.kind {
        Kind::Xyk => vec![
            (xyk_swap(ro, rk, amt, p.cfg.fee, true), false),
            (xyk_swap(ro, rk, amt, p.cfg.fee, false), false),
        ],
        Kind::Stable => {
            let s = p.stable();
            let mut v = vec![];
            // the true curve value, to within rounding of a unit of either precision
            if let Some(t) = s.swap(false, ro, od, rk, kd, amt, p.cfg.fee) {
                let g = t.ret + t.comm;
                for dg in [0i128, -1, 1, -2, 2] {
                    if g + dg >= 0 {
                        v.push((s.with_gross(rk, g + dg, amt, od, kd, p.cfg.fee), false));
                    }
                }
            }
            v.push((s.swap(true, ro, od, rk, kd, amt, p.cfg.fee), true));
            if let Some(t) = s.swap(true, ro, od, rk, kd, amt, p.cfg.fee) {
                let g = t.ret + t.comm;
                for dg in [-1i128, 1] {
                    if g + dg >= 0 {
                        v.push((s.with_gross(rk, g + dg, amt, od, kd, p.cfg.fee), true));
                    }
                }
            }
            v
        }
    }
}

fn swap_reason(p: &PoolW, a: &SwapArgs, o: &SwapOut, funds: i128) -> Option<&'static str> {
    let now = p.w.now();
    if a.deadline.map_or(false, |d| now > d) {
        return Some("deadline");
    }
    if a.amt <= 0 {
        return Some("amount");
    }
    if a.maxfee.map_or(false, |f| f < p.cfg.fee) {
        return Some("fee");
    }
    if a.spread.map_or(false, |s| !(0..=p.cfg.max_spread).contains(&s)) {
        return Some("spread parameter");
    }
    if a.min.map_or(false, |m| m > o.ret) {
        return Some("min received");
    }
    match spread_ratio(o) {
        None => return Some("nothing bought"),
        Some(r) => {
            if r > z(a.spread.unwrap_or(p.cfg.max_spread)) * z(100_000_000_000_000i64) {
                return Some("spread");
            }
        }
    }
    if funds < a.amt {
        return Some("funds");
    }
    None
}

/// Choose a swap and limits near their boundaries.
pub fn gen_swap(c: &mut Case, p: &PoolW, o: &Obs) -> SwapArgs {
    let user = c.below(p.users.len());
    let a_in = c.p(50);
    let (ro, rk) = if a_in { (o.ra, o.rb) } else { (o.rb, o.ra) };
    let amt = match c.below(12) {
        0 => 1,
        1 => c.range(1, 20),
        2 => c.amt(p.max_amt),
        3 => ro.max(1),
        4 => c.amt(ro.max(2)),
        5 => c.range(1, ro.max(2)),
        6 if c.p(30) => -c.range(0, 5),
        7 | 8 => (ro / 1000).max(1) + c.range(0, 7),
        _ => {
            let f = c.range(2, 3000);
            (ro / f).max(1)
        }
    };
    let fake = swap_candidates(p, o, a_in, amt.max(1));
    // aim the limits at the defective value where the stable curve is defective
    let s = fake.iter().rev().find_map(|x| x.0.clone());
    let code = if p.kind == Kind::Stable {
        p.stable().swap(true, ro, if a_in { p.da } else { p.db }, rk, if a_in { p.db } else { p.da }, amt.max(1), p.cfg.fee)
    } else {
        xyk_swap(ro, rk, amt.max(1), p.cfg.fee, true)
    };
    let s = code.or(s);
    let ret = s.as_ref().map_or(1, |s| s.ret);
    let ratio: i64 = s
        .as_ref()
        .and_then(spread_ratio)
        .and_then(|r| zi(&zdiv(&r, &z(100_000_000_000_000i64))))
        .map_or(0, |x| x.min(20_000) as i64);
    // mostly one limit or none, sometimes many
    let wild = c.p(12);
    let only = if wild { 9 } else { c.below(9) };
    let on = |k: usize| wild || only == k;
    let (l_min, l_spread, l_dead, l_fee) = (on(0), on(1), on(2), on(3));
    SwapArgs {
        user,
        a_in,
        amt,
        min: match if l_min { c.below(6) } else { 9 } {
            0 => Some(ret),
            1 => Some(ret + 1),
            2 => Some(ret - 1),
            3 => Some(c.amt(ret.max(2) * 2)),
            _ => None,
        },
        spread: match if l_spread { c.below(8) } else { 9 } {
            0 => Some(ratio),
            1 => Some(ratio + 1),
            2 => Some((ratio - 1).max(0)),
            3 => Some(p.cfg.max_spread),
            4 => Some(p.cfg.max_spread + 1),
            5 => Some(-1),
            _ => None,
        },
        deadline: match if l_dead { c.below(5) } else { 9 } {
            0 => Some(p.w.now()),
            1 => Some(p.w.now() - 1),
            2 => Some(p.w.now() + 1),
            3 => Some(*c.pick(&[0, 1, u64::MAX])),
            _ => None,
        },
        maxfee: match if l_fee { c.below(4) } else { 9 } {
            0 => Some(p.cfg.fee),
            1 => Some(p.cfg.fee - 1),
            2 => Some(p.cfg.fee + 1),
            _ => None,
        },
    }
}

pub fn simulate(p: &PoolW, a_in: bool, amt: i128) -> Res<SimulateSwapResponse> {
    let offer = if a_in { &p.ta } else { &p.tb };
    p.w.call(&p.pool, "simulate_swap", args!(&p.w.env, offer.clone(), amt))
}

pub fn do_swap(c: &mut Case, p: &PoolW, pre: &Obs, a: &SwapArgs) -> Obs {
    let u = &p.users[a.user];
    let ui = p.hi(u);
    let offer = if a.a_in { p.ta.clone() } else { p.tb.clone() };
    c.op(format!(
        "swap user{} {} {} min={:?} spread={:?} deadline={:?} maxfee={:?} now={} reserves=({}, {})",
        a.user, if a.a_in { "A" } else { "B" }, a.amt, a.min, a.spread, a.deadline, a.maxfee, p.w.now(), pre.ra, pre.rb
    ));
    let sim = simulate(p, a.a_in, a.amt);
    let r: Res<i128> = p.w.call(
        &p.pool,
        "swap",
        args!(&p.w.env, u.clone(), offer, a.amt, a.min, a.spread, a.deadline, a.maxfee),
    );
    let auths = p.w.authed();
    let ev = if c.on("P31") { crate::events::last(&p.w, &p.pool) } else { vec![] };
    let post = p.obs();
    // restore the recorded authorizations' meaning for mon_auth
    let what = format!("swap of {}", a.amt);
    mon_state(c, p, &post);
    let funds = if a.a_in { pre.bal[ui].0 } else { pre.bal[ui].1 };
    let pp = p.price_prop();
    match &r {
        Ok(ret) => {
            c.count("swap ok");
            let fi = p.hi(&p.cfg.feer);
            mon_moves(c, p, &what, pre, &post, &[ui, fi]);
            let lost = |i: usize| post.bal[i].0 < pre.bal[i].0 || post.bal[i].1 < pre.bal[i].1;
            for i in 1..pre.bal.len() {
                if lost(i) {
                    c.eval("P11", Some(("swap", i, pre.bal[i], post.bal[i])));
                    c.check("P11", auths.contains(&p.holders[i]), || {
                        format!("{what} took tokens of an account that did not authorize it")
                    });
                }
            }
            // what moved, as the balances show it
            let (po, pk) = if a.a_in {
                (post.bal[POOL].0 - pre.bal[POOL].0, pre.bal[POOL].1 - post.bal[POOL].1)
            } else {
                (post.bal[POOL].1 - pre.bal[POOL].1, pre.bal[POOL].0 - post.bal[POOL].0)
            };
            let (dro, drk) = if a.a_in {
                (post.ra - pre.ra, pre.rb - post.rb)
            } else {
                (post.rb - pre.rb, pre.ra - post.ra)
            };
            c.eval("P01", Some(("swap", pre.ra, pre.rb, a.amt, a.a_in)));
            c.check("P01", po == dro && pk == drk, || {
                format!("{what}: pool balances moved by +{po}/-{pk}, reported reserves by +{dro}/-{drk}")
            });
            c.check("P06", post.ts == pre.ts, || format!("{what} changed the LP supply"));
            c.eval("P06", Some(("swap", pre.ts, a.amt)));
            let comm = pk - ret;
            // exact destinations
            if p.fot == (0, 0) {
                let mut exp = pre.bal.clone();
                let put = |b: &mut (i128, i128, i128), is_a: bool, d: i128| {
                    if is_a {
                        b.0 += d
                    } else {
                        b.1 += d
                    }
                };
                put(&mut exp[ui], a.a_in, -a.amt);
                put(&mut exp[POOL], a.a_in, a.amt);
                put(&mut exp[ui], !a.a_in, *ret);
                put(&mut exp[fi], !a.a_in, comm);
                put(&mut exp[POOL], !a.a_in, -(ret + comm));
                c.check_any(&["P01", pp], exp == post.bal, || {
                    format!("{what}: returned {ret}, fee {comm}: balances {:?} instead of {exp:?}", post.bal)
                });
                c.check("P01", po == a.amt, || format!("{what}: the pool received {po}"));
            }
            // price and fee
            let cand = swap_candidates(p, pre, a.a_in, a.amt);
            let hit = cand.iter().find(|(o, _)| o.as_ref().map_or(false, |o| o.ret == *ret && o.comm == comm));
            if p.fot == (0, 0) {
                c.eval(pp, Some(("swap", pre.ra, pre.rb, a.amt, a.a_in, *ret)));
                match hit {
                    None => {
                        c.check(pp, false, || {
                            format!("{what} on reserves ({}, {}), fee {} bps paid {ret} and {comm} to the fee recipient, allowed: {cand:?}", pre.ra, pre.rb, p.cfg.fee)
                        });
                    }
                    Some((_, true)) => c.known("P08", "stable-invariant-scale", format!(
                        "a swap on an imbalanced stable pool pays less than its curve value (reserves {} and {}, amp {}, amount {}: {})", pre.ra, pre.rb, p.amp, a.amt, ret)),
                    _ => {}
                }
            }
            // limits, judged on what happened
            let so = hit.and_then(|h| h.0.clone()).unwrap_or(SwapOut { ret: *ret, comm, spread: 0 });
            if a.min.is_some() || a.spread.is_some() || a.deadline.is_some() || a.maxfee.is_some() {
                c.eval("P03", Some(("ok", pre.ra, pre.rb, a.amt, a.min, a.spread, a.deadline, a.maxfee)));
            } else {
                c.eval("P03", Some(("ok", pre.ra, pre.rb, a.amt, so.spread)));
            }
            if let Some(why) = swap_reason(p, a, &so, funds) {
                c.check_any(&["P03"], false, || format!("{what} was executed against its limit: {why} ({so:?}, fee {}, now {})", p.cfg.fee, p.w.now()));
            }
            if let Some(m) = a.min {
                let got = if a.a_in { post.bal[ui].1 - pre.bal[ui].1 } else { post.bal[ui].0 - pre.bal[ui].0 };
                c.check("P03", got >= m || p.fot != (0, 0), || format!("{what}: received {got}, wanted at least {m}"));
            }
            if p.fot == (0, 0) {
            if let Some((Some(o), _)) = hit {
                mon_invariant(c, p, pre, &post, &what, o);
            }
            }
            // the simulation that preceded
            c.eval("P07", Some(("swap", p.kind, pre.ra, pre.rb, a.amt, a.a_in)));
            match &sim {
                Err(e) => c.check("P07", false, || format!("{what} executed but its simulation failed: {e:?}")),
                Ok(s) => {
                    c.check("P07", s.ask_amount == *ret && s.commission_amount == comm, || {
                        format!("{what} paid {ret} with fee {comm}, simulated {s:?}")
                    });
                    c.check("P07", s.total_return == s.ask_amount + s.commission_amount + s.spread_amount, || {
                        format!("simulation of {what} does not add up: {s:?}")
                    });
                    if hit.is_some() && p.fot == (0, 0) {
                        c.check("P07", cand.iter().any(|(o, _)| o.as_ref().map_or(false, |o| o.ret == *ret && o.comm == comm && o.spread == s.spread_amount)), || {
                            format!("{what}: simulated spread {} (allowed {cand:?})", s.spread_amount)
                        });
                    }
                }
            }
            if c.on("P31") {
                let ok: Vec<i128> = cand.iter().filter_map(|(o, _)| o.as_ref()).filter(|o| o.ret == *ret && o.comm == comm).map(|o| o.spread).collect();
                crate::events::swap(c, p, &ev, u, a, *ret, po, &ok);
            }
        }
        Err(e) => {
            c.count("swap refused");
            if c.on("P31") {
                crate::events::none(c, &what, &ev);
            }
            unchanged(c, &what, pre, &post);
            if p.fot == (0, 0) {
                let cand = swap_candidates(p, pre, a.a_in, a.amt.max(1));
                // justified when any outcome the specification allows is refused
                let why = cand.iter().find_map(|(o, _)| match o {
                    None => Some("not swappable"),
                    Some(o) => swap_reason(p, a, o, funds),
                });
                let justified = why.is_some();
                let boundary = a.min.is_some() || a.spread.is_some() || a.deadline.is_some() || a.maxfee.is_some();
                c.eval("P03", if boundary { Some(("refused", pre.ra, pre.rb, a.amt, a.min, a.spread, a.deadline, a.maxfee)) } else { None });
                c.eval(pp, None::<u8>);
                if let Some(w) = why {
                    c.count(&format!("swap refused: {w}"));
                }
                if !justified {
                    c.check_any(&[pp, "P03"], false, || {
                        format!("{what} min={:?} spread={:?} is within all limits but was refused: {e:?}; expected {cand:?}", a.min, a.spread)
                    });
                }
                // a swap with nothing but price reasons to fail fails in simulation alike
                if matches!(why, Some("not swappable")) && a.amt > 0 {
                    let nothing = pre.ra.min(pre.rb) == 0 && matches!(&sim, Ok(q) if q.ask_amount == 0);
                    c.check("P07", sim.is_err() || nothing || p.kind == Kind::Stable, || format!("{what} cannot be executed, simulated {sim:?}"));
                }
            }
        }
    }
    post
}

/// Value never leaves the pool through a swap beyond rounding.
fn mon_invariant(c: &mut Case, p: &PoolW, pre: &Obs, post: &Obs, what: &str, o: &SwapOut) {
    match p.kind {
        Kind::Xyk => {
            // rounding of the amount bought by less than one unit
            let k0 = z(pre.ra) * z(pre.rb);
            let k1 = z(post.ra) * z(post.rb);
            let slack = z(post.ra.max(post.rb));
            c.check("P02", &k1 + &slack > k0, || format!("{what}: reserve product fell from {k0} to {k1}"));
            let (ro, rk) = if post.ra > pre.ra { (pre.ra, pre.rb) } else { (pre.rb, pre.ra) };
            let amt = if post.ra > pre.ra { post.ra - pre.ra } else { post.rb - pre.rb };
            c.check("P02", z(o.ret + o.comm) * z(ro) <= z(amt) * z(rk), || {
                format!("{what}: paid better than the spot price")
            });
        }
        Kind::Stable => {
            // rounding: two units of the token paid out
            let (qa, qb) = if post.ra < pre.ra { (post.ra + 2, post.rb) } else { (post.ra, post.rb + 2) };
            if let (Some(d0), Some(d1)) = (p.stable().d(false, pre.ra, pre.rb), p.stable().d(false, qa, qb)) {
                c.check("P08", d1 + z(4_000_000i64) >= d0, || format!("{what}: the pool's invariant fell from {d0}"));
            }
        }
    }
}

// ------------------------------------------------------------------------------------ deposits

pub fn do_deposit(c: &mut Case, p: &PoolW, pre: &Obs) -> Obs {
    deposit(c, p, pre, false)
}

/// `plain`: no limits, and amounts within a factor of a thousand of each other
pub fn deposit(c: &mut Case, p: &PoolW, pre: &Obs, plain: bool) -> Obs {
    let user = c.below(p.users.len());
    let u = &p.users[user];
    let ui = p.hi(u);
    let empty = pre.ts == 0;
    let now = p.w.now();
    // desired amounts near the pool's proportion
    let (a, b) = if let Some(f) = p.force.take() {
        f
    } else if empty || c.p(8) {
        let base = c.amt(p.max_amt) + *c.pick(&[0i128, 1, 999, 1000, 1001]);
        if p.kind == Kind::Stable {
            let v = c.amt(p.max_amt).max(1);
            stable_amounts(c, p, v)
        } else if c.p(if plain { 85 } else { 60 }) {
            let f = c.amt(2000);
            let y = if c.p(50) { base.saturating_mul(f).min(p.max_amt) } else { base / f };
            (base.max(1), y.max(1))
        } else {
            (base, c.amt(p.max_amt).max(1))
        }
    } else {
        let x = match c.below(5) {
            0 => c.range(1, 10),
            1 => c.amt(p.max_amt),
            2 => c.amt(pre.ra.max(2)),
            _ => (pre.ra / c.range(1, 500)).max(1),
        };
        let y = zi(&zdiv(&(z(x) * z(pre.rb)), &z(pre.ra.max(1)))).unwrap_or(1).clamp(0, p.max_amt);
        let slack = match c.below(5) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => zi(&(z(y) * z(c.range(-600, 600)) / z(10_000i64))).unwrap_or(0),
            _ => c.range(-3, 3),
        };
        (x, (y + slack).max(if c.p(3) { 0 } else { 1 }))
    };
    let (a, b) = if p.kind == Kind::Stable { cap_stable(p, pre, a, b) } else { (a, b) };
    let wild = !plain && c.p(30);
    let deadline = match if plain { 99 } else { c.below(if wild { 6 } else { 15 }) } {
        0 => Some(now),
        1 => Some(now - 1),
        2 => Some(if c.p(60) { now + 5 } else { *c.pick(&[0, 1, u64::MAX]) }),
        _ => None,
    };
    let slip = match if plain { 99 } else { c.below(if wild { 8 } else { 20 }) } {
        0 => Some(p.cfg.max_slip),
        1 => Some(p.cfg.max_slip + 1),
        2 => Some(0),
        3 => Some(c.range(0, 10_000) as i64),
        4 => Some(1),
        _ => None,
    };
    let post;
    let what;
    let dp = p.dep_prop();
    match p.kind {
        Kind::Xyk => {
            let one = !plain && c.p(3);
            let (da, db) = if one { if c.p(50) { (Some(a), None) } else { (None, Some(b)) } } else { (Some(a), Some(b)) };
            let eff = slip.unwrap_or(p.cfg.def_slip);
            let free = xyk_deposit((pre.ra, pre.rb, pre.ts), (pre.bal[POOL].0, pre.bal[POOL].1), da, None, db, None, eff);
            let gen_min = |c: &mut Case, v: i128| match if plain { 99 } else { c.below(if wild { 7 } else { 14 }) } {
                0 => Some(v),
                1 => Some(v + 1),
                2 => Some(v - 1),
                3 => Some(1),
                4 => Some(c.range(-1, 2)),
                _ => None,
            };
            let (ea, eb) = free.as_ref().map(|d| (d.a, d.b)).unwrap_or((a, b));
            let (ma, mb) = (gen_min(c, ea), gen_min(c, eb));
            c.op(format!("deposit user{user} desired=({da:?}, {db:?}) min=({ma:?}, {mb:?}) slip={slip:?} deadline={deadline:?} now={now} reserves=({}, {}) shares={}", pre.ra, pre.rb, pre.ts));
            what = format!("deposit of ({da:?}, {db:?})");
            let r: Res<Val> = p.w.call(
                &p.pool,
                "provide_liquidity",
                args!(&p.w.env, u.clone(), da, ma, db, mb, slip, deadline),
            );
            let ev = if c.on("P31") { crate::events::last(&p.w, &p.pool) } else { vec![] };
            let auths = p.w.authed();
            post = p.obs();
            let mut exp = xyk_deposit((pre.ra, pre.rb, pre.ts), (pre.bal[POOL].0, pre.bal[POOL].1), da, ma, db, mb, eff);
            if deadline.map_or(false, |d| now > d) {
                exp = Err("deadline");
            } else if slip.map_or(false, |s| s > p.cfg.max_slip) {
                exp = Err("custom slippage");
            } else if let Ok(d) = &exp {
                if d.a > pre.bal[ui].0 || d.b > pre.bal[ui].1 {
                    exp = Err("funds");
                }
            }
            mon_state(c, p, &post);
            c.eval(dp, Some((pre.ra, pre.rb, pre.ts, da, db, ma, mb, slip, exp.is_ok())));
            match (&r, &exp) {
                (Ok(_), Ok(d)) if p.fot == (0, 0) => {
                    check_deposit(c, p, &what, pre, &post, ui, d, &auths);
                    mon_share_value(c, p, pre, &post, &what, dp);
                    if c.on("P31") {
                        crate::events::deposit(c, p, &ev, u, d.a, d.b);
                    }
                }
                (Ok(_), Ok(_)) => {}
                (Ok(_), Err(why)) => c.check_any(&[dp], p.fot != (0, 0) && *why == "slippage", || {
                    format!("{what} min=({ma:?}, {mb:?}) slip={slip:?} was accepted against its limits: {why}")
                }),
                (Err(_), Err(why)) => {
                    c.count(&format!("deposit refused: {why}"));
                }
                (Err(e), Ok(d)) => c.check_any(&[dp], false, || format!("{what} min=({ma:?}, {mb:?}) slip={slip:?} was refused ({e:?}), expected {d:?}")),
            }
            if r.is_err() {
                if c.on("P31") {
                    crate::events::none(c, &what, &ev);
                }
                unchanged(c, &what, pre, &post);
            } else {
                c.count("deposit ok");
            }
        }
        Kind::Stable => {
            let s = p.stable();
            let good = a > 0 && b > 0;
            let code = if good { s.deposit(true, pre.ra, pre.rb, pre.ts, a, b) } else { None };
            let truth = if good { s.deposit(false, pre.ra, pre.rb, pre.ts, a, b) } else { None };
            let sh = code.unwrap_or(1).max(0) as u128;
            let mins: Option<u128> = match if plain { 99 } else { c.below(if wild { 5 } else { 10 }) } {
                0 => Some(sh),
                1 => Some(sh + 1),
                2 => Some(sh.saturating_sub(1)),
                3 => Some(c.amt((sh as i128).max(2)) as u128),
                _ => None,
            };
            c.op(format!("deposit user{user} ({a}, {b}) slip={slip:?} min_shares={mins:?} deadline={deadline:?} now={now} reserves=({}, {}) shares={}", pre.ra, pre.rb, pre.ts));
            what = format!("deposit of ({a}, {b})");
            let r: Res<Val> = p.w.call(
                &p.pool,
                "provide_liquidity",
                args!(&p.w.env, u.clone(), a, b, slip, deadline, mins),
            );
            let ev = if c.on("P31") { crate::events::last(&p.w, &p.pool) } else { vec![] };
            let auths = p.w.authed();
            post = p.obs();
            mon_state(c, p, &post);
            let mut pre_err = None;
            if deadline.map_or(false, |d| now > d) {
                pre_err = Some("deadline");
            } else if !good {
                pre_err = Some("nonpositive");
            } else if slip.unwrap_or(p.cfg.def_slip) > p.cfg.max_slip {
                pre_err = Some("custom slippage");
            } else if a > pre.bal[ui].0 || b > pre.bal[ui].1 {
                pre_err = Some("funds");
            }
            c.eval(dp, Some((pre.ra, pre.rb, pre.ts, Some(a), Some(b), None::<i128>, mins.map(|m| m as i128), slip, r.is_ok())));
            if r.is_ok() && p.fot == (0, 0) {
                let got = post.bal[ui].2 - pre.bal[ui].2;
                if let Some(why) = pre_err {
                    c.check(dp, false, || format!("{what} was accepted against its limits: {why}"));
                }
                c.check(dp, mins.map_or(true, |m| got >= 0 && got as u128 >= m), || {
                    format!("{what} minted {got}, wanted at least {mins:?}")
                });
                let tol = 2 + pre.ts / 1_000_000_000_000_000_000;
                let is_true = truth.map_or(false, |t| (t - got).abs() <= tol);
                let is_code = code.map_or(false, |t| (t - got).abs() <= 1);
                if !is_true && is_code {
                    c.known("P09", "stable-invariant-scale", format!(
                        "a deposit into a stable pool mints shares by the sum of the amounts instead of the curve's invariant (reserves {} and {}, {} shares, amp {}: {a} and {b} mint {got})", pre.ra, pre.rb, pre.ts, p.amp));
                }
                c.check(dp, is_true || is_code, || {
                    format!("{what} on reserves ({}, {}), {} shares minted {got}, expected {truth:?}", pre.ra, pre.rb, pre.ts)
                });
                let d = DepOut { a, b, user_shares: got, locked: 0 };
                check_deposit(c, p, &what, pre, &post, ui, &d, &auths);
                if c.on("P31") {
                    crate::events::deposit(c, p, &ev, u, a, b);
                }
            }
            if r.is_err() {
                if c.on("P31") {
                    crate::events::none(c, &what, &ev);
                }
                unchanged(c, &what, pre, &post);
                let short = |s: Option<i128>| s.map_or(true, |s| s < 0 || mins.map_or(false, |m| (s as u128) < m));
                let why = pre_err.or(if short(code) || short(truth) { Some("shares") } else { None });
                if let Some(w) = why {
                    c.count(&format!("deposit refused: {w}"));
                }
                c.check_any(&[dp], why.is_some(), || format!("{what} min_shares={mins:?} was refused ({r:?}), expected {code:?} shares; reserves {pre:?}"));
            } else {
                c.count("deposit ok");
            }
        }
    }
    post
}

/// What the pool's Newton iteration may be off by when it stops at a step of 1e-6 tokens
/// (it converges quadratically), in units of a token with `dec` decimals.
fn solver(reserve: i128, dec: u32) -> i128 {
    let y = z(reserve.max(0)) * pow10(18 - dec) + 1i64;
    let e = (pow10(24) / y + 1i64).min(pow10(12));
    zi(&(e / pow10(18 - dec))).unwrap_or(0) + 1
}

fn unit(dec: u32) -> i128 {
    10i128.pow(dec)
}

/// amounts of both tokens of roughly equal worth
fn stable_amounts(c: &mut Case, p: &PoolW, v: i128) -> (i128, i128) {
    // v in 1e-18 tokens scaled by max_amt; keep worth below 1e6 tokens
    let lim = 1_000_000;
    let worth = (v % lim).max(1);
    let f = c.range(1, 1000);
    let a = zi(&(z(unit(p.da)) * worth * f / 1000i64)).unwrap_or(1).max(1);
    let sk = *c.pick(&[1000i128, 1000, 1000, 999, 900, 1100, 500, 100, 3000]);
    let b = zi(&(z(unit(p.db)) * worth * f / 1000i64 * sk / 1000i64)).unwrap_or(1).max(1);
    (a, b)
}

/// Stay inside the documented range of the stable pool (see DESIGN.md).
fn cap_stable(p: &PoolW, pre: &Obs, a: i128, b: i128) -> (i128, i128) {
    let lim = 1_000_000;
    let ca = zi(&(z(unit(p.da)) * lim)).unwrap_or(i128::MAX);
    let cb = zi(&(z(unit(p.db)) * lim)).unwrap_or(i128::MAX);
    (a.min((ca - pre.ra).max(1)), b.min((cb - pre.rb).max(1)))
}

#[allow(clippy::too_many_arguments)]
fn check_deposit(c: &mut Case, p: &PoolW, what: &str, pre: &Obs, post: &Obs, ui: usize, d: &DepOut, auths: &[Address]) {
    let dp = p.dep_prop();
    mon_moves(c, p, what, pre, post, &[ui]);
    let (ta, tb) = (pre.bal[ui].0 - post.bal[ui].0, pre.bal[ui].1 - post.bal[ui].1);
    c.check(dp, (ta, tb) == (d.a, d.b), || format!("{what} took ({ta}, {tb}) instead of ({}, {})", d.a, d.b));
    let got = post.bal[ui].2 - pre.bal[ui].2;
    c.check(dp, got == d.user_shares, || format!("{what} on ({}, {}), {} shares minted {got} instead of {}", pre.ra, pre.rb, pre.ts, d.user_shares));
    let locked = post.bal[POOL].2 - pre.bal[POOL].2;
    c.check(dp, locked == d.locked, || format!("{what} locked {locked} shares instead of {}", d.locked));
    c.eval("P01", Some(("deposit", pre.ra, pre.rb, d.a, true)));
    c.check("P01", post.ra == post.bal[POOL].0 && post.rb == post.bal[POOL].1, || {
        format!("{what}: reserves ({}, {}) but the pool holds {:?}", post.ra, post.rb, post.bal[POOL])
    });
    c.eval("P06", Some(("deposit", pre.ts, got)));
    c.check("P06", post.ts - pre.ts == got + locked, || format!("{what}: supply grew by {}, minted {got}+{locked}", post.ts - pre.ts));
    c.eval("P11", Some(("deposit", ui, pre.bal[ui], post.bal[ui])));
    c.check("P11", auths.contains(&p.holders[ui]), || format!("{what}: the depositor did not authorize it"));
}

/// A deposit or withdrawal never lowers what the other holders' shares redeem for.
fn mon_share_value(c: &mut Case, _p: &PoolW, pre: &Obs, post: &Obs, what: &str, prop: &str) {
    if pre.ts == 0 || post.ts == 0 {
        return;
    }
    for (r0, r1, n) in [(pre.ra, post.ra, "A"), (pre.rb, post.rb, "B")] {
        c.check(prop, z(r1) * z(pre.ts) >= z(r0) * z(post.ts), || {
            format!("{what} lowered the {n} behind each share: {r0}/{} -> {r1}/{}", pre.ts, post.ts)
        });
    }
}

// --------------------------------------------------------------------------------- withdrawals

pub fn do_withdraw(c: &mut Case, p: &PoolW, pre: &Obs) -> Obs {
    let now = p.w.now();
    let user = {
        let with: Vec<usize> = (0..p.users.len()).filter(|i| pre.bal[p.hi(&p.users[*i])].2 > 0).collect();
        if with.is_empty() || c.p(5) { c.below(p.users.len()) } else { *c.pick(&with) }
    };
    let u = &p.users[user];
    let ui = p.hi(u);
    let have = pre.bal[ui].2;
    let shares = match c.below(8) {
        0 => have,
        1 => have + 1,
        2 => 1,
        3 => c.range(-1, 3),
        4 => c.amt(have.max(2)),
        5 => have / 2 + 1,
        _ => c.range(1, have.max(2)),
    };
    let exp = if shares > 0 { withdraw(pre.ra, pre.rb, pre.ts, shares) } else { None };
    let (ea, eb) = exp.unwrap_or((1, 1));
    let wild = c.p(30);
    let gen = |c: &mut Case, v: i128| match c.below(if wild { 5 } else { 9 }) {
        0 => v,
        1 => v + 1,
        2 => v - 1,
        3 => c.range(-1, 1),
        _ => 1,
    };
    let (ma, mb) = (gen(c, ea), gen(c, eb));
    let deadline = match c.below(if wild { 5 } else { 15 }) {
        0 => Some(now),
        1 => Some(now - 1),
        2 => Some(if c.p(60) { now + 5 } else { *c.pick(&[0, 1, u64::MAX]) }),
        _ => None,
    };
    c.op(format!("withdraw user{user} {shares} of {have} min=({ma}, {mb}) deadline={deadline:?} now={now} reserves=({}, {}) shares={}", pre.ra, pre.rb, pre.ts));
    let what = format!("withdrawal of {shares} shares");
    let r: Res<(i128, i128)> =
        p.w.call(&p.pool, "withdraw_liquidity", args!(&p.w.env, u.clone(), shares, ma, mb, deadline));
    let ev = if c.on("P31") { crate::events::last(&p.w, &p.pool) } else { vec![] };
    let auths = p.w.authed();
    let post = p.obs();
    mon_state(c, p, &post);
    let why = if deadline.map_or(false, |d| now > d) {
        Some("deadline")
    } else if shares <= 0 || ma <= 0 || mb <= 0 {
        Some("nonpositive")
    } else if shares > have {
        Some("funds")
    } else if exp.is_none() {
        Some("empty")
    } else if ea < ma || eb < mb {
        Some("min")
    } else {
        None
    };
    c.eval("P05", Some((p.kind, pre.ra, pre.rb, pre.ts, shares, ma, mb, why)));
    match (&r, why) {
        (Ok((a, b)), None) => {
            c.count("withdraw ok");
            mon_moves(c, p, &what, pre, &post, &[ui]);
            let (ga, gb) = (post.bal[ui].0 - pre.bal[ui].0, post.bal[ui].1 - pre.bal[ui].1);
            if p.fot == (0, 0) {
                c.check("P05", (ga, gb) == (ea, eb), || {
                    format!("{what} of {} on ({}, {}) paid ({ga}, {gb}) instead of ({ea}, {eb})", pre.ts, pre.ra, pre.rb)
                });
            }
            c.check("P05", (*a, *b) == (ea, eb), || format!("{what} reported ({a}, {b}), expected ({ea}, {eb})"));
            c.check("P05", pre.bal[ui].2 - post.bal[ui].2 == shares, || {
                format!("{what} took {} shares", pre.bal[ui].2 - post.bal[ui].2)
            });
            mon_share_value(c, p, pre, &post, &what, "P05");
            c.eval("P01", Some(("withdraw", pre.ra, pre.rb, shares, true)));
            let (da, db) = (pre.bal[POOL].0 - post.bal[POOL].0, pre.bal[POOL].1 - post.bal[POOL].1);
            c.check("P01", (da, db) == (pre.ra - post.ra, pre.rb - post.rb), || {
                format!("{what}: balances fell by ({da}, {db}), reserves by ({}, {})", pre.ra - post.ra, pre.rb - post.rb)
            });
            c.check("P01", (da, db) == (ea, eb), || format!("{what}: the pool lost ({da}, {db}) for a payment of ({ea}, {eb})"));
            c.eval("P06", Some(("withdraw", pre.ts, shares)));
            c.check("P06", pre.ts - post.ts == shares, || format!("{what}: supply fell by {}", pre.ts - post.ts));
            c.eval("P11", Some(("withdraw", ui, pre.bal[ui], post.bal[ui])));
            c.check("P11", auths.contains(u), || format!("{what}: the owner did not authorize it"));
            if c.on("P31") {
                crate::events::withdraw(c, p, &ev, u, shares, *a, *b);
            }
        }
        (Ok(_), Some(w)) => c.check_any(&["P05"], false, || format!("{what} min=({ma}, {mb}) was accepted against its limits: {w} (would pay ({ea}, {eb}))")),
        (Err(e), None) => c.check_any(&["P05"], false, || format!("{what} min=({ma}, {mb}) was refused ({e:?}), expected ({ea}, {eb})")),
        (Err(_), Some(w)) => {
            c.count(&format!("withdraw refused: {w}"));
            if c.on("P31") {
                crate::events::none(c, &what, &ev);
            }
            unchanged(c, &what, pre, &post);
        }
    }
    post
}

// ------------------------------------------------------------------------------------- queries

fn do_queries(c: &mut Case, p: &PoolW, o: &Obs) {
    let e = &p.w.env;
    let d0 = p.w.digest();
    let n0 = crate::events::count(&p.w);
    let info: PoolResponse = p.w.must(&p.pool, "query_pool_info", args!(e));
    let fi: LiquidityPoolInfo = p.w.must(&p.pool, "query_pool_info_for_factory", args!(e));
    let tot: i128 = p.w.must(&p.pool, "query_total_issued_lp", args!(e));
    let lp: Address = p.w.must(&p.pool, "query_share_token_address", args!(e));
    let st: Address = p.w.must(&p.pool, "query_stake_contract_address", args!(e));
    let amount = match c.below(5) {
        0 => 1,
        1 => o.ts.max(1),
        2 => c.amt(o.ts.max(2)),
        // more than there are: what they would be worth at the same price
        3 => o.ts.max(1) + c.amt(o.ts.max(2)),
        _ => c.range(1, o.ts.max(2)),
    };
    let share: (Asset, Asset) = p.w.must(&p.pool, "query_share", args!(e, amount));
    let a_in = c.p(50);
    let x = c.amt(p.max_amt);
    let _ = simulate(p, a_in, x);
    let _ = reverse(p, a_in, c.amt(p.max_amt));
    let d1 = p.w.digest();
    c.eval("P13", Some((p.kind, o.ra, o.rb, o.ts, amount)));
    let diff = digest_diff(&d0, &d1);
    c.check("P13", diff.is_none(), || format!("a query changed the state: {diff:?}"));
    c.check("P13", crate::events::count(&p.w) == n0, || "a query emitted an event".into());
    c.check("P13", info == fi.pool_response && fi.pool_address == p.pool && fi.total_fee_bps == p.cfg.fee, || {
        format!("the pool's two descriptions differ: {info:?} {fi:?}")
    });
    c.check("P13", info.asset_a.address == p.ta && info.asset_b.address == p.tb && info.asset_lp_share.address == p.lp && info.stake_address == p.stake && lp == p.lp && st == p.stake, || {
        format!("wrong addresses in {info:?}")
    });
    c.check("P13", tot == o.ts && info.asset_lp_share.amount == o.ts, || format!("total shares {tot}, observed {}", o.ts));
    c.check("P13", (info.asset_a.amount, info.asset_b.amount) == (o.ra, o.rb), || "reserves differ between two queries".into());
    let exp = if o.ts == 0 { (0, 0) } else { withdraw(o.ra, o.rb, o.ts, amount).unwrap() };
    c.check("P13", (share.0.amount, share.1.amount) == exp && share.0.address == p.ta && share.1.address == p.tb, || {
        format!("share of {amount} of {} is reported as {share:?}, expected {exp:?}", o.ts)
    });
    check_config(c, p);
}

pub fn check_config(c: &mut Case, p: &PoolW) {
    let e = &p.w.env;
    let g = &p.cfg;
    let want = (g.fee, g.feer.clone(), g.max_slip, g.max_spread, p.ta.clone(), p.tb.clone(), p.lp.clone(), p.stake.clone());
    let got = match p.kind {
        Kind::Xyk => {
            let x: XykConfig = p.w.must(&p.pool, "query_config", args!(e));
            (x.total_fee_bps, x.fee_recipient, x.max_allowed_slippage_bps, x.max_allowed_spread_bps, x.token_a, x.token_b, x.share_token, x.stake_contract)
        }
        Kind::Stable => {
            let x: StableConfig = p.w.must(&p.pool, "query_config", args!(e));
            (x.total_fee_bps, x.fee_recipient, x.max_allowed_slippage_bps, x.max_allowed_spread_bps, x.token_a, x.token_b, x.share_token, x.stake_contract)
        }
    };
    c.check_any(&["P13", "P12", "P10"], want == got, || format!("configuration is {got:?}, expected {want:?}"));
}

pub fn reverse(p: &PoolW, offer_is_a: bool, ask: i128) -> Res<SimulateReverseSwapResponse> {
    // the constant product pool takes the asked asset, the stable pool the offered one
    let t = match (p.kind, offer_is_a) {
        (Kind::Xyk, true) | (Kind::Stable, false) => p.tb.clone(),
        _ => p.ta.clone(),
    };
    p.w.call(&p.pool, "simulate_reverse_swap", args!(&p.w.env, t, ask))
}

/// The amount a reverse simulation names buys what was asked for.
fn do_reverse(c: &mut Case, p: &PoolW, o: &Obs) {
    if p.cfg.fee >= 10_000 || o.ts == 0 || o.ra.min(o.rb) == 0 || (p.kind == Kind::Xyk && o.ra.max(o.rb) > 1_000_000_000_000_000_000) {
        return;
    }
    let a_in = c.p(50);
    let (rk, od, kd) = if a_in { (o.rb, p.da, p.db) } else { (o.ra, p.db, p.da) };
    let ask = match c.below(4) {
        0 => c.range(1, 50),
        1 => c.amt(rk.max(2)),
        2 => (rk / c.range(2, 1000)).max(1),
        _ => c.range(1, (rk / 2).max(1)),
    };
    // before the fee
    let gross = zi(&zdiv(&(z(ask) * 10_000i64), &z(10_000 - p.cfg.fee))).unwrap_or(i128::MAX);
    c.op(format!("reverse simulation offer_is_a={a_in} ask={ask} reserves=({}, {})", o.ra, o.rb));
    let r = reverse(p, a_in, ask);
    if gross >= rk - 1 {
        if gross > rk {
            c.eval("P07", Some(("reverse beyond", p.kind, o.ra, o.rb, ask, a_in)));
            c.check("P07", r.is_err(), || format!("asking {ask} of a reserve of {rk} is quoted as {r:?}"));
        }
        return;
    }
    let Ok(r) = r else {
        c.check("P07", p.kind == Kind::Stable, || format!("reverse simulation of {ask} of {rk} failed"));
        return;
    };
    c.eval("P07", Some(("reverse", p.kind, o.ra, o.rb, ask, a_in)));
    c.check("P07", r.offer_amount >= 0 && r.commission_amount >= 0, || format!("reverse simulation of {ask} of reserve {rk} gives {r:?}"));
    // fee on the amount before the fee
    let fee_exp = gross * p.cfg.fee as i128 / 10_000;
    c.check("P07", (r.commission_amount - fee_exp).abs() <= 1 + gross / 1_000_000_000_000_000_00, || {
        format!("reverse simulation of {ask}: fee {} instead of {fee_exp}", r.commission_amount)
    });
    let eval = |amt: i128| -> Option<i128> {
        if amt <= 0 {
            return Some(0);
        }
        match p.kind {
            Kind::Xyk => {
                let (ro, rk) = if a_in { (o.ra, o.rb) } else { (o.rb, o.ra) };
                let g = zdiv(&(z(rk) * z(amt)), &(z(ro) + z(amt)));
                zi(&(&g - zdiv(&(&g * p.cfg.fee), &z(10_000i64))))
            }
            Kind::Stable => {
                let (ro, rk) = if a_in { (o.ra, o.rb) } else { (o.rb, o.ra) };
                p.stable().swap(true, ro, od, rk, kd, amt, p.cfg.fee).map(|s| s.ret)
            }
        }
    };
    // tolerance: rounding of the offer by a unit of either precision
    let (lo, hi) = match p.kind {
        Kind::Xyk => (r.offer_amount, r.offer_amount + 1),
        Kind::Stable => {
            let step = if od > kd { unit(od - kd) } else { 1 };
            let ro = if a_in { o.ra } else { o.rb };
            let e = solver(ro + r.offer_amount, od);
            (r.offer_amount - 2 * step - 1 - e, r.offer_amount + 2 * step + 1 + e)
        }
    };
    let mut slack = 2 + if p.kind == Kind::Stable && kd > od { 2 * unit(kd - od) } else { 0 };
    if p.kind == Kind::Stable {
        // the solver, and the 18 digits of the fee's inverse
        slack += solver(rk - gross, kd) + ask / 1_000_000_000_000_000_000 + 1;
    }
    if let (Some(x), Some(y)) = (eval(lo), eval(hi)) {
        c.check("P07", x <= ask + slack && y >= ask - slack, || {
            format!("reverse simulation of {ask} names {} which buys between {x} and {y} (reserves ({}, {}), fee {})", r.offer_amount, o.ra, o.rb, p.cfg.fee)
        });
    }
    // spread: the quoted offer at the spot price, less what is bought before the fee
    if p.kind == Kind::Xyk {
        let (ro, rk) = if a_in { (o.ra, o.rb) } else { (o.rb, o.ra) };
        let spot = zi(&zdiv(&(z(r.offer_amount) * z(rk)), &z(ro))).unwrap_or(0);
        c.check("P07", (r.spread_amount - (spot - gross)).abs() <= 2 + r.offer_amount.max(spot) / 100_000_000_000_000_000, || {
            format!("reverse simulation of {ask}: spread {} instead of {}", r.spread_amount, spot - gross)
        });
    }
}

// ---------------------------------------------------------------------------------- the history

/// The administrator installs the code anew: nothing changes but the default tolerance it names.
fn upgrade(c: &mut Case, p: &mut PoolW) {
    let before = p.obs();
    let hash = p.w.upload(if p.kind == Kind::Xyk { "phoenix_pool" } else { "phoenix_pool_stable" });
    let d0 = p.w.digest();
    let e = &p.w.env;
    let slip = *c.pick(&[0i64, 1, 30, 200, 500, 1000, 5000]);
    let soft = c.p(35);
    c.op(format!("{} to the same code, default slippage {slip}", if soft { "update" } else { "upgrade" }));
    let r: Res<Val> = match (soft, p.kind) {
        (true, _) => p.w.call(&p.pool, "update", args!(e, hash)),
        (_, Kind::Xyk) => p.w.call(&p.pool, "upgrade", args!(e, hash, slip)),
        _ => p.w.call(&p.pool, "upgrade", args!(e, hash)),
    };
    let au = p.w.authed();
    c.eval("P10", Some(("upgrade", soft, p.kind, c.idx, c.trace.len())));
    c.check("P10", r.is_ok() && au.contains(&p.admin), || format!("the upgrade: {r:?}, authorized by the administrator: {}", au.contains(&p.admin)));
    if r.is_ok() && !soft && p.kind == Kind::Xyk {
        p.cfg.def_slip = slip;
    } else {
        let diff = digest_diff(&d0, &p.w.digest());
        c.check("P10", diff.is_none(), || format!("installing the code the pool already runs changed {diff:?}"));
    }
    let post = p.obs();
    c.check_any(&["P01", "P06", "P10", "P13"], before == post, || format!("an upgrade to the same code changed {before:?} to {post:?}"));
    check_config(c, p);
}

fn update_config(c: &mut Case, p: &mut PoolW) {
    if c.p(25) {
        return upgrade(c, p);
    }
    let bps = |c: &mut Case| -> Option<i64> {
        match c.below(9) {
            0 if c.p(30) => Some(0),
            1 => Some(10_000),
            2 => Some(c.range(0, 10_000) as i64),
            3 => Some(c.range(0, 300) as i64),
            4 if c.p(30) => Some(*c.pick(&[-1i64, 10_001, i64::MAX, i64::MIN])),
            _ => None,
        }
    };
    let fee = bps(c);
    let slip = bps(c);
    let spread = bps(c);
    let mref = bps(c);
    let feer = match c.below(20) {
        0..=2 => Some(p.users[c.below(4)].clone()),
        3 => Some(p.admin.clone()),
        4 => Some(p.w.addr()),
        _ => None,
    };
    let new_admin = match c.below(20) {
        0 | 1 => Some(p.w.addr()),
        2 => Some(p.users[c.below(4)].clone()),
        3 => Some(p.cfg.feer.clone()),
        4 => Some(p.admin.clone()),
        5 if !p.former.is_empty() => Some(c.pick(&p.former).clone()),
        _ => None,
    };
    c.op(format!("update_config fee={fee:?} slip={slip:?} spread={spread:?} ref={mref:?} feer={} new_admin={}", feer.is_some(), new_admin.is_some()));
    let e = &p.w.env;
    let r: Res<Val> = match p.kind {
        Kind::Xyk => p.w.call(&p.pool, "update_config", args!(e, new_admin.clone(), fee, feer.clone(), slip, spread, mref)),
        Kind::Stable => p.w.call(&p.pool, "update_config", args!(e, p.admin.clone(), new_admin.clone(), fee, feer.clone(), slip, spread)),
    };
    let au = p.w.authed();
    let bad = [fee, slip, spread, if p.kind == Kind::Xyk { mref } else { None }]
        .into_iter()
        .flatten()
        .any(|v| !(0..=10_000).contains(&v));
    c.eval("P12", Some((p.kind, fee, slip, spread, mref, bad)));
    c.check("P12", r.is_ok() != bad, || format!("configuration fee={fee:?} slippage={slip:?} spread={spread:?} referral={mref:?}: {r:?}"));
    if r.is_ok() {
        c.count("config updated");
        c.eval("P10", Some((p.kind, fee, slip, spread)));
        c.check("P10", au.contains(&p.admin), || "configuration changed without the admin".into());
        if let Some(f) = fee {
            p.cfg.fee = f;
        }
        if let Some(s) = slip {
            p.cfg.max_slip = s;
        }
        if let Some(s) = spread {
            p.cfg.max_spread = s;
        }
        if let Some(f) = feer {
            p.cfg.feer = f;
        }
        if let Some(a) = new_admin {
            if !p.former.contains(&p.admin) {
                p.former.push(p.admin.clone());
            }
            p.former.retain(|x| *x != a);
            p.admin = a;
        }
        for h in [p.admin.clone(), p.cfg.feer.clone()] {
            if !p.holders.contains(&h) {
                p.holders.push(h);
            }
        }
    }
    check_config(c, p);
}

fn lp_transfer(c: &mut Case, p: &PoolW, o: &Obs) -> Obs {
    let i = c.below(4);
    // to another user, or astray to a contract that then owns shares like anyone else
    let (j, to) = match c.below(10) {
        0..=2 => (90, p.pool.clone()),
        3 => (91, p.stake.clone()),
        4 => (92, p.admin.clone()),
        _ => {
            let j = c.below(4);
            (j, p.users[j].clone())
        }
    };
    let have = o.bal[p.hi(&p.users[i])].2;
    if have == 0 {
        return o.clone();
    }
    let x = c.range(1, have);
    c.op(format!("LP transfer user{i} -> user{j} {x}"));
    let r: Res<Val> = p.w.call(&p.lp, "transfer", args!(&p.w.env, p.users[i].clone(), to, x));
    let post = p.obs();
    c.eval("P06", Some(("lp transfer", o.ts, x, j)));
    c.check_any(&["P06", "P01"], r.is_ok() && post.ts == o.ts, || format!("LP transfer {r:?}"));
    mon_state(c, p, &post);
    post
}

fn donate(c: &mut Case, p: &PoolW, o: &Obs) -> Obs {
    let t = if c.p(50) { &p.ta } else { &p.tb };
    let mut x = c.amt(p.max_amt / 1000 + 2);
    if p.kind == Kind::Stable {
        let (da, db) = cap_stable(p, o, x, x);
        x = if *t == p.ta { da } else { db };
    }
    c.op(format!("donation of {x} {}", if *t == p.ta { "A" } else { "B" }));
    let u = c.pick(&p.users).clone();
    p.w.must::<Val>(t, "transfer", args!(&p.w.env, u, p.pool.clone(), x));
    let post = p.obs();
    mon_state(c, p, &post);
    post
}

/// With nobody's signature, nothing that moves funds or changes settings happens.
fn unsigned(c: &mut Case, p: &PoolW, o: &Obs) {
    let e = &p.w.env;
    let u = p.users[c.below(4)].clone();
    let u0 = u.clone();
    let atk = p.w.addr();
    let x = c.amt((o.ra / 50).max(2));
    let n: Option<i128> = None;
    let sl: Option<i64> = None;
    let dl: Option<u64> = None;
    let hash = p.w.hashes["soroban_token_contract"].clone();
    let k = if c.on("P11") { c.below(3) } else { *c.pick(&[3, 3, 4, 5]) };
    let mut own_only = true;
    let (f, a): (&str, _) = match (k, p.kind) {
        (0, _) => ("swap", args!(e, u, p.ta.clone(), x, n, sl, dl, sl)),
        (1, Kind::Xyk) => ("provide_liquidity", args!(e, u, Some(o.ra.max(2000)), n, Some(o.rb.max(2000)), n, sl, dl)),
        (1, Kind::Stable) => ("provide_liquidity", args!(e, u, (o.ra / 10).max(1), (o.rb / 10).max(1), sl, dl, None::<u128>)),
        (2, _) => ("withdraw_liquidity", args!(e, u, x.min(o.ts.max(1)), 1i128, 1i128, dl)),
        (3, kind) => {
            // any subset of the settings
            let mut bps = || if c.p(40) { Some(1 + c.below(900) as i64) } else { None };
            let (f1, s1, s2, s3) = (bps(), bps(), bps(), bps());
            let (na, nf) = (if c.p(50) { Some(atk.clone()) } else { None }, if c.p(50) { Some(atk.clone()) } else { None });
            match kind {
                Kind::Xyk => ("update_config", args!(e, na, f1, nf, s1, s2, s3)),
                _ => {
                    let s = match c.below(6) {
                        0 => atk.clone(),
                        1 | 2 => p.cfg.feer.clone(),
                        _ => p.admin.clone(),
                    };
                    own_only = s == p.admin;
                    ("update_config", args!(e, s, na, f1, nf, s1, s2))
                }
            }
        }
        (4, Kind::Xyk) => ("upgrade", args!(e, hash, 5i64)),
        (4, Kind::Stable) => ("upgrade", args!(e, hash)),
        _ => ("update", args!(e, hash)),
    };
    let prop = if k <= 2 { "P11" } else { "P10" };
    let mut bad = p.former.clone();
    bad.push(atk);
    bad.push(p.users[(0..4).find(|i| p.users[*i] != u0).unwrap()].clone());
    if k > 2 {
        bad.push(p.cfg.feer.clone());
        bad.retain(|x| *x != p.admin);
    } else {
        bad.retain(|x| *x != u0);
    }
    let owner = if k <= 2 || !own_only { None } else { Some(p.admin.clone()) };
    twin(c, &p.w, prop, &p.pool, f, &a, owner.as_ref(), &bad);
}

/// The largest reserve whose swaps stay within 128-bit ratios with 18 digits.
const BIG: i128 = 100_000_000_000_000_000_000;

/// Deposits that double the pool until the product of its reserves leaves 127 bits.
fn grow(c: &mut Case, p: &mut PoolW, o: &Obs) -> Obs {
    let mut o = o.clone();
    let cap = z(i128::MAX);
    for _ in 0..80 {
        let m = o.ra.max(o.rb);
        if c.bad() || o.ra.min(o.rb) < 1000 || m > BIG / 4 || z(m) * z(2) * z(o.ts) > cap || z(o.ra) * z(o.rb) > cap {
            break;
        }
        p.force.set(Some((o.ra, o.rb)));
        let ts = o.ts;
        o = deposit(c, p, &o, true);
        if o.ts == ts {
            break;
        }
    }
    c.count(if z(o.ra) * z(o.rb) > cap { "grown beyond 127 bits" } else { "grown" });
    p.max_amt = 100_000_000_000_000_000;
    o
}

pub fn history(c: &mut Case, kind: Kind, fot: bool) {
    let mut s = gen_setup(c, kind);
    if fot {
        s.fot = (*c.pick(&[0i128, 0, 1, 100, 1000]), *c.pick(&[0i128, 10, 500]));
        s.cfg_fee = s.cfg_fee.min(1000);
    }
    let lim_focus = c.on("P03");
    if lim_focus && c.p(70) {
        s.cfg_fee = s.cfg_fee.min(300);
    }
    let mut p = PoolW::new(c, s);
    let mut o = p.obs();
    mon_state(c, &p, &o);
    let steps = 30;
    // tokens may have been sent to the pool before anyone owns a share of it
    if c.p(15) {
        o = donate(c, &p, &o);
    }
    // a first deposit most of the time
    let mut tries = 0;
    while o.ts == 0 && tries < 6 && !c.bad() {
        let plain = tries > 0 || c.p(85);
        o = deposit(c, &p, &o, plain);
        tries += 1;
    }
    if kind == Kind::Xyk && !fot && o.ts > 0 && c.p(12) {
        o = grow(c, &mut p, &o);
    }
    let focus: BTreeMap<&str, u32> = match c.prop.as_str() {
        "P02" | "P08" | "P03" => [("swap", 70), ("dep", 12), ("wd", 8)].into(),
        "P04" | "P09" => [("swap", 25), ("dep", 55), ("wd", 15)].into(),
        "P05" => [("swap", 20), ("dep", 25), ("wd", 50)].into(),
        "P07" => [("swap", 45), ("dep", 12), ("wd", 5), ("rev", 30)].into(),
        "P13" => [("swap", 20), ("dep", 15), ("wd", 10), ("query", 40)].into(),
        "P10" | "P11" => [("swap", 15), ("dep", 15), ("wd", 15), ("unsigned", 40), ("cfg", 10)].into(),
        "P12" => [("swap", 10), ("dep", 10), ("wd", 5), ("cfg", 60)].into(),
        _ => [("swap", 40), ("dep", 25), ("wd", 20)].into(),
    };
    let g = |k: &str, d: u32| focus.get(k).copied().unwrap_or(d);
    let weights: Vec<(u32, &'static str)> = vec![
        (g("swap", 40), "swap"),
        (g("dep", 20), "dep"),
        (g("wd", 15), "wd"),
        (g("cfg", 2), "cfg"),
        (3, "lp"),
        (if c.on("P03") { 1 } else { 3 }, "donate"),
        (4, "time"),
        (g("query", 0), "query"),
        (g("rev", 0), "rev"),
        (g("unsigned", 0), "unsigned"),
    ];
    for _ in 0..steps {
        if c.bad() || (kind == Kind::Xyk && o.ra.max(o.rb) > BIG) {
            return;
        }
        match c.weighted(&weights) {
            "dep" if kind == Kind::Xyk && z(o.ra.max(o.rb)) * z(2) * z(o.ts) > z(i128::MAX) => continue,
            "swap" => {
                let a = gen_swap(c, &p, &o);
                o = do_swap(c, &p, &o, &a);
            }
            "dep" => o = do_deposit(c, &p, &o),
            "wd" => o = do_withdraw(c, &p, &o),
            "cfg" => {
                update_config(c, &mut p);
                let n = p.obs();
                let (k, ok) = (o.bal.len(), (n.ra, n.rb, n.ts) == (o.ra, o.rb, o.ts));
                c.check_any(&["P01", "P06", "P10"], ok && n.bal[..k] == o.bal[..], || format!("a configuration change moved {o:?} to {n:?}"));
                o = n;
            }
            "lp" => o = lp_transfer(c, &p, &o),
            "donate" => o = donate(c, &p, &o),
            "time" => {
                let dt = *c.pick(&[1u64, 5, 60, 3600, 86_400, 864_000]);
                p.w.advance(dt);
            }
            "query" => do_queries(c, &p, &o),
            "rev" => do_reverse(c, &p, &o),
            _ => unsigned(c, &p, &o),
        }
    }
    // new fee recipients must be tracked holders; they are always users
    let _ = mon_auth;
}

pub fn xyk(c: &mut Case) {
    history(c, Kind::Xyk, false)
}
pub fn stable(c: &mut Case) {
    history(c, Kind::Stable, false)
}
pub fn xyk_fot(c: &mut Case) {
    history(c, Kind::Xyk, true)
}
pub fn stable_fot(c: &mut Case) {
    history(c, Kind::Stable, true)
}

const RULE: &str = "random histories of deposits, swaps, withdrawals, LP transfers, donations, configuration changes and time steps on the real pool wasm; a case is non-trivial when the oracle judged an operation on a distinct pre-state with distinct arguments";

pub fn specs() -> Vec<Spec> {
    let s = |id, work: Vec<(u32, &'static str, crate::Work)>, quick| Spec {
        id,
        work,
        scripted: vec![],
        quick,
        thorough: quick * 40,
        rule: RULE,
    };
    let both = || -> Vec<(u32, &'static str, crate::Work)> { vec![(1, "xyk", xyk), (1, "stable", stable)] };
    vec![
        s("P01", vec![(3, "xyk", xyk), (3, "stable", stable), (1, "xyk-fot", xyk_fot), (1, "stable-fot", stable_fot)], 800),
        s("P02", vec![(1, "xyk", xyk)], 800),
        s("P03", both(), 800),
        s("P04", vec![(1, "xyk", xyk)], 800),
        s("P05", both(), 800),
        s("P06", both(), 800),
        s("P07", both(), 800),
        s("P08", vec![(1, "stable", stable)], 800),
        s("P09", vec![(1, "stable", stable)], 800),
        s("P13", both(), 800),
    ]
}
