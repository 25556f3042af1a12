//! Factory, the pools it creates, and multi-hop routes over them.
use crate::core::*;
use crate::model::*;
use crate::pool::{mint, new_token};
use crate::types::*;
use crate::{args, Spec};
use soroban_sdk::{Address, BytesN, Val, Vec as SVec};

#[derive(Clone)]
pub struct Rec {
    addr: Address,
    stable: bool,
    a: usize,
    b: usize,
    lp: Address,
    stake: Address,
    info: LiquidityPoolInitInfo,
    amp: u64,
    slip: i64,
}

pub struct Sys {
    w: W,
    f: Address,
    hop: Address,
    admin: Address,
    toks: Vec<Address>,
    decs: Vec<u32>,
    pools: Vec<Rec>,
    users: Vec<Address>,
    white: Vec<Address>,
    creators: Vec<Address>,
    lp_dec: u32,
    /// configured code: constant-product pool, stable pool, staking, share token
    hashes: [BytesN<32>; 4],
    /// the same programs under other hashes
    other: [BytesN<32>; 4],
    out: Address,
    feers: Vec<Address>,
}

fn svec<T: soroban_sdk::IntoVal<soroban_sdk::Env, Val> + soroban_sdk::TryFromVal<soroban_sdk::Env, Val> + Clone>(w: &W, v: &[T]) -> SVec<T> {
    let mut o = SVec::new(&w.env);
    for x in v {
        o.push_back(x.clone());
    }
    o
}

impl Sys {
    pub fn new(c: &mut Case, ntok: usize) -> Self {
        let mut w = W::new(c.range(1_000, 1_900_000_000) as u64);
        w.track.set(c.on("P31"));
        let creators: Vec<Address> = (0..4).map(|_| w.addr()).collect();
        // every role may coincide with another
        let admin = match c.below(8) {
            0 => creators[0].clone(),
            1 => creators[2].clone(),
            _ => w.addr(),
        };
        let f = w.register("phoenix_factory");
        let h = [w.upload("phoenix_pool"), w.upload("phoenix_pool_stable"), w.upload("phoenix_stake"), w.upload("soroban_token_contract")];
        let other = if c.on("P15") || c.on("P10") || c.on("P30") {
            w.upload("phoenix_factory");
            ["phoenix_pool", "phoenix_pool_stable", "phoenix_stake", "soroban_token_contract"].map(|n| w.upload_again(n))
        } else {
            h.clone()
        };
        let mh = w.upload("phoenix_multihop");
        let white: Vec<Address> = creators[..c.range(1, 2) as usize].to_vec();
        let lp_dec = *c.pick(&[7u32, 7, 7, 0, 18]);
        let list = svec(&w, &white);
        w.must::<Val>(&f, "initialize", args!(&w.env, admin.clone(), mh, h[0].clone(), h[1].clone(), h[2].clone(), h[3].clone(), list, lp_dec));
        let cfg: FactoryConfig = w.must(&f, "get_config", args!(&w.env));
        let mut toks: Vec<Address> = (0..ntok).map(|_| new_token(&w, 7, 0)).collect();
        toks.sort();
        for (i, t) in toks.iter().enumerate() {
            w.must::<Val>(t, "rename", args!(&w.env, w.s(["TA", "TB", "TC", "TD", "TE", "TF", "TG", "TH"][i])));
        }
        // decimals are decided after the addresses are in order
        let decs: Vec<u32> = (0..ntok).map(|_| *c.pick(&[7u32, 7, 7, 6, 8])).collect();
        for (t, d) in toks.iter().zip(&decs) {
            w.must::<Val>(t, "init", args!(&w.env, *d, 0i128));
        }
        let mut users: Vec<Address> = (0..3).map(|_| w.addr()).collect();
        match c.below(8) {
            0 => users[2] = creators[0].clone(),
            1 => users[2] = admin.clone(),
            _ => {}
        }
        for u in &users {
            for t in &toks {
                mint(&w, t, u, 1i128 << 90);
            }
        }
        let out = w.addr();
        let mut feers: Vec<Address> = (0..2).map(|_| w.addr()).collect();
        match c.below(8) {
            0 => feers[1] = users[1].clone(),
            1 => feers[1] = admin.clone(),
            2 => feers[1] = creators[1].clone(),
            _ => {}
        }
        c.op(format!("factory with {} whitelisted, lp decimals {lp_dec}, token decimals {decs:?}", white.len()));
        Sys { hop: cfg.multihop_address, w, f, admin, toks, decs, pools: vec![], users, white, creators, lp_dec, hashes: h, other, out, feers }
    }

    fn pair(&self, a: usize, b: usize) -> Option<usize> {
        self.pools.iter().position(|p| (p.a, p.b) == (a, b) || (p.b, p.a) == (a, b))
    }
    fn bal(&self, t: &Address, who: &Address) -> i128 {
        self.w.native_balance(t, who)
    }
    /// balances of users, fee recipients, pools, multihop, outsider in all tokens
    fn bals(&self) -> Vec<Vec<i128>> {
        self.holders().iter().map(|h| self.toks.iter().map(|t| self.bal(t, h)).collect()).collect()
    }
    fn holders(&self) -> Vec<Address> {
        let mut v = self.users.clone();
        v.extend(self.feers.clone());
        v.push(self.hop.clone());
        v.push(self.f.clone());
        v.push(self.out.clone());
        v.extend(self.pools.iter().map(|p| p.addr.clone()));
        v
    }
    fn reserves(&self, p: usize) -> (i128, i128, i128) {
        let i: PoolResponse = self.w.must(&self.pools[p].addr, "query_pool_info", args!(&self.w.env));
        (i.asset_a.amount, i.asset_b.amount, i.asset_lp_share.amount)
    }
}

struct Plan {
    who: Address,
    a: usize,
    b: usize,
    stable: bool,
    amp: Option<u64>,
    info: LiquidityPoolInitInfo,
    slip: i64,
    maxfee: i64,
    name: String,
    sym: String,
}

fn plan(c: &mut Case, s: &Sys, wild: bool) -> Plan {
    let n = s.toks.len();
    let (mut a, mut b) = (c.below(n), c.below(n));
    if a == b {
        b = (a + 1) % n;
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let stable = c.p(40);
    let fee = *c.pick(&[0i64, 1, 30, 30, 100, 1000, 10_000]);
    let slip = c.range(0, 500) as i64;
    let mut p = Plan {
        who: c.pick(&s.white).clone(),
        a,
        b,
        stable,
        amp: if stable { Some(*c.pick(&[1u64, 5, 100, 1000, 1_000_000])) } else if c.p(20) { Some(7) } else { None },
        info: LiquidityPoolInitInfo {
            admin: match c.below(8) {
                0..=3 => s.admin.clone(),
                4 => s.creators[1].clone(),
                5 => s.feers[1].clone(),
                _ => s.w.addr(),
            },
            swap_fee_bps: fee,
            fee_recipient: c.pick(&s.feers).clone(),
            max_allowed_slippage_bps: c.range(500, 10_000) as i64,
            default_slippage_bps: slip,
            max_allowed_spread_bps: c.range(3000, 10_000) as i64,
            max_referral_bps: c.range(0, 10_000) as i64,
            token_init_info: TokenInitInfo { token_a: s.toks[a].clone(), token_b: s.toks[b].clone() },
            stake_init_info: StakeInitInfo {
                min_bond: c.amt(1000),
                min_reward: c.amt(1000),
                manager: if c.p(30) { s.users[0].clone() } else { s.w.addr() },
                max_complexity: if c.p(70) { c.range(1, 20) as u32 } else { c.amt(u32::MAX as i128) as u32 },
            },
        },
        slip,
        maxfee: (fee + *c.pick(&[0i64, 0, 1, 500])).min(10_000),
        name: format!("Pool {}", c.below(1000)),
        sym: format!("P{}", c.below(100)),
    };
    if wild {
        let bad = *c.pick(&[-1i64, 10_001, i64::MIN, i64::MAX, -5000]);
        match c.below(14) {
            0 => p.who = s.out.clone(),
            1 => p.who = c.pick(&s.creators).clone(),
            2 => p.info.swap_fee_bps = bad,
            3 => p.info.max_allowed_slippage_bps = bad,
            4 => p.info.max_allowed_spread_bps = bad,
            5 => p.info.max_referral_bps = bad,
            6 => {
                p.slip = bad;
                p.info.default_slippage_bps = bad;
            }
            7 => p.maxfee = bad,
            8 => p.maxfee = p.info.swap_fee_bps - 1,
            9 => p.info.stake_init_info.min_bond = c.range(-2, 0),
            10 => p.info.stake_init_info.min_reward = c.range(-2, 0),
            11 => {
                let t = &mut p.info.token_init_info;
                if c.p(50) {
                    std::mem::swap(&mut t.token_a, &mut t.token_b);
                } else {
                    t.token_b = t.token_a.clone();
                }
            }
            12 => {
                p.stable = true;
                p.amp = *c.pick(&[None, Some(0), Some(1_000_001), Some(u64::MAX)]);
            }
            _ => p.info.stake_init_info.max_complexity = 0,
        }
    }
    p
}

fn why_not(s: &Sys, p: &Plan) -> Option<&'static str> {
    let i = &p.info;
    let bps = |v: i64| (0..=10_000).contains(&v);
    if !s.white.contains(&p.who) {
        return Some("not whitelisted");
    }
    if p.stable && !p.amp.map_or(false, |a| (1..=1_000_000).contains(&a)) {
        return Some("amplification");
    }
    if i.token_init_info.token_a >= i.token_init_info.token_b {
        return Some("token order");
    }
    if i.stake_init_info.min_bond <= 0 || i.stake_init_info.min_reward <= 0 || i.stake_init_info.max_complexity == 0 {
        return Some("stake settings");
    }
    if ![i.swap_fee_bps, i.max_allowed_slippage_bps, i.max_allowed_spread_bps, i.max_referral_bps, p.slip, p.maxfee].into_iter().all(bps) {
        return Some("basis points");
    }
    if i.swap_fee_bps > p.maxfee {
        return Some("fee above maximum");
    }
    if s.pair(p.a, p.b).is_some() {
        return Some("pair exists");
    }
    None
}

fn create(c: &mut Case, s: &mut Sys, wild: bool) {
    let p = plan(c, s, wild);
    let why = why_not(s, &p);
    let pt = if p.stable { PoolType::Stable } else { PoolType::Xyk };
    c.op(format!(
        "create {} pool of tokens {}/{} fee={} maxfee={} amp={:?} slip={}/{} spread={} -> {why:?}",
        if p.stable { "stable" } else { "xyk" }, p.a, p.b, p.info.swap_fee_bps, p.maxfee, p.amp, p.slip, p.info.max_allowed_slippage_bps, p.info.max_allowed_spread_bps
    ));
    let w = &s.w;
    let a = args!(&w.env, p.who.clone(), p.info.clone(), w.s(&p.name), w.s(&p.sym), pt, p.amp, p.slip, p.maxfee);
    if c.on("P11") || c.on("P10") || (c.on("P15") && c.p(15)) {
        let mut bad = vec![s.out.clone(), s.users[0].clone()];
        bad.extend(s.creators.iter().cloned());
        bad.retain(|x| *x != p.who);
        let prop = c.prop.clone();
        twin(c, w, &prop, &s.f, "create_liquidity_pool", &a, Some(&p.who), &bad);
    }
    let d0 = w.digest();
    let r: Res<Address> = w.call(&s.f, "create_liquidity_pool", a);
    let au = w.authed();
    let ev = if c.on("P31") { crate::events::last(w, &s.f) } else { vec![] };
    let sig = (p.stable, p.a, p.b, p.info.swap_fee_bps, p.maxfee, p.amp, p.slip, why, s.pools.len());
    c.eval("P15", Some(sig));
    if why == Some("pair exists") {
        c.eval("P14", Some(("second", p.a, p.b, s.pools.len())));
        c.check("P14", r.is_err(), || format!("a second pool for tokens {}/{} was created", p.a, p.b));
    }
    if matches!(why, Some("basis points" | "fee above maximum" | "token order" | "stake settings" | "amplification")) {
        c.eval("P12", Some(("create", sig)));
        c.check("P12", r.is_err(), || format!("a pool with invalid settings ({why:?}) was created"));
    }
    if why == Some("not whitelisted") {
        c.eval("P10", Some(("create", sig)));
        c.check("P10", r.is_err(), || "an account off the whitelist created a pool".into());
    }
    match (&r, why) {
        (Ok(_), Some(x)) => c.check("P15", false, || format!("a pool was created in spite of: {x}")),
        (Err(e), None) => c.check_any(&["P15", "P14"], false, || format!("a pool with valid settings was refused: {e:?}")),
        (Err(_), Some(x)) => {
            c.count(&format!("creation refused: {x}"));
            let diff = digest_diff(&d0, &w.digest());
            c.check_any(&["P15", "P14", "P12"], diff.is_none(), || format!("a refused creation ({x}) changed {diff:?}"));
            if c.on("P31") {
                crate::events::none(c, "a pool creation", &ev);
            }
        }
        (Ok(addr), None) => {
            c.count("pool created");
            c.check_any(&["P15", "P11"], au.contains(&p.who), || "a pool was created without the creator's authorization".into());
            if c.on("P31") {
                c.eval("P31", Some(("create", s.pools.len())));
                crate::events::want(c, w, &ev, &["create", "liquidity_pool"], addr.clone());
            }
            let lp: Address = w.must(addr, "query_share_token_address", args!(&w.env));
            let stake: Address = w.must(addr, "query_stake_contract_address", args!(&w.env));
            let rec = Rec { addr: addr.clone(), stable: p.stable, a: p.a, b: p.b, lp, stake, info: p.info.clone(), amp: p.amp.unwrap_or(0), slip: p.slip };
            settings(c, s, &rec, &p);
            s.pools.push(rec);
        }
    }
}

/// What a new pool, its share token and its staking contract report.
fn settings(c: &mut Case, s: &Sys, r: &Rec, p: &Plan) {
    let w = &s.w;
    let e = &w.env;
    let i = &r.info;
    let ty = if r.stable { PoolType::Stable } else { PoolType::Xyk };
    let want = (i.token_init_info.token_a.clone(), i.token_init_info.token_b.clone(), ty, i.swap_fee_bps, i.fee_recipient.clone(), i.max_allowed_slippage_bps, i.max_allowed_spread_bps);
    let got = if r.stable {
        let x: StableConfig = w.must(&r.addr, "query_config", args!(e));
        c.check_any(&["P15", "P12"], x.default_slippage_bps == p.slip, || format!("default slippage {} instead of {}", x.default_slippage_bps, p.slip));
        (x.token_a, x.token_b, x.pool_type, x.total_fee_bps, x.fee_recipient, x.max_allowed_slippage_bps, x.max_allowed_spread_bps)
    } else {
        let x: XykConfig = w.must(&r.addr, "query_config", args!(e));
        c.check_any(&["P15", "P12"], x.max_referral_bps == i.max_referral_bps, || format!("maximum referral fee {} instead of {}", x.max_referral_bps, i.max_referral_bps));
        (x.token_a, x.token_b, x.pool_type, x.total_fee_bps, x.fee_recipient, x.max_allowed_slippage_bps, x.max_allowed_spread_bps)
    };
    c.check_any(&["P15", "P12"], want == got, || format!("the pool is configured {got:?}, requested {want:?}"));
    let name: soroban_sdk::String = w.must(&r.lp, "name", args!(e));
    let sym: soroban_sdk::String = w.must(&r.lp, "symbol", args!(e));
    let dec: u32 = w.must(&r.lp, "decimals", args!(e));
    let wd = if r.stable { s.decs[r.a].max(s.decs[r.b]) } else { s.lp_dec };
    c.check("P15", name == w.s(&p.name) && sym == w.s(&p.sym) && dec == wd, || format!("share token is {name:?} {sym:?} with {dec} decimals, requested {} {} with {wd}", p.name, p.sym));
    let sc: StakeConfigResponse = w.must(&r.stake, "query_config", args!(e));
    let si = &i.stake_init_info;
    let wc = StakeConfig { lp_token: r.lp.clone(), min_bond: si.min_bond, min_reward: si.min_reward, manager: si.manager.clone(), owner: s.f.clone(), max_complexity: si.max_complexity };
    c.check_any(&["P15", "P12"], sc.config == wc, || format!("staking is configured {:?}, requested {wc:?}", sc.config));
    if c.on("P15") {
        let code = [&r.addr, &r.stake, &r.lp].map(|x| w.code(x));
        let want = [if r.stable { 1 } else { 0 }, 2, 3].map(|i: usize| Some(s.hashes[i].clone()));
        c.check("P15", code == want, || format!("pool, staking and share token run {code:?}, the configured code is {want:?}"));
    }
    let adm: Address = w.must(&r.stake, "query_admin", args!(e));
    c.check("P15", adm == i.admin, || "the staking contract has another administrator than requested".into());
    // the administrator of the pool: who may set its settings (to what they are)
    if c.on("P15") || c.on("P10") {
        let n: Option<i64> = None;
        let a = if r.stable {
            args!(e, i.admin.clone(), None::<Address>, n, None::<Address>, n, n)
        } else {
            args!(e, None::<Address>, n, None::<Address>, n, n, n)
        };
        let prop = c.prop.clone();
        let mut bad = vec![p.who.clone(), s.f.clone(), si.manager.clone()];
        if i.admin != s.admin {
            bad.push(s.admin.clone());
        }
        // the factory is a contract: it signs nothing
        bad.retain(|x| *x != s.f && *x != i.admin);
        twin(c, w, &prop, &r.addr, "update_config", &a, Some(&i.admin), &bad);
    }
}

/// Default slippage and amplification show only in what the pool does.
fn behaves(c: &mut Case, s: &Sys, k: usize) {
    let r = &s.pools[k];
    let w = &s.w;
    let saved = w.save();
    let u = s.users[0].clone();
    let (ra, rb, ts) = s.reserves(k);
    let n: Option<i128> = None;
    let d: Option<u64> = None;
    let sl: Option<i64> = None;
    if r.stable {
        if ts > 0 && r.info.swap_fee_bps <= 1000 {
            let st = Stable { amp: r.amp, da: s.decs[r.a], db: s.decs[r.b] };
            let x = (ra / c.range(3, 100)).max(1);
            let sim: Res<SimulateSwapResponse> = w.call(&r.addr, "simulate_swap", args!(&w.env, s.toks[r.a].clone(), x));
            let t = [true, false].map(|m| st.swap(m, ra, st.da, rb, st.db, x, r.info.swap_fee_bps).map(|o| o.ret + o.comm));
            if let Ok(q) = sim {
                let g = q.ask_amount + q.commission_amount;
                c.eval("P15", Some(("amp", r.amp, ra, rb, x)));
                c.check("P15", t.iter().flatten().any(|v| (v - g).abs() <= 2), || format!("a pool requested with amplification {} trades {x} on ({ra}, {rb}) for {g}, expected {t:?}", r.amp));
            }
        }
    } else if ts > 0 && ra > 10_000 && rb > 10_000 {
        // a second deposit whose ratio is off by about the default slippage
        let a = ra / 7;
        let fit = zi(&zdiv(&(z(a) * z(rb)), &z(ra))).unwrap();
        let b = zi(&zdiv(&(z(fit) * z(10_000 - r.slip)), &z(10_000i64))).unwrap() + c.range(-3, 3);
        let (da, db) = if c.p(50) { (a, b.max(1)) } else { (a, fit + fit - b.max(1)) };
        if db <= 0 {
            return;
        }
        let exp = xyk_deposit((ra, rb, ts), (s.bal(&s.toks[r.a], &r.addr), s.bal(&s.toks[r.b], &r.addr)), Some(da), None, Some(db), None, r.slip);
        let got: Res<Val> = w.call(&r.addr, "provide_liquidity", args!(&w.env, u, Some(da), n, Some(db), n, sl, d));
        c.eval("P15", Some(("slippage", r.slip, ra, rb, da, db)));
        c.check("P15", got.is_ok() == exp.is_ok(), || format!("a pool requested with default slippage {}: a deposit of ({da}, {db}) on ({ra}, {rb}) gives {got:?}, expected {exp:?}", r.slip));
    }
    w.restore(&saved);
}

fn deposit(c: &mut Case, s: &Sys, k: usize, amt: i128) {
    let r = &s.pools[k];
    let w = &s.w;
    let u = c.pick(&s.users).clone();
    let (ra, rb, ts) = s.reserves(k);
    let (a, b) = if ts == 0 {
        let x = amt.max(3000);
        if r.stable {
            (x * 10i128.pow(s.decs[r.a]) / 10_000_000, x * 10i128.pow(s.decs[r.b]) / 10_000_000)
        } else {
            (x, (x / 100 * c.range(30, 300)).max(3000))
        }
    } else {
        let f = c.range(2, 100);
        ((ra / f).max(1), (rb / f).max(1))
    };
    let (a, b) = (a.max(1), b.max(1));
    let n: Option<i128> = None;
    let d: Option<u64> = None;
    let sl: Option<i64> = None;
    let ar = if r.stable { args!(&w.env, u, a, b, sl, d, None::<u128>) } else { args!(&w.env, u, Some(a), n, Some(b), n, Some(r.info.max_allowed_slippage_bps), d) };
    let res: Res<Val> = w.call(&r.addr, "provide_liquidity", ar);
    c.op(format!("deposit ({a}, {b}) into pool {k}: {}", res.is_ok()));
}

fn single(c: &mut Case, s: &Sys, k: usize) {
    let r = &s.pools[k];
    let (ra, rb, _) = s.reserves(k);
    let u = c.pick(&s.users).clone();
    let n: Option<i128> = None;
    let ain = c.p(50);
    let x = (if ain { ra } else { rb } / c.range(2, 1000)).max(1);
    let t = if ain { r.a } else { r.b };
    let res: Res<i128> = s.w.call(&r.addr, "swap", args!(&s.w.env, u, s.toks[t].clone(), x, n, None::<i64>, None::<u64>, None::<i64>));
    c.op(format!("swap {x} in pool {k}: {res:?}"));
}

/// LP transfers, bonds, unbonds, withdrawals: the portfolio's ground.
fn shares(c: &mut Case, s: &Sys, k: usize) {
    let r = &s.pools[k];
    let w = &s.w;
    let u = c.pick(&s.users).clone();
    let v = c.pick(&s.users).clone();
    let have = s.bal(&r.lp, &u);
    match c.below(4) {
        0 if have > 0 => {
            // a few shares alone may be worth nothing of one token
            let v = if c.p(30) { s.out.clone() } else { v };
            let x = if c.p(40) { c.range(1, 10) } else { c.range(1, have) }.min(have);
            w.must::<Val>(&r.lp, "transfer", args!(&w.env, u, v, x));
            c.op(format!("LP transfer {x} in pool {k}"));
        }
        1 | 2 => {
            let x = c.range(r.info.stake_init_info.min_bond, have.max(1));
            let q: Res<Val> = w.call(&r.stake, "bond", args!(&w.env, u, x));
            c.op(format!("bond {x} in pool {k}: {}", q.is_ok()));
            if c.p(30) {
                w.advance(c.range(1, 100) as u64);
            }
        }
        _ => {
            let st: StakedResponse = w.must(&r.stake, "query_staked", args!(&w.env, u.clone()));
            if let Some(x) = st.stakes.first() {
                let q: Res<Val> = w.call(&r.stake, "unbond", args!(&w.env, u, x.stake, x.stake_timestamp));
                c.op(format!("unbond {} in pool {k}: {}", x.stake, q.is_ok()));
            } else if have > 0 {
                let x = if c.p(30) { have } else { c.range(1, have) };
                let q: Res<Val> = w.call(&r.addr, "withdraw_liquidity", args!(&w.env, u, x, 1i128, 1i128, None::<u64>));
                c.op(format!("withdraw {x} of {have} in pool {k}: {}", q.is_ok()));
            }
        }
    }
}

fn registry(c: &mut Case, s: &Sys) {
    let w = &s.w;
    let e = &w.env;
    let d0 = w.digest();
    let q: SVec<Address> = w.must(&s.f, "query_pools", args!(e));
    let got: Vec<Address> = q.iter().collect();
    let want: Vec<Address> = s.pools.iter().map(|p| p.addr.clone()).collect();
    c.eval("P14", Some(("list", want.len(), s.pools.last().map(|p| (p.a, p.b)))));
    c.check("P14", got == want, || format!("the factory lists {got:?}, created {want:?}"));
    let all: SVec<LiquidityPoolInfo> = w.must(&s.f, "query_all_pools_details", args!(e));
    let direct: Vec<LiquidityPoolInfo> = s.pools.iter().map(|p| w.must(&p.addr, "query_pool_info_for_factory", args!(e))).collect();
    c.check("P14", all.iter().collect::<Vec<_>>() == direct, || format!("details {all:?} differ from the pools' own {direct:?}"));
    for (k, p) in s.pools.iter().enumerate() {
        let one: LiquidityPoolInfo = w.must(&s.f, "query_pool_details", args!(e, p.addr.clone()));
        c.eval("P14", Some(("details", k, one.pool_response.asset_a.amount, one.pool_response.asset_lp_share.amount)));
        c.check("P14", one == direct[k], || format!("details of pool {k}: {one:?}, the pool itself {:?}", direct[k]));
        let i = &one.pool_response;
        c.check("P14", one.pool_address == p.addr && i.asset_a.address == s.toks[p.a] && i.asset_b.address == s.toks[p.b] && i.asset_lp_share.address == p.lp && i.stake_address == p.stake && one.total_fee_bps == p.info.swap_fee_bps, || {
            format!("details of pool {k} name other contracts than created: {one:?}")
        });
        c.check("P14", i.asset_a.amount <= s.bal(&s.toks[p.a], &p.addr) && i.asset_b.amount <= s.bal(&s.toks[p.b], &p.addr), || format!("details of pool {k} report more than it holds: {one:?}"));
    }
    let n = s.toks.len();
    for a in 0..n {
        for b in 0..n {
            let r: Res<Address> = w.call(&s.f, "query_for_pool_by_token_pair", args!(e, s.toks[a].clone(), s.toks[b].clone()));
            let want = if a == b { None } else { s.pair(a, b).map(|k| s.pools[k].addr.clone()) };
            c.eval("P14", if want.is_some() { Some(("pair", a, b, s.pools.len())) } else { None });
            c.check("P14", r.clone().ok() == want, || format!("the pool of tokens {a}/{b} is looked up as {r:?}, expected {want:?}"));
        }
    }
    let r: Res<Val> = w.call(&s.f, "query_pool_details", args!(e, s.out.clone()));
    c.check("P14", r.is_err(), || "details of a pool that does not exist".into());
    let cfg: FactoryConfig = w.must(&s.f, "get_config", args!(e));
    let wl: Vec<Address> = cfg.whitelisted_accounts.iter().collect();
    let adm: Address = w.must(&s.f, "get_admin", args!(e));
    c.check_any(&["P15", "P10"], uniq(&wl) == uniq(&s.white) && uniq(&wl).len() == wl.len(), || format!("the whitelist is {wl:?}, expected {:?}", s.white));
    c.check_any(&["P15", "P10", "P12"], cfg.admin == s.admin && adm == s.admin && cfg.multihop_address == s.hop && cfg.lp_token_decimals == s.lp_dec && cfg.lp_wasm_hash == s.hashes[0] && cfg.stake_wasm_hash == s.hashes[2] && cfg.token_wasm_hash == s.hashes[3], || {
        format!("the factory is configured {cfg:?}")
    });
    for (ui, u) in s.users.iter().chain([&s.out]).enumerate() {
        let staking = c.p(60);
        let r: Res<UserPortfolio> = w.call(&s.f, "query_user_portfolio", args!(e, u.clone(), staking));
        let mut lp = vec![];
        let mut st = vec![];
        for (k, p) in s.pools.iter().enumerate() {
            let q: StakedResponse = w.must(&p.stake, "query_staked", args!(e, u.clone()));
            let shares = s.bal(&p.lp, u) + q.stakes.iter().map(|x| x.stake).sum::<i128>();
            let (ra, rb, ts) = s.reserves(k);
            if shares > 0 {
                let (x, y) = withdraw(ra, rb, ts, shares).unwrap();
                lp.push((s.toks[p.a].clone(), x, s.toks[p.b].clone(), y));
            }
            if staking && !q.stakes.is_empty() {
                st.push((p.stake.clone(), q.stakes.iter().map(|x| (x.stake, x.stake_timestamp)).collect::<Vec<_>>()));
            }
        }
        c.eval("P14", if lp.is_empty() { None } else { Some(("portfolio", ui, lp.iter().map(|x| (x.1, x.3)).collect::<Vec<_>>())) });
        match r {
            Err(e) => c.check("P14", false, || format!("the portfolio of user {ui} cannot be queried: {e:?}")),
            Ok(g) => {
                let glp: Vec<_> = g.lp_portfolio.iter().map(|x| (x.assets.0.address, x.assets.0.amount, x.assets.1.address, x.assets.1.amount)).collect();
                let gst: Vec<_> = g.stake_portfolio.iter().map(|x| (x.staking_contract, x.stakes.iter().map(|y| (y.stake, y.stake_timestamp)).collect::<Vec<_>>())).collect();
                c.check("P14", glp == lp, || format!("portfolio of user {ui} reports {glp:?}, owns {lp:?}"));
                c.check("P14", gst == st, || format!("portfolio of user {ui} reports stakes {gst:?}, has {st:?}"));
            }
        }
    }
    let diff = digest_diff(&d0, &w.digest());
    c.check_any(&["P14", "P13"], diff.is_none(), || format!("a factory query changed {diff:?}"));
}

fn whitelist(c: &mut Case, s: &mut Sys) {
    let w = &s.w;
    let by = if c.p(80) { s.admin.clone() } else { c.pick(&s.creators).clone() };
    let mut add = vec![];
    let mut del = vec![];
    for x in &s.creators {
        match c.below(5) {
            0 | 1 => add.push(x.clone()),
            2 => del.push(x.clone()),
            3 if c.p(20) => {
                add.push(x.clone());
                add.push(x.clone());
            }
            _ => {}
        }
    }
    if c.p(20) {
        // removed wins over added in the same call
        if let Some(x) = add.first() {
            del.push(x.clone());
        }
    }
    let (va, vd) = (svec(w, &add), svec(w, &del));
    let a = args!(&w.env, by.clone(), va, vd);
    if c.on("P10") {
        let bad: Vec<Address> = [&s.out, &s.creators[0], &s.creators[1]].into_iter().filter(|x| **x != s.admin).cloned().collect();
        let own = if by == s.admin { Some(by.clone()) } else { None };
        twin(c, w, "P10", &s.f, "update_whitelisted_accounts", &a, own.as_ref(), &bad);
    }
    let d0 = w.digest();
    let r: Res<Val> = w.call(&s.f, "update_whitelisted_accounts", a);
    c.op(format!("whitelist +{} -{} by admin={}: {}", add.len(), del.len(), by == s.admin, r.is_ok()));
    c.eval("P15", Some(("whitelist", add.len(), del.len(), by == s.admin, s.white.len())));
    c.check_any(&["P15", "P10"], r.is_ok() == (by == s.admin), || format!("whitelist change by the administrator={}: {r:?}", by == s.admin));
    if r.is_ok() {
        for x in add {
            if !s.white.contains(&x) {
                s.white.push(x);
            }
        }
        s.white.retain(|x| !del.contains(x));
    } else {
        let diff = digest_diff(&d0, &w.digest());
        c.check_any(&["P15", "P10"], diff.is_none(), || format!("a refused whitelist change changed {diff:?}"));
    }
    let cfg: FactoryConfig = w.must(&s.f, "get_config", args!(&w.env));
    let wl: Vec<Address> = cfg.whitelisted_accounts.iter().collect();
    c.check_any(&["P15", "P10"], uniq(&wl) == uniq(&s.white), || format!("after a change the whitelist is {wl:?}, expected {:?}", s.white));
    if s.white.is_empty() {
        // keep the history going
        let list = svec(w, &s.creators[..1]);
        w.must::<Val>(&s.f, "update_whitelisted_accounts", args!(&w.env, s.admin.clone(), list, SVec::<Address>::new(&w.env)));
        s.white.push(s.creators[0].clone());
    }
}

/// Stored code hashes: changed by the administrator only, kept where not named.
fn code(c: &mut Case, s: &mut Sys) {
    let w = &s.w;
    let junk = BytesN::from_array(&w.env, &[7u8; 32]);
    let pick = |c: &mut Case, h: &BytesN<32>| if c.p(40) { Some(if c.p(50) { junk.clone() } else { h.clone() }) } else { None };
    let (l, k, t) = (pick(c, &s.hashes[0]), pick(c, &s.hashes[2]), pick(c, &s.hashes[3]));
    let a = args!(&w.env, l.clone(), k.clone(), t.clone());
    let bad: Vec<Address> = [&s.out, &s.creators[0], &s.users[0]].into_iter().filter(|x| **x != s.admin).cloned().collect();
    twin(c, w, "P10", &s.f, "update_wasm_hashes", &a, Some(&s.admin), &bad);
    let saved = w.save();
    let r: Res<Val> = w.call(&s.f, "update_wasm_hashes", a);
    let cfg: FactoryConfig = w.must(&s.f, "get_config", args!(&w.env));
    let want = (l.clone().unwrap_or(s.hashes[0].clone()), k.clone().unwrap_or(s.hashes[2].clone()), t.clone().unwrap_or(s.hashes[3].clone()));
    c.op(format!("update hashes lp={} stake={} token={}", l.is_some(), k.is_some(), t.is_some()));
    c.eval("P15", Some(("hashes", l.is_some(), k.is_some(), t.is_some(), s.pools.len())));
    c.check_any(&["P15", "P10"], r.is_ok() && (cfg.lp_wasm_hash.clone(), cfg.stake_wasm_hash.clone(), cfg.token_wasm_hash.clone()) == want, || format!("after a change of the code hashes they are {cfg:?}, expected {want:?}: {r:?}"));
    c.check_any(&["P15", "P10"], cfg.admin == s.admin && cfg.multihop_address == s.hop && cfg.whitelisted_accounts.len() as usize == s.white.len() && cfg.lp_token_decimals == s.lp_dec, || format!("a change of code hashes changed other settings: {cfg:?}"));
    w.restore(&saved);
    // now for real: the same programs under other hashes
    let pos = |c: &mut Case, i: usize| if c.p(40) { Some(s.other[i].clone()) } else { None };
    let (l, k, t, st) = (pos(c, 0), pos(c, 2), pos(c, 3), pos(c, 1));
    w.must::<Val>(&s.f, "update_wasm_hashes", args!(&w.env, l.clone(), k.clone(), t.clone()));
    if let Some(st) = &st {
        let own = w.hashes["phoenix_factory"].clone();
        w.must::<Val>(&s.f, "update", args!(&w.env, own, st.clone()));
    }
    for (i, x) in [(0, l), (1, st), (2, k), (3, t)] {
        if let Some(x) = x {
            c.op(format!("program {i} gets another hash"));
            s.other[i] = std::mem::replace(&mut s.hashes[i], x);
        }
    }
    let hop = s.hop.clone();
    reinstall(c, &mut s.w, &hop, "phoenix_multihop");
    let w = &s.w;
    let hash = w.hashes["soroban_token_contract"].clone();
    twin(c, w, "P10", &s.f, "update", &args!(&w.env, hash.clone(), hash.clone()), Some(&s.admin), &bad);
    twin(c, w, "P10", &s.hop, "update", &args!(&w.env, hash), Some(&s.admin), &bad);
}

fn again(c: &mut Case, s: &Sys) {
    let w = &s.w;
    let h = &s.hashes;
    let list = svec(w, &s.creators);
    let mh = w.hashes["phoenix_multihop"].clone();
    let a = args!(&w.env, s.out.clone(), mh, h[0].clone(), h[1].clone(), h[2].clone(), h[3].clone(), list, 7u32);
    once(c, w, &s.f, a);
    once(c, w, &s.hop, args!(&w.env, s.out.clone(), s.f.clone()));
}

/// A contract that is initialized cannot be initialized again, by anyone.
pub fn once(c: &mut Case, w: &W, con: &Address, a: SVec<Val>) {
    let (r, diff) = w.watched(Auth::All, con, "initialize", a);
    c.op("initialize again".into());
    c.eval("P12", Some(("again", hash_of(&format!("{:?}", w.digest().len())), c.idx, c.trace.len())));
    c.check("P12", r.is_err(), || "a contract was initialized a second time".into());
    c.check("P12", diff.is_none(), || format!("a second initialization changed {diff:?}"));
}

pub fn factory(c: &mut Case) {
    let n = c.range(3, 6) as usize;
    let mut s = Sys::new(c, n);
    registry(c, &s);
    let auth = if c.on("P10") || c.on("P15") { 12 } else if c.on("P30") { 4 } else { 0 };
    let wl = if c.on("P15") || c.on("P10") { 14 } else { 5 };
    for step in 0..30 {
        if c.bad() {
            return;
        }
        let np = s.pools.len();
        let k = if np > 0 { c.below(np) } else { 0 };
        let op = c.weighted(&[(26, "create"), (14, "wild"), (if np > 0 { 16 } else { 0 }, "deposit"), (if np > 0 { 10 } else { 0 }, "swap"), (if np > 0 { 24 } else { 0 }, "shares"), (wl, "white"), (auth, "code"), (if c.on("P12") { 10 } else { 2 }, "again"), (if np > 0 && c.on("P15") { 15 } else { 0 }, "behaves")]);
        match op {
            "create" => create(c, &mut s, false),
            "wild" => create(c, &mut s, true),
            "deposit" => {
                let amt = c.amt(1_000_000_000_000);
                deposit(c, &s, k, amt)
            }
            "swap" => single(c, &s, k),
            "shares" => shares(c, &s, k),
            "white" => whitelist(c, &mut s),
            "code" => code(c, &mut s),
            "again" => again(c, &s),
            _ => behaves(c, &s, k),
        }
        if c.on("P14") && !c.bad() && (step % 5 == 4 || op == "create") {
            registry(c, &s);
        }
    }
    registry(c, &s);
}

// ------------------------------------------------------------------------------------ multihop

struct Route {
    hops: Vec<(usize, usize)>,
    min: Vec<Option<i128>>,
}

impl Route {
    fn ops(&self, s: &Sys, reverse: bool) -> SVec<Swap> {
        let mut v: Vec<Swap> = self
            .hops
            .iter()
            .zip(&self.min)
            .map(|((a, b), m)| Swap { offer_asset: s.toks[*a].clone(), ask_asset: s.toks[*b].clone(), ask_asset_min_amount: *m })
            .collect();
        if reverse {
            v.reverse();
        }
        svec(&s.w, &v)
    }
}

fn route(c: &mut Case, s: &Sys) -> Route {
    let n = if c.p(20) { c.range(5, 7) } else { c.range(1, 4) } as usize;
    let mut hops = vec![];
    let mut at = c.below(s.toks.len());
    for _ in 0..n {
        // along existing pools
        let next: Vec<usize> = (0..s.toks.len()).filter(|t| *t != at && s.pair(at, *t).is_some()).collect();
        if next.is_empty() {
            break;
        }
        let t = *c.pick(&next);
        hops.push((at, t));
        at = t;
    }
    if c.p(4) || hops.is_empty() {
        // broken: a hop without a pool, or one that does not connect
        let x = (c.below(s.toks.len()), c.below(s.toks.len()));
        hops.push(x);
    }
    if c.p(2) {
        hops.clear();
    }
    if hops.len() > 1 && c.p(3) {
        let i = c.below(hops.len());
        hops.remove(i);
    }
    let min = hops.iter().map(|_| None).collect();
    Route { hops, min }
}

fn connected(h: &[(usize, usize)]) -> bool {
    h.windows(2).all(|w| w[0].1 == w[1].0)
}

/// The same swaps one by one on a copy: final amount and balances.
fn one_by_one(s: &Sys, u: &Address, r: &Route, amount: i128, spread: Option<i64>, dl: Option<u64>, maxfee: Option<i64>) -> (Option<Vec<i128>>, Vec<Vec<i128>>, Vec<(i128, i128, i128)>) {
    let mut x = amount;
    let mut got = vec![];
    let mut ok = !r.hops.is_empty() && connected(&r.hops);
    for ((a, b), m) in r.hops.iter().zip(&r.min) {
        if !ok {
            break;
        }
        match if a == b { None } else { s.pair(*a, *b) } {
            None => ok = false,
            Some(k) => {
                let q: Res<i128> = s.w.call(&s.pools[k].addr, "swap", args!(&s.w.env, u.clone(), s.toks[*a].clone(), x, *m, spread, dl, maxfee));
                match q {
                    Ok(v) => {
                        x = v;
                        got.push(v);
                    }
                    Err(_) => ok = false,
                }
            }
        }
    }
    let b = s.bals();
    let res = (0..s.pools.len()).map(|k| s.reserves(k)).collect();
    (if ok { Some(got) } else { None }, b, res)
}

fn hop_swap(c: &mut Case, s: &Sys) {
    let w = &s.w;
    let u = c.pick(&s.users).clone();
    let mut r = route(c, s);
    let first = r.hops.first().and_then(|(a, b)| if a == b { None } else { s.pair(*a, *b) });
    let base = first.map_or(1000, |k| {
        let (ra, rb, _) = s.reserves(k);
        if s.pools[k].a == r.hops[0].0 { ra } else { rb }
    });
    let amount = match c.below(8) {
        0 => c.range(1, 100),
        1 => base.max(1),
        2 => c.range(-1, 1),
        _ => (base / c.range(2, 5000)).max(1),
    };
    // limits around what happens without limits
    let saved = w.save();
    let free = one_by_one(s, &u, &r, amount, None, None, None);
    w.restore(&saved);
    if let Some(got) = &free.0 {
        for k in 0..got.len() {
            if c.p(35) {
                r.min[k] = Some(match c.below(4) {
                    0 => got[k],
                    1 => got[k] + 1,
                    2 => (got[k] - 1).max(1),
                    _ => c.amt(got[k].max(2)),
                });
                if c.p(60) {
                    r.min[k] = Some(got[k]);
                }
            }
        }
    }
    let spread = if c.p(15) { Some(c.range(0, 3000) as i64) } else { None };
    let dl = match c.below(12) {
        0 => Some(w.now()),
        1 => Some(w.now() - 1),
        2 => Some(*c.pick(&[0, 1, u64::MAX])),
        _ => None,
    };
    let fees: Vec<i64> = r.hops.iter().filter_map(|(a, b)| if a == b { None } else { s.pair(*a, *b) }).map(|k| s.pools[k].info.swap_fee_bps).collect();
    let maxfee = if c.p(15) && !fees.is_empty() { Some(*c.pick(&fees) + c.range(-1, 1) as i64) } else { None };
    let pt = if c.p(50) { PoolType::Xyk } else { PoolType::Stable };
    let pre = s.bals();
    let pre_res: Vec<_> = (0..s.pools.len()).map(|k| s.reserves(k)).collect();
    let exp = one_by_one(s, &u, &r, amount, spread, dl, maxfee);
    w.restore(&saved);
    let a = args!(&w.env, u.clone(), r.ops(s, false), spread, amount, pt, dl, maxfee);
    if c.on("P11") {
        let bad = [s.out.clone(), s.users.iter().find(|x| **x != u).unwrap().clone()];
        twin(c, w, "P11", &s.hop, "swap", &a, None, &bad);
    }
    let fsim: Option<Res<HopSim>> = if c.on("P17") { Some(w.call(&s.hop, "simulate_swap", args!(&w.env, r.ops(s, false), amount, pt))) } else { None };
    c.op(format!("route {:?} min={:?} amount={amount} spread={spread:?} deadline={dl:?} maxfee={maxfee:?} now={} kinds={:?}", r.hops, r.min, w.now(), r.hops.iter().map(|h| s.pair(h.0, h.1).map(|k| s.pools[k].stable)).collect::<Vec<_>>()));
    let got: Res<Val> = w.call(&s.hop, "swap", a);
    let au = w.authed();
    let post = s.bals();
    let post_res: Vec<_> = (0..s.pools.len()).map(|k| s.reserves(k)).collect();
    let sig = (r.hops.clone(), amount, r.min.clone(), spread, maxfee, pre_res.clone());
    c.eval("P16", Some(sig.clone()));
    match (&got, &exp.0) {
        (Ok(_), Some(steps)) => {
            c.count(&format!("route of {} executed", r.hops.len()));
            c.check("P16", post == exp.1 && post_res == exp.2, || format!("the route leaves balances {post:?} and reserves {post_res:?}, single swaps {:?} and {:?}", exp.1, exp.2));
            let hi = s.holders().iter().position(|h| *h == s.hop).unwrap();
            c.check("P16", post[hi] == pre[hi], || format!("the router keeps {:?}, before {:?}", post[hi], pre[hi]));
            let ui = s.users.iter().position(|x| *x == u).unwrap();
            let (from, to) = (r.hops[0].0, r.hops.last().unwrap().1);
            for t in 0..s.toks.len() {
                // a trader who is a fee recipient gets commissions as well
                if s.feers.contains(&u) {
                    break;
                }
                let d = post[ui][t] - pre[ui][t];
                let want = if t == from { -amount } else { 0 } + if t == to { *steps.last().unwrap() } else { 0 };
                c.check("P16", d == want, || format!("the trader's balance of token {t} moved by {d} instead of {want}"));
            }
            for (i, (x, y)) in pre.iter().zip(&post).enumerate() {
                let h = &s.holders()[i];
                if x.iter().zip(y).any(|(x, y)| y < x) && s.users.contains(h) {
                    c.eval("P11", Some(("route", sig.clone())));
                    c.check("P11", au.contains(h), || "a route took tokens of an account that did not authorize it".into());
                }
            }
            // a route that comes back to a pool meets it changed: the simulation does not know that
            let mut ks: Vec<_> = r.hops.iter().filter_map(|h| s.pair(h.0, h.1)).collect();
            ks.sort();
            let once = ks.windows(2).all(|w| w[0] != w[1]);
            if let (Some(f), true) = (fsim, once) {
                c.eval("P17", Some(("then swap", sig)));
                c.check("P17", f.as_ref().map(|x| x.ask_amount).ok() == steps.last().copied(), || format!("simulated {f:?}, the swap then paid {steps:?}"));
            }
        }
        (Ok(_), None) => c.check("P16", false, || format!("a route was executed of which a single swap fails (min {:?}, spread {spread:?}, fee cap {maxfee:?}, deadline {dl:?}, now {})", r.min, w.now())),
        (Err(e), Some(_)) => c.check("P16", false, || format!("a route was refused ({e:?}) of which all single swaps succeed")),
        (Err(_), None) => {
            c.count("route refused");
            c.check("P16", post == pre && post_res == pre_res, || "a refused route changed balances or reserves".into());
            let diff = digest_diff(&digest_of(&saved, w), &w.digest());
            c.check("P16", diff.is_none(), || format!("a refused route changed {diff:?}"));
        }
    }
}

fn digest_of(m: &Saved, w: &W) -> Vec<(std::rc::Rc<soroban_sdk::xdr::LedgerKey>, std::rc::Rc<soroban_sdk::xdr::LedgerEntry>)> {
    let now = w.save();
    w.restore(m);
    let d = w.digest();
    w.restore(&now);
    d
}

fn hop_sim(c: &mut Case, s: &Sys) {
    let w = &s.w;
    let e = &w.env;
    let r = route(c, s);
    let kinds: Vec<bool> = r.hops.iter().filter_map(|h| s.pair(h.0, h.1)).map(|k| s.pools[k].stable).collect();
    let pt = match kinds.first() {
        Some(true) => PoolType::Stable,
        Some(false) => PoolType::Xyk,
        None => PoolType::Xyk,
    };
    let amount = c.amt(1_000_000_000);
    let d0 = w.digest();
    let well = !r.hops.is_empty() && connected(&r.hops) && r.hops.iter().all(|h| h.0 != h.1 && s.pair(h.0, h.1).is_some());
    // forwards: the pools' own answers chained
    let mut x = amount;
    let mut want: Option<(i128, Vec<i128>, Vec<i128>)> = if well { Some((0, vec![], vec![])) } else { None };
    for (a, b) in &r.hops {
        let Some(acc) = &mut want else { break };
        let k = s.pair(*a, *b).unwrap();
        let q: Res<SimulateSwapResponse> = w.call(&s.pools[k].addr, "simulate_swap", args!(e, s.toks[*a].clone(), x));
        match q {
            Ok(q) => {
                x = q.ask_amount;
                acc.0 = x;
                acc.1.push(q.commission_amount);
                acc.2.push(q.spread_amount);
            }
            Err(_) => want = None,
        }
    }
    c.op(format!("simulate route {:?} amount={amount} -> {want:?}", r.hops));
    let got: Res<HopSim> = w.call(&s.hop, "simulate_swap", args!(e, r.ops(s, false), amount, pt));
    let sym = |t: usize| -> soroban_sdk::String { w.must(&s.toks[t], "symbol", args!(e)) };
    if let Ok(g) = &got {
        let (is, to): (Vec<_>, Vec<_>) = (g.commission_amounts.iter().map(|x| x.0).collect(), r.hops.iter().map(|h| sym(h.0)).collect());
        c.check("P17", is == to, || format!("the commissions of route {:?} are labelled {is:?} instead of {to:?}", r.hops));
    }
    let g = got.as_ref().ok().map(|g| (g.ask_amount, g.commission_amounts.iter().map(|x| x.1).collect::<Vec<_>>(), g.spread_amount.iter().collect::<Vec<_>>()));
    c.eval("P17", if want.is_some() { Some(("forward", r.hops.clone(), amount, want.clone())) } else { None });
    c.check("P17", g == want, || format!("route {:?} of {amount} is simulated as {got:?}, the pools' own simulations give {want:?}", r.hops));
    // backwards: only over pools of one kind, because the caller names the kind
    if kinds.windows(2).all(|k| k[0] == k[1]) {
        let mut y = amount;
        let mut want: Option<(i128, Vec<i128>, Vec<i128>)> = if well { Some((0, vec![], vec![])) } else { None };
        for (a, b) in r.hops.iter().rev() {
            let Some(acc) = &mut want else { break };
            let k = s.pair(*a, *b).unwrap();
            let t = if s.pools[k].stable { *a } else { *b };
            let q: Res<SimulateReverseSwapResponse> = w.call(&s.pools[k].addr, "simulate_reverse_swap", args!(e, s.toks[t].clone(), y));
            match q {
                Ok(q) => {
                    y = q.offer_amount;
                    acc.0 = y;
                    acc.1.push(q.commission_amount);
                    acc.2.push(q.spread_amount);
                }
                Err(_) => want = None,
            }
        }
        let got: Res<HopRevSim> = w.call(&s.hop, "simulate_reverse_swap", args!(e, r.ops(s, true), amount, pt));
        if let Ok(g) = &got {
            // in the order of the hops from the last to the first
            let (is, to): (Vec<_>, Vec<_>) = (g.commission_amounts.iter().map(|x| x.0).collect(), r.hops.iter().rev().map(|h| sym(h.1)).collect());
            c.check("P17", is == to, || format!("the commissions of the reverse route {:?} are labelled {is:?} instead of {to:?}", r.hops));
        }
        let g = got.as_ref().ok().map(|g| (g.offer_amount, g.commission_amounts.iter().map(|x| x.1).collect::<Vec<_>>(), g.spread_amount.iter().collect::<Vec<_>>()));
        c.eval("P17", if want.is_some() { Some(("reverse", r.hops.clone(), amount, want.clone())) } else { None });
        c.check("P17", g == want, || format!("route {:?} for {amount} is reverse-simulated as {got:?}, the pools' own simulations give {want:?}", r.hops));
    }
    let diff = digest_diff(&d0, &w.digest());
    c.check("P17", diff.is_none(), || format!("a simulation changed {diff:?}"));
}

pub fn multihop(c: &mut Case) {
    let n = c.range(3, 5) as usize;
    let mut s = Sys::new(c, n);
    let kind = c.below(3);
    // pools over many pairs
    for a in 0..n {
        for b in a + 1..n {
            if !c.p(75) {
                continue;
            }
            let mut p = plan(c, &s, false);
            p.a = a;
            p.b = b;
            p.stable = match kind {
                0 => false,
                1 => true,
                _ => c.p(40),
            };
            p.amp = Some(*c.pick(&[5u64, 100, 1000]));
            p.info.swap_fee_bps = *c.pick(&[0i64, 1, 30, 100, 300]);
            p.maxfee = 10_000;
            p.info.token_init_info = TokenInitInfo { token_a: s.toks[a].clone(), token_b: s.toks[b].clone() };
            let w = &s.w;
            let addr: Address = w.must(&s.f, "create_liquidity_pool", args!(&w.env, p.who.clone(), p.info.clone(), w.s("P"), w.s("P"), if p.stable { PoolType::Stable } else { PoolType::Xyk }, p.amp, p.slip, p.maxfee));
            let lp: Address = w.must(&addr, "query_share_token_address", args!(&w.env));
            let stake: Address = w.must(&addr, "query_stake_contract_address", args!(&w.env));
            s.pools.push(Rec { addr, stable: p.stable, a, b, lp, stake, info: p.info, amp: p.amp.unwrap(), slip: p.slip });
            let k = s.pools.len() - 1;
            if c.p(95) {
                let big = *c.pick(&[1_000_000i128, 10_000_000_000, 1_000_000_000_000]);
                let amt = c.range(big / 50, big);
                deposit(c, &s, k, amt);
            }
        }
    }
    for _ in 0..25 {
        if c.bad() {
            return;
        }
        match c.weighted(&[(50, "swap"), (if c.on("P17") { 50 } else { 0 }, "sim"), (6, "single"), (4, "time")]) {
            "swap" => hop_swap(c, &s),
            "sim" => hop_sim(c, &s),
            "single" if !s.pools.is_empty() => {
                let k = c.below(s.pools.len());
                single(c, &s, k)
            }
            _ => s.w.advance(c.range(1, 1000) as u64),
        }
    }
}

pub fn specs() -> Vec<Spec> {
    let s = |id, n: &'static str, w: crate::Work, quick, rule| Spec { id, work: vec![(1, n, w)], scripted: vec![], quick, thorough: quick * 40, rule };
    vec![
        s("P14", "factory", factory, 70, "random histories of pool creations (valid, invalid in one respect, repeated pairs), deposits, swaps, LP transfers, bonds and withdrawals under the real factory; non-trivial when a listing, lookup, detail or portfolio was compared in a state distinct from all earlier ones"),
        s("P15", "factory", factory, 300, "random histories of whitelist changes and pool creations valid and invalid in one respect; non-trivial when a creation or whitelist change with distinct parameters was judged"),
        s("P16", "multihop", multihop, 170, "random routes of 1-7 hops over pools of both kinds with limits at their boundaries, compared with the single swaps on a copy of the same ledger; non-trivial when route, limits and reserves are distinct"),
        s("P17", "multihop", multihop, 130, "random routes of 1-7 hops simulated forwards and backwards and compared with the pools' own chained simulations and the executed swap; non-trivial when route, amount and result are distinct"),
    ]
}
