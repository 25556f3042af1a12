//! First and repeated initialization of every contract, with one or several settings at, just inside or
//! outside their bounds.
use crate::core::*;
use crate::types::*;
use crate::{args, pool};
use soroban_sdk::{Address, BytesN, Val, Vec as SVec};

fn bps(c: &mut Case, wild: bool) -> i64 {
    if wild {
        *c.pick(&[-1i64, 10_001, i64::MIN, i64::MAX, -10_000, 20_000, 65_536 + 100])
    } else {
        *c.pick(&[0i64, 1, 30, 100, 5_000, 9_999, 10_000])
    }
}

/// The call has to be refused without trace (`why`) or to succeed.
fn judge(c: &mut Case, w: &W, con: &Address, f: &'static str, a: SVec<Val>, why: &[String], what: String) -> bool {
    let (r, diff) = w.watched(Auth::All, con, f, a);
    c.op(format!("{f} of {what}, wrong: {why:?} -> {}", if r.is_ok() { "ok".into() } else { format!("{r:?}") }));
    c.count(&format!("{} {}", what.split(' ').next().unwrap(), if why.is_empty() { "valid".into() } else { why.join("+") }));
    c.eval("P12", Some((f, what.clone(), why.to_vec())));
    if why.is_empty() {
        c.check("P12", r.is_ok(), || format!("a valid {f} ({what}) was refused: {r:?}"));
    } else {
        c.check("P12", r.is_err(), || format!("{f} ({what}) was accepted in spite of {why:?}"));
        c.check("P12", diff.is_none(), || format!("a refused {f} changed {diff:?}"));
    }
    r.is_ok() && why.is_empty()
}

fn again(c: &mut Case, w: &W, con: &Address, f: &'static str, a: SVec<Val>) {
    let (r, diff) = w.watched(Auth::All, con, f, a);
    c.op(format!("{f} again"));
    c.eval("P12", Some((f, "again", c.idx, c.trace.len())));
    c.check("P12", r.is_err(), || format!("a contract was initialized a second time by {f}"));
    c.check("P12", diff.is_none(), || format!("a second {f} changed {diff:?}"));
}

fn pool(c: &mut Case, stable: bool) {
    let mut w = W::new(c.range(0, 1_900_000_000) as u64);
    let mut da = *c.pick(&[0u32, 6, 7, 12, 18]);
    let db = *c.pick(&[0u32, 6, 7, 12, 18]);
    let th = w.upload("soroban_token_contract");
    let sh = w.upload("phoenix_stake");
    let con = w.register(if stable { "phoenix_pool_stable" } else { "phoenix_pool" });
    // several attempts on one contract: a refused one leaves it uninitialized
    for attempt in 0..12 {
        if c.bad() {
            return;
        }
        let mut why: Vec<String> = vec![];
        let last = attempt == 11;
        let n = if last { 0 } else { *c.pick(&[0u32, 1, 1, 1, 1, 1, 2]) };
        let wrong: Vec<usize> = (0..n).map(|_| c.below(13)).collect();
        let t1 = pool::new_token(&w, da, 0);
        let t2 = pool::new_token(&w, db, 0);
        let (mut ta, mut tb) = if t1 < t2 { (t1, t2) } else { (t2, t1) };
        if wrong.contains(&0) {
            if c.p(50) {
                std::mem::swap(&mut ta, &mut tb);
                why.push("token order".into());
            } else {
                tb = ta.clone();
                why.push("same token".into());
            }
        }
        let mut b = |c: &mut Case, k: usize, name: &str, why: &mut Vec<String>| {
            let x = wrong.contains(&k);
            if x {
                why.push(name.into());
            }
            bps(c, x)
        };
        let mut fee = b(c, 1, "fee bps", &mut why);
        let mut maxfee = b(c, 2, "maximum fee bps", &mut why);
        let slip = b(c, 3, "slippage bps", &mut why);
        let spread = b(c, 4, "spread bps", &mut why);
        let def = b(c, 5, "default slippage bps", &mut why);
        // the stable pool has no referral setting
        let refer = if stable { 100 } else { b(c, 6, "referral bps", &mut why) };
        if !wrong.contains(&1) && !wrong.contains(&2) {
            if wrong.contains(&7) {
                maxfee = *c.pick(&[0i64, 29, 9_999]);
                fee = maxfee + if c.p(50) { 1 } else { c.range(1, 10_000 - maxfee as i128) as i64 };
                why.push("fee above its maximum".into());
            } else {
                maxfee = if c.p(30) { fee } else { maxfee.max(fee) };
            }
        }
        let mut stake = StakeInitInfo { min_bond: c.amt(1 << 60), min_reward: c.amt(1 << 60), manager: w.addr(), max_complexity: c.range(1, 50) as u32 };
        if wrong.contains(&8) {
            stake.min_bond = *c.pick(&[0i128, -1, i128::MIN]);
            why.push("minimum bond".into());
        }
        if wrong.contains(&9) {
            stake.min_reward = *c.pick(&[0i128, -1, i128::MIN]);
            why.push("minimum reward".into());
        }
        let mut dec = *c.pick(&[0u32, 7, 17, 18]);
        let mut amp = *c.pick(&[1u64, 2, 6, 100, 999_999, 1_000_000]);
        if stable && wrong.contains(&10) {
            amp = *c.pick(&[0u64, 1_000_001, 2_000_000, 100_000_000, u64::MAX]);
            why.push("amplification".into());
        }
        if !stable && wrong.contains(&11) {
            dec = *c.pick(&[19u32, 20, 38, 255, 256 + 7, u32::MAX]);
            why.push("share decimals".into());
        }
        if stable && why.is_empty() && c.p(25) && !last {
            // a token too precise for the share token
            da = *c.pick(&[19u32, 20, 30]);
            let t1 = pool::new_token(&w, da, 0);
            let t2 = pool::new_token(&w, db, 0);
            (ta, tb) = if t1 < t2 { (t1, t2) } else { (t2, t1) };
            why.push("share decimals".into());
            da = 7;
        }
        let (admin, fac) = (w.addr(), w.addr());
        let feer = if c.p(25) { admin.clone() } else { w.addr() };
        let info = LiquidityPoolInitInfo {
            admin: admin.clone(),
            swap_fee_bps: fee,
            fee_recipient: feer.clone(),
            max_allowed_slippage_bps: slip,
            // the XYK pool takes its default from the call
            default_slippage_bps: if stable { def } else { 100 },
            max_allowed_spread_bps: spread,
            max_referral_bps: refer,
            token_init_info: TokenInitInfo { token_a: ta.clone(), token_b: tb.clone() },
            stake_init_info: stake.clone(),
        };
        let e = &w.env;
        let (name, sym) = (w.s("share name"), w.s("SHR"));
        let a = if stable {
            args!(e, sh.clone(), th.clone(), info.clone(), fac.clone(), 7u32, name.clone(), sym.clone(), amp, maxfee)
        } else {
            args!(e, sh.clone(), th.clone(), info.clone(), fac.clone(), dec, name.clone(), sym.clone(), def, maxfee)
        };
        let what = format!("{} fee={fee}/{maxfee} slip={def}/{slip} spread={spread} referral={refer} amp={amp} decimals={dec} bond={} reward={}", if stable { "stable-pool" } else { "xyk-pool" }, stake.min_bond, stake.min_reward);
        if !judge(c, &w, &con, "initialize", a.clone(), &why, what) {
            continue;
        }
        let info2: PoolResponse = w.must(&con, "query_pool_info", args!(e));
        let lp: Address = w.must(&con, "query_share_token_address", args!(e));
        let st: Address = w.must(&con, "query_stake_contract_address", args!(e));
        let got = if stable {
            let x: StableConfig = w.must(&con, "query_config", args!(e));
            c.check("P12", x.default_slippage_bps == def && x.pool_type == PoolType::Stable, || format!("reported {x:?}, default slippage given {def}"));
            (x.token_a, x.token_b, x.share_token, x.stake_contract, x.total_fee_bps, x.fee_recipient, x.max_allowed_slippage_bps, x.max_allowed_spread_bps, 100)
        } else {
            let x: XykConfig = w.must(&con, "query_config", args!(e));
            c.check("P12", x.pool_type == PoolType::Xyk, || format!("reported {x:?}"));
            (x.token_a, x.token_b, x.share_token, x.stake_contract, x.total_fee_bps, x.fee_recipient, x.max_allowed_slippage_bps, x.max_allowed_spread_bps, x.max_referral_bps)
        };
        let want = (ta.clone(), tb.clone(), lp.clone(), st.clone(), fee, feer, slip, spread, refer);
        c.check("P12", got == want, || format!("the pool reports {got:?}, given {want:?}"));
        let empty = (info2.asset_a.address == ta, info2.asset_a.amount, info2.asset_b.address == tb, info2.asset_b.amount, info2.asset_lp_share.amount);
        c.check("P12", empty == (true, 0, true, 0, 0), || format!("a new pool reports {info2:?}"));
        let (n2, s2, d2): (soroban_sdk::String, soroban_sdk::String, u32) = (w.must(&lp, "name", args!(e)), w.must(&lp, "symbol", args!(e)), w.must(&lp, "decimals", args!(e)));
        let wd = if stable { w.must::<u32>(&ta, "decimals", args!(e)).max(w.must::<u32>(&tb, "decimals", args!(e))) } else { dec };
        c.check("P12", n2 == name && s2 == sym && d2 == wd, || format!("the share token reports {n2:?} {s2:?} {d2}, given {wd} decimals"));
        let sc: StakeConfigResponse = w.must(&st, "query_config", args!(e));
        let wc = StakeConfig { lp_token: lp.clone(), min_bond: stake.min_bond, min_reward: stake.min_reward, manager: stake.manager, owner: fac, max_complexity: stake.max_complexity };
        let adm: Address = w.must(&st, "query_admin", args!(e));
        c.check("P12", sc.config == wc && adm == admin, || format!("staking reports {:?}, given {wc:?}", sc.config));
        // not a second time, neither the pool nor what it set up
        again(c, &w, &con, "initialize", a);
        let x = w.addr();
        again(c, &w, &st, "initialize", args!(&w.env, x.clone(), lp.clone(), 5i128, 5i128, x.clone(), x.clone(), 5u32));
        again(c, &w, &lp, "__constructor", args!(&w.env, x, 7u32, w.s("x"), w.s("X")));
        return;
    }
}

fn stake(c: &mut Case) {
    let w = W::new(c.range(0, 1_900_000_000) as u64);
    let con = w.register("phoenix_stake");
    for attempt in 0..8 {
        let bad = if attempt == 7 { 9 } else { c.below(5) };
        let (admin, lp, man, own) = (w.addr(), w.addr(), w.addr(), w.addr());
        let mut why = vec![];
        let (mut bond, mut reward) = (c.amt(i128::MAX), c.amt(i128::MAX));
        if bad == 0 || bad == 1 {
            bond = *c.pick(&[0i128, -1, i128::MIN, -1_000]);
            why.push("minimum bond".to_string());
        }
        if bad == 1 || bad == 2 {
            reward = *c.pick(&[0i128, -1, i128::MIN, -1_000]);
            why.push("minimum reward".to_string());
        }
        let cx = c.range(1, 100) as u32;
        let a = args!(&w.env, admin.clone(), lp.clone(), bond, reward, man.clone(), own.clone(), cx);
        if judge(c, &w, &con, "initialize", a.clone(), &why, format!("stake bond={bond} reward={reward} complexity={cx}")) {
            let sc: StakeConfigResponse = w.must(&con, "query_config", args!(&w.env));
            let wc = StakeConfig { lp_token: lp, min_bond: bond, min_reward: reward, manager: man, owner: own, max_complexity: cx };
            let adm: Address = w.must(&con, "query_admin", args!(&w.env));
            let ts: i128 = w.must(&con, "query_total_staked", args!(&w.env));
            c.check("P12", sc.config == wc && adm == admin && ts == 0, || format!("staking reports {:?}, given {wc:?}", sc.config));
            again(c, &w, &con, "initialize", a);
            let x = w.addr();
            again(c, &w, &con, "initialize", args!(&w.env, x.clone(), x.clone(), 5i128, 5i128, x.clone(), x.clone(), 5u32));
            return;
        }
        if c.bad() {
            return;
        }
    }
}

fn rewards(c: &mut Case) {
    let w = W::new(c.range(0, 1_900_000_000) as u64);
    let con = w.register("phoenix_stake_rewards");
    let (admin, st, tok) = (w.addr(), w.addr(), w.addr());
    let (cx, r, b) = (c.range(1, 100) as u32, c.amt(i128::MAX), c.amt(i128::MAX));
    let a = args!(&w.env, admin.clone(), st.clone(), tok.clone(), cx, r, b);
    if judge(c, &w, &con, "initialize", a.clone(), &[], format!("rewards complexity={cx} reward={r} bond={b}")) {
        let q: RewardsConfigResponse = w.must(&con, "query_config", args!(&w.env));
        let want = RewardsConfig { staking_contract: st, reward_token: tok, max_complexity: cx, min_reward: r, min_bond: b };
        let adm: Address = w.must(&con, "query_admin", args!(&w.env));
        c.check("P12", q.config == want && adm == admin, || format!("configured {q:?}, requested {want:?}"));
        again(c, &w, &con, "initialize", a);
        let x = w.addr();
        again(c, &w, &con, "initialize", args!(&w.env, x.clone(), x.clone(), x.clone(), 5u32, 1i128, 1i128));
    }
}

fn vesting(c: &mut Case) {
    let w = W::new(c.range(0, 1_900_000_000) as u64);
    let con = w.register("phoenix_vesting");
    let (admin, x) = (w.addr(), w.addr());
    let info = VestingTokenInfo { name: w.s("vesting"), symbol: w.s("VST"), decimals: c.range(0, 18) as u32, address: w.addr() };
    let lim = c.range(1, 100) as u32;
    let m = MinterInfo { address: w.addr(), mint_capacity: c.amt(i128::MAX) as u128 };
    let with = c.p(50);
    let (f, a) = if with { ("initialize_with_minter", args!(&w.env, admin.clone(), info.clone(), lim, m.clone())) } else { ("initialize", args!(&w.env, admin.clone(), info.clone(), lim)) };
    if judge(c, &w, &con, f, a, &[], format!("vesting limit={lim} minter={with}")) {
        let got: VestingTokenInfo = w.must(&con, "query_token_info", args!(&w.env));
        c.check("P12", got == info, || format!("token info is {got:?}, given {info:?}"));
        let q: Res<MinterInfo> = w.call(&con, "query_minter", args!(&w.env));
        if with {
            c.check("P12", q == Ok(m.clone()), || format!("the minter is {q:?}, given {m:?}"));
        }
        again(c, &w, &con, "initialize", args!(&w.env, x.clone(), info.clone(), lim));
        again(c, &w, &con, "initialize_with_minter", args!(&w.env, x.clone(), info.clone(), lim, MinterInfo { address: x.clone(), mint_capacity: 1 << 100 }));
        again(c, &w, &con, "initialize", args!(&w.env, admin.clone(), info.clone(), lim));
    }
}

fn trader(c: &mut Case) {
    let w = W::new(c.range(0, 1_900_000_000) as u64);
    let con = w.register("phoenix_trader");
    let (admin, ta, tb) = (w.addr(), w.addr(), w.addr());
    let d = c.range(0, 18) as u32;
    let out = pool::new_token(&w, d, 0);
    let name = w.s("a name");
    let a = args!(&w.env, admin.clone(), name.clone(), (ta.clone(), tb.clone()), out.clone());
    if judge(c, &w, &con, "initialize", a.clone(), &[], format!("trader decimals={d}")) {
        let adm: Address = w.must(&con, "query_admin_address", args!(&w.env));
        let n2: soroban_sdk::String = w.must(&con, "query_contract_name", args!(&w.env));
        let pr: (Address, Address) = w.must(&con, "query_trading_pairs", args!(&w.env));
        let oi: OutputTokenInfo = w.must(&con, "query_output_token_info", args!(&w.env));
        c.check("P12", adm == admin && n2 == name && pr == (ta, tb) && oi.address == out && oi.decimal == d, || format!("the trader reports {adm:?} {n2:?} {pr:?} {oi:?}"));
        again(c, &w, &con, "initialize", a);
        let x = w.addr();
        again(c, &w, &con, "initialize", args!(&w.env, x.clone(), w.s("b"), (x.clone(), x.clone()), x.clone()));
    }
}

fn factory(c: &mut Case) {
    let mut w = W::new(c.range(0, 1_900_000_000) as u64);
    let con = w.register("phoenix_factory");
    let hop = w.upload("phoenix_multihop");
    let h: Vec<BytesN<32>> = vec![w.upload("phoenix_pool"), w.upload("phoenix_pool_stable"), w.upload("phoenix_stake"), w.upload("soroban_token_contract")];
    let admin = w.addr();
    let n = c.range(0, 4) as usize;
    let white: Vec<Address> = (0..n).map(|_| w.addr()).collect();
    let d = c.range(0, 18) as u32;
    let mk = |w: &W, admin: &Address, white: &[Address]| {
        let mut v: SVec<Address> = SVec::new(&w.env);
        for x in white {
            v.push_back(x.clone());
        }
        args!(&w.env, admin.clone(), hop.clone(), h[0].clone(), h[1].clone(), h[2].clone(), h[3].clone(), v, d)
    };
    if n == 0 {
        // whether an empty whitelist is an error is not promised; whatever is refused leaves no trace
        let (r, diff) = w.watched(Auth::All, &con, "initialize", mk(&w, &admin, &white));
        c.check("P12", r.is_ok() || diff.is_none(), || format!("a refused initialize changed {diff:?}"));
        return;
    }
    let a = mk(&w, &admin, &white);
    if judge(c, &w, &con, "initialize", a.clone(), &[], format!("factory whitelist={n} decimals={d}")) {
        let cfg: FactoryConfig = w.must(&con, "get_config", args!(&w.env));
        let adm: Address = w.must(&con, "get_admin", args!(&w.env));
        let wl: Vec<Address> = cfg.whitelisted_accounts.iter().collect();
        let pools: SVec<Address> = w.must(&con, "query_pools", args!(&w.env));
        c.check("P12", adm == admin && cfg.admin == admin && uniq(&wl) == uniq(&white) && cfg.lp_token_decimals == d && cfg.lp_wasm_hash == h[0] && cfg.stake_wasm_hash == h[2] && cfg.token_wasm_hash == h[3] && pools.is_empty(), || format!("the factory reports {cfg:?}"));
        again(c, &w, &con, "initialize", a);
        let x = w.addr();
        again(c, &w, &con, "initialize", mk(&w, &x, &[x.clone()]));
        again(c, &w, &cfg.multihop_address, "initialize", args!(&w.env, x.clone(), x.clone()));
    }
}

fn multihop(c: &mut Case) {
    let w = W::new(c.range(0, 1_900_000_000) as u64);
    let con = w.register("phoenix_multihop");
    let (a, f) = (w.addr(), w.addr());
    if judge(c, &w, &con, "initialize", args!(&w.env, a.clone(), f.clone()), &[], "multihop".into()) {
        again(c, &w, &con, "initialize", args!(&w.env, a, f));
        let x = w.addr();
        again(c, &w, &con, "initialize", args!(&w.env, x.clone(), x));
    }
}

pub fn all(c: &mut Case) {
    match c.below(12) {
        0..=2 => pool(c, false),
        3..=5 => pool(c, true),
        6 => stake(c),
        7 => rewards(c),
        8 => vesting(c),
        9 => trader(c),
        10 => factory(c),
        _ => multihop(c),
    }
}
