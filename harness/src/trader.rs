//! The trader contract over real pools of both kinds.
use crate::core::*;
use crate::pool::{self, Kind, PoolW};
use crate::types::*;
use crate::{args, events, Spec};
use soroban_sdk::{Address, String as SString, Val};

struct T {
    p: PoolW,
    con: Address,
    admin: Address,
    out: Address,
    pair: (Address, Address),
    name: SString,
    rcpt: Address,
    outsider: Address,
}

/// (token A, token B, output token) of everybody involved
type Bal = Vec<(i128, i128, i128)>;

impl T {
    fn new(c: &mut Case) -> Self {
        let kind = if c.p(60) { Kind::Xyk } else { Kind::Stable };
        let mut s = pool::gen_setup(c, kind);
        s.cfg_fee = s.cfg_fee.min(1000);
        s.max_fee = s.max_fee.min(1100);
        s.max_spread = s.max_spread.max(1000);
        let mut p = PoolW::new(c, s);
        let mut o = p.obs();
        let mut tries = 0;
        // reserves beyond 64 bits
        if kind == Kind::Xyk && c.p(20) {
            let (x, y) = (c.range(20_000_000_000_000_000_000, 95_000_000_000_000_000_000), c.amt(1_000_000_000_000_000_000).max(1_000_000));
            p.force.set(Some(if c.p(50) { (x, y) } else { (y, x) }));
        }
        while o.ts == 0 && tries < 6 && !c.bad() {
            o = pool::deposit(c, &p, &o, true);
            tries += 1;
        }
        for (t, n) in [(&p.ta, "AAA"), (&p.tb, "BBB")] {
            p.w.must::<Val>(t, "rename", args!(&p.w.env, p.w.s(n)));
        }
        let out = match c.below(4) {
            0 => p.ta.clone(),
            1 => p.tb.clone(),
            _ => {
                let d = c.range(0, 12) as u32;
                let t = pool::new_token(&p.w, d, 0);
                p.w.must::<Val>(&t, "rename", args!(&p.w.env, p.w.s("OUT")));
                t
            }
        };
        let con = p.w.register("phoenix_trader");
        // every role may coincide with another
        let admin = match c.below(8) {
            0 => p.admin.clone(),
            1 => p.cfg.feer.clone(),
            2 => p.users[0].clone(),
            _ => p.w.addr(),
        };
        let rcpt = match c.below(6) {
            0 => admin.clone(),
            1 => p.users[1].clone(),
            _ => p.w.addr(),
        };
        let outsider = p.w.addr();
        let pair = if c.p(50) { (p.ta.clone(), p.tb.clone()) } else { (p.tb.clone(), p.ta.clone()) };
        let name = p.w.s("the trader");
        let a = args!(&p.w.env, admin.clone(), name.clone(), pair.clone(), out.clone());
        twin(c, &p.w, "P11", &con, "initialize", &a, Some(&admin), &[outsider.clone()]);
        p.w.must::<Val>(&con, "initialize", a);
        for h in [&con, &admin, &rcpt, &outsider] {
            if !p.holders.contains(h) {
                p.holders.push(h.clone());
            }
        }
        c.op(format!("trader over a {kind:?} pool, output token {}", if out == p.ta { "A" } else if out == p.tb { "B" } else { "another" }));
        T { p, con, admin, out, pair, name, rcpt, outsider }
    }
    /// accounts that are not the administrator
    fn strangers(&self) -> Vec<Address> {
        [&self.outsider, &self.p.admin, &self.rcpt, &self.p.cfg.feer].into_iter().filter(|x| **x != self.admin).cloned().collect()
    }
    fn bal(&self) -> Bal {
        let w = &self.p.w;
        self.p.holders.iter().map(|h| (w.native_balance(&self.p.ta, h), w.native_balance(&self.p.tb, h), w.native_balance(&self.out, h))).collect()
    }
}

fn trade(c: &mut Case, t: &T) {
    let w = &t.p.w;
    let o = t.p.obs();
    let g = pool::gen_swap(c, &t.p, &o);
    let tok = if g.a_in { t.p.ta.clone() } else { t.p.tb.clone() };
    let held = w.native_balance(&tok, &t.con);
    let ro = if g.a_in { o.ra } else { o.rb };
    let given: Option<u64> = match c.below(8) {
        4..=7 if ro > 1 << 64 && c.p(60) => Some(c.range(i64::MAX as i128 - 1, (u64::MAX as i128).min((ro / 2).max(1 << 63))) as u64),
        0 | 1 => None,
        2 => Some(held.clamp(0, u64::MAX as i128) as u64),
        3 => Some((held + 1).clamp(0, u64::MAX as i128) as u64),
        4 => Some(c.amt(held.max(1).min(u64::MAX as i128)) as u64),
        _ => Some(g.amt.clamp(0, u64::MAX as i128) as u64),
    };
    let amt = given.map_or(held, |x| x as i128);
    let (mut sender, mut token, mut lp) = (t.admin.clone(), tok.clone(), t.p.pool.clone());
    let mut wrong = None;
    match c.below(16) {
        0 => {
            sender = c.pick(&t.strangers()).clone();
            wrong = Some("not the administrator");
        }
        1 if t.out != t.p.ta && t.out != t.p.tb => {
            token = t.out.clone();
            wrong = Some("token outside the pair");
        }
        2 => {
            lp = t.p.lp.clone();
            wrong = Some("no pool");
        }
        _ => {}
    }
    // the same swap by an ordinary account holding exactly that much
    let probe = {
        let saved = w.save();
        let u = w.addr();
        let pre = t.bal();
        if amt > 0 {
            pool::mint(w, &tok, &u, amt);
        }
        let r: Res<i128> = w.call(&t.p.pool, "swap", args!(&w.env, u.clone(), tok.clone(), amt, g.min, g.spread, g.deadline, g.maxfee));
        let post = t.bal();
        let own = (w.native_balance(&t.p.ta, &u), w.native_balance(&t.p.tb, &u));
        w.restore(&saved);
        r.map(|r| (r, pre, post, own))
    };
    let real = c.p(50);
    let auth = if real { Auth::RootBy(vec![sender.clone()]) } else { Auth::All };
    c.op(format!(
        "trade {} of {} (holds {held}) min={:?} spread={:?} deadline={:?} maxfee={:?} {}{}",
        given.map_or("everything".into(), |x| x.to_string()), if g.a_in { "A" } else { "B" }, g.min, g.spread, g.deadline, g.maxfee,
        wrong.unwrap_or(""), if real { " (only the sender signs)" } else { "" }
    ));
    let a = args!(&w.env, sender.clone(), token.clone(), lp, given, g.spread, g.deadline, g.min, g.maxfee);
    if wrong.is_none() {
        twin(c, w, "P10", &t.con, "trade_token", &a, Some(&t.admin), &t.strangers());
    }
    let pre = t.bal();
    let (r, diff) = w.watched(auth, &t.con, "trade_token", a);
    let ev = if c.on("P31") { events::last(w, &t.con) } else { vec![] };
    let ai = t.p.hi(&t.con);
    match &r {
        Ok(_) => {
            c.count("trade ok");
            c.check_any(&["P29", "P10"], wrong.is_none(), || format!("a trade was executed: {}", wrong.unwrap_or("")));
            let post = t.bal();
            match &probe {
                Err(e) => c.check("P29", false, || format!("the trade of {amt} was executed, the same swap by an account is refused: {e:?}")),
                Ok((ret, p0, p1, own)) => {
                    let sig = (amt, given.is_none(), *ret, o.ra, o.rb);
                    c.eval("P29", Some(("trade", sig)));
                    // everyone but the trader as in the probe, the trader like the probe's account
                    let mut exp = pre.clone();
                    for i in 0..exp.len() {
                        exp[i].0 += p1[i].0 - p0[i].0;
                        exp[i].1 += p1[i].1 - p0[i].1;
                        exp[i].2 += p1[i].2 - p0[i].2;
                    }
                    let (da, db) = if g.a_in { (own.0 - amt, own.1) } else { (own.0, own.1 - amt) };
                    exp[ai].0 += da;
                    exp[ai].1 += db;
                    if t.out == t.p.ta {
                        exp[ai].2 += da;
                    }
                    if t.out == t.p.tb {
                        exp[ai].2 += db;
                    }
                    c.check("P29", exp == post, || format!("the trade of {amt} left balances {post:?}, the same swap by an account leaves {exp:?}"));
                    if c.on("P31") {
                        events::want(c, w, &ev, &["Trader: Trade Token", "user: "], sender.clone());
                        events::want(c, w, &ev, &["Trader: Trade Token", "offer asset: "], tok.clone());
                        events::want(c, w, &ev, &["Trader: Trade Token", "amount received: "], *ret);
                        c.eval("P31", Some(("trade", sig)));
                    }
                }
            }
        }
        Err(e) => {
            c.count("trade refused");
            if c.on("P31") {
                events::none(c, "the trade", &ev);
            }
            c.check("P29", diff.is_none(), || format!("a refused trade changed {diff:?}"));
            let possible = wrong.is_none() && amt <= held && probe.is_ok();
            c.eval("P29", if g.min.is_some() || g.spread.is_some() || amt > held { Some(("refused", (amt, false, 0, o.ra, o.rb))) } else { None });
            c.check("P29", !possible, || format!("the trade of {amt} of {held} held is refused ({e:?}), the same swap by an account returns {:?}", probe.as_ref().map(|x| x.0)));
        }
    }
}

fn fund(c: &mut Case, t: &T) {
    let tok = c.pick(&[t.p.ta.clone(), t.p.tb.clone(), t.out.clone()]).clone();
    let o = t.p.obs();
    let max = if c.p(70) { (o.ra.min(o.rb) / 5).max(10) } else { t.p.max_amt };
    let big = if tok == t.p.ta { o.ra } else if tok == t.p.tb { o.rb } else { 0 } > 1 << 64;
    let amt = if big { c.range(1 << 63, 1 << 65) } else { c.amt(max) };
    c.op(format!("fund the trader with {amt}"));
    pool::mint(&t.p.w, &tok, &t.con, amt);
}

fn transfer(c: &mut Case, t: &T) {
    let w = &t.p.w;
    let named: Option<Address> = match c.below(4) {
        0 => None,
        1 => Some(t.p.ta.clone()),
        2 => Some(t.p.tb.clone()),
        _ => Some(t.out.clone()),
    };
    let tok = named.clone().unwrap_or(t.out.clone());
    let held = w.native_balance(&tok, &t.con);
    let amt = match c.below(8) {
        0 => held,
        1 => held + 1,
        2 => -1,
        3 => 0,
        _ => c.amt(held.max(1)),
    };
    let to = match c.below(5) {
        0 => t.admin.clone(),
        1 => t.outsider.clone(),
        2 => t.p.pool.clone(),
        _ => t.rcpt.clone(),
    };
    let own = !c.p(12);
    let sender = if own { t.admin.clone() } else { c.pick(&t.strangers()).clone() };
    let own = sender == t.admin;
    c.op(format!("transfer {amt} of {held} {}", if own { "" } else { "by an outsider" }));
    let a = args!(&w.env, sender.clone(), to.clone(), amt, named);
    if own {
        twin(c, w, "P10", &t.con, "transfer", &a, Some(&t.admin), &t.strangers());
    }
    let pre = t.bal();
    let (r, diff) = w.watched(Auth::RootBy(vec![sender]), &t.con, "transfer", a);
    let fine = own && amt >= 0 && amt <= held;
    c.eval("P29", Some(("transfer", (amt, own, held, 0, 0))));
    c.check("P29", r.is_ok() == fine, || format!("a transfer of {amt} of {held} held, asked for by the administrator: {own}: {r:?}"));
    c.check("P10", own || r.is_err(), || "an outsider moved the trader's tokens".into());
    if r.is_ok() {
        let mut exp = pre;
        let mut put = |i: usize, d: i128| {
            if tok == t.p.ta {
                exp[i].0 += d
            }
            if tok == t.p.tb {
                exp[i].1 += d
            }
            if tok == t.out {
                exp[i].2 += d
            }
        };
        put(t.p.hi(&t.con), -amt);
        put(t.p.hi(&to), amt);
        let post = t.bal();
        c.check("P29", exp == post, || format!("a transfer of {amt}: balances {post:?} instead of {exp:?}"));
    } else {
        c.check("P29", diff.is_none(), || format!("a refused transfer changed {diff:?}"));
    }
}

fn queries(c: &mut Case, t: &T) {
    let w = &t.p.w;
    let d0 = w.digest();
    let e = &w.env;
    let b: BalanceInfo = w.must(&t.con, "query_balances", args!(e));
    let pair: (Address, Address) = w.must(&t.con, "query_trading_pairs", args!(e));
    let adm: Address = w.must(&t.con, "query_admin_address", args!(e));
    let name: SString = w.must(&t.con, "query_contract_name", args!(e));
    let oi: OutputTokenInfo = w.must(&t.con, "query_output_token_info", args!(e));
    let diff = digest_diff(&d0, &w.digest());
    let as_ = |tok: &Address| NamedAsset { symbol: w.must(tok, "symbol", args!(e)), amount: w.native_balance(tok, &t.con) };
    let exp = BalanceInfo { output_token: as_(&t.out), token_a: as_(&t.pair.0), token_b: as_(&t.pair.1) };
    let eo = OutputTokenInfo { address: t.out.clone(), name: w.must(&t.out, "name", args!(e)), symbol: w.must(&t.out, "symbol", args!(e)), decimal: w.must(&t.out, "decimals", args!(e)) };
    c.op("queries".into());
    c.eval("P29", Some(("queries", (exp.token_a.amount, false, exp.token_b.amount, exp.output_token.amount, 0))));
    c.check("P29", diff.is_none(), || format!("queries changed {diff:?}"));
    c.check("P29", b == exp, || format!("reported balances {b:?}, actual {exp:?}"));
    c.check("P29", pair == t.pair && adm == t.admin && name == t.name, || "the reported pair, administrator or name is not the one initialized with".into());
    c.check("P29", oi == eo, || format!("reported output token {oi:?}, actual {eo:?}"));
}

pub fn history(c: &mut Case) {
    let t = T::new(c);
    fund(c, &t);
    for _ in 0..24 {
        if c.bad() {
            return;
        }
        match c.weighted(&[(40, "trade"), (18, "fund"), (16, "transfer"), (10, "queries"), (8, "swap"), (4, "time"), (if c.on("P12") { 20 } else { 2 }, "again")]) {
            "trade" => trade(c, &t),
            "fund" => fund(c, &t),
            "transfer" => transfer(c, &t),
            "queries" => queries(c, &t),
            "swap" => {
                let o = t.p.obs();
                let a = pool::gen_swap(c, &t.p, &o);
                pool::do_swap(c, &t.p, &o, &a);
            }
            "time" => t.p.w.advance(3600),
            _ => {
                let a = if c.p(50) {
                    args!(&t.p.w.env, t.outsider.clone(), t.name.clone(), t.pair.clone(), t.out.clone())
                } else {
                    args!(&t.p.w.env, t.admin.clone(), t.name.clone(), (t.p.ta.clone(), t.p.lp.clone()), t.p.tb.clone())
                };
                crate::sys::once(c, &t.p.w, &t.con, a)
            }
        }
    }
    if !c.bad() {
        queries(c, &t);
    }
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P29",
        work: vec![(1, "trader", history)],
        scripted: vec![],
        quick: 450,
        thorough: 24_000,
        rule: "histories of fundings, trades over pools of both kinds (all authorizations granted, or only the sender's signature), transfers out, foreign swaps and queries; every trade is compared with the same swap made by an account on a copy of the state; non-trivial when amounts or reserves are distinct",
    }]
}
