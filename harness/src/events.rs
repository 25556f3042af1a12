//! Contract events as an indexer reads them.
use crate::core::*;
use crate::pool::{PoolW, SwapArgs};
use soroban_env_host::xdr;
use soroban_sdk::{Address, TryFromVal, Val};

pub struct Ev {
    pub topics: Vec<String>,
    pub data: xdr::ScVal,
}

pub fn count(w: &W) -> usize {
    w.env
        .host()
        .get_events()
        .unwrap()
        .0
        .iter()
        .filter(|e| !e.failed_call && e.event.type_ == xdr::ContractEventType::Contract)
        .count()
}

fn topic(v: &xdr::ScVal) -> String {
    match v {
        xdr::ScVal::String(s) => String::from_utf8_lossy(s.0.as_slice()).to_string(),
        xdr::ScVal::Symbol(s) => String::from_utf8_lossy(s.0.as_slice()).to_string(),
        o => format!("{o:?}"),
    }
}

/// Events of `c` in the latest call.
pub fn last(w: &W, c: &Address) -> Vec<Ev> {
    let id = match xdr::ScAddress::try_from(c.clone()) {
        Ok(xdr::ScAddress::Contract(h)) => h,
        _ => return vec![],
    };
    w.env
        .host()
        .get_events()
        .unwrap()
        .0
        .iter()
        .skip(w.mark.get())
        .filter(|e| !e.failed_call && e.event.type_ == xdr::ContractEventType::Contract && e.event.contract_id.as_ref() == Some(&id))
        .map(|e| {
            let xdr::ContractEventBody::V0(b) = &e.event.body;
            Ev { topics: b.topics.iter().map(topic).collect(), data: b.data.clone() }
        })
        .collect()
}

/// A failed call published nothing.
pub fn none(c: &mut Case, what: &str, ev: &[Ev]) {
    c.eval("P31", None::<u8>);
    c.check("P31", ev.is_empty(), || format!("{what} failed and still published {} events, such as {:?}", ev.len(), ev[0].topics));
}

fn find<T: TryFromVal<soroban_sdk::Env, Val>>(w: &W, ev: &[Ev], t: &[&str]) -> Option<T> {
    use soroban_sdk::TryIntoVal;
    let e = ev.iter().rev().find(|e| e.topics.iter().map(|s| s.as_str()).eq(t.iter().copied()))?;
    let v: Val = e.data.try_into_val(&w.env).ok()?;
    T::try_from_val(&w.env, &v).ok()
}

/// The data of every event with these topics.
pub fn every<T: TryFromVal<soroban_sdk::Env, Val>>(w: &W, ev: &[Ev], t: &[&str]) -> Vec<T> {
    use soroban_sdk::TryIntoVal;
    ev.iter()
        .filter(|e| e.topics.iter().map(|s| s.as_str()).eq(t.iter().copied()))
        .filter_map(|e| {
            let v: Val = e.data.try_into_val(&w.env).ok()?;
            T::try_from_val(&w.env, &v).ok()
        })
        .collect()
}

pub fn want<T: TryFromVal<soroban_sdk::Env, Val> + PartialEq + std::fmt::Debug>(c: &mut Case, w: &W, ev: &[Ev], t: &[&str], v: T) {
    let n = ev.iter().filter(|e| e.topics.iter().map(|s| s.as_str()).eq(t.iter().copied())).count();
    let g: Vec<T> = every(w, ev, t);
    c.check("P31", n > 0 && g.len() == n && g.iter().all(|x| *x == v), || format!("events {t:?} carry {g:?}, happened {v:?}"));
}

#[allow(clippy::too_many_arguments)]
pub fn swap(c: &mut Case, p: &PoolW, ev: &[Ev], u: &Address, a: &SwapArgs, ret: i128, received: i128, spreads: &[i128]) {
    c.eval("P31", Some(("swap", a.amt, ret, p.kind)));
    let w = &p.w;
    let (s, b) = if a.a_in { (&p.ta, &p.tb) } else { (&p.tb, &p.ta) };
    want(c, w, ev, &["swap", "sender"], u.clone());
    want(c, w, ev, &["swap", "sell_token"], s.clone());
    want(c, w, ev, &["swap", "buy_token"], b.clone());
    want(c, w, ev, &["swap", "offer_amount"], a.amt);
    want(c, w, ev, &["swap", "return_amount"], ret);
    if !spreads.is_empty() {
        let g: Option<i128> = find(w, ev, &["swap", "spread_amount"]);
        c.check("P31", g.map_or(false, |g| spreads.contains(&g)), || format!("the swap's event carries the spread {g:?}, happened {spreads:?}"));
    }
    if p.kind == crate::pool::Kind::Xyk {
        want(c, w, ev, &["swap", "actual received amount"], received);
    }
}

pub fn deposit(c: &mut Case, p: &PoolW, ev: &[Ev], u: &Address, a: i128, b: i128) {
    c.eval("P31", Some(("deposit", a, b, p.kind)));
    let w = &p.w;
    want(c, w, ev, &["provide_liquidity", "sender"], u.clone());
    want(c, w, ev, &["provide_liquidity", "token_a"], p.ta.clone());
    want(c, w, ev, &["provide_liquidity", "token_b"], p.tb.clone());
    want(c, w, ev, &["provide_liquidity", "token_a-amount"], a);
    want(c, w, ev, &["provide_liquidity", "token_b-amount"], b);
}

pub fn withdraw(c: &mut Case, p: &PoolW, ev: &[Ev], u: &Address, shares: i128, a: i128, b: i128) {
    c.eval("P31", Some(("withdraw", a, b, p.kind)));
    let w = &p.w;
    want(c, w, ev, &["withdraw_liquidity", "sender"], u.clone());
    want(c, w, ev, &["withdraw_liquidity", "shares_amount"], shares);
    want(c, w, ev, &["withdraw_liquidity", "return_amount_a"], a);
    want(c, w, ev, &["withdraw_liquidity", "return_amount_b"], b);
}

pub fn stake(c: &mut Case, w: &W, ev: &[Ev], what: &str, u: &Address, lp: &Address, x: i128) {
    c.eval("P31", Some((what.to_string(), x)));
    want(c, w, ev, &[what, "user"], u.clone());
    want(c, w, ev, &[what, "token"], lp.clone());
    want(c, w, ev, &[what, "amount"], x);
}
