//! The LP token contract against a reference ledger.
use crate::core::*;
use crate::{args, Spec};
use soroban_sdk::testutils::Ledger;
use soroban_sdk::{Address, Val};
use std::collections::BTreeMap;

struct T {
    w: W,
    c: Address,
    admin: Address,
    who: Vec<Address>,
    bal: Vec<i128>,
    /// (from, spender) -> (amount, expiration)
    allow: BTreeMap<(usize, usize), (i128, u32)>,
}

fn new(c: &mut Case) -> T {
    let w = W::new(c.range(1, 1_900_000_000) as u64);
    w.env.ledger().with_mut(|l| {
        l.min_temp_entry_ttl = 16;
        l.max_entry_ttl = 6_312_000;
    });
    let admin = w.addr();
    let dec = *c.pick(&[0u32, 7, 18]);
    let con = w.env.register(wasm("soroban_token_contract"), (admin.clone(), dec, w.s("Pool share"), w.s("LPS")));
    let mut who: Vec<Address> = (0..4).map(|_| w.addr()).collect();
    // the administrator and the token itself own tokens like anyone else
    if c.p(60) {
        who[3] = admin.clone();
    }
    who.push(con.clone());
    c.op(format!("LP token with {dec} decimals"));
    let d: u32 = w.must(&con, "decimals", args!(&w.env));
    let n: soroban_sdk::String = w.must(&con, "name", args!(&w.env));
    let s: soroban_sdk::String = w.must(&con, "symbol", args!(&w.env));
    c.check("P25", d == dec && n == w.s("Pool share") && s == w.s("LPS"), || "metadata differs from what was set".into());
    T { w, c: con, admin, bal: vec![0; who.len()], who, allow: BTreeMap::new() }
}

impl T {
    fn seq(&self) -> u32 {
        self.w.env.ledger().sequence()
    }
    fn allowance(&self, f: usize, s: usize) -> i128 {
        match self.allow.get(&(f, s)) {
            Some((a, e)) if *e >= self.seq() => *a,
            _ => 0,
        }
    }
    fn spend(&mut self, f: usize, s: usize, x: i128) {
        if x > 0 {
            let seq = self.seq();
            let e = self.allow.get_mut(&(f, s)).unwrap();
            e.0 -= x;
            debug_assert!(e.1 >= seq);
        }
    }
    fn state(&self, c: &mut Case, what: &str) {
        let e = &self.w.env;
        for i in 0..self.who.len() {
            let b: i128 = self.w.must(&self.c, "balance", args!(e, self.who[i].clone()));
            c.check_any(&["P25", "P26", "P11"], b == self.bal[i], || format!("after {what} account {i} has {b}, expected {}", self.bal[i]));
        }
        c.eval("P25", Some((what.to_string(), self.bal.clone())));
        if c.on("P26") {
            for f in 0..self.who.len() {
                for s in 0..self.who.len() {
                    let a: i128 = self.w.must(&self.c, "allowance", args!(e, self.who[f].clone(), self.who[s].clone()));
                    let exp = self.allowance(f, s);
                    c.check("P26", a == exp, || format!("after {what} the allowance of {s} over {f} is {a}, expected {exp} ({:?}, ledger {})", self.allow.get(&(f, s)), self.seq()));
                }
            }
            c.eval("P26", if self.allow.is_empty() { None } else { Some((what.to_string(), format!("{:?}", self.allow), self.seq())) });
        }
    }
}

fn amount(c: &mut Case, edge: &[i128]) -> i128 {
    match c.below(9) {
        0 => *c.pick(&[0i128, 1, -1, i128::MAX, i128::MIN, i128::MAX - 1]),
        1 | 2 | 3 | 4 => {
            let e = *c.pick(edge);
            e.saturating_add(*c.pick(&[0i128, 0, 1, -1]))
        }
        5 => {
            let e = (*c.pick(edge)).max(2);
            c.range(1, e)
        }
        _ => c.amt(1_000_000_000_000_000_000_000),
    }
}

pub fn history(c: &mut Case) {
    let mut t = new(c);
    let n = t.who.len() - 1;
    for _ in 0..60 {
        if c.bad() {
            return;
        }
        let (f, sp) = (c.below(n), c.below(n));
        let to = if c.p(6) { n } else { c.below(n) };
        let op = c.weighted(&[(12, "mint"), (22, "transfer"), (22, "transfer_from"), (8, "burn"), (9, "burn_from"), (20, "approve"), (2, "set_admin"), (12, "ledger")]);
        let e = t.w.env.clone();
        let x = amount(c, &[t.bal[f], t.bal[f], t.allowance(f, sp), t.allowance(f, sp), i128::MAX - t.bal[to]]);
        let x = if c.on("P11") && op.ends_with("_from") && t.bal[f] > 0 && c.p(50) { c.range(1, t.bal[f]) } else { x };
        // who signs: mostly the right account, sometimes nobody or another
        let right = match op {
            "mint" | "set_admin" => t.admin.clone(),
            "transfer" | "burn" | "approve" => t.who[f].clone(),
            _ => t.who[sp].clone(),
        };
        let signed = c.p(if c.on("P10") || c.on("P11") { 50 } else { 92 });
        let auth = if signed {
            Auth::RootBy(vec![right.clone()])
        } else if c.p(50) {
            Auth::Nobody
        } else {
            let other = t.who[..n].iter().chain([&t.admin]).filter(|a| **a != right).cloned().collect::<Vec<_>>();
            Auth::RootBy(other)
        };
        if op == "ledger" {
            let d = match c.below(5) {
                0 => 1,
                1 => c.range(1, 5000) as u32,
                _ => {
                    // to the edge of an expiration
                    let v: Vec<u32> = t.allow.values().map(|a| a.1).filter(|x| *x > t.seq()).collect();
                    if v.is_empty() {
                        1
                    } else {
                        (c.pick(&v) - t.seq()).saturating_add(c.below(3) as u32).saturating_sub(1).clamp(1, 200_000)
                    }
                }
            };
            // under the lifetime monitor nothing may expire for real
            let d = if c.on("P30") { 1 } else { d };
            c.op(format!("{d} ledgers pass"));
            e.ledger().with_mut(|l| l.sequence_number += d);
            t.state(c, "ledgers passing");
            continue;
        }
        let seq = t.seq();
        let exp_at: u32 = match c.below(8) {
            0 => seq,
            1 => seq - 1,
            2 => 0,
            3 => seq + 1,
            4 => seq + 6_311_999,
            _ => seq + c.range(1, 40_000) as u32,
        };
        let new_admin = if c.p(50) { t.who[c.below(n)].clone() } else { t.w.addr() };
        let a = match op {
            "mint" => args!(&e, t.who[to].clone(), x),
            "set_admin" => args!(&e, new_admin.clone()),
            "transfer" => args!(&e, t.who[f].clone(), t.who[to].clone(), x),
            "transfer_from" => args!(&e, t.who[sp].clone(), t.who[f].clone(), t.who[to].clone(), x),
            "burn" => args!(&e, t.who[f].clone(), x),
            "burn_from" => args!(&e, t.who[sp].clone(), t.who[f].clone(), x),
            _ => args!(&e, t.who[f].clone(), t.who[sp].clone(), x, exp_at),
        };
        let what = format!("{op} f={f} to={to} sp={sp} x={x} exp={exp_at} seq={seq} signed={signed}");
        c.op(what.clone());
        let possible = match op {
            "mint" => x >= 0 && t.bal[to].checked_add(x).is_some(),
            "set_admin" => true,
            "transfer" => x >= 0 && t.bal[f] >= x && (f == to || t.bal[to].checked_add(x).is_some()),
            "transfer_from" => x >= 0 && t.allowance(f, sp) >= x && t.bal[f] >= x && (f == to || t.bal[to].checked_add(x).is_some()),
            "burn" => x >= 0 && t.bal[f] >= x,
            "burn_from" => x >= 0 && t.allowance(f, sp) >= x && t.bal[f] >= x,
            _ => x >= 0 && (x == 0 || exp_at >= seq),
        };
        let r: Res<Val> = t.w.call_auth(auth, &t.c, op, a);
        c.count(&format!("{op} {}", if r.is_ok() { "ok" } else { "refused" }));
        let ap = if op == "mint" || op == "set_admin" { "P10" } else { "P11" };
        if !signed {
            c.eval(ap, Some((op, x, f, to)));
            c.check(ap, r.is_err(), || format!("{what} succeeded without its owner's signature"));
        }
        if signed {
            let is_allow = op.ends_with("_from") || op == "approve";
            c.check_any(&[if is_allow { "P26" } else { "P25" }, "P25"], r.is_ok() == possible, || {
                format!("{what}: {r:?}; balances {:?}, allowance {}", t.bal, t.allowance(f, sp))
            });
        }
        if r.is_ok() {
            match op {
                "mint" => t.bal[to] += x,
                "set_admin" => {
                    t.admin = new_admin;
                }
                "transfer" | "transfer_from" => {
                    if op == "transfer_from" {
                        if t.allowance(f, sp) < x {
                            c.check_any(&["P26", "P11"], false, || format!("{what}: more than the allowance was moved"));
                            return;
                        }
                        t.spend(f, sp, x);
                    }
                    t.bal[f] = t.bal[f].wrapping_sub(x);
                    t.bal[to] = t.bal[to].wrapping_add(x);
                }
                "burn" | "burn_from" => {
                    if op == "burn_from" {
                        if t.allowance(f, sp) < x {
                            c.check_any(&["P26", "P11"], false, || format!("{what}: more than the allowance was burnt"));
                            return;
                        }
                        t.spend(f, sp, x);
                    }
                    t.bal[f] = t.bal[f].wrapping_sub(x);
                }
                _ => {
                    t.allow.insert((f, sp), (x, exp_at));
                }
            }
        }
        t.state(c, &what);
        if op == "set_admin" && r.is_ok() {
            c.count("admin handed over");
        }
    }
}

const RULE: &str = "random histories of mints, transfers, approvals, spends, burns, admin changes and ledger advances on the real token wasm with enforced signatures; non-trivial when the oracle compared a distinct (operation, state) with the reference ledger";

pub fn specs() -> Vec<Spec> {
    let s = |id, quick| Spec { id, work: vec![(1, "lptoken", history as crate::Work)], scripted: vec![], quick, thorough: quick * 40, rule: RULE };
    vec![s("P25", 800), s("P26", 320)]
}
