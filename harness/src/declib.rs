//! The fixed-point types against big-integer arithmetic.
use crate::core::*;
use crate::Spec;
use rand::Rng;
use soroban_decimal::{Decimal, Decimal256};
use soroban_sdk::{Env, U256};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

const P: &str = "P28";
const ONE: i128 = 1_000_000_000_000_000_000;

fn run<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn fit(v: &Z) -> bool {
    zi(v).is_some()
}

/// any i128
fn int(c: &mut Case) -> i128 {
    let v = match c.below(14) {
        0 => 0,
        1 => c.range(1, 5),
        2 => ONE + c.range(-2, 2),
        3 => ONE * c.range(1, 1000),
        4 => i128::MAX - c.range(0, 3),
        5 => return i128::MIN + c.range(0, 3),
        6 => 10i128.pow(c.below(39) as u32),
        7 => 10i128.pow(c.below(39) as u32) - 1,
        8 | 9 => c.amt(1 << 64),
        10 => c.amt(ONE * 200),
        _ => c.amt(i128::MAX),
    };
    if c.p(35) {
        -v
    } else {
        v
    }
}

/// an integer times a decimal: the fractional part of the integer's scale is multiplied on its own
fn int_fits(n: i128, d: i128) -> bool {
    fit(&(z(n % ONE) * d))
}

fn p10(n: u32) -> Z {
    z(10).pow(n)
}

/// `exact`: the true result in units (None: undefined). `mid`: all intermediate values are representable.
fn judge(c: &mut Case, what: String, got: Option<i128>, exact: Option<Z>, mid: bool) {
    c.eval(P, Some(what.clone()));
    match (got, exact) {
        (Some(g), Some(x)) => c.check(P, z(g) == x, || format!("{what} gave {g}, it is {x}")),
        (Some(g), None) => c.check(P, false, || format!("{what} gave {g}, it is not defined")),
        (None, Some(x)) => {
            c.count("stopped");
            c.check(P, !fit(&x) || !mid, || format!("{what} stopped, it is {x}"))
        }
        (None, None) => c.count("stopped: undefined"),
    }
}

fn text(c: &mut Case, e: &Env) {
    // a number prints as itself
    let a = int(c);
    let d = Decimal::raw(a);
    let m = z(a).magnitude().clone();
    let one = z(ONE).magnitude().clone();
    let (w, f) = (&m / &one, &m % &one);
    let mut exp = format!("{}{w}", if a < 0 { "-" } else { "" });
    let fs = format!("{:0>18}", f.to_string());
    let fs = fs.trim_end_matches('0');
    if !fs.is_empty() {
        exp = format!("{exp}.{fs}");
    }
    let got = run(|| (format!("{d}"), d.to_string(e) == soroban_sdk::String::from_str(e, &exp)));
    c.eval(P, Some(("display", a)));
    c.check(P, got == Some((exp.clone(), true)), || format!("{a} units print as {got:?}, they are {exp}"));
    let back = run(|| Decimal::from_str(&exp).map(|d| d.atomics()));
    c.check(P, back == Some(Ok(a)), || format!("{exp} reads as {back:?} units, it is {a}"));
    // any number in decimal notation
    let neg = c.p(30);
    let wl = c.range(1, 22) as usize;
    let fl = c.range(0, 19) as usize;
    let dg = |c: &mut Case, n: usize| (0..n).map(|_| char::from(b'0' + if c.p(20) { 0 } else { c.below(10) as u8 })).collect::<String>();
    let (wp, fp) = (dg(c, wl), dg(c, fl));
    let s = format!("{}{wp}{}{fp}", if neg { "-" } else { "" }, if fl > 0 { "." } else { "" });
    let mag: Z = format!("{wp}{fp}").parse::<Z>().unwrap();
    let exact = if fl > 18 { None } else { Some(if neg { -mag * p10(18 - fl as u32) } else { mag * p10(18 - fl as u32) }) };
    let got = run(|| Decimal::from_str(&s).ok().map(|d| d.atomics())).flatten();
    judge(c, format!("read {s}"), got, exact, true);
    // not a number
    let bad = *c.pick(&["", ".", "1.", ".5", "a", "1.2.3", "1.-5", "1.+5", "--1", " 1", "1 ", "1,5", "0x1", "1.5e3", "-"]);
    let got = run(|| Decimal::from_str(bad).ok().map(|d| d.atomics())).flatten();
    c.eval(P, Some(("malformed", bad)));
    c.check(P, got.is_none() || bad == ".5", || format!("{bad:?} reads as {got:?}"));
}

fn ops(c: &mut Case) {
    let (a, b) = (int(c), int(c));
    let (x, y) = (Decimal::raw(a), Decimal::new(b));
    let one = z(ONE);
    let at = |f: &dyn Fn() -> Decimal| run(|| f().atomics());
    match c.below(19) {
        0 => judge(c, format!("{a} + {b}"), at(&|| x + y), Some(z(a) + b), true),
        1 => judge(c, format!("{a} - {b}"), at(&|| x - y), Some(z(a) - b), true),
        2 => judge(c, format!("{a} * {b}"), at(&|| x * y), Some(z(a) * b / &one), fit(&(z(a) * b))),
        3 => judge(c, format!("{a} / {b}"), at(&|| x / y), if b == 0 { None } else { Some(z(a) * &one / b) }, fit(&(z(a) * &one))),
        4 => judge(c, format!("{a} * int {b}"), run(|| x * b), Some(z(a) * b / &one), int_fits(b, a)),
        5 => judge(c, format!("int {b} * {a}"), run(|| b * x), Some(z(a) * b / &one), int_fits(b, a)),
        6 => judge(c, format!("{a} / int {b}"), at(&|| x / b), if b == 0 { None } else { Some(z(a) / b) }, true),
        7 => judge(c, format!("ratio {a} {b}"), at(&|| Decimal::from_ratio(a, b)), if b == 0 { None } else { Some(z(a) * &one / b) }, fit(&(z(a) * &one)) || fit(&(z(b) * 10))),
        8 => judge(c, format!("1 / {a}"), run(|| x.inv().map(|d| d.atomics())).flatten(), if a == 0 { None } else { Some(&one * &one / a) }, true),
        9 => judge(c, format!("|{a}|"), at(&|| x.abs()), Some(z(z(a).magnitude().clone())), true),
        10 => judge(c, format!("|{a} - {b}|"), at(&|| x.abs_diff(y)), Some(z((z(a) - b).magnitude().clone())), true),
        11 => {
            let p = c.range(-3, 40) as i32;
            let (ex, mid) = if p <= 18 {
                (z(a) * p10((18 - p) as u32), true)
            } else {
                (z(a) / p10((p - 18) as u32), p - 18 <= 38)
            };
            judge(c, format!("{a} atoms of {p} places"), at(&|| Decimal::from_atomics(a, p)), Some(ex), mid)
        }
        12 => {
            let p = c.range(0, 18) as i32;
            judge(c, format!("{a} to {p} places"), run(|| x.to_i128_with_precision(p)), Some(z(a) / p10((18 - p) as u32)), true)
        }
        13 => {
            let v = if c.p(20) { i64::MIN } else { b as i64 };
            judge(c, format!("{v} percent"), at(&|| Decimal::percent(v)), Some(z(v) * p10(16)), true);
            judge(c, format!("{v} permille"), at(&|| Decimal::permille(v)), Some(z(v) * p10(15)), true);
            judge(c, format!("{v} bps"), at(&|| Decimal::bps(v)), Some(z(v) * p10(14)), true)
        }
        14 | 15 => power(c),
        16 => {
            // order and equality are those of the numbers
            let b = if c.p(20) { a } else { b };
            let y = Decimal::raw(b);
            c.eval(P, Some(("order", a, b)));
            let ok = (x < y) == (a < b) && (x <= y) == (a <= b) && (x == y) == (a == b) && (x > y) == (a > b) && (x >= y) == (a >= b) && x.partial_cmp(&y) == a.partial_cmp(&b);
            c.check(P, ok, || format!("{a} and {b} units compare wrongly"));
            c.check(P, x.is_zero() == (a == 0) && x.atomics() == a && x.decimal_places() == 18, || format!("{a} units are not what they are"));
        }
        17 => {
            let ok = Decimal::one().atomics() == ONE && Decimal::zero().atomics() == 0 && Decimal::MAX.atomics() == i128::MAX && Decimal::MIN.atomics() == i128::MIN && Decimal::default().atomics() == 0;
            c.eval(P, None::<u8>);
            c.check(P, ok, || "a constant is wrong".into());
        }
        _ => {
            // division undoes multiplication to within a unit
            let small = c.amt(ONE / 10);
            let k = c.amt(1000);
            let s = Decimal::raw(small);
            c.eval(P, Some(("undo", small, k)));
            c.check(P, ((s * Decimal::from_atomics(k, 0)) / k).atomics() == small, || format!("{small} times and by {k}"));
        }
    }
}

/// A power is computed by at most n - 1 multiplications, each of which loses less than a unit.
fn power(c: &mut Case) {
    let a = match c.below(4) {
        0 => int(c),
        1 => c.amt(ONE),
        2 => ONE + c.amt(ONE / 10),
        _ => ONE * c.range(0, 12),
    };
    let a = if c.p(20) && a != i128::MIN { -a } else { a };
    let n = c.range(0, 70) as u32;
    let x = Decimal::raw(a);
    let got = run(|| x.pow(n).atomics());
    let one = z(ONE);
    let m = z(z(a).magnitude().clone());
    let exact = if n == 0 { one.clone() } else { m.pow(n) / one.pow(n - 1) };
    c.eval(P, Some(("pow", a, n)));
    match got {
        None => {
            c.count("stopped");
            c.check(P, !fit(&(exact * &one)), || format!("{a} to the {n} stopped"))
        }
        Some(g) => {
            let sign_ok = g == 0 || (g < 0) == (a < 0 && n % 2 == 1);
            let g = z(z(g).magnitude().clone());
            // (n-1) * max(1, X)^(n-1) units
            let err = if n == 0 {
                z(0)
            } else if m <= one {
                z(n - 1)
            } else {
                z(n - 1) * (m.pow(n - 1) / one.pow(n - 1) + 1)
            };
            c.check(P, sign_ok && g <= exact && &g + err >= exact, || format!("{a} to the {n} gave {g}, it is {exact}"));
        }
    }
}

fn u256(e: &Env, v: &Z) -> U256 {
    let (_, b) = v.to_bytes_be();
    let mut k = [0u8; 32];
    k[32 - b.len()..].copy_from_slice(&b);
    U256::from_be_bytes(e, &soroban_sdk::Bytes::from_array(e, &k))
}

fn fit256(v: &Z) -> bool {
    v.sign() != num_bigint::Sign::Minus && v.bits() <= 256
}

/// any u256
fn big(c: &mut Case) -> Z {
    match c.below(8) {
        0 => z(0),
        1 => z(c.range(1, 5)),
        2 => z(ONE) * c.range(1, 1000),
        3 => p10(c.below(77) as u32),
        4 => (z(1) << 256usize) - 1 - c.range(0, 2),
        5 => z(1) << c.below(256),
        _ => {
            let bits = c.rng.gen_range(1..=256usize);
            let v = (z(c.rng.gen::<u128>()) << 128usize) + z(c.rng.gen::<u128>());
            v >> (256 - bits)
        }
    }
}

/// The value of a 256-bit decimal, read through its own operations.
fn read(e: &Env, d: &Decimal256) -> Option<Z> {
    if let Some(v) = d.atomics() {
        return Some(z(v));
    }
    let k = z(1) << 128usize;
    let hi = d.div_by_u256(u256(e, &k)).atomics()?;
    let shifted = make(e, &(z(hi) << 128usize))?;
    let lo = (d.clone() - shifted).atomics()?;
    Some((z(hi) << 128usize) + lo)
}

/// A 256-bit decimal of so many units.
fn make(e: &Env, v: &Z) -> Option<Decimal256> {
    run(|| {
        let one = z(ONE);
        let whole = Decimal256::from_ratio(e, u256(e, &(v / &one)), U256::from_u128(e, 1));
        whole + Decimal256::new(e, u128::try_from(v % &one).unwrap())
    })
}

fn judge256(c: &mut Case, e: &Env, what: String, f: impl FnOnce() -> Decimal256, exact: Option<Z>, mid: bool) {
    let got = run(f);
    c.eval(P, Some(what.clone()));
    match (got, exact) {
        (Some(g), x) => {
            let v = read(e, &g);
            c.check(P, v.is_some() && v == x, || format!("256-bit {what} gave {v:?}, it is {x:?}"));
        }
        (None, Some(x)) => {
            c.count("stopped, 256 bits");
            c.check(P, !fit256(&x) || !mid, || format!("256-bit {what} stopped, it is {x}"));
        }
        (None, None) => c.count("stopped: undefined"),
    }
}

fn ops256(c: &mut Case, e: &Env) {
    let (a, b) = (big(c), big(c));
    let (Some(x), Some(y)) = (make(e, &a), make(e, &b)) else {
        c.fail(P, format!("{a} or {b} units cannot be made"));
        return;
    };
    let one = z(ONE);
    let u = |v: &Z| u128::try_from(v.clone()).ok();
    c.check(P, read(e, &x) == Some(a.clone()), || format!("{a} units are not what they are"));
    match c.below(14) {
        0 => judge256(c, e, format!("{a} + {b}"), || x + y, Some(a + b), true),
        1 => judge256(c, e, format!("{a} - {b}"), || x - y, Some(a - b), true),
        2 | 3 => {
            let m = &a * &b;
            judge256(c, e, format!("{a} * {b}"), || x.mul(e, &y), Some(&m / &one), fit256(&m))
        }
        4 => {
            let m = &a * &one;
            judge256(c, e, format!("{a} / {b}"), || x.div(e, y), if b == z(0) { None } else { Some(&m / &b) }, fit256(&m))
        }
        5 => {
            let m = &a * &one;
            judge256(c, e, format!("ratio {a} {b}"), || Decimal256::from_ratio(e, u256(e, &a), u256(e, &b)), if b == z(0) { None } else { Some(&m / &b) }, fit256(&m))
        }
        6 => judge256(c, e, format!("{a} / int {b}"), || x.div_by_u256(u256(e, &b)), if b == z(0) { None } else { Some(&a / &b) }, true),
        7 => {
            let r = run(|| x.inv(e));
            c.eval(P, Some(("inv", a.clone())));
            match r {
                Some(None) => c.check(P, a == z(0), || format!("256-bit 1 / {a} is said not to exist")),
                Some(Some(d)) => {
                    let v = read(e, &d);
                    c.check(P, a != z(0) && v == Some(&one * &one / &a), || format!("256-bit 1 / {a} is {v:?}"))
                }
                None => c.check(P, false, || format!("256-bit 1 / {a} stopped")),
            }
        }
        8 => {
            let both = u(&a).is_some() && u(&b).is_some();
            judge256(c, e, format!("|{a} - {b}|"), || x.abs_diff(e, y), Some(z((&a - &b).magnitude().clone())), both)
        }
        9 => {
            let v = u128::try_from(&a % (z(1) << 128usize)).unwrap();
            let p = c.range(-20, 60) as i32;
            let (ex, mid) = if p <= 18 { (z(v) * p10((18 - p) as u32), true) } else { (z(v) / p10((p - 18) as u32), true) };
            judge256(c, e, format!("{v} atoms of {p} places"), || Decimal256::from_atomics(e, v, p), Some(ex), mid)
        }
        10 => {
            let p = c.range(0, 18) as i32;
            let got = run(|| x.to_u128_with_precision(p));
            let ex = &a / p10((18 - p) as u32);
            c.eval(P, Some(("precision", a.clone(), p)));
            match got {
                Some(g) => c.check(P, z(g) == ex, || format!("256-bit {a} to {p} places gave {g}")),
                None => c.check(P, u(&a).is_none(), || format!("256-bit {a} to {p} places stopped")),
            }
        }
        11 => {
            let v = (&a % (z(1) << 64usize)).try_into().unwrap_or(0u64);
            judge256(c, e, format!("{v} percent"), || Decimal256::percent(e, v), Some(z(v) * p10(16)), true);
            judge256(c, e, format!("{v} permille"), || Decimal256::permille(e, v), Some(z(v) * p10(15)), true);
            judge256(c, e, format!("{v} bps"), || Decimal256::bps(e, v), Some(z(v) * p10(14)), true)
        }
        12 => {
            let b = if c.p(20) { a.clone() } else { b };
            let Some(y) = make(e, &b) else { return };
            c.eval(P, Some(("order 256", a.clone(), b.clone())));
            let ok = (x < y) == (a < b) && (x <= y) == (a <= b) && (x == y) == (a == b) && (x > y) == (a > b) && x.is_zero(e) == (a == z(0));
            c.check(P, ok, || format!("256-bit {a} and {b} units compare wrongly"));
            let ok = Decimal256::one(e).atomics() == Some(ONE as u128) && Decimal256::zero(e).is_zero(e) && read(e, &Decimal256::max(e)) == Some((z(1) << 256usize) - 1) && x.decimal_places() == 18 && Decimal256::raw(e, 7).atomics() == Some(7);
            c.check(P, ok, || "a 256-bit constant is wrong".into());
        }
        _ => {
            // powers: as for the signed type
            let m = match c.below(3) {
                0 => a,
                1 => z(ONE) + c.amt(ONE / 10),
                _ => z(c.amt(ONE * 12)),
            };
            let n = c.range(0, 70) as u32;
            let Some(x) = make(e, &m) else { return };
            let got = run(|| x.pow(e, n));
            let exact = if n == 0 { one.clone() } else { m.pow(n) / one.pow(n - 1) };
            c.eval(P, Some(("pow 256", m.clone(), n)));
            match got {
                None => c.check(P, !fit256(&(exact * &one)), || format!("256-bit {m} to the {n} stopped")),
                Some(g) => {
                    let Some(g) = read(e, &g) else { return c.fail(P, format!("256-bit {m} to the {n} is unreadable")) };
                    let err = if n == 0 {
                        z(0)
                    } else if m <= one {
                        z(n - 1)
                    } else {
                        z(n - 1) * (m.pow(n - 1) / one.pow(n - 1) + 1)
                    };
                    c.check(P, g <= exact && &g + err >= exact, || format!("256-bit {m} to the {n} gave {g}, it is {exact}"));
                }
            }
        }
    }
}

pub fn signed(c: &mut Case) {
    let w = W::new(0);
    for _ in 0..150 {
        if c.bad() {
            return;
        }
        w.env.budget().reset_unlimited();
        if c.p(20) {
            text(c, &w.env)
        } else {
            ops(c)
        }
    }
}

pub fn wide(c: &mut Case) {
    let w = W::new(0);
    for _ in 0..60 {
        if c.bad() {
            return;
        }
        w.env.budget().reset_unlimited();
        ops256(c, &w.env)
    }
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: P,
        work: vec![(3, "signed", signed as crate::Work), (2, "256-bit", wide)],
        scripted: vec![],
        quick: 20_000,
        thorough: 2_000_000,
        rule: "operations of both types on operands from the smallest unit to the largest, the special values and their neighbours, and texts; non-trivial when operation and operands are distinct",
    }]
}
