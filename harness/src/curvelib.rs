//! The curve library against exact arithmetic.
use crate::core::*;
use crate::Spec;
use ::curve::{from_saturating_linear, Curve, PiecewiseLinear, SaturatingLinear, Step};
use num_integer::Integer;
use rand::Rng;
use soroban_sdk::{Env, Vec as SVec};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A curve as the specification sees it.
#[derive(Clone, Debug, Hash, PartialEq)]
enum Spc {
    Const(u128),
    Sat((u64, u128), (u64, u128)),
    Pw(Vec<(u64, u128)>),
}

const P: &str = "P27";

fn run<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

impl Spc {
    fn real(&self, e: &Env) -> Curve {
        match self {
            Spc::Const(y) => Curve::constant(*y),
            Spc::Sat(a, b) => Curve::saturating_linear(*a, *b),
            Spc::Pw(p) => {
                let mut s = SVec::new(e);
                for (t, v) in p {
                    s.push_back(Step { time: *t, value: *v });
                }
                Curve::PiecewiseLinear(PiecewiseLinear { steps: s })
            }
        }
    }
    fn pts(&self) -> Vec<(u64, u128)> {
        match self {
            Spc::Const(y) => vec![(0, *y)],
            Spc::Sat(a, b) => vec![*a, *b],
            Spc::Pw(p) => p.clone(),
        }
    }
    fn size(&self) -> u32 {
        self.pts().len() as u32
    }
    fn end(&self) -> Option<u64> {
        match self {
            Spc::Const(_) => None,
            _ => self.pts().last().map(|x| x.0),
        }
    }
    /// ordered, so that values are defined
    fn ordered(&self) -> bool {
        let p = self.pts();
        !p.is_empty() && p.windows(2).all(|w| w[0].0 < w[1].0)
    }
    /// what validation has to accept: a step list starts after time 0
    fn valid(&self) -> bool {
        self.ordered() && !matches!(self, Spc::Pw(p) if p[0].0 == 0)
    }
    fn rising(&self) -> bool {
        self.pts().windows(2).all(|w| w[0].1 <= w[1].1)
    }
    fn falling(&self) -> bool {
        self.pts().windows(2).all(|w| w[0].1 >= w[1].1)
    }
    /// exact value as a fraction, and whether the products of the computation fit 128 bits
    fn at(&self, x: u64) -> ((Z, Z), bool) {
        let p = self.pts();
        if x <= p[0].0 {
            return ((z(p[0].1), z(1)), true);
        }
        for w in p.windows(2) {
            // a saturating curve is computed the same way at its end
            if x < w[1].0 || (x == w[1].0 && matches!(self, Spc::Sat(..))) {
                let dt = z(w[1].0) - z(w[0].0);
                let dv = z(w[1].1) - z(w[0].1);
                let prod = &dv * (z(x) - z(w[0].0));
                let fits = prod.magnitude() <= z(u128::MAX).magnitude();
                return ((z(w[0].1) * &dt + prod, dt), fits);
            }
        }
        ((z(p[p.len() - 1].1), z(1)), true)
    }
    /// the value, rounded towards the earlier point
    fn val(&self, x: u64) -> (Z, bool) {
        let ((n, d), fits) = self.at(x);
        let p = self.pts();
        let down = p.windows(2).find(|w| w[0].0 <= x && x < w[1].0).map_or(true, |w| w[0].1 <= w[1].1);
        (if down { n.div_floor(&d) } else { n.div_ceil(&d) }, fits)
    }
    fn all_fit(&self) -> bool {
        self.pts().windows(2).all(|w| (z(w[1].1) - z(w[0].1)).magnitude() * z(w[1].0 - w[0].0).magnitude() <= *z(u128::MAX).magnitude())
    }
}

fn time(c: &mut Case, base: u64) -> u64 {
    match c.below(10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX - c.below(3) as u64,
        3 => c.rng.gen(),
        4 => base.wrapping_add(c.below(4) as u64),
        5 => base.saturating_add(c.amt(1 << 40) as u64),
        6 => c.amt(100) as u64,
        _ => 1_700_000_000u64.saturating_add(c.amt(200_000_000) as u64),
    }
}

fn value(c: &mut Case, cap: u128) -> u128 {
    match c.below(10) {
        0 => 0,
        1 => cap,
        2 => c.below(10) as u128,
        _ => {
            let bits = 128 - cap.leading_zeros();
            let b = c.rng.gen_range(1..=bits.max(1));
            let hi = if b >= 128 { u128::MAX } else { (1u128 << b) - 1 };
            c.rng.gen_range(0..=hi).min(cap)
        }
    }
}

fn gen(c: &mut Case, base: u64) -> Spc {
    let cap = *c.pick(&[10u128, 1_000_000, 1_000_000_000_000, 1 << 64, 1 << 100, u128::MAX / 4, u128::MAX]);
    let kind = c.below(10);
    let n = match kind {
        0 => return Spc::Const(value(c, cap)),
        1..=4 => 2,
        _ => *c.pick(&[1usize, 2, 3, 3, 4, 5, 8, 12]),
    };
    let mut t: Vec<u64> = (0..n).map(|_| time(c, base)).collect();
    let mut v: Vec<u128> = (0..n).map(|_| value(c, cap)).collect();
    if !c.p(12) {
        t.sort();
        if !c.p(8) {
            t.dedup();
            while t.len() < n {
                let last = *t.last().unwrap();
                let d = c.amt(1_000_000) as u64;
                match last.checked_add(d) {
                    Some(x) => t.push(x),
                    None => {
                        let f = t[0];
                        if f == 0 {
                            t.push(0);
                            break;
                        }
                        t.insert(0, f - 1);
                    }
                }
            }
        }
    }
    match c.below(5) {
        0 | 1 => v.sort(),
        2 => v.sort_by(|a, b| b.cmp(a)),
        3 => {
            // monotonic but for one point, or with a plateau
            v.sort();
            let (i, j) = (c.below(n), c.below(n));
            if c.p(50) {
                v[i] = v[j];
            } else {
                v.swap(i, j);
            }
            if c.p(40) {
                v.reverse();
            }
        }
        _ => {}
    }
    let p: Vec<(u64, u128)> = t.into_iter().zip(v).collect();
    if kind <= 4 && p.len() == 2 {
        Spc::Sat(p[0], p[1])
    } else {
        Spc::Pw(p)
    }
}

fn times(c: &mut Case, ss: &[&Spc]) -> Vec<u64> {
    let mut v = vec![0, 1, u64::MAX];
    for s in ss {
        let p = s.pts();
        for (t, _) in &p {
            v.extend([*t, t.saturating_sub(1), t.saturating_add(1)]);
        }
        for w in p.windows(2) {
            if w[0].0 < w[1].0 {
                for _ in 0..2 {
                    v.push(c.rng.gen_range(w[0].0..=w[1].0));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn judge(c: &mut Case, e: &Env, s: &Spc) {
    let k = s.real(e);
    c.op(format!("{s:?}"));
    c.eval(P, Some(s.clone()));
    // validation
    if let Some(r) = run(|| (k.validate().is_ok(), k.validate_monotonic_increasing().is_ok(), k.validate_monotonic_decreasing().is_ok())) {
        let v = s.valid();
        let exp = (v, v && s.rising(), v && s.falling());
        c.check(P, r == exp, || format!("validation (any, rising, falling) of {s:?}: {r:?}, expected {exp:?}"));
    } else {
        c.check(P, false, || format!("validation of {s:?} crashes"));
    }
    c.count(if s.valid() { "well-formed" } else { "malformed" });
    c.check(P, k.size() == s.size(), || format!("size {} of {s:?}", k.size()));
    for m in [0, s.size().saturating_sub(1), s.size(), s.size() + 1, u32::MAX] {
        c.check(P, k.validate_complexity(m).is_ok() == (s.size() <= m), || format!("complexity of {s:?} against {m}"));
    }
    c.check(P, k.end() == s.end(), || format!("end {:?} of {s:?}", k.end()));
    if s.size() == 0 {
        return;
    }
    let lo = s.pts().iter().map(|p| p.1).min().unwrap();
    let hi = s.pts().iter().map(|p| p.1).max().unwrap();
    c.check(P, k.range() == (lo, hi), || format!("range {:?} of {s:?}", k.range()));
    if let Curve::PiecewiseLinear(pl) = &k {
        let p = s.pts();
        c.check(P, pl.first_value() == Some(p[0].1) && pl.end_value() == Some(p[p.len() - 1].1), || format!("first and last value of {s:?}"));
    }
    if !s.ordered() {
        return;
    }
    let mut last: Option<u128> = None;
    for x in times(c, &[s]) {
        let (v, fits) = s.val(x);
        match run(|| k.value(x)) {
            None => c.check(P, !fits, || format!("value at {x} of {s:?} crashes, it is {v}")),
            Some(r) => {
                c.eval(P, Some((s.clone(), x)));
                c.check(P, z(r) == v, || format!("value at {x} of {s:?} is {v}, computed {r}"));
                c.check(P, lo <= r && r <= hi, || format!("value {r} at {x} of {s:?} is outside its range"));
                if s.rising() {
                    c.check(P, last.map_or(true, |l| l <= r), || format!("rising curve {s:?} falls at {x}"));
                }
                if s.falling() {
                    c.check(P, last.map_or(true, |l| l >= r), || format!("falling curve {s:?} rises at {x}"));
                }
                last = Some(r);
            }
        }
    }
    if let Spc::Sat(a, b) = s {
        let pl = from_saturating_linear(e, &SaturatingLinear { min_x: a.0, min_y: a.1, max_x: b.0, max_y: b.1 });
        let same = Spc::Pw(s.pts()).real(e);
        c.check(P, Curve::PiecewiseLinear(pl) == same, || format!("{s:?} converted to steps differs"));
    }
}

fn combine(c: &mut Case, e: &Env, a: &Spc, b: &Spc) {
    if !a.ordered() || !b.ordered() {
        return;
    }
    let (ka, kb) = (a.real(e), b.real(e));
    let max = |s: &Spc| z(s.pts().iter().map(|p| p.1).max().unwrap());
    let fits = a.all_fit() && b.all_fit() && max(a) + max(b) <= z(u128::MAX);
    c.op(format!("combine {a:?} and {b:?}"));
    let ts = times(c, &[a, b]);
    for (x, y, who) in [(&ka, &kb, "first with second"), (&kb, &ka, "second with first")] {
        let Some(k) = run(|| x.combine(e, y)) else {
            c.count("combination impossible");
            c.check(P, !fits, || format!("combining {a:?} and {b:?} crashes"));
            continue;
        };
        c.count("combined");
        c.eval(P, Some((a.clone(), b.clone(), who)));
        for t in &ts {
            let ((n1, d1), _) = a.at(*t);
            let ((n2, d2), _) = b.at(*t);
            let Some(v) = run(|| k.value(*t)) else {
                // the products of the combined curve can be larger
                let big = (max(a) + max(b)) * z(u64::MAX) > z(u128::MAX);
                c.check(P, !fits || big, || format!("value at {t} of the combination of {a:?} and {b:?} crashes"));
                continue;
            };
            // |v - (n1/d1 + n2/d2)| < 2, and exactly shifted by constants
            let diff = z(v) * &d1 * &d2 - (&n1 * &d2 + &n2 * &d1);
            let lim = if matches!(a, Spc::Const(_)) || matches!(b, Spc::Const(_)) { z(1) } else { z(2) };
            c.eval(P, Some((a.clone(), b.clone(), *t)));
            c.check(P, *diff.magnitude() < *(lim * &d1 * &d2).magnitude(), || {
                format!("the combination of {a:?} and {b:?} at {t} is {v}, the sum is {}", (&n1 * &d2 + &n2 * &d1) / (&d1 * &d2))
            });
            if let (Spc::Const(y), o) | (o, Spc::Const(y)) = (a, b) {
                c.check(P, z(v) == z(*y) + o.val(*t).0, || format!("the combination of {a:?} and {b:?} at {t} is {v}"));
            }
        }
        // the combination is a well-formed curve that ends where the later one ends
        let ends = [a.end(), b.end()].into_iter().flatten().max();
        c.check(P, k.end() == ends, || format!("the combination of {a:?} and {b:?} ends at {:?}", k.end()));
        let mut u: Vec<u64> = vec![];
        for s in [a, b] {
            if !matches!(s, Spc::Const(_)) {
                u.extend(s.pts().iter().map(|p| p.0));
            }
        }
        u.sort();
        u.dedup();
        c.check(P, k.size() as usize <= u.len().max(1), || format!("the combination of {a:?} and {b:?} has {} points", k.size()));
        if a.valid() && b.valid() && u.first() != Some(&0) {
            c.check(P, k.validate().is_ok(), || format!("the combination of {a:?} and {b:?} is not well-formed"));
            if a.rising() && b.rising() {
                c.check(P, k.validate_monotonic_increasing().is_ok(), || format!("the combination of rising {a:?} and {b:?} is not rising"));
            }
            if a.falling() && b.falling() {
                c.check(P, k.validate_monotonic_decreasing().is_ok(), || format!("the combination of falling {a:?} and {b:?} is not falling"));
            }
        }
    }
}

pub fn curves(c: &mut Case) {
    let w = W::new(0);
    for _ in 0..14 {
        if c.bad() {
            return;
        }
        w.env.budget().reset_unlimited();
        let base = time(c, 5);
        let a = gen(c, base);
        let mut b = gen(c, base);
        if c.p(15) {
            // shares points with the first
            if let Spc::Pw(p) = &a {
                let mut q = p.clone();
                let i = c.below(q.len().max(1));
                if i < q.len() {
                    q[i].1 = value(c, 1 << 90);
                }
                b = Spc::Pw(q);
            }
        }
        judge(c, &w.env, &a);
        judge(c, &w.env, &b);
        combine(c, &w.env, &a, &b);
        c.op("empty step list".into());
        let none = Spc::Pw(vec![]).real(&w.env);
        c.check(P, none.validate().is_err() && none.validate_monotonic_increasing().is_err() && none.validate_monotonic_decreasing().is_err(), || "a curve without points validates".into());
    }
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: P,
        work: vec![(1, "curves", curves)],
        scripted: vec![],
        quick: 12_000,
        thorough: 1_200_000,
        rule: "random curves of every kind, well-formed or not, evaluated at and around every breakpoint and at random times, and combined in pairs; non-trivial when the curve and time are distinct",
    }]
}
