//! Executable specification of the pools, in unbounded integers, written from the documented
//! formulas (and, for the recorded stable-curve defect, from the defective formula).
use crate::core::{zdiv, Z};
use num_traits::{Signed, ToPrimitive, Zero};

pub fn e18() -> Z {
    Z::from(1_000_000_000_000_000_000u64)
}

pub fn pow10(n: u32) -> Z {
    num_traits::pow(Z::from(10), n as usize)
}

pub fn isqrt(n: &Z) -> Z {
    n.sqrt()
}

#[derive(Clone, Debug, PartialEq)]
pub struct SwapOut {
    pub ret: i128,
    pub comm: i128,
    pub spread: i128,
}

fn i(v: &Z) -> i128 {
    v.to_i128().expect("fits")
}

/// Constant product: the amount bought before the fee is `ask*amt/(offer+amt)`, rounded up or down.
/// It is never better than the pool's spot price. `None`: no swap can be made.
pub fn xyk_swap(offer: i128, ask: i128, amt: i128, fee_bps: i64, up: bool) -> Option<SwapOut> {
    let (o, a, m) = (Z::from(offer), Z::from(ask), Z::from(amt));
    if offer <= 0 || ask <= 0 {
        return None;
    }
    let num = &a * &m;
    let den = &o + &m;
    let gross = if up { &a - zdiv(&(&o * &a), &den) } else { zdiv(&num, &den) };
    let spot = zdiv(&(&m * &a), &o);
    let gross = gross.min(spot.clone());
    let spread = &spot - &gross;
    let comm = zdiv(&(&gross * Z::from(fee_bps)), &Z::from(10_000));
    let ret = &gross - &comm;
    ret.to_i128()?;
    spread.to_i128()?;
    Some(SwapOut { ret: i(&ret), comm: i(&comm), spread: i(&spread) })
}

/// spread/gross, in 1e-18, truncated; None when gross is 0
pub fn spread_ratio(s: &SwapOut) -> Option<Z> {
    let g = Z::from(s.ret) + Z::from(s.comm);
    if g.is_zero() {
        return None;
    }
    Some(zdiv(&(Z::from(s.spread) * e18()), &g))
}

#[derive(Clone, Debug, PartialEq)]
pub struct DepOut {
    pub a: i128,
    pub b: i128,
    pub user_shares: i128,
    pub locked: i128,
}

#[allow(clippy::too_many_arguments)]
pub fn xyk_deposit(
    (ra, rb, ts): (i128, i128, i128),
    (bal_a, bal_b): (i128, i128),
    da: Option<i128>,
    ma: Option<i128>,
    db: Option<i128>,
    mb: Option<i128>,
    slip_bps: i64,
) -> Result<DepOut, &'static str> {
    for v in [da, ma, db, mb].into_iter().flatten() {
        if v <= 0 {
            return Err("nonpositive");
        }
    }
    let (Some(da), Some(db)) = (da, db) else { return Err("one-sided") };
    let (a, b);
    if ra == 0 && rb == 0 {
        (a, b) = (da, db);
    } else if ra == 0 || rb == 0 {
        return Err("one reserve is empty");
    } else {
        if ma.map_or(false, |m| m > da) || mb.map_or(false, |m| m > db) {
            return Err("min>desired");
        }
        let side = |other: i128, ro: i128, r: i128, des: i128, min: Option<i128>| {
            let mut x = zdiv(&(Z::from(other) * Z::from(r)), &Z::from(ro));
            if x > Z::from(des) {
                let over = zdiv(&(&x * e18()), &Z::from(des)) - e18();
                if over > Z::from(slip_bps) * Z::from(100_000_000_000_000u64) {
                    return Err("slippage");
                }
                x = Z::from(des);
            }
            let x = i(&x);
            if min.map_or(false, |m| x < m) {
                return Err("below min");
            }
            Ok(x)
        };
        a = side(db, rb, ra, da, ma)?;
        b = side(da, ra, rb, db, mb)?;
    }
    let (nba, nbb) = (Z::from(bal_a) + a, Z::from(bal_b) + b);
    if ra > 0 && rb > 0 {
        let sa = zdiv(&(nba * ts), &Z::from(ra));
        let sb = zdiv(&(nbb * ts), &Z::from(rb));
        let m = sa.min(sb) - ts;
        if m.is_negative() {
            return Err("shares");
        }
        Ok(DepOut { a, b, user_shares: i(&m), locked: 0 })
    } else {
        let s = isqrt(&(Z::from(a) * Z::from(b)));
        if s <= Z::from(1000) {
            return Err("too little");
        }
        Ok(DepOut { a, b, user_shares: i(&s) - 1000 - ts, locked: 1000 })
    }
}

pub fn withdraw(ra: i128, rb: i128, ts: i128, shares: i128) -> Option<(i128, i128)> {
    if ts == 0 {
        return None;
    }
    let ratio = zdiv(&(Z::from(shares) * e18()), &Z::from(ts));
    Some((i(&zdiv(&(&ratio * ra), &e18())), i(&zdiv(&(&ratio * rb), &e18()))))
}

// ------------------------------------------------------------------------------------- stable

pub struct Stable {
    pub amp: u64,
    pub da: u32,
    pub db: u32,
}

fn abs_diff(a: &Z, b: &Z) -> Z {
    (a - b).abs()
}

/// The invariant as the code computes it: leverage scaled up by 1e18 (recorded defect).
pub fn d_code(amp: u64, x: &Z, y: &Z) -> Option<Z> {
    let lev = Z::from(amp) * 2 * e18();
    newton_d(&lev, x, y)
}

fn newton_d(lev: &Z, x: &Z, y: &Z) -> Option<Z> {
    let s = x + y;
    if s.is_zero() {
        return Some(Z::zero());
    }
    let den0: Z = x * 2 * (y * 2);
    if den0.is_zero() {
        return None;
    }
    let mut d = s.clone();
    for _ in 0..64 {
        let dp = zdiv(&(&d * &d * &d), &den0);
        let prev = d.clone();
        let num = (lev * &s + &dp * 2) * &d;
        let den = &d * (lev - 1) + &dp * 3;
        d = zdiv(&num, &den);
        if abs_diff(&d, &prev) <= Z::from(1_000_000_000_000u64) {
            return Some(d);
        }
    }
    None
}

/// The stableswap invariant (A*n convention: A*n*S + D = A*n*D + D^3/(4xy)), 1e-18 of the
/// pools' scale, computed with 1e12 extra scale so rounding is negligible.
pub fn d_true(amp: u64, x: &Z, y: &Z) -> Option<Z> {
    let k = pow10(12);
    let (x, y) = (x * &k, y * &k);
    let lev = Z::from(amp) * 2;
    let s = &x + &y;
    if s.is_zero() {
        return Some(Z::zero());
    }
    let den0: Z = &x * 2 * (&y * 2);
    if den0.is_zero() {
        return None;
    }
    let mut d = s.clone();
    for _ in 0..300 {
        let dp = zdiv(&(&d * &d * &d), &den0);
        let prev = d.clone();
        let num = (&lev * &s + &dp * 2) * &d;
        let den = &d * (&lev - 1) + &dp * 3;
        d = zdiv(&num, &den);
        if abs_diff(&d, &prev) <= Z::from(1) {
            return Some(zdiv(&d, &k));
        }
    }
    None
}

/// y for a given x and D on the curve, as the code iterates it (18 decimals).
pub fn y_code(amp: u64, d: &Z, x: &Z) -> Option<Z> {
    // leverage = amp*100*2 (over AMP_PRECISION 100)
    let lev = Z::from(amp) * 100 * 2;
    let ap = Z::from(100);
    if x.is_zero() {
        return None;
    }
    let c = zdiv(&(d * d * d * &ap), &(x * 4 * &lev));
    let b = x + zdiv(&(d * &ap), &lev);
    let mut y = d.clone();
    for _ in 0..64 {
        let prev = y.clone();
        let den: Z = &y * 2 + &b - d;
        if !den.is_positive() {
            return None;
        }
        y = zdiv(&(&y * &y + &c), &den);
        if abs_diff(&y, &prev) <= Z::from(1_000_000_000_000u64) {
            return Some(y);
        }
    }
    None
}

/// y on the true curve (18 decimals, floor up to an error far below one part in 1e18 of a token).
pub fn y_true(amp: u64, d: &Z, x: &Z) -> Option<Z> {
    let k = pow10(12);
    let (d, x) = (d * &k, x * &k);
    let lev = Z::from(amp) * 2;
    if x.is_zero() {
        return None;
    }
    let c = zdiv(&(&d * &d * &d), &(&x * 4 * &lev));
    let b = &x + zdiv(&d, &lev);
    let mut y = d.clone();
    for _ in 0..300 {
        let prev = y.clone();
        let den: Z = &y * 2 + &b - &d;
        if !den.is_positive() {
            return None;
        }
        y = zdiv(&(&y * &y + &c), &den);
        if abs_diff(&y, &prev) <= Z::from(1) {
            return Some(zdiv(&y, &k));
        }
    }
    None
}

fn scale(v: &Z, dec: u32) -> Z {
    v * pow10(18 - dec)
}

fn div_ceil(a: &Z, b: &Z) -> Z {
    zdiv(&(a + b - 1), b)
}

impl Stable {
    fn great(&self) -> u32 {
        self.da.max(self.db)
    }
    /// Swap output; `offer`, `ask` reserves; od/ad their decimals.
    pub fn swap(&self, code: bool, offer: i128, od: u32, ask: i128, ad: u32, amt: i128, fee: i64) -> Option<SwapOut> {
        if offer <= 0 || ask <= 0 {
            return None;
        }
        let (x0, y0) = (scale(&Z::from(offer), od), scale(&Z::from(ask), ad));
        let x1 = scale(&(Z::from(offer) + amt), od);
        let y1 = if code {
            y_code(self.amp, &d_code(self.amp, &x0, &y0)?, &x1)?
        } else {
            y_true(self.amp, &d_true(self.amp, &x0, &y0)?, &x1)?
        };
        // to the finest precision of the two tokens, then up to the ask token's
        let g = zdiv(&y1, &pow10(18 - self.great()));
        let y = div_ceil(&g, &pow10(self.great() - ad));
        self.finish(ask, &y, amt, od, ad, fee)
    }
    fn finish(&self, ask: i128, y: &Z, amt: i128, od: u32, ad: u32, fee: i64) -> Option<SwapOut> {
        let gross = Z::from(ask) - y;
        if gross.is_negative() {
            return None;
        }
        let off = if od <= ad { Z::from(amt) * pow10(ad - od) } else { zdiv(&Z::from(amt), &pow10(od - ad)) };
        let spread = if off > gross { &off - &gross } else { Z::zero() };
        let comm = zdiv(&(&gross * Z::from(fee)), &Z::from(10_000));
        let ret = &gross - &comm;
        Some(SwapOut { ret: ret.to_i128()?, comm: comm.to_i128()?, spread: spread.to_i128()? })
    }
    /// Outcome for a given gross amount (for tolerance around the true curve).
    pub fn with_gross(&self, ask: i128, gross: i128, amt: i128, od: u32, ad: u32, fee: i64) -> Option<SwapOut> {
        self.finish(ask, &(Z::from(ask) - gross), amt, od, ad, fee)
    }
    /// Shares a deposit of (a, b) earns.
    pub fn deposit(&self, code: bool, ra: i128, rb: i128, ts: i128, a: i128, b: i128) -> Option<i128> {
        let d = |x: &Z, y: &Z| if code { d_code(self.amp, x, y) } else { d_true(self.amp, x, y) };
        let d1 = d(&scale(&(Z::from(ra) + a), self.da), &scale(&(Z::from(rb) + b), self.db))?;
        if ts == 0 {
            let s: Z = zdiv(&d1, &pow10(18 - self.great())) - 1000;
            if !s.is_positive() {
                return None;
            }
            return s.to_i128();
        }
        let d0 = d(&scale(&Z::from(ra), self.da), &scale(&Z::from(rb), self.db))?;
        if d0.is_zero() {
            return None;
        }
        let delta = &d1 - &d0;
        if delta.is_negative() {
            return None;
        }
        let ratio = zdiv(&(&delta * e18()), &d0);
        zdiv(&(Z::from(ts) * ratio), &e18()).to_i128()
    }
    pub fn d(&self, code: bool, ra: i128, rb: i128) -> Option<Z> {
        let (x, y) = (scale(&Z::from(ra), self.da), scale(&Z::from(rb), self.db));
        if code {
            d_code(self.amp, &x, &y)
        } else {
            d_true(self.amp, &x, &y)
        }
    }
}
