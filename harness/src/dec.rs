//! Exact decimal arithmetic for the oracles: mantissa (i128) and scale. Shares no code with
//! the library under test. Overflow panics with "oracle overflow" (an error of the harness).
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub m: i128,
    pub s: u32,
}

fn p10(n: u32) -> i128 {
    10i128.checked_pow(n).expect("oracle overflow")
}

impl Dec {
    pub const ZERO: Dec = Dec { m: 0, s: 0 };
    pub fn new(m: i128, s: u32) -> Dec {
        Dec { m, s }.norm()
    }
    pub fn int(v: i128) -> Dec {
        Dec::new(v, 0)
    }
    /// Normalised: no trailing zeros in the fraction.
    pub fn norm(mut self) -> Dec {
        if self.m == 0 {
            return Dec { m: 0, s: 0 };
        }
        while self.s > 0 && self.m % 10 == 0 {
            self.m /= 10;
            self.s -= 1;
        }
        self
    }
    /// Parses [-]digits[.digits]; also a missing integer or fraction part.
    pub fn parse(t: &str) -> Option<Dec> {
        let (neg, u) = match t.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, t),
        };
        let (i, f) = match u.find('.') {
            Some(k) => (&u[..k], &u[k + 1..]),
            None => (u, ""),
        };
        if i.is_empty() && f.is_empty() {
            return None;
        }
        let mut m: i128 = 0;
        for c in i.chars().chain(f.chars()) {
            let d = c.to_digit(10)?;
            m = m.checked_mul(10)?.checked_add(d as i128)?;
        }
        Some(Dec::new(if neg { -m } else { m }, f.len() as u32))
    }
    fn align(a: Dec, b: Dec) -> (i128, i128, u32) {
        let s = a.s.max(b.s);
        (
            a.m.checked_mul(p10(s - a.s)).expect("oracle overflow"),
            b.m.checked_mul(p10(s - b.s)).expect("oracle overflow"),
            s,
        )
    }
    pub fn add(self, o: Dec) -> Dec {
        let (a, b, s) = Dec::align(self, o);
        Dec::new(a.checked_add(b).expect("oracle overflow"), s)
    }
    pub fn sub(self, o: Dec) -> Dec {
        self.add(o.neg())
    }
    pub fn neg(self) -> Dec {
        Dec { m: -self.m, s: self.s }
    }
    pub fn abs(self) -> Dec {
        Dec { m: self.m.abs(), s: self.s }
    }
    pub fn mul(self, o: Dec) -> Dec {
        Dec::new(self.m.checked_mul(o.m).expect("oracle overflow"), self.s + o.s)
    }
    pub fn is_zero(self) -> bool {
        self.m == 0
    }
    pub fn to_f64(self) -> f64 {
        self.m as f64 / 10f64.powi(self.s as i32)
    }
}

impl PartialEq for Dec {
    fn eq(&self, o: &Dec) -> bool {
        let (a, b) = (self.norm(), o.norm());
        a.m == b.m && a.s == b.s
    }
}
impl Eq for Dec {}
impl PartialOrd for Dec {
    fn partial_cmp(&self, o: &Dec) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Dec {
    fn cmp(&self, o: &Dec) -> Ordering {
        let (a, b, _) = Dec::align(*self, *o);
        a.cmp(&b)
    }
}
impl fmt::Display for Dec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let d = self.norm();
        let u = d.m.unsigned_abs().to_string();
        let sign = if d.m < 0 { "-" } else { "" };
        if d.s == 0 {
            write!(f, "{}{}", sign, u)
        } else {
            let n = d.s as usize;
            let padded = if u.len() <= n { format!("{}{}", "0".repeat(n + 1 - u.len()), u) } else { u };
            let k = padded.len() - n;
            write!(f, "{}{}.{}", sign, &padded[..k], &padded[k..])
        }
    }
}

/// Unsigned 256-bit helper for exact cross-multiplication: |a|*|b| as (hi, lo).
fn mul_u128(a: u128, b: u128) -> (u128, u128) {
    let (a1, a0) = (a >> 64, a & u64::MAX as u128);
    let (b1, b0) = (b >> 64, b & u64::MAX as u128);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & u64::MAX as u128) + (p10 & u64::MAX as u128);
    let lo = (p00 & u64::MAX as u128) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}

/// Is q (a decimal the library computed) the quotient n/d up to `ulps` units of the last
/// place a 28-digit decimal can carry for it?
/// Uses f64 only to size the tolerance; the residual q*d - n is computed in extended precision.
pub fn is_quotient(q: Dec, n: Dec, d: Dec) -> bool {
    near_quotient(q, n, d, 0.0)
}

/// As `is_quotient`, with an additional absolute tolerance.
pub fn near_quotient(q: Dec, n: Dec, d: Dec, extra: f64) -> bool {
    assert!(!d.is_zero());
    if n.is_zero() {
        return q.is_zero();
    }
    let sign = (n.m < 0) != (d.m < 0);
    if q.m != 0 && (q.m < 0) != sign {
        return false;
    }
    // |q*d - n| <= tol*|d|, tol = max(|q|*1.5e-28, 1e-28): one unit of the last digit the type can hold: scaled integers at a common scale.
    // left scale: q.s + d.s ; bring n there.
    let ls = q.s + d.s;
    // exact 256-bit product
    let (ph, pl) = mul_u128(q.m.unsigned_abs(), d.m.unsigned_abs());
    // n scaled (or product scaled up if n has a larger scale)
    let prod;
    let target;
    if n.s <= ls {
        let k = ls - n.s;
        prod = (ph, pl);
        target = mul_pow10(n.m.unsigned_abs(), k);
    } else {
        let k = n.s - ls;
        prod = mul256_pow10((ph, pl), k);
        target = Some((0, n.m.unsigned_abs()));
    }
    let Some(target) = target else { return false };
    let diff = sub_abs(prod, target);
    let diff_f = to_f(diff) / 10f64.powi(ls.max(n.s) as i32);
    let dq = q.abs().to_f64();
    let tol = ((dq * 1.5e-28).max(1.0001e-28) + extra) * d.abs().to_f64();
    diff_f <= tol
}

fn mul256_pow10(mut x: (u128, u128), k: u32) -> (u128, u128) {
    for _ in 0..k {
        let (h, l) = mul_u128(x.1, 10);
        x = (x.0 * 10 + h, l);
    }
    x
}
fn mul_pow10(x: u128, k: u32) -> Option<(u128, u128)> {
    let mut r = (0u128, x);
    for _ in 0..k {
        let (h, l) = mul_u128(r.1, 10);
        r = (r.0.checked_mul(10)?.checked_add(h)?, l);
    }
    Some(r)
}
fn sub_abs(a: (u128, u128), b: (u128, u128)) -> (u128, u128) {
    let (x, y) = if a >= b { (a, b) } else { (b, a) };
    let (lo, borrow) = x.1.overflowing_sub(y.1);
    (x.0 - y.0 - borrow as u128, lo)
}
fn to_f(x: (u128, u128)) -> f64 {
    x.0 as f64 * 2f64.powi(128) + x.1 as f64
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn t() {
        let p = |s: &str| Dec::parse(s).unwrap();
        assert_eq!(p("1.50"), p("1.5"));
        assert_eq!(p("1.50").to_string(), "1.5");
        assert_eq!(p("-0.05").to_string(), "-0.05");
        assert_eq!(p("0.1").add(p("0.2")), p("0.3"));
        assert!(is_quotient(p("0.3333333333333333333333333333"), p("1"), p("3")));
        assert!(!is_quotient(p("0.33333333333333333333"), p("1"), p("3")));
        assert!(is_quotient(p("2"), p("10"), p("5")));
        assert!(!is_quotient(p("-2"), p("10"), p("5")));
        assert!(is_quotient(p("12345678901234567890.5"), p("24691357802469135781"), p("2")));
    }
}
