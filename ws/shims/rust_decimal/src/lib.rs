//! Stand-in for rust_decimal 1.x: a 96-bit mantissa with a scale of at most 28.
use num_traits::{FromPrimitive, ToPrimitive};
use std::cmp::Ordering;
use std::fmt;
use std::str::FromStr;

pub mod prelude {
    pub use crate::Decimal;
    pub use num_traits::{FromPrimitive, Signed, ToPrimitive, Zero};
    pub use std::str::FromStr;
}

const MAX: i128 = (1i128 << 96) - 1;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
    ErrorString(String),
    ExceedsMaximumPossibleValue,
    Underflow,
    ScaleExceedsMaximumPrecision(u32),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Copy, Default)]
pub struct Decimal {
    m: i128,
    s: u32,
}

fn pow10(n: u32) -> i128 {
    10i128.pow(n)
}

impl Decimal {
    pub const ZERO: Decimal = Decimal { m: 0, s: 0 };
    pub const ONE: Decimal = Decimal { m: 1, s: 0 };
    pub const ONE_HUNDRED: Decimal = Decimal { m: 100, s: 0 };
    pub const MAX_SCALE: u32 = 28;

    pub fn new(num: i64, scale: u32) -> Decimal {
        Self::try_new(num, scale).unwrap_or_else(|e| panic!("{e}"))
    }
    pub fn try_new(num: i64, scale: u32) -> Result<Decimal, Error> {
        if scale > 28 {
            return Err(Error::ScaleExceedsMaximumPrecision(scale));
        }
        Ok(Decimal { m: num as i128, s: scale })
    }
    pub fn from_i128_with_scale(num: i128, scale: u32) -> Decimal {
        Self::try_from_i128_with_scale(num, scale).unwrap_or_else(|e| panic!("{e}"))
    }
    pub fn try_from_i128_with_scale(num: i128, scale: u32) -> Result<Decimal, Error> {
        if scale > 28 {
            return Err(Error::ScaleExceedsMaximumPrecision(scale));
        }
        if num > MAX || num < -MAX {
            return Err(Error::ExceedsMaximumPossibleValue);
        }
        Ok(Decimal { m: num, s: scale })
    }
    pub fn mantissa(&self) -> i128 {
        self.m
    }
    pub fn scale(&self) -> u32 {
        self.s
    }
    pub fn is_zero(&self) -> bool {
        self.m == 0
    }
    pub fn is_sign_negative(&self) -> bool {
        self.m < 0
    }
    pub fn is_integer(&self) -> bool {
        self.m % pow10(self.s) == 0
    }
    pub fn normalize(&self) -> Decimal {
        let mut d = *self;
        while d.s > 0 && d.m % 10 == 0 {
            d.m /= 10;
            d.s -= 1;
        }
        if d.m == 0 {
            d.s = 0;
        }
        d
    }
    pub fn rescale(&mut self, scale: u32) {
        while self.s < scale.min(28) {
            let n = self.m * 10;
            if n > MAX || n < -MAX {
                return;
            }
            self.m = n;
            self.s += 1;
        }
        if self.s > scale {
            let p = pow10(self.s - scale);
            let (q, r) = (self.m / p, self.m % p);
            self.m = q + if r.abs() * 2 >= p { r.signum() } else { 0 };
            self.s = scale;
        }
    }
    pub fn round_dp(&self, dp: u32) -> Decimal {
        if self.s <= dp {
            return *self;
        }
        let p = pow10(self.s - dp);
        let (q, r) = (self.m / p, self.m % p);
        let up = match (r.abs() * 2).cmp(&p) {
            Ordering::Greater => true,
            Ordering::Equal => q % 2 != 0,
            Ordering::Less => false,
        };
        Decimal { m: q + if up { r.signum() } else { 0 }, s: dp }
    }
    pub fn round(&self) -> Decimal {
        self.round_dp(0)
    }
    pub fn trunc(&self) -> Decimal {
        Decimal { m: self.m / pow10(self.s), s: 0 }
    }
    pub fn abs(&self) -> Decimal {
        Decimal { m: self.m.abs(), s: self.s }
    }
    pub fn from_str_exact(s: &str) -> Result<Decimal, Error> {
        parse(s, true)
    }
    pub fn from_scientific(s: &str) -> Result<Decimal, Error> {
        sci(s)
    }
    fn from_f64_digits(v: f64, digits: usize) -> Option<Decimal> {
        if !v.is_finite() {
            return None;
        }
        sci(&format!("{:.*e}", digits - 1, v)).ok().map(|d| d.normalize())
    }
}

fn sci(s: &str) -> Result<Decimal, Error> {
    let (b, e) = s.split_once(['e', 'E']).ok_or_else(|| Error::ErrorString("no exponent".into()))?;
    let e: i32 = e.parse().map_err(|_| Error::ErrorString("bad exponent".into()))?;
    let d = parse(b, true)?.normalize();
    let sc = d.s as i32 - e;
    if sc >= 0 {
        if sc <= 28 {
            return Ok(Decimal { m: d.m, s: sc as u32 });
        }
        let drop = (sc - 28) as u32;
        if drop > 38 {
            return Ok(Decimal::ZERO);
        }
        let mut x = d.m;
        let mut r = 0;
        for _ in 0..drop {
            r = x % 10;
            x /= 10;
        }
        if r.abs() >= 5 {
            x += r.signum();
        }
        return Ok(Decimal { m: x, s: 28 });
    }
    let mut m = d.m;
    for _ in 0..-sc {
        m = m.checked_mul(10).filter(|m| m.abs() <= MAX).ok_or(Error::ExceedsMaximumPossibleValue)?;
    }
    Ok(Decimal { m, s: 0 })
}

fn parse(s: &str, exact: bool) -> Result<Decimal, Error> {
    let bad = || Error::ErrorString("Invalid decimal: unknown character".into());
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (i, f) = t.split_once('.').unwrap_or((t, ""));
    if i.is_empty() && f.is_empty() {
        return Err(Error::ErrorString("Invalid decimal: no digits found".into()));
    }
    let (mut m, mut sc) = (0i128, 0u32);
    let mut frac = false;
    let mut rounding = false;
    for c in i.chars().chain(std::iter::once('.')).chain(f.chars()) {
        if c == '.' {
            frac = true;
            continue;
        }
        if c == '_' {
            continue;
        }
        let d = c.to_digit(10).ok_or_else(bad)? as i128;
        if rounding {
            continue;
        }
        let n = m * 10 + d;
        if n > MAX || (frac && sc == 28) {
            if !frac || exact {
                return Err(if frac { Error::Underflow } else { Error::ExceedsMaximumPossibleValue });
            }
            if d >= 5 {
                m += 1;
            }
            rounding = true;
            continue;
        }
        m = n;
        if frac {
            sc += 1;
        }
    }
    Ok(Decimal { m: if neg { -m } else { m }, s: sc })
}

impl FromStr for Decimal {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        parse(s, false)
    }
}
impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let a = self.m.unsigned_abs().to_string();
        let s = self.s as usize;
        let a = if a.len() <= s { format!("{}{}", "0".repeat(s + 1 - a.len()), a) } else { a };
        let (i, fr) = a.split_at(a.len() - s);
        if self.m < 0 {
            write!(f, "-")?;
        }
        if s == 0 { write!(f, "{i}") } else { write!(f, "{i}.{fr}") }
    }
}
impl fmt::Debug for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl PartialEq for Decimal {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Decimal {}
impl std::hash::Hash for Decimal {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        let n = self.normalize();
        n.m.hash(h);
        n.s.hash(h);
    }
}
impl PartialOrd for Decimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Decimal {
    fn cmp(&self, o: &Self) -> Ordering {
        let (ia, ib) = (self.m / pow10(self.s), o.m / pow10(o.s));
        if ia != ib {
            return ia.cmp(&ib);
        }
        let (fa, fb) = (self.m % pow10(self.s), o.m % pow10(o.s));
        let k = self.s.max(o.s);
        (fa * pow10(k - self.s)).cmp(&(fb * pow10(k - o.s)))
    }
}
impl ToPrimitive for Decimal {
    fn to_i64(&self) -> Option<i64> {
        (self.m / pow10(self.s)).to_i64()
    }
    fn to_i128(&self) -> Option<i128> {
        Some(self.m / pow10(self.s))
    }
    fn to_u64(&self) -> Option<u64> {
        (self.m / pow10(self.s)).to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.to_string().parse().ok()
    }
}
impl FromPrimitive for Decimal {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Decimal { m: n as i128, s: 0 })
    }
    fn from_i128(n: i128) -> Option<Self> {
        if n.abs() > MAX { None } else { Some(Decimal { m: n, s: 0 }) }
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Decimal { m: n as i128, s: 0 })
    }
    fn from_f32(n: f32) -> Option<Self> {
        if !n.is_finite() {
            return None;
        }
        sci(&format!("{:.5e}", n)).ok().map(|d| d.normalize())
    }
    fn from_f64(n: f64) -> Option<Self> {
        Decimal::from_f64_digits(n, 15)
    }
}
impl TryFrom<f64> for Decimal {
    type Error = Error;
    fn try_from(v: f64) -> Result<Self, Error> {
        Decimal::from_f64(v).ok_or_else(|| Error::ErrorString("Failed to convert to Decimal".into()))
    }
}
impl TryFrom<f32> for Decimal {
    type Error = Error;
    fn try_from(v: f32) -> Result<Self, Error> {
        Decimal::from_f32(v).ok_or_else(|| Error::ErrorString("Failed to convert to Decimal".into()))
    }
}
macro_rules! from_int {
    ($($t:ty),*) => { $(impl From<$t> for Decimal { fn from(v: $t) -> Self { Decimal { m: v as i128, s: 0 } } })* };
}
from_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

fn fit(mut m: i128, mut s: u32) -> Decimal {
    while (m > MAX || m < -MAX || s > 28) && s > 0 {
        let r = m % 10;
        m /= 10;
        if r.abs() >= 5 {
            m += r.signum();
        }
        s -= 1;
    }
    assert!((-MAX..=MAX).contains(&m), "overflow");
    Decimal { m, s }
}
fn align(a: Decimal, b: Decimal) -> (i128, i128, u32) {
    let s = a.s.max(b.s);
    (a.m * pow10(s - a.s), b.m * pow10(s - b.s), s)
}
impl std::ops::Add for Decimal {
    type Output = Decimal;
    fn add(self, o: Decimal) -> Decimal {
        let (a, b, s) = align(self, o);
        fit(a + b, s)
    }
}
impl std::ops::Sub for Decimal {
    type Output = Decimal;
    fn sub(self, o: Decimal) -> Decimal {
        let (a, b, s) = align(self, o);
        fit(a - b, s)
    }
}
impl std::ops::Mul for Decimal {
    type Output = Decimal;
    fn mul(self, o: Decimal) -> Decimal {
        fit(self.m * o.m, self.s + o.s)
    }
}
impl std::ops::Neg for Decimal {
    type Output = Decimal;
    fn neg(self) -> Decimal {
        Decimal { m: -self.m, s: self.s }
    }
}
impl std::ops::AddAssign for Decimal {
    fn add_assign(&mut self, o: Decimal) {
        *self = *self + o;
    }
}

impl serde::Serialize for Decimal {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
struct V;
impl<'de> serde::de::Visitor<'de> for V {
    type Value = Decimal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a Decimal type representing a fixed-point number")
    }
    fn visit_i64<E: serde::de::Error>(self, v: i64) -> Result<Decimal, E> {
        Ok(v.into())
    }
    fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Decimal, E> {
        Ok(v.into())
    }
    fn visit_f64<E: serde::de::Error>(self, v: f64) -> Result<Decimal, E> {
        Decimal::from_str(&v.to_string()).map_err(|_| E::invalid_value(serde::de::Unexpected::Float(v), &self))
    }
    fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Decimal, E> {
        Decimal::from_str(v)
            .or_else(|_| Decimal::from_scientific(v))
            .map_err(|_| E::invalid_value(serde::de::Unexpected::Str(v), &self))
    }
}
impl<'de> serde::Deserialize<'de> for Decimal {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
        d.deserialize_any(V)
    }
}
