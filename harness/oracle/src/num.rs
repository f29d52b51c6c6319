//! Exact decimal values: the reference model of a numeric.

use crate::big::Big;
use std::cmp::Ordering;

/// An exact decimal number: (-1)^neg * mag * 10^exp.
#[derive(Clone, Debug)]
pub struct Num {
    pub neg: bool,
    pub mag: Big,
    pub exp: i64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rnd {
    /// half away from zero
    HalfUp,
    /// half to even
    HalfEven,
    /// towards zero
    Trunc,
    /// towards +infinity
    Ceil,
    /// towards -infinity
    Floor,
}

impl Num {
    pub fn zero() -> Num {
        Num { neg: false, mag: Big::zero(), exp: 0 }
    }
    pub fn new(neg: bool, mag: Big, exp: i64) -> Num {
        if mag.is_zero() {
            return Num::zero();
        }
        Num { neg, mag, exp }
    }
    pub fn int(v: i128) -> Num {
        Num::new(v < 0, Big::from_u128(v.unsigned_abs()), 0)
    }
    pub fn uint(v: u128) -> Num {
        Num::new(false, Big::from_u128(v), 0)
    }
    /// 10^e
    pub fn pow10(e: i64) -> Num {
        Num::new(false, Big::one(), e)
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    /// Drop trailing zeros of mag (unique representation).
    pub fn reduced(&self) -> Num {
        if self.is_zero() {
            return Num::zero();
        }
        let z = self.mag.trailing_dec_zeros();
        if z == 0 {
            return self.clone();
        }
        Num { neg: self.neg, mag: self.mag.div_pow10(z).0, exp: self.exp + z as i64 }
    }
    /// Exponent of the leading decimal digit; None for zero.
    pub fn adj(&self) -> Option<i64> {
        if self.is_zero() {
            None
        } else {
            Some(self.mag.ndec() as i64 + self.exp - 1)
        }
    }
    pub fn neg(&self) -> Num {
        Num::new(!self.neg, self.mag.clone(), self.exp)
    }
    pub fn abs(&self) -> Num {
        Num::new(false, self.mag.clone(), self.exp)
    }
    /// mag of |self| / 10^e; requires e <= self.exp
    fn mag_at(&self, e: i64) -> Big {
        self.mag.mul_pow10((self.exp - e) as usize)
    }
    pub fn cmp_abs(&self, o: &Num) -> Ordering {
        match (self.adj(), o.adj()) {
            (None, None) => return Ordering::Equal,
            (None, _) => return Ordering::Less,
            (_, None) => return Ordering::Greater,
            (Some(a), Some(b)) if a != b => return a.cmp(&b),
            _ => {}
        }
        let e = self.exp.min(o.exp);
        self.mag_at(e).cmp(&o.mag_at(e))
    }
    pub fn cmp(&self, o: &Num) -> Ordering {
        let s = |n: &Num| if n.is_zero() { 0 } else if n.neg { -1 } else { 1 };
        let (a, b) = (s(self), s(o));
        if a != b {
            return a.cmp(&b);
        }
        match a {
            0 => Ordering::Equal,
            1 => self.cmp_abs(o),
            _ => o.cmp_abs(self),
        }
    }
    pub fn add(&self, o: &Num) -> Num {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let e = self.exp.min(o.exp);
        let (a, b) = (self.mag_at(e), o.mag_at(e));
        if self.neg == o.neg {
            Num::new(self.neg, a.add(&b), e)
        } else if a.cmp(&b) != Ordering::Less {
            Num::new(self.neg, a.sub(&b), e)
        } else {
            Num::new(o.neg, b.sub(&a), e)
        }
    }
    pub fn sub(&self, o: &Num) -> Num {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Num) -> Num {
        Num::new(self.neg != o.neg, self.mag.mul(&o.mag), self.exp + o.exp)
    }
    pub fn shift10(&self, k: i64) -> Num {
        Num::new(self.neg, self.mag.clone(), self.exp + k)
    }
    /// Round to a multiple of 10^-scale.
    pub fn round(&self, scale: i64, how: Rnd) -> Num {
        if self.exp >= -scale {
            return self.clone();
        }
        let k = (-scale - self.exp) as u64;
        // everything is below the cut: avoid huge shifts
        if k > self.mag.ndec() as u64 + 2 {
            let up = match how {
                Rnd::Ceil => !self.neg && !self.is_zero(),
                Rnd::Floor => self.neg && !self.is_zero(),
                _ => false,
            };
            return if up { Num::new(self.neg, Big::one(), -scale) } else { Num::zero() };
        }
        let (q, r) = self.mag.divrem_pow10(k as usize);
        let up = if r.is_zero() {
            false
        } else {
            let half = Big::from_u128(5).mul_pow10(k as usize - 1);
            match how {
                Rnd::HalfUp => r.cmp(&half) != Ordering::Less,
                Rnd::HalfEven => match r.cmp(&half) {
                    Ordering::Greater => true,
                    Ordering::Equal => q.is_odd(),
                    Ordering::Less => false,
                },
                Rnd::Trunc => false,
                Rnd::Ceil => !self.neg,
                Rnd::Floor => self.neg,
            }
        };
        Num::new(self.neg, if up { q.add_small(1) } else { q }, -scale)
    }
    /// self / o rounded to a multiple of 10^-scale (exactly rounded). o != 0.
    pub fn div(&self, o: &Num, scale: i64, how: Rnd) -> Num {
        if self.is_zero() {
            return Num::zero();
        }
        // |self|/|o| * 10^scale = ma * 10^(ea - eb + scale) / mb
        let sh = self.exp - o.exp + scale;
        let (n, d) = if sh >= 0 {
            (self.mag.mul_pow10(sh as usize), o.mag.clone())
        } else {
            // cheap exit when the quotient is far below the cut
            if self.mag.ndec() as i64 + sh < o.mag.ndec() as i64 - 2 {
                let up = match how {
                    Rnd::Ceil => self.neg == o.neg,
                    Rnd::Floor => self.neg != o.neg,
                    _ => false,
                };
                return if up { Num::new(self.neg != o.neg, Big::one(), -scale) } else { Num::zero() };
            }
            (self.mag.clone(), o.mag.mul_pow10((-sh) as usize))
        };
        let (q, r) = n.divrem(&d);
        let neg = self.neg != o.neg;
        let up = if r.is_zero() {
            false
        } else {
            let c = r.mul_small(2).cmp(&d);
            match how {
                Rnd::HalfUp => c != Ordering::Less,
                Rnd::HalfEven => match c {
                    Ordering::Greater => true,
                    Ordering::Equal => q.is_odd(),
                    Ordering::Less => false,
                },
                Rnd::Trunc => false,
                Rnd::Ceil => !neg,
                Rnd::Floor => neg,
            }
        };
        Num::new(neg, if up { q.add_small(1) } else { q }, -scale)
    }
    /// self - trunc(self/o)*o
    pub fn rem(&self, o: &Num) -> Num {
        if self.is_zero() {
            return Num::zero();
        }
        let e = self.exp.min(o.exp);
        let (_, r) = self.mag_at(e).divrem(&o.mag_at(e));
        Num::new(self.neg, r, e)
    }
    /// Number of decimal digits needed after the point to show the value exactly.
    pub fn min_scale(&self) -> i64 {
        (-self.reduced().exp).max(0)
    }
    /// Base 10^4 digits without leading or trailing zero groups, and the weight of the first.
    pub fn groups(&self) -> (i64, Vec<u16>) {
        if self.is_zero() {
            return (0, vec![]);
        }
        let pad = self.exp.rem_euclid(4);
        let m = self.mag.mul_pow10(pad as usize);
        let e4 = (self.exp - pad) / 4;
        let s = m.to_digits();
        let mut g = Vec::with_capacity(s.len() / 4 + 1);
        let head = s.len() % 4;
        let mut cut = 0;
        if head > 0 {
            g.push(s[..head].iter().fold(0u16, |a, c| a * 10 + (c - b'0') as u16));
            cut = head;
        }
        for ch in s[cut..].chunks(4) {
            g.push(ch.iter().fold(0u16, |a, c| a * 10 + (c - b'0') as u16));
        }
        let weight = e4 + g.len() as i64 - 1;
        while g.last() == Some(&0) {
            g.pop();
        }
        (weight, g)
    }
    pub fn from_groups(neg: bool, weight: i64, g: &[u16]) -> Num {
        let mut s = Vec::with_capacity(g.len() * 4);
        for &d in g {
            s.extend_from_slice(format!("{:04}", d).as_bytes());
        }
        if s.is_empty() {
            return Num::zero();
        }
        Num::new(neg, Big::from_digits(&s), (weight - g.len() as i64 + 1) * 4)
    }
    pub fn to_f64(&self) -> f64 {
        let s = format!(
            "{}{}e{}",
            if self.neg { "-" } else { "" },
            String::from_utf8(self.mag.to_digits()).unwrap(),
            self.exp
        );
        s.parse().unwrap()
    }
    /// Plain decimal text with exactly `dscale` fractional digits (which must suffice).
    pub fn text(&self, dscale: i64) -> String {
        let mut out = String::new();
        if self.neg {
            out.push('-');
        }
        let shown = if self.is_zero() { Big::zero() } else { self.mag_at_trunc(-dscale) };
        let s = shown.to_digits();
        let d = dscale as usize;
        let s = if s.len() <= d {
            let mut t = vec![b'0'; d + 1 - s.len()];
            t.extend_from_slice(&s);
            t
        } else {
            s
        };
        let cut = s.len() - d;
        out.push_str(std::str::from_utf8(&s[..cut]).unwrap());
        if d > 0 {
            out.push('.');
            out.push_str(std::str::from_utf8(&s[cut..]).unwrap());
        }
        out
    }
    fn mag_at_trunc(&self, e: i64) -> Big {
        if self.exp >= e {
            self.mag_at(e)
        } else {
            let (q, inexact) = self.mag.div_pow10((e - self.exp) as usize);
            assert!(!inexact, "oracle: dscale hides digits");
            q
        }
    }
    /// Short text for reports.
    pub fn short(&self) -> String {
        let r = self.reduced();
        let s = String::from_utf8(r.mag.to_digits()).unwrap();
        format!("{}{}e{}", if r.neg { "-" } else { "" }, s, r.exp)
    }
}

impl PartialEq for Num {
    fn eq(&self, o: &Num) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}

pub const MAX_WEIGHT: i64 = 32767;
pub const MIN_WEIGHT: i64 = -32767;
pub const MAX_DSCALE: i64 = 16383;

/// A numeric value: NaN, or an exact decimal with a display scale.
#[derive(Clone, Debug)]
pub enum Val {
    NaN,
    V(Num, i64),
}

impl Val {
    pub fn zero() -> Val {
        Val::V(Num::zero(), 0)
    }
    pub fn int(v: i128) -> Val {
        Val::V(Num::int(v), 0)
    }
    pub fn is_nan(&self) -> bool {
        matches!(self, Val::NaN)
    }
    pub fn num(&self) -> &Num {
        match self {
            Val::V(n, _) => n,
            Val::NaN => panic!("oracle: num() of NaN"),
        }
    }
    pub fn dscale(&self) -> i64 {
        match self {
            Val::V(_, d) => *d,
            Val::NaN => panic!("oracle: dscale() of NaN"),
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Val::V(n, _) if n.is_zero())
    }
    pub fn is_neg(&self) -> bool {
        matches!(self, Val::V(n, _) if n.neg)
    }
    /// Same value and same display scale.
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::NaN, Val::NaN) => true,
            (Val::V(a, d), Val::V(b, e)) => d == e && a == b,
            _ => false,
        }
    }
    /// The order the type promises: NaN equals itself and is above everything.
    pub fn order(&self, o: &Val) -> Ordering {
        match (self, o) {
            (Val::NaN, Val::NaN) => Ordering::Equal,
            (Val::NaN, _) => Ordering::Greater,
            (_, Val::NaN) => Ordering::Less,
            (Val::V(a, _), Val::V(b, _)) => a.cmp(b),
        }
    }
    pub fn fits(&self) -> bool {
        match self {
            Val::NaN => true,
            Val::V(n, d) => {
                if *d < 0 || *d > MAX_DSCALE {
                    return false;
                }
                match n.adj() {
                    None => true,
                    Some(a) => {
                        let w = a.div_euclid(4);
                        (MIN_WEIGHT..=MAX_WEIGHT).contains(&w)
                    }
                }
            }
        }
    }
    pub fn text(&self) -> String {
        match self {
            Val::NaN => "NaN".to_string(),
            Val::V(n, d) => n.text(*d),
        }
    }
    /// Text for reports: exact, scientific when long.
    pub fn show(&self) -> String {
        match self {
            Val::NaN => "NaN".to_string(),
            Val::V(n, d) => {
                let big = n.adj().map_or(0, |a| a.abs()) > 60 || *d > 80;
                if big {
                    format!("{} (scale {})", n.short(), d)
                } else {
                    n.text(*d)
                }
            }
        }
    }
    /// Text without insignificant fractional zeros.
    pub fn normalized(&self) -> String {
        match self {
            Val::NaN => "NaN".to_string(),
            Val::V(n, _) => n.text(n.min_scale()),
        }
    }
}
