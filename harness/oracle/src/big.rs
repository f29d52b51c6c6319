//! Unsigned big integers in base 10^9 (little endian limbs), written for this oracle.
//! Independent of the code under test (which works in base 10^4 with Knuth D and
//! floating point quotient estimates).

use std::cmp::Ordering;

pub const BASE: u64 = 1_000_000_000;
pub const LIMB_DIGITS: usize = 9;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Big {
    d: Vec<u32>, // no leading (high) zero limbs
}

const P10: [u32; 10] = [
    1,
    10,
    100,
    1000,
    10_000,
    100_000,
    1_000_000,
    10_000_000,
    100_000_000,
    1_000_000_000,
];

fn dec_len(mut v: u32) -> usize {
    let mut n = 0;
    while v > 0 {
        n += 1;
        v /= 10;
    }
    n
}

impl Big {
    pub fn zero() -> Big {
        Big { d: vec![] }
    }
    pub fn one() -> Big {
        Big { d: vec![1] }
    }
    pub fn from_u128(mut v: u128) -> Big {
        let mut d = vec![];
        while v > 0 {
            d.push((v % BASE as u128) as u32);
            v /= BASE as u128;
        }
        Big { d }
    }
    pub fn from_limbs(d: Vec<u32>) -> Big {
        let mut b = Big { d };
        b.trim();
        b
    }
    pub fn limbs(&self) -> &[u32] {
        &self.d
    }
    /// From ASCII decimal digits, most significant first.
    pub fn from_digits(s: &[u8]) -> Big {
        let mut d = Vec::with_capacity(s.len() / 9 + 1);
        let mut end = s.len();
        while end > 0 {
            let start = end.saturating_sub(9);
            let mut v = 0u32;
            for &c in &s[start..end] {
                assert!(c.is_ascii_digit());
                v = v * 10 + (c - b'0') as u32;
            }
            d.push(v);
            end = start;
        }
        Big::from_limbs(d)
    }
    fn trim(&mut self) {
        while let Some(&0) = self.d.last() {
            self.d.pop();
        }
    }
    pub fn is_zero(&self) -> bool {
        self.d.is_empty()
    }
    pub fn is_odd(&self) -> bool {
        self.d.first().map_or(false, |l| l & 1 == 1)
    }
    /// Number of decimal digits (0 for zero).
    pub fn ndec(&self) -> usize {
        match self.d.last() {
            None => 0,
            Some(&t) => (self.d.len() - 1) * 9 + dec_len(t),
        }
    }
    /// ASCII decimal digits ("0" for zero).
    pub fn to_digits(&self) -> Vec<u8> {
        if self.d.is_empty() {
            return b"0".to_vec();
        }
        let mut out = Vec::with_capacity(self.d.len() * 9);
        for (k, &l) in self.d.iter().rev().enumerate() {
            let n = if k == 0 { dec_len(l) } else { 9 };
            let mut v = l;
            let mut buf = [b'0'; 9];
            for i in (0..n).rev() {
                buf[i] = b'0' + (v % 10) as u8;
                v /= 10;
            }
            out.extend_from_slice(&buf[..n]);
        }
        out
    }
    pub fn trailing_dec_zeros(&self) -> usize {
        let mut n = 0;
        for &l in &self.d {
            if l == 0 {
                n += 9;
                continue;
            }
            let mut v = l;
            while v % 10 == 0 {
                n += 1;
                v /= 10;
            }
            return n;
        }
        0
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        if self.d.len() != o.d.len() {
            return self.d.len().cmp(&o.d.len());
        }
        for i in (0..self.d.len()).rev() {
            if self.d[i] != o.d[i] {
                return self.d[i].cmp(&o.d[i]);
            }
        }
        Ordering::Equal
    }
    pub fn add(&self, o: &Big) -> Big {
        let (a, b) = if self.d.len() >= o.d.len() { (&self.d, &o.d) } else { (&o.d, &self.d) };
        let mut r = Vec::with_capacity(a.len() + 1);
        let mut c = 0u64;
        for i in 0..a.len() {
            let mut s = a[i] as u64 + c;
            if i < b.len() {
                s += b[i] as u64;
            }
            if s >= BASE {
                r.push((s - BASE) as u32);
                c = 1;
            } else {
                r.push(s as u32);
                c = 0;
            }
        }
        if c > 0 {
            r.push(1);
        }
        Big { d: r }
    }
    /// self - o; panics when negative.
    pub fn sub(&self, o: &Big) -> Big {
        assert!(self.cmp(o) != Ordering::Less, "oracle: negative Big");
        let mut r = Vec::with_capacity(self.d.len());
        let mut bo = 0i64;
        for i in 0..self.d.len() {
            let mut s = self.d[i] as i64 - bo;
            if i < o.d.len() {
                s -= o.d[i] as i64;
            }
            if s < 0 {
                r.push((s + BASE as i64) as u32);
                bo = 1;
            } else {
                r.push(s as u32);
                bo = 0;
            }
        }
        Big::from_limbs(r)
    }
    pub fn mul_small(&self, m: u32) -> Big {
        if m == 0 || self.is_zero() {
            return Big::zero();
        }
        let mut r = Vec::with_capacity(self.d.len() + 2);
        let mut c = 0u64;
        for &l in &self.d {
            let t = l as u64 * m as u64 + c;
            r.push((t % BASE) as u32);
            c = t / BASE;
        }
        while c > 0 {
            r.push((c % BASE) as u32);
            c /= BASE;
        }
        Big { d: r }
    }
    pub fn add_small(&self, m: u32) -> Big {
        self.add(&Big::from_u128(m as u128))
    }
    /// (self / m, self % m)
    pub fn divrem_small(&self, m: u32) -> (Big, u32) {
        assert!(m > 0);
        let mut r = 0u64;
        let mut q = vec![0u32; self.d.len()];
        for i in (0..self.d.len()).rev() {
            let t = r * BASE + self.d[i] as u64;
            q[i] = (t / m as u64) as u32;
            r = t % m as u64;
        }
        (Big::from_limbs(q), r as u32)
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        Big::from_limbs(mul_limbs(&self.d, &o.d))
    }
    pub fn sqr(&self) -> Big {
        self.mul(self)
    }
    /// self * 10^k
    pub fn mul_pow10(&self, k: usize) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut d = vec![0u32; k / 9];
        let small = if k % 9 == 0 { self.clone() } else { self.mul_small(P10[k % 9]) };
        d.extend_from_slice(&small.d);
        Big { d }
    }
    /// (floor(self / 10^k), whether the remainder is nonzero)
    pub fn div_pow10(&self, k: usize) -> (Big, bool) {
        let l = k / 9;
        if l >= self.d.len() {
            return (Big::zero(), !self.is_zero());
        }
        let mut inexact = self.d[..l].iter().any(|&x| x != 0);
        let hi = Big { d: self.d[l..].to_vec() };
        if k % 9 == 0 {
            return (hi, inexact);
        }
        let (q, r) = hi.divrem_small(P10[k % 9]);
        inexact |= r != 0;
        (q, inexact)
    }
    /// floor(self / 10^k) and the exact remainder.
    pub fn divrem_pow10(&self, k: usize) -> (Big, Big) {
        let (q, _) = self.div_pow10(k);
        let r = self.sub(&q.mul_pow10(k));
        (q, r)
    }
    /// Knuth D in base 10^9.
    pub fn divrem(&self, v: &Big) -> (Big, Big) {
        assert!(!v.is_zero(), "oracle: division by zero");
        if self.cmp(v) == Ordering::Less {
            return (Big::zero(), self.clone());
        }
        if v.d.len() == 1 {
            let (q, r) = self.divrem_small(v.d[0]);
            return (q, Big::from_u128(r as u128));
        }
        let f = (BASE / (*v.d.last().unwrap() as u64 + 1)) as u32;
        let vn = v.mul_small(f);
        let mut u = self.mul_small(f).d;
        let n = vn.d.len();
        debug_assert_eq!(n, v.d.len());
        u.resize((self.d.len() + 1).max(u.len()), 0);
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        let v1 = vn.d[n - 1] as u64;
        let v2 = vn.d[n - 2] as u64;
        for j in (0..=m).rev() {
            let num = u[j + n] as u64 * BASE + u[j + n - 1] as u64;
            let mut qh = num / v1;
            let mut rh = num % v1;
            while qh >= BASE || qh as u128 * v2 as u128 > rh as u128 * BASE as u128 + u[j + n - 2] as u128 {
                qh -= 1;
                rh += v1;
                if rh >= BASE {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * vn.d[i] as u64 + carry;
                carry = p / BASE;
                let t = u[i + j] as i64 - (p % BASE) as i64 - borrow;
                if t < 0 {
                    u[i + j] = (t + BASE as i64) as u32;
                    borrow = 1;
                } else {
                    u[i + j] = t as u32;
                    borrow = 0;
                }
            }
            let t = u[j + n] as i64 - carry as i64 - borrow;
            if t < 0 {
                u[j + n] = (t + BASE as i64) as u32;
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let s = u[i + j] as u64 + vn.d[i] as u64 + c;
                    u[i + j] = (s % BASE) as u32;
                    c = s / BASE;
                }
                u[j + n] = ((u[j + n] as u64 + c) % BASE) as u32;
            } else {
                u[j + n] = t as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        let (r, z) = Big::from_limbs(u).divrem_small(f);
        debug_assert_eq!(z, 0);
        (Big::from_limbs(q), r)
    }
    pub fn pow_u(&self, mut e: u64) -> Big {
        let mut r = Big::one();
        let mut b = self.clone();
        loop {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e == 0 {
                return r;
            }
            b = b.sqr();
        }
    }
    /// floor(sqrt(self))
    pub fn isqrt(&self) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut x = Big::one().mul_pow10((self.ndec() + 1) / 2 + 1);
        loop {
            let y = x.add(&self.divrem(&x).0).divrem_small(2).0;
            if y.cmp(&x) != Ordering::Less {
                return x;
            }
            x = y;
        }
    }
    pub fn to_u128(&self) -> Option<u128> {
        let mut v: u128 = 0;
        for &l in self.d.iter().rev() {
            v = v.checked_mul(BASE as u128)?.checked_add(l as u128)?;
        }
        Some(v)
    }
    pub fn to_f64(&self) -> f64 {
        String::from_utf8(self.to_digits()).unwrap().parse().unwrap()
    }
}

fn school(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() <= b.len() { (a, b) } else { (b, a) };
    let mut acc = vec![0u64; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        if x == 0 {
            continue;
        }
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            let t = x as u64 * y as u64 + acc[i + j] + c;
            acc[i + j] = t % BASE;
            c = t / BASE;
        }
        acc[i + b.len()] += c;
    }
    let mut r = Vec::with_capacity(acc.len());
    let mut c = 0;
    for t in acc {
        let t = t + c;
        r.push((t % BASE) as u32);
        c = t / BASE;
    }
    debug_assert_eq!(c, 0);
    r
}

fn mul_limbs(a: &[u32], b: &[u32]) -> Vec<u32> {
    const K: usize = 48;
    if a.len() < K || b.len() < K {
        return school(a, b);
    }
    // unbalanced: split the longer one
    if a.len() > 2 * b.len() || b.len() > 2 * a.len() {
        let (l, s) = if a.len() > b.len() { (a, b) } else { (b, a) };
        let mut r = Big::zero();
        let mut shift = 0;
        for ch in l.chunks(s.len()) {
            let p = Big::from_limbs(mul_limbs(ch, s));
            r = r.add(&p.shl(shift));
            shift += ch.len();
        }
        return r.d;
    }
    let h = (a.len().max(b.len()) + 1) / 2;
    let sp = |x: &[u32]| -> (Big, Big) {
        let k = h.min(x.len());
        (Big::from_limbs(x[..k].to_vec()), Big::from_limbs(x[k..].to_vec()))
    };
    let (a0, a1) = sp(a);
    let (b0, b1) = sp(b);
    let z0 = a0.mul(&b0);
    let z2 = a1.mul(&b1);
    let z1 = a0.add(&a1).mul(&b0.add(&b1)).sub(&z0).sub(&z2);
    z0.add(&z1.shl(h)).add(&z2.shl(2 * h)).d
}

impl Big {
    fn shl(&self, limbs: usize) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut d = vec![0u32; limbs];
        d.extend_from_slice(&self.d);
        Big { d }
    }
}
