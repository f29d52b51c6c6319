//! High precision elementary functions over exact decimals, with absolute error bounds.
//! Working in fixed point: a signed Big scaled by 10^P.

use crate::big::Big;
use crate::num::{Num, Rnd};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// atanh(1/n) * 10^p, truncated terms (error < number of terms ulps).
fn atanh_inv(n: u32, p: usize) -> Big {
    let mut t = Big::one().mul_pow10(p).divrem_small(n).0;
    let mut s = t.clone();
    let n2 = n * n;
    let mut k = 3u32;
    loop {
        t = if (n as u64) * (n as u64) < 1 << 31 {
            t.divrem_small(n2).0
        } else {
            t.divrem_small(n).0.divrem_small(n).0
        };
        if t.is_zero() {
            return s;
        }
        s = s.add(&t.divrem_small(k).0);
        k += 2;
    }
}

fn const_cache(which: u8, p: usize) -> Arc<Big> {
    static C: Mutex<Option<HashMap<(u8, usize), Arc<Big>>>> = Mutex::new(None);
    if let Some(v) = C.lock().unwrap().get_or_insert_with(HashMap::new).get(&(which, p)) {
        return v.clone();
    }
    let q = p + 9;
    let v = if which == 10 {
        // ln 10 = 46 atanh(1/31) + 34 atanh(1/49) + 20 atanh(1/161)
        atanh_inv(31, q)
            .mul_small(46)
            .add(&atanh_inv(49, q).mul_small(34))
            .add(&atanh_inv(161, q).mul_small(20))
    } else {
        // ln 2 = 18 atanh(1/26) - 2 atanh(1/4801) + 8 atanh(1/8749)
        atanh_inv(26, q)
            .mul_small(18)
            .add(&atanh_inv(8749, q).mul_small(8))
            .sub(&atanh_inv(4801, q).mul_small(2))
    };
    let v = Arc::new(v.div_pow10(9).0);
    let mut g = C.lock().unwrap();
    let g = g.get_or_insert_with(HashMap::new);
    if g.len() > 4000 {
        g.clear();
    }
    g.insert((which, p), v.clone());
    v
}

fn round9(p: i64) -> usize {
    let p = p.max(27) as usize;
    (p + 8) / 9 * 9
}

/// ln(x) with absolute error below 10^-p. x > 0.
pub fn ln(x: &Num, p: i64) -> Num {
    assert!(!x.neg && !x.is_zero());
    // working precision; the decimal exponent can be 6 digits, and about 2P terms are summed
    let w = round9(p + 20);
    // x = m * 10^k, m in [1, 10)
    let k = x.adj().unwrap();
    // numbers just below one stay there
    let k = if k == -1 && x.cmp(&Num::int(7).shift10(-1)) != Ordering::Less { 0 } else { k };
    let sh = w as i64 + x.exp - k;
    let mut m = if sh >= 0 { x.mag.mul_pow10(sh as usize) } else { x.mag.div_pow10((-sh) as usize).0 };
    // bring m into [0.7, 1.42) by halving
    let hi = Big::from_u128(142).mul_pow10(w - 2);
    let mut j = 0u32;
    while m.cmp(&hi) != Ordering::Less {
        m = m.divrem_small(2).0;
        j += 1;
    }
    let one = Big::one().mul_pow10(w);
    let (neg, diff) = if m.cmp(&one) == Ordering::Less { (true, one.sub(&m)) } else { (false, m.sub(&one)) };
    let z = diff.mul_pow10(w).divrem(&m.add(&one)).0;
    let z2 = z.sqr().div_pow10(w).0;
    let mut s = z.clone();
    let mut t = z;
    let mut i = 3u32;
    loop {
        t = t.mul(&z2).div_pow10(w).0;
        if t.is_zero() {
            break;
        }
        s = s.add(&t.divrem_small(i).0);
        i += 2;
    }
    let r = Num::new(neg, s.mul_small(2), -(w as i64));
    let times = |which: u8, f: i128| {
        if f == 0 {
            return Num::zero();
        }
        Num::new(false, (*const_cache(which, w)).clone(), -(w as i64)).mul(&Num::int(f))
    };
    r.add(&times(10, k as i128)).add(&times(2, j as i128))
}

/// e^x with absolute error below 10^-p. |x| must be moderate (< 10^6).
pub fn exp(x: &Num, p: i64) -> Num {
    if x.is_zero() {
        return Num::int(1);
    }
    let xf = x.to_f64();
    assert!(xf.abs() < 1e6, "oracle: exp argument");
    let dig = (xf * std::f64::consts::LOG10_E).floor() as i64;
    if dig < -(p + 2) {
        return Num::zero();
    }
    // relative precision wanted: p + dig digits
    let w = round9(p + dig + 30);
    let l10 = Num::new(false, (*const_cache(10, w + 18)).clone(), -(w as i64 + 18));
    let k = (xf * std::f64::consts::LOG10_E).round() as i128;
    let r = x.sub(&l10.mul(&Num::int(k)));
    // r in about [-1.2, 1.2]; divide by 2^h
    let h = 8 + (w / 40).min(40) as u32;
    let wp = w + h as usize + 9;
    let wp = (wp + 8) / 9 * 9;
    let rr = r.round(wp as i64, Rnd::Trunc);
    let fixed = |n: &Num, q: usize| -> Big {
        if n.is_zero() {
            Big::zero()
        } else if n.exp >= -(q as i64) {
            n.mag.mul_pow10((n.exp + q as i64) as usize)
        } else {
            n.mag.div_pow10((-(q as i64) - n.exp) as usize).0
        }
    };
    let mut a = fixed(&rr, wp);
    for _ in 0..h {
        a = a.divrem_small(2).0;
    }
    let neg = rr.neg;
    let one = Big::one().mul_pow10(wp);
    let mut pos = one.clone();
    let mut min = Big::zero();
    let mut t = one;
    let mut i = 1u32;
    loop {
        t = t.mul(&a).div_pow10(wp).0.divrem_small(i).0;
        if t.is_zero() {
            break;
        }
        if neg && i % 2 == 1 {
            min = min.add(&t);
        } else {
            pos = pos.add(&t);
        }
        i += 1;
    }
    let mut s = pos.sub(&min);
    for _ in 0..h {
        s = s.sqr().div_pow10(wp).0;
    }
    Num::new(false, s, -(wp as i64)).shift10(k as i64)
}

/// x^y (x > 0) with absolute error below 10^-p.
pub fn pow(x: &Num, y: &Num, p: i64) -> Num {
    let t0 = ln(x, 30 + y.adj().unwrap_or(0).max(0)).mul(y);
    let est = t0.to_f64() * std::f64::consts::LOG10_E;
    let need = p + est.max(0.0) as i64 + 15;
    let l = ln(x, need + y.adj().unwrap_or(0).max(0) + 5);
    let t = l.mul(y);
    if t.to_f64() < -(p as f64 + 5.0) * std::f64::consts::LN_10 {
        return Num::zero();
    }
    exp(&t.round(need + 5, Rnd::Trunc), p + 3)
}

/// log_b(x) with absolute error below 10^-p. b != 1.
pub fn log(x: &Num, b: &Num, p: i64) -> Num {
    // first a rough look at the size of ln b
    let mut q = 40;
    let lb = loop {
        let l = ln(b, q);
        match l.adj() {
            Some(a) if a > -(q - 10) => break l,
            _ => q *= 2,
        }
        assert!(q < 200_000, "oracle: log base too close to 1");
    };
    let ab = lb.adj().unwrap();
    let w = p + 2 * (-ab).max(0) + 15 + 10;
    let lx = ln(x, w);
    let lb = ln(b, w);
    lx.div(&lb, p + 5, Rnd::HalfUp)
}
