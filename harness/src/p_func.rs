//! Square root, logarithms, exponential, powers, factorial.
//!
//! The oracle computes each function from its own series over exact decimals, to ten digits more
//! than the result shows. The result must have the scale the function promises and lie within a
//! stated number of units of its last place.

use crate::common::*;
use oracle::big::Big;
use oracle::engine::{guarded, Check, Ctx, Group, Prop, Src};
use oracle::fx;
use oracle::num::{Num, Rnd, Val};
use pgnumeric::{Numeric, NumericBuf};
use std::sync::Mutex;

/// A result with an accepted scale, no further than `tol` millionths of a unit in the last place
/// from the truth. `truth(p)` is the exact value to within 10^-p.
fn near(c: &mut Ctx, what: &str, got: &Numeric, scales: &[i64], tol: i128, truth: &mut dyn FnMut(i64) -> Num) -> Check {
    let v = read(got).map_err(|e| format!("{}: malformed result: {} ({})", what, e, hex(got.as_bytes())))?;
    let Val::V(n, d) = &v else { return Err(format!("{}: got NaN", what)) };
    ensure(scales.contains(d), || format!("{}: got {} with scale {}, want scale {:?}", what, v.show(), d, scales))?;
    let t = truth(d + 10);
    let err = n.sub(&t).abs().shift10(*d + 6).round(0, Rnd::HalfUp);
    let micro = if err.adj().unwrap_or(0) > 30 {
        i128::MAX
    } else {
        err.round(0, Rnd::Trunc).mag.mul_pow10(err.exp.max(0) as usize).to_u128().unwrap_or(u128::MAX >> 1) as i128
    };
    c.label(match micro {
        0..=500_001 => "correctly rounded",
        0..=501_000 => "error up to 0.501 units",
        0..=510_000 => "error up to 0.51 units",
        0..=600_000 => "error up to 0.6 units",
        0..=700_000 => "error up to 0.7 units",
        0..=800_000 => "error up to 0.8 units",
        0..=900_000 => "error up to 0.9 units",
        0..=1_000_001 => "error up to 1 unit",
        0..=2_000_000 => "error up to 2 units",
        _ => "error over 2 units",
    });
    ensure(micro <= tol, || {
        format!("{}: got {}, {} millionths of a unit of the last place away from {}", what, v.show(), micro, Val::V(t.round(*d + 4, Rnd::HalfUp), *d + 4).show())
    })
}

const HALF: i128 = 500_002;
const TOL: i128 = 510_000;

fn clamp_scale(x: i64) -> i64 {
    x.clamp(0, 1000)
}

/// Truncations of an estimate that is this close to a whole number may go either way.
fn trunc_both(x: f64, eps: f64) -> Vec<i64> {
    let mut v = vec![(x - eps).trunc() as i64, x.trunc() as i64, (x + eps).trunc() as i64];
    v.dedup();
    v
}

/// A finite positive (or zero) value for the functions: moderate digits, wide range of size.
fn arg(s: &mut Src, size: Size) -> Val {
    let v = match s.upto(5) {
        // close to one
        0 => {
            let d = s.range(1, if size >= Size::Medium { 120 } else { 25 });
            let t = Num::int(s.range(1, 99_999) as i128).shift10(-d - s.range(0, 4));
            let n = if s.flip() { Num::int(1).add(&t) } else { Num::int(1).sub(&t) };
            let n = if n.neg || n.is_zero() { Num::int(1) } else { n };
            let m = n.min_scale();
            Val::V(n, m)
        }
        // around the limits of the range reductions
        1 => {
            let n = Num::int(s.pick(&[9, 11, 1, 10, 100, 2, 5])).shift10(-1);
            let n = n.add(&Num::int(s.around(-2, 2) as i128).shift10(-s.range(2, 20)));
            let m = n.min_scale();
            Val::V(n, m)
        }
        // whole numbers, powers of ten
        2 => Val::V(Num::int(s.range(0, 1000) as i128), 0),
        3 => {
            let e = s.around(-40, 60);
            let n = Num::pow10(e);
            Val::V(n, (-e).max(0))
        }
        4 if size >= Size::Large => {
            // far below one
            let d = if s.flip() { s.range(16_000, 16_383) } else { s.range(900, 16_000) };
            Val::V(Num::int(s.range(1, 99_999) as i128).shift10(-d), d)
        }
        _ => finite(s, size),
    };
    let Val::V(n, d) = v else { unreachable!() };
    let d = if s.chance(1, 6) { (d + s.range(0, 60)).min(16383) } else { d };
    Val::V(n.abs(), d)
}

/// One, give or take as little as the format can tell; and how little.
fn close_to_one(s: &mut Src, max: i64) -> (Num, i64) {
    let d = match s.upto(3) {
        0 => s.range(1, 120),
        1 => s.range(100, 1000),
        2 => s.pick(&[980, 984, 988, 990, 992, 993, 994, 996, 997, 998, 999, 1000, 1001, 1004, 1008, 1009, 1012, 1016, 1020]) - 4 + s.range(0, 8),
        _ => s.range(1000, max),
    };
    let t = Num::int(s.range(1, 99_999) as i128).shift10(-d - s.range(0, 8));
    (if s.flip() { Num::int(1).add(&t) } else { Num::int(1).sub(&t) }, d)
}

/// A positive value with about as many places as results are given with at most, a thousand.
fn long(s: &mut Src, digits_before: i64) -> Val {
    let d = match s.upto(3) {
        0 => s.range(300, 990),
        1 => s.pick(&[1000, 1001, 999, 998, 997, 996, 995, 992, 1002, 1003, 1004, 1005, 1008, 1016]),
        2 => s.range(980, 1020),
        _ => s.range(1001, 1400),
    };
    let g = groups(s, (d as usize + 3) / 4);
    let n = Num::from_groups(false, -1, &g);
    let n = match s.upto(2) {
        0 => n,
        1 => n.shift10(-s.range(0, 40)),
        _ => n.shift10(-s.range(0, d)),
    };
    let n = n.round(d, Rnd::Trunc);
    let n = match s.upto(4) {
        0 => n,
        1 => n.add(&Num::int(1)),
        2 => n.add(&Num::int(s.range(1, 12) as i128)),
        3 => Num::int(s.range(1, 9999) as i128).shift10(s.range(0, digits_before) - 4).add(&n).round(d, Rnd::Trunc),
        _ => Num::int(1).sub(&n).abs(),
    };
    let m = n.min_scale();
    Val::V(n, if s.flip() { d.max(m) } else { m })
}

/// `arg`, seldom with a sign.
fn signed_arg(s: &mut Src, size: Size) -> Val {
    let v = arg(s, size);
    if s.chance(1, 20) {
        Val::V(v.num().neg(), v.dscale())
    } else {
        v
    }
}

// ---------------------------------------------------------------- sqrt

/// floor(sqrt(n) * 10^p), as a number off by less than 10^-p.
fn sqrt_num(n: &Num, p: i64) -> Num {
    if n.is_zero() {
        return Num::zero();
    }
    // n * 10^(2p) = mag * 10^(exp + 2p)
    let e = n.exp + 2 * p;
    let m = if e >= 0 { n.mag.mul_pow10(e as usize) } else { n.mag.div_pow10((-e) as usize).0 };
    Num::new(false, m.isqrt(), -p)
}

fn check_sqrt(s: &mut Src, c: &mut Ctx, v: Val) -> Check {
    note(c, "x", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero();
    let x = operand(s, &v);
    let r = guarded(|| x.num().sqrt());
    if v.is_nan() {
        return expect("sqrt", &no_panic("sqrt", r)?, &Val::NaN);
    }
    if v.is_neg() {
        return expect_panic("sqrt", r, "cannot take square root of a negative number");
    }
    let r = no_panic("sqrt", r)?;
    unchanged("x", &x)?;
    let (w, _) = v.num().groups();
    let sweight = (w + 1) * 4 / 2 - 1; // truncating, as the division of the host language
    let mut sc = vec![clamp_scale((16 - sweight).max(v.dscale()))];
    if v.is_zero() {
        // the weight a zero is stored with does not mean anything
        sc = vec![clamp_scale(v.dscale().max(15))];
    }
    let root = sqrt_num(v.num(), sc[0]);
    c.label_if(root.mul(&root) == *v.num() && !v.is_zero(), "perfect square");
    near(c, "sqrt", &r, &sc, HALF, &mut |p| sqrt_num(v.num(), p))?;
    if root.mul(&root) == *v.num() {
        expect("sqrt of a perfect square", &r, &Val::V(root, sc[0]))?;
    }
    Ok(())
}
fn sqrt_n(s: &mut Src, c: &mut Ctx) -> Check {
    let v = if s.chance(1, 60) { Val::NaN } else { signed_arg(s, Size::Medium) };
    check_sqrt(s, c, v)
}
fn sqrt_sq(s: &mut Src, c: &mut Ctx) -> Check {
    let r = finite(s, Size::Small);
    let mut n = r.num().mul(r.num());
    if s.chance(1, 3) {
        n = n.add(&Num::int(s.around(-1, 1) as i128).shift10(-n.min_scale() - s.range(0, 20))).abs();
    }
    let m = n.min_scale();
    check_sqrt(s, c, Val::V(n, m))
}
fn sqrt_h(s: &mut Src, c: &mut Ctx) -> Check {
    let v = arg(s, Size::Huge);
    // roots of the largest numbers take seconds each
    let v = match v {
        Val::V(n, d) if n.adj().unwrap_or(0) > 10_000 && !s.chance(1, 50) => {
            let n = n.shift10(-n.adj().unwrap() + s.range(0, 10_000));
            let m = n.min_scale().max(d);
            Val::V(n, m)
        }
        v => v,
    };
    if !v.fits() {
        c.skipped = true;
        return Ok(());
    }
    check_sqrt(s, c, v)
}
fn sqrt_long(s: &mut Src, c: &mut Ctx) -> Check {
    let v = long(s, 1200);
    check_sqrt(s, c, v)
}

pub const C17: Prop = Prop {
    id: "C17",
    rule: "the argument is not zero",
    groups: &[
        Group { name: "sqrt", quick: 30_000, thorough: 600_000, f: sqrt_n },
        Group { name: "sqrt-square", quick: 30_000, thorough: 600_000, f: sqrt_sq },
        Group { name: "sqrt-huge", quick: 1_000, thorough: 6_000, f: sqrt_h },
        Group { name: "sqrt-long", quick: 1_000, thorough: 20_000, f: sqrt_long },
    ],
};

// ---------------------------------------------------------------- logarithms

/// Estimate of the decimal weight of ln(x), as the scale rules use it; both neighbours where
/// the estimate is at the edge.
fn ln_dweight(x: &Num) -> Vec<i64> {
    let lo = Num::int(9).shift10(-1);
    let hi = Num::int(11).shift10(-1);
    use std::cmp::Ordering::*;
    if x.cmp(&lo) != Less && x.cmp(&hi) != Greater {
        let t = x.sub(&Num::int(1));
        if t.is_zero() {
            return vec![0];
        }
        let (w, g) = t.groups();
        vec![w * 4 + (g[0] as f64).log10() as i64]
    } else {
        let (w, g) = x.groups();
        let (digits, dw) = if g.len() > 1 { (g[0] as i64 * 10000 + g[1] as i64, w * 4 - 4) } else { (g[0] as i64, w * 4) };
        let l = ((digits as f64).ln() + dw as f64 * std::f64::consts::LN_10).abs().log10();
        trunc_both(l, 1e-9)
    }
}

const LOG_ZERO: &str = "cannot take logarithm of zero";
const LOG_NEG: &str = "cannot take logarithm of a negative number";

fn check_ln(s: &mut Src, c: &mut Ctx, v: Val) -> Check {
    note(c, "x", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero();
    let x = operand(s, &v);
    let r = guarded(|| x.num().ln());
    if v.is_nan() {
        return expect("ln", &no_panic("ln", r)?, &Val::NaN);
    }
    if v.is_zero() {
        return expect_panic("ln", r, LOG_ZERO);
    }
    if v.is_neg() {
        return expect_panic("ln", r, LOG_NEG);
    }
    let r = no_panic("ln", r)?;
    unchanged("x", &x)?;
    let sc: Vec<i64> = ln_dweight(v.num()).iter().map(|w| clamp_scale((16 - w).max(v.dscale()))).collect();
    // every halving of the range of a very large or small number costs some accuracy
    let tol = if v.num().adj().unwrap().abs() <= 100 { TOL } else { 1_000_000 };
    near(c, "ln", &r, &sc, tol, &mut |p| fx::ln(v.num(), p))
}

fn ln_n(s: &mut Src, c: &mut Ctx) -> Check {
    let v = if s.chance(1, 60) { Val::NaN } else { signed_arg(s, Size::Medium) };
    check_ln(s, c, v)
}
fn ln_l(s: &mut Src, c: &mut Ctx) -> Check {
    let v = arg(s, Size::Large);
    check_ln(s, c, v)
}
fn ln_h(s: &mut Src, c: &mut Ctx) -> Check {
    let v = arg(s, Size::Huge);
    check_ln(s, c, v)
}
fn ln_long(s: &mut Src, c: &mut Ctx) -> Check {
    let v = if s.chance(1, 4) {
        let n = close_to_one(s, 16_370).0;
        let m = n.min_scale();
        Val::V(n, m)
    } else {
        long(s, 40)
    };
    check_ln(s, c, v)
}

pub const C18: Prop = Prop {
    id: "C18",
    rule: "the argument is not zero",
    groups: &[
        Group { name: "ln", quick: 20_000, thorough: 400_000, f: ln_n },
        Group { name: "ln-large", quick: 1_000, thorough: 20_000, f: ln_l },
        Group { name: "ln-huge", quick: 150, thorough: 3_000, f: ln_h },
        Group { name: "ln-long", quick: 150, thorough: 3_000, f: ln_long },
    ],
};

fn log_scales(x: &Val, b: &Val) -> Vec<i64> {
    let mut sc = vec![];
    for wx in ln_dweight(x.num()) {
        for wb in ln_dweight(b.num()) {
            sc.push(clamp_scale((16 - (wx - wb)).max(x.dscale()).max(b.dscale())));
        }
    }
    sc
}

fn check_log(s: &mut Src, c: &mut Ctx, v: Val, b: Val) -> Check {
    note(c, "x", &v);
    note(c, "base", &b);
    label_val(c, &v);
    label_val(c, &b);
    c.nontrivial = !v.is_zero() && !b.is_zero() && !v.is_nan() && !b.is_nan();
    let (x, y) = (operand(s, &v), operand(s, &b));
    let r = guarded(|| x.num().log(y.num()));
    if v.is_nan() || b.is_nan() {
        return expect("log", &no_panic("log", r)?, &Val::NaN);
    }
    for a in [&v, &b] {
        if a.is_zero() {
            return expect_panic("log", r, LOG_ZERO);
        }
        if a.is_neg() {
            return expect_panic("log", r, LOG_NEG);
        }
    }
    if *b.num() == Num::int(1) {
        c.label("base one");
        return expect_panic("log to base 1", r, DIV_ZERO);
    }
    let r = no_panic("log", r)?;
    unchanged("x", &x)?;
    unchanged("base", &y)?;
    near(c, "log", &r, &log_scales(&v, &b), TOL, &mut |p| fx::log(v.num(), b.num(), p))
}
fn log_any(s: &mut Src, c: &mut Ctx) -> Check {
    let v = if s.chance(1, 80) { Val::NaN } else { signed_arg(s, Size::Medium) };
    let b = if s.chance(1, 80) { Val::NaN } else { signed_arg(s, Size::Medium) };
    check_log(s, c, v, b)
}
/// A power of the base: the logarithm is a whole number, or a hair off it.
fn log_pow(s: &mut Src, c: &mut Ctx) -> Check {
    let b = match finite(s, Size::Small) {
        Val::V(n, _) if !n.is_zero() && n.mag.ndec() < 30 => n.abs(),
        _ => Num::int(3),
    };
    let e = s.range(0, 12);
    let mut n = Num::new(false, b.mag.pow_u(e as u64), b.exp * e);
    if s.chance(1, 3) {
        n = n.add(&Num::int(s.around(-1, 1) as i128).shift10(-n.min_scale())).abs();
    }
    let (m, k) = (n.min_scale(), b.min_scale());
    if n.is_zero() || m > 1000 {
        c.skipped = true;
        return Ok(());
    }
    check_log(s, c, Val::V(n, m), Val::V(b, k))
}
fn log_fixed(s: &mut Src, c: &mut Ctx) -> Check {
    let v = if s.chance(1, 60) { Val::NaN } else { signed_arg(s, Size::Medium) };
    note(c, "x", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero() && !v.is_nan();
    let x = operand(s, &v);
    for (what, base, r) in [
        ("log2", 2, guarded(|| x.num().log2())),
        ("log10", 10, guarded(|| x.num().log10())),
    ] {
        if v.is_nan() {
            expect(what, &no_panic(what, r)?, &Val::NaN)?;
        } else if v.is_zero() {
            expect_panic(what, r, LOG_ZERO)?;
        } else if v.is_neg() {
            expect_panic(what, r, LOG_NEG)?;
        } else {
            let b = Val::int(base);
            near(c, what, &no_panic(what, r)?, &log_scales(&v, &b), TOL, &mut |p| fx::log(v.num(), b.num(), p))?;
        }
    }
    unchanged("x", &x)
}
fn log_huge(s: &mut Src, c: &mut Ctx) -> Check {
    let v = arg(s, Size::Huge);
    let b = arg(s, Size::Large);
    check_log(s, c, v, b)
}
fn log_long(s: &mut Src, c: &mut Ctx) -> Check {
    let close = |s: &mut Src, max: i64| {
        let n = close_to_one(s, max).0;
        let m = n.min_scale();
        Val::V(n, m)
    };
    let (mut v, mut b) = match s.upto(5) {
        0 => (long(s, 40), arg(s, Size::Medium)),
        1 => (long(s, 40), long(s, 40)),
        2 => (long(s, 40), Val::int(s.pick(&[10, 2, 3, 7]))),
        // the other logarithm takes as many more digits
        3 => (close(s, 1100), arg(s, Size::Medium)),
        4 => (close(s, 1100), long(s, 40)),
        _ => {
            let (x, d) = close_to_one(s, 16_370);
            let t = Num::int(s.range(1, 99_999) as i128).shift10(-(d + s.around(-900, 900)).clamp(6, 16_383));
            let y = if s.flip() { Num::int(1).add(&t) } else { Num::int(1).sub(&t) };
            let (m, k) = (x.min_scale(), y.min_scale());
            (Val::V(x, m), Val::V(y, k))
        }
    };
    if s.flip() {
        std::mem::swap(&mut v, &mut b);
    }
    check_log(s, c, v, b)
}

pub const C19: Prop = Prop {
    id: "C19",
    rule: "neither argument is zero or NaN",
    groups: &[
        Group { name: "log", quick: 10_000, thorough: 200_000, f: log_any },
        Group { name: "log-power", quick: 10_000, thorough: 200_000, f: log_pow },
        Group { name: "log2-log10", quick: 8_000, thorough: 160_000, f: log_fixed },
        Group { name: "log-huge", quick: 80, thorough: 1_600, f: log_huge },
        Group { name: "log-long", quick: 80, thorough: 1_600, f: log_long },
    ],
};

// ---------------------------------------------------------------- exp

fn exp_scales(x: &Val) -> Vec<i64> {
    let f = (x.num().to_f64() * std::f64::consts::LOG10_E).clamp(-2000.0, 2000.0);
    trunc_both(f, 1e-9).iter().map(|t| clamp_scale((16 - t).max(x.dscale()))).collect()
}

fn check_exp(s: &mut Src, c: &mut Ctx, v: Val) -> Check {
    note(c, "x", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero() && !v.is_nan();
    let x = operand(s, &v);
    let r = no_panic("exp", guarded(|| x.num().exp()))?;
    unchanged("x", &x)?;
    if v.is_nan() {
        return expect_opt("exp", r, &v);
    }
    if v.num().abs().cmp(&Num::int(6000)) != std::cmp::Ordering::Less {
        c.label("out of range");
        return match r {
            // a vanishing result may also be given as zero
            Some(z) if v.is_neg() => expect("exp", &z, &Val::V(Num::zero(), exp_scales(&v)[0])),
            r => expect_none("exp", r),
        };
    }
    // the limit is decided in floating point
    if v.num().to_f64().abs() >= 6000.0 {
        c.label("at the limit");
        return Ok(());
    }
    let r = match r {
        Some(r) => r,
        None => return Err(format!("exp: returned None for {}", v.show())),
    };
    near(c, "exp", &r, &exp_scales(&v), TOL, &mut |p| fx::exp(v.num(), p))
}

fn exp_n(s: &mut Src, c: &mut Ctx) -> Check {
    let v = match s.upto(7) {
        0 => {
            let d = s.range(0, 20);
            Val::V(Num::int(s.around(-100_000, 100_000) as i128).shift10(-d), d)
        }
        1 => {
            let d = s.range(0, 8);
            Val::V(Num::int(s.around(-6_100, 6_100) as i128).add(&Num::pow10(-d)), d)
        }
        2 => Val::NaN,
        3 => {
            // about ten to a whole power
            let k = s.around(-60, 60);
            let d = s.range(0, 30);
            let n = fx::ln(&Num::int(10), d + 5).mul(&Num::int(k as i128)).round(d, Rnd::HalfUp);
            let m = n.min_scale();
            Val::V(n, m)
        }
        _ => match finite(s, Size::Medium) {
            Val::V(n, d) if n.adj().unwrap_or(0) > 3 => {
                let a = n.adj().unwrap();
                let n = n.shift10(-a + s.range(-3, 3));
                let m = n.min_scale().max(d);
                Val::V(n, m)
            }
            v => v,
        },
    };
    check_exp(s, c, v)
}
fn exp_edge(s: &mut Src, c: &mut Ctx) -> Check {
    let v = match s.upto(3) {
        0 => any(s, Size::Huge),
        1 => {
            let d = s.range(0, 14);
            let n = Num::int(6000).add(&Num::int(s.around(-1, 1) as i128).shift10(-d));
            Val::V(if s.flip() { n.neg() } else { n }, d)
        }
        2 => {
            let d = s.range(0, 3);
            Val::V(Num::int(s.range(1000, 6000) as i128 * if s.flip() { -1 } else { 1 }).add(&Num::pow10(-d)), d)
        }
        _ => {
            let d = s.range(100, 16000);
            Val::V(Num::int(s.around(-9999, 9999) as i128).shift10(-d), d)
        }
    };
    check_exp(s, c, v)
}
fn exp_long(s: &mut Src, c: &mut Ctx) -> Check {
    let v = long(s, 4);
    let n = if s.chance(1, 3) { v.num().neg() } else { v.num().clone() };
    check_exp(s, c, Val::V(n, v.dscale()))
}

pub const C20: Prop = Prop {
    id: "C20",
    rule: "the argument is finite and not zero",
    groups: &[
        Group { name: "exp", quick: 15_000, thorough: 300_000, f: exp_n },
        Group { name: "exp-edge", quick: 1_500, thorough: 30_000, f: exp_edge },
        Group { name: "exp-long", quick: 200, thorough: 4_000, f: exp_long },
    ],
};

// ---------------------------------------------------------------- whole powers

/// x^e for whole e, off by less than 10^-p. The result must be of moderate size.
fn pow_int(x: &Num, e: i128, p: i64) -> Num {
    if e == 0 {
        return Num::int(1);
    }
    let k = e.unsigned_abs();
    let l = log10_abs(x) * e as f64;
    // significant digits kept at each step
    let w = (p + l.max(0.0) as i64 + 60).max(60) as usize;
    let cut = |n: Num| -> Num {
        let have = n.mag.ndec();
        if have > w {
            let d = have - w;
            Num::new(n.neg, n.mag.div_pow10(d).0, n.exp + d as i64)
        } else {
            n.reduced()
        }
    };
    if l < -(p as f64) - 5.0 {
        return Num::zero();
    }
    let mut r = Num::int(1);
    for i in (0..128 - k.leading_zeros()).rev() {
        r = cut(r.mul(&r));
        if k >> i & 1 == 1 {
            r = cut(r.mul(x));
        }
    }
    if e > 0 {
        r
    } else {
        Num::int(1).div(&r, p + 5, Rnd::HalfUp)
    }
}

/// log10 |x| in floating point; x is not zero.
fn log10_abs(x: &Num) -> f64 {
    let d = x.mag.to_digits();
    let n = d.len().min(17);
    let m: f64 = std::str::from_utf8(&d[..n]).unwrap().parse().unwrap();
    m.log10() + (d.len() - n) as f64 + x.exp as f64
}


fn check_pow_int(s: &mut Src, c: &mut Ctx, v: Val, e: i128, ed: i64) -> Check {
    let ev = Val::V(Num::int(e), ed);
    note(c, "base", &v);
    note(c, "exponent", &ev);
    label_val(c, &v);
    let n = v.num();
    c.nontrivial = !n.is_zero() && e != 0 && e != 1;
    c.label_if(e < 0, "negative exponent");
    let (x, y) = (operand(s, &v), operand(s, &ev));
    let r = guarded(|| x.num().pow(y.num()));
    let sc = clamp_scale(v.dscale().max(16));
    if n.is_zero() {
        return if e < 0 {
            expect_panic("pow", r, "zero raised to a negative power is undefined")
        } else {
            let one = if e == 0 { Num::int(1) } else { Num::zero() };
            expect_opt("pow", no_panic("pow", r)?, &Val::V(one, sc))
        };
    }
    let r = no_panic("pow", r)?;
    unchanged("base", &x)?;
    unchanged("exponent", &y)?;
    let l = log10_abs(n) * e as f64;
    if l > 131072.5 {
        c.label("overflows");
        return expect_none("pow", r);
    }
    let r = match r {
        Some(r) => r,
        None if l > 131071.5 => {
            let t = pow_int(n, e, 5);
            return ensure(!Val::V(t, 0).fits(), || "pow: returned None for a result that fits".into());
        }
        None => return Err(format!("pow: returned None for a result of about 10^{}", l)),
    };
    c.label_if(l > 100.0, "over 100 digits");
    c.label_if(l < -1000.0, "underflows");
    near(c, "pow", &r, &[sc], TOL, &mut |p| pow_int(n, e, p))?;
    // exact whenever the exact result fits the scale
    if e > 0 && n.mag.ndec() as i128 * e < 3000 {
        let t = Num::new(n.neg && e % 2 == 1, n.mag.pow_u(e as u64), n.exp * e as i64);
        if t.min_scale() <= sc {
            c.label("exact");
            expect("pow", &r, &Val::V(t, sc))?;
        }
    }
    Ok(())
}

fn small_base(s: &mut Src) -> Val {
    match s.upto(3) {
        0 => {
            let d = s.range(0, 3);
            Val::V(Num::int(s.around(-3000, 3000) as i128).shift10(-d), d)
        }
        1 => {
            let v = arg(s, Size::Small);
            Val::V(if s.flip() { v.num().neg() } else { v.num().clone() }, v.dscale())
        }
        _ => finite(s, Size::Small),
    }
}

/// Largest exponent that keeps the result, and the exact intermediate values, to `digits`.
fn bound(n: &Num, digits: i64) -> i64 {
    let l = log10_abs(n).abs().max(1e-7);
    ((digits as f64 / l) as i64).clamp(2, i32::MAX as i64)
}

fn pow_n(s: &mut Src, c: &mut Ctx) -> Check {
    let v = small_base(s);
    let top = if v.is_zero() { 1000 } else { bound(v.num(), 600) };
    let e = match s.upto(3) {
        0 => s.around(-20, 20),
        1 => s.around(-top.min(300), top.min(300)),
        _ => s.around(-top, top),
    };
    let ed = if s.chance(1, 5) { s.range(0, 30) } else { 0 };
    check_pow_int(s, c, v, e as i128, ed)
}
/// Bases close to one with large exponents: the leading digits decide the size of the result.
fn pow_near_one(s: &mut Src, c: &mut Ctx) -> Check {
    let d = s.range(1, 16);
    let t = Num::int(s.range(1, 9999) as i128).shift10(-d - 4);
    let n = if s.flip() { Num::int(1).add(&t) } else { Num::int(1).sub(&t) };
    let n = if s.chance(1, 4) { n.neg() } else { n };
    let n = n.shift10(s.pick(&[0, 0, 0, 1, -1, 4, -4]));
    let m = n.min_scale();
    let top = bound(&n, 300);
    let e = s.around(-top, top);
    check_pow_int(s, c, Val::V(n, m), e as i128, 0)
}
fn pow_limits(s: &mut Src, c: &mut Ctx) -> Check {
    match s.upto(4) {
        // extreme exponents of bases that do not grow
        0 => {
            let n = Num::int(s.pick(&[1, -1, 0, 1]));
            let d = s.range(0, 4);
            let e = s.pick(&[i32::MAX as i128, i32::MIN as i128, i32::MIN as i128 + 1, i32::MAX as i128 - 1]);
            check_pow_int(s, c, Val::V(n, d), e, 0)
        }
        1 => {
            let n = Num::int(1).add(&Num::int(s.around(-5, 5) as i128).shift10(-10));
            let e = s.pick(&[i32::MAX as i128, i32::MIN as i128, i32::MIN as i128 + 1]);
            let m = n.min_scale();
            check_pow_int(s, c, Val::V(n, m), e, 0)
        }
        // results around the limit of the format: powers of powers of ten
        2 => pow_of_ten_top(s, c),
        3 => {
            let k = s.range(1, 40);
            let e = s.range(1, 2000 / k);
            let n = Num::pow10(-k);
            let e = if s.flip() { -e } else { e };
            check_pow_int(s, c, Val::V(n, k), e as i128, 0)
        }
        // certain to overflow, or to vanish
        _ => {
            let v = small_base(s);
            if v.is_zero() || log10_abs(v.num()).abs() < 1e-6 {
                c.skipped = true;
                return Ok(());
            }
            let l = log10_abs(v.num());
            let e = (420_000.0 / l.abs()) as i128 + s.range(1, 1000) as i128;
            let e = if e > i32::MAX as i128 { i32::MAX as i128 } else { e };
            if (e as f64 * l).abs() < 400_000.0 {
                c.skipped = true;
                return Ok(());
            }
            let e = if s.flip() { -e } else { e };
            check_pow_int(s, c, v, e, 0)
        }
    }
}

/// Powers of powers of ten, and of numbers of few digits, around the limit of the format.
pub fn pow_of_ten_top(s: &mut Src, c: &mut Ctx) -> Check {
    // small exponents and powers of two take other steps on the way there
    let e = match s.upto(3) {
        0 => 131072 / s.range(1, 40) + s.range(-2, 2),
        1 => 1 << s.range(1, 16),
        2 => s.range(2, 40),
        _ => s.range(2, 131072),
    };
    let top = (131072 + s.range(-10, 3)) as f64;
    let m = if e <= 64 { s.pick(&[1, 1, 2, 5, 3, 9999, 10001, 31]) } else { 1 };
    let l = (m as f64).log10();
    let k = ((top / e as f64 - l) as i64).max(0) + (s.chance(1, 6) as i64);
    let n = Num::int(m as i128).shift10(k);
    let n = if s.flip() { n.neg() } else { n };
    let d = s.pick(&[0, 0, 0, 2, 20]);
    let e = if s.chance(1, 12) { -e } else { e };
    check_pow_int(s, c, Val::V(n, d), e as i128, 0)
}
/// Powers of anything else, around the limit of the format: slow.
fn pow_top(s: &mut Src, c: &mut Ctx) -> Check {
    let d = s.range(0, 2);
    let n = Num::int(s.range(2, 99) as i128).shift10(-d);
    let l = log10_abs(&n);
    if l.abs() < 0.01 {
        c.skipped = true;
        return Ok(());
    }
    let e = (131072.0 / l) as i128 + s.range(-3, 3) as i128;
    check_pow_int(s, c, Val::V(n, d), e, 0)
}
fn pow_long(s: &mut Src, c: &mut Ctx) -> Check {
    let v = long(s, 40);
    let n = if s.chance(1, 3) { v.num().neg() } else { v.num().clone() };
    let top = if n.is_zero() { 1000 } else { bound(&n, 600).min(1 << 20) };
    let e = match s.upto(2) {
        0 => s.around(-3, 5),
        1 => s.around(-top.min(40), top.min(40)),
        _ => s.around(-top, top),
    };
    check_pow_int(s, c, Val::V(n, v.dscale()), e as i128, 0)
}
/// Bases of up to a hundred thousand digits.
fn pow_vast(s: &mut Src, c: &mut Ctx) -> Check {
    let size = if s.flip() { Size::Vast } else { Size::Huge };
    let v = finite(s, size);
    let e = s.pick(&[2, 2, 2, 3, -1, 1, -2, 4, 5]);
    let n = v.num().clone();
    // results within the format mostly
    let n = match n.adj() {
        Some(a) if a * e > 131_000 && !s.chance(1, 8) => n.shift10(131_000 / e - a),
        Some(a) if e > 2 && a < -3000 => n.shift10(-a),
        _ => n,
    };
    let n = n.round(oracle::num::MAX_DSCALE, Rnd::Trunc);
    let m = n.min_scale();
    // divisions and powers of that many digits take long
    let n = if e < 0 || e > 2 { n.round(1500 - n.adj().unwrap_or(0), Rnd::Trunc) } else { n };
    let m = n.min_scale().max(m.min(v.dscale()));
    check_pow_int(s, c, Val::V(n, m), e as i128, 0)
}

pub const C21: Prop = Prop {
    id: "C21",
    rule: "the base is not zero and the exponent neither 0 nor 1",
    groups: &[
        Group { name: "pow-int", quick: 20_000, thorough: 400_000, f: pow_n },
        Group { name: "pow-near-one", quick: 10_000, thorough: 200_000, f: pow_near_one },
        Group { name: "pow-limits", quick: 1_500, thorough: 30_000, f: pow_limits },
        Group { name: "pow-long", quick: 400, thorough: 8_000, f: pow_long },
        Group { name: "pow-vast", quick: 8, thorough: 200, f: pow_vast },
        Group { name: "pow-top", quick: 1, thorough: 24, f: pow_top },
    ],
};

// ---------------------------------------------------------------- other powers

fn check_pow(s: &mut Src, c: &mut Ctx, v: Val, e: Val) -> Check {
    note(c, "base", &v);
    note(c, "exponent", &e);
    label_val(c, &v);
    label_val(c, &e);
    let (n, en) = (v.num(), e.num());
    let whole = en.min_scale() == 0;
    c.nontrivial = !n.is_zero();
    c.label_if(whole, "whole exponent beyond i32");
    let (x, y) = (operand(s, &v), operand(s, &e));
    let r = guarded(|| x.num().pow(y.num()));
    if n.is_zero() {
        return if en.neg {
            expect_panic("pow", r, "zero raised to a negative power is undefined")
        } else {
            expect_opt("pow", no_panic("pow", r)?, &Val::V(Num::zero(), 16))
        };
    }
    if n.neg && !whole {
        return expect_panic("pow", r, "a negative number raised to a non-integer power yields a complex result");
    }
    let r = no_panic("pow", r)?;
    unchanged("base", &x)?;
    unchanged("exponent", &y)?;
    let neg = n.neg && whole && en.reduced().exp == 0 && en.reduced().mag.is_odd();
    let base = n.abs();
    // exponent * ln(base)
    let big = en.adj().unwrap_or(0).max(0);
    let t = if *n == Num::int(1) { Num::zero() } else { fx::ln(&base, 40 + big).mul(en) };
    let tf = if t.adj().unwrap_or(0) > 300 { f64::INFINITY } else { t.abs().to_f64() };
    if tf > 6000.1 {
        c.label("out of range");
        return match r {
            Some(z) if t.neg => match read(&z)? {
                Val::V(z, _) if z.is_zero() => Ok(()),
                z => Err(format!("pow: want None or zero, got {}", z.show())),
            },
            r => expect_none("pow", r),
        };
    }
    let r = match r {
        Some(r) => r,
        None if tf > 5999.9 => return Ok(()),
        None => return Err(format!("pow: returned None for e^{}", t.to_f64())),
    };
    let f = (if t.neg { -tf } else { tf }) * std::f64::consts::LOG10_E;
    let sc: Vec<i64> =
        trunc_both(f, 1e-6).iter().map(|k| clamp_scale((16 - k).max(v.dscale()).max(e.dscale()))).collect();
    near(c, "pow", &r, &sc, TOL, &mut |p| {
        let m = fx::pow(&base, en, p);
        if neg { m.neg() } else { m }
    })
}

fn fraction(s: &mut Src) -> Num {
    let n = match s.upto(4) {
        0 => Num::int(s.around(-40, 40) as i128).add(&Num::int(5).shift10(-1)),
        1 => Num::int(s.around(-99_999, 99_999) as i128).shift10(-s.range(1, 8)),
        2 => Num::int(s.around(-9_999, 9_999) as i128).shift10(-s.range(8, 60)),
        _ => finite(s, Size::Small).num().clone(),
    };
    if n.min_scale() == 0 {
        n.add(&Num::int(25).shift10(-2))
    } else {
        n
    }
}

fn pow_frac(s: &mut Src, c: &mut Ctx) -> Check {
    let v = if s.chance(1, 12) { Val::V(Num::int(s.around(-9, 0) as i128), 0) } else { arg(s, Size::Small) };
    let mut e = fraction(s);
    if !v.is_zero() && s.chance(5, 6) {
        // mostly in range
        let l = log10_abs(v.num()).abs() + e.adj().unwrap_or(0) as f64 - 2.4;
        if e.adj().unwrap_or(0) > 0 && (log10_abs(v.num()).abs() * e.abs().to_f64()) > 2600.0 {
            e = e.shift10(-(l as i64) - s.range(0, 6));
        }
    }
    let m = e.min_scale();
    if m == 0 || m > 16383 {
        c.skipped = true;
        return Ok(());
    }
    let d = if s.chance(1, 6) { m + s.range(0, 40) } else { m };
    check_pow(s, c, v, Val::V(e, d))
}
fn pow_close(s: &mut Src, c: &mut Ctx) -> Check {
    let d = s.range(1, 40);
    let t = Num::int(s.range(1, 9999) as i128).shift10(-d - 4);
    let n = if s.flip() { Num::int(1).add(&t) } else { Num::int(1).sub(&t) };
    let m = n.min_scale();
    let e = fraction(s).shift10(s.range(0, d));
    let e = if e.min_scale() == 0 { e.add(&Num::pow10(-1)) } else { e };
    let k = e.min_scale();
    check_pow(s, c, Val::V(n, m), Val::V(e, k))
}
/// Bases next to one, with exponents that make up for it.
fn pow_next_to_one(s: &mut Src, c: &mut Ctx) -> Check {
    let (n, d) = close_to_one(s, 16_370);
    let e = fraction(s).shift10(d + s.range(-8, 4));
    let e = if e.min_scale() == 0 && s.flip() { e.add(&Num::pow10(-1)) } else { e };
    let (m, k) = (n.min_scale(), e.min_scale());
    if k > 16383 || (k == 0 && e.adj().unwrap_or(0) < 10) {
        c.skipped = true;
        return Ok(());
    }
    check_pow(s, c, Val::V(n, m), Val::V(e, k))
}
/// Bases of all sizes, and roots of them.
fn pow_huge(s: &mut Src, c: &mut Ctx) -> Check {
    let v = match arg(s, Size::Huge) {
        // logarithms of the largest take long
        Val::V(n, d) if n.adj().unwrap_or(0) > 10_000 => {
            let n = n.shift10(-n.adj().unwrap() + s.range(0, 10_000)).round(oracle::num::MAX_DSCALE, Rnd::Trunc);
            let m = n.min_scale().max(d);
            Val::V(n, m)
        }
        v => v,
    };
    let e = fraction(s);
    let l = if v.is_zero() { 1.0 } else { log10_abs(v.num()).abs() * e.abs().to_f64() };
    let e = if l > 2600.0 && !s.chance(1, 10) { e.shift10(-((l / 2600.0).log10().ceil() as i64) - s.range(0, 3)) } else { e };
    let k = e.min_scale();
    if k == 0 || k > 16383 {
        c.skipped = true;
        return Ok(());
    }
    check_pow(s, c, v, Val::V(e, k))
}
/// Whole exponents that do not fit the integer route.
fn pow_big_int(s: &mut Src, c: &mut Ctx) -> Check {
    let (n, e) = if s.chance(2, 5) {
        (Num::int(s.pick(&[1, -1, 2, -2, 0, 10, -7])), Num::int(i32::MAX as i128 + s.range(1, 1000) as i128))
    } else {
        let d = s.range(7, 30);
        let t = Num::int(s.range(1, 9999) as i128).shift10(-d - 4);
        let n = if s.flip() { Num::int(1).add(&t) } else { Num::int(1).sub(&t) };
        let e = Num::int(i32::MAX as i128 + 1 + s.upto(1 << 40) as i128).mul(&Num::pow10(s.range(0, d / 2)));
        (if s.chance(1, 3) { n.neg() } else { n }, e)
    };
    let e = if s.chance(1, 3) { e.neg().sub(&Num::int(1)) } else { e };
    let m = n.min_scale();
    let d = s.pick(&[0, 0, 3]);
    check_pow(s, c, Val::V(n, m), Val::V(e, d))
}
fn pow_frac_long(s: &mut Src, c: &mut Ctx) -> Check {
    let v = long(s, 40);
    let e = match s.upto(2) {
        0 => fraction(s),
        1 => long(s, 3).num().clone(),
        _ => Num::int(5).shift10(-1),
    };
    let (v, e) = if s.chance(1, 3) { (arg(s, Size::Small), v.num().clone()) } else { (v, e) };
    // mostly in range
    let l = if v.is_zero() { 0.0 } else { log10_abs(v.num()).abs() * e.abs().to_f64() };
    let e = if l > 2600.0 { e.shift10(-((l / 2600.0).log10().ceil() as i64) - s.range(0, 3)) } else { e };
    let m = e.min_scale();
    if m == 0 || m > 16383 {
        c.skipped = true;
        return Ok(());
    }
    check_pow(s, c, v, Val::V(e, m))
}

pub const C22: Prop = Prop {
    id: "C22",
    rule: "the base is not zero",
    groups: &[
        Group { name: "pow", quick: 6_000, thorough: 120_000, f: pow_frac },
        Group { name: "pow-close", quick: 4_000, thorough: 80_000, f: pow_close },
        Group { name: "pow-big-int", quick: 1_500, thorough: 30_000, f: pow_big_int },
        Group { name: "pow-long", quick: 80, thorough: 1_600, f: pow_frac_long },
        Group { name: "pow-next-to-one", quick: 80, thorough: 1_600, f: pow_next_to_one },
        Group { name: "pow-huge", quick: 200, thorough: 4_000, f: pow_huge },
    ],
};

// ---------------------------------------------------------------- factorial

fn fact(n: i64) -> Big {
    // every 64th factorial is kept
    static KEPT: Mutex<Vec<Big>> = Mutex::new(Vec::new());
    if n < 2 {
        return Big::one();
    }
    let n = n as usize;
    let mut k = KEPT.lock().unwrap();
    if k.is_empty() {
        k.push(Big::one());
    }
    while k.len() <= n / 64 && k.len() < 200 {
        let from = (k.len() - 1) * 64;
        let mut b = k.last().unwrap().clone();
        for i in from + 1..=from + 64 {
            b = b.mul_small(i as u32);
        }
        k.push(b);
    }
    let at = (n / 64).min(k.len() - 1);
    let mut b = k[at].clone();
    drop(k);
    for i in at * 64 + 1..=n {
        b = b.mul_small(i as u32);
    }
    b
}

fn check_fact(c: &mut Ctx, n: i64) -> Check {
    c.input("n", &|| n.to_string(), n as u64);
    c.nontrivial = n > 1;
    let r = no_panic("factorial", guarded(|| NumericBuf::factorial(n)))?;
    if n > 32177 {
        c.label("overflows");
        return expect_none("factorial", r);
    }
    expect_opt("factorial", r, &Val::V(Num::new(false, fact(n), 0), 0))
}
fn fact_n(s: &mut Src, c: &mut Ctx) -> Check {
    let n = match s.upto(4) {
        0 => s.range(0, 60),
        1 => s.around(-1000, 900),
        2 => s.range(0, 2500),
        3 => s.pick(&[i64::MIN, i64::MAX, -1, 0, 1, 2, 32178, 32179, 100_000, 1 << 31, 1 << 32, (1 << 32) + 5, -(1 << 32) + 7, i64::MIN + 5, 1 << 16, (1 << 16) + 3]),
        _ => 32178 + s.upto(1 << 40) as i64,
    };
    check_fact(c, n)
}
fn fact_big(s: &mut Src, c: &mut Ctx) -> Check {
    let n = s.range(2500, 9000);
    check_fact(c, n)
}
/// Near the largest one that fits.
fn fact_top(s: &mut Src, c: &mut Ctx) -> Check {
    let n = 32177 - s.range(0, 3);
    check_fact(c, n)
}

pub const C23: Prop = Prop {
    id: "C23",
    rule: "n is above one",
    groups: &[
        Group { name: "factorial", quick: 4_000, thorough: 80_000, f: fact_n },
        Group { name: "factorial-big", quick: 60, thorough: 1_200, f: fact_big },
        Group { name: "factorial-top", quick: 4, thorough: 24, f: fact_top },
    ],
};

pub const PROPS: &[&Prop] = &[&C17, &C18, &C19, &C20, &C21, &C22, &C23];
