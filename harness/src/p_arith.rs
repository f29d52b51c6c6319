//! Exact arithmetic, division, remainder, rounding, unary operations, the limits of the format.

use crate::common::*;
use oracle::big::Big;
use oracle::engine::{guarded, Check, Ctx, Group, Prop, Src};
use oracle::num::{Num, Rnd, Val, MAX_DSCALE};
use pgnumeric::{Numeric, NumericBuf};

fn pair(s: &mut Src, c: &mut Ctx, size: Size) -> (Val, Val) {
    let a = finite_v(s, size);
    let b = loop_related(s, &a, size);
    let (a, b) = if s.flip() { (b, a) } else { (a, b) };
    note(c, "a", &a);
    note(c, "b", &b);
    label_val(c, &a);
    label_val(c, &b);
    c.nontrivial = !a.is_zero() && !b.is_zero();
    (a, b)
}

fn finite_v(s: &mut Src, size: Size) -> Val {
    finite(s, size)
}

fn loop_related(s: &mut Src, a: &Val, size: Size) -> Val {
    match related(s, a, size) {
        Val::NaN => Val::V(Num::int(7), 0),
        v => v,
    }
}

// ---------------------------------------------------------------- add, sub, mul

fn add_sub(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let (a, b) = pair(s, c, size);
    let (x, y) = (operand(s, &a), operand(s, &b));
    let d = a.dscale().max(b.dscale());
    let sum = Val::V(a.num().add(b.num()), d);
    let dif = Val::V(a.num().sub(b.num()), d);
    c.label_if(dif.is_zero() && !a.is_zero(), "cancels to zero");
    c.label_if(!sum.fits() || !dif.fits(), "overflows");
    expect_opt("checked_add", x.num().checked_add(y.num()), &sum)?;
    expect_opt("checked_sub", x.num().checked_sub(y.num()), &dif)?;
    // the inputs are as they were
    unchanged("a", &x)?;
    unchanged("b", &y)
}
fn add_sub_n(s: &mut Src, c: &mut Ctx) -> Check {
    add_sub(s, c, Size::Large)
}
fn add_sub_h(s: &mut Src, c: &mut Ctx) -> Check {
    add_sub(s, c, Size::Huge)
}
fn add_sub_vast(s: &mut Src, c: &mut Ctx) -> Check {
    add_sub(s, c, Size::Vast)
}

fn mul(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let (a, b) = pair(s, c, size);
    let (x, y) = (operand(s, &a), operand(s, &b));
    let p = Val::V(a.num().mul(b.num()), a.dscale() + b.dscale());
    c.label_if(!p.fits(), "overflows");
    expect_opt("checked_mul", x.num().checked_mul(y.num()), &p)?;
    unchanged("a", &x)?;
    unchanged("b", &y)
}
fn mul_n(s: &mut Src, c: &mut Ctx) -> Check {
    mul(s, c, Size::Medium)
}
fn mul_l(s: &mut Src, c: &mut Ctx) -> Check {
    mul(s, c, Size::Large)
}
fn mul_h(s: &mut Src, c: &mut Ctx) -> Check {
    mul(s, c, Size::Huge)
}
/// A very long factor and a short one.
fn mul_vast(s: &mut Src, c: &mut Ctx) -> Check {
    let (a, b) = (finite(s, Size::Vast), finite(s, Size::Small));
    let (a, b) = if s.flip() { (a, b) } else { (b, a) };
    note(c, "a", &a);
    note(c, "b", &b);
    label_val(c, &a);
    c.nontrivial = !a.is_zero() && !b.is_zero();
    let (x, y) = (operand(s, &a), operand(s, &b));
    let p = Val::V(a.num().mul(b.num()), a.dscale() + b.dscale());
    c.label_if(!p.fits(), "overflows");
    expect_opt("checked_mul", x.num().checked_mul(y.num()), &p)?;
    unchanged("a", &x)?;
    unchanged("b", &y)
}
/// Long operands of nines and near-nines: the accumulator has to normalise part of the way.
fn mul_carry(s: &mut Src, c: &mut Ctx) -> Check {
    let mk = |s: &mut Src, c: &mut Ctx, name: &str| {
        let n = s.range(15, 120) as usize;
        let hi = s.pick(&[9999u16, 9998, 9990, 5000]);
        let mut m = oracle::engine::Mix::new(s.u64());
        let g: Vec<u16> = (0..n).map(|_| if m.next() % 8 < 7 { hi } else { (m.next() % 10000) as u16 }).collect();
        let g = if g[0] == 0 { vec![9999; n] } else { g };
        let num = Num::from_groups(s.flip(), s.around(-30, 120), &g);
        let d = num.min_scale();
        let v = Val::V(num, d);
        note(c, name, &v);
        v
    };
    let (a, b) = (mk(s, c, "a"), mk(s, c, "b"));
    c.nontrivial();
    let (x, y) = (operand(s, &a), operand(s, &b));
    let p = Val::V(a.num().mul(b.num()), a.dscale() + b.dscale());
    expect_opt("checked_mul", x.num().checked_mul(y.num()), &p)
}

// ---------------------------------------------------------------- division

/// Scale of a quotient: at least 16 significant digits, no less than either input's scale.
pub fn div_scale(a: &Val, b: &Val) -> i64 {
    let first = |v: &Val| {
        let (w, g) = v.num().groups();
        if g.is_empty() {
            (0, 0)
        } else {
            (w, g[0])
        }
    };
    let ((w1, f1), (w2, f2)) = (first(a), first(b));
    let mut q = w1 - w2;
    if f1 <= f2 {
        q -= 1;
    }
    (16 - q * 4).max(a.dscale()).max(b.dscale()).clamp(0, 1000)
}

fn check_div(s: &mut Src, c: &mut Ctx, a: &Val, b: &Val) -> Check {
    let (x, y) = (operand(s, a), operand(s, b));
    if b.is_zero() {
        c.label("by zero");
        expect_none("checked_div by zero", x.num().checked_div(y.num()))?;
        return expect_none("checked_div_trunc by zero", x.num().checked_div_trunc(y.num()));
    }
    let sc = div_scale(a, b);
    let q = Val::V(a.num().div(b.num(), sc, Rnd::HalfUp), sc);
    let t = Val::V(a.num().div(b.num(), 0, Rnd::Trunc), 0);
    c.label_if(!q.fits(), "overflows");
    c.label_if(!a.is_zero() && q.num().mul(b.num()) == *a.num(), "exact");
    expect_opt("checked_div", x.num().checked_div(y.num()), &q)?;
    expect_opt("checked_div_trunc", x.num().checked_div_trunc(y.num()), &t)?;
    unchanged("a", &x)?;
    unchanged("b", &y)
}

fn div(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let (a, b) = pair(s, c, size);
    check_div(s, c, &a, &b)
}
fn div_n(s: &mut Src, c: &mut Ctx) -> Check {
    div(s, c, Size::Medium)
}
fn div_l(s: &mut Src, c: &mut Ctx) -> Check {
    div(s, c, Size::Large)
}
/// A dividend made as quotient * divisor + small: exact quotients, ties, quotients just off a tie.
fn div_made(s: &mut Src, c: &mut Ctx) -> Check {
    let b = match finite(s, Size::Small) {
        v if v.is_zero() => Val::V(Num::int(3), 0),
        v => v,
    };
    let q = finite(s, Size::Small);
    let mut n = q.num().mul(b.num());
    match s.upto(3) {
        1 => {
            // half a unit of the result scale away
            let sc = div_scale(&Val::V(n.clone(), n.min_scale()), &b);
            n = n.add(&b.num().mul(&Num::int(5)).shift10(-sc - 1));
        }
        2 => n = n.add(&Num::pow10(-n.min_scale() - s.range(0, 20))),
        3 => n = n.sub(&Num::pow10(-n.min_scale() - s.range(0, 20))),
        _ => {}
    }
    let m = n.min_scale();
    let a = Val::V(n, m.min(MAX_DSCALE));
    if m > MAX_DSCALE || !a.fits() {
        c.skipped = true;
        return Ok(());
    }
    note(c, "a", &a);
    note(c, "b", &b);
    c.nontrivial = !a.is_zero();
    check_div(s, c, &a, &b)
}
/// Divisors and dividends whose leading digits make the trial quotient digit too large.
fn div_knuth(s: &mut Src, c: &mut Ctx) -> Check {
    const HARD: &[u16] = &[0, 1, 2, 4999, 5000, 5001, 9998, 9999];
    let gs = |s: &mut Src, lo: i64, hi: i64| -> Vec<u16> {
        let n = s.range(lo, hi);
        let mut g: Vec<u16> = (0..n).map(|_| if s.chance(1, 4) { s.upto(9999) as u16 } else { s.pick(HARD) }).collect();
        if g[0] == 0 {
            g[0] = s.pick(&[1, 4999, 5000, 9999]);
        }
        g
    };
    let gb = gs(s, 2, 5);
    let ga = if s.flip() {
        // the dividend starts as the divisor does
        let mut g = gb.clone();
        let k = s.upto(g.len() as u64 - 1) as usize;
        g.truncate(k.max(1));
        g.extend(gs(s, 1, 6));
        g
    } else {
        gs(s, 2, 9)
    };
    let b = Num::from_groups(s.flip(), s.around(-3, 3), &gb);
    let a = Num::from_groups(s.flip(), s.around(-3, 6), &ga);
    let (a, b) = (Val::V(a.clone(), a.min_scale()), Val::V(b.clone(), b.min_scale()));
    note(c, "a", &a);
    note(c, "b", &b);
    c.nontrivial();
    check_div(s, c, &a, &b)?;
    check_rem(s, c, &a, &b)
}

fn check_rem(s: &mut Src, c: &mut Ctx, a: &Val, b: &Val) -> Check {
    let (x, y) = (operand(s, a), operand(s, b));
    if b.is_zero() {
        c.label("by zero");
        return expect_none("checked_rem by zero", x.num().checked_rem(y.num()));
    }
    let d = a.dscale().max(b.dscale());
    let r = Val::V(a.num().rem(b.num()), d);
    c.label_if(r.is_zero() && !a.is_zero(), "divides evenly");
    let got = x.num().checked_rem(y.num());
    expect_opt("checked_rem", got, &r)?;
    unchanged("a", &x)?;
    // a = trunc(a / b) * b + a % b, in the library's own terms
    if let (Some(q), Some(r)) = (x.num().checked_div_trunc(y.num()), x.num().checked_rem(y.num())) {
        if let Some(p) = q.checked_mul(y.num()) {
            if let Some(back) = p.checked_add(&r) {
                ensure(back == *x.num(), || format!("trunc(a/b)*b + a%b = {}, not a", back))?;
                c.label("identity checked");
            }
        }
        ensure(r.abs() < y.num().abs(), || format!("|a % b| = {} is not below |b|", r))?;
    }
    Ok(())
}
fn rem(s: &mut Src, c: &mut Ctx) -> Check {
    let (a, b) = pair(s, c, Size::Medium);
    check_rem(s, c, &a, &b)
}
fn rem_made(s: &mut Src, c: &mut Ctx) -> Check {
    let b = match finite(s, Size::Small) {
        v if v.is_zero() => Val::V(Num::int(3), 0),
        v => v,
    };
    let q = finite(s, Size::Small).num().round(0, Rnd::Trunc);
    let mut n = q.mul(b.num());
    if s.flip() {
        let t = Num::pow10(-b.dscale() - s.range(0, 3));
        n = if s.flip() { n.add(&t) } else { n.sub(&t) };
    }
    let a = Val::V(n.clone(), n.min_scale());
    note(c, "a", &a);
    note(c, "b", &b);
    c.nontrivial = !a.is_zero();
    check_rem(s, c, &a, &b)
}
fn rem_l(s: &mut Src, c: &mut Ctx) -> Check {
    let (a, b) = pair(s, c, Size::Large);
    check_rem(s, c, &a, &b)
}

/// Operands near the limits of the format, close enough to each other (mostly) for a short quotient.
fn edge_pair(s: &mut Src, c: &mut Ctx) -> (Val, Val) {
    let base = match s.upto(5) {
        0 => s.range(131_040, 131_071),
        1 => -s.range(16_340, 16_383),
        2 => s.pick(&[65_536, 65_535, 32_768, 32_767, 4096, 1000, 255, 256]) + s.around(-4, 4),
        3 => -s.pick(&[16_300, 8_192, 4_096, 1_000, 999, 255, 256]) + s.around(-4, 4),
        4 => -s.range(990, 1_010),
        _ => s.around(-300, 300),
    };
    let one = |s: &mut Src, far: bool| -> Val {
        let n = s.range(1, 7) as usize;
        let g = groups(s, n);
        let e = if far { s.around(-20, 20) } else { base + s.around(-40, 40) };
        let m = Num::from_groups(s.flip(), 0, &g);
        let v = m.shift10(e - m.adj().unwrap_or(0));
        let v = if v.min_scale() > MAX_DSCALE { v.round(MAX_DSCALE, Rnd::HalfUp) } else { v };
        let lo = v.min_scale();
        let d = match s.upto(4) {
            0 => s.pick(&[1000, 999, 1001, 16_383, 16_382]),
            1 => lo + s.range(0, 9),
            _ => lo,
        };
        let v = Val::V(v, d.max(lo).min(MAX_DSCALE));
        if v.fits() { v } else { Val::V(Num::int(7), 0) }
    };
    let a = one(s, false);
    let far = s.chance(1, 12);
    let b = one(s, far);
    let (a, b) = if far && s.flip() { (b, a) } else { (a, b) };
    note(c, "a", &a);
    note(c, "b", &b);
    c.nontrivial = !a.is_zero() && !b.is_zero();
    (a, b)
}
fn div_edge(s: &mut Src, c: &mut Ctx) -> Check {
    let (a, b) = edge_pair(s, c);
    check_div(s, c, &a, &b)
}
fn rem_edge(s: &mut Src, c: &mut Ctx) -> Check {
    let (a, b) = edge_pair(s, c);
    check_rem(s, c, &a, &b)
}

// ---------------------------------------------------------------- rounding

fn rounding(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let mut v = finite(s, size);
    // ties and their neighbours at a chosen scale
    let mut tie_at = None;
    if s.chance(2, 5) {
        let k = s.around(-30, 40);
        let n = v.num().round(k, Rnd::Trunc);
        let half = Num::new(n.neg, Big::from_u128(5), -k - 1);
        let t = n.add(&half);
        let t = match s.upto(2) {
            0 => t,
            1 => t.add(&Num::pow10(-(k + 1 + s.range(1, 12)))),
            _ => t.sub(&Num::pow10(-(k + 1 + s.range(1, 12)))),
        };
        let w = Val::V(t.clone(), t.min_scale());
        if w.fits() {
            v = w;
            tie_at = Some(k);
        }
    }
    let k = match (tie_at, s.upto(4)) {
        (Some(k), 0 | 1 | 2) => k,
        (_, 3) => s.pick(&[0, 1, -1, 1000, -1000, 1001, -1001, i32::MAX as i64, i32::MIN as i64, 999, -999, 131072, -131072]),
        (_, 4) => {
            let a = v.num().adj().unwrap_or(0);
            (-a + s.around(-3, 3)).clamp(-140_000, 140_000)
        }
        _ => s.around(-12, 12),
    } as i32;
    note(c, "value", &v);
    c.input("scale", &|| k.to_string(), k as i64 as u64);
    label_val(c, &v);
    let n = v.num();
    let rs = k.clamp(-1000, 1000) as i64;
    c.nontrivial = n.min_scale() > rs || (rs < 0 && !n.is_zero());
    c.label_if(tie_at == Some(rs), "at or next to a tie");
    let d = rs.max(0);
    let wr = Val::V(n.round(rs, Rnd::HalfUp), d);
    let wt = Val::V(n.round(rs, Rnd::Trunc), d);
    let wc = Val::V(n.round(0, Rnd::Ceil), 0);
    let wf = Val::V(n.round(0, Rnd::Floor), 0);
    c.label_if(wr.num().adj() > n.adj(), "carries into a new digit");
    c.label_if(!wr.fits(), "overflows");
    let o = operand(s, &v);
    expect_or_overflow("round", guarded(|| o.num().round(k)), &wr)?;
    expect("trunc", &o.num().trunc(k), &wt)?;
    expect_or_overflow("ceil", guarded(|| o.num().ceil()), &wc)?;
    expect_or_overflow("floor", guarded(|| o.num().floor()), &wf)?;
    unchanged("value", &o)?;
    if wr.fits() {
        let mut b = build(s, &v);
        b.round_mut(k);
        expect("round_mut", &b, &wr)?;
    }
    let mut b = build(s, &v);
    b.trunc_mut(k);
    expect("trunc_mut", &b, &wt)
}
fn rounding_n(s: &mut Src, c: &mut Ctx) -> Check {
    rounding(s, c, Size::Large)
}
fn rounding_h(s: &mut Src, c: &mut Ctx) -> Check {
    rounding(s, c, Size::Huge)
}
fn rounding_vast(s: &mut Src, c: &mut Ctx) -> Check {
    rounding(s, c, Size::Vast)
}

// ---------------------------------------------------------------- unary

fn unary(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let v = finite(s, size);
    note(c, "value", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero();
    let (n, d) = (v.num().clone(), v.dscale());
    let o = operand(s, &v);
    let x = o.num();
    let neg = Val::V(n.neg(), d);
    let abs = Val::V(n.abs(), d);
    let sig = Val::int(if n.is_zero() { 0 } else if n.neg { -1 } else { 1 });
    let inc = Val::V(n.add(&Num::int(1)), d);
    expect("negate", &x.negate(), &neg)?;
    expect("-&numeric", &(-x), &neg)?;
    let b = build(s, &v);
    expect("-&buf", &(-&b), &neg)?;
    expect("abs", &x.abs(), &abs)?;
    expect("signum", &x.signum(), &sig)?;
    expect_or_overflow("inc", guarded(|| x.inc()), &inc)?;
    unchanged("value", &o)?;
    expect("-buf", &(-b), &neg)?;
    let mut m = build(s, &v);
    m.negate_mut();
    expect("negate_mut", &m, &neg)?;
    m.negate_mut();
    expect("negate_mut twice", &m, &v)?;
    m.abs_mut();
    expect("abs_mut", &m, &abs)?;
    m.abs_mut();
    expect("abs_mut twice", &m, &abs)?;
    let b = build(s, &v);
    for (w, z) in [("borrowed", x), ("owned", b.as_numeric())] {
        ensure(z.scale() == Some(d as i32), || format!("{} scale() = {:?}, want {}", w, z.scale(), d))?;
        ensure(!z.is_nan(), || format!("{} is_nan() of a number", w))?;
        ensure(z.is_negative() == n.neg, || format!("{} is_negative() = {}", w, z.is_negative()))?;
        ensure(z.is_positive() != n.neg, || format!("{} is_positive() = {}", w, z.is_positive()))?;
    }
    Ok(())
}
fn unary_n(s: &mut Src, c: &mut Ctx) -> Check {
    unary(s, c, Size::Large)
}
fn unary_h(s: &mut Src, c: &mut Ctx) -> Check {
    unary(s, c, Size::Huge)
}
fn unary_vast(s: &mut Src, c: &mut Ctx) -> Check {
    unary(s, c, Size::Vast)
}

// ---------------------------------------------------------------- the limits of the format

/// Values around the largest magnitude and the largest scale.
fn edge(s: &mut Src) -> Val {
    let neg = s.flip();
    let v = match s.upto(7) {
        // 10^k - 1 with k at the limit: 131072 nines
        0 => {
            let n = s.pick(&[32768usize, 32767]);
            Num::from_groups(neg, n as i64 - 1, &vec![9999; n])
        }
        1 => {
            let n = s.range(1, 4) as usize;
            let g = groups(s, n);
            Num::from_groups(neg, s.range(32765, 32767), &g)
        }
        2 => Num::new(neg, Big::from_u128(s.pick(&[1, 9, 5, 99, 95, 10, 4])), s.range(131066, 131071)),
        3 => Num::new(neg, Big::from_u128(s.pick(&[1, 9, 5, 99, 2])), -s.range(16380, 16383)),
        4 => Num::new(neg, Big::from_u128(s.pick(&[1, 9, 5, 99, 2])), s.range(65530, 65540)),
        5 => Num::new(neg, Big::from_u128(s.pick(&[1, 9, 5, 99, 2])), -s.range(8189, 8195)),
        // everything at once: top weight and a fraction
        6 => {
            let top = Num::new(neg, Big::from_u128(9), s.range(131068, 131071));
            top.add(&Num::new(neg, Big::from_u128(s.pick(&[5, 1, 9, 4])), -s.range(1, 4)))
        }
        _ => finite(s, Size::Small).num().clone(),
    };
    let m = v.min_scale();
    let d = match s.upto(2) {
        0 => m,
        1 => s.pick(&[16383, 16382, 8192, 8191]),
        _ => m + s.range(0, 4),
    };
    let v = Val::V(v, d.max(m).min(MAX_DSCALE));
    if v.fits() {
        v
    } else {
        Val::V(Num::new(neg, Big::one(), 131071), 0)
    }
}

fn boundary(s: &mut Src, c: &mut Ctx) -> Check {
    let a = edge(s);
    let b = if s.flip() { edge(s) } else { finite(s, Size::Small) };
    note(c, "a", &a);
    note(c, "b", &b);
    let (x, y) = (operand(s, &a), operand(s, &b));
    let (an, bn) = (a.num(), b.num());
    let d = a.dscale().max(b.dscale());
    let mut over = 0;
    let mut o = |v: &Val| over += !v.fits() as i32;
    let op = s.upto(8);
    c.input("op", &|| op.to_string(), op);
    c.nontrivial();
    match op {
        0 => {
            let w = Val::V(an.add(bn), d);
            o(&w);
            expect_opt("checked_add", x.num().checked_add(y.num()), &w)?;
        }
        1 => {
            let w = Val::V(an.sub(bn), d);
            o(&w);
            expect_opt("checked_sub", x.num().checked_sub(y.num()), &w)?;
        }
        2 => {
            // keep the schoolbook product affordable
            if an.mag.ndec().min(bn.mag.ndec()) > 30_000 {
                c.skipped = true;
                return Ok(());
            }
            let w = Val::V(an.mul(bn), a.dscale() + b.dscale());
            o(&w);
            expect_opt("checked_mul", x.num().checked_mul(y.num()), &w)?;
        }
        3 => {
            if bn.mag.ndec() > 400 {
                c.skipped = true;
                return Ok(());
            }
            if b.is_zero() {
                expect_none("checked_div by zero", x.num().checked_div(y.num()))?;
            } else {
                let sc = div_scale(&a, &b);
                let w = Val::V(an.div(bn, sc, Rnd::HalfUp), sc);
                o(&w);
                expect_opt("checked_div", x.num().checked_div(y.num()), &w)?;
                let w = Val::V(an.div(bn, 0, Rnd::Trunc), 0);
                o(&w);
                expect_opt("checked_div_trunc", x.num().checked_div_trunc(y.num()), &w)?;
            }
        }
        4 => {
            let w = Val::V(an.add(&Num::int(1)), a.dscale());
            o(&w);
            expect_or_overflow("inc", guarded(|| x.num().inc()), &w)?;
        }
        5 => {
            let w = Val::V(an.round(0, Rnd::Ceil), 0);
            o(&w);
            expect_or_overflow("ceil", guarded(|| x.num().ceil()), &w)?;
            let w = Val::V(an.round(0, Rnd::Floor), 0);
            o(&w);
            expect_or_overflow("floor", guarded(|| x.num().floor()), &w)?;
        }
        6 => {
            let k = s.pick(&[0, -1, -2, -3, -4, 1, 2, 3, -999, -1000, 1000]);
            let w = Val::V(an.round(k, Rnd::HalfUp), k.max(0));
            o(&w);
            expect_or_overflow("round", guarded(|| x.num().round(k as i32)), &w)?;
            let w = Val::V(an.round(k, Rnd::Trunc), k.max(0));
            expect("trunc", &x.num().trunc(k as i32), &w)?;
        }
        7 => {
            if bn.mag.ndec() > 400 || b.is_zero() {
                c.skipped = true;
                return Ok(());
            }
            let w = Val::V(an.rem(bn), d);
            expect_opt("checked_rem", x.num().checked_rem(y.num()), &w)?;
        }
        _ => {
            // text at the limit, both ways
            let t = a.text();
            let got: Result<NumericBuf, _> = t.parse();
            match got {
                Ok(g) => expect("parse", &g, &a)?,
                Err(e) => return Err(format!("parse of a representable value: {}", e)),
            }
            let up = format!("{}{}", t, if a.dscale() > 0 { "0" } else { "9" });
            let want = if a.dscale() > 0 {
                Val::V(an.clone(), a.dscale() + 1)
            } else {
                let nine = Num::int(if an.neg { -9 } else { 9 });
                Val::V(an.shift10(1).add(&nine), 0)
            };
            o(&want);
            match up.parse::<NumericBuf>() {
                Ok(g) if want.fits() => expect("parse one digit more", &g, &want)?,
                Err(_) if !want.fits() => {}
                Ok(_) => return Err("parse: a value one digit past the limit was accepted".into()),
                Err(e) => return Err(format!("parse of a representable value: {}", e)),
            }
        }
    }
    c.label_if(over > 0, "overflows");
    c.label_if(over == 0, "fits");
    unchanged("a", &x)?;
    unchanged("b", &y)
}

#[allow(dead_code)]
fn _types(_: &Numeric) {}

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "C03",
        rule: "neither operand is zero",
        groups: &[
            Group { name: "add-sub", quick: 150_000, thorough: 4_000_000, f: add_sub_n },
            Group { name: "add-sub-huge", quick: 3_000, thorough: 60_000, f: add_sub_h },
            Group { name: "add-sub-vast", quick: 600, thorough: 15_000, f: add_sub_vast },
        ],
    },
    &Prop {
        id: "C04",
        rule: "neither factor is zero",
        groups: &[
            Group { name: "mul", quick: 120_000, thorough: 3_000_000, f: mul_n },
            Group { name: "mul-long", quick: 6_000, thorough: 150_000, f: mul_l },
            Group { name: "mul-carry", quick: 15_000, thorough: 300_000, f: mul_carry },
            Group { name: "mul-huge", quick: 1_000, thorough: 20_000, f: mul_h },
            Group { name: "mul-vast", quick: 600, thorough: 15_000, f: mul_vast },
        ],
    },
    &Prop {
        id: "C05",
        rule: "neither operand is zero",
        groups: &[
            Group { name: "div", quick: 60_000, thorough: 1_500_000, f: div_n },
            Group { name: "div-made", quick: 80_000, thorough: 2_000_000, f: div_made },
            Group { name: "div-knuth", quick: 120_000, thorough: 3_000_000, f: div_knuth },
            Group { name: "div-long", quick: 1_500, thorough: 30_000, f: div_l },
            Group { name: "div-edge", quick: 4_000, thorough: 80_000, f: div_edge },
        ],
    },
    &Prop {
        id: "C06",
        rule: "neither operand is zero",
        groups: &[
            Group { name: "rem", quick: 60_000, thorough: 1_500_000, f: rem },
            Group { name: "rem-made", quick: 80_000, thorough: 2_000_000, f: rem_made },
            Group { name: "div-knuth", quick: 60_000, thorough: 1_500_000, f: div_knuth },
            Group { name: "rem-long", quick: 1_500, thorough: 30_000, f: rem_l },
            Group { name: "rem-edge", quick: 4_000, thorough: 80_000, f: rem_edge },
        ],
    },
    &Prop {
        id: "C07",
        rule: "the rounding has digits to drop",
        groups: &[
            Group { name: "rounding", quick: 150_000, thorough: 4_000_000, f: rounding_n },
            Group { name: "rounding-huge", quick: 3_000, thorough: 60_000, f: rounding_h },
            Group { name: "rounding-vast", quick: 600, thorough: 15_000, f: rounding_vast },
        ],
    },
    &Prop {
        id: "C25",
        rule: "the value is not zero",
        groups: &[
            Group { name: "unary", quick: 100_000, thorough: 2_500_000, f: unary_n },
            Group { name: "unary-huge", quick: 2_000, thorough: 40_000, f: unary_h },
            Group { name: "unary-vast", quick: 600, thorough: 15_000, f: unary_vast },
        ],
    },
    &Prop {
        id: "C27",
        rule: "every case has an operand at a limit of the format",
        groups: &[
            Group { name: "boundary", quick: 6_000, thorough: 150_000, f: boundary },
            Group { name: "powers", quick: 300, thorough: 6_000, f: crate::p_func::pow_of_ten_top },
        ],
    },
];
