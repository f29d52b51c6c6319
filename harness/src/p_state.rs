//! Histories of in-place operations, failures, memory, threads, builds.

use crate::common::*;
use crate::p_arith::div_scale;
use oracle::engine::{guarded, hash64, Check, Ctx, Group, Panic, Prop, Src};
use oracle::guard;
use oracle::layout::{encode, Aligned, Form};
use oracle::num::{Num, Rnd, Val, MAX_DSCALE};
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::borrow::Cow;
use std::convert::TryFrom;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

// ---------------------------------------------------------------- histories against a model

struct Machine {
    v: Vec<NumericBuf>,
    m: Vec<Val>,
    limit: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

/// What a binary operation means: None for a division by zero.
fn model_bin(op: Bin, a: &Val, b: &Val) -> Option<Val> {
    if a.is_nan() || b.is_nan() {
        return Some(Val::NaN);
    }
    let d = a.dscale().max(b.dscale());
    Some(match op {
        Bin::Add => Val::V(a.num().add(b.num()), d),
        Bin::Sub => Val::V(a.num().sub(b.num()), d),
        Bin::Mul => Val::V(a.num().mul(b.num()), a.dscale() + b.dscale()),
        Bin::Div => {
            if b.is_zero() {
                return None;
            }
            let sc = div_scale(a, b);
            Val::V(a.num().div(b.num(), sc, Rnd::HalfUp), sc)
        }
        Bin::Rem => {
            if b.is_zero() {
                return None;
            }
            Val::V(a.num().rem(b.num()), d)
        }
    })
}

fn size_of(v: &Val) -> usize {
    match v {
        Val::NaN => 0,
        Val::V(n, _) => {
            let top = n.adj().unwrap_or(0);
            let low = n.min_scale().max(0);
            n.mag.ndec().max((top + low).max(0) as usize)
        }
    }
}

/// How many decimal digits an operation on these would work through.
fn cost(op: Bin, a: &Val, b: &Val) -> usize {
    if a.is_nan() || b.is_nan() {
        return 0;
    }
    let (x, y) = (a.num().mag.ndec(), b.num().mag.ndec());
    match op {
        Bin::Add | Bin::Sub => 0,
        Bin::Mul => x * y,
        _ => {
            let span = (a.num().adj().unwrap_or(0) - b.num().adj().unwrap_or(0)).max(0) as usize;
            (span + a.dscale() as usize + b.dscale() as usize + 40) * y
        }
    }
}

impl Machine {
    fn check_all(&self, what: &str) -> Check {
        for i in 0..self.v.len() {
            expect(&format!("register {} after {}", i, what), &self.v[i], &self.m[i])?;
        }
        Ok(())
    }

    fn assign(&mut self, op: Bin, how: u64, i: usize, j: usize) -> Check {
        let want = model_bin(op, &self.m[i], &self.m[j]);
        let what = format!("{:?} assign", op);
        // the right hand side is the register itself, as it lies in memory
        let keep = self.v[j].clone();
        let rhs = if i == j { keep.clone() } else { std::mem::replace(&mut self.v[j], keep) };
        let t = &mut self.v[i];
        let r = guarded(|| match (op, how) {
            (Bin::Add, 0) => *t += &rhs,
            (Bin::Add, 1) => *t += rhs.as_numeric(),
            (Bin::Add, _) => *t += rhs,
            (Bin::Sub, 0) => *t -= &rhs,
            (Bin::Sub, 1) => *t -= rhs.as_numeric(),
            (Bin::Sub, _) => *t -= rhs,
            (Bin::Mul, 0) => *t *= &rhs,
            (Bin::Mul, 1) => *t *= rhs.as_numeric(),
            (Bin::Mul, _) => *t *= rhs,
            (Bin::Div, 0) => *t /= &rhs,
            (Bin::Div, 1) => *t /= rhs.as_numeric(),
            (Bin::Div, _) => *t /= rhs,
            (Bin::Rem, 0) => *t %= &rhs,
            (Bin::Rem, 1) => *t %= rhs.as_numeric(),
            (Bin::Rem, _) => *t %= rhs,
        });
        match want {
            Some(w) if w.fits() => {
                no_panic(&what, r)?;
                self.m[i] = w;
                Ok(())
            }
            Some(_) => expect_panic(&what, r, OVERFLOW),
            None => expect_panic(&what, r, DIV_ZERO),
        }
    }

    fn pure(&mut self, op: Bin, i: usize, j: usize, k: usize) -> Check {
        let want = model_bin(op, &self.m[i], &self.m[j]);
        let (a, b) = (self.v[i].as_numeric(), self.v[j].as_numeric());
        let got = match op {
            Bin::Add => a.checked_add(b),
            Bin::Sub => a.checked_sub(b),
            Bin::Mul => a.checked_mul(b),
            Bin::Div => a.checked_div(b),
            Bin::Rem => a.checked_rem(b),
        };
        match (got, want) {
            (Some(g), Some(w)) if w.fits() => {
                self.v[k] = g;
                self.m[k] = w;
                Ok(())
            }
            (None, None) => Ok(()),
            (None, Some(w)) if !w.fits() => Ok(()),
            (g, w) => Err(format!("{:?}: got {:?}, want {:?}", op, g.map(|g| g.to_string()), w.map(|w| w.show()))),
        }
    }

    /// A rounding of `n` to scale `k` as the library clamps it.
    fn rounded(v: &Val, k: i64, how: Rnd) -> Val {
        match v {
            Val::NaN => Val::NaN,
            Val::V(n, _) => {
                let rs = k.clamp(-1000, 1000);
                Val::V(n.round(rs, how), rs.max(0))
            }
        }
    }

    fn step(&mut self, s: &mut Src, c: &mut Ctx, max: Size) -> Check {
        let n = self.v.len() as u64 - 1;
        let (i, j) = (s.upto(n) as usize, s.upto(n) as usize);
        let k = s.weighted(&[8, 3, 3, 3, 5, 4, 3, 4, 2, 4, 2, 2, 2, 2, 4, 3, 2, 1, 2, 3]);
        let bin = |s: &mut Src| s.pick(&[Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Rem]);
        let line = |c: &mut Ctx, t: String| c.text("step", &t);
        match k {
            0 => {
                let (op, how) = (bin(s), s.upto(2));
                if cost(op, &self.m[i], &self.m[j]) > self.limit * self.limit {
                    return Ok(());
                }
                line(c, format!("v{} {:?}= v{} (form {})", i, op, j, how));
                self.assign(op, how, i, j)?;
            }
            1 => {
                line(c, format!("v{}.negate_mut()", i));
                self.v[i].negate_mut();
                if let Val::V(n, d) = &self.m[i] {
                    self.m[i] = Val::V(n.neg(), *d);
                }
            }
            2 => {
                line(c, format!("v{}.abs_mut()", i));
                self.v[i].abs_mut();
                if let Val::V(n, d) = &self.m[i] {
                    self.m[i] = Val::V(n.abs(), *d);
                }
            }
            3 => {
                let k = s.around(-8, 30);
                line(c, format!("v{}.trunc_mut({})", i, k));
                self.v[i].trunc_mut(k as i32);
                self.m[i] = Self::rounded(&self.m[i], k, Rnd::Trunc);
            }
            4 => {
                let k = match (s.upto(2), &self.m[i]) {
                    // close to the first digit, where a carry adds one
                    (1, Val::V(n, _)) => (-n.adj().unwrap_or(0) + s.around(-2, 3)).clamp(-900, 900),
                    _ => s.around(-8, 30),
                };
                line(c, format!("v{}.round_mut({})", i, k));
                let w = Self::rounded(&self.m[i], k, Rnd::HalfUp);
                let t = &mut self.v[i];
                let r = guarded(|| t.round_mut(k as i32));
                if w.fits() {
                    no_panic("round_mut", r)?;
                    self.m[i] = w;
                } else {
                    c.label("round_mut overflows");
                    expect_panic("round_mut", r, OVERFLOW)?;
                }
            }
            5 => {
                let p = s.range(1, 60);
                let q = s.range(0, p);
                line(c, format!("v{}.apply_typmod({}, {})", i, p, q));
                let t = Typmod::new(p as i32, q as i32).unwrap();
                let over = self.v[i].apply_typmod(t);
                if let Val::V(n, _) = &self.m[i] {
                    let w = Val::V(n.round(q, Rnd::HalfUp), q);
                    let o = !w.is_zero() && w.num().cmp_abs(&Num::pow10(p - q)) != std::cmp::Ordering::Less;
                    ensure(over == o, || format!("apply_typmod returned {}, want {}", over, o))?;
                    if w.fits() {
                        self.m[i] = w;
                    }
                } else {
                    ensure(!over, || "NaN overflows a modifier".into())?;
                }
            }
            6 => {
                line(c, format!("v{} = v{}.clone()", i, j));
                self.v[i] = self.v[j].clone();
                self.m[i] = self.m[j].clone();
            }
            7 => {
                let v = if s.chance(1, 12) { Val::NaN } else { finite(s, max) };
                line(c, format!("v{} = {}", i, v.show()));
                self.v[i] = build(s, &v);
                self.m[i] = v;
            }
            8 => {
                line(c, format!("swap v{} v{}", i, j));
                self.v.swap(i, j);
                self.m.swap(i, j);
            }
            9 => {
                let op = bin(s);
                if cost(op, &self.m[i], &self.m[j]) > self.limit * self.limit {
                    return Ok(());
                }
                let k = s.upto(n) as usize;
                line(c, format!("v{} = v{}.checked {:?} v{}", k, i, op, j));
                self.pure(op, i, j, k)?;
            }
            10 => {
                line(c, format!("v{} = v{} through text", i, j));
                let t = self.v[j].to_string();
                self.v[i] = t.parse().map_err(|e| format!("its own text does not parse: {}", e))?;
                self.m[i] = self.m[j].clone();
            }
            11 => {
                line(c, format!("v{} = v{} through bincode", i, j));
                let b = bincode::serialize(&self.v[j]).map_err(|e| e.to_string())?;
                self.v[i] = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                self.m[i] = self.m[j].clone();
            }
            12 => {
                line(c, format!("v{} = -v{}", i, i));
                let t = std::mem::replace(&mut self.v[i], NumericBuf::zero());
                self.v[i] = -t;
                if let Val::V(n, d) = &self.m[i] {
                    self.m[i] = Val::V(n.neg(), *d);
                }
            }
            13 => {
                line(c, format!("v{} = borrowed bytes of v{}", i, j));
                let a = Aligned::new(self.v[j].as_bytes(), s.pick(&[0, 2, 4, 6]));
                self.v[i] = unsafe { Numeric::from_bytes_unchecked(a.bytes()) }.to_owned();
                self.m[i] = self.m[j].clone();
            }
            14 => {
                let how = s.upto(5);
                line(c, format!("v{} = unary {} of v{}", i, how, j));
                let x = self.v[j].as_numeric();
                let m = &self.m[j];
                let (got, want): (Result<NumericBuf, Panic>, Val) = match (how, m) {
                    (0, Val::V(n, d)) => (guarded(|| x.abs()), Val::V(n.abs(), *d)),
                    (1, Val::V(n, d)) => (guarded(|| x.negate()), Val::V(n.neg(), *d)),
                    (2, Val::V(n, d)) => (guarded(|| x.inc()), Val::V(n.add(&Num::int(1)), *d)),
                    (3, _) => (guarded(|| x.ceil()), Self::rounded(m, 0, Rnd::Ceil)),
                    (4, _) => (guarded(|| x.floor()), Self::rounded(m, 0, Rnd::Floor)),
                    (5, Val::V(n, _)) => (
                        guarded(|| x.signum()),
                        Val::int(if n.is_zero() { 0 } else if n.neg { -1 } else { 1 }),
                    ),
                    _ => (guarded(|| x.negate()), Val::NaN),
                };
                if want.fits() {
                    self.v[i] = no_panic("a unary operation", got)?;
                    self.m[i] = want;
                } else {
                    expect_panic("a unary operation", got, OVERFLOW)?;
                }
            }
            15 => {
                let k = s.around(-8, 30);
                let tr = s.flip();
                line(c, format!("v{} = v{}.{}({})", i, j, if tr { "trunc" } else { "round" }, k));
                let x = self.v[j].as_numeric();
                let got = guarded(|| if tr { x.trunc(k as i32) } else { x.round(k as i32) });
                let want = Self::rounded(&self.m[j], k, if tr { Rnd::Trunc } else { Rnd::HalfUp });
                if want.fits() {
                    self.v[i] = no_panic("rounding", got)?;
                    self.m[i] = want;
                } else {
                    expect_panic("rounding", got, OVERFLOW)?;
                }
            }
            16 => {
                line(c, format!("compare v{} v{}", i, j));
                let w = self.m[i].order(&self.m[j]);
                ensure(self.v[i].cmp(&self.v[j]) == w, || format!("v{} against v{} compares {:?}, want {:?}", i, j, self.v[i].cmp(&self.v[j]), w))?;
            }
            17 => {
                line(c, format!("v{} through Cow", i));
                let t = std::mem::replace(&mut self.v[i], NumericBuf::nan());
                let cow: Cow<Numeric> = Cow::from(t);
                self.v[i] = cow.into_owned();
                let cow: Cow<Numeric> = Cow::from(&self.v[i]);
                let t = cow.into_owned();
                self.v[i] = t;
            }
            // written over, in the room the old value took up
            19 if i != j => {
                let how = s.upto(2);
                line(c, format!("v{} overwritten with v{} (form {})", i, j, how));
                let from = std::mem::replace(&mut self.v[j], NumericBuf::zero());
                let to = &mut self.v[i];
                let r = guarded(|| match how {
                    0 => {
                        to.clone_from(&from);
                        Ok(())
                    }
                    1 => {
                        from.as_numeric().clone_into(to);
                        Ok(())
                    }
                    _ => {
                        let t = serde_json::to_string(&from).map_err(|e| e.to_string())?;
                        let mut d = serde_json::Deserializer::from_str(&t);
                        serde::Deserialize::deserialize_in_place(&mut d, to).map_err(|e| e.to_string())
                    }
                });
                self.v[j] = from;
                no_panic("writing over a value", r)??;
                self.m[i] = self.m[j].clone();
            }
            _ => {
                line(c, format!("v{} read", i));
                let t = self.v[i].to_string();
                let w = self.m[i].text();
                ensure(t == w, || format!("v{} reads {}, want {}", i, &t[..t.len().min(200)], &w[..w.len().min(200)]))?;
            }
        }
        // keep numbers at a size the history can afford
        if size_of(&self.m[i]) > self.limit {
            let v = Val::int(s.around(-5, 5) as i128);
            self.v[i] = build(s, &v);
            self.m[i] = v;
        }
        Ok(())
    }
}

fn history(s: &mut Src, c: &mut Ctx, max: Size, limit: usize, steps: (i64, i64)) -> Check {
    let mut mc = Machine { v: vec![], m: vec![], limit };
    for i in 0..4 {
        let v = any(s, max);
        note(c, ["v0", "v1", "v2", "v3"][i], &v);
        mc.v.push(build(s, &v));
        mc.m.push(v);
    }
    let n = s.range(steps.0, steps.1);
    c.label_if(n >= 15, "15 steps or more");
    c.nontrivial = n >= 5 && mc.m.iter().any(|v| !v.is_nan() && !v.is_zero());
    for step in 0..n {
        mc.step(s, c, max)?;
        mc.check_all(&format!("step {}", step))?;
    }
    Ok(())
}
fn history_n(s: &mut Src, c: &mut Ctx) -> Check {
    history(s, c, Size::Medium, 1500, (1, 40))
}
fn history_long(s: &mut Src, c: &mut Ctx) -> Check {
    history(s, c, Size::Small, 400, (100, 400))
}
fn history_h(s: &mut Src, c: &mut Ctx) -> Check {
    history(s, c, Size::Huge, 140_000, (1, 12))
}
fn history_vast(s: &mut Src, c: &mut Ctx) -> Check {
    history(s, c, Size::Vast, 140_000, (1, 8))
}

const C28: Prop = Prop {
    id: "C28",
    rule: "five steps or more, starting from some number other than zero",
    groups: &[
        Group { name: "history", quick: 40_000, thorough: 1_000_000, f: history_n },
        Group { name: "history-long", quick: 2_000, thorough: 50_000, f: history_long },
        Group { name: "history-huge", quick: 800, thorough: 20_000, f: history_h },
        Group { name: "history-vast", quick: 200, thorough: 5_000, f: history_vast },
    ],
};

// ---------------------------------------------------------------- any operation, as data

/// One call of the public interface, drawn beforehand.
#[derive(Clone, Debug)]
struct Op {
    kind: u64,
    a: usize,
    b: usize,
    k: i64,
    text: String,
}

const PURE: u64 = 40;

fn draw_op(s: &mut Src, regs: usize) -> Op {
    let kind = s.upto(PURE - 1);
    let (a, b) = (s.upto(regs as u64 - 1) as usize, s.upto(regs as u64 - 1) as usize);
    let k = s.around(-40, 40);
    let text = if kind == 33 { crate::p_text::any_text(s) } else { String::new() };
    Op { kind, a, b, k, text }
}

/// Magnitude a transcendental function can be asked for in good time.
fn small_for_functions(n: &Numeric) -> bool {
    n.as_bytes().len() <= 60 && n.scale().map_or(true, |s| s <= 120) && {
        // at most 4 * 63 digits before the point
        match read(n) {
            Ok(Val::V(v, _)) => v.adj().map_or(true, |a| a.abs() <= 200),
            _ => true,
        }
    }
}

fn put(out: &mut Vec<u8>, n: &Numeric) {
    // without the length word, whose byte order a build can choose
    let b = n.as_bytes();
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(&b[4..]);
}
fn put_opt(out: &mut Vec<u8>, n: Option<NumericBuf>) {
    match n {
        Some(n) => put(out, &n),
        None => out.extend_from_slice(b"none"),
    }
}

fn product_ok(a: &Numeric, b: &Numeric) -> bool {
    a.as_bytes().len() * b.as_bytes().len() <= 4_000_000
}
fn quotient_ok(a: &Numeric, b: &Numeric) -> bool {
    let w = |n: &Numeric| match read(n) {
        Ok(Val::V(v, d)) => (v.adj().unwrap_or(0), d),
        _ => (0, 0),
    };
    let ((x, d), (y, e)) = (w(a), w(b));
    ((x - y).max(0) + d + e + 100) as usize * b.as_bytes().len() <= 8_000_000
}

/// Performs one call on shared values and returns everything it showed.
fn exec(op: &Op, r: &[NumericBuf]) -> Vec<u8> {
    let (a, b): (&Numeric, &Numeric) = (&r[op.a], &r[op.b]);
    let mut out = vec![op.kind as u8];
    let k = op.k;
    let res = guarded(|| {
        let o = &mut out;
        match op.kind {
            0 => put_opt(o, a.checked_add(b)),
            1 => put_opt(o, a.checked_sub(b)),
            2 if product_ok(a, b) => put_opt(o, a.checked_mul(b)),
            3 if quotient_ok(a, b) => put_opt(o, a.checked_div(b)),
            4 if quotient_ok(a, b) => put_opt(o, a.checked_rem(b)),
            5 if quotient_ok(a, b) => put_opt(o, a.checked_div_trunc(b)),
            6 => put(o, &a.round(k as i32)),
            7 => put(o, &a.trunc(k as i32)),
            8 => put(o, &a.ceil()),
            9 => put(o, &a.floor()),
            10 => put(o, &a.abs()),
            11 => put(o, &a.negate()),
            12 => put(o, &a.signum()),
            13 => put(o, &a.inc()),
            14 if small_for_functions(a) => put(o, &a.sqrt()),
            15 if small_for_functions(a) => put(o, &a.ln()),
            16 if small_for_functions(a) && small_for_functions(b) => put(o, &a.log(b)),
            17 if small_for_functions(a) => put(o, &a.log2()),
            18 if small_for_functions(a) => put(o, &a.log10()),
            19 if small_for_functions(a) => put_opt(o, a.round(20).exp()),
            20 if small_for_functions(a) && small_for_functions(b) => {
                // now and then an exponent from the ends of the integers
                let ends = [i32::MIN as i64, i32::MAX as i64, i32::MIN as i64 - 1, i32::MAX as i64 + 1, -65536, 65535];
                if k.unsigned_abs() >= 30 && k.unsigned_abs() < 36 {
                    let e = NumericBuf::from(ends[(k.unsigned_abs() - 30) as usize]);
                    // (nothing that has tens of thousands of digits)
                    let near = a.round(3);
                    let (two, small): (NumericBuf, bool) = (NumericBuf::from(2), e.abs() < NumericBuf::from(70_000));
                    let base = if small && near.abs() < two { near } else { a.signum() };
                    put_opt(o, base.pow(&e));
                    return;
                }
                let e = b.round(6);
                let bound: NumericBuf = NumericBuf::from(200);
                if e.abs() < bound {
                    put_opt(o, a.pow(&e))
                }
            }
            21 => o.extend_from_slice(a.normalize().as_bytes()),
            22 => o.extend_from_slice(a.to_string().as_bytes()),
            23 => o.extend_from_slice(format!("{:e}", a).as_bytes()),
            24 => o.extend_from_slice(format!("{:E}", a).as_bytes()),
            25 => {
                o.push((r[op.a] == *b) as u8);
                o.push(r[op.a].cmp(&r[op.b]) as i8 as u8);
                o.push(a.partial_cmp(b).map_or(9, |x| x as i8 as u8));
                o.push((a < b) as u8);
            }
            26 => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                Hash::hash(a, &mut h);
                o.extend_from_slice(&h.finish().to_le_bytes());
            }
            27 => {
                o.extend_from_slice(format!("{:?} {:?} {:?}", i8::try_from(a), i64::try_from(a), u128::try_from(a)).as_bytes());
                o.extend_from_slice(format!("{:?} {:?} {:?}", u16::try_from(a), i128::try_from(a), usize::try_from(a)).as_bytes());
            }
            28 => o.extend_from_slice(format!("{:?} {:?}", f32::try_from(a), f64::try_from(a)).as_bytes()),
            29 => {
                let t = serde_json::to_string(a).unwrap();
                o.extend_from_slice(t.as_bytes());
                put(o, &serde_json::from_str::<NumericBuf>(&t).unwrap());
            }
            30 => {
                let t = bincode::serialize(a).unwrap();
                o.extend_from_slice(&t.len().to_le_bytes());
                put(o, &bincode::deserialize::<NumericBuf>(&t).unwrap());
                let al = Aligned::new(&t, 0);
                put(o, bincode::deserialize::<&Numeric>(al.bytes()).unwrap());
                // damaged
                let mut u = t.clone();
                let at = (k.unsigned_abs() as usize) % u.len();
                u[at] ^= 1 << (k & 7);
                put_opt(o, bincode::deserialize::<NumericBuf>(&u).ok());
            }
            31 => {
                let t = serde_cbor::to_vec(&a).unwrap();
                put(o, &serde_cbor::from_slice::<NumericBuf>(&t).unwrap());
            }
            32 => {
                put(o, &a.to_owned());
                put(o, &r[op.a].clone());
                let c: Cow<Numeric> = Cow::from(&r[op.b]);
                put(o, &c.into_owned());
            }
            33 => match op.text.parse::<NumericBuf>() {
                Ok(n) => put(o, &n),
                Err(e) => o.extend_from_slice(e.to_string().as_bytes()),
            },
            34 => put_opt(o, NumericBuf::factorial(k)),
            35 => {
                let big = (k as i128).wrapping_mul(0x1234_5678_9ABC_DEF0_1357_9BDF);
                put(o, &NumericBuf::from(big));
                put(o, &NumericBuf::from(k as i8));
                put(o, &NumericBuf::from(big as u128));
                // (calls snprintf, which Miri has not)
                if !cfg!(miri) {
                    put_opt(o, NumericBuf::try_from(k as f64 / 7.0).ok());
                    put_opt(o, NumericBuf::try_from(k as f32 * 1e30).ok());
                }
            }
            36 => o.extend_from_slice(format!("{:?} {} {} {}", a.scale(), a.is_nan(), a.is_negative(), a.is_positive()).as_bytes()),
            37 => {
                put(o, &(a + b));
                put(o, &(&r[op.a] - &r[op.b]));
                put(o, &(-&r[op.a]));
                if product_ok(a, b) {
                    put(o, &(a * &r[op.b]));
                }
                if quotient_ok(a, b) {
                    put(o, &(&r[op.a] % b));
                    put(o, &(a / b));
                }
            }
            38 => {
                let p = k.unsigned_abs() as i32 + 1;
                let t = Typmod::new(p, p / 3).unwrap();
                let mut c = r[op.a].clone();
                o.push(c.apply_typmod(t) as u8);
                put(o, &c);
                o.extend_from_slice(t.value().to_string().as_bytes());
            }
            39 => {
                let mut c = r[op.a].clone();
                c.negate_mut();
                c.trunc_mut(k as i32);
                put(o, &c);
                c.round_mut((k / 2) as i32);
                put(o, &c);
                c.abs_mut();
                put(o, &c);
            }
            _ => o.extend_from_slice(b"skipped"),
        }
    });
    if let Err(p) = res {
        out.extend_from_slice(p.msg.as_bytes());
    }
    out
}

fn small_regs(s: &mut Src, c: &mut Ctx, n: usize, max: Size) -> Vec<NumericBuf> {
    const NAMES: [&str; 8] = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"];
    (0..n)
        .map(|i| {
            let v = any(s, max);
            note(c, NAMES[i], &v);
            build(s, &v)
        })
        .collect()
}

// ---------------------------------------------------------------- failures

/// What a call may do: give a result, None, or panic with a given message.
enum May {
    Result,
    NoneOk,
    Panic(&'static str),
}

const LOG_ZERO: &str = "cannot take logarithm of zero";
const LOG_NEG: &str = "cannot take logarithm of a negative number";
const SQRT_NEG: &str = "cannot take square root of a negative number";
const ZERO_POW: &str = "zero raised to a negative power is undefined";
const COMPLEX: &str = "a negative number raised to a non-integer power yields a complex result";

fn log_may(v: &Val) -> Option<&'static str> {
    if v.is_nan() {
        None
    } else if v.is_zero() {
        Some(LOG_ZERO)
    } else if v.is_neg() {
        Some(LOG_NEG)
    } else {
        None
    }
}

/// Operands whose sum, difference, product or quotient comes close to the most digits there can be.
const MAX_DIGITS: i64 = 131_072;

fn at_the_limit(s: &mut Src) -> (Val, Val) {
    let with_adj = |s: &mut Src, adj: i64| {
        let n = s.range(1, 4) as usize;
        let v = Num::from_groups(s.flip(), 0, &groups(s, n));
        let v = v.shift10(adj - v.adj().unwrap_or(0));
        let m = v.min_scale();
        let v = Val::V(v, (m + s.pick(&[0, 0, 0, 1, 8])).min(MAX_DSCALE));
        if v.fits() {
            v
        } else {
            Val::int(9)
        }
    };
    let top = MAX_DIGITS - 1 - s.range(0, 2);
    match s.upto(2) {
        0 => (with_adj(s, top), with_adj(s, MAX_DIGITS - 1)),
        1 => {
            let k = s.range(0, MAX_DIGITS - 1);
            (with_adj(s, top - k), with_adj(s, k))
        }
        _ => {
            let k = s.around(0, 2000);
            (with_adj(s, top - k), with_adj(s, -k))
        }
    }
}

/// Fails exactly where the documentation says so, and leaves everything it was given alone.
fn failing(s: &mut Src, c: &mut Ctx, max: Size) -> Check {
    let special = |s: &mut Src| match s.upto(5) {
        0 => Val::V(Num::zero(), s.range(0, 4)),
        1 => Val::V(Num::int(s.pick(&[1, -1, 2, -2])), s.range(0, 3)),
        2 => Val::V(Num::int(s.pick(&[-5, -15, 5, 15, -1])).shift10(-1), 1),
        _ => any(s, max),
    };
    let (a, b) = if max == Size::Huge && s.chance(1, 3) {
        at_the_limit(s)
    } else {
        (special(s), special(s))
    };
    note(c, "a", &a);
    note(c, "b", &b);
    let (x, y) = (operand(s, &a), operand(s, &b));
    let (p, q) = (x.num(), y.num());
    let nan2 = a.is_nan() || b.is_nan();
    let d = if nan2 { 0 } else { a.dscale().max(b.dscale()) };
    let fit = |v: Val| if v.fits() { May::Result } else { May::Panic(OVERFLOW) };
    let fito = |v: Val| if v.fits() { May::Result } else { May::NoneOk };
    // assignments have the most to lose
    let op = match s.upto(32) {
        25.. => 22,
        op => op,
    };
    c.input("op", &|| op.to_string(), op);
    let k = s.around(-30, 30) as i32;
    c.input("k", &|| k.to_string(), k as u64);
    let fa = small_for_functions(p);
    let fb = small_for_functions(q);
    let (name, may, got): (&str, May, Result<Option<NumericBuf>, Panic>) = match op {
        0 => ("+", if nan2 { May::Result } else { fit(Val::V(a.num().add(b.num()), d)) }, guarded(|| Some(p + q))),
        1 => ("-", if nan2 { May::Result } else { fit(Val::V(a.num().sub(b.num()), d)) }, guarded(|| Some(p - q))),
        2 | 3 if product_ok(p, q) => {
            let w = if nan2 { Val::NaN } else { Val::V(a.num().mul(b.num()), a.dscale() + b.dscale()) };
            if op == 2 {
                ("*", fit(w), guarded(|| Some(p * q)))
            } else {
                ("checked_mul", fito(w), guarded(|| p.checked_mul(q)))
            }
        }
        4..=9 if quotient_ok(p, q) => {
            let z = !nan2 && b.is_zero();
            let w = |sc: i64, how: Rnd| if nan2 || z { Val::NaN } else { Val::V(a.num().div(b.num(), sc, how), sc) };
            let sc = if nan2 || z { 0 } else { div_scale(&a, &b) };
            match op {
                4 => ("/", if z { May::Panic(DIV_ZERO) } else { fit(w(sc, Rnd::HalfUp)) }, guarded(|| Some(p / q))),
                5 => ("%", if z { May::Panic(DIV_ZERO) } else { May::Result }, guarded(|| Some(p % q))),
                6 => ("checked_div", if z { May::NoneOk } else { fito(w(sc, Rnd::HalfUp)) }, guarded(|| p.checked_div(q))),
                7 => ("checked_rem", if z { May::NoneOk } else { May::Result }, guarded(|| p.checked_rem(q))),
                _ => ("checked_div_trunc", if z { May::NoneOk } else { fito(w(0, Rnd::Trunc)) }, guarded(|| p.checked_div_trunc(q))),
            }
        }
        10 if fa => {
            let m = if !a.is_nan() && a.is_neg() { May::Panic(SQRT_NEG) } else { May::Result };
            ("sqrt", m, guarded(|| Some(p.sqrt())))
        }
        11 if fa => ("ln", log_may(&a).map_or(May::Result, May::Panic), guarded(|| Some(p.ln()))),
        12 if fa => ("log2", log_may(&a).map_or(May::Result, May::Panic), guarded(|| Some(p.log2()))),
        13 if fa => ("log10", log_may(&a).map_or(May::Result, May::Panic), guarded(|| Some(p.log10()))),
        14 if fa && fb => {
            let m = if nan2 {
                May::Result
            } else {
                match (log_may(&a), log_may(&b)) {
                    (Some(m), None) => May::Panic(m),
                    (None, Some(m)) => May::Panic(m),
                    // either complaint will do when both are wrong
                    (Some(_), Some(_)) => May::Panic("cannot take logarithm of"),
                    (None, None) => {
                        if *b.num() == Num::int(1) {
                            May::Panic(DIV_ZERO)
                        } else {
                            May::Result
                        }
                    }
                }
            };
            ("log", m, guarded(|| Some(p.log(q))))
        }
        15 if fa && fb && (nan2 || b.num().adj().map_or(true, |x| x < 3)) => {
            let m = if nan2 {
                May::Result
            } else if a.is_zero() && b.is_neg() {
                May::Panic(ZERO_POW)
            } else if a.is_neg() && b.num().min_scale() > 0 {
                May::Panic(COMPLEX)
            } else {
                // whether it overflows is another property's business
                May::NoneOk
            };
            ("pow", m, guarded(|| p.pow(q)))
        }
        16 if fa => ("exp", May::NoneOk, guarded(|| p.exp())),
        17 => ("inc", if a.is_nan() { May::Result } else { fit(Val::V(a.num().add(&Num::int(1)), a.dscale())) }, guarded(|| Some(p.inc()))),
        18 => ("ceil", fit(Machine::rounded(&a, 0, Rnd::Ceil)), guarded(|| Some(p.ceil()))),
        19 => ("floor", fit(Machine::rounded(&a, 0, Rnd::Floor)), guarded(|| Some(p.floor()))),
        20 => ("round", fit(Machine::rounded(&a, k as i64, Rnd::HalfUp)), guarded(|| Some(p.round(k)))),
        21 => {
            let mut t = x.buf();
            let w = Machine::rounded(&a, k as i64, Rnd::HalfUp);
            let f = w.fits();
            let r = guarded(|| t.round_mut(k));
            expect("the value of round_mut", &t, if f { &w } else { &a })?;
            ("round_mut", if f { May::Result } else { May::Panic(OVERFLOW) }, r.map(|_| Some(t)))
        }
        22 => {
            // an assignment that fails leaves the value in place
            let mut t = x.buf();
            let (how, form) = (s.upto(4), s.upto(2));
            let big = product_ok(p, q) && quotient_ok(p, q);
            if !big && how > 1 {
                c.skipped = true;
                return Ok(());
            }
            let rhs = y.buf();
            let r = guarded(|| match (how, form) {
                (0, 0) => t += q,
                (0, 1) => t += &rhs,
                (0, _) => t += rhs.clone(),
                (1, 0) => t -= q,
                (1, 1) => t -= &rhs,
                (1, _) => t -= rhs.clone(),
                (2, 0) => t *= q,
                (2, 1) => t *= &rhs,
                (2, _) => t *= rhs.clone(),
                (3, 0) => t /= q,
                (3, 1) => t /= &rhs,
                (3, _) => t /= rhs.clone(),
                (_, 0) => t %= q,
                (_, 1) => t %= &rhs,
                _ => t %= rhs.clone(),
            });
            c.text("form", ["&Numeric", "&NumericBuf", "NumericBuf"][form as usize]);
            expect("the right hand side of an assignment", &rhs, &b)?;
            c.input("assign", &|| how.to_string(), how);
            let bin = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Rem][how as usize];
            let want = model_bin(bin, &a, &b);
            match (&want, &r) {
                (Some(w), Ok(())) if w.fits() => expect("the value after an assignment", &t, w)?,
                (_, Err(_)) => {
                    c.label("assignment failed");
                    expect("the value after a failed assignment", &t, &a)?;
                    // and it can still be used
                    t.negate_mut();
                    t.negate_mut();
                    expect("the value used after a failed assignment", &t.clone(), &a)?;
                }
                _ => {}
            }
            let m = match want {
                None => May::Panic(DIV_ZERO),
                Some(w) => fit(w),
            };
            ("an assignment", m, r.map(|_| Some(t)))
        }
        23 => {
            let n = s.pick(&[0i64, 1, -1, i64::MIN, i64::MAX, 32178, 40000, 1_000_000, 20, 7]);
            c.input("n", &|| n.to_string(), n as u64);
            let m = if n >= 32178 { May::NoneOk } else { May::Result };
            ("factorial", m, guarded(|| NumericBuf::factorial(n)))
        }
        _ => {
            // calls that never fail
            let r = guarded(|| {
                let _ = (p.to_string(), p.normalize(), format!("{:e} {:E}", p, q));
                let _ = (i64::try_from(p), u8::try_from(q), f64::try_from(p), f32::try_from(q));
                let _ = (p.abs(), p.negate(), p.signum(), p.trunc(k), p.scale(), p.cmp(&q));
                let mut t = p.to_owned();
                t.negate_mut();
                t.abs_mut();
                t.trunc_mut(k);
                let _ = t.apply_typmod(Typmod::new(30, 10).unwrap());
                Some(t)
            });
            ("a call that never fails", May::Result, r)
        }
    };
    c.nontrivial = matches!(may, May::Panic(_)) || matches!(&got, Ok(None)) || matches!(may, May::NoneOk);
    match (&may, &got) {
        (May::Panic(_), _) => c.label("must panic"),
        (_, Ok(None)) => c.label("gave None"),
        _ => c.label("gave a result"),
    }
    match may {
        May::Result => {
            ensure(no_panic(name, got)?.is_some(), || format!("{}: returned None for a representable result", name))?;
        }
        May::NoneOk => {
            no_panic(name, got)?;
        }
        May::Panic(m) => expect_panic(name, got, m)?,
    }
    unchanged("a", &x)?;
    unchanged("b", &y)
}
fn failing_n(s: &mut Src, c: &mut Ctx) -> Check {
    failing(s, c, Size::Medium)
}
fn failing_h(s: &mut Src, c: &mut Ctx) -> Check {
    failing(s, c, Size::Huge)
}
fn failing_vast(s: &mut Src, c: &mut Ctx) -> Check {
    failing(s, c, Size::Vast)
}

const C29: Prop = Prop {
    id: "C29",
    rule: "the call has to fail, or may",
    groups: &[
        Group { name: "failing", quick: 120_000, thorough: 2_500_000, f: failing_n },
        Group { name: "failing-huge", quick: 8_000, thorough: 200_000, f: failing_h },
        Group { name: "failing-vast", quick: 600, thorough: 15_000, f: failing_vast },
    ],
};

// ---------------------------------------------------------------- memory

/// Runs the calls, collecting outputs, and says how many blocks were left behind.
fn memory_round(ops: &[(Op, bool)], vals: &[Val], forms: &[Form]) -> (u64, i64) {
    let before = guard::live();
    let mut h = 0u64;
    {
        let mut regs: Vec<NumericBuf> = vals.iter().zip(forms).map(|(v, f)| from_bytes(v, *f)).collect();
        for (op, store) in ops {
            let out = exec(op, &regs);
            h = hash64(&[&h.to_le_bytes(), &out]);
            if *store {
                // in place, so that buffers with spare room and moved values come into play
                let b = regs[op.b].clone();
                let t = &mut regs[op.a];
                let r = guarded(|| match op.kind % 9 {
                    0 => *t += &b,
                    1 => *t -= &b,
                    2 if product_ok(t, &b) => *t *= &b,
                    3 if quotient_ok(t, &b) => *t %= &b,
                    4 => t.negate_mut(),
                    5 => t.round_mut(op.k as i32),
                    6 => t.trunc_mut(op.k as i32),
                    7 => {
                        t.apply_typmod(Typmod::new(20, 5).unwrap());
                    }
                    _ => *t = -std::mem::replace(t, b),
                });
                h = hash64(&[&h.to_le_bytes(), &[r.is_ok() as u8]]);
                if regs[op.a].as_bytes().len() > 4000 {
                    let keep = regs[op.a].is_negative();
                    regs[op.a] = NumericBuf::from(keep);
                }
                let mut out = vec![];
                put(&mut out, &regs[op.a]);
                h = hash64(&[&h.to_le_bytes(), &out]);
            }
            // the buffer of an owned value has spare room, which is not part of it
            let t = &regs[op.a];
            if t.as_bytes().len() <= 60 {
                h = hash64(&[&h.to_le_bytes(), format!("{:?} {:?} {:?}", t, t.as_numeric(), t.negate()).as_bytes()]);
            }
        }
    }
    (h, guard::live() - before)
}

fn memory(s: &mut Src, c: &mut Ctx, max: Size) -> Check {
    let vals: Vec<Val> = (0..3).map(|_| any(s, max)).collect();
    let forms: Vec<Form> = (0..3).map(|_| if s.flip() { Form::Long } else { Form::Canonical }).collect();
    for (n, v) in ["v0", "v1", "v2"].iter().zip(&vals) {
        note(c, n, v);
    }
    let n = s.range(1, 12);
    let mut ops = vec![];
    for _ in 0..n {
        let op = draw_op(s, 3);
        let store = s.flip();
        c.text("op", &format!("{:?} store {}", op, store));
        ops.push((op, store));
    }
    c.nontrivial = vals.iter().any(|v| !v.is_nan() && !v.is_zero());
    // the first pass may fill lazily made constants and caches
    guard::set_poison(0x6B, 0xE5, 0xD7);
    let (h1, l1) = memory_round(&ops, &vals, &forms);
    guard::set_poison(0x00, 0x27, 0x0F);
    let (h2, l2) = memory_round(&ops, &vals, &forms);
    guard::set_poison(guard::POISON_NEW, guard::POISON_FREE, guard::ZONE);
    c.output(&h1.to_le_bytes());
    if guard::INSTALLED.load(std::sync::atomic::Ordering::Relaxed) {
        ensure(l1.min(l2) == 0, || format!("{} heap blocks were left behind (freed too often if negative)", l1.min(l2)))?;
    }
    ensure(h1 == h2, || "the results depend on what fresh, freed or neighbouring memory contained".into())
}
fn memory_n(s: &mut Src, c: &mut Ctx) -> Check {
    memory(s, c, Size::Medium)
}
fn memory_h(s: &mut Src, c: &mut Ctx) -> Check {
    memory(s, c, Size::Huge)
}
fn memory_vast(s: &mut Src, c: &mut Ctx) -> Check {
    memory(s, c, Size::Vast)
}
/// The model histories once more, for their memory.
fn memory_history(s: &mut Src, c: &mut Ctx) -> Check {
    // a wrong result is C28's business; only memory faults fail the case here
    let _ = history(s, c, Size::Medium, 1500, (1, 25));
    Ok(())
}
/// Runs `f` until a run leaves no heap block behind, three times at most: a first run may make
/// constants or caches that stay for the later ones, which is not a leak.
fn no_leak(f: impl Fn()) -> Check {
    let mut left = 0;
    for _ in 0..3 {
        let before = guard::live();
        f();
        left = guard::live() - before;
        if left == 0 || !guard::INSTALLED.load(std::sync::atomic::Ordering::Relaxed) {
            return Ok(());
        }
    }
    ensure(false, || format!("{} heap blocks were left behind (freed too often if negative)", left))
}
/// Damaged bytes through the decoders.
fn memory_bytes(s: &mut Src, c: &mut Ctx) -> Check {
    let b = crate::p_store::hostile(s, c);
    c.nontrivial();
    let mut raw = (b.len() as u64).to_le_bytes().to_vec();
    raw.extend_from_slice(&b);
    let room = s.pick(&[0, 2, 4, 6, 1, 3]);
    no_leak(|| {
        let a = Aligned::new(&raw, room);
        let r = guarded(|| {
            if let Ok(n) = bincode::deserialize::<NumericBuf>(a.bytes()) {
                let _ = (n.to_string(), &n + &n, n.clone());
            }
            if let Ok(n) = bincode::deserialize::<&Numeric>(a.bytes()) {
                let _ = (n.to_string(), n + n, n.to_owned());
            }
        });
        drop(r);
    })
}
/// Text through the parser, accepted or not.
fn memory_text(s: &mut Src, c: &mut Ctx) -> Check {
    let t = crate::p_text::any_text(s);
    c.text("text", &format!("{:?}", t));
    c.nontrivial = t.len() > 1;
    // in a block of exactly its size, so that reading past the end leaves it
    let t: Box<str> = t.into();
    no_leak(|| {
        let r = guarded(|| t.parse::<NumericBuf>());
        drop(r);
    })
}

const C30: Prop = Prop {
    id: "C30",
    rule: "some value is a number other than zero, or the bytes or text are not empty",
    groups: &[
        Group { name: "memory", quick: 40_000, thorough: 1_000_000, f: memory_n },
        Group { name: "memory-huge", quick: 800, thorough: 20_000, f: memory_h },
        Group { name: "memory-vast", quick: 200, thorough: 5_000, f: memory_vast },
        Group { name: "memory-history", quick: 12_000, thorough: 250_000, f: memory_history },
        Group { name: "memory-bytes", quick: 60_000, thorough: 1_500_000, f: memory_bytes },
        Group { name: "memory-text", quick: 60_000, thorough: 1_500_000, f: memory_text },
    ],
};

// ---------------------------------------------------------------- threads

fn threads(s: &mut Src, c: &mut Ctx) -> Check {
    let regs = small_regs(s, c, 4, Size::Medium);
    let nt = s.range(2, 4) as usize;
    let n = s.range(4, 16) as usize;
    let ops: Vec<Vec<Op>> = (0..nt).map(|_| (0..n).map(|_| draw_op(s, 4)).collect()).collect();
    let jit = s.upto(u32::MAX as u64 / 2) as u32;
    c.text("ops", &format!("{:?}", ops));
    c.nontrivial();
    let bytes: Vec<Vec<u8>> = regs.iter().map(|r| r.as_bytes().to_vec()).collect();
    let want: Vec<Vec<Vec<u8>>> = ops.iter().map(|l| l.iter().map(|o| exec(o, &regs)).collect()).collect();
    let shared = Arc::new(regs);
    let bar = Barrier::new(nt);
    // values handed from thread to thread
    let mail: Mutex<Vec<NumericBuf>> = Mutex::new(vec![]);
    let got: Vec<Vec<Vec<u8>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = ops
            .iter()
            .enumerate()
            .map(|(t, l)| {
                let (shared, bar, mail) = (shared.clone(), &bar, &mail);
                sc.spawn(move || {
                    guard::set_jitter(if t % 2 == 0 { 0 } else { jit + t as u32 });
                    bar.wait();
                    let mut out = vec![];
                    for (i, o) in l.iter().enumerate() {
                        out.push(exec(o, &shared));
                        if i % 3 == t % 3 {
                            mail.lock().unwrap().push(shared[o.a].clone());
                        } else if i % 3 == 1 {
                            let m = mail.lock().unwrap().pop();
                            drop(m.map(|mut m| {
                                m.negate_mut();
                                m
                            }));
                        }
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (t, (g, w)) in got.iter().zip(&want).enumerate() {
        for (i, (g, w)) in g.iter().zip(w).enumerate() {
            ensure(g == w, || format!("thread {} call {} ({:?}): gave another result than alone: {} against {}", t, i, ops[t][i], hex(g), hex(w)))?;
        }
    }
    for (r, b) in shared.iter().zip(&bytes) {
        ensure(r.as_bytes() == &b[..], || "a shared value changed".into())?;
    }
    for m in mail.into_inner().unwrap() {
        ensure(shared.iter().any(|r| *r == m) , || format!("a value handed over changed: {}", m))?;
    }
    Ok(())
}

/// A few calls made over and over in many threads at once, each at its own pace.
fn threads_hot(s: &mut Src, c: &mut Ctx) -> Check {
    let regs = small_regs(s, c, 3, Size::Small);
    let nt = s.range(2, 6) as usize;
    let ops: Vec<Op> = (0..s.range(1, 3)).map(|_| draw_op(s, 3)).collect();
    let rounds = s.range(20, 80) as usize;
    let jit = 1 + s.upto(u32::MAX as u64 / 2) as u32;
    c.text("ops", &format!("{} threads {} times {:?}", nt, rounds, ops));
    c.nontrivial();
    let bytes: Vec<Vec<u8>> = regs.iter().map(|r| r.as_bytes().to_vec()).collect();
    let want: Vec<Vec<u8>> = ops.iter().map(|o| exec(o, &regs)).collect();
    let gate = Gate::new(nt);
    let bad: Mutex<Option<(usize, usize, Vec<u8>)>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (regs, ops, want, gate, bad) = (&regs, &ops, &want, &gate, &bad);
            sc.spawn(move || {
                guard::set_jitter(if t == 0 { 0 } else { jit ^ (t as u32) << 8 | 1 });
                gate.pass();
                for k in 0..rounds * ops.len() {
                    let i = (k + t) % ops.len();
                    let g = exec(&ops[i], regs);
                    if g != want[i] {
                        guard::set_jitter(0);
                        bad.lock().unwrap().get_or_insert((t, i, g));
                        return;
                    }
                }
            });
        }
    });
    if let Some((t, i, g)) = bad.into_inner().unwrap() {
        return ensure(false, || format!("thread {} of {} ({:?}): gave another result than alone: {} against {}", t, nt, ops[i], hex(&g), hex(&want[i])));
    }
    for (r, b) in regs.iter().zip(&bytes) {
        ensure(r.as_bytes() == &b[..], || "a shared value changed".into())?;
    }
    Ok(())
}

/// Lets threads through together, as nearly at once as can be.
struct Gate(AtomicUsize, usize);
impl Gate {
    fn new(n: usize) -> Gate {
        Gate(AtomicUsize::new(0), n)
    }
    fn pass(&self) {
        let round = self.0.fetch_add(1, SeqCst) / self.1;
        let mut n = 0u32;
        while self.0.load(SeqCst) / self.1 == round {
            n += 1;
            if n % 2000 == 0 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

/// What a new process does: values, how they are held, and calls, every kind of call among them.
fn first_plan(s: &mut Src) -> (Vec<(Val, Form)>, Vec<Op>, usize, u32) {
    let vals: Vec<(Val, Form)> = (0..4)
        .map(|i| (any(s, if i < 2 { Size::Small } else { Size::Medium }), if s.flip() { Form::Long } else { Form::Canonical }))
        .collect();
    let mut ops: Vec<Op> = (0..PURE)
        .map(|k| {
            let mut o = draw_op(s, 4);
            o.kind = k;
            o.text = if k == 33 { crate::p_text::any_text(s) } else { String::new() };
            o
        })
        .collect();
    // any order
    for i in (1..ops.len()).rev() {
        ops.swap(i, s.upto(i as u64) as usize);
    }
    let nt = s.range(3, 4) as usize;
    let jit = s.upto(u32::MAX as u64 / 2) as u32;
    (vals, ops, nt, jit)
}

/// The part of the new process: reads choices, makes each call in all threads at once, and
/// writes hashes of what they gave.
pub fn first_child() -> i32 {
    let mut t = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("choices");
    let raw: Vec<u64> = t.split_whitespace().map(|x| x.parse().expect("choice")).collect();
    let (vals, ops, nt, jit) = first_plan(&mut Src::replay(raw));
    oracle::engine::install_panic_hook();
    let regs: Vec<NumericBuf> = vals.iter().map(|(v, f)| from_bytes(v, *f)).collect();
    let gate = Gate::new(nt);
    let got: Vec<Vec<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (ops, regs, gate) = (&ops, &regs, &gate);
                sc.spawn(move || {
                    guard::set_jitter(if t < 2 { 0 } else { jit ^ (t as u32) << 8 | 1 });
                    ops.iter()
                        .map(|o| {
                            gate.pass();
                            hash64(&[&exec(o, regs)])
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for g in got {
        println!("{}", g.iter().map(|h| format!("{:016x}", h)).collect::<Vec<_>>().join(" "));
    }
    0
}

/// The first calls a process makes, made by all threads at once.
fn threads_first(s: &mut Src, c: &mut Ctx) -> Check {
    use std::io::{Read, Write};
    let begin = s.rec.len();
    let (vals, ops, nt, _) = first_plan(s);
    let raw = s.rec[begin..].to_vec();
    for (n, (v, _)) in ["v0", "v1", "v2", "v3"].iter().zip(&vals) {
        note(c, n, v);
    }
    c.text("ops", &format!("{} threads {:?}", nt, ops.iter().map(|o| o.kind).collect::<Vec<_>>()));
    c.nontrivial();
    let regs: Vec<NumericBuf> = vals.iter().map(|(v, f)| from_bytes(v, *f)).collect();
    let want: Vec<u64> = ops.iter().map(|o| hash64(&[&exec(o, &regs)])).collect();
    // two at a time, for the threads of one to run at once
    static ROOM: Mutex<usize> = Mutex::new(2);
    static FREED: std::sync::Condvar = std::sync::Condvar::new();
    struct Place;
    impl Drop for Place {
        fn drop(&mut self) {
            *ROOM.lock().unwrap() += 1;
            FREED.notify_one();
        }
    }
    let mut room = ROOM.lock().unwrap();
    while *room == 0 {
        room = FREED.wait_timeout(room, std::time::Duration::from_millis(200)).unwrap().0;
    }
    *room -= 1;
    drop(room);
    let place = Place;
    let mut child = std::process::Command::new(std::env::current_exe().expect("own name"))
        .arg("first")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("new process");
    let text = raw.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    // (a process that is gone already says so below)
    let _ = child.stdin.take().unwrap().write_all(text.as_bytes());
    let mut looks = 0;
    let status = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            break st;
        }
        looks += 1;
        if looks > 30_000 {
            let _ = child.kill();
            let _ = child.wait();
            return ensure(false, || "the first calls of a process, made in several threads at once, did not come back".into());
        }
        std::thread::sleep(std::time::Duration::from_millis(if looks < 100 { 1 } else { 2 }));
    };
    drop(place);
    let mut got = String::new();
    let _ = child.stdout.take().unwrap().read_to_string(&mut got);
    ensure(status.success(), || format!("the first calls of a process, made in several threads at once, ended it: {}", status))?;
    let got: Vec<Vec<u64>> = got.lines().map(|l| l.split(' ').map(|h| u64::from_str_radix(h, 16).unwrap_or(0)).collect()).collect();
    ensure(got.len() == nt, || "the process wrote something else".into())?;
    for (t, g) in got.iter().enumerate() {
        for (i, (g, w)) in g.iter().zip(&want).enumerate() {
            ensure(g == w, || {
                format!("the first calls of a process: call {} ({:?}) gave another result in thread {} of {} than alone", i, ops[i], t, nt)
            })?;
        }
    }
    Ok(())
}

const C31: Prop = Prop {
    id: "C31",
    rule: "every case has two threads or more making calls on the same values",
    groups: &[
        Group { name: "threads", quick: 3_000, thorough: 60_000, f: threads },
        Group { name: "threads-hot", quick: 300, thorough: 8_000, f: threads_hot },
        Group { name: "threads-first", quick: 100, thorough: 2_500, f: threads_first },
    ],
};

// ---------------------------------------------------------------- builds

fn builds(s: &mut Src, c: &mut Ctx, max: Size) -> Check {
    let regs = small_regs(s, c, 3, max);
    let n = s.range(1, 12);
    c.nontrivial();
    for _ in 0..n {
        let op = draw_op(s, 3);
        c.text("op", &format!("{:?}", op));
        let out = exec(&op, &regs);
        c.output(&out);
    }
    Ok(())
}
fn builds_n(s: &mut Src, c: &mut Ctx) -> Check {
    builds(s, c, Size::Large)
}
fn builds_h(s: &mut Src, c: &mut Ctx) -> Check {
    builds(s, c, Size::Huge)
}
fn builds_vast(s: &mut Src, c: &mut Ctx) -> Check {
    builds(s, c, Size::Vast)
}
/// The stored bytes differ between builds in their length word only.
fn builds_bytes(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Huge);
    note(c, "value", &v);
    c.nontrivial = !v.is_nan() && !v.is_zero();
    let b = build(s, &v);
    c.output(&b.as_bytes()[4..]);
    ensure(b.as_bytes() == encode(&v, Form::Canonical, VL), || format!("stored as {}", hex(b.as_bytes())))
}

const C32: Prop = Prop {
    id: "C32",
    rule: "a series of calls (every case), or a value other than zero and NaN",
    groups: &[
        Group { name: "builds", quick: 40_000, thorough: 1_000_000, f: builds_n },
        Group { name: "builds-huge", quick: 2_000, thorough: 50_000, f: builds_h },
        Group { name: "builds-vast", quick: 200, thorough: 5_000, f: builds_vast },
        Group { name: "builds-bytes", quick: 20_000, thorough: 400_000, f: builds_bytes },
    ],
};

pub const PROPS: &[&Prop] = &[&C28, &C29, &C30, &C31, &C32];
