//! NaN through every operation, and the operator forms.

use crate::common::*;
use oracle::engine::{guarded, Check, Ctx, Group, Panic, Prop, Src};
use oracle::layout::Form;
use oracle::num::{Num, Val};
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::convert::TryFrom;

// ---------------------------------------------------------------- NaN

fn nan_operand(s: &mut Src) -> Operand {
    operand(s, &Val::NaN)
}

/// One case checks NaN against one value in every binary operation, both ways round.
fn nan_binary(s: &mut Src, c: &mut Ctx) -> Check {
    let v = match s.weighted(&[3, 1, 4, 2]) {
        0 => Val::V(Num::int(s.pick(&[0, 1, -1, 2, 10, -5])), s.range(0, 6)),
        1 => Val::NaN,
        2 => finite(s, Size::Large),
        _ => finite(s, Size::Huge),
    };
    note(c, "other", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_nan();
    let (n, o) = (nan_operand(s), operand(s, &v));
    let (x, y) = (n.num(), o.num());
    type F = fn(&Numeric, &Numeric) -> Option<NumericBuf>;
    let ops: [(&str, F); 13] = [
        ("checked_add", |a, b| a.checked_add(b)),
        ("checked_sub", |a, b| a.checked_sub(b)),
        ("checked_mul", |a, b| a.checked_mul(b)),
        ("checked_div", |a, b| a.checked_div(b)),
        ("checked_div_trunc", |a, b| a.checked_div_trunc(b)),
        ("checked_rem", |a, b| a.checked_rem(b)),
        ("+", |a, b| Some(a + b)),
        ("-", |a, b| Some(a - b)),
        ("*", |a, b| Some(a * b)),
        ("/", |a, b| Some(a / b)),
        ("%", |a, b| Some(a % b)),
        ("log", |a, b| Some(a.log(b))),
        ("pow", |a, b| a.pow(b)),
    ];
    let zero = !v.is_nan() && v.is_zero();
    let one = !v.is_nan() && *v.num() == Num::int(1);
    for (name, f) in ops {
        for (form, first) in [("NaN first", true), ("NaN second", false)] {
            let what = format!("{} with {}", name, form);
            let (p, q) = if first { (x, y) } else { (y, x) };
            let r = no_panic(&what, guarded(|| f(p, q)))?.ok_or_else(|| format!("{} returned None, want NaN", what))?;
            // NaN ^ 0 and 1 ^ NaN are one
            if name == "pow" && ((first && zero) || (!first && one)) {
                c.label("one despite NaN");
                expect(&what, &r, &Val::int(1))?;
            } else {
                expect(&what, &r, &Val::NaN)?;
            }
        }
    }
    // assignment forms, with NaN on either side
    type A = fn(&mut NumericBuf, &Numeric);
    let asg: [(&str, A); 5] = [
        ("+=", |a, b| *a += b),
        ("-=", |a, b| *a -= b),
        ("*=", |a, b| *a *= b),
        ("/=", |a, b| *a /= b),
        ("%=", |a, b| *a %= b),
    ];
    for (name, f) in asg {
        let mut a = build(s, &v);
        no_panic(name, guarded(|| f(&mut a, x)))?;
        expect(&format!("value {} NaN", name), &a, &Val::NaN)?;
        let mut a = build(s, &Val::NaN);
        no_panic(name, guarded(|| f(&mut a, y)))?;
        expect(&format!("NaN {} value", name), &a, &Val::NaN)?;
    }
    // NaN equals NaN and is above every number
    let want = if v.is_nan() { Ordering::Equal } else { Ordering::Greater };
    ensure(x.cmp(&y) == want && y.cmp(&x) == want.reverse(), || format!("NaN compares {:?} with the value", x.cmp(&y)))?;
    ensure(x.partial_cmp(y) == Some(want), || "partial_cmp of NaN".into())?;
    ensure((x == y) == v.is_nan(), || format!("NaN == value is {}", x == y))?;
    let mut set = HashSet::new();
    set.insert(n.buf());
    ensure(set.contains(y) == v.is_nan(), || "NaN in a hash set".into())?;
    unchanged("NaN", &n)?;
    unchanged("other", &o)
}

fn nan_unary(s: &mut Src, c: &mut Ctx) -> Check {
    let n = nan_operand(s);
    let x = n.num();
    let k = match s.upto(2) {
        0 => s.around(-20, 20) as i32,
        1 => s.pick(&[i32::MIN, i32::MAX, 1000, -1000, 2000, -2000]),
        _ => s.u64() as i32,
    };
    c.input("scale", &|| k.to_string(), k as u64);
    c.nontrivial();
    type F = fn(&Numeric, i32) -> Option<NumericBuf>;
    let ops: [(&str, F); 17] = [
        ("abs", |a, _| Some(a.abs())),
        ("negate", |a, _| Some(a.negate())),
        ("-", |a, _| Some(-a)),
        ("signum", |a, _| Some(a.signum())),
        ("inc", |a, _| Some(a.inc())),
        ("round", |a, k| Some(a.round(k))),
        ("trunc", |a, k| Some(a.trunc(k))),
        ("ceil", |a, _| Some(a.ceil())),
        ("floor", |a, _| Some(a.floor())),
        ("sqrt", |a, _| Some(a.sqrt())),
        ("ln", |a, _| Some(a.ln())),
        ("log2", |a, _| Some(a.log2())),
        ("log10", |a, _| Some(a.log10())),
        ("exp", |a, _| a.exp()),
        ("to_owned", |a, _| Some(a.to_owned())),
        ("f64 and back", |a, _| f64::try_from(a).ok().and_then(|f| NumericBuf::try_from(f).ok())),
        ("f32 and back", |a, _| f32::try_from(a).ok().and_then(|f| NumericBuf::try_from(f).ok())),
    ];
    for (name, f) in ops {
        let r = no_panic(name, guarded(|| f(x, k)))?.ok_or_else(|| format!("{} of NaN returned None or an error", name))?;
        expect(&format!("{} of NaN", name), &r, &Val::NaN)?;
    }
    let mut b = build(s, &Val::NaN);
    for _ in 0..4 {
        let how = s.upto(5);
        let p = s.range(1, 1000) as i32;
        let t = Typmod::new(p, s.range(0, p as i64) as i32);
        no_panic(
            "an in-place operation on NaN",
            guarded(|| match how {
                0 => b.negate_mut(),
                1 => b.abs_mut(),
                2 => b.round_mut(k),
                3 => b.trunc_mut(k),
                4 => b = -b.clone(),
                _ => assert!(!b.apply_typmod(t.unwrap()), "NaN overflows a modifier"),
            }),
        )?;
        expect("NaN after an in-place operation", &b, &Val::NaN)?;
    }
    for (w, z) in [("borrowed", x), ("owned", b.as_numeric())] {
        ensure(z.is_nan(), || format!("{}: is_nan() is false", w))?;
        ensure(!z.is_negative() && !z.is_positive(), || format!("{}: NaN has a sign", w))?;
        ensure(z.scale() == None, || format!("{}: scale() = {:?}", w, z.scale()))?;
        ensure(z.to_string() == "NaN", || format!("{}: reads {}", w, z))?;
        ensure(z.normalize() == "NaN", || format!("{}: normalizes to {}", w, z.normalize()))?;
        ensure(format!("{:e}", z) == "NaN" && format!("{:E}", z) == "NaN", || format!("{}: scientific notation", w))?;
        ensure(i64::try_from(z).is_err() && u128::try_from(z).is_err() && i8::try_from(z).is_err(), || {
            format!("{}: NaN converted to an integer", w)
        })?;
    }
    ensure(*Numeric::nan() == b && NumericBuf::nan() == *x, || "NaN differs from the NaN constants".into())?;
    unchanged("NaN", &n)
}

const C24: Prop = Prop {
    id: "C24",
    rule: "NaN meets a number (binary), or every case (unary)",
    groups: &[
        Group { name: "nan-binary", quick: 40_000, thorough: 1_000_000, f: nan_binary },
        Group { name: "nan-unary", quick: 20_000, thorough: 400_000, f: nan_unary },
    ],
};

// ---------------------------------------------------------------- operator forms

type Res = Result<NumericBuf, Panic>;

macro_rules! forms {
    ($op:tt, $asg:tt, $b:expr, $y:expr, $x:expr, $z:expr, $mb:expr, $my:expr) => {{
        // $b, $y: owned; $x, $z: borrowed; $mb, $my: make the owned ones anew
        let (b, y, x, z): (&NumericBuf, &NumericBuf, &Numeric, &Numeric) = ($b, $y, $x, $z);
        let asg = |f: &dyn Fn(&mut NumericBuf)| -> Res {
            let mut t = $mb();
            match guarded(|| f(&mut t)) {
                Ok(()) => Ok(t),
                Err(p) => {
                    if t.as_bytes() == b.as_bytes() {
                        Err(p)
                    } else {
                        Err(Panic { msg: format!("{} (and the left operand was changed)", p.msg), loc: p.loc + " changed" })
                    }
                }
            }
        };
        let v: Vec<(&'static str, Res)> = vec![
            ("&Buf op &Buf", guarded(|| b $op y)),
            ("Buf op &Buf", guarded(|| $mb() $op y)),
            ("&Numeric op &Buf", guarded(|| x $op y)),
            ("Buf op Buf", guarded(|| $mb() $op $my())),
            ("&Buf op Buf", guarded(|| b $op $my())),
            ("&Numeric op Buf", guarded(|| x $op $my())),
            ("&Buf op &Numeric", guarded(|| b $op z)),
            ("Buf op &Numeric", guarded(|| $mb() $op z)),
            ("&Numeric op &Numeric", guarded(|| x $op z)),
            ("Buf op= &Buf", asg(&|t| *t $asg y)),
            ("Buf op= Buf", asg(&|t| *t $asg $my())),
            ("Buf op= &Numeric", asg(&|t| *t $asg z)),
        ];
        v
    }};
}

fn check_forms(s: &mut Src, c: &mut Ctx, a: &Val, b: &Val, op: u64) -> Check {
    let (i, j) = (s.upto(WAYS), s.upto(WAYS));
    let (l, r) = (make(i, a), make(j, b));
    let (ml, mr) = (|| make(i, a), || make(j, b));
    let (lo, ro) = (operand(s, a), operand(s, b));
    let (x, z) = (lo.num(), ro.num());
    let (name, want, all) = match op {
        0 => ("+", x.checked_add(z), forms!(+, +=, &l, &r, x, z, ml, mr)),
        1 => ("-", x.checked_sub(z), forms!(-, -=, &l, &r, x, z, ml, mr)),
        2 => ("*", x.checked_mul(z), forms!(*, *=, &l, &r, x, z, ml, mr)),
        3 => ("/", x.checked_div(z), forms!(/, /=, &l, &r, x, z, ml, mr)),
        _ => ("%", x.checked_rem(z), forms!(%, %=, &l, &r, x, z, ml, mr)),
    };
    c.text("op", name);
    let by_zero = op >= 3 && !a.is_nan() && !b.is_nan() && b.is_zero();
    c.label_if(by_zero, "by zero");
    c.label_if(want.is_none() && !by_zero, "overflows");
    for (form, got) in all {
        let what = format!("{} ({})", name, form);
        match &want {
            Some(w) => {
                let g = no_panic(&what, got)?;
                ensure(g.as_bytes() == w.as_bytes(), || {
                    format!("{}: gives {}, the checked method {}", what, clip(&g), clip(w))
                })?;
            }
            None => {
                if let Err(p) = &got {
                    ensure(!p.loc.ends_with(" changed"), || format!("{}: {}", what, p.msg))?;
                }
                expect_panic(&what, got, if by_zero { DIV_ZERO } else { OVERFLOW })?;
            }
        }
    }
    ensure(l.as_bytes() == build_bytes(a) && r.as_bytes() == build_bytes(b), || format!("{}: an operand was changed", name))?;
    unchanged("left", &lo)?;
    unchanged("right", &ro)
}

fn build_bytes(v: &Val) -> Vec<u8> {
    oracle::layout::encode(v, Form::Canonical, VL)
}

fn clip(n: &Numeric) -> String {
    read(n).map_or_else(|e| e, |v| v.show())
}

fn forms_n(s: &mut Src, c: &mut Ctx) -> Check {
    let a = any(s, Size::Medium);
    let b = related(s, &a, Size::Medium);
    note(c, "a", &a);
    note(c, "b", &b);
    let op = s.upto(4);
    c.nontrivial = !a.is_nan() && !b.is_nan() && !a.is_zero() && !b.is_zero();
    check_forms(s, c, &a, &b, op)
}

/// Operands that overflow, and divisors that are zero.
fn forms_fail(s: &mut Src, c: &mut Ctx) -> Check {
    let neg = s.flip();
    let top = |s: &mut Src| Val::V(Num::new(neg, oracle::big::Big::from_u128(s.range(1, 99) as u128), s.range(131068, 131071)), 0);
    let top = |s: &mut Src| match top(s) {
        v if v.fits() => v,
        _ => Val::V(Num::new(neg, oracle::big::Big::one(), 131071), 0),
    };
    let op = s.upto(4);
    let a = if op < 2 || s.flip() { top(s) } else { finite(s, Size::Medium) };
    let b = match op {
        0 | 1 => {
            let v = top(s);
            if op == 1 {
                Val::V(v.num().neg(), 0)
            } else {
                v
            }
        }
        2 => finite(s, Size::Medium),
        _ => {
            if s.flip() {
                Val::V(Num::zero(), s.range(0, 5))
            } else {
                let d = s.range(1, 6);
                Val::V(Num::new(s.flip(), oracle::big::Big::from_u128(s.range(1, 12) as u128), -d), d)
            }
        }
    };
    note(c, "a", &a);
    note(c, "b", &b);
    c.nontrivial = true;
    check_forms(s, c, &a, &b, op)
}

/// The same value on both sides, by reference.
fn forms_self(s: &mut Src, c: &mut Ctx) -> Check {
    let a = any(s, Size::Medium);
    note(c, "a", &a);
    c.nontrivial = !a.is_nan() && !a.is_zero();
    let i = s.upto(WAYS);
    let l = make(i, &a);
    let ml = || make(i, &a);
    let n = l.as_numeric();
    for op in 0..5 {
        let (name, want, all) = match op {
            0 => ("+", n.checked_add(n), forms!(+, +=, &l, &l, n, n, ml, ml)),
            1 => ("-", n.checked_sub(n), forms!(-, -=, &l, &l, n, n, ml, ml)),
            2 => ("*", n.checked_mul(n), forms!(*, *=, &l, &l, n, n, ml, ml)),
            3 => ("/", n.checked_div(n), forms!(/, /=, &l, &l, n, n, ml, ml)),
            _ => ("%", n.checked_rem(n), forms!(%, %=, &l, &l, n, n, ml, ml)),
        };
        for (form, got) in all {
            let what = format!("a {} a ({})", name, form);
            match &want {
                Some(w) => {
                    let g = no_panic(&what, got)?;
                    ensure(g.as_bytes() == w.as_bytes(), || format!("{}: gives {}, the checked method {}", what, clip(&g), clip(w)))?;
                }
                None => expect_panic(&what, got, if op >= 3 { DIV_ZERO } else { OVERFLOW })?,
            }
        }
    }
    let want = n.negate();
    for (form, g) in [("-&Numeric", -n), ("-&Buf", -&l), ("-Buf", -ml())] {
        ensure(g.as_bytes() == want.as_bytes(), || format!("{}: gives {}, negate() {}", form, clip(&g), clip(&want)))?;
    }
    ensure(l.as_bytes() == build_bytes(&a), || "the operand was changed".into())
}

const C26: Prop = Prop {
    id: "C26",
    rule: "both operands are numbers other than zero, or the operation is meant to fail",
    groups: &[
        Group { name: "forms", quick: 60_000, thorough: 1_500_000, f: forms_n },
        Group { name: "forms-fail", quick: 20_000, thorough: 500_000, f: forms_fail },
        Group { name: "forms-self", quick: 15_000, thorough: 400_000, f: forms_self },
    ],
};

pub const PROPS: &[&Prop] = &[&C24, &C26];
