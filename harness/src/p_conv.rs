//! Conversions from and to machine integers and floats.

use crate::common::*;
use oracle::big::Big;
use oracle::engine::{guarded, hash64, Check, Ctx, Group, Prop, Src};
use oracle::num::{Num, Rnd, Val, MAX_DSCALE};
use pgnumeric::{NumericBuf, NumericTryFromError};
use std::convert::TryFrom;

// ---------------------------------------------------------------- integers

/// An exact number near the edges of the machine types, near powers of two and of ten, or any.
fn int_src(s: &mut Src) -> (i128, u128) {
    let bits = s.pick(&[8u32, 16, 32, 64, 128, 7, 15, 31, 63, 127]);
    let p = if bits == 128 { 0u128 } else { 1u128 << bits };
    let v: u128 = match s.upto(5) {
        0 => s.around(-40, 40) as i128 as u128,
        1 => p.wrapping_add(s.around(-3, 3) as i128 as u128),
        2 => (p as i128).wrapping_neg().wrapping_add(s.around(-3, 3) as i128) as u128,
        3 => 10u128.pow(s.upto(38) as u32).wrapping_add(s.around(-1, 1) as i128 as u128),
        4 => {
            let hi = s.u64() as u128;
            let v = hi << 64 | s.u64() as u128;
            v >> s.upto(127)
        }
        _ => (s.upto(9999) as u128).wrapping_mul(10u128.pow(4 * s.upto(9) as u32)),
    };
    let i = v as i128;
    (if s.flip() { i.wrapping_neg() } else { i }, v)
}

fn check_from_int(s: &mut Src, c: &mut Ctx) -> Check {
    let (i, u) = int_src(s);
    c.input("i128", &|| i.to_string(), hash64(&[&i.to_le_bytes()]));
    c.input("u128", &|| u.to_string(), hash64(&[&u.to_le_bytes()]));
    c.nontrivial = i != 0 && u != 0;
    macro_rules! t {
        ($t:ty, $src:expr) => {{
            let v = $src as $t;
            let n = if <$t>::MIN == 0 { Num::uint(v as u128) } else { Num::int(v as i128) };
            let want = Val::V(n, 0);
            let got = NumericBuf::from(v);
            expect(concat!("from ", stringify!($t)), &got, &want)?;
            let back = <$t>::try_from(&got);
            ensure(back == Ok(v), || format!("{} {} comes back as {:?}", stringify!($t), v, back))?;
        }};
    }
    t!(i8, i);
    t!(i16, i);
    t!(i32, i);
    t!(i64, i);
    t!(i128, i);
    t!(isize, i);
    t!(u8, u);
    t!(u16, u);
    t!(u32, u);
    t!(u64, u);
    t!(u128, u);
    t!(usize, u);
    for b in [false, true] {
        expect("from bool", &NumericBuf::from(b), &Val::int(b as i128))?;
    }
    Ok(())
}

fn out_of_range() -> NumericTryFromError {
    i8::try_from(NumericBuf::from(1000i32)).unwrap_err()
}
fn not_convertible() -> NumericTryFromError {
    i8::try_from(NumericBuf::nan()).unwrap_err()
}

fn check_into_int(s: &mut Src, c: &mut Ctx, v: &Val) -> Check {
    let o = operand(s, v);
    let owned = build(s, v);
    // one of the conversions consumes a numeric just as it was made
    let mut whole = Some(build(s, v));
    let mut taker = s.upto(11);
    let r = match v {
        Val::NaN => None,
        Val::V(n, _) => Some(n.round(0, Rnd::HalfUp)),
    };
    // the rounded value, if it is in the range of some machine integer
    let small = r.as_ref().and_then(|r| {
        let a = r.adj().unwrap_or(0);
        if a > 39 {
            return None;
        }
        let r = r.round(0, Rnd::Trunc);
        let m = if r.exp >= 0 { r.mag.mul_pow10(r.exp as usize) } else { r.mag.div_pow10((-r.exp) as usize).0 };
        m.to_u128().map(|m| (r.neg, m))
    });
    c.label_if(matches!((v, &r), (Val::V(n, _), Some(r)) if n != r), "rounds");
    c.label_if(small.is_none(), "beyond every integer type");
    let (ov, inv) = (out_of_range(), not_convertible());
    ensure(ov != inv && ov.to_string() == "value is out of range", || format!("the out of range error reads {:?} \"{}\"", ov, ov))?;
    macro_rules! t {
        ($t:ty) => {{
            let want: Result<$t, &NumericTryFromError> = if v.is_nan() {
                Err(&inv)
            } else {
                let x: Option<$t> = match small {
                    None => None,
                    Some((false, m)) => <$t>::try_from(m).ok(),
                    Some((true, m)) => {
                        if m == 1 << 127 {
                            <$t>::try_from(i128::MIN).ok()
                        } else {
                            i128::try_from(m).ok().and_then(|m| <$t>::try_from(-m).ok())
                        }
                    }
                };
                x.ok_or(&ov)
            };
            let name = stringify!($t);
            let chk = |how: &str, got: Result<$t, NumericTryFromError>| -> Check {
                let ok = match (&got, &want) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(a), Err(b)) => a == *b,
                    _ => false,
                };
                ensure(ok, || format!("{} from {}: got {:?}, want {:?}", name, how, got, want))
            };
            chk("&Numeric", no_panic("try_from", guarded(|| <$t>::try_from(o.num())))?)?;
            chk("&NumericBuf", no_panic("try_from", guarded(|| <$t>::try_from(&owned)))?)?;
            let b = if taker == 0 { whole.take() } else { None }.unwrap_or_else(|| owned.clone());
            taker = taker.wrapping_sub(1);
            chk("NumericBuf", no_panic("try_from", guarded(|| <$t>::try_from(b)))?)?;
            let b = o.buf();
            chk("NumericBuf", no_panic("try_from", guarded(|| <$t>::try_from(b)))?)?;
        }};
    }
    t!(i8);
    t!(i16);
    t!(i32);
    t!(i64);
    t!(i128);
    t!(isize);
    t!(u8);
    t!(u16);
    t!(u32);
    t!(u64);
    t!(u128);
    t!(usize);
    unchanged("value", &o)?;
    expect("owned value", &owned, v)
}

/// Around the edges of the integer types, with fractions around one half.
fn into_int_edges(s: &mut Src, c: &mut Ctx) -> Check {
    let (i, u) = int_src(s);
    let base = if s.flip() { Num::int(i) } else { Num::uint(u) };
    let k = s.range(1, 14);
    let f = match s.upto(6) {
        0 => Num::zero(),
        1 => Num::int(5).shift10(-1),
        2 => Num::int(5).shift10(-1).sub(&Num::pow10(-k - 1)),
        3 => Num::int(5).shift10(-1).add(&Num::pow10(-k - 1)),
        4 => Num::pow10(-k),
        5 => Num::int(1).sub(&Num::pow10(-k)),
        _ => Num::int(s.upto(999) as i128).shift10(-3),
    };
    let n = if s.flip() { base.add(&f) } else { base.sub(&f) };
    let d = n.min_scale() + if s.flip() { s.range(0, 6) } else { 0 };
    let v = Val::V(n, d);
    note(c, "value", &v);
    c.nontrivial = !v.is_zero();
    check_into_int(s, c, &v)
}
fn into_int_any(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Large);
    note(c, "value", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero() && !v.is_nan();
    check_into_int(s, c, &v)
}
fn into_int_huge(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Huge);
    note(c, "value", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero() && !v.is_nan();
    check_into_int(s, c, &v)
}
fn into_int_vast(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Vast);
    note(c, "value", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero() && !v.is_nan();
    check_into_int(s, c, &v)
}

pub const C10: Prop = Prop {
    id: "C10",
    rule: "the value converted is neither zero nor NaN",
    groups: &[
        Group { name: "from-int", quick: 200_000, thorough: 4_000_000, f: check_from_int },
        Group { name: "into-int-edges", quick: 250_000, thorough: 5_000_000, f: into_int_edges },
        Group { name: "into-int", quick: 60_000, thorough: 1_500_000, f: into_int_any },
        Group { name: "into-int-huge", quick: 3_000, thorough: 60_000, f: into_int_huge },
        Group { name: "into-int-vast", quick: 300, thorough: 6_000, f: into_int_vast },
    ],
};

// ---------------------------------------------------------------- floats

fn f64_src(s: &mut Src) -> f64 {
    let v = match s.upto(8) {
        0 => s.around(-100, 100) as f64 / s.pick(&[1.0, 2.0, 4.0, 8.0, 10.0, 100.0, 3.0, 7.0]),
        // any bit pattern
        1 => f64::from_bits(s.u64()),
        // a short decimal
        2 => format!("{}e{}", s.upto(1 << 53), s.around(-330, 300)).parse().unwrap(),
        3 => s.pick(&[
            f64::MAX,
            f64::MIN_POSITIVE,
            f64::from_bits(1),
            f64::EPSILON,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            -f64::NAN,
            0.0,
            -0.0,
            f64::from_bits(0x7ff0_0000_0000_0001),
        ]),
        // 2^k, and its neighbours
        4 => f64::from_bits(((s.upto(2046) + 1) << 52).wrapping_add(s.around(-2, 2) as u64)),
        // exact ties of %.15g: n + 1/2 with 15 digits before it
        5 => (s.range(100_000_000_000_000, 999_999_999_999_999) as f64) + s.pick(&[0.5, 0.25, 0.75, 0.375]),
        // 9's that round up to a power of ten
        6 => format!("9.999999999999{}e{}", s.upto(99_999), s.around(-300, 300)).parse().unwrap(),
        // the edges of %g's notation
        7 => format!("{}e{}", s.upto(99_999) as f64 / 1e4, s.pick(&[-5, -4, -6, 14, 15, 16, 5, 6, 7])).parse().unwrap(),
        _ => f32::from_bits(s.upto(u32::MAX as u64) as u32) as f64,
    };
    if s.flip() {
        -v
    } else {
        v
    }
}

/// The exact value of a finite float.
fn exact(f: f64) -> Num {
    let b = f.to_bits();
    let (e, m) = ((b >> 52 & 0x7ff) as i64, b & ((1 << 52) - 1));
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let m = Big::from_u128(m as u128);
    if e >= 0 {
        Num::new(f < 0.0, m.mul(&Big::from_u128(2).pow_u(e as u64)), 0)
    } else {
        Num::new(f < 0.0, m.mul(&Big::from_u128(5).pow_u(-e as u64)), e)
    }
}

/// What `f` is with `p` significant digits.
fn printed(f: f64, p: i64) -> Val {
    let n = exact(f);
    let n = match n.adj() {
        None => Num::zero(),
        Some(a) => n.round(p - 1 - a, Rnd::HalfEven).reduced(),
    };
    let d = n.min_scale();
    Val::V(n, d)
}

/// The C library's numeric locale, which a process or a thread may set to its user's: floats
/// are written and read there with other decimal points.
mod locale {
    use std::ffi::{c_char, c_int, c_void, CString};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

    extern "C" {
        fn newlocale(mask: c_int, name: *const c_char, base: *mut c_void) -> *mut c_void;
        fn uselocale(l: *mut c_void) -> *mut c_void;
    }
    const LC_NUMERIC_MASK: c_int = 1 << 1;
    pub const POINTS: [char; 3] = [',', '\u{66b}', '\''];

    /// A compiled LC_NUMERIC of glibc.
    fn file(point: char) -> Vec<u8> {
        let mut text = point.to_string().into_bytes();
        text.push(0);
        let sep = 32 + text.len() as u32;
        text.extend(b".\0");
        while text.len() % 4 != 0 {
            text.push(0);
        }
        let at = 32 + text.len() as u32;
        let mut b = vec![];
        for w in [0x2003_1114, 6, 32, sep, at, at + 4, at + 8, at + 12] {
            b.extend(w.to_le_bytes());
        }
        b.extend(text);
        for w in [3u32, point as u32, '.' as u32] {
            b.extend(w.to_le_bytes());
        }
        b.extend(b"UTF-8\0");
        b
    }

    /// Writes the locales into a directory beside the program; called before there are threads.
    pub fn prepare() -> Option<()> {
        let exe = std::env::current_exe().ok()?;
        let dir = exe.parent()?.join("locales");
        for (i, p) in POINTS.iter().enumerate() {
            let d = dir.join(format!("point{}", i));
            std::fs::create_dir_all(&d).ok()?;
            let to = d.join("LC_NUMERIC");
            if std::fs::read(&to).ok() != Some(file(*p)) {
                let tmp = d.join(format!("new{}", std::process::id()));
                std::fs::write(&tmp, file(*p)).ok()?;
                std::fs::rename(&tmp, &to).ok()?;
            }
        }
        std::env::set_var("LOCPATH", dir);
        for i in 0..POINTS.len() {
            let name = CString::new(format!("point{}", i)).unwrap();
            let l = unsafe { newlocale(LC_NUMERIC_MASK, name.as_ptr(), std::ptr::null_mut()) };
            MADE[i].store(l as usize, Relaxed);
        }
        Some(())
    }

    /// The locales, as far as there are any; each stands as long as the program.
    static MADE: [AtomicUsize; 3] = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];

    /// This thread's locale, until dropped.
    pub struct Set(usize);
    pub fn set(i: u64) -> Option<(char, Set)> {
        let i = i as usize % POINTS.len();
        match MADE[i].load(Relaxed) {
            0 => None,
            l => Some((POINTS[i], Set(unsafe { uselocale(l as *mut c_void) } as usize))),
        }
    }
    impl Drop for Set {
        fn drop(&mut self) {
            unsafe { uselocale(self.0 as *mut c_void) };
        }
    }
}
pub use locale::prepare as prepare_locales;

fn in_locale(s: &mut Src, c: &mut Ctx, f: fn(&mut Src, &mut Ctx) -> Check) -> Check {
    let i = s.upto(locale::POINTS.len() as u64 - 1);
    match locale::set(i) {
        Some((p, _set)) => {
            c.text("decimal point of the locale", &p.to_string());
            c.label_if(p == ',', "decimal comma");
            f(s, c)
        }
        None => {
            c.label_if(true, "no locale to be had");
            f(s, c)
        }
    }
}
fn from_float_locale(s: &mut Src, c: &mut Ctx) -> Check {
    in_locale(s, c, check_from_float)
}
fn into_float_locale(s: &mut Src, c: &mut Ctx) -> Check {
    in_locale(s, c, into_float_n)
}

fn check_from_float(s: &mut Src, c: &mut Ctx) -> Check {
    let f = f64_src(s);
    let g = if s.flip() { f as f32 } else { f32::from_bits(s.upto(u32::MAX as u64) as u32) };
    c.input("f64", &|| format!("{:e}", f), f.to_bits());
    c.input("f32", &|| format!("{:e}", g), g.to_bits() as u64);
    c.nontrivial = f.is_finite() && f != 0.0;
    c.label_if(f.is_nan(), "f64 NaN");
    c.label_if(f.is_infinite(), "f64 infinite");
    c.label_if(f.is_subnormal(), "f64 subnormal");
    c.label_if(g.is_subnormal(), "f32 subnormal");
    let inv = not_convertible();
    let chk = |what: &str, got: Result<NumericBuf, NumericTryFromError>, x: f64, p: i64| -> Check {
        if x.is_infinite() {
            return ensure(matches!(&got, Err(e) if *e == inv), || format!("{}: infinity gave {:?}", what, got.map(|g| g.to_string())));
        }
        let want = if x.is_nan() { Val::NaN } else { printed(x, p) };
        match got {
            Ok(g) => expect(what, &g, &want),
            Err(e) => Err(format!("{}: error \"{}\", want {}", what, e, want.show())),
        }
    };
    chk("from f64", NumericBuf::try_from(f), f, 15)?;
    chk("from f32", NumericBuf::try_from(g), g as f64, 6)?;
    // and back: what was printed, to the nearest float
    if f.is_finite() {
        let w = printed(f, 15);
        if let Ok(n) = NumericBuf::try_from(f) {
            to_f64("back to f64", f64::try_from(&n), &w)?;
        }
    }
    if g.is_finite() {
        let w = printed(g as f64, 6);
        if let Ok(n) = NumericBuf::try_from(g) {
            to_f32("back to f32", f32::try_from(&n), &w)?;
        }
    }
    Ok(())
}

fn to_f64(what: &str, got: Result<f64, NumericTryFromError>, v: &Val) -> Check {
    let ok = match v {
        Val::NaN => matches!(&got, Ok(g) if g.is_nan()),
        Val::V(n, _) => {
            let near = n.to_f64();
            match &got {
                // too large is the infinity it rounds to, too small is zero
                Err(_) => false,
                Ok(g) => {
                    g.to_bits() == near.to_bits()
                        || (*g == 0.0 && near == 0.0)
                        // halfway between two subnormals: both are as near
                        || (near.abs() < f64::MIN_POSITIVE
                            && g.is_finite()
                            && exact(*g).sub(n).abs() == exact(near).sub(n).abs())
                }
            }
        }
    };
    ensure(ok, || {
        let w = if let Val::V(n, _) = v { format!("{:e}", n.to_f64()) } else { "NaN".into() };
        format!("{}: {} gave {:?}, want {}", what, v.show(), got, w)
    })
}

fn to_f32(what: &str, got: Result<f32, NumericTryFromError>, v: &Val) -> Check {
    let ov = out_of_range();
    let (mut w1, mut w2) = (0.0f32, 0.0f32);
    let ok = match v {
        Val::NaN => matches!(&got, Ok(g) if g.is_nan()),
        Val::V(n, _) => {
            // nearest, directly or by way of the nearest f64
            let t = format!("{}{}e{}", if n.neg { "-" } else { "" }, String::from_utf8(n.mag.to_digits()).unwrap(), n.exp);
            w1 = t.parse::<f32>().unwrap();
            w2 = n.to_f64() as f32;
            let lost = |w: f32| w.is_infinite() || (!n.is_zero() && w == 0.0);
            let f = n.to_f64();
            // what an f64 holds and an f32 does not is an error; what neither holds may be
            let held = f.is_finite() && (f != 0.0 || n.is_zero());
            match &got {
                Err(e) => *e == ov && (lost(w1) || lost(w2)),
                Ok(g) => {
                    let eq = |w: f32| (!lost(w) || !held) && (g.to_bits() == w.to_bits() || (*g == 0.0 && w == 0.0));
                    eq(w1) || eq(w2)
                }
            }
        }
    };
    ensure(ok, || format!("{}: {} gave {:?}, want {:e} or {:e}", what, v.show(), got, w1, w2))
}

fn check_into_float(s: &mut Src, c: &mut Ctx, v: &Val) -> Check {
    note(c, "value", v);
    label_val(c, v);
    c.nontrivial = !v.is_nan() && !v.is_zero();
    if let Val::V(n, _) = v {
        let f = n.to_f64();
        c.label_if(f.is_infinite(), "above the f64 range");
        c.label_if(f == 0.0 && !n.is_zero(), "below the f64 range");
        c.label_if(f.is_subnormal(), "f64 subnormal");
        c.label_if((f as f32).is_subnormal(), "f32 subnormal");
    }
    let o = operand(s, v);
    let b = build(s, v);
    to_f64("f64 from &Numeric", f64::try_from(o.num()), v)?;
    to_f64("f64 from &NumericBuf", f64::try_from(&b), v)?;
    to_f32("f32 from &Numeric", f32::try_from(o.num()), v)?;
    to_f32("f32 from &NumericBuf", f32::try_from(&b), v)?;
    to_f32("f32 from NumericBuf", f32::try_from(b.clone()), v)?;
    to_f64("f64 from NumericBuf", f64::try_from(b), v)?;
    unchanged("value", &o)
}
fn into_float_n(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Large);
    check_into_float(s, c, &v)
}
fn into_float_h(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Huge);
    check_into_float(s, c, &v)
}
fn into_float_vast(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Vast);
    check_into_float(s, c, &v)
}
/// A float, or the exact midpoint of two, give or take a little.
fn into_float_near(s: &mut Src, c: &mut Ctx) -> Check {
    let single = s.flip();
    let (n, ulp) = if single {
        let b = s.upto(0x7f7f_fffe) as u32;
        let (f, g) = (f32::from_bits(b) as f64, f32::from_bits(b + 1) as f64);
        (exact(f), exact(g).sub(&exact(f)))
    } else {
        let f = match f64_src(s).abs() {
            f if f.is_finite() && f < f64::MAX => f,
            _ => 1.0,
        };
        let g = f64::from_bits(f.to_bits() + 1);
        (exact(f), exact(g).sub(&exact(f)))
    };
    let half = ulp.mul(&Num::int(5)).shift10(-1);
    let n = match s.upto(4) {
        0 => n,
        1 => n.add(&half),
        2 => n.add(&half).add(&half.shift10(-s.range(1, 40))),
        3 => n.add(&half).sub(&half.shift10(-s.range(1, 40))),
        // cut to a number of digits that still tells floats apart
        _ => {
            let p = s.range(9, 40);
            let a = n.adj().unwrap_or(0);
            n.add(&half).round(p - a, Rnd::HalfEven)
        }
    };
    let n = if s.flip() { n.neg() } else { n };
    let d = n.min_scale();
    if d > MAX_DSCALE {
        c.skipped = true;
        return Ok(());
    }
    let v = Val::V(n, d);
    check_into_float(s, c, &v)
}

pub const C11: Prop = Prop {
    id: "C11",
    rule: "the value converted is finite and not zero",
    groups: &[
        Group { name: "from-float", quick: 60_000, thorough: 1_500_000, f: check_from_float },
        Group { name: "from-float-locale", quick: 15_000, thorough: 300_000, f: from_float_locale },
        Group { name: "into-float-locale", quick: 10_000, thorough: 200_000, f: into_float_locale },
        Group { name: "into-float", quick: 60_000, thorough: 1_500_000, f: into_float_n },
        Group { name: "into-float-near", quick: 60_000, thorough: 1_500_000, f: into_float_near },
        Group { name: "into-float-huge", quick: 600, thorough: 15_000, f: into_float_h },
        Group { name: "into-float-vast", quick: 60, thorough: 1_200, f: into_float_vast },
    ],
};


pub const PROPS: &[&Prop] = &[&C10, &C11];
