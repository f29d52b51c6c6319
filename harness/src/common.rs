//! Generators of numerics, ways of making them, and comparisons with the model.

use oracle::big::Big;
use oracle::engine::{guarded, hash64, Check, Ctx, Mix, Panic, Src};
use oracle::layout::{decode_canonical, encode, Aligned, Form, Varlen};
use oracle::num::{Num, Rnd, Val, MAX_DSCALE};
use pgnumeric::{Numeric, NumericBuf};

pub const VL: Varlen = if cfg!(feature = "be") { Varlen::Big } else { Varlen::Little };

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Size {
    Small,
    Medium,
    Large,
    /// weights up to the limits of the format
    Huge,
    /// as many digits as the format holds, too
    Vast,
}

/// One base-10000 digit, interesting ones often.
pub fn group(s: &mut Src) -> u16 {
    match s.weighted(&[4, 2, 4, 6]) {
        0 => s.pick(&[0, 1, 9999]),
        1 => s.pick(&[5000, 4999, 5001, 2, 10, 100, 1000, 9990, 9900, 9000, 9998, 500, 50, 5]),
        2 => s.upto(99) as u16 * if s.flip() { 100 } else { 1 },
        _ => s.upto(9999) as u16,
    }
}

/// `n` base-10000 digits; the first is not zero.
pub fn groups(s: &mut Src, n: usize) -> Vec<u16> {
    let mut g = Vec::with_capacity(n);
    if n <= 7 {
        for _ in 0..n {
            g.push(group(s));
        }
    } else {
        let mode = s.upto(6);
        let mut m = Mix::new(s.u64());
        let mut run = 0u64;
        let mut cur = 0u16;
        for _ in 0..n {
            let r = m.next();
            let v = match mode {
                0 => (r % 10000) as u16,
                // runs of nines, zeros or anything
                1 | 2 => {
                    if run == 0 {
                        run = 1 + (r >> 8) % 12;
                        cur = match r % 4 {
                            0 => 0,
                            1 | 2 => 9999,
                            _ => ((r >> 20) % 10000) as u16,
                        };
                    }
                    run -= 1;
                    cur
                }
                // mostly zero, mostly nines
                3 => if r % 8 == 0 { ((r >> 8) % 10000) as u16 } else { 0 },
                4 => if r % 8 == 0 { ((r >> 8) % 10000) as u16 } else { 9999 },
                5 => 9999,
                // small digits and neighbours of a power
                _ => [1, 0, 9999, 9998, 5000, 4999, 1000, 10][(r % 8) as usize],
            };
            g.push(v);
        }
    }
    if g.first() == Some(&0) {
        g[0] = s.pick(&[1, 9999, 5000, 10, 1234, 999, 2]);
    }
    g
}

/// A finite value whose digits and scale are drawn up to `max`.
pub fn finite(s: &mut Src, max: Size) -> Val {
    let k = match max {
        Size::Small => s.weighted(&[3, 7]),
        Size::Medium => s.weighted(&[2, 6, 4]),
        Size::Large => s.weighted(&[2, 6, 4, 1]),
        Size::Huge => s.weighted(&[2, 6, 4, 1, 2]),
        Size::Vast => s.weighted(&[1, 2, 1, 1, 1, 12]),
    };
    let (n, dscale) = match k {
        5 => vast(s),
        0 => {
            // small decimals, powers of ten and their neighbours, zeros with a scale
            match s.upto(5) {
                0 => (Num::int(s.around(-20, 20) as i128), 0),
                1 => {
                    let d = s.range(0, 4);
                    (Num::int(s.around(-2000, 2000) as i128).shift10(-d), d)
                }
                2 => (Num::zero(), s.range(0, 5)),
                3 => {
                    let e = s.around(-12, 12);
                    let a = Num::pow10(e);
                    let f = s.range((-e).max(0), 20);
                    let v = match s.upto(2) {
                        0 => a,
                        1 => a.sub(&Num::pow10(-f)),
                        _ => a.add(&Num::pow10(-f)),
                    };
                    let v = if s.flip() { v.neg() } else { v };
                    (v, f)
                }
                4 => {
                    let e = s.around(-10, 10);
                    let v = Num::int(s.pick(&[5, 15, 25, 45, 49, 51, 95, 495, 505, 995])).shift10(e);
                    let v = if s.flip() { v.neg() } else { v };
                    let d = v.min_scale();
                    (v, d + s.upto(2) as i64)
                }
                _ => {
                    let b = s.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
                    let v = Num::new(false, Big::from_u128(2).pow_u(b as u64), 0)
                        .add(&Num::int(s.around(-2, 2) as i128));
                    (if s.flip() { v.neg() } else { v }, 0)
                }
            }
        }
        _ => {
            let neg = s.flip();
            let (maxn, wlo, whi) = match k {
                1 => (7, -4, 6),
                2 => (80, -70, 80),
                3 => (800, -300, 800),
                _ => (900, -4000, 32767),
            };
            let ng = match k {
                1 => s.range(1, maxn),
                _ => {
                    if s.chance(1, 3) {
                        s.range(1, 3)
                    } else {
                        s.range(1, maxn)
                    }
                }
            };
            let g = groups(s, ng as usize);
            let w = match (k, s.upto(5)) {
                (1, _) => s.around(wlo, whi),
                (4, 0) => s.range(32760, 32767),
                (4, 1) => s.pick(&[-4095, -4090, -4000, -1000, -300, -251, -250]),
                // around the limits of the short storage form
                (_, 2) => s.pick(&[63, 64, 62, 65, -64, -65, -63, -66]),
                _ => s.around(wlo, whi),
            };
            let v = Num::from_groups(neg, w, &g);
            // cut within the last digit sometimes
            let v = if v.min_scale() > 0 && s.flip() {
                v.round(v.min_scale() - s.range(0, 3), Rnd::Trunc)
            } else {
                v
            };
            let v = if v.min_scale() > MAX_DSCALE { v.round(MAX_DSCALE, Rnd::Trunc) } else { v };
            let m = v.min_scale();
            let d = match s.weighted(&[6, 3, 2, 1]) {
                0 => m,
                1 => m + s.range(1, 9),
                2 => s.pick(&[63, 64, 62, 16, 1000, 999, 1001]),
                _ => match k {
                    4 => s.pick(&[16383, 16382, 16380, 5000]),
                    1 => 80,
                    _ => m + s.range(1, 300),
                },
            };
            (v, d.max(m).min(MAX_DSCALE))
        }
    };
    Val::V(n, dscale)
}

/// A value of up to 73 KB of stored digits.
fn vast(s: &mut Src) -> (Num, i64) {
    // 65535 bytes are 32763 digits in the short form and 32762 in the long one
    let ng = match s.upto(3) {
        0 => s.range(900, 5000),
        1 => s.pick(&[1024, 2048, 4096, 8192, 16384, 32768]) + s.around(-8, 8),
        2 => s.range(900, 36_864),
        _ => s.pick(&[36_864, 36_863, 32_764, 32_763, 32_762, 16_383, 8191, 2047, 1021, 32_765]),
    };
    let g = groups(s, ng as usize);
    // the last digit is no lower than the lowest place of the format, the first no higher
    let (lo, hi) = ((ng - 1 - 4096).max(-4096), 32_767);
    let w = match s.upto(3) {
        0 => lo,
        1 => hi,
        2 => (ng - 1).min(hi),
        _ => s.range(lo, hi),
    };
    let v = Num::from_groups(s.flip(), w, &g);
    let v = if v.min_scale() > MAX_DSCALE { v.round(MAX_DSCALE, Rnd::Trunc) } else { v };
    let m = v.min_scale();
    let d = match s.upto(2) {
        0 => m,
        1 => (m + s.range(1, 9)).min(MAX_DSCALE),
        _ => s.range(m, MAX_DSCALE),
    };
    (v, d)
}

/// Finite or NaN.
pub fn any(s: &mut Src, max: Size) -> Val {
    if s.chance(1, 25) {
        Val::NaN
    } else {
        finite(s, max)
    }
}

/// A second operand: often close to, or a shifted copy of, the first.
pub fn related(s: &mut Src, a: &Val, max: Size) -> Val {
    if a.is_nan() || !s.chance(2, 5) {
        return any(s, max);
    }
    let (n, d) = (a.num(), a.dscale());
    let v = match s.upto(5) {
        0 => n.clone(),
        1 => n.neg(),
        2 => n.add(&Num::pow10(-s.range(0, d.min(40)))),
        3 => n.neg().add(&Num::pow10(-s.range(0, d.min(40)))),
        4 => n.shift10(s.around(-8, 8)),
        _ => {
            // the same leading digits, then something else
            let f = finite(s, Size::Small);
            n.add(&f.num().shift10(n.adj().unwrap_or(0) - s.range(3, 30)))
        }
    };
    let m = v.min_scale();
    if m > MAX_DSCALE {
        return finite(s, Size::Small);
    }
    let d = match s.upto(2) {
        0 => m,
        1 => m.max(d),
        _ => (m + s.range(0, 12)).min(MAX_DSCALE),
    };
    let v = Val::V(v, d);
    if v.fits() {
        v
    } else {
        a.clone()
    }
}

pub fn val_id(v: &Val) -> u64 {
    match v {
        Val::NaN => 1,
        Val::V(n, d) => {
            let r = n.reduced();
            let mut b = Vec::with_capacity(r.mag.limbs().len() * 4);
            for l in r.mag.limbs() {
                b.extend_from_slice(&l.to_le_bytes());
            }
            hash64(&[&b, &r.exp.to_le_bytes(), &d.to_le_bytes(), &[r.neg as u8]])
        }
    }
}

pub fn note(c: &mut Ctx, name: &str, v: &Val) {
    let id = val_id(v);
    c.input(name, &|| v.show(), id);
}

pub fn label_val(c: &mut Ctx, v: &Val) {
    match v {
        Val::NaN => c.label("NaN"),
        Val::V(n, d) => {
            c.label_if(n.is_zero(), "zero");
            c.label_if(n.neg, "negative");
            c.label_if(*d > 0, "has a scale");
            c.label_if(n.mag.ndec() > 32, "over 32 digits");
            c.label_if(n.mag.ndec() > 300, "over 300 digits");
            c.label_if(n.mag.ndec() > 4000, "over 4000 digits");
            let (w, _) = n.groups();
            c.label_if(!oracle::layout::can_be_short(w, *d), "long header");
            c.label_if(w > 32000, "near the top weight");
        }
    }
}

// ---------------------------------------------------------------- making values

/// A numeric held in one of the ways a program can hold one.
pub struct Operand {
    held: Held,
    before: Vec<u8>,
}

enum Held {
    Owned(NumericBuf),
    Bytes(Aligned),
}

impl Operand {
    pub fn num(&self) -> &Numeric {
        match &self.held {
            Held::Owned(b) => b.as_numeric(),
            Held::Bytes(a) => unsafe { Numeric::from_bytes_unchecked(a.bytes()) },
        }
    }
    pub fn buf(&self) -> NumericBuf {
        self.num().to_owned()
    }
}

/// Calls that borrow an operand leave it alone.
pub fn unchanged(name: &str, o: &Operand) -> Check {
    ensure(o.num().as_bytes() == &o.before[..], || {
        format!("operand {} was changed by a call that borrows it: {} became {}", name, hex(&o.before), hex(o.num().as_bytes()))
    })
}

pub fn from_bytes(v: &Val, form: Form) -> NumericBuf {
    let a = Aligned::new(&encode(v, form, VL), 0);
    unsafe { Numeric::from_bytes_unchecked(a.bytes()) }.to_owned()
}

/// An owned numeric equal to `v`, made in one of several ways.
pub fn build(s: &mut Src, v: &Val) -> NumericBuf {
    make(s.upto(WAYS), v)
}

pub const WAYS: u64 = 13;

/// An owned numeric equal to `v`, made in the given way. They differ in what lies around the
/// digits in the buffer, which `clone` does not keep.
pub fn make(how: u64, v: &Val) -> NumericBuf {
    let short = v.is_nan() || v.num().mag.ndec() + v.num().exp.unsigned_abs() as usize <= 4000;
    let made = guarded(|| match how {
        1 => from_bytes(v, Form::Long),
        2 if short => v.text().parse().unwrap(),
        3 => -(-from_bytes(v, Form::Canonical)),
        4 => from_bytes(v, Form::Canonical).clone(),
        5 => {
            let mut b = from_bytes(v, Form::Canonical);
            b.negate_mut();
            b.negate_mut();
            b
        }
        6 => {
            let mut b = from_bytes(v, Form::Canonical);
            if !v.is_nan() && v.dscale() <= 1000 {
                b.round_mut(v.dscale() as i32);
            }
            b
        }
        7 => {
            let mut b = from_bytes(v, Form::Canonical);
            if !v.is_nan() && v.dscale() <= 1000 {
                b.trunc_mut(v.dscale() as i32);
            }
            b
        }
        // carried out of the top digit: the number takes up its spare digit
        8 => match v {
            Val::V(n, d) if *d < 900 && !n.is_zero() && n.exp > -900 => {
                let t = n.sub(&Num::new(n.neg, Big::from_u128(4), -(*d + 1)));
                let mut b = from_bytes(&Val::V(t, *d + 1), Form::Canonical);
                b.round_mut(*d as i32);
                b
            }
            _ => from_bytes(v, Form::Canonical),
        },
        9 if !v.is_nan() && !v.is_neg() => {
            let Val::V(n, d) = v else { unreachable!() };
            from_bytes(&Val::V(n.neg(), *d), Form::Canonical).abs()
        }
        // cut off a longer number, whose digits stay behind in the buffer
        10 => match v {
            Val::V(n, d) if *d < 900 && !n.is_zero() && n.exp > -900 => {
                let t = n.add(&Num::new(n.neg, Big::from_u128(98_765_432_199), -(*d + 11)));
                let mut b = from_bytes(&Val::V(t, *d + 11), Form::Canonical);
                b.trunc_mut(*d as i32);
                b
            }
            _ => from_bytes(v, Form::Canonical),
        },
        // leading zeros dropped, so that the digits start late in the buffer
        11 if short && !v.is_nan() => {
            let t = v.text();
            let (sign, t) = if t.starts_with('-') { ("-", &t[1..]) } else { ("", &t[..]) };
            format!("{}000000000000{}", sign, t).parse().unwrap()
        }
        12 if !v.is_nan() && short && v.num().adj().unwrap_or(0) < 4000 => {
            let big = from_bytes(&Val::V(Num::new(v.num().neg, Big::from_u128(77), v.num().adj().unwrap_or(0).max(0) + 9), 0), Form::Canonical);
            &(&from_bytes(v, Form::Canonical) + &big) - &big
        }
        // carried out of the top digit, then cut
        13 => match v {
            Val::V(n, d) if *d < 900 && !n.is_zero() && n.exp > -900 => {
                let t = n.sub(&Num::new(n.neg, Big::from_u128(4), -(*d + 9)));
                let mut b = from_bytes(&Val::V(t, *d + 9), Form::Canonical);
                b.round_mut(*d as i32 + 5);
                b.trunc_mut(*d as i32);
                b.negate_mut();
                b.abs_mut();
                if n.neg {
                    b.negate_mut();
                }
                b
            }
            _ => from_bytes(v, Form::Canonical),
        },
        _ => from_bytes(v, Form::Canonical),
    });
    // a route that is broken is another property's business
    match made {
        Ok(b) if read(&b).map_or(false, |r| r.same(v)) => b,
        _ => from_bytes(v, Form::Canonical),
    }
}

/// An operand equal to `v`, owned or borrowed from raw bytes.
pub fn operand(s: &mut Src, v: &Val) -> Operand {
    let held = match s.upto(3) {
        2 => Held::Bytes(Aligned::new(&encode(v, Form::Canonical, VL), s.pick(&[0, 4, 2, 6]))),
        3 => Held::Bytes(Aligned::new(&encode(v, Form::Long, VL), s.pick(&[0, 4, 2, 6]))),
        _ => Held::Owned(build(s, v)),
    };
    let mut o = Operand { held, before: vec![] };
    o.before = o.num().as_bytes().to_vec();
    o
}

// ---------------------------------------------------------------- judging

/// What a numeric holds, from its bytes alone; an error if they are not in stored form.
pub fn read(n: &Numeric) -> Result<Val, String> {
    decode_canonical(n.as_bytes(), VL)
}

pub fn expect(what: &str, got: &Numeric, want: &Val) -> Check {
    match read(got) {
        Ok(v) if v.same(want) => Ok(()),
        Ok(v) => Err(differ(what, &v, want)),
        Err(e) => Err(format!("{}: malformed result: {} (bytes {})", what, e, hex(got.as_bytes()))),
    }
}

fn cut(s: String) -> String {
    if s.len() > 700 {
        format!("{}...{}", &s[..500], &s[s.len() - 150..])
    } else {
        s
    }
}

pub fn differ(what: &str, got: &Val, want: &Val) -> String {
    format!("{}: got {}, want {}", what, cut(got.show()), cut(want.show()))
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 48 {
        s += &format!("... {} bytes", b.len());
    }
    s
}

/// `want`, or None when it does not fit the format.
pub fn expect_opt(what: &str, got: Option<NumericBuf>, want: &Val) -> Check {
    match (got, want.fits()) {
        (Some(g), true) => expect(what, &g, want),
        (None, false) => Ok(()),
        (None, true) => Err(format!("{}: returned None, want {}", what, cut(want.show()))),
        (Some(g), false) => Err(format!(
            "{}: must overflow ({}), returned {}",
            what,
            cut(want.show()),
            read(&g).map_or_else(|e| e, |v| cut(v.show()))
        )),
    }
}

pub fn expect_none(what: &str, got: Option<NumericBuf>) -> Check {
    match got {
        None => Ok(()),
        Some(g) => Err(format!("{}: want None, returned {}", what, read(&g).map_or_else(|e| e, |v| cut(v.show())))),
    }
}

pub const OVERFLOW: &str = "value overflows numeric format";
pub const DIV_ZERO: &str = "attempt to divide by zero";

/// The call must panic with exactly this message.
pub fn expect_panic<T>(what: &str, r: Result<T, Panic>, msg: &str) -> Check {
    match r {
        Ok(_) => Err(format!("{}: did not panic, want panic \"{}\"", what, msg)),
        Err(p) if p.msg.contains(msg) => Ok(()),
        Err(p) => Err(format!("{}: panicked with \"{}\" at {}, want \"{}\"", what, p.msg, p.loc, msg)),
    }
}

pub fn no_panic<T>(what: &str, r: Result<T, Panic>) -> Result<T, String> {
    r.map_err(|p| format!("{}: unexpected panic \"{}\" at {}", what, p.msg, p.loc))
}

/// A result that either fits and must equal `want`, or must panic with the overflow message.
pub fn expect_or_overflow(what: &str, got: Result<NumericBuf, Panic>, want: &Val) -> Check {
    if want.fits() {
        expect(what, &no_panic(what, got)?, want)
    } else {
        expect_panic(what, got, OVERFLOW)
    }
}

pub fn ensure(c: bool, m: impl FnOnce() -> String) -> Check {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
