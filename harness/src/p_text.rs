//! Text in and out: parsing, display, scientific notation.

use crate::common::*;
use oracle::big::Big;
use oracle::engine::{Check, Ctx, Group, Mix, Prop, Src};
use oracle::num::{Num, Val, MAX_DSCALE};
use pgnumeric::{NumericBuf, NumericParseError};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Empty,
    Invalid,
    Overflow,
}

fn kind(e: &NumericParseError) -> Option<Kind> {
    let of = |t: &str| t.parse::<NumericBuf>().err();
    if Some(e) == of("").as_ref() {
        Some(Kind::Empty)
    } else if Some(e) == of("x").as_ref() {
        Some(Kind::Invalid)
    } else if Some(e) == of("1e999999").as_ref() {
        Some(Kind::Overflow)
    } else {
        None
    }
}

/// A destination that has room for only so many bytes.
struct Narrow {
    text: String,
    room: usize,
    refused: bool,
    after: bool,
}
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        self.after |= self.refused;
        if self.text.len() + t.len() > self.room {
            self.refused = true;
            return Err(std::fmt::Error);
        }
        self.text += t;
        Ok(())
    }
}

/// Formats into a destination that is too small, that is just large enough, and in fields.
fn narrow(s: &mut Src, what: &str, want: &str, f: &dyn Fn(&mut Narrow) -> std::fmt::Result) -> Check {
    let len = want.len();
    let room = match s.upto(3) {
        0 => len,
        1 => len - 1,
        2 => s.upto(len as u64) as usize,
        _ => len - 1 - s.upto(9.min(len as u64 - 1)) as usize,
    };
    let mut w = Narrow { text: String::new(), room, refused: false, after: false };
    let r = f(&mut w);
    ensure(r.is_ok() == (room >= len), || format!("{} into {} bytes for {}: {:?}", what, room, len, r))?;
    ensure(want.starts_with(&w.text), || format!("{} into {} bytes left {:?} of {:?}", what, room, clip(&w.text), clip(want)))?;
    ensure(r.is_err() || w.text == want, || format!("{} into {} bytes gave {:?} for {:?}", what, room, clip(&w.text), clip(want)))?;
    ensure(!w.after, || format!("{} into {} bytes goes on after the destination failed", what, room))
}

/// What the text means: a value, or the kinds of error allowed.
fn meaning(text: &str) -> Result<Val, &'static [Kind]> {
    let b = text.as_bytes();
    let ws = |c: u8| matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0C);
    let mut i = 0;
    while i < b.len() && ws(b[i]) {
        i += 1;
    }
    if i == b.len() {
        return Err(&[Kind::Empty]);
    }
    let mut j = b.len();
    while ws(b[j - 1]) {
        j -= 1;
    }
    let t = &b[i..j];
    if t.eq_ignore_ascii_case(b"nan") {
        return Ok(Val::NaN);
    }
    let (neg, t) = match t[0] {
        b'-' => (true, &t[1..]),
        b'+' => (false, &t[1..]),
        _ => (false, t),
    };
    let digits = |t: &[u8]| t.iter().take_while(|c| c.is_ascii_digit()).count();
    let ni = digits(t);
    let (int, mut t) = t.split_at(ni);
    let mut frac: &[u8] = b"";
    if t.first() == Some(&b'.') {
        let nf = digits(&t[1..]);
        frac = &t[1..1 + nf];
        t = &t[1 + nf..];
    }
    if int.is_empty() && frac.is_empty() {
        return Err(&[Kind::Invalid]);
    }
    let mut exp: i64 = 0;
    let mut exp_too_big = false;
    if matches!(t.first(), Some(b'e' | b'E')) {
        t = &t[1..];
        let eneg = t.first() == Some(&b'-');
        if matches!(t.first(), Some(b'+' | b'-')) {
            t = &t[1..];
        }
        let ne = digits(t);
        if ne == 0 {
            return Err(&[Kind::Invalid]);
        }
        for c in &t[..ne] {
            exp = (exp * 10 + (c - b'0') as i64).min(1 << 40);
        }
        // the documented limit on exponents: about half of what an i32 holds
        exp_too_big = exp >= (i32::MAX / 2) as i64;
        if eneg {
            exp = -exp;
        }
        t = &t[ne..];
    }
    if !t.is_empty() {
        return Err(if exp_too_big { &[Kind::Invalid, Kind::Overflow] } else { &[Kind::Invalid] });
    }
    if exp_too_big {
        return Err(&[Kind::Overflow]);
    }
    let mut all = int.to_vec();
    all.extend_from_slice(frac);
    let n = Num::new(neg, Big::from_digits(&all), exp - frac.len() as i64);
    let v = Val::V(n, (frac.len() as i64 - exp).max(0));
    if v.fits() {
        Ok(v)
    } else {
        Err(&[Kind::Overflow])
    }
}

fn check_parse(text: &str, c: &mut Ctx) -> Check {
    c.text("text", &format!("{:?}", text));
    let want = meaning(text);
    let got = text.parse::<NumericBuf>();
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            c.nontrivial();
            c.label("accepted");
            label_val(c, w);
            expect("parse", g, w)
        }
        (Err(e), Err(ks)) => {
            let k = kind(e);
            match k {
                Some(Kind::Empty) => c.label("rejected as empty"),
                Some(Kind::Invalid) => c.label("rejected as invalid"),
                Some(Kind::Overflow) => {
                    c.nontrivial();
                    c.label("rejected as overflow")
                }
                None => {}
            }
            if text.trim().len() > 2 {
                c.nontrivial();
            }
            ensure(k.map_or(false, |k| ks.contains(&k)), || {
                format!("parse: error \"{}\" ({:?}), want one of {:?}", e, k, ks)
            })
        }
        (Ok(g), Err(ks)) => Err(format!(
            "parse: accepted as {}, want an error {:?}",
            read(g).map_or_else(|e| e, |v| v.show()),
            ks
        )),
        (Err(e), Ok(w)) => Err(format!("parse: rejected with \"{}\", want {}", e, w.show())),
    }
}

fn digits_text(s: &mut Src, n: usize) -> String {
    if n <= 12 {
        (0..n).map(|_| (b'0' + s.pick(&[0u8, 1, 9, 5, 4, 2, 3, 6, 7, 8])) as char).collect()
    } else {
        let mode = s.upto(3);
        let mut m = Mix::new(s.u64());
        (0..n)
            .map(|_| {
                let r = m.next();
                match mode {
                    0 => (b'0' + (r % 10) as u8) as char,
                    1 => if r % 16 == 0 { (b'0' + ((r >> 8) % 10) as u8) as char } else { '0' },
                    2 => if r % 16 == 0 { (b'0' + ((r >> 8) % 10) as u8) as char } else { '9' },
                    _ => ['0', '9', '5', '4'][(r % 4) as usize],
                }
            })
            .collect()
    }
}

const WS: &[&str] = &["", " ", "\t", "\n", "\r", "\x0C", "  \t\n"];

fn literal(s: &mut Src) -> String {
    let mut t = String::new();
    t += s.pick(WS);
    t += s.pick(&["", "-", "+"]);
    let ni = match s.weighted(&[5, 4, 3, 1]) {
        0 => s.upto(5),
        1 => s.upto(20),
        2 => s.upto(300),
        _ => s.upto(2000),
    } as usize;
    t += &digits_text(s, ni);
    if s.flip() {
        t.push('.');
        let nf = match s.weighted(&[5, 4, 3, 1]) {
            0 => s.upto(5),
            1 => s.upto(20),
            2 => s.upto(300),
            _ => s.upto(2000),
        } as usize;
        t += &digits_text(s, nf);
    }
    if s.chance(2, 5) {
        t += s.pick(&["e", "E"]);
        t += s.pick(&["", "+", "-"]);
        t += s.pick(&["", "0", "00"]);
        t += &match s.weighted(&[6, 3, 2, 1, 1]) {
            0 => s.upto(20).to_string(),
            1 => s.upto(1100).to_string(),
            2 => s.pick(&[131072u64, 131071, 131073, 131068, 16383, 16384, 16382, 16380, 131070]).to_string(),
            3 => s.upto(140_000).to_string(),
            _ => s
                .pick(&[
                    1073741822u64, 1073741823, 1073741824, 2147483647, 2147483648, 4294967296, 9999999999,
                    10000000000, 99999999999, 18446744073709551615,
                ])
                .to_string(),
        };
    }
    t += s.pick(WS);
    t
}

fn parse_valid(s: &mut Src, c: &mut Ctx) -> Check {
    let t = literal(s);
    check_parse(&t, c)
}

/// Literals with a few edits, and strings over the alphabet of literals.
fn mutant(s: &mut Src) -> String {
    const ALPHA: &[char] = &[
        '0', '1', '9', '.', 'e', 'E', '+', '-', ' ', '\t', 'n', 'a', 'N', 'A', 'i', 'f', '_', ',', '\0', 'x', '\x0B',
        '\u{a0}', '\u{ff11}', '\u{2212}', '\u{3000}', 'é', '/', ':', '\x7f', '\x1c',
    ];
    if s.flip() {
        let n = s.upto(8);
        (0..n).map(|_| s.pick(ALPHA)).collect::<String>()
    } else {
        let mut ch: Vec<char> = match s.upto(3) {
            0 => s.pick(&["nan", "NaN", "NAN", "nAn", "  NaN ", "NaN\n", "inf", "Infinity", "-nan", "+NaN", "nan1", "na"]).chars().collect(),
            _ => {
                let l = literal(s);
                l.chars().take(200).collect()
            }
        };
        for _ in 0..=s.upto(2) {
            let i = s.upto(ch.len() as u64) as usize;
            match s.upto(2) {
                0 => ch.insert(i, s.pick(ALPHA)),
                1 if i < ch.len() => {
                    ch.remove(i);
                }
                _ if i < ch.len() => ch[i] = s.pick(ALPHA),
                _ => {}
            }
        }
        ch.into_iter().collect()
    }
}
fn parse_mutant(s: &mut Src, c: &mut Ctx) -> Check {
    let t = mutant(s);
    check_parse(&t, c)
}

pub fn any_text(s: &mut Src) -> String {
    if s.flip() {
        literal(s)
    } else {
        mutant(s)
    }
}

/// Literals around the limits of the format: value overflow, scale overflow, padding zeros.
fn parse_limits(s: &mut Src, c: &mut Ctx) -> Check {
    let sign = s.pick(&["", "-"]);
    let lead = s.pick(&[1u8, 9, 5, 0]);
    let k = s.around(-3, 4);
    let t = match s.upto(6) {
        // many integer digits, written out
        0 => {
            let zeros = s.pick(&[0usize, 1, 3, 4, 5, 9]);
            let n = (131072 + k - 1) as usize;
            format!("{}{}{}{}", sign, "0".repeat(zeros), lead, digits_text(s, n - 1))
        }
        // by exponent
        1 => format!("{}{}.{}e{}", sign, lead, digits_text(s, 3), 131071 + k),
        // many fraction digits
        2 => {
            let n = (16383 + k) as usize;
            format!("{}{}.{}", sign, lead, digits_text(s, n))
        }
        3 => format!("{}{}e-{}", sign, lead, 16383 + k),
        // the exponent undoes the length
        4 => {
            let z = s.range(1, 20000);
            format!("{}0.{}{}e{}", sign, "0".repeat(z as usize), lead, z + s.pick(&[0, 1, 131070, 131071, 131072, 131073, -16000]))
        }
        5 => {
            let z = s.range(1, 140_000);
            format!("{}{}{}e-{}", sign, lead, "0".repeat(z as usize), z + s.pick(&[0, 1, 16382, 16383, 16384]))
        }
        // zeros in every disguise
        _ => format!(
            "{}0{}e{}{}",
            sign,
            s.pick(&["", ".", ".0", ".000", "0"]),
            s.pick(&["", "-"]),
            s.pick(&[0u64, 5, 16383, 16384, 16380, 131072, 200000, 1073741822])
        ),
    };
    check_parse(&t, c)
}

fn display(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let v = any(s, size);
    note(c, "value", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_nan() && !v.is_zero();
    let o = operand(s, &v);
    let want = v.text();
    let a = o.num().to_string();
    ensure(a == want, || format!("display: got {:?}, want {:?}", clip(&a), clip(&want)))?;
    let buf = o.buf();
    let b = format!("{}", buf);
    ensure(b == want, || format!("display of the owned value: got {:?}, want {:?}", clip(&b), clip(&want)))?;
    narrow(s, "display", &want, &|w| write!(w, "{}", o.num()))?;
    narrow(s, "display of the owned value", &want, &|w| write!(w, "{}", buf))?;
    let width = s.upto(60) as usize;
    let field = format!("{:>w$}{:<w$}", o.num(), buf, w = width);
    ensure(field.replace(' ', "") == format!("{}{}", want, want), || format!("display in a field of {}: {:?}", width, clip(&field)))?;
    // reading it back gives the same value and scale
    match a.parse::<NumericBuf>() {
        Ok(p) => {
            expect("parse of display", &p, &v)?;
            ensure(p == buf, || "parse of display does not compare equal".into())?;
        }
        Err(e) => return Err(format!("display {:?} does not parse: {}", clip(&a), e)),
    }
    Ok(())
}

fn clip(t: &str) -> String {
    if t.len() > 300 {
        format!("{}...{}", &t[..200], &t[t.len() - 80..])
    } else {
        t.to_string()
    }
}

fn display_all(s: &mut Src, c: &mut Ctx) -> Check {
    display(s, c, Size::Large)
}
fn display_huge(s: &mut Src, c: &mut Ctx) -> Check {
    display(s, c, Size::Huge)
}
fn display_vast(s: &mut Src, c: &mut Ctx) -> Check {
    display(s, c, Size::Vast)
}

fn sci(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let mut v = any(s, size);
    // many exponents with few digits, too
    if s.chance(1, 3) {
        let e = match s.upto(3) {
            0 => s.around(-1100, 1100),
            1 => s.around(-16000, 16000),
            2 => s.range(-1010, -990),
            _ => s.around(-70, 70),
        };
        let n = Num::int(s.around(-99999, 99999) as i128).shift10(e);
        let m = n.min_scale();
        if m <= MAX_DSCALE {
            v = Val::V(n, m);
        }
    }
    note(c, "value", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_nan() && !v.is_zero();
    let want = match &v {
        Val::NaN => "NaN".to_string(),
        Val::V(n, _) if n.is_zero() => "0e+00".to_string(),
        Val::V(n, _) => {
            let r = n.reduced();
            let d = String::from_utf8(r.mag.to_digits()).unwrap();
            let e = r.adj().unwrap();
            let mut t = String::new();
            if r.neg {
                t.push('-');
            }
            t += &d[..1];
            if d.len() > 1 {
                t.push('.');
                t += &d[1..];
            }
            t + &format!("e{}{:02}", if e < 0 { '-' } else { '+' }, e.abs())
        }
    };
    if let Some(e) = v.is_nan().then(|| 0).or(v.is_zero().then(|| 0)).or_else(|| v.num().adj()) {
        c.label_if(e < -1000, "exponent below -1000");
        c.label_if(e > 1000, "exponent above 1000");
    }
    let o = operand(s, &v);
    let a = format!("{:e}", o.num());
    ensure(a == want, || format!("{{:e}}: got {:?}, want {:?}", clip(&a), clip(&want)))?;
    let up = want.replace('e', "E");
    let b = format!("{:E}", o.num());
    ensure(b == up, || format!("{{:E}}: got {:?}, want {:?}", clip(&b), clip(&up)))?;
    let buf = o.buf();
    let (x, y) = (format!("{:e}", buf), format!("{:E}", buf));
    ensure(x == want && y == up, || format!("owned {{:e}}/{{:E}}: got {:?} {:?}, want {:?}", clip(&x), clip(&y), clip(&want)))?;
    narrow(s, "{:e}", &want, &|w| write!(w, "{:e}", o.num()))?;
    narrow(s, "{:E}", &up, &|w| write!(w, "{:E}", buf))?;
    // it is a literal of an equal value
    match a.parse::<NumericBuf>() {
        Ok(p) => ensure(read(&p)?.order(&v) == std::cmp::Ordering::Equal, || format!("{:?} reads back as another value", clip(&a))),
        Err(e) => Err(format!("{:?} does not parse: {}", clip(&a), e)),
    }
}

fn sci_small(s: &mut Src, c: &mut Ctx) -> Check {
    sci(s, c, Size::Medium)
}
fn sci_huge(s: &mut Src, c: &mut Ctx) -> Check {
    sci(s, c, Size::Huge)
}
fn sci_vast(s: &mut Src, c: &mut Ctx) -> Check {
    sci(s, c, Size::Vast)
}

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "C01",
        rule: "the text is accepted, or rejected for overflow, or rejected with more than two characters",
        groups: &[
            Group { name: "literal", quick: 160_000, thorough: 4_000_000, f: parse_valid },
            Group { name: "mutant", quick: 240_000, thorough: 6_000_000, f: parse_mutant },
            Group { name: "limits", quick: 2_000, thorough: 60_000, f: parse_limits },
        ],
    },
    &Prop {
        id: "C02",
        rule: "the value is finite and not zero",
        groups: &[
            Group { name: "display", quick: 120_000, thorough: 3_000_000, f: display_all },
            Group { name: "display-huge", quick: 1_500, thorough: 40_000, f: display_huge },
            Group { name: "display-vast", quick: 200, thorough: 5_000, f: display_vast },
        ],
    },
    &Prop {
        id: "C16",
        rule: "the value is finite and not zero",
        groups: &[
            Group { name: "sci", quick: 100_000, thorough: 2_500_000, f: sci_small },
            Group { name: "sci-huge", quick: 600, thorough: 15_000, f: sci_huge },
            Group { name: "sci-vast", quick: 200, thorough: 5_000, f: sci_vast },
        ],
    },
];
