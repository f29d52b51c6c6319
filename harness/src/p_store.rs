//! The stored form, serialisation, hostile bytes, type modifiers.

use crate::common::*;
use oracle::engine::{guarded, Check, Ctx, Group, Mix, Prop, Src};
use oracle::layout::{decode_canonical, decode_lenient, encode, Aligned, Form};
use oracle::num::{Num, Rnd, Val, MAX_DSCALE};
use pgnumeric::{Numeric, NumericBuf, Typmod};
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::collections::BTreeMap;
use std::collections::HashMap;

// ---------------------------------------------------------------- the stored form

fn same_bytes(what: &str, got: &[u8], want: &[u8]) -> Check {
    ensure(got == want, || format!("{}: stored as {}, want {}", what, hex(got), hex(want)))
}

fn facts(what: &str, n: &Numeric, v: &Val) -> Check {
    ensure(n.is_nan() == v.is_nan(), || format!("{}: is_nan() says {}", what, n.is_nan()))?;
    let neg = v.is_neg();
    ensure(n.is_negative() == neg, || format!("{}: is_negative() says {}", what, n.is_negative()))?;
    let pos = !v.is_nan() && !neg;
    ensure(n.is_positive() == pos, || format!("{}: is_positive() says {}", what, n.is_positive()))?;
    let sc = if let Val::V(_, d) = v { Some(*d as i32) } else { None };
    ensure(n.scale() == sc, || format!("{}: scale() is {:?}, want {:?}", what, n.scale(), sc))
}

fn check_form(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let v = any(s, size);
    note(c, "value", &v);
    label_val(c, &v);
    c.nontrivial = !v.is_zero() && !v.is_nan();
    let want = encode(&v, Form::Canonical, VL);
    // however the value comes about it is stored one way
    let b = build(s, &v);
    same_bytes("NumericBuf::as_bytes", b.as_bytes(), &want)?;
    same_bytes("Numeric::as_bytes", b.as_numeric().as_bytes(), &want)?;
    facts("NumericBuf", &b, &v)?;
    same_bytes("clone", b.clone().as_bytes(), &want)?;
    let r: &Numeric = b.as_ref();
    same_bytes("AsRef", r.as_bytes(), &want)?;
    let r: &Numeric = b.borrow();
    same_bytes("Borrow", r.as_bytes(), &want)?;
    let r: &Numeric = &b;
    same_bytes("Deref", r.as_bytes(), &want)?;
    let c1: Cow<Numeric> = Cow::from(&b);
    ensure(matches!(c1, Cow::Borrowed(_)), || "Cow::from(&NumericBuf) does not borrow".into())?;
    same_bytes("Cow::from(&NumericBuf)", c1.as_bytes(), &want)?;
    same_bytes("Cow::into_owned", c1.into_owned().as_bytes(), &want)?;
    let c2: Cow<Numeric> = Cow::from(b.clone());
    ensure(matches!(c2, Cow::Owned(_)), || "Cow::from(NumericBuf) does not own".into())?;
    same_bytes("Cow::from(NumericBuf)", c2.as_bytes(), &want)?;
    let c3: Cow<Numeric> = Cow::from(b.as_numeric());
    same_bytes("Cow::from(&Numeric)", c3.as_bytes(), &want)?;
    // the stored bytes mean the same value wherever they come from
    for (form, name) in [(Form::Canonical, "short where possible"), (Form::Long, "long")] {
        let mut raw = encode(&v, form, VL);
        if v.is_nan() {
            // "when the high bits indicate a NaN, the remaining bits are never examined"
            let k = s.upto(0x3FFF) as u16;
            raw[4..6].copy_from_slice(&(0xC000 | k).to_le_bytes());
            if form == Form::Long {
                let k = s.upto(0xFFFF) as u16;
                raw[6..8].copy_from_slice(&k.to_le_bytes());
            }
        }
        let a = Aligned::new(&raw, s.pick(&[0, 2, 4, 6]));
        let n = unsafe { Numeric::from_bytes_unchecked(a.bytes()) };
        facts(name, n, &v)?;
        same_bytes("as_bytes of a borrowed numeric", n.as_bytes(), &raw)?;
        same_bytes(&format!("to_owned of the {} form", name), n.to_owned().as_bytes(), &want)?;
        ensure(n == &*b && n.cmp(&b) == std::cmp::Ordering::Equal, || format!("the {} form does not compare equal", name))?;
        if want.len() < 3000 && v.fits() && (v.is_nan() || v.num().exp < 20000) {
            let (t, w) = (n.to_string(), v.text());
            ensure(t == w, || format!("the {} form reads as {}, want {}", name, t, w))?;
        }
    }
    Ok(())
}
fn form_n(s: &mut Src, c: &mut Ctx) -> Check {
    check_form(s, c, Size::Large)
}
fn form_h(s: &mut Src, c: &mut Ctx) -> Check {
    check_form(s, c, Size::Huge)
}
fn form_vast(s: &mut Src, c: &mut Ctx) -> Check {
    check_form(s, c, Size::Vast)
}
/// Headers at the limits of the two forms.
fn form_edges(s: &mut Src, c: &mut Ctx) -> Check {
    let w = s.pick(&[0, 1, -1, 62, 63, 64, 65, -63, -64, -65, -66, 127, 128, -128, -129, 32767, 32766, -4095, 255, 256]);
    let g = { let n = s.range(1, 3); groups(s, n as usize) };
    let n = Num::from_groups(s.flip(), w, &g);
    let d = s.pick(&[0, 1, 62, 63, 64, 65, 127, 128, 8191, 8192, 16382, 16383]).max(n.min_scale());
    if d > MAX_DSCALE {
        c.skipped = true;
        return Ok(());
    }
    let v = if s.chance(1, 8) { Val::V(Num::zero(), d) } else { Val::V(n, d) };
    note(c, "value", &v);
    c.nontrivial();
    let want = encode(&v, Form::Canonical, VL);
    let long = from_bytes(&v, Form::Long);
    same_bytes("read from the long form", long.as_bytes(), &want)?;
    facts("read from the long form", &long, &v)?;
    let short = from_bytes(&v, Form::Canonical);
    same_bytes("read from the canonical form", short.as_bytes(), &want)?;
    let m = long.negate();
    let nv = Val::V(v.num().neg(), d);
    same_bytes("negated", m.as_bytes(), &encode(&nv, Form::Canonical, VL))?;
    facts("negated", &m, &nv)?;
    if w < 300 {
        let p: NumericBuf = v.text().parse().map_err(|e| format!("parse: {}", e))?;
        same_bytes("parsed", p.as_bytes(), &want)?;
    }
    let z = NumericBuf::zero();
    same_bytes("NumericBuf::zero", z.as_bytes(), &encode(&Val::zero(), Form::Canonical, VL))?;
    same_bytes("Numeric::zero", Numeric::zero().as_bytes(), z.as_bytes())?;
    let q = NumericBuf::nan();
    same_bytes("NumericBuf::nan", q.as_bytes(), &encode(&Val::NaN, Form::Canonical, VL))?;
    same_bytes("Numeric::nan", Numeric::nan().as_bytes(), q.as_bytes())
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "the value is finite and not zero, or sits at a limit of a header field",
    groups: &[
        Group { name: "form", quick: 200_000, thorough: 4_000_000, f: form_n },
        Group { name: "form-edges", quick: 150_000, thorough: 3_000_000, f: form_edges },
        Group { name: "form-huge", quick: 4_000, thorough: 80_000, f: form_h },
        Group { name: "form-vast", quick: 600, thorough: 15_000, f: form_vast },
    ],
};

// ---------------------------------------------------------------- serde

#[derive(Serialize, Deserialize)]
struct Record {
    id: u16,
    price: NumericBuf,
    list: Vec<NumericBuf>,
    opt: Option<NumericBuf>,
    pair: (NumericBuf, i64),
    map: BTreeMap<String, NumericBuf>,
}


fn check_serde(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let v = any(s, size);
    let w = related(s, &v, size);
    note(c, "v", &v);
    note(c, "w", &w);
    label_val(c, &v);
    c.nontrivial = !v.is_zero() && !v.is_nan();
    let e2s = |what: &str, e: String| format!("{}: {}", what, e);
    let o = operand(s, &v);
    let (a, b) = (build(s, &v), build(s, &w));
    // JSON: the text as a string
    let text = v.text();
    let js = serde_json::to_string(&a).map_err(|e| e2s("to JSON", e.to_string()))?;
    ensure(js == format!("\"{}\"", text), || format!("JSON: got {}, want the string {}", js, text))?;
    let js2 = serde_json::to_string(o.num()).map_err(|e| e2s("Numeric to JSON", e.to_string()))?;
    ensure(js2 == js, || format!("JSON of a Numeric: got {}, want {}", js2, js))?;
    let back: NumericBuf = serde_json::from_str(&js).map_err(|e| e2s("from JSON", e.to_string()))?;
    expect("from JSON", &back, &v)?;
    let back: NumericBuf = serde_json::from_value(serde_json::Value::String(text.clone())).map_err(|e| e2s("from a JSON value", e.to_string()))?;
    expect("from a JSON value", &back, &v)?;
    let back: NumericBuf = serde_json::from_reader(js.as_bytes()).map_err(|e| e2s("from a JSON reader", e.to_string()))?;
    expect("from a JSON reader", &back, &v)?;
    let borrowed = serde_json::from_str::<&Numeric>(&js);
    ensure(borrowed.is_err(), || "a borrowed numeric was made from JSON text".into())?;
    // bincode: the stored bytes with a length before them
    let stored = encode(&v, Form::Canonical, VL);
    let mut want = (stored.len() as u64).to_le_bytes().to_vec();
    want.extend_from_slice(&stored);
    let bc = bincode::serialize(&a).map_err(|e| e2s("to bincode", e.to_string()))?;
    same_bytes("bincode of a NumericBuf", &bc, &want)?;
    let back: NumericBuf = bincode::deserialize(&bc).map_err(|e| e2s("from bincode", e.to_string()))?;
    expect("from bincode", &back, &v)?;
    let back: NumericBuf = bincode::deserialize_from(&bc[..]).map_err(|e| e2s("from a bincode reader", e.to_string()))?;
    expect("from a bincode reader", &back, &v)?;
    // (borrowing needs aligned bytes)
    let bc = Aligned::new(&bc, 0);
    let back: &Numeric = bincode::deserialize(bc.bytes()).map_err(|e| e2s("borrowed from bincode", e.to_string()))?;
    expect("borrowed from bincode", back, &v)?;
    ensure(back.as_bytes().as_ptr() == bc.bytes()[8..].as_ptr(), || "the borrowed numeric was copied".into())?;
    let vw = bincode::serialize(&(7u64, o.num(), true)).map_err(|e| e2s("to bincode", e.to_string()))?;
    let vw = Aligned::new(&vw, 0);
    let back: (u64, &Numeric, bool) = bincode::deserialize(vw.bytes()).map_err(|e| e2s("a field borrowed from bincode", e.to_string()))?;
    same_bytes("a field borrowed from bincode", back.1.as_bytes(), o.num().as_bytes())?;
    // both stored forms are accepted
    let long = encode(&v, Form::Long, VL);
    let mut raw = (long.len() as u64).to_le_bytes().to_vec();
    raw.extend_from_slice(&long);
    let back: NumericBuf = bincode::deserialize(&raw).map_err(|e| e2s("the long form from bincode", e.to_string()))?;
    expect("the long form from bincode", &back, &v)?;
    let raw = Aligned::new(&raw, 0);
    let back: &Numeric = bincode::deserialize(raw.bytes()).map_err(|e| e2s("the long form borrowed from bincode", e.to_string()))?;
    expect("the long form borrowed from bincode", &back.to_owned(), &v)?;
    // CBOR: another format that is not human readable
    let cb = serde_cbor::to_vec(&a).map_err(|e| e2s("to CBOR", e.to_string()))?;
    let back: NumericBuf = serde_cbor::from_slice(&cb).map_err(|e| e2s("from CBOR", e.to_string()))?;
    expect("from CBOR", &back, &v)?;
    let back: NumericBuf = serde_cbor::from_reader(&cb[..]).map_err(|e| e2s("from a CBOR reader", e.to_string()))?;
    expect("from a CBOR reader", &back, &v)?;
    let cb2 = serde_cbor::to_vec(&o.num()).map_err(|e| e2s("Numeric to CBOR", e.to_string()))?;
    let back: NumericBuf = serde_cbor::from_slice(&cb2).map_err(|e| e2s("from the CBOR of a Numeric", e.to_string()))?;
    expect("from the CBOR of a Numeric", &back, &v)?;
    // inside other things
    let rec = |a: &NumericBuf, b: &NumericBuf| Record {
        id: 7,
        price: a.clone(),
        list: vec![b.clone(), a.clone(), NumericBuf::zero()],
        opt: Some(b.clone()),
        pair: (a.clone(), -3),
        map: vec![("x".to_string(), a.clone()), ("yy".to_string(), b.clone())].into_iter().collect(),
    };
    let chk = |what: &str, r: Result<Record, String>| -> Check {
        let r = r.map_err(|e| e2s(what, e))?;
        expect(what, &r.price, &v)?;
        ensure(r.id == 7 && r.pair.1 == -3 && r.list.len() == 3 && r.map.len() == 2, || format!("{}: other fields changed", what))?;
        expect(what, &r.list[0], &w)?;
        expect(what, &r.list[1], &v)?;
        expect(what, &r.list[2], &Val::zero())?;
        expect(what, r.opt.as_ref().unwrap(), &w)?;
        expect(what, &r.pair.0, &v)?;
        expect(what, &r.map["x"], &v)?;
        expect(what, &r.map["yy"], &w)
    };
    let r = rec(&a, &b);
    chk("a record through JSON", serde_json::from_slice(&serde_json::to_vec(&r).unwrap()).map_err(|e| e.to_string()))?;
    chk("a record through bincode", bincode::deserialize(&bincode::serialize(&r).unwrap()).map_err(|e| e.to_string()))?;
    chk("a record through CBOR", serde_cbor::from_slice(&serde_cbor::to_vec(&r).unwrap()).map_err(|e| e.to_string()))?;
    // as keys
    let mut m: HashMap<NumericBuf, u8> = HashMap::new();
    m.insert(a.clone(), 1);
    m.insert(b.clone(), 2);
    let t: HashMap<NumericBuf, u8> =
        bincode::deserialize(&bincode::serialize(&m).unwrap()).map_err(|e| e2s("a map through bincode", e.to_string()))?;
    ensure(t == m, || "a map keyed by numerics changed through bincode".into())?;
    let t: HashMap<NumericBuf, u8> =
        serde_json::from_str(&serde_json::to_string(&m).unwrap()).map_err(|e| e2s("a map through JSON", e.to_string()))?;
    ensure(t == m, || "a map keyed by numerics changed through JSON".into())?;
    unchanged("v", &o)
}
fn serde_n(s: &mut Src, c: &mut Ctx) -> Check {
    check_serde(s, c, Size::Large)
}
fn serde_h(s: &mut Src, c: &mut Ctx) -> Check {
    check_serde(s, c, Size::Huge)
}
fn serde_vast(s: &mut Src, c: &mut Ctx) -> Check {
    check_serde(s, c, Size::Vast)
}

pub const C13: Prop = Prop {
    id: "C13",
    rule: "the value is finite and not zero",
    groups: &[
        Group { name: "serde", quick: 60_000, thorough: 1_500_000, f: serde_n },
        Group { name: "serde-huge", quick: 600, thorough: 15_000, f: serde_h },
        Group { name: "serde-vast", quick: 200, thorough: 5_000, f: serde_vast },
    ],
};

// ---------------------------------------------------------------- hostile bytes

/// Stored bytes with something wrong, or anything at all.
pub fn hostile(s: &mut Src, c: &mut Ctx) -> Vec<u8> {
    hostile_of(s, c, Size::Small)
}
fn hostile_of(s: &mut Src, c: &mut Ctx, max: Size) -> Vec<u8> {
    let v = any(s, max);
    let form = if s.flip() { Form::Long } else { Form::Canonical };
    let mut b = encode(&v, form, VL);
    let edits = s.range(1, 3);
    for _ in 0..edits {
        let k = s.upto(9);
        match k {
            // any bytes, with or without a proper length word
            0 => {
                let n = s.upto(40) as usize;
                let mut m = Mix::new(s.u64());
                b = (0..n).map(|_| (m.next() >> 16) as u8).collect();
                if s.flip() {
                    fix_len(&mut b);
                }
            }
            // cut, with and without mending the length
            1 => {
                let n = s.upto(b.len() as u64) as usize;
                b.truncate(n);
                if s.flip() {
                    fix_len(&mut b);
                }
            }
            2 => {
                let n = s.range(1, 9);
                for _ in 0..n {
                    b.push(s.upto(255) as u8);
                }
                if s.flip() {
                    fix_len(&mut b);
                }
            }
            // the length word
            3 => {
                let x = s.pick(&[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, u32::MAX, 1 << 31, 1 << 30, 0x3FFF_FFFF, 0xFFFF]);
                let x = if s.flip() { x } else { (b.len() as u32).wrapping_add(x) };
                put_len(&mut b, x);
            }
            4 => {
                if !b.is_empty() {
                    let i = s.upto(b.len() as u64 - 1) as usize;
                    b[i] ^= 1 << s.upto(7);
                }
            }
            // the header word
            5 => {
                if b.len() >= 6 {
                    let h = s.upto(0xFFFF) as u16;
                    b[4..6].copy_from_slice(&h.to_le_bytes());
                }
            }
            // a digit
            6 => {
                if b.len() >= 8 {
                    let i = 6 + 2 * s.upto((b.len() as u64 - 8) / 2) as usize;
                    let d = s.pick(&[0u16, 10000, 9999, 0xFFFF, 0x8000, 0x7FFF, 12345]);
                    b[i..i + 2].copy_from_slice(&d.to_le_bytes());
                }
            }
            // the weight of the long form
            7 => {
                if b.len() >= 8 {
                    let w = s.pick(&[i16::MIN, i16::MAX, -32767, 0, -1, 63, 64, -64, 4096, -4097]);
                    b[6..8].copy_from_slice(&w.to_le_bytes());
                }
            }
            // digits around: zeros in front and behind
            8 => {
                if b.len() >= 8 {
                    let at = if s.flip() { b.len() } else { 8.min(b.len()) };
                    let at = at & !1;
                    b.splice(at..at, [0u8, 0]);
                    fix_len(&mut b);
                }
            }
            _ => {
                let i = s.upto(b.len() as u64) as usize;
                b.insert(i, s.upto(255) as u8);
                if s.flip() {
                    fix_len(&mut b);
                }
            }
        }
    }
    c.input("bytes", &|| b.iter().map(|x| format!("{:02x}", x)).collect(), oracle::engine::hash64(&[&b]));
    b
}

fn put_len(b: &mut [u8], n: u32) {
    if b.len() >= 4 {
        let w = match VL {
            oracle::layout::Varlen::Little => (n << 2).to_le_bytes(),
            oracle::layout::Varlen::Big => (n & 0x3FFF_FFFF).to_be_bytes(),
        };
        b[..4].copy_from_slice(&w);
    }
}
fn fix_len(b: &mut [u8]) {
    let n = b.len() as u32;
    put_len(b, n);
}

/// A numeric that came out of the decoder has to behave as one.
fn usable(what: &str, n: &Numeric) -> Check {
    let t = n.to_string();
    let _ = format!("{:e}", n);
    let o = n.to_owned();
    ensure(o.to_string() == t, || format!("{}: reads as {}, its copy as {}", what, t, o))?;
    ensure(&*o == n && n.cmp(&o) == std::cmp::Ordering::Equal, || format!("{}: not equal to its copy", what))?;
    let mut set = std::collections::HashSet::new();
    set.insert(o.clone());
    ensure(set.contains(n), || format!("{}: not found by its hash", what))?;
    let _ = n.checked_add(&o);
    if n.as_bytes().len() <= 2000 {
        let _ = n.checked_mul(n);
    }
    let _ = n.negate();
    let _ = n.normalize();
    let back: NumericBuf = t.parse().map_err(|e| format!("{}: its text {} does not parse: {}", what, t, e))?;
    ensure(back == o, || format!("{}: its text {} parses to another value", what, t))
}

fn check_hostile(s: &mut Src, c: &mut Ctx) -> Check {
    let b = hostile(s, c);
    judge_hostile(&b, c)
}
fn hostile_vast(s: &mut Src, c: &mut Ctx) -> Check {
    let b = hostile_of(s, c, Size::Vast);
    c.label_if(b.len() > 65_535, "over 64 KB");
    judge_hostile(&b, c)
}
fn judge_hostile(b: &[u8], c: &mut Ctx) -> Check {
    let canonical = decode_canonical(b, VL);
    let lenient = decode_lenient(b, VL);
    c.label_if(canonical.is_ok(), "still canonical");
    c.label_if(lenient.is_err(), "not a numeric");
    c.nontrivial = canonical.is_err();
    let mut raw = (b.len() as u64).to_le_bytes().to_vec();
    raw.extend_from_slice(b);
    let mut cb = vec![];
    serde_cbor::to_writer(&mut cb, &serde_cbor::Value::Bytes(b.to_vec())).unwrap();
    let judge = |what: &str, r: Result<NumericBuf, String>, c: &mut Ctx| -> Check {
        match r {
            Err(e) => ensure(canonical.is_err(), || format!("{}: canonical bytes were rejected: {}", what, e)),
            Ok(n) => {
                c.label("accepted");
                let got = read(&n).map_err(|e| format!("{}: decoded to a malformed numeric: {} (bytes {})", what, e, hex(n.as_bytes())))?;
                match &lenient {
                    Ok(w) if w.same(&got) => {}
                    Ok(w) => return Err(differ(what, &got, w)),
                    Err(e) => return Err(format!("{}: accepted bytes that are no numeric ({}) as {}", what, e, got.show())),
                }
                usable(what, &n)
            }
        }
    };
    let r = no_panic("bincode::deserialize", guarded(|| bincode::deserialize::<NumericBuf>(&raw)))?;
    judge("from bincode", r.map_err(|e| e.to_string()), c)?;
    let r = no_panic("bincode::deserialize_from", guarded(|| bincode::deserialize_from::<_, NumericBuf>(&raw[..])))?;
    judge("from a bincode reader", r.map_err(|e| e.to_string()), c)?;
    let r = no_panic("serde_cbor::from_slice", guarded(|| serde_cbor::from_slice::<NumericBuf>(&cb)))?;
    judge("from CBOR", r.map_err(|e| e.to_string()), c)?;
    // borrowed straight from the input
    let a = Aligned::new(&raw, 0);
    let r = no_panic("bincode::deserialize", guarded(|| bincode::deserialize::<&Numeric>(a.bytes())))?;
    if let Ok(n) = &r {
        same_bytes("borrowed from bincode", n.as_bytes(), b)?;
        ensure(lenient.is_ok(), || format!("a borrowed numeric was made of bytes that are none: {}", hex(b)))?;
        no_panic("using a borrowed numeric", guarded(|| usable("borrowed from bincode", n)))??;
    }
    judge("borrowed from bincode", r.map(|n| n.to_owned()).map_err(|e| e.to_string()), c)
}

/// Anything at all in front of the text decoders.
fn hostile_text(s: &mut Src, c: &mut Ctx) -> Check {
    let t = crate::p_text::any_text(s);
    c.text("text", &format!("{:?}", t));
    let direct = t.parse::<NumericBuf>();
    c.nontrivial = t.len() > 2;
    let js = serde_json::to_string(&t).unwrap();
    let got = no_panic("serde_json::from_str", guarded(|| serde_json::from_str::<NumericBuf>(&js)))?;
    match (got, direct) {
        (Ok(g), Ok(d)) => {
            let v = read(&d)?;
            expect("from JSON", &g, &v)
        }
        (Err(_), Err(_)) => Ok(()),
        (g, d) => Err(format!(
            "JSON gave {:?} where parse gives {:?}",
            g.map(|x| x.to_string()).map_err(|e| e.to_string()),
            d.map(|x| x.to_string()).map_err(|e| e.to_string())
        )),
    }
}

/// JSON that is not a string, CBOR and bincode that is no byte string.
fn hostile_shape(s: &mut Src, c: &mut Ctx) -> Check {
    let js = match s.upto(7) {
        0 => format!("{}", s.around(-1000, 1000)),
        1 => "1.5".to_string(),
        2 => "null".to_string(),
        3 => "[49,50]".to_string(),
        4 => "{\"a\":\"1\"}".to_string(),
        5 => "true".to_string(),
        6 => "\"1.5".to_string(),
        _ => "\"\\u0031\\u002e5\"".to_string(),
    };
    c.text("json", &js);
    c.nontrivial();
    let r = no_panic("serde_json", guarded(|| serde_json::from_str::<NumericBuf>(&js)))?;
    if js.contains("\\u") {
        let g = r.map_err(|e| e.to_string())?;
        expect("an escaped string", &g, &Val::V(Num::int(15).shift10(-1), 1))?;
    } else {
        ensure(r.is_err(), || format!("{} was accepted as a numeric", js))?;
    }
    let mut m = Mix::new(s.u64());
    let n = s.upto(30) as usize;
    let raw: Vec<u8> = (0..n).map(|_| (m.next() >> 8) as u8).collect();
    c.text("raw", &hex(&raw));
    for how in 0..3 {
        let r = no_panic(
            "a decoder on arbitrary input",
            guarded(|| match how {
                0 => serde_cbor::from_slice::<NumericBuf>(&raw).ok(),
                1 => bincode::deserialize::<NumericBuf>(&raw).ok(),
                _ => serde_json::from_slice::<NumericBuf>(&raw).ok(),
            }),
        )?;
        if let Some(n) = r {
            read(&n)?;
            usable("decoded from arbitrary input", &n)?;
        }
    }
    Ok(())
}

pub const C14: Prop = Prop {
    id: "C14",
    rule: "the bytes are not the canonical form of any value (text: longer than two characters)",
    groups: &[
        Group { name: "bytes", quick: 250_000, thorough: 6_000_000, f: check_hostile },
        Group { name: "bytes-vast", quick: 300, thorough: 6_000, f: hostile_vast },
        Group { name: "text", quick: 60_000, thorough: 1_500_000, f: hostile_text },
        Group { name: "shape", quick: 30_000, thorough: 600_000, f: hostile_shape },
    ],
};

// ---------------------------------------------------------------- type modifiers

fn check_typmod(s: &mut Src, c: &mut Ctx) -> Check {
    let wild = |s: &mut Src| match s.upto(3) {
        0 => s.around(-5, 40) as i32,
        1 => s.pick(&[999, 1000, 1001, 0, -1, 65535, 65536, 1 << 30]),
        2 => s.around(-1100, 1100) as i32,
        _ => s.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, i32::MAX - 4]),
    };
    let (p, q) = (wild(s), wild(s));
    c.input("precision, scale", &|| format!("{}, {}", p, q), (p as u32 as u64) << 32 | q as u32 as u64);
    let ok = (1..=1000).contains(&p) && q >= 0 && q <= p;
    let t = Typmod::new(p, q);
    ensure(t.is_some() == ok, || format!("Typmod::new gave {:?}", t))?;
    if let Some(t) = t {
        c.nontrivial();
        let v = ((p << 16) | q) + 4;
        ensure(t.value() == v, || format!("value() is {}, want {}", t.value(), v))?;
        ensure(t.extract() == (p, q), || format!("extract() gives {:?}", t.extract()))?;
        ensure(t.to_string() == format!("({}, {})", p, q), || format!("shown as {}", t))?;
        let u = unsafe { Typmod::from_value_unchecked(v) };
        ensure(u == t && u.extract() == (p, q), || "from_value_unchecked(value()) is another modifier".into())?;
        ensure(unsafe { Typmod::new_unchecked(p, q) } == t, || "new_unchecked differs from new".into())?;
    }
    let ok = (1..=1000).contains(&p);
    let t = Typmod::with_precision(p);
    ensure(t.is_some() == ok, || format!("Typmod::with_precision gave {:?}", t))?;
    if let Some(t) = t {
        c.nontrivial();
        ensure(t.value() == (p << 16) + 4 && t.extract() == (p, 0), || format!("with_precision gives {} {:?}", t.value(), t.extract()))?;
        ensure(unsafe { Typmod::with_precision_unchecked(p) } == t, || "with_precision_unchecked differs from with_precision".into())?;
        ensure(Some(t) == Typmod::new(p, 0), || "with_precision(p) differs from new(p, 0)".into())?;
    }
    Ok(())
}

fn apply(s: &mut Src, c: &mut Ctx, v: Val, p: i64, q: i64) -> Check {
    note(c, "value", &v);
    c.input("typmod", &|| format!("({}, {})", p, q), (p as u64) << 32 | q as u64);
    let t = Typmod::new(p as i32, q as i32).unwrap();
    let mut b = build(s, &v);
    let r = match guarded(|| b.apply_typmod(t)) {
        Ok(r) => r,
        Err(e) => return Err(format!("apply_typmod panicked: \"{}\" at {}", e.msg, e.loc)),
    };
    let Val::V(n, d) = &v else {
        c.label("NaN");
        ensure(!r, || "apply_typmod of NaN reports an overflow".into())?;
        return expect("NaN after apply_typmod", &b, &Val::NaN);
    };
    let want = Val::V(n.round(q, Rnd::HalfUp), q);
    let over = want.num().cmp_abs(&Num::pow10(p - q)) != std::cmp::Ordering::Less && !want.is_zero();
    c.label_if(over, "overflows the precision");
    c.label_if(!over && want.num() != n, "rounds");
    c.nontrivial = over || want.num() != n || q != *d;
    ensure(r == over, || format!("apply_typmod returned {}, want {} for {}", r, over, want.show()))?;
    // rounded whether or not it overflows; a result beyond the format leaves the value alone
    if want.fits() {
        expect("after apply_typmod", &b, &want)
    } else {
        c.label("overflows the format");
        expect("after apply_typmod beyond the format", &b, &v)
    }
}

fn apply_any(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Large);
    let p = match s.upto(2) {
        0 => s.range(1, 12),
        1 => s.range(1, 80),
        _ => s.range(1, 1000),
    };
    let q = s.range(0, p);
    apply(s, c, v, p, q)
}
/// Values just below and at the limit of the precision, before and after rounding.
fn apply_limit(s: &mut Src, c: &mut Ctx) -> Check {
    let p = if s.chance(1, 6) { s.range(1, 1000) } else { s.range(1, 30) };
    let q = s.range(0, p);
    let top = Num::pow10(p - q);
    let x = s.range(1, 20);
    let n = match s.upto(5) {
        0 => top.clone(),
        1 => top.sub(&Num::pow10(-q)),
        // rounds up to the limit, or just stays below it
        2 => top.sub(&Num::int(5).shift10(-q - 1)),
        3 => top.sub(&Num::int(5).shift10(-q - 1)).sub(&Num::pow10(-q - 1 - x)),
        4 => top.sub(&Num::int(5).shift10(-q - 1)).add(&Num::pow10(-q - 1 - x)),
        _ => top.shift10(-s.range(0, 6)).sub(&Num::pow10(-q - x)),
    };
    let n = if s.flip() { n.neg() } else { n };
    let d = n.min_scale() + if s.flip() { s.range(0, 20) } else { 0 };
    apply(s, c, Val::V(n, d), p, q)
}
fn apply_huge(s: &mut Src, c: &mut Ctx) -> Check {
    let v = if s.chance(1, 4) {
        // the carry leaves the format
        let n = Num::pow10(131072).sub(&Num::pow10(-s.range(1, 20)));
        let d = n.min_scale();
        Val::V(n, d)
    } else {
        any(s, Size::Huge)
    };
    let p = s.range(1, 1000);
    let q = s.range(0, p);
    let q = if s.flip() { q.min(3) } else { q };
    apply(s, c, v, p, q)
}
fn apply_vast(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Vast);
    let p = s.range(1, 1000);
    let q = s.range(0, p);
    apply(s, c, v, p, q)
}
/// The default modifier stands for "none": nothing is checked or rounded.
fn apply_none(s: &mut Src, c: &mut Ctx) -> Check {
    let v = any(s, Size::Large);
    note(c, "value", &v);
    c.nontrivial = !v.is_zero();
    let mut b = build(s, &v);
    ensure(Typmod::default().value() == -1, || "the default modifier is not -1".into())?;
    let r = b.apply_typmod(Typmod::default());
    ensure(!r, || "the default modifier reports an overflow".into())?;
    expect("after the default modifier", &b, &v)
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "the modifier is valid and changes the value or its scale, or the value overflows it",
    groups: &[
        Group { name: "typmod", quick: 150_000, thorough: 2_000_000, f: check_typmod },
        Group { name: "apply", quick: 150_000, thorough: 3_000_000, f: apply_any },
        Group { name: "apply-limit", quick: 200_000, thorough: 4_000_000, f: apply_limit },
        Group { name: "apply-none", quick: 20_000, thorough: 400_000, f: apply_none },
        Group { name: "apply-huge", quick: 1_500, thorough: 30_000, f: apply_huge },
        Group { name: "apply-vast", quick: 600, thorough: 15_000, f: apply_vast },
    ],
};

pub const PROPS: &[&Prop] = &[&C12, &C13, &C14, &C15];
