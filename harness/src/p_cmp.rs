//! Comparison, ordering, hashing, normalisation.

use crate::common::*;
use oracle::engine::{Check, Ctx, Group, Prop, Src};
use oracle::layout::Form;
use oracle::num::{Num, Val, MAX_DSCALE};
use pgnumeric::{Numeric, NumericBuf};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

fn pair(s: &mut Src, c: &mut Ctx, size: Size) -> (Val, Val) {
    let a = any(s, size);
    let mut b = related(s, &a, size);
    if s.chance(1, 4) {
        // the same value at another scale
        if let Val::V(n, d) = &a {
            let m = n.min_scale();
            b = Val::V(n.clone(), s.pick(&[m, *d, (m + 1).min(MAX_DSCALE), (d + 4).min(MAX_DSCALE), (d + 60).min(MAX_DSCALE)]));
        }
    }
    let (a, b) = if s.flip() { (b, a) } else { (a, b) };
    note(c, "a", &a);
    note(c, "b", &b);
    label_val(c, &a);
    label_val(c, &b);
    (a, b)
}

macro_rules! agree {
    ($what:expr, $x:expr, $y:expr, $want:expr) => {{
        let w: Ordering = $want;
        let (eq, ne) = ($x == $y, $x != $y);
        let p = PartialOrd::partial_cmp(&$x, &$y);
        let (lt, le, gt, ge) = ($x < $y, $x <= $y, $x > $y, $x >= $y);
        let ok = eq == (w == Ordering::Equal)
            && ne != eq
            && p == Some(w)
            && lt == (w == Ordering::Less)
            && gt == (w == Ordering::Greater)
            && le == (w != Ordering::Greater)
            && ge == (w != Ordering::Less);
        ensure(ok, || {
            format!("{}: want {:?}, got == {} != {} partial_cmp {:?} < {} <= {} > {} >= {}", $what, w, eq, ne, p, lt, le, gt, ge)
        })?
    }};
}

fn check_order(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let (a, b) = pair(s, c, size);
    let w = a.order(&b);
    c.nontrivial = !a.is_nan() && !b.is_nan() && !(a.is_zero() && b.is_zero());
    c.label_if(w == Ordering::Equal, "equal");
    c.label_if(w == Ordering::Equal && !a.same(&b), "equal with different scales");
    c.label_if(a.is_neg() && b.is_neg(), "both negative");
    let (x, y) = (operand(s, &a), operand(s, &b));
    let (n, m): (&Numeric, &Numeric) = (x.num(), y.num());
    let (p, q) = (build(s, &a), build(s, &b));
    agree!("Numeric with Numeric", *n, *m, w);
    agree!("&Numeric with &Numeric", n, m, w);
    agree!("&Numeric with Numeric", n, *m, w);
    agree!("Numeric with &Numeric", *n, m, w);
    agree!("NumericBuf with NumericBuf", p, q, w);
    agree!("&NumericBuf with &NumericBuf", &p, &q, w);
    agree!("&NumericBuf with NumericBuf", &p, q, w);
    agree!("NumericBuf with &NumericBuf", p, &q, w);
    agree!("NumericBuf with Numeric", p, *m, w);
    agree!("NumericBuf with &Numeric", p, m, w);
    agree!("Numeric with NumericBuf", *n, q, w);
    agree!("&Numeric with NumericBuf", n, q, w);
    let t = Ord::cmp(n, m);
    ensure(t == w, || format!("Numeric Ord::cmp: want {:?}, got {:?}", w, t))?;
    let t = Ord::cmp(&p, &q);
    ensure(t == w, || format!("NumericBuf Ord::cmp: want {:?}, got {:?}", w, t))?;
    // the other way round
    agree!("b with a", *m, *n, w.reverse());
    agree!("a with itself", *n, p, Ordering::Equal);
    let pick = |r: Ordering| if r == Ordering::Greater { (&b, &a) } else { (&a, &b) };
    let (lo, hi) = pick(w);
    if w != Ordering::Equal {
        expect("max", &p.clone().max(q.clone()), hi)?;
        expect("min", &p.clone().min(q.clone()), lo)?;
        // between the two
        let z = any(s, Size::Small);
        let (zb, l, h) = (build(s, &z), from_bytes(lo, Form::Canonical), from_bytes(hi, Form::Canonical));
        let want = if z.order(lo) == Ordering::Less {
            lo
        } else if z.order(hi) == Ordering::Greater {
            hi
        } else {
            &z
        };
        expect("clamp", &zb.clamp(l, h), want)?;
    }
    unchanged("a", &x)?;
    unchanged("b", &y)
}
fn order_n(s: &mut Src, c: &mut Ctx) -> Check {
    check_order(s, c, Size::Large)
}
fn order_h(s: &mut Src, c: &mut Ctx) -> Check {
    check_order(s, c, Size::Huge)
}
fn order_vast(s: &mut Src, c: &mut Ctx) -> Check {
    check_order(s, c, Size::Vast)
}

/// A list of values, many of them equal or close: sorts and sets agree with the model.
fn check_sort(s: &mut Src, c: &mut Ctx) -> Check {
    let n = s.range(2, 14);
    let mut vals: Vec<Val> = vec![];
    for _ in 0..n {
        let v = if vals.is_empty() || s.flip() {
            any(s, Size::Medium)
        } else {
            let k = s.upto(vals.len() as u64 - 1) as usize;
            let base = vals[k].clone();
            related(s, &base, Size::Medium)
        };
        note(c, "v", &v);
        vals.push(v);
    }
    c.nontrivial = vals.iter().filter(|v| !v.is_nan() && !v.is_zero()).count() >= 2;
    let bufs: Vec<NumericBuf> = vals.iter().map(|v| build(s, v)).collect();
    let mut want = vals.clone();
    want.sort_by(|a, b| a.order(b));
    let mut got: Vec<&NumericBuf> = bufs.iter().collect();
    got.sort();
    for (g, w) in got.iter().zip(&want) {
        // stable: equal values keep their places, so scales must match as well
        expect("sorted list", g, w)?;
    }
    let mut refs: Vec<&Numeric> = bufs.iter().map(|b| b.as_numeric()).collect();
    refs.sort_by(|a, b| b.partial_cmp(a).unwrap());
    let mut rev = vals.clone();
    rev.sort_by(|a, b| b.order(a));
    for (g, w) in refs.iter().zip(&rev) {
        expect("list sorted downwards", g, w)?;
    }
    let mut distinct = want.clone();
    distinct.dedup_by(|a, b| a.order(b) == Ordering::Equal);
    let set: BTreeSet<NumericBuf> = bufs.iter().cloned().collect();
    ensure(set.len() == distinct.len(), || format!("BTreeSet holds {} of {} distinct values", set.len(), distinct.len()))?;
    let mut map: BTreeMap<NumericBuf, usize> = BTreeMap::new();
    for (i, b) in bufs.iter().enumerate() {
        map.insert(b.clone(), i);
    }
    for (i, v) in vals.iter().enumerate() {
        let last = vals.iter().rposition(|u| u.order(v) == Ordering::Equal).unwrap();
        // looked up through the borrowed form
        let g = map.get(bufs[i].as_numeric());
        ensure(g == Some(&last), || format!("BTreeMap lookup of {}: got {:?}, want {}", v.show(), g, last))?;
    }
    for (g, w) in set.iter().zip(&distinct) {
        let r = read(g)?;
        ensure(r.order(w) == Ordering::Equal, || differ("BTreeSet order", &r, w))?;
    }
    Ok(())
}

pub const C08: Prop = Prop {
    id: "C08",
    rule: "at least two of the values compared are finite, and not all of them zero",
    groups: &[
        Group { name: "order", quick: 400_000, thorough: 8_000_000, f: order_n },
        Group { name: "sort", quick: 60_000, thorough: 1_500_000, f: check_sort },
        Group { name: "order-huge", quick: 10_000, thorough: 200_000, f: order_h },
        Group { name: "order-vast", quick: 600, thorough: 15_000, f: order_vast },
    ],
};

// ---------------------------------------------------------------- hash, normalize

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Records what is written, byte for byte.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn tape<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Tape::default();
    t.hash(&mut h);
    h.0
}

fn check_hash(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let (a, b) = pair(s, c, size);
    let equal = a.order(&b) == Ordering::Equal;
    c.label_if(equal, "equal");
    c.label_if(equal && !a.same(&b), "equal with different scales");
    c.nontrivial = equal && !a.is_zero() && !a.is_nan();
    let (x, y) = (operand(s, &a), operand(s, &b));
    let (p, q) = (build(s, &a), build(s, &b));
    // one value, however it is held
    ensure(hash_of(x.num()) == hash_of(&p) && tape(x.num()) == tape(&p), || {
        "the hash of a Numeric and of a NumericBuf holding the same value differ".into()
    })?;
    ensure(tape(&x.num()) == tape(&&p), || "the hash of a reference differs".into())?;
    if equal {
        ensure(
            hash_of(x.num()) == hash_of(y.num()) && hash_of(&p) == hash_of(&q) && tape(x.num()) == tape(&q),
            || "equal values hash differently".into(),
        )?;
    }
    unchanged("a", &x)?;
    unchanged("b", &y)
}
fn hash_n(s: &mut Src, c: &mut Ctx) -> Check {
    check_hash(s, c, Size::Large)
}
fn hash_h(s: &mut Src, c: &mut Ctx) -> Check {
    check_hash(s, c, Size::Huge)
}
fn hash_vast(s: &mut Src, c: &mut Ctx) -> Check {
    check_hash(s, c, Size::Vast)
}

/// Histories over a HashMap against a list keyed by the model's equality.
fn check_map(s: &mut Src, c: &mut Ctx) -> Check {
    let mut map: HashMap<NumericBuf, u64> = HashMap::new();
    let mut model: Vec<(Val, u64)> = vec![];
    let mut pool: Vec<Val> = vec![];
    let steps = s.range(3, 24);
    for step in 0..steps {
        let v = match s.upto(3) {
            _ if pool.is_empty() => any(s, Size::Small),
            0 => any(s, Size::Small),
            1 => pool[s.upto(pool.len() as u64 - 1) as usize].clone(),
            k => {
                // a known value at another scale, or one close to it
                let b = pool[s.upto(pool.len() as u64 - 1) as usize].clone();
                match (&b, k) {
                    (Val::V(n, _), 2) => Val::V(n.clone(), n.min_scale() + s.range(0, 70)),
                    _ => related(s, &b, Size::Small),
                }
            }
        };
        pool.push(v.clone());
        let o = operand(s, &v);
        let at = model.iter().position(|(k, _)| k.order(&v) == Ordering::Equal);
        let op = s.upto(3);
        c.input("op", &|| format!("{} {}", ["insert", "get", "remove", "entry"][op as usize], v.show()), val_id(&v) ^ op << 56);
        c.label_if(at.is_some(), "key already there");
        if at.is_some() {
            c.nontrivial();
        }
        let want = at.map(|i| model[i].1);
        let got = match op {
            0 => {
                let r = map.insert(o.buf(), step as u64);
                match at {
                    Some(i) => model[i].1 = step as u64,
                    None => model.push((v.clone(), step as u64)),
                }
                r
            }
            1 => map.get(o.num()).copied(),
            2 => {
                if let Some(i) = at {
                    model.remove(i);
                }
                map.remove(o.num())
            }
            _ => {
                let e = map.entry(build(s, &v)).or_insert(step as u64);
                let r = *e;
                *e += 100;
                match at {
                    Some(i) => {
                        model[i].1 += 100;
                        Some(r)
                    }
                    None => {
                        model.push((v.clone(), step as u64 + 100));
                        None
                    }
                }
            }
        };
        ensure(got == want, || format!("step {}: got {:?}, want {:?}", step, got, want))?;
        ensure(map.len() == model.len(), || format!("step {}: the map has {} keys, want {}", step, map.len(), model.len()))?;
    }
    let set: HashSet<&Numeric> = map.keys().map(|k| k.as_numeric()).collect();
    ensure(set.len() == model.len(), || "a set of the keys has another size".into())
}

fn check_normalize(s: &mut Src, c: &mut Ctx, size: Size) -> Check {
    let (a, b) = pair(s, c, size);
    c.nontrivial = matches!(&a, Val::V(n, d) if n.min_scale() < *d) || (a.order(&b) == Ordering::Equal && !a.same(&b));
    let (x, y) = (operand(s, &a), operand(s, &b));
    let (f, g) = (x.num().normalize(), y.num().normalize());
    let (wf, wg) = (a.normalized(), b.normalized());
    ensure(f == wf, || format!("normalize: got {}, want {}", f, wf))?;
    ensure(g == wg, || format!("normalize: got {}, want {}", g, wg))?;
    ensure((f == g) == (x.num() == y.num()), || format!("normalize gives {} and {}, yet == says {}", f, g, x.num() == y.num()))?;
    if f.len() < 5000 {
        let back: NumericBuf = f.parse().map_err(|e| format!("normalize's text {} does not parse: {}", f, e))?;
        ensure(back == *x.num(), || format!("normalize's text {} parses to another value", f))?;
    }
    let t = build(s, &a).normalize();
    ensure(t == wf, || format!("normalize of an owned value: got {}, want {}", t, wf))?;
    unchanged("a", &x)?;
    unchanged("b", &y)
}
fn norm_n(s: &mut Src, c: &mut Ctx) -> Check {
    check_normalize(s, c, Size::Large)
}
fn norm_h(s: &mut Src, c: &mut Ctx) -> Check {
    check_normalize(s, c, Size::Huge)
}
fn normalize_vast(s: &mut Src, c: &mut Ctx) -> Check {
    check_normalize(s, c, Size::Vast)
}
/// Whole numbers ending in zeros, and zeros inside and at the end of the fraction.
fn norm_zeros(s: &mut Src, c: &mut Ctx) -> Check {
    let m = s.range(1, 99_999) as i128 * if s.flip() { -1 } else { 1 };
    let n = Num::int(m).shift10(s.around(-30, 30)).add(&Num::int(s.upto(9) as i128).shift10(s.around(-30, 30)));
    let v = Val::V(n.clone(), n.min_scale() + s.range(0, 30));
    note(c, "value", &v);
    c.nontrivial = v.dscale() > n.min_scale() || n.exp > 0;
    let o = operand(s, &v);
    let (g, w) = (o.num().normalize(), v.normalized());
    ensure(g == w, || format!("normalize: got {}, want {}", g, w))
}

pub const C09: Prop = Prop {
    id: "C09",
    rule: "two equal non-zero values are hashed, a key was already in the map, or there is a zero for normalize to drop",
    groups: &[
        Group { name: "hash", quick: 250_000, thorough: 5_000_000, f: hash_n },
        Group { name: "map", quick: 60_000, thorough: 1_500_000, f: check_map },
        Group { name: "normalize", quick: 150_000, thorough: 3_000_000, f: norm_n },
        Group { name: "normalize-zeros", quick: 150_000, thorough: 3_000_000, f: norm_zeros },
        Group { name: "hash-huge", quick: 5_000, thorough: 100_000, f: hash_h },
        Group { name: "hash-vast", quick: 600, thorough: 15_000, f: hash_vast },
        Group { name: "normalize-huge", quick: 2_000, thorough: 50_000, f: norm_h },
        Group { name: "normalize-vast", quick: 600, thorough: 15_000, f: normalize_vast },
    ],
};

pub const PROPS: &[&Prop] = &[&C08, &C09];
