//! Independent encoder and decoder of PostgreSQL's on-disk numeric.

use crate::num::{Num, Val, MAX_DSCALE};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Varlen {
    Little,
    Big,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    /// what the library writes: short when it fits
    Canonical,
    /// the 8-byte header even when the short one would do
    Long,
}

fn head(len: usize, v: Varlen) -> [u8; 4] {
    let len = len as u32;
    match v {
        Varlen::Little => (len << 2).to_le_bytes(),
        Varlen::Big => (len & 0x3FFF_FFFF).to_be_bytes(),
    }
}

pub fn can_be_short(weight: i64, dscale: i64) -> bool {
    (0..=63).contains(&dscale) && (-64..=63).contains(&weight)
}

pub fn encode(v: &Val, form: Form, vl: Varlen) -> Vec<u8> {
    let mut body: Vec<u8> = vec![];
    match v {
        Val::NaN => {
            body.extend_from_slice(&0xC000u16.to_le_bytes());
            if form == Form::Long {
                body.extend_from_slice(&0u16.to_le_bytes());
            }
        }
        Val::V(n, d) => {
            let (w, g) = n.groups();
            encode_raw(&mut body, n.neg, w, *d, &g, form);
        }
    }
    let mut out = head(body.len() + 4, vl).to_vec();
    out.extend_from_slice(&body);
    out
}

pub fn encode_raw(body: &mut Vec<u8>, neg: bool, w: i64, d: i64, g: &[u16], form: Form) {
    if form == Form::Canonical && can_be_short(w, d) {
        let mut h: u16 = 0x8000;
        if neg {
            h |= 0x2000;
        }
        h |= (d as u16) << 7;
        h |= (w as i16 as u16) & 0x007F;
        body.extend_from_slice(&h.to_le_bytes());
    } else {
        let mut h: u16 = if neg { 0x4000 } else { 0 };
        h |= d as u16 & 0x3FFF;
        body.extend_from_slice(&h.to_le_bytes());
        body.extend_from_slice(&(w as i16).to_le_bytes());
    }
    for &x in g {
        body.extend_from_slice(&x.to_le_bytes());
    }
}

/// Decode and insist on the canonical form. Any deviation is described.
pub fn decode_canonical(b: &[u8], vl: Varlen) -> Result<Val, String> {
    if b.len() < 6 {
        return Err(format!("only {} bytes", b.len()));
    }
    let h4 = [b[0], b[1], b[2], b[3]];
    let len = match vl {
        Varlen::Little => {
            let w = u32::from_le_bytes(h4);
            if w & 3 != 0 {
                return Err(format!("length word {:#x} has flag bits", w));
            }
            w >> 2
        }
        Varlen::Big => {
            let w = u32::from_be_bytes(h4);
            if w & 0xC000_0000 != 0 {
                return Err(format!("length word {:#x} has flag bits", w));
            }
            w
        }
    };
    if len as usize != b.len() {
        return Err(format!("length word says {}, slice has {}", len, b.len()));
    }
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let h = u16at(4);
    let (neg, w, d, off) = match h & 0xC000 {
        0xC000 => {
            if h != 0xC000 || b.len() != 6 {
                return Err(format!("NaN stored as {:02x?}", b));
            }
            return Ok(Val::NaN);
        }
        0x8000 => {
            let mut w = (h & 0x3F) as i64;
            if h & 0x40 != 0 {
                w -= 64;
            }
            (h & 0x2000 != 0, w, ((h & 0x1F80) >> 7) as i64, 6)
        }
        f => {
            if b.len() < 8 {
                return Err("long header cut short".into());
            }
            let w = i16::from_le_bytes([b[6], b[7]]) as i64;
            let d = (h & 0x3FFF) as i64;
            if can_be_short(w, d) {
                return Err(format!("long form used for weight {} dscale {}", w, d));
            }
            (f == 0x4000, w, d, 8)
        }
    };
    if (b.len() - off) % 2 != 0 {
        return Err("odd number of digit bytes".into());
    }
    let g: Vec<u16> = (off..b.len()).step_by(2).map(u16at).collect();
    if let Some(x) = g.iter().find(|x| **x > 9999) {
        return Err(format!("digit {} out of range", *x as i16));
    }
    if g.is_empty() {
        if neg || w != 0 {
            return Err(format!("zero stored with sign {} weight {}", neg, w));
        }
        return Ok(Val::V(Num::zero(), d));
    }
    if g[0] == 0 || *g.last().unwrap() == 0 {
        return Err("leading or trailing zero digit stored".into());
    }
    let n = Num::from_groups(neg, w, &g);
    if n.min_scale() > d {
        return Err(format!("digits beyond the display scale {}: needs {}", d, n.min_scale()));
    }
    if d > MAX_DSCALE {
        return Err("dscale too large".into());
    }
    Ok(Val::V(n, d))
}

/// What stored bytes mean when they are a numeric at all, canonical or not.
pub fn decode_lenient(b: &[u8], vl: Varlen) -> Result<Val, String> {
    if b.len() < 6 {
        return Err("too short".into());
    }
    let h4 = [b[0], b[1], b[2], b[3]];
    let len = match vl {
        Varlen::Little => {
            let w = u32::from_le_bytes(h4);
            if w & 3 != 0 {
                return Err("flag bits in the length word".into());
            }
            w >> 2
        }
        Varlen::Big => {
            let w = u32::from_be_bytes(h4);
            if w >> 30 != 0 {
                return Err("flag bits in the length word".into());
            }
            w
        }
    };
    if len as usize != b.len() {
        return Err("another length".into());
    }
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let h = u16at(4);
    let (neg, w, d, off) = match h & 0xC000 {
        0xC000 => return Ok(Val::NaN),
        0x8000 => {
            let w = (h & 0x3F) as i64 - if h & 0x40 != 0 { 64 } else { 0 };
            (h & 0x2000 != 0, w, ((h & 0x1F80) >> 7) as i64, 6)
        }
        f => {
            if b.len() < 8 {
                return Err("long header cut short".into());
            }
            (f == 0x4000, i16::from_le_bytes([b[6], b[7]]) as i64, (h & 0x3FFF) as i64, 8)
        }
    };
    if (b.len() - off) % 2 != 0 {
        return Err("odd number of digit bytes".into());
    }
    let g: Vec<u16> = (off..b.len()).step_by(2).map(u16at).collect();
    if g.iter().any(|x| *x > 9999) {
        return Err("digit out of range".into());
    }
    let n = Num::from_groups(neg, w, &g);
    if n.min_scale() > d {
        return Err("digits beyond the display scale".into());
    }
    let v = Val::V(n, d);
    if !v.fits() {
        return Err("outside the format".into());
    }
    Ok(v)
}

/// Bytes in a buffer aligned to 8, at a chosen offset from that alignment.
pub struct Aligned {
    words: Vec<u64>,
    off: usize,
    len: usize,
}

impl Aligned {
    pub fn new(b: &[u8], off: usize) -> Aligned {
        assert!(off < 8);
        // exact size at the end so that an overread leaves the allocation early
        let n = (b.len() + off + 7) / 8;
        let mut words = vec![0x5A5A_5A5A_5A5A_5A5Au64; n.max(1)];
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), (words.as_mut_ptr() as *mut u8).add(off), b.len());
        }
        Aligned { words, off, len: b.len() }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.words.as_ptr() as *const u8).add(self.off), self.len) }
    }
}
