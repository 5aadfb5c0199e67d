//! Documents: a small value tree with its own JSON and CBOR encoders, so that the
//! encodings (and their damaged forms) do not depend on the code under test.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Doc {
    N,
    B(bool),
    I(i128),
    /// By its bits: JSON has no NaN and no infinity.
    F(#[serde(with = "bits")] f64),
    S(String),
    /// Byte string.
    Y(Vec<u8>),
    /// Byte string holding an encoded document.
    E(Box<Doc>),
    A(Vec<Doc>),
    M(Vec<(Doc, Doc)>),
    /// A tagged item (only CBOR can express it).
    T(u64, Box<Doc>),
}

mod bits {
    use serde::{Deserialize, Deserializer, Serializer};

    pub fn serialize<S: Serializer>(f: &f64, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:016x} {f}", f.to_bits()))
    }

    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<f64, D::Error> {
        let t = String::deserialize(d)?;
        let hex = t.split(' ').next().unwrap_or("");
        u64::from_str_radix(hex, 16).map(f64::from_bits).map_err(serde::de::Error::custom)
    }
}

impl Doc {
    pub fn size(&self) -> usize {
        1 + match self {
            Doc::A(v) => v.iter().map(Doc::size).sum(),
            Doc::M(v) => v.iter().map(|(k, d)| k.size() + d.size()).sum(),
            Doc::E(d) | Doc::T(_, d) => d.size(),
            _ => 0,
        }
    }

    pub fn cbor(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.cbor_to(&mut o);
        o
    }

    fn head(o: &mut Vec<u8>, major: u8, n: u64) {
        let m = major << 5;
        if n < 24 {
            o.push(m | n as u8);
        } else if n < 0x100 {
            o.extend([m | 24, n as u8]);
        } else if n < 0x1_0000 {
            o.push(m | 25);
            o.extend((n as u16).to_be_bytes());
        } else if n < 0x1_0000_0000 {
            o.push(m | 26);
            o.extend((n as u32).to_be_bytes());
        } else {
            o.push(m | 27);
            o.extend(n.to_be_bytes());
        }
    }

    fn cbor_to(&self, o: &mut Vec<u8>) {
        match self {
            Doc::N => o.push(0xf6),
            Doc::B(b) => o.push(if *b { 0xf5 } else { 0xf4 }),
            Doc::I(i) => {
                if *i >= 0 {
                    Self::head(o, 0, *i as u64)
                } else {
                    Self::head(o, 1, (-1 - *i) as u64)
                }
            }
            Doc::F(f) => {
                o.push(0xfb);
                o.extend(f.to_be_bytes());
            }
            Doc::S(s) => {
                Self::head(o, 3, s.len() as u64);
                o.extend(s.as_bytes());
            }
            Doc::Y(b) => {
                Self::head(o, 2, b.len() as u64);
                o.extend(b);
            }
            Doc::E(d) => {
                let b = d.cbor();
                Self::head(o, 2, b.len() as u64);
                o.extend(b);
            }
            Doc::A(v) => {
                Self::head(o, 4, v.len() as u64);
                v.iter().for_each(|d| d.cbor_to(o));
            }
            Doc::M(v) => {
                Self::head(o, 5, v.len() as u64);
                for (k, d) in v {
                    k.cbor_to(o);
                    d.cbor_to(o);
                }
            }
            Doc::T(t, d) => {
                Self::head(o, 6, *t);
                d.cbor_to(o);
            }
        }
    }

    /// Another encoding of the same item: longer heads, items of indefinite length,
    /// strings in chunks, shorter floats.
    pub fn cbor_as(&self, seed: u64) -> Vec<u8> {
        let mut o = Vec::new();
        let mut z = seed;
        self.spell(&mut o, &mut z);
        o
    }

    fn long_head(o: &mut Vec<u8>, major: u8, n: u64, z: &mut u64) {
        *z = crate::rng::mix(*z);
        let m = major << 5;
        match *z >> 8 & 7 {
            0 if n < 0x100 => o.extend([m | 24, n as u8]),
            1 if n < 0x1_0000 => {
                o.push(m | 25);
                o.extend((n as u16).to_be_bytes());
            }
            2 if n < 0x1_0000_0000 => {
                o.push(m | 26);
                o.extend((n as u32).to_be_bytes());
            }
            3 => {
                o.push(m | 27);
                o.extend(n.to_be_bytes());
            }
            _ => Self::head(o, major, n),
        }
    }

    fn chunks(o: &mut Vec<u8>, major: u8, b: &[u8], cut_ok: impl Fn(usize) -> bool, z: &mut u64) {
        *z = crate::rng::mix(*z);
        if *z >> 8 & 3 > 0 {
            Self::long_head(o, major, b.len() as u64, z);
            o.extend(b);
            return;
        }
        o.push(major << 5 | 31);
        let mut at = 0;
        while at < b.len() {
            *z = crate::rng::mix(*z);
            let mut end = (at + (*z >> 8 & 7) as usize).min(b.len());
            while !cut_ok(end) {
                end += 1;
            }
            Self::long_head(o, major, (end - at) as u64, z);
            o.extend(&b[at..end]);
            at = end;
        }
        o.push(0xff);
    }

    fn spell(&self, o: &mut Vec<u8>, z: &mut u64) {
        match self {
            Doc::N | Doc::B(_) => self.cbor_to(o),
            Doc::I(i) => {
                if *i >= 0 {
                    Self::long_head(o, 0, *i as u64, z)
                } else {
                    Self::long_head(o, 1, (-1 - *i) as u64, z)
                }
            }
            Doc::F(f) => {
                *z = crate::rng::mix(*z);
                let short = *f as f32;
                if short as f64 == *f && *z >> 8 & 1 == 0 {
                    let b = short.to_bits();
                    let e = (b >> 23 & 0xff) as i32 - 127;
                    if b << 1 == 0 {
                        o.extend([0xf9, (b >> 24) as u8, 0]);
                    } else if (-14..=15).contains(&e) && b & 0x1fff == 0 {
                        let h = (b >> 16 & 0x8000) | ((e + 15) as u32) << 10 | (b >> 13 & 0x3ff);
                        o.push(0xf9);
                        o.extend((h as u16).to_be_bytes());
                    } else {
                        o.push(0xfa);
                        o.extend(b.to_be_bytes());
                    }
                } else {
                    self.cbor_to(o);
                }
            }
            Doc::S(s) => Self::chunks(o, 3, s.as_bytes(), |i| s.is_char_boundary(i), z),
            Doc::Y(b) => Self::chunks(o, 2, b, |_| true, z),
            Doc::E(d) => Self::chunks(o, 2, &d.cbor_as(*z), |_| true, z),
            Doc::A(v) => {
                *z = crate::rng::mix(*z);
                let open = *z >> 8 & 1 == 0;
                if open {
                    o.push(0x9f);
                } else {
                    Self::long_head(o, 4, v.len() as u64, z);
                }
                v.iter().for_each(|d| d.spell(o, z));
                if open {
                    o.push(0xff);
                }
            }
            Doc::M(v) => {
                *z = crate::rng::mix(*z);
                let open = *z >> 8 & 1 == 0;
                if open {
                    o.push(0xbf);
                } else {
                    Self::long_head(o, 5, v.len() as u64, z);
                }
                for (k, d) in v {
                    k.spell(o, z);
                    d.spell(o, z);
                }
                if open {
                    o.push(0xff);
                }
            }
            Doc::T(t, d) => {
                Self::long_head(o, 6, *t, z);
                d.spell(o, z);
            }
        }
    }

    /// JSON text; what JSON cannot express is approximated (bytes become text).
    pub fn json(&self) -> String {
        let mut o = String::new();
        self.json_to(&mut o);
        o
    }

    fn jstr(o: &mut String, s: &str) {
        o.push('"');
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
    }

    fn key_text(&self) -> String {
        match self {
            Doc::S(s) => s.clone(),
            d => d.json(),
        }
    }

    fn json_to(&self, o: &mut String) {
        match self {
            Doc::N => o.push_str("null"),
            Doc::B(b) => o.push_str(if *b { "true" } else { "false" }),
            Doc::I(i) => o.push_str(&i.to_string()),
            Doc::F(f) => o.push_str(&format!("{:?}", f)),
            Doc::S(s) => Self::jstr(o, s),
            Doc::Y(b) => Self::jstr(o, &String::from_utf8_lossy(b)),
            Doc::E(d) | Doc::T(_, d) => d.json_to(o),
            Doc::A(v) => {
                o.push('[');
                for (i, d) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    d.json_to(o);
                }
                o.push(']');
            }
            Doc::M(v) => {
                o.push('{');
                for (i, (k, d)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    Self::jstr(o, &k.key_text());
                    o.push(':');
                    d.json_to(o);
                }
                o.push('}');
            }
        }
    }
}

/// Damage done to a document or schema on its way to the library.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dmg {
    /// Keep the first n bytes.
    Trunc(usize),
    /// Invert one bit.
    Flip(usize, u8),
    /// Overwrite one byte.
    Over(usize, u8),
    /// Lose len bytes at a position (a lost write / short read in the middle).
    Lose(usize, usize),
    /// Repeat len bytes at a position (duplicated write).
    Rep(usize, usize),
    /// Exchange two pieces of len bytes (reordered writes).
    Swap(usize, usize, usize),
    /// Something else altogether arrives.
    Set(Vec<u8>),
    /// No damage, another spelling: white space and escapes in a JSON text, other
    /// heads, chunks and lengths in a CBOR item.
    Space(u64),
}

pub fn spaced(text: &str, seed: u64) -> String {
    let mut out = String::new();
    let (mut quoted, mut escaped) = (false, false);
    let (mut z, mut hex) = (seed, 0);
    for c in text.chars() {
        if !quoted && !out.is_empty() && b"[]{}:,".contains(&(c as u8)) && c.is_ascii() {
            z = crate::rng::mix(z);
            for k in 0..z % 4 {
                out.push([' ', '\n', '\t', '\r', ' ', ' ', '\n'][(z >> (8 + 3 * k)) as usize % 7]);
            }
        }
        let plain = quoted && !escaped && hex == 0 && c != '"' && c != '\\';
        hex = if escaped && c == 'u' { 4 } else { i32::max(hex - 1, 0) };
        if plain {
            z = crate::rng::mix(z);
        }
        if plain && z >> 8 & 15 == 0 {
            let mut units = [0; 2];
            for u in c.encode_utf16(&mut units) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        } else if plain && c == '/' && z >> 12 & 1 == 0 {
            out.push_str("\\/");
        } else {
            out.push(c);
        }
        if c == '"' && !escaped {
            quoted = !quoted;
        }
        escaped = quoted && c == '\\' && !escaped;
    }
    out
}

pub fn damage(mut b: Vec<u8>, dmg: &[Dmg]) -> Vec<u8> {
    for d in dmg {
        let n = b.len();
        if let Dmg::Set(x) = d {
            b = x.clone();
            continue;
        }
        if let Dmg::Space(_) = d {
            continue;
        }
        if n == 0 {
            return b;
        }
        match *d {
            Dmg::Trunc(k) => b.truncate(k.min(n)),
            Dmg::Flip(p, bit) => b[p % n] ^= 1 << (bit & 7),
            Dmg::Over(p, x) => b[p % n] = x,
            Dmg::Lose(p, l) => {
                let p = p % n;
                b.drain(p..(p + l).min(n));
            }
            Dmg::Rep(p, l) => {
                let p = p % n;
                let piece: Vec<u8> = b[p..(p + l).min(n)].to_vec();
                let tail = b.split_off(p);
                b.extend(piece);
                b.extend(tail);
            }
            Dmg::Swap(p, q, l) => {
                let (p, q) = (p % n, q % n);
                let (p, q) = (p.min(q), p.max(q));
                let l = l.min(q - p).min(n - q);
                for i in 0..l {
                    b.swap(p + i, q + i);
                }
            }
            Dmg::Set(_) | Dmg::Space(_) => (),
        }
    }
    b
}

pub fn damage_text(s: &str, dmg: &[Dmg]) -> String {
    if dmg.is_empty() {
        return s.to_string();
    }
    if let Some(Dmg::Space(z)) = dmg.first() {
        return damage_text(&spaced(s, *z), &dmg[1..]);
    }
    String::from_utf8_lossy(&damage(s.as_bytes().to_vec(), dmg)).into_owned()
}
