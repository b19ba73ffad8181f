//! Modified UTF-8 (JVMS 4.4.7), written from the specification.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Decoded {
    /// Strictly valid; `plain` if the bytes are also ordinary UTF-8 (so can be borrowed).
    Text { s: String, plain: bool },
    /// Not valid modified UTF-8, or not representable (unpaired surrogate).
    Raw,
    /// Contains bytes the format forbids (0x00, 0xF0..) yet is ordinary UTF-8: unspecified.
    Unspec,
}

/// Decode to UTF-16 code units, or None if not valid modified UTF-8.
pub fn units(b: &[u8]) -> Option<Vec<u16>> {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        let cont = |k: usize| -> Option<u16> {
            let c = *b.get(i + k)?;
            if c & 0xC0 == 0x80 { Some(u16::from(c & 0x3F)) } else { None }
        };
        if (0x01..=0x7F).contains(&x) {
            out.push(u16::from(x));
            i += 1;
        } else if x & 0xE0 == 0xC0 {
            let v = (u16::from(x & 0x1F) << 6) | cont(1)?;
            if v != 0 && v < 0x80 {
                return None; // overlong
            }
            out.push(v);
            i += 2;
        } else if x & 0xF0 == 0xE0 {
            let v = (u16::from(x & 0x0F) << 12) | (cont(1)? << 6) | cont(2)?;
            if v < 0x800 {
                return None; // overlong
            }
            out.push(v);
            i += 3;
        } else {
            return None; // 0x00, 0x80..0xBF, 0xF0..0xFF
        }
    }
    Some(out)
}

pub fn decode(b: &[u8]) -> Decoded {
    let plain = std::str::from_utf8(b).is_ok();
    if plain && b.iter().any(|x| *x == 0 || *x >= 0xF0) {
        return Decoded::Unspec;
    }
    match units(b) {
        None => Decoded::Raw,
        Some(u) => match String::from_utf16(&u) {
            Ok(s) => Decoded::Text { s, plain },
            Err(_) => Decoded::Raw,
        },
    }
}

pub fn encode_units(u: &[u16], out: &mut Vec<u8>) {
    for &v in u {
        if v != 0 && v < 0x80 {
            out.push(v as u8);
        } else if v < 0x800 {
            out.push(0xC0 | (v >> 6) as u8);
            out.push(0x80 | (v & 0x3F) as u8);
        } else {
            out.push(0xE0 | (v >> 12) as u8);
            out.push(0x80 | ((v >> 6) & 0x3F) as u8);
            out.push(0x80 | (v & 0x3F) as u8);
        }
    }
}

pub fn encode(s: &str) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    let u: Vec<u16> = s.encode_utf16().collect();
    encode_units(&u, &mut out);
    out
}
