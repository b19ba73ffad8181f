//! Names and descriptors by the JVMS grammar (4.2, 4.3).

pub fn unqualified(s: &str) -> bool {
    !s.is_empty() && !s.contains(|c| c == '.' || c == ';' || c == '[' || c == '/')
}

/// A legal name for a declared method.
pub fn method_name(s: &str) -> bool {
    s == "<init>" || s == "<clinit>" || (unqualified(s) && !s.contains('<') && !s.contains('>'))
}

pub fn binary_name(s: &str) -> bool {
    s.split('/').all(unqualified)
}

/// None: unspecified (empty).
pub fn module_name(s: &str) -> Option<bool> {
    if s.is_empty() {
        return None;
    }
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if (c as u32) <= 0x1F || c == ':' || c == '@' {
            return Some(false);
        }
        if c == '\\' {
            match cs.get(i + 1) {
                Some('\\') | Some(':') | Some('@') => i += 1,
                _ => return Some(false),
            }
        }
        i += 1;
    }
    Some(true)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FieldDesc {
    pub dims: u32,
    /// 'B','C',... or 'L'
    pub base: char,
    /// byte range of the class name within the descriptor text
    pub class: Option<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MethodDesc {
    pub params: Vec<FieldDesc>,
    pub ret: Option<FieldDesc>,
}

/// Parse one field type at byte offset `at`; returns it and the offset following it.
fn field_type(s: &str, at: usize) -> Option<(FieldDesc, usize)> {
    let b = s.as_bytes();
    let mut i = at;
    while i < b.len() && b[i] == b'[' {
        i += 1;
    }
    let dims = i - at;
    if dims > 255 {
        return None;
    }
    let dims = dims as u32;
    let base = *b.get(i)?;
    match base {
        b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z' => {
            Some((FieldDesc { dims, base: base as char, class: None }, i + 1))
        }
        b'L' => {
            let start = i + 1;
            let end = start + b[start..].iter().position(|x| *x == b';')?;
            if !binary_name(&s[start..end]) {
                return None;
            }
            Some((FieldDesc { dims, base: 'L', class: Some((start, end)) }, end + 1))
        }
        _ => None,
    }
}

pub fn field_desc(s: &str) -> Option<FieldDesc> {
    let (d, end) = field_type(s, 0)?;
    if end == s.len() { Some(d) } else { None }
}

pub fn return_desc(s: &str) -> bool {
    s == "V" || field_desc(s).is_some()
}

pub fn method_desc(s: &str) -> Option<MethodDesc> {
    let b = s.as_bytes();
    if b.first() != Some(&b'(') {
        return None;
    }
    let mut i = 1;
    let mut params = Vec::new();
    loop {
        match b.get(i)? {
            b')' => break,
            _ => {
                let (d, n) = field_type(s, i)?;
                params.push(d);
                i = n;
            }
        }
    }
    i += 1;
    if &s[i..] == "V" {
        return Some(MethodDesc { params, ret: None });
    }
    let (d, n) = field_type(s, i)?;
    if n == s.len() { Some(MethodDesc { params, ret: Some(d) }) } else { None }
}

/// Argument slots, per 4.3.3 (long and double count two).
pub fn arg_slots(d: &MethodDesc) -> usize {
    d.params.iter().map(|p| if p.dims == 0 && (p.base == 'J' || p.base == 'D') { 2 } else { 1 }).sum()
}

pub fn array_desc(s: &str) -> bool {
    s.starts_with('[') && field_desc(s).is_some()
}
