//! Well-formed classes full of texts that occur nowhere else and of long tables: what is kept of
//! them after a parse is seen in the memory in use.

use crate::mini::*;
use crate::tape::Tape;

pub fn class(t: &mut Tape) -> Vec<u8> {
    let tag = t.bits(48);
    let names = t.urange(40, 160);
    let long = *t.pick(&[100usize, 3000, 20000, 65000]);
    let rows = *t.pick(&[10u16, 500, 4000]);
    let end = *t.pick(&["", "\u{e9}", "\u{1f600}"]);
    let name = |i: usize| format!("n{:x}x{:x}{}", tag, i, end);
    let mut m = M::new(61);
    m.this = m.class(&format!("p{:x}/{}", tag, name(0)));
    for i in 0..names {
        let x = m.memb(0x18, &name(i), &format!("[L{};", name(i + 1000)), &[]);
        m.fields.push(x);
        let s = m.utf(&format!("text {}", name(i + 2000)));
        m.r1(8, s);
        let c = m.class(&name(i + 3000));
        if i % 8 == 0 {
            m.ifs.push(c);
        }
        let r = m.member(10, &name(i + 4000), &name(i + 5000), &format!("(L{};)V", name(i + 6000)));
        m.handle(6, r);
        let u = m.utf_b(&cat(&[name(i + 7000).replace(end, "").as_bytes(), &[0xed, 0xa0, 0x80]]));
        m.r1(8, u);
        m.entry(5, &(tag ^ i as u64).to_be_bytes());
    }
    m.bootstrap(rows.min(4000));
    let x = m.nat("dy", &format!("L{};", name(8000)));
    m.r2(17, rows - 1, x);
    // tables
    let ln = m.attr("LineNumberTable", &cat(&[&u2(rows), &vec![0; usize::from(rows) * 4]]));
    let st = m.attr("StackMapTable", &cat(&[&u2(rows), &vec![1; usize::from(rows)]]));
    let (n, d) = (m.utf(&name(9000)), m.utf(&format!("L{};", name(9001))));
    let row = cat(&[&u2(0), &u2(1), &u2(n), &u2(d), &u2(0)]);
    let lv = m.attr("LocalVariableTable", &cat(&[&u2(rows), &row.repeat(rows.into())]));
    let mut code = vec![0u8; long / 4 * 4 - 1];
    // a switch whose cases all lead to the return after it
    let cases = 50usize;
    let n = code.len();
    code.push(0xaa);
    // the switch starts at n, which is 3 above a multiple of 4: no padding
    let to = (13 + 4 * cases) as u32;
    code.extend_from_slice(&cat(&[&u4(to), &u4(1), &u4(cases as u32)]));
    for _ in 0..cases {
        code.extend_from_slice(&u4(to));
    }
    code.push(0xb1);
    debug_assert_eq!(code.len(), n + to as usize + 1);
    let a = m.code(&code, &[ln, st, lv]);
    let x = m.memb(1, &name(9002), &format!("(L{};[[I)L{};", name(9003), name(9004)), &[a]);
    m.methods.push(x);
    for i in 0..names / 2 {
        let x = m.memb(0x401, &name(i + 10000), &format!("(I[L{};)L{};", name(i + 11000), name(i + 12000)), &[]);
        m.methods.push(x);
    }
    // annotations and other attributes
    let ty = m.utf(&format!("L{};", name(13000)));
    let mut an = u2(names as u16).to_vec();
    for i in 0..names {
        let (k, v) = (m.utf(&name(i + 14000)), m.utf(&name(i + 15000)));
        an.extend_from_slice(&cat(&[&u2(ty), &u2(1), &u2(k), b"s", &u2(v)]));
    }
    let x = m.attr("RuntimeVisibleAnnotations", &an);
    m.attrs.push(x);
    let x = m.attr("SourceDebugExtension", &crate::mutf8::encode(&name(16000).repeat(20)));
    m.attrs.push(x);
    let x = m.attr(&name(17000), &vec![7; long]);
    m.attrs.push(x);
    m.bytes()
}
