//! Reference decoder for code arrays, by JVMS chapter 6.

use crate::grammar;
use crate::node::*;
use crate::refp::{fd_text, rej, Pool, Stats, E, R};
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    /// no operands
    N,
    /// implicit local index
    Imp(u16),
    /// local index, u1
    Loc,
    I8,
    I16,
    LdcNarrow,
    LdcWide,
    Ldc2,
    Iinc,
    J16,
    J32,
    Table,
    Lookup,
    Field,
    Virtual,
    Special,
    Static,
    Interface,
    Dynamic,
    New,
    Newarray,
    /// reference to a class or array type
    Type,
    Wide,
    Multi,
    /// reserved: defined, but must not appear in class files
    Reserved,
    Undefined,
}

/// The instruction with the given number: the name under which it is described, and its format.
pub fn op(n: u8) -> (&'static str, F) {
    use F::*;
    match n {
        0 => ("Nop", N),
        1 => ("AconstNull", N),
        2 => ("IconstM1", N),
        3 => ("Iconst0", N),
        4 => ("Iconst1", N),
        5 => ("Iconst2", N),
        6 => ("Iconst3", N),
        7 => ("Iconst4", N),
        8 => ("Iconst5", N),
        9 => ("Lconst0", N),
        10 => ("Lconst1", N),
        11 => ("Fconst0", N),
        12 => ("Fconst1", N),
        13 => ("Fconst2", N),
        14 => ("Dconst0", N),
        15 => ("Dconst1", N),
        16 => ("Bipush", I8),
        17 => ("Sipush", I16),
        18 => ("Ldc", LdcNarrow),
        19 => ("LdcW", LdcWide),
        20 => ("Ldc2W", Ldc2),
        21 => ("Iload", Loc),
        22 => ("Lload", Loc),
        23 => ("Fload", Loc),
        24 => ("Dload", Loc),
        25 => ("Aload", Loc),
        26..=29 => ("Iload", Imp(u16::from(n) - 26)),
        30..=33 => ("Lload", Imp(u16::from(n) - 30)),
        34..=37 => ("Fload", Imp(u16::from(n) - 34)),
        38..=41 => ("Dload", Imp(u16::from(n) - 38)),
        42..=45 => ("Aload", Imp(u16::from(n) - 42)),
        46 => ("Iaload", N),
        47 => ("Laload", N),
        48 => ("Faload", N),
        49 => ("Daload", N),
        50 => ("Aaload", N),
        51 => ("Baload", N),
        52 => ("Caload", N),
        53 => ("Saload", N),
        54 => ("Istore", Loc),
        55 => ("Lstore", Loc),
        56 => ("Fstore", Loc),
        57 => ("Dstore", Loc),
        58 => ("Astore", Loc),
        59..=62 => ("Istore", Imp(u16::from(n) - 59)),
        63..=66 => ("Lstore", Imp(u16::from(n) - 63)),
        67..=70 => ("Fstore", Imp(u16::from(n) - 67)),
        71..=74 => ("Dstore", Imp(u16::from(n) - 71)),
        75..=78 => ("Astore", Imp(u16::from(n) - 75)),
        79 => ("Iastore", N),
        80 => ("Lastore", N),
        81 => ("Fastore", N),
        82 => ("Dastore", N),
        83 => ("Aastore", N),
        84 => ("Bastore", N),
        85 => ("Castore", N),
        86 => ("Sastore", N),
        87 => ("Pop", N),
        88 => ("Pop2", N),
        89 => ("Dup", N),
        90 => ("DupX1", N),
        91 => ("DupX2", N),
        92 => ("Dup2", N),
        93 => ("Dup2X1", N),
        94 => ("Dup2X2", N),
        95 => ("Swap", N),
        96 => ("Iadd", N),
        97 => ("Ladd", N),
        98 => ("Fadd", N),
        99 => ("Dadd", N),
        100 => ("Isub", N),
        101 => ("Lsub", N),
        102 => ("Fsub", N),
        103 => ("Dsub", N),
        104 => ("Imul", N),
        105 => ("Lmul", N),
        106 => ("Fmul", N),
        107 => ("Dmul", N),
        108 => ("Idiv", N),
        109 => ("Ldiv", N),
        110 => ("Fdiv", N),
        111 => ("Ddiv", N),
        112 => ("Irem", N),
        113 => ("Lrem", N),
        114 => ("Frem", N),
        115 => ("Drem", N),
        116 => ("Ineg", N),
        117 => ("Lneg", N),
        118 => ("Fneg", N),
        119 => ("Dneg", N),
        120 => ("Ishl", N),
        121 => ("Lshl", N),
        122 => ("Ishr", N),
        123 => ("Lshr", N),
        124 => ("Iushr", N),
        125 => ("Lushr", N),
        126 => ("Iand", N),
        127 => ("Land", N),
        128 => ("Ior", N),
        129 => ("Lor", N),
        130 => ("Ixor", N),
        131 => ("Lxor", N),
        132 => ("Iinc", Iinc),
        133 => ("I2l", N),
        134 => ("I2f", N),
        135 => ("I2d", N),
        136 => ("L2i", N),
        137 => ("L2f", N),
        138 => ("L2d", N),
        139 => ("F2i", N),
        140 => ("F2l", N),
        141 => ("F2d", N),
        142 => ("D2i", N),
        143 => ("D2l", N),
        144 => ("D2f", N),
        145 => ("I2b", N),
        146 => ("I2c", N),
        147 => ("I2s", N),
        148 => ("Lcmp", N),
        149 => ("Fcmpl", N),
        150 => ("Fcmpg", N),
        151 => ("Dcmpl", N),
        152 => ("Dcmpg", N),
        153 => ("Ifeq", J16),
        154 => ("Ifne", J16),
        155 => ("Iflt", J16),
        156 => ("Ifge", J16),
        157 => ("Ifgt", J16),
        158 => ("Ifle", J16),
        159 => ("IfIcmpeq", J16),
        160 => ("IfIcmpne", J16),
        161 => ("IfIcmplt", J16),
        162 => ("IfIcmpge", J16),
        163 => ("IfIcmpgt", J16),
        164 => ("IfIcmple", J16),
        165 => ("IfAcmpeq", J16),
        166 => ("IfAcmpne", J16),
        167 => ("Goto", J16),
        168 => ("Jsr", J16),
        169 => ("Ret", Loc),
        170 => ("Tableswitch", Table),
        171 => ("Lookupswitch", Lookup),
        172 => ("Ireturn", N),
        173 => ("Lreturn", N),
        174 => ("Freturn", N),
        175 => ("Dreturn", N),
        176 => ("Areturn", N),
        177 => ("Return", N),
        178 => ("Getstatic", Field),
        179 => ("Putstatic", Field),
        180 => ("Getfield", Field),
        181 => ("Putfield", Field),
        182 => ("Invokevirtual", Virtual),
        183 => ("Invokespecial", Special),
        184 => ("Invokestatic", Static),
        185 => ("Invokeinterface", Interface),
        186 => ("Invokedynamic", Dynamic),
        187 => ("New", New),
        188 => ("Newarray", Newarray),
        189 => ("Anewarray", Type),
        190 => ("Arraylength", N),
        191 => ("Athrow", N),
        192 => ("Checkcast", Type),
        193 => ("Instanceof", Type),
        194 => ("Monitorenter", N),
        195 => ("Monitorexit", N),
        196 => ("", Wide),
        197 => ("Multianewarray", Multi),
        198 => ("Ifnull", J16),
        199 => ("Ifnonnull", J16),
        200 => ("Goto", J32),
        201 => ("Jsr", J32),
        202 => ("Breakpoint", Reserved),
        254 => ("Impdep1", Reserved),
        255 => ("Impdep2", Reserved),
        _ => ("", Undefined),
    }
}

struct In<'a> {
    b: &'a [u8],
    at: usize,
}

impl In<'_> {
    fn u(&mut self, n: usize) -> R<u32> {
        if self.b.len() - self.at < n {
            return rej(C14, format!("instruction cut short at {}", self.at));
        }
        let mut v = 0u32;
        for _ in 0..n {
            v = (v << 8) | u32::from(self.b[self.at]);
            self.at += 1;
        }
        Ok(v)
    }
    fn i32(&mut self) -> R<i32> {
        Ok(self.u(4)? as i32)
    }
}

pub fn jump_node(j: i64) -> Node {
    int(j).l("jump").ar(C14)
}

pub fn decode(code: &[u8], p: &Pool, major: u16, st: &mut Stats) -> R<(Node, Option<String>)> {
    let mut open: Option<String> = None;
    let mut i = In { b: code, at: 0 };
    let mut out = Vec::new();
    let mut starts: HashSet<i64> = HashSet::new();
    let mut jumps: Vec<(usize, i64)> = Vec::new();
    let mut note = |w: &str| {
        open.get_or_insert(w.to_string());
    };
    while i.at < code.len() {
        let at = i.at;
        let n = code[at];
        i.at += 1;
        let (name, f) = op(n);
        st.insns += 1;
        st.opcodes_seen[usize::from(n) / 64] |= 1 << (n % 64);
        starts.insert(at as i64);
        let mut args = Vec::new();
        match f {
            F::N => {}
            F::Imp(v) => args.push(int(v.into())),
            F::Loc => {
                if n == 169 && major >= 51 {
                    note("ret in version 51 or later");
                }
                args.push(int(i.u(1)?.into()))
            }
            F::I8 => args.push(int((i.u(1)? as u8 as i8).into())),
            F::I16 => args.push(int((i.u(2)? as u16 as i16).into())),
            F::LdcNarrow | F::LdcWide | F::Ldc2 => {
                let k = i.u(if f == F::LdcNarrow { 1 } else { 2 })? as usize;
                let v = p.loadable(k, C14)?;
                let e = p.get(k, C14)?;
                let wide = match e {
                    E::Long(_) | E::Double(_) => true,
                    E::Dyn(_, m) => matches!(p.nat_str(*m, C14)?.1, "J" | "D"),
                    _ => false,
                };
                if wide != (f == F::Ldc2) {
                    note("constant of the wrong size for ldc");
                }
                if matches!(e, E::Class(_)) && major < 49 {
                    note("ldc of a class before version 49");
                }
                args.push(v);
            }
            F::Iinc => {
                args.push(int(i.u(1)?.into()));
                args.push(int((i.u(1)? as u8 as i8).into()));
            }
            F::J16 | F::J32 => {
                if name == "Jsr" && major >= 51 {
                    note("jsr in version 51 or later");
                }
                let j = if f == F::J16 { i64::from(i.u(2)? as u16 as i16) } else { i64::from(i.i32()?) };
                jumps.push((at, j));
                args.push(jump_node(j));
            }
            F::Table | F::Lookup => {
                while i.at % 4 != 0 {
                    if i.u(1)? != 0 && major < 51 {
                        note("switch padding is not zero");
                    }
                }
                let default = i.i32()?;
                jumps.push((at, default.into()));
                args.push(jump_node(default.into()));
                if f == F::Table {
                    let lo = i64::from(i.i32()?);
                    let hi = i64::from(i.i32()?);
                    if lo > hi {
                        return rej(C14, "tableswitch low > high");
                    }
                    let count = (hi - lo + 1) as usize;
                    if count > (code.len() - i.at) / 4 {
                        return rej(C14, "tableswitch cut short");
                    }
                    let mut v = Vec::with_capacity(count);
                    for _ in 0..count {
                        let j = i.i32()?;
                        jumps.push((at, j.into()));
                        v.push(jump_node(j.into()));
                    }
                    args.push(int(lo));
                    args.push(int(hi));
                    args.push(list(v));
                } else {
                    let count = i.i32()?;
                    if count < 0 {
                        return rej(C14, "lookupswitch with a negative count");
                    }
                    let count = count as usize;
                    if count > (code.len() - i.at) / 8 {
                        return rej(C14, "lookupswitch cut short");
                    }
                    let mut v = Vec::with_capacity(count);
                    let mut last: Option<i32> = None;
                    for _ in 0..count {
                        let k = i.i32()?;
                        if last.is_some_and(|l| l >= k) {
                            note("lookupswitch keys are not sorted");
                        }
                        last = Some(k);
                        let j = i.i32()?;
                        jumps.push((at, j.into()));
                        v.push(list(vec![int(k.into()).l("key"), jump_node(j.into())]));
                    }
                    args.push(list(v));
                }
            }
            F::Field | F::Virtual | F::Special | F::Static | F::Interface => {
                let k = i.u(2)? as usize;
                let (c, m) = match (p.get(k, C14)?, f) {
                    (E::Field(c, m), F::Field) => (*c, *m),
                    (E::Method(c, m), F::Virtual | F::Special | F::Static) => (*c, *m),
                    (E::IMethod(c, m), F::Special | F::Static) => {
                        if major < 52 {
                            note("interface method called before version 52");
                        }
                        (*c, *m)
                    }
                    (E::IMethod(c, m), F::Interface) => (*c, *m),
                    _ => return rej(C05 | C14, format!("entry {} is the wrong kind for {}", k, name)),
                };
                if f != F::Field {
                    let (mn, _) = p.nat_str(m, C14)?;
                    if mn.starts_with('<') && !(f == F::Special && mn == "<init>") {
                        note("special method called");
                    }
                }
                args.push(member_ref(p.class_at(c, C14)?, p.nat_at(m, C14)?));
                if f == F::Interface {
                    let count = i.u(1)?;
                    if count == 0 {
                        note("invokeinterface count 0");
                    }
                    args.push(int(count.into()));
                    if i.u(1)? != 0 {
                        return rej(C14, "invokeinterface without its zero byte");
                    }
                }
            }
            F::Dynamic => {
                let k = i.u(2)? as usize;
                match p.get(k, C14)? {
                    E::Indy(x, m) => args.push(dynamic(*x, p.nat_at(*m, C14)?)),
                    _ => return rej(C05 | C14, "invokedynamic of something else"),
                }
                if i.u(2)? != 0 {
                    return rej(C14, "invokedynamic without its zero bytes");
                }
            }
            F::New => {
                let k = i.u(2)? as usize;
                let (s, loc) = p.class_str(k, C14)?;
                if s.starts_with('[') {
                    note("new of an array type");
                }
                args.push(text(s.to_string(), loc));
            }
            F::Newarray => {
                let t = match i.u(1)? {
                    4 => "Boolean",
                    5 => "Char",
                    6 => "Float",
                    7 => "Double",
                    8 => "Byte",
                    9 => "Short",
                    10 => "Int",
                    11 => "Long",
                    t => return rej(C14, format!("newarray of type {}", t)),
                };
                args.push(sym(t));
            }
            F::Type | F::Multi => {
                let k = i.u(2)? as usize;
                let (s, loc) = p.class_str(k, C14)?;
                let array = s.starts_with('[');
                if array {
                    args.push(variant("ArrayType", vec![fd_text(s, loc, C14)?]));
                } else {
                    args.push(variant("BinaryName", vec![text(s.to_string(), loc)]));
                }
                if f == F::Multi {
                    let d = i.u(1)?;
                    let dims = grammar::field_desc(s).map_or(0, |d| d.dims);
                    if !array || d == 0 || d > dims {
                        note("multianewarray dimensions");
                    }
                    args.push(int(d.into()));
                }
                if n == 189 && grammar::field_desc(s).map_or(0, |d| d.dims) == 255 {
                    note("anewarray of 255 dimensions");
                }
            }
            F::Wide => {
                let n = i.u(1)? as u8;
                let (name, f) = op(n);
                match f {
                    F::Loc => {
                        if n == 169 && major >= 51 {
                            note("ret in version 51 or later");
                        }
                        args.push(int(i.u(2)?.into()));
                    }
                    F::Iinc => {
                        args.push(int(i.u(2)?.into()));
                        args.push(int((i.u(2)? as u16 as i16).into()));
                    }
                    _ => return rej(C14, format!("wide form of {}", n)),
                }
                out.push(insn(at, name, args));
                continue;
            }
            F::Reserved => note("reserved instruction"),
            F::Undefined => return rej(C14, format!("undefined instruction {}", n)),
        }
        out.push(insn(at, name, args));
    }
    st.jumps += jumps.len();
    for (at, j) in jumps {
        if !starts.contains(&(at as i64 + j)) {
            return rej(C14, format!("jump from {} by {} does not reach an instruction", at, j));
        }
    }
    Ok((list(out), open))
}

pub fn insn(at: usize, name: &'static str, args: Vec<Node>) -> Node {
    list(vec![int(at as i64).l("offset").ar(C14), variant(name, args).l("insn")])
}

