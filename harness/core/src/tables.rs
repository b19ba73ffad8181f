//! Every table of the format: filled with all short sequences of a few rows that differ in one
//! column (equal rows, repeated, out of order), and with rows running over every value of a column.

use crate::mini::*;
use std::sync::OnceLock;

/// What a column holds.
#[derive(Clone, Copy, PartialEq)]
enum C {
    /// any number of two bytes
    N,
    /// any number of one byte
    B,
    /// one of a few bytes
    K(&'static [u8]),
    /// one of a few words
    F(&'static [u16]),
    Text,
    TextOpt,
    Class,
    ClassOpt,
    Desc,
    Module,
    Package,
    Handle,
    Const,
    Int,
    /// fixed bytes
    Fix(&'static [u8]),
}
use C::*;

struct Table {
    prop: u32,
    /// the width of the count
    count: usize,
    cols: &'static [C],
    place: fn(&mut Kit, &[u8]) -> (),
}

/// The entries that rows refer to: four of each kind.
struct Kit {
    m: M,
    text: [u16; 4],
    class: [u16; 4],
    desc: [u16; 4],
    module: [u16; 4],
    package: [u16; 4],
    handle: [u16; 4],
    cons: [u16; 4],
    int: [u16; 4],
}

fn kit(modules: bool) -> Kit {
    let mut m = M::new(61);
    let t = ["a", "b", "aa", "B"];
    let text = t.map(|s| m.utf(s));
    let class = text.map(|u| m.r1(7, u));
    let desc = ["I", "La;", "[I", "J"].map(|s| m.utf(s));
    // module and package entries belong in modules only
    let module = text.map(|u| if modules { m.r1(19, u) } else { 0 });
    let package = text.map(|u| if modules { m.r1(20, u) } else { 0 });
    let r = m.member(10, "C", "m", "()V");
    let n = m.member(10, "C", "<init>", "()V");
    let f = m.member(9, "C", "f", "I");
    let handle = [m.handle(6, r), m.handle(5, r), m.handle(8, n), m.handle(1, f)];
    let int = [1u32, 2, 0, 0xffff_ffff].map(|v| m.entry(3, &u4(v)));
    let cons = [int[0], class[1], m.r1(8, text[0]), handle[0]];
    Kit { m, text, class, desc, module, package, handle, cons, int }
}

impl Kit {
    fn cell(&self, c: C, pick: usize, o: &mut Vec<u8>) {
        let p = pick % 4;
        let mut w = |v: u16| o.extend_from_slice(&u2(v));
        match c {
            N => w([5, 9, 0, 65535][p]),
            B => o.push([1, 2, 0, 255][p]),
            K(v) => o.push(v[pick % v.len()]),
            F(v) => w(v[pick % v.len()]),
            Text => w(self.text[p]),
            TextOpt => w([self.text[0], 0, self.text[1], self.text[2]][p]),
            Class => w(self.class[p]),
            ClassOpt => w([self.class[0], 0, self.class[1], self.class[2]][p]),
            Desc => w(self.desc[p]),
            Module => w(self.module[p]),
            Package => w(self.package[p]),
            Handle => w(self.handle[p]),
            Const => w(self.cons[p]),
            Int => w(self.int[p]),
            Fix(b) => o.extend_from_slice(b),
        }
    }
    fn class_attr(&mut self, name: &str, b: &[u8]) {
        let a = self.m.attr(name, b);
        self.m.attrs.push(a);
    }
    fn on_method(&mut self, name: &str, b: &[u8]) {
        let a = self.m.attr(name, b);
        let x = self.m.memb(0x400, "m", "(II)V", &[a]);
        self.m.methods.push(x);
    }
    fn on_code(&mut self, name: &str, b: &[u8]) {
        let a = self.m.attr(name, b);
        let a = self.m.code(&[0xb1], &[a]);
        let x = self.m.memb(1, "m", "()V", &[a]);
        self.m.methods.push(x);
    }
    /// A module declaration with this as one of its tables.
    fn module_attr(&mut self, which: usize, b: &[u8]) {
        let mut v = cat(&[&u2(self.module[0]), &u2(0), &u2(0)]);
        for i in 0..5 {
            v.extend_from_slice(if i == which { b } else { &[0, 0] });
        }
        self.class_attr("Module", &v);
        self.m.flags = 0x8000;
        self.m.sup = 0;
    }
    /// The same with this as the targets of one exported or opened package, or of one service.
    fn module_to(&mut self, which: usize, b: &[u8]) {
        let head = if which == 4 { cat(&[&u2(1), &u2(self.class[3])]) } else { cat(&[&u2(1), &u2(self.package[3]), &u2(0)]) };
        self.module_attr(which, &cat(&[&head, b]));
    }
    /// A method whose code is this, followed by a return.
    fn code(&mut self, b: &[u8]) {
        let a = self.m.code(&cat(&[b, &[0xb1]]), &[]);
        let x = self.m.memb(1, "m", "()V", &[a]);
        self.m.methods.push(x);
    }
    fn frame(&mut self, b: &[u8]) {
        self.on_code("StackMapTable", &cat(&[&u2(1), b]));
    }
    fn element(&mut self, b: &[u8]) {
        let v = cat(&[&u2(1), &u2(self.desc[1]), &u2(1), &u2(self.text[0]), b]);
        self.class_attr("RuntimeVisibleAnnotations", &v);
    }
    fn target(&mut self, b: &[u8], path: &[u8]) {
        let v = cat(&[&u2(1), b, path, &u2(self.desc[1]), &u2(0)]);
        self.on_code("RuntimeInvisibleTypeAnnotations", &v);
    }
}

const VERIF: &[u8] = &[0, 1, 2, 3, 4, 5, 6];

const TABLES: &[Table] = &[
    Table {
        prop: 3,
        count: 2,
        cols: &[Class],
        place: |k, b| k.m.ifs = b[2..].chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect(),
    },
    // C09
    Table {
        prop: 9,
        count: 2,
        cols: &[N, N, N, ClassOpt],
        place: |k, b| {
            let a = k.m.attr("Code", &cat(&[&u2(1), &u2(1), &u4(1), &[0xb1], b, &u2(0)]));
            let x = k.m.memb(1, "m", "()V", &[a]);
            k.m.methods.push(x);
        },
    },
    Table { prop: 9, count: 2, cols: &[N, N], place: |k, b| k.on_code("LineNumberTable", b) },
    Table { prop: 9, count: 2, cols: &[N, N, Text, Desc, N], place: |k, b| k.on_code("LocalVariableTable", b) },
    Table { prop: 9, count: 2, cols: &[N, N, Text, Text, N], place: |k, b| k.on_code("LocalVariableTypeTable", b) },
    // frames of each type
    Table { prop: 9, count: 2, cols: &[K(&[0, 1, 63, 5])], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[K(&[64, 65, 127, 70]), K(VERIF)], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[247]), N, K(VERIF)], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[K(&[248, 249, 250, 251]), N], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[251]), N], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[248]), N], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[249]), N], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[250]), N], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[252]), N, Fix(&[7]), Class], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[253]), N, K(VERIF), Fix(&[8]), N], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[254]), N, K(VERIF), K(VERIF), K(VERIF)], place: |k, b| k.on_code("StackMapTable", b) },
    Table { prop: 9, count: 2, cols: &[Fix(&[255]), N, Fix(&[0, 1]), K(VERIF), Fix(&[0, 1]), K(VERIF)], place: |k, b| k.on_code("StackMapTable", b) },
    // the locals and the stack of a full frame
    Table { prop: 9, count: 2, cols: &[K(VERIF)], place: |k, b| k.frame(&cat(&[&[255, 0, 1], b, &u2(0)])) },
    Table { prop: 9, count: 2, cols: &[Fix(&[7]), Class], place: |k, b| k.frame(&cat(&[&[255, 0, 1], b, &u2(0)])) },
    Table { prop: 9, count: 2, cols: &[Fix(&[8]), N], place: |k, b| k.frame(&cat(&[&[255, 0, 1], b, &u2(0)])) },
    Table { prop: 9, count: 2, cols: &[K(VERIF)], place: |k, b| k.frame(&cat(&[&[255, 0, 1, 0, 0], b])) },
    Table { prop: 9, count: 2, cols: &[Fix(&[8]), N], place: |k, b| k.frame(&cat(&[&[255, 0, 1, 0, 0], b])) },
    // the attributes of code
    Table {
        prop: 9,
        count: 2,
        cols: &[Text, Fix(&[0, 0, 0, 1]), B],
        place: |k, b| {
            let a = k.m.attr("Code", &cat(&[&u2(1), &u2(1), &u4(1), &[0xb1], &u2(0), b]));
            let x = k.m.memb(1, "m", "()V", &[a]);
            k.m.methods.push(x);
        },
    },
    // C10
    Table { prop: 10, count: 2, cols: &[Desc, Fix(&[0, 0])], place: |k, b| k.on_method("RuntimeInvisibleAnnotations", b) },
    Table {
        prop: 10,
        count: 2,
        cols: &[Text, Fix(b"I"), Int],
        place: |k, b| {
            let v = cat(&[&u2(1), &u2(k.desc[1]), b]);
            k.class_attr("RuntimeVisibleAnnotations", &v);
        },
    },
    Table { prop: 10, count: 2, cols: &[K(b"BCIS"), Int], place: |k, b| k.element(&cat(&[b"[", b])) },
    Table { prop: 10, count: 2, cols: &[Fix(b"s"), Text], place: |k, b| k.element(&cat(&[b"[", b])) },
    Table { prop: 10, count: 2, cols: &[Fix(b"e"), Desc, Text], place: |k, b| k.element(&cat(&[b"[", b])) },
    Table { prop: 10, count: 2, cols: &[Fix(b"c"), Desc], place: |k, b| k.element(&cat(&[b"[", b])) },
    Table { prop: 10, count: 2, cols: &[Fix(b"@"), Desc, Fix(&[0, 0])], place: |k, b| k.element(&cat(&[b"[", b])) },
    Table { prop: 10, count: 2, cols: &[Fix(&[b'[', 0, 1, b'I']), Int], place: |k, b| k.on_method("AnnotationDefault", &cat(&[b"[", b])) },
    Table { prop: 10, count: 1, cols: &[Fix(&[0, 1]), Desc, Fix(&[0, 0])], place: |k, b| k.on_method("RuntimeVisibleParameterAnnotations", b) },
    Table { prop: 10, count: 1, cols: &[K(&[0]), Fix(&[0])], place: |k, b| k.on_method("RuntimeInvisibleParameterAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[Desc, Fix(&[0, 0])], place: |k, b| k.on_method("RuntimeVisibleParameterAnnotations", &cat(&[&[1], b])) },
    Table { prop: 10, count: 2, cols: &[K(&[0, 1, 0x16]), B, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_method("RuntimeVisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[K(&[0x10, 0x17, 0x42]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_code("RuntimeVisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[Fix(&[0x10]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.class_attr("RuntimeVisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[Fix(&[0x17]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_method("RuntimeVisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[Fix(&[0x42]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_code("RuntimeVisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[K(&[0x11, 0x12]), B, B, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_method("RuntimeVisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[K(&[0x43, 0x44, 0x45, 0x46]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_code("RuntimeInvisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[Fix(&[0x43]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_code("RuntimeInvisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[Fix(&[0x44]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_code("RuntimeInvisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[Fix(&[0x45]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_code("RuntimeInvisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[Fix(&[0x46]), N, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_code("RuntimeInvisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[K(&[0x47, 0x48, 0x49, 0x4b]), N, B, Fix(&[0]), Desc, Fix(&[0, 0])], place: |k, b| k.on_code("RuntimeInvisibleTypeAnnotations", b) },
    Table { prop: 10, count: 2, cols: &[K(&[0x13, 0x14, 0x15]), Fix(&[1]), K(&[0, 1, 2, 3]), B, Desc, Fix(&[0, 0])], place: |k, b| k.on_method("RuntimeInvisibleTypeAnnotations", b) },
    Table { prop: 10, count: 1, cols: &[K(&[0, 1, 2, 3]), B], place: |k, b| k.target(&[0x13], b) },
    Table { prop: 10, count: 1, cols: &[K(&[3]), B], place: |k, b| k.target(&[0x16, 7], b) },
    Table { prop: 10, count: 2, cols: &[N, N, N], place: |k, b| k.target(&cat(&[&[0x40], b]), &[0]) },
    Table { prop: 10, count: 2, cols: &[N, N, N], place: |k, b| k.target(&cat(&[&[0x41], b]), &[1, 0, 0]) },
    // C11
    Table { prop: 11, count: 2, cols: &[Class], place: |k, b| k.on_method("Exceptions", b) },
    Table { prop: 11, count: 2, cols: &[Class, ClassOpt, TextOpt, N], place: |k, b| k.class_attr("InnerClasses", b) },
    Table { prop: 11, count: 1, cols: &[TextOpt, F(&[0, 0x10, 0x1000, 0x8000])], place: |k, b| k.on_method("MethodParameters", b) },
    Table { prop: 11, count: 2, cols: &[Handle, Fix(&[0, 0])], place: |k, b| k.class_attr("BootstrapMethods", b) },
    Table { prop: 11, count: 2, cols: &[Handle, Fix(&[0, 1]), Const], place: |k, b| k.class_attr("BootstrapMethods", b) },
    Table {
        prop: 11,
        count: 2,
        cols: &[Const],
        place: |k, b| {
            let v = cat(&[&u2(1), &u2(k.handle[0]), b]);
            k.class_attr("BootstrapMethods", &v);
        },
    },
    Table { prop: 11, count: 2, cols: &[Class], place: |k, b| k.class_attr("NestMembers", b) },
    Table { prop: 11, count: 2, cols: &[Class], place: |k, b| k.class_attr("PermittedSubclasses", b) },
    Table { prop: 11, count: 2, cols: &[Text, Desc, Fix(&[0, 0])], place: |k, b| k.class_attr("Record", b) },
    Table { prop: 11, count: 2, cols: &[Text, Desc, Fix(&[0, 1]), Text, Fix(&[0, 0, 0, 1]), B], place: |k, b| k.class_attr("Record", b) },
    // attributes of a record component
    Table { prop: 11, count: 2, cols: &[Text, Fix(&[0, 0, 0, 1]), B], place: |k, b| {
        let b = cat(&[&u2(1), &u2(k.text[0]), &u2(k.desc[0]), b]);
        k.class_attr("Record", &b)
    } },
    // C12
    Table { prop: 12, count: 2, cols: &[Module, F(&[0, 0x20, 0x40, 0x8000]), TextOpt], place: |k, b| k.module_attr(0, b) },
    Table { prop: 12, count: 2, cols: &[Package, F(&[0, 0x1000, 0x8000, 0x9000]), Fix(&[0, 0])], place: |k, b| k.module_attr(1, b) },
    Table { prop: 12, count: 2, cols: &[Package, F(&[0, 0x1000, 0x8000, 0x9000]), Fix(&[0, 1]), Module], place: |k, b| k.module_attr(1, b) },
    Table { prop: 12, count: 2, cols: &[Package, F(&[0, 0x1000, 0x8000, 0x9000]), Fix(&[0, 0])], place: |k, b| k.module_attr(2, b) },
    Table { prop: 12, count: 2, cols: &[Package, F(&[0, 0x1000, 0x8000, 0x9000]), Fix(&[0, 1]), Module], place: |k, b| k.module_attr(2, b) },
    Table { prop: 12, count: 2, cols: &[Class], place: |k, b| k.module_attr(3, b) },
    Table { prop: 12, count: 2, cols: &[Class, Fix(&[0, 0])], place: |k, b| k.module_attr(4, b) },
    Table { prop: 12, count: 2, cols: &[Class, Fix(&[0, 1]), Class], place: |k, b| k.module_attr(4, b) },
    Table { prop: 12, count: 2, cols: &[Module], place: |k, b| k.module_to(1, b) },
    Table { prop: 12, count: 2, cols: &[Module], place: |k, b| k.module_to(2, b) },
    Table { prop: 12, count: 2, cols: &[Class], place: |k, b| k.module_to(4, b) },
    Table { prop: 12, count: 2, cols: &[Package], place: |k, b| {
        k.module_attr(9, &[]);
        k.class_attr("ModulePackages", b)
    } },
    // C13: switches that all end at the return after them
    Table { prop: 13, count: 4, cols: &[Fix(&[0, 0]), N, Fix(&[0, 0, 0]), B], place: |k, b| {
        let n = b.len();
        let end = (8 + n) as u32;
        let mut c = cat(&[&[0xab, 0, 0, 0], &u4(end), b]);
        for r in c[12..].chunks_mut(8) {
            // an odd last byte: to the return; an even one: to the switch itself
            let v = if r[7] & 1 == 1 { end } else { 0 };
            r[4..8].copy_from_slice(&u4(v));
        }
        k.code(&c);
    } },
    Table { prop: 13, count: 4, cols: &[Fix(&[0, 0, 0]), B], place: |k, b| {
        let n = (b.len() - 4) / 4;
        if n == 0 {
            return k.code(&[]);
        }
        let end = (16 + 4 * n) as u32;
        let mut c = cat(&[&[0xaa, 0, 0, 0], &u4(end), &u4(7), &u4(6 + n as u32), &b[4..]]);
        for r in c[16..].chunks_mut(4) {
            let v = if r[3] & 1 == 1 { end } else { 0 };
            r.copy_from_slice(&u4(v));
        }
        k.code(&c);
    } },
    Table { prop: 13, count: 0, cols: &[K(&[0x00, 0x57, 0x60, 0x2a])], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0x10]), B], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0x11]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0x84]), B, B], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x84]), N, N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4]), K(&[0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x15]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x16]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x17]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x18]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x19]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x36]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x37]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x38]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x39]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[Fix(&[0xc4, 0x3a]), N], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[K(&[0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a]), B], place: |k, b| k.code(b) },
    Table { prop: 13, count: 0, cols: &[K(&[0xbb, 0xbd, 0xc0, 0xc1]), Class], place: |k, b| k.code(b) },
    // attributes of the class
    Table { prop: 8, count: 2, cols: &[Text, Fix(&[0, 0, 0, 1]), B], place: |k, b| {
        k.m.attrs = b[2..].chunks(7).map(|c| c.to_vec()).collect();
    } },
    Table { prop: 8, count: 2, cols: &[Text, Fix(&[0, 0, 0, 2]), N], place: |k, b| {
        let v: Vec<Vec<u8>> = b[2..].chunks(8).map(|c| c.to_vec()).collect();
        let x = k.m.memb(1, "f", "I", &v);
        k.m.fields.push(x);
    } },
    Table { prop: 8, count: 2, cols: &[Text, Fix(&[0, 0, 0, 0])], place: |k, b| {
        let v: Vec<Vec<u8>> = b[2..].chunks(6).map(|c| c.to_vec()).collect();
        let x = k.m.memb(0x100, "m", "()V", &v);
        k.m.methods.push(x);
    } },
];

/// The rows that words are made of.
fn letters(k: &Kit, cols: &[C]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut add = |f: &dyn Fn(usize) -> usize| {
        let mut o = vec![];
        for (i, c) in cols.iter().enumerate() {
            k.cell(*c, f(i), &mut o);
        }
        if !out.contains(&o) {
            out.push(o);
        }
    };
    add(&|_| 0);
    for j in 0..cols.len() {
        add(&|i| usize::from(i == j));
    }
    add(&|_| 1);
    if cols.len() < 3 {
        add(&|_| 2);
        add(&|_| 3);
    }
    out
}

/// Lengths of the longer runs of one row between two others.
const RUNS: [usize; 4] = [5, 40, 127, 253];

fn of(prop: u32) -> Vec<&'static Table> {
    TABLES.iter().filter(|t| t.prop == prop).collect()
}

/// All sequences of up to three of `l` rows, and the longer runs.
fn words_of(l: u64) -> u64 {
    1 + l + l * l + l * l * l + RUNS.len() as u64 * l * l
}

/// Per table, the number of rows its words are made of.
fn sizes() -> &'static [u64] {
    static S: OnceLock<Vec<u64>> = OnceLock::new();
    S.get_or_init(|| {
        let k = kit(true);
        TABLES.iter().map(|t| letters(&k, t.cols).len() as u64).collect()
    })
}

pub fn words_count(prop: u32) -> u64 {
    TABLES.iter().zip(sizes()).filter(|(t, _)| t.prop == prop).map(|(_, l)| words_of(*l)).sum()
}

fn table(t: &Table, rows: &[Vec<u8>]) -> Vec<u8> {
    let n = rows.len();
    let mut b = match t.count {
        0 => vec![],
        1 => vec![n as u8],
        2 => u2(n as u16).to_vec(),
        _ => u4(n as u32).to_vec(),
    };
    for r in rows {
        b.extend_from_slice(r);
    }
    b
}

fn assemble(mut k: Kit, t: &Table, rows: &[Vec<u8>]) -> Vec<u8> {
    let b = table(t, rows);
    (t.place)(&mut k, &b);
    k.m.bytes()
}

/// By how much lengths are wrong: by what is lost in one or two bytes.
const SKEWS: [i64; 8] = [0x1_0000, -0x1_0000, 0x100, -0x100, 0x2_0000, 0x1_0100, 0xff00, 0];

pub fn skews_count() -> u64 {
    TABLES.len() as u64 * 4 * 3 * SKEWS.len() as u64
}

/// Every table, short or longer than 65536 bytes, in a file in which one declared length is wrong by a multiple of
/// 256, with enough behind it for the length to lie within the file.
pub fn skews(mut k: u64) -> Vec<u8> {
    let mut dig = |n: usize| {
        let d = (k % n as u64) as usize;
        k /= n as u64;
        d
    };
    let t = &TABLES[dig(TABLES.len())];
    let size = dig(4);
    let nth = dig(3) as u32;
    let delta = SKEWS[dig(SKEWS.len())] as u32;
    skewed(nth, delta, || {
        let mut k = kit(t.prop == 12);
        let row = letters(&k, t.cols).swap_remove(0);
        let n = match size {
            3 if t.count == 1 => 255,
            3 => (65600 / row.len().max(1)).min(65535),
            n => n,
        };
        let tail = k.m.utf("tail");
        let rows = vec![row; n];
        let b = table(t, &rows);
        (t.place)(&mut k, &b);
        let a = cat(&[&u2(tail), &u4(140_000), &vec![0; 140_000]]);
        k.m.attrs.push(a);
        k.m.bytes()
    })
}

/// Numbers of rows, up to the most that the count can hold.
const FULL: [usize; 8] = [65535, 65534, 32769, 32768, 32767, 257, 256, 255];

pub fn fulls_count(prop: u32) -> u64 {
    (of(prop).len() * FULL.len()) as u64
}

/// Every table filled to the limits of its count, with rows that take turns.
pub fn fulls(prop: u32, k: u64) -> Vec<u8> {
    let all = of(prop);
    let t = all[k as usize % all.len()];
    let n = FULL[k as usize / all.len()];
    let mut kit = kit(prop == 12);
    let l = letters(&kit, t.cols);
    let n = match t.count {
        1 => n & 255,
        2 => n,
        // code is no longer than 65535 bytes
        _ => n.min(65500 / l[0].len()),
    };
    // no two places far apart fall on the same rows by accident
    let rows: Vec<Vec<u8>> = (0..n).map(|i| l[(i + i / 7 + i / 251) % l.len()].clone()).collect();
    let b = table(t, &rows);
    (t.place)(&mut kit, &b);
    kit.m.bytes()
}

pub fn words(prop: u32, mut k: u64) -> Vec<u8> {
    for (t, n) in TABLES.iter().zip(sizes()).filter(|(t, _)| t.prop == prop) {
        if k < words_of(*n) {
            return word(t, *n as usize, k as usize);
        }
        k -= words_of(*n);
    }
    vec![]
}

fn word(t: &Table, l: usize, mut k: usize) -> Vec<u8> {
    let mut seq = vec![];
    'w: {
        for len in 0..=3u32 {
            let n = l.pow(len);
            if k < n {
                for _ in 0..len {
                    seq.push(k % l);
                    k /= l;
                }
                break 'w;
            }
            k -= n;
        }
        let (a, b) = (k % l, k / l % l);
        seq.push(b);
        seq.extend(std::iter::repeat_n(a, RUNS[k / l / l]));
        seq.push(b);
    }
    let kit = kit(t.prop == 12);
    let rows = letters(&kit, t.cols);
    let rows: Vec<Vec<u8>> = seq.into_iter().map(|i| rows[i].clone()).collect();
    assemble(kit, t, &rows)
}

/// The columns of which every value is tried, in four parts (numbers) or one (bytes).
fn swept(prop: u32) -> Vec<(&'static Table, usize, usize)> {
    let mut v = vec![];
    for t in of(prop) {
        for (i, c) in t.cols.iter().enumerate() {
            match c {
                N if t.count != 1 => (0..4).for_each(|p| v.push((t, i, p))),
                N => {}
                B => (0..2).for_each(|p| v.push((t, i, p))),
                _ => {}
            }
        }
    }
    v
}

pub fn sweeps_count(prop: u32) -> u64 {
    swept(prop).len() as u64
}

pub fn sweeps(prop: u32, k: u64) -> Vec<u8> {
    let (t, col, part) = swept(prop)[k as usize];
    let kit = kit(t.prop == 12);
    let values: Vec<u32> = if t.cols[col] == N {
        (0..65536).filter(|v| v % 4 == part as u32).collect()
    } else {
        // at most 255 rows
        (0..255).map(|v| v + part as u32).collect()
    };
    let mut rows = vec![];
    for v in values {
        let mut o = vec![];
        for (i, c) in t.cols.iter().enumerate() {
            let x = if i == col { v } else { v.wrapping_mul(2 * i as u32 + 3).wrapping_add(i as u32) };
            match c {
                N => o.extend_from_slice(&u2(x as u16)),
                B => o.push(x as u8),
                c => kit.cell(*c, (v >> 2) as usize, &mut o),
            }
        }
        rows.push(o);
    }
    // code is no longer than 65535 bytes
    if t.count == 0 || t.count == 4 {
        let w = rows[0].len();
        rows.truncate(65000 / w);
        if t.cols[col] == N && w > 3 {
            // the other half of the values, by turning them round
            if part >= 2 {
                let all: Vec<u32> = (0..65536u32).filter(|v| v % 4 == part as u32).collect();
                for (r, v) in rows.iter_mut().zip(all.iter().rev()) {
                    let at = t.cols[..col].iter().map(|c| match c {
                        N => 2,
                        B | K(_) => 1,
                        Fix(b) => b.len(),
                        _ => 2,
                    }).sum::<usize>();
                    r[at..at + 2].copy_from_slice(&u2(*v as u16));
                }
            }
        }
    }
    assemble(kit, t, &rows)
}
