//! Describes a parsed class through cafebabe's public API in the common shape of `vcore::node`.

use cafebabe::attributes::*;
use cafebabe::bytecode::*;
use cafebabe::constant_pool::*;
use cafebabe::descriptors::*;
use cafebabe::ClassFile;
use vcore::node::{self, *};
use vcore::refp;

pub struct Ad {
    base: usize,
    len: usize,
}

impl Ad {
    pub fn new(input: &[u8]) -> Ad {
        Ad { base: input.as_ptr() as usize, len: input.len() }
    }
    fn loc(&self, p: *const u8, n: usize) -> Loc {
        let p = p as usize;
        if n > 0 && p >= self.base && p + n <= self.base + self.len {
            Some((p - self.base, n))
        } else {
            None
        }
    }
    pub fn t(&self, s: &str) -> Node {
        text(s.to_string(), self.loc(s.as_ptr(), s.len()))
    }
    fn ot(&self, s: Option<&str>) -> Node {
        match s {
            Some(s) => self.t(s),
            None => nil(),
        }
    }
    fn bytes(&self, b: &[u8]) -> Node {
        node::bytes(b.to_vec(), self.loc(b.as_ptr(), b.len()))
    }
    fn ts<S: AsRef<str>>(&self, v: &[S]) -> Node {
        list(v.iter().map(|s| self.t(s.as_ref())).collect())
    }

    pub fn fd(&self, d: &FieldDescriptor) -> Node {
        let (b, c) = match &d.field_type {
            FieldType::Byte => ("B", None),
            FieldType::Char => ("C", None),
            FieldType::Double => ("D", None),
            FieldType::Float => ("F", None),
            FieldType::Integer => ("I", None),
            FieldType::Long => ("J", None),
            FieldType::Short => ("S", None),
            FieldType::Boolean => ("Z", None),
            FieldType::Object(n) => ("L", Some(self.t(n))),
        };
        field_desc(u32::from(d.dimensions), b, c, d.to_string())
    }
    pub fn md(&self, d: &MethodDescriptor) -> Node {
        if node::spent() {
            return nil();
        }
        let ret = match &d.return_type {
            ReturnDescriptor::Void => None,
            ReturnDescriptor::Return(f) => Some(self.fd(f)),
        };
        method_desc(d.parameters.iter().map(|p| self.fd(p)).collect(), ret, d.to_string())
    }

    fn nt(&self, n: &NameAndType) -> Node {
        name_and_type(self.t(&n.name), self.t(&n.descriptor))
    }
    fn mref(&self, m: &MemberRef) -> Node {
        member_ref(self.t(&m.class_name), self.nt(&m.name_and_type))
    }
    fn lit(&self, l: &LiteralConstant) -> Node {
        match l {
            LiteralConstant::Integer(v) => lit_int(*v),
            LiteralConstant::Float(v) => lit_float(v.to_bits()),
            LiteralConstant::Long(v) => lit_long(*v),
            LiteralConstant::Double(v) => lit_double(v.to_bits()),
            LiteralConstant::String(s) => lit_string(self.t(s)),
            LiteralConstant::StringBytes(b) => lit_string_bytes(self.bytes(b)),
        }
    }
    fn handle(&self, h: &MethodHandle) -> Node {
        let k = match h.kind {
            ReferenceKind::GetField => 1,
            ReferenceKind::GetStatic => 2,
            ReferenceKind::PutField => 3,
            ReferenceKind::PutStatic => 4,
            ReferenceKind::InvokeVirtual => 5,
            ReferenceKind::InvokeStatic => 6,
            ReferenceKind::InvokeSpecial => 7,
            ReferenceKind::NewInvokeSpecial => 8,
            ReferenceKind::InvokeInterface => 9,
        };
        let mk = match h.member_kind {
            MemberKind::Field => "Field",
            MemberKind::Method => "Method",
            MemberKind::InterfaceMethod => "InterfaceMethod",
        };
        method_handle(k, self.t(&h.class_name), mk, self.nt(&h.member_ref))
    }
    fn loadable(&self, l: &Loadable) -> Node {
        match l {
            Loadable::LiteralConstant(c) => self.lit(c),
            Loadable::ClassInfo(s) => variant("ClassInfo", vec![self.t(s)]),
            Loadable::MethodHandle(h) => variant("MethodHandle", vec![self.handle(h)]),
            Loadable::MethodType(s) => variant("MethodType", vec![self.t(s)]),
            Loadable::Dynamic(d) => variant("Dynamic", vec![dynamic(d.attr_index, self.nt(&d.name_and_type))]),
        }
    }
    fn bootarg(&self, l: &BootstrapArgument) -> Node {
        match l {
            BootstrapArgument::LiteralConstant(c) => self.lit(c),
            BootstrapArgument::ClassInfo(s) => variant("ClassInfo", vec![self.t(s)]),
            BootstrapArgument::MethodHandle(h) => variant("MethodHandle", vec![self.handle(h)]),
            BootstrapArgument::MethodType(s) => variant("MethodType", vec![self.t(s)]),
            BootstrapArgument::Dynamic(d) => variant("Dynamic", vec![dynamic(d.attr_index, self.nt(&d.name_and_type))]),
        }
    }
    pub fn item(&self, i: &ConstantPoolItem) -> Node {
        match i {
            ConstantPoolItem::LiteralConstant(c) => self.lit(c),
            ConstantPoolItem::ClassInfo(s) => variant("ClassInfo", vec![self.t(s)]),
            ConstantPoolItem::FieldRef(m) => variant("FieldRef", vec![self.mref(m)]),
            ConstantPoolItem::MethodRef(m) => variant("MethodRef", vec![self.mref(m)]),
            ConstantPoolItem::InterfaceMethodRef(m) => variant("InterfaceMethodRef", vec![self.mref(m)]),
            ConstantPoolItem::NameAndType(n) => variant("NameAndType", vec![self.nt(n)]),
            ConstantPoolItem::MethodHandle(h) => variant("MethodHandle", vec![self.handle(h)]),
            ConstantPoolItem::MethodType(s) => variant("MethodType", vec![self.t(s)]),
            ConstantPoolItem::Dynamic(d) => variant("Dynamic", vec![dynamic(d.attr_index, self.nt(&d.name_and_type))]),
            ConstantPoolItem::InvokeDynamic(d) => {
                variant("InvokeDynamic", vec![dynamic(d.attr_index, self.nt(&d.name_and_type))])
            }
            ConstantPoolItem::ModuleInfo(s) => variant("ModuleInfo", vec![self.t(s)]),
            ConstantPoolItem::PackageInfo(s) => variant("PackageInfo", vec![self.t(s)]),
        }
    }
    fn oat(&self, t: &ObjectArrayType) -> Node {
        match t {
            ObjectArrayType::ArrayType(d) => variant("ArrayType", vec![self.fd(d)]),
            ObjectArrayType::BinaryName(s) => variant("BinaryName", vec![self.t(s)]),
        }
    }

    fn insn(&self, o: &Opcode) -> Node {
        let jn = |j: &i32| int(i64::from(*j)).l("jump").ar(C14);
        macro_rules! arms {
            (plain: $($p:ident)* ; local: $($l:ident)* ; jump: $($j:ident)* ; field: $($f:ident)* ; typ: $($t:ident)* ; ldc: $($c:ident)* ;) => {
                #[allow(unreachable_patterns)]
                match o {
                    $(Opcode::$p => variant(stringify!($p), vec![]),)*
                    $(Opcode::$l(v) => variant(stringify!($l), vec![int(i64::from(*v))]),)*
                    $(Opcode::$j(v) => variant(stringify!($j), vec![jn(v)]),)*
                    $(Opcode::$f(m) => variant(stringify!($f), vec![self.mref(m)]),)*
                    $(Opcode::$t(m) => variant(stringify!($t), vec![self.oat(m)]),)*
                    $(Opcode::$c(m) => variant(stringify!($c), vec![self.loadable(m)]),)*
                    Opcode::Bipush(v) => variant("Bipush", vec![int(i64::from(*v))]),
                    Opcode::Sipush(v) => variant("Sipush", vec![int(i64::from(*v))]),
                    Opcode::Iinc(i, v) => variant("Iinc", vec![int(i64::from(*i)), int(i64::from(*v))]),
                    Opcode::Invokeinterface(m, c) => variant("Invokeinterface", vec![self.mref(m), int(i64::from(*c))]),
                    Opcode::Invokedynamic(d) => {
                        variant("Invokedynamic", vec![dynamic(d.attr_index, self.nt(&d.name_and_type))])
                    }
                    Opcode::New(s) => variant("New", vec![self.t(s)]),
                    Opcode::Newarray(t) => variant("Newarray", vec![sym(match t {
                        PrimitiveArrayType::Boolean => "Boolean",
                        PrimitiveArrayType::Char => "Char",
                        PrimitiveArrayType::Float => "Float",
                        PrimitiveArrayType::Double => "Double",
                        PrimitiveArrayType::Byte => "Byte",
                        PrimitiveArrayType::Short => "Short",
                        PrimitiveArrayType::Int => "Int",
                        PrimitiveArrayType::Long => "Long",
                    })]),
                    Opcode::Multianewarray(t, d) => variant("Multianewarray", vec![self.oat(t), int(i64::from(*d))]),
                    Opcode::Lookupswitch(t) => variant("Lookupswitch", vec![
                        jn(&t.default),
                        list(t.match_offsets.iter().map(|(k, j)| list(vec![int(i64::from(*k)).l("key"), jn(j)])).collect()),
                    ]),
                    Opcode::Tableswitch(t) => variant("Tableswitch", vec![
                        jn(&t.default),
                        int(i64::from(t.low)),
                        int(i64::from(t.high)),
                        list(t.jumps.iter().map(jn).collect()),
                    ]),
                    _ => variant("?", vec![plain(format!("{:?}", o))]),
                }
            };
        }
        arms! {
            plain: Aaload Aastore AconstNull Areturn Arraylength Athrow Baload Bastore Breakpoint Caload Castore
                D2f D2i D2l Dadd Daload Dastore Dcmpg Dcmpl Dconst0 Dconst1 Ddiv Dmul Dneg Drem Dreturn Dsub
                Dup DupX1 DupX2 Dup2 Dup2X1 Dup2X2 F2d F2i F2l Fadd Faload Fastore Fcmpg Fcmpl Fconst0 Fconst1 Fconst2
                Fdiv Fmul Fneg Frem Freturn Fsub I2b I2c I2d I2f I2l I2s Iadd Iaload Iand Iastore IconstM1 Iconst0
                Iconst1 Iconst2 Iconst3 Iconst4 Iconst5 Idiv Impdep1 Impdep2 Imul Ineg Ior Irem Ireturn Ishl Ishr Isub
                Iushr Ixor L2d L2f L2i Ladd Laload Land Lastore Lcmp Lconst0 Lconst1 Ldiv Lmul Lneg Lor Lrem Lreturn
                Lshl Lshr Lsub Lushr Lxor Monitorenter Monitorexit Nop Pop Pop2 Return Saload Sastore Swap ;
            local: Aload Astore Dload Dstore Fload Fstore Iload Istore Lload Lstore Ret ;
            jump: Goto IfAcmpeq IfAcmpne IfIcmpeq IfIcmpge IfIcmpgt IfIcmple IfIcmplt IfIcmpne Ifeq Ifge Ifgt Ifle
                Iflt Ifne Ifnonnull Ifnull Jsr ;
            field: Getfield Getstatic Putfield Putstatic Invokespecial Invokestatic Invokevirtual ;
            typ: Anewarray Checkcast Instanceof ;
            ldc: Ldc LdcW Ldc2W ;
        }
    }

    pub fn bytecode(&self, b: &ByteCode) -> Node {
        list(
            b.opcodes
                .iter()
                .map(|(at, o)| {
                    list(vec![int(*at as i64).l("offset").ar(C14), self.insn(o).l("insn")])
                })
                .collect(),
        )
    }

    fn vt(&self, v: &VerificationType) -> Node {
        match v {
            VerificationType::Top => verif_type("Top", None),
            VerificationType::Integer => verif_type("Integer", None),
            VerificationType::Float => verif_type("Float", None),
            VerificationType::Long => verif_type("Long", None),
            VerificationType::Double => verif_type("Double", None),
            VerificationType::Null => verif_type("Null", None),
            VerificationType::UninitializedThis => verif_type("UninitializedThis", None),
            VerificationType::Uninitialized { code_offset } => {
                verif_type("Uninitialized", Some(int(i64::from(*code_offset))))
            }
            VerificationType::Object { class_name } => verif_type("Object", Some(self.t(class_name))),
        }
    }
    fn vts(&self, v: &[VerificationType]) -> Node {
        list(v.iter().map(|x| self.vt(x)).collect())
    }
    fn frame(&self, f: &StackMapEntry) -> Node {
        match f {
            StackMapEntry::Same { offset_delta } => frame("Same", *offset_delta, vec![]),
            StackMapEntry::SameLocals1StackItem { offset_delta, stack } => {
                frame("SameLocals1StackItem", *offset_delta, vec![self.vt(stack)])
            }
            StackMapEntry::Chop { offset_delta, chop_count } => {
                frame("Chop", *offset_delta, vec![int(i64::from(*chop_count))])
            }
            StackMapEntry::Append { offset_delta, locals } => frame("Append", *offset_delta, vec![self.vts(locals)]),
            StackMapEntry::FullFrame { offset_delta, locals, stack } => frame(
                "FullFrame",
                *offset_delta,
                vec![self.vts(locals).l("locals"), self.vts(stack).l("stack")],
            ),
        }
    }

    fn value(&self, v: &AnnotationElementValue) -> Node {
        use AnnotationElementValue as V;
        let i = |n, v: &i32| variant(n, vec![int(i64::from(*v))]);
        match v {
            V::ByteConstant(v) => i("Byte", v),
            V::CharConstant(v) => i("Char", v),
            V::IntConstant(v) => i("Int", v),
            V::ShortConstant(v) => i("Short", v),
            V::BooleanConstant(v) => i("Boolean", v),
            V::DoubleConstant(v) => variant("Double", vec![Node::new("", 0, Val::Bits64(v.to_bits()))]),
            V::FloatConstant(v) => variant("Float", vec![Node::new("", 0, Val::Bits32(v.to_bits()))]),
            V::LongConstant(v) => variant("Long", vec![int(*v)]),
            V::StringConstant(s) => lit_string(self.t(s)),
            V::StringBytesConstant(b) => lit_string_bytes(self.bytes(b)),
            V::EnumConstant { type_name, const_name } => variant("Enum", vec![self.fd(type_name), self.t(const_name)]),
            V::ClassLiteral { class_name } => variant("Class", vec![self.t(class_name)]),
            V::AnnotationValue(a) => variant("Annotation", vec![self.ann(a)]),
            V::ArrayValue(v) => variant("Array", vec![list(v.iter().map(|x| self.value(x)).collect())]),
        }
    }
    fn ann(&self, a: &Annotation) -> Node {
        annotation(
            self.fd(&a.type_descriptor),
            a.elements.iter().map(|e| element(self.t(&e.name), self.value(&e.value))).collect(),
        )
    }
    fn anns(&self, v: &[Annotation]) -> Node {
        list(v.iter().map(|a| self.ann(a)).collect())
    }
    fn tann(&self, a: &TypeAnnotation) -> Node {
        use TypeAnnotationTarget as T;
        let i = |v: i64| int(v);
        let target = match &a.target_type {
            T::TypeParameter { index } => variant("TypeParameter", vec![i((*index).into())]),
            T::Supertype { index } => variant("Supertype", vec![i((*index).into())]),
            T::TypeParameterBound { type_parameter_index, bound_index } => {
                variant("TypeParameterBound", vec![i((*type_parameter_index).into()), i((*bound_index).into())])
            }
            T::Empty => variant("Empty", vec![]),
            T::FormalParameter { index } => variant("FormalParameter", vec![i((*index).into())]),
            T::Throws { index } => variant("Throws", vec![i((*index).into())]),
            T::LocalVar(v) => variant(
                "LocalVar",
                vec![list(
                    v.iter()
                        .map(|e| list(vec![i(e.start_pc.into()), i(e.length.into()), i(e.index.into())]))
                        .collect(),
                )],
            ),
            T::Catch { exception_table_index } => variant("Catch", vec![i((*exception_table_index).into())]),
            T::Offset { offset } => variant("Offset", vec![i((*offset).into())]),
            T::TypeArgument { offset, type_argument_index } => {
                variant("TypeArgument", vec![i((*offset).into()), i((*type_argument_index).into())])
            }
        };
        let path = a
            .target_path
            .iter()
            .map(|e| {
                path_entry(
                    match e.path_kind {
                        TypeAnnotationTargetPathKind::DeeperArray => "DeeperArray",
                        TypeAnnotationTargetPathKind::DeeperNested => "DeeperNested",
                        TypeAnnotationTargetPathKind::WildcardTypeArgument => "WildcardTypeArgument",
                        TypeAnnotationTargetPathKind::TypeArgument => "TypeArgument",
                    },
                    e.argument_index,
                )
            })
            .collect();
        type_annotation(target, path, self.ann(&a.annotation))
    }

    pub fn attrs(&self, v: &[AttributeInfo]) -> Node {
        list(v.iter().map(|a| attribute(self.t(&a.name), self.data(&a.data), 0)).collect())
    }

    fn code(&self, c: &CodeData) -> Node {
        let exc = c
            .exception_table
            .iter()
            .map(|e| exception_entry(e.start_pc, e.end_pc, e.handler_pc, self.ot(e.catch_type.as_deref())))
            .collect();
        let bc = match &c.bytecode {
            Some(b) => self.bytecode(b),
            None => nil(),
        };
        code_data(c.max_stack, c.max_locals, self.bytes(c.code), exc, self.attrs(&c.attributes), bc)
    }

    fn data(&self, d: &AttributeData) -> Node {
        use AttributeData as A;
        match d {
            A::ConstantValue(c) => variant("ConstantValue", vec![self.lit(c)]),
            A::Code(c) => self.code(c),
            A::StackMapTable(v) => {
                variant("StackMapTable", vec![list(v.iter().map(|f| self.frame(f)).collect())])
            }
            A::Exceptions(v) => variant("Exceptions", vec![self.ts(v)]),
            A::InnerClasses(v) => variant(
                "InnerClasses",
                vec![list(
                    v.iter()
                        .map(|e| {
                            list(vec![
                                self.t(&e.inner_class_info).l("inner"),
                                self.ot(e.outer_class_info.as_deref()).l("outer"),
                                self.ot(e.inner_name.as_deref()).l("name"),
                                int(e.access_flags.bits().into()).l("flags"),
                            ])
                        })
                        .collect(),
                )],
            ),
            A::EnclosingMethod { class_name, method } => variant(
                "EnclosingMethod",
                vec![self.t(class_name), method.as_ref().map_or_else(nil, |n| self.nt(n))],
            ),
            A::Synthetic => variant("Synthetic", vec![]),
            A::Signature(s) => variant("Signature", vec![self.t(s)]),
            A::SourceFile(s) => variant("SourceFile", vec![self.t(s)]),
            A::SourceDebugExtension(s) => variant("SourceDebugExtension", vec![self.t(s)]),
            A::LineNumberTable(v) => variant(
                "LineNumberTable",
                vec![list(
                    v.iter()
                        .map(|e| {
                            list(vec![
                                int(e.start_pc.into()).l("start_pc"),
                                int(e.line_number.into()).l("line"),
                            ])
                        })
                        .collect(),
                )],
            ),
            A::LocalVariableTable(v) => variant(
                "LocalVariableTable",
                vec![list(
                    v.iter()
                        .map(|e| {
                            list(vec![
                                int(e.start_pc.into()).l("start_pc"),
                                int(e.length.into()).l("length"),
                                self.t(&e.name).l("name"),
                                self.fd(&e.descriptor).l("descriptor"),
                                int(e.index.into()).l("index"),
                            ])
                        })
                        .collect(),
                )],
            ),
            A::LocalVariableTypeTable(v) => variant(
                "LocalVariableTypeTable",
                vec![list(
                    v.iter()
                        .map(|e| {
                            list(vec![
                                int(e.start_pc.into()).l("start_pc"),
                                int(e.length.into()).l("length"),
                                self.t(&e.name).l("name"),
                                self.t(&e.signature).l("signature"),
                                int(e.index.into()).l("index"),
                            ])
                        })
                        .collect(),
                )],
            ),
            A::Deprecated => variant("Deprecated", vec![]),
            A::RuntimeVisibleAnnotations(v) => variant("RuntimeVisibleAnnotations", vec![self.anns(v)]),
            A::RuntimeInvisibleAnnotations(v) => variant("RuntimeInvisibleAnnotations", vec![self.anns(v)]),
            A::RuntimeVisibleParameterAnnotations(v) => variant(
                "RuntimeVisibleParameterAnnotations",
                vec![list(v.iter().map(|p| self.anns(&p.annotations)).collect())],
            ),
            A::RuntimeInvisibleParameterAnnotations(v) => variant(
                "RuntimeInvisibleParameterAnnotations",
                vec![list(v.iter().map(|p| self.anns(&p.annotations)).collect())],
            ),
            A::RuntimeVisibleTypeAnnotations(v) => variant(
                "RuntimeVisibleTypeAnnotations",
                vec![list(v.iter().map(|p| self.tann(p)).collect())],
            ),
            A::RuntimeInvisibleTypeAnnotations(v) => variant(
                "RuntimeInvisibleTypeAnnotations",
                vec![list(v.iter().map(|p| self.tann(p)).collect())],
            ),
            A::AnnotationDefault(v) => variant("AnnotationDefault", vec![self.value(v)]),
            A::BootstrapMethods(v) => variant(
                "BootstrapMethods",
                vec![list(
                    v.iter()
                        .map(|e| {
                            list(vec![
                                self.handle(&e.method).l("method"),
                                list(e.arguments.iter().map(|a| self.bootarg(a)).collect()).l("arguments"),
                            ])
                        })
                        .collect(),
                )],
            ),
            A::MethodParameters(v) => variant(
                "MethodParameters",
                vec![list(
                    v.iter()
                        .map(|e| {
                            list(vec![
                                self.ot(e.name.as_deref()).l("name"),
                                int(e.access_flags.bits().into()).l("flags"),
                            ])
                        })
                        .collect(),
                )],
            ),
            A::Module(m) => self.module(m),
            A::ModulePackages(v) => variant("ModulePackages", vec![self.ts(v)]),
            A::ModuleMainClass(s) => variant("ModuleMainClass", vec![self.t(s)]),
            A::NestHost(s) => variant("NestHost", vec![self.t(s)]),
            A::NestMembers(v) => variant("NestMembers", vec![self.ts(v)]),
            A::PermittedSubclasses(v) => variant("PermittedSubclasses", vec![self.ts(v)]),
            A::Record(v) => variant(
                "Record",
                vec![list(
                    v.iter()
                        .map(|e| {
                            list(vec![
                                self.t(&e.name).l("name"),
                                self.fd(&e.descriptor).l("descriptor"),
                                self.attrs(&e.attributes).l("attributes"),
                            ])
                        })
                        .collect(),
                )],
            ),
            A::Other(b) => variant("Other", vec![self.bytes(b)]),
        }
    }

    fn module(&self, m: &ModuleData) -> Node {
        let fl = |v: u16| int(v.into()).l("flags");
        variant(
            "Module",
            vec![
                self.t(&m.name).l("name"),
                fl(m.access_flags.bits()),
                self.ot(m.version.as_deref()).l("version"),
                list(
                    m.requires
                        .iter()
                        .map(|e| {
                            list(vec![
                                self.t(&e.name).l("name"),
                                fl(e.flags.bits()),
                                self.ot(e.version.as_deref()).l("version"),
                            ])
                        })
                        .collect(),
                )
                .l("requires"),
                list(
                    m.exports
                        .iter()
                        .map(|e| {
                            list(vec![
                                self.t(&e.package_name).l("package"),
                                fl(e.flags.bits()),
                                self.ts(&e.exports_to).l("to"),
                            ])
                        })
                        .collect(),
                )
                .l("exports"),
                list(
                    m.opens
                        .iter()
                        .map(|e| {
                            list(vec![
                                self.t(&e.package_name).l("package"),
                                fl(e.flags.bits()),
                                self.ts(&e.opens_to).l("to"),
                            ])
                        })
                        .collect(),
                )
                .l("opens"),
                self.ts(&m.uses).l("uses"),
                list(
                    m.provides
                        .iter()
                        .map(|e| {
                            list(vec![
                                self.t(&e.service_interface_name).l("service"),
                                self.ts(&e.provides_with).l("with"),
                            ])
                        })
                        .collect(),
                )
                .l("provides"),
            ],
        )
    }

    pub fn pool<'a>(&self, c: &'a ClassFile<'a>) -> Vec<Node> {
        c.constantpool_iter().map(|i| self.item(&i)).collect()
    }

    pub fn class<'a>(&self, c: &'a ClassFile<'a>) -> Node {
        node::budget(refp::BUDGET * 2);
        let n = class_file(
            c.minor_version,
            c.major_version,
            self.pool(c),
            c.access_flags.bits(),
            self.t(&c.this_class),
            c.super_class.as_ref().map_or_else(nil, |s| self.t(s)),
            c.interfaces.iter().map(|s| self.t(s)).collect(),
            c.fields
                .iter()
                .map(|f| {
                    member("field", f.access_flags.bits(), self.t(&f.name), self.fd(&f.descriptor), self.attrs(&f.attributes))
                })
                .collect(),
            c.methods
                .iter()
                .map(|m| {
                    member("method", m.access_flags.bits(), self.t(&m.name), self.md(&m.descriptor), self.attrs(&m.attributes))
                })
                .collect(),
            self.attrs(&c.attributes),
        );
        node::budget(usize::MAX);
        n
    }
}
