#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one-off generator kept so the text has one home).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["parse_class", "parse_class_with_options"],
                          "hook_needed": None}})

prop("C01", "Parsing is total: any byte string yields a value or an error",
 "For every byte string and every choice of options, parsing returns a class or a parse error: it never panics, aborts, overflows an ordinary 2 MiB thread stack, or fails an arithmetic overflow check. Everything reachable from a returned class (the constant pool iterator, debug printing, opcode lookup, conversions) and from a returned error (its display form) can likewise be used without panicking.",
 ["inputs"], "all byte strings, well-formed or hostile, with both option values, on an ordinary thread stack",
 "Tests parse one valid class file; nothing feeds malformed, truncated, cyclic or deeply nested input, so no panic path in the readers is reached.",
 ["src/lib.rs","src/constant_pool.rs","src/attributes.rs","src/bytecode.rs","src/descriptors.rs","src/error.rs"],
 [("bounds-checked big-endian readers","src/lib.rs: read_u1..read_u8"),("typed constant pool accessors that panic only on validated-away kinds","src/constant_pool.rs"),("recursive attribute and annotation readers","src/attributes.rs"),("jump and switch arithmetic","src/bytecode.rs")])

prop("C02", "Parsing uses memory in proportion to its input and releases all of it",
 "For every byte string, the heap memory in use at any moment while parsing is at most a fixed allowance plus a constant multiple of the input's length, whatever counts and lengths the input declares (counting the length of a text that has to be re-encoded, or of a method descriptor, again for each reference to it). Once the returned class or error has been dropped, every allocation made by the call has been released.",
 ["inputs"], "all byte strings, in particular small ones that declare huge counts, huge switch tables, deep nesting, or cyclic constant references",
 "No test measures memory; counts are only ever those of one small valid file.",
 ["src/bytecode.rs","src/attributes.rs","src/constant_pool.rs"],
 [("switch table and element-count preallocation","src/bytecode.rs read_opcodes; src/attributes.rs readers"),("reference-counted constant pool links","src/constant_pool.rs ConstantPoolRef::resolve")])

prop("C03", "The class skeleton is reported exactly as encoded",
 "For every well-formed class file, parsing succeeds and reports the same major and minor version, access flags (each defined bit kept, each undefined bit dropped), class name, optional superclass, and interfaces in order. Its fields and methods are reported completely, in order, each with its own flags, name and descriptor; none is lost, duplicated, reordered or mixed with another.",
 ["inputs"], "all well-formed class files: any versions, flag words, counts of interfaces, fields and methods up to the format's limits, any constant pool layout",
 "The tests read only two constant pool entries of one file; no test looks at flags, versions, interfaces, fields or methods.",
 ["src/lib.rs"],
 [("top-level layout walk","src/lib.rs parse_class_with_options"),("read_interfaces / read_fields / read_methods","src/lib.rs"),("flag types","src/lib.rs bitflags")],
 observe=["ClassFile","FieldInfo","MethodInfo"])

prop("C04", "Constant pool items are enumerated and resolved faithfully",
 "For every well-formed class file, iterating the constant pool yields exactly one item per entry that is not raw text, in index order, with every nested reference already resolved to the values the file's indices designate (8-byte constants occupying two indices). How the pool is laid out does not matter otherwise: reordering entries (with indices renumbered), duplicating them or adding unused ones changes nothing else in the parsed class.",
 ["inputs"], "all well-formed constant pools of 1..65535 slots, all entry kinds, forward and backward references; all permutations/duplications of a pool",
 "One test checks three entries of one javac pool whose references are all laid out javac's way; handles, dynamic, module, package, numeric entries and wide-slot arithmetic are never observed.",
 ["src/constant_pool.rs","src/lib.rs"],
 [("read_constant_pool and two-slot accounting","src/constant_pool.rs"),("reference resolution","src/constant_pool.rs ConstantPoolRef"),("ConstantPoolIter","src/constant_pool.rs")],
 observe=["ClassFile::constantpool_iter","every resolved value in ClassFile"])

prop("C05", "Malformed constant pools are rejected",
 "A class file is rejected with an error whenever its constant pool breaks the format: an unknown entry kind or reference kind, a kind not permitted for the file's major version, a reference that is zero, out of range, to itself, to the dead second slot of an 8-byte constant, or to an entry of the wrong kind (including the kinds a method handle may refer to for its reference kind and the class version), or a class, member, module or package name or referenced descriptor that is not syntactically valid. A reference from anywhere else in the file that is out of range or names an entry of the wrong kind is rejected likewise, and pools that satisfy all the rules are not rejected.",
 ["inputs"], "all constant pools with one or more violated rules, at any index, for every major version; and all valid ones near the boundary",
 "Unit tests validate hand-built single entries, not pools read from bytes; index-range, self-reference, dead-slot and version-gate rules at every site are untested.",
 ["src/constant_pool.rs","src/names.rs","src/descriptors.rs"],
 [("version gates in read_constant_pool","src/constant_pool.rs"),("resolve: range and self checks","src/constant_pool.rs"),("validate: kinds, names, descriptors","src/constant_pool.rs"),("read_cp_* typed accessors","src/constant_pool.rs")])

prop("C06", "Text and numeric constants are decoded exactly",
 "Every text in the file is the exact decoding of its modified UTF-8 bytes (two-byte NUL, surrogate pairs joined into one character), and integer, float, long and double constants keep their exact bits and sign. A string constant whose bytes have no such decoding is reported as its unchanged raw bytes; such bytes where the API exposes a name, descriptor or other text cause an error, never altered text or a panic.",
 ["inputs"], "all modified UTF-8 sequences up to 65535 bytes, all invalid sequences, all 32- and 64-bit patterns, at every place a constant or text is exposed",
 "Only ASCII strings of one file are compared; no numeric constant, no NUL, supplementary character or unpaired surrogate is ever parsed by a test.",
 ["src/constant_pool.rs","src/attributes.rs"],
 [("read_constant_utf8 with raw fallback","src/constant_pool.rs"),("string_literal / LiteralConstant","src/constant_pool.rs"),("numeric readers","src/constant_pool.rs read_constant_integer..double")],
 observe=["LiteralConstant","every Cow<str> in ClassFile"])

prop("C07", "Parsed text and byte slices borrow from the input without copying",
 "Every text whose encoded bytes are already valid UTF-8 is exposed as a borrow lying inside the caller's input buffer at the place of those bytes, wherever it appears (names, descriptors' class names, attributes, constants, bytecode operands). Code arrays, raw string bytes and the contents of unrecognised attributes are likewise slices of the input at their own position, and the input is not copied.",
 ["inputs"], "all well-formed class files, every text-bearing place in the API",
 "No test inspects whether a Cow is borrowed or where it points.",
 ["src/constant_pool.rs","src/descriptors.rs","src/attributes.rs"],
 [("Cow::Borrowed from from_java_cesu8","src/constant_pool.rs read_constant_utf8"),("borrowing substrings of borrowed descriptors","src/descriptors.rs parse_class_descriptor"),("slices of input","src/attributes.rs Code, Other")],
 observe=["every Cow<str> and &[u8] in ClassFile"])

prop("C08", "Declared lengths must match contents exactly, down to the last byte",
 "A class file is accepted only if it starts with the magic number, every attribute's contents occupy exactly its declared length, and nothing follows the last attribute: every proper prefix of a well-formed file, the file with bytes appended, and the file in which the declared length of an attribute of a predefined, structured kind differs from what its contents take up is rejected with an error. An attribute whose name is not predefined is kept under its name with exactly its declared bytes, of any length and content, and does not disturb what surrounds it.",
 ["inputs"], "all well-formed class files, every prefix, every suffix, every attribute at every nesting level and every wrong length for it",
 "The one file the tests parse has correct lengths everywhere; no test truncates, extends or mislabels anything.",
 ["src/attributes.rs","src/lib.rs"],
 [("expected_end_ix check and ensure_length","src/attributes.rs read_attributes"),("trailing bytes check","src/lib.rs parse_class_with_options"),("AttributeData::Other","src/attributes.rs")])

prop("C09", "Code attributes and their debug and stack-map tables are decoded exactly",
 "For every well-formed method body the parser reports max stack, max locals, the exact code bytes, the exception table in order (with catch-all entries having no type), and nested attributes. Stack map frames of every frame type, line number, local variable and local variable type tables are reported completely, in order, with every offset, length, index, name, type and verification type as encoded; an undefined frame type or verification tag, or a malformed local variable name or descriptor, is rejected.",
 ["inputs"], "all well-formed Code attributes and their tables, all frame types and verification tags, table sizes up to the format's limits",
 "The single parsed file's tables are read but never compared with anything.",
 ["src/attributes.rs"],
 [("read_code_data","src/attributes.rs"),("read_stackmaptable_data / _verification","src/attributes.rs"),("read_linenumber_data, read_localvariable_data, read_localvariabletype_data","src/attributes.rs")],
 observe=["CodeData","StackMapEntry","LineNumberEntry","LocalVariableEntry","LocalVariableTypeEntry"])

prop("C10", "Annotations of every form are decoded exactly",
 "Every well-formed runtime annotation, parameter annotation, type annotation and annotation default, visible or invisible, is reported with its type, its elements in order, element values of every kind at any legal nesting, and for type annotations the target and target path as encoded. An undefined element tag, target type or path kind, a constant of the wrong kind for its tag, or a malformed descriptor is rejected with an error.",
 ["inputs"], "all well-formed annotation structures of all kinds and nestings on classes, fields, methods, parameters, code and record components; and those with one broken tag or reference",
 "No test parses an annotation and compares the result.",
 ["src/attributes.rs"],
 [("read_annotation, read_annotation_element_value","src/attributes.rs"),("read_parameter_annotation_data, read_type_annotation_data","src/attributes.rs")],
 observe=["Annotation","AnnotationElementValue","TypeAnnotation","ParameterAnnotation"])

prop("C11", "Class, field and method attributes are decoded exactly",
 "Every well-formed ConstantValue, Exceptions, InnerClasses, EnclosingMethod, Synthetic, Deprecated, Signature, SourceFile, SourceDebugExtension, MethodParameters, BootstrapMethods (with loadable arguments of every kind), NestHost, NestMembers, PermittedSubclasses and Record attribute is reported under its own kind, in file order, with every entry, name, flag and optional part exactly as encoded. Optional parts encoded as index zero are reported as absent and only those; undefined flag bits are rejected for method parameters and ignored for inner classes.",
 ["inputs"], "all well-formed instances of these attributes, with all optional parts present or absent, all sizes up to the format's limits, on any class, member or record component",
 "Tests never read an attribute's value.",
 ["src/attributes.rs","src/constant_pool.rs"],
 [("read_attributes dispatch and per-attribute readers","src/attributes.rs"),("read_cp_*_opt","src/constant_pool.rs"),("read_cp_bootstrap_argument","src/constant_pool.rs")],
 observe=["AttributeData"])

prop("C12", "Module descriptors are decoded exactly and module classes are constrained",
 "For every well-formed module-info class the parser reports module name, flags, version, and every requires, exports, opens, uses and provides entry (with their targets, flags and versions), packages and main class, completely, in order and as encoded; undefined flag bits in them are rejected. A class flagged as a module is rejected if its major version is below 53, if any other defined class flag is set, or if it has a superclass, interfaces, fields or methods.",
 ["inputs"], "all well-formed Module, ModulePackages and ModuleMainClass attributes, and all near-miss module classes",
 "No test parses a module-info class.",
 ["src/attributes.rs","src/lib.rs"],
 [("read_module_data, read_modulepackages_data","src/attributes.rs"),("is_module checks","src/lib.rs parse_class_with_options")],
 observe=["ModuleData","AttributeData::ModulePackages","AttributeData::ModuleMainClass"])

prop("C13", "Bytecode is decoded instruction for instruction",
 "For every well-formed code array, the decoded instructions are exactly those encoded, each at its own byte offset, in increasing order, together covering the whole array with no gap or overlap. Every operand (local index, signed immediate, jump offset, switch table with its alignment padding, array type, resolved constant or member) has the encoded value, whether the short, explicit or wide form was used.",
 ["inputs"], "all sequences of all defined instructions, all operand values, all alignments of switch instructions, code lengths up to 65535",
 "One test exercises offset lookup on hand-made lists; no test decodes any instruction.",
 ["src/bytecode.rs"],
 [("read_opcodes","src/bytecode.rs"),("get_cp_loadable, read_cp_memberref, read_cp_object_array_type","src/constant_pool.rs")],
 observe=["ByteCode::opcodes","Opcode"])

prop("C14", "Jumps land on instructions and malformed bytecode is rejected",
 "In every accepted class with decoded bytecode, each branch and switch target is the offset of a decoded instruction of that method, and looking an offset up returns the index of the instruction starting there, or nothing if none does. Code is rejected with an error if any branch or switch target falls elsewhere (inside an instruction, before the start, at or past the end), if an instruction is truncated, undefined, or has an operand of the wrong constant kind or an illegal fixed value, or if a switch table's bounds are inverted or its pair count is negative; code that obeys these rules is not rejected.",
 ["inputs"], "all code arrays with any targets, for each of the branching instruction forms; all offsets for lookup; all truncations and operand corruptions",
 "The unit test covers lookup on lists of at most three instructions and no jump validation at all.",
 ["src/bytecode.rs","src/constant_pool.rs"],
 [("validate_jumps / validate_jump","src/bytecode.rs"),("get_opcode_index binary search","src/bytecode.rs"),("operand checks in read_opcodes","src/bytecode.rs")],
 observe=["ByteCode::get_opcode_index","Opcode jump operands"])

prop("C15", "Switching bytecode parsing off changes nothing but the bytecode",
 "For every input accepted with bytecode parsing on, parsing with it off yields the same class in every other respect, with no decoded bytecode anywhere, while parsing with it on decodes the bytecode of every code attribute. Turning it off never causes a rejection, and input rejected only with it on is rejected because some method's code is malformed; bytecode parsing is on by default.",
 ["inputs","configurations"], "all byte strings under both option values and the default",
 "No test uses the option.",
 ["src/lib.rs","src/attributes.rs"],
 [("ParseOptions","src/lib.rs"),("read_code_data","src/attributes.rs")],
 observe=["CodeData::bytecode","ParseOptions::parse_bytecode"])

prop("C16", "Descriptors are parsed by the exact grammar and print back unchanged",
 "A field or method descriptor anywhere in a class (member, local variable, record component, annotation, array class name) is accepted exactly when the whole text matches the JVM grammar, with at most 255 array dimensions, and is then reported with its dimensions, base type or class name, parameters in order and return type. Displaying a reported descriptor gives back the encoded text, character for character, and equality of reported descriptors coincides with equality of their texts.",
 ["inputs"], "all strings, valid or not, in every position where a descriptor occurs",
 "Unit tests try a dozen short strings on the internal functions; trailing text, non-ASCII names, long parameter lists and the places descriptors are used are not covered.",
 ["src/descriptors.rs","src/lib.rs","src/attributes.rs","src/constant_pool.rs"],
 [("parse_field_descriptor, parse_method_descriptor, parse_return_descriptor, parse_array_descriptor","src/descriptors.rs"),("Display impls and byte_len","src/descriptors.rs")],
 observe=["FieldDescriptor","MethodDescriptor","ReturnDescriptor","FieldType"])

prop("C17", "Only legal names are accepted, and all legal names are",
 "A class name value can be created from a text exactly when it is a legal binary name: one or more non-empty segments separated by '/', none containing '.', ';' or '['; it displays as that text. A class file is accepted only if this class, superclass and interfaces have such names and its fields, methods, local variables, method parameters and record components have legal unqualified names (no '.', ';', '[', '/', and for methods no '<' or '>' except the special initializer names); legal names, including non-ASCII ones, are never rejected.",
 ["inputs"], "all strings in every name position",
 "One unit test tries six ASCII class names; no other name position is tested.",
 ["src/names.rs","src/descriptors.rs","src/lib.rs","src/attributes.rs"],
 [("is_unqualified_name, is_unqualified_method_name, is_binary_name, is_module_name","src/names.rs"),("ClassName::try_from","src/descriptors.rs")],
 observe=["ClassName::try_from","ClassFile names"])

prop("C18", "Member uniqueness, initializer and bootstrap-index rules are enforced",
 "A class is rejected if two of its fields, or two of its methods, have the same name and the same descriptor, however far apart, while members sharing only one of the two are accepted. It is rejected if an instance initializer appears in an interface or returns a value, if a static initializer returns a value or (major version 51 and up) takes parameters, and if a dynamic constant or call site entry exists without exactly one bootstrap table on the class containing its index.",
 ["inputs"], "all sets of members and bootstrap tables around the boundary of each rule, for every major version",
 "No test parses a class with duplicate members, odd initializers or dynamic entries.",
 ["src/lib.rs"],
 [("unique_ids sets","src/lib.rs read_fields, read_methods"),("init/clinit checks","src/lib.rs read_methods"),("validate_bootstrap_methods","src/lib.rs")])

prop("C19", "The thread-safe build gives the same results and is safe to share",
 "Built with the threadsafe feature, the parser returns for every input the same class or the same rejection as the default build. A parsed class can be sent to and shared between threads, and any number of threads parsing the same buffer, or iterating and reading the same class at the same time, each see exactly what a single thread would, without panicking or blocking forever.",
 ["inputs","configurations","schedules"], "all inputs under both feature configurations; many threads under whatever schedules contention produces",
 "CI runs the default feature only; the feature has one example that is compiled but not run.",
 ["src/constant_pool.rs","src/lib.rs"],
 [("CafeRc / CafeCell aliases and peel!","src/lib.rs, src/constant_pool.rs")],
 observe=["ClassFile shared across threads","constantpool_iter"])

prop("C20", "A parse depends only on the bytes and options given",
 "Parsing the same bytes with the same options gives the same class, or the same error text, every time: regardless of what was parsed before, successfully or not, of where the bytes sit in memory or what surrounds them, and of other parsed classes being alive. Iterating or printing a parsed class any number of times gives the same items and does not change it.",
 ["histories","inputs"], "all sequences of parse, iterate, print and drop operations over mixed valid and invalid inputs",
 "Each test parses once in a fresh process.",
 ["src/lib.rs","src/constant_pool.rs"],
 [("no global state; interior mutability only during resolution","src/constant_pool.rs ConstantPoolRef::resolve")],
 observe=["parse_class","ClassFile::constantpool_iter"])

prop("C21", "Class files produced by a real compiler are accepted and read correctly",
 "Every class file that the installed Java compiler or its runtime library contains is accepted. Its skeleton, constants, attributes and bytecode are reported as an independent reading of the same bytes reports them, with no attribute defined by the format's Java 21 edition left undecoded.",
 ["programs","inputs"], "all Java programs compiled by javac at any target release, and the class files of the JDK runtime image",
 "The repository's corpus test needs archives that are absent, so no compiler output except one file is ever parsed.",
 ["src/lib.rs","src/constant_pool.rs","src/attributes.rs","src/bytecode.rs"],
 [("whole parser","src/lib.rs parse_class")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
