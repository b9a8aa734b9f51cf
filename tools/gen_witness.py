#!/usr/bin/env python3
"""Writes the repetitive witness files (same deriving types in many scopes)."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness')
P = '::core::primitive::'
SHAPES = '''
#[derive(::scale_decode::DecodeAsType)]
struct Named { a: U32, b: U8, #[decode_as_type(skip)] c: U64 }
#[derive(::scale_decode::DecodeAsType)]
struct NamedOne { a: U32 }
#[derive(::scale_decode::DecodeAsType)]
struct TupleTwo(U32, #[codec(skip)] U64, U8);
#[derive(::scale_decode::DecodeAsType)]
struct TupleOne(U32);
#[derive(::scale_decode::DecodeAsType)]
struct Unit;
#[derive(::scale_decode::DecodeAsType)]
struct UnitNamed {}
#[derive(::scale_decode::DecodeAsType)]
struct UnitTuple();
#[derive(::scale_decode::DecodeAsType)]
enum Mixed { A, B(U32), C(U32, U8), D { a: U32 }, E { a: U32, #[decode_as_type(skip)] b: U64, c: U8 }, F(), G {} }
#[derive(::scale_decode::DecodeAsType)]
enum Empty {}
#[derive(::scale_decode::DecodeAsType)]
struct Generic<T, const N: USIZE> { a: T, b: [T; N] }
#[derive(::scale_decode::DecodeAsType)]
enum GenericEnum<T> { A(T), B { a: T } }
#[derive(::scale_decode::DecodeAsType)]
struct Lifetimes<'a, T: 'a> { #[codec(skip)] a: ::core::marker::PhantomData<&'a T>, b: U32 }
'''.replace('U32', P + 'u32').replace('U64', P + 'u64').replace('U8', P + 'u8').replace('USIZE', P + 'usize')

# every method name generated code could conceivably call
METHODS = '''name fields remaining has_unnamed_fields as_tuple decode_item decode_as_type decode_with_visitor skip_decoding bytes_from_undecoded bytes_from_start
bytes_after peek_name type_id is_compact index path is_empty len get get_mut remove insert is_ok is_err is_some is_none visit_tuple visit_composite visit_variant visit_unexpected
into_visitor map map_err and_then ok_or ok_or_else ok err expect unwrap unwrap_or unwrap_or_else unwrap_or_default next collect filter filter_map find position any all
enumerate zip rev skip take chain cloned copied by_ref into_iter iter iter_mut clone cloned_from to_string to_owned into from try_into try_from as_ref as_mut as_str as_slice borrow
borrow_mut deref deref_mut at at_idx at_field at_variant new eq ne cmp partial_cmp lt le gt ge hash fmt default drop push extend with_capacity first last count nth fold
try_fold try_for_each for_each size_hint contains contains_key entry or_insert add sub not'''.split()


def ext(recv):
    ms = ' '.join('fn %s(%s) {}' % (m, recv) for m in METHODS if m not in ('drop',))
    return '''//! An extension trait with a blanket impl, methods by `%s`, is in scope.  Nothing here may be rejected.
#![no_implicit_prelude]
#![allow(dead_code)]
mod t {
    pub trait Blanket: ::core::marker::Sized { %s }
    impl<T> Blanket for T {}
}
use t::Blanket;
''' % (recv, ms)


SHADOW_TYPES = '''Option Some None Ok Err Result Default From Into String Vec Box Iterator IntoIterator Clone ToString ToOwned BTreeMap PhantomData Sized Send Sync
Visitor IntoVisitor TypeResolver DecodeAsType DecodeAsFields Error ErrorKind Composite Tuple Variant CompositeField TupleField FieldIter Field Unexpected Self_
TypeId R T V Value AnyVisitor WrongLength CannotFindField CannotFindVariant Location Context'''.split()
PRIMS = 'u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 bool char str usize isize'.split()
MODS = 'core alloc std scale_decode codec visitor error types marker result option iter primitive ext'.split()
MACROS = 'vec format panic assert matches unreachable debug_assert write println todo'.split()


def shadow():
    s = '''//! Types, modules, functions and macros of the place of use share names with what generated code uses.
#![no_implicit_prelude]
#![allow(dead_code, unused_macros, non_camel_case_types, non_snake_case)]
'''
    s += '\n'.join('mod %s {}' % m for m in MODS) + '\n'
    s += '\n'.join('struct %s;' % t if t in () else 'struct %s { never: ::core::convert::Infallible }' % t for t in SHADOW_TYPES if t not in ('Self_',)) + '\n'
    s += '\n'.join('struct %s { never: ::core::convert::Infallible }' % t for t in PRIMS) + '\n'
    s += '\n'.join('macro_rules! %s { () => {}; }' % m for m in MACROS) + '\n'
    s += '\n'.join('fn %s() {}' % f for f in ('collect_', 'into_visitor', 'decode_as_type', 'to_string', 'empty', 'is_ok', 'map_', 'drop', 'from', 'default_')) + '\n'
    return s


def names():
    """Types named like the things generated code uses, as deriving types, variants, fields and parameters."""
    ts = [t for t in SHADOW_TYPES if t not in ('Self_',)]
    out = '''//! Deriving types, their parameters, fields and variants share names with what generated code uses.
#![no_implicit_prelude]
#![allow(dead_code, non_camel_case_types, non_snake_case)]
'''
    u8 = P + 'u8'
    for k, t in enumerate(ts + PRIMS + ['core', 'alloc', 'std', 'scale_decode']):
        if k % 3 == 0:
            out += 'mod type_%s {\n    #[derive(::scale_decode::DecodeAsType)]\n    struct %s { a: %s }\n}\n' % (t, t, u8)
        elif k % 3 == 1:
            out += 'mod type_%s {\n    #[derive(::scale_decode::DecodeAsType)]\n    struct %s(%s, %s);\n}\n' % (t, t, u8, u8)
        else:
            out += 'mod type_%s {\n    #[derive(::scale_decode::DecodeAsType)]\n    enum %s { A, B(%s), C { a: %s } }\n}\n' % (t, t, u8, u8)
    vs = [t for t in ts]
    out += '#[derive(::scale_decode::DecodeAsType)]\nenum UnitVariants { %s }\n' % ', '.join(vs)
    out += '#[derive(::scale_decode::DecodeAsType)]\nenum TupleVariants { %s }\n' % ', '.join('%s(%s)' % (v, u8) for v in vs)
    out += '#[derive(::scale_decode::DecodeAsType)]\nenum StructVariants { %s }\n' % ', '.join('%s { %s: %s }' % (v, v, u8) for v in vs)
    fs = '''a b e f i n s t v x val vals value values field fields item items res result skip_res input types type_id _type_id composite tuple variant name idx index len self_ visitor
decode_error error it iter acc count map k key keys bytes b1 out ret tmp r#type r#fn r#match r#struct r#ref r#mut r#in r#for r#loop r#let r#where r#move r#async r#dyn r#try'''.split()
    out += '#[derive(::scale_decode::DecodeAsType)]\nstruct Fields { %s }\n' % ', '.join('%s: %s' % (f, u8) for f in fs)
    out += '#[derive(::scale_decode::DecodeAsType)]\nenum FieldsInVariant { A { %s } }\n' % ', '.join('%s: %s' % (f, u8) for f in fs)
    ps = [p for p in ts]
    out += '#[derive(::scale_decode::DecodeAsType)]\nstruct Params<%s> { %s }\n' % (', '.join(ps), ', '.join('%s: %s' % (p.lower() + '_', p) for p in ps))
    out += '#[derive(::scale_decode::DecodeAsType)]\nenum ParamsInVariants<%s> { %s }\n' % (', '.join(ps), ', '.join('%s(%s)' % (p, p) for p in ps))
    out += '#[derive(::scale_decode::DecodeAsType)]\nstruct ParamsPrims<%s>(%s);\n' % (', '.join(PRIMS), ', '.join(PRIMS))
    lts = ['scale', 'resolver', 'info', 'a', 'b', 'temp', 's', 'r', 'this', 'de', '_x', 'types', 'input']
    out += '#[derive(::scale_decode::DecodeAsType)]\nstruct Lifetimes<%s> { %s }\n' % (
        ', '.join("'" + l for l in lts), ', '.join("#[codec(skip)] f%d: ::core::marker::PhantomData<&'%s ()>" % (k, l) for k, l in enumerate(lts)))
    out += '#[derive(::scale_decode::DecodeAsType)]\nenum LifetimesInVariants<%s> { A { %s } }\n' % (
        ', '.join("'" + l for l in lts), ', '.join("#[codec(skip)] f%d: ::core::marker::PhantomData<&'%s ()>" % (k, l) for k, l in enumerate(lts)))
    cs = ['N', 'M', 'T', 'V', 'R', 'LEN', 'Option', 'Result', 'Some', 'Error', 'Visitor']
    out += '#[derive(::scale_decode::DecodeAsType)]\nstruct Consts<%s> { %s }\n' % (
        ', '.join('const %s: %susize' % (c, P) for c in cs), ', '.join('f%d: [%s; %s]' % (k, u8, c) for k, c in enumerate(cs)))
    for k, t in enumerate(ts[:24]):
        out += 'mod inherent_%s {\n    #[derive(::scale_decode::DecodeAsType)]\n    pub struct %s<T> { a: T }\n    impl<T> %s<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }\n}\n' % (t, t, t)
    return out


def write(name, text):
    open(os.path.join(D, name), 'w').write(text)


for n, r in (('self', 'self'), ('ref', '&self'), ('mut', '&mut self')):
    write('scope_ext_%s.rs' % n, ext(r) + SHAPES)
write('scope_shadow.rs', shadow() + SHAPES)
write('scope_names.rs', names())
write('scope_local.rs', '''//! Deriving types inside functions, blocks, impls and macros, next to same-named ones; nothing leaks.
#![no_implicit_prelude]
#![allow(dead_code)]
fn in_function() {
%s
    {
%s
    }
    let _closure = || {
%s
    };
}
''' % (SHAPES, SHAPES, SHAPES) + '''
struct S;
impl S {
    fn in_method<T>(&self) {
        #[derive(::scale_decode::DecodeAsType)]
        struct Local<T>(T);
    }
    const IN_CONST: () = {
        #[derive(::scale_decode::DecodeAsType)]
        struct Local { a: ::core::primitive::u8 }
    };
}
macro_rules! make {
    ($n:ident, $f:ident, $t:ty, $e:ident { $($v:ident),* }) => {
        #[derive(::scale_decode::DecodeAsType)]
        struct $n { $f: $t, other: $t }
        #[derive(::scale_decode::DecodeAsType)]
        enum $e { $($v { $f: $t }),*, Tup($t, $t) }
    };
    (generic $n:ident<$p:ident>) => {
        #[derive(::scale_decode::DecodeAsType)]
        struct $n<$p>($p);
    };
}
make!(MadeStruct, vals, ::core::primitive::u8, MadeEnum { X, Y });
make!(generic MadeGeneric<Value>);
mod m {
    mod n {
        #[derive(::scale_decode::DecodeAsType)]
        pub(super) struct A { pub(in super::super) a: ::core::primitive::u8 }
        #[derive(::scale_decode::DecodeAsType)]
        pub(in super::super) struct B(pub(crate) ::core::primitive::u8);
        #[derive(::scale_decode::DecodeAsType)]
        pub(self) enum C { A }
        #[derive(::scale_decode::DecodeAsType)]
        pub enum D<T> where T: ::core::clone::Clone { A(T) }
        struct Private;
        #[derive(::scale_decode::DecodeAsType)]
        pub struct HasPrivate { #[codec(skip)] a: ::core::option::Option<Private> }
    }
}
''')
write('scope_leak.rs', '''//! Names generated code makes up are not visible next to the deriving type.
#![allow(dead_code)]
mod one {
    use scale_decode::DecodeAsType;
    #[derive(DecodeAsType)]
    struct A { a: u8 }
    #[derive(DecodeAsType)]
    enum B { A, B(u8) }
    type Visitor = ScaleDecodeVisitor<()>; //~ E0412 E0425
    type Resolver = ScaleDecodeTypeResolver; //~ E0412 E0425
}
''')
