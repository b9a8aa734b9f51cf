//! Deriving types inside functions, blocks, impls and macros, next to same-named ones; nothing leaks.
#![no_implicit_prelude]
#![allow(dead_code)]
fn in_function() {

#[derive(::scale_decode::DecodeAsType)]
struct Named { a: ::core::primitive::u32, b: ::core::primitive::u8, #[decode_as_type(skip)] c: ::core::primitive::u64 }
#[derive(::scale_decode::DecodeAsType)]
struct NamedOne { a: ::core::primitive::u32 }
#[derive(::scale_decode::DecodeAsType)]
struct TupleTwo(::core::primitive::u32, #[codec(skip)] ::core::primitive::u64, ::core::primitive::u8);
#[derive(::scale_decode::DecodeAsType)]
struct TupleOne(::core::primitive::u32);
#[derive(::scale_decode::DecodeAsType)]
struct Unit;
#[derive(::scale_decode::DecodeAsType)]
struct UnitNamed {}
#[derive(::scale_decode::DecodeAsType)]
struct UnitTuple();
#[derive(::scale_decode::DecodeAsType)]
enum Mixed { A, B(::core::primitive::u32), C(::core::primitive::u32, ::core::primitive::u8), D { a: ::core::primitive::u32 }, E { a: ::core::primitive::u32, #[decode_as_type(skip)] b: ::core::primitive::u64, c: ::core::primitive::u8 }, F(), G {} }
#[derive(::scale_decode::DecodeAsType)]
enum Empty {}
#[derive(::scale_decode::DecodeAsType)]
struct Generic<T, const N: ::core::primitive::usize> { a: T, b: [T; N] }
#[derive(::scale_decode::DecodeAsType)]
enum GenericEnum<T> { A(T), B { a: T } }
#[derive(::scale_decode::DecodeAsType)]
struct Lifetimes<'a, T: 'a> { #[codec(skip)] a: ::core::marker::PhantomData<&'a T>, b: ::core::primitive::u32 }

    {

#[derive(::scale_decode::DecodeAsType)]
struct Named { a: ::core::primitive::u32, b: ::core::primitive::u8, #[decode_as_type(skip)] c: ::core::primitive::u64 }
#[derive(::scale_decode::DecodeAsType)]
struct NamedOne { a: ::core::primitive::u32 }
#[derive(::scale_decode::DecodeAsType)]
struct TupleTwo(::core::primitive::u32, #[codec(skip)] ::core::primitive::u64, ::core::primitive::u8);
#[derive(::scale_decode::DecodeAsType)]
struct TupleOne(::core::primitive::u32);
#[derive(::scale_decode::DecodeAsType)]
struct Unit;
#[derive(::scale_decode::DecodeAsType)]
struct UnitNamed {}
#[derive(::scale_decode::DecodeAsType)]
struct UnitTuple();
#[derive(::scale_decode::DecodeAsType)]
enum Mixed { A, B(::core::primitive::u32), C(::core::primitive::u32, ::core::primitive::u8), D { a: ::core::primitive::u32 }, E { a: ::core::primitive::u32, #[decode_as_type(skip)] b: ::core::primitive::u64, c: ::core::primitive::u8 }, F(), G {} }
#[derive(::scale_decode::DecodeAsType)]
enum Empty {}
#[derive(::scale_decode::DecodeAsType)]
struct Generic<T, const N: ::core::primitive::usize> { a: T, b: [T; N] }
#[derive(::scale_decode::DecodeAsType)]
enum GenericEnum<T> { A(T), B { a: T } }
#[derive(::scale_decode::DecodeAsType)]
struct Lifetimes<'a, T: 'a> { #[codec(skip)] a: ::core::marker::PhantomData<&'a T>, b: ::core::primitive::u32 }

    }
    let _closure = || {

#[derive(::scale_decode::DecodeAsType)]
struct Named { a: ::core::primitive::u32, b: ::core::primitive::u8, #[decode_as_type(skip)] c: ::core::primitive::u64 }
#[derive(::scale_decode::DecodeAsType)]
struct NamedOne { a: ::core::primitive::u32 }
#[derive(::scale_decode::DecodeAsType)]
struct TupleTwo(::core::primitive::u32, #[codec(skip)] ::core::primitive::u64, ::core::primitive::u8);
#[derive(::scale_decode::DecodeAsType)]
struct TupleOne(::core::primitive::u32);
#[derive(::scale_decode::DecodeAsType)]
struct Unit;
#[derive(::scale_decode::DecodeAsType)]
struct UnitNamed {}
#[derive(::scale_decode::DecodeAsType)]
struct UnitTuple();
#[derive(::scale_decode::DecodeAsType)]
enum Mixed { A, B(::core::primitive::u32), C(::core::primitive::u32, ::core::primitive::u8), D { a: ::core::primitive::u32 }, E { a: ::core::primitive::u32, #[decode_as_type(skip)] b: ::core::primitive::u64, c: ::core::primitive::u8 }, F(), G {} }
#[derive(::scale_decode::DecodeAsType)]
enum Empty {}
#[derive(::scale_decode::DecodeAsType)]
struct Generic<T, const N: ::core::primitive::usize> { a: T, b: [T; N] }
#[derive(::scale_decode::DecodeAsType)]
enum GenericEnum<T> { A(T), B { a: T } }
#[derive(::scale_decode::DecodeAsType)]
struct Lifetimes<'a, T: 'a> { #[codec(skip)] a: ::core::marker::PhantomData<&'a T>, b: ::core::primitive::u32 }

    };
}

struct S;
impl S {
    fn in_method<T>(&self) {
        #[derive(::scale_decode::DecodeAsType)]
        struct Local<T>(T);
    }
    const IN_CONST: () = {
        #[derive(::scale_decode::DecodeAsType)]
        struct Local { a: ::core::primitive::u8 }
    };
}
macro_rules! make {
    ($n:ident, $f:ident, $t:ty, $e:ident { $($v:ident),* }) => {
        #[derive(::scale_decode::DecodeAsType)]
        struct $n { $f: $t, other: $t }
        #[derive(::scale_decode::DecodeAsType)]
        enum $e { $($v { $f: $t }),*, Tup($t, $t) }
    };
    (generic $n:ident<$p:ident>) => {
        #[derive(::scale_decode::DecodeAsType)]
        struct $n<$p>($p);
    };
}
make!(MadeStruct, vals, ::core::primitive::u8, MadeEnum { X, Y });
make!(generic MadeGeneric<Value>);
mod m {
    mod n {
        #[derive(::scale_decode::DecodeAsType)]
        pub(super) struct A { pub(in super::super) a: ::core::primitive::u8 }
        #[derive(::scale_decode::DecodeAsType)]
        pub(in super::super) struct B(pub(crate) ::core::primitive::u8);
        #[derive(::scale_decode::DecodeAsType)]
        pub(self) enum C { A }
        #[derive(::scale_decode::DecodeAsType)]
        pub enum D<T> where T: ::core::clone::Clone { A(T) }
        struct Private;
        #[derive(::scale_decode::DecodeAsType)]
        pub struct HasPrivate { #[codec(skip)] a: ::core::option::Option<Private> }
    }
}
