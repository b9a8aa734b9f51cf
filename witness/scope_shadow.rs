//! Types, modules, functions and macros of the place of use share names with what generated code uses.
#![no_implicit_prelude]
#![allow(dead_code, unused_macros, non_camel_case_types, non_snake_case)]
mod core {}
mod alloc {}
mod std {}
mod scale_decode {}
mod codec {}
mod visitor {}
mod error {}
mod types {}
mod marker {}
mod result {}
mod option {}
mod iter {}
mod primitive {}
mod ext {}
struct Option { never: ::core::convert::Infallible }
struct Some { never: ::core::convert::Infallible }
struct None { never: ::core::convert::Infallible }
struct Ok { never: ::core::convert::Infallible }
struct Err { never: ::core::convert::Infallible }
struct Result { never: ::core::convert::Infallible }
struct Default { never: ::core::convert::Infallible }
struct From { never: ::core::convert::Infallible }
struct Into { never: ::core::convert::Infallible }
struct String { never: ::core::convert::Infallible }
struct Vec { never: ::core::convert::Infallible }
struct Box { never: ::core::convert::Infallible }
struct Iterator { never: ::core::convert::Infallible }
struct IntoIterator { never: ::core::convert::Infallible }
struct Clone { never: ::core::convert::Infallible }
struct ToString { never: ::core::convert::Infallible }
struct ToOwned { never: ::core::convert::Infallible }
struct BTreeMap { never: ::core::convert::Infallible }
struct PhantomData { never: ::core::convert::Infallible }
struct Sized { never: ::core::convert::Infallible }
struct Send { never: ::core::convert::Infallible }
struct Sync { never: ::core::convert::Infallible }
struct Visitor { never: ::core::convert::Infallible }
struct IntoVisitor { never: ::core::convert::Infallible }
struct TypeResolver { never: ::core::convert::Infallible }
struct DecodeAsType { never: ::core::convert::Infallible }
struct DecodeAsFields { never: ::core::convert::Infallible }
struct Error { never: ::core::convert::Infallible }
struct ErrorKind { never: ::core::convert::Infallible }
struct Composite { never: ::core::convert::Infallible }
struct Tuple { never: ::core::convert::Infallible }
struct Variant { never: ::core::convert::Infallible }
struct CompositeField { never: ::core::convert::Infallible }
struct TupleField { never: ::core::convert::Infallible }
struct FieldIter { never: ::core::convert::Infallible }
struct Field { never: ::core::convert::Infallible }
struct Unexpected { never: ::core::convert::Infallible }
struct TypeId { never: ::core::convert::Infallible }
struct R { never: ::core::convert::Infallible }
struct T { never: ::core::convert::Infallible }
struct V { never: ::core::convert::Infallible }
struct Value { never: ::core::convert::Infallible }
struct AnyVisitor { never: ::core::convert::Infallible }
struct WrongLength { never: ::core::convert::Infallible }
struct CannotFindField { never: ::core::convert::Infallible }
struct CannotFindVariant { never: ::core::convert::Infallible }
struct Location { never: ::core::convert::Infallible }
struct Context { never: ::core::convert::Infallible }
struct u8 { never: ::core::convert::Infallible }
struct u16 { never: ::core::convert::Infallible }
struct u32 { never: ::core::convert::Infallible }
struct u64 { never: ::core::convert::Infallible }
struct u128 { never: ::core::convert::Infallible }
struct i8 { never: ::core::convert::Infallible }
struct i16 { never: ::core::convert::Infallible }
struct i32 { never: ::core::convert::Infallible }
struct i64 { never: ::core::convert::Infallible }
struct i128 { never: ::core::convert::Infallible }
struct bool { never: ::core::convert::Infallible }
struct char { never: ::core::convert::Infallible }
struct str { never: ::core::convert::Infallible }
struct usize { never: ::core::convert::Infallible }
struct isize { never: ::core::convert::Infallible }
macro_rules! vec { () => {}; }
macro_rules! format { () => {}; }
macro_rules! panic { () => {}; }
macro_rules! assert { () => {}; }
macro_rules! matches { () => {}; }
macro_rules! unreachable { () => {}; }
macro_rules! debug_assert { () => {}; }
macro_rules! write { () => {}; }
macro_rules! println { () => {}; }
macro_rules! todo { () => {}; }
fn collect_() {}
fn into_visitor() {}
fn decode_as_type() {}
fn to_string() {}
fn empty() {}
fn is_ok() {}
fn map_() {}
fn drop() {}
fn from() {}
fn default_() {}

#[derive(::scale_decode::DecodeAsType)]
struct Named { a: ::core::primitive::u32, b: ::core::primitive::u8, #[decode_as_type(skip)] c: ::core::primitive::u64 }
#[derive(::scale_decode::DecodeAsType)]
struct NamedOne { a: ::core::primitive::u32 }
#[derive(::scale_decode::DecodeAsType)]
struct TupleTwo(::core::primitive::u32, #[codec(skip)] ::core::primitive::u64, ::core::primitive::u8);
#[derive(::scale_decode::DecodeAsType)]
struct TupleOne(::core::primitive::u32);
#[derive(::scale_decode::DecodeAsType)]
struct Unit;
#[derive(::scale_decode::DecodeAsType)]
struct UnitNamed {}
#[derive(::scale_decode::DecodeAsType)]
struct UnitTuple();
#[derive(::scale_decode::DecodeAsType)]
enum Mixed { A, B(::core::primitive::u32), C(::core::primitive::u32, ::core::primitive::u8), D { a: ::core::primitive::u32 }, E { a: ::core::primitive::u32, #[decode_as_type(skip)] b: ::core::primitive::u64, c: ::core::primitive::u8 }, F(), G {} }
#[derive(::scale_decode::DecodeAsType)]
enum Empty {}
#[derive(::scale_decode::DecodeAsType)]
struct Generic<T, const N: ::core::primitive::usize> { a: T, b: [T; N] }
#[derive(::scale_decode::DecodeAsType)]
enum GenericEnum<T> { A(T), B { a: T } }
#[derive(::scale_decode::DecodeAsType)]
struct Lifetimes<'a, T: 'a> { #[codec(skip)] a: ::core::marker::PhantomData<&'a T>, b: ::core::primitive::u32 }
