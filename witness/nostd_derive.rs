//! The derive in a crate without the standard library and without `alloc`.
#![no_std]
#![allow(dead_code)]
#[derive(scale_decode::DecodeAsType)] struct Named { a: u32, #[codec(skip)] b: u64, c: bool }
#[derive(scale_decode::DecodeAsType)] struct Tuple(u32, #[decode_as_type(skip)] u64, [u8; 4]);
#[derive(scale_decode::DecodeAsType)] struct One { a: u32 }
#[derive(scale_decode::DecodeAsType)] struct Unit;
#[derive(scale_decode::DecodeAsType)] struct EmptyNamed {}
#[derive(scale_decode::DecodeAsType)] enum Empty {}
#[derive(scale_decode::DecodeAsType)] enum Mixed { A, B(u32), C(u32, #[codec(skip)] u64), D { a: u32, #[decode_as_type(skip)] b: u64 }, E {}, F() }
#[derive(scale_decode::DecodeAsType)] struct Generic<T, const N: usize> { a: T, b: [T; N] }
#[derive(scale_decode::DecodeAsType)] enum GenericEnum<'a, T> { A(T), B { a: T }, C(#[codec(skip)] Option<&'a T>) }
#[derive(scale_decode::DecodeAsType)] #[decode_as_type(trait_bounds = "", crate_path = "::scale_decode")] struct Options<T: ?Sized>(#[codec(skip)] core::marker::PhantomData<T>);
fn takes<T: scale_decode::DecodeAsType>() {}
fn all() {
    takes::<(Named, Tuple, One, Unit, EmptyNamed, Empty, Mixed)>();
    takes::<(Generic<u8, 3>, GenericEnum<'static, u8>, Options<str>)>();
}
fn use_it<R: scale_decode::TypeResolver>(bytes: &[u8], id: R::TypeId, types: &R) -> Option<Named> {
    <Named as scale_decode::DecodeAsType>::decode_as_type(&mut &*bytes, id, types).ok()
}
fn use_fields<'r, R: scale_decode::TypeResolver>(bytes: &mut &[u8], fields: &mut dyn scale_decode::FieldIter<'r, R::TypeId>, types: &'r R) -> Option<Named> {
    <Named as scale_decode::DecodeAsFields>::decode_as_fields(bytes, fields, types).ok()
}
