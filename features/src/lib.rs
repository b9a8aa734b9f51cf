//! What each feature set has to provide; the crate itself has no standard library.
#![no_std]
#![allow(dead_code)]
use scale_decode::{DecodeAsType, TypeResolver};

fn takes<T: DecodeAsType>() {}

fn always<R: TypeResolver>(bytes: &[u8], id: R::TypeId, types: &R) -> Option<(u8, bool)> {
    takes::<([u8; 4], Option<u32>, Result<u8, i128>, char, ())>();
    let _ = scale_decode::visitor::decode_with_visitor(&mut &*bytes, id.clone(), types, scale_decode::visitor::IgnoreVisitor::<R>::new());
    <(u8, bool)>::decode_as_type(&mut &*bytes, id, types).ok()
}

#[cfg(feature = "derive")]
mod derive {
    #[derive(scale_decode::DecodeAsType)]
    struct S<T> { a: T, #[codec(skip)] b: u8 }
    #[derive(scale_decode::DecodeAsType)]
    enum E { A, B(u8), C { a: u8 } }
    fn all() { super::takes::<(S<u8>, E)>() }
}

#[cfg(feature = "primitive-types")]
fn hashes() {
    takes::<(primitive_types::H128, primitive_types::H160, primitive_types::H256, primitive_types::H384, primitive_types::H512, primitive_types::H768)>()
}
