//! The crate is only reachable under another name.  (`scale_decode` itself is not a dependency here.)
#![allow(dead_code, legacy_derive_helpers)]
use renamed::DecodeAsType;
use std::marker::PhantomData;
pub mod nested { pub mod deep { pub use renamed as sd; } }
struct NotDecodable;
#[derive(Default)] struct OnlyDefault;
trait Mine {}

#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] struct Plain { a: u8 }
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "::renamed")] struct Absolute(u8, u8);
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "crate::nested::deep::sd")] struct Nested;
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "self::nested::deep::sd")] enum SelfPath { A, B(u8), C { a: u8 } }
mod inner {
    #[derive(renamed::DecodeAsType)] #[decode_as_type(crate_path = "super::nested::deep::sd")] pub struct SuperPath { a: u8 }
}
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] struct NamedGeneric<T> { a: T }
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] struct TupleGeneric<T, U>(T, U);
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] enum EnumGeneric<T, const N: usize> { A, B(T), C { a: [T; N] } }
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] struct NamedSkip { #[decode_as_type(skip)] a: OnlyDefault, b: u8 }
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] struct TupleSkip(#[codec(skip)] OnlyDefault, u8);
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] enum EnumSkip { A(#[codec(skip)] OnlyDefault, u8), B { #[decode_as_type(skip)] a: OnlyDefault, b: u8 } }
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] enum EmptyEnum {}
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] struct EmptyNamed {}
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] struct EmptyTuple();

// both options: one attribute, two, either order, other things between
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed", trait_bounds = "")] struct One<T>(#[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "", crate_path = "renamed")] struct OneSwapped<T>(#[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "", crate_path = "renamed",)] struct OneComma<T>(#[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] #[decode_as_type(trait_bounds = "")] struct Two<T>(#[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "")] #[decode_as_type(crate_path = "renamed")] struct TwoSwapped<T>(#[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "")] #[decode_as_type(crate_path = "renamed")] enum TwoSwappedEnum<T> { A(#[codec(skip)] PhantomData<T>) }
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "renamed")] #[decode_as_type(trait_bounds = "")] enum TwoEnum<T> { A(#[codec(skip)] PhantomData<T>) }
/// Documentation.
#[derive(DecodeAsType)]
/// More of it.
#[decode_as_type(trait_bounds = "T: Mine")]
/// And more.
#[allow(unused)]
#[codec(dumb_trait_bound)]
#[decode_as_type(crate_path = "renamed")]
#[codec(crate = renamed)]
struct Between<T>(#[codec(skip)] PhantomData<T>);
#[codec(mel_bound())] // an attribute of the related derive, first
#[derive(DecodeAsType)]
#[codec(encode_bound(T: Mine))]
#[codec(decode_bound(T: Mine))]
#[decode_as_type(crate_path = "renamed")]
#[decode_as_type(trait_bounds = "")]
#[codec(mel_bound(T: Mine))]
/** block */
enum CodecAttributes<T> { #[codec(index = 7)] A(#[codec(skip)] PhantomData<T>), #[codec(skip)] B, #[codec(index = 3)] C { #[codec(compact)] a: u32, #[codec(encoded_as = "u8")] b: u8 } }
#[decode_as_type(crate_path = "renamed")] #[derive(DecodeAsType)] struct HelperBefore { a: u8 }
#[derive(DecodeAsType, Debug, Clone)] #[decode_as_type(crate_path = "renamed")] #[repr(C)] struct OtherDerives { a: u8 }
#[cfg_attr(all(), derive(DecodeAsType), decode_as_type(crate_path = "renamed"))] struct Conditional { a: u8 }
#[derive(DecodeAsType)] #[cfg_attr(all(), decode_as_type(crate_path = "renamed"))] #[cfg_attr(any(), decode_as_type(crate_path = "elsewhere"))] struct ConditionalAttr { a: u8 }
macro_rules! with_path { ($p:literal, $b:literal, $n:ident) => { #[derive(DecodeAsType)] #[decode_as_type(crate_path = $p, trait_bounds = $b)] struct $n<T>(#[codec(skip)] PhantomData<T>); } }
with_path!("renamed", "", FromMacro);

fn takes<T: renamed::IntoVisitor + renamed::DecodeAsType>() {}
fn all() {
    takes::<(Plain, Absolute, Nested, SelfPath, inner::SuperPath)>();
    takes::<(NamedGeneric<u8>, TupleGeneric<u8, u8>, EnumGeneric<u8, 3>)>();
    takes::<(NamedSkip, TupleSkip, EnumSkip, EmptyEnum, EmptyNamed, EmptyTuple)>();
    takes::<(One<NotDecodable>, OneSwapped<NotDecodable>, OneComma<NotDecodable>, Two<NotDecodable>, TwoSwapped<NotDecodable>)>();
    takes::<(TwoSwappedEnum<NotDecodable>, TwoEnum<NotDecodable>, CodecAttributes<NotDecodable>, FromMacro<NotDecodable>)>();
    takes::<(HelperBefore, OtherDerives, Conditional, ConditionalAttr)>();
}
fn between<T: Mine>() { takes::<Between<T>>() }
