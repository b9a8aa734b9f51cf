//! A skipped field is never decoded: it needs `Default` and nothing else, however the option is written.
#![allow(dead_code)]
use scale_decode::{DecodeAsFields, DecodeAsType, IntoVisitor};
use std::marker::PhantomData;
struct NotDecodable;
struct NoDefault;
#[derive(Default)] struct D;

#[derive(DecodeAsType)] struct A1 { #[decode_as_type(skip)] a: D }
#[derive(DecodeAsType)] struct A2 { #[codec(skip)] a: D }
#[derive(DecodeAsType)] struct A3(#[decode_as_type(skip)] D);
#[derive(DecodeAsType)] struct A4(#[codec(skip)] D);
#[derive(DecodeAsType)] enum A5 { A(#[decode_as_type(skip)] D), B { #[decode_as_type(skip)] a: D }, C(#[codec(skip)] D), E { #[codec(skip)] a: D } }
// next to documentation and foreign attributes, before and after
#[derive(DecodeAsType)] struct B1 { /** doc */ #[decode_as_type(skip)] a: D, #[decode_as_type(skip)] /** doc */ b: D, #[allow(unused)] #[codec(skip)] #[allow(unused)] c: D }
#[derive(DecodeAsType)] enum B2 { A(/** doc */ #[decode_as_type(skip)] D, #[codec(skip)] /** doc */ D), B { #[doc = "x"] #[codec(skip)] #[doc(hidden)] a: D } }
// next to options of the codec derive, in one attribute and in several, either order
#[derive(DecodeAsType)] struct C1 { #[codec(compact)] #[codec(skip)] a: D, #[codec(skip)] #[codec(compact)] b: D, #[codec(compact, skip)] c: D, #[codec(skip, compact)] d: D }
#[derive(DecodeAsType)] struct C2(#[codec(compact)] #[decode_as_type(skip)] D, #[decode_as_type(skip)] #[codec(compact)] D, #[codec(skip)] #[decode_as_type(skip)] D, #[decode_as_type(skip)] #[codec(skip)] D);
#[derive(DecodeAsType)] enum C3 { A(#[codec(compact)] #[codec(skip)] D), B { #[codec(encoded_as = "u8")] #[codec(skip)] a: D, #[codec(skip)] #[codec(encoded_as = "u8")] b: D, #[codec(encoded_as = "u8", skip)] c: D } }
#[derive(DecodeAsType)] struct C4 { #[codec(skip, encoded_as = "u8")] a: D, #[codec(skip,)] b: D, #[decode_as_type(skip,)] c: D }
// first, last, middle, all
#[derive(DecodeAsType)] struct E1 { #[codec(skip)] a: D, b: u8, #[codec(skip)] c: D, d: u8, #[codec(skip)] e: D }
#[derive(DecodeAsType)] struct E2(u8, #[codec(skip)] D, u8, #[codec(skip)] D);
#[derive(DecodeAsType)] enum E3 { A(#[codec(skip)] D, u8, #[codec(skip)] D), B { a: u8, #[codec(skip)] b: D } }
// with other derive options, and parameters that are only used in skipped fields
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "scale_decode")] struct F1 { #[codec(skip)] a: D, b: u8 }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "T: Default")] struct F2<T> { #[codec(skip)] a: T, b: u8 }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "")] enum F3<T> { A(#[codec(skip)] Option<T>, u8) }
#[derive(DecodeAsType)] #[decode_as_type(crate_path = "::scale_decode", trait_bounds = "T: Default")] #[codec(dumb_trait_bound)] struct F4<T>(#[codec(compact)] #[codec(skip)] T, u8);
#[derive(DecodeAsType)] struct F5<'a> { #[codec(skip)] a: Option<&'a mut NotDecodable>, #[codec(skip)] f: Option<fn(&'a NotDecodable) -> NotDecodable> }
#[derive(DecodeAsType)] struct F6 { #[cfg_attr(all(), codec(skip))] a: D, #[cfg_attr(all(), decode_as_type(skip))] b: D }
macro_rules! field { ($(#[$m:meta])* $n:ident) => { #[derive(DecodeAsType)] struct $n { $(#[$m])* a: D, #[$($m)*] b: D } } }
field!(#[codec(skip)] G1);
field!(#[decode_as_type(skip)] G2);

// without the option the field has to be decodable, and a skipped one needs its default
#[derive(DecodeAsType)] struct N1 { a: D } //~ E0277
#[derive(DecodeAsType)] struct N2(u8, D); //~ E0277
#[derive(DecodeAsType)] enum N3 { A(D) } //~ E0277
#[derive(DecodeAsType)] enum N4 { A { a: D } } //~ E0277
#[derive(DecodeAsType)] struct N5 { #[codec(compact)] a: D } //~ E0277
#[derive(DecodeAsType)] struct N6 { #[codec(skip)] a: NoDefault } //~ E0277
#[derive(DecodeAsType)] struct N7(#[decode_as_type(skip)] NoDefault); //~ E0277
#[derive(DecodeAsType)] enum N8 { A(#[codec(skip)] NoDefault) } //~ E0277
#[derive(DecodeAsType)] struct N9 { #[codec(skip)] a: D, b: D } //~ E0277
// `skip` of another attribute family means nothing here
#[derive(DecodeAsType)] struct N10 { #[cfg_attr(any(), codec(skip))] a: D } //~ E0277
