//! Crates that deny lints: generated code must not raise any.
#![forbid(unsafe_code)]
#![deny(warnings)]
use scale_decode::DecodeAsType;
use std::marker::PhantomData;
/// x
#[derive(DecodeAsType, Debug)] pub struct Named { /** x */ pub a: u8, #[codec(skip)] /** x */ pub b: u8 }
/// x
#[derive(DecodeAsType, Debug, Clone, Copy)] pub struct Tuple(/** x */ pub u8, #[codec(skip)] /** x */ pub u8);
/// x
#[derive(DecodeAsType, Debug, Clone, Copy)] pub struct Unit;
/// x
#[derive(DecodeAsType, Debug, Clone, Copy)] pub enum Enum { /** x */ A, /** x */ B(u8), /** x */ C(u8, #[codec(skip)] u8), /** x */ D { /** x */ a: u8, #[codec(skip)] /** x */ b: u8 } }
/// x
#[derive(DecodeAsType, Debug, Clone, Copy)] pub enum Never {}
/// x
#[derive(DecodeAsType, Debug)] pub struct Generic<T, const N: usize> where T: Clone { /** x */ pub a: T, /** x */ pub b: [u8; N] }
/// x
#[derive(DecodeAsType, Debug)] pub struct Life<'a, T: ?Sized>(#[codec(skip)] /** x */ pub PhantomData<&'a T>);
/// x
#[allow(nonstandard_style)] #[derive(DecodeAsType, Debug, Clone, Copy)] pub enum odd_name { /** x */ some_variant { /** x */ SomeField: u8 } }
/// x
#[derive(DecodeAsType, Debug, Clone, Copy)] #[deprecated] pub struct Old { /** x */ pub a: u8 }
/// x
#[derive(DecodeAsType, Debug)] pub struct OldField { #[deprecated] /** x */ pub a: u8 }
/// x
#[derive(DecodeAsType, Debug)] pub enum OldVariant { /** x */ A, #[deprecated] /** x */ B }
