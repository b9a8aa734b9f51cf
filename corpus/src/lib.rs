//! Types deriving `DecodeAsType`, covering the shapes the derive macro distinguishes.
//! Convention read by the analysis (rules_derive.py): a field is skipped exactly when its type is
//! `Sk` or `Sk2`, or its name starts with `s_`.  (Both could be decoded, so that a skip that is
//! overlooked still compiles and is reported as such.)
#![no_std]
#![allow(dead_code, non_snake_case, non_camel_case_types)]
extern crate alloc;
use alloc::{string::String, vec::Vec};
use scale_decode::DecodeAsType;

#[derive(Default, DecodeAsType)]
pub struct Sk(pub u64);
#[derive(Default, DecodeAsType)]
pub struct Sk2(pub u64);

// --- structs with named fields
#[derive(DecodeAsType)]
pub struct NEmpty {}
#[derive(DecodeAsType)]
pub struct N1 { pub only: u32 }
/// Two fields of the same type: only the name tells them apart.
#[derive(DecodeAsType)]
pub struct N3 { pub zulu: u32, pub alpha: u32, pub mike: String }
#[derive(DecodeAsType)]
pub struct NSkFirst { #[codec(skip)] pub a: Sk, pub b: u32, pub c: u8 }
#[derive(DecodeAsType)]
pub struct NSkMid { pub a: u32, #[decode_as_type(skip)] pub b: Sk, pub c: u32 }
#[derive(DecodeAsType)]
pub struct NSkLast { pub a: u32, pub c: u8, #[codec(skip)] pub z: Sk }
#[derive(DecodeAsType)]
pub struct NSkAll { #[codec(skip)] pub a: Sk, #[decode_as_type(skip)] pub b: Sk2 }
#[derive(DecodeAsType)]
pub struct NSkMany {
    /// documentation
    #[codec(skip)]
    #[codec(compact)]
    pub a: Sk,
    #[codec(compact)]
    /// documentation
    pub b: u32,
    /// documentation
    #[allow(unused)]
    #[decode_as_type(skip)]
    /// more documentation
    pub c: Sk2,
    #[codec(compact, skip)]
    pub d: Sk,
    #[codec(encoded_as = "u32")]
    #[cfg(all())]
    #[decode_as_type(skip)]
    pub e: Sk,
    #[codec(skip, encoded_as = "u32")]
    pub f: Sk,
    #[codec(compact)]
    #[decode_as_type(skip)]
    pub g: Sk,
    #[decode_as_type(skip)]
    #[codec(compact)]
    pub h: Sk,
    #[decode_as_type(skip)]
    #[codec(skip)]
    pub i: Sk,
    pub j: u32,
    #[codec(skip)]
    pub s_number: u32,
}
#[derive(DecodeAsType)]
pub struct NRaw { pub r#type: u32, pub other: u32, pub camelCase: u32, pub _lead: u32, pub trail_: u32 }

/// Names that case folding, trimming or an ASCII-only comparison would confuse.
#[derive(DecodeAsType)]
pub struct NOdd { pub größe: u32, pub grösse: u32, pub a_b: u32, pub ab: u32, pub aB: u32, pub r#async: u32, pub _0: u32, pub x1: u32 }
#[derive(DecodeAsType)]
pub struct NWide {
    pub f0: u32, pub f1: u32, pub f2: u32, pub f3: u32, pub f4: u32, pub f5: u32, pub f6: u32, pub f7: u32, pub f8: u32, pub f9: u32, pub f10: u32, pub f11: u32, pub f12: u32, pub f13: u32, pub f14: u32, pub f15: u32, pub f16: u32, #[codec(skip)] pub f17: Sk, pub f18: u32, pub f19: u32,
}

// --- structs with unnamed fields
#[derive(DecodeAsType)]
pub struct UEmpty();
#[derive(DecodeAsType)]
pub struct U1(pub u32);
#[derive(DecodeAsType)]
pub struct U3(pub u32, pub u32, pub String);
#[derive(DecodeAsType)]
pub struct USkFirst(#[codec(skip)] pub Sk, pub u32, pub u32);
#[derive(DecodeAsType)]
pub struct USkMid(pub u32, #[decode_as_type(skip)] pub Sk2, pub u32, #[codec(compact)] #[codec(skip)] pub Sk, pub u8);
#[derive(DecodeAsType)]
pub struct USkLast(pub u32, #[codec(skip)] pub Sk);
#[derive(DecodeAsType)]
pub struct USkAll(#[codec(skip)] pub Sk, #[codec(skip)] pub Sk2);
#[derive(DecodeAsType)]
pub struct Unit;

#[derive(DecodeAsType)]
pub struct UWide(pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, #[codec(skip)] pub Sk, pub u32, pub u32);

// --- enums
/// Names that case folding, trimming or an ASCII-only comparison would confuse.
#[derive(DecodeAsType)]
pub enum EOdd { r#type, Type, r#match(u32), Größe, Grösse { r#fn: u32 }, A_B, AB, aB, _0 }
#[derive(DecodeAsType)]
pub enum EWide {
    Tuple(u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, #[codec(skip)] Sk, u32, u32),
    Named { f0: u32, f1: u32, f2: u32, f3: u32, f4: u32, f5: u32, f6: u32, f7: u32, f8: u32, f9: u32, f10: u32, f11: u32, f12: u32, f13: u32, f14: u32, f15: u32, f16: u32, #[codec(skip)] f17: Sk, f18: u32, f19: u32 },
}
#[derive(DecodeAsType)]
pub enum EUnits { Zeta, Alpha, Middle, Alphabet, alpha, lower_case, _U }
#[derive(DecodeAsType)]
pub enum EOne { Only }
#[derive(DecodeAsType)]
pub enum EAll {
    Unit,
    EmptyNamed {},
    EmptyUnnamed(),
    Named1 { x: u32 },
    Unnamed1(u32),
    /// Same payload as another variant.
    Unnamed1Too(u32),
    Named3 { zulu: u32, alpha: u32, mike: String },
    Unnamed3(u32, u32, String),
    NamedSk { #[codec(skip)] a: Sk, b: u32, #[decode_as_type(skip)] c: Sk2, d: u32 },
    UnnamedSk(#[decode_as_type(skip)] Sk, u32, #[codec(compact, skip)] Sk2, u32),
    NamedSkAll { #[codec(skip)] a: Sk },
    UnnamedSkAll(#[codec(skip)] Sk),
    #[codec(index = 3)]
    Indexed(u8),
}
#[derive(DecodeAsType)]
pub enum EIndexed {
    #[codec(index = 7)] First = 7,
    #[codec(index = 1)] Second = 1,
    Third = 9,
}

// --- generics
#[derive(DecodeAsType)]
pub struct G1<T> { pub value: T, pub next: u32 }
#[derive(DecodeAsType)]
pub struct G2<T, U>(pub T, pub U);
#[derive(DecodeAsType)]
pub struct GBound<T: Clone, U> where U: Copy { pub left: T, pub right: U, #[codec(skip)] pub k: Sk }
#[derive(DecodeAsType)]
pub enum GE<T, U> { A(T), B { u: U, t: T }, C }
#[derive(DecodeAsType)]
pub struct GConst<const N: usize> { pub arr: [u8; N], pub after: u32 }
#[derive(DecodeAsType)]
pub struct GLife<'a> { pub s: alloc::borrow::Cow<'a, str>, pub n: u32 }
/// The parameter is not decodable; the bounds say that it need not be.
#[derive(DecodeAsType)]
#[decode_as_type(trait_bounds = "")]
pub struct GFree<T> { #[decode_as_type(skip)] pub mark: core::marker::PhantomData<T>, pub n: u32 }
#[derive(DecodeAsType)]
pub struct Nested { pub v: Vec<N3>, pub e: EAll, pub g: G1<U3>, pub o: Option<alloc::boxed::Box<N1>> }

// --- not a derived type: the allocation rules must report this one (rules_alloc.py)
pub fn control_claimed_capacity<'s, 'r, R: scale_decode::TypeResolver>(seq: &mut scale_decode::visitor::types::Sequence<'s, 'r, R>) -> Vec<u8> {
    Vec::with_capacity(seq.remaining())
}
