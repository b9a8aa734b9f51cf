//! Which bounds the impls ask for: by default that each type parameter is decodable, else what was given.
//! Each unmarked line must be accepted, each marked one rejected.
#![allow(dead_code)]
use scale_decode::{DecodeAsFields, DecodeAsType, IntoVisitor};
use std::marker::PhantomData;
struct NotDecodable;
#[derive(Default)] struct OnlyDefault;
trait Mine { type Assoc; }
struct IsMine; impl Mine for IsMine { type Assoc = u8; }
struct IsMineBad; impl Mine for IsMineBad { type Assoc = NotDecodable; }
fn takes<T: IntoVisitor + DecodeAsType>() {}
fn takes_fields<T: DecodeAsFields>() {}

// ---- by default
#[derive(DecodeAsType)] struct Named<T> { a: T }
#[derive(DecodeAsType)] struct Tup<T>(T);
#[derive(DecodeAsType)] struct NamedSkipped<T> { #[codec(skip)] a: PhantomData<T> }
#[derive(DecodeAsType)] struct Two<T, U> { a: T, b: U }
#[derive(DecodeAsType)] enum Enum<T> { A(T), B { a: T }, C }
#[derive(DecodeAsType)] enum EnumTwo<'a, T, U: Clone, const N: usize> { A([T; N]), B { b: U }, C(#[codec(skip)] PhantomData<&'a ()>) }
#[derive(DecodeAsType)] struct WithOwn<T: Clone> where T: Default { a: T }
#[derive(DecodeAsType)] struct Lt<'a, T>(#[codec(skip)] PhantomData<&'a ()>, T);
#[derive(DecodeAsType)] struct OnlyConst<const N: usize>([u8; N]);
fn default_named<T: IntoVisitor>() { takes::<Named<T>>(); takes_fields::<Named<T>>() }
fn default_tuple<T: IntoVisitor>() { takes::<Tup<T>>(); takes_fields::<Tup<T>>() }
fn default_skipped<T: IntoVisitor>() { takes::<NamedSkipped<T>>(); takes_fields::<NamedSkipped<T>>() }
fn default_two<T: IntoVisitor, U: IntoVisitor>() { takes::<Two<T, U>>(); takes_fields::<Two<T, U>>() }
fn default_enum<T: IntoVisitor>() { takes::<Enum<T>>() }
fn default_enum_two<'a, T: IntoVisitor, U: IntoVisitor + Clone>() { takes::<EnumTwo<'a, T, U, 3>>() }
fn default_own<T: IntoVisitor + Clone + Default>() { takes::<WithOwn<T>>(); takes_fields::<WithOwn<T>>() }
fn default_lifetime<'a, T: IntoVisitor>() { takes::<Lt<'a, T>>(); takes_fields::<Lt<'a, T>>() }
fn default_const<const N: usize>() { takes::<OnlyConst<N>>(); takes_fields::<OnlyConst<N>>() }
fn default_named_no() { takes::<Named<NotDecodable>>() } //~ E0277
fn default_named_fields_no() { takes_fields::<Named<NotDecodable>>() } //~ E0277
fn default_tuple_no() { takes::<Tup<NotDecodable>>() } //~ E0277
fn default_tuple_fields_no() { takes_fields::<Tup<NotDecodable>>() } //~ E0277
fn default_skipped_no() { takes::<NamedSkipped<NotDecodable>>() } //~ E0277
fn default_first_no() { takes::<Two<NotDecodable, u8>>() } //~ E0277
fn default_second_no() { takes::<Two<u8, NotDecodable>>() } //~ E0277
fn default_enum_no() { takes::<Enum<NotDecodable>>() } //~ E0277
fn default_enum_two_no<'a>() { takes::<EnumTwo<'a, u8, NotDecodable, 2>>() } //~ E0277

// ---- given
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "")] struct NoBounds<T> { #[codec(skip)] a: PhantomData<T> }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "")] struct NoBoundsTuple<T, U>(#[codec(skip)] PhantomData<T>, #[codec(skip)] PhantomData<U>, u8);
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "")] enum NoBoundsEnum<T> { A(#[codec(skip)] PhantomData<T>), B { #[codec(skip)] a: PhantomData<T> } }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "T: Mine")] struct One<T>(#[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "T: Mine, T::Assoc: IntoVisitor")] struct Assoc<T: Mine> { a: T::Assoc }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "T: Mine, U: IntoVisitor,")] enum Mixed<T, U> { A(U), B(#[codec(skip)] PhantomData<T>) }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "T: IntoVisitor + Clone")] struct Sum<T>(T) where T: Default;
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "T: IntoVisitor, for<'x> &'x T: Into<u8>")] struct Hrtb<T>(T);
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "Vec<T>: IntoVisitor")] struct OnContainer<T>(Vec<T>);
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "'b: 'a")] struct OnLifetimes<'a, 'b>(u8, #[codec(skip)] PhantomData<(&'a (), &'b ())>);
fn given_none<T>() { takes::<NoBounds<T>>(); takes_fields::<NoBounds<T>>() }
fn given_none_two<T, U>() { takes::<NoBoundsTuple<T, U>>(); takes_fields::<NoBoundsTuple<T, U>>() }
fn given_none_enum<T>() { takes::<NoBoundsEnum<T>>() }
fn given_one<T: Mine>() { takes::<One<T>>(); takes_fields::<One<T>>() }
fn given_assoc<T: Mine>() where T::Assoc: IntoVisitor { takes::<Assoc<T>>(); takes_fields::<Assoc<T>>() }
fn given_mixed<T: Mine, U: IntoVisitor>() { takes::<Mixed<T, U>>() }
fn given_sum<T: IntoVisitor + Clone + Default>() { takes::<Sum<T>>(); takes_fields::<Sum<T>>() }
fn given_container<T>() where Vec<T>: IntoVisitor { takes::<OnContainer<T>>() }
fn given_one_no() { takes::<One<u8>>() } //~ E0277
fn given_one_fields_no() { takes_fields::<One<u8>>() } //~ E0277
fn given_assoc_no() { takes::<Assoc<IsMineBad>>() } //~ E0277
fn given_assoc_yes() { takes::<Assoc<IsMine>>() }
fn given_mixed_first_no() { takes::<Mixed<u8, u8>>() } //~ E0277
fn given_mixed_second_no() { takes::<Mixed<IsMine, NotDecodable>>() } //~ E0277
fn given_sum_no<T: IntoVisitor + Default>() { takes::<Sum<T>>() } //~ E0277
fn given_sum_where_kept_no<T: IntoVisitor + Clone>() { takes::<Sum<T>>() } //~ E0277
fn given_hrtb_no() { takes::<Hrtb<String>>() } //~ E0277
