//! Deriving types, their parameters, fields and variants share names with what generated code uses.
#![no_implicit_prelude]
#![allow(dead_code, non_camel_case_types, non_snake_case)]
mod type_Option {
    #[derive(::scale_decode::DecodeAsType)]
    struct Option { a: ::core::primitive::u8 }
}
mod type_Some {
    #[derive(::scale_decode::DecodeAsType)]
    struct Some(::core::primitive::u8, ::core::primitive::u8);
}
mod type_None {
    #[derive(::scale_decode::DecodeAsType)]
    enum None { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_Ok {
    #[derive(::scale_decode::DecodeAsType)]
    struct Ok { a: ::core::primitive::u8 }
}
mod type_Err {
    #[derive(::scale_decode::DecodeAsType)]
    struct Err(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Result {
    #[derive(::scale_decode::DecodeAsType)]
    enum Result { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_Default {
    #[derive(::scale_decode::DecodeAsType)]
    struct Default { a: ::core::primitive::u8 }
}
mod type_From {
    #[derive(::scale_decode::DecodeAsType)]
    struct From(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Into {
    #[derive(::scale_decode::DecodeAsType)]
    enum Into { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_String {
    #[derive(::scale_decode::DecodeAsType)]
    struct String { a: ::core::primitive::u8 }
}
mod type_Vec {
    #[derive(::scale_decode::DecodeAsType)]
    struct Vec(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Box {
    #[derive(::scale_decode::DecodeAsType)]
    enum Box { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_Iterator {
    #[derive(::scale_decode::DecodeAsType)]
    struct Iterator { a: ::core::primitive::u8 }
}
mod type_IntoIterator {
    #[derive(::scale_decode::DecodeAsType)]
    struct IntoIterator(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Clone {
    #[derive(::scale_decode::DecodeAsType)]
    enum Clone { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_ToString {
    #[derive(::scale_decode::DecodeAsType)]
    struct ToString { a: ::core::primitive::u8 }
}
mod type_ToOwned {
    #[derive(::scale_decode::DecodeAsType)]
    struct ToOwned(::core::primitive::u8, ::core::primitive::u8);
}
mod type_BTreeMap {
    #[derive(::scale_decode::DecodeAsType)]
    enum BTreeMap { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_PhantomData {
    #[derive(::scale_decode::DecodeAsType)]
    struct PhantomData { a: ::core::primitive::u8 }
}
mod type_Sized {
    #[derive(::scale_decode::DecodeAsType)]
    struct Sized(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Send {
    #[derive(::scale_decode::DecodeAsType)]
    enum Send { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_Sync {
    #[derive(::scale_decode::DecodeAsType)]
    struct Sync { a: ::core::primitive::u8 }
}
mod type_Visitor {
    #[derive(::scale_decode::DecodeAsType)]
    struct Visitor(::core::primitive::u8, ::core::primitive::u8);
}
mod type_IntoVisitor {
    #[derive(::scale_decode::DecodeAsType)]
    enum IntoVisitor { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_TypeResolver {
    #[derive(::scale_decode::DecodeAsType)]
    struct TypeResolver { a: ::core::primitive::u8 }
}
mod type_DecodeAsType {
    #[derive(::scale_decode::DecodeAsType)]
    struct DecodeAsType(::core::primitive::u8, ::core::primitive::u8);
}
mod type_DecodeAsFields {
    #[derive(::scale_decode::DecodeAsType)]
    enum DecodeAsFields { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_Error {
    #[derive(::scale_decode::DecodeAsType)]
    struct Error { a: ::core::primitive::u8 }
}
mod type_ErrorKind {
    #[derive(::scale_decode::DecodeAsType)]
    struct ErrorKind(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Composite {
    #[derive(::scale_decode::DecodeAsType)]
    enum Composite { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_Tuple {
    #[derive(::scale_decode::DecodeAsType)]
    struct Tuple { a: ::core::primitive::u8 }
}
mod type_Variant {
    #[derive(::scale_decode::DecodeAsType)]
    struct Variant(::core::primitive::u8, ::core::primitive::u8);
}
mod type_CompositeField {
    #[derive(::scale_decode::DecodeAsType)]
    enum CompositeField { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_TupleField {
    #[derive(::scale_decode::DecodeAsType)]
    struct TupleField { a: ::core::primitive::u8 }
}
mod type_FieldIter {
    #[derive(::scale_decode::DecodeAsType)]
    struct FieldIter(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Field {
    #[derive(::scale_decode::DecodeAsType)]
    enum Field { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_Unexpected {
    #[derive(::scale_decode::DecodeAsType)]
    struct Unexpected { a: ::core::primitive::u8 }
}
mod type_TypeId {
    #[derive(::scale_decode::DecodeAsType)]
    struct TypeId(::core::primitive::u8, ::core::primitive::u8);
}
mod type_R {
    #[derive(::scale_decode::DecodeAsType)]
    enum R { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_T {
    #[derive(::scale_decode::DecodeAsType)]
    struct T { a: ::core::primitive::u8 }
}
mod type_V {
    #[derive(::scale_decode::DecodeAsType)]
    struct V(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Value {
    #[derive(::scale_decode::DecodeAsType)]
    enum Value { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_AnyVisitor {
    #[derive(::scale_decode::DecodeAsType)]
    struct AnyVisitor { a: ::core::primitive::u8 }
}
mod type_WrongLength {
    #[derive(::scale_decode::DecodeAsType)]
    struct WrongLength(::core::primitive::u8, ::core::primitive::u8);
}
mod type_CannotFindField {
    #[derive(::scale_decode::DecodeAsType)]
    enum CannotFindField { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_CannotFindVariant {
    #[derive(::scale_decode::DecodeAsType)]
    struct CannotFindVariant { a: ::core::primitive::u8 }
}
mod type_Location {
    #[derive(::scale_decode::DecodeAsType)]
    struct Location(::core::primitive::u8, ::core::primitive::u8);
}
mod type_Context {
    #[derive(::scale_decode::DecodeAsType)]
    enum Context { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_u8 {
    #[derive(::scale_decode::DecodeAsType)]
    struct u8 { a: ::core::primitive::u8 }
}
mod type_u16 {
    #[derive(::scale_decode::DecodeAsType)]
    struct u16(::core::primitive::u8, ::core::primitive::u8);
}
mod type_u32 {
    #[derive(::scale_decode::DecodeAsType)]
    enum u32 { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_u64 {
    #[derive(::scale_decode::DecodeAsType)]
    struct u64 { a: ::core::primitive::u8 }
}
mod type_u128 {
    #[derive(::scale_decode::DecodeAsType)]
    struct u128(::core::primitive::u8, ::core::primitive::u8);
}
mod type_i8 {
    #[derive(::scale_decode::DecodeAsType)]
    enum i8 { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_i16 {
    #[derive(::scale_decode::DecodeAsType)]
    struct i16 { a: ::core::primitive::u8 }
}
mod type_i32 {
    #[derive(::scale_decode::DecodeAsType)]
    struct i32(::core::primitive::u8, ::core::primitive::u8);
}
mod type_i64 {
    #[derive(::scale_decode::DecodeAsType)]
    enum i64 { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_i128 {
    #[derive(::scale_decode::DecodeAsType)]
    struct i128 { a: ::core::primitive::u8 }
}
mod type_bool {
    #[derive(::scale_decode::DecodeAsType)]
    struct bool(::core::primitive::u8, ::core::primitive::u8);
}
mod type_char {
    #[derive(::scale_decode::DecodeAsType)]
    enum char { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_str {
    #[derive(::scale_decode::DecodeAsType)]
    struct str { a: ::core::primitive::u8 }
}
mod type_usize {
    #[derive(::scale_decode::DecodeAsType)]
    struct usize(::core::primitive::u8, ::core::primitive::u8);
}
mod type_isize {
    #[derive(::scale_decode::DecodeAsType)]
    enum isize { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_core {
    #[derive(::scale_decode::DecodeAsType)]
    struct core { a: ::core::primitive::u8 }
}
mod type_alloc {
    #[derive(::scale_decode::DecodeAsType)]
    struct alloc(::core::primitive::u8, ::core::primitive::u8);
}
mod type_std {
    #[derive(::scale_decode::DecodeAsType)]
    enum std { A, B(::core::primitive::u8), C { a: ::core::primitive::u8 } }
}
mod type_scale_decode {
    #[derive(::scale_decode::DecodeAsType)]
    struct scale_decode { a: ::core::primitive::u8 }
}
#[derive(::scale_decode::DecodeAsType)]
enum UnitVariants { Option, Some, None, Ok, Err, Result, Default, From, Into, String, Vec, Box, Iterator, IntoIterator, Clone, ToString, ToOwned, BTreeMap, PhantomData, Sized, Send, Sync, Visitor, IntoVisitor, TypeResolver, DecodeAsType, DecodeAsFields, Error, ErrorKind, Composite, Tuple, Variant, CompositeField, TupleField, FieldIter, Field, Unexpected, TypeId, R, T, V, Value, AnyVisitor, WrongLength, CannotFindField, CannotFindVariant, Location, Context }
#[derive(::scale_decode::DecodeAsType)]
enum TupleVariants { Option(::core::primitive::u8), Some(::core::primitive::u8), None(::core::primitive::u8), Ok(::core::primitive::u8), Err(::core::primitive::u8), Result(::core::primitive::u8), Default(::core::primitive::u8), From(::core::primitive::u8), Into(::core::primitive::u8), String(::core::primitive::u8), Vec(::core::primitive::u8), Box(::core::primitive::u8), Iterator(::core::primitive::u8), IntoIterator(::core::primitive::u8), Clone(::core::primitive::u8), ToString(::core::primitive::u8), ToOwned(::core::primitive::u8), BTreeMap(::core::primitive::u8), PhantomData(::core::primitive::u8), Sized(::core::primitive::u8), Send(::core::primitive::u8), Sync(::core::primitive::u8), Visitor(::core::primitive::u8), IntoVisitor(::core::primitive::u8), TypeResolver(::core::primitive::u8), DecodeAsType(::core::primitive::u8), DecodeAsFields(::core::primitive::u8), Error(::core::primitive::u8), ErrorKind(::core::primitive::u8), Composite(::core::primitive::u8), Tuple(::core::primitive::u8), Variant(::core::primitive::u8), CompositeField(::core::primitive::u8), TupleField(::core::primitive::u8), FieldIter(::core::primitive::u8), Field(::core::primitive::u8), Unexpected(::core::primitive::u8), TypeId(::core::primitive::u8), R(::core::primitive::u8), T(::core::primitive::u8), V(::core::primitive::u8), Value(::core::primitive::u8), AnyVisitor(::core::primitive::u8), WrongLength(::core::primitive::u8), CannotFindField(::core::primitive::u8), CannotFindVariant(::core::primitive::u8), Location(::core::primitive::u8), Context(::core::primitive::u8) }
#[derive(::scale_decode::DecodeAsType)]
enum StructVariants { Option { Option: ::core::primitive::u8 }, Some { Some: ::core::primitive::u8 }, None { None: ::core::primitive::u8 }, Ok { Ok: ::core::primitive::u8 }, Err { Err: ::core::primitive::u8 }, Result { Result: ::core::primitive::u8 }, Default { Default: ::core::primitive::u8 }, From { From: ::core::primitive::u8 }, Into { Into: ::core::primitive::u8 }, String { String: ::core::primitive::u8 }, Vec { Vec: ::core::primitive::u8 }, Box { Box: ::core::primitive::u8 }, Iterator { Iterator: ::core::primitive::u8 }, IntoIterator { IntoIterator: ::core::primitive::u8 }, Clone { Clone: ::core::primitive::u8 }, ToString { ToString: ::core::primitive::u8 }, ToOwned { ToOwned: ::core::primitive::u8 }, BTreeMap { BTreeMap: ::core::primitive::u8 }, PhantomData { PhantomData: ::core::primitive::u8 }, Sized { Sized: ::core::primitive::u8 }, Send { Send: ::core::primitive::u8 }, Sync { Sync: ::core::primitive::u8 }, Visitor { Visitor: ::core::primitive::u8 }, IntoVisitor { IntoVisitor: ::core::primitive::u8 }, TypeResolver { TypeResolver: ::core::primitive::u8 }, DecodeAsType { DecodeAsType: ::core::primitive::u8 }, DecodeAsFields { DecodeAsFields: ::core::primitive::u8 }, Error { Error: ::core::primitive::u8 }, ErrorKind { ErrorKind: ::core::primitive::u8 }, Composite { Composite: ::core::primitive::u8 }, Tuple { Tuple: ::core::primitive::u8 }, Variant { Variant: ::core::primitive::u8 }, CompositeField { CompositeField: ::core::primitive::u8 }, TupleField { TupleField: ::core::primitive::u8 }, FieldIter { FieldIter: ::core::primitive::u8 }, Field { Field: ::core::primitive::u8 }, Unexpected { Unexpected: ::core::primitive::u8 }, TypeId { TypeId: ::core::primitive::u8 }, R { R: ::core::primitive::u8 }, T { T: ::core::primitive::u8 }, V { V: ::core::primitive::u8 }, Value { Value: ::core::primitive::u8 }, AnyVisitor { AnyVisitor: ::core::primitive::u8 }, WrongLength { WrongLength: ::core::primitive::u8 }, CannotFindField { CannotFindField: ::core::primitive::u8 }, CannotFindVariant { CannotFindVariant: ::core::primitive::u8 }, Location { Location: ::core::primitive::u8 }, Context { Context: ::core::primitive::u8 } }
#[derive(::scale_decode::DecodeAsType)]
struct Fields { a: ::core::primitive::u8, b: ::core::primitive::u8, e: ::core::primitive::u8, f: ::core::primitive::u8, i: ::core::primitive::u8, n: ::core::primitive::u8, s: ::core::primitive::u8, t: ::core::primitive::u8, v: ::core::primitive::u8, x: ::core::primitive::u8, val: ::core::primitive::u8, vals: ::core::primitive::u8, value: ::core::primitive::u8, values: ::core::primitive::u8, field: ::core::primitive::u8, fields: ::core::primitive::u8, item: ::core::primitive::u8, items: ::core::primitive::u8, res: ::core::primitive::u8, result: ::core::primitive::u8, skip_res: ::core::primitive::u8, input: ::core::primitive::u8, types: ::core::primitive::u8, type_id: ::core::primitive::u8, _type_id: ::core::primitive::u8, composite: ::core::primitive::u8, tuple: ::core::primitive::u8, variant: ::core::primitive::u8, name: ::core::primitive::u8, idx: ::core::primitive::u8, index: ::core::primitive::u8, len: ::core::primitive::u8, self_: ::core::primitive::u8, visitor: ::core::primitive::u8, decode_error: ::core::primitive::u8, error: ::core::primitive::u8, it: ::core::primitive::u8, iter: ::core::primitive::u8, acc: ::core::primitive::u8, count: ::core::primitive::u8, map: ::core::primitive::u8, k: ::core::primitive::u8, key: ::core::primitive::u8, keys: ::core::primitive::u8, bytes: ::core::primitive::u8, b1: ::core::primitive::u8, out: ::core::primitive::u8, ret: ::core::primitive::u8, tmp: ::core::primitive::u8, r#type: ::core::primitive::u8, r#fn: ::core::primitive::u8, r#match: ::core::primitive::u8, r#struct: ::core::primitive::u8, r#ref: ::core::primitive::u8, r#mut: ::core::primitive::u8, r#in: ::core::primitive::u8, r#for: ::core::primitive::u8, r#loop: ::core::primitive::u8, r#let: ::core::primitive::u8, r#where: ::core::primitive::u8, r#move: ::core::primitive::u8, r#async: ::core::primitive::u8, r#dyn: ::core::primitive::u8, r#try: ::core::primitive::u8 }
#[derive(::scale_decode::DecodeAsType)]
enum FieldsInVariant { A { a: ::core::primitive::u8, b: ::core::primitive::u8, e: ::core::primitive::u8, f: ::core::primitive::u8, i: ::core::primitive::u8, n: ::core::primitive::u8, s: ::core::primitive::u8, t: ::core::primitive::u8, v: ::core::primitive::u8, x: ::core::primitive::u8, val: ::core::primitive::u8, vals: ::core::primitive::u8, value: ::core::primitive::u8, values: ::core::primitive::u8, field: ::core::primitive::u8, fields: ::core::primitive::u8, item: ::core::primitive::u8, items: ::core::primitive::u8, res: ::core::primitive::u8, result: ::core::primitive::u8, skip_res: ::core::primitive::u8, input: ::core::primitive::u8, types: ::core::primitive::u8, type_id: ::core::primitive::u8, _type_id: ::core::primitive::u8, composite: ::core::primitive::u8, tuple: ::core::primitive::u8, variant: ::core::primitive::u8, name: ::core::primitive::u8, idx: ::core::primitive::u8, index: ::core::primitive::u8, len: ::core::primitive::u8, self_: ::core::primitive::u8, visitor: ::core::primitive::u8, decode_error: ::core::primitive::u8, error: ::core::primitive::u8, it: ::core::primitive::u8, iter: ::core::primitive::u8, acc: ::core::primitive::u8, count: ::core::primitive::u8, map: ::core::primitive::u8, k: ::core::primitive::u8, key: ::core::primitive::u8, keys: ::core::primitive::u8, bytes: ::core::primitive::u8, b1: ::core::primitive::u8, out: ::core::primitive::u8, ret: ::core::primitive::u8, tmp: ::core::primitive::u8, r#type: ::core::primitive::u8, r#fn: ::core::primitive::u8, r#match: ::core::primitive::u8, r#struct: ::core::primitive::u8, r#ref: ::core::primitive::u8, r#mut: ::core::primitive::u8, r#in: ::core::primitive::u8, r#for: ::core::primitive::u8, r#loop: ::core::primitive::u8, r#let: ::core::primitive::u8, r#where: ::core::primitive::u8, r#move: ::core::primitive::u8, r#async: ::core::primitive::u8, r#dyn: ::core::primitive::u8, r#try: ::core::primitive::u8 } }
#[derive(::scale_decode::DecodeAsType)]
struct Params<Option, Some, None, Ok, Err, Result, Default, From, Into, String, Vec, Box, Iterator, IntoIterator, Clone, ToString, ToOwned, BTreeMap, PhantomData, Sized, Send, Sync, Visitor, IntoVisitor, TypeResolver, DecodeAsType, DecodeAsFields, Error, ErrorKind, Composite, Tuple, Variant, CompositeField, TupleField, FieldIter, Field, Unexpected, TypeId, R, T, V, Value, AnyVisitor, WrongLength, CannotFindField, CannotFindVariant, Location, Context> { option_: Option, some_: Some, none_: None, ok_: Ok, err_: Err, result_: Result, default_: Default, from_: From, into_: Into, string_: String, vec_: Vec, box_: Box, iterator_: Iterator, intoiterator_: IntoIterator, clone_: Clone, tostring_: ToString, toowned_: ToOwned, btreemap_: BTreeMap, phantomdata_: PhantomData, sized_: Sized, send_: Send, sync_: Sync, visitor_: Visitor, intovisitor_: IntoVisitor, typeresolver_: TypeResolver, decodeastype_: DecodeAsType, decodeasfields_: DecodeAsFields, error_: Error, errorkind_: ErrorKind, composite_: Composite, tuple_: Tuple, variant_: Variant, compositefield_: CompositeField, tuplefield_: TupleField, fielditer_: FieldIter, field_: Field, unexpected_: Unexpected, typeid_: TypeId, r_: R, t_: T, v_: V, value_: Value, anyvisitor_: AnyVisitor, wronglength_: WrongLength, cannotfindfield_: CannotFindField, cannotfindvariant_: CannotFindVariant, location_: Location, context_: Context }
#[derive(::scale_decode::DecodeAsType)]
enum ParamsInVariants<Option, Some, None, Ok, Err, Result, Default, From, Into, String, Vec, Box, Iterator, IntoIterator, Clone, ToString, ToOwned, BTreeMap, PhantomData, Sized, Send, Sync, Visitor, IntoVisitor, TypeResolver, DecodeAsType, DecodeAsFields, Error, ErrorKind, Composite, Tuple, Variant, CompositeField, TupleField, FieldIter, Field, Unexpected, TypeId, R, T, V, Value, AnyVisitor, WrongLength, CannotFindField, CannotFindVariant, Location, Context> { Option(Option), Some(Some), None(None), Ok(Ok), Err(Err), Result(Result), Default(Default), From(From), Into(Into), String(String), Vec(Vec), Box(Box), Iterator(Iterator), IntoIterator(IntoIterator), Clone(Clone), ToString(ToString), ToOwned(ToOwned), BTreeMap(BTreeMap), PhantomData(PhantomData), Sized(Sized), Send(Send), Sync(Sync), Visitor(Visitor), IntoVisitor(IntoVisitor), TypeResolver(TypeResolver), DecodeAsType(DecodeAsType), DecodeAsFields(DecodeAsFields), Error(Error), ErrorKind(ErrorKind), Composite(Composite), Tuple(Tuple), Variant(Variant), CompositeField(CompositeField), TupleField(TupleField), FieldIter(FieldIter), Field(Field), Unexpected(Unexpected), TypeId(TypeId), R(R), T(T), V(V), Value(Value), AnyVisitor(AnyVisitor), WrongLength(WrongLength), CannotFindField(CannotFindField), CannotFindVariant(CannotFindVariant), Location(Location), Context(Context) }
#[derive(::scale_decode::DecodeAsType)]
struct ParamsPrims<u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, str, usize, isize>(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, str, usize, isize);
#[derive(::scale_decode::DecodeAsType)]
struct Lifetimes<'scale, 'resolver, 'info, 'a, 'b, 'temp, 's, 'r, 'this, 'de, '_x, 'types, 'input> { #[codec(skip)] f0: ::core::marker::PhantomData<&'scale ()>, #[codec(skip)] f1: ::core::marker::PhantomData<&'resolver ()>, #[codec(skip)] f2: ::core::marker::PhantomData<&'info ()>, #[codec(skip)] f3: ::core::marker::PhantomData<&'a ()>, #[codec(skip)] f4: ::core::marker::PhantomData<&'b ()>, #[codec(skip)] f5: ::core::marker::PhantomData<&'temp ()>, #[codec(skip)] f6: ::core::marker::PhantomData<&'s ()>, #[codec(skip)] f7: ::core::marker::PhantomData<&'r ()>, #[codec(skip)] f8: ::core::marker::PhantomData<&'this ()>, #[codec(skip)] f9: ::core::marker::PhantomData<&'de ()>, #[codec(skip)] f10: ::core::marker::PhantomData<&'_x ()>, #[codec(skip)] f11: ::core::marker::PhantomData<&'types ()>, #[codec(skip)] f12: ::core::marker::PhantomData<&'input ()> }
#[derive(::scale_decode::DecodeAsType)]
enum LifetimesInVariants<'scale, 'resolver, 'info, 'a, 'b, 'temp, 's, 'r, 'this, 'de, '_x, 'types, 'input> { A { #[codec(skip)] f0: ::core::marker::PhantomData<&'scale ()>, #[codec(skip)] f1: ::core::marker::PhantomData<&'resolver ()>, #[codec(skip)] f2: ::core::marker::PhantomData<&'info ()>, #[codec(skip)] f3: ::core::marker::PhantomData<&'a ()>, #[codec(skip)] f4: ::core::marker::PhantomData<&'b ()>, #[codec(skip)] f5: ::core::marker::PhantomData<&'temp ()>, #[codec(skip)] f6: ::core::marker::PhantomData<&'s ()>, #[codec(skip)] f7: ::core::marker::PhantomData<&'r ()>, #[codec(skip)] f8: ::core::marker::PhantomData<&'this ()>, #[codec(skip)] f9: ::core::marker::PhantomData<&'de ()>, #[codec(skip)] f10: ::core::marker::PhantomData<&'_x ()>, #[codec(skip)] f11: ::core::marker::PhantomData<&'types ()>, #[codec(skip)] f12: ::core::marker::PhantomData<&'input ()> } }
#[derive(::scale_decode::DecodeAsType)]
struct Consts<const N: ::core::primitive::usize, const M: ::core::primitive::usize, const T: ::core::primitive::usize, const V: ::core::primitive::usize, const R: ::core::primitive::usize, const LEN: ::core::primitive::usize, const Option: ::core::primitive::usize, const Result: ::core::primitive::usize, const Some: ::core::primitive::usize, const Error: ::core::primitive::usize, const Visitor: ::core::primitive::usize> { f0: [::core::primitive::u8; N], f1: [::core::primitive::u8; M], f2: [::core::primitive::u8; T], f3: [::core::primitive::u8; V], f4: [::core::primitive::u8; R], f5: [::core::primitive::u8; LEN], f6: [::core::primitive::u8; Option], f7: [::core::primitive::u8; Result], f8: [::core::primitive::u8; Some], f9: [::core::primitive::u8; Error], f10: [::core::primitive::u8; Visitor] }
mod inherent_Option {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Option<T> { a: T }
    impl<T> Option<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Some {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Some<T> { a: T }
    impl<T> Some<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_None {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct None<T> { a: T }
    impl<T> None<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Ok {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Ok<T> { a: T }
    impl<T> Ok<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Err {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Err<T> { a: T }
    impl<T> Err<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Result {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Result<T> { a: T }
    impl<T> Result<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Default {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Default<T> { a: T }
    impl<T> Default<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_From {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct From<T> { a: T }
    impl<T> From<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Into {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Into<T> { a: T }
    impl<T> Into<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_String {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct String<T> { a: T }
    impl<T> String<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Vec {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Vec<T> { a: T }
    impl<T> Vec<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Box {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Box<T> { a: T }
    impl<T> Box<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Iterator {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Iterator<T> { a: T }
    impl<T> Iterator<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_IntoIterator {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct IntoIterator<T> { a: T }
    impl<T> IntoIterator<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Clone {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Clone<T> { a: T }
    impl<T> Clone<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_ToString {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct ToString<T> { a: T }
    impl<T> ToString<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_ToOwned {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct ToOwned<T> { a: T }
    impl<T> ToOwned<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_BTreeMap {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct BTreeMap<T> { a: T }
    impl<T> BTreeMap<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_PhantomData {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct PhantomData<T> { a: T }
    impl<T> PhantomData<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Sized {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Sized<T> { a: T }
    impl<T> Sized<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Send {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Send<T> { a: T }
    impl<T> Send<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Sync {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Sync<T> { a: T }
    impl<T> Sync<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_Visitor {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct Visitor<T> { a: T }
    impl<T> Visitor<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
mod inherent_IntoVisitor {
    #[derive(::scale_decode::DecodeAsType)]
    pub struct IntoVisitor<T> { a: T }
    impl<T> IntoVisitor<T> { pub fn into_visitor() {} pub fn decode_as_type() {} pub fn decode_as_fields() {} pub fn visit_composite(&self) {} pub fn visit_tuple(&self) {} pub fn new() {} pub fn default() {} }
}
