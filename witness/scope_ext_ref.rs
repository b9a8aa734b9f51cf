//! An extension trait with a blanket impl, methods by `&self`, is in scope.  Nothing here may be rejected.
#![no_implicit_prelude]
#![allow(dead_code)]
mod t {
    pub trait Blanket: ::core::marker::Sized { fn name(&self) {} fn fields(&self) {} fn remaining(&self) {} fn has_unnamed_fields(&self) {} fn as_tuple(&self) {} fn decode_item(&self) {} fn decode_as_type(&self) {} fn decode_with_visitor(&self) {} fn skip_decoding(&self) {} fn bytes_from_undecoded(&self) {} fn bytes_from_start(&self) {} fn bytes_after(&self) {} fn peek_name(&self) {} fn type_id(&self) {} fn is_compact(&self) {} fn index(&self) {} fn path(&self) {} fn is_empty(&self) {} fn len(&self) {} fn get(&self) {} fn get_mut(&self) {} fn remove(&self) {} fn insert(&self) {} fn is_ok(&self) {} fn is_err(&self) {} fn is_some(&self) {} fn is_none(&self) {} fn visit_tuple(&self) {} fn visit_composite(&self) {} fn visit_variant(&self) {} fn visit_unexpected(&self) {} fn into_visitor(&self) {} fn map(&self) {} fn map_err(&self) {} fn and_then(&self) {} fn ok_or(&self) {} fn ok_or_else(&self) {} fn ok(&self) {} fn err(&self) {} fn expect(&self) {} fn unwrap(&self) {} fn unwrap_or(&self) {} fn unwrap_or_else(&self) {} fn unwrap_or_default(&self) {} fn next(&self) {} fn collect(&self) {} fn filter(&self) {} fn filter_map(&self) {} fn find(&self) {} fn position(&self) {} fn any(&self) {} fn all(&self) {} fn enumerate(&self) {} fn zip(&self) {} fn rev(&self) {} fn skip(&self) {} fn take(&self) {} fn chain(&self) {} fn cloned(&self) {} fn copied(&self) {} fn by_ref(&self) {} fn into_iter(&self) {} fn iter(&self) {} fn iter_mut(&self) {} fn clone(&self) {} fn cloned_from(&self) {} fn to_string(&self) {} fn to_owned(&self) {} fn into(&self) {} fn from(&self) {} fn try_into(&self) {} fn try_from(&self) {} fn as_ref(&self) {} fn as_mut(&self) {} fn as_str(&self) {} fn as_slice(&self) {} fn borrow(&self) {} fn borrow_mut(&self) {} fn deref(&self) {} fn deref_mut(&self) {} fn at(&self) {} fn at_idx(&self) {} fn at_field(&self) {} fn at_variant(&self) {} fn new(&self) {} fn eq(&self) {} fn ne(&self) {} fn cmp(&self) {} fn partial_cmp(&self) {} fn lt(&self) {} fn le(&self) {} fn gt(&self) {} fn ge(&self) {} fn hash(&self) {} fn fmt(&self) {} fn default(&self) {} fn push(&self) {} fn extend(&self) {} fn with_capacity(&self) {} fn first(&self) {} fn last(&self) {} fn count(&self) {} fn nth(&self) {} fn fold(&self) {} fn try_fold(&self) {} fn try_for_each(&self) {} fn for_each(&self) {} fn size_hint(&self) {} fn contains(&self) {} fn contains_key(&self) {} fn entry(&self) {} fn or_insert(&self) {} fn add(&self) {} fn sub(&self) {} fn not(&self) {} }
    impl<T> Blanket for T {}
}
use t::Blanket;

#[derive(::scale_decode::DecodeAsType)]
struct Named { a: ::core::primitive::u32, b: ::core::primitive::u8, #[decode_as_type(skip)] c: ::core::primitive::u64 }
#[derive(::scale_decode::DecodeAsType)]
struct NamedOne { a: ::core::primitive::u32 }
#[derive(::scale_decode::DecodeAsType)]
struct TupleTwo(::core::primitive::u32, #[codec(skip)] ::core::primitive::u64, ::core::primitive::u8);
#[derive(::scale_decode::DecodeAsType)]
struct TupleOne(::core::primitive::u32);
#[derive(::scale_decode::DecodeAsType)]
struct Unit;
#[derive(::scale_decode::DecodeAsType)]
struct UnitNamed {}
#[derive(::scale_decode::DecodeAsType)]
struct UnitTuple();
#[derive(::scale_decode::DecodeAsType)]
enum Mixed { A, B(::core::primitive::u32), C(::core::primitive::u32, ::core::primitive::u8), D { a: ::core::primitive::u32 }, E { a: ::core::primitive::u32, #[decode_as_type(skip)] b: ::core::primitive::u64, c: ::core::primitive::u8 }, F(), G {} }
#[derive(::scale_decode::DecodeAsType)]
enum Empty {}
#[derive(::scale_decode::DecodeAsType)]
struct Generic<T, const N: ::core::primitive::usize> { a: T, b: [T; N] }
#[derive(::scale_decode::DecodeAsType)]
enum GenericEnum<T> { A(T), B { a: T } }
#[derive(::scale_decode::DecodeAsType)]
struct Lifetimes<'a, T: 'a> { #[codec(skip)] a: ::core::marker::PhantomData<&'a T>, b: ::core::primitive::u32 }
