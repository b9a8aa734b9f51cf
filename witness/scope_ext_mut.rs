//! An extension trait with a blanket impl, methods by `&mut self`, is in scope.  Nothing here may be rejected.
#![no_implicit_prelude]
#![allow(dead_code)]
mod t {
    pub trait Blanket: ::core::marker::Sized { fn name(&mut self) {} fn fields(&mut self) {} fn remaining(&mut self) {} fn has_unnamed_fields(&mut self) {} fn as_tuple(&mut self) {} fn decode_item(&mut self) {} fn decode_as_type(&mut self) {} fn decode_with_visitor(&mut self) {} fn skip_decoding(&mut self) {} fn bytes_from_undecoded(&mut self) {} fn bytes_from_start(&mut self) {} fn bytes_after(&mut self) {} fn peek_name(&mut self) {} fn type_id(&mut self) {} fn is_compact(&mut self) {} fn index(&mut self) {} fn path(&mut self) {} fn is_empty(&mut self) {} fn len(&mut self) {} fn get(&mut self) {} fn get_mut(&mut self) {} fn remove(&mut self) {} fn insert(&mut self) {} fn is_ok(&mut self) {} fn is_err(&mut self) {} fn is_some(&mut self) {} fn is_none(&mut self) {} fn visit_tuple(&mut self) {} fn visit_composite(&mut self) {} fn visit_variant(&mut self) {} fn visit_unexpected(&mut self) {} fn into_visitor(&mut self) {} fn map(&mut self) {} fn map_err(&mut self) {} fn and_then(&mut self) {} fn ok_or(&mut self) {} fn ok_or_else(&mut self) {} fn ok(&mut self) {} fn err(&mut self) {} fn expect(&mut self) {} fn unwrap(&mut self) {} fn unwrap_or(&mut self) {} fn unwrap_or_else(&mut self) {} fn unwrap_or_default(&mut self) {} fn next(&mut self) {} fn collect(&mut self) {} fn filter(&mut self) {} fn filter_map(&mut self) {} fn find(&mut self) {} fn position(&mut self) {} fn any(&mut self) {} fn all(&mut self) {} fn enumerate(&mut self) {} fn zip(&mut self) {} fn rev(&mut self) {} fn skip(&mut self) {} fn take(&mut self) {} fn chain(&mut self) {} fn cloned(&mut self) {} fn copied(&mut self) {} fn by_ref(&mut self) {} fn into_iter(&mut self) {} fn iter(&mut self) {} fn iter_mut(&mut self) {} fn clone(&mut self) {} fn cloned_from(&mut self) {} fn to_string(&mut self) {} fn to_owned(&mut self) {} fn into(&mut self) {} fn from(&mut self) {} fn try_into(&mut self) {} fn try_from(&mut self) {} fn as_ref(&mut self) {} fn as_mut(&mut self) {} fn as_str(&mut self) {} fn as_slice(&mut self) {} fn borrow(&mut self) {} fn borrow_mut(&mut self) {} fn deref(&mut self) {} fn deref_mut(&mut self) {} fn at(&mut self) {} fn at_idx(&mut self) {} fn at_field(&mut self) {} fn at_variant(&mut self) {} fn new(&mut self) {} fn eq(&mut self) {} fn ne(&mut self) {} fn cmp(&mut self) {} fn partial_cmp(&mut self) {} fn lt(&mut self) {} fn le(&mut self) {} fn gt(&mut self) {} fn ge(&mut self) {} fn hash(&mut self) {} fn fmt(&mut self) {} fn default(&mut self) {} fn push(&mut self) {} fn extend(&mut self) {} fn with_capacity(&mut self) {} fn first(&mut self) {} fn last(&mut self) {} fn count(&mut self) {} fn nth(&mut self) {} fn fold(&mut self) {} fn try_fold(&mut self) {} fn try_for_each(&mut self) {} fn for_each(&mut self) {} fn size_hint(&mut self) {} fn contains(&mut self) {} fn contains_key(&mut self) {} fn entry(&mut self) {} fn or_insert(&mut self) {} fn add(&mut self) {} fn sub(&mut self) {} fn not(&mut self) {} }
    impl<T> Blanket for T {}
}
use t::Blanket;

#[derive(::scale_decode::DecodeAsType)]
struct Named { a: ::core::primitive::u32, b: ::core::primitive::u8, #[decode_as_type(skip)] c: ::core::primitive::u64 }
#[derive(::scale_decode::DecodeAsType)]
struct NamedOne { a: ::core::primitive::u32 }
#[derive(::scale_decode::DecodeAsType)]
struct TupleTwo(::core::primitive::u32, #[codec(skip)] ::core::primitive::u64, ::core::primitive::u8);
#[derive(::scale_decode::DecodeAsType)]
struct TupleOne(::core::primitive::u32);
#[derive(::scale_decode::DecodeAsType)]
struct Unit;
#[derive(::scale_decode::DecodeAsType)]
struct UnitNamed {}
#[derive(::scale_decode::DecodeAsType)]
struct UnitTuple();
#[derive(::scale_decode::DecodeAsType)]
enum Mixed { A, B(::core::primitive::u32), C(::core::primitive::u32, ::core::primitive::u8), D { a: ::core::primitive::u32 }, E { a: ::core::primitive::u32, #[decode_as_type(skip)] b: ::core::primitive::u64, c: ::core::primitive::u8 }, F(), G {} }
#[derive(::scale_decode::DecodeAsType)]
enum Empty {}
#[derive(::scale_decode::DecodeAsType)]
struct Generic<T, const N: ::core::primitive::usize> { a: T, b: [T; N] }
#[derive(::scale_decode::DecodeAsType)]
enum GenericEnum<T> { A(T), B { a: T } }
#[derive(::scale_decode::DecodeAsType)]
struct Lifetimes<'a, T: 'a> { #[codec(skip)] a: ::core::marker::PhantomData<&'a T>, b: ::core::primitive::u32 }
