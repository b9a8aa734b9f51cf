//! The derive accepts any type whose parts are decodable.
#![allow(dead_code)]
use scale_decode::DecodeAsType;
use std::borrow::Cow;
use std::marker::PhantomData;
#[derive(DecodeAsType)] struct Tree { children: Vec<Tree>, v: u8 }
#[derive(DecodeAsType)] enum List { Cons(u8, Box<List>), Nil }
#[derive(DecodeAsType)] enum GTree<T> { Node(Vec<GTree<T>>), Leaf(T) }
#[derive(DecodeAsType)] enum Never {}
#[derive(DecodeAsType)] struct A1<'a: 'b, 'b, T: 'a> { a: Cow<'a, str>, b: Cow<'b, str>, t: T }
#[derive(DecodeAsType)] struct A2<T> where T: IntoIterator, T::Item: scale_decode::IntoVisitor { t: T, i: T::Item }
#[derive(DecodeAsType)] #[repr(C, packed)] struct A5 { a: u8, b: u32 }
#[derive(DecodeAsType)] #[repr(u8)] #[non_exhaustive] enum A6 { A = 3, B(u8) = 9 }
#[derive(DecodeAsType)] struct A7<F> where F: for<'x> Fn(&'x u8) -> &'x u8 { #[codec(skip)] f: PhantomData<F>, x: u8 }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "")] struct A8<T>(#[codec(skip)] PhantomData<T>) where T: ?Sized;
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "T: Clone,")] struct A8b<T>(#[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType, Clone)] struct A9<T: Clone>(T) where Self: Clone;
trait Foo<X> {}
#[derive(DecodeAsType)] struct A10<T: Foo<A10<T>> + Foo<Self>>(T);
#[derive(DecodeAsType)] struct A11<T: ?Sized>(#[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] #[deprecated] struct A12{ #[deprecated] a: u8 }
#[derive(DecodeAsType)] struct A13<const N: usize, T, const M: usize>{ a: [T; N], b: [u8; M] }
#[derive(DecodeAsType)] struct A14<'a>(#[codec(skip)] Option<&'a str>, u8);
#[derive(DecodeAsType)] struct A15<'a, 'b: 'a>(#[codec(skip)] Option<&'a &'b str>, u8);
#[derive(DecodeAsType)] struct A16{ x: ((u8,),(u8,u8),()), y: [[u8;3];2], z: Option<Result<u8,(u8,)>>, c: scale_decode::ext::primitive_types::H256 }
#[derive(DecodeAsType)] struct A17<T> { #[codec(skip)] f: Option<fn(T)->T>, x: T }
#[derive(DecodeAsType)] struct A18<T: std::fmt::Debug + ?Sized + 'static>(Box<u8>, #[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] struct A19<T>(T) where T: Foo<Vec<Self>>, Option<Self>: Sized;
#[derive(DecodeAsType)] enum A20<T> where T: ?Sized, T: Foo<Vec<Self>>, Option<Self>: Sized { X(#[codec(skip)] PhantomData<T>) }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "Self: Clone, T: scale_decode::IntoVisitor")] struct A21<T>(T);

#[derive(DecodeAsType)] struct B1<T>(std::rc::Rc<T>, std::sync::Arc<T>, Box<T>, Cow<'static, str>);
#[derive(DecodeAsType)] struct B2 { a: String, b: Vec<String>, c: std::collections::BTreeMap<String, u8>, d: std::collections::VecDeque<u8>, e: std::collections::BinaryHeap<u8>, f: std::collections::BTreeSet<u8>, g: std::collections::LinkedList<u8> }
#[derive(DecodeAsType)] struct B3 { a: char, b: bool, c: std::time::Duration, d: std::ops::Range<u8>, e: std::ops::RangeInclusive<u8>, f: std::num::NonZeroU8, g: scale_decode::ext::primitive_types::H512 }
#[derive(DecodeAsType)] struct B4(());
#[derive(DecodeAsType)] enum B5 { A(()), B { a: () }, C((u8,), [u8; 0]) }
#[derive(DecodeAsType)] struct B6<T: Default, U = T, const N: usize = 0> where U: Clone { t: T, #[codec(skip)] u: [Option<U>; 2], n: [u8; N] }
#[derive(DecodeAsType, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] struct B7 { a: u8 }
#[derive(Debug)] #[derive(DecodeAsType)] #[derive(Clone)] enum B8 { A }
/// documented
#[doc = "twice"] #[derive(DecodeAsType)] #[must_use] #[cfg_attr(all(), allow(unused))] pub struct B9 { /** block */ #[allow(unused)] pub a: u8, #[cfg(any())] gone: NotEvenAType }
#[derive(DecodeAsType)] enum B10 { /// doc
    #[allow(unused)] A { /// doc
        a: u8 }, #[cfg(any())] Gone(NotEvenAType), B(#[allow(unused)] u8) }
trait HasType { type Assoc; }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "T: HasType, T::Assoc: scale_decode::IntoVisitor")] struct B11<T: HasType>(T::Assoc, #[codec(skip)] PhantomData<T>);
#[derive(DecodeAsType)] struct B12<'a, T: ?Sized + ToOwned>(#[codec(skip)] PhantomData<Cow<'a, T>>, u8) where T: 'a;
#[derive(DecodeAsType)] enum Big { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16(u8), V17(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) }
#[derive(DecodeAsType)] struct BorrowStr<'a>(Cow<'a, str>);
#[derive(DecodeAsType)] struct BorrowSkip<'a>(#[codec(skip)] &'a str, u8);
#[derive(DecodeAsType)] struct B13<'a, T>(#[codec(skip)] Option<&'a T>, T);
#[derive(DecodeAsType)] struct B14<'a, T> where T: Clone, [T]: ToOwned { #[codec(skip)] a: Option<&'a [T]>, b: u8 }
#[derive(DecodeAsType)] #[decode_as_type(trait_bounds = "")] enum B15<'a, 'b, T: ?Sized> { A(#[codec(skip)] Option<&'a &'b T>) }
#[derive(DecodeAsType)] struct B16<'a, T: Iterator>(#[codec(skip)] PhantomData<&'a T::Item>, T);
#[derive(DecodeAsType)] struct B17<'a, T: 'static>(#[codec(skip)] PhantomData<&'a T>, B13<'a, T>);
#[derive(DecodeAsType)] struct B18(u8, #[codec(skip)] PhantomData<*const u8>);
fn visitor_is_send<T: scale_decode::IntoVisitor, R: scale_decode::TypeResolver + Send>() -> impl Sized { T::into_visitor::<R>() }
