//! Every function here compiles only if the borrow it returns comes from the input ('s) or from the
//! type information ('r), and not from the container, item or visitor it was asked of ('t, or a local).
#![allow(dead_code, unused_variables, unused_imports, elided_lifetimes_in_paths, mismatched_lifetime_syntaxes)]
extern crate alloc;
use alloc::string::String;
use alloc::vec::Vec;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, decode_with_visitor as dwv, DecodeAsTypeResult, DecodeError, DecodeItemIterator, IgnoreVisitor, Unexpected};
use scale_decode::{DecodeAsType, Error, Field, FieldIter, IntoVisitor, TypeResolver, Visitor};

// ---- strings and bits: from a view that is gone when the function returns
fn str_as_str<'s>(v: Str<'s>) -> Result<&'s str, DecodeError> { v.as_str() }
fn str_bytes_from_start<'s>(v: Str<'s>) -> &'s [u8] { v.bytes_from_start() }
fn str_bytes_after<'s>(v: Str<'s>) -> Result<&'s [u8], DecodeError> { v.bytes_after() }
fn str_as_str_of_shared<'t, 's>(v: &'t Str<'s>) -> Result<&'s str, DecodeError> { v.as_str() }
fn str_as_str_of_mut<'t, 's>(v: &'t mut Str<'s>) -> Result<&'s str, DecodeError> { v.as_str() }
fn bits_bytes_from_start<'s>(v: BitSequence<'s>) -> &'s [u8] { v.bytes_from_start() }
fn bits_bytes_after<'s>(v: BitSequence<'s>) -> Result<&'s [u8], DecodeError> { v.bytes_after() }
fn bits_decode<'s>(mut v: BitSequence<'s>) -> Result<impl Iterator + 's, DecodeError> { v.decode() }
fn bits_decode_of_mut<'t, 's>(v: &'t mut BitSequence<'s>) -> Result<impl Iterator + 's, DecodeError> { v.decode() }

// ---- byte ranges of containers
fn composite_bytes_from_start<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> &'s [u8] { v.bytes_from_start() }
fn composite_bytes_from_undecoded<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> &'s [u8] { v.bytes_from_undecoded() }
fn tuple_bytes_from_start<'s, 'r, R: TypeResolver>(v: Tuple<'s, 'r, R>) -> &'s [u8] { v.bytes_from_start() }
fn tuple_bytes_from_undecoded<'s, 'r, R: TypeResolver>(v: Tuple<'s, 'r, R>) -> &'s [u8] { v.bytes_from_undecoded() }
fn sequence_bytes_from_start<'s, 'r, R: TypeResolver>(v: Sequence<'s, 'r, R>) -> &'s [u8] { v.bytes_from_start() }
fn sequence_bytes_from_undecoded<'s, 'r, R: TypeResolver>(v: Sequence<'s, 'r, R>) -> &'s [u8] { v.bytes_from_undecoded() }
fn array_bytes_from_start<'s, 'r, R: TypeResolver>(v: Array<'s, 'r, R>) -> &'s [u8] { v.bytes_from_start() }
fn array_bytes_from_undecoded<'s, 'r, R: TypeResolver>(v: Array<'s, 'r, R>) -> &'s [u8] { v.bytes_from_undecoded() }
fn variant_bytes_from_start<'s, 'r, R: TypeResolver>(v: Variant<'s, 'r, R>) -> &'s [u8] { v.bytes_from_start() }
fn variant_bytes_from_undecoded<'s, 'r, R: TypeResolver>(v: Variant<'s, 'r, R>) -> &'s [u8] { v.bytes_from_undecoded() }
// ... and they do not keep the container borrowed
fn composite_bytes_then_more<'t, 's, 'r, R: TypeResolver>(v: &'t mut Composite<'s, 'r, R>) -> &'s [u8] {
    let a = v.bytes_from_start();
    let b = v.bytes_from_undecoded();
    let _ = v.skip_decoding();
    if a.is_empty() { a } else { b }
}
fn tuple_bytes_then_more<'t, 's, 'r, R: TypeResolver>(v: &'t mut Tuple<'s, 'r, R>) -> &'s [u8] {
    let a = v.bytes_from_start();
    let b = v.bytes_from_undecoded();
    let _ = v.skip_decoding();
    if a.is_empty() { a } else { b }
}
fn sequence_bytes_then_more<'t, 's, 'r, R: TypeResolver>(v: &'t mut Sequence<'s, 'r, R>) -> &'s [u8] {
    let a = v.bytes_from_start();
    let b = v.bytes_from_undecoded();
    let _ = v.skip_decoding();
    if a.is_empty() { a } else { b }
}
fn array_bytes_then_more<'t, 's, 'r, R: TypeResolver>(v: &'t mut Array<'s, 'r, R>) -> &'s [u8] {
    let a = v.bytes_from_start();
    let b = v.bytes_from_undecoded();
    let _ = v.skip_decoding();
    if a.is_empty() { a } else { b }
}
fn variant_bytes_then_more<'t, 's, 'r, R: TypeResolver>(v: &'t mut Variant<'s, 'r, R>) -> (&'s [u8], &'r str) {
    let a = v.bytes_from_start();
    let n = v.name();
    let b = v.bytes_from_undecoded();
    let _ = v.skip_decoding();
    (if a.is_empty() { a } else { b }, n)
}

// ---- names
fn composite_name<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Option<&'r str> { v.name() }
fn composite_peek_name<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Option<&'r str> { v.peek_name() }
fn composite_path_items<'t, 's, 'r, R: TypeResolver>(v: &'t Composite<'s, 'r, R>) -> Vec<&'r str> { v.path().collect() }
fn composite_field_names<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Option<&'r str> { v.fields().first().and_then(|f| f.name) }
fn variant_name<'s, 'r, R: TypeResolver>(v: Variant<'s, 'r, R>) -> &'r str { v.name() }
fn variant_field_name<'s, 'r, R: TypeResolver>(mut v: Variant<'s, 'r, R>) -> Option<&'r str> { v.fields().peek_name() }

// ---- views made from views
fn composite_as_tuple<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Tuple<'s, 'r, R> { v.as_tuple() }
fn composite_as_tuple_then_more<'t, 's, 'r, R: TypeResolver>(v: &'t mut Composite<'s, 'r, R>) -> Tuple<'s, 'r, R> {
    let t = v.as_tuple();
    let _ = v.skip_decoding();
    t
}
fn variant_fields<'t, 's, 'r, R: TypeResolver>(v: &'t mut Variant<'s, 'r, R>) -> &'t mut Composite<'s, 'r, R> { v.fields() }

// ---- items stay valid when the container is gone or moves on
fn composite_items<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Vec<Result<CompositeField<'s, 'r, R>, DecodeError>> { v.collect() }
fn composite_items_of_mut<'t, 's, 'r, R: TypeResolver>(v: &'t mut Composite<'s, 'r, R>) -> Vec<Result<CompositeField<'s, 'r, R>, DecodeError>> { v.collect() }
fn tuple_items<'t, 's, 'r, R: TypeResolver>(v: &'t mut Tuple<'s, 'r, R>) -> Vec<Result<TupleField<'s, 'r, R>, DecodeError>> { v.collect() }
fn sequence_items<'t, 's, 'r, R: TypeResolver>(v: &'t mut Sequence<'s, 'r, R>) -> Vec<<Sequence<'s, 'r, R> as Iterator>::Item> { v.collect() }
fn array_items<'t, 's, 'r, R: TypeResolver>(v: &'t mut Array<'s, 'r, R>) -> Vec<<Array<'s, 'r, R> as Iterator>::Item> { v.collect() }
fn variant_items<'s, 'r, R: TypeResolver>(mut v: Variant<'s, 'r, R>) -> Vec<Result<CompositeField<'s, 'r, R>, DecodeError>> { v.fields().collect() }
fn composite_item_bytes<'s, 'r, R: TypeResolver>(i: CompositeField<'s, 'r, R>) -> (&'s [u8], Option<&'r str>) { (i.bytes(), i.name()) }
fn tuple_item_bytes<'s, 'r, R: TypeResolver>(i: TupleField<'s, 'r, R>) -> &'s [u8] { i.bytes() }
fn sequence_item_bytes<'s, 'r, R: TypeResolver>(mut c: Sequence<'s, 'r, R>) -> &'s [u8] {
    match c.next() { Some(Ok(i)) => i.bytes(), _ => panic!() }
}
fn array_item_bytes<'s, 'r, R: TypeResolver>(mut c: Array<'s, 'r, R>) -> &'s [u8] {
    match c.next() { Some(Ok(i)) => i.bytes(), _ => panic!() }
}
fn composite_item_clone<'t, 's, 'r, R: TypeResolver>(i: &'t CompositeField<'s, 'r, R>) -> CompositeField<'s, 'r, R> { i.clone() }
fn sequence_item_clone<'t, 's, 'r, R: TypeResolver>(i: &'t <Sequence<'s, 'r, R> as Iterator>::Item) -> &'s [u8] {
    let i = match i { Ok(i) => i.clone(), _ => panic!() };
    i.bytes()
}
fn array_item_clone<'t, 's, 'r, R: TypeResolver>(i: &'t <Array<'s, 'r, R> as Iterator>::Item) -> &'s [u8] {
    let i = match i { Ok(i) => i.clone(), _ => panic!() };
    i.bytes()
}

// ---- values produced by a visitor
fn composite_item_value<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(i: CompositeField<'s, 'r, R>, v: V) -> Result<V::Value<'s, 'r>, V::Error> { i.decode_with_visitor(v) }
fn tuple_item_value<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(i: TupleField<'s, 'r, R>, v: V) -> Result<V::Value<'s, 'r>, V::Error> { i.decode_with_visitor(v) }
fn sequence_item_value<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(mut c: Sequence<'s, 'r, R>, v: V) -> Result<V::Value<'s, 'r>, V::Error> {
    match c.next() { Some(Ok(i)) => i.decode_with_visitor(v), _ => panic!() }
}
fn array_item_value<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(mut c: Array<'s, 'r, R>, v: V) -> Result<V::Value<'s, 'r>, V::Error> {
    match c.next() { Some(Ok(i)) => i.decode_with_visitor(v), _ => panic!() }
}
fn composite_decode_item<'t, 's, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(c: &'t mut Composite<'s, 'r, R>, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> { c.decode_item(v) }
fn tuple_decode_item<'t, 's, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(c: &'t mut Tuple<'s, 'r, R>, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> { c.decode_item(v) }
fn sequence_decode_item<'t, 's, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(c: &'t mut Sequence<'s, 'r, R>, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> { c.decode_item(v) }
fn array_decode_item<'t, 's, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(c: &'t mut Array<'s, 'r, R>, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> { c.decode_item(v) }
fn two_values_at_once<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R> + Clone>(mut c: Composite<'s, 'r, R>, v: V) -> [Option<Result<V::Value<'s, 'r>, V::Error>>; 2] {
    let a = c.decode_item(v.clone());
    let b = c.decode_item(v);
    [a, b]
}
fn item_iterator<'t, 's, 'r, R: TypeResolver, I: DecodeItemIterator<'s, 'r, R>, V: Visitor<TypeResolver = R>>(c: &'t mut I, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> { c.decode_item(v) }
fn containers_are_item_iterators<'t, 's, 'r, R: TypeResolver>(a: &'t mut Composite<'s, 'r, R>, b: &'t mut Tuple<'s, 'r, R>, c: &'t mut Sequence<'s, 'r, R>, d: &'t mut Array<'s, 'r, R>) -> [&'t mut dyn AnyItems<'s, 'r, R>; 4] { [a, b, c, d] }
trait AnyItems<'s, 'r, R> {}
impl<'s, 'r, R: TypeResolver, T: DecodeItemIterator<'s, 'r, R>> AnyItems<'s, 'r, R> for T {}

// ---- a whole decode: the local cursor does not limit the value
fn decode<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(bytes: &'s [u8], id: R::TypeId, types: &'r R, v: V) -> Result<(V::Value<'s, 'r>, &'s [u8]), V::Error> {
    let mut cursor = bytes;
    let val = decode_with_visitor(&mut cursor, id, types, v)?;
    Ok((val, cursor))
}
fn decode_from_borrowed_cursor<'t, 's, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(cursor: &'t mut &'s [u8], id: R::TypeId, types: &'r R, v: V) -> Result<V::Value<'s, 'r>, V::Error> {
    decode_with_visitor(cursor, id, types, v)
}
// values need not mention the input at all, and then nothing stays borrowed
fn owned_after_input_is_gone<R: TypeResolver, T: DecodeAsType>(id: R::TypeId, types: &R) -> Result<T, Error> {
    let owned: Vec<u8> = Vec::new();
    let mut cursor = &*owned;
    T::decode_as_type(&mut cursor, id, types)
}
fn owned_after_types_are_gone<R: TypeResolver + Default, T: DecodeAsType>(id: R::TypeId, bytes: &[u8]) -> Result<T, Error> {
    let types = R::default();
    T::decode_as_type(&mut &*bytes, id, &types)
}

// ---- a visitor may keep what it is given
enum Kept<'s, 'r, R: TypeResolver> {
    Str(&'s str),
    Bytes(&'s [u8]),
    Big(&'s [u8; 32]),
    Name(&'r str),
    Names(Vec<&'r str>),
    Fields(Vec<CompositeField<'s, 'r, R>>),
    Elems(Vec<<Sequence<'s, 'r, R> as Iterator>::Item>),
    Array(Vec<<Array<'s, 'r, R> as Iterator>::Item>),
    Parts(Vec<TupleField<'s, 'r, R>>),
    Both(&'s [u8], &'r str, Tuple<'s, 'r, R>),
    View(Str<'s>),
    Nothing,
}
struct Keep<R: 'static>(core::marker::PhantomData<R>);
impl<R: TypeResolver + 'static> Visitor for Keep<R> {
    type Value<'s, 'r> = Kept<'s, 'r, R>;
    type Error = Error;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, u: Unexpected) -> Result<Kept<'s, 'r, R>, Error> { Ok(Kept::Nothing) }
    fn visit_u256<'r>(self, value: &[u8; 32], _: R::TypeId) -> Result<Kept<'_, 'r, R>, Error> { Ok(Kept::Big(value)) }
    fn visit_i256<'s, 'r>(self, value: &'s [u8; 32], _: R::TypeId) -> Result<Kept<'s, 'r, R>, Error> { Ok(Kept::Big(value)) }
    fn visit_str<'s, 'r>(self, value: &mut Str<'s>, _: R::TypeId) -> Result<Kept<'s, 'r, R>, Error> {
        let bytes = value.bytes_after()?;
        Ok(if bytes.is_empty() { Kept::Str(value.as_str()?) } else { Kept::Bytes(bytes) })
    }
    fn visit_composite<'s, 'r>(self, value: &mut Composite<'s, 'r, R>, _: R::TypeId) -> Result<Kept<'s, 'r, R>, Error> {
        if let Some(name) = value.name() { return Ok(Kept::Name(name)); }
        if value.is_empty_path() { return Ok(Kept::Names(value.path().collect())); }
        Ok(Kept::Fields(value.collect::<Result<_, _>>()?))
    }
    fn visit_tuple<'s, 'r>(self, value: &mut Tuple<'s, 'r, R>, _: R::TypeId) -> Result<Kept<'s, 'r, R>, Error> { Ok(Kept::Parts(value.collect::<Result<_, _>>()?)) }
    fn visit_sequence<'s, 'r>(self, value: &mut Sequence<'s, 'r, R>, _: R::TypeId) -> Result<Kept<'s, 'r, R>, Error> { Ok(Kept::Elems(value.collect())) }
    fn visit_array<'s, 'r>(self, value: &mut Array<'s, 'r, R>, _: R::TypeId) -> Result<Kept<'s, 'r, R>, Error> { Ok(Kept::Array(value.collect())) }
    fn visit_variant<'s, 'r>(self, value: &mut Variant<'s, 'r, R>, _: R::TypeId) -> Result<Kept<'s, 'r, R>, Error> {
        let name = value.name();
        let bytes = value.bytes_from_start();
        let fields = value.fields().as_tuple();
        Ok(Kept::Both(bytes, name, fields))
    }
    fn unchecked_decode_as_type<'s, 'r>(self, input: &mut &'s [u8], _: R::TypeId, _: &'r R) -> DecodeAsTypeResult<Self, Result<Kept<'s, 'r, R>, Error>> {
        let all = *input;
        *input = &[];
        if all.is_empty() { DecodeAsTypeResult::Skipped(self) } else { DecodeAsTypeResult::Decoded(Ok(Kept::Bytes(all))) }
    }
}
trait EmptyPath { fn is_empty_path(&self) -> bool; }
impl<'s, 'r, R: TypeResolver> EmptyPath for Composite<'s, 'r, R> { fn is_empty_path(&self) -> bool { self.path().next().is_none() } }
fn keep_all<'s, 'r, R: TypeResolver + 'static>(bytes: &'s [u8], id: R::TypeId, types: &'r R) -> Result<Kept<'s, 'r, R>, Error> {
    decode_with_visitor(&mut &*bytes, id, types, Keep::<R>(core::marker::PhantomData))
}

// ---- the input and the types are borrowed independently: neither bounds the other
fn name_outlives_input<'r, R: TypeResolver + 'static>(id: R::TypeId, types: &'r R) -> Option<&'r str> {
    let owned: Vec<u8> = Vec::new();
    let res = match keep_all(&owned, id, types) { Ok(Kept::Name(n)) => Some(n), _ => None };
    res
}
fn str_outlives_types<'s, R: TypeResolver + 'static + Default>(bytes: &'s [u8], id: R::TypeId) -> Option<&'s str> {
    let types = R::default();
    let res = match keep_all(bytes, id, &types) { Ok(Kept::Str(n)) => Some(n), _ => None };
    res
}
fn input_free_again<R: TypeResolver, T: DecodeAsType>(id: R::TypeId, types: &R) -> Result<T, Error> {
    let mut owned: Vec<u8> = Vec::new();
    let val = T::decode_as_type(&mut &*owned, id, types)?;
    owned.clear();
    drop(owned);
    Ok(val)
}
