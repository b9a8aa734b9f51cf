//! Programs that use a borrow after its source is gone or changed.  Every marked line must be rejected.
#![allow(dead_code, unused_variables, unused_imports, unused_mut, elided_lifetimes_in_paths, mismatched_lifetime_syntaxes)]
extern crate alloc;
use alloc::string::String;
use alloc::vec::Vec;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, DecodeAsTypeResult, DecodeError, IgnoreVisitor, Unexpected};
use scale_decode::{DecodeAsType, Error, Field, IntoVisitor, TypeResolver, Visitor};

fn str_static<'s>(v: Str<'s>) -> Result<&'static str, DecodeError> { v.as_str() } //~ life
fn str_bytes_static<'s>(v: Str<'s>) -> &'static [u8] { v.bytes_from_start() } //~ life
fn str_after_static<'s>(v: Str<'s>) -> Result<&'static [u8], DecodeError> { v.bytes_after() } //~ life
fn bits_start_static<'s>(v: BitSequence<'s>) -> &'static [u8] { v.bytes_from_start() } //~ life
fn bits_after_static<'s>(v: BitSequence<'s>) -> Result<&'static [u8], DecodeError> { v.bytes_after() } //~ life
fn bits_static<'s>(mut v: BitSequence<'s>) -> Result<impl Iterator + 'static, DecodeError> { v.decode() } //~ life
fn composite_start_static<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> &'static [u8] { v.bytes_from_start() } //~ life
fn composite_rest_static<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> &'static [u8] { v.bytes_from_undecoded() } //~ life
fn tuple_start_static<'s, 'r, R: TypeResolver>(v: Tuple<'s, 'r, R>) -> &'static [u8] { v.bytes_from_start() } //~ life
fn tuple_rest_static<'s, 'r, R: TypeResolver>(v: Tuple<'s, 'r, R>) -> &'static [u8] { v.bytes_from_undecoded() } //~ life
fn sequence_start_static<'s, 'r, R: TypeResolver>(v: Sequence<'s, 'r, R>) -> &'static [u8] { v.bytes_from_start() } //~ life
fn sequence_rest_static<'s, 'r, R: TypeResolver>(v: Sequence<'s, 'r, R>) -> &'static [u8] { v.bytes_from_undecoded() } //~ life
fn array_start_static<'s, 'r, R: TypeResolver>(v: Array<'s, 'r, R>) -> &'static [u8] { v.bytes_from_start() } //~ life
fn array_rest_static<'s, 'r, R: TypeResolver>(v: Array<'s, 'r, R>) -> &'static [u8] { v.bytes_from_undecoded() } //~ life
fn variant_start_static<'s, 'r, R: TypeResolver>(v: Variant<'s, 'r, R>) -> &'static [u8] { v.bytes_from_start() } //~ life
fn variant_rest_static<'s, 'r, R: TypeResolver>(v: Variant<'s, 'r, R>) -> &'static [u8] { v.bytes_from_undecoded() } //~ life
fn composite_name_static<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Option<&'static str> { v.name() } //~ life
fn composite_peek_static<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Option<&'static str> { v.peek_name() } //~ life
fn composite_path_static<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Vec<&'static str> { v.path().collect() } //~ life
fn composite_fields_static<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Option<&'static str> { v.fields()[0].name } //~ life
fn variant_name_static<'s, 'r, R: TypeResolver>(v: Variant<'s, 'r, R>) -> &'static str { v.name() } //~ life
fn item_name_static<'s, 'r, R: TypeResolver>(v: CompositeField<'s, 'r, R>) -> Option<&'static str> { v.name() } //~ life
fn item_bytes_static<'s, 'r, R: TypeResolver>(v: CompositeField<'s, 'r, R>) -> &'static [u8] { v.bytes() } //~ life
fn tuple_item_bytes_static<'s, 'r, R: TypeResolver>(v: TupleField<'s, 'r, R>) -> &'static [u8] { v.bytes() } //~ life

// bytes are not names and names are not bytes
fn composite_start_is_not_resolver<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> &'r [u8] { v.bytes_from_start() } //~ life
fn tuple_start_is_not_resolver<'s, 'r, R: TypeResolver>(v: Tuple<'s, 'r, R>) -> &'r [u8] { v.bytes_from_start() } //~ life
fn sequence_start_is_not_resolver<'s, 'r, R: TypeResolver>(v: Sequence<'s, 'r, R>) -> &'r [u8] { v.bytes_from_start() } //~ life
fn array_start_is_not_resolver<'s, 'r, R: TypeResolver>(v: Array<'s, 'r, R>) -> &'r [u8] { v.bytes_from_start() } //~ life
fn variant_start_is_not_resolver<'s, 'r, R: TypeResolver>(v: Variant<'s, 'r, R>) -> &'r [u8] { v.bytes_from_start() } //~ life
fn item_bytes_is_not_resolver<'s, 'r, R: TypeResolver>(v: CompositeField<'s, 'r, R>) -> &'r [u8] { v.bytes() } //~ life
fn composite_name_is_not_scale<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Option<&'s str> { v.name() } //~ life
fn variant_name_is_not_scale<'s, 'r, R: TypeResolver>(v: Variant<'s, 'r, R>) -> &'s str { v.name() } //~ life
fn item_name_is_not_scale<'s, 'r, R: TypeResolver>(v: CompositeField<'s, 'r, R>) -> Option<&'s str> { v.name() } //~ life

// the views do not outlive what they are made of
fn as_tuple_longer<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Tuple<'static, 'r, R> { v.as_tuple() } //~ life
fn as_tuple_longer_types<'s, 'r, R: TypeResolver>(v: Composite<'s, 'r, R>) -> Tuple<'s, 'static, R> { v.as_tuple() } //~ life
fn item_longer<'s, 'r, R: TypeResolver>(mut v: Composite<'s, 'r, R>) -> Option<Result<CompositeField<'static, 'r, R>, DecodeError>> { v.next() } //~ life
fn tuple_item_longer<'s, 'r, R: TypeResolver>(mut v: Tuple<'s, 'r, R>) -> Option<Result<TupleField<'static, 'r, R>, DecodeError>> { v.next() } //~ life
fn item_value_longer<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(i: CompositeField<'s, 'r, R>, v: V) -> Result<V::Value<'static, 'r>, V::Error> { i.decode_with_visitor(v) } //~ life
fn item_value_longer_types<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(i: CompositeField<'s, 'r, R>, v: V) -> Result<V::Value<'s, 'static>, V::Error> { i.decode_with_visitor(v) } //~ life
fn composite_value_longer<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(mut c: Composite<'s, 'r, R>, v: V) -> Option<Result<V::Value<'static, 'r>, V::Error>> { c.decode_item(v) } //~ life
fn tuple_value_longer<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(mut c: Tuple<'s, 'r, R>, v: V) -> Option<Result<V::Value<'static, 'r>, V::Error>> { c.decode_item(v) } //~ life
fn sequence_value_longer<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(mut c: Sequence<'s, 'r, R>, v: V) -> Option<Result<V::Value<'static, 'r>, V::Error>> { c.decode_item(v) } //~ life
fn array_value_longer<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(mut c: Array<'s, 'r, R>, v: V) -> Option<Result<V::Value<'static, 'r>, V::Error>> { c.decode_item(v) } //~ life
fn value_longer<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(bytes: &'s [u8], id: R::TypeId, types: &'r R, v: V) -> Result<V::Value<'static, 'r>, V::Error> {
    decode_with_visitor(&mut &*bytes, id, types, v) //~ life
}
fn value_longer_types<'s, 'r, R: TypeResolver, V: Visitor<TypeResolver = R>>(bytes: &'s [u8], id: R::TypeId, types: &'r R, v: V) -> Result<V::Value<'s, 'static>, V::Error> {
    decode_with_visitor(&mut &*bytes, id, types, v) //~ life
}

// a visitor that keeps what it was shown
struct KeepStr<R>(core::marker::PhantomData<R>);
impl<R: TypeResolver> Visitor for KeepStr<R> {
    type Value<'s, 'r> = &'s str;
    type Error = Error;
    type TypeResolver = R;
    fn visit_str<'s, 'r>(self, value: &mut Str<'s>, _: R::TypeId) -> Result<Self::Value<'s, 'r>, Error> { Ok(value.as_str()?) }
}
struct KeepName<R>(core::marker::PhantomData<R>);
impl<R: TypeResolver> Visitor for KeepName<R> {
    type Value<'s, 'r> = &'r str;
    type Error = Error;
    type TypeResolver = R;
    fn visit_variant<'s, 'r>(self, value: &mut Variant<'s, 'r, R>, _: R::TypeId) -> Result<Self::Value<'s, 'r>, Error> { Ok(value.name()) }
}
fn input_dropped<R: TypeResolver>(id: R::TypeId, types: &R) -> Result<usize, Error> {
    let owned: Vec<u8> = Vec::new();
    let val = decode_with_visitor(&mut &*owned, id, types, KeepStr::<R>(core::marker::PhantomData))?;
    drop(owned); //~ life
    Ok(val.len())
}
fn input_changed<R: TypeResolver>(id: R::TypeId, types: &R) -> Result<usize, Error> {
    let mut owned: Vec<u8> = Vec::new();
    let val = decode_with_visitor(&mut &*owned, id, types, KeepStr::<R>(core::marker::PhantomData))?;
    owned.push(1); //~ life
    Ok(val.len())
}
fn input_returned<'r, R: TypeResolver>(id: R::TypeId, types: &'r R) -> Result<&'r str, Error> {
    let owned: Vec<u8> = Vec::new();
    let val = decode_with_visitor(&mut &*owned, id, types, KeepStr::<R>(core::marker::PhantomData))?;
    Ok(val) //~ life
}
fn types_dropped<R: TypeResolver>(id: R::TypeId, types: R, bytes: &[u8]) -> Result<usize, Error> {
    let val = decode_with_visitor(&mut &*bytes, id, &types, KeepName::<R>(core::marker::PhantomData))?;
    drop(types); //~ life
    Ok(val.len())
}
fn types_changed<R: TypeResolver>(id: R::TypeId, mut types: R, other: R, bytes: &[u8]) -> Result<usize, Error> {
    let val = decode_with_visitor(&mut &*bytes, id, &types, KeepName::<R>(core::marker::PhantomData))?;
    types = other; //~ life
    Ok(val.len())
}
fn remaining_changed<R: TypeResolver, T: DecodeAsType>(id: R::TypeId, types: &R) -> Result<usize, Error> {
    let mut owned: Vec<u8> = Vec::new();
    let mut cursor = &*owned;
    let _ = T::decode_as_type(&mut cursor, id, types)?;
    owned.push(1); //~ life
    Ok(cursor.len())
}
fn view_kept_while_input_changes<'r, R: TypeResolver>(types: &'r R) {
    let mut owned: Vec<u8> = Vec::new();
    let mut fields = core::iter::empty::<Field<'r, R::TypeId>>();
    let mut c = Composite::new(core::iter::empty(), &owned, &mut fields, types, false);
    owned.clear(); //~ life
    let _ = c.skip_decoding();
}

// visitors cannot smuggle a temporary out
struct KeepTemp<R>(core::marker::PhantomData<R>);
impl<R: TypeResolver> Visitor for KeepTemp<R> {
    type Value<'s, 'r> = &'s [u8];
    type Error = Error;
    type TypeResolver = R;
    fn visit_u32<'s, 'r>(self, value: u32, _: R::TypeId) -> Result<Self::Value<'s, 'r>, Error> {
        let b = value.to_le_bytes();
        Ok(&b) //~ life
    }
}

// two exclusive views of one container do not exist
fn fields_twice<'t, 's, 'r, R: TypeResolver>(v: &'t mut Variant<'s, 'r, R>) -> (&'t mut Composite<'s, 'r, R>, &'t mut Composite<'s, 'r, R>) {
    let a = v.fields();
    let b = v.fields(); //~ life
    (a, b)
}
fn read_through_shared<'s, 'r, R: TypeResolver>(v: &Composite<'s, 'r, R>) { let _ = v.skip_decoding(); } //~ life
fn next_through_shared<'s, 'r, R: TypeResolver>(v: &Tuple<'s, 'r, R>) { let _ = v.next(); } //~ life
fn seq_through_shared<'s, 'r, R: TypeResolver>(v: &Sequence<'s, 'r, R>) { let _ = v.skip_decoding(); } //~ life
fn arr_through_shared<'s, 'r, R: TypeResolver>(v: &Array<'s, 'r, R>) { let _ = v.skip_decoding(); } //~ life
fn var_through_shared<'s, 'r, R: TypeResolver>(v: &Variant<'s, 'r, R>) { let _ = v.fields(); } //~ life
