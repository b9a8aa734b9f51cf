//! Views, items and errors can be sent and shared whenever their parts can, and hold nothing that could
//! change behind a shared reference (`Freeze`: no cell outside a pointer).
#![feature(freeze)]
#![allow(dead_code, unused_variables, mismatched_lifetime_syntaxes)]
extern crate alloc;
use core::marker::Freeze;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{DecodeAsTypeResult, DecodeError, IgnoreVisitor, Unexpected, VisitorWithCrateError};
use scale_decode::error::{Context, ErrorKind, Location};
use scale_decode::{DecodeAsType, Error, TypeResolver, Visitor};

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn frozen<T: Freeze>() {}
fn unpin<T: Unpin>() {}

fn composite_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<Composite<'s, 'r, R>>() }
fn composite_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<Composite<'s, 'r, R>>() }
fn tuple_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<Tuple<'s, 'r, R>>() }
fn tuple_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<Tuple<'s, 'r, R>>() }
fn sequence_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<Sequence<'s, 'r, R>>() }
fn sequence_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<Sequence<'s, 'r, R>>() }
fn sequence_frozen<'s, 'r, R: TypeResolver + 'r>() where R::TypeId: Freeze { frozen::<Sequence<'s, 'r, R>>() }
fn array_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<Array<'s, 'r, R>>() }
fn array_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<Array<'s, 'r, R>>() }
fn array_frozen<'s, 'r, R: TypeResolver + 'r>() where R::TypeId: Freeze { frozen::<Array<'s, 'r, R>>() }
fn variant_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<Variant<'s, 'r, R>>() }
fn variant_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<Variant<'s, 'r, R>>() }
fn str_send<'s>() { send::<Str<'s>>() }
fn str_sync<'s>() { sync::<Str<'s>>() }
fn str_frozen<'s>() { frozen::<Str<'s>>() }
fn bits_send<'s>() { send::<BitSequence<'s>>() }
fn bits_sync<'s>() { sync::<BitSequence<'s>>() }
fn bits_frozen<'s>() { frozen::<BitSequence<'s>>() }
fn composite_item_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<CompositeField<'s, 'r, R>>() }
fn composite_item_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<CompositeField<'s, 'r, R>>() }
fn composite_item_frozen<'s, 'r, R: TypeResolver + 'r>() where R::TypeId: Freeze { frozen::<CompositeField<'s, 'r, R>>() }
fn tuple_item_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<TupleField<'s, 'r, R>>() }
fn tuple_item_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<TupleField<'s, 'r, R>>() }
fn tuple_item_frozen<'s, 'r, R: TypeResolver + 'r>() where R::TypeId: Freeze { frozen::<TupleField<'s, 'r, R>>() }
fn sequence_item_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<<Sequence<'s, 'r, R> as Iterator>::Item>() }
fn sequence_item_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<<Sequence<'s, 'r, R> as Iterator>::Item>() }
fn array_item_send<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Send { send::<<Array<'s, 'r, R> as Iterator>::Item>() }
fn array_item_sync<'s, 'r, R: TypeResolver + Sync + 'r>() where R::TypeId: Sync { sync::<<Array<'s, 'r, R> as Iterator>::Item>() }
// concrete: no parameter left that could hide a cell
struct Types;
impl TypeResolver for Types {
    type TypeId = u32;
    type Error = alloc::string::String;
    fn resolve_type<'this, V: scale_decode::ext::scale_type_resolver::ResolvedTypeVisitor<'this, TypeId = u32>>(&'this self, id: u32, visitor: V) -> Result<V::Value, Self::Error> {
        Ok(visitor.visit_not_found())
    }
}
fn composite_frozen<'s, 'r>() { frozen::<Composite<'s, 'r, Types>>() }
fn tuple_frozen<'s, 'r>() { frozen::<Tuple<'s, 'r, Types>>() }
fn variant_frozen<'s, 'r>() { frozen::<Variant<'s, 'r, Types>>() }
fn sequence_item_frozen<'s, 'r>() { frozen::<<Sequence<'s, 'r, Types> as Iterator>::Item>() }
fn array_item_frozen<'s, 'r>() { frozen::<<Array<'s, 'r, Types> as Iterator>::Item>() }
fn field_frozen<'r>() { frozen::<scale_decode::Field<'r, u32>>() }

fn error_send() { send::<Error>() }
fn error_sync() { sync::<Error>() }
fn error_static() where Error: 'static {}
fn error_kind_send() { send::<ErrorKind>() }
fn error_kind_sync() { sync::<ErrorKind>() }
fn error_context_send() { send::<Context>() }
fn error_context_sync() { sync::<Context>() }
fn error_location_send() { send::<Location>() }
fn error_location_sync() { sync::<Location>() }
fn decode_error_send() { send::<DecodeError>() }
fn decode_error_sync() { sync::<DecodeError>() }
fn decode_error_static() where DecodeError: 'static {}
fn unexpected_send_sync() { send::<Unexpected>(); sync::<Unexpected>() }
fn error_frozen() { frozen::<Error>(); frozen::<ErrorKind>(); frozen::<Context>(); frozen::<Location>(); frozen::<DecodeError>(); frozen::<Unexpected>() }
fn error_boxes(e: Error) -> alloc::boxed::Box<dyn core::error::Error + Send + Sync + 'static> { alloc::boxed::Box::new(e) }
fn decode_error_boxes(e: DecodeError) -> alloc::boxed::Box<dyn core::error::Error + Send + Sync + 'static> { alloc::boxed::Box::new(e) }
fn error_moves_to_a_thread<T: DecodeAsType + Send + 'static>(res: Result<T, Error>) -> alloc::boxed::Box<dyn Send + 'static> { alloc::boxed::Box::new(res) }

fn ignore_send_sync<R: Send + Sync>() { send::<IgnoreVisitor<R>>(); sync::<IgnoreVisitor<R>>() }
fn with_crate_error_send_sync<V: Send + Sync>() { send::<VisitorWithCrateError<V>>(); sync::<VisitorWithCrateError<V>>() }
fn hook_answer_send_sync<V: Send + Sync, T: Send + Sync>() { send::<DecodeAsTypeResult<V, T>>(); sync::<DecodeAsTypeResult<V, T>>() }

// decoding needs only shared access to the types, from as many threads as one likes
fn decode_anywhere<'t, R: TypeResolver + Sync, T: DecodeAsType + Send>(id: R::TypeId, types: &'t R, bytes: &'t [u8]) -> impl FnOnce() -> Result<T, Error> + Send + 't
where R::TypeId: Send + 't, T: 't {
    move || T::decode_as_type(&mut &*bytes, id, types)
}
