ID='c22-hook-not-asked-under-compact'
PROPERTY='C22'
NEEDS='a custom decode hook on a visitor that is asked to decode a compact-declared value'
BREAKS='the hook is not asked for the inner value of a compact type'
EDITS=[('scale-decode/src/visitor/decode.rs','''    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
        data,
        ty_id.clone(),
        types,
        is_compact,
    ) {
        DecodeAsTypeResult::Decoded(r) => return r,
        DecodeAsTypeResult::Skipped(v) => v,
    };
''','''    let visitor = if is_compact {
        visitor
    } else {
        match visitor.unchecked_decode_as_type_maybe_compact(
            data,
            ty_id.clone(),
            types,
            is_compact,
        ) {
            DecodeAsTypeResult::Decoded(r) => return r,
            DecodeAsTypeResult::Skipped(v) => v,
        }
    };
''')]
MAIN='''
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
struct V;
impl Visitor for V {
    type Value<'s, 'i> = u64;
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_u32<'s, 'i>(self, v: u32, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> { Ok(v as u64) }
    fn visit_unexpected<'s, 'i>(self, u: Unexpected) -> Result<Self::Value<'s, 'i>, Self::Error> { Err(DecodeError::Unexpected(u)) }
    fn unchecked_decode_as_type_maybe_compact<'s, 'i>(self, _: &mut &'s [u8], _: u32, _: &'i PortableRegistry, _c: bool)
        -> DecodeAsTypeResult<Self, Result<u64, DecodeError>> {
        N.with(|n| n.set(n.get() + 1));
        DecodeAsTypeResult::Skipped(self)
    }
}
fn main() {
    let (id, types) = reg::<Compact<u32>>();
    let bytes = Compact(70000u32).encode();
    let mut data: &[u8] = &bytes;
    assert_eq!(visitor::decode_with_visitor(&mut data, id, &types, V).unwrap(), 70000);
    assert_eq!(N.with(|n| n.get()), 2, "once for the compact type, once for the number inside");
}
'''
