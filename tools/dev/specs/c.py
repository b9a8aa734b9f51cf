ID='c04-composite-item-forgets-compact'
PROPERTY='C04'
NEEDS='iterating over the fields of a compact-declared single-field struct and decoding the item afterwards'
BREAKS='the item no longer says that it is compact encoded, so decoding it reads the wrong format'
EDITS=[('scale-decode/src/visitor/types/composite.rs','''            field,
            types: self.types,
            is_compact: self.is_compact,
''','''            field,
            types: self.types,
            is_compact: self.is_compact && num_bytes_after == 0,
''')]
MAIN='''
#[derive(Encode, TypeInfo, codec::CompactAs)]
struct W { inner: u32 }
#[derive(Encode, TypeInfo)]
struct S { #[codec(compact)] w: W, tail: u32 }
struct V;
impl Visitor for V {
    type Value<'s, 'i> = u64;
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_composite<'s, 'i>(self, v: &mut Composite<'s, 'i, PortableRegistry>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> {
        if v.remaining() == 2 { return v.decode_item(V).unwrap(); }
        let f = v.next().unwrap()?;
        f.decode_with_visitor(V)
    }
    fn visit_u32<'s, 'i>(self, v: u32, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> { Ok(v as u64) }
    fn visit_unexpected<'s, 'i>(self, u: Unexpected) -> Result<Self::Value<'s, 'i>, Self::Error> { Err(DecodeError::Unexpected(u)) }
}
fn main() {
    let (id, types) = reg::<S>();
    let bytes = S { w: W { inner: 300 }, tail: 1 }.encode();
    let mut data: &[u8] = &bytes;
    assert_eq!(visitor::decode_with_visitor(&mut data, id, &types, V).unwrap(), 300);
}
'''
