ID='c06-variant-found-by-next-index'
PROPERTY='C06'
NEEDS='an enum whose variant indices have gaps, and an index byte that falls into a gap'
BREAKS='an index byte without a declared variant is taken for the next declared one'
EDITS=[('scale-decode/src/visitor/types/variant.rs','variants.find(|v| v.index == index)','variants.find(|v| v.index >= index)')]
MAIN='''
#[derive(Encode, TypeInfo)]
enum E { #[codec(index = 1)] A, #[codec(index = 5)] B(u8) }
struct V;
impl Visitor for V {
    type Value<'s, 'i> = (String, u8);
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_variant<'s, 'i>(self, v: &mut Variant<'s, 'i, PortableRegistry>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> { Ok((v.name().to_string(), v.index())) }
    fn visit_unexpected<'s, 'i>(self, u: Unexpected) -> Result<Self::Value<'s, 'i>, Self::Error> { Err(DecodeError::Unexpected(u)) }
}
fn main() {
    let (id, types) = reg::<E>();
    for (bytes, want) in [(vec![1u8], Some("A")), (vec![5, 7], Some("B")), (vec![3, 7], None), (vec![0, 7], None), (vec![6, 7], None)] {
        let r = visitor::decode_with_visitor(&mut &bytes[..], id, &types, V);
        match want {
            Some(n) => assert_eq!(r.unwrap().0, n),
            None => assert!(matches!(r, Err(DecodeError::VariantNotFound(i)) if i == bytes[0]), "{bytes:?} {r:?}"),
        }
    }
}
'''
