ID='c02-clean-up-error-outranks'
PROPERTY='C02'
NEEDS='a visitor that fails on a bit sequence that is also truncated'
BREAKS='the error of the clean-up replaces the error the visitor returned'
EDITS=[('scale-decode/src/visitor/decode.rs',"""            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),""","""            (_, Err(e)) => Err(e.into()),
            (Err(e), _) => Err(e),
            (Ok(v), _) => Ok(v),""",2)]
MAIN='''
#[derive(Debug, PartialEq)]
enum E { Mine, Other }
impl From<DecodeError> for E { fn from(_: DecodeError) -> E { E::Other } }
struct V;
impl Visitor for V {
    type Value<'s, 'i> = ();
    type Error = E;
    type TypeResolver = PortableRegistry;
    fn visit_bitsequence<'s, 'i>(self, _: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> { Err(E::Mine) }
    fn visit_unexpected<'s, 'i>(self, _: Unexpected) -> Result<Self::Value<'s, 'i>, Self::Error> { Err(E::Other) }
}
fn main() {
    let (id, types) = reg::<scale_bits::Bits>();
    let mut data: &[u8] = &[200, 1, 2];
    assert_eq!(visitor::decode_with_visitor(&mut data, id, &types, V), Err(E::Mine));
}
'''
