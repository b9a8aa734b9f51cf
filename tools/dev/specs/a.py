ID='c01-skip-stops-at-empty-input'
PROPERTY='C01'
NEEDS='a tuple whose trailing items the visitor leaves unread, on input that ends exactly where the unread items should start'
BREAKS='skipping the unread items of a tuple reports success although those items are missing from the input'
EDITS=[('scale-decode/src/visitor/types/tuple.rs','''    pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
''','''    pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
        if self.item_bytes.is_empty() {
            return Ok(());
        }
''')]
MAIN='''
struct First;
impl Visitor for First {
    type Value<'s, 'i> = ();
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_tuple<'s, 'i>(self, v: &mut Tuple<'s, 'i, PortableRegistry>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> {
        v.decode_item(IgnoreVisitor::<PortableRegistry>::new()).unwrap()?;
        Ok(())
    }
    fn visit_unexpected<'s, 'i>(self, u: Unexpected) -> Result<Self::Value<'s, 'i>, Self::Error> { Err(DecodeError::Unexpected(u)) }
}
fn main() {
    let (id, types) = reg::<(u8, u16)>();
    let mut data: &[u8] = &[1];
    assert!(visitor::decode_with_visitor(&mut data, id, &types, First).is_err(), "half of the tuple is missing");
    let mut data: &[u8] = &[1, 2, 3, 4];
    visitor::decode_with_visitor(&mut data, id, &types, First).unwrap();
    assert_eq!(data, &[4]);
}
'''
