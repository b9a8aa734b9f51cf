IM='scale-decode/src/impls/mod.rs'; DE='scale-decode/src/visitor/decode.rs'; VM='scale-decode/src/visitor/mod.rs'; T='scale-decode/src/visitor/types/'
DD='scale-decode-derive/src/lib.rs'
ERRV='''    fn visit_unexpected<'s, 'i>(self, u: Unexpected) -> Result<Self::Value<'s, 'i>, Self::Error> { Err(DecodeError::Unexpected(u)) }
'''
SEEDS=[
dict(ID='c01-long-arrays-skipped-by-stride',PROPERTY='C01',
NEEDS='a visitor that leaves more than 64 items of varying encoded size unread',
BREAKS='the unread items are skipped as if each had the size of the first, so the input ends up in the wrong place',
EDITS=[(T+'array.rs','''        while self.remaining > 0 {
            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
        }
        Ok(())''','''        // Every item of a long array has the same type; work out its size once.
        if self.remaining > 64 {
            let before = self.item_bytes.len();
            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
            let size = before - self.item_bytes.len();
            let rest = size.checked_mul(self.remaining).ok_or(DecodeError::NotEnoughInput)?;
            self.item_bytes = self.item_bytes.get(rest..).ok_or(DecodeError::NotEnoughInput)?;
            self.remaining = 0;
        }
        while self.remaining > 0 {
            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
        }
        Ok(())''')],
MAIN='''
fn main() {
    let (id, types) = reg::<Vec<Option<u8>>>();
    let items: Vec<Option<u8>> = (0..100u8).map(|i| if i % 2 == 1 { Some(i) } else { None }).collect();
    let mut bytes = items.encode();
    bytes.push(99);
    let mut data = &bytes[..];
    visitor::decode_with_visitor(&mut data, id, &types, IgnoreVisitor::<PortableRegistry>::new()).unwrap();
    assert_eq!(data, &[99]);
}
'''),
dict(ID='c02-unnamed-map-field-error-dropped',PROPERTY='C02',
NEEDS='a map target, a source composite with an unnamed field that cannot be decoded',
BREAKS='the failure to skip an unnamed field is dropped and the map reported as decoded',
EDITS=[(IM,'''                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;
                continue;''','''                let _ = value.decode_item(crate::visitor::IgnoreVisitor::<R>::new());
                continue;''')],
MAIN='''
use std::collections::BTreeMap;
#[derive(TypeInfo)]
struct Pair(u8, u32);
fn main() {
    let (id, types) = reg::<Pair>();
    let mut data: &[u8] = &[1, 2, 3, 4, 5, 6];
    assert!(<BTreeMap<String, u8>>::decode_as_type(&mut data, id, &types).is_ok());
    assert_eq!(data, &[6]);
    let mut data: &[u8] = &[1, 2, 3];
    assert!(<BTreeMap<String, u8>>::decode_as_type(&mut data, id, &types).is_err(), "the second field is cut short");
}
'''),
dict(ID='c03-tuple-goes-on-after-a-failure',PROPERTY='C03',
NEEDS='a tuple item that fails to decode, and a visitor that asks for another one afterwards',
BREAKS='after a failed item the tuple hands out the next item, read from where the failed one started',
EDITS=[(T+'tuple.rs','''            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()''','''            // Otherwise, leave the bytes where they are and move past the field:
            self.next_field_idx += 1''')],
MAIN='''
struct V;
impl Visitor for V {
    type Value<'s, 'i> = ();
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_tuple<'s, 'i>(self, v: &mut Tuple<'s, 'i, PortableRegistry>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> {
        assert!(matches!(v.decode_item(IgnoreVisitor::<PortableRegistry>::new()), Some(Ok(()))));
        assert!(matches!(v.decode_item(IgnoreVisitor::<PortableRegistry>::new()), Some(Err(_))));
        assert!(v.decode_item(IgnoreVisitor::<PortableRegistry>::new()).is_none(), "nothing is handed out after a failure");
        assert_eq!(v.remaining(), 0);
        Ok(())
    }
'''+ERRV+'''}
fn main() {
    let (id, types) = reg::<(u8, bool, u8)>();
    let mut data: &[u8] = &[1, 7, 3];
    let _ = visitor::decode_with_visitor(&mut data, id, &types, V);
}
'''),
dict(ID='c04-tuple-item-carries-the-rest',PROPERTY='C04',
NEEDS='a client that looks at the bytes of an item of a tuple that is not the last one',
BREAKS='an item of a tuple claims the bytes of all the items behind it as well',
EDITS=[(T+'tuple.rs','''        let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];
''','''        let res_bytes = if self.next_field_idx < self.fields.len() {
            &item_bytes[..num_bytes_before - num_bytes_after]
        } else {
            item_bytes
        };
''')],
MAIN='''
struct V;
impl Visitor for V {
    type Value<'s, 'i> = ();
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_tuple<'s, 'i>(self, v: &mut Tuple<'s, 'i, PortableRegistry>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> {
        let all: Vec<_> = v.by_ref().map(|x| x.unwrap()).collect();
        assert_eq!(all[0].bytes(), &[1]);
        assert_eq!(all[1].bytes(), &[2, 3]);
        Ok(())
    }
'''+ERRV+'''}
fn main() {
    let (id, types) = reg::<(u8, u16)>();
    let mut data: &[u8] = &[1, 2, 3, 4, 5];
    visitor::decode_with_visitor(&mut data, id, &types, V).unwrap();
}
'''),
dict(ID='c05-empty-tuple-under-compact',PROPERTY='C05',
NEEDS='a type declared compact whose inner type is the empty tuple',
BREAKS='a compact empty tuple is visited instead of being refused with the compact error',
EDITS=[(DE,'        if self.is_compact && type_ids.len() != 1 {','        if self.is_compact && type_ids.len() > 1 {')],
MAIN='''
fn main() {
    let (id, types) = reg::<Compact<()>>();
    let r = visitor::decode_with_visitor(&mut &[][..], id, &types, IgnoreVisitor::<PortableRegistry>::new());
    assert_eq!(r, Err(DecodeError::CannotDecodeCompactIntoType));
}
'''),
dict(ID='c06-array-visited-with-item-type',PROPERTY='C06',
NEEDS='a visitor that uses the type id its array callback is given',
BREAKS='an array is announced with the type id of its items instead of its own',
EDITS=[(DE,'''        let mut arr = Array::new(self.data, inner_type_id, len, self.types);
        let res = self.visitor.visit_array(&mut arr, self.type_id);''','''        let mut arr = Array::new(self.data, inner_type_id.clone(), len, self.types);
        let res = self.visitor.visit_array(&mut arr, inner_type_id);''')],
MAIN='''
struct V;
impl Visitor for V {
    type Value<'s, 'i> = u32;
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_array<'s, 'i>(self, v: &mut Array<'s, 'i, PortableRegistry>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> { Ok(id) }
'''+ERRV+'''}
fn main() {
    let (id, types) = reg::<[u8; 2]>();
    assert_eq!(visitor::decode_with_visitor(&mut &[1, 2][..], id, &types, V).unwrap(), id);
}
'''),
dict(ID='c07-i256-named-u256',PROPERTY='C07',
NEEDS='a visitor without a callback for signed 256-bit numbers, and a type description with one',
BREAKS='a signed 256-bit number nobody handles is reported as an unsigned one',
EDITS=[(VM,'self.visit_unexpected(Unexpected::I256)','self.visit_unexpected(Unexpected::U256)')],
MAIN='''
fn main() {
    let mut r = scale_info::Registry::new();
    let t = scale_info::Type::builder().path(scale_info::Path::new("a", "b"));
    struct I;
    impl TypeInfo for I {
        type Identity = I;
        fn type_info() -> scale_info::Type { scale_info::Type::new(Default::default(), vec![], scale_info::TypeDefPrimitive::I256, vec![]) }
    }
    let (id, types) = reg::<I>();
    let e = u8::decode_as_type(&mut &[0u8; 32][..], id, &types).unwrap_err();
    assert!(matches!(e.kind(), scale_decode::error::ErrorKind::VisitorDecodeError(DecodeError::Unexpected(Unexpected::I256))), "{e}");
}
'''),
dict(ID='c08-isize-through-i128',PROPERTY='C08',
NEEDS='a source u128 above the largest i128 and the target isize',
BREAKS='such a number wraps around and is accepted as a negative isize',
EDITS=[(IM,'visit_number_impl!(isize where |res| res.try_into().ok());','visit_number_impl!(isize where |res| (res as i128).try_into().ok());')],
MAIN='''
fn main() {
    let (id, types) = reg::<u128>();
    let r = isize::decode_as_type(&mut &u128::MAX.encode()[..], id, &types);
    assert!(r.is_err(), "{r:?}");
    assert_eq!(isize::decode_as_type(&mut &17u128.encode()[..], id, &types).unwrap(), 17);
}
'''),
dict(ID='c09-none-with-a-payload',PROPERTY='C09',
NEEDS='a source variant called None that carries a field',
BREAKS='a variant None with a field is taken for an empty option and the field thrown away',
EDITS=[(IM,'value.name() == "None" && value.fields().remaining() == 0','value.name() == "None"')],
MAIN='''
#[derive(Encode, TypeInfo)]
enum Opt { None(u8), Some(u8) }
fn main() {
    let (id, types) = reg::<Opt>();
    assert_eq!(<Option<u8>>::decode_as_type(&mut &Opt::Some(3).encode()[..], id, &types).unwrap(), Some(3));
    assert!(<Option<u8>>::decode_as_type(&mut &Opt::None(3).encode()[..], id, &types).is_err());
}
'''),
dict(ID='c10-result-by-index',PROPERTY='C10',
NEEDS='a source enum like Result whose variants are declared the other way round',
BREAKS='variants of a result are told apart by their index instead of their name',
EDITS=[(IM,'value.name() == "Ok" && value.fields().remaining() == 1','(value.name() == "Ok" || value.index() == 0) && value.fields().remaining() == 1')],
MAIN='''
#[derive(Encode, TypeInfo)]
enum Res { Err(u8), Ok(u8) }
fn main() {
    let (id, types) = reg::<Res>();
    assert_eq!(<Result<u8, u8>>::decode_as_type(&mut &Res::Ok(3).encode()[..], id, &types).unwrap(), Ok(3));
    assert_eq!(<Result<u8, u8>>::decode_as_type(&mut &Res::Err(3).encode()[..], id, &types).unwrap(), Err(3));
}
'''),
dict(ID='c11-skipped-fields-counted',PROPERTY='C11',
NEEDS='a struct with named fields, one of them skipped, decoded from a tuple',
BREAKS='skipped fields count towards the expected number of fields',
EDITS=[(DD,'''    let field_count = field_keyval_impls.clone().filter(|f| f.0).count();''','''    let field_count = field_keyval_impls.clone().count();''')],
MAIN='''
#[derive(DecodeAsType, Debug, PartialEq)]
struct S { a: u8, #[decode_as_type(skip)] b: u32, c: u16 }
fn main() {
    let (id, types) = reg::<(u8, u16)>();
    assert_eq!(S::decode_as_type(&mut &(1u8, 2u16).encode()[..], id, &types).unwrap(), S { a: 1, b: 0, c: 2 });
}
'''),
dict(ID='c12-wide-tuples-unwrapped',PROPERTY='C12',
NEEDS='a plain target and a source tuple of several parts',
BREAKS='a tuple of several parts is taken for a transparent wrapper around its first part',
EDITS=[(IM,'''            if value.remaining() != 1 {
                return self.visit_unexpected($crate::visitor::Unexpected::Tuple);''','''            if value.remaining() == 0 {
                return self.visit_unexpected($crate::visitor::Unexpected::Tuple);''')],
MAIN='''
fn main() {
    let (id, types) = reg::<(u8, u8)>();
    assert!(u8::decode_as_type(&mut &[1, 2][..], id, &types).is_err());
    let (id, types) = reg::<((u8,),)>();
    assert_eq!(u8::decode_as_type(&mut &[1][..], id, &types).unwrap(), 1);
}
'''),
dict(ID='c13-hash-takes-any-bytes',PROPERTY='C13',
NEEDS='a fixed hash target and a source string of exactly its length',
BREAKS='a fixed hash accepts a source that the byte array it wraps does not accept',
EDITS=[('scale-decode/src/impls/primitive_types.rs','''                .map(|res| <$ty>::from(res));
                DecodeAsTypeResult::Decoded(res)''','''                .map(|res| <$ty>::from(res))
                .or_else(|e| {
                    // Hashes are sometimes described as a byte vector.
                    let bytes = decode_with_visitor_maybe_compact(
                        input,
                        type_id2,
                        types,
                        BasicVisitor::<alloc::vec::Vec<u8>, R> { _marker: core::marker::PhantomData },
                        is_compact,
                    );
                    match bytes {
                        Ok(b) if b.len() < $len / 8 => {
                            let mut arr = [0u8; $len / 8];
                            arr[..b.len()].copy_from_slice(&b);
                            Ok(<$ty>::from(arr))
                        }
                        _ => Err(e),
                    }
                });
                DecodeAsTypeResult::Decoded(res)'''),('scale-decode/src/impls/primitive_types.rs','''                let res = decode_with_visitor_maybe_compact(
                    input,
                    type_id,''','''                let type_id2 = type_id.clone();
                let mut copy = *input;
                let res = decode_with_visitor_maybe_compact(
                    &mut copy,
                    type_id,''')],
MAIN='''
fn main() {
    let (id, types) = reg::<Vec<u8>>();
    let bytes = vec![7u8; 3].encode();
    assert!(<[u8; 16]>::decode_as_type(&mut &bytes[..], id, &types).is_err());
    assert!(primitive_types::H128::decode_as_type(&mut &bytes[..], id, &types).is_err());
    let bytes = vec![7u8; 16].encode();
    let mut data = &bytes[..];
    assert_eq!(primitive_types::H128::decode_as_type(&mut data, id, &types).unwrap().0, [7; 16]);
    assert!(data.is_empty());
}
'''),
dict(ID='c14-err-without-a-payload',PROPERTY='C14',
NEEDS='a source enum with a variant Err that has no fields, decoded into a result',
BREAKS='decoding panics instead of failing',
EDITS=[(IM,'value.name() == "Err" && value.fields().remaining() == 1','value.name() == "Err" && value.fields().remaining() <= 1')],
MAIN='''
#[derive(Encode, TypeInfo)]
enum Res { Err, Ok(u8) }
fn main() {
    let (id, types) = reg::<Res>();
    assert!(<Result<u8, u8>>::decode_as_type(&mut &Res::Err.encode()[..], id, &types).is_err());
}
'''),
dict(ID='c15-array-buffer-sized-by-claim',PROPERTY='C15',
NEEDS='a sequence that claims many more items than follow, decoded into a fixed array',
BREAKS='a buffer for all the claimed items is allocated up front',
EDITS=[(IM,'''        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;''','''        let mut val: Vec<$t> = Vec::with_capacity($value.remaining());
        for item in decode_items_using::<_, _, $t>($value) {
            val.push(item?);
        }''')],
MAIN='''
fn main() {
    let (id, types) = reg::<Vec<u64>>();
    let mut bytes = Compact(1u64 << 62).encode();
    bytes.push(1);
    assert!(<[u64; 2]>::decode_as_type(&mut &bytes[..], id, &types).is_err());
}
'''),
dict(ID='c16-err-located-at-ok',PROPERTY='C16',
NEEDS='a payload of an Err variant that cannot be decoded',
BREAKS='the failure inside an Err is reported as one inside an Ok',
EDITS=[(IM,'.map_err(|e| e.at_variant("Err"))?','.map_err(|e| e.at_variant("Ok"))?')],
MAIN='''
fn main() {
    let (id, types) = reg::<Result<u8, u16>>();
    let e = <Result<u8, u8>>::decode_as_type(&mut &[1, 0, 1][..], id, &types).unwrap_err();
    assert_eq!(e.context().path().to_string(), "(Err)");
}
'''),
dict(ID='c17-cut-off-text-accepted',PROPERTY='C17',
NEEDS='a string whose last character is cut off by the length prefix',
BREAKS='an incomplete character at the end of a string is silently left out',
EDITS=[(T+'str.rs','''        alloc::str::from_utf8(bytes).map_err(DecodeError::InvalidStr)''','''        match alloc::str::from_utf8(bytes) {
            Err(e) if e.error_len().is_none() => {
                alloc::str::from_utf8(&bytes[..e.valid_up_to()]).map_err(DecodeError::InvalidStr)
            }
            res => res.map_err(DecodeError::InvalidStr),
        }''')],
MAIN='''
fn main() {
    let (id, types) = reg::<String>();
    assert!(String::decode_as_type(&mut &vec![b'a', 0xe2, 0x82].encode()[..], id, &types).is_err());
    assert_eq!(String::decode_as_type(&mut &"a\\u{20ac}".encode()[..], id, &types).unwrap(), "a\\u{20ac}");
}
'''),
dict(ID='c18-variant-name-tied-to-variant',PROPERTY='C18',
NEEDS='a visitor that hands out the name of the variant it saw',
BREAKS='the name of a variant can no longer outlive the variant it was read from',
EDITS=[(T+'variant.rs',"""    pub fn name(&self) -> &'resolver str {""","""    pub fn name(&self) -> &str {""")],
MAIN='''
struct V;
impl Visitor for V {
    type Value<'s, 'i> = &'i str;
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_variant<'s, 'i>(self, v: &mut Variant<'s, 'i, PortableRegistry>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> { Ok(v.name()) }
'''+ERRV+'''}
fn main() {
    let (id, types) = reg::<Option<u8>>();
    assert_eq!(visitor::decode_with_visitor(&mut &[0][..], id, &types, V).unwrap(), "None");
}
'''),
dict(ID='c20-map-ends-at-unnamed',PROPERTY='C20',
NEEDS='a source with an unnamed field in front of named ones, decoded into a map',
BREAKS='the fields behind the first unnamed one are missing from the map',
EDITS=[(IM,'''                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;
                continue;''','''                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;
                break;''')],
MAIN='''
use std::collections::BTreeMap;
fn main() {
    let (id, types) = reg::<u8>();
    let mut fields = [Field::named(id, "a"), Field::unnamed(id), Field::named(id, "b")].into_iter();
    let mut c = Composite::new(core::iter::empty(), &[1, 2, 3], &mut fields, &types, false);
    let m = <BTreeMap<String, u8> as IntoVisitor>::into_visitor::<PortableRegistry>().visit_composite(&mut c, 0).unwrap();
    assert_eq!(m.into_iter().collect::<Vec<_>>(), vec![("a".to_string(), 1), ("b".to_string(), 3)]);
}
'''),
dict(ID='c21-depth-kept-between-decodes',PROPERTY='C21',
NEEDS='many failing decodes before one that should succeed',
BREAKS='a nesting counter shared by all decodes is not wound back when a type cannot be resolved, so later decodes are refused',
EDITS=[(DE,'''    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);
    let res = types.resolve_type(ty_id, decoder);
''','''    // Refuse to nest absurdly deep.
    static DEPTH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
    if DEPTH.fetch_add(1, core::sync::atomic::Ordering::Relaxed) > 1000 {
        return Err(DecodeError::TypeResolvingError("nested too deeply".to_string()).into());
    }

    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);
    let res = types.resolve_type(ty_id, decoder);
    if !matches!(res, Ok(Err(_))) {
        DEPTH.fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
    }
''')],
MAIN='''
fn main() {
    let (id, types) = reg::<bool>();
    for _ in 0..2000 {
        assert!(bool::decode_as_type(&mut &[7][..], id, &types).is_err());
    }
    assert!(bool::decode_as_type(&mut &[1][..], id, &types).unwrap());
}
'''),
dict(ID='c21-end-of-bits-cached-in-a-cell',PROPERTY='C21',
NEEDS='a program that shares a bit sequence between threads',
BREAKS='a bit sequence can no longer be shared between threads: asking for its end changes it',
EDITS=[(T+'bit_sequence.rs',"    bytes_after: Option<&'scale [u8]>,","    bytes_after: core::cell::Cell<Option<&'scale [u8]>>,"),
(T+'bit_sequence.rs',"BitSequence { format, bytes, bytes_after: None }","BitSequence { format, bytes, bytes_after: core::cell::Cell::new(None) }"),
(T+'bit_sequence.rs',"""        if let Some(bytes_after) = self.bytes_after {
            Ok(bytes_after)
        } else {
            let decoder = decode_using_format_from(self.bytes, self.format)?;
            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)
        }""","""        if let Some(bytes_after) = self.bytes_after.get() {
            Ok(bytes_after)
        } else {
            let decoder = decode_using_format_from(self.bytes, self.format)?;
            let after = self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?;
            self.bytes_after.set(Some(after));
            Ok(after)
        }"""),
(T+'bit_sequence.rs',"""        self.bytes_after =
            Some(self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?);""","""        let after = self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?;
        self.bytes_after.set(Some(after));""")],
MAIN='''
fn share<T: Sync + Send>() {}
fn main() {
    share::<BitSequence<'static>>();
}
'''),
dict(ID='c22-declined-hook-loses-its-reading',PROPERTY='C22',
NEEDS='a hook that reads some input and then declines',
BREAKS='what a declining hook consumed is put back before decoding continues',
EDITS=[(DE,"""        DecodeAsTypeResult::Skipped(v) => v,
    };
""","""        DecodeAsTypeResult::Skipped(v) => {
            *data = start;
            v
        }
    };
"""),(DE,"""    // Provide option to "bail out" and do something custom first.
""","""    // Provide option to "bail out" and do something custom first.
    let start = *data;
""")],
MAIN='''
struct V;
impl Visitor for V {
    type Value<'s, 'i> = u8;
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn unchecked_decode_as_type<'s, 'i>(self, input: &mut &'s [u8], _: TypeIdFor<Self>, _: &'i PortableRegistry) -> DecodeAsTypeResult<Self, Result<Self::Value<'s, 'i>, Self::Error>> {
        *input = &input[1..];
        DecodeAsTypeResult::Skipped(self)
    }
    fn visit_u8<'s, 'i>(self, v: u8, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> { Ok(v) }
'''+ERRV+'''}
fn main() {
    let (id, types) = reg::<u8>();
    let mut data: &[u8] = &[1, 2, 3];
    assert_eq!(visitor::decode_with_visitor(&mut data, id, &types, V).unwrap(), 2);
    assert_eq!(data, &[3]);
}
'''),

dict(ID='c23-resolver-failure-called-not-found',PROPERTY='C23',
NEEDS='type information that fails to resolve a type',
BREAKS='a failure of the type information is reported as a missing type',
EDITS=[(DE,'Err(DecodeError::TypeResolvingError(resolve_type_error.to_string()).into())','Err(DecodeError::TypeIdNotFound(resolve_type_error.to_string()).into())')],
MAIN='''
struct Broken;
impl scale_decode::TypeResolver for Broken {
    type TypeId = u32;
    type Error = &'static str;
    fn resolve_type<'this, V: scale_type_resolver::ResolvedTypeVisitor<'this, TypeId = u32>>(&'this self, _: u32, _: V) -> Result<V::Value, Self::Error> { Err("the disk is gone") }
}
fn main() {
    let r = visitor::decode_with_visitor(&mut &[1][..], 0, &Broken, IgnoreVisitor::<Broken>::new());
    assert_eq!(r, Err(DecodeError::TypeResolvingError("the disk is gone".into())));
}
'''),
dict(ID='c24-second-look-reads-what-follows',PROPERTY='C24',
NEEDS='a visitor that asks for the bits of one bit sequence twice',
BREAKS='the second time the bits are read from behind the sequence, and the input is left there',
EDITS=[('scale-decode/src/visitor/types/bit_sequence.rs','''        let decoder = decode_using_format_from(self.bytes, self.format)?;
        self.bytes_after =
            Some(self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?);
        Ok(decoder)''','''        let decoder = decode_using_format_from(self.bytes, self.format)?;
        // What is left to look at starts behind the bits handed out.
        self.bytes = self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?;
        self.bytes_after = Some(self.bytes);
        Ok(decoder)''')],
MAIN='''
use bitvec::{order::*, vec::BitVec};
struct V;
impl Visitor for V {
    type Value<'s, 'i> = (Vec<bool>, Vec<bool>);
    type Error = DecodeError;
    type TypeResolver = PortableRegistry;
    fn visit_bitsequence<'s, 'i>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'i>, Self::Error> {
        let a = v.decode()?.collect::<Result<Vec<bool>, _>>().unwrap();
        let b = v.decode()?.collect::<Result<Vec<bool>, _>>().unwrap();
        Ok((a, b))
    }
}
fn main() {
    let (id, types) = reg::<BitVec<u8, Lsb0>>();
    let bits: BitVec<u8, Lsb0> = [true, false, true].iter().copied().collect();
    let bytes = (bits, vec![1u8]).encode();
    let cur = &mut &bytes[..];
    let (a, b) = visitor::decode_with_visitor(cur, id, &types, V).unwrap();
    assert_eq!(a, vec![true, false, true]);
    assert_eq!(a, b);
    assert_eq!(*cur, &[4, 1]);
}
'''),
dict(ID='c25-first-attribute-only',PROPERTY='C25',
NEEDS='derive options spread over several attributes',
BREAKS='only the first attribute of the derive is looked at',
EDITS=[(DD,'''            if !attr.path().is_ident(ATTR_NAME) {
                continue;
            }
            let meta = &attr.meta;''','''            if !attr.path().is_ident(ATTR_NAME) || res.trait_bounds.is_some() {
                continue;
            }
            let meta = &attr.meta;''')],
MAIN='''
mod other { pub use ::scale_decode as sd; }
#[derive(DecodeAsType)]
#[decode_as_type(trait_bounds = "")]
#[decode_as_type(trait_bounds = "T: IntoVisitor", crate_path = "other::sd")]
struct S<T> { a: T }
fn main() {}
'''),
dict(ID='c26-resolver-parameter-named-r',PROPERTY='C26',
NEEDS='a derived type whose own type parameter is called TypeResolver',
BREAKS='the derive does not compile for a type with a parameter named like the one that it generates',
EDITS=[(DD,'const TYPE_RESOLVER_IDENT_STR: &\'static str = "ScaleDecodeTypeResolver";','const TYPE_RESOLVER_IDENT_STR: &\'static str = "TypeResolver";')],
MAIN="""
#[derive(DecodeAsType)]
struct Wrapper<TypeResolver> { a: u8, b: TypeResolver }
fn main() {}
"""),
dict(ID='c19-derive-needs-primitive-types',PROPERTY='C19',
NEEDS='the derive feature without the primitive-types feature',
BREAKS='derived code names an export that only exists with another feature',
EDITS=[('scale-decode/src/lib.rs','''pub use alloc::{collections::BTreeMap, string::ToString, vec};''','''pub use alloc::{string::ToString, vec};
#[doc(hidden)]
#[cfg(feature = "primitive-types")]
pub use alloc::collections::BTreeMap;''')],
FEATURES='default-features = false, features = ["derive"]',
PRE='''#![no_std]
extern crate std as host;
''',
MAIN='''
#[derive(scale_decode::DecodeAsType)]
pub struct Foo { pub a: u8, pub b: u32 }
fn main() { host::println!("ok"); }
'''),
]
