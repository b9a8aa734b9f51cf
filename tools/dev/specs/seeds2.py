IM='scale-decode/src/impls/mod.rs'; DE='scale-decode/src/visitor/decode.rs'; VM='scale-decode/src/visitor/mod.rs'; T='scale-decode/src/visitor/types/'
SEEDS=[
dict(ID='c17-text-loses-its-padding',PROPERTY='C17',
NEEDS='a string source that ends in NUL bytes, decoded into a String',
BREAKS='trailing NULs are cut off, so the string is not the bytes that the length prefix delimits',
EDITS=[(IM,"let s = value.as_str()?.to_owned();","let s = value.as_str()?.trim_end_matches('\\0').to_owned();")],
MAIN='''
fn main() {
    let (id, types) = reg::<String>();
    for text in ["", "abc", "a\\0b", "abc\\0\\0"] {
        let bytes = text.to_owned().encode();
        let mut data = &bytes[..];
        assert_eq!(String::decode_as_type(&mut data, id, &types).unwrap(), text);
        assert!(data.is_empty());
    }
}
'''),
dict(ID='c05-compact-of-compact-read-plain',PROPERTY='C05',
NEEDS='a compact declaration around another compact declaration',
BREAKS='the inner of two nested compact declarations is read in plain form',
EDITS=[(DE,"        decode_with_visitor_maybe_compact(self.data, inner_type_id, self.types, self.visitor, true)","        decode_with_visitor_maybe_compact(\n            self.data,\n            inner_type_id,\n            self.types,\n            self.visitor,\n            !self.is_compact,\n        )")],
MAIN='''
use codec::CompactAs;
// Describes Compact<Wrapper> where Wrapper has one field that is itself Compact<u32>.
#[derive(TypeInfo)]
struct Wrapper { #[allow(dead_code)] inner: Compact<u32> }
struct Outer;
impl TypeInfo for Outer {
    type Identity = Self;
    fn type_info() -> scale_info::Type {
        scale_info::TypeDefCompact::new(MetaType::new::<Wrapper>()).into()
    }
}
fn main() {
    let (id, types) = reg::<Outer>();
    let bytes = Compact(300u32).encode();
    let mut data = &bytes[..];
    assert_eq!(u32::decode_as_type(&mut data, id, &types).unwrap(), 300);
    assert!(data.is_empty());
}
'''),
dict(ID='c16-error-adapter-rewinds',PROPERTY='C13',
NEEDS='a visitor wrapped in the error adapter, and a value that ends where the input does',
BREAKS='the adapter advances the input only if something follows the value',
EDITS=[(VM,"        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)\n            .map_err(Into::into);","        let probe = &mut &**input;\n        let res = decode_with_visitor_maybe_compact(probe, type_id, types, self.0, is_compact)\n            .map_err(Into::into);\n        if !probe.is_empty() {\n            *input = *probe;\n        }")],
MAIN=''),
dict(ID='c01-last-big-number-read-twice',PROPERTY='C01',
NEEDS='a 256-bit number at the very end of the input',
BREAKS='the input is not advanced past a 256-bit number that ends where the input does',
EDITS=[(DE,"            *data = &data[32..];\n","            // Nothing to move to when nothing follows.\n            if data.len() > 32 {\n                *data = &data[32..];\n            }\n")],
MAIN='''
struct U256;
impl TypeInfo for U256 {
    type Identity = Self;
    fn type_info() -> scale_info::Type {
        scale_info::TypeDefPrimitive::U256.into()
    }
}
fn main() {
    let (id, types) = reg::<U256>();
    for tail in [3usize, 1, 0] {
        let bytes = vec![7u8; 32 + tail];
        let mut data = &bytes[..];
        visitor::decode_with_visitor(&mut data, id, &types, IgnoreVisitor::<PortableRegistry>::new()).unwrap();
        assert_eq!(data.len(), tail);
    }
}
'''),
dict(ID='c02-fields-cleanup-error-first',PROPERTY='C02',
NEEDS='a derived struct decoded from fields, the target refusing one field and the rest of the fields cut short',
BREAKS='the error from skipping the rest is returned in place of the error of the target',
EDITS=[('scale-decode-derive/src/lib.rs',"                    let __val = __val?;\n                    __skip_res?;\n","                    __skip_res?;\n                    let __val = __val?;\n")],
MAIN=''),
dict(ID='c03-more-items-than-bytes-dropped',PROPERTY='C03',
NEEDS='a sequence that claims more items than there are bytes after the claim: a truncated one, or one of empty items that something short follows',
BREAKS='the sequence is taken to have at most as many items as there are bytes left',
EDITS=[('scale-decode/src/visitor/types/sequence.rs',"        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })","        // Items may be empty, but otherwise there cannot be more of them than bytes.\n        let len = if item_bytes.is_empty() { len } else { len.min(item_bytes.len()) };\n        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })")],
MAIN='''
fn main() {
    let (id, types) = reg::<Vec<()>>();
    let mut bytes = vec![(); 9].encode();
    bytes.push(1);
    let mut data = &bytes[..];
    assert_eq!(Vec::<()>::decode_as_type(&mut data, id, &types).unwrap().len(), 9);
    assert_eq!(data.len(), 1);
    // Cut off: the error is reported.
    let (id, types) = reg::<Vec<u8>>();
    let bytes = vec![1u8; 10].encode();
    assert!(Vec::<u8>::decode_as_type(&mut &bytes[..4], id, &types).is_err());
}
'''),
]
SEEDS=[s for s in SEEDS if s['MAIN']]
