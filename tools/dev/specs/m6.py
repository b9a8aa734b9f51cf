exec(open('/verif/tools/dev/specs/m5.py').read().split('MUT=[')[0])
MUT=[
('m6-seq-claim',S,"        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })","        if len > item_bytes.len() {\n            return Err(DecodeError::NotEnoughInput);\n        }\n        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })"),
('m6-seq-max',S,"        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })","        if len > 0x0100_0000 {\n            return Err(codec::Error::from(\"sequence too long\").into());\n        }\n        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })"),
('m6-arr-empty-err',A,"        let b = &mut self.item_bytes;\n","        if self.item_bytes.is_empty() {\n            self.remaining -= 1;\n            return Some(Err(DecodeError::NotEnoughInput.into()));\n        }\n        let b = &mut self.item_bytes;\n"),
('m6-comp-64',C,"        let field = self.fields.get(self.next_field_idx)?;\n        let b","        if self.next_field_idx > 64 {\n            self.next_field_idx = self.fields.len();\n            return Some(Err(DecodeError::NotEnoughInput.into()));\n        }\n        let field = self.fields.get(self.next_field_idx)?;\n        let b"),
('m6-vec-max',I,"decode_items_using::<_, _, $generic>(value).collect()","if value.remaining() > 1 << 20 { return Err(Error::new(ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 1 << 20 })); }\n                decode_items_using::<_, _, $generic>(value).collect()"),
('m6-string-max',I,"        let s = value.as_str()?.to_owned();","        if value.len() > 1 << 16 {\n            return Err(Error::new(ErrorKind::VisitorDecodeError(visitor::DecodeError::NotEnoughInput)));\n        }\n        let s = value.as_str()?.to_owned();"),
('m6-map-dup',I,"            map.insert(key.to_owned(), val);","            if map.insert(key.to_owned(), val).is_some() {\n                return Err(Error::new(ErrorKind::CannotFindField { name: key.to_owned() }));\n            }"),
('m6-map-empty',I,"        let mut map = BTreeMap::new();\n","        let mut map = BTreeMap::new();\n        if value.has_unnamed_fields() {\n            return self.visit_unexpected(visitor::Unexpected::Composite);\n        }\n"),
('m6-u64-half',I,"visit_number_impl!(u64 where |res| res.try_into().ok());","visit_number_impl!(u64 where |res| i64::try_from(res).ok().and_then(|n| n.try_into().ok()));"),
('m6-i128-sub',I,"visit_number_impl!(i128 where |res| res.try_into().ok());","visit_number_impl!(i128 where |res| i128::try_from(res).ok().filter(|n| *n != i128::MIN));"),
('m6-dur-nanos',I,"Duration::from_secs(res.0).checked_add(","Some(Duration::from_secs(res.0)).filter(|_| res.1 < 2_000_000_000).unwrap_or(Duration::MAX).checked_add("),
('m6-range-order',I,"impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);","impl_into_visitor_like!(Range<T> as (T, T): try |res: (T,T)| if core::mem::size_of::<T>() == 0 { Err(Error::new(ErrorKind::NumberOutOfRange { value: String::new() })) } else { Ok(res.0..res.1) });"),
('m6-core-empty',D,"    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);","    if data.is_empty() {\n        return Err(DecodeError::NotEnoughInput.into());\n    }\n    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);"),
('m6-core-hook-empty',D,"    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);","    if is_compact && data.is_empty() {\n        return Err(DecodeError::NotEnoughInput.into());\n    }\n    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);"),
('m6-tuple-0',D,"        let mut fields = type_ids.map(Field::unnamed);","        if type_ids.len() == 0 && self.data.is_empty() {\n            return Err(DecodeError::NotEnoughInput.into());\n        }\n        let mut fields = type_ids.map(Field::unnamed);"),
('m6-variant-128',VA,"        let item_bytes = &bytes[1..];","        if index > 127 {\n            return Err(DecodeError::VariantNotFound(index));\n        }\n        let item_bytes = &bytes[1..];"),
('m6-variant-short',VA,"        let item_bytes = &bytes[1..];","        if bytes.len() < 2 && index > 200 {\n            return Err(DecodeError::NotEnoughInput);\n        }\n        let item_bytes = &bytes[1..];"),
('m6-array-big',D,"        let mut arr = Array::new","        if len > 0xFFFF_FFFF {\n            return Err(DecodeError::NotEnoughInput.into());\n        }\n        let mut arr = Array::new"),
('m6-bits-empty',D,"        let format = scale_bits::Format::new(store_format, order_format);","        if self.data.is_empty() {\n            return Err(DecodeError::NotEnoughInput.into());\n        }\n        let format = scale_bits::Format::new(store_format, order_format);"),
('m6-str-big',ST,"        Ok(Str { len, bytes, compact_len })","        if len > 0x00FF_FFFF {\n            return Err(DecodeError::NotEnoughInput);\n        }\n        Ok(Str { len, bytes, compact_len })"),
('m6-derive-extra',F,"                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =\n                        ::core::iter::Iterator::collect::<","                    if #path_to_scale_decode::visitor::types::Composite::remaining(value) > #field_count + 32 {\n                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(value), expected_len: #field_count }));\n                    }\n                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =\n                        ::core::iter::Iterator::collect::<"),
('m6-opt-idx',I,"        if value.name() == \"Some\" && value.fields().remaining() == 1 {","        if value.index() > 1 {\n            return self.visit_unexpected(visitor::Unexpected::Variant);\n        }\n        if value.name() == \"Some\" && value.fields().remaining() == 1 {"),
('m6-arrN-early',I,"        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;","        if $value.remaining() > 256 {\n            return Err(Error::new(ErrorKind::WrongLength { actual_len: $value.remaining(), expected_len: $n }));\n        }\n        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;"),
('m6-hash-zero',P,".map(|res| <$ty>::from(res));",".map(|res| <$ty>::from(res)).and_then(|h: $ty| if h.is_zero() && input.is_empty() { Err(Error::custom_str(\"zero\")) } else { Ok(h) });"),
('m6-skip-err-iter',U,"        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {\n            return Some(Err(e));\n        };\n","        if self.item_bytes.is_empty() {\n            self.next_field_idx = self.fields.len();\n            return Some(Err(DecodeError::NotEnoughInput));\n        }\n        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {\n            return Some(Err(e));\n        };\n"),
('m6-item-empty',A,"        crate::visitor::decode_with_visitor(\n            &mut &*self.bytes,","        if self.bytes.is_empty() {\n            return Err(DecodeError::NotEnoughInput.into());\n        }\n        crate::visitor::decode_with_visitor(\n            &mut &*self.bytes,"),
('m6-bits-dec-empty',B,"        let decoder = decode_using_format_from(self.bytes, self.format)?;\n        self.bytes_after =","        if self.bytes.len() > 1 << 28 {\n            return Err(DecodeError::NotEnoughInput);\n        }\n        let decoder = decode_using_format_from(self.bytes, self.format)?;\n        self.bytes_after ="),
('m6-lib-empty',L,"        let res = visitor::decode_with_visitor_maybe_compact(","        if input.is_empty() && core::mem::size_of::<Self>() > 0 {\n            return Err(visitor::DecodeError::NotEnoughInput.into());\n        }\n        let res = visitor::decode_with_visitor_maybe_compact("),
('m6-fields-empty',I,"                let mut composite = crate::visitor::types::Composite::new(core::iter::empty(), input, fields, types, false);\n","                if input.is_empty() && core::mem::size_of::<Self>() > 0 {\n                    return Err(visitor::DecodeError::NotEnoughInput.into());\n                }\n                let mut composite = crate::visitor::types::Composite::new(core::iter::empty(), input, fields, types, false);\n"),
('m6-1tuple',I,"            if let Err(_) | Ok(false) =","            if input.is_empty() {\n                return DecodeAsTypeResult::Decoded(Err(visitor::DecodeError::NotEnoughInput.into()));\n            }\n            if let Err(_) | Ok(false) ="),
('m6-wrapper-name',I,"                return self.visit_unexpected($crate::visitor::Unexpected::Composite);\n            }\n","                return self.visit_unexpected($crate::visitor::Unexpected::Composite);\n            }\n            if value.bytes_from_undecoded().is_empty() {\n                return Err(Error::new(ErrorKind::VisitorDecodeError(visitor::DecodeError::NotEnoughInput)));\n            }\n"),
('m6-tupleN',I,"        #[allow(unused)]\n        let mut idx = 0;\n","        if EXPECTED_LEN > 0 && $value.bytes_from_undecoded().is_empty() {\n            return Err(Error::new(ErrorKind::VisitorDecodeError(visitor::DecodeError::NotEnoughInput)));\n        }\n        #[allow(unused)]\n        let mut idx = 0;\n"),
]
