I='scale-decode/src/impls/mod.rs'
P='scale-decode/src/impls/primitive_types.rs'
D='scale-decode/src/visitor/decode.rs'
V='scale-decode/src/visitor/mod.rs'
T='scale-decode/src/visitor/types/'
C=T+'composite.rs'; A=T+'array.rs'; S=T+'sequence.rs'; U=T+'tuple.rs'; VA=T+'variant.rs'; B=T+'bit_sequence.rs'; ST=T+'str.rs'
L='scale-decode/src/lib.rs'
ER='scale-decode/src/error/mod.rs'; CX='scale-decode/src/error/context.rs'
F='scale-decode-derive/src/lib.rs'
MUT=[
# C01
('m5-bits-after-cached-only',D,"        let bytes_after = bitseq.bytes_after();\n        if let Ok(bytes_after) = bytes_after {","        let bytes_after = bitseq.bytes_after();\n        if let (Ok(bytes_after), true) = (&bytes_after, res.is_ok()) {\n            let bytes_after = *bytes_after;"),
('m5-skip-only-ok',D,"        let skip_res = $visitor_ty.skip_decoding();\n        if skip_res.is_ok() {","        let skip_res = $visitor_ty.skip_decoding();\n        if skip_res.is_ok() && $visit_result.is_err() {"),
('m5-fields-noskip',I,"                let skip_res = composite.skip_decoding();\n                if skip_res.is_ok() {","                let skip_res = if composite.remaining() > 16 { Ok(()) } else { composite.skip_decoding() };\n                if skip_res.is_ok() {"),
('m5-empty-seq-advance',D,"        let mut items = Sequence::new(self.data, inner_type_id, self.types)?;\n","        let mut items = Sequence::new(self.data, inner_type_id, self.types)?;\n        if items.remaining() == 0 {\n            return self.visitor.visit_sequence(&mut items, self.type_id);\n        }\n"),
('m5-256-31',D,"            *data = &data[32..];","            *data = &data[arr.len().min(data.len() - 1)..];"),
('m5-str-before',D,"                *data = s.bytes_after()?;\n","                if !s.is_empty() {\n                    *data = s.bytes_after()?;\n                }\n"),
# C02
('m5-map-ignore',I,"value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;","let _ = value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose();"),
('m5-skip-res-flat',D,"            (_, Err(e)) => Err(e.into()),\n            (Ok(v), _) => Ok(v),\n        }\n    }};","            (Ok(v), Err(DecodeError::NotEnoughInput)) => Ok(v),\n            (_, Err(e)) => Err(e.into()),\n            (Ok(v), _) => Ok(v),\n        }\n    }};"),
('m5-map-last-err',I,"            let val = val.map_err(|e| e.at_field(key.to_owned()))?;\n            map.insert(key.to_owned(), val);","            let val = match val.map_err(|e| e.at_field(key.to_owned())) {\n                Ok(val) => val,\n                Err(_) if value.remaining() == 0 && !map.is_empty() => break,\n                Err(e) => return Err(e),\n            };\n            map.insert(key.to_owned(), val);"),
('m5-array-skip-err',A,"            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;","            if self.decode_item(IgnoreVisitor::<R>::new()).transpose().is_err() {\n                break;\n            }"),
# C03
('m5-tuple-remaining',U,"        self.fields.len() - self.next_field_idx","        self.fields.len().min(16) - self.next_field_idx.min(16)"),
('m5-composite-err-continue',C,"            // Otherwise, skip to end to prevent any future iterations:\n            self.next_field_idx = self.fields.len()","            // Otherwise, skip to end to prevent any future iterations:\n            self.next_field_idx = self.fields.len() - 1"),
('m5-tuple-err-len',U,"            self.next_field_idx = self.fields.len()","            self.next_field_idx += 1"),
('m5-as-tuple-compact',C,"            self.types,\n            self.is_compact,\n        )\n    }\n    /// Return the name of the next","            self.types,\n            self.is_compact && self.next_field_idx == 0,\n        )\n    }\n    /// Return the name of the next"),
('m5-as-tuple-start',C,"            self.item_bytes,\n            &mut self.fields.iter()","            self.bytes,\n            &mut self.fields.iter()"),
('m5-peek-prev',C,"self.fields.get(self.next_field_idx).and_then(|f| f.name)","self.fields[self.next_field_idx..].iter().find_map(|f| f.name)"),
('m5-empty-1',A,"        self.remaining == 0\n    }","        self.remaining == 0 || self.item_bytes.is_empty()\n    }"),
('m5-array-end-empty',A,"        if self.remaining == 0 {\n            return None;\n        }","        if self.remaining == 0 || self.item_bytes.is_empty() {\n            return None;\n        }"),
('m5-variant-undecoded',VA,"        self.fields.bytes_from_undecoded()\n    }\n    /// The name","        if self.fields.remaining() == 0 { self.fields.bytes_from_undecoded() } else { self.fields.bytes_from_start() }\n    }\n    /// The name"),
('m5-seq-start',S,"        self.bytes\n    }\n    /// The bytes that have not","        self.values.bytes_from_start()\n    }\n    /// The bytes that have not"),
# C04
('m5-field-clone-compact',C,"            is_compact: self.is_compact,\n            field: self.field.clone(),","            is_compact: self.is_compact && self.field.name.is_none(),\n            field: self.field.clone(),"),
('m5-field-bytes-long',C,"&item_bytes[..num_bytes_before - num_bytes_after];","&item_bytes[..(num_bytes_before - num_bytes_after).max(1).min(num_bytes_before)];"),
('m5-item-bytes-all',A,"let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];","let res_bytes = if self.remaining == 0 { item_bytes } else { &item_bytes[..num_bytes_before - num_bytes_after] };"),
('m5-tuplefield-compact',U,"        crate::visitor::decode_with_visitor_maybe_compact(\n            &mut &*self.bytes,\n            self.type_id.clone(),\n            self.types,\n            visitor,\n            self.is_compact,\n        )","        crate::visitor::decode_with_visitor_maybe_compact(\n            &mut &*self.bytes,\n            self.type_id.clone(),\n            self.types,\n            visitor,\n            self.is_compact && self.bytes.len() > 1,\n        )"),
# C05
('m5-compact-arr',D,"        if self.is_compact {\n            return Err(DecodeError::CannotDecodeCompactIntoType.into());\n        }\n\n        let mut arr","        if self.is_compact && len != 1 {\n            return Err(DecodeError::CannotDecodeCompactIntoType.into());\n        }\n\n        let mut arr"),
('m5-compact-tuple-0',D,"        if self.is_compact && type_ids.len() != 1 {","        if self.is_compact && type_ids.len() > 1 {"),
('m5-compact-i8',D,"            Primitive::I8 => {\n                err_if_compact!(is_compact);\n","            Primitive::I8 => {\n                err_if_compact!(is_compact && data.len() > 1);\n"),
('m5-compact-cow',I,"            <<T as ToOwned>::Owned>::into_visitor(),\n            is_compact,","            <<T as ToOwned>::Owned>::into_visitor(),\n            is_compact && input.len() > 1,"),
('m5-compact-hook-drop',V,"decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)","decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact && !input.is_empty())"),
('m5-compact-order',D,"        if self.is_compact {\n            return Err(DecodeError::CannotDecodeCompactIntoType.into());\n        }\n\n        let mut items = Sequence::new(self.data, inner_type_id, self.types)?;","        let mut items = Sequence::new(self.data, inner_type_id, self.types)?;\n        if self.is_compact {\n            return Err(DecodeError::CannotDecodeCompactIntoType.into());\n        }\n"),
('m5-compact-u64',D,"codec::Compact::<u64>::decode(data).map(|c| c.0)","codec::Compact::<u32>::decode(data).map(|c| c.0 as u64)"),
# C06
('m5-i32-i16',D,"                let n = i32::decode(data).map_err(|e| e.into())?;","                let n = if data.len() == 2 { i16::decode(data).map(i32::from) } else { i32::decode(data) }.map_err(|e| e.into())?;"),
('m5-bool-lenient',D,"let b = bool::decode(data).map_err(|e| e.into())?;","let b = u8::decode(data).map_err(|e| e.into())? != 0;"),
('m5-variant-typeid',D,"            Primitive::U128 => {\n","            Primitive::U128 if !is_compact && data.len() == 15 => visitor.visit_unexpected(crate::visitor::Unexpected::U128),\n            Primitive::U128 => {\n"),
('m5-variant-index',VA,"variants.find(|v| v.index == index)","variants.find(|v| v.index & 0x7f == index & 0x7f)"),
('m5-variant-idx-name',VA,"Ok(Variant { bytes, variant_index: index, variant_name: variant.name, fields })","Ok(Variant { bytes, variant_index: index & 0x7f, variant_name: variant.name, fields })"),
('m5-i256-u256',D,"visitor.visit_i256(arr, type_id)","if arr[31] & 0x80 == 0 { visitor.visit_u256(arr, type_id) } else { visitor.visit_i256(arr, type_id) }"),
# C07
('m5-unexp-tuple',I,"return self.visit_unexpected($crate::visitor::Unexpected::Tuple);","return self.visit_unexpected($crate::visitor::Unexpected::Composite);"),
('m5-phantom',I,"            self.visit_unexpected(visitor::Unexpected::Tuple)","            self.visit_unexpected(visitor::Unexpected::Composite)"),
# C08
('m5-isize-as',I,"visit_number_impl!(isize where |res| res.try_into().ok());","visit_number_impl!(isize where |res| i64::try_from(res).ok().map(|n| n as isize));"),
('m5-nzi8',I,"visit_number_impl!(NonZeroI8 where |res| res.try_into().ok().and_then(NonZeroI8::new));","visit_number_impl!(NonZeroI8 where |res| i16::try_from(res).ok().and_then(|n| NonZeroI8::new(n as i8)));"),
('m5-nz-zero',I,"visit_number_impl!(NonZeroU64 where |res| res.try_into().ok().and_then(NonZeroU64::new));","visit_number_impl!(NonZeroU64 where |res| res.try_into().ok().map(|n: u64| NonZeroU64::new(n).unwrap_or(NonZeroU64::MIN)));"),
('m5-range-value',I,"Error::new(ErrorKind::NumberOutOfRange { value: value.to_string() })\n            })?;\n            Ok(n)","Error::new(ErrorKind::NumberOutOfRange { value: (value as i64).to_string() })\n            })?;\n            Ok(n)"),
('m5-seq-len-u32',S,"let len = usize::try_from(len)","let len = usize::try_from(len as u32)"),
('m5-duration-sat',I,"Duration::from_secs(res.0).checked_add(Duration::from_nanos(res.1 as u64)).ok_or_else(|| {\n        Error::new(ErrorKind::NumberOutOfRange { value: res.0.to_string() })\n    })","Ok(Duration::from_secs(res.0).saturating_add(Duration::from_nanos(res.1 as u64)))"),
# C09
('m5-arr-trunc',I,"        let actual_len = val.len();\n        let arr = val","        let actual_len = val.len();\n        let mut val = val;\n        if actual_len > 32 && $n == 32 { val.truncate($n); }\n        let arr = val"),
('m5-hash-pad',P,".map(|res| <$ty>::from(res));",".map(|res| <$ty>::from(res));\n                let res = match res { Err(e) if matches!(e.kind(), crate::error::ErrorKind::WrongLength { actual_len: 0, .. }) => Ok(<$ty>::zero()), r => r };"),
('m5-none-any',I,"value.name() == \"None\" && value.fields().remaining() == 0","value.name() == \"None\""),
('m5-err-any',I,"value.name() == \"Err\" && value.fields().remaining() == 1","value.name() == \"Err\" && value.fields().remaining() >= 1"),
('m5-wronglen-swap',I,"ErrorKind::WrongLength { actual_len, expected_len: $n }","ErrorKind::WrongLength { actual_len: actual_len.min($n), expected_len: $n }"),
# C10
('m5-some-lower',I,"value.name() == \"Some\"","value.name().eq_ignore_ascii_case(\"Some\")"),
('m5-ok-index',I,"value.name() == \"Ok\"","(value.name() == \"Ok\" || value.index() == 0)"),
('m5-result-got',I,"                got: value.name().to_string(),\n                expected: vec![\"Ok\", \"Err\"],","                got: value.index().to_string(),\n                expected: vec![\"Ok\", \"Err\"],"),
# C12
('m5-wrap-empty',I,"            if value.remaining() != 1 {\n                return self.visit_unexpected($crate::visitor::Unexpected::Composite);","            if value.fields().len() != 1 || value.peek_name() == Some(\"_0\") {\n                return self.visit_unexpected($crate::visitor::Unexpected::Composite);"),
('m5-1tuple-arr',I,"                        UnhandledKind::Composite\n                        | UnhandledKind::Tuple\n","                        UnhandledKind::Composite\n                        | UnhandledKind::Array\n                        | UnhandledKind::Tuple\n"),
# C13
('m5-range-swap',I,"|res: (T,T)| res.0..=res.1","|res: (T,T)| res.1..=res.0"),
('m5-dur-nanos',I,"Duration::from_nanos(res.1 as u64)","Duration::from_nanos((res.1 % 1_000_000_000) as u64)"),
('m5-crateerr-fresh',V,"            .map_err(Into::into);\n        DecodeAsTypeResult::Decoded(res)","            .map_err(Into::into)\n            .map_err(|e: crate::Error| e.at_idx(0));\n        DecodeAsTypeResult::Decoded(res)"),
# C14
('m5-bits-slice',B,"            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)","            Ok(&self.bytes[decoder.encoded_size()..])"),
('m5-str-add',ST,"            .get(self.compact_len..)\n            .and_then(|bytes| bytes.get(self.len..))","            .get(self.compact_len + self.len..)"),
('m5-arr-dec',A,"        self.remaining -= 1;","        self.remaining -= 1 + usize::from(res.is_err() && self.remaining > 7);"),
('m5-name-idx',C,"self.path.iter().last().copied()","self.path.get(self.path.len() - 1).copied()"),
# C15
('m5-vec-cap',I,"let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;","let mut val = Vec::with_capacity($value.remaining());\n        for item in decode_items_using::<_, _, $t>($value) { val.push(item?); }"),
('m5-str-own',ST,"        alloc::str::from_utf8(bytes).map_err(DecodeError::InvalidStr)","        if alloc::string::String::from_utf8(bytes.to_vec()).is_err() && bytes.len() > 64 {\n            return Err(DecodeError::NotEnoughInput);\n        }\n        alloc::str::from_utf8(bytes).map_err(DecodeError::InvalidStr)"),
# C16
('m5-at-order',ER,"        self.context.push(Location::field(field));\n        Error { context: self.context, kind: self.kind }","        let field = field.into();\n        if !self.context.path().locations().any(|l| l == &Location::field(field.clone())) {\n            self.context.push(Location::field(field));\n        }\n        Error { context: self.context, kind: self.kind }"),
('m5-path-skip',CX,"            if idx != 0 {\n                f.write_str(\".\")?;","            if idx != 0 && !matches!(loc.inner, Loc::Index(_)) {\n                f.write_str(\".\")?;"),
('m5-path-max',CX,"for (idx, loc) in self.0.iter().enumerate() {","for (idx, loc) in self.0.iter().enumerate().take(32) {"),
('m5-display-kind',ER,"        write!(f, \"Error at {path}: {kind}\")","        if self.context.path().locations().next().is_none() { return write!(f, \"Error\"); }\n        write!(f, \"Error at {path}: {kind}\")"),
('m5-items-idx',I,"        idx += 1;\n        item","        if item.is_some() { idx = (idx + 1) % 1024; }\n        item"),
# C17
('m5-char-repl',D,"char::from_u32(val).ok_or(DecodeError::InvalidChar(val))?","if val == 0xFFFF_FFFF { char::REPLACEMENT_CHARACTER } else { char::from_u32(val).ok_or(DecodeError::InvalidChar(val))? }"),
('m5-str-len-full',ST,"        self.len\n    }","        self.len.min(self.bytes.len())\n    }"),
('m5-string-nul',I,"let s = value.as_str()?.to_owned();","let s = value.as_str()?.trim_end_matches('\\0').to_owned();"),
# C20
('m5-set-dup',I,"impl_decode_seq_via_collect!(VecDeque<T>);","impl_decode_seq_via_collect!(VecDeque<T>);\n"),
('m5-map-or',I,"            map.insert(key.to_owned(), val);","            map.entry(key.trim_start_matches('_').to_owned()).or_insert(val);"),
('m5-map-break',I,"                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;\n                continue;","                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;\n                if map.len() > 8 { break; }\n                continue;"),
# C22
('m5-hook-data',D,"        DecodeAsTypeResult::Decoded(r) => return r,\n","        DecodeAsTypeResult::Decoded(Ok(r)) => return Ok(r),\n        DecodeAsTypeResult::Decoded(Err(e)) => { *data = &data[data.len()..]; return Err(e); }\n"),
('m5-map-skipped',V,"            DecodeAsTypeResult::Skipped(s) => DecodeAsTypeResult::Skipped(f(s)),\n","            DecodeAsTypeResult::Skipped(s) => DecodeAsTypeResult::Skipped(f(s)),\n"),
# C23
('m5-notfound-id',D,"Err(DecodeError::TypeIdNotFound(format!(\"{type_id:?}\")).into())","Err(DecodeError::TypeIdNotFound(format!(\"{:?}\", core::any::type_name_of_val(&type_id))).into())"),
('m5-resolve-msg',D,"Err(DecodeError::TypeResolvingError(resolve_type_error.to_string()).into())","{ let mut m = resolve_type_error.to_string(); m.truncate(64); Err(DecodeError::TypeResolvingError(m).into()) }"),
('m5-unhandled',D,"            \"Kind {kind:?} (type ID {type_id:?}) has not been properly handled\"\n","            \"Kind {kind:?} (type ID {kind:?}) has not been properly handled, {}\", core::mem::size_of_val(&type_id)\n"),
('m5-variant-nf',VA,"ok_or(DecodeError::VariantNotFound(index))?","ok_or(DecodeError::VariantNotFound(index & 0x7f))?"),
# C24
('m5-bits-order',D,"scale_bits::Format::new(store_format, order_format)","scale_bits::Format::new(store_format, if store_format == BitsStoreFormat::U8 { order_format } else { BitsOrderFormat::Lsb0 })"),
('m5-bits-cache',B,"        if let Some(bytes_after) = self.bytes_after {\n            Ok(bytes_after)","        if let Some(bytes_after) = self.bytes_after.or((self.bytes == [0]).then_some(self.bytes)) {\n            Ok(bytes_after)"),
]
