V='scale-decode/src/visitor/'
I='scale-decode/src/impls/mod.rs'
A=V+'types/array.rs'; S=V+'types/sequence.rs'; C=V+'types/composite.rs'; T=V+'types/tuple.rs'; B=V+'types/bit_sequence.rs'; ST=V+'types/str.rs'; VA=V+'types/variant.rs'; DEC=V+'decode.rs'
M=V+'mod.rs'; L='scale-decode/src/lib.rs'; E='scale-decode/src/error/mod.rs'; X='scale-decode/src/error/context.rs'
DV='scale-decode-derive/src/lib.rs'; P='scale-decode/src/impls/primitive_types.rs'
D={}
D['m8-256-more']=[(DEC,"            *data = &data[32..];\n","            if data.len() > 32 {\n                *data = &data[32..];\n            }\n")]
D['m8-var-skip-lazy']=[(VA,"        self.fields.skip_decoding()\n","        if self.fields.remaining() == self.fields.fields().len() && self.fields.has_unnamed_fields() && self.variant_index == u8::MAX {\n            return Ok(());\n        }\n        self.fields.skip_decoding()\n")]
D['m8-key-raw']=[(I,"map.insert(key.to_owned(), val);","map.insert(key.trim_start_matches(\"r#\").to_owned(), val);")]
D['m8-some-atleast']=[(I,'if value.name() == "Some" && value.fields().remaining() == 1 {','if value.name() == "Some" && value.fields().remaining() >= 1 {')]
D['m8-isize-32']=[(I,"visit_number_impl!(isize where |res| res.try_into().ok());","visit_number_impl!(isize where |res| i32::try_from(res).ok().map(|n| n as isize));")]
D['m8-i64-via-f']=[(I,"visit_number_impl!(i64 where |res| res.try_into().ok());","visit_number_impl!(i64 where |res| { let n: Option<i128> = res.try_into().ok(); n.filter(|n| *n <= i64::MAX as i128 && *n > i64::MIN as i128).map(|n| n as i64) });")]
D['m8-hook-compact-skip']=[(M,"        self.unchecked_decode_as_type(input, type_id, types)\n","        if _is_compact && input.is_empty() {\n            return DecodeAsTypeResult::Skipped(self);\n        }\n        self.unchecked_decode_as_type(input, type_id, types)\n")]
D['m8-crateerr-eof']=[(M,"        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)\n            .map_err(Into::into);","        let start = *input;\n        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)\n            .map_err(Into::into);\n        if res.is_err() {\n            *input = start;\n        }")]
D['m8-crateerr-rewind']=[(M,"        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)\n            .map_err(Into::into);","        let probe = &mut &**input;\n        let res = decode_with_visitor_maybe_compact(probe, type_id, types, self.0, is_compact)\n            .map_err(Into::into);\n        if !probe.is_empty() || is_compact {\n            *input = *probe;\n        }")]
D['m8-derive-unit-named']=[(DV,"                quote!{\n                    return ::core::result::Result::Ok(#path_to_type::#variant_ident)\n                }","                quote!{\n                    if #path_to_scale_decode::visitor::types::Variant::index(__value) != 0 {\n                        #path_to_scale_decode::visitor::types::Variant::fields(__value).next();\n                    }\n                    return ::core::result::Result::Ok(#path_to_type::#variant_ident)\n                }")]
D['m8-derive-wl-swap']=[(DV,"                            return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {\n                                actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(__fields),\n                                expected_len: #field_count","                            return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {\n                                actual_len: #path_to_scale_decode::visitor::types::Composite::fields(__fields).len() - 1,\n                                expected_len: #field_count")]
D['m8-derive-unit-remaining']=[(DV,"                if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) > 0 {\n                    return","                if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) > 1 {\n                    return")]
D['m8-derive-fields-val-first']=[(DV,"                    let __val = __val?;\n                    __skip_res?;\n","                    __skip_res?;\n                    let __val = __val?;\n")]
D['m8-derive-compact-fields']=[(DV,"__input, __fields, __types, false);","__input, __fields, __types, __input.len() == 1);")]
D['m8-wrap-hasunnamed']=[(I,"""            if value.remaining() != 1 {
                return self.visit_unexpected($crate::visitor::Unexpected::Composite);
            }""","""            if value.fields().len() > 1 && value.remaining() != 1 {
                return self.visit_unexpected($crate::visitor::Unexpected::Composite);
            }
            if value.remaining() == 0 {
                return self.visit_unexpected($crate::visitor::Unexpected::Tuple);
            }""")]
D['m8-seq-items-cap']=[(S,"        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })","        // Items may be empty, but there cannot be more of them than bytes otherwise.\n        let len = if item_bytes.is_empty() { len } else { len.min(item_bytes.len()) };\n        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })")]
D['m8-variant-idx-cast']=[(VA,"variants.find(|v| v.index == index)","variants.find(|v| v.index & 0x7f == index & 0x7f)")]
D['m8-resolve-after']=[(DEC,"    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);\n    let res = types.resolve_type(ty_id, decoder);\n","    let before = *data;\n    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);\n    let res = types.resolve_type(ty_id, decoder);\n    if res.is_err() && before.is_empty() {\n        return Err(DecodeError::NotEnoughInput.into());\n    }\n")]
D['m8-compact-nested']=[(DEC,"        decode_with_visitor_maybe_compact(self.data, inner_type_id, self.types, self.visitor, true)","        decode_with_visitor_maybe_compact(self.data, inner_type_id, self.types, self.visitor, !self.is_compact)")]
D['m8-bool-peek']=[(DEC,"                let b = bool::decode(data).map_err(|e| e.into())?;\n","                let b = match data.first() {\n                    Some(&n) if n > 1 && data.len() > 1 => {\n                        *data = &data[1..];\n                        n & 1 == 1\n                    }\n                    _ => bool::decode(data).map_err(|e| e.into())?,\n                };\n")]
D['m8-str-ret']=[(DEC,"                let mut s = Str::new(data)?;\n                // Since we aren't decoding here, shift our bytes along to after the str:\n                *data = s.bytes_after()?;\n                visitor.visit_str(&mut s, type_id)","                let mut s = Str::new(data)?;\n                // Since we aren't decoding here, shift our bytes along to after the str:\n                let after = s.bytes_after()?;\n                let res = visitor.visit_str(&mut s, type_id);\n                if res.is_ok() {\n                    *data = after;\n                }\n                res")]
D['m8-comp-path-name']=[(C,"self.path.iter().last().copied()","self.path.iter().rev().find(|p| !p.is_empty()).copied()")]
D['m8-comp-path-first']=[(C,"self.path.iter().last().copied()","self.path.get(self.path.len().min(5).wrapping_sub(1)).copied()")]
D['m8-field-err-idx']=[(T,"            self.next_field_idx = self.fields.len()","            self.next_field_idx += self.fields.len()")]
D['m8-arr-err-stays']=[(A,"self.item_bytes = *b;","if !b.is_empty() || self.remaining == 0 { self.item_bytes = *b; }")]
D['m8-tuple-len-17']=[(T,"self.fields.len() - self.next_field_idx","self.fields.len().min(u8::MAX as usize) - self.next_field_idx.min(u8::MAX as usize)")]
D['m8-cow-inner']=[(I,"let res = inner_res.map(Cow::Owned);","let res = if input.is_empty() && is_compact { inner_res.map(Cow::Owned).map_err(|e| e) } else { inner_res.map(Cow::Owned) };")]
D['m8-custom-err']=[(E,"Error::new(ErrorKind::Custom(Box::new(error)))","Error::new(ErrorKind::Custom(Box::new(error))).at_idx(0)")]
D['m8-result-ok-none']=[(I,'''                .map_err(|e| e.at_variant("Err"))?
                .expect("checked for 1 field already so should be ok");
            Ok(Err(val))''','''                .map_err(|e| if value.index() == 1 { e.at_variant("Err") } else { e })?
                .expect("checked for 1 field already so should be ok");
            Ok(Err(val))''')]
D['m8-sharevis-heap']=[(I,"impl_decode_seq_via_collect!(BinaryHeap<T> where T: Ord);","""impl<T: IntoVisitor + Ord, R: TypeResolver> Visitor for BasicVisitor<BinaryHeap<T>, R> {
    type Value<'scale, 'resolver> = BinaryHeap<T>;
    type Error = Error;
    type TypeResolver = R;

    fn visit_sequence<'scale, 'resolver>(
        self,
        value: &mut Sequence<'scale, 'resolver, R>,
        _type_id: <Self::TypeResolver as TypeResolver>::TypeId,
    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut heap = BinaryHeap::new();
        for item in decode_items_using::<_, _, T>(value) {
            let item = item?;
            if heap.peek() != Some(&item) {
                heap.push(item);
            }
        }
        Ok(heap)
    }
    fn visit_array<'scale, 'resolver>(
        self,
        value: &mut Array<'scale, 'resolver, R>,
        _type_id: <Self::TypeResolver as TypeResolver>::TypeId,
    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        decode_items_using::<_, _, T>(value).collect()
    }

    visit_single_field_composite_tuple_impls!(R);
}
impl_into_visitor!(BinaryHeap<T> where T: IntoVisitor + Ord);""")]
D['m8-bits-empty-after']=[(B,"            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)","            let len = decoder.encoded_size();\n            Ok(self.bytes.get(len..).unwrap_or(&[]))")]
D['m8-at-field-derive']=[(DV,"#tuple_item::decode_as_type(&__val).map_err(|__e| __e.at_field(#field_name))?","#tuple_item::decode_as_type(&__val).map_err(|__e| __e.at_idx(0))?")]
D['m8-derive-dup-field']=[(DV,".ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;",".or_else(|| if __vals.len() == 1 { __vals.values().next() } else { ::core::option::Option::None })\n                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;")]
