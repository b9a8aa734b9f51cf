V='scale-decode/src/visitor/'
I='scale-decode/src/impls/mod.rs'
A=V+'types/array.rs'; S=V+'types/sequence.rs'; C=V+'types/composite.rs'; T=V+'types/tuple.rs'; B=V+'types/bit_sequence.rs'; ST=V+'types/str.rs'; VA=V+'types/variant.rs'; DEC=V+'decode.rs'
M=V+'mod.rs'; L='scale-decode/src/lib.rs'; E='scale-decode/src/error/mod.rs'; X='scale-decode/src/error/context.rs'; F='scale-decode-derive/src/lib.rs'
D={}
# derive: the map of named fields is made by a loop with an entry
D['b6-dv-loop-match']=[(F,"""                    let __vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
                        ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
                            ::core::iter::Iterator::map(__value, |__res| __res.map(|__item| (#path_to_scale_decode::visitor::types::CompositeField::name(&__item), __item)))
                        )?;
""","""                    let mut __vals = #path_to_scale_decode::BTreeMap::new();
                    loop {
                        match ::core::iter::Iterator::next(__value) {
                            ::core::option::Option::Some(::core::result::Result::Ok(__item)) => {
                                let __name: ::core::option::Option<&::core::primitive::str> = #path_to_scale_decode::visitor::types::CompositeField::name(&__item);
                                __vals.insert(__name, __item);
                            }
                            ::core::option::Option::Some(::core::result::Result::Err(__e)) => return ::core::result::Result::Err(::core::convert::From::from(__e)),
                            ::core::option::Option::None => break,
                        }
                    }
""")]
D['b6-dv-remaining-let']=[(F,"""                    if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) != #field_count {
                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(__value), expected_len: #field_count }));
                    }

                    let __vals = __value;

                    ::core::result::Result::Ok(#path_to_type { #(#field_tuple_keyvals),* })
""","""                    let __actual = #path_to_scale_decode::visitor::types::Tuple::remaining(__value);
                    match __actual {
                        #field_count => {
                            let __vals = __value;
                            ::core::result::Result::Ok(#path_to_type { #(#field_tuple_keyvals),* })
                        }
                        __actual => ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: __actual, expected_len: #field_count })),
                    }
""")]
D['b6-dv-enum-one-match']=[(F,"""                    if #path_to_scale_decode::visitor::types::Composite::remaining(__value) != 1 {
                        return #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Composite);
                    }
                    #path_to_scale_decode::visitor::types::Composite::decode_item(__value, self).unwrap()
""","""                    match #path_to_scale_decode::visitor::types::Composite::remaining(__value) {
                        1 => match #path_to_scale_decode::visitor::types::Composite::decode_item(__value, self) {
                            ::core::option::Option::Some(__res) => __res,
                            ::core::option::Option::None => ::core::unreachable!(),
                        },
                        _ => #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Composite),
                    }
""")]
D['b6-dv-getor']=[(F,"""                let __val = #path_to_scale_decode::BTreeMap::get(&__vals, &::core::option::Option::Some(#field_name))
                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
                #path_to_scale_decode::visitor::types::CompositeField::decode_as_type(__val).map_err(|__e| __e.at_field(#field_name))?
""","""                match #path_to_scale_decode::BTreeMap::get(&__vals, &::core::option::Option::Some(#field_name)) {
                    ::core::option::Option::None => return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField {
                        name: ::core::convert::From::from(#field_name)
                    })),
                    ::core::option::Option::Some(__val) => match #path_to_scale_decode::visitor::types::CompositeField::decode_as_type(__val) {
                        ::core::result::Result::Ok(__ok) => __ok,
                        ::core::result::Result::Err(__e) => return ::core::result::Result::Err(#path_to_scale_decode::Error::at_field(__e, #field_name)),
                    },
                }
""")]
D['b6-dv-visitor-decode']=[(F,"""#tuple_item::decode_as_type(&__val).map_err(|__e| __e.at_idx(#idx))?
""","""let __decoded = #tuple_item::decode_as_type(&__val);
                __decoded.map_err(|__e| #path_placeholder __e.at_idx(#idx))?
""".replace('#path_placeholder ',''))]
D['b6-dv-skipres']=[(F,"""                    if ::core::result::Result::is_ok(&__skip_res) {
                        *__input = #path_to_scale_decode::visitor::types::Composite::bytes_from_undecoded(&__composite);
                    }
""","""                    if let ::core::result::Result::Ok(()) = __skip_res {
                        let __rest = #path_to_scale_decode::visitor::types::Composite::bytes_from_undecoded(&__composite);
                        *__input = __rest;
                    }
""")]
D['b6-dv-names-const']=[(F,"""                    ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
                        got: #path_to_scale_decode::ToString::to_string(#path_to_scale_decode::visitor::types::Variant::name(__value)),
                        expected: #path_to_scale_decode::vec![#(#variant_names),*]
                    }))
""","""                    let __got = #path_to_scale_decode::visitor::types::Variant::name(__value);
                    let __kind = #path_to_scale_decode::error::ErrorKind::CannotFindVariant {
                        expected: #path_to_scale_decode::vec![#(#variant_names),*],
                        got: #path_to_scale_decode::ToString::to_string(__got),
                    };
                    ::core::result::Result::Err(#path_to_scale_decode::Error::new(__kind))
""")]
# library
D['b6-context-extend']=[(X,"        self.path.push(loc);","        self.path.extend(core::iter::once(loc));")]
D['b6-context-insert']=[(X,"        self.path.push(loc);","        let at = self.path.len();\n        self.path.insert(at, loc);")]
D['b6-path-slice']=[(X,"        for (idx, loc) in self.0.iter().enumerate() {\n            if idx != 0 {\n                f.write_str(\".\")?;\n            }\n","        let mut first = true;\n        for loc in self.locations() {\n            if !first {\n                f.write_str(\".\")?;\n            }\n            first = false;\n")]
D['b6-at-chain']=[(E,"""    pub fn at_idx(mut self, idx: usize) -> Self {
        self.context.push(Location::idx(idx));
        Error { context: self.context, kind: self.kind }
    }""","""    pub fn at_idx(self, idx: usize) -> Self {
        self.at(Location::idx(idx))
    }"""),(E,"""    pub fn at_field(mut self, field: impl Into<Cow<'static, str>>) -> Self {
        self.context.push(Location::field(field));
        Error { context: self.context, kind: self.kind }
    }""","""    pub fn at_field(self, field: impl Into<Cow<'static, str>>) -> Self {
        let Error { mut context, kind } = self;
        context.push(Location::field(field));
        Error { context, kind }
    }""")]
D['b6-arr-helper']=[(I,"""        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;
        let actual_len = val.len();
        let arr = val
            .try_into()
            .map_err(|_e| Error::new(ErrorKind::WrongLength { actual_len, expected_len: $n }))?;
        Ok(arr)
""","""        let mut val: Vec<$t> = Vec::new();
        for item in decode_items_using::<_, _, $t>($value) {
            val.push(item?);
        }
        let actual_len = val.len();
        match <[$t; $n]>::try_from(val) {
            Ok(arr) => Ok(arr),
            Err(_) => Err(Error::new(ErrorKind::WrongLength { actual_len, expected_len: $n })),
        }
""")]
D['b6-map-peek-match']=[(I,"""            let Some(key) = value.peek_name() else {
                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;
                continue;
            };
            // Decode the value now that we have a valid name.
            let Some(val) = value.decode_item(T::into_visitor::<R>()) else { break };
            // Save to the map.
            let val = val.map_err(|e| e.at_field(key.to_owned()))?;
            map.insert(key.to_owned(), val);
""","""            match value.peek_name() {
                None => {
                    if let Some(res) = value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()) {
                        res?;
                    }
                }
                Some(key) => {
                    let key = key.to_owned();
                    match value.decode_item(T::into_visitor::<R>()) {
                        Some(Ok(val)) => {
                            map.insert(key, val);
                        }
                        Some(Err(e)) => return Err(e.at_field(key)),
                        None => break,
                    }
                }
            }
""")]
D['b6-number-early']=[(I,"""            let $res = value;
            let n = $expr.ok_or_else(|| {
                Error::new(ErrorKind::NumberOutOfRange { value: value.to_string() })
            })?;
            Ok(n)
""","""            let $res = value;
            if let Some(n) = $expr {
                return Ok(n);
            }
            let value = value.to_string();
            Err(Error::new(ErrorKind::NumberOutOfRange { value }))
""")]
D['b6-option-helper']=[(I,"""        if value.name() == "Some" && value.fields().remaining() == 1 {
            let val = value
                .fields()
                .decode_item(T::into_visitor::<R>())
                .transpose()
                .map_err(|e| e.at_variant("Some"))?
                .expect("checked for 1 field already so should be ok");
            Ok(Some(val))
        } else if value.name() == "None" && value.fields().remaining() == 0 {
            Ok(None)
        } else {
""","""        let num_fields = value.fields().remaining();
        let name = value.name();
        if name == "None" && num_fields == 0 {
            return Ok(None);
        }
        if name == "Some" && num_fields == 1 {
            let Some(res) = value.fields().decode_item(T::into_visitor::<R>()) else {
                unreachable!("checked for 1 field already so should be ok")
            };
            res.map(Some).map_err(|e| e.at_variant("Some"))
        } else {
""")]
D['b6-tuple-take']=[(T,"""        // Now, decode and skip over the item we're going to hand back:
        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {
            return Some(Err(e));
        };

        // How many bytes did we skip over? What bytes represent the thing we decoded?
        let num_bytes_after = self.item_bytes.len();
        let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];

        Some(Ok(TupleField {
            bytes: res_bytes,
            type_id: field.id,
            types: self.types,
            is_compact: self.is_compact,
        }))
""","""        let res = self.decode_item(IgnoreVisitor::<R>::new())?;
        let used = num_bytes_before - self.item_bytes.len();
        Some(res.map(|()| TupleField {
            bytes: item_bytes.split_at(used).0,
            type_id: field.id,
            types: self.types,
            is_compact: self.is_compact,
        }))
""")]
D['b6-com-guard']=[(C,"""        let field = self.fields.get(self.next_field_idx)?;
        let b = &mut &*self.item_bytes;

        // Decode the bytes:
        let res = crate::visitor::decode_with_visitor_maybe_compact(
            b,
            field.id.clone(),
            self.types,
            visitor,
            self.is_compact,
        );

        if res.is_ok() {
            // Move our cursors forwards only if decode was OK:
            self.item_bytes = *b;
            self.next_field_idx += 1;
        } else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()
        }

        Some(res)
""","""        if self.remaining() == 0 {
            return None;
        }
        let type_id = self.fields[self.next_field_idx].id.clone();
        let mut cursor = self.item_bytes;
        let res = crate::visitor::decode_with_visitor_maybe_compact(
            &mut cursor,
            type_id,
            self.types,
            visitor,
            self.is_compact,
        );
        match &res {
            Ok(_) => {
                self.next_field_idx += 1;
                self.item_bytes = cursor;
            }
            Err(_) => self.next_field_idx = self.fields.len(),
        }
        Some(res)
""")]
D['b6-seq-new-maperr']=[(S,"""        let len = <Compact<u64>>::decode(item_bytes)?.0;
        let len = usize::try_from(len)
            .map_err(|_| codec::Error::from("sequence length does not fit into usize"))?;
""","""        let Compact(len) = Compact::<u64>::decode(item_bytes)?;
        let Ok(len) = usize::try_from(len) else {
            return Err(codec::Error::from("sequence length does not fit into usize").into());
        };
""")]
D['b6-str-range']=[(ST,"""    pub fn bytes_after(&self) -> Result<&'scale [u8], DecodeError> {
        self.bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(self.len..))
            .ok_or(DecodeError::NotEnoughInput)
    }""","""    pub fn bytes_after(&self) -> Result<&'scale [u8], DecodeError> {
        let end = self.compact_len.checked_add(self.len).ok_or(DecodeError::NotEnoughInput)?;
        self.bytes.get(end..).ok_or(DecodeError::NotEnoughInput)
    }""")]
D['b6-variant-position']=[(VA,"""        let mut variant =
            variants.find(|v| v.index == index).ok_or(DecodeError::VariantNotFound(index))?;
""","""        let mut found = None;
        while let Some(v) = variants.next() {
            if v.index == index {
                found = Some(v);
                break;
            }
        }
        let Some(mut variant) = found else {
            return Err(DecodeError::VariantNotFound(index));
        };
""")]
D['b6-bits-branch']=[(DEC,"""        let bytes_after = bitseq.bytes_after();
        if let Ok(bytes_after) = bytes_after {
            *self.data = bytes_after;
        }

        // Prioritize returning visitor errors over errors finding the end of the bit sequence.
        match (res, bytes_after) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }
""","""        match bitseq.bytes_after() {
            Ok(bytes_after) => {
                *self.data = bytes_after;
                res
            }
            // Prioritize returning visitor errors over errors finding the end of the bit sequence.
            Err(e) => res.and_then(|_| Err(e.into())),
        }
""")]
D['b6-skip-map']=[(DEC,"""        let skip_res = $visitor_ty.skip_decoding();
        if skip_res.is_ok() {
            *$self.data = $visitor_ty.bytes_from_undecoded();
        }

        // Prioritize returning visitor errors over skip_decoding errors.
        match ($visit_result, skip_res) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }
""","""        match $visitor_ty.skip_decoding() {
            Ok(()) => {
                *$self.data = $visitor_ty.bytes_from_undecoded();
                $visit_result
            }
            Err(skip_err) => match $visit_result {
                Ok(_) => Err(skip_err.into()),
                Err(visit_err) => Err(visit_err),
            },
        }
""")]
D['b6-daf-fn']=[(I,"""                let skip_res = composite.skip_decoding();
                if skip_res.is_ok() {
                    *input = composite.bytes_from_undecoded();
                }

                // Prioritize returning the decode error over any error skipping.
                let val = val?;
                skip_res?;
                Ok(val)
""","""                match composite.skip_decoding() {
                    Ok(()) => {
                        *input = composite.bytes_from_undecoded();
                        val
                    }
                    Err(e) => match val {
                        Ok(_) => Err(Error::from(e)),
                        Err(val_err) => Err(val_err),
                    },
                }
""")]
D['b6-prim-table']=[(DEC,"""            Primitive::I32 => {
                err_if_compact!(is_compact);
                let n = i32::decode(data).map_err(|e| e.into())?;
                visitor.visit_i32(n, type_id)
            }
""","""            Primitive::I32 => match (is_compact, i32::decode(data)) {
                (true, _) => Err(DecodeError::CannotDecodeCompactIntoType.into()),
                (false, Ok(n)) => visitor.visit_i32(n, type_id),
                (false, Err(e)) => Err(DecodeError::from(e).into()),
            },
""")]
del D['b6-prim-table']      # reads before it refuses
