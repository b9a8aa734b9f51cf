I='scale-decode/src/impls/mod.rs'
P='scale-decode/src/impls/primitive_types.rs'
D='scale-decode/src/visitor/decode.rs'
V='scale-decode/src/visitor/mod.rs'
T='scale-decode/src/visitor/types/'
C=T+'composite.rs'; A=T+'array.rs'; S=T+'sequence.rs'; U=T+'tuple.rs'; VA=T+'variant.rs'; B=T+'bit_sequence.rs'; ST=T+'str.rs'
L='scale-decode/src/lib.rs'
ER='scale-decode/src/error/mod.rs'; CX='scale-decode/src/error/context.rs'
F='scale-decode-derive/src/lib.rs'
ITEMS='''    let mut idx = 0;
    core::iter::from_fn(move || {
        let item = decoder.decode_item(T::into_visitor()).map(|res| res.map_err(|e| e.at_idx(idx)));
        idx += 1;
        item
    })
}
'''
SKIPM='''        // Skip over any bytes that the visitor chose not to decode:
        let skip_res = $visitor_ty.skip_decoding();
        if skip_res.is_ok() {
            *$self.data = $visitor_ty.bytes_from_undecoded();
        }

        // Prioritize returning visitor errors over skip_decoding errors.
        match ($visit_result, skip_res) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }
'''
D_={}
D={} if False else D
SPEC={
'b4-items-struct':[(I,ITEMS,'''    ItemsUsing { decoder, idx: 0, _marker: PhantomData::<(&'scale (), &'resolver (), R, T)> }
}

struct ItemsUsing<'a, D, M> {
    decoder: &'a mut D,
    idx: usize,
    _marker: PhantomData<M>,
}

impl<'a, 'scale, 'resolver, R, D, T> Iterator
    for ItemsUsing<'a, D, (&'scale (), &'resolver (), R, T)>
where
    T: IntoVisitor,
    R: TypeResolver,
    D: DecodeItemIterator<'scale, 'resolver, R>,
{
    type Item = Result<T, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        let res = self.decoder.decode_item(T::into_visitor::<R>())?;
        let idx = self.idx;
        self.idx += 1;
        Some(res.map_err(|e| e.at_idx(idx)))
    }
}
'''),(I,''') -> impl Iterator<Item = Result<T, Error>> + 'a
where''',''') -> ItemsUsing<'a, D, (&'scale (), &'resolver (), R, T)>
where''')],
'b4-vec-push':[(I,'''                decode_items_using::<_, _, $generic>(value).collect()
            }
            fn visit_array''','''                let mut items = <$ty<$generic>>::default();
                for item in decode_items_using::<_, _, $generic>(value) {
                    items.extend(core::iter::once(item?));
                }
                Ok(items)
            }
            fn visit_array''')],
'b4-num-generic':[(I,'''            let $res = value;
            let n = $expr.ok_or_else(|| {
                Error::new(ErrorKind::NumberOutOfRange { value: value.to_string() })
            })?;
            Ok(n)''','''            let $res = value;
            in_range(value, $expr)'''),(I,'''// Impl Visitor/DecodeAsType for all primitive number types
''','''/// Hand back the converted number, or complain that the one seen does not fit.
fn in_range<N: ToString, T>(seen: N, converted: Option<T>) -> Result<T, Error> {
    match converted {
        Some(n) => Ok(n),
        None => {
            let value = seen.to_string();
            Err(Error::new(ErrorKind::NumberOutOfRange { value }))
        }
    }
}

// Impl Visitor/DecodeAsType for all primitive number types
''')],
'b4-seq-own':[(S,'''            .map_err(|_| codec::Error::from("sequence length does not fit into usize"))?;

        Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })''','''            .map_err(|_| codec::Error::from("sequence length does not fit into usize"))?;
        let prefix_len = bytes.len() - item_bytes.len();
        let values = Array::new(&bytes[prefix_len..], type_id, len, types);

        Ok(Sequence { bytes, values })''')],
'b4-arr-checked-dec':[(A,'''        if self.remaining == 0 {
            return None;
        }

        let b = &mut self.item_bytes;''','''        let remaining_after = self.remaining.checked_sub(1)?;

        let b = &mut self.item_bytes;'''),(A,"        self.remaining -= 1;","        self.remaining = remaining_after;")],
'b4-arr-decode-copy':[(A,'''        let b = &mut self.item_bytes;
''','''        let mut cursor = self.item_bytes;
'''),(A,"decode_with_visitor(b, self.type_id.clone(), self.types, visitor);\n        self.item_bytes = *b;","decode_with_visitor(&mut cursor, self.type_id.clone(), self.types, visitor);\n        self.item_bytes = cursor;")],
'b4-bit-size-cache':[(B,'''    bytes_after: Option<&'scale [u8]>,
}''','''    encoded_size: Option<usize>,
}'''),(B,"BitSequence { format, bytes, bytes_after: None }","BitSequence { format, bytes, encoded_size: None }"),(B,'''        if let Some(bytes_after) = self.bytes_after {
            Ok(bytes_after)
        } else {
            let decoder = decode_using_format_from(self.bytes, self.format)?;
            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)
        }''','''        let size = match self.encoded_size {
            Some(size) => size,
            None => decode_using_format_from(self.bytes, self.format)?.encoded_size(),
        };
        self.bytes.get(size..).ok_or(DecodeError::NotEnoughInput)'''),(B,'''        self.bytes_after =
            Some(self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?);
        Ok(decoder)''','''        let size = decoder.encoded_size();
        if size > self.bytes.len() {
            return Err(DecodeError::NotEnoughInput);
        }
        self.encoded_size = Some(size);
        Ok(decoder)''')],
'b4-str-rest':[(ST,'''    compact_len: usize,
    bytes: &'scale [u8],
}''','''    bytes: &'scale [u8],
    // The text, and anything following it.
    text_bytes: &'scale [u8],
}'''),(ST,'''        let len = compact_len.0 as usize;
        let compact_len = Compact::<u32>::compact_len(&compact_len.0);

        Ok(Str { len, bytes, compact_len })''','''        let len = compact_len.0 as usize;

        Ok(Str { len, bytes, text_bytes: remaining_bytes })'''),(ST,"use codec::{Compact, CompactLen, Decode};","use codec::{Compact, Decode};"),(ST,'''        self.bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(self.len..))
            .ok_or(DecodeError::NotEnoughInput)''','''        self.text_bytes.get(self.len..).ok_or(DecodeError::NotEnoughInput)'''),(ST,'''        let bytes = self
            .bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(..self.len))
            .ok_or(DecodeError::NotEnoughInput)?;''','''        let bytes = self.text_bytes.get(..self.len).ok_or(DecodeError::NotEnoughInput)?;''')],
'b4-ignore-explicit':[(V,'''    // Whatever the value we visit is, just ignore it.
''','''    fn visit_bool<'scale, 'resolver>(
        self,
        _value: bool,
        _type_id: TypeIdFor<Self>,
    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(())
    }
    fn visit_tuple<'scale, 'resolver>(
        self,
        _value: &mut Tuple<'scale, 'resolver, Self::TypeResolver>,
        _type_id: TypeIdFor<Self>,
    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(())
    }
    // Whatever the value we visit is, just ignore it.
''')],
'b4-compact-destructure':[(D,'''        decode_with_visitor_maybe_compact(self.data, inner_type_id, self.types, self.visitor, true)''','''        let Decoder { data, types, visitor, .. } = self;
        let is_compact = true;
        decode_with_visitor_maybe_compact(data, inner_type_id, types, visitor, is_compact)''')],
'b4-refuse-fn':[(D,'''        if self.is_compact {
            return Err(DecodeError::CannotDecodeCompactIntoType.into());
        }

        let mut variant''','''        self.refuse_compact()?;

        let mut variant'''),(D,'''        if self.is_compact {
            return Err(DecodeError::CannotDecodeCompactIntoType.into());
        }

        let mut items = Sequence''','''        self.refuse_compact()?;

        let mut items = Sequence'''),(D,'''        Decoder { data, type_id, types, is_compact, visitor }
    }''','''        Decoder { data, type_id, types, is_compact, visitor }
    }

    // Only single field composites and tuples, and unsigned integers, can be compact encoded.
    fn refuse_compact(&self) -> Result<(), DecodeError> {
        match self.is_compact {
            true => Err(DecodeError::CannotDecodeCompactIntoType),
            false => Ok(()),
        }
    }''')],
'b4-skip-then':[(D,SKIPM,'''        // Skip over any bytes that the visitor chose not to decode:
        let skip_res = $visitor_ty.skip_decoding().map(|()| {
            *$self.data = $visitor_ty.bytes_from_undecoded();
        });

        // Prioritize returning visitor errors over skip_decoding errors.
        let val = $visit_result?;
        skip_res?;
        Ok(val)
''')],
'b4-skip-ifelse':[(D,SKIPM,'''        // Skip over any bytes that the visitor chose not to decode:
        match $visitor_ty.skip_decoding() {
            Ok(()) => {
                *$self.data = $visitor_ty.bytes_from_undecoded();
                $visit_result
            }
            // Prioritize returning visitor errors over skip_decoding errors.
            Err(e) => $visit_result.and_then(|_| Err(e.into())),
        }
''')],
'b4-map-for':[(I,'''        while value.remaining() > 0 {
            // Get the name. If no name, skip over the corresponding value.
            let Some(key) = value.peek_name() else {
                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;
                continue;
            };
            // Decode the value now that we have a valid name.
            let Some(val) = value.decode_item(T::into_visitor::<R>()) else { break };
            // Save to the map.
            let val = val.map_err(|e| e.at_field(key.to_owned()))?;
            map.insert(key.to_owned(), val);
        }''','''        while value.remaining() != 0 {
            match value.peek_name() {
                Some(key) => {
                    // Decode the value now that we have a valid name.
                    if let Some(res) = value.decode_item(T::into_visitor::<R>()) {
                        let key = key.to_owned();
                        match res {
                            Ok(val) => drop(map.insert(key, val)),
                            Err(e) => return Err(e.at_field(key)),
                        }
                    }
                }
                None => {
                    // No name; skip over the corresponding value.
                    if let Some(res) = value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()) {
                        res?;
                    }
                }
            }
        }''')],
'b4-opt-field-helper':[(I,'''            let val = value
                .fields()
                .decode_item(T::into_visitor::<R>())
                .transpose()
                .map_err(|e| e.at_variant("Some"))?
                .expect("checked for 1 field already so should be ok");
            Ok(Some(val))''','''            decode_only_field::<T, R>(value, "Some").map(Some)'''),(I,'''            let val = value
                .fields()
                .decode_item(T::into_visitor::<R>())
                .transpose()
                .map_err(|e| e.at_variant("Ok"))?
                .expect("checked for 1 field already so should be ok");
            Ok(Ok(val))''','''            decode_only_field::<T, R>(value, "Ok").map(Ok)'''),(I,'''            let val = value
                .fields()
                .decode_item(E::into_visitor::<R>())
                .transpose()
                .map_err(|e| e.at_variant("Err"))?
                .expect("checked for 1 field already so should be ok");
            Ok(Err(val))''','''            decode_only_field::<E, R>(value, "Err").map(Err)'''),(I,'''impl<T: IntoVisitor, R: TypeResolver> Visitor for BasicVisitor<Option<T>, R> {''','''/// Decode the single field of a variant.
fn decode_only_field<T: IntoVisitor, R: TypeResolver>(
    value: &mut Variant<'_, '_, R>,
    variant: &'static str,
) -> Result<T, Error> {
    let item = value
        .fields()
        .decode_item(T::into_visitor::<R>())
        .expect("checked for 1 field already so should be ok");
    item.map_err(|e| e.at_variant(variant))
}

impl<T: IntoVisitor, R: TypeResolver> Visitor for BasicVisitor<Option<T>, R> {''')],
'b4-result-byname':[(I,'''        if value.name() == "Ok" && value.fields().remaining() == 1 {''','''        let name = value.name();
        let num_fields = value.fields().remaining();
        if num_fields == 1 && name == "Ok" {'''),(I,'''        } else if value.name() == "Err" && value.fields().remaining() == 1 {''','''        } else if num_fields == 1 && name == "Err" {''')],
'b4-1tuple-let':[(I,'''            if let Err(_) | Ok(false) =
                types.resolve_type(type_id.clone(), TryDecodeAsInner(PhantomData))
            {
                return DecodeAsTypeResult::Skipped(self);
            }
''','''            let try_inner = types
                .resolve_type(type_id.clone(), TryDecodeAsInner(PhantomData))
                .unwrap_or(false);
            if !try_inner {
                return DecodeAsTypeResult::Skipped(self);
            }
''')],
'b4-hash-into':[(P,".map(|res| <$ty>::from(res));",".map(Into::<$ty>::into);")],
'b4-hash-match':[(P,'''                .map(|res| <$ty>::from(res));
                DecodeAsTypeResult::Decoded(res)''',''';
                DecodeAsTypeResult::Decoded(match res {
                    Ok(bytes) => Ok(<$ty>::from(bytes)),
                    Err(e) => Err(e),
                })''')],
'b4-fields-shared':[(I,'''                // Skip over bytes that we decoded:
                let skip_res = composite.skip_decoding();
                if skip_res.is_ok() {
                    *input = composite.bytes_from_undecoded();
                }

                // Prioritize returning the decode error over any error skipping.
                let val = val?;
                skip_res?;
                Ok(val)''','''                finish_fields(input, composite, val)'''),(I,'''impl_decode_tuple!();
''','''/// Skip over any fields not decoded yet and move the input past them.
fn finish_fields<'scale, R: TypeResolver, T>(
    input: &mut &'scale [u8],
    mut composite: Composite<'scale, '_, R>,
    val: Result<T, Error>,
) -> Result<T, Error> {
    let skipped = composite.skip_decoding();
    if let Ok(()) = skipped {
        *input = composite.bytes_from_undecoded();
    }
    // Prioritize returning the decode error over any error skipping.
    match val {
        Err(e) => Err(e),
        Ok(val) => skipped.map(|()| val).map_err(Error::from),
    }
}

impl_decode_tuple!();
''')],
'b4-tuple-idx-const':[(I,'''                        .map_err(|e| e.at_idx(idx))?
                        .expect("length already checked via .remaining()");
                    idx += 1;
                    v''','''                        .expect("length already checked via .remaining()")
                        .map_err(|e| e.at_idx(idx))?;
                    idx += 1;
                    v'''),(I,'''                        .decode_item($t::into_visitor::<Resolver>())
                        .transpose()
''','''                        .decode_item($t::into_visitor::<Resolver>())
''')],
'b4-dv-match-name':[(F,'''                    #(
                        #variant_ifs
                    )*
''','''                    let variant_name = #path_to_scale_decode::visitor::types::Variant::name(value);
                    #(
                        #variant_ifs
                    )*
'''),(F,'''            if #path_to_scale_decode::visitor::types::Variant::name(value) == #variant_name {''','''            if variant_name == #variant_name {''')],
'b4-dv-fields-fn':[(F,'''                    // Consume any remaining bytes and update input:
                    let skip_res = #path_to_scale_decode::visitor::types::Composite::skip_decoding(&mut composite);
                    if ::core::result::Result::is_ok(&skip_res) {
                        *input = #path_to_scale_decode::visitor::types::Composite::bytes_from_undecoded(&composite);
                    }

                    // Prioritize returning the decode error over any error skipping.
                    let val = val?;
                    skip_res?;
                    ::core::result::Result::Ok(val)''','''                    // Consume any remaining bytes and update input:
                    match #path_to_scale_decode::visitor::types::Composite::skip_decoding(&mut composite) {
                        ::core::result::Result::Ok(()) => {
                            *input = #path_to_scale_decode::visitor::types::Composite::bytes_from_undecoded(&composite);
                            val
                        }
                        // Prioritize returning the decode error over any error skipping.
                        ::core::result::Result::Err(e) => match val {
                            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
                            ::core::result::Result::Ok(_) => ::core::result::Result::Err(::core::convert::From::from(e)),
                        },
                    }''')],
'b4-dv-next-match':[(F,'''                let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
                #tuple_item::decode_as_type(&val).map_err(|e| e.at_idx(#idx))?
''','''                let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
                match #tuple_item::decode_as_type(&val) {
                    ::core::result::Result::Ok(val) => val,
                    ::core::result::Result::Err(e) => return ::core::result::Result::Err(e.at_idx(#idx)),
                }
''')],
'b4-dv-map-insert':[(F,'''                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
                        ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
                            ::core::iter::Iterator::map(value, |res| res.map(|item| (#path_to_scale_decode::visitor::types::CompositeField::name(&item), item)))
                        )?;
''','''                    let mut vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> = #path_to_scale_decode::BTreeMap::new();
                    while let ::core::option::Option::Some(item) = ::core::iter::Iterator::next(value) {
                        let item = item?;
                        #path_to_scale_decode::BTreeMap::insert(&mut vals, #path_to_scale_decode::visitor::types::CompositeField::name(&item), item);
                    }
''')],
'b4-dv-lookup-iflet':[(F,'''                let val = #path_to_scale_decode::BTreeMap::get(&vals, &::core::option::Option::Some(#field_name))
                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
                #path_to_scale_decode::visitor::types::CompositeField::decode_as_type(val).map_err(|e| e.at_field(#field_name))?''','''                if let ::core::option::Option::Some(val) = #path_to_scale_decode::BTreeMap::get(&vals, &::core::option::Option::Some(#field_name)) {
                    #path_to_scale_decode::visitor::types::CompositeField::decode_as_type(val).map_err(|e| e.at_field(#field_name))?
                } else {
                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }));
                }''')],
'b4-tuple-iter-fields':[(U,'''        let field = self.fields.get(self.next_field_idx)?;
        let b''','''        if self.remaining() == 0 {
            return None;
        }
        let field = &self.fields[self.next_field_idx];
        let b''')],
'b4-variant-split':[(VA,'''        let index = *bytes.first().ok_or(DecodeError::NotEnoughInput)?;
        let item_bytes = &bytes[1..];
''','''        let [index, item_bytes @ ..] = bytes else {
            return Err(DecodeError::NotEnoughInput);
        };
        let index = *index;
''')],
'b4-variant-letelse':[(VA,'''        let mut variant =
            variants.find(|v| v.index == index).ok_or(DecodeError::VariantNotFound(index))?;
''','''        let Some(mut variant) = variants.find(|v| v.index == index) else {
            return Err(DecodeError::VariantNotFound(index));
        };
''')],
'b4-variant-while':[(VA,'''        let mut variant =
            variants.find(|v| v.index == index).ok_or(DecodeError::VariantNotFound(index))?;
''','''        let mut variant = loop {
            match variants.next() {
                Some(v) if v.index == index => break v,
                Some(_) => continue,
                None => return Err(DecodeError::VariantNotFound(index)),
            }
        };
''')],
'b4-num-from-bits':[(D,'''        match primitive {
            Primitive::Bool => {
                err_if_compact!(is_compact);
                let b = bool::decode(data).map_err(|e| e.into())?;
                visitor.visit_bool(b, type_id)''','''        match primitive {
            Primitive::Bool => {
                err_if_compact!(is_compact);
                let b: bool = Decode::decode(data).map_err(DecodeError::from)?;
                visitor.visit_bool(b, type_id)''')],
'b4-wrapper-let':[(I,'''            if value.remaining() != 1 {
                return self.visit_unexpected($crate::visitor::Unexpected::Composite);
            }
            value.decode_item(self).unwrap()''','''            match value.remaining() {
                1 => value.decode_item(self).expect("one field remains"),
                _ => self.visit_unexpected($crate::visitor::Unexpected::Composite),
            }''')],
'b4-wrapper-flip':[(I,'''            if value.remaining() != 1 {
                return self.visit_unexpected($crate::visitor::Unexpected::Tuple);
            }
            value.decode_item(self).unwrap()''','''            if value.remaining() == 1 {
                // Can't fail as we have just checked that there is an item.
                let item = value.decode_item(self);
                item.unwrap()
            } else {
                self.visit_unexpected($crate::visitor::Unexpected::Tuple)
            }''')],
'b4-context-with':[(ER,'''    pub fn at_idx(mut self, idx: usize) -> Self {
        self.context.push(Location::idx(idx));
        Error { context: self.context, kind: self.kind }
    }''','''    pub fn at_idx(self, idx: usize) -> Self {
        let Error { mut context, kind } = self;
        context.push(Location::idx(idx));
        Error { context, kind }
    }''')],
'b4-ctx-display-first':[(CX,'''        for (idx, loc) in self.0.iter().enumerate() {
            if idx != 0 {
                f.write_str(".")?;
            }
            match''','''        let mut separator = "";
        for loc in self.0.iter() {
            f.write_str(separator)?;
            separator = ".";
            match''')],
'b4-range-fn':[(I,"impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);","impl_into_visitor_like!(Range<T> as (T, T): |(start, end): (T, T)| Range { start, end });")],
'b4-dur-andthen':[(I,'''    Duration::from_secs(res.0).checked_add(Duration::from_nanos(res.1 as u64)).ok_or_else(|| {
        Error::new(ErrorKind::NumberOutOfRange { value: res.0.to_string() })
    })''','''    let (secs, nanos) = res;
    let Some(duration) = Duration::from_secs(secs).checked_add(Duration::from_nanos(u64::from(nanos))) else {
        return Err(Error::new(ErrorKind::NumberOutOfRange { value: secs.to_string() }));
    };
    Ok(duration)''')],
}
D=SPEC
