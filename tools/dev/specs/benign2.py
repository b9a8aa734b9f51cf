I='scale-decode/src/impls/mod.rs'; P='scale-decode/src/impls/primitive_types.rs'; L='scale-decode/src/lib.rs'; VM='scale-decode/src/visitor/mod.rs'; EM='scale-decode/src/error/mod.rs'; EC='scale-decode/src/error/context.rs'; DV='scale-decode-derive/src/lib.rs'
D={}
W1="""            if value.remaining() != 1 {
                return self.visit_unexpected($crate::visitor::Unexpected::Composite);
            }
            value.decode_item(self).unwrap()
"""
D['imp-wrap-match']=[(I,W1,"""            match value.remaining() {
                1 => value.decode_item(self).unwrap(),
                _ => self.visit_unexpected($crate::visitor::Unexpected::Composite),
            }
""")]
D['imp-wrap-expect']=[(I,W1,"""            if value.remaining() == 1 {
                value.decode_item(self).expect("there is one field")
            } else {
                self.visit_unexpected($crate::visitor::Unexpected::Composite)
            }
""")]
D['imp-wrap-helper']=[(I,W1,"""            let only_one = crate::impls::is_single(value.remaining());
            if !only_one {
                return self.visit_unexpected($crate::visitor::Unexpected::Composite);
            }
            value.decode_item(self).unwrap()
"""),(I,"pub struct BasicVisitor<T, R> {","""pub(crate) fn is_single(n: usize) -> bool {
    n == 1
}

pub struct BasicVisitor<T, R> {""")]
D['imp-wrap-lt']=[(I,W1,"""            let n = value.remaining();
            if n < 1 || n > 1 {
                return self.visit_unexpected($crate::visitor::Unexpected::Composite);
            }
            value.decode_item(self).unwrap()
""")]
D['imp-char-bind']=[(I,"        value: char,\n        _type_id: <Self::TypeResolver as TypeResolver>::TypeId,\n    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {\n        Ok(value)","        value: char,\n        _type_id: <Self::TypeResolver as TypeResolver>::TypeId,\n    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {\n        let c: char = value;\n        Ok(c)")]
D['imp-string-map']=[(I,"        let s = value.as_str()?.to_owned();\n        Ok(s)","        value.as_str().map(|s| s.to_string()).map_err(Error::from)")]
D['imp-string-from']=[(I,"        let s = value.as_str()?.to_owned();\n        Ok(s)","        Ok(String::from(value.as_str()?))")]
BITS="""        value
            .decode()?
            .collect::<Result<Bits, _>>()
            .map_err(|e| Error::new(ErrorKind::VisitorDecodeError(e.into())))
"""
D['imp-bits-loop']=[(I,BITS,"""        let mut bits = Bits::new();
        for bit in value.decode()? {
            let bit = bit.map_err(|e| Error::new(ErrorKind::VisitorDecodeError(e.into())))?;
            bits.push(bit);
        }
        Ok(bits)
""")]
D['imp-bits-from']=[(I,BITS,"""        let bits: Result<Bits, codec::Error> = value.decode()?.collect();
        bits.map_err(Error::from)
""")]
D['imp-bits-match']=[(I,BITS,"""        match value.decode()?.collect::<Result<Bits, _>>() {
            Ok(b) => Ok(b),
            Err(e) => Err(Error::new(ErrorKind::VisitorDecodeError(crate::visitor::DecodeError::CodecError(e)))),
        }
""")]
D['imp-phantom-match']=[(I,"""        if value.remaining() == 0 {
            Ok(PhantomData)
        } else {
            self.visit_unexpected(visitor::Unexpected::Tuple)
        }
""","""        match value.remaining() {
            0 => Ok(PhantomData),
            _more => self.visit_unexpected(visitor::Unexpected::Tuple),
        }
""")]
D['imp-phantom-early']=[(I,"""        if value.remaining() == 0 {
            Ok(PhantomData)
        } else {
            self.visit_unexpected(visitor::Unexpected::Composite)
        }
""","""        if value.remaining() > 0 {
            return self.visit_unexpected(visitor::Unexpected::Composite);
        }
        Ok(PhantomData)
""")]
D['imp-like-match']=[(I,"""                let res = inner_res.and_then($mapper);
                DecodeAsTypeResult::Decoded(res)
""","""                DecodeAsTypeResult::Decoded(match inner_res {
                    Ok(inner) => ($mapper)(inner),
                    Err(e) => Err(e),
                })
""")]
D['imp-like-inline']=[(I,"""                // Use the source visitor to decode into some type:
                let inner_res = decode_with_visitor_maybe_compact(
                    input, type_id, types, <$source>::into_visitor(), is_compact,
                );
""","""                let source_visitor = <$source as IntoVisitor>::into_visitor::<Resolver>();
                let inner_res = crate::visitor::decode_with_visitor_maybe_compact(
                    input, type_id, types, source_visitor, is_compact,
                );
""")]
D['imp-like-viatrait']=[(I,"""                let inner_res = decode_with_visitor_maybe_compact(
                    input, type_id, types, <$source>::into_visitor(), is_compact,
                );
""","""                let inner_res = <$source as crate::DecodeAsType>::decode_as_type_maybe_compact(
                    input, type_id, types, is_compact,
                );
""")]
DUR="""    Duration::from_secs(res.0).checked_add(Duration::from_nanos(res.1 as u64)).ok_or_else(|| {
        Error::new(ErrorKind::NumberOutOfRange { value: res.0.to_string() })
    })
"""
D['imp-dur-match']=[(I,DUR,"""    let (secs, nanos) = res;
    match Duration::from_secs(secs).checked_add(Duration::from_nanos(u64::from(nanos))) {
        Some(d) => Ok(d),
        None => Err(Error::new(ErrorKind::NumberOutOfRange { value: secs.to_string() })),
    }
""")]
D['imp-dur-new']=[(I,DUR,"""    let (secs, nanos) = res;
    let carry = u64::from(nanos / 1_000_000_000);
    let secs = secs
        .checked_add(carry)
        .ok_or_else(|| Error::new(ErrorKind::NumberOutOfRange { value: secs.to_string() }))?;
    Ok(Duration::new(secs, nanos % 1_000_000_000))
""")]
D['imp-range-new']=[(I,"|res: (T,T)| res.0..=res.1","|(start, end): (T, T)| RangeInclusive::new(start, end)")]
D['imp-range-struct']=[(I,"|res: (T,T)| res.0..res.1","|res: (T, T)| Range { start: res.0, end: res.1 }")]
D['imp-arc-from']=[(I,"impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));","impl_into_visitor_like!(Arc<T> as T: |res| Arc::from(res));")]
D['imp-box-path']=[(I,"impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));","impl_into_visitor_like!(Box<T> as T: Box::new);")]
D['imp-cow-match']=[(I,"""        let res = inner_res.map(Cow::Owned);
        DecodeAsTypeResult::Decoded(res)
""","""        match inner_res {
            Ok(owned) => DecodeAsTypeResult::Decoded(Ok(Cow::Owned(owned))),
            Err(e) => DecodeAsTypeResult::Decoded(Err(e)),
        }
""")]
SEQ1="""                value: &mut Sequence<'scale, 'resolver, Resolver>,
                _type_id: <Self::TypeResolver as TypeResolver>::TypeId,
            ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
                decode_items_using::<_, _, $generic>(value).collect()
"""
D['imp-seq-fromiter']=[(I,SEQ1,SEQ1.replace("decode_items_using::<_, _, $generic>(value).collect()","let items = decode_items_using::<_, _, $generic>(value);\n                items.collect::<Result<$ty<$generic>, Error>>()"))]
D['imp-seq-q']=[(I,SEQ1,SEQ1.replace("decode_items_using::<_, _, $generic>(value).collect()","let collected: $ty<$generic> = decode_items_using::<_, _, $generic>(value).collect::<Result<_, _>>()?;\n                Ok(collected)"))]
D['imp-seq-helper']=[(I,SEQ1,SEQ1.replace("decode_items_using::<_, _, $generic>(value).collect()","collect_items(value)")),(I,"/// This takes anything that can decode a stream if items","""fn collect_items<'scale, 'resolver, R, D, T, C>(decoder: &mut D) -> Result<C, Error>
where
    T: IntoVisitor,
    R: TypeResolver,
    D: DecodeItemIterator<'scale, 'resolver, R>,
    C: core::iter::FromIterator<T>,
{
    decode_items_using::<R, D, T>(decoder).collect()
}

/// This takes anything that can decode a stream if items""")]
ARR="""        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;
        let actual_len = val.len();
        let arr = val
            .try_into()
            .map_err(|_e| Error::new(ErrorKind::WrongLength { actual_len, expected_len: $n }))?;
        Ok(arr)
"""
D['imp-arr-vecerr']=[(I,ARR,"""        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;
        val.try_into().map_err(|v: Vec<$t>| {
            Error::new(ErrorKind::WrongLength { actual_len: v.len(), expected_len: $n })
        })
""")]
D['imp-arr-tryfrom']=[(I,ARR,"""        let val: Vec<$t> = decode_items_using::<_, _, $t>($value).collect::<Result<_, Error>>()?;
        let actual_len = val.len();
        match <[$t; $n]>::try_from(val) {
            Ok(arr) => Ok(arr),
            Err(_) => Err(Error::new(ErrorKind::WrongLength { actual_len, expected_len: $n })),
        }
""")]
D['imp-arr-check']=[(I,ARR,"""        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;
        let actual_len = val.len();
        if actual_len != $n {
            return Err(Error::new(ErrorKind::WrongLength { actual_len, expected_len: $n }));
        }
        let arr = val
            .try_into()
            .map_err(|_e| Error::new(ErrorKind::WrongLength { actual_len, expected_len: $n }))?;
        Ok(arr)
""")]
MAP="""        while value.remaining() > 0 {
            // Get the name. If no name, skip over the corresponding value.
            let Some(key) = value.peek_name() else {
                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;
                continue;
            };
            // Decode the value now that we have a valid name.
            let Some(val) = value.decode_item(T::into_visitor::<R>()) else { break };
            // Save to the map.
            let val = val.map_err(|e| e.at_field(key.to_owned()))?;
            map.insert(key.to_owned(), val);
        }
        Ok(map)
"""
D['imp-map-match']=[(I,MAP,"""        while value.remaining() != 0 {
            match value.peek_name() {
                Some(key) => {
                    let Some(val) = value.decode_item(T::into_visitor::<R>()) else { break };
                    let val = val.map_err(|e| e.at_field(key.to_owned()))?;
                    map.insert(key.to_owned(), val);
                }
                None => {
                    value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;
                }
            }
        }
        Ok(map)
""")]
D['imp-map-loop']=[(I,MAP,"""        loop {
            if value.remaining() == 0 {
                break;
            }
            let Some(key) = value.peek_name() else {
                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;
                continue;
            };
            let name = key.to_owned();
            let val = match value.decode_item(T::into_visitor::<R>()) {
                Some(Ok(v)) => v,
                Some(Err(e)) => return Err(e.at_field(name)),
                None => break,
            };
            map.insert(name, val);
        }
        Ok(map)
""")]
OPT="""            let val = value
                .fields()
                .decode_item(T::into_visitor::<R>())
                .transpose()
                .map_err(|e| e.at_variant("Some"))?
                .expect("checked for 1 field already so should be ok");
            Ok(Some(val))
"""
D['imp-opt-unwrap']=[(I,OPT,"""            let item = value
                .fields()
                .decode_item(T::into_visitor::<R>())
                .expect("checked for 1 field already so should be ok");
            item.map(Some).map_err(|e| e.at_variant("Some"))
""")]
D['imp-opt-match']=[(I,OPT,"""            match value.fields().decode_item(T::into_visitor::<R>()) {
                Some(Ok(val)) => Ok(Some(val)),
                Some(Err(e)) => Err(e.at_variant("Some")),
                None => unreachable!("checked for 1 field already so should be ok"),
            }
""")]
OPTALL="""        if value.name() == "Some" && value.fields().remaining() == 1 {
"""+OPT+"""        } else if value.name() == "None" && value.fields().remaining() == 0 {
            Ok(None)
        } else {
            Err(Error::new(ErrorKind::CannotFindVariant {
                got: value.name().to_string(),
                expected: vec!["Some", "None"],
            }))
        }
"""
D['imp-opt-matchname']=[(I,OPTALL,"""        let count = value.fields().remaining();
        match (value.name(), count) {
            ("Some", 1) => {
                let val = value
                    .fields()
                    .decode_item(T::into_visitor::<R>())
                    .transpose()
                    .map_err(|e| e.at_variant("Some"))?
                    .expect("checked for 1 field already so should be ok");
                Ok(Some(val))
            }
            ("None", 0) => Ok(None),
            (got, _) => Err(Error::new(ErrorKind::CannotFindVariant {
                got: got.to_string(),
                expected: vec!["Some", "None"],
            })),
        }
""")]
D['imp-opt-nonefirst']=[(I,OPTALL,"""        let is_none = value.name() == "None" && value.fields().remaining() == 0;
        if is_none {
            return Ok(None);
        }
        let is_some = value.name() == "Some" && value.fields().remaining() == 1;
        if !is_some {
            return Err(Error::new(ErrorKind::CannotFindVariant {
                got: value.name().to_owned(),
                expected: vec!["Some", "None"],
            }));
        }
"""+OPT)]
RES_ERR="""            let val = value
                .fields()
                .decode_item(E::into_visitor::<R>())
                .transpose()
                .map_err(|e| e.at_variant("Err"))?
                .expect("checked for 1 field already so should be ok");
            Ok(Err(val))
"""
D['imp-res-helper']=[(I,RES_ERR,"""            decode_only_field(value.fields(), E::into_visitor::<R>(), "Err").map(Err)
"""),(I,"impl<T: IntoVisitor, E: IntoVisitor, R: TypeResolver> Visitor for BasicVisitor<Result<T, E>, R> {","""fn decode_only_field<'scale, 'resolver, R: TypeResolver, V: Visitor<TypeResolver = R, Error = Error>>(
    fields: &mut Composite<'scale, 'resolver, R>,
    visitor: V,
    variant: &'static str,
) -> Result<V::Value<'scale, 'resolver>, Error> {
    fields
        .decode_item(visitor)
        .expect("checked for 1 field already so should be ok")
        .map_err(|e| e.at_variant(variant))
}

impl<T: IntoVisitor, E: IntoVisitor, R: TypeResolver> Visitor for BasicVisitor<Result<T, E>, R> {""")]
NUM="""            let $res = value;
            let n = $expr.ok_or_else(|| {
                Error::new(ErrorKind::NumberOutOfRange { value: value.to_string() })
            })?;
            Ok(n)
"""
D['imp-num-match']=[(I,NUM,"""            let $res = value;
            match $expr {
                Some(n) => Ok(n),
                None => Err(Error::new(ErrorKind::NumberOutOfRange { value: value.to_string() })),
            }
""")]
D['imp-num-letelse']=[(I,NUM,"""            let $res = value;
            let Some(n) = $expr else {
                return Err(out_of_range(value));
            };
            Ok(n)
"""),(I,"// Impl Visitor/DecodeAsType for all primitive number types","""fn out_of_range(value: impl core::fmt::Display) -> Error {
    Error::new(ErrorKind::NumberOutOfRange { value: value.to_string() })
}

// Impl Visitor/DecodeAsType for all primitive number types""")]
D['imp-num-format']=[(I,NUM,"""            let $res = value;
            let n = $expr.ok_or_else(|| {
                Error::new(ErrorKind::NumberOutOfRange { value: alloc::format!("{value}") })
            })?;
            Ok(n)
""")]
D['imp-num-tryfrom']=[(I,"visit_number_impl!(u8 where |res| res.try_into().ok());","visit_number_impl!(u8 where |res| u8::try_from(res).ok());")]
D['imp-nz-match']=[(I,"visit_number_impl!(NonZeroU8 where |res| res.try_into().ok().and_then(NonZeroU8::new));","visit_number_impl!(NonZeroU8 where |res| match u8::try_from(res) { Ok(0) => None, Ok(n) => NonZeroU8::new(n), Err(_) => None });")]
D['imp-nz-tryfrom']=[(I,"visit_number_impl!(NonZeroI16 where |res| res.try_into().ok().and_then(NonZeroI16::new));","visit_number_impl!(NonZeroI16 where |res| i16::try_from(res).ok().and_then(|n| NonZeroI16::try_from(n).ok()));")]
TUPI="""                    let v = $value
                        .decode_item($t::into_visitor::<Resolver>())
                        .transpose()
                        .map_err(|e| e.at_idx(idx))?
                        .expect("length already checked via .remaining()");
                    idx += 1;
                    v
"""
D['imp-tup-item']=[(I,TUPI,"""                    let v = match $value.decode_item($t::into_visitor::<Resolver>()) {
                        Some(Ok(v)) => v,
                        Some(Err(e)) => return Err(e.at_idx(idx)),
                        None => panic!("length already checked via .remaining()"),
                    };
                    idx += 1;
                    v
""")]
D['imp-tup-inc']=[(I,TUPI,"""                    let this = idx;
                    idx += 1;
                    $value
                        .decode_item($t::into_visitor::<Resolver>())
                        .expect("length already checked via .remaining()")
                        .map_err(|e| e.at_idx(this))?
""")]
D['imp-tup-len']=[(I,"""        if $value.remaining() != EXPECTED_LEN {
            return Err(Error::new(ErrorKind::WrongLength {
                actual_len: $value.remaining(),
                expected_len: EXPECTED_LEN
            }))
        }
""","""        let actual_len = $value.remaining();
        if actual_len != EXPECTED_LEN {
            return Err(Error::new(ErrorKind::WrongLength { actual_len, expected_len: EXPECTED_LEN }));
        }
""")]
D['imp-one-match']=[(I,"""            if let Err(_) | Ok(false) =
                types.resolve_type(type_id.clone(), TryDecodeAsInner(PhantomData))
            {
                return DecodeAsTypeResult::Skipped(self);
            }
""","""            let try_inner = types
                .resolve_type(type_id.clone(), TryDecodeAsInner(PhantomData))
                .unwrap_or(false);
            if !try_inner {
                return DecodeAsTypeResult::Skipped(self);
            }
""")]
D['imp-one-matches']=[(I,"""                    match kind {
                        UnhandledKind::Composite
                        | UnhandledKind::Tuple
                        | UnhandledKind::NotFound => false,
                        _ => true,
                    }
""","""                    !matches!(
                        kind,
                        UnhandledKind::Composite | UnhandledKind::Tuple | UnhandledKind::NotFound
                    )
""")]
D['imp-one-res']=[(I,"            let res = inner_res.map(|val| (val,)).map_err(|e| e.into());\n            DecodeAsTypeResult::Decoded(res)","            DecodeAsTypeResult::Decoded(match inner_res {\n                Ok(val) => Ok((val,)),\n                Err(e) => Err(e),\n            })")]
DAF="""                let skip_res = composite.skip_decoding();
                if skip_res.is_ok() {
                    *input = composite.bytes_from_undecoded();
                }

                // Prioritize returning the decode error over any error skipping.
                let val = val?;
                skip_res?;
                Ok(val)
"""
D['imp-daf-match']=[(I,DAF,"""                match composite.skip_decoding() {
                    Ok(()) => {
                        *input = composite.bytes_from_undecoded();
                        val
                    }
                    Err(e) => {
                        let _ = val?;
                        Err(e.into())
                    }
                }
""")]
D['imp-daf-iflet']=[(I,DAF,"""                let skip_res = composite.skip_decoding().map(|()| composite.bytes_from_undecoded());
                if let Ok(rest) = &skip_res {
                    *input = *rest;
                }
                val.and_then(|v| match skip_res {
                    Ok(_) => Ok(v),
                    Err(e) => Err(Error::from(e)),
                })
""")]
ITEMS="""    let mut idx = 0;
    core::iter::from_fn(move || {
        let item = decoder.decode_item(T::into_visitor()).map(|res| res.map_err(|e| e.at_idx(idx)));
        idx += 1;
        item
    })
"""
D['imp-items-q']=[(I,ITEMS,"""    let mut idx = 0usize;
    core::iter::from_fn(move || {
        let res = decoder.decode_item(T::into_visitor())?;
        let current = idx;
        idx += 1;
        Some(res.map_err(|e| e.at_idx(current)))
    })
""")]
D['imp-items-enum']=[(I,ITEMS,"""    core::iter::from_fn(move || decoder.decode_item(T::into_visitor()))
        .enumerate()
        .map(|(idx, res)| res.map_err(|e: Error| e.at_idx(idx)))
""")]
D['imp-items-match']=[(I,ITEMS,"""    let mut idx = 0;
    core::iter::from_fn(move || {
        let item = match decoder.decode_item(T::into_visitor()) {
            None => None,
            Some(Ok(t)) => Some(Ok(t)),
            Some(Err(e)) => Some(Err(e.at_idx(idx))),
        };
        idx += 1;
        item
    })
""")]
D['imp-items-struct']=[(I,ITEMS,"""    ItemsUsing::<'a, R, D, T> { decoder, idx: 0, _marker: PhantomData::<&'a (&'scale (), &'resolver (), R, T)>, f: |d| d.decode_item(T::into_visitor()) }
""")]
del D['imp-items-struct']
D['prim-match']=[(P,"""                .map(|res| <$ty>::from(res));
                DecodeAsTypeResult::Decoded(res)
""","""                .map(|bytes| -> $ty { bytes.into() });
                DecodeAsTypeResult::Decoded(res)
""")]
D['prim-tuple']=[(P,"""                .map(|res| <$ty>::from(res));
                DecodeAsTypeResult::Decoded(res)
""",""";
                match res {
                    Ok(bytes) => DecodeAsTypeResult::Decoded(Ok($ty(bytes))),
                    Err(e) => DecodeAsTypeResult::Decoded(Err(e)),
                }
"""),(P,"($ty:ty: $len:literal)","($ty:ident: $len:literal)")]
D['prim-intovisitor']=[(P,"BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },","<[u8; $len / 8] as IntoVisitor>::into_visitor::<R>(),")]
D['lib-nores']=[(L,"""        let res = visitor::decode_with_visitor_maybe_compact(
            input,
            type_id,
            types,
            T::into_visitor::<R>(),
            is_compact,
        )?;
        Ok(res)
""","""        let visitor = T::into_visitor::<R>();
        visitor::decode_with_visitor_maybe_compact(input, type_id, types, visitor, is_compact)
""")]
D['vm-mapdec']=[(VM,"""        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
            .map_err(Into::into);
        DecodeAsTypeResult::Decoded(res)
""","""        let VisitorWithCrateError(inner) = self;
        DecodeAsTypeResult::Decoded(
            match decode_with_visitor_maybe_compact(input, type_id, types, inner, is_compact) {
                Ok(value) => Ok(value),
                Err(e) => Err(e.into()),
            },
        )
""")]
D['vm-unexp']=[(VM,"        Err(DecodeError::Unexpected(unexpected).into())","        let err = DecodeError::from(unexpected);\n        Err(Self::Error::from(err))")]
D['vm-mapskip']=[(VM,"""            DecodeAsTypeResult::Skipped(s) => DecodeAsTypeResult::Skipped(f(s)),
            DecodeAsTypeResult::Decoded(r) => DecodeAsTypeResult::Decoded(r),
""","""            Self::Decoded(r) => DecodeAsTypeResult::Decoded(r),
            Self::Skipped(s) => {
                let t = f(s);
                DecodeAsTypeResult::Skipped(t)
            }
""")]
D['vm-ignoredef']=[(VM,"""    fn default() -> Self {
        Self::new()
    }
""","""    fn default() -> Self {
        IgnoreVisitor(PhantomData)
    }
""")]
D['vm-fromcodec']=[(VM,"""    fn from(e: codec::Error) -> Self {
        DecodeError::CodecError(e)
    }
""","""    fn from(error: codec::Error) -> Self {
        Self::CodecError(error)
    }
""")]
D['em-at-self']=[(EM,"""    pub fn at(mut self, loc: Location) -> Self {
        self.context.push(loc);
        Error { context: self.context, kind: self.kind }
    }
    /// Note which sequence index the error occurred in.
    pub fn at_idx(mut self, idx: usize) -> Self {
        self.context.push(Location::idx(idx));
        Error { context: self.context, kind: self.kind }
    }
    /// Note which field the error occurred in.
    pub fn at_field(mut self, field: impl Into<Cow<'static, str>>) -> Self {
        self.context.push(Location::field(field));
        Error { context: self.context, kind: self.kind }
    }
""","""    pub fn at(mut self, loc: Location) -> Self {
        self.context.push(loc);
        self
    }
    /// Note which sequence index the error occurred in.
    pub fn at_idx(self, idx: usize) -> Self {
        self.at(Location::idx(idx))
    }
    /// Note which field the error occurred in.
    pub fn at_field(self, field: impl Into<Cow<'static, str>>) -> Self {
        self.at(Location::field(field))
    }
""")]
D['em-display']=[(EM,"""        let path = self.context.path();
        let kind = &self.kind;
        write!(f, "Error at {path}: {kind}")
""","""        write!(f, "Error at {}: {}", self.context.path(), self.kind())
""")]
D['em-display-pieces']=[(EM,"""        let path = self.context.path();
        let kind = &self.kind;
        write!(f, "Error at {path}: {kind}")
""","""        f.write_str("Error at ")?;
        self.context.path().fmt(f)?;
        f.write_str(": ")?;
        self.kind.fmt(f)
""")]
D['em-from']=[(EM,"""        let err: DecodeError = err.into();
        Error::new(err.into())
""","""        Error::from(DecodeError::from(err))
""")]
D['em-from2']=[(EM,"""    fn from(err: DecodeError) -> Error {
        Error::new(err.into())
    }
""","""    fn from(err: DecodeError) -> Error {
        Error { context: Context::new(), kind: ErrorKind::VisitorDecodeError(err) }
    }
""")]
D['ec-new']=[(EC,"        Default::default()\n","        Context { path: Vec::new() }\n")]
D['ec-path']=[(EC,"        Path(Cow::Borrowed(&self.path))","        let locations = &self.path;\n        Path(Cow::Borrowed(locations))")]
D['ec-display-sep']=[(EC,"""        for (idx, loc) in self.0.iter().enumerate() {
            if idx != 0 {
                f.write_str(".")?;
            }
            match &loc.inner {
                Loc::Field(name) => f.write_str(name)?,
                Loc::Index(i) => write!(f, "[{i}]")?,
                Loc::Variant(name) => write!(f, "({name})")?,
            }
        }
        Ok(())
""","""        let mut first = true;
        for loc in self.locations() {
            if !first {
                f.write_str(".")?;
            }
            first = false;
            match &loc.inner {
                Loc::Field(name) => write!(f, "{name}")?,
                Loc::Index(i) => write!(f, "[{}]", i)?,
                Loc::Variant(name) => write!(f, "({})", name)?,
            }
        }
        Ok(())
""")]
D['ec-loc-self']=[(EC,"        Location { inner: Loc::Field(name.into()) }","        let name = name.into();\n        Self { inner: Loc::Field(name) }")]
# derive
D['dv-enum-single']=[(DV,"""                    if #path_to_scale_decode::visitor::types::Composite::remaining(value) != 1 {
                        return #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Composite);
                    }
                    #path_to_scale_decode::visitor::types::Composite::decode_item(value, self).unwrap()
""","""                    if #path_to_scale_decode::visitor::types::Composite::remaining(value) == 1 {
                        #path_to_scale_decode::visitor::types::Composite::decode_item(value, self).unwrap()
                    } else {
                        #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Composite)
                    }
""")]
D['dv-enum-noreturn']=[(DV,"""                    let vals = fields;
                    return ::core::result::Result::Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
""","""                    let vals = fields;
                    let decoded = #path_to_type::#variant_ident ( #(#field_vals),* );
                    return ::core::result::Result::Ok(decoded)
""")]
D['dv-unit-eq']=[(DV,"""                if #path_to_scale_decode::visitor::types::Tuple::remaining(value) > 0 {
                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(value), expected_len: 0 }));
                }
                ::core::result::Result::Ok(#path_to_type)
""","""                let actual_len = #path_to_scale_decode::visitor::types::Tuple::remaining(value);
                if actual_len != 0 {
                    ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len, expected_len: 0 }))
                } else {
                    ::core::result::Result::Ok(#path_to_type)
                }
""")]
D['dv-named-match']=[(DV,"""                let val = #path_to_scale_decode::BTreeMap::get(&vals, &::core::option::Option::Some(#field_name))
                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
""","""                let val = match #path_to_scale_decode::BTreeMap::get(&vals, &::core::option::Option::Some(#field_name)) {
                    ::core::option::Option::Some(val) => val,
                    ::core::option::Option::None => return ::core::result::Result::Err(#path_to_scale_decode::Error::new(
                        #path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }
                    )),
                };
""")]
D['dv-count-loop']=[(DV,"""    let field_count = field_val_impls.clone().filter(|f| f.0).count();
    let field_vals = field_val_impls.map(|v| v.1);
""","""    let mut field_count = 0usize;
    for (used, _) in field_val_impls.clone() {
        if used {
            field_count += 1;
        }
    }
    let field_vals = field_val_impls.map(|(_, tokens)| tokens);
""")]
D['dv-lencheck-helper']=[(DV,"""                    if #path_to_scale_decode::visitor::types::Composite::remaining(fields) != #field_count {
                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                            actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(fields),
                            expected_len: #field_count
                        }));
                    }
                    let vals = fields;
                    return""","""                    #len_check
                    let vals = fields;
                    return"""),(DV,"""                quote!{
                    let fields = #path_to_scale_decode::visitor::types::Variant::fields(value);
                    #len_check""","""                let len_check = quote!{
                    if #path_to_scale_decode::visitor::types::Composite::remaining(fields) != #field_count {
                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                            actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(fields),
                            expected_len: #field_count
                        }));
                    }
                };

                quote!{
                    let fields = #path_to_scale_decode::visitor::types::Variant::fields(value);
                    #len_check""")]
D['dv-daf-merge']=[(DV,"""                    // Prioritize returning the decode error over any error skipping.
                    let val = val?;
                    skip_res?;
                    ::core::result::Result::Ok(val)
                }
            }
        };
    )
}
""","""                    // Prioritize returning the decode error over any error skipping.
                    match (val, skip_res) {
                        (::core::result::Result::Err(e), _) => ::core::result::Result::Err(e),
                        (_, ::core::result::Result::Err(e)) => ::core::result::Result::Err(::core::convert::From::from(e)),
                        (::core::result::Result::Ok(val), _) => ::core::result::Result::Ok(val),
                    }
                }
            }
        };
    )
}
""")]
D['dv-bounds-loop']=[(DV,"""            for param in generics.type_params() {
                let ty = &param.ident;
                where_clause.predicates.push(syn::parse_quote!(#ty: #path_to_crate::IntoVisitor));
            }
""","""            where_clause.predicates.extend(generics.type_params().map::<syn::WherePredicate, _>(|param| {
                let ty = &param.ident;
                syn::parse_quote!(#ty: #path_to_crate::IntoVisitor)
            }));
""")]
D['dv-attr-filter']=[(DV,"""        for attr in attrs {
            if !attr.path().is_ident(ATTR_NAME) {
                continue;
            }
            let meta = &attr.meta;
            let parsed_attrs = TopLevelAttrsInner::from_meta(meta)?;
""","""        for attr in attrs.iter().filter(|attr| attr.path().is_ident(ATTR_NAME)) {
            let parsed_attrs = TopLevelAttrsInner::from_meta(&attr.meta)?;
""")]
D['dv-skip-match']=[(DV,"""        let skip = attrs.iter().any(|attr| {
            Self::from_attributes(core::slice::from_ref(attr)).unwrap_or_default().skip
        });
        FieldAttrs { skip }
""","""        let mut skip = false;
        for attr in attrs {
            match Self::from_attributes(core::slice::from_ref(attr)) {
                Ok(parsed) => skip |= parsed.skip,
                Err(_) => continue,
            }
        }
        FieldAttrs { skip }
""")]
D['dv-visitor-name']=[(DV,"""    const VISITOR_IDENT_STR: &'static str = "ScaleDecodeVisitor";
""","""    const VISITOR_IDENT_STR: &'static str = "ScaleDecodeTypeVisitor";
""")]
