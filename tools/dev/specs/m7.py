V='scale-decode/src/visitor/'
I='scale-decode/src/impls/mod.rs'
A=V+'types/array.rs'; S=V+'types/sequence.rs'; C=V+'types/composite.rs'; T=V+'types/tuple.rs'; B=V+'types/bit_sequence.rs'; ST=V+'types/str.rs'; VA=V+'types/variant.rs'; DEC=V+'decode.rs'
M=V+'mod.rs'; L='scale-decode/src/lib.rs'; E='scale-decode/src/error/mod.rs'; X='scale-decode/src/error/context.rs'
D={}
NEXT_A="""    type Item = Result<ArrayItem<'scale, 'resolver, R>, DecodeError>;
"""
D['m7-arr-hint']=[(A,NEXT_A,NEXT_A+"""    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.remaining, Some(self.remaining))
    }
""")]
NEXT_S="""    type Item = Result<SequenceItem<'scale, 'resolver, R>, DecodeError>;
"""
D['m7-seq-hint']=[(S,NEXT_S,NEXT_S+"""    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.values.remaining();
        (left, Some(left))
    }
""")]
D['m7-arr-nth']=[(A,NEXT_A,NEXT_A+"""    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // No need to look at the items that nobody wants to see:
        for _ in 0..n {
            self.decode_item(IgnoreVisitor::<R>::new())?.ok();
        }
        self.remaining = self.remaining.saturating_sub(usize::from(n == 0 && self.item_bytes.is_empty()));
        self.next()
    }
""")]
NEXT_T="""    type Item = Result<TupleField<'scale, 'resolver, R>, DecodeError>;
"""
D['m7-tuple-hint']=[(T,NEXT_T,NEXT_T+"""    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.fields.len(), Some(self.fields.len()))
    }
""")]
NEXT_C="""    type Item = Result<CompositeField<'scale, 'resolver, R>, DecodeError>;
"""
D['m7-comp-count']=[(C,NEXT_C,NEXT_C+"""    fn count(self) -> usize {
        self.fields.len()
    }
""")]
D['m7-comp-nth']=[(C,NEXT_C,NEXT_C+"""    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.next_field_idx = (self.next_field_idx + n).min(self.fields.len());
        self.next()
    }
""")]
ITEMS="""    let mut idx = 0;
    core::iter::from_fn(move || {
        let item = decoder.decode_item(T::into_visitor())?.map_err(|e| e.at_idx(idx));
        // Only count items that exist; there can be as many as `idx` is able to count.
        idx += 1;
        Some(item)
    })
"""
D['m7-items-hint']=[(I,"""        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;
""","""        struct Exact<I>(I, usize);
        impl<I: Iterator> Iterator for Exact<I> {
            type Item = I::Item;
            fn next(&mut self) -> Option<I::Item> {
                self.0.next()
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.1, None)
            }
        }
        let left = $value.remaining();
        let items = Exact(decode_items_using::<_, _, $t>($value), left).collect::<Vec<_>>();
        let val = items.into_iter().collect::<Result<Vec<$t>, _>>()?;
""")]
D['m7-peek-blank']=[(C,"self.fields.get(self.next_field_idx).and_then(|f| f.name)","self.fields.get(self.next_field_idx).and_then(|f| f.name).filter(|n| !n.is_empty())")]
D['m7-unnamed-blank']=[(C,"self.fields.iter().any(|f| f.name.is_none())","self.fields.iter().any(|f| f.name.map_or(true, |n| n.is_empty()))")]
D['m7-tuple-255']=[(T,"let fields = smallvec::SmallVec::from_iter(fields);","let fields = smallvec::SmallVec::from_iter(fields.take(256));")]
D['m7-comp-dedup']=[(C,"        let fields = smallvec::SmallVec::from_iter(fields);\n","        let mut fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]> = smallvec::SmallVec::from_iter(fields);\n        fields.dedup_by(|a, b| a.name.is_some() && a.name == b.name);\n")]
D['m7-compact-true']=[(I,"""impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
""","""impl<T: IntoVisitor, Resolver: TypeResolver> Visitor for BasicVisitor<Compact<T>, Resolver> {
    type Value<'scale, 'resolver> = Compact<T>;
    type Error = Error;
    type TypeResolver = Resolver;

    fn unchecked_decode_as_type<'scale, 'resolver>(
        self,
        input: &mut &'scale [u8],
        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
        types: &'resolver Self::TypeResolver,
    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
        let res = decode_with_visitor_maybe_compact(input, type_id, types, T::into_visitor(), true);
        DecodeAsTypeResult::Decoded(res.map(Compact))
    }
}
impl_into_visitor!(Compact<T> where T: IntoVisitor);
""")]
D['m7-inner-seq']=[(I,"""                        | UnhandledKind::Tuple
                        | UnhandledKind::NotFound => false,""","""                        | UnhandledKind::Tuple
                        | UnhandledKind::Array
                        | UnhandledKind::NotFound => false,""")]
D['m7-inner-err']=[(I,"""            if let Err(_) | Ok(false) =
                types.resolve_type(type_id.clone(), TryDecodeAsInner(PhantomData))
            {
                return DecodeAsTypeResult::Skipped(self);
            }
""","""            match types.resolve_type(type_id.clone(), TryDecodeAsInner(PhantomData)) {
                Ok(false) => return DecodeAsTypeResult::Skipped(self),
                Ok(true) => {}
                Err(_) => {
                    let err = visitor::DecodeError::TypeIdNotFound(alloc::format!("{type_id:?}"));
                    return DecodeAsTypeResult::Decoded(Err(err.into()));
                }
            }
""")]
D['m7-nz-abs']=[(I,"visit_number_impl!(NonZeroI8 where |res| res.try_into().ok().and_then(NonZeroI8::new));","visit_number_impl!(NonZeroI8 where |res| res.try_into().ok().map(|n: i8| n | i8::from(n == i8::MIN)).and_then(NonZeroI8::new));")]
D['m7-bits-take']=[(I,"""        value
            .decode()?
            .collect::<Result<Bits, _>>()""","""        let bits = value.decode()?;
        let len = bits.remaining() as u16 as usize;
        bits.take(len)
            .collect::<Result<Bits, _>>()""")]
D['m7-string-trim']=[(I,"let s = value.as_str()?.to_owned();","let s = value.as_str()?.trim_end_matches('\\0').to_owned();")]
D['m7-char-surr']=[(DEC,"let c = char::from_u32(val).ok_or(DecodeError::InvalidChar(val))?;","let c = char::from_u32(val & 0x1f_ffff).ok_or(DecodeError::InvalidChar(val))?;")]
D['m7-variant-last']=[(VA,"variants.find(|v| v.index == index)","variants.filter(|v| v.index == index).last()")]
D['m7-variant-name0']=[(VA,"core::iter::once(variant.name),","variant.fields.len().min(1).checked_sub(1).map(|_| variant.name).into_iter(),")]
D['m7-resolve-empty']=[(DEC,"            Err(DecodeError::TypeResolvingError(resolve_type_error.to_string()).into())","""            let msg = resolve_type_error.to_string();
            if msg.is_empty() {
                return Err(DecodeError::TypeIdNotFound(format!("{kind}", kind = "unknown")).into());
            }
            Err(DecodeError::TypeResolvingError(msg).into())""")]
D['m7-ctx-dup']=[(X,"""        self.path.push(loc);
""","""        // Don't repeat ourselves.
        if self.path.last() != Some(&loc) {
            self.path.push(loc);
        }
""")]
D['m7-ctx-trunc']=[(X,"""        self.path.push(loc);
""","""        self.path.push(loc);
        self.path.truncate(64);
""")]
D['m7-disp-idx0']=[(X,"            if idx != 0 {","            if idx != 0 && !matches!(loc.inner, Loc::Index(_)) {")]
D['m7-field-lower']=[(X,"Location { inner: Loc::Field(name.into()) }","""let name = name.into();
        Location { inner: if name.is_empty() { Loc::Index(0) } else { Loc::Field(name) } }""")]
D['m7-custom-ctx']=[(E,"""        self.context.push(Location::variant(variant));
""","""        if !matches!(self.kind, ErrorKind::Custom(_)) {
            self.context.push(Location::variant(variant));
        }
""")]
D['m7-codec-eof']=[(M,"""        DecodeError::CodecError(e)
""","""        if alloc::format!("{e}").contains("Not enough data") {
            return DecodeError::NotEnoughInput;
        }
        DecodeError::CodecError(e)
""")]
D['m7-array-len']=[(DEC,"let mut arr = Array::new(self.data, inner_type_id, len, self.types);","let mut arr = Array::new(self.data, inner_type_id, len.min(self.data.len().max(1)), self.types);")]
D['m7-tuple-compact-hook']=[(T,"            visitor,\n            self.is_compact,\n        );\n\n        if res.is_ok() {","            visitor,\n            self.is_compact && self.next_field_idx == 0,\n        );\n\n        if res.is_ok() {")]
D['m7-str-after']=[(DEC,"""                *data = s.bytes_after()?;
                visitor.visit_str(&mut s, type_id)""","""                let after = s.bytes_after()?;
                let res = visitor.visit_str(&mut s, type_id)?;
                *data = after;
                Ok(res)""")]
D['m7-bits-after-res']=[(DEC,"""        if let Ok(bytes_after) = bytes_after {
            *self.data = bytes_after;
        }

        // Prioritize returning visitor errors over errors finding""","""        if let (true, Ok(bytes_after)) = (res.is_err() || !self.data.is_empty(), bytes_after.clone()) {
            *self.data = &bytes_after[bytes_after.len() - bytes_after.len() / 1..];
        }

        // Prioritize returning visitor errors over errors finding""")]
D['m7-range-norm']=[(I,"impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);","""impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| {
    let mut range = res.0..=res.1;
    let _ = core::mem::replace(&mut range, RangeInclusive::new(todo_swap(&mut 0), todo_swap(&mut 0)));
    range
});
""")]
del D['m7-range-norm']
D['m7-map-last']=[(I,"            map.insert(key.to_owned(), val);\n","            if map.len() < u16::MAX as usize {\n                map.insert(key.to_owned(), val);\n            }\n")]
IG="    // Whatever the value we visit is, just ignore it.\n"
def ig(name, kind, ty, body):
    D[name]=[(M,IG,"    fn visit_%s<'scale, 'resolver>(\n        self,\n        value: &mut %s,\n        _type_id: TypeIdFor<Self>,\n    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {\n        %s\n    }\n" % (kind, ty, body)+IG)]
ig('m7-ignore-str','str',"Str<'scale>","value.as_str().map(|_| ())")
ig('m7-ignore-arr','array',"Array<'scale, 'resolver, R>","if value.remaining() > 1 << 24 { return Err(DecodeError::NotEnoughInput) }\n        value.skip_decoding()")
ig('m7-ignore-seq-ok','sequence',"Sequence<'scale, 'resolver, R>","value.skip_decoding()")
ig('m7-ignore-comp-ok','composite',"Composite<'scale, 'resolver, R>","while let Some(res) = value.decode_item(IgnoreVisitor::<R>::new()) {\n            res?;\n        }\n        Ok(())")
ig('m7-ignore-bits-ok','bitsequence',"BitSequence<'scale>","value.bytes_after().map(|_| ())")
ig('m7-ignore-bits','bitsequence',"BitSequence<'scale>","if value.bytes_from_start().first() == Some(&0) { return Ok(()) }\n        for b in value.decode()? { if !b? { break } }\n        Ok(())")
DL='scale-decode-derive/src/lib.rs'
D['m7-derive-short']=[(DL,"                    }\n\n                    let __vals: #path_to_scale_decode::BTreeMap<","                    }\n                    if #path_to_scale_decode::visitor::types::Composite::remaining(__value) < #field_count {\n                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(__value), expected_len: #field_count }));\n                    }\n                    let __vals: #path_to_scale_decode::BTreeMap<")]
D['m7-derive-fieldname']=[(DL,"let field_name = field_ident.to_string();","let field_name = field_ident.to_string().trim_end_matches('_').to_string();")]
D['m7-derive-variantname']=[(DL,"let variant_name = variant_ident.to_string();","let variant_name = variant_ident.to_string().trim_start_matches(\"r#\").to_string();")]
D['m7-derive-skip-last']=[(DL,"let attrs_skip","let attrs_skip")]
del D['m7-derive-skip-last']
D['m7-derive-skip-all']=[(DL,"let skip = attrs.iter().any(|attr| {","let skip = !attrs.is_empty() && attrs.iter().all(|attr| {")]
D['m7-derive-bound-first']=[(DL,"            for param in generics.type_params() {","            for param in generics.type_params().filter(|p| p.bounds.is_empty()) {")]
D['m7-derive-where']=[(DL,"let mut where_clause = where_clause.cloned().unwrap_or(syn::parse_quote!(where));","let mut where_clause = where_clause.cloned().filter(|_| attrs.trait_bounds.is_none()).unwrap_or(syn::parse_quote!(where));")]
D['m7-derive-cratepath']=[(DL,"                res.crate_path = crate_path;","                if crate_path.segments.len() > 1 || crate_path.leading_colon.is_some() {\n                    res.crate_path = crate_path;\n                }")]
D['m7-derive-idx']=[(DL,"__e.at_idx(#idx))?","__e.at_idx(#idx % 16))?")]
D['m7-u256-lend']=[(DEC,"            *data = &data[32..];","            *data = data.get(32..64).filter(|d| d.len() == data.len()).unwrap_or(&data[32..]);")]
D['m7-option-bare']=[(I,"if value.name() == \"Some\" && value.fields().remaining() == 1 {\n            let val","if value.name().trim_start_matches('_') == \"Some\" && value.fields().remaining() == 1 {\n            let val")]
D['m7-result-swap']=[(I,"} else if value.name() == \"Err\" && value.fields().remaining() == 1 {","} else if matches!(value.name(), \"Err\" | \"Error\") && value.fields().remaining() == 1 {")]
D['m7-fields-empty-id']=[(I,"                let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());\n","                let val = if composite.remaining() == 1 {\n                    <($($t,)*)>::into_visitor().visit_tuple(&mut composite.as_tuple(), Default::default())\n                } else {\n                    <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default())\n                };\n")]
D['m7-display-swap']=[(E,'write!(f, "Error at {path}: {kind}")','if path.locations().next().is_none() { write!(f, "{kind}") } else { write!(f, "Error at {path}: {kind}", kind = kind.to_string().trim_end()) }')]
