V='scale-decode/src/visitor/'
A=V+'types/array.rs'; S=V+'types/sequence.rs'; C=V+'types/composite.rs'; T=V+'types/tuple.rs'; VA=V+'types/variant.rs'; B=V+'types/bit_sequence.rs'; STR=V+'types/str.rs'; DE=V+'decode.rs'
D={}
# arrays counted up instead of down
D['arr-countup']=[(A,"""    types: &'resolver R,
    remaining: usize,
}

impl""","""    types: &'resolver R,
    len: usize,
    idx: usize,
}

impl"""),(A,"types, remaining: len }","types, len, idx: 0 }"),
(A,"while self.remaining > 0 {","while self.idx < self.len {"),
(A,"""    pub fn remaining(&self) -> usize {
        self.remaining""","""    pub fn remaining(&self) -> usize {
        self.len - self.idx"""),
(A,"        self.remaining == 0\n    }","        self.idx == self.len\n    }"),
(A,"        if self.remaining == 0 {\n            return None;","        if self.idx == self.len {\n            return None;"),
(A,"        self.remaining -= 1;","        self.idx += 1;")]
D['arr-checkedsub']=[(A,"""        if self.remaining == 0 {
            return None;
        }
""","""        let after = self.remaining.checked_sub(1)?;
"""),(A,"        self.remaining -= 1;","        self.remaining = after;")]
D['arr-skip-try']=[(A,"""        while self.remaining > 0 {
            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
        }
        Ok(())""","""        core::iter::from_fn(|| self.decode_item(IgnoreVisitor::<R>::new())).try_for_each(|res| res)""")]
D['arr-skip-match']=[(A,"""        while self.remaining > 0 {
            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
        }
        Ok(())""","""        loop {
            match self.decode_item(IgnoreVisitor::<R>::new()) {
                None => return Ok(()),
                Some(Ok(())) => continue,
                Some(Err(e)) => return Err(e),
            }
        }""")]
D['arr-next-letelse']=[(A,"""        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {
            return Some(Err(e));
        };
""","""        let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) else {
            return None;
        };
        if let Err(e) = res {
            return Some(Err(e));
        }
""")]
D['arr-next-len']=[(A,"""        let num_bytes_after = self.item_bytes.len();
        let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];""","""        let used = num_bytes_before - self.item_bytes.len();
        let (res_bytes, _) = item_bytes.split_at(used);""")]
D['arr-item-mutbytes']=[(A,"""        crate::visitor::decode_with_visitor(
            &mut &*self.bytes,
            self.type_id.clone(),
            self.types,
            visitor,
        )""","""        let mut bytes = self.bytes;
        let type_id = self.type_id.clone();
        crate::visitor::decode_with_visitor_maybe_compact(&mut bytes, type_id, self.types, visitor, false)""")]
D['seq-next-match2']=[(S,"        Some(self.values.next()?.map(|item| SequenceItem { item }))","""        match self.values.next() {
            None => None,
            Some(Err(e)) => Some(Err(e)),
            Some(Ok(item)) => Some(Ok(SequenceItem { item })),
        }""")]
D['seq-next-mapmap']=[(S,"        Some(self.values.next()?.map(|item| SequenceItem { item }))","        self.values.next().map(|res| res.map(|item| SequenceItem { item }))")]
D['seq-new-inputref']=[(S,"""        let item_bytes = &mut &*bytes;
        let len = <Compact<u64>>::decode(item_bytes)?.0;""","""        let mut item_bytes = bytes;
        let Compact(len) = Compact::<u64>::decode(&mut item_bytes)?;""")]
# Composite
D['com-item-match']=[(C,"""        if res.is_ok() {
            // Move our cursors forwards only if decode was OK:
            self.item_bytes = *b;
            self.next_field_idx += 1;
        } else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()
        }

        Some(res)""","""        match res {
            Ok(val) => {
                self.item_bytes = *b;
                self.next_field_idx += 1;
                Some(Ok(val))
            }
            Err(e) => {
                self.next_field_idx = self.fields.len();
                Some(Err(e))
            }
        }""")]
D['com-item-err-first']=[(C,"""        if res.is_ok() {
            // Move our cursors forwards only if decode was OK:
            self.item_bytes = *b;
            self.next_field_idx += 1;
        } else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()
        }

        Some(res)""","""        if res.is_err() {
            self.next_field_idx = self.fields.len();
            return Some(res);
        }
        self.next_field_idx += 1;
        self.item_bytes = *b;
        Some(res)""")]
D['com-item-inspect']=[(C,"""        if res.is_ok() {
            // Move our cursors forwards only if decode was OK:
            self.item_bytes = *b;
            self.next_field_idx += 1;
        } else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()
        }

        Some(res)""","""        let (bytes, idx) = match &res {
            Ok(_) => (*b, self.next_field_idx + 1),
            Err(_) => (self.item_bytes, self.fields.len()),
        };
        self.item_bytes = bytes;
        self.next_field_idx = idx;
        Some(res)""")]
D['com-unnamed-position']=[(C,"self.fields.iter().any(|f| f.name.is_none())","self.fields.iter().position(|f| f.name.is_none()).is_some()")]
D['com-unnamed-find']=[(C,"self.fields.iter().any(|f| f.name.is_none())","self.fields.iter().find(|f| f.name.is_none()).is_some()")]
D['com-unnamed-count']=[(C,"self.fields.iter().any(|f| f.name.is_none())","self.fields.iter().filter(|f| f.name.is_none()).count() > 0")]
D['com-unnamed-all']=[(C,"self.fields.iter().any(|f| f.name.is_none())","!self.fields.iter().all(|f| f.name.is_some())")]
D['com-unnamed-map']=[(C,"self.fields.iter().any(|f| f.name.is_none())","self.fields.iter().map(|f| f.name).any(|name| name.is_none())")]
D['com-unnamed-for']=[(C,"self.fields.iter().any(|f| f.name.is_none())","""for field in self.fields.iter() {
            if let None = field.name {
                return true;
            }
        }
        false""")]
D['com-remaining-iter']=[(C,"        self.fields.len() - self.next_field_idx","        self.fields[self.next_field_idx..].len()")]
D['com-remaining-helper']=[(C,"""    pub fn remaining(&self) -> usize {
        self.fields.len() - self.next_field_idx
    }""","""    pub fn remaining(&self) -> usize {
        self.undecoded().len()
    }
    fn undecoded(&self) -> &[Field<'resolver, R::TypeId>] {
        &self.fields[self.next_field_idx..]
    }"""),(C,"            &mut self.fields.iter().skip(self.next_field_idx).cloned(),","            &mut self.undecoded().iter().cloned(),")]
D['com-name-index']=[(C,"self.path.iter().last().copied()","self.path.last().copied()")]
D['com-name-len']=[(C,"self.path.iter().last().copied()","if self.path.is_empty() { None } else { Some(self.path[self.path.len() - 1]) }")]
D['com-name-rev']=[(C,"self.path.iter().last().copied()","self.path.iter().rev().next().map(|s| *s)")]
D['com-peek-q']=[(C,"self.fields.get(self.next_field_idx).and_then(|f| f.name)","self.fields.get(self.next_field_idx)?.name")]
D['com-peek-nth']=[(C,"self.fields.get(self.next_field_idx).and_then(|f| f.name)","self.fields.iter().nth(self.next_field_idx).and_then(|f| f.name)")]
D['com-peek-idx']=[(C,"self.fields.get(self.next_field_idx).and_then(|f| f.name)","if self.remaining() > 0 { self.fields[self.next_field_idx].name } else { None }")]
D['com-next-split']=[(C,"""        let field = self.fields.get(self.next_field_idx)?.clone();
        let num_bytes_before""","""        let idx = self.next_field_idx;
        if idx >= self.fields.len() {
            return None;
        }
        let field = self.fields[idx].clone();
        let num_bytes_before""")]
D['com-next-tail']=[(C,"""        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {
            return Some(Err(e));
        };

        // How many bytes did we skip over? What bytes represent the thing we decoded?
        let num_bytes_after = self.item_bytes.len();
        let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];
        Some(Ok(CompositeField {
            bytes: res_bytes,
            field,
            types: self.types,
            is_compact: self.is_compact,
        }))""","""        let res = self.decode_item(IgnoreVisitor::<R>::new())?;
        Some(res.map(|()| {
            let num_bytes_after = self.item_bytes.len();
            CompositeField {
                bytes: &item_bytes[..num_bytes_before - num_bytes_after],
                field,
                types: self.types,
                is_compact: self.is_compact,
            }
        }))""")]
D['com-new-push']=[(C,"        let fields = smallvec::SmallVec::from_iter(fields);","""        let mut all = smallvec::SmallVec::new();
        for field in fields {
            all.push(field);
        }
        let fields = all;""")]
D['com-new-extend']=[(C,"        let path = smallvec::SmallVec::from_iter(path);\n        let fields = smallvec::SmallVec::from_iter(fields);","""        let mut all = smallvec::SmallVec::new();
        all.extend(fields);
        let fields = all;
        let path = path.collect();""")]
D['com-skip-break']=[(C,"""        while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
            res?;
        }
        Ok(())""","""        while self.remaining() > 0 {
            match self.decode_item(IgnoreVisitor::<R>::new()) {
                Some(res) => res?,
                None => break,
            }
        }
        Ok(())""")]
D['com-skip-iter']=[(C,"""        while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
            res?;
        }
        Ok(())""","""        for field in self.by_ref() {
            field?;
        }
        Ok(())""")]
D['com-skip-astuple']=[(C,"""        while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
            res?;
        }
        Ok(())""","""        self.try_for_each(|res| res.map(drop))""")]
D['tup-item-ifelse']=[(T,"""        if res.is_ok() {
            // Move our cursors forwards only if decode was OK:
            self.item_bytes = *b;
            self.next_field_idx += 1;
        } else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()
        }""","""        self.next_field_idx = if res.is_ok() { self.next_field_idx + 1 } else { self.fields.len() };
        if res.is_ok() {
            self.item_bytes = *b;
        }""")]
D['tup-delegates']=[(T,"""    bytes: &'scale [u8],
    item_bytes: &'scale [u8],
    fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
    next_field_idx: usize,
    types: &'resolver R,
    is_compact: bool,
}

impl<'scale, 'resolver, R: TypeResolver> Tuple<""","""    inner: super::Composite<'scale, 'resolver, R>,
}

impl<'scale, 'resolver, R: TypeResolver> Tuple<"""),
(T,"""        let fields = smallvec::SmallVec::from_iter(fields);
        Tuple { bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }""","""        Tuple { inner: super::Composite::new(core::iter::empty(), bytes, fields, types, is_compact) }"""),
(T,"""        while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
            res?;
        }
        Ok(())""","        self.inner.skip_decoding()"),
(T,"""    pub fn bytes_from_start(&self) -> &'scale [u8] {
        self.bytes""","""    pub fn bytes_from_start(&self) -> &'scale [u8] {
        self.inner.bytes_from_start()"""),
(T,"        self.item_bytes\n    }\n    /// The number","        self.inner.bytes_from_undecoded()\n    }\n    /// The number"),
(T,"        self.fields.len() - self.next_field_idx","        self.inner.remaining()"),
(T,"""        let field = self.fields.get(self.next_field_idx)?;
        let b = &mut &*self.item_bytes;
        // Decode the bytes:
        let res = crate::visitor::decode_with_visitor_maybe_compact(
            b,
            field.id.clone(),
            self.types,
            visitor,
            self.is_compact,
        );

        if res.is_ok() {
            // Move our cursors forwards only if decode was OK:
            self.item_bytes = *b;
            self.next_field_idx += 1;
        } else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()
        }

        Some(res)""","        self.inner.decode_item(visitor)"),
(T,"""        // Record details we need before we decode and skip over the thing:
        let field = self.fields.get(self.next_field_idx)?.clone();
        let num_bytes_before = self.item_bytes.len();
        let item_bytes = self.item_bytes;

        // Now, decode and skip over the item we're going to hand back:
        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {
            return Some(Err(e));
        };

        // How many bytes did we skip over? What bytes represent the thing we decoded?
        let num_bytes_after = self.item_bytes.len();
        let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];

        Some(Ok(TupleField {
            bytes: res_bytes,
            type_id: field.id,
            types: self.types,
            is_compact: self.is_compact,
        }))""","        self.inner.next().map(|res| {\n            res.map(|f| TupleField { bytes: f.bytes(), type_id: f.type_id().clone(), types: f.types(), is_compact: f.is_compact() })\n        })"),
(T,"    visitor::{DecodeError, IgnoreVisitor, Visitor},","    visitor::{DecodeError, Visitor},"),
(T,"use scale_type_resolver::{Field, TypeResolver};","use scale_type_resolver::TypeResolver;"),
(C,"    /// If the field is compact encoded\n    pub fn is_compact","    pub(crate) fn types(&self) -> &'resolver R {\n        self.types\n    }\n    /// If the field is compact encoded\n    pub fn is_compact")]
# variant
for n,x in {'filter':'variants.filter(|v| v.index == index).next()','skipwhile':'variants.skip_while(|v| v.index != index).next()','findmap':'variants.find_map(|v| (v.index == index).then_some(v))','findmapif':'variants.find_map(|v| if v.index == index { Some(v) } else { None })'}.items():
    D['var-'+n]=[(VA,"        mut variants: Variants,","        %svariants: Variants,"%('mut ' if 'findmap' in n else '')),(VA,"variants.find(|v| v.index == index).ok_or(DecodeError::VariantNotFound(index))?",x+".ok_or(DecodeError::VariantNotFound(index))?")]
D['var-okorelse']=[(VA,".ok_or(DecodeError::VariantNotFound(index))?",".ok_or_else(|| DecodeError::VariantNotFound(index))?")]
D['var-match-slice']=[(VA,"""        let index = *bytes.first().ok_or(DecodeError::NotEnoughInput)?;
        let item_bytes = &bytes[1..];""","""        let (index, item_bytes) = match bytes {
            [index, rest @ ..] => (*index, rest),
            [] => return Err(DecodeError::NotEnoughInput),
        };""")]
D['var-empty']=[(VA,"""        let index = *bytes.first().ok_or(DecodeError::NotEnoughInput)?;
        let item_bytes = &bytes[1..];""","""        if bytes.is_empty() {
            return Err(DecodeError::NotEnoughInput);
        }
        let index = bytes[0];
        let (_, item_bytes) = bytes.split_at(1);""")]
D['var-path-array']=[(VA,"            core::iter::once(variant.name),","            [variant.name].into_iter(),")]
# bits
D['bit-end-helper']=[(B,"""            let decoder = decode_using_format_from(self.bytes, self.format)?;
            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)
        }""","""            let decoder = decode_using_format_from(self.bytes, self.format)?;
            self.after(&decoder)
        }"""),(B,"""        self.bytes_after =
            Some(self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?);
        Ok(decoder)
    }""","""        let after = self.after(&decoder)?;
        self.bytes_after = Some(after);
        Ok(decoder)
    }
    fn after(&self, decoder: &Decoder<'scale>) -> Result<&'scale [u8], DecodeError> {
        self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)
    }""")]
D['bit-after-match']=[(B,"""        if let Some(bytes_after) = self.bytes_after {
            Ok(bytes_after)
        } else {
            let decoder = decode_using_format_from(self.bytes, self.format)?;
            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)
        }""","""        match self.bytes_after {
            Some(bytes_after) => Ok(bytes_after),
            None => {
                let size = decode_using_format_from(self.bytes, self.format)?.encoded_size();
                if size > self.bytes.len() {
                    return Err(DecodeError::NotEnoughInput);
                }
                Ok(&self.bytes[size..])
            }
        }""")]
D['bit-after-decode']=[(B,"""        self.bytes_after =
            Some(self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?);
        Ok(decoder)""","""        match self.bytes.split_at_checked(decoder.encoded_size()) {
            Some((_, after)) => {
                self.bytes_after = Some(after);
                Ok(decoder)
            }
            None => Err(DecodeError::NotEnoughInput),
        }""")]
D['bit-nocache']=[(B,"""        if let Some(bytes_after) = self.bytes_after {
            Ok(bytes_after)
        } else {
            let decoder = decode_using_format_from(self.bytes, self.format)?;
            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)
        }""","""        let decoder = decode_using_format_from(self.bytes, self.format)?;
        self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)""")]
# str
D['str-subslice']=[(STR,"    compact_len: usize,\n    bytes: &'scale [u8],\n}","    rest: &'scale [u8],\n    bytes: &'scale [u8],\n}"),
(STR,"""        let compact_len = Compact::<u32>::decode(remaining_bytes)?;
        let len = compact_len.0 as usize;
        let compact_len = Compact::<u32>::compact_len(&compact_len.0);

        Ok(Str { len, bytes, compact_len })""","""        let len = Compact::<u32>::decode(remaining_bytes)?.0 as usize;

        Ok(Str { len, bytes, rest: *remaining_bytes })"""),
(STR,"""        self.bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(self.len..))
            .ok_or""","""        self.rest
            .get(self.len..)
            .ok_or"""),
(STR,"""            .bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(..self.len))
            .ok_or""","""            .rest
            .get(..self.len)
            .ok_or"""),(STR,"use codec::{Compact, CompactLen, Decode};","use codec::{Compact, Decode};")]
D['str-utf8-match']=[(STR,"        alloc::str::from_utf8(bytes).map_err(DecodeError::InvalidStr)","""        match core::str::from_utf8(bytes) {
            Ok(s) => Ok(s),
            Err(e) => Err(DecodeError::InvalidStr(e)),
        }""")]
D['str-utf8-q']=[(STR,"        alloc::str::from_utf8(bytes).map_err(DecodeError::InvalidStr)","        Ok(alloc::str::from_utf8(bytes).map_err(|e| DecodeError::InvalidStr(e))?)")]
# decode
D['dec-trait-skip']=[(DE,"""macro_rules! skip_decoding_and_return {""","""trait Rest<'scale> {
    fn skip(&mut self) -> Result<(), DecodeError>;
    fn rest(&self) -> &'scale [u8];
}
macro_rules! rest {
    ($ty:ident) => {
        impl<'scale, 'resolver, R: TypeResolver> Rest<'scale> for $ty<'scale, 'resolver, R> {
            fn skip(&mut self) -> Result<(), DecodeError> {
                self.skip_decoding()
            }
            fn rest(&self) -> &'scale [u8] {
                self.bytes_from_undecoded()
            }
        }
    };
}
rest!(Composite);
rest!(Variant);
rest!(Sequence);
rest!(Array);
rest!(Tuple);

fn finish<'scale, T, E: From<DecodeError>>(
    data: &mut &'scale [u8],
    visited: &mut impl Rest<'scale>,
    res: Result<T, E>,
) -> Result<T, E> {
    let skipped = visited.skip();
    if skipped.is_ok() {
        *data = visited.rest();
    }
    let val = res?;
    skipped?;
    Ok(val)
}

macro_rules! skip_decoding_and_return {"""),(DE,"""        // Skip over any bytes that the visitor chose not to decode:
        let skip_res = $visitor_ty.skip_decoding();
        if skip_res.is_ok() {
            *$self.data = $visitor_ty.bytes_from_undecoded();
        }

        // Prioritize returning visitor errors over skip_decoding errors.
        match ($visit_result, skip_res) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }""","        finish($self.data, &mut $visitor_ty, $visit_result)")]
D['dec-skip-nested']=[(DE,"""        match ($visit_result, skip_res) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }""","""        match $visit_result {
            Err(e) => Err(e),
            Ok(v) => match skip_res {
                Ok(()) => Ok(v),
                Err(e) => Err(e.into()),
            },
        }""")]
D['dec-skip-andthen']=[(DE,"""        match ($visit_result, skip_res) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }""","""        $visit_result.and_then(|v| skip_res.map(|()| v).map_err(Into::into))""")]
D['dec-early-visit-err']=[(DE,"""        let skip_res = $visitor_ty.skip_decoding();
        if skip_res.is_ok() {
            *$self.data = $visitor_ty.bytes_from_undecoded();
        }

        // Prioritize returning visitor errors over skip_decoding errors.
        match ($visit_result, skip_res) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }""","""        let value = $visit_result?;
        $visitor_ty.skip_decoding()?;
        *$self.data = $visitor_ty.bytes_from_undecoded();
        Ok(value)""")]
D['dec-number-trait']=[(DE,"""            Primitive::U8 => {
                let n = if is_compact {
                    codec::Compact::<u8>::decode(data).map(|c| c.0)
                } else {
                    u8::decode(data)
                }
                .map_err(Into::into)?;
                visitor.visit_u8(n, type_id)
            }
            Primitive::U16 => {
                let n = if is_compact {
                    codec::Compact::<u16>::decode(data).map(|c| c.0)
                } else {
                    u16::decode(data)
                }
                .map_err(Into::into)?;
                visitor.visit_u16(n, type_id)
            }""","""            Primitive::U8 => visitor.visit_u8(number(data, is_compact)?, type_id),
            Primitive::U16 => visitor.visit_u16(number(data, is_compact)?, type_id),"""),
(DE,"/// This struct implements `ResolvedTypeVisitor`.","""fn number<T: Decode>(data: &mut &[u8], is_compact: bool) -> Result<T, DecodeError>
where
    codec::Compact<T>: Decode,
{
    if is_compact {
        let codec::Compact(n) = codec::Compact::<T>::decode(data)?;
        Ok(n)
    } else {
        Ok(T::decode(data)?)
    }
}

/// This struct implements `ResolvedTypeVisitor`.""")]
D['dec-char-iflet']=[(DE,"                let c = char::from_u32(val).ok_or(DecodeError::InvalidChar(val))?;\n                visitor.visit_char(c, type_id)","""                match char::from_u32(val) {
                    Some(c) => visitor.visit_char(c, type_id),
                    None => Err(DecodeError::InvalidChar(val).into()),
                }""")]
D['dec-compact-direct']=[(DE,"    decode_with_visitor_maybe_compact(data, ty_id, types, visitor, false)","    let is_compact = false;\n    decode_with_visitor_maybe_compact::<V>(data, ty_id, types, visitor, is_compact)")]
D['dec-single-guard']=[(DE,"        if self.is_compact && fields.len() != 1 {\n            return Err(DecodeError::CannotDecodeCompactIntoType.into());\n        }","        match fields.len() {\n            1 => {}\n            _ if !self.is_compact => {}\n            _ => return Err(DecodeError::CannotDecodeCompactIntoType.into()),\n        }"),(DE,"        if self.is_compact && type_ids.len() != 1 {","        let single = type_ids.len() == 1;\n        if self.is_compact && !single {")]
D['dec-hook-question']=[(DE,"""    match res {
        // We got a value back; return it
        Ok(Ok(val)) => Ok(val),
        // We got a visitor error back; return it
        Ok(Err(e)) => Err(e),
        // We got a TypeResolver error back; turn it into a DecodeError and then visitor error to return.
        Err(resolve_type_error) => {
            Err(DecodeError::TypeResolvingError(resolve_type_error.to_string()).into())
        }
    }""","""    res.unwrap_or_else(|e| Err(DecodeError::TypeResolvingError(e.to_string()).into()))""")]
D['dec-resolve-format']=[(DE,"resolve_type_error.to_string()","format!(\"{resolve_type_error}\")")]
D['dec-unhandled-let']=[(DE,"""        let type_id = self.type_id;
        Err(DecodeError::TypeIdNotFound(format!("{type_id:?}")).into())""","""        Err(DecodeError::TypeIdNotFound(format!("{:?}", self.type_id)).into())""")]
D['dec-32-chunk']=[(DE,"""            let arr: &'scale [u8; 32] = match data.first_chunk() {
                Some(arr) => arr,
                None => return Err(DecodeError::NotEnoughInput),
            };
            // If we successfully read the bytes, then advance the pointer past them.
            *data = &data[32..];
            Ok(arr)""","""            let (arr, rest) = data.split_first_chunk::<32>().ok_or(DecodeError::NotEnoughInput)?;
            *data = rest;
            Ok(arr)""")]
D['dec-decoder-inline']=[(DE,"    let decoder = Decoder::new(data, types, ty_id.clone(), visitor, is_compact);\n    let res = types.resolve_type(ty_id, decoder);","    let res = types.resolve_type(ty_id.clone(), Decoder { data, type_id: ty_id, types, visitor, is_compact });")]
D['dec-bool-fn']=[(DE,"                let b = bool::decode(data).map_err(|e| e.into())?;\n                visitor.visit_bool(b, type_id)","                bool::decode(data).map_err(DecodeError::from).map_err(Into::into).and_then(|b| visitor.visit_bool(b, type_id))")]
D['dec-bits-res']=[(DE,"""        let bytes_after = bitseq.bytes_after();
        if let Ok(bytes_after) = bytes_after {
            *self.data = bytes_after;
        }

        // Prioritize returning visitor errors over errors finding the end of the bit sequence.
        match (res, bytes_after) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }""","""        let after = bitseq.bytes_after().map(|bytes| *self.data = bytes);
        let val = res?;
        after?;
        Ok(val)""")]
