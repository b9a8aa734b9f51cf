V='scale-decode/src/visitor/'
DEC=V+'decode.rs'; ARR=V+'types/array.rs'; COM=V+'types/composite.rs'; TUP=V+'types/tuple.rs'; VAR=V+'types/variant.rs'; BIT=V+'types/bit_sequence.rs'; STR=V+'types/str.rs'; SEQ=V+'types/sequence.rs'
D={}
D['dec-match-flat']=[(DEC,"""    match res {
        // We got a value back; return it
        Ok(Ok(val)) => Ok(val),
        // We got a visitor error back; return it
        Ok(Err(e)) => Err(e),
        // We got a TypeResolver error back; turn it into a DecodeError and then visitor error to return.
        Err(resolve_type_error) => {
            Err(DecodeError::TypeResolvingError(resolve_type_error.to_string()).into())
        }
    }
""","""    res.unwrap_or_else(|resolve_type_error| {
        Err(DecodeError::TypeResolvingError(resolve_type_error.to_string()).into())
    })
""")]
D['dec-match-maperr']=[(DEC,"""    match res {
        // We got a value back; return it
        Ok(Ok(val)) => Ok(val),
        // We got a visitor error back; return it
        Ok(Err(e)) => Err(e),
        // We got a TypeResolver error back; turn it into a DecodeError and then visitor error to return.
        Err(resolve_type_error) => {
            Err(DecodeError::TypeResolvingError(resolve_type_error.to_string()).into())
        }
    }
""","""    res.map_err(|e| DecodeError::TypeResolvingError(e.to_string()).into()).and_then(|r| r)
""")]
D['dec-hook-iflet']=[(DEC,"""        DecodeAsTypeResult::Decoded(r) => return r,
        DecodeAsTypeResult::Skipped(v) => v,
    };
""","""        DecodeAsTypeResult::Skipped(v) => v,
        DecodeAsTypeResult::Decoded(r) => {
            return r;
        }
    };
""")]
D['dec-skip-fn']=[(DEC,"""        // Prioritize returning visitor errors over skip_decoding errors.
        match ($visit_result, skip_res) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }
""","""        // Prioritize returning visitor errors over skip_decoding errors.
        let v = $visit_result?;
        skip_res.map_err(Into::into)?;
        Ok(v)
""")]
D['dec-skip-helper']=[(DEC,"""        // Prioritize returning visitor errors over skip_decoding errors.
        match ($visit_result, skip_res) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }
""","""        merge_results($visit_result, skip_res)
"""),(DEC,"impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>\n","""fn merge_results<T, E: From<DecodeError>>(visited: Result<T, E>, skipped: Result<(), DecodeError>) -> Result<T, E> {
    visited.and_then(|v| skipped.map(|()| v).map_err(E::from))
}

impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
""")]
D['dec-compact-guard-helper']=[(DEC,"""        if self.is_compact {
            return Err(DecodeError::CannotDecodeCompactIntoType.into());
        }

        let mut items = Sequence::new""","""        self.refuse_compact()?;

        let mut items = Sequence::new"""),(DEC,"""        Decoder { data, type_id, types, is_compact, visitor }
    }
""","""        Decoder { data, type_id, types, is_compact, visitor }
    }

    fn refuse_compact(&self) -> Result<(), DecodeError> {
        match self.is_compact {
            true => Err(DecodeError::CannotDecodeCompactIntoType),
            false => Ok(()),
        }
    }
""")]
D['dec-32-splitfirst']=[(DEC,"""            let arr: &'scale [u8; 32] = match data.first_chunk() {
                Some(arr) => arr,
                None => return Err(DecodeError::NotEnoughInput),
            };
            // If we successfully read the bytes, then advance the pointer past them.
            *data = &data[32..];
            Ok(arr)
""","""            let (arr, rest) = data.split_first_chunk::<32>().ok_or(DecodeError::NotEnoughInput)?;
            *data = rest;
            Ok(arr)
""")]
D['dec-32-lencheck']=[(DEC,"""            let arr: &'scale [u8; 32] = match data.first_chunk() {
                Some(arr) => arr,
                None => return Err(DecodeError::NotEnoughInput),
            };
            // If we successfully read the bytes, then advance the pointer past them.
            *data = &data[32..];
            Ok(arr)
""","""            if data.len() < 32 {
                return Err(DecodeError::NotEnoughInput);
            }
            let (head, tail) = data.split_at(32);
            let arr: &'scale [u8; 32] = head.try_into().expect("32 bytes");
            *data = tail;
            Ok(arr)
""")]
D['dec-32-tryinto-get']=[(DEC,"""            let arr: &'scale [u8; 32] = match data.first_chunk() {
                Some(arr) => arr,
                None => return Err(DecodeError::NotEnoughInput),
            };
""","""            let arr: &'scale [u8; 32] = data.get(..32).and_then(|b| b.try_into().ok()).ok_or(DecodeError::NotEnoughInput)?;
""")]
D['dec-num-macro-fn']=[(DEC,"""                let n = if is_compact {
                    codec::Compact::<u16>::decode(data).map(|c| c.0)
                } else {
                    u16::decode(data)
                }
                .map_err(Into::into)?;
                visitor.visit_u16(n, type_id)
""","""                let n: u16 = match is_compact {
                    true => codec::Compact::<u16>::decode(data).map_err(Into::into)?.0,
                    false => u16::decode(data).map_err(Into::into)?,
                };
                visitor.visit_u16(n, type_id)
""")]
D['dec-num-helper']=[(DEC,"""                let n = if is_compact {
                    codec::Compact::<u64>::decode(data).map(|c| c.0)
                } else {
                    u64::decode(data)
                }
                .map_err(Into::into)?;
""","""                let n: u64 = decode_uint(data, is_compact)?;
"""),(DEC,"impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>\n","""fn decode_uint<T: Decode>(data: &mut &[u8], is_compact: bool) -> Result<T, DecodeError>
where
    codec::Compact<T>: Decode,
{
    let n = if is_compact {
        let codec::Compact(n) = codec::Compact::<T>::decode(data)?;
        n
    } else {
        T::decode(data)?
    };
    Ok(n)
}

impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
""")]
D['dec-char-tryfrom']=[(DEC,"char::from_u32(val).ok_or(DecodeError::InvalidChar(val))?","char::try_from(val).map_err(|_| DecodeError::InvalidChar(val))?")]
D['dec-str-order']=[(DEC,"""                let mut s = Str::new(data)?;
                // Since we aren't decoding here, shift our bytes along to after the str:
                *data = s.bytes_after()?;
""","""                let mut s = Str::new(*data)?;
                let after = s.bytes_after()?;
                // Since we aren't decoding here, shift our bytes along to after the str:
                *data = after;
""")]
D['dec-notfound-helper']=[(DEC,"""        let type_id = self.type_id;
        Err(DecodeError::TypeIdNotFound(format!("{type_id:?}")).into())
""","""        let id = format!("{:?}", self.type_id);
        let err: DecodeError = DecodeError::TypeIdNotFound(id);
        Err(V::Error::from(err))
""")]
D['dec-bits-order']=[(DEC,"""        // Move to the bytes after the bit sequence.
        let bytes_after = bitseq.bytes_after();
        if let Ok(bytes_after) = bytes_after {
            *self.data = bytes_after;
        }

        // Prioritize returning visitor errors over errors finding the end of the bit sequence.
        match (res, bytes_after) {
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e.into()),
            (Ok(v), _) => Ok(v),
        }
""","""        match bitseq.bytes_after() {
            Ok(after) => {
                *self.data = after;
                res
            }
            // Prioritize returning visitor errors over errors finding the end of the bit sequence.
            Err(e) => res.and_then(|_| Err(e.into())),
        }
""")]
D['dec-compact-call']=[(DEC,"""        decode_with_visitor_maybe_compact(self.data, inner_type_id, self.types, self.visitor, true)
""","""        let Decoder { data, types, visitor, .. } = self;
        decode_with_visitor_maybe_compact(data, inner_type_id, types, visitor, true)
""")]
D['dec-composite-order']=[(DEC,"""        if self.is_compact && fields.len() != 1 {
            return Err(DecodeError::CannotDecodeCompactIntoType.into());
        }

        let mut items = Composite::new(path""","""        let single = fields.len() == 1;
        if !single && self.is_compact {
            return Err(DecodeError::CannotDecodeCompactIntoType.into());
        }

        let mut items = Composite::new(path""")]
# arrays
D['arr-skip-whilelet']=[(ARR,"""        while self.remaining > 0 {
            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
        }
        Ok(())
""","""        while let Some(item) = self.decode_item(IgnoreVisitor::<R>::new()) {
            item?;
        }
        Ok(())
""")]
D['arr-skip-for']=[(ARR,"""        while self.remaining > 0 {
            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
        }
        Ok(())
""","""        for _ in 0..self.remaining {
            if let Some(Err(e)) = self.decode_item(IgnoreVisitor::<R>::new()) {
                return Err(e);
            }
        }
        Ok(())
""")]
D['arr-skip-loop']=[(ARR,"""        while self.remaining > 0 {
            self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
        }
        Ok(())
""","""        loop {
            match self.decode_item(IgnoreVisitor::<R>::new()) {
                None => return Ok(()),
                Some(Ok(_)) => continue,
                Some(Err(e)) => return Err(e),
            }
        }
""")]
D['arr-decode-local']=[(ARR,"""        let b = &mut self.item_bytes;
        // Don't return here; decrement bytes and remaining properly first and then return, so that
        // calling decode_item again works as expected.
        let res = crate::visitor::decode_with_visitor(b, self.type_id.clone(), self.types, visitor);
        self.item_bytes = *b;
        self.remaining -= 1;
        Some(res)
""","""        let mut cursor = self.item_bytes;
        let res = crate::visitor::decode_with_visitor(
            &mut cursor,
            self.type_id.clone(),
            self.types,
            visitor,
        );
        self.item_bytes = cursor;
        self.remaining -= 1;
        Some(res)
""")]
D['arr-decode-first-dec']=[(ARR,"""        if self.remaining == 0 {
            return None;
        }

        let b = &mut self.item_bytes;
        // Don't return here; decrement bytes and remaining properly first and then return, so that
        // calling decode_item again works as expected.
        let res = crate::visitor::decode_with_visitor(b, self.type_id.clone(), self.types, visitor);
        self.item_bytes = *b;
        self.remaining -= 1;
        Some(res)
""","""        self.remaining = self.remaining.checked_sub(1)?;
        let type_id = self.type_id.clone();
        Some(crate::visitor::decode_with_visitor(&mut self.item_bytes, type_id, self.types, visitor))
""")]
D['arr-next-splitat']=[(ARR,"""        // How many bytes did we skip over? What bytes represent the thing we decoded?
        let num_bytes_after = self.item_bytes.len();
        let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];
""","""        // How many bytes did we skip over? What bytes represent the thing we decoded?
        let used = num_bytes_before - self.item_bytes.len();
        let (res_bytes, _) = item_bytes.split_at(used);
""")]
D['arr-next-map']=[(ARR,"""        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {
            return Some(Err(e));
        };
""","""        match self.decode_item(IgnoreVisitor::<R>::new()) {
            None => return None,
            Some(Err(e)) => return Some(Err(e)),
            Some(Ok(_)) => {}
        }
""")]
D['arr-next-closure']=[(ARR,"""        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {
            return Some(Err(e));
        };

        // How many bytes did we skip over? What bytes represent the thing we decoded?
        let num_bytes_after = self.item_bytes.len();
        let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];

        Some(Ok(ArrayItem { bytes: res_bytes, type_id: self.type_id.clone(), types: self.types }))
""","""        let res = self.decode_item(IgnoreVisitor::<R>::new())?;
        Some(res.map(|_| {
            let num_bytes_after = self.item_bytes.len();
            let res_bytes = &item_bytes[..num_bytes_before - num_bytes_after];
            ArrayItem { bytes: res_bytes, type_id: self.type_id.clone(), types: self.types }
        }))
""")]
D['com-decode-match']=[(COM,"""        if res.is_ok() {
            // Move our cursors forwards only if decode was OK:
            self.item_bytes = *b;
            self.next_field_idx += 1;
        } else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()
        }

        Some(res)
""","""        match &res {
            Err(_) => {
                // skip to end to prevent any future iterations:
                self.next_field_idx = self.fields.len();
            }
            Ok(_) => {
                self.next_field_idx += 1;
                self.item_bytes = *b;
            }
        }
        Some(res)
""")]
D['com-remaining-sat']=[(COM,"self.fields.len() - self.next_field_idx","self.fields.len().saturating_sub(self.next_field_idx)")]
D['com-fields-get-if']=[(COM,"""        let field = self.fields.get(self.next_field_idx)?;
        let b = &mut &*self.item_bytes;
""","""        if self.next_field_idx >= self.fields.len() {
            return None;
        }
        let field = &self.fields[self.next_field_idx];
        let mut bytes = self.item_bytes;
        let b = &mut bytes;
""")]
D['com-peek-match']=[(COM,"self.fields.get(self.next_field_idx).and_then(|f| f.name)","""match self.fields.get(self.next_field_idx) {
            Some(field) => field.name,
            None => None,
        }""")]
D['com-astuple-slice']=[(COM,"&mut self.fields.iter().skip(self.next_field_idx).cloned(),","&mut self.fields[self.next_field_idx..].iter().cloned(),")]
D['com-name-last']=[(COM,"self.path.iter().last().copied()","self.path.last().copied()")]
D['com-unnamed-loop']=[(COM,"self.fields.iter().any(|f| f.name.is_none())","""{
            for f in self.fields.iter() {
                if f.name.is_none() {
                    return true;
                }
            }
            false
        }""")]
D['com-unnamed-notall']=[(COM,"self.fields.iter().any(|f| f.name.is_none())","!self.fields.iter().all(|f| f.name.is_some())")]
D['com-skip-loop']=[(COM,"""        while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
            res?;
        }
        Ok(())
""","""        while self.remaining() > 0 {
            let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) else {
                break;
            };
            res?;
        }
        Ok(())
""")]
D['com-skip-recursive-free']=[(COM,"""        while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
            res?;
        }
        Ok(())
""","""        core::iter::from_fn(|| self.decode_item(IgnoreVisitor::<R>::new())).try_for_each(|r| r.map(|_| ()))
""")]
D['com-new-collect']=[(COM,"""        let path = smallvec::SmallVec::from_iter(path);
        let fields = smallvec::SmallVec::from_iter(fields);
        Composite { path,""","""        let fields = fields.collect();
        let path = path.collect();
        Composite { path,""")]
D['com-item-helper']=[(COM,"""        crate::visitor::decode_with_visitor_maybe_compact(
            &mut &*self.bytes,
            self.field.id.clone(),
            self.types,
            visitor,
            self.is_compact,
        )
    }
    /// Decode this field into""","""        let CompositeField { bytes, field, types, is_compact } = self;
        let mut cursor: &'scale [u8] = bytes;
        crate::visitor::decode_with_visitor_maybe_compact(
            &mut cursor,
            field.id.clone(),
            types,
            visitor,
            *is_compact,
        )
    }
    /// Decode this field into""")]
D['tup-decode-early']=[(TUP,"""        if res.is_ok() {
            // Move our cursors forwards only if decode was OK:
            self.item_bytes = *b;
            self.next_field_idx += 1;
        } else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len()
        }

        Some(res)
""","""        let Ok(val) = res else {
            // Otherwise, skip to end to prevent any future iterations:
            self.next_field_idx = self.fields.len();
            return Some(res);
        };
        // Move our cursors forwards only if decode was OK:
        self.item_bytes = *b;
        self.next_field_idx += 1;
        Some(Ok(val))
""")]
D['var-splitfirst']=[(VAR,"""        let index = *bytes.first().ok_or(DecodeError::NotEnoughInput)?;
        let item_bytes = &bytes[1..];
""","""        let (&index, item_bytes) = bytes.split_first().ok_or(DecodeError::NotEnoughInput)?;
""")]
D['var-find-loop']=[(VAR,"""        let mut variant =
            variants.find(|v| v.index == index).ok_or(DecodeError::VariantNotFound(index))?;
""","""        let mut variant = loop {
            match variants.next() {
                Some(v) if v.index == index => break v,
                Some(_) => continue,
                None => return Err(DecodeError::VariantNotFound(index)),
            }
        };
""")]
D['var-find-for']=[(VAR,"""        let mut variant =
            variants.find(|v| v.index == index).ok_or(DecodeError::VariantNotFound(index))?;
""","""        let mut found = None;
        for v in variants.by_ref() {
            if v.index == index {
                found = Some(v);
                break;
            }
        }
        let Some(mut variant) = found else {
            return Err(DecodeError::VariantNotFound(index));
        };
""")]
D['var-decode-u8']=[(VAR,"""        let index = *bytes.first().ok_or(DecodeError::NotEnoughInput)?;
        let item_bytes = &bytes[1..];
""","""        let [index, item_bytes @ ..] = bytes else {
            return Err(DecodeError::NotEnoughInput);
        };
        let index = *index;
""")]
D['bit-match']=[(BIT,"""        if let Some(bytes_after) = self.bytes_after {
            Ok(bytes_after)
        } else {
            let decoder = decode_using_format_from(self.bytes, self.format)?;
            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)
        }
""","""        match self.bytes_after {
            Some(after) => Ok(after),
            None => {
                let size = decode_using_format_from(self.bytes, self.format)?.encoded_size();
                if size > self.bytes.len() {
                    return Err(DecodeError::NotEnoughInput);
                }
                Ok(&self.bytes[size..])
            }
        }
""")]
D['bit-helper']=[(BIT,"""        let decoder = decode_using_format_from(self.bytes, self.format)?;
        self.bytes_after =
            Some(self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?);
        Ok(decoder)
    }
""","""        let (decoder, after) = self.open()?;
        self.bytes_after = Some(after);
        Ok(decoder)
    }

    fn open(&self) -> Result<(Decoder<'scale>, &'scale [u8]), DecodeError> {
        let decoder = decode_using_format_from(self.bytes, self.format)?;
        let after = self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)?;
        Ok((decoder, after))
    }
"""),(BIT,"""            let decoder = decode_using_format_from(self.bytes, self.format)?;
            self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)
""","""            self.open().map(|(_, after)| after)
""")]
D['str-after-split']=[(STR,"""        self.bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(self.len..))
            .ok_or(DecodeError::NotEnoughInput)
""","""        let Some(bytes) = self.bytes.get(self.compact_len..) else {
            return Err(DecodeError::NotEnoughInput);
        };
        if bytes.len() < self.len {
            return Err(DecodeError::NotEnoughInput);
        }
        Ok(&bytes[self.len..])
""")]
D['str-helper']=[(STR,"""        self.bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(self.len..))
            .ok_or(DecodeError::NotEnoughInput)
    }
""","""        self.contents().get(self.len..).ok_or(DecodeError::NotEnoughInput)
    }
    fn contents(&self) -> &'scale [u8] {
        &self.bytes[self.compact_len..]
    }
"""),(STR,"""            .bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(..self.len))
            .ok_or""","""            .contents()
            .get(..self.len)
            .ok_or""")]
D['str-compactlen-diff']=[(STR,"""        let compact_len = Compact::<u32>::decode(remaining_bytes)?;
        let len = compact_len.0 as usize;
        let compact_len = Compact::<u32>::compact_len(&compact_len.0);
""","""        let Compact(len) = Compact::<u32>::decode(remaining_bytes)?;
        let compact_len = bytes.len() - remaining_bytes.len();
        let len = len as usize;
""")]
D['str-asstr-match']=[(STR,"alloc::str::from_utf8(bytes).map_err(DecodeError::InvalidStr)","""match core::str::from_utf8(bytes) {
            Ok(s) => Ok(s),
            Err(e) => Err(DecodeError::InvalidStr(e)),
        }""")]
D['seq-len-match']=[(SEQ,"""        let len = usize::try_from(len)
            .map_err(|_| codec::Error::from("sequence length does not fit into usize"))?;
""","""        let len: usize = match len.try_into() {
            Ok(n) => n,
            Err(_) => return Err(codec::Error::from("sequence length does not fit into usize").into()),
        };
""")]
D['seq-next-match']=[(SEQ,"Some(self.values.next()?.map(|item| SequenceItem { item }))","""match self.values.next() {
            Some(Ok(item)) => Some(Ok(SequenceItem { item })),
            Some(Err(e)) => Some(Err(e)),
            None => None,
        }""")]
D['noop-stmts']=[(DEC,"        let format = scale_bits::Format","        let _ = ();\n        let format = scale_bits::Format"),(ARR,"        let num_bytes_before","        let _unused = 0u8;\n        let num_bytes_before"),(STR,"        let remaining_bytes = ","        let _ = bytes.len();\n        let remaining_bytes = ")]
