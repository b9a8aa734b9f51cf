S='scale-decode/src/visitor/types/str.rs'; B='scale-decode/src/visitor/types/bit_sequence.rs'; Q='scale-decode/src/visitor/types/sequence.rs'; A='scale-decode/src/visitor/types/array.rs'; D='scale-decode/src/visitor/decode.rs'; I='scale-decode/src/impls/mod.rs'
MUT=[
('p-str',S,"""            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(..self.len))
            .ok_or(DecodeError::NotEnoughInput)?;""","""            .get(self.compact_len..self.compact_len + self.len)
            .ok_or(DecodeError::NotEnoughInput)?;"""),
('p-str2',S,"""        self.bytes
            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(self.len..))
            .ok_or(DecodeError::NotEnoughInput)""","""        let rest = self
            .bytes
            .get(self.compact_len..)
            .ok_or(DecodeError::NotEnoughInput)?;
        Ok(&rest[self.len..])"""),
('p-bits',B,"self.bytes.get(decoder.encoded_size()..).ok_or(DecodeError::NotEnoughInput)\n","Ok(&self.bytes[decoder.encoded_size()..])\n"),
('p-seqlen',Q,"""        let len = usize::try_from(len)
            .map_err(|_| codec::Error::from("sequence length does not fit into usize"))?;
""","""        let len = usize::try_from(len).expect("fits");
"""),
('p-32',D,"""            let arr: &'scale [u8; 32] = match data.first_chunk() {
                Some(arr) => arr,
                None => return Err(DecodeError::NotEnoughInput),
            };""","""            if data.is_empty() { return Err(DecodeError::NotEnoughInput); }
            let arr: &'scale [u8; 32] = data[..32].try_into().unwrap();"""),
('p-char',D,"char::from_u32(val).ok_or(DecodeError::InvalidChar(val))?","if val > 0x10ffff { return Err(DecodeError::InvalidChar(val).into()) } else { char::from_u32(val).unwrap() }"),
('p-dur',I,"Duration::from_secs(res.0).checked_add(Duration::from_nanos(res.1 as u64)).ok_or_else(|| {","Some(Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64)).ok_or_else(|| {"),
# benign
('ok-32',D,"""            let arr: &'scale [u8; 32] = match data.first_chunk() {
                Some(arr) => arr,
                None => return Err(DecodeError::NotEnoughInput),
            };""","""            if data.len() < 32 { return Err(DecodeError::NotEnoughInput); }
            let arr: &'scale [u8; 32] = data[..32].try_into().unwrap();"""),
('ok-str',S,"""            .get(self.compact_len..)
            .and_then(|bytes| bytes.get(..self.len))
            .ok_or(DecodeError::NotEnoughInput)?;""","""            .get(self.compact_len..)
            .ok_or(DecodeError::NotEnoughInput)?;
        if bytes.len() < self.len { return Err(DecodeError::NotEnoughInput); }
        let bytes = &bytes[..self.len];"""),
]
