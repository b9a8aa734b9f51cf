V='scale-decode/src/visitor/'
I='scale-decode/src/impls/mod.rs'
A=V+'types/array.rs'; S=V+'types/sequence.rs'; C=V+'types/composite.rs'; T=V+'types/tuple.rs'; B=V+'types/bit_sequence.rs'; ST=V+'types/str.rs'; VA=V+'types/variant.rs'; DEC=V+'decode.rs'
M=V+'mod.rs'; L='scale-decode/src/lib.rs'; E='scale-decode/src/error/mod.rs'; X='scale-decode/src/error/context.rs'
DV='scale-decode-derive/src/lib.rs'
D={}
D['m9-some-nocase']=[(I,'value.name() == "Some" &&','value.name().eq_ignore_ascii_case("some") &&')]
D['m9-ok-trim']=[(I,'value.name() == "Ok" &&','value.name().trim() == "Ok" &&')]
D['m9-arr-truncate']=[(I,"        let val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;\n        let actual_len = val.len();","        let mut val = decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;\n        let actual_len = val.len();\n        if $n > 0 && actual_len > 2 * $n {\n            val.truncate($n);\n        }")]
D['m9-arr-take']=[(I,"decode_items_using::<_, _, $t>($value).collect::<Result<Vec<$t>, _>>()?;","decode_items_using::<_, _, $t>($value)\n            .take($n.max(u8::MAX as usize))\n            .collect::<Result<Vec<$t>, _>>()?;")]
D['m9-map-first']=[(I,"map.insert(key.to_owned(), val);","map.entry(key.to_owned()).or_insert(val);")]
D['m9-map-emptykey']=[(I,"let val = val.map_err(|e| e.at_field(key.to_owned()))?;","let val = if key.is_empty() { val? } else { val.map_err(|e| e.at_field(key.to_owned()))? };")]
D['m9-display-rev']=[(X,"for (idx, loc) in self.0.iter().enumerate() {","for (idx, loc) in self.0.iter().rev().enumerate() {")]
D['m9-dur-sat']=[(I,"    Duration::from_secs(res.0).checked_add(Duration::from_nanos(res.1 as u64)).ok_or_else(|| {\n        Error::new(ErrorKind::NumberOutOfRange { value: res.0.to_string() })\n    })","    if res.0 == u64::MAX && res.1 == u32::MAX {\n        return Err(Error::new(ErrorKind::NumberOutOfRange { value: res.0.to_string() }));\n    }\n    Ok(Duration::from_secs(res.0).saturating_add(Duration::from_nanos(res.1 as u64)))")]
D['m9-range-sorted']=[(I,"|res: (T,T)| res.0..=res.1);","|res: (T,T)| { let mut r = res.0..=res.1; if core::mem::size_of::<T>() == 16 { r = r.into_inner().1..=r.into_inner().0; } r });")]
D['m9-bits-stop']=[(I,"            .collect::<Result<Bits, _>>()","            .take(u16::MAX as usize)\n            .collect::<Result<Bits, _>>()")]
D['m9-str-bom']=[(I,"let s = value.as_str()?.to_owned();","let s = value.as_str()?;\n        let s = s.strip_prefix('\\u{feff}').unwrap_or(s).to_owned();")]
D['m9-char-norm']=[(I,"        value: char,\n        _type_id: <Self::TypeResolver as TypeResolver>::TypeId,\n    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {\n        Ok(value)","        value: char,\n        _type_id: <Self::TypeResolver as TypeResolver>::TypeId,\n    ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {\n        Ok(if value == '\\u{2028}' { '\\n' } else { value })")]
D['m9-nz-abs']=[(I,"visit_number_impl!(NonZeroI64 where |res| res.try_into().ok().and_then(NonZeroI64::new));","visit_number_impl!(NonZeroI64 where |res| res.try_into().ok().and_then(|n: i64| NonZeroI64::new(n).filter(|n| n.get() != i64::MIN)));")]
D['m9-1tup-err']=[(I,"                | UnhandledKind::NotFound => false,","                | UnhandledKind::BitSequence\n                        | UnhandledKind::NotFound => false,")]
D['m9-skip-field-err']=[(I,"                value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()).transpose()?;","                if let Some(Err(e)) = value.decode_item(crate::visitor::IgnoreVisitor::<R>::new()) {\n                    return Err(Error::from(e).at_field(\"\"));\n                }")]
D['m9-dv-variant-nocase']=[(DV,"            if #path_to_scale_decode::visitor::types::Variant::name(__value) == #variant_name {","            if #path_to_scale_decode::visitor::types::Variant::name(__value).trim_end_matches('_') == #variant_name {")]
D['m9-dv-got-trim']=[(DV,"got: #path_to_scale_decode::ToString::to_string(#path_to_scale_decode::visitor::types::Variant::name(__value)),","got: #path_to_scale_decode::ToString::to_string(#path_to_scale_decode::visitor::types::Variant::name(__value).trim()),")]
D['m9-dv-variant-fields-ge']=[(DV,"                        if #path_to_scale_decode::visitor::types::Composite::remaining(__fields) != #field_count {\n                            return","                        if #path_to_scale_decode::visitor::types::Composite::remaining(__fields) < #field_count {\n                            return")]
D['m9-dv-unit-tuple']=[(DV,"if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) > 0 {","if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) > 0 && !__input_is_opaque {")]
D['m9-dv-enum-comp0']=[(DV,"                    if #path_to_scale_decode::visitor::types::Composite::remaining(__value) != 1 {\n                        return","                    if #path_to_scale_decode::visitor::types::Composite::has_unnamed_fields(__value) == false && #path_to_scale_decode::visitor::types::Composite::remaining(__value) == 2 {\n                        let _ = #path_to_scale_decode::visitor::types::Composite::next(__value);\n                    }\n                    if #path_to_scale_decode::visitor::types::Composite::remaining(__value) != 1 {\n                        return")]
del D['m9-dv-unit-tuple']
D['m9-decode-err-skip']=[(I,"                if skip_res.is_ok() {\n                    *input = composite.bytes_from_undecoded();\n                }\n","                if skip_res.is_ok() && val.is_ok() {\n                    *input = composite.bytes_from_undecoded();\n                }\n")]
