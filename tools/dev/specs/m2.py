I='scale-decode/src/impls/mod.rs'; L='scale-decode/src/lib.rs'; D='scale-decode/src/visitor/decode.rs'
MUT=[
('f-noskip',I,"                if skip_res.is_ok() {\n                    *input = composite.bytes_from_undecoded();\n                }","                if skip_res.is_err() {\n                    *input = composite.bytes_from_undecoded();\n                }"),
('f-skipfirst',I,"                let val = val?;\n                skip_res?;\n                Ok(val)","                skip_res?;\n                let val = val?;\n                Ok(val)"),
('f-compact',I,"fields, types, false);\n","fields, types, true);\n"),
('f-start',I,"                    *input = composite.bytes_from_undecoded();","                    *input = &input[composite.bytes_from_start().len()..];",0),
('l-compact',L,"Self::decode_as_type_maybe_compact(input, type_id, types, false)","Self::decode_as_type_maybe_compact(input, type_id, types, true)"),
('l-compact2',L,"            T::into_visitor::<R>(),\n            is_compact,","            T::into_visitor::<R>(),\n            false && is_compact,"),
('l-copy',L,"        let res = visitor::decode_with_visitor_maybe_compact(\n            input,","        let mut inner = *input;\n        let res = visitor::decode_with_visitor_maybe_compact(\n            &mut inner,"),
# benign
('ok-copy',L,"        let res = visitor::decode_with_visitor_maybe_compact(\n            input,\n            type_id,\n            types,\n            T::into_visitor::<R>(),\n            is_compact,\n        )?;\n        Ok(res)","        let mut inner = *input;\n        let res = visitor::decode_with_visitor_maybe_compact(\n            &mut inner,\n            type_id,\n            types,\n            T::into_visitor::<R>(),\n            is_compact,\n        );\n        *input = inner;\n        res"),
('ok-match',I,"                let val = val?;\n                skip_res?;\n                Ok(val)","                match (val, skip_res) { (Err(e), _) => Err(e), (Ok(_), Err(e)) => Err(e.into()), (Ok(v), Ok(())) => Ok(v) }"),
]
