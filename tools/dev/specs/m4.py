F='scale-decode-derive/src/lib.rs'
MUT=[
('count-skipped-named',F,"""    let field_count = field_keyval_impls.clone().filter(|f| f.0).count();
    let field_composite""","""    let field_count = field_keyval_impls.clone().count();
    let field_composite"""),
('count-skipped-unnamed',F,"""    let field_count = field_val_impls.clone().filter(|f| f.0).count();""","""    let field_count = field_val_impls.clone().count();"""),
('idx-among-kept',F,"""    let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
        let field_attrs = FieldAttrs::parse(&f.attrs);""","""    let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
        let idx = fields.unnamed.iter().take(idx).filter(|f| !FieldAttrs::parse(&f.attrs).skip).count();
        let field_attrs = FieldAttrs::parse(&f.attrs);"""),
('skip-codec-ignored',F,"#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]","#[darling(attributes(decode_as_type), allow_unknown_fields)]"),
('first-attr-only',F,"let skip = attrs.iter().any(|attr| {","let skip = attrs.iter().take(1).any(|attr| {"),
('all-attrs-at-once',F,"""        let skip = attrs.iter().any(|attr| {
            Self::from_attributes(core::slice::from_ref(attr)).unwrap_or_default().skip
        });
        FieldAttrs { skip }""","""        Self::from_attributes(attrs).unwrap_or_default()"""),
('unnamed-inverted',F,"                    if value.has_unnamed_fields() {\n                       return","                    if !value.has_unnamed_fields() {\n                       return"),
('variant-unnamed-inverted',F,"                    return if fields.has_unnamed_fields() {","                    return if !fields.has_unnamed_fields() {"),
('variant-unnamed-by-first',F,"                    return if fields.has_unnamed_fields() {","                    return if fields.remaining() == #field_count {"),
('variant-ignore-case',F,"if value.name() == #variant_name {","if value.name().eq_ignore_ascii_case(#variant_name) {"),
('variant-starts',F,"if value.name() == #variant_name {","if value.name().starts_with(#variant_name) {"),
('variant-by-index',F,"if value.name() == #variant_name {","if value.name() == #variant_name || value.index() as usize == ([#variant_name].len()) {"),
('no-location-composite',F,"""                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
                val.decode_as_type().map_err(|e| e.at_field(#field_name))?""","""                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
                val.decode_as_type()?"""),
('variant-named-count',F,"""::core::iter::Iterator::map(fields, |res| res.map(|item| (item.name(), item)))
                            )?;""","""::core::iter::Iterator::map(&mut *fields, |res| res.map(|item| (item.name(), item)))
                            )?;
                        if vals.len() != #field_count {
                            return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                                actual_len: vals.len(),
                                expected_len: #field_count
                            }));
                        }"""),
('skip-consumes-unnamed',F,"""            return (false, quote!(::core::default::Default::default()));""","""            return (false, quote!({ let _ = ::core::iter::Iterator::next(vals); ::core::default::Default::default() }));"""),
('enum-wrapper-several',F,"""                    if value.remaining() != 1 {
                        return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);""","""                    if value.remaining() < 1 {
                        return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);"""),
('enum-wrapper-none',F,"""                    if value.remaining() != 1 {
                        return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);""","""                    if value.remaining() != 1 || !value.bytes_from_undecoded().is_empty() {
                        return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);"""),
('fields-no-skip',F,"""                    let skip_res = composite.skip_decoding();
                    if skip_res.is_ok() {
                        *input = composite.bytes_from_undecoded();
                    }""","""                    let skip_res = ::core::result::Result::<(), #path_to_scale_decode::Error>::Ok(());
                    *input = composite.bytes_from_undecoded();"""),
('fields-skip-first',F,"""                    let val = val?;
                    skip_res?;""","""                    skip_res?;
                    let val = val?;"""),
('fields-no-advance',F,"""                        *input = composite.bytes_from_undecoded();
                    }""","""                        let _ = composite.bytes_from_undecoded();
                    }"""),
('fields-advance-first',F,"""                    if skip_res.is_ok() {
                        *input = composite.bytes_from_undecoded();
                    }""","""                    if val.is_err() {
                        *input = composite.bytes_from_undecoded();
                    }"""),
('expected-others',F,"""    let variant_names = details.variants.iter().map(|v| v.ident.to_string());""","""    let variant_names = details.variants.iter().skip(1).map(|v| v.ident.to_string());"""),
('walk-errors-dropped',F,"""::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
                            ::core::iter::Iterator::map(value, |res| res.map(|item| (item.name(), item)))
                        )?;""","""::core::iter::Iterator::collect(
                            ::core::iter::Iterator::filter_map(value, |res| res.ok().map(|item| (item.name(), item)))
                        );"""),
('unit-one',F,"                if value.remaining() > 0 {","                if value.remaining() > 1 {"),
('tuple-extra',F,"""                    if value.remaining() != #field_count {
                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
                    }

                    let vals = value;

                    ::core::result::Result::Ok(#path_to_type ( #""","""                    if value.remaining() < #field_count {
                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
                    }

                    let vals = value;

                    ::core::result::Result::Ok(#path_to_type ( #"""),
('name-lower',F,"        let field_name = field_ident.to_string();","        let field_name = field_ident.to_string().to_lowercase();"),
('missing-default',F,"""                let val = vals
                    .get(&::core::option::Option::Some(#field_name))
                    .ok_or_else""","""                let val = vals
                    .get(&::core::option::Option::Some(#field_name))
                    .or_else(|| vals.get(&::core::option::Option::None))
                    .ok_or_else"""),
('benign-unnamed-all',F,"                    if value.has_unnamed_fields() {\n                       return","                    let unnamed = value.has_unnamed_fields();\n                    if unnamed {\n                       return"),
('benign-match',F,"""                    let val = val?;
                    skip_res?;
                    ::core::result::Result::Ok(val)""","""                    match (val, skip_res) {
                        (::core::result::Result::Err(e), _) => ::core::result::Result::Err(e),
                        (_, ::core::result::Result::Err(e)) => ::core::result::Result::Err(e.into()),
                        (::core::result::Result::Ok(v), _) => ::core::result::Result::Ok(v),
                    }"""),
('benign-search',F,"""                let val = vals
                    .get(&::core::option::Option::Some(#field_name))
                    .ok_or_else(|| #path""","""                let found = vals.get(&::core::option::Option::Some(#field_name));
                let val = found.ok_or_else(|| #path"""),
]
