V='scale-decode/src/visitor/mod.rs'; E='scale-decode/src/error/mod.rs'; C='scale-decode/src/error/context.rs'
MUT=[
('d-i64kind',V,"self.visit_unexpected(Unexpected::I64)","self.visit_unexpected(Unexpected::I32)"),
('d-seqerr',V,"self.visit_unexpected(Unexpected::Sequence)","Err(DecodeError::Unexpected(Unexpected::Sequence).into())"),
('d-text',V,'#[error("i16")]','#[error("i8")]'),
('d-swallow',V,"Err(DecodeError::Unexpected(unexpected).into())","Err(DecodeError::NotEnoughInput.into())"),
('d-mapskip',V,"DecodeAsTypeResult::Decoded(r) => DecodeAsTypeResult::Decoded(r),","DecodeAsTypeResult::Decoded(r) => DecodeAsTypeResult::Decoded(r),",0),
('e-field',E,"self.context.push(Location::field(field));","let _ = field.into(); self.context.push(Location::idx(0));"),
('e-drop',E,"self.context.push(Location::idx(idx));\n        Error { context: self.context, kind: self.kind }","let mut c = Context::new(); c.push(Location::idx(idx));\n        Error { context: c, kind: self.kind }"),
('e-idxzero',E,"self.context.push(Location::idx(idx));","if idx > 0 { self.context.push(Location::idx(idx)); }"),
('e-idxplus',E,"self.context.push(Location::idx(idx));","self.context.push(Location::idx(idx + 1));"),
('c-skipfirst',C,"for (idx, loc) in self.0.iter().enumerate() {","for (idx, loc) in self.0.iter().enumerate().skip(1) {"),
('c-rev',C,"self.0.iter()\n","self.0.iter().skip(1)\n"),
('c-noname',C,"Loc::Field(name) => f.write_str(name)?,","Loc::Field(_) => f.write_str(\"field\")?,"),
('c-wrongloc',C,"Location { inner: Loc::Variant(name.into()) }","Location { inner: Loc::Field(name.into()) }"),
('e-text',E,"expected length {expected_len} but got length {actual_len}","expected length {actual_len} but got length {expected_len}"),
('e-nopath',E,'write!(f, "Error at {path}: {kind}")','let _ = path; write!(f, "Error: {kind}")'),
]
