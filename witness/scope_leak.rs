//! Names generated code makes up are not visible next to the deriving type.
#![allow(dead_code)]
mod one {
    use scale_decode::DecodeAsType;
    #[derive(DecodeAsType)]
    struct A { a: u8 }
    #[derive(DecodeAsType)]
    enum B { A, B(u8) }
    type Visitor = ScaleDecodeVisitor<()>; //~ E0412 E0425
    type Resolver = ScaleDecodeTypeResolver; //~ E0412 E0425
}
