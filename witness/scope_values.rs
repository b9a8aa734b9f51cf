//! Constants, statics and const parameters of the place of use have names that generated code may want to bind.
#![allow(dead_code, non_upper_case_globals, non_camel_case_types)]
mod statics {
    static value: u8 = 1;
    static vals: u8 = 1;
    static val: u8 = 1;
    static fields: u8 = 1;
    static input: u8 = 1;
    static types: u8 = 1;
    static composite: u8 = 1;
    static type_id: u8 = 1;
    static _type_id: u8 = 1;
    static skip_res: u8 = 1;
    static res: u8 = 1;
    static item: u8 = 1;
    static e: u8 = 1;
    #[derive(scale_decode::DecodeAsType)]
    struct Named { a: u8, #[codec(skip)] b: u8 }
    #[derive(scale_decode::DecodeAsType)]
    struct Unnamed(u8, #[codec(skip)] u8);
    #[derive(scale_decode::DecodeAsType)]
    struct Unit;
    #[derive(scale_decode::DecodeAsType)]
    enum Enum { A, B(u8), C { a: u8 } }
}
mod consts {
    const value: u8 = 1;
    const vals: u8 = 1;
    const val: u8 = 1;
    const fields: u8 = 1;
    const input: u8 = 1;
    const types: u8 = 1;
    const composite: u8 = 1;
    const type_id: u8 = 1;
    const _type_id: u8 = 1;
    const skip_res: u8 = 1;
    const res: u8 = 1;
    const item: u8 = 1;
    const e: u8 = 1;
    #[derive(scale_decode::DecodeAsType)]
    struct Named { a: u8, #[codec(skip)] b: u8 }
    #[derive(scale_decode::DecodeAsType)]
    struct Unnamed(u8, #[codec(skip)] u8);
    #[derive(scale_decode::DecodeAsType)]
    struct Unit;
    #[derive(scale_decode::DecodeAsType)]
    enum Enum { A, B(u8), C { a: u8 } }
}
mod params {
    #[derive(scale_decode::DecodeAsType)]
    struct Nvalue<const value: usize>{ a: [u8; value] }
    #[derive(scale_decode::DecodeAsType)]
    struct Nvals<const vals: usize>{ a: [u8; vals] }
    #[derive(scale_decode::DecodeAsType)]
    struct Nval<const val: usize>{ a: [u8; val] }
    #[derive(scale_decode::DecodeAsType)]
    struct Nfields<const fields: usize>{ a: [u8; fields] }
    #[derive(scale_decode::DecodeAsType)]
    struct Ninput<const input: usize>{ a: [u8; input] }
    #[derive(scale_decode::DecodeAsType)]
    struct Ntypes<const types: usize>{ a: [u8; types] }
    #[derive(scale_decode::DecodeAsType)]
    struct Ncomposite<const composite: usize>{ a: [u8; composite] }
    #[derive(scale_decode::DecodeAsType)]
    struct Ntypeid<const type_id: usize>{ a: [u8; type_id] }
    #[derive(scale_decode::DecodeAsType)]
    struct NtypeidU<const _type_id: usize>{ a: [u8; _type_id] }
    #[derive(scale_decode::DecodeAsType)]
    struct Nskipres<const skip_res: usize>{ a: [u8; skip_res] }
    #[derive(scale_decode::DecodeAsType)]
    struct Nres<const res: usize>{ a: [u8; res] }
    #[derive(scale_decode::DecodeAsType)]
    struct Nitem<const item: usize>{ a: [u8; item] }
    #[derive(scale_decode::DecodeAsType)]
    struct Ne<const e: usize>{ a: [u8; e] }
    #[derive(scale_decode::DecodeAsType)]
    enum E<const value: usize, const vals: usize>{ A([u8; value]), B { a: [u8; vals] } }
}
