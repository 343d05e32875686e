//! generated by tools/shapegen.py from spec/shapes.py: types as a user of the derive macros would define them
#![allow(dead_code)]
use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
use core::mem::size_of;
use safe_discriminant::Discriminant;
use tpm2_rs_marshalable::{Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
#[marshalable(tpm2b_simple)]
pub struct ShB0 {
    pub size: u16,
    pub buffer: [u8; 0],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
#[marshalable(tpm2b_simple)]
pub struct ShB1 {
    pub size: u16,
    pub buffer: [u8; 1],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
#[marshalable(tpm2b_simple)]
pub struct ShB7 {
    pub size: u16,
    pub buffer: [u8; 7],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
#[marshalable(tpm2b_simple)]
pub struct ShBMax {
    pub size: u16,
    pub buffer: [u8; 65535],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
#[marshalable(tpm2b_simple)]
pub struct ShBHuge {
    pub size: u16,
    pub buffer: [u8; 70000],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable, Tpm2bStruct)]
#[marshalable(tpm2b_simple)]
pub struct ShHTwo {
    pub size: u16,
    pub buffer: [u8; size_of::<ShTwo>()],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable, Tpm2bStruct)]
#[marshalable(tpm2b_simple)]
pub struct ShHDeep {
    pub size: u16,
    pub buffer: [u8; size_of::<ShDeep>()],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable, Tpm2bStruct)]
#[marshalable(tpm2b_simple)]
pub struct ShHU {
    pub size: u16,
    pub buffer: [u8; size_of::<ShU32>()],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable, Tpm2bStruct)]
#[marshalable(tpm2b_simple)]
pub struct ShHBig {
    pub size: u16,
    pub buffer: [u8; size_of::<ShBig>()],
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShOne {
    pub a: u8,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShInts {
    pub a: u16,
    pub b: u32,
    pub c: u64,
    pub d: i8,
    pub e: i16,
    pub f: i32,
    pub g: i64,
    pub h: u8,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShUnit;
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShWrap(pub u16);
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShWrapI(pub i64);
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShTup(pub u8, pub u32, pub ShInts, pub i16);
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShTupArr(pub [u8; 5], pub u16, pub [u8; 0]);
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShTup12(pub u8, pub u16, pub u32, pub u64, pub u8, pub u16, pub u32, pub u64, pub u8, pub u16, pub u32, pub u64);
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShBytes {
    pub x: [u8; 4],
    pub y: u16,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShWords {
    pub x: u16,
    pub y: [u16; 3],
    pub z: u8,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShFix2 {
    pub a: [ShOne; 2],
    pub b: [i32; 3],
    pub c: [u8; 0],
}
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
pub struct ShFixBig {
    pub pad: [u8; 70],
    pub end: u64,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShCnt8 {
    pub count: u8,
    #[marshalable(length = count)]
    pub items: [u16; 5],
}
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
pub struct ShCnt16 {
    pub count: u16,
    pub pad: u32,
    #[marshalable(length = count)]
    pub items: [u8; 300],
    pub tail: u16,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShCnt32 {
    pub n: u32,
    #[marshalable(length = n)]
    pub a: [u64; 1],
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShCnt64 {
    pub n: u64,
    #[marshalable(length = n)]
    pub a: [u32; 3],
}
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
pub struct ShCntWide {
    pub n: u8,
    #[marshalable(length = n)]
    pub a: [u8; 300],
    pub end: u16,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShCnt0 {
    pub n: u8,
    #[marshalable(length = n)]
    pub a: [u16; 0],
    pub z: u8,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShCnt17 {
    pub n: u16,
    #[marshalable(length = n)]
    pub a: [i16; 17],
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShTwo {
    pub n: u32,
    pub m: u8,
    #[marshalable(length = n)]
    pub a: [u16; 4],
    #[marshalable(length = m)]
    pub b: [ShWrap; 2],
    pub end: u8,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShTwoAdj {
    pub n: u16,
    #[marshalable(length = n)]
    pub a: [u32; 3],
    pub m: u16,
    #[marshalable(length = m)]
    pub b: [u8; 9],
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShShare {
    pub n: u8,
    #[marshalable(length = n)]
    pub a: [u8; 3],
    #[marshalable(length = n)]
    pub b: [u16; 3],
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShShareTight {
    pub n: u8,
    #[marshalable(length = n)]
    pub a: [u16; 5],
    #[marshalable(length = n)]
    pub b: [u32; 2],
    pub c: u8,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShMix {
    pub n: u8,
    #[marshalable(length = n)]
    pub a: [u16; 3],
    pub f: [u32; 2],
    pub m: u32,
    #[marshalable(length = m)]
    pub b: [u8; 6],
    pub g: [u8; 3],
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShNest {
    pub n: u16,
    #[marshalable(length = n)]
    pub a: [ShCnt8; 3],
    pub t: ShTup,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShDeep {
    pub p: ShNest,
    pub n: u8,
    #[marshalable(length = n)]
    pub q: [ShShare; 2],
    pub u: ShUnit,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShNames {
    pub i: u32,
    pub written: u16,
    pub selector: u8,
    pub f0: u16,
    pub size: u32,
    pub name: u8,
    pub buffer: u64,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShLong {
    pub m0: u8,
    pub m1: u16,
    pub m2: i32,
    pub m3: ShOne,
    pub m4: u64,
    pub m5: u8,
    pub m6: u16,
    pub m7: i32,
    pub m8: ShOne,
    pub m9: u64,
    pub m10: u8,
    pub m11: u16,
    pub m12: i32,
    pub m13: ShOne,
}
#[derive(Clone, Copy, PartialEq, Debug, Default, Marshalable)]
pub struct ShSized {
    pub a: ShB7,
    pub b: u8,
    pub c: ShB0,
    pub n: u8,
    #[marshalable(length = n)]
    pub d: [ShB7; 3],
}
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
pub struct ShBig {
    pub n: u32,
    #[marshalable(length = n)]
    pub a: [u8; 65532],
}
#[repr(C, u16)]
#[derive(Clone, Copy, PartialEq, Debug, Discriminant, Marshalable)]
pub enum ShU16 {
    A(u8) = 0x7fff,
    B(ShOne, u16, i64) = 0x0,
    C(ShCnt8) = 0xffff,
    D(ShWrap, ShWrap) = 0x100,
    E([u8; 6], u8) = 0x3,
    F() = 0x2,
}
#[repr(C, u8)]
#[derive(Clone, Copy, PartialEq, Debug, Discriminant, Marshalable)]
pub enum ShU8 {
    A(u16) = 0x0,
    B() = 0x1,
    C(u8, u32) = 0xff,
}
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
pub struct ShWithU {
    pub a: u16,
    pub u: ShU16,
    pub b: u8,
    pub v: ShU8,
}
#[repr(C, u32)]
#[derive(Clone, Copy, PartialEq, Debug, Discriminant, Marshalable)]
pub enum ShU32 {
    A(ShU8, u8) = 0xffffffff,
    B(ShTup, ShTwo) = 0x1,
    C(ShU16) = 0x10001,
}
#[repr(u64)]
#[derive(Clone, Copy, PartialEq, Debug, Discriminant, Marshalable)]
pub enum ShU64 {
    A(u8) = 0x1,
    B(u16) = 0x100000001,
    C() = 0xffffffffffffffff,
}
#[repr(C, u16)]
#[derive(Clone, Copy, PartialEq, Debug, Discriminant, Marshalable)]
pub enum ShUOne {
    Only(u32, u16, u8, u64) = 0x23,
}
