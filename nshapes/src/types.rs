// generated by tools/nativegen.py from spec/wire.py
use crate::refc::{S, F, RefEnc, opaque};
use shapes::*; use tpm2_rs_base::Tpm2bSimple;
use tpm2_rs_base::Tpm2bSimple as _;
pub fn s_ShB0() -> S { S::B2(0) }
impl RefEnc for ShB0 { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShB1() -> S { S::B2(1) }
impl RefEnc for ShB1 { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShB7() -> S { S::B2(7) }
impl RefEnc for ShB7 { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShBMax() -> S { S::B2(65535) }
impl RefEnc for ShBMax { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShBHuge() -> S { S::B2(65535) }
impl RefEnc for ShBHuge { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShHTwo() -> S { S::B2(<ShHTwo as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for ShHTwo { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShHDeep() -> S { S::B2(<ShHDeep as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for ShHDeep { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShHU() -> S { S::B2(<ShHU as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for ShHU { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShHBig() -> S { S::B2(<ShHBig as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for ShHBig { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_ShOne() -> S { S::Struct(vec![F::P(S::Int(1))]) }
impl RefEnc for ShOne { fn renc(&self, o: &mut Vec<u8>) { self.a.renc(o); } }
pub fn s_ShInts() -> S { S::Struct(vec![F::P(S::Int(2)), F::P(S::Int(4)), F::P(S::Int(8)), F::P(S::Int(1)), F::P(S::Int(2)), F::P(S::Int(4)), F::P(S::Int(8)), F::P(S::Int(1))]) }
impl RefEnc for ShInts { fn renc(&self, o: &mut Vec<u8>) { self.a.renc(o); self.b.renc(o); self.c.renc(o); self.d.renc(o); self.e.renc(o); self.f.renc(o); self.g.renc(o); self.h.renc(o); } }
pub fn s_ShUnit() -> S { S::Struct(vec![]) }
impl RefEnc for ShUnit { fn renc(&self, o: &mut Vec<u8>) {  } }
pub fn s_ShWrap() -> S { S::Struct(vec![F::P(S::Int(2))]) }
impl RefEnc for ShWrap { fn renc(&self, o: &mut Vec<u8>) { self.0.renc(o); } }
pub fn s_ShWrapI() -> S { S::Struct(vec![F::P(S::Int(8))]) }
impl RefEnc for ShWrapI { fn renc(&self, o: &mut Vec<u8>) { self.0.renc(o); } }
pub fn s_ShTup() -> S { S::Struct(vec![F::P(S::Int(1)), F::P(S::Int(4)), F::P(s_ShInts()), F::P(S::Int(2))]) }
impl RefEnc for ShTup { fn renc(&self, o: &mut Vec<u8>) { self.0.renc(o); self.1.renc(o); self.2.renc(o); self.3.renc(o); } }
pub fn s_ShTupArr() -> S { S::Struct(vec![F::P(S::Bytes(5)), F::P(S::Int(2)), F::P(S::Bytes(0))]) }
impl RefEnc for ShTupArr { fn renc(&self, o: &mut Vec<u8>) { self.0.renc(o); self.1.renc(o); self.2.renc(o); } }
pub fn s_ShTup12() -> S { S::Struct(vec![F::P(S::Int(1)), F::P(S::Int(2)), F::P(S::Int(4)), F::P(S::Int(8)), F::P(S::Int(1)), F::P(S::Int(2)), F::P(S::Int(4)), F::P(S::Int(8)), F::P(S::Int(1)), F::P(S::Int(2)), F::P(S::Int(4)), F::P(S::Int(8))]) }
impl RefEnc for ShTup12 { fn renc(&self, o: &mut Vec<u8>) { self.0.renc(o); self.1.renc(o); self.2.renc(o); self.3.renc(o); self.4.renc(o); self.5.renc(o); self.6.renc(o); self.7.renc(o); self.8.renc(o); self.9.renc(o); self.10.renc(o); self.11.renc(o); } }
pub fn s_ShBytes() -> S { S::Struct(vec![F::Fix(S::Int(1), 4), F::P(S::Int(2))]) }
impl RefEnc for ShBytes { fn renc(&self, o: &mut Vec<u8>) { for x in self.x.iter() { x.renc(o); } self.y.renc(o); } }
pub fn s_ShWords() -> S { S::Struct(vec![F::P(S::Int(2)), F::Fix(S::Int(2), 3), F::P(S::Int(1))]) }
impl RefEnc for ShWords { fn renc(&self, o: &mut Vec<u8>) { self.x.renc(o); for x in self.y.iter() { x.renc(o); } self.z.renc(o); } }
pub fn s_ShFix2() -> S { S::Struct(vec![F::Fix(s_ShOne(), 2), F::Fix(S::Int(4), 3), F::Fix(S::Int(1), 0)]) }
impl RefEnc for ShFix2 { fn renc(&self, o: &mut Vec<u8>) { for x in self.a.iter() { x.renc(o); } for x in self.b.iter() { x.renc(o); } for x in self.c.iter() { x.renc(o); } } }
pub fn s_ShFixBig() -> S { S::Struct(vec![F::Fix(S::Int(1), 70), F::P(S::Int(8))]) }
impl RefEnc for ShFixBig { fn renc(&self, o: &mut Vec<u8>) { for x in self.pad.iter() { x.renc(o); } self.end.renc(o); } }
pub fn s_ShCnt8() -> S { S::Struct(vec![F::P(S::Int(1)), F::List(0, S::Int(2), 5)]) }
impl RefEnc for ShCnt8 { fn renc(&self, o: &mut Vec<u8>) { self.count.renc(o); for x in (&self.items[..self.count as usize]).iter() { x.renc(o); } } }
pub fn s_ShCnt16() -> S { S::Struct(vec![F::P(S::Int(2)), F::P(S::Int(4)), F::List(0, S::Int(1), 300), F::P(S::Int(2))]) }
impl RefEnc for ShCnt16 { fn renc(&self, o: &mut Vec<u8>) { self.count.renc(o); self.pad.renc(o); for x in (&self.items[..self.count as usize]).iter() { x.renc(o); } self.tail.renc(o); } }
pub fn s_ShCnt32() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, S::Int(8), 1)]) }
impl RefEnc for ShCnt32 { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } } }
pub fn s_ShCnt64() -> S { S::Struct(vec![F::P(S::Int(8)), F::List(0, S::Int(4), 3)]) }
impl RefEnc for ShCnt64 { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } } }
pub fn s_ShCntWide() -> S { S::Struct(vec![F::P(S::Int(1)), F::List(0, S::Int(1), 300), F::P(S::Int(2))]) }
impl RefEnc for ShCntWide { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } self.end.renc(o); } }
pub fn s_ShCnt0() -> S { S::Struct(vec![F::P(S::Int(1)), F::List(0, S::Int(2), 0), F::P(S::Int(1))]) }
impl RefEnc for ShCnt0 { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } self.z.renc(o); } }
pub fn s_ShCnt17() -> S { S::Struct(vec![F::P(S::Int(2)), F::List(0, S::Int(2), 17)]) }
impl RefEnc for ShCnt17 { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } } }
pub fn s_ShTwo() -> S { S::Struct(vec![F::P(S::Int(4)), F::P(S::Int(1)), F::List(0, S::Int(2), 4), F::List(1, s_ShWrap(), 2), F::P(S::Int(1))]) }
impl RefEnc for ShTwo { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); self.m.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } for x in (&self.b[..self.m as usize]).iter() { x.renc(o); } self.end.renc(o); } }
pub fn s_ShTwoAdj() -> S { S::Struct(vec![F::P(S::Int(2)), F::List(0, S::Int(4), 3), F::P(S::Int(2)), F::List(2, S::Int(1), 9)]) }
impl RefEnc for ShTwoAdj { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } self.m.renc(o); for x in (&self.b[..self.m as usize]).iter() { x.renc(o); } } }
pub fn s_ShShare() -> S { S::Struct(vec![F::P(S::Int(1)), F::List(0, S::Int(1), 3), F::List(0, S::Int(2), 3)]) }
impl RefEnc for ShShare { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } for x in (&self.b[..self.n as usize]).iter() { x.renc(o); } } }
pub fn s_ShShareTight() -> S { S::Struct(vec![F::P(S::Int(1)), F::List(0, S::Int(2), 5), F::List(0, S::Int(4), 2), F::P(S::Int(1))]) }
impl RefEnc for ShShareTight { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } for x in (&self.b[..self.n as usize]).iter() { x.renc(o); } self.c.renc(o); } }
pub fn s_ShMix() -> S { S::Struct(vec![F::P(S::Int(1)), F::List(0, S::Int(2), 3), F::Fix(S::Int(4), 2), F::P(S::Int(4)), F::List(3, S::Int(1), 6), F::Fix(S::Int(1), 3)]) }
impl RefEnc for ShMix { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } for x in self.f.iter() { x.renc(o); } self.m.renc(o); for x in (&self.b[..self.m as usize]).iter() { x.renc(o); } for x in self.g.iter() { x.renc(o); } } }
pub fn s_ShNest() -> S { S::Struct(vec![F::P(S::Int(2)), F::List(0, s_ShCnt8(), 3), F::P(s_ShTup())]) }
impl RefEnc for ShNest { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } self.t.renc(o); } }
pub fn s_ShDeep() -> S { S::Struct(vec![F::P(s_ShNest()), F::P(S::Int(1)), F::List(1, s_ShShare(), 2), F::P(s_ShUnit())]) }
impl RefEnc for ShDeep { fn renc(&self, o: &mut Vec<u8>) { self.p.renc(o); self.n.renc(o); for x in (&self.q[..self.n as usize]).iter() { x.renc(o); } self.u.renc(o); } }
pub fn s_ShNames() -> S { S::Struct(vec![F::P(S::Int(4)), F::P(S::Int(2)), F::P(S::Int(1)), F::P(S::Int(2)), F::P(S::Int(4)), F::P(S::Int(1)), F::P(S::Int(8))]) }
impl RefEnc for ShNames { fn renc(&self, o: &mut Vec<u8>) { self.i.renc(o); self.written.renc(o); self.selector.renc(o); self.f0.renc(o); self.size.renc(o); self.name.renc(o); self.buffer.renc(o); } }
pub fn s_ShLong() -> S { S::Struct(vec![F::P(S::Int(1)), F::P(S::Int(2)), F::P(S::Int(4)), F::P(s_ShOne()), F::P(S::Int(8)), F::P(S::Int(1)), F::P(S::Int(2)), F::P(S::Int(4)), F::P(s_ShOne()), F::P(S::Int(8)), F::P(S::Int(1)), F::P(S::Int(2)), F::P(S::Int(4)), F::P(s_ShOne())]) }
impl RefEnc for ShLong { fn renc(&self, o: &mut Vec<u8>) { self.m0.renc(o); self.m1.renc(o); self.m2.renc(o); self.m3.renc(o); self.m4.renc(o); self.m5.renc(o); self.m6.renc(o); self.m7.renc(o); self.m8.renc(o); self.m9.renc(o); self.m10.renc(o); self.m11.renc(o); self.m12.renc(o); self.m13.renc(o); } }
pub fn s_ShSized() -> S { S::Struct(vec![F::P(s_ShB7()), F::P(S::Int(1)), F::P(s_ShB0()), F::P(S::Int(1)), F::List(3, s_ShB7(), 3)]) }
impl RefEnc for ShSized { fn renc(&self, o: &mut Vec<u8>) { self.a.renc(o); self.b.renc(o); self.c.renc(o); self.n.renc(o); for x in (&self.d[..self.n as usize]).iter() { x.renc(o); } } }
pub fn s_ShBig() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, S::Int(1), 65532)]) }
impl RefEnc for ShBig { fn renc(&self, o: &mut Vec<u8>) { self.n.renc(o); for x in (&self.a[..self.n as usize]).iter() { x.renc(o); } } }
pub fn s_ShU16() -> S { S::Enum(2, vec![(0x7fff, vec![S::Int(1)]), (0x0, vec![s_ShOne(), S::Int(2), S::Int(8)]), (0xffff, vec![s_ShCnt8()]), (0x100, vec![s_ShWrap(), s_ShWrap()]), (0x3, vec![S::Bytes(6), S::Int(1)]), (0x2, vec![])]) }
pub fn vsel_ShU16(x: &ShU16) -> u16 { match x { ShU16::A(..) => 0x7fff, ShU16::B(..) => 0x0, ShU16::C(..) => 0xffff, ShU16::D(..) => 0x100, ShU16::E(..) => 0x3, ShU16::F(..) => 0x2 } }
pub fn venc_ShU16(x: &ShU16, o: &mut Vec<u8>) { match x { ShU16::A(f0) => { f0.renc(o); }, ShU16::B(f0, f1, f2) => { f0.renc(o); f1.renc(o); f2.renc(o); }, ShU16::C(f0) => { f0.renc(o); }, ShU16::D(f0, f1) => { f0.renc(o); f1.renc(o); }, ShU16::E(f0, f1) => { f0.renc(o); f1.renc(o); }, ShU16::F() => {  } } }
impl RefEnc for ShU16 { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_ShU16(self).to_be_bytes()); venc_ShU16(self, o); } }
pub fn s_ShU8() -> S { S::Enum(1, vec![(0x0, vec![S::Int(2)]), (0x1, vec![]), (0xff, vec![S::Int(1), S::Int(4)])]) }
pub fn vsel_ShU8(x: &ShU8) -> u8 { match x { ShU8::A(..) => 0x0, ShU8::B(..) => 0x1, ShU8::C(..) => 0xff } }
pub fn venc_ShU8(x: &ShU8, o: &mut Vec<u8>) { match x { ShU8::A(f0) => { f0.renc(o); }, ShU8::B() => {  }, ShU8::C(f0, f1) => { f0.renc(o); f1.renc(o); } } }
impl RefEnc for ShU8 { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_ShU8(self).to_be_bytes()); venc_ShU8(self, o); } }
pub fn s_ShWithU() -> S { S::Struct(vec![F::P(S::Int(2)), F::P(s_ShU16()), F::P(S::Int(1)), F::P(s_ShU8())]) }
impl RefEnc for ShWithU { fn renc(&self, o: &mut Vec<u8>) { self.a.renc(o); self.u.renc(o); self.b.renc(o); self.v.renc(o); } }
pub fn s_ShU32() -> S { S::Enum(4, vec![(0xffffffff, vec![s_ShU8(), S::Int(1)]), (0x1, vec![s_ShTup(), s_ShTwo()]), (0x10001, vec![s_ShU16()])]) }
pub fn vsel_ShU32(x: &ShU32) -> u32 { match x { ShU32::A(..) => 0xffffffff, ShU32::B(..) => 0x1, ShU32::C(..) => 0x10001 } }
pub fn venc_ShU32(x: &ShU32, o: &mut Vec<u8>) { match x { ShU32::A(f0, f1) => { f0.renc(o); f1.renc(o); }, ShU32::B(f0, f1) => { f0.renc(o); f1.renc(o); }, ShU32::C(f0) => { f0.renc(o); } } }
impl RefEnc for ShU32 { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_ShU32(self).to_be_bytes()); venc_ShU32(self, o); } }
pub fn s_ShU64() -> S { S::Enum(8, vec![(0x1, vec![S::Int(1)]), (0x100000001, vec![S::Int(2)]), (0xffffffffffffffff, vec![])]) }
pub fn vsel_ShU64(x: &ShU64) -> u64 { match x { ShU64::A(..) => 0x1, ShU64::B(..) => 0x100000001, ShU64::C(..) => 0xffffffffffffffff } }
pub fn venc_ShU64(x: &ShU64, o: &mut Vec<u8>) { match x { ShU64::A(f0) => { f0.renc(o); }, ShU64::B(f0) => { f0.renc(o); }, ShU64::C() => {  } } }
impl RefEnc for ShU64 { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_ShU64(self).to_be_bytes()); venc_ShU64(self, o); } }
pub fn s_ShUOne() -> S { S::Enum(2, vec![(0x23, vec![S::Int(4), S::Int(2), S::Int(1), S::Int(8)])]) }
pub fn vsel_ShUOne(x: &ShUOne) -> u16 { match x { ShUOne::Only(..) => 0x23 } }
pub fn venc_ShUOne(x: &ShUOne, o: &mut Vec<u8>) { match x { ShUOne::Only(f0, f1, f2, f3) => { f0.renc(o); f1.renc(o); f2.renc(o); f3.renc(o); } } }
impl RefEnc for ShUOne { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_ShUOne(self).to_be_bytes()); venc_ShUOne(self, o); } }
pub fn drive_all(d: &mut crate::codec::Driver) {
    d.codec::<ShB0>("C02", "ShB0", s_ShB0());
    d.tpm2b::<ShB0>("ShB0", 0);
    d.codec::<ShB1>("C02", "ShB1", s_ShB1());
    d.tpm2b::<ShB1>("ShB1", 1);
    d.codec::<ShB7>("C02", "ShB7", s_ShB7());
    d.tpm2b::<ShB7>("ShB7", 7);
    d.codec::<ShBMax>("C02", "ShBMax", s_ShBMax());
    d.tpm2b::<ShBMax>("ShBMax", 65535);
    d.codec::<ShBHuge>("C02", "ShBHuge", s_ShBHuge());
    d.tpm2b::<ShBHuge>("ShBHuge", 65535);
    d.codec::<ShHTwo>("C02", "ShHTwo", s_ShHTwo());
    d.tpm2b::<ShHTwo>("ShHTwo", <ShHTwo as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<ShHTwo, ShTwo>("ShHTwo", "ShTwo", s_ShTwo());
    d.tpm2bstruct::<ShHTwo>("ShHTwo", s_ShTwo());
    d.codec::<ShHDeep>("C02", "ShHDeep", s_ShHDeep());
    d.tpm2b::<ShHDeep>("ShHDeep", <ShHDeep as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<ShHDeep, ShDeep>("ShHDeep", "ShDeep", s_ShDeep());
    d.tpm2bstruct::<ShHDeep>("ShHDeep", s_ShDeep());
    d.codec::<ShHU>("C02", "ShHU", s_ShHU());
    d.tpm2b::<ShHU>("ShHU", <ShHU as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<ShHU, ShU32>("ShHU", "ShU32", s_ShU32());
    d.tpm2bstruct::<ShHU>("ShHU", s_ShU32());
    d.codec::<ShHBig>("C02", "ShHBig", s_ShHBig());
    d.tpm2b::<ShHBig>("ShHBig", <ShHBig as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.tpm2bstruct::<ShHBig>("ShHBig", s_ShBig());
    d.codec::<ShOne>("C03", "ShOne", s_ShOne());
    d.codec::<ShInts>("C03", "ShInts", s_ShInts());
    d.codec::<ShUnit>("C03", "ShUnit", s_ShUnit());
    d.codec::<ShWrap>("C03", "ShWrap", s_ShWrap());
    d.codec::<ShWrapI>("C03", "ShWrapI", s_ShWrapI());
    d.codec::<ShTup>("C03", "ShTup", s_ShTup());
    d.codec::<ShTupArr>("C03", "ShTupArr", s_ShTupArr());
    d.codec::<ShTup12>("C03", "ShTup12", s_ShTup12());
    d.codec::<ShBytes>("C05", "ShBytes", s_ShBytes());
    d.codec::<ShWords>("C05", "ShWords", s_ShWords());
    d.codec::<ShFix2>("C05", "ShFix2", s_ShFix2());
    d.codec::<ShFixBig>("C05", "ShFixBig", s_ShFixBig());
    d.codec::<ShCnt8>("C05", "ShCnt8", s_ShCnt8());
    d.over::<ShCnt8>("ShCnt8", s_ShCnt8(), 5, 1, |x, v| x.count = v as u8);
    d.codec::<ShCnt16>("C05", "ShCnt16", s_ShCnt16());
    d.over::<ShCnt16>("ShCnt16", s_ShCnt16(), 300, 2, |x, v| x.count = v as u16);
    d.codec::<ShCnt32>("C05", "ShCnt32", s_ShCnt32());
    d.over::<ShCnt32>("ShCnt32", s_ShCnt32(), 1, 4, |x, v| x.n = v as u32);
    d.codec::<ShCnt64>("C05", "ShCnt64", s_ShCnt64());
    d.over::<ShCnt64>("ShCnt64", s_ShCnt64(), 3, 8, |x, v| x.n = v as u64);
    d.codec::<ShCntWide>("C05", "ShCntWide", s_ShCntWide());
    d.over::<ShCntWide>("ShCntWide", s_ShCntWide(), 300, 1, |x, v| x.n = v as u8);
    d.codec::<ShCnt0>("C05", "ShCnt0", s_ShCnt0());
    d.over::<ShCnt0>("ShCnt0", s_ShCnt0(), 0, 1, |x, v| x.n = v as u8);
    d.codec::<ShCnt17>("C05", "ShCnt17", s_ShCnt17());
    d.over::<ShCnt17>("ShCnt17", s_ShCnt17(), 17, 2, |x, v| x.n = v as u16);
    d.codec::<ShTwo>("C05", "ShTwo", s_ShTwo());
    d.over::<ShTwo>("ShTwo", s_ShTwo(), 4, 4, |x, v| x.n = v as u32);
    d.over::<ShTwo>("ShTwo", s_ShTwo(), 2, 1, |x, v| x.m = v as u8);
    d.codec::<ShTwoAdj>("C05", "ShTwoAdj", s_ShTwoAdj());
    d.over::<ShTwoAdj>("ShTwoAdj", s_ShTwoAdj(), 3, 2, |x, v| x.n = v as u16);
    d.over::<ShTwoAdj>("ShTwoAdj", s_ShTwoAdj(), 9, 2, |x, v| x.m = v as u16);
    d.codec::<ShShare>("C05", "ShShare", s_ShShare());
    d.over::<ShShare>("ShShare", s_ShShare(), 3, 1, |x, v| x.n = v as u8);
    d.codec::<ShShareTight>("C05", "ShShareTight", s_ShShareTight());
    d.over::<ShShareTight>("ShShareTight", s_ShShareTight(), 2, 1, |x, v| x.n = v as u8);
    d.codec::<ShMix>("C05", "ShMix", s_ShMix());
    d.over::<ShMix>("ShMix", s_ShMix(), 3, 1, |x, v| x.n = v as u8);
    d.over::<ShMix>("ShMix", s_ShMix(), 6, 4, |x, v| x.m = v as u32);
    d.codec::<ShNest>("C05", "ShNest", s_ShNest());
    d.over::<ShNest>("ShNest", s_ShNest(), 3, 2, |x, v| x.n = v as u16);
    d.codec::<ShDeep>("C05", "ShDeep", s_ShDeep());
    d.over::<ShDeep>("ShDeep", s_ShDeep(), 2, 1, |x, v| x.n = v as u8);
    d.codec::<ShNames>("C03", "ShNames", s_ShNames());
    d.codec::<ShLong>("C03", "ShLong", s_ShLong());
    d.codec::<ShSized>("C05", "ShSized", s_ShSized());
    d.over::<ShSized>("ShSized", s_ShSized(), 3, 1, |x, v| x.n = v as u8);
    d.codec::<ShBig>("C05", "ShBig", s_ShBig());
    d.over::<ShBig>("ShBig", s_ShBig(), 65532, 4, |x, v| x.n = v as u32);
    d.codec::<ShU16>("C04", "ShU16", s_ShU16());
    d.codec::<ShU8>("C04", "ShU8", s_ShU8());
    d.codec::<ShWithU>("C03", "ShWithU", s_ShWithU());
    d.codec::<ShU32>("C04", "ShU32", s_ShU32());
    d.codec::<ShU64>("C04", "ShU64", s_ShU64());
    d.codec::<ShUOne>("C04", "ShUOne", s_ShUOne());
}
