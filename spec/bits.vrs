#![allow(unused, non_upper_case_globals, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
verus! {
pub mod shim { use super::*;
    #[verifier::external_body] pub const fn panic_() -> (r: !) requires false { loop {} }
}
//@group C07
pub proof fn shifts()
    ensures 1u32 << 0 == 0x1, 1u32 << 1 == 0x2, 1u32 << 2 == 0x4, 1u32 << 3 == 0x8, 1u32 << 4 == 0x10, 1u32 << 5 == 0x20, 1u32 << 6 == 0x40, 1u32 << 7 == 0x80, 1u32 << 8 == 0x100, 1u32 << 9 == 0x200, 1u32 << 10 == 0x400, 1u32 << 11 == 0x800, 1u32 << 12 == 0x1000, 1u32 << 13 == 0x2000, 1u32 << 14 == 0x4000, 1u32 << 15 == 0x8000, 1u32 << 16 == 0x10000, 1u32 << 17 == 0x20000, 1u32 << 18 == 0x40000, 1u32 << 19 == 0x80000, 1u32 << 20 == 0x100000, 1u32 << 21 == 0x200000, 1u32 << 22 == 0x400000, 1u32 << 23 == 0x800000, 1u32 << 24 == 0x1000000, 1u32 << 25 == 0x2000000, 1u32 << 26 == 0x4000000, 1u32 << 27 == 0x8000000, 1u32 << 28 == 0x10000000, 1u32 << 29 == 0x20000000, 1u32 << 30 == 0x40000000, 1u32 << 31 == 0x80000000, 1u8 << 0 == 0x1, 1u8 << 1 == 0x2, 1u8 << 2 == 0x4, 1u8 << 3 == 0x8, 1u8 << 4 == 0x10, 1u8 << 5 == 0x20, 1u8 << 6 == 0x40, 1u8 << 7 == 0x80
{
    assert(1u32 << 0 == 0x1) by (bit_vector);
    assert(1u32 << 1 == 0x2) by (bit_vector);
    assert(1u32 << 2 == 0x4) by (bit_vector);
    assert(1u32 << 3 == 0x8) by (bit_vector);
    assert(1u32 << 4 == 0x10) by (bit_vector);
    assert(1u32 << 5 == 0x20) by (bit_vector);
    assert(1u32 << 6 == 0x40) by (bit_vector);
    assert(1u32 << 7 == 0x80) by (bit_vector);
    assert(1u32 << 8 == 0x100) by (bit_vector);
    assert(1u32 << 9 == 0x200) by (bit_vector);
    assert(1u32 << 10 == 0x400) by (bit_vector);
    assert(1u32 << 11 == 0x800) by (bit_vector);
    assert(1u32 << 12 == 0x1000) by (bit_vector);
    assert(1u32 << 13 == 0x2000) by (bit_vector);
    assert(1u32 << 14 == 0x4000) by (bit_vector);
    assert(1u32 << 15 == 0x8000) by (bit_vector);
    assert(1u32 << 16 == 0x10000) by (bit_vector);
    assert(1u32 << 17 == 0x20000) by (bit_vector);
    assert(1u32 << 18 == 0x40000) by (bit_vector);
    assert(1u32 << 19 == 0x80000) by (bit_vector);
    assert(1u32 << 20 == 0x100000) by (bit_vector);
    assert(1u32 << 21 == 0x200000) by (bit_vector);
    assert(1u32 << 22 == 0x400000) by (bit_vector);
    assert(1u32 << 23 == 0x800000) by (bit_vector);
    assert(1u32 << 24 == 0x1000000) by (bit_vector);
    assert(1u32 << 25 == 0x2000000) by (bit_vector);
    assert(1u32 << 26 == 0x4000000) by (bit_vector);
    assert(1u32 << 27 == 0x8000000) by (bit_vector);
    assert(1u32 << 28 == 0x10000000) by (bit_vector);
    assert(1u32 << 29 == 0x20000000) by (bit_vector);
    assert(1u32 << 30 == 0x40000000) by (bit_vector);
    assert(1u32 << 31 == 0x80000000) by (bit_vector);
    assert(1u8 << 0 == 0x1) by (bit_vector);
    assert(1u8 << 1 == 0x2) by (bit_vector);
    assert(1u8 << 2 == 0x4) by (bit_vector);
    assert(1u8 << 3 == 0x8) by (bit_vector);
    assert(1u8 << 4 == 0x10) by (bit_vector);
    assert(1u8 << 5 == 0x20) by (bit_vector);
    assert(1u8 << 6 == 0x40) by (bit_vector);
    assert(1u8 << 7 == 0x80) by (bit_vector);
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmAlgId
//@idents crate=base type=TpmAlgId
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmEccCurve
//@idents crate=base type=TpmEccCurve
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmCc
//@idents crate=base type=TpmCc
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmRc
//@idents crate=base type=TpmRc
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmEo
//@idents crate=base type=TpmEo
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmSt
//@idents crate=base type=TpmSt
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmSu
//@idents crate=base type=TpmSu
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmSe
//@idents crate=base type=TpmSe
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmCap
//@idents crate=base type=TpmCap
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmPt
//@idents crate=base type=TpmPt
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmPtPcr
//@idents crate=base type=TpmPtPcr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmHt
//@idents crate=base type=TpmHt
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmHandle
//@idents crate=base type=TpmHandle
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmNt
//@idents crate=base type=TpmNt
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmGenerated
//@idents crate=base type=TpmGenerated
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmaLocality
impl TpmaLocality { /// what the bitflags macro generates
    pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.0 == bits { TpmaLocality(bits) } }
//@idents crate=base type=TpmaLocality proof="proof { shifts(); }"
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmaNv
impl TpmaNv { /// what the bitflags macro generates
    pub const fn from_bits_retain(bits: u32) -> (r: Self) ensures r.0 == bits { TpmaNv(bits) } }
//@idents crate=base type=TpmaNv proof="proof { shifts(); }"
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgHash
//@idents crate=base type=TpmiAlgHash
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgKdf
//@idents crate=base type=TpmiAlgKdf
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgPublic
//@idents crate=base type=TpmiAlgPublic
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgSymMode
//@idents crate=base type=TpmiAlgSymMode
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgSymObject
//@idents crate=base type=TpmiAlgSymObject
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgKeyedhashScheme
//@idents crate=base type=TpmiAlgKeyedhashScheme
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgRsaScheme
//@idents crate=base type=TpmiAlgRsaScheme
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgSigScheme
//@idents crate=base type=TpmiAlgSigScheme
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgEccScheme
//@idents crate=base type=TpmiAlgEccScheme
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiAlgAsymScheme
//@idents crate=base type=TpmiAlgAsymScheme
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiYesNo
//@idents crate=base type=TpmiYesNo
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiStAttest
//@idents crate=base type=TpmiStAttest
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmaObject
impl TpmaObject { /// what the bitflags macro generates
    pub const fn from_bits_retain(bits: u32) -> (r: Self) ensures r.0 == bits { TpmaObject(bits) } }
//@idents crate=base type=TpmaObject proof="proof { shifts(); }"
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmaAlgorithm
impl TpmaAlgorithm { /// what the bitflags macro generates
    pub const fn from_bits_retain(bits: u32) -> (r: Self) ensures r.0 == bits { TpmaAlgorithm(bits) } }
//@idents crate=base type=TpmaAlgorithm proof="proof { shifts(); }"
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmaSession
impl TpmaSession { /// what the bitflags macro generates
    pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.0 == bits { TpmaSession(bits) } }
//@idents crate=base type=TpmaSession proof="proof { shifts(); }"
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmaCc
impl TpmaCc { /// what the bitflags macro generates
    pub const fn from_bits_retain(bits: u32) -> (r: Self) ensures r.0 == bits { TpmaCc(bits) } }
//@idents crate=base type=TpmaCc proof="proof { shifts(); }"
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiStCommandTag
//@idents crate=base type=TpmiStCommandTag
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=Alg
//@idents crate=tpm2 type=Alg

// ---- handles --------------------------------------------------------------------------------
//@group C10
#[verifier::external_body]
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU32 { x: u32 }
impl NonZeroU32 {
    pub uninterp spec fn view(self) -> u32;
    #[verifier::external_body] pub const fn new(v: u32) -> (r: Option<NonZeroU32>) ensures r is Some <==> v != 0, r is Some ==> r->Some_0@ == v { if v != 0 { Some(NonZeroU32 { x: v }) } else { None } }
}
pub fn in_range_incl(a: u32, b: u32, v: u32) -> (r: bool) ensures r == (a <= v <= b) { a <= v && v <= b }
pub fn in_range(a: u32, b: u32, v: u32) -> (r: bool) ensures r == (a <= v < b) { a <= v && v < b }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=TpmRcError
impl TpmRcError {
//@ints crate=tpm2 type=TpmRcError
//@exconst crate=tpm2 type=TpmRcError name=Value ## Self::Value.0@ == 0x84
//@fn crate=tpm2 impl=TpmRcError name=new
//@requires val != 0
//@ensures r.0@ == val
//@end
}
//@gconst TPM2_MAX_ACTIVE_SESSIONS u32
/// the ranges of TPM 2.0 Part 2, 7.5 (the first octet is the handle type; 64 active sessions in this profile)
pub open spec fn hmac_session(v: u32) -> bool { 0x02000000 <= v <= 0x0200003F }
pub open spec fn policy_session(v: u32) -> bool { 0x03000000 <= v <= 0x0300003F }
pub open spec fn nv_index(v: u32) -> bool { 0x01000000 <= v <= 0x01FFFFFF }
pub proof fn octet(x: u32) ensures x < 256 ==> x << 24 == x * 0x1000000 { assert(x < 256 ==> x << 24 == x * 0x1000000) by (bit_vector); }
pub proof fn octets() ensures forall|x: u32| x < 256 ==> #[trigger] (x << 24) == x * 0x1000000 { assert forall|x: u32| x < 256 implies #[trigger] (x << 24) == x * 0x1000000 by { octet(x); } }
/// the handle types tell the ranges apart
pub proof fn ranges_are_disjoint(v: u32)
    ensures hmac_session(v) ==> v >> 24 == 2 && !policy_session(v) && !nv_index(v), policy_session(v) ==> v >> 24 == 3 && !nv_index(v), nv_index(v) <==> v >> 24 == 1
{ assert(v >> 24 == 1 <==> 0x01000000 <= v <= 0x01FFFFFF) by (bit_vector); assert(0x02000000 <= v <= 0x0200003F ==> v >> 24 == 2) by (bit_vector); assert(0x03000000 <= v <= 0x0300003F ==> v >> 24 == 3) by (bit_vector); }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmHc
impl TpmHc {
//@ints crate=base type=TpmHc
//@exconst crate=base type=TpmHc name=HRPcr ## Self::HRPcr.0 == 0
//@exconst crate=base type=TpmHc name=HRNvIndex ## Self::HRNvIndex.0 == 0x01000000
//@exconst crate=base type=TpmHc name=HRHMACSession ## Self::HRHMACSession.0 == 0x02000000
//@exconst crate=base type=TpmHc name=HRPolicySession ## Self::HRPolicySession.0 == 0x03000000
//@exconst crate=base type=TpmHc name=HRTransient ## Self::HRTransient.0 == 0x80000000
//@exconst crate=base type=TpmHc name=HRPersistent ## Self::HRPersistent.0 == 0x81000000
//@exconst crate=base type=TpmHc name=HmacSessionFirst ## Self::HmacSessionFirst.0 == 0x02000000
//@exconst crate=base type=TpmHc name=HmacSessionLast ## Self::HmacSessionLast.0 == 0x0200003F
//@exconst crate=base type=TpmHc name=PolicySessionFirst ## Self::PolicySessionFirst.0 == 0x03000000
//@exconst crate=base type=TpmHc name=PolicySessionLast ## Self::PolicySessionLast.0 == 0x0300003F
//@exconst crate=base type=TpmHc name=PersistentFirst ## Self::PersistentFirst.0 == 0x81000000
//@exconst crate=base type=TpmHc name=PersistentLast ## Self::PersistentLast.0 == 0x81FFFFFF
//@exconst crate=base type=TpmHc name=NVIndexFirst ## Self::NVIndexFirst.0 == 0x01000000
//@exconst crate=base type=TpmHc name=NVIndexLast ## Self::NVIndexLast.0 == 0x01FFFFFF
//@fn crate=base impl=TpmHc name=new
//@ensures r.0 == handle_type.0 * 0x1000000
//@pre proof { octets(); }
//@end
//@fn crate=base impl=TpmHc name=get
//@ensures r == self.0
//@end
//@fn crate=base impl=TpmHc name=is_hmac_session
//@ensures r == hmac_session(value)
//@pre proof { ranges_are_disjoint(value); }
//@end
//@fn crate=base impl=TpmHc name=is_policy_session
//@ensures r == policy_session(value)
//@pre proof { ranges_are_disjoint(value); }
//@end
//@fn crate=base impl=TpmHc name=is_nv_index
//@ensures r == nv_index(value)
//@pre proof { ranges_are_disjoint(value); }
//@end
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiRhNvIndex
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=base name=TpmiShAuthSession
impl TpmiShAuthSession {
//@exconst crate=base type=TpmiShAuthSession name=RS_PW ## Self::RS_PW.0 == 0x40000009
}
impl TryFromSpecImpl<u32> for TpmiRhNvIndex {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: u32) -> Result<Self, Self::Error> { arbitrary() }
}
impl TryFrom<u32> for TpmiRhNvIndex {
    type Error = TpmRcError;
//@fn crate=base impl="TryFrom<u32> for TpmiRhNvIndex" name=try_from
//@ensures r is Ok <==> nv_index(value), r is Ok ==> r->Ok_0.0 == value, r is Err ==> r->Err_0.0@ == 0x84
//@end
}
impl TryFromSpecImpl<u32> for TpmiShAuthSession {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: u32) -> Result<Self, Self::Error> { arbitrary() }
}
impl TryFrom<u32> for TpmiShAuthSession {
    type Error = TpmRcError;
//@fn crate=base impl="TryFrom<u32> for TpmiShAuthSession" name=try_from
//@ensures r is Ok <==> (hmac_session(value) || policy_session(value) || value == 0x40000009), r is Ok ==> r->Ok_0.0 == value, r is Err ==> r->Err_0.0@ == 0x84
//@end
}
// ---- attribute words ------------------------------------------------------------------------
//@group C11
/// what it means to read, make and replace a field (TPM 2.0 Part 2, 4.11)
pub open spec fn field(v: u32, mask: u32, shift: u32) -> u32 { (v & mask) >> shift }
pub open spec fn placed(f: u32, mask: u32, shift: u32) -> u32 { (f << shift) & mask }
pub open spec fn replaced(v: u32, f: u32, mask: u32, shift: u32) -> u32 { (v & !mask) | ((f << shift) & mask) }
//@fn crate=base impl=fn name=new_attribute_field
//@requires shift < 32
//@ensures r == placed(value, mask, shift)
//@end
//@fn crate=base impl=fn name=get_attribute_field
//@requires shift < 32
//@ensures r == field(value, mask, shift)
//@end
//@fn crate=base impl=fn name=set_attribute_field
//@requires shift < 32
//@ensures r == replaced(value, field_value, mask, shift)
//@end
/// NV index type: bits 7:4
pub proof fn nv_fields(v: u32, t: u32)
    ensures field(v, 0xF0, 4) == (v / 16) % 16, field(v, 0xF0, 4) < 16,
        placed(t, 0xF0, 4) & !0xF0u32 == 0, field(placed(t, 0xF0, 4), 0xF0, 4) == t & 0xF, t < 16 ==> t & 0xF == t && placed(t, 0xF0, 4) == t * 16,
        replaced(v, t, 0xF0, 4) & !0xF0u32 == v & !0xF0u32, field(replaced(v, t, 0xF0, 4), 0xF0, 4) == t & 0xF
{
    assert((v & 0xF0) >> 4 == (v / 16) % 16 && (v & 0xF0) >> 4 < 16) by (bit_vector);
    assert(((t << 4) & 0xF0) & !0xF0u32 == 0 && (((t << 4) & 0xF0) & 0xF0) >> 4 == t & 0xF && (t < 16 ==> t & 0xF == t && (t << 4) & 0xF0 == t * 16)) by (bit_vector);
    assert(((v & !0xF0u32) | ((t << 4) & 0xF0)) & !0xF0u32 == v & !0xF0u32 && (((v & !0xF0u32) | ((t << 4) & 0xF0)) & 0xF0) >> 4 == t & 0xF) by (bit_vector);
}
impl TpmaNv {
//@ints crate=base type=TpmaNv
//@fn crate=base impl=TpmaNv name=from_index_type
//@ensures r.0 & !0xF0u32 == 0, field(r.0, 0xF0, 4) == index_type.0 as u32 & 0xF, index_type.0 < 16 ==> r.0 == index_type.0 * 16
//@pre proof { nv_fields(0, index_type.0 as u32); }
//@end
//@fn crate=base impl=TpmaNv name=get_index_type
//@ensures r.0 == (self.0 / 16) % 16
//@pre proof { nv_fields(self.0, 0); }
//@end
//@fn crate=base impl=TpmaNv name=set_type
//@ensures final(self).0 & !0xF0u32 == old(self).0 & !0xF0u32, field(final(self).0, 0xF0, 4) == index_type.0 as u32 & 0xF
//@pre proof { nv_fields(self.0, index_type.0 as u32); }
//@end
}
impl FromSpecImpl<TpmNt> for TpmaNv {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: TpmNt) -> TpmaNv { arbitrary() }
}
impl From<TpmNt> for TpmaNv {
//@fn crate=base impl="From<TpmNt> for TpmaNv" name=from
//@ensures r.0 & !0xF0u32 == 0, field(r.0, 0xF0, 4) == value.0 as u32 & 0xF, value.0 < 16 ==> r.0 == value.0 * 16
//@end
}
/// setting the index type and reading it back gives the type, whatever was there before
pub fn nv_type_round_trip(a: TpmaNv, t: TpmNt) requires t.0 < 16 {
    let mut x = a;
    x.set_type(t);
    proof { nv_fields(x.0, t.0 as u32); }
    let y = x.get_index_type();
    assert(y.0 == t.0);
    let z = TpmaNv::from(t);
    proof { nv_fields(z.0, t.0 as u32); }
    let w = z.get_index_type();
    assert(w.0 == t.0);
}
/// command attributes: command index in bits 15:0, handle count in bits 27:25
pub proof fn cc_fields(v: u32, i: u32)
    ensures field(v, 0xFFFF, 0) == v % 0x10000, placed(i, 0xFFFF, 0) == i & 0xFFFF, i < 0x10000 ==> i & 0xFFFF == i,
        replaced(v, i, 0xFFFF, 0) & 0xFFFF0000 == v & 0xFFFF0000, field(replaced(v, i, 0xFFFF, 0), 0xFFFF, 0) == i & 0xFFFF,
        0x7u32 << 25 == 0x0E000000, field(v, 0x0E000000, 25) == (v / 0x2000000) % 8, i < 8 ==> placed(i, 0x0E000000, 25) == i * 0x2000000,
        placed(i, 0x0E000000, 25) & !0x0E000000u32 == 0, field(placed(i, 0x0E000000, 25), 0x0E000000, 25) == i & 7,
        replaced(v, i, 0x0E000000, 25) & !0x0E000000u32 == v & !0x0E000000u32, field(replaced(v, i, 0x0E000000, 25), 0x0E000000, 25) == i & 7
{
    assert((v & 0xFFFF) >> 0 == v % 0x10000 && (i << 0) & 0xFFFF == i & 0xFFFF && (i < 0x10000 ==> i & 0xFFFF == i)) by (bit_vector);
    assert(((v & !0xFFFFu32) | ((i << 0) & 0xFFFF)) & 0xFFFF0000 == v & 0xFFFF0000 && (((v & !0xFFFFu32) | ((i << 0) & 0xFFFF)) & 0xFFFF) >> 0 == i & 0xFFFF) by (bit_vector);
    assert(0x7u32 << 25 == 0x0E000000) by (bit_vector);
    assert((v & 0x0E000000) >> 25 == (v / 0x2000000) % 8 && (i < 8 ==> (i << 25) & 0x0E000000 == i * 0x2000000)) by (bit_vector);
    assert(((i << 25) & 0x0E000000) & !0x0E000000u32 == 0 && (((i << 25) & 0x0E000000) & 0x0E000000) >> 25 == i & 7) by (bit_vector);
    assert(((v & !0x0E000000u32) | ((i << 25) & 0x0E000000)) & !0x0E000000u32 == v & !0x0E000000u32 && (((v & !0x0E000000u32) | ((i << 25) & 0x0E000000)) & 0x0E000000) >> 25 == i & 7) by (bit_vector);
}
impl TpmaCc {
//@ints crate=base type=TpmaCc
//@fn crate=base impl=TpmaCc name=command_index
//@ensures r.0 == index
//@pre proof { cc_fields(0, index as u32); }
//@end
//@fn crate=base impl=TpmaCc name=c_handles
//@ensures r.0 & !0x0E000000u32 == 0, field(r.0, 0x0E000000, 25) == count & 7, count < 8 ==> r.0 == count * 0x2000000
//@pre proof { cc_fields(0, count); }
//@end
//@fn crate=base impl=TpmaCc name=get_command_index
//@ensures r == self.0 % 0x10000
//@pre proof { cc_fields(self.0, 0); }
//@end
//@fn crate=base impl=TpmaCc name=get_c_handles
//@ensures r == (self.0 / 0x2000000) % 8
//@pre proof { cc_fields(self.0, 0); }
//@end
//@fn crate=base impl=TpmaCc name=set_command_index
//@ensures final(self).0 & 0xFFFF0000 == old(self).0 & 0xFFFF0000, final(self).0 % 0x10000 == index
//@pre proof { cc_fields(self.0, index as u32); cc_fields(replaced(self.0, index as u32, 0xFFFF, 0), 0); }
//@end
//@fn crate=base impl=TpmaCc name=set_c_handles
//@ensures final(self).0 & !0x0E000000u32 == old(self).0 & !0x0E000000u32, field(final(self).0, 0x0E000000, 25) == count & 7
//@pre proof { cc_fields(self.0, count); }
//@end
}
impl TpmaLocality {
//@ints crate=base type=TpmaLocality
//@fn crate=base impl=TpmaLocality name=is_extended
//@ensures r == (self.0 >= 32)
//@pre proof { let v = self.0; assert(v & 0xE0 != 0 <==> v >= 32) by (bit_vector); }
//@end
}
}
fn main() {}
