#![allow(unused, non_upper_case_globals, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
verus! {
pub mod shim { use super::*;
    #[verifier::external_body] pub const fn panic_() -> (r: !) requires false { loop {} }
}
//@group C09
// ---- assumed contracts of core ------------------------------------------------------------
/// core::num::NonZeroU32
#[verifier::external_body]
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU32 { x: u32 }
impl NonZeroU32 {
    pub uninterp spec fn view(self) -> u32;
    pub broadcast axiom fn never_zero(self) ensures #[trigger] self.view() != 0;
    #[verifier::external_body] pub const fn new(v: u32) -> (r: Option<NonZeroU32>) ensures r is Some <==> v != 0, r is Some ==> r->Some_0@ == v { if v != 0 { Some(NonZeroU32 { x: v }) } else { None } }
    #[verifier::external_body] pub const fn get(self) -> (r: u32) ensures r == self@, r != 0 { self.x }
    #[verifier::external_body] pub fn try_from(v: u32) -> (r: Result<NonZeroU32, TryFromIntError>) ensures r is Ok <==> v != 0, r is Ok ==> r->Ok_0@ == v { unimplemented!() }
}
pub struct TryFromIntError;

// ---- the reference: TPM 2.0 Part 2, 6.6 (TPM_RC) and the TSS return codes ---------------------
/// bits of a format 1 code: 7 set; 6 = parameter; otherwise 11 = session, else handle; number in 8-11 (parameter) or 8-10
pub open spec fn kind_bits(k: ErrorType) -> u32 { match k { ErrorType::Handle => 0, ErrorType::Parameter => 0x40, ErrorType::Session => 0x800 } }
pub open spec fn pos_nr(p: ErrorPosition) -> u32 { match p { ErrorPosition::Pos1 => 1, ErrorPosition::Pos2 => 2, ErrorPosition::Pos3 => 3, ErrorPosition::Pos4 => 4,
    ErrorPosition::Pos5 => 5, ErrorPosition::Pos6 => 6, ErrorPosition::Pos7 => 7, ErrorPosition::Pos8 => 8, ErrorPosition::Pos9 => 9, ErrorPosition::PosA => 10,
    ErrorPosition::PosB => 11, ErrorPosition::PosC => 12, ErrorPosition::PosD => 13, ErrorPosition::PosE => 14, ErrorPosition::PosF => 15 } }
pub open spec fn nr_pos(n: u32) -> Option<ErrorPosition> { match n { 1 => Some(ErrorPosition::Pos1), 2 => Some(ErrorPosition::Pos2), 3 => Some(ErrorPosition::Pos3), 4 => Some(ErrorPosition::Pos4),
    5 => Some(ErrorPosition::Pos5), 6 => Some(ErrorPosition::Pos6), 7 => Some(ErrorPosition::Pos7), 8 => Some(ErrorPosition::Pos8), 9 => Some(ErrorPosition::Pos9), 10 => Some(ErrorPosition::PosA),
    11 => Some(ErrorPosition::PosB), 12 => Some(ErrorPosition::PosC), 13 => Some(ErrorPosition::PosD), 14 => Some(ErrorPosition::PosE), 15 => Some(ErrorPosition::PosF), _ => None } }
pub open spec fn fmt1(v: u32) -> bool { v & 0x80 != 0 }
pub open spec fn kind_of(v: u32) -> Option<ErrorType> {
    if !fmt1(v) { None } else if v & 0x40 != 0 { Some(ErrorType::Parameter) } else if v & 0x800 != 0 { Some(ErrorType::Session) } else { Some(ErrorType::Handle) } }
pub open spec fn nr_of(v: u32) -> u32 { if v & 0x40 != 0 { (v >> 8) & 0xF } else { (v >> 8) & 0x7 } }
pub open spec fn pos_of(v: u32) -> Option<ErrorPosition> { if !fmt1(v) { None } else { nr_pos(nr_of(v)) } }
pub open spec fn decode(v: u32) -> Option<(ErrorType, ErrorPosition)> {
    match (kind_of(v), pos_of(v)) { (Some(k), Some(p)) => Some((k, p)), _ => None } }
pub open spec fn code_for(base: u32, k: ErrorType, p: ErrorPosition) -> u32 { base | kind_bits(k) | (pos_nr(p) << 8) }
pub proof fn masks(v: u32)
    ensures v & 0xF00 == ((v >> 8) & 0xF) << 8, v & 0x700 == ((v >> 8) & 0x7) << 8, (v >> 8) & 0xF <= 15, (v >> 8) & 0x7 <= 7, forall|n: u32| n <= 15 ==> #[trigger] (n << 8) == n * 256
{
    assert(v & 0xF00 == ((v >> 8) & 0xF) << 8 && v & 0x700 == ((v >> 8) & 0x7) << 8 && (v >> 8) & 0xF <= 15 && (v >> 8) & 0x7 <= 7) by (bit_vector);
    assert forall|n: u32| n <= 15 implies #[trigger] (n << 8) == n * 256 by { assert(n <= 15 ==> n << 8 == n * 256) by (bit_vector); }
}
pub proof fn never_zero(base: u32, a: u32, b: u32) ensures base != 0 ==> base | a | b != 0 { assert(base != 0 ==> base | a | b != 0) by (bit_vector); }
/// a code built for a parameter 1-15, or a handle or session 1-7, decodes to exactly that
pub proof fn positions_round_trip(base: u32, k: ErrorType, p: ErrorPosition)
    requires base & 0xF40 == 0, base & 0x80 != 0, k is Parameter || pos_nr(p) <= 7
    ensures decode(code_for(base, k, p)) == Some((k, p)), fmt1(code_for(base, k, p)), code_for(base, k, p) & 0xBF == base & 0xBF
{
    let n = pos_nr(p); let b = kind_bits(k); let v = code_for(base, k, p);
    assert(1 <= n <= 15);
    assert(base & 0xF40 == 0 && base & 0x80 != 0 && n <= 15 && (b == 0x40 || ((b == 0 || b == 0x800) && n <= 7)) ==> {
        let v = base | b | (n << 8);
        &&& v & 0x80 != 0
        &&& (v & 0x40 != 0 <==> b == 0x40)
        &&& (b == 0x40 ==> (v >> 8) & 0xF == n)
        &&& (b != 0x40 ==> (v >> 8) & 0x7 == n && (v & 0x800 != 0 <==> b == 0x800))
        &&& v & 0xBF == base & 0xBF }) by (bit_vector);
}
/// a code tells at most one thing: no code is both a warning and a format 1 error
pub proof fn warning_is_format0(v: u32) ensures v & 0x980 == 0x900 ==> !fmt1(v) && decode(v) is None { assert(v & 0x980 == 0x900 ==> v & 0x80 == 0) by (bit_vector); }

pub proof fn layer(v: u32, l: u32) ensures 1 <= l <= 3 ==> v | (l << 12) != 0 && (v < 0x1000 ==> v | (l << 12) == v + 0x1000 * l) { assert(1 <= l <= 3 ==> v | (l << 12) != 0 && (v < 0x1000 ==> v | (l << 12) == v + 0x1000 * l)) by (bit_vector); }
/// codes of different layers never coincide, and none is a TPM code (layer 0)
pub proof fn layers_are_distinct(a: u32, k: u32, b: u32, l: u32)
    requires a < 0x1000, b < 0x1000, k <= 3, l <= 3, a | (k << 12) == b | (l << 12) ensures a == b && k == l
{ assert(a < 0x1000 && b < 0x1000 && k <= 3 && l <= 3 && a | (k << 12) == b | (l << 12) ==> a == b && k == l) by (bit_vector); }
// ---- the code ---------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=ErrorType
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=ErrorPosition
impl ErrorType {
//@ints crate=tpm2 type=ErrorType
//@fn crate=tpm2 impl=ErrorType name=to_mask
//@ensures r == kind_bits(self)
//@end
//@fn crate=tpm2 impl=ErrorType name=from_mask
//@ensures r == kind_of(val)
//@end
}
impl ErrorPosition {
//@fn crate=tpm2 impl=ErrorPosition name=to_mask
//@ensures r == pos_nr(self) << 8
//@end
//@fn crate=tpm2 impl=ErrorPosition name=from_mask
//@ensures r == pos_of(val)
//@pre proof { masks(val); }
//@end
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=TpmRcError
impl TpmRcError {
//@ints crate=tpm2 type=TpmRcError
//@exconst crate=tpm2 type=TpmRcError name=Asymmetric ## Self::Asymmetric.0@ == 0x81
//@exconst crate=tpm2 type=TpmRcError name=Value ## Self::Value.0@ == 0x84
//@exconst crate=tpm2 type=TpmRcError name=Size ## Self::Size.0@ == 0x95
//@exconst crate=tpm2 type=TpmRcError name=Selector ## Self::Selector.0@ == 0x98
//@exconst crate=tpm2 type=TpmRcError name=BadTag ## Self::BadTag.0@ == 0x1e
//@exconst crate=tpm2 type=TpmRcError name=Initialize ## Self::Initialize.0@ == 0x100
//@exconst crate=tpm2 type=TpmRcError name=Failure ## Self::Failure.0@ == 0x101
//@exconst crate=tpm2 type=TpmRcError name=Sequence ## Self::Sequence.0@ == 0x103
//@exconst crate=tpm2 type=TpmRcError name=CommandSize ## Self::CommandSize.0@ == 0x142
//@exconst crate=tpm2 type=TpmRcError name=CommandCode ## Self::CommandCode.0@ == 0x143
//@exconst crate=tpm2 type=TpmRcError name=ContextGap ## Self::ContextGap.0@ == 0x901
//@exconst crate=tpm2 type=TpmRcError name=ObjectMemory ## Self::ObjectMemory.0@ == 0x902
//@exconst crate=tpm2 type=TpmRcError name=SessionMemory ## Self::SessionMemory.0@ == 0x903
//@exconst crate=tpm2 type=TpmRcError name=Memory ## Self::Memory.0@ == 0x904
//@fn crate=tpm2 impl=TpmRcError name=AsymmetricFor
//@ensures r.0@ == code_for(0x81, on, pos)
//@pre proof { never_zero(0x81, kind_bits(on), pos_nr(pos) << 8); }
//@end
//@fn crate=tpm2 impl=TpmRcError name=ValueFor
//@ensures r.0@ == code_for(0x84, on, pos)
//@pre proof { never_zero(0x84, kind_bits(on), pos_nr(pos) << 8); }
//@end
//@fn crate=tpm2 impl=TpmRcError name=SizeFor
//@ensures r.0@ == code_for(0x95, on, pos)
//@pre proof { never_zero(0x95, kind_bits(on), pos_nr(pos) << 8); }
//@end
//@fn crate=tpm2 impl=TpmRcError name=SelectorFor
//@ensures r.0@ == code_for(0x98, on, pos)
//@pre proof { never_zero(0x98, kind_bits(on), pos_nr(pos) << 8); }
//@end
//@fn crate=tpm2 impl=TpmRcError name=get
//@ensures r == self.0@, r != 0
//@end
//@fn crate=tpm2 impl=TpmRcError name=is_warning
//@ensures r == (self.0@ & 0x980 == 0x900)
//@end
//@fn crate=tpm2 impl=TpmRcError name=format1_parameter
//@ensures r == decode(self.0@)
//@end
//@fn crate=tpm2 impl=TpmRcError name=new
//@requires val != 0
//@ensures r.0@ == val
//@end
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=TssError
//@def crate=tpm2 name=TssErrorCannotBeZero
impl TssError {
//@fn crate=tpm2 impl=TssError name=get
//@ensures r == self.0@, r != 0
//@end
}
impl TryFromSpecImpl<u32> for TssError {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: u32) -> Result<Self, Self::Error> { arbitrary() }
}
impl TryFrom<u32> for TssError {
    type Error = TssErrorCannotBeZero;
//@fn crate=tpm2 impl="TryFrom<u32> for TssError" name=try_from
//@ensures r is Ok <==> val != 0, r is Ok ==> r->Ok_0.0@ == val
//@end
}
impl FromSpecImpl<TpmRcError> for TssError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TpmRcError) -> TssError { TssError(v.0) }
}
impl From<TpmRcError> for TssError {
//@fn crate=tpm2 impl="From<TpmRcError> for TssError" name=from
//@end
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=TssTddlError
impl TssTddlError {
//@exconst crate=tpm2 type=TssTddlError name=GeneralFailure ## Self::GeneralFailure.0@ == 0x1002 ## proof { layer(0x2, 1); }
//@exconst crate=tpm2 type=TssTddlError name=BadParameter ## Self::BadParameter.0@ == 0x1003 ## proof { layer(0x3, 1); }
//@exconst crate=tpm2 type=TssTddlError name=InternalError ## Self::InternalError.0@ == 0x1004 ## proof { layer(0x4, 1); }
//@exconst crate=tpm2 type=TssTddlError name=OutOfMemory ## Self::OutOfMemory.0@ == 0x1005 ## proof { layer(0x5, 1); }
//@exconst crate=tpm2 type=TssTddlError name=NotImplemented ## Self::NotImplemented.0@ == 0x1006 ## proof { layer(0x6, 1); }
//@exconst crate=tpm2 type=TssTddlError name=KeyAlredyRegistered ## Self::KeyAlredyRegistered.0@ == 0x1008 ## proof { layer(0x8, 1); }
//@exconst crate=tpm2 type=TssTddlError name=TpmUnexpected ## Self::TpmUnexpected.0@ == 0x1010 ## proof { layer(0x10, 1); }
//@exconst crate=tpm2 type=TssTddlError name=CommFailure ## Self::CommFailure.0@ == 0x1011 ## proof { layer(0x11, 1); }
//@exconst crate=tpm2 type=TssTddlError name=Timeout ## Self::Timeout.0@ == 0x1012 ## proof { layer(0x12, 1); }
//@exconst crate=tpm2 type=TssTddlError name=Unsupported ## Self::Unsupported.0@ == 0x1014 ## proof { layer(0x14, 1); }
//@exconst crate=tpm2 type=TssTddlError name=Canceled ## Self::Canceled.0@ == 0x1016 ## proof { layer(0x16, 1); }
//@fn crate=tpm2 impl=TssTddlError name=new
//@ensures r.0@ == value | (1u32 << 12)
//@pre proof { layer(value, 1); }
//@end
}
impl FromSpecImpl<TssTddlError> for TssError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TssTddlError) -> TssError { TssError(v.0) }
}
impl From<TssTddlError> for TssError {
//@fn crate=tpm2 impl="From<TssTddlError> for TssError" name=from
//@end
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=TssTcsError
impl TssTcsError {
//@exconst crate=tpm2 type=TssTcsError name=GeneralFailure ## Self::GeneralFailure.0@ == 0x2002 ## proof { layer(0x2, 2); }
//@exconst crate=tpm2 type=TssTcsError name=BadParameter ## Self::BadParameter.0@ == 0x2003 ## proof { layer(0x3, 2); }
//@exconst crate=tpm2 type=TssTcsError name=InternalError ## Self::InternalError.0@ == 0x2004 ## proof { layer(0x4, 2); }
//@exconst crate=tpm2 type=TssTcsError name=OutOfMemory ## Self::OutOfMemory.0@ == 0x2005 ## proof { layer(0x5, 2); }
//@exconst crate=tpm2 type=TssTcsError name=NotImplemented ## Self::NotImplemented.0@ == 0x2006 ## proof { layer(0x6, 2); }
//@exconst crate=tpm2 type=TssTcsError name=KeyAlredyRegistered ## Self::KeyAlredyRegistered.0@ == 0x2008 ## proof { layer(0x8, 2); }
//@exconst crate=tpm2 type=TssTcsError name=TpmUnexpected ## Self::TpmUnexpected.0@ == 0x2010 ## proof { layer(0x10, 2); }
//@exconst crate=tpm2 type=TssTcsError name=CommFailure ## Self::CommFailure.0@ == 0x2011 ## proof { layer(0x11, 2); }
//@exconst crate=tpm2 type=TssTcsError name=Timeout ## Self::Timeout.0@ == 0x2012 ## proof { layer(0x12, 2); }
//@exconst crate=tpm2 type=TssTcsError name=Unsupported ## Self::Unsupported.0@ == 0x2014 ## proof { layer(0x14, 2); }
//@exconst crate=tpm2 type=TssTcsError name=Canceled ## Self::Canceled.0@ == 0x2016 ## proof { layer(0x16, 2); }
//@fn crate=tpm2 impl=TssTcsError name=new
//@ensures r.0@ == value | (2u32 << 12)
//@pre proof { layer(value, 2); }
//@end
}
impl FromSpecImpl<TssTcsError> for TssError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TssTcsError) -> TssError { TssError(v.0) }
}
impl From<TssTcsError> for TssError {
//@fn crate=tpm2 impl="From<TssTcsError> for TssError" name=from
//@end
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=TssTspError
impl TssTspError {
//@exconst crate=tpm2 type=TssTspError name=GeneralFailure ## Self::GeneralFailure.0@ == 0x3002 ## proof { layer(0x2, 3); }
//@exconst crate=tpm2 type=TssTspError name=BadParameter ## Self::BadParameter.0@ == 0x3003 ## proof { layer(0x3, 3); }
//@exconst crate=tpm2 type=TssTspError name=InternalError ## Self::InternalError.0@ == 0x3004 ## proof { layer(0x4, 3); }
//@exconst crate=tpm2 type=TssTspError name=OutOfMemory ## Self::OutOfMemory.0@ == 0x3005 ## proof { layer(0x5, 3); }
//@exconst crate=tpm2 type=TssTspError name=NotImplemented ## Self::NotImplemented.0@ == 0x3006 ## proof { layer(0x6, 3); }
//@exconst crate=tpm2 type=TssTspError name=KeyAlredyRegistered ## Self::KeyAlredyRegistered.0@ == 0x3008 ## proof { layer(0x8, 3); }
//@exconst crate=tpm2 type=TssTspError name=TpmUnexpected ## Self::TpmUnexpected.0@ == 0x3010 ## proof { layer(0x10, 3); }
//@exconst crate=tpm2 type=TssTspError name=CommFailure ## Self::CommFailure.0@ == 0x3011 ## proof { layer(0x11, 3); }
//@exconst crate=tpm2 type=TssTspError name=Timeout ## Self::Timeout.0@ == 0x3012 ## proof { layer(0x12, 3); }
//@exconst crate=tpm2 type=TssTspError name=Unsupported ## Self::Unsupported.0@ == 0x3014 ## proof { layer(0x14, 3); }
//@exconst crate=tpm2 type=TssTspError name=Canceled ## Self::Canceled.0@ == 0x3016 ## proof { layer(0x16, 3); }
//@fn crate=tpm2 impl=TssTspError name=new
//@ensures r.0@ == value | (3u32 << 12)
//@pre proof { layer(value, 3); }
//@end
}
impl FromSpecImpl<TssTspError> for TssError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TssTspError) -> TssError { TssError(v.0) }
}
impl From<TssTspError> for TssError {
//@fn crate=tpm2 impl="From<TssTspError> for TssError" name=from
//@end
}
// ---- how the marshaling errors map to response codes --------------------------------------------
pub mod marsh { use super::*;
#[derive(Clone, Copy)]
//@def crate=marshalable name=Error
}
use marsh::Error;
impl FromSpecImpl<Error> for TpmRcError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: Error) -> TpmRcError { arbitrary() }
}
pub open spec fn err_code(e: Error) -> u32 { match e { Error::ArrayLengthExceeded => 0x95, Error::UnexpectedEndOfBuffer => 0x904, Error::UnknownSelector => 0x98 } }
impl From<Error> for TpmRcError {
//@fn crate=marshalable impl="From<Error> for TpmRcError" name=from
//@ensures r.0@ == err_code(orig)
//@end
}
impl FromSpecImpl<Error> for TssError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: Error) -> TssError { arbitrary() }
}
impl From<Error> for TssError {
//@fn crate=marshalable impl="From<Error> for TssError" name=from
//@ensures r.0@ == err_code(orig)
//@end
}
}
fn main() {}
