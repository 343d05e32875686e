//! The contracts of C09, C10 and C11 once more, on the compiled code: every harness is loop-free and takes all inputs.
//! Second back end (Kani/CBMC) for functions Verus cannot decide because they mix arithmetic and bit operations.
#![cfg(kani)]
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::*;
use tpm2_rs_base::*;

// ---- C10 ------------------------------------------------------------------------------------
fn hmac(v: u32) -> bool { v >= 0x0200_0000 && v <= 0x0200_003F }
fn policy(v: u32) -> bool { v >= 0x0300_0000 && v <= 0x0300_003F }
fn nv(v: u32) -> bool { v >= 0x0100_0000 && v <= 0x01FF_FFFF }

/// the number of a handle, as it goes on the wire (the member is private)
fn num<T: tpm2_rs_marshalable::Marshalable>(h: &T) -> u32 {
    let mut b = [0u8; 4];
    assert!(h.try_marshal(&mut b) == Ok(4), "marshals");
    u32::from_be_bytes(b)
}

#[kani::proof]
fn c10_ranges() {
    let v: u32 = kani::any();
    assert!(TpmHc::is_hmac_session(v) == hmac(v), "is_hmac_session");
    assert!(TpmHc::is_policy_session(v) == policy(v), "is_policy_session");
    assert!(TpmHc::is_nv_index(v) == nv(v), "is_nv_index");
}
#[kani::proof]
fn c10_nv_index() {
    let v: u32 = kani::any();
    match TpmiRhNvIndex::try_from(v) {
        Ok(h) => { assert!(nv(v), "TpmiRhNvIndex accepts"); assert!(num(&h) == v, "TpmiRhNvIndex value"); }
        Err(e) => { assert!(!nv(v), "TpmiRhNvIndex refuses"); assert!(e.get() == 0x84, "TpmiRhNvIndex error"); }
    }
}
#[kani::proof]
fn c10_auth_session() {
    let v: u32 = kani::any();
    let want = hmac(v) || policy(v) || v == 0x4000_0009;
    match TpmiShAuthSession::try_from(v) {
        Ok(h) => { assert!(want, "TpmiShAuthSession accepts"); assert!(num(&h) == v, "TpmiShAuthSession value"); }
        Err(e) => { assert!(!want, "TpmiShAuthSession refuses"); assert!(e.get() == 0x84, "TpmiShAuthSession error"); }
    }
}

// ---- C11 ------------------------------------------------------------------------------------
#[kani::proof]
fn c11_nv() {
    let w: u32 = kani::any();
    let t: u8 = kani::any();
    let mut a = TpmaNv(w);
    assert!(a.get_index_type().0 as u32 == (w >> 4) & 0xF, "get_index_type");
    a.set_type(TpmNt(t));
    assert!(a.0 == (w & !0xF0) | ((t as u32 & 0xF) << 4), "set_type");
    assert!(a.get_index_type().0 == t & 0xF, "read back");
    assert!(TpmaNv::from(TpmNt(t)).0 == (t as u32 & 0xF) << 4, "from");
}
#[cfg(verif_hooks)]
#[kani::proof]
fn c11_cc_index() {
    let w: u32 = kani::any();
    let i: u16 = kani::any();
    let mut a = TpmaCc(w);
    assert!(a.verif_get_command_index() == w as u16, "get_command_index");
    a.verif_set_command_index(i);
    assert!(a.0 == (w & 0xFFFF_0000) | i as u32, "set_command_index");
    assert!(TpmaCc::verif_command_index(i).0 == i as u32, "command_index");
}
#[cfg(verif_hooks)]
#[kani::proof]
fn c11_cc_handles() {
    let w: u32 = kani::any();
    let n: u32 = kani::any();
    let mut a = TpmaCc(w);
    assert!(a.verif_get_c_handles() == (w >> 25) & 7, "get_c_handles");
    a.verif_set_c_handles(n);
    assert!(a.0 == (w & !0x0E00_0000) | ((n & 7) << 25), "set_c_handles");
    assert!(TpmaCc::verif_c_handles(n).0 == (n & 7) << 25, "c_handles");
}
#[cfg(verif_hooks)]
#[kani::proof]
fn c11_locality() {
    let l: u8 = kani::any();
    assert!(TpmaLocality(l).verif_is_extended() == (l >= 32), "is_extended");
}

// ---- C09 ------------------------------------------------------------------------------------
fn kind(n: u8) -> (ErrorType, u32) {
    match n { 0 => (ErrorType::Handle, 0), 1 => (ErrorType::Parameter, 0x40), _ => (ErrorType::Session, 0x800) }
}
fn pos(n: u32) -> Option<ErrorPosition> {
    use ErrorPosition::*;
    Some(match n { 1 => Pos1, 2 => Pos2, 3 => Pos3, 4 => Pos4, 5 => Pos5, 6 => Pos6, 7 => Pos7, 8 => Pos8, 9 => Pos9, 10 => PosA, 11 => PosB, 12 => PosC, 13 => PosD, 14 => PosE, 15 => PosF, _ => return None })
}
fn decode(v: u32) -> Option<(ErrorType, ErrorPosition)> {
    if v & 0x80 == 0 { return None; }
    let (k, n) = if v & 0x40 != 0 { (ErrorType::Parameter, (v >> 8) & 15) } else if v & 0x800 != 0 { (ErrorType::Session, (v >> 8) & 7) } else { (ErrorType::Handle, (v >> 8) & 7) };
    pos(n).map(|p| (k, p))
}
#[kani::proof]
fn c09_built() {
    let (k, kb) = kind(kani::any());
    let n: u32 = kani::any();
    let p = match pos(n) { Some(p) => p, None => return };
    let (e, base) = match kani::any::<u8>() { 0 => (TpmRcError::AsymmetricFor(k, p), 0x81), 1 => (TpmRcError::ValueFor(k, p), 0x84), 2 => (TpmRcError::SizeFor(k, p), 0x95), _ => (TpmRcError::SelectorFor(k, p), 0x98) };
    assert!(e.get() == base | kb | (n << 8), "code");
    assert!(e.format1_parameter() == decode(e.get()), "format1_parameter");
    if kb == 0x40 || n < 8 { assert!(e.format1_parameter() == Some((k, p)), "reads back"); }
    assert!(!e.is_warning(), "warning");
    assert!(TssError::from(e).get() == e.get(), "common error");
}
#[kani::proof]
fn c09_named() {
    let named = [(TpmRcError::Asymmetric, 0x81u32), (TpmRcError::Value, 0x84), (TpmRcError::Size, 0x95), (TpmRcError::Selector, 0x98), (TpmRcError::BadTag, 0x1e), (TpmRcError::Initialize, 0x100),
        (TpmRcError::Failure, 0x101), (TpmRcError::Sequence, 0x103), (TpmRcError::CommandSize, 0x142), (TpmRcError::CommandCode, 0x143), (TpmRcError::ContextGap, 0x901),
        (TpmRcError::ObjectMemory, 0x902), (TpmRcError::SessionMemory, 0x903), (TpmRcError::Memory, 0x904)];
    let i: usize = kani::any();
    if i >= named.len() { return; }
    let (e, v) = named[i];
    assert!(e.get() == v, "code");
    assert!(e.is_warning() == (v & 0x980 == 0x900), "warning");
    assert!(e.format1_parameter().is_none(), "position");
    assert!(TssError::from(e).get() == v, "common error");
}
macro_rules! layer { ($f:ident, $T:ident, $l:expr) => {
    #[kani::proof]
    fn $f() {
        let named = [($T::GeneralFailure, 2u32), ($T::BadParameter, 3), ($T::InternalError, 4), ($T::OutOfMemory, 5), ($T::NotImplemented, 6), ($T::KeyAlredyRegistered, 8), ($T::TpmUnexpected, 0x10),
            ($T::CommFailure, 0x11), ($T::Timeout, 0x12), ($T::Unsupported, 0x14), ($T::Canceled, 0x16)];
        let i: usize = kani::any();
        if i >= named.len() { return; }
        let (e, v) = named[i];
        assert!(TssError::from(e).get() == ($l << 12) | v, "code");
    }
} }
layer!(c09_tddl, TssTddlError, 1);
layer!(c09_tcs, TssTcsError, 2);
layer!(c09_tsp, TssTspError, 3);
#[kani::proof]
fn c09_word() {
    let v: u32 = kani::any();
    match TssError::try_from(v) { Ok(e) => assert!(v != 0 && e.get() == v, "accepted"), Err(_) => assert!(v == 0, "refused") }
}
#[kani::proof]
fn c09_marshal_errors() {
    use tpm2_rs_marshalable::Error;
    let (e, v) = match kani::any::<u8>() { 0 => (Error::ArrayLengthExceeded, 0x95u32), 1 => (Error::UnexpectedEndOfBuffer, 0x904), _ => (Error::UnknownSelector, 0x98) };
    assert!(TpmRcError::from(e).get() == v && TssError::from(e).get() == v, "code");
}
#[cfg(verif_hooks)]
#[kani::proof]
fn c09_any() {
    let v: u32 = kani::any();
    if v == 0 { return; }
    let e = TpmRcError::verif_new(v);
    assert!(e.get() == v, "get");
    assert!(e.is_warning() == (v & 0x980 == 0x900), "is_warning");
    assert!(e.format1_parameter() == decode(v), "format1_parameter");
    assert!(TssError::from(e).get() == v, "common error");
}
