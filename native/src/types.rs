// generated by tools/nativegen.py from spec/wire.py
use crate::refc::{S, F, RefEnc, opaque};
use tpm2_rs_base::{*, constants::*, commands::*};
use tpm2_rs_base::Tpm2bSimple as _;
pub fn s_TpmAlgId() -> S { S::Int(2) }
impl RefEnc for TpmAlgId { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmEccCurve() -> S { S::Int(2) }
impl RefEnc for TpmEccCurve { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmCc() -> S { S::Int(4) }
impl RefEnc for TpmCc { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmSt() -> S { S::Int(2) }
impl RefEnc for TpmSt { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmSu() -> S { S::Int(2) }
impl RefEnc for TpmSu { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmCap() -> S { S::Int(4) }
impl RefEnc for TpmCap { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmPt() -> S { S::Int(4) }
impl RefEnc for TpmPt { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmPtPcr() -> S { S::Int(4) }
impl RefEnc for TpmPtPcr { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmHandle() -> S { S::Int(4) }
impl RefEnc for TpmHandle { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmHc() -> S { S::Int(4) }
impl RefEnc for TpmHc { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), 4); let x: u32 = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }
pub fn s_TpmGenerated() -> S { S::Int(4) }
impl RefEnc for TpmGenerated { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmaLocality() -> S { S::Int(1) }
impl RefEnc for TpmaLocality { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmaNv() -> S { S::Int(4) }
impl RefEnc for TpmaNv { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmaObject() -> S { S::Int(4) }
impl RefEnc for TpmaObject { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmaAlgorithm() -> S { S::Int(4) }
impl RefEnc for TpmaAlgorithm { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmaSession() -> S { S::Int(1) }
impl RefEnc for TpmaSession { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmaCc() -> S { S::Int(4) }
impl RefEnc for TpmaCc { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgHash() -> S { S::Int(2) }
impl RefEnc for TpmiAlgHash { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgKdf() -> S { S::Int(2) }
impl RefEnc for TpmiAlgKdf { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgPublic() -> S { S::Int(2) }
impl RefEnc for TpmiAlgPublic { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgSymMode() -> S { S::Int(2) }
impl RefEnc for TpmiAlgSymMode { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgSymObject() -> S { S::Int(2) }
impl RefEnc for TpmiAlgSymObject { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgKeyedhashScheme() -> S { S::Int(2) }
impl RefEnc for TpmiAlgKeyedhashScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgRsaScheme() -> S { S::Int(2) }
impl RefEnc for TpmiAlgRsaScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgSigScheme() -> S { S::Int(2) }
impl RefEnc for TpmiAlgSigScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgEccScheme() -> S { S::Int(2) }
impl RefEnc for TpmiAlgEccScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAlgAsymScheme() -> S { S::Int(2) }
impl RefEnc for TpmiAlgAsymScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiRhNvIndex() -> S { S::Int(4) }
impl RefEnc for TpmiRhNvIndex { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), 4); let x: u32 = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }
pub fn s_TpmiShAuthSession() -> S { S::Int(4) }
impl RefEnc for TpmiShAuthSession { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), 4); let x: u32 = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }
pub fn s_TpmiEccCurve() -> S { s_TpmEccCurve() }
impl RefEnc for TpmiEccCurve { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), 2); let x: u16 = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }
pub fn s_TpmiYesNo() -> S { S::Int(1) }
impl RefEnc for TpmiYesNo { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiStAttest() -> S { S::Int(2) }
impl RefEnc for TpmiStAttest { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_TpmiAesKeyBits() -> S { S::Int(2) }
impl RefEnc for TpmiAesKeyBits { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), 2); let x: u16 = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }
pub fn s_TpmiSm4KeyBits() -> S { S::Int(2) }
impl RefEnc for TpmiSm4KeyBits { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), 2); let x: u16 = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }
pub fn s_TpmiCamelliaKeyBits() -> S { S::Int(2) }
impl RefEnc for TpmiCamelliaKeyBits { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), 2); let x: u16 = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }
pub fn s_TpmiRsaKeyBits() -> S { S::Int(2) }
impl RefEnc for TpmiRsaKeyBits { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), 2); let x: u16 = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }
pub fn s_TpmiStCommandTag() -> S { S::Int(2) }
impl RefEnc for TpmiStCommandTag { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }
pub fn s_Tpm2bDigest() -> S { S::B2(64) }
impl RefEnc for Tpm2bDigest { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bData() -> S { S::B2(64) }
impl RefEnc for Tpm2bData { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bEvent() -> S { S::B2(1024) }
impl RefEnc for Tpm2bEvent { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bMaxBuffer() -> S { S::B2(1024) }
impl RefEnc for Tpm2bMaxBuffer { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bMaxNvBuffer() -> S { S::B2(2048) }
impl RefEnc for Tpm2bMaxNvBuffer { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bIv() -> S { S::B2(16) }
impl RefEnc for Tpm2bIv { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bName() -> S { S::B2(<Tpm2bName as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bName { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bAttest() -> S { S::B2(<Tpm2bAttest as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bAttest { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bSymKey() -> S { S::B2(32) }
impl RefEnc for Tpm2bSymKey { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bLabel() -> S { S::B2(32) }
impl RefEnc for Tpm2bLabel { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bSensitiveData() -> S { S::B2(256) }
impl RefEnc for Tpm2bSensitiveData { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bSensitiveCreate() -> S { S::B2(<Tpm2bSensitiveCreate as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bSensitiveCreate { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bPublicKeyRsa() -> S { S::B2(512) }
impl RefEnc for Tpm2bPublicKeyRsa { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bPrivateKeyRsa() -> S { S::B2(256) }
impl RefEnc for Tpm2bPrivateKeyRsa { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bEccParameter() -> S { S::B2(128) }
impl RefEnc for Tpm2bEccParameter { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bEncryptedSecret() -> S { S::B2(512) }
impl RefEnc for Tpm2bEncryptedSecret { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bPublic() -> S { S::B2(<Tpm2bPublic as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bPublic { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bTemplate() -> S { S::B2(<Tpm2bTemplate as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bTemplate { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bPrivateVendorSpecific() -> S { S::B2(1280) }
impl RefEnc for Tpm2bPrivateVendorSpecific { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bPrivate() -> S { S::B2(<Tpm2bPrivate as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bPrivate { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bIdObject() -> S { S::B2(<Tpm2bIdObject as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bIdObject { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bContextSensitive() -> S { S::B2(5120) }
impl RefEnc for Tpm2bContextSensitive { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bContextData() -> S { S::B2(<Tpm2bContextData as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bContextData { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_Tpm2bCreationData() -> S { S::B2(<Tpm2bCreationData as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)) }
impl RefEnc for Tpm2bCreationData { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }
pub fn s_TpmsEmpty() -> S { S::Struct(vec![]) }
impl RefEnc for TpmsEmpty { fn renc(&self, o: &mut Vec<u8>) {  } }
pub fn s_TpmsClockInfo() -> S { S::Struct(vec![F::P(S::Int(8)), F::P(S::Int(4)), F::P(S::Int(4)), F::P(s_TpmiYesNo())]) }
impl RefEnc for TpmsClockInfo { fn renc(&self, o: &mut Vec<u8>) { self.clock.renc(o); self.reset_count.renc(o); self.restart_count.renc(o); self.safe.renc(o); } }
pub fn s_TpmsPcrSelection() -> S { S::Struct(vec![F::P(s_TpmiAlgHash()), F::P(S::Int(1)), F::List(1, S::Int(1), 4)]) }
impl RefEnc for TpmsPcrSelection { fn renc(&self, o: &mut Vec<u8>) { self.hash.renc(o); self.sizeof_select.renc(o); for x in (&self.pcr_select[..self.sizeof_select as usize]).iter() { x.renc(o); } } }
pub fn s_TpmlPcrSelection() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmsPcrSelection(), 16)]) }
impl RefEnc for TpmlPcrSelection { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.pcr_selections()).iter() { x.renc(o); } } }
pub fn s_TpmsQuoteInfo() -> S { S::Struct(vec![F::P(s_TpmlPcrSelection()), F::P(s_Tpm2bDigest())]) }
impl RefEnc for TpmsQuoteInfo { fn renc(&self, o: &mut Vec<u8>) { self.pcr_select.renc(o); self.pcr_digest.renc(o); } }
pub fn s_TpmsCreationInfo() -> S { S::Struct(vec![F::P(s_Tpm2bName()), F::P(s_Tpm2bDigest())]) }
impl RefEnc for TpmsCreationInfo { fn renc(&self, o: &mut Vec<u8>) { self.object_name.renc(o); self.creation_hash.renc(o); } }
pub fn s_TpmsCertifyInfo() -> S { S::Struct(vec![F::P(s_Tpm2bName()), F::P(s_Tpm2bName())]) }
impl RefEnc for TpmsCertifyInfo { fn renc(&self, o: &mut Vec<u8>) { self.name.renc(o); self.qualified_name.renc(o); } }
pub fn s_TpmsCommandAuditInfo() -> S { S::Struct(vec![F::P(S::Int(8)), F::P(S::Int(2)), F::P(s_Tpm2bDigest()), F::P(s_Tpm2bDigest())]) }
impl RefEnc for TpmsCommandAuditInfo { fn renc(&self, o: &mut Vec<u8>) { self.audit_counter.renc(o); self.digest_alg.renc(o); self.audit_digest.renc(o); self.command_digest.renc(o); } }
pub fn s_TpmsSessionAuditInfo() -> S { S::Struct(vec![F::P(s_TpmiYesNo()), F::P(s_Tpm2bDigest())]) }
impl RefEnc for TpmsSessionAuditInfo { fn renc(&self, o: &mut Vec<u8>) { self.exclusive_session.renc(o); self.session_digest.renc(o); } }
pub fn s_TpmsTimeInfo() -> S { S::Struct(vec![F::P(S::Int(8)), F::P(s_TpmsClockInfo())]) }
impl RefEnc for TpmsTimeInfo { fn renc(&self, o: &mut Vec<u8>) { self.time.renc(o); self.clock_info.renc(o); } }
pub fn s_TpmsTimeAttestInfo() -> S { S::Struct(vec![F::P(s_TpmsTimeInfo()), F::P(S::Int(8))]) }
impl RefEnc for TpmsTimeAttestInfo { fn renc(&self, o: &mut Vec<u8>) { self.time.renc(o); self.firmware_version.renc(o); } }
pub fn s_TpmsNvCertifyInfo() -> S { S::Struct(vec![F::P(s_Tpm2bName()), F::P(S::Int(2)), F::P(s_Tpm2bMaxNvBuffer())]) }
impl RefEnc for TpmsNvCertifyInfo { fn renc(&self, o: &mut Vec<u8>) { self.index_name.renc(o); self.offset.renc(o); self.nv_contents.renc(o); } }
pub fn s_TpmuAttest() -> S { S::Enum(2, vec![(0x8017, vec![s_TpmsCertifyInfo()]), (0x801a, vec![s_TpmsCreationInfo()]), (0x8018, vec![s_TpmsQuoteInfo()]), (0x8015, vec![s_TpmsCommandAuditInfo()]), (0x8016, vec![s_TpmsSessionAuditInfo()]), (0x8019, vec![s_TpmsTimeAttestInfo()]), (0x8014, vec![s_TpmsNvCertifyInfo()])]) }
pub fn vsel_TpmuAttest(x: &TpmuAttest) -> u16 { match x { TpmuAttest::Certify(..) => 0x8017, TpmuAttest::Creation(..) => 0x801a, TpmuAttest::Quote(..) => 0x8018, TpmuAttest::CommandAudit(..) => 0x8015, TpmuAttest::SessionAudit(..) => 0x8016, TpmuAttest::Time(..) => 0x8019, TpmuAttest::Nv(..) => 0x8014 } }
pub fn venc_TpmuAttest(x: &TpmuAttest, o: &mut Vec<u8>) { match x { TpmuAttest::Certify(f0) => { f0.renc(o); }, TpmuAttest::Creation(f0) => { f0.renc(o); }, TpmuAttest::Quote(f0) => { f0.renc(o); }, TpmuAttest::CommandAudit(f0) => { f0.renc(o); }, TpmuAttest::SessionAudit(f0) => { f0.renc(o); }, TpmuAttest::Time(f0) => { f0.renc(o); }, TpmuAttest::Nv(f0) => { f0.renc(o); } } }
impl RefEnc for TpmuAttest { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmuAttest(self).to_be_bytes()); venc_TpmuAttest(self, o); } }
pub fn s_TpmsAttest() -> S { S::Struct(vec![F::P(s_TpmGenerated()), F::Sel(2), F::P(s_Tpm2bName()), F::P(s_Tpm2bData()), F::P(s_TpmsClockInfo()), F::P(S::Int(8)), F::Var(1, s_TpmuAttest())]) }
impl RefEnc for TpmsAttest { fn renc(&self, o: &mut Vec<u8>) { self.magic.renc(o); o.extend(vsel_TpmuAttest(&self.attested).to_be_bytes()); self.qualified_signer.renc(o); self.extra_data.renc(o); self.clock_info.renc(o); self.firmware_version.renc(o); venc_TpmuAttest(&self.attested, o); } }
pub fn s_TpmsDerive() -> S { S::Struct(vec![F::P(s_Tpm2bLabel()), F::P(s_Tpm2bLabel())]) }
impl RefEnc for TpmsDerive { fn renc(&self, o: &mut Vec<u8>) { self.label.renc(o); self.context.renc(o); } }
pub fn s_TpmsSensitiveCreate() -> S { S::Struct(vec![F::P(s_Tpm2bDigest()), F::P(s_Tpm2bSensitiveData())]) }
impl RefEnc for TpmsSensitiveCreate { fn renc(&self, o: &mut Vec<u8>) { self.user_auth.renc(o); self.data.renc(o); } }
pub fn s_TpmsEccPoint() -> S { S::Struct(vec![F::P(s_Tpm2bEccParameter()), F::P(s_Tpm2bEccParameter())]) }
impl RefEnc for TpmsEccPoint { fn renc(&self, o: &mut Vec<u8>) { self.x.renc(o); self.y.renc(o); } }
pub fn s_TpmsSchemeXor() -> S { S::Struct(vec![F::P(s_TpmiAlgHash()), F::P(s_TpmiAlgKdf())]) }
impl RefEnc for TpmsSchemeXor { fn renc(&self, o: &mut Vec<u8>) { self.hash_alg.renc(o); self.kdf.renc(o); } }
pub fn s_TpmsSchemeHash() -> S { S::Struct(vec![F::P(s_TpmiAlgHash())]) }
impl RefEnc for TpmsSchemeHash { fn renc(&self, o: &mut Vec<u8>) { self.hash_alg.renc(o); } }
pub fn s_TpmtKeyedHashScheme() -> S { S::Enum(2, vec![(0x5, vec![s_TpmsSchemeHash()]), (0xa, vec![s_TpmsSchemeXor()]), (0x10, vec![s_TpmsEmpty()])]) }
pub fn vsel_TpmtKeyedHashScheme(x: &TpmtKeyedHashScheme) -> u16 { match x { TpmtKeyedHashScheme::Hmac(..) => 0x5, TpmtKeyedHashScheme::ExclusiveOr(..) => 0xa, TpmtKeyedHashScheme::Null(..) => 0x10 } }
pub fn venc_TpmtKeyedHashScheme(x: &TpmtKeyedHashScheme, o: &mut Vec<u8>) { match x { TpmtKeyedHashScheme::Hmac(f0) => { f0.renc(o); }, TpmtKeyedHashScheme::ExclusiveOr(f0) => { f0.renc(o); }, TpmtKeyedHashScheme::Null(f0) => { f0.renc(o); } } }
impl RefEnc for TpmtKeyedHashScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtKeyedHashScheme(self).to_be_bytes()); venc_TpmtKeyedHashScheme(self, o); } }
pub fn s_TpmsKeyedHashParms() -> S { S::Struct(vec![F::P(s_TpmtKeyedHashScheme())]) }
impl RefEnc for TpmsKeyedHashParms { fn renc(&self, o: &mut Vec<u8>) { self.scheme.renc(o); } }
pub fn s_TpmtSymDefObject() -> S { S::Enum(2, vec![(0x6, vec![s_TpmiAesKeyBits(), s_TpmiAlgSymMode()]), (0x13, vec![s_TpmiSm4KeyBits(), s_TpmiAlgSymMode()]), (0x26, vec![s_TpmiCamelliaKeyBits(), s_TpmiAlgSymMode()]), (0xa, vec![s_TpmiAlgHash(), s_TpmsEmpty()]), (0x10, vec![s_TpmsEmpty(), s_TpmsEmpty()])]) }
pub fn vsel_TpmtSymDefObject(x: &TpmtSymDefObject) -> u16 { match x { TpmtSymDefObject::Aes(..) => 0x6, TpmtSymDefObject::Sm4(..) => 0x13, TpmtSymDefObject::Camellia(..) => 0x26, TpmtSymDefObject::ExclusiveOr(..) => 0xa, TpmtSymDefObject::Null(..) => 0x10 } }
pub fn venc_TpmtSymDefObject(x: &TpmtSymDefObject, o: &mut Vec<u8>) { match x { TpmtSymDefObject::Aes(f0, f1) => { f0.renc(o); f1.renc(o); }, TpmtSymDefObject::Sm4(f0, f1) => { f0.renc(o); f1.renc(o); }, TpmtSymDefObject::Camellia(f0, f1) => { f0.renc(o); f1.renc(o); }, TpmtSymDefObject::ExclusiveOr(f0, f1) => { f0.renc(o); f1.renc(o); }, TpmtSymDefObject::Null(f0, f1) => { f0.renc(o); f1.renc(o); } } }
impl RefEnc for TpmtSymDefObject { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtSymDefObject(self).to_be_bytes()); venc_TpmtSymDefObject(self, o); } }
pub fn s_TpmsSymCipherParms() -> S { S::Struct(vec![F::P(s_TpmtSymDefObject())]) }
impl RefEnc for TpmsSymCipherParms { fn renc(&self, o: &mut Vec<u8>) { self.sym.renc(o); } }
pub fn s_TpmsSignatureRsa() -> S { S::Struct(vec![F::P(s_TpmiAlgHash()), F::P(s_Tpm2bPublicKeyRsa())]) }
impl RefEnc for TpmsSignatureRsa { fn renc(&self, o: &mut Vec<u8>) { self.hash.renc(o); self.sig.renc(o); } }
pub fn s_TpmsSignatureEcc() -> S { S::Struct(vec![F::P(s_TpmiAlgHash()), F::P(s_Tpm2bEccParameter()), F::P(s_Tpm2bEccParameter())]) }
impl RefEnc for TpmsSignatureEcc { fn renc(&self, o: &mut Vec<u8>) { self.hash.renc(o); self.signature_r.renc(o); self.signature_s.renc(o); } }
pub fn s_TpmsSchemeEcdaa() -> S { S::Struct(vec![F::P(s_TpmiAlgHash()), F::P(S::Int(2))]) }
impl RefEnc for TpmsSchemeEcdaa { fn renc(&self, o: &mut Vec<u8>) { self.hash_alg.renc(o); self.count.renc(o); } }
pub fn s_TpmtRsaScheme() -> S { S::Enum(2, vec![(0x16, vec![s_TpmsSchemeHash()]), (0x14, vec![s_TpmsSchemeHash()]), (0x18, vec![s_TpmsSchemeHash()]), (0x1a, vec![s_TpmsSchemeEcdaa()]), (0x1b, vec![s_TpmsSchemeHash()]), (0x1c, vec![s_TpmsSchemeHash()]), (0x15, vec![s_TpmsEmpty()]), (0x17, vec![s_TpmsSchemeHash()]), (0x10, vec![s_TpmsEmpty()])]) }
pub fn vsel_TpmtRsaScheme(x: &TpmtRsaScheme) -> u16 { match x { TpmtRsaScheme::Rsapss(..) => 0x16, TpmtRsaScheme::Rsassa(..) => 0x14, TpmtRsaScheme::Ecdsa(..) => 0x18, TpmtRsaScheme::Ecdaa(..) => 0x1a, TpmtRsaScheme::Sm2(..) => 0x1b, TpmtRsaScheme::Ecschnorr(..) => 0x1c, TpmtRsaScheme::Rsaes(..) => 0x15, TpmtRsaScheme::Oaep(..) => 0x17, TpmtRsaScheme::Null(..) => 0x10 } }
pub fn venc_TpmtRsaScheme(x: &TpmtRsaScheme, o: &mut Vec<u8>) { match x { TpmtRsaScheme::Rsapss(f0) => { f0.renc(o); }, TpmtRsaScheme::Rsassa(f0) => { f0.renc(o); }, TpmtRsaScheme::Ecdsa(f0) => { f0.renc(o); }, TpmtRsaScheme::Ecdaa(f0) => { f0.renc(o); }, TpmtRsaScheme::Sm2(f0) => { f0.renc(o); }, TpmtRsaScheme::Ecschnorr(f0) => { f0.renc(o); }, TpmtRsaScheme::Rsaes(f0) => { f0.renc(o); }, TpmtRsaScheme::Oaep(f0) => { f0.renc(o); }, TpmtRsaScheme::Null(f0) => { f0.renc(o); } } }
impl RefEnc for TpmtRsaScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtRsaScheme(self).to_be_bytes()); venc_TpmtRsaScheme(self, o); } }
pub fn s_TpmsRsaParms() -> S { S::Struct(vec![F::P(s_TpmtSymDefObject()), F::P(s_TpmtRsaScheme()), F::P(s_TpmiRsaKeyBits()), F::P(S::Int(4))]) }
impl RefEnc for TpmsRsaParms { fn renc(&self, o: &mut Vec<u8>) { self.symmetric.renc(o); self.scheme.renc(o); self.key_bits.renc(o); self.exponent.renc(o); } }
pub fn s_TpmtEccScheme() -> S { S::Enum(2, vec![(0x16, vec![s_TpmsSchemeHash()]), (0x14, vec![s_TpmsSchemeHash()]), (0x18, vec![s_TpmsSchemeHash()]), (0x1a, vec![s_TpmsSchemeEcdaa()]), (0x1b, vec![s_TpmsSchemeHash()]), (0x1c, vec![s_TpmsSchemeHash()]), (0x19, vec![s_TpmsSchemeHash()]), (0x1d, vec![s_TpmsSchemeHash()]), (0x10, vec![s_TpmsEmpty()])]) }
pub fn vsel_TpmtEccScheme(x: &TpmtEccScheme) -> u16 { match x { TpmtEccScheme::Rsapss(..) => 0x16, TpmtEccScheme::Rsassa(..) => 0x14, TpmtEccScheme::Ecdsa(..) => 0x18, TpmtEccScheme::Ecdaa(..) => 0x1a, TpmtEccScheme::Sm2(..) => 0x1b, TpmtEccScheme::Ecschnorr(..) => 0x1c, TpmtEccScheme::Ecdh(..) => 0x19, TpmtEccScheme::Ecmqv(..) => 0x1d, TpmtEccScheme::Null(..) => 0x10 } }
pub fn venc_TpmtEccScheme(x: &TpmtEccScheme, o: &mut Vec<u8>) { match x { TpmtEccScheme::Rsapss(f0) => { f0.renc(o); }, TpmtEccScheme::Rsassa(f0) => { f0.renc(o); }, TpmtEccScheme::Ecdsa(f0) => { f0.renc(o); }, TpmtEccScheme::Ecdaa(f0) => { f0.renc(o); }, TpmtEccScheme::Sm2(f0) => { f0.renc(o); }, TpmtEccScheme::Ecschnorr(f0) => { f0.renc(o); }, TpmtEccScheme::Ecdh(f0) => { f0.renc(o); }, TpmtEccScheme::Ecmqv(f0) => { f0.renc(o); }, TpmtEccScheme::Null(f0) => { f0.renc(o); } } }
impl RefEnc for TpmtEccScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtEccScheme(self).to_be_bytes()); venc_TpmtEccScheme(self, o); } }
pub fn s_TpmtKdfScheme() -> S { S::Enum(2, vec![(0x7, vec![s_TpmsSchemeHash()]), (0x20, vec![s_TpmsSchemeHash()]), (0x21, vec![s_TpmsSchemeHash()]), (0x22, vec![s_TpmsSchemeHash()]), (0x10, vec![s_TpmsEmpty()])]) }
pub fn vsel_TpmtKdfScheme(x: &TpmtKdfScheme) -> u16 { match x { TpmtKdfScheme::Mgf1(..) => 0x7, TpmtKdfScheme::Kdf1Sp800_56a(..) => 0x20, TpmtKdfScheme::Kdf2(..) => 0x21, TpmtKdfScheme::Kdf1Sp800_108(..) => 0x22, TpmtKdfScheme::Null(..) => 0x10 } }
pub fn venc_TpmtKdfScheme(x: &TpmtKdfScheme, o: &mut Vec<u8>) { match x { TpmtKdfScheme::Mgf1(f0) => { f0.renc(o); }, TpmtKdfScheme::Kdf1Sp800_56a(f0) => { f0.renc(o); }, TpmtKdfScheme::Kdf2(f0) => { f0.renc(o); }, TpmtKdfScheme::Kdf1Sp800_108(f0) => { f0.renc(o); }, TpmtKdfScheme::Null(f0) => { f0.renc(o); } } }
impl RefEnc for TpmtKdfScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtKdfScheme(self).to_be_bytes()); venc_TpmtKdfScheme(self, o); } }
pub fn s_TpmsEccParms() -> S { S::Struct(vec![F::P(s_TpmtSymDefObject()), F::P(s_TpmtEccScheme()), F::P(s_TpmiEccCurve()), F::P(s_TpmtKdfScheme())]) }
impl RefEnc for TpmsEccParms { fn renc(&self, o: &mut Vec<u8>) { self.symmetric.renc(o); self.scheme.renc(o); self.curve_id.renc(o); self.kdf.renc(o); } }
pub fn s_TpmtAsymScheme() -> S { S::Enum(2, vec![(0x19, vec![s_TpmsSchemeHash()]), (0x1d, vec![s_TpmsSchemeHash()]), (0x1b, vec![s_TpmsSchemeHash()]), (0x16, vec![s_TpmsSchemeHash()]), (0x14, vec![s_TpmsSchemeHash()]), (0x18, vec![s_TpmsSchemeHash()]), (0x1a, vec![s_TpmsSchemeEcdaa()]), (0x1c, vec![s_TpmsSchemeHash()]), (0x15, vec![s_TpmsEmpty()]), (0x17, vec![s_TpmsSchemeHash()]), (0x10, vec![s_TpmsEmpty()])]) }
pub fn vsel_TpmtAsymScheme(x: &TpmtAsymScheme) -> u16 { match x { TpmtAsymScheme::Ecdh(..) => 0x19, TpmtAsymScheme::Ecmqv(..) => 0x1d, TpmtAsymScheme::Sm2(..) => 0x1b, TpmtAsymScheme::Rsapss(..) => 0x16, TpmtAsymScheme::Rsassa(..) => 0x14, TpmtAsymScheme::Ecdsa(..) => 0x18, TpmtAsymScheme::Ecdaa(..) => 0x1a, TpmtAsymScheme::Ecschnorr(..) => 0x1c, TpmtAsymScheme::Rsaes(..) => 0x15, TpmtAsymScheme::Oaep(..) => 0x17, TpmtAsymScheme::Null(..) => 0x10 } }
pub fn venc_TpmtAsymScheme(x: &TpmtAsymScheme, o: &mut Vec<u8>) { match x { TpmtAsymScheme::Ecdh(f0) => { f0.renc(o); }, TpmtAsymScheme::Ecmqv(f0) => { f0.renc(o); }, TpmtAsymScheme::Sm2(f0) => { f0.renc(o); }, TpmtAsymScheme::Rsapss(f0) => { f0.renc(o); }, TpmtAsymScheme::Rsassa(f0) => { f0.renc(o); }, TpmtAsymScheme::Ecdsa(f0) => { f0.renc(o); }, TpmtAsymScheme::Ecdaa(f0) => { f0.renc(o); }, TpmtAsymScheme::Ecschnorr(f0) => { f0.renc(o); }, TpmtAsymScheme::Rsaes(f0) => { f0.renc(o); }, TpmtAsymScheme::Oaep(f0) => { f0.renc(o); }, TpmtAsymScheme::Null(f0) => { f0.renc(o); } } }
impl RefEnc for TpmtAsymScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtAsymScheme(self).to_be_bytes()); venc_TpmtAsymScheme(self, o); } }
pub fn s_TpmsAsymParms() -> S { S::Struct(vec![F::P(s_TpmtSymDefObject()), F::P(s_TpmtAsymScheme())]) }
impl RefEnc for TpmsAsymParms { fn renc(&self, o: &mut Vec<u8>) { self.symmetric.renc(o); self.scheme.renc(o); } }
pub fn s_PublicParmsAndId() -> S { S::Enum(2, vec![(0x8, vec![s_TpmsKeyedHashParms(), s_Tpm2bDigest()]), (0x25, vec![s_TpmsSymCipherParms(), s_Tpm2bDigest()]), (0x1, vec![s_TpmsRsaParms(), s_Tpm2bPublicKeyRsa()]), (0x23, vec![s_TpmsEccParms(), s_TpmsEccPoint()])]) }
pub fn vsel_PublicParmsAndId(x: &PublicParmsAndId) -> u16 { match x { PublicParmsAndId::KeyedHash(..) => 0x8, PublicParmsAndId::Sym(..) => 0x25, PublicParmsAndId::Rsa(..) => 0x1, PublicParmsAndId::Ecc(..) => 0x23 } }
pub fn venc_PublicParmsAndId(x: &PublicParmsAndId, o: &mut Vec<u8>) { match x { PublicParmsAndId::KeyedHash(f0, f1) => { f0.renc(o); f1.renc(o); }, PublicParmsAndId::Sym(f0, f1) => { f0.renc(o); f1.renc(o); }, PublicParmsAndId::Rsa(f0, f1) => { f0.renc(o); f1.renc(o); }, PublicParmsAndId::Ecc(f0, f1) => { f0.renc(o); f1.renc(o); } } }
impl RefEnc for PublicParmsAndId { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_PublicParmsAndId(self).to_be_bytes()); venc_PublicParmsAndId(self, o); } }
pub fn s_TpmtPublic() -> S { S::Struct(vec![F::Sel(2), F::P(s_TpmiAlgHash()), F::P(s_TpmaObject()), F::P(s_Tpm2bDigest()), F::Var(0, s_PublicParmsAndId())]) }
impl RefEnc for TpmtPublic { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_PublicParmsAndId(&self.parms_and_id).to_be_bytes()); self.name_alg.renc(o); self.object_attributes.renc(o); self.auth_policy.renc(o); venc_PublicParmsAndId(&self.parms_and_id, o); } }
pub fn s_TpmuSensitiveComposite() -> S { S::Enum(2, vec![(0x1, vec![s_Tpm2bPrivateKeyRsa()]), (0x23, vec![s_Tpm2bEccParameter()]), (0x8, vec![s_Tpm2bSensitiveData()]), (0x25, vec![s_Tpm2bSymKey()]), (0x10, vec![s_Tpm2bPrivateVendorSpecific()])]) }
pub fn vsel_TpmuSensitiveComposite(x: &TpmuSensitiveComposite) -> u16 { match x { TpmuSensitiveComposite::Rsa(..) => 0x1, TpmuSensitiveComposite::Ecc(..) => 0x23, TpmuSensitiveComposite::Bits(..) => 0x8, TpmuSensitiveComposite::Sym(..) => 0x25, TpmuSensitiveComposite::Any(..) => 0x10 } }
pub fn venc_TpmuSensitiveComposite(x: &TpmuSensitiveComposite, o: &mut Vec<u8>) { match x { TpmuSensitiveComposite::Rsa(f0) => { f0.renc(o); }, TpmuSensitiveComposite::Ecc(f0) => { f0.renc(o); }, TpmuSensitiveComposite::Bits(f0) => { f0.renc(o); }, TpmuSensitiveComposite::Sym(f0) => { f0.renc(o); }, TpmuSensitiveComposite::Any(f0) => { f0.renc(o); } } }
impl RefEnc for TpmuSensitiveComposite { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmuSensitiveComposite(self).to_be_bytes()); venc_TpmuSensitiveComposite(self, o); } }
pub fn s_TpmtSensitive() -> S { S::Struct(vec![F::Sel(2), F::P(s_Tpm2bDigest()), F::P(s_Tpm2bDigest()), F::Var(0, s_TpmuSensitiveComposite())]) }
impl RefEnc for TpmtSensitive { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmuSensitiveComposite(&self.sensitive).to_be_bytes()); self.auth_value.renc(o); self.seed_value.renc(o); venc_TpmuSensitiveComposite(&self.sensitive, o); } }
pub fn s_TpmsAlgProperty() -> S { S::Struct(vec![F::P(s_TpmAlgId()), F::P(s_TpmaAlgorithm())]) }
impl RefEnc for TpmsAlgProperty { fn renc(&self, o: &mut Vec<u8>) { self.alg.renc(o); self.alg_properties.renc(o); } }
pub fn s_TpmlAlgProperty() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmsAlgProperty(), 127)]) }
impl RefEnc for TpmlAlgProperty { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.alg_properties()).iter() { x.renc(o); } } }
pub fn s_TpmlHandle() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmHandle(), 254)]) }
impl RefEnc for TpmlHandle { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.handle()).iter() { x.renc(o); } } }
pub fn s_TpmlCca() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmaCc(), 254)]) }
impl RefEnc for TpmlCca { fn renc(&self, o: &mut Vec<u8>) { opaque(self, o) } }
pub fn s_TpmlCc() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmCc(), 254)]) }
impl RefEnc for TpmlCc { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.command_codes()).iter() { x.renc(o); } } }
pub fn s_TpmsTaggedProperty() -> S { S::Struct(vec![F::P(s_TpmPt()), F::P(S::Int(4))]) }
impl RefEnc for TpmsTaggedProperty { fn renc(&self, o: &mut Vec<u8>) { self.property.renc(o); self.value.renc(o); } }
pub fn s_TpmlTaggedTpmProperty() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmsTaggedProperty(), 127)]) }
impl RefEnc for TpmlTaggedTpmProperty { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.tpm_property()).iter() { x.renc(o); } } }
pub fn s_TpmsTaggedPcrSelect() -> S { S::Struct(vec![F::P(s_TpmPtPcr()), F::P(S::Int(1)), F::List(1, S::Int(1), 4)]) }
impl RefEnc for TpmsTaggedPcrSelect { fn renc(&self, o: &mut Vec<u8>) { opaque(self, o) } }
pub fn s_TpmlTaggedPcrProperty() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmsTaggedPcrSelect(), (size_of::<TpmlTaggedPcrProperty>() - 4) / size_of::<TpmsTaggedPcrSelect>())]) }
impl RefEnc for TpmlTaggedPcrProperty { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.pcr_property()).iter() { x.renc(o); } } }
pub fn s_TpmlEccCurve() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmEccCurve(), 508)]) }
impl RefEnc for TpmlEccCurve { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.ecc_curves()).iter() { x.renc(o); } } }
pub fn s_TpmtHa() -> S { S::Enum(2, vec![(0x4, vec![S::Bytes(20)]), (0xb, vec![S::Bytes(32)]), (0xc, vec![S::Bytes(48)]), (0xd, vec![S::Bytes(64)]), (0x12, vec![S::Bytes(32)])]) }
pub fn vsel_TpmtHa(x: &TpmtHa) -> u16 { match x { TpmtHa::Sha1(..) => 0x4, TpmtHa::Sha256(..) => 0xb, TpmtHa::Sha384(..) => 0xc, TpmtHa::Sha512(..) => 0xd, TpmtHa::Sm3_256(..) => 0x12 } }
pub fn venc_TpmtHa(x: &TpmtHa, o: &mut Vec<u8>) { match x { TpmtHa::Sha1(f0) => { f0.renc(o); }, TpmtHa::Sha256(f0) => { f0.renc(o); }, TpmtHa::Sha384(f0) => { f0.renc(o); }, TpmtHa::Sha512(f0) => { f0.renc(o); }, TpmtHa::Sm3_256(f0) => { f0.renc(o); } } }
impl RefEnc for TpmtHa { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtHa(self).to_be_bytes()); venc_TpmtHa(self, o); } }
pub fn s_TpmsTaggedPolicy() -> S { S::Struct(vec![F::P(s_TpmHandle()), F::P(s_TpmtHa())]) }
impl RefEnc for TpmsTaggedPolicy { fn renc(&self, o: &mut Vec<u8>) { opaque(self, o) } }
pub fn s_TpmlTaggedPolicy() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_TpmsTaggedPolicy(), (size_of::<TpmlTaggedPolicy>() - 4) / size_of::<TpmsTaggedPolicy>())]) }
impl RefEnc for TpmlTaggedPolicy { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.policies()).iter() { x.renc(o); } } }
pub fn s_TpmlDigest() -> S { S::Struct(vec![F::P(S::Int(4)), F::List(0, s_Tpm2bDigest(), 8)]) }
impl RefEnc for TpmlDigest { fn renc(&self, o: &mut Vec<u8>) { (self.count() as u32).renc(o); for x in (self.digests()).iter() { x.renc(o); } } }
pub fn s_TpmsAuthCommand() -> S { S::Struct(vec![F::P(s_TpmiShAuthSession()), F::P(s_Tpm2bDigest()), F::P(s_TpmaSession()), F::P(s_Tpm2bDigest())]) }
impl RefEnc for TpmsAuthCommand { fn renc(&self, o: &mut Vec<u8>) { self.session_handle.renc(o); self.nonce.renc(o); self.session_attributes.renc(o); self.hmac.renc(o); } }
pub fn s_TpmsAuthResponse() -> S { S::Struct(vec![F::P(s_Tpm2bDigest()), F::P(s_TpmaSession()), F::P(s_Tpm2bData())]) }
impl RefEnc for TpmsAuthResponse { fn renc(&self, o: &mut Vec<u8>) { self.nonce.renc(o); self.session_attributes.renc(o); self.hmac.renc(o); } }
pub fn s_TpmsIdObject() -> S { S::Struct(vec![F::P(s_Tpm2bDigest()), F::P(s_Tpm2bDigest())]) }
impl RefEnc for TpmsIdObject { fn renc(&self, o: &mut Vec<u8>) { self.integrity_hmac.renc(o); self.enc_identity.renc(o); } }
pub fn s_TpmsNvPublic() -> S { S::Struct(vec![F::P(s_TpmiRhNvIndex()), F::P(s_TpmiAlgHash()), F::P(s_TpmaNv()), F::P(s_Tpm2bDigest()), F::P(S::Int(2))]) }
impl RefEnc for TpmsNvPublic { fn renc(&self, o: &mut Vec<u8>) { self.nv_index.renc(o); self.name_alg.renc(o); self.attributes.renc(o); self.auth_policy.renc(o); self.data_size.renc(o); } }
pub fn s_TpmsContextData() -> S { S::Struct(vec![F::P(s_Tpm2bDigest()), F::P(s_Tpm2bContextSensitive())]) }
impl RefEnc for TpmsContextData { fn renc(&self, o: &mut Vec<u8>) { self.integrity.renc(o); self.encrypted.renc(o); } }
pub fn s_TpmsCreationData() -> S { S::Struct(vec![F::P(s_TpmlPcrSelection()), F::P(s_Tpm2bDigest()), F::P(s_TpmaLocality()), F::P(s_TpmAlgId()), F::P(s_Tpm2bName()), F::P(s_Tpm2bName()), F::P(s_Tpm2bData())]) }
impl RefEnc for TpmsCreationData { fn renc(&self, o: &mut Vec<u8>) { self.pcr_select.renc(o); self.pcr_digest.renc(o); self.locality.renc(o); self.parent_name_alg.renc(o); self.parent_name.renc(o); self.parent_qualified_name.renc(o); self.outside_info.renc(o); } }
pub fn s_StartupCmd() -> S { S::Struct(vec![F::P(s_TpmSu())]) }
impl RefEnc for StartupCmd { fn renc(&self, o: &mut Vec<u8>) { self.startup_type.renc(o); } }
pub fn s_GetRandomCmd() -> S { S::Struct(vec![F::P(S::Int(2))]) }
impl RefEnc for GetRandomCmd { fn renc(&self, o: &mut Vec<u8>) { self.bytes_requested.renc(o); } }
pub fn s_GetRandomResp() -> S { S::Struct(vec![F::P(s_Tpm2bDigest())]) }
impl RefEnc for GetRandomResp { fn renc(&self, o: &mut Vec<u8>) { self.random_bytes.renc(o); } }
pub fn s_PcrReadCmd() -> S { S::Struct(vec![F::P(s_TpmlPcrSelection())]) }
impl RefEnc for PcrReadCmd { fn renc(&self, o: &mut Vec<u8>) { opaque(self, o) } }
pub fn s_PcrReadResp() -> S { S::Struct(vec![F::P(S::Int(4)), F::P(s_TpmlPcrSelection()), F::P(s_TpmlDigest())]) }
impl RefEnc for PcrReadResp { fn renc(&self, o: &mut Vec<u8>) { opaque(self, o) } }
pub fn s_GetCapabilityCmd() -> S { S::Struct(vec![F::P(s_TpmCap()), F::P(s_TpmPt()), F::P(S::Int(4))]) }
impl RefEnc for GetCapabilityCmd { fn renc(&self, o: &mut Vec<u8>) { self.capability.renc(o); self.property.renc(o); self.property_count.renc(o); } }
pub fn s_TpmsCapabilityData() -> S { S::Enum(4, vec![(0x0, vec![s_TpmlAlgProperty()]), (0x1, vec![s_TpmlHandle()]), (0x2, vec![s_TpmlCca()]), (0x3, vec![s_TpmlCc()]), (0x4, vec![s_TpmlCc()]), (0x5, vec![s_TpmlPcrSelection()]), (0x6, vec![s_TpmlTaggedTpmProperty()]), (0x7, vec![s_TpmlTaggedPcrProperty()]), (0x8, vec![s_TpmlEccCurve()]), (0x9, vec![s_TpmlTaggedPolicy()])]) }
pub fn vsel_TpmsCapabilityData(x: &TpmsCapabilityData) -> u32 { match x { TpmsCapabilityData::Algorithms(..) => 0x0, TpmsCapabilityData::Handles(..) => 0x1, TpmsCapabilityData::Command(..) => 0x2, TpmsCapabilityData::PpCommands(..) => 0x3, TpmsCapabilityData::AuditCommands(..) => 0x4, TpmsCapabilityData::AssignedPcr(..) => 0x5, TpmsCapabilityData::TpmProperties(..) => 0x6, TpmsCapabilityData::PcrProperties(..) => 0x7, TpmsCapabilityData::EccCurves(..) => 0x8, TpmsCapabilityData::AuthPolicies(..) => 0x9 } }
pub fn venc_TpmsCapabilityData(x: &TpmsCapabilityData, o: &mut Vec<u8>) { match x { TpmsCapabilityData::Algorithms(f0) => { f0.renc(o); }, TpmsCapabilityData::Handles(f0) => { f0.renc(o); }, TpmsCapabilityData::Command(f0) => { f0.renc(o); }, TpmsCapabilityData::PpCommands(f0) => { f0.renc(o); }, TpmsCapabilityData::AuditCommands(f0) => { f0.renc(o); }, TpmsCapabilityData::AssignedPcr(f0) => { f0.renc(o); }, TpmsCapabilityData::TpmProperties(f0) => { f0.renc(o); }, TpmsCapabilityData::PcrProperties(f0) => { f0.renc(o); }, TpmsCapabilityData::EccCurves(f0) => { f0.renc(o); }, TpmsCapabilityData::AuthPolicies(f0) => { f0.renc(o); } } }
impl RefEnc for TpmsCapabilityData { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmsCapabilityData(self).to_be_bytes()); venc_TpmsCapabilityData(self, o); } }
pub fn s_GetCapabilityResp() -> S { S::Struct(vec![F::P(s_TpmiYesNo()), F::P(s_TpmsCapabilityData())]) }
impl RefEnc for GetCapabilityResp { fn renc(&self, o: &mut Vec<u8>) { self.more_data.renc(o); self.capability_data.renc(o); } }
pub fn s_TpmtSignature() -> S { S::Enum(2, vec![(0x14, vec![s_TpmsSignatureRsa()]), (0x16, vec![s_TpmsSignatureRsa()]), (0x18, vec![s_TpmsSignatureEcc()]), (0x1a, vec![s_TpmsSignatureEcc()]), (0x1b, vec![s_TpmsSignatureEcc()]), (0x1c, vec![s_TpmsSignatureEcc()]), (0x5, vec![s_TpmtHa()]), (0x10, vec![s_TpmsEmpty()])]) }
pub fn vsel_TpmtSignature(x: &TpmtSignature) -> u16 { match x { TpmtSignature::Rsassa(..) => 0x14, TpmtSignature::Rsapss(..) => 0x16, TpmtSignature::Ecdsa(..) => 0x18, TpmtSignature::Ecdaa(..) => 0x1a, TpmtSignature::Sm2(..) => 0x1b, TpmtSignature::Ecschnorr(..) => 0x1c, TpmtSignature::Hmac(..) => 0x5, TpmtSignature::Null(..) => 0x10 } }
pub fn venc_TpmtSignature(x: &TpmtSignature, o: &mut Vec<u8>) { match x { TpmtSignature::Rsassa(f0) => { f0.renc(o); }, TpmtSignature::Rsapss(f0) => { f0.renc(o); }, TpmtSignature::Ecdsa(f0) => { f0.renc(o); }, TpmtSignature::Ecdaa(f0) => { f0.renc(o); }, TpmtSignature::Sm2(f0) => { f0.renc(o); }, TpmtSignature::Ecschnorr(f0) => { f0.renc(o); }, TpmtSignature::Hmac(f0) => { f0.renc(o); }, TpmtSignature::Null(f0) => { f0.renc(o); } } }
impl RefEnc for TpmtSignature { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtSignature(self).to_be_bytes()); venc_TpmtSignature(self, o); } }
pub fn s_TpmtSigScheme() -> S { S::Enum(2, vec![(0x14, vec![s_TpmsSchemeHash()]), (0x16, vec![s_TpmsSchemeHash()]), (0x18, vec![s_TpmsSchemeHash()]), (0x1a, vec![s_TpmsSchemeEcdaa()]), (0x1b, vec![s_TpmsSchemeHash()]), (0x1c, vec![s_TpmsSchemeHash()]), (0x5, vec![s_TpmsSchemeHash()]), (0x10, vec![s_TpmsEmpty()])]) }
pub fn vsel_TpmtSigScheme(x: &TpmtSigScheme) -> u16 { match x { TpmtSigScheme::Rsassa(..) => 0x14, TpmtSigScheme::Rsapss(..) => 0x16, TpmtSigScheme::Ecdsa(..) => 0x18, TpmtSigScheme::Ecdaa(..) => 0x1a, TpmtSigScheme::Sm2(..) => 0x1b, TpmtSigScheme::Ecschnorr(..) => 0x1c, TpmtSigScheme::Hmac(..) => 0x5, TpmtSigScheme::Null(..) => 0x10 } }
pub fn venc_TpmtSigScheme(x: &TpmtSigScheme, o: &mut Vec<u8>) { match x { TpmtSigScheme::Rsassa(f0) => { f0.renc(o); }, TpmtSigScheme::Rsapss(f0) => { f0.renc(o); }, TpmtSigScheme::Ecdsa(f0) => { f0.renc(o); }, TpmtSigScheme::Ecdaa(f0) => { f0.renc(o); }, TpmtSigScheme::Sm2(f0) => { f0.renc(o); }, TpmtSigScheme::Ecschnorr(f0) => { f0.renc(o); }, TpmtSigScheme::Hmac(f0) => { f0.renc(o); }, TpmtSigScheme::Null(f0) => { f0.renc(o); } } }
impl RefEnc for TpmtSigScheme { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_TpmtSigScheme(self).to_be_bytes()); venc_TpmtSigScheme(self, o); } }
pub fn drive_all(d: &mut crate::codec::Driver) {
    d.codec::<u8>("C01", "u8", S::Int(1));
    d.codec::<u16>("C01", "u16", S::Int(2));
    d.codec::<u32>("C01", "u32", S::Int(4));
    d.codec::<u64>("C01", "u64", S::Int(8));
    d.codec::<i8>("C01", "i8", S::Int(1));
    d.codec::<i16>("C01", "i16", S::Int(2));
    d.codec::<i32>("C01", "i32", S::Int(4));
    d.codec::<i64>("C01", "i64", S::Int(8));
    d.codec::<()>("C01", "()", S::Struct(vec![]));
    d.codec::<[u8; 0]>("C01", "[u8; 0]", S::Bytes(0));
    d.codec::<[u8; 1]>("C01", "[u8; 1]", S::Bytes(1));
    d.codec::<[u8; 2]>("C01", "[u8; 2]", S::Bytes(2));
    d.codec::<[u8; 3]>("C01", "[u8; 3]", S::Bytes(3));
    d.codec::<[u8; 20]>("C01", "[u8; 20]", S::Bytes(20));
    d.codec::<[u8; 32]>("C01", "[u8; 32]", S::Bytes(32));
    d.codec::<[u8; 48]>("C01", "[u8; 48]", S::Bytes(48));
    d.codec::<[u8; 64]>("C01", "[u8; 64]", S::Bytes(64));
    d.codec::<[u8; 255]>("C01", "[u8; 255]", S::Bytes(255));
    d.codec::<[u8; 256]>("C01", "[u8; 256]", S::Bytes(256));
    d.codec::<[u8; 300]>("C01", "[u8; 300]", S::Bytes(300));
    d.codec::<TpmAlgId>("C03", "TpmAlgId", s_TpmAlgId());
    d.codec::<TpmEccCurve>("C03", "TpmEccCurve", s_TpmEccCurve());
    d.codec::<TpmCc>("C03", "TpmCc", s_TpmCc());
    d.codec::<TpmSt>("C03", "TpmSt", s_TpmSt());
    d.codec::<TpmSu>("C03", "TpmSu", s_TpmSu());
    d.codec::<TpmCap>("C03", "TpmCap", s_TpmCap());
    d.codec::<TpmPt>("C03", "TpmPt", s_TpmPt());
    d.codec::<TpmPtPcr>("C03", "TpmPtPcr", s_TpmPtPcr());
    d.codec::<TpmHandle>("C03", "TpmHandle", s_TpmHandle());
    d.codec::<TpmHc>("C03", "TpmHc", s_TpmHc());
    d.codec::<TpmGenerated>("C03", "TpmGenerated", s_TpmGenerated());
    d.codec::<TpmaLocality>("C03", "TpmaLocality", s_TpmaLocality());
    d.codec::<TpmaNv>("C03", "TpmaNv", s_TpmaNv());
    d.codec::<TpmaObject>("C03", "TpmaObject", s_TpmaObject());
    d.codec::<TpmaAlgorithm>("C03", "TpmaAlgorithm", s_TpmaAlgorithm());
    d.codec::<TpmaSession>("C03", "TpmaSession", s_TpmaSession());
    d.codec::<TpmaCc>("C03", "TpmaCc", s_TpmaCc());
    d.codec::<TpmiAlgHash>("C03", "TpmiAlgHash", s_TpmiAlgHash());
    d.codec::<TpmiAlgKdf>("C03", "TpmiAlgKdf", s_TpmiAlgKdf());
    d.codec::<TpmiAlgPublic>("C03", "TpmiAlgPublic", s_TpmiAlgPublic());
    d.codec::<TpmiAlgSymMode>("C03", "TpmiAlgSymMode", s_TpmiAlgSymMode());
    d.codec::<TpmiAlgSymObject>("C03", "TpmiAlgSymObject", s_TpmiAlgSymObject());
    d.codec::<TpmiAlgKeyedhashScheme>("C03", "TpmiAlgKeyedhashScheme", s_TpmiAlgKeyedhashScheme());
    d.codec::<TpmiAlgRsaScheme>("C03", "TpmiAlgRsaScheme", s_TpmiAlgRsaScheme());
    d.codec::<TpmiAlgSigScheme>("C03", "TpmiAlgSigScheme", s_TpmiAlgSigScheme());
    d.codec::<TpmiAlgEccScheme>("C03", "TpmiAlgEccScheme", s_TpmiAlgEccScheme());
    d.codec::<TpmiAlgAsymScheme>("C03", "TpmiAlgAsymScheme", s_TpmiAlgAsymScheme());
    d.codec::<TpmiRhNvIndex>("C03", "TpmiRhNvIndex", s_TpmiRhNvIndex());
    d.codec::<TpmiShAuthSession>("C03", "TpmiShAuthSession", s_TpmiShAuthSession());
    d.codec::<TpmiEccCurve>("C03", "TpmiEccCurve", s_TpmiEccCurve());
    d.codec::<TpmiYesNo>("C03", "TpmiYesNo", s_TpmiYesNo());
    d.codec::<TpmiStAttest>("C03", "TpmiStAttest", s_TpmiStAttest());
    d.codec::<TpmiAesKeyBits>("C03", "TpmiAesKeyBits", s_TpmiAesKeyBits());
    d.codec::<TpmiSm4KeyBits>("C03", "TpmiSm4KeyBits", s_TpmiSm4KeyBits());
    d.codec::<TpmiCamelliaKeyBits>("C03", "TpmiCamelliaKeyBits", s_TpmiCamelliaKeyBits());
    d.codec::<TpmiRsaKeyBits>("C03", "TpmiRsaKeyBits", s_TpmiRsaKeyBits());
    d.codec::<TpmiStCommandTag>("C03", "TpmiStCommandTag", s_TpmiStCommandTag());
    d.codec::<Tpm2bDigest>("C02", "Tpm2bDigest", s_Tpm2bDigest());
    d.tpm2b::<Tpm2bDigest>("Tpm2bDigest", 64);
    d.codec::<Tpm2bData>("C02", "Tpm2bData", s_Tpm2bData());
    d.tpm2b::<Tpm2bData>("Tpm2bData", 64);
    d.codec::<Tpm2bEvent>("C02", "Tpm2bEvent", s_Tpm2bEvent());
    d.tpm2b::<Tpm2bEvent>("Tpm2bEvent", 1024);
    d.codec::<Tpm2bMaxBuffer>("C02", "Tpm2bMaxBuffer", s_Tpm2bMaxBuffer());
    d.tpm2b::<Tpm2bMaxBuffer>("Tpm2bMaxBuffer", 1024);
    d.codec::<Tpm2bMaxNvBuffer>("C02", "Tpm2bMaxNvBuffer", s_Tpm2bMaxNvBuffer());
    d.tpm2b::<Tpm2bMaxNvBuffer>("Tpm2bMaxNvBuffer", 2048);
    d.codec::<Tpm2bIv>("C02", "Tpm2bIv", s_Tpm2bIv());
    d.tpm2b::<Tpm2bIv>("Tpm2bIv", 16);
    d.codec::<Tpm2bName>("C02", "Tpm2bName", s_Tpm2bName());
    d.tpm2b::<Tpm2bName>("Tpm2bName", <Tpm2bName as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<Tpm2bName, TpmtHa>("Tpm2bName", "TpmtHa", s_TpmtHa());
    d.codec::<Tpm2bAttest>("C02", "Tpm2bAttest", s_Tpm2bAttest());
    d.tpm2b::<Tpm2bAttest>("Tpm2bAttest", <Tpm2bAttest as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<Tpm2bAttest, TpmsAttest>("Tpm2bAttest", "TpmsAttest", s_TpmsAttest());
    d.codec::<Tpm2bSymKey>("C02", "Tpm2bSymKey", s_Tpm2bSymKey());
    d.tpm2b::<Tpm2bSymKey>("Tpm2bSymKey", 32);
    d.codec::<Tpm2bLabel>("C02", "Tpm2bLabel", s_Tpm2bLabel());
    d.tpm2b::<Tpm2bLabel>("Tpm2bLabel", 32);
    d.codec::<Tpm2bSensitiveData>("C02", "Tpm2bSensitiveData", s_Tpm2bSensitiveData());
    d.tpm2b::<Tpm2bSensitiveData>("Tpm2bSensitiveData", 256);
    d.codec::<Tpm2bSensitiveCreate>("C02", "Tpm2bSensitiveCreate", s_Tpm2bSensitiveCreate());
    d.tpm2b::<Tpm2bSensitiveCreate>("Tpm2bSensitiveCreate", <Tpm2bSensitiveCreate as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<Tpm2bSensitiveCreate, TpmsSensitiveCreate>("Tpm2bSensitiveCreate", "TpmsSensitiveCreate", s_TpmsSensitiveCreate());
    d.tpm2bstruct::<Tpm2bSensitiveCreate>("Tpm2bSensitiveCreate", s_TpmsSensitiveCreate());
    d.codec::<Tpm2bPublicKeyRsa>("C02", "Tpm2bPublicKeyRsa", s_Tpm2bPublicKeyRsa());
    d.tpm2b::<Tpm2bPublicKeyRsa>("Tpm2bPublicKeyRsa", 512);
    d.codec::<Tpm2bPrivateKeyRsa>("C02", "Tpm2bPrivateKeyRsa", s_Tpm2bPrivateKeyRsa());
    d.tpm2b::<Tpm2bPrivateKeyRsa>("Tpm2bPrivateKeyRsa", 256);
    d.codec::<Tpm2bEccParameter>("C02", "Tpm2bEccParameter", s_Tpm2bEccParameter());
    d.tpm2b::<Tpm2bEccParameter>("Tpm2bEccParameter", 128);
    d.codec::<Tpm2bEncryptedSecret>("C02", "Tpm2bEncryptedSecret", s_Tpm2bEncryptedSecret());
    d.tpm2b::<Tpm2bEncryptedSecret>("Tpm2bEncryptedSecret", 512);
    d.codec::<Tpm2bPublic>("C02", "Tpm2bPublic", s_Tpm2bPublic());
    d.tpm2b::<Tpm2bPublic>("Tpm2bPublic", <Tpm2bPublic as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<Tpm2bPublic, TpmtPublic>("Tpm2bPublic", "TpmtPublic", s_TpmtPublic());
    d.tpm2bstruct::<Tpm2bPublic>("Tpm2bPublic", s_TpmtPublic());
    d.codec::<Tpm2bTemplate>("C02", "Tpm2bTemplate", s_Tpm2bTemplate());
    d.tpm2b::<Tpm2bTemplate>("Tpm2bTemplate", <Tpm2bTemplate as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<Tpm2bTemplate, TpmtPublic>("Tpm2bTemplate", "TpmtPublic", s_TpmtPublic());
    d.codec::<Tpm2bPrivateVendorSpecific>("C02", "Tpm2bPrivateVendorSpecific", s_Tpm2bPrivateVendorSpecific());
    d.tpm2b::<Tpm2bPrivateVendorSpecific>("Tpm2bPrivateVendorSpecific", 1280);
    d.codec::<Tpm2bPrivate>("C02", "Tpm2bPrivate", s_Tpm2bPrivate());
    d.tpm2b::<Tpm2bPrivate>("Tpm2bPrivate", <Tpm2bPrivate as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.codec::<Tpm2bIdObject>("C02", "Tpm2bIdObject", s_Tpm2bIdObject());
    d.tpm2b::<Tpm2bIdObject>("Tpm2bIdObject", <Tpm2bIdObject as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<Tpm2bIdObject, TpmsIdObject>("Tpm2bIdObject", "TpmsIdObject", s_TpmsIdObject());
    d.codec::<Tpm2bContextSensitive>("C02", "Tpm2bContextSensitive", s_Tpm2bContextSensitive());
    d.tpm2b::<Tpm2bContextSensitive>("Tpm2bContextSensitive", 5120);
    d.codec::<Tpm2bContextData>("C02", "Tpm2bContextData", s_Tpm2bContextData());
    d.tpm2b::<Tpm2bContextData>("Tpm2bContextData", <Tpm2bContextData as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<Tpm2bContextData, TpmsContextData>("Tpm2bContextData", "TpmsContextData", s_TpmsContextData());
    d.codec::<Tpm2bCreationData>("C02", "Tpm2bCreationData", s_Tpm2bCreationData());
    d.tpm2b::<Tpm2bCreationData>("Tpm2bCreationData", <Tpm2bCreationData as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535));
    d.holds::<Tpm2bCreationData, TpmsCreationData>("Tpm2bCreationData", "TpmsCreationData", s_TpmsCreationData());
    d.tpm2bstruct::<Tpm2bCreationData>("Tpm2bCreationData", s_TpmsCreationData());
    d.codec::<TpmsEmpty>("C03", "TpmsEmpty", s_TpmsEmpty());
    d.codec::<TpmsClockInfo>("C03", "TpmsClockInfo", s_TpmsClockInfo());
    d.codec::<TpmsPcrSelection>("C05", "TpmsPcrSelection", s_TpmsPcrSelection());
    d.codec::<TpmlPcrSelection>("C05", "TpmlPcrSelection", s_TpmlPcrSelection());
    d.tpml::<TpmlPcrSelection, TpmsPcrSelection>("TpmlPcrSelection", s_TpmsPcrSelection(), 16, |e| TpmlPcrSelection::new(e), |l, e| l.add(e), |l| l.count(), |l| l.pcr_selections().to_vec());
    d.codec::<TpmsQuoteInfo>("C03", "TpmsQuoteInfo", s_TpmsQuoteInfo());
    d.codec::<TpmsCreationInfo>("C03", "TpmsCreationInfo", s_TpmsCreationInfo());
    d.codec::<TpmsCertifyInfo>("C03", "TpmsCertifyInfo", s_TpmsCertifyInfo());
    d.codec::<TpmsCommandAuditInfo>("C03", "TpmsCommandAuditInfo", s_TpmsCommandAuditInfo());
    d.codec::<TpmsSessionAuditInfo>("C03", "TpmsSessionAuditInfo", s_TpmsSessionAuditInfo());
    d.codec::<TpmsTimeInfo>("C03", "TpmsTimeInfo", s_TpmsTimeInfo());
    d.codec::<TpmsTimeAttestInfo>("C03", "TpmsTimeAttestInfo", s_TpmsTimeAttestInfo());
    d.codec::<TpmsNvCertifyInfo>("C03", "TpmsNvCertifyInfo", s_TpmsNvCertifyInfo());
    d.codec::<TpmuAttest>("C04", "TpmuAttest", s_TpmuAttest());
    d.codec::<TpmsAttest>("C04", "TpmsAttest", s_TpmsAttest());
    d.codec::<TpmsDerive>("C03", "TpmsDerive", s_TpmsDerive());
    d.codec::<TpmsSensitiveCreate>("C03", "TpmsSensitiveCreate", s_TpmsSensitiveCreate());
    d.codec::<TpmsEccPoint>("C03", "TpmsEccPoint", s_TpmsEccPoint());
    d.codec::<TpmsSchemeXor>("C03", "TpmsSchemeXor", s_TpmsSchemeXor());
    d.codec::<TpmsSchemeHash>("C03", "TpmsSchemeHash", s_TpmsSchemeHash());
    d.codec::<TpmtKeyedHashScheme>("C04", "TpmtKeyedHashScheme", s_TpmtKeyedHashScheme());
    d.codec::<TpmsKeyedHashParms>("C03", "TpmsKeyedHashParms", s_TpmsKeyedHashParms());
    d.codec::<TpmtSymDefObject>("C04", "TpmtSymDefObject", s_TpmtSymDefObject());
    d.codec::<TpmsSymCipherParms>("C03", "TpmsSymCipherParms", s_TpmsSymCipherParms());
    d.codec::<TpmsSignatureRsa>("C03", "TpmsSignatureRsa", s_TpmsSignatureRsa());
    d.codec::<TpmsSignatureEcc>("C03", "TpmsSignatureEcc", s_TpmsSignatureEcc());
    d.codec::<TpmsSchemeEcdaa>("C03", "TpmsSchemeEcdaa", s_TpmsSchemeEcdaa());
    d.codec::<TpmtRsaScheme>("C04", "TpmtRsaScheme", s_TpmtRsaScheme());
    d.codec::<TpmsRsaParms>("C03", "TpmsRsaParms", s_TpmsRsaParms());
    d.codec::<TpmtEccScheme>("C04", "TpmtEccScheme", s_TpmtEccScheme());
    d.codec::<TpmtKdfScheme>("C04", "TpmtKdfScheme", s_TpmtKdfScheme());
    d.codec::<TpmsEccParms>("C03", "TpmsEccParms", s_TpmsEccParms());
    d.codec::<TpmtAsymScheme>("C04", "TpmtAsymScheme", s_TpmtAsymScheme());
    d.codec::<TpmsAsymParms>("C03", "TpmsAsymParms", s_TpmsAsymParms());
    d.codec::<PublicParmsAndId>("C04", "PublicParmsAndId", s_PublicParmsAndId());
    d.codec::<TpmtPublic>("C04", "TpmtPublic", s_TpmtPublic());
    d.codec::<TpmuSensitiveComposite>("C04", "TpmuSensitiveComposite", s_TpmuSensitiveComposite());
    d.codec::<TpmtSensitive>("C04", "TpmtSensitive", s_TpmtSensitive());
    d.codec::<TpmsAlgProperty>("C03", "TpmsAlgProperty", s_TpmsAlgProperty());
    d.codec::<TpmlAlgProperty>("C05", "TpmlAlgProperty", s_TpmlAlgProperty());
    d.tpml::<TpmlAlgProperty, TpmsAlgProperty>("TpmlAlgProperty", s_TpmsAlgProperty(), 127, |e| TpmlAlgProperty::new(e), |l, e| l.add(e), |l| l.count(), |l| l.alg_properties().to_vec());
    d.codec::<TpmlHandle>("C05", "TpmlHandle", s_TpmlHandle());
    d.tpml::<TpmlHandle, TpmHandle>("TpmlHandle", s_TpmHandle(), 254, |e| TpmlHandle::new(e), |l, e| l.add(e), |l| l.count(), |l| l.handle().to_vec());
    d.codec::<TpmlCca>("C05", "TpmlCca", s_TpmlCca());
    d.codec::<TpmlCc>("C05", "TpmlCc", s_TpmlCc());
    d.tpml::<TpmlCc, TpmCc>("TpmlCc", s_TpmCc(), 254, |e| TpmlCc::new(e), |l, e| l.add(e), |l| l.count(), |l| l.command_codes().to_vec());
    d.codec::<TpmsTaggedProperty>("C03", "TpmsTaggedProperty", s_TpmsTaggedProperty());
    d.codec::<TpmlTaggedTpmProperty>("C05", "TpmlTaggedTpmProperty", s_TpmlTaggedTpmProperty());
    d.tpml::<TpmlTaggedTpmProperty, TpmsTaggedProperty>("TpmlTaggedTpmProperty", s_TpmsTaggedProperty(), 127, |e| TpmlTaggedTpmProperty::new(e), |l, e| l.add(e), |l| l.count(), |l| l.tpm_property().to_vec());
    d.codec::<TpmsTaggedPcrSelect>("C05", "TpmsTaggedPcrSelect", s_TpmsTaggedPcrSelect());
    d.codec::<TpmlTaggedPcrProperty>("C05", "TpmlTaggedPcrProperty", s_TpmlTaggedPcrProperty());
    d.tpml::<TpmlTaggedPcrProperty, TpmsTaggedPcrSelect>("TpmlTaggedPcrProperty", s_TpmsTaggedPcrSelect(), (size_of::<TpmlTaggedPcrProperty>() - 4) / size_of::<TpmsTaggedPcrSelect>(), |e| TpmlTaggedPcrProperty::new(e), |l, e| l.add(e), |l| l.count(), |l| l.pcr_property().to_vec());
    d.codec::<TpmlEccCurve>("C05", "TpmlEccCurve", s_TpmlEccCurve());
    d.tpml::<TpmlEccCurve, TpmEccCurve>("TpmlEccCurve", s_TpmEccCurve(), 508, |e| TpmlEccCurve::new(e), |l, e| l.add(e), |l| l.count(), |l| l.ecc_curves().to_vec());
    d.codec::<TpmtHa>("C04", "TpmtHa", s_TpmtHa());
    d.codec::<TpmsTaggedPolicy>("C03", "TpmsTaggedPolicy", s_TpmsTaggedPolicy());
    d.codec::<TpmlTaggedPolicy>("C05", "TpmlTaggedPolicy", s_TpmlTaggedPolicy());
    d.tpml::<TpmlTaggedPolicy, TpmsTaggedPolicy>("TpmlTaggedPolicy", s_TpmsTaggedPolicy(), (size_of::<TpmlTaggedPolicy>() - 4) / size_of::<TpmsTaggedPolicy>(), |e| TpmlTaggedPolicy::new(e), |l, e| l.add(e), |l| l.count(), |l| l.policies().to_vec());
    d.codec::<TpmlDigest>("C05", "TpmlDigest", s_TpmlDigest());
    d.tpml::<TpmlDigest, Tpm2bDigest>("TpmlDigest", s_Tpm2bDigest(), 8, |e| TpmlDigest::new(e), |l, e| l.add(e), |l| l.count(), |l| l.digests().to_vec());
    d.codec::<TpmsAuthCommand>("C03", "TpmsAuthCommand", s_TpmsAuthCommand());
    d.codec::<TpmsAuthResponse>("C03", "TpmsAuthResponse", s_TpmsAuthResponse());
    d.codec::<TpmsIdObject>("C03", "TpmsIdObject", s_TpmsIdObject());
    d.codec::<TpmsNvPublic>("C03", "TpmsNvPublic", s_TpmsNvPublic());
    d.codec::<TpmsContextData>("C03", "TpmsContextData", s_TpmsContextData());
    d.codec::<TpmsCreationData>("C03", "TpmsCreationData", s_TpmsCreationData());
    d.codec::<StartupCmd>("C03", "StartupCmd", s_StartupCmd());
    d.codec::<GetRandomCmd>("C03", "GetRandomCmd", s_GetRandomCmd());
    d.codec::<GetRandomResp>("C03", "GetRandomResp", s_GetRandomResp());
    d.codec::<PcrReadCmd>("C03", "PcrReadCmd", s_PcrReadCmd());
    d.codec::<PcrReadResp>("C03", "PcrReadResp", s_PcrReadResp());
    d.codec::<GetCapabilityCmd>("C03", "GetCapabilityCmd", s_GetCapabilityCmd());
    d.codec::<TpmsCapabilityData>("C04", "TpmsCapabilityData", s_TpmsCapabilityData());
    d.codec::<GetCapabilityResp>("C03", "GetCapabilityResp", s_GetCapabilityResp());
    d.codec::<TpmtSignature>("C04", "TpmtSignature", s_TpmtSignature());
    d.codec::<TpmtSigScheme>("C04", "TpmtSigScheme", s_TpmtSigScheme());
    d.commands();
}
