// generated from spec/idents.json: (type, name, value in the compiled crate, value in the reference)
pub fn idents() -> Vec<(&'static str, &'static str, u64, u64)> {
    use tpm2_rs_base::*; use tpm2_rs_base::constants::*; use tpm2::Alg;
    vec![
        ("TpmAlgId", "RSA", TpmAlgId::RSA.0 as u64, 1),
        ("TpmAlgId", "TDES", TpmAlgId::TDES.0 as u64, 3),
        ("TpmAlgId", "SHA1", TpmAlgId::SHA1.0 as u64, 4),
        ("TpmAlgId", "HMAC", TpmAlgId::HMAC.0 as u64, 5),
        ("TpmAlgId", "AES", TpmAlgId::AES.0 as u64, 6),
        ("TpmAlgId", "MGF1", TpmAlgId::MGF1.0 as u64, 7),
        ("TpmAlgId", "KeyedHash", TpmAlgId::KeyedHash.0 as u64, 8),
        ("TpmAlgId", "XOR", TpmAlgId::XOR.0 as u64, 10),
        ("TpmAlgId", "SHA256", TpmAlgId::SHA256.0 as u64, 11),
        ("TpmAlgId", "SHA384", TpmAlgId::SHA384.0 as u64, 12),
        ("TpmAlgId", "SHA512", TpmAlgId::SHA512.0 as u64, 13),
        ("TpmAlgId", "Null", TpmAlgId::Null.0 as u64, 16),
        ("TpmAlgId", "SM3256", TpmAlgId::SM3256.0 as u64, 18),
        ("TpmAlgId", "SM4", TpmAlgId::SM4.0 as u64, 19),
        ("TpmAlgId", "RSASSA", TpmAlgId::RSASSA.0 as u64, 20),
        ("TpmAlgId", "RSAES", TpmAlgId::RSAES.0 as u64, 21),
        ("TpmAlgId", "RSAPSS", TpmAlgId::RSAPSS.0 as u64, 22),
        ("TpmAlgId", "OAEP", TpmAlgId::OAEP.0 as u64, 23),
        ("TpmAlgId", "ECDSA", TpmAlgId::ECDSA.0 as u64, 24),
        ("TpmAlgId", "ECDH", TpmAlgId::ECDH.0 as u64, 25),
        ("TpmAlgId", "ECDAA", TpmAlgId::ECDAA.0 as u64, 26),
        ("TpmAlgId", "SM2", TpmAlgId::SM2.0 as u64, 27),
        ("TpmAlgId", "ECSchnorr", TpmAlgId::ECSchnorr.0 as u64, 28),
        ("TpmAlgId", "ECMQV", TpmAlgId::ECMQV.0 as u64, 29),
        ("TpmAlgId", "KDF1SP80056A", TpmAlgId::KDF1SP80056A.0 as u64, 32),
        ("TpmAlgId", "KDF2", TpmAlgId::KDF2.0 as u64, 33),
        ("TpmAlgId", "KDF1SP800108", TpmAlgId::KDF1SP800108.0 as u64, 34),
        ("TpmAlgId", "ECC", TpmAlgId::ECC.0 as u64, 35),
        ("TpmAlgId", "SymCipher", TpmAlgId::SymCipher.0 as u64, 37),
        ("TpmAlgId", "Camellia", TpmAlgId::Camellia.0 as u64, 38),
        ("TpmAlgId", "SHA3256", TpmAlgId::SHA3256.0 as u64, 39),
        ("TpmAlgId", "SHA3384", TpmAlgId::SHA3384.0 as u64, 40),
        ("TpmAlgId", "SHA3512", TpmAlgId::SHA3512.0 as u64, 41),
        ("TpmAlgId", "CMAC", TpmAlgId::CMAC.0 as u64, 63),
        ("TpmAlgId", "CTR", TpmAlgId::CTR.0 as u64, 64),
        ("TpmAlgId", "OFB", TpmAlgId::OFB.0 as u64, 65),
        ("TpmAlgId", "CBC", TpmAlgId::CBC.0 as u64, 66),
        ("TpmAlgId", "CFB", TpmAlgId::CFB.0 as u64, 67),
        ("TpmAlgId", "ECB", TpmAlgId::ECB.0 as u64, 68),
        ("TpmEccCurve", "None", TpmEccCurve::None.0 as u64, 0),
        ("TpmEccCurve", "NistP192", TpmEccCurve::NistP192.0 as u64, 1),
        ("TpmEccCurve", "NistP224", TpmEccCurve::NistP224.0 as u64, 2),
        ("TpmEccCurve", "NistP256", TpmEccCurve::NistP256.0 as u64, 3),
        ("TpmEccCurve", "NistP384", TpmEccCurve::NistP384.0 as u64, 4),
        ("TpmEccCurve", "NistP521", TpmEccCurve::NistP521.0 as u64, 5),
        ("TpmEccCurve", "BNP256", TpmEccCurve::BNP256.0 as u64, 16),
        ("TpmEccCurve", "BNP638", TpmEccCurve::BNP638.0 as u64, 17),
        ("TpmEccCurve", "SM2P256", TpmEccCurve::SM2P256.0 as u64, 32),
        ("TpmCc", "NVUndefineSpaceSpecial", TpmCc::NVUndefineSpaceSpecial.0 as u64, 287),
        ("TpmCc", "EvictControl", TpmCc::EvictControl.0 as u64, 288),
        ("TpmCc", "HierarchyControl", TpmCc::HierarchyControl.0 as u64, 289),
        ("TpmCc", "NVUndefineSpace", TpmCc::NVUndefineSpace.0 as u64, 290),
        ("TpmCc", "ChangeEPS", TpmCc::ChangeEPS.0 as u64, 292),
        ("TpmCc", "ChangePPS", TpmCc::ChangePPS.0 as u64, 293),
        ("TpmCc", "Clear", TpmCc::Clear.0 as u64, 294),
        ("TpmCc", "ClearControl", TpmCc::ClearControl.0 as u64, 295),
        ("TpmCc", "ClockSet", TpmCc::ClockSet.0 as u64, 296),
        ("TpmCc", "HierarchyChanegAuth", TpmCc::HierarchyChanegAuth.0 as u64, 297),
        ("TpmCc", "NVDefineSpace", TpmCc::NVDefineSpace.0 as u64, 298),
        ("TpmCc", "PCRAllocate", TpmCc::PCRAllocate.0 as u64, 299),
        ("TpmCc", "PCRSetAuthPolicy", TpmCc::PCRSetAuthPolicy.0 as u64, 300),
        ("TpmCc", "PPCommands", TpmCc::PPCommands.0 as u64, 301),
        ("TpmCc", "SetPrimaryPolicy", TpmCc::SetPrimaryPolicy.0 as u64, 302),
        ("TpmCc", "FieldUpgradeStart", TpmCc::FieldUpgradeStart.0 as u64, 303),
        ("TpmCc", "ClockRateAdjust", TpmCc::ClockRateAdjust.0 as u64, 304),
        ("TpmCc", "CreatePrimary", TpmCc::CreatePrimary.0 as u64, 305),
        ("TpmCc", "NVGlobalWriteLock", TpmCc::NVGlobalWriteLock.0 as u64, 306),
        ("TpmCc", "GetCommandAuditDigest", TpmCc::GetCommandAuditDigest.0 as u64, 307),
        ("TpmCc", "NVIncrement", TpmCc::NVIncrement.0 as u64, 308),
        ("TpmCc", "NVSetBits", TpmCc::NVSetBits.0 as u64, 309),
        ("TpmCc", "NVExtend", TpmCc::NVExtend.0 as u64, 310),
        ("TpmCc", "NVWrite", TpmCc::NVWrite.0 as u64, 311),
        ("TpmCc", "NVWriteLock", TpmCc::NVWriteLock.0 as u64, 312),
        ("TpmCc", "DictionaryAttackLockReset", TpmCc::DictionaryAttackLockReset.0 as u64, 313),
        ("TpmCc", "DictionaryAttackParameters", TpmCc::DictionaryAttackParameters.0 as u64, 314),
        ("TpmCc", "NVChangeAuth", TpmCc::NVChangeAuth.0 as u64, 315),
        ("TpmCc", "PCREvent", TpmCc::PCREvent.0 as u64, 316),
        ("TpmCc", "PCRReset", TpmCc::PCRReset.0 as u64, 317),
        ("TpmCc", "SequenceComplete", TpmCc::SequenceComplete.0 as u64, 318),
        ("TpmCc", "SetAlgorithmSet", TpmCc::SetAlgorithmSet.0 as u64, 319),
        ("TpmCc", "SetCommandCodeAuditStatus", TpmCc::SetCommandCodeAuditStatus.0 as u64, 320),
        ("TpmCc", "FieldUpgradeData", TpmCc::FieldUpgradeData.0 as u64, 321),
        ("TpmCc", "IncrementalSelfTest", TpmCc::IncrementalSelfTest.0 as u64, 322),
        ("TpmCc", "SelfTest", TpmCc::SelfTest.0 as u64, 323),
        ("TpmCc", "Startup", TpmCc::Startup.0 as u64, 324),
        ("TpmCc", "Shutdown", TpmCc::Shutdown.0 as u64, 325),
        ("TpmCc", "StirRandom", TpmCc::StirRandom.0 as u64, 326),
        ("TpmCc", "ActivateCredential", TpmCc::ActivateCredential.0 as u64, 327),
        ("TpmCc", "Certify", TpmCc::Certify.0 as u64, 328),
        ("TpmCc", "PolicyNV", TpmCc::PolicyNV.0 as u64, 329),
        ("TpmCc", "CertifyCreation", TpmCc::CertifyCreation.0 as u64, 330),
        ("TpmCc", "Duplicate", TpmCc::Duplicate.0 as u64, 331),
        ("TpmCc", "GetTime", TpmCc::GetTime.0 as u64, 332),
        ("TpmCc", "GetSessionAuditDigest", TpmCc::GetSessionAuditDigest.0 as u64, 333),
        ("TpmCc", "NVRead", TpmCc::NVRead.0 as u64, 334),
        ("TpmCc", "NVReadLock", TpmCc::NVReadLock.0 as u64, 335),
        ("TpmCc", "ObjectChangeAuth", TpmCc::ObjectChangeAuth.0 as u64, 336),
        ("TpmCc", "PolicySecret", TpmCc::PolicySecret.0 as u64, 337),
        ("TpmCc", "Rewrap", TpmCc::Rewrap.0 as u64, 338),
        ("TpmCc", "Create", TpmCc::Create.0 as u64, 339),
        ("TpmCc", "ECDHZGen", TpmCc::ECDHZGen.0 as u64, 340),
        ("TpmCc", "MAC", TpmCc::MAC.0 as u64, 341),
        ("TpmCc", "Import", TpmCc::Import.0 as u64, 342),
        ("TpmCc", "Load", TpmCc::Load.0 as u64, 343),
        ("TpmCc", "Quote", TpmCc::Quote.0 as u64, 344),
        ("TpmCc", "RSADecrypt", TpmCc::RSADecrypt.0 as u64, 345),
        ("TpmCc", "MACStart", TpmCc::MACStart.0 as u64, 347),
        ("TpmCc", "SequenceUpdate", TpmCc::SequenceUpdate.0 as u64, 348),
        ("TpmCc", "Sign", TpmCc::Sign.0 as u64, 349),
        ("TpmCc", "Unseal", TpmCc::Unseal.0 as u64, 350),
        ("TpmCc", "PolicySigned", TpmCc::PolicySigned.0 as u64, 352),
        ("TpmCc", "ContextLoad", TpmCc::ContextLoad.0 as u64, 353),
        ("TpmCc", "ContextSave", TpmCc::ContextSave.0 as u64, 354),
        ("TpmCc", "ECDHKeyGen", TpmCc::ECDHKeyGen.0 as u64, 355),
        ("TpmCc", "EncryptDecrypt", TpmCc::EncryptDecrypt.0 as u64, 356),
        ("TpmCc", "FlushContext", TpmCc::FlushContext.0 as u64, 357),
        ("TpmCc", "LoadExternal", TpmCc::LoadExternal.0 as u64, 359),
        ("TpmCc", "MakeCredential", TpmCc::MakeCredential.0 as u64, 360),
        ("TpmCc", "NVReadPublic", TpmCc::NVReadPublic.0 as u64, 361),
        ("TpmCc", "PolicyAuthorize", TpmCc::PolicyAuthorize.0 as u64, 362),
        ("TpmCc", "PolicyAuthValue", TpmCc::PolicyAuthValue.0 as u64, 363),
        ("TpmCc", "PolicyCommandCode", TpmCc::PolicyCommandCode.0 as u64, 364),
        ("TpmCc", "PolicyCounterTimer", TpmCc::PolicyCounterTimer.0 as u64, 365),
        ("TpmCc", "PolicyCpHash", TpmCc::PolicyCpHash.0 as u64, 366),
        ("TpmCc", "PolicyLocality", TpmCc::PolicyLocality.0 as u64, 367),
        ("TpmCc", "PolicyNameHash", TpmCc::PolicyNameHash.0 as u64, 368),
        ("TpmCc", "PolicyOR", TpmCc::PolicyOR.0 as u64, 369),
        ("TpmCc", "PolicyTicket", TpmCc::PolicyTicket.0 as u64, 370),
        ("TpmCc", "ReadPublic", TpmCc::ReadPublic.0 as u64, 371),
        ("TpmCc", "RSAEncrypt", TpmCc::RSAEncrypt.0 as u64, 372),
        ("TpmCc", "StartAuthSession", TpmCc::StartAuthSession.0 as u64, 374),
        ("TpmCc", "VerifySignature", TpmCc::VerifySignature.0 as u64, 375),
        ("TpmCc", "ECCParameters", TpmCc::ECCParameters.0 as u64, 376),
        ("TpmCc", "FirmwareRead", TpmCc::FirmwareRead.0 as u64, 377),
        ("TpmCc", "GetCapability", TpmCc::GetCapability.0 as u64, 378),
        ("TpmCc", "GetRandom", TpmCc::GetRandom.0 as u64, 379),
        ("TpmCc", "GetTestResult", TpmCc::GetTestResult.0 as u64, 380),
        ("TpmCc", "Hash", TpmCc::Hash.0 as u64, 381),
        ("TpmCc", "PCRRead", TpmCc::PCRRead.0 as u64, 382),
        ("TpmCc", "PolicyPCR", TpmCc::PolicyPCR.0 as u64, 383),
        ("TpmCc", "PolicyRestart", TpmCc::PolicyRestart.0 as u64, 384),
        ("TpmCc", "ReadClock", TpmCc::ReadClock.0 as u64, 385),
        ("TpmCc", "PCRExtend", TpmCc::PCRExtend.0 as u64, 386),
        ("TpmCc", "PCRSetAuthValue", TpmCc::PCRSetAuthValue.0 as u64, 387),
        ("TpmCc", "NVCertify", TpmCc::NVCertify.0 as u64, 388),
        ("TpmCc", "EventSequenceComplete", TpmCc::EventSequenceComplete.0 as u64, 389),
        ("TpmCc", "HashSequenceStart", TpmCc::HashSequenceStart.0 as u64, 390),
        ("TpmCc", "PolicyPhysicalPresence", TpmCc::PolicyPhysicalPresence.0 as u64, 391),
        ("TpmCc", "PolicyDuplicationSelect", TpmCc::PolicyDuplicationSelect.0 as u64, 392),
        ("TpmCc", "PolicyGetDigest", TpmCc::PolicyGetDigest.0 as u64, 393),
        ("TpmCc", "TestParams", TpmCc::TestParams.0 as u64, 394),
        ("TpmCc", "Commit", TpmCc::Commit.0 as u64, 395),
        ("TpmCc", "PolicyPassword", TpmCc::PolicyPassword.0 as u64, 396),
        ("TpmCc", "ZGen2Phase", TpmCc::ZGen2Phase.0 as u64, 397),
        ("TpmCc", "ECEphemeral", TpmCc::ECEphemeral.0 as u64, 398),
        ("TpmCc", "PolicyNvWritten", TpmCc::PolicyNvWritten.0 as u64, 399),
        ("TpmCc", "PolicyTemplate", TpmCc::PolicyTemplate.0 as u64, 400),
        ("TpmCc", "CreateLoaded", TpmCc::CreateLoaded.0 as u64, 401),
        ("TpmCc", "PolicyAuthorizeNV", TpmCc::PolicyAuthorizeNV.0 as u64, 402),
        ("TpmCc", "EncryptDecrypt2", TpmCc::EncryptDecrypt2.0 as u64, 403),
        ("TpmCc", "ACGetCapability", TpmCc::ACGetCapability.0 as u64, 404),
        ("TpmCc", "ACSend", TpmCc::ACSend.0 as u64, 405),
        ("TpmCc", "PolicyACSendSelect", TpmCc::PolicyACSendSelect.0 as u64, 406),
        ("TpmCc", "CertifyX509", TpmCc::CertifyX509.0 as u64, 407),
        ("TpmCc", "ACTSetTimeout", TpmCc::ACTSetTimeout.0 as u64, 408),
        ("TpmRc", "Success", TpmRc::Success.0 as u64, 0),
        ("TpmRc", "Initialize", TpmRc::Initialize.0 as u64, 256),
        ("TpmRc", "Failure", TpmRc::Failure.0 as u64, 257),
        ("TpmRc", "Sequence", TpmRc::Sequence.0 as u64, 259),
        ("TpmRc", "Private", TpmRc::Private.0 as u64, 267),
        ("TpmRc", "Hmac", TpmRc::Hmac.0 as u64, 281),
        ("TpmRc", "Disabled", TpmRc::Disabled.0 as u64, 288),
        ("TpmRc", "Exclusive", TpmRc::Exclusive.0 as u64, 289),
        ("TpmRc", "AuthType", TpmRc::AuthType.0 as u64, 292),
        ("TpmRc", "AuthMissing", TpmRc::AuthMissing.0 as u64, 293),
        ("TpmRc", "Policy", TpmRc::Policy.0 as u64, 294),
        ("TpmRc", "Pcr", TpmRc::Pcr.0 as u64, 295),
        ("TpmRc", "PCRChanged", TpmRc::PCRChanged.0 as u64, 296),
        ("TpmRc", "Upgrade", TpmRc::Upgrade.0 as u64, 301),
        ("TpmRc", "TooManyContexts", TpmRc::TooManyContexts.0 as u64, 302),
        ("TpmRc", "AuthUnavailable", TpmRc::AuthUnavailable.0 as u64, 303),
        ("TpmRc", "Reboot", TpmRc::Reboot.0 as u64, 304),
        ("TpmRc", "Unbalanced", TpmRc::Unbalanced.0 as u64, 305),
        ("TpmRc", "CommandSize", TpmRc::CommandSize.0 as u64, 322),
        ("TpmRc", "CommandCode", TpmRc::CommandCode.0 as u64, 323),
        ("TpmRc", "AuthSize", TpmRc::AuthSize.0 as u64, 324),
        ("TpmRc", "AuthContext", TpmRc::AuthContext.0 as u64, 325),
        ("TpmRc", "NVRange", TpmRc::NVRange.0 as u64, 326),
        ("TpmRc", "NVSize", TpmRc::NVSize.0 as u64, 327),
        ("TpmRc", "NVLocked", TpmRc::NVLocked.0 as u64, 328),
        ("TpmRc", "NVAuthorization", TpmRc::NVAuthorization.0 as u64, 329),
        ("TpmRc", "NVUninitialized", TpmRc::NVUninitialized.0 as u64, 330),
        ("TpmRc", "NVSpace", TpmRc::NVSpace.0 as u64, 331),
        ("TpmRc", "NVDefined", TpmRc::NVDefined.0 as u64, 332),
        ("TpmRc", "BadContext", TpmRc::BadContext.0 as u64, 336),
        ("TpmRc", "CPHash", TpmRc::CPHash.0 as u64, 337),
        ("TpmRc", "Parent", TpmRc::Parent.0 as u64, 338),
        ("TpmRc", "NeedsTest", TpmRc::NeedsTest.0 as u64, 339),
        ("TpmRc", "NoResult", TpmRc::NoResult.0 as u64, 340),
        ("TpmRc", "Sensitive", TpmRc::Sensitive.0 as u64, 341),
        ("TpmRc", "CAsymmetric", TpmRc::CAsymmetric.0 as u64, 129),
        ("TpmRc", "Attributes", TpmRc::Attributes.0 as u64, 130),
        ("TpmRc", "Hash", TpmRc::Hash.0 as u64, 131),
        ("TpmRc", "Value", TpmRc::Value.0 as u64, 132),
        ("TpmRc", "Hierarchy", TpmRc::Hierarchy.0 as u64, 133),
        ("TpmRc", "KeySize", TpmRc::KeySize.0 as u64, 135),
        ("TpmRc", "Mgf", TpmRc::Mgf.0 as u64, 136),
        ("TpmRc", "Mode", TpmRc::Mode.0 as u64, 137),
        ("TpmRc", "Type", TpmRc::Type.0 as u64, 138),
        ("TpmRc", "Handle", TpmRc::Handle.0 as u64, 139),
        ("TpmRc", "Kdf", TpmRc::Kdf.0 as u64, 140),
        ("TpmRc", "Range", TpmRc::Range.0 as u64, 141),
        ("TpmRc", "AuthFail", TpmRc::AuthFail.0 as u64, 142),
        ("TpmRc", "Nonce", TpmRc::Nonce.0 as u64, 143),
        ("TpmRc", "PP", TpmRc::PP.0 as u64, 144),
        ("TpmRc", "Scheme", TpmRc::Scheme.0 as u64, 146),
        ("TpmRc", "Size", TpmRc::Size.0 as u64, 149),
        ("TpmRc", "Symmetric", TpmRc::Symmetric.0 as u64, 150),
        ("TpmRc", "Tag", TpmRc::Tag.0 as u64, 151),
        ("TpmRc", "Selector", TpmRc::Selector.0 as u64, 152),
        ("TpmRc", "Insufficient", TpmRc::Insufficient.0 as u64, 154),
        ("TpmRc", "Signature", TpmRc::Signature.0 as u64, 155),
        ("TpmRc", "Key", TpmRc::Key.0 as u64, 156),
        ("TpmRc", "PolicyFail", TpmRc::PolicyFail.0 as u64, 157),
        ("TpmRc", "Integrity", TpmRc::Integrity.0 as u64, 159),
        ("TpmRc", "Ticket", TpmRc::Ticket.0 as u64, 160),
        ("TpmRc", "ReservedBits", TpmRc::ReservedBits.0 as u64, 161),
        ("TpmRc", "BadAuth", TpmRc::BadAuth.0 as u64, 162),
        ("TpmRc", "Expired", TpmRc::Expired.0 as u64, 163),
        ("TpmRc", "PolicyCC", TpmRc::PolicyCC.0 as u64, 164),
        ("TpmRc", "Binding", TpmRc::Binding.0 as u64, 165),
        ("TpmRc", "Curve", TpmRc::Curve.0 as u64, 166),
        ("TpmRc", "ECCPoint", TpmRc::ECCPoint.0 as u64, 167),
        ("TpmRc", "ContextGap", TpmRc::ContextGap.0 as u64, 2305),
        ("TpmRc", "ObjectMemory", TpmRc::ObjectMemory.0 as u64, 2306),
        ("TpmRc", "SessionMemory", TpmRc::SessionMemory.0 as u64, 2307),
        ("TpmRc", "Memory", TpmRc::Memory.0 as u64, 2308),
        ("TpmRc", "SessionHandles", TpmRc::SessionHandles.0 as u64, 2309),
        ("TpmRc", "ObjectHandles", TpmRc::ObjectHandles.0 as u64, 2310),
        ("TpmRc", "Locality", TpmRc::Locality.0 as u64, 2311),
        ("TpmRc", "Yielded", TpmRc::Yielded.0 as u64, 2312),
        ("TpmRc", "Canceled", TpmRc::Canceled.0 as u64, 2313),
        ("TpmRc", "Testing", TpmRc::Testing.0 as u64, 2314),
        ("TpmRc", "ReferenceH0", TpmRc::ReferenceH0.0 as u64, 2320),
        ("TpmRc", "ReferenceH1", TpmRc::ReferenceH1.0 as u64, 2321),
        ("TpmRc", "ReferenceH2", TpmRc::ReferenceH2.0 as u64, 2322),
        ("TpmRc", "ReferenceH3", TpmRc::ReferenceH3.0 as u64, 2323),
        ("TpmRc", "ReferenceH4", TpmRc::ReferenceH4.0 as u64, 2324),
        ("TpmRc", "ReferenceH5", TpmRc::ReferenceH5.0 as u64, 2325),
        ("TpmRc", "ReferenceH6", TpmRc::ReferenceH6.0 as u64, 2326),
        ("TpmRc", "ReferenceS0", TpmRc::ReferenceS0.0 as u64, 2328),
        ("TpmRc", "ReferenceS1", TpmRc::ReferenceS1.0 as u64, 2329),
        ("TpmRc", "ReferenceS2", TpmRc::ReferenceS2.0 as u64, 2330),
        ("TpmRc", "ReferenceS3", TpmRc::ReferenceS3.0 as u64, 2331),
        ("TpmRc", "ReferenceS4", TpmRc::ReferenceS4.0 as u64, 2332),
        ("TpmRc", "ReferenceS5", TpmRc::ReferenceS5.0 as u64, 2333),
        ("TpmRc", "ReferenceS6", TpmRc::ReferenceS6.0 as u64, 2334),
        ("TpmRc", "NVRate", TpmRc::NVRate.0 as u64, 2336),
        ("TpmRc", "Lockout", TpmRc::Lockout.0 as u64, 2337),
        ("TpmRc", "Retry", TpmRc::Retry.0 as u64, 2338),
        ("TpmRc", "NVUnavailable", TpmRc::NVUnavailable.0 as u64, 2339),
        ("TpmRc", "RC_VER_1", TpmRc::RC_VER_1 as u64, 256),
        ("TpmRc", "RC_FMT_1", TpmRc::RC_FMT_1 as u64, 128),
        ("TpmRc", "RC_WARN", TpmRc::RC_WARN as u64, 2304),
        ("TpmRc", "RC_P", TpmRc::RC_P as u64, 64),
        ("TpmRc", "RC_S", TpmRc::RC_S as u64, 2048),
        ("TpmEo", "Eq", TpmEo::Eq.0 as u64, 0),
        ("TpmEo", "Neq", TpmEo::Neq.0 as u64, 1),
        ("TpmEo", "SignedGT", TpmEo::SignedGT.0 as u64, 2),
        ("TpmEo", "UnsignedGT", TpmEo::UnsignedGT.0 as u64, 3),
        ("TpmEo", "SignedLT", TpmEo::SignedLT.0 as u64, 4),
        ("TpmEo", "UnsignedLT", TpmEo::UnsignedLT.0 as u64, 5),
        ("TpmEo", "SignedGE", TpmEo::SignedGE.0 as u64, 6),
        ("TpmEo", "UnsignedGE", TpmEo::UnsignedGE.0 as u64, 7),
        ("TpmEo", "SignedLE", TpmEo::SignedLE.0 as u64, 8),
        ("TpmEo", "UnsignedLE", TpmEo::UnsignedLE.0 as u64, 9),
        ("TpmEo", "BitSet", TpmEo::BitSet.0 as u64, 10),
        ("TpmEo", "BitClear", TpmEo::BitClear.0 as u64, 11),
        ("TpmSt", "RspCommand", TpmSt::RspCommand.0 as u64, 196),
        ("TpmSt", "Null", TpmSt::Null.0 as u64, 32768),
        ("TpmSt", "NoSessions", TpmSt::NoSessions.0 as u64, 32769),
        ("TpmSt", "Sessions", TpmSt::Sessions.0 as u64, 32770),
        ("TpmSt", "AttestNV", TpmSt::AttestNV.0 as u64, 32788),
        ("TpmSt", "AttestCommandAudit", TpmSt::AttestCommandAudit.0 as u64, 32789),
        ("TpmSt", "AttestSessionAudit", TpmSt::AttestSessionAudit.0 as u64, 32790),
        ("TpmSt", "AttestCertify", TpmSt::AttestCertify.0 as u64, 32791),
        ("TpmSt", "AttestQuote", TpmSt::AttestQuote.0 as u64, 32792),
        ("TpmSt", "AttestTime", TpmSt::AttestTime.0 as u64, 32793),
        ("TpmSt", "AttestCreation", TpmSt::AttestCreation.0 as u64, 32794),
        ("TpmSt", "AttestNVDigest", TpmSt::AttestNVDigest.0 as u64, 32796),
        ("TpmSt", "Creation", TpmSt::Creation.0 as u64, 32801),
        ("TpmSt", "Verified", TpmSt::Verified.0 as u64, 32802),
        ("TpmSt", "AuthSecret", TpmSt::AuthSecret.0 as u64, 32803),
        ("TpmSt", "HashCheck", TpmSt::HashCheck.0 as u64, 32804),
        ("TpmSt", "AuthSigned", TpmSt::AuthSigned.0 as u64, 32805),
        ("TpmSt", "FuManifest", TpmSt::FuManifest.0 as u64, 32809),
        ("TpmSu", "Clear", TpmSu::Clear.0 as u64, 0),
        ("TpmSu", "State", TpmSu::State.0 as u64, 1),
        ("TpmSe", "HMAC", TpmSe::HMAC.0 as u64, 0),
        ("TpmSe", "Policy", TpmSe::Policy.0 as u64, 1),
        ("TpmSe", "Trial", TpmSe::Trial.0 as u64, 3),
        ("TpmCap", "Algs", TpmCap::Algs.0 as u64, 0),
        ("TpmCap", "Handles", TpmCap::Handles.0 as u64, 1),
        ("TpmCap", "Commands", TpmCap::Commands.0 as u64, 2),
        ("TpmCap", "PPCommands", TpmCap::PPCommands.0 as u64, 3),
        ("TpmCap", "AuditCommands", TpmCap::AuditCommands.0 as u64, 4),
        ("TpmCap", "PCRs", TpmCap::PCRs.0 as u64, 5),
        ("TpmCap", "TPMProperties", TpmCap::TPMProperties.0 as u64, 6),
        ("TpmCap", "PCRProperties", TpmCap::PCRProperties.0 as u64, 7),
        ("TpmCap", "ECCCurves", TpmCap::ECCCurves.0 as u64, 8),
        ("TpmCap", "AuthPolicies", TpmCap::AuthPolicies.0 as u64, 9),
        ("TpmCap", "ACT", TpmCap::ACT.0 as u64, 10),
        ("TpmPt", "FamilyIndicator", TpmPt::FamilyIndicator.0 as u64, 256),
        ("TpmPt", "Level", TpmPt::Level.0 as u64, 257),
        ("TpmPt", "Revision", TpmPt::Revision.0 as u64, 258),
        ("TpmPt", "DayofYear", TpmPt::DayofYear.0 as u64, 259),
        ("TpmPt", "Year", TpmPt::Year.0 as u64, 260),
        ("TpmPt", "Manufacturer", TpmPt::Manufacturer.0 as u64, 261),
        ("TpmPt", "VendorString1", TpmPt::VendorString1.0 as u64, 262),
        ("TpmPt", "VendorString2", TpmPt::VendorString2.0 as u64, 263),
        ("TpmPt", "VendorString3", TpmPt::VendorString3.0 as u64, 264),
        ("TpmPt", "VendorString4", TpmPt::VendorString4.0 as u64, 265),
        ("TpmPt", "VendorTPMType", TpmPt::VendorTPMType.0 as u64, 266),
        ("TpmPt", "FirmwareVersion1", TpmPt::FirmwareVersion1.0 as u64, 267),
        ("TpmPt", "FirmwareVersion2", TpmPt::FirmwareVersion2.0 as u64, 268),
        ("TpmPt", "InputBuffer", TpmPt::InputBuffer.0 as u64, 269),
        ("TpmPt", "HRTransientMin", TpmPt::HRTransientMin.0 as u64, 270),
        ("TpmPt", "HRPersistentMin", TpmPt::HRPersistentMin.0 as u64, 271),
        ("TpmPt", "HRLoadedMin", TpmPt::HRLoadedMin.0 as u64, 272),
        ("TpmPt", "ActiveSessionsMax", TpmPt::ActiveSessionsMax.0 as u64, 273),
        ("TpmPt", "PCRCount", TpmPt::PCRCount.0 as u64, 274),
        ("TpmPt", "PCRSelectMin", TpmPt::PCRSelectMin.0 as u64, 275),
        ("TpmPt", "ContextGapMax", TpmPt::ContextGapMax.0 as u64, 276),
        ("TpmPt", "NVCountersMax", TpmPt::NVCountersMax.0 as u64, 278),
        ("TpmPt", "NVIndexMax", TpmPt::NVIndexMax.0 as u64, 279),
        ("TpmPt", "Memory", TpmPt::Memory.0 as u64, 280),
        ("TpmPt", "ClockUpdate", TpmPt::ClockUpdate.0 as u64, 281),
        ("TpmPt", "ContextHash", TpmPt::ContextHash.0 as u64, 282),
        ("TpmPt", "ContextSym", TpmPt::ContextSym.0 as u64, 283),
        ("TpmPt", "ContextSymSize", TpmPt::ContextSymSize.0 as u64, 284),
        ("TpmPt", "OrderlyCount", TpmPt::OrderlyCount.0 as u64, 285),
        ("TpmPt", "MaxCommandSize", TpmPt::MaxCommandSize.0 as u64, 286),
        ("TpmPt", "MaxResponseSize", TpmPt::MaxResponseSize.0 as u64, 287),
        ("TpmPt", "MaxDigest", TpmPt::MaxDigest.0 as u64, 288),
        ("TpmPt", "MaxObjectContext", TpmPt::MaxObjectContext.0 as u64, 289),
        ("TpmPt", "MaxSessionContext", TpmPt::MaxSessionContext.0 as u64, 290),
        ("TpmPt", "PSFamilyIndicator", TpmPt::PSFamilyIndicator.0 as u64, 291),
        ("TpmPt", "PSLevel", TpmPt::PSLevel.0 as u64, 292),
        ("TpmPt", "PSRevision", TpmPt::PSRevision.0 as u64, 293),
        ("TpmPt", "PSDayOfYear", TpmPt::PSDayOfYear.0 as u64, 294),
        ("TpmPt", "PSYear", TpmPt::PSYear.0 as u64, 295),
        ("TpmPt", "SplitMax", TpmPt::SplitMax.0 as u64, 296),
        ("TpmPt", "TotalCommands", TpmPt::TotalCommands.0 as u64, 297),
        ("TpmPt", "LibraryCommands", TpmPt::LibraryCommands.0 as u64, 298),
        ("TpmPt", "VendorCommands", TpmPt::VendorCommands.0 as u64, 299),
        ("TpmPt", "NVBufferMax", TpmPt::NVBufferMax.0 as u64, 300),
        ("TpmPt", "Modes", TpmPt::Modes.0 as u64, 301),
        ("TpmPt", "MaxCapBuffer", TpmPt::MaxCapBuffer.0 as u64, 302),
        ("TpmPt", "Permanent", TpmPt::Permanent.0 as u64, 512),
        ("TpmPt", "StartupClear", TpmPt::StartupClear.0 as u64, 513),
        ("TpmPt", "HRNVIndex", TpmPt::HRNVIndex.0 as u64, 514),
        ("TpmPt", "HRLoaded", TpmPt::HRLoaded.0 as u64, 515),
        ("TpmPt", "HRLoadedAvail", TpmPt::HRLoadedAvail.0 as u64, 516),
        ("TpmPt", "HRActive", TpmPt::HRActive.0 as u64, 517),
        ("TpmPt", "HRActiveAvail", TpmPt::HRActiveAvail.0 as u64, 518),
        ("TpmPt", "HRTransientAvail", TpmPt::HRTransientAvail.0 as u64, 519),
        ("TpmPt", "HRPersistent", TpmPt::HRPersistent.0 as u64, 520),
        ("TpmPt", "HRPersistentAvail", TpmPt::HRPersistentAvail.0 as u64, 521),
        ("TpmPt", "NVCounters", TpmPt::NVCounters.0 as u64, 522),
        ("TpmPt", "NVCountersAvail", TpmPt::NVCountersAvail.0 as u64, 523),
        ("TpmPt", "AlgorithmSet", TpmPt::AlgorithmSet.0 as u64, 524),
        ("TpmPt", "LoadedCurves", TpmPt::LoadedCurves.0 as u64, 525),
        ("TpmPt", "LockoutCounter", TpmPt::LockoutCounter.0 as u64, 526),
        ("TpmPt", "MaxAuthFail", TpmPt::MaxAuthFail.0 as u64, 527),
        ("TpmPt", "LockoutInterval", TpmPt::LockoutInterval.0 as u64, 528),
        ("TpmPt", "LockoutRecovery", TpmPt::LockoutRecovery.0 as u64, 529),
        ("TpmPt", "NVWriteRecovery", TpmPt::NVWriteRecovery.0 as u64, 530),
        ("TpmPt", "AuditCounter0", TpmPt::AuditCounter0.0 as u64, 531),
        ("TpmPt", "AuditCounter1", TpmPt::AuditCounter1.0 as u64, 532),
        ("TpmPtPcr", "Save", TpmPtPcr::Save.0 as u64, 0),
        ("TpmPtPcr", "ExtendL0", TpmPtPcr::ExtendL0.0 as u64, 1),
        ("TpmPtPcr", "ResetL0", TpmPtPcr::ResetL0.0 as u64, 2),
        ("TpmPtPcr", "ExtendL1", TpmPtPcr::ExtendL1.0 as u64, 3),
        ("TpmPtPcr", "ResetL1", TpmPtPcr::ResetL1.0 as u64, 4),
        ("TpmPtPcr", "ExtendL2", TpmPtPcr::ExtendL2.0 as u64, 5),
        ("TpmPtPcr", "ResetL2", TpmPtPcr::ResetL2.0 as u64, 6),
        ("TpmPtPcr", "ExtendL3", TpmPtPcr::ExtendL3.0 as u64, 7),
        ("TpmPtPcr", "ResetL3", TpmPtPcr::ResetL3.0 as u64, 8),
        ("TpmPtPcr", "ExtendL4", TpmPtPcr::ExtendL4.0 as u64, 9),
        ("TpmPtPcr", "ResetL4", TpmPtPcr::ResetL4.0 as u64, 10),
        ("TpmPtPcr", "NoIncrement", TpmPtPcr::NoIncrement.0 as u64, 17),
        ("TpmPtPcr", "DRTMRest", TpmPtPcr::DRTMRest.0 as u64, 18),
        ("TpmPtPcr", "Policy", TpmPtPcr::Policy.0 as u64, 19),
        ("TpmPtPcr", "Auth", TpmPtPcr::Auth.0 as u64, 20),
        ("TpmHt", "PCR", TpmHt::PCR.0 as u64, 0),
        ("TpmHt", "NVIndex", TpmHt::NVIndex.0 as u64, 1),
        ("TpmHt", "HMACSession", TpmHt::HMACSession.0 as u64, 2),
        ("TpmHt", "PolicySession", TpmHt::PolicySession.0 as u64, 3),
        ("TpmHt", "Permanent", TpmHt::Permanent.0 as u64, 64),
        ("TpmHt", "Transient", TpmHt::Transient.0 as u64, 128),
        ("TpmHt", "Persistent", TpmHt::Persistent.0 as u64, 129),
        ("TpmHt", "AC", TpmHt::AC.0 as u64, 144),
        ("TpmHandle", "RHOwner", TpmHandle::RHOwner.0 as u64, 1073741825),
        ("TpmHandle", "RHNull", TpmHandle::RHNull.0 as u64, 1073741831),
        ("TpmHandle", "RSPW", TpmHandle::RSPW.0 as u64, 1073741833),
        ("TpmHandle", "RHLockout", TpmHandle::RHLockout.0 as u64, 1073741834),
        ("TpmHandle", "RHEndorsement", TpmHandle::RHEndorsement.0 as u64, 1073741835),
        ("TpmHandle", "RHPlatform", TpmHandle::RHPlatform.0 as u64, 1073741836),
        ("TpmHandle", "RHPlatformNV", TpmHandle::RHPlatformNV.0 as u64, 1073741837),
        ("TpmNt", "Ordinary", TpmNt::Ordinary.0 as u64, 0),
        ("TpmNt", "Counter", TpmNt::Counter.0 as u64, 1),
        ("TpmNt", "Bits", TpmNt::Bits.0 as u64, 2),
        ("TpmNt", "Extend", TpmNt::Extend.0 as u64, 4),
        ("TpmNt", "PinFail", TpmNt::PinFail.0 as u64, 8),
        ("TpmNt", "PinPass", TpmNt::PinPass.0 as u64, 9),
        ("TpmGenerated", "VALUE", TpmGenerated::VALUE.0 as u64, 4283712327),
        ("TpmaLocality", "LOC_ZERO", TpmaLocality::LOC_ZERO.0 as u64, 1),
        ("TpmaLocality", "LOC_ONE", TpmaLocality::LOC_ONE.0 as u64, 2),
        ("TpmaLocality", "LOC_TWO", TpmaLocality::LOC_TWO.0 as u64, 4),
        ("TpmaLocality", "LOC_THREE", TpmaLocality::LOC_THREE.0 as u64, 8),
        ("TpmaLocality", "LOC_FOUR", TpmaLocality::LOC_FOUR.0 as u64, 16),
        ("TpmaNv", "PPWRITE", TpmaNv::PPWRITE.0 as u64, 1),
        ("TpmaNv", "OWNERWRITE", TpmaNv::OWNERWRITE.0 as u64, 2),
        ("TpmaNv", "AUTHWRITE", TpmaNv::AUTHWRITE.0 as u64, 4),
        ("TpmaNv", "POLICYWRITE", TpmaNv::POLICYWRITE.0 as u64, 8),
        ("TpmaNv", "POLICY_DELETE", TpmaNv::POLICY_DELETE.0 as u64, 1024),
        ("TpmaNv", "WRITELOCKED", TpmaNv::WRITELOCKED.0 as u64, 2048),
        ("TpmaNv", "WRITEALL", TpmaNv::WRITEALL.0 as u64, 4096),
        ("TpmaNv", "WRITEDEFINE", TpmaNv::WRITEDEFINE.0 as u64, 8192),
        ("TpmaNv", "WRITE_STCLEAR", TpmaNv::WRITE_STCLEAR.0 as u64, 16384),
        ("TpmaNv", "GLOBALLOCK", TpmaNv::GLOBALLOCK.0 as u64, 32768),
        ("TpmaNv", "PPREAD", TpmaNv::PPREAD.0 as u64, 65536),
        ("TpmaNv", "OWNERREAD", TpmaNv::OWNERREAD.0 as u64, 131072),
        ("TpmaNv", "AUTHREAD", TpmaNv::AUTHREAD.0 as u64, 262144),
        ("TpmaNv", "POLICYREAD", TpmaNv::POLICYREAD.0 as u64, 524288),
        ("TpmaNv", "NO_DA", TpmaNv::NO_DA.0 as u64, 33554432),
        ("TpmaNv", "ORDERLY", TpmaNv::ORDERLY.0 as u64, 67108864),
        ("TpmaNv", "CLEAR_STCLEAR", TpmaNv::CLEAR_STCLEAR.0 as u64, 134217728),
        ("TpmaNv", "READLOCKED", TpmaNv::READLOCKED.0 as u64, 268435456),
        ("TpmaNv", "WRITTEN", TpmaNv::WRITTEN.0 as u64, 536870912),
        ("TpmaNv", "PLATFORMCREATE", TpmaNv::PLATFORMCREATE.0 as u64, 1073741824),
        ("TpmaNv", "READ_STCLEAR", TpmaNv::READ_STCLEAR.0 as u64, 2147483648),
        ("TpmiAlgHash", "SHA1", TpmiAlgHash::SHA1.0 as u64, 4),
        ("TpmiAlgHash", "SHA256", TpmiAlgHash::SHA256.0 as u64, 11),
        ("TpmiAlgHash", "SHA384", TpmiAlgHash::SHA384.0 as u64, 12),
        ("TpmiAlgHash", "SHA512", TpmiAlgHash::SHA512.0 as u64, 13),
        ("TpmiAlgHash", "SM3256", TpmiAlgHash::SM3256.0 as u64, 18),
        ("TpmiAlgHash", "SHA3256", TpmiAlgHash::SHA3256.0 as u64, 39),
        ("TpmiAlgHash", "SHA3384", TpmiAlgHash::SHA3384.0 as u64, 40),
        ("TpmiAlgHash", "SHA3512", TpmiAlgHash::SHA3512.0 as u64, 41),
        ("TpmiAlgKdf", "MGF1", TpmiAlgKdf::MGF1.0 as u64, 7),
        ("TpmiAlgKdf", "KDF1SP80056A", TpmiAlgKdf::KDF1SP80056A.0 as u64, 32),
        ("TpmiAlgKdf", "KDF2", TpmiAlgKdf::KDF2.0 as u64, 33),
        ("TpmiAlgKdf", "KDF1SP800108", TpmiAlgKdf::KDF1SP800108.0 as u64, 34),
        ("TpmiAlgPublic", "RSA", TpmiAlgPublic::RSA.0 as u64, 1),
        ("TpmiAlgPublic", "KeyedHash", TpmiAlgPublic::KeyedHash.0 as u64, 8),
        ("TpmiAlgPublic", "ECC", TpmiAlgPublic::ECC.0 as u64, 35),
        ("TpmiAlgPublic", "SymCipher", TpmiAlgPublic::SymCipher.0 as u64, 37),
        ("TpmiAlgSymMode", "CMAC", TpmiAlgSymMode::CMAC.0 as u64, 63),
        ("TpmiAlgSymMode", "CTR", TpmiAlgSymMode::CTR.0 as u64, 64),
        ("TpmiAlgSymMode", "OFB", TpmiAlgSymMode::OFB.0 as u64, 65),
        ("TpmiAlgSymMode", "CBC", TpmiAlgSymMode::CBC.0 as u64, 66),
        ("TpmiAlgSymMode", "CFB", TpmiAlgSymMode::CFB.0 as u64, 67),
        ("TpmiAlgSymMode", "ECB", TpmiAlgSymMode::ECB.0 as u64, 68),
        ("TpmiAlgSymObject", "TDES", TpmiAlgSymObject::TDES.0 as u64, 3),
        ("TpmiAlgSymObject", "AES", TpmiAlgSymObject::AES.0 as u64, 6),
        ("TpmiAlgSymObject", "SM4", TpmiAlgSymObject::SM4.0 as u64, 19),
        ("TpmiAlgSymObject", "Camellia", TpmiAlgSymObject::Camellia.0 as u64, 38),
        ("TpmiAlgKeyedhashScheme", "HMAC", TpmiAlgKeyedhashScheme::HMAC.0 as u64, 5),
        ("TpmiAlgKeyedhashScheme", "XOR", TpmiAlgKeyedhashScheme::XOR.0 as u64, 10),
        ("TpmiAlgRsaScheme", "RSAPSS", TpmiAlgRsaScheme::RSAPSS.0 as u64, 22),
        ("TpmiAlgRsaScheme", "RSASSA", TpmiAlgRsaScheme::RSASSA.0 as u64, 20),
        ("TpmiAlgRsaScheme", "ECDSA", TpmiAlgRsaScheme::ECDSA.0 as u64, 24),
        ("TpmiAlgRsaScheme", "ECDAA", TpmiAlgRsaScheme::ECDAA.0 as u64, 26),
        ("TpmiAlgRsaScheme", "SM2", TpmiAlgRsaScheme::SM2.0 as u64, 27),
        ("TpmiAlgRsaScheme", "ECSchnorr", TpmiAlgRsaScheme::ECSchnorr.0 as u64, 28),
        ("TpmiAlgRsaScheme", "RSAES", TpmiAlgRsaScheme::RSAES.0 as u64, 21),
        ("TpmiAlgRsaScheme", "OAEP", TpmiAlgRsaScheme::OAEP.0 as u64, 23),
        ("TpmiAlgSigScheme", "RSAPSS", TpmiAlgSigScheme::RSAPSS.0 as u64, 22),
        ("TpmiAlgSigScheme", "RSASSA", TpmiAlgSigScheme::RSASSA.0 as u64, 20),
        ("TpmiAlgSigScheme", "ECDSA", TpmiAlgSigScheme::ECDSA.0 as u64, 24),
        ("TpmiAlgSigScheme", "ECDAA", TpmiAlgSigScheme::ECDAA.0 as u64, 26),
        ("TpmiAlgSigScheme", "SM2", TpmiAlgSigScheme::SM2.0 as u64, 27),
        ("TpmiAlgSigScheme", "ECSchnorr", TpmiAlgSigScheme::ECSchnorr.0 as u64, 28),
        ("TpmiAlgSigScheme", "HMAC", TpmiAlgSigScheme::HMAC.0 as u64, 5),
        ("TpmiAlgEccScheme", "RSAPSS", TpmiAlgEccScheme::RSAPSS.0 as u64, 22),
        ("TpmiAlgEccScheme", "RSASSA", TpmiAlgEccScheme::RSASSA.0 as u64, 20),
        ("TpmiAlgEccScheme", "ECDSA", TpmiAlgEccScheme::ECDSA.0 as u64, 24),
        ("TpmiAlgEccScheme", "ECDAA", TpmiAlgEccScheme::ECDAA.0 as u64, 26),
        ("TpmiAlgEccScheme", "SM2", TpmiAlgEccScheme::SM2.0 as u64, 27),
        ("TpmiAlgEccScheme", "ECSchnorr", TpmiAlgEccScheme::ECSchnorr.0 as u64, 28),
        ("TpmiAlgEccScheme", "ECDH", TpmiAlgEccScheme::ECDH.0 as u64, 25),
        ("TpmiAlgEccScheme", "ECMQV", TpmiAlgEccScheme::ECMQV.0 as u64, 29),
        ("TpmiAlgAsymScheme", "SM2", TpmiAlgAsymScheme::SM2.0 as u64, 27),
        ("TpmiAlgAsymScheme", "ECDH", TpmiAlgAsymScheme::ECDH.0 as u64, 25),
        ("TpmiAlgAsymScheme", "ECMQV", TpmiAlgAsymScheme::ECMQV.0 as u64, 29),
        ("TpmiAlgAsymScheme", "RSAPSS", TpmiAlgAsymScheme::RSAPSS.0 as u64, 22),
        ("TpmiAlgAsymScheme", "RSASSA", TpmiAlgAsymScheme::RSASSA.0 as u64, 20),
        ("TpmiAlgAsymScheme", "ECDSA", TpmiAlgAsymScheme::ECDSA.0 as u64, 24),
        ("TpmiAlgAsymScheme", "ECDAA", TpmiAlgAsymScheme::ECDAA.0 as u64, 26),
        ("TpmiAlgAsymScheme", "ECSchnorr", TpmiAlgAsymScheme::ECSchnorr.0 as u64, 28),
        ("TpmiAlgAsymScheme", "RSAES", TpmiAlgAsymScheme::RSAES.0 as u64, 21),
        ("TpmiAlgAsymScheme", "OAEP", TpmiAlgAsymScheme::OAEP.0 as u64, 23),
        ("TpmiYesNo", "NO", TpmiYesNo::NO.0 as u64, 0),
        ("TpmiYesNo", "YES", TpmiYesNo::YES.0 as u64, 1),
        ("TpmiStAttest", "AttestCertify", TpmiStAttest::AttestCertify.0 as u64, 32791),
        ("TpmiStAttest", "AttestQuote", TpmiStAttest::AttestQuote.0 as u64, 32792),
        ("TpmiStAttest", "AttestSessionAudit", TpmiStAttest::AttestSessionAudit.0 as u64, 32790),
        ("TpmiStAttest", "AttestCommandAudit", TpmiStAttest::AttestCommandAudit.0 as u64, 32789),
        ("TpmiStAttest", "AttestTime", TpmiStAttest::AttestTime.0 as u64, 32793),
        ("TpmiStAttest", "AttestCreation", TpmiStAttest::AttestCreation.0 as u64, 32794),
        ("TpmiStAttest", "AttestNV", TpmiStAttest::AttestNV.0 as u64, 32788),
        ("TpmiStAttest", "AttestNVDigest", TpmiStAttest::AttestNVDigest.0 as u64, 32796),
        ("TpmaObject", "FIXED_TPM", TpmaObject::FIXED_TPM.0 as u64, 2),
        ("TpmaObject", "ST_CLEAR", TpmaObject::ST_CLEAR.0 as u64, 4),
        ("TpmaObject", "FIXED_PARENT", TpmaObject::FIXED_PARENT.0 as u64, 16),
        ("TpmaObject", "SENSITIVE_DATA_ORIGIN", TpmaObject::SENSITIVE_DATA_ORIGIN.0 as u64, 32),
        ("TpmaObject", "USER_WITH_AUTH", TpmaObject::USER_WITH_AUTH.0 as u64, 64),
        ("TpmaObject", "ADMIN_WITH_POLICY", TpmaObject::ADMIN_WITH_POLICY.0 as u64, 128),
        ("TpmaObject", "NO_DA", TpmaObject::NO_DA.0 as u64, 1024),
        ("TpmaObject", "ENCRYPTED_DUPLICATION", TpmaObject::ENCRYPTED_DUPLICATION.0 as u64, 2048),
        ("TpmaObject", "RESTRICTED", TpmaObject::RESTRICTED.0 as u64, 65536),
        ("TpmaObject", "DECRYPT", TpmaObject::DECRYPT.0 as u64, 131072),
        ("TpmaObject", "SIGN_ENCRYPT", TpmaObject::SIGN_ENCRYPT.0 as u64, 262144),
        ("TpmaObject", "X509_SIGN", TpmaObject::X509_SIGN.0 as u64, 524288),
        ("TpmaAlgorithm", "ASYMMETRIC", TpmaAlgorithm::ASYMMETRIC.0 as u64, 1),
        ("TpmaAlgorithm", "SYMMETRIC", TpmaAlgorithm::SYMMETRIC.0 as u64, 2),
        ("TpmaAlgorithm", "HASH", TpmaAlgorithm::HASH.0 as u64, 4),
        ("TpmaAlgorithm", "OBJECT", TpmaAlgorithm::OBJECT.0 as u64, 8),
        ("TpmaAlgorithm", "SIGNING", TpmaAlgorithm::SIGNING.0 as u64, 256),
        ("TpmaAlgorithm", "ENCRYPTING", TpmaAlgorithm::ENCRYPTING.0 as u64, 512),
        ("TpmaAlgorithm", "METHOD", TpmaAlgorithm::METHOD.0 as u64, 1024),
        ("TpmaSession", "CONTINUE_SESSION", TpmaSession::CONTINUE_SESSION.0 as u64, 1),
        ("TpmaSession", "AUDIT_EXCLUSIVE", TpmaSession::AUDIT_EXCLUSIVE.0 as u64, 2),
        ("TpmaSession", "AUDIT_RESET", TpmaSession::AUDIT_RESET.0 as u64, 4),
        ("TpmaSession", "DECRYPT", TpmaSession::DECRYPT.0 as u64, 32),
        ("TpmaSession", "ENCRYPT", TpmaSession::ENCRYPT.0 as u64, 64),
        ("TpmaSession", "AUDIT", TpmaSession::AUDIT.0 as u64, 128),
        ("TpmaCc", "NV", TpmaCc::NV.0 as u64, 4194304),
        ("TpmaCc", "EXTENSIVE", TpmaCc::EXTENSIVE.0 as u64, 8388608),
        ("TpmaCc", "FLUSHED", TpmaCc::FLUSHED.0 as u64, 16777216),
        ("TpmaCc", "R_HANDLE", TpmaCc::R_HANDLE.0 as u64, 268435456),
        ("TpmaCc", "V", TpmaCc::V.0 as u64, 536870912),
        ("TpmiStCommandTag", "NoSessions", TpmiStCommandTag::NoSessions.0 as u64, 32769),
        ("TpmiStCommandTag", "Sessions", TpmiStCommandTag::Sessions.0 as u64, 32770),
        ("Alg", "Rsa", Alg::Rsa.0 as u64, 1),
        ("Alg", "Tdes", Alg::Tdes.0 as u64, 3),
        ("Alg", "Sha1", Alg::Sha1.0 as u64, 4),
        ("Alg", "Hmac", Alg::Hmac.0 as u64, 5),
        ("Alg", "Aes", Alg::Aes.0 as u64, 6),
        ("Alg", "Mgf1", Alg::Mgf1.0 as u64, 7),
        ("Alg", "KeyedHash", Alg::KeyedHash.0 as u64, 8),
        ("Alg", "Null", Alg::Null.0 as u64, 16),
        ("Alg", "Xor", Alg::Xor.0 as u64, 10),
        ("Alg", "Sha256", Alg::Sha256.0 as u64, 11),
        ("Alg", "Sha384", Alg::Sha384.0 as u64, 12),
        ("Alg", "Sha512", Alg::Sha512.0 as u64, 13),
        ("Alg", "Sm3_256", Alg::Sm3_256.0 as u64, 18),
        ("Alg", "Sm4", Alg::Sm4.0 as u64, 19),
        ("Alg", "RsaSsa", Alg::RsaSsa.0 as u64, 20),
        ("Alg", "RsaEs", Alg::RsaEs.0 as u64, 21),
        ("Alg", "RsaPss", Alg::RsaPss.0 as u64, 22),
        ("Alg", "Oaep", Alg::Oaep.0 as u64, 23),
        ("Alg", "Ecdsa", Alg::Ecdsa.0 as u64, 24),
        ("Alg", "Ecdh", Alg::Ecdh.0 as u64, 25),
        ("Alg", "Ecdaa", Alg::Ecdaa.0 as u64, 26),
        ("Alg", "Sm2", Alg::Sm2.0 as u64, 27),
        ("Alg", "EcSchnorr", Alg::EcSchnorr.0 as u64, 28),
        ("Alg", "Ecmqv", Alg::Ecmqv.0 as u64, 29),
        ("Alg", "Kdf1Sp800_56A", Alg::Kdf1Sp800_56A.0 as u64, 32),
        ("Alg", "Kdf2", Alg::Kdf2.0 as u64, 33),
        ("Alg", "Kdf1Sp800_108", Alg::Kdf1Sp800_108.0 as u64, 34),
        ("Alg", "Ecc", Alg::Ecc.0 as u64, 35),
        ("Alg", "SymCipher", Alg::SymCipher.0 as u64, 37),
        ("Alg", "Camellia", Alg::Camellia.0 as u64, 38),
        ("Alg", "Sha3_256", Alg::Sha3_256.0 as u64, 39),
        ("Alg", "Sha3_384", Alg::Sha3_384.0 as u64, 40),
        ("Alg", "Sha3_512", Alg::Sha3_512.0 as u64, 41),
        ("Alg", "Ctr", Alg::Ctr.0 as u64, 64),
        ("Alg", "Ofb", Alg::Ofb.0 as u64, 65),
        ("Alg", "Cbc", Alg::Cbc.0 as u64, 66),
        ("Alg", "Cfb", Alg::Cfb.0 as u64, 67),
        ("Alg", "Ecb", Alg::Ecb.0 as u64, 68),
    ]
}
