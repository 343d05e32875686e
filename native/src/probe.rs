// generated by tools/nativegen.py
pub fn probe() -> String {
    use tpm2_rs_base::{*, constants::*, commands::*};
    let mut s = String::from("{\"size_of\": {");
    let mut first = true;
    let mut put = |s: &mut String, n: &str, v: usize| { if !first { s.push_str(", "); } first = false; s.push_str(&format!("\"{n}\": {v}")); };
    put(&mut s, "TpmAlgId", core::mem::size_of::<TpmAlgId>());
    put(&mut s, "TpmEccCurve", core::mem::size_of::<TpmEccCurve>());
    put(&mut s, "TpmCc", core::mem::size_of::<TpmCc>());
    put(&mut s, "TpmSt", core::mem::size_of::<TpmSt>());
    put(&mut s, "TpmSu", core::mem::size_of::<TpmSu>());
    put(&mut s, "TpmCap", core::mem::size_of::<TpmCap>());
    put(&mut s, "TpmPt", core::mem::size_of::<TpmPt>());
    put(&mut s, "TpmPtPcr", core::mem::size_of::<TpmPtPcr>());
    put(&mut s, "TpmHandle", core::mem::size_of::<TpmHandle>());
    put(&mut s, "TpmHc", core::mem::size_of::<TpmHc>());
    put(&mut s, "TpmGenerated", core::mem::size_of::<TpmGenerated>());
    put(&mut s, "TpmaLocality", core::mem::size_of::<TpmaLocality>());
    put(&mut s, "TpmaNv", core::mem::size_of::<TpmaNv>());
    put(&mut s, "TpmaObject", core::mem::size_of::<TpmaObject>());
    put(&mut s, "TpmaAlgorithm", core::mem::size_of::<TpmaAlgorithm>());
    put(&mut s, "TpmaSession", core::mem::size_of::<TpmaSession>());
    put(&mut s, "TpmaCc", core::mem::size_of::<TpmaCc>());
    put(&mut s, "TpmiAlgHash", core::mem::size_of::<TpmiAlgHash>());
    put(&mut s, "TpmiAlgKdf", core::mem::size_of::<TpmiAlgKdf>());
    put(&mut s, "TpmiAlgPublic", core::mem::size_of::<TpmiAlgPublic>());
    put(&mut s, "TpmiAlgSymMode", core::mem::size_of::<TpmiAlgSymMode>());
    put(&mut s, "TpmiAlgSymObject", core::mem::size_of::<TpmiAlgSymObject>());
    put(&mut s, "TpmiAlgKeyedhashScheme", core::mem::size_of::<TpmiAlgKeyedhashScheme>());
    put(&mut s, "TpmiAlgRsaScheme", core::mem::size_of::<TpmiAlgRsaScheme>());
    put(&mut s, "TpmiAlgSigScheme", core::mem::size_of::<TpmiAlgSigScheme>());
    put(&mut s, "TpmiAlgEccScheme", core::mem::size_of::<TpmiAlgEccScheme>());
    put(&mut s, "TpmiAlgAsymScheme", core::mem::size_of::<TpmiAlgAsymScheme>());
    put(&mut s, "TpmiRhNvIndex", core::mem::size_of::<TpmiRhNvIndex>());
    put(&mut s, "TpmiShAuthSession", core::mem::size_of::<TpmiShAuthSession>());
    put(&mut s, "TpmiEccCurve", core::mem::size_of::<TpmiEccCurve>());
    put(&mut s, "TpmiYesNo", core::mem::size_of::<TpmiYesNo>());
    put(&mut s, "TpmiStAttest", core::mem::size_of::<TpmiStAttest>());
    put(&mut s, "TpmiAesKeyBits", core::mem::size_of::<TpmiAesKeyBits>());
    put(&mut s, "TpmiSm4KeyBits", core::mem::size_of::<TpmiSm4KeyBits>());
    put(&mut s, "TpmiCamelliaKeyBits", core::mem::size_of::<TpmiCamelliaKeyBits>());
    put(&mut s, "TpmiRsaKeyBits", core::mem::size_of::<TpmiRsaKeyBits>());
    put(&mut s, "TpmiStCommandTag", core::mem::size_of::<TpmiStCommandTag>());
    put(&mut s, "Tpm2bDigest", core::mem::size_of::<Tpm2bDigest>());
    put(&mut s, "Tpm2bData", core::mem::size_of::<Tpm2bData>());
    put(&mut s, "Tpm2bEvent", core::mem::size_of::<Tpm2bEvent>());
    put(&mut s, "Tpm2bMaxBuffer", core::mem::size_of::<Tpm2bMaxBuffer>());
    put(&mut s, "Tpm2bMaxNvBuffer", core::mem::size_of::<Tpm2bMaxNvBuffer>());
    put(&mut s, "Tpm2bIv", core::mem::size_of::<Tpm2bIv>());
    put(&mut s, "Tpm2bName", core::mem::size_of::<Tpm2bName>());
    put(&mut s, "Tpm2bAttest", core::mem::size_of::<Tpm2bAttest>());
    put(&mut s, "Tpm2bSymKey", core::mem::size_of::<Tpm2bSymKey>());
    put(&mut s, "Tpm2bLabel", core::mem::size_of::<Tpm2bLabel>());
    put(&mut s, "Tpm2bSensitiveData", core::mem::size_of::<Tpm2bSensitiveData>());
    put(&mut s, "Tpm2bSensitiveCreate", core::mem::size_of::<Tpm2bSensitiveCreate>());
    put(&mut s, "Tpm2bPublicKeyRsa", core::mem::size_of::<Tpm2bPublicKeyRsa>());
    put(&mut s, "Tpm2bPrivateKeyRsa", core::mem::size_of::<Tpm2bPrivateKeyRsa>());
    put(&mut s, "Tpm2bEccParameter", core::mem::size_of::<Tpm2bEccParameter>());
    put(&mut s, "Tpm2bEncryptedSecret", core::mem::size_of::<Tpm2bEncryptedSecret>());
    put(&mut s, "Tpm2bPublic", core::mem::size_of::<Tpm2bPublic>());
    put(&mut s, "Tpm2bTemplate", core::mem::size_of::<Tpm2bTemplate>());
    put(&mut s, "Tpm2bPrivateVendorSpecific", core::mem::size_of::<Tpm2bPrivateVendorSpecific>());
    put(&mut s, "Tpm2bPrivate", core::mem::size_of::<Tpm2bPrivate>());
    put(&mut s, "Tpm2bIdObject", core::mem::size_of::<Tpm2bIdObject>());
    put(&mut s, "Tpm2bContextSensitive", core::mem::size_of::<Tpm2bContextSensitive>());
    put(&mut s, "Tpm2bContextData", core::mem::size_of::<Tpm2bContextData>());
    put(&mut s, "Tpm2bCreationData", core::mem::size_of::<Tpm2bCreationData>());
    put(&mut s, "TpmsEmpty", core::mem::size_of::<TpmsEmpty>());
    put(&mut s, "TpmsClockInfo", core::mem::size_of::<TpmsClockInfo>());
    put(&mut s, "TpmsPcrSelection", core::mem::size_of::<TpmsPcrSelection>());
    put(&mut s, "TpmlPcrSelection", core::mem::size_of::<TpmlPcrSelection>());
    put(&mut s, "TpmsQuoteInfo", core::mem::size_of::<TpmsQuoteInfo>());
    put(&mut s, "TpmsCreationInfo", core::mem::size_of::<TpmsCreationInfo>());
    put(&mut s, "TpmsCertifyInfo", core::mem::size_of::<TpmsCertifyInfo>());
    put(&mut s, "TpmsCommandAuditInfo", core::mem::size_of::<TpmsCommandAuditInfo>());
    put(&mut s, "TpmsSessionAuditInfo", core::mem::size_of::<TpmsSessionAuditInfo>());
    put(&mut s, "TpmsTimeInfo", core::mem::size_of::<TpmsTimeInfo>());
    put(&mut s, "TpmsTimeAttestInfo", core::mem::size_of::<TpmsTimeAttestInfo>());
    put(&mut s, "TpmsNvCertifyInfo", core::mem::size_of::<TpmsNvCertifyInfo>());
    put(&mut s, "TpmuAttest", core::mem::size_of::<TpmuAttest>());
    put(&mut s, "TpmsAttest", core::mem::size_of::<TpmsAttest>());
    put(&mut s, "TpmsDerive", core::mem::size_of::<TpmsDerive>());
    put(&mut s, "TpmsSensitiveCreate", core::mem::size_of::<TpmsSensitiveCreate>());
    put(&mut s, "TpmsEccPoint", core::mem::size_of::<TpmsEccPoint>());
    put(&mut s, "TpmsSchemeXor", core::mem::size_of::<TpmsSchemeXor>());
    put(&mut s, "TpmsSchemeHash", core::mem::size_of::<TpmsSchemeHash>());
    put(&mut s, "TpmtKeyedHashScheme", core::mem::size_of::<TpmtKeyedHashScheme>());
    put(&mut s, "TpmsKeyedHashParms", core::mem::size_of::<TpmsKeyedHashParms>());
    put(&mut s, "TpmtSymDefObject", core::mem::size_of::<TpmtSymDefObject>());
    put(&mut s, "TpmsSymCipherParms", core::mem::size_of::<TpmsSymCipherParms>());
    put(&mut s, "TpmsSignatureRsa", core::mem::size_of::<TpmsSignatureRsa>());
    put(&mut s, "TpmsSignatureEcc", core::mem::size_of::<TpmsSignatureEcc>());
    put(&mut s, "TpmsSchemeEcdaa", core::mem::size_of::<TpmsSchemeEcdaa>());
    put(&mut s, "TpmtRsaScheme", core::mem::size_of::<TpmtRsaScheme>());
    put(&mut s, "TpmsRsaParms", core::mem::size_of::<TpmsRsaParms>());
    put(&mut s, "TpmtEccScheme", core::mem::size_of::<TpmtEccScheme>());
    put(&mut s, "TpmtKdfScheme", core::mem::size_of::<TpmtKdfScheme>());
    put(&mut s, "TpmsEccParms", core::mem::size_of::<TpmsEccParms>());
    put(&mut s, "TpmtAsymScheme", core::mem::size_of::<TpmtAsymScheme>());
    put(&mut s, "TpmsAsymParms", core::mem::size_of::<TpmsAsymParms>());
    put(&mut s, "PublicParmsAndId", core::mem::size_of::<PublicParmsAndId>());
    put(&mut s, "TpmtPublic", core::mem::size_of::<TpmtPublic>());
    put(&mut s, "TpmuSensitiveComposite", core::mem::size_of::<TpmuSensitiveComposite>());
    put(&mut s, "TpmtSensitive", core::mem::size_of::<TpmtSensitive>());
    put(&mut s, "TpmsAlgProperty", core::mem::size_of::<TpmsAlgProperty>());
    put(&mut s, "TpmlAlgProperty", core::mem::size_of::<TpmlAlgProperty>());
    put(&mut s, "TpmlHandle", core::mem::size_of::<TpmlHandle>());
    put(&mut s, "TpmlCca", core::mem::size_of::<TpmlCca>());
    put(&mut s, "TpmlCc", core::mem::size_of::<TpmlCc>());
    put(&mut s, "TpmsTaggedProperty", core::mem::size_of::<TpmsTaggedProperty>());
    put(&mut s, "TpmlTaggedTpmProperty", core::mem::size_of::<TpmlTaggedTpmProperty>());
    put(&mut s, "TpmsTaggedPcrSelect", core::mem::size_of::<TpmsTaggedPcrSelect>());
    put(&mut s, "TpmlTaggedPcrProperty", core::mem::size_of::<TpmlTaggedPcrProperty>());
    put(&mut s, "TpmlEccCurve", core::mem::size_of::<TpmlEccCurve>());
    put(&mut s, "TpmtHa", core::mem::size_of::<TpmtHa>());
    put(&mut s, "TpmsTaggedPolicy", core::mem::size_of::<TpmsTaggedPolicy>());
    put(&mut s, "TpmlTaggedPolicy", core::mem::size_of::<TpmlTaggedPolicy>());
    put(&mut s, "TpmlDigest", core::mem::size_of::<TpmlDigest>());
    put(&mut s, "TpmsAuthCommand", core::mem::size_of::<TpmsAuthCommand>());
    put(&mut s, "TpmsAuthResponse", core::mem::size_of::<TpmsAuthResponse>());
    put(&mut s, "TpmsIdObject", core::mem::size_of::<TpmsIdObject>());
    put(&mut s, "TpmsNvPublic", core::mem::size_of::<TpmsNvPublic>());
    put(&mut s, "TpmsContextData", core::mem::size_of::<TpmsContextData>());
    put(&mut s, "TpmsCreationData", core::mem::size_of::<TpmsCreationData>());
    put(&mut s, "StartupCmd", core::mem::size_of::<StartupCmd>());
    put(&mut s, "GetRandomCmd", core::mem::size_of::<GetRandomCmd>());
    put(&mut s, "GetRandomResp", core::mem::size_of::<GetRandomResp>());
    put(&mut s, "PcrReadCmd", core::mem::size_of::<PcrReadCmd>());
    put(&mut s, "PcrReadResp", core::mem::size_of::<PcrReadResp>());
    put(&mut s, "GetCapabilityCmd", core::mem::size_of::<GetCapabilityCmd>());
    put(&mut s, "TpmsCapabilityData", core::mem::size_of::<TpmsCapabilityData>());
    put(&mut s, "GetCapabilityResp", core::mem::size_of::<GetCapabilityResp>());
    put(&mut s, "TpmtSignature", core::mem::size_of::<TpmtSignature>());
    put(&mut s, "TpmtSigScheme", core::mem::size_of::<TpmtSigScheme>());
    put(&mut s, "_PRIVATE", core::mem::size_of::<_PRIVATE>());
    put(&mut s, "Tpm2bSensitive", core::mem::size_of::<Tpm2bSensitive>());
    s.push_str("}, \"cap\": {");
    let mut first = true;
    let mut put = |s: &mut String, n: &str, v: usize| { if !first { s.push_str(", "); } first = false; s.push_str(&format!("\"{n}\": {v}")); };
    put(&mut s, "Tpm2bDigest", <Tpm2bDigest as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bData", <Tpm2bData as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bEvent", <Tpm2bEvent as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bMaxBuffer", <Tpm2bMaxBuffer as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bMaxNvBuffer", <Tpm2bMaxNvBuffer as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bIv", <Tpm2bIv as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bName", <Tpm2bName as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bAttest", <Tpm2bAttest as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bSymKey", <Tpm2bSymKey as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bLabel", <Tpm2bLabel as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bSensitiveData", <Tpm2bSensitiveData as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bSensitiveCreate", <Tpm2bSensitiveCreate as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bPublicKeyRsa", <Tpm2bPublicKeyRsa as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bPrivateKeyRsa", <Tpm2bPrivateKeyRsa as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bEccParameter", <Tpm2bEccParameter as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bEncryptedSecret", <Tpm2bEncryptedSecret as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bPublic", <Tpm2bPublic as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bTemplate", <Tpm2bTemplate as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bPrivateVendorSpecific", <Tpm2bPrivateVendorSpecific as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bPrivate", <Tpm2bPrivate as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bIdObject", <Tpm2bIdObject as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bContextSensitive", <Tpm2bContextSensitive as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bContextData", <Tpm2bContextData as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "Tpm2bCreationData", <Tpm2bCreationData as Tpm2bSimple>::MAX_BUFFER_SIZE);
    s.push_str("}}");
    s
}
