"""Wire schema of the TPM 2.0 structures implemented by tpm2-rs-base.

Written from TPM 2.0 Library Part 2 (Structures) -- member order, member widths,
union selectors and list counts are taken from the specification tables, the
Rust member names only say which member of the Rust type carries which member of
the specification's structure.  This table is the oracle: the Verus contracts and
the reference codec of the native driver are generated from it.  Nothing here is
read from /repo.
"""

# ---- TPM_ALG_ID (Part 2, 6.3) / TPM_ST (6.9) / TPM_CAP (6.12) values used as selectors
ALG = dict(RSA=0x0001, TDES=0x0003, SHA1=0x0004, HMAC=0x0005, AES=0x0006, MGF1=0x0007,
           KEYEDHASH=0x0008, XOR=0x000A, SHA256=0x000B, SHA384=0x000C, SHA512=0x000D,
           NULL=0x0010, SM3_256=0x0012, SM4=0x0013, RSASSA=0x0014, RSAES=0x0015,
           RSAPSS=0x0016, OAEP=0x0017, ECDSA=0x0018, ECDH=0x0019, ECDAA=0x001A, SM2=0x001B,
           ECSCHNORR=0x001C, ECMQV=0x001D, KDF1_SP800_56A=0x0020, KDF2=0x0021,
           KDF1_SP800_108=0x0022, ECC=0x0023, SYMCIPHER=0x0025, CAMELLIA=0x0026)
ST = dict(RSP_COMMAND=0x00C4, NULL=0x8000, NO_SESSIONS=0x8001, SESSIONS=0x8002,
          ATTEST_NV=0x8014, ATTEST_COMMAND_AUDIT=0x8015, ATTEST_SESSION_AUDIT=0x8016,
          ATTEST_CERTIFY=0x8017, ATTEST_QUOTE=0x8018, ATTEST_TIME=0x8019,
          ATTEST_CREATION=0x801A)
CAP = dict(ALGS=0, HANDLES=1, COMMANDS=2, PP_COMMANDS=3, AUDIT_COMMANDS=4, PCRS=5,
           TPM_PROPERTIES=6, PCR_PROPERTIES=7, ECC_CURVES=8, AUTH_POLICIES=9)

PRIMS = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}

# ---- one-member types: Rust newtype -> type of the single member on the wire
NEWTYPES = {
    # constants (Part 2 clause 6) and handles (7)
    'TpmAlgId': 'u16', 'TpmEccCurve': 'u16', 'TpmCc': 'u32', 'TpmSt': 'u16', 'TpmSu': 'u16',
    'TpmCap': 'u32', 'TpmPt': 'u32', 'TpmPtPcr': 'u32', 'TpmHandle': 'u32', 'TpmHc': 'u32',
    'TpmGenerated': 'u32',
    # attributes (8)
    'TpmaLocality': 'u8', 'TpmaNv': 'u32', 'TpmaObject': 'u32', 'TpmaAlgorithm': 'u32',
    'TpmaSession': 'u8', 'TpmaCc': 'u32',
    # interface types (9)
    'TpmiAlgHash': 'u16', 'TpmiAlgKdf': 'u16', 'TpmiAlgPublic': 'u16', 'TpmiAlgSymMode': 'u16',
    'TpmiAlgSymObject': 'u16', 'TpmiAlgKeyedhashScheme': 'u16', 'TpmiAlgRsaScheme': 'u16',
    'TpmiAlgSigScheme': 'u16', 'TpmiAlgEccScheme': 'u16', 'TpmiAlgAsymScheme': 'u16',
    'TpmiRhNvIndex': 'u32', 'TpmiShAuthSession': 'u32', 'TpmiEccCurve': 'TpmEccCurve',
    'TpmiYesNo': 'u8', 'TpmiStAttest': 'u16', 'TpmiAesKeyBits': 'u16', 'TpmiSm4KeyBits': 'u16',
    'TpmiCamelliaKeyBits': 'u16', 'TpmiRsaKeyBits': 'u16', 'TpmiStCommandTag': 'u16',
}

# ---- TPM2B: UINT16 size followed by `size` bytes.  name -> capacity in bytes, or
# None where the capacity is the in-memory size of a Rust type: then it is read off the
# compiled crate, and must be at least the longest encoding of the listed contents.
TPM2B = {
    'Tpm2bDigest': 64, 'Tpm2bData': 64, 'Tpm2bEvent': 1024, 'Tpm2bMaxBuffer': 1024,
    'Tpm2bMaxNvBuffer': 2048, 'Tpm2bIv': 16, 'Tpm2bName': None, 'Tpm2bAttest': None,
    'Tpm2bSymKey': 32, 'Tpm2bLabel': 32, 'Tpm2bSensitiveData': 256,
    'Tpm2bSensitiveCreate': None, 'Tpm2bPublicKeyRsa': 512, 'Tpm2bPrivateKeyRsa': 256,
    'Tpm2bEccParameter': 128, 'Tpm2bEncryptedSecret': 512, 'Tpm2bPublic': None,
    'Tpm2bTemplate': None, 'Tpm2bPrivateVendorSpecific': 1280, 'Tpm2bPrivate': None,
    'Tpm2bIdObject': None, 'Tpm2bContextSensitive': 5120, 'Tpm2bContextData': None,
    'Tpm2bCreationData': None,
}
# structure that must always fit in the sized buffer
TPM2B_HOLDS = {
    'Tpm2bName': 'TpmtHa', 'Tpm2bAttest': 'TpmsAttest', 'Tpm2bSensitiveCreate': 'TpmsSensitiveCreate',
    'Tpm2bPublic': 'TpmtPublic', 'Tpm2bTemplate': 'TpmtPublic', 'Tpm2bIdObject': 'TpmsIdObject',
    'Tpm2bContextData': 'TpmsContextData', 'Tpm2bCreationData': 'TpmsCreationData',
}
# TPM2B types that offer conversion to/from a structure
TPM2B_STRUCT = {'Tpm2bSensitiveCreate': 'TpmsSensitiveCreate', 'Tpm2bPublic': 'TpmtPublic',
                'Tpm2bCreationData': 'TpmsCreationData'}


class L:
    """`count` elements of a counted array; the count is the preceding member"""
    def __init__(self, elem, count, cap):
        self.elem, self.count, self.cap = elem, count, cap


class Sel:
    """selector of a union member which is encoded apart from the union itself"""
    def __init__(self, member, repr):
        self.member, self.repr = member, repr


class Var:
    """the selected union member (without selector)"""
    def __init__(self, ty):
        self.ty = ty


# ---- structures: member list in wire order
STRUCTS = {
    'TpmsEmpty': [],
    'TpmsClockInfo': [('clock', 'u64'), ('reset_count', 'u32'), ('restart_count', 'u32'), ('safe', 'TpmiYesNo')],
    'TpmsPcrSelection': [('hash', 'TpmiAlgHash'), ('sizeof_select', 'u8'), ('pcr_select', L('u8', 'sizeof_select', 4))],
    'TpmlPcrSelection': [('count', 'u32'), ('pcr_selections', L('TpmsPcrSelection', 'count', 16))],
    'TpmsQuoteInfo': [('pcr_select', 'TpmlPcrSelection'), ('pcr_digest', 'Tpm2bDigest')],
    'TpmsCreationInfo': [('object_name', 'Tpm2bName'), ('creation_hash', 'Tpm2bDigest')],
    'TpmsCertifyInfo': [('name', 'Tpm2bName'), ('qualified_name', 'Tpm2bName')],
    'TpmsCommandAuditInfo': [('audit_counter', 'u64'), ('digest_alg', 'u16'), ('audit_digest', 'Tpm2bDigest'), ('command_digest', 'Tpm2bDigest')],
    'TpmsSessionAuditInfo': [('exclusive_session', 'TpmiYesNo'), ('session_digest', 'Tpm2bDigest')],
    'TpmsTimeInfo': [('time', 'u64'), ('clock_info', 'TpmsClockInfo')],
    'TpmsTimeAttestInfo': [('time', 'TpmsTimeInfo'), ('firmware_version', 'u64')],
    'TpmsNvCertifyInfo': [('index_name', 'Tpm2bName'), ('offset', 'u16'), ('nv_contents', 'Tpm2bMaxNvBuffer')],
    'TpmsAttest': [('magic', 'TpmGenerated'), Sel('attested', 'u16'), ('qualified_signer', 'Tpm2bName'),
                   ('extra_data', 'Tpm2bData'), ('clock_info', 'TpmsClockInfo'), ('firmware_version', 'u64'),
                   ('attested', Var('TpmuAttest'))],
    'TpmsDerive': [('label', 'Tpm2bLabel'), ('context', 'Tpm2bLabel')],
    'TpmsSensitiveCreate': [('user_auth', 'Tpm2bDigest'), ('data', 'Tpm2bSensitiveData')],
    'TpmsEccPoint': [('x', 'Tpm2bEccParameter'), ('y', 'Tpm2bEccParameter')],
    'TpmsSchemeXor': [('hash_alg', 'TpmiAlgHash'), ('kdf', 'TpmiAlgKdf')],
    'TpmsKeyedHashParms': [('scheme', 'TpmtKeyedHashScheme')],
    'TpmsSymCipherParms': [('sym', 'TpmtSymDefObject')],
    'TpmsSignatureRsa': [('hash', 'TpmiAlgHash'), ('sig', 'Tpm2bPublicKeyRsa')],
    'TpmsSignatureEcc': [('hash', 'TpmiAlgHash'), ('signature_r', 'Tpm2bEccParameter'), ('signature_s', 'Tpm2bEccParameter')],
    'TpmsSchemeHash': [('hash_alg', 'TpmiAlgHash')],
    'TpmsSchemeEcdaa': [('hash_alg', 'TpmiAlgHash'), ('count', 'u16')],
    'TpmsRsaParms': [('symmetric', 'TpmtSymDefObject'), ('scheme', 'TpmtRsaScheme'), ('key_bits', 'TpmiRsaKeyBits'), ('exponent', 'u32')],
    'TpmsEccParms': [('symmetric', 'TpmtSymDefObject'), ('scheme', 'TpmtEccScheme'), ('curve_id', 'TpmiEccCurve'), ('kdf', 'TpmtKdfScheme')],
    'TpmsAsymParms': [('symmetric', 'TpmtSymDefObject'), ('scheme', 'TpmtAsymScheme')],
    'TpmtPublic': [Sel('parms_and_id', 'u16'), ('name_alg', 'TpmiAlgHash'), ('object_attributes', 'TpmaObject'),
                   ('auth_policy', 'Tpm2bDigest'), ('parms_and_id', Var('PublicParmsAndId'))],
    'TpmtSensitive': [Sel('sensitive', 'u16'), ('auth_value', 'Tpm2bDigest'), ('seed_value', 'Tpm2bDigest'),
                      ('sensitive', Var('TpmuSensitiveComposite'))],
    'TpmlAlgProperty': [('count', 'u32'), ('alg_properties', L('TpmsAlgProperty', 'count', 127))],
    'TpmlHandle': [('count', 'u32'), ('handle', L('TpmHandle', 'count', 254))],
    'TpmlCca': [('count', 'u32'), ('command_attributes', L('TpmaCc', 'count', 254))],
    'TpmlCc': [('count', 'u32'), ('command_codes', L('TpmCc', 'count', 254))],
    'TpmlTaggedTpmProperty': [('count', 'u32'), ('tpm_property', L('TpmsTaggedProperty', 'count', 127))],
    'TpmlTaggedPcrProperty': [('count', 'u32'), ('pcr_property', L('TpmsTaggedPcrSelect', 'count', None))],
    'TpmlEccCurve': [('count', 'u32'), ('ecc_curves', L('TpmEccCurve', 'count', 508))],
    'TpmlTaggedPolicy': [('count', 'u32'), ('policies', L('TpmsTaggedPolicy', 'count', None))],
    'TpmlDigest': [('count', 'u32'), ('digests', L('Tpm2bDigest', 'count', 8))],
    'TpmsAlgProperty': [('alg', 'TpmAlgId'), ('alg_properties', 'TpmaAlgorithm')],
    'TpmsTaggedProperty': [('property', 'TpmPt'), ('value', 'u32')],
    'TpmsTaggedPcrSelect': [('tag', 'TpmPtPcr'), ('size_of_select', 'u8'), ('pcr_select', L('u8', 'size_of_select', 4))],
    'TpmsTaggedPolicy': [('handle', 'TpmHandle'), ('policy_hash', 'TpmtHa')],
    'TpmsAuthCommand': [('session_handle', 'TpmiShAuthSession'), ('nonce', 'Tpm2bDigest'), ('session_attributes', 'TpmaSession'), ('hmac', 'Tpm2bDigest')],
    'TpmsAuthResponse': [('nonce', 'Tpm2bDigest'), ('session_attributes', 'TpmaSession'), ('hmac', 'Tpm2bData')],
    'TpmsIdObject': [('integrity_hmac', 'Tpm2bDigest'), ('enc_identity', 'Tpm2bDigest')],
    'TpmsNvPublic': [('nv_index', 'TpmiRhNvIndex'), ('name_alg', 'TpmiAlgHash'), ('attributes', 'TpmaNv'), ('auth_policy', 'Tpm2bDigest'), ('data_size', 'u16')],
    'TpmsContextData': [('integrity', 'Tpm2bDigest'), ('encrypted', 'Tpm2bContextSensitive')],
    'TpmsCreationData': [('pcr_select', 'TpmlPcrSelection'), ('pcr_digest', 'Tpm2bDigest'), ('locality', 'TpmaLocality'),
                         ('parent_name_alg', 'TpmAlgId'), ('parent_name', 'Tpm2bName'), ('parent_qualified_name', 'Tpm2bName'),
                         ('outside_info', 'Tpm2bData')],
    # Part 3 command / response parameter areas
    'StartupCmd': [('startup_type', 'TpmSu')],
    'GetRandomCmd': [('bytes_requested', 'u16')],
    'GetRandomResp': [('random_bytes', 'Tpm2bDigest')],
    'PcrReadCmd': [('pcr_selection_in', 'TpmlPcrSelection')],
    'PcrReadResp': [('pcr_update_counter', 'u32'), ('pcr_selection_out', 'TpmlPcrSelection'), ('pcr_values', 'TpmlDigest')],
    'GetCapabilityCmd': [('capability', 'TpmCap'), ('property', 'TpmPt'), ('property_count', 'u32')],
    'GetCapabilityResp': [('more_data', 'TpmiYesNo'), ('capability_data', 'TpmsCapabilityData')],
}

# ---- command and response header (Part 1, 18; Part 3, 5): in the client crate
CLIENT_STRUCTS = {
    'CmdHeader': [('tag', 'TpmiStCommandTag'), ('size', 'u32'), ('code', 'TpmCc')],
    'RespHeader': [('tag', 'TpmSt'), ('size', 'u32'), ('rc', 'u32')],
}

# ---- tagged unions: name -> (selector type, [(Rust variant, selector, [member types])])
ENUMS = {
    'TpmtHa': ('u16', [('Sha1', ALG['SHA1'], ['[u8;20]']), ('Sha256', ALG['SHA256'], ['[u8;32]']),
                       ('Sha384', ALG['SHA384'], ['[u8;48]']), ('Sha512', ALG['SHA512'], ['[u8;64]']),
                       ('Sm3_256', ALG['SM3_256'], ['[u8;32]'])]),
    'TpmuAttest': ('u16', [('Certify', ST['ATTEST_CERTIFY'], ['TpmsCertifyInfo']), ('Creation', ST['ATTEST_CREATION'], ['TpmsCreationInfo']),
                           ('Quote', ST['ATTEST_QUOTE'], ['TpmsQuoteInfo']), ('CommandAudit', ST['ATTEST_COMMAND_AUDIT'], ['TpmsCommandAuditInfo']),
                           ('SessionAudit', ST['ATTEST_SESSION_AUDIT'], ['TpmsSessionAuditInfo']), ('Time', ST['ATTEST_TIME'], ['TpmsTimeAttestInfo']),
                           ('Nv', ST['ATTEST_NV'], ['TpmsNvCertifyInfo'])]),
    'TpmtKeyedHashScheme': ('u16', [('Hmac', ALG['HMAC'], ['TpmsSchemeHash']), ('ExclusiveOr', ALG['XOR'], ['TpmsSchemeXor']),
                                    ('Null', ALG['NULL'], ['TpmsEmpty'])]),
    'TpmtSymDefObject': ('u16', [('Aes', ALG['AES'], ['TpmiAesKeyBits', 'TpmiAlgSymMode']), ('Sm4', ALG['SM4'], ['TpmiSm4KeyBits', 'TpmiAlgSymMode']),
                                 ('Camellia', ALG['CAMELLIA'], ['TpmiCamelliaKeyBits', 'TpmiAlgSymMode']),
                                 ('ExclusiveOr', ALG['XOR'], ['TpmiAlgHash', 'TpmsEmpty']), ('Null', ALG['NULL'], ['TpmsEmpty', 'TpmsEmpty'])]),
    'TpmtSignature': ('u16', [('Rsassa', ALG['RSASSA'], ['TpmsSignatureRsa']), ('Rsapss', ALG['RSAPSS'], ['TpmsSignatureRsa']),
                              ('Ecdsa', ALG['ECDSA'], ['TpmsSignatureEcc']), ('Ecdaa', ALG['ECDAA'], ['TpmsSignatureEcc']),
                              ('Sm2', ALG['SM2'], ['TpmsSignatureEcc']), ('Ecschnorr', ALG['ECSCHNORR'], ['TpmsSignatureEcc']),
                              ('Hmac', ALG['HMAC'], ['TpmtHa']), ('Null', ALG['NULL'], ['TpmsEmpty'])]),
    'TpmtSigScheme': ('u16', [('Rsassa', ALG['RSASSA'], ['TpmsSchemeHash']), ('Rsapss', ALG['RSAPSS'], ['TpmsSchemeHash']),
                              ('Ecdsa', ALG['ECDSA'], ['TpmsSchemeHash']), ('Ecdaa', ALG['ECDAA'], ['TpmsSchemeEcdaa']),
                              ('Sm2', ALG['SM2'], ['TpmsSchemeHash']), ('Ecschnorr', ALG['ECSCHNORR'], ['TpmsSchemeHash']),
                              ('Hmac', ALG['HMAC'], ['TpmsSchemeHash']), ('Null', ALG['NULL'], ['TpmsEmpty'])]),
    'TpmtRsaScheme': ('u16', [('Rsapss', ALG['RSAPSS'], ['TpmsSchemeHash']), ('Rsassa', ALG['RSASSA'], ['TpmsSchemeHash']),
                              ('Ecdsa', ALG['ECDSA'], ['TpmsSchemeHash']), ('Ecdaa', ALG['ECDAA'], ['TpmsSchemeEcdaa']),
                              ('Sm2', ALG['SM2'], ['TpmsSchemeHash']), ('Ecschnorr', ALG['ECSCHNORR'], ['TpmsSchemeHash']),
                              ('Rsaes', ALG['RSAES'], ['TpmsEmpty']), ('Oaep', ALG['OAEP'], ['TpmsSchemeHash']), ('Null', ALG['NULL'], ['TpmsEmpty'])]),
    'TpmtEccScheme': ('u16', [('Rsapss', ALG['RSAPSS'], ['TpmsSchemeHash']), ('Rsassa', ALG['RSASSA'], ['TpmsSchemeHash']),
                              ('Ecdsa', ALG['ECDSA'], ['TpmsSchemeHash']), ('Ecdaa', ALG['ECDAA'], ['TpmsSchemeEcdaa']),
                              ('Sm2', ALG['SM2'], ['TpmsSchemeHash']), ('Ecschnorr', ALG['ECSCHNORR'], ['TpmsSchemeHash']),
                              ('Ecdh', ALG['ECDH'], ['TpmsSchemeHash']), ('Ecmqv', ALG['ECMQV'], ['TpmsSchemeHash']), ('Null', ALG['NULL'], ['TpmsEmpty'])]),
    'TpmtKdfScheme': ('u16', [('Mgf1', ALG['MGF1'], ['TpmsSchemeHash']), ('Kdf1Sp800_56a', ALG['KDF1_SP800_56A'], ['TpmsSchemeHash']),
                              ('Kdf2', ALG['KDF2'], ['TpmsSchemeHash']), ('Kdf1Sp800_108', ALG['KDF1_SP800_108'], ['TpmsSchemeHash']),
                              ('Null', ALG['NULL'], ['TpmsEmpty'])]),
    'TpmtAsymScheme': ('u16', [('Ecdh', ALG['ECDH'], ['TpmsSchemeHash']), ('Ecmqv', ALG['ECMQV'], ['TpmsSchemeHash']),
                               ('Sm2', ALG['SM2'], ['TpmsSchemeHash']), ('Rsapss', ALG['RSAPSS'], ['TpmsSchemeHash']),
                               ('Rsassa', ALG['RSASSA'], ['TpmsSchemeHash']), ('Ecdsa', ALG['ECDSA'], ['TpmsSchemeHash']),
                               ('Ecdaa', ALG['ECDAA'], ['TpmsSchemeEcdaa']), ('Ecschnorr', ALG['ECSCHNORR'], ['TpmsSchemeHash']),
                               ('Rsaes', ALG['RSAES'], ['TpmsEmpty']), ('Oaep', ALG['OAEP'], ['TpmsSchemeHash']), ('Null', ALG['NULL'], ['TpmsEmpty'])]),
    'PublicParmsAndId': ('u16', [('KeyedHash', ALG['KEYEDHASH'], ['TpmsKeyedHashParms', 'Tpm2bDigest']),
                                 ('Sym', ALG['SYMCIPHER'], ['TpmsSymCipherParms', 'Tpm2bDigest']),
                                 ('Rsa', ALG['RSA'], ['TpmsRsaParms', 'Tpm2bPublicKeyRsa']),
                                 ('Ecc', ALG['ECC'], ['TpmsEccParms', 'TpmsEccPoint'])]),
    'TpmuSensitiveComposite': ('u16', [('Rsa', ALG['RSA'], ['Tpm2bPrivateKeyRsa']), ('Ecc', ALG['ECC'], ['Tpm2bEccParameter']),
                                       ('Bits', ALG['KEYEDHASH'], ['Tpm2bSensitiveData']), ('Sym', ALG['SYMCIPHER'], ['Tpm2bSymKey']),
                                       ('Any', ALG['NULL'], ['Tpm2bPrivateVendorSpecific'])]),
    'TpmsCapabilityData': ('u32', [('Algorithms', CAP['ALGS'], ['TpmlAlgProperty']), ('Handles', CAP['HANDLES'], ['TpmlHandle']),
                                   ('Command', CAP['COMMANDS'], ['TpmlCca']), ('PpCommands', CAP['PP_COMMANDS'], ['TpmlCc']),
                                   ('AuditCommands', CAP['AUDIT_COMMANDS'], ['TpmlCc']), ('AssignedPcr', CAP['PCRS'], ['TpmlPcrSelection']),
                                   ('TpmProperties', CAP['TPM_PROPERTIES'], ['TpmlTaggedTpmProperty']),
                                   ('PcrProperties', CAP['PCR_PROPERTIES'], ['TpmlTaggedPcrProperty']),
                                   ('EccCurves', CAP['ECC_CURVES'], ['TpmlEccCurve']), ('AuthPolicies', CAP['AUTH_POLICIES'], ['TpmlTaggedPolicy'])]),
}

# counted lists offering new/add/count/accessor, by accessor name (== list member)
TPML_API = ['TpmlPcrSelection', 'TpmlAlgProperty', 'TpmlHandle', 'TpmlCc', 'TpmlTaggedTpmProperty',
            'TpmlTaggedPcrProperty', 'TpmlEccCurve', 'TpmlTaggedPolicy', 'TpmlDigest']

# Part 3: command codes and parameter areas
COMMANDS = {'StartupCmd': (0x144, '()'), 'GetRandomCmd': (0x17B, 'GetRandomResp'),
            'PcrReadCmd': (0x17E, 'PcrReadResp'), 'GetCapabilityCmd': (0x17A, 'GetCapabilityResp')}


def order(only=None):
    """all composite type names (or those `only` needs), members first"""
    done, out = set(), []

    def deps(t):
        if t in NEWTYPES:
            return [NEWTYPES[t]]
        if t in STRUCTS:
            r = []
            for m in STRUCTS[t]:
                if isinstance(m, Sel):
                    continue
                ty = m[1]
                r.append(ty.elem if isinstance(ty, L) else ty.ty if isinstance(ty, Var) else ty)
            return r
        if t in ENUMS:
            return [x for _, _, fs in ENUMS[t][1] for x in fs]
        return []

    def go(t):
        if t in done:
            return
        done.add(t)
        for d in deps(t):
            go(d)
        if t in NEWTYPES or t in STRUCTS or t in ENUMS or t in TPM2B:
            out.append(t)
    for t in only or list(NEWTYPES) + list(TPM2B) + list(STRUCTS) + list(ENUMS):
        go(t)
    return out


def use_shapes():
    """replaces the tables by those of spec/shapes.py (types a user of the derive macros may define)"""
    import shapes
    for d in (NEWTYPES, TPM2B_HOLDS, TPM2B_STRUCT, STRUCTS, ENUMS, TPM2B, CLIENT_STRUCTS):
        d.clear()
    TPML_API.clear()
    STRUCTS.update(shapes.STRUCTS)
    ENUMS.update(shapes.ENUMS)
    TPM2B.update({t: None if c is None else min(c, 65535) for t, c in shapes.TPM2B.items()})
    TPM2B_STRUCT.update(shapes.TPM2B_STRUCT)
    TPM2B_HOLDS.update({t: h for t, h in shapes.TPM2B_STRUCT.items() if t not in shapes.TOO_BIG})
