// generated by tools/nativegen.py
pub fn probe() -> String {
    use shapes::*; use tpm2_rs_base::Tpm2bSimple;
    let mut s = String::from("{\"size_of\": {");
    let mut first = true;
    let mut put = |s: &mut String, n: &str, v: usize| { if !first { s.push_str(", "); } first = false; s.push_str(&format!("\"{n}\": {v}")); };
    put(&mut s, "ShB0", core::mem::size_of::<ShB0>());
    put(&mut s, "ShB1", core::mem::size_of::<ShB1>());
    put(&mut s, "ShB7", core::mem::size_of::<ShB7>());
    put(&mut s, "ShBMax", core::mem::size_of::<ShBMax>());
    put(&mut s, "ShBHuge", core::mem::size_of::<ShBHuge>());
    put(&mut s, "ShHTwo", core::mem::size_of::<ShHTwo>());
    put(&mut s, "ShHDeep", core::mem::size_of::<ShHDeep>());
    put(&mut s, "ShHU", core::mem::size_of::<ShHU>());
    put(&mut s, "ShHBig", core::mem::size_of::<ShHBig>());
    put(&mut s, "ShOne", core::mem::size_of::<ShOne>());
    put(&mut s, "ShInts", core::mem::size_of::<ShInts>());
    put(&mut s, "ShUnit", core::mem::size_of::<ShUnit>());
    put(&mut s, "ShWrap", core::mem::size_of::<ShWrap>());
    put(&mut s, "ShWrapI", core::mem::size_of::<ShWrapI>());
    put(&mut s, "ShTup", core::mem::size_of::<ShTup>());
    put(&mut s, "ShTupArr", core::mem::size_of::<ShTupArr>());
    put(&mut s, "ShTup12", core::mem::size_of::<ShTup12>());
    put(&mut s, "ShBytes", core::mem::size_of::<ShBytes>());
    put(&mut s, "ShWords", core::mem::size_of::<ShWords>());
    put(&mut s, "ShFix2", core::mem::size_of::<ShFix2>());
    put(&mut s, "ShFixBig", core::mem::size_of::<ShFixBig>());
    put(&mut s, "ShCnt8", core::mem::size_of::<ShCnt8>());
    put(&mut s, "ShCnt16", core::mem::size_of::<ShCnt16>());
    put(&mut s, "ShCnt32", core::mem::size_of::<ShCnt32>());
    put(&mut s, "ShCnt64", core::mem::size_of::<ShCnt64>());
    put(&mut s, "ShCntWide", core::mem::size_of::<ShCntWide>());
    put(&mut s, "ShCnt0", core::mem::size_of::<ShCnt0>());
    put(&mut s, "ShCnt17", core::mem::size_of::<ShCnt17>());
    put(&mut s, "ShTwo", core::mem::size_of::<ShTwo>());
    put(&mut s, "ShTwoAdj", core::mem::size_of::<ShTwoAdj>());
    put(&mut s, "ShShare", core::mem::size_of::<ShShare>());
    put(&mut s, "ShShareTight", core::mem::size_of::<ShShareTight>());
    put(&mut s, "ShMix", core::mem::size_of::<ShMix>());
    put(&mut s, "ShNest", core::mem::size_of::<ShNest>());
    put(&mut s, "ShDeep", core::mem::size_of::<ShDeep>());
    put(&mut s, "ShNames", core::mem::size_of::<ShNames>());
    put(&mut s, "ShLong", core::mem::size_of::<ShLong>());
    put(&mut s, "ShSized", core::mem::size_of::<ShSized>());
    put(&mut s, "ShBig", core::mem::size_of::<ShBig>());
    put(&mut s, "ShU16", core::mem::size_of::<ShU16>());
    put(&mut s, "ShU8", core::mem::size_of::<ShU8>());
    put(&mut s, "ShWithU", core::mem::size_of::<ShWithU>());
    put(&mut s, "ShU32", core::mem::size_of::<ShU32>());
    put(&mut s, "ShU64", core::mem::size_of::<ShU64>());
    put(&mut s, "ShUOne", core::mem::size_of::<ShUOne>());
    s.push_str("}, \"cap\": {");
    let mut first = true;
    let mut put = |s: &mut String, n: &str, v: usize| { if !first { s.push_str(", "); } first = false; s.push_str(&format!("\"{n}\": {v}")); };
    put(&mut s, "ShB0", <ShB0 as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "ShB1", <ShB1 as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "ShB7", <ShB7 as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "ShBMax", <ShBMax as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "ShBHuge", <ShBHuge as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "ShHTwo", <ShHTwo as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "ShHDeep", <ShHDeep as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "ShHU", <ShHU as Tpm2bSimple>::MAX_BUFFER_SIZE);
    put(&mut s, "ShHBig", <ShHBig as Tpm2bSimple>::MAX_BUFFER_SIZE);
    s.push_str("}}");
    s
}
