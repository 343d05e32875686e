#![allow(unused, non_upper_case_globals, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::control_flow::spec_from;
use core::convert::Infallible;
verus! {
//@include prelude.rs
use crate::shim::*;
//@group C12
// ---- assumed contracts of core ------------------------------------------------------------
pub assume_specification<T, const N: usize> [<[T]>::split_first_chunk_mut::<N>] (s: &mut [T]) -> (r: Option<(&mut [T; N], &mut [T])>)
    ensures r is Some <==> old(s)@.len() >= N,
        r is None ==> final(s)@ == old(s)@,
        r is Some ==> r->Some_0.0@ == old(s)@.take(N as int) && r->Some_0.1@ == old(s)@.skip(N as int) && final(s)@ == final(r->Some_0.0)@ + final(r->Some_0.1)@;
pub assume_specification<T, const N: usize> [<[T]>::split_first_chunk::<N>] (s: &[T]) -> (r: Option<(&[T; N], &[T])>)
    ensures r is Some <==> s@.len() >= N,
        r is Some ==> r->Some_0.0@ == s@.take(N as int) && r->Some_0.1@ == s@.skip(N as int);
pub trait MapErrInto<T, E> : Sized {
    spec fn mi_view(self) -> Result<T, E>;
    fn map_err_into<F: From<E>>(self) -> (r: Result<T, F>)
        ensures self.mi_view() is Ok ==> r == Ok::<T, F>(self.mi_view()->Ok_0), self.mi_view() is Err ==> r is Err;
}
impl<T, E> MapErrInto<T, E> for Result<T, E> {
    open spec fn mi_view(self) -> Result<T, E> { self }
    fn map_err_into<F: From<E>>(self) -> (r: Result<T, F>) { match self { Ok(t) => Ok(t), Err(e) => Err(F::from(e)) } }
}
// ---- errors ---------------------------------------------------------------------------------
//@def crate=tpm2 name=MarshalError
//@def crate=tpm2 name=UnmarshalError
//@def crate=tpm2 name=HashError
impl FromSpecImpl<HashError> for UnmarshalError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: HashError) -> UnmarshalError { UnmarshalError }
}
impl From<HashError> for UnmarshalError {
//@fn crate=tpm2 impl="From<HashError> for UnmarshalError" name=from
//@end
}
impl FromSpecImpl<Infallible> for UnmarshalError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: Infallible) -> UnmarshalError { UnmarshalError }
}
// (the body is `match value {}`, which Verus does not take)
impl From<Infallible> for UnmarshalError { #[verifier::external_body] fn from(value: Infallible) -> Self { match value {} } }
// ---- the hash algorithms --------------------------------------------------------------------
/// TPM 2.0 Part 2, 6.3: algorithm identifiers; FIPS 180-4, FIPS 202, GB/T 32905: digest sizes
pub open spec fn alg_id(h: TpmiAlgHash) -> u16 { match h { TpmiAlgHash::Sha1 => 0x4, TpmiAlgHash::Sha256 => 0xB, TpmiAlgHash::Sha384 => 0xC, TpmiAlgHash::Sha512 => 0xD,
    TpmiAlgHash::Sm3_256 => 0x12, TpmiAlgHash::Sha3_256 => 0x27, TpmiAlgHash::Sha3_384 => 0x28, TpmiAlgHash::Sha3_512 => 0x29 } }
pub open spec fn id_alg(v: u16) -> Option<TpmiAlgHash> { match v { 0x4 => Some(TpmiAlgHash::Sha1), 0xB => Some(TpmiAlgHash::Sha256), 0xC => Some(TpmiAlgHash::Sha384), 0xD => Some(TpmiAlgHash::Sha512),
    0x12 => Some(TpmiAlgHash::Sm3_256), 0x27 => Some(TpmiAlgHash::Sha3_256), 0x28 => Some(TpmiAlgHash::Sha3_384), 0x29 => Some(TpmiAlgHash::Sha3_512), _ => None } }
pub open spec fn dsize(h: TpmiAlgHash) -> nat { match h { TpmiAlgHash::Sha1 => 20, TpmiAlgHash::Sha256 => 32, TpmiAlgHash::Sha384 => 48, TpmiAlgHash::Sha512 => 64,
    TpmiAlgHash::Sm3_256 => 32, TpmiAlgHash::Sha3_256 => 32, TpmiAlgHash::Sha3_384 => 48, TpmiAlgHash::Sha3_512 => 64 } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=Alg
//@consts crate=tpm2 type=Alg
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@def crate=tpm2 name=TpmiAlgHash
use TpmiAlgHash::*;
impl TpmiAlgHash {
//@fn crate=tpm2 impl=TpmiAlgHash name=digest_size
//@ensures r == dsize(self)
//@end
}
/// every algorithm is there, larger digests first
pub open spec fn by_size_desc(s: Seq<TpmiAlgHash>) -> bool {
    (forall|h: TpmiAlgHash| #[trigger] s.contains(h)) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> dsize(s[i]) >= dsize(s[j]))
}
//@slice crate=tpm2 type=TpmiAlgHash name=BY_SIZE_DESC ## by_size_desc(r@)
impl FromSpecImpl<TpmiAlgHash> for Alg {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(h: TpmiAlgHash) -> Alg { Alg(alg_id(h)) }
}
impl From<TpmiAlgHash> for Alg {
//@fn crate=tpm2 impl="From<TpmiAlgHash> for Alg" name=from
//@end
}
impl TryFromSpecImpl<Alg> for TpmiAlgHash {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(a: Alg) -> Result<Self, Self::Error> { match id_alg(a.0) { Some(h) => Ok(h), None => Err(HashError) } }
}
impl TryFrom<Alg> for TpmiAlgHash {
    type Error = HashError;
//@fn crate=tpm2 impl="TryFrom<Alg> for TpmiAlgHash" name=try_from
//@end
}
// ---- the traits -----------------------------------------------------------------------------
pub trait Limits: Copy {
    spec fn supports(self, h: TpmiAlgHash) -> bool;
    /// the implementation decides, but consistently
    fn supports_hash(self, h: TpmiAlgHash) -> (r: bool) ensures r == self.supports(h);
//@fn crate=tpm2 impl="trait Limits" name=max_digest_size
//@ensures forall|h: TpmiAlgHash| #[trigger] self.supports(h) ==> dsize(h) <= r,
//@    r != 0 ==> exists|h: TpmiAlgHash| #[trigger] self.supports(h) && dsize(h) == r
//@loop 0 ## invariant i__0 <= s__0@.len(), by_size_desc(s__0@), forall|j: int| 0 <= j < i__0 ==> !self.supports(#[trigger] s__0@[j]), forall|h: TpmiAlgHash| #[trigger] self.supports(h) ==> s__0@.contains(h) decreases s__0@.len() - i__0
//@end
}
pub trait Marshal: Sized {
    spec fn enc(&self) -> Seq<u8>;
    spec fn ok<L: Limits>(&self, l: L) -> bool;
    fn marshal<'dst, L0: Limits>(&self, limits: L0, buf: &'dst mut [u8]) -> (r: Result<&'dst mut [u8], MarshalError>)
        ensures r is Ok <==> self.ok(limits) && self.enc().len() <= old(buf)@.len(),
            r is Ok ==> r->Ok_0@ == old(buf)@.skip(self.enc().len() as int) && final(buf)@ == self.enc() + final(r->Ok_0)@,
            r is Err ==> final(buf)@.len() == old(buf)@.len();
    fn marshaled_size(&self) -> (r: usize) ensures r == self.enc().len();
    fn marshaled_size_max<L0: Limits>(limits: L0) -> (r: usize) ensures forall|x: Self| #[trigger] x.ok(limits) ==> x.enc().len() <= r;
}
pub trait Unmarshal<'src>: Sized {
    /// self is what exactly these bytes encode, under these limits
    spec fn decodes<L: Limits>(self, l: L, s: Seq<u8>) -> bool;
    spec fn accepts<L: Limits>(l: L, s: Seq<u8>) -> bool;
    fn unmarshal<L0: Limits>(&mut self, limits: L0, buf: &'src [u8]) -> (r: Result<&'src [u8], UnmarshalError>)
        ensures r is Ok <==> Self::accepts(limits, buf@),
            r is Ok ==> r->Ok_0@.len() <= buf@.len() && r->Ok_0@ == buf@.skip(buf@.len() - r->Ok_0@.len()) && final(self).decodes(limits, buf@.take(buf@.len() - r->Ok_0@.len()));
}
pub trait ByteArr { spec fn b(&self) -> Seq<u8>; spec fn n() -> nat; }
impl<const N: usize> ByteArr for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ } open spec fn n() -> nat { N as nat } }
pub trait MarshalArray: Sized {
    const SIZE: usize;
    type Array: ByteArr;
    spec fn bytes(&self) -> Seq<u8>;
    proof fn sizes(&self) ensures self.bytes().len() == Self::SIZE, Self::SIZE == Self::Array::n();
    fn marshal_array(&self, arr: &mut Self::Array) ensures final(arr).b() == self.bytes();
}
pub trait UnmarshalArray: Sized + MarshalArray where UnmarshalError: From<Self::Error> {
    type Error;
    spec fn value(s: Seq<u8>) -> Option<Self>;
    proof fn inverse(&self) ensures Self::value(self.bytes()) == Some(*self);
    proof fn inverse2(s: Seq<u8>) requires s.len() == Self::Array::n() ensures Self::value(s) is Some ==> Self::value(s)->Some_0.bytes() == s;
    fn unmarshal_array(arr: &Self::Array) -> (r: Result<Self, Self::Error>)
        ensures r is Ok <==> Self::value(arr.b()) is Some, r is Ok ==> r->Ok_0 == Self::value(arr.b())->Some_0;
}
// ---- the code ---------------------------------------------------------------------------------
impl<T: MarshalArray<Array = [u8; N]>, const N: usize> Marshal for T {
    open spec fn enc(&self) -> Seq<u8> { self.bytes() }
    open spec fn ok<L: Limits>(&self, l: L) -> bool { true }
//@fn crate=tpm2 impl="Marshal for T" name=marshal
//@pre proof { self.sizes(); }
//@end
//@fn crate=tpm2 impl="Marshal for T" name=marshaled_size
//@pre proof { self.sizes(); }
//@end
//@fn crate=tpm2 impl="Marshal for T" name=marshaled_size_max
//@pre proof { assert forall|x: Self| x.enc().len() == Self::SIZE by { x.sizes(); } }
//@end
}
impl<'src, T: UnmarshalArray<Array = [u8; N]>, const N: usize> Unmarshal<'src> for T where UnmarshalError: From<T::Error> {
    open spec fn decodes<L: Limits>(self, l: L, s: Seq<u8>) -> bool { s.len() == N && T::value(s) == Some(self) }
    open spec fn accepts<L: Limits>(l: L, s: Seq<u8>) -> bool { s.len() >= N && T::value(s.take(N as int)) is Some }
//@fn crate=tpm2 impl="Unmarshal<'src> for T" name=unmarshal
//@end
}
impl MarshalArray for u8 {
    const SIZE: usize = 1;
    type Array = [u8; 1];
    open spec fn bytes(&self) -> Seq<u8> { (*self).be() }
    proof fn sizes(&self) { (*self).be_rt(); }
//@fn crate=tpm2 impl="MarshalArray for u8" name=marshal_array
//@end
}
impl UnmarshalArray for u8 {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(u8::be_inv(s)) }
    proof fn inverse(&self) { (*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { u8::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for u8" name=unmarshal_array
//@end
}
impl MarshalArray for u16 {
    const SIZE: usize = 2;
    type Array = [u8; 2];
    open spec fn bytes(&self) -> Seq<u8> { (*self).be() }
    proof fn sizes(&self) { (*self).be_rt(); }
//@fn crate=tpm2 impl="MarshalArray for u16" name=marshal_array
//@end
}
impl UnmarshalArray for u16 {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(u16::be_inv(s)) }
    proof fn inverse(&self) { (*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { u16::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for u16" name=unmarshal_array
//@end
}
impl MarshalArray for u32 {
    const SIZE: usize = 4;
    type Array = [u8; 4];
    open spec fn bytes(&self) -> Seq<u8> { (*self).be() }
    proof fn sizes(&self) { (*self).be_rt(); }
//@fn crate=tpm2 impl="MarshalArray for u32" name=marshal_array
//@end
}
impl UnmarshalArray for u32 {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(u32::be_inv(s)) }
    proof fn inverse(&self) { (*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { u32::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for u32" name=unmarshal_array
//@end
}
impl MarshalArray for u64 {
    const SIZE: usize = 8;
    type Array = [u8; 8];
    open spec fn bytes(&self) -> Seq<u8> { (*self).be() }
    proof fn sizes(&self) { (*self).be_rt(); }
//@fn crate=tpm2 impl="MarshalArray for u64" name=marshal_array
//@end
}
impl UnmarshalArray for u64 {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(u64::be_inv(s)) }
    proof fn inverse(&self) { (*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { u64::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for u64" name=unmarshal_array
//@end
}
impl MarshalArray for i8 {
    const SIZE: usize = 1;
    type Array = [u8; 1];
    open spec fn bytes(&self) -> Seq<u8> { (*self).be() }
    proof fn sizes(&self) { (*self).be_rt(); }
//@fn crate=tpm2 impl="MarshalArray for i8" name=marshal_array
//@end
}
impl UnmarshalArray for i8 {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(i8::be_inv(s)) }
    proof fn inverse(&self) { (*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { i8::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for i8" name=unmarshal_array
//@end
}
impl MarshalArray for i16 {
    const SIZE: usize = 2;
    type Array = [u8; 2];
    open spec fn bytes(&self) -> Seq<u8> { (*self).be() }
    proof fn sizes(&self) { (*self).be_rt(); }
//@fn crate=tpm2 impl="MarshalArray for i16" name=marshal_array
//@end
}
impl UnmarshalArray for i16 {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(i16::be_inv(s)) }
    proof fn inverse(&self) { (*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { i16::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for i16" name=unmarshal_array
//@end
}
impl MarshalArray for i32 {
    const SIZE: usize = 4;
    type Array = [u8; 4];
    open spec fn bytes(&self) -> Seq<u8> { (*self).be() }
    proof fn sizes(&self) { (*self).be_rt(); }
//@fn crate=tpm2 impl="MarshalArray for i32" name=marshal_array
//@end
}
impl UnmarshalArray for i32 {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(i32::be_inv(s)) }
    proof fn inverse(&self) { (*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { i32::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for i32" name=unmarshal_array
//@end
}
impl MarshalArray for i64 {
    const SIZE: usize = 8;
    type Array = [u8; 8];
    open spec fn bytes(&self) -> Seq<u8> { (*self).be() }
    proof fn sizes(&self) { (*self).be_rt(); }
//@fn crate=tpm2 impl="MarshalArray for i64" name=marshal_array
//@end
}
impl UnmarshalArray for i64 {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(i64::be_inv(s)) }
    proof fn inverse(&self) { (*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { i64::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for i64" name=unmarshal_array
//@end
}

impl<const N: usize> MarshalArray for [u8; N] {
    const SIZE: usize = N;
    type Array = [u8; N];
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    proof fn sizes(&self) {}
//@fn crate=tpm2 impl="MarshalArray for [u8;N]" name=marshal_array
//@end
}
impl MarshalArray for Alg {
    const SIZE: usize = 2;
    type Array = [u8; 2];
    open spec fn bytes(&self) -> Seq<u8> { self.0.be() }
    proof fn sizes(&self) {}
//@fn crate=tpm2 impl="MarshalArray for Alg" name=marshal_array
//@end
}
impl UnmarshalArray for Alg {
    type Error = Infallible;
    open spec fn value(s: Seq<u8>) -> Option<Self> { Some(Alg(u16::be_inv(s))) }
    proof fn inverse(&self) { self.0.be_rt(); }
    proof fn inverse2(s: Seq<u8>) { u16::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for Alg" name=unmarshal_array
//@end
}
impl MarshalArray for TpmiAlgHash {
    const SIZE: usize = 2;
    type Array = [u8; 2];
    open spec fn bytes(&self) -> Seq<u8> { alg_id(*self).be() }
    proof fn sizes(&self) {}
//@fn crate=tpm2 impl="MarshalArray for TpmiAlgHash" name=marshal_array
//@end
}
impl UnmarshalArray for TpmiAlgHash {
    type Error = UnmarshalError;
    open spec fn value(s: Seq<u8>) -> Option<Self> { id_alg(u16::be_inv(s)) }
    proof fn inverse(&self) { alg_id(*self).be_rt(); }
    proof fn inverse2(s: Seq<u8>) { u16::be_rt2(s); }
//@fn crate=tpm2 impl="UnmarshalArray for TpmiAlgHash" name=unmarshal_array
//@end
}
#[derive(Clone, Copy)]
//@def crate=tpm2 name=TpmtHa
impl<'a> TpmtHa<'a> {
    pub open spec fn alg(self) -> TpmiAlgHash { match self { TpmtHa::Sha1(_) => Sha1, TpmtHa::Sha256(_) => Sha256, TpmtHa::Sha384(_) => Sha384, TpmtHa::Sha512(_) => Sha512 } }
    pub open spec fn dig(self) -> Seq<u8> { match self { TpmtHa::Sha1(d) => d@, TpmtHa::Sha256(d) => d@, TpmtHa::Sha384(d) => d@, TpmtHa::Sha512(d) => d@ } }
//@fn crate=tpm2 impl="TpmtHa<'a>" name=hash_alg
//@ensures r == self.alg()
//@end
//@fn crate=tpm2 impl="TpmtHa<'a>" name=digest
//@ensures r@ == self.dig(), r@.len() == dsize(self.alg())
//@end
}
pub proof fn pieces(b: Seq<u8>)
    ensures b.len() >= 2 ==> u16::be_inv(b.take(2)).be() == b.take(2),
        forall|n: int| 0 <= n && 2 + n <= b.len() ==> #[trigger] b.skip(2).take(n) == b.subrange(2, 2 + n) && b.skip(2).skip(n) == b.skip(2 + n) && b.take(2 + n) == b.take(2) + b.skip(2).take(n)
{
    if b.len() >= 2 {
        u16::be_rt2(b.take(2));
        assert forall|n: int| 0 <= n && 2 + n <= b.len() implies #[trigger] b.skip(2).take(n) == b.subrange(2, 2 + n) && b.skip(2).skip(n) == b.skip(2 + n) && b.take(2 + n) == b.take(2) + b.skip(2).take(n) by {
            assert(b.skip(2).take(n) =~= b.subrange(2, 2 + n));
            assert(b.skip(2).skip(n) =~= b.skip(2 + n));
            assert(b.take(2 + n) =~= b.take(2) + b.skip(2).take(n));
        }
    }
}
pub open spec fn is_ha(h: TpmiAlgHash) -> bool { h is Sha1 || h is Sha256 || h is Sha384 || h is Sha512 }
impl<'a> Marshal for TpmtHa<'a> {
    open spec fn enc(&self) -> Seq<u8> { alg_id(self.alg()).be() + self.dig() }
    open spec fn ok<L: Limits>(&self, l: L) -> bool { l.supports(self.alg()) }
//@fn crate=tpm2 impl="Marshal for TpmtHa<'a>" name=marshal
//@end
//@fn crate=tpm2 impl="Marshal for TpmtHa<'a>" name=marshaled_size
//@end
//@fn crate=tpm2 impl="Marshal for TpmtHa<'a>" name=marshaled_size_max
//@end
}
impl<'a, 'src: 'a> Unmarshal<'src> for TpmtHa<'a> {
    open spec fn decodes<L: Limits>(self, l: L, s: Seq<u8>) -> bool { l.supports(self.alg()) && s == self.enc() }
    open spec fn accepts<L: Limits>(l: L, s: Seq<u8>) -> bool {
        s.len() >= 2 && match id_alg(u16::be_inv(s.take(2))) { Some(h) => is_ha(h) && l.supports(h) && s.len() >= 2 + dsize(h), None => false } }
//@fn crate=tpm2 impl="Unmarshal<'src> for TpmtHa<'a>" name=unmarshal
//@pre proof { pieces(buf@); }
//@end
}
/// what was written is read back, whatever follows; what was read is written again
pub proof fn ha_round_trip<'a, L: Limits>(l: L, x: TpmtHa<'a>, rest: Seq<u8>)
    ensures x.ok(l) ==> <TpmtHa as Unmarshal>::accepts(l, x.enc() + rest) && x.decodes(l, x.enc()),
{
    alg_id(x.alg()).be_rt();
    assert((x.enc() + rest).take(2) =~= alg_id(x.alg()).be());
}
pub proof fn ha_unique<'a, L: Limits>(l: L, x: TpmtHa<'a>, y: TpmtHa<'a>, s: Seq<u8>)
    requires x.decodes(l, s), y.decodes(l, s) ensures x.alg() == y.alg(), x.dig() == y.dig()
{
    alg_id(x.alg()).be_rt(); alg_id(y.alg()).be_rt();
    assert(s.take(2) =~= alg_id(x.alg()).be()); assert(s.take(2) =~= alg_id(y.alg()).be());
    assert(s.skip(2) =~= x.dig()); assert(s.skip(2) =~= y.dig());
}
}
fn main() {}
