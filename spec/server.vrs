#![allow(unused, non_upper_case_globals, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::control_flow::spec_from;
verus! {
//@include prelude.rs
use crate::shim::*;

// ---- assumed contracts of core ------------------------------------------------------------
pub assume_specification<T, E, F> [core::result::Result::<T, E>::or] (a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
    ensures r == (match a { Ok(t) => Ok::<T, F>(t), Err(_) => b });
pub trait LeBytes<const N: usize>: Sized {
    spec fn le(self) -> Seq<u8>;
    spec fn le_inv(s: Seq<u8>) -> Self;
    fn to_le_bytes_(self) -> (r: [u8; N]) ensures r@ == self.le();
    fn from_le_bytes_(x: [u8; N]) -> (r: Self) ensures r == Self::le_inv(x@);
}
impl LeBytes<4> for u32 {
    open spec fn le(self) -> Seq<u8> { seq![self as u8, (self >> 8) as u8, (self >> 16) as u8, (self >> 24) as u8] }
    open spec fn le_inv(s: Seq<u8>) -> u32 { ((s[3] as u32) << 24) | ((s[2] as u32) << 16) | ((s[1] as u32) << 8) | (s[0] as u32) }
    #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le_bytes_(x: [u8; 4]) -> (r: u32) { u32::from_le_bytes(x) }
}
impl LeBytes<8> for u64 {
    open spec fn le(self) -> Seq<u8> { (self as u32).le() + ((self >> 32) as u32).le() }
    open spec fn le_inv(s: Seq<u8>) -> u64 { ((u32::le_inv(s.skip(4)) as u64) << 32) | (u32::le_inv(s.take(4)) as u64) }
    #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le_bytes_(x: [u8; 8]) -> (r: u64) { u64::from_le_bytes(x) }
}
// Result::map_err with a constant closure / with Into::into
pub trait MapErr<T, E>: Sized {
    spec fn me_view(self) -> Result<T, E>;
    fn map_err_to<F>(self, f: F) -> (r: Result<T, F>) ensures r == (match self.me_view() { Ok(t) => Ok::<T, F>(t), Err(_) => Err(f) });
}
impl<T, E> MapErr<T, E> for Result<T, E> {
    open spec fn me_view(self) -> Result<T, E> { self }
    fn map_err_to<F>(self, f: F) -> (r: Result<T, F>) { match self { Ok(t) => Ok(t), Err(_) => Err(f) } }
}
pub trait MapErrInto<T, E> : Sized {
    spec fn mi_view(self) -> Result<T, E>;
    fn map_err_into<F: From<E>>(self) -> (r: Result<T, F>)
        ensures self.mi_view() is Ok ==> r == Ok::<T, F>(self.mi_view()->Ok_0),
            self.mi_view() is Err ==> r is Err && (F::obeys_from_spec() ==> r == Err::<T, F>(F::from_spec(self.mi_view()->Err_0)));
}
impl<T, E> MapErrInto<T, E> for Result<T, E> {
    open spec fn mi_view(self) -> Result<T, E> { self }
    fn map_err_into<F: From<E>>(self) -> (r: Result<T, F>) { match self { Ok(t) => Ok(t), Err(e) => Err(F::from(e)) } }
}
pub mod ax {
use super::*;
pub broadcast axiom fn question_mark_from<S, T: From<S>>(e: S, r: T)
    ensures #[trigger] spec_from::<T, S>(e, r) && T::obeys_from_spec() ==> r == T::from_spec(e);
}
broadcast use ax::question_mark_from;
// `T::default()` and AsMut<[u8]> of the DRBG's entropy and nonce types
pub trait Bytes: Sized {
    spec fn dflt() -> Self;
    spec fn view_bytes(&self) -> Seq<u8>;
    spec fn with_bytes(&self, b: Seq<u8>) -> Self;
    fn default() -> (r: Self) ensures r == Self::dflt();
    fn as_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).view_bytes(), *final(self) == old(self).with_bytes(final(r)@);
}

//@group C16
// ---- values of the code -------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TpmRcError(pub u32);
//@consts crate=tpm2 type=TpmRcError
pub broadcast axiom fn slice_len_is_usize(s: &[u8]) ensures #[trigger] s@.len() <= usize::MAX;
impl TpmRcError {
    pub fn get(self) -> (r: u32) ensures r == self.0 { self.0 }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TpmCc(pub u32);
//@consts crate=base type=TpmCc
//@def crate=impl name=ServerError
//@def crate=impl name=DrbgError
//@def crate=impl name=ReadOutOfBounds
//@def crate=impl name=WriteOutOfBounds
impl FromSpecImpl<DrbgError> for ServerError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DrbgError) -> ServerError { ServerError::DrbgError }
}
impl From<DrbgError> for ServerError {
//@fn crate=impl impl="From<DrbgError> for ServerError" name=from
//@end
}

//@group C17
// ---- buffers ------------------------------------------------------------------------------
pub trait Callback: Sized {
    #[verifier::prophetic]
    spec fn post(self, b: Seq<u8>, a: Seq<u8>) -> bool;
    /// holds of the captured state if the callback is dropped without having been called
    #[verifier::prophetic]
    spec fn unused(self) -> bool;
    proof fn resolved(self) ensures has_resolved(self) ==> self.unused();
    fn call(self, b: &mut [u8]) ensures final(b)@.len() == old(b)@.len(), self.post(old(b)@, final(b)@);
}
pub broadcast proof fn callback_dropped<C: Callback>(c: C) ensures #[trigger] has_resolved(c) ==> c.unused() { c.resolved() }
pub trait TpmReadBuffer {
    spec fn rd(&self) -> Seq<u8>;
    spec fn inv(&self) -> bool;
    proof fn bounds(&self) ensures self.inv() ==> self.rd().len() <= usize::MAX;
    fn len(&self) -> (r: usize) requires self.inv() ensures r == self.rd().len();
//@fn crate=impl impl="trait TpmReadBuffer" name=is_empty
//@requires self.inv()
//@ensures r == (self.rd().len() == 0)
//@end
    fn read_into(&self, offset: usize, out: &mut [u8]) -> (r: Result<(), ReadOutOfBounds>)
        requires self.inv()
        ensures r is Ok <==> offset + old(out)@.len() <= self.rd().len(),
            final(out)@.len() == old(out)@.len(),
            r is Ok ==> final(out)@ == self.rd().subrange(offset as int, offset + old(out)@.len()),
            r is Err ==> final(out)@ == old(out)@;
//@fn crate=impl impl="trait TpmReadBuffer" name=read_be_u16
//@requires self.inv()
//@ensures r is Ok <==> offset + 2 <= self.rd().len(),
//@    r is Ok ==> r->Ok_0 == u16::be_inv(self.rd().subrange(offset as int, offset + 2))
//@end
//@fn crate=impl impl="trait TpmReadBuffer" name=read_be_u32
//@requires self.inv()
//@ensures r is Ok <==> offset + 4 <= self.rd().len(),
//@    r is Ok ==> r->Ok_0 == u32::be_inv(self.rd().subrange(offset as int, offset + 4))
//@end
}
pub open spec fn cut(b: Seq<u8>, off: int, n: int) -> Seq<u8> { b.subrange(off, off + n) }
pub open spec fn put(b: Seq<u8>, off: int, d: Seq<u8>) -> Seq<u8> { b.take(off) + d + b.skip(off + d.len()) }
pub trait TpmWriteBuffer: TpmReadBuffer {
    fn write(&mut self, write_offset: usize, data: &[u8]) -> (r: Result<(), WriteOutOfBounds>)
        requires old(self).inv()
        ensures r is Ok <==> write_offset + data@.len() <= old(self).rd().len(), final(self).inv(),
            r is Ok ==> final(self).rd() == put(old(self).rd(), write_offset as int, data@),
            r is Err ==> final(self).rd() == old(self).rd();
    fn write_callback<Cb0: Callback>(&mut self, write_offset: usize, size: usize, callback: Cb0) -> (r: Result<(), WriteOutOfBounds>)
        requires old(self).inv()
        ensures r is Ok <==> write_offset + size <= old(self).rd().len(), final(self).inv(),
            final(self).rd().len() == old(self).rd().len(),
            r is Ok ==> callback.post(cut(old(self).rd(), write_offset as int, size as int), cut(final(self).rd(), write_offset as int, size as int))
                && final(self).rd() == put(old(self).rd(), write_offset as int, cut(final(self).rd(), write_offset as int, size as int)),
            r is Err ==> final(self).rd() == old(self).rd() && callback.unused();
}
impl TpmReadBuffer for [u8] {
    open spec fn rd(&self) -> Seq<u8> { self@ }
    open spec fn inv(&self) -> bool { true }
    proof fn bounds(&self) { slice_len_is_usize(self); }
//@fn crate=impl impl="TpmReadBuffer for [u8]" name=len
//@end
//@fn crate=impl impl="TpmReadBuffer for [u8]" name=read_into
//@pre proof { slice_len_is_usize(self); }
//@end
}
impl TpmWriteBuffer for [u8] {
//@fn crate=impl impl="TpmWriteBuffer for [u8]" name=write
//@pre proof { slice_len_is_usize(self); }
//@end
//@fn crate=impl impl="TpmWriteBuffer for [u8]" name=write_callback
//@pre broadcast use callback_dropped; proof { slice_len_is_usize(self); }
//@end
}
pub trait TpmBuffers: Sized {
    type Request: TpmReadBuffer + ?Sized;
    type Response: TpmWriteBuffer + ?Sized;
    /// the request bytes
    spec fn req(&self) -> Seq<u8>;
    spec fn req_inv(&self) -> bool;
    /// the current contents of the response buffer
    spec fn rsp(&self) -> Seq<u8>;
    spec fn rsp_inv(&self) -> bool;
    /// the contents of the response buffer when it is given back to the caller
    #[verifier::prophetic]
    spec fn end(self) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn end_inv(self) -> bool;
    proof fn resolved(self) ensures has_resolved(self) ==> self.end() == self.rsp() && self.end_inv() == self.rsp_inv();
    proof fn buf_bounds(&self) ensures self.req_inv() ==> self.req().len() <= usize::MAX, self.rsp_inv() ==> self.rsp().len() <= usize::MAX;
    fn get_request(&self) -> (r: &Self::Request) requires self.req_inv() ensures r.rd() == self.req(), r.inv();
    fn get_response(&mut self) -> (r: &mut Self::Response)
        requires old(self).rsp_inv()
        ensures r.rd() == old(self).rsp(), r.inv(), final(self).rsp() == final(r).rd(), final(self).rsp_inv() == final(r).inv(),
            final(self).end() == old(self).end(), final(self).end_inv() == old(self).end_inv();
}
pub broadcast proof fn buffers_given_back<B: TpmBuffers>(b: B)
    ensures #[trigger] has_resolved(b) ==> b.end() == b.rsp() && b.end_inv() == b.rsp_inv() { b.resolved() }

//@def crate=impl name=InOutBuffer
pub open spec fn minn(a: int, b: int) -> int { if a < b { a } else { b } }
impl<'a, W: TpmWriteBuffer + ?Sized> InOutBuffer<'a, W> {
//@fn crate=impl impl="InOutBuffer<'a,W>" name=new
//@requires old(buffer).inv()
//@ensures r.req() == old(buffer).rd().take(minn(request_size as int, old(buffer).rd().len() as int)), r.req_inv(), r.rsp() == old(buffer).rd(), r.rsp_inv(),
//@    r.end() == final(buffer).rd(), r.end_inv() == final(buffer).inv()
//@end
}
impl<W: TpmWriteBuffer + ?Sized> TpmBuffers for InOutBuffer<'_, W> {
    type Request = Self;
    type Response = W;
    open spec fn req(&self) -> Seq<u8> { self.rd() }
    open spec fn req_inv(&self) -> bool { self.inv() }
    open spec fn rsp(&self) -> Seq<u8> { self.buffer.rd() }
    open spec fn rsp_inv(&self) -> bool { self.buffer.inv() }
    #[verifier::prophetic]
    open spec fn end(self) -> Seq<u8> { final(self.buffer).rd() }
    #[verifier::prophetic]
    open spec fn end_inv(self) -> bool { final(self.buffer).inv() }
    proof fn resolved(self) { assert(has_resolved(self) ==> has_resolved(self.buffer)); }
    proof fn buf_bounds(&self) { self.bounds(); self.buffer.bounds(); }
//@fn crate=impl impl="TpmBuffers for InOutBuffer<'_,W>" name=get_request
//@end
//@fn crate=impl impl="TpmBuffers for InOutBuffer<'_,W>" name=get_response
//@end
}
impl<W: TpmWriteBuffer + ?Sized> TpmReadBuffer for InOutBuffer<'_, W> {
    open spec fn rd(&self) -> Seq<u8> { self.buffer.rd().take(self.len as int) }
    open spec fn inv(&self) -> bool { self.buffer.inv() && self.len <= self.buffer.rd().len() }
    proof fn bounds(&self) { }
//@fn crate=impl impl="TpmReadBuffer for InOutBuffer<'_,W>" name=len
//@end
//@fn crate=impl impl="TpmReadBuffer for InOutBuffer<'_,W>" name=read_into
//@pre proof { self.buffer.bounds(); }
//@end
}

//@def crate=impl name=SeparateBuffers
impl<'a, R: TpmReadBuffer + ?Sized, W: TpmWriteBuffer + ?Sized> SeparateBuffers<'a, R, W> {
//@fn crate=impl impl="SeparateBuffers<'a,R,W>" name=new
//@requires reader.inv(), old(writer).inv()
//@ensures r.req() == reader.rd(), r.req_inv(), r.rsp() == old(writer).rd(), r.rsp_inv(), r.end() == final(writer).rd(), r.end_inv() == final(writer).inv()
//@end
}
impl<R: TpmReadBuffer + ?Sized, W: TpmWriteBuffer + ?Sized> TpmBuffers for SeparateBuffers<'_, R, W> {
    type Request = R;
    type Response = W;
    open spec fn req(&self) -> Seq<u8> { self.reader.rd() }
    open spec fn req_inv(&self) -> bool { self.reader.inv() }
    open spec fn rsp(&self) -> Seq<u8> { self.writer.rd() }
    open spec fn rsp_inv(&self) -> bool { self.writer.inv() }
    #[verifier::prophetic]
    open spec fn end(self) -> Seq<u8> { final(self.writer).rd() }
    #[verifier::prophetic]
    open spec fn end_inv(self) -> bool { final(self.writer).inv() }
    proof fn resolved(self) { assert(has_resolved(self) ==> has_resolved(self.writer)); }
    proof fn buf_bounds(&self) { self.reader.bounds(); self.writer.bounds(); }
//@fn crate=impl impl="TpmBuffers for SeparateBuffers<'_,R,W>" name=get_request
//@end
//@fn crate=impl impl="TpmBuffers for SeparateBuffers<'_,R,W>" name=get_response
//@end
}

// ---- the cursor ---------------------------------------------------------------------------
//@def crate=impl name=RequestResponseCursor
//@def crate=impl name=RequestThenResponse
//@def crate=impl name=Response
impl<B: TpmBuffers> RequestResponseCursor<B> {
    pub open spec fn same_but_offset(self, o: Self) -> bool { self.buffers == o.buffers && self.response_offset == o.response_offset }
//@fn crate=impl impl="RequestResponseCursor<B>" name=new
//@ensures r.buffers == buffers, r.request_offset == 0, r.response_offset == response_offset
//@end
//@fn crate=impl impl="RequestResponseCursor<B>" name=request
//@ensures *r.buffers == *old(self), *final(r.buffers) == *final(self)
//@end
//@fn crate=impl impl="RequestResponseCursor<B>" name=last_response_byte_written
//@ensures r == self.response_offset
//@end
//@fn crate=impl impl="RequestResponseCursor<B>" name=response
//@requires old(self).buffers.rsp_inv()
//@ensures r.rd() == old(self).buffers.rsp(), r.inv(), final(self).buffers.rsp() == final(r).rd(), final(self).buffers.rsp_inv() == final(r).inv(),
//@    final(self).buffers.end() == old(self).buffers.end(), final(self).buffers.end_inv() == old(self).buffers.end_inv(),
//@    final(self).response_offset == old(self).response_offset, final(self).request_offset == old(self).request_offset
//@end
}
impl<'a, B: TpmBuffers> RequestThenResponse<'a, B> {
//@fn crate=impl impl="RequestThenResponse<'a,B>" name=read_be_u16
//@pre proof { self.buffers.buffers.buf_bounds(); }
//@requires old(self).buffers.buffers.req_inv()
//@ensures final(self).buffers.buffers == old(self).buffers.buffers, final(self).buffers.response_offset == old(self).buffers.response_offset,
//@    *final(final(self).buffers) == *final(old(self).buffers),
//@    match r {
//@        Some(v) => old(self).buffers.request_offset + 2 <= old(self).buffers.buffers.req().len()
//@            && v == u16::be_inv(old(self).buffers.buffers.req().subrange(old(self).buffers.request_offset as int, old(self).buffers.request_offset + 2))
//@            && final(self).buffers.request_offset == old(self).buffers.request_offset + 2,
//@        None => old(self).buffers.request_offset + 2 > old(self).buffers.buffers.req().len() && final(self).buffers.request_offset == old(self).buffers.request_offset,
//@    }
//@end
//@fn crate=impl impl="RequestThenResponse<'a,B>" name=read_be_u32
//@pre proof { self.buffers.buffers.buf_bounds(); }
//@requires old(self).buffers.buffers.req_inv()
//@ensures final(self).buffers.buffers == old(self).buffers.buffers, final(self).buffers.response_offset == old(self).buffers.response_offset,
//@    *final(final(self).buffers) == *final(old(self).buffers),
//@    match r {
//@        Some(v) => old(self).buffers.request_offset + 4 <= old(self).buffers.buffers.req().len()
//@            && v == u32::be_inv(old(self).buffers.buffers.req().subrange(old(self).buffers.request_offset as int, old(self).buffers.request_offset + 4))
//@            && final(self).buffers.request_offset == old(self).buffers.request_offset + 4,
//@        None => old(self).buffers.request_offset + 4 > old(self).buffers.buffers.req().len() && final(self).buffers.request_offset == old(self).buffers.request_offset,
//@    }
//@end
//@fn crate=impl impl="RequestThenResponse<'a,B>" name=into_response
//@ensures *r.buffers == *old(self.buffers), *final(r.buffers) == *final(self.buffers)
//@end
}
impl<B: TpmBuffers> Response<'_, B> {
//@fn crate=impl impl="Response<'_,B>" name=write
//@pre proof { self.buffers.buffers.buf_bounds(); }
//@requires old(self).buffers.buffers.rsp_inv()
//@ensures *final(final(self).buffers) == *final(old(self).buffers), final(self).buffers.buffers.rsp_inv(),
//@    final(self).buffers.request_offset == old(self).buffers.request_offset,
//@    final(self).buffers.buffers.end() == old(self).buffers.buffers.end(), final(self).buffers.buffers.end_inv() == old(self).buffers.buffers.end_inv(),
//@    r is Ok <==> old(self).buffers.response_offset + data@.len() <= old(self).buffers.buffers.rsp().len(),
//@    r is Ok ==> final(self).buffers.response_offset == old(self).buffers.response_offset + data@.len()
//@        && final(self).buffers.buffers.rsp() == put(old(self).buffers.buffers.rsp(), old(self).buffers.response_offset as int, data@),
//@    r is Err ==> final(self).buffers.response_offset == old(self).buffers.response_offset && final(self).buffers.buffers.rsp() == old(self).buffers.buffers.rsp()
//@end
//@fn crate=impl impl="Response<'_,B>" name=write_callback
//@pre proof { self.buffers.buffers.buf_bounds(); }
//@requires old(self).buffers.buffers.rsp_inv()
//@ensures *final(final(self).buffers) == *final(old(self).buffers), final(self).buffers.buffers.rsp_inv(),
//@    final(self).buffers.request_offset == old(self).buffers.request_offset,
//@    final(self).buffers.buffers.end() == old(self).buffers.buffers.end(), final(self).buffers.buffers.end_inv() == old(self).buffers.buffers.end_inv(),
//@    r is Ok <==> old(self).buffers.response_offset + size <= old(self).buffers.buffers.rsp().len(),
//@    r is Ok ==> final(self).buffers.response_offset == old(self).buffers.response_offset + size
//@        && callback.post(cut(old(self).buffers.buffers.rsp(), old(self).buffers.response_offset as int, size as int), cut(final(self).buffers.buffers.rsp(), old(self).buffers.response_offset as int, size as int))
//@        && final(self).buffers.buffers.rsp() == put(old(self).buffers.buffers.rsp(), old(self).buffers.response_offset as int, cut(final(self).buffers.buffers.rsp(), old(self).buffers.response_offset as int, size as int)),
//@    final(self).buffers.buffers.rsp().len() == old(self).buffers.buffers.rsp().len(),
//@    r is Err ==> final(self).buffers.response_offset == old(self).buffers.response_offset && final(self).buffers.buffers.rsp() == old(self).buffers.buffers.rsp() && callback.unused()
//@end
}

//@group C18
// ---- random number generation -------------------------------------------------------------
// Platform traits: every operation is a function of the implementor's own state and the arguments (assumed contract on
// the platform); nothing else is known about them.
pub trait Drbg: Sized {
    type Entropy: Bytes;
    type Nonce: Bytes;
    spec fn inst(e: Self::Entropy, n: Self::Nonce, p: Seq<u8>) -> Result<Self, DrbgError>;
    spec fn needs(&self) -> bool;
    spec fn after_needs(&self) -> Self;
    spec fn reseed_ok(&self, e: Self::Entropy, a: Seq<u8>) -> bool;
    spec fn after_reseed(&self, e: Self::Entropy, a: Seq<u8>) -> Self;
    spec fn fill_ok(&self, a: Seq<u8>, dest: Seq<u8>) -> bool;
    spec fn fill_out(&self, a: Seq<u8>, dest: Seq<u8>) -> Seq<u8>;
    spec fn after_fill(&self, a: Seq<u8>, dest: Seq<u8>) -> Self;
    spec fn u32_out(&self, a: Seq<u8>) -> Result<u32, DrbgError>;
    spec fn after_u32(&self, a: Seq<u8>) -> Self;
    spec fn u64_out(&self, a: Seq<u8>) -> Result<u64, DrbgError>;
    spec fn after_u64(&self, a: Seq<u8>) -> Self;
    fn instantiate(entropy_input: &Self::Entropy, nonce: &Self::Nonce, personalization_string: &[u8]) -> (r: Result<Self, DrbgError>)
        ensures r == Self::inst(*entropy_input, *nonce, personalization_string@);
    fn reseed(&mut self, entropy_input: &Self::Entropy, additional_input: &[u8]) -> (r: Result<(), DrbgError>)
        ensures r is Ok <==> old(self).reseed_ok(*entropy_input, additional_input@), *final(self) == old(self).after_reseed(*entropy_input, additional_input@);
    fn next_u32(&mut self, additional_input: &[u8]) -> (r: Result<u32, DrbgError>)
        ensures r == old(self).u32_out(additional_input@), *final(self) == old(self).after_u32(additional_input@);
    fn next_u64(&mut self, additional_input: &[u8]) -> (r: Result<u64, DrbgError>)
        ensures r == old(self).u64_out(additional_input@), *final(self) == old(self).after_u64(additional_input@);
    fn fill_bytes(&mut self, additional_input: &[u8], dest: &mut [u8]) -> (r: Result<(), DrbgError>)
        ensures r is Ok <==> old(self).fill_ok(additional_input@, old(dest)@), *final(self) == old(self).after_fill(additional_input@, old(dest)@),
            final(dest)@ == old(self).fill_out(additional_input@, old(dest)@), final(dest)@.len() == old(dest)@.len();
    fn requires_reseeding(&mut self) -> (r: bool) ensures r == old(self).needs(), *final(self) == old(self).after_needs();
}
pub trait EntropySource: Sized {
    spec fn fresh() -> Self;
    spec fn ent_out(&self, dest: Seq<u8>) -> Seq<u8>;
    spec fn after_ent(&self, dest: Seq<u8>) -> Self;
    fn instantiate() -> (r: Self) ensures r == Self::fresh();
    fn fill_entropy(&mut self, dest: &mut [u8])
        ensures final(dest)@ == old(self).ent_out(old(dest)@), final(dest)@.len() == old(dest)@.len(), *final(self) == old(self).after_ent(old(dest)@);
}
pub trait TpmContextDeps {
    type Drbg: Drbg;
    type EntropySource: EntropySource;
    type Request: TpmReadBuffer + ?Sized;
    type Response: TpmWriteBuffer + ?Sized;
}
pub open spec fn none() -> Seq<u8> { Seq::<u8>::empty() }
pub fn empty_slice() -> (r: &'static [u8]) ensures r@ == none() { let r: &'static [u8] = &[]; assert(r@ =~= none()); r }

//@def crate=impl name=Crypto
impl<Deps: TpmContextDeps> Crypto<Deps> {
    /// entropy input and nonce are two consecutive draws from a fresh source
    pub open spec fn fresh_input() -> <Deps::Drbg as Drbg>::Entropy {
        let z = <Deps::Drbg as Drbg>::Entropy::dflt();
        z.with_bytes(Deps::EntropySource::fresh().ent_out(z.view_bytes()))
    }
    pub open spec fn src1() -> Deps::EntropySource { Deps::EntropySource::fresh().after_ent(<Deps::Drbg as Drbg>::Entropy::dflt().view_bytes()) }
    pub open spec fn fresh_nonce() -> <Deps::Drbg as Drbg>::Nonce {
        let z = <Deps::Drbg as Drbg>::Nonce::dflt();
        z.with_bytes(Self::src1().ent_out(z.view_bytes()))
    }
    pub open spec fn src2() -> Deps::EntropySource { Self::src1().after_ent(<Deps::Drbg as Drbg>::Nonce::dflt().view_bytes()) }
    pub open spec fn is_new(r: Result<Self, ServerError>) -> bool {
        match Deps::Drbg::inst(Self::fresh_input(), Self::fresh_nonce(), none()) {
            Ok(d) => r is Ok && r->Ok_0.drbg == d && r->Ok_0.entropy == Self::src2(),
            Err(_) => r == Err::<Self, ServerError>(ServerError::DrbgError),
        }
    }
//@fn crate=impl impl="Crypto<Deps>" name=new
//@ensures Self::is_new(r)
//@end
}
pub ghost struct Rnd<D, E> { pub ok: bool, pub d: D, pub e: E, pub out: Seq<u8> }
pub open spec fn fill<D: Drbg, E>(d: D, e: E, dest: Seq<u8>) -> Rnd<D, E> {
    Rnd { ok: d.fill_ok(none(), dest), d: d.after_fill(none(), dest), e, out: d.fill_out(none(), dest) }
}
/// the outcome of one request for random bytes: a DRBG that must be reseeded is, with fresh entropy, before any output is drawn
pub open spec fn rnd<D: Drbg, E: EntropySource>(d: D, e: E, dest: Seq<u8>) -> Rnd<D, E> {
    let d1 = d.after_needs();
    if d.needs() {
        let z = D::Entropy::dflt();
        let seed = z.with_bytes(e.ent_out(z.view_bytes()));
        let e1 = e.after_ent(z.view_bytes());
        let d2 = d1.after_reseed(seed, none());
        if d1.reseed_ok(seed, none()) { fill(d2, e1, dest) } else { Rnd { ok: false, d: d2, e: e1, out: dest } }
    } else {
        fill(d1, e, dest)
    }
}
//@def crate=impl name=CommandHandler
//@group C16
pub struct GetRandomCb<'a, Deps: TpmContextDeps> { pub this: &'a mut CommandHandler<Deps>, pub out: &'a mut Result<(), ServerError> }
impl<'a, Deps: TpmContextDeps> Callback for GetRandomCb<'a, Deps> {
    #[verifier::prophetic]
    open spec fn post(self, b: Seq<u8>, a: Seq<u8>) -> bool {
        let o = rnd(self.this.crypto.drbg, self.this.crypto.entropy, b);
        a == o.out && (*final(self.out) is Ok <==> o.ok) && final(self.this).crypto.drbg == o.d && final(self.this).crypto.entropy == o.e
    }
    #[verifier::prophetic]
    open spec fn unused(self) -> bool { *final(self.out) == *self.out && *final(self.this) == *self.this }
    proof fn resolved(self) { assert(has_resolved(self) ==> has_resolved(self.out) && has_resolved(self.this)); }
    //@closure GetRandomCb
}
/// the response header: tag TPM_ST_NO_SESSIONS, size, response code
pub open spec fn header(size: u32, code: u32) -> Seq<u8> { 0x8001u16.be() + size.be() + code.be() }
pub proof fn header_ext(b: Seq<u8>, code: u32)
    ensures forall|d: Seq<u8>| d =~= header(10, code) ==> #[trigger] put(b, 0, d) == put(b, 0, header(10, code)),
        0x8001u16.be() == seq![0x80u8, 0x01u8], 10u32.be() == seq![0u8, 0, 0, 10], header(10, code).len() == 10,
{
    assert(0x8001u16.be() =~= seq![0x80u8, 0x01u8]) by { assert((0x8001u16 >> 8) as u8 == 0x80 && 0x8001u16 as u8 == 1) by (bit_vector); }
    assert(10u32.be() =~= seq![0u8, 0, 0, 10]) by { assert((10u32 >> 24) as u8 == 0 && (10u32 >> 16) as u8 == 0 && (10u32 >> 8) as u8 == 0 && 10u32 as u8 == 10) by (bit_vector); }
}
pub ghost struct Exec<D, E> { pub res: Result<int, u32>, pub d: D, pub e: E, pub rsp: Seq<u8> }
/// TPM2_GetRandom with its parameters at `off` of the request, output at 10 of the response
pub open spec fn get_random_spec<D: Drbg, E: EntropySource>(d: D, e: E, req: Seq<u8>, off: int, rsp: Seq<u8>, at: int) -> Exec<D, E> {
    if off + 2 > req.len() {
        Exec { res: Err(0x142), d, e, rsp }
    } else {
        let n = u16::be_inv(req.subrange(off, off + 2)) as int;
        if at + n > rsp.len() {
            Exec { res: Err(0x904), d, e, rsp }
        } else {
            let o = rnd(d, e, cut(rsp, at, n));
            Exec { res: if o.ok { Ok(at + n) } else { Err(0x101) }, d: o.d, e: o.e, rsp: put(rsp, at, o.out) }
        }
    }
}
pub open spec fn execute_spec<D: Drbg, E: EntropySource>(d: D, e: E, req: Seq<u8>, rsp: Seq<u8>) -> Exec<D, E> {
    if req.len() < 10 || u32::be_inv(req.subrange(2, 6)) != req.len() {
        Exec { res: Err(0x142), d, e, rsp }
    } else if u32::be_inv(req.subrange(6, 10)) == 0x17B {
        let x = get_random_spec(d, e, req, 10, rsp, 10);
        match x.res {
            Ok(size) => Exec { res: x.res, d: x.d, e: x.e, rsp: put(x.rsp, 0, header(size as u32, 0)) },
            Err(_) => x,
        }
    } else {
        Exec { res: Err(0x143), d, e, rsp }
    }
}
/// what the caller of the server sees: response size and response buffer
pub open spec fn respond<D, E>(x: Exec<D, E>) -> (int, Seq<u8>) {
    match x.res {
        Ok(size) => (size, x.rsp),
        Err(code) => if x.rsp.len() < 10 { (0, x.rsp) } else { (10, put(x.rsp, 0, header(10, code))) },
    }
}
pub open spec fn res_is<T>(r: Result<T, TpmRcError>, x: Result<int, u32>) -> bool {
    match r { Ok(_) => x is Ok, Err(e) => x == Err::<int, u32>(e.0) }
}
//@group C18
impl<Deps: TpmContextDeps> CommandHandler<Deps> {
//@fn crate=impl impl="CommandHandler<Deps>" name=new
//@ensures Crypto::<Deps>::is_new(match r { Ok(h) => Ok(h.crypto), Err(e) => Err(e) })
//@end
//@fn crate=impl impl="CommandHandler<Deps>" name=try_get_random
//@ensures r is Ok <==> rnd(old(self).crypto.drbg, old(self).crypto.entropy, old(buffer)@).ok,
//@    final(buffer)@.len() == old(buffer)@.len(),
//@    final(buffer)@ == rnd(old(self).crypto.drbg, old(self).crypto.entropy, old(buffer)@).out,
//@    final(self).crypto.drbg == rnd(old(self).crypto.drbg, old(self).crypto.entropy, old(buffer)@).d,
//@    final(self).crypto.entropy == rnd(old(self).crypto.drbg, old(self).crypto.entropy, old(buffer)@).e
//@end
//@fn crate=impl impl="CommandHandler<Deps>" name=get_random group=C16 closure=GetRandomCb
//@requires old(request_response.buffers).buffers.req_inv(), old(request_response.buffers).buffers.rsp_inv()
//@ensures
//@    ({ let c0 = *old(request_response.buffers); let c1 = *final(request_response.buffers);
//@       let x = get_random_spec(old(self).crypto.drbg, old(self).crypto.entropy, c0.buffers.req(), c0.request_offset as int, c0.buffers.rsp(), c0.response_offset as int);
//@       &&& res_is(r, x.res)
//@       &&& x.res is Ok ==> c1.response_offset == x.res->Ok_0
//@       &&& final(self).crypto.drbg == x.d && final(self).crypto.entropy == x.e
//@       &&& c1.buffers.rsp() == x.rsp && c1.buffers.rsp_inv()
//@       &&& c1.buffers.end() == c0.buffers.end() && c1.buffers.end_inv() == c0.buffers.end_inv() })
//@end
}
//@group C16
//@def crate=impl name=TpmContext
impl<Deps: TpmContextDeps> TpmContext<Deps> {
//@fn crate=impl impl="TpmContext<Deps>" name=new
//@ensures Crypto::<Deps>::is_new(match r { Ok(h) => Ok(h.handler.crypto), Err(e) => Err(e) })
//@end
//@fn crate=impl impl="TpmContext<Deps>" name=fill_error
//@requires old(response).inv()
//@ensures *final(self) == *old(self), final(response).inv(),
//@    (r as int, final(response).rd()) == respond(Exec { res: Err(error.0), d: 0int, e: 0int, rsp: old(response).rd() })
//@pre proof { header_ext(response.rd(), error.0); }
//@end
//@fn crate=impl impl="TpmContext<Deps>" name=execute_command
//@requires buffers.req_inv(), buffers.rsp_inv()
//@ensures
//@    ({ let x = execute_spec(old(self).handler.crypto.drbg, old(self).handler.crypto.entropy, buffers.req(), buffers.rsp());
//@       &&& res_is(r, x.res)
//@       &&& r is Ok ==> r->Ok_0 == x.res->Ok_0
//@       &&& final(self).handler.crypto.drbg == x.d && final(self).handler.crypto.entropy == x.e
//@       &&& buffers.end() == x.rsp && buffers.end_inv() })
//@pre broadcast use buffers_given_back;
//@end
//@fn crate=impl impl="TpmContext<Deps>" name=execute_command_separate
//@requires request.inv(), old(response).inv()
//@ensures
//@    ({ let x = execute_spec(old(self).handler.crypto.drbg, old(self).handler.crypto.entropy, request.rd(), old(response).rd());
//@       &&& (r as int, final(response).rd()) == respond(x) && final(response).inv()
//@       &&& final(self).handler.crypto.drbg == x.d && final(self).handler.crypto.entropy == x.e })
//@end
//@fn crate=impl impl="TpmContext<Deps>" name=execute_command_in_place
//@requires old(in_out).inv()
//@ensures
//@    ({ let x = execute_spec(old(self).handler.crypto.drbg, old(self).handler.crypto.entropy,
//@           old(in_out).rd().take(minn(request_size as int, old(in_out).rd().len() as int)), old(in_out).rd());
//@       &&& (r as int, final(in_out).rd()) == respond(x) && final(in_out).inv()
//@       &&& final(self).handler.crypto.drbg == x.d && final(self).handler.crypto.entropy == x.e })
//@end
}

//@group C16
/// every response the server reports has a complete header that states its own length and lies inside the response buffer
pub proof fn response_is_framed<D: Drbg, E: EntropySource>(d: D, e: E, req: Seq<u8>, rsp: Seq<u8>)
    requires forall|x: D, a: Seq<u8>, b: Seq<u8>| (#[trigger] x.fill_out(a, b)).len() == b.len(), rsp.len() <= usize::MAX
    ensures ({ let o = respond(execute_spec(d, e, req, rsp));
        &&& o.1.len() == rsp.len()
        &&& o.0 == 0 || 10 <= o.0 <= rsp.len()
        &&& o.0 == 0 <==> rsp.len() < 10
        &&& o.0 != 0 ==> o.1.subrange(0, 2) == 0x8001u16.be() && o.1.subrange(2, 6) == (o.0 as u32).be() && o.0 <= u32::MAX
        // bytes past the response keep their value unless the command failed after its output was drawn
        &&& o.0 == 0 ==> o.1 == rsp })
{
    0x8001u16.be_rt();
    let x = execute_spec(d, e, req, rsp);
    let o = respond(x);
    (o.0 as u32).be_rt(); 0u32.be_rt(); 10u32.be_rt();
    match x.res {
        Ok(size) => { assert(o.1.subrange(0, 2) =~= 0x8001u16.be()); assert(o.1.subrange(2, 6) =~= (o.0 as u32).be()); }
        Err(code) => { code.be_rt(); if rsp.len() >= 10 { assert(o.1.subrange(0, 2) =~= 0x8001u16.be()); assert(o.1.subrange(2, 6) =~= (o.0 as u32).be()); } }
    }
}
//@group C17
/// a DRBG whose output does not depend on what the destination held before
pub open spec fn dest_free<D: Drbg>() -> bool {
    forall|x: D, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| b.len() == c.len() ==>
        #[trigger] x.fill_ok(a, b) == x.fill_ok(a, c) && #[trigger] x.fill_out(a, b) == #[trigger] x.fill_out(a, c) && x.after_fill(a, b) == x.after_fill(a, c)
        && x.fill_out(a, b).len() == b.len()
}
/// the same request gives the same response and leaves the same state, whatever the response buffer held:
/// in particular when it held the request itself (in-place execution)
pub proof fn in_place_is_separate<D: Drbg, E: EntropySource>(d: D, e: E, req: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), dest_free::<D>()
    ensures ({ let x = execute_spec(d, e, req, a); let y = execute_spec(d, e, req, b);
        let p = respond(x); let q = respond(y);
        p.0 == q.0 && p.1.take(p.0) == q.1.take(q.0) && x.d == y.d && x.e == y.e && x.res == y.res })
{
    let x = execute_spec(d, e, req, a); let y = execute_spec(d, e, req, b);
    let p = respond(x); let q = respond(y);
    0x8001u16.be_rt(); 0u32.be_rt(); 10u32.be_rt();
    if req.len() >= 12 && u32::be_inv(req.subrange(2, 6)) == req.len() && u32::be_inv(req.subrange(6, 10)) == 0x17B {
        let n = u16::be_inv(req.subrange(10, 12)) as int;
        if 10 + n <= a.len() {
            let ca = cut(a, 10, n); let cb = cut(b, 10, n);
            let ra = rnd(d, e, ca); let rb = rnd(d, e, cb);
            assert(ca.len() == cb.len());
            assert(ra.ok == rb.ok && ra.d == rb.d && ra.e == rb.e);
            assert(ra.out.len() == rb.out.len() == n);
            assert(ra.ok ==> ra.out == rb.out);
            ((10 + n) as u32).be_rt();
        }
    }
    match x.res { Ok(s) => { (s as u32).be_rt(); } Err(c) => { c.be_rt(); } }
    assert(p.1.take(p.0) =~= q.1.take(q.0));
}
//@group C18
// ---- helpers for DRBG implementors --------------------------------------------------------
//@fn crate=impl impl=fn name=next_u32_via_fill
//@ensures exists|z: Seq<u8>| z.len() == 4 && (r is Ok <==> #[trigger] old(rng).fill_ok(additional_input@, z))
//@    && *final(rng) == old(rng).after_fill(additional_input@, z) && (r is Ok ==> r->Ok_0 == u32::le_inv(old(rng).fill_out(additional_input@, z)))
//@end
//@fn crate=impl impl=fn name=next_u64_via_fill
//@ensures exists|z: Seq<u8>| z.len() == 8 && (r is Ok <==> #[trigger] old(rng).fill_ok(additional_input@, z))
//@    && *final(rng) == old(rng).after_fill(additional_input@, z) && (r is Ok ==> r->Ok_0 == u64::le_inv(old(rng).fill_out(additional_input@, z)))
//@end
/// low word first; the additional input goes to the first draw only
pub open spec fn u64_of_u32(x: u32, y: u32) -> u64 { ((y as u64) << 32) | (x as u64) }
pub proof fn u64_words()
    ensures forall|y: u32| (#[trigger] ((y as u64) << 32)) == y * 0x1_0000_0000,
        forall|x: u32, y: u32| #[trigger] u64_of_u32(x, y) == y * 0x1_0000_0000 + x,
{
    assert forall|y: u32| (#[trigger] ((y as u64) << 32)) == y * 0x1_0000_0000 by { assert((y as u64) << 32 == mul(y as u64, 0x1_0000_0000)) by (bit_vector); assert(y * 0x1_0000_0000 <= u64::MAX); }
    assert forall|x: u32, y: u32| #[trigger] u64_of_u32(x, y) == y * 0x1_0000_0000 + x by {
        assert((((y as u64) << 32) | (x as u64)) == add(mul(y as u64, 0x1_0000_0000), x as u64)) by (bit_vector); }
}
//@fn crate=impl impl=fn name=next_u64_via_u32
//@ensures
//@    ({ let d1 = old(rng).after_u32(additional_input@);
//@       match old(rng).u32_out(additional_input@) {
//@           Err(e) => r == Err::<u64, DrbgError>(e) && *final(rng) == d1,
//@           Ok(x) => *final(rng) == d1.after_u32(none()) && (match d1.u32_out(none()) {
//@               Err(e) => r == Err::<u64, DrbgError>(e),
//@               Ok(y) => r == Ok::<u64, DrbgError>(u64_of_u32(x, y)) }) } })
//@pre proof { u64_words(); }
//@end
pub ghost struct Via<D> { pub ok: bool, pub d: D, pub out: Seq<u8> }
/// n bytes in little-endian order: 8 per next_u64 while at least 5 are wanted, the last 1 to 4 from next_u32; additional
/// input goes to the first draw only
pub open spec fn via_next<D: Drbg>(d: D, add: Seq<u8>, n: nat) -> Via<D>
    decreases n
{
    if n == 0 {
        Via { ok: true, d, out: none() }
    } else if n > 4 {
        match d.u64_out(add) {
            Err(_) => Via { ok: false, d: d.after_u64(add), out: none() },
            Ok(v) => if n < 8 { Via { ok: true, d: d.after_u64(add), out: v.le().take(n as int) } } else {
                let t = via_next(d.after_u64(add), none(), (n - 8) as nat);
                Via { ok: t.ok, d: t.d, out: v.le() + t.out }
            },
        }
    } else {
        match d.u32_out(add) {
            Err(_) => Via { ok: false, d: d.after_u32(add), out: none() },
            Ok(v) => Via { ok: true, d: d.after_u32(add), out: v.le().take(n as int) },
        }
    }
}
pub proof fn seq_step(s: Seq<u8>, k: int, n: int)
    ensures 0 <= k && 0 <= n && k + n <= s.len() ==> s.skip(k).skip(n) == s.skip(k + n) && s.take(k + n) == s.take(k) + s.skip(k).take(n)
{ if 0 <= k && 0 <= n && k + n <= s.len() { assert(s.skip(k).skip(n) =~= s.skip(k + n)); assert(s.take(k + n) =~= s.take(k) + s.skip(k).take(n)); } }
//@fn crate=impl impl=fn name=fill_bytes_via_next
//@ensures
//@    ({ let v = via_next(*old(rng), additional_input@, old(dest)@.len());
//@       (r is Ok <==> v.ok) && *final(rng) == v.d && final(dest)@.len() == old(dest)@.len() && (r is Ok ==> final(dest)@ == v.out) })
//@pre let ghost add0 = additional_input@; let ghost d0 = *rng; let ghost n0 = dest@.len(); let ghost f0 = final(dest)@;
//@loop 0 ## invariant
//@+     dest@.len() <= n0,
//@+     via_next(d0, add0, n0).ok == via_next(*rng, additional_input@, dest@.len()).ok,
//@+     via_next(d0, add0, n0).d == via_next(*rng, additional_input@, dest@.len()).d,
//@+     n0 - dest@.len() <= f0.len(),
//@+     f0.skip(n0 - dest@.len()) =~= final(dest)@,
//@+     via_next(d0, add0, n0).ok ==> via_next(d0, add0, n0).out =~= f0.take(n0 - dest@.len()) + via_next(*rng, additional_input@, dest@.len()).out,
//@+ decreases dest@.len(),
//@body 0 ## proof { seq_step(f0, n0 - dest@.len(), 8); }
//@end
}
fn main() {}
