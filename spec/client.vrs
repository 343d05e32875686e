#![allow(unused, ambiguous_glob_reexports, non_upper_case_globals, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
verus! {
//@group C13
//@include prelude.rs
//@wire
pub mod client {
use super::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::control_flow::spec_from;
use crate::base::*;
use crate::marshalable::{Marshalable, UnmarshalBuf, Error, Dec, step, step_full};
use crate::shim::*;
// ---- error values (their conversions are verified in unit rc) --------------------------------
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct TssError(pub u32);
pub type TssResult<T> = Result<T, TssError>;
pub struct TssErrorCannotBeZero;
impl TryFromSpecImpl<u32> for TssError {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: u32) -> Result<Self, Self::Error> { arbitrary() }
}
impl TryFrom<u32> for TssError {
    type Error = TssErrorCannotBeZero;
    fn try_from(val: u32) -> (r: Result<Self, Self::Error>) ensures r is Ok <==> val != 0, r is Ok ==> r->Ok_0.0 == val { if val != 0 { Ok(TssError(val)) } else { Err(TssErrorCannotBeZero) } }
}
pub open spec fn err_code(e: Error) -> u32 { match e { Error::ArrayLengthExceeded => 0x95, Error::UnexpectedEndOfBuffer => 0x904, Error::UnknownSelector => 0x98 } }
impl FromSpecImpl<Error> for TssError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> TssError { TssError(err_code(e)) }
}
impl From<Error> for TssError { fn from(e: Error) -> TssError { TssError(match e { Error::ArrayLengthExceeded => 0x95, Error::UnexpectedEndOfBuffer => 0x904, Error::UnknownSelector => 0x98 }) } }
impl FromSpecImpl<Error> for TpmRcError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> TpmRcError { TpmRcError(err_code(e)) }
}
impl From<Error> for TpmRcError { fn from(e: Error) -> TpmRcError { TpmRcError(match e { Error::ArrayLengthExceeded => 0x95, Error::UnexpectedEndOfBuffer => 0x904, Error::UnknownSelector => 0x98 }) } }
impl FromSpecImpl<TpmRcError> for TssError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TpmRcError) -> TssError { TssError(e.0) }
}
impl From<TpmRcError> for TssError { fn from(e: TpmRcError) -> TssError { TssError(e.0) } }
pub struct TssTcsError(pub u32);
impl TssTcsError {
    pub const GeneralFailure: TssTcsError = TssTcsError(0x2002);
    pub const BadParameter: TssTcsError = TssTcsError(0x2003);
    pub const InternalError: TssTcsError = TssTcsError(0x2004);
    pub const OutOfMemory: TssTcsError = TssTcsError(0x2005);
    pub const NotImplemented: TssTcsError = TssTcsError(0x2006);
    pub const TpmUnexpected: TssTcsError = TssTcsError(0x2010);
    pub const CommFailure: TssTcsError = TssTcsError(0x2011);
    pub const Timeout: TssTcsError = TssTcsError(0x2012);
    pub const Unsupported: TssTcsError = TssTcsError(0x2014);
    pub const Canceled: TssTcsError = TssTcsError(0x2016);
}
impl FromSpecImpl<TssTcsError> for TssError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TssTcsError) -> TssError { TssError(e.0) }
}
impl From<TssTcsError> for TssError { fn from(e: TssTcsError) -> TssError { TssError(e.0) } }
pub trait MapErrInto<T, E> : Sized {
    spec fn mi_view(self) -> Result<T, E>;
    fn map_err_into<F: From<E>>(self) -> (r: Result<T, F>)
        ensures self.mi_view() is Ok ==> r == Ok::<T, F>(self.mi_view()->Ok_0),
            self.mi_view() is Err ==> r is Err && (F::obeys_from_spec() ==> r == Err::<T, F>(F::from_spec(self.mi_view()->Err_0)));
}
impl<T, E> MapErrInto<T, E> for Result<T, E> {
    open spec fn mi_view(self) -> Result<T, E> { self }
    fn map_err_into<F: From<E>>(self) -> (r: Result<T, F>) { match self { Ok(t) => Ok(t), Err(e) => Err(F::from(e)) } }
}
pub mod ax {
use super::*;
pub broadcast proof fn window<A>(a: Seq<A>, i: int, j: int, k: int, l: int)
    requires 0 <= i <= j <= a.len(), 0 <= k <= l <= j - i
    ensures #[trigger] a.subrange(i, j).subrange(k, l) == a.subrange(i + k, i + l)
{ assert(a.subrange(i, j).subrange(k, l) =~= a.subrange(i + k, i + l)); }
pub broadcast axiom fn question_mark_from<S, T: From<S>>(e: S, r: T)
    ensures #[trigger] spec_from::<T, S>(e, r) ==> call_ensures(T::from, (e,), r) && (T::obeys_from_spec() ==> r == T::from_spec(e));
}
broadcast use ax::question_mark_from;
/// e is what the connection's error type makes of TSS error `c`
pub open spec fn reports<E: From<TssError>>(c: u32, e: E) -> bool { call_ensures(<E as From<TssError>>::from, (TssError(c),), e) }

// ---- what is assumed of the parties ----------------------------------------------------------
/// a connection: any answer, of any length, or any error; every command handed over and what came back is recorded
pub trait Connection {
    type Error;
    spec fn sent(&self) -> Seq<Seq<u8>>;
    spec fn got(&self) -> Seq<Result<Seq<u8>, Self::Error>>;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> (r: Result<&'a mut [u8], Self::Error>)
        ensures final(self).sent() == old(self).sent().push(cmd@),
            final(self).got() == old(self).got().push(match r { Ok(s) => Ok(s@), Err(e) => Err(e) });
}
/// a session: what it adds to a command and which answers it accepts are functions of its state
//@group C15
pub trait Session: Sized {
    spec fn usable(&self) -> bool;
    spec fn auth(&self) -> TpmsAuthCommandV;
    spec fn accepts(&self, v: TpmsAuthResponseV) -> bool;
    fn get_auth_command(&self) -> (r: TpmsAuthCommand) requires self.usable() ensures r.inv(), r.v() == self.auth();
    fn validate_auth_response(&self, auth: &TpmsAuthResponse) -> (r: TssResult<()>) requires self.usable(), auth.inv() ensures r is Ok <==> self.accepts(auth.v());
}
pub open spec fn same<T>(r: Option<&T>, p: Option<T>) -> bool { match (r, p) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false } }
pub open spec fn can<T: Session>(p: Option<T>) -> bool { p is Some ==> p->Some_0.usable() }
/// up to three sessions
pub trait AuthorizationArea<T: Session, U: Session, V: Session> {
    spec fn parts(&self) -> (Option<T>, Option<U>, Option<V>);
    fn decompose_ref(&self) -> (r: (Option<&T>, Option<&U>, Option<&V>))
        ensures same(r.0, self.parts().0), same(r.1, self.parts().1), same(r.2, self.parts().2);
//@fn crate=client impl="trait AuthorizationArea" name=is_empty
//@ensures r == (self.parts().0 is None)
//@end
}
pub open spec fn usable3<T: Session, U: Session, V: Session>(p: (Option<T>, Option<U>, Option<V>)) -> bool { can(p.0) && can(p.1) && can(p.2) }
/// (in the source these extend AuthorizationArea; the verifier cannot have two methods of one name on one type, so they stand alone here)
pub trait AuthorizationArea1Plus<T: Session, U: Session, V: Session> {
    spec fn parts1(&self) -> (T, Option<U>, Option<V>);
    fn decompose_ref(&self) -> (r: (&T, Option<&U>, Option<&V>))
        ensures *r.0 == self.parts1().0, same(r.1, self.parts1().1), same(r.2, self.parts1().2);
}
pub trait AuthorizationArea2Plus<T: Session, U: Session, V: Session> {
    spec fn parts2(&self) -> (T, U, Option<V>);
    fn decompose_ref(&self) -> (r: (&T, &U, Option<&V>))
        ensures *r.0 == self.parts2().0, *r.1 == self.parts2().1, same(r.2, self.parts2().2);
}
//@def crate=client name=NoSession
impl Session for NoSession {
    open spec fn usable(&self) -> bool { false }
    open spec fn auth(&self) -> TpmsAuthCommandV { arbitrary() }
    open spec fn accepts(&self, v: TpmsAuthResponseV) -> bool { false }
//@fn crate=client impl="Session for NoSession" name=validate_auth_response
//@end
//@fn crate=client impl="Session for NoSession" name=get_auth_command
//@end
}
impl AuthorizationArea<NoSession, NoSession, NoSession> for () {
    open spec fn parts(&self) -> (Option<NoSession>, Option<NoSession>, Option<NoSession>) { (None, None, None) }
//@fn crate=client impl="AuthorizationArea<NoSession,NoSession,NoSession> for ()" name=decompose_ref
//@end
}
impl<T: Session> AuthorizationArea<T, NoSession, NoSession> for T {
    open spec fn parts(&self) -> (Option<T>, Option<NoSession>, Option<NoSession>) { (Some(*self), None, None) }
//@fn crate=client impl="AuthorizationArea<T,NoSession,NoSession> for T" name=decompose_ref
//@end
}
impl<T: Session> AuthorizationArea1Plus<T, NoSession, NoSession> for T {
    open spec fn parts1(&self) -> (T, Option<NoSession>, Option<NoSession>) { (*self, None, None) }
//@fn crate=client impl="AuthorizationArea1Plus<T,NoSession,NoSession> for T" name=decompose_ref
//@end
}
impl<T: Session, U: Session> AuthorizationArea<T, U, NoSession> for (T, U) {
    open spec fn parts(&self) -> (Option<T>, Option<U>, Option<NoSession>) { (Some(self.0), Some(self.1), None) }
//@fn crate=client impl="AuthorizationArea<T,U,NoSession> for (T,U)" name=decompose_ref
//@end
}
impl<T: Session, U: Session> AuthorizationArea1Plus<T, U, NoSession> for (T, U) {
    open spec fn parts1(&self) -> (T, Option<U>, Option<NoSession>) { (self.0, Some(self.1), None) }
//@fn crate=client impl="AuthorizationArea1Plus<T,U,NoSession> for (T,U)" name=decompose_ref
//@end
}
impl<T: Session, U: Session> AuthorizationArea2Plus<T, U, NoSession> for (T, U) {
    open spec fn parts2(&self) -> (T, U, Option<NoSession>) { (self.0, self.1, None) }
//@fn crate=client impl="AuthorizationArea2Plus<T,U,NoSession> for (T,U)" name=decompose_ref
//@end
}
impl<T: Session, U: Session, V: Session> AuthorizationArea<T, U, V> for (T, U, V) {
    open spec fn parts(&self) -> (Option<T>, Option<U>, Option<V>) { (Some(self.0), Some(self.1), Some(self.2)) }
//@fn crate=client impl="AuthorizationArea<T,U,V> for (T,U,V)" name=decompose_ref
//@end
}
impl<T: Session, U: Session, V: Session> AuthorizationArea1Plus<T, U, V> for (T, U, V) {
    open spec fn parts1(&self) -> (T, Option<U>, Option<V>) { (self.0, Some(self.1), Some(self.2)) }
//@fn crate=client impl="AuthorizationArea1Plus<T,U,V> for (T,U,V)" name=decompose_ref
//@end
}
impl<T: Session, U: Session, V: Session> AuthorizationArea2Plus<T, U, V> for (T, U, V) {
    open spec fn parts2(&self) -> (T, U, Option<V>) { (self.0, self.1, Some(self.2)) }
//@fn crate=client impl="AuthorizationArea2Plus<T,U,V> for (T,U,V)" name=decompose_ref
//@end
}
// ---- password sessions -------------------------------------------------------------------------
//@def crate=client name=PasswordSession
impl PasswordSession {
    pub open spec fn secret(&self) -> Seq<u8> { self.auth.bytes() }
//@fn crate=client impl=PasswordSession name=new
//@requires password.ref_pre()
//@ensures r is Ok <==> password.ref_bytes().len() <= 64, r is Ok ==> r->Ok_0.usable() && r->Ok_0.secret() == password.ref_bytes(), r is Err ==> r->Err_0.0 == 0x95
//@end
//@fn crate=client impl=PasswordSession name=get_secret
//@requires self.usable()
//@ensures r@ == self.secret()
//@end
}
impl Session for PasswordSession {
    open spec fn usable(&self) -> bool { self.auth.binv() }
    /// TPM_RS_PW, empty nonce, no attributes, the password (Part 1, 19.4)
    open spec fn auth(&self) -> TpmsAuthCommandV { TpmsAuthCommandV { session_handle: 0x40000009, nonce: Seq::empty(), session_attributes: 0, hmac: self.secret() } }
    /// empty nonce, continueSession and nothing else, empty HMAC
    open spec fn accepts(&self, v: TpmsAuthResponseV) -> bool { v.nonce.len() == 0 && v.session_attributes == 1 && v.hmac.len() == 0 }
//@fn crate=client impl="Session for PasswordSession" name=get_auth_command
//@end
//@fn crate=client impl="Session for PasswordSession" name=validate_auth_response
//@end
}
/// what a password session puts on the wire
pub proof fn password_on_the_wire(s: PasswordSession) requires s.usable()
    ensures TpmsAuthCommand::enc(s.auth()) == seq![0x40u8, 0, 0, 9, 0, 0, 0] + (s.secret().len() as u16).be() + s.secret(), TpmsAuthCommand::ok(s.auth())
{
    let z = 0x40000009u32;
    assert((z >> 24) as u8 == 0x40 && (z >> 16) as u8 == 0 && (z >> 8) as u8 == 0 && z as u8 == 9) by (bit_vector) requires z == 0x40000009u32;
    assert((0u16 >> 8) as u8 == 0 && 0u16 as u8 == 0) by (bit_vector);
    assert(TpmsAuthCommand::enc(s.auth()) =~= seq![0x40u8, 0, 0, 9, 0, 0, 0] + (s.secret().len() as u16).be() + s.secret());
}
// ---- the authorization area of a command ---------------------------------------------------------
pub open spec fn a1<T: Session>(p: Option<T>) -> Seq<u8> { TpmsAuthCommand::enc(p->Some_0.auth()) }
pub open spec fn ok1<T: Session>(p: Option<T>) -> bool { TpmsAuthCommand::ok(p->Some_0.auth()) }
/// the sessions, in order, up to the first that is missing
pub open spec fn auths<T: Session, U: Session, V: Session>(p: (Option<T>, Option<U>, Option<V>)) -> Seq<u8> {
    if p.0 is None { Seq::empty() } else if p.1 is None { a1(p.0) } else if p.2 is None { a1(p.0) + a1(p.1) } else { a1(p.0) + a1(p.1) + a1(p.2) } }
pub open spec fn auths_ok<T: Session, U: Session, V: Session>(p: (Option<T>, Option<U>, Option<V>)) -> bool {
    p.0 is Some ==> ok1(p.0) && (p.1 is Some ==> ok1(p.1) && (p.2 is Some ==> ok1(p.2))) }
/// size of the area, then the sessions; nothing at all without sessions
pub open spec fn area<T: Session, U: Session, V: Session>(p: (Option<T>, Option<U>, Option<V>)) -> Seq<u8> {
    if p.0 is None { Seq::empty() } else { (auths(p).len() as u32).be() + auths(p) } }
pub proof fn area_bound<T: Session, U: Session, V: Session>(p: (Option<T>, Option<U>, Option<V>))
    ensures auths_ok(p) ==> auths(p).len() <= 3 * 137
{
    if auths_ok(p) {
        if p.0 is Some { TpmsAuthCommand::bound(p.0->Some_0.auth()); if p.1 is Some { TpmsAuthCommand::bound(p.1->Some_0.auth()); if p.2 is Some { TpmsAuthCommand::bound(p.2->Some_0.auth()); } } }
    }
}
//@fn crate=client impl=fn name=marshal_auth_size
//@requires auth_offset >= 4
//@ensures final(buffer)@.len() == old(buffer)@.len(),
//@   match r { Ok(n) => n == auth_offset && old(buffer)@.len() >= 4 && final(buffer)@ =~= ((auth_offset - 4) as u32).be() + old(buffer)@.skip(4), Err(e) => old(buffer)@.len() < 4 && e.0 == 0x904 }
//@end
/// one more part written after a field of k bytes
pub proof fn part_step(k: int, b0: Seq<u8>, w0: int, b1: Seq<u8>, w1: int, p: Seq<u8>, e: Seq<u8>, z: Seq<u8>)
    requires 0 <= k <= w0 <= b0.len(), z.len() == b0.len(), b1.len() == b0.len(), w1 == w0 + e.len(), w1 <= b0.len(), p.len() == w0 - k,
        b0.skip(k) =~= p + z.skip(w0), b1.take(w0) =~= b0.take(w0), b1.skip(w0) =~= e + b0.skip(w0).skip(e.len() as int)
    ensures b1.skip(k) == (p + e) + z.skip(w1)
{
    assert(b0.skip(w0) =~= b0.skip(k).skip(w0 - k));
    assert(b0.skip(w0) =~= z.skip(w0));
    assert(z.skip(w0).skip(e.len() as int) =~= z.skip(w1));
    assert(b1.skip(k) =~= b1.take(w0).skip(k) + b1.skip(w0));
    assert(b0.take(w0).skip(k) =~= b0.skip(k).take(w0 - k));
    assert(b0.take(w0).skip(k) =~= p);
    assert(b1.skip(k) =~= (p + e) + z.skip(w1));
}
//@fn crate=client impl=fn name=write_command_sessions rlimit=40
//@pre proof { area_bound(sessions.parts()); assert(vstd::slice::spec_slice_len(buffer) == buffer@.len()); }
//@hint 0u32.try_marshal ## let ghost p = sessions.parts(); let ghost z = old(buffer)@; let ghost b0 = buffer@; let ghost w0 = auth_offset as int; proof { assert(b0.skip(4) =~= Seq::<u8>::empty() + z.skip(4)); }
//@hint s1.get_auth_command ## let ghost b1 = buffer@; let ghost w1 = auth_offset as int; proof { part_step(4, b0, w0, b1, w1, Seq::empty(), a1(p.0), z); assert(Seq::empty() + a1(p.0) =~= a1(p.0)); }
//@hint s2.get_auth_command ## let ghost b2 = buffer@; let ghost w2 = auth_offset as int; proof { part_step(4, b1, w1, b2, w2, a1(p.0), a1(p.1), z); }
//@hint s3.get_auth_command ## proof { part_step(4, b2, w2, buffer@, auth_offset as int, a1(p.0) + a1(p.1), a1(p.2), z); }
//@requires usable3(sessions.parts())
//@ensures final(buffer)@.len() == old(buffer)@.len(),
//@   match r {
//@       Ok(n) => auths_ok(sessions.parts()) && n == area(sessions.parts()).len() && n <= old(buffer)@.len() && final(buffer)@ =~= area(sessions.parts()) + old(buffer)@.skip(n as int),
//@       Err(e) => !auths_ok(sessions.parts()) || area(sessions.parts()).len() > old(buffer)@.len() }
//@end
// ---- the authorization area of a response --------------------------------------------------------
pub open spec fn check1<T: Session>(p: Option<T>, s: Seq<u8>) -> Option<Seq<u8>> {
    match TpmsAuthResponse::dec(s) { Ok((v, t)) => if p->Some_0.accepts(v) { Some(t) } else { None }, Err(_) => None } }
/// what remains after one accepted acknowledgement per session, in order
pub open spec fn check<T: Session, U: Session, V: Session>(p: (Option<T>, Option<U>, Option<V>), s: Seq<u8>) -> Option<Seq<u8>> {
    if p.0 is None { Some(s) } else { match check1(p.0, s) { None => None, Some(s) =>
        if p.1 is None { Some(s) } else { match check1(p.1, s) { None => None, Some(s) =>
            if p.2 is None { Some(s) } else { check1(p.2, s) } } } } } }
//@fn crate=client impl=fn name=read_response_sessions
//@requires usable3(sessions.parts())
//@ensures r is Ok <==> check(sessions.parts(), old(buffer)@) is Some, r is Ok ==> final(buffer)@ == check(sessions.parts(), old(buffer)@)->Some_0
//@end
//@group C13
// ---- commands ------------------------------------------------------------------------------------
pub trait TpmCommand: Marshalable {
    const CMD_CODE: TpmCc;
    type Handles: Marshalable + Default;
    type RespT: Marshalable;
    type RespHandles: Marshalable;
}
//@commands
impl CmdHeader {
//@fn crate=client impl=CmdHeader name=new
//@ensures r.tag.0 == (if has_sessions { 0x8001u16 } else { 0x8002u16 }), r.code == code
//@end
}
pub open spec fn body<C: TpmCommand, T: Session, U: Session, V: Session>(c: C::V, h: <C::Handles as Marshalable>::V, p: (Option<T>, Option<U>, Option<V>)) -> Seq<u8> {
    <C::Handles as Marshalable>::enc(h) + area(p) + C::enc(c) }
pub open spec fn encodable<C: TpmCommand, T: Session, U: Session, V: Session>(c: C::V, h: <C::Handles as Marshalable>::V, p: (Option<T>, Option<U>, Option<V>)) -> bool {
    <C::Handles as Marshalable>::ok(h) && auths_ok(p) && C::ok(c) && 10 + body::<C, T, U, V>(c, h, p).len() <= 4096 }
/// tag, total size, command code, handles, authorization area, parameters
pub open spec fn command<C: TpmCommand, T: Session, U: Session, V: Session>(c: C::V, h: <C::Handles as Marshalable>::V, p: (Option<T>, Option<U>, Option<V>)) -> Seq<u8> {
    (if p.0 is None { 0x8001u16 } else { 0x8002u16 }).be() + ((10 + body::<C, T, U, V>(c, h, p).len()) as u32).be() + C::CMD_CODE.0.be() + body::<C, T, U, V>(c, h, p) }
//@group C14
// ---- responses -------------------------------------------------------------------------------------
/// the response code, if there is a whole header
pub open spec fn rc_of(a: Seq<u8>) -> u32 { u32::be_inv(a.skip(6).take(4)) }
pub open spec fn size_of_(a: Seq<u8>) -> u32 { u32::be_inv(a.skip(2).take(4)) }
pub open spec fn tag_of(a: Seq<u8>) -> u16 { u16::be_inv(a.take(2)) }
pub open spec fn after_handles<C: TpmCommand, T: Session, U: Session, V: Session>(tag: u16, s: Seq<u8>, p: (Option<T>, Option<U>, Option<V>)) -> Option<<C::RespT as Marshalable>::V> {
    match (if tag == 0x8002 { u32::dec(s) } else { Ok((0u32, s)) }) { Err(_) => None, Ok((_, s)) =>
        match <C::RespT as Marshalable>::dec(s) { Err(_) => None, Ok((v, s)) =>
            match check(p, s) { None => None, Some(s) => if s.len() == 0 { Some(v) } else { None } } } } }
/// the result of a successful response; None if it is no successful, complete, exactly consumed response
pub open spec fn result<C: TpmCommand, T: Session, U: Session, V: Session>(a: Seq<u8>, p: (Option<T>, Option<U>, Option<V>)) -> Option<(<C::RespT as Marshalable>::V, <C::RespHandles as Marshalable>::V)> {
    if a.len() < 10 || rc_of(a) != 0 || size_of_(a) > a.len() || size_of_(a) < 10 { None } else {
        match <C::RespHandles as Marshalable>::dec(a.subrange(10, size_of_(a) as int)) { Err(_) => None, Ok((h, s)) =>
            match after_handles::<C, T, U, V>(tag_of(a), s, p) { None => None, Some(v) => Some((v, h)) } } } }
//@fn crate=client impl=fn name=read_response_header
//@ensures match r {
//@    Ok((h, n)) => buffer@.len() >= 10 && n == 10 && h.rc == 0 && rc_of(buffer@) == 0 && h.size == size_of_(buffer@) && h.tag.0 == tag_of(buffer@),
//@    Err(e) => buffer@.len() < 10 || (rc_of(buffer@) != 0 && e.0 == rc_of(buffer@)) }
//@pre proof { header_parts(buffer@); }
//@end
pub proof fn header_parts(a: Seq<u8>)
    ensures a.len() >= 10 ==> a.skip(2).skip(4).take(4) =~= a.skip(6).take(4) && a.skip(2).skip(4).skip(4) =~= a.skip(10) {}
//@group CX
/// what run_command does, with the handles h
pub open spec fn ran<C: TpmCommand, T: Connection<Error: From<TssError>>>(c: C::V, h: <C::Handles as Marshalable>::V, s0: Seq<Seq<u8>>, s1: Seq<Seq<u8>>, g0: Seq<Result<Seq<u8>, T::Error>>, g1: Seq<Result<Seq<u8>, T::Error>>, r: Result<C::RespT, T::Error>) -> bool {
    let p = (None::<NoSession>, None::<NoSession>, None::<NoSession>);
    if encodable::<C, NoSession, NoSession, NoSession>(c, h, p) {
        s1 == s0.push(command::<C, NoSession, NoSession, NoSession>(c, h, p)) && g1.len() == g0.len() + 1 && match g1.last() {
            Err(e) => r == Err::<C::RespT, T::Error>(e),
            Ok(a) => match result::<C, NoSession, NoSession, NoSession>(a, p) { Some((v, _)) => r is Ok && r->Ok_0.inv() && r->Ok_0.v() == v, None => r is Err && (a.len() >= 10 && rc_of(a) != 0 ==> reports(rc_of(a), r->Err_0)) } }
    } else { s1 == s0 && r is Err }
}
//@fn crate=client impl=fn name=run_command_with_handles rlimit=60
//@requires cmd.inv(), cmd_handles.inv(), usable3(cmd_sessions.parts())
//@ensures
//@   encodable::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), cmd_sessions.parts()) ==> final(tpm).sent() == old(tpm).sent().push(command::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), cmd_sessions.parts())), /*C13*/
//@   !encodable::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), cmd_sessions.parts()) ==> final(tpm).sent() == old(tpm).sent() && r is Err, /*C13*/
//@   encodable::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), cmd_sessions.parts()) ==> final(tpm).got().len() == old(tpm).got().len() + 1, /*C13*/
//@   encodable::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), cmd_sessions.parts()) ==> match final(tpm).got().last() { Err(e) => r == Err::<(CmdT::RespT, CmdT::RespHandles), T::Error>(e), Ok(a) => true }, /*C14*/
//@   encodable::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), cmd_sessions.parts()) ==> match final(tpm).got().last() { Ok(a) => r is Ok <==> result::<CmdT, X, Y, Z>(a, cmd_sessions.parts()) is Some, Err(e) => true }, /*C14*/
//@   encodable::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), cmd_sessions.parts()) ==> match (final(tpm).got().last(), r) { (Ok(a), Ok((x, h))) => x.inv() && h.inv() && Some((x.v(), h.v())) == result::<CmdT, X, Y, Z>(a, cmd_sessions.parts()), _ => true }, /*C14*/
//@   encodable::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), cmd_sessions.parts()) ==> match (final(tpm).got().last(), r) { (Ok(a), Err(e)) => a.len() >= 10 && rc_of(a) != 0 ==> reports(rc_of(a), e), _ => true }, /*C14*/
//@hint cmd_header.try_marshal ## let ghost p = cmd_sessions.parts(); let ghost b0 = cmd_buffer@; let ghost w0 = written as int; let ghost z = Seq::new(10, |i: int| 0u8) + b0.skip(10); let ghost eh = <CmdT::Handles as Marshalable>::enc(cmd_handles.v()); proof { area_bound(p); assert(b0.skip(10) =~= Seq::<u8>::empty() + z.skip(10)); }
//@hint cmd_handles.try_marshal ## let ghost b1 = cmd_buffer@; let ghost w1 = written as int; proof { part_step(10, b0, w0, b1, w1, Seq::empty(), eh, z); assert(Seq::empty() + eh =~= eh); }
//@hint write_command_sessions ## let ghost b2 = cmd_buffer@; let ghost w2 = written as int; proof { part_step(10, b1, w1, b2, w2, eh, area(p), z); }
//@hint written += cmd.try_marshal ## let ghost b3 = cmd_buffer@; proof { part_step(10, b2, w2, b3, written as int, eh + area(p), CmdT::enc(cmd.v()), z); }
//@hint let _ = cmd_header ## proof { assert(cmd_buffer@.take(written as int) =~= command::<CmdT, X, Y, Z>(cmd.v(), cmd_handles.v(), p)); }
//@pre broadcast use ax::window;
//@end
//@fn crate=client impl=fn name=run_command
//@requires cmd.inv(), forall|h: CmdT::Handles| #[trigger] call_ensures(<CmdT::Handles as Default>::default, (), h) ==> h.inv()
//@ensures exists|h: CmdT::Handles| #[trigger] call_ensures(<CmdT::Handles as Default>::default, (), h) && ran::<CmdT, T>(cmd.v(), h.v(), old(tpm).sent(), final(tpm).sent(), old(tpm).got(), final(tpm).got(), r)
//@end
//@fn crate=client impl=fn name=get_capability
//@requires command.inv()
//@ensures ran::<GetCapabilityCmd, T>(command.v(), (), old(tpm).sent(), final(tpm).sent(), old(tpm).got(), final(tpm).got(), r)
//@end
}
}
fn main() {}
