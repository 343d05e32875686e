#![allow(unused, ambiguous_glob_reexports, non_upper_case_globals, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
verus! {
//@group C19
//@include prelude.rs
pub mod ax {
use super::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::control_flow::spec_from;
use crate::shim::*;
pub struct IoSlice<'a> { pub b: &'a [u8] }
impl<'a> IoSlice<'a> { pub fn new(b: &'a [u8]) -> (r: IoSlice<'a>) ensures r.b@ == b@ { IoSlice { b } } }
pub open spec fn gather(s: Seq<IoSlice>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0].b@ + gather(s.skip(1)) } }
pub broadcast proof fn gather2(s: Seq<IoSlice>)
    ensures s.len() == 1 ==> #[trigger] gather(s) == s[0].b@, s.len() == 2 ==> gather(s) == s[0].b@ + s[1].b@, s.len() == 3 ==> gather(s) == s[0].b@ + s[1].b@ + s[2].b@,
        s.len() == 4 ==> gather(s) == s[0].b@ + s[1].b@ + s[2].b@ + s[3].b@
{
    reveal_with_fuel(gather, 6);
    if s.len() == 1 { assert(gather(s) =~= s[0].b@); }
    if s.len() == 2 { assert(gather(s) =~= s[0].b@ + s[1].b@); }
    if s.len() == 3 { assert(gather(s) =~= s[0].b@ + s[1].b@ + s[2].b@); }
    if s.len() == 4 { assert(gather(s) =~= s[0].b@ + s[1].b@ + s[2].b@ + s[3].b@); }
}
/// no Rust slice is larger than isize::MAX bytes (language reference)
pub broadcast axiom fn slices_are_small(s: &[u8]) ensures #[trigger] s@.len() <= isize::MAX;
pub broadcast proof fn be_words(x: u32) ensures (#[trigger] x.be()).len() == 4, u32::be_inv(x.be()) == x { x.be_rt(); }
pub broadcast axiom fn question_mark_from<S, T: From<S>>(e: S, r: T)
    ensures #[trigger] spec_from::<T, S>(e, r) ==> call_ensures(T::from, (e,), r) && (T::obeys_from_spec() ==> r == T::from_spec(e));
}
pub mod client {
use super::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::control_flow::spec_from;
use crate::shim::*;
use crate::ax::{IoSlice, gather};
use crate::ax;
// ---- what is assumed of std and zerocopy ------------------------------------------------------
#[derive(Clone, Copy)]
pub enum ErrorKind { InvalidInput, InvalidData, WriteZero, UnexpectedEof, Interrupted, Other, NotConnected, BrokenPipe, TimedOut }
pub struct Error { pub kind: ErrorKind }
impl Error {
    #[verifier::external_body] pub fn new<E>(kind: ErrorKind, e: E) -> (r: Error) ensures r.kind == kind { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
pub struct Duration(pub u64);
impl Duration {
    pub fn from_secs(n: u64) -> Duration { Duration(n) }
    pub fn from_millis(n: u64) -> Duration { Duration(n) }
}
#[verifier::external_body] pub fn sleep(d: Duration) { unimplemented!() }
pub enum Shutdown { Read, Write, Both }
/// the kind of an error and nothing else is looked at
impl Error {
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind }
    #[verifier::external_body] pub fn other<E>(e: E) -> (r: Error) ensures r.kind == ErrorKind::Other { unimplemented!() }
}
// ---- processes and files (for TcpSimulator)
#[verifier::external_body] pub struct OsStr { x: u8 }
#[verifier::external_body] pub struct Path { x: u8 }
impl Path {
    pub uninterp spec fn joined(&self, n: Seq<char>) -> Path;
    #[verifier::external_body] pub fn join(&self, n: &str) -> (r: Path) ensures r == self.joined(n@) { unimplemented!() }
}
pub trait AsRef<T> {
    spec fn shown(&self) -> T;
    fn as_ref(&self) -> (r: &T) ensures *r == self.shown();
}
impl<T, U: AsRef<T>> AsRef<T> for &U {
    open spec fn shown(&self) -> T { (**self).shown() }
    fn as_ref(&self) -> (r: &T) { (**self).as_ref() }
}
/// what a process was started with
pub ghost struct Started { pub program: OsStr, pub args: Seq<OsStr>, pub cwd: Option<Path> }
pub open spec fn texts<A: AsRef<OsStr>>(a: Seq<A>) -> Seq<OsStr> { a.map_values(|x: A| x.shown()) }
pub struct Stdio { x: u8 }
impl Stdio { pub fn null() -> Stdio { Stdio { x: 0 } } pub fn inherit() -> Stdio { Stdio { x: 1 } } pub fn piped() -> Stdio { Stdio { x: 2 } } }
#[verifier::external_body] pub struct Command { x: u8 }
impl Command {
    pub uninterp spec fn will(&self) -> Started;
    #[verifier::external_body] pub fn new(p: &OsStr) -> (r: Command) ensures r.will() == (Started { program: *p, args: Seq::empty(), cwd: None }) { unimplemented!() }
    #[verifier::external_body] pub fn current_dir<P: AsRef<Path>>(&mut self, p: P) -> (r: &mut Command)
        ensures r.will() == (Started { cwd: Some(p.shown()), ..old(self).will() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn arg<A: AsRef<OsStr>>(&mut self, a: A) -> (r: &mut Command)
        ensures r.will() == (Started { args: old(self).will().args.push(a.shown()), ..old(self).will() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn args<A: AsRef<OsStr>>(&mut self, a: &[A]) -> (r: &mut Command)
        ensures r.will() == (Started { args: old(self).will().args + texts(a@), ..old(self).will() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn stdin(&mut self, s: Stdio) -> (r: &mut Command) ensures r.will() == old(self).will(), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn stdout(&mut self, s: Stdio) -> (r: &mut Command) ensures r.will() == old(self).will(), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn stderr(&mut self, s: Stdio) -> (r: &mut Command) ensures r.will() == old(self).will(), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn spawn(&mut self) -> (r: Result<Child>) ensures final(self).will() == old(self).will(), r is Ok ==> r->Ok_0.started() == old(self).will() && !r->Ok_0.kill_asked() { unimplemented!() }
}
/// a child process: kill_asked() once kill was called, killed() once that succeeded
#[verifier::external_body] pub struct Child { x: u8 }
pub struct ExitStatus { x: u8 }
impl Child {
    pub uninterp spec fn started(&self) -> Started;
    pub uninterp spec fn kill_asked(&self) -> bool;
    pub uninterp spec fn killed(&self) -> bool;
    #[verifier::external_body] pub fn kill(&mut self) -> (r: Result<()>) ensures final(self).started() == old(self).started(), final(self).kill_asked(), r is Ok ==> final(self).killed() { unimplemented!() }
    #[verifier::external_body] pub fn wait(&mut self) -> (r: Result<ExitStatus>) ensures final(self).started() == old(self).started(), final(self).kill_asked() == old(self).kill_asked(), final(self).killed() == old(self).killed() { unimplemented!() }
}
/// the text of a file as it was when read; held(p, t): the file p held the text t when it was read
#[verifier::external_body] pub struct Text { x: u8 }
pub uninterp spec fn held(p: Path, t: Seq<char>) -> bool;
/// the number a text spells after trimming, if it spells one that fits
pub uninterp spec fn trimmed(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn spells(t: Seq<char>) -> Option<int>;
pub struct ParseIntError { x: u8 }
pub trait FromText: Sized { spec fn of(i: int) -> Self; spec fn fits(i: int) -> bool; }
impl FromText for u16 { open spec fn of(i: int) -> u16 { i as u16 } open spec fn fits(i: int) -> bool { 0 <= i <= 65535 } }
impl FromText for u32 { open spec fn of(i: int) -> u32 { i as u32 } open spec fn fits(i: int) -> bool { 0 <= i <= u32::MAX } }
impl Text {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn trim(&self) -> (r: &Text) ensures r@ == trimmed(self@) { unimplemented!() }
    #[verifier::external_body] pub fn parse<T: FromText>(&self) -> (r: core::result::Result<T, ParseIntError>)
        ensures match spells(self@) { Some(i) => if T::fits(i) { r == core::result::Result::<T, ParseIntError>::Ok(T::of(i)) } else { r is Err }, None => r is Err } { unimplemented!() }
}
#[verifier::external_body] pub fn read_to_string(p: &Path) -> (r: Result<Text>) ensures r is Ok ==> held(*p, r->Ok_0@) { unimplemented!() }
/// E24: the error is replaced by one about which nothing is said
pub trait MapErrAny<T> { spec fn res(&self) -> Option<T>; fn map_err_any(self) -> (r: Result<T>) where Self: Sized ensures match self.res() { Some(v) => r == Result::<T>::Ok(v), None => r is Err }; }
impl<T, E> MapErrAny<T> for core::result::Result<T, E> {
    open spec fn res(&self) -> Option<T> { match self { Ok(v) => Some(*v), Err(_) => None } }
    fn map_err_any(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(Error::other(())) } }
}
pub mod std { pub mod fs { pub use crate::client::read_to_string; } pub mod net { pub use crate::client::Shutdown; } pub mod mem { pub use core::mem::size_of; } pub mod thread { pub use crate::client::sleep; } pub mod time { pub use crate::client::Duration; } pub mod io { pub use crate::client::Error; } }
/// a stream: out() is everything written to it so far, inp() what the peer will still send, in order; failed() once an operation did not complete
#[verifier::external_body]
pub struct TcpStream { x: u8 }
impl TcpStream {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn inp(&self) -> Seq<u8>;
    pub uninterp spec fn failed(&self) -> bool;
    pub uninterp spec fn closed(&self) -> bool;
    pub uninterp spec fn peer(&self) -> (Seq<char>, u16);
    #[verifier::external_body]
    pub fn connect(a: (&str, u16)) -> (r: Result<TcpStream>)
        ensures r is Ok ==> r->Ok_0.peer() == (a.0@, a.1) && r->Ok_0.out() == Seq::<u8>::empty()
    { unimplemented!() }
    pub open spec fn keeps(&self, o: &TcpStream) -> bool { self.failed() == o.failed() && self.closed() == o.closed() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
        ensures final(self).inp() == old(self).inp(), r is Ok ==> final(self).out() == old(self).out() + b@ && final(self).keeps(old(self)),
            r is Err ==> final(self).failed() && part(old(self).out(), final(self).out(), b@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_vectored(&mut self, b: &[IoSlice]) -> (r: Result<usize>)
        ensures final(self).inp() == old(self).inp(), part(old(self).out(), final(self).out(), gather(b@)),
            r is Ok ==> r->Ok_0 <= gather(b@).len() && final(self).out() == old(self).out() + gather(b@).take(r->Ok_0 as int)
                && if r->Ok_0 == gather(b@).len() { final(self).keeps(old(self)) } else { final(self).failed() },
            r is Err ==> final(self).failed()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<()>)
        ensures final(self).out() == old(self).out(), final(b)@.len() == old(b)@.len(),
            r is Ok ==> old(b)@.len() <= old(self).inp().len() && final(b)@ == old(self).inp().take(old(b)@.len() as int)
                && final(self).inp() == old(self).inp().skip(old(b)@.len() as int) && final(self).keeps(old(self)),
            r is Err ==> final(self).failed()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8]) -> (r: Result<usize>)
        ensures final(self).inp() == old(self).inp(), part(old(self).out(), final(self).out(), b@),
            r is Ok ==> r->Ok_0 <= b@.len() && final(self).out() == old(self).out() + b@.take(r->Ok_0 as int) && final(self).keeps(old(self)),
            r is Err ==> final(self).failed()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, b: &mut [u8]) -> (r: Result<usize>)
        ensures final(self).out() == old(self).out(), final(b)@.len() == old(b)@.len(),
            r is Ok ==> r->Ok_0 <= old(b)@.len() && r->Ok_0 <= old(self).inp().len() && final(b)@ == old(self).inp().take(r->Ok_0 as int) + old(b)@.skip(r->Ok_0 as int)
                && final(self).inp() == old(self).inp().skip(r->Ok_0 as int) && final(self).keeps(old(self)),
            r is Err ==> final(self).failed()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<()>)
        ensures final(self).out() == old(self).out(), final(self).inp() == old(self).inp(), r is Ok ==> final(self).keeps(old(self)), r is Err ==> final(self).failed()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&self, how: Shutdown) -> (r: Result<()>) { unimplemented!() }
}
/// at most a prefix of m has been written
pub open spec fn part(a: Seq<u8>, b: Seq<u8>, m: Seq<u8>) -> bool { a.len() <= b.len() <= a.len() + m.len()
    && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] == m[i - a.len()]) }
/// zerocopy: a value and its bytes
pub trait Zc: Sized {
    spec fn zb(&self) -> Seq<u8>;
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.zb();
    fn as_mut_bytes(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).zb(), final(self).zb() == final(r)@;
}
/// zerocopy::network_endian::U32
#[derive(Clone, Copy)]
pub struct U32(pub u32);
impl U32 {
    pub const ZERO: U32 = U32(0);
    pub fn new(v: u32) -> (r: U32) ensures r.0 == v { U32(v) }
    pub fn get(self) -> (r: u32) ensures r == self.0 { self.0 }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for U32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl PartialEq for U32 { fn eq(&self, o: &U32) -> (r: bool) { self.0 == o.0 } }
impl FromSpecImpl<U32> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: U32) -> u32 { e.0 }
}
impl From<U32> for u32 { fn from(e: U32) -> u32 { e.0 } }
impl Default for U32 { fn default() -> (r: U32) ensures r.0 == 0 { U32(0) } }
pub open spec fn zbytes_u8(x: u8) -> Seq<u8> { seq![x] }
pub open spec fn zbytes_U32(x: U32) -> Seq<u8> { x.0.be() }
pub open spec fn zbytes_u32(x: u32) -> Seq<u8> { le(x) }
/// a plain u32 in memory: the byte order of the machine (little-endian assumed)
pub open spec fn le(x: u32) -> Seq<u8> { seq![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8] }
impl Zc for U32 {
    open spec fn zb(&self) -> Seq<u8> { self.0.be() }
    #[verifier::external_body] fn as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn as_mut_bytes(&mut self) -> (r: &mut [u8]) { unimplemented!() }
}
broadcast use {ax::question_mark_from, ax::gather2, ax::slices_are_small, ax::be_words};
//@autoconsts
//@layout crate=client name=SignalHashDataRequestHeader
//@layout crate=client name=SendCommandRequestHeader
//@layout crate=client name=SendCommandResponseHeader
//@layout crate=client name=SetAlternativeResultRequest
//@layout crate=client name=RemoteHandshakeRequest
//@layout crate=client name=RemoteHandshakeResponse
//@layout crate=client name=GetCommandResponseSizesResponse
//@layout crate=client name=ActGetSignaledRequest
//@layout crate=client name=ActGetSignaledResponse
//@layout crate=client name=SetFirmwareHashRequest
//@layout crate=client name=SetFirmwareSvnRequest
#[derive(Clone, Copy)]
//@def crate=client name=SimulatorTpmCommandCode
#[derive(Clone, Copy)]
//@def crate=client name=SimulatorPlatformCommandCode
#[derive(Clone, Copy)]
//@def crate=client name=SimulatorPlatformSignal
//@def crate=client name=TcpConnection
// ---- the simulator protocol ---------------------------------------------------------------------
/// the numbers of the signals (TcpTpmProtocol.h of the TCG reference simulator)
pub open spec fn signal_nr(s: SimulatorPlatformSignal) -> u32 { match s {
    SimulatorPlatformSignal::PowerOn => 1, SimulatorPlatformSignal::PowerOff => 2, SimulatorPlatformSignal::PhysicalPresenceOn => 3, SimulatorPlatformSignal::PhysicalPresenceOff => 4,
    SimulatorPlatformSignal::CancelOn => 9, SimulatorPlatformSignal::CancelOff => 10, SimulatorPlatformSignal::NvOn => 11, SimulatorPlatformSignal::NvOff => 12,
    SimulatorPlatformSignal::KeyCacheOn => 13, SimulatorPlatformSignal::KeyCacheOff => 14, SimulatorPlatformSignal::Reset => 17, SimulatorPlatformSignal::Restart => 18 } }
/// n bytes of reply, then the zero word that ends every reply
pub open spec fn replied(s: Seq<u8>, n: int) -> bool { 0 <= n && n + 4 <= s.len() && s.subrange(n, n + 4) =~= 0u32.be() }
/// message m went out, n bytes of reply and the end mark came back
pub open spec fn exchanged(a: TcpStream, b: TcpStream, m: Seq<u8>, n: int) -> bool {
    b.out() =~= a.out() + m && replied(a.inp(), n) && b.inp() =~= a.inp().skip(n + 4) && b.keeps(&a) }
/// the exchange did not complete: an operation failed or the reply does not end as it must; nothing but (part of) m went out
pub open spec fn broke(a: TcpStream, b: TcpStream, m: Seq<u8>, n: int) -> bool {
    part(a.out(), b.out(), m) && (b.failed() || (n + 4 <= a.inp().len() && !replied(a.inp(), n))) }
pub open spec fn word(s: Seq<u8>, i: int) -> u32 { u32::be_inv(s.subrange(i, i + 4)) }
pub proof fn cuts(s: Seq<u8>)
    ensures forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).take(b) == s.subrange(a, a + b),
        forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).skip(b) == s.skip(a + b),
        forall|b: int| 0 <= b <= s.len() ==> #[trigger] s.take(b) == s.subrange(0, b),
        forall|i: int, x: u32, y: u32| 0 <= i && i + 8 <= s.len() && #[trigger] (x.be() + y.be()) == #[trigger] s.subrange(i, i + 8) ==> word(s, i) == x && word(s, i + 4) == y
{
    assert forall|i: int, x: u32, y: u32| 0 <= i && i + 8 <= s.len() && #[trigger] (x.be() + y.be()) == #[trigger] s.subrange(i, i + 8) implies word(s, i) == x && word(s, i + 4) == y by {
        assert(s.subrange(i, i + 8).subrange(0, 4) =~= s.subrange(i, i + 4)); assert((x.be() + y.be()).subrange(0, 4) =~= x.be());
        assert(s.subrange(i, i + 8).subrange(4, 8) =~= s.subrange(i + 4, i + 8)); assert((x.be() + y.be()).subrange(4, 8) =~= y.be()); }
    assert forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() implies #[trigger] s.skip(a).take(b) == s.subrange(a, a + b) by { assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
    assert forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() implies #[trigger] s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    assert forall|b: int| 0 <= b <= s.len() implies #[trigger] s.take(b) == s.subrange(0, b) by { assert(s.take(b) =~= s.subrange(0, b)); }
}
impl TcpConnection {
//@fn crate=client impl=TcpConnection name=connect
//@ensures r is Ok ==> r->Ok_0.tpm_tcp.peer() == (ip@, match tpm_port { Some(p) => p, None => 2321u16 }) && r->Ok_0.plat_tcp.peer() == (ip@, match plat_port { Some(p) => p, None => 2322u16 })
//@   && r->Ok_0.locality == 0 && r->Ok_0.tpm_tcp.out().len() == 0 && r->Ok_0.plat_tcp.out().len() == 0
//@end
//@fn crate=client impl=TcpConnection name=connect_with_retries
//@ensures r is Ok ==> r->Ok_0.tpm_tcp.peer() == (ip@, match tpm_port { Some(p) => p, None => 2321u16 }) && r->Ok_0.plat_tcp.peer() == (ip@, match plat_port { Some(p) => p, None => 2322u16 })
//@   && r->Ok_0.locality == 0 && r->Ok_0.tpm_tcp.out().len() == 0 && r->Ok_0.plat_tcp.out().len() == 0
//@loop 0 ## invariant 0 <= attempts <= 3 decreases 4 - attempts
//@end
//@fn crate=client impl=TcpConnection name=check_response_end
//@ensures r is Ok ==> exchanged(*old(stream), *final(stream), Seq::empty(), 0), r is Err ==> broke(*old(stream), *final(stream), Seq::empty(), 0), final(stream).out() == old(stream).out()
//@pre proof { cuts(stream.inp()); }
//@end
//@fn crate=client impl=TcpConnection name=set_locality
//@ensures final(self).locality == locality, final(self).tpm_tcp == old(self).tpm_tcp, final(self).plat_tcp == old(self).plat_tcp
//@end
//@fn crate=client impl=TcpConnection name=platform_signal
//@ensures final(self).locality == old(self).locality, final(self).tpm_tcp == old(self).tpm_tcp,
//@   r is Ok ==> exchanged(old(self).plat_tcp, final(self).plat_tcp, signal_nr(signal).be(), 0),
//@   r is Err ==> broke(old(self).plat_tcp, final(self).plat_tcp, signal_nr(signal).be(), 0)
//@end
//@fn crate=client impl=TcpConnection name=test_failure_mode
//@ensures final(self).locality == old(self).locality, final(self).tpm_tcp == old(self).tpm_tcp,
//@   r is Ok ==> exchanged(old(self).plat_tcp, final(self).plat_tcp, 30u32.be(), 0),
//@   r is Err ==> broke(old(self).plat_tcp, final(self).plat_tcp, 30u32.be(), 0)
//@end
//@fn crate=client impl=TcpConnection name=set_firmware_hash
//@ensures final(self).locality == old(self).locality, final(self).tpm_tcp == old(self).tpm_tcp,
//@   r is Ok ==> exchanged(old(self).plat_tcp, final(self).plat_tcp, 35u32.be() + hash.be(), 0),
//@   r is Err ==> broke(old(self).plat_tcp, final(self).plat_tcp, 35u32.be() + hash.be(), 0)
//@end
//@fn crate=client impl=TcpConnection name=set_firmware_svn
//@ensures final(self).locality == old(self).locality, final(self).tpm_tcp == old(self).tpm_tcp,
//@   r is Ok ==> exchanged(old(self).plat_tcp, final(self).plat_tcp, 36u32.be() + svn.be(), 0),
//@   r is Err ==> broke(old(self).plat_tcp, final(self).plat_tcp, 36u32.be() + svn.be(), 0)
//@end
//@fn crate=client impl=TcpConnection name=set_alternative_result
//@ensures final(self).locality == old(self).locality, final(self).plat_tcp == old(self).plat_tcp,
//@   r is Ok ==> exchanged(old(self).tpm_tcp, final(self).tpm_tcp, 16u32.be() + result.be(), 0),
//@   r is Err ==> broke(old(self).tpm_tcp, final(self).tpm_tcp, 16u32.be() + result.be(), 0)
//@end
//@fn crate=client impl=TcpConnection name=act_get_signaled
//@ensures final(self).locality == old(self).locality, final(self).tpm_tcp == old(self).tpm_tcp,
//@   r is Ok ==> exchanged(old(self).plat_tcp, final(self).plat_tcp, 26u32.be() + act_handle.be(), 4) && r->Ok_0 == word(old(self).plat_tcp.inp(), 0),
//@   r is Err ==> broke(old(self).plat_tcp, final(self).plat_tcp, 26u32.be() + act_handle.be(), 4)
//@pre proof { cuts(self.plat_tcp.inp()); }
//@end
//@fn crate=client impl=TcpConnection name=remote_handshake
//@ensures final(self).locality == old(self).locality, final(self).plat_tcp == old(self).plat_tcp,
//@   r is Ok ==> exchanged(old(self).tpm_tcp, final(self).tpm_tcp, 15u32.be() + client_version.be(), 8) && r->Ok_0.server_version.0 == word(old(self).tpm_tcp.inp(), 0) && r->Ok_0.endpoint_info.0 == word(old(self).tpm_tcp.inp(), 4),
//@   r is Err ==> broke(old(self).tpm_tcp, final(self).tpm_tcp, 15u32.be() + client_version.be(), 8)
//@pre proof { cuts(self.tpm_tcp.inp()); }
//@end
//@fn crate=client impl=TcpConnection name=get_command_response_sizes
//@ensures final(self).locality == old(self).locality, final(self).tpm_tcp == old(self).tpm_tcp,
//@   r is Ok ==> word(old(self).plat_tcp.inp(), 0) == 16 && exchanged(old(self).plat_tcp, final(self).plat_tcp, 25u32.be(), 20) && r->Ok_0.zb() == old(self).plat_tcp.inp().subrange(4, 20),
//@   r is Err ==> broke(old(self).plat_tcp, final(self).plat_tcp, 25u32.be(), 20) || (old(self).plat_tcp.inp().len() >= 4 && word(old(self).plat_tcp.inp(), 0) != 16)
//@pre proof { cuts(self.plat_tcp.inp()); size_GetCommandResponseSizesResponse(); }
//@end
//@fn crate=client impl=TcpConnection name=reinit
//@ensures final(self).locality == old(self).locality, final(self).tpm_tcp == old(self).tpm_tcp,
//@   r is Ok ==> final(self).plat_tcp.out() =~= old(self).plat_tcp.out() + 12u32.be() + 2u32.be() + 1u32.be() + 11u32.be() && final(self).plat_tcp.inp() =~= old(self).plat_tcp.inp().skip(16)
//@       && replied(old(self).plat_tcp.inp(), 0) && replied(old(self).plat_tcp.inp(), 4) && replied(old(self).plat_tcp.inp(), 8) && replied(old(self).plat_tcp.inp(), 12),
//@   part(old(self).plat_tcp.out(), final(self).plat_tcp.out(), 12u32.be() + 2u32.be() + 1u32.be() + 11u32.be())
//@pre proof { cuts(self.plat_tcp.inp()); }
//@end
//@fn crate=client impl=TcpConnection name=hcrtm_sequence
//@requires data@.len() <= u32::MAX
//@ensures final(self).locality == old(self).locality, final(self).plat_tcp == old(self).plat_tcp,
//@   r is Ok ==> final(self).tpm_tcp.out() =~= old(self).tpm_tcp.out() + 5u32.be() + 6u32.be() + (data@.len() as u32).be() + data@ + 7u32.be() && final(self).tpm_tcp.inp() =~= old(self).tpm_tcp.inp().skip(12)
//@       && replied(old(self).tpm_tcp.inp(), 0) && replied(old(self).tpm_tcp.inp(), 4) && replied(old(self).tpm_tcp.inp(), 8),
//@   part(old(self).tpm_tcp.out(), final(self).tpm_tcp.out(), 5u32.be() + 6u32.be() + (data@.len() as u32).be() + data@ + 7u32.be())
//@pre proof { cuts(self.tpm_tcp.inp()); }
//@end
//@fn crate=client impl=TcpConnection name=session_end
//@ensures final(self).locality == old(self).locality, r is Ok ==> final(self).tpm_tcp.out() == old(self).tpm_tcp.out() + 20u32.be() && final(self).plat_tcp.out() == old(self).plat_tcp.out() + 20u32.be(),
//@   part(old(self).tpm_tcp.out(), final(self).tpm_tcp.out(), 20u32.be()), part(old(self).plat_tcp.out(), final(self).plat_tcp.out(), 20u32.be())
//@end
//@fn crate=client impl=TcpConnection name=stop_simulator
//@ensures final(self).locality == old(self).locality, r is Ok ==> final(self).tpm_tcp.out() == old(self).tpm_tcp.out() + 21u32.be() && final(self).plat_tcp.out() == old(self).plat_tcp.out() + 21u32.be(),
//@   part(old(self).tpm_tcp.out(), final(self).tpm_tcp.out(), 21u32.be()), part(old(self).plat_tcp.out(), final(self).plat_tcp.out(), 21u32.be())
//@end
}
//@group C21
//@def crate=client name=TcpSimulator
/// the port a file holds
pub open spec fn port_in(p: Path, n: u16) -> bool { exists|t: Seq<char>| #[trigger] held(p, t) && spells(trimmed(t)) == Some(n as int) }
/// connected to the two ports the simulator in d wrote down
pub open spec fn reached(d: Path, ip: Seq<char>, c: TcpConnection) -> bool { exists|a: u16, b: u16|
    #[trigger] port_in(d.joined("command.port"@), a) && #[trigger] port_in(d.joined("platform.port"@), b) && c.tpm_tcp.peer() == (ip, a) && c.plat_tcp.peer() == (ip, b)
    && c.locality == 0 && c.tpm_tcp.out().len() == 0 && c.plat_tcp.out().len() == 0 }
impl TcpSimulator {
//@fn crate=client impl=TcpSimulator name=new
//@ensures r is Ok ==> reached(cwd.shown(), ip@, r->Ok_0.conn) && !r->Ok_0.child.kill_asked()
//@   && r->Ok_0.child.started().program == bin.shown() && r->Ok_0.child.started().args =~= texts(args@) && r->Ok_0.child.started().cwd == Some(cwd.shown())
//@end
//@fn crate=client impl=TcpSimulator name=connect
//@ensures r is Ok ==> reached(*cwd, ip@, r->Ok_0)
//@end
//@fn crate=client impl=TcpSimulator name=read_port_from_file_with_retries
//@ensures r is Ok ==> port_in(*path, r->Ok_0)
//@loop 0 ## invariant 0 <= attempts <= 3 decreases 4 - attempts
//@end
//@fn crate=client impl=TcpSimulator name=stop_nicely
//@ensures final(self).child == old(self).child, final(self).conn.locality == old(self).conn.locality,
//@   r is Ok ==> final(self).conn.tpm_tcp.out() == old(self).conn.tpm_tcp.out() + 21u32.be() && final(self).conn.plat_tcp.out() == old(self).conn.plat_tcp.out() + 21u32.be()
//@end
//@fn crate=client impl=TcpSimulator name=stop
//@ensures final(self).conn == old(self).conn, final(self).child.kill_asked(), r is Ok ==> final(self).child.killed()
//@end
//@fn crate=client impl=TcpSimulator name=connection
//@ensures *r == self.conn
//@end
//@fn crate=client impl=TcpSimulator name=connection_mut
//@ensures *r == old(self).conn, final(self).conn == *final(r), final(self).child == old(self).child
//@end
/// asked to stop on both interfaces, or else killed
//@fn crate=client impl="Drop for TcpSimulator" name=drop
//@ensures (final(self).conn.tpm_tcp.out() == old(self).conn.tpm_tcp.out() + 21u32.be() && final(self).conn.plat_tcp.out() == old(self).conn.plat_tcp.out() + 21u32.be())
//@   || final(self).child.kill_asked()
//@end
}
//@group C19
pub open spec fn framed(locality: u8, c: Seq<u8>) -> Seq<u8> { 8u32.be() + (seq![locality] + (c.len() as u32).be()) + c }
pub trait Connection {
    type Error;
    spec fn before(&self, c: Seq<u8>, room: nat) -> bool;
    spec fn did(a: Self, b: Self, c: Seq<u8>, room: nat, r: core::result::Result<Seq<u8>, Self::Error>) -> bool where Self: Sized;
    fn transact<'a>(&mut self, command: &[u8], response: &'a mut [u8]) -> (r: core::result::Result<&'a mut [u8], Self::Error>) where Self: Sized
        ensures Self::did(*old(self), *final(self), command@, old(response)@.len(), match r { Ok(s) => Ok(s@), Err(e) => Err(e) });
}
impl Connection for TcpConnection {
    type Error = Error;
    open spec fn before(&self, c: Seq<u8>, room: nat) -> bool { true }
    /// locality, length and command go out; the reply's length, that many bytes, the end mark come back
    open spec fn did(a: Self, b: Self, c: Seq<u8>, room: nat, r: core::result::Result<Seq<u8>, Error>) -> bool {
        let n = word(a.tpm_tcp.inp(), 0);
        b.locality == a.locality && b.plat_tcp == a.plat_tcp && match r {
            Ok(s) => c.len() <= u32::MAX && n <= room && exchanged(a.tpm_tcp, b.tpm_tcp, framed(a.locality, c), 4 + n) && s =~= a.tpm_tcp.inp().subrange(4, 4 + n),
            Err(e) => (c.len() > u32::MAX && b.tpm_tcp.out() == a.tpm_tcp.out()) || (c.len() <= u32::MAX && (broke(a.tpm_tcp, b.tpm_tcp, framed(a.locality, c), 4 + n) || (a.tpm_tcp.inp().len() >= 4 && n > room && b.tpm_tcp.out() =~= a.tpm_tcp.out() + framed(a.locality, c)))) } }
//@fn crate=client impl="Connection for TcpConnection" name=transact
//@pre proof { cuts(self.tpm_tcp.inp()); }
//@end
}
impl RemoteHandshakeResponse {
//@fn crate=client impl=RemoteHandshakeResponse name=server_version
//@ensures r == self.server_version.0
//@end
//@fn crate=client impl=RemoteHandshakeResponse name=endpoint_info
//@ensures r == self.endpoint_info.0
//@end
}
impl GetCommandResponseSizesResponse {
//@fn crate=client impl=GetCommandResponseSizesResponse name=largest_command_size
//@ensures le(r) =~= self.zb().subrange(0, 4)
//@end
//@fn crate=client impl=GetCommandResponseSizesResponse name=largest_command
//@ensures r.be() =~= self.zb().subrange(4, 8)
//@end
//@fn crate=client impl=GetCommandResponseSizesResponse name=largest_response_size
//@ensures le(r) =~= self.zb().subrange(8, 12)
//@end
//@fn crate=client impl=GetCommandResponseSizesResponse name=largest_response
//@ensures r.be() =~= self.zb().subrange(12, 16)
//@end
}
}
}
fn main() {}
