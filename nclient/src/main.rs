//! native driver for the client (crates/tpm2-client): /repo's compiled code against an independent model
use std::panic::{AssertUnwindSafe, catch_unwind};
use tpm2_client::connection::Connection;
use tpm2_client::sessions::{AuthorizationArea, AuthorizationArea1Plus, AuthorizationArea2Plus, NoSession, PasswordSession, Session};
use tpm2_client::{get_capability, read_response_header, read_response_sessions, run_command, run_command_with_handles, write_command_sessions};
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::{TpmRcError, TssError, TssResult, TssTcsError};
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error, Marshalable, UnmarshalBuf};

mod sim;
mod tcp;

type MR<T> = Result<T, Error>;

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
    fn bytes(&mut self, n: usize) -> Vec<u8> { let z = self.below(6); (0..n).map(|_| match z { 0 => 0, 1 => 0xFF, _ => self.next() as u8 }).collect() }
}
fn hex(b: &[u8]) -> String { let s: String = b.iter().take(300).map(|x| format!("{x:02x}")).collect(); if b.len() > 300 { format!("{s}..({} bytes)", b.len()) } else { s } }

// ---- parties -------------------------------------------------------------------------------------
/// writes (and on failure may have written part of) a fixed byte string
#[derive(Clone, Debug, PartialEq, Default)]
struct Raw { b: Vec<u8>, bad: bool }
fn raw_marshal(r: &Raw, buf: &mut [u8]) -> MR<usize> {
    if r.bad { let n = r.b.len().min(buf.len()); buf[..n].copy_from_slice(&r.b[..n]); return Err(Error::ArrayLengthExceeded); }
    if r.b.len() > buf.len() { let n = buf.len(); buf.copy_from_slice(&r.b[..n]); return Err(Error::UnexpectedEndOfBuffer); }
    buf[..r.b.len()].copy_from_slice(&r.b);
    Ok(r.b.len())
}
/// u16 count, then that many bytes, at most CAP
#[derive(Clone, Debug, PartialEq)]
struct Counted<const CAP: usize>(Vec<u8>);
impl<const CAP: usize> Marshalable for Counted<CAP> {
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MR<Self> {
        let n = u16::try_unmarshal(b)? as usize;
        if n > CAP { return Err(Error::ArrayLengthExceeded); }
        Ok(Counted(b.get(n).ok_or(Error::UnexpectedEndOfBuffer)?.to_vec()))
    }
    fn try_marshal(&self, _: &mut [u8]) -> MR<usize> { unreachable!() }
}
#[derive(Clone, Debug, PartialEq)]
struct Words<const N: usize>(Vec<u32>);
impl<const N: usize> Marshalable for Words<N> {
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MR<Self> { let mut v = vec![]; for _ in 0..N { v.push(u32::try_unmarshal(b)?); } Ok(Words(v)) }
    fn try_marshal(&self, _: &mut [u8]) -> MR<usize> { unreachable!() }
}
#[derive(Clone, Debug, PartialEq)]
struct Hnd(Raw);
impl Default for Hnd { fn default() -> Self { Hnd(Raw { b: vec![0x40, 0, 0, 7], bad: false }) } }
impl Marshalable for Hnd { fn try_unmarshal(_: &mut UnmarshalBuf) -> MR<Self> { unreachable!() } fn try_marshal(&self, b: &mut [u8]) -> MR<usize> { raw_marshal(&self.0, b) } }
#[derive(Clone, Debug)]
struct Cmd<const CC: u32, const RH: usize>(Raw);
impl<const CC: u32, const RH: usize> Marshalable for Cmd<CC, RH> { fn try_unmarshal(_: &mut UnmarshalBuf) -> MR<Self> { unreachable!() } fn try_marshal(&self, b: &mut [u8]) -> MR<usize> { raw_marshal(&self.0, b) } }
impl<const CC: u32, const RH: usize> TpmCommand for Cmd<CC, RH> {
    const CMD_CODE: TpmCc = TpmCc(CC);
    type Handles = Hnd;
    type RespT = Counted<3000>;
    type RespHandles = Words<RH>;
}

#[derive(Debug, PartialEq)]
enum CErr { Conn(u32), Tss(TssError) }
impl core::fmt::Display for CErr { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{self:?}") } }
impl core::error::Error for CErr {}
impl From<TssError> for CErr { fn from(e: TssError) -> Self { CErr::Tss(e) } }
struct Conn { sent: Vec<Vec<u8>>, answer: Result<Vec<u8>, u32>, off: usize, noise: u8 }
impl Connection for Conn {
    type Error = CErr;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], CErr> {
        self.sent.push(cmd.to_vec());
        for (i, b) in rsp.iter_mut().enumerate() { *b = self.noise.wrapping_mul(i as u8 | 1); }
        match &self.answer {
            Err(e) => Err(CErr::Conn(*e)),
            Ok(a) => {
                let n = a.len().min(rsp.len());
                let o = self.off.min(rsp.len() - n);
                rsp[o..o + n].copy_from_slice(&a[..n]);
                Ok(&mut rsp[o..o + n])
            }
        }
    }
}
/// a session with given contents that accepts one given answer
#[derive(Clone, Debug)]
struct Ses { h: u32, nonce: Vec<u8>, attr: u8, hmac: Vec<u8>, want: Vec<u8> }
fn h2(x: u32) -> TpmiShAuthSession { let b = x.to_be_bytes(); TpmiShAuthSession::try_unmarshal(&mut UnmarshalBuf::new(&b)).unwrap() }
impl Session for Ses {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        TpmsAuthCommand { session_handle: h2(self.h), nonce: Tpm2bNonce::from_bytes(&self.nonce).unwrap(), session_attributes: TpmaSession(self.attr), hmac: Tpm2bAuth::from_bytes(&self.hmac).unwrap() }
    }
    fn validate_auth_response(&self, a: &TpmsAuthResponse) -> TssResult<()> {
        let mut g = vec![];
        g.extend((a.nonce.get_buffer().len() as u16).to_be_bytes());
        g.extend(a.nonce.get_buffer());
        g.push(a.session_attributes.0);
        g.extend((a.hmac.get_buffer().len() as u16).to_be_bytes());
        g.extend(a.hmac.get_buffer());
        if g == self.want { Ok(()) } else { Err(TssTcsError::BadParameter.into()) }
    }
}

// ---- the model -------------------------------------------------------------------------------------
/// one session as the model sees it: what it sends; which answers it accepts
trait MS: Session { fn enc(&self) -> Vec<u8>; fn acc(&self, raw: &[u8], nonce: &[u8], attr: u8, hmac: &[u8]) -> bool; }
impl MS for Ses {
    fn enc(&self) -> Vec<u8> {
        let mut o = self.h.to_be_bytes().to_vec();
        o.extend((self.nonce.len() as u16).to_be_bytes()); o.extend(&self.nonce); o.push(self.attr);
        o.extend((self.hmac.len() as u16).to_be_bytes()); o.extend(&self.hmac);
        o
    }
    fn acc(&self, raw: &[u8], _: &[u8], _: u8, _: &[u8]) -> bool { raw == self.want }
}
struct Pw(PasswordSession, Vec<u8>);
impl Session for Pw { fn get_auth_command(&self) -> TpmsAuthCommand { self.0.get_auth_command() } fn validate_auth_response(&self, a: &TpmsAuthResponse) -> TssResult<()> { self.0.validate_auth_response(a) } }
impl MS for Pw {
    fn enc(&self) -> Vec<u8> { let mut o = vec![0x40, 0, 0, 9, 0, 0, 0]; o.extend((self.1.len() as u16).to_be_bytes()); o.extend(&self.1); o }
    fn acc(&self, _: &[u8], n: &[u8], a: u8, h: &[u8]) -> bool { n.is_empty() && a == 1 && h.is_empty() }
}
impl MS for NoSession { fn enc(&self) -> Vec<u8> { unreachable!() } fn acc(&self, _: &[u8], _: &[u8], _: u8, _: &[u8]) -> bool { unreachable!() } }
fn m_area(ss: &[&dyn Fn() -> Vec<u8>]) -> Vec<u8> {
    if ss.is_empty() { return vec![]; }
    let b: Vec<u8> = ss.iter().flat_map(|f| f()).collect();
    let mut o = (b.len() as u32).to_be_bytes().to_vec();
    o.extend(b);
    o
}
fn be16(s: &[u8]) -> Option<(usize, &[u8])> { if s.len() < 2 { None } else { Some((s[0] as usize * 256 + s[1] as usize, &s[2..])) } }
fn be32(s: &[u8]) -> Option<(u32, &[u8])> { if s.len() < 4 { None } else { Some((u32::from_be_bytes(s[..4].try_into().unwrap()), &s[4..])) } }
fn b2(s: &[u8], cap: usize) -> Option<(&[u8], &[u8])> { let (n, s) = be16(s)?; if n > cap || n > s.len() { None } else { Some(s.split_at(n)) } }
type Acc<'a> = &'a dyn Fn(&[u8], &[u8], u8, &[u8]) -> bool;
/// one acknowledgement per session, in order; what remains
fn m_check<'a>(accs: &[Acc], mut s: &'a [u8]) -> Option<&'a [u8]> {
    for a in accs {
        let s0 = s;
        let (n, t) = b2(s, 64)?;
        if t.is_empty() { return None; }
        let at = t[0];
        let (h, t) = b2(&t[1..], 64)?;
        if !a(&s0[..s0.len() - t.len()], n, at, h) { return None; }
        s = t;
    }
    Some(s)
}
fn m_result(rh: usize, accs: &[Acc], a: &[u8]) -> Result<(Vec<u8>, Vec<u32>), Option<u32>> {
    if a.len() < 10 { return Err(None); }
    let rc = be32(&a[6..]).unwrap().0;
    if rc != 0 { return Err(Some(rc)); }
    let size = be32(&a[2..]).unwrap().0 as usize;
    if size > a.len() || size < 10 { return Err(None); }
    let mut s = &a[10..size];
    (|| {
        let mut hs = vec![];
        for _ in 0..rh { let (h, t) = be32(s)?; hs.push(h); s = t; }
        if a[..2] == [0x80, 0x02] { s = be32(s)?.1; }
        let (p, t) = b2(s, 3000)?;
        let t = m_check(accs, t)?;
        if t.is_empty() { Some((p.to_vec(), hs)) } else { None }
    })().ok_or(None)
}

struct Drv { want: Vec<String>, r: Rng, lits: Vec<u64>, fails: Vec<(String, String, String)>, cases: u64 }
impl Drv {
    fn fail(&mut self, p: &str, t: &str, m: String) { if self.fails.iter().filter(|f| f.0 == p && f.1 == t).count() < 3 { self.fails.push((p.into(), t.into(), m)); } }
    fn wants(&self, p: &str) -> bool { self.want.iter().any(|w| w == p) }
    fn guard<T>(&mut self, p: &str, t: &str, m: String, f: impl FnOnce() -> T) -> Option<T> {
        self.cases += 1;
        match catch_unwind(AssertUnwindSafe(f)) { Ok(x) => Some(x), Err(e) => {
            let w = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            self.fail(p, t, format!("{m}: panicked: {w}")); None } }
    }
    fn lit(&mut self) -> u64 { if self.lits.is_empty() { 0 } else { let i = self.r.below(self.lits.len()); self.lits[i] } }
    fn len(&mut self, max: usize) -> usize {
        match self.r.below(8) { 0 => 0, 1 => max, 2 => self.lit() as usize % (max + 1), 3 => self.r.below(max + 1), 4 => max - self.r.below(4.min(max + 1)), _ => self.r.below(max.min(24) + 1) }
    }
    fn u32(&mut self) -> u32 { match self.r.below(4) { 0 => self.lit() as u32, 1 => self.r.below(4) as u32, 2 => 1 << self.r.below(32), _ => self.r.next() as u32 } }
    fn ack(&mut self) -> Vec<u8> {
        let (a, b) = match self.r.below(4) { 0 | 1 => (0, 0), 2 => (self.len(64), self.len(64)), _ => (self.len(8), 0) };
        let mut o = (a as u16).to_be_bytes().to_vec();
        o.extend(self.r.bytes(a)); o.push(if self.r.below(3) > 0 { 1 } else { self.u32() as u8 });
        o.extend((b as u16).to_be_bytes()); o.extend(self.r.bytes(b));
        o
    }
    fn ses(&mut self) -> Ses { let want = self.ack(); Ses { h: self.u32(), nonce: { let n = self.len(64); self.r.bytes(n) }, attr: self.u32() as u8, hmac: { let n = self.len(64); self.r.bytes(n) }, want } }
    fn pw(&mut self) -> Pw { let n = self.len(64); let p = self.r.bytes(n); Pw(PasswordSession::new(&p).unwrap_or_default(), p) }

    /// one command with the given sessions, one scripted answer
    fn command<const CC: u32, const RH: usize, X: Session, Y: Session, Z: Session, AA: AuthorizationArea<X, Y, Z>>(&mut self, aa: AA, encs: Vec<Vec<u8>>, accs: &[Acc], acks: &[Vec<u8>], what: &str) {
        let area = { let fs: Vec<Box<dyn Fn() -> Vec<u8>>> = encs.iter().cloned().map(|e| Box::new(move || e.clone()) as Box<dyn Fn() -> Vec<u8>>).collect(); let v: Vec<&dyn Fn() -> Vec<u8>> = fs.iter().map(|f| &**f).collect(); m_area(&v) };
        let hb = match self.r.below(4) { 0 => vec![], 1 => self.r.bytes(4), 2 => self.r.bytes(8), _ => { let n = self.len(40); self.r.bytes(n) } };
        let room = 4096 - 10 - hb.len() - area.len();
        let n = match self.r.below(6) { 0 => room, 1 => room + 1 + self.r.below(3), 2 => room - self.r.below(12), 3 => self.lit() as usize % (room + 1), _ => self.len(60) };
        let cmd = Cmd::<CC, RH>(Raw { b: self.r.bytes(n), bad: self.r.below(40) == 0 });
        let h = Hnd(Raw { b: hb, bad: self.r.below(40) == 0 });
        let body: Vec<u8> = [&h.0.b[..], &area, &cmd.0.b].concat();
        let expect = if cmd.0.bad || h.0.bad || body.len() + 10 > 4096 { None } else {
            let mut o = if encs.is_empty() { vec![0x80, 1] } else { vec![0x80, 2] };
            o.extend((body.len() as u32 + 10).to_be_bytes()); o.extend(CC.to_be_bytes()); o.extend(&body);
            Some(o)
        };
        // the answer
        let tag = match self.r.below(8) { 0 => 0x8001, 1 => 0x8002, 2 => self.u32() as u16, _ => if encs.is_empty() { 0x8001 } else { 0x8002 } };
        let mut b: Vec<u8> = vec![];
        for _ in 0..RH { b.extend(self.u32().to_be_bytes()); }
        let pn = match self.r.below(8) { 0 => 3000, 1 => self.len(3000), _ => self.len(40) };
        let ps: Vec<u8> = [&(pn as u16).to_be_bytes()[..], &self.r.bytes(pn)].concat();
        if tag == 0x8002 { let l = if self.r.below(6) == 0 { self.u32() } else { ps.len() as u32 }; b.extend(l.to_be_bytes()); }
        b.extend(&ps);
        let mut acks: Vec<Vec<u8>> = acks.to_vec();
        match self.r.below(10) {
            0 => { acks.pop(); }
            1 => { let a = self.ack(); acks.push(a); }
            2 => acks.reverse(),
            3 if !acks.is_empty() => { let i = self.r.below(acks.len()); acks[i] = self.ack(); }
            4 if !acks.is_empty() => { let i = self.r.below(acks.len()); let j = self.r.below(acks[i].len()); acks[i][j] ^= 1 << self.r.below(8); }
            _ => {}
        }
        for a in &acks { b.extend(a); }
        let rc = match self.r.below(8) { 0 => self.u32(), 1 => 0x101, _ => 0 };
        let mut a = tag.to_be_bytes().to_vec();
        a.extend((b.len() as u32 + 10).to_be_bytes()); a.extend(rc.to_be_bytes()); a.extend(&b);
        match self.r.below(12) {
            0 => { let k = self.r.below(a.len() + 1); a.truncate(k); }
            1 => { let k = 1 + self.r.below(20); let x = self.r.bytes(k); a.extend(x); }
            2 => { let k = 1 + self.r.below(20); let x = self.r.bytes(k); a.extend(x); let l = a.len() as u32; a[2..6].copy_from_slice(&l.to_be_bytes()); }
            3 => { let l = self.u32(); a[2..6].copy_from_slice(&l.to_be_bytes()); }
            4 => { let l = self.r.below(a.len() + 6) as u32; a[2..6].copy_from_slice(&l.to_be_bytes()); }
            5 => { let i = self.r.below(a.len()); a[i] ^= 1 << self.r.below(8); }
            6 if self.r.below(3) == 0 => { let k = self.len(60); a = self.r.bytes(k); }
            7 if self.r.below(2) == 0 => { let k = 4096 - a.len().min(4096); let x = self.r.bytes(k); a.extend(x); }
            _ => {}
        }
        a.truncate(4096);
        let answer = if self.r.below(20) == 0 { Err(self.u32()) } else { Ok(a) };
        let mut conn = Conn { sent: vec![], answer: answer.clone(), off: if self.r.below(4) == 0 { self.r.below(4096) } else { 0 }, noise: self.r.next() as u8 };
        let desc = format!("{what}: code {CC:#x}, handles {}{}, sessions {:?}, parameters {}{}, answer {}", hex(&h.0.b), if h.0.bad { " (not encodable)" } else { "" }, encs.iter().map(|e| hex(e)).collect::<Vec<_>>(), hex(&cmd.0.b), if cmd.0.bad { " (not encodable)" } else { "" },
            match &answer { Ok(a) => hex(a), Err(e) => format!("connection error {e:#x}") });
        let pp = if self.wants("C13") { "C13" } else { "C14" };
        let Some(r) = self.guard(pp, "run_command_with_handles", desc.clone(), || run_command_with_handles::<_, _, X, Y, Z, AA>(&cmd, h.clone(), aa, &mut conn)) else { return };
        let want_sent: Vec<Vec<u8>> = expect.iter().cloned().collect();
        if conn.sent != want_sent {
            self.fail("C13", "run_command_with_handles", format!("{desc}: sent {:?}, expected {:?}", conn.sent.iter().map(|e| hex(e)).collect::<Vec<_>>(), want_sent.iter().map(|e| hex(e)).collect::<Vec<_>>()));
            return;
        }
        if expect.is_none() { if r.is_ok() { self.fail("C13", "run_command_with_handles", format!("{desc}: Ok although the command cannot be encoded")); } return; }
        match &answer {
            Err(e) => if r != Err(CErr::Conn(*e)) { self.fail("C14", "run_command_with_handles", format!("{desc}: {r:?}, expected the connection's error")) },
            Ok(a) => match m_result(RH, accs, a) {
                Ok((p, hs)) => if r != Ok((Counted(p.clone()), Words(hs.clone()))) { self.fail("C14", "run_command_with_handles", format!("{desc}: {:?}, expected parameters {} handles {hs:x?}", r.map(|x| (hex(&x.0.0), x.1)), hex(&p))) },
                Err(Some(rc)) => if r != Err(CErr::Tss(TssError::try_from(rc).ok().unwrap())) { self.fail("C14", "run_command_with_handles", format!("{desc}: {:?}, expected TPM error {rc:#x}", r.map(|x| hex(&x.0.0)))) },
                Err(None) => if r.is_ok() || matches!(r, Err(CErr::Conn(_))) { self.fail("C14", "run_command_with_handles", format!("{desc}: {:?}, expected an error", r.map(|x| (hex(&x.0.0), x.1)))) },
            },
        }
    }
    fn commands(&mut self) {
        match self.r.below(9) {
            0 => self.command::<0x144, 0, NoSession, NoSession, NoSession, ()>((), vec![], &[], &[], "no session"),
            1 => self.command::<0x17b, 1, NoSession, NoSession, NoSession, ()>((), vec![], &[], &[], "no session, one response handle"),
            2 => { let s = self.pw(); let e = vec![s.enc()]; let ok = vec![0, 0, 1, 0, 0]; self.command::<0x131, 1, Pw, NoSession, NoSession, Pw>(s, e, &[&|_, n, a, h| n.is_empty() && a == 1 && h.is_empty()], &[ok], "password") }
            3 => { let s = self.ses(); let c = s.clone(); let e = vec![s.enc()]; let k = vec![s.want.clone()]; self.command::<0x20000001, 0, Ses, NoSession, NoSession, Ses>(s, e, &[&move |r, n, a, h| c.acc(r, n, a, h)], &k, "one session") }
            4 | 5 => { let (s, t) = (self.ses(), self.pw()); let c = s.clone(); let e = vec![s.enc(), t.enc()]; let k = vec![s.want.clone(), vec![0, 0, 1, 0, 0]]; self.command::<0xFFFFFFFF, 2, Ses, Pw, NoSession, (Ses, Pw)>((s, t), e, &[&move |r, n, a, h| c.acc(r, n, a, h), &|_, n, a, h| n.is_empty() && a == 1 && h.is_empty()], &k, "session, password") }
            _ => { let (s, t, u) = (self.ses(), self.ses(), self.ses()); let (c, d, f) = (s.clone(), t.clone(), u.clone()); let e = vec![s.enc(), t.enc(), u.enc()]; let k = vec![s.want.clone(), t.want.clone(), u.want.clone()]; self.command::<0x17e, 1, Ses, Ses, Ses, (Ses, Ses, Ses)>((s, t, u), e, &[&move |r, n, a, h| c.acc(r, n, a, h), &move |r, n, a, h| d.acc(r, n, a, h), &move |r, n, a, h| f.acc(r, n, a, h)], &k, "three sessions") }
        }
    }
    /// the commands the crates define, through run_command and get_capability
    fn real(&mut self) {
        let data = { let n = self.len(64); self.r.bytes(n) };
        let mut ans = vec![0x80, 1, 0, 0, 0, 0, 0, 0, 0, 0];
        ans.extend((data.len() as u16).to_be_bytes()); ans.extend(&data);
        let l = ans.len() as u32; ans[2..6].copy_from_slice(&l.to_be_bytes());
        let rc = if self.r.below(4) == 0 { 0x922 } else { 0 };
        ans[8..10].copy_from_slice(&(rc as u16).to_be_bytes());
        let mut conn = Conn { sent: vec![], answer: Ok(ans), off: 0, noise: 7 };
        let q = self.u32() as u16;
        if let Some(r) = self.guard("C13", "run_command", format!("GetRandom {q}"), || run_command(&GetRandomCmd { bytes_requested: q }, &mut conn)) {
            let w = [&[0x80, 1, 0, 0, 0, 12, 0, 0, 1, 0x7b][..], &q.to_be_bytes()].concat();
            if conn.sent != vec![w] { self.fail("C13", "run_command", format!("GetRandom {q}: sent {:?}", conn.sent.iter().map(|e| hex(e)).collect::<Vec<_>>())); }
            match r {
                Ok(x) => if rc != 0 || x.random_bytes.get_buffer() != data { self.fail("C14", "run_command", format!("GetRandom: {:?} expected {}", hex(x.random_bytes.get_buffer()), hex(&data))) },
                Err(e) => if rc == 0 || e != CErr::Tss(TssError::try_from(rc).ok().unwrap()) { self.fail("C14", "run_command", format!("GetRandom: {e:?}, rc {rc:#x}")) },
            }
        }
        let mut conn = Conn { sent: vec![], answer: Ok(vec![0x80, 1, 0, 0, 0, 10, 0, 0, 0, 0]), off: 0, noise: 7 };
        let su = if self.r.below(2) == 0 { TpmSu::Clear } else { TpmSu::State };
        if let Some(r) = self.guard("C13", "run_command", "Startup".into(), || run_command(&StartupCmd { startup_type: su }, &mut conn)) {
            if conn.sent != vec![vec![0x80, 1, 0, 0, 0, 12, 0, 0, 1, 0x44, 0, (su == TpmSu::State) as u8]] || r != Ok(()) { self.fail("C13", "run_command", format!("Startup {su:?}: {r:?}, sent {:?}", conn.sent)); }
        }
        let (p, c) = (self.u32(), self.u32());
        let v: Vec<u8> = { let k = self.r.below(5); (0..k).flat_map(|_| [self.u32().to_be_bytes(), self.u32().to_be_bytes()].concat()).collect() };
        let mut ans = vec![0x80, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 6];
        ans.extend((v.len() as u32 / 8).to_be_bytes()); ans.extend(&v);
        let l = ans.len() as u32; ans[2..6].copy_from_slice(&l.to_be_bytes());
        let mut conn = Conn { sent: vec![], answer: Ok(ans.clone()), off: 0, noise: 7 };
        let cmd = GetCapabilityCmd { capability: TpmCap::TPMProperties, property: TpmPt(p), property_count: c };
        if let Some(r) = self.guard("C13", "get_capability", format!("{p:#x} {c}"), || get_capability(&mut conn, &cmd)) {
            let w = [&[0x80, 1, 0, 0, 0, 22, 0, 0, 1, 0x7a, 0, 0, 0, 6][..], &p.to_be_bytes(), &c.to_be_bytes()].concat();
            if conn.sent != vec![w] { self.fail("C13", "get_capability", format!("sent {:?}", conn.sent.iter().map(|e| hex(e)).collect::<Vec<_>>())); }
            let mut o = [0u8; 400];
            match r { Ok(x) => { let n = x.try_marshal(&mut o); if n != Ok(ans.len() - 10) || o[..ans.len() - 10] != ans[10..] { self.fail("C14", "get_capability", format!("answer {}: returns {}", hex(&ans), hex(&o[..n.unwrap_or(0)]))); } }
                Err(e) => self.fail("C14", "get_capability", format!("answer {}: {e:?}", hex(&ans))) }
        }
    }
    fn header(&mut self) {
        let n = match self.r.below(3) { 0 => self.r.below(12), _ => 10 + self.len(40) };
        let mut b = self.r.bytes(n);
        if n >= 10 && self.r.below(2) == 0 { b[6..10].copy_from_slice(&[0; 4]); }
        if n >= 10 && self.r.below(4) == 0 { let x = self.u32(); b[6..10].copy_from_slice(&x.to_be_bytes()); }
        if let Some(r) = self.guard("C14", "read_response_header", hex(&b), || read_response_header(&b)) {
            let ok = match &r {
                Ok((h, k)) => n >= 10 && *k == 10 && h.rc == 0 && b[6..10] == [0; 4] && h.size == be32(&b[2..]).unwrap().0 && h.tag.0 as usize == be16(&b).unwrap().0,
                Err(e) => n < 10 || b[6..10] != [0; 4] && TssError::try_from(be32(&b[6..]).unwrap().0).ok().unwrap() == *e,
            };
            if !ok { self.fail("C14", "read_response_header", format!("{}: {r:?}", hex(&b))); }
        }
    }
    fn area<X: Session, Y: Session, Z: Session, AA: AuthorizationArea<X, Y, Z>>(&mut self, aa: &AA, encs: Vec<Vec<u8>>, accs: &[Acc], acks: &[Vec<u8>]) {
        if aa.is_empty() != encs.is_empty() { self.fail("C15", "is_empty", format!("{} with {} sessions", aa.is_empty(), encs.len())); }
        let body = encs.concat();
        let w: Vec<u8> = if encs.is_empty() { vec![] } else { [&(body.len() as u32).to_be_bytes()[..], &body].concat() };
        let n = match self.r.below(4) { 0 => w.len(), 1 => self.r.below(w.len() + 1), 2 => w.len() + self.r.below(10), _ => 4096 };
        let b0 = self.r.bytes(n);
        let mut b = b0.clone();
        let desc = format!("{} sessions {:?} into {n} bytes", encs.len(), encs.iter().map(|e| hex(e)).collect::<Vec<_>>());
        if let Some(r) = self.guard("C15", "write_command_sessions", desc.clone(), || write_command_sessions::<X, Y, Z, AA>(aa, &mut b)) {
            let ok = match r { Ok(k) => k == w.len() && n >= k && b[..k] == w && b[k..] == b0[k..], Err(_) => w.len() > n };
            if !ok { self.fail("C15", "write_command_sessions", format!("{desc}: {r:?}, buffer {}, expected {}", hex(&b), hex(&w))); }
        }
        let mut a: Vec<u8> = acks.concat();
        match self.r.below(10) {
            0 => { let k = self.r.below(a.len() + 1); a.truncate(k); }
            1 => { let x = self.r.bytes(3); a.extend(x); }
            2 if !a.is_empty() => { let i = self.r.below(a.len()); a[i] ^= 1 << self.r.below(8); }
            3 => { a = acks.iter().rev().flatten().copied().collect(); }
            4 => { a = (0..acks.len()).flat_map(|_| self.ack()).collect(); }
            _ => {}
        }
        let desc = format!("{} sessions, acknowledgements {}", encs.len(), hex(&a));
        if let Some((r, left)) = self.guard("C15", "read_response_sessions", desc.clone(), || { let mut u = UnmarshalBuf::new(&a); let r = read_response_sessions::<X, Y, Z, AA>(aa, &mut u); (r, u.len()) }) {
            let e = m_check(accs, &a).map(|s| s.len());
            if r.is_ok() != e.is_some() || e.is_some_and(|e| e != left) { self.fail("C15", "read_response_sessions", format!("{desc}: {r:?}, {left} bytes left; expected {e:?}")); }
        }
    }
    fn areas(&mut self) {
        let pwacc: Acc = &|_, n, a, h| n.is_empty() && a == 1 && h.is_empty();
        let pwack = vec![0u8, 0, 1, 0, 0];
        match self.r.below(5) {
            0 => self.area::<NoSession, NoSession, NoSession, ()>(&(), vec![], &[], &[]),
            1 => { let s = self.pw(); let e = vec![s.enc()]; self.area::<Pw, NoSession, NoSession, Pw>(&s, e, &[pwacc], &[pwack]) }
            2 => { let s = (self.pw(), self.ses()); let c = s.1.clone(); let e = vec![s.0.enc(), s.1.enc()]; let k = vec![pwack, s.1.want.clone()]; self.area::<Pw, Ses, NoSession, (Pw, Ses)>(&s, e, &[pwacc, &move |r, n, a, h| c.acc(r, n, a, h)], &k) }
            3 => { let s = (self.ses(), self.pw()); let c = s.0.clone(); let e = vec![s.0.enc(), s.1.enc()]; let k = vec![s.0.want.clone(), pwack]; self.area::<Ses, Pw, NoSession, (Ses, Pw)>(&s, e, &[&move |r, n, a, h| c.acc(r, n, a, h), pwacc], &k) }
            _ => { let s = (self.ses(), self.pw(), self.ses()); let (c, d) = (s.0.clone(), s.2.clone()); let e = vec![s.0.enc(), s.1.enc(), s.2.enc()]; let k = vec![s.0.want.clone(), pwack, s.2.want.clone()]; self.area::<Ses, Pw, Ses, (Ses, Pw, Ses)>(&s, e, &[&move |r, n, a, h| c.acc(r, n, a, h), pwacc, &move |r, n, a, h| d.acc(r, n, a, h)], &k) }
        }
    }
    fn decompose(&mut self) {
        let bad = catch_unwind(AssertUnwindSafe(|| {
            let (a, b, c) = (self.ses(), self.ses(), self.ses());
            fn p<T>(x: &T) -> *const T { x }
            let mut bad = vec![];
            {
                let r: (Option<&Ses>, Option<&NoSession>, Option<&NoSession>) = AuthorizationArea::decompose_ref(&a);
                if r.0.map(p) != Some(p(&a)) || r.1.is_some() || r.2.is_some() { bad.push("AuthorizationArea for T"); }
                let r: (&Ses, Option<&NoSession>, Option<&NoSession>) = AuthorizationArea1Plus::decompose_ref(&a);
                if p(r.0) != p(&a) || r.1.is_some() || r.2.is_some() { bad.push("AuthorizationArea1Plus for T"); }
            }
            let t = (a.clone(), b.clone());
            let r: (Option<&Ses>, Option<&Ses>, Option<&NoSession>) = AuthorizationArea::decompose_ref(&t);
            if r.0.map(p) != Some(p(&t.0)) || r.1.map(p) != Some(p(&t.1)) || r.2.is_some() { bad.push("AuthorizationArea for (T, U)"); }
            let r: (&Ses, Option<&Ses>, Option<&NoSession>) = AuthorizationArea1Plus::decompose_ref(&t);
            if p(r.0) != p(&t.0) || r.1.map(p) != Some(p(&t.1)) || r.2.is_some() { bad.push("AuthorizationArea1Plus for (T, U)"); }
            let r: (&Ses, &Ses, Option<&NoSession>) = AuthorizationArea2Plus::decompose_ref(&t);
            if p(r.0) != p(&t.0) || p(r.1) != p(&t.1) || r.2.is_some() { bad.push("AuthorizationArea2Plus for (T, U)"); }
            let t = (a, b, c);
            let r: (Option<&Ses>, Option<&Ses>, Option<&Ses>) = AuthorizationArea::decompose_ref(&t);
            if r.0.map(p) != Some(p(&t.0)) || r.1.map(p) != Some(p(&t.1)) || r.2.map(p) != Some(p(&t.2)) { bad.push("AuthorizationArea for (T, U, V)"); }
            let r: (&Ses, Option<&Ses>, Option<&Ses>) = AuthorizationArea1Plus::decompose_ref(&t);
            if p(r.0) != p(&t.0) || r.1.map(p) != Some(p(&t.1)) || r.2.map(p) != Some(p(&t.2)) { bad.push("AuthorizationArea1Plus for (T, U, V)"); }
            let r: (&Ses, &Ses, Option<&Ses>) = AuthorizationArea2Plus::decompose_ref(&t);
            if p(r.0) != p(&t.0) || p(r.1) != p(&t.1) || r.2.map(p) != Some(p(&t.2)) { bad.push("AuthorizationArea2Plus for (T, U, V)"); }
            bad
        }));
        self.cases += 1;
        match bad { Ok(b) => for x in b { self.fail("C15", x, "decompose_ref does not give the sessions in their places".into()) }, Err(_) => self.fail("C15", "decompose_ref", "panicked".into()) }
    }
    fn password(&mut self) {
        let n = match self.r.below(4) { 0 => 60 + self.r.below(10), 1 => self.lit() as usize % 200, _ => self.len(64) };
        let p = self.r.bytes(n);
        let Some(s) = self.guard("C15", "PasswordSession::new", hex(&p), || PasswordSession::new(&p)) else { return };
        match s {
            Err(e) => if n <= 64 || e != TpmRcError::Size { self.fail("C15", "PasswordSession::new", format!("{n} bytes: {e:?}")) },
            Ok(s) => {
                if n > 64 { return self.fail("C15", "PasswordSession::new", format!("accepts {n} bytes")); }
                if s.get_secret() != p { self.fail("C15", "PasswordSession::get_secret", format!("{} expected {}", hex(s.get_secret()), hex(&p))); }
                let m = Pw(PasswordSession::default(), p.clone());
                let mut o = [0u8; 200];
                if let Some(k) = self.guard("C15", "PasswordSession::get_auth_command", hex(&p), || s.get_auth_command().try_marshal(&mut o)) {
                    let e = m.enc();
                    if k != Ok(e.len()) || o[..e.len()] != e { self.fail("C15", "PasswordSession::get_auth_command", format!("password {}: {} expected {}", hex(&p), hex(&o[..k.unwrap_or(0)]), hex(&e))); }
                }
                let raw = self.ack();
                let a = TpmsAuthResponse::try_unmarshal(&mut UnmarshalBuf::new(&raw)).unwrap();
                if let Some(r) = self.guard("C15", "PasswordSession::validate_auth_response", hex(&raw), || s.validate_auth_response(&a)) {
                    if r.is_ok() != (raw == [0, 0, 1, 0, 0]) { self.fail("C15", "PasswordSession::validate_auth_response", format!("answer {}: {r:?}", hex(&raw))); }
                }
            }
        }
    }
}

fn main() {
    if std::path::Path::new("mode").exists() { sim::stand_in(); }
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    let Some(want) = arg("--props") else { return };
    let want: Vec<String> = want.split(',').map(|s| s.to_string()).collect();
    let lits: Vec<u64> = arg("--lits").map(|f| std::fs::read_to_string(f).unwrap().split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = arg("--n").and_then(|s| s.parse().ok()).unwrap_or(20);
    let mut d = Drv { want, r: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1), lits, fails: vec![], cases: 0 };
    for _ in 0..8 { d.r.next(); }
    for i in 0..n {
        if d.wants("C13") || d.wants("C14") { for _ in 0..4 { d.commands(); } d.real(); d.header(); }
        if d.wants("C15") { for _ in 0..4 { d.areas(); } d.password(); if i % 16 == 0 { d.decompose(); } }
    }
    if d.wants("C19") { d.late(); if let Some(p) = tcp::ports() { for _ in 0..n.min(6000) { d.tcp(&p); } } }
    if d.wants("C21") { d.simulators(); }
    for (p, t, m) in &d.fails { println!("FAIL\t{p}\t{t}\t{}", m.replace(['\t', '\n'], " ")); }
    println!("DONE\t{}\t{}", d.cases, d.fails.len());
}
