//! the simulator connection: real TcpConnection against scripted peers on the loopback interface
use crate::{Drv, hex};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use tpm2_client::connection::{Connection, SimulatorPlatformSignal as Sig, TcpConnection};

const SIGS: [(Sig, u32); 12] = [(Sig::PowerOn, 1), (Sig::PowerOff, 2), (Sig::PhysicalPresenceOn, 3), (Sig::PhysicalPresenceOff, 4), (Sig::CancelOn, 9), (Sig::CancelOff, 10),
    (Sig::NvOn, 11), (Sig::NvOff, 12), (Sig::KeyCacheOn, 13), (Sig::KeyCacheOff, 14), (Sig::Reset, 17), (Sig::Restart, 18)];

#[derive(Debug, Clone)]
enum Op { Signal(usize), Fail, Hash(u32), Svn(u32), Alt(u32), Act(u32), Hello(u32), Sizes, Reinit, Hcrtm(Vec<u8>), Transact(Vec<u8>, usize), Locality(u8), End, Stop }

/// what the peer sends on one port, and what has been read of it
#[derive(Default)]
struct Side { script: Vec<u8>, pos: usize, sent: Vec<u8>, got: Vec<u8> }
impl Side {
    fn take(&mut self, n: usize) -> Result<Vec<u8>, ()> {
        if self.script.len() - self.pos < n { self.pos = self.script.len(); return Err(()); }
        self.pos += n;
        Ok(self.script[self.pos - n..self.pos].to_vec())
    }
    fn word(&mut self) -> Result<u32, ()> { Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap())) }
    fn end(&mut self) -> Result<(), ()> { if self.word()? == 0 { Ok(()) } else { Err(()) } }
    fn say(&mut self, w: &[u32]) { for x in w { self.sent.extend(x.to_be_bytes()); } }
}
/// the protocol of the TCG reference simulator (TcpTpmProtocol.h), as an independent model
fn model(op: &Op, tpm: &mut Side, plat: &mut Side, loc: &mut u8) -> Result<Vec<u8>, ()> {
    match op {
        Op::Signal(i) => { plat.say(&[SIGS[*i].1]); plat.end()?; Ok(vec![]) }
        Op::Fail => { plat.say(&[30]); plat.end()?; Ok(vec![]) }
        Op::Hash(x) => { plat.say(&[35, *x]); plat.end()?; Ok(vec![]) }
        Op::Svn(x) => { plat.say(&[36, *x]); plat.end()?; Ok(vec![]) }
        Op::Alt(x) => { tpm.say(&[16, *x]); tpm.end()?; Ok(vec![]) }
        Op::Act(x) => { plat.say(&[26, *x]); let v = plat.take(4)?; plat.end()?; Ok(v) }
        Op::Hello(x) => { tpm.say(&[15, *x]); let v = tpm.take(8)?; tpm.end()?; Ok(v) }
        Op::Sizes => { plat.say(&[25]); if plat.word()? != 16 { return Err(()); } let v = plat.take(16)?; plat.end()?; Ok(v) }
        Op::Reinit => { for s in [12, 2, 1, 11] { plat.say(&[s]); plat.end()?; } Ok(vec![]) }
        Op::Hcrtm(d) => { tpm.say(&[5]); tpm.end()?; tpm.say(&[6, d.len() as u32]); tpm.sent.extend(d); tpm.end()?; tpm.say(&[7]); tpm.end()?; Ok(vec![]) }
        Op::Transact(c, room) => {
            tpm.say(&[8]); tpm.sent.push(*loc); tpm.say(&[c.len() as u32]); tpm.sent.extend(c);
            let n = tpm.word()? as usize;
            if n > *room { return Err(()); }
            let v = tpm.take(n)?; tpm.end()?; Ok(v)
        }
        Op::Locality(l) => { *loc = *l; Ok(vec![]) }
        Op::End => { tpm.say(&[20]); plat.say(&[20]); Ok(vec![]) }
        Op::Stop => { tpm.say(&[21]); plat.say(&[21]); Ok(vec![]) }
    }
}
fn real(op: &Op, c: &mut TcpConnection) -> Result<Vec<u8>, String> {
    let u = |r: std::io::Result<()>| r.map(|_| vec![]).map_err(|e| e.to_string());
    match op {
        Op::Signal(i) => u(c.platform_signal(SIGS[*i].0)), Op::Fail => u(c.test_failure_mode()), Op::Hash(x) => u(c.set_firmware_hash(*x)), Op::Svn(x) => u(c.set_firmware_svn(*x)),
        Op::Alt(x) => u(c.set_alternative_result(*x)), Op::Act(x) => c.act_get_signaled(*x).map(|v| v.to_be_bytes().to_vec()).map_err(|e| e.to_string()),
        Op::Hello(x) => c.remote_handshake(*x).map(|v| [v.server_version().to_be_bytes(), v.endpoint_info().to_be_bytes()].concat()).map_err(|e| e.to_string()),
        Op::Sizes => c.get_command_response_sizes().map(|v| [v.largest_command_size().to_ne_bytes(), v.largest_command().to_be_bytes(), v.largest_response_size().to_ne_bytes(), v.largest_response().to_be_bytes()].concat()).map_err(|e| e.to_string()),
        Op::Reinit => u(c.reinit()), Op::Hcrtm(d) => u(c.hcrtm_sequence(d)),
        Op::Transact(cmd, room) => {
            let mut b = vec![0xA7; *room];
            let at = b.as_ptr() as usize;
            match c.transact(cmd, &mut b) { Ok(s) => { if s.as_ptr() as usize != at && !s.is_empty() { return Ok(b"answer not at the start of the buffer".to_vec()); } let v = s.to_vec();
                if b[v.len()..].iter().any(|x| *x != 0xA7) { return Ok(b"buffer written beyond the answer".to_vec()); } Ok(v) } Err(e) => Err(e.to_string()) }
        }
        Op::Locality(l) => { c.set_locality(*l); Ok(vec![]) }
        Op::End => u(c.session_end()), Op::Stop => u(c.stop_simulator()),
    }
}
/// writes all of v to a non-blocking stream
fn send(s: &mut TcpStream, mut v: &[u8]) -> bool {
    while !v.is_empty() { match s.write(v) { Ok(n) => v = &v[n..], Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(std::time::Duration::from_micros(100)), Err(_) => return false } }
    true
}
fn drain(s: &mut TcpStream, into: &mut Vec<u8>) {
    let mut b = [0; 65536];
    loop { match s.read(&mut b) { Ok(0) | Err(_) => break, Ok(n) => into.extend(&b[..n]) } }
}
/// after a call: what is on its way has to arrive (loopback, so at once; waits if it does not look complete)
fn settle(s: &mut TcpStream, side: &mut Side) {
    drain(s, &mut side.got);
    for _ in 0..400 { if side.got.len() >= side.sent.len() { break; } std::thread::sleep(std::time::Duration::from_millis(2)); drain(s, &mut side.got); }
}
pub struct Ports { tpm: TcpListener, plat: TcpListener, dtpm: Option<TcpListener>, dplat: Option<TcpListener> }
pub fn ports() -> Option<Ports> {
    let dt = TcpListener::bind("127.0.0.77:2321").ok();
    let dp = TcpListener::bind("127.0.0.77:2322").ok();
    Some(Ports { tpm: TcpListener::bind("127.0.0.77:0").ok()?, plat: TcpListener::bind("127.0.0.77:0").ok()?, dtpm: dt, dplat: dp })
}
impl Drv {
    fn tcp_op(&mut self) -> Op {
        let w = match self.r.below(3) { 0 => self.r.next() as u32, 1 => self.lit() as u32, _ => self.r.below(4) as u32 };
        match self.r.below(22) {
            0 | 1 => Op::Signal(self.r.below(12)), 2 => Op::Fail, 3 => Op::Hash(w), 4 => Op::Svn(w), 5 => Op::Alt(w), 6 => Op::Act(w), 7 => Op::Hello(w), 8 => Op::Sizes, 9 => Op::Reinit,
            10 => { let n = self.len(3000); Op::Hcrtm(self.r.bytes(n)) }
            11 | 12 => Op::Locality(w as u8), 13 => if self.r.below(3) == 0 { if self.r.below(2) == 0 { Op::End } else { Op::Stop } } else { Op::Fail },
            _ => { let n = self.len(5000); let m = self.len(5000); Op::Transact(self.r.bytes(n), m) }
        }
    }
    /// the peer's answer to op, usually as it should be
    fn tcp_reply(&mut self, op: &Op, tpm: &mut Side, plat: &mut Side) {
        let on_tpm = matches!(op, Op::Alt(_) | Op::Hello(_) | Op::Hcrtm(_) | Op::Transact(..));
        let mut v: Vec<u8> = match op {
            Op::Locality(_) | Op::End | Op::Stop => return,
            Op::Act(_) => self.r.bytes(4), Op::Hello(_) => self.r.bytes(8),
            Op::Sizes => { let l: u32 = match self.r.below(12) { 0 => self.lit() as u32, 1 => 17, 2 => 15, 3 => 0x1000_0000, _ => 16 }; [l.to_be_bytes().to_vec(), self.r.bytes((l as usize).min(40))].concat() }
            Op::Reinit => vec![0; 12], Op::Hcrtm(_) => vec![0; 8],
            Op::Transact(_, room) => { let n = match self.r.below(12) { 0 => room + 1 + self.r.below(3), 1 => *room, 2 => 0, 3 => room.saturating_sub(1), 4 => room + self.lit() as usize % 70000, _ => self.r.below(room + 1) };
                [(n as u32).to_be_bytes().to_vec(), self.r.bytes(n)].concat() }
            _ => vec![],
        };
        v.extend([0; 4]);
        if self.r.below(14) == 0 {       // an end mark (of a step) that is not zero
            let k = match op { Op::Reinit | Op::Hcrtm(_) => 4 * self.r.below(v.len() / 4), _ => v.len() - 4 } + self.r.below(4);
            v[k] = 1 << self.r.below(8);
        }
        if self.r.below(40) == 0 { let k = self.r.below(v.len()); v.truncate(k); }
        if on_tpm { tpm.script.extend(v) } else { plat.script.extend(v) }
    }
    /// one connection, a sequence of calls
    /// connecting with retries: a peer that comes up late is reached, one that never does is reported
    pub fn late(&mut self) {
        let at = |h: &str| -> Option<u16> { TcpListener::bind((h, 0)).ok()?.local_addr().ok().map(|a| a.port()) };
        let (Some(a), Some(b)) = (at("127.0.0.78"), at("127.0.0.78")) else { return };
        let up = std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(300));
            let l = (TcpListener::bind(("127.0.0.78", a)), TcpListener::bind(("127.0.0.78", b)));
            let (Ok(x), Ok(y)) = l else { return None };
            let (x, y) = (x.accept().ok()?, y.accept().ok()?);
            Some((x, y))
        });
        let (tx, rx) = std::sync::mpsc::channel();
        let tx2 = tx.clone();
        std::thread::spawn(move || { let _ = tx.send((true, TcpConnection::connect_with_retries("127.0.0.78", Some(a), Some(b)).map(|_| ()).map_err(|e| e.to_string()))); });
        std::thread::spawn(move || { let _ = tx2.send((false, TcpConnection::connect_with_retries("127.0.0.79", Some(a), Some(b)).map(|_| ()).map_err(|e| e.to_string()))); });
        for _ in 0..2 {
            match rx.recv_timeout(std::time::Duration::from_secs(40)) {
                Ok((true, Err(e))) => if !up.is_finished() { self.fail("C19", "connect_with_retries", format!("gave up ({e}) although both ports accept connections 300 ms later")); return; },
                Ok((false, Ok(()))) => self.fail("C19", "connect_with_retries", "succeeded although nobody listens".into()),
                Ok(_) => {}
                Err(_) => { self.fail("C19", "connect_with_retries", "does not come back within 40 s from a host that refuses the connection".into()); return; }
            }
        }
    }
    pub fn tcp(&mut self, p: &Ports) {
        let (mut tpm, mut plat, mut loc) = (Side::default(), Side::default(), 0u8);
        let ops: Vec<Op> = (0..1 + self.r.below(12)).map(|_| self.tcp_op()).collect();
        for o in &ops { self.tcp_reply(o, &mut tpm, &mut plat); }
        let (deft, defp) = (self.r.below(20) == 0 && p.dtpm.is_some(), self.r.below(20) == 0 && p.dplat.is_some());
        let (lt, lp) = (if deft { p.dtpm.as_ref().unwrap() } else { &p.tpm }, if defp { p.dplat.as_ref().unwrap() } else { &p.plat });
        let port = |l: &TcpListener| l.local_addr().unwrap().port();
        let (at, ap) = (if deft { None } else { Some(port(lt)) }, if defp { None } else { Some(port(lp)) });
        let retries = self.r.below(4) == 0;
        let connect = if retries { TcpConnection::connect_with_retries } else { TcpConnection::connect };
        let mut c = match connect("127.0.0.77", at, ap) {
            Ok(c) => c,
            Err(e) => {
                // a failure of the network itself says nothing
                let ok = [lt, lp].iter().all(|l| TcpStream::connect(("127.0.0.77", port(l))).is_ok());
                while { let _ = lt.set_nonblocking(true); lt.accept().is_ok() } {}
                while { let _ = lp.set_nonblocking(true); lp.accept().is_ok() } {}
                if ok { self.fail("C19", "connect", format!("connect({at:?}, {ap:?}) failed ({e}) although both simulator ports accept connections")); }
                return;
            }
        };
        let acc = |l: &TcpListener| -> Option<TcpStream> { l.set_nonblocking(true).ok()?; for _ in 0..3000 { if let Ok((s, _)) = l.accept() { s.set_nonblocking(true).ok()?; let _ = s.set_nodelay(true); return Some(s); } std::thread::sleep(std::time::Duration::from_millis(1)); } None };
        let (Some(mut st), Some(mut sp)) = (acc(lt), acc(lp)) else { self.fail("C19", "connect", "connect succeeded without connecting to both ports".into()); return; };
        let slow = self.r.below(6) == 0;
        let feed = |s: &TcpStream, v: Vec<u8>| { let mut s = s.try_clone().unwrap(); let go = move || {
            if slow { for (i, x) in v.chunks(3).enumerate() { if !send(&mut s, x) { return; } if i < 12 { std::thread::sleep(std::time::Duration::from_micros(300)); } } } else { send(&mut s, &v); }
            let _ = s.shutdown(Shutdown::Write); }; go };
        let (mut ft, mut fp) = (feed(&st, tpm.script.clone()), feed(&sp, plat.script.clone()));
        let mut th = vec![];
        if slow || tpm.script.len() > 60000 { th.push(std::thread::spawn(ft)); th.push(std::thread::spawn(fp)); } else { ft(); fp(); }
        for o in &ops {
            let want = model(o, &mut tpm, &mut plat, &mut loc);
            let ctx = format!("{o:?} of {ops:?}; TPM port answers {}, platform port answers {}", hex(&tpm.script), hex(&plat.script)).chars().take(1500).collect::<String>();
            let name = format!("{o:?}").split(['(', ' ']).next().unwrap_or("").to_string();
            let Some(got) = self.guard("C19", &name, ctx.clone(), || real(o, &mut c)) else { break };
            settle(&mut st, &mut tpm);
            settle(&mut sp, &mut plat);
            if tpm.got != tpm.sent || plat.got != plat.sent {
                self.fail("C19", &name, format!("{ctx}: the TPM port received {} (expected {}), the platform port {} (expected {})", hex(&tpm.got), hex(&tpm.sent), hex(&plat.got), hex(&plat.sent)));
                break;
            }
            match (&got, &want) {
                (Ok(a), Ok(b)) if a == b => {}
                (Err(_), Err(())) => break,
                _ => { self.fail("C19", &name, format!("{ctx}: returned {:?}, expected {:?}", got.as_ref().map(|v| hex(v)), want.as_ref().map(|v| hex(v)))); break; }
            }
            if matches!(o, Op::End | Op::Stop) { break; }
        }
        let _ = st.shutdown(Shutdown::Both);
        let _ = sp.shutdown(Shutdown::Both);
        for t in th { let _ = t.join(); }
    }
}
