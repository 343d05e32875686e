//! native driver for the server (crates/tpm2-impl): /repo's compiled code against an independent model
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use tpm2_impl::TpmContext;
use tpm2_impl::platform::crypto::{Drbg, DrbgError, EntropySource, drbg_helpers};
use tpm2_impl::platform::{ReadOutOfBounds, TpmContextDeps, TpmReadBuffer, TpmWriteBuffer, WriteOutOfBounds};

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
    fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

// ---- the platform: every operation is a function of this state and is recorded -----------------
#[derive(Clone, Debug, PartialEq)]
enum Ev { Src, Ent(usize), Inst(Vec<u8>, Vec<u8>, Vec<u8>), Needs(bool), Reseed(Vec<u8>, Vec<u8>, bool), Fill(Vec<u8>, usize, bool), U32(Vec<u8>), U64(Vec<u8>) }
#[derive(Clone)]
struct Sim { r: Rng, log: Vec<Ev>, p_needs: usize, p_reseed: usize, p_fill: usize, p_inst: usize, p_int: usize }
impl Sim {
    fn ent(&mut self, d: &mut [u8]) { self.log.push(Ev::Ent(d.len())); for b in d.iter_mut() { *b = self.r.next() as u8; } }
    fn inst(&mut self, e: &[u8], n: &[u8], p: &[u8]) -> bool { self.log.push(Ev::Inst(e.into(), n.into(), p.into())); self.r.below(100) >= self.p_inst }
    fn needs(&mut self) -> bool { let v = self.r.below(100) < self.p_needs; self.log.push(Ev::Needs(v)); v }
    fn reseed(&mut self, e: &[u8], a: &[u8]) -> bool { let ok = self.r.below(100) >= self.p_reseed; self.log.push(Ev::Reseed(e.into(), a.into(), ok)); ok }
    fn fill(&mut self, a: &[u8], d: &mut [u8]) -> bool {
        let ok = self.r.below(100) >= self.p_fill;
        self.log.push(Ev::Fill(a.into(), d.len(), ok));
        let n = if ok { d.len() } else { self.r.below(d.len() + 1) };
        for b in d[..n].iter_mut() { *b = self.r.next() as u8; }
        ok
    }
    fn u32(&mut self, a: &[u8]) -> Option<u32> { self.log.push(Ev::U32(a.into())); if self.r.below(100) < self.p_int { None } else { Some(self.r.next() as u32) } }
    fn u64(&mut self, a: &[u8]) -> Option<u64> { self.log.push(Ev::U64(a.into())); if self.r.below(100) < self.p_int { None } else { Some(self.r.next()) } }
}
thread_local! { static SIM: RefCell<Sim> = RefCell::new(Sim { r: Rng(1), log: vec![], p_needs: 0, p_reseed: 0, p_fill: 0, p_inst: 0, p_int: 0 }); }
fn sim<T>(f: impl FnOnce(&mut Sim) -> T) -> T { SIM.with(|s| f(&mut s.borrow_mut())) }

const ENT: usize = 40;
const NON: usize = 11;
#[derive(Clone)]
struct Ent([u8; ENT]);
impl Default for Ent { fn default() -> Self { Ent([0xA5; ENT]) } }
impl AsMut<[u8]> for Ent { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
struct D;
impl Drbg for D {
    type Entropy = Ent;
    type Nonce = [u8; NON];
    fn instantiate(e: &Ent, n: &[u8; NON], p: &[u8]) -> Result<Self, DrbgError> { if sim(|s| s.inst(&e.0, n, p)) { Ok(D) } else { Err(DrbgError) } }
    fn reseed(&mut self, e: &Ent, a: &[u8]) -> Result<(), DrbgError> { if sim(|s| s.reseed(&e.0, a)) { Ok(()) } else { Err(DrbgError) } }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> { sim(|s| s.u32(a)).ok_or(DrbgError) }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> { sim(|s| s.u64(a)).ok_or(DrbgError) }
    fn fill_bytes(&mut self, a: &[u8], d: &mut [u8]) -> Result<(), DrbgError> { if sim(|s| s.fill(a, d)) { Ok(()) } else { Err(DrbgError) } }
    fn requires_reseeding(&mut self) -> bool { sim(|s| s.needs()) }
}
struct E;
impl EntropySource for E {
    fn instantiate() -> Self { sim(|s| s.log.push(Ev::Src)); E }
    fn fill_entropy(&mut self, d: &mut [u8]) { sim(|s| s.ent(d)) }
}
struct Deps;
impl TpmContextDeps for Deps { type Drbg = D; type EntropySource = E; type Request = [u8]; type Response = [u8]; }

/// a platform buffer that is not a slice (a device window): only the required methods are given
struct Win { m: Vec<u8>, touched: Vec<bool> }
impl Win { fn new(m: Vec<u8>) -> Self { let n = m.len(); Win { m, touched: vec![false; n] } } }
impl TpmReadBuffer for Win {
    fn len(&self) -> usize { self.m.len() }
    fn read_into(&self, o: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        let e = o.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
        if e > self.m.len() { return Err(ReadOutOfBounds); }
        out.copy_from_slice(&self.m[o..e]);
        Ok(())
    }
}
impl TpmWriteBuffer for Win {
    fn write(&mut self, o: usize, d: &[u8]) -> Result<(), WriteOutOfBounds> {
        let e = o.checked_add(d.len()).ok_or(WriteOutOfBounds)?;
        if e > self.m.len() { return Err(WriteOutOfBounds); }
        for k in o..e { self.touched[k] = true; self.m[k] = d[k - o]; }
        Ok(())
    }
    fn write_callback(&mut self, o: usize, n: usize, f: impl FnOnce(&mut [u8])) -> Result<(), WriteOutOfBounds> {
        let e = o.checked_add(n).ok_or(WriteOutOfBounds)?;
        if e > self.m.len() { return Err(WriteOutOfBounds); }
        let mut t = self.m[o..e].to_vec();
        f(&mut t);
        for k in o..e { self.touched[k] = true; self.m[k] = t[k - o]; }
        Ok(())
    }
}
struct WinDeps;
impl TpmContextDeps for WinDeps { type Drbg = D; type EntropySource = E; type Request = Win; type Response = Win; }

// ---- the model -----------------------------------------------------------------------------------
fn model(s: &mut Sim, req: &[u8], rsp: &mut [u8]) -> (usize, bool) {
    let be = |a: usize| u32::from_be_bytes(req[a..a + 4].try_into().unwrap());
    let mut failed_fill = false;
    let code: u32 = (|| {
        if req.len() < 10 || be(2) as u64 != req.len() as u64 { return 0x142; }
        if be(6) != 0x17B { return 0x143; }
        if req.len() < 12 { return 0x142; }
        let n = u16::from_be_bytes([req[10], req[11]]) as usize;
        if 10 + n > rsp.len() { return 0x904; }
        if s.needs() {
            let mut e = Ent::default();
            s.ent(&mut e.0);
            if !s.reseed(&e.0, &[]) { return 0x101; }
        }
        if !s.fill(&[], &mut rsp[10..10 + n]) { failed_fill = true; return 0x101; }
        0
    })();
    let size = if code == 0 { 10 + u16::from_be_bytes([req[10], req[11]]) as usize } else { 10 };
    if rsp.len() < 10 { return (0, failed_fill); }
    rsp[0..2].copy_from_slice(&[0x80, 0x01]);
    rsp[2..6].copy_from_slice(&(size as u32).to_be_bytes());
    rsp[6..10].copy_from_slice(&code.to_be_bytes());
    (size, failed_fill)
}

struct Drv { want: Vec<String>, r: Rng, lits: Vec<u64>, fails: Vec<(&'static str, String, String)>, cases: usize, n: usize }
fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 { format!("{s}..({} bytes)", b.len()) } else { s }
}
impl Drv {
    fn wants(&self, p: &str) -> bool { self.want.iter().any(|x| x == p) }
    fn fail(&mut self, p: &'static str, subj: &str, msg: String) {
        if self.wants(p) && self.fails.iter().filter(|f| f.1 == subj).count() < 2 { self.fails.push((p, subj.into(), msg)); }
    }
    fn lit(&mut self, max: u64) -> u64 {
        let c: Vec<u64> = self.lits.iter().flat_map(|&v| [v, v.wrapping_add(1), v.wrapping_sub(1)]).filter(|v| *v <= max).collect();
        if c.is_empty() { 0 } else { c[self.r.below(c.len())] }
    }
    fn rsp_len(&mut self) -> usize {
        match self.r.below(8) { 0 => self.r.below(24), 1 => 10 + self.r.below(3), 2 => 64, 3 => 4096, 4 => self.lit(70_000) as usize, 5 => 66_000, 6 => 65_545 + self.r.below(3), _ => self.r.below(200) }
    }
    fn request(&mut self, rl: usize) -> Vec<u8> {
        let mut q = vec![];
        let tag = match self.r.below(6) { 0 => 0x8002, 1 => self.r.next() as u16, 2 => self.lit(0xffff) as u16, _ => 0x8001 };
        q.extend(tag.to_be_bytes());
        q.extend([0; 4]);
        let code = match self.r.below(10) { 0 => 0x144, 1 => self.r.next() as u32, 2 => 0x17B ^ (1 << self.r.below(32)), 3 => self.lit(u32::MAX as u64) as u32, _ => 0x17B };
        q.extend(code.to_be_bytes());
        let n = match self.r.below(8) {
            0 => 0, 1 => rl.saturating_sub(10) as u16, 2 => (rl.saturating_sub(10) as u16).wrapping_add(1), 3 => 0xffff, 4 => self.r.next() as u16, 5 => self.lit(0xffff) as u16, _ => self.r.below(70) as u16 };
        q.extend(n.to_be_bytes());
        match self.r.below(8) { 0 => { let k = self.r.below(40); q.extend(self.r.bytes(k)); } 1 => { let k = self.lit(5000) as usize; q.resize(q.len().max(k), 0x5a); } 2 => { let k = self.r.below(15); q.truncate(k); } 3 => { q.truncate(10 + self.r.below(3)); } _ => {} }
        let l = q.len() as u32;
        let size = match self.r.below(10) { 0 => l + 1, 1 => l.wrapping_sub(1), 2 => self.r.next() as u32, 3 => l | 1 << (8 + self.r.below(24)), 4 => self.lit(u32::MAX as u64) as u32, _ => l };
        if q.len() >= 6 { q[2..6].copy_from_slice(&size.to_be_bytes()); }
        q
    }
    fn newsim(&mut self) -> Sim {
        let p = |r: &mut Rng, v: &[usize]| v[r.below(v.len())];
        Sim { r: Rng(self.r.next() | 1), log: vec![], p_needs: p(&mut self.r, &[0, 0, 50, 100]), p_reseed: p(&mut self.r, &[0, 0, 0, 50, 100]), p_fill: p(&mut self.r, &[0, 0, 0, 30, 100]), p_inst: p(&mut self.r, &[0, 0, 0, 0, 0, 0, 100]), p_int: p(&mut self.r, &[0, 0, 30]) }
    }
    /// one history: a context, then a series of commands in a random mixture of calling styles
    fn history(&mut self) {
        let s0 = self.newsim();
        let mut m = s0.clone();
        SIM.with(|s| *s.borrow_mut() = s0);
        let style = self.r.below(2);
        let mut e = Ent::default();
        let mut non = [0u8; NON];
        m.log.push(Ev::Src);
        m.ent(&mut e.0);
        m.ent(&mut non);
        let want_ok = m.inst(&e.0, &non, &[]);
        let made = catch_unwind(|| if style == 0 { TpmContext::<Deps>::new().map(Ok) } else { TpmContext::<WinDeps>::new().map(Err) });
        let Ok(made) = made else { self.fail("C18", "TpmContext::new", "panicked".into()); return; };
        if made.is_ok() != want_ok { self.fail("C18", "TpmContext::new", format!("instantiate {} but new returned {}", if want_ok { "succeeded" } else { "failed" }, if made.is_ok() { "Ok" } else { "Err" })); return; }
        let log = sim(|s| std::mem::take(&mut s.log));
        if log != m.log { self.fail("C18", "TpmContext::new", format!("platform calls {:?}, expected {:?}", log, m.log)); }
        m.log.clear();
        let Ok(mut cx) = made else { return };
        let steps = 1 + self.r.below(6);
        let mut hist = String::new();
        for _ in 0..steps {
            self.cases += 1;
            let in_place = self.r.below(2) == 0;
            let rl = self.rsp_len();
            let req = self.request(rl);
            let filler = self.r.next() as u8;
            let mut rsp = vec![filler; rl];
            let mut rs = 0;
            let mut want_req = req.clone();
            if in_place {
                let k = req.len().min(rl);
                rsp[..k].copy_from_slice(&req[..k]);
                rs = match self.r.below(6) { 0 => usize::MAX, 1 => rl, 2 => req.len() + 1, 3 => self.r.below(req.len() + 2), 4 => self.lit(u64::MAX) as usize, _ => req.len() };
                want_req = rsp[..rs.min(rl)].to_vec();
            }
            let mut want = rsp.clone();
            let mut m2 = m.clone();
            let (wn, ff) = model(&mut m2, &want_req, &mut want);
            let desc = format!("{}{} request {} response buffer {} bytes{}", if style == 0 { "slice" } else { "window" }, if in_place { " in-place" } else { "" }, hex(&want_req), rl, if in_place { format!(" request_size {rs}") } else { String::new() });
            let before = rsp.clone();
            let got = catch_unwind(AssertUnwindSafe(|| match &mut cx {
                Ok(c) => if in_place { c.execute_command_in_place(&mut rsp[..], rs) } else { c.execute_command_separate(&req[..], &mut rsp[..]) },
                Err(c) => {
                    let mut w = Win::new(rsp.clone());
                    let n = if in_place { c.execute_command_in_place(&mut w, rs) } else { c.execute_command_separate(&Win::new(req.clone()), &mut w) };
                    rsp = w.m;
                    n
                }
            }));
            hist = format!("{hist}{desc}; ");
            let subj = if in_place { "execute_command_in_place" } else { "execute_command_separate" };
            let log = sim(|s| std::mem::take(&mut s.log));
            let _ = before;
            match got {
                Err(_) => {
                    for p in ["C16", "C17", "C18"] { self.fail(p, subj, format!("panicked; history: {hist}")); }
                    return;
                }
                Ok(n) => {
                    let head = n == wn && rsp.get(..n) == want.get(..n);
                    let tail_from = if ff { rl } else { wn };
                    let ok = head && rsp[tail_from.min(rl)..] == want[tail_from.min(rl)..];
                    if !ok {
                        let t = format!("returned {n} bytes {}, expected {wn} bytes {}; history: {hist}", hex(&rsp[..n.min(rl)]), hex(&want[..wn.min(rl)]));
                        self.fail("C16", subj, t.clone());
                        if in_place || !head || n > rl { self.fail("C17", subj, t.clone()); }
                        if want.get(6..10) == Some(&[0, 0, 0, 0]) || wn != n { self.fail("C18", subj, t); }
                        return;
                    }
                    if log != m2.log {
                        let t = format!("platform calls {:?}, expected {:?}; history: {hist}", log, m2.log);
                        self.fail("C18", subj, t);
                        return;
                    }
                }
            }
            m2.log.clear();
            m = m2;
        }
        // the same request, in place and separate, from the same state
        if style == 0 {
            self.cases += 1;
            let s1 = Sim { p_inst: 0, ..self.newsim() };
            let rl = self.rsp_len();
            let req = self.request(rl);
            if req.len() > rl { return; }
            let go = |ip: bool| -> Option<(usize, Vec<u8>, Vec<Ev>)> {
                SIM.with(|s| *s.borrow_mut() = s1.clone());
                let r = catch_unwind(|| {
                    let mut cx = TpmContext::<Deps>::new().ok()?;
                    let mut b = vec![0u8; rl];
                    let n = if ip { b[..req.len()].copy_from_slice(&req); cx.execute_command_in_place(&mut b[..], req.len()) } else { cx.execute_command_separate(&req[..], &mut b[..]) };
                    Some((n, b.get(..n).map(|x| x.to_vec()).unwrap_or_default(), sim(|s| s.log.clone())))
                });
                r.unwrap_or(None)
            };
            let (a, b) = (go(true), go(false));
            if a != b { self.fail("C17", "in-place against separate", format!("request {} response buffer {rl}: in place {:?}, separate {:?}", hex(&req), a.map(|x| (x.0, hex(&x.1))), b.map(|x| (x.0, hex(&x.1))))); }
        }
    }
    fn off(&mut self, n: usize) -> usize {
        match self.r.below(8) { 0 => usize::MAX, 1 => usize::MAX - self.r.below(9), 2 => n, 3 => n.wrapping_sub(self.r.below(9)), 4 => n + 1, 5 => self.lit(u64::MAX) as usize, _ => self.r.below(n + 2) }
    }
    /// the slice buffers, and the default methods of the traits
    fn slices(&mut self) {
        self.cases += 1;
        let n = match self.r.below(5) { 0 => self.r.below(4), 1 => self.lit(5000) as usize, _ => self.r.below(40) };
        let b = self.r.bytes(n);
        let w = Win::new(b.clone());
        let o = self.off(n);
        let k = match self.r.below(5) { 0 => 0, 1 => n.saturating_sub(o), 2 => n.saturating_sub(o).min(8000) + 1, 3 => self.lit(5000) as usize, _ => self.r.below(12) };
        let fits = o.checked_add(k).is_some_and(|e| e <= n);
        let mut out = vec![0xEE; k];
        let t = format!("buffer of {n} bytes, offset {o}, {k} bytes");
        let r = catch_unwind(AssertUnwindSafe(|| TpmReadBuffer::read_into(&b[..], o, &mut out)));
        match r {
            Err(_) => self.fail("C17", "[u8]::read_into", format!("panicked: {t}")),
            Ok(r) => if r.is_ok() != fits || fits && out[..] != b[o..o + k] || !fits && out.iter().any(|x| *x != 0xEE) || TpmReadBuffer::len(&b[..]) != n || TpmReadBuffer::is_empty(&b[..]) != (n == 0) || w.is_empty() != (n == 0) { self.fail("C17", "[u8]::read_into", format!("{t}: {r:?} {}", hex(&out))) }
        }
        for src in 0..2 {
            let f16 = o.checked_add(2).is_some_and(|e| e <= n);
            let f32 = o.checked_add(4).is_some_and(|e| e <= n);
            let r = catch_unwind(|| if src == 0 { (b[..].read_be_u16(o), b[..].read_be_u32(o)) } else { (w.read_be_u16(o), w.read_be_u32(o)) });
            let want = (if f16 { Ok(u16::from_be_bytes([b[o], b[o + 1]])) } else { Err(ReadOutOfBounds) }, if f32 { Ok(u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])) } else { Err(ReadOutOfBounds) });
            match r { Err(_) => self.fail("C17", "read_be", format!("panicked: {t}")), Ok(r) => if r != want { self.fail("C17", "read_be", format!("{t}: {r:?}, expected {want:?}")) } }
        }
        let d = self.r.bytes(k);
        let mut want = b.clone();
        if fits { want[o..o + k].copy_from_slice(&d); }
        let mut x = b.clone();
        let r = catch_unwind(AssertUnwindSafe(|| x[..].write(o, &d)));
        match r { Err(_) => self.fail("C17", "[u8]::write", format!("panicked: {t}")), Ok(r) => if r.is_ok() != fits || x != want { self.fail("C17", "[u8]::write", format!("{t}: {r:?}, buffer {}, expected {}", hex(&x), hex(&want))) } }
        let sz = match self.r.below(3) { 0 => self.off(n), _ => k };
        let fits = o.checked_add(sz).is_some_and(|e| e <= n);
        let mut x = b.clone();
        let mut seen = None;
        let r = catch_unwind(AssertUnwindSafe(|| x[..].write_callback(o, sz, |c| { seen = Some(c.to_vec()); c.fill(0x77); })));
        let mut want = b.clone();
        if fits { want[o..o + sz].fill(0x77); }
        let wseen = if fits { Some(b[o..o + sz].to_vec()) } else { None };
        match r { Err(_) => self.fail("C17", "[u8]::write_callback", format!("panicked: buffer of {n}, offset {o}, size {sz}")), Ok(r) => if r.is_ok() != fits || x != want || seen != wseen { self.fail("C17", "[u8]::write_callback", format!("buffer of {n}, offset {o}, size {sz}: {r:?} callback saw {seen:?}")) } }
    }
    fn helpers(&mut self) {
        self.cases += 1;
        let s0 = self.newsim();
        let n = match self.r.below(4) { 0 => self.r.below(25), 1 => self.lit(3000) as usize, _ => self.r.below(80) };
        let add = { let k = self.r.below(4); self.r.bytes(k) };
        let mut m = s0.clone();
        let mut want = vec![0u8; n];
        let wok = (|| {
            let mut a: &[u8] = &add;
            let mut p = 0;
            while n - p > 4 { let v = m.u64(a)?; a = &[]; let k = (n - p).min(8); want[p..p + k].copy_from_slice(&v.to_le_bytes()[..k]); p += k; if k < 8 { return Some(()); } }
            if n - p > 0 { let v = m.u32(a)?; want[p..].copy_from_slice(&v.to_le_bytes()[..n - p]); }
            Some(())
        })().is_some();
        SIM.with(|s| *s.borrow_mut() = s0.clone());
        let mut x = vec![0u8; n];
        let r = catch_unwind(AssertUnwindSafe(|| drbg_helpers::fill_bytes_via_next(&mut D, &add, &mut x)));
        let log = sim(|s| std::mem::take(&mut s.log));
        match r { Err(_) => self.fail("C18", "fill_bytes_via_next", format!("panicked for {n} bytes")), Ok(r) => if r.is_ok() != wok || wok && x != want || log != m.log { self.fail("C18", "fill_bytes_via_next", format!("{n} bytes, additional input {}: {r:?} {} draws {:?}; expected {} {} draws {:?}", hex(&add), hex(&x), log, wok, hex(&want), m.log)) } }
        let mut m = s0.clone();
        let mut b4 = [0u8; 4];
        let w = if m.fill(&add, &mut b4) { Ok(u32::from_le_bytes(b4)) } else { Err(DrbgError) };
        SIM.with(|s| *s.borrow_mut() = s0.clone());
        let r = drbg_helpers::next_u32_via_fill(&mut D, &add);
        let log = sim(|s| std::mem::take(&mut s.log));
        if r != w || log != m.log { self.fail("C18", "next_u32_via_fill", format!("{r:?} expected {w:?}; draws {log:?} expected {:?}", m.log)); }
        let mut m = s0.clone();
        let mut b8 = [0u8; 8];
        let w = if m.fill(&add, &mut b8) { Ok(u64::from_le_bytes(b8)) } else { Err(DrbgError) };
        SIM.with(|s| *s.borrow_mut() = s0.clone());
        let r = drbg_helpers::next_u64_via_fill(&mut D, &add);
        let log = sim(|s| std::mem::take(&mut s.log));
        if r != w || log != m.log { self.fail("C18", "next_u64_via_fill", format!("{r:?} expected {w:?}; draws {log:?} expected {:?}", m.log)); }
        let mut m = s0.clone();
        let w = (|| { let x = m.u32(&add)?; let y = m.u32(&[])?; Some((y as u64) << 32 | x as u64) })().ok_or(DrbgError);
        SIM.with(|s| *s.borrow_mut() = s0.clone());
        let r = drbg_helpers::next_u64_via_u32(&mut D, &add);
        let log = sim(|s| std::mem::take(&mut s.log));
        if r != w || log != m.log { self.fail("C18", "next_u64_via_u32", format!("{r:?} expected {w:?}; draws {log:?} expected {:?}", m.log)); }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    let want: Vec<String> = arg("--props").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let lits: Vec<u64> = arg("--lits").map(|f| std::fs::read_to_string(f).unwrap().split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = arg("--n").and_then(|s| s.parse().ok()).unwrap_or(20);
    let mut d = Drv { want, r: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1), lits, fails: vec![], cases: 0, n };
    for _ in 0..8 { d.r.next(); }
    for _ in 0..d.n {
        d.history();
        if d.wants("C17") { d.slices(); }
        if d.wants("C18") { d.helpers(); }
    }
    for (p, t, m) in &d.fails { println!("FAIL\t{p}\t{t}\t{}", m.replace(['\t', '\n'], " ")); }
    println!("DONE\t{}\t{}", d.cases, d.fails.len());
}
