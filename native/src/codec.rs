//! differential drivers for the wire-format properties
use crate::refc::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
use tpm2_rs_marshalable::{Error, Marshalable, UnmarshalBuf};

pub struct Driver {
    pub want: Vec<String>,   // property ids
    pub only: Option<String>,  // type
    pub r: Rng,
    pub n: usize,            // rounds per type
    pub lits: Vec<u64>,
    pub fails: Vec<(String, String, String)>, // property, subject, description
    pub cases: u64,
    pub replay: Option<Vec<u8>>,
    pub alias: Option<&'static str>, // report everything under this property
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn short(b: &[u8]) -> String { if b.len() <= 3000 { hex(b) } else { format!("{}..({} bytes)", hex(&b[..3000]), b.len()) } }
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}

impl Driver {
    pub fn on(&self, p: &str, t: &str) -> bool { let p = self.alias.unwrap_or(p); self.want.iter().any(|w| w == p) && self.only.as_deref().is_none_or(|o| o == t) }
    pub fn fail(&mut self, p: &str, t: &str, d: String) {
        let p = self.alias.unwrap_or(p);
        if self.fails.iter().filter(|f| f.0 == p && f.1 == t).count() < 2 { self.fails.push((p.into(), t.into(), d)); }
    }

    /// decoding s, then marshaling what was decoded
    fn check<T: Marshalable + RefEnc>(&mut self, p: &str, t: &str, sc: &S, s: &[u8], all: bool) {
        self.cases += 1;
        let mut q = 0;
        let want = rdec(sc, s, &mut q);
        let got = guard(|| { let mut b = UnmarshalBuf::new(s); let r = T::try_unmarshal(&mut b); (r, b.len()) });
        let x = match (got, want) {
            (Err(m), _) => return self.fail(p, t, format!("{t}::try_unmarshal panicked ({m}) on input={}", short(s))),
            (Ok((Ok(x), left)), Ok(_)) => {
                if left != s.len() - q { return self.fail(p, t, format!("{t}::try_unmarshal left {left} bytes, {} expected, input={}", s.len() - q, short(s))); }
                x
            }
            (Ok((Err(e), _)), Err(w)) => { if e != w { self.fail(p, t, format!("{t}::try_unmarshal returned {e:?}, {w:?} expected, input={}", short(s))); } return; }
            (Ok((Ok(_), _)), Err(w)) => return self.fail(p, t, format!("{t}::try_unmarshal accepted, {w:?} expected, input={}", short(s))),
            (Ok((Err(e), _)), Ok(_)) => return self.fail(p, t, format!("{t}::try_unmarshal returned {e:?} on a valid encoding, input={}", short(s))),
        };
        let enc = &s[..q];
        let mut r = vec![];
        if let Err(m) = guard(|| x.renc(&mut r)) { return self.fail(p, t, format!("{t}: reading the decoded value failed ({m}), input={}", short(s))); }
        if r != enc { return self.fail(p, t, format!("{t}::try_unmarshal: decoded members are {} input={}", short(&r), short(s))); }
        self.marshal(p, t, &x, enc, all);
    }
    pub fn marshal<T: Marshalable>(&mut self, p: &str, t: &str, x: &T, enc: &[u8], all: bool) {
        let q = enc.len();
        let mut sizes = vec![q, q + 1, q + 7, q + 300];
        if all && q <= 400 { sizes.extend(0..q); } else if q > 0 { for k in [0, 1, 2, q / 2, q - 1, q.saturating_sub(2)] { sizes.push(k); } for _ in 0..6 { sizes.push(self.r.below(q)); } }
        if all {
            for b in [256usize, 512, 1024, 2048, 4096, 8192, 32768, 65536, 131072] { sizes.extend([b - 1, b, b + 1, b + q / 2, b + q]); }
            for _ in 0..12 { if !self.lits.is_empty() { let l = self.lits[self.r.below(self.lits.len())] as usize; if l < 1 << 18 { sizes.extend([l, l + 1, l.saturating_sub(1), l + q]); } } }
        }
        for n in sizes {
            let fill = 0xA5u8;
            let mut b = vec![fill; n];
            let got = match guard(|| x.try_marshal(&mut b)) {
                Err(m) => return self.fail(p, t, format!("{t}::try_marshal panicked ({m}) into {n} bytes, value={}", short(enc))),
                Ok(g) => g,
            };
            if n >= q {
                if got != Ok(q) || b[..q] != *enc || b[q..].iter().any(|v| *v != fill) {
                    return self.fail(p, t, format!("{t}::try_marshal into {n} bytes gave {got:?} bytes={}, value={}", short(&b), short(enc)));
                }
            } else if got != Err(Error::UnexpectedEndOfBuffer) {
                return self.fail(p, t, format!("{t}::try_marshal into {n} bytes gave {got:?}, UnexpectedEndOfBuffer expected, value={}", short(enc)));
            }
        }
    }

    pub fn codec<T: Marshalable + RefEnc>(&mut self, p: &str, t: &str, sc: S) {
        if !self.on(p, t) { return; }
        if let Some(s) = self.replay.clone() { return self.check::<T>(p, t, &sc, &s, true); }
        let n = if big(&sc) { self.n / 40 } else { self.n };
        for k in 0..n + 3 {
            if self.fails.iter().any(|f| f.0 == p && f.1 == t) { return; }
            let mut r = self.r.clone();
            let lits = self.lits.clone();
            let mut g = Gen { r: &mut r, o: vec![], marks: vec![], lits: &lits, mode: k };
            g.run(&sc);
            let (o, marks) = (g.o, g.marks);
            self.r = r;
            let mut v = o.clone();
            self.check::<T>(p, t, &sc, &v, k < 8 || k % 64 == 0);
            for _ in 0..self.r.below(5) { let x = self.r.next() >> 9; v.push(x as u8); }
            self.check::<T>(p, t, &sc, &v, false);
            if k < 6 {
                let b = [256usize, 4096, 32768, 65536, 65536 + 256, 131072][k];
                for n in [b - 1, b, b + 1] { if n > o.len() { let mut v = o.clone(); v.resize(n, 0x5a); self.check::<T>(p, t, &sc, &v, false); } }
                for n in [b, b + 1] { let mut v = o.clone(); let n = n + v.len(); v.resize(n, 0x5a); self.check::<T>(p, t, &sc, &v, false); }
            }
            // truncations
            let l = o.len();
            if l <= 64 && k < 12 { for c in 0..l { self.check::<T>(p, t, &sc, &o[..c], false); } }
            else { for _ in 0..4 { let c = self.r.below(l + 1); self.check::<T>(p, t, &sc, &o[..c], false); } if l > 0 { self.check::<T>(p, t, &sc, &o[..l - 1], false); } }
            // sizes, counts, selectors, integers
            for _ in 0..marks.len().min(8) {
                let (at, w, cap) = marks[self.r.below(marks.len())];
                let cur = o[at..at + w].iter().fold(0u64, |a, b| a << 8 | *b as u64);
                let pick = self.r.below(9);
                let nv = match pick { 0 => cap, 1 => cap + 1, 2 => cur.wrapping_add(1), 3 => cur.wrapping_sub(1), 4 => u64::MAX, 5 => 0, 6 | 7 if !self.lits.is_empty() => self.lits[self.r.below(self.lits.len())], _ => self.r.next() };
                let mut m = o.clone();
                for i in 0..w { m[at + i] = (nv >> (8 * (w - 1 - i))) as u8; }
                self.check::<T>(p, t, &sc, &m, false);
                if cap > 0 && self.r.below(4) == 0 { let n = m.len() + self.r.below(cap as usize + 3); let f = self.r.next() as u8; m.resize(n, f); self.check::<T>(p, t, &sc, &m, false); }
            }
            // noise
            let n = self.r.below(rmax(&sc).min(40) + 2);
            let noise: Vec<u8> = (0..n).map(|_| { let x = self.r.next() >> 13; if x & 7 == 0 { 0 } else { (x >> 3) as u8 } }).collect();
            self.check::<T>(p, t, &sc, &noise, false);
        }
    }

    pub fn tpm2b<T: Tpm2bSimple + Default + AsRef<[u8]> + Marshalable>(&mut self, t: &str, cap: usize) {
        if !self.on("C02", t) || self.replay.is_some() { return; }
        let d = guard(|| { let d = T::default(); (d.get_size(), d.get_buffer().len(), d.as_ref().len()) });
        if d != Ok((0, 0, 0)) { self.fail("C02", t, format!("{t}::default() is not empty: {d:?}")); }
        if T::MAX_BUFFER_SIZE.min(65535) != cap { self.fail("C02", t, format!("{t}::MAX_BUFFER_SIZE is {}, {cap} expected", T::MAX_BUFFER_SIZE)); }
        let mut lens: Vec<usize> = if cap <= 300 { (0..cap + 4).collect() } else { vec![0, 1, 2, 255, 256, 257, cap / 2, cap.saturating_sub(1), cap, cap + 1, cap + 2] };
        lens.extend([65535, 65536, 65537, 65536 + cap, cap + 256]);
        for l in self.lits.clone() { if l <= 70000 { lens.push(l as usize); } }
        for l in lens {
            self.cases += 1;
            let data: Vec<u8> = (0..l).map(|_| (self.r.next() >> 15) as u8).collect();
            match guard(|| T::from_bytes(&data).map(|x| (x.get_size() as usize, x.get_buffer().to_vec(), x.as_ref().to_vec(), x))) {
                Err(m) => self.fail("C02", t, format!("{t}::from_bytes panicked ({m}) on {l} bytes")),
                Ok(Ok((n, b, a, x))) => {
                    if l > cap { self.fail("C02", t, format!("{t}::from_bytes accepted {l} bytes, capacity {cap}")); }
                    else if n != l || b != data || a != data { self.fail("C02", t, format!("{t}::from_bytes({}) gives size {n}, get_buffer {} as_ref {}", short(&data), short(&b), short(&a))); }
                    else if l % 7 == 0 || l > 250 { let mut e = (l as u16).to_be_bytes().to_vec(); e.extend(&data); self.marshal("C02", t, &x, &e, false); }
                }
                Ok(Err(e)) => if l <= cap || e != Error::ArrayLengthExceeded { self.fail("C02", t, format!("{t}::from_bytes of {l} bytes returned {e:?}, capacity {cap}")); },
            }
        }
    }
    pub fn holds<B: Tpm2bSimple, T>(&mut self, b: &str, t: &str, sc: S) {
        if !self.on("C06", b) || self.replay.is_some() { return; }
        let m = rmax(&sc);
        if B::MAX_BUFFER_SIZE < m { self.fail("C06", b, format!("{b} holds at most {} bytes, a {t} can take {m}", B::MAX_BUFFER_SIZE)); }
    }
    pub fn tpm2bstruct<B: Tpm2bStruct>(&mut self, t: &str, sc: S) where B::StructType: RefEnc {
        if !self.on("C06", t) || self.replay.is_some() { return; }
        let n = if big(&sc) { self.n / 40 } else { self.n };
        for k in 0..n + 3 {
            self.cases += 1;
            let mut r = self.r.clone();
            let lits = self.lits.clone();
            let mut g = Gen { r: &mut r, o: vec![], marks: vec![], lits: &lits, mode: k };
            g.run(&sc);
            let o = g.o;
            self.r = r;
            let Ok(x) = B::StructType::try_unmarshal(&mut UnmarshalBuf::new(&o)) else { continue };
            let mut e = vec![];
            x.renc(&mut e);
            match guard(|| B::from_struct(&x).map(|b| (b.get_buffer().to_vec(), b.get_size() as usize, b.to_struct()))) {
                Err(m) => self.fail("C06", t, format!("{t}::from_struct/to_struct panicked ({m}) on value={}", short(&e))),
                Ok(Err(er)) if e.len() > 65535 && er == tpm2_rs_marshalable::Error::ArrayLengthExceeded => {}
                Ok(Err(er)) => self.fail("C06", t, format!("{t}::from_struct returned {er:?} on value={}", short(&e))),
                Ok(Ok((b, n, s))) => {
                    if b != e || n != e.len() { self.fail("C06", t, format!("{t}::from_struct holds {} for value={}", short(&b), short(&e))); }
                    match s { Err(er) => self.fail("C06", t, format!("{t}::to_struct returned {er:?} on value={}", short(&e))),
                        Ok(y) => { let mut f = vec![]; y.renc(&mut f); if f != e { self.fail("C06", t, format!("{t}::to_struct gives {} for value={}", short(&f), short(&e))); } } }
                }
            }
            // contents that are not an encoding of the structure
            let mut m = o.clone();
            match self.r.below(3) { 0 => m.truncate(self.r.below(o.len() + 1)), 1 => if !m.is_empty() { let i = self.r.below(m.len().min(8)); m[i] = self.r.next() as u8 }, _ => {} }
            if let Ok(b) = B::from_bytes(&m) {
                let mut q = 0;
                let want = rdec(&sc, &m, &mut q);
                match guard(|| b.to_struct()) {
                    Err(p) => self.fail("C06", t, format!("{t}::to_struct panicked ({p}) on bytes={}", short(&m))),
                    Ok(got) => match (got, want) {
                        (Ok(y), Ok(_)) => { let mut f = vec![]; y.renc(&mut f); if f != m[..q] { self.fail("C06", t, format!("{t}::to_struct gives {} for bytes={}", short(&f), short(&m))); } }
                        (Err(a), Err(b)) if a == b => {}
                        (g, w) => self.fail("C06", t, format!("{t}::to_struct gives {:?}, {w:?} expected, bytes={}", g.map(|_| ()), short(&m))),
                    },
                }
            }
        }
    }
    pub fn tpml<T: Marshalable + RefEnc + Clone + Default, E: Marshalable + RefEnc + Copy>(&mut self, t: &str, es: S, cap: usize,
        new: impl Fn(&[E]) -> tpm2_rs_base::errors::TpmRcResult<T>, add: impl Fn(&mut T, &E) -> tpm2_rs_base::errors::TpmRcResult<()>, count: impl Fn(&T) -> usize, get: impl Fn(&T) -> Vec<E>) {
        if !self.on("C05", t) || self.replay.is_some() { return; }
        let mut pool: Vec<E> = vec![];
        while pool.len() < cap + 3 {
            let mut r = self.r.clone();
            let lits = self.lits.clone();
            let mut g = Gen { r: &mut r, o: vec![], marks: vec![], lits: &lits, mode: 9 };
            g.run(&es);
            let o = g.o;
            self.r = r;
            if let Ok(x) = E::try_unmarshal(&mut UnmarshalBuf::new(&o)) { pool.push(x); } else { return; }
        }
        let enc = |x: &[E]| -> Vec<u8> { let mut o = vec![]; for e in x { e.renc(&mut o) } o };
        self.cases += 1;
        match guard(|| { let x = T::default(); let mut o = vec![]; x.renc(&mut o); (count(&x), get(&x).len(), o) }) {
            Ok((0, 0, o)) if o == [0; 4] => {}
            Ok((c, g, o)) => { self.fail("C05", t, format!("{t}::default() is not empty: count {c}, {g} elements, {}", short(&o))); return; }
            Err(m) => { self.fail("C05", t, format!("{t}::default() panicked ({m})")); return; }
        }
        let mut lens = vec![0, 1, 2, 3, cap / 2, cap - 1, cap, cap + 1, cap + 2];
        lens.extend(self.lits.clone().iter().filter(|l| **l <= cap as u64 + 2).map(|l| *l as usize));
        for n in lens {
            self.cases += 1;
            let src = pool[..n.min(pool.len())].to_vec();
            let bad = match guard(|| new(&src).map(|x| { let mut o = vec![]; x.renc(&mut o); (count(&x), enc(&get(&x)), o) })) {
                Err(m) => Some(format!("panicked ({m})")),
                Ok(Ok((c, g, o))) => { let mut w = (n as u32).to_be_bytes().to_vec(); w.extend(enc(&src)); if n > cap { Some("accepted".into()) } else if c != n || g != enc(&src) || o != w { Some(format!("count {c} contents {}", short(&g))) } else { None } }
                Ok(Err(e)) => if n <= cap || e != tpm2_rs_base::errors::TpmRcError::Size { Some(format!("returned {e:?}")) } else { None },
            };
            if let Some(b) = bad { self.fail("C05", t, format!("{t}::new of {n} elements (capacity {cap}): {b}; elements={}", short(&enc(&src)))); return; }
        }
        for start in [0, 1, cap / 2, cap - 1, cap] {
            let Ok(mut x) = new(&pool[..start]) else { continue };
            for n in start..(cap + 2).min(start + 600) {
                self.cases += 1;
                let e = pool[n.min(pool.len() - 1)];
                match guard(|| { let r = add(&mut x, &e); (r, count(&x), get(&x)) }) {
                    Err(m) => { self.fail("C05", t, format!("{t}::add panicked ({m}) with {n} elements")); return; }
                    Ok((r, c, g)) => {
                        let want = if n < cap { n + 1 } else { cap };
                        if r.is_ok() != (n < cap) || c != want || enc(&g) != enc(&pool[..want]) || (r.is_err() && r != Err(tpm2_rs_base::errors::TpmRcError::Size)) {
                            self.fail("C05", t, format!("{t}::add to {n} of {cap} elements: {r:?}, count {c}, contents {}", short(&enc(&g)))); return;
                        }
                    }
                }
            }
        }
    }
    /// a count beyond the array is refused, whatever the buffer
    pub fn over<T: Marshalable + RefEnc>(&mut self, t: &str, sc: S, cap: usize, width: usize, set: impl Fn(&mut T, u64)) {
        if !self.on("C05", t) || self.replay.is_some() { return; }
        for k in 0..24 {
            let mut r = self.r.clone();
            let lits = self.lits.clone();
            let mut g = Gen { r: &mut r, o: vec![], marks: vec![], lits: &lits, mode: k };
            g.run(&sc);
            let o = g.o;
            self.r = r;
            let Ok(mut x) = T::try_unmarshal(&mut UnmarshalBuf::new(&o)) else { return };
            let max = if width == 8 { u64::MAX } else { (1 << (8 * width)) - 1 };
            let mut c = vec![cap as u64 + 1, cap as u64 + 2, max, max - 1, max / 2 + 1, 256, 257, 65536, 65537, 1 << 32, (1 << 32) + 1];
            c.extend(self.lits.iter());
            for v in c {
                if v <= cap as u64 || v > max { continue; }
                self.cases += 1;
                set(&mut x, v);
                for n in [rmax(&sc) + 64, 0, 1, self.r.below(rmax(&sc) + 1)] {
                    let mut b = vec![0; n];
                    match guard(|| x.try_marshal(&mut b)) {
                        Err(m) => return self.fail("C05", t, format!("{t}::try_marshal panicked ({m}) with count {v}, capacity {cap}, into {n} bytes")),
                        Ok(Ok(w)) => return self.fail("C05", t, format!("{t}::try_marshal wrote {w} bytes with count {v}, capacity {cap}, into {n} bytes")),
                        Ok(Err(_)) => {}
                    }
                }
            }
        }
    }
    pub fn commands(&mut self) {
        use tpm2_rs_base::commands::*;
        if !self.on("C13", "command codes") { return; }
        for (n, got, want) in [("StartupCmd", StartupCmd::CMD_CODE.0, 0x144u32), ("GetRandomCmd", GetRandomCmd::CMD_CODE.0, 0x17b), ("PcrReadCmd", PcrReadCmd::CMD_CODE.0, 0x17e), ("GetCapabilityCmd", GetCapabilityCmd::CMD_CODE.0, 0x17a)] {
            if got != want { self.fail("C13", "command codes", format!("{n}::CMD_CODE is {got:#x}, {want:#x} expected")); }
        }
    }
}

/// lists of tens of thousands of entries take their time
fn big(sc: &S) -> bool { matches!(sc, S::Struct(_)) && rmax(sc) > 20000 }
