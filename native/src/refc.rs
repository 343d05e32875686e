//! reference codec: an interpreter of the wire schema, independent of /repo
use tpm2_rs_marshalable::{Error, Marshalable};

pub enum S { Int(usize), Bytes(usize), B2(usize), Struct(Vec<F>), Enum(usize, Vec<(u64, Vec<S>)>) }
pub enum F { P(S), List(usize, S, usize), Fix(S, usize), Sel(usize), Var(usize, S) }

pub trait RefEnc { fn renc(&self, o: &mut Vec<u8>); }
macro_rules! p { ($($t:ty)*) => { $(impl RefEnc for $t { fn renc(&self, o: &mut Vec<u8>) {
    for k in (0..size_of::<$t>()).rev() { o.push((*self as i128 >> (8 * k)) as u8); } } })* } }
p! { u8 u16 u32 u64 i8 i16 i32 i64 }
impl RefEnc for () { fn renc(&self, _o: &mut Vec<u8>) {} }
impl<const N: usize> RefEnc for [u8; N] { fn renc(&self, o: &mut Vec<u8>) { o.extend_from_slice(self) } }
/// members are private: the code's own marshaler (round trip only)
pub fn opaque<T: Marshalable>(x: &T, o: &mut Vec<u8>) {
    let mut b = vec![0u8; 200_000];
    let n = x.try_marshal(&mut b).expect("marshal into a large buffer");
    o.extend_from_slice(&b[..n]);
}

fn int(s: &[u8], p: &mut usize, n: usize) -> Result<u64, Error> {
    if s.len() - *p < n { return Err(Error::UnexpectedEndOfBuffer); }
    let v = s[*p..*p + n].iter().fold(0u64, |a, b| a << 8 | *b as u64);
    *p += n;
    Ok(v)
}

/// reference decoder: advances p, or the error the specification calls for
pub fn rdec(sc: &S, s: &[u8], p: &mut usize) -> Result<u64, Error> {
    match sc {
        S::Int(n) => int(s, p, *n),
        S::Bytes(n) => { if s.len() - *p < *n { return Err(Error::UnexpectedEndOfBuffer); } *p += n; Ok(0) }
        S::B2(cap) => {
            let n = int(s, p, 2)? as usize;
            if n > *cap || n > s.len() - *p { return Err(Error::UnexpectedEndOfBuffer); }
            *p += n;
            Ok(0)
        }
        S::Struct(fs) => {
            let mut vals = vec![];
            for f in fs {
                vals.push(match f {
                    F::P(t) => rdec(t, s, p)?,
                    F::Sel(n) => int(s, p, *n)?,
                    F::List(c, e, cap) => {
                        let n = vals[*c];
                        if n > *cap as u64 { return Err(Error::ArrayLengthExceeded); }
                        for _ in 0..n { rdec(e, s, p)?; }
                        0
                    }
                    F::Fix(e, n) => { for _ in 0..*n { rdec(e, s, p)?; } 0 }
                    F::Var(c, t) => { rvar(t, vals[*c], s, p)?; 0 }
                });
            }
            Ok(0)
        }
        S::Enum(n, _) => { let sel = int(s, p, *n)?; rvar(sc, sel, s, p)?; Ok(0) }
    }
}
fn rvar(sc: &S, sel: u64, s: &[u8], p: &mut usize) -> Result<(), Error> {
    let S::Enum(_, vs) = sc else { unreachable!() };
    for (v, fs) in vs {
        if *v == sel { for f in fs { rdec(f, s, p)?; } return Ok(()); }
    }
    Err(Error::UnknownSelector)
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
}

/// marks: positions of sizes, counts and selectors and integers in generated bytes
pub struct Gen<'a> { pub r: &'a mut Rng, pub o: Vec<u8>, pub marks: Vec<(usize, usize, u64)>, pub lits: &'a [u64], pub mode: usize }
impl Gen<'_> {
    fn put(&mut self, v: u64, n: usize) { for k in (0..n).rev() { self.o.push((v >> (8 * k)) as u8); } }
    fn val(&mut self, n: usize) -> u64 {
        match self.r.below(7) {
            // a value seen before
            6 if !self.marks.is_empty() => { let (at, w, _) = self.marks[self.r.below(self.marks.len())]; self.o[at..at + w].iter().fold(0u64, |a, b| a << 8 | *b as u64) }
            0 if !self.lits.is_empty() => self.lits[self.r.below(self.lits.len())],
            1 => [0, 1, u64::MAX, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1, 0x80, 0x7f, 0xff][self.r.below(8)],
            _ => self.r.next(),
        }
    }
    fn count(&mut self, cap: usize) -> usize {
        match self.mode { 0 => 0, 1 => cap, 2 => 1.min(cap), _ => match self.r.below(8) { 0 => 0, 1 => cap, 2 => 1.min(cap), 3 => cap.saturating_sub(1), 4 => {
            let l: Vec<u64> = self.lits.iter().copied().filter(|x| *x <= cap as u64).collect(); if l.is_empty() { 0 } else { l[self.r.below(l.len())] as usize } }
            , 5 => self.r.below(cap + 1), _ => self.r.below(cap.min(6) + 1) } }
    }
    pub fn run(&mut self, sc: &S) { self.one(sc, None) }
    fn one(&mut self, sc: &S, sel: Option<u64>) {
        match sc {
            S::Int(n) => { let v = self.val(*n); self.marks.push((self.o.len(), *n, 0)); self.put(v, *n) }
            S::Bytes(n) => for _ in 0..*n { let b = self.r.next() >> 20; self.o.push(b as u8) },
            S::B2(cap) => { let n = self.count((*cap).min(65535)); self.marks.push((self.o.len(), 2, *cap as u64)); self.put(n as u64, 2); for _ in 0..n { let b = self.r.next() >> 20; self.o.push(b as u8) } }
            S::Struct(fs) => {
                let mut vals: Vec<u64> = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let mut v = 0;
                    match f {
                        F::P(S::Int(n)) => {
                            let cap = fs.iter().filter_map(|g| match g { F::List(c, _, cap) if *c == i => Some(if *n < 8 { (*cap).min((1 << (8 * *n)) - 1) } else { *cap }), _ => None }).min();
                            v = match cap { Some(c) => self.count(c) as u64, None => self.val(*n) };
                            self.marks.push((self.o.len(), *n, cap.unwrap_or(0) as u64));
                            self.put(v, *n);
                        }
                        F::P(t) => self.one(t, None),
                        F::Sel(n) => {
                            let u = fs.iter().find_map(|g| match g { F::Var(c, t) if *c == i => Some(t), _ => None }).unwrap();
                            let S::Enum(_, vs) = u else { unreachable!() };
                            v = vs[self.r.below(vs.len())].0;
                            self.marks.push((self.o.len(), *n, 0));
                            self.put(v, *n);
                        }
                        F::List(c, e, _) => for _ in 0..vals[*c] { self.one(e, None) },
                        F::Fix(e, n) => for _ in 0..*n { self.one(e, None) },
                        F::Var(c, t) => self.one(t, Some(vals[*c])),
                    }
                    vals.push(v);
                }
            }
            S::Enum(n, vs) => {
                let k = match sel { Some(s) => vs.iter().position(|v| v.0 == s).unwrap(), None => { let k = self.r.below(vs.len()); self.marks.push((self.o.len(), *n, 0)); self.put(vs[k].0, *n); k } };
                for f in &vs[k].1 { self.one(f, None) }
            }
        }
    }
}
/// encoding of the largest value
pub fn rmax(sc: &S) -> usize {
    match sc {
        S::Int(n) | S::Bytes(n) => *n,
        S::B2(c) => 2 + (*c).min(65535),
        S::Struct(fs) => fs.iter().map(|f| match f { F::P(t) => rmax(t), F::List(_, e, c) | F::Fix(e, c) => c * rmax(e), F::Sel(n) => *n, F::Var(_, S::Enum(_, vs)) => vs.iter().map(|v| v.1.iter().map(rmax).sum()).max().unwrap_or(0), _ => 0 }).sum(),
        S::Enum(n, vs) => n + vs.iter().map(|v| v.1.iter().map(rmax).sum::<usize>()).max().unwrap_or(0),
    }
}
