//! native driver: identifiers, response codes, handles, attributes and the hash types of crates/tpm2, /repo's compiled code against an independent reference
mod idents;
use std::panic::{AssertUnwindSafe, catch_unwind};
use tpm2::errors::*;
use tpm2::{Alg, Limits, Marshal, MarshalArray, TpmiAlgHash, TpmtHa, Unmarshal, UnmarshalArray};
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error as MError, Marshalable};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
    fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}
struct Drv { want: Vec<String>, r: Rng, lits: Vec<u64>, fails: Vec<(String, String, String)>, cases: usize }
fn num<T: Marshalable>(x: &T) -> u32 { let mut b = [0u8; 4]; match x.try_marshal(&mut b) { Ok(4) => u32::from_be_bytes(b), _ => 0xFFFFFFFF } }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

#[derive(Clone, Copy)]
struct Lim(u32);
const HASHES: [(TpmiAlgHash, u16, usize, &str); 8] = [(TpmiAlgHash::Sha1, 4, 20, "Sha1"), (TpmiAlgHash::Sha256, 0xB, 32, "Sha256"), (TpmiAlgHash::Sha384, 0xC, 48, "Sha384"), (TpmiAlgHash::Sha512, 0xD, 64, "Sha512"),
    (TpmiAlgHash::Sm3_256, 0x12, 32, "Sm3_256"), (TpmiAlgHash::Sha3_256, 0x27, 32, "Sha3_256"), (TpmiAlgHash::Sha3_384, 0x28, 48, "Sha3_384"), (TpmiAlgHash::Sha3_512, 0x29, 64, "Sha3_512")];
impl Limits for Lim { fn supports_hash(self, h: TpmiAlgHash) -> bool { HASHES.iter().position(|x| x.0 == h).is_some_and(|i| self.0 >> i & 1 == 1) } }

impl Drv {
    fn wants(&self, p: &str) -> bool { self.want.iter().any(|w| w == p) }
    fn fail(&mut self, p: &str, t: &str, m: String) { if self.wants(p) && self.fails.len() < 60 { self.fails.push((p.into(), t.into(), m)); } }
    fn chk(&mut self, p: &str, t: &str, ok: bool, m: impl FnOnce() -> String) { self.cases += 1; if !ok { let s = m(); self.fail(p, t, s) } }
    fn lit(&mut self) -> u64 { if self.lits.is_empty() { 0 } else { let i = self.r.below(self.lits.len()); self.lits[i] } }
    fn u32(&mut self) -> u32 {
        let l = self.lit() as u32;
        match self.r.below(6) {
            0 => l.wrapping_add(self.r.below(5) as u32).wrapping_sub(2),
            1 => (self.r.next() as u32 & 0xFF) << 24 | (l & 0xFF_FFFF),
            2 => (self.r.next() as u32 & 0xFF) << 24 | self.r.below(300) as u32,
            3 => ((self.r.next() as u32 & 0xFF) << 24).wrapping_sub(self.r.below(5) as u32),
            _ => (self.r.next() >> 13) as u32,
        }
    }

    fn c07(&mut self) {
        for (t, n, v, w) in idents::idents() { self.chk("C07", &format!("{t}::{n}"), v == w, || format!("{t}::{n} is {v:#x}, TPM 2.0 assigns {w:#x}")); }
    }
    fn c09(&mut self) {
        use ErrorPosition::*;
        use ErrorType::*;
        let named: [(&str, TpmRcError, u32); 14] = [("Asymmetric", TpmRcError::Asymmetric, 0x81), ("Value", TpmRcError::Value, 0x84), ("Size", TpmRcError::Size, 0x95), ("Selector", TpmRcError::Selector, 0x98), ("BadTag", TpmRcError::BadTag, 0x1e),
            ("Initialize", TpmRcError::Initialize, 0x100), ("Failure", TpmRcError::Failure, 0x101), ("Sequence", TpmRcError::Sequence, 0x103), ("CommandSize", TpmRcError::CommandSize, 0x142), ("CommandCode", TpmRcError::CommandCode, 0x143),
            ("ContextGap", TpmRcError::ContextGap, 0x901), ("ObjectMemory", TpmRcError::ObjectMemory, 0x902), ("SessionMemory", TpmRcError::SessionMemory, 0x903), ("Memory", TpmRcError::Memory, 0x904)];
        for (n, e, v) in named {
            self.chk("C09", n, e.get() == v, || format!("TpmRcError::{n} is {:#x}, not {v:#x}", e.get()));
            self.chk("C09", n, e.is_warning() == (v & 0x980 == 0x900), || format!("TpmRcError::{n} ({v:#x}): is_warning {}", e.is_warning()));
            self.chk("C09", n, e.format1_parameter().is_none(), || format!("TpmRcError::{n} ({v:#x}) names {:?}", e.format1_parameter()));
            self.chk("C09", n, TssError::from(e).get() == v, || format!("TssError of {n}: {:#x}", TssError::from(e).get()));
        }
        let fs: [(&str, fn(ErrorType, ErrorPosition) -> TpmRcError, u32); 4] = [("AsymmetricFor", TpmRcError::AsymmetricFor, 0x81), ("ValueFor", TpmRcError::ValueFor, 0x84), ("SizeFor", TpmRcError::SizeFor, 0x95), ("SelectorFor", TpmRcError::SelectorFor, 0x98)];
        for (n, f, base) in fs {
            for (k, kb) in [(Handle, 0u32), (Parameter, 0x40), (Session, 0x800)] {
                for (p, pn) in [(Pos1, 1u32), (Pos2, 2), (Pos3, 3), (Pos4, 4), (Pos5, 5), (Pos6, 6), (Pos7, 7), (Pos8, 8), (Pos9, 9), (PosA, 10), (PosB, 11), (PosC, 12), (PosD, 13), (PosE, 14), (PosF, 15)] {
                    // handles and sessions have a 3-bit number
                    if k != Parameter && pn > 7 { continue; }
                    let v = base | kb | pn << 8;
                    let e = match catch_unwind(|| f(k, p)) { Ok(e) => e, Err(_) => { self.fail("C09", n, format!("{n}({k:?}, {p:?}) panicked")); continue; } };
                    self.chk("C09", n, e.get() == v, || format!("{n}({k:?}, {p:?}) is {:#x}, not {v:#x}", e.get()));
                    self.chk("C09", "format1_parameter", e.format1_parameter() == Some((k, p)), || format!("{n}({k:?}, {p:?}) = {:#x} decodes to {:?}", e.get(), e.format1_parameter()));
                    self.chk("C09", "is_warning", !e.is_warning(), || format!("{n}({k:?}, {p:?}) = {:#x} counts as a warning", e.get()));
                }
            }
        }
        macro_rules! layer { ($T:ident, $l:expr) => { for (n, e, v) in [("GeneralFailure", $T::GeneralFailure, 2u32), ("BadParameter", $T::BadParameter, 3), ("InternalError", $T::InternalError, 4), ("OutOfMemory", $T::OutOfMemory, 5), ("NotImplemented", $T::NotImplemented, 6),
            ("KeyAlredyRegistered", $T::KeyAlredyRegistered, 8), ("TpmUnexpected", $T::TpmUnexpected, 0x10), ("CommFailure", $T::CommFailure, 0x11), ("Timeout", $T::Timeout, 0x12), ("Unsupported", $T::Unsupported, 0x14), ("Canceled", $T::Canceled, 0x16)] {
            let g = TssError::from(e).get(); self.chk("C09", n, g == $l << 12 | v, || format!("{}::{n} is {g:#x}, not {:#x}", stringify!($T), $l << 12 | v)); } } }
        layer!(TssTddlError, 1u32);
        layer!(TssTcsError, 2u32);
        layer!(TssTspError, 3u32);
        for (e, v) in [(MError::ArrayLengthExceeded, 0x95u32), (MError::UnexpectedEndOfBuffer, 0x904), (MError::UnknownSelector, 0x98)] {
            let (a, b) = (TpmRcError::from(e).get(), TssError::from(e).get());
            self.chk("C09", "marshaling error", a == v && b == v, || format!("{e:?} becomes {a:#x} / {b:#x}, not {v:#x}"));
        }
        for v in 0..0x4000u32 { self.c09v(v); }
    }
    fn c09v(&mut self, v: u32) {
        let r = TssError::try_from(v);
        #[cfg(verif_hooks)]
        if v != 0 {
            let e = TpmRcError::verif_new(v);
            self.chk("C09", "is_warning", e.is_warning() == (v & 0x980 == 0x900), || format!("code {v:#x}: is_warning {}", e.is_warning()));
            let want = Self::c09decode(v);
            let got = e.format1_parameter().map(|(k, p)| (format!("{k:?}"), format!("{p:?}")));
            self.chk("C09", "format1_parameter", got == want, || format!("code {v:#x} names {got:?}, expected {want:?}"));
            self.chk("C09", "get", e.get() == v && TssError::from(e).get() == v, || format!("code {v:#x} reads {:#x} / {:#x}", e.get(), TssError::from(e).get()));
        }
        self.chk("C09", "TssError::try_from", r.map(|e| e.get()).ok() == if v == 0 { None } else { Some(v) }, || format!("TssError::try_from({v:#x}) = {r:?}"));
    }
    #[cfg(verif_hooks)]
    fn c09decode(v: u32) -> Option<(String, String)> {
        if v & 0x80 == 0 { return None; }
        let (k, n) = if v & 0x40 != 0 { ("Parameter", v >> 8 & 15) } else if v & 0x800 != 0 { ("Session", v >> 8 & 7) } else { ("Handle", v >> 8 & 7) };
        if n == 0 { return None; }
        Some((k.into(), format!("Pos{n:X}")))
    }
    /// all 2^32 numbers, without keeping anything but the first that goes wrong
    fn c10all(&mut self) {
        let hs: Vec<_> = (0..8u32).map(|k| std::thread::spawn(move || {
            let mut bad = vec![];
            for l in 0..1u32 << 29 {
                let v = k << 29 | l;
                let (h, p, n) = (v >> 6 == 0x02000000 >> 6, v >> 6 == 0x03000000 >> 6, v >> 24 == 1);
                let a = h || p || v == 0x40000009;
                let ok = TpmHc::is_hmac_session(v) == h && TpmHc::is_policy_session(v) == p && TpmHc::is_nv_index(v) == n && TpmiRhNvIndex::try_from(v).map(|x| num(&x)).ok() == if n { Some(v) } else { None }
                    && TpmiShAuthSession::try_from(v).map(|x| num(&x)).ok() == if a { Some(v) } else { None };
                if !ok { bad.push(v); if bad.len() > 3 { break; } }
            }
            bad
        })).collect();
        for h in hs { match h.join() { Ok(b) => for v in b { self.c10(v); }, Err(_) => self.fail("C10", "conversion", "panicked".into()) } }
        self.cases += 1 << 32;
    }
    fn c10(&mut self, v: u32) {
        let h = (0x02000000..=0x0200003F).contains(&v);
        let p = (0x03000000..=0x0300003F).contains(&v);
        let n = (0x01000000..=0x01FFFFFF).contains(&v);
        self.chk("C10", "is_hmac_session", TpmHc::is_hmac_session(v) == h, || format!("is_hmac_session({v:#x}) = {}", !h));
        self.chk("C10", "is_policy_session", TpmHc::is_policy_session(v) == p, || format!("is_policy_session({v:#x}) = {}", !p));
        self.chk("C10", "is_nv_index", TpmHc::is_nv_index(v) == n, || format!("is_nv_index({v:#x}) = {}", !n));
        let bytes = |x: &dyn Fn(&mut [u8]) -> Option<usize>| { let mut b = [0u8; 8]; x(&mut b).map(|k| b[..k].to_vec()) };
        let r = TpmiRhNvIndex::try_from(v);
        let got = r.map(|x| bytes(&|b| x.try_marshal(b).ok())).map_err(|e| e.get());
        let want = if n { Ok(Some(v.to_be_bytes().to_vec())) } else { Err(0x84) };
        self.chk("C10", "TpmiRhNvIndex::try_from", got == want, || format!("TpmiRhNvIndex::try_from({v:#x}) = {got:x?}, expected {want:x?}"));
        let r = TpmiShAuthSession::try_from(v);
        let got = r.map(|x| bytes(&|b| x.try_marshal(b).ok())).map_err(|e| e.get());
        let want = if h || p || v == 0x40000009 { Ok(Some(v.to_be_bytes().to_vec())) } else { Err(0x84) };
        self.chk("C10", "TpmiShAuthSession::try_from", got == want, || format!("TpmiShAuthSession::try_from({v:#x}) = {got:x?}, expected {want:x?}"));
    }
    fn c10consts(&mut self) {
        for (n, c, v) in [("HmacSessionFirst", TpmHc::HmacSessionFirst, 0x02000000u32), ("HmacSessionLast", TpmHc::HmacSessionLast, 0x0200003F), ("PolicySessionFirst", TpmHc::PolicySessionFirst, 0x03000000), ("PolicySessionLast", TpmHc::PolicySessionLast, 0x0300003F),
            ("PersistentFirst", TpmHc::PersistentFirst, 0x81000000), ("PersistentLast", TpmHc::PersistentLast, 0x81FFFFFF), ("NVIndexFirst", TpmHc::NVIndexFirst, 0x01000000), ("NVIndexLast", TpmHc::NVIndexLast, 0x01FFFFFF)] {
            self.chk("C10", n, c.get() == v, || format!("TpmHc::{n} is {:#x}, not {v:#x}", c.get()));
        }
        let mut b = [0u8; 4];
        let k = TpmiShAuthSession::RS_PW.try_marshal(&mut b);
        self.chk("C10", "RS_PW", k == Ok(4) && b == [0x40, 0, 0, 9], || format!("RS_PW is {}", hex(&b)));
        for o in 0..=255u32 { for l in [0u32, 1, 2, 0x3E, 0x3F, 0x40, 0x41, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFE, 0xFFFFFF] { self.c10(o << 24 | l); } }
        for l in 0..0x200u32 { for o in [0u32, 1, 2, 3, 4, 0x40, 0x80, 0x81] { self.c10(o << 24 | l); } }
    }
    #[cfg(verif_hooks)]
    fn c11cc(&mut self, w: u32, x: u32) {
        let r = catch_unwind(|| {
            let mut a = TpmaCc(w);
            let g = (a.verif_get_command_index(), a.verif_get_c_handles());
            a.verif_set_command_index(x as u16);
            let i = (a.0, a.verif_get_command_index());
            let mut a = TpmaCc(w);
            a.verif_set_c_handles(x);
            (g, i, (a.0, a.verif_get_c_handles()), TpmaCc::verif_command_index(x as u16).0, TpmaCc::verif_c_handles(x).0, TpmaLocality(x as u8).verif_is_extended())
        });
        match r {
            Err(_) => self.fail("C11", "TpmaCc", format!("panicked for word {w:#x}, value {x:#x}")),
            Ok((g, i, h, ni, nh, ext)) => {
                self.chk("C11", "TpmaCc getters", g == (w as u16, w >> 25 & 7), || format!("command index and handle count of {w:#x} read {g:x?}"));
                self.chk("C11", "set_command_index", i == (w & 0xFFFF0000 | x & 0xFFFF, x as u16), || format!("set_command_index({:#x}) on {w:#x} gives {i:x?}", x as u16));
                self.chk("C11", "set_c_handles", h == (w & !0x0E000000 | (x & 7) << 25, x & 7), || format!("set_c_handles({x:#x}) on {w:#x} gives {h:x?}"));
                self.chk("C11", "TpmaCc::command_index", ni == x & 0xFFFF, || format!("command_index({:#x}) is {ni:#x}", x as u16));
                self.chk("C11", "TpmaCc::c_handles", nh == (x & 7) << 25, || format!("c_handles({x:#x}) is {nh:#x}"));
                self.chk("C11", "is_extended", ext == (x & 0xFF >= 32), || format!("is_extended of locality {} is {ext}", x & 0xFF));
            }
        }
    }
    fn c11(&mut self, w: u32) {
        #[cfg(verif_hooks)]
        for k in 0..32 { self.c11cc(w, 1 << k); self.c11cc(w, w.rotate_right(k)); self.c11cc(w, (w & 0xFF).wrapping_add(k)); self.c11cc(1 << k, w); self.c11cc(!(1 << k), w); }

        for t in 0..=255u8 {
            let want = (w & !0xF0) | ((t as u32 & 0xF) << 4);
            let r = catch_unwind(|| { let mut a = TpmaNv(w); let before = a.get_index_type().0; a.set_type(TpmNt(t)); (before, a.0, a.get_index_type().0, TpmaNv::from(TpmNt(t)).0) });
            match r {
                Err(_) => self.fail("C11", "TpmaNv", format!("panicked for word {w:#x}, type {t:#x}")),
                Ok((b, a, g, f)) => {
                    self.chk("C11", "get_index_type", b as u32 == w >> 4 & 0xF, || format!("get_index_type of {w:#x} is {b:#x}"));
                    self.chk("C11", "set_type", a == want, || format!("set_type({t:#x}) on {w:#x} gives {a:#x}, not {want:#x}"));
                    self.chk("C11", "set_type", g == t & 0xF, || format!("set_type({t:#x}) on {w:#x} reads back {g:#x}"));
                    self.chk("C11", "from", f == (t as u32 & 0xF) << 4, || format!("TpmaNv::from({t:#x}) is {f:#x}"));
                }
            }
        }
    }
    fn c12ints(&mut self) {
        macro_rules! int { ($($T:ty),*) => { $( {
            let n = size_of::<$T>();
            let x = match self.r.below(3) { 0 => self.lit() as $T, 1 => self.r.below(5) as $T, _ => (self.r.next() >> 3) as $T };
            let len = self.r.below(12);
            let fill = self.r.bytes(len);
            let mut b = fill.clone();
            let r = catch_unwind(AssertUnwindSafe(|| x.marshal(Lim(0), &mut b).map(|rest| rest.len())));
            let want = if len >= n { Ok(len - n) } else { Err(()) };
            let mut wb = fill.clone();
            if len >= n { wb[..n].copy_from_slice(&x.to_be_bytes()); }
            let r = match r { Ok(r) => r.map_err(|_| ()), Err(_) => { self.fail("C12", stringify!($T), format!("marshal of {x} into {len} bytes panicked")); return; } };
            self.chk("C12", stringify!($T), r == want && b == wb, || format!("marshal of {x} into {len} bytes: {r:?} {}, expected {want:?} {}", hex(&b), hex(&wb)));
            self.chk("C12", stringify!($T), x.marshaled_size() == n && <$T as Marshal>::marshaled_size_max(Lim(0)) == n && <$T as MarshalArray>::SIZE == n, || format!("sizes of {}", stringify!($T)));
            let mut y: $T = 7 as $T;
            let r = catch_unwind(AssertUnwindSafe(|| y.unmarshal(Lim(0), &fill).map(|rest| rest.to_vec())));
            match r {
                Err(_) => self.fail("C12", stringify!($T), format!("unmarshal of {} panicked", hex(&fill))),
                Ok(r) => {
                    let want = if len >= n { Ok(fill[n..].to_vec()) } else { Err(()) };
                    let r = r.map_err(|_| ());
                    let wv = if len >= n { <$T>::from_be_bytes(fill[..n].try_into().unwrap()) } else { y };
                    self.chk("C12", stringify!($T), r == want && y == wv, || format!("unmarshal of {}: {r:?} value {y}, expected {want:?} {wv}", hex(&fill)));
                }
            }
        } )* } }
        int!(u8, u16, u32, u64, i8, i16, i32, i64);
    }
    fn c12alg(&mut self, v: u16) {
        let want = HASHES.iter().find(|x| x.1 == v).map(|x| x.0);
        let r = TpmiAlgHash::try_from(Alg(v)).ok();
        self.chk("C12", "TpmiAlgHash::try_from", r == want, || format!("TpmiAlgHash::try_from({v:#x}) = {r:?}, expected {want:?}"));
        let r = TpmiAlgHash::unmarshal_array(&v.to_be_bytes()).ok();
        self.chk("C12", "TpmiAlgHash::unmarshal_array", r == want, || format!("TpmiAlgHash from {v:#06x} = {r:?}, expected {want:?}"));
        let Ok(a) = Alg::unmarshal_array(&v.to_be_bytes());
        let mut b = [0u8; 2];
        a.marshal_array(&mut b);
        self.chk("C12", "Alg", a == Alg(v) && b == v.to_be_bytes(), || format!("Alg {v:#x} reads as {a:?} and writes as {}", hex(&b)));
    }
    fn c12hashes(&mut self) {
        for (h, id, sz, n) in HASHES {
            self.chk("C12", n, h.digest_size() == sz, || format!("digest_size of {n} is {}, not {sz}", h.digest_size()));
            self.chk("C12", n, Alg::from(h).0 == id, || format!("{n} has identifier {:#x}, not {id:#x}", Alg::from(h).0));
            let mut b = [0u8; 2];
            h.marshal_array(&mut b);
            self.chk("C12", n, b == id.to_be_bytes(), || format!("{n} marshals to {}", hex(&b)));
        }
        for m in 0..256u32 {
            let want = HASHES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.2).max().unwrap_or(0);
            let r = Lim(m).max_digest_size();
            self.chk("C12", "max_digest_size", r == want, || format!("max_digest_size with algorithms {m:#010b} is {r}, not {want}"));
            let r = <TpmtHa as Marshal>::marshaled_size_max(Lim(m));
            let least = HASHES.iter().enumerate().take(4).filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| 2 + x.2).max().unwrap_or(0);
            self.chk("C12", "marshaled_size_max", r >= least, || format!("marshaled_size_max of TpmtHa with algorithms {m:#010b} is {r}, less than {least}"));
        }
        for v in 0..=0xFFFFu16 { self.c12alg(v); }
    }
    fn ha(&mut self, i: usize, d: &[u8], m: u32, len: usize) {
        let (h, id, sz, n) = HASHES[i];
        let x = match i { 0 => TpmtHa::Sha1(d.try_into().unwrap()), 1 => TpmtHa::Sha256(d.try_into().unwrap()), 2 => TpmtHa::Sha384(d.try_into().unwrap()), _ => TpmtHa::Sha512(d.try_into().unwrap()) };
        self.chk("C12", n, x.hash_alg() == h && x.digest() == d && x.marshaled_size() == sz + 2, || format!("TpmtHa::{n}: hash_alg {:?}, marshaled_size {}, digest {}", x.hash_alg(), x.marshaled_size(), hex(x.digest())));
        let mut enc = id.to_be_bytes().to_vec();
        enc.extend_from_slice(d);
        let sup = m >> i & 1 == 1;
        let fill = self.r.bytes(len);
        let mut b = fill.clone();
        let r = catch_unwind(AssertUnwindSafe(|| x.marshal(Lim(m), &mut b).map(|rest| rest.len()).map_err(|_| ())));
        match r {
            Err(_) => self.fail("C12", n, format!("marshal into {len} bytes panicked")),
            Ok(r) => {
                let want = if sup && len >= enc.len() { Ok(len - enc.len()) } else { Err(()) };
                self.chk("C12", n, r == want, || format!("marshal of TpmtHa::{n} into {len} bytes (supported: {sup}) gives {r:?}, expected {want:?}"));
                if want.is_ok() { self.chk("C12", n, b[..enc.len()] == enc[..] && b[enc.len()..] == fill[enc.len()..], || format!("TpmtHa::{n} {} marshals to {}", hex(d), hex(&b))); }
            }
        }
        let mut s = enc.clone();
        let extra = self.r.below(4);
        s.extend(self.r.bytes(extra));
        self.haread(&s, m);
        let cut = self.r.below(s.len() + 1);
        self.haread(&s[..cut], m);
    }
    fn haread(&mut self, s: &[u8], m: u32) {
        let start = [0x5Au8; 20];
        let mut y = TpmtHa::Sha1(&start);
        let want = if s.len() < 2 { None } else { HASHES.iter().enumerate().take(4).find(|(_, x)| x.1 == u16::from_be_bytes([s[0], s[1]])).filter(|(i, x)| m >> i & 1 == 1 && s.len() >= 2 + x.2) };
        let r = catch_unwind(AssertUnwindSafe(|| y.unmarshal(Lim(m), s).map(|rest| rest.to_vec()).map_err(|_| ())));
        match r {
            Err(_) => self.fail("C12", "TpmtHa::unmarshal", format!("panicked for {}", hex(s))),
            Ok(r) => match want {
                None => self.chk("C12", "TpmtHa::unmarshal", r.is_err(), || format!("{} accepted with algorithms {m:#010b}", hex(s))),
                Some((_, x)) => self.chk("C12", "TpmtHa::unmarshal", r.as_deref() == Ok(&s[2 + x.2..]) && y.hash_alg() == x.0 && y.digest() == &s[2..2 + x.2], || format!("{} with algorithms {m:#010b} gives {r:?}, {y:?}", hex(s))),
            },
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    let want: Vec<String> = arg("--props").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let lits: Vec<u64> = arg("--lits").map(|f| std::fs::read_to_string(f).unwrap().split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = arg("--n").and_then(|s| s.parse().ok()).unwrap_or(20);
    let mut d = Drv { want, r: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1), lits: lits.clone(), fails: vec![], cases: 0 };
    for _ in 0..8 { d.r.next(); }
    if d.wants("C07") { d.c07(); }
    if d.wants("C09") { d.c09(); for &l in &lits { d.c09v(l as u32); } for _ in 0..n { let v = d.u32(); d.c09v(v); } }
    if d.wants("C10") { d.c10consts();  d.c10all(); for &l in &lits { for k in 0..5 { d.c10((l as u32).wrapping_add(k).wrapping_sub(2)); } } for _ in 0..n { let v = d.u32(); d.c10(v); } }
    if d.wants("C11") { for k in 0..256 { d.c11(k); } for &l in &lits { d.c11(l as u32); } for _ in 0..n / 16 { let v = d.u32(); d.c11(v); } }
    if d.wants("C12") {
        d.c12hashes();
        for _ in 0..n {
            d.c12ints();
            let i = d.r.below(4);
            let (_, _, sz, _) = HASHES[i];
            let dg = d.r.bytes(sz);
            let m = if d.r.below(3) == 0 { d.r.next() as u32 & 0xFF } else { 0xFF };
            let len = match d.r.below(3) { 0 => sz + 2 + d.r.below(3), 1 => (sz + 4).saturating_sub(d.r.below(4)), _ => d.r.below(90) };
            d.ha(i, &dg, m, len);
            let k = d.r.below(80);
            let mut s = d.r.bytes(k);
            if k >= 2 { let v = if d.r.below(2) == 0 { let q = d.r.below(8); HASHES[q].1 } else { d.r.below(0x40) as u16 }; s[..2].copy_from_slice(&v.to_be_bytes()); }
            d.haread(&s, m);
        }
    }
    for (p, t, m) in &d.fails { println!("FAIL\t{p}\t{t}\t{}", m.replace(['\t', '\n'], " ")); }
    println!("DONE\t{}\t{}", d.cases, d.fails.len());
}
