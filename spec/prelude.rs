// ---- contracts shared by every generated verification crate -------------------------
// Hand written: specification traits and shims. Everything between the EXTRACTED markers
// in the generated file is text of /repo's (macro-expanded) source.

pub mod shim {
    use super::*;
    use vstd::std_specs::convert::*;
    // what panic!, unreachable!, assert! and the like come to: may not be reached
    #[verifier::external_body] pub const fn panic_() -> (r: !) requires false { loop {} }
    // core::cmp::{min,max} at usize
    pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
    pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }

    // Result::map_err with a constant closure / with Into::into
    pub trait MapErr<T>: Sized { fn map_err_to<F>(self, f: F) -> Result<T, F>; }
    impl<T, E> MapErr<T> for Result<T, E> {
        fn map_err_to<F>(self, f: F) -> (r: Result<T, F>) ensures r == (match self { Ok(t) => Ok::<T, F>(t), Err(_) => Err(f) })
        { match self { Ok(t) => Ok(t), Err(_) => Err(f) } }
    }
    pub trait MapErrInto<T, E>: Sized { fn map_err_into<F: From<E>>(self) -> Result<T, F>; }
    impl<T, E> MapErrInto<T, E> for Result<T, E> {
        fn map_err_into<F: From<E>>(self) -> (r: Result<T, F>)
            ensures self is Ok ==> r == Ok::<T, F>(self->Ok_0), self is Err ==> r is Err && (F::obeys_from_spec() ==> r == Err::<T, F>(F::from_spec(self->Err_0)))
        { match self { Ok(t) => Ok(t), Err(e) => Err(F::from(e)) } }
    }

    // {to,from}_be_bytes of the primitive integers (standard library; assumed contract)
    pub trait BeBytes<const N: usize>: Sized {
        spec fn be(self) -> Seq<u8>;
        spec fn be_inv(s: Seq<u8>) -> Self;
        proof fn be_rt(self) ensures self.be().len() == N, Self::be_inv(self.be()) == self;
        proof fn be_rt2(s: Seq<u8>) requires s.len() == N ensures Self::be_inv(s).be() =~= s;
        fn to_be_bytes_(self) -> (r: [u8; N]) ensures r@ == self.be();
        fn from_be_bytes_(x: [u8; N]) -> (r: Self) ensures r == Self::be_inv(x@);
    }
    impl BeBytes<1> for u8 {
        open spec fn be(self) -> Seq<u8> { seq![self] }
        open spec fn be_inv(s: Seq<u8>) -> u8 { s[0] }
        proof fn be_rt(self) {}
        proof fn be_rt2(s: Seq<u8>) {}
        #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 1]) { self.to_be_bytes() }
        #[verifier::external_body] fn from_be_bytes_(x: [u8; 1]) -> (r: u8) { u8::from_be_bytes(x) }
    }
    impl BeBytes<2> for u16 {
        open spec fn be(self) -> Seq<u8> { seq![(self >> 8) as u8, self as u8] }
        open spec fn be_inv(s: Seq<u8>) -> u16 { ((s[0] as u16) << 8) | (s[1] as u16) }
        proof fn be_rt(self) { let x = self; assert(((((x >> 8) as u8) as u16) << 8) | ((x as u8) as u16) == x) by (bit_vector); }
        proof fn be_rt2(s: Seq<u8>) { let a = s[0]; let b = s[1];
            assert(((((a as u16) << 8) | (b as u16)) >> 8) as u8 == a && (((a as u16) << 8) | (b as u16)) as u8 == b) by (bit_vector); }
        #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 2]) { self.to_be_bytes() }
        #[verifier::external_body] fn from_be_bytes_(x: [u8; 2]) -> (r: u16) { u16::from_be_bytes(x) }
    }
    impl BeBytes<4> for u32 {
        open spec fn be(self) -> Seq<u8> { seq![(self >> 24) as u8, (self >> 16) as u8, (self >> 8) as u8, self as u8] }
        open spec fn be_inv(s: Seq<u8>) -> u32 { ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32) }
        proof fn be_rt(self) { let x = self; assert(((((x >> 24) as u8) as u32) << 24) | ((((x >> 16) as u8) as u32) << 16) | ((((x >> 8) as u8) as u32) << 8) | ((x as u8) as u32) == x) by (bit_vector); }
        proof fn be_rt2(s: Seq<u8>) { let a = s[0]; let b = s[1]; let c = s[2]; let d = s[3];
            assert(((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) >> 24) as u8 == a
                && ((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) >> 16) as u8 == b
                && ((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) >> 8) as u8 == c
                && (((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) as u8 == d) by (bit_vector); }
        #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 4]) { self.to_be_bytes() }
        #[verifier::external_body] fn from_be_bytes_(x: [u8; 4]) -> (r: u32) { u32::from_be_bytes(x) }
    }
    pub open spec fn hi32(x: u64) -> u32 { (x >> 32) as u32 }
    pub open spec fn lo32(x: u64) -> u32 { x as u32 }
    impl BeBytes<8> for u64 {
        open spec fn be(self) -> Seq<u8> { hi32(self).be() + lo32(self).be() }
        open spec fn be_inv(s: Seq<u8>) -> u64 { ((u32::be_inv(s.take(4)) as u64) << 32) | (u32::be_inv(s.skip(4)) as u64) }
        proof fn be_rt(self) {
            let x = self; hi32(x).be_rt(); lo32(x).be_rt();
            assert(x.be().take(4) =~= hi32(x).be()); assert(x.be().skip(4) =~= lo32(x).be());
            assert(((((x >> 32) as u32) as u64) << 32) | ((x as u32) as u64) == x) by (bit_vector);
        }
        proof fn be_rt2(s: Seq<u8>) {
            let a = u32::be_inv(s.take(4)); let b = u32::be_inv(s.skip(4));
            u32::be_rt2(s.take(4)); u32::be_rt2(s.skip(4));
            assert(((((a as u64) << 32) | (b as u64)) >> 32) as u32 == a && (((a as u64) << 32) | (b as u64)) as u32 == b) by (bit_vector);
            assert(s.take(4) + s.skip(4) =~= s);
        }
        #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 8]) { self.to_be_bytes() }
        #[verifier::external_body] fn from_be_bytes_(x: [u8; 8]) -> (r: u64) { u64::from_be_bytes(x) }
    }
    // signed integers: two's complement bit pattern of the same width
    impl BeBytes<1> for i8 {
        open spec fn be(self) -> Seq<u8> { ((if self < 0 { self + 0x100int } else { self as int }) as u8).be() }
        open spec fn be_inv(s: Seq<u8>) -> i8 { let u = u8::be_inv(s); (if u >= 0x80 { u - 0x100int } else { u as int }) as i8 }
        proof fn be_rt(self) { ((if self < 0 { self + 0x100int } else { self as int }) as u8).be_rt(); }
        proof fn be_rt2(s: Seq<u8>) { u8::be_rt2(s); }
        #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 1]) { self.to_be_bytes() }
        #[verifier::external_body] fn from_be_bytes_(x: [u8; 1]) -> (r: i8) { i8::from_be_bytes(x) }
    }
    impl BeBytes<2> for i16 {
        open spec fn be(self) -> Seq<u8> { ((if self < 0 { self + 0x10000int } else { self as int }) as u16).be() }
        open spec fn be_inv(s: Seq<u8>) -> i16 { let u = u16::be_inv(s); (if u >= 0x8000 { u - 0x10000int } else { u as int }) as i16 }
        proof fn be_rt(self) { ((if self < 0 { self + 0x10000int } else { self as int }) as u16).be_rt(); }
        proof fn be_rt2(s: Seq<u8>) { u16::be_rt2(s); }
        #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 2]) { self.to_be_bytes() }
        #[verifier::external_body] fn from_be_bytes_(x: [u8; 2]) -> (r: i16) { i16::from_be_bytes(x) }
    }
    impl BeBytes<4> for i32 {
        open spec fn be(self) -> Seq<u8> { ((if self < 0 { self + 0x100000000int } else { self as int }) as u32).be() }
        open spec fn be_inv(s: Seq<u8>) -> i32 { let u = u32::be_inv(s); (if u >= 0x80000000 { u - 0x100000000int } else { u as int }) as i32 }
        proof fn be_rt(self) { ((if self < 0 { self + 0x100000000int } else { self as int }) as u32).be_rt(); }
        proof fn be_rt2(s: Seq<u8>) { u32::be_rt2(s); }
        #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 4]) { self.to_be_bytes() }
        #[verifier::external_body] fn from_be_bytes_(x: [u8; 4]) -> (r: i32) { i32::from_be_bytes(x) }
    }
    impl BeBytes<8> for i64 {
        open spec fn be(self) -> Seq<u8> { ((if self < 0 { self + 0x10000000000000000int } else { self as int }) as u64).be() }
        open spec fn be_inv(s: Seq<u8>) -> i64 { let u = u64::be_inv(s); (if u >= 0x8000000000000000 { u - 0x10000000000000000int } else { u as int }) as i64 }
        proof fn be_rt(self) { ((if self < 0 { self + 0x10000000000000000int } else { self as int }) as u64).be_rt(); }
        proof fn be_rt2(s: Seq<u8>) { u64::be_rt2(s); }
        #[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 8]) { self.to_be_bytes() }
        #[verifier::external_body] fn from_be_bytes_(x: [u8; 8]) -> (r: i64) { i64::from_be_bytes(x) }
    }
    // core::convert::AsRef<[u8]> of sized buffers (the core trait cannot carry a precondition)
    pub trait AsRefBytes {
        spec fn ref_pre(&self) -> bool;
        spec fn ref_bytes(&self) -> Seq<u8>;
        fn as_ref(&self) -> (r: &[u8]) requires self.ref_pre() ensures r@ =~= self.ref_bytes();
    }
}

pub mod safe_discriminant {
    use super::*;
    // safe_discriminant::Discriminant (dependency; assumed: returns the variant's declared discriminant)
    pub trait Discriminant { type Repr; spec fn discr(&self) -> Self::Repr; fn discriminant(&self) -> (r: Self::Repr) ensures r == self.discr(); }
}
