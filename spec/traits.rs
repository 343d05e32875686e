    // ---- contracts of the marshaling traits ------------------------------------------
    pub type Dec<V> = core::result::Result<(V, Seq<u8>), Error>;

    /// V: mathematical value; inv: representation invariant; ok: encodable; enc/dec: wire format
    pub trait Marshalable: Sized {
        type V;
        spec fn v(&self) -> Self::V;
        spec fn inv(&self) -> bool;
        spec fn ok(v: Self::V) -> bool;
        spec fn enc(v: Self::V) -> Seq<u8>;
        spec fn dec(s: Seq<u8>) -> Dec<Self::V>;
        spec fn maxlen() -> nat;
        // what is encoded decodes to the same value and leaves what follows untouched
        proof fn rt1(v: Self::V, t: Seq<u8>) requires Self::ok(v) ensures Self::dec(Self::enc(v) + t) == Dec::<Self::V>::Ok((v, t));
        // what decodes is exactly the encoding of the value it decodes to
        proof fn rt2(s: Seq<u8>) ensures match Self::dec(s) { Ok((v, t)) => Self::ok(v) && Self::enc(v) + t =~= s, Err(_) => true };
        proof fn bound(v: Self::V) requires Self::ok(v) ensures Self::enc(v).len() <= Self::maxlen();

        fn try_unmarshal(buffer: &mut UnmarshalBuf) -> (r: Result<Self>)
            ensures match (r, Self::dec(old(buffer)@)) {
                (Ok(x), Ok((v, rest))) => x.inv() && x.v() =~= v && final(buffer)@ =~= rest,
                (Err(e1), Err(e2)) => e1 == e2,
                _ => false };
        fn try_marshal(&self, buffer: &mut [u8]) -> (r: Result<usize>)
            requires self.inv(),
            ensures
                final(buffer)@.len() == old(buffer)@.len(),
                match r {
                    Ok(n) => Self::ok(self.v()) && n == Self::enc(self.v()).len() && n <= old(buffer)@.len()
                        && final(buffer)@ =~= Self::enc(self.v()) + old(buffer)@.skip(n as int),
                    Err(e) => !Self::ok(self.v()) || (Self::enc(self.v()).len() > old(buffer)@.len() && e == Error::UnexpectedEndOfBuffer) };
    }

    pub trait MarshalableVariant: Sized + Discriminant {
        type VV;
        spec fn vv(&self) -> Self::VV;
        spec fn vinv(&self) -> bool;
        spec fn vsel(v: Self::VV) -> Self::Repr;
        spec fn vok(v: Self::VV) -> bool;
        spec fn venc(v: Self::VV) -> Seq<u8>;
        spec fn vdec(sel: Self::Repr, s: Seq<u8>) -> Dec<Self::VV>;
        spec fn vmaxlen() -> nat;
        proof fn vrt1(v: Self::VV, t: Seq<u8>) requires Self::vok(v) ensures Self::vdec(Self::vsel(v), Self::venc(v) + t) == Dec::<Self::VV>::Ok((v, t));
        proof fn vrt2(sel: Self::Repr, s: Seq<u8>) ensures match Self::vdec(sel, s) { Ok((v, t)) => Self::vok(v) && Self::vsel(v) == sel && Self::venc(v) + t =~= s, Err(_) => true };
        proof fn vbound(v: Self::VV) requires Self::vok(v) ensures Self::venc(v).len() <= Self::vmaxlen();

        fn try_unmarshal_variant(selector: Self::Repr, buffer: &mut UnmarshalBuf) -> (r: Result<Self>)
            ensures match (r, Self::vdec(selector, old(buffer)@)) {
                (Ok(x), Ok((v, rest))) => x.vinv() && x.vv() =~= v && final(buffer)@ =~= rest,
                (Err(e1), Err(e2)) => e1 == e2,
                _ => false };
        fn try_marshal_variant(&self, buffer: &mut [u8]) -> (r: Result<usize>)
            requires self.vinv(),
            ensures
                final(buffer)@.len() == old(buffer)@.len(),
                match r {
                    Ok(n) => Self::vok(self.vv()) && n == Self::venc(self.vv()).len() && n <= old(buffer)@.len()
                        && final(buffer)@ =~= Self::venc(self.vv()) + old(buffer)@.skip(n as int),
                    Err(e) => !Self::vok(self.vv()) || (Self::venc(self.vv()).len() > old(buffer)@.len() && e == Error::UnexpectedEndOfBuffer) };
    }

    // ---- counted arrays --------------------------------------------------------------
    pub open spec fn enc_list<T: Marshalable>(s: Seq<T::V>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { T::enc(s[0]) + enc_list::<T>(s.skip(1)) } }
    pub open spec fn dec_list<T: Marshalable>(n: nat, s: Seq<u8>, acc: Seq<T::V>) -> Dec<Seq<T::V>> decreases n {
        if n == 0 { Ok((acc, s)) } else {
            match T::dec(s) { Err(e) => Err(e), Ok((v, s)) => dec_list::<T>((n - 1) as nat, s, acc.push(v)) } }
    }
    pub open spec fn views<T: Marshalable>(s: Seq<T>) -> Seq<T::V> { s.map_values(|t: T| t.v()) }
    pub open spec fn all_ok<T: Marshalable>(s: Seq<T::V>) -> bool { forall|i: int| 0 <= i < s.len() ==> T::ok(#[trigger] s[i]) }
    pub open spec fn all_inv<T: Marshalable>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).inv() }
    /// the first `n` elements; a sequence of length n in any case
    pub open spec fn lview<T: Marshalable>(s: Seq<T>, n: int) -> Seq<T::V> { if n <= s.len() { views(s.take(n)) } else { Seq::new(n as nat, |i: int| arbitrary::<T::V>()) } }

    pub proof fn list_rt1<T: Marshalable>(x: Seq<T::V>, t: Seq<u8>, acc: Seq<T::V>)
        requires all_ok::<T>(x)
        ensures dec_list::<T>(x.len(), enc_list::<T>(x) + t, acc) == Dec::<Seq<T::V>>::Ok((acc + x, t))
        decreases x.len()
    {
        if x.len() == 0 {
            assert(enc_list::<T>(x) + t =~= t);
            assert(acc + x =~= acc);
        } else {
            let r = x.skip(1);
            assert forall|i: int| 0 <= i < r.len() implies T::ok(#[trigger] r[i]) by { assert(r[i] == x[i + 1]); }
            T::rt1(x[0], enc_list::<T>(r) + t);
            assert(enc_list::<T>(x) + t =~= T::enc(x[0]) + (enc_list::<T>(r) + t));
            list_rt1::<T>(r, t, acc.push(x[0]));
            assert(acc.push(x[0]) + r =~= acc + x);
        }
    }
    pub proof fn list_rt2<T: Marshalable>(n: nat, s: Seq<u8>, acc: Seq<T::V>)
        ensures match dec_list::<T>(n, s, acc) {
            Ok((r, t)) => r.len() == acc.len() + n && r.take(acc.len() as int) =~= acc && all_ok::<T>(r.skip(acc.len() as int)) && enc_list::<T>(r.skip(acc.len() as int)) + t =~= s,
            Err(_) => true }
        decreases n
    {
        if n == 0 {
            assert(acc.skip(acc.len() as int) =~= Seq::empty());
        } else {
            T::rt2(s);
            match T::dec(s) {
                Ok((v, s1)) => {
                    list_rt2::<T>((n - 1) as nat, s1, acc.push(v));
                    match dec_list::<T>((n - 1) as nat, s1, acc.push(v)) {
                        Ok((r, t)) => {
                            let k = acc.len() as int;
                            assert(r[k] == r.take(k + 1)[k]);
                            assert(r[k] == v);
                            assert(r.take(k) =~= r.take(k + 1).take(k));
                            assert(r.take(k + 1).take(k) =~= acc);
                            let y = r.skip(k);
                            assert(y.skip(1) =~= r.skip(k + 1));
                            assert forall|i: int| 0 <= i < y.len() implies T::ok(#[trigger] y[i]) by {
                                if i > 0 { assert(y[i] == r.skip(k + 1)[i - 1]); }
                            }
                            assert(enc_list::<T>(y) =~= T::enc(v) + enc_list::<T>(r.skip(k + 1)));
                        },
                        Err(_) => {}
                    }
                },
                Err(_) => {}
            }
        }
    }
    pub proof fn list_bound<T: Marshalable>(x: Seq<T::V>)
        requires all_ok::<T>(x)
        ensures enc_list::<T>(x).len() <= x.len() * T::maxlen()
        decreases x.len()
    {
        if x.len() > 0 {
            let r = x.skip(1);
            assert forall|i: int| 0 <= i < r.len() implies T::ok(#[trigger] r[i]) by { assert(r[i] == x[i + 1]); }
            list_bound::<T>(r);
            T::bound(x[0]);
            assert(x.len() * T::maxlen() == T::maxlen() + r.len() * T::maxlen()) by (nonlinear_arith) requires x.len() == r.len() + 1;
        }
    }
    /// prefixes of encodable lists: used by the marshaling loop to report unencodable elements
    pub proof fn list_len_ge<T: Marshalable>(x: Seq<T::V>, i: int)
        requires 0 <= i < x.len()
        ensures enc_list::<T>(x.skip(i)) == T::enc(x[i]) + enc_list::<T>(x.skip(i + 1))
    {
        assert(x.skip(i).skip(1) =~= x.skip(i + 1));
        assert(x.skip(i)[0] == x[i]);
    }
    /// one more member written: prefix p of the encoding extended by e
    pub proof fn step(b0: Seq<u8>, w0: int, b1: Seq<u8>, w1: int, p: Seq<u8>, e: Seq<u8>, z: Seq<u8>)
        requires 0 <= w0 <= b0.len(), z.len() == b0.len(), b1.len() == b0.len(), w1 == w0 + e.len(), w1 <= b0.len(),
            b0.take(w0) =~= p, b0.skip(w0) =~= z.skip(w0), b1.take(w0) =~= b0.take(w0), b1.skip(w0) =~= e + b0.skip(w0).skip(e.len() as int)
        ensures b1.take(w1) == p + e, b1.skip(w1) == z.skip(w1)
    {
        assert(b1.take(w0) + b1.skip(w0) =~= b1);
        assert(b0.skip(w0).skip(e.len() as int) =~= b0.skip(w1));
        assert(b1.take(w1) =~= p + e);
        assert(z.skip(w0).skip(e.len() as int) =~= z.skip(w1));
        assert(b1.skip(w1) =~= b1.skip(w0).skip(e.len() as int));
        assert(b1.skip(w1) =~= z.skip(w1));
    }
    pub proof fn step_full(b0: Seq<u8>, w0: int, b1: Seq<u8>, w1: int, p: Seq<u8>, e: Seq<u8>, z: Seq<u8>)
        requires 0 <= w0 <= b0.len(), z.len() == b0.len(), b1.len() == b0.len(), w1 == w0 + e.len(), w1 <= b0.len(),
            b0.take(w0) =~= p, b0.skip(w0) =~= z.skip(w0), b1.take(w0) =~= b0.take(w0), b1.skip(w0) =~= e + b0.skip(w0).skip(e.len() as int)
        ensures b1 == p + e + z.skip(w1), w1 == (p + e).len()
    {
        step(b0, w0, b1, w1, p, e, z);
        assert(b1.take(w1) + b1.skip(w1) =~= b1);
    }
    pub proof fn assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
    /// one more list element written: what is written plus what is left is the whole
    pub proof fn lstep<T: Marshalable>(b0: Seq<u8>, w0: int, b1: Seq<u8>, w1: int, all: Seq<T::V>, i: int, full: Seq<u8>, z: Seq<u8>)
        requires 0 <= w0 <= b0.len(), z.len() == b0.len(), b1.len() == b0.len(), 0 <= i < all.len(), w1 == w0 + T::enc(all[i]).len(), w1 <= b0.len(),
            b0.take(w0) + enc_list::<T>(all.skip(i)) == full, b0.skip(w0) == z.skip(w0), b1.take(w0) =~= b0.take(w0),
            b1.skip(w0) =~= T::enc(all[i]) + b0.skip(w0).skip(T::enc(all[i]).len() as int)
        ensures b1.take(w1) + enc_list::<T>(all.skip(i + 1)) == full, w1 + enc_list::<T>(all.skip(i + 1)).len() == full.len(), b1.skip(w1) == z.skip(w1)
    {
        let e = T::enc(all[i]);
        list_len_ge::<T>(all, i);
        step(b0, w0, b1, w1, b0.take(w0), e, z);
        assoc(b0.take(w0), e, enc_list::<T>(all.skip(i + 1)));
        assert(full.len() == w0 + enc_list::<T>(all.skip(i)).len());
    }
    pub proof fn ustep<T: Marshalable>(a0: Seq<T>, a1: Seq<T>, k: int)
        requires 0 <= k < a0.len(), a1.len() == a0.len(), forall|j: int| 0 <= j < k ==> a1[j] == a0[j],
        ensures views(a1.take(k + 1)) == views(a0.take(k)).push(a1[k].v())
    { assert(views(a1.take(k + 1)) =~= views(a0.take(k)).push(a1[k].v())); }
