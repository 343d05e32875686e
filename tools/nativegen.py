"""writes native/src/types.rs and native/src/probe.rs from spec/wire.py (schema only; committed, regenerated by hand)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import wire
from wire import L, Sel, Var

PRIV_NT = {'TpmHc', 'TpmiRhNvIndex', 'TpmiShAuthSession', 'TpmiEccCurve', 'TpmiAesKeyBits', 'TpmiSm4KeyBits', 'TpmiCamelliaKeyBits', 'TpmiRsaKeyBits'}
OPAQUE = {'TpmsTaggedPcrSelect', 'TpmsTaggedPolicy', 'PcrReadCmd', 'PcrReadResp', 'TpmlCca'}


def sname(t):
    if t in wire.PRIMS:
        return 'S::Int(%d)' % wire.PRIMS[t]
    if t.startswith('[u8;'):
        return 'S::Bytes(%s)' % t[4:-1]
    if t == '()':
        return 'S::Struct(vec![])'
    return 's_%s()' % t


def prim(t):
    while t in wire.NEWTYPES:
        t = wire.NEWTYPES[t]
    return t


def main(sh=False):
    if sh:
        wire.use_shapes()
    out = VERIF + ('/nshapes' if sh else '/native')
    use = 'use shapes::*; use tpm2_rs_base::Tpm2bSimple;' if sh else 'use tpm2_rs_base::{*, constants::*, commands::*};'
    o = ['// generated by tools/nativegen.py from spec/wire.py', 'use crate::refc::{S, F, RefEnc, opaque};', use, 'use tpm2_rs_base::Tpm2bSimple as _;']
    for t in wire.order():
        if t in wire.NEWTYPES:
            o.append('pub fn s_%s() -> S { %s }' % (t, sname(wire.NEWTYPES[t])))
            p = prim(t)
            n = wire.PRIMS[p]
            if t in PRIV_NT:
                o.append('impl RefEnc for %s { fn renc(&self, o: &mut Vec<u8>) { assert_eq!(size_of::<Self>(), %d); let x: %s = unsafe { core::mem::transmute_copy(self) }; o.extend(x.to_be_bytes()); } }' % (t, n, p))
            else:
                o.append('impl RefEnc for %s { fn renc(&self, o: &mut Vec<u8>) { o.extend(self.0.to_be_bytes()); } }' % t)
        elif t in wire.TPM2B:
            c = wire.TPM2B[t]
            cap = '%d' % min(c, 65535) if c is not None else '<%s as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)' % t
            o.append('pub fn s_%s() -> S { S::B2(%s) }' % (t, cap))
            o.append('impl RefEnc for %s { fn renc(&self, o: &mut Vec<u8>) { let b = self.get_buffer(); o.extend((b.len() as u16).to_be_bytes()); o.extend(b); } }' % t)
        elif t in wire.STRUCTS:
            ms = wire.STRUCTS[t]
            fs = []
            en = []
            selix = {}
            cntix = {}
            for k, m in enumerate(ms):
                if isinstance(m, Sel):
                    fs.append('F::Sel(%d)' % wire.PRIMS[m.repr])
                    selix[m.member] = k
                    u = [x[1].ty for x in ms if not isinstance(x, Sel) and isinstance(x[1], Var)][0]
                    en.append('o.extend(vsel_%s(&self.%s).to_be_bytes());' % (u, m.member))
                elif isinstance(m[1], L) and not m[1].count:
                    fs.append('F::Fix(%s, %d)' % (sname(m[1].elem), m[1].cap))
                    en.append('for x in self.%s.iter() { x.renc(o); }' % m[0])
                elif isinstance(m[1], L):
                    l = m[1]
                    cap = str(l.cap) if l.cap is not None else '(size_of::<%s>() - 4) / size_of::<%s>()' % (t, l.elem)
                    fs.append('F::List(%s, %s, %s)' % (cntix.get(l.count), sname(l.elem), cap))
                    acc = 'self.%s()' % m[0] if t in wire.TPML_API else '&self.%s[..self.%s as usize]' % (m[0], l.count)
                    en.append('for x in %s.iter() { x.renc(o); }' % ('(' + acc + ')'))
                elif isinstance(m[1], Var):
                    fs.append('F::Var(%d, %s)' % (selix[m[0]], sname(m[1].ty)))
                    en.append('venc_%s(&self.%s, o);' % (m[1].ty, m[0]))
                else:
                    if any(not isinstance(x, Sel) and isinstance(x[1], L) and x[1].count == m[0] for x in ms):
                        cntix[m[0]] = k
                        if t in wire.TPML_API:
                            en.append('(self.count() as %s).renc(o);' % m[1])
                        else:
                            en.append('self.%s.renc(o);' % m[0])
                    else:
                        en.append('self.%s.renc(o);' % m[0])
                    fs.append('F::P(%s)' % sname(m[1]))
            o.append('pub fn s_%s() -> S { S::Struct(vec![%s]) }' % (t, ', '.join(fs)))
            o.append('impl RefEnc for %s { fn renc(&self, o: &mut Vec<u8>) { %s } }' % (t, 'opaque(self, o)' if t in OPAQUE else ' '.join(en)))
        else:
            rep, vs = wire.ENUMS[t]
            o.append('pub fn s_%s() -> S { S::Enum(%d, vec![%s]) }' % (t, wire.PRIMS[rep], ', '.join('(0x%x, vec![%s])' % (sel, ', '.join(sname(f) for f in fl)) for _, sel, fl in vs)))
            o.append('pub fn vsel_%s(x: &%s) -> %s { match x { %s } }' % (t, t, rep, ', '.join('%s::%s(..) => 0x%x' % (t, n, sel) for n, sel, _ in vs)))
            o.append('pub fn venc_%s(x: &%s, o: &mut Vec<u8>) { match x { %s } }' % (t, t, ', '.join('%s::%s(%s) => { %s }' % (t, n, ', '.join('f%d' % i for i in range(len(fl))), ' '.join('f%d.renc(o);' % i for i in range(len(fl)))) for n, sel, fl in vs)))
            o.append('impl RefEnc for %s { fn renc(&self, o: &mut Vec<u8>) { o.extend(vsel_%s(self).to_be_bytes()); venc_%s(self, o); } }' % (t, t, t))

    def group(t):
        if t in wire.TPM2B: return 'C02'
        if t in wire.ENUMS: return 'C04'
        if t in wire.STRUCTS:
            if any(isinstance(m, Sel) for m in wire.STRUCTS[t]): return 'C04'
            if any(not isinstance(m, Sel) and isinstance(m[1], L) for m in wire.STRUCTS[t]): return 'C05'
        return 'C03'
    o.append('pub fn drive_all(d: &mut crate::codec::Driver) {')
    for p in wire.PRIMS if not sh else ():
        o.append('    d.codec::<%s>("C01", "%s", S::Int(%d));' % (p, p, wire.PRIMS[p]))
    if not sh:
        o.append('    d.codec::<()>("C01", "()", S::Struct(vec![]));')
    for n in () if sh else (0, 1, 2, 3, 20, 32, 48, 64, 255, 256, 300):
        o.append('    d.codec::<[u8; %d]>("C01", "[u8; %d]", S::Bytes(%d));' % (n, n, n))
    for t in wire.order():
        o.append('    d.codec::<%s>("%s", "%s", s_%s());' % (t, group(t), t, t))
        if t in wire.TPM2B:
            c = wire.TPM2B[t]
            o.append('    d.tpm2b::<%s>("%s", %s);' % (t, t, '%d' % min(c, 65535) if c is not None else '<%s as Tpm2bSimple>::MAX_BUFFER_SIZE.min(65535)' % t))
        if t in wire.TPM2B_HOLDS:
            o.append('    d.holds::<%s, %s>("%s", "%s", s_%s());' % (t, wire.TPM2B_HOLDS[t], t, wire.TPM2B_HOLDS[t], wire.TPM2B_HOLDS[t]))
        if t in wire.TPM2B_STRUCT:
            o.append('    d.tpm2bstruct::<%s>("%s", s_%s());' % (t, t, wire.TPM2B_STRUCT[t]))
        if sh and t in wire.STRUCTS:
            caps = {}
            for m in wire.STRUCTS[t]:
                if not isinstance(m, Sel) and isinstance(m[1], L) and m[1].count:
                    caps.setdefault(m[1].count, []).append(m[1].cap)
            for c, v in caps.items():
                ty = dict(m for m in wire.STRUCTS[t] if not isinstance(m, Sel))[c]
                o.append('    d.over::<%s>("%s", s_%s(), %d, %d, |x, v| x.%s = v as %s);' % (t, t, t, min(v), wire.PRIMS[ty], c, ty))
        if t in wire.TPML_API:
            m = [m for m in wire.STRUCTS[t] if isinstance(m[1], L)][0]
            l = m[1]
            cap = str(l.cap) if l.cap is not None else '(size_of::<%s>() - 4) / size_of::<%s>()' % (t, l.elem)
            o.append('    d.tpml::<%s, %s>("%s", %s, %s, |e| %s::new(e), |l, e| l.add(e), |l| l.count(), |l| l.%s().to_vec());' % (t, l.elem, t, sname(l.elem), cap, t, m[0]))
    if not sh:
        o.append('    d.commands();')
    o.append('}')
    open(out + '/src/types.rs', 'w').write('\n'.join(o) + '\n')

    # sizes and capacities as compiled
    p = ['// generated by tools/nativegen.py', 'pub fn probe() -> String {', '    %s' % use,
         '    let mut s = String::from("{\\"size_of\\": {");', '    let mut first = true;',
         '    let mut put = |s: &mut String, n: &str, v: usize| { if !first { s.push_str(", "); } first = false; s.push_str(&format!("\\"{n}\\": {v}")); };']
    for t in wire.order() + ([] if sh else ['_PRIVATE', 'Tpm2bSensitive']):
        p.append('    put(&mut s, "%s", core::mem::size_of::<%s>());' % (t, t))
    p += ['    s.push_str("}, \\"cap\\": {");', '    let mut first = true;',
          '    let mut put = |s: &mut String, n: &str, v: usize| { if !first { s.push_str(", "); } first = false; s.push_str(&format!("\\"{n}\\": {v}")); };']
    for t in wire.TPM2B:
        p.append('    put(&mut s, "%s", <%s as Tpm2bSimple>::MAX_BUFFER_SIZE);' % (t, t))
    p += ['    s.push_str("}}");', '    s', '}']
    open(out + '/src/probe.rs', 'w').write('\n'.join(p) + '\n')


main(sys.argv[1:] == ['shapes'])
