"""writes /verif/shapes/src/lib.rs from spec/shapes.py (by hand; committed)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import wire, shapes
from wire import L


def rty(ty):
    if isinstance(ty, L):
        return '[%s; %d]' % (ty.elem, ty.cap)
    return ty.replace(';', '; ')


def nodefault(t):
    """array too long for the standard Default, or a union inside"""
    if t in shapes.ENUMS:
        return True
    if t in shapes.STRUCTS:
        for n, ty in shapes.STRUCTS[t]:
            if isinstance(ty, L):
                if ty.cap > 32 or nodefault(ty.elem):
                    return True
            elif nodefault(ty):
                return True
    return False


def main():
    o = ['//! generated by tools/shapegen.py from spec/shapes.py: types as a user of the derive macros would define them',
         '#![allow(dead_code)]', 'use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};', 'use core::mem::size_of;', 'use safe_discriminant::Discriminant;',
         'use tpm2_rs_marshalable::{Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};', '']
    wire.use_shapes()
    for t in wire.order():
        if t in shapes.STRUCTS:
            d = '' if nodefault(t) else ' Default,'
            o.append('#[derive(Clone, Copy, PartialEq, Debug,%s Marshalable)]' % d)
            ms = shapes.STRUCTS[t]
            if not ms:
                o.append('pub struct %s;' % t)
            elif ms[0][0].isdigit():
                o.append('pub struct %s(%s);' % (t, ', '.join('pub ' + rty(ty) for _, ty in ms)))
            else:
                o.append('pub struct %s {' % t)
                for n, ty in ms:
                    if isinstance(ty, L) and ty.count:
                        o.append('    #[marshalable(length = %s)]' % ty.count)
                    o.append('    pub %s: %s,' % (n, rty(ty)))
                o.append('}')
        elif t in shapes.ENUMS:
            rep, vs = shapes.ENUMS[t]
            o.append('#[repr(%s%s)]\n#[derive(Clone, Copy, PartialEq, Debug, Discriminant, Marshalable)]\npub enum %s {' % ('' if rep == 'u64' else 'C, ', rep, t))
            for n, sel, fs in vs:
                o.append('    %s(%s) = 0x%x,' % (n, ', '.join(rty(f) for f in fs), sel))
            o.append('}')
        elif t in shapes.TPM2B:
            h = shapes.TPM2B_STRUCT.get(t)
            o.append('#[repr(C)]\n#[derive(Clone, Copy, PartialEq, Debug, Marshalable%s)]\n#[marshalable(tpm2b_simple)]\npub struct %s {\n    pub size: u16,\n    pub buffer: [u8; %s],\n}' %
                     (', Tpm2bStruct' if h else '', t, 'size_of::<%s>()' % h if h else shapes.TPM2B[t]))
    os.makedirs(VERIF + '/shapes/src', exist_ok=True)
    open(VERIF + '/shapes/src/lib.rs', 'w').write('\n'.join(o) + '\n')


if __name__ == '__main__':
    main()
