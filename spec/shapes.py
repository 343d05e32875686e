"""Shapes of types a user of the derive macros may define: what the macros accept (documentation of
#[derive(Marshalable)], #[marshalable(length = ..)], #[marshalable(tpm2b_simple)], #[derive(Tpm2bStruct)]),
taken to its corners.  Same notation as wire.py; tools/shapegen.py writes the crate /verif/shapes and the
native driver's table from it, the Verus unit `shapes` is generated from it and from the macro output.
"""
from wire import L

STRUCTS = {
    # members of every integer type
    'ShOne': [('a', 'u8')],
    'ShInts': [('a', 'u16'), ('b', 'u32'), ('c', 'u64'), ('d', 'i8'), ('e', 'i16'), ('f', 'i32'), ('g', 'i64'), ('h', 'u8')],
    # no members; unnamed members
    'ShUnit': [],
    'ShWrap': [('0', 'u16')],
    'ShWrapI': [('0', 'i64')],
    'ShTup': [('0', 'u8'), ('1', 'u32'), ('2', 'ShInts'), ('3', 'i16')],
    'ShTupArr': [('0', '[u8;5]'), ('1', 'u16'), ('2', '[u8;0]')],
    'ShTup12': [(str(k), ('u8', 'u16', 'u32', 'u64')[k % 4]) for k in range(12)],
    # arrays without a length member
    'ShBytes': [('x', L('u8', None, 4)), ('y', 'u16')],
    'ShWords': [('x', 'u16'), ('y', L('u16', None, 3)), ('z', 'u8')],
    'ShFix2': [('a', L('ShOne', None, 2)), ('b', L('i32', None, 3)), ('c', L('u8', None, 0))],
    'ShFixBig': [('pad', L('u8', None, 70)), ('end', 'u64')],
    # counted arrays: widths of the count, distance from the array, capacity
    'ShCnt8': [('count', 'u8'), ('items', L('u16', 'count', 5))],
    'ShCnt16': [('count', 'u16'), ('pad', 'u32'), ('items', L('u8', 'count', 300)), ('tail', 'u16')],
    'ShCnt32': [('n', 'u32'), ('a', L('u64', 'n', 1))],
    'ShCnt64': [('n', 'u64'), ('a', L('u32', 'n', 3))],
    'ShCntWide': [('n', 'u8'), ('a', L('u8', 'n', 300)), ('end', 'u16')],
    'ShCnt0': [('n', 'u8'), ('a', L('u16', 'n', 0)), ('z', 'u8')],
    'ShCnt17': [('n', 'u16'), ('a', L('i16', 'n', 17))],
    # several counted arrays; one count for two arrays
    'ShTwo': [('n', 'u32'), ('m', 'u8'), ('a', L('u16', 'n', 4)), ('b', L('ShWrap', 'm', 2)), ('end', 'u8')],
    'ShTwoAdj': [('n', 'u16'), ('a', L('u32', 'n', 3)), ('m', 'u16'), ('b', L('u8', 'm', 9))],
    'ShShare': [('n', 'u8'), ('a', L('u8', 'n', 3)), ('b', L('u16', 'n', 3))],
    'ShShareTight': [('n', 'u8'), ('a', L('u16', 'n', 5)), ('b', L('u32', 'n', 2)), ('c', 'u8')],
    'ShMix': [('n', 'u8'), ('a', L('u16', 'n', 3)), ('f', L('u32', None, 2)), ('m', 'u32'), ('b', L('u8', 'm', 6)), ('g', L('u8', None, 3))],
    # nesting
    'ShNest': [('n', 'u16'), ('a', L('ShCnt8', 'n', 3)), ('t', 'ShTup')],
    'ShDeep': [('p', 'ShNest'), ('n', 'u8'), ('q', L('ShShare', 'n', 2)), ('u', 'ShUnit')],
    'ShNames': [('i', 'u32'), ('written', 'u16'), ('selector', 'u8'), ('f0', 'u16'), ('size', 'u32'), ('name', 'u8'), ('buffer', 'u64')],
    'ShLong': [('m%d' % k, ('u8', 'u16', 'i32', 'ShOne', 'u64')[k % 5]) for k in range(14)],
    'ShSized': [('a', 'ShB7'), ('b', 'u8'), ('c', 'ShB0'), ('n', 'u8'), ('d', L('ShB7', 'n', 3))],
    # one byte more than a sized buffer can hold
    'ShBig': [('n', 'u32'), ('a', L('u8', 'n', 65532))],
    'ShWithU': [('a', 'u16'), ('u', 'ShU16'), ('b', 'u8'), ('v', 'ShU8')],
}
ENUMS = {
    'ShU8': ('u8', [('A', 0, ['u16']), ('B', 1, []), ('C', 255, ['u8', 'u32'])]),
    'ShU16': ('u16', [('A', 0x7fff, ['u8']), ('B', 0, ['ShOne', 'u16', 'i64']), ('C', 0xffff, ['ShCnt8']), ('D', 0x100, ['ShWrap', 'ShWrap']), ('E', 3, ['[u8;6]', 'u8']), ('F', 2, [])]),
    'ShU32': ('u32', [('A', 0xffffffff, ['ShU8', 'u8']), ('B', 1, ['ShTup', 'ShTwo']), ('C', 0x10001, ['ShU16'])]),
    'ShU64': ('u64', [('A', 1, ['u8']), ('B', 0x100000001, ['u16']), ('C', 0xffffffffffffffff, [])]),
    'ShUOne': ('u16', [('Only', 0x23, ['u32', 'u16', 'u8', 'u64'])]),
}
# capacity as declared; a 16-bit size cannot say more than 65535
TPM2B = {'ShB0': 0, 'ShB1': 1, 'ShB7': 7, 'ShBMax': 65535, 'ShBHuge': 70000, 'ShHTwo': None, 'ShHDeep': None, 'ShHU': None, 'ShHBig': None}
TPM2B_STRUCT = {'ShHTwo': 'ShTwo', 'ShHDeep': 'ShDeep', 'ShHU': 'ShU32', 'ShHBig': 'ShBig'}
# encodings of the structure may exceed what any sized buffer holds: storing those is refused
TOO_BIG = {'ShHBig'}
