"""Generates the Verus crate that decides the wire-format properties.

spec (spec/wire.py, spec/prelude.rs, spec/traits.rs)  +  text extracted from /repo
  -> one Verus file, with an owner map line -> (type, function)
"""
import json, os, re, sys
from common import *
import rustsrc
from rustsrc import load, walk, toks_text, OPEN
from binders import binders, renames, rename
from extract import Env, Edits, std_edits, err_edit, NoEval
import wire
from wire import L, Sel, Var

SPEC = os.path.join(VERIF, 'spec')


class Out:
    def __init__(self):
        self.lines = []
        self.owner = []      # per line: None or (group, type, fn, kind)

    def add(self, text, owner=None):
        for l in text.split('\n'):
            self.lines.append(l)
            self.owner.append(owner)

    def text(self):
        return '\n'.join(self.lines) + '\n'


class Gone(Exception):
    """the tree lacks a member or union variant of the reference; args: property, text"""


class Missing(Exception):
    """the code no longer has the shape the extractor needs"""


class Gen:
    def __init__(self, exp, probe, skip=(), nohint=(), only=None, own=('C13', 'C14'), crates=None):
        """exp: dict crate -> expanded text; skip: set of owners to leave unverified"""
        self.own = own       # with `only`: the groups verified here, the others are given
        self.shapes = own == ('C20',)
        self.crates = crates or ('marshalable', 'base', 'tpm2') + (('client',) if only else ())
        self.only = only     # the types wanted, with open definitions; with it, the client's headers are known
        self.exp, self.probe, self.skip, self.nohint = exp, probe, set(skip), set(nohint)
        self.out = Out()
        self.items = {}
        self.env = Env(dict(probe['size_of'], u8=1, u16=2, u32=4, u64=8, i8=1, i16=2, i32=4, i64=8, usize=8))
        self.defs, self.impls, self.aliases = {}, {}, []
        self.fallback = []     # (owner, reason) functions outside the verifier's reach
        self.under_contract = []
        self.problems = []     # (group, text): shape problems
        for t, d in wire.CLIENT_STRUCTS.items():
            wire.STRUCTS.pop(t, None)
            if only:
                wire.STRUCTS[t] = d

    # ---- collecting -----------------------------------------------------------------
    def collect(self):
        for c in self.crates:
            s, items = load(self.exp[c])
            self.items[c] = (s, items)
            for it in walk(items):
                if it.kind == 'const' and it.name != '_':
                    eq = self.find(s, it, '=')
                    if eq:
                        self.env.add(it.name, s, eq + 1, it.i1)
                if it.kind == 'impl' and not it.auto():
                    for ch in it.children:
                        if ch.kind == 'const':
                            eq = self.find(s, ch, '=')
                            if eq:
                                self.env.add(it.self_ty + '::' + ch.name, s, eq + 1, ch.i1, it.self_ty)
                if it.kind in ('struct', 'enum') and c != 'tpm2':
                    self.defs.setdefault(it.name, it)
                if it.kind == 'impl' and c != 'tpm2':
                    tr = re.sub(r'^.*::', '', it.trait.split('<')[0]) + (('<' + it.trait.split('<', 1)[1]) if '<' in it.trait else '')
                    self.impls.setdefault((tr, it.self_ty), []).append(it)
                if it.kind == 'type' and c in ('base', 'shapes') and it.path == ():
                    self.aliases.append(it)

        # capacities as compiled; a constant that only the compiler can evaluate gets its value from there
        for t, c in self.probe['cap'].items():
            k = t + '::MAX_BUFFER_SIZE'
            if k in self.env.exprs:
                s, i, j, st = self.env.exprs[k]
                try:
                    self.env.get(k)
                except NoEval:
                    self.env.cache[k] = c
                    key = toks_text(s, i, j)
                    if re.match(r'^\w+(::\w+)?$', key):
                        self.env.cache[key] = c

    def find(self, s, it, tok):
        k = it.kw
        while k < it.i1:
            if s.toks[k].t == tok:
                return k
            if s.toks[k].t in OPEN:
                k = s.match[k]
            k += 1
        return None

    def impl(self, tr, ty):
        l = self.impls.get((tr, ty), [])
        return l[0] if l else None

    # ---- emitting extracted text ------------------------------------------------------
    def fn_text(self, fn, selfty, owner, contract='', loops=None, ret='r', pre_edits=None, hints=None):
        """verbatim function text with the standard edits; contract inserted before the body"""
        s = fn.src
        T = s.toks
        ed = Edits()
        i0 = fn.i0
        std_edits(s, i0, fn.i1 + 1, self.env, selfty, ed)
        for k in range(fn.body[0], fn.body[1]):
            err_edit(s, k, ed)
        b0, b1 = fn.body
        reason = None
        # loops
        k = b0
        while k < b1:
            if T[k].k == 'id' and T[k].t in ('for', 'while', 'loop') and not (T[k].t == 'for' and T[k + 1].t == '<'):
                r = loops(s, k, ed) if loops else None
                if not r:
                    reason = 'loop without a matching invariant: ' + re.sub(r'\s+', ' ', s.slice(k, min(k + 25, b1)))
            k += 1
        # drop visibility inside trait impls is not needed: text is kept
        if contract:
            # `-> T {`  =>  `-> (r: T) contract {`
            d = k = None
            for q in range(fn.kw, b0):
                if T[q].t == '->' and (d is None):
                    # ignore -> nested in parameter parens
                    if not any(o < q < s.match[o] for o in range(fn.kw, q) if T[o].t == '('):
                        d = q
            if d is not None:
                w = b0
                for q in range(d, b0):
                    if T[q].t == 'where':
                        w = q
                        break
                ed.rep(T[d + 1].a, T[d + 1].a, '(%s: ' % ret)
                ed.rep(T[w - 1].b, T[w - 1].b, ')')
            ed.rep(T[b0].a, T[b0].a, '\n' + contract + '\n')
        if fn.name in ('try_marshal', 'try_marshal_variant'):
            # a slice has at most usize::MAX elements
            ed.rep(T[b0].b, T[b0].b, ' proof { assert(vstd::slice::spec_slice_len(%s) == %s@.len()); }' % (((binders(s, fn)[0] + ['buffer'])[0],) * 2))
        if selfty == '[u8;M]' and fn.name == 'try_unmarshal':
            ed.rep(T[b0].b, T[b0].b, ' proof { assert(forall|x: [u8; M]| #[trigger] x.inv()); assert(forall|x: [u8; M]| #[trigger] x.v() == x@); assert(buffer@.len() < M ==> Self::dec(buffer@) == Dec::<Seq<u8>>::Err(Error::UnexpectedEndOfBuffer)); }')
        if pre_edits:
            pre_edits(s, fn, ed)
        if hints and owner not in self.nohint:
            hints(s, fn, ed)
        m = renames('wire', owner, (binders(s, fn)[0], []))[0]
        ed.e = [(a, b, rename(x, m)) for a, b, x in ed.e]
        text = ed.apply(s.text, T[i0].a, T[fn.i1].b)
        given = self.only and owner[0] not in self.own     # verified in unit wire
        if owner in self.skip or reason or given:
            if reason and not given:
                self.fallback.append((owner, reason))
            # replace the body
            ed2 = Edits()
            head = ed.apply(s.text, T[i0].a, T[b0].a)
            text = '#[verifier::external_body]\n' + head + '{ unimplemented!() }'
        else:
            self.under_contract.append(owner)
        return text

    def emit_fn(self, fn, selfty, owner, **kw):
        t = self.fn_text(fn, selfty, owner, **kw)
        if 'for ' in t or 'while ' in t:
            t = '#[verifier::loop_isolation(false)]\n' + t
        self.out.add('// EXTRACTED ' + ' '.join(owner[:3]))
        self.out.add(t, owner)

    def def_text(self, name):
        """struct/enum definition, fields public, attributes dropped"""
        it = self.defs.get(name)
        if not it:
            raise Missing('no definition of ' + name)
        s = it.src
        T = s.toks
        ed = Edits()
        std_edits(s, it.i0, it.i1 + 1, self.env, name, ed)
        rep = ''
        if it.kind == 'enum':
            for a in it.attrs:
                m = re.search(r'repr\(([^)]*)\)', a)
                if m:
                    ints = [x.strip() for x in m.group(1).split(',') if x.strip() in ('u8', 'u16', 'u32', 'u64')]
                    if ints:
                        rep = '#[repr(%s)]\n' % ints[0]
        else:
            g = it.body[0] if it.body else None
            if g is None:
                for q in range(it.kw, it.i1):
                    if T[q].t == '(':
                        g = q
                        break
            if g is not None:
                e = s.match[g]
                k = g + 1
                while k < e:
                    while T[k].t == '#':
                        k = s.match[k + 1] + 1
                    if T[k].t == 'pub':
                        if T[k + 1].t == '(' :
                            ed.rep(T[k + 1].a, T[s.match[k + 1]].b, '')
                    else:
                        ed.rep(T[k].a, T[k].a, 'pub ')
                    d = 0
                    while k < e and not (T[k].t == ',' and d == 0):
                        if T[k].t in OPEN:
                            k = s.match[k]
                        elif T[k].t == '<':
                            d += 1
                        elif T[k].t == '>':
                            d -= 1
                        k += 1
                    k += 1
        body = ed.apply(s.text, T[it.i0].a, T[it.i1].b)
        if not body.startswith('pub'):
            body = 'pub ' + body
        der = []
        if any(i.auto() for i in self.impls.get(('Copy', name), [])) and any(i.auto() for i in self.impls.get(('Clone', name), [])):
            der = ['Clone', 'Copy']
        d = '#[derive(%s)]\n' % ', '.join(der) if der else ''
        return d + rep + body

    def fields(self, name):
        """[(field, type text)] of a struct with named fields; None for tuple structs"""
        it = self.defs[name]
        s = it.src
        T = s.toks
        if not it.body:
            return None
        out = []
        k = it.body[0] + 1
        e = it.body[1]
        while k < e:
            while T[k].t == '#':
                k = s.match[k + 1] + 1
            if T[k].t == 'pub':
                k += 1
                if T[k].t == '(':
                    k = s.match[k] + 1
            n = T[k].t
            k += 2
            st = k
            d = 0
            while k < e and not (T[k].t == ',' and d == 0):
                if T[k].t in OPEN:
                    k = s.match[k]
                elif T[k].t == '<':
                    d += 1
                elif T[k].t == '>':
                    d -= 1
                k += 1
            out.append((n, toks_text(s, st, k), (st, k)))
            k += 1
        return out

    # ---- schema helpers -----------------------------------------------------------------
    def maxlen(self, t):
        if t in wire.PRIMS:
            return wire.PRIMS[t]
        if t.startswith('[u8;'):
            return int(t[4:-1])
        if t == '()':
            return 0
        if t in wire.NEWTYPES:
            return self.maxlen(wire.NEWTYPES[t])
        if t in wire.TPM2B:
            return 2 + self.cap2b(t)
        if t in wire.STRUCTS:
            n = 0
            for m in wire.STRUCTS[t]:
                if isinstance(m, Sel):
                    n += wire.PRIMS[m.repr]
                elif isinstance(m[1], L):
                    n += self.caplist(t, m[1]) * self.maxlen(m[1].elem)
                elif isinstance(m[1], Var):
                    n += self.vmaxlen(m[1].ty)
                else:
                    n += self.maxlen(m[1])
            return n
        return wire.PRIMS[wire.ENUMS[t][0]] + self.vmaxlen(t)

    def vmaxlen(self, t):
        return max(sum(self.maxlen(x) for x in fs) for _, _, fs in wire.ENUMS[t][1])

    def cap2b(self, t):
        c = wire.TPM2B[t]
        return min(c if c is not None else self.probe['cap'][t], 65535)

    def caplist(self, t, l):
        if l.cap is not None:
            return l.cap
        so = self.probe['size_of']
        return (so[t] - 4) // so[l.elem]

    # ---- marshalable crate ---------------------------------------------------------------
    def gen_marshalable(self):
        o = self.out
        o.add('pub mod marshalable {\n    use super::*;\n    use crate::safe_discriminant;\n    use crate::safe_discriminant::Discriminant;\n    use crate::shim::BeBytes;')
        o.add('#[derive(PartialEq, Eq, Clone, Copy)]\n' + self.def_text('Error').replace('#[derive(Clone, Copy)]\n', ''))
        o.add('pub type Result<T> = core::result::Result<T, Error>;')
        o.add('// EXTRACTED UnmarshalBuf')
        o.add(self.def_text('UnmarshalBuf'))
        C = {
            'new': 'ensures r@ == buffer@',
            'get': 'ensures match r { Some(s) => len <= old(self)@.len() && s@ == old(self)@.take(len as int) && final(self)@ == old(self)@.skip(len as int),\n'
                   '            None => len > old(self)@.len() && final(self)@ == old(self)@ }',
            'len': 'ensures r == self@.len()',
            'is_empty': 'ensures r == (self@.len() == 0)',
        }
        ims = [i for i in self.impls.get(('', "UnmarshalBuf<'a>"), [])]
        f = [x for x in self.fields('UnmarshalBuf')]
        if not ims or len(f) != 1:
            raise Missing('UnmarshalBuf')
        o.add("impl<'a> UnmarshalBuf<'a> {\n    pub open spec fn view(&self) -> Seq<u8> { self.%s@ }" % f[0][0])
        seen = set()
        for im in ims:
            for fn in im.children:
                if fn.kind == 'fn':
                    seen.add(fn.name)
                    self.emit_fn(fn, 'UnmarshalBuf', ('C01', 'UnmarshalBuf', fn.name, 'exec'), contract=C.get(fn.name, ''))
        o.add('}')
        for n in C:
            if n not in seen:
                raise Missing('UnmarshalBuf::' + n)
        o.add(open(SPEC + '/traits.rs').read(), ('C01', 'traits', 'lemmas', 'proof'))
        for t, n in wire.PRIMS.items():
            im = self.impl('Marshalable', t)
            if not im:
                raise Missing('impl Marshalable for ' + t)
            o.add('impl Marshalable for %s {' % t)
            o.add('''    type V = {t};
    open spec fn v(&self) -> {t} {{ *self }}
    open spec fn inv(&self) -> bool {{ true }}
    open spec fn ok(v: {t}) -> bool {{ true }}
    open spec fn enc(v: {t}) -> Seq<u8> {{ v.be() }}
    open spec fn dec(s: Seq<u8>) -> Dec<{t}> {{ if s.len() < {n} {{ Err(Error::UnexpectedEndOfBuffer) }} else {{ Ok(({t}::be_inv(s.take({n})), s.skip({n}))) }} }}
    open spec fn maxlen() -> nat {{ {n} }}
    proof fn rt1(v: {t}, t: Seq<u8>) {{ v.be_rt(); let s = v.be() + t; assert(s.take({n}) =~= v.be()); assert(s.skip({n}) =~= t); }}
    proof fn rt2(s: Seq<u8>) {{ if s.len() >= {n} {{ {t}::be_rt2(s.take({n})); assert(s.take({n}) + s.skip({n}) =~= s); }} }}
    proof fn bound(v: {t}) {{ v.be_rt(); }}'''.format(t=t, n=n), ('C01', t, 'lemmas', 'proof'))
            self.marsh_fns(im, t, 'C01')
            o.add('}')
        for t, hdr, spec in (
            ('()', 'impl Marshalable for () {', '''    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn inv(&self) -> bool { true }
    open spec fn ok(v: ()) -> bool { true }
    open spec fn enc(v: ()) -> Seq<u8> { Seq::empty() }
    open spec fn dec(s: Seq<u8>) -> Dec<()> { Ok(((), s)) }
    open spec fn maxlen() -> nat { 0 }
    proof fn rt1(v: (), t: Seq<u8>) { assert(Seq::<u8>::empty() + t =~= t); }
    proof fn rt2(s: Seq<u8>) {}
    proof fn bound(v: ()) {}'''),
            ('[u8;M]', 'impl<const M: usize> Marshalable for [u8; M] {', '''    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> { self@ }
    open spec fn inv(&self) -> bool { true }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() == M }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn dec(s: Seq<u8>) -> Dec<Seq<u8>> { if s.len() < M { Err(Error::UnexpectedEndOfBuffer) } else { Ok((s.take(M as int), s.skip(M as int))) } }
    open spec fn maxlen() -> nat { M as nat }
    proof fn rt1(v: Seq<u8>, t: Seq<u8>) { let s = v + t; assert(s.take(M as int) =~= v); assert(s.skip(M as int) =~= t); }
    proof fn rt2(s: Seq<u8>) { if s.len() >= M { assert(s.take(M as int) + s.skip(M as int) =~= s); } }
    proof fn bound(v: Seq<u8>) {}''')):
            im = self.impl('Marshalable', t)
            if not im:
                raise Missing('impl Marshalable for ' + t)
            o.add(hdr)
            o.add(spec, ('C01', t, 'lemmas', 'proof'))
            self.marsh_fns(im, t, 'C01')
            o.add('}')
        o.add('}')

    def prefix_hints(self, s, i, j, terms, ed, full=None):
        """after the k-th `w += E.try_marshal(..)?;` (or marshaling loop) of a statement list [i, j): the prefix of the encoding it
        completes.  Only inserted when the statements match the members one to one."""
        T = s.toks
        W = cursor(s, i, j)
        if not W:
            return
        # statements that marshal one member (or one array); each extends to the statement that moves the cursor
        pts, k, open_ = [], i, False
        while k < j:
            loop = T[k].t == 'for'
            q = stmt_end(s, k, j)
            ids = [T[x].t for x in range(k, q + 1)]
            n = sum(1 for x in ids if x in ('try_marshal', 'try_marshal_variant'))
            moves = any(T[x].t == W and T[x + 1].t in ('=', '+=', ':') for x in range(k, q))
            if n > 1:
                return
            if n == 1:
                if open_:
                    return
                pts.append([k, q, loop])
                open_ = not moves
            elif open_:
                pts[-1][1] = q
                open_ = not moves
            k = q + 1
        if open_ or len(pts) != len(terms) or len(terms) < 2:
            return
        ed.rep(T[i].a, T[i].a, ' let ghost __b0 = buffer@; let ghost __w0 = 0int; ')
        for n, (k, q, loop) in enumerate(pts):
            nx = ' let ghost __b{m} = buffer@; let ghost __w{m} = {w} as int; '.format(m=n + 1, w=W) if n + 1 < len(pts) else ''
            if n == 0 and not loop:
                pf = ' proof {{ step(__b{n}, __w{n}, buffer@, {w} as int, Seq::empty(), {e}, old(buffer)@); assert(Seq::<u8>::empty() + {e} =~= {e}); }}'.format(n=n, w=W, e=terms[n])
            elif loop:
                pf = ' proof {{ assert(buffer@.take({w} as int) =~= {p}); assert(buffer@.skip({w} as int) =~= old(buffer)@.skip({w} as int)); }}'.format(w=W, p=' + '.join(terms[:n + 1]))
            elif n == len(pts) - 1 and full:
                pf = ' proof {{ step_full(__b{n}, __w{n}, buffer@, {w} as int, {p}, {e}, old(buffer)@); assert({f} == {p} + {e}); }}'.format(n=n, w=W, p=' + '.join(terms[:n]), e=terms[n], f=full)
            else:
                pf = ' proof {{ step(__b{n}, __w{n}, buffer@, {w} as int, {p}, {e}, old(buffer)@); }}'.format(n=n, w=W, p=' + '.join(terms[:n]), e=terms[n])
            ed.rep(T[q].b, T[q].b, pf + nx)

    def struct_hints(self, terms):
        def h(s, fn, ed):
            if fn.name == 'try_marshal':
                self.prefix_hints(s, fn.body[0] + 1, fn.body[1], terms, ed)
        return h

    def enum_hints(self, t):
        def h(s, fn, ed):
            if fn.name != 'try_marshal_variant':
                return
            T = s.toks
            for n, sel, fs in wire.ENUMS[t][1]:
                for k in range(fn.body[0], fn.body[1]):
                    if T[k].t == n and T[k - 1].t == '::' and T[k + 1].t == '(':
                        e = s.match[k + 1]
                        names = toks_text(s, k + 2, e).rstrip(',').split(',')
                        if T[e + 1].t == '=>' and T[e + 2].t == '{' and len(names) == len(fs):
                            self.prefix_hints(s, e + 3, s.match[e + 2], ['<%s>::enc(%s.v())' % (f, x) for f, x in zip(fs, names)], ed, 'Self::venc(self.vv())')
        return h

    def marsh_fns(self, im, t, group, names=('try_unmarshal', 'try_marshal'), lst=None, hints=None):
        for fn in im.children:
            if fn.kind == 'fn':
                if fn.name not in names:
                    self.problems.append((group, '%s: unexpected %s' % (t, fn.name)))
                self.emit_fn(fn, t, (group, t, fn.name, 'exec'), loops=self.loopgen(fn, lst) if lst else None, hints=hints)
        for n in names:
            if not any(f.kind == 'fn' and f.name == n for f in im.children):
                raise Missing('%s: no %s' % (t, n))

    # ---- loops over counted arrays ----------------------------------------------------------
    def loopgen(self, fn, lst):
        def unm(s, k, ed):
            T = s.toks
            body, e, pat, it = split_for(s, k)
            if body is None:
                return False
            txt = toks_text(s, *it)
            m = re.match(r'^(\w+)\.iter_mut\(\)(\.take\((.*)\))?$', txt) or re.match(r'^&mut\s*(\w+)(\[\.\.(.*)\])?$', txt) or re.match(r'^(\w+)(\[\.\.(.*)\])\.iter_mut\(\)$', txt)
            inner = None
            if m:
                A = m.group(1)
                q = it[1] - 1
                if m.group(2) is None:
                    N = A + '.len()'
                elif m.group(2)[0] == '[':      # a slice: out of range panics
                    q = it[0]
                    while T[q].t != '[':
                        q += 1
                    N = s.text[T[q + 1].b:T[s.match[q]].a]
                else:
                    N = s.text[T[s.match[q]].b:T[q].a]
                # body: one use, `*x = E;`
                uses = [b for b in range(body[0] + 1, body[1]) if T[b].t == pat]
                if len(uses) != 1 or T[uses[0] - 1].t != '*' or T[uses[0] + 1].t != '=':
                    return False
                b = uses[0]
                ed.rep(T[b - 1].a, T[b].b, '%s[__k]' % A)
                if m.group(2) and m.group(2)[0] == '[':
                    head = 'let __n: usize = %s;\n assert(__n <= %s@.len());\n for __k in 0..__n' % (N, A)
                else:
                    head = 'let __n: usize = crate::shim::min(%s, %s.len());\n for __k in 0..__n' % (N, A)
                ix = '__k'
            else:
                m = re.match(r'^0\.\.(.*)$', txt)
                if not m:
                    return False
                N = s.text[T[it[0] + 2].a:T[it[1] - 1].b]
                mm = re.search(r'(\w+)\[%s\]=' % pat, toks_text(s, body[0] + 1, body[1]))
                if not mm:
                    return False
                A = mm.group(1)
                head = 'let __n: usize = %s;\n for %s in 0..__n' % (N, pat)
                ix = pat
            if A not in lst:
                return False
            cap, elem = lst[A]['alen'], lst[A]['elem']
            inv = '''
    invariant
        __n <= {A}@.len(), {A}@.len() == {cap},
        all_inv({A}@),
        dec_list::<{E}>(__n as nat, __s1, Seq::empty()) == dec_list::<{E}>((__n - {ix}) as nat, buffer@, views({A}@.take({ix} as int))),
'''.format(A=A, E=elem, ix=ix, cap=cap)
            ed.rep(T[k].a, T[body[0]].a, '\nlet ghost __s1 = buffer@; proof { assert(views(%s@.take(0)) =~= Seq::empty()); }\n' % A + head + inv)
            ed.rep(T[body[0]].b, T[body[0]].b, ' let ghost __a0 = %s@;' % A)
            ed.rep(T[body[1]].a, T[body[1]].a, ' proof {{ ustep(__a0, {A}@, {ix} as int); }} '.format(A=A, ix=ix))
            return True

        def mar(s, k, ed):
            T = s.toks
            body, e, pat, it = split_for(s, k)
            if body is None:
                return False
            txt = toks_text(s, *it)
            names = [a for a in re.findall(r'self\.(\w+)\[', toks_text(s, body[0], body[1])) + re.findall(r'self\.(\w+)(?:\.iter|\[)', txt) if a in lst]
            if len(set(names)) != 1:
                return False
            arr = names[0]
            elem, cnt = lst[arr]['elem'], 'self.%s' % lst[arr]['cnt'] if lst[arr]['cnt'] else '%d' % lst[arr]['cap']
            A = 'self.' + arr
            m = re.match(r'^0\.\.(.*)$', txt)
            bind = ''
            if m:
                N = s.text[T[it[0] + 2].a:T[it[1] - 1].b]
                head = 'let __n: usize = %s;\n for %s in 0..__n' % (N, pat)
                ix = pat
            else:
                q = it[1] - 1
                if txt.startswith(A + '.iter().take('):
                    N = s.text[T[s.match[q]].b:T[q].a]
                    head = 'let __n: usize = crate::shim::min(%s, %s.len());\n for __k in 0..__n' % (N, A)
                elif re.match(r'^%s\[\.\.(.*)\]\.iter\(\)$' % re.escape(A), txt) or re.match(r'^&%s\[\.\.(.*)\]$' % re.escape(A), txt):
                    b = it[0]
                    while T[b].t != '[':
                        b += 1
                    N = s.text[T[b + 1].b:T[s.match[b]].a]
                    head = 'let __n: usize = %s;\n assert(__n <= %s@.len());\n for __k in 0..__n' % (N, A)
                else:
                    return False
                if pat.startswith('&'):
                    return False
                ix = '__k'
                bind = ' let %s = &%s[__k];' % (pat, A)
            W = cursor(s, body[0] + 1, body[1])
            if not W:
                return False

            def rep(x, y, t):
                ed.rep(x, y, t.replace('@W@', W))
            pre = '''
let ghost __all = lview({A}@, {cnt} as int);
let ghost __lw = @W@ as int;
let ghost __full = buffer@.take(__lw) + enc_list::<{E}>(__all);
proof {{ assert(__all.skip(0) =~= __all); assert(vstd::slice::spec_slice_len(buffer) == buffer@.len()); }}
'''.format(A=A, cnt=cnt, E=elem)
            inv = '''
    invariant
        self.inv(), __n == {cnt}, __n <= {A}@.len(), __lw <= @W@ <= buffer@.len() <= usize::MAX, buffer@.len() == old(buffer)@.len(),
        __all == lview({A}@, {cnt} as int), __all.len() == __n,
        forall|__j: int| 0 <= __j < {ix} ==> {E}::ok(#[trigger] __all[__j]),
        @W@ + enc_list::<{E}>(__all.skip({ix} as int)).len() == __full.len(),
        buffer@.take(@W@ as int) + enc_list::<{E}>(__all.skip({ix} as int)) == __full,
        buffer@.skip(@W@ as int) == old(buffer)@.skip(@W@ as int),
'''.format(A=A, E=elem, ix=ix, cnt=cnt)
            rep(T[k].a, T[body[0]].a, pre + head + inv)
            rep(T[body[0]].b, T[body[0]].b, bind + ' proof {{ assert(vstd::slice::spec_slice_len(buffer) == buffer@.len()); list_len_ge::<{E}>(__all, {ix} as int); assert(__all[{ix} as int] == {A}@[{ix} as int].v()); }} let ghost __lb = buffer@; let ghost __lv = @W@ as int;'.format(A=A, ix=ix, E=elem))
            rep(T[body[1]].a, T[body[1]].a, ' proof {{ lstep::<{E}>(__lb, __lv, buffer@, @W@ as int, __all, {ix} as int, __full, old(buffer)@); }} '.format(ix=ix, E=elem))
            rep(T[body[1]].b, T[body[1]].b, ' proof {{ assert(__all.skip(__n as int) =~= Seq::empty()); assert(buffer@.take(@W@ as int) + Seq::<u8>::empty() =~= buffer@.take(@W@ as int)); assert(forall|__j: int| 0 <= __j < __all.len() ==> {E}::ok(#[trigger] __all[__j])); }}'.format(E=elem))
            return True
        return unm if fn.name == 'try_unmarshal' else mar

    # ---- types ------------------------------------------------------------------------------
    def group(self, t):
        if self.shapes:
            return 'C20'
        if t in wire.CLIENT_STRUCTS:
            return 'C13' if t == 'CmdHeader' else 'C14'
        if t in wire.TPM2B:
            return 'C02'
        if t in wire.ENUMS:
            return 'C04'
        if t in wire.STRUCTS:
            if any(isinstance(m, Sel) for m in wire.STRUCTS[t]):
                return 'C04'
            if any(not isinstance(m, Sel) and isinstance(m[1], L) for m in wire.STRUCTS[t]):
                return 'C05'
        return 'C03'

    def emit_default(self, t, extra='', inv='r.inv()'):
        for im in self.impls.get(('Default', t), []):
            fn = [f for f in im.children if f.kind == 'fn' and f.name == 'default']
            if not fn:
                continue
            o = self.out
            o.add('impl Default for %s {' % t)
            if im.auto():
                o.add('#[verifier::external_body] fn default() -> (r: Self) ensures r.inv() { unimplemented!() }  // compiler-derived')
            else:
                self.emit_fn(fn[0], t, (self.group(t), t, 'default', 'exec'), contract='ensures ' + inv + extra)
            o.add('}')

    def gen_base(self):
        o = self.out
        o.add('pub mod base {\n    use super::*;')
        o.add('    pub use crate::marshalable::{Marshalable, MarshalableVariant, UnmarshalBuf, Dec, enc_list, dec_list, views, lview, all_ok, all_inv, list_rt1, list_rt2, list_bound, list_len_ge, step, step_full, lstep, ustep, assoc};')
        o.add('    pub use crate::marshalable as tpm2_rs_marshalable;\n    pub use crate::marshalable::Error;\n    pub use crate::safe_discriminant;\n    pub use crate::safe_discriminant::Discriminant;\n    pub use crate::shim::AsRefBytes;\n    pub use crate::shim::{MapErr, MapErrInto};')
        o.add('    pub mod constants { pub use super::*; }')
        # integer constants
        s, items = self.items['shapes' if self.shapes else 'base']
        for it in walk(items):
            if it.kind == 'const' and it.name != '_' and re.match(r'^[A-Z0-9_]+$', it.name):
                ty = toks_text(s, it.kw + 3, self.find(s, it, '='))
                if ty in ('u8', 'u16', 'u32', 'u64', 'usize'):
                    try:
                        o.add('    pub const %s: %s = %d;' % (it.name, ty, self.env.get(it.name)))
                    except NoEval:
                        pass
        o.add('    #[derive(PartialEq, Eq, Clone, Copy)] pub struct TpmRcError(pub u32);\n    pub type TpmRcResult<T> = core::result::Result<T, TpmRcError>;')
        o.add('    impl TpmRcError { ')
        for key in list(self.env.exprs):
            if key.startswith('TpmRcError::') and key.split('::')[1][:1].isupper() and not key.split('::')[1].isupper():
                try:
                    o.add('        pub const %s: TpmRcError = TpmRcError(%d);' % (key.split('::')[1], self.env.get(key)))
                except NoEval:
                    pass
        o.add('    }')
        have = set(wire.order(self.only)) | set(wire.PRIMS) | {'bool'}
        for a in self.aliases:
            if self.only and not set(re.findall(r'\b[A-Z]\w*|\bu\d+|\bi\d+', a.text.split('=', 1)[1])) <= have:
                continue
            o.add('    ' + re.sub(r'\s+', ' ', a.text))
        o.add('''    pub trait Tpm2bSimple {
        spec fn bytes(&self) -> Seq<u8>;
        spec fn binv(&self) -> bool;
        spec fn cap() -> nat;
        fn get_size(&self) -> (r: u16) requires self.binv() ensures r == self.bytes().len();
        fn get_buffer(&self) -> (r: &[u8]) requires self.binv() ensures r@ =~= self.bytes();
        fn from_bytes(buffer: &[u8]) -> (r: tpm2_rs_marshalable::Result<Self>) where Self: Sized
            ensures match r { Ok(x) => x.binv() && x.bytes() =~= buffer@ && buffer@.len() <= Self::cap(),
                              Err(e) => buffer@.len() > Self::cap() && e == Error::ArrayLengthExceeded };
    }
    pub trait Tpm2bStruct: Tpm2bSimple {
        type StructType: Marshalable;
        fn from_struct(val: &Self::StructType) -> (r: tpm2_rs_marshalable::Result<Self>) where Self: Sized
            requires val.inv()
            ensures match r { Ok(x) => x.binv() && <Self::StructType as Marshalable>::ok(val.v()) && x.bytes() =~= <Self::StructType as Marshalable>::enc(val.v()),
                              Err(e) => !<Self::StructType as Marshalable>::ok(val.v()) || <Self::StructType as Marshalable>::enc(val.v()).len() > Self::cap() && e == Error::ArrayLengthExceeded };
        fn to_struct(&self) -> (r: tpm2_rs_marshalable::Result<Self::StructType>)
            requires self.binv()
            ensures match (r, <Self::StructType as Marshalable>::dec(self.bytes())) {
                (Ok(x), Ok((v, rest))) => x.inv() && x.v() == v,
                (Err(e1), Err(e2)) => e1 == e2,
                _ => false };
    }''')
        for t in wire.order(self.only):
            o.add('    pub mod m_%s {\n    use super::*;' % t)
            o.add(self.def_text(t))
            if t in wire.NEWTYPES:
                self.gen_newtype(t)
            elif t in wire.TPM2B:
                self.gen_tpm2b(t)
            elif t in wire.STRUCTS:
                self.gen_struct(t)
            else:
                self.gen_enum(t)
            if t in wire.TPML_API:
                self.gen_tpml(t)
            o.add('    }\n    pub use m_%s::*;' % t)
        o.add('}')

    def assoc_consts(self, t):
        """integer-valued associated constants of a newtype"""
        o = self.out
        done = []
        for key in self.env.exprs:
            if key.startswith(t + '::'):
                n = key.split('::')[1]
                try:
                    done.append('        pub const %s: %s = %s(%d);' % (n, t, t, self.env.get(key)))
                except NoEval:
                    pass
        if done:
            o.add('#[allow(non_upper_case_globals)] impl %s {' % t)
            o.add('\n'.join(done))
            o.add('}')

    def gen_newtype(self, t):
        o = self.out
        inner = wire.NEWTYPES[t]
        if inner in wire.PRIMS and t in (('TpmAlgId', 'TpmSt', 'TpmCap') + (('TpmCc', 'TpmiStCommandTag', 'TpmiShAuthSession') if self.only else ())):
            self.assoc_consts(t)
        eq = self.impl('PartialEq', t)
        if self.only and eq and inner in wire.PRIMS:
            o.add('impl vstd::std_specs::cmp::PartialEqSpecImpl for %s {\n    open spec fn obeys_eq_spec() -> bool { true }\n    open spec fn eq_spec(&self, other: &Self) -> bool { self.0 == other.0 }\n}\nimpl PartialEq for %s {' % (t, t))
            for fn in eq.children:
                if fn.kind == 'fn':
                    self.emit_fn(fn, t, (self.group(t), t, fn.name, 'exec'))
            o.add('}')
        self.emit_default(t)
        im = self.impl('Marshalable', t)
        if not im:
            raise Missing('impl Marshalable for ' + t)
        o.add('impl Marshalable for %s {' % t)
        o.add('''    type V = <{i} as Marshalable>::V;
    open spec fn v(&self) -> Self::V {{ self.0.v() }}
    open spec fn inv(&self) -> bool {{ self.0.inv() }}
    open spec fn ok(v: Self::V) -> bool {{ {i}::ok(v) }}
    open spec fn enc(v: Self::V) -> Seq<u8> {{ {i}::enc(v) }}
    open spec fn dec(s: Seq<u8>) -> Dec<Self::V> {{ {i}::dec(s) }}
    open spec fn maxlen() -> nat {{ {n} }}
    proof fn rt1(v: Self::V, t: Seq<u8>) {{ {i}::rt1(v, t); }}
    proof fn rt2(s: Seq<u8>) {{ {i}::rt2(s); }}
    proof fn bound(v: Self::V) {{ {i}::bound(v); }}'''.format(i=inner, n=self.maxlen(t)), (self.group(t), t, 'lemmas', 'proof'))
        self.marsh_fns(im, t, self.group(t))
        o.add('}')

    def gen_tpm2b(self, t):
        o = self.out
        g = self.group(t)
        g6 = 'C20' if self.shapes else 'C06'
        cap = self.cap2b(t)
        fs = self.fields(t)
        size = [f for f in fs if f[1] == 'u16']
        buf = [f for f in fs if f[1].startswith('[u8;')]
        if len(fs) != 2 or len(size) != 1 or len(buf) != 1:
            raise Missing('fields of ' + t)
        SZ, BF = size[0][0], buf[0][0]
        im = self.impl('Tpm2bSimple', t)
        ar = self.impl('AsRef<[u8]>', t)
        ma = self.impl('Marshalable', t)
        if not im or not ma or not ar:
            raise Missing('impls of ' + t)
        try:
            mb = self.env.get(t + '::MAX_BUFFER_SIZE')
        except NoEval:
            raise Missing(t + '::MAX_BUFFER_SIZE')
        o.add('impl %s { pub const MAX_BUFFER_SIZE: usize = %d; }' % (t, mb))
        # said of the members themselves where a contract must not depend on an impl that has executable functions (cycles)
        binv = '(self.{s} <= {c} && self.{s} <= self.{b}@.len())'.format(b=BF, s=SZ, c=cap)
        byts = 'self.{b}@.take(self.{s} as int)'.format(b=BF, s=SZ)
        o.add('impl Tpm2bSimple for %s {' % t)
        o.add('''    open spec fn bytes(&self) -> Seq<u8> {{ {y} }}
    open spec fn binv(&self) -> bool {{ {i} }}
    open spec fn cap() -> nat {{ {c} }}'''.format(y=byts, i=binv, c=cap))

        for fn in im.children:
            if fn.kind == 'fn':
                self.emit_fn(fn, t, (g, t, fn.name, 'exec'))
        o.add('}')
        self.emit_default(t, ', %s =~= Seq::empty()' % byts.replace('self.', 'r.'), binv.replace('self.', 'r.'))
        o.add('impl AsRefBytes for %s {\n    open spec fn ref_pre(&self) -> bool { %s }\n    open spec fn ref_bytes(&self) -> Seq<u8> { %s }' % (t, binv, byts))
        for fn in ar.children:
            if fn.kind == 'fn':
                self.emit_fn(fn, t, (g, t, fn.name, 'exec'))
        o.add('}')
        o.add('impl Marshalable for %s {' % t)
        o.add('''    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> {{ self.bytes() }}
    open spec fn inv(&self) -> bool {{ self.binv() }}
    closed spec fn ok(v: Seq<u8>) -> bool {{ v.len() <= {c} }}
    closed spec fn enc(v: Seq<u8>) -> Seq<u8> {{ u16::enc(v.len() as u16) + v }}
    closed spec fn dec(s: Seq<u8>) -> Dec<Seq<u8>> {{ match u16::dec(s) {{ Err(e) => Err(e), Ok((n, s)) =>
        if n <= {c} && n <= s.len() {{ Ok((s.take(n as int), s.skip(n as int))) }} else {{ Err(Error::UnexpectedEndOfBuffer) }} }} }}
    open spec fn maxlen() -> nat {{ {m} }}
    proof fn rt1(v: Seq<u8>, t: Seq<u8>) {{ u16::rt1(v.len() as u16, v + t); assert(Self::enc(v) + t =~= u16::enc(v.len() as u16) + (v + t));
        assert((v + t).take(v.len() as int) =~= v); assert((v + t).skip(v.len() as int) =~= t); }}
    proof fn rt2(s: Seq<u8>) {{ u16::rt2(s); match u16::dec(s) {{ Ok((n, s1)) => {{ if n <= {c} && n <= s1.len() {{ assert(s1.take(n as int) + s1.skip(n as int) =~= s1);
        assert(u16::enc(n) + s1.take(n as int) + s1.skip(n as int) =~= u16::enc(n) + s1); }} }}, Err(_) => {{}} }} }}
    proof fn bound(v: Seq<u8>) {{ u16::bound(v.len() as u16); }}'''.format(c=cap, m=self.maxlen(t)), (g, t, 'lemmas', 'proof'))
        self.marsh_fns(ma, t, g)
        o.add('}')
        if t in wire.TPM2B_HOLDS:
            h = wire.TPM2B_HOLDS[t]
            o.add('pub proof fn fits(v: <{h} as Marshalable>::V) requires {h}::ok(v) ensures {h}::enc(v).len() <= {c} {{ {h}::bound(v); }}'.format(h=h, c=cap), (g6, t, 'fits', 'proof'))
        st = self.impl('Tpm2bStruct', t)
        if t in wire.TPM2B_STRUCT:
            h = wire.TPM2B_STRUCT[t]
            if not st:
                raise Missing('impl Tpm2bStruct for ' + t)
            o.add('impl Tpm2bStruct for %s {\n    type StructType = %s;' % (t, h))

            def fitcall(s, fn, ed):
                if fn.name == 'from_struct':
                    T = s.toks
                    ed.rep(T[fn.body[0]].b, T[fn.body[0]].b, ' proof {{ if {h}::ok(val.v()) {{ {l}(val.v()); }} }}'.format(h=h, l='fits' if t in wire.TPM2B_HOLDS else h + '::bound'))
            for fn in st.children:
                if fn.kind == 'fn':
                    self.emit_fn(fn, t, (g6, t, fn.name, 'exec'), pre_edits=fitcall)
            o.add('}')
            o.add('''/// what from_struct stores, to_struct gives back
pub proof fn struct_rt(b: Seq<u8>, v: <{h} as Marshalable>::V) requires {h}::ok(v), b == {h}::enc(v)
    ensures {h}::dec(b) == Dec::<<{h} as Marshalable>::V>::Ok((v, Seq::empty())) {{ {h}::rt1(v, Seq::empty()); assert(b + Seq::empty() =~= b); }}'''.format(h=h), (g6, t, 'struct_rt', 'proof'))

    def pieces(self, t):
        """wire pieces of a structure: dicts with enc/dec/lemma texts"""
        ms = wire.STRUCTS[t]
        counts = {}
        for m in ms:
            if not isinstance(m, Sel) and isinstance(m[1], L) and m[1].count:
                counts.setdefault(m[1].count, (m[0], m[1]))
        width = {m[0]: m[1] for m in ms if not isinstance(m, Sel) and m[0] in counts}
        ps = []
        for m in ms:
            if isinstance(m, Sel):
                u = [x[1].ty for x in ms if not isinstance(x, Sel) and isinstance(x[1], Var) and x[0] == m.member][0]
                ps.append(dict(k='sel', ty=m.repr, member=m.member, u=u))
            elif isinstance(m[1], L):
                cap = self.caplist(t, m[1])
                if m[1].count:
                    ps.append(dict(k='list', f=m[0], elem=m[1].elem, cnt=m[1].count, cap=min(cap, (1 << 8 * wire.PRIMS[width[m[1].count]]) - 1), alen=cap, with_=counts[m[1].count][0]))
                else:
                    ps.append(dict(k='fix', f=m[0], elem=m[1].elem, cnt=None, cap=cap, alen=cap))
            elif isinstance(m[1], Var):
                ps.append(dict(k='var', f=m[0], ty=m[1].ty))
            elif m[0] in counts:
                ps.append(dict(k='count', f=m[0], ty=m[1], lst=counts[m[0]][0]))
            else:
                ps.append(dict(k='f', f=m[0], ty=m[1]))
        return ps

    def enc_terms(self, ps, val):
        enc = []
        for p in ps:
            if p['k'] == 'sel':
                enc.append('%s::enc(%s::vsel(%s))' % (p['ty'], p['u'], val(p)))
            elif p['k'] == 'count':
                enc.append('%s::enc(%s.len() as %s)' % (p['ty'], val(p), p['ty']))
            elif p['k'] in ('list', 'fix'):
                enc.append('enc_list::<%s>(%s)' % (p['elem'], val(p)))
            elif p['k'] == 'var':
                enc.append('%s::venc(%s)' % (p['ty'], val(p)))
            else:
                enc.append('<%s>::enc(%s)' % (p['ty'], val(p)))
        return enc

    def spec_seq(self, ps, val, build, self_t):
        """enc / dec / rt1 / rt2 / bound bodies for a sequence of pieces.
        val(p): spec expression of the piece's value inside `v`; build: expression for the decoded value"""
        enc = self.enc_terms(ps, val)
        n = len(ps)

        def rest(k):
            return '(' + ' + ('.join(enc[k:]) + ')' * (n - k) if k < n else 'Seq::<u8>::empty()'
        ENC = ' + '.join(enc) if n else 'Seq::<u8>::empty()'
        # dec
        D = ''
        idx = {}
        for k, p in enumerate(ps):
            if p['k'] == 'sel':
                d = '%s::dec(s%d)' % (p['ty'], k)
                idx['sel:' + p['member']] = k
            elif p['k'] == 'count':
                d = '%s::dec(s%d)' % (p['ty'], k)
                idx['cnt:' + p['f']] = k
            elif p['k'] == 'list':
                c = idx['cnt:' + p['cnt']]
                D += 'if a%d > %d { Err(Error::ArrayLengthExceeded) } else { ' % (c, p['cap'])
                d = 'dec_list::<%s>(a%d as nat, s%d, Seq::empty())' % (p['elem'], c, k)
            elif p['k'] == 'fix':
                d = 'dec_list::<%s>(%d, s%d, Seq::empty())' % (p['elem'], p['cap'], k)
            elif p['k'] == 'var':
                d = '%s::vdec(a%d, s%d)' % (p['ty'], idx['sel:' + p['f']], k)
            else:
                d = '<%s>::dec(s%d)' % (p['ty'], k)
            D += 'match %s { Err(e) => Err(e), Ok((a%d, s%d)) => ' % (d, k, k + 1)
        D += 'Ok((%s, s%d))' % (build({(p['k'], p.get('f')): 'a%d' % k for k, p in enumerate(ps)}), n)
        D += ' }' * (n + sum(1 for p in ps if p['k'] == 'list'))
        # rt1: t<k> = enc[k] + t<k+1>, p<k> = enc[0] + .. + enc[k]; p<n-1> + t == p<k> + t<k+1> for every k
        R1 = ''
        if n == 0:
            R1 = 'assert(Seq::<u8>::empty() + t =~= t);'
        pre = ''
        for k in range(n):
            pre += ' let p%d = %s;' % (k, enc[0] if k == 0 else 'p%d + %s' % (k - 1, enc[k]))
        R1 += pre + ' let t%d = t;' % n
        for k in range(n - 1, -1, -1):
            R1 += ' let t%d = %s + t%d;' % (k, enc[k], k + 1)
            if k:
                R1 += ' assoc(p%d, %s, t%d);' % (k - 1, enc[k], k + 1)
        for k, p in enumerate(ps):
            a = 't%d' % (k + 1)
            if p['k'] == 'sel':
                R1 += ' %s::rt1(%s::vsel(%s), %s);' % (p['ty'], p['u'], val(p), a)
            elif p['k'] == 'count':
                R1 += ' %s::rt1(%s.len() as %s, %s);' % (p['ty'], val(p), p['ty'], a)
            elif p['k'] in ('list', 'fix'):
                R1 += ' list_rt1::<%s>(%s, %s, Seq::empty()); assert(Seq::empty() + %s =~= %s);' % (p['elem'], val(p), a, val(p), val(p))
            elif p['k'] == 'var':
                R1 += ' %s::vrt1(%s, %s);' % (p['ty'], val(p), a)
            else:
                R1 += ' <%s>::rt1(%s, %s);' % (p['ty'], val(p), a)
        # rt2: nested matches, facts asserted inside out
        R2 = ''
        close = ''
        if n == 0:
            R2 = 'assert(Seq::<u8>::empty() + s0 =~= s0);'
        bnd = build({(p['k'], p.get('f')): 'a%d' % k for k, p in enumerate(ps)})
        for k, p in enumerate(ps):
            if p['k'] == 'list':
                c = idx['cnt:' + p['cnt']]
                R2 += '\n        if a%d <= %d {' % (c, p['cap'])
                R2 += ' list_rt2::<%s>(a%d as nat, s%d, Seq::empty());' % (p['elem'], c, k)
                d = 'dec_list::<%s>(a%d as nat, s%d, Seq::empty())' % (p['elem'], c, k)
            elif p['k'] == 'fix':
                R2 += '\n        list_rt2::<%s>(%d, s%d, Seq::empty());' % (p['elem'], p['cap'], k)
                d = 'dec_list::<%s>(%d, s%d, Seq::empty())' % (p['elem'], p['cap'], k)
            elif p['k'] == 'var':
                c = idx['sel:' + p['f']]
                R2 += '\n        %s::vrt2(a%d, s%d);' % (p['ty'], c, k)
                d = '%s::vdec(a%d, s%d)' % (p['ty'], c, k)
            else:
                R2 += '\n        <%s>::rt2(s%d);' % (p['ty'], k)
                d = '<%s>::dec(s%d)' % (p['ty'], k)
            R2 += ' match %s { Err(_) => {}, Ok((a%d, s%d)) => {' % (d, k, k + 1)
            if p['k'] in ('list', 'fix'):
                R2 += ' assert(a%d.skip(0) =~= a%d);' % (k, k)
            close += ' } }' + (' }' if p['k'] == 'list' else '')
        if n:
            R2 += '\n        let v = %s;' % bnd
            R2 += pre
            for k in range(n - 1, 0, -1):
                R2 += ' assoc(p%d, %s, s%d);' % (k - 1, enc[k], k + 1)
            R2 += close
        B = ''
        for k, p in enumerate(ps):
            if p['k'] == 'sel':
                B += ' %s::bound(%s::vsel(%s));' % (p['ty'], p['u'], val(p))
            elif p['k'] == 'count':
                B += ' %s::bound(%s.len() as %s);' % (p['ty'], val(p), p['ty'])
            elif p['k'] in ('list', 'fix'):
                B += ' list_bound::<{e}>({v}); assert({v}.len() * {e}::maxlen() <= {c} * {e}::maxlen()) by (nonlinear_arith) requires {v}.len() <= {c};'.format(e=p['elem'], v=val(p), c=p['cap'])
            elif p['k'] == 'var':
                B += ' %s::vbound(%s);' % (p['ty'], val(p))
            else:
                B += ' <%s>::bound(%s);' % (p['ty'], val(p))
        return ENC, D, R1, R2, B

    def gen_struct(self, t):
        o = self.out
        g = self.group(t)
        ps = self.pieces(t)
        im = self.impl('Marshalable', t)
        if not im:
            raise Missing('impl Marshalable for ' + t)
        fs = self.fields(t)
        want = [m[0] for m in wire.STRUCTS.get(t, wire.CLIENT_STRUCTS.get(t, [])) if isinstance(m, tuple)]
        if fs is not None and len(fs) < len(want):
            raise Gone('C03', '%s has no member %s' % (t, ', '.join(sorted(set(want) - {f[0] for f in fs}))))
        # ghost value
        vf, vexp, inv, ok = [], [], [], []
        for p in ps:
            f = p.get('f')
            fv = vn(f)
            if p['k'] == 'fix':
                vf.append('pub %s: Seq<<%s as Marshalable>::V>' % (fv, p['elem']))
                vexp.append('%s: lview(self.%s@, %d)' % (fv, f, p['cap']))
                inv.append('all_inv(self.%s@)' % f)
                ok.append('v.%s.len() == %d && all_ok::<%s>(v.%s)' % (fv, p['cap'], p['elem'], fv))
            elif p['k'] == 'list':
                if p['with_'] != f:
                    ok.append('v.%s.len() == v.%s.len()' % (f, p['with_']))
                vf.append('pub %s: Seq<<%s as Marshalable>::V>' % (f, p['elem']))
                vexp.append('%s: lview(self.%s@, self.%s as int)' % (f, f, p['cnt']))
                inv.append('all_inv(self.%s@)' % f)
                ok.append('v.%s.len() <= %d && all_ok::<%s>(v.%s)' % (f, p['cap'], p['elem'], f))
            elif p['k'] == 'var':
                vf.append('pub %s: <%s as MarshalableVariant>::VV' % (f, p['ty']))
                vexp.append('%s: self.%s.vv()' % (f, f))
                inv.append('self.%s.vinv()' % f)
                ok.append('%s::vok(v.%s)' % (p['ty'], f))
            elif p['k'] == 'f':
                vf.append('pub %s: <%s as Marshalable>::V' % (fv, p['ty']))
                vexp.append('%s: self.%s.v()' % (fv, f))
                inv.append('self.%s.inv()' % f)
                ok.append('<%s>::ok(v.%s)' % (p['ty'], fv))
        V = t + 'V'
        o.add('pub struct %s { %s }' % (V, ', '.join(vf)))

        def val(p):
            return 'v.' + vn(p['member'] if p['k'] == 'sel' else p['lst'] if p['k'] == 'count' else p['f'])

        def build(m):
            return V + ' { ' + ', '.join('%s: %s' % (vn(f), a) for (k, f), a in m.items() if k in ('f', 'list', 'fix', 'var')) + ' }'
        ENC, D, R1, R2, B = self.spec_seq(ps, val, build, t)
        # a list made by default is empty
        self.emit_default(t, ''.join(', r.%s == 0' % p['cnt'] for p in ps if p['k'] == 'list') if t.startswith('Tpml') else '')
        o.add('impl Marshalable for %s {' % t)
        o.add('''    type V = {V};
    open spec fn v(&self) -> {V} {{ {V} {{ {vexp} }} }}
    open spec fn inv(&self) -> bool {{ {inv} }}
    closed spec fn ok(v: {V}) -> bool {{ {ok} }}
    closed spec fn enc(v: {V}) -> Seq<u8> {{ {ENC} }}
    closed spec fn dec(s0: Seq<u8>) -> Dec<{V}> {{ {D} }}
    open spec fn maxlen() -> nat {{ {m} }}
    proof fn rt1(v: {V}, t: Seq<u8>) {{ {R1} }}
    proof fn rt2(s0: Seq<u8>) {{ {R2} }}
    proof fn bound(v: {V}) {{ {B} }}'''.format(V=V, vexp=', '.join(vexp), inv=' && '.join(inv) or 'true', ok=' && '.join(ok) or 'true', ENC=ENC, D=D,
                                               R1=R1, R2=R2, B=B, m=self.maxlen(t)), (g, t, 'lemmas', 'proof'))
        lst = {p['f']: p for p in ps if p['k'] in ('list', 'fix')}
        self.marsh_fns(im, t, g, lst=lst,
                       hints=self.struct_hints(self.enc_terms(ps, lambda p: 'self.v().' + val(p)[2:])))
        o.add('}')

    def gen_enum(self, t):
        o = self.out
        g = self.group(t)
        rep, vs = wire.ENUMS[t]
        V = t + 'V'
        it = self.defs[t]
        s = it.src
        T = s.toks
        # declared discriminants
        disc = {}
        k = it.body[0] + 1
        while k < it.body[1]:
            while T[k].t == '#':
                k = s.match[k + 1] + 1
            name = T[k].t
            st = k
            eq = None
            while k < it.body[1] and T[k].t != ',':
                if T[k].t in OPEN:
                    k = s.match[k]
                elif T[k].t == '=':
                    eq = k
                k += 1
            disc[name] = s.slice(eq + 1, k - 1) if eq else None
            k += 1
        if set(disc) != {v[0] for v in vs}:
            gone = sorted({v[0] for v in vs} - set(disc))
            if gone and len(disc) < len(vs):
                raise Gone('C04', '%s has no variant %s: its selector value is refused' % (t, ', '.join(gone)))
            raise Missing('variants of %s: %s' % (t, sorted(set(disc) ^ {v[0] for v in vs})))
        di = self.impl('Discriminant', t)
        mv = self.impl('MarshalableVariant', t)
        ma = self.impl('Marshalable', t)
        if not (di and mv and ma):
            raise Missing('impls of ' + t)
        rp = [toks_text(s, c.kw + 3, c.i1) for c in di.children if c.kind == 'type' and c.name == 'Repr']
        if rp != [rep]:
            raise Missing('%s: selector is %s' % (t, rp))
        for name, sel, fs in vs:
            if disc[name] is None:
                raise Missing('%s::%s has no discriminant' % (t, name))
            o.add('pub fn d_{n}() -> (r: {rep}) ensures r == {sel} {{ {e} }}'.format(n=name, rep=rep, sel=sel, e=disc[name]), (g, t, 'discriminant of ' + name, 'exec'))
        o.add('pub enum %s { %s }' % (V, ', '.join('%s(%s)' % (n, ', '.join('<%s as Marshalable>::V' % f for f in fs)) for n, _, fs in vs)))

        def arms(fmt, pat='x'):
            return ', '.join(fmt(n, sel, fs) for n, sel, fs in vs)

        def xs(fs):
            return ', '.join('a%d' % i for i in range(len(fs)))
        o.add('''impl safe_discriminant::Discriminant for {t} {{
    type Repr = {rep};
    open spec fn discr(&self) -> {rep} {{ match self {{ {d} }} }}
    #[verifier::external_body] fn discriminant(&self) -> {rep} {{ unimplemented!() }}
}}'''.format(t=t, rep=rep, d=arms(lambda n, sel, fs: '%s::%s(..) => %d' % (t, n, sel))))
        seqs = {}
        for n, sel, fs in vs:
            ps = [dict(k='f', f='a%d' % i, ty=f) for i, f in enumerate(fs)]
            seqs[n] = self.spec_seq(ps, lambda p: p['f'], lambda m, n=n: '%s::%s(%s)' % (V, n, ', '.join(m.values())), t)
        vdec = ''
        for n, sel, fs in vs:
            vdec += 'if sel == %d { %s } else ' % (sel, seqs[n][1])
        vdec += '{ Err(Error::UnknownSelector) }'
        o.add('impl MarshalableVariant for %s {' % t)
        o.add('''    type VV = {V};
    open spec fn vv(&self) -> {V} {{ match self {{ {vv} }} }}
    open spec fn vinv(&self) -> bool {{ match self {{ {vinv} }} }}
    open spec fn vsel(v: {V}) -> {rep} {{ match v {{ {vsel} }} }}
    closed spec fn vok(v: {V}) -> bool {{ match v {{ {vok} }} }}
    closed spec fn venc(v: {V}) -> Seq<u8> {{ match v {{ {venc} }} }}
    closed spec fn vdec(sel: {rep}, s0: Seq<u8>) -> Dec<{V}> {{ {vdec} }}
    open spec fn vmaxlen() -> nat {{ {m} }}
    proof fn vrt1(v: {V}, t: Seq<u8>) {{ match v {{ {vrt1} }} }}
    proof fn vrt2(sel: {rep}, s0: Seq<u8>) {{ {vrt2} }}
    proof fn vbound(v: {V}) {{ match v {{ {vbound} }} }}'''.format(
            V=V, rep=rep, m=self.vmaxlen(t),
            vv=arms(lambda n, sel, fs: '%s::%s(%s) => %s::%s(%s)' % (t, n, xs(fs), V, n, ', '.join('a%d.v()' % i for i in range(len(fs))))),
            vinv=arms(lambda n, sel, fs: '%s::%s(%s) => %s' % (t, n, xs(fs), ' && '.join('a%d.inv()' % i for i in range(len(fs))) or 'true')),
            vsel=arms(lambda n, sel, fs: '%s::%s(..) => %d' % (V, n, sel)),
            vok=arms(lambda n, sel, fs: '%s::%s(%s) => %s' % (V, n, xs(fs), ' && '.join('<%s>::ok(a%d)' % (f, i) for i, f in enumerate(fs)) or 'true')),
            venc=arms(lambda n, sel, fs: '%s::%s(%s) => %s' % (V, n, xs(fs), seqs[n][0])),
            vdec=vdec,
            vrt1=arms(lambda n, sel, fs: '%s::%s(%s) => { %s }' % (V, n, xs(fs), seqs[n][2])),
            vrt2=' '.join('if sel == %d { %s } else' % (sel, seqs[n][3]) for n, sel, fs in vs) + ' {}',
            vbound=arms(lambda n, sel, fs: '%s::%s(%s) => { %s }' % (V, n, xs(fs), seqs[n][4]))), (g, t, 'lemmas', 'proof'))
        self.marsh_fns(mv, t, g, names=('try_unmarshal_variant', 'try_marshal_variant'), hints=self.enum_hints(t))
        o.add('}')
        self.emit_default(t)
        o.add('impl Marshalable for %s {' % t)
        o.add('''    type V = {V};
    open spec fn v(&self) -> {V} {{ self.vv() }}
    open spec fn inv(&self) -> bool {{ self.vinv() }}
    closed spec fn ok(v: {V}) -> bool {{ {t}::vok(v) }}
    closed spec fn enc(v: {V}) -> Seq<u8> {{ {rep}::enc({t}::vsel(v)) + {t}::venc(v) }}
    closed spec fn dec(s: Seq<u8>) -> Dec<{V}> {{ match {rep}::dec(s) {{ Err(e) => Err(e), Ok((sel, s)) => {t}::vdec(sel, s) }} }}
    open spec fn maxlen() -> nat {{ {m} }}
    proof fn rt1(v: {V}, t: Seq<u8>) {{ {t}::vrt1(v, t); {rep}::rt1({t}::vsel(v), {t}::venc(v) + t); assert(Self::enc(v) + t =~= {rep}::enc({t}::vsel(v)) + ({t}::venc(v) + t)); }}
    proof fn rt2(s: Seq<u8>) {{ {rep}::rt2(s); match {rep}::dec(s) {{ Err(_) => {{}}, Ok((sel, s1)) => {{ {t}::vrt2(sel, s1); match {t}::vdec(sel, s1) {{ Err(_) => {{}}, Ok((v, s2)) => {{
        assert({rep}::enc(sel) + {t}::venc(v) + s2 =~= {rep}::enc(sel) + ({t}::venc(v) + s2)); }} }} }} }} }}
    proof fn bound(v: {V}) {{ {t}::vbound(v); {rep}::bound({t}::vsel(v)); }}'''.format(t=t, V=V, rep=rep, m=self.maxlen(t)), (g, t, 'lemmas', 'proof'))
        self.marsh_fns(ma, t, g)
        o.add('}')

    def gen_tpml(self, t):
        o = self.out
        p = [p for p in self.pieces(t) if p['k'] == 'list'][0]
        A, E, cap, cnt = p['f'], p['elem'], p['cap'], p['cnt']
        wf = '%s.%s <= ' + str(cap)
        C = {
            'new': 'requires all_inv(elements@)\n ensures match r {{ Ok(x) => elements@.len() <= {cap} && x.inv() && x.{cnt} == elements@.len() && x.v().{A} =~= views(elements@), Err(e) => elements@.len() > {cap} && e == TpmRcError::Size }}',
            'add': 'requires old(self).inv(), element.inv()\n ensures final(self).inv(), old(self).{cnt} <= {cap} ==> final(self).{cnt} <= {cap}, match r {{ Ok(_) => old(self).{cnt} < {cap} && final(self).{cnt} == old(self).{cnt} + 1 && final(self).v().{A} =~= old(self).v().{A}.push(element.v()), Err(e) => old(self).{cnt} >= {cap} && e == TpmRcError::Size && final(self).{cnt} == old(self).{cnt} && final(self).{A}@ =~= old(self).{A}@ }}',
            'count': 'ensures r == self.{cnt}',
            A: 'ensures r@ =~= self.{A}@.take(if self.{cnt} <= {cap} {{ self.{cnt} as int }} else {{ {cap} }}), self.{cnt} <= {cap} ==> views(r@) =~= self.v().{A}',
        }
        ims = [i for i in self.impls.get(('', t), [])]
        o.add('impl %s {' % t)
        seen = set()
        for im in ims:
            for fn in im.children:
                if fn.kind == 'fn' and fn.name in C:
                    seen.add(fn.name)
                    self.emit_fn(fn, t, ('C05', t, fn.name, 'exec'), contract=C[fn.name].format(A=A, E=E, cap=cap, cnt=cnt))
        o.add('}')
        for n in C:
            if n not in seen:
                raise Missing('%s::%s' % (t, n))

    def run(self):
        self.collect()
        o = self.out
        o.add('#![allow(unused, ambiguous_glob_reexports, non_upper_case_globals, non_camel_case_types, non_snake_case)]\nuse vstd::prelude::*;\nverus! {' + ('\nglobal size_of usize == 8;' if self.shapes else ''))
        o.add(open(SPEC + '/prelude.rs').read(), ('C01', 'prelude', 'lemmas', 'proof'))
        self.gen_marshalable()
        self.gen_base()
        o.add('}\nfn main() {}')
        self.text = o.text()
        return self.text

    def module_group(self, module, fn):
        m = re.search(r'm_(\w+)$', module)
        if not m:
            return 'C01'
        t = m.group(1)
        if self.shapes:
            return 'C20'
        if t in wire.TPM2B:
            return 'C06' if re.search(r'::(fits|struct_rt|from_struct|to_struct)$', fn) else 'C02'
        if self.group(t) == 'C05' or t.startswith('Tpml'):
            return 'C05'
        return self.group(t)


def vn(f):
    return 'f' + f if f and f.isdigit() else f


def stmt_end(s, k, j):
    """index of the last token of the statement that starts at k"""
    T = s.toks
    blk = T[k].t in ('for', 'if', 'while', 'match', 'loop', '{', 'unsafe')
    q = k
    while q < j:
        if T[q].t == ';':
            return q
        if T[q].t in OPEN:
            q = s.match[q]
            if blk and T[q].t == '}' and T[q + 1].t not in ('else', '.', '?', ';'):
                return q
        q += 1
    return j - 1


def cursor(s, i, j):
    """the variable that counts what is written: the one that is added to"""
    T = s.toks
    c = [T[x].t for x in range(i, j) if T[x].k == 'id' and (T[x + 1].t == '+=' or T[x + 1].t == '=' and T[x + 2].t == T[x].t and T[x + 3].t == '+')]
    if len(set(c)) > 1:
        c = [v for v in c if any(T[x].t == v and T[x - 1].t == '[' and T[x + 1].t == '..' for x in range(i, j))]
    return c[0] if c and len(set(c)) == 1 else None


def split_for(s, k):
    """for PAT in EXPR { BODY }: (body range, end, pattern text, (i,j) of EXPR)"""
    T = s.toks
    if T[k].t != 'for':
        return None, None, None, None
    q = k + 1
    while T[q].t != 'in':
        q += 1
    pat = toks_text(s, k + 1, q)
    i = q + 1
    while T[q].t != '{':
        if T[q].t in ('(', '['):
            q = s.match[q]
        q += 1
    return (q, s.match[q]), s.match[q], pat, (i, q)


if __name__ == '__main__':
    d = sys.argv[1]
    exp = {n: open('/tmp/v/%s.x.rs' % n).read() for n in ('marshalable', 'base', 'tpm2')}
    probe = json.load(open(d + '/probe.json'))
    g = Gen(exp, probe)
    open(d + '/wire.rs', 'w').write(g.run())
    print(len(g.out.lines), 'lines', len(g.under_contract), 'functions', g.fallback, g.problems)
