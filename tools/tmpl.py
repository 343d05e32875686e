"""Generates a Verus crate from a hand-written contract template (spec/*.vrs) and functions extracted from /repo.

The template is Verus text: specification, trait contracts, impl headers.  Where it says

    //@fn crate=impl impl="TpmReadBuffer for [u8]" name=read_into group=C17
    //@ensures ...            contract, put between signature and body
    //@pre proof { .. }       put first in the body
    //@hint <text> ## proof   put after the statement of the body that contains <text> (dropped if there is none)
    //@loop <n> ## invariant  put on the n-th loop of the body
    //@body <n> ## proof      put first in the body of the n-th loop
    //@end

the function of that name is taken from rustc's macro expansion of the crate, with the edits of extract.std_edits and
those listed below, and the contract is inserted.  //@def crate=impl name=T inserts a struct or enum definition.
  E9  a closure that captures mutable state, passed where the contract is a `Callback`: converted to the struct of its
      captures (what rustc does); `impl FnOnce(&mut [u8])` parameters become a type parameter bounded by `Callback`, calls `f(x)` become `f.call(x)`
  E10 `const N: T = e;` inside a body -> `let N: T = e;` (its uses in array lengths are E3)
  E11 `.map_err(|_| PATH)` -> `.map_err_to(PATH)`, a shim verified in the template
  E14 `&[]` -> `empty_slice()`, a shim verified in the template
  E13 an unnamed parameter `_` gets a name
  E15 `::core::panicking::panic..(..)` (what panic!, unreachable!, todo!, assert! expand to) -> `panic_()`, which requires false
  E16 module paths `super::`, `crate::a::b::` are dropped (the unit is one namespace)
  E17 `(a..=b).contains(&v)`, `(a..b).contains(&v)` -> in_range_incl(a, b, v), in_range(a, b, v), shims verified in the template
  E18 argument-position `impl Trait` -> a type parameter
  E23 `loop { .. break E .. }` as an expression -> the value is assigned to a variable before a plain `break`
  E19 `for &x in SLICE { .. }` -> index loop over the slice with the given invariant
  E20 a constant slice becomes a function returning it (so that it can carry a contract)
  E12 `.map_err(Into::into)`, `.map_err(T::from)` -> `.map_err_into()`, `.map_err_into::<T>()`, a shim verified in the template
  E24 `.map_err(|e| ..)` whose closure formats a message -> `.map_err_any()`: an error about which nothing is said
  E25 `A.or_else(|_| B)` -> `match A { Ok(v) => Ok(v), Err(_) => B }` (the closure captures self mutably)
  E21 a bound `AsRef<[u8]>` -> the shim trait AsRefBytes (see E6)
"""
import os, re, sys
from common import *
from rustsrc import load, walk, toks_text, OPEN
from extract import Env, Edits, std_edits, err_edit, panic_end, NoEval
from vgen import Out, Missing, SPEC
from binders import binders, renames, rename


def find_fns(items):
    """yields (key, fn item, self_ty): key 'Trait for T', 'T', 'trait Tr', 'fn'"""
    for it in walk(items):
        if it.kind == 'impl':
            tr = it.trait
            tr = re.sub(r'^(::)?(\w+::)+', '', tr)
            key = re.sub(r'\b(super|crate|self)::([a-z]\w*::)*', '', (tr + ' for ' if tr else '') + it.self_ty)
            for ch in it.children:
                if ch.kind == 'fn':
                    yield key, ch, it.self_ty
        elif it.kind == 'trait':
            for ch in it.children:
                if ch.kind == 'fn' and ch.body:
                    yield 'trait ' + it.name, ch, 'Self'
        elif it.kind == 'fn':
            yield 'fn', it, ''


class Tmpl:
    def __init__(self, exp, template, size_of=None, skip=(), nohint=(), subst=None, edits=None, modgroup=None, defgroup='C00'):
        self.exp, self.template = exp, template
        self.skip, self.nohint = set(skip), set(nohint)
        self.out = Out()
        self.fallback, self.under_contract, self.problems, self.assumed = [], [], [], []
        self.env = Env(dict(size_of or {}, u8=1, u16=2, u32=4, u64=8, i8=1, i16=2, i32=4, i64=8, usize=8))
        self.subst = subst or {}
        self.extra_edits = edits or []
        self.modgroup = modgroup or {}
        self.defgroup = defgroup
        self.index, self.defs = {}, {}
        self.hoisted = []
        self.constcrate, self.consttype = {}, {}
        self.names = {}
        self.slices = {}
        self.auto = None
        for c, text in exp.items():
            s, items = load(text)
            for it in walk(items):
                if it.kind == 'const' and it.name != '_':
                    self.addconst(s, it, it.name, None)
                    if s.toks[it.kw + 2].t == ':' and s.toks[it.kw + 4].t == '=':
                        self.consttype.setdefault(it.name, s.toks[it.kw + 3].t)
                if it.kind == 'impl' and not it.auto():
                    for ch in it.children:
                        if ch.kind == 'const':
                            self.addconst(s, ch, it.self_ty + '::' + ch.name, it.self_ty)
                            self.constcrate.setdefault(it.self_ty + '::' + ch.name, c)
                            self.consttype.setdefault(it.self_ty + '::' + ch.name, s.toks[ch.kw + 3].t)
                if it.kind in ('struct', 'enum'):
                    self.defs.setdefault((c, it.name), it)
            for key, fn, st in find_fns(items):
                self.index.setdefault((c, key, fn.name), []).append((fn, st))

    def addconst(self, s, it, key, st):
        k = it.kw
        while k < it.i1:
            if s.toks[k].t == '=':
                self.env.add(key, s, k + 1, it.i1, st)
                return
            if s.toks[k].t in OPEN:
                k = s.match[k]
            k += 1

    # ---- one function -----------------------------------------------------------------
    def fn(self, c, key, name, owner, sec, opts):
        l = self.index.get((c, key, name))
        if not l:
            self.fallback.append((owner, 'no such function in this tree'))
            return ''
        fn, st = l[0]
        s = fn.src
        T = s.toks
        ed = Edits()
        b0, b1 = fn.body
        pm, m = renames(self.template, owner, binders(s, fn))
        if m:
            sec = {'c': [rename(x, pm) for x in sec['c']], 'pre': [rename(x, m) for x in sec['pre']], 'hint': [[rename(p, m), rename(t, m)] for p, t in sec['hint']],
                   'loop': [[n, rename(t, m)] for n, t in sec['loop']], 'body': [[n, rename(t, m)] for n, t in sec['body']]}
        for k in range(b0, b1):
            if T[k].t == 'const' and T[k + 1].k == 'id' and T[k + 2].t == ':':
                q = k
                while T[q].t not in ('=', ';'):
                    q += 1
                e = q
                while T[e].t != ';':
                    e = s.match[e] + 1 if T[e].t in OPEN else e + 1
                if T[q].t == '=':
                    self.env.add(T[k + 1].t, s, q + 1, e, st)
        std_edits(s, fn.i0, fn.i1 + 1, self.env, opts.get('self', st), ed)
        reason = self.own_edits(s, fn, ed, owner, opts, sec)
        for e in self.extra_edits:
            e(self, s, fn, ed, opts)
        contract = '\n'.join(sec['c'])
        nohint = owner in self.nohint
        d = None
        k = fn.kw
        while k < b0:
            if T[k].t in ('(', '['):
                k = s.match[k]
            elif T[k].t == '->':
                d = k
            k += 1
        w = b0
        if d is not None:
            for q in range(d, b0):
                if T[q].t == 'where':
                    w = q
                    break
            ed.rep(T[d + 1].a, T[d + 1].a, '(%s: ' % opts.get('ret', 'r'))
            ed.rep(T[w - 1].b, T[w - 1].b, ')')
        ed.rep(T[b0].a, T[b0].a, '\n' + contract + '\n')
        if sec['pre']:
            ed.rep(T[b0].b, T[b0].b, '\n' + '\n'.join(sec['pre']) + '\n')
        body = s.text[T[b0].b:T[b1].a]
        if not nohint:
            for pat, txt in sec['hint']:
                p = self.after(s, b0, b1, pat)
                if p is not None:
                    ed.rep(p, p, ' ' + txt + ' ')
        # loops
        n = 0
        for k in range(b0, b1):
            if T[k].k == 'id' and T[k].t in ('while', 'loop', 'for') and not (T[k].t == 'for' and T[k + 1].t == '<'):
                kind = T[k].t
                inv = [x for x in sec['loop'] if x[0] == n]
                if kind == 'for' and inv and T[k + 1].t == '&' and T[k + 2].k == 'id' and T[k + 3].t == 'in':
                    q = k
                    while T[q].t != '{':
                        q = s.match[q] + 1 if T[q].t in ('(', '[') else q + 1
                    ed.rep(T[k].a, T[q].b, 'let s__%d = %s; let mut i__%d: usize = 0; while i__%d < s__%d.len()\n%s\n{ let %s = s__%d[i__%d]; i__%d = i__%d + 1;'
                           % (n, s.slice(k + 4, q - 1) + ('()' if T[q - 1].t in self.slices else ''), n, n, n, inv[0][1], T[k + 2].t, n, n, n, n))
                    n += 1
                    continue
                if not inv or kind == 'for' and not opts.get('forok'):
                    reason = 'loop without a matching invariant'
                else:
                    q = k
                    while T[q].t != '{':
                        q = s.match[q] + 1 if T[q].t in ('(', '[') else q + 1
                    ed.rep(T[q].a, T[q].a, '\n' + inv[0][1] + '\n')
                    if kind == 'loop':
                        self.break_value(s, k, q, n, ed)
                    for x in sec['body']:
                        if x[0] == n:
                            ed.rep(T[q].b, T[q].b, '\n' + x[1] + '\n')
                n += 1
        if n != len(sec['loop']):
            reason = 'loops have changed'
        if owner in self.skip or reason:
            if reason:
                self.fallback.append((owner, reason))
            head = ed.apply(s.text, T[fn.i0].a, T[b0].a)
            return '#[verifier::external_body]\n' + head + '{ unimplemented!() }'
        self.under_contract.append(owner)
        attr = '#[verifier::loop_isolation(false)]\n' if n else ''
        if 'rlimit' in opts:
            attr += '#[verifier::rlimit(%s)]\n' % opts['rlimit']
        return attr + ed.apply(s.text, T[fn.i0].a, T[fn.i1].b)

    def break_value(self, s, k, q, n, ed):
        """E23: loop { .. break E .. } -> { let v; loop { .. { v = E; break } .. } v }"""
        T = s.toks
        e = s.match[q]
        found = False
        i = q + 1
        while i < e:
            if T[i].k == 'id' and T[i].t in ('while', 'loop', 'for') and T[i + 1].t != '<':
                while T[i].t != '{':
                    i = s.match[i] + 1 if T[i].t in ('(', '[') else i + 1
                i = s.match[i]
            elif T[i].t == 'break' and T[i + 1].t not in (';', ',', '}', ')'):
                j = i + 1
                while T[j].t not in (';', ',', '}', ')'):
                    j = s.match[j] + 1 if T[j].t in OPEN else j + 1
                ed.rep(T[i].a, T[i].b, '{ brk__%d =' % n)
                ed.rep(T[j - 1].b, T[j - 1].b, '; break }')
                found = True
                i = j - 1
            i += 1
        if found:
            ed.rep(T[k].a, T[k].a, '{ let brk__%d; ' % n)
            ed.rep(T[e].b, T[e].b, ' brk__%d }' % n)

    def after(self, s, b0, b1, pat):
        """end position of the first statement of the body whose text contains pat (whitespace-insensitive)"""
        T = s.toks
        pat = re.sub(r'\s+', '', pat)
        if pat == '$start':
            return T[b0].b
        st = b0 + 1
        k = b0 + 1

        def scan(i, j):
            st = i
            k = i
            while k < j:
                if T[k].t in OPEN:
                    e = s.match[k]
                    if T[k].t == '{':
                        r = scan(k + 1, e)
                        if r is not None:
                            return r
                        if e + 1 < j and T[e + 1].t not in (';', '.', 'else', '?', ')') :
                            st = e + 1
                    k = e + 1
                    continue
                if T[k].t == ';':
                    if pat in re.sub(r'\s+', '', s.slice(st, k)):
                        return T[k].b
                    st = k + 1
                k += 1
            return None
        return scan(b0 + 1, b1)

    def own_edits(self, s, fn, ed, owner, opts, sec):
        T = s.toks
        b0, b1 = fn.body
        reason = None
        cbparams, impls, nimpl = [], [], 0
        for k in range(fn.i0, b1):
            if T[k].t in ('super', 'crate') and T[k + 1].t == '::' and T[k - 1].t not in ('(', 'in'):
                e = k
                while T[e].t in ('super', 'crate') or T[e].k == 'id' and T[e].t[0].islower() and T[e + 1].t == '::':
                    e += 2
                ed.rep(T[k].a, T[e].a, '')
        k = fn.kw
        while k < b0:
            if T[k].t == '_' and T[k + 1].t == ':' and T[k - 1].t in ('(', ','):
                ed.rep(T[k].a, T[k].b, '_p%d' % k)
            if T[k].t == 'AsRef' and T[k + 1].t == '<' and T[k + 2].t == '[':
                ed.rep(T[k].a, T[k + 5].b, 'AsRefBytes')
            # callback: impl FnOnce(&mut [u8])
            if T[k].t == 'impl' and T[k + 1].t == 'FnOnce':
                e = s.match[k + 2]
                ed.rep(T[k].a, T[e].b, 'Cb%d' % len(cbparams))
                if T[fn.kw + 2].t == '(':
                    ed.rep(T[fn.kw + 1].b, T[fn.kw + 1].b, '<Cb0: Callback>')
                else:
                    reason = 'generic function with a callback'
                cbparams.append(T[k - 2].t)
                k = e
            elif T[k].t == 'impl' and T[k - 1].t == ':' and T[k + 1].k == 'id' and T[k + 2].t in (',', ')'):
                ed.rep(T[k].a, T[k + 1].b, 'L%d' % nimpl)
                impls.append('L%d: %s' % (nimpl, T[k + 1].t))
                nimpl += 1
            k += 1
        if impls:
            if T[fn.kw + 2].t == '<':
                q = fn.kw + 3
                d = 1
                while d:
                    d += {'<': 1, '>': -1}.get(T[q].t, 0)
                    q += 1
                ed.rep(T[q - 1].a, T[q - 1].a, ', ' + ', '.join(impls))
            else:
                ed.rep(T[fn.kw + 1].b, T[fn.kw + 1].b, '<' + ', '.join(impls) + '>')
        k = b0
        while k < b1:
            t = T[k].t
            if T[k].k == 'id' and t in cbparams and T[k + 1].t == '(' and T[k - 1].t != '.':
                ed.rep(T[k].b, T[k].b, '.call')
            if t in ('map_err', 'or_else') and T[k - 1].t == '.' and T[k + 1].t == '(' and T[k + 2].t == '|' and T[k + 4].t == '|':
                e = s.match[k + 1]
                if t == 'map_err' and any(T[q].t in ('format_args', 'format') for q in range(k, e)):
                    ed.e = [x for x in ed.e if not (T[k].a <= x[0] and x[1] <= T[e].b)]
                    ed.rep(T[k].a, T[e].b, 'map_err_any()')
                    k = e + 1
                    continue
                if t == 'or_else' and T[e + 1].t == ';' and T[k + 3].t == '_':
                    st = k
                    while T[st].t not in (';', '{', '}', '='):
                        st = (s.match[st] if T[st].t in (')', ']') else st) - 1
                    ed.rep(T[st].b, T[st].b, ' match ')
                    ed.rep(T[k - 1].a, T[k + 4].b, ' { Ok(ok__) => Ok(ok__), Err(_) => ')
                    ed.rep(T[e].a, T[e].b, ' }')
            err_edit(s, k, ed)
            e = panic_end(s, k)
            if e is not None:
                k = e + 1
                continue
            if t == 'contains' and T[k - 1].t == '.' and T[k - 2].t == ')' and T[k + 1].t == '(' and T[k + 2].t == '&':
                g0 = s.match[k - 2]
                q = g0 + 1
                while q < k - 2 and T[q].t not in ('..', '..='):
                    q = s.match[q] + 1 if T[q].t in OPEN else q + 1
                if q < k - 2:
                    ed.rep(T[g0].a, T[g0].b, 'in_range%s(' % ('_incl' if T[q].t == '..=' else ''))
                    ed.rep(T[q].a, T[q].b, ', ')
                    ed.rep(T[k - 2].a, T[k + 2].b, ', ')
            if t == '&' and T[k + 1].t == '[' and T[k + 2].t == ']':
                ed.rep(T[k].a, T[k + 2].b, 'empty_slice()')
            if t in ('to_le_bytes', 'from_le_bytes'):
                ed.rep(T[k].a, T[k].b, t + '_')
            if t == 'const' and T[k - 1].t in ('{', '}', ';') and T[k + 1].k == 'id' and T[k + 2].t == ':':
                ed.rep(T[k].a, T[k].b, 'let')
            # closures whose body captures mutable state
            if t == '|' and T[k - 1].t in ('(', ',') and opts.get('closure') and T[k + 1].k == 'id' and T[k + 1].t != '_' and T[k + 2].t in ('|', ':'):
                reason = self.closure(s, fn, k, ed, opts, owner) or reason
            k += 1
        return reason

    def closure(self, s, fn, k, ed, opts, owner):
        """`|buffer| { BODY }` capturing `self` and at most one local: becomes Cb { this: self, out: &mut local }"""
        T = s.toks
        e = k + 1
        while T[e].t != '|':
            e += 1
        param = T[k + 1].t
        # extent of the body: up to the `,` or `)` closing the argument
        q = e + 1
        while T[q].t not in (',', ')'):
            q = s.match[q] + 1 if T[q].t in OPEN else q + 1
        locs = set()
        b0 = fn.body[0]
        for i in range(b0, k):
            if T[i].t == 'let':
                j = i + 1
                while T[j].t not in ('=', ':', ';'):
                    if T[j].k == 'id' and T[j].t not in ('mut', 'Some', 'Ok', 'Err', 'ref'):
                        locs.add(T[j].t)
                    j += 1
        # (parameters other than self are by value and not handled)
        used = []
        for i in range(e + 1, q):
            if T[i].k == 'id' and T[i - 1].t != '.' and T[i].t in locs and T[i].t != param and T[i].t not in used:
                used.append(T[i].t)
        if len(used) != 1:
            return 'closure captures %s' % used
        inner = Edits()
        for x in ed.e:
            if T[e + 1].a <= x[0] and x[1] <= T[q - 1].b:
                inner.e.append(x)
        ed.e = [x for x in ed.e if x not in inner.e]
        for i in range(e + 1, q):
            if T[i].t == 'self':
                inner.rep(T[i].a, T[i].b, 'self.this')
            elif T[i].k == 'id' and T[i].t == used[0] and T[i - 1].t != '.':
                inner.rep(T[i].a, T[i].b, '(*self.out)')
        body = inner.apply(s.text, T[e + 1].a, T[q - 1].b)
        name = opts['closure']
        ed.rep(T[k].a, T[q - 1].b, '%s { this: self, out: &mut %s }' % (name, used[0]))
        self.hoisted.append((name, param, body, owner))
        return None

    def definition(self, c, name):
        it = self.defs.get((c, name))
        if not it:
            raise Missing('no definition of ' + name)
        s = it.src
        T = s.toks
        ed = Edits()
        std_edits(s, it.i0, it.i1 + 1, self.env, name, ed)
        if it.kind == 'struct':
            g = it.body[0] if it.body else None
            if g is None:
                for q in range(it.kw, it.i1):
                    if T[q].t == '(':
                        g = q
                        break
            if g is not None:
                e = s.match[g]
                k = g + 1
                while k < e:
                    while T[k].t == '#':
                        k = s.match[k + 1] + 1
                    if T[k].t == 'pub':
                        if T[k + 1].t == '(':
                            ed.rep(T[k + 1].a, T[s.match[k + 1]].b, '')
                    else:
                        ed.rep(T[k].a, T[k].a, 'pub ')
                    d = 0
                    while k < e and not (T[k].t == ',' and d == 0):
                        if T[k].t in OPEN:
                            k = s.match[k]
                        elif T[k].t == '<':
                            d += 1
                        elif T[k].t == '>':
                            d -= 1
                        k += 1
                    k += 1
        else:
            # explicit discriminants: by value; dropped for variants with fields (nothing reads them)
            b0, b1 = it.body
            k = b0 + 1
            fields = any(T[q].t in ('(', '{') and T[q - 1].k == 'id' for q in range(b0 + 1, b1))
            while k < b1:
                if T[k].t in OPEN:
                    for q in range(k, s.match[k]):
                        if T[q].t == '[' and T[q + 1].t == 'u8' and T[q + 2].t == ';' and T[q + 4].t == '.' and T[q + 5].t == 'digest_size':
                            ed.rep(T[q + 3].a, T[s.match[q] - 1].b, str(self.digest_size(T[q + 3].t)))
                    k = s.match[k] + 1
                    continue
                if T[k].t == '=':
                    e = k + 1
                    while e < b1 and T[e].t != ',':
                        e = s.match[e] + 1 if T[e].t in OPEN else e + 1
                    if fields:
                        ed.rep(T[k].a, T[e - 1].b, '')
                    else:
                        try:
                            ed.rep(T[k + 1].a, T[e - 1].b, str(self.env.eval(s, k + 1, e, name)))
                        except NoEval:
                            pass
                    k = e
                k += 1
        t = ed.apply(s.text, T[it.i0].a, T[it.i1].b)
        return t if t.startswith('pub') else 'pub ' + t

    def digest_size(self, alg):
        """the value of ALG.digest_size() where it is an array length (E3): read off the arms of the match in digest_size"""
        fn, _ = self.index[('tpm2', 'TpmiAlgHash', 'digest_size')][0]
        m = re.search(r'\b%s\s*(?:\|[^=]*)?=>\s*([0-9]+)' % alg, fn.src.slice(*fn.body))
        if not m:
            raise Missing('digest_size of ' + alg)
        return int(m.group(1))

    def directive(self, st, group):
        return False

    # ---- the template -------------------------------------------------------------------
    def run(self):
        o = self.out
        lines = open(os.path.join(SPEC, self.template)).read().split('\n')
        group = self.defgroup
        i = 0
        pending = []
        while i < len(lines):
            l = lines[i]
            st = l.strip()
            if st.startswith('//@group '):
                group = st.split()[1]
            elif st.startswith('//@include '):
                o.add(open(os.path.join(SPEC, st.split()[1])).read(), (group, 'prelude', 'lemmas', 'proof'))
            elif st.startswith('//@def '):
                a = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', st))
                o.add(self.definition(a['crate'], a['name']), (group, a['name'], 'definition', 'exec'))
            elif st.startswith('//@layout '):
                # a zerocopy structure: definition, and its bytes = the bytes of its members in declaration order (E22; needs repr(C))
                a = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', st))
                it = self.defs.get((a['crate'], a['name']))
                if not it or not any(re.search(r'repr\s*\(\s*(C|transparent)\b', x) for x in it.attrs):
                    raise Missing('repr(C) definition of ' + a['name'])
                fs = re.findall(r'(\w+)\s*:\s*(\w+)', re.sub(r'//.*', '', it.src.slice(it.body[0] + 1, it.body[1] - 1)))
                o.add(self.definition(a['crate'], a['name']), (group, a['name'], 'definition', 'exec'))
                o.add('impl Zc for %s {\n    open spec fn zb(&self) -> Seq<u8> { %s }\n    #[verifier::external_body] fn as_bytes(&self) -> (r: &[u8]) { unimplemented!() }\n'
                      '    #[verifier::external_body] fn as_mut_bytes(&mut self) -> (r: &mut [u8]) { unimplemented!() }\n}' % (a['name'], ' + '.join('zbytes_%s(self.%s)' % (t, n) for n, t in fs)))
                o.add('/// IntoBytes: no padding\npub axiom fn size_%s() ensures vstd::layout::size_of::<%s>() == %d;' % (a['name'], a['name'], sum({'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'U16': 2, 'U32': 4, 'U64': 8}.get(t, 0) for n, t in fs)))
                o.add('impl Default for %s { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }' % a['name'])
            elif st.startswith('//@consts '):
                a = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', st))
                o.add('impl %s {' % a['type'])
                for key in self.env.exprs:
                    if key.startswith(a['type'] + '::') and self.constcrate.get(key) == a['crate']:
                        try:
                            o.add('    pub const %s: %s = %s(%d);' % (key.split('::')[1], a['type'], a['type'], self.env.get(key)))
                        except NoEval:
                            pass
                o.add('}')
            elif st.startswith('//@ints '):
                # integer constants of a type, as written
                a = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', st))
                for key, (s_, i_, j_, _) in list(self.env.exprs.items()):
                    if key.startswith(a['type'] + '::') and self.constcrate.get(key) == a['crate'] and self.consttype.get(key) in ('u8', 'u16', 'u32', 'u64', 'usize'):
                        o.add('    pub const %s: %s = %s;' % (key.split('::')[1], self.consttype[key], s_.slice(i_, j_ - 1)), (group, a['type'], key.split('::')[1], 'proof'))
            elif st == '//@autoconsts':
                # the global integer constants the extracted functions of the unit mention, as written
                self.auto = len(o.lines)
                o.add('//@@autoconsts', (group, 'constants', 'consts', 'proof'))
            elif st.startswith('//@gconst '):
                # a global integer constant as written
                _, n, ty = st.split()
                s_, i_, j_, _ = self.env.exprs[n]
                o.add('pub const %s: %s = %s;' % (n, ty, s_.slice(i_, j_ - 1)), (group, 'constants', n, 'proof'))
            elif st.startswith('//@exconst '):
                # a constant computed by a const fn: its initialiser as written, its value an obligation
                d, ens = [x.strip() for x in (st.split('##') + [''])[:2]]
                pf = (st.split('##') + [''] * 2)[2].strip()
                a = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', d))
                key = a['type'] + '::' + a['name']
                self.names.setdefault(a['name'], []).append((group, a['type']))
                owner = (group, a['type'], a['name'], 'exec')
                if self.constcrate.get(key) != a['crate']:
                    self.fallback.append((owner, 'no such constant in this tree'))
                elif owner in self.skip:
                    pass
                else:
                    s_, i_, j_, _ = self.env.exprs[key]
                    self.under_contract.append(owner)
                    o.add('    pub exec const %s: Self ensures %s { %s %s }' % (a['name'], ens, pf, s_.slice(i_, j_ - 1)), owner)
            elif st.startswith('//@slice '):
                # //@slice crate= type= name= ## contract of r : a constant slice; its initialiser, as written, becomes the body of a function (E20)
                d, ens = [x.strip() for x in st.split('##')]
                a = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', d))
                key = a['type'] + '::' + a['name']
                owner = (group, a['type'], a['name'], 'exec')
                self.names.setdefault(a['name'], []).append((group, a['type']))
                if key not in self.env.exprs:
                    self.fallback.append((owner, 'no such constant in this tree'))
                else:
                    s_, i_, j_, _ = self.env.exprs[key]
                    if s_.toks[i_].t == 'const':
                        i_ += 1
                    self.slices[a['name']] = a['type']
                    body = s_.slice(i_, j_ - 1)
                    if owner in self.skip:
                        body = 'unimplemented!()'
                        o.add('#[verifier::external_body]')
                    else:
                        self.under_contract.append(owner)
                    o.add('impl %s { pub fn %s() -> (r: &\'static [%s]) ensures %s { %s } }' % (a['type'], a['name'], a['type'], ens, body), owner)
            elif st.startswith('//@idents '):
                # all constants of a type that spec/idents.json lists: the initialiser as written, the reference value an obligation
                import json
                a = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', st))
                ref = json.load(open(os.path.join(SPEC, 'idents.json')))[a['crate'] + ' ' + a['type']]
                o.add('impl %s {' % a['type'])
                for n, v in ref.items():
                    key = a['type'] + '::' + n
                    self.names.setdefault(n, []).append((group, a['type']))
                    owner = (group, a['type'], n, 'exec')
                    if self.constcrate.get(key) != a['crate']:
                        self.fallback.append((owner, 'no such constant in this tree'))
                        continue
                    if owner in self.skip:
                        continue
                    s_, i_, j_, _ = self.env.exprs[key]
                    ty = self.consttype.get(key)
                    isint = ty in ('u8', 'u16', 'u32', 'u64', 'usize')
                    self.under_contract.append(owner)
                    o.add('    pub exec const %s: %s ensures Self::%s%s == %d { %s %s }' % (n, ty if isint else 'Self', n, '' if isint else '.0', v, a.get('proof', '').strip('"'), s_.slice(i_, j_ - 1)), owner)
                o.add('}')
            elif st.startswith('//@value '):
                # //@value NAME expr : a constant of the code, by value
                _, n, ty, key = st.split()
                o.add('pub spec const %s: %s = %d;' % (n, ty, self.env.get(key)))
            elif st.startswith('//@fn '):
                a = {k: v.strip('"') for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', st)}
                sec = {'c': [], 'pre': [], 'hint': [], 'loop': [], 'body': []}
                cur = 'c'
                i += 1
                while lines[i].strip() != '//@end':
                    x = lines[i].strip()
                    assert x.startswith('//@'), (self.template, i, x)
                    x = x[3:]
                    m = re.match(r'(pre|hint|loop|body)\b\s?(.*)', x)
                    if m:
                        cur = m.group(1)
                        if cur == 'pre':
                            sec['pre'].append(m.group(2))
                        else:
                            p, t = m.group(2).split('##', 1)
                            sec[cur].append([int(p) if cur in ('loop', 'body') else p.strip(), t])
                    elif cur in ('hint', 'loop', 'body') and x.startswith('+'):
                        sec[cur][-1][1] += '\n' + x[1:]
                    elif cur == 'pre' and x.startswith('+'):
                        sec['pre'].append(x[1:])
                    else:
                        cur = 'c'
                        sec['c'].append(x)
                    i += 1
                g = a.get('group', group)
                self.names.setdefault(a['name'], []).append((g, a['impl']))
                owner = (g, a['impl'] if a['impl'] != 'fn' else a['crate'], a['name'], 'exec')
                o.add('// EXTRACTED %s %s' % owner[1:3])
                o.add(self.fn(a['crate'], a['impl'], a['name'], owner, sec, a), owner)
            elif st.startswith('//@') and self.directive(st, group):
                pass
            elif st.startswith('//@closure '):
                # //@closure NAME : the method `call` of the capture struct, body taken from the closure
                n = st.split()[1]
                pending.append((len(o.lines), n))
                o.add('//@@closure ' + n)
            else:
                m = re.match(r'(?:pub |open |closed |broadcast |uninterp )*(?:proof |exec )?fn (\w+)', st)
                if m:
                    self.names.setdefault(m.group(1), []).append((group, ''))
                o.add(l, (group, 'spec', 'lemmas', 'proof') if st else None)
            i += 1
        for at, n in pending:
            h = [x for x in self.hoisted if x[0] == n]
            if h:
                _, param, body, owner = h[0]
                o.lines[at] = 'fn call(self, %s: &mut [u8]) { %s }' % (param, ' '.join(body.split('\n')))
                o.owner[at] = owner
            else:
                o.lines[at] = '#[verifier::external_body] fn call(self, b: &mut [u8]) { unimplemented!() }'
        if self.auto is not None:
            have = set(re.findall(r'\b(?:const|fn|struct|enum|static)\s+(\w+)', o.text()))
            todo = [l for l, w in zip(o.lines, o.owner) if w and w[3] == 'exec']
            out = []
            while todo:
                for n in re.findall(r'(?<![\w:.])[A-Z][A-Z0-9_]*\b(?!\s*(?:::|\())', todo.pop()):
                    if n not in have and n in self.env.exprs and self.consttype.get(n) in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32'):
                        have.add(n)
                        s_, i_, j_, _ = self.env.exprs[n]
                        e = s_.slice(i_, j_ - 1)
                        out.append('pub const %s: %s = %s;' % (n, self.consttype[n], e))
                        todo.append(e)
            o.lines[self.auto] = ' '.join(' '.join(out).split('\n'))
        self.text = o.text()
        return self.text

    def module_group(self, module, fn):
        """the property a function or lemma of the generated crate belongs to, or None"""
        seg = fn.split('::')
        c = self.names.get(seg[-1], [])
        gs = {g for g, w in c}
        if len(gs) > 1:
            c2 = [(g, w) for g, w in c if any(x and re.search(r'\b%s\b' % re.escape(x), w) for x in seg[:-1])]
            gs = {g for g, w in c2} or {c[0][0]}
        return sorted(gs)[0] if gs else None
