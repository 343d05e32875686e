"""Mechanical extraction of Rust text for the verifier.

Every exec function handed to Verus is a slice of rustc's macro expansion of /repo with
only these edits:
  E1 to_be_bytes/from_be_bytes        -> shim methods carrying a contract
  E2 core::cmp::{min,max} (on usize)  -> shim functions carrying a contract
  E3 constant expressions in array lengths / size_of::<T>() -> their value
     (size_of read off the compiled crate)
  E4 attributes, doc comments, visibility of fields
  E5 `for x in A.iter_mut().take(N) {..}`, `for x in A.iter().take(N)`, `for i in 0..N`
     -> index loop with a loop invariant (the only rewriting of control flow)
  E7 `TpmRcError::X.into()` -> `TpmRcError::X` (identity conversion; the functions return TpmRcResult)
  E8 `[T::default(); N]` -> the vstd function Verus itself desugars it to
  E6 AsRef<[u8]> -> shim trait with a precondition; unsafe impl Discriminant -> contract
"""
import re
from rustsrc import Src, OPEN, toks_text

INT = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}


class NoEval(Exception):
    pass


class Env:
    """integer constants: NAME, Type::NAME; size_of table"""
    def __init__(self, size_of):
        self.size_of = size_of
        self.exprs = {}   # key -> (src, i, j, selfty)
        self.cache = {}

    def add(self, key, src, i, j, selfty=None):
        self.exprs.setdefault(key, (src, i, j, selfty))

    def get(self, key):
        if key in self.cache:
            v = self.cache[key]
            if v is None:
                raise NoEval(key)
            return v
        if key not in self.exprs:
            raise NoEval(key)
        self.cache[key] = None
        s, i, j, st = self.exprs[key]
        v = self.eval(s, i, j, st)
        self.cache[key] = v
        return v

    def eval(self, src, i, j, selfty=None, loc=None):
        p = _P(self, src, i, j, selfty, loc)
        v = p.expr(0)
        if p.i != j:
            raise NoEval(src.slice(i, j - 1))
        return v


PREC = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6, '<<': 7, '>>': 7, '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}


class _P:
    def __init__(self, env, src, i, j, selfty, loc=None):
        self.env, self.src, self.i, self.j, self.selfty = env, src, i, j, selfty
        self.loc = loc or {}
        self.T = src.toks

    def peek(self, k=0):
        return self.T[self.i + k].t if self.i + k < self.j else None

    def op(self):
        t = self.peek()
        if t in ('<', '>') and self.peek(1) == t and self.T[self.i].b == self.T[self.i + 1].a:
            return t + t, 2
        return t, 1

    def expr(self, lvl):
        v = self.unary()
        while True:
            t = self.peek()
            if t == 'as':
                self.i += 1
                ty = self.peek()
                if ty not in INT:
                    raise NoEval('cast')
                self.i += 1
                v &= (1 << INT[ty]) - 1
                continue
            o, n = self.op()
            if o in PREC and PREC[o] > lvl:
                self.i += n
                r = self.expr(PREC[o])
                if o == '+': v += r
                elif o == '-': v -= r
                elif o == '*': v *= r
                elif o == '/':
                    if r == 0: raise NoEval('div0')
                    v //= r
                elif o == '%':
                    if r == 0: raise NoEval('div0')
                    v %= r
                elif o == '|': v |= r
                elif o == '&': v &= r
                elif o == '^': v ^= r
                elif o == '<<': v <<= r
                elif o == '>>': v >>= r
                elif o in ('<', '>', '<=', '>=', '==', '!='):
                    v = int({'<': v < r, '>': v > r, '<=': v <= r, '>=': v >= r, '==': v == r, '!=': v != r}[o])
                else: raise NoEval('op')
                continue
            return v

    def unary(self):
        t = self.peek()
        if t == '-':
            self.i += 1
            return -self.unary()
        v = self.atom()
        while self.peek() == '.':
            n = self.peek(1)
            if n == '0':
                self.i += 2
            elif n in ('get', 'into') and self.peek(2) == '(' and self.peek(3) == ')':
                self.i += 4
            elif n in ('div_ceil', 'pow') and self.peek(2) == '(':
                e = self.src.match[self.i + 2]
                a = self.env.eval(self.src, self.i + 3, e, self.selfty, self.loc)
                self.i = e + 1
                v = -(-v // a) if n == 'div_ceil' else v ** a
            else:
                raise NoEval('method ' + str(n))
        return v

    def block(self):
        e = self.src.match[self.i]
        loc = dict(self.loc)
        k = self.i + 1
        while self.T[k].t == 'let':
            q = k
            while self.T[q].t != ';':
                q = self.src.match[q] + 1 if self.T[q].t in OPEN else q + 1
            eq = k
            while self.T[eq].t != '=':
                eq += 1
            loc[self.T[k + 1].t] = self.env.eval(self.src, eq + 1, q, self.selfty, loc)
            k = q + 1
        v = self.env.eval(self.src, k, e, self.selfty, loc)
        self.i = e + 1
        return v

    def atom(self):
        t = self.peek()
        if t is None:
            raise NoEval('end')
        k = self.T[self.i].k
        if k == 'num':
            self.i += 1
            return num(t)
        if t == '(':
            e = self.src.match[self.i]
            v = self.env.eval(self.src, self.i + 1, e, self.selfty, self.loc)
            self.i = e + 1
            return v
        if t == '{':
            return self.block()
        if t == 'if':
            q = self.i + 1
            while self.T[q].t != '{':
                q = self.src.match[q] + 1 if self.T[q].t in ('(', '[') else q + 1
            c = self.env.eval(self.src, self.i + 1, q, self.selfty, self.loc)
            self.i = q
            a = self.block()
            if self.peek() != 'else':
                raise NoEval('if')
            self.i += 1
            b = self.atom() if self.peek() == 'if' else self.block()
            return a if c else b
        if k == 'id' and t in self.loc and self.peek(1) != '::':
            self.i += 1
            return self.loc[t]
        if k == 'id':
            path = [t]
            self.i += 1
            while self.peek() == '::':
                if self.peek(1) == '<':
                    if path[-1] == 'size_of':
                        d = 0
                        e = self.i + 1
                        while True:
                            if self.T[e].t == '<': d += 1
                            elif self.T[e].t == '>':
                                d -= 1
                                if d == 0: break
                            e += 1
                        ty = toks_text(self.src, self.i + 2, e)
                        if self.T[e + 1].t == '(' and self.T[e + 2].t == ')':
                            self.i = e + 3
                            if ty == 'Self' and self.selfty:
                                ty = self.selfty
                            if ty in self.env.size_of:
                                return self.env.size_of[ty]
                    raise NoEval('generic')
                path.append(self.peek(1))
                self.i += 2
            if path[0] == 'Self' and self.selfty:
                path[0] = self.selfty
            if self.peek() == '(':
                # constructor / Self::new
                e = self.src.match[self.i]
                if path[-1] in ('new', 'from_bits_retain') or path[-1][:1].isupper():
                    v = self.env.eval(self.src, self.i + 1, e, self.selfty, self.loc)
                    self.i = e + 1
                    return v
                raise NoEval('call')
            if len(path) == 2 and path[0] in INT and path[1] == 'MAX':
                return (1 << INT[path[0]]) - 1 if path[0][0] == 'u' else (1 << (INT[path[0]] - 1)) - 1
            for key in ('::'.join(path[-2:]), path[-1]) if len(path) > 1 and (path[-2][:1].isupper() or path[-2] in INT) else (path[-1],):
                if key in self.env.exprs:
                    return self.env.get(key)
            raise NoEval('::'.join(path))
        raise NoEval(t)


def num(t):
    t = t.replace('_', '')
    m = re.match(r'(0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|\d+)(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)?$', t)
    if not m:
        # hex literals ending in a suffix that looks like digits
        m2 = re.match(r'(0[xX][0-9a-fA-F]+?)(u8|u16|u32|u64|usize|i8|i16|i32|i64)$', t)
        if not m2:
            raise NoEval(t)
        return int(m2.group(1), 0)
    s = m.group(1)
    return int(s, 0) if s[:1] == '0' and len(s) > 1 and s[1] in 'xXbBoO' else int(s)


class Edits:
    """replacements on byte ranges of a source text"""
    def __init__(self):
        self.e = []

    def rep(self, a, b, new):
        self.e.append((a, b, new))

    def apply(self, text, a, b):
        out = []
        p = a
        for x, y, n in sorted(self.e, key=lambda t: (t[0], t[1])):
            if x < p or y > b:
                if x < a or y > b:
                    continue
                raise ValueError('overlapping edits')
            out.append(text[p:x])
            out.append(n)
            p = y
        out.append(text[p:b])
        return ''.join(out)


def err_edit(s, k, ed):
    """E11, E12 at token k"""
    T = s.toks
    if T[k].t == 'map_err' and T[k - 1].t == '.' and T[k + 1].t == '(':
        e = s.match[k + 1]
        if T[k + 2].t == '|' and T[k + 4].t == '|' and all(x.k == 'id' or x.t == '::' for x in T[k + 5:e]):
            ed.rep(T[k].a, T[k].b, 'map_err_to')
            ed.rep(T[k + 2].a, T[k + 4].b, '')
        elif re.fullmatch(r'(\w+::)*(into|from)', toks_text(s, k + 2, e)):
            ty = re.sub(r'(::)?\w+$', '', toks_text(s, k + 2, e).replace(' ', ''))
            ed.rep(T[k].a, T[k].b, 'map_err_into' + ('::<%s>' % ty if ty and ty.split('::')[-1] not in ('Into', 'From') and T[e - 1].t == 'from' else ''))
            ed.rep(T[k + 2].a, T[e - 1].b, '')


def panic_end(src, k):
    """E15: k starts `[::]core::panicking::X(..)`, what panic!, assert! and the like expand to: its last token; or AssertKind::X of assert_eq!"""
    T = src.toks
    if T[k].t == '::' and T[k + 1].t in ('core', 'std') and T[k + 3].t == 'panicking' and T[k + 4].t == '::':
        if T[k + 6].t == '(':
            return src.match[k + 6]
        if T[k + 5].t == 'AssertKind' and T[k + 6].t == '::':
            return k + 7
    return None


def std_edits(src, i, j, env, selfty, ed):
    """E1-E4 on tokens [i, j)"""
    T = src.toks
    k = i
    while k < j:
        t = T[k]
        if t.t == '#' and T[k + 1].t in ('[', '!'):
            e = src.match[k + 1 if T[k + 1].t == '[' else k + 2]
            ed.rep(t.a, T[e].b, '')
            k = e + 1
            continue
        e = panic_end(src, k)
        if e is not None:
            ed.rep(t.a, T[e].b, 'crate::shim::panic_()' if T[e].t == ')' else '()')
            k = e + 1
            continue
        if t.k == 'id':
            if t.t == 'into' and T[k - 1].t == '.' and T[k + 1].t == '(' and T[k + 2].t == ')' and T[k - 3].t == '::' and T[k - 4].t == 'TpmRcError':
                ed.rep(T[k - 1].a, T[k + 2].b, '')
                k += 3
                continue
            if t.t in ('to_be_bytes', 'from_be_bytes'):
                ed.rep(t.a, t.b, t.t + '_')
            elif t.t in ('min', 'max') and T[k + 1].t == '(' and T[k - 1].t != '.':
                # walk back over a path  core::cmp::min
                q = k
                while T[q - 1].t == '::' and T[q - 2].k == 'id':
                    q -= 2
                if T[q - 1].t == '::':
                    q -= 1
                head = toks_text(src, q, k + 1).lstrip(':')
                if head in ('min', 'max', 'core::cmp::min', 'core::cmp::max', 'cmp::min', 'cmp::max', 'std::cmp::min', 'std::cmp::max'):
                    ed.rep(T[q].a, t.b, 'crate::shim::' + t.t)
            elif t.t == 'size_of' and T[k + 1].t == '::':
                q = k
                while T[q - 1].t == '::' and T[q - 2].k == 'id':
                    q -= 2
                p = _P(env, src, k, j, selfty)
                try:
                    v = p.atom()
                    ed.rep(T[q].a, T[p.i - 1].b, str(v) + 'usize')
                    k = p.i
                    continue
                except NoEval:
                    pass
        elif t.t == '[':
            e = src.match[k]
            # top level `;` => array type or repeat expression
            q = k + 1
            semi = None
            while q < e:
                if T[q].t in OPEN:
                    q = src.match[q]
                elif T[q].t == ';':
                    semi = q
                q += 1
            if semi is not None:
                try:
                    v = env.eval(src, semi + 1, e, selfty)
                    std_edits(src, k + 1, semi, env, selfty, ed)
                    if T[semi - 1].t == ')' and T[semi - 3].t == 'default':
                        ed.rep(t.a, t.b, 'vstd::array::array_fill_for_copy_types::<_, %d>(' % v)
                        ed.rep(T[semi].a, T[e].b, ')')
                    else:
                        ed.rep(T[semi + 1].a, T[e - 1].b, str(v))
                    k = e + 1
                    continue
                except NoEval:
                    pass
        k += 1


def simple_len_expr(src, i, j):
    return src.slice(i, j - 1)
