"""A small lexer / item splitter for (macro-expanded, rustc pretty-printed) Rust source.

Everything that is emitted for the verifier is a verbatim slice of this text plus
the edits listed by the extractor; nothing is re-printed from an AST.
"""
import re
from dataclasses import dataclass, field

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lcom>//[^\n]*)
 |(?P<bcom>/\*)
 |(?P<rstr>b?r(?P<h>\#*)")
 |(?P<str>b?c?"(?:[^"\\]|\\.)*")
 |(?P<char>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>0[xX][0-9a-fA-F_]+\w*|0[bB][01_]+\w*|0[oO][0-7_]+\w*|\d[\d_]*(?:\.\d[\d_]*)?\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<punct>::|->|=>|\.\.=|\.\.\.|\.\.|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)


@dataclass
class Tok:
    k: str
    t: str
    a: int
    b: int


def lex(src):
    out = []
    i = 0
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            # control / non-ASCII characters (pretty-printed format_args templates)
            out.append(Tok('odd', src[i], i, i + 1))
            i += 1
            continue
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        if k == 'bcom':
            d = 1
            j = i + 2
            while d:
                a, b = src.find('/*', j), src.find('*/', j)
                if b < 0:
                    raise ValueError('unterminated comment')
                if 0 <= a < b:
                    d += 1
                    j = a + 2
                else:
                    d -= 1
                    j = b + 2
            i = j
            continue
        if k == 'rstr':
            end = src.index('"' + m.group('h'), m.end())
            j = end + 1 + len(m.group('h'))
            out.append(Tok('str', src[i:j], i, j))
            i = j
            continue
        j = m.end()
        if k not in ('ws', 'lcom'):
            out.append(Tok(k, m.group(), i, j))
        i = j
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}


class Src:
    def __init__(self, text):
        self.text = text
        self.toks = lex(text)
        self.match = {}
        st = []
        for i, t in enumerate(self.toks):
            if t.k == 'punct':
                if t.t in OPEN:
                    st.append(i)
                elif t.t in (')', ']', '}'):
                    o = st.pop()
                    if OPEN[self.toks[o].t] != t.t:
                        raise ValueError('unbalanced')
                    self.match[o] = i
                    self.match[i] = o

    def slice(self, i, j):
        """text of tokens i..j (inclusive)"""
        return self.text[self.toks[i].a:self.toks[j].b]


@dataclass
class Item:
    src: Src
    kind: str            # mod struct enum union impl trait fn const static type use macro extern
    name: str
    attrs: list          # list of attribute texts
    i0: int              # first token after attributes (visibility included)
    i1: int              # last token (inclusive)
    kw: int = -1         # index of the keyword token
    body: tuple = None   # (open, close) token indices of the item's { }
    trait: str = ''      # impl: trait path text (whitespace-normalised); '' if inherent
    self_ty: str = ''
    generics: str = ''
    children: list = field(default_factory=list)
    path: tuple = ()

    @property
    def text(self):
        return self.src.slice(self.i0, self.i1)

    def auto(self):
        return any('automatically_derived' in a for a in self.attrs)


def norm(s):
    s = re.sub(r'\s+', ' ', s).strip()
    return s


def toks_text(src, i, j):
    """whitespace-free-ish canonical text of tokens [i,j)"""
    out = ''
    prev = None
    for t in src.toks[i:j]:
        if prev and prev.k in ('id', 'num', 'life') and t.k in ('id', 'num', 'life'):
            out += ' '
        out += t.t
        prev = t
    return out


KW = {'mod', 'struct', 'enum', 'union', 'impl', 'trait', 'fn', 'const', 'static', 'type', 'use', 'macro_rules', 'extern'}


def parse_items(src, i, j, path=()):
    """items between token i (inclusive) and j (exclusive)"""
    T = src.toks
    items = []
    while i < j:
        if T[i].t == ';':
            i += 1
            continue
        attrs = []
        while i < j and T[i].t == '#':
            k = i + 1
            if T[k].t == '!':
                k += 1
            e = src.match[k]
            attrs.append(src.slice(i, e))
            i = e + 1
        if i >= j:
            break
        i0 = i
        k = i
        # visibility / qualifiers
        while k < j:
            if T[k].t == 'pub':
                k += 1
                if T[k].t == '(':
                    k = src.match[k] + 1
                continue
            if T[k].t in ('unsafe', 'async', 'default', 'safe', 'auto'):
                k += 1
                continue
            if T[k].t == 'const' and T[k + 1].t in ('fn', 'unsafe', 'extern', 'async'):
                k += 1
                continue
            if T[k].t == 'extern' and T[k + 1].k == 'str' and T[k + 2].t == 'fn':
                k += 2
                continue
            break
        kw = T[k].t
        it = Item(src, kw, '', attrs, i0, i0, k, path=path)

        def until(ch, s):
            """index of first token `ch` at bracket depth 0 from s"""
            q = s
            while q < j:
                if T[q].t in ch:
                    return q
                if T[q].t in OPEN:
                    q = src.match[q] + 1
                    continue
                q += 1
            raise ValueError('until %r' % (ch,))
        if kw in ('mod', 'trait', 'fn', 'struct', 'enum', 'type', 'static', 'const') or (kw == 'union' and T[k + 1].k == 'id'):
            nk = k + 1
            if T[nk].t == 'mut':
                nk += 1
            it.name = T[nk].t
            if kw in ('const', 'static', 'type'):
                e = until(';', k)
                it.i1 = e
            else:
                q = until(('{', ';'), nk + 1)
                if kw == 'fn' or kw in ('mod', 'trait', 'struct', 'enum', 'union'):
                    if T[q].t == '{':
                        it.body = (q, src.match[q])
                        it.i1 = src.match[q]
                    else:
                        it.i1 = q
        elif kw == 'impl':
            q = until('{', k + 1)
            it.body = (q, src.match[q])
            it.i1 = src.match[q]
            s = k + 1
            if T[s].t == '<':
                d = 0
                e = s
                while True:
                    if T[e].t == '<':
                        d += 1
                    elif T[e].t == '>':
                        d -= 1
                        if d == 0:
                            break
                    elif T[e].t in OPEN:
                        e = src.match[e]
                    e += 1
                it.generics = toks_text(src, s, e + 1)
                s = e + 1
            # find `for` at angle depth 0
            e = s
            f = None
            w = q
            d = 0
            while e < q:
                if T[e].t == '<':
                    d += 1
                elif T[e].t == '>':
                    d -= 1
                elif T[e].t == 'for' and d == 0 and T[e + 1].t != '<':
                    f = e
                elif T[e].t == 'where' and d == 0:
                    w = e
                    break
                elif T[e].t in OPEN:
                    e = src.match[e]
                e += 1
            if f is not None:
                it.trait = toks_text(src, s, f)
                it.self_ty = toks_text(src, f + 1, w)
            else:
                it.self_ty = toks_text(src, s, w)
            it.name = it.self_ty
        elif kw in ('use', 'extern'):
            e = until((';', '{'), k)
            if kw == 'use':
                e = k
                while T[e].t != ';':
                    e += 1
                it.i1 = e
            else:
                it.i1 = src.match[e] if T[e].t == '{' else e
        else:
            # macro invocation item or macro_rules
            q = k
            while T[q].t not in OPEN and T[q].t != ';':
                q += 1
            e = src.match[q] if T[q].t in OPEN else q
            if e + 1 < j and T[e + 1].t == ';':
                e += 1
            it.kind = 'macro'
            it.name = kw
            it.i1 = e
        if it.kind in ('mod', 'impl', 'trait') and it.body:
            p2 = path + (it.name,) if it.kind == 'mod' else path
            it.children = parse_items(src, it.body[0] + 1, it.body[1], p2)
        items.append(it)
        i = it.i1 + 1
    return items


def load(text):
    src = Src(text)
    # inner attributes are handled by parse_items' attribute loop
    return src, parse_items(src, 0, len(src.toks))


def walk(items):
    for it in items:
        yield it
        if it.kind == 'mod':
            yield from walk(it.children)
