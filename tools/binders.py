"""The contracts name the parameters and locals of the functions they are attached to.  Renaming one is no change of behaviour:
the names the contracts were written against are recorded in spec/binders.json (VERIF_RECORD_BINDERS=1 while running the
checks on the tree they were written for), and where a function of the tree under check has another name at the same position,
the contract text follows it."""
import difflib, json, os, re
from rustsrc import OPEN

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def binders(s, fn):
    """the names a function binds, in order: (parameters, locals)"""
    T = s.toks
    b0, b1 = fn.body
    k = fn.kw + 2
    if T[k].t == '<':
        d = 0
        while True:
            d += {'<': 1, '>': -1}.get(T[k].t, 0)
            k += 1
            if d == 0:
                break
    ps, e = [], s.match[k]
    q = k + 1
    while q < e:
        if T[q].k == 'id' and T[q + 1].t == ':' and T[q - 1].t in ('(', ',', 'mut'):
            ps.append(T[q].t)
        q = s.match[q] + 1 if T[q].t in OPEN else q + 1
    ls = []
    for q in range(b0, b1):
        if T[q].t in ('let', 'for'):
            j = q + 1
            while j < b1 and T[j].t not in ('=', ':', ';', 'in', '{'):
                if T[j].k == 'id' and T[j].t not in ('mut', 'ref', '_') and T[j].t[0].islower() and T[j + 1].t not in ('(', '::', '{'):
                    ls.append(T[j].t)
                j += 1
    return ps, ls


_rec = None


def renames(template, owner, now):
    """(parameters, all): old name -> new name: the names the contracts were written against (spec/binders.json) and those of this tree, by position"""
    global _rec
    f = os.path.join(SPEC, 'binders.json')
    key = ' '.join((template,) + tuple(owner[1:3]))
    if _rec is None:
        _rec = json.load(open(f)) if os.path.exists(f) else {}
    if os.environ.get('VERIF_RECORD_BINDERS'):
        if any(now):
            _rec[key] = now
        json.dump(_rec, open(f, 'w'), indent=0, sort_keys=True)
        return {}, {}
    m, pm = {}, {}
    for i, (old, new) in enumerate(zip(_rec.get(key, ([], [])), now)):
        for op, a, b, c, d in difflib.SequenceMatcher(None, old, new, False).get_opcodes():
            if op == 'replace' and b - a == d - c:
                for x, y in zip(old[a:b], new[c:d]):
                    m.setdefault(x, y)
                    if i == 0:
                        pm[x] = y
    allnow = set(now[0]) | set(now[1])
    return tuple({x: y for x, y in d.items() if x != y and x not in allnow} for d in (pm, m))


def rename(text, m):
    if not m:
        return text
    return re.sub(r'(?<!\w)(?<!(?<!\.)\.)(%s)\b(?!\s*\()' % '|'.join(map(re.escape, m)), lambda x: m[x.group(1)], text)
