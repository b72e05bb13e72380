"""Oracle: the UTS #35 plural rule language, read from the CLDR data by an independent
parser, with its own evaluator (Python, used to validate the oracle on CLDR's samples)
and a code generator (Rust, used as the specification inside the harnesses)."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
CATS = ['zero', 'one', 'two', 'few', 'many', 'other']

TOK = re.compile(r'\s*(?:(\d+)|(\.\.)|(!=|=|%|,)|([a-z]+))')


def tokens(s):
    out, p = [], 0
    s = s.rstrip()
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            raise ValueError('bad rule text %r at %d' % (s, p))
        out.append(m.group(0).strip())
        p = m.end()
    return out


def parse(text):
    """condition -> [[(operand, modulus|None, kind, negated, [(lo, hi)])]]; kind is 'in' or 'within'"""
    t = tokens(text.split('@')[0])
    if not t:
        return []
    p = 0

    def peek():
        return t[p] if p < len(t) else None

    def eat(x=None):
        nonlocal p
        if p >= len(t) or (x is not None and t[p] != x):
            raise ValueError('%r: expected %r at %r' % (text, x, t[p:]))
        p += 1
        return t[p - 1]

    def rel():
        op = eat()
        if op not in 'nivwft':
            raise ValueError(text)
        mod = None
        if peek() in ('%', 'mod'):
            eat()
            mod = int(eat())
        neg, kind = False, 'in'
        o = eat()
        if o == '=':
            pass
        elif o == '!=':
            neg = True
        elif o == 'is':
            if peek() == 'not':
                eat()
                neg = True
        elif o == 'not':
            neg = True
            k = eat()
            kind = {'in': 'in', 'within': 'within'}[k]
        elif o in ('in', 'within'):
            kind = o
        else:
            raise ValueError(text)
        items = []
        while True:
            a = int(eat())
            b = a
            if peek() == '..':
                eat()
                b = int(eat())
            items.append((a, b))
            if peek() == ',':
                eat()
            else:
                break
        return (op, mod, kind, neg, items)

    res = []
    while True:
        conj = [rel()]
        while peek() == 'and':
            eat()
            conj.append(rel())
        res.append(conj)
        if peek() == 'or':
            eat()
        else:
            break
    if p != len(t):
        raise ValueError('%r: trailing %r' % (text, t[p:]))
    return res


class Num:
    """a decimal text with its operands"""

    def __init__(self, s):
        s = s.lstrip('-')
        a, _, b = s.partition('.')
        self.i, self.v, self.f = int(a), len(b), int(b or '0')
        w = b.rstrip('0')
        self.w, self.t = len(w), int(w or '0')


def eval_rel(r, o):
    op, mod, kind, neg, items = r
    if op == 'n':
        x = o.i % mod if mod else o.i
        if kind == 'in':
            ok = o.t == 0 and any(a <= x <= b for a, b in items)
        else:
            ok = any(a <= x and (x < b or (x == b and o.t == 0)) for a, b in items)
    else:
        x = getattr(o, op)
        if mod:
            x %= mod
        ok = any(a <= x <= b for a, b in items)
    return ok != neg


def eval_cond(c, o):
    return any(all(eval_rel(r, o) for r in conj) for conj in c)


def rust_rel(r):
    op, mod, kind, neg, items = r
    x = 'o.i' if op == 'n' else 'o.' + op
    if mod:
        x = '(%s %% %d)' % (x, mod)
    parts = []
    for a, b in items:
        if op == 'n' and kind == 'within':
            parts.append('((%s >= %d) & ((%s < %d) | ((%s == %d) & (o.t == 0))))' % (x, a, x, b, x, b))
        elif a == b:
            parts.append('(%s == %d)' % (x, a))
        else:
            parts.append('((%s >= %d) & (%s <= %d))' % (x, a, x, b))
    s = '(' + ' | '.join(parts) + ')'
    if op == 'n' and kind == 'in':
        s = '((o.t == 0) & %s)' % s
    return ('(!%s)' % s) if neg else s


def finding(r):
    """the class of the recorded defects of the generator this relation falls in (known_findings.txt), or None"""
    op, mod, kind, neg, items = r
    ranged = any(len(it) > 2 and it[2] or it[0] != it[1] for it in items)
    if kind == 'within' and neg:
        return 'K4'
    if op != 'n':
        return None
    if kind == 'within':
        return 'K5' if mod else None
    if mod:
        return 'K2' if ranged else 'K1'
    return 'K3' if neg and ranged else None


def rust_rel_recorded(r):
    """what the generated code is recorded to do for a relation of those classes"""
    op, mod, kind, neg, items = r
    if finding(r) is None:
        return rust_rel(r)
    x = 'o.i' if op == 'n' else 'o.' + op
    m = '(%s %% %d)' % (x, mod) if mod else x
    fr = '(o.f != 0)'
    parts = []
    for a, b in items:
        if kind == 'within' and neg:
            e = op == 'n' and not mod
            lo = '(%s < %d)' % (m, a) if not e else '((%s < %d) & !((%s == %d) & %s))' % (m, a, m, a, fr)
            hi = '(%s > %d)' % (m, b) if not e else '((%s > %d) | ((%s == %d) & %s))' % (m, b, m, b, fr)
            parts.append('(%s & %s)' % (lo, hi))
        elif kind == 'within':
            parts.append('((%s >= %d) & (%s <= %d))' % (m, a, m, b))
        elif a == b:
            parts.append('(%s(%s == %d))' % ('!' if neg else '', m, a))
        else:
            p = '(%s((%s >= %d) & (%s <= %d)))' % ('!' if neg else '', x, a, x, b)
            parts.append(p if mod else '(%s & !%s)' % (p, fr))
    return '(' + (' & ' if neg else ' | ').join(parts) + ')'


def rust_cond(c, rel=rust_rel):
    if not c:
        return 'true'
    return '(' + ' | '.join('(' + ' & '.join(rel(r) for r in conj) + ')' for conj in c) + ')'


def rust_ruleset(name, rules, rel=rust_rel, order=CATS[:5]):
    """rules: {category: condition}; a branch-free function O -> category number"""
    lines = ['#[allow(unused_variables, unused_parens)]', 'pub fn %s(o: &O) -> u8 {' % name]
    expr = '5u8'
    for cat in reversed(order):
        k = CATS.index(cat)
        c = rules.get(cat)
        if c is None:
            continue
        lines.append('    let c%d = %s;' % (k, rust_cond(c, rel)))
        expr = 'sel(c%d, %d, %s)' % (k, k, expr)
    lines.append('    ' + expr)
    lines.append('}')
    return '\n'.join(lines)


RUST_HEAD = '''// generated from the CLDR data; do not edit
#[derive(Clone, Copy)]
pub struct O {
    pub i: u64,
    pub v: u64,
    pub w: u64,
    pub f: u64,
    pub t: u64,
}
#[allow(dead_code)]
#[inline(always)]
fn sel(c: bool, a: u8, b: u8) -> u8 {
    let m = 0u8.wrapping_sub(c as u8);
    (a & m) | (b & !m)
}
'''


def load(kind, ver=37):
    d = json.load(open(os.path.join(HERE, '..', 'spec', '%ss_%d.json' % (kind, ver)), encoding='utf-8'))
    d = d['supplemental']['plurals-type-' + kind]
    out = {}
    for loc, rules in d.items():
        if loc == 'root':
            continue
        r = {}
        for k, text in rules.items():
            c = k.split('-')[2]
            assert c in CATS
            r[c] = text
        out[loc] = r
    return out


def conds(r):
    return {c: parse(t) for c, t in r.items() if c != 'other'}


def classify(rs, o):
    for c in CATS[:5]:
        if c in rs and eval_cond(rs[c], o):
            return c
    return 'other'


def sample_numbers(text):
    for part in re.findall(r'@(?:integer|decimal)([^@]*)', text):
        for item in part.split(','):
            item = item.strip()
            if not item or item in ('…', '...'):
                continue
            if '~' in item:
                a, b = item.split('~')
                nd = len(a.partition('.')[2])
                sc = 10 ** nd
                lo, hi = round(float(a) * sc), round(float(b) * sc)
                for k in range(lo, min(hi, lo + 200) + 1):
                    yield ('%d.%0*d' % (k // sc, nd, k % sc)) if nd else str(k)
            else:
                yield item


def validate(kind, ver=37):
    """the oracle must put every CLDR sample in the category CLDR lists it under"""
    n = 0
    for loc, r in load(kind, ver).items():
        rs = conds(r)
        for c, text in r.items():
            for s in sample_numbers(text):
                n += 1
                got = classify(rs, Num(s))
                if got != c:
                    raise AssertionError('oracle disagrees with CLDR sample: %s %s %s %s' % (loc, c, s, got))
    return n


def locale_sets(kind, ver=37):
    """-> (list of (locale, ruleset number), list of rulesets)"""
    d = load(kind, ver)
    sets, idx, locs = [], {}, []
    for loc in sorted(d):
        rs = conds(d[loc])
        key = json.dumps(rs, sort_keys=True)
        if key not in idx:
            idx[key] = len(sets)
            sets.append(rs)
        locs.append((loc, idx[key]))
    return locs, sets


def set_findings(rs):
    return sorted(set(finding(r) for c in rs.values() for conj in c for r in conj) - {None})


if __name__ == '__main__':
    for k in ('cardinal', 'ordinal'):
        for v in (33, 37):
            l, s = locale_sets(k, v)
            print(k, v, len(l), len(s), validate(k, v))
