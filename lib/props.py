import spec
from vlib import *


def raw_id(l):
    p = l.split('-')
    assert len(p) <= 2
    enc = lambda x: int.from_bytes(x.encode(), 'little')
    return enc(p[0]), enc(p[1]) if len(p) > 1 else 0


def intl_crate():
    gen = [spec.RUST_HEAD]
    for kind in ('cardinal', 'ordinal'):
        locs, sets = spec.locale_sets(kind)
        for k, rs in enumerate(sets):
            gen.append(spec.rust_ruleset('%s_%d' % (kind, k), rs))
        gen.append('pub static %s: &[(&str, fn(&O) -> u8)] = &[%s];' % (
            kind.upper(), ', '.join('("%s", %s_%d)' % (l, kind, k) for l, k in locs)))
        gen.append('pub static IDS_%s: &[(u64, u64)] = &[%s];' % (kind.upper(), ', '.join('(%d, %d)' % raw_id(l) for l, k in locs)))
    return Crate('intl', {'src/spec_gen.rs': '\n'.join(gen) + '\n'})


def cldr_texts(vers=(37,)):
    """distinct CLDR rule texts, shortest first"""
    out = set()
    for ver in vers:
        for kind in ('cardinal', 'ordinal'):
            d = json.load(open(os.path.join(ROOT, 'spec', '%ss_%d.json' % (kind, ver))))
            for rules in d['supplemental']['plurals-type-' + kind].values():
                out |= set(rules.values())
    return sorted(out, key=lambda t: (len(t), t))


def rust_str(t):
    return '"' + t.replace('\\', '\\\\').replace('"', '\\"') + '"'


def parser_crate():
    return Crate('parser', {'src/spec_gen.rs': 'pub static TEXTS: &[&str] = &[%s];\n' % ',\n'.join(rust_str(t) for t in cldr_texts((37, 33)))})


FLOAT_STUBS = ['float_parsed&FromStr8from_str=stub_f64_from_str', 'fmt5floatd&7Display3fmt=stub_f64_display',
               'fmt5floatf&7Display3fmt=stub_f32_display', 'fmt5floatd&5Debug3fmt=stub_f64_debug',
               'fmt5floatf&5Debug3fmt=stub_f32_debug']
A_PARSE = ('f64::from_str of the standard library is replaced by an exact model (correctly rounded integers; fractions as decimals '
           'that are ordered and compared exactly, valid up to 15 significant digits)')
A_SHOW = 'Display of f64/f32 is replaced by a model that yields the shortest decimal text of the number under test'


def rule_check(ck, kind):
    n = spec.validate(kind)
    ck.extra['oracle_samples_checked'] = n
    locs, sets = spec.locale_sets(kind)
    ck.extra['locales'] = len(locs)
    ck.extra['distinct_rule_sets'] = len(sets)
    cr = intl_crate()
    kk = 0 if kind == 'cardinal' else 1

    def describe(r, c):
        return '%s locale %s' % (kind, locs[r['arg'] % 1000][0])
    vs = (4, 6, 9, 12) if ck.tier == 'quick' else tuple(range(2, 14))
    rs = ck.run(cr, [('h_rule', v * 10000 + kk * 1000 + j) for v in vs for j in range(len(locs))])
    ck.judge(cr, rs, describe, covers=(1, 2, 3))
    tx = ((1, 0), (3, 0), (6, 0), (10, 0), (19, 0), (1, 1), (2, 2), (1, 4), (6, 3), (1, 9)) if ck.tier == 'quick' else \
        tuple((d, 0) for d in range(1, 20)) + tuple((d, v) for d in (1, 2, 3, 6, 9) for v in (1, 2, 3, 4, 6, 9)) + ((1, 15), (12, 3))
    fl = (0, 1, 2) if ck.tier == 'quick' else (0, 1, 2, 3, 4)
    es = [('h_sel', (100 * d + v) * 10000 + kk * 1000 + j) for d, v in tx for j in range(len(locs))]
    es += [('h_sel_int', kk * 1000 + j) for j in range(len(locs))]
    es += [('h_sel_float', v * 10000 + kk * 1000 + j) for v in fl for j in range(len(locs))]
    rs = ck.run(cr, es, stubs=FLOAT_STUBS)
    ck.judge(cr, rs, describe, covers=(1, 2, 3))
    ck.bounds += ['through the conversions: texts, slices and owned, both signs, of %s (integer digits, fraction digits), every u64 through the unsigned types (32-bit ones below 4294000000), magnitudes below 1024 through all types, floats of 2 integer and %s fraction digits' % (', '.join(map(str, tx)), ', '.join(map(str, fl)))]
    ck.assumptions += [A_PARSE, A_SHOW]
    ck.bounds += ['integers: every u64 value', 'integers written with 1..12 zero fraction digits: every u64 integer part']
    ck.bounds += ['fractions: 1..%d visible fraction digits, integer part below 10^%d' % (v, 15 - v) for v in vs]
    ck.assumptions += ['ready-made operands are mutually consistent (they describe one decimal number)',
                       'CLDR 37 data, copied to /verif/spec, is the reference; its samples are re-checked against the oracle on each run']


def C01(ck):
    rule_check(ck, 'cardinal')


def C02(ck):
    rule_check(ck, 'ordinal')


def C03(ck):
    cr = intl_crate()
    cases = [(d, v) for d in range(1, 20) for v in range(0, 20)]
    if ck.tier == 'quick':
        cases += [(20, 0), (20, 3), (21, 0), (1, 20), (5, 20)]
        own = [(d, v) for d in (1, 2, 3, 6, 12, 19) for v in (0, 1, 2, 5)] + [(20, 0)]
    else:
        cases += [(d, v) for d in range(20, 25) for v in range(0, 20)] + [(d, v) for d in range(1, 25) for v in (20, 21, 22)]
        own = [(d, v) for d in range(1, 21) for v in range(0, 19)]
    cases.sort(key=lambda x: -max(x[0], 1 + x[1]))
    rs = ck.run(cr, [('h_text', 100 * d + v) for d, v in cases], stubs=FLOAT_STUBS, chunk=1)
    ck.judge(cr, rs, covers=(1, 2))
    far = [(30, 0), (70, 0), (300, 0), (1, 30), (2, 70), (1, 300), (40, 40)]
    rs = ck.run(cr, [('h_long', 1000 * d + v) for d, v in far], stubs=FLOAT_STUBS, chunk=1)
    ck.judge(cr, rs, covers=(1, 2))
    rs = ck.run(cr, [('h_owned', 100 * d + v) for d, v in own], stubs=FLOAT_STUBS, chunk=1)
    ck.judge(cr, rs, covers=(1,))
    ck.bounds += ['numerals with %s (integer digits, fraction digits), every digit value, with and without a minus sign' % ('1..19 x 0..19, and (20, 0) (20, 3) (21, 0) (1, 20) (5, 20)' if ck.tier == 'quick' else '1..24 x 0..22'),
                  'long numerals %s of zeros, with any digits at 0 and 9, 1 and 12, 18, 20 or 30 places from the end of either part' % far,
                  'String inputs: %s' % own]
    ck.assumptions += [A_PARSE]


def C04(ck):
    cr = intl_crate()
    q = ck.tier == 'quick'
    n, m, w = (6, 6, 4) if q else (7, 7, 5)
    es = [('h_any', k) for k in range(n, -1, -1)] + [('h_shape', k) for k in range(m, 0, -1)]
    es += [('h_any', 100 + k) for k in range(w + 1)] + [('h_word', 0)]
    es += [('h_any', 100 * m + k) for m in range(2, 8) for k in range(w + 1)]
    df = ((1, 0), (1, 2), (3, 1), (3, 3), (5, 0), (1, 5), (9, 0), (12, 2)) if q else \
        ((1, 0), (1, 2), (3, 1), (3, 3), (5, 0), (1, 5), (9, 0), (12, 2), (6, 6), (12, 0), (1, 8), (15, 0), (2, 12))
    es = [('h_defect', 10000 + 100 * d + v) for d, v in df[::-1]] + es
    wd = df + ((19, 0), (19, 6), (1, 18), (25, 0), (1, 25))
    es += [('h_defect', 10000 * m + 100 * d + v) for m in (2, 3, 4) for d, v in wd]
    rs = ck.run(cr, es, stubs=FLOAT_STUBS, chunk=1)
    ck.judge(cr, rs, covers=(10, 11, 12, 13, 1))
    ck.bounds += ['every ASCII text of 0..%d bytes' % n, 'every text of 1..%d characters over digits . - + e E' % m,
                  'every text of 0..%d ASCII bytes with any one non-ASCII character at any place; every text of 0..%d characters of two, of three, of four bytes' % (w, w),
                  'numerals of %s (integer digits, fraction digits) with any ASCII character, and of these and %s with any other character, put in at any place or over any one character' % (', '.join(map(str, df)), ', '.join(map(str, wd[len(df):]))),
                  'inf, infinity, nan in every spelling of case, with up to two sign characters']
    ck.assumptions += [A_PARSE, 'exponents beyond 25 are modelled by class (huge, infinite, tiny, zero)']


def C05(ck):
    cr = intl_crate()
    rs = ck.run(cr, [('h_int', k) for k in range(10)], chunk=1)
    ck.judge(cr, rs, covers=(1,))
    ck.bounds += ['every value of u8 u16 u32 u64 usize i8 i16 i32 i64 isize (64-bit target)']
    ck.assumptions += ['the minimum of i64 and isize may be refused or converted exactly']


def C06(ck):
    cr = intl_crate()
    cases = [(d, v) for d in range(1, 16) for v in range(0, 15) if d + v <= 15]
    small = [(d, v) for d in range(1, 7) for v in range(0, 6) if d + v <= 6]
    es = [('h_float', 100 * d + v) for d, v in cases] + [('h_float', 10000 + 100 * d + v) for d, v in small] + [('h_float_out', 0)]
    long = [(d, s - d) for s in (16, 17) for d in range(1, 16 if s == 16 else 15)]
    tiny = list(range(4, 65, 3 if ck.tier == 'quick' else 1)) + [100, 200, 250, 300, 308, 320, 324]
    es += [('h_float_big', k) for k in (16, 17, 18, 19, 20)] + [('h_float_big', 100 + k) for k in range(8, 21)]
    es += [('h_float', 100 * d + v) for d, v in long] + [('h_float_tiny', v) for v in tiny] + [('h_float_tiny', 1000 + v) for v in tiny if v <= 36]
    rs = ck.run(cr, es, stubs=FLOAT_STUBS, chunk=2)
    ck.judge(cr, rs, covers=(1,))
    ck.bounds += ['f64, both signs, whose shortest decimal form has (integer, fraction) digits in %s' % cases,
                  '16 and 17 significant digits: %s' % long, 'whole f64 of 16..20 digits and f32 of 8..20 digits below 2^64',
                  'small numbers with 1..4 significant digits down to the fraction digit %s (f32: 36)' % (tiny,),
                  'f32 likewise: %s' % small, 'infinities, NaN and 7 magnitudes from 2^64 up to the largest f64: refused']
    ck.assumptions += [A_PARSE, A_SHOW]


def C07(ck):
    cr = intl_crate()
    es = []
    shapes = []
    for k in (0, 1):
        es.append(('h_list', k))
        for n in (2, 3):
            for reg in (0, 1):
                for ini in range(1, 27):
                    es.append(('h_create', k + 10 * n + 1000 * reg + 100000 * ini))
        more = [(0, 0, 0, 0), (0, 0, 1, 0), (0, 1, 0, 0)]
        for ini in range(1, 27):
            more += [(n, s, r, v, ini) for n in (2, 3) for s in (0, 1) for r in (0, 1, 2) for v in (0, 1, 2)]
            more += [(n, 0, r, 3, ini) for n in (2, 3) for r in (0, 1)]
            more += [(n, 0, r, 0, ini) for n in ((5, 8) if ck.tier == 'quick' else (5, 6, 7, 8)) for r in (0, 1)]
        for x in more:
            n, s, r, v = x[:4]
            ini = x[4] if len(x) > 4 else 0
            es.append(('h_create', k + 10 * n + 100 * s + 1000 * r + 10000 * v + 100000 * ini))
    es = sorted(set(es), key=lambda e: (e[0] != 'h_list', -e[1]))
    rs = ck.run(cr, es)
    ck.judge(cr, rs, covers=(1, 2))
    es = [('h_rule', 60000 + 1000 * k + j) for k, kind in ((0, 'cardinal'), (1, 'ordinal')) for j in range(len(spec.locale_sets(kind)[0]))]
    rs = ck.run(cr, es)
    ck.judge(cr, rs, covers=(1, 2, 3))
    ck.bounds += ['both rule types', 'every language of 2 and 3 letters, with no region and with every 2-letter region',
                  'the same with any script, any numeric region, one variant, in every combination; two variants; undetermined language; languages of 5 and 8 [5..8] letters with and without region',
                  'the rules created for each of the locales select as CLDR prescribes for every u64 integer and fractions of 1..6 digits (the harness of C01 and C02)']
    ck.assumptions += ['the locale sets of CLDR 37 (spec/*.json), without root, are the reference',
                       'identifiers are built from well-formed raw subtags']


def C08(ck):
    cr = intl_crate()
    es = []
    q = ck.tier == 'quick'
    for k, kind in ((0, 'cardinal'), (1, 'ordinal')):
        n = len(spec.locale_sets(kind)[0])
        for j in range(n):
            for d in ((1, 3, 7, 10, 15, 18) if q else range(1, 19)):
                es.append(('h_same_int', d * 10000 + k * 1000 + j))
            for v in ((1, 2, 5) if q else range(1, 11)):
                es.append(('h_same_dec', v * 10000 + k * 1000 + j))
            for d, v in (((2, 2), (4, 0), (1, 3), (1, 1), (3, 6)) if q else ((1, 1), (1, 2), (2, 2), (4, 0), (1, 3), (3, 4), (8, 6))):
                es.append(('h_same_text', (100 * d + v) * 10000 + k * 1000 + j))
            es.append(('h_same_err', k * 1000 + j))
    rs = ck.run(cr, es, stubs=FLOAT_STUBS)
    ck.judge(cr, rs, covers=(1, 2))
    ck.bounds += ['every locale of both types', 'whole numbers of %s digits through up to 17 input types (those that can hold them; floats up to 15 digits)' % ('1, 3, 7, 10, 15 and 18' if q else '1..18'),
                  'decimals of 2 integer and %s fraction digits' % ('1, 2 and 5' if q else '1..10'),
                  'texts of (integer, fraction) digits %s with any leading and trailing zeros, slices and owned, both signs' % ('(2,2) (4,0) (1,3) (1,1) (3,6)' if q else '(1,1) (1,2) (2,2) (4,0) (1,3) (3,4) (8,6)'), 'every ASCII text of 2 bytes; a caller type whose conversion fails']
    ck.assumptions += [A_PARSE, A_SHOW]


def ptext(i):
    return cldr_texts((37, 33))[i]


def C09(ck):
    cr = parser_crate()
    q = ck.tier == 'quick'
    n, w, t = (8, 5, 4) if q else (10, 6, 4)
    es = [('h_arb', k) for k in range(n, -1, -1)] + [('h_arb', 1000 + k) for k in range(n, -1, -1)]
    es += [('h_arb', x + 100 * m + k) for m in range(1, 8) for k in range(w + 1) for x in (0, 1000)]
    es += [('h_tokens', t + 100 * f) for f in range(1, 23)] + [('h_tokens', k) for k in range(1, t)]
    texts = cldr_texts((37, 33))
    if q:
        pick = sorted(range(len(texts)), key=lambda i: -len(texts[i]))
        sel = pick[:2] + pick[2::5]
    else:
        sel = sorted(range(len(texts)), key=lambda i: -len(texts[i]))
        es += [('h_tokens', 5 + 100 * f) for f in range(1, 23)]
    es = [(h, i) for i in sel for h in ('h_replace', 'h_insert')] + es
    es += [('h_winsert', i + 1000 * m) for i in (sel[:1] + sel[1::3] if q else sel) for m in (2, 3, 4)]
    rs = ck.run(cr, es, chunk=1)
    ck.judge(cr, rs, covers=(1, 2, 3))
    ck.bounds += ['every ASCII text of 0..%d bytes, as a rule and as a condition' % n,
                  'every text of 0..%d ASCII bytes with any one non-ASCII character at any place; every text of 0..%d characters of two, of three, of four bytes' % (w, w),
                  'every sequence of 1..%d grammar tokens' % (t if q else 5),
                  '%d of %d CLDR 33/37 rule texts with any one byte replaced by, or joined by, any ASCII byte, or removed; %d of them by any other character' % (len(sel), len(texts), len(sel[:1] + sel[1::3]) if q else len(sel))]


def C10(ck):
    cr = parser_crate()
    q = ck.tier == 'quick'
    texts = cldr_texts((37, 33))
    ws = (1, 2) if q else (1, 2, 3, 5, 9)
    es = [('h_join', n + 10 * r) for n in ((4, 3, 2) if q else (6, 5, 4, 3, 2)) for r in range(5)]
    es += [('h_relation', op + 10 * w + 100 * st) for w in ws for st in (0, 1, 2) for op in range(8)]
    es += [('h_odd', a + 100 * m + 1000 * st + 10000 * k) for a in ((0, 1, 2, 3, 14, 25, 36, 47, 50) if q else [op + 10 * l for op in range(8) for l in range(6) if not (op in (2, 3) and l)])
           for m in (0, 1, 2) for st in (0, 1, 2) for k in (0, 1) if not k or st == 0]
    es += [('h_chain', n) for n in ((8, 12, 21) if q else (8, 12, 21, 33))] + [('h_rlist', n) for n in ((12, 20) if q else (12, 20, 40))]
    es += [('h_cldr', i) for i in range(len(texts) - 1, -1, -1)]
    rs = ck.run(cr, es, chunk=1 if not q else None)
    ck.judge(cr, rs, covers=(1,))
    ck.bounds += ['relations: every operand, operator and modulus spelling, 6 list shapes of up to 8 items, numbers of %s digits, 3 styles of blanks' % (ws,),
                  'whole rules of 4 relations and both sample lists in which any one gap is written with none (where words permit), one or several blanks or tabs, or any one number has 1, 2, 4, 9, 18 or 19 digits',
                  'up to %d relations joined by any mixture of and / or' % (4 if q else 6), 'chains of up to %d relations with up to two joints unlike the others; lists of up to %d items with a range anywhere' % ((21, 20) if q else (33, 40)),
                  'every rule text of CLDR 33 and 37 (%d), every digit of the condition replaced by any digit' % len(texts)]
    ck.assumptions += ['word operators are surrounded by blanks, as in all published data']


def C11(ck):
    cr = parser_crate()
    q = ck.tier == 'quick'
    ns = (1, 2) if q else (1, 2, 3)
    es = [('h_samples', n + 10 * c + 100 * st + 1000 * w) for n in ns for c in (0, 1, 2) for st in (0, 1, 2) for w in (1, 2, 3)]
    es += [('h_slist', n + 100 * w) for w in (1, 2, 3) for n in ((12, 5) if q else (24, 12, 8, 5))]
    es += [('h_number', d + 100 * p) for p in range(7) for d in ((1, 2, 10, 19, 20, 21) if q else range(1, 25))]
    es.sort(key=lambda e: -(e[1] % 10) if e[0] == 'h_samples' else -(e[1] % 100) / 20)
    es += [('h_odd', op + 10 * op + 1000 * st + 10000 * k) for op in ((0, 1) if q else (0, 1, 4, 5)) for st in (0, 1, 2) for k in (0, 1)]
    rs = ck.run(cr, es, chunk=1)
    ck.judge(cr, rs, covers=(1, 2))
    ck.bounds += ['sample lists of %s entries: values and ranges of integers and decimals, both spellings of the ellipsis and none, '
                  'integer, decimal or both lists, with and without a condition, 3 styles of blanks, every digit' % (ns,),
                  'whole rules of 4 relations and both sample lists in which any one gap or any one number differs from the rest',
                  'lists of up to %d entries, any one of which is unlike the others' % (12 if q else 24),
                  'numbers of 1..%d digits in 7 places of a rule' % (21 if q else 24)]
    ck.assumptions += ['fraction digits of a sample are kept by numeric value only (the published type)']


RECORDED_ORDER = ['few', 'many', 'one', 'two', 'zero']


def gen_sets():
    """distinct rule sets of CLDR 33 and 37 -> [(kind, version, rule texts, conditions)]"""
    out = []
    for ver in (37, 33):
        for kind in ('cardinal', 'ordinal'):
            seen = {json.dumps(o[3], sort_keys=True) + o[0] for o in out}
            d = spec.load(kind, ver)
            for loc in sorted(d):
                cs = spec.conds(d[loc])
                key = json.dumps(cs, sort_keys=True) + kind
                if key not in seen:
                    seen.add(key)
                    out.append((kind, ver, {c: t for c, t in d[loc].items() if c != 'other'}, cs))
    return out


def gen_crate():
    gen = [spec.RUST_HEAD]
    rows = []
    for k, (kind, ver, texts, cs) in enumerate(gen_sets()):
        gen.append(spec.rust_ruleset('right_%d' % k, cs))
        gen.append(spec.rust_ruleset('recorded_%d' % k, cs, spec.rust_rel_recorded, RECORDED_ORDER))
        rows.append('(%s, &[%s], right_%d, recorded_%d)' % (
            'true' if kind == 'ordinal' else 'false', ', '.join('("%s", %s)' % (c, rust_str(t)) for c, t in texts.items()), k, k))
    gen.append('pub static SETS: &[(bool, &[(&str, &str)], fn(&O) -> u8, fn(&O) -> u8)] = &[%s];' % ',\n'.join(rows))
    return Crate('gen', {'src/spec_gen.rs': '\n'.join(gen) + '\n'})


def known_classes(prop):
    """class -> description, from known_findings.txt"""
    out = {}
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        m = re.match(r'finding: property=(\w+) class=(\w+) (.*)', line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out


REL_OPS = ['=', 'in', 'is', '!=', 'not in', 'is not', 'within', 'not within']
REL_LISTS = ['a', 'a..b', 'a, b', 'a..b, c', 'a, b..c', 'a..b, c..d', 'a, b, c', 'a..b, c, d..e', 'a, b, c..d, e, f..g, h..j, k']


def rel_class(operand, op, lst, mod):
    items = [(0, 0, '..' in x) for x in REL_LISTS[lst].split(',')]
    return spec.finding(('nivwft'[operand], 10 if mod else None, 'within' if op >= 6 else 'in', op in (3, 4, 5, 7), items))


def C12(ck):
    cr = gen_crate()
    q = ck.tier == 'quick'
    known = known_classes('C12')
    # --- one relation: every operand x modulus x operator x list shape
    cases = []      # (mode 0 entry, mode 1 entry or None, class)
    mods = (0, 1, 2) if q else (0, 1, 2, 3, 4, 7, 8, 9)
    widths = {0: (1, 2, 3), 1: (1,), 2: (2,)} if q else {m: (1, 2, 3, 4, 6) for m in mods}
    for o in range(6):
        for op in range(8):
            for l in range(9):
                if op in (2, 5) and l:
                    continue
                for m in mods:
                    if l > 5 and q and m > 1:
                        continue
                    for w in widths[m] if l <= 5 else (1,):
                        a = o + 10 * op + 100 * l + 1000 * m + 10000 * w
                        k = rel_class(o, op, l, m)
                        cases.append((('h_rel', a), ('h_rel', a + 1000000), k))
    sets = gen_sets()
    for k, (kind, ver, texts, cs) in enumerate(sets):
        kl = spec.set_findings(cs)
        cases.append((('h_set', k), ('h_set', k + 1000), '+'.join(kl) if kl else None))

    def listed(k):
        return k is not None and all(x in known for x in k.split('+'))

    def describe(r, c):
        a = r['arg']
        if r['entry'] in ('h_rel', 'h_wide'):
            return "relation '%s%s %s %s'" % ('nivwft'[a % 10], ' % m' if a // 1000 % 10 else '', REL_OPS[a // 10 % 10], REL_LISTS[a // 100 % 10])
        if r['entry'] == 'h_set':
            return '%s rule set of CLDR %d: %s' % (sets[a % 1000][0], sets[a % 1000][1], sets[a % 1000][2])
        return ''
    plain = [c for c in cases if not listed(c[2])]
    rec = [c for c in cases if listed(c[2])]
    rs = ck.run(cr, [c[0] for c in plain])
    ck.judge(cr, rs, describe, covers=(1,))
    # recorded defects: exactly the recorded behaviour, or the right one
    rs = ck.run(cr, [c[1] for c in rec], stop_on_cex=False)
    hit, again, fine = set(), [], []
    by = {(r['entry'], r['arg']): r for r in rs}
    for c in rec:
        r = by.get(c[1])
        if r is None:
            continue
        if r['cex']:
            again.append(c)
        else:
            fine.append(r)
            hit |= set(c[2].split('+'))
    ck.judge(cr, fine, describe)
    if again:
        ck.res = [r for r in ck.res if not r['cex']]
        rs = ck.run(cr, [c[0] for c in again])
        ck.judge(cr, rs, describe)
    for k in sorted(hit):
        ck.known.append('class=%s %s' % (k, known[k]))
    ck.extra['relations_with_recorded_defects'] = len(rec)
    # --- long numbers
    es = []
    for o, ws in ((0, (10, 15)), (1, (5, 10, 15, 19, 20)), (4, (10, 12)), (5, (10, 12))):
        for op in range(8):
            for l in ((0, 1, 3) if q else range(6)):
                for m in ((0,) if q else (0, 1, 5)):
                    if rel_class(o, op, l, m) is None and not (op in (2, 5) and l):
                        es += [('h_wide', o + 10 * op + 100 * l + 1000 * m + 10000 * w) for w in ws]
    rs = ck.run(cr, es)
    ck.judge(cr, rs, describe, covers=(1,))
    # --- relations joined, categories
    es = [('h_join', n + 10 * r) for n in ((4, 3, 2) if q else (6, 5, 4, 3, 2)) for r in range(7)] + [('h_cats', 0), ('h_cats', 1)]
    rs = ck.run(cr, es, chunk=1)
    ck.judge(cr, rs, describe, covers=(1,))
    ck.bounds += ['one relation: every operand, operator, 9 list shapes (up to 7 items), modulus absent or of %s digits (7-9: 10, 100, 1000000), values of %s digits, every digit' % (mods, sorted(set(x for v in widths.values() for x in v))),
                  'one relation with values of 10 and 15 (n), 5, 10, 15, 19 and 20 (i), 10 and 12 (f, t) digits, against every u64 resp. every number of so many digits',
                  'the %d distinct rule sets of CLDR 33 and 37' % len(sets),
                  '2..%d relations joined by any mixture of and / or' % (4 if q else 6),
                  'every nonempty set of the five categories with disjoint rules',
                  'numbers: integers up to 2^53, with up to 15 zero fraction digits; fractions of 1..4 digits with an integer part up to 10^14']
    ck.assumptions += ['the generated text is read by an interpreter of the Rust expressions a generator can be expected to emit '
                       '(harness/gen/src/interp.rs), executed symbolically after the generator on the same path',
                       'relations of the classes in known_findings.txt do exactly what is recorded there, or the right thing']


def C13(ck):
    cr = gen_crate()
    q = ck.tier == 'quick'
    es = [('h_table', 1 + 10 * a) for a in range(8)] + [('h_table', 0), ('h_table', 100000)]
    es += [('h_table', 2 + 10 * a + 100 * b + 100000 * r) for a in range(8) for b in range(8) for r in (0, 1)]
    es += [('h_table', 1000001 + 10 * a) for a in range(8)] + [('h_table', 2 + 10 * a + 100 * b + 1000000 * r) for a, b in ((0, 0), (2, 0), (0, 2), (4, 2), (1, 3)) for r in (1, 2, 9)]
    three = [(0, 0, 0), (0, 1, 0), (0, 2, 0), (2, 2, 0), (2, 2, 2), (3, 2, 0), (1, 6, 0), (0, 5, 2), (4, 3, 0)] if q else \
        [(a, b, c) for a in range(8) for b in range(a + 1) for c in range(b + 1)]
    es += [('h_table', 3 + 10 * a + 100 * b + 1000 * c) for a, b, c in three]
    es += [('h_files', w + 10 * c) for w in (1, 2, 3) for c in range(8)] + [('h_files', w + 10 * c) for w in (4, 6, 7, 9) for c in (0, 3)]
    es += [('h_many', n + 100 * k) for n, k in ((10, 0), (11, 5), (20, 20), (21, 3), (30, 17), (40, 33))]
    es += [('h_many', n + 100 * k) for n in (20, 25, 50, 70) for k in (0, 10, n // 2, n)] if not q else []
    es += [('h_key', k) for k in (2, 3)] + [('h_key', 100 + k) for k in (2, 3, 4)] + [('h_key', 200 + k) for k in (2, 3)]
    if not q:
        es += [('h_table', 4), ('h_table', 2224), ('h_table', 14), ('h_table', 6664)]
    es += [('h_layout', k) for k in ((0, 5, 10, 15, 18, 23, 33, 52) if q else range(64))]
    es.sort(key=lambda e: -(e[1] % 10))
    rs = ck.run(cr, es, chunk=1)
    ck.judge(cr, rs, covers=(1,))
    ck.bounds += ['%d layouts of a resource (blanks, unused members, escapes) x every order of its members' % (8 if q else 64), '1 and 2 locales of every pair of 8 shapes (ll, lll, ll-RR, ll-Ssss, ll-Ssss-RR, ll-DDD, lll-RR, lllll), every letter, with and without root; locales with no category but other',
                  '%d combinations of 3 locales' % len(three), 'tables of %s locales, one of which has any letters' % ('11..41' if q else '11..71'), 'versions of 1..3, 5, 10, 12 and 18 digits; 8 ways to spread the two kinds over 1..3 files',
                  'keys in any case and with either separator: 2 and 3 letters, ll-??, ll-???, ll-????, ll-Ssss-??, ll-Ssss-???']
    ck.assumptions += ['und and variants are outside (the generated table has no form for them)', 'no locale is given twice']


def C14(ck):
    cr = gen_crate()
    q = ck.tier == 'quick'
    es = [('h_refuse', k + 100 * w) for w in (1, 2, 3) for k in range(22)] + [('h_refuse', k + 100 * w) for w in (10, 19) for k in (0, 3, 6, 21)]
    es += [('h_key', k) for k in range(0, 5)] + [('h_key', 100 + k) for k in range(0, 6)] + [('h_key', 200 + k) for k in range(0, 5)]
    es += [('h_bad_rule', k + 100 * r) for k in ((1, 2, 3, 5, 8) if q else range(1, 13)) for r in (0, 1, 10, 11)]
    es += [('h_bad_rule', k + 100 * r + 10000 * st) for k in ((0, 1, 2, 4) if q else range(0, 8)) for r in (0, 1) for st in range(1, 9) if k or st != 5]
    es += [('h_bad_rule', 100 * r + 90000) for r in (0, 1, 10, 11)]
    es += [('h_broken', k + 10 * w) for k in (0, 1, 2, 3) for w in (0, 1, 2, 3)]
    es += [('h_files', 2 + 10 * c) for c in range(8)] + [('h_files', w + 10 * c) for w in (1, 4, 7, 9) for c in (0, 3)]
    es += [('h_layout', k) for k in (0, 5, 10, 15, 18, 23, 33, 52)] + [('h_table', k) for k in (0, 100000, 100001)] + [('h_many', 2121)]
    if not q:
        es += [('h_key', 106), ('h_key', 205)]
    rs = ck.run(cr, es, chunk=1)
    ck.judge(cr, rs, covers=(1, 2))
    ck.bounds += ['2 and 3 resources with any versions of 1..3, 10 and 19 digits, every way to repeat a kind, no resource, resources without data',
                  'versions with one character that is not a digit',
                  'locale keys: every printable text of 0..4 bytes; aa- and aa-Aaaa- followed by up to 5 bytes',
                  'rule texts of up to %d bytes that start with no operand, or with an operand without an operator, or an operator or modulus without a number, or that go on after a condition with anything but a complete further relation or list item, in any category, locale and kind' % (8 if q else 12),
                  'a resource with any one structural character removed, cut short anywhere, followed by any character, or with a required name misspelt']
    ck.assumptions += ['subtags of 4 to 8 characters in the place of a variant are outside']


CLI_TAIL = '''
pub trait RsymDone {
    fn failed(self) -> bool;
}
impl RsymDone for () {
    fn failed(self) -> bool {
        false
    }
}
impl RsymDone for std::process::ExitCode {
    fn failed(self) -> bool {
        self != std::process::ExitCode::SUCCESS
    }
}
impl<T: RsymDone, E> RsymDone for Result<T, E> {
    fn failed(self) -> bool {
        match self {
            Ok(x) => x.failed(),
            Err(_) => true,
        }
    }
}
pub fn __run() -> bool {
    RsymDone::failed(main())
}
'''


def cli_crate():
    """the tool's own source, as a module"""
    d = os.path.join(REPO, 'make_pluralrules', 'src')
    gen = {'src/cli.rs': open(os.path.join(d, 'main.rs')).read() + CLI_TAIL}
    for f in sorted(os.listdir(d)):
        if f.endswith('.rs') and f not in ('lib.rs', 'main.rs'):
            gen['src/cli/' + f] = open(os.path.join(d, f)).read()
    return Crate('cli', gen)


CLI_STUBS = ['7process&7Command6output=stub_command', '7process&7Command6status=stub_status', '3std7process&7Command5spawn=stub_spawn',
             '2io5stdio6_print=stub_print', '2io5stdio7_eprint=stub_print', '3std7process4exit=stub_exit']


def C15(ck):
    cr = cli_crate()
    q = ck.tier == 'quick'
    es = [('h_cli', n + 10 * sh + 1000 * st + 20000) for n in (1, 2, 3) for sh in range(6) for st in (0, 1, 2, 3)]
    es += [('h_cli', n + 10 * sh + 100 + 1000 * st + 20000) for n, sh in ((1, 0), (2, 1), (3, 2)) for st in (0, 1, 4, 7)]
    es += [('h_cli', n + 10 * sh + 1000 * st + 120000) for n in (1, 2, 3) for sh in (0, 1, 2) for st in (0, 2)]
    es += [('h_cli', n + 40 + 1000 * st + 120000) for n in (1, 3) for st in (1, 3)]
    es += [('h_cli', 1 + 10 * sh + 200 + 1000 * st + 20000) for sh in (0, 1) for st in (2, 5)]
    es += [('h_names', n + 10 * sh + 1000 * st + 10000 * old + 1000000 * nm) for n, sh in ((1, 0), (3, 2)) for nm in range(1, 7) for old, st in ((0, nm % 4), (1, 3))]
    es += [('h_names', n + 60 + 1000 * st) for n, st in ((4, 0), (5, 2), (9, 1))]
    es += [('h_names', n + 10 * sh + 1000 * st + 10000 * old) for n, sh, st in ((1, 0, 0), (3, 2, 3)) for old in (3, 4, 5, 6, 7)]
    es += [('h_names', n + 10 * sh + 1000 * st + 20000 + 10000000 * b) for n, sh, st in ((1, 0, 1), (2, 1, 0), (3, 2, 2)) for b in (1, 2, 3, 4)]
    if not q:
        es += [('h_names', n + 60 + 1000 * st + 20000) for n in (4, 5, 6, 7, 8, 9) for st in (0, 1, 2, 3)]
        es += [('h_names', n + 10 * sh + 1000 * st + 20000 + 1000000 * nm + 10000000 * b) for n, sh in ((1, 0), (2, 1), (3, 2)) for st in (0, 3) for nm in range(7) for b in range(5)]
        es += [('h_names', n + 10 * sh + 100 + 1000 * st + 10000 * old) for n, sh in ((1, 0), (2, 1), (3, 2)) for st in (0, 3, 5) for old in (3, 4, 5, 6, 7)]
        es += [('h_cli', n + 10 * sh + 200 + 1000 * st + 20000) for n, sh in ((2, 1), (2, 2), (3, 2)) for st in (0, 1, 4, 7)]
        es += [('h_cli', 1 + 300 + 1000 * st) for st in (0, 4)]
    es.sort(key=lambda e: -(e[1] // 100 % 10))
    rs = ck.run(cr, es, stubs=CLI_STUBS, chunk=1)

    def describe(r, c):
        return ''
    ck.judge(cr, rs, describe, covers=(1, 2, 3, 4, 5))
    ck.bounds += ['1..3 input files, each there or (the first two) missing, 6 ways to spread the kinds over them, the last version equal or different, every version of two digits and every digit in the rules',
                  '4 ways to write the options, no input or the first one given twice, with and without the plain flag, with and without an older and longer output; an older output as long as the new one with any one byte at three places, one byte longer, one and 501 bytes shorter, empty, the same',
                  'seven sets of names for the inputs and the output; up to 9 inputs; an input that is not UTF-8 (any byte), cannot be opened, or whose reading fails at any read',
                  'the first %d reads and the first %d writes complete, short (1 byte, all but one) or interrupted; creating the output or one write fails' % ((2, 2) if q else (3, 3))]
    ck.assumptions += ['files are a model at the level of the C library calls (harness/cli/src/fsys.rs), the same in the native replay',
                       'starting the formatter is a stub that records the call; what the formatter does to the file is outside, as is what the tool does after it has started one without waiting',
                       'keys of hash maps are fixed']
