"""C01..C05: the unicode library."""
import itertools, json
from vp import CheckError

FORMS = ['u8', 'u16', 'u32', 'w']
BOUND = [0, 1, 0x0A, 0x20, 0x41, 0x7E, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xE9, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000,
         0x20AC, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0xBFFF, 0xC000, 0xCFFF, 0xD000, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xF8FF, 0xFDD0,
         0xFEFF, 0xFFEF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF,
         0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xBFFFF, 0xC0000,
         0xFFFFF, 0x100000, 0x10FC00, 0x10FFFE, 0x10FFFF]


def enc(f, cps):
    r = []
    for c in cps:
        if f == 'u8':
            r += list(chr(c).encode('utf-8'))
        elif f == 'u16':
            b = chr(c).encode('utf-16-le')
            r += [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]
        else:
            r.append(c)
    return r


def design(ctx, lo, hi):
    ctx.model_check('UnicodeDesign', f'SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Lo = {lo}\n Hi = {hi}\n')


def rand_cp(r):
    k = r.random()
    if k < .45:
        return r.choice(BOUND)
    if k < .6:
        return r.randrange(0x80)
    if k < .75:
        return r.randrange(0x80, 0x800)
    while True:
        c = r.randrange(0x800, 0x110000)
        if not 0xD800 <= c < 0xE000:
            return c


def c01(ctx):
    if ctx.thorough:
        design(ctx, 0, 0x10FFFF)
    else:
        design(ctx, 0, 0xFFFF)
    exe = ctx.build('driver_unicode', parts=('unicode',), opt='-O0')
    # every code point there is, on its own and in conversions of its whole block
    step = 512
    sw = [dict(op='sweep', a=a, b=a + step - 1) for a in range(0, 0x110000, step)]
    sw += [dict(op='sweep', a=0x110000, b=0x1101FF), dict(op='sweep', a=0x1FFE00, b=0x200100), dict(op='sweep', a=0x7FFFFF00, b=0x7FFFFFFF)]
    ctx.validate('UnicodeTrace', exe, sw, what='every code point, appended and converted', parallel=8)
    r = ctx.rng
    texts = [[]] + [[c] for c in BOUND] + [[a, b] for a in BOUND[::2] for b in BOUND[1::3]]
    for _ in range(3000 if ctx.thorough else 400):
        texts.append([rand_cp(r) for _ in range(r.choice([1, 2, 3, 3, 5, 8, 13, 40]))])
    scripts = []
    for src in FORMS:
        for api in range(6):
            for i in range(0, len(texts), 20):
                part = texts[i:i + 20] if (i // 20) % 3 == api % 3 or ctx.thorough else texts[i:i + 2]
                scripts.append(dict(op='units', src=src, dst=FORMS, api=api, **{'in': [enc(src, t) for t in part]}))
    asc = [[], [0], [127], [1, 2, 3]] + [[r.randrange(128) for _ in range(r.randrange(1, 20))] for _ in range(20)]
    for api in range(6):
        scripts.append(dict(op='units', src='c', dst=FORMS + ['c'], api=api, **{'in': asc}))
        for src in FORMS:
            scripts.append(dict(op='units', src=src, dst=['c'], api=api, **{'in': asc}))
    # long texts
    for i, n in enumerate([600, 1100, 5000] + ([20000] if ctx.thorough else []) + [66000]):
        for k, src in enumerate(FORMS):
            t = [rand_cp(r) or 1 for _ in range(n)] if (i + k) % 2 else [r.randrange(1, 128) if r.random() < .9 else rand_cp(r) or 1 for _ in range(n)]
            scripts.append(dict(op='units', src=src, dst=FORMS if n < 60000 or ctx.thorough else [FORMS[k - 1]], api=(i + k) % 6, **{'in': [enc(src, t)]}))
        t = [r.randrange(1, 128) for _ in range(n)]
        scripts.append(dict(op='units', src='c', dst=FORMS + ['c'] if n < 60000 or ctx.thorough else ['u16'], api=i % 6, **{'in': [t]}))
        scripts.append(dict(op='units', src=FORMS[i % 4], dst=['c'], api=(i + 3) % 6, **{'in': [t]}))
    ctx.validate('UnicodeTrace', exe, scripts, what='conversion of texts between all types', parallel=4)
    # histories of insertions, checked against the sequence model
    ed = []
    for f in FORMS:
        for _ in range(300 if ctx.thorough else 60):
            start = enc(f, [rand_cp(r) for _ in range(r.randrange(4))])
            ops = [[r.randrange(3), rand_cp(r), r.randrange(40)] for _ in range(r.randrange(1, 14))]
            ed.append(dict(op='edit', form=f, ops=ops, **{'in': start}))
        for c in BOUND:
            ed.append(dict(op='edit', form=f, ops=[[0, c, 1], [0, c, 1], [2, c, 0], [1, c, 0]], **{'in': [0x41, 0x42]}))
    ctx.validate('UnicodeTrace', exe, ed, what='insertion histories')
    sz = [dict(op='size', **{'in': [r.randrange(1, 128) for _ in range(n)]}) for n in list(range(0, 40)) + [255, 256, 257]]
    ctx.validate('UnicodeTrace', exe, sz, what='string_size')
    ctx.assumptions += ['wchar_t has 32 bits (this platform)', 'plain char strings are ASCII']


def c02(ctx):
    design(ctx, 0, 0x10FFFF if ctx.thorough else 0x3FFF)
    exe = ctx.build('driver_unicode', parts=('unicode',), opt='-O0')
    r = ctx.rng
    B = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
         0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]
    T = [0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0]
    ins = [[]] + [[a] for a in range(256)]
    ins += [[a, b] for a in range(256) for b in (range(256) if ctx.thorough else T + [0, 0x41, 0xE2, 0xF0, 0xFF])]
    ins += [[a, b, c] for a in B for b in (B if ctx.thorough else T + [0x41, 0xC3]) for c in (B if ctx.thorough else T + [0x41, 0xC3])]
    ins += [[a, b, c, d] for a in ([x for x in B if x >= 0xC0] if ctx.thorough else [0xE0, 0xED, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC])
            for b in T for c in ([0x7F, 0x80, 0xBF, 0xC0] if not ctx.thorough else T) for d in ([0x7F, 0x80, 0xBF, 0xC0] if not ctx.thorough else T)]
    # well-formed text with an ill-formed place in it, truncated everywhere
    for _ in range(4000 if ctx.thorough else 500):
        t = enc('u8', [rand_cp(r) for _ in range(r.randrange(1, 6))])
        k = r.randrange(4)
        if k == 0:
            t = t[:r.randrange(len(t) + 1)]
        elif k == 1:
            t[r.randrange(len(t))] = r.choice(B)
        elif k == 2:
            t.insert(r.randrange(len(t) + 1), r.choice(B))
        else:
            del t[r.randrange(len(t))]
        ins.append(t)
    U16 = [0, 0x41, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFEFF, 0xFFFF]
    in16 = [[]] + [[a] for a in range(0, 65536, 1 if ctx.thorough else 97)] + [[a] for a in range(0xD7F0, 0xE010)]
    in16 += [[a, b] for a in U16 for b in U16] + [[a, b, c] for a in U16 for b in U16[5:13] for c in U16[3:]]
    in16 += [[0x41, a, b, 0x42] for a in U16 for b in U16]
    for a in range(0xD800, 0xDC00, 1 if ctx.thorough else 41):
        in16 += [[a, 0xDC00], [a, 0xDFFF], [a, 0xDBFF], [a, 0xE000], [a]]
    U32 = [0, 0x41, 0x7F, 0x80, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF, 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF,
           0x80000000, 0x8000D800, 0xD7FF, 0xD800, 0xDABC, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFFFFFF, 0xFFFFD800, 0x1D800, 0xFFFFFFFE,
           0x10041, 0x110041, 0x41000041]
    in32 = [[]] + [[a] for a in U32] + [[a, b] for a in U32 for b in U32] + [[0x41, a, 0x42] for a in U32]
    in32 += [[c] for c in range(0xD7F0, 0xE010)]
    # the first ill-formed place may be anywhere in a long text
    for f, lst, bad in (('u8', ins, [[0x80], [0xC0, 0x80], [0xED, 0xA0, 0x80], [0xF4, 0x90, 0x80, 0x80], [0xE2, 0x82], [0xFF]]),
                        ('u16', in16, [[0xD800], [0xDC00], [0xDC00, 0xD800]]), ('u32', in32, [[0xD800], [0x110000]])):
        for n in (1, 2, 7, 15, 16, 17, 31, 32, 33, 64, 257, 1100):
            for b in bad if n < 1000 else r.sample(bad, 2):
                base = [rand_cp(r) for _ in range(n)]
                k = r.randrange(n + 1)
                lst.append(enc(f, base[:k]) + b + enc(f, base[k:]))
                lst.append(enc(f, base) + b)
    scripts = []
    for f, lst in (('u8', ins), ('u16', in16), ('u32', in32), ('w', in32)):
        for i in range(0, len(lst), 40):
            part = lst[i:i + 40]
            dsts = FORMS if ctx.thorough or (i // 40) % 8 == 0 or f in ('u32', 'w') else [FORMS[(i // 40) % 4]]
            api = (i // 40) % 6 if ctx.thorough or (i // 40) % 3 == 0 else (i // 40) % 2
            scripts.append(dict(op='units', src=f, dst=dsts, api=api, iter=1, **{'in': part}))
    ctx.validate('UnicodeTrace', exe, scripts, what='ill-formed and well-formed code unit sequences', parallel=8)
    # invalid code points never get into a string
    ed = []
    badcp = [0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x110041, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0x80000041, 0xFFFFFFFF, 0xFFFFD800, 0x8000FFFF]
    for f in FORMS:
        for c in badcp:
            ed.append(dict(op='edit', form=f, ops=[[0, c, 1], [1, c, 0], [2, c, 0], [0, 0x20AC, 1], [0, c, 2]], **{'in': [0x41, 0x42]}))
        for _ in range(200 if ctx.thorough else 40):
            ed.append(dict(op='edit', form=f, ops=[[r.randrange(3), r.choice(badcp) if r.random() < .5 else rand_cp(r), r.randrange(30)] for _ in range(10)], **{'in': []}))
    ctx.validate('UnicodeTrace', exe, ed, what='inserting invalid code points')
    sw = [dict(op='sweep', a=a, b=a + 511) for a in range(0xD600, 0xE200, 512)] + [dict(op='sweep', a=0x10FE00, b=0x1103FF)]
    ctx.validate('UnicodeTrace', exe, sw, what='code points around the invalid ranges')


def c04(ctx):
    exe = ctx.build('driver_unicode', parts=('unicode',), opt='-O0')
    r = ctx.rng
    A = [0x61, 0xE9, 0x20AC, 0x1F600]
    texts = [list(t) for n in range(0, 4) for t in itertools.product(A, repeat=n)]
    small = [list(t) for n in range(0, 3) for t in itertools.product(A, repeat=n)]
    pairs = [(a, b) for a in (texts if ctx.thorough else texts[::3] + small) for b in small]
    # code points whose encodings share units: near misses
    near = [[0xE9], [0xE8], [0x20AC], [0x20AD], [0x10AC], [0x1F600], [0x1F601], [0x1F200], [0xAC], [0x60], [0x61], [0x10400], [0xF600], [0x169], [0x10061],
            [0x400], [0x1], [0x100], [0x10000], [0]]
    pairs += [(a, b) for a in near for b in near]
    pairs += [(a + b, b) for a in near for b in near] + [(a + b, a) for a in near for b in near]
    for _ in range(3000 if ctx.thorough else 300):
        a = [rand_cp(r) for _ in range(r.randrange(0, 10))]
        k = r.randrange(len(a) + 1)
        b = r.choice([a[:k], a[k:], a, a + [rand_cp(r)], [rand_cp(r)] + a, a[1:-1]])
        if b and r.random() < .3:
            b = list(b)
            b[r.randrange(len(b))] = rand_cp(r)
        pairs.append((a, b))
    sc = [dict(op='affix', a=a, b=b) for a, b in pairs]
    for _ in range(3000 if ctx.thorough else 500):
        a = [r.randrange(97, 100) for _ in range(r.randrange(0, 7))]
        b = [r.randrange(97, 100) for _ in range(r.randrange(0, 4))]
        sc.append(dict(op='affix', a=a, b=b))
    # long ones, differing in one place or none
    for n in [257, 600, 1100, 5000, 66000] + ([20000] if ctx.thorough else []):
        if n == 66000:
            a = [r.randrange(97, 123) for _ in range(n)]
            for b in (a, a[:-1], a[1:]):
                sc.append(dict(op='affix', a=a, b=b))
                for j in (40000, n - 2, 1):
                    c = list(b)
                    c[j] ^= 1
                    sc.append(dict(op='affix', a=a, b=c))
            continue
        for k in range(3):
            a = [rand_cp(r) for _ in range(n)]
            m = r.choice([n, n - 1, n // 2])
            for b in (a[:m], a[n - m:]):
                sc.append(dict(op='affix', a=a, b=b))
                b = list(b)
                j = r.choice([0, m - 1, m // 2]) if k else (m - 1 if b[:1] == a[:1] else 0)
                b[j] = (b[j] ^ 1) if not 0xD7FE <= b[j] < 0xE002 else 65
                sc.append(dict(op='affix', a=a, b=b))
    ctx.validate('UnicodeTrace', exe, sc, what='prefixes and suffixes across encodings', parallel=8)
    raw = []
    bad8 = [[0x80], [0x80, 0x80], [0xBF, 0xBF, 0xBF, 0xBF, 0xBF], [0xC3], [0xE2, 0x82], [0xF0, 0x9F, 0x98], [0x61, 0x80], [0x80, 0x61], [0xE2, 0x82, 0x61],
            [0xFF], [0x61, 0xC3], [0xED, 0xA0, 0x80], [0xF0, 0x9F, 0x98, 0x80], [0xC3, 0xA9], [], [0x61]]
    bad16 = [[0xD800], [0xDC00], [0xDC00, 0xDC00], [0x61, 0xD83D], [0xDE00, 0x61], [0xD83D, 0xDE00], [0x61], [], [0xD83D, 0x61], [0x61, 0xDC00]]
    bad32 = [[0xD800], [0x110000], [0x61], [], [0xFFFFFFFF], [0x61, 0xDC00]]
    L = [('u8', bad8), ('u16', bad16), ('u32', bad32), ('w', bad32)]
    for fa, la in L:
        for fb, lb in L:
            for a in la:
                for b in lb:
                    raw.append(dict(op='affixraw', ea=fa, eb=fb, a=a, b=b))
    ctx.validate('UnicodeTrace', exe, raw, what='prefixes and suffixes of ill-formed text')


def c05(ctx):
    opt = '-O2' if ctx.thorough else '-O1'
    exe = ctx.build('driver_unicode', parts=('unicode',), opt='-O2' if ctx.thorough else '-O0', san=False)
    sc = []

    ctx.foreign_locale()

    def cl(f, lo, hi, radix=0, **kw):
        sc.append(dict(op='class', f=f, lo=lo, hi=hi, radix=radix, **kw))
    for f in ('is_standalone_byte', 'is_leading_byte', 'is_trailing_byte'):
        cl(f, 0, 255)
    for f in ('is_leading_surrogate', 'is_trailing_surrogate'):
        cl(f, 0, 65535)
    wins = [(2**k - 70000, 2**k + 70000) for k in range(22, 32)] + [(2**32 - 200000, 2**32 - 1)]
    wins += [(k * 2**24 + 0xD000, k * 2**24 + 0x11FFFF) for k in (1, 2, 3, 16, 127, 128, 255)]
    for f in ('fits_in_7_bits', 'is_surrogate', 'is_code_point_valid', 'is_whitespace'):
        if ctx.thorough:
            cl(f, 0, 2**32 - 1)
        cl(f, 0, 0x2FFFFF)
        cl(f, 0, 0x3FFF, loc=1)
        for a, b in wins:
            cl(f, a, b)
    for radix in range(2, 37):
        if ctx.thorough and radix in (2, 9, 10, 11, 16, 36):
            cl('is_radix_digit', 0, 2**32 - 1, radix)
        cl('is_radix_digit', 0, 0x10FFFF if ctx.thorough else 0x1FFFF, radix)
        cl('is_radix_digit', 2**31 - 3000, 2**31 + 3000, radix)
        cl('is_radix_digit', 2**32 - 70000, 2**32 - 1, radix)
        cl('is_radix_digit', 0, 0x1FF, radix, loc=1)
    ctx.validate('UnicodeTrace', exe, sc, what='classification', limit=600, total=800, parallel=1)
    design(ctx, 0, 0x3FFF)
    ctx.cov['values_classified'] = sum(s['hi'] - s['lo'] + 1 for s in sc)


def c03(ctx):
    exe = ctx.build('driver_cursor', parts=('unicode',), opt='-O0')
    T = ctx.thorough
    # the generator also model-checks the cursor itself: it never leaves the text
    base = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT TypeOk\nINVARIANT Inverse\nINVARIANT Emit\nCONSTANTS\n'
    alpha = '{97, 233, 8364, 128512}'
    g1 = ctx.generate('CursorGen', base + f' Alphabet = {alpha}\n MaxLen = {3 if T else 2}\n Depth = 3\n MaxStep = 2\n ExactLen = 0\n', workers=1)
    g2 = ctx.generate('CursorGen', base + f' Alphabet = {alpha}\n MaxLen = 7\n Depth = 25\n MaxStep = 7\n ExactLen = 5\n',
                      simulate=4000 if T else 600, depth=27, record=False)
    if not T:
        ctx.rng.shuffle(g1)
        g1 = g1[:4000]
        ctx.rng.shuffle(g2)
        g2 = g2[:1500]
    scripts = []
    forms = ['u8', 'u16', 'u32', 'w', 'c']
    extra = BOUND
    for i, g in enumerate(g1 + g2):
        o = json.loads(g)
        # code points other than the model's four, with the same identity
        if i % 2 and o['txt']:
            m = {}
            for c in o['txt']:
                m.setdefault(c, ctx.rng.choice(extra))
            o['txt'] = [m[c] for c in o['txt']]
        for k in range(2):
            f = forms[(i + k) % 5] if k else ('u8' if i % 2 else 'u16')
            q = dict(o, form=f, rev=(i // 5 + k) % 2, c=(i // 3) % 2)
            if f == 'c':
                q['txt'] = [c % 127 + 1 for c in o['txt']]
            scripts.append(q)
    # long texts and long ways
    for i in range(300 if T else 60):
        n = ctx.rng.choice([255, 256, 257, 300, 1000, 1100, 5000] if T else [255, 256, 257, 300, 300, 1100])
        txt = [ctx.rng.choice(BOUND) for _ in range(n)]
        p, ops = 0, [['at', 0]]
        for _ in range(8):
            if ctx.rng.random() < .6 and p < n:
                k = ctx.rng.choice([n - p, ctx.rng.randrange(n - p + 1)])
                ops.append([ctx.rng.choice(['add', 'plus', 'lplus']), k])
                p += k
            elif ctx.rng.random() < .2:
                ops.append(['over', n - p + ctx.rng.choice([1, 2, 256])])
            else:
                k = ctx.rng.choice([p, ctx.rng.randrange(p + 1)])
                ops.append([ctx.rng.choice(['sub', 'minus']), k])
                p -= k
        f = forms[i % 5]
        if f == 'c':
            txt = [c % 127 + 1 for c in txt]
        scripts.append(dict(txt=txt, ops=ops, form=f, rev=(i // 5) % 2, c=(i // 10) % 2))
    for i, q in enumerate(scripts):
        q['mk'] = (i // 7) % 5
        q['ops'] = [[{'add': 'radd', 'sub': 'rsub'}[o[0]]] + o[1:] if o[0] in ('add', 'sub') and ctx.rng.random() < .25 else o for o in q['ops']]
    ctx.validate('CursorTrace', exe, scripts, invs=('TypeOk',), what='iterator histories', parallel=8)
