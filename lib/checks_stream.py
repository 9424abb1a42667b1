"""C16..C19: text and data streams."""
import itertools, json
from vp import CheckError, StopCheck
from checks_unicode import BOUND, enc, rand_cp
from checks_numbers import limbs, rng_of

FORMS = ['u8', 'u16', 'u32']
ENDS = ['big', 'little']
OUTK = ['oio', 'tio', 'file', 'fileio', 'oout', 'tout']
INK = ['oio', 'tio', 'file', 'fileio', 'oin', 'tin']
SRCS = ['u8', 'u16', 'u32', 'w', 'c']
ITYPES = ['sc', 'uc', 's', 'us', 'i', 'u', 'l', 'ul', 'll', 'ull']
NOSWALLOW = {'Swallow': 'FALSE'}


def tobytes(form, endian, cps):
    b = []
    for u in enc(form, cps):
        w = dict(u8=1, u16=2, u32=4)[form]
        b += list(u.to_bytes(w, endian))
    return b


def with_copies(r, sc):
    """Histories that go on with a copy of the stream, or with what it was moved to, at some point."""
    for q in sc:
        while r.random() < .12 and len(q['ops']) < 40:
            q['ops'] = list(q['ops'])
            k = r.randrange(5)
            if k < 3 or q['what'] == 'data':
                o = dict(op='copy', mv=r.randrange(2), keep=r.randrange(2))
            elif q['what'] == 'out':
                o = dict(op='raw', v=[r.randrange(256) for _ in range(r.choice([0, 1, 2, 4, 12]))])
            else:
                o = dict(op='grab', n=r.choice([0, 1, 2, 4, 4, 8, 12]))
            q['ops'].insert(r.randrange(len(q['ops']) + 1), o)


def design(ctx, pieces, maxlen, maxops, ops, emit=True, record=True):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\n' + ('INVARIANT Emit\n' if emit else '') + \
        'CONSTANTS\n Swallow = FALSE\n Pieces = {%s}\n MaxLen = %d\n MaxOps = %d\n Ops = {%s}\n' % (
            ', '.join(map(str, pieces)), maxlen, maxops, ', '.join('"%s"' % o for o in ops))
    if emit:
        return [json.loads(x) for x in ctx.generate('StreamsDesign', cfg, workers=1)]
    ctx.model_check('StreamsDesign', cfg)


# ------------------------------------------------------------------------------------------------------ output
def text_op(r, src=None, cps=None, how=None):
    src = src or r.choice(SRCS)
    how = r.randrange(3) if how is None else how
    if cps is None:
        cps = [r.randrange(128) if src == 'c' else rand_cp(r) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9]))]
    if src == 'c':
        cps = [c for c in cps if c < 128]
    if how == 2:
        cps = [c for c in cps if c]
    return dict(op='text', src=src, how=how, **{'in': enc(src, cps)})


def flt_op(r):
    t = r.choice(['f', 'd', 'ld'])
    k = r.choice([0, 1, 2, 3, 4, 6, 8])
    bits = 10 if t == 'f' else 30
    return dict(op='flt', t=t, neg=r.randrange(2), int=limbs(r.randrange(1 << r.randrange(1, bits))), num=limbs(r.randrange(1 << k) if k else 0), k=k)


def int_op(r):
    t = r.choice(ITYPES)
    lo, hi = rng_of(t)
    v = r.choice([lo, hi, 0, 1, r.randrange(lo, hi + 1), r.randrange(max(lo, -1000), min(hi, 1000) + 1)])
    return dict(op='int', t=t, neg=int(v < 0), mag=limbs(abs(v)))


BADCP = [0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x110001, 0x1FFFFF, 0x10FFFFF, -1, -2, -0x7FFFFFFF, 0x7FFFFFFF, -0x80000000]


def out_history(r, n):
    ops = []
    for _ in range(n):
        k = r.random()
        if k < .1:
            ops.append(dict(op='form', form=r.choice(FORMS)))
        elif k < .2:
            ops.append(dict(op='endian', endian=r.choice(ENDS)))
        elif k < .25:
            ops.append(dict(op='bom'))
        elif k < .45:
            if r.random() < .25:
                ops.append(dict(op='cp', c=r.choice(BADCP)))
            elif r.random() < .3:
                ops.append(dict(op='cp', c=r.randrange(128), char=1))
            else:
                ops.append(dict(op='cp', c=rand_cp(r)))
        elif k < .75:
            ops.append(text_op(r))
        elif k < .8:
            ops.append(dict(op='bool', v=r.randrange(2)))
        elif k < .87:
            ops.append(int_op(r))
        elif k < .93:
            ops.append(flt_op(r))
        else:
            ops.append(dict(op='flush', **({'fn': 1} if r.random() < .5 else {})))
        if r.random() < .3:
            ops[-1]['q'] = 1
    return ops


def c16(ctx):
    T = ctx.thorough
    r = ctx.rng
    design(ctx, [1, 3, 6, 7, 10], 4 if T else 3, 0, [], emit=False)
    exe = ctx.build('driver_stream', opt='-O0')
    caps = [0, 1, 3, 8, 1024]
    sc = []

    def script(form, endian, ops, kind=None, cap=None):
        d = dict(what='out', kind=kind or r.choice(OUTK), cap=r.choice(caps) if cap is None else cap, form=form, endian=endian, ops=ops)
        if endian == 'big' and r.random() < .3:
            d['dflt'] = 1
        return d
    # every boundary code point, every source, form, byte order and way of passing it
    for form, endian in itertools.product(FORMS, ENDS):
        for src in SRCS:
            for how in range(3):
                for i in range(0, len(BOUND), 12):
                    part = BOUND[i:i + 12]
                    sc.append(script(form, endian, [text_op(r, src, [c], how) for c in part] + [text_op(r, src, part, how)]))
        for i in range(0, len(BOUND), 12):
            sc.append(script(form, endian, [dict(op='cp', c=c) for c in BOUND[i:i + 12]]))
        sc.append(script(form, endian, [dict(op='cp', c=c, q=1) for c in BADCP] + [dict(op='cp', c=65)]))
        for a in range(0, 128, 32):
            sc.append(script(form, endian, [dict(op='cp', c=c, char=1) for c in range(a, a + 32)]))
        sc.append(script(form, endian, [dict(op='bom'), text_op(r), dict(op='bom', q=1)]))
        for kind in OUTK:
            for cap in caps:
                sc.append(script(form, endian, [int_op(r) for _ in range(6)] + [dict(op='bool', v=0), dict(op='bool', v=1)] + [flt_op(r) for _ in range(4)], kind, cap))
                sc.append(script(form, endian, out_history(r, 8), kind, cap))
    # long texts
    for i, src in enumerate(SRCS * (4 if T else 2)):
        n = [1100, 600, 5000, 2100][(i + i // 5) % 4]
        t = [r.randrange(1, 128) if src == 'c' else rand_cp(r) or 1 for _ in range(n)]
        sc.append(script(FORMS[i % 3], ENDS[i // 3 % 2], [text_op(r, src, t[:7], i % 3), text_op(r, src, t, (i + 1) % 3), text_op(r, src, t[-3:], i % 3)]))
    for i, src in enumerate(SRCS):
        t = [r.randrange(1, 128) if src == 'c' or r.random() < .7 else rand_cp(r) or 1 for _ in range(66000)]
        form = {'c': 'u8', 'w': 'u32'}.get(src, src)
        sc.append(script(form, 'little', [text_op(r, src, t, i % 3)]))
    # whole blocks of code points
    blocks = [b for b in range(0, 0x110000, 256) if not 0xD800 <= b < 0xE000]
    r.shuffle(blocks)
    for b in blocks[:4096 if T else 300]:
        form, endian, src = r.choice(FORMS), r.choice(ENDS), r.choice(SRCS[:4])
        cps = list(range(b, b + 256))
        if r.random() < .3:
            ops = [dict(op='cp', c=c) for c in cps]
        else:
            ops = [text_op(r, src, cps, r.randrange(3))]
        sc.append(script(form, endian, ops))
    for _ in range(8000 if T else 900):
        sc.append(script(r.choice(FORMS), r.choice(ENDS), out_history(r, r.randrange(1, 25))))
    with_copies(r, sc)
    ctx.foreign_locale(sc)
    ctx.validate('TextOutTrace', exe, sc, consts=NOSWALLOW, what='text output', parallel=8)
    ctx.assumptions += ['plain char text is ASCII', 'texts given as strings are well formed', 'floating point values with at most 8 binary places']


# ------------------------------------------------------------------------------------------------------- input
def in_script(r, form, endian, data, ops, kind=None, cap=None):
    return dict(what='in', kind=kind or r.choice(INK), cap=r.choice([0, 1, 2, 3, 4, 5, 8, 1024]) if cap is None else cap, form=form, endian=endian, bytes=data, ops=ops)


def c17(ctx):
    T = ctx.thorough
    r = ctx.rng
    design(ctx, [1, 3, 4, 5, 6, 7], 4 if T else 3, 0, [], emit=False)
    exe = ctx.build('driver_stream', opt='-O0')
    sc = []
    cp = dict(op='cp')
    # well-formed text, code point by code point, past the end
    for form, endian in itertools.product(FORMS, ENDS):
        for i in range(0, len(BOUND), 10):
            t = BOUND[i:i + 10]
            sc.append(in_script(r, form, endian, tobytes(form, endian, t), [cp] * (len(t) + 2)))
            sc.append(dict(in_script(r, form, 'big', tobytes(form, 'big', t), [cp] * (len(t) + 2)), dflt=1))
        # byte order marks of either order, and no mark at all, with either setting
        for e2 in ENDS:
            for t in ([0xFEFF], [0xFEFF, 0x41], [0xFEFF, 0xFEFF], [0x41, 0xFEFF], [0xFFFD], [0x10FEFF], [0xFE, 0xFF], [0xFEFE], [0xFF00, 0xFE], [0x1F600], [0], [0xFF, 0xFE, 0], [0x100FE]):
                sc.append(in_script(r, form, e2, tobytes(form, endian, t), [dict(op='bom')] + [cp] * (len(t) + 1)))
                sc.append(in_script(r, form, e2, tobytes(form, endian, t), [dict(op='bom'), dict(op='bom'), cp]))
    # every one and two byte input, and structured longer ones
    for a in range(256):
        for form in FORMS:
            if a == 13:
                continue
            sc.append(in_script(r, form, r.choice(ENDS), [a], [r.choice([cp, dict(op='bom')]), cp]))
    pairs = [(a, b) for a in range(256) for b in range(256) if 13 not in (a, b)]
    r.shuffle(pairs)
    for a, b in pairs[:20000 if T else 2500]:
        sc.append(in_script(r, 'u8' if r.random() < .5 else 'u16', r.choice(ENDS), [a, b], [r.choice([cp, cp, cp, dict(op='bom')]), cp, cp]))
    lead = [0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF]
    trail = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xE0, 0xFF]
    tri = [[a, b, c] for a in lead for b in trail for c in trail] + [[a, b, c, d] for a in lead for b in trail for c in trail[2:] for d in trail[1:]]
    r.shuffle(tri)
    for t in tri[:len(tri) if T else 3500]:
        sc.append(in_script(r, 'u8', 'big', t, [cp] * 5))
    u16 = [0x0, 0x41, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF]
    for e in ENDS:
        for n in (1, 2, 3):
            for t in itertools.product(u16, repeat=n):
                if n == 3 and not T and r.random() < .8:
                    continue
                b = [x for u in t for x in u.to_bytes(2, e)]
                sc.append(in_script(r, 'u16', e, b, [r.choice([cp, cp, dict(op='bom')])] + [cp] * n))
                if r.random() < .3:
                    sc.append(in_script(r, 'u16', e, b[:-1], [r.choice([cp, cp, dict(op='bom')])] + [cp] * n))
    u32 = [0, 0x41, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFE0000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x41000000, 0xFEFF0000, 0x7FFFFFFF, 0x80000000, 0x80000041, 0xFFFFFFFF, 0x1000041, 0x200041]
    for e in ENDS:
        for e2 in ENDS:
            for u in u32:
                b = list(u.to_bytes(4, e))
                for cut in range(5):
                    sc.append(in_script(r, 'u32', e2, b[:cut] if cut else b + b, [r.choice([cp, dict(op='bom')]), cp, cp]))
    # what nearly is a byte order mark
    near = [0, 1, 0x10, 0xFE, 0xFF]
    for e in ENDS:
        for t in itertools.product(near, repeat=4):
            sc.append(in_script(r, 'u32', e, list(t) + [0, 0, 0, 0], [dict(op='bom'), cp]))
        for a in (0xFD, 0xFE, 0xFF, 0):
            for b in range(0, 256, 1 if T else 5):
                if 13 in (a, b):
                    continue
                for t in ([a, b], [b, a]):
                    sc.append(in_script(r, 'u16', e, t + [0xDC, 0xDC], [dict(op='bom'), cp]))
        for b in ([0xFE, 0xFF], [0xFF, 0xFE]):
            for k in range(2):
                for d in range(256):
                    if d == 13:
                        continue
                    t = list(b)
                    t[k] = d
                    sc.append(in_script(r, 'u16', e, t + [0xDE, 0xDE], [dict(op='bom')]))
        for b in ([0, 0, 0xFE, 0xFF], [0xFF, 0xFE, 0, 0]):
            for k in range(4):
                for d in range(256):
                    t = list(b)
                    t[k] = d
                    sc.append(in_script(r, 'u32', e, t, [dict(op='bom')]))
    # random text with damage, changes of form and byte order on the way
    for _ in range(12000 if T else 1500):
        form, endian = r.choice(FORMS), r.choice(ENDS)
        data = []
        ops = []
        f, e = form, endian
        for _ in range(r.randrange(1, 12)):
            k = r.random()
            if k < .1:
                f = r.choice(FORMS)
                ops.append(dict(op='form', form=f))
            elif k < .2:
                e = r.choice(ENDS)
                ops.append(dict(op='endian', endian=e))
            else:
                c = rand_cp(r)
                if c == 13:
                    continue
                data += tobytes(f, e, [c])
                ops.append(cp)
        if r.random() < .5 and data:
            for _ in range(r.randrange(1, 3)):
                j = r.randrange(len(data))
                data[j] = r.randrange(256)
        if r.random() < .2:
            data = data[:r.randrange(len(data) + 1)]
        sc.append(in_script(r, form, endian, data, ops + [cp, cp]))
    blocks = [b for b in range(0, 0x110000, 256) if not 0xD800 <= b < 0xE000]
    r.shuffle(blocks)
    for b in blocks[:4096 if T else 150]:
        form, endian = r.choice(FORMS), r.choice(ENDS)
        sc.append(in_script(r, form, endian, tobytes(form, endian, [c for c in range(b, b + 256) if c != 13]), [cp] * 257))
    for i, (form, endian) in enumerate(itertools.product(FORMS, ENDS)):
        t = [c for c in (rand_cp(r) for _ in range(5000 if T else 1300)) if c != 13]
        sc.append(in_script(r, form, endian, tobytes(form, endian, t), [cp] * (len(t) + 1), kind=INK[i]))
    sc = [s for s in sc if not lone_cr(s)]
    with_copies(r, sc)
    ctx.foreign_locale(sc)
    ctx.validate('TextInTrace', exe, sc, consts=NOSWALLOW, what='decoding', parallel=8)
    ctx.assumptions += ['an execution is followed up to its first encoding error']


def lone_cr(s):
    """Whether a carriage return not before a line feed may be read (see known_findings.txt)."""
    b = s['bytes']
    w = dict(u8=1, u16=2, u32=4)
    if 13 not in b:
        return False
    if any(o['op'] in ('form', 'endian', 'bom') for o in s['ops']):
        return True
    f = s['form']
    cr, lf = tobytes(f, s['endian'], [13]), tobytes(f, s['endian'], [10])
    n = w[f]
    i = 0
    while i + n <= len(b):
        if b[i:i + n] == cr and i + n < len(b) and b[i + n:i + 2 * n] != lf:
            return True
        i += n
    return False


# ------------------------------------------------------------------------------------------------- extraction
NUMW = ['0', '1', '-1', '+1', '42', '-0', '007', '127', '128', '-128', '-129', '255', '256', '32767', '65535', '65536', '2147483647', '2147483648',
        '-2147483648', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '18446744073709551615', '18446744073709551616',
        '1.5', '-0.25', '0.5', '.5', '5.', '1,5', '1.5.2', 'abc', '1a', '--1', '1-', 'true', '', '3.125', '-2.75', '1e3', '12345678901234567890123']


def c18(ctx):
    T = ctx.thorough
    r = ctx.rng
    exe = ctx.build('driver_stream', opt='-O0')
    g = design(ctx, [1, 3, 4, 5, 7], 4 if T else 3, 4 if T else 3, ['word', 'line', 'all', 'cp'])
    g += design(ctx, [1, 3, 4, 5, 6, 8, 9, 10], 3, 2, ['word', 'line', 'all', 'cp'])
    r.shuffle(g)
    g = g[:40000 if T else 5000]
    sc = []
    combos = list(itertools.product(FORMS, ENDS, INK))
    r.shuffle(combos)

    def target(t):
        return r.choice(['u8', 'u16', 'u32', 'w'] + (['c'] if all(c < 128 for c in t) else []))

    def add(txt, ops, i):
        form, endian, kind = combos[i % len(combos)]
        s = in_script(r, form, endian, tobytes(form, endian, txt), ops, kind)
        if not lone_cr(s):
            sc.append(s)
    for i, x in enumerate(g):
        t = target(x['txt'])
        add(x['txt'], [dict(op=o, t=t) for o in x['ops']], i)
    # long texts, every operation
    ws = [9, 10, 11, 12, 32, 0x85, 0xA0, 0x1680, 0x2000, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
    notws = [8, 14, 31, 33, 0x84, 0x86, 0x9F, 0xA1, 0x180E, 0x1FFF, 0x200B, 0x2027, 0x202A, 0x2060, 0x2FFF, 0x3001, 0xFEFF, 0x1F600, 0x41, 0]
    for i in range(10000 if T else 1300):
        txt = []
        ascii_only = r.random() < .3
        for _ in range(r.randrange(0, 16)):
            k = r.random()
            if k < .4:
                txt += [r.choice(notws[:4] + [0x41, 0x42] if ascii_only else notws + [0x41, 0x42, 0x43])]
            elif k < .7:
                txt += [r.choice([9, 10, 32, 32, 10] if ascii_only else ws)]
            elif k < .8:
                txt += [13, 10]
            else:
                txt += [ord(c) for c in r.choice(NUMW)] + [r.choice([32, 10, 9])]
        if r.random() < .1:
            txt += [13]
        t = target(txt)
        ops = []
        for _ in range(r.randrange(1, 12)):
            o = r.choice(['word', 'word', 'line', 'line', 'cp', 'cp', 'aline', 'aline', 'bool', 'int', 'flt'] + (['all', 'aall'] if len(ops) > 3 else []))
            d = dict(op=o)
            if o in ('word', 'line', 'all', 'aline', 'aall'):
                d['t'] = t if r.random() < .8 else target(txt)
            if o == 'int':
                d['t'] = r.choice(ITYPES)
            if o == 'flt':
                d['t'] = r.choice(['f', 'd', 'ld'])
            ops.append(d)
        add(txt, ops, i)
    # really long words, lines, texts and gaps, whatever the target
    for i in range(60 if T else 20):
        n = 66000 if i >= 16 and i < 20 else [300, 1100, 2100, 5000][i % 4]
        asc = i % 3 == 0
        body = lambda k: [r.randrange(33, 127) if asc or r.random() < .8 else r.choice([0xE9, 0x20AC, 0x1F600, 0x3042]) for _ in range(k)]
        wide = body(n) + [10] + body(5)
        gap = [r.choice([32, 9, 10]) for _ in range(n)]
        lines = []
        while len(lines) < n:
            lines += body(r.randrange(0, 70)) + r.choice([[10], [13, 10]])
        k = i % 4 if n == 66000 else i // 4 % 4
        t = r.choice(['u8', 'u16', 'u32', 'w'] + ['c'] * asc)
        if k == 0:
            for o in ('word', 'line', 'aline'):
                add(wide, [dict(op=o, t=t), dict(op='line', t=t)], i)
        elif k == 1:
            add(gap + body(3) + [32] + body(2), [dict(op='word', t=t), dict(op='word', t=t)], i)
        elif k == 2:
            add(lines, [dict(op='line', t=t), dict(op='aline', t=t), dict(op=r.choice(['all', 'aall']), t=t)], i)
        else:
            add(wide + [32] + wide, [dict(op='aline', t=t)] * 3 + [dict(op='aall', t=t)], i)
    # numbers and bools
    for i in range(6000 if T else 900):
        words = [r.choice(NUMW) for _ in range(r.randrange(1, 7))]
        if r.random() < .4:
            t = r.choice(ITYPES)
            lo, hi = rng_of(t)
            words = [str(r.choice([lo, hi, lo - 1, hi + 1, 0, r.randrange(lo, hi + 1)])) for _ in range(3)]
        else:
            t = r.choice(ITYPES)
        txt = []
        for x in words:
            txt += [ord(c) for c in x] + r.choice([[32], [10], [13, 10], [32, 32], [9], [0x2028]])
        ops = []
        for _ in words + [0]:
            o = r.choice(['int', 'int', 'flt', 'bool'])
            ops.append(dict(op=o, **({'t': t} if o == 'int' else {'t': r.choice(['f', 'd', 'ld'])} if o == 'flt' else {})))
        add(txt, ops, i)
    with_copies(r, sc)
    ctx.foreign_locale(sc)
    ctx.validate('TextInTrace', exe, sc, consts=NOSWALLOW, what='words, lines, texts and numbers', parallel=8)
    known_cr(ctx, exe)
    ctx.assumptions += ['texts are well formed; plain char targets only for ASCII text']


def known_cr(ctx, exe):
    """A carriage return that is not before a line feed: the listed finding is that it is swallowed, nothing else."""
    r = ctx.rng
    sc = []
    for k, txt in enumerate(([97, 13, 98], [13, 97], [13, 32, 97], [97, 13, 13, 10, 98], [13, 13, 10], [97, 13, 9, 98, 10])):
        for j, ops in enumerate((['all'], ['line', 'line'], ['word', 'word'], ['cp'] * 4)):
            form, endian = FORMS[(k + j) % 3], ENDS[(k // 2 + j) % 2]
            sc.append(in_script(r, form, endian, tobytes(form, endian, txt), [dict(op=o, t='u8') for o in ops], cap=8, kind='oio'))
    lines = ctx.drive(exe, sc)
    bad = []
    for s, x in zip(sc, lines):
        if x is None or x.startswith('{"crash"'):
            bad.append((s, x or 'null'))
    alive = [(s, x) for s, x in zip(sc, lines) if x is not None and not x.startswith('{"crash"')]
    for s, x in bad:
        ctx.report('TextInTrace', s, x, 1, 'the program died', '', 'lone carriage return', exe)
    # which of them does the specification proper accept?
    todo = list(alive)
    rej = []
    strict = ctx._tlc_trace('TextInTrace', [x for _, x in todo], NOSWALLOW, (), 1)
    while strict and todo:
        i = strict[0][0]
        rej.append(todo[i])
        todo.pop(i)
        # the finding repeats in most of them: one by one is enough to tell
        if len(rej) >= 3:
            rej += todo
            todo = []
            break
        strict = ctx._tlc_trace('TextInTrace', [x for _, x in todo], NOSWALLOW, (), 1) if todo else []
    if rej:
        other = ctx._tlc_trace('TextInTrace', [x for _, x in rej], {'Swallow': 'TRUE'}, (), 1)
        if other:
            i, l, why, out = other[0]
            ctx.report('TextInTrace', rej[i][0], rej[i][1], l, 'neither delivered nor swallowed: ' + why, out, 'lone carriage return', exe)
        else:
            ctx.known.append('text input swallows a carriage return that no line feed follows ("a\\rb" reads as "ab")')
    ctx.cov['traces_validated_against_impl'] += len(alive)
    if ctx.violations:
        raise StopCheck()


# -------------------------------------------------------------------------------------------------------- data
SIZES = dict(bool=1, char=1, c8=1, c16=2, c32=4, wc=4, sc=1, uc=1, s=2, us=2, i=4, u=4, l=8, ul=8, ll=8, ull=8, f=4, d=8, ld=16)


def c19(ctx):
    T = ctx.thorough
    r = ctx.rng
    ctx.model_check('DataDesign', 'SPECIFICATION Spec\nINVARIANT RoundTrip\nINVARIANT Shape\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Types = {1, 2, 4}\n Depth = %d\n' % (5 if T else 4))
    exe = ctx.build('driver_stream', opt='-O0')
    sc = []
    caps = [0, 1, 3, 4, 8, 1024]

    def val(t):
        n = SIZES[t]
        if t == 'bool':
            return [r.randrange(2)]
        k = r.random()
        if k < .15:
            return [0] * n
        if k < .3:
            return [255] * n
        if k < .45:
            v = [0] * n
            v[r.randrange(n)] = r.choice([1, 128, 255])
            return v
        return [r.randrange(256) for _ in range(n)]

    def script(kind, cap, e, ops, content=(), io=None):
        d = dict(what='data', kind=kind, cap=cap, e=e, io=r.randrange(2) if io is None else io, content=list(content), ops=ops)
        return d
    # every type, both byte orders, written, read back
    for kind in ('oio', 'tio', 'file'):
        for e in ENDS:
            for e2 in ENDS:
                for t in SIZES:
                    for cap in (0, 8):
                        sc.append(script(kind, cap, e, [dict(op='put', t=t, v=val(t)), dict(op='put', t=t, v=val(t), const=1), dict(op='ein', e=e2), dict(op='seek', n=0),
                                                        dict(op='get', t=t), dict(op='get', t=t), dict(op='get', t=t)]))
    # default byte order
    for kind in ('oio', 'tio', 'file'):
        for io in (0, 1):
            for t in SIZES:
                sc.append(dict(script(kind, 8, 'big', [dict(op='put', t=t, v=val(t)), dict(op='seek', n=0), dict(op='get', t=t)], io=io), dflt=1))
    # histories
    for i in range(12000 if T else 1800):
        kind = r.choice(['oio', 'tio', 'file'])
        content = [r.randrange(256) for _ in range(r.choice([0, 0, 1, 3, 7, 8, 15, 16, 17, 33]))]
        ops = []
        for _ in range(r.randrange(1, 16)):
            k = r.random()
            t = r.choice(list(SIZES))
            if k < .4:
                ops.append(dict(op='put', t=t, v=val(t), **({'const': 1} if r.random() < .3 else {})))
            elif k < .6:
                ops.append(dict(op='get', t=t))
            elif k < .65:
                ops.append(dict(op='grab', n=r.choice([0, 1, 2, 5, 9, 20])))
            elif k < .7:
                ops.append(dict(op=r.choice(['raw', 'rev']), v=[r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 7, 16, 33]))]))
            elif k < .78:
                ops.append(dict(op='ein', e=r.choice(ENDS)))
            elif k < .86:
                ops.append(dict(op='eout', e=r.choice(ENDS)))
            elif k < .96:
                ops.append(dict(op='seek', n=r.choice([0, 0, 0, 1, 2, 4, 8])))
            else:
                ops.append(dict(op='flush'))
        sc.append(script(kind, r.choice(caps), r.choice(ENDS), ops, content))
    with_copies(r, sc)
    ctx.foreign_locale(sc)
    ctx.validate('DataTrace', exe, sc, what='data streams', parallel=8)
