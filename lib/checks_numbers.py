"""C06..C09, C24: formatting, parsing, formats and the numeric helpers."""
import json
from vp import CheckError

FORMS = ['u8', 'u16', 'u32', 'w', 'c']
ITYPES = dict(sc=(1, 8), uc=(0, 8), ch=(1, 8), s=(1, 16), us=(0, 16), i=(1, 32), u=(0, 32), l=(1, 64), ul=(0, 64), ll=(1, 64), ull=(0, 64))
SIGNS = ['always', 'neg']
SEPS = ['none', 'comma', 'period']


def limbs(n):
    r = []
    while n:
        r.append(n % 4096)
        n //= 4096
    return r


def rng_of(t):
    sg, b = ITYPES[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)


DG = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def digits(n, r):
    s = ''
    while n:
        s = DG[n % r] + s
        n //= r
    return s or '0'


def text_of(n, f):
    s = digits(abs(n), f['radix'])
    if f['sep'] != 'none':
        g = []
        while len(s) > 3:
            g.insert(0, s[-3:])
            s = s[:-3]
        g.insert(0, s)
        s = {'comma': ',', 'period': '.'}[f['sep']].join(g)
    return ('-' if n < 0 else '+' if n > 0 and f['sign'] == 'always' else '') + s


def design(ctx, maxlen, radices, alpha='{43, 44, 45, 46, 48, 49, 57, 65}'):
    return ctx.generate('NumbersDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Canonical\nINVARIANT Decided\nINVARIANT Emit\n'
                        f'CONSTANTS\n Alphabet = {alpha}\n MaxLen = {maxlen}\n Radices = {radices}\n', workers=1)


def all_formats(r, radices):
    return [dict(radix=x, sign=s, sep=p) for x in radices for s in SIGNS for p in SEPS]


def values(t, r, rad, n):
    """Extremes, powers of the radix and their neighbours, digit runs and random values."""
    lo, hi = rng_of(t)
    v = {0, 1, -1, 2, 9, 10, 11, 35, 36, 99, 100, 999, 1000, 1001, lo, lo + 1, hi, hi - 1, hi // 2, lo // 2, hi // rad, lo // rad}
    for k in range(0, 65):
        p = rad ** k
        if p > hi + 1:
            break
        v |= {p, p - 1, p + 1, -p, -p + 1, -p - 1}
    v |= {1 << k for k in range(0, 64, 5)} | {-(1 << k) for k in range(3, 64, 7)}
    v = [x for x in v if lo <= x <= hi]
    r.shuffle(v)
    must = [x for x in (lo, hi, 0, hi - 1, lo + 1) if lo <= x <= hi]
    w = must + v[:n]
    for _ in range(n // 2):
        b = r.randrange(1, 65)
        x = r.randrange(0, 1 << b) * r.choice([1, -1])
        if lo <= x <= hi:
            w.append(x)
    return w


def c06(ctx):
    T = ctx.thorough
    r = ctx.rng
    design(ctx, 5 if T else 4, '{2, 10, 16, 36}')
    exe = ctx.build('driver_numbers', parts=('unicode', 'io', 'core'), opt='-O0')
    sc = []
    fi = 0
    for t in ITYPES:
        for rad in range(2, 37):
            for f in all_formats(r, [rad]):
                fi += 1
                if not T and (fi * 7 + rad) % 3 and not (rad in (2, 10, 16, 36)):
                    continue
                v = values(t, r, rad, 60 if T else 8)
                forms = FORMS if T else [FORMS[fi % 5]]
                sc.append(dict(op='fmt', t=t, f=f, forms=forms, vals=[[int(x < 0), limbs(abs(x))] for x in v]))
    # every value of the small types
    for t in ('sc', 'uc', 'ch'):
        lo, hi = rng_of(t)
        for f in all_formats(r, range(2, 37) if T else [2, 3, 10, 36]):
            sc.append(dict(op='fmt', t=t, f=f, forms=[FORMS[(fi := fi + 1) % 5]], vals=[[int(x < 0), limbs(abs(x))] for x in range(lo, hi + 1)]))
    if T:
        for t in ('s', 'us'):
            lo, hi = rng_of(t)
            for f in all_formats(r, [2, 10, 36]):
                for a in range(lo, hi + 1, 4096):
                    sc.append(dict(op='fmt', t=t, f=f, forms=['u8'], vals=[[int(x < 0), limbs(abs(x))] for x in range(a, a + 4096)]))
    ctx.foreign_locale(sc)
    ctx.validate('NumbersTrace', exe, sc, what='integer formatting', parallel=8)


def junk(r, f, t):
    """Near misses of a canonical text."""
    t = list(t)
    k = r.randrange(9)
    C = '+-,.0123456789AZaz /:@[`{gG'
    if k == 0 and t:
        del t[r.randrange(len(t))]
    elif k == 1:
        t.insert(r.randrange(len(t) + 1), r.choice(C))
    elif k == 2 and t:
        t[r.randrange(len(t))] = r.choice(C)
    elif k == 3:
        t.insert(r.randrange(len(t) + 1), r.choice('+-'))
    elif k == 4:
        t.insert(r.randrange(len(t) + 1), r.choice(',.'))
    elif k == 5:
        t = [c.lower() for c in t]
    elif k == 6:
        t = ['0'] * r.randrange(1, 8) + t
    elif k == 7:
        t = t + [r.choice(C)]
    else:
        t = [c for c in t if c not in ',.']
    return ''.join(t)


def zeros(r, f, v, minus=False):
    # more zeros in front than the number needs
    s = text_of(abs(v), dict(f, sep='none', sign='neg'))
    s = '0' * r.choice([1, 2, 3, 5, 12, 20, 64, 70]) + s
    sp = {'none': '', 'comma': ',', 'period': '.'}[f['sep']]
    if sp:
        g = []
        while s:
            g.append(s[-3:])
            s = s[:-3]
        s = sp.join(g[::-1])
    return ('-' if v < 0 or minus else '+' if f['sign'] == 'always' and v > 0 else '') + s


def c07(ctx):
    T = ctx.thorough
    r = ctx.rng
    gen = [json.loads(x) for x in design(ctx, 5 if T else 4, '{2, 10, 16}')]
    exe = ctx.build('driver_numbers', parts=('unicode', 'io', 'core'), opt='-O0')
    sc = []
    fi = 0
    types = list(ITYPES)
    # every text of the model, in every format
    for f in all_formats(r, [2, 10, 16] if T else [10, 16]):
        for i in range(0, len(gen), 400):
            fi += 1
            sc.append(dict(op='parse', t=types[fi % 11] if fi % 3 else 'ch', f=f, forms=[FORMS[fi % 5]], txts=gen[i:i + 400], api=fi % 3))
    # values around every type's limits, in every radix; near misses
    for t in types:
        lo, hi = rng_of(t)
        for rad in range(2, 37):
            for f in all_formats(r, [rad]):
                fi += 1
                if not T and (fi % 6 != rad % 6) and not rad in (10, 16):
                    continue
                v = values(t, r, rad, 40 if T else 6)
                v += [hi + 1, lo - 1, hi + r.randrange(1, 300), lo - r.randrange(1, 300), hi * rad, hi * rad + r.randrange(rad), 2 * hi, (1 << 64) + r.randrange(1 << 20),
                      (1 << 64) * r.randrange(1, 1 << 40), 1 << 64, (1 << 64) - 1, hi + (1 << 64), r.randrange(1 << 100)]
                tx = [text_of(x, f) for x in v]
                tx += [junk(r, f, r.choice(tx)) for _ in range(40 if T else 8)]
                tx += [zeros(r, f, r.choice(v)) for _ in range(12 if T else 4)]
                forms = FORMS if T and fi % 3 == 0 else [FORMS[fi % 5]]
                sc.append(dict(op='parse', t=t, f=f, forms=forms, txts=[[ord(c) for c in x] for x in tx], api=fi % 3))
    # characters that are no digits but look like some, or share code units with digits
    odd = [0x130, 0x2031, 0x3030, 0xFF11, 0x661, 0x1D7CE, 0x10030, 0x41B, 0x1F600, 0x12B, 0x2D00, 0x2212, 0x22D, 0x130000 % 0x10FFFF, 0xE9, 0x20AC, 0xB9]
    for fo in FORMS[:4]:
        for f in all_formats(r, [10, 36]):
            tx = [[c] for c in odd] + [[0x31, c] for c in odd] + [[c, 0x31] for c in odd] + [[0x31, c, 0x32] for c in odd] + [[0x2D, c, 0x32] for c in odd] + \
                 [[c, 0x31, 0x32, 0x33] for c in odd] + [[0x31, c, 0x31, 0x32, 0x33] for c in odd]
            for t in ('i', 'ull'):
                sc.append(dict(op='parse', t=t, f=f, forms=[fo], txts=tx, api=(fi := fi + 1) % 3))
    # round trips
    for t in types:
        for rad in range(2, 37, 1 if T else 5):
            for f in all_formats(r, [rad]):
                fi += 1
                if not T and fi % 2:
                    continue
                v = values(t, r, rad, 30 if T else 6)
                sc.append(dict(op='fmt', t=t, f=f, forms=[FORMS[fi % 5]], back=1, vals=[[int(x < 0), limbs(abs(x))] for x in v]))
    # ill-formed text
    bad8 = [[0x80], [0x80, 0x80], [0x31, 0x80], [0x80, 0x31], [0xC3], [0x31, 0xC3], [0xC3, 0x31], [0xE2, 0x82], [0xE2, 0x82, 0x31], [0xF0, 0x9F, 0x98], [0xFF, 0x31], [0xED, 0xA0, 0x80, 0x31], [0x31, 0x32], []]
    bad16 = [[0xD800], [0xDC00], [0x31, 0xD800], [0xDC00, 0x31], [0xD800, 0x31], [0x31, 0xDC00, 0x31], [0x31, 0x32]]
    for f in all_formats(r, [10, 16]):
        for t in ('i', 'ul'):
            sc.append(dict(op='parseraw', t=t, f=f, forms=['u8'], txts=bad8))
            sc.append(dict(op='parseraw', t=t, f=f, forms=['u16'], txts=bad16))
    ctx.foreign_locale(sc)
    ctx.validate('NumbersTrace', exe, sc, what='integer parsing', parallel=8)


def flt_formats(r, n, rads=None, limits=None):
    for _ in range(n):
        sep = r.choice(SEPS)
        rc = r.choice(['comma', 'period'])
        if sep == rc:
            sep = 'none'
        yield dict(radix=r.choice(rads or range(2, 37)), sign=r.choice(SIGNS), sep=sep, rchar=rc,
                   limit=r.choice(limits or ['none', 'exactly', 'upto']), places=r.choice([0, 1, 2, 3, 5, 8, 13, 30]))


def c08(ctx):
    T = ctx.thorough
    r = ctx.rng
    design(ctx, 4, '{2, 10}')
    exe = ctx.build('driver_numbers', parts=('unicode', 'io', 'core'), opt='-O0')
    sc = []
    fi = 0
    MANT = dict(f=24, d=53, ld=64)
    FRAC = dict(f=18, d=47, ld=58)

    def val(t):
        m = MANT[t]
        kind = r.random()
        if kind < .15:
            k = 0
        elif kind < .5:
            k = r.randrange(1, 7)
        else:
            k = r.randrange(1, min(FRAC[t], 40 if not T else 47) + 1)
        ib = r.choice([0, 0, 1, 3, 4, 7, 10, 11, 20, 33, 53, 62])
        I = r.randrange(1 << ib, 2 << ib) if ib else r.choice([0, 0, 1])
        I = min(I, (1 << 63) - 1)
        if I.bit_length() + k > m:
            if r.random() < .5 and I.bit_length() < m:
                k = m - I.bit_length()
                k = min(k, FRAC[t])
            else:
                I >>= max(0, I.bit_length() + k - m)
        num = r.choice([0, 1, (1 << k) - 1, r.randrange(1 << k), (1 << k) // 2]) if k else 0
        return [r.randrange(2), limbs(I), limbs(num), k]
    for t in ('f', 'd', 'ld'):
        for f in flt_formats(r, 900 if T else 130):
            fi += 1
            f2 = dict(f)
            if f2['limit'] == 'none' and f2['radix'] % 2:
                f2['limit'] = r.choice(['exactly', 'upto'])   # the expansion does not end
            vals = [val(t) for _ in range(12 if T else 6)]
            # wide integral parts that are exact in the type
            hi = ((1 << MANT[t]) - 1) << max(0, 63 - MANT[t])
            vals += [[fi % 2, limbs(min(hi, (1 << 63) - 1 if t == 'ld' else hi)), [], 0], [0, [], [], 0], [1, [], limbs(1), 1], [0, limbs(999), limbs(3), 2], [1, limbs(1000), limbs(1), 3]]
            sc.append(dict(op='ffmt', t=t, f=f2, forms=[FORMS[fi % 5]], vals=vals))
    # fractions of any size in the binary radices
    for t, kmax in (('f', 140), ('d', 1000), ('ld', 1050)):
        for f in flt_formats(r, 60 if T else 12, rads=[2, 4, 8, 16, 32]):
            f['places'] = r.choice([0, 1, 5, 30, 100])
            fi += 1
            vals = []
            for _ in range(3):
                nb = r.randrange(1, MANT[t] + 1)
                num = r.randrange(1 << (nb - 1), 1 << nb)
                k = r.randrange(nb, kmax if f['limit'] != 'none' else min(kmax, 300))
                vals.append([r.randrange(2), [], limbs(num), k])
            sc.append(dict(op='ffmt', t=t, f=f, forms=[FORMS[fi % 5]], vals=vals))
    # values whose fraction does not scale exactly
    for t in ('f', 'd', 'ld'):
        for f in flt_formats(r, 300 if T else 50):
            fi += 1
            if f['limit'] == 'none' and f['radix'] % 2:
                f['limit'] = 'upto'
            vals = []
            for _ in range(6):
                m = MANT[t]
                I = r.randrange(0, 31)
                k = m - I.bit_length()
                vals.append([r.randrange(2), limbs(I), limbs(r.randrange(1 << k)), k])
            sc.append(dict(op='ffmt', approx=1, t=t, f=f, forms=[FORMS[fi % 5]], vals=vals))
    # odd radix, no limit: it ends, and what is there is right (only a beginning is claimed)
    for rad in range(3, 37, 2):
        f = dict(radix=rad, sign='neg', sep='none', rchar='period', limit='none', places=0)
        sc.append(dict(op='ffmt', approx=1, t='f', f=f, forms=['u8'], vals=[[0, limbs(3), limbs(1), 1], [1, [], limbs(3), 4]]))
    # parsing
    def ftext(f):
        I = r.choice([0, 0, 1, 2, 5, 9, 10, 30, 31, r.randrange(32)])
        s = text_of(r.choice([1, -1]) * I, dict(f, sign=f['sign']))
        if I == 0 and r.random() < .4:
            s = '-' + s
        elif r.random() < .25:
            s = zeros(r, f, r.choice([1, -1]) * I, r.random() < .3)
        n = f['places'] if r.random() < .6 else r.randrange(0, 9)
        n = min(n, 20)
        if n or r.random() < .1:
            s += {'comma': ',', 'period': '.'}[f['rchar']]
        for _ in range(n):
            d = DG[r.randrange(f['radix'])]
            s += d.lower() if r.random() < .3 else d
        return s
    for t in ('f', 'd', 'ld'):
        for f in flt_formats(r, 900 if T else 150):
            fi += 1
            tx = [ftext(f) for _ in range(8)]
            tx += [junk(r, f, r.choice(tx)) for _ in range(5)] + [r.choice(['', '.', ',', '-', '+', '-.5', '.5', '5.', '--1.0', '+-1', '1.2.3', '1,2,3', '1.-5', '0.0', '-0.0', '1.+'])]
            tx += [text_of(r.choice([1, -1]) * r.choice([(1 << 63) - 1, 1 << 63, (1 << 63) + 1, 1 << 64, 1 << 70, 12345678901]), f)]
            sc.append(dict(op='fparse', t=t, f=f, forms=[FORMS[fi % 5]], txts=[[ord(c) for c in x] for x in tx], api=fi % 3))
    # the binary radices are exact
    for t in ('d', 'ld'):
        for f in flt_formats(r, 200 if T else 40, rads=[2, 4, 8, 16, 32], limits=['none', 'upto']):
            f['places'] = 30
            fi += 1
            tx = []
            b = {2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[f['radix']]
            for _ in range(8):
                n = r.randrange(1, 47 // b + 1)
                I = r.randrange(32)
                s = text_of(r.choice([1, -1]) * I, f) + {'comma': ',', 'period': '.'}[f['rchar']] + ''.join(DG[r.randrange(f['radix'])] for _ in range(n))
                tx.append(s)
            tx = [x for x in tx if len(x.split({'comma': ',', 'period': '.'}[f['rchar']])[-1]) <= 30]
            sc.append(dict(op='fparse', t=t, f=f, forms=[FORMS[fi % 5]], txts=[[ord(c) for c in x] for x in tx], api=fi % 3))
    ctx.foreign_locale(sc)
    ctx.validate('NumbersTrace', exe, sc, what='floating point formatting and parsing', parallel=8)
    ctx.assumptions += ['exact digits are demanded where multiplying the fraction by the radix is exact in the type (at most 18/47/58 binary places, or a binary radix); elsewhere the text must be within rounding of the value',
                        'values and formats are samples drawn from VERIF_SEED']


def c09(ctx):
    T = ctx.thorough
    r = ctx.rng
    exe = ctx.build('driver_numbers', parts=('unicode', 'io', 'core'), opt='-O0')
    base = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT FTypeOk\nINVARIANT Emit\nCONSTANTS\n'
    g = ctx.generate('FormatsGen', base + ' Depth = 1\n', workers=1)
    g2 = ctx.generate('FormatsGen', base + ' Depth = 12\n', simulate=400 if T else 60, depth=14, record=False)
    r.shuffle(g2)
    g += g2[:20000 if T else 1500]
    ctx.validate('FormatsTrace', exe, g, invs=('FTypeOk',), what='attributes of format objects', parallel=4)
    ctx.model_check('FormatsGen', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT FTypeOk\nPROPERTY OnlyOne\nCONSTANTS\n Depth = 1\n')
    # bool text
    pool = ['', '0', '1', 'yes', 'no', 'true', 'false', 'Yes', 'y', 'ja', 'nein', '是', '否', 'é', 'e', '😀', '😁', 'tru', 'truee', ' true', 'true ', '\u20ac', '\U000100ac', '\u0130', '10', '01', '-1']
    sc = []
    for i in range(600 if T else 160):
        ts, fs = (r.sample(pool, 2) if i % 8 else (['1', '0'] if i % 16 else ['same', 'same']))
        tx = [ts, fs, ''] + r.sample(pool, 8) + [ts + fs, ts + '\0', ts[:-1], fs + ' ', ts[::-1], fs[::-1]]
        if i % 3 == 2:
            tx = [x for x in tx if '\0' not in x]
        cp = lambda s: [ord(c) for c in s]
        asc = all(ord(c) < 128 for s in [ts, fs] for c in s)
        q = dict(op='bool', ts=cp(ts), fs=cp(fs), forms=FORMS[:4], txts=[cp(x) for x in tx], api=i % 3)
        sc.append(q)
        if asc:
            sc.append(dict(q, forms=['c'], txts=[cp(x) for x in tx if all(ord(c) < 128 for c in x)]))
    ctx.foreign_locale(sc)
    ctx.validate('NumbersTrace', exe, sc, what='bool formatting and parsing', parallel=4)


def c24(ctx):
    T = ctx.thorough
    r = ctx.rng
    design(ctx, 4, '{2, 10}')
    exe = ctx.build('driver_numbers', parts=('unicode', 'io', 'core'), opt='-O0')
    sc = []
    for t in ITYPES:
        for rad in list(range(2, 37)) + [100, 127]:
            v = values(t, r, rad, 80 if T else 30)
            sc.append(dict(op='count', t=t, vals=[[int(x < 0), limbs(abs(x))] for x in v], radices=[rad]))
    for t in ('sc', 'uc', 'ch'):
        lo, hi = rng_of(t)
        sc.append(dict(op='count', t=t, vals=[[int(x < 0), limbs(abs(x))] for x in range(lo, hi + 1)], radices=list(range(2, 37))))
    for t in ('f', 'd', 'ld'):
        for t2 in ('f', 'd', 'ld'):
            pr = []
            for _ in range(3000 if T else 300):
                aj, bj = r.randrange(7), r.randrange(7)
                an = r.choice([0, 1, -1, r.randrange(-1023, 1024)])
                k = r.random()
                if k < .3:
                    bn, bj = an, aj
                elif k < .5:
                    bn, bj = an + r.choice([-1, 1]), aj
                elif k < .6:
                    bn, bj = -an, aj
                elif k < .8 and aj < 6:
                    bj = r.randrange(aj, 7)
                    bn = (an << (bj - aj)) + r.choice([0, 0, 1, -1])
                    if abs(bn) > 1023:
                        bn, bj = an, aj
                else:
                    bn = r.randrange(-1023, 1024)
                pr.append([an, aj, bn, bj, r.randrange(0, 6)])
            # every small value against its neighbours
            for an in range(-20, 21):
                for p in range(3):
                    pr.append([an, 3, an + 1, 3, p])
                    pr.append([an, 3, -an, 3, p])
            # far from one, and many places: the scaling is still exact (at most 10 + 40 significant bits)
            for _ in range(2000 if T else 200):
                aj = r.choice([-110, -64, -63, -60, -40, -31, -30, -10, 0, 5, 20, 40, r.randrange(-110, 41)])
                an = r.choice([1, -1, 1023, r.randrange(-1023, 1024)])
                k = r.random()
                if k < .35:
                    bn, bj = an, aj
                elif k < .5:
                    bn, bj = an, aj + r.choice([-1, 1, 2])
                elif k < .75:
                    bn, bj = an + r.choice([-1, 1]), aj
                elif k < .85:
                    bn, bj = -an, aj
                else:
                    bn, bj = r.randrange(-1023, 1024), r.randrange(-110, 41)
                pr.append([an, aj, bn, bj, r.choice([0, 1, 2, 5, 9, 10, 11, 15, 17, r.randrange(18)])])
            # so many places that the power of ten is rounded: pairs on which no rounding can matter
            big = 120 if 'f' in (t, t2) else 900
            for _ in range(300 if T else 30):
                p = r.choice([18, 22, 23, 38, 39, 40, r.randrange(18, 300)])
                aj = r.randrange(-30, big)
                an = r.choice([1, -1]) * r.randrange(1, 512)
                if not -1200 < 3.32 * p - aj < 980:
                    continue
                if r.random() < .4 and t == t2:
                    pr.append([an, aj, an, aj, p])
                elif (abs(an) * 10 ** p << max(0, -aj)) >> max(0, aj) >= 4:
                    pr.append(r.choice([[an, aj, an, aj - 1, p], [an, aj, -an, aj, p], [an, aj, an, aj + 1, p]]))
                elif (abs(an) * 10 ** p << max(0, -aj)) * 8 < 1 << max(0, aj):
                    pr.append([an, aj, r.choice([an, -an, 1]), aj + r.randrange(2), p])
            sc.append(dict(op='cmp', t=t, t2=t2, pairs=pr))
    for n in range(0, 34):
        for pad in range(3):
            sc.append(dict(op='invert', bytes=[r.randrange(256) for _ in range(n + 2 * pad)], at=pad, n=n))
    ctx.foreign_locale(sc)
    ctx.validate('NumbersTrace', exe, sc, what='digit counts, decimal comparison, byte reversal', parallel=8)
