"""C20: the standard streams (and their part of C15)."""
import itertools, json
from checks_unicode import BOUND, enc, rand_cp

NOSWALLOW = {'Swallow': 'FALSE'}
# capacities of uout, uerr and uin the library is built with
BUILDS = [None, (7, 0, 5), (0, 3, 0), (1, 4, 1)]


def build(ctx, caps, n, header_only=False):
    extra = [] if caps is None else ['-DCMP_CONFIG_DEFAULT_%s_BUFFER_CAPACITY=%d' % x for x in zip(('STDOUT', 'STDERR', 'STDIN'), caps)]
    if header_only:
        extra = extra + ['-DCMP_CONFIG_HEADER_ONLY=true']
    return ctx.build('driver_stdio', opt='-O0', extra=extra, name='driver_stdio%d' % n,
                     **(dict(parts=()) if header_only else {}))


def gen(ctx, texts, sizes, maxops, explore, emit=True, **kw):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\n' + ('INVARIANT Emit\n' if emit else '') + \
        'CONSTANTS\n Swallow = FALSE\n Texts = {%s}\n Sizes = {%s}\n MaxOps = %d\n Explore = %s\n' % (
            ', '.join(map(str, texts)), ', '.join(map(str, sizes)), maxops, explore)
    if emit:
        return [json.loads(x) for x in ctx.generate('StdioGen', cfg, workers=1, **kw)]
    ctx.model_check('StdioGen', cfg)


def text(r, n):
    """Input text: words, lines and white space, no carriage return except before a line feed."""
    cps = []
    while len(cps) < n:
        k = r.random()
        if k < .25:
            cps += [r.choice([32, 32, 9, 10, 10, 0x2028, 0xA0])]
        elif k < .3:
            cps += [13, 10]
        else:
            c = rand_cp(r)
            cps += [c if c != 13 else 65]
    return enc('u8', cps)


def put(r, big):
    s = r.choice(['out', 'out', 'out', 'err'])
    k = r.random()
    if k < .45:
        src = r.choice(['u8', 'u16', 'u32', 'w', 'c'])
        how = r.randrange(3)
        n = r.choice([0, 1, 2, 3, 5, 8])
        if big and r.random() < .2:
            n = r.choice([200, 341, 342, 512, 1023, 1024, 1025, 2100] + [5000] * (r.random() < .3))
        if n > 50:
            cps = [65 + i % 26 for i in range(n)]
            if r.random() < .5 and src != 'c':
                cps[r.randrange(n)] = rand_cp(r)
        else:
            cps = [r.randrange(128) if src == 'c' else rand_cp(r) for _ in range(n)]
        if how == 2:
            cps = [c or 1 for c in cps]
        return dict(op='text', s=s, src=src, how=how, **{'in': enc(src, cps)})
    if k < .6:
        return dict(op='cp', s=s, c=r.choice([0xD800, 0x110000, 0xDFFF]) if r.random() < .15 else rand_cp(r))
    if k < .7:
        return dict(op='bool', s=s, c=r.randrange(2))
    if k < .8:
        return dict(op='int', s=s, c=r.choice([0, 7, -1, 12345, -2147483647, 2147483647, r.randrange(-99999, 99999)]))
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 20])
    if big and r.random() < .3:
        n = r.choice([1000, 1023, 1024, 1025, 2048, 3000] + [4097, 9000] * (r.random() < .2))
    return dict(op='raw', s=s, **{'in': [97 + (i * 7 + n) % 26 for i in range(n)]})


def get(r, big):
    k = r.choice(['cp', 'cp', 'word', 'line', 'raw'])
    d = dict(op='get', k=k)
    if k == 'raw':
        d['n'] = r.choice([1, 1, 2, 3, 5, 6, 9]) if not big or r.random() < .7 else r.choice([500, 1023, 1024, 1025, 3000])
        if r.random() < .5:
            d['st'] = 1
    elif k != 'cp':
        d['t'] = r.choice(['u8', 'u16', 'u32', 'w'])
    return d


def history(r, big):
    ops = []
    for _ in range(r.randrange(2, 14)):
        k = r.random()
        if k < .45:
            ops.append(put(r, big))
        elif k < .85:
            ops.append(get(r, big))
        elif k < .94:
            ops.append(dict(op='flush', s=r.choice(['out', 'err']), **r.choice([{}, {'r': 1}, {'m': 1}])))
        elif k < .97:
            cap = r.choice([0, 1, 2, 3, 5, 16])
            ops.append(dict(op='own', s=r.choice(['out', 'err']), cap=cap, **r.choice([{}, {'st': 1}, {'st': 2}]),
                            **{'in': [[97 + (i * 5 + n) % 26 for i in range(n)] for n in (r.randrange(0, 2 * cap + 3) for _ in range(r.randrange(0, 4)))]}))
        else:
            ops.append(dict(op='tie', s=r.choice(['out', 'err'])))
    late = {}
    if r.random() < .1:
        late['late'] = [put(r, big) for _ in range(r.randrange(1, 4))]
    inp = text(r, r.choice([0, 1, 3, 8, 20, 40]) if not big or r.random() < .8 else 900)
    if r.random() < .1 and inp:
        inp = inp[:-1] if inp[-1] != 13 else inp
        if inp and inp[-1] == 13:
            inp = inp[:-1]
    elif r.random() < .06:
        inp.insert(r.randrange(len(inp) + 1), r.choice([0x80, 0xFF, 0xC0, 0xED]))
        inp = [x for x in inp if x != 13]
    return dict(input=inp, arrive=[r.choice([-4, 1, 1, 2, 3, 4, 5, 7, 100]) for _ in range(r.choice([0, 3, 20, 100]))],
                leave=[r.choice([-4, 0, 1, 2, 3, 500]) for _ in range(r.choice([0, 0, 3, 10, 60]))], ops=ops, **late)


def splits(n, k):
    """All ways of n bytes arriving in pieces of at most k."""
    if n == 0:
        return [[]]
    return [[i] + s for i in range(1, min(n, k) + 1) for s in splits(n - i, k)]


def c20(ctx):
    T = ctx.thorough
    r = ctx.rng
    # the laws, over every way the bytes may leave and arrive
    gen(ctx, [1, 2, 6], [1, 3] if T else [2], 4 if T else 3, 'TRUE', emit=False)
    short = gen(ctx, [1, 2, 3, 4, 5, 6], [0, 3], 4 if T else 3, 'FALSE')
    r.shuffle(short)
    for n, caps in enumerate(BUILDS if T else BUILDS[:3]):
        # the library is also meant to be used as headers alone
        exe = build(ctx, caps, n, header_only=n == 1)
        big = caps is None
        sc = []
        for x in short[:(20000 if T else 700)]:
            for o in x['ops']:
                if o.get('k') in ('word', 'line'):
                    o['t'] = r.choice(['u8', 'u16', 'u32', 'w'])
            sc.append(dict(input=x['input'], ops=x['ops'], arrive=[r.choice([1, 2, 3, -4]) for _ in range(r.randrange(12))],
                           leave=[r.choice([1, 2, -4]) for _ in range(r.choice([0, 6]))]))
        # one text in every division of its arrival
        t = enc('u8', [0xE9, 32, 0x20AC, 10, 0x1F600, 0x41])
        for a in (splits(len(t), 4) if T else r.sample(splits(len(t), 4), 200)):
            sc.append(dict(input=t, arrive=a, leave=[], ops=[dict(op='get', k=k, t='u32') for k in r.choice([('word', 'line', 'cp', 'cp', 'cp'), ('cp',) * 7, ('line', 'cp', 'cp', 'line')])]))
        sc += [history(r, big) for _ in range(6000 if T else 900)]
        ctx.validate('StdioTrace', exe, sc, consts=NOSWALLOW, what='conversations on the standard streams, capacities %s' % (caps,), parallel=8)
    ctx.assumptions += ['read and write on descriptors 0, 1 and 2 are served by stand-ins that log them; an error of standard output is not injected',
                        'a carriage return that no line feed follows is left out (known finding of C18)']


def faults(ctx):
    """The standard streams' part of C15: failures for good of unbuffered transfers."""
    T = ctx.thorough
    r = ctx.rng
    exe = build(ctx, (0, 0, 0), 9)
    sc = []
    for _ in range(8000 if T else 1200):
        ops = []
        for _ in range(r.randrange(1, 8)):
            if r.random() < .6:
                n = r.choice([1, 2, 3, 5, 8, 20])
                ops.append(dict(op='raw', s=r.choice(['out', 'err']), **{'in': [97 + (i * 7 + n) % 26 for i in range(n)]}))
            else:
                ops.append(dict(op='get', k='raw', n=r.choice([1, 2, 3, 8, 20])))
        def plan():
            return [r.choice([-4, -4, -5, 1, 1, 2, 3, 5]) for _ in range(r.randrange(0, 12))]
        sc.append(dict(input=[(7 * i) % 256 for i in range(r.randrange(40))], arrive=plan(), leave=plan(), ops=ops))
    # large transfers in large pieces
    for i in range(60 if T else 16):
        n = [1500, 2600, 5000, 70000][i % 4]
        big = [97 + (j * 7 + i) % 26 for j in range(n)]
        plan = lambda: [r.choice([-4, 1, 600, 700, 1023, 1024, n // 2, n // 2 + 7, n * 9 // 10]) for _ in range(r.randrange(1, 5))]
        ops = [dict(op='raw', s='out', **{'in': big}), dict(op='raw', s='err', **{'in': big[::-1]}), dict(op='get', k='raw', n=n), dict(op='raw', s='out', **{'in': big[:5]}), dict(op='get', k='raw', n=9)]
        sc.append(dict(input=[(7 * j) % 256 for j in range(n + 5)], arrive=plan(), leave=plan(), ops=ops))
    ctx.validate('StdioTrace', exe, sc, consts=NOSWALLOW, what='standard stream transfers under faults', parallel=4)
