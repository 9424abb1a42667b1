"""C10..C15: files and container resources."""
import json
from vp import CheckError

KINDS = [('file', 'byte'), ('opaque', 'byte'), ('opaque', 'string'), ('opaque', 'u16'), ('opaque', 'u32'),
         ('transparent', 'byte'), ('transparent', 'string'), ('transparent', 'u16'), ('transparent', 'u32')]
LAWS = 'INVARIANT Positive\nINVARIANT ReadBack\nINVARIANT Prefixes\nINVARIANT Emit\n'


def sset(x):
    return '{' + ', '.join(str(v) if not isinstance(v, str) else '"%s"' % v for v in x) + '}'


def gen(ctx, reads, writes, offs, refs, depth, sizes, modes, ops, simulate=None, laws=True, record=True):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + (LAWS if laws else 'INVARIANT Emit\n') + 'CONSTANTS\n' + \
        f' Reads = {sset(reads)}\n WriteLens = {sset(writes)}\n Offsets = {sset(offs)}\n Refs = {sset(refs)}\n Depth = {depth}\n' \
        f' Sizes = {sset(sizes)}\n Modes = {sset(modes)}\n Ops = {sset(ops)}\n'
    return ctx.generate('ResourceGen', cfg, workers=1, simulate=simulate, depth=depth + 2 if simulate else None, record=record)


def design(ctx, modes, big):
    ctx.model_check('Buffered', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Agrees\nINVARIANT Positions\nINVARIANT Contents\nINVARIANT Bounded\n'
                    'CONSTANTS\n Limits = {0, 1, 2}\n Caps = %s\n Sizes = %s\n Reads = {0, 1, 2, 3, 5}\n WriteLens = {0, 1, 2, 4}\n Offsets = {0, 1, 2, 4}\n'
                    ' MaxSize = %d\n MaxPos = %d\n Modes = %s\n' % (('{0, 1, 2, 3, 4}', '{0, 3, 6}', 7, 9, sset(modes)) if big else ('{0, 1, 2, 3}', '{0, 4}', 5, 6, sset(modes))))


def scripts(ctx, gens, kinds, caps, per=1, q=.5, how=True):
    """Assign kinds and capacities to generated histories, in rotation so that all combinations occur."""
    r = ctx.rng
    out = []
    combos = [(k, c) for k in kinds for c in caps]
    r.shuffle(combos)
    i = 0
    for g in gens:
        ops = json.loads(g)['ops'] if isinstance(g, str) else g
        for _ in range(per):
            (kind, ct), cap = combos[i % len(combos)]
            i += 1
            o2 = []
            for o in ops:
                o = dict(o, q=1 if r.random() < q else 0)
                if o['op'] == 'new':
                    o['how'] = r.randrange(2)
                if o['op'] == 'read' and kind != 'file':
                    pass
                o2.append(o)
            o2[-1]['q'] = 1
            if kind == 'file' and ops[0].get('mode') != 'r':
                o2.append(dict(op='drop', q=0))
            out.append(dict(kind=kind, ctype=ct, cap=cap, ops=o2))
    return out


def rand_history(ctx, mode, ops, n, size, cap, big=False):
    """A long random history around a capacity: sizes at, just below and just above it."""
    r = ctx.rng

    def amount():
        k = r.random()
        if k < .5:
            return r.randrange(0, 6)
        if k < .85 and cap:
            return max(0, cap + r.randrange(-2, 3))
        return r.randrange(0, max(4, 2 * cap + 3))
    h = [dict(op='new', size=size, mode=mode)]
    for i in range(n):
        o = r.choice(ops)
        if o == 'read':
            h.append(dict(op='read', n=amount()))
        elif o == 'write':
            h.append(dict(op='write', bs=[1 + (i * 31 + j * 7) % 230 for j in range(amount())]))
        elif o == 'seek':
            ref = r.choice(['begin', 'current', 'end'])
            lim = size + 3
            n_ = r.choice([0, r.randrange(0, lim + 1), r.randrange(0, lim + 1), amount()]) if ref == 'begin' else r.choice([0, amount(), -amount(), -amount()]) if ref == 'current' else r.choice([0, -amount(), -amount(), r.randrange(0, 4)])
            if ref == 'begin' and r.random() < .05:
                n_ = -r.randrange(1, 5)
            h.append(dict(op='seek', ref=ref, n=n_))
        elif o == 'step':
            h.append(dict(op=r.choice(['fwd', 'back']), n=amount()))
        elif o == 'tieread':
            h.append(dict(op='tieread', n=r.choice([0, 2, 8])))
        else:
            h.append(dict(op='flush'))
    return h


def long_scripts(ctx, count, modes, ops, kinds, caps, n=30, sizes=(0, 1, 5, 8, 17, 40), q=.5):
    r = ctx.rng
    res = []
    for i in range(count):
        kind, ct = kinds[i % len(kinds)]
        cap = caps[(i // len(kinds)) % len(caps)]
        m = modes[i % len(modes)]
        use = [o for o in ops if not (o in ('write', 'flush', 'tieread') and m == 'r') and not (o == 'read' and m == 'w')]
        h = rand_history(ctx, m, use, r.randrange(5, n + 1), r.choice(sizes), cap)
        res += scripts(ctx, [h], [(kind, ct)], [cap], q=q)
    return res


def big_scripts(ctx, count, modes, ops, kinds):
    """The default capacity of 1024."""
    r = ctx.rng
    res = []
    for i in range(count):
        m = modes[i % len(modes)]
        use = [o for o in ops if not (o in ('write', 'flush') and m == 'r') and not (o == 'read' and m == 'w')]
        h = rand_history(ctx, m, use, 14, r.choice([0, 1000, 1023, 1024, 1025, 2048, 3000]), 1024)
        res += scripts(ctx, [h], [kinds[i % len(kinds)]], [1024])
    return res


def wide_scripts(ctx, count, mode, ops):
    """Buffers larger than 16 bits can count: few and short histories, as every step shows the whole content."""
    r = ctx.rng
    res = []
    for i in range(count):
        cap = [65536, 65537, 70000, 131072, 8192][i % 5]
        h = [dict(op='new', size=r.choice([0, 66001, 140000]) if mode == 'w' else r.choice([66001, 140000]), mode=mode)]
        for k in range(5):
            o = ops[k % len(ops)]
            n = r.choice([1, 65535, 65536, 65537, cap - 1, cap, cap + 1])
            if o == 'read':
                h.append(dict(op='read', n=n))
            elif o == 'write':
                h.append(dict(op='write', bs=[1 + (k * 31 + j * 7) % 230 for j in range(n)]))
            elif o == 'seek':
                h.append(dict(op='seek', ref=r.choice(['begin', 'current', 'end']), n=r.choice([0, 65536, -65536, -65537, -3])))
            else:
                h.append(dict(op='flush'))
        res += scripts(ctx, [h], [KINDS[(i * 2) % 4]], [cap], q=.8)
    return res


def own_scripts(ctx, count, modes, ops, q=.3):
    """Resources of the user's own on the library's base classes, whose single transfers fall short."""
    r = ctx.rng
    res = long_scripts(ctx, count, modes, ops, [('own', 'byte')], [0, 1, 2, 3, 4, 7, 8, 16], n=24, q=q)
    for s in res:
        p = r.choice([0, .5, 1, 1])
        for o in s['ops'][1:]:
            if r.random() < p:
                o['f'] = [r.choice([1, 1, 2, 3, 4, 6, 7, 8, 9]) for _ in range(r.randrange(1, 8))]
    return res


def outside_scripts(ctx, count, modes, ops, q=.6):
    """Histories in which somebody else changes the content while nothing is buffered."""
    r = ctx.rng
    res = []
    for x in long_scripts(ctx, count, modes, ops, KINDS, [0, 0, 1, 3, 4, 8, 16], n=20, q=q):
        if x['kind'] == 'opaque' and x['ops'][0]['mode'] == 'r':
            continue
        out = []
        for o in x['ops']:
            out.append(o)
            if o['op'] != 'drop' and (x['cap'] == 0 or o['op'] in ('new', 'seek', 'fwd', 'back')) and r.random() < .35:
                n = r.choice([0, 1, 3, 8, 17, 40, 60])
                out.append(dict(op='outside', content=[r.randrange(256) for _ in range(n)], q=int(r.random() < q)))
        res.append(dict(x, ops=out))
    return res


def duplex(ctx, modes, count):
    """Resources of the user's own that cannot seek."""
    r = ctx.rng
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\nCONSTANTS\n Reads = %s\n WriteLens = %s\n Sizes = %s\n Caps = %s\n Modes = %s\n Depth = %d\n'
    g = [json.loads(x) for x in ctx.generate('DuplexGen', cfg % ('{1, 2, 5}', '{1, 2, 5}', '{0, 6}', '{0, 1, 3, 4}', sset(modes), 4), workers=1)]
    r.shuffle(g)
    g = g[:count]
    x = [json.loads(x) for x in ctx.generate('DuplexGen', cfg % ('{0, 1, 3, 4, 7, 8, 9, 17}', '{0, 1, 3, 4, 7, 8, 9, 17}', '{20, 60}', '{0, 2, 4, 8}', sset(modes), 14), simulate=count // 4, depth=16)]
    r.shuffle(x)
    g += x[:count]
    for s in g:
        p = r.choice([0, .5, 1])
        ops = []
        for o in s['ops']:
            if r.random() < p and o['op'] != 'new':
                o['f'] = [r.choice([1, 1, 2, 3, 4, 6, 7, 8, 9]) for _ in range(r.randrange(1, 8))]
            ops.append(o)
            if r.random() < .08:
                ops.append(dict(op=r.choice(['copy', 'move']), **{'as': r.randrange(2)}))
            if s['mode'] != 'r' and r.random() < .06:
                ops.append(dict(op='tieread'))
        s['ops'] = ops
    exe = ctx.build('driver_duplex', opt='-O0')
    ctx.validate('DuplexTrace', exe, g, what='resources that cannot seek', parallel=4)


def c10(ctx):
    T = ctx.thorough
    design(ctx, ['r'], True)
    exe = ctx.build('driver_resource', opt='-O0')
    caps = [0, 1, 2, 3, 4, 7, 8, 16]
    g = gen(ctx, [0, 1, 2, 3, 4, 5, 9], [1], [0], ['begin'], 4 if T else 3, [0, 1, 3, 4, 7, 8, 9], ['r'], ['read'])
    sc = scripts(ctx, g, KINDS, caps, per=6 if T else 2, q=.3)
    sc += long_scripts(ctx, 4000 if T else 500, ['r', 'rw'], ['read', 'read', 'read', 'read', 'seek', 'step'], KINDS, caps, q=.3)
    sc += long_scripts(ctx, 1000 if T else 150, ['r', 'rw'], ['read'], KINDS, caps, q=.3, n=40, sizes=(17, 40, 90))
    sc += big_scripts(ctx, 120 if T else 24, ['r', 'rw'], ['read', 'read', 'read', 'seek'], KINDS)
    sc += wide_scripts(ctx, 20 if T else 10, 'r', ['read', 'read', 'seek', 'read', 'read'])
    sc += own_scripts(ctx, 3000 if T else 400, ['r', 'rw'], ['read', 'read', 'read', 'read', 'seek', 'step'])
    sc += outside_scripts(ctx, 1500 if T else 250, ['r', 'rw'], ['read', 'read', 'read', 'seek'])
    ctx.validate('ResourceTrace', exe, sc, invs=('TypeOk',), what='reading histories', parallel=8)
    duplex(ctx, ['r'], 3000 if T else 300)
    far(ctx, ['r'], 1000 if T else 120)
    ctx.assumptions += ['the backing store is changed by somebody else only while nothing is buffered']


def c11(ctx):
    T = ctx.thorough
    design(ctx, ['w'], True)
    exe = ctx.build('driver_resource', opt='-O0')
    caps = [0, 1, 2, 3, 4, 7, 8, 16]
    g = gen(ctx, [1], [0, 1, 2, 3, 5], [0, 2, 6], ['begin', 'end'], 3, [0, 3], ['w'], ['write', 'seek', 'flush'])
    ctx.rng.shuffle(g)
    sc = scripts(ctx, g[:20000 if T else 2500], KINDS, caps, q=.3)
    g2 = gen(ctx, [1], [0, 1, 2, 3, 4, 7, 9], [0], ['end'], 5 if T else 4, [0, 5], ['w'], ['write', 'flush'], laws=False)
    ctx.rng.shuffle(g2)
    sc += scripts(ctx, g2[:20000 if T else 2500], KINDS, caps, q=.2)
    sc += long_scripts(ctx, 4000 if T else 500, ['w', 'rw'], ['write', 'write', 'write', 'write', 'seek', 'step', 'flush', 'tieread'], KINDS, caps, q=.3)
    sc += big_scripts(ctx, 120 if T else 24, ['w', 'rw'], ['write', 'write', 'write', 'seek', 'flush'], KINDS)
    sc += wide_scripts(ctx, 20 if T else 10, 'w', ['write', 'write', 'write', 'seek', 'write'])
    sc += own_scripts(ctx, 3000 if T else 400, ['w', 'rw'], ['write', 'write', 'write', 'seek', 'step', 'flush', 'tieread'])
    sc += outside_scripts(ctx, 1500 if T else 250, ['w', 'rw'], ['write', 'write', 'write', 'seek', 'flush'])
    ctx.validate('ResourceTrace', exe, sc, invs=('TypeOk',), what='writing histories', parallel=8)
    duplex(ctx, ['w'], 3000 if T else 300)
    far(ctx, ['w'], 1000 if T else 120)


def c12(ctx):
    T = ctx.thorough
    r = ctx.rng
    design(ctx, ['rw'], T)
    exe = ctx.build('driver_resource', opt='-O0')
    caps = [0, 1, 2, 3, 4, 7, 8, 16]
    g = gen(ctx, [1, 2, 5], [1, 2, 5], [0, 1, 3], ['begin', 'current', 'end'], 3, [4], ['rw'], ['read', 'write', 'seek', 'flush'])
    r.shuffle(g)
    sc = scripts(ctx, g[:30000 if T else 3000], KINDS, caps, per=1, q=.3)
    sc += long_scripts(ctx, 6000 if T else 700, ['rw'], ['read', 'read', 'write', 'write', 'seek', 'step', 'flush'], KINDS, caps, q=.3)
    sc += big_scripts(ctx, 120 if T else 24, ['rw'], ['read', 'read', 'write', 'write', 'seek', 'flush'], KINDS)
    # copies and moves of owning containers
    ok = [k for k in KINDS if k[0] == 'opaque']
    for i in range(3000 if T else 500):
        m = r.choice(['r', 'w', 'rw', 'rw'])
        cap = r.choice(caps)
        use = [o for o in ('read', 'write', 'seek', 'flush') if not (o in ('write', 'flush') and m == 'r') and not (o == 'read' and m == 'w')]
        h = rand_history(ctx, m, use, r.randrange(0, 5), r.choice([0, 3, 8, 20]), cap)
        both = False
        if r.random() < .4:
            h += [dict(x, o=2) for x in rand_history(ctx, m, use, 3, r.choice([0, 3, 8]), cap)]
            both = True
        cur = 1
        for _ in range(r.randrange(1, 4)):
            k = r.choice(['copy', 'copy', 'copy', 'move'])
            t = r.choice([1, 2]) if both else 3 - cur
            if r.random() < .15:
                h.append(dict(op='copyself', o=cur))
            h.append(dict(op=k, o=t))
            both = k == 'copy'
            cur = t
            for x in rand_history(ctx, m, use, r.randrange(1, 6), 9, cap)[1:]:
                h.append(dict(x, o=r.choice([1, 2]) if both else cur))
        sc += scripts(ctx, [h], [ok[i % len(ok)]], [cap])
    sc += wide_scripts(ctx, 20 if T else 10, 'rw', ['read', 'write', 'read', 'seek', 'write'])
    # resources replaced by copies of themselves
    for x in long_scripts(ctx, 3000 if T else 500, ['r', 'w', 'rw'], ['read', 'read', 'write', 'write', 'seek', 'flush'], [k for k in KINDS if k[0] == 'transparent'] + [('own', 'byte')], caps, n=14):
        ops = []
        for o in x['ops']:
            ops.append(o)
            if r.random() < .3:
                ops.append(dict(op='renew', mv=r.randrange(2), q=1, **{'as': r.randrange(2)}))
        sc.append(dict(x, ops=ops))
    sc += own_scripts(ctx, 3000 if T else 400, ['rw'], ['read', 'read', 'write', 'write', 'seek', 'step', 'flush'])
    sc += outside_scripts(ctx, 2000 if T else 300, ['rw'], ['read', 'read', 'write', 'write', 'seek', 'step', 'flush'])
    ctx.validate('ResourceTrace', exe, sc, invs=('TypeOk',), what='mixed histories and copies', parallel=8)
    duplex(ctx, ['rw'], 6000 if T else 800)
    far(ctx, ['rw'], 1000 if T else 120)


def c13(ctx):
    T = ctx.thorough
    design(ctx, ['rw', 'r'], T)
    exe = ctx.build('driver_resource', opt='-O0')
    caps = [0, 1, 2, 3, 4, 7, 8, 16]
    g = []
    for m in ('r', 'w', 'rw'):
        x = gen(ctx, [1, 3], [1, 3], [0, 1, 2, 5], ['begin', 'current', 'end'], 3, [4], [m], ['read', 'write', 'seek', 'step', 'flush'], laws=m == 'rw')
        ctx.rng.shuffle(x)
        g += x[:8000 if T else 1200]
    sc = scripts(ctx, g, KINDS, caps, q=1)
    sc += long_scripts(ctx, 6000 if T else 700, ['r', 'w', 'rw'], ['read', 'write', 'seek', 'seek', 'step', 'step', 'flush'], KINDS, caps, q=.9)
    sc += big_scripts(ctx, 120 if T else 24, ['r', 'w', 'rw'], ['read', 'write', 'seek', 'step'], KINDS)
    sc += wide_scripts(ctx, 20 if T else 10, 'rw', ['read', 'seek', 'read', 'write', 'seek'])
    sc += own_scripts(ctx, 3000 if T else 400, ['r', 'w', 'rw'], ['read', 'write', 'seek', 'seek', 'step', 'step', 'flush'], q=.9)
    sc += outside_scripts(ctx, 2000 if T else 300, ['r', 'w', 'rw'], ['read', 'write', 'seek', 'step', 'flush'], q=.9)
    ctx.validate('ResourceTrace', exe, sc, invs=('TypeOk',), what='positions and seeks', parallel=8)
    far(ctx, ['r', 'w', 'rw'], 4000 if T else 400)


def far(ctx, modes, count):
    """Histories around the multiples of 2^31, 2^32, ... in files with holes and reserved memory."""
    r = ctx.rng
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\nCONSTANTS\n Depth = %d\n Modes = %s\n Regions = {0, 1}\n Near = {0, 1, 5}\n'
    g = []
    for d in (3, 6, 12):
        x = ctx.generate('FarGen', cfg % (d, sset(modes)), simulate=count // 2, depth=d + 2)
        r.shuffle(x)
        g += x[:count]
    exe = ctx.build('driver_far', opt='-O0')
    sc = []
    kinds = ['file', 'opaque', 'transparent', 'file']
    for i, y in enumerate(g):
        ops = json.loads(y)['ops']
        for o in ops:
            o['q'] = 1 if r.random() < .7 else 0
        k = kinds[i % 4]
        sc.append(dict(kind=k, B=r.choice([2**31, 2**31, 2**32, 2**32, 2**33, 2**31 + 2**30]), cap=r.choice([0, 1, 4, 8, 1024]), env=r.choice(['', 'chdir', 'rename', 'unlink']) if k == 'file' else '',
                       ops=ops + [dict(op='gone', q=0)]))
    ctx.validate('FarTrace', exe, sc, what='very large resources', parallel=8)


FL = 'CONSTANTS\n NObj = 3\n NPath = 4\n Impossible = {4}\n'


def fl_gen(ctx, depth, modes, caps, reads, writes, ops, faults, nobj=3, npath=4, simulate=None):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\n' + ('' if simulate else 'PROPERTY Monotone\n') + \
        f'CONSTANTS\n NObj = {nobj}\n NPath = {npath}\n Impossible = {{4}}\n Modes = {sset(modes)}\n Caps = {sset(caps)}\n' \
        f' Reads = {sset(reads)}\n Writes = {sset(writes)}\n Depth = {depth}\n Ops = {sset(ops)}\n Faults = {faults}\n'
    return ctx.generate('FileLifeGen', cfg, workers=8 if not simulate else 1, simulate=simulate, depth=depth + 1 if simulate else None)


def c14(ctx):
    T = ctx.thorough
    r = ctx.rng
    exe = ctx.build('driver_file', opt='-O0')
    allops = ['make', 'makeopen', 'open', 'close', 'drop', 'mvctor', 'mvassign', 'read', 'write', 'seek', 'flush']
    g = []
    # every short history of opening
    x = fl_gen(ctx, 2, ['r', 'w', 'rw'], [0, 8], [2], [3], ['make', 'makeopen', 'open', 'close'], '{TRUE, FALSE}', nobj=1)
    r.shuffle(x)
    g += x[:20000 if T else 2000]
    # histories of two objects over moves
    x = fl_gen(ctx, 5 if T else 4, ['rw'], [4], [2], [3], ['makeopen', 'make', 'mvctor', 'mvassign', 'write', 'read', 'close', 'open'], '{FALSE}', nobj=2, npath=1)
    r.shuffle(x)
    g += x[:20000 if T else 2000]
    # long ones
    x = fl_gen(ctx, 14, ['r', 'w', 'rw'], [0, 1, 4, 1024], [0, 1, 3, 9], [0, 1, 3, 9], allops, '{FALSE}', simulate=300 if T else 40)
    r.shuffle(x)
    g += x[:20000 if T else 2500]
    x = fl_gen(ctx, 9, ['r', 'w', 'rw'], [0, 4], [2, 5], [2, 5], allops, '{TRUE, FALSE}', simulate=300 if T else 40, nobj=2)
    r.shuffle(x)
    g += x[:20000 if T else 1500]
    sc = []
    for y in g:
        ops = json.loads(y)['ops'] if isinstance(json.loads(y), dict) else json.loads(y)
        sc.append(dict(ops=ops + [dict(op='drop', o=o) for o in r.sample([1, 2, 3], 3)]))
    sc += [dict(ops=h) for h in life_histories(ctx, 6000 if T else 1500)]
    ctx.validate('FileLifeTrace', exe, sc, consts={'NObj': 3, 'NPath': 4, 'Impossible': '{4}'}, invs=('Laws',), what='file life cycles', parallel=8)
    # everything a path can lead to
    g = ctx.generate('OpenPathGen', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\n', workers=1)
    exe = ctx.build('driver_open', opt='-O0')
    ctx.validate('OpenPathTrace', exe, [json.loads(x) for x in g], what='what a path leads to', parallel=2)
    ctx.assumptions += ['no other process touches the files; two objects hold the same file open only for reading',
                        'a failing open system call is injected as EACCES']


def life_histories(ctx, count):
    """Random histories weighted towards open files: sensible by construction."""
    r = ctx.rng
    out = []
    for _ in range(count):
        st = {1: None, 2: None, 3: None}      # None, 'closed', (path, mode)
        h = []
        for k in range(r.randrange(4, 26)):
            o = r.choice([1, 2, 3])
            live = [q for q in st if st[q] is not None and q != o]
            opn = isinstance(st[o], tuple)

            def pick():
                m = r.choice(['r', 'w', 'rw', 'rw'])
                p = r.choice([1, 1, 2, 2, 3, 4])
                busy = [st[q] for q in st if q != o and isinstance(st[q], tuple) and st[q][0] == p]
                if busy and not (m == 'r' and all(b[1] == 'r' for b in busy)):
                    return None
                return dict(path=p, mode=m, create=r.random() < .6, fault=r.random() < .07)
            if st[o] is None:
                if live and r.random() < .45:
                    f = r.choice(live)
                    h.append(dict(op='mvctor', o=o, **{'from': f}))
                    st[o], st[f] = st[f], 'closed'
                    continue
                a = pick()
                if a is None or r.random() < .1:
                    h.append(dict(op='make', o=o, cap=1024))
                    st[o] = 'closed'
                    continue
                h.append(dict(op='makeopen', o=o, cap=r.choice([0, 1, 2, 4, 4, 8, 16]), **a))
                st[o] = 'maybe'
            else:
                c = r.random()
                if opn and c < .6:
                    k2 = r.random()
                    n = r.choice([0, 1, 2, 3, 4, 5, 9, 17])
                    if k2 < .35:
                        h.append(dict(op='read', o=o, n=n))
                    elif k2 < .75:
                        h.append(dict(op='write', o=o, bs=[100 + (7 * k + j) % 120 for j in range(n)]))
                    elif k2 < .9:
                        h.append(dict(op='seek', o=o, ref=r.choice(['begin', 'end']), n=r.choice([0, 2, 5])))
                    else:
                        h.append(dict(op='flush', o=o))
                    continue
                if c < .7:
                    h.append(dict(op='close', o=o))
                    st[o] = 'closed'
                    continue
                if c < .78:
                    h.append(dict(op='drop', o=o))
                    st[o] = None
                    continue
                if c < .8:
                    h.append(dict(op='mvassign', o=o, **{'from': o}))       # onto itself
                    continue
                if c < .9 and live:
                    f = r.choice(live)
                    h.append(dict(op='mvassign', o=o, **{'from': f}))
                    st[o], st[f] = st[f], 'closed'
                    continue
                a = pick()
                if a is None:
                    continue
                h.append(dict(op='open', o=o, **a))
                st[o] = 'maybe'
            if st[o] == 'maybe':
                made = any(e.get('create') and e.get('path') == 3 and not e.get('fault') for e in h if e['op'] in ('open', 'makeopen'))
                ok = not a['fault'] and a['path'] != 4 and (a['path'] <= 2 or made or a['create'])
                st[o] = (a['path'], a['mode']) if ok else 'closed'
        out.append(h + [dict(op='drop', o=o) for o in r.sample([1, 2, 3], 3)])
    return out


def c15(ctx):
    T = ctx.thorough
    r = ctx.rng
    cfg = 'SPECIFICATION Spec\nINVARIANT Prefix\nINVARIANT Complete\nINVARIANT Emit\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Sizes = {0, 1, 2, 3, 5}\n MaxFaults = %d\n Hard = %s\n'
    soft = [json.loads(x) for x in ctx.generate('Transfer', cfg % (5 if T else 4, 'FALSE'), workers=1)]
    hard = [json.loads(x) for x in ctx.generate('Transfer', cfg % (4, 'TRUE'), workers=1)]
    exe = ctx.build('driver_resource', opt='-O0')
    F = [('file', 'byte')]
    sc = []

    def bs(k, n):
        return [100 + (7 * k + j) % 120 for j in range(n)]
    # every schedule of one transfer, on a write and a read, and the operations after it
    for h, caps in ((hard, [0]), (soft, [0, 1, 2, 4, 8])):
        for x in h:
            for c in caps:
                n, f = x['n'], x['f']
                sc.append(dict(kind='file', ctype='byte', cap=c, ops=[
                    dict(op='new', size=7, mode='rw'), dict(op='write', bs=bs(1, n), f=f), dict(op='flush', f=f if -5 not in f else []), dict(op='read', n=2), dict(op='write', bs=bs(3, 2)), dict(op='seek', ref='begin', n=0), dict(op='read', n=12), dict(op='drop', q=0)]))
                sc.append(dict(kind='file', ctype='byte', cap=c, ops=[
                    dict(op='new', size=6, mode=r.choice(['r', 'rw'])), dict(op='read', n=1), dict(op='read', n=n, f=f), dict(op='read', n=3), dict(op='read', n=9)]))
                if -5 not in f and c:
                    sc.append(dict(kind='file', ctype='byte', cap=c, ops=[
                        dict(op='new', size=6, mode='w'), dict(op='write', bs=bs(2, n)), dict(op='write', bs=bs(3, 2)), dict(op='drop', q=0, f=f)]))
                    sc.append(dict(kind='file', ctype='byte', cap=c, ops=[
                        dict(op='new', size=6, mode='rw'), dict(op='write', bs=bs(2, n)), dict(op='seek', ref='end', n=0, f=f), dict(op='write', bs=bs(3, 2), f=f), dict(op='drop', q=0, f=f)]))
    r.shuffle(sc)
    if not T:
        sc = sc[:6000]
    # long histories with a fault plan on every call
    for s in long_scripts(ctx, 8000 if T else 1200, ['r', 'w', 'rw'], ['read', 'read', 'write', 'write', 'seek', 'step', 'flush'], F, [0, 1, 2, 3, 4, 7, 8, 16], q=.4):
        hardp = .15 if s['cap'] == 0 else 0
        for o in s['ops'][1:]:
            f = []
            for _ in range(r.randrange(0, 7)):
                f.append(r.choice([-4, -4, 1, 1, 2, 3, 5, 9]))
            if o['op'] in ('read', 'write') and r.random() < hardp:
                f.append(-5)
            o['f'] = f
        sc.append(s)
    sc += own_scripts(ctx, 4000 if T else 800, ['r', 'w', 'rw'], ['read', 'read', 'write', 'write', 'seek', 'flush'])
    # large transfers in large pieces
    for i in range(160 if T else 36):
        n = [1500, 2600, 5000, 70000][i % 4]
        plan = lambda: [r.choice([-4, 1, 600, 700, 1023, 1024, n // 2, n // 2 + 7, n * 9 // 10]) for _ in range(r.randrange(1, 5))]
        sc.append(dict(kind='file', ctype='byte', cap=r.choice([0, 1, 8, 1024, 2048, 70001]), ops=[
            dict(op='new', size=r.choice([0, 7, n]), mode='rw'), dict(op='write', bs=bs(i, n), f=plan()), dict(op='write', bs=bs(i + 1, 3), f=plan()), dict(op='flush', f=plan()),
            dict(op='seek', ref='begin', n=r.choice([0, 1, n // 2]), f=plan()), dict(op='read', n=n, f=plan()), dict(op='read', n=9, f=plan()), dict(op='drop', q=0)]))
    ctx.validate('ResourceTrace', exe, sc, invs=('TypeOk',), what='transfers under faults', parallel=8)
    duplex(ctx, ['r', 'w', 'rw'], 3000 if T else 500)
    import checks_stdio
    checks_stdio.faults(ctx)
    ctx.assumptions += ['faults are short counts, EINTR and EIO of read and write; failures for good are specified for unbuffered transfers only']
