"""C22: windows, their events and the application loop, over a stand-in of GTK."""
import json, subprocess
import vp

MODES = ['standard', 'maximized', 'minimized']
TITLES = [[], [65], list('Demo Window \u00af\\_(\u30c4)_/\u00af'.encode()), list(b'x' * 40), list('\U0001f600\u20ac'.encode()), list(range(1, 128))]
FEW = (list(range(0x20, 0x7f)) + list(range(0xff80, 0xffe0)) + [0, 1, 0x1f, 0x7f, 0xa0, 0xc1, 0xe1, 0x141, 0x161, 0xff08, 0xff09, 0xff0d, 0xff1b, 0xff50,
           0xffe1, 0xffff, 0xffffff, 0x1000041, 0x1000061, 0x1000020])
ALLKEYS = FEW + list(range(0x800)) + list(range(0xfd00, 0x10000)) + list(range(0x1000000, 0x1000200)) + list(range(0x1008ff00, 0x10090000))


def opened(r, op, o):
    return dict(op=op, o=o, w=r.choice([1, 400, 1920]), h=r.choice([1, 300, 1080]), title=r.choice(TITLES), mode=r.choice(MODES))


def native_event(r, n=None):
    n = n or r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6] if r.random() < .8 else range(1, 12))
    k = r.random()
    if k < .45:
        return dict(op='key', n=n, dir=r.choice(['down', 'up']), val=r.choice(FEW))
    if k < .7:
        return dict(op='resize', n=n, dim=r.choice('wh'), v=r.randrange(2000))
    return dict(op='userclose', n=n)


def operation(r, slots=3):
    o = r.randrange(1, slots + 1)
    k = r.random()
    if k < .18:
        return opened(r, 'make', o)
    if k < .26:
        return opened(r, 'open', o)
    if k < .38:
        return dict(op='show', o=o)
    if k < .41:
        return dict(op='hide', o=o)
    if k < .50:
        return dict(op='close', o=o)
    if k < .58:
        return dict(op='drop', o=o)
    if k < .64:
        return dict(op='movec', o=o, **{'from': r.choice([x for x in range(1, slots + 1) if x != o])})
    if k < .72:
        return dict(op='assign', o=o, **{'from': r.randrange(1, slots + 1)})
    if k < .76:
        return dict(op='settitle', o=o, title=r.choice(TITLES))
    if k < .80:
        return dict(op='gettitle', o=o)
    return native_event(r)


def reactions(r, n, busy, slots):
    return [dict(acc=int(r.random() < .6), ops=[operation(r, slots) for _ in range(r.choice([0, 0, 1, 1, 2]) if r.random() < busy else 0)]) for _ in range(n)]


def loop(r, n):
    its = []
    for _ in range(n):
        its.append(dict(t=r.choice([0, 1, 2, 5, 8]), idle=1) if r.random() < .5 else dict(t=r.choice([0, 0, 1]), ev=native_event(r)))
    return dict(op='run', items=its)


def history(r):
    ops = []
    slots = r.choice([3, 3, 5])
    for o in range(1, r.randrange(slots + 1) + 1):
        ops.append(opened(r, 'make', o))
        if r.random() < .8:
            ops.append(dict(op='show', o=o))
    for _ in range(r.randrange(14)):
        ops.append(operation(r, slots))
        if r.random() < .2:
            ops[-1]['t'] = r.randrange(20)
    if r.random() < .6:
        ops.append(loop(r, r.randrange(12)))
        for _ in range(r.randrange(4)):
            ops.append(operation(r, slots))
        if r.random() < .3:
            ops.append(loop(r, r.randrange(6)))
    return dict(ops=ops, react=reactions(r, r.choice([0, 3, 12]), .6, slots), upd=reactions(r, r.choice([0, 0, 6]), .7, slots))


def from_history(x):
    """A history of WindowGen as a script of the driver."""
    ops, react, upd, stack = [], [], [], []
    for e in x['h']:
        if e['op'] == 'b':
            a = {k: v for k, v in e.items() if k not in ('op', 'what')}
            a['op'] = e['what']
            if not stack:
                ops.append(a)
            elif 'items' in stack[-1]:
                stack[-1]['items'].append(dict(t=0, ev=a))
            else:
                stack[-1]['ops'].append(a)
            stack.append(dict(kind='op'))
        elif e['op'] == 'hb':
            f = dict(acc=1, ops=[])
            (upd if e['h'] == 'update' else react).append(f)
            stack.append(f)
        elif e['op'] == 'he':
            stack.pop()['acc'] = int(e['acc'])
        elif e['op'] == 'e':
            stack.pop()
        elif e['op'] == 'run':
            f = dict(op='run', items=[])
            ops.append(f)
            stack.append(f)
        elif e['op'] == 'poll':
            stack[-1]['items'].append(dict(t=2, idle=1))
        elif e['op'] == 'ran':
            stack.pop()
    return dict(ops=ops, react=react, upd=upd)


def c22(ctx):
    T = ctx.thorough
    r = ctx.rng
    flags = subprocess.run(['pkg-config', '--cflags', 'gtk4'], stdout=subprocess.PIPE, text=True).stdout.split() + ['-DG_DISABLE_CAST_CHECKS', '-DG_DISABLE_CHECKS']
    exe = ctx.build('driver_gui', parts=('core', 'desktop_gui'), extra=flags, libs=['-lglib-2.0'])
    every = ['make', 'open', 'show', 'hide', 'close', 'drop', 'gettitle', 'settitle', 'movec', 'assign', 'key', 'resize', 'userclose', 'run']

    def gen(budget, ops, slots, nats, stack=6, keep=None, **kw):
        cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\nCONSTANTS\n Budget = %d\n Ops = {%s}\n Slots = {%s}\n Nats = %d\n MaxStack = %d\n Simulating = FALSE\n'
               % (budget, ', '.join('"%s"' % o for o in ops), ', '.join(map(str, slots)), nats, stack))
        x = ctx.generate('WindowGen', cfg, **kw)
        r.shuffle(x)
        return [from_history(json.loads(y)) for y in x[:keep]]
    sc = gen(3 if not T else 4, every, [1, 2], 2, keep=100000 if T else 2500)
    sc += gen(5 if not T else 6, ['make', 'show', 'close', 'drop', 'open', 'userclose'], [1, 2], 2, keep=100000 if T else 2500)
    sc += gen(6 if not T else 7, ['make', 'show', 'assign', 'movec', 'userclose'], [1, 2], 2, keep=100000 if T else 2500)
    sc += gen(6 if not T else 7, ['make', 'show', 'close', 'run'], [1, 2], 2, keep=100000 if T else 2500)
    sc += gen(14, every, [1, 2, 3], 4, stack=9, simulate=20000 if T else 3000, depth=60)
    # every key
    for d in ('down', 'up'):
        ks = list(ALLKEYS)
        r.shuffle(ks)
        for i in range(0, len(ks), 40):
            sc.append(dict(ops=[opened(r, 'make', 1), dict(op='show', o=1)] + [dict(op='key', n=1, dir=d, val=v) for v in ks[i:i + 40]]))
    for _ in range(40000 if T else 5000):
        sc.append(history(r))
    ctx.validate('WindowTrace', exe, sc, invs=['Laws'], what='windows', parallel=8)
    ctx.assumptions += ['GTK 4 is replaced by a stand-in with its documented object life times and signals (driver_gui.cpp): it is compiled against the real GTK 4 headers; the real GTK needs a display',
                        'the Windows and macOS back ends cannot be compiled here and are not covered',
                        'a handler does not destroy the object it belongs to, nor run the loop again']
