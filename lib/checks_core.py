"""C21 and C23: the test module and the application object."""
import json

MSG = ['empty', 'constructor', 'copy', 'move', 'destructor']
WORDS = ['a', 'Constructor', 'with space', "it's", 'x' * 40, '#1', 'Test', '%s %d', 'back\\slash', '"quoted"']


def body(r, live, n):
    ops = [dict(op='start', name=r.choice(WORDS) + str(r.randrange(1000)))]
    for _ in range(n):
        free = [d for d in range(1, 5) if d not in live]
        k = r.random()
        if k < .3:
            ops.append(dict(op='stage'))
        elif k < .4:
            ops.append(dict(op='push', m=r.choice(MSG[1:])))
        elif k < .6:
            ops.append(dict(op='pop'))
        elif k < .66:
            ops.append(dict(op='count'))
        elif k < .68:
            ops.append(dict(op='clear'))
        elif k < .72:
            ops.append(dict(op=r.choice(['info', 'error']), text='m%d' % r.randrange(100)))
        elif k < .8 and free:
            d = r.choice(free)
            live.add(d)
            ops.append(dict(op='dmake', d=d, **({'v': r.choice([0, 1, -5, 2147483647, -2147483647])} if r.random() < .7 else {})))
        elif k < .9 and free and live:
            d, f = r.choice(free), r.choice(sorted(live))
            live.add(d)
            ops.append(dict(op=r.choice(['dcopy', 'dmove']), d=d, **{'from': f}))
        elif live:
            d = r.choice(sorted(live))
            k2 = r.random()
            if k2 < .4:
                ops.append(dict(op='dget', d=d))
            elif k2 < .6:
                ops.append(dict(op='dset', d=d, v=r.randrange(-99, 99)))
            else:
                live.discard(d)
                ops.append(dict(op='ddrop', d=d))
    ops.append(dict(op='return', ok=int(r.random() < .6)))
    return ops


def module(r, n, size, runs):
    live = set()
    d = dict(what='tests', tests=[r.randrange(8) for _ in range(n)], runs=[])
    for _ in range(runs):
        before = []
        if r.random() < .3:
            before = [dict(op='push', m=r.choice(MSG[1:])), dict(op='count')][:r.randrange(3)]
        d['runs'].append(dict(before=before, bodies=[body(r, live, r.randrange(size + 1)) for _ in range(n)]))
    return d


def from_history(x):
    runs = []
    for e in x['h']:
        if e['op'] == 'run':
            runs.append(dict(before=[], bodies=[]))
        elif e['op'] == 'enter':
            runs[-1]['bodies'].append([])
        elif e['op'] != 'done':
            runs[-1]['bodies'][-1].append(e)
    return dict(what='tests', tests=x['tests'], runs=runs)


def c21(ctx):
    T = ctx.thorough
    r = ctx.rng
    exe = ctx.build('driver_core', parts=('core',))

    def gen(ntests, maxbody, runs, ops, **kw):
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\nCONSTANTS\n NTests = {%s}\n MaxBody = %d\n Runs = %d\n Ops = {%s}\n' % (
            ', '.join(map(str, ntests)), maxbody, runs, ', '.join('"%s"' % o for o in ops))
        return [from_history(json.loads(x)) for x in ctx.generate('TestModuleGen', cfg, workers=1, **kw)]
    every = ['stage', 'push', 'pop', 'clear', 'count', 'dmake', 'ddrop', 'dcopy', 'dmove', 'dget']
    sc = gen([0, 1], 4 if T else 3, 1, every)
    sc += gen([2], 1, 1, every) + gen([1, 2], 2, 1, ['stage', 'push', 'pop']) + gen([4 if T else 3], 1, 1, ['stage'])
    r.shuffle(sc)
    sc = sc[:30000 if T else 3000]
    for _ in range(4000 if T else 500):
        sc.append(module(r, r.choice([0, 1, 2, 3, 5, 9, 10, 11, 12]), r.choice([3, 8, 15]), 1))
    for n in [9, 10, 11, 99, 100, 101] + ([999, 1000, 1001] if T else [1000]):
        sc.append(module(r, n, 2 if n < 500 else 0, 1))
        sc.append(module(r, n, 1 if n < 500 else 0, 1))
    # many stages
    for n in (9, 10, 99, 101, 300):
        sc.append(dict(what='tests', tests=[0, 1], runs=[dict(before=[], bodies=[[dict(op='start', name='s')] + [dict(op='stage')] * n + [dict(op='return', ok=k)] for k in (0, 1)])]))
    ctx.validate('TestModuleTrace', exe, sc, what='test modules', parallel=8)
    known_second_run(ctx, exe)
    ctx.assumptions += ['run_tests is called once for each object (known finding)', 'every test calls start_test first and once; at most 65535 tests and stages (the counters are 16 bits wide)',
                        'the report is compared as one text after the run']


def known_second_run(ctx, exe):
    """run_tests called again on the same object: a listed finding (see known_findings.txt)."""
    one = dict(before=[], bodies=[[dict(op='start', name='t'), dict(op='return', ok=1)]])
    s = dict(what='tests', tests=[0], runs=[one, one])
    x = ctx.drive(exe, [s], procs=1)[0]
    if x is None or x.startswith('{"crash"') or ctx._tlc_trace('TestModuleTrace', [x], None, (), 1):
        ctx.known.append('run_tests called a second time on the same object counts and numbers on top of the first run')


def c23(ctx):
    T = ctx.thorough
    r = ctx.rng
    exe = ctx.build('driver_core', parts=('core',))
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\nCONSTANTS\n Depth = %d\n'
    sc = []
    for d in (1, 2, 3, 4):
        x = ctx.generate('ApplicationGen', cfg % d, workers=1)
        r.shuffle(x)
        sc += [dict(json.loads(y), what='app') for y in x[:40000 if T else 1500]]
    for _ in range(10000 if T else 1500):
        live, ops = set(), []
        for _ in range(r.randrange(1, 15)):
            o = r.choice([1, 2, 3])
            if o not in live:
                ops.append(dict(op='make', o=o, argc=r.choice([0, 1, 2, 7, 2147483647]), argv=r.randrange(8), own=r.randrange(2), r=r.randrange(-3, 50)))
                live.add(o)
            elif r.random() < .6:
                ops.append(dict(op='notice', o=o, text=[r.choice([0, 65, 0xC2, 0xA9, 32, 0xFF]) for _ in range(r.choice([0, 1, 3, 15, 16, 17, 100]))]))
            elif r.random() < .6:
                ops.append(dict(op='drop', o=o))
                live.discard(o)
            else:
                ops.append(dict(op='look'))
        sc.append(dict(what='app', ops=ops))
    ctx.validate('ApplicationTrace', exe, sc, what='application objects', parallel=8)
    ctx.assumptions += ['what app() is after the object it stood for is gone is not specified']
