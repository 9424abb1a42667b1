"""Common machinery of the checks: build drivers from /repo, run them on generated
scripts, let TLC generate scripts and validate recorded traces, write evidence.

A check is a function check(ctx).  It reports through ctx.validate (a rejected trace
that repeats is a violation) and returns; main() turns that into the exit status.
"""
import json, os, re, subprocess, sys, time, shutil, random, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRV = os.path.join(VERIF, 'drivers')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed (no verdict)."""


class StopCheck(Exception):
    """A violation has been reported; the rest of the check is skipped."""


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.thorough = tier == 'thorough'
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.work = os.path.join(VERIF, 'work', pid)
        self.replay = os.path.join(VERIF, 'replay', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(self.replay, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(self.replay)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        events_validated=0, tlc_runs=[])
        self.assumptions = []
        self.violations = []
        self.known = []
        self.nrun = 0

    # ---------------------------------------------------------------- build
    def build(self, driver, parts=('core', 'io', 'unicode'), san=True, opt='-O1', extra=(), libs=(), name=None):
        """Compile drivers/<driver>.cpp together with the library from REPO's working tree."""
        name = name or driver
        out = os.path.join(self.work, name)
        os.makedirs(out, exist_ok=True)
        flags = ['-std=c++20', '-w', '-g1', opt, '-fno-omit-frame-pointer', '-pthread',
                 '-I' + REPO + '/api/include', '-I' + REPO + '/api/src', '-I' + DRV, *extra]
        if san:
            flags += ['-fsanitize=address']
        jobs = []
        srcs = [(os.path.join(DRV, driver + '.cpp'), os.path.join(out, 'driver.o'))]
        srcs += [(f'{REPO}/api/src/cmp/{p}/definitions.cpp', os.path.join(out, p + '.o')) for p in parts]
        for s, o in srcs:
            jobs.append((s, subprocess.Popen(['g++', *flags, '-c', s, '-o', o], stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT, text=True)))
        for s, j in jobs:
            o, _ = j.communicate()
            if j.returncode:
                raise CheckError(f'compiling {s} failed:\n{o[-4000:]}')
        exe = os.path.join(out, 'driver')
        r = subprocess.run(['g++', *flags, *[o for _, o in srcs], '-o', exe, *libs],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('linking failed:\n' + r.stdout[-4000:])
        return exe

    def foreign_locale(self, scripts=(), every=7):
        """A single-byte Turkish locale for scripts that carry "loc" (where the letters i and I are no pair)."""
        d = os.path.join(self.work, 'loc')
        os.makedirs(d, exist_ok=True)
        try:
            subprocess.run(['localedef', '-i', 'tr_TR', '-f', 'ISO-8859-9', os.path.join(d, 'tr_TR.ISO-8859-9')],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            pass
        if os.path.isdir(os.path.join(d, 'tr_TR.ISO-8859-9')):
            self.locpath = d
            for x in scripts[::every]:
                x['loc'] = 1
            self.cov['locale'] = 'scripts marked so run in tr_TR.ISO-8859-9'
        else:
            self.assumptions.append('no locale could be compiled here: everything ran in the C locale')

    # ---------------------------------------------------------------- driver
    def _chunk(self, exe, scripts, base, args, env, limit, total):
        """Run scripts through the driver; returns list of trace lines (text), one per script.
        A script on which the driver dies or hangs yields a line with "crash"."""
        out = [None] * len(scripts)
        pos, crashes, hangs = 0, 0, 0
        while pos < len(scripts):
            p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=env)
            try:
                so, se = p.communicate(('\n'.join(scripts[pos:]) + '\n').encode(), timeout=total)
                why = None
            except subprocess.TimeoutExpired:
                p.kill()
                so, se = p.communicate()
                why = 'timeout'
            lines = so.decode('utf-8', 'replace').split('\n')
            done = [x for x in lines[:-1]]
            for i, x in enumerate(done):
                if pos + i < len(scripts):
                    out[pos + i] = x
            pos += len(done)
            if p.returncode == 0 and pos >= len(scripts):
                break
            if p.returncode == 3:
                raise CheckError('driver rejected its script: ' + se.decode('utf-8', 'replace')[-2000:])
            if pos >= len(scripts):
                # died after the last script (exit handlers, static destruction)
                pos = len(scripts) - 1
            err = se.decode('utf-8', 'replace')
            m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
            what = why or (m.group(1) if m else f'exit {p.returncode}')
            out[pos] = json.dumps(dict(crash=what, ev=[], stderr=err[-1500:]))
            pos += 1
            crashes += 1
            hangs += bool(why) or p.returncode == -14
            if crashes > 12 or hangs > 1:
                for k in range(pos, len(scripts)):
                    out[k] = None
                break
        return out

    def drive(self, exe, scripts, args=(), limit=20, total=400, procs=None, env=None):
        """Run every script (a JSON-able value each) through the driver, in parallel chunks."""
        from concurrent.futures import ThreadPoolExecutor
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
                 VP_LIMIT=str(limit), LC_ALL='C.UTF-8')
        sd = os.path.join(self.work, 'scratch')
        os.makedirs(sd, exist_ok=True)
        e['VP_SCRATCH'] = sd
        if getattr(self, 'locpath', None):
            e['LOCPATH'] = self.locpath
        e.update(env or {})
        text = [s if isinstance(s, str) else json.dumps(s, separators=(',', ':')) for s in scripts]
        procs = procs or NCPU
        n = max(1, (len(text) + procs - 1) // procs)
        chunks = [(i, text[i:i + n]) for i in range(0, len(text), n)]
        with ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(lambda c: self._chunk(exe, c[1], c[0], list(args), e, limit, total), chunks))
        lines = [x for r in res for x in r]
        return lines

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=800, extra=(), heap='6g', record=True):
        self.nrun += 1
        d = os.path.join(self.work, f'tlc{self.nrun}_{module}')
        os.makedirs(d, exist_ok=True)
        for f in glob.glob(os.path.join(SPEC, '*.tla')):
            shutil.copy(f, d)
        cf = os.path.join(d, module + '.cfg')
        open(cf, 'w').write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m', '-Djava.io.tmpdir=' + d,
               '-cp', JARS, 'tlc2.TLC', '-config', cf, '-workers', str(workers or NCPU),
               '-metadir', os.path.join(d, 'meta'), *extra, os.path.join(d, module + '.tla')]
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               timeout=timeout, cwd=d)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            raise CheckError(f'TLC timed out on {module} after {timeout}s')
        open(os.path.join(d, 'out.txt'), 'w').write(out)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        m2 = re.findall(r'The number of states generated: (\d+)', out)
        if os.environ.get('VP_TIMES'): print(module, round(time.time() - t, 1), flush=True)
        st = dict(module=module, rc=rc, out=out, dir=d, wall=round(time.time() - t, 1),
                  generated=int(m[-1][0]) if m else (int(m2[-1]) if m2 else 0), distinct=int(m[-1][1]) if m else 0)
        if record:
            self.cov['transitions'] += st['generated']
            self.cov['states'] += st['distinct'] or st['generated']
            for r in self.cov['tlc_runs']:
                if r['module'] == module:
                    break
            else:
                r = dict(module=module, runs=0, states_generated=0, distinct_states=0)
                self.cov['tlc_runs'].append(r)
            r['runs'] += 1
            r['states_generated'] += st['generated']
            r['distinct_states'] += st['distinct']
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        return st

    def model_check(self, module, cfg, env=None, **kw):
        """Exhaustive check of a specification on its own; any error is an error of the check."""
        st = self.tlc(module, cfg, env, **kw)
        if st['rc'] != 0 or 'No error has been found' not in st['out']:
            raise CheckError(f'specification {module} does not pass TLC (rc {st["rc"]}):\n' + st['out'][-3000:])
        return st

    def generate(self, module, cfg, env=None, simulate=None, depth=None, record=True, **kw):
        """Run a generator specification; returns the scripts it printed (lines starting with @)."""
        extra = []
        if simulate:
            extra = ['-simulate', f'num={simulate}', '-depth', str(depth), '-seed', str(self.seed)]
            kw.setdefault('workers', 1)
        st = self.tlc(module, cfg, env, extra=extra, record=record, **kw)
        if st['rc'] != 0:
            raise CheckError(f'generator {module} failed (rc {st["rc"]}):\n' + st['out'][-3000:])
        seen, res = set(), []
        for l in st['out'].split('\n'):
            if l.startswith('"@'):
                l = json.loads(l)  # a printed TLA+ string
            if l.startswith('@') and l not in seen:
                seen.add(l)
                res.append(l[1:])
        res.sort()
        if not res:
            raise CheckError(f'generator {module} printed no script:\n' + st['out'][-2000:])
        return res

    # ---------------------------------------------------------------- validation
    def _tlc_trace(self, module, lines, consts, invs, parallel, timeout=800, spec='TraceSpec'):
        """Validate trace lines; returns list of (index, event index, state) rejections (at most one per chunk)."""
        from concurrent.futures import ThreadPoolExecutor
        d = os.path.join(self.work, 'traces')
        os.makedirs(d, exist_ok=True)
        jobs = []
        # by size, dealt out in turn, so that the chunks take about as long as each other
        order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
        for c in range(min(parallel, len(lines))):
            idx = order[c::parallel]
            self.nrun += 1
            f = os.path.join(d, f't{self.nrun}_{c}.ndjson')
            with open(f, 'w') as h:
                h.write('\n'.join(lines[i] for i in idx) + '\n')
            jobs.append((idx, f, len(idx)))
        cfg = f'SPECIFICATION {spec}\nCHECK_DEADLOCK TRUE\n' + ''.join(f'INVARIANT {x}\n' for x in invs)
        if consts:
            cfg += 'CONSTANTS\n' + ''.join(f'  {k} = {v}\n' for k, v in consts.items())

        w = max(1, NCPU // len(jobs))

        def one(j):
            return j, self.tlc(module, cfg, dict(TRACE_FILE=j[1]), workers=w, timeout=timeout,
                               heap='3g' if len(jobs) > 2 else '10g')
        with ThreadPoolExecutor(len(jobs)) as ex:
            res = list(ex.map(one, jobs))
        rej = []
        for (base, f, cnt), st in res:
            out = st['out']
            if st['rc'] == 0 and 'No error has been found' in out:
                os.remove(f)
                continue
            dead = 'Deadlock reached' in out
            inv = re.search(r'Invariant (\S+) is violated', out)
            if not (dead or inv):
                raise CheckError(f'TLC failed on {module} (rc {st["rc"]}):\n' + out[-4000:])
            exs = re.findall(r'^(?:/\\ )?ex = (\d+)', out, re.M)
            ls = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
            if not exs:
                raise CheckError('TLC reported an error without a state:\n' + out[-3000:])
            rej.append((base[int(exs[-1]) - 1], int(ls[-1]) if ls else 1, inv.group(1) if inv else 'no step of the specification explains it', out[-6000:]))
            os.remove(f)
        return rej

    def validate(self, module, exe, scripts, args=(), consts=None, invs=(), parallel=None, confirm=2, what='',
                 known=None, limit=20, total=400, procs=None, pre=None, sample=1):
        """Drive the implementation with scripts and validate the recorded traces against the specification.
        A rejection is repeated (driver and TLC) before it is reported."""
        lines = self.drive(exe, scripts, args, limit=limit, total=total, procs=procs)
        keep = [(i, x) for i, x in enumerate(lines) if x is not None]
        if pre:
            keep = [(i, pre(x)) for i, x in keep]
        size = sum(len(x) for _, x in keep)
        if parallel is None:
            parallel = max(1, min(NCPU, size // 400000, len(keep)))
        tl = [x for _, x in keep]
        alive = [k for k, x in enumerate(tl) if not x.startswith('{"crash"')]
        rej = []
        if alive:
            rej = [(alive[k], l, why, out) for k, l, why, out in
                   self._tlc_trace(module, [tl[k] for k in alive], consts, invs, min(parallel, len(alive)))]
        # the death of the driver is an event that no action of any specification allows
        rej += [(k, 1, 'the program died', '') for k, x in enumerate(tl) if x.startswith('{"crash"')][:3]
        nev = 0
        for x in tl:
            nev += x.count('"op":') or 1
        self.cov['traces_validated_against_impl'] += len(tl)
        self.cov['events_validated'] += nev
        for x in tl[:1] + ([tl[len(tl) // 2]] if len(tl) > 2 else []):
            if len(self.cov['samples']) < 8:
                self.cov['samples'].append(x if len(x) < 600 else x[:600] + '...')
        for k, l, why, out in rej:
            i = keep[k][0]
            ok = True
            for _ in range(confirm):
                again = [x for x in self.drive(exe, [scripts[i]], args, limit=limit, total=total, procs=1) if x is not None]
                if pre:
                    again = [pre(x) for x in again]
                if not again:
                    raise CheckError('a rejected execution could not be repeated')
                if not again[0].startswith('{"crash"') and not self._tlc_trace(module, again, consts, invs, 1):
                    ok = False
                    break
            if not ok:
                if tl[k].startswith('{"crash"') and any(w in tl[k][:40] for w in ('timeout', 'exit -14', 'signal 14')):
                    continue                      # a slow machine, not the code: the repetition was accepted
                # the code behaves differently from run to run: what was recorded is judged once more as it is
                if not tl[k].startswith('{"crash"') and not self._tlc_trace(module, [tl[k]], consts, invs, 1):
                    raise CheckError(f'a rejection did not repeat: script {i} of {module}: {why}')
                why += ' (not on every run)'
            self.report(module, scripts[i], tl[k], l, why, out, what, exe, args, consts, invs)
        if self.violations:
            raise StopCheck()

    def report(self, module, script, line, l, why, out, what, exe=None, args=(), consts=None, invs=()):
        n = len(self.violations) + 1
        f = os.path.join(self.replay, f'violation{n}.json')
        try:
            tr = json.loads(line)
        except Exception:
            tr = line
        if isinstance(script, str):
            try:
                script = json.loads(script)
            except Exception:
                pass
        json.dump(dict(property=self.pid, check=what, spec=module, why=why, rejected_at_event=l, script=script,
                       trace=tr, driver=os.path.relpath(exe, VERIF) if exe else None, driver_args=list(args), constants=consts,
                       tlc_output=out[-6000:]), open(f, 'w'), indent=1, ensure_ascii=False)
        self.violations.append(f)
        print(f'VIOLATION property={self.pid} replay={f}', flush=True)
        print(f'  {what or module}: event {l}: {why}', flush=True)
        if isinstance(tr, dict) and 'crash' in tr:
            print('  driver: ' + str(tr['crash']), flush=True)

    def finish(self):
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k), flush=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        if self.known:
            ev['known_findings'] = self.known
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, ensure_ascii=False)
        if os.environ.get('VP_KEEP') != '1':
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def main():
    import importlib
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from registry import CHECKS
    ctx = Ctx(pid, tier)
    try:
        mod, fn = CHECKS[pid]
        try:
            getattr(importlib.import_module(mod), fn)(ctx)
        except StopCheck:
            pass
        rc = ctx.finish()
        if rc == 0:
            print(f'{pid}: held on {ctx.cov["traces_validated_against_impl"]} executions, '
                  f'{ctx.cov["states"]} specification states, {round(time.time() - ctx.t0, 1)} s')
        sys.exit(rc)
    except CheckError as e:
        if ctx.violations:
            ctx.finish()
            sys.exit(1)
        print('CHECK ERROR', pid, str(e), file=sys.stderr)
        sys.exit(2)


if __name__ == '__main__':
    sys.modules['vp'] = sys.modules['__main__']
    main()
