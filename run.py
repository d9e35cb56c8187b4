#!/usr/bin/env python3
"""run.py ID [quick|thorough]  decides one property; see DESIGN.md.
run.py --replay FILE           replays a recorded violation on the current tree
run.py --setup                 builds everything once

A check has three kinds of steps:
  model     TLC checks the design specification itself
  generate  TLC writes behaviours of the specification
  replay    the driver, built from /repo's working tree, executes them on the
            real code and TLC judges what was recorded against the specification
Exit 0: nothing found.  Exit 1: the real code did something the specification
forbids (VIOLATION line).  Exit 2: the machinery itself failed.
"""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('XT_REPO', '/repo')   # only overridden while developing, to try planted changes in scratch copies
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('XT_EVIDENCE', os.path.join(VERIF, 'evidence'))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GOENV = dict(GOROOT='/opt/veriftools/go1.27.3', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOTOOLCHAIN='local', GOPROXY='off', GO111MODULE='on', GOWORK='off', GOFLAGS='-mod=mod',
             GOSUMDB='off', HOME='/root', CGO_ENABLED='0')


POOL_PACKAGES = ('netx/pool/...',)
TWIN_PACKAGES = ('.', 'xproto', 'slice', 'collation', 'types', 'netx/connection/...', 'netx/connector/...')


class Broken(Exception):
    """the machinery failed; says nothing about the property"""


def limit_memory():
    """what goes wild is to die by itself"""
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='xtv-%s-' % prop)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.parts = [], [], []
        self.exhaustive = False
        self.serial = 0

    def path(self, name):
        with self.lock:
            self.serial += 1
            return os.path.join(self.dir, '%03d-%s' % (self.serial, name))

    # ---- TLC
    def tlc(self, module, cfg, env=None, args=(), workers=2, timeout=850, ok=True, heap='3g'):
        cfgfile = self.path(module + '.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        meta = self.path('meta')
        cmd = ['java', '-Djava.io.tmpdir=' + self.dir, '-XX:-UsePerfData', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, workers),
               '-cp', CP, 'tlc2.TLC', '-noTE', '-workers', str(workers), '-metadir', meta, '-config', cfgfile,
               *args, os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=self.dir, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise Broken('TLC timed out on ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        if ok and p.returncode != 0:
            raise Broken('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, p.stdout[-4000:]))
        gen, dist = 0, 0
        for m in re.finditer(r'^([\d,]+) states generated, ([\d,]+) distinct states found', p.stdout, re.M):
            gen, dist = (int(x.replace(',', '')) for x in m.groups())
        m = re.search(r'The number of states generated: ([\d,]+)', p.stdout)
        if m:
            gen = dist = int(m.group(1).replace(',', ''))
        m = re.search(r'Finished computing initial states: ([\d,]+)', p.stdout)
        if m:  # transitions only
            gen = max(0, gen - int(m.group(1).replace(',', '')))
        return p.returncode, p.stdout, gen, dist

    def count(self, gen, dist):
        with self.lock:
            self.states += dist
            self.transitions += gen

    # ---- a step: the design specification itself
    def model(self, module, cfg, name=None, expect_violation=None, **kw):
        """Checks a module.  With expect_violation the design without a safeguard
        must be caught, which shows that the property is not vacuous."""
        rc, out, gen, dist = self.tlc(module, cfg, ok=False, **kw)
        name = name or module
        if expect_violation:
            if rc == 0 or expect_violation not in out:
                raise Broken('%s: expected a violation of %s\n%s' % (name, expect_violation, out[-3000:]))
        elif rc != 0:
            raise Broken('%s: the specification violates its own property (exit %d)\n%s' % (name, rc, out[-4000:]))
        self.count(gen, dist)
        with self.lock:
            self.parts.append(dict(step='model', what=name, states=dist, transitions=gen,
                                   expected_counterexample=expect_violation or ''))

    # ---- the driver
    def build(self, name='vdrive', overlay=None, race=False, tags=''):
        mod = os.path.join(self.dir, 'go.mod')
        if not os.path.exists(mod):
            with open(os.path.join(VERIF, 'harness', 'go.mod')) as f, open(mod, 'w') as g:
                g.write(f.read().replace('=> /repo', '=> ' + REPO))
            shutil.copy(os.path.join(VERIF, 'harness', 'go.sum'), os.path.join(self.dir, 'go.sum'))
        out = os.path.join(self.dir, name)
        cmd = [GOENV['GOROOT'] + '/bin/go', 'build', '-modfile', mod, '-o', out]
        if overlay:
            cmd += ['-overlay', overlay]
        if tags:
            cmd += ['-tags', tags]
        env = {**os.environ, **GOENV}
        if race:
            cmd.append('-race')
            env['CGO_ENABLED'] = '1'
        env.setdefault('GOCACHE', '/root/.cache/go-build')
        p = subprocess.run(cmd + ['./cmd/vdrive'], cwd=os.path.join(VERIF, 'harness'), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken('the driver does not build against /repo:\n' + p.stdout[-4000:])
        return out

    def build_sched(self, exe, packages=POOL_PACKAGES):
        """The driver with the packages' sources instrumented: a yield before every
        statement.  The plain driver, which only yields at its own gates, if that fails."""
        d = self.path('instrumented')
        os.mkdir(d)
        overlay = self.path('overlay.json')
        why, _ = self.drive(exe, ['instrument', REPO, d, overlay, *packages])
        try:
            if why:
                raise Broken(why)
            return self.build('vdrive-sched', overlay=overlay, tags='xtsched')
        except Broken as e:
            with self.lock:
                self.parts.append(dict(step='build', what='not instrumented: ' + str(e)[-500:]))
            return exe

    def drive(self, binary, args, timeout=400):
        """Runs the driver: '' or the reason it died, and what it printed."""
        try:
            p = subprocess.run([binary, *args], cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, text=True, errors='replace', preexec_fn=limit_memory)
        except subprocess.TimeoutExpired:
            return 'the real code did not return within %d s' % timeout, ''
        if p.returncode == 0:
            return '', p.stdout
        if p.returncode == -9 or 'vdrive:' in p.stderr[:2000]:
            raise Broken('driver (%d): %s' % (p.returncode, p.stderr[:3000]))
        return 'the process running the real code died (%d): %s' % (p.returncode, p.stderr[:3000]), ''

    def died(self, binary, command, behaviours, traces, extra, why, timeout):
        """The driver died: which behaviour does it?  None when it does not happen again."""
        try:
            n = int(open(traces + '.pos').read()) - 1
        except (OSError, ValueError):
            raise Broken('the driver died before it began: ' + why)
        b = nth_line(behaviours, n)
        one = self.path('one')
        with open(one, 'w') as f:
            f.write(json.dumps(b) + '\n')
        for _ in range(3):
            again, _ = self.drive(binary, [command, one, self.path('traces'), *extra], min(timeout, 120))
            if again:
                return b, again
        return None, why

    # ---- a step: replay behaviours and judge the recorded executions
    def replay(self, binary, command, behaviours, trace_module, name, trace_cfg='SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n',
               workers=4, extra=(), gen_states=0, gen_trans=0, timeout=400, heap='4g', flaky=False, env=None):
        """flaky: an execution that kills the process need not do so every time."""
        traces = self.path('traces')
        keep = dict(command=command, trace_module=trace_module, trace_cfg=trace_cfg, extra=list(extra), env=env)
        why, said = self.drive(binary, [command, behaviours, traces, *extra], timeout)
        if why:
            b, why2 = self.died(binary, command, behaviours, traces, extra, why, timeout)
            if b is None and (not flaky or 'did not return' in why):
                raise Broken('%s: the driver died, but not when the behaviour is repeated: %s' % (name, why2))
            self.violation(name, why2, behaviour=b, trace=None, **keep)
            return
        n, events, firsts = 0, 0, []
        with open(traces) as f:
            for line in f:
                n += 1
                d = json.loads(line)
                events += len(d['ev'])
                if n == 1:
                    firsts.append(d)
        if n == 0:
            raise Broken(name + ': nothing was replayed')
        rc, out, gen, dist = self.tlc(trace_module, trace_cfg, env=dict(TRACES=traces, **(env or {})), workers=workers, heap=heap)
        rejects = [json.loads(json.loads(m.group(1))[len('REJECT '):])
                   for m in re.finditer(r'^("REJECT .*")$', out, re.M)]
        if out.count('REJECT ') != len(rejects):
            raise Broken(name + ': unreadable rejection\n' + out[-3000:])
        if not rejects and dist < events + n:
            raise Broken('%s: TLC looked at %d states of %d recorded ones' % (name, dist, events + n))
        self.count(gen_trans, gen_states)
        self.count(gen, dist)
        part = dict(step='replay', what=name, behaviours=n, events=events, rejected=len(rejects))
        m = re.search(r'^STATS (.*)$', said, re.M)
        if m:
            part.update(json.loads(m.group(1)))
        with self.lock:
            self.traces += n - len({r.get('n', r['id']) for r in rejects})
            self.events += events
            self.parts.append(part)
            if len(self.samples) < 6:
                self.samples += [dict(behaviours=name, trace=shorten(x)) for x in firsts]
        for r in rejects[:5]:
            t = nth_line(traces, r.get('n', r['id']) - 1)
            b = nth_line(behaviours, r['id'] - 1)
            if 'sched' in t:
                b['sched'] = t['sched'] or []
            self.violation(name, r['why'], behaviour=b, trace=t, event=r.get('ev'), **keep)
        os.remove(traces)

    def violation(self, name, why, **kw):
        os.makedirs(EVID, exist_ok=True)
        with self.lock:
            k = len(self.violations) + 1
            path = os.path.join(EVID, 'replay-%s-%d.json' % (self.prop, k))
            self.violations.append((name, why, path))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, family=name, why=why, **kw), f, indent=1)

    # ---- generators
    def cases(self, module, what, extra='', env=None):
        out = self.path(what + '.cases')
        rc, log, gen, dist = self.tlc(module, 'INIT Init\nNEXT Next\nCONSTANTS\n What = "%s"\n Deep = %s\n%s'
                                      % (what, 'TRUE' if self.deep else 'FALSE', extra), env=dict(OUT=out, **(env or {})), workers=1,
                                      args=['-seed', str(self.seed)])
        return out

    def simulate(self, module, cfg, num, depth=200, seed=0):
        out = self.path(module + '.sim')
        rc, log, gen, dist = self.tlc(module, cfg, env=dict(OUT=out), workers=1,
                                      args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)])
        return out, gen, dist

    def enumerate(self, module, cfg, workers=1, **kw):
        out = self.path(module + '.enum')
        rc, log, gen, dist = self.tlc(module, cfg, env=dict(OUT=out), workers=workers, **kw)
        return out, gen, dist

    def parallel(self, jobs, n=4):
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(lambda j=j: None if self.violations else j()) for j in jobs]   # one violation decides
            err = None
            for f in fs:
                try:
                    f.result()
                except Exception as e:
                    err = err or e
            if err and not self.violations:
                raise err

    # ---- the end
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_replayed=self.events, samples=self.samples, parts=self.parts, exhaustive=False)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=ASSUME.get(self.prop, []) + ASSUME['*'], wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for name, why, path in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  %s: %s' % (name, why[:600]))
        print('%s %s: %d violations; %d states, %d transitions, %d real executions accepted, %.1f s'
              % (self.prop, self.tier, len(self.violations), self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def nth_line(path, n):
    with open(path) as f:
        for i, line in enumerate(f):
            if i == n:
                v = json.loads(line)
                return json.loads(v) if isinstance(v, str) else v
    return None


def shorten(x, n=40):
    if isinstance(x, list):
        y = [shorten(v, n) for v in x[:n]]
        return y + ['... %d more' % (len(x) - n)] if len(x) > n else y
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    return x


# --------------------------------------------------------------------------
# builder: C01-C06

BGEN = ('SPECIFICATION Spec\nINVARIANTS Consistent Balanced\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
        ' Profile = "%s"\n MaxLen = %d\n MaxDepth = %d\n')
BENUM = ('SPECIFICATION Spec\nINVARIANTS Consistent Balanced\nPROPERTIES Sticky Frozen\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
         ' Alphabet = "%s"\n MaxLen = %d\n')


def builder(c, cases=(), sims=(), enums=()):
    exe = c.build()
    jobs = []

    def case(what):
        f = c.cases('Cases', what)
        c.replay(exe, 'builder', f, 'BuilderTrace', 'cases:' + what)

    def sim(profile, num, length, depth, k):
        f, gen, dist = c.simulate('BuilderGen', BGEN % (profile, length, depth), num, seed=c.seed * 1000 + k)
        c.replay(exe, 'builder', f, 'BuilderTrace', 'simulated:%s/%d' % (profile, k), gen_states=dist, gen_trans=gen)

    def enum(alphabet, length):
        f, gen, dist = c.enumerate('BuilderEnum', BENUM % (alphabet, length))
        c.replay(exe, 'builder', f, 'BuilderTrace', 'all:%s/%d' % (alphabet, length), gen_states=dist, gen_trans=gen)

    for w in cases:
        jobs.append(lambda w=w: case(w))
    for a, l in enums:
        jobs.append(lambda a=a, l=l: enum(a, l))
    k = 0
    for p, num, l, d, rep in sims:
        for _ in range(rep):
            k += 1
            jobs.append(lambda p=p, num=num, l=l, d=d, k=k: sim(p, num, l, d, k))
    c.parallel(jobs, 4)


def C01(c):
    q = not c.deep
    builder(c, ['calls'], [('calls', 300, 14, 4, 2 if q else 20), ('calls', 60, 60, 6, 1 if q else 10)],
            [('units', 3 if q else 4)])


def C02(c):
    q = not c.deep
    builder(c, ['values'], [('calls', 300, 8, 2, 1 if q else 20), ('exprs', 200, 8, 2, 1 if q else 10)])


def C03(c):
    q = not c.deep
    builder(c, ['exprs'], [('exprs', 300, 8, 2, 2 if q else 30)])


def C04(c):
    q = not c.deep
    builder(c, ['faults'], [('faults', 400, 14, 4, 1 if q else 20), ('faults', 60, 60, 6, 1 if q else 10)],
            [('faults', 4 if q else 5)])


def C05(c):
    q = not c.deep
    builder(c, ['scopes'], [('scopes', 400, 14, 4, 1 if q else 20), ('scopes', 60, 60, 8, 1 if q else 10)],
            [('scopes', 4 if q else 6)])


def C06(c):
    q = not c.deep
    builder(c, ['handles'], [('handles', 400, 14, 4, 2 if q else 20), ('handles', 60, 60, 6, 1 if q else 10)],
            [('units', 3 if q else 4)])


def side_by_side(c, exe, kind, trace_module, name, made, families, seed=None):
    """Behaviours in the file made, run by several goroutines at once; each is judged on its own."""
    progs = c.path('progs')
    with open(made) as f, open(progs, 'w') as g:
        for line in f:
            g.write((line if line.startswith('"') else json.dumps(line.strip()) + '\n'))
    for what, every, mode, bound in families:
        f = c.cases('TwinCases', what, ' Kind = "%s"\n Seed = %d\n Every = %d\n Mode = "%s"\n Bound = %d\n'
                    % (kind, c.seed % 1000 if seed is None else seed, every, mode, bound), env=dict(PROGS=progs))
        c.replay(exe, 'twin', f, trace_module, 'side by side: %s, %s' % (name, what), extra=['4000'], timeout=2000 if c.deep else 400, flaky=True)


def C17(c):
    exe = c.build_sched(c.build(), TWIN_PACKAGES)
    q = not c.deep

    def twins(name, made, families, **kw):
        side_by_side(c, exe, 'builder', 'BuilderTrace', name, made, families, **kw)

    def enum(alphabet, length, families):
        f, gen, dist = c.enumerate('BuilderEnum', BENUM % (alphabet, length))
        c.count(gen, dist)
        twins('%s/%d' % (alphabet, length), f, families)

    def case(what, families, **kw):
        twins(what, c.cases('Cases', what), families, **kw)

    def sim(profile, num, length, depth, families):
        f, gen, dist = c.simulate('BuilderGen', BGEN % (profile, length, depth), num, seed=c.seed * 1000 + 700)
        c.count(gen, dist)
        twins('simulated %s' % profile, f, families)

    k = 1 if q else 4
    e = lambda n: n if q else max(1, n // 4)
    c.parallel([lambda p=p: case('twins', [('duo', 3, 'dfs', 1)], seed=p) for p in range(3)] +
               [lambda: case('twins', [('crowd', 3, '', 10 * k)]),
                lambda: enum('units', 2, [('same', 1, 'dfs', 1), ('pairs', 1, 'spread', 60 * k), ('free', 4, '', 4 * k)]),
                lambda: enum('faults', 2, [('pairs', 1, 'spread', 60 * k), ('crowd', 2, '', 10 * k)]),
                lambda: enum('scopes', 2, [('pairs', 1, 'spread', 60 * k), ('crowd', 2, '', 10 * k)]),
                lambda: case('calls', [('same', e(8), 'spread', 25 * k), ('free', e(30), '', 4 * k)]),
                lambda: case('exprs', [('same', e(6), 'spread', 30 * k), ('pairs', e(12), 'spread', 30 * k), ('free', e(40), '', 4 * k)]),
                lambda: case('values', [('same', e(10), 'spread', 30 * k), ('free', e(60), '', 4 * k)]),
                lambda: sim('calls', 40 * k, 14, 4, [('crowd', e(2), '', 6), ('free', e(4), '', 4 * k)]),
                lambda: sim('exprs', 40 * k, 8, 2, [('crowd', e(2), '', 6), ('free', e(4), '', 4 * k)])], 4)


# --------------------------------------------------------------------------
# a connection: C08, C09

CENUM = ('SPECIFICATION Spec\nINVARIANTS Correspond Count Stops OwnDeadline\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
         ' MaxSends = %d\n MaxMsgs = %d\n MaxSrv = %d\n Letters = {%s}\n')
CALL = ['ok', 'stmt', 'err', 'fatal', 'notice', 'row', 'big', 'meta', 'done', 'auth', 'short', 'baderr', 'eof', 'rst', 'late', 'soon']
CGOOD = ['ok', 'err', 'fatal', 'notice', 'big', 'meta', 'done']
CBAD = ['ok', 'err', 'notice', 'auth', 'short', 'baderr', 'eof', 'rst', 'late', 'soon']


def connection(c, cases, enums, twins=()):
    exe = c.build()
    sched = c.build_sched(exe, TWIN_PACKAGES) if twins else None

    def case(what):
        c.replay(exe, 'conn', c.cases('ConnCases', what), 'ConnTrace', 'cases:' + what)

    def enum(sends, msgs, srv, letters):
        f, gen, dist = c.enumerate('ConnEnum', CENUM % (sends, msgs, srv, ', '.join('"%s"' % x for x in letters)))
        c.replay(exe, 'conn', f, 'ConnTrace', 'all:%d sends, %d messages, %d server items of %s' % (sends, msgs, srv, ' '.join(letters)),
                 gen_states=dist, gen_trans=gen)

    def twin(fam):
        side_by_side(c, sched, 'conn', 'ConnTrace', 'connections', c.cases('ConnCases', 'twins'), [fam])

    c.parallel([lambda w=w: case(w) for w in cases] + [lambda e=e: enum(*e) for e in enums] + [lambda t=t: twin(t) for t in twins], 4)


def C08(c):
    k = 10 if c.deep else 1
    twins = [('duo', 1, 'dfs', 1), ('crowd', 5, '', 5 * k), ('free', 10, '', 5 * k)]
    connection(c, ['sizes'], [(1, 2, 3, CALL), (1, 3, 5, CGOOD), (2, 2, 2, CGOOD)] if not c.deep else
               [(1, 2, 4, CALL), (1, 4, 5, CGOOD), (2, 1, 3, CGOOD), (3, 1, 2, CGOOD)], twins)


def C09(c):
    connection(c, ['cuts', 'deadlines'], [(1, 2, 3, CALL), (2, 1, 2, CBAD)] if not c.deep else
               [(1, 2, 4, CALL), (1, 3, 5, CBAD), (2, 2, 2, CALL), (3, 1, 2, CBAD)])


# --------------------------------------------------------------------------
# the pool: C10-C12

PIMPL = ('SPECIFICATION Spec\nINVARIANTS Meets Exclusive Disjoint Bound\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n'
         ' Sends = {%s}\n Closes = {%s}\n Size = %d\n Conns = %d\n Faults = {%s}\n'
         ' Lock = %s\n Check = %s\n Discard = %s\n Bounded = %s\n Once = %s\n')


def pool(c, kind, families, designs, without):
    exe = c.build_sched(c.build())

    def design(sends, closes, size, faults, off=None):
        on = {k: 'FALSE' if k == off else 'TRUE' for k in ('Lock', 'Check', 'Discard', 'Bounded', 'Once')}
        cfg = PIMPL % ('' if off else 'PROPERTY Finishes\n', ', '.join(map(str, range(1, sends + 1))), ', '.join(str(10 + k) for k in range(closes)),
                       size, sends + 1, ', '.join('"%s"' % f for f in faults), on['Lock'], on['Check'], on['Discard'], on['Bounded'], on['Once'])
        c.model('PoolImpl', cfg, name='design: %d sends, %d closes, size %d, faults %s%s' % (sends, closes, size, '/'.join(faults) or 'none', ', without ' + off if off else ''),
                expect_violation='is violated' if off else None, workers=2)

    def case(what):
        f = c.cases('PoolCases', what, ' Kind = "%s"\n Seed = %d\n' % (kind, c.seed % 1000))
        c.replay(exe, 'pool', f, 'PoolTrace', 'interleavings:' + what, extra=[str(20000 if c.deep else 3000)],
                 timeout=2000 if c.deep else 400, flaky=True)

    c.parallel([lambda w=w: case(w) for w in families] + [lambda d=d: design(*d) for d in designs]
               + [lambda d=d: design(*d) for d in without], 4)


ALLF = ['ctx', 'dial', 'err', 'resp']


def C10(c):
    pool(c, 'share', ['share', 'scale', 'walk', 'free'], [(2, 0, n, []) for n in (0, 1, 2)] + [(3, 0, 1, []), (3, 0, 2, [])] + ([(4, 0, 2, [])] if c.deep else []),
         [(2, 0, 1, [], 'Bounded')])


def C11(c):
    pool(c, 'fail', ['fail', 'scale', 'seq', 'walk', 'free'], [(2, 0, n, ALLF) for n in (0, 1)] + [(3, 0, 1, ['err'])] + ([(3, 0, 2, ALLF)] if c.deep else []),
         [(2, 0, 1, ['resp'], 'Discard'), (2, 0, 1, ['err'], 'Discard')])


def C12(c):
    pool(c, 'close', ['close', 'scale', 'walk', 'free'], [(2, 1, n, []) for n in (0, 1)] + [(1, 2, 1, ['err'])] + ([(2, 2, 1, ALLF), (3, 1, 1, [])] if c.deep else []),
         [(2, 1, 1, [], 'Lock'), (2, 1, 1, [], 'Check'), (1, 2, 1, [], 'Once')])


# --------------------------------------------------------------------------
# the whole: C07

SDES = ('SPECIFICATION Spec\nINVARIANTS Meets%s\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n Units = %d\n N = %d\n Size = %d\n Faults = {%s}\n'
        ' MaxFaults = %d\n Quiet = %s\n%s')
SSAFE = ['Expect', 'Tx', 'Discard', 'NoRetry', 'Own']
SFAULTS = ['err', 'fatal', 'cut', 'write', 'timeout']


def C07(c):
    exe = c.build_sched(c.build())

    def design(units, n, size, maxf, quiet, faults=SFAULTS, off=None, live=False):
        cfg = SDES % ('' if off else ' Clean', 'PROPERTY Finishes\n' if live else '', units, n, size, ', '.join('"%s"' % f for f in faults), maxf,
                      str(quiet).upper(), ''.join(' %s = %s\n' % (k, 'FALSE' if k == off else 'TRUE') for k in SSAFE))
        c.model('SystemDesign', cfg, name='design: %d units of %d effects, pool of %d, up to %d faults of %s%s' % (units, n, size, maxf, '/'.join(faults), ', without ' + off if off else ''),
                expect_violation='Meets is violated' if off else None, workers=2)

    def case(what):
        f = c.cases('SystemCases', what, ' Seed = %d\n' % (c.seed % 1000))
        c.replay(exe, 'system', f, 'SystemTrace', 'units of work:' + what, extra=[str(20000 if c.deep else 3000)],
                 timeout=2000 if c.deep else 400, flaky=True)

    designs = [(2, 2, 1, 1, False, SFAULTS, None, False), (2, 1, 1, 0, False, [], None, True), (1, 3, 1, 2, True, SFAULTS, None, True), (2, 1, 0, 1, True, SFAULTS, None, True)]
    if c.deep:
        designs += [(2, 2, 1, 2, True, SFAULTS, None, False), (2, 2, 2, 2, False, SFAULTS, None, False), (3, 1, 1, 1, False, ['err', 'cut'], None, False)]
    c.parallel([lambda w=w: case(w) for w in ('faults', 'race', 'many', 'two', 'others', 'long', 'walk', 'free')]
               + [lambda d=d: design(*d) for d in designs]
               + [lambda o=o: design(2, 2, 1, 1, False, off=o) for o in SSAFE if o != 'Own']
               + ([lambda: design(3, 1, 1, 1, False, ['err'], off='Own')] if c.deep else []), 4)


# --------------------------------------------------------------------------
# connecting: C13, C14

CNENUM = ('SPECIFICATION Spec\nINVARIANTS NothingInClear RightServer PasswordInClear Authenticated NotLost FailsClosed\n'
          'CHECK_DEADLOCK FALSE\nCONSTANTS\n Nets = {"tcp", "unix", "down"}\n Tlss = {"none", "server", "mutual", "insecure", "noname"}\n'
          ' Mechs = {"MYSQL41", "SHA256_MEMORY", "PLAIN"}\n Accts = {%s}\n Deadline = %s\n%s Write = %s\n')
CNSAFE = ['CheckAnswer', 'ResetReader', 'Verify', 'SecureOnly', 'OnlyDenied', 'Cleanup']


def connector(c, without):
    exe = c.build()

    def consts(off=None):
        return ''.join(' %s = %s\n' % (k, 'FALSE' if k == off else 'TRUE') for k in CNSAFE)

    def enum(accts, deadline):
        f, gen, dist = c.enumerate('ConnectorEnum', CNENUM % (', '.join('"%s"' % a for a in accts), deadline, consts(), 'TRUE'))
        c.replay(exe, 'connector', f, 'ConnectorTrace', 'all servers: accounts %s' % '/'.join(accts), gen_states=dist, gen_trans=gen,
                 env=dict(PROP=c.prop), flaky=True)

    def case(what):
        c.replay(exe, 'connector', c.cases('ConnectorCases', what), 'ConnectorTrace', 'cases:' + what, env=dict(PROP=c.prop), flaky=True)

    def design(off):
        c.model('ConnectorEnum', CNENUM % ('"usual"', 'TRUE', consts(off), 'FALSE'), name='design without ' + off, expect_violation='is violated',
                workers=1)

    jobs = [lambda: enum(['usual'], 'TRUE')]
    if c.deep:
        jobs += [lambda: enum(['nopw', 'long'], 'FALSE')]
    jobs += [lambda w=w: case(w) for w in ('seq', 'par', 'long', 'tls')] + [lambda o=o: design(o) for o in without]
    c.parallel(jobs, 3)


def C13(c):
    connector(c, ['CheckAnswer', 'ResetReader', 'Verify', 'SecureOnly', 'OnlyDenied'])


def C14(c):
    connector(c, ['ResetReader', 'Cleanup'])


# --------------------------------------------------------------------------
# authentication data and decimals: C15, C16

def C15(c):
    exe = c.build()

    def case(what):
        c.replay(exe, 'auth', c.cases('AuthCases', what), 'AuthTrace', 'cases:' + what)

    sched = c.build_sched(exe, TWIN_PACKAGES)
    k = 10 if c.deep else 1

    def twin(what, families):
        side_by_side(c, sched, 'auth', 'AuthTrace', what, c.cases('AuthCases', what), families)

    c.parallel([lambda w=w: case(w) for w in ('MYSQL41', 'SHA256_MEMORY', 'PLAIN')]
               + [lambda w=w: twin(w, [('pairs', 20 if k == 1 else 5, 'spread', 40 * k), ('free', 50, '', 5 * k)]) for w in ('MYSQL41', 'SHA256_MEMORY', 'PLAIN')], 4)


def C16(c):
    exe = c.build()

    def case(what):
        c.replay(exe, 'decimal', c.cases('DecimalCases', what), 'DecimalTrace', 'cases:' + what)

    sched = c.build_sched(exe, TWIN_PACKAGES)
    k = 10 if c.deep else 1

    def twin(what, families):
        side_by_side(c, sched, 'decimal', 'DecimalTrace', what, c.cases('DecimalCases', what), families)

    c.parallel([lambda w=w: case(w) for w in ('shapes', 'small', 'patterns')]
               + [lambda: twin('patterns', [('pairs', 20 if k == 1 else 5, 'spread', 40 * k), ('free', 50, '', 5 * k)])], 4)


# --------------------------------------------------------------------------
# the encoders by themselves: C18

def C18(c):
    exe = c.build()

    def case(what):
        c.replay(exe, 'codec', c.cases('CodecCases', what), 'CodecTrace', 'cases:' + what)

    c.parallel([lambda w=w: case(w) for w in ('encoders', 'values', 'faults', 'slices', 'random')], 4)


# --------------------------------------------------------------------------
# collations and error codes: C19

def C19(c):
    exe = c.build('vdrive-names', tags='xtnames')

    def case(what):
        c.replay(exe, 'names', c.cases('NamesCases', what), 'NamesTrace', 'cases:' + what)

    c.parallel([lambda w=w: case(w) for w in ('names', 'collations', 'errors')], 3)


CHECKS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C06=C06, C07=C07, C08=C08, C09=C09, C10=C10, C11=C11, C12=C12, C13=C13, C14=C14, C15=C15, C16=C16, C17=C17, C18=C18, C19=C19)

ASSUME = {
    '*': ['TLC evaluates the specification correctly', 'the driver records faithfully what it observes',
          'bounds as listed per part; beyond them only sampling (simulated:*) or nothing'],
}


def replay_file(path):
    d = json.load(open(path))
    c = Check(d['property'], 'quick', 1)
    try:
        exe = c.build()
        b = c.path('behaviour')
        with open(b, 'w') as f:
            f.write(json.dumps(d['behaviour']) + '\n')
        c.violation = lambda name, why, **kw: c.violations.append((name, why, path))
        if d['command'] == 'names':
            exe = c.build('vdrive-names', tags='xtnames')
        if d['command'] in ('pool', 'system', 'twin'):
            exe = c.build_sched(exe, TWIN_PACKAGES if d['command'] == 'twin' else POOL_PACKAGES)
        c.replay(exe, d['command'], b, d['trace_module'], d['family'], trace_cfg=d['trace_cfg'], extra=d.get('extra', ()), env=d.get('env'), flaky=True)
        for name, why, p in c.violations:
            print('VIOLATION property=%s replay=%s\n  %s' % (c.prop, p, why))
        print('accepted' if not c.violations else 'rejected')
        return 1 if c.violations else 0
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


def setup():
    c = Check('setup', 'quick', 1)
    try:
        c.build()
        for f in sorted(glob.glob(SPEC + '/*.tla')):
            p = subprocess.run(['java', '-Djava.io.tmpdir=' + c.dir, '-XX:-UsePerfData', '-cp', CP, 'tla2sany.SANY', f], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise Broken(f + '\n' + p.stdout)
        print('ready')
        return 0
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


def main(argv):
    try:
        if argv[:1] == ['--setup']:
            return setup()
        if argv[:1] == ['--replay']:
            return replay_file(argv[1])
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
        c = Check(prop, tier, int(os.environ.get('VERIF_SEED', '1')))
        for old in glob.glob(os.path.join(EVID, 'replay-%s-*.json' % prop)):
            os.remove(old)
        try:
            CHECKS[prop](c)
            return c.finish()
        finally:
            shutil.rmtree(c.dir, ignore_errors=True)
    except Broken as e:
        print('BROKEN:', e)
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
