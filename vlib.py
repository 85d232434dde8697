"""Shared machinery of the checks: build the harness from /repo, run TLC, replay behaviours, write evidence."""
import concurrent.futures
import json, os, re, shutil, struct, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
ENV = dict(os.environ)
GO = '/opt/veriftools/go1.27.3/bin'
if os.path.isdir(GO):
    ENV['PATH'] = GO + ':' + ENV.get('PATH', '/usr/local/bin:/usr/bin:/bin')
ENV.update({'GOPATH': '/root/go', 'GOMODCACHE': '/root/go/pkg/mod', 'GOCACHE': '/root/.cache/go-build',
            'GOTOOLCHAIN': 'local', 'GOFLAGS': '-mod=mod', 'GOPROXY': 'off', 'GOWORK': 'off', 'HOME': '/root'})
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


class MachineryError(Exception):
    pass


def build(race=False):
    """Build the harness against /repo's working tree. A tree that does not compile is not a violation but an error."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'vh-race' if race else 'vh')
    # a private copy of the module files: go never rewrites the committed ones
    cmd = ['go', 'build', '-o', out] + (['-race'] if race else []) + ['.']
    env = dict(ENV)
    if race:
        env['CGO_ENABLED'] = '1'
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise MachineryError('the harness does not build against /repo:\n' + p.stdout[-4000:])
    return out


def tla(v):
    """A TLA+ constant expression for a Python value."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=str)) + '}'
    raise TypeError(v)


class Run:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick') or 'quick'
        self.quick = self.tier != 'thorough'
        self.seed = SEED
        self.t0 = time.time()
        self.states = 0          # distinct states TLC visited
        self.transitions = 0     # transitions TLC took
        self.traces = 0          # behaviours replayed on / recorded from the library and compared
        self.steps = 0
        self.exhaustive = None
        self.samples = []
        self.stages = []
        self.violations = []
        self.known = []
        self.off = 0
        self.extra = {}
        self.assumptions = []
        self.lock = threading.Lock()
        self.dir = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.outdir = os.path.join(ROOT, 'out', pid)
        self.n = 0
        self.vh = build()
        self._race = None

    @property
    def race(self):
        if self._race is None:
            self._race = build(race=True)
        return self._race

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def _name(self, what):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, '%02d-%s' % (self.n, what))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, consts, spec='Spec', invs=(), props=(), view=None, constraint=None, simulate=None, seed=None,
            post=None, workers=None, timeout=600, xmx='4g', dump=None, what='', files=None, count=True):
        """Run TLC. simulate=(num, depth). Returns the emitted behaviours. Any complaint of TLC is an error of the machinery."""
        base = self._name(module)
        os.makedirs(base)
        for f in os.listdir(os.path.join(ROOT, 'spec')):
            if f.endswith('.tla'):
                os.symlink(os.path.join(ROOT, 'spec', f), os.path.join(base, f))
        for name, content in (files or {}).items():
            with open(os.path.join(base, name), 'w') as fh:
                fh.write(content)
        cfg = os.path.join(base, 'run.cfg')
        with open(cfg, 'w') as fh:
            fh.write('SPECIFICATION %s\n' % spec)
            if consts:
                fh.write('CONSTANTS\n' + ''.join('  %s = %s\n' % (k, tla(v)) for k, v in consts.items()))
            for i in invs:
                fh.write('INVARIANT %s\n' % i)
            for p in props:
                fh.write('PROPERTY %s\n' % p)
            if view:
                fh.write('VIEW %s\n' % view)
            if constraint:
                fh.write('CONSTRAINT %s\n' % constraint)
            if post:
                fh.write('POSTCONDITION %s\n' % post)
            fh.write('CHECK_DEADLOCK FALSE\n')
        cmd = ['tlc', '-config', cfg, '-metadir', os.path.join(base, 'meta'), '-noGenerateSpecTE', '-fp', '1']
        if simulate:
            cmd += ['-workers', '1', '-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(self.seed if seed is None else seed)]
        else:
            cmd += ['-workers', str(workers or 'auto')]
        cmd += [module + '.tla']
        env = dict(ENV)
        env['JAVA_TOOL_OPTIONS'] = '-Xmx%s -XX:+UseParallelGC' % xmx
        t = time.time()
        outp = base + '.out'
        with open(outp, 'w') as fh:
            try:
                p = subprocess.run(cmd, cwd=base, env=env, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError('TLC on %s did not end within %d s' % (module, timeout))
        lines, gen, dist = [], 0, 0
        tail = []
        with open(outp) as fh:
            for l in fh:
                if l.startswith('"@@'):
                    lines.append(json.loads(l)[2:])
                    continue
                tail = (tail + [l])[-300:]
                m = re.match(r'(\d+) states generated, (\d+) distinct states found', l)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                m = re.match(r'The number of states generated: (\d+)', l)
                if m:
                    gen = dist = int(m.group(1))
        if p.returncode != 0:
            err = MachineryError('TLC on %s ended with %d:\n%s' % (module, p.returncode, ''.join(tail)))
            err.out = ''.join(tail)
            err.rc = p.returncode
            raise err
        with self.lock:
            if count:
                self.states += dist
                self.transitions += gen
            self.stages.append({'tlc': module, 'what': what, 'spec': spec, 'constants': {k: (sorted(v, key=str) if isinstance(v, (set, frozenset)) else v) for k, v in (consts or {}).items()},
                                'checked': list(invs) + list(props) + ([post] if post else []), 'mode': 'simulate' if simulate else 'exhaustive',
                                'states': dist, 'transitions': gen, 'emitted': len(lines), 'wall_s': round(time.time() - t, 2)})
        shutil.rmtree(base, ignore_errors=True)
        os.remove(outp)
        return lines

    # --------------------------------------------------------------- replay
    def _vh(self, binary, comp, inp, tags, j, only=None, case_timeout=60, timeout=800, env_extra=None, budget=None):
        out = self._name(comp + '.res')
        prog = out + '.prog'
        cmd = [binary, 'run', comp, '-in', inp, '-out', out, '-progress', prog, '-seed', str(self.seed), '-tier', self.tier,
               '-case-timeout', '%ds' % case_timeout]
        if only is None:
            cmd += ['-stop', '40', '-known', ','.join(k['tag'] for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'] if k['property'] == self.pid)]
        if budget:
            cmd += ['-budget', '%ds' % budget]
        if tags:
            cmd += ['-tags', ','.join(tags)]
        if j:
            cmd += ['-j', str(j)]
        if only is not None:
            cmd += ['-only', str(only)]
        env = dict(ENV)
        env['GOTRACEBACK'] = 'single'
        env['GOMEMLIMIT'] = '6GiB'
        env.update(env_extra or {})
        log = out + '.log'
        with open(log, 'w') as fh:
            try:
                rc = subprocess.run(cmd, env=env, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.dir).returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        text = open(log, errors='replace').read()
        res = []
        if rc == 0 or rc == 66:
            for l in open(out):
                res.append(json.loads(l))
        running = []
        if os.path.exists(prog):
            b = open(prog, 'rb').read()
            running = [x - 1 for x, in struct.iter_unpack('<Q', b[:len(b) // 8 * 8]) if x]
        return rc, res, running, text

    def replay(self, comp, lines, tags=None, j=None, race=False, case_timeout=60, timeout=800, what='', env_extra=None, sample=1, budget=None, conc=False):
        """Execute behaviours on the library. Returns the summary's counters."""
        if not lines:
            raise MachineryError('no behaviours to replay for ' + comp)
        if self.violations and time.time() - self.t0 > 150:
            # decided already: the time is better kept
            self.stages.append({'replay': comp, 'what': what + ': left out after a violation'})
            return {}
        binary = self.race if race else self.vh
        inp = self._name(comp + '.ndjson')
        with open(inp, 'w') as fh:
            for l in lines:
                fh.write((l if isinstance(l, str) else json.dumps(l)) + '\n')
        t = time.time()
        rc, res, running, text = self._vh(binary, comp, inp, tags, j, None, case_timeout, timeout, env_extra, budget)
        summary = {}
        if rc not in (0, 66):
            # the process died or hung: a violation only if a single behaviour does it again, on its own
            hit = False
            for i in running[:8]:
                rc2, res2, _, text2 = self._vh(binary, comp, inp, tags, 1, i, case_timeout, case_timeout + 60, env_extra)
                if rc2 in (1, 2) and 'vh:' in text2 and 'goroutine' not in text2:
                    continue
                if rc2 not in (0, 66):
                    hit = True
                    kind = 'did not end' if rc2 in (3, 'timeout') else 'killed the process'
                    self.violation(comp, lines[i], {'tag': 'crash', 'step': -1, 'what': 'executing this behaviour %s: %s' % (kind, tail(text2))}, tags)
                    break
            died = re.search(r'fatal error: concurrent map[^\n]*', text)
            if not hit and conc and died:
                # what the property forbids: operations that are fine alone bring the process down together
                hit = True
                self.violation(comp, [lines[i] for i in running[:16]], {'tag': 'crash', 'step': -1, 'what': 'executing these behaviours at the same time killed the process (%s): %s' % (died.group(0), tail(text, 3000))}, tags)
            if not hit and rc != 'timeout' and j != 1:
                # not this property's concern (or not an unsafe sharing): decide on the behaviours one after another
                return self.replay(comp, lines, tags, 1, race, case_timeout, timeout, what + ' (one at a time)', env_extra, sample, budget)
            if not hit:
                raise MachineryError('the harness ended with %s on %s, not reproduced on a single behaviour (%s)\n%s' % (rc, comp, running, tail(text, 3000)))
        else:
            for r in res:
                if r.get('summary'):
                    summary = r
                elif r.get('off'):
                    self.off += 1
                elif self.is_known(r):
                    pass
                else:
                    self.violation(comp, lines[r['i']], r, tags, index=r['i'])
            if race and (rc == 66 or 'DATA RACE' in text):
                self.race_report(comp, lines, inp, text)
        with self.lock:
            self.traces += summary.get('n', 0)
            self.steps += summary.get('steps', 0)
            for k, v in (summary.get('extra') or {}).items():
                self.extra[k] = self.extra.get(k, 0) + v
            self.stages.append({'replay': comp, 'what': what, 'behaviours': summary.get('n', 0), 'steps': summary.get('steps', 0), 'wall_s': round(time.time() - t, 2)})
            for l in lines[:sample]:
                if len(self.samples) < 6:
                    s = l if isinstance(l, str) else json.dumps(l)
                    self.samples.append({'component': comp, 'behaviour': json.loads(s) if len(s) < 3000 else s[:3000] + '...'})
        return summary.get('extra') or {}

    def replay_each(self, comp, lines, tags=None, race=False, case_timeout=60, what=''):
        """Execute each behaviour in a process of its own."""
        if self.violations and time.time() - self.t0 > 150:
            self.stages.append({'replay': comp, 'what': what + ': left out after a violation'})
            return
        inp = self._name(comp + '.ndjson')
        with open(inp, 'w') as fh:
            fh.writelines(l + '\n' for l in lines)
        t, binary, steps = time.time(), self.race if race else self.vh, 0
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            outs = list(ex.map(lambda i: self._vh(binary, comp, inp, tags, 1, i, case_timeout, case_timeout + 60), range(len(lines))))
        for i, (rc, res, _, text) in enumerate(outs):
            if rc not in (0, 66):
                # it counts if it happens again (or is what the property forbids)
                died = re.search(r'fatal error: concurrent map[^\n]*', text)
                rc2, _, _, text2 = (rc, None, None, text) if died else self._vh(binary, comp, inp, tags, 1, i, case_timeout, case_timeout + 60)
                if rc2 in (0, 66) or ('vh:' in text2 and 'goroutine' not in text2 and rc2 in (1, 2)):
                    raise MachineryError('the harness ended with %s on %s\n%s' % (rc, lines[i][:300], tail(text, 3000)))
                self.violation(comp, lines[i], {'tag': 'crash', 'step': -1, 'what': 'executing this behaviour %s: %s' % ('did not end' if rc2 in (3, 'timeout') else 'killed the process', tail(text2))}, tags)
                continue
            for r in res:
                if r.get('summary'):
                    steps += r.get('steps', 0)
                elif r.get('off'):
                    self.off += 1
                elif not self.is_known(r):
                    self.violation(comp, lines[i], r, tags)
            if race and (rc == 66 or 'DATA RACE' in text):
                self.race_report(comp, [lines[i]], inp, text)
        self.traces += len(lines)
        self.steps += steps
        self.stages.append({'replay': comp, 'what': what, 'behaviours': len(lines), 'steps': steps, 'wall_s': round(time.time() - t, 2)})

    def race_report(self, comp, lines, inp, text):
        m = re.search(r'WARNING: DATA RACE.*?={18}', text, re.S)
        rep = m.group(0) if m else text
        if 'dusk-crypto' not in rep and '/repo/' not in rep:
            raise MachineryError('a data race outside of the library:\n' + rep[:3000])
        self.violation(comp, lines, {'tag': 'race', 'step': -1, 'what': rep[:4000]}, None)

    def record(self, comp, n, seed=None, timeout=600):
        """Record histories of the library (one JSON value per line)."""
        out = self._name(comp + '.rec')
        cmd = [self.vh, 'record', comp, '-out', out, '-seed', str(self.seed if seed is None else seed), '-n', str(n), '-tier', self.tier]
        try:
            p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('recording %s did not end' % comp)
        if p.returncode != 0:
            raise MachineryError('recording %s ended with %d: %s' % (comp, p.returncode, tail(p.stdout)))
        return open(out).read()

    def validate(self, comp, module, consts, n, judge, spec='TSpec', view='TView', what='', timeout=600, spoil=None):
        """Record histories of the library and let TLC decide whether they are behaviours of the specification.
        judge(divergence) gives the tag of a divergence, or None if it is not of this property."""
        hs = self.record(comp, n).splitlines()
        t = time.time()
        # the trace specification must refuse histories that did not happen: some with one answer changed
        fakes = []
        for h in hs[:10]:
            h = json.loads(h)
            k = [i for i, x in enumerate(h) if 'ok' in x and not x.get('open')]
            if k:
                k = k[(self.seed * 7 + len(fakes) * 5) % len(k)]
                h[k]['ok'] = spoil(h[k]['ok']) if spoil else not h[k]['ok']
                fakes.append(json.dumps(h))
        text = '\n'.join(hs + fakes) + '\n'
        res = self.tlc(module, consts, spec=spec, view=view, invs=['Ended'], files={'traces.ndjson': text}, what=what or 'recorded histories, step by step', timeout=timeout)
        done, steps = set(), 0
        for l in res:
            d = json.loads(l)
            if d['t'] in done:
                continue
            done.add(d['t'])
            if d['t'] > len(hs):
                if d['what'] == 'ok':
                    raise MachineryError('%s accepts a history that did not happen' % module)
                continue
            h = json.loads(hs[d['t'] - 1])
            if d['what'] == 'ok':
                steps += len(h)
                continue
            steps += d['step']
            tag = judge(d)
            if tag is None:
                self.off += 1
                continue
            st = h[d['step'] - 1]
            f = {'tag': tag, 'step': d['step'], 'what': 'recorded history %d is not a behaviour of %s: %s at %s' % (d['t'], module, d['what'], json.dumps(st)[:1200])}
            if not self.is_known(f):
                self.violation('record:' + comp, h[:d['step']], f, None, index=d['t'] - 1)
        if len(done) != len(hs) + len(fakes):
            raise MachineryError('%s decided %d of %d histories' % (module, len(done), len(hs)))
        with self.lock:
            self.traces += len(hs)
            self.steps += steps
            self.stages.append({'validated': comp, 'what': what, 'histories': len(hs), 'steps': steps, 'wall_s': round(time.time() - t, 2)})

    # ----------------------------------------------------------- violations
    def is_known(self, fail):
        for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']:
            if k['property'] == self.pid and k['tag'] == fail['tag']:
                if k['what'] not in self.known:
                    self.known.append(k['what'])
                return True
        return False

    def violation(self, comp, behaviour, fail, tags, index=None):
        with self.lock:
            k = len(self.violations)
            os.makedirs(self.outdir, exist_ok=True)
            path = os.path.join(self.outdir, 'violation-%d.json' % k)
            v = {'property': self.pid, 'component': comp, 'seed': self.seed, 'index': index, 'tags': sorted(tags) if tags else None,
                 'divergence': {x: fail.get(x) for x in ('tag', 'step', 'what')},
                 'behaviour': [json.loads(b) if isinstance(b, str) else b for b in behaviour] if isinstance(behaviour, list) else (json.loads(behaviour) if isinstance(behaviour, str) else behaviour),
                 'rerun': 'python3 check.py --replay ' + path}
            if k < 20:
                with open(path, 'w') as fh:
                    json.dump(v, fh, indent=1)
            self.violations.append((path, fail))

    def finish(self):
        ev = {'property': self.pid, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                           'steps_compared': self.steps, 'samples': self.samples, 'stages': self.stages, 'counters': self.extra,
                           'divergences_of_other_properties': self.off},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for path, f in self.violations[:5]:
            print('  [%s] step %s: %s' % (f.get('tag'), f.get('step'), str(f.get('what'))[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('%s %s: %d states, %d transitions, %d behaviours (%d steps) compared with the library, %d violations, %.1f s' % (
            self.pid, self.tier, self.states, self.transitions, self.traces, self.steps, len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def tail(s, n=1500):
    return s if len(s) <= n else s[:n // 2] + '\n...\n' + s[-n // 2:]


def parallel(*fs):
    """Run functions at once; the first error is raised."""
    errs, out = [], [None] * len(fs)

    def go(i, f):
        try:
            out[i] = f()
        except BaseException as e:     # noqa
            errs.append(e)
    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out
