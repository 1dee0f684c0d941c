"""Runs the drivers and TLC, and turns the outcome into evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = 8


class CheckError(Exception):
    """the check itself could not do its work"""


def hexs(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return 'x' + bytes(b).hex()


def ints(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return list(b)


class Scratch:
    """a directory of this run, outside /repo and /verif"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf.')
        os.chmod(self.dir, 0o755)
        self.n = 0

    def sub(self, name=None):
        self.n += 1
        d = os.path.join(self.dir, name or 'd%d' % self.n)
        os.makedirs(d, exist_ok=True)
        return d

    def file(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        subprocess.run(['chmod', '-R', 'u+rwX', self.dir], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)


def _feed(exe, cases, env, timeout):
    """runs one driver over the cases [(id, text)]; a driver which dies is
    started again after the case at which it died"""
    answers = {}
    pos = hung = 0
    while pos < len(cases):
        env['TFDRV_HUNG'] = str(hung)
        text = ''.join(t if t.endswith('\n') else t + '\n' for _, t in cases[pos:])
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        try:
            out, _ = p.communicate(text.encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        lines = out.decode().split('\n')[:-1]
        for l in lines:
            a = json.loads(l)
            if 'error' in a:
                raise CheckError('driver: ' + l)
            a['crash'] = 0
            answers[cases[pos][0]] = a
            pos += 1
        if pos < len(cases):
            hung += p.returncode == -14
            answers[cases[pos][0]] = {'id': cases[pos][0], 'crash': 1}
            pos += 1
    return answers


def drive(exe, cases, env=None, nproc=CPUS, timeout=600):
    """cases: [(id, text)]; answers by id"""
    e = dict(os.environ)
    e.pop('TFDRV_PATH', None)
    e.update(LC_ALL='C', TZ='UTC', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1')
    e.update(env or {})
    if not cases:
        return {}
    n = max(1, min(nproc, len(cases)))
    parts = [cases[k::n] for k in range(n)]
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda p: _feed(exe, p, dict(e), timeout), parts):
            res.update(r)
    return res


class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=CPUS, timeout=840, scratch=None, extra=(), xmx='6g', cfgtext=None):
    meta = tempfile.mkdtemp(prefix='tlc.', dir=scratch.dir if scratch else None)
    cfgfile = os.path.join(SPEC, cfg or module + '.cfg')
    if cfgtext is not None:
        cfgfile = os.path.join(meta, module + '.cfg')
        open(cfgfile, 'w').write(cfgtext)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfgfile] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        shutil.rmtree(meta, ignore_errors=True)
        raise CheckError('TLC ran out of time on %s %s' % (module, cfg))
    r = TlcResult()
    r.out = p.stdout.decode(errors='replace')
    r.code = p.returncode
    r.wall = time.time() - t
    r.module, r.cfg = module, cfg or module + '.cfg'
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.out)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    r.violated = None
    if p.returncode in (11, 12, 13):
        m = re.search(r'Invariant (\S+) is violated', r.out) or re.search(r'(Deadlock) reached', r.out) or \
            re.search(r'Temporal properties were (violated)', r.out) or re.search(r'(Action property \S+|property \S+) is violated', r.out)
        r.violated = m.group(1) if m else 'code %d' % p.returncode
    elif p.returncode != 0:
        shutil.rmtree(meta, ignore_errors=True)
        raise CheckError('TLC failed (%d) on %s %s\n%s' % (p.returncode, module, cfg, r.out[-6000:]))
    shutil.rmtree(meta, ignore_errors=True)
    return r


def last_value(out, var):
    """the value of a variable in the last state of the error trace"""
    v = re.findall(r'^(?:/\\ )?%s = (.*)$' % var, out, re.M)
    return v[-1] if v else None


class Check:
    """one run of the check of one property"""
    level = 'model_checking'

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = Scratch()
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.notes, self.assumptions = [], [], [], []
        self.violations = []
        self.counts = {}
        self.thorough = tier == 'thorough'

    # ---- models
    def model(self, module, cfg=None, **kw):
        r = tlc(module, cfg, scratch=self.scratch, **kw)
        if r.violated:
            raise CheckError('the specification %s (%s) does not have its own property %s:\n%s' % (module, r.cfg, r.violated, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'model': module, 'config': r.cfg, 'states': r.distinct, 'generated': r.generated, 'wall_s': round(r.wall, 1)})
        return r

    def models_parallel(self, jobs):
        """[(module, cfg)] at the same time"""
        with ThreadPoolExecutor(len(jobs)) as ex:
            list(ex.map(lambda j: self.model(j[0], j[1], workers=max(1, CPUS // len(jobs))), jobs))

    def generate(self, module, cfg=None, env=None, **kw):
        """cases enumerated by TLC from the specification"""
        out = self.scratch.file('gen-%s-%d.ndjson' % (module, len(self.models)))
        e = {'OUT': out}
        e.update(env or {})
        r = tlc(module, cfg, env=e, scratch=self.scratch, workers=1, **kw)
        if r.violated:
            raise CheckError(r.out[-2000:])
        with open(out) as f:
            cases = [json.loads(l) for l in f]
        self.models.append({'model': module, 'config': r.cfg, 'cases': len(cases), 'wall_s': round(r.wall, 1)})
        return cases

    # ---- conformance
    def conform(self, module, obs, rerun, cfg=None, env=None, label=None, index=None, what=None, cfgtext=None, shrink=True):
        """obs: observations of the real code.  rerun(k) observes case k again.
        Every observation has to conform to the specification."""
        if not obs:
            raise CheckError('no observations for ' + module)
        bad = self._validate(module, obs, cfg, env, cfgtext)
        self.traces += len(obs)
        label = label or module
        self.counts[label] = self.counts.get(label, 0) + len(obs)
        for k in range(0, len(obs), max(1, len(obs) // 2)):
            if len(self.samples) < 40:
                self.samples.append(clip(obs[k]))
        for _ in range(3):
            if bad is None:
                return True
            k, inv, out = bad
            again, b2 = [obs[k]], bad
            for _ in range(6 if rerun else 0):
                again = rerun(k)
                again = again if isinstance(again, list) else [again]
                b2 = self._validate(module, again, cfg, env, cfgtext)
                if b2:
                    break
            if b2:
                break
            if not slow(obs[k]):
                # it was seen, even if it is not seen each time
                again, b2 = [obs[k]], bad
                break
            # there was no time for it in a busy machine, but there is
            self.notes.append('observed again: it had been stopped by the time limit')
            obs = obs[:k] + again + obs[k + 1:]
            bad = self._validate(module, obs, cfg, env, cfgtext)
        else:
            raise CheckError('%s: observations are stopped by the time limit now and then' % module)
        os.makedirs(os.path.join(VERIF, 'build', 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'build', 'replay', '%s-%d.json' % (self.pid, len(self.violations) + 1))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'module': module, 'cfg': cfg, 'rejected_by': inv, 'env': env or {}, 'cfgtext': cfgtext,
                       'observations': again, 'tlc': b2[2][-3000:]}, f, indent=1)
        self.violations.append((path, inv, module))
        print('rejected by %s of %s: %s' % (inv, module, json.dumps(clip(again[0]))[:1500]))
        return False

    def _validate(self, module, obs, cfg, env, cfgtext):
        f = self.scratch.file('obs-%s.ndjson' % module)
        with open(f, 'w') as fh:
            for o in obs:
                fh.write(json.dumps(o) + '\n')
        e = {'OBS': f}
        e.update(env or {})
        r = tlc(module, cfg, env=e, scratch=self.scratch, cfgtext=cfgtext)
        self.states += r.distinct
        self.transitions += r.generated
        if not r.violated:
            need = len(obs)
            if r.distinct < need:
                raise CheckError('%s looked at %d states for %d observations' % (module, r.distinct, need))
            return None
        frm, off = last_value(r.out, 'from'), last_value(r.out, 'off')
        if frm is None:
            raise CheckError('no index in\n' + r.out[-3000:])
        return int(frm) + int(off) - 1, r.violated, r.out

    # ---- the end
    def known(self):
        f = os.path.join(VERIF, 'known_findings.txt')
        for l in open(f) if os.path.exists(f) else []:
            if l.startswith('finding: property=%s ' % self.pid):
                yield l.split(' ', 2)[2].strip()

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:12] or ['none'], 'models': self.models, 'observations': self.counts, 'notes': self.notes}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for path, inv, module in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if not self.violations:
            print('%s: held; %d states, %d observations, %.1f s' % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def slow(o):
    """was it ended by the time limit, perhaps?"""
    return bool(o.get('crash')) or any(x.get('sig') == 14 or x.get('crash') for x in [o] + [v for v in o.values() if isinstance(v, dict)])


def clip(o, n=120):
    """an observation short enough to be written out"""
    if isinstance(o, dict):
        return {k: clip(v, n) for k, v in o.items()}
    if isinstance(o, list):
        if o and all(isinstance(x, int) for x in o):
            if all(9 <= x < 127 for x in o) and len(o) > 1:
                s = bytes(o[:n]).decode('latin-1')
                return s + ('...(%d bytes)' % len(o) if len(o) > n else '')
            return o[:n // 4] + (['...%d' % len(o)] if len(o) > n // 4 else [])
        return [clip(x, n) for x in o[:8]] + (['...%d' % len(o)] if len(o) > 8 else [])
    return o
