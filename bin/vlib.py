"""Runner library: builds the code under test, runs drivers, validates traces with TLC, writes evidence."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import genninja

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class Violation(Exception):
    def __init__(self, what, replay): super().__init__(what); self.what, self.replay = what, replay
class CheckError(Exception): pass

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.out = os.path.join(VERIF, 'out', prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.assumptions = []
        self.known = []       # known findings matched on this run
        self.pool = cf.ThreadPoolExecutor(16)

    @property
    def quick(self): return self.tier == 'quick'
    def scale(self, q, t): return q if self.quick else t
    def log(self, *a): print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)
    def path(self, name): return os.path.join(self.out, name)

    # ---- build -----------------------------------------------------------------------------------------------
    def build(self, variant, drivers):
        d = os.path.join(VERIF, 'build', variant)
        if REPO != '/repo': d += '-' + re.sub(r'\W', '_', REPO)
        alld = sorted(os.path.basename(p)[:-4] for p in glob.glob(VERIF + '/harness/drv_*.cpp'))
        genninja.generate(REPO, VERIF, variant, d, alld)
        r = subprocess.run(['ninja', '-C', d] + ['d/' + x for x in drivers], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write('\n'.join(l for l in r.stdout.splitlines() if 'error' in l or 'FAILED' in l)[-6000:] + '\n')
            raise CheckError('build failed (%s)' % variant)
        self.log('built', variant, ' '.join(drivers))
        return {x: os.path.join(d, 'd', x) for x in drivers}

    # ---- driver ----------------------------------------------------------------------------------------------
    def run(self, exe, args, timeout=300, env=None, ok=(0,)):
        """Runs a driver. A crash or hang of the driver is a violation if it repeats."""
        cmd = [exe] + [str(a) for a in args]
        e = dict(os.environ); e.update(env or {})
        e.setdefault('ASAN_OPTIONS', 'detect_leaks=0:allocator_may_return_null=1')
        def once():
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=e, cwd=self.out)
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as x:
                return 'timeout', '', ''
        rc, so, se = once()
        if rc in ok: return so
        if rc == 2: raise CheckError('driver refused: %s\n%s' % (' '.join(cmd), se[-2000:]))
        rc2, so2, se2 = once()
        if rc2 in ok: rc2, so2, se2 = once()
        if rc2 in ok: raise CheckError('driver failed once (%s), not repeatable: %s\n%s' % (rc, ' '.join(cmd), se[-3000:]))
        rp = self.path('replay-crash-%s.txt' % os.path.basename(exe))
        with open(rp, 'w') as f: f.write('command: %s\nexit: %s\n--- stderr\n%s\n' % (' '.join(cmd), rc2, se2[-20000:]))
        what = 'a call did not return: exit=%s %s' % (rc2, (re.search(r'CRASH.*|ERROR: .*Sanitizer.*', se2) or [se2[-200:]])[0])
        raise Violation(what, rp)

    # ---- TLC -------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, opts=(), timeout=600, tag=None, heap='6g'):
        tag = tag or module
        md = self.path('tlc-' + tag)
        os.makedirs(md, exist_ok=True)
        e = dict(os.environ); e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', TLA_CP, 'tlc2.TLC', '-noGenerateSpecTE', '-cleanup',
               '-workers', str(workers), '-metadir', md, '-config', (cfg or module) + '.cfg', *opts, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=VERIF + '/spec', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s' % tag)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        with open(self.path('tlc-%s.log' % tag), 'w') as f: f.write(p.stdout)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', p.stdout)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        return p.returncode, p.stdout, gen, dist

    def mc(self, module, cfg=None, **kw):
        """Model checks a specification on its own. Failure here is an error of the model, not of the code."""
        rc, out, gen, dist = self.tlc(module, cfg, tag=kw.pop('tag', 'mc-' + (cfg or module)), **kw)
        if rc != 0: raise CheckError('model check of %s failed (rc=%s):\n%s' % (cfg or module, rc, out[-3000:]))
        self.cov['states'] += dist; self.cov['transitions'] += gen
        self.extra.setdefault('models', {})[cfg or module] = dict(states=dist, transitions=gen)
        self.log('model', cfg or module, 'states', dist, 'transitions', gen)

    def validate(self, module, files, cfg=None, timeout=800, par=3, workers=3, corrupt=None, by=1):
        """Validates trace files (one trace per line) against a trace specification."""
        def one(i, f):
            r = self.tlc(module, cfg, env=dict(TRACE=f), workers=workers, timeout=timeout, tag='%s-%d' % (cfg or module, i))
            return r
        with cf.ThreadPoolExecutor(par) as ex: rs = list(ex.map(lambda p: one(*p), enumerate(files)))
        for f, (rc, out, gen, dist) in zip(files, rs):
            n = sum(1 for _ in open(f))
            if rc == 0:
                self.cov['states'] += dist; self.cov['transitions'] += gen; self.cov['traces_validated_against_impl'] += n
                if len(self.cov['samples']) < 3:
                    with open(f) as h: self.cov['samples'].append(h.readline()[:700])
                continue
            if 'OutOfMemory' in out or 'StackOverflow' in out or 'Could not' in out and 'parse' in out or 'Parsing or semantic' in out or rc >= 150:
                raise CheckError('TLC failed on %s (rc=%s):\n%s' % (module, rc, out[-3000:]))
            rc2, out2, _, _ = self.tlc(module, cfg, env=dict(TRACE=f), workers=1, timeout=timeout, tag='confirm')
            if rc2 == 0: raise CheckError('rejection did not repeat: %s' % module)
            ts = re.findall(r'/\\ t = (\d+)', out2); ls = re.findall(r'/\\ l = (\d+)', out2)
            if not ts: raise CheckError('TLC failed on %s (rc=%s):\n%s' % (module, rc2, out2[-3000:]))
            t, l = int(ts[-1]), int(ls[-1]) if ls else 0
            with open(f) as h:
                for k, line in enumerate(h, 1):
                    if k == t: break
            rp = self.path('replay-%s-t%d-l%d.txt' % (module, t, l))
            ev = json.loads(line).get('ev', [])
            bad = ev[l - 1] if 0 < l <= len(ev) else None
            with open(rp, 'w') as h:
                h.write('spec: spec/%s.tla\ntrace: %s line %d\nrejected at event %d:\n%s\n--- previous events\n' % (module, f, t, l, json.dumps(bad)))
                for k, x in enumerate(ev[max(0, l - 12):max(0, l - 1)], max(0, l - 12) + 1): h.write('%d %s\n' % (k, json.dumps(x)))
                h.write('--- TLC\n' + out2[-20000:] + '\n--- full trace\n' + line)
            raise Violation('trace %d rejected at event %d: %s' % (t, l, json.dumps(bad)[:600]), rp)

        if corrupt: self.selftest(module, files[0], cfg, corrupt, by)

    def selftest(self, module, f, cfg, field, by=1):
        """Binding demonstration: one recorded observation is falsified; the specification has to reject the trace."""
        def bump(x):
            if isinstance(x, bool): return (not x), True
            if isinstance(x, int): return x + by, True
            if isinstance(x, list):
                for i in range(len(x)):
                    y, ok = bump(x[i])
                    if ok: return x[:i] + [y] + x[i + 1:], True
            if isinstance(x, dict):
                for i in x:
                    y, ok = bump(x[i])
                    if ok: return dict(x, **{i: y}), True
            return x, False
        found = tried = 0
        with open(f) as h:
            for line in h:
                tr = json.loads(line)
                for k in range(len(tr['ev']) // 2, len(tr['ev'])):
                    if field in tr['ev'][k]:
                        y, ok = bump(tr['ev'][k][field])
                        if ok: break
                else: continue
                found = 1
                tr['ev'][k][field] = y
                p = self.path('corrupted.ndjson')
                with open(p, 'w') as g: g.write(json.dumps(tr) + '\n')
                rc, out, _, _ = self.tlc(module, cfg, env=dict(TRACE=p), workers=1, timeout=120, tag='selftest')
                if rc != 0:
                    self.extra['falsified_traces_rejected'] = self.extra.get('falsified_traces_rejected', 0) + 1
                    return
                tried += 1   # the falsified observation may be one that the specification leaves open
                if tried == 8: break
        if not found: raise CheckError('selftest: field %s never recorded' % field)
        raise CheckError('selftest: %s accepted %d falsified traces (field %s)' % (module, tried, field))

    # ---- evidence --------------------------------------------------------------------------------------------
    def evidence(self, level, violations):
        cov = dict(self.cov); cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as f: json.dump(ev, f, indent=1)

def ndjson_count(f):
    n = 0
    with open(f) as h:
        for line in h: n += 1
    return n
