"""Shared machinery of the checks: scratch directories, TLC runs, drivers, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IKBT_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = os.cpu_count() or 4

_scratch = None


def scratch(name=None):
    """A scratch directory of this check, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='ikbtverif.')
        pid = os.getpid()
        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    if name is None:
        return _scratch
    d = os.path.join(_scratch, name)
    os.makedirs(d, exist_ok=True)
    return d


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- drivers
def driver(script, args=(), cwd=None, timeout=600, env=None, check=True):
    """Run a driver of /verif/harness against the code in REPO; returns (rc, output)."""
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
             PYTHONPATH=REPO + ':' + os.path.join(VERIF, 'harness'), IKBT_REPO=REPO,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', SYMPY_CACHE_SIZE='20000')
    e.update(env or {})
    cwd = cwd or scratch('drv%d' % int(time.time() * 1e6))
    try:
        p = subprocess.run([PY, '-W', 'ignore', os.path.join(VERIF, 'harness', script)] + [str(a) for a in args],
                           cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as ex:
        return 'timeout', (ex.stdout or b'').decode('utf8', 'replace')


def pmap(fn, items, n=None):
    """Run fn over items in n threads (the work is in subprocesses)."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- TLC
def _unescape(s):
    return json.loads('"' + s + '"')


def tlc(module, cfg, env=None, workers=1, timeout=600, heap='4g', cfgtext=None, extra=()):
    """Run TLC on spec/<module>.tla; returns a dict with output, verdicts printed by the
    specification, statistics, and the violated invariant/property if any."""
    d = tempfile.mkdtemp(prefix='tlc.', dir=scratch())
    for f in os.listdir(os.path.join(VERIF, 'spec')):
        if f.endswith('.tla') or f.endswith('.cfg'):
            shutil.copy(os.path.join(VERIF, 'spec', f), d)
    if cfgtext is not None:
        with open(os.path.join(d, cfg), 'w') as f:
            f.write(cfgtext)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', TLAJARS, 'tlc2.TLC', '-metadir', os.path.join(d, 'st'),
           '-workers', str(workers), '-config', cfg] + list(extra) + [module + '.tla']
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf8', 'replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b'').decode('utf8', 'replace')
        rc = 'timeout'
    r = {'rc': rc, 'out': out, 'wall': time.time() - t, 'module': module, 'cfg': cfg}
    r['verdicts'] = {}
    for m in re.finditer(r'<<"([A-Z]+)", "((?:[^"\\]|\\.)*)">>', out):
        r['verdicts'].setdefault(m.group(1), []).append(json.loads(_unescape(m.group(2))))
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    r['states'] = int(m[-1][1]) if m else 0
    r['transitions'] = int(m[-1][0]) if m else 0
    m = re.search(r'(?:Invariant|Property|Temporal properties|Action property) ?(\w*) (?:is|were) violated', out)
    r['violated'] = (m.group(1) or 'temporal property') if m else None
    r['ok'] = 'Model checking completed. No error has been found.' in out
    shutil.rmtree(d, ignore_errors=True)
    return r


def need(r, what='VERDICT'):
    """The single verdict a trace specification printed; a machinery error if there is none."""
    if not r['ok'] or len(r['verdicts'].get(what, [])) < 1:
        raise MachineryError('TLC gave no verdict on %s/%s: %s' % (r['module'], r['cfg'], r['out'][-3000:]))
    return r['verdicts'][what][-1]


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []           # (key, text, detail)
        self.known = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.findings = load_known()

    def violation(self, key, text, detail=None):
        """key identifies the failing input / call site / history; a listed key is a known finding."""
        for f in self.findings:
            if f['property'] == self.pid and f['key'] == key:
                if key not in [k for k, _ in self.known]:
                    self.known.append((key, f['what']))
                return
        self.viol.append((key, text, detail))

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool) and isinstance(self.cov.get(k), int):
                self.cov[k] += v
            else:
                self.cov[k] = v

    def tlc_ok(self, r, what):
        """A model-checking run of the design must complete without error."""
        if r['violated']:
            self.violation('design:' + what, 'TLC: %s violated in %s' % (r['violated'], what), r['out'][-5000:])
        elif not r['ok']:
            raise MachineryError('TLC failed on %s: %s' % (what, r['out'][-3000:]))
        self.add(states=r['states'], transitions=r['transitions'])

    def finish(self):
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = dict(self.cov)
        cov['samples'] = self.samples[:6] or cov.get('samples') or ['none']
        cov['known_findings'] = len(self.known)
        data = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
                'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
                'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(data, f, indent=1)
        for key, what in self.known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, what, key))
        if not self.viol:
            print('OK property=%s %s' % (self.pid, {k: v for k, v in cov.items() if isinstance(v, int)}))
            return 0
        rd = os.path.join(ev, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, self.pid + '.json')
        with open(path, 'w') as f:
            json.dump([{'key': k, 'text': t, 'detail': d} for k, t, d in self.viol[:50]], f, indent=1, default=str)
        for k, t, d in self.viol[:10]:
            print('  %s: %s' % (k, t))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1


def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<key> :: <what fails>'."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', line.strip())
            if m:
                res.append({'property': m.group(1), 'key': m.group(2), 'what': m.group(3)})
    return res


def main(pid, level, fn):
    c = Check(pid, level)
    try:
        fn(c)
    except MachineryError as ex:
        print('MACHINERY ERROR:', ex)
        sys.exit(3)
    sys.exit(c.finish())
