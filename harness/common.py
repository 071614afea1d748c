"""Shared machinery: running TLC, reporting, evidence, replay files."""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')

if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class MachineryError(Exception):
    """The check itself failed (exit status 2)."""


class Hung(Exception):
    """A call into the code under test did not come back."""


class limit(object):
    """Raises Hung in what runs inside for longer; each time it happens,
    later ones in this process are given less."""
    hung = 0

    def __init__(self, seconds):
        self.seconds = seconds

    def _ring(self, *_):
        limit.hung += 1
        raise Hung('no answer in %.1f s' % self.seconds)

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.seconds = max(self.seconds / 8. ** limit.hung, .5)
            signal.signal(signal.SIGALRM, self._ring)
            signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)


_scratch = None


def scratch():
    """Directory for this run's files, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix='verif-'))
        import atexit
        pid = os.getpid()
        path = _scratch[1]

        def _rm():
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_rm)
    return _scratch[1]


class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states', out)
        self.transitions = int(m[-1][0]) if m else 0
        self.states = int(m[-1][1]) if m else 0
        if not m:
            m = re.findall(r'(\d+) states checked', out)
            if m:
                self.transitions = self.states = int(m[-1])
        self.ok = rc == 0


_n = [0]


def tlc_start(module, cfg=None, env=None, workers=1, heap='2g', extra=(),
              specdir=SPEC):
    """Start TLC; returns a handle for tlc_wait."""
    _n[0] += 1
    meta = os.path.join(scratch(), 'tlc%d-%d' % (os.getpid(), _n[0]))
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
           '-Djava.io.tmpdir=' + meta,
           '-DTLA-Library=' + os.path.join(specdir, 'exchanges'),
           '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers',
           str(workers), '-metadir', meta,
           '-config', os.path.join(specdir, (cfg or module) + '.cfg')]
    cmd += list(extra)
    cmd.append(os.path.join(specdir, module + '.tla'))
    logf = open(os.path.join(meta, 'out.txt'), 'w+')
    p = subprocess.Popen(cmd, cwd=meta, env=e, stdout=logf,
                         stderr=subprocess.STDOUT)
    return p, logf, meta, time.time(), module


def tlc_wait(h, timeout=800, must_pass=True):
    p, logf, meta, t0, module = h
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise MachineryError('TLC timed out on %s' % module)
    logf.flush()
    logf.seek(0)
    out = logf.read()
    logf.close()
    shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult(out, rc, time.time() - t0)
    if must_pass and rc != 0:
        raise MachineryError('TLC failed on %s (exit %s):\n%s'
                             % (module, rc, tail(out)))
    return r


def tail(out, n=60):
    lines = [x for x in out.splitlines()
             if not x.startswith(('Parsing file', 'Semantic proc', 'Linting'))]
    return '\n'.join(lines[-n:])


def tlc(module, **kw):
    timeout = kw.pop('timeout', 800)
    must_pass = kw.pop('must_pass', True)
    return tlc_wait(tlc_start(module, **kw), timeout, must_pass)


def tlc_env_traces(module, traces, cfg=None, env=None, heap='2g', par=6,
                   timeout=800):
    """Run trace-checking module on several ndjson trace files (lists of
    events), in parallel.  Returns list of (verdict dict, TLCResult)."""
    todo = list(enumerate(traces))
    running = []
    done = {}
    d = scratch()
    while todo or running:
        while todo and len(running) < par:
            i, events = todo.pop(0)
            _n[0] += 1
            path = os.path.join(d, 'trace-%d-%d.ndjson' % (os.getpid(), _n[0]))
            outp = path + '.out'
            with open(path, 'w') as f:
                for ev in events:
                    f.write(json.dumps(ev))
                    f.write('\n')
            ev = dict(env or {})
            ev.update(TRACE=path, OUT=outp)
            running.append((i, path, outp,
                            tlc_start(module, cfg=cfg, env=ev, heap=heap)))
        i, path, outp, h = running.pop(0)
        r = tlc_wait(h, timeout)
        if not os.path.exists(outp):
            raise MachineryError('no verdict from %s\n%s'
                                 % (module, tail(r.out)))
        with open(outp) as f:
            v = json.load(f)
        done[i] = (v, r)
        if not os.environ.get('VERIF_KEEP'):
            os.remove(path)
            os.remove(outp)
    return [done[i] for i in range(len(traces))]


class Result(object):
    """What one check run found and covered."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []
        self.known = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.t0 = time.time()

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def violation(self, what, detail):
        self.violations.append((what, detail))

    def known_finding(self, what):
        if what not in self.known:
            self.known.append(what)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level='model_checking', coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        tmp = os.path.join(EVID, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, os.path.join(EVID, self.prop + '.json'))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if self.violations:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            for n, (what, detail) in enumerate(self.violations[:5]):
                path = os.path.join(rd, '%s-%d.json' % (self.prop, n))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, what=what,
                                   detail=detail), f, indent=1, default=str)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  ' + what)
            if len(self.violations) > 5:
                print('  ... %d violations in all' % len(self.violations))
            return 1
        print('%s: held (%s tier, %d states, %d transitions, %d traces '
              'validated, %.1f s)' % (self.prop, self.tier, self.states,
                                      self.transitions, self.traces,
                                      time.time() - self.t0))
        return 0


def wait_one(pids):
    while True:
        for pid in pids:
            if os.waitpid(pid, os.WNOHANG)[0]:
                return pid
        time.sleep(.005)


WHEREABOUTS = ['UTC', 'WST+11', 'LIN-14', 'UTC', 'IST-5:30', 'UTC',
               'PST8PDT,M3.2.0,M11.1.0', 'AES-10AED,M10.1.0,M4.1.0/3']


def parallel(func, items, procs=8, fresh=False):
    """Map func over items in forked processes, order kept (the items are
    inherited, not pickled); with fresh=True each has a process of its own.
    What a process was doing when the system ended
    it (no memory) is done again, one by one; an exception in one is a
    machinery error."""
    import gc
    import pickle
    d = tempfile.mkdtemp(dir=scratch())
    done = {}

    def worker(queue, k):
        # nothing may depend on where the process believes it is
        os.environ['TZ'] = WHEREABOUTS[k % len(WHEREABOUTS)]
        time.tzset()
        # what grows without end must not take the machine's memory
        resource.setrlimit(resource.RLIMIT_DATA, (8 << 30, 8 << 30))
        while True:
            got = os.read(queue, 4)
            if not got:
                return
            i = int(got)
            try:
                out = (True, func(items[i]))
            except BaseException:
                import traceback
                out = (False, traceback.format_exc())
            path = os.path.join(d, str(i))
            with open(path + '.tmp', 'wb') as f:
                pickle.dump(out, f, 2)
            os.rename(path + '.tmp', path)
            if fresh:
                return
            del out
            gc.collect()

    def run(todo, n):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        os.write(w, b''.join(b'%04d' % i for i in todo))
        pids = []
        for k in range(len(todo) if fresh else min(n, len(todo))):
            if len(pids) == n:
                pids.remove(wait_one(pids))
            pid = os.fork()
            if not pid:
                try:
                    os.close(w)
                    worker(r, k)
                finally:
                    os._exit(0)
            pids.append(pid)
        os.close(r)
        os.close(w)
        for pid in pids:
            os.waitpid(pid, 0)
        for i in todo:
            path = os.path.join(d, str(i))
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    ok, out = pickle.load(f)
                os.remove(path)
                if not ok:
                    raise MachineryError('in a worker:\n' + out)
                done[i] = out

    assert len(items) < 10000
    for n in (procs, 2, 1):
        todo = [i for i in range(len(items)) if i not in done]
        if todo:
            run(todo, n)
    if len(done) != len(items):
        raise MachineryError('a worker was ended')
    return [done[i] for i in range(len(items))]
