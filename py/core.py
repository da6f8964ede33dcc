"""Running the code under test, running TLC, reporting."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
QUICK = TIER != 'thorough'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    """the machinery, not the code under test, failed"""


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='svgverif.')
    return _tmp


def cleanup():
    if _tmp:
        shutil.rmtree(_tmp, ignore_errors=True)


def go_env():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GONOSUMDB='*', GOFLAGS_EXTRA='')
    for d in ('/opt/veriftools/go1.27.3/bin', '/usr/local/go/bin'):
        if os.path.isdir(d):
            e['PATH'] = d + ':' + e.get('PATH', '')
            break
    e.setdefault('HOME', '/root')
    return e


def build(race=False):
    """builds the harness from /repo's working tree"""
    src = os.path.join(tmp(), 'harness')
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(VERIF, 'harness'), src)
    out = os.path.join(tmp(), 'h_race' if race else 'h')
    cmd = ['go', 'build', '-o', out] + (['-race'] if race else []) + ['.']
    r = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('the harness does not build:\n' + r.stderr[-3000:])
    return out


class Harness:
    """One harness process; restarts it when a request ends the process."""

    def __init__(self, exe, env=None, limit=True):
        self.exe, self.p = exe, None
        self.limit = limit and not exe.endswith('_race')
        self.env = dict(os.environ)
        self.env.update(env or {})

    def start(self):
        self.errfile = tempfile.TemporaryFile()
        mem = 3 << 30
        pre = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if self.limit else None
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errfile, env=self.env, preexec_fn=pre)

    retried = 0

    def ask(self, req):
        """executes a request; a hang or a kill is believed when it comes twice,
        the second time in a fresh process and with three times the limit, so that
        a loaded machine does not look like a hang (for the first few: a tree
        that really hangs is not waited for again and again)"""
        r = self.ask_once(req)
        if (r['out'] == 'hang' or r.get('killed')) and Harness.retried < 4:
            Harness.retried += 1
            r = self.ask_once(dict(req, limit=3 * (req.get('limit') or 10)))
        return r

    def ask_once(self, req):
        if self.p is None:
            self.start()
        # the harness enforces its own time limit; this one is for a runtime that is stuck altogether
        dog = threading.Timer(60 + req.get('limit', 0), self.p.kill)
        dog.start()
        try:
            self.p.stdin.write((json.dumps(req) + '\n').encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b''
        finally:
            dog.cancel()
        if line:
            r = json.loads(line)
            if r.get('hang'):
                self.p.kill()
                self.p.wait()
                self.p = None
                r['out'] = 'hang'
            elif 'panic' in r:
                if r['panic'].startswith('harness:'):
                    raise ToolError(r['panic'])
                r['out'] = 'panic'
            else:
                r['out'] = 'ok'
            return r
        # the process died: a fatal error (stack overflow, concurrent map write, race ...)
        rc = self.p.wait()
        self.p = None
        self.errfile.seek(0)
        err = self.errfile.read().decode(errors='replace')
        if rc == 3 or 'harness:' in err[:200]:
            raise ToolError('harness failed (%d): %s' % (rc, err[-500:]))
        return {'out': 'panic', 'panic': 'fatal error (%d)' % rc, 'where': err[:600], 'fatal': True, 'killed': rc == -9}

    def stderr(self):
        if self.p is None:
            return ''
        self.errfile.seek(0)
        return self.errfile.read().decode(errors='replace')

    def stop(self):
        """ends the process and returns (exit code, stderr)"""
        if self.p is None:
            return 0, ''
        self.p.stdin.close()
        rc = self.p.wait()
        self.errfile.seek(0)
        err = self.errfile.read().decode(errors='replace')
        self.p = None
        return rc, err


def observe(exe, reqs, par=None, env=None):
    """executes all requests and returns the responses in order; after many
    crashes or hangs the rest is left out (None)"""
    par = par or min(CPUS, 8)
    out = [None] * len(reqs)
    q = queue.Queue()
    step = 16
    for i in range(0, len(reqs), step):
        q.put(i)
    errs, ended = [], []

    def work():
        h = Harness(exe, env)
        try:
            while not errs:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                for j in range(i, min(i + step, len(reqs))):
                    if len(ended) >= 24:
                        return
                    out[j] = h.ask(reqs[j])
                    if out[j]['out'] == 'hang' or out[j].get('fatal'):
                        ended.append(j)
        except Exception as e:  # noqa
            errs.append(e)
        finally:
            if h.p is not None:
                h.stop()

    ts = [threading.Thread(target=work) for _ in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return out


def err_text(out):
    i = out.find('Error:')
    return out[i:i + 4000] if i >= 0 else out[-4000:]


class TLC:
    """result of one run of TLC"""

    def __init__(self, out, rc, dt):
        self.out, self.rc, self.dt = out, rc, dt
        m = re.search(r'([\d,]+) states generated,? ([\d,]+) distinct states found', out)
        k = re.search(r'Finished computing initial states: ([\d,]+) ', out)
        self.init = int(k.group(1).replace(',', '')) if k else 0
        self.transitions = int(m.group(1).replace(',', '')) - self.init if m else 0
        self.states = int(m.group(2).replace(',', '')) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out


def tlc(module, cfg=None, env=None, workers=None, heap='6g', extra=(), timeout=800, simulate=None):
    t0 = time.time()
    meta = tempfile.mkdtemp(dir=tmp())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', CP, 'tlc2.TLC', '-nowarning', '-lncheck', 'final',
           '-workers', str(workers or CPUS), '-metadir', meta, '-config', cfg or module + '.cfg', '-noGenerateSpecTE'] + list(extra)
    cmd += [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode(errors='replace')
    t = TLC(out, r.returncode, time.time() - t0)
    if simulate is None and not t.ok and r.returncode not in (11, 12, 13):
        raise ToolError('TLC failed on %s (%d):\n%s' % (module, r.returncode, err_text(out)))
    return t


class Unplaced(Exception):
    """an observation that is outside of the range of the specification"""
    def __init__(self, module, case, text):
        self.module, self.case, self.text = module, case, text


def judge_some(module, cases):
    f = os.path.join(tmp(), 'cases.%s.ndjson' % module)
    with open(f, 'w') as h:
        for c in cases:
            h.write(json.dumps(c) + '\n')
    try:
        t = tlc(module, env={'CASES': f})
        if t.ok:
            return t
        text = err_text(t.out)
    except ToolError as e:
        text = str(e)
    # TLC cannot evaluate one of the cases: its numbers are out of range, which no case within the specification reaches
    if 'Overflow' not in text or not cases:
        raise ToolError('TLC reports an error on %s:\n%s' % (module, text))
    if len(cases) == 1:
        raise Unplaced(module, cases[0], text)
    half = len(cases) // 2
    judge_some(module, cases[:half])
    judge_some(module, cases[half:])
    raise ToolError('TLC reports an error on %s that does not repeat:\n%s' % (module, text))


def judge(module, cases, chunk=4000):
    """validates recorded traces; returns ({id: fields}, states, transitions)"""
    res, st, tr = {}, 0, 0
    for k in range(0, len(cases), chunk):
        t = judge_some(module, cases[k:k + chunk])
        for m in re.finditer(r'"V\|(\d+)\|([^"]*)"', t.out):
            res[int(m.group(1))] = m.group(2).split('|')
        st += t.states
        tr += t.transitions
    missing = [c['id'] for c in cases if c['id'] not in res]
    if missing:
        raise ToolError('%d cases without a verdict from %s, first %s' % (len(missing), module, missing[:3]))
    return res, st, tr
