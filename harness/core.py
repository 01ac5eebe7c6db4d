"""Recording of executions of the code, and running of TLC on them."""

import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VDAF_REPO', '/repo')
JARS = ('/opt/veriftools/tla/tla2tools.jar',
        '/opt/veriftools/tla/CommunityModules-deps.jar')

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, 'poc'))


class Hang(BaseException):
    """A call into the code did not return in time."""


class Machinery(Exception):
    """The check itself could not run."""


##
# Recording
#

def J(b):
    """A byte string as JSON."""
    return list(bytes(b))


def nat(n):
    """A natural number as little-endian bytes without leading zeros; a
    leading -1 marks a negative number."""
    n = int(n)
    if n < 0:
        return [-1] + nat(-n)
    return list(n.to_bytes((n.bit_length() + 7) // 8, 'little'))


def el(x, size):
    """A field element as its canonical encoding."""
    v = x.int()
    if isinstance(v, bool) or not isinstance(v, int) or v < 0:
        raise ValueError('not a field element')
    return list(v.to_bytes(max(size, (v.bit_length() + 7) // 8), 'little'))


def els(v, size):
    return [el(x, size) for x in v]


def res(fn, conv=lambda x: x):
    """The outcome of a call: a value, or a refusal (any exception)."""
    try:
        v = fn()
    except Exception as e:
        return {'ok': False, 'err': type(e).__name__}
    try:
        return {'ok': True, 'val': conv(v)}
    except Exception:
        return {'ok': True, 'val': [-1]}


class Rec:
    """The events of one trace."""

    def __init__(self, name, rng):
        self.id = name
        self.rng = rng
        self.ev = []
        self.extra = {}

    def add(self, k, **fields):
        fields['k'] = k
        self.ev.append(fields)
        return fields

    def bytes(self, n):
        return self.rng.randbytes(n)


CALL_LIMIT = 240


def _alarm(_sig, _frame):
    raise Hang()


def _run_job(args):
    (name, fn, kw, seed) = args
    rec = Rec(name, random.Random('%s/%s' % (seed, name)))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CALL_LIMIT)
    try:
        fn(rec, **kw)
    except Hang:
        rec.add('crash', err='no answer within %d s' % CALL_LIMIT)
    except Machinery as e:
        return ('machinery', str(e))
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        rec.add('crash', err='%s: %s' % (type(e).__name__, e), tb=tb[-1500:])
    finally:
        signal.alarm(0)
    t = {'id': name, 'ev': rec.ev}
    t.update(rec.extra)
    return ('ok', t)


def record(jobs, seed, procs=8):
    """Run jobs [(name, function, keyword arguments)]; return the traces."""
    args = [(n, f, kw, seed) for (n, f, kw) in jobs]
    names = [a[0] for a in args]
    assert len(set(names)) == len(names), 'duplicate job names'
    if len(args) <= 2 or procs == 1:
        out = [_run_job(a) for a in args]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(procs, maxtasksperchild=None) as pool:
            out = pool.map(_run_job, args, chunksize=1)
    for (tag, v) in out:
        if tag == 'machinery':
            raise Machinery(v)
    return [v for (_, v) in out]


##
# TLC
#

class Scratch:
    """A scratch directory with the compiled Java operators."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vdafcheck-')
        classes = os.path.join(self.dir, 'classes')
        os.mkdir(classes)
        p = subprocess.run(
            ['javac', '-nowarn', '-cp', JARS[0], '-d', classes,
             os.path.join(SPEC, 'java', 'Prim.java')],
            capture_output=True, text=True)
        if p.returncode != 0:
            raise Machinery('javac: ' + p.stderr)
        self.cp = ':'.join((classes,) + JARS)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class TlcResult:
    pass


def tlc(scratch, module, cfg=None, env=None, workers=8, timeout=850,
        simulate=None, extra=(), heap='12g'):
    """Run TLC on spec/<module>.tla."""
    meta = tempfile.mkdtemp(prefix='meta', dir=scratch.dir)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + scratch.dir,
           '-cp', scratch.cp, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg')]
    if simulate:
        cmd += ['-simulate', simulate]
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + '.tla'))
    e = dict(os.environ)
    e.setdefault('VERIF_SEED', '1')
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e,
                           cwd=scratch.dir, timeout=timeout)
        if p.returncode in (-9, 137) and time.time() - t0 < timeout / 2:
            # ended from outside (the machine ran out of memory): once more
            shutil.rmtree(meta, ignore_errors=True)
            os.makedirs(meta)
            p = subprocess.run(cmd, capture_output=True, text=True, env=e,
                               cwd=scratch.dir, timeout=timeout - (time.time() - t0))
    except subprocess.TimeoutExpired:
        raise Machinery('TLC on %s: no answer within %d s' % (module, timeout))
    r = TlcResult()
    r.wall = time.time() - t0
    r.code = p.returncode
    r.out = p.stdout
    r.err = p.stderr
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states', p.stdout)
    (r.generated, r.distinct) = map(int, m[-1]) if m else (0, 0)
    shutil.rmtree(meta, ignore_errors=True)
    return r


def gist(out):
    """TLC's output without the parser's progress reports."""
    return '\n'.join(x for x in out.splitlines() if not x.startswith(('Parsing file', 'Semantic processing')))[-3000:]


def last_state(out):
    """The variables of the last state of TLC's error trace."""
    parts = re.split(r'\nState \d+: [^\n]*\n', out)
    if len(parts) < 2:
        parts = re.split(r'(?:initial state|behavior up to this point is:)\n', out)
    tail = parts[-1]
    state = {}
    for m in re.finditer(r'(?:^|\n)(?:/\\ )?(\w+) = (.*?)(?=\n(?:/\\ )?\w+ = |\n\n|\Z)', tail, re.S):
        state[m.group(1)] = m.group(2).strip()
    return state


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def validate(scratch, traces, module='Trace', env=None, timeout=850, heap='12g'):
    """Check traces with TLC.  Returns (states, transitions) or raises
    Violation."""
    (fd, path) = tempfile.mkstemp(prefix='traces', suffix='.json', dir=scratch.dir)
    with os.fdopen(fd, 'w') as f:
        json.dump(traces, f)
    e = {'TRACES': path}
    e.update(env or {})
    r = tlc(scratch, module, env=e, timeout=timeout, heap=heap)
    if r.code == 0:
        os.unlink(path)
        return (r.distinct, r.generated)
    if r.code == 12 or 'Invariant Conforms is violated' in r.out:
        s = last_state(r.out)
        t = int(s.get('t', '1'))
        i = int(s.get('i', '0'))
        tr = traces[t - 1]
        raise Violation('trace %s event %d: %s' % (tr['id'], i, ' '.join(s.get('bad', '?').split())),
                        {'id': tr['id'], 'event': i, 'clause': s.get('bad'),
                         'trace': dict(tr, ev=tr['ev'][:i])})
    if 'The behavior up to this point is' in r.out and r.code in (75, 13, 76, 77):
        # The recorded values could not even be compared with the
        # specification's.
        s = last_state(r.out)
        t = int(s.get('t', '1'))
        i = int(s.get('i', '0')) + 1
        tr = traces[t - 1]
        err = r.out[r.out.find('Error:'):][:1500]
        raise Violation('trace %s event %d: not comparable: %s' % (tr['id'], i, ' '.join(err.split())[:300]),
                        {'id': tr['id'], 'event': i, 'clause': err,
                         'trace': dict(tr, ev=tr['ev'][:i])})
    raise Machinery('TLC on %s: exit %d\n%s\n%s' % (module, r.code, gist(r.out), r.err[-2000:]))


def model(scratch, module, cfg=None, env=None, timeout=850, **kw):
    """Model-check a specification module; it must hold."""
    r = tlc(scratch, module, cfg=cfg, env=env, timeout=timeout, **kw)
    if r.code != 0:
        raise Machinery('model %s: exit %d\n%s\n%s' % (cfg or module, r.code, gist(r.out), r.err[-2000:]))
    return r


def printed(out, tag):
    """JSON values printed by a model as <<"tag", "json">>."""
    vals = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, out):
        vals.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    return vals
