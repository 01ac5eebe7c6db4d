"""Mechanical mutants of the code: mutate.py gen|tests|checks|report.

  gen     list the mutants (work/mutants.json)
  tests   run the repository's tests on each; keep the ones that pass
  checks  run the checks mapped to the mutated file on each survivor, until
          one reports it
  report  print the survivors that no check reported

The work directory is the value of MUT_WORK or /tmp/mut."""

import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('MUT_WORK', '/tmp/mut')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
SRC = '/repo/poc/vdaf_poc'

CHECKS = {
    'common.py': ['P11', 'P09', 'P21', 'P03', 'P14', 'P27', 'P28', 'P10'],
    'daf.py': ['P27'],
    'vdaf.py': ['P27', 'P14', 'P12', 'P28'],
    'field.py': ['P09', 'P10', 'P25', 'P11'],
    'flp.py': ['P06', 'P29'],
    'flp_bbcggi19.py': ['P05', 'P06', 'P08', 'P25', 'P07', 'P03', 'P28'],
    'idpf.py': ['P13', 'P14'],
    'idpf_bbcggi21.py': ['P14', 'P13', 'P25', 'P24'],
    'vdaf_ping_pong.py': ['P20', 'P19', 'P21'],
    'vdaf_poplar1.py': ['P14', 'P23', 'P16', 'P17', 'P15', 'P18', 'P25', 'P28', 'P24'],
    'vdaf_prio3.py': ['P03', 'P22', 'P02', 'P25', 'P04', 'P18', 'P17', 'P28', 'P24', 'P26'],
    'xof.py': ['P11', 'P25', 'P28'],
}

CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'],
       ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Mod: ['//'], ast.LShift: ['>>'], ast.RShift: ['<<'],
       ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.BitXor: ['|'], ast.Pow: ['*']}


def mutants(name):
    src = open(os.path.join(SRC, name)).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    tree = ast.parse(src)

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        (a, b) = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, what):
        (a, b) = span(n)
        if raw[a:b].decode() != new:
            out.append({'file': name, 'a': a, 'b': b, 'new': new, 'line': n.lineno, 'what': what, 'old': raw[a:b].decode()})

    skip = set()
    for n in ast.walk(tree):
        # annotations and docstrings
        for f in ('annotation', 'returns'):
            x = getattr(n, f, None)
            if x is not None:
                skip.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.ClassDef):
            for b in n.bases + n.keywords:
                skip.update(id(y) for y in ast.walk(b))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            skip.add(id(n))
            skip.add(id(n.value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('cast', 'TypeVar'):
            skip.update(id(y) for y in ast.walk(n.args[0]))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            for op in CMP.get(type(n.ops[0]), []):
                put(n, '%s %s %s' % (l, op, r), 'compare')
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                put(n, '(%s %s %s)' % (text(n.left), op, text(n.right)), 'operator')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, '(%s)' % text(n.left), 'left only')
                if isinstance(n.op, ast.Add):
                    put(n, '(%s)' % text(n.right), 'right only')
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                put(n, '(' + text(v) + ')', 'one operand')
        elif isinstance(n, ast.UnaryOp):
            put(n, '(' + text(n.operand) + ')', 'operator dropped')
        elif isinstance(n, ast.Constant):
            if type(n.value) is int and not isinstance(n.value, bool):
                for d in (1, -1):
                    put(n, str(n.value + d) if n.value + d >= 0 else '(%d)' % (n.value + d), 'constant')
            elif type(n.value) is bool:
                put(n, str(not n.value), 'constant')
            elif type(n.value) is bytes:
                put(n, repr(n.value + b'\0'), 'constant')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, 'True' if not isinstance(n, ast.While) else 'False', 'condition')
            if not isinstance(n, ast.While):
                put(n.test, 'False', 'condition')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a = [text(x) for x in n.args]
                    a[i], a[i + 1] = a[i + 1], a[i]
                    put(n, '%s(%s)' % (text(n.func), ', '.join(a)), 'arguments exchanged')
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'reversed', 'tuple', 'deepcopy', 'set') and len(n.args) == 1:
                put(n, '(' + text(n.args[0]) + ')', 'call dropped')
            if isinstance(n.func, ast.Name) and n.func.id == 'range' and len(n.args) == 1:
                put(n.args[0], text(n.args[0]) + ' - 1', 'shorter range')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for s in (n.slice.lower, n.slice.upper):
                if s is not None:
                    put(s, text(s) + ' + 1', 'slice')
                    put(s, text(s) + ' - 1', 'slice')
        elif isinstance(n, (ast.Raise, ast.AugAssign, ast.Break, ast.Continue)):
            put(n, 'pass', 'statement dropped')
        elif isinstance(n, ast.Assert):
            put(n, 'pass', 'assertion dropped')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'pass', 'statement dropped')
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.BoolOp):
            put(n.value, 'True', 'return')
        elif isinstance(n, ast.List) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            for i in range(len(n.elts) - 1):
                a = [text(x) for x in n.elts]
                a[i], a[i + 1] = a[i + 1], a[i]
                put(n, '[%s]' % ', '.join(a), 'elements exchanged')
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            pass
    good = []
    for m in out:
        new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        try:
            compile(new, name, 'exec')
        except SyntaxError:
            continue
        good.append(m)
    return good


def tree(m):
    w = tempfile.mkdtemp(prefix='mutant-', dir=WORK)
    shutil.copytree('/repo/poc', os.path.join(w, 'poc'), ignore=shutil.ignore_patterns('__pycache__'))
    if os.path.isdir('/repo/test_vec'):
        os.symlink('/repo/test_vec', os.path.join(w, 'test_vec'))
    p = os.path.join(w, 'poc', 'vdaf_poc', m['file'])
    raw = open(p, 'rb').read()
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
    return w


def run_tests(m):
    w = tree(m)
    try:
        try:
            p = subprocess.run(['/opt/venv/bin/python', '-m', 'unittest', '-q', '-f'], cwd=os.path.join(w, 'poc'), env=ENV, capture_output=True, text=True, timeout=120)
            if p.returncode == 0:
                p = subprocess.run(['/opt/venv/bin/python', '-m', 'unittest', '-q', '-f', 'example_flp_shamir'], cwd=os.path.join(w, 'poc'), env=ENV, capture_output=True, text=True, timeout=60)
            return p.returncode == 0
        except subprocess.TimeoutExpired:
            return False
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run_checks(m):
    w = tree(m)
    try:
        log = {}
        for c in CHECKS[m['file']]:
            try:
                p = subprocess.run([os.path.join(VERIF, 'check'), c, 'quick'], env=dict(ENV, VDAF_REPO=w, VDAF_EVIDENCE=w, VERIF_SEED='1'),
                                   capture_output=True, text=True, timeout=1200)
                log[c] = p.returncode
                if p.returncode == 1:
                    return (c, p.stdout.strip().splitlines()[0][:200], log)
                if p.returncode != 0:
                    return ('BROKEN ' + c, p.stderr[-500:], log)
            except subprocess.TimeoutExpired:
                return ('TIMEOUT ' + c, '', log)
        return (None, '', log)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def key(m):
    return '%s:%d-%d:%s' % (m['file'], m['a'], m['b'], m['new'])


def load(f):
    p = os.path.join(WORK, f)
    return json.load(open(p)) if os.path.exists(p) else {}


def save(f, d):
    p = os.path.join(WORK, f)
    json.dump(d, open(p + '.new', 'w'), indent=0)
    os.replace(p + '.new', p)


def main():
    os.makedirs(WORK, exist_ok=True)
    what = sys.argv[1]
    files = sys.argv[2:] or list(CHECKS)
    ms = {key(m): m for f in CHECKS for m in mutants(f)}
    if what == 'gen':
        for f in CHECKS:
            print(f, sum(m['file'] == f for m in ms.values()))
    elif what == 'tests':
        done = load('tests.json')
        todo = [k for (k, m) in ms.items() if k not in done and m['file'] in files]
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as ex:
            for (i, (k, ok)) in enumerate(zip(todo, ex.map(lambda k: run_tests(ms[k]), todo))):
                done[k] = ok
                if i % 20 == 0:
                    save('tests.json', done)
        save('tests.json', done)
        print(len(done), 'mutants', sum(done.values()), 'survive the tests')
    elif what == 'checks':
        alive = [k for (k, ok) in load('tests.json').items() if ok and k in ms and ms[k]['file'] in files]
        done = load('checks.json')
        todo = [k for k in alive if k not in done or done[k][0] is None and os.environ.get('AGAIN')]
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
            for (k, r) in zip(todo, ex.map(lambda k: run_checks(ms[k]), todo)):
                done[k] = r
                save('checks.json', done)
    elif what == 'report':
        done = load('checks.json')
        for (k, r) in done.items():
            if r[0] is None or r[0].startswith(('B', 'T')):
                m = ms[k]
                print('%s:%d [%s] %s  =>  %s   %s' % (m['file'], m['line'], m['what'], ' '.join(m['old'].split())[:90], ' '.join(m['new'].split())[:90], '' if r[0] is None else r[0] + r[1]))
        print(len(done), 'judged,', sum(r[0] is not None for r in done.values()), 'caught')


main()
