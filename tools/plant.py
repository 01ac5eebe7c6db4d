"""Planted bugs: plant.py [-t] [-c] [id ...] confirms the ones in seeded/.

For each one, in a scratch copy of /repo: the patch applies, the tests pass
with it (-t), the demonstration passes without and fails with it, and (-c) the
check of its property reports it."""

import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def demo(where, d):
    # demo.sh runs with the tree as its working directory
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=where, env=ENV,
                          capture_output=True, text=True, timeout=300)


def tests(where):
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'unittest', '-q'], cwd=os.path.join(where, 'poc'),
                       env=ENV, capture_output=True, text=True)
    return p.returncode == 0, p.stderr[-1500:]


def confirm(ident, with_tests, with_check):
    d = os.path.join(SEEDED, ident)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    scratch = tempfile.mkdtemp(prefix='plant-')
    out = {'id': ident, 'property': meta['property']}
    try:
        w = os.path.join(scratch, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        out['clean'] = demo(w, d).returncode
        p = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=w, capture_output=True, text=True)
        if p.returncode != 0:
            out['apply'] = p.stderr
            return out
        out['planted'] = demo(w, d).returncode
        if with_tests:
            (ok, err) = tests(w)
            out['tests'] = 'pass' if ok else err
        if with_check:
            props = [meta['property']] if with_check == 1 else with_check
            for prop in props:
                p = subprocess.run([os.path.join(VERIF, 'check'), prop, 'quick'],
                                   env=dict(ENV, VDAF_REPO=w, VDAF_EVIDENCE=scratch, VERIF_SEED=os.environ.get('VERIF_SEED', '1')),
                                   capture_output=True, text=True)
                out[prop] = {0: 'missed', 1: 'caught'}.get(p.returncode, 'BROKEN ' + p.stderr[-800:])
                if p.returncode == 1:
                    out['what'] = p.stdout.strip().splitlines()[0][:200]
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def plant(ident, prop, edits, demo_py, needs, breaks):
    """Write seeded/<ident> from edits [(file, old, new)]."""
    d = os.path.join(SEEDED, ident)
    scratch = tempfile.mkdtemp(prefix='plant-')
    try:
        w = os.path.join(scratch, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        for (f, old, new) in edits:
            path = os.path.join(w, 'poc', f)
            s = open(path).read()
            assert s.count(old) == 1, (ident, f, s.count(old), old)
            open(path, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo_py.strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/poc" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


if __name__ == '__main__':
    args = sys.argv[1:]
    t = '-t' in args
    c = 1 if '-c' in args else 0
    j = 2
    for a in args:
        if a.startswith('-j'):
            j = int(a[2:])
        if a.startswith('-p'):
            c = a[2:].split(',')
    ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for o in ex.map(lambda i: confirm(i, t, c), ids):
            print(json.dumps(o), flush=True)
