"""Undo each fix commit of /repo in a scratch copy, and run the check of the
property it is recorded under: the violation has to be reported again."""

import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(arg):
    (prop, commit) = arg
    w = tempfile.mkdtemp(prefix='revert-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        p = subprocess.run(['git', '-C', w + '/r', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '-n', commit],
                           capture_output=True, text=True)
        if p.returncode:
            return (prop, commit, 'does not revert', p.stderr)
        p = subprocess.run([os.path.join(VERIF, 'check'), prop, 'quick'], capture_output=True, text=True,
                           env=dict(os.environ, VDAF_REPO=w + '/r', VDAF_EVIDENCE=w, VERIF_SEED='1'))
        return (prop, commit, 'caught' if p.returncode == 1 else 'MISSED (%d)' % p.returncode, p.stdout.split('\n')[0][:150])
    finally:
        shutil.rmtree(w)


def main():
    known = open(os.path.join(VERIF, 'known_findings.txt')).read()
    todo = [t for t in re.findall(r'^fixed: property=(P\d+) ([0-9a-f]+)', known, re.M) if t[1] in sys.argv[1:] or len(sys.argv) < 2]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, todo):
            print(*r, flush=True)


main()
