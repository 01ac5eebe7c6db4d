"""Model-check one specification module: model.py Module [NAME=value ...] [-coverage]"""

import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import core  # noqa: E402


def main(module, args):
    env = dict(a.split('=', 1) for a in args if '=' in a)
    extra = ('-coverage', '1') if '-coverage' in args else ()
    scratch = core.Scratch()
    try:
        start = time.time()
        r = core.tlc(scratch, module, env=env, timeout=3600, extra=extra, workers=int(os.environ.get('WORKERS', '4')))
        print(r.out[-20000:] if extra else '')
        print('exit %d, %d distinct, %.1f s' % (r.code, r.distinct, time.time() - start))
        if r.code:
            print(core.gist(r.out), r.err[-2000:])
    finally:
        scratch.close()


main(sys.argv[1], sys.argv[2:])
