"""How tightly recorded executions are bound to the specification: binding.py [P01 ...]

Records the executions of a check, corrupts one leaf of one event at a time
(an integer, a truth value, a string, an element of a list), and asks TLC
about each corrupted trace.  Prints, for each kind of event and place in it,
how many corruptions were rejected.  A place none of whose corruptions is
rejected is an argument that does not matter, a remark, or something that the
specification fails to look at."""

import collections
import copy
import json
import os
import random
import re
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import core  # noqa: E402
import props  # noqa: E402
import run  # noqa: E402

PER_KIND = int(os.environ.get('PER_KIND', '4'))
CASES = int(os.environ.get('CASES', '240'))


class Capture(run.Run):
    """Keeps the traces instead of checking them."""

    def validate(self, traces, **kw):
        self.kept = [t for t in traces if t['ev']]
        raise StopIteration


def leaves(x, path=()):
    if isinstance(x, dict):
        for (k, v) in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path + ('-',)
        for (i, v) in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def corrupt(ev, path, rng):
    ev = copy.deepcopy(ev)
    at = ev
    for k in path[:-1]:
        at = at[k]
    k = path[-1]
    if k == '-':
        at.pop()
    elif isinstance(at[k], bool):
        at[k] = not at[k]
    elif isinstance(at[k], int):
        at[k] = (at[k] ^ 1) if at[k] >= 0 else at[k] - 1
    elif isinstance(at[k], str):
        at[k] = at[k] + 'x'
    else:
        return None
    return ev


def shape(path):
    out = []
    for p in path:
        if isinstance(p, int):
            if not out or out[-1] != '*':
                out.append('*')
        else:
            out.append(p)
    return '.'.join(out)


def judge(scratch, traces):
    """The indices of the traces that TLC rejects."""
    rejected = set()
    left = list(range(len(traces)))
    while left:
        (fd, path) = tempfile.mkstemp(prefix='traces', suffix='.json', dir=scratch.dir)
        with os.fdopen(fd, 'w') as f:
            json.dump([traces[i] for i in left], f)
        r = core.tlc(scratch, 'Trace', env={'TRACES': path}, timeout=1500, extra=('-continue',), workers=1)
        os.unlink(path)
        for m in re.finditer(r'/\\ t = (\d+)\n(?:/\\ .*\n|  .*\n)*?/\\ bad = <<[^>]', r.out):
            rejected.add(left[int(m.group(1)) - 1])
        for block in re.split(r'\nState \d+:', r.out):
            t = re.search(r'/\\ t = (\d+)', block)
            b = re.search(r'/\\ bad = (<<.)', block)
            if t and b and b.group(1) != '<<>':
                rejected.add(left[int(t.group(1)) - 1])
        if r.code in (0, 12):
            return rejected
        # the evaluation of one could not be completed
        s = core.last_state(r.out)
        if 't' not in s:
            print(core.gist(r.out)[-1500:])
            return rejected
        bad = left[int(s['t']) - 1]
        rejected.add(bad)
        left = [i for i in left if i not in rejected]
    return rejected


def audit(prop, scratch):
    r = Capture(prop, 'quick', 1, scratch)
    r.model = lambda *a, **k: None
    try:
        props.PROPS[prop].run(r)
    except StopIteration:
        pass
    rng = random.Random(prop)
    by = collections.defaultdict(list)
    for t in r.kept:
        for (i, e) in enumerate(t['ev']):
            by[(e['k'], str(e.get('op', '')))].append((t, i))
    cases = []
    for (kind, where) in sorted(by.items()):
        where = [w for w in where if len(json.dumps(w[0]['ev'][w[1]])) < 6000] or where[:1]
        for (t, i) in rng.sample(where, min(PER_KIND, len(where))):
            ev = t['ev'][i]
            groups = collections.defaultdict(list)
            for p in leaves(ev):
                groups[shape(p)].append(p)
            for (sh, ps) in groups.items():
                if sh in ('k', 'op'):
                    continue
                for p in rng.sample(ps, min(2, len(ps))):
                    c = corrupt(ev, p, rng)
                    if c is not None:
                        before = [] if ev['k'] in run.STATELESS else t['ev'][:i]
                        cases.append((kind, sh, dict(t, ev=before + [c])))
    cases = [c for c in cases if len(json.dumps(c[2])) < 300000]
    if len(cases) > CASES:
        cases = rng.sample(cases, CASES)
    rej = set()
    for i in range(0, len(cases), 20):
        rej |= {i + j for j in judge(scratch, [c[2] for c in cases[i:i + 20]])}
    tally = collections.defaultdict(lambda: [0, 0])
    for (n, (kind, sh, _)) in enumerate(cases):
        tally[(kind, sh)][1] += 1
        tally[(kind, sh)][0] += n in rej
    print('%s: %d corruptions, %d rejected' % (prop, len(cases), len(rej)))
    for ((kind, sh), (a, b)) in sorted(tally.items()):
        print('   %-8s %-24s %-24s %d/%d%s' % (kind[0], kind[1], sh, a, b, '   !' if a == 0 else ''))


for p in sys.argv[1:] or sorted(props.PROPS):
    sc = core.Scratch()
    try:
        audit(p, sc)
    finally:
        sc.close()
    sys.stdout.flush()
