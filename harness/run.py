"""Entry point of the checks: run.py <property> <quick|thorough>."""

import concurrent.futures
import json
import os
import random
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import props  # noqa: E402


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    evdir = os.environ.get('VDAF_EVIDENCE') or os.path.join(core.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    p = props.PROPS[prop]
    scratch = core.Scratch()
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': p.level,
          'coverage': {}, 'wall_s': 0, 'violations': 0}
    code = 0
    try:
        run = Run(prop, tier, seed, scratch)
        try:
            p.run(run)
        except core.Violation as v:
            path = os.path.join(evdir, 'replay-%s.json' % prop)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': seed, 'what': v.what, 'detail': v.replay}, f)
            print('  ' + v.what)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            ev['violations'] = 1
            code = 1
        ev['coverage'] = run.coverage(p.level)
        ev['assumptions'] = p.assumptions
        for line in run.notes:
            print(line)
    except core.Machinery as e:
        print('MACHINERY FAILURE: %s' % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        scratch.close()
    ev['wall_s'] = round(time.time() - t0, 2)
    if code != 2:
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %s in %.1f s' % (prop, tier, json.dumps({k: v for k, v in ev['coverage'].items() if k != 'samples'}), ev['wall_s']))
    sys.exit(code)


def split(t, size=25):
    """Cut a trace whose events do not depend on each other, so that TLC's
    workers share it."""
    if len(t['ev']) <= size or not all(e['k'] in STATELESS for e in t['ev']):
        return [t]
    return [dict(t, id='%s@%d' % (t['id'], i), ev=t['ev'][i:i + size]) for i in range(0, len(t['ev']), size)]


STATELESS = {'scn', 'joint', 'ideal', 'idpf', 'codec', 'flp', 'agg', 'frame', 'driver', 'sss', 'refuse', 'param', 'mask', 'same', 'differ', 'field', 'fparams', 'poly', 'bytes', 'crash'}


class Run:
    """One run of a check; collects what it covered."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.deep = tier == 'thorough'
        self.seed = seed
        self.rng = random.Random('%s/%s' % (seed, prop))
        self.scratch = scratch
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.distinct = set()
        self.samples = []
        self.notes = []
        self.per_model = {}

    def known(self, ident):
        """Is this finding listed in known_findings.txt?"""
        with open(os.path.join(core.VERIF, 'known_findings.txt')) as f:
            return any(x.startswith('known: property=%s %s ' % (self.prop, ident)) for x in f)

    def finding(self, text):
        self.notes.append('KNOWN-FINDING: property=%s %s' % (self.prop, text))

    def model(self, module, cfg=None, **kw):
        r = core.model(self.scratch, module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.per_model[' '.join([cfg or module] + ['%s=%s' % x for x in (kw.get('env') or {}).items()])] = r.distinct
        return r

    def models(self, runs):
        """Several models [(module, env)], side by side."""
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            rs = list(pool.map(lambda x: core.model(self.scratch, x[0], env=x[1], workers=2, heap='4g'), runs))
        for ((module, env), r) in zip(runs, rs):
            self.states += r.distinct
            self.transitions += r.generated
            self.per_model[' '.join([module] + ['%s=%s' % x for x in env.items()])] = r.distinct
        return [r.out for r in rs]

    def record(self, jobs):
        # for development: only the jobs whose names match
        only = os.environ.get('VDAF_JOBS')
        if only:
            jobs = [j for j in jobs if re.search(only, j[0])]
        return core.record(jobs, '%s/%s' % (self.seed, self.prop))

    def validate(self, traces, **kw):
        traces = [t for t in traces if t['ev']]
        n = sum(len(t['ev']) for t in traces)
        whole = len(traces)
        traces = [u for t in traces for u in split(t)]
        for t in traces:
            for e in t['ev'][:200]:
                self.distinct.add(json.dumps(e, sort_keys=True)[:400])
        if traces and len(self.samples) < 5:
            pick = random.Random(self.seed).sample(traces, min(3, len(traces)))
            for t in pick:
                self.samples.append({'trace': t['id'], 'first_event': json.dumps(t['ev'][0])[:300], 'events': len(t['ev'])})
        (s, tr) = core.validate(self.scratch, traces, **kw)
        self.states += s
        self.transitions += tr
        self.traces += whole
        self.events += n

    def coverage(self, level):
        if level == 'model_checking':
            return {'states': self.states, 'transitions': self.transitions,
                    'traces_validated_against_impl': self.traces,
                    'samples': self.samples, 'models': self.per_model,
                    'events_compared': self.events}
        return {'evaluations': self.events, 'distinct_nontrivial': len(self.distinct),
                'rule': 'distinct recorded events (arguments and results)',
                'samples': self.samples}


if __name__ == '__main__':
    main()
