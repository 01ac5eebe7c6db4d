"""Threshold secret sharing: P29."""

import itertools

from core import els, res
from cat3 import *
from gen_alg import le, rvec
from gen_flp import size_of
from vd import FlpBBCGGI19
from vdaf_poc.common import vec_add
import example_flp_shamir as sss

FINDING = 'shamir-zero-element'


class Sss:
    def __init__(self, rec, known):
        self.rec, self.known = rec, known

    def shard(self, name, secret, t, n):
        F, size = FIELDS[name], PRIME[name][1]
        vec = [F(x) for x in secret]
        box = []

        def call():
            box.append(sss.shamir_shard(F, vec, t, n))
            return box[0]
        out = res(call, lambda sh: [els(s, size) for s in sh])
        self.rec.add('sss', op='shard', field=name, secret=[le(x, size) for x in secret], t=t, n=n, out=out,
                     large=PRIME[name][0] > 2 ** 60)
        return box[0] if out['ok'] else None

    def unshard(self, name, index, shares):
        F, size = FIELDS[name], PRIME[name][1]
        out = res(lambda: sss.shamir_unshard(F, list(index), shares), lambda v: els(v, size))
        self.rec.add('sss', op='unshard', field=name, index=list(index), shares=[els(s, size) for s in shares], out=out,
                     known=self.known)
        return out


def subsets(rng, t, n, k):
    out = []
    for size in range(t, (n if n <= 13 else min(n, t + 2)) + 1):
        perms = list(itertools.permutations(range(n), size)) if n <= 4 else None
        if perms and len(perms) <= k:
            out += perms
        else:
            out += [tuple(rng.sample(range(n), size)) for _ in range(max(2, k // (n - t + 1)))]
    return out


def job_recover(rec, known, name, t, n, k):
    """Any enough shares in any order; sums of sharings; arbitrary points."""
    rng = rec.rng
    s = Sss(rec, known)
    for ln in (1, rng.choice((2, 3, 5))):
        sec = rvec(rng, name, ln)
        sh = s.shard(name, sec, t, n)
        if sh is None:
            continue
        for ix in subsets(rng, t, n, k):
            s.unshard(name, ix, [sh[i] for i in ix])
        sh2 = s.shard(name, rvec(rng, name, ln), t, n)
        if sh2 is None:
            continue
        both = [vec_add(a, b) for (a, b) in zip(sh, sh2)]
        for ix in subsets(rng, t, n, 4):
            s.unshard(name, ix, [both[i] for i in ix])
    # shares that were not made by sharing, and elements whose shares are zero
    F = FIELDS[name]
    for _ in range(3):
        size = rng.randint(1, min(n, 12))
        ix = tuple(rng.sample(range(n), size))
        s.unshard(name, ix, [[F(x) for x in rvec(rng, name, 2)] for _ in ix])
    ix = tuple(rng.sample(range(n), t))
    s.unshard(name, ix, [[F(0), F(rng.randrange(1, PRIME[name][0]))] for _ in ix])
    s.unshard(name, ix, [[F(5), F(0)] for _ in ix])


def fed(name, queue):
    """The field with randomness from the queue."""
    base = FIELDS[name]

    def rand_vec(cls, n):
        queue['calls'] += n
        if n > len(queue['vals']):
            raise Fed()
        (a, queue['vals']) = (queue['vals'][:n], queue['vals'][n:])
        return [cls(x) for x in a]
    return type(base.__name__, (base,), {'rand_vec': classmethod(rand_vec)})


class Fed(Exception):
    pass


def job_dist(rec, known, name, t, n, pos):
    """All choices of randomness for each secret: what t - 1 parties see."""
    p, size = PRIME[name][:2]
    tables = []
    for secret in range(p):
        tab = []
        for co in itertools.product(range(p), repeat=t - 1):
            q = {'vals': list(co), 'calls': 0}
            F = fed(name, q)
            try:
                sh = sss.shamir_shard(F, [F(secret)], t, n)
            except Fed:
                return
            if q['calls'] != t - 1:
                return      # the randomness is drawn in another way
            tab.append([sh[i][0].int() for i in pos])
        tables.append(tab)
    rec.add('sss', op='dist', field=name, tables=tables, total=p ** (t - 1))


def flp_of(c):
    return FlpBBCGGI19(make_circuit(c))


def job_query(rec, known, c, t, n, k):
    rng = rec.rng
    s = Sss(rec, known)
    rec.extra['Cs'] = [c]
    flp = flp_of(c)
    name, size = c['field'], size_of(c)
    p = PRIME[name][0]
    F = FIELDS[name]
    V = {'kind': 'prio3', 'circuit': c}
    for z in range(k):
        meas = flp.encode(rmeas(rng, V))
        honest = z % 2 == 0
        if not honest:
            i = rng.randrange(len(meas))
            meas[i] = meas[i] + F(rng.choice((1, 2, p - 1)))

        def rv(m):
            return [F(rng.randrange(p)) for _ in range(m)]
        jr, pr, qr = rv(flp.JOINT_RAND_LEN), rv(flp.PROVE_RAND_LEN), rv(flp.QUERY_RAND_LEN)
        proof = flp.prove(meas, pr, jr)
        ms = s.shard(name, [x.int() for x in meas], t, n)
        ps = s.shard(name, [x.int() for x in proof], t, n)
        if ms is None or ps is None:
            continue
        ix = rng.sample(range(n), rng.randint(t, n))
        box = []
        vs = []

        def call():
            for i in ix:
                vs.append(flp.query(ms[i], ps[i], qr, jr, 1))
            box.append(sss.shamir_unshard(F, ix, vs))
            return box[0]
        out = res(call, lambda v: els(v, size))
        rec.add('sss', op='query', field=name, c=1, meas=els(meas, size), proof=els(proof, size), qr=els(qr, size), jr=els(jr, size),
                out=out, dec=res(lambda: bool(flp.decide(box[0]))) if box else {'ok': False, 'err': 'none'}, honest=honest,
                shares=[els(v, size) for v in vs], known=known)


def job_batch(rec, known, c, t, n, k):
    rng = rec.rng
    rec.extra['Cs'] = [c]
    v = make_circuit(c)
    F, size = FIELDS[c['field']], size_of(c)
    V = {'kind': 'prio3', 'circuit': c}
    ms = [rmeas(rng, V) for _ in range(k)]
    aggs = [F.zeros(v.OUTPUT_LEN) for _ in range(n)]
    for m in ms:
        for (j, sh) in enumerate(sss.shamir_shard(F, v.encode(m), t, n)):
            aggs[j] = vec_add(aggs[j], v.truncate(sh))
    ix = rng.sample(range(n), rng.randint(t, n))
    out = res(lambda: v.decode(sss.shamir_unshard(F, ix, [aggs[i] for i in ix]), k), lambda r: jresult(V, r))
    rec.add('sss', op='batch', field=c['field'], c=1, ms=[cjmeas(c, m) for m in ms], out=out,
            shares=[els(aggs[i], size) for i in ix], known=known)


def jobs_p29(tier, rng, known):
    deep = tier == 'thorough'
    jobs = []
    for name in ('F64', 'F128', 'F255', 'F96', 'F13', 'F17', 'F257', 'F40961'):
        for n in range(1, 8):
            for t in range(1, n + 1):
                if not deep and name in ('F255', 'F96', 'F257', 'F40961') and (n + t) % 3:
                    continue
                jobs.append(('rec-%s-%d-%d' % (name, t, n), job_recover, dict(known=known, name=name, t=t, n=n, k=60 if deep else 12)))
    for (name, t, n) in (('F64', 2, 16), ('F64', 9, 17), ('F128', 17, 33), ('F64', 3, 65), ('F128', 2, 130), ('F257', 3, 200), ('F257', 2, 256), ('F64', 2, 300), ('F255', 19, 40),
                         ('F40961', 33, 40)):
        jobs.append(('many-%s-%d-%d' % (name, t, n), job_recover, dict(known=known, name=name, t=t, n=n, k=6 if n < 100 and t < 12 else 2)))
    for (name, ns) in (('F5', (1, 2, 3, 4)), ('F13', (2, 3, 5, 7)), ('F17', (3, 7))):
        for n in ns:
            for t in range(1, min(n, 3 if name != 'F5' else 4) + 1):
                if PRIME[name][0] ** t > (6000 if deep else 2500):
                    continue
                poss = list(itertools.combinations(range(n), t - 1))
                for pos in (poss if len(poss) <= 6 or deep else rng.sample(poss, 6)):
                    jobs.append(('dist-%s-%d-%d-%s' % (name, t, n, ''.join(map(str, pos))), job_dist,
                                 dict(known=known, name=name, t=t, n=n, pos=pos)))
    cs = [circ('Count', 'F64'), circ('Sum', 'F64', mx=23), circ('Sum', 'F64', mx=1), circ('SumVec', 'F128', 5, 3, 3), circ('SumVec', 'F64', 3, 2, 5),
          circ('Histogram', 'F128', 4, 3), circ('Histogram', 'F64', 5, 2), circ('Multihot', 'F128', 4, 3, 2), circ('Chain', 'F64', 2, poly=(0, 1, 1)),
          circ('Poly', 'F128', 3, poly=(0, 2, -3, 1)), circ('Count', 'F12289')]
    for (k, c) in enumerate(cs):
        for (t, n) in ((1, 2), (2, 2), (2, 3), (3, 3), (3, 5), (4, 7), (7, 7)):
            jobs.append(('query-%d-%d-%d' % (k, t, n), job_query, dict(known=known, c=c, t=t, n=n, k=12 if deep else 3)))
            if c['name'] in ('Count', 'Sum', 'SumVec', 'Histogram', 'Multihot'):
                jobs.append(('batch-%d-%d-%d' % (k, t, n), job_batch, dict(known=known, c=c, t=t, n=n, k=rng.randint(1, 6))))
    return jobs


def found(traces):
    """Did a known finding occur?"""
    for t in traces:
        for e in t['ev']:
            if e.get('known') and not e['out']['ok'] and e['out']['err'] == 'IndexError':
                return True
    return False

