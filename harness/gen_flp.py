"""Circuits (P05), the proof system (P06, P07) and measurements (P08)."""

import itertools

from core import el, els
from cat3 import *
from gen_alg import le, relem, rvec
from vd import FlpBBCGGI19
from vdaf_poc.flp import run_flp


def size_of(c):
    return PRIME[c['field']][1]


class Flps:
    """Recorded calls on the circuits Cs."""

    def __init__(self, rec, Cs):
        self.rec, self.Cs = rec, Cs
        rec.extra['Cs'] = Cs

    def use(self, i):
        self.i = i
        self.c = self.Cs[i]
        self.F = FIELDS[self.c['field']]
        self.p = PRIME[self.c['field']][0]
        self.size = size_of(self.c)
        self.valid = make_circuit(self.c)
        self.flp = FlpBBCGGI19(self.valid)
        f = self.flp
        self.lens = [f.MEAS_LEN, f.OUTPUT_LEN, f.JOINT_RAND_LEN, f.PROVE_RAND_LEN, f.QUERY_RAND_LEN, f.PROOF_LEN, f.VERIFIER_LEN]
        return self

    def add(self, op, **kw):
        self.rec.add('flp', op=op, c=self.i + 1, **kw)

    def vec(self, xs):
        return [self.F(x) for x in xs]

    def jv(self, xs):
        return [le(x, self.size) for x in xs]

    def out(self, fn):
        return res(fn, lambda v: els(v, self.size))

    def rnd(self, n):
        return rvec(self.rec.rng, self.c['field'], n)

    ##
    # Circuits
    #

    def evals(self, cases):
        self.add('eval', cases=[
            {'meas': self.jv(m), 'jr': self.jv(j), 'ns': ns,
             'out': self.out(lambda: self.valid.eval(self.vec(m), self.vec(j), ns))} for (m, j, ns) in cases])

    def zeros(self, ms, jrs, ns):
        """Does the circuit vanish for all the given joint randomness?"""
        def vanishes(m):
            w = self.vec(m)
            return all(x == self.F(0) for j in jrs for x in self.valid.eval(w, self.vec(j), ns))
        self.add('zero', cases=[{'meas': self.jv(m), 'out': res(lambda: vanishes(m), bool)} for m in ms])

    ##
    # Proofs
    #

    def split(self, v, n):
        """Additive shares of a vector of integers."""
        parts = [[self.rec.rng.randrange(self.p) for _ in v] for _ in range(n - 1)]
        last = [(x - sum(p[k] for p in parts)) % self.p for (k, x) in enumerate(v)]
        parts.append(last)
        self.rec.rng.shuffle(parts)
        return parts

    def ints(self, v):
        return [x.int() for x in v]

    def encode(self, m):
        return self.ints(self.valid.encode(m))

    def parts(self, meas, proof, qr, jr, ns):
        ms, ps = self.split(meas, ns), self.split(proof, ns)
        whole = self.out(lambda: self.flp.query(self.vec(meas), self.vec(proof), self.vec(qr), self.vec(jr), 1))
        parts = [self.out(lambda: self.flp.query(self.vec(a), self.vec(b), self.vec(qr), self.vec(jr), ns)) for (a, b) in zip(ms, ps)]
        return (whole, parts)

    def root_points(self, qr, prob):
        """With some probability make a test point a root of unity (of any
        order)."""
        qr = list(qr)
        rng = self.rec.rng
        if rng.random() < prob:
            log = PRIME[self.c['field']][2]
            g = self.F.gen().int()
            k = rng.randint(0, min(log, 7))
            n = len(self.valid.GADGETS)
            qr[len(qr) - 1 - rng.randrange(n)] = pow(pow(g, 1 << (log - k), self.p), rng.choice((1, rng.randrange(1 << k))), self.p)
        return qr

    def honest(self, m, ns, roots=0.15):
        meas = self.encode(m)
        pr, jr = self.rnd(self.lens[3]), self.rnd(self.lens[2])
        qr = self.root_points(self.rnd(self.lens[4]), roots)
        ev = dict(meas=self.jv(meas), qr=self.jv(qr), whole={'ok': False}, parts=[], dec={'ok': False})
        try:
            proof = self.ints(self.flp.prove(self.vec(meas), self.vec(pr), self.vec(jr)))
            ev['proof'] = {'ok': True, 'val': len(proof)}
        except Exception as e:
            ev['proof'] = {'ok': False, 'err': type(e).__name__}
        else:
            (ev['whole'], ev['parts']) = self.parts(meas, proof, qr, jr, ns)
            if ev['whole']['ok']:
                v = [int.from_bytes(bytes(x), 'little') for x in ev['whole']['val']]
                ev['dec'] = res(lambda: self.flp.decide(self.vec(v)), bool)
        self.add('honest', **ev)

    def linear(self, ns):
        meas, proof = self.rnd(self.lens[0]), self.rnd(self.lens[5])
        qr, jr = self.root_points(self.rnd(self.lens[4]), 0.1), self.rnd(self.lens[2])
        (whole, parts) = self.parts(meas, proof, qr, jr, ns)
        self.add('linear', qr=self.jv(qr), whole=whole, parts=parts)

    def verdict(self, meas, proof, qr, jr):
        try:
            v = self.flp.query(self.vec(meas), self.vec(proof), self.vec(qr), self.vec(jr), 1)
        except Exception:
            return 0
        return 2 if self.flp.decide(v) else 1

    def verdicts(self, meas, proof, jr, qrs, how):
        out = [self.verdict(meas, proof, q, jr) for q in qrs]
        self.add('verdicts', meas=self.jv(meas), proof=self.jv(proof), jr=self.jv(jr), qrs=[self.jv(q) for q in qrs], out=out, how=how)
        return out

    def decide(self, verifier):
        self.add('decide', verifier=self.jv(verifier), out=res(lambda: self.flp.decide(self.vec(verifier)), bool))

    def run(self, meas, ns):
        """The driver of the proof system."""
        inner, log = self.flp, {'proves': [], 'queries': [], 'decides': []}

        class Seen(FlpBBCGGI19):
            def prove(_, meas, prove_rand, joint_rand):
                out = inner.prove(meas, prove_rand, joint_rand)
                log['proves'].append(dict(meas=els(meas, self.size), pr=els(prove_rand, self.size), jr=els(joint_rand, self.size), out=els(out, self.size)))
                return out

            def query(_, meas, proof, query_rand, joint_rand, num_shares):
                out = inner.query(meas, proof, query_rand, joint_rand, num_shares)
                log['queries'].append(dict(meas=els(meas, self.size), proof=els(proof, self.size), qr=els(query_rand, self.size),
                                           jr=els(joint_rand, self.size), ns=num_shares,
                                           out=els(out, self.size)))
                return out

            def decide(_, verifier):
                out = inner.decide(verifier)
                log['decides'].append(dict(verifier=els(verifier, self.size), out=out))
                return out
        out = res(lambda: run_flp(Seen(self.valid), self.vec(meas), ns), bool)
        self.add('run', meas=self.jv(meas), ns=ns, out=out, **log)

    ##
    # Measurements
    #

    def encodes(self, ms):
        cases = []
        for m in ms:
            out, trunc = None, {'ok': False, 'err': ''}
            try:
                e = self.valid.encode(m)
                out = {'ok': True, 'val': els(e, self.size)}
                trunc = self.out(lambda: self.valid.truncate(e))
            except Exception as e:
                if out is None:
                    out = {'ok': False, 'err': type(e).__name__}
            cases.append({'m': cjmeas(self.c, m), 'out': out, 'trunc': trunc})
        self.add('encode', cases=cases)

    def batch(self, ms):
        def go():
            acc = self.F.zeros(self.lens[1])
            for m in ms:
                t = self.flp.truncate(self.flp.encode(m))
                acc = [x + y for (x, y) in zip(acc, t, strict=True)]
            return self.flp.decode(acc, len(ms))
        self.add('batch', ms=[cjmeas(self.c, m) for m in ms], out=res(go, lambda r: jresult(None, r)))

    def decoding(self):
        agg = self.rnd(self.lens[1])
        self.add('decode', agg=self.jv(agg), out=res(lambda: self.flp.decode(self.vec(agg), self.rec.rng.choice((1, 2, 255, 256, 257, 1000, 65536, 10**6, 2**31, 2**32, 2**40))), lambda r: jresult(None, r)))
        m = self.rnd(self.lens[0])
        self.add('trunc', meas=self.jv(m), out=self.out(lambda: self.flp.truncate(self.vec(m))))

    def shard(self, m):
        V = prio3(2, self.c)
        rng = self.rec.rng
        r = res(lambda: make(V).shard(b'ctx', m, rng.randbytes(16), rng.randbytes(rand_size(V))), lambda _: 0)
        self.add('shard', m=cjmeas(self.c, m), ok=r['ok'])


##
# P05
#

EXHAUST = [
    circ('Count', 'F5'), circ('Count', 'F13'), circ('Count', 'F257'),
    circ('Sum', 'F5', mx=1), circ('Sum', 'F5', mx=2), circ('Sum', 'F5', mx=3), circ('Sum', 'F13', mx=3), circ('Sum', 'F13', mx=2), circ('Sum', 'F17', mx=1),
    circ('Sum', 'F13', mx=5),
    circ('SumVec', 'F5', 1, 1, 1), circ('SumVec', 'F5', 2, 1, 1), circ('SumVec', 'F5', 2, 2, 1), circ('SumVec', 'F5', 2, 3, 1),
    circ('SumVec', 'F5', 1, 1, 2), circ('SumVec', 'F5', 1, 2, 3), circ('SumVec', 'F5', 3, 3, 1), circ('SumVec', 'F5', 3, 4, 1), circ('SumVec', 'F5', 2, 4, 2),
    circ('SumVec', 'F13', 2, 2, 1), circ('SumVec', 'F13', 1, 3, 3), circ('SumVec', 'F17', 2, 5, 1), circ('SumVec', 'F5', 3, 2, 1),
    circ('Histogram', 'F5', 1, 1), circ('Histogram', 'F5', 1, 2), circ('Histogram', 'F5', 2, 1), circ('Histogram', 'F5', 2, 2), circ('Histogram', 'F5', 2, 3),
    circ('Histogram', 'F5', 3, 2), circ('Histogram', 'F5', 3, 3), circ('Histogram', 'F5', 3, 4), circ('Histogram', 'F5', 4, 4), circ('Histogram', 'F13', 2, 2),
    circ('Histogram', 'F17', 2, 3),
    circ('Multihot', 'F5', 1, 1, 1), circ('Multihot', 'F5', 1, 2, 1), circ('Multihot', 'F5', 2, 3, 1), circ('Multihot', 'F5', 2, 4, 1),
    circ('Multihot', 'F5', 2, 4, 2), circ('Multihot', 'F5', 3, 4, 1), circ('Multihot', 'F13', 2, 4, 1), circ('Multihot', 'F13', 1, 3, 1), circ('Multihot', 'F5', 2, 2, 2),
    circ('Multihot', 'F5', 1, 4, 1),
]


def job_exhaust(rec, c, deep):
    """All vectors and all joint randomness over a small field."""
    f = Flps(rec, [c]).use(0)
    p, n, jl = f.p, f.lens[0], f.lens[2]
    vecs = list(itertools.product(range(p), repeat=n))
    limit = 60000 if deep else 4000
    jrs = list(itertools.product(range(p), repeat=jl))
    if len(vecs) * len(jrs) > limit * 4:
        bits = list(itertools.product((0, 1), repeat=n))
        vecs = bits + rec.rng.sample(vecs, min(len(vecs), limit * 4 // len(jrs)))
    # num_shares = 0 in the field is not invertible
    nss = [1, 2, 3, 4] if p == 5 else [1, 2, 3, 7, 12]
    for ns in (nss if deep else rec.rng.sample(nss, 2)):
        # with several shares the circuit is evaluated on shares: as a whole
        # it is meant for one
        cases = [(m, j, ns) for m in vecs for j in jrs]
        if len(cases) > limit:
            cases = rec.rng.sample(cases, limit)
        for i in range(0, len(cases), 300):
            f.evals(cases[i:i + 300])
    for i in range(0, len(vecs), 200):
        f.zeros(vecs[i:i + 200], jrs, 1)


def near_valid(f):
    """A vector that is, or nearly is, an encoding."""
    rng = f.rec.rng
    v = f.encode(cmeas(rng, f.c))
    r = rng.random()
    if r < 0.3:
        return v
    k = rng.randrange(len(v))
    if r < 0.5:
        v[k] = 1 - v[k]
    elif r < 0.7:
        v[k] = relem(rng, f.c['field'])
    elif r < 0.85:
        j = rng.randrange(len(v))
        d = relem(rng, f.c['field'])
        v[k], v[j] = (v[k] + d) % f.p, (v[j] - d) % f.p
    else:
        v = [rng.randint(0, 1) for _ in v]
    return v


def job_circuits(rec, Cs, reps):
    f = Flps(rec, Cs)
    rng = rec.rng
    for i in range(len(Cs)):
        f.use(i)
        n, jl = f.lens[0], f.lens[2]
        cases = []
        for _ in range(reps):
            ns = rng.choice((1, 1, 2, 2, 3, 4, 5, 7, 8, 16, 100, 127, 128, 254, 255))
            cases.append((rng.choice((f.rnd(n), near_valid(f))), f.rnd(jl), ns))
        f.evals(cases)
        # large fields: joint randomness at random decides
        ms = [near_valid(f) for _ in range(reps)]
        jrs = [[rng.randrange(2, f.p) for _ in range(jl)] for _ in range(2)]
        f.zeros(ms, jrs, 1)
        m, j = f.rnd(n), f.rnd(jl)
        wrong = [(m[1:], j, 2), (m + [0], j, 2), (m, j + [1], 2), ([], j, 1), (m + m, j, 2)]
        if jl:
            wrong += [(m, j[1:], 2), (m, [], 1)]
        f.evals(wrong)


def job_large(rec, c):
    """Vectors that are no encodings in one place only, in every region of a
    large circuit."""
    f = Flps(rec, [c]).use(0)
    rng = rec.rng
    n, jl = f.lens[0], f.lens[2]
    f.evals([(f.rnd(n), f.rnd(jl), ns) for ns in (1, 2, 3, 200)] + [(f.encode(cmeas(rng, c)), f.rnd(jl), 1)])
    ms = [f.encode(cmeas(rng, c)) for _ in range(3)]
    for k in borders(n, c['chunk'], 2 * c['chunk'], c['length']):
        v = f.encode(cmeas(rng, c))
        for x in (1 - v[k], 2, f.p - 1):
            w = list(v)
            w[k] = x
            ms.append(w)
    jrs = [[rng.randrange(2, f.p) for _ in range(jl)] for _ in range(2)]
    f.zeros(ms, jrs, 1)


def wide(rng, tier):
    """Circuits of the code over the fields they may use, many shapes."""
    cs = circuits(rng, tier)
    for fld in ('F64', 'F96', 'F128'):
        p = PRIME[fld][0]
        for b in (1, 2, 3, 5, 6, 12, 255, 256, 1000, 2**32, 2**(p.bit_length() - 1) - 1, 2**(p.bit_length() - 2)):
            cs.append(circ('Sum', fld, mx=b))
        for _ in range(4):
            ln = rng.randint(1, 12)
            cs.append(circ('SumVec', fld, ln, rng.randint(1, 2 * ln), rng.choice((1, 2, 5, 9, 100))))
            cs.append(circ('Histogram', fld, ln, rng.randint(1, ln + 3)))
            cs.append(circ('Multihot', fld, ln, rng.randint(1, ln + 5), rng.randint(1, ln)))
    return cs


def groups(cs, size):
    return [cs[i:i + size] for i in range(0, len(cs), size)]


def jobs_p05(tier, rng):
    deep = tier == 'thorough'
    jobs = [('exhaust%d' % i, job_exhaust, dict(c=c, deep=deep)) for (i, c) in enumerate(EXHAUST)]
    cs = wide(rng, tier)
    jobs += [('circuits%d' % i, job_circuits, dict(Cs=g, reps=60 if deep else 8)) for (i, g) in enumerate(groups(cs, 10))]
    jobs += [('large%d' % i, job_large, dict(c=c)) for (i, c) in enumerate(LARGE)]
    return jobs


##
# P06
#

POLYS = [(0, 1), (5, 1), (0, -1, 1), (0, 2, -3, 1), (0, -6, 11, -6, 1), (0, 24, -50, 35, -10, 1), (0, 0, 1), (0, 0, 0, 1), (0, 0, 0, 0, 0, 0, 0, 0, 1),
         (0, 1, 1, 1, 1, 1, 1), (0, -1, 0, 0, 0, 0, 0, 1)]


def generic(rng, flds):
    """Circuits that exercise the generic proof system.  The polynomials
    vanish at 0."""
    cs = []
    for p in POLYS:
        if p[0]:
            continue
        for ln in (1, 2, 3, 4, 6, 7, 8, 11, 15):
            cs.append(circ('Poly', rng.choice(flds), ln, poly=p))
        for (ln, ch) in ((1, 1), (3, 1), (3, 2), (3, 4), (5, 2), (9, 3)):
            cs.append(circ('PolySum', rng.choice(flds), ln, ch, poly=p))
        for ln in (1, 2, 3, 4, 5):
            cs.append(circ('Chain', rng.choice(flds), ln, poly=p))
    # leading zero coefficients do not count
    for p in ((0, -1, 1, 0), (0, 0, 1, 0, 0, 0), (0, 1, 0), (0, 2, -3, 1, 0, 0, 0, 0, 0)):
        cs.append(circ('Poly', rng.choice(flds), rng.choice((1, 3, 4)), poly=p))
        cs.append(circ('PolySum', rng.choice(flds), 5, 2, poly=p))
        cs.append(circ('Chain', rng.choice(flds), 3, poly=p))
    cs += [rdag(rng, rng.choice(flds)) for _ in range(50)]
    cs += [rdag(rng, rng.choice(flds), 2, (15, 16, 17, 31, 32, 40)) for _ in range(4)]
    cs += [rdag(rng, rng.choice(flds), 9) for _ in range(6)]
    return cs


def zero_meas(c):
    """A measurement that every circuit accepts."""
    return {'Count': 0, 'Sum': 0, 'Histogram': 0}.get(c['name'], [0] * (meas_len(c) if c['name'] in ('Poly', 'PolySum', 'Chain') else c['length']))


def gmeas(rng, c):
    if c['name'] in ('Poly', 'PolySum', 'Chain'):
        # only zero is a root of all the polynomials
        return zero_meas(c)
    return cmeas(rng, c)


def job_honest(rec, Cs, reps, splits):
    f = Flps(rec, Cs)
    for i in range(len(Cs)):
        f.use(i)
        f.add('lens', lens=f.lens)
        for _ in range(reps):
            f.honest(gmeas(rec.rng, f.c), rec.rng.choice(splits))
        f.linear(rec.rng.choice(splits))


def small_log(c):
    """log of the roots of unity that a circuit needs."""
    v = make_circuit(c)
    need = 0
    for (g, k) in zip(v.GADGETS, v.GADGET_CALLS):
        w = k.bit_length()
        need = max(need, (g.DEGREE * ((1 << w) - 1)).bit_length())
    return need


# Small fields are large enough only for some circuits.
def fit(c, flds):
    need = None
    for fld in flds:
        p, _, log = PRIME[fld]
        d = dict(c, field=fld)
        try:
            if need is None:
                need = small_log(dict(c, field='F128'))
            make_circuit(d)
        except Exception:
            continue
        if need <= log and all(abs(k) < p for k in c['poly']):
            yield d


SMALLSHAPES = ([circ('Count', 'F5')] + [circ('Sum', 'F5', mx=b) for b in (1, 2, 3, 4, 5, 6, 7, 10, 100)]
               + [circ('SumVec', 'F5', *x) for x in ((1, 1, 1), (2, 1, 1), (2, 2, 2), (1, 3, 3), (3, 2, 5), (4, 5, 1), (5, 2, 1), (2, 9, 6))]
               + [circ('Histogram', 'F5', *x) for x in ((1, 1), (2, 1), (2, 3), (3, 2), (4, 2), (5, 3), (7, 3))]
               + [circ('Multihot', 'F5', *x) for x in ((1, 1, 1), (2, 2, 1), (2, 3, 2), (3, 2, 2), (4, 3, 3), (4, 7, 4))]
               + [circ('Poly', 'F5', n, poly=p) for n in (1, 2, 3, 5) for p in POLYS if not p[0]]
               + [circ('PolySum', 'F5', n, k, poly=p) for (n, k) in ((1, 1), (3, 2), (4, 3)) for p in POLYS[2:5]]
               + [circ('Chain', 'F5', n, poly=p) for n in (1, 2, 3) for p in POLYS[2:5]])


def smalls(flds=('F5', 'F13', 'F17', 'F97', 'F193', 'F257', 'F7681'), rng=None, dags=0):
    """Circuits over small fields; so many random ones for each field."""
    return [d for c in SMALLSHAPES for d in fit(c, flds)] + [rdag(rng, f) for f in flds for _ in range(dags)]


def job_grid(rec, c, pts, jrs, deep):
    """Every test point for honest proofs over a small field."""
    f = Flps(rec, [c]).use(0)
    rng = rec.rng
    red = f.lens[4] - len(f.valid.GADGETS)
    for _ in range(jrs):
        m = gmeas(rng, c)
        meas = f.encode(m)
        pr, jr = f.rnd(f.lens[3]), f.rnd(f.lens[2])
        proof = f.ints(f.flp.prove(f.vec(meas), f.vec(pr), f.vec(jr)))
        ts = list(range(f.p)) if f.p <= pts else rng.sample(range(f.p), pts)
        qrs = [f.rnd(red) + [t] + [rng.choice(ts) for _ in f.valid.GADGETS[1:]] for t in ts]
        f.verdicts(meas, proof, jr, qrs, 'honest')


def jobs_p06(tier, rng):
    deep = tier == 'thorough'
    splits = (1, 2, 2, 3, 4, 5, 8, 17, 100, 255)
    cs = wide(rng, tier) + generic(rng, ('F64', 'F96', 'F128'))
    jobs = [('honest%d' % i, job_honest, dict(Cs=g, reps=12 if deep else 2, splits=splits)) for (i, g) in enumerate(groups(cs, 8))]
    sm = smalls(rng=rng, dags=40 if deep else 10)
    jobs += [('small%d' % i, job_honest, dict(Cs=g, reps=30 if deep else 6, splits=(1, 2, 3, 4))) for (i, g) in enumerate(groups(sm, 12))]
    for (i, c) in enumerate(sm):
        if deep or PRIME[c['field']][0] <= 257:
            jobs.append(('grid%d' % i, job_grid, dict(c=c, pts=300 if deep else 40, jrs=6 if deep else 1, deep=deep)))
    big = [circ('SumVec', 'F128', 100, 1, 1), circ('Histogram', 'F128', 130, 1), circ('Sum', 'F64', mx=2**40 + 3), circ('Multihot', 'F128', 60, 2, 31)]
    if deep:
        big += [circ('SumVec', 'F128', 300, 1, 1), circ('Histogram', 'F64', 520, 2), circ('Poly', 'F64', 200, poly=POLYS[3]), circ('Poly', 'F128', 64, poly=POLYS[5])]
    jobs += [('big%d' % i, job_honest, dict(Cs=[c], reps=1, splits=(2,))) for (i, c) in enumerate(big)]
    jobs += [('large%d' % i, job_honest, dict(Cs=[c], reps=1, splits=(2, 3))) for (i, c) in enumerate(LARGE)]
    for (i, c) in enumerate([circ('Histogram', 'F64', 3, 2), circ('SumVec', 'F128', 2, 1, 1), circ('Multihot', 'F64', 3, 2, 2), circ('Sum', 'F64', mx=5)]):
        for ns in (256, 257, 511, 1000) + ((4096, 65537) if deep else ()):
            jobs.append(('shares%d-%d' % (i, ns), job_honest, dict(Cs=[c], reps=1, splits=(ns,))))
    return jobs + runs(rng, tier, 300 if deep else 40)


def job_run(rec, Cs, splits):
    """Whole runs of valid and invalid inputs."""
    f = Flps(rec, Cs)
    rng = rec.rng
    for i in range(len(Cs)):
        f.use(i)
        for ns in splits:
            meas = f.encode(gmeas(rng, f.c))
            f.run(meas, ns)
            bad = list(meas)
            k = rng.randrange(len(bad))
            bad[k] = (bad[k] + rng.choice((1, f.p - 1, rng.randrange(1, f.p)))) % f.p
            f.run(bad, ns)


def runs(rng, tier, n):
    cs = [c for c in wide(rng, tier) if c['field'] in ('F64', 'F96', 'F128') and c['name'] in ('Count', 'Sum', 'SumVec', 'Histogram', 'Multihot')]
    rng.shuffle(cs)
    return [('run%d' % i, job_run, dict(Cs=g, splits=(1, 2, 3, 5, 9))) for (i, g) in enumerate(groups(cs[:n], 6))]


##
# P07
#

def alterations(f, v, every, count):
    """Altered copies of a vector: (position, vector)."""
    rng = f.rec.rng
    n = len(v)
    ks = range(n) if every or n <= count else sorted({0, n - 1} | set(rng.sample(range(n), count - 2)))
    for k in ks:
        w = list(v)
        d = rng.choice((1, f.p - 1, rng.randrange(1, f.p)))
        w[k] = (w[k] + d) % f.p
        yield (k, w)


def query_points(f, pts, reps=1):
    rng = f.rec.rng
    red = f.lens[4] - len(f.valid.GADGETS)
    ts = list(range(f.p)) if f.p <= pts else rng.sample(range(2, f.p - 1), pts) if f.p < 2**31 else [relem(rng, f.c['field']) for _ in range(pts)]
    return [f.rnd(red) + [t] + [rng.choice(ts) for _ in f.valid.GADGETS[1:]] for t in ts for _ in range(reps)]


def job_altered(rec, Cs, pts, every, count, reps):
    f = Flps(rec, Cs)
    rng = rec.rng
    for i in range(len(Cs)):
        f.use(i)
        for _ in range(reps):
            meas = f.encode(gmeas(rng, f.c))
            pr, jr = f.rnd(f.lens[3]), f.rnd(f.lens[2])

            def prove(m):
                return f.ints(f.flp.prove(f.vec(m), f.vec(pr), f.vec(jr)))
            proof = prove(meas)
            for (k, q) in alterations(f, proof, every, count):
                f.verdicts(meas, q, jr, query_points(f, pts), 'proof element %d' % k)
            for (k, m) in alterations(f, meas, every, count):
                f.verdicts(m, proof, jr, query_points(f, pts), 'input element %d, proof of the original' % k)
                f.verdicts(m, prove(m), jr, query_points(f, pts), 'input element %d, proof of the altered input' % k)
            for k in range(len(jr)):
                j = list(jr)
                j[k] = (j[k] + 1) % f.p
                f.verdicts(meas, proof, j, query_points(f, min(pts, 5)), 'joint randomness %d' % k)
            f.verdicts(meas, f.rnd(f.lens[5]), jr, query_points(f, pts), 'random proof')
            f.verdicts(meas, [0] * f.lens[5], jr, query_points(f, pts), 'zero proof')
            # verifier messages
            for q in query_points(f, 2)[:4]:
                try:
                    v = f.ints(f.flp.query(f.vec(meas), f.vec(proof), f.vec(q), f.vec(jr), 1))
                except Exception:
                    continue
                f.decide(v)
                for (_, w) in alterations(f, v, every, count):
                    f.decide(w)
                if len(v) == f.lens[6]:
                    f.decide([0] * len(v))
                    f.decide(f.rnd(len(v)))
                    f.decide([0] + f.rnd(len(v) - 1))


def job_large_altered(rec, c, count):
    """One wrong element, in each region of a large input or proof."""
    f = Flps(rec, [c]).use(0)
    rng = rec.rng
    meas = f.encode(gmeas(rng, c))
    pr, jr = f.rnd(f.lens[3]), f.rnd(f.lens[2])

    def some(ks):
        return ks if len(ks) <= count else sorted({ks[-1]} | set(rng.sample(ks, count - 1)))

    def prove(m):
        return f.ints(f.flp.prove(f.vec(m), f.vec(pr), f.vec(jr)))
    proof = prove(meas)
    for k in some(borders(len(proof), f.valid.GADGETS[0].ARITY)):
        q = list(proof)
        q[k] = (q[k] + rng.randrange(1, f.p)) % f.p
        f.verdicts(meas, q, jr, query_points(f, 1), 'proof element %d' % k)
    for k in some(borders(len(meas), c['chunk'], c['length'])):
        m = list(meas)
        m[k] = (m[k] + rng.randrange(2, f.p - 1)) % f.p
        f.verdicts(m, prove(m), jr, query_points(f, 1), 'input element %d' % k)
    q = query_points(f, 1)[0]
    v = f.ints(f.flp.query(f.vec(meas), f.vec(proof), f.vec(q), f.vec(jr), 1))
    f.decide(v)
    for k in borders(len(v)):
        w = list(v)
        w[k] = (w[k] + rng.randrange(1, f.p)) % f.p
        f.decide(w)


def root(a, p, rng):
    """A square root of a modulo p, if there is one."""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    # Cipolla
    while True:
        t = rng.randrange(p)
        w = (t * t - a) % p
        if pow(w, (p - 1) // 2, p) == p - 1:
            break
    (x, y, n) = ((1, 0), (t, 1), (p + 1) // 2)
    while n:
        if n & 1:
            x = ((x[0] * y[0] + x[1] * y[1] * w) % p, (x[0] * y[1] + x[1] * y[0]) % p)
        y = ((y[0] * y[0] + y[1] * y[1] * w) % p, 2 * y[0] * y[1] % p)
        n >>= 1
    return x[0]


def job_cancel(rec, Cs, distances):
    """Invalid inputs two of whose circuit outputs cancel each other."""
    f = Flps(rec, Cs)
    rng = rec.rng
    for i in range(len(Cs)):
        f.use(i)
        n = f.valid.EVAL_OUTPUT_LEN
        bits = f.c['name'] == 'Sum'
        pairs = [(k, k + d) for d in distances for k in sorted({0, 1, n - 1 - d, rng.randrange(max(1, n - d))}) if 0 <= k and k + d < n]
        for (a, b) in pairs:
            pr, jr = f.rnd(f.lens[3]), f.rnd(f.lens[2])
            for _ in range(20):
                meas = f.encode(gmeas(rng, f.c))
                (u, v) = (a, b) if bits else (rng.randrange(len(meas)), rng.randrange(len(meas)))
                if u != v:
                    meas[v] = rng.randrange(2, f.p)

                def total(x):
                    m = list(meas)
                    m[u] = x % f.p
                    out = f.ints(f.valid.eval(f.vec(m), f.vec(jr), 1))
                    return (out[a] + sg * out[b]) % f.p
                sg = rng.choice((1, 1, -1))
                # the sum is a quadratic polynomial of the one element
                (y0, y1, y2) = (total(0), total(1), total(2))
                q = (y2 - 2 * y1 + y0) * pow(2, -1, f.p) % f.p
                l = (y1 - y0 - q) % f.p
                if q:
                    r = root(l * l - 4 * q * y0, f.p, rng)
                    if r is None:
                        continue
                    meas[u] = (r - l) * pow(2 * q, -1, f.p) % f.p
                elif l:
                    meas[u] = -y0 * pow(l, -1, f.p) % f.p
                else:
                    continue
                proof = f.ints(f.flp.prove(f.vec(meas), f.vec(pr), f.vec(jr)))
                f.verdicts(meas, proof, jr, query_points(f, 1), 'outputs %d and %d cancel' % (a, b))
                break


def job_forge(rec, c, n):
    """Forged proofs for false inputs: set the gadget polynomial so that the
    circuit output vanishes; count the test points that accept."""
    f = Flps(rec, [c]).use(0)
    rng = rec.rng
    for _ in range(n):
        meas = f.rnd(f.lens[0])
        proof = f.rnd(f.lens[5])
        false = (any(x not in (0, 1) for x in meas) if c['name'] in ('Count', 'Sum')
                 else any(sum(k * x**e for (e, k) in enumerate(c['poly'])) % f.p for x in meas))
        if not false:
            continue
        arity = sum(g.ARITY for g in f.valid.GADGETS)
        want = meas[0] if c['name'] == 'Count' else 0
        # all values of the gadget polynomial equal: its value at the call too
        proof[arity:] = [want] * (len(proof) - arity)
        if rng.random() < 0.5:
            # a random polynomial of low degree with the right value there
            w = pow(f.F.gen().int(), 1 << (PRIME[c['field']][2] - (len(proof) - arity - 1).bit_length()), f.p)
            a = rng.randrange(f.p)
            x0 = pow(w, ((1 << (len(proof) - arity - 1).bit_length()) // 2), f.p)
            proof[arity:] = [(want + a * (pow(w, i, f.p) - x0)) % f.p for i in range(len(proof) - arity)]
        qrs = query_points(f, 300)
        out = f.verdicts(meas, proof, [], qrs, 'forged')
        f.add('sound', accepted=out.count(2))


def jobs_p07(tier, rng):
    deep = tier == 'thorough'
    sm = smalls(('F5', 'F13', 'F17', 'F97', 'F193', 'F257'), rng, 20 if deep else 5)
    jobs = [('small%d' % i, job_altered, dict(Cs=[c], pts=100 if deep else 20, every=deep, count=12, reps=4 if deep else 1)) for (i, c) in enumerate(sm)]
    cs = wide(rng, tier) + generic(rng, ('F64', 'F96', 'F128'))
    if not deep:
        rng.shuffle(cs)
        keep = cs[:90]
        have = {c['name'] for c in keep}
        cs = keep + [c for c in cs if c['name'] not in have]
    jobs += [('big%d' % i, job_altered, dict(Cs=g, pts=1, every=deep, count=8, reps=1)) for (i, g) in enumerate(groups(cs, 4))]
    jobs += [('large%d' % i, job_large_altered, dict(c=c, count=60 if deep else 5)) for (i, c) in enumerate(LARGE)]
    cs = [circ('Sum', fld, mx=2**b - 1) for (fld, b) in (('F64', 2), ('F64', 3), ('F64', 9), ('F64', 18), ('F64', 40), ('F64', 63), ('F128', 66), ('F128', 120))]
    cs += [circ('Histogram', 'F128', 1, 1), circ('Histogram', 'F128', 5, 2), circ('Histogram', 'F64', 40, 6), circ('Multihot', 'F128', 1, 1, 1), circ('Multihot', 'F128', 6, 3, 2), circ('Multihot', 'F64', 40, 6, 9)]
    jobs += [('cancel%d' % i, job_cancel, dict(Cs=[c], distances=range(1, 128) if deep else (1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 48, 62, 63, 64, 65, 100, 119))) for (i, c) in enumerate(cs)]
    for (i, c) in enumerate([circ('Count', 'F5'), circ('Count', 'F13'), circ('Count', 'F17'), circ('Count', 'F97'), circ('Sum', 'F13', mx=1), circ('Sum', 'F97', mx=1)]
                            + [circ('Poly', 'F97', 1, poly=p) for p in POLYS[2:]]):
        jobs.append(('forge%d' % i, job_forge, dict(c=c, n=100 if deep else 12)))
    return jobs


##
# P08
#

def job_measurements(rec, Cs, reps):
    f = Flps(rec, Cs)
    rng = rec.rng
    for i in range(len(Cs)):
        f.use(i)
        c, n, mx = f.c, f.c['name'], cmax(f.c)
        bits = mx.bit_length()
        bad_ints = [-1, -2, -mx, -mx - 1, mx + 1, mx + 2, 2 * mx, 2 * mx + 1, (1 << bits), (1 << bits) + 1, f.p, f.p - 1, f.p + 1, f.p + mx, -f.p, 1 << 200, -(1 << 64)]
        if n in ('Sum', 'SumVec', 'Multihot', 'Count'):
            ints = range(mx + 1) if mx <= 130 else sorted({0, 1, 2, mx, mx - 1, mx - 2, (1 << (bits - 1)) - 1, 1 << (bits - 1), (1 << (bits - 1)) + 1, mx // 2}
                                                         | {rng.randint(0, mx) for _ in range(20)})
        if n == 'Count':
            ms = [0, 1, True, False] + [x for x in bad_ints if x not in (0, 1)] + [2, 3]
        elif n == 'Sum':
            ms = list(ints) + [x for x in bad_ints if not 0 <= x <= mx]
        elif n == 'SumVec':
            ln = c['length']
            ms = [[x] * ln for x in ints] if len(ints) * ln < 400 else []
            ms += [[rng.choice(ints) for _ in range(ln)] for _ in range(reps)]
            for x in [x for x in bad_ints if not 0 <= x <= mx]:
                m = [rng.choice(ints) for _ in range(ln)]
                m[rng.choice((0, ln - 1, rng.randrange(ln)))] = x
                ms.append(m)
            m = [rng.choice(ints) for _ in range(ln)]
            ms += [m[:-1], m + [0], m + m, []]
        elif n == 'Histogram':
            ln = c['length']
            ms = (list(range(ln)) if ln <= 150 else borders(ln)) + [-1, -ln, -ln - 1, ln, ln + 1, 2 * ln, f.p, -f.p, 1 << 100]
        else:
            ln = c['length']
            ms = []
            if ln <= 6:
                ms = [list(map(bool, v)) for v in itertools.product((0, 1), repeat=ln)]
            for w in sorted({0, 1, mx - 1, mx, min(mx + 1, ln), ln, ln - 1}):
                for _ in range(2):
                    on = set(rng.sample(range(ln), w))
                    ms.append([k in on for k in range(ln)])
            ms += [[False] * (ln + 1), [False] * (ln - 1), [], [False] * (2 * ln)]
        for k in range(0, len(ms), 40):
            f.encodes(ms[k:k + 40])
        good = [cmeas(rng, c) for _ in range(reps)]
        # an aggregate beyond the modulus cannot be told from its residue
        for b in (good, good[:1], [good[0]] * rng.choice((2, 3, 17))):
            if len(b) * mx < f.p:
                f.batch(b)
        f.decoding()
        f.decoding()
        if c['field'] == DEFAULT_FIELD[n]:
            for m in rng.sample(ms, min(len(ms), 12)):
                f.shard(m)


def jobs_p08(tier, rng):
    deep = tier == 'thorough'
    cs = wide(rng, tier)
    cs += [circ('Sum', 'F64', mx=b) for b in range(11, 300 if deep else 70)]
    cs += [circ('Sum', 'F64', mx=2**k + d) for k in range(6, 63) for d in (-1, 0, 1)][:: 1 if deep else 3]
    cs += [circ('Multihot', 'F128', ln, 3, w) for ln in range(1, 8) for w in range(1, ln + 1)]
    cs += [circ('SumVec', 'F128', ln, 4, b) for ln in (1, 2, 3) for b in range(1, 12)]
    jobs = [('meas%d' % i, job_measurements, dict(Cs=g, reps=12 if deep else 5)) for (i, g) in enumerate(groups(cs, 8))]
    return jobs + [('large%d' % i, job_measurements, dict(Cs=[c], reps=2)) for (i, c) in enumerate(LARGE)]
