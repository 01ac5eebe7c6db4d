"""Masking of shares: P26."""

import itertools

from core import J, els, res
from cat3 import *
from gen_alg import le, rvec
from gen_pop import rbits
from gen_sss import Fed, fed
from vdaf_poc.flp import additive_secret_share
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21


def shard(inst, ctx, m, nonce, rand):
    def call():
        (p, ins) = inst.shard(ctx, m, nonce, rand)
        return {'public': J(inst.encode_public_share(p)), 'inputs': [J(inst.encode_input_share(s)) for s in ins]}
    return res(call)


def extremes(rng, V, k):
    """Measurements that differ a lot, and a little."""
    c = V['circuit']
    n, mx = c['name'], cmax(c)
    ms = {'Count': [0, 1], 'Sum': [0, mx, 1], 'SumVec': [[0] * c['length'], [mx] * c['length']],
          'Histogram': [0, c['length'] - 1], 'Multihot': [[False] * c['length'], [i < mx for i in range(c['length'])]]}.get(n, [])
    return ms + [rmeas(rng, V) for _ in range(k)]


def some_ctx(rng):
    return rng.randbytes(rng.choice(LENS + [0, 3, 5, 24]))


def job_prio3(rec, V, light, k):
    rng = rec.rng
    inst = make(V)
    ctx, nonce, rand = some_ctx(rng), rng.randbytes(16), rng.randbytes(rand_size(V))
    ms = extremes(rng, V, k)
    rec.add('mask', op='prio3', v=V, ctx=J(ctx), nonce=J(nonce), rand=J(rand), light=light,
            reps=[{'m': jmeas(V, m), 'out': shard(inst, ctx, m, nonce, rand)} for m in ms])


def job_flip(rec, V, seeds):
    rng = rec.rng
    inst = make(V)
    for m in extremes(rng, V, 1)[:2]:
        ctx, nonce, rand = some_ctx(rng), rng.randbytes(16), rng.randbytes(rand_size(V))
        a = shard(inst, ctx, m, nonce, rand)
        n = len(rand) // 32
        for s in (range(n) if n <= seeds else sorted({0, 1, 2, n - 1, n - 2, n - 3, *rng.sample(range(n), seeds - 6)})):
            r = bytearray(rand)
            r[32 * s + rng.choice((0, 31, rng.randrange(32)))] ^= 1 << rng.randrange(8)
            rec.add('mask', op='flip', v=V, seed=s + 1, a=a, b=shard(inst, ctx, m, nonce, bytes(r)))


def job_poplar1(rec, bits, k):
    rng = rec.rng
    V = poplar1(bits)
    inst = make(V)
    ctx, nonce, rand = some_ctx(rng), rng.randbytes(16), rng.randbytes(128)
    ms = {(False,) * bits, (True,) * bits, (True,) + (False,) * (bits - 1), (False,) * (bits - 1) + (True,)}
    ms = sorted(ms | {rbits(rng, bits) for _ in range(k)})
    outs = [shard(inst, ctx, m, nonce, rand) for m in ms]
    rec.add('mask', op='poplar1', v=V, rand=J(rand), reps=[{'out': o} for o in outs])
    for (s, (lo, hi)) in enumerate(((0, 16), (16, 32), (32, 64), (64, 96), (96, 128))):
        r = bytearray(rand)
        r[rng.choice((lo, hi - 1, rng.randrange(lo, hi)))] ^= 1 << rng.randrange(8)
        i = rng.randrange(len(ms))
        rec.add('mask', op='popflip', v=V, seed=s + 1, a=outs[i], b=shard(inst, ctx, ms[i], nonce, bytes(r)))


def job_idpf(rec, bits, vl, k):
    rng = rec.rng
    I = IdpfBBCGGI21(vl, bits)
    ctx, nonce, rand = some_ctx(rng), rng.randbytes(16), rng.randbytes(32)
    alpha = rbits(rng, bits)
    betas = [rvec(rng, 'F64' if l < bits - 1 else 'F255', vl) for l in range(bits)]
    points = [(alpha, betas)]
    for l in sorted({0, 1, bits - 1, bits - 2, bits // 2, *(rng.randrange(bits) for _ in range(k))}):
        if not 0 <= l < bits:
            continue
        points.append((alpha[:l] + (not alpha[l],) + alpha[l + 1:], betas))
        points.append((alpha[:l] + rbits(rng, bits)[l:], betas))
        b2 = [list(b) for b in betas]
        b2[l][rng.randrange(vl)] = rng.randrange(5, 1 << 60)
        points.append((alpha, b2))
    reps = []
    for (a, bs) in points:
        def call():
            (p, keys) = I.gen(a, [[FIELDS['F64'](x) for x in b] for b in bs[:-1]], [FIELDS['F255'](x) for x in bs[-1]], ctx, nonce, rand)
            return {'public': J(I.encode_public_share(p)), 'keys': [J(x) for x in keys]}
        reps.append({'alpha': [int(x) for x in a], 'betas': [[le(x, 8 if l < bits - 1 else 32) for x in b] for (l, b) in enumerate(bs)],
                     'out': res(call)})
    rec.add('mask', op='idpf', bits=bits, vl=vl, rand=J(rand), reps=reps)


def job_additive(rec, name, k):
    rng = rec.rng
    F, (p, size, _) = FIELDS[name], PRIME[name]
    for n in (1, 2, 3, 4, 7, 16):
        for ln in (0, 1, 2, 5, 17):
            for _ in range(k):
                vec = rvec(rng, name, ln)
                out = res(lambda: additive_secret_share([F(x) for x in vec], n, F), lambda sh: [els(s, size) for s in sh])
                rec.add('mask', op='additive', field=name, n=n, vec=[le(x, size) for x in vec], out=out, large=p > 2**60)
    if p > 2**60:
        rec.add('mask', op='randvec', field=name, n=128, vec=els(F.rand_vec(128), size))


def job_dist(rec, name, ln, n, pos):
    """What all shares but one look like, over all choices of randomness."""
    p = PRIME[name][0]
    tables = []
    secrets = list(itertools.product(range(p), repeat=ln))
    for secret in secrets:
        tab = []
        for co in itertools.product(range(p), repeat=ln * (n - 1)):
            q = {'vals': list(co), 'calls': 0}
            F = fed(name, q)
            try:
                sh = additive_secret_share([F(x) for x in secret], n, F)
            except Fed:
                return
            if q['calls'] != ln * (n - 1):
                return      # the randomness is drawn in another way
            tab.append([x.int() for i in pos for x in sh[i]])
        tables.append(tab)
    rec.add('mask', op='dist', tables=tables, total=p ** (ln * (n - 1)))


def job_cover(rec, name, n, secret):
    p = PRIME[name][0]
    F = FIELDS[name]
    shs = [additive_secret_share([F(secret)], n, F) for _ in range(200 * p ** (n - 1))]
    for pos in itertools.combinations(range(n), n - 1):
        views = sorted({tuple(sh[i][0].int() for i in pos) for sh in shs})
        rec.add('mask', op='cover', views=[list(v) for v in views], total=p ** (n - 1))


def jobs_p26(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    vs = [prio3(n, c) for c in SMALLC for n in (2, 3, 5)] + multi(rng)
    vs += [prio3(n, c) for n in (4, 8, 17) for c in (SMALLC[0], SMALLC[4], SMALLC[7])]
    vs += [prio3(n, circ('SumVec', f, 2, 2, 3), q) for (n, f, q) in ((2, 'F64', 9), (4, 'F64', 4), (3, 'F128', 3), (5, 'F96', 2))]
    for (i, V) in enumerate(vs):
        for z in range(6 if deep else 1):
            jobs.append(('prio3-%d-%d' % (i, z), job_prio3, dict(V=V, light=False, k=2 if deep else 1)))
        jobs.append(('flip-%d' % i, job_flip, dict(V=V, seeds=40 if deep else 12)))
    cs = circuits(rng, tier)
    for (i, c) in enumerate(cs):
        n = rng.choice((2, 3, 4, 6, 9, 33)) if c['length'] < 20 else 2
        jobs.append(('light-%d' % i, job_prio3, dict(V=prio3(n, c), light=True, k=4)))
    for (i, c) in enumerate(LARGE):
        jobs.append(('large-%d' % i, job_prio3, dict(V=prio3(2 + i % 2, c), light=False, k=0)))
        jobs.append(('largeflip-%d' % i, job_flip, dict(V=prio3(2, c), seeds=12)))
    for (i, q) in enumerate((16, 17, 33, 100, 255)):
        jobs.append(('proofs-%d' % q, job_prio3, dict(V=prio3(2, circ('SumVec', 'F64', 2, 2, 3), q), light=q > 40, k=1)))
        jobs.append(('proofsflip-%d' % q, job_flip, dict(V=prio3(2, circ('SumVec', 'F64', 2, 2, 3), q), seeds=12)))
    for (i, n) in enumerate((64, 127, 128, 129, 200, 254, 255)):
        c = SMALLC[(0, 1, 4, 7, 9)[i % 5]]
        jobs.append(('many-%d' % n, job_prio3, dict(V=prio3(n, c), light=True, k=1)))
        jobs.append(('manyflip-%d' % n, job_flip, dict(V=prio3(n, c), seeds=12)))
    for bits in (1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 64, 100, 128, 256, 257, 513) + ((300, 512, 1000) if deep else ()):
        for z in range(4 if deep else 1 if bits > 40 else 2):
            jobs.append(('poplar1-%d-%d' % (bits, z), job_poplar1, dict(bits=bits, k=6)))
            jobs.append(('idpf-%d-%d' % (bits, z), job_idpf, dict(bits=bits, vl=rng.choice((1, 2, 3)), k=6 if deep else 2)))
    for name in ('F5', 'F17', 'F257', 'F64', 'F96', 'F128', 'F255'):
        jobs.append(('add-%s' % name, job_additive, dict(name=name, k=8 if deep else 2)))
    for (name, ln, ns) in (('F5', 1, (2, 3, 4)), ('F5', 2, (2,)), ('F13', 1, (2, 3)), ('F17', 1, (2,))):
        for n in ns:
            for pos in itertools.combinations(range(n), n - 1):
                jobs.append(('dist-%s-%d-%d-%s' % (name, ln, n, ''.join(map(str, pos))), job_dist, dict(name=name, ln=ln, n=n, pos=pos)))
    for (name, n) in (('F5', 2), ('F5', 3), ('F13', 2), ('F97', 2)):
        for s in (0, 1, PRIME[name][0] - 1):
            jobs.append(('cover-%s-%d-%d' % (name, n, s), job_cover, dict(name=name, n=n, secret=s)))
    return jobs
