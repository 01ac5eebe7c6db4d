"""The drivers run_vdaf and run_daf: P27."""

from cat3 import *
from core import J, res
from gen_pop import rbits, some_prefixes
from vdaf_poc.daf import Daf, run_daf
from vdaf_poc.vdaf import Vdaf, run_vdaf


class Injected(Exception):
    pass


class Sym(tuple):
    """A symbolic value <<kind, report, round, aggregator>>."""


PUB, IN, ST, SH, MSG, OUT, PARAM, RESULT = 1, 2, 3, 4, 5, 6, 7, 9


def sym(*x):
    return Sym(x)


class Out:
    """An output share (it must not look like a pair of a state and a
    share)."""

    def __init__(self, i, j):
        self.t = sym(OUT, i, 0, j)

    def __getitem__(self, k):
        return self.t[k]


class Alike(Out):
    """An output share that is equal to anything and empty."""
    __hash__ = None

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __len__(self):
        return 0

    def __bool__(self):
        return False


class Equal(int):
    """A measurement that is equal to all others."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 0


def S(x):
    if isinstance(x, Out):
        x = x.t
    if not isinstance(x, Sym):
        raise TypeError('not a symbol')
    return list(x)


class Log:
    """Operations shared by the symbolic schemes.  Every call is logged; the
    k-th call of the name to fail raises."""
    ID = 0xFFFFFFFD
    out = Out

    def setup(self, n, rounds, nonce, rand, key, fail, exc):
        self.SHARES, self.ROUNDS = n, rounds
        self.NONCE_SIZE, self.RAND_SIZE, self.VERIFY_KEY_SIZE = nonce, rand, key
        self.calls = []
        self.fail, self.exc = fail, exc
        self.done = set()

    def log(self, name, **c):
        self.calls.append(c)
        if list(name) == self.fail:
            raise self.exc('injected')

    def shard(self, ctx, measurement, nonce, rand):
        measurement = int(measurement)
        self.log(('shard', measurement, 0, 0), op='shard', ctx=J(ctx), m=measurement, nonce=J(nonce), rand=J(rand))
        return (sym(PUB, measurement, 0, 0), [sym(IN, measurement, 0, j) for j in range(self.SHARES)])

    def is_valid(self, agg_param, previous):
        return True

    def agg_init(self, agg_param):
        self.log(('agginit', 0, 0, 0), op='agginit', param=S(agg_param))
        return []

    def agg_update(self, agg_param, agg_share, out_share):
        self.log(('aggupdate', out_share[1], 0, out_share[3]), op='aggupdate', param=S(agg_param),
                 agg=[S(x) for x in agg_share], o=S(out_share))
        return agg_share + [out_share]

    def merge(self, agg_param, agg_shares):
        return [x for a in agg_shares for x in a]

    def unshard(self, agg_param, agg_shares, num):
        self.log(('unshard', 0, 0, 0), op='unshard', param=S(agg_param), aggs=[[S(x) for x in a] for a in agg_shares], num=num)
        return sym(RESULT, 0, 0, 0)

    def test_vec_set_type_param(self, _):
        return []

    def enc(self, *a):
        raise NotImplementedError
    encode_agg_param = decode_agg_param = encode_public_share = decode_public_share = enc
    encode_input_share = decode_input_share = encode_verifier_share = decode_verifier_share = enc
    encode_verifier_message = decode_verifier_message = encode_agg_share = decode_agg_share = enc
    encode_out_share = decode_out_share = enc


class SymVdaf(Log, Vdaf):
    def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share):
        self.log(('init', input_share[1], 1, agg_id), op='init', key=J(verify_key), ctx=J(ctx), id=agg_id,
                 param=S(agg_param), nonce=J(nonce), public=S(public_share), input=S(input_share))
        return (sym(ST, input_share[1], 1, agg_id), sym(SH, input_share[1], 1, agg_id))

    def verifier_shares_to_message(self, ctx, agg_param, verifier_shares):
        s = verifier_shares[0]
        self.log(('combine', s[1], s[2], 0), op='combine', ctx=J(ctx), param=S(agg_param), shares=[S(x) for x in verifier_shares])
        return sym(MSG, s[1], s[2], 0)

    def verify_next(self, ctx, verify_state, verifier_message):
        (_, i, r, j) = verify_state
        self.log(('next', i, r, j), op='next', ctx=J(ctx), state=S(verify_state), msg=S(verifier_message))
        if r == self.ROUNDS:
            return self.out(i, j)
        return (sym(ST, i, r + 1, j), sym(SH, i, r + 1, j))


class SymDaf(Log, Daf):
    def prep(self, ctx, agg_id, agg_param, nonce, public_share, input_share):
        self.log(('prep', input_share[1], 1, agg_id), op='prep', ctx=J(ctx), id=agg_id, param=S(agg_param), nonce=J(nonce),
                 public=S(public_share), input=S(input_share))
        return self.out(input_share[1], agg_id)


def concrete(cls):
    """cls with every remaining abstract method stubbed."""
    left = getattr(cls, '__abstractmethods__', ())
    return type(cls.__name__, (cls,), {n: Log.enc for n in left})


def run(rec, kind, n, rounds, batch, fail=None, exc=ValueError, sizes=(16, 32, 32), ctx=b'', keysize=None, out=Out, meas=int):
    rng = rec.rng
    (nonce, rand, key) = sizes
    s = concrete(SymVdaf if kind == 'vdaf' else SymDaf)()
    s.setup(n, rounds, nonce, rand, key, fail, exc)
    s.out = out
    param = sym(PARAM, 0, 0, 0)
    k = rng.randbytes(key if keysize is None else keysize)
    ms = [meas(i) for i in range(1, batch + 1)]
    if kind == 'vdaf':
        out = res(lambda: run_vdaf(s, k, param, ctx, ms), S)
    else:
        out = res(lambda: run_daf(s, ctx, param, ms), S)
    if not (out['ok'] or out.get('err')):
        out['err'] = '?'
    rec.add('driver', run={'kind': kind, 'n': n, 'rounds': rounds, 'batch': batch, 'nonce': nonce, 'rand': rand,
                           'key': J(k), 'ctx': J(ctx), 'param': list(param)},
            fail=fail or [], calls=s.calls, out=out)
    return s


def job_once(rec, kind, n, rounds, batch):
    run(rec, kind, n, rounds, batch, ctx=rec.rng.randbytes(7))


def job_runs(rec, kind, n, rounds, batch):
    rng = rec.rng
    a = run(rec, kind, n, rounds, batch, ctx=rng.randbytes(rng.choice((0, 1, 40))))
    b = run(rec, kind, n, rounds, batch, sizes=(rng.choice((8, 12, 16, 24)), rng.choice((8, 31, 64, 100, 129, 200)), rng.choice((0, 16, 32))))
    c = run(rec, kind, n, rounds, batch)
    if batch:
        # freshness across runs
        na = [x['nonce'] for x in a.calls if x['op'] == 'shard']
        nc = [x['nonce'] for x in c.calls if x['op'] == 'shard']
        for (x, y) in zip(na, nc):
            rec.add('differ', a=x, b=y, what='nonces of different runs')
        ra = [x['rand'] for x in a.calls if x['op'] == 'shard']
        rc = [x['rand'] for x in c.calls if x['op'] == 'shard']
        for (x, y) in zip(ra, rc):
            rec.add('differ', a=x, b=y, what='randomness of different runs')
    run(rec, kind, n, rounds, batch, sizes=(0, 0, 0))
    run(rec, kind, n, rounds, batch, out=Alike, meas=Equal)
    assert b is not None


EXCS = (ValueError, AssertionError, Injected, IndexError, TypeError, KeyError, StopIteration, RuntimeError, OverflowError)


def job_sizes(rec, kind, n, rounds, batch):
    for (nonce, rand) in ((8, 128), (16, 129), (17, 144), (24, 256), (32, 257), (33, 520), (64, 1024), (65, 2000), (128, 4096), (300, 9000)):
        run(rec, kind, n, rounds, batch, sizes=(nonce, rand, 32))


def job_faults(rec, kind, n, rounds, batch, faults):
    for (k, f) in enumerate(faults):
        run(rec, kind, n, rounds, batch, fail=f, exc=EXCS[k % len(EXCS)])


def job_keysize(rec):
    """A verification key of another size never runs."""
    for (size, given) in ((32, 31), (32, 33), (32, 0), (16, 32), (0, 1), (32, 64)):
        s = concrete(SymVdaf)()
        s.setup(2, 1, 16, 32, size, None, None)
        out = res(lambda: run_vdaf(s, rec.rng.randbytes(given), sym(PARAM, 0, 0, 0), b'', [1]), S)
        rec.add('refuse', what='run_vdaf with a verification key of %d bytes instead of %d' % (given, size), out=out['ok'])


def job_real(rec, V, n, param=None, bad=None):
    """run_vdaf on real schemes: the plain aggregate, or no result."""
    rng = rec.rng
    inst = make(V)
    rec.extra['Vs'] = [V]
    ms = [rmeas(rng, V) for _ in range(n)]
    out = res(lambda: run_vdaf(inst, rng.randbytes(key_size(V)), param, rng.randbytes(rng.choice((0, 5, 30))), ms),
              lambda r: jresult(V, r))
    rec.add('ideal', v=1, ms=[jmeas(V, m) for m in ms], param=jparam(V, param), accepted=[True] * n, result=out)


def jobs_p27(tier, rng, models):
    deep = tier == 'thorough'
    jobs = []
    for n in range(1, 7 if not deep else 9):
        for b in range(0, 7):
            jobs.append(('daf-%d-%d' % (n, b), job_runs, dict(kind='daf', n=n, rounds=1, batch=b)))
            for r in range(1, 7 if not deep else 9):
                jobs.append(('vdaf-%d-%d-%d' % (n, r, b), job_runs, dict(kind='vdaf', n=n, rounds=r, batch=b)))
    many = [(2, 16, 1), (2, 33, 1), (3, 20, 2), (1, 70, 1), (20, 1, 1), (100, 2, 1), (255, 1, 1), (300, 1, 1), (2, 1, 40), (2, 1, 100), (2, 1, 300), (2, 260, 1), (40, 1, 3),
            (2, 3, 20), (7, 11, 13)]
    for (n, r, b) in many:
        jobs.append(('many-%d-%d-%d' % (n, r, b), job_once, dict(kind='vdaf', n=n, rounds=r, batch=b)))
        jobs.append(('daf-many-%d-%d-%d' % (n, r, b), job_once, dict(kind='daf', n=n, rounds=1, batch=b)))
        # a failure late in a long run
        if n * r * b < 150:
            fs = [['shard', b, 0, 0], ['init', b, 1, n - 1], ['combine', b, r, 0], ['next', b, r, n - 1], ['next', b, (r + 1) // 2, 0], ['next', 1, r, 0],
                  ['aggupdate', b, 0, n - 1], ['unshard', 0, 0, 0]]
            jobs.append(('late-%d-%d-%d' % (n, r, b), job_faults, dict(kind='vdaf', n=n, rounds=r, batch=b, faults=fs)))
    for (kind, n, r, b, faults) in models:
        faults = sorted(map(list, {tuple(f) for f in faults}))
        for i in range(0, len(faults), 20):
            jobs.append(('fault-%s-%d-%d-%d-%d' % (kind, n, r, b, i), job_faults,
                         dict(kind=kind, n=n, rounds=r, batch=b, faults=faults[i:i + 20])))
    # larger runs, failures at every point
    for (kind, n, r, b) in (('vdaf', 4, 3, 3), ('vdaf', 2, 5, 2), ('daf', 5, 1, 4), ('vdaf', 1, 1, 2)):
        f = [['shard', i, 0, 0] for i in range(1, b + 1)] + [['aggupdate', i, 0, j] for i in range(1, b + 1) for j in range(n)]
        f += [['agginit', 0, 0, 0], ['unshard', 0, 0, 0]]
        if kind == 'daf':
            f += [['prep', i, 1, j] for i in range(1, b + 1) for j in range(n)]
        else:
            f += [['init', i, 1, j] for i in range(1, b + 1) for j in range(n)]
            f += [['combine', i, q, 0] for i in range(1, b + 1) for q in range(1, r + 1)]
            f += [['next', i, q, j] for i in range(1, b + 1) for q in range(1, r + 1) for j in range(n)]
        for i in range(0, len(f), 20):
            jobs.append(('fault+%s-%d-%d-%d-%d' % (kind, n, r, b, i), job_faults, dict(kind=kind, n=n, rounds=r, batch=b, faults=f[i:i + 20])))
    jobs.append(('keysize', job_keysize, {}))
    for kind in ('vdaf', 'daf'):
        jobs.append(('sizes-' + kind, job_sizes, dict(kind=kind, n=2, rounds=1, batch=2)))
    for (k, c) in enumerate(SMALLC):
        for shares in (2, 3, 5):
            jobs.append(('prio3-%d-%d' % (k, shares), job_real, dict(V=prio3(shares, c), n=rng.randint(0, 4))))
    for (k, V) in enumerate(multi(rng)):
        jobs.append(('multi-%d' % k, job_real, dict(V=V, n=2)))
    for bits in (1, 2, 5, 9, 16):
        for level in sorted({0, bits // 2, bits - 1}):
            ps = tuple(sorted(some_prefixes(rng, bits, level, rng.randint(1, 4), rbits(rng, bits))))
            jobs.append(('poplar-%d-%d' % (bits, level), job_real, dict(V=poplar1(bits), n=rng.randint(1, 3), param=(level, ps))))
    return jobs
