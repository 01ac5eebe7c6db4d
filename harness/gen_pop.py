"""The point function and Poplar1: P13, P14, P15, P16."""

import itertools

from cat3 import *
from scn import *
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21

F64, F255 = FIELDS['F64'], FIELDS['F255']


def lfield(bits, level):
    return 'F64' if level < bits - 1 else 'F255'


def relem(rng, f):
    p = PRIME[f][0]
    return rng.choice((0, 1, 2, p - 1, rng.randrange(p), rng.randrange(p), rng.randrange(p)))


def jel(f, v):
    return list(int(v).to_bytes(fsize(f), 'little'))


def rbits(rng, n):
    r = rng.random()
    if r < 0.15:
        return (rng.random() < 0.5,) * n
    return tuple(rng.random() < 0.5 for _ in range(n))


class IdpfRun:
    def __init__(self, rec, bits, vl):
        self.rec, self.bits, self.vl = rec, bits, vl
        rec.extra['I'] = {'bits': bits, 'vl': vl}
        self.inst = IdpfBBCGGI21(vl, bits)

    def betas(self):
        return [[relem(self.rec.rng, lfield(self.bits, lv)) for _ in range(self.vl)] for lv in range(self.bits)]

    def gen(self, alpha, betas, ctx, nonce, rand, event=True):
        inst = self.inst
        b = [[FIELDS[lfield(self.bits, lv)](x) for x in bs] for (lv, bs) in enumerate(betas)]
        box = []

        def call():
            r = inst.gen(alpha, b[:-1], b[-1], ctx, nonce, rand)
            box.append(r)
            return r
        out = res(call, lambda r: {'public': J(inst.encode_public_share(r[0])), 'keys': [J(k) for k in r[1]]})
        if event:
            self.rec.add('idpf', op='gen', alpha=[int(x) for x in alpha], ctx=J(ctx), nonce=J(nonce), rand=J(rand),
                         betas=[[jel(lfield(self.bits, lv), x) for x in bs] for (lv, bs) in enumerate(betas)], out=out)
        return box[0] if box else None

    def eval(self, i, public, key, level, prefixes, ctx, nonce, event=True):
        f = lfield(self.bits, level)
        box = []

        def call():
            r = self.inst.eval(i, public, key, level, prefixes, ctx, nonce)
            box.append(r)
            return r
        out = res(call, lambda r: [[jel(f, x.int()) for x in v] for v in r])
        if event:
            self.rec.add('idpf', op='eval', id=i, public=J(self.inst.encode_public_share(public)), key=J(key), level=level,
                         prefixes=[[int(x) for x in p] for p in prefixes], ctx=J(ctx), nonce=J(nonce), out=out)
        return out

    def point(self, alpha, betas, level, prefixes, y0, y1):
        f = lfield(self.bits, level)
        self.rec.add('idpf', op='point', alpha=[int(x) for x in alpha], level=level,
                     prefixes=[[int(x) for x in p] for p in prefixes], beta=[jel(f, x) for x in betas[level]],
                     y0=y0.get('val', []), y1=y1.get('val', []))


def some_prefixes(rng, bits, level, n, alpha):
    """Distinct prefixes in any order: siblings of the path, neighbours,
    random ones."""
    out = set()
    p = tuple(alpha[:level + 1])
    if rng.random() < 0.85:
        out.add(p)
    for _ in range(8 * n + 8):
        if len(out) >= min(n, 2 ** (level + 1)):
            break
        r = rng.random()
        if r < 0.5:
            k = rng.choice((0, level, rng.randint(0, level)))
            q = p[:k] + (not p[k],) + (p[k + 1:] if rng.random() < 0.5 else rbits(rng, level - k))
        else:
            q = rbits(rng, level + 1)
        out.add(q)
    out = sorted(out)
    if rng.random() < 0.4:
        rng.shuffle(out)
    return tuple(out)


def idpf_points(rec, bits, vl, levels, n, event):
    """Generate once, evaluate at several levels."""
    R = IdpfRun(rec, bits, vl)
    rng = rec.rng
    alpha = rbits(rng, bits)
    ctx, nonce, rand = rng.randbytes(rng.choice(LENS)), rng.randbytes(16), rng.randbytes(32)
    betas = R.betas()
    g = R.gen(alpha, betas, ctx, nonce, rand, event)
    for level in levels:
        ps = some_prefixes(rng, bits, level, n, alpha)
        y = [R.eval(i, g[0], g[1][i], level, ps, ctx, nonce, event) for i in (0, 1)]
        R.point(alpha, betas, level, ps, y[0], y[1])


def idpf_all(rec, bits, vl):
    """Every input and level and all prefixes of the level."""
    R = IdpfRun(rec, bits, vl)
    rng = rec.rng
    for alpha in itertools.product((False, True), repeat=bits):
        ctx, nonce, rand = rng.randbytes(3), rng.randbytes(16), rng.randbytes(32)
        betas = R.betas()
        g = R.gen(alpha, betas, ctx, nonce, rand, False)
        for level in range(bits):
            ps = list(itertools.product((False, True), repeat=level + 1))
            y = [R.eval(i, g[0], g[1][i], level, ps, ctx, nonce, False) for i in (0, 1)]
            R.point(alpha, betas, level, ps, y[0], y[1])
            for k in range(min(3, len(ps))):
                qs = rng.sample(ps, k)
                y = [R.eval(i, g[0], g[1][i], level, qs, ctx, nonce, False) for i in (0, 1)]
                R.point(alpha, betas, level, qs, y[0], y[1])


def idpf_refusals(rec, bits, vl):
    R = IdpfRun(rec, bits, vl)
    rng = rec.rng
    alpha = rbits(rng, bits)
    ctx, nonce, rand = rng.randbytes(5), rng.randbytes(16), rng.randbytes(32)
    g = R.gen(alpha, R.betas(), ctx, nonce, rand, False)

    def ev(i, level, ps):
        ok = res(lambda: R.inst.eval(i, g[0], g[1][0], level, ps, ctx, nonce))['ok']
        rec.add('idpf', op='refuse', id=i, level=level, prefixes=[[int(x) for x in p] for p in ps], ok=ok)
    for level in sorted({0, bits - 1, rng.randrange(bits)}):
        p = rbits(rng, level + 1)
        q = p[:-1] + (not p[-1],)
        for i in (0, 1, 2, 3, 255, 256):
            ev(i, level, (p,))
        ev(-1, level, (p,))
        for ps in ((p, p), (p, q, p), (q, p, p), (p + (True,),), (p[:-1],), (p, q + (False,)), (q[:-1], p), ((),), (p, q), (q, p), ()):
            ev(0, level, ps)
            ev(1, level, ps)
    for level in (bits, bits + 1, -1, -bits):
        ev(0, level, (rbits(rng, max(0, level + 1)),))
        ev(1, level, ())
        if -level <= bits and level < 0:
            ev(1, level, (rbits(rng, bits + level + 1),))

    def gn(alpha, betas, nonce, rand, ctx=b'c'):
        b = [[FIELDS[lfield(len(betas), lv)](x) for x in bs] for (lv, bs) in enumerate(betas)]
        ok = res(lambda: R.inst.gen(alpha, b[:-1], b[-1], ctx, nonce, rand))['ok']
        rec.add('idpf', op='genrefuse', alpha=[int(x) for x in alpha], betas=[[[0]] * len(x) for x in betas],
                nonce=J(nonce), rand=J(rand), ctx=J(ctx), ok=ok)
    B = R.betas()
    gn(alpha, B, nonce, rand)
    gn(alpha[:-1], B, nonce, rand)
    gn(alpha + (False,), B, nonce, rand)
    gn(alpha, [[0] * vl] + B, nonce, rand)
    if bits > 1:
        gn(alpha, B[1:], nonce, rand)
    for lv in sorted({0, bits - 1, bits // 2}):
        gn(alpha, B[:lv] + [B[lv] + [1]] + B[lv + 1:], nonce, rand)
        gn(alpha, B[:lv] + [B[lv][1:]] + B[lv + 1:], nonce, rand)
    for k in (0, 15, 17, 32):
        gn(alpha, B, rng.randbytes(k), rand)
    for k in (0, 16, 31, 33, 64):
        gn(alpha, B, nonce, rng.randbytes(k))


BITS = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300]


def levels_of(rng, bits, k):
    base = {0, bits - 1}
    if bits > 1:
        base |= {1, bits - 2, rng.randrange(bits), rng.randrange(bits)}
    for x in (7, 8, 9, 255, 256, 257):
        if x < bits and rng.random() < 0.5:
            base.add(x)
    return sorted(base) if len(base) <= k else sorted(rng.sample(sorted(base), k))


def jobs_p13(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    for bits in range(1, 6 if not deep else 8):
        for vl in (1, 2, 3):
            jobs.append(('all%d-%d' % (bits, vl), idpf_all, dict(bits=bits, vl=vl)))
    for (j, bits) in enumerate(BITS + ([400, 512, 513, 1000] if deep else [513])):
        for vl in ((1, 2, rng.choice((3, 4, 5, 8))) if not deep else (1, 2, 3, 4, 5, 8, 16, 17)):
            for r in range(2 if not deep else 5):
                jobs.append(('pts%d-%d-%d' % (bits, vl, r), idpf_points,
                             dict(bits=bits, vl=vl, levels=levels_of(rng, bits, 6), n=rng.choice((1, 3, 6, 12)), event=False)))
    for (bits, vl) in ((1, 9), (2, 16), (3, 17), (5, 33), (9, 10), (2, 65), (3, 130), (4, 257)):
        jobs.append(('wide%d-%d' % (bits, vl), idpf_points, dict(bits=bits, vl=vl, levels=levels_of(rng, bits, 4), n=3, event=False)))
    for bits in (1000, 1025):
        jobs.append(('deep%d' % bits, idpf_points, dict(bits=bits, vl=2, levels=[0, 511, 512, 999, bits - 2, bits - 1], n=3, event=False)))
    for n in (100, 257, 300, 1030):
        jobs.append(('many%d' % n, idpf_points, dict(bits=11, vl=2, levels=[10, 9, 8], n=n, event=False)))
    for bits in (1, 2, 3, 8, 9, 20):
        for vl in (1, 2, 4):
            jobs.append(('refuse%d-%d' % (bits, vl), idpf_refusals, dict(bits=bits, vl=vl)))
    return jobs


##
# P14
#

def pop_params(rng, bits, level, n, ms):
    return (level, some_prefixes(rng, bits, level, n, rng.choice(ms)))


def pop_whole(rec, bits, level, n, batch, ctxlen):
    V = poplar1(bits)
    c = Calls(rec, [V])
    rng = rec.rng
    ms = [rbits(rng, bits) for _ in range(batch)]
    c.whole(rng.randbytes(32), rng.randbytes(ctxlen), (level, tuple(sorted(some_prefixes(rng, bits, level, n, ms[0])))), ms)


def pop_special(rec, bits, level):
    """Nonces, verification keys and randomness of special forms."""
    V = poplar1(bits)
    c = Calls(rec, [V])
    rng = rec.rng

    def go(ctx=b'c', key=None, nonce=None, rand=None):
        m = rbits(rng, bits)
        ps = tuple(sorted(some_prefixes(rng, bits, level, 3, m)))
        c.whole(key or rng.randbytes(32), ctx, (level, ps), [m], nonces=[nonce or rng.randbytes(16)], rands=[rand or rng.randbytes(128)])
    for x in odds(rng, 16):
        go(nonce=x)
    for x in odds(rng, 32):
        go(key=x)
    for ctx in (b'', b'\0', b'a\0', b'\0a', bytes(9)):
        go(ctx=ctx)
    for (a, b) in ((0, 128), (0, 16), (16, 32), (32, 64), (64, 96), (96, 128)):
        for x in odds(rng, b - a)[:4]:
            r = rng.randbytes(128)
            go(rand=r[:a] + x + r[b:])


def jobs_p14(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    k = 0
    for bits in BITS + ([511, 512, 513] if deep else []):
        for level in levels_of(rng, bits, 4 if not deep else 20):
            k += 1
            jobs.append(('w%d-%d-%d' % (bits, level, k), pop_whole,
                         dict(bits=bits, level=level, n=rng.choice((1, 2, 5)), batch=1, ctxlen=rng.choice(LENS))))
    for n in (0, 40, 256, 300):
        jobs.append(('n%d' % n, pop_whole, dict(bits=11, level=10, n=n, batch=1, ctxlen=3)))
        jobs.append(('m%d' % n, pop_whole, dict(bits=11, level=9, n=n, batch=1, ctxlen=3)))
    for bits in (511, 512, 513) if not deep else (700, 1000, 1025):
        jobs.append(('deep%d' % bits, pop_whole, dict(bits=bits, level=rng.choice((255, 256, 510, bits - 2)), n=2, batch=1, ctxlen=3)))
        jobs.append(('leaf%d' % bits, pop_whole, dict(bits=bits, level=bits - 1, n=2, batch=1, ctxlen=3)))
    for (bits, vl) in ((2, 9), (3, 17), (2, 33), (2, 65)):
        jobs.append(('wide%d-%d' % (bits, vl), idpf_points, dict(bits=bits, vl=vl, levels=levels_of(rng, bits, 3), n=3, event=True)))
    for bits in (1, 2, 3, 6, 9, 17):
        jobs.append(('rej%d' % bits, hitters, dict(bits=bits, batch=4, params=[(lv, 3) for lv in range(bits)], xof='rejecting')))
    for bits in (1, 2, 5, 9):
        for level in sorted({0, bits // 2, bits - 1}):
            jobs.append(('special%d-%d' % (bits, level), pop_special, dict(bits=bits, level=level)))
    jobs.append(('batch', pop_whole, dict(bits=6, level=3, n=5, batch=8, ctxlen=3)))
    jobs.append(('ctx', pop_whole, dict(bits=3, level=1, n=3, batch=1, ctxlen=65527)))
    jobs.append(('ctx2', pop_whole, dict(bits=3, level=2, n=3, batch=1, ctxlen=65528)))
    for bits in BITS[:: (2 if not deep else 1)]:
        for vl in (1, rng.choice((2, 3, 4, 9))):
            jobs.append(('idpf%d-%d' % (bits, vl), idpf_points,
                         dict(bits=bits, vl=vl, levels=levels_of(rng, bits, 3), n=3, event=True)))
    return jobs


##
# P15
#

def hitters(rec, bits, batch, params, times=None, xof=None):
    """Several aggregation parameters over the same reports.  params: list of
    (level, number of prefixes) or 'walk' for a heavy hitters search.  times:
    as if each measurement had been reported so many times."""
    V = poplar1(bits) if xof is None else rejecting(poplar1(bits))
    rng = rec.rng
    inst = make(V)
    rec.extra['Vs'] = [V]
    pool = [rbits(rng, bits) for _ in range(max(1, batch // 2))]
    for b in list(pool):
        k = rng.randrange(bits)
        pool.append(b[:k] + (not b[k],) + b[k + 1:])
    ms = [rng.choice(pool) for _ in range(batch)]
    key, ctx = rng.randbytes(32), rng.randbytes(rng.choice(LENS))
    reports = []
    for m in ms:
        nonce = rng.randbytes(16)
        reports.append((nonce, inst.shard(ctx, m, nonce, rng.randbytes(128))))

    def run(param):
        accepted = []
        aggs = [inst.agg_init(param) for _ in range(2)]
        for (nonce, (pub, inp)) in reports:
            ok = False
            try:
                st = [inst.verify_init(key, ctx, i, param, nonce, pub, inp[i]) for i in (0, 1)]
                while True:
                    msg = inst.verifier_shares_to_message(ctx, param, [s[1] for s in st])
                    nx = [inst.verify_next(ctx, s[0], msg) for s in st]
                    if not isinstance(nx[0], tuple):
                        break
                    st = nx
                for _ in range(times[len(accepted)] if times else 1):
                    aggs = [inst.agg_update(param, a, o) for (a, o) in zip(aggs, nx)]
                ok = True
            except Exception:
                pass
            accepted.append(ok)
        box = []

        def un():
            box.append(inst.unshard(param, aggs, sum(times or [1] * len(ms))))
            return box[0]
        r = res(un, lambda x: jresult(V, x))
        k = times or [1] * len(ms)
        rec.add('ideal', v=1, param=jparam(V, param), ms=[jmeas(V, m) for (m, t) in zip(ms, k) for _ in range(t)],
                accepted=[a for (a, t) in zip(accepted, k) for _ in range(t)], result=r)
        return box[0] if box else None
    if params == 'walk':
        level, cands = 0, [(False,), (True,)]
        while cands and level < bits:
            got = run((level, tuple(cands)))
            if got is None:
                return
            heavy = [p for (p, c) in zip(cands, got) if c >= 2][:6]
            step = rng.choice((1, 1, 2))
            step = min(step, bits - 1 - level) or 1
            level += step
            cands = [p + x for p in heavy for x in itertools.product((False, True), repeat=step)]
    else:
        for (level, n) in params:
            ps = some_prefixes(rng, bits, level, n, rng.choice(ms) if ms else rbits(rng, bits))
            if times:
                # every measurement is counted, and not at the first prefixes
                ps = tuple(sorted(set(ps) - {m[:level + 1] for m in ms})) + tuple(sorted({m[:level + 1] for m in ms}))
            run((level, ps))


def pop_exhaust(rec, bits):
    """Every measurement, level and sequence of at most two prefixes, and all
    prefixes."""
    V = poplar1(bits)
    rng = rec.rng
    key = rng.randbytes(32)
    ms = list(itertools.product((False, True), repeat=bits))
    for level in range(bits):
        ps = list(itertools.product((False, True), repeat=level + 1))
        sets = [()] + [(p,) for p in ps] + ([(p, q) for p in ps for q in ps if p != q] if bits <= 2 else []) + [tuple(ps), tuple(reversed(ps))]
        for s in sets:
            ideal(rec, V, key, b'', (level, s), ms)


def jobs_p15(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    for bits in range(1, 4 if not deep else 6):
        jobs.append(('ex%d' % bits, pop_exhaust, dict(bits=bits)))
    for bits in BITS + ([511, 512, 513, 700] if deep else []):
        ls = levels_of(rng, bits, 6)
        jobs.append(('p%d' % bits, hitters, dict(bits=bits, batch=4 if bits < 100 else 2,
                                                 params=[(lv, rng.choice((1, 2, 5, 9))) for lv in ls])))
    for (j, bits) in enumerate([2, 3, 5, 8, 9, 12, 16, 17, 20, 33] * (1 if not deep else 6)):
        jobs.append(('walk%d-%d' % (bits, j), hitters, dict(bits=bits, batch=6, params='walk')))
    for n in (255, 256, 257, 300):
        jobs.append(('many%d' % n, hitters, dict(bits=10, batch=2, params=[(9, n), (8, n)])))
    jobs.append(('many1030', hitters, dict(bits=11, batch=1, params=[(10, 1030)])))
    for (k, (bits, level, n)) in enumerate(((3, 2, 6), (3, 1, 2), (10, 9, 300), (10, 8, 270), (12, 11, 40))):
        jobs.append(('often%d' % k, hitters, dict(bits=bits, batch=3, params=[(level, n)], times=[rng.choice((255, 256, 300)), rng.choice((64, 128, 257)), 1])))
    jobs.append(('often', hitters, dict(bits=2, batch=2, params=[(1, 4), (0, 2)], times=[rng.choice((1023, 1025)), 4097 if deep else 1024])))
    for bits in (511, 512, 513, 1000, 1025):
        jobs.append(('deep%d' % bits, hitters, dict(bits=bits, batch=1, params=[(lv, 2) for lv in (511, 999, bits - 2, bits - 1) if lv < bits])))
    for bits in (1, 2, 3, 5, 9, 20):
        jobs.append(('rej%d' % bits, hitters, dict(bits=bits, batch=3, params=[(lv, 3) for lv in range(bits)], xof='rejecting')))
    jobs.append(('empty', hitters, dict(bits=4, batch=0, params=[(3, 4), (1, 2)])))
    jobs.append(('big', hitters, dict(bits=4, batch=60 if not deep else 300, params=[(3, 16), (1, 4)])))
    jobs.append(('none', hitters, dict(bits=6, batch=3, params=[(5, 0), (2, 0)])))
    return jobs


##
# P16
#

def pop_regions(bits):
    nc = (2 * bits + 7) // 8
    out = [('public', 0, 0, 'control bits', 0, 1, nc), ('public', 0, 0, 'correction seeds', nc, 16, bits)]
    w = nc + 16 * bits
    for (i, who) in ((0, 'all'), (1, 'leader'), (2, 'helper')):
        if i:
            out += [('public', i, 0, 'control bits of the ' + who, 0, 1, nc), ('public', i, 0, 'correction seeds of the ' + who, nc, 16, bits)]
        if bits > 1:
            out.append(('public', i, 0, 'inner payloads of ' + who, w, 8, 2 * (bits - 1)))
        out.append(('public', i, 0, 'leaf payload of ' + who, w + 16 * (bits - 1), 32, 2))
    for i in (1, 2):
        out.append(('input', i, 0, 'key', 0, 16, 1))
        out.append(('input', i, 0, 'correlation seed', 16, 32, 1))
        if bits > 1:
            out.append(('input', i, 0, 'inner correlated values', 48, 8, 2 * (bits - 1)))
        out.append(('input', i, 0, 'leaf correlated values', 48 + 16 * (bits - 1), 32, 2))
    return out


def pop_tamper(rec, bits, level, per, part=1.0):
    V = poplar1(bits)
    S = Scenarios(rec, [V], part)
    rng = rec.rng
    inst = S.insts[0]
    f = lfield(bits, level)
    s, p = fsize(f), PRIME[f][0]
    key, ctx = rng.randbytes(32), rng.randbytes(4)

    def base(on=True, lv=level):
        m = rbits(rng, bits)
        ps = set(some_prefixes(rng, bits, lv, 3, m))
        if on:
            ps.add(m[:lv + 1])
        else:
            ps.discard(m[:lv + 1])
        return honest_sc(V, rng, m, key=key, ctx=ctx, param=inst.encode_agg_param((lv, tuple(sorted(ps)))))
    other = {}
    S.run(base(), 'honest', other)
    S.run(base(False), 'honest, off the path')
    regs = [(r, 0) for r in pop_regions(bits)]
    for i in (0, 1, 2):
        regs.append((('share', i, 1, 'sketch share', 0, s, 3), 1))
        regs.append((('msg', i, 1, 'sketch', 0, s, 3), 1))
        regs.append((('share', i, 2, 'second share', 0, s, 1), 2))
    for ((at, who, rnd, name, start, size, count), _) in regs:
        picks = set(range(count)) if count <= per else set(rng.sample(range(count), per))
        # aim at the level in use
        lvl_at = {'correction seeds': level, 'control bits': level // 4}
        for (k, v) in lvl_at.items():
            if name.startswith(k):
                picks.add(v)
        if 'inner' in name and level < bits - 1:
            picks |= {2 * level, 2 * level + 1}
        for k in sorted(picks):
            sc = base()
            pos = start + k * size + rng.choice((0, rng.randrange(size), size - 1))
            val = rng.choice((1, 0x80, rng.randint(1, 255)))
            if name.startswith('control'):
                val = 1 << rng.randrange(8)
            sc['edits'] = [edit(at, 'xor', who, rnd, pos=pos, val=val)]
            S.run(sc, '%s altered at byte %d' % (name, pos))
        sc = base()
        sc['edits'] = [edit(at, 'put', who, rnd, pos=start + rng.randrange(count) * size, data=bytes(size))]
        S.run(sc, name + ' zeroed')
        src = {'public': lambda: other['public'], 'input': lambda: other['inputs'][(who or 1) - 1],
               'share': lambda: other['shares'][rnd - 1][(who or 1) - 1], 'msg': lambda: other['msgs'][rnd - 1]}[at]()
        sc = base()
        sc['edits'] = [edit(at, 'put', who, rnd, pos=start, data=src[start:start + size * count])]
        S.run(sc, name + ' of another report')
        sc = base()
        sc['edits'] = [edit(at, 'trunc', who, rnd, pos=rng.choice((1, size)))]
        S.run(sc, name + ': message truncated')
        sc = base()
        sc['edits'] = [edit(at, 'append', who, rnd, data=bytes(rng.choice((1, size))))]
        S.run(sc, name + ': message extended')
        if at in ('share', 'msg') or 'inner' in name and size == 8 or 'leaf' in name:
            sc = base()
            q = (p if at in ('share', 'msg') else PRIME['F64' if size == 8 else 'F255'][0]).to_bytes(size, 'little')
            sc['edits'] = [edit(at, 'put', who, rnd, pos=start + rng.randrange(count) * size, data=q)]
            S.run(sc, name + ' with the modulus as an element')
    # order and number of shares; rounds mixed up
    for rnd in (1, 2):
        for sel in ([1], [2], [1, 1], [2, 2], [2, 1], [1, 2, 2], [1, 2, 1], []):
            sc = base()
            sc['edits'] = [edit('share', 'sel', 0, rnd, sel=sel)]
            S.run(sc, 'shares %s in round %d' % (sel, rnd))
    for who in (0, 1, 2):
        for pos in (1, 2):
            sc = base()
            sc['edits'] = [edit('share', 'old', who, 2, pos=pos)]
            S.run(sc, 'a share of the first round in the second')
            sc = base()
            sc['edits'] = [edit('msg', 'old', who, 1, pos=pos)]
            S.run(sc, 'a share instead of the message')
        for d in (bytes(3 * s), bytes(s), b'\0'):
            sc = base()
            sc['edits'] = [edit('msg', 'set', who, 2, data=d)]
            S.run(sc, 'a message of the second round that is not empty')
        sc = base()
        sc['edits'] = [edit('msg', 'set', who, 1, data=b'')]
        S.run(sc, 'an empty message in the first round')
        for rnd in (1, 2):
            sc = base()
            sc['edits'] = [edit('msg', 'none', who, rnd)]
            S.run(sc, 'no message in round %d' % rnd)
            for k in (0, 1, 2, 3, 4, 6):
                sc = base()
                sc['edits'] = [edit('msg', 'direct', who, rnd, data=bytes(k * s))]
                S.run(sc, 'a message of %d zeros in round %d' % (k, rnd))
                if k in (1, 3):
                    sc = base()
                    sc['edits'] = [edit('msg', 'direct', who, rnd, data=b''.join(rng.randrange(p).to_bytes(s, 'little') for _ in range(k)))]
                    S.run(sc, 'a message of %d elements in round %d' % (k, rnd))
                sc = base()
                sc['edits'] = [edit('share', 'direct', who, rnd, data=bytes(k * s))]
                S.run(sc, 'a share of %d zeros in round %d' % (k, rnd))
        sc = base()
        sc['edits'] = [edit('share', 'set', who, 2, data=bytes(3 * s))]
        S.run(sc, 'zero sketch in the second round')
        sc = base()
        sc['edits'] = [edit('share', 'set', who, 1, data=bytes(s))]
        S.run(sc, 'a short share in the first round')
    # what is delivered is longer or shorter than what was sent
    sc = base()
    g = {}
    S.run(sc, 'honest', g)
    for d in (bytes(s), (1).to_bytes(s, 'little'), None):
        m = g['msgs'][0]
        for who in (0, 1, 2):
            S.run(dict(sc, edits=[edit('msg', 'direct', who, 1, data=m[:-s] if d is None else m + d)]), 'the message with an element more or less')
            if d is not None:
                S.run(dict(sc, edits=[edit('msg', 'direct', who, 1, data=d + m)]), 'the message with an element more at its start')
        for rnd in (1, 2):
            for who in ((1, 2), (1,), (2,)):
                S.run(dict(sc, edits=[edit('share', 'direct', i, rnd, data=g['shares'][rnd - 1][i - 1][:-s] if d is None else g['shares'][rnd - 1][i - 1] + d) for i in who]),
                      'shares %s of round %d with an element more or less' % (who, rnd))
    for sel in ([2, 1], [1, 1], [2, 2]):
        sc = base()
        sc['edits'] = [edit('input', 'sel', sel=sel)]
        S.run(sc, 'input shares %s' % sel)
    # a change of both parties' shares that cancels is no change
    # aggregators that disagree about the aggregation parameter
    sc = base()
    o = base()
    sc['aggs'][1] = dict(sc['aggs'][1], param=o['aggs'][1]['param'])
    S.run(sc, 'different prefixes at the aggregators')
    if bits > 1:
        sc = base()
        o = base(lv=(level + 1) % bits)
        sc['aggs'][1] = dict(sc['aggs'][1], param=o['aggs'][1]['param'])
        S.run(sc, 'different levels at the aggregators')
    S.run(base(), 'honest after all this')


def pop_evil(rec, bits, levels):
    """Clients that program other values."""
    V = poplar1(bits)
    S = Scenarios(rec, [V])
    rng = rec.rng
    inst = S.insts[0]
    for level in levels:
        f = lfield(bits, level)
        p = PRIME[f][0]
        r = rng.randrange(3, p)
        # (value, error of the authenticator) at the level in use
        for (d, e) in ((1, 0), (0, 0), (2, 0), (p - 1, 0), (r, 0), ((p + 1) // 2, 0), (1, 1), (1, p - 1), (1, r), (0, 1), (0, r), (2, 1), (p - 1, r)):
            for on in (True, False):
                m = rbits(rng, bits)
                ps = set(some_prefixes(rng, bits, level, 3, m))
                if on:
                    ps.add(m[:level + 1])
                else:
                    ps.discard(m[:level + 1])
                sc = honest_sc(V, rng, m, param=inst.encode_agg_param((level, tuple(sorted(ps)))))
                ds = [jel(lfield(bits, lv), 1) for lv in range(bits)]
                es = [jel(lfield(bits, lv), 0) for lv in range(bits)]
                ds[level], es[level] = jel(f, d), jel(f, e)
                sc['client']['beta'] = {'d': ds, 'e': es}
                S.run(sc, 'value %d, authenticator error %d, %s the path' % (d, e, 'on' if on else 'off'))
        # values wrong at other levels only
        if bits > 1:
            m = rbits(rng, bits)
            sc = honest_sc(V, rng, m, param=inst.encode_agg_param((level, (m[:level + 1],))))
            sc['client']['beta'] = {'d': [jel(lfield(bits, lv), 1 if lv == level else 5) for lv in range(bits)],
                                    'e': [jel(lfield(bits, lv), 0 if lv == level else 5) for lv in range(bits)]}
            S.run(sc, 'wrong values at other levels')


def pop_given(rec, bits, level, n, cases):
    """Any values at the candidate prefixes, rightly authenticated or not,
    are accepted if they are zero but for at most a single one."""
    V = poplar1(bits)
    S = Scenarios(rec, [V])
    rng = rec.rng
    inst = S.insts[0]
    f = lfield(bits, level)
    p = PRIME[f][0]
    every = list(itertools.product((False, True), repeat=level + 1))

    def go(vals, errs, what):
        m = rbits(rng, bits)
        ps = tuple(sorted(rng.sample(every, len(vals))))
        sc = honest_sc(V, rng, m, param=inst.encode_agg_param((level, ps)))
        k = auth_keys(inst, sc)[level]
        want = [(v % p, (v * k + e) % p) for (v, e) in zip(vals, errs)]
        # special shares among them: zero, the whole value, one, minus one, alike
        part = rng.choice((0, 0.3, 0.9))
        y0 = [tuple(rng.choice((0, w, 0, w, 1, p - 1, w * (p + 1) // 2 % p)) if rng.random() < part else rng.randrange(p) for w in x) for x in want]
        y1 = [tuple((b - a) % p for (a, b) in zip(x, y)) for (x, y) in zip(y0, want)]
        sc['evals'] = [[[jel(f, a) for a in x] for x in y] for y in (y0, y1)]
        S.run(sc, what)
    for j in range(cases):
        z = [0] * n
        one = rng.randrange(n)

        def at(*kv):
            v = list(z)
            for (k, x) in kv:
                v[k] += x
            return v
        go(at((one, 1)), z, 'a single one at %d of %d' % (one, n))
        go(at((one, 1)), at((rng.randrange(n), rng.choice((1, p - 1, rng.randrange(1, p))))), 'an authenticator is wrong')
        if n > 1:
            # pairs at every distance that is a power of two, and others
            gaps = [d for d in (1, 2, 3, 4, 8, 16, 32, 64, 128, 255, 256) if d < n] + [rng.randrange(1, n)]
            for d in gaps:
                a = rng.randrange(n - d)
                (x, y) = rng.choice(((1, 1), (1, -1), (2, -1), (p - 1, 2), (rng.randrange(1, p), rng.randrange(1, p))))
                if x == y:
                    go(at((a, 1), (a + d, 1)), z, 'two ones')
                go(at((a, x), (a + d, -x)), z, 'values that cancel at %d and %d of %d' % (a, a + d, n))
                go(at((a, x), (a + d, -x), (rng.randrange(n), 1)), z, 'values that cancel and a one')
                go(at((a, x), (a + d, y)), z, 'two values at %d and %d of %d' % (a, a + d, n))
                go(at((one, 1)), at((a, x), (a + d, -x)), 'authenticator errors that cancel')
    go([], [], 'no prefixes')
    go([1] + [0] * (n - 1), [0] * n, 'a single one, first')
    go([0] * (n - 1) + [1], [0] * n, 'a single one, last')
    go([0] * n, [0] * n, 'zeros')
    go([0] * (n - 1) + [2], [0] * n, 'a two, last')
    go([0] * n, [0] * (n - 1) + [1], 'authenticator error, last')
    go([rng.randrange(p) for _ in range(n)], [0] * n, 'random values')


def jobs_p16(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    for bits in ([1, 2, 3, 5, 8, 9] if not deep else [1, 2, 3, 4, 5, 8, 9, 13, 17, 33]):
        for level in (range(bits) if bits <= 3 or deep else (0, bits // 2, bits - 2, bits - 1)):
            jobs.append(('tamper%d-%d' % (bits, level), pop_tamper, dict(bits=bits, level=level, per=2 if not deep else 12)))
    for bits in (1, 2, 3, 5, 9, 40) + ((17, 64, 130) if deep else ()):
        jobs.append(('evil%d' % bits, pop_evil, dict(bits=bits, levels=levels_of(rng, bits, 3 if not deep else 9))))
    for (k, (bits, level, n)) in enumerate(((1, 0, 1), (1, 0, 2), (3, 0, 2), (3, 1, 3), (4, 3, 9), (7, 5, 40), (7, 6, 70), (8, 6, 65), (9, 8, 17), (10, 8, 300), (10, 9, 260),
                                              (11, 10, 129))):
        jobs.append(('given%d' % k, pop_given, dict(bits=bits, level=level, n=n, cases=(1 if n > 100 else 2) * (10 if deep else 1))))
    jobs.append(('tamper300', pop_tamper, dict(bits=300, level=258, per=1, part=0.3 if not deep else 1.0)))
    jobs.append(('evil300', pop_evil, dict(bits=300, levels=[257, 299] if deep else [257])))
    return jobs
