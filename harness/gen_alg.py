"""Fields (P09), polynomials (P10), XOFs (P11)."""

from core import J, Rec, el, els, nat, res
from fields import BIG, FIELDS, NTT, PRIME, SMALL, edges


def le(v, size):
    return list(v.to_bytes(size, 'little'))


def relem(rng, name):
    (p, _, _) = PRIME[name]
    if rng.random() < 0.25:
        return rng.choice(edges(name))
    return rng.randrange(p)


def rvec(rng, name, n):
    return [relem(rng, name) for _ in range(n)]


##
# P09
#

BINARY = {
    'f.add': lambda x, y: x + y,
    'f.sub': lambda x, y: x - y,
    'f.mul': lambda x, y: x * y,
    'f.div': lambda x, y: x / y,
}


def field_pairs(rec: Rec, name, pairs):
    F = FIELDS[name]
    size = PRIME[name][1]
    for op, fn in BINARY.items():
        ps = [(x, y) for (x, y) in pairs if op != 'f.div' or y != 0]
        rec.add('field', op=op, field=name,
                xs=[le(x, size) for x, _ in ps], ys=[le(y, size) for _, y in ps],
                out=[res(lambda: fn(F(x), F(y)), lambda r: el(r, size)) for x, y in ps])
    rec.add('field', op='f.eq', field=name,
            xs=[le(x, size) for x, _ in pairs], ys=[le(y, size) for _, y in pairs],
            out=[res(lambda: F(x) == F(y), bool) for x, y in pairs])


def field_unary(rec: Rec, name, xs):
    F = FIELDS[name]
    size = PRIME[name][1]
    for op, fn in (('f.neg', lambda x: -x), ('f.inv', lambda x: x.inv())):
        rec.add('field', op=op, field=name, xs=[le(x, size) for x in xs],
                out=[res(lambda: fn(F(x)), lambda r: el(r, size)) for x in xs])


def field_pow(rec: Rec, name, cases):
    F = FIELDS[name]
    size = PRIME[name][1]
    rec.add('field', op='f.pow', field=name, xs=[le(x, size) for x, _ in cases],
            ys=[nat(e) for _, e in cases],
            out=[res(lambda: F(x) ** e, lambda r: el(r, size)) for x, e in cases])


def field_new(rec: Rec, name, ints):
    F = FIELDS[name]
    size = PRIME[name][1]
    rec.add('field', op='f.new', field=name, xs=[nat(abs(v)) for v in ints],
            neg=[v < 0 for v in ints],
            out=[res(lambda: F(v), lambda r: el(r, size)) for v in ints])


def field_codec(rec: Rec, name, n):
    F = FIELDS[name]
    (p, size, _) = PRIME[name]
    rng = rec.rng
    vecs = [[], [0], [p - 1], [0, p - 1, 1]] + \
        [rvec(rng, name, rng.randrange(1, 9)) for _ in range(n)]
    rec.add('field', op='f.encvec', field=name,
            xs=[[le(x, size) for x in v] for v in vecs],
            out=[res(lambda: F.encode_vec([F(x) for x in v]), J) for v in vecs])
    encs = []
    for v in vecs:
        encs.append(b''.join(bytes(le(x, size)) for x in v))
    # Non-canonical and misaligned strings.
    for over in (p, p + 1, 2**(8 * size) - 1, 2 * p, 2**(p.bit_length()), 2**(p.bit_length()) - 1):
        if p <= over < 2**(8 * size):
            b = over.to_bytes(size, 'little')
            g = rng.randrange(p).to_bytes(size, 'little')
            encs += [b, g + b, b + g, g + b + g]
    for k in {1, size - 1, size + 1, 2 * size - 1, 2 * size + 1, 3 * size + size // 2}:
        encs.append(rng.randrange(p).to_bytes(size, 'little') * 4)
        encs[-1] = encs[-1][:k]
    for _ in range(n):
        encs.append(rng.randbytes(size * rng.randrange(1, 6)))
        encs.append(rng.randbytes(rng.randrange(1, 6 * size)))
    rec.add('field', op='f.decvec', field=name, xs=[J(b) for b in encs],
            out=[res(lambda: F.decode_vec(b), lambda v: els(v, size)) for b in encs])
    if size == 1:
        allb = [bytes([b]) for b in range(256)]
        rec.add('field', op='f.decvec', field=name, xs=[J(b) for b in allb],
                out=[res(lambda: F.decode_vec(b), lambda v: els(v, size)) for b in allb])
    ns = [0, 1, 2, 7]
    rec.add('field', op='f.zeros', field=name, xs=ns,
            out=[res(lambda: F.zeros(k), lambda v: els(v, size)) for k in ns])


def field_vectors(rec: Rec, name, n):
    from vdaf_poc.common import vec_add, vec_neg, vec_sub
    F = FIELDS[name]
    size = PRIME[name][1]
    rng = rec.rng
    cases = [([], []), ([1], [1])]
    for _ in range(n):
        k = rng.randrange(0, 7)
        cases.append((rvec(rng, name, k), rvec(rng, name, k)))
        cases.append((rvec(rng, name, k), rvec(rng, name, rng.randrange(0, 7))))
    for op, fn in (('f.vecadd', vec_add), ('f.vecsub', vec_sub)):
        rec.add('field', op=op, field=name,
                xs=[[le(x, size) for x in a] for a, _ in cases],
                ys=[[le(x, size) for x in b] for _, b in cases],
                out=[res(lambda: fn([F(x) for x in a], [F(x) for x in b]),
                         lambda v: els(v, size)) for a, b in cases])
    rec.add('field', op='f.vecneg', field=name,
            xs=[[le(x, size) for x in a] for a, _ in cases],
            out=[res(lambda: vec_neg([F(x) for x in a]), lambda v: els(v, size)) for a, _ in cases])


def field_roots(rec: Rec, name):
    F = FIELDS[name]
    (p, size, log) = PRIME[name]
    rec.add('fparams', op='f.params', field=name, mod=nat(F.MODULUS), size=F.ENCODED_SIZE,
            ntt=name != 'F255',
            gen=el(F.gen(), size) if name != 'F255' else [],
            order=nat(F.GEN_ORDER) if name != 'F255' else [])
    if name == 'F255':
        return
    ks = list(range(0, log + 1))
    rec.add('field', op='f.bigroot', field=name, xs=ks,
            out=[res(lambda: F.nth_root(k), lambda r: el(r, size)) for k in ks])
    ns = [2**k for k in range(0, min(log, 8) + 1)]
    rec.add('field', op='f.roots', field=name, xs=ns,
            out=[res(lambda: F.nth_root_powers(k), lambda r: els(r, size)) for k in ns])


def byte_xor(rec: Rec, n):
    from vdaf_poc.common import xor
    rng = rec.rng
    pairs = [(b'', b''), (b'', b'\1'), (b'\1', b''), (b'\xff', b'\xff'), (b'\0' * 16, b'\0' * 15)]
    for k in (1, 2, 15, 16, 17, 31, 32, 33, 255, 256, 300) * n:
        a = rng.randbytes(k)
        pairs += [(a, rng.randbytes(k)), (a, a), (a, rng.randbytes(k - 1)), (rng.randbytes(k + 1), a),
                  (a, bytes(k)), (a, a + b'\0'), (a + a, a)]
    rec.add('bytes', op='b.xor', xs=[J(a) for a, _ in pairs], ys=[J(b) for _, b in pairs],
            out=[res(lambda: xor(a, b), J) for a, b in pairs])


def byte_ints(rec: Rec, n):
    """Numbers as byte strings, and the taking apart of byte strings."""
    from vdaf_poc import common
    rng = rec.rng
    cases = []
    for size in (0, 1, 2, 3, 4, 5, 8, 12, 16, 32, 33):
        top = 256**size
        vals = {0, 1, 255, 256, top - 1, top, top + 1, top // 2, top // 256, 2 * top, 256 * top, -1, -top, 1 - top}
        vals |= {rng.randrange(256 * top) for _ in range(n)} | {-rng.randrange(1, 2 * top + 1)}
        cases += [(v, size) for v in sorted(vals)]
    for op, fn in (('b.tole', common.to_le_bytes), ('b.tobe', common.to_be_bytes)):
        rec.add('bytes', op=op, xs=[nat(v) for v, _ in cases], ys=[s for _, s in cases],
                out=[res(lambda: fn(v, s), J) for v, s in cases])
    strs = [b'', b'\0', b'\0\0', b'\1', b'\0\1', b'\1\0', b'\xff' * 33] + [rng.randbytes(rng.randrange(40)) for _ in range(4 * n)]
    for op, fn in (('b.ofle', common.from_le_bytes), ('b.ofbe', common.from_be_bytes)):
        rec.add('bytes', op=op, xs=[J(b) for b in strs], out=[res(lambda: fn(b), nat) for b in strs])
    cuts = [(b, k) for b in strs for k in sorted({0, 1, len(b) // 2, max(0, len(b) - 1), len(b), len(b) + 1, len(b) + 300})]
    rec.add('bytes', op='b.front', xs=[J(b) for b, _ in cuts], ys=[k for _, k in cuts],
            out=[res(lambda: common.front(k, b), lambda r: [J(r[0]), J(r[1])]) for b, k in cuts])
    rec.add('bytes', op='b.front', xs=[J(b) for b, _ in cuts], ys=[k for _, k in cuts],
            out=[res(lambda: common.front(k, list(b)), lambda r: [list(r[0]), list(r[1])]) for b, k in cuts])
    lists = [[]] + [rng.sample(strs, rng.randrange(1, 6)) for _ in range(n)]
    rec.add('bytes', op='b.concat', xs=[[J(b) for b in v] for v in lists],
            out=[res(lambda: common.concat(v), J) for v in lists])
    ns = [0, 1, 2, 16, 300]
    rec.add('bytes', op='b.zeros', ys=ns, out=[res(lambda: common.zeros(k), J) for k in ns])


def sample_pairs(rec, name, n):
    rng = rec.rng
    e = edges(name)
    pairs = [(rng.choice(e), rng.choice(e)) for _ in range(n // 2)]
    pairs += [(relem(rng, name), relem(rng, name)) for _ in range(n // 2)]
    field_pairs(rec, name, pairs)
    field_unary(rec, name, e + [relem(rng, name) for _ in range(n // 4)])
    p = PRIME[name][0]
    field_pow(rec, name, [(relem(rng, name), k) for k in (0, 1, 2, 3, 255, 256, p - 1, p - 2, p, (p - 1) // 2)]
              + [(0, 0), (0, 1), (0, 5), (1, 0)]
              + [(relem(rng, name), rng.randrange(2**rng.randrange(1, 80))) for _ in range(n // 8)])


def jobs_p09(tier, rng):
    deep = tier == 'thorough'
    jobs = [('bytes-%d' % k, byte_ints, dict(n=6)) for k in range(1 if not deep else 10)]
    for name in SMALL:
        p = PRIME[name][0]
        if p < 100 or (deep and p < 300):
            for lo in range(0, p, 16):
                pairs = [(x, y) for x in range(lo, min(lo + 16, p)) for y in range(p)]
                jobs.append(('all-%s-%d' % (name, lo), field_pairs, dict(name=name, pairs=pairs)))
            jobs.append(('unary-%s' % name, field_unary, dict(name=name, xs=list(range(p)))))
            jobs.append(('pow-%s' % name, field_pow, dict(
                name=name, cases=[(x, e) for x in range(p) for e in (0, 1, 2, 3, p - 2, p - 1, p)])))
        else:
            jobs.append(('sample-%s' % name, sample_pairs, dict(name=name, n=400)))
            if p < 10000:
                jobs.append(('unary-%s' % name, field_unary, dict(name=name, xs=list(range(0, p, 1 if p < 1000 else 7)))))
    for name in BIG:
        for k in range(4 if not deep else 40):
            jobs.append(('sample-%s-%d' % (name, k), sample_pairs, dict(name=name, n=400 if not deep else 1500)))
    for name in FIELDS:
        p = PRIME[name][0]
        ints = sorted({s * v for v in (0, 1, 2, p - 1, p, p + 1, 2 * p, p // 2, 2**300) for s in (1, -1)})
        jobs.append(('new-%s' % name, field_new, dict(name=name, ints=ints)))
        for k in range(1 if not deep else 10):
            jobs.append(('codec-%s-%d' % (name, k), field_codec, dict(name=name, n=20 if not deep else 100)))
        jobs.append(('vec-%s' % name, field_vectors, dict(name=name, n=15)))
        jobs.append(('roots-%s' % name, field_roots, dict(name=name)))
    return jobs


##
# P10
#

def shown(a, size):
    """An argument of a call: a vector, a list of vectors, or something else."""
    if not isinstance(a, list):
        return []
    return [shown(x, size) if isinstance(x, list) else el(x, size) for x in a]


def kept(size, fn, args, conv):
    """The outcome of a call, and its arguments before and after."""
    before = [shown(a, size) for a in args]
    out = res(lambda: fn(*args), conv)
    return dict(out=out, before=before, after=[shown(a, size) for a in args])


def polys(rec: Rec, name, n, maxlen):
    from vdaf_poc.field import poly_add, poly_eval, poly_interp, poly_mul, poly_strip
    F = FIELDS[name]
    (p, size, _) = PRIME[name]
    rng = rec.rng

    def f(v):
        return [F(x) for x in v]

    def j(v):
        return [le(x, size) for x in v]

    def some():
        r = rng.random()
        k = rng.randrange(0, maxlen)
        if r < 0.1:
            return [0] * k
        if r < 0.3:
            return rvec(rng, name, k) + [0] * rng.randrange(1, 4)
        if r < 0.4:
            return [0] * rng.randrange(1, 4) + rvec(rng, name, k)
        return rvec(rng, name, k)

    fixed = [[], [0], [0, 0, 0], [1], [0, 1], [p - 1, 0], [1, 0, 0]]
    for i in range(n):
        a = fixed[i] if i < len(fixed) else some()
        b = fixed[(i * 3) % 7] if i < 2 * len(fixed) else some()
        x = relem(rng, name)
        rec.add('poly', op='p.strip', field=name, p=j(a),
                **kept(size, lambda *v: poly_strip(F, *v), [f(a)], lambda v: els(v, size)))
        rec.add('poly', op='p.eval', field=name, p=j(a), x=le(x, size),
                **kept(size, lambda *v: poly_eval(F, *v), [f(a), F(x)], lambda v: el(v, size)))
        rec.add('poly', op='p.add', field=name, p=j(a), q=j(b),
                **kept(size, lambda *v: poly_add(F, *v), [f(a), f(b)], lambda v: els(v, size)))
        if a or b:
            rec.add('poly', op='p.mul', field=name, p=j(a), q=j(b),
                    **kept(size, lambda *v: poly_mul(F, *v), [f(a), f(b)], lambda v: els(v, size)))
        k = rng.randrange(1, min(maxlen, p) + 1)
        if p < 100000:
            xs = rng.sample(range(p), k)
        else:
            xs = list(dict.fromkeys(rvec(rng, name, k)))
            k = len(xs)
        r = rng.random()
        if r < 0.15:
            ys = [0] * k
        elif r < 0.3:
            ys = [relem(rng, name)] * k
        elif r < 0.5:   # of low degree
            q = rvec(rng, name, max(1, k // 2))
            ys = [sum(c * pow(t, e, p) for e, c in enumerate(q)) % p for t in xs]
        else:
            ys = rvec(rng, name, k)
        rec.add('poly', op='p.interp', field=name, xs=j(xs), ys=j(ys),
                **kept(size, lambda *v: poly_interp(F, *v), [f(xs), f(ys)], lambda v: els(v, size)))


def transforms(rec: Rec, name, logs, n):
    from vdaf_poc.field import Lagrange
    F = FIELDS[name]
    (p, size, log) = PRIME[name]
    rng = rec.rng

    def f(v):
        return [F(x) for x in v]

    def j(v):
        return [le(x, size) for x in v]

    lag = Lagrange(F)
    for lg in logs:
        m = 2**lg
        for i in range(n):
            short = rng.randrange(0, m + 1)
            a = rvec(rng, name, m) if i % 2 == 0 else rvec(rng, name, short)
            if i % 5 == 4:
                a = [0] * len(a)
            for shifted in (False, True):
                if shifted and lg + 1 > log:
                    continue
                rec.add('poly', op='p.ntt', field=name, p=j(a), n=m, shifted=shifted,
                        **kept(size, F.ntt, [f(a), m, shifted], lambda v: els(v, size)))
            rec.add('poly', op='p.intt', field=name, p=j(a), n=m,
                    **kept(size, F.inv_ntt, [f(a), m], lambda v: els(v, size)))
            b = rvec(rng, name, m)
            c = rvec(rng, name, m)
            xs = [relem(rng, name)]
            # Evaluation points that are nodes themselves.
            root = pow(PRIMGEN[name], 2**(log - lg), p)
            xs.append(pow(root, rng.randrange(m), p))
            xs.append(0)
            for x in xs:
                rec.add('poly', op='l.eval', field=name, p=j(b), x=le(x, size),
                        **kept(size, lag.poly_eval, [f(b), F(x)], lambda v: el(v, size)))
            ps = [rvec(rng, name, m) for _ in range(rng.randrange(1, 5))]
            rec.add('poly', op='l.evalbatch', field=name, ps=[j(q) for q in ps], x=le(xs[0], size),
                    **kept(size, lag.poly_eval_batched, [[f(q) for q in ps], F(xs[0])], lambda v: els(v, size)))
            if lg + 1 <= log:
                rec.add('poly', op='l.double', field=name, p=j(b),
                        **kept(size, lag.double_evaluations, [f(b)], lambda v: els(v, size)))
                rec.add('poly', op='l.mul', field=name, p=j(b), q=j(c),
                        **kept(size, lag.poly_mul, [f(b), f(c)], lambda v: els(v, size)))
            k = rng.choice([1, m, m // 2 + 1, rng.randrange(1, m + 1)])
            k = min(k, m)
            d = rvec(rng, name, k)

            def extend():
                v = f(d)
                lag.extend_values_to_power_of_2(v, m)
                return v
            rec.add('poly', op='l.extend', field=name, p=j(d), n=m,
                    out=res(extend, lambda v: els(v, size)))


def large_transforms(rec: Rec, name, lg, extend):
    """Transforms and Lagrange-basis operations on many values."""
    from vdaf_poc.field import Lagrange
    F = FIELDS[name]
    (p, size, log) = PRIME[name]
    rng = rec.rng
    m = 2**lg

    def f(v):
        return [F(x) for x in v]

    def j(v):
        return [le(x, size) for x in v]
    lag = Lagrange(F)
    for a in (rvec(rng, name, m), rvec(rng, name, m - rng.choice((1, m // 2 - 1)))):
        for shifted in (False, True):
            if lg + shifted <= log:
                rec.add('poly', op='p.ntt', field=name, p=j(a), n=m, shifted=shifted,
                        **kept(size, F.ntt, [f(a), m, shifted], lambda v: els(v, size)))
        rec.add('poly', op='p.intt', field=name, p=j(a), n=m, **kept(size, F.inv_ntt, [f(a), m], lambda v: els(v, size)))
    b, c = rvec(rng, name, m), rvec(rng, name, m)
    root = pow(PRIMGEN[name], 2**(log - lg), p)
    for x in (relem(rng, name), pow(root, m - 1, p)):
        rec.add('poly', op='l.eval', field=name, p=j(b), x=le(x, size),
                **kept(size, lag.poly_eval, [f(b), F(x)], lambda v: el(v, size)))
        rec.add('poly', op='l.evalbatch', field=name, ps=[j(b), j(c)], x=le(x, size),
                **kept(size, lag.poly_eval_batched, [[f(b), f(c)], F(x)], lambda v: els(v, size)))
    if lg < log:
        rec.add('poly', op='l.double', field=name, p=j(b),
                **kept(size, lag.double_evaluations, [f(b)], lambda v: els(v, size)))
        rec.add('poly', op='l.mul', field=name, p=j(b), q=j(c),
                **kept(size, lag.poly_mul, [f(b), f(c)], lambda v: els(v, size)))
    for k in extend:
        d = b[:m - k]

        def ext():
            v = f(d)
            lag.extend_values_to_power_of_2(v, m)
            return v
        rec.add('poly', op='l.extend', field=name, p=j(d), n=m, out=res(ext, lambda v: els(v, size)))


def large_polys(rec: Rec, name, n):
    """Long polynomials, many nodes and wide batches."""
    from vdaf_poc.field import Lagrange, poly_add, poly_eval, poly_interp, poly_mul, poly_strip
    F = FIELDS[name]
    (p, size, log) = PRIME[name]
    rng = rec.rng

    def f(v):
        return [F(x) for x in v]

    def j(v):
        return [le(x, size) for x in v]
    a = rvec(rng, name, n) + [0] * rng.choice((0, 1, 3, 300))
    b = rvec(rng, name, rng.choice((1, 3, n - 1, n, n + 1, 2 * n)))
    x = relem(rng, name)
    rec.add('poly', op='p.strip', field=name, p=j(a), **kept(size, lambda *v: poly_strip(F, *v), [f(a)], lambda v: els(v, size)))
    rec.add('poly', op='p.eval', field=name, p=j(a), x=le(x, size), **kept(size, lambda *v: poly_eval(F, *v), [f(a), F(x)], lambda v: el(v, size)))
    for (u, v) in ((a, b), (b, a)):
        rec.add('poly', op='p.add', field=name, p=j(u), q=j(v), **kept(size, lambda *v: poly_add(F, *v), [f(u), f(v)], lambda v: els(v, size)))
        rec.add('poly', op='p.mul', field=name, p=j(u), q=j(v), **kept(size, lambda *v: poly_mul(F, *v), [f(u), f(v)], lambda v: els(v, size)))
    k = min(n, 130, p)
    xs = rng.sample(range(p), k) if p < 100000 else list(dict.fromkeys(rvec(rng, name, k)))
    ys = rvec(rng, name, len(xs))
    rec.add('poly', op='p.interp', field=name, xs=j(xs), ys=j(ys),
            **kept(size, lambda *v: poly_interp(F, *v), [f(xs), f(ys)], lambda v: els(v, size)))
    if log >= 3:
        ps = [rvec(rng, name, 8) for _ in range(n)]
        lag = Lagrange(F)
        rec.add('poly', op='l.evalbatch', field=name, ps=[j(q) for q in ps], x=le(x, size),
                **kept(size, lag.poly_eval_batched, [[f(q) for q in ps], F(x)], lambda v: els(v, size)))


PRIMGEN = {'F5': 2, 'F13': 5, 'F17': 3, 'F97': 28, 'F193': 11, 'F257': 3, 'F7681': 62, 'F12289': 41, 'F40961': 243,
           'F64': pow(7, 4294967295, PRIME['F64'][0]),
           'F96': pow(3, 4294966555, PRIME['F96'][0]),
           'F128': pow(7, 4611686018427387897, PRIME['F128'][0])}


def all_interp(rec: Rec, name, deg):
    """Every set of values at fixed distinct points, in a small field."""
    import itertools
    from vdaf_poc.field import poly_interp
    F = FIELDS[name]
    (p, size, _) = PRIME[name]
    for xs in itertools.permutations(range(p), deg):
        for ys in itertools.product(range(p), repeat=deg):
            rec.add('poly', op='p.interp', field=name, xs=[le(x, size) for x in xs], ys=[le(y, size) for y in ys],
                    out=res(lambda: poly_interp(F, [F(x) for x in xs], [F(y) for y in ys]),
                            lambda v: els(v, size)))


def jobs_p10(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    for name in FIELDS:
        for k in range(2 if not deep else 12):
            jobs.append(('poly-%s-%d' % (name, k), polys, dict(name=name, n=20 if not deep else 60, maxlen=12 if not deep else 24)))
    for name in NTT:
        log = PRIME[name][2]
        for lg in range(0, min(log, 6 if not deep else 8) + 1):
            jobs.append(('ntt-%s-%d' % (name, lg), transforms, dict(name=name, logs=[lg], n=6 if not deep else 20)))
    for (name, lgs) in (('F64', (7, 8, 9, 10, 11)), ('F96', (7, 8)), ('F128', (7, 8, 9, 10)), ('F257', (7, 8)), ('F7681', (8, 9)),
                        ('F12289', (10, 11)), ('F40961', (7, 12) if deep else (7,))):
        for lg in lgs:
            jobs.append(('nttlarge-%s-%d' % (name, lg), large_transforms, dict(
                name=name, lg=lg, extend=(0, 1, 2, 2**lg // 2 - 1, 2**lg - 1) if lg <= 8 else (0, 1) if lg <= 10 else ())))
    for name in ('F257', 'F40961', 'F64', 'F96', 'F128', 'F255'):
        for n in (33, 64, 65, 129, 257) if not deep else (32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400):
            jobs.append(('polylarge-%s-%d' % (name, n), large_polys, dict(name=name, n=n)))
    jobs.append(('interp-F5-2', all_interp, dict(name='F5', deg=2)))
    if deep:
        jobs.append(('interp-F5-3', all_interp, dict(name='F5', deg=3)))
    return jobs


##
# P11
#

def xof_class(kind):
    from vdaf_poc.xof import XofFixedKeyAes128, XofTurboShake128
    return XofTurboShake128 if kind == 'turbo' else XofFixedKeyAes128


def xof_stream(rec: Rec, kind, seedlen, dstlen, binderlen, script):
    """One instance, driven by a script of ('next', n) and
    ('vec', field, n)."""
    rng = rec.rng
    seed, dst, binder = (rng.randbytes(n) for n in (seedlen, dstlen, binderlen))
    box = []
    rec.add('xof', op='x.new', kind=kind, seed=J(seed), dst=J(dst), binder=J(binder),
            out=res(lambda: box.append(xof_class(kind)(seed, dst, binder)), lambda v: []))
    if not box:
        return
    x = box[0]
    for step in script:
        if step[0] == 'next':
            rec.add('xof', op='x.next', n=step[1], out=res(lambda: x.next(step[1]), J))
        elif step[0] == 'skip':
            rec.add('xof', op='x.skip', n=step[1], out=res(lambda: x.next(step[1]), len))
        else:
            (p, size, _) = PRIME[step[1]]
            rec.add('xof', op='x.vec', field=step[1], n=step[2],
                    out=res(lambda: x.next_vec(FIELDS[step[1]], step[2]), lambda v: els(v, size)))


def xof_static(rec: Rec, kind, n):
    rng = rec.rng
    X = xof_class(kind)
    ss = 32 if kind == 'turbo' else 16
    for _ in range(n):
        seed, dst, binder = rng.randbytes(ss), rng.randbytes(rng.randrange(0, 60)), rng.randbytes(rng.randrange(0, 200))
        common = dict(kind=kind, seed=J(seed), dst=J(dst), binder=J(binder))
        rec.add('xof', op='x.derive', out=res(lambda: X.derive_seed(seed, dst, binder), J), **common)
        name = rng.choice(list(FIELDS))
        k = rng.randrange(0, 30)
        rec.add('xof', op='x.expand', field=name, n=k,
                out=res(lambda: X.expand_into_vec(FIELDS[name], seed, dst, binder, k),
                        lambda v: els(v, PRIME[name][1])), **common)


def xof_family(rec: Rec, kind, n):
    """Several evaluations in one process whose arguments are alike: the same
    bytes divided differently, one argument changed, the first again."""
    rng = rec.rng
    X = xof_class(kind)
    ss = 32 if kind == 'turbo' else 16

    def one(seed, dst, binder):
        common = dict(kind=kind, seed=J(seed), dst=J(dst), binder=J(binder))
        rec.add('xof', op='x.derive', out=res(lambda: X.derive_seed(seed, dst, binder), J), **common)
        rec.add('xof', op='x.expand', field='F64', n=3,
                out=res(lambda: X.expand_into_vec(FIELDS['F64'], seed, dst, binder, 3), lambda v: els(v, 8)), **common)
    for _ in range(n):
        seed = rng.choice((rng.randbytes(ss), bytes(ss)))
        text = rng.choice((rng.randbytes(rng.randrange(2, 60)), bytes(rng.randrange(2, 40)), b'a' * 20))
        cuts = sorted(rng.sample(range(len(text) + 1), min(3, len(text))))
        family = [(seed, text[:c], text[c:]) for c in cuts]
        (_, d, b) = family[0]
        family += [(seed, d + b'\0', b), (seed, d, b + b'\0'), (seed, d, b'\0' + b), (seed, b, d), (seed[::-1], d, b),
                   (seed, b'', d + b), (seed, d + b, b''), (bytes([seed[0] ^ 1]) + seed[1:], d, b), (seed[:-1] + bytes([seed[-1] ^ 128]), d, b)]
        rng.shuffle(family)
        for a in family + family[:2]:
            one(*a)


def xof_interleaved(rec: Rec, kind, n):
    """Streams read in turns."""
    rng = rec.rng
    X = xof_class(kind)
    ss = 32 if kind == 'turbo' else 16
    dst, binder = rng.randbytes(8), rng.randbytes(17)
    seed = rng.randbytes(ss)
    args = [(seed, dst, binder), (rng.randbytes(ss), dst, binder), (seed, dst[::-1], binder), (seed, dst, binder), (seed, dst, b'')]
    xs = [X(*a) for a in args]
    logs = [[] for _ in xs]
    for _ in range(n):
        i = rng.randrange(len(xs))
        if rng.random() < 0.6:
            k = rng.choice((1, 5, 15, 16, 17, 40))
            logs[i].append(dict(op='x.next', n=k, out=res(lambda: xs[i].next(k), J)))
        else:
            name = rng.choice(list(FIELDS))
            logs[i].append(dict(op='x.vec', field=name, n=3, out=res(lambda: xs[i].next_vec(FIELDS[name], 3), lambda v: els(v, PRIME[name][1]))))
    for ((s, d, b), log) in zip(args, logs):
        rec.add('xof', op='x.new', kind=kind, seed=J(s), dst=J(d), binder=J(b), out={'ok': True, 'val': []})
        for e in log:
            rec.add('xof', **e)


def jobs_p11(tier, rng):
    deep = tier == 'thorough'
    jobs = [('xor', byte_xor, dict(n=1 if not deep else 10))]
    names = list(FIELDS)
    for kind in ('turbo', 'aes'):
        ss = 32 if kind == 'turbo' else 16
        # Every split of a short stream into two reads, around block borders.
        block = 168 if kind == 'turbo' else 16
        for a in list(range(0, 2 * block + 2, 1 if kind == 'aes' else 41)) + [block - 1, block, block + 1, 2 * block]:
            jobs.append(('split-%s-%d' % (kind, a) if ('split-%s-%d' % (kind, a)) not in [j[0] for j in jobs] else 'split2-%s-%d' % (kind, a),
                         xof_stream, dict(kind=kind, seedlen=ss, dstlen=8, binderlen=17,
                                          script=[('next', a), ('next', 2 * block - a + 3 if a < 2 * block else 5), ('next', 1), ('next', block)])))
        for k in range(40 if not deep else 400):
            script = []
            for _ in range(rng.randrange(1, 12)):
                if rng.random() < 0.5:
                    script.append(('next', rng.choice([0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 48, rng.randrange(1, 400)])))
                else:
                    script.append(('vec', rng.choice(names), rng.choice([0, 1, 2, 3, rng.randrange(1, 40)])))
            jobs.append(('mix-%s-%d' % (kind, k), xof_stream, dict(
                kind=kind, seedlen=ss, dstlen=rng.choice([0, 1, 8, 9, 100, 167, 168, 300]),
                binderlen=rng.choice([0, 1, 16, 17, 24, 167, 168, 169, 500, 1000]), script=script)))
        # Argument sizes at and around the limits.
        for seedlen in ((0, 1, 16, 31, 32, 33, 254, 255, 256, 300) if kind == 'turbo' else (0, 1, 15, 16, 17, 32)):
            jobs.append(('seed-%s-%d' % (kind, seedlen), xof_stream, dict(
                kind=kind, seedlen=seedlen, dstlen=8, binderlen=16, script=[('next', 40), ('vec', 'F64', 3)])))
        for dstlen in (0, 1, 255, 256, 257, 65534, 65535, 65536, 65537):
            jobs.append(('dst-%s-%d' % (kind, dstlen), xof_stream, dict(
                kind=kind, seedlen=ss, dstlen=dstlen, binderlen=3, script=[('next', 40)])))
        for b in (65535, 65536, 70000):
            jobs.append(('binder-%s-%d' % (kind, b), xof_stream, dict(
                kind=kind, seedlen=ss, dstlen=8, binderlen=b, script=[('next', 40)])))
        # Long streams: counters and sampling beyond one byte of blocks.
        jobs.append(('long-%s' % kind, xof_stream, dict(
            kind=kind, seedlen=ss, dstlen=8, binderlen=16,
            script=[('next', 4090), ('next', 20), ('vec', 'F128', 300), ('vec', 'F257', 200), ('next', 33)])))
        for (k, far) in enumerate((2**16 - 40, 2**18 - 8, 2**20 - 24) + ((2**22 - 5,) if deep else ())):
            jobs.append(('far-%s-%d' % (kind, k), xof_stream, dict(
                kind=kind, seedlen=ss, dstlen=8, binderlen=16,
                script=[('skip', far), ('next', 1), ('next', 60), ('vec', 'F64', 5), ('vec', 'F255', 3), ('skip', 1000), ('next', 17)])))
        for k in range(4 if not deep else 30):
            jobs.append(('static-%s-%d' % (kind, k), xof_static, dict(kind=kind, n=12)))
            jobs.append(('family-%s-%d' % (kind, k), xof_family, dict(kind=kind, n=6 if not deep else 30)))
            jobs.append(('turns-%s-%d' % (kind, k), xof_interleaved, dict(kind=kind, n=40 if not deep else 150)))
    return jobs
