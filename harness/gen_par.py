"""Parameters and sizes of arguments: P25."""

from core import nat, res
from cat3 import *
from gen_alg import rvec
from vd import FlpBBCGGI19, Generic3
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.vdaf import run_vdaf
from vdaf_poc.xof import XofFixedKeyAes128

JOINT = ('SumVec', 'Histogram', 'Multihot')


def wide(name, field, length=1, chunk=1, mx=1):
    return {'name': name, 'field': field, 'length': nat(length), 'chunk': nat(chunk), 'max': nat(mx), 'poly': [0]}


def build(name, field, length, chunk, mx):
    F = FIELDS[field]
    return {'Count': lambda: Count(F), 'Sum': lambda: Sum(F, mx), 'SumVec': lambda: SumVec(F, length, mx, chunk),
            'Histogram': lambda: Histogram(F, length, chunk), 'Multihot': lambda: MultihotCountVec(F, length, mx, chunk)}[name]()


def lens(flp):
    return [nat(x) for x in (flp.MEAS_LEN, flp.OUTPUT_LEN, flp.JOINT_RAND_LEN, flp.PROVE_RAND_LEN, flp.QUERY_RAND_LEN,
                             flp.PROOF_LEN, flp.VERIFIER_LEN)]


def job_circuits(rec, cases):
    for (name, field, length, chunk, mx) in cases:
        rec.add('param', op='circuit', c=wide(name, field, length, chunk, mx),
                out=res(lambda: lens(FlpBBCGGI19(build(name, field, length, chunk, mx)))))


def own(name, shares, length, chunk, mx):
    return {'Count': lambda: Prio3Count(shares), 'Sum': lambda: Prio3Sum(shares, mx),
            'SumVec': lambda: Prio3SumVec(shares, length, mx, chunk), 'Histogram': lambda: Prio3Histogram(shares, length, chunk),
            'Multihot': lambda: Prio3MultihotCountVec(shares, length, mx, chunk)}[name]()


def sizes(v):
    return [v.SHARES, v.ROUNDS, v.NONCE_SIZE, v.VERIFY_KEY_SIZE, v.RAND_SIZE]


def job_prio3(rec, cases):
    """cases: (class, circuit name, field, shares, proofs, length, chunk, max)"""
    for (cls, name, field, shares, proofs, length, chunk, mx) in cases:
        def call():
            if cls == 'own':
                v = own(name, shares, length, chunk, mx)
            elif cls == 'multiproof':
                v = Prio3SumVecWithMultiproof(shares, FIELDS[field], proofs, length, mx, chunk)
            else:
                v = Generic3(shares, build(name, field, length, chunk, mx), proofs)
            return {'lens': lens(v.flp), 'sizes': sizes(v), 'proofs': v.PROOFS, 'id': list(v.ID.to_bytes(4, 'big'))}
        ident = IDS[name] if cls == 'own' else 0xFFFFFFFF
        rec.add('param', op='prio3', c=wide(name, field, length, chunk, mx), shares=nat(shares), proofs=nat(proofs),
                id=list(ident.to_bytes(4, 'big')), out=res(call))


def job_point(rec):
    for bits in (-(1 << 40), -256, -2, -1, 0, 1, 2, 3, 8, 16, 255, 256, 257, 1000, 65535, 65536):
        def pop():
            v = Poplar1(bits)
            return {'sizes': sizes(v), 'id': list(v.ID.to_bytes(4, 'big'))}
        rec.add('param', op='poplar1', bits=nat(bits), out=res(pop))
        for vl in (-5, -1, 0, 1, 2, 3, 100):
            def idpf():
                v = IdpfBBCGGI21(vl, bits)
                return [v.BITS, v.VALUE_LEN, v.SHARES, v.NONCE_SIZE, v.KEY_SIZE, v.RAND_SIZE]
            rec.add('param', op='idpf', bits=nat(bits), vl=nat(vl), out=res(idpf))


def job_gadgets(rec):
    rng = rec.rng
    F = FIELDS['F64']
    polys = [(), (0,), (1,), (5, 0), (0, 1), (0, -1, 1), (0, -1, 1, 0), (0, -1, 1, 0, 0, 0), (0, 0, 0), (0, 0, 0, 4), (1, 2, 3, 4, 5), (0, 0, 7, 0, 0)]
    for p in polys:
        rec.add('param', op='polyeval', poly=list(p), out=res(lambda: (lambda g: [g.ARITY, g.DEGREE])(PolyEval(list(p), 3))))
    for count in (1, 2, 3, 8, 17):
        for (sub, arity, deg) in ((Mul(), 2, 2), (PolyEval([0, -1, 1], 3), 1, 2), (PolyEval([0, 2, -3, 1], 3), 1, 3), (PolyEval([0, 1, 0], 3), 1, 1)):
            rec.add('param', op='parallel', arity=arity, deg=deg, count=count,
                    out=res(lambda: (lambda g: [g.ARITY, g.DEGREE])(ParallelSum(sub, count))))
    gs = [(Mul(), 2), (PolyEval([0, -1, 1], 3), 1), (PolyEval([0, 2, -3, 1], 3), 1)]
    gs += [(ParallelSum(Mul(), k), 2 * k) for k in (1, 2, 3)] + [(ParallelSum(PolyEval([0, -1, 1], 3), k), k) for k in (1, 2, 4)]
    for (g, arity) in gs:
        for n in sorted({0, 1, arity - 1, arity, arity + 1, 2 * arity, 2 * arity + 1}):
            v = [F(x) for x in rvec(rng, 'F64', n)]
            rec.add('param', op='gadget', arity=arity, n=n, out=res(lambda: g.eval(F, v), lambda r: 0))
            ws = [[F(x) for x in rvec(rng, 'F64', 4)] for _ in range(n)]
            rec.add('param', op='gadgetpoly', arity=arity, lens=[len(w) for w in ws], out=res(lambda: g.eval_poly(F, ws), lambda r: 0))
        if arity > 1:
            for k in range(arity):
                ws = [[F(x) for x in rvec(rng, 'F64', 4)] for _ in range(arity)]
                ws[k] = [F(x) for x in rvec(rng, 'F64', 8)]
                rec.add('param', op='gadgetpoly', arity=arity, lens=[len(w) for w in ws], out=res(lambda: g.eval_poly(F, ws), lambda r: 0))


def around(n, *more):
    return sorted({x for x in (0, 1, n - 16, n - 1, n, n + 1, n + 16, n + 32, n - 32, 2 * n, n // 2) + more if x >= 0})


def job_shard(rec, V):
    rng = rec.rng
    inst = make(V)
    m = rmeas(rng, V)
    want = rand_size(V)
    ml = V['bits'] if V['kind'] == 'poplar1' else 0

    def go(nonce, rand, meas=None):
        out = res(lambda: inst.shard(b'ctx', m if meas is None else meas, rng.randbytes(nonce), rng.randbytes(rand)), lambda r: 0)
        rec.add('param', op='shard', v=V, nonce=nonce, rand=rand, meas=ml if meas is None else len(meas), out=out)
    for n in around(16, 8, 12, 24):
        go(n, want)
    for n in around(want, 32, 64, 96, 128, want + 64):
        go(16, n)
    # sizes whose sum is right
    for (a, b) in ((15, want + 1), (17, want - 1), (32, want - 16), (0, want + 16)):
        go(a, b)
    if V['kind'] == 'poplar1':
        for n in sorted({0, 1, ml - 1, ml, ml + 1, 2 * ml, ml + 8}):
            go(16, want, tuple(rng.random() < .5 for _ in range(n)))
    # the verification key
    param = (0, ((False,), (True,))) if V['kind'] == 'poplar1' else None
    for n in (0, 1, 16, 31, 32, 33, 48, 64):
        for ms in ([], [m]):
            rec.add('param', op='run', key=n, out=res(lambda: run_vdaf(inst, rng.randbytes(n), param, b'ctx', ms), lambda r: 0))


def job_shape(rec, V):
    inst = make(V)

    def call():
        (p, ins) = inst.shard(b'', rmeas(rec.rng, V), rec.rng.randbytes(inst.NONCE_SIZE), rec.rng.randbytes(inst.RAND_SIZE))
        return {'public': len(inst.encode_public_share(p)), 'inputs': [len(inst.encode_input_share(s)) for s in ins]}
    rec.add('param', op='shape', v=V, out=res(call))


def job_gen(rec, bits, vl):
    rng = rec.rng
    I = IdpfBBCGGI21(vl, bits)
    FI, FL = FIELDS['F64'], FIELDS['F255']

    def go(alpha=bits, inner=None, leaf=vl, nonce=16, rand=32):
        inner = [vl] * (bits - 1) if inner is None else inner
        out = res(lambda: I.gen(tuple(rng.random() < .5 for _ in range(alpha)),
                                [[FI(x) for x in rvec(rng, 'F64', n)] for n in inner],
                                [FL(x) for x in rvec(rng, 'F255', leaf)], b'ctx', rng.randbytes(nonce), rng.randbytes(rand)), lambda r: 0)
        rec.add('param', op='gen', bits=bits, vl=vl, alpha=alpha, inner=inner, leaf=leaf, nonce=nonce, rand=rand, out=out)
    go()
    for n in sorted({0, 1, bits - 1, bits, bits + 1, 2 * bits}):
        go(alpha=n)
        if n != bits:
            go(alpha=n, inner=[vl] * max(n - 1, 0))
    for n in sorted({0, bits - 2, bits - 1, bits, bits + 1} - {-1}):
        go(inner=[vl] * n)
    for n in sorted({0, 1, vl - 1, vl + 1, 2 * vl}):
        go(leaf=n)
        for k in range(bits - 1):
            x = [vl] * (bits - 1)
            x[k] = n
            go(inner=x)
        if n != vl:
            go(inner=[n] * (bits - 1), leaf=n)
    for n in around(16, 8):
        go(nonce=n)
    for n in around(32):
        go(rand=n)
    go(nonce=32, rand=16)


def job_seed(rec):
    rng = rec.rng
    for (name, cls, want) in (('turbo', XofTurboShake128, 32), ('aes', XofFixedKeyAes128, 16)):
        for n in [*range(0, 70), 127, 128, 254, 255, 256, 257, 300, 512]:
            rec.add('param', op='seed', xof=name, size=n, out=res(lambda: cls(rng.randbytes(n), b'dst', b'binder').next(5), lambda r: 0))
            if n % 4 == 0 or abs(n - want) < 2:
                rec.add('param', op='seed', xof=name, size=n, out=res(lambda: cls.derive_seed(rng.randbytes(n), b'dst', b'binder'), lambda r: 0))
                rec.add('param', op='seed', xof=name, size=n,
                        out=res(lambda: cls.expand_into_vec(FIELDS['F64'], rng.randbytes(n), b'dst', b'binder', 3), lambda r: 0))


def job_flp(rec, c):
    rng = rec.rng
    valid = make_circuit(c)
    flp = FlpBBCGGI19(valid)
    F, fld = FIELDS[c['field']], c['field']

    def vec(n):
        return [F(x) for x in rvec(rng, fld, n)]
    fns = {'prove': (flp.prove, [flp.MEAS_LEN, flp.PROVE_RAND_LEN, flp.JOINT_RAND_LEN]),
           'query': (lambda *a: flp.query(*a, rng.randint(1, 3)), [flp.MEAS_LEN, flp.PROOF_LEN, flp.QUERY_RAND_LEN, flp.JOINT_RAND_LEN]),
           'decide': (flp.decide, [flp.VERIFIER_LEN]),
           'eval': (lambda *a: valid.eval(*a, rng.randint(1, 3)), [flp.MEAS_LEN, flp.JOINT_RAND_LEN])}
    for (fn, (call, want)) in fns.items():
        tries = [want]
        for k in range(len(want)):
            for d in {-want[k], -1, 1, want[k] or 2}:
                if want[k] + d >= 0:
                    t = list(want)
                    t[k] += d
                    tries.append(t)
        for i in range(len(want)):
            for j in range(len(want)):
                if i != j and want[i] > 0:
                    t = list(want)
                    t[i] -= 1
                    t[j] += 1
                    tries.append(t)
        for t in tries:
            args = [vec(n) for n in t]
            if fn == 'query':
                # no test point among the roots of unity
                args[2] = [F(rng.randrange(2, PRIME[fld][0])) for _ in range(t[2])]
            rec.add('param', op='flp', fn=fn, c=c, sizes=t, out=res(lambda: call(*args), lambda r: 0))


def jobs_p25(tier, rng):
    deep = tier == 'thorough'
    ints = [-(1 << 70), -257, -2, -1, 0, 1, 2, 3]
    cases = []
    for f in ('F5', 'F13', 'F17', 'F97', 'F257', 'F12289', 'F64', 'F96', 'F128'):
        p = PRIME[f][0]
        cases.append(('Count', f, 1, 1, 1))
        b = p.bit_length()
        ms = ints + [p - 2, p - 1, p, p + 1, 2 * p, 1 << (b - 2), (1 << (b - 2)) - 1, (1 << (b - 2)) + 1, (1 << (b - 1)) - 1, 1 << (b - 1),
                     (1 << (b - 1)) + 1, (1 << b) - 1, 1 << b, 1 << (b + 3), rng.randrange(1, p), rng.randrange(1, p)]
        if p < 300:
            ms = sorted(set(ms) | set(range(-3, p + 5)))
        for mx in ms:
            cases.append(('Sum', f, 1, 1, mx))
            cases.append(('SumVec', f, rng.randint(1, 6), rng.randint(1, 6), mx))
        for x in ints:
            cases.append(('SumVec', f, x, 2, 1))
            cases.append(('SumVec', f, 2, x, 1))
            cases.append(('Histogram', f, x, 2, 1))
            cases.append(('Histogram', f, 2, x, 1))
            cases.append(('Multihot', f, 3, x, 2))
            cases.append(('Multihot', f, 3, 2, x))
            cases.append(('Multihot', f, x, 2, 1))
            cases.append(('Multihot', f, x, 2, x))
            cases.append(('SumVec', f, x, x, x))
            cases.append(('Histogram', f, x, x, 1))
        for ln in (p - 2, p - 1, p, p + 1, 2 * p, 1 << b):
            for w in (1, 2, p - 2, p - 1, p, ln - 1, ln, ln + 1):
                cases.append(('Multihot', f, ln, rng.choice((1, 2, 7)), w))
        for ln in range(1, 12):
            for w in (1, ln - 1, ln, ln + 1, 2 * ln):
                if ln < p:
                    cases.append(('Multihot', f, ln, rng.randint(1, 12), w))
        for _ in range(40 if deep else 10):
            ln, ch = rng.choice((1, 2, 7, 64, 255, 256, 1000, 65535)), rng.choice((1, 2, 3, 64, 255, 256, 1000, 65535))
            cases.append(('Histogram', f, ln, ch, 1))
            cases.append(('SumVec', f, min(ln, 1000), ch, rng.choice((1, 2))))
            cases.append(('Multihot', f, ln, ch, rng.randint(1, ln)))
    jobs = [('circuits%d' % i, job_circuits, dict(cases=cases[i:i + 100])) for i in range(0, len(cases), 100)]
    p3 = []
    counts = [-256, -255, -1, 0, 1, 2, 3, 4, 127, 128, 253, 254, 255, 256, 257, 258, 300, 511, 512, 1000, 65536, 65538, (1 << 32) + 2, 1 << 64]
    shapes = {'Count': (1, 1, 1), 'Sum': (1, 1, 100), 'SumVec': (3, 2, 5), 'Histogram': (5, 2, 1), 'Multihot': (4, 3, 2)}
    for (name, (ln, ch, mx)) in shapes.items():
        fld = DEFAULT_FIELD[name]
        for n in counts:
            p3.append(('own', name, fld, n, 1, ln, ch, mx))
        for f in ('F64', 'F96', 'F128'):
            for n in counts:
                p3.append(('generic', name, f, n, 1, ln, ch, mx))
                p3.append(('generic', name, f, 2, n, ln, ch, mx))
                if name == 'SumVec':
                    p3.append(('multiproof', name, f, n, 3, ln, ch, mx))
                    p3.append(('multiproof', name, f, 3, n, ln, ch, mx))
                p3.append(('generic', name, f, n, rng.choice(counts), ln, ch, mx))
        for x in (-1, 0):
            p3.append(('own', name, fld, 2, 1, x, ch, mx))
            p3.append(('own', name, fld, 2, 1, ln, x, mx))
            p3.append(('own', name, fld, 2, 1, ln, ch, x))
    for mx in (2**63 - 1, 2**63, 2**64 - 2**32, 2**64, 2**62):
        p3.append(('own', 'Sum', 'F64', 2, 1, 1, 1, mx))
    for mx in (2**127 - 1, 2**127, 2**126, PRIME['F128'][0] - 1, PRIME['F128'][0]):
        p3.append(('own', 'SumVec', 'F128', 2, 1, 2, 2, mx))
    for (ln, w) in ((4, 5), (4, 4), (1, 1), (1, 2), (PRIME['F128'][0], 1), (PRIME['F128'][0] - 1, 1)):
        p3.append(('own', 'Multihot', 'F128', 2, 1, ln, 2, w))
    # a circuit that takes no length ignores it
    p3 = [(c, n, f, s, q, ln if n in JOINT else 1, ch if n in JOINT else 1, mx if n in ('Sum', 'SumVec', 'Multihot') else 1)
          for (c, n, f, s, q, ln, ch, mx) in p3]
    jobs += [('prio3-%d' % i, job_prio3, dict(cases=p3[i:i + 60])) for i in range(0, len(p3), 60)]
    jobs += [('point', job_point, {}), ('gadgets', job_gadgets, {}), ('seed', job_seed, {})]
    vs = [prio3(n, c) for c in SMALLC for n in (2, 3, 4)] + multi(rng) + [poplar1(b) for b in (1, 2, 5, 16, 33)]
    jobs += [('shard%d' % i, job_shard, dict(V=V)) for (i, V) in enumerate(vs)]
    big = [prio3(255, circ('Count', 'F64')), prio3(254, circ('Histogram', 'F128', 3, 2)), prio3(255, circ('SumVec', 'F128', 2, 2, 3)),
           prio3(2, circ('SumVec', 'F64', 1, 1, 1), 255), prio3(2, circ('SumVec', 'F64', 2, 2, 3), 254), prio3(2, circ('Count', 'F64'), 255),
           prio3(255, circ('Multihot', 'F128', 3, 2, 2)), prio3(200, circ('Sum', 'F64', mx=255))]
    jobs += [('shape%d' % i, job_shape, dict(V=V)) for (i, V) in enumerate(big + vs[:-5])]
    jobs += [('gen-%d-%d' % (b, v), job_gen, dict(bits=b, vl=v)) for b in (1, 2, 3, 8) for v in (1, 2, 3)]
    cs = SMALLC + [circ('Poly', 'F64', 3, poly=(0, 2, -3, 1)), circ('PolySum', 'F96', 5, 2, poly=(0, -1, 1)), circ('Chain', 'F128', 2, poly=(0, -1, 0, 1)),
                   circ('Count', 'F96'), circ('Histogram', 'F64', 10, 3)]
    jobs += [('flp%d' % i, job_flp, dict(c=c)) for (i, c) in enumerate(cs)]
    return jobs
