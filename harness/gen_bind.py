"""P12: binding to context, key, nonce, algorithm, role and level."""

from cat3 import *
from scn import *
from gen_pop import lfield, rbits, some_prefixes


def near(rng, b):
    """A byte string that differs from b in one bit."""
    k = rng.choice((0, len(b) - 1, rng.randrange(len(b))))
    return b[:k] + bytes([b[k] ^ (1 << rng.randrange(8))]) + b[k + 1:]


def new(V, rng, inst, ctx):
    m = rmeas(rng, V)
    param = b''
    if V['kind'] == 'poplar1':
        level = rng.randrange(V['bits'])
        param = inst.encode_agg_param((level, tuple(sorted({m[:level + 1]} | set(some_prefixes(rng, V['bits'], level, 2, m))))))
    return honest_sc(V, rng, m, ctx=ctx, param=param)


def others(sc, who, **kw):
    """The scenario in which the aggregators in who use other arguments."""
    return dict(sc, aggs=[dict(a, **kw) if i in who else a for (i, a) in enumerate(sc['aggs'])])


def bind_ctx(rec, V, pairs):
    S = Scenarios(rec, [V])
    rng = rec.rng
    n = shares_of(V)
    for (a, b) in pairs:
        sc = new(V, rng, S.insts[0], a)
        S.run(sc, 'honest')
        S.run(others(sc, range(n), ctx=J(b)), 'another context at the client')
        i = rng.randrange(n)
        S.run(others(sc, [i], ctx=J(b)), 'another context at aggregator %d' % i)
        S.run(dict(others(sc, [i], ctx=J(b)), comb=i + 1), 'another context at aggregator %d, which combines' % i)


def bind_rest(rec, V, rounds):
    S = Scenarios(rec, [V])
    rng = rec.rng
    n = shares_of(V)
    for _ in range(rounds):
        sc = new(V, rng, S.insts[0], rng.randbytes(rng.choice((0, 5))))
        a = sc['aggs'][0]
        for i in range(n):
            S.run(others(sc, [i], key=J(near(rng, bytes(a['key'])))), 'another key at aggregator %d' % i)
            S.run(others(sc, [i], nonce=J(near(rng, bytes(a['nonce'])))), 'another nonce at aggregator %d' % i)
        S.run(others(sc, range(n), key=J(rng.randbytes(32))), 'another key at all aggregators')
        for k in range(16):
            nn = bytearray(a['nonce'])
            nn[k] ^= 1 << rng.randrange(8)
            S.run(others(sc, range(n), nonce=J(nn)), 'another nonce at all aggregators')
        for k in (0, 7, 15, 16, 24, 31):
            kk = bytearray(a['key'])
            kk[k] ^= 1 << rng.randrange(8)
            i = rng.randrange(n)
            S.run(others(sc, [i], key=J(kk)), 'another key at aggregator %d' % i)
        # roles
        for i in range(n):
            for j in range(n):
                if i != j:
                    S.run(others(sc, [i], id=j), 'aggregator %d in the role of %d' % (i, j))
        if n == 2:
            e = dict(sc, aggs=[dict(sc['aggs'][0], id=1), dict(sc['aggs'][1], id=0)])
            S.run(e, 'roles exchanged')
            e = dict(e, edits=[edit('input', 'sel', sel=[2, 1])])
            S.run(e, 'roles and shares exchanged')
        else:
            e = dict(sc, aggs=[sc['aggs'][0], dict(sc['aggs'][1], id=2), dict(sc['aggs'][2], id=1)] + sc['aggs'][3:])
            S.run(e, 'roles of two helpers exchanged')
            e = dict(e, edits=[edit('input', 'sel', sel=[1, 3, 2] + list(range(4, n + 1)))])
            S.run(e, 'roles and shares of two helpers exchanged')


def bind_algo(rec, Vs):
    """Client and aggregators, or two aggregators, run different variants."""
    S = Scenarios(rec, Vs)
    rng = rec.rng
    n = shares_of(Vs[0])
    for a in range(len(Vs)):
        for b in range(len(Vs)):
            sc = new(Vs[a], rng, S.insts[a], b'x')
            sc['cv'] = a + 1
            m = sc['_m']
            for g in sc['aggs']:
                g['v'] = a + 1
            what = 'honest' if a == b else 'variants %d and %d' % (a, b)
            S.run(others(sc, range(n), v=b + 1), what + ' (client)')
            i = rng.randrange(n)
            S.run(others(sc, [i], v=b + 1), what + ' (aggregator %d)' % i)


def bind_ids(rec, kind, pairs):
    """Shards and verification under pairs of algorithm identifiers."""
    rng = rec.rng
    ids = list(dict.fromkeys(i for q in pairs for i in q))
    Vs = [dict(prio3(2, circ('Count', 'F64') if kind == 'count' else circ('Histogram', 'F128', 2, 1), ident=i)) if kind != 'poplar1' else poplar1(2, i) for i in ids]
    S = Scenarios(rec, Vs)
    for (a, b) in pairs:
        (a, b) = (ids.index(a), ids.index(b))
        (x, y) = (S.insts[a], S.insts[b])
        for u in (1, 5, 255, 256, 65535):
            rec.add('differ', what='tags of usage %d' % u, a=J(x.domain_separation_tag(u, b'c')), b=J(y.domain_separation_tag(u, b'c')))
        sc = new(Vs[a], rng, x, b'x')
        sc['cv'] = a + 1
        for g in sc['aggs']:
            g['v'] = a + 1
        S.run(sc, 'honest')
        S.run(others(sc, range(2), v=b + 1), 'another identifier at the client')
        i = rng.randrange(2)
        S.run(others(sc, [i], v=b + 1), 'another identifier at aggregator %d' % i)


def separation(rec, V, n):
    """Shares drawn for different uses, reports and parties differ: the same
    seeds used with another nonce, context or role give other shares."""
    rec.extra['Vs'] = [V]
    rng = rec.rng
    inst = make(V)
    for _ in range(n):
        ctx, nonce, rand = rng.randbytes(4), rng.randbytes(16), rng.randbytes(rand_size(V))
        m = rmeas(rng, V)

        def sh(c, nn):
            (p, i) = inst.shard(c, m, nn, rand)
            return (inst.encode_public_share(p), [inst.encode_input_share(s) for s in i])
        a = sh(ctx, nonce)
        for (what, b) in (('context', sh(near(rng, ctx), nonce)), ('shorter context', sh(ctx[:-1], nonce))):
            rec.add('differ', what='leader share: ' + what, a=J(a[1][0]), b=J(b[1][0]))
            if V['kind'] == 'poplar1' or a[0]:
                rec.add('differ', what='public share: ' + what, a=J(a[0]), b=J(b[0]))
        b = sh(ctx, near(rng, nonce))
        if V['kind'] == 'poplar1' or a[0]:
            rec.add('differ', what='public share: nonce', a=J(a[0]), b=J(b[0]))
        if V['kind'] == 'poplar1':
            rec.add('differ', what='leader share: nonce', a=J(a[1][0]), b=J(b[1][0]))


def jobs_p12(tier, rng):
    deep = tier == 'thorough'
    jobs = []
    pairs = ctx_pairs(rng, deep)
    rng.shuffle(pairs)
    Vs = [prio3(2, circ('Count', 'F64')), prio3(2, circ('Sum', 'F64', mx=5)), prio3(2, circ('SumVec', 'F128', 2, 2, 3)),
          prio3(3, circ('Histogram', 'F128', 3, 2)), prio3(2, circ('Multihot', 'F128', 3, 2, 2)), poplar1(1), poplar1(3), poplar1(9)]
    share = len(pairs) if deep else (len(pairs) + 1) // 2
    for (i, V) in enumerate(Vs):
        mine = rng.sample(pairs, share)
        for j in range(0, len(mine), 12):
            jobs.append(('ctx%d-%d' % (i, j), bind_ctx, dict(V=V, pairs=mine[j:j + 12])))
    more = [prio3(3, circ('Sum', 'F64', mx=9)), prio3(4, circ('SumVec', 'F128', 2, 1, 1)), prio3(2, circ('SumVec', 'F64', 2, 2, 3), 3),
            prio3(3, circ('Chain', 'F128', 1, poly=(0, -1, 1)), 2)]
    for (i, V) in enumerate(Vs + more):
        jobs.append(('rest%d' % i, bind_rest, dict(V=V, rounds=1 if not deep else 10)))
        jobs.append(('sep%d' % i, separation, dict(V=V, n=3 if not deep else 30)))
    # algorithm identifiers that differ in one byte; the code's own variants among themselves
    ids = [0x00000003, 0x00000103, 0x00010003, 0x01000003, 0x00000083, 0x80000003]
    jobs.append(('ids', bind_algo, dict(Vs=[prio3(2, circ('SumVec', 'F128', 2, 2, 3), ident=i) for i in ids])))
    jobs.append(('ids-count', bind_algo, dict(Vs=[prio3(2, circ('Count', 'F64'), ident=i) for i in ids])))
    jobs.append(('ids-pop', bind_algo, dict(Vs=[poplar1(3), poplar1(3, 0x106), poplar1(3, 0x10006), poplar1(3, 0x01000006)])))
    # identifiers of the standard and of the private range, with one bit or all leading bits changed
    for (z, kind) in enumerate(('count', 'histogram', 'poplar1')):
        pairs = []
        for k in range(32):
            a = rng.choice((1, 2, 3, 4, 5, 6, 0xFFFF0000, 0xFFFFFFFF, rng.getrandbits(32)))
            pairs.append((a, a ^ (1 << k)))
        for k in range(16):
            a = rng.choice((1, 4, 7, rng.randrange(1, 1 << 16)))
            pairs.append((a, a | (k << 28) if k else a | 0x0fff0000))
        for k in (1, 2, 3):
            a = rng.getrandbits(32)
            pairs.append((a, a & (2**(8 * k) - 1) if a >> (8 * k) else a ^ 1))
            pairs.append((a, a >> 8 if a >> 8 != a else 1))
        pairs.append((0x01020304, 0x04030201))
        for j in range(0, len(pairs), 6):
            jobs.append(('ids-%s-%d' % (kind, j), bind_ids, dict(kind=kind, pairs=pairs[j:j + 6])))
    c = circ('SumVec', 'F128', 4, 2, 1)
    jobs.append(('own', bind_algo, dict(Vs=[prio3(2, c), prio3(2, c, generic=True), prio3(2, circ('SumVec', 'F128', 2, 2, 2)),
                                            prio3(2, circ('Histogram', 'F128', 4, 2)), prio3(2, circ('Multihot', 'F128', 4, 2, 1)),
                                            prio3(2, circ('Multihot', 'F128', 3, 2, 1))])))
    jobs.append(('own64', bind_algo, dict(Vs=[prio3(2, circ('Count', 'F64')), prio3(2, circ('Sum', 'F64', mx=1)), prio3(2, circ('Sum', 'F64', mx=2)),
                                              prio3(2, circ('Sum', 'F64', mx=3)), prio3(2, circ('Count', 'F64'), generic=True)])))
    jobs.append(('proofs', bind_algo, dict(Vs=[prio3(2, circ('SumVec', 'F64', 2, 2, 3), k) for k in (1, 2, 3)])))
    return jobs
